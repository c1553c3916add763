from spec import *
HARNESS = dict(src='C15.cpp', lib=VALUEL)
PROVED = 'the encoder writes exactly the canonical head and content of every item; the decoder, from any state it can be resumed in, over any bytes of any length, reports exactly one event per complete item with the value those bytes encode, reads nothing outside its input, stops exactly at incomplete items and errors, and always makes progress; the static and StringBuilder inputs and outputs give and take the bytes in order.'
BOUNDED = 'native replay: all heads, round trips, random hostile bytes delivered whole and in fragments, through both kinds of input'
ASSUMPTIONS = ['StringBuilder length/copyToBuffer/cull/concat behave as specified (their contracts are discharged in C09)', 'the stack can hold the largest byte or text string of the input (the decoder keeps it in a variable-length array)', 'the listener does not touch the decoder or its input']
T = tu_text('cborx.cpp', '''#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <new>
#define private public
#include "cbor-cpp/cbor.cpp"
extern "C" { void ev(int kind, uint64_t v); void evp(int kind, void* p, int n); void item(int nxt, int off); }
// ghost input and listener: the real input_static with the item bookkeeping the specification talks about
struct GI : cbor::input { cbor::input_static in; cbor::decoder* d; int ip; int nxt; int pend;
  GI(void* p, int n) : in(p, n) {}
  bool has_bytes(int c) { return in.input_static::has_bytes(c); }
  uint8_t get_byte() { if (d->_state == cbor::STATE_TYPE) { item(nxt, in._offset); ip = in._offset; pend = 1; } return in.input_static::get_byte(); }
  uint16_t get_short() { return in.input_static::get_short(); } uint32_t get_int() { return in.input_static::get_int(); } float get_float() { return in.input_static::get_float(); }
  double get_double() { return in.input_static::get_double(); } uint64_t get_long() { return in.input_static::get_long(); } void get_bytes(void* to, int c) { in.input_static::get_bytes(to, c); } };
struct GL : cbor::listener { GI* gi;
  void E(int k, uint64_t v) { ev(k, v); gi->nxt = gi->in._offset; gi->pend = 0; } void P(int k, void* p, int n) { evp(k, p, n); gi->nxt = gi->in._offset; gi->pend = 0; }
  void on_integer(int8_t v) { E(1, (uint64_t)(int64_t) v); } void on_integer(int16_t v) { E(1, (uint64_t)(int64_t) v); } void on_integer(int32_t v) { E(1, (uint64_t)(int64_t) v); } void on_integer(int64_t v) { E(1, (uint64_t) v); }
  void on_integer(uint8_t v) { E(2, v); } void on_integer(uint16_t v) { E(2, v); } void on_integer(uint32_t v) { E(2, v); } void on_integer(uint64_t v) { E(2, v); }
  void on_float32(float v) { uint32_t b; memcpy(&b, &v, 4); E(3, b); } void on_double(double v) { uint64_t b; memcpy(&b, &v, 8); E(4, b); }
  void on_bytes(uint8_t* p, int n) { P(5, p, n); } void on_string(char* s) { P(6, s, 0); } void on_array(int n) { E(7, (uint32_t) n); } void on_map(int n) { E(8, (uint32_t) n); } void on_tag(unsigned t) { E(9, t); } void on_special(unsigned c) { E(10, c); }
  void on_bool(bool b) { E(11, b); } void on_null() { E(12, 0); } void on_undefined() { E(13, 0); } void on_error(const char*) { E(14, 0); }
  void on_extra_integer(uint64_t v, int s) { E(s == -1 ? 15 : 16, v); } void on_extra_tag(uint64_t v) { E(17, v); } void on_extra_special(uint64_t v) { E(18, v); } };
''' + offs('gi', 'GI', 'in', 'd', 'ip', 'nxt', 'pend') + offs('gl', 'GL', 'gi') + offs('d', 'cbor::decoder', '_in', '_state', '_currentLength', '_listener') + offs('is', 'cbor::input_static', '_data', '_size', '_offset')
 + offs('os', 'cbor::output_static', '_buffer', '_capacity', '_offset', '_should_free') + offs('en', 'cbor::encoder', '_out') + offs('isb', 'cbor::input_stringbuilder', '_str_bldr', '_offset', '_consume_input', '_consume_container') + offs('osb', 'cbor::output_stringbuilder', '_str_bldr') + '''
extern "C" { void mkgi(GI* g, void* p, int n) { new (g) GI(p, n); } void mkgl(GL* l) { new (l) GL(); } void mkd(cbor::decoder* d, GI* g, GL* l) { new (d) cbor::decoder(*g, *l); } void drun(cbor::decoder* d) { d->run(); } bool dfail(cbor::decoder* d) { return d->failed(); }
void mkd1(cbor::decoder* d, GI* g) { new (d) cbor::decoder(*g); } void dset(cbor::decoder* d, GL* l) { d->set_listener(*l); }
''' + ''.join('int st_%s() { return cbor::STATE_%s; }\n' % (n, n) for n in 'TYPE PINT NINT BYTES_SIZE BYTES_DATA STRING_SIZE STRING_DATA ARRAY MAP TAG SPECIAL ERROR'.split()) + '''
void mkos(cbor::output_static* o, uint32_t cap, uint8_t* b) { new (o) cbor::output_static(cap, b); } void rmos(cbor::output_static* o) { o->~output_static(); } int pb(cbor::output* o, uint8_t v) { return o->put_byte(v); } int pbs(cbor::output* o, const uint8_t* p, int n) { return o->put_bytes(p, n); } uint8_t* odata(cbor::output* o) { return o->data(); } uint32_t osize(cbor::output* o) { return o->size(); }
void mken(cbor::encoder* e, cbor::output* o) { new (e) cbor::encoder(*o); } void mkosb(cbor::output_stringbuilder* o, StringBuilder* s) { new (o) cbor::output_stringbuilder(s); }
void w8(cbor::encoder* e, uint8_t v) { e->write_int(v); } void w16(cbor::encoder* e, uint16_t v) { e->write_int(v); } void w32(cbor::encoder* e, uint32_t v) { e->write_int(v); } void w64(cbor::encoder* e, uint64_t v) { e->write_int(v); } void s8(cbor::encoder* e, int8_t v) { e->write_int(v); } void s16(cbor::encoder* e, int16_t v) { e->write_int(v); } void s32(cbor::encoder* e, int32_t v) { e->write_int(v); } void s64(cbor::encoder* e, int64_t v) { e->write_int(v); }
void wtag(cbor::encoder* e, uint32_t v) { e->write_tag(v); } void warr(cbor::encoder* e, uint32_t v) { e->write_array(v); } void wmap(cbor::encoder* e, uint32_t v) { e->write_map(v); } void wspec(cbor::encoder* e, uint32_t v) { e->write_special(v); } void wbool(cbor::encoder* e, bool v) { e->write_bool(v); }
void wf(cbor::encoder* e, uint32_t b) { float f; memcpy(&f, &b, 4); e->write_float(f); } void wd(cbor::encoder* e, uint64_t b) { double f; memcpy(&f, &b, 8); e->write_double(f); }
void wbytes(cbor::encoder* e, const uint8_t* p, uint32_t n) { e->write_bytes(p, n); } void wstr(cbor::encoder* e, const char* p, uint32_t n) { e->write_string(p, n); } void wcstr(cbor::encoder* e, const char* p) { e->write_string(p); }
''' + ''.join('int wta_%s(cbor::encoder* e, const %s* p, uint32_t n) { return e->write_typed_array(p, n); }\n' % (t, t) for t in 'uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t float double'.split()) + '''
void mki(cbor::input_stringbuilder* i, StringBuilder* s, bool a, bool b) { new (i) cbor::input_stringbuilder(s, a, b); } void rmi(cbor::input_stringbuilder* i) { i->~input_stringbuilder(); } bool ihas(cbor::input* i, int n) { return i->has_bytes(n); } uint8_t ib(cbor::input* i) { return i->get_byte(); } uint16_t ish(cbor::input* i) { return i->get_short(); } uint32_t ii(cbor::input* i) { return i->get_int(); } uint64_t il(cbor::input* i) { return i->get_long(); } void ibs(cbor::input* i, void* p, int n) { i->get_bytes(p, n); }
uint32_t ifl(cbor::input* i) { float f = i->get_float(); uint32_t b; memcpy(&b, &f, 4); return b; } uint64_t idb(cbor::input* i) { double f = i->get_double(); uint64_t b; memcpy(&b, &f, 8); return b; }
void mkis(cbor::input_static* i, void* p, int n) { new (i) cbor::input_static(p, n); } }
''')
ST = {}
def states(c):
    for n in 'TYPE PINT NINT BYTES_SIZE BYTES_DATA STRING_SIZE STRING_DATA ARRAY MAP TAG SPECIAL ERROR'.split():
        (_, r), = c.ex.run('st_' + n, [], State()); ST[n] = z3.BitVecVal(r, 32)
B = lambda k: z3.BitVecVal(k, 32)
class Head:
    """what the bytes at position ip mean (RFC 8949)"""
    def __init__(s, a, ip):
        s.a, s.ip = a, ip; t = z3.Select(a, ip); s.major = z3.ZeroExt(24, z3.LShR(t, 5)); s.minor = z3.ZeroExt(24, t & 31)
        s.extra = z3.If(s.minor == 24, B(1), z3.If(s.minor == 25, B(2), z3.If(s.minor == 26, B(4), z3.If(s.minor == 27, B(8), B(0))))); s.hl = 1 + s.extra
        be = lambda k: z3.Concat([z3.Select(a, ip + 1 + j) for j in range(k)]) if k > 1 else z3.Select(a, ip + 1)
        s.arg = z3.If(s.minor == 24, z3.ZeroExt(56, be(1)), z3.If(s.minor == 25, z3.ZeroExt(48, be(2)), z3.If(s.minor == 26, z3.ZeroExt(32, be(4)), z3.If(s.minor == 27, be(8), z3.ZeroExt(32, s.minor)))))
        s.arg32 = z3.Extract(31, 0, s.arg)
        s.long_ = z3.And(z3.Or(s.major == 2, s.major == 3), z3.Or(s.minor == 27, z3.And(s.minor == 26, z3.UGE(s.arg32, 0x7FFFFFFF))))
        s.bad_head = z3.Or(s.minor >= 28)
        s.is_error = z3.Or(s.bad_head, s.long_, z3.And(z3.Or(s.major == 4, s.major == 5), s.minor == 27))
        s.data = z3.And(z3.Or(s.major == 2, s.major == 3), z3.Not(s.is_error))
def be_bytes(v): return [z3.Extract(k + 7, k, v) for k in range(v.size() - 8, -8, -8)]
@contract('decoder', T, merge=True, vla_limit=0xFFFFFFFF, houdini_timeout=20000)
def _(c):
    states(c); n = c.bv('available', 32); c.st.assume(z3.And(n >= 0, n <= 0x7FFFFFFF))
    data = c.obj('data', n, ro=True); c.ex.to_arr(c.st, data); a = c.st.mem[data].arr
    gi, gl, d = c.obj('gi', c.sizeof('gi')), c.obj('gl', c.sizeof('gl')), c.obj('dec', c.sizeof('d'))
    (st, _), = c.run('mkgi', [Ptr(gi), Ptr(data), n], c.st, cover=False); (st, _), = c.run('mkgl', [Ptr(gl)], st, cover=False); (st, _), = c.run('mkd', [Ptr(d), Ptr(gi), Ptr(gl)], st, cover=False)
    o = lambda t, f: c.off(t, f); I = o('gi', 'in'); OFF, IP, NX, PE = I + o('is', '_offset'), o('gi', 'ip'), o('gi', 'nxt'), o('gi', 'pend'); S, L = o('d', '_state'), o('d', '_currentLength')
    c.set(gi, o('gi', 'd'), 4, Ptr(d), st); c.set(gl, o('gl', 'gi'), 4, Ptr(gi), st)
    g = lambda s, h, f: c.lift(c.get(s, h, f, 4), 32)
    c.post(st, 'a new decoder waits for an item at the start', z3.And(g(st, d, S) == ST['TYPE'], g(st, gi, OFF) == 0))
    # any state a decoder can be resumed in
    f0 = {k: c.bv(k, 32) for k in ('state', 'length', 'offset', 'item', 'next', 'pending')}
    for (h, f), k in (((d, S), 'state'), ((d, L), 'length'), ((gi, OFF), 'offset'), ((gi, IP), 'item'), ((gi, NX), 'next'), ((gi, PE), 'pending')): c.set(h, f, 4, f0[k], st)
    SIZES = {'PINT': [0], 'NINT': [1], 'BYTES_SIZE': [2], 'STRING_SIZE': [3], 'ARRAY': [4], 'MAP': [5], 'TAG': [6], 'SPECIAL': [7]}
    def inv(s):
        state, cur, off, ip, nx, pe = g(s, d, S), g(s, d, L), g(s, gi, OFF), g(s, gi, IP), g(s, gi, NX), g(s, gi, PE); h = Head(a, ip)
        idle = z3.Or(state == ST['TYPE'], state == ST['ERROR']); r = []
        r.append(('known state', z3.Or([state == v for v in ST.values()])))
        r.append(('position inside the input', z3.And(off >= 0, off <= n)))
        r.append(('between items nothing is pending', z3.Implies(idle, z3.And(pe == 0, off == nx))))
        r.append(('inside an item one event is due', z3.Implies(z3.Not(idle), z3.And(pe == 1, ip >= 0, ip < off))))
        for k, (m,) in SIZES.items():
            r.append(('%s: head byte read, argument due' % k, z3.Implies(state == ST[k], z3.And(off == ip + 1, h.major == m, z3.UGE(h.minor, 24), z3.ULE(h.minor, 27), cur == h.extra))))
        for k, m in (('BYTES_DATA', 2), ('STRING_DATA', 3)):
            r.append(('%s: head read, content due' % k, z3.Implies(state == ST[k], z3.And(h.major == m, z3.Not(h.is_error), off == ip + h.hl, cur == h.arg32, cur >= 0, cur < 0x7FFFFFFF))))
        return r
    for _, x in inv(st): st.assume(x)
    def isdata(s): x = g(s, d, S); return z3.If(z3.Or(x == ST['BYTES_DATA'], x == ST['STRING_DATA']), B(1), B(0))
    def cands(v):
        r = [(nm, lambda w, k=k: inv(w.st)[k][1]) for k, (nm, _) in enumerate(inv(v.st))]
        m0 = lambda w: 2 * z3.ZeroExt(2, g(w.st0, gi, OFF)) + 1 - z3.ZeroExt(2, isdata(w.st0)); m = lambda w: 2 * z3.ZeroExt(2, g(w.st, gi, OFF)) + 1 - z3.ZeroExt(2, isdata(w.st))
        return r + [('progress: every round consumes input or moves from a length to its content', lambda w: z3.ULE(z3.ZeroExt(2, w.it), m(w) - m0(w))), ('progress stays non-negative', lambda w: z3.UGE(m(w), m0(w)))]
    c.ex.policy = lambda f, hd: LoopPolicy('inv', cands=cands) if 'decoder::run' in f.demangled else LoopPolicy('unroll', 20)
    def item(ex, s, args, ins):
        ex.prove(s, ex.A.lift(args[0], 32) == ex.A.lift(args[1], 32), 'an item starts right where the last one ended', ins=ins); return [(s, None)]
    def pre(ex, s, ins):
        ip, off = g(s, gi, IP), g(s, gi, OFF); h = Head(a, ip)
        ex.prove(s, g(s, gi, PE) == 1, 'one event for one item', ins=ins); return h, off
    def ev(ex, s, args, ins):
        k, v = args[0], ex.A.lift(args[1], 64); h, off = pre(ex, s, ins); ok = z3.Not(h.is_error)
        want = {1: ('negative integer: the value is -1-n', z3.And(h.major == 1, v == -1 - h.arg, h.arg >= 0)), 2: ('positive integer: the value is n', z3.And(h.major == 0, v == h.arg)), 3: ('float', z3.And(h.major == 7, h.minor == 26, v == h.arg)), 4: ('double', z3.And(h.major == 7, h.minor == 27, v == h.arg)),
            7: ('array size', z3.And(h.major == 4, v == h.arg)), 8: ('map size', z3.And(h.major == 5, v == h.arg)), 9: ('tag', z3.And(h.major == 6, v == h.arg, h.minor <= 26)), 10: ('special', z3.And(h.major == 7, v == h.arg, z3.Or(h.minor < 20, h.minor == 24, h.minor == 25))),
            11: ('boolean', z3.And(h.major == 7, h.minor == 20 + z3.Extract(31, 0, v), z3.ULE(v, 1))), 12: ('null', z3.And(h.major == 7, h.minor == 22)), 13: ('undefined', z3.And(h.major == 7, h.minor == 23)), 15: ('negative integer beyond 64 bits', z3.And(h.major == 1, h.arg < 0, v == h.arg)), 17: ('long tag', z3.And(h.major == 6, h.minor == 27, v == h.arg))}
        if k == 14: ex.prove(s, h.is_error, 'errors are reported exactly for malformed or oversized items', ins=ins); return [(s, None)]
        if k not in want: ex.prove(s, False, 'no such event', ins=ins); return [(s, None)]
        ex.prove(s, z3.And(ok, want[k][1]), 'event: ' + want[k][0], ins=ins); ex.prove(s, off == h.ip + h.hl, 'the item is consumed exactly', ins=ins); return [(s, None)]
    def evp(ex, s, args, ins):
        k, p, m = args[0], args[1], ex.A.lift(args[2], 32); h, off = pre(ex, s, ins); L = h.arg32
        if not isinstance(p, Ptr): raise ToolLimit('string pointer')
        ex.prove(s, z3.And(z3.Not(h.is_error), h.major == (2 if k == 5 else 3), off == h.ip + h.hl + L), 'event: %s of the announced length, consumed exactly' % ('bytes' if k == 5 else 'text'), ins=ins)
        if ex.quiet: return [(s, None)]
        ob = s.mem[p.reg]
        if ob.arr is None: ex.to_arr(s, p.reg); ob = s.mem[p.reg]
        j = z3.BitVec(ex.uniq('j'), 32); base = ex.tidx(Ptr(None, p.c, p.t))
        ex.prove(s, z3.Implies(z3.ULT(j, L), z3.Select(ob.arr, base + j) == z3.Select(a, h.ip + h.hl + j)), 'the content is the input bytes', ins=ins)
        if k == 5: ex.prove(s, m == L, 'the reported length is the announced length', ins=ins)
        else: ex.prove(s, z3.Select(ob.arr, base + L) == 0, 'text is terminated', ins=ins)
        return [(s, None)]
    c.ex.stubs = [('ev', ev), ('evp', evp), ('item', item)]
    for s, _ in c.run('drun', [Ptr(d)], st):
        for nm, x in inv(s): c.post(s, 'resumable: ' + nm, x)
        state, off, ip = g(s, d, S), g(s, gi, OFF), g(s, gi, IP); h = Head(a, ip)
        c.post(s, 'between items, stops only at the end of the input', z3.Implies(state == ST['TYPE'], off == n))
        for k in SIZES: c.post(s, '%s: stops only if the argument is incomplete' % k, z3.Implies(state == ST[k], n - off < h.extra))
        for k in ('BYTES_DATA', 'STRING_DATA'): c.post(s, '%s: stops only if the content is incomplete' % k, z3.Implies(state == ST[k], n - off < h.arg32))
        s2 = s.copy()
        for t, r in c.run('dfail', [Ptr(d)], s2, cover=False): c.post(t, 'failed() reports exactly the error state', tobool(r) == (state == ST['ERROR']))
@contract('decoder construction', T)
def _(c):
    states(c); d, gi, gl = c.obj('dec', c.sizeof('d')), c.obj('gi', c.sizeof('gi')), c.obj('gl', c.sizeof('gl'))
    (st, _), = c.run('mkd1', [Ptr(d), Ptr(gi)]); c.post(st, 'starts between items', c.lift(c.get(st, d, c.off('d', '_state'), 4), 32) == ST['TYPE']); c.post(st, 'reads from the given input', ceq(c.getp(st, d, c.off('d', '_in')), gi))
    (st, _), = c.run('dset', [Ptr(d), Ptr(gl)], st); c.post(st, 'reports to the given listener', ceq(c.getp(st, d, c.off('d', '_listener')), gl))
def ceq(p, h): return isinstance(p, Ptr) and p.reg == h and p.c == 0
# ---------------------------------------------------------------- encoder
def sink(c, cap=32, st=None):
    st = st or c.st; buf = c.obj('buf', cap, st=st); o = c.obj('out', c.sizeof('os'), st=st); e = c.obj('enc', c.sizeof('en'), st=st)
    (st, _), = c.run('mkos', [Ptr(o), cap, Ptr(buf)], st, cover=False); (st, _), = c.run('mken', [Ptr(e), Ptr(o)], st, cover=False); return st, buf, o, e
def head(major, v):
    """[(condition, bytes)] canonical head; v 64-bit"""
    m = major << 5; x = be_bytes(v)
    return [(z3.ULT(v, 24), [m | x[7]]), (z3.And(z3.UGE(v, 24), z3.ULT(v, 256)), [z3.BitVecVal(m | 24, 8), x[7]]), (z3.And(z3.UGE(v, 256), z3.ULT(v, 65536)), [z3.BitVecVal(m | 25, 8)] + x[6:]),
        (z3.And(z3.UGE(v, 65536), z3.ULT(v, 1 << 32)), [z3.BitVecVal(m | 26, 8)] + x[4:]), (z3.UGE(v, 1 << 32), [z3.BitVecVal(m | 27, 8)] + x)]
def wrote(c, s, buf, o, cases, name, off0=0):
    off = c.lift(c.get(s, o, c.off('os', '_offset'), 4), 32)
    for cond, bs in cases:
        if s.dead or not c.ex.feasible(s, cond): continue
        t = s.copy(); t.assume(cond)
        c.post(t, name + ': %d byte%s' % (len(bs), '' if len(bs) == 1 else 's'), off == off0 + len(bs)); c.post(t, name + ': the canonical bytes', z3.And([c.lift(c.get(t, buf, off0 + k, 1), 8) == b for k, b in enumerate(bs)]))
for fn, n, sg_ in [('w8', 8, 0), ('w16', 16, 0), ('w32', 32, 0), ('w64', 64, 0), ('s8', 8, 1), ('s16', 16, 1), ('s32', 32, 1), ('s64', 64, 1)]:
    @contract('encode integer ' + fn, T)
    def _(c, fn=fn, n=n, sg_=sg_):
        st, buf, o, e = sink(c); v = c.bv('v', n); x = (z3.SignExt if sg_ else z3.ZeroExt)(64 - n, v) if n < 64 else v
        for s, _ in c.run(fn, [Ptr(e), v], st):
            cases = [(z3.And(k, x >= 0) if sg_ else k, b) for k, b in head(0, x)] + ([(z3.And(k, x < 0), b) for k, b in head(1, -1 - x)] if sg_ else [])
            wrote(c, s, buf, o, cases, 'integer')
for fn, m in [('wtag', 6), ('warr', 4), ('wmap', 5), ('wspec', 7)]:
    @contract('encode head ' + fn, T)
    def _(c, fn=fn, m=m):
        st, buf, o, e = sink(c); v = c.bv('v', 32)
        for s, _ in c.run(fn, [Ptr(e), v], st): wrote(c, s, buf, o, head(m, z3.ZeroExt(32, v)), 'head')
@contract('encode booleans and floats', T, fp='z3')
def _(c):
    st, buf, o, e = sink(c)
    v = c.bv('b', 1)
    for s, _ in c.run('wbool', [Ptr(e), v], st.copy()): wrote(c, s, buf, o, [(z3.BoolVal(True), [z3.If(v, z3.BitVecVal(0xF5, 8), z3.BitVecVal(0xF4, 8))])], 'boolean')
    f = c.bv('f', 32)
    for s, _ in c.run('wf', [Ptr(e), f], st.copy()): wrote(c, s, buf, o, [(z3.BoolVal(True), [z3.BitVecVal(0xFA, 8)] + be_bytes(f))], 'float')
    d = c.bv('d', 64)
    for s, _ in c.run('wd', [Ptr(e), d], st.copy()): wrote(c, s, buf, o, [(z3.BoolVal(True), [z3.BitVecVal(0xFB, 8)] + be_bytes(d))], 'double')
def content(c, fn, major, cstr=False, elem=None, tag=None):
    """head, then the content: the output is any static buffer with room"""
    n = c.bv('size', 32); c.st.assume(z3.And(z3.ULT(n, 1 << 24), *([n != 0] if elem else []))); by = n * elem if elem else n; hl = 16
    cap = c.bv('capacity', 32); c.st.assume(z3.And(z3.UGE(cap, by + hl), z3.ULT(cap, 1 << 30)))
    st, buf, o, e = sink(c, cap); src = c.obj('src', by + (1 if cstr else 0), ro=True); c.ex.to_arr(st, src); c.ex.to_arr(st, buf); a = st.mem[src].arr
    if cstr: st.assume(z3.Select(a, n) == 0); i = z3.BitVec('i', 32); st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.Select(a, i) != 0), patterns=[z3.Select(a, i)]))
    if cstr: c.ex.stubs = [('strlen', lambda ex, s, args, ins: [(s, n)])]
    for s, r in c.run(fn, [Ptr(e), Ptr(src)] + ([] if cstr else [n]), st):
        off = c.lift(c.get(s, o, c.off('os', '_offset'), 4), 32); b = s.mem[buf].arr
        for k, (cond, bs) in enumerate(head(major, z3.ZeroExt(32, by))):
            t = s.copy(); t.assume(cond)
            if not c.ex.feasible(t): continue
            pre = ([z3.BitVecVal(0xC0 | 24, 8), z3.BitVecVal(tag, 8)] if tag is not None else []); bs = pre + bs
            c.post(t, 'total length with a %d-byte head' % len(bs), off == by + len(bs)); c.post(t, 'canonical head of %d bytes' % len(bs), z3.And([z3.Select(b, B(q)) == x for q, x in enumerate(bs)]))
            j = z3.BitVec('j', 32); c.post(t, 'content follows the head of %d bytes' % len(bs), z3.Implies(z3.ULT(j, by), z3.Select(b, len(bs) + j) == z3.Select(a, j)))
        if tag is not None: c.post(s, 'reports success', c.lift(r, 32) == 0)
@contract('encode bytes', T)
def _(c): content(c, 'wbytes', 2)
@contract('encode text', T)
def _(c): content(c, 'wstr', 3)
@contract('encode C string', T)
def _(c): content(c, 'wcstr', 3, True)
for ty, w, tag in [('uint8_t', 1, 64), ('uint16_t', 2, 65), ('uint32_t', 4, 66), ('uint64_t', 8, 67), ('int8_t', 1, 72), ('int16_t', 2, 73), ('int32_t', 4, 74), ('int64_t', 8, 75), ('float', 4, 81), ('double', 8, 82)]:
    @contract('encode %s array' % ty, T)
    def _(c, ty=ty, w=w, tag=tag):
        content(c, 'wta_' + ty, 2, elem=w, tag=tag + 4)
        st, buf, o, e = sink(c, st=State()); x = c.obj('none', 1, st=st)
        for s, r in c.run('wta_' + ty, [Ptr(e), Ptr(x), 0], st): c.post(s, 'an empty array is refused and nothing is written', z3.And(c.lift(r, 32) == 0xFFFFFFFE, c.lift(c.get(s, o, c.off('os', '_offset'), 4), 32) == 0))
# ---------------------------------------------------------------- the byte sinks and sources
@contract('static output', T)
def _(c):
    cap, off, v = c.bv('capacity', 32), c.bv('offset', 32), c.bv('v', 8); c.st.assume(z3.And(z3.ULE(off, cap), z3.ULT(cap, 1 << 30)))
    st, buf, o, e = sink(c, cap); c.ex.to_arr(st, buf); a = st.mem[buf].arr; O = c.off('os', '_offset'); c.post(st, 'starts empty', c.lift(c.get(st, o, O, 4), 32) == 0); c.set(o, O, 4, off, st); j = z3.BitVec('j', 32); new = lambda s: c.lift(c.get(s, o, O, 4), 32)
    for s, r in c.run('pb', [Ptr(o), v], st.copy()):
        b = s.mem[buf].arr; ok = c.lift(r, 32) == 0
        c.post(s, 'a byte is taken exactly when there is room', ok == z3.ULT(off, cap)); c.post(s, 'appended', z3.Implies(ok, z3.And(new(s) == off + 1, z3.Select(b, off) == v))); c.post(s, 'the rest is untouched', z3.Implies(z3.Or(j != off, z3.Not(ok)), z3.Select(b, j) == z3.Select(a, j))); c.post(s, 'refusal changes nothing', z3.Implies(z3.Not(ok), new(s) == off))
    n = c.bv('n', 32); st.assume(z3.And(n >= 1, n < 1 << 30)); src = c.obj('src', n, st=st, ro=True); c.ex.to_arr(st, src); q = st.mem[src].arr
    for s, r in c.run('pbs', [Ptr(o), Ptr(src), n], st.copy()):
        b = s.mem[buf].arr; ok = c.lift(r, 32) == 0
        c.post(s, 'bytes are taken exactly when they all fit', ok == z3.ULE(off + n, cap)); c.post(s, 'bytes appended', z3.Implies(z3.And(ok, z3.ULT(j, n)), z3.Select(b, off + j) == z3.Select(q, j))); c.post(s, 'offset', new(s) == z3.If(ok, off + n, off)); c.post(s, 'bytes before are untouched', z3.Implies(z3.Or(z3.ULT(j, off), z3.Not(ok)), z3.Select(b, j) == z3.Select(a, j)))
    for s, r in c.run('odata', [Ptr(o)], st.copy()): c.post(s, 'data() is the buffer', ceq(r, buf))
    for s, r in c.run('osize', [Ptr(o)], st.copy()): c.post(s, 'size() is what was written', c.lift(r, 32) == off)
@contract('static input', T, fp='z3')
def _(c):
    n, off, k = c.bv('size', 32), c.bv('offset', 32), c.bv('count', 32); c.st.assume(z3.And(n >= 0, off >= 0, off <= n))
    data = c.obj('data', n, ro=True); c.ex.to_arr(c.st, data); a = c.st.mem[data].arr; i = c.obj('in', c.sizeof('is')); O = c.off('is', '_offset')
    (st, _), = c.run('mkis', [Ptr(i), Ptr(data), n]); c.post(st, 'starts at the beginning', c.lift(c.get(st, i, O, 4), 32) == 0); c.set(i, O, 4, off, st)
    for s, r in c.run('ihas', [Ptr(i), k], st.copy()): c.post(s, 'has_bytes: exactly when that many are left', tobool(r) == (n - off >= k)); c.post(s, 'has_bytes consumes nothing', c.lift(c.get(s, i, O, 4), 32) == off)
    for fn, w in (('ib', 1), ('ish', 2), ('ii', 4), ('ifl', 4), ('il', 8), ('idb', 8)):
        t = st.copy(); t.assume(n - off >= w)
        for s, r in c.run(fn, [Ptr(i)], t):
            want = z3.Concat([z3.Select(a, off + q) for q in range(w)]) if w > 1 else z3.Select(a, off); c.post(s, fn + ': network byte order', c.lift(r, 8 * w) == want); c.post(s, fn + ': consumes its width', c.lift(c.get(s, i, O, 4), 32) == off + w)
    t = st.copy(); t.assume(z3.And(k >= 0, n - off >= k)); d = c.obj('dst', k, st=t); c.ex.to_arr(t, d); j = z3.BitVec('j', 32)
    for s, r in c.run('ibs', [Ptr(i), Ptr(d), k], t): c.post(s, 'get_bytes copies the next bytes', z3.Implies(z3.ULT(j, k), z3.Select(s.mem[d].arr, j) == z3.Select(a, off + j))); c.post(s, 'get_bytes consumes them', c.lift(c.get(s, i, O, 4), 32) == off + k)
@contract('StringBuilder output', T)
def _(c):
    o, sb, x = c.obj('out', c.sizeof('osb')), c.obj('sb', 64), c.obj('x', 4); v, n = c.bv('v', 8), c.bv('n', 32); calls = []
    def concat(ex, s, args, ins):
        calls.append(1); ex.prove(s, ceq(args[0], sb), 'appends to its StringBuilder', ins=ins)
        if s.ghost.get('mode') == 'byte': ex.prove(s, z3.And(ex.A.lift(args[2], 32) == 1, ex.A.lift(ex.load(s, args[1], Ty('i', 8), ins), 8) == v), 'appends exactly the byte', ins=ins)
        else: ex.prove(s, z3.And(z3.BoolVal(ceq(args[1], x)), ex.A.lift(args[2], 32) == n), 'appends exactly the given bytes', ins=ins)
        s.ghost['n'] = s.ghost.get('n', 0) + 1; return [(s, None)]
    c.ex.stubs = [(r'StringBuilder::concat\(unsigned char\*, int\)', concat)]
    (st, _), = c.run('mkosb', [Ptr(o), Ptr(sb)]); st.ghost['mode'] = 'byte'
    for s, r in c.run('pb', [Ptr(o), v], st.copy()): c.post(s, 'one append per byte', s.ghost.get('n') == 1); c.post(s, 'success', c.lift(r, 32) == 0)
    st.ghost['mode'] = 'bytes'
    for s, r in c.run('pbs', [Ptr(o), Ptr(x), n], st.copy()): c.post(s, 'one append per call', s.ghost.get('n') == 1); c.post(s, 'success', c.lift(r, 32) == 0)
@contract('StringBuilder input', T, fp='z3')
def _(c):
    i, sb = c.obj('in', c.sizeof('isb')), c.obj('sb', 64); L, off, k = c.bv('length', 32), c.bv('offset', 32), c.bv('count', 32); c.st.assume(z3.And(L >= 0, L < 1 << 30, off >= 0, off <= L))
    a = z3.Array('content', z3.BitVecSort(32), z3.BitVecSort(8)); ci, cc = c.bv('consume', 1), c.bv('consume_container', 1); c.st.assume(z3.Implies(ci, off == 0))
    f = lambda n: c.off('isb', n)
    (st, _), = c.run('mki', [Ptr(i), Ptr(sb), ci, cc]); c.post(st, 'starts at the beginning', c.lift(c.get(st, i, f('_offset'), 4), 32) == 0); c.set(i, f('_offset'), 4, off, st)
    st.ghost['base'] = B(0)
    def ln(ex, s, args, ins): return [(s, L - s.ghost['base'])]
    def cp(ex, s, args, ins):
        o, n = ex.A.lift(args[3], 32), args[2]
        if not isinstance(n, int): s.ghost['bulk'] = (args[1], ex.A.lift(n, 32), o); return [(s, ex.A.lift(n, 32))]
        ex.prove(s, z3.And(o >= 0, o <= L - s.ghost['base'], L - s.ghost['base'] - o >= n), 'the bytes are there', ins=ins)
        for q in range(n): ex.store(s, Ptr(args[1].reg, args[1].c + q, args[1].t), z3.Select(a, s.ghost['base'] + o + q), Ty('i', 8), ins)
        return [(s, n)]
    def cull(ex, s, args, ins): s.ghost['base'] = s.ghost['base'] + ex.A.lift(args[1], 32); s.ghost['culls'] = s.ghost.get('culls', 0) + 1; return [(s, None)]
    def dele(ex, s, args, ins): s.ghost['deleted'] = s.ghost.get('deleted', 0) + 1; return [(s, None)]
    c.ex.stubs = [(r'StringBuilder::length\(\)', ln), (r'StringBuilder::copyToBuffer\(.*\)', cp), (r'StringBuilder::cull\(int\)', cull), (r'StringBuilder::~StringBuilder\(\)', dele), (r'operator delete\(void\*.*\)', lambda ex, s, args, ins: [(s, None)])]
    for s, r in c.run('ihas', [Ptr(i), k], st.copy()): c.post(s, 'has_bytes: exactly when that many are left', tobool(r) == (L - off >= k))
    def after(s, w, nm):
        o2 = c.lift(c.get(s, i, f('_offset'), 4), 32); base = s.ghost['base']; cond = lambda g: z3.BoolVal(bool(g))
        c.post(s, nm + ': consumes exactly what it read', z3.If(ci, z3.And(base == w, o2 == 0), z3.And(base == 0, o2 == off + w))); gone = s.ghost.get('deleted', 0)
        c.post(s, nm + ': the container goes exactly when it is to be consumed and is empty', cond(gone == 1) == z3.And(ci, cc, L == w)); c.post(s, nm + ': never twice', gone <= 1)
        p = c.getp(s, i, f('_str_bldr')); c.post(s, nm + ': a released container is forgotten', (c.ex.isnull(p) is True) == (gone == 1))
        for s2, r in c.run('ihas', [Ptr(i), k], s.copy()): c.post(s2, nm + ': then has_bytes still tells exactly what is left', tobool(r) == (L - off - w >= k))
    for fn, w in (('ib', 1), ('ish', 2), ('ii', 4), ('ifl', 4), ('il', 8), ('idb', 8)):
        t = st.copy(); t.assume(L - off >= w)
        for s, r in c.run(fn, [Ptr(i)], t):
            want = z3.Concat([z3.Select(a, off + q) for q in range(w)]) if w > 1 else z3.Select(a, off); c.post(s, fn + ': network byte order', c.lift(r, 8 * w) == want); after(s, w, fn)
    t = st.copy(); t.assume(z3.And(k >= 0, L - off >= k)); d = c.obj('dst', k, st=t)
    for s, r in c.run('ibs', [Ptr(i), Ptr(d), k], t):
        b = s.ghost.get('bulk'); c.post(s, 'get_bytes copies the next bytes into the buffer', b is not None and z3.And(z3.BoolVal(ceq(b[0], d)), b[1] == k, b[2] == off)); after(s, k, 'get_bytes')
    for s, _ in c.run('rmi', [Ptr(i)], st.copy()): c.post(s, 'destruction releases a container it is to consume, and no other', z3.BoolVal(s.ghost.get('deleted', 0) == 1) == cc)
