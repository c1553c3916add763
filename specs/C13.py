from spec import *
HARNESS = dict(src='C13.cpp', lib=VALUEL + ['M2MLink/*.cpp', 'M2MLink/LinkUtils/M2MLinkRPC/*.cpp', 'BusQueue/BusQueue.cpp', 'Pipes/BufferAccepter/*.cpp', 'Storage/SimpleDataRecord.cpp'])
PROVED = 'header construction, sizing, validity, serialization and parsing for every field value; parsing inverts serialization for every valid header; arbitrary input bytes are parsed without any access outside the buffer and are accepted only with a matching checksum and a total length that covers the header; the accumulator takes exactly the announced payload bytes and leaves the rest, for every split of the input.'
BOUNDED = 'native replay: headers, messages with payloads up to 70000 bytes delivered in random fragments, hostile bytes'
ASSUMPTIONS = ['StringBuilder length/string/concat/concatHandoff/cull behave as specified (their contracts are discharged in C09)', 'randomUInt32() may return any value', 'KeyValuePair (de)serialization is not interpreted here (C26)']
T = tu_text('m2m.cpp', '''#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <new>
#define private public
#define protected public
#include "M2MLink/M2MMsgHdr.cpp"
#include "M2MLink/M2MMsg.cpp"
''' + offs('h', 'M2MMsgHdr', 'msg_code', 'flags', 'chk_byte', 'msg_len', 'msg_id') + offs('m', 'M2MMsg', '_header', '_accumulator', '_kvp', '_flags', '_op') + '''
extern "C" { typedef M2MMsgHdr X;
void mk(X* p, uint8_t m, uint8_t l, uint8_t f, uint32_t i) { new (p) X((M2MMsgCode) m, l, f, i); } void blank(X* p) { new (p) X(); } void cpy(X* p, X* o) { new (p) X(o); } void wip(X* p) { p->wipe(); }
bool setlen(X* p, uint32_t n) { return p->set_payload_length(n); } bool valid(X* p) { return p->isValid(); } bool sync_(X* p) { return p->isSync(); } bool ser(X* p, StringBuilder* b) { return p->serialize(b); }
int hl(X* p) { return p->header_length(); } int pl(X* p) { return p->payload_length(); } int tl(X* p) { return p->total_length(); } int parse(X* p, StringBuilder* b) { return M2MMsg::attempt_header_parse(p, b); }
int accu(M2MMsg* p, StringBuilder* b) { return p->accumulate(b); } bool rxc(M2MMsg* p) { return p->rxComplete(); } int mser(M2MMsg* p, StringBuilder* b) { return p->serialize(b); } }
''')
TL = 'M2MLink/M2MLink.cpp'
W = {'msg_code': 1, 'flags': 1, 'chk_byte': 1, 'msg_len': 4, 'msg_id': 4}
def Z(x): return z3.ZeroExt(32 - x.size(), x) if x.size() < 32 else x
class H:
    def __init__(s, c, nm, sym=True):
        s.c = c; s.F = {n: c.off('h', n) for n in W}; s.h = c.obj(nm, c.sizeof('h')); s.v = {}
        if sym:
            for n, w in W.items(): s.v[n] = c.bv(nm + '.' + n, 8 * w); c.set(s.h, s.F[n], w, s.v[n])
    def get(s, st): return {n: s.c.lift(s.c.get(st, s.h, s.F[n], w), 8 * w) for n, w in W.items()}
def lenl(f): return z3.LShR(f['flags'], 4) & 3
def idl(f): return z3.LShR(f['flags'], 6)
def hlen(f): return Z(lenl(f)) + Z(idl(f)) + 3
def size_of(x): return z3.If(x == 0, z3.BitVecVal(0, 8), z3.If(z3.ULT(x, 0x100), z3.BitVecVal(1, 8), z3.If(z3.ULT(x, 0x10000), z3.BitVecVal(2, 8), z3.If(z3.ULT(x, 0x1000000), z3.BitVecVal(3, 8), z3.BitVecVal(4, 8)))))
def chk(f): return f['flags'] + z3.Extract(7, 0, f['msg_len']) + f['msg_code'] + 1
def codeok(m): return z3.And(z3.UGE(m, 1), z3.ULE(m, 0x1F), z3.Not(z3.And(z3.UGE(m, 0xA), z3.ULE(m, 0xD))))
def isvalid(f):
    return z3.And(f['flags'] & 0xC == 0, lenl(f) != 0, codeok(f['msg_code']), size_of(f['msg_id']) == idl(f), size_of(f['msg_len']) == lenl(f), z3.UGE(f['msg_len'], hlen(f)), f['chk_byte'] == chk(f),
        z3.Or(f['msg_code'] == 1, (f['flags'] & 3 != 0) == (idl(f) != 0)))
def boolv(r): return tobool(r)
CODEV = [(r'M2MLink::msgCodeValid\(.*\)', lambda ex, st, args, ins: [(st, codeok(ex.A.lift(args[0], 8)))])]
def rng(ex, st, args, ins): return [(st, z3.BitVec(ex.uniq('rng'), 32))]

@contract('message codes', TL)
def _(c):
    m = c.bv('code', 8)
    for st, r in c.run(r'M2MLink::msgCodeValid\(M2MMsgCode\)', [m]): c.post(st, 'exactly the defined codes are valid', boolv(r) == codeok(m))
@contract('construction', T, merge=True, stubs=[(r'randomUInt32\(\)', rng)] + CODEV)
def _(c):
    h = H(c, 'h', False); m, p, f, i = c.bv('code', 8), c.bv('payload', 8), c.bv('flag', 8), c.bv('id', 32)
    for st, _ in c.run('mk', [Ptr(h.h), m, p, f, i]):
        g = h.get(st); ident = i & 0xFFFFFF
        c.post(st, 'the code is kept', g['msg_code'] == m); c.post(st, 'the reply flags are kept and reserved bits are clear', g['flags'] & 0xF == f & 3)
        c.post(st, 'total length is header plus payload', g['msg_len'] == hlen(g) + Z(p)); c.post(st, 'length field is sized for the length', lenl(g) == size_of(g['msg_len'])); c.post(st, 'ID field is sized for the ID', idl(g) == size_of(g['msg_id']))
        c.post(st, 'checksum', g['chk_byte'] == chk(g)); c.post(st, 'the given ID is kept', z3.Implies(ident != 0, g['msg_id'] == ident))
        c.post(st, 'an expected reply always has an ID', z3.Implies(z3.And(f & 1 == 1, m != 1), g['msg_id'] != 0)); c.post(st, 'no ID is invented otherwise', z3.Implies(z3.And(ident == 0, z3.Or(f & 1 == 0, m == 1)), g['msg_id'] == 0))
        s2 = st.copy()
        for t, r in c.run('valid', [Ptr(h.h)], s2): c.post(t, 'valid when the code is defined and replies carry an ID', z3.Implies(z3.And(codeok(m), z3.Or(m == 1, (f & 3 != 0) == (g['msg_id'] != 0))), boolv(r)))
@contract('payload length', T, merge=True)
def _(c):
    h = H(c, 'h'); n = c.bv('n', 32); f = h.v; c.st.assume(size_of(f['msg_id']) == idl(f))
    for st, r in c.run('setlen', [Ptr(h.h), n]):
        g = h.get(st); ok = boolv(r); base = n + Z(idl(f)) + 4; tot = base + z3.If(z3.UGT(base, 255), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) + z3.If(z3.UGT(base, 0xFFFE), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        c.post(st, 'accepted exactly when the message fits a three-byte length', ok == z3.And(z3.ULE(n, 0xFFFFFF), z3.ULE(tot, 0xFFFFFF)))
        c.post(st, 'the payload length is the one asked for', z3.Implies(ok, g['msg_len'] - hlen(g) == n)); c.post(st, 'length field is sized for the length', z3.Implies(ok, lenl(g) == size_of(g['msg_len'])))
        c.post(st, 'checksum', z3.Implies(ok, g['chk_byte'] == chk(g))); c.post(st, 'code, ID and other flags unchanged', z3.And(g['msg_code'] == f['msg_code'], g['msg_id'] == f['msg_id'], g['flags'] & 0xCF == f['flags'] & 0xCF))
        c.post(st, 'refusal changes nothing', z3.Implies(z3.Not(ok), z3.And([g[k] == f[k] for k in f])))
@contract('validity and accessors', T, merge=True, stubs=CODEV)
def _(c):
    h = H(c, 'h'); f = h.v; same = lambda st: z3.And([h.get(st)[k] == f[k] for k in f])
    for st, r in c.run('valid', [Ptr(h.h)], c.st.copy()): c.post(st, 'valid exactly when every field agrees', boolv(r) == isvalid(f)); c.post(st, 'nothing changes', same(st))
    for st, r in c.run('sync_', [Ptr(h.h)], c.st.copy()): c.post(st, 'sync exactly for a bare sync header', boolv(r) == z3.And(f['msg_code'] == 1, f['flags'] & 0xFC == 0x10, f['msg_len'] == 4, f['chk_byte'] == chk(f)))
    for st, r in c.run('hl', [Ptr(h.h)], c.st.copy()): c.post(st, 'header length', c.lift(r, 32) == z3.If(lenl(f) == 0, z3.BitVecVal(0, 32), hlen(f)))
    for st, r in c.run('pl', [Ptr(h.h)], c.st.copy()): c.post(st, 'payload length', c.lift(r, 32) == f['msg_len'] - z3.If(lenl(f) == 0, z3.BitVecVal(0, 32), hlen(f)))
    for st, r in c.run('tl', [Ptr(h.h)], c.st.copy()): c.post(st, 'total length', c.lift(r, 32) == f['msg_len'])
    d = c.obj('copy', c.sizeof('h'))
    for st, _ in c.run('cpy', [Ptr(d), Ptr(h.h)], c.st.copy()):
        c.post(st, 'a copy has the same fields', z3.And([c.lift(c.get(st, d, h.F[n], w), 8 * w) == f[n] for n, w in W.items()])); c.post(st, 'the source is unchanged', same(st))
    for fn in ('wip', 'blank'):
        for st, _ in c.run(fn, [Ptr(h.h)], c.st.copy()): c.post(st, 'blank header', z3.And([v == 0 for v in h.get(st).values()]))
# ---- StringBuilder seen through its contract: an input of n bytes; an output that records what is appended
def sbin(c, obj, data, n):
    def ln(ex, st, args, ins): return [(st, n)]
    def sp(ex, st, args, ins): return [(st, Ptr(data))]
    return [(r'StringBuilder::length\(\)', ln), (r'StringBuilder::string\(\)', sp)]
def capture(ex, st, args, ins):
    n = args[2]; outs = []
    for k in range(0, 10):
        s2 = st.copy()
        if isinstance(n, int):
            if n != k: continue
        else:
            e = ex.A.lift(n, 32) == k
            if not ex.feasible(s2, e): continue
            s2.assume(e)
        s2.ghost['out'] = s2.ghost.get('out', ()) + tuple(ex.A.lift(ex.load(s2, Ptr(args[1].reg, args[1].c + i, args[1].t), Ty('i', 8), ins), 8) for i in range(k)); outs.append((s2, None))
    if not isinstance(n, int): ex.prove(st, z3.ULE(ex.A.lift(n, 32), 9), 'at most nine header bytes are emitted', ins=ins)
    return outs
def wire(f):
    """the documented header layout, per (len bytes, id bytes)"""
    def w(l, i):
        r = [f['msg_code'], f['flags']]
        r += [z3.Extract(8 * k + 7, 8 * k, f['msg_len']) for k in range(l - 1, -1, -1)] + [z3.Extract(8 * k + 7, 8 * k, f['msg_id']) for k in range(i - 1, -1, -1)]
        return r + [f['chk_byte']]
    return w
@contract('serialize', T, stubs=CODEV + [(r'StringBuilder::concat\(unsigned char\*, int\)', capture)])
def _(c):
    h = H(c, 'h'); f = h.v; o = c.obj('out', 64); w = wire(f)
    for st, r in c.run('ser', [Ptr(h.h), Ptr(o)]):
        c.post(st, 'serializes exactly the valid headers', boolv(r) == isvalid(f)); b = st.ghost.get('out', ())
        if b:
            c.post(st, 'the length is the header length', z3.BitVecVal(len(b), 32) == hlen(f))
            for l in range(1, 4):
                i = len(b) - 3 - l
                if 0 <= i <= 3: c.post(st, 'the bytes are the documented layout (%d length, %d ID bytes)' % (l, i), z3.Implies(z3.And(lenl(f) == l, idl(f) == i), z3.And([x == y for x, y in zip(b, w(l, i))])))
        else: c.post(st, 'nothing is written for an invalid header', z3.Not(boolv(r)))
@contract('parse inverts serialize', T)
def _(c):
    h = H(c, 'h', False); f = {n: c.bv('f.' + n, 8 * w) for n, w in W.items()}; c.st.assume(isvalid(f)); n = c.bv('available', 32); c.st.assume(z3.And(n >= 0, n < 1 << 30)); w = wire(f)
    for l in range(1, 4):
        for i in range(0, 4):
            st = c.st.copy(); st.assume(z3.And(lenl(f) == l, idl(f) == i)); st.assume(n >= 3 + l + i)
            (st, _), = c.run('blank', [Ptr(h.h)], st, cover=False)
            d = c.obj('data', 10, st=st); o = c.obj('in', 64, st=st)
            for k, b in enumerate(w(l, i)): c.set(d, k, 1, b, st)
            c.ex.stubs = sbin(c, o, d, n)
            for s2, r in c.run('parse', [Ptr(h.h), Ptr(o)], st, cover=False):
                g = h.get(s2); c.post(s2, 'every field comes back (%d, %d)' % (l, i), z3.And([g[k] == f[k] for k in f]))
                c.post(s2, 'header with no payload: 1; complete payload: 2; incomplete: 0', c.lift(r, 32) == z3.If(f['msg_len'] == 3 + l + i, z3.BitVecVal(1, 32), z3.If(f['msg_len'] <= n, z3.BitVecVal(2, 32), z3.BitVecVal(0, 32))))
@contract('parse any bytes', T)
def _(c):
    h = H(c, 'h', False); n = c.bv('available', 32); c.st.assume(z3.And(n >= 0, n < 1 << 30)); (st, _), = c.run('blank', [Ptr(h.h)], c.st)
    d = c.obj('data', n, st=st, ro=True); c.ex.to_arr(st, d); o = c.obj('in', 64, st=st); c.ex.stubs = sbin(c, o, d, n); a = st.mem[d].arr
    flags = z3.Select(a, z3.BitVecVal(1, 32))
    for s, r in c.run('parse', [Ptr(h.h), Ptr(o)], st):
        g = h.get(s); v = c.lift(r, 32); F = {'flags': flags}; whole = z3.And(n >= 4, lenl(F) != 0, hlen(F) <= n)
        c.post(s, 'waits for more exactly when the header is not all there', (v == -2) == z3.Or(n < 4, z3.And(lenl(F) != 0, hlen(F) > n)))
        c.post(s, 'accepted exactly with a matching checksum and a total length that covers the header', (v >= 0) == z3.And(whole, g['chk_byte'] == chk(g), z3.UGE(g['msg_len'], hlen(g))))
        c.post(s, 'anything else is a sync error', z3.Or(v == -2, v == -3, z3.And(v >= 0, v <= 2)))
        c.post(s, 'code and flags are the first two bytes', z3.Implies(whole, z3.And(g['msg_code'] == z3.Select(a, z3.BitVecVal(0, 32)), g['flags'] == flags)))
# ---- accumulation: StringBuilder contents are stretches [from, to) of one byte stream
@contract('accumulate', T, mode='bv')
def _(c):
    ho, ao = c.off('m', '_header'), c.off('m', '_accumulator'); F = {n: c.off('h', n) for n in W}
    m = c.obj('msg', c.sizeof('m')); o = c.obj('buf', 64); kv = c.off('m', '_kvp')
    f = {n: c.bv('h.' + n, 8 * w) for n, w in W.items()}
    for n, w in W.items(): c.set(m, ho + F[n], w, f[n])
    c.st.assume(z3.And(lenl(f) != 0, f['msg_len'] >= hlen(f), z3.ULE(f['msg_len'], 0xFFFFFF))); P = f['msg_len'] - hlen(f)
    a, n = c.bv('accumulated', 32), c.bv('incoming', 32); c.st.assume(z3.And(a >= 0, a <= P, n >= 0, n < 1 << 30)); c.set(m, kv, 4, NULL)
    c.st.ghost['acc'] = a; c.st.ghost['buf'] = n; c.st.ghost['lo'] = a     # acc holds stream [0,acc), buf holds [lo, lo+buf)
    isacc = lambda p: p.reg == m and p.c == ao
    def who(p): return 'acc' if isacc(p) else 'buf'
    def ln(ex, st, args, ins): return [(st, st.ghost[who(args[0])])]
    def handoff(ex, st, args, ins):
        if not isacc(args[0]) or isacc(args[1]): raise ToolLimit('unexpected handoff')
        c.post(st, 'bytes are appended in stream order', st.ghost['lo'] == st.ghost['acc']); st.ghost['acc'] = st.ghost['acc'] + st.ghost['buf']; st.ghost['lo'] = st.ghost['acc']; st.ghost['buf'] = z3.BitVecVal(0, 32); return [(st, None)]
    def string(ex, st, args, ins): return [(st, Ptr(Opq(z3.Int('acc_str' if isacc(args[0]) else 'buf_str'))))]
    def cat(ex, st, args, ins):
        k = ex.A.lift(args[2], 32)
        if not isacc(args[0]) or 'buf_str' not in str(args[1].reg.id): raise ToolLimit('unexpected concat')
        c.post(st, 'bytes are appended in stream order', st.ghost['lo'] == st.ghost['acc']); c.post(st, 'only available bytes are copied', z3.And(k >= 0, k <= st.ghost['buf'])); st.ghost['acc'] = st.ghost['acc'] + k; return [(st, None)]
    def cull(ex, st, args, ins):
        k = ex.A.lift(args[1], 32)
        if isacc(args[0]): raise ToolLimit('unexpected cull')
        c.post(st, 'only available bytes are culled', z3.And(k >= 0, k <= st.ghost['buf'])); st.ghost['buf'] = st.ghost['buf'] - k; st.ghost['lo'] = st.ghost['lo'] + k; return [(st, None)]
    def unser(ex, st, args, ins): st.ghost['unser'] = (args[0], args[1]); return [(st, NULL)]
    c.ex.stubs = [(r'StringBuilder::length\(\)', ln), (r'StringBuilder::concatHandoff\(StringBuilder\*\)', handoff), (r'StringBuilder::string\(\)', string), (r'StringBuilder::concat\(unsigned char\*, int\)', cat), (r'StringBuilder::cull\(int\)', cull), (r'KeyValuePair::unserialize\(.*\)', unser)]
    for st, r in c.run('accu', [Ptr(m), Ptr(o)]):
        A, B, lo = st.ghost['acc'], st.ghost['buf'], st.ghost['lo']; take = z3.If(n < P - a, n, P - a)
        c.post(st, 'takes exactly the payload bytes still missing', A == a + take); c.post(st, 'leaves the rest in the input, in order', z3.And(B == n - take, z3.Implies(B > 0, lo == A)))
        c.post(st, 'reports completion exactly when the payload is complete', c.lift(r, 32) == z3.If(A == P, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        for s2, q in c.run('rxc', [Ptr(m)], st.copy(), cover=False): c.post(s2, 'rxComplete() agrees', boolv(q) == (A == P))
