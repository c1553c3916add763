from spec import *
HARNESS = dict(src='C17.cpp', lib=['Pipes/BufferAccepter/Base64/C3P_B64.cpp', 'Pipes/BufferAccepter/BufferAccepter.cpp'] + COREL)
PROVED = 'for every input below 2^28 bytes: each group of 3 bytes gives its 4 characters and each rest is padded as RFC 4648 asks; the text check accepts exactly well-formed text; each group of 4 characters gives its 3 bytes (fewer with padding); decoding inverts encoding; pushing takes exactly the piece asked for or leaves the buffer alone; results fit what the downstream offered.'
BOUNDED = 'native replay of encode, decode (also of damaged text) and loopback through both codecs, with ample and exact capacities'
ASSUMPTIONS = ['StringBuilder string/length/concatHandoff/concatHandoffLimit/prependHandoff behave as specified (their contracts are discharged in C09)', 'the downstream stage takes what bufferAvailable() said it can take', 'inputs are shorter than 2^28 bytes']
T = tu_text('b64.cpp', '#include <stdint.h>\n#define private public\n#define protected public\n#include "Pipes/BufferAccepter/Base64/C3P_B64.cpp"\n' + offs('e', 'Base64Encoder', '_efferant', '_input_length') + offs('d', 'Base64Decoder', '_efferant', '_input_length') + '''
#include <new>
extern "C" { int encx(Base64Encoder* e, StringBuilder* s, StringBuilder* d) { return e->_encode(s, d); } int decx(Base64Decoder* e, StringBuilder* s, StringBuilder* d) { return e->_decode(s, d); }
int integ(Base64Decoder* e, const uint8_t* p, int n) { return e->_b64_str_integrity(p, n); }
void mke(Base64Encoder* e, BufferAccepter* b) { new (e) Base64Encoder(b); } void mkd(Base64Decoder* e, BufferAccepter* b) { new (e) Base64Decoder(b); }
int pushe(Base64Encoder* e, StringBuilder* b) { return e->pushBuffer(b); } int pushd(Base64Decoder* e, StringBuilder* b) { return e->pushBuffer(b); }
int ave(Base64Encoder* e) { return e->bufferAvailable(); } int avd(Base64Decoder* e) { return e->bufferAvailable(); } }
''')
V = z3.BitVecVal
def alpha(v):   # 8-bit value 0..63 -> character (RFC 4648 table 1)
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, V(43, 8), V(47, 8)))))
def isal(ch): return z3.Or(z3.And(z3.UGE(ch, 65), z3.ULE(ch, 90)), z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch == 43, ch == 47)
def value(ch): return z3.If(z3.And(z3.UGE(ch, 65), z3.ULE(ch, 90)), ch - 65, z3.If(z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), ch - 71, z3.If(z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch + 4, z3.If(ch == 43, V(62, 8), V(63, 8)))))
def sext(b, j):   # j-th sextet of the 24-bit group (b0,b1,b2)
    v = z3.Concat(*b); return z3.ZeroExt(2, z3.Extract(23 - 6 * j, 18 - 6 * j, v))
def octets(c4, val=value): return [z3.Extract(23 - 8 * k, 16 - 8 * k, z3.Concat(*[z3.Extract(5, 0, val(x)) for x in c4])) for k in range(3)]
MAXN = 1 << 28
def table(c, st, nm, n, spec, valid):   # the real table has the contents the specification asks for; from there on it is an array T with Select(T, i) named, not expanded
    h = c.ex.gptr(nm, st).reg
    if nm == '_ZL3b64': h = c.getp(st, h, 0).reg
    c.ex.to_arr(st, h); arr = st.mem[h].arr; i = c.bv('i_' + nm, 32); v = z3.Extract(7, 0, i)
    c.post(st, 'the table %s is the one of RFC 4648' % nm, z3.Implies(z3.And(z3.ULT(i, n), valid(v)), z3.Select(arr, i) == spec(v)))
    t = z3.Array('T_' + nm, z3.BitVecSort(32), z3.BitVecSort(8)); st.mem[h].arr = t
    if n == 256: c.post(st, 'all values of the table %s fit in 6 bits' % nm, z3.Implies(z3.ULT(i, n), z3.ULT(z3.Select(arr, i), 64))); x = z3.BitVec('x', 32); t6 = z3.Array('T6_' + nm, z3.BitVecSort(32), z3.BitVecSort(6)); st.mem[h].arr = z3.Lambda([x], z3.ZeroExt(2, z3.Select(t6, x))); return lambda v: z3.ZeroExt(2, z3.Select(t6, z3.ZeroExt(24, v)))
    return lambda v: z3.Select(t, z3.ZeroExt(24, v))
def srcbuf(c, n):
    b = c.obj('src', n); c.ex.to_arr(c.st, b); return b, c.st.mem[b].arr
def sbstubs(b, n, got):
    def handoff(ex, st, args, ins):
        got.append(1); st.ghost['out'] = args[1].reg; st.ghost['outoff'] = args[1].c; st.ghost['outlen'] = ex.A.lift(args[2], 32); return [(st, None)]
    return [(r'StringBuilder::string\(\)', lambda ex, st, args, ins: [(st, Ptr(b))]), (r'StringBuilder::length\(\)', lambda ex, st, args, ins: [(st, n)]), (r'StringBuilder::concatHandoff\(unsigned char\*, int\)', handoff)]
@contract('encode', T, init_globals=('g:_ZL3b64',))
def _(c):
    tab = table(c, c.st, '_ZL3b64', 64, alpha, lambda v: z3.BoolVal(True)); g, r = c.bv('groups', 32), c.bv('rest', 32); n = 3 * g + r; c.st.assume(z3.And(z3.ULT(g, MAXN // 3), z3.ULT(r, 3), n != 0)); b, a = srcbuf(c, n); got = []; c.ex.stubs = sbstubs(b, n, got)
    e, d, s = c.obj('enc', c.sizeof('e')), c.obj('dest', 16), c.obj('srcsb', 16); Q = c.bv('Q', 32)
    def b3(q): return [z3.Select(a, 3 * q + k) for k in range(3)]
    def cands(v):
        l = [('iterations bounded', lambda w: z3.ULE(w.it, g))]
        for nm, ty in v.tys.items():
            if ty.k != 'i' or ty.n != 32: continue
            l += [('%s = %d it' % (nm, k), lambda w, nm=nm, k=k: c.lift(w.ph[nm], 32) == w.it * k) for k in (3, 4)]
        def done(w):
            hs = [h for h in w.st.mem if w.st.mem[h].heap]
            if not hs: return z3.BoolVal(True)
            c.ex.to_arr(w.st, hs[-1]); o = w.st.mem[hs[-1]].arr; return z3.Implies(z3.ULT(Q, w.it), z3.And([z3.Select(o, 4 * Q + j) == tab(sext(b3(Q), j)) for j in range(4)]))
        return l + [('group Q encoded', done)]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, ret in c.run('encx', [Ptr(e), Ptr(s), Ptr(d)]):
        ret = c.lift(ret, 32)
        if 'out' not in st.ghost: c.post(st, 'without memory nothing is produced and that is reported', ret != 0); c.sat_cover(st, 'no memory', z3.BoolVal(True)); continue
        c.post(st, 'success', ret == 0); o = st.ghost['out']; c.ex.to_arr(st, o); oa = st.mem[o].arr
        c.post(st, 'the text has 4 characters for every 3 bytes begun', z3.And(st.ghost['outlen'] == 4 * (g + z3.If(r != 0, V(1, 32), V(0, 32))), z3.BoolVal(st.ghost['outoff'] == 0)))
        s2 = st.copy(); s2.assume(z3.ULT(Q, g)); c.post(s2, 'every whole group of 3 bytes is encoded by its four sextets', z3.And([z3.Select(oa, 4 * Q + j) == tab(sext(b3(Q), j)) for j in range(4)]))
        z = V(0, 8); t = b3(g)
        for rr, gr, txt in ((1, [t[0], z, z], 2), (2, [t[0], t[1], z], 3)):
            s2 = st.copy(); s2.assume(r == rr)
            if c.ex.feasible(s2): c.sat_cover(s2, 'rest %d' % rr, z3.BoolVal(True)); c.post(s2, 'a rest of %d byte(s) is encoded with zero bits and padded with =' % rr, z3.And([z3.Select(oa, 4 * g + j) == (tab(sext(gr, j)) if j < txt else V(61, 8)) for j in range(4)]))
@contract('integrity', T)
def _(c):
    n = c.bv('n', 32); c.st.assume(z3.And(n != 0, z3.ULT(n, MAXN))); b, a = srcbuf(c, n); d = c.obj('dec', c.sizeof('d')); Q = c.bv('Q', 32)
    c.ex.stubs = [(r'(.*::)?printf\(?.*', lambda ex, st, args, ins: [(st, 0)])]
    at = lambda i: z3.Select(a, i)
    def cands(v):
        l = [('in range', lambda w: z3.And(w.it >= 0, w.it <= n - 2)), ('Q valid', lambda w: z3.Implies(z3.ULT(Q, w.it), isal(at(Q))))]
        return l + [('%s = it' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    bad = []
    for st, r in c.run('integ', [Ptr(d), Ptr(b), n]):
        r = c.lift(r, 32); last, pen = at(n - 1), at(n - 2)
        s2 = st.copy(); s2.assume(r == 0)
        if c.ex.feasible(s2):
            c.sat_cover(s2, 'accepted', z3.BoolVal(True)); c.post(s2, 'accepted text has a length that is a multiple of 4', n & 3 == 0); s3 = s2.copy(); s3.assume(z3.ULT(Q, n - 2)); c.post(s3, 'all but the last two characters of accepted text are in the alphabet', isal(at(Q)))
            c.post(s2, 'the last two are in the alphabet, or end in = or ==', z3.And(z3.Or(isal(last), last == 61), z3.Or(isal(pen), z3.And(pen == 61, last == 61))))
        s2 = st.copy(); s2.assume(r != 0)
        if c.ex.feasible(s2):   # refusal is justified: text that is well formed is never refused
            s2.assume(z3.And(n & 3 == 0, z3.Or(isal(last), last == 61), z3.Or(isal(pen), z3.And(pen == 61, last == 61)))); k = z3.BitVec('k', 32); s2.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, n - 2), isal(at(k))), patterns=[at(k)])); c.post(s2, 'well-formed text is never refused', z3.BoolVal(False)); c.sat_cover(st, 'refused', r != 0)
@contract('decode', T, houdini_timeout=60000)
def _(c):
    tab = table(c, c.st, '_ZL5unb64', 256, value, isal); g = c.bv('groups', 32); n = 4 * g; c.st.assume(z3.And(z3.ULT(g, MAXN // 4), g != 0)); m = c.bv('len', 32); b, a = srcbuf(c, m); got = []; at = lambda i: z3.Select(a, i); c.st.assume(z3.And(m != 0, z3.ULT(m, MAXN)))
    Q = c.bv('Q', 32); e, d, s = c.obj('dec', c.sizeof('d')), c.obj('dest', 16), c.obj('srcsb', 16); ok = c.bv('intact', 1)
    p1, p2 = at(n - 1) == 61, at(n - 2) == 61; pad = z3.If(p2, V(2, 32), z3.If(p1, V(1, 32), V(0, 32)))
    wf = z3.And(m == n, z3.Or(isal(at(n - 1)), p1), z3.Or(isal(at(n - 2)), z3.And(p1, p2)), isal(at(n - 3)), isal(at(n - 4)), z3.Implies(z3.ULT(4 * Q, n - 4), z3.And([isal(at(4 * Q + j)) for j in range(4)])))
    c.st.assume(z3.Implies(ok, wf))   # contract of _b64_str_integrity (proved above), at the characters used here
    c.ex.stubs = sbstubs(b, m, got) + [(r'Base64Decoder::_b64_str_integrity\(.*\)', lambda ex, st, args, ins: [(st, z3.If(ok, V(0, 8), V(255, 8)))])]
    whole = g - z3.If(pad != 0, V(1, 32), V(0, 32)); c4 = lambda q: [at(4 * q + j) for j in range(4)]
    def cands(v):
        l = [('iterations bounded', lambda w: z3.ULE(w.it, whole))]
        for nm, ty in v.tys.items():
            if ty.k != 'i' or ty.n != 32: continue
            l += [('%s = %d it' % (nm, k), lambda w, nm=nm, k=k: c.lift(w.ph[nm], 32) == w.it * k) for k in (3, 4)]
        def done(w):
            hs = [h for h in w.st.mem if w.st.mem[h].heap]
            if not hs: return z3.BoolVal(True)
            c.ex.to_arr(w.st, hs[-1]); o = w.st.mem[hs[-1]].arr; return z3.Implies(z3.ULT(Q, w.it), z3.And([z3.Select(o, 3 * Q + j) == octets(c4(Q), tab)[j] for j in range(3)]))
        return l + [('group Q decoded', done)]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, ret in c.run('decx', [Ptr(e), Ptr(s), Ptr(d)]):
        ret = c.lift(ret, 32)
        if 'out' not in st.ghost: c.post(st, 'refused without producing anything', ret != 0); c.sat_cover(st, 'malformed', z3.Not(ok)); c.sat_cover(st, 'no memory', ok); continue
        c.post(st, 'only well-formed text is decoded', z3.And(ret == 0, ok)); o = st.ghost['out']; c.ex.to_arr(st, o); oa = st.mem[o].arr
        c.post(st, 'three bytes per group, less one per =', z3.And(st.ghost['outlen'] == 3 * g - pad, z3.BoolVal(st.ghost['outoff'] == 0)))
        s2 = st.copy(); s2.assume(z3.ULT(Q, whole)); c.post(s2, 'every whole group of four characters is decoded to its three bytes', z3.And([z3.Select(oa, 3 * Q + j) == octets(c4(Q), tab)[j] for j in range(3)]))
        for pp in (1, 2):
            s2 = st.copy(); s2.assume(pad == pp)
            if c.ex.feasible(s2): c.sat_cover(s2, 'pad %d' % pp, z3.BoolVal(True)); [c.post(s2, 'the last group is decoded to %d byte(s), byte %d' % (3 - pp, j), z3.Select(oa, 3 * (g - 1) + j) == octets(c4(g - 1), tab)[j], timeout=60000) for j in range(3 - pp)]
@contract('round trip', T)
def _(c):
    bs = [z3.BitVec('b%d' % i, 8) for i in range(3)]; cs = [alpha(sext(bs, j)) for j in range(4)]
    c.lemma('encoded characters are in the alphabet', z3.And([isal(x) for x in cs])); c.lemma('decoding four encoded characters gives the three bytes back', z3.And([octets(cs)[k] == bs[k] for k in range(3)]))
    z = V(0, 8)
    for m in (1, 2):
        t = bs[:m] + [z] * (3 - m); ch = [alpha(sext(t, j)) for j in range(m + 1)]; full = ch + [V(61, 8)] * (3 - m); c.lemma('a padded rest of %d byte(s) decodes to itself' % m, z3.And([octets(full)[k] == bs[k] for k in range(m)]))
# ---- pushBuffer(): accounting, with _encode/_decode by the contracts proved above and any downstream that takes what it says it can take
def pushing(c, k, null):
    x = c.obj('codec', c.sizeof(k)); eff = c.obj('eff', 4); vt = c.obj('vt', 16); c.ex.init_globals = AllGlobals(); A = c.bv('available', 32); c.st.assume(A >= 0)
    c.ex.put_cell(c.st, vt, 0, 4, Ptr(Fn('eff_push'))); c.ex.put_cell(c.st, vt, 4, 4, Ptr(Fn('eff_avail'))); c.ex.put_cell(c.st, eff, 0, 4, Ptr(vt)); buf = c.obj('buf', 16); P = c.bv('buflen', 32); c.st.assume(z3.ULT(P, MAXN))
    (st, _), = c.run('mk' + k, [Ptr(x), Ptr(None) if null else Ptr(eff)]); c.post(st, 'a new codec is not chunked', c.lift(c.get(st, x, c.off(k, '_input_length'), 4), 32) == 0)
    L = c.bv('chunk', 32); c.set(x, c.off(k, '_input_length'), 4, L, st); G = st.ghost; G['len:' + str(buf)] = P; G['from:' + str(buf)] = V(0, 32); G['pushes'] = 0; good = c.bv('codec_ok', 1); lost = []
    def glen(st, p): return st.ghost.get('len:' + str(p.reg), V(0, 32))
    def take(ex, st, args, ins):
        d, s_, n = args; n = ex.A.lift(n, 32); c.post(st, 'the piece taken lies within the buffer and goes to an empty builder', z3.And(z3.ULE(n, glen(st, s_)), glen(st, d) == 0, z3.BoolVal(s_.reg == buf)))
        st.ghost['len:' + str(d.reg)] = n; st.ghost['from:' + str(d.reg)] = st.ghost['from:' + str(buf)]; st.ghost['from:' + str(buf)] = st.ghost['from:' + str(buf)] + n; st.ghost['len:' + str(buf)] = glen(st, s_) - n; return [(st, None)]
    def back(ex, st, args, ins):
        d, s_ = args; c.post(st, 'what is put back is what preceded the rest', z3.And(st.ghost['from:' + str(s_.reg)] + glen(st, s_) == st.ghost['from:' + str(buf)], z3.BoolVal(d.reg == buf)))
        st.ghost['from:' + str(buf)] = st.ghost['from:' + str(s_.reg)]; st.ghost['len:' + str(buf)] = glen(st, d) + glen(st, s_); st.ghost['len:' + str(s_.reg)] = V(0, 32); return [(st, None)]
    def code(ex, st, args, ins):
        me, s_, d = args; n = glen(st, s_); st.ghost['coded'] = n; st.ghost['codedfrom'] = st.ghost.get('from:' + str(s_.reg), V(0, 32)); o = c.bv('outlen', 32)
        a, b = st.copy(), st.copy(); a.assume(good); b.assume(z3.Not(good))
        if k == 'e': a.assume(o == 4 * ((n + 2) / V(3, 32)))
        else: a.assume(z3.And(n & 3 == 0, z3.ULE(o, 3 * z3.LShR(n, 2)), z3.UGE(o + 2, 3 * z3.LShR(n, 2))))
        a.ghost['len:' + str(d.reg)] = o; a.ghost['coded:' + str(d.reg)] = 1; e = c.bv('err', 8); b.assume(e != 0); return [(a, V(0, 8)), (b, e)]
    def epush(ex, st, args, ins):
        c.post(st, 'what goes downstream is the result of the conversion, and fits what the downstream offered to take', z3.And(z3.BoolVal(('coded:' + str(args[1].reg)) in st.ghost), z3.ULE(glen(st, args[1]), A)))
        st.ghost['pushes'] += 1; st.ghost['len:' + str(args[1].reg)] = V(0, 32); return [(st, V(1, 8))]
    c.ex.stubs = [(r'eff_push', epush), (r'eff_avail', lambda ex, st, args, ins: [(st, A)]), (r'StringBuilder::length\(\)', lambda ex, st, args, ins: [(st, glen(st, args[0]))]), (r'StringBuilder::concatHandoffLimit\(.*\)', take), (r'StringBuilder::prependHandoff\(.*\)', back), (r'Base64(Encoder|Decoder)::_(en|de)code\(.*\)', code),
                  (r'StringBuilder::(~?StringBuilder|clear)\(.*\)', lambda ex, st, args, ins: [(st, None)])]
    return x, buf, P, A, L, good, st
for K in ('e', 'd'):
    @contract('push ' + dict(e='encoder', d='decoder')[K], T, fp='z3')
    def _(c, K=K):
        x, buf, P, A, L, good, st0 = pushing(c, K, False)
        for st, av in c.run('av' + K, [Ptr(x)], st0.copy()):
            av = c.lift(av, 32); need = 4 * ((av + 2) / V(3, 32)) if K == 'e' else 3 * z3.LShR(av, 2); c.post(st, 'what is offered upstream fits downstream once converted', z3.And(av >= 0, need >= 0, need <= A), timeout=120000)
            c.post(st, 'space downstream is offered upstream', z3.Implies(A >= 8, av > 0), timeout=120000)
        AV = c.bv('offered', 32); av_fn = r'Base64(Encoder|Decoder)::bufferAvailable\(\)'; c.ex.stubs.append((av_fn, lambda ex, st, args, ins: [(st, AV)]))
        st0.assume(z3.And(AV >= 0, AV <= A, AV < MAXN)); st0.assume((4 * ((AV + 2) / V(3, 32)) if K == 'e' else 3 * z3.LShR(AV, 2)) <= A); TAKE = z3.If(L == 0, P, L); fits = z3.And(TAKE > 0, TAKE <= P, TAKE <= AV)
        for st, r in c.run('push' + K, [Ptr(x), Ptr(buf)], st0.copy()):
            r = c.lift(r, 32); n, fr = st.ghost['len:' + str(buf)], st.ghost['from:' + str(buf)]; done = z3.And(fits, good); c.sat_cover(st, 'converted', done); c.sat_cover(st, 'refused for size', z3.Not(fits)); c.sat_cover(st, 'malformed', z3.And(fits, z3.Not(good)))
            c.post(st, 'exactly the piece asked for is taken from the front when it fits', z3.Implies(done, z3.And(n == P - TAKE, fr == TAKE, z3.BoolVal(st.ghost['pushes'] == 1), r == z3.If(TAKE == P, V(1, 32), V(0, 32)))))
            c.post(st, 'the conversion is of exactly that piece', z3.Implies(done, z3.And(st.ghost.get('coded', V(0, 32)) == TAKE, st.ghost.get('codedfrom', V(1, 32)) == 0)))
            c.post(st, 'otherwise the buffer is left as it was, and that is reported', z3.Implies(z3.Not(done), z3.And(n == P, fr == 0, z3.BoolVal(st.ghost['pushes'] == 0), r == 0xFFFFFFFF)))
        for st, r in c.run('push' + K, [Ptr(x), Ptr(None)], st0.copy()): c.post(st, 'no buffer: nothing happens', z3.And(c.lift(r, 32) == 0xFFFFFFFF, z3.BoolVal(st.ghost['pushes'] == 0)))
    @contract('no downstream, ' + K, T, fp='z3')
    def _(c, K=K):
        x, buf, P, A, L, good, st0 = pushing(c, K, True)
        for st, r in c.run('push' + K, [Ptr(x), Ptr(buf)], st0.copy()): c.post(st, 'without a downstream the buffer is refused and kept', z3.And(c.lift(r, 32) == 0xFFFFFFFF, st.ghost['len:' + str(buf)] == P, st.ghost['from:' + str(buf)] == 0))
        for st, r in c.run('av' + K, [Ptr(x)], st0.copy()): c.post(st, 'without a downstream there is no space', c.lift(r, 32) == 0)
