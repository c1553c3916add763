from spec import *
HARNESS = dict(src='C14.cpp', lib=VALUEL)
PROVED = 'every conversion between the eleven numeric types through both directions of the type helper, every value including NaN and infinities; the conversion-risk table; the type attribute queries; same-type copies of the vector types.'
BOUNDED = 'native replay: all type pairs over boundary and random values, plus the value container on top'
ASSUMPTIONS = ['source and destination storage have the size of their type']
T = tu_text('ctype.cpp', '#include "C3PValue/C3PType.cpp"\nextern "C" { int8_t sf(int t, void* d, int o, void* s) { return getTypeHelper((TCode) t)->set_from(d, (TCode) o, s); } int8_t ga(int t, void* s, int o, void* d) { return getTypeHelper((TCode) t)->get_as(s, (TCode) o, d); }\nint8_t risk(int a, int b) { return C3PType::conversionRisk((TCode) a, (TCode) b); } bool isnum(int a) { return C3PType::is_numeric((TCode) a); } bool issig(int a) { return C3PType::is_signed((TCode) a); } bool isint(int a) { return C3PType::is_integral((TCode) a); } int szo(int a) { return sizeOfType((TCode) a); } bool fixd(int a) { return typeIsFixedLength((TCode) a); }\n'
  + ''.join('int tc_%s() { return (int) TCode::%s; }\n' % (n, n) for n in 'INT8 INT16 INT32 INT64 UINT8 UINT16 UINT32 UINT64 BOOLEAN FLOAT DOUBLE VECT_3_INT8 VECT_3_INT16 VECT_3_INT32 VECT_3_UINT8 VECT_3_UINT16 VECT_3_UINT32 VECT_3_FLOAT VECT_3_DOUBLE BINARY'.split()) + '}')
INTS = {'INT8': (8, 1), 'INT16': (16, 1), 'INT32': (32, 1), 'INT64': (64, 1), 'UINT8': (8, 0), 'UINT16': (16, 0), 'UINT32': (32, 0), 'UINT64': (64, 0)}
FPS = {'FLOAT': z3.Float32(), 'DOUBLE': z3.Float64()}; NUM = list(INTS) + ['BOOLEAN'] + list(FPS)
def bits(t): return INTS[t][0] if t in INTS else {'BOOLEAN': 8, 'FLOAT': 32, 'DOUBLE': 64}[t]
VEC = {'VECT_3_INT8': 3, 'VECT_3_INT16': 6, 'VECT_3_INT32': 12, 'VECT_3_UINT8': 3, 'VECT_3_UINT16': 6, 'VECT_3_UINT32': 12, 'VECT_3_FLOAT': 12, 'VECT_3_DOUBLE': 24}
CODE = {}
def codes(c):
    for t in NUM + list(VEC) + ['BINARY']:
        (_, r), = c.ex.run('tc_' + t, [], State()); CODE[t] = r
def boot(c):
    """the helper objects as the static initialisers build them"""
    codes(c)
    (st, _), = c.ex.run(c.ex.find(r'_GLOBAL__sub_I_ctype\.cpp'), [], c.st); c.st = st
def wide(t, v): n, s = INTS[t]; return z3.SignExt(66 - n, v) if s else z3.ZeroExt(66 - n, v)
def rep(a, va, b):
    """(representable, value as b's bits) of a's value va in type b; None where the pair is outside the helper's integer contract"""
    if a == b: return True, va
    if b == 'BOOLEAN': return True, z3.If(va != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if a in INTS else z3.If(z3.fpIsZero(z3.fpBVToFP(va, FPS[a])), z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
    if b in INTS:
        n, s = INTS[b]
        if a == 'BOOLEAN': return True, z3.ZeroExt(n - 8, va) if n > 8 else va
        if a in FPS: return None, None
        w = wide(a, va); lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
        return z3.And(w >= lo, w <= hi), z3.Extract(n - 1, 0, w)
    F = FPS[b]
    if a == 'BOOLEAN': return True, z3.If(va == 1, z3.fpToIEEEBV(z3.FPVal(1, F)), z3.fpToIEEEBV(z3.FPVal(0, F)))
    if a in FPS: return (True if b == 'DOUBLE' else None), z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(va, FPS[a]), F)
    n, s = INTS[a]; return None, (z3.fpSignedToFP if s else z3.fpUnsignedToFP)(z3.RNE(), va, F)
def fpsame(F, got, want):
    """equal floating values (any NaN for a NaN)"""
    x = z3.fpBVToFP(got, F); w = z3.fpBVToFP(want, F) if want.sort().kind() == z3.Z3_BV_SORT else want
    return z3.Or(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(w)), x == w)
def one(c, self, other, direction):
    a, b = (other, self) if direction == 'set' else (self, other)     # value flows a -> b
    na, nb = bits(a), bits(b); st = c.st.copy(); src = c.obj('src', na // 8, st=st); dst = c.obj('dst', nb // 8, st=st)
    va, old = z3.BitVec('value', na), z3.BitVec('old', nb); c.inputs['value'] = va
    if a == 'BOOLEAN': st.assume(z3.ULE(va, 1))
    c.set(src, 0, na // 8, va, st); c.set(dst, 0, nb // 8, old, st)
    args = ['sf', [CODE[self], Ptr(dst), CODE[other], Ptr(src)]] if direction == 'set' else ['ga', [CODE[self], Ptr(src), CODE[other], Ptr(dst)]]
    ok, val = rep(a, va, b); nm = '%s to %s' % (a, b)
    for s, r in c.run(args[0], args[1], st, cover=False):
        got = c.lift(c.get(s, dst, 0, nb // 8), nb); r = c.lift(r, 8); yes = r == 0
        c.post(s, nm + ': answers success or refusal', z3.Or(yes, r == 0xFF)); c.post(s, nm + ': the source is not changed', c.lift(c.get(s, src, 0, na // 8), na) == va)
        c.post(s, nm + ': refusal leaves the destination alone', z3.Implies(z3.Not(yes), got == old))
        if val is None: c.post(s, nm + ': never claimed', z3.Not(yes))
        elif b in FPS and a != 'BOOLEAN': c.post(s, nm + ': stores the nearest value', z3.Implies(yes, fpsame(FPS[b], got, val)))
        else: c.post(s, nm + ': stores exactly the value', z3.Implies(yes, got == val))
        if ok is not None: c.post(s, nm + ': succeeds exactly when the value is representable', yes == ok)
    # the risk table against what reading really does
    if direction == 'get':
        (s, r), = c.run('risk', [CODE[a], CODE[b]], c.st.copy(), cover=False); r = c.lift(r, 8); r = z3.simplify(r).as_signed_long()
        return nm, r
    return None
def risk(a, b):
    """what the documented table must say"""
    if b == 'BOOLEAN' or a == b or a == 'BOOLEAN': return 0
    if a in INTS and b in INTS:
        (n, s), (m, t) = INTS[a], INTS[b]; w = m < n or (not s and t and m <= n); g = s and not t
        return (1 if w and not g else 2 if g and m >= n else 3 if g else 0)
    return None
for t in NUM:
    for d in ('set', 'get'):
        @contract('%s %s' % (t, d), T, fp='z3', init_globals=AllGlobals())
        def _(c, t=t, d=d):
            boot(c)
            for o in NUM:
                x = one(c, t, o, d)
                if x and risk(t, o) is not None: c.lemma(x[0] + ': the risk table is right', z3.BoolVal(x[1] == risk(t, o)))
@contract('risk agrees with reading', T, fp='z3', init_globals=AllGlobals())
def _(c):
    boot(c)
    for a in NUM:
        for b in NUM:
            if risk(a, b) is not None: continue
            (s, r), = c.run('risk', [CODE[a], CODE[b]], c.st.copy(), cover=False); k = z3.simplify(c.lift(r, 8)).as_signed_long(); na, nb = bits(a), bits(b)
            st = c.st.copy(); src = c.obj('src', na // 8, st=st); dst = c.obj('dst', nb // 8, st=st); va = z3.BitVec('value', na); c.set(src, 0, na // 8, va, st); c.set(dst, 0, nb // 8, z3.BitVec('old', nb), st)
            for s, r in c.run('ga', [CODE[a], Ptr(src), CODE[b], Ptr(dst)], st, cover=False):
                r = c.lift(r, 8)
                c.post(s, '%s to %s: a conversion called riskless succeeds, an impossible one is refused' % (a, b), z3.And(z3.Implies(k == 0, r == 0), z3.Implies(k == -1, r == 0xFF)))
@contract('unknown codes are refused', T, fp='z3', init_globals=AllGlobals())
def _(c):
    boot(c); o = c.bv('other', 32); c.st.assume(z3.ULE(o, 255)); c.st.assume(z3.And([o != CODE[t] for t in NUM]))
    for t in NUM:
        n = bits(t); st = c.st.copy(); x = c.obj('x', n // 8, st=st); y = c.obj('y', 1, st=st); v, w = z3.BitVec('v', n), z3.BitVec('w', 8)
        if t == 'BOOLEAN': st.assume(z3.ULE(v, 1))
        c.set(x, 0, n // 8, v, st); c.set(y, 0, 1, w, st)
        for s, r in c.run('sf', [CODE[t], Ptr(x), o, Ptr(y)], st.copy(), cover=False): c.post(s, t + ' from a non-numeric type is refused', z3.And(c.lift(r, 8) == 0xFF, c.lift(c.get(s, x, 0, n // 8), n) == v))
        for s, r in c.run('ga', [CODE[t], Ptr(x), o, Ptr(y)], st.copy(), cover=False): c.post(s, t + ' as a non-numeric type is refused', z3.And(c.lift(r, 8) == 0xFF, c.lift(c.get(s, y, 0, 1), 8) == w))
for t in VEC:
    @contract('%s copies' % t, T, fp='z3', init_globals=AllGlobals())
    def _(c, t=t):
        boot(c); n = VEC[t]; o = c.bv('other', 32); c.st.assume(z3.And(z3.ULE(o, 255), o != CODE['BINARY'])); src = c.obj('src', n); dst = c.obj('dst', n); v = [c.bv('v%d' % k, 8) for k in range(n)]; w = [c.bv('w%d' % k, 8) for k in range(n)]
        for k in range(n): c.set(src, k, 1, v[k]); c.set(dst, k, 1, w[k])
        (s, r), = c.run('szo', [CODE[t]], c.st.copy()); c.post(s, 'documented size', c.lift(r, 32) == n)
        for fn, a in (('sf', [CODE[t], Ptr(dst), o, Ptr(src)]), ('ga', [CODE[t], Ptr(src), o, Ptr(dst)])):
            for s, r in c.run(fn, a, c.st.copy()):
                yes = c.lift(r, 8) == 0; got = [c.lift(c.get(s, dst, k, 1), 8) for k in range(n)]
                c.post(s, 'succeeds exactly for the same type', yes == (o == CODE[t])); c.post(s, 'copies every byte', z3.Implies(yes, z3.And([g == x for g, x in zip(got, v)]))); c.post(s, 'refusal leaves the destination alone', z3.Implies(z3.Not(yes), z3.And([g == x for g, x in zip(got, w)])))
for t in VEC:
    @contract('%s from a byte buffer' % t, T, fp='z3', init_globals=AllGlobals())
    def _(c, t=t):
        boot(c); n = VEC[t]; m = c.bv('length', 32); c.st.assume(z3.ULT(m, 1 << 20)); dst = c.obj('dst', n); w = [c.bv('w%d' % k, 8) for k in range(n)]; b = c.obj('binder', 8); d = c.obj('data', m, ro=True); c.ex.to_arr(c.st, d); a = c.st.mem[d].arr
        for k in range(n): c.set(dst, k, 1, w[k])
        c.set(b, 0, 4, Ptr(d)); c.set(b, 4, 4, m)
        for s, r in c.run('sf', [CODE[t], Ptr(dst), CODE['BINARY'], Ptr(b)]):
            yes = c.lift(r, 8) == 0; got = [c.lift(c.get(s, dst, k, 1), 8) for k in range(n)]
            c.post(s, 'succeeds exactly when the buffer is long enough', yes == z3.UGE(m, n)); c.post(s, 'copies the buffer', z3.Implies(yes, z3.And([g == z3.Select(a, z3.BitVecVal(k, 32)) for k, g in enumerate(got)]))); c.post(s, 'refusal leaves the destination alone', z3.Implies(z3.Not(yes), z3.And([g == x for g, x in zip(got, w)])))
@contract('type attributes', T, fp='z3', init_globals=AllGlobals())
def _(c):
    boot(c)
    def q(fn, t):
        (s, r), = c.run(fn, [CODE[t]], c.st.copy(), cover=False); return r
    for t in NUM + list(VEC):
        b = lambda x: z3.simplify(tobool(x)) if not isinstance(x, bool) else z3.BoolVal(x)
        c.lemma(t + ': numeric', b(q('isnum', t)) == (t in NUM)); c.lemma(t + ': signed', b(q('issig', t)) == (t in FPS or (t in INTS and INTS[t][1] == 1)))
        c.lemma(t + ': integral', b(q('isint', t)) == (t in INTS or t == 'BOOLEAN')); c.lemma(t + ': fixed length', b(q('fixd', t)) == True)
        if t in NUM: c.lemma(t + ': size', c.lift(q('szo', t), 32) == bits(t) // 8)
