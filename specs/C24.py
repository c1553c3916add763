from spec import *
HARNESS = dict(src='C24.cpp', lib=['StringBuilder.cpp', 'AbstractPlatform.cpp', 'CppPotpourri.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp'])
PROVED = 'every EnumDefList look-up, by value and by text, over lists of every length and content: the first matching definition decides, invalid-marked definitions are never valid, the last catch-all answers an unknown text, exported keys are the valid ones in list order.'
BOUNDED = 'native replay over random lists against a reference model (8-bit and 32-bit enumerations)'
ASSUMPTIONS = ['StringBuilder::strcasecmp() answers 0 exactly for texts equal but for letter case, and concat() appends its text (contracts discharged in C10 and C09)', 'getEnumByStr() is asked of lists with at least one definition (it always returns a defined value)', 'two instantiations (8-bit and 32-bit enumerations) stand for the template']
KS = {'e8': 'uint8_t', 'e32': 'uint32_t'}
T = tu_text('enumlist.cpp', '#include "EnumWrapper.h"\n' + ''.join('enum class %(k)s : %(t)s { A = 0 };\ntypedef EnumDefList<%(k)s> L_%(k)s; typedef EnumDef<%(k)s> D_%(k)s;\n' % dict(k=k, t=t) + offs(k, 'D_' + k, 'VAL', 'FLAGS', 'CONTEXT', 'STR') + offs('L' + k, 'L_' + k, 'LIST_PTR', 'COUNT', 'LIST_NAME') + '''
extern "C" { bool valid_%(k)s(L_%(k)s* p, %(t)s v) { return p->enumValid((%(k)s) v); } const char* str_%(k)s(L_%(k)s* p, %(t)s v) { return p->enumStr((%(k)s) v); }
void keys_%(k)s(L_%(k)s* p, StringBuilder* o) { p->exportKeys(o); } uint32_t cnt_%(k)s(L_%(k)s* p) { return p->exportCount(); } uint8_t ext_%(k)s(L_%(k)s* p, %(t)s v) { return p->enumExtra((%(k)s) v); }
const D_%(k)s* def_%(k)s(L_%(k)s* p, %(t)s v) { return p->enumDef((%(k)s) v); } const D_%(k)s* defs_%(k)s(L_%(k)s* p, const char* s) { return p->getEnumDefByStr(s); } %(t)s bystr_%(k)s(L_%(k)s* p, const char* s, int8_t* f) { return (%(t)s) p->getEnumByStr(s, f); }
}
''' % dict(k=k, t=t) for k, t in KS.items()).replace('#include "EnumWrapper.h"\n', '', 0))
INVALID, CATCHALL = 2, 1
B32 = z3.BitVecSort(32)
class L:
    def __init__(s, c, k):
        s.c, s.k = c, k; s.W = 8 if k == 'e8' else 32
        s.n = c.bv('count', 32); c.st.assume(z3.ULT(s.n, 1 << 24))
        s.val = z3.Function('VAL', B32, z3.BitVecSort(s.W)); s.flg = z3.Function('FLAGS', B32, z3.BitVecSort(8)); s.ctx = z3.Function('CONTEXT', B32, z3.BitVecSort(8)); s.str = z3.Function('STR', B32, z3.IntSort())
        s.sz = c.sizeof(k); o = {f: c.off(k, f) for f in ('VAL', 'FLAGS', 'CONTEXT', 'STR')}
        s.lst = c.obj('definitions', s.sz * 1, ro=True); ob = c.st.mem[s.lst]
        ob.rec = (s.sz, s.n, {o['VAL']: (('i', s.W), lambda i: s.val(i)), o['FLAGS']: (('i', 8), lambda i: s.flg(i)), o['CONTEXT']: (('i', 8), lambda i: s.ctx(i)), o['STR']: (('opq',), lambda i: s.str(i))})
        s.h = c.obj('list', c.sizeof('L' + k), ro=True)
        c.set(s.h, c.off('L' + k, 'LIST_PTR'), 4, Ptr(s.lst)); c.set(s.h, c.off('L' + k, 'COUNT'), 4, s.n); c.set(s.h, c.off('L' + k, 'LIST_NAME'), 4, NULL)
    def first(s, pred, nm='g'):
        """ghost: the first index whose definition satisfies pred, or COUNT"""
        g = s.c.bv(nm, 32); j = z3.BitVec('j' + nm, 32)
        s.c.st.assume(z3.And(z3.ULE(g, s.n), z3.Implies(z3.ULT(g, s.n), pred(g)))); s.c.st.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, g), z3.Not(pred(j))), patterns=[s.val(j), s.str(j)])); return g
def idx(c, L, p):
    """index term of a pointer into the list"""
    assert p.reg == L.lst and p.c == 0 and all(k % L.sz == 0 for k, _ in p.t)
    return c.ex.tidx(Ptr(None, 0, tuple((k // L.sz, x) for k, x in p.t)))
def none_before(L, pred):
    j = z3.BitVec('jq', 32)
    return lambda v: [('no match before', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), z3.Not(pred(j))), patterns=[L.val(j), L.str(j)])), ('in range', lambda w: z3.ULE(w.it, L.n))]
for k in KS:
    @contract('by value/' + k, T)
    def _(c, k=k):
        l = L(c, k); x = c.bv('x', l.W); pred = lambda i: l.val(i) == x; g = l.first(pred); hit = z3.ULT(g, l.n); c.ex.default_loop = LoopPolicy('inv', cands=none_before(l, pred))
        for st, r in c.run('valid_' + k, [Ptr(l.h), x], c.st.copy()): c.post(st, 'valid exactly when the first definition of that value is not marked invalid', tobool(r) == z3.And(hit, l.flg(g) & INVALID == 0))
        for st, r in c.run('ext_' + k, [Ptr(l.h), x], c.st.copy()): c.post(st, 'context byte of the first definition, or zero', c.lift(r, 8) == z3.If(hit, l.ctx(g), z3.BitVecVal(0, 8)))
        for st, r in c.run('def_' + k, [Ptr(l.h), x], c.st.copy()):
            if r.reg is None: c.post(st, 'no definition only when none matches', z3.Not(hit))
            else: c.post(st, 'the first definition of that value', z3.And(hit, idx(c, l, r) == g))
        for st, r in c.run('str_' + k, [Ptr(l.h), x], c.st.copy()):
            if isinstance(r.reg, Opq): c.post(st, 'text of the first definition', z3.And(hit, r.reg.id == l.str(g)))
            else:
                c.post(st, 'the placeholder only when none matches', z3.Not(hit)); txt = bytes(c.ex.load(st, Ptr(r.reg, r.c + i), I8) for i in range(10)); c.post(st, 'the placeholder text', z3.BoolVal(txt == b'<NO ENUM>\0'))
    @contract('by text/' + k, T)
    def _(c, k=k):
        l = L(c, k); EQ = z3.Function('SAMETEXT', z3.IntSort(), z3.BoolSort()); needle = Ptr(Opq(z3.Int('needle')))
        def cmp(ex, st, args, ins):
            c.post(st, 'compares the requested text', z3.BoolVal(args[0].reg is needle.reg)); r = z3.BitVec(ex.uniq('cmp'), 32); st.assume((r == 0) == EQ(args[1].reg.id)); return [(st, r)]
        c.ex.stubs = [(r'StringBuilder::strcasecmp\(.*\)', cmp)]
        pred = lambda i: EQ(l.str(i)); g = l.first(pred); hit = z3.ULT(g, l.n)
        LC = z3.Function('LASTCATCH', B32, B32); i = z3.BitVec('i', 32); none = z3.BitVecVal(0xFFFFFFFF, 32)      # ghost: the last catch-all among the first i definitions
        c.st.assume(LC(z3.BitVecVal(0, 32)) == none); c.st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, l.n), LC(i + 1) == z3.If(l.flg(i) & CATCHALL != 0, i, LC(i))), patterns=[l.flg(i)]))
        c.st.assume(z3.ForAll([i], z3.Implies(z3.ULE(i, l.n), z3.Or(LC(i) == none, z3.ULT(LC(i), i))), patterns=[LC(i)])); lc = LC(l.n)      # lemma below
        m = z3.BitVec('m', 32); s1 = c.st.copy(); c.lemma('the last catch-all of a prefix lies in it (induction step)', z3.Implies(z3.And(z3.ULT(m, l.n), z3.Or(LC(m) == none, z3.ULT(LC(m), m))), z3.Or(z3.If(l.flg(m) & CATCHALL != 0, m, LC(m)) == none, z3.ULT(z3.If(l.flg(m) & CATCHALL != 0, m, LC(m)), m + 1))))
        nb = none_before(l, pred)
        def cands(v):
            out = nb(v)
            for nm, ty in v.tys.items():
                if ty.k == 'i' and ty.n == 32: out.append(('%s is the last catch-all so far' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == LC(w.it)))
            return out
        c.ex.default_loop = LoopPolicy('inv', cands=cands)
        for st, r in c.run('defs_' + k, [Ptr(l.h), needle], c.st.copy()):
            if r.reg is None: c.post(st, 'no definition only when neither the text nor a catch-all is there', z3.And(z3.Not(hit), lc == none))
            else: c.post(st, 'the first definition with that text, else the last catch-all', z3.And(z3.Or(hit, lc != none), idx(c, l, r) == z3.If(hit, g, lc)))
        s0 = c.st.copy(); s0.assume(z3.UGT(l.n, 0)); f = c.obj('found', 1, st=s0); f0 = c.bv('found0', 8); c.set(f, 0, 1, f0, s0)
        for fp in (Ptr(f), NULL):
            for st, r in c.run('bystr_' + k, [Ptr(l.h), needle, fp], s0.copy()):
                c.post(st, 'value of the first definition with that text, else of the last catch-all, else of the last definition', c.lift(r, l.W) == l.val(z3.If(hit, g, z3.If(lc != none, lc, l.n - 1))))
                c.post(st, 'reports whether the text was found', c.lift(c.get(st, f, 0, 1), 8) == (z3.If(hit, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if fp is not NULL else f0))
    @contract('export/' + k, T)
    def _(c, k=k):
        l = L(c, k); NV = z3.Function('VALIDBEFORE', B32, B32); i = z3.BitVec('i', 32); ok = lambda q: l.flg(q) & INVALID == 0
        c.st.assume(NV(z3.BitVecVal(0, 32)) == 0); c.st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, l.n), NV(i + 1) == NV(i) + z3.If(ok(i), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), patterns=[l.flg(i)]))
        c.st.assume(z3.ForAll([i], z3.Implies(z3.ULE(i, l.n), z3.ULE(NV(i), i)), patterns=[NV(i)]))      # lemma below
        def cnt(v): return [x for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32 for x in (('count so far', lambda w, nm=nm: c.lift(w.ph[nm], 32) == l.n - w.it + NV(w.it)), ('valid ones so far', lambda w, nm=nm: c.lift(w.ph[nm], 32) == NV(w.it)))]
        c.ex.default_loop = LoopPolicy('inv', cands=lambda v: cnt(v) + [('in range', lambda w: z3.ULE(w.it, l.n))])
        for st, r in c.run('cnt_' + k, [Ptr(l.h)], c.st.copy()): c.post(st, 'the number of definitions not marked invalid', c.lift(r, 32) == NV(l.n))
        def put(ex, st, args, ins):
            st.ghost['seq'] = z3.Store(st.ghost['seq'], st.ghost['n'], args[1].reg.id); st.ghost['n'] = st.ghost['n'] + 1; return [(st, None)]
        c.ex.stubs = [(r'StringBuilder::concat\(char const\*\)', put)]
        s0 = c.st.copy(); s0.ghost['seq'] = z3.Array('seq0', B32, z3.IntSort()); s0.ghost['n'] = z3.BitVecVal(0, 32); o = c.obj('out', 64, st=s0)
        body = lambda w, lim: z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, lim), ok(i)), z3.And(z3.Select(w.ghost['seq'], NV(i)) == l.str(i), z3.ULT(NV(i), NV(lim)))), patterns=[NV(i)])
        c.ex.default_loop = LoopPolicy('inv', cands=lambda v: [('exported so far', lambda w: w.st.ghost['n'] == NV(w.it)), ('in order', lambda w: body(w.st, w.it)), ('in range', lambda w: z3.ULE(w.it, l.n))])
        for st, r in c.run('keys_' + k, [Ptr(l.h), Ptr(o)], s0.copy()):
            c.post(st, 'exports exactly the valid definitions', st.ghost['n'] == NV(l.n)); q = z3.BitVec('q', 32)
            s2 = st.copy(); s2.assume(z3.And(z3.ULT(q, l.n), ok(q), NV(q) == NV(q))); c.post(s2, 'every valid key is exported, in list order', z3.Select(st.ghost['seq'], NV(q)) == l.str(q))
        m = z3.BitVec('m', 32); c.lemma('the running count never exceeds the index (induction step)', z3.Implies(z3.And(z3.ULT(m, l.n), z3.ULE(NV(m), m)), z3.ULE(NV(m) + z3.If(ok(m), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), m + 1)))
