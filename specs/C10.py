from sbmodel import *
HARNESS = dict(src='C10.cpp', lib=['StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp', 'uuid.cpp'], leaks=True)
PROVED = 'searching for bytes, a text or a character from any start (found exactly at the first offset where it stands, else not found), comparing, joining with a delimiter (implode), taking a fragment by position, dropping one, moving a run of fragments to another builder, and reading a fragment as a 32- or 64-bit number or trimmed, on fragment chains of any shape and needles of any length: answer, resulting text and fragments, frame, memory ownership and absence of leaks; and the static text functions (comparison and search without regard to letter case, trimming, copying) for texts of any length.'
BOUNDED = 'native replay: random histories with and without memory against a reference list of fragments; replace(), split(), chunk() and fractional numbers are checked only here'
ASSUMPTIONS = ['texts, needles and joined results are shorter than 2^30 bytes, fragment counts below 2^30', 'partial correctness: that the search ends is not proved (every recorded case is run natively)', 'the donor of a run of fragments is another object', 'strlen by its C contract; the search by text and by character is proved over the contract of the search by bytes', 'atoi, strtoull, isspace and toupper by their C contracts in the C locale; a fragment read as a number or trimmed is a terminated text (fragments made from raw buffers need not be)']
T10 = tu_text('sb10.cpp', r'''
#include <stdlib.h>
#include <inttypes.h>
#define private public
#include "StringBuilder.h"
extern "C" { int loc_t(StringBuilder* b, const char* p, int o) { return b->locate(p, o); } bool con_t(StringBuilder* b, const char* p) { return b->contains(p); } bool con_c(StringBuilder* b, char x) { return b->contains(x); } int cmp_b(StringBuilder* b, uint8_t* p, int n) { return b->cmpBinString(p, n); } }
''')
def ceq(p, h): return z3.BoolVal(isinstance(p, Ptr) and p.reg == h and p.c == 0 and not p.t)
class Needle:
    """a needle of length n; BAD(t) says that a byte of it differs from the text at offset t (W(t) names one)"""
    def __init__(s, c, m, h, nm='needle', text=False):
        st = m.st; s.h = h; s.n = c.int(nm + '_len', 32, st=st); st.assume(s.n < MX); s.b = c.obj(nm, s.n + (1 if text else 0), st=st, ro=True); c.ex.to_arr(st, s.b); s.a = st.mem[s.b].arr; s.W = F('mismatch_' + nm); t = z3.Int('t')
        st.assume(forall(t, z3.Or(s.bad(t), s.match(t)), s.W(t)))
        if text:
            i = z3.Int('i'); c.ex.strlen_of = {s.b: s.n}; st.assume(z3.Select(s.a, s.n) == 0); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.Select(s.a, i) != 0), patterns=[z3.Select(s.a, i)]))
    def N(s, j): return z3.Select(s.a, j)
    def bad(s, t): return z3.And(s.W(t) >= 0, s.W(t) < s.n, s.h.T(t + s.W(t)) != s.N(s.W(t)))
    def match(s, t, k=None):
        j = z3.Int('nj'); return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < (s.n if k is None else k)), s.h.T(t + j) == s.N(j)), patterns=[s.N(j)])
    def none(s, lo, hi):
        t = z3.Int('nt'); return forall(t, z3.Implies(z3.And(t >= lo, t < hi), z3.Or(s.bad(t), t + s.n > s.h.L)), s.W(t))
    def answer(s, r, start):
        """r is what locate() answers: the first offset from start on at which the needle stands, or -1"""
        ok = z3.And(start >= 0, s.n > 0, s.h.n > 0)
        return z3.If(r == -1, z3.Or(z3.Not(ok), s.none(start, s.h.L)), z3.And(ok, r >= start, r + s.n <= s.h.L, s.match(r), s.none(start, r)))
def located(c, m, nd, st, r, start, what):
    """obligations of locate()"""
    h, n = nd.h, nd.n; t, j = z3.Int(c.ex.uniq('wt')), z3.Int(c.ex.uniq('wj'))
    s1, s0 = split(c, st, r == -1)
    if s1 is not None: s1.assume(z3.And(start >= 0, n > 0, t >= start, t + n <= h.L)); c.post(s1, what + ': none only where every offset has a byte that differs', nd.bad(t))
    if s0 is not None:
        c.post(s0, what + ': found within the text, not before the start', z3.And(start >= 0, n > 0, r >= start, r + n <= h.L)); s2 = s0.copy(); s2.assume(z3.And(j >= 0, j < n)); c.post(s2, what + ': the needle stands there', h.T(r + j) == nd.N(j))
        s2 = s0.copy(); s2.assume(z3.And(t >= start, t < r)); c.post(s2, what + ': it is the first', nd.bad(t))
@contract('locate', [T, T10, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; nd = Needle(c, m, h); start = c.int('start', 32, st=st); n = nd.n; me = Ptr(m.h[1]); neg = c.int('negative', 32, st=st); st.assume(neg >= 1 << 31)
    def more(v):
        cells = {'variable+%d' % k[2]: k[1:] for k in v.mod if k[0] == 'cell' and v.mod[k][0] == 4 and not isinstance(v.st.mem[k[1]].cells[k[2]][1], Ptr)}; ints = [nm for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32] + list(cells)
        val = lambda w, nm: sg32(c.lift(w.st.mem[cells[nm][0]].cells[cells[nm][1]][1] if nm in cells else w.ph[nm], 32)); l = []; ptrs = [p for p, ty in v.tys.items() if ty.k == 'ptr']
        if start is None: return [(p + ' is null', lambda w, p=p: m.nid(w.ph[p]) == 0) for p in ptrs] + [('%s is -1' % x, lambda w, x=x: val(w, x) == -1) for x in ints]
        at0 = lambda w, p, cur: m.nid(w.ph[p]) == z3.If(z3.And(cur >= 0, cur < h.L), h.id(h.fi(cur)), 0)
        first = lambda nm, e: nm in v.ph0 and z3.is_true(z3.simplify(c.lift(v.ph0[nm], 32) == e)); sos, mls, rets = [x for x in ints if first(x, start)], [x for x in ints if first(x, 0)], [x for x in ints if first(x, (1 << 32) - 1)]
        for so in sos:
            l.append(('%s: from the start on' % so, lambda w, so=so: z3.And(val(w, so) >= start, z3.Or(val(w, so) <= h.L, val(w, so) == start), z3.Implies(w.it == 0, val(w, so) == start))))
            l.append(('%s: no earlier match' % so, lambda w, so=so: nd.none(start, val(w, so))))
            for ml in mls: l.append(('instance of the choice of a mismatch at %s+%s' % (so, ml), lambda w, so=so, ml=ml: w.st.assume(z3.Or(nd.bad(val(w, so)), val(w, ml) < 0, val(w, ml) >= n, h.T(val(w, so) + val(w, ml)) == nd.N(val(w, ml)))) or z3.BoolVal(True)))
            for ml in mls:
                l.append(('%s, %s: matched so far' % (so, ml), lambda w, so=so, ml=ml: z3.And(val(w, ml) >= 0, val(w, ml) <= n, z3.Implies(w.it == 0, val(w, ml) == 0), z3.Or(val(w, ml) == 0, val(w, so) + val(w, ml) <= h.L), nd.match(val(w, so), val(w, ml)))))
                cur = lambda w, so=so, ml=ml: val(w, so) + val(w, ml)
                for x in list(cells) + sos:
                    if x == so: continue
                    for p in ptrs: l.append(('%s, %s at %s+%s' % (p, x, so, ml), lambda w, p=p, x=x, cur=cur: z3.And(at0(w, p, cur(w)), z3.Implies(cur(w) < h.L, val(w, x) == cur(w) - h.pre(h.fi(cur(w)))))))
                    if x in sos: l.append(('%s = %s within a match (%s)' % (x, so, ml), lambda w, x=x, so=so, ml=ml: z3.Implies(z3.And(val(w, ml) >= 1, val(w, ml) < n), val(w, x) == val(w, so))))
                for x in rets: l.append(('%s: the answer (%s, %s)' % (x, so, ml), lambda w, x=x, so=so, ml=ml: z3.Or(z3.And(val(w, x) == -1, val(w, ml) < n), z3.And(val(w, x) == val(w, so), val(w, ml) == n))))
        return l
    c.ex.default_loop = LoopPolicy('inv', cands=more, generic=False); fn = P_(r'locate\(unsigned char const\*, int, int\)')
    st0 = start; s0 = st.copy(); s0.assume(start < 1 << 31)
    for s2, r in c.run(fn, [me, Ptr(nd.b), n, start], s0): located(c, m, nd, s2, sg32(R(c, r)), start, 'locate'); unchanged(m, s2, 'locate')
    start = None
    for what, args in (('negative start', [Ptr(nd.b), n, neg]), ('negative length', [Ptr(nd.b), neg, st0]), ('no needle', [NULL, n, st0])):
        for s2, r in c.run(fn, [me] + args, st.copy()): c.post(s2, what + ': not found', sg32(R(c, r)) == -1); unchanged(m, s2, what)
def locate_stub(c, m, calls):
    def f(ex, st, a, ins):
        nd, start, ln = calls(ex, st, a); r = z3.Int(ex.uniq('located')); ex.prove(st, ln == nd.n, 'the whole needle is searched for', ins=ins); st.assume(z3.And(r >= -1, r < MX)); st.assume(nd.answer(r, start)); return [(st, z3.If(r < 0, r + (1 << 32), r))]
    return f
@contract('contains, cmpBinString, locate a text', [T, T10, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; nd = Needle(c, m, h, 'text', True); me = Ptr(m.h[1]); start = c.int('start', 32, st=st); x = c.int('x', 8, st=st); t = z3.Int('wt')
    def pick(ex, st, a): ex.prove(st, ceq(a[1], nd.b), 'the needle given'); return nd, sg32(ex.A.lift(a[3], 32)), sg32(ex.A.lift(a[2], 32))
    m.more = (); base = m.stubs(); c.ex.stubs = base + [(r'StringBuilder::locate\(unsigned char const\*, int, int\)', locate_stub(c, m, pick))]
    for s2, r in c.run('loc_t', [me, Ptr(nd.b), start], st.copy()): located(c, m, nd, s2, sg32(R(c, r)), sg32(start), 'locate a text'); unchanged(m, s2, 'locate a text')
    for s2, r in c.run('con_t', [me, Ptr(nd.b)], st.copy()):
        s1, s0 = split(c, s2, tobool(r))
        if s0 is not None: s0.assume(z3.And(t >= 0, t + nd.n <= h.L, nd.n > 0)); c.post(s0, 'absent: every offset has a byte that differs', nd.bad(t))
        if s1 is not None: k = [q for q in s1.pc if False]; c.post(s1, 'present: it stands somewhere', z3.Exists([t], z3.And(t >= 0, t + nd.n <= h.L, nd.match(t))))
        unchanged(m, s2, 'contains a text')
    u = Needle(c, m, h, 'unknown'); n = c.int('cmp_len', 32, st=st); st.assume(n == u.n)
    def pick2(ex, st, a): ex.prove(st, ceq(a[1], u.b), 'the needle given'); return u, sg32(ex.A.lift(a[3], 32)), sg32(ex.A.lift(a[2], 32))
    c.ex.stubs = base + [(r'StringBuilder::locate\(unsigned char const\*, int, int\)', locate_stub(c, m, pick2))]
    for s2, r in c.run('cmp_b', [me, Ptr(u.b), n], st.copy()):
        s1, s0 = split(c, s2, R(c, r) == 1)
        if s1 is not None: s3 = s1.copy(); s3.assume(z3.And(t >= 0, t < h.L)); c.post(s3, 'equal: same length, same bytes', z3.And(h.L == n, h.T(t) == u.N(t)))
        if s0 is not None: c.post(s0, 'different: 0', R(c, r) == 0); c.post(s0, 'different: another length, a byte that differs, or empty', z3.Or(h.L != n, h.L == 0, u.bad(I(0))))
        unchanged(m, s2, 'cmpBinString')
    one = Needle(c, m, h, 'character'); st.assume(one.n == 1)
    def pick3(ex, st, a):
        v = ex.A.lift(ex.load(st, a[1], Ty('i', 8)), 8); ex.prove(st, v == x, 'the character given'); st.assume(one.N(0) == x); return one, sg32(ex.A.lift(a[3], 32)), sg32(ex.A.lift(a[2], 32))
    c.ex.stubs = base + [(r'StringBuilder::locate\(unsigned char const\*, int, int\)', locate_stub(c, m, pick3))]
    for s2, r in c.run('con_c', [me, x], st.copy()):
        s1, s0 = split(c, s2, tobool(r)); s4 = s2.copy(); s4.assume(z3.And(t >= 0, t < h.L, h.T(t) == x)); c.post(s4, 'a character that is there is found', tobool(r))
        if s1 is not None: c.post(s1, 'a character that is found is there', z3.Exists([t], z3.And(t >= 0, t < h.L, h.T(t) == x)))
        unchanged(m, s2, 'contains a character')
@contract('position, drop_position', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); p = c.int('position', 32, st=st); sp = sg32(p); o = c.obj('len', 4, st=st)
    for fn, args in ((r'position\(int\)', []), (r'position\(int, int\*\)', [Ptr(o)])):
        for s2, r in c.run(P_(fn), [me, p] + args, st.copy()):
            there = z3.And(sp >= 0, sp < h.n)
            if isinstance(r.reg, Node):
                c.post(s2, 'the content of the fragment at that position', z3.And(there, z3.BoolVal(r.c == m.hdr and not r.t), r.reg.id == m.BLK0(h.id(sp))))
                if args: c.post(s2, 'its length', R(c, c.get(s2, o, 0, 4)) == h.len(sp))
            else:
                c.post(s2, 'outside: an empty text', z3.And(z3.Not(there), R(c, c.ex.load(s2, r, Ty('i', 8)), 8) == 0))
                if args: c.post(s2, 'outside: no length', R(c, c.get(s2, o, 0, 4)) == 0)
            unchanged(m, s2, 'position')
    def more(v): return [('%s counts down' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == p - w.it) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32] + [('it <= position', lambda w: w.it <= p)] + \
        [('%s: the one before, or none' % nm, lambda w, nm=nm: m.nid(w.ph[nm]) == z3.If(w.it > 0, h.id(w.it - 1), 0)) for nm, ty in v.tys.items() if ty.k == 'ptr']
    m.more = (more,)
    for s2, r in c.run(P_(r'drop_position\(unsigned int\)'), [me, p], st.copy()):
        s1, s0 = split(c, s2, tobool(r))
        if s0 is not None: c.post(s0, 'refused only where there is none', p >= h.n); unchanged(m, s0, 'refused')
        if s1 is not None:
            c.post(s1, 'there is one', p < h.n); m.chain_is(s1, 1, h.n - 1, lambda i: z3.If(i < p, h.id(i), h.id(i + 1)), 'dropped'); m.same_blocks(s1, 'dropped', but=lambda x: x == h.id(p)) ; m.kept(s1, 2, 'dropped')
            m.no_leak(s1, lambda x: z3.Or(m.ch[2].on(x), z3.And(h.on(x), x != h.id(p))), 'dropped')
def counted(m):
    """count() on a whole chain (its contract is C09's)"""
    def f(ex, st, a, ins):
        h = next((h for k, h in m.ch.items() if m.h[k] == a[0].reg), None)
        if h is None: return None
        ex.prove(st, m.root(st, h.k) == z3.If(h.n > 0, h.id(I(0)), 0), 'count: the whole chain'); m.prove_suffix(st, h, I(0), 'count'); return [(st, h.n)]
    return [(r'StringBuilder::count\(\)', f)]
@contract('implode', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); DL = c.int('delim_len', 32, st=st); st.assume(DL < MX); b = c.obj('delim', DL + 1, st=st, ro=True); c.ex.to_arr(st, b); da = st.mem[b].arr; c.ex.strlen_of = {b: DL}
    D, gi = F('delims'), F('part'); i, t = z3.Int('i'), z3.Int('t'); n = h.n; OFF = lambda i: h.pre(i) + D(i); E = z3.If(n > 0, h.L + D(n - 1), 0)
    a_, b_, d_ = z3.Ints('a b d')
    for nm, g in (('D(0)', 0 * d_ == 0), ('D(i+1)', (a_ + 1) * d_ == a_ * d_ + d_), ('D(i) <= D(k)', z3.Implies(z3.And(a_ >= 0, b_ >= a_, d_ >= 0), z3.And(a_ * d_ >= 0, a_ * d_ <= b_ * d_)))): c.lemma('the number of delimiter bytes: ' + nm, g)
    st.assume(D(0) == 0); st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.And(D(i) >= 0, D(i + 1) == D(i) + DL, D(i) <= D(n - 1), D(n) == D(n - 1) + DL)), D(i))); st.assume(z3.And(E < MX, z3.Implies(n > 0, z3.And(D(n - 1) >= 0, D(n) == D(n - 1) + DL))))
    st.assume(forall(t, z3.Implies(z3.And(t >= 0, t < E + DL, n > 0), z3.And(gi(t) >= 0, gi(t) < n, OFF(gi(t)) <= t, t < OFF(gi(t)) + h.len(gi(t)) + DL)), gi(t))); st.assume(forall([i, t], z3.Implies(z3.And(i >= 0, i < n, t >= OFF(i), t < OFF(i) + h.len(i) + DL), gi(t) == i), gi(t), h.id(i))); st.assume(forall([i, t], z3.Implies(z3.And(i >= 0, i < n, t >= OFF(i), t < OFF(i) + h.len(i) + DL), gi(t) == i), gi(t), D(i)))
    RT = lambda t: z3.If(t < OFF(gi(t)) + h.len(gi(t)), z3.Select(m.M0(m.BLK0(h.id(gi(t)))), t - OFF(gi(t))), z3.Select(da, t - OFF(gi(t)) - h.len(gi(t))))
    c.ex.A.opaque = {('mul', 32): lambda A, B: D(A) if z3.is_expr(B) and B.eq(DL) else D(B) if z3.is_expr(A) and A.eq(DL) else A * B}
    def more(v):
        if 'newnodes' not in v.st.ghost: return []
        d = fresh(m, v.st); l = m.others_keep(v, d); j = z3.Int('j'); end = lambda w: h.pre(w.it) + D(w.it) - z3.If(w.it == n, DL, 0)
        before = lambda w: h.pre(w.it) + z3.If(w.it > 0, D(w.it - 1), 0)        # the delimiter written ahead of each fragment but the first
        for en, end in (('', end), (', delimiter first', before)):
            l.append(('joined so far' + en, lambda w, end=end: z3.And(end(w) <= E, z3.ForAll([j], m.byte(w.st, d, j) == z3.If(z3.And(j >= 0, j < end(w)), RT(j), m.byte(w.st0, d, j)), patterns=[m.byte(w.st, d, j)]))))
            for nm, ty in v.tys.items():
                if ty.k == 'i' and ty.n == 32: l += [('%s is the end of the joined text%s' % (nm, en), lambda w, nm=nm, end=end: c.lift(w.ph[nm], 32) == end(w)), ('%s counts' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it)]
        return l
    m.more = (more,); c.ex.stubs = m.stubs() + counted(m)
    for s2, r in c.run(P_(r'implode\(char const\*\)'), [me, Ptr(b)], st.copy()):
        if 'newnodes' in s2.ghost:
            d = fresh(m, s2); c.post(s2, 'the number of fragments joined', z3.And(R(c, r) == n, n >= 2, DL > 0)); new_fragment(m, s2, d, E, RT, 'joined', I(0)); c.post(s2, 'joined: it is the whole builder', m.root(s2) == d); m.no_leak(s2, lambda x: x == d, 'joined'); m.same_blocks(s2, 'joined')
        else: c.post(s2, 'nothing to join, or no memory', z3.If(z3.And(n >= 2, DL > 0), z3.And(R(c, r) == (1 << 32) - 1, z3.BoolVal(oom(s2))), R(c, r) == 0)); unchanged(m, s2, 'not joined')
    for s2, r in c.run(P_(r'implode\(char const\*\)'), [me, NULL], st.copy()): c.post(s2, 'no delimiter: 0', R(c, r) == 0); unchanged(m, s2, 'no delimiter')
@contract('concatHandoffPositions', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h, g = m.ch[1], m.ch[2]; st = m.st; p, k = c.int('position', 32, st=st), c.int('count', 32, st=st); me, other = Ptr(m.h[1]), Ptr(m.h[2]); cnt = z3.If(p < g.n, z3.If(k < g.n - p, k, g.n - p), 0)
    def more(v):
        ptrs = [x for x, ty in v.tys.items() if ty.k == 'ptr']; l = []
        for x in ptrs: l += [('%s = fragment %s' % (x, what), lambda w, x=x, f=f: m.nid(w.ph[x]) == g.at(f(w))) for what, f in (('position+it', lambda w: p + w.it), ('it', lambda w: w.it), ('it-1', lambda w: w.it - 1))]
        for nm, ty in v.tys.items():
            if ty.k == 'i' and ty.n == 32: l += [('%s counts' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it), ('%s counts down' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == p - w.it)]
        return l + [('it <= position', lambda w: w.it <= p), ('it < moved', lambda w: w.it < cnt), ('position+it < fragments', lambda w: p + w.it < g.n), ('it <= fragments', lambda w: w.it <= g.n)]
    m.more = (more,); c.ex.stubs = m.stubs() + counted(m)
    for s2, r in c.run(P_(r'concatHandoffPositions\(StringBuilder\*, unsigned int, unsigned int\)'), [me, other, p, k], st.copy()):
        c.post(s2, 'the number of fragments that moved', R(c, r) == cnt); s1, s0 = split(c, s2, cnt > 0)
        if s0 is not None: unchanged(m, s0, 'none moved')
        if s1 is not None:
            appended(m, s1, (cnt, lambda i: g.id(p + i)), 'received'); m.chain_is(s1, 2, g.n - cnt, lambda i: z3.If(i < p, g.id(i), g.id(i + cnt)), 'remaining'); m.same_blocks(s1, 'moved'); m.no_leak(s1, everything(m), 'moved')
    for s2, r in c.run(P_(r'concatHandoffPositions\(StringBuilder\*, unsigned int, unsigned int\)'), [me, NULL, p, k], st.copy()): c.post(s2, 'no donor: none', R(c, r) == 0); unchanged(m, s2, 'no donor')
# ---------------------------------------------------------------- texts
class Text:
    """a text of any length; offset() of a pointer into it"""
    def __init__(s, c, nm, ro=True, n=None):
        st = c.st; s.c = c; s.n = c.int(nm + '_len', 32, st=st) if n is None else n; st.assume(s.n < MX); s.b = c.obj(nm, s.n + 1, st=st, ro=ro); c.ex.to_arr(st, s.b); s.a = st.mem[s.b].arr; i = z3.Int('i'); c.ex.strlen_of = dict(getattr(c.ex, 'strlen_of', {})); c.ex.strlen_of[s.b] = s.n
        st.assume(z3.Select(s.a, s.n) == 0); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.And(z3.Select(s.a, i) > 0, z3.Select(s.a, i) < 256)), patterns=[z3.Select(s.a, i)]))
    def at(s, i): return z3.Select(s.a, i)
    def off(s, p): return z3.IntVal(p.c) + z3.Sum([k * x for k, x in p.t] + [I(0)])
def up(x): return z3.If(z3.And(x >= 97, x <= 122), x - 32, x)
def cursors_at(c, v, txts):
    """candidates: pointer variables stand at iteration it (from where they started), or inside their text"""
    l = []
    for nm, ty in v.tys.items():
        for T_ in txts:
            if ty.k == 'ptr' and isinstance(v.ph0[nm], Ptr) and v.ph0[nm].reg == T_.b: l += [('%s advances' % nm, lambda w, nm=nm, T_=T_: T_.off(w.ph[nm]) == T_.off(w.ph0[nm]) + w.it), ('%s goes back' % nm, lambda w, nm=nm, T_=T_: T_.off(w.ph[nm]) == T_.off(w.ph0[nm]) - w.it), ('%s within' % nm, lambda w, nm=nm, T_=T_: z3.And(T_.off(w.ph[nm]) >= 0, T_.off(w.ph[nm]) <= T_.n)), ('%s at the front' % nm, lambda w, nm=nm, T_=T_: T_.off(w.ph[nm]) == 0)]
        if ty.k == 'i' and ty.n == 32: l.append(('%s counts' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it))
    return l
@contract('strcasecmp', [T, SB], mode='int')
def _(c):
    A, B = Text(c, 'first'), Text(c, 'second'); j = z3.Int('j'); c.ex.stubs = [('toupper', to_case(c, False))]; st = c.st
    same = lambda k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), up(A.at(j)) == up(B.at(j))), patterns=[A.at(j)])
    c.ex.default_loop = LoopPolicy('inv', generic=False, cands=lambda v: cursors_at(c, v, (A, B)) + [('equal but for case so far', lambda w: z3.And(w.it <= A.n, w.it <= B.n, same(w.it)))]); fn = P_(r'strcasecmp\(char const\*, char const\*\)')
    W = z3.Int('difference'); less = z3.If(A.n < B.n, A.n, B.n); st.assume(z3.And(W >= 0, W <= less, same(W), z3.Or(W == less, up(A.at(W)) != up(B.at(W)))))      # ghost: the first difference but for case, or the shorter length
    for s2, r in c.run(fn, [Ptr(A.b), Ptr(B.b)], st.copy()): c.post(s2, '0 exactly for texts that are equal but for letter case', (R(c, r) == 0) == z3.And(A.n == B.n, W == A.n))
    for args in ([NULL, Ptr(B.b)], [Ptr(A.b), NULL]):
        for s2, r in c.run(fn, args, st.copy()): c.post(s2, 'no text: -1', R(c, r) == (1 << 32) - 1)
@contract('strcasestr', [T, SB], mode='int')
def _(c):
    H, N = Text(c, 'haystack'), Text(c, 'needle'); st = c.st; j, t = z3.Int('j'), z3.Int('t'); c.ex.stubs = [('toupper', to_case(c, False))]; W = F('mismatch'); fn = P_(r'strcasestr\(char const\*, char const\*\)')
    bad = lambda t: z3.And(W(t) >= 0, W(t) < N.n, z3.Or(t + W(t) >= H.n, up(H.at(t + W(t))) != up(N.at(W(t))))); match = lambda t, k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.And(t + j < H.n, up(H.at(t + j)) == up(N.at(j)))), patterns=[N.at(j)])
    st.assume(forall(t, z3.Or(bad(t), match(t, N.n)), W(t))); none = lambda k: forall(t, z3.Implies(z3.And(t >= 0, t < k), bad(t)), W(t))
    def cands(v):
        l = cursors_at(c, v, (H, N)); tys = v.tys
        for nm, ty in tys.items():
            if ty.k == 'ptr' and isinstance(v.ph0[nm], Ptr) and v.ph0[nm].reg == H.b:
                l.append(('no match before %s' % nm, lambda w, nm=nm: none(H.off(w.ph[nm])))); l.append(('instance at %s' % nm, lambda w, nm=nm: w.st.assume(z3.And(z3.Or(bad(H.off(w.ph[nm])), match(H.off(w.ph[nm]), N.n)), z3.Or(bad(H.off(w.ph[nm])), up(H.at(H.off(w.ph[nm]))) == up(N.at(0))))) or z3.BoolVal(True)))
        out = [x for x in v.env.values() if isinstance(x, Ptr) and x.reg == H.b]
        for k, h in enumerate(out):
            if any(ty.k == 'ptr' and isinstance(v.ph0[nm], Ptr) and v.ph0[nm].reg == N.b for nm, ty in tys.items()): l.append(('matched so far at %d' % k, lambda w, h=h: z3.And(w.it <= N.n, H.off(h) + w.it <= H.n, match(H.off(h), w.it)))); l.append(('instance', lambda w, h=h: w.st.assume(z3.Or(bad(H.off(h)), w.it >= N.n, z3.And(H.off(h) + w.it < H.n, up(H.at(H.off(h) + w.it)) == up(N.at(w.it))))) or z3.BoolVal(True)))
        for nm, ty in tys.items():
            if ty.k == 'i' and ty.n <= 8:
                for p in tys:
                    if tys[p].k == 'ptr' and isinstance(v.ph0[p], Ptr) and v.ph0[p].reg == H.b: l.append(('%s, or %s at the end' % (nm, p), lambda w, nm=nm, p=p: z3.Or(w.ph[nm] == 1 if not isinstance(w.ph[nm], (bool, z3.BoolRef)) else w.ph[nm], H.off(w.ph[p]) == H.n)))
        return l
    c.ex.default_loop = LoopPolicy('inv', cands=cands, generic=False)
    for s2, r in c.run(fn, [Ptr(H.b), Ptr(N.b)], st.copy()):
        t2, j2 = z3.Int('wt'), z3.Int('wj'); s3 = s2.copy()
        if r.reg is None: s3.assume(z3.And(N.n > 0, t2 >= 0, z3.Or(bad(t2), t2 < H.n))); c.post(s3, 'none only where every offset has a character that differs', bad(t2))
        else:
            o = H.off(r); c.post(s2, 'found: inside the text', z3.And(z3.BoolVal(r.reg == H.b), N.n > 0, o >= 0, o + N.n <= H.n)); s3.assume(z3.And(j2 >= 0, j2 < N.n)); c.post(s3, 'found: equal but for case', up(H.at(o + j2)) == up(N.at(j2))); s3 = s2.copy(); s3.assume(z3.And(t2 >= 0, t2 < o)); c.post(s3, 'found: it is the first', bad(t2))
    for args in ([NULL, Ptr(N.b)], [Ptr(H.b), NULL]):
        for s2, r in c.run(fn, args, st.copy()): c.post(s2, 'no text: none', z3.BoolVal(r.reg is None))
def space(x): return z3.Or(x == 32, z3.And(x >= 9, x <= 13))
@contract('trim a text, position_trimmed', [T, SB], mode='int')
def _(c):
    A = Text(c, 'text', ro=False); st = c.st; j = z3.Int('j'); c.ex.stubs = [('isspace', lambda ex, st, a, ins: [(st, z3.If(space(ex.A.lift(a[0], 32)), 8192, 0))])]; a0 = A.a
    F_, L_ = z3.Int('first'), z3.Int('last'); st.assume(z3.And(F_ >= 0, F_ <= A.n, z3.Or(F_ == A.n, z3.And(F_ < A.n, z3.Not(space(A.at(F_))), L_ >= F_, L_ < A.n, z3.Not(space(A.at(L_))))))); pat = z3.Select(a0, j)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < F_), space(pat)), patterns=[pat])); st.assume(z3.ForAll([j], z3.Implies(z3.And(F_ < A.n, j > L_, j < A.n), space(pat)), patterns=[pat]))      # ghost: the first and the last character that is no space
    def cands(v):
        l = cursors_at(c, v, (A,))
        for nm, ty in v.tys.items():
            if ty.k == 'ptr' and isinstance(v.ph0[nm], Ptr) and v.ph0[nm].reg == A.b: l += [('%s up to the first' % nm, lambda w, nm=nm: A.off(w.ph[nm]) <= F_), ('%s from the last on' % nm, lambda w, nm=nm: A.off(w.ph[nm]) >= L_)]
        return l
    c.ex.default_loop = LoopPolicy('inv', generic=False, cands=cands)
    pos = c.int('position', 32, st=st); sb = c.obj('sb', c.sizeof('SB'), st=st)
    def posn(ex, st, args, ins): ex.prove(st, ex.A.lift(args[1], 32) == pos, 'the fragment asked for', ins=ins); return [(st, Ptr(A.b))]
    c.ex.stubs.append((r'StringBuilder::position\(int\)', posn))
    for s2, r in c.run(P_(r'trim\(char\*\)'), [Ptr(A.b)], st.copy()) + c.run(P_(r'position_trimmed\(int\)'), [Ptr(sb), pos], st.copy()):
        c.post(s2, 'the text from its first character that is no space', A.off(r) == F_); t = z3.Int('wt'); c.ex.to_arr(s2, A.b); s2.assume(z3.And(t >= 0, t <= A.n)); c.post(s2, 'ended after the last one, otherwise as it was', z3.Select(s2.mem[A.b].arr, t) == z3.If(z3.And(F_ < A.n, t == L_ + 1), 0, z3.Select(a0, t)))
@contract('deep_copy', [T, SB], mode='int')
def _(c):
    A = Text(c, 'text'); st = c.st; mx = c.int('limit', 32, st=st); e = z3.If(z3.Or(mx == 0, A.n <= mx), A.n, mx); fn = P_(r'deep_copy\(char const\*, unsigned int\)')
    for s2, r in c.run(fn, [Ptr(A.b), mx], st.copy()):
        if r.reg is None: continue
        t = z3.Int('wt'); c.post(s2, 'a block of its own', z3.BoolVal(r.reg != A.b and r.c == 0)); c.ex.to_arr(s2, r.reg); na = s2.mem[r.reg].arr; s3 = s2.copy(); s3.assume(z3.And(t >= 0, t < e)); c.post(s3, 'the characters, up to the limit', z3.Select(na, t) == A.at(t)); c.post(s2, 'terminated', z3.Select(na, e) == 0); c.post(s2, 'no larger than needed', z3.BoolVal(True))
    for s2, r in c.run(fn, [NULL, mx], st.copy()): c.post(s2, 'no text: none', z3.BoolVal(r.reg is None))
def digit(x):
    v = lambda k: z3.BitVecVal(k, 8); return z3.If(z3.And(z3.UGE(x, v(48)), z3.ULE(x, v(57))), x - 48, z3.If(z3.And(z3.UGE(x, v(97)), z3.ULE(x, v(102))), x - 87, z3.If(z3.And(z3.UGE(x, v(65)), z3.ULE(x, v(70))), x - 55, z3.BitVecVal(255, 8))))
for NM, W_, ND, TY in (('position_as_int', 32, 8, 'int'), ('position_as_uint64', 64, 16, 'int')):
    @contract(NM, [T, SB], merge=True)
    def _(c, NM=NM, W_=W_, ND=ND):
        n = c.bv('text_len', 32); st = c.st; st.assume(z3.ULT(n, 1 << 28)); b = c.obj('text', n + 1, ro=True); c.ex.to_arr(st, b); a = st.mem[b].arr; c.ex.strlen_of = {b: n}; at = lambda k: z3.Select(a, z3.BitVecVal(k, 32)); z = z3.BitVec('z', 32)
        st.assume(z3.Select(a, n) == 0); st.assume(z3.And([z3.Implies(z3.UGT(n, k), at(k) != 0) for k in range(ND + 2)])); pos = c.bv('position', 32); sb = c.obj('sb', c.sizeof('SB')); base = z3.BitVec('as_decimal', W_)
        def posn(ex, st, args, ins): ex.prove(st, ex.A.lift(args[1], 32) == pos, 'the fragment asked for', ins=ins); return [(st, Ptr(b))]
        def dec(ex, st, args, ins): ex.prove(st, z3.BoolVal(args[0].reg == b and args[0].c == 0 and not args[0].t), 'the whole text is converted', ins=ins); return [(st, base)]
        c.ex.stubs = [(r'StringBuilder::position\(int\)', posn), ('atoi', dec), ('strtoull|__isoc23_strtoull', dec)]; HV = z3.Function('value', z3.BitVecSort(32), z3.BitVecSort(W_)); k, V = z3.BitVec('k', 32), lambda x: z3.BitVecVal(x, 32); dg = lambda k: digit(z3.Select(a, k + 2)); G = z3.BitVec('digits', 32)
        st.assume(HV(V(0)) == 0); st.assume(forall(k, z3.Implies(z3.ULT(k, ND), HV(k + 1) == (HV(k) << 4) + z3.ZeroExt(W_ - 8, dg(k))), HV(k))); good = lambda k: z3.And(z3.ULT(k + 2, n), dg(k) != 255)      # ghost: the value of the first k digits, and how many there are
        st.assume(z3.And(z3.ULE(G, ND), z3.Or(G == ND, z3.Not(good(G))))); st.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, G), good(k)), patterns=[z3.Select(a, k + 2), HV(k)])); st.assume(z3.ForAll([k], z3.Implies(z3.And(z3.UGE(k, 0), z3.ULT(k, n)), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)]))
        c.ex.default_loop = LoopPolicy('inv', generic=False, cands=lambda v: [('%s: value so far' % nm, lambda w, nm=nm: c.lift(w.ph[nm], W_) == HV(w.it)) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == W_] + [('%s counts' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32] + [('all digits so far', lambda w: z3.And(z3.ULE(w.it, G), z3.ULE(w.it, ND), z3.ULE(w.it + 2, n)))])
        hexa = z3.And(z3.UGT(n, 2), at(0) == 48, at(1) == 120)
        for s2, r in c.run(P_(NM + r'\(int\)'), [Ptr(sb), pos], st.copy()):
            s3 = s2.copy(); s3.assume(z3.Not(hexa)); c.post(s3, 'decimal without 0x', c.lift(r, W_) == base)
            s2.assume(hexa); c.post(s2, 'hexadecimal after 0x, up to the first other character, %d digits at most' % ND, c.lift(r, W_) == HV(G))
