"""Ghost sequences for singly linked lists: node ids seq[0..n), pos[] its inverse."""
from spec import *
from core import Pool, Node
A_II = lambda nm: z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
Sel = z3.Select

class Chain:
    """an arbitrary well-formed chain of pool nodes.  fields: {off: kind}; nxt: offset of the next pointer.
    Every live node of the pool is on the chain, so a node unlinked without being freed (or freed while linked) is visible."""
    def __init__(s, c, st, pool, size, fields, nxt, n):
        s.c, s.pool, s.nxt, s.n = c, pool, nxt, n
        so = lambda k: z3.IntSort()
        fl = {o: (k, A_II('%s_f%d' % (pool, o))) for o, k in fields.items()}
        st.pools[pool] = Pool(pool, size, fl, z3.Const(pool + '_alive', z3.ArraySort(z3.IntSort(), z3.BoolSort())))
        s.P0 = st.pools[pool]; s.seq = A_II(pool + '_seq'); s.pos = A_II(pool + '_pos')
        i, x = z3.Int('i'), z3.Int('x'); P = s.P0
        st.assume(z3.And(n >= 0, n < (1 << 30)))
        q = Sel(s.seq, i)
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.And(q > 0, Sel(P.alive, q), Sel(s.pos, q) == i)), q))
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), Sel(P.fields[nxt][1], q) == z3.If(i + 1 < n, Sel(s.seq, i + 1), 0)), Sel(P.fields[nxt][1], q)))
        st.assume(forall(x, z3.Implies(Sel(P.alive, x), z3.And(x > 0, Sel(s.pos, x) >= 0, Sel(s.pos, x) < n, Sel(s.seq, Sel(s.pos, x)) == x)), Sel(P.alive, x)))
        st.assume(z3.Not(Sel(P.alive, 0)))
        st.assume(z3.Implies(n > 0, Sel(s.seq, 0) > 0))
        for o, k in fields.items():
            if k[0] == 'i': st.assume(forall(x, z3.And(Sel(P.fields[o][1], x) >= 0, Sel(P.fields[o][1], x) < (1 << k[1])), Sel(P.fields[o][1], x)))
            elif k[0] != 'i' and o != nxt: st.assume(forall(x, Sel(P.fields[o][1], x) >= 0, Sel(P.fields[o][1], x)))
    def root(s): return Ptr(Node(s.pool, z3.If(s.n > 0, Sel(s.seq, 0), z3.IntVal(0))))
    def at(s, i): return z3.If(z3.And(i >= 0, i < s.n), Sel(s.seq, i), z3.IntVal(0))
    def fld(s, st, o, x): return Sel(st.pools[s.pool].fields[o][1], x)
    def alive(s, st, x): return Sel(st.pools[s.pool].alive, x)
    def old(s, o, x): return Sel(s.P0.fields[o][1], x)
    def nid(s, p): return z3.IntVal(0) if p.reg is None else p.reg.id
    def wf(s, st, rootid, n, seqf, posf, what, extra=None):
        """prove that the chain in st is seqf(0..n), posf its inverse"""
        c = s.c; i, x = z3.Int('wi'), z3.Int('wx')
        c.post(st, what + ': the first node', rootid == z3.If(n > 0, seqf(z3.IntVal(0)), 0))
        s2 = st.copy(); s2.assume(z3.And(i >= 0, i < n))
        c.post(s2, what + ': every node of the chain is live, once', z3.And(seqf(i) > 0, s.alive(s2, seqf(i)), posf(seqf(i)) == i))
        c.post(s2, what + ': links', s.fld(s2, s.nxt, seqf(i)) == z3.If(i + 1 < n, seqf(i + 1), 0))
        s3 = st.copy(); s3.assume(s.alive(s3, x))
        c.post(s3, what + ': no node is leaked', z3.And(posf(x) >= 0, posf(x) < n, seqf(posf(x)) == x))
    def walkers(s, v0, extra=()):
        """candidates: every pointer variable of the loop is the node at iteration it (or the one before)"""
        l = [('it <= n', lambda w: z3.And(w.it >= 0, w.it <= s.n))]
        for nm, ty in v0.tys.items():
            if ty.k != 'ptr': continue
            def at(w, nm=nm, d=0): return s.nid(w.ph[nm]) == s.at(w.it + d)
            l.append(('%s = node(it)' % nm, at)); l.append(('%s = node(it-1)' % nm, lambda w, nm=nm, at=at: at(w, d=-1) if True else None)); l.append(('%s = node(it+1)' % nm, lambda w, at=at: at(w, d=1)))
            l.append(('%s is not null' % nm, lambda w, nm=nm: s.nid(w.ph[nm]) != 0))
        return l

def pool_malloc(pool, size, null=True):
    def h(ex, st, n, what):
        if not conc(n) or n != size: return None
        out = []
        if null:
            s0 = st.copy(); s0.ghost['oom'] = True; out.append((s0, NULL))
        p = ex.pool_alloc(st, pool); out.append((st, p)); return out
    return h

class ListObj:
    """a list object (root, element_count) over an arbitrary well-formed chain; TU accessors L/N, constructor l_new"""
    def __init__(s, c, more={}):
        s.c = c; s.D = c.off('N', 'data'); s.X = c.off('N', 'next'); s.sz = c.sizeof('N'); s.R = c.off('L', 'root'); s.C = c.off('L', 'element_count')
        s.n = c.int('n'); st = c.st; s.ch = Chain(c, st, 'node', s.sz, {s.X: ('node', 'node'), s.D: ('opq',), **more}, s.X, s.n)
        s.h = c.obj('list', c.sizeof('L'))
        (st, _), = c.run('l_new', [Ptr(s.h)]); c.post(st, 'a new list is empty', z3.And(s.ch.nid(c.getp(st, s.h, s.R)) == 0, c.lift(c.get(st, s.h, s.C, 4), 32) == 0))
        c.set(s.h, s.R, 4, s.ch.root(), st); c.set(s.h, s.C, 4, s.n, st); i = z3.Int('i')
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < s.n), s.ch.old(s.D, Sel(s.ch.seq, i)) > 0), Sel(s.ch.seq, i)))
        s.st = st; c.ex.alloc_pool = pool_malloc('node', s.sz)
        s.v = z3.Int('v'); st.assume(s.v > 0); c.inputs['v'] = s.v; s.V = Ptr(Opq(s.v))
        c.ex.default_loop = LoopPolicy('inv', cands=s.cands)
    def cands(s, v0): return s.ch.walkers(v0)
    def root(s, st): return s.ch.nid(s.c.getp(st, s.h, s.R))
    def cnt(s, st): return s.c.lift(s.c.get(st, s.h, s.C, 4), 32)
    def data(s, st, x): return s.ch.fld(st, s.D, x)
    def datum(s, i): return s.ch.old(s.D, Sel(s.ch.seq, i))      # original i-th payload
    def ret(s, r): return z3.IntVal(0) if r.reg is None else r.reg.id
    def same(s, st, what):
        ch = s.ch; s.check(st, s.n, lambda i: Sel(ch.seq, i), lambda x: Sel(ch.pos, x), s.datum, what)
    def check(s, st, n, seqf, posf, dataf, what):
        s.ch.wf(st, s.root(st), n, seqf, posf, what); i = z3.Int('wi'); s.c.post(st, what + ': count', s.cnt(st) == n)
        s2 = st.copy(); s2.assume(z3.And(i >= 0, i < n)); s.c.post(s2, what + ': payloads in order', s.data(s2, seqf(i)) == dataf(i))
    def without(s, st, p, what):
        """the original list without the element at position p"""
        ch = s.ch; s.check(st, s.n - 1, lambda i: z3.If(i < p, Sel(ch.seq, i), Sel(ch.seq, i + 1)), lambda x: z3.If(Sel(ch.pos, x) < p, Sel(ch.pos, x), z3.If(Sel(ch.pos, x) == p, z3.IntVal(-1), Sel(ch.pos, x) - 1)), lambda i: z3.If(i < p, s.datum(i), s.datum(i + 1)), what)
    def matchfn(s):
        """M(i): the i-th payload equals v"""
        q = z3.Int('q'); M = z3.Function('M', z3.IntSort(), z3.BoolSort())
        s.st.assume(forall(q, M(q) == (s.datum(q) == s.v), M(q))); s.st.assume(forall(q, M(q) == (s.datum(q) == s.v), Sel(s.ch.seq, q))); return M
def split(c, st, cond):
    a, b = st.copy(), st.copy(); a.assume(cond); b.assume(z3.Not(cond)); return (a if c.ex.feasible(a) else None), (b if c.ex.feasible(b) else None)

def sg32(v): return z3.If(v < (1 << 31), v, v - (1 << 32)) if not isinstance(v, int) else z3.IntVal(tosigned(v, 32))
class Filter:
    """ghost: the subsequence of elements not equal to v.  k(i) = how many of the first i are kept; out(k(i)) = i-th node when kept."""
    def __init__(s, L, c):
        s.L = L; st = L.st; s.k = A_II('kept'); s.out = A_II('out'); s.src = A_II('src'); i = z3.Int('i'); n = L.n; ch = L.ch
        s.m = lambda i: L.datum(i) == L.v
        st.assume(Sel(s.k, 0) == 0)
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.And(Sel(s.k, i + 1) == Sel(s.k, i) + z3.If(s.m(i), 0, 1), z3.Implies(z3.Not(s.m(i)), z3.And(Sel(s.out, Sel(s.k, i)) == Sel(ch.seq, i), Sel(s.src, Sel(s.k, i)) == i)))), Sel(ch.seq, i)))
        # consequences by induction on i (monotone, bounded): stated once as lemma obligations in the contract
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i <= n), z3.And(Sel(s.k, i) >= 0, Sel(s.k, i) <= i)), Sel(s.k, i)))
def remove_value(c, L, fn):
    ch = L.ch; F = Filter(L, c); n = L.n; i, j = z3.Int('i'), z3.Int('j'); k = lambda x: Sel(F.k, x); out = lambda x: Sel(F.out, x)
    # the ghost definition is consistent (induction step of "0 <= k(i) <= i")
    a, b = z3.Ints('ka ia'); c.lemma('kept-count stays within bounds (step)', z3.Implies(z3.And(a >= 0, a <= b), z3.And(z3.If(z3.Bool('mm'), a, a + 1) >= 0, z3.If(z3.Bool('mm'), a, a + 1) <= b + 1)))
    def cands(v0):
        P = lambda w: w.st.pools['node']; nx = lambda w, x: ch.fld(w.st, L.X, x); cur = lambda w: ch.at(w.it)
        l = L.cands(v0)
        l += [('kept part is linked', lambda w: forall(j, z3.Implies(z3.And(j >= 0, j + 1 < k(w.it)), nx(w, out(j)) == out(j + 1)), nx(w, out(j)))),
              ('kept part joins the rest', lambda w: z3.Implies(k(w.it) > 0, nx(w, out(k(w.it) - 1)) == cur(w))),
              ('root', lambda w: L.root(w.st) == z3.If(k(w.it) > 0, out(0), cur(w))),
              ('rest is untouched', lambda w: forall(i, z3.Implies(z3.And(i >= w.it, i < n), nx(w, Sel(ch.seq, i)) == z3.If(i + 1 < n, Sel(ch.seq, i + 1), 0)), nx(w, Sel(ch.seq, i)))),
              ('live exactly if kept or still to come', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i < n), ch.alive(w.st, Sel(ch.seq, i)) == z3.Or(i >= w.it, z3.Not(F.m(i)))), Sel(ch.seq, i))),
              ('only list nodes are live', lambda w: forall(i, z3.Implies(ch.alive(w.st, i), Sel(ch.P0.alive, i)), ch.alive(w.st, i))),
              ('count', lambda w: L.cnt(w.st) == n - w.it + k(w.it)),
              ('kept nodes', lambda w: forall(j, z3.Implies(z3.And(j >= 0, j < k(w.it)), z3.And(out(j) > 0, Sel(F.src, j) >= 0, Sel(F.src, j) < w.it, k(Sel(F.src, j)) == j, z3.Not(F.m(Sel(F.src, j))), Sel(ch.seq, Sel(F.src, j)) == out(j))), out(j)))]
        one = lambda x: tobool(x) if (isinstance(x, bool) or (not conc(x) and z3.is_bool(x))) else c.lift(x, 8) == 1
        for nm, ty in v0.tys.items():
            if ty.k == 'ptr': l.append(('%s is the last kept node' % nm, lambda w, nm=nm: ch.nid(w.ph[nm]) == z3.If(k(w.it) > 0, out(k(w.it) - 1), 0)))
            if ty.k == 'i' and ty.n in (1, 8): l.append(('%s: something was dropped' % nm, lambda w, nm=nm: one(w.ph[nm]) == (k(w.it) < w.it)))
        return l
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run(fn, [Ptr(L.h), L.V], L.st.copy()):
        c.post(st, 'reports whether anything was removed', tobool(r) == (k(n) < n)); m = k(n); y, x = z3.Int('wi'), z3.Int('wx')
        c.post(st, 'count', L.cnt(st) == m); c.post(st, 'first node', L.root(st) == z3.If(m > 0, out(0), 0))
        s2 = st.copy(); s2.assume(z3.And(y >= 0, y < m)); c.post(s2, 'links run through exactly the kept elements in order', z3.And(out(y) > 0, ch.fld(s2, L.X, out(y)) == z3.If(y + 1 < m, out(y + 1), 0)))
        c.post(s2, 'their payloads are unchanged', L.data(s2, out(y)) == L.datum(Sel(F.src, y)))
        s2 = st.copy(); s2.assume(z3.And(y >= 0, y < n)); c.post(s2, 'matching elements are released, others kept', z3.And(ch.alive(s2, Sel(ch.seq, y)) == z3.Not(F.m(y)), Sel(ch.seq, y) > 0))
        s2 = st.copy(); s2.assume(ch.alive(s2, x)); c.post(s2, 'no other node appears', Sel(ch.P0.alive, x))
def release_all(c, L, fn, reports):
    ch = L.ch; n = L.n; i = z3.Int('i')
    def cands(v0):
        return [('it <= n', lambda w: z3.And(w.it >= 0, w.it <= n)), ('root = node(it)', lambda w: L.root(w.st) == ch.at(w.it)), ('count', lambda w: L.cnt(w.st) == n - w.it),
                ('first it nodes are released', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i < n), ch.alive(w.st, Sel(ch.seq, i)) == (i >= w.it)), Sel(ch.seq, i))),
                ('only list nodes are live', lambda w: forall(i, z3.Implies(ch.alive(w.st, i), Sel(ch.P0.alive, i)), ch.alive(w.st, i)))]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run(fn, [Ptr(L.h)], L.st.copy()):
        x = z3.Int('wx'); s2 = st.copy(); s2.assume(ch.alive(s2, x)); c.post(s2, 'every node is released', z3.Not(z3.And(Sel(ch.pos, x) >= 0, Sel(ch.pos, x) < n, Sel(ch.seq, Sel(ch.pos, x)) == x)))
        if reports: c.post(st, 'reports how many there were', c.lift(r, 32) == n); c.post(st, 'the list is empty', z3.And(L.root(st) == 0, L.cnt(st) == 0))
