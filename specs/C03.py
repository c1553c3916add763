from lists import *
HARNESS = dict(src='C03.cpp', lib=[], leaks=True)
PROVED = 'every PriorityQueue operation on queues of every length and content: order, values, positions, return values, and that every node is live exactly while it is queued (no leak, no double free, no use after free), including when allocation fails.'
BOUNDED = 'native replay: random operation histories against a reference model, with allocation failures injected'
ASSUMPTIONS = ['the queue is instantiated with pointers and holds no null payload (the API uses null to say "none")', 'fewer than 2^30 elements', 'payloads are never dereferenced: pointer types other than void* behave alike', 'priorities are not incremented past INT_MAX or decremented past INT_MIN', 'built without a mutex (no __MANUVR_LINUX), as the repository builds it']
T = tu_text('pq.cpp', r'''
#include <stdlib.h>
#include <inttypes.h>
#include <stdint.h>
#include <new>
#define private public
#include "PriorityQueue.h"
typedef PriorityQueue<void*> L; typedef PriorityNode<void*> N;
''' + offs('L', 'L', 'root', 'element_count') + offs('N', 'N', 'next', 'data', 'priority') + r'''
extern "C" { void l_new(L* p) { new (p) L(); } void l_del(L* p) { p->~PriorityQueue(); } int l_ins(L* p, void* v, int q) { return p->insert(v, q); } int l_ins0(L* p, void* v) { return p->insert(v); }
int l_insa(L* p, void* v, int q) { return p->insertIfAbsent(v, q); } int l_insa0(L* p, void* v) { return p->insertIfAbsent(v); } int l_size(L* p) { return p->size(); }
void* l_deq(L* p) { return p->dequeue(); } void* l_rec(L* p) { return p->recycle(); } bool l_remv(L* p, void* v) { return p->remove(v); } bool l_remi(L* p, int i) { return p->remove(i); } int l_clear(L* p) { return p->clear(); } void* l_get(L* p) { return p->get(); } void* l_geti(L* p, int i) { return p->get(i); }
void* l_byp(L* p, int q) { return p->getByPriority(q); } int l_pos(L* p, void* v) { return p->getPosition(v); } int l_priv(L* p, void* v) { return p->getPriority(v); } int l_prii(L* p, int i) { return p->getPriority(i); }
bool l_next(L* p) { return p->hasNext(); } bool l_has(L* p, void* v) { return p->contains(v); } bool l_inc(L* p, void* v) { return p->incrementPriority(v); } bool l_dec(L* p, void* v) { return p->decrementPriority(v); } }
''')
class PQ(ListObj):
    def __init__(s, c):
        s.P = c.off('N', 'priority'); super().__init__(c, {s.P: ('i', 32)}); i = z3.Int('i'); seq = s.ch.seq
        # sorted: adjacent elements are in order (32-bit priorities are kept as residues; spri gives the signed value)
        s.st.assume(forall(i, z3.Implies(z3.And(i >= 0, i + 1 < s.n), s.pri(i) >= s.pri(i + 1)), s.ch.old(s.P, Sel(seq, i))))
    def pri(s, i): return sg32(s.ch.old(s.P, Sel(s.ch.seq, i)))
    def prin(s, st, x): return sg32(s.ch.fld(st, s.P, x))
    def threshold(s, q):
        """k = the number of elements whose priority is at least q (exists because the queue is sorted)"""
        k = z3.Int('k'); i = z3.Int('i'); s.st.assume(z3.And(k >= 0, k <= s.n)); s.st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < s.n), (s.pri(i) >= q) == (i < k)), Sel(s.ch.seq, i))); s.k = k
        a, b, kk, nn = z3.Ints('pa pb kk nn')
        s.c.lemma('a sorted queue has a threshold (induction step)', z3.Implies(z3.And(kk >= 0, kk <= nn, z3.Implies(kk < nn, a < q), z3.Implies(kk == nn, z3.Or(nn == 0, a >= q)), z3.Implies(nn > 0, a >= b)), z3.Implies(z3.And(kk < nn), b < q)))
        return k
    def check(s, st, n, seqf, posf, dataf, what, prif=None):
        super().check(st, n, seqf, posf, dataf, what); i = z3.Int('wi'); prif = prif or s.pri
        s2 = st.copy(); s2.assume(z3.And(i >= 0, i < n)); s.c.post(s2, what + ': priorities', s.prin(s2, seqf(i)) == prif(i))
        s2.assume(i + 1 < n); s.c.post(s2, what + ': highest priority first', s.prin(s2, seqf(i)) >= s.prin(s2, seqf(i + 1)))
    def without(s, st, p, what):
        ch = s.ch; f = lambda g: (lambda i: z3.If(i < p, g(i), g(i + 1)))
        s.check(st, s.n - 1, f(lambda i: Sel(ch.seq, i)), lambda x: z3.If(Sel(ch.pos, x) < p, Sel(ch.pos, x), z3.If(Sel(ch.pos, x) == p, z3.IntVal(-1), Sel(ch.pos, x) - 1)), f(s.datum), what, f(s.pri))
    def plus(s, st, k, q, new, what):
        ch = s.ch; f = lambda g, v: (lambda i: z3.If(i < k, g(i), z3.If(i == k, v, g(i - 1))))
        s.check(st, s.n + 1, f(lambda i: Sel(ch.seq, i), new), lambda x: z3.If(x == new, k, z3.If(Sel(ch.pos, x) < k, Sel(ch.pos, x), Sel(ch.pos, x) + 1)), f(s.datum, s.v), what, f(s.pri, q))
for fn in ('l_ins', 'l_ins0'):
    @contract('insert' if fn == 'l_ins' else 'insert at default priority', T, mode='int')
    def _(c, fn=fn):
        L = PQ(c); q = c.int('q', 32, st=L.st) if fn == 'l_ins' else z3.IntVal(0); k = L.threshold(sg32(q))
        c.ex.default_loop = LoopPolicy('inv', cands=lambda v0: L.cands(v0) + [('it <= k', lambda w: w.it <= k)])
        for st, r in c.run(fn, [Ptr(L.h), L.V] + ([q] if fn == 'l_ins' else []), L.st.copy()):
            if st.ghost.get('oom'): c.post(st, 'a failed allocation is reported', c.lift(r, 32) == 0xFFFFFFFF); L.same(st, 'failed insert'); continue
            new = st.ghost['newnodes'][-1][1]; c.post(st, 'returns the position', c.lift(r, 32) == k)
            L.plus(st, k, sg32(q), new, 'insert')
for fn in ('l_insa', 'l_insa0'):
    @contract('insertIfAbsent' if fn == 'l_insa' else 'insertIfAbsent at default priority', T, mode='int')
    def _(c, fn=fn):
        L = PQ(c); q = c.int('q', 32, st=L.st) if fn == 'l_insa' else z3.IntVal(0); k = L.threshold(sg32(q)); j = z3.Int('j'); ch = L.ch; M = L.matchfn(); mn = lambda w: z3.If(w.it < k, w.it, k)
        def cands(v0):
            l = L.cands(v0) + [('it <= k', lambda w: w.it <= k), ('no match so far', lambda w: forall(j, z3.Implies(z3.And(j >= 0, j < w.it), z3.Not(M(j))), M(j)))]
            for nm, ty in v0.tys.items():
                if ty.k == 'ptr': l.append((nm + ' = node(min(it,k)-1)', lambda w, nm=nm: ch.nid(w.ph[nm]) == ch.at(mn(w) - 1)))
                elif ty.k == 'i' and ty.n == 32: l.append((nm + ' = min(it,k)', lambda w, nm=nm: c.lift(w.ph[nm], 32) == mn(w)))
            return l
        c.ex.default_loop = LoopPolicy('inv', cands=cands); y = z3.Int('y')
        for st, r in c.run(fn, [Ptr(L.h), L.V] + ([q] if fn == 'l_insa' else []), L.st.copy()):
            if st.ghost.get('oom'): c.post(st, 'a failed allocation is reported', c.lift(r, 32) == 0xFFFFFFFF); L.same(st, 'failed insert'); continue
            if not st.ghost.get('newnodes'):
                c.post(st, 'refused: -1', c.lift(r, 32) == 0xFFFFFFFF); c.post(st, 'refused only when present', z3.Exists([j], z3.And(j >= 0, j < L.n, M(j)))); L.same(st, 'refused'); continue
            new = st.ghost['newnodes'][-1][1]; c.post(st, 'returns the position', c.lift(r, 32) == k)
            s2 = st.copy(); s2.assume(z3.And(y >= 0, y < L.n)); c.post(s2, 'inserted only when absent', z3.Not(M(y)))
            L.plus(st, k, sg32(q), new, 'insertIfAbsent')
@contract('dequeue', T, mode='int')
def _(c):
    L = PQ(c)
    for st, r in c.run('l_deq', [Ptr(L.h)], L.st.copy()):
        a, b = split(c, st, L.n > 0)
        if a: c.post(a, 'returns the first payload', L.ret(r) == L.datum(z3.IntVal(0))); L.without(a, z3.IntVal(0), 'dequeue')
        if b: c.post(b, 'nothing to dequeue', L.ret(r) == 0); L.same(b, 'dequeue from empty')
@contract('recycle', T, mode='int')
def _(c):
    L = PQ(c); ch = L.ch; n = L.n
    # getLast() runs on the list without its first node: node(it) is the original node it+1
    for st, r in c.run('l_rec', [Ptr(L.h)], L.st.copy()):
        a, b = split(c, st, n > 1)
        if a:
            c.post(a, 'returns the first payload', L.ret(r) == L.datum(z3.IntVal(0))); f = lambda g: (lambda i: z3.If(i == n - 1, g(z3.IntVal(0)), g(i + 1)))
            L.check(a, n, f(lambda i: Sel(ch.seq, i)), lambda x: z3.If(Sel(ch.pos, x) == 0, n - 1, Sel(ch.pos, x) - 1), f(L.datum), 'recycle', lambda i: z3.If(i == n - 1, L.pri(n - 1), L.pri(i + 1)))
        if b: c.post(b, 'returns the only payload, or null', L.ret(r) == z3.If(n > 0, L.datum(z3.IntVal(0)), 0)); L.same(b, 'recycle of at most one')
@contract('remove at position', T, mode='int')
def _(c):
    L = PQ(c); p = c.int('pos', 32, st=L.st)
    for st, r in c.run('l_remi', [Ptr(L.h), p], L.st.copy()):
        a, b = split(c, st, p < L.n)
        if a: c.post(a, 'reports success', tobool(r)); L.without(a, p, 'remove at')
        if b: c.post(b, 'no such position', z3.Not(tobool(r))); L.same(b, 'remove past the end')
@contract('reading', T, mode='int')
def _(c):
    L = PQ(c); p = c.int('pos', 32, st=L.st); q = z3.Int('q')
    for st, r in c.run('l_get', [Ptr(L.h)], L.st.copy()): c.post(st, 'get returns the first payload or null', L.ret(r) == z3.If(L.n > 0, L.datum(z3.IntVal(0)), 0)); L.same(st, 'get')
    for st, r in c.run('l_geti', [Ptr(L.h), p], L.st.copy()): c.post(st, 'get(position) returns that payload or null', L.ret(r) == z3.If(p < L.n, L.datum(p), 0)); L.same(st, 'get at')
    for st, r in c.run('l_prii', [Ptr(L.h), p], L.st.copy()): c.post(st, 'getPriority(position) returns that priority or -1', sg32(c.lift(r, 32)) == z3.If(p < L.n, L.pri(p), -1)); L.same(st, 'priority at')
    for st, r in c.run('l_size', [Ptr(L.h)], L.st.copy()): c.post(st, 'size() is the number of elements', c.lift(r, 32) == L.n); L.same(st, 'size')
    for st, r in c.run('l_next', [Ptr(L.h)], L.st.copy()): c.post(st, 'hasNext() iff not empty', tobool(r) == (L.n > 0)); L.same(st, 'hasNext')
@contract('searching', T, mode='int')
def _(c):
    L = PQ(c); q = z3.Int('q'); M = L.matchfn(); y = z3.Int('y'); F = c.int('first', st=L.st)
    # F: the first match (n when there is none)
    L.st.assume(z3.And(F >= 0, F <= L.n, z3.Implies(F < L.n, M(F)))); L.st.assume(forall(q, z3.Implies(z3.And(q >= 0, q < F), z3.Not(M(q))), M(q)))
    c.ex.default_loop = LoopPolicy('inv', cands=lambda v0: L.cands(v0) + [('no match so far', lambda w: forall(q, z3.Implies(z3.And(q >= 0, q < w.it), z3.Not(M(q))), M(q))), ('not past the first match', lambda w: w.it <= F)])
    for st, r in c.run('l_has', [Ptr(L.h), L.V], L.st.copy()): c.post(st, 'contains() iff some payload matches', tobool(r) == (F < L.n)); L.same(st, 'contains')
    for st, r in c.run('l_pos', [Ptr(L.h), L.V], L.st.copy()): c.post(st, 'getPosition() is the first match or -1', sg32(c.lift(r, 32)) == z3.If(F < L.n, F, -1)); L.same(st, 'getPosition')
    for st, r in c.run('l_priv', [Ptr(L.h), L.V], L.st.copy()): c.post(st, 'getPriority() is that of the first match or -1', sg32(c.lift(r, 32)) == z3.If(F < L.n, L.pri(F), -1)); L.same(st, 'getPriority')
@contract('getByPriority', T, mode='int')
def _(c):
    L = PQ(c); q = z3.Int('q'); pr = c.int('pri', 32, st=L.st); M = z3.Function('M', z3.IntSort(), z3.BoolSort()); F = c.int('first', st=L.st)
    L.st.assume(forall(q, M(q) == (L.pri(q) == sg32(pr)), M(q))); L.st.assume(forall(q, M(q) == (L.pri(q) == sg32(pr)), Sel(L.ch.seq, q)))
    L.st.assume(z3.And(F >= 0, F <= L.n, z3.Implies(F < L.n, M(F)))); L.st.assume(forall(q, z3.Implies(z3.And(q >= 0, q < F), z3.Not(M(q))), M(q)))
    c.ex.default_loop = LoopPolicy('inv', cands=lambda v0: L.cands(v0) + [('not past the first match', lambda w: w.it <= F)])
    for st, r in c.run('l_byp', [Ptr(L.h), pr], L.st.copy()): c.post(st, 'the first payload of that priority, or null', L.ret(r) == z3.If(F < L.n, L.datum(F), 0)); L.same(st, 'getByPriority')
@contract('remove value', T, mode='int')
def _(c):
    L = PQ(c); remove_value(c, L, 'l_remv'); 
for op in ('clear', 'del'):
    @contract({'clear': 'clear', 'del': 'destructor'}[op], T, mode='int')
    def _(c, op=op): L = PQ(c); release_all(c, L, 'l_' + op, op == 'clear')

def find_first(c, L):
    q = z3.Int('q'); M = L.matchfn(); F = c.int('first', st=L.st); L.st.assume(z3.And(F >= 0, F <= L.n, z3.Implies(F < L.n, M(F)))); L.st.assume(forall(q, z3.Implies(z3.And(q >= 0, q < F), z3.Not(M(q))), M(q)))
    return F, M, [('no match so far', lambda w: forall(q, z3.Implies(z3.And(q >= 0, q < w.it), z3.Not(M(q))), M(q))), ('not past the first match', lambda w: w.it <= F)]
def prios(L, ch, st, e, newp, base):
    """frame: only e's priority differs"""
    i = z3.Int('i'); return forall(i, ch.fld(st, L.P, i) == z3.If(i == e, newp, ch.old(L.P, i)), ch.fld(st, L.P, i))
@contract('incrementPriority', T, mode='int')
def _(c):
    L = PQ(c); ch = L.ch; n = L.n; F, M, fc = find_first(c, L); st = L.st; i = z3.Int('i'); seq = lambda x: Sel(ch.seq, x); e = seq(F)
    st.assume(z3.Implies(F < n, L.pri(F) < (1 << 31) - 1)); q = L.pri(F) + 1; k = z3.Int('k')
    st.assume(z3.And(k >= 0, k <= F)); st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < F), (L.pri(i) >= q) == (i < k)), seq(i)))
    B = lambda x: z3.If(z3.Or(x < 0, x >= n), 0, z3.If(x < k, seq(x), z3.If(x == k, e, z3.If(x <= F, seq(x - 1), seq(x)))))
    turn = z3.If(F == 1, z3.IntVal(0), F)
    def cands(v0):
        moved = lambda w: z3.And(w.it > turn, k < F)
        nm = v0.fn.demangled
        if '::get_node_by_element(' in nm: return L.cands(v0) + fc
        if '::getLastWithPriority(' in nm: return L.cands(v0) + [('it <= k', lambda w: w.it <= k)]
        l = [] if '::enforce_priorities(' in nm else L.cands(v0) + fc + [('it <= k', lambda w: w.it <= k)]
        l += [('links', lambda w: z3.If(moved(w), forall(i, z3.Implies(z3.And(i >= 0, i < n), ch.fld(w.st, L.X, B(i)) == B(i + 1)), seq(i)), forall(i, z3.Implies(z3.And(i >= 0, i < n), ch.fld(w.st, L.X, seq(i)) == z3.If(i + 1 < n, seq(i + 1), 0)), seq(i)))),
              ('links (e)', lambda w: ch.fld(w.st, L.X, e) == z3.If(moved(w), B(k + 1), z3.If(F + 1 < n, seq(F + 1), 0))), ('links (before e)', lambda w: z3.Implies(z3.And(moved(w), k > 0), ch.fld(w.st, L.X, seq(k - 1)) == e)),
              ('links (gap)', lambda w: z3.Implies(moved(w), ch.fld(w.st, L.X, seq(F - 1)) == B(F + 1))),
              ('root', lambda w: L.root(w.st) == z3.If(moved(w), B(z3.IntVal(0)), ch.at(z3.IntVal(0)))),
              ('it past', lambda w: z3.Implies(moved(w), w.it - turn >= 1)), ('it <= n + turn', lambda w: w.it <= n + turn)]
        for nm, ty in v0.tys.items():
            if ty.k == 'ptr':
                for d in (0, -1): l.append(('%s follows (%d)' % (nm, d), lambda w, nm=nm, d=d: ch.nid(w.ph[nm]) == z3.If(moved(w), B(w.it - turn + d), ch.at(w.it + d))))
        return l
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run('l_inc', [Ptr(L.h), L.V], L.st.copy()):
        a, b = split(c, st, F < n)
        if b: c.post(b, 'reports absence', z3.Not(tobool(r))); L.same(b, 'increment of an absent element')
        if a:
            c.post(a, 'reports success', tobool(r)); f = lambda g, v: (lambda x: z3.If(x < k, g(x), z3.If(x == k, v, z3.If(x <= F, g(x - 1), g(x)))))
            L.check(a, n, f(seq, e), lambda x: z3.If(x == e, k, z3.If(z3.And(Sel(ch.pos, x) >= k, Sel(ch.pos, x) < F), Sel(ch.pos, x) + 1, Sel(ch.pos, x))), f(L.datum, L.datum(F)), 'incrementPriority', f(L.pri, q))
@contract('decrementPriority', T, mode='int')
def _(c):
    L = PQ(c); ch = L.ch; n = L.n; F, M, fc = find_first(c, L); st = L.st; i = z3.Int('i'); seq = lambda x: Sel(ch.seq, x); pos = lambda x: Sel(ch.pos, x); e = seq(F)
    st.assume(z3.Implies(F < n, L.pri(F) > -(1 << 31))); P = L.pri(F); q = P - 1; K = z3.Int('K')      # K: one past the last element of e's old priority
    st.assume(z3.Implies(F < n, z3.And(K > F, K <= n))); st.assume(forall(i, z3.Implies(z3.And(F < n, i >= 0, i < n), (L.pri(i) >= P) == (i < K)), seq(i)))
    st.assume(z3.Implies(F < n, forall(i, z3.Implies(z3.And(i > F, i < K), L.pri(i) == P), seq(i)))); m = K - 1 - F
    D = lambda j, x: z3.If(z3.Or(x < 0, x >= n), 0, z3.If(x < F, seq(x), z3.If(x < F + j, seq(x + 1), z3.If(x == F + j, e, seq(x)))))
    def J(st): x = ch.fld(st, L.X, e); return z3.If(x == 0, n - 1 - F, pos(x) - 1 - F)
    def posD(j, x): return z3.If(x == 0, n, z3.If(x == e, F + j, z3.If(z3.And(pos(x) > F, pos(x) <= F + j), pos(x) - 1, pos(x))))
    valid = lambda x: z3.And(x > 0, pos(x) >= 0, pos(x) < n, seq(pos(x)) == x)
    Z = lambda j, x: z3.If(x < F, seq(x), z3.If(x < F + j, seq(x + 1), e))
    # quantified facts as single-variable instances over the original positions
    def outer(v0):
        l = [('moves', lambda w: z3.And(J(w.st) >= 0, J(w.st) <= m)),
             ('links: untouched prefix', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i + 1 < F), ch.fld(w.st, L.X, seq(i)) == seq(i + 1)), seq(i))),
             ('links: into the moved part', lambda w: z3.Implies(F > 0, ch.fld(w.st, L.X, seq(F - 1)) == z3.If(J(w.st) > 0, seq(F + 1), e))),
             ('links: moved part', lambda w: forall(i, z3.Implies(z3.And(i > F, i < F + J(w.st)), ch.fld(w.st, L.X, seq(i)) == seq(i + 1)), seq(i))),
             ('links: into e', lambda w: z3.Implies(J(w.st) > 0, ch.fld(w.st, L.X, seq(F + J(w.st))) == e)),
             ('links: out of e', lambda w: ch.fld(w.st, L.X, e) == ch.at(F + J(w.st) + 1)),
             ('links: untouched rest', lambda w: forall(i, z3.Implies(z3.And(i > F + J(w.st), i < n), ch.fld(w.st, L.X, seq(i)) == z3.If(i + 1 < n, seq(i + 1), 0)), seq(i))),
             ('root', lambda w: L.root(w.st) == z3.If(F > 0, seq(0), z3.If(J(w.st) > 0, seq(1), e)))]
        ptrs = [nm for nm, ty in v0.tys.items() if ty.k == 'ptr']
        for nm in ptrs:
            x = lambda w, nm=nm: ch.nid(w.ph[nm])
            l.append((nm + ' on the list or null', lambda w, x=x: z3.Or(x(w) == 0, valid(x(w)))))
            l.append((nm + ' not past the displaced element', lambda w, x=x: z3.Or(posD(J(w.st), x(w)) <= F + J(w.st) + 1, J(w.st) == m)))
            l.append((nm + ' null only at the start', lambda w, x=x: z3.Implies(x(w) == 0, z3.And(w.it == 0, J(w.st) == 0))))
            for nm2 in ptrs:
                if nm2 != nm: l.append(('%s follows %s' % (nm, nm2), lambda w, x=x, nm2=nm2: z3.If(ch.nid(w.ph[nm2]) == 0, x(w) == L.root(w.st), z3.And(posD(J(w.st), x(w)) == posD(J(w.st), ch.nid(w.ph[nm2])) + 1))))
        return l
    def inner(v0):
        l = [('inner it', lambda w: w.it <= F + J(w.st) - 1)]
        for nm, ty in v0.tys.items():
            if ty.k != 'ptr': continue
            x = lambda w, nm=nm: ch.nid(w.ph[nm])
            l.append((nm + ' inner cur', lambda w, x=x: x(w) == Z(J(w.st) - 1, w.it))); l.append((nm + ' inner last', lambda w, x=x: x(w) == z3.If(w.it > 0, Z(J(w.st) - 1, w.it - 1), 0)))
        return l
    def cands(v0):
        nm = v0.fn.demangled
        if '::get_node_by_element(' in nm: return L.cands(v0) + fc
        if '::getLastWithPriority(' in nm: return inner(v0)
        return outer(v0) if '::enforce_priorities(' in nm else L.cands(v0) + fc + outer(v0) + inner(v0)
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run('l_dec', [Ptr(L.h), L.V], L.st.copy()):
        a, b = split(c, st, F < n)
        if b: c.post(b, 'reports absence', z3.Not(tobool(r))); L.same(b, 'decrement of an absent element')
        if a:
            c.post(a, 'reports success', tobool(r)); f = lambda g, v: (lambda x: z3.If(x < F, g(x), z3.If(x < K - 1, g(x + 1), z3.If(x == K - 1, v, g(x)))))
            L.check(a, n, f(seq, e), lambda x: posD(m, x), f(L.datum, L.datum(F)), 'decrementPriority', f(L.pri, q))
