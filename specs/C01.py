from spec import *
HARNESS = dict(src='C01.cpp', lib=[], leaks=True)
PROVED = 'every RingBuffer operation on rings of every capacity and fill state, for 1-, 4- and 8-byte elements: FIFO contents, counts, return values, bounds of every memory access, and the representation invariant.'
BOUNDED = 'native replay: random operation histories against a deque, seven element types, address sanitizer'
ASSUMPTIONS = ['capacity * sizeof(T) < 2^31', 'count() never exceeds capacity and the cursors are in range on entry (the representation invariant, itself proved to be established by the constructor and kept by every operation)']
TYS = {'u8': ('uint8_t', 1), 'u32': ('uint32_t', 4), 'u64': ('uint64_t', 8)}
T = tu_text('ring.cpp', r'''
#include <stdlib.h>
#include <inttypes.h>
#include <stdint.h>
#include <new>
#include "CppPotpourri.h"
#define private public
#include "RingBuffer.h"
''' + ''.join(offs(k, 'RingBuffer<%s>' % t, '_CAPAC', '_count', '_w', '_r', '_pool') + '''
extern "C" { typedef RingBuffer<%(t)s> R_%(k)s; typedef %(t)s T_%(k)s;
void new_%(k)s(R_%(k)s* p, unsigned n) { new (p) R_%(k)s(n); } void del_%(k)s(R_%(k)s* p) { p->~RingBuffer(); } int ins_%(k)s(R_%(k)s* p, T_%(k)s v) { return p->insert(v); }
int insn_%(k)s(R_%(k)s* p, T_%(k)s* v, unsigned n) { return p->insert(v, n); } int insa_%(k)s(R_%(k)s* p, T_%(k)s v) { return p->insertIfAbsent(v); }
T_%(k)s get_%(k)s(R_%(k)s* p) { return p->get(); } T_%(k)s peek_%(k)s(R_%(k)s* p) { return p->peek(); } int getn_%(k)s(R_%(k)s* p, T_%(k)s* b, unsigned n) { return p->get(b, n); }
T_%(k)s peeki_%(k)s(R_%(k)s* p, unsigned i, bool a) { return p->peek(i, a); } int peekn_%(k)s(R_%(k)s* p, T_%(k)s* b, unsigned n) { return p->peek(b, n); }
int cull_%(k)s(R_%(k)s* p, unsigned n) { return p->cull(n); } void clear_%(k)s(R_%(k)s* p) { p->clear(); } bool has_%(k)s(R_%(k)s* p, T_%(k)s v) { return p->contains(v); }
unsigned count_%(k)s(R_%(k)s* p) { return p->count(); } unsigned cap_%(k)s(R_%(k)s* p) { return p->capacity(); } unsigned vac_%(k)s(R_%(k)s* p) { return p->vacancy(); } bool emp_%(k)s(R_%(k)s* p) { return p->isEmpty(); }
unsigned heap_%(k)s(R_%(k)s* p) { return p->heap_use(); }
}
''' % dict(k=k, t=t) for k, (t, _) in TYS.items()))

class Ring:
    """a ring in an arbitrary valid state: either never allocated (empty) or allocated with any fill"""
    def __init__(s, c, k, alloc=True, opts=None):
        s.c, s.k, s.E = c, k, TYS[k][1]
        s.F = {n: c.off(k, n) for n in ('_CAPAC', '_count', '_w', '_r', '_pool')}
        s.cap = c.int('capacity', 32); c.st.assume(s.cap * s.E < (1 << 31))
        s.h = c.obj('ring', c.sizeof(k))
        (st, _), = c.run('new_' + k, [Ptr(s.h), s.cap])
        s.fresh = st.copy(); c.st = st
        s.n = s.r = s.w = 0
        if alloc:
            s.n, s.r, s.w = c.int('count', 32, st=st), c.int('r', 32, st=st), c.int('w', 32, st=st)
            st.assume(s.inv(s.n, s.r, s.w))
            s.p = c.obj('pool', s.cap * s.E, st=st, heap=True); c.ex.to_arr(st, s.p); st.mem[s.p].esz = 1
            for f, v in (('_count', s.n), ('_r', s.r), ('_w', s.w)): c.set(s.h, s.F[f], 4, v, st)
            c.set(s.h, s.F['_pool'], 4, Ptr(s.p), st)
            s.arr0 = st.mem[s.p].arr
        s.st = st
    def inv(s, n, r, w):
        return z3.And(n >= 0, n <= s.cap, z3.Or(z3.And(r >= 0, r < s.cap, w >= 0, w < s.cap, w == z3.If(r + n < s.cap, r + n, r + n - s.cap)), z3.And(s.cap == 0, r == 0, w == 0, n == 0)))
    def f(s, st, nm): return s.c.lift(s.c.get(st, s.h, s.F[nm], 4), 32)
    def slot(s, r, k): return z3.If(r + k < s.cap, r + k, r + k - s.cap)
    def arr(s, st):
        p = s.c.getp(st, s.h, s.F['_pool']); o = st.mem[p.reg]
        return o.arr if o.arr is not None else s.c.ex.to_arr(st, p.reg).arr
    def elem(s, arr, r, k, j=None):
        b = [z3.Select(arr, s.slot(r, k) * s.E + i) for i in range(s.E)]
        return b
    def state(s, st): return s.f(st, '_count'), s.f(st, '_r'), s.f(st, '_w')
    def keeps(s, st, what):
        n, r, w = s.state(st); s.c.post(st, what + ': representation invariant', s.inv(n, r, w)); s.c.post(st, what + ': capacity unchanged', s.f(st, '_CAPAC') == s.cap)
    def same(s, st, what):
        n, r, w = s.state(st)
        s.c.post(st, what + ': count unchanged', n == s.n)
        if not conc(s.n):
            k = z3.Int('k'); s.c.post(st, what + ': contents unchanged', z3.Implies(z3.And(k >= 0, k < s.n), z3.And([a == b for a, b in zip(s.elem(s.arr(st), r, k), s.elem(s.arr0, s.r, k))])))
def eqv(c, bs, v, E):
    """little-endian bytes bs are the value v"""
    return sum((b * (1 << (8 * i)) for i, b in enumerate(bs)), z3.IntVal(0)) == v
def vbytes(c, v, E): return [z3.simplify((v / (1 << (8 * i))) % 256) for i in range(E)]
def rng(bs): return z3.And([z3.And(b >= 0, b < 256) for b in bs])
NOLOOP = dict(default_loop=LoopPolicy('inv'), loops=[(r'::(insert|contains)\((unsigned (char|int|long long)|uint\d+_t)\)', LoopPolicy('unroll', 9))])

def elementwise(E, which):
    pass

for k in TYS:
    E = TYS[k][1]
    @contract('insert/' + k, T, mode='int', loops=[(r'::insert', LoopPolicy('unroll', 9))], default_loop=LoopPolicy('inv'))
    def _(c, k=k, E=E):
        R = Ring(c, k); v = c.int('v', 8 * E, st=R.st); q = z3.Int('k')
        for st, ret in c.run('ins_' + k, [Ptr(R.h), v], R.st):
            n, r, w = R.state(st); ok = c.lift(ret, 32) == 0; R.keeps(st, 'insert')
            c.post(st, 'accepted exactly when there is room', ok == (R.n < R.cap)); c.post(st, 'the refusal is negative', z3.Or(ok, c.lift(ret, 32) == 0xFFFFFFFF))
            c.post(st, 'count', n == z3.If(R.n < R.cap, R.n + 1, R.n)); c.post(st, 'the oldest element stays first', r == R.r)
            c.post(st, 'earlier elements keep their place and value', z3.Implies(z3.And(q >= 0, q < R.n), z3.And([a == b for a, b in zip(R.elem(R.arr(st), r, q), R.elem(R.arr0, R.r, q))])))
            c.post(st, 'the new element is last', z3.Implies(ok, z3.And([a == b for a, b in zip(R.elem(R.arr(st), r, n - 1), vbytes(c, v, E))])))
    @contract('first use/' + k, T, mode='int', loops=[(r'::insert', LoopPolicy('unroll', 9))], default_loop=LoopPolicy('inv'))
    def _(c, k=k, E=E):
        R = Ring(c, k, alloc=False); v = c.int('v', 8 * E, st=R.st)
        c.post(R.st, 'a new ring is empty', z3.And(R.f(R.st, '_count') == 0, R.f(R.st, '_CAPAC') == R.cap))
        for st, ret in c.run('ins_' + k, [Ptr(R.h), v], R.st.copy()):
            n, r, w = R.state(st); ok = c.lift(ret, 32) == 0; R.keeps(st, 'first insert'); oom = st.ghost.get('oom', False)
            c.post(st, 'accepted when memory is available and there is room', ok == z3.And(z3.BoolVal(not oom), R.cap > 0)); c.post(st, 'count', n == z3.If(ok, 1, 0))
            if not oom: c.post(st, 'the element is first', z3.Implies(ok, z3.And([a == b for a, b in zip(R.elem(R.arr(st), r, z3.IntVal(0)), vbytes(c, v, E))])))
        for op, args in (('get', []), ('peek', []), ('peeki', [c.int('i', 32, st=R.st), c.bv('abs', 1)]), ('has', [v])):
            for st, ret in c.run(op + '_' + k, [Ptr(R.h)] + args, R.st.copy()): c.post(st, op + ' on a ring never used gives zero', (c.lift(ret, 8 * E) == 0) if op != 'has' else z3.Not(tobool(ret))); R.keeps(st, op)
        for st, ret in c.run('cull_' + k, [Ptr(R.h), c.int('n', 32, st=R.st)], R.st.copy()): c.post(st, 'nothing to drop', R.f(st, '_count') == 0); R.keeps(st, 'cull')
        for st, ret in c.run('clear_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'still empty', R.f(st, '_count') == 0); R.keeps(st, 'clear')
    @contract('get and peek/' + k, T, mode='int', default_loop=LoopPolicy('inv'))
    def _(c, k=k, E=E):
        R = Ring(c, k); q = z3.Int('k'); i = c.int('i', 32, st=R.st); ab = c.bv('absolute', 1)
        for op in ('get', 'peek'):
            for st, ret in c.run('%s_%s' % (op, k), [Ptr(R.h)], R.st.copy()):
                n, r, w = R.state(st); v = c.lift(ret, 8 * E); R.keeps(st, op); e0 = R.elem(R.arr0, R.r, z3.IntVal(0))
                c.post(st, op + ' returns the oldest element', z3.Implies(z3.And(R.n > 0, rng(e0)), eqv(c, e0, v, E))); c.post(st, op + ' on empty gives zero', z3.Implies(R.n == 0, v == 0))
                if op == 'peek': R.same(st, 'peek')
                else:
                    c.post(st, 'get removes one', n == z3.If(R.n > 0, R.n - 1, R.n))
                    c.post(st, 'the others move up in order', z3.Implies(z3.And(q >= 0, q < n), z3.And([a == b for a, b in zip(R.elem(R.arr(st), r, q), R.elem(R.arr0, R.r, q + 1))])))
        s0 = R.st.copy(); s0.assume(R.r + i < (1 << 32))
        for st, ret in c.run('peeki_' + k, [Ptr(R.h), i, ab], R.st.copy()):
            v = c.lift(ret, 8 * E); e = R.elem(R.arr0, R.r, i); R.keeps(st, 'peek at'); R.same(st, 'peek at')
            c.post(st, 'peek at a position returns that element', z3.Implies(z3.And(i < R.n, z3.Not(ab), rng(e)), eqv(c, e, v, E)))
            ea = [z3.Select(R.arr0, i * E + j) for j in range(E)]
            c.post(st, 'peek at an absolute slot returns that slot', z3.Implies(z3.And(i < R.cap, R.n > 0, ab, rng(ea)), eqv(c, ea, v, E)))
            c.post(st, 'peek past the capacity, or on empty, gives zero', z3.Implies(z3.Or(i >= R.cap, R.n == 0), v == 0))
    @contract('cull and clear/' + k, T, mode='int', default_loop=LoopPolicy('inv'))
    def _(c, k=k, E=E):
        R = Ring(c, k); q = z3.Int('k'); m = c.int('n', 32, st=R.st)
        for st, ret in c.run('cull_' + k, [Ptr(R.h), m], R.st.copy()):
            n, r, w = R.state(st); R.keeps(st, 'cull'); d = z3.If(m < R.n, m, R.n)
            c.post(st, 'cull drops the requested number or everything', n == R.n - d); c.post(st, 'cull reports how many it dropped', z3.Implies(m > 0, c.lift(ret, 32) == d)); c.post(st, 'culling nothing is an error', z3.Implies(m == 0, c.lift(ret, 32) == 0xFFFFFFFF))
            c.post(st, 'the rest stay in order', z3.Implies(z3.And(q >= 0, q < n), z3.And([a == b for a, b in zip(R.elem(R.arr(st), r, q), R.elem(R.arr0, R.r, q + d))])))
        for st, ret in c.run('clear_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'clear empties', R.f(st, '_count') == 0); R.keeps(st, 'clear')
        for st, ret in c.run('count_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'count()', c.lift(ret, 32) == R.n)
        for st, ret in c.run('cap_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'capacity()', c.lift(ret, 32) == R.cap)
        for st, ret in c.run('vac_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'vacancy()', c.lift(ret, 32) == R.cap - R.n)
        for st, ret in c.run('emp_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'isEmpty()', tobool(ret) == (R.n == 0))
        for st, ret in c.run('heap_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'heap_use()', c.lift(ret, 32) == R.cap * E)
        for st, ret in c.run('del_' + k, [Ptr(R.h)], R.st.copy()): c.post(st, 'the destructor releases the storage', z3.BoolVal(not st.mem[R.p].alive))

def bq(R, r, x):   # distance of pool byte x from the read cursor, in bytes
    return z3.If(x >= r * R.E, x - r * R.E, x - r * R.E + R.cap * R.E)
for k in TYS:
    E = TYS[k][1]
    def ringinv(R, w):
        """loop invariants that do not depend on the loop: cursor relation of the live state"""
        st = w.st; n, r, wr = R.state(st); return R.inv(n, r, wr)
    @contract('insert many/' + k, T, mode='int', loops=[(r'::insert\((unsigned (char|int|long long))\)', LoopPolicy('unroll', 9))], tier='quick')
    def _(c, k=k, E=E):
        R = Ring(c, k); m = c.int('len', 32, st=R.st); c.st.assume(m * E < (1 << 31)); d = c.obj('data', m * E, st=R.st, ro=True); c.ex.to_arr(R.st, d); R.st.mem[d].esz = 1
        d0 = R.st.mem[d].arr; x = z3.Int('x')
        def body(st):
            n, r, w = R.state(st); a = R.arr(st)
            return forall(x, z3.Implies(z3.And(x >= 0, x < R.cap * E, bq(R, R.r, x) < n * E), z3.Select(a, x) == z3.If(bq(R, R.r, x) < R.n * E, z3.Select(R.arr0, x), z3.Select(d0, bq(R, R.r, x) - R.n * E))), z3.Select(a, x))
        def cands(v):
            return [('cursors', lambda w: ringinv(R, w)), ('read cursor fixed', lambda w: R.state(w.st)[1] == R.r), ('count advances', lambda w: R.state(w.st)[0] == R.n + w.it), ('bytes', lambda w: body(w.st)), ('in range', lambda w: z3.And(w.it >= 0, w.it <= m, R.n + w.it <= R.cap))]
        c.ex.default_loop = LoopPolicy('inv', cands=cands)
        for st, ret in c.run('insn_' + k, [Ptr(R.h), Ptr(d), m], R.st.copy()):
            n, r, w = R.state(st); R.keeps(st, 'insert many'); take = z3.If(m < R.cap - R.n, m, R.cap - R.n)
            c.post(st, 'takes as many as fit', n == R.n + take); c.post(st, 'reports how many it took', c.lift(ret, 32) == z3.If(take > 0, take, 0xFFFFFFFF))
            c.post(st, 'the oldest element stays first', r == R.r)
            y = z3.Int('y'); st2 = st.copy(); st2.assume(z3.And(y >= 0, y < R.cap * E, bq(R, r, y) < n * E))
            c.post(st2, 'contents: the old elements, then the taken ones in order', z3.Select(R.arr(st2), y) == z3.If(bq(R, r, y) < R.n * E, z3.Select(R.arr0, y), z3.Select(d0, bq(R, r, y) - R.n * E)))
        for st, ret in c.run('insn_' + k, [Ptr(R.h), NULL, m], R.st.copy()): c.post(st, 'a null source is refused', c.lift(ret, 32) == 0xFFFFFFFF); R.same(st, 'null source')
    for op in ('getn', 'peekn'):
        @contract('%s many/%s' % (op[:-1], k), T, mode='int', tier='quick')
        def _(c, k=k, E=E, op=op):
            R = Ring(c, k); m = c.int('len', 32, st=R.st); c.st.assume(m * E < (1 << 31)); b = c.obj('buf', m * E, st=R.st); c.ex.to_arr(R.st, b); R.st.mem[b].esz = 1
            b0 = R.st.mem[b].arr; x = z3.Int('x'); q = z3.Int('k')
            for i in range(1): c.st.assume(forall(x, z3.And(z3.Select(R.arr0, x) >= 0, z3.Select(R.arr0, x) < 256), z3.Select(R.arr0, x)))
            src = lambda y: z3.Select(R.arr0, z3.If(R.r * E + y < R.cap * E, R.r * E + y, R.r * E + y - R.cap * E))
            def cands(v):
                a = lambda w: w.st.mem[b].arr
                l = [('cursors', lambda w: ringinv(R, w)), ('in range', lambda w: z3.And(w.it >= 0, w.it <= m, w.it <= R.n)), ('copied', lambda w: forall(x, z3.Implies(z3.And(x >= 0, x < w.it * E), z3.Select(a(w), x) == src(x)), z3.Select(a(w), x))),
                     ('rest of the destination', lambda w: forall(x, z3.Implies(x >= w.it * E, z3.Select(a(w), x) == z3.Select(b0, x)), z3.Select(a(w), x)))]
                if op == 'getn': l += [('cursor advances', lambda w: z3.And(R.state(w.st)[0] == R.n - w.it, R.state(w.st)[1] == z3.If(z3.Or(R.r + w.it < R.cap, w.it == 0), R.r + w.it, R.r + w.it - R.cap))), ('write cursor fixed', lambda w: R.state(w.st)[2] == R.w)]
                return l
            c.ex.default_loop = LoopPolicy('inv', cands=cands)
            for st, ret in c.run('%s_%s' % (op, k), [Ptr(R.h), Ptr(b), m], R.st.copy()):
                n, r, w = R.state(st); R.keeps(st, op); t = z3.If(m < R.n, m, R.n); y = z3.Int('y')
                c.post(st, 'returns the number moved', c.lift(ret, 32) == z3.If(m == 0, 0xFFFFFFFF, t))
                s2 = st.copy(); s2.assume(z3.And(y >= 0, y < t * E)); a = s2.mem[b].arr
                c.post(s2, 'the destination holds the oldest elements in order', z3.Select(a, y) == src(y))
                s2 = st.copy(); s2.assume(y >= t * E); c.post(s2, 'nothing else is written', z3.Select(s2.mem[b].arr, y) == z3.Select(b0, y))
                if op == 'peekn': R.same(st, op)
                else:
                    c.post(st, 'they leave the ring', n == R.n - t); c.post(st, 'the others move up in order', z3.Implies(z3.And(q >= 0, q < n), R.slot(r, q) == R.slot(R.r, q + t)))
                    c.post(st, 'stored bytes untouched', z3.BoolVal(R.arr(st).eq(R.arr0)))
            for st, ret in c.run('%s_%s' % (op, k), [Ptr(R.h), NULL, m], R.st.copy()): c.post(st, 'a null destination is refused', c.lift(ret, 32) == 0xFFFFFFFF); R.same(st, 'null')
    @contract('contains/' + k, T, mode='int', tier='quick')
    def _(c, k=k, E=E):
        R = Ring(c, k); v = c.int('v', 8 * E, st=R.st); M = z3.Function('M', z3.IntSort(), z3.BoolSort()); q = z3.Int('q')
        vb = vbytes(c, v, E); match = lambda p: z3.And([a == b for a, b in zip(R.elem(R.arr0, R.r, p), vb)])
        R.st.assume(forall(q, M(q) == match(q), M(q)))
        R.st.assume(forall(q, z3.And(z3.Select(R.arr0, q) >= 0, z3.Select(R.arr0, q) < 256), z3.Select(R.arr0, q)))
        def cands(v0):
            l = [('in range', lambda w: z3.And(w.it >= 0, w.it <= R.n))]
            one = lambda x: tobool(x) if (isinstance(x, bool) or (not conc(x) and z3.is_bool(x))) else c.lift(x, 8) == 1
            for nm, ty in v0.tys.items():
                if ty.k != 'i': continue
                if ty.n == 32: l.append(('%s = slot(it)' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == z3.If(z3.Or(R.r + w.it < R.cap, w.it == 0), R.r + w.it, R.r + w.it - R.cap)))
                if ty.n in (1, 8):
                    l.append(('%s boolean' % nm, lambda w, nm=nm: z3.Or(one(w.ph[nm]), z3.Not(one(w.ph[nm])) if w.tys[nm].n == 1 else c.lift(w.ph[nm], 8) == 0)))
                    l.append(('%s: no match so far' % nm, lambda w, nm=nm: z3.Implies(z3.Not(one(w.ph[nm])), forall(q, z3.Implies(z3.And(q >= 0, q < w.it), z3.Not(M(q))), M(q)))))
                    l.append(('%s: matched at the last one' % nm, lambda w, nm=nm: z3.Implies(one(w.ph[nm]), z3.And(w.it > 0, M(w.it - 1)))))
            l.append(('no match so far', lambda w: forall(q, z3.Implies(z3.And(q >= 0, q < w.it), z3.Not(M(q))), M(q))))
            return l
        c.ex.default_loop = LoopPolicy('unroll', 9)
        inner = LoopPolicy('unroll', 9)
        def pol(f, header, E=E):
            info = c.ex.info(f); depth = sum(header in b for b in info.loops.values())
            return LoopPolicy('inv', cands=cands) if depth == 1 and 'contains' in f.demangled else inner
        c.ex.policy = pol
        for st, ret in c.run('has_' + k, [Ptr(R.h), v], R.st.copy()):
            R.same(st, 'contains'); R.keeps(st, 'contains'); y = z3.Int('y')
            s2 = st.copy(); s2.assume(z3.And(y >= 0, y < R.n, M(y))); c.post(s2, 'found when some element equals the argument', tobool(ret))
            s2 = st.copy(); s2.assume(tobool(ret)); c.post(s2, 'not found when none does', z3.Exists([q], z3.And(q >= 0, q < R.n, M(q))))
        HAS = z3.Bool('has')
        c.ex.stubs = [(r'RingBuffer<.*>::contains\(.*\)', lambda ex, st, args, ins: [(st, HAS)])]
        for st, ret in c.run('insa_' + k, [Ptr(R.h), v], R.st.copy()):
            n, r, w = R.state(st); rr = c.lift(ret, 32)
            c.post(st, 'insertIfAbsent: -2 and no change when present', z3.Implies(HAS, z3.And(rr == 0xFFFFFFFE, n == R.n))); c.post(st, 'insertIfAbsent: inserts when absent', z3.Implies(z3.Not(HAS), z3.And((rr == 0) == (R.n < R.cap), n == z3.If(R.n < R.cap, R.n + 1, R.n))))
