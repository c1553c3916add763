from spec import *
HARNESS = dict(src='C04.cpp', lib=['StringBuilder.cpp', 'AbstractPlatform.cpp', 'CppPotpourri.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp'])
PROVED = 'construction, first use (with and without memory), take and give of ElementPool<T>, for pools of every size, every set of free elements and every overdraw limit.'
BOUNDED = 'native replay: random take/give histories with content checks, failing allocations included'
ASSUMPTIONS = ['the free list behaves as a bounded FIFO (C01)', 'elements given back were taken from this pool and are given once', 'operator new does not fail', 'one instantiation (an 8-byte element with a constructor) stands for the template']
T = tu_text('epool.cpp', '''#include <new>
#include <stdlib.h>
#include <stdint.h>
#define private public
#include "ElementPool.h"
#undef private
struct E { uint32_t a, b; E() : a(0x1111), b(0x2222) {} };
typedef ElementPool<E> P;
''' + offs('p', 'P', '_list', '_pool', '_overdraw_limit', '_overdraws', '_overdraws_freed', '_low_watermark', '_we_own_the_pool', '_list_populated') + offs('e', 'E', 'a', 'b') + '''
extern "C" { void mk(P* p, uint32_t n, uint32_t l, E* m) { new (p) P(n, l, m); } void rm(P* p) { p->~P(); } bool alc(P* p) { return p->allocated(); } E* take(P* p) { return p->take(); } int8_t give(P* p, E* e) { return p->give(e); } bool inp(P* p, E* e) { return p->inPool(e); } void slim(P* p, uint32_t x) { p->overdrawLimit(x); }
uint32_t g0(P* p) { return p->overdrawLimit(); } uint32_t g1(P* p) { return p->overdraws(); } uint32_t g2(P* p) { return p->overdrawsFreed(); } uint32_t g3(P* p) { return p->lowWaterMark(); } uint32_t g4(P* p) { return p->capacity(); } uint32_t g5(P* p) { return p->available(); } }
''')
B32 = z3.BitVecSort(32); V = lambda x: z3.BitVecVal(x, 32); SZ = 8
class S:
    def __init__(s, c, pool):
        """pool: 'given' (memory supplied, not yet listed), 'none' (not yet allocated) or 'ready'"""
        s.c = c; st = c.st; s.cap = c.bv('capacity', 32); st.assume(z3.ULT(s.cap, 1 << 24)); s.ringok = c.bv('ring_has_memory', 1); s.lim = c.bv('limit', 32); s.i = z3.BitVec('i', 32); s.j = z3.BitVec('j', 32)
        s.p = c.obj('pool_object', c.sizeof('p')); s.mem = c.obj('elements', s.cap * SZ, heap=False) if pool != 'none' else None
        c.ex.stubs = s.stubs(); s.q0 = z3.Array('free', B32, B32); s.h0, s.n0 = V(0), c.bv('nfree', 32)      # positions of the abstract queue count from its head
        st.ghost.update(q=s.q0, h=s.h0, n=V(0), mem=s.mem)
        (st, _), = c.run('mk', [Ptr(s.p), s.cap, s.lim, Ptr(s.mem) if s.mem is not None else NULL], st); s.after_ctor = st.copy()
        if pool == 'ready':
            st.ghost['n'] = s.n0; st.assume(z3.ULE(s.n0, s.cap)); c.set(s.p, c.off('p', '_list_populated'), 1, 1, st); st.assume(s.ringok)
            s.inv(st, st.assume)
            s.od, s.fr, s.low = c.bv('overdraws', 32), c.bv('freed', 32), c.bv('low', 32); st.assume(z3.ULE(s.fr, s.od)); st.assume(z3.ULE(s.low, s.n0)); st.assume(z3.ULT(s.od, V(0xFFFFFFFF)))
            for f, v in (('_overdraws', s.od), ('_overdraws_freed', s.fr), ('_low_watermark', s.low)): c.set(s.p, c.off('p', f), 4, v, st)
        c.st = st
    def idx(s, st, p):
        assert p.reg == st.ghost['mem'] and p.c % SZ == 0 and all(k % SZ == 0 for k, _ in p.t)
        return s.c.ex.tidx(Ptr(None, p.c // SZ, tuple((k // SZ, x) for k, x in p.t)))
    def at(s, st, i): return z3.Select(st.ghost['q'], st.ghost['h'] + i)
    def inv(s, st, f):
        """free elements are elements of the pool, no two the same"""
        i, n = s.i, st.ghost['n']; POS = z3.Function('POS', B32, B32)      # ghost inverse: where an element stands
        f(z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(z3.ULT(z3.Select(s.q0, i), s.cap), POS(z3.Select(s.q0, i)) == i)), patterns=[z3.Select(s.q0, i)]))
    def stubs(s):
        R = r'RingBuffer<E\*>::'
        def ins(ex, st, a, i):
            g = st.ghost; x = s.idx(st, a[1]); full = z3.Or(z3.Not(s.ringok), z3.UGE(g['n'], s.cap)); g['q'] = z3.If(full, g['q'], z3.Store(g['q'], g['h'] + g['n'], x)); g['n'] = z3.If(full, g['n'], g['n'] + 1)
            return [(st, z3.If(full, V(0xFFFFFFFF), V(0)))]
        def get(ex, st, a, i):
            e = z3.Or(z3.Not(s.ringok), st.ghost['n'] == 0); out = []; s1 = st.copy(); s1.assume(e)
            if ex.feasible(s1): out.append((s1, NULL))
            s2 = st.copy(); s2.assume(z3.Not(e))
            if ex.feasible(s2):
                x = s.at(s2, V(0)); s2.ghost['h'] = s2.ghost['h'] + 1; s2.ghost['n'] = s2.ghost['n'] - 1; out.append((s2, Ptr(s2.ghost['mem'], 0, ((SZ, x),))))
            return out
        def alc(ex, st, a, i): return [(st, s.ringok)]
        return [(R + r'insert\(E\*\)', ins), (R + r'get\(\)', get), (R + r'allocated\(\)', alc), (R + r'capacity\(\)', lambda ex, st, a, i: [(st, s.cap)]), (R + r'count\(\)', lambda ex, st, a, i: [(st, st.ghost['n'])]), (R + r'~RingBuffer\(\)', lambda ex, st, a, i: [(st, None)])]
    def f(s, st, name, n=4): return s.c.lift(s.c.get(st, s.p, s.c.off('p', name), n), 8 * n)
def loopc(c, s):
    def cands(v):
        i = s.i; return [('listed so far', lambda w: z3.And(w.st.ghost['n'] == w.it, w.st.ghost['h'] == s.h0)), ('in range', lambda w: z3.ULE(w.it, s.cap)), ('in order', lambda w: z3.ForAll([i], z3.Implies(z3.ULT(i, w.it), z3.Select(w.st.ghost['q'], s.h0 + i) == i)))]
    return cands
for kind in ('none', 'given'):
    @contract('first use/' + kind, T)
    def _(c, kind=kind):
        s = S(c, kind); a = s.after_ctor; c.ex.default_loop = LoopPolicy('inv', cands=loopc(c, s))
        c.post(a, 'a new pool has no overdraws and a full water mark', z3.And(s.f(a, '_overdraws') == 0, s.f(a, '_overdraws_freed') == 0, s.f(a, '_low_watermark') == s.cap, s.f(a, '_overdraw_limit') == s.lim, s.f(a, '_list_populated', 1) == 0, s.f(a, '_we_own_the_pool', 1) == 0))
        c.ex.malloc_hook = None
        def after(st):
            p = c.get(st, s.p, c.off('p', '_pool'), 4, PTRTY) if False else c.getp(st, s.p, c.off('p', '_pool'))
            if p.reg is not None: st.ghost['mem'] = p.reg
            return p
        # a pool without memory of its own learns where it is from the allocation
        orig = c.ex.stubs; c.ex.stubs = [(pat, (lambda fn: lambda ex, st, a, i: (after(st), fn(ex, st, a, i))[1])(fn)) for pat, fn in orig]
        for st, r in c.run('alc', [Ptr(s.p)], c.st.copy()):
            p = after(st); oom = bool(st.ghost.get('oom', False)); own = s.f(st, '_we_own_the_pool', 1); pop = s.f(st, '_list_populated', 1)
            c.post(st, 'ready exactly when both list and elements have memory', tobool(r) == z3.And(s.ringok, z3.BoolVal(p.reg is not None)))
            c.post(st, 'listed once ready', z3.And((pop != 0) == tobool(r), z3.Implies(z3.Not(tobool(r)), st.ghost['n'] == 0)))
            c.post(st, 'owns exactly the memory it allocated', (own != 0) == z3.BoolVal(kind == 'none' and p.reg is not None))
            s2 = st.copy(); s2.assume(tobool(r)); k, j = c.bv('k', 32), c.bv('jj', 32)
            if not c.ex.feasible(s2): continue
            c.post(s2, 'every element is free', s2.ghost['n'] == s.cap)
            s3 = s2.copy(); s3.assume(z3.And(z3.ULT(k, s.cap), z3.ULT(j, s.cap), k != j)); c.post(s3, 'free elements are elements of the pool, no two the same', z3.And(z3.ULT(s.at(s3, k), s.cap), s.at(s3, k) != s.at(s3, j)))
            if kind == 'none': c.post(s2, 'the memory holds every element', c.lift(s2.mem[p.reg].size, 32) == SZ * s.cap)
            for st2, r2 in c.run('alc', [Ptr(s.p)], s2.copy()): c.post(st2, 'asking again changes nothing', z3.And(tobool(r2), st2.ghost['n'] == s.cap, st2.ghost['q'] == s2.ghost['q']))
            for st2, r2 in c.run('rm', [Ptr(s.p)], s2.copy()):
                c.post(st2, 'destruction frees exactly the memory it owns', z3.BoolVal(st2.mem[p.reg].alive is (False if kind == 'none' else True)))
        sn = c.st.copy(); sn.assume(s.ringok)
        if kind == 'given':
            for st, r in c.run('take', [Ptr(s.p)], sn):
                if r.reg is not None and r.reg == s.mem: c.post(st, 'the first take lists the pool and gives its first element', z3.And(s.idx(st, r) == 0, st.ghost['n'] == s.cap - 1)); c.sat_cover(st, 'first take from the pool', s.cap > 0)
                else: c.post(st, 'only a pool of no elements gives none', s.cap == 0)
@contract('take and give', T)
def _(c):
    s = S(c, 'ready'); k, j = c.bv('k', 32), c.bv('jj', 32); c.ex.default_loop = LoopPolicy('inv', cands=loopc(c, s))
    fr = lambda st, *but: z3.And([z3.BoolVal(True)] + [s.f(st, f) == v for f, v in (('_overdraws', s.od), ('_overdraws_freed', s.fr), ('_low_watermark', s.low), ('_overdraw_limit', s.lim)) if f not in but])
    for st, r in c.run('take', [Ptr(s.p)], c.st.copy()):
        if r.reg == s.mem:
            c.post(st, 'an element of the pool is given while any is free', z3.And(s.n0 > 0, s.idx(st, r) == z3.Select(s.q0, s.h0), z3.ULT(s.idx(st, r), s.cap))); c.sat_cover(st, 'from the pool', s.n0 > 1)
            c.post(st, 'one fewer is free', st.ghost['n'] == s.n0 - 1); s2 = st.copy(); s2.assume(z3.ULT(k, st.ghost['n'])); c.post(s2, 'the taken element is no longer free', s.at(s2, k) != s.idx(s2, r)); c.post(s2, 'the others stay free', s.at(s2, k) == z3.Select(s.q0, s.h0 + 1 + k))
            c.post(st, 'low water mark', s.f(st, '_low_watermark') == z3.If(z3.ULT(st.ghost['n'], s.low), st.ghost['n'], s.low)); c.post(st, 'frame', fr(st, '_low_watermark'))
        else:
            c.post(st, 'beyond the pool only when nothing is free', s.n0 == 0); out = s.od - s.fr
            if r.reg is None: c.post(st, 'refused exactly at the overdraw limit', z3.UGE(out, s.lim)); c.post(st, 'frame', fr(st)); c.sat_cover(st, 'refused', z3.BoolVal(True))
            else:
                c.post(st, 'overdrawn only below the limit', z3.ULT(out, s.lim)); c.post(st, 'counted', z3.And(s.f(st, '_overdraws') == s.od + 1, fr(st, '_overdraws'))); o = st.mem[r.reg]
                c.post(st, 'a fresh constructed element', z3.And(z3.BoolVal(o.heap and o.alive is True), c.lift(c.ex.load(st, r, Ty('i', 32)), 32) == 0x1111)); c.sat_cover(st, 'overdrawn', z3.BoolVal(True))
                for st2, r2 in c.run('inp', [Ptr(s.p), r], st.copy()): c.post(st2, 'an overdrawn element is not in the pool', z3.Not(tobool(r2)))
                for st2, r2 in c.run('give', [Ptr(s.p), r], st.copy()):
                    c.post(st2, 'an overdrawn element is deleted when given back', z3.And(c.lift(r2, 8) == 0, z3.BoolVal(st2.mem[r.reg].alive is False), s.f(st2, '_overdraws_freed') == s.fr + 1, st2.ghost['n'] == s.n0))
    x = c.bv('given', 32); i = s.i; s0 = c.st.copy(); s0.assume(z3.And(z3.ULT(x, s.cap), z3.ULT(s.n0, s.cap))); s0.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, s.n0), z3.Select(s.q0, i) != x), patterns=[z3.Select(s.q0, i)]))
    e = Ptr(s.mem, 0, ((SZ, x),))
    for st, r in c.run('inp', [Ptr(s.p), e], s0.copy()): c.post(st, 'elements of the pool are recognised', tobool(r))
    for st, r in c.run('give', [Ptr(s.p), e], s0.copy()):
        c.post(st, 'an element of the pool is taken back', z3.And(c.lift(r, 8) == 1, st.ghost['n'] == s.n0 + 1, s.at(st, s.n0) == x)); c.post(st, 'frame', fr(st))
        s2 = st.copy(); s2.assume(z3.And(z3.ULT(k, j), z3.ULT(j, st.ghost['n']))); c.post(s2, 'free elements stay elements of the pool, no two the same', z3.And(z3.ULT(s.at(s2, j), s.cap), s.at(s2, k) != s.at(s2, j)))
    y = c.bv('newlimit', 32)
    for st, r in c.run('slim', [Ptr(s.p), y], c.st.copy()): c.post(st, 'limit is set', z3.And(s.f(st, '_overdraw_limit') == y, fr(st, '_overdraw_limit')))
    for q, v in zip(('g0', 'g1', 'g2', 'g3', 'g4', 'g5'), (s.lim, s.od, s.fr, s.low, s.cap, s.n0)):
        for st, r in c.run(q, [Ptr(s.p)], c.st.copy()): c.post(st, 'accessor ' + q, c.lift(r, 32) == v)
