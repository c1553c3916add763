from lists import *
HARNESS = dict(src='C02.cpp', lib=[], leaks=True)
PROVED = 'every LinkedList operation on lists of every length and content: order, values, return values, links, and that every node is live exactly while it is on the list (no leak, no double free, no use after free), including when allocation fails.'
BOUNDED = 'native replay: random operation histories against a deque, with allocation failures injected'
ASSUMPTIONS = ['the list is instantiated with pointers and holds no null payload (the API uses null to say "none")', 'fewer than 2^30 elements', 'payloads are never dereferenced: pointer types other than void* behave alike']
T = tu_text('list.cpp', r'''
#include <stdlib.h>
#include <inttypes.h>
#include <stdint.h>
#include <new>
#define private public
#include "LightLinkedList.h"
typedef LinkedList<void*> L; typedef Node<void*> N;
''' + offs('L', 'L', 'root', 'element_count') + offs('N', 'N', 'next', 'data') + r'''
extern "C" { void l_new(L* p) { new (p) L(); } void l_del(L* p) { p->~LinkedList(); } int l_ins(L* p, void* v) { return p->insert(v); } int l_insh(L* p, void* v) { return p->insertAtHead(v); } int l_size(L* p) { return p->size(); }
void* l_rem(L* p) { return p->remove(); } bool l_remv(L* p, void* v) { return p->remove(v); } void* l_remi(L* p, int i) { return p->remove(i); } int l_clear(L* p) { return p->clear(); } void* l_get(L* p) { return p->get(); } void* l_geti(L* p, int i) { return p->get(i); }
bool l_next(L* p) { return p->hasNext(); } bool l_has(L* p, void* v) { return p->contains(v); } }
''')
LL = ListObj
@contract('insert', T, mode='int')
def _(c):
    L = LL(c); ch = L.ch
    for st, r in c.run('l_ins', [Ptr(L.h), L.V], L.st.copy()):
        if st.ghost.get('oom'): c.post(st, 'a failed allocation is reported', c.lift(r, 32) == 0xFFFFFFFF); L.same(st, 'failed insert'); continue
        new = st.ghost['newnodes'][-1][1]
        c.post(st, 'success is not negative', c.lift(r, 32) < (1 << 31))
        L.check(st, L.n + 1, lambda i: z3.If(i < L.n, Sel(ch.seq, i), new), lambda x: z3.If(x == new, L.n, Sel(ch.pos, x)), lambda i: z3.If(i < L.n, L.datum(i), L.v), 'insert')
@contract('insertAtHead', T, mode='int')
def _(c):
    L = LL(c); ch = L.ch
    for st, r in c.run('l_insh', [Ptr(L.h), L.V], L.st.copy()):
        if st.ghost.get('oom'): c.post(st, 'a failed allocation is reported', c.lift(r, 32) == 0xFFFFFFFF); L.same(st, 'failed insert'); continue
        new = st.ghost['newnodes'][-1][1]; c.post(st, 'the position is 0', c.lift(r, 32) == 0)
        L.check(st, L.n + 1, lambda i: z3.If(i == 0, new, Sel(ch.seq, i - 1)), lambda x: z3.If(x == new, 0, Sel(ch.pos, x) + 1), lambda i: z3.If(i == 0, L.v, L.datum(i - 1)), 'insertAtHead')
@contract('remove first', T, mode='int')
def _(c):
    L = LL(c)
    for st, r in c.run('l_rem', [Ptr(L.h)], L.st.copy()):
        a, b = split(c, st, L.n > 0)
        if a: c.post(a, 'returns the first payload', L.ret(r) == L.datum(z3.IntVal(0))); L.without(a, z3.IntVal(0), 'remove first')
        if b: c.post(b, 'nothing to remove', L.ret(r) == 0); L.same(b, 'remove from empty')
@contract('remove at position', T, mode='int')
def _(c):
    L = LL(c); p = c.int('pos', 32, st=L.st)
    for st, r in c.run('l_remi', [Ptr(L.h), p], L.st.copy()):
        a, b = split(c, st, p < L.n)
        if a: c.post(a, 'returns that payload', L.ret(r) == L.datum(p)); L.without(a, p, 'remove at')
        if b: c.post(b, 'no such position', L.ret(r) == 0); L.same(b, 'remove past the end')
@contract('reading', T, mode='int')
def _(c):
    L = LL(c); p = c.int('pos', 32, st=L.st); q = z3.Int('q')
    for st, r in c.run('l_get', [Ptr(L.h)], L.st.copy()): c.post(st, 'get returns the first payload or null', L.ret(r) == z3.If(L.n > 0, L.datum(z3.IntVal(0)), 0)); L.same(st, 'get')
    for st, r in c.run('l_geti', [Ptr(L.h), p], L.st.copy()): c.post(st, 'get(position) returns that payload or null', L.ret(r) == z3.If(p < L.n, L.datum(p), 0)); L.same(st, 'get at')
    for st, r in c.run('l_size', [Ptr(L.h)], L.st.copy()): c.post(st, 'size() is the number of elements', c.lift(r, 32) == L.n); L.same(st, 'size')
    for st, r in c.run('l_next', [Ptr(L.h)], L.st.copy()): c.post(st, 'hasNext() iff not empty', tobool(r) == (L.n > 0)); L.same(st, 'hasNext')
@contract('contains', T, mode='int')
def _(c):
    L = LL(c); q = z3.Int('q'); M = z3.Function('M', z3.IntSort(), z3.BoolSort())
    L.st.assume(forall(q, M(q) == (L.datum(q) == L.v), M(q))); L.st.assume(forall(q, M(q) == (L.datum(q) == L.v), Sel(L.ch.seq, q)))
    c.ex.default_loop = LoopPolicy('inv', cands=lambda v0: L.cands(v0) + [('no match so far', lambda w: forall(q, z3.Implies(z3.And(q >= 0, q < w.it), z3.Not(M(q))), M(q)))])
    for st, r in c.run('l_has', [Ptr(L.h), L.V], L.st.copy()):
        L.same(st, 'contains'); y = z3.Int('y')
        s2 = st.copy(); s2.assume(z3.And(y >= 0, y < L.n, M(y))); c.post(s2, 'true when some payload matches', tobool(r))
        s2 = st.copy(); s2.assume(tobool(r)); c.post(s2, 'false when none matches', z3.Exists([q], z3.And(q >= 0, q < L.n, M(q))))

@contract('remove value', T, mode='int')
def _(c): remove_value(c, LL(c), 'l_remv')
for op in ('clear', 'del'):
    @contract({'clear': 'clear', 'del': 'destructor'}[op], T, mode='int')
    def _(c, op=op): release_all(c, LL(c), 'l_' + op, op == 'clear')
