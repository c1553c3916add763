from spec import *
HARNESS = dict(src='C05.cpp', lib=[])
PROVED = 'every operation of the four flag containers for every value and mask.'
BOUNDED = 'native replay: 8-bit exhaustive, wider sampled'
ASSUMPTIONS = []
OPS = 'all_set value flip clear set'.split()
T = tu_text('flags.cpp', '#include "FlagContainer.h"\n#include <new>\nextern "C" {' + ''.join('''
bool all%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { return p->all_set(f); } bool val%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { return p->value(f); }
void flip%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { p->flip(f); } void clr%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { p->clear(f); } void set%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { p->set(f); }
void setx%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f, bool x) { p->set(f, x); } void new%(n)d(FlagContainer%(n)d* p, uint%(n)d_t f) { new (p) FlagContainer%(n)d(f); } void newd%(n)d(FlagContainer%(n)d* p) { new (p) FlagContainer%(n)d(); }
uint%(n)d_t raw%(n)d(FlagContainer%(n)d* p) { return p->raw; }''' % dict(n=n) for n in (8, 16, 32, 64)) + '}')
for n in (8, 16, 32, 64):
    @contract('FlagContainer%d' % n, T)
    def _(c, n=n):
        h = c.obj('f', n // 8); v, f, x = c.bv('raw', n), c.bv('flag', n), c.bv('x', 1)
        (s0, _), = c.run('new%d' % n, [Ptr(h), v])
        def raw(st):
            (s, r), = c.run('raw%d' % n, [Ptr(h)], st.copy()); return c.lift(r, n)
        c.post(s0, 'construction keeps the reset value', raw(s0) == v)
        for st, r in c.run('all%d' % n, [Ptr(h), f], s0.copy()): c.post(st, 'all_set: every bit of the mask', tobool(r) == (v & f == f)); c.post(st, 'all_set frame', raw(st) == v)
        for st, r in c.run('val%d' % n, [Ptr(h), f], s0.copy()): c.post(st, 'value: any bit of the mask', tobool(r) == (v & f != 0)); c.post(st, 'value frame', raw(st) == v)
        for st, r in c.run('flip%d' % n, [Ptr(h), f], s0.copy()): c.post(st, 'flip inverts exactly the mask', raw(st) == v ^ f)
        for st, r in c.run('clr%d' % n, [Ptr(h), f], s0.copy()): c.post(st, 'clear clears exactly the mask', raw(st) == v & ~f)
        for st, r in c.run('set%d' % n, [Ptr(h), f], s0.copy()): c.post(st, 'set sets exactly the mask', raw(st) == v | f)
        for st, r in c.run('setx%d' % n, [Ptr(h), f, x], s0.copy()): c.post(st, 'set(mask, x)', raw(st) == z3.If(x, v | f, v & ~f))
        (s1, _), = c.run('newd%d' % n, [Ptr(h)], c.st.copy()); c.post(s1, 'the default is all clear', raw(s1) == 0)
