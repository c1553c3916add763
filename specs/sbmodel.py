"""StringBuilders over their real memory layout: the model shared by the contracts of C09 and C10"""
from spec import *
from core import Pool, Node
from lists import A_II, Sel, forall, split, sg32
T = tu_text('sbdefs.cpp', r'''
#include <stdlib.h>
#include <inttypes.h>
#define private public
#include "StringBuilder.h"
#include <new>
extern "C" { void cat_s(StringBuilder* b, const char* p) { b->concat(p); } void cat_m(StringBuilder* b, char* p) { b->concat(p); } void pre_s(StringBuilder* b, const char* p) { b->prepend(p); } void pre_m(StringBuilder* b, char* p) { b->prepend(p); }
void cat_b(StringBuilder* b, const uint8_t* p, int n) { b->concat(p, n); } void cat_t(StringBuilder* b, bool x) { b->concat(x); } void cat_c(StringBuilder* b, char x) { b->concat(x); } void cat_u(StringBuilder* b, uint8_t x) { b->concat(x); }
void new_0(StringBuilder* b) { new (b) StringBuilder(); } void new_s(StringBuilder* b, const char* p) { new (b) StringBuilder(p); } void new_m(StringBuilder* b, char* p) { new (b) StringBuilder(p); } void new_b(StringBuilder* b, const uint8_t* p, int n) { new (b) StringBuilder(p, n); } void new_u(StringBuilder* b, uint8_t* p, int n) { new (b) StringBuilder(p, n); } }
''' + offs('SB', 'StringBuilder', '_root') + offs('N', 'StrLL', 'next', 'len', 'str'))
SB = 'StringBuilder.cpp'
MX = 1 << 30
I = z3.IntVal
F = lambda nm, *so: z3.Function(nm, *(so or (z3.IntSort(), z3.IntSort())))
def sgn(c, r): return sg32(c.lift(r, 32))

class Chain:
    """an arbitrary string: fragments seq(0..n), prefix lengths S, total L; fi(t) is the fragment holding byte t"""
    def __init__(s, m, k):
        c, st = m.c, m.st; s.m, s.k = m, k; s.n = c.int('fragments%d' % k, st=st); st.assume(z3.And(s.n >= 0, s.n < MX))
        s.seq, s.S = A_II('seq%d' % k), A_II('S%d' % k); s.fi = F('fi%d' % k); i, t = z3.Int('i'), z3.Int('t'); q = Sel(s.seq, i); s.L = Sel(s.S, s.n); n = s.n
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.And(q > 0, Sel(m.alive0, q), z3.Not(m.raw(q)), m.loc(q) == k, m.pos(q) == i, m.LEN0(q) >= 1, m.LEN0(q) < MX, Sel(s.S, i + 1) == Sel(s.S, i) + m.LEN0(q), Sel(s.S, i) + m.LEN0(q) <= s.L, Sel(s.S, i) >= 0)), q))
        st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), m.NX0(q) == z3.If(i + 1 < n, Sel(s.seq, i + 1), 0)), m.NX0(q)))
        st.assume(z3.And(Sel(s.S, 0) == 0, s.L >= 0, s.L < MX, z3.Implies(n > 0, z3.And(Sel(s.seq, 0) > 0, s.L > 0)), z3.Implies(n > 1, z3.And(Sel(s.seq, 1) > 0, s.L > 1)), z3.Implies(n > 0, Sel(s.seq, n - 1) > 0)))
        st.assume(forall(t, z3.Implies(z3.And(t >= 0, t < s.L), z3.And(s.fi(t) >= 0, s.fi(t) < n, Sel(s.S, s.fi(t)) <= t, t < Sel(s.S, s.fi(t)) + m.LEN0(Sel(s.seq, s.fi(t))))), s.fi(t)))
        st.assume(forall([i, t], z3.Implies(z3.And(i >= 0, i < n, t >= Sel(s.S, i), t < Sel(s.S, i) + m.LEN0(q)), s.fi(t) == i), s.fi(t), q))
        c.inputs['length%d' % k] = s.L
    def id(s, i): return Sel(s.seq, i)
    def at(s, i): return z3.If(z3.And(i >= 0, i < s.n), Sel(s.seq, i), I(0))
    def pre(s, i): return Sel(s.S, i)
    def len(s, i): return s.m.LEN0(Sel(s.seq, i))
    def root(s): return Ptr(Node('sb', z3.If(s.n > 0, Sel(s.seq, 0), I(0))))
    def T(s, t): return z3.Select(s.m.M0(s.m.BLK0(Sel(s.seq, s.fi(t)))), t - Sel(s.S, s.fi(t)))      # byte t of the text
    def on(s, x): return z3.And(z3.Not(s.m.raw(x)), s.m.loc(x) == s.k)

class M:
    """two arbitrary StringBuilders (second one optional) that share the heap: every live block is a fragment of one of them or the content of one"""
    def __init__(s, c, two=False, extra=False, null=True):
        s.c = c; s.st = st = c.st; s.oN, s.oL, s.oS = c.off('N', 'next'), c.off('N', 'len'), c.off('N', 'str'); s.hdr = c.sizeof('N'); s.oR = c.off('SB', '_root')
        AM = z3.Const('M0', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))); s.alive0 = z3.Const('alive0', z3.ArraySort(z3.IntSort(), z3.BoolSort())); s.capA = A_II('cap')
        s.raw = F('raw', z3.IntSort(), z3.BoolSort()); s.loc, s.pos, s.own = F('loc'), F('pos'), F('own')
        fl = {s.oN: (('node', 'sb'), A_II('next0')), s.oL: (('i', 32), A_II('len0')), s.oS: (('self',), A_II('blk0')), 'M': (('cont',), AM)}
        st.pools['sb'] = Pool('sb', s.hdr, fl, s.alive0, s.hdr, s.capA, s.raw)
        s.NX0, s.LEN0, s.BLK0, s.M0 = (lambda x: Sel(fl[s.oN][1], x)), (lambda x: Sel(fl[s.oL][1], x)), (lambda x: Sel(fl[s.oS][1], x)), (lambda b: z3.Select(AM, b)); s.cap = lambda b: Sel(s.capA, b)
        x, t = z3.Int('x'), z3.Int('t'); s.ch = {}; A0 = lambda y: z3.Select(s.alive0, y)
        st.assume(z3.And(z3.Not(A0(0)), s.loc(0) == 0, s.own(0) == 0, z3.Not(s.raw(0))))
        st.assume(forall(x, z3.And(s.LEN0(x) >= 0, s.LEN0(x) < (1 << 32)), s.LEN0(x))); st.assume(forall(x, z3.And(s.cap(x) >= 0, s.cap(x) < (1 << 31)), s.cap(x))); st.assume(forall([x, t], z3.And(z3.Select(s.M0(x), t) >= 0, z3.Select(s.M0(x), t) < 256), z3.Select(s.M0(x), t)))
        st.assume(forall(x, z3.Implies(z3.And(A0(x), z3.Not(s.raw(x))), z3.Or(z3.And(s.BLK0(x) == x, s.cap(x) >= s.LEN0(x) + 1), z3.And(s.raw(s.BLK0(x)), s.BLK0(x) > 0, A0(s.BLK0(x)), s.own(s.BLK0(x)) == x, s.BLK0(x) != x, s.cap(s.BLK0(x)) >= s.LEN0(x)))), s.BLK0(x)))
        s.ch[1] = Chain(s, 1)
        if two: s.ch[2] = Chain(s, 2)
        on = lambda y: z3.Or([z3.And(s.loc(y) == k, s.pos(y) >= 0, s.pos(y) < h.n, h.id(s.pos(y)) == y) for k, h in s.ch.items()])
        s.given = c.int('given', st=st) if extra else None
        if extra: st.assume(z3.And(s.given > 0, A0(s.given), s.raw(s.given), s.own(s.given) == 0, s.loc(s.given) == 0))
        st.assume(forall(x, z3.Implies(A0(x), z3.And(x > 0, z3.If(s.raw(x), z3.Or(z3.And(s.own(x) > 0, A0(s.own(x)), z3.Not(s.raw(s.own(x))), on(s.own(x)), s.BLK0(s.own(x)) == x), *([x == s.given] if extra else [])), on(x)))), A0(x)))
        s.h = {k: c.obj('sb%d' % k, c.sizeof('SB')) for k in s.ch}
        for k, h in s.h.items(): c.set(h, s.oR, 4, s.ch[k].root(), st)
        def alloc(ex, st, n, what):
            out = []
            if null:
                s0 = st.copy(); s0.ghost['oom'] = True; out.append((s0, NULL))
            p = ex.pool_alloc(st, 'sb'); y = p.reg.id; st.assume(z3.And(z3.Not(s.raw(y)), s.loc(y) == 0, z3.Not(A0(y)), s.cap(y) == ex.A.lift(n, 32) - s.hdr)); out.append((st, p)); return out
        c.ex.alloc_pool = alloc; c.ex.default_loop = LoopPolicy('inv', cands=lambda v: s.walkers(v)); c.ex.stubs = s.stubs()
    # ---- state access
    def P(s, st): return st.pools['sb'].fields
    def nx(s, st, x): return Sel(s.P(st)[s.oN][1], x)
    def ln(s, st, x): return Sel(s.P(st)[s.oL][1], x)
    def blk(s, st, x): return Sel(s.P(st)[s.oS][1], x)
    def byte(s, st, b, t): return z3.Select(z3.Select(s.P(st)['M'][1], b), t)
    def alive(s, st, x): return z3.Select(st.pools['sb'].alive, x)
    def nid(s, p): return I(0) if p.reg is None else p.reg.id
    def root(s, st, k=1): return s.nid(s.c.getp(st, s.h[k], s.oR))
    # ---- loops over a chain
    def walkers(s, v):
        l = []
        for k, h in s.ch.items():
            b = lambda w, h=h: s.p0 if s.p0c == k_(h) else I(0)
            l.append(('it <= n%d' % k, lambda w, h=h, b=b: z3.And(w.it >= 0, b(w) + w.it <= h.n)))
            for nm, ty in v.tys.items():
                if ty.k == 'ptr':
                    for d in (0, 1, -1): l.append(('%s = fragment(it%+d) of %d' % (nm, d, k), lambda w, nm=nm, d=d, h=h, b=b: s.nid(w.ph[nm]) == h.at(b(w) + w.it + d)))
                if ty.k == 'i' and ty.n == 32:
                    l.append(('%s = length of the first it of %d' % (nm, k), lambda w, nm=nm, h=h, b=b: s.c.lift(w.ph[nm], 32) == h.pre(b(w) + w.it) - h.pre(b(w))))
                    l.append(('%s = entry value less the length of the first it of %d' % (nm, k), lambda w, nm=nm, h=h, b=b: z3.And(sg32(s.c.lift(w.ph[nm], 32)) >= 0, sg32(s.c.lift(w.ph[nm], 32)) == sg32(s.c.lift(w.ph0[nm], 32)) - (h.pre(b(w) + w.it) - h.pre(b(w))))))
            for key in v.mod:
                if key[0] == 'cell' and v.mod[key][0] == 4 and not isinstance(v.st.mem[key[1]].cells[key[2]][1], Ptr):
                    g = lambda st, key=key: sg32(s.c.lift(st.mem[key[1]].cells[key[2]][1], 32))
                    l.append(('variable %s = entry value less the length of the first it of %d' % (v.st.mem[key[1]].name, k), lambda w, g=g, h=h, b=b: z3.And(g(w.st) >= 0, g(w.st) == g(w.st0) - (h.pre(b(w) + w.it) - h.pre(b(w))))))
        l += [('%s is not null' % nm, lambda w, nm=nm: s.nid(w.ph[nm]) != 0) for nm, ty in v.tys.items() if ty.k == 'ptr']
        for f in s.more: l += f(v)
        return l
    p0 = I(0); p0c = 0; more = ()
    def cursors(s, v, h, start, stop=None, strict=False):
        """pointer and offset variables that stand at byte start+r of the text, r being the iteration or another counter"""
        l = []; cells = {'variable %s+%d' % (v.st.mem[k[1]].name, k[2]): k[1:] for k in v.mod if k[0] == 'cell' and v.mod[k][0] == 4 and not isinstance(v.st.mem[k[1]].cells[k[2]][1], Ptr)}; ints = [nm for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32] + list(cells)
        val = lambda w, nm: s.c.lift(w.st.mem[cells[nm][0]].cells[cells[nm][1]][1], 32) if nm in cells else s.c.lift(w.ph[nm], 32)
        rs = [('it', lambda w: w.it)] + [(nm, lambda w, nm=nm: val(w, nm)) for nm in ints]
        for rn, r in rs:
            t = lambda w, r=r: start + r(w); live = lambda w, r=r: (r(w) < stop) if stop is not None else z3.BoolVal(True)
            if rn != 'it': l.append(('%s within bounds' % rn, lambda w, r=r: z3.And(r(w) >= 0, r(w) <= stop if stop is not None else r(w) < MX)))
            for nm, ty in v.tys.items():
                if ty.k == 'ptr': l.append(('%s holds byte %s' % (nm, rn), lambda w, nm=nm, t=t, live=live: z3.Implies(live(w), s.nid(w.ph[nm]) == z3.If(t(w) < h.L, h.id(h.fi(t(w))), 0))))
            for nm in ints:
                if nm != rn: l.append(('%s is the offset of byte %s in its fragment' % (nm, rn), lambda w, nm=nm, t=t, live=live: z3.Implies(live(w), val(w, nm) == z3.If(t(w) < h.L, t(w) - h.pre(h.fi(t(w))), 0))))
        return l, rs
    def others_keep(s, v, D):
        b = z3.Int('b'); return [('no other block is written', lambda w: forall(b, z3.Implies(b != D, z3.Select(s.P(w.st)['M'][1], b) == z3.Select(s.P(w.st0)['M'][1], b)), z3.Select(s.P(w.st)['M'][1], b)))]
    # ---- contracts of the private functions
    def sure(s, st, g): return s.c.ex._check(list(st.pc) + [z3.Not(g)], 5000)[0] == z3.unsat
    def where(s, st, x):
        """the chain a fragment belongs to"""
        for k, h in s.ch.items():
            if s.sure(st, z3.And(s.alive(st, x), h.on(x))): return h, s.pos(x)
        return None, None
    def prove_suffix(s, st, h, p, what):
        """from position p on, the chain is still linked as it was"""
        i = z3.Int(s.c.ex.uniq('ci')); s2 = st.copy(); s2.assume(z3.And(i >= p, i < h.n)); q = h.id(i)
        s.c.ex.prove(s2, z3.And(s.alive(s2, q), s.nx(s2, q) == s.NX0(q), s.ln(s2, q) == s.LEN0(q), s.blk(s2, q) == s.BLK0(q), z3.Implies(s.BLK0(q) != q, s.alive(s2, s.BLK0(q)))), what + ': the chain is intact from there on')
    rec = None      # while the function itself is proved: (position, chain); recursion only to later positions
    def enter(s, st, x, what):
        h, p = s.where(st, x)
        if h is None: return None, None
        if s.rec is not None: s.c.ex.prove(st, z3.And(p > s.rec, p < h.n, h.id(p) == x), what + ': recursion proceeds along the chain')
        else: s.c.ex.prove(st, z3.And(p >= 0, p < h.n, h.id(p) == x), what + ': a fragment of the chain')
        s.prove_suffix(st, h, p, what); return h, p
    def same_bytes(s, st, h, p, what):
        i, t = z3.Int(s.c.ex.uniq('ci')), z3.Int(s.c.ex.uniq('ct')); s2 = st.copy(); s2.assume(z3.And(i >= p, i < h.n, t >= 0, t < h.len(i))); b = s.BLK0(h.id(i))
        s.c.ex.prove(s2, s.byte(s2, b, t) == z3.Select(s.M0(b), t), what + ': the content is intact from there on')
    def dead(s, h, p, y): return z3.If(s.raw(y), z3.And(s.loc(s.own(y)) == h.k, s.pos(s.own(y)) >= p), z3.And(s.loc(y) == h.k, s.pos(y) >= p))
    def release(s, st, h, p):
        """effect of releasing the chain from position p on"""
        P = st.pools['sb'].copy(); A = P.alive; u = s.c.ex.uniq; A2 = z3.Const(u('alive'), A.sort()); y = z3.Int('y'); P.alive = A2
        st.assume(z3.ForAll([y], z3.Select(A2, y) == z3.And(z3.Select(A, y), z3.Not(s.dead(h, p, y))), patterns=[z3.Select(A2, y)]))
        k, nx = P.fields[s.oN]; nx2 = A_II(u('next')); P.fields[s.oN] = (k, nx2); st.assume(z3.ForAll([y], z3.Implies(z3.Not(z3.And(z3.Select(A, y), s.dead(h, p, y))), Sel(nx2, y) == Sel(nx, y)), patterns=[Sel(nx2, y)])); st.pools['sb'] = P
    def clear_root(s, st, this, x):
        r = s.c.ex.load(st, Ptr(this.reg, s.oR), PTRTY); r = s.nid(r); s.c.ex.store(st, Ptr(this.reg, s.oR), Ptr(Node('sb', z3.If(r == x, I(0), r))), PTRTY)
    def stubs(s):
        ex = s.c.ex
        def total(ex, st, a, ins):
            h, p = s.enter(st, s.nid(a[1]), 'total length')
            return None if h is None else [(st, h.L - h.pre(p))]
        def get(ex, st, a, ins):
            h, p = s.enter(st, s.nid(a[1]), 'fragment of offset')
            if h is None: return None
            o = sg32(ex.A.lift(ex.load(st, a[2], Ty('i', 32)), 32)); t = h.pre(p) + o; hit = z3.And(o >= 0, t < h.L); s1, s0 = split(s.c, st, hit); out = []
            if s1 is not None: ex.store(s1, a[2], t - h.pre(h.fi(t)), Ty('i', 32)); out.append((s1, Ptr(Node('sb', h.id(h.fi(t))))))
            if s0 is not None: ex.store(s0, a[2], (1 << 32) - 1, Ty('i', 32)); out.append((s0, NULL))
            return out
        def stack(ex, st, a, ins):
            h, p = s.enter(st, s.nid(a[1]), 'append')
            if h is None: return None
            ex.store(st, Ptr(Node('sb', h.id(h.n - 1)), s.oN), a[2], PTRTY); return [(st, a[1])]
        def destroy(ex, st, a, ins):
            x = s.nid(a[1])
            if s.rec is None and s.sure(st, z3.Or(x == 0, s.nx(st, x) == 0)): st.assume(z3.Or(x == 0, s.nx(st, x) == 0)); return None      # a single fragment: the body itself
            h, p = s.enter(st, x, 'release')
            if h is None: return None
            s.release(st, h, p); s.clear_root(st, a[0], x); return [(st, None)]
        def deepcopy(ex, st, a, ins):
            if s.nid(a[1]) is None: return None
            h, p = s.enter(st, s.nid(a[1]), 'copy')
            if h is None: return None
            s.same_bytes(st, h, p, 'copy'); d = s.nid(a[2]); n, off = sg32(ex.A.lift(a[3], 32)), sg32(ex.A.lift(a[4], 32)); t0 = h.pre(p) + off
            ex.prove(st, z3.And(s.loc(d) == 0, z3.Not(s.raw(d)), s.alive(st, d), s.blk(st, d) == d, s.ln(st, d) < MX, s.cap(d) >= s.ln(st, d) + 1, s.ln(st, d) >= n, n > 0, off >= 0, off < h.len(p)), 'copy: into a new fragment that is large enough, from inside the first one')
            r = z3.If(n < h.L - t0, n, h.L - t0); old = z3.Select(s.P(st)['M'][1], d); new = z3.Array(ex.uniq('copied'), z3.IntSort(), z3.IntSort()); j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= 0, j < r), h.T(t0 + j), z3.Select(old, j)), patterns=[z3.Select(new, j)])); ex.set_block(st, Ptr(Node('sb', d), s.hdr), new); return [(st, r)]
        def collapse(ex, st, a, ins):
            h = next((h for k, h in s.ch.items() if s.h[k] == a[0].reg), None)
            if h is None: return None
            ex.prove(st, s.root(st, h.k) == z3.If(h.n > 0, h.id(I(0)), 0), 'flatten: the whole chain'); s.prove_suffix(st, h, I(0), 'flatten'); s.same_bytes(st, h, I(0), 'flatten'); out = []
            s1, s0 = split(s.c, st, h.n >= 2)
            if s0 is not None: out.append((s0, 0))
            if s1 is not None:
                for st, p in ex.malloc(s1, h.L + s.hdr + 1, 'flatten'):
                    if p.reg is None: out.append((st, 255)); continue
                    d = p.reg.id; P = st.pools['sb'].copy(); put = lambda o, v: P.fields.__setitem__(o, (P.fields[o][0], z3.Store(P.fields[o][1], d, v))); put(s.oN, I(0)); put(s.oL, h.L); put(s.oS, d)
                    new = z3.Array(ex.uniq('flat'), z3.IntSort(), z3.IntSort()); j = z3.Int('j'); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < h.L), z3.Select(new, j) == h.T(j)), patterns=[z3.Select(new, j)])); st.assume(z3.Select(new, h.L) == 0); put('M', new)
                    st.pools['sb'] = P; s.release(st, h, I(0)); ex.store(st, Ptr(a[0].reg, s.oR), p, PTRTY); out.append((st, 0))
            return out
        return [(r'StringBuilder::_deepcopy_ll_bytes\(str_ll_t\*, str_ll_t\*, int, int\)', deepcopy), (r'StringBuilder::_collapse\(\)', collapse), (r'StringBuilder::_total_str_len\(str_ll_t\*\)', total), (r'StringBuilder::_get_ll_containing_offset\(str_ll_t\*, int\*\)', get), (r'StringBuilder::_stack_str_onto_list\(str_ll_t\*, str_ll_t\*\)', stack), (r'StringBuilder::_destroy_str_ll\(str_ll_t\*\)', destroy)]
    # ---- result states
    def same_blocks(s, st, what, but=None):
        """every original fragment keeps its length, block and content"""
        c = s.c; x, t = z3.Int('wx'), z3.Int('wt'); s2 = st.copy(); s2.assume(z3.And(z3.Select(s.alive0, x), s.alive(s2, x))); nb = z3.Not(but(x)) if but else z3.BoolVal(True)
        c.post(s2, what + ': other fragments keep length and block', z3.Implies(z3.And(z3.Not(s.raw(x)), nb), z3.And(s.ln(s2, x) == s.LEN0(x), s.blk(s2, x) == s.BLK0(x))))
        b = s.BLK0(x); s2 = st.copy(); s2.assume(z3.And(z3.Select(s.alive0, x), s.alive(s2, x), z3.Not(s.raw(x)), nb, t >= 0, t < s.LEN0(x))); c.post(s2, what + ': content of other fragments', s.byte(s2, b, t) == z3.Select(s.M0(b), t))
    def chain_is(s, st, k, n, seqf, what):
        """builder k now consists of exactly the fragments seqf(0..n), each of them live"""
        c = s.c; i = z3.Int('wi'); c.post(st, what + ': first fragment', s.root(st, k) == z3.If(n > 0, seqf(I(0)), 0)); s2 = st.copy(); s2.assume(z3.And(i >= 0, i < n)); q = seqf(i)
        c.post(s2, what + ': links', z3.And(q > 0, s.alive(s2, q), s.nx(s2, q) == z3.If(i + 1 < n, seqf(i + 1), 0)))
        c.post(s2, what + ': the content of each is live', z3.And(s.alive(s2, s.blk(s2, q)), z3.Or(s.blk(s2, q) == q, s.raw(s.blk(s2, q))), s.cap(s.blk(s2, q)) >= s.ln(s2, q) + z3.If(s.blk(s2, q) == q, 1, 0), s.ln(s2, q) >= 1))
    def no_leak(s, st, on, what):
        """every live block is a fragment that on() places in a builder, or the content of one"""
        x = z3.Int('wx'); s2 = st.copy(); s2.assume(s.alive(s2, x)); s.c.post(s2, what + ': nothing is leaked', z3.If(s.raw(x), z3.And(on(s.own(x)), s.blk(s2, s.own(x)) == x), on(x)))
    def kept(s, st, k, what):
        h = s.ch[k]; s.chain_is(st, k, h.n, h.id, what)
def k_(h): return h.k
def unchanged(m, st, what):
    for k in m.ch: m.kept(st, k, what + (' (builder %d)' % k if len(m.ch) > 1 else ''))
    m.same_blocks(st, what); m.no_leak(st, lambda x: z3.Or([h.on(x) for h in m.ch.values()]), what)


P_ = lambda fn: r'StringBuilder::' + fn
NODE = r'str_ll_t\*'
def at_position(c, m):
    h = m.ch[1]; p = c.int('position', st=m.st); m.st.assume(z3.And(p >= 0, p < h.n, h.id(p) > 0)); m.rec = p; m.p0, m.p0c = p, 1; return h, p, Ptr(Node('sb', h.id(p)))
def fresh(m, st): return st.ghost['newnodes'][-1][1]
def oom(st): return 'oom' in st.ghost
def buffer(c, m, nm='buf'):
    n = c.int(nm + '_len', 32, st=m.st); b = c.obj(nm, n, st=m.st); m.st.assume(n < MX); c.ex.to_arr(m.st, b); return b, n, m.st.mem[b].arr
def new_fragment(m, st, d, n, f, what, nxt=None):
    """a fragment of its own block, holding f(0..n) and a terminator"""
    c = m.c; t = z3.Int('wt'); c.post(st, what + ': a live fragment of its own', z3.And(d > 0, m.alive(st, d), m.ln(st, d) == n, m.blk(st, d) == d, m.cap(d) >= n + 1)); s2 = st.copy(); s2.assume(z3.And(t >= 0, t < n))
    if f is not None: c.post(s2, what + ': its content', m.byte(s2, d, t) == f(t))
    c.post(st, what + ': terminated', m.byte(st, d, n) == 0)
    if nxt is not None: c.post(st, what + ': its successor', m.nx(st, d) == nxt)
def everything(m, *more): return lambda x: z3.Or([h.on(x) for h in m.ch.values()] + [x == y for y in more])

def flat(m, st, k, d, what):
    h = m.ch[k]; new_fragment(m, st, d, h.L, h.T, what, I(0)); m.c.post(st, what + ': it is the whole builder', m.root(st, k) == d)
    m.no_leak(st, lambda x: z3.Or([g.on(x) for g in m.ch.values() if g is not h] + [x == d]), what); m.same_blocks(st, what)
R = lambda c, r, n=32: c.lift(r, n)
def appended(m, st, g, what, keep2=True):
    """builder 1 = its fragments, then g(0..k) ; g: (count, seq)"""
    h = m.ch[1]; k, f = g; m.chain_is(st, 1, h.n + k, lambda i: z3.If(i < h.n, h.id(i), f(i - h.n)), what)
def add_one(c, m, s2, n, f, front, what, legal=True):
    h = m.ch[1]
    if 'newnodes' not in s2.ghost: c.post(s2, what + ': nothing only for no bytes or no memory', z3.Or(n == 0, z3.BoolVal(oom(s2)))); unchanged(m, s2, what + ' refused'); return
    d = fresh(m, s2); c.post(s2, what + ': there is something to add', n > 0); new_fragment(m, s2, d, n, f, what)
    if front: m.chain_is(s2, 1, h.n + 1, lambda i: z3.If(i == 0, d, h.id(i - 1)), what)
    else: appended(m, s2, (1, lambda i: d), what)
    m.same_blocks(s2, what); m.no_leak(s2, everything(m, d), what)
def one_from(m, st, k, n, f, what):
    """one new fragment is appended to builder 1, builder 2 keeps its own"""
    d = fresh(m, st); new_fragment(m, st, d, n, f, what); appended(m, st, (1, lambda i: d), what); m.same_blocks(st, what); m.no_leak(st, everything(m, d), what)
    if 2 in m.ch: m.kept(st, 2, what + ' (source)')
def split_n(c, st, conds):
    out = []
    for k in conds:
        s = st.copy(); s.assume(k); out.append(s if c.ex.feasible(s) else None)
    return out
def to_case(c, lo):
    def f(ex, st, a, ins):
        x = ex.A.lift(a[0], 32); return [(st, z3.If(z3.And(x >= (65 if lo else 97), x <= (90 if lo else 122)), x + (32 if lo else -32), x))]
    return f
