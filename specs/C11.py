from spec import *
HARNESS = dict(src='C11.cpp', lib=['StringBuilder.cpp', 'AbstractPlatform.cpp', 'CppPotpourri.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp'])
PROVED = 'every route operation of StateMachine<T> and its advance, reset and lock-out, over routes of every length and content, every capacity, every state code and every clock.'
BOUNDED = 'native replay: random operation sequences against a queue model, with the real ring buffer, enum list and clock'
ASSUMPTIONS = ['the waypoint ring behaves as a bounded FIFO (C01) and its memory can be allocated', 'enumValid() is a fixed predicate on state codes (C24)', 'the extending class does not change the route while it decides on a state entry (it may set the lock-out)', 'the argument list of a route call is as long as its count says; the stack holds a copy of it', 'one instantiation (8-bit enumeration) stands for the template']
T = tu_text('fsm.cpp', '''#include <new>
#define protected public
#define private public
#include "FiniteStateMachine.h"
#undef private
#undef protected
enum class E8 : uint8_t { A = 0 };
extern "C" int enter(uint8_t);
struct M : public StateMachine<E8> { M(const EnumDefList<E8>* d, E8 i, unsigned n) : StateMachine<E8>("fsm", d, i, n) {} int8_t _fsm_poll() { return 0; } int8_t _fsm_set_position(E8 e) { return (int8_t) enter((uint8_t) e); } };
''' + offs('m', 'M', '_ENUM_DEFS', '_lockout_timer', '_slowdown_ms', '_waypoints', '_current_state', '_prior_state') + offs('t', 'MillisTimeout', '_mark', '_period') + '''
int8_t (M::*keep1)(int, ...) = &M::_fsm_set_route; int8_t (M::*keep2)(int, ...) = &M::_fsm_append_route;
extern "C" { void mk(M* m, const EnumDefList<E8>* d, uint8_t i, unsigned n) { new (m) M(d, (E8) i, n); } int8_t app(M* m, uint8_t x) { return m->_fsm_append_state((E8) x); } int8_t pre(M* m, uint8_t x) { return m->_fsm_prepend_state((E8) x); }
int8_t adv(M* m) { return m->_fsm_advance(); } void rst(M* m, uint8_t x) { m->_fsm_reset((E8) x); } void mark(M* m, uint8_t x) { m->_fsm_mark_current_state((E8) x); } bool planned(M* m, uint8_t x) { return m->_fsm_state_planned((E8) x); } uint8_t nextp(M* m) { return (uint8_t) m->_fsm_pos_next(); } bool isnext(M* m, uint8_t x) { return m->_fsm_is_next_pos((E8) x); } bool stable(M* m) { return m->_fsm_is_stable(); }
void lockout(M* m, uint32_t x) { m->_fsm_lockout(x); } bool waiting(M* m) { return m->_fsm_is_waiting(); } void slow(M* m, uint32_t x) { m->_fsm_slowdown(x); } uint32_t gslow(M* m) { return m->_fsm_slowdown(); } uint8_t cur(M* m) { return (uint8_t) m->currentState(); } uint8_t prior(M* m) { return (uint8_t) m->priorState(); } }
''')
AP = 'AbstractPlatform.cpp'
W8, W32 = z3.BitVecSort(8), z3.BitVecSort(32)
VALID = z3.Function('VALID', W8, z3.BoolSort())
def clock(ex, st, args, ins):
    t = z3.BitVec(ex.uniq('now'), 32); rd = st.ghost.get('reads', ())
    if rd: st.assume(z3.ULE(rd[-1] - rd[0], t - rd[0]))
    st.ghost['reads'] = rd + (t,); return [(st, t)]
class S:
    """a state machine in an arbitrary state; the waypoint ring is a ghost queue q[h], ..., q[h+n-1]"""
    def __init__(s, c):
        s.c = c; st = c.st; s.cap = c.bv('capacity', 32); st.assume(s.cap < 0x7FFFFFFF); st.assume(s.cap >= 0); s.q0 = z3.Array('route', W32, W8); s.h0 = c.bv('head', 32); s.n0 = c.bv('length', 32); st.assume(z3.ULE(s.n0, s.cap))
        s.m = c.obj('fsm', c.sizeof('m')); s.d = c.obj('defs', 12, ro=True); c.ex.stubs = s.stubs()
        (st, _), = c.run('mk', [Ptr(s.m), Ptr(s.d), c.bv('initial', 8), s.cap], st)
        s.after_ctor = st.copy(); st.ghost.update(q=s.q0, h=s.h0, n=s.n0, reads=())
        s.tm = c.off('m', '_lockout_timer'); s.om, s.op = s.tm + c.off('t', '_mark'), s.tm + c.off('t', '_period'); s.oc, s.opr, s.os = c.off('m', '_current_state'), c.off('m', '_prior_state'), c.off('m', '_slowdown_ms')
        s.cur, s.prior, s.slow, s.mark, s.per = c.bv('current', 8), c.bv('prior', 8), c.bv('slowdown', 32), c.bv('mark', 32), c.bv('period', 32)
        for o, n, v in ((s.oc, 1, s.cur), (s.opr, 1, s.prior), (s.os, 4, s.slow), (s.om, 4, s.mark), (s.op, 4, s.per)): c.set(s.m, o, n, v, st)
        c.st = st
    def stubs(s):
        R = r'RingBuffer<unsigned char>::'
        def ins(ex, st, a, i):
            full = z3.UGE(st.ghost['n'], s.cap); g = st.ghost; v = s.c.lift(a[1], 8)
            g['q'] = z3.If(full, g['q'], z3.Store(g['q'], g['h'] + g['n'], v)); g['n'] = z3.If(full, g['n'], g['n'] + 1); return [(st, z3.If(full, z3.BitVecVal(0xFFFFFFFF, 32), z3.BitVecVal(0, 32)))]
        front = lambda st: z3.If(st.ghost['n'] == 0, z3.BitVecVal(0, 8), z3.Select(st.ghost['q'], st.ghost['h']))
        def get(ex, st, a, i):
            r = front(st); e = st.ghost['n'] == 0; st.ghost['h'] = z3.If(e, st.ghost['h'], st.ghost['h'] + 1); st.ghost['n'] = z3.If(e, st.ghost['n'], st.ghost['n'] - 1); return [(st, r)]
        def clear(ex, st, a, i): st.ghost['n'] = z3.BitVecVal(0, 32); return [(st, None)]
        def contains(ex, st, a, i):
            j = z3.BitVec('jm', 32); st.ghost['asked'] = s.c.lift(a[1], 8); g = st.ghost; return [(st, z3.Exists([j], z3.And(z3.ULT(j, g['n']), z3.Select(g['q'], g['h'] + j) == st.ghost['asked'])))]
        def enter(ex, st, a, i):
            c = s.c; st.ghost['entered'] = c.lift(a[0], 8); r = z3.BitVec(ex.uniq('decision'), 32); st.ghost['decision'] = z3.Extract(7, 0, r); st.ghost['calls'] = st.ghost.get('calls', 0) + 1
            p, m = z3.BitVec(ex.uniq('period'), 32), z3.BitVec(ex.uniq('mark'), 32); c.set(s.m, s.op, 4, p, st); c.set(s.m, s.om, 4, m, st); st.ghost['pm'] = (p, m); st.ghost['reads'] = (); return [(st, r)]
        return [(R + r'insert\(unsigned char\)', ins), (R + r'get\(\)', get), (R + r'peek\(\)', lambda ex, st, a, i: [(st, front(st))]), (R + r'clear\(\)', clear), (R + r'contains\(unsigned char\)', contains), (R + r'capacity\(\)', lambda ex, st, a, i: [(st, s.cap)]),
            (R + r'count\(\)', lambda ex, st, a, i: [(st, st.ghost['n'])]), (R + r'vacancy\(\)', lambda ex, st, a, i: [(st, s.cap - st.ghost['n'])]), (R + r'isEmpty\(\)', lambda ex, st, a, i: [(st, st.ghost['n'] == 0)]), (r'EnumDefList<E8>::enumValid\(.*\) const', lambda ex, st, a, i: [(st, VALID(s.c.lift(a[1], 8)))]), (r'enter', enter), (r'millis\(\)', clock)]
    def at(s, st, i): return z3.Select(st.ghost['q'], st.ghost['h'] + i)
    def frame(s, st, *but):
        c = s.c; d = dict(cur=(s.oc, 1, s.cur), prior=(s.opr, 1, s.prior), slow=(s.os, 4, s.slow), mark=(s.om, 4, s.mark), per=(s.op, 4, s.per))
        return z3.And([c.lift(c.get(st, s.m, o, n), 8 * n) == v for k, (o, n, v) in d.items() if k not in but])
    def same(s, st):
        j = z3.BitVec('j', 32); return z3.And(st.ghost['n'] == s.n0, z3.ForAll([j], z3.Implies(z3.ULT(j, s.n0), s.at(st, j) == z3.Select(s.q0, s.h0 + j))))
B = lambda v: z3.BitVecVal(v, 32)
def arr_of(c, st, h): return st.mem[h].arr if st.mem[h].arr is not None else c.ex.to_arr(st.copy(), h).arr
def ret(c, r): return c.lift(r, 8)
N = lambda v: z3.BitVecVal(v & 255, 8)
@contract('single states', [T, AP])
def _(c):
    s = S(c); x = c.bv('x', 8); j = z3.BitVec('j', 32)
    for st, r in c.run('app', [Ptr(s.m), x], c.st.copy()):
        ok = z3.And(VALID(x), z3.ULT(s.n0, s.cap)); c.post(st, 'append: refused exactly for an invalid code or a full route', ret(c, r) == z3.If(VALID(x), z3.If(z3.ULT(s.n0, s.cap), N(0), N(-2)), N(-1)))
        c.post(st, 'append: the state goes to the end of the route', z3.If(ok, z3.And(st.ghost['n'] == s.n0 + 1, s.at(st, s.n0) == x, z3.ForAll([j], z3.Implies(z3.ULT(j, s.n0), s.at(st, j) == z3.Select(s.q0, s.h0 + j)))), s.same(st))); c.post(st, 'append: frame', s.frame(st))
    def cands(v):
        h0, n0 = v.st0.ghost['h'], v.st0.ghost['n']
        return [('rotated so far', lambda w: z3.And(w.st.ghost['h'] == s.h0 + w.it, w.st.ghost['n'] == s.n0 + 1)), ('new state follows', lambda w: z3.Select(w.st.ghost['q'], s.h0 + s.n0) == x), ('in range', lambda w: z3.ULE(w.it, s.n0)),
            ('rest in place', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, s.n0), z3.Select(w.st.ghost['q'], s.h0 + j) == z3.Select(s.q0, s.h0 + j)))),
            ('rotated to the end in order', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), z3.Select(w.st.ghost['q'], s.h0 + s.n0 + 1 + j) == z3.Select(s.q0, s.h0 + j))))]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run('pre', [Ptr(s.m), x], c.st.copy()):
        ok = z3.And(VALID(x), z3.ULT(s.n0, s.cap)); c.post(st, 'prepend: refused exactly for an invalid code or a full route', ret(c, r) == z3.If(VALID(x), z3.If(z3.ULT(s.n0, s.cap), N(0), N(-2)), N(-1)))
        c.post(st, 'prepend: the state becomes the next one', z3.Implies(ok, z3.And(st.ghost['n'] == s.n0 + 1, s.at(st, B(0)) == x))); k = z3.BitVec('k', 32)
        s2 = st.copy(); s2.assume(z3.And(ok, z3.ULT(k, s.n0))); c.post(s2, 'prepend: the rest of the route follows in order', s.at(s2, k + 1) == z3.Select(s.q0, s.h0 + k))
        c.post(st, 'prepend: refused means unchanged', z3.Implies(z3.Not(ok), s.same(st))); c.post(st, 'prepend: frame', s.frame(st))
@contract('queries', [T, AP])
def _(c):
    s = S(c); x = c.bv('x', 8); j = z3.BitVec('j', 32)
    a = s.after_ctor; c.post(a, 'a new machine rests in its initial state', z3.And(c.lift(c.get(a, s.m, s.oc, 1), 8) == c.inputs['initial'], c.lift(c.get(a, s.m, s.opr, 1), 8) == c.inputs['initial'], c.lift(c.get(a, s.m, s.os, 4), 32) == 0, c.lift(c.get(a, s.m, s.op, 4), 32) == 0))
    for st, r in c.run('planned', [Ptr(s.m), x], c.st.copy()): c.post(st, 'planned means on the route', z3.And(st.ghost['asked'] == x, tobool(r) == z3.Exists([j], z3.And(z3.ULT(j, s.n0), z3.Select(s.q0, s.h0 + j) == x)))); c.post(st, 'frame', s.frame(st))
    for st, r in c.run('nextp', [Ptr(s.m)], c.st.copy()): c.post(st, 'the next state is the head of the route', z3.Implies(s.n0 != 0, c.lift(r, 8) == z3.Select(s.q0, s.h0)))
    for st, r in c.run('isnext', [Ptr(s.m), x], c.st.copy()): c.post(st, 'is-next needs a route', tobool(r) == z3.And(s.n0 != 0, x == z3.Select(s.q0, s.h0)))
    for st, r in c.run('stable', [Ptr(s.m)], c.st.copy()): c.post(st, 'stable exactly without a route', tobool(r) == (s.n0 == 0))
    for st, r in c.run('cur', [Ptr(s.m)], c.st.copy()): c.post(st, 'currentState', c.lift(r, 8) == s.cur)
    for st, r in c.run('prior', [Ptr(s.m)], c.st.copy()): c.post(st, 'priorState', c.lift(r, 8) == s.prior)
    for st, r in c.run('gslow', [Ptr(s.m)], c.st.copy()): c.post(st, 'slowdown', c.lift(r, 32) == s.slow)
    y = c.bv('y', 32)
    for st, r in c.run('slow', [Ptr(s.m), y], c.st.copy()): c.post(st, 'slowdown is set', z3.And(c.lift(c.get(st, s.m, s.os, 4), 32) == y, s.frame(st, 'slow'), s.same(st)))
    for st, r in c.run('lockout', [Ptr(s.m), y], c.st.copy()): c.post(st, 'the lock-out starts now', z3.And(c.lift(c.get(st, s.m, s.op, 4), 32) == y, c.lift(c.get(st, s.m, s.om, 4), 32) == st.ghost['reads'][-1], s.frame(st, 'mark', 'per'), s.same(st)))
    for st, r in c.run('waiting', [Ptr(s.m)], c.st.copy()):
        rd = st.ghost['reads']; c.post(st, 'waiting exactly while the lock-out has not passed', tobool(r) == (z3.ULT(rd[-1] - s.mark, s.per) if rd else z3.BoolVal(False)))
        if not rd: c.post(st, 'a zero lock-out needs no clock', s.per == 0)
@contract('advance, reset', [T, AP])
def _(c):
    s = S(c); x = c.bv('x', 8)
    for st, r in c.run('adv', [Ptr(s.m)], c.st.copy()):
        g = st.ghost; asked = 'entered' in g
        if not asked:
            c.post(st, 'an empty route moves nothing and asks nothing', z3.And(s.n0 == 0, ret(c, r) == N(-1), s.same(st), s.frame(st))); continue
        c.post(st, 'the extending class is asked once, for the next state', z3.And(z3.BoolVal(g['calls'] == 1), s.n0 != 0, g['entered'] == z3.Select(s.q0, s.h0))); ok = g['decision'] == 0
        c.post(st, 'advances exactly when the entry was accepted', ret(c, r) == z3.If(ok, N(0), N(-1)))
        C = lambda o: c.lift(c.get(st, s.m, o, 1), 8); P = lambda o: c.lift(c.get(st, s.m, o, 4), 32)
        c.post(st, 'an accepted entry consumes the next state', z3.Implies(ok, z3.And(C(s.opr) == s.cur, C(s.oc) == z3.Select(s.q0, s.h0), g['n'] == s.n0 - 1, g['h'] == s.h0 + 1, g['q'] == s.q0)))
        c.post(st, 'a refused entry changes neither state nor route', z3.Implies(z3.Not(ok), z3.And(s.same(st), s.frame(st, 'mark', 'per')))); p, m = g['pm']; rd = g['reads']
        unt = z3.And(P(s.op) == p, P(s.om) == m)
        c.post(st, 'the lock-out is left alone unless a slowdown is set', z3.Implies(z3.Or(z3.Not(ok), s.slow == 0), unt)); c.post(st, 'slowdown is kept', P(s.os) == s.slow)
        rem = lambda t: z3.If(z3.UGE(t - m, p), B(0), p - (t - m)); mx = lambda a: z3.If(z3.UGT(a, s.slow), a, s.slow)
        if rd: c.post(st, 'a slowdown locks out for itself or what the entry asked for, whichever is longer', z3.Implies(z3.And(ok, s.slow != 0), z3.And(P(s.om) == rd[-1], z3.Or([P(s.op) == mx(rem(t)) for t in rd] + [z3.And(p == 0, P(s.op) == s.slow)]))))
        else: c.post(st, 'no clock, no slowdown', z3.Not(z3.And(ok, s.slow != 0)))
    for st, r in c.run('rst', [Ptr(s.m), x], c.st.copy()):
        c.post(st, 'reset drops the route and takes the state', z3.And(st.ghost['n'] == 0, c.lift(c.get(st, s.m, s.oc, 1), 8) == x, c.lift(c.get(st, s.m, s.opr, 1), 8) == s.cur, s.frame(st, 'cur', 'prior', 'mark'), c.lift(c.get(st, s.m, s.om, 4), 32) == st.ghost['reads'][-1]))
    for st, r in c.run('mark', [Ptr(s.m), x], c.st.copy()): c.post(st, 'marking takes the state and keeps the route', z3.And(s.same(st), c.lift(c.get(st, s.m, s.oc, 1), 8) == x, c.lift(c.get(st, s.m, s.opr, 1), 8) == s.cur, s.frame(st, 'cur', 'prior')))
for nm, fn in (('set', '_fsm_set_route'), ('append', '_fsm_append_route')):
    @contract(nm + ' route', [T, AP], vla_limit=1 << 28)
    def _(c, nm=nm, fn=fn):
        s = S(c); cnt = c.bv('count', 32); j = z3.BitVec('j', 32); arg = z3.Array('args', W32, W32); base = B(0) if nm == 'set' else s.n0
        room = s.cap if nm == 'set' else s.cap - s.n0; pc = z3.If(cnt < room, cnt, room); low = lambda i: z3.Extract(7, 0, z3.Select(arg, i)); c.st.assume(cnt < (1 << 28))
        va = c.obj('arguments', 4 * cnt, ro=True); o = c.st.mem[va]; o.arr = arg; o.esz = 4; c.ex.va_object = va
        def cands(v):
            mods = [k for k in v.mod if k[0] == 'arr']; out = [('in range', lambda w: z3.And(z3.ULE(w.it, pc), pc > 0))]
            for k in mods: out.append(('copied so far', lambda w, h=k[1]: z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), z3.Select(arr_of(c, w.st, h), j) == low(j)))))
            for k in v.mod:
                if k[0] == 'cell': out.append(('argument pointer', lambda w, k=k: c.ex.tidx(c.ex.elem_index(w.st.mem[k[1]].cells[k[2]][1], 4)) == w.it))
            for nm, ty in v.tys.items():
                if ty.k == 'i' and ty.n == 8: out += [('%s clear while all valid' % nm, lambda w, nm=nm: (c.lift(w.ph[nm], 8) == 0) == z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), VALID(low(j))))), ('%s is 0 or -2' % nm, lambda w, nm=nm: z3.Or(c.lift(w.ph[nm], 8) == 0, c.lift(w.ph[nm], 8) == N(-2)))]
            out.append(('valid so far', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), VALID(low(j)))))); out.append(('inserted so far', lambda w: z3.And(w.st.ghost['n'] == base + w.it, w.st.ghost['h'] == s.h0)))
            out.append(('inserted in order', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, w.it), z3.Select(w.st.ghost['q'], s.h0 + base + j) == low(j))))); out.append(('earlier route kept', lambda w: z3.ForAll([j], z3.Implies(z3.ULT(j, base), z3.Select(w.st.ghost['q'], s.h0 + j) == z3.Select(s.q0, s.h0 + j)))))
            return out
        c.ex.default_loop = LoopPolicy('inv', cands=cands); k = z3.BitVec('k', 32)
        for st, r in c.run(r'StateMachine<E8>::%s\(int, \.\.\.\)' % fn, [Ptr(s.m), cnt], c.st.copy()):
            r = ret(c, r); c.post(st, 'three answers', z3.Or(r == N(0), r == N(-1), r == N(-2))); c.post(st, 'refused for nothing to add or no room', (r == N(-1)) == (pc <= 0)); c.post(st, 'frame', s.frame(st))
            c.post(st, 'a refused route leaves the machine as it was', z3.Implies(r != N(0), s.same(st)))
            s2 = st.copy(); s2.assume(z3.And(r == N(0), z3.ULT(k, pc)))
            c.post(s2, 'an accepted route has only valid states', VALID(low(k))); c.post(s2, 'as many states as fit are taken', s2.ghost['n'] == base + pc); c.post(s2, 'the route follows the arguments in order', s.at(s2, base + k) == low(k))
            s3 = st.copy(); s3.assume(z3.And(r == N(0), z3.ULT(k, base))); c.post(s3, 'earlier waypoints stay ahead', s.at(s3, k) == z3.Select(s.q0, s.h0 + k))
            s4 = st.copy(); s4.assume(r == N(-2)); c.post(s4, 'refused as invalid only for an invalid state among those that fit', z3.Exists([j], z3.And(z3.ULT(j, pc), z3.Not(VALID(low(j))))))
