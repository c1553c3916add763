from spec import *
from core import Pool, Node
HARNESS = dict(src='C16.cpp', lib=['TimerTools/C3PScheduler.cpp', 'TimerTools/StopWatch.cpp', 'AbstractPlatform.cpp', 'CppPotpourri.cpp', 'StringBuilder.cpp', 'TimeSeries/TimeSeries.cpp', 'C3PValue/C3PType.cpp', 'C3PValue/C3PValue.cpp', 'C3PValue/KeyValuePair.cpp', 'EnumeratedTypeCodes.cpp', 'cbor-cpp/cbor.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp', 'Image/Image.cpp'])
PROVED = 'execute() for every state a schedule can be in and everything its own work may do to it, delay(), willRunAgain(), the settings, addSchedule(), containsSchedule(), advanceScheduler() and serviceSchedules() over any number of schedules in any state and every clock value.'
BOUNDED = 'native replay: random sets of schedules over a simulated clock against a reference model; that the execution queue never overflows (it holds at most what is listed) is checked only here'
ASSUMPTIONS = ['the ring buffers behave as their contracts (C01)', 'the clock stands still during one advance', 'run counts are -1 or not negative', 'the work of a schedule changes that schedule at most; it does not call the scheduler', 'listed schedules are not null and outlive the scheduler', 'unsigned long has 32 bits, as in the build under test']
SC = 'TimerTools/C3PScheduler.cpp'
F = dict(_last_exec=4, _exec_at=4, _period=4, _recurrences=4, _enabled=1, _executing=1)
T = tu_text('sched.cpp', '#include <functional>\n#include <new>\n#include <vector>\n#include <map>\n#include <string>\n#define private public\n#define protected public\n#include "TimerTools/C3PScheduler.h"\n#undef private\n#undef protected\n' + offs('c', 'C3PSchedule', *F) + offs('q', 'C3PScheduler', '_active', '_exec_queue', '_isr_count') + r'''
extern "C" { int8_t cb_work(C3PSchedule*); int8_t cb_poll(void*); }
struct Work : public C3PSchedule { Work(uint32_t p, int32_t r, bool e) : C3PSchedule("work", p, r, e) {} int8_t _execute() { return cb_work(this); } void _print_schedule(StringBuilder*) {} };
struct PO : public C3PPollable { PollResult poll() { return (PollResult) cb_poll(this); } };
extern "C" {
void s_mk(Work* p, uint32_t per, int32_t rec, bool en) { new (p) Work(per, rec, en); } unsigned s_size() { return sizeof(Work); }
bool s_en(C3PSchedule* s) { return s->enabled(); } void s_sen(C3PSchedule* s, bool x) { s->enabled(x); } int32_t s_rec(C3PSchedule* s) { return s->recurrence(); } void s_srec(C3PSchedule* s, int32_t x) { s->recurrence(x); }
unsigned s_per(C3PSchedule* s) { return s->period(); } void s_sper(C3PSchedule* s, unsigned x) { s->period(x); } bool s_now(C3PSchedule* s) { return s->executingNow(); } unsigned s_last(C3PSchedule* s) { return s->lastExec(); } unsigned s_next(C3PSchedule* s) { return s->nextExec(); } bool s_valid(C3PSchedule* s) { return s->valid(); }
unsigned q_count(C3PScheduler* q) { return q->scheduleCount(); } C3PSchedule* q_at(C3PScheduler* q, unsigned i) { return q->getScheduleByIndex(i); }
void po_mk(PO* p) { new (p) PO(); } unsigned po_size() { return sizeof(PO); } void p_mk(C3PScheduledPolling* p, C3PPollable* o) { new (p) C3PScheduledPolling("poll", 1, 1, true, o); }
}
''')
def work_object(c):
    h = c.obj('schedule', c.sizeof('c')); f = {}
    (st, _), = c.run('s_mk', [Ptr(h), c.bv('p0', 32), c.bv('r0', 32), True]); f0 = st.copy()
    for n, k in F.items():
        if k == 4: f[n] = c.bv(n, 32); c.set(h, c.off('c', n), 4, f[n], st)
        else: b = z3.Bool(n); f[n] = b; c.inputs[n] = b; c.set(h, c.off('c', n), 1, z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), st)
    c.st = st; return h, f, f0
def get(c, st, h):
    return {n: (c.lift(c.get(st, h, c.off('c', n), 4), 32) if k == 4 else c.lift(c.get(st, h, c.off('c', n), 1), 8) == 1) for n, k in F.items()}
def clock(ex, st, args, ins):
    t = z3.BitVec(ex.uniq('now'), 32); rd = st.ghost.get('reads', ())
    if rd: st.assume(z3.ULE(rd[-1] - rd[0], t - rd[0]))
    st.ghost['reads'] = rd + (t,); return [(st, t)]

CLK = [(r'micros\(\)', clock)]
SWS = [(r'StopWatch::markStart\(\)', lambda ex, st, a, i: [(st, None)]), (r'StopWatch::markStop\(\)', lambda ex, st, a, i: [(st, z3.Bool(ex.uniq('marked')))])]
again = lambda e, r: z3.And(e, z3.Or(r == 0xFFFFFFFF, r > 0))
SWC = 'TimerTools/StopWatch.cpp'
@contract('execute', [T, SC, SWC])
def _(c):
    h, f, _f = work_object(c); ans = c.bv('answer', 8); w = {}
    for n, k in F.items():
        if n in ('_executing',): continue
        w[n] = c.bv('work_' + n, 32) if k == 4 else z3.Bool('work_' + n)
    c.inputs['work_enabled'] = w['_enabled']
    def cb(ex, st, args, ins):
        c.post(st, 'its own work is called', z3.BoolVal(args[0].reg == h and args[0].c == 0)); c.post(st, 'it is marked as executing meanwhile', get(c, st, h)['_executing']); st.ghost['calls'] = st.ghost.get('calls', 0) + 1; st.ghost['before'] = st.ghost.get('reads', ())
        for n in w: c.set(h, c.off('c', n), F[n], w[n] if F[n] == 4 else z3.If(w[n], z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), st)
        return [(st, ans)]
    c.ex.stubs = CLK + SWS + [(r'cb_work.*', cb)]; c.st.assume(w['_recurrences'] >= -1)
    for st, r in c.run(r'C3PSchedule::execute\(\)', [Ptr(h)], c.st.copy()):
        g = get(c, st, h); rec, en = w['_recurrences'], w['_enabled']; left = z3.If(rec > 0, rec - 1, rec); on = z3.And(en, left != 0); rd = st.ghost['before']; t = rd[0] if rd else z3.BitVecVal(0, 32)
        c.post(st, 'the work is done exactly once', z3.BoolVal(st.ghost.get('calls', 0) == 1)); c.post(st, 'its answer is passed on', c.lift(r, 8) == ans); c.post(st, 'the clock is read before the work', z3.BoolVal(len(rd) > 0))
        c.post(st, 'one run less is left, unless it disabled itself or runs without limit', g['_recurrences'] == z3.If(en, left, rec)); c.post(st, 'it stays enabled exactly while runs are left', g['_enabled'] == on)
        c.post(st, 'it is no longer marked as executing', z3.Not(g['_executing'])); c.post(st, 'the period is kept', g['_period'] == w['_period'])
        c.post(st, 'if it will run again, that is one period after the start of this run', g['_exec_at'] == z3.If(again(on, left), t + w['_period'], 0)); c.post(st, 'the time of this run is noted', g['_last_exec'] == z3.If(en, t, w['_last_exec']))
        c.sat_cover(st, 'the last run', z3.And(en, rec == 1)); c.sat_cover(st, 'a run without limit', z3.And(en, rec == 0xFFFFFFFF))
@contract('delay, settings', [T, SC, SWC], stubs=CLK)
def _(c):
    h, f, f0 = work_object(c); by = c.bv('by', 32); g0 = get(c, f0, h)
    c.post(f0, 'a new schedule has the settings it was given', z3.And(g0['_period'] == c.inputs['p0'], g0['_recurrences'] == c.inputs['r0'], g0['_enabled'], z3.Not(g0['_executing']), g0['_exec_at'] == 0, g0['_last_exec'] == 0))
    def same(st, *but):
        g = get(c, st, h); c.post(st, 'nothing else changes', z3.And([g[n] == f[n] for n in F if n not in but]))
    for st, r in c.run(r'C3PSchedule::delay\(unsigned int\)', [Ptr(h), by], c.st.copy()):
        g = get(c, st, h); rd = st.ghost.get('reads', ()); base = z3.If(f['_enabled'], f['_exec_at'], rd[0] if rd else z3.BitVecVal(0, 32)); ex = f['_executing']
        c.post(st, 'the next run is put off by that much, and the schedule is enabled; not during a run', z3.And(g['_exec_at'] == z3.If(ex, f['_exec_at'], base + by), g['_enabled'] == z3.Or(f['_enabled'], z3.Not(ex)))); c.post(st, 'the clock is read for a schedule that was off', z3.Or(z3.BoolVal(len(rd) > 0), ex, f['_enabled'])); same(st, '_exec_at', '_enabled')
    for st, r in c.run(r'C3PSchedule::delay\(\)', [Ptr(h)], c.st.copy()):
        g = get(c, st, h); rd = st.ghost.get('reads', ()); ex = f['_executing']
        c.post(st, 'the next run is one period from now, and the schedule is enabled; not during a run', z3.And(g['_exec_at'] == z3.If(ex, f['_exec_at'], (rd[0] if rd else z3.BitVecVal(0, 32)) + f['_period']), g['_enabled'] == z3.Or(f['_enabled'], z3.Not(ex)))); c.post(st, 'from the clock', z3.Or(z3.BoolVal(len(rd) > 0), ex)); same(st, '_exec_at', '_enabled')
    for st, r in c.run(r'C3PSchedule::willRunAgain\(\)', [Ptr(h)], c.st.copy()): c.post(st, 'it will run again exactly while enabled with runs left or without limit', tobool(r) == again(f['_enabled'], f['_recurrences'])); same(st)
    for fn, n in (('s_rec', '_recurrences'), ('s_per', '_period'), ('s_last', '_last_exec'), ('s_next', '_exec_at')):
        for st, r in c.run(fn, [Ptr(h)], c.st.copy()): c.post(st, 'reading ' + n, c.lift(r, 32) == f[n]); same(st)
    for fn, n in (('s_en', '_enabled'), ('s_now', '_executing')):
        for st, r in c.run(fn, [Ptr(h)], c.st.copy()): c.post(st, 'reading ' + n, tobool(r) == f[n]); same(st)
    for st, r in c.run('s_valid', [Ptr(h)], c.st.copy()): c.post(st, 'valid exactly with a period', tobool(r) == (f['_period'] != 0)); same(st)
    for fn, n in (('s_srec', '_recurrences'), ('s_sper', '_period')):
        for st, r in c.run(fn, [Ptr(h), by], c.st.copy()): c.post(st, 'setting ' + n, get(c, st, h)[n] == by); same(st, n)
    for b in (0, 1):
        for st, r in c.run('s_sen', [Ptr(h), bool(b)], c.st.copy()): c.post(st, 'setting enabled', get(c, st, h)['_enabled'] == z3.BoolVal(bool(b))); same(st, '_enabled')
@contract('work of a polling and of a function schedule', [T, SC, SWC])
def _(c):
    def poll(ex, st, args, ins): st.ghost['polls'] = st.ghost.get('polls', ()) + (args[0],); return [(st, z3.BitVec(ex.uniq('result'), 8))]
    def call(ex, st, args, ins): st.ghost['polls'] = st.ghost.get('polls', ()) + (args[0],); return [(st, z3.BitVec(ex.uniq('result'), 8))]
    c.ex.stubs = [(r'std::function<signed char \(\)>::operator\(\)\(\) const', call)]
    l = c.obj('lambda', 256); o, p = c.obj('pollable', 16), c.obj('polling', c.sizeof('c') + 16); c.ex.stubs += [(r'cb_poll.*', poll)]
    (s0, _), = c.run('po_mk', [Ptr(o)], c.st.copy()); (s0, _), = c.run('p_mk', [Ptr(p), Ptr(o)], s0)
    for st, r in c.run(r'C3PScheduledPolling::_execute\(\)', [Ptr(p)], s0): c.post(st, 'the object is polled exactly once', z3.BoolVal(len(st.ghost.get('polls', ())) == 1 and st.ghost['polls'][0].reg == o))
    for st, r in c.run(r'C3PScheduledLambda::_execute\(\)', [Ptr(l)], c.st.copy()): c.post(st, 'the function is called exactly once', z3.BoolVal(len(st.ghost.get('polls', ())) == 1 and st.ghost['polls'][0].reg == l))

# ---- the scheduler, its rings by their contracts: ghost sequences a (listed) and e (queued)
I = z3.IntVal; II = lambda n: z3.Array(n, z3.IntSort(), z3.IntSort()); IB = lambda n: z3.Array(n, z3.IntSort(), z3.BoolSort()); Sl = z3.Select
class Q:
    def __init__(s, c, one=None):
        s.c = c; st = c.st; s.qa, s.qe, s.qi = (c.off('q', n) for n in ('_active', '_exec_queue', '_isr_count')); s.h = c.obj('scheduler', c.sizeof('q')); x, i = z3.Int('x'), z3.Int('i')
        s.oE, s.oA, s.oP, s.oX = (c.off('c', n) for n in ('_enabled', '_exec_at', '_period', '_executing')); s.isr = c.int('isr', 32, st=st); c.set(s.h, s.qi, 4, s.isr, st); s.now = c.int('now', 32, st=st); s.cap = c.int('capacity', 32, st=st)
        fl = {s.oE: (('i', 8), II('enabled')), s.oA: (('i', 32), II('exec_at')), s.oP: (('i', 32), II('period')), s.oX: (('i', 8), II('executing'))}
        st.pools['sched'] = Pool('sched', c.sizeof('c'), fl, IB('alive'))
        for o, b in ((s.oE, 1), (s.oA, (1 << 32) - 1), (s.oP, (1 << 32) - 1), (s.oX, 1)): st.assume(z3.ForAll([x], z3.And(Sl(fl[o][1], x) >= 0, Sl(fl[o][1], x) <= b), patterns=[Sl(fl[o][1], x)]))
        s.an, s.en = c.int('listed', 32, st=st), c.int('queued', 32, st=st); s.a, s.ap, s.e, s.em = II('a'), II('apos'), II('e'), IB('inqueue'); s.lg = II('ran')
        st.assume(z3.And(s.an <= s.cap, s.en <= s.cap, s.cap < (1 << 28)))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.an), z3.And(Sl(s.a, i) > 0, Sl(st.pools['sched'].alive, Sl(s.a, i)), Sl(s.ap, Sl(s.a, i)) == i)), patterns=[Sl(s.a, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.en), z3.And(Sl(s.e, i) > 0, Sl(st.pools['sched'].alive, Sl(s.e, i)), Sl(s.em, Sl(s.e, i)))), patterns=[Sl(s.e, i)])); st.assume(z3.Not(Sl(s.em, 0)))
        g = st.ghost; g['a'], g['an'], g['ap'] = s.a, s.an, s.ap; g['e'], g['eh'], g['en'], g['em'] = s.e, I(0), s.en, s.em; g['lg'], g['ln'] = s.lg, I(0)
        c.ex.stubs = s.stubs(); st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < (1 << 32)), s.since(x) == (s.now - x) % (1 << 32)), patterns=[s.since(x)]))
    def nid(s, p): return I(0) if p.reg is None else p.reg.id
    def fld(s, st, o, x): return Sl(st.pools['sched'].fields[o][1], x)
    since = z3.Function('micros_since', z3.IntSort(), z3.IntSort())       # micros_since() by its contract (C06)
    def due(s, st, x): return s.since(s.fld(st, s.oA, x)) < (1 << 31) - 1
    def stubs(s):
        c = s.c; R = r'RingBuffer<C3PSchedule\*>::'
        def ring(args):
            assert args[0].reg == s.h and not args[0].t and args[0].c in (s.qa, s.qe); return args[0].c == s.qa
        def count(ex, st, args, ins): return [(st, st.ghost['an'] if ring(args) else st.ghost['en'])]
        def listed(st, x): g = st.ghost; return z3.And(Sl(g['ap'], x) >= 0, Sl(g['ap'], x) < g['an'], Sl(g['a'], Sl(g['ap'], x)) == x)
        def contains(ex, st, args, ins): x = s.nid(args[1]); return [(st, listed(st, x) if ring(args) else Sl(st.ghost['em'], x))]
        def peek(ex, st, args, ins):
            i = c.lift(args[1], 32); g = st.ghost; A = ring(args); assert A
            return [(st, Ptr(Node('sched', z3.If(z3.And(i >= 0, i < g['an']), Sl(g['a'], i), I(0)))))]
        def insert(ex, st, args, ins, absent):
            g = st.ghost; x = s.nid(args[1]); A = ring(args); n = g['an'] if A else g['en']; has = listed(st, x) if A else Sl(g['em'], x)
            r = z3.If(n < s.cap, I(0), I((1 << 32) - 1)); r = z3.If(has, I((1 << 32) - 2), r) if absent else r; ok = z3.And(n < s.cap, z3.Not(has)) if absent else n < s.cap
            if not absent: c.post(st, 'the same schedule is not listed or queued twice', z3.Or(z3.Not(has), z3.Not(ok)))
            if A: g['a'] = z3.If(ok, z3.Store(g['a'], n, x), g['a']); g['ap'] = z3.If(ok, z3.Store(g['ap'], x, n), g['ap']); g['an'] = z3.If(ok, n + 1, n)
            else: g['e'] = z3.If(ok, z3.Store(g['e'], g['eh'] + n, x), g['e']); g['em'] = z3.If(ok, z3.Store(g['em'], x, True), g['em']); g['en'] = z3.If(ok, n + 1, n)
            st.ghost['oomable'] = True; return [(st, r)]
        def take(ex, st, args, ins):
            g = st.ghost; assert not ring(args); some = g['en'] > 0; x = z3.If(some, Sl(g['e'], g['eh']), I(0))
            g['em'] = z3.If(some, z3.Store(g['em'], x, False), g['em']); g['eh'] = z3.If(some, g['eh'] + 1, g['eh']); g['en'] = z3.If(some, g['en'] - 1, g['en']); return [(st, Ptr(Node('sched', x)))]
        def execute(ex, st, args, ins):
            g = st.ghost; x = s.nid(args[0]); c.post(st, 'only schedules are run', z3.And(x > 0, Sl(st.pools['sched'].alive, x))); g['lg'] = z3.Store(g['lg'], g['ln'], x); g['ln'] = g['ln'] + 1
            P = st.pools['sched'].copy()
            for o in P.fields: k, a = P.fields[o]; v = z3.Int(ex.uniq('after')); st.assume(z3.And(v >= 0, v < (2 if k[1] == 8 else 1 << 32))); P.fields[o] = (k, z3.Store(a, x, v))
            st.pools['sched'] = P; r = z3.Int(ex.uniq('answer')); st.assume(z3.And(r >= 0, r < 256)); return [(st, r)]
        return [(R + r'count\(\)', count), (R + r'contains\(C3PSchedule\*\)', contains), (R + r'peek\(unsigned int, bool\)', peek), (R + r'insertIfAbsent\(C3PSchedule\*\)', lambda *a: insert(*a, True)), (R + r'insert\(C3PSchedule\*\)', lambda *a: insert(*a, False)), (R + r'get\(\)', take), (R + r'isEmpty\(\)', lambda ex, st, a, i: [(st, (st.ghost['an'] if ring(a) else st.ghost['en']) == 0)]),
                (r'C3PSchedule::execute\(\)', execute), (r'micros\(\)', lambda ex, st, a, i: [(st, s.now)]), (r'micros_since\(unsigned int\)', lambda ex, st, a, i: [(st, s.since(c.lift(a[0], 32)))])] + [(n, f) for n, f in SWS]
    def listing(s, st, what):
        g = st.ghost; i = z3.Int('wi'); c = s.c; c.post(st, what + ': the list of schedules is kept', z3.And(g['an'] == s.an, z3.Implies(z3.And(i >= 0, i < s.an), Sl(g['a'], i) == Sl(s.a, i))))
    def settings(s, st, what):
        x = z3.Int('wx'); s.c.post(st, what + ': no schedule is changed', z3.And([s.fld(st, o, x) == Sl(II(n), x) for o, n in ((s.oE, 'enabled'), (s.oA, 'exec_at'), (s.oP, 'period'))]))
    def queue(s, st, what):
        g = st.ghost; i = z3.Int('wi'); s.c.post(st, what + ': the queue is kept', z3.And(g['en'] == s.en, g['eh'] == 0, z3.Implies(z3.And(i >= 0, i < s.en), Sl(g['e'], i) == Sl(s.e, i))))
@contract('advanceScheduler', [T, SC, 'AbstractPlatform.cpp'], mode='int', houdini_timeout=400)
def _(c):
    q = Q(c); x, i, j = z3.Int('x'), z3.Int('i'), z3.Int('j'); ap, a = q.ap, q.a
    dueb = z3.Function('DUE', z3.IntSort(), z3.BoolSort()); st0 = c.st.copy(); c.st.assume(z3.ForAll([x], dueb(x) == z3.And(q.fld(st0, q.oE, x) == 1, q.due(st0, x)), patterns=[q.fld(st0, q.oA, x)])); c.st.assume(z3.ForAll([x], dueb(x) == z3.And(q.fld(st0, q.oE, x) == 1, q.due(st0, x)), patterns=[dueb(x)]))
    def inlist(x, n): return z3.And(Sl(ap, x) >= 0, Sl(ap, x) < n, Sl(a, Sl(ap, x)) == x)
    def cands(v):
        G = lambda w: w.st.ghost
        return [('it within the list', lambda w: z3.And(w.it >= 0, w.it <= q.an)), ('%s' % 'queue bounds', lambda w: z3.And(G(w)['en'] >= q.en, G(w)['en'] <= q.cap, G(w)['eh'] == 0)),
          ('what was queued stays, in order', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i < q.en), Sl(G(w)['e'], i) == Sl(q.e, i)), Sl(G(w)['e'], i))),
          ('queued only if due', lambda w: forall(x, z3.Implies(Sl(G(w)['em'], x), z3.Or(Sl(q.em, x), z3.And(inlist(x, w.it), dueb(x)))), Sl(G(w)['em'], x))),
          ('still queued', lambda w: forall(x, z3.Implies(Sl(q.em, x), Sl(G(w)['em'], x)), Sl(G(w)['em'], x))),
          ('due ones are queued', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i < w.it, dueb(Sl(a, i))), z3.Or(Sl(G(w)['em'], Sl(a, i)), G(w)['en'] == q.cap)), Sl(a, i))),
          ('new ones: listed, due, not queued before', lambda w: forall(i, z3.Implies(z3.And(i >= q.en, i < G(w)['en']), z3.And(inlist(Sl(G(w)['e'], i), w.it), dueb(Sl(G(w)['e'], i)), z3.Not(Sl(q.em, Sl(G(w)['e'], i))))), Sl(G(w)['e'], i))),
          ('new ones in the order of the list', lambda w: forall([i, j], z3.Implies(z3.And(i >= q.en, i < j, j < G(w)['en']), Sl(ap, Sl(G(w)['e'], i)) < Sl(ap, Sl(G(w)['e'], j))), Sl(G(w)['e'], i), Sl(G(w)['e'], j)))]
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run(r'C3PScheduler::advanceScheduler\(\)', [Ptr(q.h)], c.st.copy()):
        g = st.ghost; wi, wj, wx = z3.Int('wi'), z3.Int('wj'), z3.Int('wx'); q.listing(st, 'advance'); q.settings(st, 'advance')
        c.post(st, 'the advance is noted', c.lift(c.get(st, q.h, q.qi, 4), 32) == (q.isr + 1) % (1 << 32)); c.post(st, 'nothing is run', g['ln'] == 0)
        s2 = st.copy(); s2.assume(z3.And(wi >= 0, wi < q.an, dueb(Sl(a, wi)))); c.post(s2, 'every enabled schedule that has come due is queued, unless the queue is full', z3.Or(Sl(g['em'], Sl(a, wi)), g['en'] == q.cap))
        s2 = st.copy(); s2.assume(Sl(g['em'], wx)); c.post(s2, 'nothing else is', z3.Or(Sl(q.em, wx), z3.And(inlist(wx, q.an), dueb(wx))))
        s2 = st.copy(); s2.assume(z3.And(wi >= 0, wi < q.en)); c.post(s2, 'what was queued keeps its place', z3.And(Sl(g['e'], wi) == Sl(q.e, wi), g['eh'] == 0, Sl(g['em'], Sl(q.e, wi))))
        s2 = st.copy(); s2.assume(z3.And(wi >= q.en, wi < wj, wj < g['en'])); c.post(s2, 'new ones follow in the order of the list, each once', z3.And(Sl(ap, Sl(g['e'], wi)) < Sl(ap, Sl(g['e'], wj)), z3.Not(Sl(q.em, Sl(g['e'], wi)))))
@contract('serviceSchedules', [T, SC, 'AbstractPlatform.cpp'], mode='int')
def _(c):
    q = Q(c); i = z3.Int('i'); al = c.st.pools['sched'].alive
    def cands(v):
        G = lambda w: w.st.ghost; l = [('as many run as taken', lambda w: z3.And(G(w)['ln'] >= 0, G(w)['ln'] == w.it)), ('in order', lambda w: forall(i, z3.Implies(z3.And(i >= 0, i < G(w)['ln']), Sl(G(w)['lg'], i) == Sl(q.e, i)), Sl(G(w)['lg'], i)))]
        for nm, ty in v.tys.items():
            if ty.k == 'ptr':
                l += [('%s is the next one' % nm, lambda w, nm=nm: q.nid(w.ph[nm]) == z3.If(w.it < q.en, Sl(q.e, w.it), 0)), ('%s was taken' % nm, lambda w, nm=nm: z3.And(w.it <= q.en, G(w)['eh'] == z3.If(w.it < q.en, w.it + 1, q.en), G(w)['en'] == q.en - G(w)['eh']))]
        l += [('none taken ahead', lambda w: z3.And(w.it <= q.en, G(w)['eh'] == w.it, G(w)['en'] == q.en - w.it))]
        return l
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run(r'C3PScheduler::serviceSchedules\(\)', [Ptr(q.h)], c.st.copy()):
        g = st.ghost; wi = z3.Int('wi'); q.listing(st, 'service'); c.post(st, 'the count of advances is kept', c.lift(c.get(st, q.h, q.qi, 4), 32) == q.isr)
        s1, s0 = split_c(c, st, q.isr > 0)
        if s1:
            c.post(s1, 'the queue is emptied', s1.ghost['en'] == 0); c.post(s1, 'as many are run as were queued', s1.ghost['ln'] == q.en); s2 = s1.copy(); s2.assume(z3.And(wi >= 0, wi < q.en)); c.post(s2, 'each queued schedule is run once, in order', Sl(s2.ghost['lg'], wi) == Sl(q.e, wi))
        if s0: c.post(s0, 'nothing is run before the first advance', s0.ghost['ln'] == 0); q.queue(s0, 'service'); q.settings(s0, 'service')
def split_c(c, st, cond):
    a, b = st.copy(), st.copy(); a.assume(cond); b.assume(z3.Not(cond)); return (a if c.ex.feasible(a) else None), (b if c.ex.feasible(b) else None)
@contract('addSchedule, containsSchedule', [T, SC, 'AbstractPlatform.cpp'], mode='int')
def _(c):
    q = Q(c); x = c.int('schedule', st=c.st); c.st.assume(z3.And(x > 0, Sl(c.st.pools['sched'].alive, x))); y = z3.Int('wy'); S = Ptr(Node('sched', x)); s0 = c.st
    has = z3.And(Sl(q.ap, x) >= 0, Sl(q.ap, x) < q.an, Sl(q.a, Sl(q.ap, x)) == x); ok = z3.And(z3.Not(has), q.an < q.cap); wi = z3.Int('wi')
    for st, r in c.run(r'C3PScheduler::addSchedule\(C3PSchedule\*\)', [Ptr(q.h), S], s0.copy()):
        g = st.ghost; r = c.lift(r, 8); c.post(st, 'taken exactly if it is not listed and there is room', (r == 0) == ok); c.post(st, 'a refusal is negative', z3.Or(r == 0, r >= 128))
        c.post(st, 'it is listed last', z3.And(g['an'] == z3.If(ok, q.an + 1, q.an), z3.Implies(ok, Sl(g['a'], q.an) == x))); c.post(st, 'the others keep their places', z3.Implies(z3.And(wi >= 0, wi < q.an), Sl(g['a'], wi) == Sl(q.a, wi)))
        q.queue(st, 'add'); c.post(st, 'nothing is run', g['ln'] == 0)
        en, at, per, exn = (q.fld(s0, o, x) for o in (q.oE, q.oA, q.oP, q.oX)); arm = z3.And(ok, en == 1, exn == 0)
        c.post(st, 'an enabled schedule first comes due one period from now', q.fld(st, q.oA, x) == z3.If(arm, (q.now + per) % (1 << 32), at)); c.post(st, 'it stays enabled, or disabled', q.fld(st, q.oE, x) == en)
        c.post(st, 'other schedules are untouched', z3.Implies(y != x, z3.And([q.fld(st, o, y) == q.fld(s0, o, y) for o in (q.oE, q.oA, q.oP)])))
    for st, r in c.run(r'C3PScheduler::containsSchedule\(C3PSchedule\*\)', [Ptr(q.h), S], s0.copy()): c.post(st, 'listed or not', tobool(r) == has); q.listing(st, 'contains'); q.queue(st, 'contains'); q.settings(st, 'contains')
    for st, r in c.run('q_count', [Ptr(q.h)], s0.copy()): c.post(st, 'how many are listed', c.lift(r, 32) == q.an); q.listing(st, 'count')
    k = c.int('index', 32, st=s0)
    for st, r in c.run('q_at', [Ptr(q.h), k], s0.copy()): c.post(st, 'the schedule at that place, or none', q.nid(r) == z3.If(k < q.an, Sl(q.a, k), 0)); q.listing(st, 'at')
