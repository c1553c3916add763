from spec import *
HARNESS = dict(src='C06.cpp', lib=['AbstractPlatform.cpp', 'CppPotpourri.cpp', 'StringBuilder.cpp', 'TimerTools/StopWatch.cpp'] + ['C3PValue/C3PType.cpp', 'C3PValue/C3PValue.cpp', 'C3PValue/KeyValuePair.cpp', 'EnumeratedTypeCodes.cpp', 'cbor-cpp/cbor.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp', 'Image/Image.cpp', 'TimeSeries/TimeSeries.cpp'])
PROVED = 'delta_assume_wrap (8/16/32/64 bit), {millis,micros}_{since,until}, MillisTimeout/MicrosTimeout expired/remaining/trigger/reset/period and StopWatch start/stop/add/reset for every clock value, including across the 32-bit wrap and with the clock advancing between any two reads.'
BOUNDED = 'native replay of the same contracts on boundary-biased clock values'
ASSUMPTIONS = ['millis()/micros() belong to the platform: modelled as a clock that advances by less than one wrap during a call', 'StopWatch: fewer than 2^32-1 executions']
T = tu_text('timing.cpp', r'''
#include "AbstractPlatform.h"
#include "TimerTools/TimerTools.h"
extern "C" {
uint64_t w_d64(uint64_t a, uint64_t b) { return delta_assume_wrap(a, b); }
uint32_t w_d32(uint32_t a, uint32_t b) { return delta_assume_wrap(a, b); }
uint16_t w_d16(uint16_t a, uint16_t b) { return delta_assume_wrap(a, b); }
uint8_t  w_d8(uint8_t a, uint8_t b) { return delta_assume_wrap(a, b); }
#define W(C, N) C* N##_new(C* p, unsigned long n) { return new (p) C(n); } bool N##_exp(C* t) { return t->expired(); } unsigned long N##_rem(C* t) { return t->remaining(); } void N##_trig(C* t) { t->trigger(); } \
 void N##_rst(C* t) { t->reset(); } void N##_rstp(C* t, unsigned long p) { t->reset(p); } void N##_per(C* t, unsigned long p) { t->period(p); } unsigned long N##_gper(C* t) { return t->period(); } bool N##_en(C* t) { return t->enabled(); }
}
inline void* operator new(size_t, void* p, int) { return p; }
#include <new>
extern "C" {
W(MillisTimeout, ms)
W(MicrosTimeout, us)
void sw_start(StopWatch* s) { s->markStart(); }
uint32_t sw_get(StopWatch* s, int i) { switch (i) { case 0: return s->bestTime(); case 1: return s->lastTime(); case 2: return s->worstTime(); case 3: return s->meanTime(); case 4: return s->totalTime(); case 5: return s->executions(); } return s->tag(); }
}
''')
AP = 'AbstractPlatform.cpp'; SW = 'TimerTools/StopWatch.cpp'

def B(n, k): return z3.BitVec(n, k)
def clock(ex, st, args, ins):
    """each read is at or after the previous one (modulo the wrap), less than one wrap in total"""
    t = z3.BitVec(ex.uniq('now'), 32); rd = st.ghost.get('reads', ())
    if rd:
        st.assume(z3.ULE(rd[-1] - rd[0], t - rd[0]))
    st.ghost['reads'] = rd + (t,); return [(st, t)]
CLK = [(r'millis\(\)', clock), (r'micros\(\)', clock)]

@contract('delta_assume_wrap', T)
def _(c):
    for n in (8, 16, 32, 64):
        a, b = c.bv('a%d' % n, n), c.bv('b%d' % n, n); st0 = State()
        for st, r in c.run('w_d%d' % n, [a, b], st0): c.post(st, '%d-bit result is the displacement modulo 2^%d' % (n, n), c.lift(r, n) == a - b)

for nm in ('millis', 'micros'):
    @contract('%s_since/until' % nm, AP, stubs=CLK)
    def _(c, nm=nm):
        for d in ('since', 'until'):
            m = c.bv('mark_' + d, 32)
            for st, r in c.run(r'%s_%s\(unsigned long\)' % (nm, d), [m], State()):
                now = st.ghost['reads'][-1]
                c.post(st, 'displacement of the clock and the mark', c.lift(r, 32) == (now - m if d == 'since' else m - now))

def timeout(c, N):
    h = c.obj('timeout', 12); p = c.bv('period0', 32)
    (st, r), = c.run(N + '_new', [Ptr(h), p])
    c.post(st, 'constructor stores the period', c.lift(c.get(st, h, 4, 4), 32) == p)
    p, m = c.bv('period', 32), c.bv('mark', 32)
    c.set(h, 4, 4, p, st); c.set(h, 8, 4, m, st); st.ghost['reads'] = ()
    return h, st, p, m

for N in ('ms', 'us'):
    @contract('timeout/%s expired' % N, [T, AP], stubs=CLK)
    def _(c, N=N):
        h, st, p, m = timeout(c, N)
        for s, r in c.run(N + '_exp', [Ptr(h)], st):
            rd = s.ghost['reads']; r = tobool(r)
            c.post(s, 'a zero period is always expired', z3.Implies(p == 0, r))
            if rd: c.post(s, 'expired exactly when at least a period has elapsed since the mark', r == z3.Or(p == 0, z3.UGE(rd[-1] - m, p)))
            else: c.post(s, 'without reading the clock only a zero period is expired', z3.And(p == 0, r))
            c.post(s, 'frame', z3.And(c.lift(c.get(s, h, 4, 4), 32) == p, c.lift(c.get(s, h, 8, 4), 32) == m))
    @contract('timeout/%s remaining' % N, [T, AP], stubs=CLK)
    def _(c, N=N):
        h, st, p, m = timeout(c, N)
        for s, r in c.run(N + '_rem', [Ptr(h)], st):
            rd = s.ghost['reads']; r = c.lift(r, 32)
            c.post(s, 'remaining never exceeds the period', z3.ULE(r, p))
            if rd:
                ok = []
                for t in rd:
                    e = t - m; ok.append(r == z3.If(z3.UGE(e, p), z3.BitVecVal(0, 32), p - e))
                c.post(s, 'remaining is the time left at a clock reading taken during the call', z3.Or(ok))
            else: c.post(s, 'nothing remains of a zero period', z3.And(p == 0, r == 0))
            c.post(s, 'frame', z3.And(c.lift(c.get(s, h, 4, 4), 32) == p, c.lift(c.get(s, h, 8, 4), 32) == m))
    @contract('timeout/%s trigger, reset' % N, [T, AP], stubs=CLK)
    def _(c, N=N):
        h, st, p, m = timeout(c, N)
        for s, r in c.run(N + '_trig', [Ptr(h)], st.copy()):
            for s2, r2 in c.run(N + '_exp', [Ptr(h)], s):
                rd = s2.ghost['reads']
                el = rd[-1] - rd[0] if rd else z3.BitVecVal(0, 32)
                c.post(s2, 'expired right after trigger (for a period that is not the whole range)', z3.Implies(z3.And(p != 0xFFFFFFFF, z3.ULE(el, z3.BitVecVal(0xFFFFFFFE, 32) - p)), tobool(r2)))
        for s, r in c.run(N + '_rst', [Ptr(h)], st.copy()):
            c.post(s, 'reset marks now', z3.And(c.lift(c.get(s, h, 8, 4), 32) == s.ghost['reads'][-1], c.lift(c.get(s, h, 4, 4), 32) == p))
        q = c.bv('newperiod', 32)
        for s, r in c.run(N + '_rstp', [Ptr(h), q], st.copy()):
            c.post(s, 'reset(p) marks now and sets the period', z3.And(c.lift(c.get(s, h, 8, 4), 32) == s.ghost['reads'][-1], c.lift(c.get(s, h, 4, 4), 32) == q))
        for s, r in c.run(N + '_per', [Ptr(h), q], st.copy()):
            c.post(s, 'period(p) keeps the mark', z3.And(c.lift(c.get(s, h, 8, 4), 32) == m, c.lift(c.get(s, h, 4, 4), 32) == q))
        for s, r in c.run(N + '_gper', [Ptr(h)], st.copy()): c.post(s, 'period()', c.lift(r, 32) == p)
        for s, r in c.run(N + '_en', [Ptr(h)], st.copy()): c.post(s, 'enabled exactly for a non-zero period', tobool(r) == (p != 0))

def sw(c):
    h = c.obj('stopwatch', 32); v = {}
    for i, n in enumerate(('tag', 'start', 'last', 'best', 'worst', 'mean', 'total', 'n')): v[n] = c.bv(n, 32); c.set(h, 4 * i, 4, v[n])
    return h, v
def swget(c, st, h): return {n: c.lift(c.get(st, h, 4 * i, 4), 32) for i, n in enumerate(('tag', 'start', 'last', 'best', 'worst', 'mean', 'total', 'n'))}
def added(c, st, g, v, d, pre):
    c.post(st, 'last is the wrap-safe duration', z3.Implies(pre, g['last'] == d))
    c.post(st, 'best is the minimum', z3.Implies(pre, g['best'] == z3.If(z3.ULT(d, v['best']), d, v['best'])))
    c.post(st, 'worst is the maximum', z3.Implies(pre, g['worst'] == z3.If(z3.UGT(d, v['worst']), d, v['worst'])))
    c.post(st, 'total accumulates', z3.Implies(pre, g['total'] == v['total'] + d))
    c.post(st, 'executions counts', z3.Implies(pre, g['n'] == v['n'] + 1))
    c.post(st, 'mean is total over executions', z3.Implies(pre, g['mean'] == z3.UDiv(v['total'] + d, v['n'] + 1)))
    c.post(st, 'tag is untouched', g['tag'] == v['tag'])

@contract('StopWatch', [SW, T], stubs=CLK)
def _(c):
    h, v = sw(c); c.st.assume(v['n'] != 0xFFFFFFFF); a, b = c.bv('t0', 32), c.bv('t1', 32)
    for st, r in c.run(r'StopWatch::addRuntime\(.*\)', [Ptr(h), a, b], c.st.copy()):
        added(c, st, swget(c, st, h), v, b - a, z3.BoolVal(True)); c.post(st, 'addRuntime reports success', tobool(r))
    for st, r in c.run(r'StopWatch::markStop\(\)', [Ptr(h)], c.st.copy()):
        now = st.ghost['reads'][-1]; g = swget(c, st, h); started = v['start'] != 0
        added(c, st, g, v, now - v['start'], started)
        c.post(st, 'a stop without a start reports false and records nothing', z3.Implies(z3.Not(started), z3.And([z3.Not(tobool(r))] + [g[k] == v[k] for k in g])))
        c.post(st, 'a completed measurement is consumed', z3.Implies(started, z3.And(tobool(r), g['start'] == 0)))
    for st, r in c.run('sw_start', [Ptr(h)], c.st.copy()):
        g = swget(c, st, h); c.post(st, 'start records the clock and nothing else', z3.And([g['start'] == st.ghost['reads'][-1]] + [g[k] == v[k] for k in g if k != 'start']))
    for st, r in c.run(r'StopWatch::reset\(\)', [Ptr(h)], c.st.copy()):
        g = swget(c, st, h); c.post(st, 'reset clears the statistics', z3.And(g['last'] == 0, g['worst'] == 0, g['mean'] == 0, g['total'] == 0, g['n'] == 0, g['best'] == 0xFFFFFFFF, g['tag'] == v['tag']))
    n = c.obj('fresh', 32); t = c.bv('newtag', 32)
    for st, r in c.run(r'StopWatch::StopWatch\(unsigned int\)', [Ptr(n), t], c.st.copy()):
        g = swget(c, st, n); c.post(st, 'a new stopwatch is empty', z3.And(g['n'] == 0, g['total'] == 0, g['last'] == 0, g['best'] == 0xFFFFFFFF, g['worst'] == 0, g['mean'] == 0, g['tag'] == t))
        for st2, r2 in c.run(r'StopWatch::markStop\(\)', [Ptr(n)], st): c.post(st2, 'a new stopwatch is not running', z3.Not(tobool(r2)))
    names = ['best', 'last', 'worst', 'mean', 'total', 'n', 'tag']
    i = c.bv('which', 32)
    for k, nm in enumerate(names):
        for st, r in c.run('sw_get', [Ptr(h), k], c.st.copy()): c.post(st, 'accessor ' + nm, c.lift(r, 32) == v[nm])
