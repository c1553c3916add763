from spec import *
HARNESS = dict(src='C12.cpp', lib=['AsyncSequencer.cpp', 'StringBuilder.cpp', 'AbstractPlatform.cpp', 'CppPotpourri.cpp', 'Identity/Identity.cpp', 'Identity/IdentityUUID.cpp', 'uuid.cpp'])
PROVED = 'poll() and everything it does, requestSteps() with its dependency closure, resets and queries, over step lists of every length and content, every dependency relation and every outcome of the step functions.'
BOUNDED = 'native replay: random step lists and step outcomes against a per-step reference model'
ASSUMPTIONS = ['each step has one flag bit of its own', 'completeness of the requested closure: dependencies are acyclic (the longest chain of dependencies is shorter than the list)', 'step functions do not call back into the sequencer']
AS = 'AsyncSequencer.cpp'
T = tu_text('asx.cpp', '#include <new>\n#define private public\n#include "AsyncSequencer.h"\n#undef private\n' + offs('s', 'StepSequenceList', 'FLAG', 'LABEL', 'DEP_MASK', 'DISPATCH_FXN', 'POLL_FXN') + offs('a', 'AsyncSequencer', '_STEP_LIST', '_STEP_COUNT', '_steps_requested', '_steps_runnable', '_steps_running', '_steps_complete', '_steps_passed') + '''
extern "C" { void mk(AsyncSequencer* a, const StepSequenceList* l, uint32_t n) { new (a) AsyncSequencer(l, n); } bool q_running(AsyncSequencer* a) { return a->steps_running(); } bool q_fulfilled(AsyncSequencer* a) { return a->request_fulfilled(); } bool q_completed(AsyncSequencer* a) { return a->request_completed(); }
bool q_run(AsyncSequencer* a) { return a->all_steps_have_run(); } bool q_runm(AsyncSequencer* a, uint32_t m) { return a->all_steps_have_run(m); } bool q_passed(AsyncSequencer* a) { return a->all_steps_have_passed(); } bool q_passedm(AsyncSequencer* a, uint32_t m) { return a->all_steps_have_passed(m); } bool q_still(AsyncSequencer* a, uint32_t m) { return a->all_steps_still_running(m); } bool q_disp(AsyncSequencer* a, uint32_t m) { return a->all_steps_dispatched(m); }
const StepSequenceList* q_step(AsyncSequencer* a, uint8_t i) { return a->getStep(i); } uint32_t q_count(AsyncSequencer* a) { return a->stepCount(); } }
''')
B32 = z3.BitVecSort(32); Z = z3.BitVecVal(0, 32); V = lambda x: z3.BitVecVal(x, 32)
ST = ['requested', 'runnable', 'running', 'complete', 'passed']
class S:
    def __init__(s, c):
        s.c = c; st = c.st; s.n = c.bv('count', 32); st.assume(z3.ULT(s.n, 1 << 20)); s.F = z3.Function('FLAG', B32, B32); s.D = z3.Function('DEPS', B32, B32); s.L = z3.Function('LABEL', B32, z3.IntSort())
        s.k = c.bv('k', 32); st.assume(z3.ULT(s.k, s.n)); i = z3.BitVec('i', 32)       # k: an arbitrary step
        s.distinct(st, s.k); st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, s.n), z3.And(s.F(i) != 0, s.F(i) & (s.F(i) - 1) == 0)), patterns=[s.F(i)]))
        s.sz = c.sizeof('s'); o = {f: c.off('s', f) for f in ('FLAG', 'LABEL', 'DEP_MASK', 'DISPATCH_FXN', 'POLL_FXN')}; s.o = o
        s.lst = c.obj('steps', s.sz, ro=True); c.st.mem[s.lst].rec = (s.sz, s.n, {o['FLAG']: (('i', 32), lambda i: s.F(i)), o['DEP_MASK']: (('i', 32), lambda i: s.D(i)), o['LABEL']: (('opq',), lambda i: s.L(i))})
        s.a = c.obj('sequencer', c.sizeof('a')); (st, _), = c.run('mk', [Ptr(s.a), Ptr(s.lst), s.n], st); s.after_ctor = st.copy()
        s.v = {}
        for f in ST: s.v[f] = c.bv(f, 32); c.set(s.a, c.off('a', '_steps_' + f), 4, s.v[f], st)
        s.x = c.bv('unused', 32); st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, s.n), s.F(i) & s.x == 0), patterns=[s.F(i)]))     # bits that belong to no step
        c.st = st
    def distinct(s, st, k):
        i = z3.BitVec('i', 32); st.assume(z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, s.n), i != k), s.F(i) & s.F(k) == 0), patterns=[s.F(i)]))
    def g(s, st, f): return s.c.lift(s.c.get(st, s.a, s.c.off('a', '_steps_' + f), 4), 32)
    def has(s, m): return m & s.F(s.k) != 0
    def frame(s, st, *but): return z3.And([z3.BoolVal(True)] + [s.g(st, f) == s.v[f] for f in ST if f not in but])
def calls(s, c):
    """the step functions: an arbitrary answer each; ghost: how often step k was called, what it answered, and who was called last"""
    def f(ex, st, args, ins):
        p = args[0]; st.ghost['calls'] = st.ghost.get('calls', ()) ; which = 'd' if p.c == s.o['DISPATCH_FXN'] else 'p'
        assert p.reg == s.lst and p.c in (s.o['DISPATCH_FXN'], s.o['POLL_FXN']) and all(q % s.sz == 0 for q, _ in p.t)
        i = ex.tidx(Ptr(None, 0, tuple((q // s.sz, x) for q, x in p.t))); r = z3.BitVec(ex.uniq('answer'), 32); g = st.ghost
        c.post(st, 'only listed steps are called', z3.ULT(i, s.n)); c.post(st, 'steps are called in list order', z3.UGE(i, g['next_' + which])); g['next_' + which] = i + 1
        if which == 'd': c.post(st, 'no step is dispatched after polling has begun', g['next_p'] == 0)
        g['n_' + which] = z3.If(i == s.k, g['n_' + which] + 1, g['n_' + which]); g['r_' + which] = z3.If(i == s.k, r, g['r_' + which]); return [(st, r)]
    return [(r'std::function<int \(\)>::operator\(\)\(\) const', f)]
def start(s, st):
    for w in 'dp': st.ghost['n_' + w] = Z; st.ghost['next_' + w] = Z; st.ghost['r_' + w] = z3.BitVec('noanswer_' + w, 32)
@contract('poll', [AS, T])
def _(c):
    s = S(c); c.ex.stubs = calls(s, c); v = s.v; k = s.k; F = s.F(k); start(s, c.st); has = s.has
    ready = z3.And(has(v['runnable']), z3.Not(has(v['complete'])), z3.Not(has(v['running'])))
    def bits(w, g0, f): return s.g(w.st, f) & F
    def outcome(run0, com0, pas0, sel, r, ok):
        """(running, complete, passed) of step k after its answer"""
        one = {'d': (z3.BoolVal(True), z3.BoolVal(False), z3.BoolVal(False)), 'p': (z3.BoolVal(False), z3.BoolVal(True), z3.BoolVal(True))}[ok]; fail = (z3.BoolVal(False), z3.BoolVal(True), z3.BoolVal(False))
        return [z3.If(z3.And(sel, r == 1), a, z3.If(z3.And(sel, r != 0), b, o)) for a, b, o in zip(one, fail, (run0, com0, pas0))]
    p0 = (has(v['running']), has(v['complete']), has(v['passed']))
    def cands(w0):
        out = [('in range', lambda w: z3.ULE(w.it, s.n))]
        for nm, ty in w0.tys.items():
            if ty.k == 'i' and ty.n == 32:
                q = z3.And(z3.Not(has(v['runnable'])), has(v['requested']), s.D(k) & v['passed'] == s.D(k))
                out.append((nm + ': newly runnable so far', lambda w, nm=nm: (c.lift(w.ph[nm], 32) & F) == z3.If(z3.And(z3.ULT(k, w.it), q), F, Z))); out.append((nm + ': steps only', lambda w, nm=nm: (c.lift(w.ph[nm], 32) & s.x) == 0))
        for w_, pre in (('d', lambda w: p0), ('p', None)):
            def inv(w, w_=w_):
                g = w.st.ghost; st0 = w0.st0 if hasattr(w0, 'st0') else None
                b0 = [has(s.g(st0, f)) for f in ST[2:]]; sel0 = ready if w_ == 'd' else b0[0]
                done = z3.ULT(k, w.it); sel = z3.And(done, sel0)
                return z3.And([g['n_' + w_] == z3.If(sel, V(1), Z), z3.ULE(g['next_' + w_], w.it)] + [has(s.g(w.st, f)) == x for f, x in zip(ST[2:], outcome(*b0, sel, g['r_' + w_], w_))])
            out.append(('step outcome ' + w_, inv))
        out.append(('other bits', lambda w: z3.And([s.g(w.st, f) & s.x == v[f] & s.x for f in ST[2:]])))
        out.append(('no poll yet', lambda w: w.st.ghost['next_p'] == 0))
        return out
    c.ex.policy = lambda f, h: LoopPolicy('inv', cands=cands) if not f.demangled.startswith('AsyncSequencer::poll') else LoopPolicy('unroll', 40)
    for st, r in c.run(r'AsyncSequencer::poll\(\)', [Ptr(s.a)], c.st.copy()):
        g = st.ghost; P = lambda f: has(s.g(st, f))
        c.post(st, 'a step is dispatched exactly when it was runnable, not running and not complete, and once', g['n_d'] == z3.If(ready, V(1), Z))
        d = outcome(*p0, ready, g['r_d'], 'd')
        c.post(st, 'a step is polled exactly when it is running after dispatch, and once', g['n_p'] == z3.If(d[0], V(1), Z))
        e = outcome(*d, d[0], g['r_p'], 'p')
        for f, x in zip(ST[2:], e): c.post(st, 'a step is %s exactly as its answers say' % f, P(f) == x)
        c.post(st, 'a step becomes runnable exactly when requested with all dependencies passed before this poll', P('runnable') == z3.Or(has(v['runnable']), z3.And(has(v['requested']), s.D(k) & v['passed'] == s.D(k))))
        c.post(st, 'requests are kept', s.g(st, 'requested') == v['requested'])
        c.post(st, 'bits of no step are untouched', z3.And([s.g(st, f) & s.x == v[f] & s.x for f in ST]))
        diff = [v[f] ^ s.g(st, f) for f in ('running', 'complete')] + [(v['runnable'] & ~v['complete'] & ~v['running']) ^ (s.g(st, 'runnable') & ~s.g(st, 'complete') & ~s.g(st, 'running'))]
        tot = z3.BitVecVal(0, 8)
        for b in range(32):
            for x in diff: tot = tot + z3.ZeroExt(7, z3.Extract(b, b, x))
        c.post(st, 'the answer counts the changes of running, complete and dispatchable', c.lift(r, 8) == tot)
        c.sat_cover(st, 'a step is dispatched and passes in one poll', z3.And(ready, g['r_d'] == 1, g['r_p'] == 1)); c.sat_cover(st, 'a step fails', z3.And(ready, g['r_d'] == V(-1 & 0xFFFFFFFF)))
@contract('requestSteps', [AS, T])
def _(c):
    s = S(c); F, D, n, k = s.F, s.D, s.n, s.k; j = c.bv('j', 32); c.st.assume(z3.ULT(j, n)); s.distinct(c.st, j); i = z3.BitVec('i', 32)
    H = z3.Function('HEIGHT', B32, B32); known = c.bv('knownflags', 32); C = c.bv('superset', 32); lim = z3.If(z3.ULT(n, 32), n, V(32))
    c.st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(F(i) & ~known == 0, z3.ULT(H(i), lim))), patterns=[F(i)]))
    q = z3.BitVec('q', 32); c.st.assume(z3.ForAll([i, q], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(q, n), D(i) & F(q) != 0), z3.ULT(H(q), H(i))), patterns=[z3.MultiPattern(D(i), F(q))]))      # acyclic: a dependency is lower
    c.st.assume(z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, n), F(i) & C != 0), D(i) & known & ~C == 0), patterns=[F(i)]))      # C: any set of flags closed under dependencies
    deep = lambda m, l: z3.ForAll([q], z3.Implies(z3.And(z3.ULT(q, n), F(q) & m != 0), z3.ULT(H(q) + l, lim)), patterns=[F(q)])
    inset = lambda m, x: m & F(x) != 0
    closed = lambda r: z3.Implies(z3.And(inset(r, k), D(k) & F(j) != 0), inset(r, j))
    def spec(m, l, r, okdeep): return [('every requested step is in', z3.Implies(inset(m, j), inset(r, j))), ('every dependency of a step that is in, is in', z3.Implies(okdeep, closed(r))), ('nothing else is in', z3.Implies(m & known & ~C == 0, r & ~(C & known) == 0))]
    m, l = c.bv('mask', 32), c.bv('depth', 8); L32 = z3.ZeroExt(24, l); c.st.assume(z3.ULE(L32, lim))
    dp = z3.Bool('not_too_deep'); s0 = c.st.copy(); s0.assume(dp == deep(m, L32)); lm = l
    def rec(ex, st, args, ins):
        m2, l2 = c.lift(args[1], 32), c.lift(args[2], 8); c.post(st, 'recursion deepens by one and stays within the limit', z3.And(l2 == lm + 1, z3.ULE(z3.ZeroExt(24, l2), lim)))
        r = z3.BitVec(ex.uniq('closure'), 32); d2 = z3.Bool(ex.uniq('deep'))
        s2 = st.copy(); s2.assume(dp)
        # within the bound, the bound holds for the recursive call too: proved here, used below
        qq = z3.BitVec(ex.uniq('q'), 32); s2.assume(z3.And(z3.ULT(qq, n), F(qq) & m2 != 0)); c.post(s2, 'dependencies are lower than what depends on them', z3.ULT(H(qq) + z3.ZeroExt(24, l2), lim))
        for nm, f in spec(m2, l2, r, dp): st.assume(f)
        return [(st, r)]
    top = {}
    c.ex.stubs = [(r'AsyncSequencer::_get_dependency_mask\(.*\)', lambda ex, st, args, ins: rec(ex, st, args, ins))]
    def cands(v):
        out = [('in range', lambda w: z3.ULE(w.it, n))]
        for nm, ty in v.tys.items():
            if ty.k == 'i' and ty.n == 32:
                R = lambda w, nm=nm: c.lift(w.ph[nm], 32)
                out += [(nm + ': requested steps so far', lambda w, R=R: z3.Implies(z3.And(z3.ULT(j, w.it), inset(m, j)), inset(R(w), j))), (nm + ': closed so far', lambda w, R=R: z3.Implies(dp, closed(R(w)))), (nm + ': nothing else so far', lambda w, R=R: z3.Implies(m & known & ~C == 0, R(w) & ~(C & known) == 0))]
        return out
    c.ex.default_loop = LoopPolicy('inv', cands=cands)
    for st, r in c.run(r'AsyncSequencer::_get_dependency_mask\(.*\)', [Ptr(s.a), m, l], s0.copy()):
        for nm, f in spec(m, l, c.lift(r, 32), dp): c.post(st, nm, f)
        c.post(st, 'frame', s.frame(st))
    lm = z3.BitVecVal(255, 8)
    def use(ex, st, args, ins):
        c.post(st, 'starts at the top', c.lift(args[2], 8) == 0); r = z3.BitVec(ex.uniq('closure'), 32); m2 = c.lift(args[1], 32); qq = z3.BitVec(ex.uniq('q'), 32); s2 = st.copy(); s2.assume(z3.And(z3.ULT(qq, n), F(qq) & m2 != 0)); c.post(s2, 'no chain of dependencies is too deep', z3.ULT(H(qq), lim))
        for nm, f in spec(m2, None, r, z3.BoolVal(True)): st.assume(f)
        st.ghost['cl'] = r; return [(st, None if False else r)]
    c.ex.stubs = [(r'AsyncSequencer::_get_dependency_mask\(.*\)', use)]
    for st, r in c.run(r'AsyncSequencer::requestSteps\(.*\)', [Ptr(s.a), m], c.st.copy()):
        R = s.g(st, 'requested'); new = st.ghost['cl']
        c.post(st, 'requests accumulate', R == s.v['requested'] | new); c.post(st, 'frame', s.frame(st, 'requested'))
        c.post(st, 'every requested step is in', z3.Implies(inset(m, j), inset(R, j))); c.post(st, 'dependencies of newly requested steps are requested', z3.Implies(z3.And(inset(R, k), z3.Not(inset(s.v['requested'], k)), D(k) & F(j) != 0), inset(R, j)))
        c.post(st, 'nothing beyond the closure, and no unknown flag, is requested', z3.Implies(m & known & ~C == 0, R & ~(s.v['requested'] | (C & known)) == 0))
@contract('resets and queries', [AS, T])
def _(c):
    s = S(c); v = s.v; m = c.bv('mask', 32)
    c.post(s.after_ctor, 'a new sequencer has nothing requested, runnable, running, complete or passed', z3.And([s.g(s.after_ctor, f) == 0 for f in ST]))
    for st, r in c.run(r'AsyncSequencer::resetSequencer\(\)', [Ptr(s.a)], c.st.copy()): c.post(st, 'reset clears everything', z3.And([s.g(st, f) == 0 for f in ST]))
    for st, r in c.run(r'AsyncSequencer::resetSteps\(.*\)', [Ptr(s.a), m], c.st.copy()): c.post(st, 'resetting steps clears exactly those', z3.And([s.g(st, f) == v[f] & ~m for f in ST]))
    vs = [c.bv('set_' + f, 32) for f in ST]
    for st, r in c.run(r'AsyncSequencer::setState\(.*\)', [Ptr(s.a)] + vs, c.st.copy()): c.post(st, 'setState sets each field', z3.And([s.g(st, f) == x for f, x in zip(ST, vs)]))
    s0 = c.st.copy(); hs = [c.obj('out_' + f, 4, st=s0) for f in ST]
    for st, r in c.run(r'AsyncSequencer::getState\(.*\)', [Ptr(s.a)] + [Ptr(h) for h in hs], s0): c.post(st, 'getState gives each field', z3.And([c.lift(c.get(st, h, 0, 4), 32) == v[f] for h, f in zip(hs, ST)] + [s.frame(st)]))
    for st, r in c.run(r'AsyncSequencer::getState\(.*\)', [Ptr(s.a)] + [NULL] * 5, c.st.copy()): c.post(st, 'getState without destinations', s.frame(st))
    b = c.bv('incrunning', 1)
    for st, r in c.run(r'AsyncSequencer::failed_steps\(bool\)', [Ptr(s.a), b], c.st.copy()): c.post(st, 'failed steps', c.lift(r, 32) == z3.If(b, v['runnable'], v['complete']) & ~v['passed']); c.post(st, 'frame', s.frame(st))
    sub = lambda a, x: a & ~x == 0
    for q, a, want in (('q_running', [], v['running'] != 0), ('q_fulfilled', [], sub(v['requested'], v['passed'] & v['complete'])), ('q_completed', [], sub(v['requested'], v['complete'])), ('q_run', [], sub(v['runnable'], v['complete'])), ('q_runm', [m], sub(m, v['complete'])), ('q_passed', [], sub(v['runnable'], v['passed'])),
            ('q_passedm', [m], sub(m, v['passed'])), ('q_still', [m], sub(m, v['running'])), ('q_disp', [m], sub(m, v['requested']))):
        for st, r in c.run(q, [Ptr(s.a)] + a, c.st.copy()): c.post(st, q, tobool(r) == want); c.post(st, q + ' frame', s.frame(st))
    i = c.bv('i8', 8)
    for st, r in c.run('q_step', [Ptr(s.a), i], c.st.copy()):
        inr = z3.ULT(z3.ZeroExt(24, i), s.n)
        if r.reg is None: c.post(st, 'no step outside the list', z3.Not(inr))
        else: c.post(st, 'the step at that position', z3.And(inr, c.ex.tidx(Ptr(None, 0, tuple((q // s.sz, x) for q, x in r.t))) == z3.ZeroExt(24, i), z3.BoolVal(r.reg == s.lst and r.c == 0)))
    for st, r in c.run('q_count', [Ptr(s.a)], c.st.copy()): c.post(st, 'step count', c.lift(r, 32) == s.n)
    def put(ex, st, args, ins): st.ghost['n'] = st.ghost['n'] + 1; c.post(st, 'labels go out in order', args[1].reg.id == s.L(st.ghost['n'] - 1)); return [(st, None)]
    c.ex.stubs = [(r'StringBuilder::concat\(char const\*\)', put)]; c.ex.default_loop = LoopPolicy('inv', cands=lambda w0: [('so far', lambda w: z3.And(w.st.ghost['n'] == w.it, z3.ULE(w.it, s.n)))])
    for d in (0, 1):
        s1 = c.st.copy(); s1.ghost['n'] = Z; o = c.obj('text', 64, st=s1)
        for st, r in c.run(r'AsyncSequencer::stepList\(.*\)', [Ptr(s.a), Ptr(o) if d else NULL], s1): c.post(st, 'stepList lists every label and counts the steps', z3.And(c.lift(r, 32) == s.n, st.ghost['n'] == (s.n if d else Z)))
