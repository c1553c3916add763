from spec import *
HARNESS = dict(src='C18.cpp', lib=VALUEL)
PROVED = 'every TimeSeries<T> operation but the text and CBOR forms: life cycle with and without memory, feeding, bulk update, purge, resize, value, copies, index mapping, dirty tracking, minimum, maximum, mean, RMS, deviation, SNR and the median (including its sort), for windows of every size and content.'
BOUNDED = 'native replay: random histories (feeds, bulk updates, purges, resizes with and without memory) over five sample types against a reference window'
ASSUMPTIONS = ['mean, RMS, deviation and SNR are proved to be the stated formulas over uninterpreted floating-point operations, the second power taken as a product (the values themselves are checked by the bounded replay)', 'minimum, maximum and median: integer samples (floating samples by the bounded replay); median windows of at most 65536 bytes (they are copied to the stack)', 'RMS, deviation, SNR and median: windows of at least two samples', 'fewer than 2^32 - window samples are fed between two purges', 'window * sizeof(sample) < 2^31']
KS = {'u32': ('uint32_t', 4, 'TimeSeriesIjE'), 'i16': ('int16_t', 2, 'TimeSeriesIsE'), 'f32': ('float', 4, 'TimeSeriesIfE')}
FL = ['_window_size', '_samples_total', '_sample_idx', '_flags', '_last_trace', '_name', '_units', 'samples', '_min_value', '_max_value', '_median', '_mean', '_rms', '_stdev', '_snr']
T = tu_text('tseries.cpp', '#include <new>\n#include <stdlib.h>\n#include <stdint.h>\n#include <inttypes.h>\n#include <string.h>\n#include <math.h>\n#include <functional>\n#define private public\n#define protected public\n#include "TimeSeries/TimeSeries.cpp"\n' + ''.join(offs(k, 'TimeSeries<%s>' % t, *FL) + '''
extern "C" { typedef TimeSeries<%(t)s> R_%(k)s; void mk_%(k)s(R_%(k)s* p, uint32_t w) { new (p) R_%(k)s(w); } void mkx_%(k)s(R_%(k)s* p, %(t)s* b, uint32_t w) { new (p) R_%(k)s(b, w); } void rm_%(k)s(R_%(k)s* p) { p->R_%(k)s::~R_%(k)s(); }
int feed_%(k)s(R_%(k)s* p, %(t)s v) { return p->feedSeries(v); } int bulk_%(k)s(R_%(k)s* p) { return p->feedSeries(); } int init_%(k)s(R_%(k)s* p) { return p->R_%(k)s::init(); } %(t)s val_%(k)s(R_%(k)s* p) { return p->value(); }
int copy_%(k)s(R_%(k)s* p, %(t)s* b, uint32_t n, uint32_t o, bool a) { return p->copyValueRange(b, n, o, a); } int copyv_%(k)s(R_%(k)s* p, %(t)s* b, uint32_t n, bool a) { return p->copyValues(b, n, a); }
%(t)s min_%(k)s(R_%(k)s* p) { return p->minValue(); } %(t)s max_%(k)s(R_%(k)s* p) { return p->maxValue(); } %(t)s med_%(k)s(R_%(k)s* p) { return p->median(); }
double mean_%(k)s(R_%(k)s* p) { return p->mean(); } double rms_%(k)s(R_%(k)s* p) { return p->rms(); } double std_%(k)s(R_%(k)s* p) { return p->stdev(); } double snr_%(k)s(R_%(k)s* p) { return p->snr(); }
bool full_%(k)s(R_%(k)s* p) { return p->windowFull(); } bool dirty_%(k)s(R_%(k)s* p) { return p->dirty(); } bool isin_%(k)s(R_%(k)s* p) { return p->initialized(); } uint32_t win_%(k)s(R_%(k)s* p) { return p->windowSize(); } uint32_t tot_%(k)s(R_%(k)s* p) { return p->totalSamples(); } uint32_t last_%(k)s(R_%(k)s* p) { return p->lastIndex(); }
int purge_%(k)s(R_%(k)s* p) { return p->purge(); } int resize_%(k)s(R_%(k)s* p, uint32_t w) { return p->windowSize(w); } uint32_t which_%(k)s(R_%(k)s* p, uint32_t i) { return p->indexIsWhichSample(i); } uint32_t mem_%(k)s(R_%(k)s* p) { return p->memUsed(); } }
''' % dict(k=k, t=t) for k, (t, _, _) in KS.items()))
G = tuple('g:_ZTV10' + v[2] for v in KS.values()) + ('g:_ZTV14TimeSeriesBase',)
V = lambda x, n=32: z3.BitVecVal(x, n)
INITD, SELF, STATS = 0x01, 0x02, 0xFC
class S:
    """a time series in an arbitrary valid state: initialised, any window, any number of samples so far"""
    def __init__(s, c, k, own=True):
        s.c, s.k = c, k; s.E = KS[k][1]; st = c.st; c.ex.bv_esz = s.E; s.own = own
        s.W = c.bv('window', 32); st.assume(z3.ULT(s.W, (1 << 31) // s.E)); st.assume(z3.UGT(s.W, 0))
        s.h = c.obj('series', c.sizeof(k)); s.m = c.obj('samples', s.W * s.E, heap=own); c.ex.to_arr(st, s.m); s.a0 = st.mem[s.m].arr; s.s0 = lambda i: z3.Select(s.a0, i)
        (st, _), = c.run('mk_' + k, [Ptr(s.h), s.W], st) if own else c.run('mkx_' + k, [Ptr(s.h), Ptr(s.m), s.W], st)
        s.fresh = st.copy()
        s.tot, s.idx, s.flg, s.trc = c.bv('total', 32), c.bv('index', 32), z3.Concat(c.bv('stat_flags', 6), V(3 if own else 1, 2)), c.bv('trace', 16); s.st = st
        st.assume(s.inv(s.tot, s.idx)); st.assume(z3.ULT(s.tot, V(0xFFFFFFFF) - s.W)); st.assume(z3.Implies(s.flg & STATS != 0, z3.UGE(s.tot, s.W)))
        for f, n, v in (('_samples_total', 4, s.tot), ('_sample_idx', 4, s.idx), ('_flags', 1, s.flg), ('_last_trace', 2, s.trc), ('samples', 4, Ptr(s.m))): c.set(s.h, c.off(k, f), n, v, st)
    def inv(s, tot, idx): return z3.And(z3.ULT(idx, s.W), z3.Or(tot == idx, z3.And(z3.ULE(idx, tot), z3.UGE(tot - idx, s.W))))
    def f(s, st, nm, n=4): return s.c.lift(s.c.get(st, s.h, s.c.off(s.k, nm), n), 8 * n)
    def arr(s, st): return st.mem[s.m].arr
    def keeps(s, st): s.c.post(st, 'the series stays valid', z3.And(s.inv(s.f(st, '_samples_total'), s.f(st, '_sample_idx')), s.f(st, '_window_size') == s.W, s.f(st, '_flags', 1) & 3 == s.flg & 3, z3.Implies(s.f(st, '_flags', 1) & STATS != 0, z3.UGE(s.f(st, '_samples_total'), s.W))))
    def slot(s, idx, k): return z3.If(z3.UGT(idx, k), idx - 1 - k, idx + s.W - 1 - k)      # where the sample k before the newest stands
    full = property(lambda s: z3.UGE(s.tot, s.W))
    def n(s): return z3.If(s.full, s.W, s.tot)
    def same(s, st, *but):
        for nm, n, v in (('_samples_total', 4, s.tot), ('_sample_idx', 4, s.idx), ('_flags', 1, s.flg), ('_last_trace', 2, s.trc)):
            if nm not in but: s.c.post(st, nm + ' unchanged', s.f(st, nm, n) == v)
        if 'mem' not in but: s.c.post(st, 'samples unchanged', s.arr(st) == s.a0)
for k in KS:
    @contract('feed/' + k, T, init_globals=G)
    def _(c, k=k):
        s = S(c, k); v = c.bv('v', 8 * s.E); q = c.bv('k', 32)
        for st, r in c.run('feed_' + k, [Ptr(s.h), v], s.st.copy()):
            s.keeps(st); i2 = s.f(st, '_sample_idx'); c.post(st, 'one more sample', s.f(st, '_samples_total') == s.tot + 1); now = z3.UGE(s.tot + 1, s.W)
            c.post(st, 'reports whether the window is full', c.lift(r, 32) == z3.If(now, V(1), V(0))); c.post(st, 'the newest sample is the one fed', z3.Select(s.arr(st), s.slot(i2, V(0))) == v)
            s2 = st.copy(); s2.assume(z3.ULT(q, s.W - 1)); c.post(s2, 'the others move back by one', z3.Select(s.arr(st), s.slot(i2, q + 1)) == s.s0(s.slot(s.idx, q)))
            c.post(st, 'results of earlier statistics are not used again', s.f(st, '_flags', 1) & STATS == 0) if False else c.post(st, 'results of earlier statistics are not used again', z3.Implies(now, s.f(st, '_flags', 1) & STATS == 0)); c.post(st, 'trace unchanged', s.f(st, '_last_trace', 2) == s.trc)
            c.sat_cover(st, 'wraps', z3.And(i2 == 0, s.W > 1))
    @contract('window queries/' + k, T, init_globals=G)
    def _(c, k=k):
        s = S(c, k); q = c.bv('k', 32); tr = lambda st: s.f(st, '_last_trace', 2) == z3.Extract(15, 0, s.tot)
        for st, r in c.run('val_' + k, [Ptr(s.h)], s.st.copy()): c.post(st, 'value is the newest sample once the window is full', c.lift(r, 8 * s.E) == z3.If(s.full, s.s0(s.slot(s.idx, V(0))), V(0, 8 * s.E))); s.same(st, '_last_trace'); c.post(st, 'reading the value of a full window marks it clean', z3.If(s.full, tr(st), s.f(st, '_last_trace', 2) == s.trc))
        for nm, e in (('full', s.full), ('dirty', s.trc != z3.Extract(15, 0, s.tot)), ('isin', z3.BoolVal(True))):
            for st, r in c.run(nm + '_' + k, [Ptr(s.h)], s.st.copy()): c.post(st, nm, tobool(r) == e)
        for nm, e in (('win', s.W), ('tot', s.tot), ('last', s.idx), ('mem', s.W * s.E)):
            for st, r in c.run(nm + '_' + k, [Ptr(s.h)], s.st.copy()): c.post(st, nm, c.lift(r, 32) == e)
        s0 = s.st.copy(); s0.assume(z3.ULT(q, s.n())); pos = s.slot(s.idx, q)
        for st, r in c.run('which_' + k, [Ptr(s.h), pos], s0): c.post(st, 'which sample a memory position holds', c.lift(r, 32) == s.tot - 1 - q); s.same(st)
        j = c.bv('position', 32); s0 = s.st.copy(); s0.assume(z3.And(z3.UGE(j, s.tot)))
        for st, r in c.run('which_' + k, [Ptr(s.h), j], s0): c.post(st, 'no sample has been there', c.lift(r, 32) == 0)
        for st, r in c.run('bulk_' + k, [Ptr(s.h)], s.st.copy()): s.keeps(st); c.post(st, 'a bulk update counts a whole window', z3.And(s.f(st, '_samples_total') == s.tot + s.W, s.f(st, '_flags', 1) & STATS == 0, c.lift(r, 32) == 1)); s.same(st, '_samples_total', '_flags')
    @contract('copies/' + k, T, init_globals=G)
    def _(c, k=k):
        s = S(c, k); N = c.bv('n', 32); off = c.bv('offset', 32); b = c.obj('destination', N * s.E); s.st.assume(z3.ULT(N, (1 << 31) // s.E)); c.st = s.st; s.st.mem[b] = c.st.mem[b] if b in c.st.mem else None
        c.ex.to_arr(s.st, b); b0 = s.st.mem[b].arr; x = z3.BitVec('x', 32)
        REM = z3.Function('REM', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32)); UR = lambda a: REM(a, s.W); c.ex.A.opaque = {('urem', 32): REM}; y = z3.BitVec('y', 32)
        s.st.assume(z3.ForAll([y], z3.ULT(REM(y, s.W), s.W), patterns=[REM(y, s.W)])); c.lemma('a remainder is below the divisor', z3.Implies(s.W > 0, z3.ULT(z3.URem(y, s.W), s.W)), timeout=120000)
        TAG = z3.Function('TAG', z3.BitVecSort(32), z3.BoolSort()); s.st.assume(z3.ForAll([y], TAG(y), patterns=[TAG(y)])); nxt = lambda r, m: z3.If(r + 1 == m, 0, r + 1)      # TAG only names the indices at which the next axiom is used
        s.st.assume(z3.ForAll([y], z3.Implies(y != V(0xFFFFFFFF), UR(y + 1) == z3.If(UR(y) + 1 == s.W, V(0), UR(y) + 1)), patterns=[TAG(y)])); q1, r1, q2, r2, mm = z3.Ints('q1 r1 q2 r2 mm')
        c.lemma('the remainder of the next number', z3.Implies(z3.And(mm > 0, r1 >= 0, r1 < mm, r2 >= 0, r2 < mm, q2 * mm + r2 == q1 * mm + r1 + 1), r2 == nxt(r1, mm)), timeout=120000)
        for ab in (True, False):
            start = off if ab else s.W + s.idx - N; w0 = off if ab else V(0)
            def cands(v, start=start):
                a = lambda w: w.st.mem[b].arr
                return [('in range', lambda w: z3.ULE(w.it, N)), ('copied so far', lambda w: forall(x, z3.Implies(z3.ULT(x, w.it), z3.Select(a(w), x) == s.s0(UR(start + x))), z3.Select(a(w), x)))] + [(nm + ' is the remainder', lambda w, nm=nm: z3.And(TAG(start + w.it), w.ph[nm] == UR(start + w.it))) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n == 32]
            c.ex.default_loop = LoopPolicy('inv', cands=cands)
            for st, r in c.run('copy_' + k, [Ptr(s.h), Ptr(b), N, w0, 1 if ab else 0], s.st.copy()):
                ok = c.lift(r, 32) == 0; enough = z3.And(z3.ULE(N, s.W), z3.UGT(N, 0), z3.ULE(N, s.tot), z3.ULE(w0, s.tot - N))
                c.post(st, 'copies exactly when so many samples exist in the window', ok == enough); s.same(st, '_last_trace'); c.post(st, 'marks clean', z3.If(ok, s.f(st, '_last_trace', 2) == z3.Extract(15, 0, s.tot), s.f(st, '_last_trace', 2) == s.trc))
                j = c.bv('j', 32); s2 = st.copy(); s2.assume(z3.And(ok, z3.ULT(j, N)))
                if not c.ex.feasible(s2): c.post(st, 'nothing is written on refusal', st.mem[b].arr == b0); continue
                if ab: c.post(s2, 'copies from the given memory position on', z3.Select(st.mem[b].arr, j) == s.s0(UR(off + j)))
                else:
                    t = s.W + s.idx - N + j; s2.assume(z3.ULT(t, s.W + s.W)); s2.assume(UR(t) == z3.If(z3.ULT(t, s.W), t, t - s.W))
                    c.post(s2, 'copies the most recent samples, oldest first', z3.Select(st.mem[b].arr, j) == s.s0(s.slot(s.idx, N - 1 - j)))
        m, t = c.bv('m', 32), c.bv('t', 32); c.lemma('remainder of a once-wrapped index', z3.Implies(z3.And(m > 0, z3.ULT(m, V(1 << 30)), z3.ULT(t, m + m)), z3.URem(t, m) == z3.If(z3.ULT(t, m), t, t - m)), timeout=120000)
        c.lemma('a wrapped index is below twice the window', z3.Implies(z3.And(z3.ULT(s.idx, s.W), z3.ULT(m, N), z3.ULE(N, s.W), z3.ULT(s.W, V(1 << 30))), z3.ULT(s.W + s.idx - N + m, s.W + s.W)))
def lt(k, a, b): return a < b if k == 'i16' else z3.ULT(a, b)
for k in ('u32', 'i16'):
    @contract('minimum and maximum/' + k, T, init_globals=G)
    def _(c, k=k):
        s = S(c, k); n = 8 * s.E; st = s.st; i = z3.BitVec('i', 32); mn, mx = c.bv('cached_min', n), c.bv('cached_max', n); c.set(s.h, c.off(k, '_min_value'), s.E, mn, st); c.set(s.h, c.off(k, '_max_value'), s.E, mx, st)
        less = {'min_': lambda a, b: lt(k, a, b), 'max_': lambda a, b: lt(k, b, a)}
        among = lambda a, v: z3.Exists([i], z3.And(z3.ULT(i, s.W), z3.Select(a, i) == v), patterns=[z3.Select(a, i)])
        def good(st, lo, hi, upto, a): return z3.And(among(a, lo), among(a, hi))
        def bound(lo, hi, upto, a, down=False): return z3.ForAll([i], z3.Implies(z3.Or(i == 0, z3.And(z3.ULT(i, s.W), z3.ULT(s.W - 1 - i, upto))) if down else z3.ULE(i, upto), z3.And(z3.Not(lt(k, z3.Select(a, i), lo)), z3.Not(lt(k, hi, z3.Select(a, i))))), patterns=[z3.Select(a, i)])
        fv = lambda st: (s.f(st, '_min_value', s.E), s.f(st, '_max_value', s.E))
        st.assume(z3.Implies(s.flg & 0x08 != 0, good(st, mn, mx, s.W - 1, s.a0))); st.assume(z3.Implies(s.flg & 0x08 != 0, bound(mn, mx, s.W - 1, s.a0)))
        c.ex.default_loop = LoopPolicy('inv', cands=lambda v: [('in range', lambda w: z3.ULE(w.it, s.W - 1)), ('extremes are samples', lambda w: good(w.st, *fv(w.st), w.it, s.arr(w.st))), ('none beyond', lambda w: bound(*fv(w.st), w.it, s.arr(w.st))), ('none beyond, from the end', lambda w: bound(*fv(w.st), w.it, s.arr(w.st), True))])
        for fn in ('min_', 'max_'):
            for st, r in c.run(fn + k, [Ptr(s.h)], s.st.copy()):
                r = c.lift(r, n); j = c.bv('j', 32); s2 = st.copy(); s2.assume(z3.And(s.full, z3.ULT(j, s.W)))
                c.post(s2, 'no sample of the window is beyond it', z3.Not(less[fn](s.s0(j), r))); c.post(s2, 'it is a sample of the window', z3.Implies(s.full, among(s.a0, r)))
                f2 = s.f(st, '_flags', 1); c.post(st, 'other statistics keep their validity', f2 & ~V(8, 8) == s.flg & ~V(8, 8)); c.post(st, 'marked valid only when computed', z3.Implies(f2 & 8 != 0, z3.And(s.full, good(st, *fv(st), s.W - 1, s.arr(st))))); s.same(st, '_flags')
                c.sat_cover(st, 'recomputed', z3.And(s.full, s.flg & 8 == 0))
def fp_stubs(c):
    def pw(ex, st, a, i):
        assert conc(a[1]) and a[1] == 0x4000000000000000        # the second power only
        return [(st, ex.fuf('fmul', [a[0], a[0]], 64, st))]
    return [(r'pow', pw), (r'sqrt', lambda ex, st, a, i: [(st, ex.fuf('sqrt', [a[0]], 64, st))])]
for k in ('u32', 'f32'):
    @contract('statistics/' + k, T, init_globals=G)
    def _(c, k=k):
        s = S(c, k); ex = c.ex; st = s.st; ex.stubs = fp_stubs(c); i = z3.BitVec('i', 32); B64 = z3.BitVecSort(64); U = lambda op, *a: ex.A.lift(ex.fuf(op, list(a), 64, st), 64)
        D = (lambda x: U('uitofp', x)) if k == 'u32' else (lambda x: U('fpext', x)); cv = {}
        for nm in ('_mean', '_rms', '_stdev', '_snr'): cv[nm] = c.bv('cached' + nm, 64); c.set(s.h, c.off(k, nm), 8, cv[nm], st)
        SUM, SQ, DEV = (z3.Function(x, z3.BitVecSort(32), B64) for x in ('SUM', 'SQUARES', 'DEVIATIONS'))      # ghost: sums over the first i samples, in window order
        Z = V(0, 64); mean = U('fdiv', SUM(s.W), U('uitofp', s.W)); sq = lambda x: U('fmul', x, x)
        rms = U('sqrt', U('fdiv', SQ(s.W), U('uitofp', s.W))); std = U('sqrt', U('fdiv', DEV(s.W), U('uitofp', s.W))); snr = U('fdiv', sq(mean), sq(std))
        for F, t in ((SUM, lambda x: D(x)), (SQ, lambda x: sq(D(x))), (DEV, lambda x: sq(U('fsub', D(x), mean)))):
            st.assume(F(V(0)) == Z); st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, s.W), F(i + 1) == U('fadd', F(i), t(s.s0(i)))), patterns=[s.s0(i)]))
        want = {'mean': (mean, 0x10, '_mean'), 'rms': (rms, 0x20, '_rms'), 'std': (std, 0x40, '_stdev'), 'snr': (snr, 0x04, '_snr')}
        for e, b, nm in want.values(): st.assume(z3.Implies(s.flg & b != 0, cv[nm] == e))
        def cands(v): return [('in range', lambda w: z3.ULE(w.it, s.W))] + [('%s is %s so far' % (nm, F), lambda w, nm=nm, F=F: ex.A.lift(w.ph[nm], 64) == F(w.it)) for nm, ty in v.tys.items() if ty.k == 'double' for F in (SUM, SQ, DEV)]
        ex.default_loop = LoopPolicy('inv', cands=cands)
        for fn, (e, b, nm) in want.items():
            for st2, r in c.run(fn + '_' + k, [Ptr(s.h)], st.copy()):
                s2 = st2.copy(); s2.assume(s.full if fn == 'mean' else z3.And(s.full, s.W > 1)) ; ok = ex.feasible(s2)
                if ok: c.post(s2, fn + ' is computed from the samples of the whole window', ex.A.lift(r, 64) == e)
                f2 = s.f(st2, '_flags', 1); c.post(st2, 'valid statistics are right', z3.And([z3.Implies(f2 & b2 != 0, s.f(st2, n2, 8) == e2) for e2, b2, n2 in want.values()])); c.post(st2, 'valid only with a full window', z3.Implies(f2 & STATS != 0, s.full)); s.same(st2, '_flags')
                c.sat_cover(st2, fn + ' recomputed', z3.And(s.full, s.W > 1, s.flg & b == 0))
for k in ('u32', 'i16'):
    @contract('median/' + k, T, init_globals=G, vla_limit=1 << 16, houdini_timeout=12000, isolate=True)
    def _(c, k=k):
        s = S(c, k); n = 8 * s.E; st = s.st; st.assume(z3.And(z3.UGT(s.W, 1), z3.ULE(s.W, (1 << 16) // s.E))); le = lambda a, b: z3.Not(lt(k, b, a))
        B32 = z3.BitVecSort(32); AR = z3.ArraySort(B32, z3.BitVecSort(n)); i, j = z3.BitVec('i', 32), z3.BitVec('j', 32); a, b = z3.Const('a', AR), z3.Const('b', AR); v = z3.BitVec('val', n)
        X = c.bv('pivot', n); below = lambda e: z3.If(lt(k, e, X), V(1), V(0)); C = z3.Function('BELOW', AR, B32)      # ghost: how many of the W elements are below the pivot (an arbitrary value)
        CN = z3.Function('BELOW_AMONG', AR, B32, B32); DIFF = z3.Function('DIFF', AR, B32)                              # ... of the first n elements; C(a) is CN(a, W)
        defn = lambda a, m: CN(a, m + 1) == CN(a, m) + below(z3.Select(a, m))
        m, q = z3.BitVec('m', 32), z3.BitVec('q', 32); A0, A1 = z3.Const('A0', AR), z3.Const('A1', AR)
        upd = lambda a, q, v, m: z3.If(z3.ULT(q, m), below(v) - below(z3.Select(a, q)), V(0))
        c.lemma('count after an update (induction step)', z3.Implies(z3.And(z3.ULT(m, s.W), CN(z3.Store(A0, q, v), m) == CN(A0, m) + upd(A0, q, v, m), defn(A0, m), defn(z3.Store(A0, q, v), m)), CN(z3.Store(A0, q, v), m + 1) == CN(A0, m + 1) + upd(A0, q, v, m + 1)))
        c.lemma('count depends on the elements only (induction step)', z3.Implies(z3.And(CN(A0, m) == CN(A1, m), z3.Select(A0, m) == z3.Select(A1, m), defn(A0, m), defn(A1, m)), CN(A0, m + 1) == CN(A1, m + 1)))
        c.lemma('count is at most the length (induction step)', z3.Implies(z3.And(z3.ULE(CN(A0, m), m), z3.ULT(m, s.W), defn(A0, m)), z3.ULE(CN(A0, m + 1), m + 1)), [z3.ULT(s.W, 1 << 20)])
        M = c.bv('middle', 32); srt = z3.ForAll([i, j], z3.Implies(z3.And(z3.ULE(i, j), z3.ULT(j, s.W)), le(z3.Select(A0, i), z3.Select(A0, j))), patterns=[z3.MultiPattern(z3.Select(A0, i), z3.Select(A0, j))]); small = z3.ULT(s.W, 1 << 20)
        c.lemma('in a sorted array, no more than m elements are below one not above element m (induction step)', z3.Implies(z3.And(z3.ULT(M, s.W), z3.ULT(m, s.W), z3.UGE(m, M), le(X, z3.Select(A0, M)), z3.ULE(CN(A0, m), M), defn(A0, m)), z3.ULE(CN(A0, m + 1), M)), [srt, small])
        c.lemma('in a sorted array, all of the first m+1 elements are below one above element m (induction step)', z3.Implies(z3.And(z3.ULT(M, s.W), z3.ULT(m, s.W), lt(k, z3.Select(A0, M), X), z3.UGE(CN(A0, m), z3.If(z3.ULT(m, M + 1), m, M + 1)), z3.ULE(CN(A0, m), m), defn(A0, m)), z3.UGE(CN(A0, m + 1), z3.If(z3.ULT(m + 1, M + 1), m + 1, M + 1))), [srt, small])
        st.assume(z3.ForAll([a, i, v], z3.Implies(z3.ULT(i, s.W), C(z3.Store(a, i, v)) == C(a) + below(v) - below(z3.Select(a, i))), patterns=[C(z3.Store(a, i, v))]))
        st.assume(z3.ForAll([a], z3.Or(C(a) == C(s.a0), z3.And(z3.ULT(DIFF(a), s.W), z3.Select(a, DIFF(a)) != s.s0(DIFF(a)))), patterns=[C(a)]))
        def arr(w):
            hs = [h for h, o in w.mem.items() if hasattr(o, 'size') and not conc(o.size) and h not in (s.h, s.m) and not o.heap]      # the variable-length array
            if hs and w.mem[hs[0]].arr is None: c.ex.to_arr(w, hs[0])
            return w.mem[hs[0]].arr if hs else None
        def cands(v):
            if arr(v.st) is None: return []
            out = [('in range', lambda w: z3.ULE(w.it, s.W)), ('copied so far', lambda w: forall(i, z3.Implies(z3.ULT(i, w.it), z3.Select(arr(w.st), i) == s.s0(i)), z3.Select(arr(w.st), i))),
                   ('same elements', lambda w: C(arr(w.st)) == C(s.a0)),
                   ('sorted so far', lambda w: z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, w.it), z3.ULE(i, j), z3.ULT(j, s.W)), le(z3.Select(arr(w.st), i), z3.Select(arr(w.st), j))), patterns=[z3.MultiPattern(z3.Select(arr(w.st), i), z3.Select(arr(w.st), j))]))]
            for nm, ty in v.tys.items():
                if ty.k == 'i' and ty.n == 32:
                    out.append(('%s: smallest so far' % nm, lambda w, nm=nm: z3.ForAll([i], z3.Implies(z3.And(z3.ULE(c.lift(w.ph0[nm], 32), i), z3.ULE(i, c.lift(w.ph0[nm], 32) + w.it)), le(z3.Select(arr(w.st), c.lift(w.ph[nm], 32)), z3.Select(arr(w.st), i))), patterns=[z3.Select(arr(w.st), i)])))
                    out.append(('%s: within' % nm, lambda w, nm=nm: z3.And(z3.ULE(c.lift(w.ph0[nm], 32), c.lift(w.ph[nm], 32)), z3.ULE(c.lift(w.ph[nm], 32), c.lift(w.ph0[nm], 32) + w.it))))
                    out.append(('%s: the end is within' % nm, lambda w, nm=nm: z3.ULT(c.lift(w.ph0[nm], 32) + w.it, s.W)))
            return out
        c.ex.default_loop = LoopPolicy('inv', cands=cands); cm = c.bv('cached_median', n); c.set(s.h, c.off(k, '_median'), s.E, cm, st)
        for st2, r in c.run('med_' + k, [Ptr(s.h)], st.copy()):
            s.same(st2, '_flags'); s2 = st2.copy(); s2.assume(z3.And(s.full, s.flg & 0x80 == 0)); mid = z3.LShR(s.W - 1, 1); r = c.lift(r, n)
            if not c.ex.feasible(s2): c.post(st2, 'otherwise the cached median', r == cm); c.post(st2, 'and nothing is marked valid', s.f(st2, '_flags', 1) == s.flg); continue
            c.post(st2, 'marked valid', s.f(st2, '_flags', 1) == s.flg | 0x80); A = arr(st2); assert A is not None
            c.post(s2, 'the sorted copy holds the samples of the window', C(A) == C(s.a0))
            so = lambda A: z3.ForAll([i, j], z3.Implies(z3.And(z3.ULE(i, j), z3.ULT(j, s.W)), le(z3.Select(A, i), z3.Select(A, j))), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])
            u, w_ = c.bv('u', 32), c.bv('w', 32); s3 = s2.copy(); s3.assume(z3.And(z3.ULE(u, w_), z3.ULT(w_, s.W))); c.post(s3, 'the copy is sorted', le(z3.Select(A, u), z3.Select(A, w_)))
            lo, hi = z3.Select(A, mid), z3.Select(A, mid + 1); odd = s.W & 1 == 1; ext = z3.ZeroExt if k == 'u32' else z3.SignExt; R2 = 2 * ext(4, r); S2 = ext(4, lo) + ext(4, hi)
            c.post(s2, 'odd window: the median is the middle sample', z3.Implies(odd, r == lo)); s4 = s2.copy(); s4.assume(le(lo, hi)) ; c.post(s2, 'the two middle samples are ordered', z3.Implies(z3.Not(odd), le(lo, hi)))
            c.post(s4, 'even window: the median is half-way between the two middle samples', z3.Implies(z3.Not(odd), z3.And(le(lo, r), le(r, hi), R2 - S2 <= 1, S2 - R2 <= 1)))
            # what a sorted copy with the same elements says about the samples (lemmas above, at element `mid`)
            s5 = s4.copy(); s5.assume(z3.And(z3.Implies(le(X, lo), z3.ULE(C(A), mid)), z3.Implies(lt(k, lo, X), z3.UGE(C(A), mid + 1)), z3.Implies(le(X, hi), z3.ULE(C(A), mid + 1)), z3.Implies(lt(k, hi, X), z3.UGE(C(A), mid + 2)), C(A) == C(s.a0), z3.Implies(odd, r == lo), z3.Implies(z3.Not(odd), z3.And(le(lo, r), le(r, hi)))))
            c.post(s5, 'at most half the samples are below the median, at least half not above it', z3.And(z3.Implies(le(X, r), z3.ULE(C(s.a0), z3.If(odd, mid, mid + 1))), z3.Implies(lt(k, r, X), z3.UGE(C(s.a0), mid + 1))))
            c.sat_cover(s2, 'even', z3.Not(odd)) ; c.sat_cover(s2, 'odd', odd)
for k in KS:
    @contract('life cycle/' + k, T, init_globals=G)
    def _(c, k=k):
        x = z3.BitVec('x', 32)
        for own in (True, False):
            s = S(c, k, own); z = V(0, 8 * s.E)
            def cands(v, s=s):
                def zeros(w):
                    p = c.getp(w.st, s.h, c.off(k, 'samples'))
                    if p.reg is None: return z3.BoolVal(True)
                    c.ex.to_arr(w.st, p.reg); a = w.st.mem[p.reg].arr; return forall(x, z3.Implies(z3.ULT(x, w.it), z3.Select(a, x) == z), z3.Select(a, x))
                return [('in range', lambda w: z3.ULE(w.it, s.f(w.st, '_window_size'))), ('zeroed so far', zeros)]
            c.ex.default_loop = LoopPolicy('inv', cands=cands)
            def empty(st, what, W, mem):
                c.post(st, what + ': no samples, no valid statistics, not dirty', z3.And(s.f(st, '_samples_total') == 0, s.f(st, '_sample_idx') == 0, s.f(st, '_flags', 1) & STATS == 0, s.f(st, '_last_trace', 2) == 0, s.f(st, '_flags', 1) & 3 == (3 if own else 1), s.f(st, '_window_size') == W))
                j = c.bv('j', 32); s2 = st.copy(); s2.assume(z3.ULT(j, W)); c.ex.to_arr(s2, mem); c.post(s2, what + ': every sample is zero', z3.Select(s2.mem[mem].arr, j) == z); c.post(st, what + ': the memory holds the whole window', z3.UGE(c.lift(st.mem[mem].size, 32), W * s.E))
            # a fresh object: not initialised, refuses to be used
            w0 = s.fresh.copy(); c.post(w0, 'a new series is not initialised and holds nothing', z3.And(s.f(w0, '_flags', 1) == (2 if own else 0), s.f(w0, '_samples_total') == 0, s.f(w0, '_sample_idx') == 0, s.f(w0, '_window_size') == s.W))
            for st, r in c.run('feed_' + k, [Ptr(s.h), c.bv('v', 8 * s.E)], w0.copy()): c.post(st, 'samples are refused until initialised', z3.And(c.lift(r, 32) == 0xFFFFFFFF, s.f(st, '_samples_total') == 0))
            for st, r in c.run('bulk_' + k, [Ptr(s.h)], w0.copy()): c.post(st, 'bulk updates are refused until initialised', z3.And(c.lift(r, 32) == 0xFFFFFFFF, s.f(st, '_samples_total') == 0))
            for st, r in c.run('val_' + k, [Ptr(s.h)], w0.copy()): c.post(st, 'no value until initialised', c.lift(r, 8 * s.E) == z)
            for st, r in c.run('win_' + k, [Ptr(s.h)], w0.copy()): c.post(st, 'no window until initialised', c.lift(r, 32) == 0)
            for st, r in c.run('init_' + k, [Ptr(s.h)], w0.copy()):
                p = c.getp(st, s.h, c.off(k, 'samples'))
                if p.reg is None: c.post(st, 'without memory initialisation fails and nothing is usable', z3.And(z3.BoolVal(own), c.lift(r, 32) != 0, s.f(st, '_flags', 1) & 1 == 0, s.f(st, '_samples_total') == 0)); c.sat_cover(st, 'no memory', z3.BoolVal(own)); continue
                c.post(st, 'initialised', c.lift(r, 32) == 0); empty(st, 'after init', s.W, p.reg)
            # a series in use
            for st, r in c.run('purge_' + k, [Ptr(s.h)], s.st.copy()): c.post(st, 'purged', c.lift(r, 32) == 0); empty(st, 'after purge', s.W, s.m)
            n = c.bv('newsize', 32); s0 = s.st.copy(); s0.assume(z3.ULT(n, (1 << 31) // s.E))
            for st, r in c.run('resize_' + k, [Ptr(s.h), n], s0):
                p = c.getp(st, s.h, c.off(k, 'samples')); same = p.reg == s.m; gone = st.mem[s.m].alive is not True; r = c.lift(r, 32)
                c.post(st, 'the old memory is released exactly when it is replaced', z3.BoolVal(gone == (not same)))
                if same:
                    if own: c.post(st, 'the same window', n == s.W)
                    s2 = st.copy(); s2.assume(n == s.W)
                    if c.ex.feasible(s2): c.post(s2, 'same size: purged', r == 0); empty(s2, 'same size', s.W, s.m)
                    s2 = st.copy(); s2.assume(n != s.W)
                    if not own and c.ex.feasible(s2): c.post(s2, 'memory of the caller is never resized', r != 0); s.same(s2)
                    continue
                c.post(st, 'only its own memory is replaced', z3.BoolVal(own))
                if p.reg is None:
                    c.post(st, 'without memory: not usable, and reported unless a size of zero was asked for', z3.And((r == 0) == (n == 0), s.f(st, '_flags', 1) & 1 == 0, s.f(st, '_samples_total') == 0)); c.sat_cover(st, 'no memory for the new size', n != 0); continue
                c.post(st, 'resized', z3.And(r == 0, n != 0)); empty(st, 'resized', n, p.reg)
            for st, r in c.run('rm_' + k, [Ptr(s.h)], s.st.copy()): c.post(st, 'destruction releases exactly its own memory', z3.BoolVal((st.mem[s.m].alive is not True) == own))
            for st, r in c.run('rm_' + k, [Ptr(s.h)], w0.copy()): c.post(st, 'destruction of an unused series releases nothing', z3.BoolVal(st.mem[s.m].alive is True))
