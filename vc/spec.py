"""Contracts: a specification module registers contracts; each one runs the real function(s) symbolically
from an arbitrary pre-state and states postconditions as obligations."""
import sys, os, time, traceback, importlib, multiprocessing as mp, signal
import z3
import build, irparse
from engine import *
import engine as _engine

class Contract:
    def __init__(s, name, tus, mode, fn, kw, tier):
        s.name, s.tus, s.mode, s.fn, s.kw, s.tier = name, tus, mode, fn, kw, tier

REG = []
def contract(name, tus, mode='bv', tier='quick', **kw):
    """tier: 'quick' contracts run always, 'thorough' ones only in the thorough tier."""
    def deco(fn):
        REG.append(Contract(name, [tus] if isinstance(tus, str) else list(tus), mode, fn, kw, tier)); return fn
    return deco

TEXT = {}      # TU name -> text, for units that instantiate header templates
def tu_text(name, text): TEXT[name] = text; return name

def offs(tag, cls, *names):
    """text of accessor functions giving the compiler's own field offsets (private members made visible by '#define private public', which changes no layout)"""
    return ''.join('extern "C" unsigned off_%s_%s() { return __builtin_offsetof(%s, %s); }\n' % (tag, n.replace('.', '_'), cls, n) for n in names) + 'extern "C" unsigned sz_%s() { return sizeof(%s); }\n' % (tag, cls)

_ForAll = z3.ForAll
def _safe_forall(vs, body, *a, **k):
    """z3.ForAll, without its patterns where z3 refuses them (an ite inside a pattern)"""
    try: return _ForAll(vs, body, *a, **k)
    except z3.Z3Exception: k.pop('patterns', None); return _ForAll(vs, body, *a, **k)
z3.ForAll = _safe_forall
def forall(vs, body, *pats):
    """quantified formula with a pattern where the pattern is legal"""
    vs = vs if isinstance(vs, list) else [vs]
    if all(p.children() and z3.is_const(p.children()[0]) or p.decl().kind() == z3.Z3_OP_UNINTERPRETED for p in pats) and pats:
        return z3.ForAll(vs, body, patterns=[pats[0]] if len(pats) == 1 else [z3.MultiPattern(*pats)])
    return z3.ForAll(vs, body)

COREL = ['AbstractPlatform.cpp', 'CppPotpourri.cpp', 'StringBuilder.cpp', 'uuid.cpp', 'Identity/*.cpp']
VALUEL = COREL + ['C3PValue/*.cpp', 'cbor-cpp/*.cpp', 'EnumeratedTypeCodes.cpp', 'TimerTools/*.cpp', 'Image/*.cpp', 'TimeSeries/*.cpp']
class AllGlobals:
    def __contains__(s, x): return True

class Ctx:
    def __init__(s, name, ex):
        s.name, s.ex = name, ex; s.st = State(); s.inputs = {}; s.under = []; s.nposts = 0; s.covers = []
        s.A = ex.A
    # ---- inputs
    def bv(s, nm, n):
        v = z3.Bool(nm) if n == 1 else z3.BitVec(nm, n); s.inputs[nm] = v; return v
    def int(s, nm, n=None, lo=None, hi=None, st=None):
        v = z3.Int(nm); s.inputs[nm] = v; st = st or s.st
        if n is not None: st.assume(z3.And(v >= 0, v < (1 << n)))
        if lo is not None: st.assume(v >= lo)
        if hi is not None: st.assume(v <= hi)
        return v
    def obj(s, nm, size, st=None, **kw): return s.ex.new_obj(st or s.st, nm, size, **kw)
    def set(s, h, off, nbytes, v, st=None): s.ex.put_cell(st or s.st, h, off, nbytes, v)
    def get(s, st, h, off, nbytes):
        ty = Ty('i', 8 * nbytes); return s.ex.load(st, Ptr(h, off), ty)
    def getp(s, st, h, off): return s.ex.load(st, Ptr(h, off), PTRTY)
    def lift(s, v, n): return s.A.lift(v, n)
    def off(s, tag, name):
        (_, r), = s.ex.run('off_%s_%s' % (tag, name.replace('.', '_')), [], State()); return r
    def sizeof(s, tag):
        (_, r), = s.ex.run('sz_' + tag, [], State()); return r
    # ---- running
    def run(s, pat, args, st=None, cover=True):
        f = pat if not isinstance(pat, str) else s.ex.find(pat)
        if f.demangled not in s.under: s.under.append(f.demangled)
        outs = s.ex.run(f, args, (st or s.st))
        outs = [(x, r) for x, r in outs if not x.dead]
        if cover: s.cover(f, outs)
        return outs
    def cover(s, f, outs):
        ok = False
        for x, r in outs:
            res, _, _ = s.ex._check(s.ex.qf(x), 5000)
            if res == z3.sat: ok = True; break
        if not ok:
            s.ex.obls.append(Oblig('vacuity: an exit of the function is reachable under the precondition', f.demangled, 0, 'refuted', 0, 'z3', None, 'cover'))
        else:
            s.ex.obls.append(Oblig('vacuity: an exit of the function is reachable under the precondition', f.demangled, 0, 'discharged', 0, 'z3', None, 'cover'))
    def post(s, st, name, goal, timeout=None):
        s.nposts += 1
        return s.ex.prove(st, goal, name, kind='post', timeout=timeout)
    def sat_cover(s, st, name, cond):
        """this situation must be possible (guards against vacuous specs)"""
        r, _, _ = s.ex._check(s.ex.qf(st) + [cond if not isinstance(cond, bool) else z3.BoolVal(cond)], 5000)
        s.covers.append((name, r == z3.sat)); return r == z3.sat
    def require_cover(s):
        by = {}
        for n, ok in s.covers: by[n] = by.get(n, False) or ok
        for n, ok in by.items():
            s.ex.obls.append(Oblig('vacuity: %s' % n, s.name, 0, 'discharged' if ok else 'refuted', 0, 'z3', None, 'cover'))
    def lemma(s, name, goal, assumptions=(), timeout=None):
        st = State(); st.pc = list(assumptions); s.nposts += 1
        s.ex.prove(st, goal, name, kind='lemma', timeout=timeout)

PTRTY = Ty('ptr')

def model_text(c, m):
    if m is None: return ''
    out = []
    for nm, v in c.inputs.items():
        try: x = m.eval(v, model_completion=True)
        except Exception: continue
        if isinstance(x, z3.BitVecNumRef): out.append('%s=%d' % (nm, x.as_long()))
        elif isinstance(x, z3.IntNumRef): out.append('%s=%d' % (nm, x.as_long()))
        else: out.append('%s=%s' % (nm, str(x)[:60]))
    return ' '.join(out)

RETRY = 1; KILLED = set()
def run_contract(con, mods, tier, limit):
    t0 = time.time()
    kw = dict(con.kw); pre = kw.pop('setup', None)
    attrs = {k: kw.pop(k) for k in list(kw) if k in ('merge', 'alloc_pool', 'indirect', 'unwind', 'default_loop', 'nullable_malloc', 'vla_limit', 'bv_esz', 'fp', 'houdini_timeout', 'init_globals', 'isolate', 'simple')}
    ex = Engine([mods[t] for t in con.tus], con.mode, name=con.name, **kw)
    for k, v in attrs.items(): setattr(ex, k, v)
    ex.deadline = time.time() + limit; ex.tier = tier
    if RETRY > 1:
        ex.isolate = True
        if con.name not in KILLED: ex.retry = RETRY; ex.houdini_timeout *= RETRY; ex.timeout *= 2
    c = Ctx(con.name, ex); err = None
    try:
        con.fn(c); c.require_cover()
    except ToolLimit as e: err = 'tool limit: %s' % e
    except z3.Z3Exception as e: err = 'solver error: %s' % e; (os.environ.get('C3P_TB') and traceback.print_exc())
    except Exception as e: err = 'extraction error: %s' % (traceback.format_exc()[-1500:])
    if err is None and c.nposts == 0: err = 'vacuous: no postcondition was generated'
    obl = []
    for o in ex.obls:
        obl.append(dict(name=o.name, fn=o.fn, line=o.line, status=o.status, secs=round(o.secs, 3), backend=o.backend, kind=o.kind,
                        cex=model_text(c, o.model) if o.status != 'discharged' else ''))
    fns = sorted(set(c.under)); inl = sorted(set(ex.inlined) - set(fns))
    return dict(contract=con.name, obligs=obl, error=err, functions=fns, inlined=inl, contracts_used=sorted(ex.used_contracts), abstracted=sorted(ex.abs),
                wall=round(time.time() - t0, 2), solver=round(ex.solver_time, 2), mode=con.mode, houdini=ex.houdini_log)

def _child(con, mods, tier, limit, conn):
    try: r = run_contract(con, mods, tier, limit)
    except BaseException as e:
        r = dict(contract=con.name, obligs=[], error='extraction error: ' + traceback.format_exc()[-1500:], functions=[], inlined=[], contracts_used=[], abstracted=[], wall=0, solver=0, mode=con.mode, houdini=[])
    conn.send(r); conn.close()

def load(prop):
    REG.clear(); TEXT.clear()
    sys.path.insert(0, os.path.join(build.VERIF, 'specs'))
    return importlib.import_module(prop)

def prepare(work, tus):
    """compile + parse the units in parallel -> {name: module}"""
    from concurrent.futures import ThreadPoolExecutor
    work.overlay()
    with ThreadPoolExecutor(8) as p: irs = list(p.map(lambda t: work.ir(t, TEXT.get(t)), tus))
    mods = {}
    for t, ir in zip(tus, irs):
        m = irparse.parse_module(ir); ns = list(m.funcs)
        for n, d in zip(ns, build.demangle(ns)): m.funcs[n].demangled = d
        mods[t] = m
    return mods

def run_all(mods, cons, tier, limit, jobs=8, deadline=None):
    """each contract in its own process"""
    pend = list(cons); running = []; res = []
    while pend or running:
        while pend and len(running) < jobs:
            con = pend.pop(0); a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=_child, args=(con, mods, tier, max(5, min(limit, deadline - time.time())) if deadline else limit, b)); p.start(); b.close()
            running.append((con, p, a, time.time()))
        for x in list(running):
            con, p, a, t = x
            done = None
            if a.poll(0.02):
                try: done = a.recv()
                except EOFError: done = 'died'
            elif not p.is_alive() and not a.poll(0.05): done = 'died'
            elif time.time() - t > limit + 60 or (deadline and time.time() > deadline + 60): p.kill(); done = 'killed'; KILLED.add(con.name)
            if done is None: continue
            if isinstance(done, str):
                done = dict(contract=con.name, obligs=[], error='contract process %s' % done, functions=[], inlined=[], contracts_used=[], abstracted=[], wall=round(time.time() - t, 1), solver=0, mode=con.mode, houdini=[])
            p.join(); running.remove(x); res.append(done)
    order = {c.name: i for i, c in enumerate(cons)}
    res.sort(key=lambda r: order[r['contract']]); return res
