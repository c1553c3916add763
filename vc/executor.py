from core import *
import core, os, select, signal

class Frame:
    __slots__ = ('fn', 'info')
    def __init__(s, fn, info): s.fn, s.info = fn, info

class Executor:
    def __init__(s, modules, mode='bv', stubs=None, loops=None, fp='uf', timeout=20000, name='', max_paths=20000):
        s.mods = modules
        s.funcs = {}; s.dem = {}
        for m in modules:
            for n, f in m.funcs.items():
                s.funcs.setdefault(n, f)
        s.A = BV(s) if mode == 'bv' else INT(s)
        s.mode = mode; s.stubs = stubs or []; s.loops = loops or []; s.fp = fp
        s.timeout = timeout; s.name = name
        s.cnt = itertools.count(); s.hid = itertools.count(1)
        s.obls = []; s.quiet = 0; s.infos = {}; s.stack = []
        s.solver_time = 0.0; s.nq = 0; s.abs = set(); s.max_paths = max_paths; s.npaths = 0
        s.inlined = set(); s.used_contracts = set(); s.ent_cache = {}
        s._uf = {}; s.cur_line = 0; s.alloc_pool = None; s.houdini_log = []
        s.nullable_malloc = True; s.named = {}
        s.deadline = None; s._smt_dump = None
        s.input_names = []
        s.check_bounds = True
        s.unwind_default = 70

    # ---------------------------------------------------------------- basics
    def uniq(s, nm):
        return '%s!%d' % (nm, next(s.cnt))
    def note_abs(s, what): s.abs.add(what)
    def urem_uf(s, n):
        return s._uf.setdefault(('urem', n), z3.Function('urem%d' % n, z3.IntSort(), z3.IntSort(), z3.IntSort()))
    def new_obj(s, st, name, size, **kw):
        h = next(s.hid); st.mem[h] = Obj(name, size, **kw); return h
    def line(s, ins):
        f = s.stack[-1] if s.stack else None
        if f and ins is not None: return f.module.lines.get(ins.line, 0)
        return 0

    # ---------------------------------------------------------------- solver
    def _check(s, forms, timeout, want_model=False):
        t = time.time()
        if s.deadline and t > s.deadline: raise ToolLimit('time budget')
        sol = z3.SimpleSolver() if False else z3.Solver()
        sol.set('timeout', timeout)
        for f in forms: sol.add(f)
        r = s._solve(sol, timeout, forms, want_model)
        s.solver_time += time.time() - t; s.nq += 1
        return r, (sol.model() if want_model and r == z3.sat else None), sol

    def _ematch(s, forms, timeout):
        t = time.time()
        if s.deadline and t > s.deadline: raise ToolLimit('time budget')
        sol = z3.SimpleSolver() if s.simple else z3.Solver(); sol.set('timeout', timeout); sol.set('mbqi' if s.simple else 'smt.mbqi', False); sol.set('auto_config' if s.simple else 'smt.auto_config', False)
        for f in forms: sol.add(f)
        r = s._solve(sol, timeout, forms); s.solver_time += time.time() - t; s.nq += 1
        s.em_timeout = s.slow if s.isolate else r == z3.unknown and 'incomplete' not in sol.reason_unknown()
        return r

    isolate = False; slow = False; simple = True
    def _solve(s, sol, timeout, forms, want_model=False):
        """the solver does not always honour its time limit: in isolation a query runs in a process of its own that can be ended"""
        if not s.isolate or not any(has_quant(f) for f in forms): return sol.check()
        a, b = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                r = sol.check(); os.write(b, b'u' if r == z3.unsat else b's' if r == z3.sat else b'i' if 'incomplete' in sol.reason_unknown() else b't')
            finally: os._exit(0)
        os.close(b); ok = select.select([a], [], [], timeout / 1000 + 3)[0]; x = os.read(a, 1) if ok else b''; os.close(a)
        if not ok: os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0); s.slow = x in (b't', b'')
        if x == b's' and want_model: return sol.check()
        return {b'u': z3.unsat, b's': z3.sat}.get(x, z3.unknown)

    def qf(s, st):
        return [c for c in st.pc if not has_quant(c)]

    def feasible(s, st, cond=None):
        if cond is False: return False
        forms = s.qf(st)
        if cond is not None and cond is not True: forms.append(cond)
        r, _, _ = s._check(forms, 4000)
        return r != z3.unsat

    def entails(s, st, g):
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        if st is None: return False
        key = (len(st.pc), st.pc[-1].get_id() if st.pc else 0, tuple(c.get_id() for c in st.pc[-4:]), g.get_id())
        v = s.ent_cache.get(key)
        if v is not None and v[1] == tuple(c.get_id() for c in st.pc): return v[0]
        r, _, _ = s._check(s.qf(st) + [z3.Not(g)], 1500)
        res = r == z3.unsat
        s.ent_cache[key] = (res, tuple(c.get_id() for c in st.pc), g, list(st.pc))
        return res

    def prove(s, st, g, name, kind='safety', ins=None, timeout=None):
        """obligation: path condition => g."""
        if s.quiet:
            if isinstance(g, bool):
                return g
            return True
        fn = s.stack[-1].demangled if s.stack else s.name
        ln = s.line(ins)
        if isinstance(g, bool): g = z3.BoolVal(g)
        t0 = time.time(); g2 = z3.simplify(g)
        if z3.is_true(g2):
            s.obls.append(Oblig(name, fn, ln, 'discharged', 0.0, 'simplifier', kind=kind)); return True
        st_, model, be = s.decide(st.pc, g2, timeout or s.timeout)
        s.obls.append(Oblig(name, fn, ln, st_, time.time() - t0, be, model, kind))
        return st_ == 'discharged'

    def decide(s, pc, g, timeout):
        """-> (status, model, backend)"""
        gq = has_quant(g)
        anyq = gq or any(has_quant(c) for c in pc)
        ng = z3.Not(g)
        forms = list(pc) + [ng]
        if anyq:
            r, m, _ = s._check([c for c in pc if not has_quant(c)] + [ng], min(timeout, 3000))
            if r == z3.unsat: return 'discharged', None, 'z3'
        if anyq and s._ematch(forms, min(timeout, 8000)) == z3.unsat: return 'discharged', None, 'z3-ematch'
        r, m, sol = s._check(forms, timeout, True)
        if r == z3.unsat: return 'discharged', None, 'z3'
        if r == z3.sat: return 'refuted', m, 'z3'
        if anyq:
            if s._ematch(forms, timeout) == z3.unsat: return 'discharged', None, 'z3-ematch'
        r = s.cvc5(sol, timeout)
        if r == 'unsat': return 'discharged', None, 'cvc5'
        m = None
        if anyq:
            r2, m, _ = s._check([c for c in pc if not has_quant(c)] + [ng], 3000, True)
        return 'unknown', m, 'z3+cvc5'

    def cvc5(s, sol, timeout):
        t = time.time()
        try:
            txt = '(set-logic ALL)\n' + sol.to_smt2()
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 10)
            o = r.stdout.strip().split('\n')[0] if r.stdout else ''
        except Exception:
            o = ''
        s.solver_time += time.time() - t
        return o

    # ---------------------------------------------------------------- values
    def fresh(s, nm, ty, st):
        if ty.k == 'i': return s.A.fresh(nm, ty.n, st)
        if ty.k == 'float': return s.A.fresh(nm, 32, st)
        if ty.k == 'double': return s.A.fresh(nm, 64, st)
        if ty.k == 'x86_fp80': return s.A.fresh(nm, 80, st)
        if ty.k == 'ptr': return Ptr(Opq(z3.Int(s.uniq(nm))))
        raise ToolLimit('fresh ' + ty.k)

    def width(s, ty):
        return {'i': ty.n, 'float': 32, 'double': 64, 'x86_fp80': 80}.get(ty.k, 0)

    def const(s, c, st):
        if c.k == 'int':
            return bool(c.v) if c.ty.n == 1 else c.v
        if c.k == 'fp': return c.v
        if c.k == 'null': return NULL
        if c.k == 'undef':
            if c.ty.k == 'st' or c.ty.k == 'arr': return ('agg', {})
            if c.ty.k == 'metadata': return None
            return s.fresh('undef', c.ty, st) if c.ty.k != 'ptr' else Ptr(Opq(z3.Int(s.uniq('undefp'))))
        if c.k == 'zero':
            if c.ty.k == 'i': return False if c.ty.n == 1 else 0
            if c.ty.k in ('float', 'double'): return 0
            if c.ty.k == 'ptr': return NULL
            return ('agg', {'zero': 1})
        if c.k == 'global': return s.gptr(c.v, st)
        if c.k == 'gep':
            bt, a = c.v
            return s.gep(s.const(a[0], st), bt, [(s.const(x, st), x.ty) for x in a[1:]], st)
        if c.k == 'cexpr':
            op = c.v[0]
            if op in ('bitcast', 'addrspacecast'): return s.const(c.v[1], st)
            if op in ('ptrtoint', 'inttoptr'):
                return s.const(c.v[1], st)
            if op == 'icmp':
                return s.cmpv(c.v[3], s.const(c.v[1], st), s.const(c.v[2], st), c.v[1].ty, st)
            x, y = s.const(c.v[1], st), s.const(c.v[2], st)
            if isinstance(x, Ptr) or isinstance(y, Ptr): raise ToolLimit('const ptr arith')
            return s.A.bin(op, x, y, c.v[1].ty.n, st)
        raise ToolLimit('const ' + c.k)

    def gptr(s, name, st):
        for m in s.mods:
            if name in m.aliases: return s.const(m.aliases[name], st)
        if name in s.funcs: return Ptr(Fn(name))
        h = 'g:' + name
        if h in st.mem: return Ptr(h)
        cand = None
        for m in s.mods:
            if name in m.globals:
                g = m.globals[name]
                if cand is None or cand[1] is None: cand = g
        if cand is None:
            return Ptr(Fn(name))
        t, init, ro = cand
        o = Obj(name, size(t) if t.k != 'st' or t.f is not None else 0, ro=ro)
        if init is not None and (ro or h in getattr(s, 'init_globals', ())):
            s.fill(o, 0, t, init, st)
        st.mem[h] = o
        return Ptr(h)

    def fill(s, o, off, t, c, st):
        if c.k == 'zero':
            if t.k == 'arr':
                for i in range(min(t.n, 4096)): s.fill(o, off + i * size(t.e), t.e, Const('zero', t.e), st)
            elif t.k == 'st':
                of = offsets(t)
                for i, f in enumerate(t.f): s.fill(o, off + of[i], f, Const('zero', f), st)
            else: o.cells[off] = (size(t), s.const(c, st))
        elif c.k == 'str':
            for i, b in enumerate(c.v): o.cells[off + i] = (1, b)
        elif c.k == 'agg':
            if t.k == 'arr':
                for i, x in enumerate(c.v): s.fill(o, off + i * size(t.e), t.e, x, st)
            else:
                of = offsets(t)
                for i, x in enumerate(c.v): s.fill(o, off + of[i], t.f[i], x, st)
        elif c.k == 'undef': pass
        else:
            o.cells[off] = (size(t), LazyC(c))

    def ev(s, v, env, st):
        if isinstance(v, Loc):
            try: r = env[v.name]
            except KeyError: raise ToolLimit('undefined %' + v.name)
            if type(r).__name__ == '_Poison': raise ToolLimit('use of a value that differs in kind between merged paths: %' + v.name)
            return r
        return s.const(v, st)

    # ---------------------------------------------------------------- pointers
    def gep(s, p, bt, idx, st):
        if not isinstance(p, Ptr): raise ToolLimit('gep on non-pointer')
        c = p.c; t = list(p.t); ty = bt; first = True
        for v, vt in idx:
            if first:
                sz = size(ty); first = False
                c, t = s.addoff(c, t, v, vt, sz, st)
            else:
                if ty.k == 'st':
                    if not conc(v): raise ToolLimit('gep struct idx')
                    c += offsets(ty)[v]; ty = ty.f[v]
                elif ty.k in ('arr', 'vec'):
                    ty = ty.e; c, t = s.addoff(c, t, v, vt, size(ty), st)
                else: raise ToolLimit('gep into ' + ty.k)
        if p.reg is None and not t and c == 0: return NULL
        return Ptr(p.reg, c, tuple(t))

    def addoff(s, c, t, v, vt, sz, st):
        n = vt.n
        if conc(v): return c + tosigned(int(v), n) * sz, t
        if s.mode == 'bv':
            if n < 32: v = s.A.cast('sext', v, n, 32)
            elif n > 32: v = s.A.cast('trunc', v, n, 32)
            if conc(v): return c + tosigned(v, 32) * sz, t
        else:
            v = s.A.sgn(v, n, st)
            if isinstance(v, z3.IntNumRef): return c + v.as_long() * sz, t
        t = list(t)
        for i, (k, x) in enumerate(t):
            if x.eq(v):
                t[i] = (k + sz, x)
                if t[i][0] == 0: t.pop(i)
                return c, t
        t.append((sz, v)); return c, t

    def off(s, p):
        """offset as an int or a term"""
        if not p.t: return p.c
        if s.mode == 'bv':
            r = z3.BitVecVal(p.c & mask(32), 32)
            for k, x in p.t: r = r + (x if k == 1 else x * z3.BitVecVal(k & mask(32), 32))
            r = z3.simplify(r)
            return tosigned(r.as_long(), 32) if isinstance(r, z3.BitVecNumRef) else r
        r = z3.IntVal(p.c)
        for k, x in p.t: r = r + k * x
        r = z3.simplify(r)
        return r.as_long() if isinstance(r, z3.IntNumRef) else r

    def isnull(s, p):
        """python bool or z3 bool"""
        if p.reg is None: return (p.c == 0 and not p.t) if not p.t else False
        if isinstance(p.reg, Node): return simp(p.reg.id == 0) if p.c == 0 else False
        if isinstance(p.reg, Opq): return simp(p.reg.id == 0)
        return False

    def ptreq(s, a, b):
        if isinstance(a.reg, Opq) and isinstance(b.reg, Opq): return simp(z3.And(a.reg.id == b.reg.id))
        if a.reg is None and b.reg is None: return s.offeq(a, b)
        if b.reg is None: return s.isnull(a) if (b.c == 0) else False
        if a.reg is None: return s.isnull(b) if (a.c == 0) else False
        if isinstance(a.reg, Node) and isinstance(b.reg, Node):
            if a.reg.pool != b.reg.pool: return simp(z3.And(a.reg.id == 0, b.reg.id == 0))
            if not a.t and not b.t:
                return simp(a.reg.id == b.reg.id) if a.c == b.c else False
            return simp(z3.And(a.reg.id == b.reg.id, tobool(s.offeq(a, b))))
        if isinstance(a.reg, Fn) or isinstance(b.reg, Fn):
            return isinstance(a.reg, Fn) and isinstance(b.reg, Fn) and a.reg.name == b.reg.name
        if isinstance(a.reg, Node) or isinstance(b.reg, Node) or isinstance(a.reg, Opq) or isinstance(b.reg, Opq):
            return False       # distinct regions
        if a.reg != b.reg: return False
        return s.offeq(a, b)

    def offeq(s, a, b):
        x, y = s.off(a), s.off(b)
        if conc(x) and conc(y): return x == y
        return simp(s.A.idx(x) == s.A.idx(y)) if s.mode == 'bv' else simp(x == y)

    def cmpv(s, pred, a, b, ty, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL if (conc(a) and a == 0) else a
            if not isinstance(b, Ptr):
                b = NULL if (conc(b) and b == 0) else b
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise ToolLimit('ptr/int compare')
            if pred == 'eq': return s.ptreq(a, b)
            if pred == 'ne':
                r = s.ptreq(a, b); return (not r) if isinstance(r, bool) else simp(z3.Not(r))
            if a.reg is None and b.reg is None or (not isinstance(a.reg, (Node, Opq)) and a.reg == b.reg and a.reg is not None):
                return s.A.cmp(pred, s.offn(a), s.offn(b), 32, st)
            if isinstance(a.reg, Node) and isinstance(b.reg, Node) and a.reg.pool == b.reg.pool and a.reg.id.eq(b.reg.id): return s.A.cmp(pred, s.offn(a), s.offn(b), 32, st)
            if pred in ('ugt',) and b.reg is None:
                r = s.isnull(a); return (not r) if isinstance(r, bool) else simp(z3.Not(r))
            if pred in ('ult',) and a.reg is None:
                r = s.isnull(b); return (not r) if isinstance(r, bool) else simp(z3.Not(r))
            if pred in ('ult', 'ule', 'ugt', 'uge') and all(x.reg is None or not isinstance(x.reg, (Node, Opq, Fn)) for x in (a, b)):
                return s.A.cmp(pred, s.address(st, a, b), s.address(st, b, a), 32, st)
            raise ToolLimit('pointer ordering')
        return s.A.cmp(pred, a, b, ty.n, st)

    def address(s, st, p, other):
        """numeric address: every object has an unknown base, distinct objects do not overlap"""
        V = (lambda h: z3.BitVec('addr_%s' % h, 32)) if s.mode == 'bv' else (lambda h: z3.Int('addr_%s' % h))
        sz = lambda h: s.A.lift(st.mem[h].size, 32)
        if p.reg is None: return s.A.lift(s.offn(p), 32)
        le = z3.ULE if s.mode == 'bv' else (lambda x, y: x <= y)
        b = V(p.reg)
        for h in (p.reg, other.reg):
            if h is None: continue
            st.assume(z3.And(V(h) != 0, le(V(h), s.A.lift(0xFFFFFFF0, 32)), le(sz(h), s.A.lift(0xFFFFFFF0, 32) - V(h))))
        if other.reg is not None and other.reg != p.reg:
            a2 = V(other.reg); st.assume(z3.Or(le(b + sz(p.reg), a2), le(a2 + sz(other.reg), b)))
        return b + s.tidx(Ptr(None, p.c, p.t))

    def offn(s, p):
        o = s.off(p)
        return o & mask(32) if conc(o) else o

    # ---------------------------------------------------------------- memory
    def obj(s, st, p, what, ins):
        """check validity of the region, return the Obj (or Node) or None when the path is dead"""
        nn = s.isnull(p)
        if nn is True:
            s.prove(st, False, what + ': pointer is not null', ins=ins); st.dead = True; return None
        if isinstance(p.reg, Node):
            if nn is not False:
                if s.prove(st, p.reg.id != 0, what + ': pointer is not null', ins=ins) is not None: st.assume(p.reg.id != 0)
            pool = st.pools[p.reg.pool]
            if pool.alive is not None:
                g = z3.Select(pool.alive, p.reg.id)
                s.prove(st, g, what + ': node is live', ins=ins); st.assume(g)
            return pool
        if isinstance(p.reg, Opq):
            raise ToolLimit('dereference of an opaque pointer at line %d' % s.line(ins))
        if isinstance(p.reg, Fn): raise ToolLimit('deref fn ' + p.reg.name)
        if p.reg is None:
            s.prove(st, False, what + ': pointer is valid', ins=ins); st.dead = True; return None
        o = st.mem.get(p.reg)
        if o is None: raise ToolLimit('dangling handle')
        if o.alive is not True:
            s.prove(st, o.alive if o.alive is not None else False, what + ': object is live', ins=ins)
            if o.alive is False: st.dead = True; return None
        return o

    def bounds(s, st, o, p, n, what, ins):
        of = s.off(p)
        if conc(of) and conc(o.size) and conc(n):
            ok = 0 <= of and of + n <= o.size
            if not ok:
                s.prove(st, False, '%s: access within %s' % (what, o.name), ins=ins); st.dead = True; return False
            return True
        if s.mode == 'bv':
            sz = s.A.lift(o.size, 32); ofb = s.A.lift(of & mask(32) if conc(of) else of, 32); nb = s.A.lift(n, 32)
            g = z3.And(z3.UGE(sz, nb), z3.ULE(ofb, sz - nb))
        else:
            g = z3.And(of >= 0, of + n <= o.size)
        g = simp(g)
        if g is True: return True
        ok = s.prove(st, g, '%s: access within %s' % (what, o.name), ins=ins)
        if g is False: st.dead = True; return False
        st.assume(g)
        return True

    def elem_index(s, p, esz):
        if p.c % esz or any(k % esz for k, _ in p.t): return None
        return Ptr(None, p.c // esz, tuple((k // esz, x) for k, x in p.t))

    def tidx(s, p):
        o = s.off(p)
        if conc(o): return s.A.lift(o & mask(32), 32) if s.mode == 'bv' else z3.IntVal(o)
        return o

    def wobj(s, st, h):
        o = st.mem[h].copy(); st.mem[h] = o; return o

    def to_arr(s, st, h):
        """turn a cell object into an array of bytes so that symbolic offsets work"""
        o = st.mem[h]
        if o.arr is not None: return o
        sizes = {n for n, _ in o.cells.values()}
        esz = 1
        if len(sizes) == 1: esz = sizes.pop()
        if s.mode == 'bv' and esz not in (1,): esz = 1
        if s.bv_esz and not o.cells: esz = s.bv_esz          # a fresh object is an array of elements of this size
        o = s.wobj(st, h)
        a = z3.Array(s.uniq('mem_' + o.name[:20]), s.A.idxsort(), s.A.sort(8 * esz))
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if isinstance(v, LazyC): v = s.const(v.c, st)
            if isinstance(v, Ptr): raise ToolLimit('symbolic offset into object with pointers: ' + o.name)
            if n == esz: a = z3.Store(a, s.A.idx(off // esz), s.A.lift(v, 8 * esz))
            else:
                for k in range(n): a = z3.Store(a, s.A.idx(off + k), s.A.lift(s.A.byte_of(v, 8 * n, k), 8))
        o.arr = a; o.esz = esz; o.arrn = 8 * esz; o.cells = {}
        return o

    def rec_idx(s, st, o, p, what, ins):
        """record array: (index term, offset inside the record), with the index in range proved"""
        stride, count, _ = o.rec
        if any(k % stride for k, _ in p.t): raise ToolLimit('access across records of ' + o.name)
        q, r = divmod(p.c, stride); i = s.tidx(Ptr(None, q, tuple((k // stride, x) for k, x in p.t)))
        g = simp(z3.ULT(i, s.A.lift(count, 32)) if s.mode == 'bv' else z3.And(i >= 0, i < count))
        if g is not True:
            s.prove(st, g, '%s: record index within %s' % (what, o.name), ins=ins)
            if g is False: st.dead = True; return None
            st.assume(g)
        return i, r

    def rec_load(s, st, o, p, ty, ins, what):
        x = s.rec_idx(st, o, p, what, ins)
        if x is None: return None
        i, r = x; f = o.rec[2].get(r)
        if f is None: raise ToolLimit('record %s has no field at %d' % (o.name, r))
        k, a = f
        v = a(i) if callable(a) else z3.simplify(z3.Select(a, i))
        if k[0] == 'i':
            v = s.A.low(v)
            if s.mode == 'int' and not conc(v): st.assume(s.A.rng(v, k[1]))
            if ty.k == 'i' and ty.n != k[1] and not (ty.n == 1 and k[1] == 8): raise ToolLimit('field width')
            return s.retype(v, ty, st, k[1] // 8)
        if k[0] == 'node': return Ptr(Node(k[1], v))
        if k[0] == 'opq': return Ptr(Opq(v))
        raise ToolLimit('field kind')

    def rec_store(s, st, o, p, v, ty, ins, what):
        x = s.rec_idx(st, o, p, what, ins)
        if x is None: return
        i, r = x; f = o.rec[2].get(r)
        if f is None or callable(f[1]): raise ToolLimit('record %s: store at %d' % (o.name, r))
        k, a = f
        if k[0] == 'i':
            if isinstance(v, Ptr): raise ToolLimit('pointer into int field')
            if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): v = s.A.cast('zext', v, 1, k[1])
            y = s.A.lift(v, k[1])
        elif v.reg is None: y = z3.IntVal(0)
        elif isinstance(v.reg, Opq) and k[0] == 'opq' or isinstance(v.reg, Node) and k[0] == 'node' and v.reg.pool == k[1] and v.c == 0: y = v.reg.id
        else: raise ToolLimit('foreign pointer in record')
        o = s.wobj(st, p.reg); d = dict(o.rec[2]); d[r] = (k, z3.Store(a, i, y)); o.rec = (o.rec[0], o.rec[1], d)

    def load(s, st, p, ty, ins=None, what='load'):
        if ty.k in ('st', 'arr'): return s.load_agg(st, p, ty, ins)
        n = size(ty)
        o = s.obj(st, p, what, ins)
        if o is None: return None
        if not isinstance(o, Pool) and o.rec is not None: return s.rec_load(st, o, p, ty, ins, what)
        if isinstance(o, Pool): return s.pool_load(st, o, p, ty, ins)
        if not s.bounds(st, o, p, n, what, ins): return None
        of = s.off(p)
        if conc(of) and (o.arr is None or of in o.cells):
            c = o.cells.get(of)
            if c is not None and c[0] == n:
                v = c[1]
                if isinstance(v, LazyC): v = s.const(v.c, st)
                return s.retype(v, ty, st, n)
            ov = [(k, x) for k, x in o.cells.items() if k < of + n and k + x[0] > of]
            if not ov:
                v = s.fresh('u_%s_%d' % (o.name[:16], of), ty, st) if ty.k != 'ptr' else s.fresh('u_%s_%d' % (o.name[:16], of), ty, st)
                if ty.k == 'i' and ty.n == 1:
                    pass
                o = s.wobj(st, p.reg); o.cells[of] = (n, v); return v
            bs = [s.read_byte(st, p.reg, of + k) for k in range(n)]
            return s.retype(s.A.cat(bs), ty, st, n)
        if ty.k == 'ptr':
            # array of pointers is only supported through 'parr'
            raise ToolLimit('pointer load at symbolic offset in ' + o.name)
        if o.arr is None: o = s.to_arr(st, p.reg)
        if n == o.esz:
            ip = s.elem_index(p, o.esz)
            if ip is None: raise ToolLimit('unaligned array access')
            v = s.A.low(z3.simplify(z3.Select(o.arr, s.tidx(ip))))
            if s.mode == 'int' and not conc(v): st.assume(s.A.rng(v, 8 * n))
            return s.retype(v, ty, st, n)
        if o.esz == 1:
            bs = []
            for k in range(n):
                q = Ptr(p.reg, p.c + k, p.t)
                v = s.A.low(z3.simplify(z3.Select(o.arr, s.tidx(q))))
                if s.mode == 'int' and not conc(v): st.assume(s.A.rng(v, 8))
                bs.append(v)
            return s.retype(s.A.cat(bs), ty, st, n)
        raise ToolLimit('mixed-size array access in %s (%d vs %d)' % (o.name, n, o.esz))

    def read_byte(s, st, h, off):
        o = st.mem[h]
        for k, (n, v) in o.cells.items():
            if k <= off < k + n:
                if isinstance(v, LazyC): v = s.const(v.c, st)
                if isinstance(v, Ptr): raise ToolLimit('byte of a pointer')
                if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): v = s.A.cast('zext', v, 1, 8)
                return s.A.byte_of(v, 8 * n, off - k)
        v = s.A.fresh('u_%s_%d' % (o.name[:16], off), 8, st)
        o = s.wobj(st, h); o.cells[off] = (1, v); return v

    def retype(s, v, ty, st, n):
        if ty.k == 'ptr':
            if isinstance(v, Ptr): return v
            if conc(v) and v == 0: return NULL
            raise ToolLimit('integer reinterpreted as pointer')
        if isinstance(v, Ptr):
            if ty.k == 'i' and ty.n == 32:
                return v if s.isnull(v) is not True else 0
            raise ToolLimit('pointer reinterpreted as integer')
        if ty.k == 'i' and ty.n == 1:
            if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): return v
            return s.A.cast('trunc', v, 8, 1, st)
        if isinstance(v, bool): return int(v)
        if not conc(v) and z3.is_bool(v): return s.A.cast('zext', v, 1, 8 * n)
        return v

    def load_agg(s, st, p, ty, ins):
        d = {}
        if ty.k == 'st':
            of = offsets(ty)
            for i, f in enumerate(ty.f): d[i] = s.load(st, Ptr(p.reg, p.c + of[i], p.t), f, ins)
        else:
            for i in range(ty.n): d[i] = s.load(st, Ptr(p.reg, p.c + i * size(ty.e), p.t), ty.e, ins)
        return ('agg', d)

    def store(s, st, p, v, ty, ins=None, what='store'):
        if ty.k in ('st', 'arr'):
            of = offsets(ty) if ty.k == 'st' else [i * size(ty.e) for i in range(ty.n)]
            for i in range(len(ty.f) if ty.k == 'st' else ty.n):
                f = ty.f[i] if ty.k == 'st' else ty.e
                x = v[1].get(i)
                if x is None:
                    x = s.const(Const('zero', f), st) if 'zero' in v[1] else s.fresh('undef', f, st)
                s.store(st, Ptr(p.reg, p.c + of[i], p.t), x, f, ins)
            return
        n = size(ty)
        o = s.obj(st, p, what, ins)
        if o is None: return
        if isinstance(o, Pool): return s.pool_store(st, o, p, v, ty, ins)
        if o.rec is not None and not o.ro: return s.rec_store(st, o, p, v, ty, ins, what)
        if not s.bounds(st, o, p, n, what, ins): return
        if o.ro: s.prove(st, False, what + ': object is writable', ins=ins); st.dead = True; return
        of = s.off(p)
        if conc(of) and o.arr is None:
            s.put_cell(st, p.reg, of, n, v); return
        if isinstance(v, Ptr): raise ToolLimit('pointer store at symbolic offset')
        if o.arr is None: o = s.to_arr(st, p.reg)
        o = s.wobj(st, p.reg)
        if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): v = s.A.cast('zext', v, 1, 8 * n)
        if n == o.esz:
            ip = s.elem_index(p, o.esz)
            if ip is None: raise ToolLimit('unaligned array store')
            o.arr = z3.Store(o.arr, s.tidx(ip), s.A.lift(v, 8 * n)); return
        if o.esz == 1:
            for k in range(n):
                q = Ptr(p.reg, p.c + k, p.t)
                o.arr = z3.Store(o.arr, s.tidx(q), s.A.lift(s.A.byte_of(v, 8 * n, k), 8))
            return
        raise ToolLimit('mixed-size array store')

    def put_cell(s, st, h, of, n, v):
        o = st.mem[h]
        over = [(k, x) for k, x in o.cells.items() if k < of + n and k + x[0] > of and not (k == of and x[0] == n)]
        if over:
            for k, (m, x) in over:
                # split the overlapped cell into bytes
                bs = {}
                if not (of <= k and k + m <= of + n):
                    for j in range(m): bs[k + j] = s.read_byte(st, h, k + j)
                o = s.wobj(st, h)
                o.cells.pop(k, None)
                for b, bv in bs.items(): o.cells[b] = (1, bv)
                st.mem[h] = o
            o = s.wobj(st, h)
            for k in [k for k in o.cells if of <= k < of + n]: o.cells.pop(k)
        else: o = s.wobj(st, h)
        if isinstance(v, bool) : v = int(v)
        o.cells[of] = (n, v)

    def field(s, pool, p, ty, ins):
        if p.t: raise ToolLimit('symbolic offset in node')
        if pool.raw is not None: s.prove(s.cur_st, z3.Not(pool.raw(p.reg.id)), 'header access is to a block with a header', ins=ins)
        f = pool.fields.get(p.c)
        if f is None:
            raise ToolLimit('pool %s has no field at %d' % (pool.name, p.c))
        return f

    def in_content(s, pool, p): return pool.hdr is not None and (bool(p.t) or p.c >= pool.hdr)
    def block(s, st, p, n, ins, what):
        """content access: (byte array, index term), with the range proved to lie inside the block"""
        pool = st.pools[p.reg.pool]; o = s.tidx(Ptr(None, p.c - pool.hdr, p.t)); n = s.A.lift(n, 32)
        g = simp(z3.And(o >= 0, o + n <= z3.Select(pool.cap, p.reg.id)))
        if g is not True: s.prove(st, g, what + ': access within the block', ins=ins); st.assume(g)
        return z3.Select(pool.fields['M'][1], p.reg.id), o
    def set_block(s, st, p, arr):
        P = st.pools[p.reg.pool].copy(); k, m = P.fields['M']; P.fields['M'] = (k, z3.Store(m, p.reg.id, arr)); st.pools[p.reg.pool] = P
    def pool_load(s, st, pool, p, ty, ins):
        s.cur_st = st
        if s.in_content(pool, p):
            if size(ty) != 1: raise ToolLimit('wide access to block content')
            a, o = s.block(st, p, 1, ins, 'load'); v = s.A.low(z3.simplify(z3.Select(a, o)))
            if s.mode == 'int' and not conc(v): st.assume(s.A.rng(v, 8))
            return s.retype(v, ty, st, 1)
        k, a = s.field(pool, p, ty, ins)
        if k[0] == 'self': return Ptr(Node(pool.name, z3.simplify(z3.Select(a, p.reg.id))), pool.hdr)
        v = z3.simplify(z3.Select(a, p.reg.id))
        if k[0] == 'i':
            v = s.A.low(v)
            if s.mode == 'int' and not conc(v): st.assume(s.A.rng(v, k[1]))
            if ty.k == 'i' and ty.n != k[1] and not (ty.n == 1 and k[1] == 8): raise ToolLimit('field width')
            return s.retype(v, ty, st, k[1] // 8)
        if k[0] == 'node': return Ptr(Node(k[1], v))
        if k[0] == 'opq': return Ptr(Opq(v))
        raise ToolLimit('field kind')

    def pool_store(s, st, pool, p, v, ty, ins):
        s.cur_st = st
        if s.in_content(pool, p):
            if size(ty) != 1: raise ToolLimit('wide access to block content')
            a, o = s.block(st, p, 1, ins, 'store'); s.set_block(st, p, z3.Store(a, o, s.A.lift(v, 8))); return
        k, a = s.field(pool, p, ty, ins)
        if k[0] == 'self':
            if not (isinstance(v, Ptr) and isinstance(v.reg, Node) and v.reg.pool == pool.name and v.c == pool.hdr and not v.t): raise ToolLimit('content pointer')
            np = pool.copy(); np.fields[p.c] = (k, z3.Store(a, p.reg.id, v.reg.id)); st.pools[pool.name] = np; return
        if k[0] == 'i':
            if isinstance(v, Ptr): raise ToolLimit('pointer into int field')
            if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): v = s.A.cast('zext', v, 1, k[1])
            x = s.A.lift(v, k[1])
        elif k[0] == 'node':
            if v.reg is None: x = z3.IntVal(0)
            elif isinstance(v.reg, Node) and v.reg.pool == k[1] and v.c == 0: x = v.reg.id
            else: raise ToolLimit('foreign pointer in node field')
        elif k[0] == 'opq':
            if v.reg is None: x = z3.IntVal(0)
            elif isinstance(v.reg, Opq): x = v.reg.id
            else: raise ToolLimit('object pointer in opaque field')
        np = pool.copy(); np.fields[p.c] = (k, z3.Store(a, p.reg.id, x)); st.pools[pool.name] = np

    # ---------------------------------------------------------------- bulk memory
    def memcpy(s, st, d, sr, n, ins):
        if conc(n) and n == 0: return
        if conc(n) and n <= 256 and not isinstance(d.reg, Node) and not isinstance(sr.reg, Node):
            od = s.obj(st, d, 'memcpy dst', ins)
            if od is None: return
            os_ = s.obj(st, sr, 'memcpy src', ins)
            if os_ is None: return
            if isinstance(od, Pool) or isinstance(os_, Pool): raise ToolLimit('memcpy on node')
            if not s.bounds(st, od, d, n, 'memcpy dst', ins) or not s.bounds(st, os_, sr, n, 'memcpy src', ins): return
            so, do = s.off(sr), s.off(d)
            if conc(so) and conc(do) and os_.arr is None and od.arr is None:
                cells = [(k, x) for k, x in os_.cells.items() if k >= so and k + x[0] <= so + n]
                part = [k for k, x in os_.cells.items() if k < so + n and k + x[0] > so and not (k >= so and k + x[0] <= so + n)]
                if not part and sum(x[0] for _, x in cells) == n:
                    for k, (m, x) in sorted(cells, key=lambda z: z[0]):
                        if isinstance(x, LazyC): x = s.const(x.c, st)
                        s.put_cell(st, d.reg, do + k - so, m, x)
                    return
            bs = [s.load(st, Ptr(sr.reg, sr.c + k, sr.t), I8, ins) for k in range(n)]
            for k in range(n): s.store(st, Ptr(d.reg, d.c + k, d.t), bs[k], I8, ins)
            return
        od = s.obj(st, d, 'memcpy dst', ins)
        if od is None: return
        os_ = s.obj(st, sr, 'memcpy src', ins)
        if os_ is None: return
        if isinstance(od, Pool) or isinstance(os_, Pool):
            def view(o, p, what):
                if isinstance(o, Pool):
                    if not s.in_content(o, p): raise ToolLimit('memcpy on node')
                    return s.block(st, p, n, ins, what)
                if not s.bounds(st, o, p, n, what, ins): return None
                o = s.to_arr(st, p.reg) if o.arr is None else o
                if o.esz != 1: raise ToolLimit('memcpy esz')
                return o.arr, s.tidx(Ptr(None, p.c, p.t))
            dv, sv = view(od, d, 'memcpy dst'), view(os_, sr, 'memcpy src')
            if dv is None or sv is None: return
            new = z3.Array(s.uniq('cpy'), s.A.idxsort(), s.A.sort(8)); i = z3.Const(s.uniq('i'), s.A.idxsort()); nn = s.A.idx(n)
            st.assume(z3.ForAll([i], new[i] == z3.If(z3.And(i >= dv[1], i < dv[1] + nn), sv[0][i - dv[1] + sv[1]], dv[0][i]), patterns=[new[i]]))
            if isinstance(od, Pool): s.set_block(st, d, new)
            else: s.wobj(st, d.reg).arr = new
            return
        if not s.bounds(st, od, d, n, 'memcpy dst', ins) or not s.bounds(st, os_, sr, n, 'memcpy src', ins): return
        od = s.to_arr(st, d.reg) if od.arr is None else od
        os_ = s.to_arr(st, sr.reg) if os_.arr is None else os_
        if od.esz != os_.esz: raise ToolLimit('memcpy esz')
        e = od.esz
        if e != 1: raise ToolLimit('memcpy esz')
        do, so = s.tidx(Ptr(None, d.c, d.t)), s.tidx(Ptr(None, sr.c, sr.t))
        od = s.wobj(st, d.reg)
        new = z3.Array(s.uniq('cpy'), s.A.idxsort(), s.A.sort(8))
        i = z3.Const(s.uniq('i'), s.A.idxsort()); nn = s.A.idx(n)
        if s.mode == 'bv': rngc = z3.And(z3.UGE(i, do), z3.ULT(i - do, nn))
        else: rngc = z3.And(i >= do, i < do + nn)
        st.assume(z3.ForAll([i], new[i] == z3.If(rngc, os_.arr[i - do + so], od.arr[i]), patterns=[new[i]]))
        od.arr = new

    def memset(s, st, d, v, n, ins):
        if conc(n) and n == 0: return
        od = s.obj(st, d, 'memset', ins)
        if od is None: return
        if isinstance(od, Pool):
            if not s.in_content(od, d): raise ToolLimit('memset node')
            a, o = s.block(st, d, n, ins, 'memset'); new = z3.Array(s.uniq('set'), s.A.idxsort(), s.A.sort(8)); i = z3.Const(s.uniq('i'), s.A.idxsort())
            st.assume(z3.ForAll([i], new[i] == z3.If(z3.And(i >= o, i < o + s.A.idx(n)), s.A.lift(v, 8), a[i]), patterns=[new[i]])); s.set_block(st, d, new); return
        if not s.bounds(st, od, d, n, 'memset', ins): return
        if conc(n) and n <= 512 and conc(s.off(d)) and od.arr is None:
            o = s.wobj(st, d.reg); of = s.off(d)
            if all((k >= of and k + x[0] <= of + n) or k >= of + n or k + x[0] <= of for k, x in o.cells.items()):
                for k in [k for k in o.cells if of <= k < of + n]: o.cells.pop(k)
                if conc(v) and v == 0:
                    k = 0
                    while k < n:
                        w = 4 if n - k >= 4 and (of + k) % 4 == 0 else 1
                        o.cells[of + k] = (w, 0); k += w
                else:
                    for k in range(n): o.cells[of + k] = (1, v)
                return
            for k in range(n): s.store(st, Ptr(d.reg, d.c + k, d.t), v, I8, ins)
            return
        od = s.to_arr(st, d.reg) if od.arr is None else od
        od = s.wobj(st, d.reg); e = od.esz
        if e != 1 and not (conc(v) and v == 0): raise ToolLimit('memset esz')
        if e != 1 and not conc(n): raise ToolLimit('memset esz')
        ip = s.elem_index(Ptr(None, d.c, d.t), e)
        do = s.tidx(ip)
        new = z3.Array(s.uniq('set'), s.A.idxsort(), s.A.sort(8 * e))
        i = z3.Const(s.uniq('i'), s.A.idxsort()); nn = s.A.idx(n // e if conc(n) else n)
        if s.mode == 'bv': rngc = z3.And(z3.UGE(i, do), z3.ULT(i - do, nn))
        else: rngc = z3.And(i >= do, i < do + nn)
        st.assume(z3.ForAll([i], new[i] == z3.If(rngc, s.A.lift(v, 8 * e), od.arr[i]), patterns=[new[i]]))
        od.arr = new

    # ---------------------------------------------------------------- allocation
    def malloc(s, st, n, what='malloc', maybe_null=None):
        """-> list of (state, ptr)"""
        if maybe_null is None: maybe_null = s.nullable_malloc
        if s.alloc_pool is not None:
            r = s.alloc_pool(s, st, n, what)
            if r is not None: return r
        out = []
        h = s.new_obj(st, what, n, heap=True)
        st.ghost = dict(st.ghost); st.ghost['allocs'] = st.ghost.get('allocs', ()) + (h,)
        if maybe_null:
            st2 = st.copy(); out.append((st2, NULL)); st2.mem = dict(st2.mem); del st2.mem[h]
            st2.ghost['allocs'] = st2.ghost['allocs'][:-1]; st2.ghost['oom'] = True
        out.append((st, Ptr(h))); return out

    def pool_alloc(s, st, pool):
        """fresh live node"""
        P = st.pools[pool].copy()
        nid = z3.Int(s.uniq('new_' + pool))
        st.assume(nid > 0); st.assume(z3.Not(z3.Select(P.alive, nid)))
        P.alive = z3.Store(P.alive, nid, z3.BoolVal(True)); st.pools[pool] = P
        for o, (k, a) in list(P.fields.items()):
            if k[0] == 'cont': continue
            if k[0] == 'i': v = s.A.lift(s.A.fresh('uninit', k[1], st), k[1])
            else: v = z3.Int(s.uniq('uninit'))
            P.fields[o] = (k, z3.Store(a, nid, v))
        st.ghost['newnodes'] = st.ghost.get('newnodes', ()) + ((pool, nid),)
        return Ptr(Node(pool, nid))

    def free(s, st, p, ins, what='free'):
        nn = s.isnull(p)
        if nn is True: return [st]
        if isinstance(p.reg, Node):
            outs = []
            if nn is not False:
                if not s.entails(st, p.reg.id != 0):
                    s0 = st.copy(); s0.assume(p.reg.id == 0)
                    if s.feasible(s0): outs.append(s0)
                    st.assume(p.reg.id != 0)
            P = st.pools[p.reg.pool]
            if P.raw is not None and p.c == P.hdr and not p.t: s.prove(st, P.raw(p.reg.id), what + ': pointer to start of block', ins=ins)
            elif p.c != 0 or p.t: s.prove(st, False, what + ': pointer to start of block', ins=ins)
            elif P.raw is not None: s.prove(st, z3.Not(P.raw(p.reg.id)), what + ': pointer to start of block', ins=ins)
            s.prove(st, z3.Select(P.alive, p.reg.id), what + ': block is live (no double free)', ins=ins)
            st.assume(z3.Select(P.alive, p.reg.id))
            P = P.copy(); P.alive = z3.Store(P.alive, p.reg.id, z3.BoolVal(False)); st.pools[p.reg.pool] = P
            outs.append(st); return outs
        if isinstance(p.reg, Opq): raise ToolLimit('free of opaque pointer')
        o = s.obj(st, p, what, ins)
        if o is None: return [st]
        if not o.heap: s.prove(st, False, what + ': pointer came from the heap', ins=ins)
        if s.off(p) != 0: s.prove(st, False, what + ': pointer to start of block', ins=ins)
        o = s.wobj(st, p.reg); o.alive = False
        return [st]

class LazyC:
    __slots__ = ('c',)
    def __init__(s, c): s.c = c

_hq = {}
def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and r[1].eq(e): return r[0]
    todo = [e]; seen = set(); res = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): res = True; break
        todo.extend(x.children())
    _hq[k] = (res, e)
    return res
