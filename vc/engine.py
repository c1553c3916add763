import math, os
from executor import *
from executor import Executor, LazyC, has_quant

class LoopPolicy:
    """kind: 'unroll' (with an unwinding obligation) or 'inv' (Houdini over candidate invariants)."""
    def __init__(s, kind, limit=70, cands=None, generic=True):
        s.kind, s.limit, s.cands, s.generic = kind, limit, cands, generic

class NoMerge(Exception): pass
class Peel(Exception): pass
class _Poison:
    def __repr__(s): return 'Poison'
Poison = _Poison()

class Same:
    """a term compared by identity"""
    def __init__(s, x): s.x = x
    def __eq__(s, o): return isinstance(o, Same) and s.x.eq(o.x)
    def __hash__(s): return s.x.hash()
    def __repr__(s): return str(s.x)
class NShape(tuple):
    """shape of a pointer to a node, with the node it was seen to point to"""
    def __new__(cls, t, id): r = tuple.__new__(cls, t); r.id = id; return r

class Engine(Executor):
    default_loop = LoopPolicy('unroll', 70)

    def info(s, f):
        i = s.infos.get(f.name)
        if i is None or i.f is not f: i = s.infos[f.name] = FnInfo(f)
        return i

    def find(s, pat, unique=True):
        r = [f for f in s.funcs.values() if re.fullmatch(pat, f.demangled)]
        if not r: raise ToolLimit('function not found: ' + pat)
        # C1/C2 constructor clones: prefer C2 (base) body, they are equivalent here
        if len(r) > 1:
            c = [f for f in r if 'C2E' in f.name or 'D2E' in f.name]
            if c: r = c
        if len(r) > 1 and unique: raise ToolLimit('ambiguous function: %s: %s' % (pat, [f.name for f in r]))
        return r[0]

    def policy(s, f, header):
        for pat, pol in s.loops:
            if re.search(pat, f.demangled): return pol
        return s.default_loop

    # ---------------------------------------------------------------- running
    def run(s, f, args, st):
        if isinstance(f, str): f = s.find(f)
        if f in s.stack: raise ToolLimit('recursion without a contract: ' + f.demangled)
        if len(s.stack) > 40: raise ToolLimit('call depth')
        s.stack.append(f)
        try:
            env = {}
            if len(args) != len(f.args): raise ToolLimit('arity of ' + f.demangled)
            for (nm, ty, byval), v in zip(f.args, args):
                env[nm] = v
            outs, ex, bk = s.region([(st, env, f.entry, None)], f, None, None)
            if s.merge and len(s.stack) > 1 and len(outs) > 1: outs = s.merge_outs(outs, f)
            return outs
        finally:
            s.stack.pop()

    def region(s, items, f, stop, body):
        info = s.info(f); work = list(items); outs = []; exits = []; backs = []
        while work:
            if s.merge and len(work) > 1:
                st, env, blk, prev = s.pick(work, f, info, stop, body)
            else: st, env, blk, prev = work.pop()
            if st.dead: continue
            if s.deadline and time.time() > s.deadline: raise ToolLimit('time budget')
            started = prev == '#start'
            if not started:
                if stop is not None and blk == stop: backs.append((st, env, prev)); continue
                if body is not None and blk not in body: exits.append((st, env, blk, prev)); continue
            if blk in info.loops and not started:
                pol = s.policy(f, blk); lb = info.loops[blk]
                if pol.kind == 'inv':
                    if prev in lb: raise ToolLimit('irreducible loop')
                    o2, e2 = s.loop(st, env, f, info, blk, prev, pol)
                    outs += o2
                    for x in e2: work.append(x)
                    continue
                k = '#' + blk
                c = env.get(k, 0) + 1 if prev in lb else 0
                if c > pol.limit:
                    s.obls.append(Oblig('loop at %s unwinds completely within %d iterations' % (blk, pol.limit), f.demangled, 0, 'unknown', 0, 'unwind', None, 'unwind'))
                    continue
                env = dict(env); env[k] = c
            ins_list = f.blocks[blk]; i = 0
            # phis
            if prev == '#merged':
                while i < len(ins_list) and ins_list[i].op == 'phi': i += 1
            elif not started:
                new = {}
                while i < len(ins_list) and ins_list[i].op == 'phi':
                    ins = ins_list[i]
                    for v, lab in ins.x:
                        if lab == prev: new[ins.res] = s.ev(v, env, st); break
                    else: raise ToolLimit('phi')
                    i += 1
                if new: env = dict(env); env.update(new)
            else:
                while i < len(ins_list) and ins_list[i].op == 'phi': i += 1
            s.straight(st, dict(env), f, blk, i, work, outs)
            s.npaths += 0
            if len(outs) + len(exits) > s.max_paths: raise ToolLimit('path limit')
        return outs, exits, backs

    # ---------------------------------------------------------------- state merging at join points
    merge = False
    def pick(s, work, f, info, stop, body):
        best = None
        for j, (st, env, blk, prev) in enumerate(work):
            if blk not in info.rank: k = ()
            else:
                k = info.key(blk, env)
                if stop is not None and blk == stop: k = ()
            if best is None or k < best[0]: best = (k, j)
        k, j = best; it = work.pop(j); st, env, blk, prev = it
        if prev in ('#start', None) or blk in info.loops or (stop is not None and blk == stop) or (body is not None and blk not in body): return it
        same = [x for x in work if x[2] == blk and x[3] not in ('#start', None) and info.key(blk, x[1]) == k]
        if not same: return it
        ins_list = f.blocks[blk]
        def phis(x):
            st, env, blk, prev = x; new = {}
            if prev == '#merged': return st, env
            for ins in ins_list:
                if ins.op != 'phi': break
                for v, lab in ins.x:
                    if lab == prev: new[ins.res] = s.ev(v, env, st); break
                else: raise ToolLimit('phi')
            env = dict(env); env.update(new); return st, env
        cur = phis(it); done = False
        for x in same:
            m = s.merge2(cur, phis(x), info.types)
            if m is None: continue
            work.remove(x) if False else None
            for q in range(len(work)):
                if work[q] is x: del work[q]; break
            cur = m; done = True
        if not done: return it
        return cur[0], cur[1], blk, '#merged'

    def mval(s, c, a, b, ty, n=None):
        if a is b or s.same(a, b): return a
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None: raise NoMerge()
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise NoMerge()
            ra, rb = a.reg, b.reg
            def oid(p): return z3.IntVal(0) if p.reg is None else p.reg.id
            za, zb = ra is None and a.c == 0 and not a.t, rb is None and b.c == 0 and not b.t
            if (isinstance(ra, Node) or za) and (isinstance(rb, Node) or zb) and a.c == 0 and b.c == 0 and not a.t and not b.t:
                pools = {r.pool for r in (ra, rb) if r is not None}
                if len(pools) == 1: return Ptr(Node(pools.pop(), z3.If(c, oid(a), oid(b))))
                raise NoMerge()
            if (isinstance(ra, Opq) or za) and (isinstance(rb, Opq) or zb) and a.c == b.c and not a.t and not b.t: return Ptr(Opq(z3.If(c, oid(a), oid(b))))
            if not isinstance(ra, (Node, Opq, Fn)) and ra is not None and ra == rb:
                x, y = s.off(a), s.off(b)
                if s.mode == 'bv':
                    x, y = [s.A.lift(q & mask(32) if conc(q) else q, 32) for q in (x, y)]
                else: x, y = [z3.IntVal(q) if conc(q) else q for q in (x, y)]
                return Ptr(ra, 0, ((1, z3.If(c, x, y)),))
            raise NoMerge()
        if isinstance(a, LazyC) or isinstance(b, LazyC): raise NoMerge()
        if ty is not None:
            if ty.k == 'ptr': raise NoMerge()
            n = s.width(ty)
        isb = lambda x: isinstance(x, bool) or (not conc(x) and z3.is_bool(x))
        if isb(a) or isb(b):
            if isb(a) and isb(b): return s.A.ite(c, a, b, 1)
            if n is None or n == 1: raise NoMerge()
            if isb(a): a = s.A.cast('zext', a, 1, n)
            if isb(b): b = s.A.cast('zext', b, 1, n)
        if n is None:
            for x in (a, b):
                if not conc(x) and z3.is_bv(x): n = x.size()
            if n is None: n = 32
        return s.A.ite(c, a, b, n)

    def merge2(s, A, B, types):
        (sa, ea), (sb, eb) = A, B
        k = 0; pa, pb = sa.pc, sb.pc
        while k < len(pa) and k < len(pb) and pa[k].eq(pb[k]): k += 1
        xa, xb = pa[k:], pb[k:]
        # facts that both branches know are kept as facts
        if any(has_quant(c) for c in xa + xb): return None
        ca = z3.And(xa) if xa else z3.BoolVal(True); cb = z3.And(xb) if xb else z3.BoolVal(True)
        try:
            st = sa.copy(); st.pc = list(pa[:k]); st.assume(z3.simplify(z3.Or(ca, cb)))
            c = ca
            if set(sa.mem) != set(sb.mem):
                # objects only one branch created (its own locals) are kept as they are
                for h in sb.mem:
                    if h not in sa.mem: st.mem[h] = sb.mem[h]
            for h in sa.mem:
                oa, ob = sa.mem[h], sb.mem.get(h)
                if ob is None or oa is ob: continue
                if oa.alive is not ob.alive or oa.ro != ob.ro: return None
                if oa.size is not ob.size and not s.same(oa.size, ob.size): return None
                if (oa.arr is None) != (ob.arr is None):
                    sx = st.copy(); 
                    sa2 = sa if oa.arr is not None else None
                    if oa.arr is None: sa = sa.copy(); oa = s.to_arr(sa, h)
                    else: sb = sb.copy(); ob = s.to_arr(sb, h)
                    if oa.esz != ob.esz: return None
                o = oa.copy()
                if oa.rec is not None:
                    d = dict(oa.rec[2])
                    for off, (k2, a2) in ob.rec[2].items():
                        if not callable(a2) and not a2.eq(d[off][1]): d[off] = (k2, z3.If(c, d[off][1], a2))
                    o.rec = (oa.rec[0], oa.rec[1], d)
                elif oa.arr is not None:
                    if oa.esz != ob.esz: return None
                    if not oa.arr.eq(ob.arr): o.arr = z3.If(c, oa.arr, ob.arr)
                else:
                    cells = {}
                    for off in set(oa.cells) | set(ob.cells):
                        x, y = oa.cells.get(off), ob.cells.get(off)
                        if x is None or y is None:
                            z = x or y
                            other = ob if x is not None else oa
                            if any(q < off + z[0] and q + w[0] > off for q, w in other.cells.items()): return None
                            if isinstance(z[1], (Ptr, LazyC)):
                                continue      # uninitialised on the other branch: unknown after the join
                            fr = s.A.fresh('u_m%d' % off, 8 * z[0], st)
                            x = x or (z[0], fr); y = y or (z[0], fr)
                        if x[0] != y[0]: return None
                        v = s.mval(c, x[1], y[1], None, 8 * x[0])
                        cells[off] = (x[0], v)
                    o.cells = cells
                st.mem[h] = o
            for nm in sa.pools:
                Pa, Pb = sa.pools[nm], sb.pools[nm]
                if Pa is Pb: continue
                P = Pa.copy()
                for o in P.fields:
                    if not Pa.fields[o][1].eq(Pb.fields[o][1]): P.fields[o] = (P.fields[o][0], z3.If(c, Pa.fields[o][1], Pb.fields[o][1]))
                if not Pa.alive.eq(Pb.alive): P.alive = z3.If(c, Pa.alive, Pb.alive)
                st.pools[nm] = P
            for g in set(sa.ghost) | set(sb.ghost):
                x, y = sa.ghost.get(g), sb.ghost.get(g)
                if x is y: continue
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    st.ghost[g] = x if x.eq(y) else z3.If(c, x, y); continue
                if not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y: continue
                return None
            env = {}
            for k2, v in ea.items():
                if k2 not in eb: continue
                w = eb[k2]
                if v is w: env[k2] = v; continue
                if k2.startswith('#'):
                    if v != w: return None
                    env[k2] = v; continue
                try: env[k2] = s.mval(c, v, w, types.get(k2))
                except NoMerge:
                    if types.get(k2) is None: return None
                    env[k2] = Poison
            return st, env
        except NoMerge: return None

    def merge_outs(s, outs, f):
        res = []
        for st, r in outs:
            if st.dead: continue
            for j, (s2, r2) in enumerate(res):
                if (r is None) != (r2 is None): continue
                A = (s2, {'r': r2} if r2 is not None else {}); B = (st, {'r': r} if r is not None else {})
                m = s.merge2(A, B, {'r': f.rty})
                if m is not None and m[1].get('r') is not Poison:
                    res[j] = (m[0], m[1].get('r')); break
            else: res.append((st, r))
        return res

    def straight(s, st, env, f, blk, i, work, outs):
        ins_list = f.blocks[blk]
        while i < len(ins_list):
            ins = ins_list[i]; op = ins.op
            if st.dead: return
            if op == 'br':
                if len(ins.x) == 1: work.append((st, env, ins.x[0], blk)); return
                c = s.ev(ins.a[0], env, st)
                if conc(c): work.append((st, env, ins.x[0] if c else ins.x[1], blk)); return
                nc = z3.Not(c)
                ft = s.feasible(st, c); ff = s.feasible(st, nc) if ft else True
                if ft and ff:
                    s2 = st.copy(); s2.assume(nc)
                    work.append((s2, dict(env), ins.x[1], blk)); st.assume(c); work.append((st, env, ins.x[0], blk))
                elif ft: st.assume(c); work.append((st, env, ins.x[0], blk))
                else: st.assume(nc); work.append((st, env, ins.x[1], blk))
                return
            if op == 'switch':
                v = s.ev(ins.a[0], env, st); d, cs = ins.x; n = ins.a[0].ty.n
                if conc(v):
                    for k, l in cs:
                        if k == int(v): work.append((st, env, l, blk)); return
                    work.append((st, env, d, blk)); return
                bylab = {}
                for k, l in cs: bylab.setdefault(l, []).append(k)
                V = s.A.lift(v, n)
                for l, ks in bylab.items():
                    c = z3.Or([V == s.A.lift(k, n) for k in ks])
                    if s.feasible(st, c):
                        s2 = st.copy(); s2.assume(c); work.append((s2, dict(env), l, blk))
                c = z3.And([V != s.A.lift(k, n) for k, _ in cs])
                if s.feasible(st, c):
                    st.assume(c); work.append((st, env, d, blk))
                return
            if op == 'ret':
                outs.append((st, s.ev(ins.a[0], env, st) if ins.a else None)); return
            if op == 'unreachable':
                return
            if op == 'call':
                res = s.call_ins(st, env, ins)
                if len(res) == 1:
                    st, r = res[0]
                    if ins.res is not None: env[ins.res] = r
                    i += 1; continue
                for s2, r in res:
                    if s2.dead: continue
                    e2 = dict(env)
                    if ins.res is not None: e2[ins.res] = r
                    s.straight(s2, e2, f, blk, i + 1, work, outs)
                return
            if op == 'select' and ins.ty.k == 'ptr':
                c = s.ev(ins.a[0], env, st)
                a, b = s.ev(ins.a[1], env, st), s.ev(ins.a[2], env, st)
                if conc(c): env[ins.res] = a if c else b; i += 1; continue
                if isinstance(a.reg, Node) and (b.reg is None or isinstance(b.reg, Node) and b.reg.pool == a.reg.pool) and a.c == 0 and b.c == 0 and not a.t and not b.t:
                    env[ins.res] = Ptr(Node(a.reg.pool, z3.If(c, a.reg.id, b.reg.id if b.reg else z3.IntVal(0)))); i += 1; continue
                for cc, v in ((c, a), (z3.Not(c), b)):
                    if s.feasible(st, cc):
                        s2 = st.copy(); s2.assume(cc); e2 = dict(env); e2[ins.res] = v
                        s.straight(s2, e2, f, blk, i + 1, work, outs)
                return
            s.simple(st, env, ins)
            i += 1
        raise ToolLimit('block without terminator')

    def simple(s, st, env, ins):
        op = ins.op; A = s.A
        if op in BIN:
            a, b = s.ev(ins.a[0], env, st), s.ev(ins.a[1], env, st)
            if op[0] == 'f' : env[ins.res] = s.fbin(op, a, b, ins.ty, st); return
            n = ins.ty.n
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                env[ins.res] = s.ptrint(op, a, b, n, st); return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                if conc(b):
                    if b == 0: s.prove(st, False, 'divisor is not zero', ins=ins); st.dead = True; return
                else:
                    g = A.lift(b, n) != A.lift(0, n); s.prove(st, g, 'divisor is not zero', ins=ins); st.assume(g)
            env[ins.res] = A.bin(op, a, b, n, st, ins); return
        if op == 'icmp':
            env[ins.res] = s.cmpv(ins.x, s.ev(ins.a[0], env, st), s.ev(ins.a[1], env, st), ins.a[0].ty, st); return
        if op == 'fcmp':
            env[ins.res] = s.fcmp(ins.x, s.ev(ins.a[0], env, st), s.ev(ins.a[1], env, st), ins.a[0].ty, st); return
        if op in CAST: env[ins.res] = s.cast(op, s.ev(ins.a[0], env, st), ins.a[0].ty, ins.ty, st); return
        if op == 'select':
            c = s.ev(ins.a[0], env, st); a, b = s.ev(ins.a[1], env, st), s.ev(ins.a[2], env, st)
            if conc(c): env[ins.res] = a if c else b
            elif ins.ty.k in ('i', 'float', 'double'):
                if isinstance(a, Ptr) or isinstance(b, Ptr): raise ToolLimit('select of pointer ints')
                env[ins.res] = A.ite(c, a, b, s.width(ins.ty))
            else: raise ToolLimit('select ' + ins.ty.k)
            return
        if op == 'load': env[ins.res] = s.load(st, s.ptr(s.ev(ins.a[0], env, st)), ins.ty, ins); return
        if op == 'store': s.store(st, s.ptr(s.ev(ins.a[1], env, st)), s.ev(ins.a[0], env, st), ins.a[0].ty, ins); return
        if op == 'getelementptr':
            env[ins.res] = s.gep(s.ptr(s.ev(ins.a[0], env, st)), ins.x, [(s.ev(x, env, st), x.ty) for x in ins.a[1:]], st); return
        if op == 'alloca':
            n = 1
            if ins.a:
                n = s.ev(ins.a[0], env, st)
            sz = size(ins.x)
            if conc(n): total = sz * n
            else:
                total = n if sz == 1 else A.bin('mul', n, sz, 32, st)
                if s.mode == 'int': g = A.lift(total, 32) <= s.vla_limit
                else: g = z3.ULE(A.lift(total, 32), s.vla_limit)
                s.prove(st, g, 'variable-length array fits the stack (at most %d bytes)' % s.vla_limit, ins=ins); st.assume(g)
            env[ins.res] = Ptr(s.new_obj(st, 'local.' + (ins.res or ''), total)); return
        if op == 'extractvalue':
            v = s.ev(ins.a[0], env, st)
            for k in ins.x: v = v[1][k]
            env[ins.res] = v; return
        if op == 'insertvalue':
            v = s.ev(ins.a[0], env, st); x = s.ev(ins.a[1], env, st)
            def put(v, ix):
                d = dict(v[1]) if isinstance(v, tuple) else {}
                if len(ix) == 1: d[ix[0]] = x
                else: d[ix[0]] = put(d.get(ix[0], ('agg', {})), ix[1:])
                return ('agg', d)
            env[ins.res] = put(v, ins.x); return
        if op == 'freeze': env[ins.res] = s.ev(ins.a[0], env, st); return
        if op == 'fneg':
            v = s.ev(ins.a[0], env, st); n = s.width(ins.ty); env[ins.res] = A.bin('xor', v, 1 << (n - 1), n, st) if s.mode == 'bv' else s.fuf('fneg', [v], n, st); return
        raise ToolLimit('unsupported instruction: %s %s (line %d)' % (op, ins.x, s.line(ins)))

    vla_limit = 1 << 16
    bv_esz = 0
    va_object = None      # handle of the argument list of the variadic function under contract

    def ptr(s, v):
        if isinstance(v, Ptr): return v
        if conc(v) and v == 0: return NULL
        raise ToolLimit('integer used as pointer')

    def ptrint(s, op, a, b, n, st):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            same = a.reg == b.reg if not isinstance(a.reg, Node) else (isinstance(b.reg, Node) and a.reg.id.eq(b.reg.id))
            if same:
                q = Ptr(None, a.c - b.c, tuple(a.t)); c, t = q.c, list(q.t)
                for k, x in b.t: 
                    for i, (k2, x2) in enumerate(t):
                        if x2.eq(x):
                            t[i] = (k2 - k, x)
                            break
                    else: t.append((-k, x))
                t = [z for z in t if z[0]]
                o = s.off(Ptr(None, c, tuple(t)))
                if conc(o): return o & mask(n)
                return o if s.mode == 'bv' else s.A.wrap(o, n, st)
        pz = lambda v: v if isinstance(v, Ptr) else (NULL if conc(v) and v == 0 else None)
        x, y = pz(a), pz(b)
        if op == 'sub' and x is not None and y is not None and all(q.reg is None or not isinstance(q.reg, (Node, Opq, Fn)) for q in (x, y)):
            return s.A.bin('sub', s.address(st, x, y), s.address(st, y, x), n, st)
        if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            c, t = s.addoff(a.c, list(a.t), b, Ty('i', 32), 1, st); return Ptr(a.reg, c, tuple(t))
        raise ToolLimit('pointer arithmetic as integers: ' + op)

    def cast(s, op, v, t1, t2, st):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and s.isnull(v) is True: return 0
            if t2.n < 32: raise ToolLimit('ptrtoint narrow')
            return v
        if op == 'inttoptr':
            if isinstance(v, Ptr): return v
            if conc(v) and v == 0: return NULL
            if conc(v): return Ptr(Opq(z3.IntVal(v)))
            return Ptr(Opq(v if s.mode == 'int' else z3.BV2Int(v)))
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, Ptr): raise ToolLimit('cast of pointer int')
            return s.A.cast(op, v, t1.n, t2.n, st)
        return s.fcast(op, v, t1, t2, st)

    # ---------------------------------------------------------------- floating point
    def fuf(s, name, args, n, st, isbool=False):
        import struct as _s
        sorts = []; xs = []
        for a in args:
            if conc(a): a = s.A.lift(a, 64) if s.mode == 'bv' else z3.IntVal(a)
            xs.append(a); sorts.append(a.sort())
        rs = z3.BoolSort() if isbool else s.A.sort(n)
        key = (name, tuple(str(x) for x in sorts), n)
        f = s._uf.get(key)
        if f is None: f = s._uf[key] = z3.Function('fp_%s_%d_%d' % (name, n, len(s._uf)), *(sorts + [rs]))
        s.note_abs('floating point ' + name)
        r = f(*xs)
        if s.mode == 'int' and not isbool: st.assume(s.A.rng(r, n))
        return r
    def fpt(s, ty): return z3.Float32() if ty.k == 'float' else z3.Float64()
    def tofp(s, v, ty): return z3.fpBVToFP(s.A.lift(v, s.width(ty)), s.fpt(ty))
    def frfp(s, e): 
        r = z3.simplify(z3.fpToIEEEBV(e)); return s.A.low(r)
    def fbin(s, op, a, b, ty, st):
        if s.fp == 'z3' and s.mode == 'bv':
            x, y = s.tofp(a, ty), s.tofp(b, ty); rm = z3.RNE()
            r = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y), 'fdiv': lambda: z3.fpDiv(rm, x, y)}.get(op)
            if r: return s.frfp(r())
        return s.fuf(op, [a, b], s.width(ty), st)
    def fcmp(s, p, a, b, ty, st):
        if p == 'true': return True
        if p == 'false': return False
        if s.fp == 'z3' and s.mode == 'bv':
            x, y = s.tofp(a, ty), s.tofp(b, ty); un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}
            if p == 'ord': return simp(z3.Not(un))
            if p == 'uno': return simp(un)
            r = base[p[1:]]
            return simp(r) if p[0] == 'o' else simp(z3.Or(un, r))
        return s.fuf('fcmp_' + p, [a, b], 1, st, True)
    def fcast(s, op, v, t1, t2, st):
        n = s.width(t2)
        if op == 'fpext' and conc(v) and (t1.k, t2.k) == ('float', 'double'): return struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', v & mask(32)))[0]))[0]
        if s.fp == 'z3' and s.mode == 'bv':
            rm = z3.RNE()
            if op == 'fpext' or op == 'fptrunc': return s.frfp(z3.fpFPToFP(rm, s.tofp(v, t1), s.fpt(t2)))
            if op == 'sitofp': return s.frfp(z3.fpSignedToFP(rm, s.A.lift(v, t1.n), s.fpt(t2)))
            if op == 'uitofp':
                if t1.n == 1: v = s.A.cast('zext', v, 1, 8); return s.frfp(z3.fpUnsignedToFP(rm, s.A.lift(v, 8), s.fpt(t2)))
                return s.frfp(z3.fpUnsignedToFP(rm, s.A.lift(v, t1.n), s.fpt(t2)))
            if op == 'fptosi': return s.A.low(z3.simplify(z3.fpToSBV(z3.RTZ(), s.tofp(v, t1), z3.BitVecSort(n))))
            if op == 'fptoui': return s.A.low(z3.simplify(z3.fpToUBV(z3.RTZ(), s.tofp(v, t1), z3.BitVecSort(n))))
        if isinstance(v, bool) or (not conc(v) and z3.is_bool(v)): v = s.A.cast('zext', v, 1, 8)
        return s.fuf(op, [v], n, st)

    # ---------------------------------------------------------------- calls
    def call_ins(s, st, env, ins):
        if isinstance(ins.x, Loc): tgt = s.ev(ins.x, env, st)
        else: tgt = s.const(ins.x, st)
        args = [s.ev(a, env, st) for a in ins.a]
        if not isinstance(tgt, Ptr) or not isinstance(tgt.reg, Fn):
            if isinstance(tgt, Ptr) and isinstance(tgt.reg, Opq) or isinstance(tgt, Ptr) and isinstance(tgt.reg, Node):
                h = getattr(s, 'indirect', None)
                if h: return h(s, st, tgt, args, ins)
            if isinstance(tgt, Ptr) and s.isnull(tgt) is True:
                s.prove(st, False, 'called function pointer is not null', ins=ins); st.dead = True; return [(st, None)]
            raise ToolLimit('indirect call through %r at line %d' % (tgt, s.line(ins)))
        return s.call(st, tgt.reg.name, args, ins)

    def dname(s, name):
        f = s.funcs.get(name)
        if f: return f.demangled
        d = s.dem.get(name)
        if d is None:
            import build
            d = s.dem[name] = build.demangle([name])[0]
        return d

    def call(s, st, name, args, ins):
        d = s.dname(name)
        for pat, h in s.stubs:
            if re.fullmatch(pat, d):
                r = h(s, st, args, ins)      # None: no contract for these arguments, use the body
                if r is None: break
                s.used_contracts.add(pat); return r
        b = s.builtin(st, name, d, args, ins)
        if b is not None: return b
        f = s.funcs.get(name)
        if f is None:
            for m in s.mods:
                al = m.aliases.get(name)
                if al is not None and al.k == 'global': return s.call(st, al.v, args, ins)
        if f is None: raise ToolLimit('no contract and no body for ' + d)
        s.inlined.add(d)
        for k, (nm, ty, byval) in enumerate(f.args):
            if byval:
                o = st.mem[args[k].reg]; h = next(s.hid); st.mem[h] = o.copy(); args = list(args); args[k] = Ptr(h, args[k].c, args[k].t)
        return s.run(f, args, st)

    def builtin(s, st, name, d, args, ins):
        A = s.A
        if name == '__cxa_atexit': return [(st, 0)]
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            if b in ('memcpy', 'memmove'): s.memcpy(st, s.ptr(args[0]), s.ptr(args[1]), args[2], ins); return [(st, None)]
            if b == 'memset': s.memset(st, s.ptr(args[0]), args[1], args[2], ins); return [(st, None)]
            if b == 'va_start' and s.va_object is not None: s.store(st, s.ptr(args[0]), Ptr(s.va_object), Ty('ptr'), ins); return [(st, None)]
            if b in ('lifetime', 'dbg', 'assume', 'stackrestore', 'prefetch', 'va_start', 'va_end', 'donothing', 'va_copy'): return [(st, None)]
            if b == 'stacksave': return [(st, NULL)]
            if b == 'trap': s.prove(st, False, 'trap is unreachable', ins=ins); st.dead = True; return [(st, None)]
            n = int(re.search(r'\.i(\d+)', name).group(1)) if re.search(r'\.i(\d+)', name) else 0
            if b in ('smax', 'smin', 'umax', 'umin'):
                p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b]
                c = A.cmp(p, args[0], args[1], n, st); return [(st, (args[0] if c else args[1]) if conc(c) else A.ite(c, args[0], args[1], n))]
            if b == 'abs':
                c = A.cmp('slt', args[0], 0, n, st); neg = A.bin('sub', 0, args[0], n, st)
                return [(st, (neg if c else args[0]) if conc(c) else A.ite(c, neg, args[0], n))]
            if b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'with.overflow' in name:
                x, y = args; o = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[b[1:]]
                r = A.bin(o, x, y, n, st)
                if b[0] == 'u':
                    if s.mode == 'int':
                        X, Y = A.lift(x, n), A.lift(y, n); e = {'mul': X * Y, 'add': X + Y, 'sub': X - Y}[o]
                        ov = simp(z3.Or(e >= (1 << n), e < 0))
                    else:
                        X, Y = z3.ZeroExt(n, A.lift(x, n)), z3.ZeroExt(n, A.lift(y, n))
                        e = {'mul': X * Y, 'add': X + Y, 'sub': X - Y}[o]
                        ov = simp(z3.Extract(2 * n - 1, n, e) != 0)
                    return [(st, ('agg', {0: r, 1: ov}))]
                raise ToolLimit(name)
            if b in ('fabs', 'sqrt', 'pow', 'floor', 'ceil', 'round', 'fmuladd', 'copysign'):
                w = 32 if '.f32' in name else 64
                return [(st, s.fuf(b, args, w, st))]
            if b in ('bswap', 'ctpop', 'fshl', 'fshr', 'ctlz', 'cttz') : raise ToolLimit(name)
            if b == 'expect': return [(st, args[0])]
            if b == 'objectsize': raise ToolLimit(name)
            raise ToolLimit(name)
        if name == 'malloc': return s.malloc(st, args[0])
        if name == 'calloc' : raise ToolLimit('calloc')
        if name == 'free': return [(x, None) for x in s.free(st, s.ptr(args[0]), ins)]
        if name in ('_Znwj', '_Znaj'): return s.malloc(st, args[0], 'new', False)
        if name in ('_ZnwjRKSt9nothrow_t', '_ZnajRKSt9nothrow_t'): return s.malloc(st, args[0], 'new', True)
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvj', '_ZdaPvj'):
            return [(x, None) for x in s.free(st, s.ptr(args[0]), ins, 'delete')]
        if name in ('memcpy', 'memmove'):
            s.memcpy(st, s.ptr(args[0]), s.ptr(args[1]), args[2], ins); return [(st, args[0])]
        if name == 'memset': s.memset(st, s.ptr(args[0]), A.cast('trunc', args[1], 32, 8, st), args[2], ins); return [(st, args[0])]
        if name == 'bzero': s.memset(st, s.ptr(args[0]), 0, args[1], ins); return [(st, None)]
        if name == 'strlen': return s.strlen(st, s.ptr(args[0]), ins)
        if name == '__cxa_pure_virtual': s.prove(st, False, 'no pure virtual call', ins=ins); st.dead = True; return [(st, None)]
        return None

    def strlen(s, st, p, ins):
        """length of the NUL-terminated string: the first zero at or after p; obligation: there is one inside the object."""
        o = s.obj(st, p, 'strlen', ins)
        if o is None: return [(st, 0)]
        if isinstance(o, Pool): raise ToolLimit('strlen on node')
        if o.arr is None and conc(s.off(p)):
            k = 0; of = s.off(p)
            while True:
                if conc(o.size) and of + k >= o.size:
                    s.prove(st, False, 'strlen: string is terminated inside its object', ins=ins); st.dead = True; return [(st, 0)]
                b = s.load(st, Ptr(p.reg, p.c + k), I8, ins)
                if not conc(b):
                    z = s.A.lift(b, 8) == s.A.lift(0, 8)
                    if s.entails(st, z): return [(st, k)]
                    if not s.entails(st, z3.Not(z)): break
                elif b == 0: return [(st, k)]
                k += 1
        if conc(o.size) and o.size <= 64 and conc(s.off(p)):
            outs = []; of = s.off(p); cur = st
            for k in range(o.size - of):
                b = s.load(cur, Ptr(p.reg, p.c + k), I8, ins)
                z = s.A.cmp('eq', b, 0, 8, cur)
                if z is True: outs.append((cur, k)); return outs
                if z is False: continue
                if s.feasible(cur, z):
                    s2 = cur.copy(); s2.assume(z); outs.append((s2, k))
                cur = cur.copy(); cur.assume(z3.Not(z))
                if not s.feasible(cur): return outs
            s.prove(cur, False, 'strlen: string is terminated inside its object', ins=ins)
            return outs
        o = s.to_arr(st, p.reg) if o.arr is None else o
        if o.esz != 1: raise ToolLimit('strlen esz')
        h = getattr(s, 'strlen_of', {}).get(p.reg)
        if h is not None and o.ro and conc(s.off(p)) and s.off(p) == 0: return [(st, h)]
        if h is not None and s.mode == 'int':      # the rest of a text; where it may have been written, that it still ends there is proved
            of = s.tidx(p); s.prove(st, z3.And(of >= 0, of <= h), 'strlen: inside the text', ins=ins); st.assume(of <= h)
            if not o.ro:
                j = z3.Int(s.uniq('j')); s.prove(st, z3.And(z3.Select(o.arr, h) == 0, z3.Implies(z3.And(j >= of, j < h), z3.Select(o.arr, j) != 0)), 'strlen: the text ends where it did', ins=ins)
            return [(st, z3.simplify(h - of))]
        if h is not None and conc(s.off(p)) and s.off(p) == 0 and not o.ro:
            j = z3.BitVec(s.uniq('j'), 32); s.prove(st, z3.And(z3.Select(o.arr, h) == 0, z3.Implies(z3.ULT(j, h), z3.Select(o.arr, j) != 0)), 'strlen: the text ends where it did', ins=ins); return [(st, h)]
        raise ToolLimit('strlen of unbounded string')

    # ---------------------------------------------------------------- loops
    def shape(s, v):
        if isinstance(v, Ptr):
            if v.reg is None: return ('null',)
            if isinstance(v.reg, Node): return NShape(('node', v.reg.pool, v.c), v.reg.id) if not v.t else ('blk', v.reg.pool, Same(v.reg.id))
            if isinstance(v.reg, Opq): return ('opq',)
            if isinstance(v.reg, Fn): return ('fn', v.reg.name)
            g = abs(v.c)
            for k, _ in v.t: g = math.gcd(g, abs(k))
            return ('obj', v.reg, g)      # its offset is a multiple of g
        return ('val',)

    def join(s, a, b):
        if a is None: return b
        if b is None: return a
        if a == b:
            if isinstance(a, NShape) and a.id is not None and (getattr(b, 'id', None) is None or not a.id.eq(b.id)): return NShape(a, None)
            return a
        for x, y in ((a, b), (b, a)):     # a pointer that walks through one block
            if isinstance(x, NShape) and x.id is not None and y[0] == 'blk' and y[1] == x[1] and y[2] == Same(x.id): return y
            if isinstance(x, NShape) and isinstance(y, NShape) and x.id is not None and y.id is not None and x.id.eq(y.id) and x[1] == y[1]: return ('blk', x[1], Same(x.id))
        if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1]: return ('obj', a[1], math.gcd(a[2], b[2]))
        for x, y in ((a, b), (b, a)):
            if x == ('null',) and (y[0] == 'opq' or y[0] == 'node' and y[2] == 0): return y
        return ('mixed', a, b)

    def same(s, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if s.shape(a)[:2] != s.shape(b)[:2]: return False
            if isinstance(a.reg, (Node, Opq)) and not a.reg.id.eq(b.reg.id): return False
            return a.c == b.c and len(a.t) == len(b.t) and all(k == k2 and x.eq(y) for (k, x), (k2, y) in zip(a.t, b.t))
        if isinstance(a, Ptr) or isinstance(b, Ptr): return False
        if isinstance(a, LazyC) or isinstance(b, LazyC): return a is b
        if conc(a) or conc(b): return conc(a) and conc(b) and a == b
        if isinstance(a, tuple) or isinstance(b, tuple): return a == b
        return a.eq(b)

    def hav(s, nm, sh, old, n, st):
        """fresh value of the given shape; n bits for integers"""
        if sh[0] == 'val': return s.A.fresh(nm, n, st)
        if sh[0] == 'null': return NULL
        if sh[0] == 'node':
            i = z3.Int(s.uniq(nm)); st.assume(i >= 0); return Ptr(Node(sh[1], i), sh[2])
        if sh[0] == 'blk':
            t = z3.BitVec(s.uniq(nm + '_off'), 32) if s.mode == 'bv' else z3.Int(s.uniq(nm + '_off')); return Ptr(Node(sh[1], sh[2].x), 0, ((1, t),))
        if sh[0] == 'opq': return Ptr(Opq(z3.Int(s.uniq(nm))))
        if sh[0] == 'fn': return Ptr(Fn(sh[1]))
        if sh[0] == 'obj':
            t = z3.BitVec(s.uniq(nm + '_off'), 32) if s.mode == 'bv' else z3.Int(s.uniq(nm + '_off'))
            return Ptr(sh[1], 0, ((sh[2] or 1, t),))
        raise ToolLimit('loop variable points into several objects: %r' % (sh,))

    def loop(s, st, env, f, info, H, prev, pol, base=0):
        phis = [i for i in f.blocks[H] if i.op == 'phi']
        ph0 = {}; tys = {}
        for p in phis:
            tys[p.res] = p.ty
            for v, lab in p.x:
                if lab == prev: ph0[p.res] = s.ev(v, env, st)
        shapes = {k: s.shape(v) for k, v in ph0.items()}
        changed = {k: False for k in ph0}     # phis that stay constant keep their value
        mod = {}
        body = info.loops[H]
        dry = getattr(s, 'dry', 0)
        # ---- which state does the body change?
        s.quiet += 1; s.dry = dry + 1; peel = False
        try:
            for rnd in range(12):
                sth, envh, ph = s.havoc(st, env, ph0, tys, shapes, changed, mod, f)
                outs, exits, backs = s.region([(sth.copy(), dict(envh), H, '#start')], f, H, body)
                ch = False
                for sb, eb, pv in backs:
                    for p in phis:
                        for v, lab in p.x:
                            if lab == pv: nv = s.ev(v, eb, sb)
                        k = p.res
                        sh = s.join(shapes[k], s.shape(nv))
                        if sh != shapes[k]: shapes[k] = sh; ch = True
                        if sh[0] == 'mixed' and base == 0: raise Peel()
                        if not changed[k] and not s.same(nv, ph[k]): changed[k] = True; ch = True
                    if s.diff(sth, sb, mod): ch = True
                if not ch: break
            else: raise ToolLimit('loop frame does not stabilise')
        except Peel: peel = True
        finally:
            s.quiet -= 1; s.dry = dry
        if peel:      # a loop variable points elsewhere on entry: the first iteration is taken by itself, the invariant is for the later ones
            env1 = dict(env); env1.update(ph0); outs, exits, backs = s.region([(st, env1, H, '#start')], f, H, body)
            for sb, eb, pv in backs:
                o2, e2 = s.loop(sb, eb, f, info, H, pv, pol, 1); outs += o2; exits += e2
            return outs, exits
        it = s.A.fresh('it', 32) if s.mode == 'bv' else z3.Int(s.uniq('it'))
        surv = []
        if not dry:
            # ---- Houdini
            v0 = LoopView(s, st, st, ph0, ph0, (z3.BitVecVal(base, 32) if s.mode == 'bv' else z3.IntVal(base)), f, tys)
            v0.env = env; v0.mod = mod; v0.info = info; v0.H = H; v0.changed = changed
            cands = []
            if pol.generic: cands += s.generic(v0)
            if pol.cands: cands += pol.cands(v0)
            def val(c, view):
                try: r = c(view)
                except (KeyError, AttributeError, ToolLimit): return None
                return z3.BoolVal(r) if isinstance(r, bool) else r
            live = []
            pre = [(n, c, val(c, v0)) for n, c in cands]
            pre = [x for x in pre if x[2] is not None]
            live = s.filter(st, pre); dbg = os.environ.get('C3P_HDBG')
            if dbg: print('LOOP', f.demangled, H, 'dropped on entry:', [n for n, _, _ in pre if n not in {x for x, _ in live}], flush=True)
            rounds = 0
            while True:
                rounds += 1
                sth, envh, ph = s.havoc(st, env, ph0, tys, shapes, changed, mod, f)
                vh = s.view(sth, st, ph, ph0, it, f, tys, v0)
                if s.mode == 'int': sth.assume(it >= base)
                for n, c in live:
                    g = val(c, vh)
                    if g is not None: sth.assume(g)
                s.quiet += 1
                try: outs, exits, backs = s.region([(sth.copy(), dict(envh), H, '#start')], f, H, body)
                finally: s.quiet -= 1
                keep = list(live)
                for sb, eb, pv in backs:
                    nph = {}
                    for p in phis:
                        for v, lab in p.x:
                            if lab == pv: nph[p.res] = s.ev(v, eb, sb)
                    vb = s.view(sb, st, nph, ph0, it + 1, f, tys, v0)
                    keep = s.filter(sb, [(n, c, val(c, vb)) for n, c in keep])
                if dbg and len(keep) < len(live): print('LOOP', f.demangled, H, 'round', rounds, 'dropped:', [n for n, _ in live if n not in {x for x, _ in keep}], flush=True)
                if len(keep) == len(live): break
                live = keep
                if rounds > 40: raise ToolLimit('houdini')
            surv = live
            for n, _ in surv:
                s.obls.append(Oblig('loop invariant: %s (entry and preservation)' % n, f.demangled, 0, 'discharged', 0, 'houdini', None, 'invariant')) if not s.quiet else None
            s.houdini_log.append((f.demangled, H, len(cands), [n for n, _ in surv]))
        # ---- real pass
        sth, envh, ph = s.havoc(st, env, ph0, tys, shapes, changed, mod, f)
        vh = s.view(sth, st, ph, ph0, it, f, tys, None)
        if s.mode == 'int': sth.assume(it >= base)
        for n, c in surv:
            try: g = c(vh)
            except (KeyError, AttributeError): continue
            sth.assume(z3.BoolVal(g) if isinstance(g, bool) else g)
        outs, exits, backs = s.region([(sth, envh, H, '#start')], f, H, body)
        # values defined before/in the loop remain visible at the exits through env
        return outs, exits

    def view(s, st, st0, ph, ph0, it, f, tys, like):
        v = LoopView(s, st, st0, ph, ph0, it, f, tys)
        if like is not None: v.mod, v.info, v.H, v.changed, v.env = like.mod, like.info, like.H, like.changed, like.env
        return v

    def filter(s, st, cs):
        """keep the candidates implied by st"""
        cs = [x for x in cs if x[2] is not None]
        if not cs: return []
        goals = z3.And([g for _, _, g in cs])
        r, m, _ = s.decide_quick(st.pc, goals)
        if r: return [(n, c) for n, c, _ in cs]
        out = []
        rest = cs
        # use the model to drop several at once
        if m is not None:
            nr = []
            for x in rest:
                try: v = m.eval(x[2], model_completion=True)
                except z3.Z3Exception: v = None
                if v is not None and z3.is_false(v) and not has_quant(x[2]): continue
                nr.append(x)
            if len(nr) < len(rest): return s.filter(st, nr)
        for x in rest:
            ok, _, _ = s.decide_quick(st.pc, x[2])
            if os.environ.get('C3P_DUMP') and not ok and os.environ['C3P_DUMP'] in x[0]: S_ = z3.Solver(); S_.add(list(st.pc) + [z3.Not(x[2])]); open('/tmp/dump.smt2', 'w').write(S_.to_smt2()); os._exit(0)
            if ok: out.append((x[0], x[1]))
        return out

    def decide_quick(s, pc, g):
        g = z3.simplify(g)
        if z3.is_true(g): return True, None, None
        if z3.is_false(g): return False, None, None
        forms = list(pc) + [z3.Not(g)]
        if has_quant(g) or any(has_quant(c) for c in pc):
            r = s._ematch(forms, s.houdini_timeout)
            if r == z3.unsat: return True, None, None
            r, m, _ = s._check(forms, s.houdini_timeout if s.em_timeout or s.retry > 1 else min(700, s.houdini_timeout), True)
        else: r, m, _ = s._check(forms, s.houdini_timeout, True)
        return r == z3.unsat, m, None
    houdini_timeout = 3000; retry = 1; em_timeout = False

    def havoc(s, st, env, ph0, tys, shapes, changed, mod, f):
        sth = st.copy(); envh = dict(env); ph = {}
        for k, v in ph0.items():
            if not changed[k]: ph[k] = v
            else: ph[k] = s.hav('h_' + k, shapes[k], v, s.width(tys[k]), sth)
            envh[k] = ph[k]
        for key, x in mod.items():
            if key[0] == 'cell':
                _, h, off = key; n, sh = x
                o = s.wobj(sth, h)
                o.cells[off] = (n, s.hav('h_%s_%d' % (o.name[:12], off), sh, None, 8 * n, sth))
            elif key[0] == 'arr':
                o = sth.mem[key[1]]
                if o.arr is None: o = s.to_arr(sth, key[1])
                o = s.wobj(sth, key[1]); o.arr = z3.Const(s.uniq('h_' + o.name[:12]), o.arr.sort())
            elif key[0] == 'rec':
                o = s.wobj(sth, key[1]); d = dict(o.rec[2]); k, a = d[key[2]]; d[key[2]] = (k, z3.Const(s.uniq('h_%s_%d' % (o.name[:12], key[2])), a.sort())); o.rec = (o.rec[0], o.rec[1], d)
            elif key[0] == 'pool':
                P = sth.pools[key[1]].copy(); k, a = P.fields[key[2]]
                P.fields[key[2]] = (k, z3.Const(s.uniq('h_%s_%s' % (key[1], key[2])), a.sort())); sth.pools[key[1]] = P
            elif key[0] == 'alive':
                P = sth.pools[key[1]].copy(); P.alive = z3.Const(s.uniq('h_alive'), P.alive.sort()); sth.pools[key[1]] = P
            elif key[0] == 'ghost':
                v = sth.ghost.get(key[1])
                if isinstance(v, z3.ExprRef): sth.ghost[key[1]] = z3.Const(s.uniq('hg_' + str(key[1])), v.sort())
        return sth, envh, ph

    def diff(s, a, b, mod):
        ch = False
        for h, oa in a.mem.items():
            ob = b.mem.get(h)
            if ob is oa or ob is None: continue
            if ob.alive is not oa.alive: raise ToolLimit('object freed in loop')
            if oa.rec is not None:
                for off, (k, a2) in ob.rec[2].items():
                    if not callable(a2) and not a2.eq(oa.rec[2][off][1]) and ('rec', h, off) not in mod: mod[('rec', h, off)] = True; ch = True
                continue
            if oa.arr is not None or ob.arr is not None:
                if ('arr', h) not in mod and not (oa.arr is not None and ob.arr is not None and oa.arr.eq(ob.arr)):
                    mod[('arr', h)] = True; ch = True
                    for k in [k for k in mod if k[0] == 'cell' and k[1] == h]: del mod[k]
                continue
            for off, (n, v) in ob.cells.items():
                c = oa.cells.get(off)
                if c is not None and c[0] == n:
                    if s.same(c[1], v): continue
                    sh = s.join(s.shape(c[1]), s.shape(v))
                else:
                    if c is None and not any(k < off + n and k + x[0] > off for k, x in oa.cells.items()):
                        # first touched inside the loop: unknown before
                        if s.lazy_equal(v): 
                            continue
                    sh = s.shape(v)
                key = ('cell', h, off); old = mod.get(key)
                sh2 = s.join(old[1] if old else None, sh)
                if old is None or old != (n, sh2): mod[key] = (n, sh2); ch = True
        for nme, pa in a.pools.items():
            pb = b.pools[nme]
            if pa is pb: continue
            for o in pa.fields:
                if not pa.fields[o][1].eq(pb.fields[o][1]) and ('pool', nme, o) not in mod: mod[('pool', nme, o)] = True; ch = True
            if not pa.alive.eq(pb.alive) and ('alive', nme) not in mod: mod[('alive', nme)] = True; ch = True
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if k in ('allocs', 'newnodes', 'oom'): continue
            if x is y: continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y): continue
            if x == y and not isinstance(x, z3.ExprRef): continue
            if ('ghost', k) not in mod:
                mod[('ghost', k)] = True; ch = True
        return ch

    def lazy_equal(s, v):
        # a value read before being written in the loop body ("u_" variables) is just an unread initial value
        return not conc(v) and not isinstance(v, Ptr) and z3.is_const(v) and str(v).startswith('u_')

    def generic(s, v0):
        """candidates that do not depend on names: counters, monotonicity, bounds compared in the loop."""
        f, info, H = v0.fn, v0.info, v0.H; body = info.loops[H]
        out = []
        defs = {}
        for b in body:
            for ins in f.blocks[b]:
                if ins.res: defs[ins.res] = ins
        A = s.A
        # loop-invariant comparison operands
        bounds = []
        for b in body:
            for ins in f.blocks[b]:
                if ins.op == 'icmp' and ins.a[0].ty.k == 'i' and ins.a[0].ty.n > 1:
                    for x in ins.a:
                        if isinstance(x, Loc) and x.name in defs: continue
                        try: bv = s.ev(x, v0.env, v0.st)
                        except ToolLimit: continue
                        if not isinstance(bv, Ptr): bounds.append((ins.a[0].ty.n, bv, str(x.name) if isinstance(x, Loc) else str(bv)))
        seenb = set()
        for k, ty in v0.tys.items():
            if not v0.changed.get(k): continue
            v = v0.ph0[k]
            if ty.k == 'i' and ty.n > 1:
                n = ty.n
                if n == 8: out.append(('%s is a truth value' % k, lambda w, k=k: rawcmp(s, 'ule', w.ph[k], 1, 8)))
                deltas = []
                for p in f.blocks[H]:
                    if p.op == 'phi' and p.res == k:
                        for val, lab in p.x:
                            d = defs.get(val.name) if isinstance(val, Loc) else None
                            if d is not None and d.op in ('add', 'sub') and isinstance(d.a[1], Const) and d.a[1].k == 'int':
                                deltas.append(tosigned(d.a[1].v, n) * (1 if d.op == 'add' else -1))
                            elif d is not None and d.op in ('phi', 'select') and n > 8: deltas.append(1)
                for c in dict.fromkeys(deltas):
                                    if s.mode == 'int':
                                        out.append(('%s = init%+d*iter' % (k, c), lambda w, k=k, c=c, n=n: A.lift(w.ph[k], n) == A.lift(w.ph0[k], n) + c * w.it))
                                        if not conc(v0.ph0[k]) or tosigned(v0.ph0[k], n) < 0:
                                            out.append(('%s =s init%+d*iter' % (k, c), lambda w, k=k, c=c, n=n: z3.simplify(sg(w.ph[k], n)) == sg(w.ph0[k], n) + c * w.it))
                                    elif n <= 32:
                                        out.append(('%s = init%+d*iter' % (k, c), lambda w, k=k, c=c, n=n: A.lift(w.ph[k], n) == A.lift(w.ph0[k], n) + (z3.Extract(n - 1, 0, w.it) if n < 32 else w.it) * z3.BitVecVal(c & mask(n), n)))
                for (bn, bv, bname) in bounds:
                    if bn < n: continue
                    if (k, bn, str(bv)) in seenb: continue
                    seenb.add((k, bn, str(bv)))
                    for pred in ('ule', 'uge', 'ult', 'sle', 'sge'):
                        if conc(bv) and bv == 0 and (pred == 'uge' or bn > n): continue
                        def mk(w, k=k, bv=bv, pred=pred, n=n, bn=bn):
                            x = w.ph[k]
                            if bn > n: x = A.cast('zext', x, n, bn, w.st)
                            r = rawcmp(s, pred, x, bv, bn); return r
                        out.append(('%s %s %s' % (k, pred, bname), mk))
                for pred in ('uge', 'ule'):
                    out.append(('%s %s init' % (k, pred), lambda w, k=k, pred=pred, n=n: rawcmp(s, pred, w.ph[k], w.ph0[k], n)))
            elif ty.k == 'ptr' and s.shape(v)[0] == 'obj' and s.mode == 'bv':
                for p in f.blocks[H]:
                    if p.op == 'phi' and p.res == k:
                        for val, lab in p.x:
                            d = defs.get(val.name) if isinstance(val, Loc) else None
                            if d is not None and d.op == 'getelementptr' and len(d.a) == 2 and isinstance(d.a[1], Const):
                                sz = size(d.x); c = tosigned(d.a[1].v, 32)
                                def mk(w, k=k, sz=sz, c=c):
                                    q = []
                                    for z in (w.ph[k], w.ph0[k]):
                                        if z.c % sz or any(t % sz for t, _ in z.t): raise KeyError(k)
                                        q.append(s.tidx(Ptr(None, z.c // sz, tuple((t // sz, x) for t, x in z.t))))
                                    return q[0] == q[1] + w.it * z3.BitVecVal(c & mask(32), 32)
                                out.append(('%s element = init%+d*iter' % (k, c), mk))
            elif ty.k == 'ptr' and s.mode == 'int' and (s.shape(v)[0] in ('obj', 'blk') or s.shape(v)[0] == 'node' and s.shape(v)[2] > 0):
                for p in f.blocks[H]:
                    if p.op == 'phi' and p.res == k:
                        for val, lab in p.x:
                            d = defs.get(val.name) if isinstance(val, Loc) else None
                            if d is not None and d.op == 'getelementptr' and len(d.a) == 2 and isinstance(d.a[1], Const):
                                c = tosigned(d.a[1].v, 32) * size(d.x)
                                out.append(('%s off = init%+d*iter' % (k, c), lambda w, k=k, c=c: s.off(w.ph[k]) == s.off(w.ph0[k]) + c * w.it))
        # counters kept in memory
        for key, x in v0.mod.items():
            if key[0] == 'cell' and x[1] == ('val',) and s.mode == 'int':
                h, off = key[1], key[2]; n = 8 * x[0]
                for c in (1, -1):
                    out.append(('cell %s+%s = init%+d*iter' % (h, off, c), lambda w, h=h, off=off, c=c, n=n: A.lift(w.st.mem[h].cells[off][1], n) == A.lift(w.st0.mem[h].cells[off][1], n) + c * w.it))
        return out

def sg(v, n):
    if conc(v): return z3.IntVal(tosigned(v, n))
    return z3.If(v < (1 << (n - 1)), v, v - (1 << n))

def rawcmp(ex, pred, a, b, n):
    A = ex.A
    if ex.mode == 'bv':
        r = A.cmp(pred, a, b, n)
    else:
        if conc(a) and conc(b): r = foldcmp(pred, a, b, n)
        else:
            x, y = (sg(a, n), sg(b, n)) if pred[0] == 's' else (A.lift(a, n), A.lift(b, n))
            r = {'le': x <= y, 'ge': x >= y, 'lt': x < y, 'gt': x > y}[pred[1:]]
    return z3.BoolVal(r) if isinstance(r, bool) else r
