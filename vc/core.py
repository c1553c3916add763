"""Deductive verification-condition generator for LLVM IR, function by function.

A function is executed symbolically over its whole control-flow graph.  Calls go through the callee's
contract when the specification gives one, and are inlined otherwise.  Loops are either cut by inductive
invariants (candidates are filtered to the inductive subset by Houdini, then assumed) or unrolled
completely with an unwinding obligation.  Every memory access, every division and every postcondition is an
obligation that z3 (then cvc5) must prove for all inputs.
"""
import re, time, subprocess, os, itertools
import z3
from irparse import *

class ToolLimit(Exception):
    pass

# ------------------------------------------------------------------ pointers
class Fn:      # function designator
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return isinstance(o, Fn) and o.name == s.name
    def __hash__(s): return hash(s.name)

class Node:    # element of a node pool; id 0 is the null pointer
    __slots__ = ('pool', 'id')
    def __init__(s, pool, id): s.pool, s.id = pool, id

class Opq:     # opaque, never dereferenced; id 0 is null
    __slots__ = ('id',)
    def __init__(s, id): s.id = id

class Ptr:
    """reg: None (null) | int object handle | Node | Opq | Fn ; offset = c + sum(coef*term)."""
    __slots__ = ('reg', 'c', 't')
    def __init__(s, reg, c=0, t=()): s.reg, s.c, s.t = reg, c, t
    def __repr__(s): return 'Ptr(%s,%s%s)' % (s.reg if not isinstance(s.reg, Node) else 'N:%s:%s' % (s.reg.pool, s.reg.id), s.c, ''.join('+%s*%s' % x for x in s.t))

NULL = Ptr(None)

class Obj:
    __slots__ = ('name', 'size', 'cells', 'arr', 'esz', 'alive', 'ro', 'heap', 'ghost', 'arrn', 'rec')
    def __init__(s, name, size, cells=None, arr=None, esz=1, alive=True, ro=False, heap=False):
        s.name, s.size, s.cells, s.arr, s.esz, s.alive, s.ro, s.heap = name, size, cells if cells is not None else {}, arr, esz, alive, ro, heap
        s.ghost = None; s.arrn = 0; s.rec = None     # rec: (stride, count, {offset: (kind, array by index)}) -- an array of records
    def copy(s):
        o = Obj(s.name, s.size, dict(s.cells), s.arr, s.esz, s.alive, s.ro, s.heap); o.ghost = s.ghost; o.arrn = s.arrn; o.rec = s.rec; return o

class Pool:
    """fields: off -> (kind, array); kind: ('i',bits) | ('node',pool) | ('opq',)"""
    __slots__ = ('name', 'size', 'fields', 'alive', 'hdr', 'cap', 'raw')
    def __init__(s, name, size, fields, alive, hdr=None, cap=None, raw=None):
        s.name, s.size, s.fields, s.alive = name, size, fields, alive
        # blocks with inline content: bytes from offset hdr on are fields['M'][id][0..cap[id]); raw(id): a block without a header (its content starts at hdr by convention)
        s.hdr, s.cap, s.raw = hdr, cap, raw
    def copy(s): return Pool(s.name, s.size, dict(s.fields), s.alive, s.hdr, s.cap, s.raw)

class State:
    __slots__ = ('pc', 'mem', 'pools', 'ghost', 'trace', 'depth', 'dead')
    def __init__(s):
        s.pc = []; s.mem = {}; s.pools = {}; s.ghost = {}; s.trace = (); s.depth = 0; s.dead = False
    def copy(s):
        n = State(); n.pc = list(s.pc); n.mem = dict(s.mem); n.pools = dict(s.pools); n.ghost = dict(s.ghost)
        n.trace = s.trace; n.depth = s.depth; n.dead = s.dead; return n
    def assume(s, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)): return
        if isinstance(c, bool): c = z3.BoolVal(c)
        s.pc.append(c)

def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def conc(x): return isinstance(x, (int, bool))

# ------------------------------------------------------------------ arithmetic
class BV:
    """bit-vector arithmetic: exact machine semantics."""
    name = 'bv'
    opaque = {}          # (operation, width) -> function standing for it (its axioms are assumed, and proved of the machine operation)
    def __init__(s, ex): s.ex = ex
    def sort(s, n): return z3.BitVecSort(n)
    def fresh(s, nm, n, st=None):
        return z3.Bool(s.ex.uniq(nm)) if n == 1 else z3.BitVec(s.ex.uniq(nm), n)
    def lift(s, v, n):
        if n == 1: return z3.BoolVal(bool(v)) if conc(v) else v
        return z3.BitVecVal(v, n) if conc(v) else v
    def low(s, v):
        if isinstance(v, z3.BitVecNumRef): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return v
    def bin(s, op, a, b, n, st=None, ins=None):
        if n == 1: return boolbin(op, a, b)
        if conc(a) and conc(b): return foldbin(op, a, b, n)
        r = quick(op, a, b, n)
        if r is not None: return r
        A, B = s.lift(a, n), s.lift(b, n)
        if (op, n) in s.opaque: return s.opaque[(op, n)](A, B)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'udiv': lambda: z3.UDiv(A, B), 'sdiv': lambda: A / B,
             'urem': lambda: z3.URem(A, B), 'srem': lambda: z3.SRem(A, B), 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B),
             'ashr': lambda: A >> B, 'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B}[op]()
        return s.low(z3.simplify(r))
    def cmp(s, p, a, b, n, st=None):
        if n == 1:
            A = a if not isinstance(a, int) else bool(a); 
            A, B = tobool(a), tobool(b)
            if p == 'eq': return simp(A == B)
            if p == 'ne': return simp(z3.Not(A == B))
            if p == 'ugt': return simp(z3.And(A, z3.Not(B)))
            if p == 'ult': return simp(z3.And(B, z3.Not(A)))
            raise ToolLimit('i1 cmp')
        if conc(a) and conc(b): return foldcmp(p, a, b, n)
        A, B = s.lift(a, n), s.lift(b, n)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
             'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[p]()
        return simp(r)
    def cast(s, op, v, n, m, st=None):
        if n == 1:
            if conc(v): return (mask(m) if v else 0) if op == 'sext' else int(bool(v))
            return z3.If(v, z3.BitVecVal(-1 if op == 'sext' else 1, m), z3.BitVecVal(0, m))
        if conc(v):
            if op == 'trunc': return (v & mask(m)) if m > 1 else (v & 1)
            if op == 'zext': return v
            return tosigned(v, n) & mask(m)
        if op == 'trunc':
            if m == 1: return simp(z3.Extract(0, 0, v) == 1)
            return s.low(z3.simplify(z3.Extract(m - 1, 0, v)))
        if op == 'zext': return s.low(z3.simplify(z3.ZeroExt(m - n, v)))
        return s.low(z3.simplify(z3.SignExt(m - n, v)))
    def ite(s, c, a, b, n):
        if n == 1: return simp(z3.If(tobool(c), tobool(a), tobool(b)))
        return s.low(z3.simplify(z3.If(c, s.lift(a, n), s.lift(b, n))))
    def idx(s, v): return s.lift(v, 32)
    def idxsort(s): return z3.BitVecSort(32)
    def byte_of(s, v, n, k):
        if conc(v): return (v >> (8 * k)) & 255
        return s.low(z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
    def cat(s, bs):     # little endian list of bytes -> value
        if all(conc(b) for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
        return s.low(z3.simplify(z3.Concat(*[s.lift(b, 8) for b in reversed(bs)]))) if len(bs) > 1 else bs[0]
    def rng(s, v, n): return None
    def ule(s, a, b, n=32): return s.cmp('ule', a, b, n)

def mask(n): return (1 << n) - 1
def tosigned(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v
def tobool(a):
    if isinstance(a, (bool, int)): return z3.BoolVal(bool(a))
    return a
def simp(r):
    r = z3.simplify(r)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r

def as01(v):
    """the z3 condition c when v is syntactically If(c,1,0) (or a constant 0/1), else None"""
    if conc(v): return z3.BoolVal(bool(v)) if v in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children(); a, b = as01(a) if not z3.is_bool(a) else None, as01(b) if not z3.is_bool(b) else None
        if a is None or b is None: return None
        return z3.If(c, a, b)
    if isinstance(v, z3.IntNumRef): return z3.BoolVal(v.as_long() == 1) if v.as_long() in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_MOD) and isinstance(v.arg(1), z3.IntNumRef) and v.arg(1).as_long() >= 2: return as01(v.arg(0))
    return None

def boolbin(op, a, b):
    if conc(a) and conc(b):
        a, b = int(a) & 1, int(b) & 1
        return bool({'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op])
    A, B = tobool(a), tobool(b)
    if op in ('and', 'mul'): return simp(z3.And(A, B))
    if op == 'or': return simp(z3.Or(A, B))
    if op in ('xor', 'add', 'sub'): return simp(z3.Xor(A, B))
    raise ToolLimit('bool ' + op)

def foldbin(op, a, b, n):
    M = mask(n); sa, sb = tosigned(a, n), tosigned(b, n)
    if op == 'add': return (a + b) & M
    if op == 'sub': return (a - b) & M
    if op == 'mul': return (a * b) & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & M if b < n else 0
    if op == 'lshr': return a >> b if b < n else 0
    if op == 'ashr': return (sa >> min(b, n - 1)) & M
    if b == 0: return 0
    if op == 'udiv': return a // b
    if op == 'urem': return a % b
    q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q
    if op == 'sdiv': return q & M
    if op == 'srem': return (sa - q * sb) & M
    raise ToolLimit(op)

def quick(op, a, b, n):
    if conc(b):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b == 0 and op in ('mul', 'and'): return 0
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
    if conc(a):
        if a == 0 and op in ('add', 'or', 'xor'): return b
        if a == 0 and op in ('mul', 'and', 'shl', 'lshr', 'ashr'): return 0
        if a == 1 and op == 'mul': return b
    return None

def foldcmp(p, a, b, n):
    sa, sb = tosigned(a, n), tosigned(b, n)
    return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p]

class INT:
    opaque = {}
    """mathematical integers with explicit wrap-around: an N-bit value is the integer in [0,2^N)."""
    name = 'int'
    def __init__(s, ex): s.ex = ex; s.catmap = {}; s.bytemap = {}
    def sort(s, n): return z3.IntSort()
    def fresh(s, nm, n, st=None):
        if n == 1: return z3.Bool(s.ex.uniq(nm))
        v = z3.Int(s.ex.uniq(nm))
        if st is not None: st.assume(z3.And(v >= 0, v < (1 << n)))
        return v
    def lift(s, v, n):
        if n == 1: return tobool(v)
        return z3.IntVal(v) if conc(v) else v
    def low(s, v):
        if isinstance(v, z3.IntNumRef): return v.as_long()
        return v
    def rng(s, v, n): return z3.And(v >= 0, v < (1 << n))
    def sgn(s, v, n, st=None):
        if conc(v): return tosigned(v, n)
        H = 1 << (n - 1)
        if st is not None:
            if s.ex.entails(st, v < H): return v
            if s.ex.entails(st, v >= H): return v - (1 << n)
        return z3.If(v < H, v, v - (1 << n))
    def wrap(s, v, n, st, lo=None, hi=None):
        """v an integer expression within (-2^n, 2^(n+1)) -> canonical."""
        v = z3.simplify(v); M = 1 << n
        if isinstance(v, z3.IntNumRef): return v.as_long() % M
        if st is not None:
            if s.ex.entails(st, z3.And(v >= 0, v < M)): return v
            if s.ex.entails(st, v >= M): return z3.simplify(v - M)
            if s.ex.entails(st, v < 0): return z3.simplify(v + M)
        return z3.If(v < 0, v + M, z3.If(v >= M, v - M, v))
    def bin(s, op, a, b, n, st=None, ins=None):
        if n == 1: return boolbin(op, a, b)
        if conc(a) and conc(b): return foldbin(op, a, b, n)
        r = quick(op, a, b, n)
        if r is not None: return r
        M = 1 << n
        if op == 'add':
            if conc(b) and b >= M // 2: return s.wrap(s.lift(a, n) - (M - b), n, st)
            return s.wrap(s.lift(a, n) + b, n, st)
        if op == 'sub': return s.wrap(s.lift(a, n) - b, n, st)
        if op == 'mul' or (op == 'shl' and conc(b)):
            if op == 'shl':
                if b >= n: return 0
                b = 1 << b
            if conc(a): a, b = b, a
            if conc(b):
                sb = tosigned(b, n)
                e = z3.simplify(s.lift(a, n) * b)
                if s.ex.entails(st, e < M): return e
                return z3.simplify(e % M)
            e = s.opaque[('mul', n)](a, b) if ('mul', n) in s.opaque else a * b
            if s.ex.entails(st, e < M): return e
            return e % M
        if op in ('udiv', 'lshr') and conc(b):
            if op == 'lshr': b = 1 << b
            return z3.simplify(s.lift(a, n) / b)
        if op == 'urem' and conc(b): return z3.simplify(s.lift(a, n) % b)
        if op == 'urem':
            A = s.lift(a, n)
            if s.ex.entails(st, A < b): return A
            if s.ex.entails(st, z3.And(A >= b, A < 2 * b)): return z3.simplify(A - b)
            if s.ex.entails(st, A < 2 * b): return z3.If(A < b, A, A - b)
            r = s.ex.urem_uf(n)(A, s.lift(b, n)); st.assume(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
            st.assume(z3.Implies(z3.And(b > 0, A < b), r == A))
            return r
        if op == 'udiv':
            A = s.lift(a, n); B = s.lift(b, n); q = z3.Int(s.ex.uniq('udiv'))
            st.assume(z3.Implies(B > 0, z3.And(q >= 0, q * B <= A, A < q * B + B)))
            return q
        if op == 'ashr' and conc(b):
            A = s.sgn(a, n, st) / (1 << b)     # floor division
            return s.wrap(A, n, st)
        if op in ('sdiv', 'srem') and conc(b) and 0 < b < M // 2:
            A = s.sgn(a, n, st)
            if s.ex.entails(st, A >= 0): return z3.simplify(A / b if op == 'sdiv' else A % b)
            q = z3.If(A >= 0, A / b, -((-A) / b))
            return s.wrap(q if op == 'sdiv' else A - q * b, n, st)
        if op == 'and' and conc(a): a, b = b, a
        if op == 'and' and conc(b) and b & (b + 1) == 0: return z3.simplify(a % (b + 1))
        if op == 'and' and conc(b) and bin(b).count('1') == 1: return z3.simplify(((a / b) % 2) * b)
        if op == 'xor' and conc(b) and b == mask(n): return z3.simplify((M - 1) - a)
        if op in ('and', 'or', 'xor'):
            x, y = as01(a), as01(b)
            if x is not None and y is not None:
                g = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)
                return s.low(z3.simplify(z3.If(g, z3.IntVal(1), z3.IntVal(0))))
        if op == 'and' and conc(b):       # a contiguous run of bits
            l = (b & -b).bit_length() - 1; w = (b >> l)
            if w & (w + 1) == 0: return z3.simplify(((a / (1 << l)) % (w + 1)) * (1 << l))
        if op == 'or' and conc(a): a, b = b, a
        if op == 'or' and conc(b) and b & (b + 1) == 0: return z3.simplify(a - a % (b + 1) + b)
        # bit operations outside linear arithmetic: an unknown in range
        r = s.fresh('bit_' + op, n, st); s.ex.note_abs(op)
        if st is not None and op in ('and', 'or', 'xor'):
            A, B = s.lift(a, n), s.lift(b, n)
            if op == 'and': st.assume(z3.And(r <= A, r <= B))
            else: st.assume(r <= A + B)
            if op == 'or': st.assume(z3.And(r >= A, r >= B))
        return r
    def cmp(s, p, a, b, n, st=None):
        if n == 1: return BV.cmp(s, p, a, b, 1)
        if conc(a) and conc(b): return foldcmp(p, a, b, n)
        if p[0] == 's':
            A, B = s.sgn(a, n, st), s.sgn(b, n, st)
        else: A, B = a, b
        A, B = s.lift(A, n), s.lift(B, n)
        r = {'eq': A == B, 'ne': A != B, 'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[p if p in ('eq', 'ne') else p[1:]]
        return simp(r)
    def cast(s, op, v, n, m, st=None):
        if n == 1:
            if conc(v): return (mask(m) if v else 0) if op == 'sext' else int(bool(v))
            return z3.If(v, z3.IntVal(mask(m) if op == 'sext' else 1), z3.IntVal(0))
        if conc(v): return BV.cast(s, op, v, n, m)
        if op == 'trunc':
            if m == 1: return simp(v % 2 == 1)
            if s.ex.entails(st, v < (1 << m)): return v
            return z3.simplify(v % (1 << m))
        if op == 'zext': return v
        if s.ex.entails(st, v < (1 << (n - 1))): return v
        return z3.If(v < (1 << (n - 1)), v, v + (1 << m) - (1 << n))
    def ite(s, c, a, b, n):
        if n == 1: return BV.ite(s, c, a, b, 1)
        return s.low(z3.simplify(z3.If(c, s.lift(a, n), s.lift(b, n))))
    def idx(s, v): return s.lift(v, 32)
    def idxsort(s): return z3.IntSort()
    def byte_of(s, v, n, k):
        if conc(v): return (v >> (8 * k)) & 255
        m = s.catmap.get(v.get_id())
        if m is not None and k < len(m[1]): return m[1][k]
        r = z3.simplify((v / (1 << (8 * k))) % 256); s.bytemap[r.get_id()] = (r, v, n, k); return r
    def cat(s, bs):
        """little-endian; every byte is known to be in [0,256)"""
        if all(conc(b) for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1: return bs[0]
        m = [s.bytemap.get(b.get_id()) if not conc(b) else None for b in bs]
        if all(x is not None and x[2] == 8 * len(bs) and x[3] == i and x[1].eq(m[0][1]) for i, x in enumerate(m)): return m[0][1]
        r = z3.simplify(sum((s.lift(b, 8) * (1 << (8 * i)) for i, b in enumerate(bs)), z3.IntVal(0)))
        s.catmap[r.get_id()] = (r, list(bs)); return r

# ------------------------------------------------------------------ loops of a function
class FnInfo:
    def __init__(s, f):
        s.f = f; succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1] if ins else None
            if t is None: succ[b] = []
            elif t.op == 'br': succ[b] = list(t.x)
            elif t.op == 'switch': succ[b] = [t.x[0]] + [l for _, l in t.x[1]]
            else: succ[b] = []
        s.succ = succ
        pred = {b: [] for b in f.blocks}
        for b in succ:
            for q in succ[b]: pred.setdefault(q, []).append(b)
        # dominators
        rpo = []; seen = set()
        def dfs(b):
            stack = [(b, iter(succ[b]))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); stack.append((y, iter(succ[y]))); break
                else:
                    rpo.append(x); stack.pop()
        dfs(f.entry); rpo.reverse()
        dom = {b: set(rpo) for b in rpo}; dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == f.entry: continue
                ps = [dom[p] for p in pred[b] if p in seen]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        s.loops = {}
        for b in rpo:
            for h in succ[b]:
                if h in dom[b]:
                    body = s.loops.setdefault(h, {h})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w += [p for p in pred[x] if p in seen]
        s.latch = {h: {b for b in body if h in succ[b]} for h, body in s.loops.items()}
        s.rpo = rpo; s.rank = {}
        s._order(None, set(rpo), ())
        s.types = {nm: ty for nm, ty, _ in f.args}
        for b, ins in f.blocks.items():
            for i in ins:
                if i.res is not None: s.types[i.res] = i.ty
    def _order(s, header, blocks, prefix):
        """rank[b]: alternating topological indices and loop headers, outermost first"""
        inner = [h for h in s.loops if h in blocks and h != header]
        # outermost inner loops only
        top = [h for h in inner if not any(h != g and h in s.loops[g] for g in inner)]
        unit = {}
        for h in top:
            for b in s.loops[h]: unit[b] = h
        u = lambda b: ('L', unit[b]) if b in unit else ('B', b)
        nodes = []; seenn = set()
        adj = {}
        for b in s.rpo:
            if b not in blocks: continue
            x = u(b)
            if x not in seenn: seenn.add(x); nodes.append(x)
            for q in s.succ[b]:
                if q in blocks and q != header and u(q) != x: adj.setdefault(x, []).append(u(q))
        state = {}; post = []
        def dfs(x):
            st = [(x, iter(adj.get(x, ())))]; state[x] = 1
            while st:
                y, it = st[-1]
                for z in it:
                    if z not in state: state[z] = 1; st.append((z, iter(adj.get(z, ())))); break
                else: post.append(y); st.pop()
        for x in nodes:
            if x not in state: dfs(x)
        post.reverse(); idx = {x: i for i, x in enumerate(post)}
        for x in nodes:
            if x[0] == 'B': s.rank[x[1]] = prefix + (idx[x],)
            else: s._order(x[1], s.loops[x[1]], prefix + (idx[x], x[1]))
    def key(s, b, env):
        return tuple(env.get('#' + k, 0) if isinstance(k, str) else k for k in s.rank[b])

class LoopView:
    """what an invariant candidate sees."""
    def __init__(s, ex, st, st0, ph, ph0, it, fn, tys):
        s.ex, s.st, s.st0, s.ph, s.ph0, s.it, s.fn, s.tys = ex, st, st0, ph, ph0, it, fn, tys
    def ints(s, n=None): return {k: v for k, v in s.ph.items() if s.tys[k].k == 'i' and s.tys[k].n > 1 and (n is None or s.tys[k].n == n)}
    def ptrs(s): return {k: v for k, v in s.ph.items() if s.tys[k].k == 'ptr'}

class Oblig:
    __slots__ = ('name', 'fn', 'line', 'status', 'secs', 'backend', 'model', 'kind')
    def __init__(s, name, fn, line, status, secs, backend, model=None, kind='safety'):
        s.name, s.fn, s.line, s.status, s.secs, s.backend, s.model, s.kind = name, fn, line, status, secs, backend, model, kind
