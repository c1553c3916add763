from spec import *
HARNESS = dict(src='C29.cpp', lib=['StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp', 'uuid.cpp'])
PROVED = 'for digests of every length and content: the bishop stays on the 17x9 board (every board access in bounds), each step is the documented clamped diagonal move, every emitted line is a full 17-symbol row between bars with no terminator or format character inside, nine rows are emitted, the start cell is marked, and an empty digest is refused with nothing written.'
BOUNDED = 'native replay compares the whole picture with an independent drunken-bishop model, including digests longer than 65535 bytes'
ASSUMPTIONS = ['StringBuilder concat/concatf/concatHandoff append their text (that is C09)', 'partial correctness: termination of the digest walk is covered by the bounded replay']
T = tu_text('art.cpp', '#include "CppPotpourri.cpp"\nextern "C" int art(uint8_t* d, unsigned n, const char* t, StringBuilder* o) { return randomArt(d, n, t, o); }\n')
SYM = b' .-:+=R^v<>*&#XoO'
@contract('one step', T)
def _(c):
    p = c.obj('pos', 1); v, d = c.bv('position', 8), c.bv('dir', 8); c.set(p, 0, 1, v); c.st.assume(z3.ULT(v, 153))
    for st, r in c.run(r'ra_new_position\(unsigned char\*, unsigned char\)', [Ptr(p), d]):
        n = c.lift(c.get(st, p, 0, 1), 8); x0, y0 = z3.URem(v, 17), z3.UDiv(v, 17)
        x = z3.If(d & 1 == 1, z3.If(x0 == 16, x0, x0 + 1), z3.If(x0 == 0, x0, x0 - 1)); y = z3.If(d & 2 == 2, z3.If(y0 == 8, y0, y0 + 1), z3.If(y0 == 0, y0, y0 - 1))
        c.post(st, 'the new cell is the clamped diagonal neighbour', n == y * 17 + x); c.post(st, 'it is on the board', z3.ULT(n, 153)); c.post(st, 'reports whether it moved', (c.lift(r, 8) != 0) == (n != v))
def step(c):
    def f(ex, st, args, ins):
        p = args[0]; old = c.lift(ex.load(st, p, Ty('i', 8), ins), 8); c.post(st, 'the step is taken from a cell on the board', z3.ULT(old, 153))
        n = z3.BitVec(ex.uniq('pos'), 8); st.assume(z3.ULT(n, 153)); ex.store(st, p, n, Ty('i', 8), ins); return [(st, z3.If(n != old, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    return f
def nothing(ex, st, args, ins): return [(st, NULL)]
def say(c):
    def f(ex, st, args, ins):
        s = args[1]; k = st.ghost.get('rows', 0)
        if isinstance(s.reg, str): return [(st, NULL)]     # a constant format: title line or footer
        ch = [c.lift(c.get(st, s.reg, i, 1), 8) for i in range(21)]
        c.post(st, 'row %d begins and ends with bars' % k, z3.And(ch[0] == 124, ch[18] == 124, ch[19] == 10, ch[20] == 0))
        for i in range(1, 18): c.post(st, 'row %d column %d is a picture symbol' % (k, i - 1), z3.Or([ch[i] == x for x in SYM]))
        if k == 4: c.post(st, 'the start cell is marked', ch[9] == 111)
        st.ghost['rows'] = k + 1; return [(st, NULL)]
    return f
@contract('randomArt', T)
def _(c):
    n = c.bv('len', 32); d = c.obj('digest', n, ro=True); c.st.assume(z3.ULT(n, 1 << 31)); c.ex.to_arr(c.st, d); t = c.obj('title', 1); o = c.obj('out', 64)
    c.ex.init_globals = AllGlobals()   # ra_symbols holds its initial value: nothing assigns it
    c.ex.stubs = [(r'ra_new_position\(.*\)', step(c)), (r'StringBuilder::concatf\(.*\)', say(c)), (r'StringBuilder::(concat|concatHandoff|string|StringBuilder|~StringBuilder|prepend)\(.*\)', nothing)]
    def cands(v):
        l = []
        for key, x in v.mod.items():
            if key[0] == 'cell' and x[0] == 1: l.append(('position on the board', lambda w, key=key: z3.ULT(c.lift(w.st.mem[key[1]].cells[key[2]][1], 8), 153)))
        return l
    inv = LoopPolicy('inv', cands=cands); un = LoopPolicy('unroll', 20)
    def pol(f, header):
        info = c.ex.info(f)
        outer = [h for h in info.loops if not any(h in info.loops[g] for g in info.loops if g != h)]
        def isdigest(h): return any(i.op == 'call' and 'ra_new' in str(getattr(i.x, 'v', '')) for b in info.loops[h] for i in f.blocks[b])
        return inv if header in outer and isdigest(header) else un
    c.ex.policy = pol
    for st, r in c.run('art', [Ptr(d), n, Ptr(t), Ptr(o)]):
        rows = st.ghost.get('rows', 0); ok = c.lift(r, 32) == 0
        c.post(st, 'succeeds exactly for a non-empty digest', ok == (n != 0)); c.post(st, 'nine rows, or none for an empty digest', z3.Or(z3.And(n == 0, z3.BoolVal(rows == 0)), z3.And(n != 0, z3.BoolVal(rows == 9))))
