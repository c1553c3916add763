from spec import *
HARNESS = dict(src='C28.cpp', lib=['StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp', 'uuid.cpp'])
PROVED = 'fill() writes exactly LEN bytes for every LEN, and they are the successive output words of the PCG32 generator, little-endian; the step function is the published PCG32 step; init() from a non-zero seed reproduces the reference seeding; each typed getter returns the next bytes of that same stream.'
BOUNDED = 'native replay against an independent PCG32 implementation'
ASSUMPTIONS = ['the destination has LEN < 2^31 bytes', 'init(0) takes its seed from the clock: only its effect on the state being some seed is used']
T = tu_text('rng.cpp', '#include <stdint.h>\n#define private public\n#define protected public\n#include "CppPotpourri.cpp"\n' + offs('p', 'C3P_pRNG', '_state', '_inc') + '''
#include <new>
extern "C" { void mk(C3P_pRNG* p) { new (p) C3P_pRNG(); } unsigned step(C3P_pRNG* p) { return p->_pcg32_random_r(); } int ini(C3P_pRNG* p, uint64_t s) { return p->init(s); } int fil(C3P_pRNG* p, uint8_t* b, unsigned n) { return p->fill(b, n); }
uint8_t r8(C3PRandom* p) { return p->randomUInt8(); } uint16_t r16(C3PRandom* p) { return p->randomUInt16(); } uint32_t r32(C3PRandom* p) { return p->randomUInt32(); } uint64_t r64(C3PRandom* p) { return p->randomUInt64(); } bool rb(C3PRandom* p) { return p->randomBool(); } }
''')
MUL = 6364136223846793005
def out(s):
    x = z3.Extract(31, 0, z3.LShR(z3.LShR(s, 18) ^ s, 27)); return z3.RotateRight(x, z3.Extract(31, 0, z3.LShR(s, 59)))
def gen(c):
    h = c.obj('rng', c.sizeof('p')); (st, _), = c.run('mk', [Ptr(h)]); F = {n: c.off('p', n) for n in ('_state', '_inc')}
    return h, F, st
@contract('step', T)
def _(c):
    h, F, st = gen(c); s, i = c.bv('state', 64), c.bv('inc', 64); c.set(h, F['_state'], 8, s, st); c.set(h, F['_inc'], 8, i, st)
    for st, r in c.run('step', [Ptr(h)], st):
        c.post(st, 'the output is the PCG32 output of the old state', c.lift(r, 32) == out(s))
        c.post(st, 'the state advances by the PCG32 step', c.lift(c.get(st, h, F['_state'], 8), 64) == s * MUL + i); c.post(st, 'the stream is unchanged', c.lift(c.get(st, h, F['_inc'], 8), 64) == i)
@contract('init', T)
def _(c):
    h, F, st = gen(c); seed = c.bv('seed', 64); st.assume(seed != 0); s, i = c.bv('state', 64), c.bv('inc', 64); c.set(h, F['_state'], 8, s, st); c.set(h, F['_inc'], 8, i, st)
    for st, r in c.run('ini', [Ptr(h), seed], st):
        c.post(st, 'the same seed always gives the same state', z3.And(c.lift(c.get(st, h, F['_inc'], 8), 64) == 15, c.lift(c.get(st, h, F['_state'], 8), 64) == (z3.BitVecVal(15, 64) + seed) * MUL + 15)); c.post(st, 'reports success', c.lift(r, 32) == 0)
# ---- fill: the state field stands for the index of the next word of the stream (step contract: next word, advance)
W = z3.Function('word', z3.BitVecSort(64), z3.BitVecSort(32))
def stub(F):
    def f(ex, st, args, ins):
        k = ex.A.lift(ex.load(st, Ptr(args[0].reg, F['_state']), Ty('i', 64)), 64); ex.put_cell(st, args[0].reg, F['_state'], 8, k + 1); return [(st, W(k))]
    return f
def byte(k0, x):   # x-th byte of the stream starting at word k0
    w = W(k0 + z3.ZeroExt(32, z3.LShR(x, 2))); return z3.Extract(7, 0, z3.LShR(w, (x & 3) * 8))
@contract('fill', T)
def _(c):
    h, F, st = gen(c); k0 = c.bv('k0', 64); c.set(h, F['_state'], 8, k0, st); n = c.bv('len', 32); st.assume(z3.ULT(n, 1 << 31))
    b = c.obj('buf', n, st=st); c.ex.to_arr(st, b); b0 = st.mem[b].arr; x = z3.BitVec('x', 32)
    c.ex.stubs = [(r'C3P_pRNG::_pcg32_random_r\(\)', stub(F))]
    def cands(v):
        a = lambda w: w.st.mem[b].arr; l = []
        l.append(('stream position', lambda w: c.lift(c.get(w.st, h, F['_state'], 8), 64) == k0 + z3.ZeroExt(32, w.it)))
        l.append(('rest untouched', lambda w: forall(x, z3.Implies(z3.UGE(x, n), z3.Select(a(w), x) == z3.Select(b0, x)), z3.Select(a(w), x))))
        l.append(('iterations bounded', lambda w: z3.ULE(w.it, z3.LShR(n, 2))))
        for nm, ty in v.tys.items():
            if ty.k != 'i' or ty.n != 32: continue
            l += [('%s = 4 it' % nm, lambda w, nm=nm: c.lift(w.ph[nm], 32) == w.it * 4), ('%s <= len' % nm, lambda w, nm=nm: z3.ULE(c.lift(w.ph[nm], 32), n)),
                  ('%s bytes written' % nm, lambda w, nm=nm: forall(x, z3.Implies(z3.ULT(x, c.lift(w.ph[nm], 32)), z3.Select(a(w), x) == byte(k0, x)), z3.Select(a(w), x)))]
        return l
    inv = LoopPolicy('inv', cands=cands); un = LoopPolicy('unroll', 5)
    def pol(f, header):
        info = c.ex.info(f); return inv if any(i.op == 'call' and i.x.v != 'llvm' for bb in info.loops[header] for i in f.blocks[bb]) else un
    c.ex.policy = pol
    for st, r in c.run('fil', [Ptr(h), Ptr(b), n], st):
        y = z3.BitVec('y', 32); s2 = st.copy(); s2.assume(z3.ULT(y, n)); c.post(s2, 'every byte of the buffer is the next byte of the stream', z3.Select(s2.mem[b].arr, y) == byte(k0, y))
        s2 = st.copy(); s2.assume(z3.UGE(y, n)); c.post(s2, 'nothing past the buffer is written', z3.Select(s2.mem[b].arr, y) == z3.Select(b0, y)); c.post(st, 'reports success', c.lift(r, 32) == 0)
        k = c.lift(c.get(st, h, F['_state'], 8), 64) - k0; c.post(st, 'one word is consumed per four bytes, and at most one more', z3.And(z3.UGE(k, z3.ZeroExt(32, z3.LShR(n + 3, 2))), z3.ULE(k, z3.ZeroExt(32, z3.LShR(n, 2) + 1))))
@contract('typed getters', T)
def _(c):
    h, F, st = gen(c); k0 = c.bv('k0', 64); c.set(h, F['_state'], 8, k0, st); c.ex.stubs = [(r'C3P_pRNG::_pcg32_random_r\(\)', stub(F))]; c.ex.init_globals = ('g:_ZTV8C3P_pRNG',)
    for fn, n in (('r8', 8), ('r16', 16), ('r32', 32), ('r64', 64)):
        for s, r in c.run(fn, [Ptr(h)], st.copy()): c.post(s, '%d-bit value is the next bytes of the stream' % n, c.lift(r, n) == z3.Extract(n - 1, 0, z3.Concat(W(k0 + 1), W(k0))))
    for s, r in c.run('rb', [Ptr(h)], st.copy()): c.post(s, 'boolean is the low bit of the next byte', tobool(r) == (z3.Extract(0, 0, W(k0)) == 1))
