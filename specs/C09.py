from sbmodel import *
HARNESS = dict(src='C09.cpp', lib=['StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp', 'uuid.cpp'], leaks=True)
PROVED = 'appending, prepending and copying bytes, texts, single values and other builders (itself included), handing over builders, buffers and byte limits, culling, copying out, flattening, length, emptiness, single bytes, fragment count and longest fragment, case conversion, clearing and destruction, and every private function beneath them (recursion against its own contract), on fragment chains of any shape: text, fragment order, memory ownership and absence of leaks.'
BOUNDED = 'native replay: random histories over several builders, with and without memory, against a reference list of fragments, with every allocation counted; the printf-style and number forms, memoryCost and printDebug are checked only here'
ASSUMPTIONS = ['texts are shorter than 2^30 bytes, fragment counts below 2^30', 'the two builders of a hand-over are different objects and neither shares fragments with the other', 'a buffer handed over is a live heap block of at least the given length', 'toupper/tolower are those of the C locale', 'the call stack can hold one frame per fragment (recursive helpers)', 'fragment headers and contents do not overlap (allocator contract)']
@contract('_total_str_len', [T, SB], mode='int')
def _(c):
    m = M(c); h, p, at = at_position(c, m)
    for st, r in c.run(P_(r'_total_str_len\(%s\)' % NODE), [Ptr(m.h[1]), at], m.st.copy()):
        c.post(st, 'the length from the fragment on', c.lift(r, 32) == h.L - h.pre(p)); unchanged(m, st, 'frame')
@contract('_get_ll_containing_offset', [T, SB], mode='int')
def _(c):
    m = M(c); h, p, at = at_position(c, m); o = c.obj('offset', 4, st=m.st); v = c.int('off', 32, st=m.st); c.set(o, 0, 4, v, m.st); v = sg32(v); t = h.pre(p) + v
    for st, r in c.run(P_(r'_get_ll_containing_offset\(%s, int\*\)' % NODE), [Ptr(m.h[1]), at, Ptr(o)], m.st.copy()):
        hit = z3.And(v >= 0, t < h.L); o2 = c.lift(c.get(st, o, 0, 4), 32)
        c.post(st, 'the fragment that holds the byte', m.nid(r) == z3.If(hit, h.id(h.fi(t)), 0)); c.post(st, 'the offset in it, or -1', o2 == z3.If(hit, t - h.pre(h.fi(t)), (1 << 32) - 1)); unchanged(m, st, 'frame')
@contract('_deepcopy_ll_bytes', [T, SB], mode='int')
def _(c):
    m = M(c); h, p, at = at_position(c, m); m.rec = None; st = m.st; d = c.ex.pool_alloc(st, 'sb').reg.id; n, off = c.int('count', 32, st=st), c.int('from', 32, st=st); P = st.pools['sb']
    st.assume(z3.And(z3.Not(m.raw(d)), m.loc(d) == 0, z3.Not(z3.Select(m.alive0, d)), m.cap(d) >= m.ln(st, d) + 1, m.ln(st, d) < MX, m.ln(st, d) >= n, m.blk(st, d) == d, n > 0, n < MX, off >= 0, off < h.len(p))); t0 = h.pre(p) + off; b0 = z3.Select(m.P(st)['M'][1], d); j = z3.Int('j')
    def more(v):
        l, rs = m.cursors(v, h, t0); l += m.others_keep(v, d)
        for rn, r in rs: l.append(('copied so far (%s)' % rn, lambda w, r=r: z3.ForAll([j], m.byte(w.st, d, j) == z3.If(z3.And(j >= 0, j < r(w)), h.T(t0 + j), z3.Select(b0, j)), patterns=[m.byte(w.st, d, j)])))
        return l + [('it <= count', lambda w: z3.And(w.it >= 0, w.it <= n, t0 + w.it <= h.L))]
    m.more = (more,)
    for st, r in c.run(P_(r'_deepcopy_ll_bytes\(%s, %s, int, int\)' % (NODE, NODE)), [Ptr(m.h[1]), at, Ptr(Node('sb', d)), n, off], st.copy()):
        e = z3.If(n < h.L - t0, n, h.L - t0); c.post(st, 'as many bytes as there are', c.lift(r, 32) == e); t = z3.Int('wt')
        c.post(st, 'the bytes in order, and no others', m.byte(st, d, t) == z3.If(z3.And(t >= 0, t < e), h.T(t0 + t), z3.Select(b0, t))); m.kept(st, 1, 'frame'); m.same_blocks(st, 'frame'); m.no_leak(st, everything(m, d), 'frame')
@contract('_create_str_ll', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; b, n, a = buffer(c, m); fn = P_(r'_create_str_ll\(int, unsigned char\*, %s\)' % NODE)
    for src, nxt in ((Ptr(b), NULL), (Ptr(b), h.root()), (NULL, NULL)):
        for s2, r in c.run(fn, [Ptr(m.h[1]), n, src, nxt], st.copy()):
            if r.reg is None: c.post(s2, 'none only for no length or no memory', z3.Or(n == 0, z3.BoolVal(oom(s2)))); unchanged(m, s2, 'refused'); continue
            new_fragment(m, s2, m.nid(r), n, (lambda t: z3.Select(a, t)) if src is not NULL else (lambda t: I(0)), 'created', m.nid(nxt)); m.kept(s2, 1, 'frame'); m.same_blocks(s2, 'frame'); m.no_leak(s2, everything(m, m.nid(r)), 'frame')
    neg = c.int('negative', 32, st=st); s0 = st.copy(); s0.assume(neg >= 1 << 31)
    for s2, r in c.run(fn, [Ptr(m.h[1]), neg, Ptr(b), NULL], s0): c.post(s2, 'none for a negative length', z3.BoolVal(r.reg is None)); unchanged(m, s2, 'negative')
@contract('_create_str_ll from a chain', [T, SB], mode='int')
def _(c):
    m = M(c); h, p, at = at_position(c, m); m.rec = None; st = m.st; n, off = c.int('count', 32, st=st), c.int('from', 32, st=st); st.assume(z3.And(off >= 0, off < h.len(p))); av = h.L - h.pre(p) - off
    for s2, r in c.run(P_(r'_create_str_ll\(int, %s, int\)' % NODE), [Ptr(m.h[1]), n, at, off], st.copy()):
        if r.reg is None: c.post(s2, 'none only for no length, too few bytes, or no memory', z3.Or(sg32(n) <= 0, sg32(n) > av, z3.BoolVal(oom(s2)))); unchanged(m, s2, 'refused'); continue
        new_fragment(m, s2, m.nid(r), n, lambda t: h.T(h.pre(p) + off + t), 'created'); c.post(s2, 'so many bytes exist', z3.And(n > 0, n <= av)); m.kept(s2, 1, 'frame'); m.same_blocks(s2, 'frame'); m.no_leak(s2, everything(m, m.nid(r)), 'frame')
@contract('_stack_str_onto_list', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h, p, at = at_position(c, m); g = m.ch[2]
    for st, r in c.run(P_(r'_stack_str_onto_list\(%s, %s\)' % (NODE, NODE)), [Ptr(m.h[1]), at, g.root()], m.st.copy()):
        x = z3.Int('wx'); c.post(st, 'gives the fragment back', m.nid(r) == h.id(p)); s2 = st.copy(); s2.assume(m.alive(s2, x))
        c.post(s2, 'only the last link changes', m.nx(s2, x) == z3.If(x == h.id(h.n - 1), z3.If(g.n > 0, g.id(I(0)), 0), m.NX0(x))); c.post(st, 'roots are kept', z3.And(m.root(st) == h.id(I(0)), m.root(st, 2) == z3.If(g.n > 0, g.id(I(0)), 0))); m.same_blocks(st, 'frame'); m.no_leak(st, everything(m), 'frame')
    for st, r in c.run(P_(r'_stack_str_onto_list\(%s, %s\)' % (NODE, NODE)), [Ptr(m.h[1]), NULL, g.root()], m.st.copy()): c.post(st, 'nothing to append to', z3.BoolVal(r.reg is None)); unchanged(m, st, 'frame')
@contract('_destroy_str_ll', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h, p, at = at_position(c, m); x_ = z3.Int('x')
    def more(v):        # when it is done by a loop
        if ('alive', 'sb') not in v.mod: return []
        return [('released so far', lambda w: forall(x_, m.alive(w.st, x_) == z3.And(z3.Select(m.alive0, x_), z3.Not(z3.And(m.dead(h, p, x_), z3.Not(m.dead(h, p + w.it, x_))))), m.alive(w.st, x_)))] + [('%s = fragment p+it' % nm, lambda w, nm=nm: z3.And(p + w.it <= h.n, m.nid(w.ph[nm]) == z3.If(p + w.it < h.n, h.id(p + w.it), 0))) for nm, ty in v.tys.items() if ty.k == 'ptr']
    m.more = (more,)
    for st, r in c.run(P_(r'_destroy_str_ll\(%s\)' % NODE), [Ptr(m.h[1]), at], m.st.copy()):
        x = z3.Int('wx'); c.post(st, 'exactly the fragments from there on and their content are released', m.alive(st, x) == z3.And(z3.Select(m.alive0, x), z3.Not(m.dead(h, p, x)))); s2 = st.copy(); s2.assume(m.alive(s2, x))
        c.post(s2, 'no other link changes', z3.Implies(z3.Not(m.raw(x)), m.nx(s2, x) == m.NX0(x))); c.post(st, 'the root is cleared when it is released', m.root(st) == z3.If(p == 0, 0, h.id(I(0)))); m.kept(st, 2, 'frame'); m.same_blocks(st, 'frame')
    for st, r in c.run(P_(r'_destroy_str_ll\(%s\)' % NODE), [Ptr(m.h[1]), NULL], m.st.copy()): unchanged(m, st, 'nothing to release')
@contract('_collapse', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h = m.ch[1]; c.ex.stubs = [x for x in c.ex.stubs if '_collapse' not in x[0]]; j = z3.Int('j')
    def more(v):
        if 'newnodes' not in v.st.ghost: return []
        d = fresh(m, v.st); return m.others_keep(v, d) + [('flattened so far', lambda w: z3.ForAll([j], m.byte(w.st, d, j) == z3.If(z3.And(j >= 0, j < h.pre(w.it)), h.T(j), m.byte(w.st0, d, j)), patterns=[m.byte(w.st, d, j)]))]
    m.more = (more,)
    for st, r in c.run(P_(r'_collapse\(\)'), [Ptr(m.h[1])], m.st.copy()):
        r = c.lift(r, 8); c.post(st, 'two answers', z3.Or(r == 0, z3.And(r == 255, z3.BoolVal(oom(st))))); m.kept(st, 2, 'frame')
        if 'newnodes' in st.ghost: c.post(st, 'success', r == 0); flat(m, st, 1, fresh(m, st), 'flattened')
        else: c.post(st, 'nothing to do, or no memory', (r == 0) == (h.n <= 1)); unchanged(m, st, 'unchanged')
# ---------------------------------------------------------------- public functions
@contract('length, isEmpty, byteAt, count', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; o = c.int('offset', 32, st=st); me = Ptr(m.h[1])
    for s2, r in c.run(P_(r'length\(\)'), [me], st.copy()): c.post(s2, 'length is the length of the text', R(c, r) == h.L); unchanged(m, s2, 'length')
    for strict in (0, 1):
        for s2, r in c.run(P_(r'isEmpty\(bool\)'), [me, strict], st.copy()):
            c.post(s2, 'empty exactly without content' if strict else 'empty exactly without content or with a lone terminator', tobool(r) == (z3.Or(h.L == 0) if strict else z3.Or(h.L == 0, z3.And(h.n == 1, h.L == 1, h.T(I(0)) == 0)))); unchanged(m, s2, 'isEmpty')
    for s2, r in c.run(P_(r'byteAt\(int\)'), [me, o], st.copy()):
        x = sg32(o); c.post(s2, 'the byte of the text, 0 outside', R(c, r, 8) == z3.If(z3.And(x >= 0, x < h.L), h.T(x), 0)); unchanged(m, s2, 'byteAt')
    s0 = st.copy(); m.more = (lambda v: [('%s counts' % nm, lambda w, nm=nm, ty=ty: c.lift(w.ph[nm], ty.n) == w.it % (1 << ty.n)) for nm, ty in v.tys.items() if ty.k == 'i' and ty.n in (16, 32)],)
    for s2, r in c.run(P_(r'count\(\)'), [me], s0): c.post(s2, 'the number of fragments', R(c, r, 32) == h.n); unchanged(m, s2, 'count')
@contract('concat, prepend bytes', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; b, n, a = buffer(c, m); me = Ptr(m.h[1]); f = lambda t: z3.Select(a, t); neg = c.int('negative', 32, st=st); st.assume(neg >= 1 << 31)
    for front, fn in ((False, r'concat\(unsigned char\*, int\)'), (True, r'prepend\(unsigned char\*, int\)')):
        for src, ln in ((Ptr(b), n), (Ptr(b), neg), (NULL, n)):
            for s2, r in c.run(P_(fn), [me, src, ln], st.copy()):
                if 'newnodes' not in s2.ghost: c.post(s2, 'refused only for no bytes or no memory', z3.Or(n == 0, z3.BoolVal(oom(s2) or src is NULL or ln is neg))); unchanged(m, s2, 'refused'); continue
                c.post(s2, 'there is something to add', z3.And(n > 0, z3.BoolVal(src is not NULL and ln is n))); d = fresh(m, s2); what = 'prepended' if front else 'appended'; new_fragment(m, s2, d, n, f, what)
                if front: m.chain_is(s2, 1, h.n + 1, lambda i: z3.If(i == 0, d, h.id(i - 1)), what)
                else: appended(m, s2, (1, lambda i: d), what)
                m.same_blocks(s2, what); m.no_leak(s2, everything(m, d), what)
@contract('text, byte and character forms, constructors', [T, SB], mode='int', init_globals=AllGlobals())
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); n = c.int('text_len', 32, st=st); st.assume(n < MX); p = c.obj('text', n + 1, st=st, ro=True); c.ex.to_arr(st, p); a = st.mem[p].arr; i = z3.Int('i'); c.ex.strlen_of = {p: n}
    st.assume(z3.Select(a, n) == 0); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) != 0), patterns=[z3.Select(a, i)])); f = lambda t: z3.Select(a, t)
    for fn, front in (('cat_s', False), ('cat_m', False), ('pre_s', True), ('pre_m', True)):
        for s2, r in c.run(fn, [me, Ptr(p)], st.copy()): add_one(c, m, s2, n, f, front, fn)
    for s2, r in c.run('cat_b', [me, Ptr(p), n], st.copy()): add_one(c, m, s2, n, f, False, 'bytes')
    x = c.int('x', 8, st=st); y = c.bool('flag') if hasattr(c, 'bool') else z3.Bool('flag')
    for s2, r in c.run('cat_u', [me, x], st.copy()): add_one(c, m, s2, I(1), lambda t: x, False, 'a byte')
    for s2, r in c.run('cat_c', [me, x], st.copy()): add_one(c, m, s2, z3.If(x == 0, I(0), I(1)), lambda t: x, False, 'a character (none for the terminator)')
    for s2, r in c.run('cat_t', [me, y], st.copy()): add_one(c, m, s2, I(1), lambda t: z3.If(y, I(84), I(70)), False, 'a truth value')
    c.st = State(); m = M(c); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); st.assume(h.n == 0)
    c.set(m.h[1], m.oR, 4, c.int('junk', 32, st=st), st); b, n, a = buffer(c, m); f = lambda t: z3.Select(a, t); st.assume(z3.Select(a, n) == 0) if False else None
    for fn, args in (('new_0', []), ('new_b', [Ptr(b), n]), ('new_u', [Ptr(b), n])):
        for s2, r in c.run(fn, [me] + args, st.copy()): add_one(c, m, s2, n if args else I(0), f, False, fn)
@contract('maximumFragmentLength, trim', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); i, k = z3.Int('i'), z3.Int('k')
    def more(v):
        l = []
        for nm, ty in v.tys.items():
            if ty.k == 'i' and ty.n == 32:
                val = lambda w, nm=nm: c.lift(w.ph[nm], 32)
                l.append(('%s bounds what was seen' % nm, lambda w, val=val: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.it), val(w) >= h.len(i)), patterns=[h.id(i)]))); l.append(('%s in range' % nm, lambda w, val=val: z3.And(val(w) >= 0, val(w) < MX)))
                l.append(('%s is one that was seen' % nm, lambda w, val=val: z3.Or(z3.And(w.it == 0, val(w) == 0), z3.Exists([k], z3.And(k >= 0, k < w.it, k < h.n, h.len(k) == val(w))))))
        return l
    m.more = (more,)
    for s2, r in c.run(P_(r'maximumFragmentLength\(\)'), [me], st.copy()):
        v = R(c, r); s3 = s2.copy(); t = z3.Int('wt'); s3.assume(z3.And(t >= 0, t < h.n, h.id(t) > 0)); c.post(s3, 'no fragment is longer', h.len(t) <= v); c.post(s2, 'the length of a fragment, or 0 without any', z3.Or(z3.And(h.n == 0, v == 0), z3.Exists([k], z3.And(k >= 0, k < h.n, h.len(k) == v)))); unchanged(m, s2, 'frame')
    m.more = ()
    for s2, r in c.run(P_(r'trim\(\)'), [me], st.copy()):
        if 'newnodes' in s2.ghost and not oom(s2): flat(m, s2, 1, m.root(s2), 'flattened')
        elif not oom(s2): 
            s3, s4 = split(c, s2, h.n <= 1)
            if s3 is not None: unchanged(m, s3, 'unchanged')
            if s4 is not None: flat(m, s4, 1, m.root(s4), 'flattened')
        else: unchanged(m, s2, 'no memory')
@contract('concat of a builder, concatLimit', [T, SB], mode='int')
def _(c):
    for two in (True, False):      # another builder; itself
        c.st = State(); m = M(c, two=two); g = m.ch[2 if two else 1]; st = m.st; a = [Ptr(m.h[1]), Ptr(m.h[2 if two else 1])]; lim = c.int('limit', 32, st=st); tag = '' if two else ' itself'
        for s2, r in c.run(P_(r'concat\(StringBuilder\*\)'), a, st.copy()):
            if 'newnodes' not in s2.ghost: c.post(s2, 'nothing only for an empty source or no memory', z3.Or(g.L == 0, z3.BoolVal(oom(s2)))); unchanged(m, s2, 'nothing'); continue
            one_from(m, s2, 2, g.L, g.T, 'copied' + tag)
        for s2, r in c.run(P_(r'concatLimit\(StringBuilder\*, unsigned int\)'), a + [lim], st.copy()):
            if 'newnodes' not in s2.ghost: c.post(s2, 'nothing only for an empty source, no bytes or no memory', z3.Or(g.L == 0, lim == 0, z3.BoolVal(oom(s2)))); unchanged(m, s2, 'nothing'); continue
            one_from(m, s2, 2, z3.If(lim < g.L, lim, g.L), g.T, 'limited copy' + tag)
    for s2, r in c.run(P_(r'concat\(StringBuilder\*\)'), [a[0], NULL], st.copy()): unchanged(m, s2, 'no builder')
@contract('handing over', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h, g = m.ch[1], m.ch[2]; st = m.st; a = [Ptr(m.h[1]), Ptr(m.h[2])]
    for front, fn in ((False, r'concatHandoff\(StringBuilder\*\)'), (True, r'prependHandoff\(StringBuilder\*\)')):
        for s2, r in c.run(P_(fn), a, st.copy()):
            x, y = (g, h) if front else (h, g); what = 'donated in front' if front else 'donated'; c.post(s2, what + ': needs no memory', z3.BoolVal(not oom(s2) and 'newnodes' not in s2.ghost))
            m.chain_is(s2, 1, h.n + g.n, lambda i: z3.If(i < x.n, x.id(i), y.id(i - x.n)), what); c.post(s2, what + ': the donor is empty', m.root(s2, 2) == 0); m.same_blocks(s2, what); m.no_leak(s2, everything(m), what)
        for s2, r in c.run(P_(fn), [a[0], NULL], st.copy()): unchanged(m, s2, 'no donor')
@contract('handing over a buffer', [T, SB], mode='int')
def _(c):
    m = M(c, extra=True); h = m.ch[1]; st = m.st; G = m.given; n = c.int('len', 32, st=st); st.assume(z3.Or(sg32(n) <= 0, n <= m.cap(G)))
    for src in (Ptr(Node('sb', G), m.hdr), NULL):
        for s2, r in c.run(P_(r'concatHandoff\(unsigned char\*, int\)'), [Ptr(m.h[1]), src, n], st.copy()):
            what = 'handed over'; t = z3.Int('wt')
            if oom(s2):
                x = z3.Int('wx'); c.post(s2, 'no memory: the buffer is released', z3.Not(m.alive(s2, G))); m.kept(s2, 1, 'no memory'); m.same_blocks(s2, 'no memory'); m.no_leak(s2, everything(m), 'no memory'); continue
            if 'newnodes' not in s2.ghost:
                c.post(s2, 'nothing to take', z3.Or(sg32(n) <= 0, z3.BoolVal(src is NULL))); c.post(s2, 'nothing to take: the caller keeps the buffer', m.alive(s2, G)); m.kept(s2, 1, 'nothing to take'); m.same_blocks(s2, 'nothing to take'); continue
            d = fresh(m, s2); c.post(s2, what + ': the buffer itself becomes the content', z3.And(m.blk(s2, d) == G, m.ln(s2, d) == n, m.alive(s2, d), m.alive(s2, G), n > 0)); c.post(s2, what + ': the bytes are kept', m.byte(s2, G, t) == z3.Select(m.M0(G), t))
            appended(m, s2, (1, lambda i: d), what); m.same_blocks(s2, what); x = z3.Int('wx'); s3 = s2.copy(); s3.assume(m.alive(s3, x)); c.post(s3, what + ': nothing is leaked', z3.If(m.raw(x), z3.Or(x == G, z3.And(h.on(m.own(x)), m.blk(s3, m.own(x)) == x)), z3.Or(h.on(x), x == d)))
@contract('clear, string', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h = m.ch[1]; st = m.st; me = Ptr(m.h[1])
    for fn in (r'clear\(\)', r'~StringBuilder\(\)'):
        for s2, r in c.run(P_(fn), [me], st.copy()): c.post(s2, 'cleared: empty', m.root(s2) == 0); m.kept(s2, 2, 'cleared'); m.same_blocks(s2, 'cleared'); m.no_leak(s2, m.ch[2].on, 'cleared')
    for s2, r in c.run(P_(r'string\(\)'), [me], st.copy()):
        if not isinstance(r.reg, Node): c.post(s2, 'only an empty builder gives a constant text', h.n == 0); unchanged(m, s2, 'no text'); continue
        t = z3.Int('wt'); b = r.reg.id; ok = z3.BoolVal(True)
        if oom(s2): unchanged(m, s2, 'no memory'); continue
        c.post(s2, 'the block of the text itself', z3.And(z3.BoolVal(r.c == m.hdr and not r.t), m.alive(s2, b), m.blk(s2, m.root(s2)) == b, m.nx(s2, m.root(s2)) == 0, m.ln(s2, m.root(s2)) == h.L)); s3 = s2.copy(); s3.assume(z3.And(t >= 0, t < h.L)); c.post(s3, 'the text, flattened', m.byte(s3, b, t) == h.T(t))
        if 'newnodes' in s2.ghost: c.post(s2, 'terminated', m.byte(s2, b, h.L) == 0)
        m.kept(s2, 2, 'string'); m.no_leak(s2, lambda x: z3.Or(m.ch[2].on(x), x == m.root(s2)), 'string')
@contract('cull', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h = m.ch[1]; st = m.st; me = Ptr(m.h[1]); off, n = c.int('offset', 32, st=st), c.int('keep', 32, st=st); so, sn = sg32(off), sg32(n)
    def result(s2, r, lo, cnt, legal, wipe, what):
        if 'newnodes' not in s2.ghost or oom(s2):
            s3, s4 = split(c, s2, wipe)
            if s3 is not None: c.post(s3, what + ' all: empty', m.root(s3) == 0); m.kept(s3, 2, what + ' all'); m.no_leak(s3, m.ch[2].on, what + ' all'); m.same_blocks(s3, what + ' all')
            if s4 is not None: c.post(s4, what + ': unchanged only when refused or without memory', z3.Or(z3.Not(legal), z3.BoolVal(oom(s4)))); unchanged(m, s4, what + ' refused')
            return
        c.post(s2, what + ': the range exists', legal); d = m.root(s2); new_fragment(m, s2, d, cnt, lambda t: h.T(lo + t), what, I(0)); m.kept(s2, 2, what); m.no_leak(s2, lambda x: z3.Or(m.ch[2].on(x), x == d), what); m.same_blocks(s2, what)
    for s2, r in c.run(P_(r'cull\(int, int\)'), [me, off, n], st.copy()): result(s2, r, so, sn, z3.And(so >= 0, sn > 0, so <= h.L, sn <= h.L - so), sn == 0, 'cull to a range')
    for s2, r in c.run(P_(r'cull\(int\)'), [me, off], st.copy()): result(s2, r, so, h.L - so, z3.And(so > 0, so < h.L), z3.And(so > 0, so >= h.L), 'cull from the front')
@contract('copyToBuffer', [T, SB], mode='int')
def _(c):
    m = M(c); h = m.ch[1]; st = m.st; lim, start = c.int('limit', 32, st=st), c.int('start', 32, st=st); room = c.int('room', 32, st=st); st.assume(z3.And(room < MX, start < 1 << 31)); b = c.obj('destination', room, st=st); c.ex.to_arr(st, b); b0 = st.mem[b].arr; j = z3.Int('j')
    av = z3.If(start < h.L, h.L - start, 0); N = z3.If(lim < av, lim, av); st.assume(N <= room)
    def more(v):
        l, rs = m.cursors(v, h, start, N); A = lambda w: w.st.mem[b].arr
        for rn, r in rs: l.append(('copied so far (%s)' % rn, lambda w, r=r: z3.ForAll([j], z3.Select(A(w), j) == z3.If(z3.And(j >= 0, j < r(w)), h.T(start + j), z3.Select(b0, j)), patterns=[z3.Select(A(w), j)])))
        return l
    m.more = (more,)
    for s2, r in c.run(P_(r'copyToBuffer\(unsigned char\*, unsigned int, unsigned int\)'), [Ptr(m.h[1]), Ptr(b), lim, start], st.copy()):
        t = z3.Int('wt'); c.post(s2, 'as many bytes as exist and were asked for', R(c, r) == N); c.post(s2, 'the bytes of the text, and no others are written', z3.Select(s2.mem[b].arr, t) == z3.If(z3.And(t >= 0, t < N), h.T(start + t), z3.Select(b0, t))); unchanged(m, s2, 'copyToBuffer')
@contract('concatHandoffLimit', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h, g = m.ch[1], m.ch[2]; st = m.st; lim = c.int('limit', 32, st=st); q = g.fi(lim - 1); Q = g.id(q); b = m.BLK0(Q); left = lim - g.pre(q); right = g.len(q) - left; j, x, t = z3.Int('j'), z3.Int('wx'), z3.Int('wt')
    def more(v):
        sh = lambda w: forall(j, m.byte(w.st, b, j) == z3.If(z3.And(j >= 0, j < w.it), z3.Select(m.M0(b), j + left), z3.Select(m.M0(b), j)), m.byte(w.st, b, j))
        return m.others_keep(v, b) + [('shifted so far', sh), ('it <= kept', lambda w: z3.And(w.it >= 0, w.it <= right)), ('before the split', lambda w: z3.Or(w.it == 0, w.it < q))]
    m.more = (more,)
    for s2, r in c.run(P_(r'concatHandoffLimit\(StringBuilder\*, unsigned int\)'), [Ptr(m.h[1]), Ptr(m.h[2]), lim], st.copy()):
        some = z3.And(lim > 0, g.L > 0)
        if oom(s2): c.post(s2, 'no memory: only where a fragment must be divided', z3.And(some, lim < g.L, right > 0)); unchanged(m, s2, 'no memory'); continue
        if 'newnodes' in s2.ghost:
            d = fresh(m, s2); what = 'divided'; c.post(s2, 'divided only inside a fragment', z3.And(some, lim < g.L, right > 0)); new_fragment(m, s2, d, left, lambda t: g.T(g.pre(q) + t), what)
            appended(m, s2, (q + 1, lambda i: z3.If(i < q, g.id(i), d)), what); m.chain_is(s2, 2, g.n - q, lambda i: g.id(q + i), what + ' (rest)'); m.same_blocks(s2, what, but=lambda x: x == Q); m.no_leak(s2, everything(m, d), what)
            c.post(s2, what + ': what stays behind', z3.And(m.ln(s2, Q) == right, m.blk(s2, Q) == b)); s3 = s2.copy(); s3.assume(z3.And(t >= 0, t < right)); c.post(s3, what + ': the rest of its bytes', m.byte(s3, b, t) == g.T(lim + t)); s3 = s2.copy(); s3.assume(b == Q); c.post(s3, what + ': the rest is terminated', m.byte(s3, b, right) == 0); continue
        for s3, cnt, what in zip(split_n(c, s2, [z3.Not(some), z3.And(some, lim >= g.L), z3.And(some, lim < g.L)]), (I(0), g.n, q + 1), ('nothing', 'all of it', 'whole fragments')):
            if s3 is None: continue
            c.post(s3, what + ': on a fragment boundary', z3.Or(z3.Not(some), lim >= g.L, right == 0)); appended(m, s3, (cnt, g.id), what); m.chain_is(s3, 2, g.n - cnt, lambda i: g.id(cnt + i), what + ' (rest)'); m.same_blocks(s3, what); m.no_leak(s3, everything(m), what)
    for s2, r in c.run(P_(r'concatHandoffLimit\(StringBuilder\*, unsigned int\)'), [Ptr(m.h[1]), NULL, lim], st.copy()): unchanged(m, s2, 'no donor')
@contract('toUpper, toLower', [T, SB], mode='int')
def _(c):
    m = M(c, two=True); h = m.ch[1]; st = m.st; i, j = z3.Int('i'), z3.Int('j')
    for lo, fn in ((False, r'toUpper\(\)'), (True, r'toLower\(\)')):
        cv = lambda b, lo=lo: z3.If(z3.And(b >= (65 if lo else 97), b <= (90 if lo else 122)), b + (32 if lo else -32), b); c.ex.stubs = m.stubs() + [('tolower' if lo else 'toupper', to_case(c, lo))]
        b = z3.Int('b'); own = z3.If(m.raw(b), m.own(b), b); MM = lambda w: m.byte(w, b, j)
        mine = z3.And(z3.Select(m.alive0, b), z3.Select(m.alive0, own), z3.Not(m.raw(own)), m.loc(own) == 1, m.BLK0(own) == b, j >= 0, j < m.LEN0(own))
        def more(v, cv=cv):
            l = [('converted so far', lambda w: forall([b, j], MM(w.st) == z3.If(z3.And(mine, m.pos(own) < w.it), cv(z3.Select(m.M0(b), j)), z3.Select(m.M0(b), j)), MM(w.st)))]
            for nm, x in (v.env or {}).items():
                if isinstance(x, Ptr) and isinstance(x.reg, Node) and x.c == 0 and not x.t and not nm.isdigit():
                    B = m.BLK0(x.reg.id); l.append(('it <= length of %s' % nm, lambda w, x=x: z3.And(w.it >= 0, w.it <= m.LEN0(x.reg.id))))
                    l.append(('%s converted so far' % nm, lambda w, B=B: forall([b, j], MM(w.st) == z3.If(z3.And(b == B, j >= 0, j < w.it), cv(MM(w.st0)), MM(w.st0)), MM(w.st))))
            return l
        m.more = (more,)
        for s2, r in c.run(P_(fn), [Ptr(m.h[1])], st.copy()):
            what = 'lower' if lo else 'upper'; m.kept(s2, 1, what); m.kept(s2, 2, what); m.no_leak(s2, everything(m), what); s3 = s2.copy(); s3.assume(z3.And(i >= 0, i < h.n, j >= 0, j < h.len(i))); b = m.BLK0(h.id(i)); c.post(s3, what + ': every byte of the text is converted', m.byte(s3, b, j) == cv(z3.Select(m.M0(b), j)))
            g = m.ch[2]; s3 = s2.copy(); s3.assume(z3.And(i >= 0, i < g.n)); b = m.BLK0(g.id(i)); c.post(s3, what + ': other texts are not touched', m.byte(s3, b, j) == z3.Select(m.M0(b), j)); x = z3.Int('wx'); s3 = s2.copy(); s3.assume(z3.And(z3.Select(m.alive0, x), z3.Not(m.raw(x)))); c.post(s3, what + ': lengths and blocks are kept', z3.And(m.ln(s3, x) == m.LEN0(x), m.blk(s3, x) == m.BLK0(x)))
