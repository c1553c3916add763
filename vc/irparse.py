"""Parser for the textual LLVM 18 IR that clang emits from /repo's sources (opaque pointers)."""
import re, struct

class Ty:
    __slots__ = ('k', 'n', 'e', 'f', 'name', '_sz', '_al', '_offs')
    def __init__(s, k, n=0, e=None, f=None, name=None):
        s.k, s.n, s.e, s.f, s.name = k, n, e, f, name
        s._sz = s._al = s._offs = None
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.e)
        if s.k == 'st': return s.name or '{%s}' % ','.join(map(repr, s.f or []))
        return s.k

I1 = Ty('i', 1); I8 = Ty('i', 8); I16 = Ty('i', 16); I32 = Ty('i', 32); I64 = Ty('i', 64)
PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double'); META = Ty('metadata'); FP80 = Ty('x86_fp80')

class ParseError(Exception):
    pass

class Const:   # constants: kind in int,fp,null,undef,zero,str,agg,global,gep,cexpr
    __slots__ = ('k', 'ty', 'v')
    def __init__(s, k, ty, v=None): s.k, s.ty, s.v = k, ty, v
    def __repr__(s): return 'C(%s,%r,%r)' % (s.k, s.ty, s.v)

class Loc:
    __slots__ = ('name', 'ty')
    def __init__(s, name, ty): s.name, s.ty = name, ty
    def __repr__(s): return '%' + s.name

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'fl')
    def __init__(s, op, res=None, ty=None, a=None, x=None):
        s.op, s.res, s.ty, s.a, s.x, s.line, s.fl = op, res, ty, a or [], x, 0, ()
    def __repr__(s): return '%s = %s %r %r %r' % (s.res, s.op, s.ty, s.a, s.x)

class Func:
    def __init__(s, name):
        s.name = name; s.args = []; s.rty = None; s.blocks = {}; s.order = []; s.entry = None
        s.demangled = name; s.module = None; s.vararg = False; s.sret = None

class Module:
    def __init__(s):
        s.types = {}; s.funcs = {}; s.globals = {}; s.decls = {}; s.lines = {}; s.aliases = {}

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")|
  (?P<qid>[%@]"(?:[^"\\]|\\.)*")|
  (?P<id>[%@][-a-zA-Z$._0-9]+)|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?)|
  (?P<q>"(?:[^"\\]|\\.)*")|
  (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)|
  (?P<attr>\#[0-9]+)|
  (?P<p>\.\.\.|[\[\]{}()<>,=*|:])
)''', re.X)

def toks(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise ParseError('tok: ' + s[i:i+60])
        k = m.lastgroup; out.append((k, m.group(k))); i = m.end()
    return out

def unq(t):
    t = t[1:]
    if t.startswith('"'): t = t[1:-1]
    return t

def decode_cstr(t):
    b = bytearray(); s = t[2:-1]; i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': b.append(92); i += 2
            else: b.append(int(s[i+1:i+3], 16)); i += 3
        else:
            b.append(ord(s[i])); i += 1
    return bytes(b)

PATTRS = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','returned','zeroext','signext',
  'immarg','inreg','noreturn','nofree','nounwind','swiftself','nest','allocptr','noinline','writable','dead_on_unwind','inalloca','dereferenceable_or_null'}
CC = {'fastcc','ccc','coldcc','tail','musttail','notail','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'}
LINK = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external',
  'dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','dllimport','dllexport','thread_local','externally_initialized'}

class P:
    def __init__(s, t, mod): s.t, s.i, s.m = t, 0, mod
    def pk(s, o=0): return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def pkk(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def nx(s):
        r = s.t[s.i][1]; s.i += 1; return r
    def ex(s, w):
        r = s.nx()
        if r != w: raise ParseError('expected %s got %s in %s' % (w, r, ' '.join(x[1] for x in s.t)))
    def ac(s, w):
        if s.pk() == w: s.i += 1; return True
        return False
    def ty(s):
        k, v = s.t[s.i]
        if k == 'word':
            s.i += 1
            if v[0] == 'i' and v[1:].isdigit(): return Ty('i', int(v[1:]))
            r = {'ptr': PTR, 'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'metadata': META, 'x86_fp80': FP80, 'half': Ty('half'), 'label': Ty('label'), 'token': Ty('token')}.get(v)
            if r is None: raise ParseError('type ' + v)
            if v == 'ptr' and s.pk() == 'addrspace': s.i += 4
        elif v == '[':
            s.i += 1; n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex(']'); r = Ty('arr', n, e)
        elif v == '<':
            s.i += 1
            if s.pk() == '{':
                r = s.ty(); s.ex('>'); r = Ty('st', 1, f=r.f)   # packed
            else:
                n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex('>'); r = Ty('vec', n, e)
        elif v == '{':
            s.i += 1; f = []
            if not s.ac('}'):
                while True:
                    f.append(s.ty())
                    if s.ac('}'): break
                    s.ex(',')
            r = Ty('st', 0, f=f)
        elif k in ('id', 'qid'):
            s.i += 1; nm = unq(v)
            r = s.m.types.get(nm)
            if r is None:
                r = Ty('st', 0, name=nm); s.m.types[nm] = r
        else:
            raise ParseError('type? ' + str(v))
        # function type  T (args)
        if s.pk() == '(' and r.k != 'label':
            # only when used as call function type; caller handles
            pass
        return r
    def skip_attrs(s):
        while s.i < len(s.t):
            v = s.pk()
            if v in PATTRS: s.i += 1; 
            elif v in ('align','dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','preallocated','range','nofpclass','allocsize','alignstack','memory'):
                s.i += 1
                if s.ac('('):
                    d = 1
                    while d:
                        w = s.nx()
                        if w == '(': d += 1
                        elif w == ')': d -= 1
                elif v == 'align': s.i += 1
            else: break
    def val(s, ty):
        k, v = s.t[s.i]
        if k in ('id', 'qid'):
            s.i += 1
            if v[0] == '%': return Loc(unq(v), ty)
            return Const('global', ty, unq(v))
        if k == 'num':
            s.i += 1
            if ty.k == 'i': return Const('int', ty, int(v) & ((1 << ty.n) - 1))
            return Const('fp', ty, fpbits(v, ty))
        if k == 'str':
            s.i += 1; return Const('str', ty, decode_cstr(v))
        if k == 'word':
            if v in ('true', 'false'):
                s.i += 1; return Const('int', ty, 1 if v == 'true' else 0)
            if v == 'null': s.i += 1; return Const('null', ty)
            if v in ('undef', 'poison'): s.i += 1; return Const('undef', ty)
            if v == 'zeroinitializer': s.i += 1; return Const('zero', ty)
            if v == 'none': s.i += 1; return Const('undef', ty)
            if v == 'getelementptr':
                s.i += 1
                while s.pk() in ('inbounds','nuw','nusw') or s.pk() == 'inrange':
                    s.i += 1
                s.ex('('); bt = s.ty(); a = []
                while s.ac(','):
                    if s.pk() == 'inrange': s.i += 1
                    t = s.ty(); a.append(s.val(t))
                s.ex(')'); return Const('gep', ty, (bt, a))
            if v in ('bitcast','ptrtoint','inttoptr','trunc','zext','sext','addrspacecast'):
                s.i += 1; s.ex('('); t = s.ty(); x = s.val(t); s.ex('to'); t2 = s.ty(); s.ex(')')
                return Const('cexpr', ty, (v, x, t2))
            if v in ('add','sub','mul','and','or','xor','shl','lshr','ashr','icmp'):
                s.i += 1
                pred = None
                if v == 'icmp': pred = s.nx()
                while s.pk() in ('nuw','nsw','exact'): s.i += 1
                s.ex('('); t = s.ty(); x = s.val(t); s.ex(','); t2 = s.ty(); y = s.val(t2); s.ex(')')
                return Const('cexpr', ty, (v, x, y, pred))
            if v in ('blockaddress','dso_local_equivalent','no_cfi'): raise ParseError(v)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]; s.i += 1
            packed = False
            if v == '<' and s.pk() == '{': s.i += 1; packed = True
            el = []
            while s.pk() not in (close, '}'):
                t = s.ty(); el.append(s.val(t)); s.ac(',')
            if packed: s.ex('}')
            s.ex(close)
            return Const('agg', ty, el)
        if k == 'meta' :
            # metadata operand - skip remainder to the matching , or )
            s.i += 1
            if s.pk() == '(':
                d = 0
                while True:
                    w = s.nx()
                    if w == '(': d += 1
                    elif w == ')':
                        d -= 1
                        if d == 0: break
            return Const('undef', ty)
        raise ParseError('value? %r in %s' % (v, ' '.join(x[1] for x in s.t)))
    def tv(s):
        t = s.ty()
        if t.k == 'metadata':
            # skip to , or ) at depth 0
            d = 0
            while True:
                w = s.pk()
                if w is None: break
                if d == 0 and w in (',', ')'): break
                if w == '(': d += 1
                if w == ')': d -= 1
                s.i += 1
            return Const('undef', t)
        s.skip_attrs()
        return s.val(t)

def fpbits(v, ty):
    if v.startswith('0xK'): return int(v[3:], 16)
    if v.startswith('0x'): d = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    else: d = float(v)
    if ty.k == 'float':
        try: return struct.unpack('>I', struct.pack('>f', d))[0]
        except OverflowError: return 0x7f800000
    return struct.unpack('>Q', struct.pack('>d', d))[0]

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','bitcast','ptrtoint','inttoptr','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','addrspacecast'}

DBG = re.compile(r'!dbg !(\d+)')

def parse_ins(line, mod):
    ln = 0
    m = DBG.search(line)
    if m: ln = int(m.group(1))
    # cut trailing metadata attachments ", !xxx !n"
    cut = line
    mm = re.search(r',? ![a-zA-Z_.]+ ![0-9]+(, ![a-zA-Z_.]+ ![0-9]+)*\s*$', line)
    if mm and 'c"' not in line[mm.start():]: cut = line[:mm.start()]
    p = P(toks(cut), mod)
    res = None
    if len(p.t) > 1 and p.t[1][1] == '=' and p.t[0][0] in ('id', 'qid'):
        res = unq(p.nx()); p.nx()
    while p.pk() in CC: p.i += 1
    op = p.nx(); ins = None
    if op in BIN:
        fl = []
        while p.pk() in ('nuw','nsw','exact','disjoint') or p.pk() in CC: fl.append(p.nx())
        t = p.ty(); a = p.val(t); p.ex(','); b = p.val(t)
        ins = Ins(op, res, t, [a, b]); ins.fl = tuple(fl)
    elif op in CAST:
        while p.pk() in ('nneg','nuw','nsw'): p.i += 1
        t = p.ty(); a = p.val(t); p.ex('to'); t2 = p.ty(); ins = Ins(op, res, t2, [a])
    elif op in ('icmp', 'fcmp'):
        while p.pk() in CC or p.pk() == 'samesign': p.i += 1
        pred = p.nx(); t = p.ty(); a = p.val(t); p.ex(','); b = p.val(t); ins = Ins(op, res, I1, [a, b], pred)
    elif op == 'alloca':
        p.ac('inalloca'); t = p.ty(); cnt = None
        if p.ac(','):
            if p.pk() not in ('align', 'addrspace'):
                t2 = p.ty(); cnt = p.val(t2)
        ins = Ins(op, res, PTR, [cnt] if cnt else [], t)
    elif op == 'load':
        p.ac('volatile'); p.ac('atomic'); t = p.ty(); p.ex(','); p.ty(); a = p.val(PTR); ins = Ins(op, res, t, [a])
    elif op == 'store':
        p.ac('volatile'); p.ac('atomic'); v = p.tv(); p.ex(','); p.ty(); a = p.val(PTR); ins = Ins(op, None, VOID, [v, a])
    elif op == 'getelementptr':
        while p.pk() in ('inbounds','nuw','nusw'): p.i += 1
        bt = p.ty(); a = []
        while p.ac(','):
            t = p.ty(); a.append(p.val(t))
        ins = Ins(op, res, PTR, a, bt)
    elif op == 'select':
        a = p.tv(); p.ex(','); b = p.tv(); p.ex(','); c = p.tv(); ins = Ins(op, res, b.ty, [a, b, c])
    elif op == 'phi':
        while p.pk() in CC: p.i += 1
        t = p.ty(); inc = []
        while True:
            p.ex('['); v = p.val(t); p.ex(','); lab = unq(p.nx()); p.ex(']'); inc.append((v, lab))
            if not p.ac(','): break
        ins = Ins(op, res, t, [], inc)
    elif op == 'br':
        t = p.ty()
        if t.k == 'label': ins = Ins(op, None, VOID, [], [unq(p.nx())])
        else:
            c = p.val(t); p.ex(','); p.ty(); l1 = unq(p.nx()); p.ex(','); p.ty(); l2 = unq(p.nx())
            ins = Ins(op, None, VOID, [c], [l1, l2])
    elif op == 'switch':
        v = p.tv(); p.ex(','); p.ty(); d = unq(p.nx()); p.ex('['); cs = []
        while not p.ac(']'):
            c = p.tv(); p.ex(','); p.ty(); cs.append((c.v, unq(p.nx())))
        ins = Ins(op, None, VOID, [v], (d, cs))
    elif op == 'ret':
        t = p.ty()
        if t.k == 'void': ins = Ins(op, None, VOID, [])
        else: ins = Ins(op, None, t, [p.val(t)])
    elif op == 'unreachable': ins = Ins(op)
    elif op == 'call':
        while p.pk() in CC: p.i += 1
        p.skip_attrs(); rt = p.ty()
        if p.pk() == '(':     # explicit fn type
            d = 0
            while True:
                w = p.nx()
                if w == '(': d += 1
                elif w == ')':
                    d -= 1
                    if d == 0: break
        k, v = p.t[p.i]
        if k == 'word' and v == 'asm':
            ins = Ins('asm', res, rt)
        else:
            f = p.val(PTR); p.ex('('); a = []
            if not p.ac(')'):
                while True:
                    a.append(p.tv())
                    if p.ac(')'): break
                    p.ex(',')
            ins = Ins(op, res, rt, a, f)
    elif op == 'extractvalue':
        a = p.tv(); ix = []
        while p.ac(','): ix.append(int(p.nx()))
        ins = Ins(op, res, None, [a], ix)
    elif op == 'insertvalue':
        a = p.tv(); p.ex(','); b = p.tv(); ix = []
        while p.ac(','): ix.append(int(p.nx()))
        ins = Ins(op, res, a.ty, [a, b], ix)
    elif op == 'freeze':
        a = p.tv(); ins = Ins(op, res, a.ty, [a])
    elif op == 'fneg':
        a = p.tv(); ins = Ins(op, res, a.ty, [a])
    else:
        ins = Ins('unsupported', res, None, [], cut.strip())
    ins.line = ln
    return ins

DEF = re.compile(r'^define\s')

def parse_module(text):
    mod = Module()
    lines = text.split('\n'); i = 0; n = len(lines)
    cur = None; blk = None
    types_pending = []
    # pass 1: types
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1); nm = unq(nm.strip())
            t = mod.types.get(nm)
            if t is None:
                t = Ty('st', 0, name=nm); mod.types[nm] = t
            if rest.strip() != 'opaque':
                types_pending.append((t, rest))
    for t, rest in types_pending:
        b = P(toks(rest), mod).ty(); t.f = b.f; t.n = b.n
    while i < n:
        l = lines[i]; i += 1
        if cur is None:
            if l.startswith('@'):
                try: parse_global(l, mod)
                except ParseError: pass
            elif DEF.match(l):
                cur = parse_define(l, mod); blk = None; mod.funcs[cur.name] = cur; cur.module = mod
            elif l.startswith('!') and '!DILocation(' in l:
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: mod.lines[int(m.group(1))] = int(m.group(2))
            continue
        s = l.strip()
        if s == '}': cur = None; continue
        if not s or s.startswith(';'): continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
        if m:
            nm = m.group(1)
            if nm.startswith('"'): nm = nm[1:-1]
            blk = nm; cur.blocks[blk] = []; cur.order.append(blk)
            if cur.entry is None: cur.entry = blk
            continue
        if blk is None:
            blk = '%entry'; cur.blocks[blk] = []; cur.order.append(blk); cur.entry = blk
        if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s:
            while True:
                t = lines[i]; i += 1; s += ' ' + t.strip()
                if t.strip().startswith(']'): break
        if s.startswith('#dbg') or 'llvm.dbg.' in s: continue
        if 'llvm.lifetime' in s or 'llvm.experimental.noalias' in s: continue
        try:
            cur.blocks[blk].append(parse_ins(s, mod))
        except ParseError as e:
            cur.blocks[blk].append(Ins('unsupported', None, None, [], s + ' // ' + str(e)))
    return mod

def parse_global(l, mod):
    p = P(toks(l), mod)
    nm = unq(p.nx()); p.ex('=')
    ext = False
    while True:
        w = p.pk()
        if w in LINK:
            if w in ('external', 'extern_weak'): ext = True
            p.i += 1
            if w == 'thread_local' and p.pk() == '(': p.i += 3
        elif w == 'addrspace': p.i += 4
        else: break
    w = p.nx()
    if w == 'alias':
        m = re.search(r'ptr @("[^"]*"|[^\s,]+)\s*$', l)
        if m: mod.aliases[nm] = Const('global', PTR, m.group(1).strip('"'))
        return
    if w not in ('global', 'constant'): return
    t = p.ty(); init = None
    if not ext and p.pk() is not None and p.pk() != ',':
        init = p.val(t)
    mod.globals[nm] = (t, init, w == 'constant')

def parse_define(l, mod):
    l2 = l[len('define'):].rsplit('{', 1)[0]
    p = P(toks(l2), mod)
    while p.pk() in LINK or p.pk() in CC: p.i += 1
    p.skip_attrs(); rt = p.ty()
    f = Func(unq(p.nx())); f.rty = rt
    p.ex('('); k = 0
    if not p.ac(')'):
        while True:
            if p.ac('...'):
                f.vararg = True; p.ex(')'); break
            t = p.ty(); st = p.i; p.skip_attrs()
            byval = any(x[1] == 'byval' for x in p.t[st:p.i])
            sret = any(x[1] == 'sret' for x in p.t[st:p.i])
            nm = str(k)
            if p.pkk() in ('id', 'qid'): nm = unq(p.nx())
            if sret: f.sret = nm
            f.args.append((nm, t, byval)); k += 1
            if p.ac(')'): break
            p.ex(',')
    return f

# ---- layout (i386 SysV) -------------------------------------------------
def align(t):
    if t._al: return t._al
    if t.k == 'i': r = 1 if t.n <= 8 else 2 if t.n <= 16 else 4
    elif t.k in ('ptr', 'float', 'double', 'x86_fp80'): r = 4
    elif t.k in ('arr',): r = align(t.e)
    elif t.k == 'vec': r = 16
    elif t.k == 'st': r = 1 if t.n == 1 else max([align(x) for x in (t.f or [])] or [1])
    else: r = 1
    t._al = r; return r

def size(t):
    if t._sz is not None: return t._sz
    if t.k == 'i': r = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8}.get(t.n, (t.n + 7) // 8)
    elif t.k == 'ptr' or t.k == 'float': r = 4
    elif t.k == 'double': r = 8
    elif t.k == 'x86_fp80': r = 12
    elif t.k == 'arr' or t.k == 'vec': r = t.n * size(t.e)
    elif t.k == 'st':
        o = offsets(t); a = align(t)
        r = o[-1] if True else 0
    else: raise ParseError('size of ' + t.k)
    t._sz = r; return r

def offsets(t):
    """offsets of the fields, followed by the total size."""
    if t._offs is not None: return t._offs
    o = 0; r = []
    for x in (t.f or []):
        a = 1 if t.n == 1 else align(x)
        o = (o + a - 1) // a * a; r.append(o); o += size(x)
    a = align(t); o = (o + a - 1) // a * a
    r.append(o); t._offs = r; return r
