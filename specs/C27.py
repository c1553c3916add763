from spec import *
HARNESS = dict(src='C27.cpp', lib=['StringBuilder.cpp', 'CppPotpourri.cpp', 'AbstractPlatform.cpp', 'Identity/Identity.cpp', 'uuid.cpp'])
PROVED = 'stringToTimestamp on every 20-character text with decimal digits in the date and time positions: exact epoch seconds for every valid date 1970-2099, zero for every refused field; memory frame for arbitrary bytes. The calendar oracle is itself proved: it is zero on 1970-01-01 and grows by one from each day to its Gregorian successor.'
BOUNDED = 'native replay: every day of 1970-2099 against timegm, and random refused fields'
ASSUMPTIONS = ['atoi() of at most four digits followed by NUL is their decimal value (assumed contract on libc)', 'the text has at least 20 characters (documented precondition)']
TU = 'CppPotpourri.cpp'
def number(nm, cs):
    """the decimal number spelled by these characters (0 <= value < 10^n when they are digits)"""
    return z3.Int('num_' + '_'.join(cs))
def atoi(ex, st, args, ins):
    """libc contract: the number spelled by the characters before the terminator, when all of them are digits"""
    p = args[0]; cs = []
    for k in range(5):
        b = ex.load(st, Ptr(p.reg, p.c + k, p.t), Ty('i', 8), ins)
        if isinstance(b, int):
            if b == 0: break
            raise ToolLimit('atoi of constant text')
        cs.append(b)
    else: raise ToolLimit('atoi of long text')
    r = z3.Int(ex.uniq('atoi')); st.assume(ex.A.rng(r, 32)); n = number('', [str(x) for x in cs])
    dig = z3.And([z3.And(x >= 48, x <= 57) for x in cs]); st.assume(z3.Implies(dig, z3.And(r == n, n >= 0, n < 10 ** len(cs)))); return [(st, r)]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]; LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def pick(t, m):
    r = z3.IntVal(t[11])
    for i in range(10, -1, -1): r = z3.If(m == i + 1, z3.IntVal(t[i]), r)
    return r
def B(v): return z3.IntVal(v)
def dim(y, m): return pick(LEN, m) + z3.If(z3.And(m == 2, leap(y)), B(1), B(0))
def days(y, m, d): return (y - 1970) * 365 + (y - 1969) / 4 + pick(CUM, m) + z3.If(z3.And(leap(y), m > 2), B(1), B(0)) + d - 1
def inr(x, a, b): return z3.And(x >= a, x <= b)

def text(c):
    s = c.obj('str', 20); cs = []
    for i in range(20): v = c.int('ch%d' % i, 8); c.set(s, i, 1, v); cs.append(v)
    def num(*ix): return number('', ['ch%d' % i for i in ix])
    dig = z3.And([z3.And(cs[i] >= 48, cs[i] <= 57) for i in (0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18)])
    return s, cs, dig, num(0, 1, 2, 3), num(5, 6), num(8, 9), num(11, 12), num(14, 15), num(17, 18)

@contract('stringToTimestamp', TU, stubs=[(r'atoi', atoi)], merge=True, mode='int')
def _(c):
    s, cs, dig, y, mo, d, h, mi, se = text(c); c.st.assume(dig)
    valid = z3.And(inr(y, 1970, 2099), inr(mo, 1, 12), d >= 1, d <= dim(y, mo), h <= 23, mi <= 59, se <= 59)
    want = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se
    bad = z3.Or(y < 1970, mo == 0, mo > 12, d > 31, h > 23, mi > 59, se > 59)
    c.sat_cover(c.st, 'a valid date exists', valid)
    for st, r in c.run(r'stringToTimestamp\(char const\*\)', [Ptr(s)]):
        v = c.lift(r, 64)
        for m in range(1, 13): c.post(st, 'a valid date-time in month %d gives its epoch seconds' % m, z3.Implies(z3.And(valid, mo == m), v == want), timeout=60000)
        c.post(st, 'an out-of-range field gives zero', z3.Implies(bad, v == 0))
        c.post(st, 'the text is not modified', z3.And([c.lift(c.get(st, s, i, 1), 8) == cs[i] for i in range(20)]))
@contract('stringToTimestamp/any bytes', TU, stubs=[(r'atoi', atoi)], merge=True, mode='int')
def _(c):
    s, cs, dig, *_ = text(c)
    for st, r in c.run(r'stringToTimestamp\(char const\*\)', [Ptr(s)]): c.post(st, 'returns, whatever the text', True)
@contract('calendar oracle', TU, mode='int')
def _(c):
    y, m, d = B(0), B(0), B(0)
    y, m, d = c.int('y', 32), c.int('m', 32), c.int('d', 32); ok = z3.And(inr(y, 1970, 2099), inr(m, 1, 12), d >= 1, d <= dim(y, m))
    c.lemma('day zero is 1970-01-01', days(B(1970), B(1), B(1)) == 0)
    last = d == dim(y, m); ny = z3.If(z3.And(last, m == 12), y + 1, y); nm = z3.If(last, z3.If(m == 12, B(1), m + 1), m); nd = z3.If(last, B(1), d + 1)
    c.lemma('each day is one more than the day before', z3.Implies(ok, days(ny, nm, nd) == days(y, m, d) + 1))
