"""P14: the string library (lib/pfastring.py)."""
import z3

from contracts.common import *
from vc.sym import SStr, str_term

P = 'P14'
S1 = Str()
SMALL = Int(choices=[0, 1, 2, 3, 5, -1, -2, -3, -7, 9])


class Txt(Str):
    """strings over a small alphabet, so that parts and repetitions are common"""

    def __init__(self, alphabet='aab', longest=7):
        Str.__init__(self)
        self.alphabet, self.longest = alphabet, longest

    def gen(self, env):
        r = env.rng
        if r.random() < 0.05:
            return r.choice(['é', '𝒳a', 'é', '日本', '\x00', ''])
        return ''.join(r.choice(self.alphabet) for _ in range(r.randint(0, self.longest)))


T, SUB = Txt(), Txt(longest=2)


def LC(name, params, spec, ret=None, **kw):
    kw.setdefault('fuzz', 300)
    return LibContract(name, P, params, spec, ret=ret or Str(), **kw)


def meth(s, name, *args):
    """the Python string method, through its assumed contract"""
    from vc.pymodels import call_method
    return call_method(sym.engine().hook_state['ip'], s, name, args, {})


def strsub(s, lo, hi):
    return s[lo:hi] if not symbolic() else sym.str_index(s, slice(lo, hi))


# ------------------------------------------------------------------ access
LC('s.len', dict(s=T), lambda s: Len(s), Int())


LC('s.substr', dict(s=T, start=SMALL, end=SMALL), lambda s, start, end: strsub(s, *clamp(Len(s), start, end)))


def substrto(s, start, end, replacement):
    a, b = clamp(Len(s), start, end)
    return strsub(s, 0, a) + replacement + strsub(s, b, Len(s))


LC('s.substrto', dict(s=T, start=SMALL, end=SMALL, replacement=SUB), substrto)


# ------------------------------------------------------------------ searching
def occurs(h, n, i):
    return h[i:i + len(n)] == n


def contains(haystack, needle):
    if symbolic():
        return sym.mkbool(z3.Contains(str_term(haystack), str_term(needle)))
    return any(occurs(haystack, needle, i) for i in range(len(haystack) + 1))


def count(haystack, needle):
    if len(haystack) == 0 if not symbolic() else Len(haystack) == 0:
        return 0
    if Len(needle) == 0:
        return 0
    if symbolic():
        return meth(haystack, 'count', needle)
    n = i = 0
    while i < len(haystack):
        if occurs(haystack, needle, i):
            n, i = n + 1, i + len(needle)
        else:
            i += 1
    return n


def index(haystack, needle):
    if symbolic():
        return sym.SInt(z3.IndexOf(str_term(haystack), str_term(needle), z3.IntVal(0)))
    return next((i for i in range(len(haystack) + 1) if occurs(haystack, needle, i)), -1)


def rindex(haystack, needle):
    if symbolic():
        return meth(haystack, 'rfind', needle)
    return next((i for i in range(len(haystack), -1, -1) if occurs(haystack, needle, i)), -1)


HN = dict(haystack=T, needle=SUB)
LC('s.contains', HN, contains, Bool())
LC('s.count', HN, count, Int())
LC('s.index', HN, index, Int())
LC('s.rindex', HN, rindex, Int())
LC('s.startswith', HN, lambda haystack, needle: And(Len(needle) <= Len(haystack), strsub(haystack, 0, Len(needle)) == needle), Bool())
LC('s.endswith', HN, lambda haystack, needle: And(Len(needle) <= Len(haystack), strsub(haystack, Max2(Len(haystack) - Len(needle), 0), Len(haystack)) == needle), Bool())


# ------------------------------------------------------------------ to and from arrays
def join(array, sep):
    if symbolic():
        from vc.pymodels import joinfn
        return SStr(joinfn(sym.engine(), str_term(sep), toseq(array)))
    out = ''
    for i, x in enumerate(array):
        out += (sep if i else '') + x
    return out


def split(s, sep):
    if Len(sep) == 0:
        return Pred(lambda out: Len(out) == 0, 'no items')
    if symbolic():
        return meth(s, 'split', sep)
    out, item, i = [], '', 0
    while i < len(s):
        if occurs(s, sep, i):
            out.append(item)
            item, i = '', i + len(sep)
        else:
            item, i = item + s[i], i + 1
    return out + [item]


LC('s.join', dict(array=Arr(T), sep=SUB), join)
LC('s.split', dict(s=T, sep=SUB), split, Arr(Str()))


# ------------------------------------------------------------------ numbers
def padded(body, width, zero=False):
    """left of zero width: nothing; positive: padded on the left; negative: on the right"""
    if symbolic():
        if width == 0:
            return ''
        if zero:
            return meth(body, 'zfill', width)
        if width < 0:
            return meth(body, 'ljust', -width)
        return meth(body, 'rjust', width)
    if width == 0:
        return ''
    if zero:
        sign, digits = ('-', body[1:]) if body.startswith('-') else ('', body)
        return sign + '0' * (width - len(body)) + digits
    return body + ' ' * (-width - len(body)) if width < 0 else ' ' * (width - len(body)) + body


def hexa(x):
    if symbolic():
        from vc.pymodels import fmt_value
        return fmt_value(sym.engine().hook_state['ip'], x, 'x')
    out = ''
    while True:
        x, d = divmod(x, 16)
        out = '0123456789abcdef'[d] + out
        if x == 0:
            return out


def dec(x):
    if symbolic():
        from vc.pymodels import to_str
        return to_str(sym.engine().hook_state['ip'], x)
    return str(x)


WIDTH = Int(big=False, choices=[0, 1, 5, -5, 12, -12, 3, 25])
NUM = Long(choices=[0, 255, 4096, -1, -300, 12345, LONG_MAX, LONG_MIN])


def number(body, negwidth, neg=None):
    def spec(x, width, zeroPad):
        if neg is not None and x < 0:
            return Raise(neg)
        if zeroPad and width < 0:
            return Raise(negwidth)
        return padded(body(x), width, zeroPad)
    return spec


XWZ = dict(x=NUM, width=WIDTH, zeroPad=Bool())
LC('s.hex', dict(x=NUM), lambda x: Raise(39111) if x < 0 else hexa(x), suffix='1')
LC('s.hex', XWZ, number(hexa, 39110, 39111), suffix='3')
LC('s.int', dict(x=NUM), lambda x: dec(x), suffix='1')
LC('s.int', XWZ, number(dec, 39240), suffix='3')
LC('s.number', dict(x=NUM), lambda x: dec(x), suffix='long1')
LC('s.number', XWZ, number(dec, 39120), suffix='long3')


def real(conv, x, prec):
    if symbolic():
        from vc.pymodels import fmt_real
        return fmt_real(conv, x, prec)
    return format(x, '.%d%s' % (prec, conv))


def numeric(x, width, precision, minNoExp=0.0001, maxNoExp=100000):
    w = width['int'] if isinstance(width, (dict, LDict)) and not symbolic() else Get(width, 'int') if isinstance(width, LDict) else width
    p = precision['int'] if isinstance(precision, (dict, LDict)) and not symbolic() else Get(precision, 'int') if isinstance(precision, LDict) else precision
    if p < 0:
        return Raise(39121)
    fixed = (not IsNan(x)) and Or(x == 0, And(Abs(x) >= minNoExp, Abs(x) <= maxNoExp))
    if not symbolic() and x == 0:
        x = 0.0
    body = real('f', x, p) if fixed else real('e', x, p)
    if w is None:
        return body
    if w == 0 and not symbolic():
        return body
    return body if w == 0 else padded(body, w)


TAGGED = Rec('T', {'int': WIDTH})
PREC = OneOf(plain=Int(choices=[0, 1, 2, 6, 12, -1, -3], big=False), tagged=Rec('U', {'int': Int(choices=[0, 1, 2, 6, 12, -1, -3], big=False)}))
WID = OneOf(null=Null(), plain=WIDTH, tagged=TAGGED)
UNI = {'x': 'double', 'u': ['int', 'null']}
XD = Dbl(choices=[0.0, -0.0, 0.0001, 0.00009, 99999.5, 100000.0, 100001.0, 1e-7, -123456.789, 3.14159])
LC('s.number', dict(x=XD, width=WID, precision=PREC), numeric, suffix='double3', ptypes=['double', ['int', 'null'], ['int', 'null'], 'string'])
LC('s.number', dict(x=XD, width=WID, precision=PREC, minNoExp=Dbl(choices=[0.0, 1.0, 0.01]), maxNoExp=Dbl(choices=[10.0, 1e3, 1e9])), numeric, suffix='double5',
   ptypes=['double', ['int', 'null'], ['int', 'null'], 'double', 'double', 'string'])


# ------------------------------------------------------------------ other strings
LC('s.concat', dict(x=T, y=T), lambda x, y: x + y)


def repeated(s, n):
    if symbolic():
        from vc.pymodels import repeat
        return SStr(repeat(sym.engine(), str_term(s), num_term(n)))
    out = ''
    for _ in range(n):
        out += s
    return out


LC('s.repeat', dict(s=SUB, n=Int(big=False, choices=[0, 1, 2, 3, 5, -1])), repeated)
MIXED = Txt('aBc é', 5)
for _n, _f in (('lower', lambda s: ''.join(c.lower() for c in s)), ('upper', lambda s: ''.join(c.upper() for c in s))):
    LC('s.' + _n, dict(s=MIXED), lambda s, _n=_n, _f=_f: meth(s, _n) if symbolic() else _f(s))


def strip(left, right, name):
    def spec(s, chars):
        if symbolic():
            return meth(s, name, chars)
        a, b = 0, len(s)
        while left and a < b and s[a] in chars:
            a += 1
        while right and b > a and s[b - 1] in chars:
            b -= 1
        return s[a:b]
    return spec


for _n, _l, _r in (('lstrip', True, False), ('rstrip', False, True), ('strip', True, True)):
    LC('s.' + _n, dict(s=Txt('abc '), chars=Txt('ab ', 3)), strip(_l, _r, _n))


def replaceall(s, original, replacement):
    if symbolic():
        return meth(s, 'replace', original, replacement)
    if original == '':
        return replacement + ''.join(c + replacement for c in s)
    return replacement.join(split(s, original))


def first(s, original, replacement):
    if symbolic():
        if Len(s) == 0:
            return If(Len(original) == 0, replacement, '')
        return SStr(z3.Replace(str_term(s), str_term(original), str_term(replacement)))
    i = index(s, original)
    return s if i < 0 else s[:i] + replacement + s[i + len(original):]


def reverse(s):
    return SStr(sym.uf('str.reversed', sym.StrS, sym.StrS)(str_term(s)))


def last(s, original, replacement):
    if symbolic():
        r = reverse(s)
        sym.engine().assume(z3.Length(r.t) == z3.Length(str_term(s)))
        for x in (original, replacement):
            sym.engine().assume(z3.Length(reverse(x).t) == z3.Length(str_term(x)))
        return reverse(first(r, reverse(original), reverse(replacement)))
    i = rindex(s, original)
    return s if i < 0 else s[:i] + replacement + s[i + len(original):]


SOR = dict(s=T, original=SUB, replacement=SUB)
LC('s.replaceall', SOR, replaceall)
LC('s.replacefirst', SOR, first)
LC('s.replacelast', SOR, last)


def translate(s, oldchars, newchars):
    if not symbolic():
        return ''.join(c if c not in oldchars else newchars[oldchars.index(c):][:1] for c in s)

    def step(acc, i):
        c = SStr(z3.SubString(str_term(s), num_term(i), z3.IntVal(1)))
        at_ = z3.IndexOf(str_term(oldchars), c.t, z3.IntVal(0))
        new = SStr(z3.SubString(str_term(newchars), at_, z3.IntVal(1)))
        known = sym.mkbool(z3.Contains(str_term(oldchars), c.t))
        keep = Or(Not(known), sym.mkbool(at_ < z3.Length(str_term(newchars))))
        seq = toseq(acc)
        return LList(SSeq(If(keep, seq.n + 1, seq.n), lambda j: If(j < seq.n, seq.at(j), If(known, new, c)), kind='str'), frozen=True)
    out = Fold(('list', 'str'), Len(s), LList([], frozen=True), step)
    from vc.pymodels import joinfn
    return SStr(joinfn(sym.engine(), z3.StringVal(''), toseq(out)))


LC('s.translate', dict(s=Txt('abc'), oldchars=Txt('abc', 3), newchars=Txt('xyz', 3)), translate)
