"""P15: conversions between types and encodings (lib/cast.py, lib/bytes.py, lib/enum.py, lib/fixed.py, lib/impute.py)."""
import base64
import codecs
import re

import z3

import titus.util
from contracts.common import *
from contracts.strings import SMALL, T, Txt, SUB, strsub
from titus.errors import AvroException
from vc.interp import has_sym
from vc.sym import SStr, str_term
from vc.engine import PyRaise

P = 'P15'


def LC(name, params, spec, ret=None, **kw):
    kw.setdefault('fuzz', 200)
    return LibContract(name, P, params, spec, ret=ret or Str(), **kw)


# ------------------------------------------------------------------ wrap-around integers
WIDE = Long(choices=[0, 1, -1, 127, 128, -128, -129, 255, 256, LONG_MAX, LONG_MIN, LONG_MIN + 1, 2**62, 2**31, -2**31, -2**32])
BITS = {str(n): Const(n, 'int') for n in range(1, 65)}
LC('cast.unsigned', dict(x=WIDE, bits=OneOf(**{'b' + k: v for k, v in BITS.items() if k != '64'})), lambda x, bits: x % 2**bits, Long(), suffix='in')
LC('cast.signed', dict(x=WIDE, bits=OneOf(**{'b' + k: v for k, v in BITS.items() if k != '1'})),
   lambda x, bits: If(x % 2**bits < 2**(bits - 1), x % 2**bits, x % 2**bits - 2**bits), Long(), suffix='in')
OUT = Int(choices=[0, -1, 65, 66, 64, 1])
LC('cast.unsigned', dict(x=WIDE, bits=OUT), lambda x, bits: Raise(17010), Long(), suffix='out', pre=lambda x, bits: Or(bits < 1, bits > 63))
LC('cast.signed', dict(x=WIDE, bits=OUT), lambda x, bits: Raise(17000), Long(), suffix='out', pre=lambda x, bits: Or(bits < 2, bits > 64))


# ------------------------------------------------------------------ numbers
def whole(lo, hi, code):
    def spec(x):
        if IsNan(x) or IsInf(x):
            return Raise(code)
        out = Floor(x + 0.5) if isinstance(x, (float, sym.SReal)) else x
        if Or(out < lo, out > hi):
            return Raise(code)
        return out
    return spec


EDGE = [2147483647.0, 2147483646.5, 2147483647.5, -2147483648.0, -2147483648.5, -2147483648.75, 0.5, -0.5, 1.5, 2.5, -2.5, 9.3e18, -9.3e18]
NUMS = dict(int=Int(choices=[INT_MIN, INT_MAX]), long=Long(choices=[INT_MIN, INT_MAX, INT_MIN - 1, INT_MAX + 1, LONG_MIN, LONG_MAX]), float=Flt(special=True, choices=EDGE), double=Dbl(special=True, choices=EDGE))
for _n, _T in NUMS.items():
    LC('cast.int', dict(x=_T), whole(INT_MIN, INT_MAX, 17020), Int(), suffix=_n)
    LC('cast.long', dict(x=_T), whole(LONG_MIN, LONG_MAX, 17030), Long(), suffix=_n)
    LC('cast.float', dict(x=_T), lambda x: Real(x), Flt(), suffix=_n)
    LC('cast.double', dict(x=_T), lambda x: Real(x), Dbl(), suffix=_n)


# ------------------------------------------------------------------ fan-outs
class EnumT(PT):
    """an enumeration value; its symbols are a parameter of the case"""

    def __init__(self, symbols):
        self.symbols = symbols

    def kind(self):
        return 'str'

    def jsontype(self, env=None):
        return {'type': 'enum', 'name': 'E', 'symbols': list(self.symbols)}

    def make(self, e, name):
        v = fresh('str', name)
        e.assume(z3.Or([v.t == z3.StringVal(s) for s in self.symbols]))
        return v

    def gen(self, env):
        return env.rng.choice(self.symbols)


ENUMS = [['one'], ['a', 'b'], ['zero', 'one', 'two', 'three'], ['b', 'a', 'ab', 'c', 'B', 'ba']]
OUTS = {'Boolean': (Bool(), True, False), 'Int': (Int(), 1, 0), 'Long': (Long(), 1, 0), 'Float': (Flt(), 1.0, 0.0), 'Double': (Dbl(), 1.0, 0.0)}


def pick(c, yes, no):
    return If(c, yes, no) if not isinstance(yes, bool) else c


def distinct(a):
    if not symbolic():
        return len(set(a)) == len(a)
    e = sym.engine()
    i, j, n = z3.Int('di!'), z3.Int('dj!'), num_term(Len(a))
    with e.noforking(z3.And(0 <= i, i < n, 0 <= j, j < i), [i, j]):
        eq = at(a, sym.SInt(i)).t == at(a, sym.SInt(j)).t
    return sym.mkbool(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < i), z3.Not(eq))))


def fanstring(yes, no, code):
    def spec(x, dictionary, outOfRange):
        if Not(distinct(dictionary)):
            return Raise(code)
        n = Len(dictionary)
        inside = Seq(n, lambda i: pick(Eq(at(dictionary, i), x), yes, no))
        if Not(outOfRange):
            return inside
        return Seq(n + 1, lambda i: If3(i, n, n + 1, lambda: pick(Eq(at(dictionary, i), x), yes, no), lambda: pick(ForAll(0, n, lambda j: Not(Eq(at(dictionary, j), x))), yes, no), lambda: no))
    return spec


def fanint(yes, no):
    def spec(x, minimum, maximum, outOfRange):
        n = Max2(maximum - minimum, 0)
        inside = Seq(n, lambda i: pick(Eq(x, minimum + i), yes, no))
        if Not(outOfRange):
            return inside
        return Seq(n + 1, lambda i: If3(i, n, n + 1, lambda: pick(Eq(x, minimum + i), yes, no), lambda: pick(Or(x < minimum, x >= maximum), yes, no), lambda: no))
    return spec


FEW = Int(big=False, choices=[0, 1, 2, 3, 5, -2])
for _i, (_n, (_T, _y, _no)) in enumerate(OUTS.items()):
    _name, _base = 'cast.fanout' + _n, 17060 + 10 * _i
    for _k, _s in enumerate(ENUMS):
        LC(_name, dict(x=EnumT(_s)), lambda x, _s=_s, _y=_y, _no=_no: [pick(Eq(x, s), _y, _no) for s in _s], Arr(_T), suffix='enum%d' % _k, fuzz=20)
    LC(_name, dict(x=Txt('ab', 2), dictionary=Arr(Txt('ab', 2)), outOfRange=Bool()), fanstring(_y, _no, _base), Arr(_T), suffix='string',
       inv=lambda x, dictionary, outOfRange: [Inv('so far', lambda k: Seq(k, lambda i: Eq(x, at(dictionary, i))), kinds=('list',), defn=True)])
    LC(_name, dict(x=FEW, minimum=FEW, maximum=FEW, outOfRange=Bool()), fanint(_y, _no), Arr(_T), suffix='int',
       inv=lambda x, minimum, maximum, outOfRange: [Inv('so far', lambda k: Seq(k, lambda i: Eq(x, minimum + i)), kinds=('list',), defn=True)])


# ------------------------------------------------------------------ enumerations and fixed
class AnyEnum(EnumT):
    """a value that may or may not be a symbol"""

    def make(self, e, name):
        return fresh('str', name)

    def gen(self, env):
        return env.rng.choice(list(self.symbols) + ['nope', ''])


def symindex(symbols, x):
    out = -1
    for i in range(len(symbols) - 1, -1, -1):
        out = If(Eq(x, symbols[i]), i, out)
    return out


for _k, _s in enumerate(ENUMS):
    LC('enum.toString', dict(x=AnyEnum(_s)), lambda x, _s=_s: x if symindex(_s, x) >= 0 else Raise(None, exc=AvroException), suffix=str(_k), fuzz=20, rawok=(AvroException,))
    LC('enum.toInt', dict(x=AnyEnum(_s)), lambda x, _s=_s: symindex(_s, x) if symindex(_s, x) >= 0 else Raise(None, exc=AvroException), Int(), suffix=str(_k), fuzz=20, rawok=(AvroException,))
    LC('enum.numSymbols', dict(x=EnumT(_s)), lambda x, _s=_s: len(_s), Int(), suffix=str(_k), fuzz=20)

# bytes are strings of the characters 0 to 255
class Bin(Txt):
    json = 'bytes'

    def gen(self, env):
        return ''.join(env.rng.choice('ab\x00\xff\x80é') for _ in range(env.rng.randint(0, 6)))


BYTES = Bin()


def overwritten(original, replacement):
    n = Len(original)
    m = Min2(n, Len(replacement))
    return strsub(replacement, 0, m) + strsub(original, m, n)


LC('fixed.toBytes', dict(x=BYTES), lambda x: x, BYTES)
LC('fixed.fromBytes', dict(original=BYTES, replacement=BYTES), overwritten, BYTES)


# ------------------------------------------------------------------ bytes
def same(ip, args, kw):
    """Latin-1 characters stand for bytes one to one"""
    ip.e.stats['trusted'].add('titus.util.stringToBytes / bytesToString: bytes are modelled as Latin-1 strings')
    return args[0]


class CodecError(object):
    pass


def coder(way, error):
    def f(ip, args, kw):
        x, codec, mode = (list(args) + ['strict'])[:3]
        if not has_sym(x):
            return ip.native(getattr(codecs, way), args, kw)
        if mode != 'strict':
            return SStr(sym.uf('codecs.%s.%s.%s' % (way, codec, mode), sym.StrS, sym.StrS)(x.t))
        if not ip.e.branch(sym.uf('codecs.%s.%s.ok' % (way, codec), sym.StrS, sym.BoolS)(x.t)):
            raise PyRaise(error('codec', b'' if way == 'decode' else '', 0, 1, 'invalid'))
        return SStr(sym.uf('codecs.%s.%s' % (way, codec), sym.StrS, sym.StrS)(x.t))
    return f


MODELS = {codecs.decode: coder('decode', UnicodeDecodeError), codecs.encode: coder('encode', UnicodeEncodeError)}
SUMM = {titus.util.stringToBytes: same, titus.util.bytesToString: same}


def coded(way, codec, code, x):
    """x.encode(codec) or decode, or the documented error"""
    if symbolic():
        if not sym.mkbool(sym.uf('codecs.%s.%s.ok' % (way, codec), sym.StrS, sym.BoolS)(x.t)):
            return Raise(code)
        return SStr(sym.uf('codecs.%s.%s' % (way, codec), sym.StrS, sym.StrS)(x.t))
    try:
        return x.encode('latin-1').decode(codec) if way == 'decode' else x.encode(codec).decode('latin-1')
    except UnicodeError:
        return Raise(code)


def BC(name, params, spec, ret, **kw):
    return LC(name, params, spec, ret, summaries=SUMM, models=MODELS, **kw)


LC('bytes.len', dict(x=BYTES), lambda x: Len(x), Int())
BC('bytes.subseq', dict(x=BYTES, start=SMALL, end=SMALL), lambda x, start, end: strsub(x, *clamp(Len(x), start, end)), BYTES)


def subseqto(x, start, end, replacement):
    a, b = clamp(Len(x), start, end)
    return strsub(x, 0, a) + replacement + strsub(x, b, Len(x))


BC('bytes.subseqto', dict(x=BYTES, start=SMALL, end=SMALL, replacement=BYTES), subseqto, BYTES)
TEXT = Txt('abé日𝒳\x80', 5)
ENCODED = OneOf(any=BYTES)


class Encoded(Txt):
    """bytes that are often well-formed in some encoding"""
    json = 'bytes'

    def gen(self, env):
        s = TEXT.gen(env)
        c = env.rng.choice(['utf-8', 'utf-16', 'utf-16-le', 'utf-16-be', 'latin-1', 'ascii'])
        try:
            s = s.encode(c).decode('latin-1')
        except UnicodeError:
            s = BYTES.gen(env)
        return s[:-1] if env.rng.random() < 0.1 else s


CODECS = [('Ascii', 'ascii'), ('Latin1', 'latin_1'), ('Utf8', 'utf_8'), ('Utf16', 'utf_16'), ('Utf16be', 'utf_16_be'), ('Utf16le', 'utf_16_le')]
for _i, (_n, _c) in enumerate(CODECS):
    BC('bytes.is' + _n, dict(x=Encoded()), lambda x, _c=_c: not isinstance(coded('decode', _c, 0, x), Raise), Bool(), suffix='bytes')
    BC('bytes.is' + _n, dict(x=TEXT), lambda x, _c=_c: not isinstance(coded('encode', _c, 0, x), Raise), Bool(), suffix='string')
    BC('bytes.decode' + _n, dict(x=Encoded()), lambda x, _c=_c, _e=16090 + 10 * _i: coded('decode', _c, _e, x), Str())
    BC('bytes.encode' + _n, dict(x=TEXT), lambda x, _c=_c, _e=16150 + 10 * _i: coded('encode', _c, _e, x), BYTES)


class B64(Txt):
    def gen(self, env):
        r = env.rng
        if r.random() < 0.6:
            return base64.b64encode(bytes(r.randrange(256) for _ in range(r.randint(0, 9)))).decode()
        return ''.join(r.choice('ABz9+/=* ') for _ in range(r.randint(0, 6)))


class B64Bytes(object):
    """what b64encode returns: only decode() is used"""

    def decode(self):
        return self.text


def b64encode(ip, args, kw):
    if not has_sym(args[0]):
        return ip.native(base64.b64encode, args, kw)
    return sym.SObj(B64Bytes, {'text': SStr(sym.uf('base64.encode', sym.StrS, sym.StrS)(args[0].t))})


def b64decode(ip, args, kw):
    import binascii
    x = args[0]
    if not has_sym(x) or len(args) > 1 or kw:
        return ip.native(base64.b64decode, args, kw)
    if not ip.e.branch(sym.uf('base64.ok', sym.StrS, sym.BoolS)(x.t)):
        raise PyRaise(binascii.Error('Incorrect padding'))
    return SStr(sym.uf('base64.decode', sym.StrS, sym.StrS)(x.t))


def rematch(ip, args, kw):
    if not any(has_sym(a) for a in args):
        return ip.native(re.match, args, kw)
    return 'match' if ip.e.branch(sym.uf('re.match ' + str(args[0]), sym.StrS, sym.BoolS)(args[1].t)) else None


PATTERN = r"^[A-Za-z0-9\+/]*=*$"


def frombase64(s):
    if symbolic():
        if Not(sym.mkbool(sym.uf('re.match ' + PATTERN, sym.StrS, sym.BoolS)(s.t))):
            return Raise(16220)
        if Not(sym.mkbool(sym.uf('base64.ok', sym.StrS, sym.BoolS)(s.t))):
            return Raise(16220)
        return SStr(sym.uf('base64.decode', sym.StrS, sym.StrS)(s.t))
    if any(c not in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/' for c in s.rstrip('=')):
        return Raise(16220)
    try:
        return base64.b64decode(s).decode('latin-1')
    except ValueError:
        return Raise(16220)


def tobase64(x):
    if symbolic():
        return SStr(sym.uf('base64.encode', sym.StrS, sym.StrS)(x.t))
    return base64.b64encode(x.encode('latin-1')).decode()


LC('bytes.fromBase64', dict(s=B64()), frombase64, BYTES, summaries=SUMM, models={re.match: rematch, base64.b64decode: b64decode})
LC('bytes.toBase64', dict(x=BYTES), tobase64, Str(), summaries=SUMM, models={base64.b64encode: b64encode})

# ------------------------------------------------------------------ missing values
for _n, _T, _tag in (('int', Int(), 'int'), ('string', Str(), 'string')):
    _U = OneOf(null=Null(), plain=_T, tagged=Rec('T', {_tag: _T}))
    _pt = [['null', _tag], _tag]

    def inner(x, _tag=_tag):
        if isinstance(x, (dict, LDict)):
            return x[_tag] if not symbolic() else Get(x, _tag)
        return x
    LC('impute.errorOnNull', dict(x=_U), lambda x, inner=inner: Raise(21000) if x is None else inner(x), _T, suffix=_n, ptypes=_pt)
    LC('impute.defaultOnNull', dict(x=_U, default=_T), lambda x, default, inner=inner: default if x is None else inner(x), _T, suffix=_n, ptypes=[_pt[0], _tag, _tag])
