"""P01: arithmetic, comparison and logical operators of the core library."""
import math

from contracts.common import *

P = 'P01'


def LC(name, params, spec, **kw):
    return LibContract(name, P, params, spec, **kw)


INT = (INT_MIN, INT_MAX)
LONG = (LONG_MIN, LONG_MAX)


def ranged(lo, hi, code, f):
    def spec(**kw):
        out = f(**kw)
        if Or(out < lo, out > hi):
            return Raise(code)
        return out
    return spec


def both(name, base, f, params):
    """int, long and double instances of an overflow-checked operator"""
    for suf, T, (lo, hi), code in (('int', Int(choices=[INT_MIN, INT_MAX, 1, -1, 46341, 65536]), INT, base), ('long', Long(choices=[LONG_MIN, LONG_MAX, 1, -1, 3037000500]), LONG, base + 1)):
        LC(name, dict.fromkeys(params, T), ranged(lo, hi, code, f), ret=T, suffix=suf)
    for suf, T in (('float', Flt(special=True)), ('double', Dbl(special=True))):
        LC(name, dict.fromkeys(params, T), lambda **kw: f(**kw), ret=T, suffix=suf)


both('+', 18000, lambda x, y: x + y, ['x', 'y'])
both('-', 18010, lambda x, y: x - y, ['x', 'y'])
both('*', 18020, lambda x, y: x * y, ['x', 'y'])
both('u-', 18050, lambda x: -x, ['x'])


def divspec(x, y):
    if IsNan(x) or IsNan(y):
        return float('nan')
    if y == 0:
        if x > 0:
            return float('inf')
        if x < 0:
            return float('-inf')
        return float('nan')
    return x / y


LC('/', dict(x=Dbl(special=True), y=Dbl(special=True, choices=[0.0, 1.0, -2.0])), divspec, ret=Dbl())


def truncdiv(x, y):
    q = Abs(x) // Abs(y)
    return If(Or(And(x < 0, y > 0), And(x > 0, y < 0)), -q, q)


for _n, _T in (('int', Int(choices=[7, -7, 2, -2, 0, 3])), ('long', Long(choices=[7, -7, 2, -2, 0, 9007199254740993, LONG_MAX, LONG_MAX - 1, LONG_MIN + 1]))):
    LC('//', dict(x=_T, y=_T), lambda x, y: Raise(18040) if y == 0 else truncdiv(x, y), ret=_T, suffix=_n,
       pre=lambda x, y, _lo=_T.LO: Not(And(x == _lo, y == -1)))


def modspec(real):
    def spec(k, n):
        if real and (IsNan(k) or IsNan(n)):
            return float('nan')
        if n == 0:
            return float('nan') if real else Raise(18060)
        if IsInf(k):
            return float('nan')
        if IsInf(n):
            return If(Or(k == 0, (k > 0) == (n > 0)), k, n)
        return k % n
    return spec


def remspec(real):
    def spec(k, n):
        if real and (IsNan(k) or IsNan(n)):
            return float('nan')
        if n == 0:
            return float('nan') if real else Raise(18070)
        if IsInf(k):
            return float('nan')
        if IsInf(n):
            return k
        m = k % n
        return If(And(m != 0, (k < 0) != (m < 0)) if not symbolic() else And(Not(m == 0), Not(Iff(k < 0, m < 0))), m - n, m)
    return spec


DY = Dbl(special=True, choices=[0.0, 1.0, -2.0, 2.5, -1.5, 3.0, 7.5, -7.5])
for _n, _T, _r in (('int', Int(choices=[7, -7, 3, -3, 0]), False), ('long', Long(choices=[7, -7, 3, -3, 0, LONG_MIN]), False), ('double', DY, True)):
    LC('%', dict(k=_T, n=_T), modspec(_r), ret=_T, suffix=_n)
    LC('%%', dict(k=_T, n=_T), remspec(_r), ret=_T, suffix=_n)


def odd(y):
    return y % 2 == 1


def powreal(x, y):
    """IEEE-style special cases, otherwise the real power"""
    fin = not (IsNan(x) or IsNan(y) or IsInf(x) or IsInf(y))
    if not fin:
        if y == 0:
            return 1.0
        if IsNan(x) or IsNan(y):
            return float('nan')
        if And(x == 0, y < 0):
            return float('inf')
        if IsInf(y):
            if Or(x == 1, x == -1):
                return float('nan')
            if (Abs(x) < 1) == (y > 0):
                return 0.0
            return float('inf')
        if y < 0:
            return 0.0
        if x < 0 and And(y % 2 == 1, Real(Floor(y)) == Real(y)):
            return float('-inf')
        return float('inf')
    raises = PowRaises(x, y)
    if And(x == 0, y < 0):
        return float('inf')
    if And(x < 0, Not(Real(Floor(y)) == Real(y))):
        return float('nan')
    if raises:
        if (Abs(x) > 1) == (y < 0):
            return 0.0
        return float('-inf') if And(x < 0, odd(y)) else float('inf')
    return UFR('pow', Real(x), Real(y))


PY = Dbl(special=True, choices=[0.0, 1.0, -1.0, 2.0, 3.0, 0.5, -0.5])
LC('**', dict(x=PY, y=PY), powreal, ret=Dbl(), suffix='double')


def powint(lo, hi, code):
    def spec(x, y):
        out = powreal(x, y)
        if IsNan(out) or IsInf(out) or Or(out < lo, out > hi):
            return Raise(code)
        return Trunc(out)
    return spec


LC('**', dict(x=Int(choices=[2, 3, -2, 0, 1, 46340]), y=Int(choices=[0, 1, 2, 3, 31, 5, -1, -2])), powint(INT_MIN, INT_MAX, 18080), ret=Int(), suffix='int')
LC('**', dict(x=Long(choices=[2, 3, -2, 0, 1]), y=Long(choices=[0, 1, 2, 3, 62, 63, 5, -1, -2])), powint(LONG_MIN, LONG_MAX, 18081), ret=Long(), suffix='long')

# ------------------------------------------------------------------ comparison operators on any type
A = W('A')
XY = dict(x=A, y=A)
LC('cmp', XY, lambda x, y: Cmp(x, y), ret=Int())
LC('==', XY, lambda x, y: Cmp(x, y) == 0, ret=Bool())
LC('!=', XY, lambda x, y: Cmp(x, y) != 0, ret=Bool())
LC('<', XY, lambda x, y: Lt(x, y), ret=Bool())
LC('<=', XY, lambda x, y: Not(Lt(y, x)), ret=Bool())
LC('>', XY, lambda x, y: Lt(y, x), ret=Bool())
LC('>=', XY, lambda x, y: Not(Lt(x, y)), ret=Bool())
LC('max', XY, lambda x, y: Pred(lambda out: And(Or(Eq(out, x), Eq(out, y)), Not(Lt(out, x)), Not(Lt(out, y))), 'the larger'), ret=A)
LC('min', XY, lambda x, y: Pred(lambda out: And(Or(Eq(out, x), Eq(out, y)), Not(Lt(x, out)), Not(Lt(y, out))), 'the smaller'), ret=A)

# ------------------------------------------------------------------ logic, with short-circuit evaluation
BOOLS = dict(x=Thunk(Bool()), y=Thunk(Bool()))


def seq2(stop, comb):
    """evaluate x; unless stop(x), evaluate y"""
    def spec(x, y):
        if x.raises:
            return Raise(x.code)
        if stop is not None and stop(x.value):
            return x.value
        if y.raises:
            return Raise(y.code)
        return comb(x.value, y.value)
    return spec


LC('&&', BOOLS, seq2(lambda x: Not(x), lambda x, y: And(x, y)), ret=Bool(), via=['genpy'])
LC('||', BOOLS, seq2(lambda x: x, lambda x, y: Or(x, y)), ret=Bool(), via=['genpy'])
LC('&&', dict(x=Bool(), y=Bool()), lambda x, y: And(x, y), ret=Bool(), via=['call'], suffix='ref')
LC('||', dict(x=Bool(), y=Bool()), lambda x, y: Or(x, y), ret=Bool(), via=['call'], suffix='ref')
LC('^^', dict(x=Bool(), y=Bool()), lambda x, y: Not(Iff(x, y)), ret=Bool())
LC('!', dict(x=Bool()), lambda x: Not(x), ret=Bool())

TRI = OneOf(null=Null(), true=Const(True), false=Const(False), taggedtrue=Const({'boolean': True}), taggedfalse=Const({'boolean': False}))
TRIS = dict(x=Thunk(TRI), y=Thunk(TRI))


def val(t):
    return t['boolean'] if isinstance(t, dict) else t


def out3(v):
    return None if v is None else {'boolean': v}


def kleene(short):
    def spec(x, y):
        if x.raises:
            return Raise(x.code)
        if val(x.value) is short:
            return {'boolean': short}
        if y.raises:
            return Raise(y.code)
        if val(y.value) is short:
            return {'boolean': short}
        if val(x.value) is None or val(y.value) is None:
            return None
        return {'boolean': not short}
    return spec


LC('&&&', TRIS, kleene(False), ret=Bool(), via=['genpy'])
LC('|||', TRIS, kleene(True), ret=Bool(), via=['genpy'])
LC('!!!', dict(x=TRI), lambda x: None if val(x) is None else {'boolean': not val(x)}, ret=Bool())

# ------------------------------------------------------------------ bitwise: two's complement of the operand type
for _n, _T, _b in (('int', Int(), 32), ('long', Long(), 64)):
    _xy = dict(x=_T, y=_T)
    LC('&', _xy, lambda x, y: bits('&', x, y), ret=_T, suffix=_n)
    LC('|', _xy, lambda x, y: bits('|', x, y), ret=_T, suffix=_n)
    LC('^', _xy, lambda x, y: bits('^', x, y), ret=_T, suffix=_n)
    LC('~', dict(x=_T), lambda x: -1 - x, ret=_T, suffix=_n)
