"""P13: the mathematical functions of lib/pfamath.py."""
import math

from contracts.common import *

P = 'P13'
NAN, INF, NINF = float('nan'), float('inf'), float('-inf')
X = Dbl(special=True, choices=[0.0, 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 1.0, -1.0, 2.0, 710.0, -710.0, 1e200, -1e200])


def LC(name, spec, params=None, ret=None, **kw):
    return LibContract(name, P, params if params is not None else dict(x=X), spec, ret=ret or Dbl(), **kw)


def special(x):
    return IsNan(x) or IsInf(x)


LC('m.pi', lambda: math.pi, {})
LC('m.e', lambda: math.e, {})

# -- sign and rounding: exact
for _n, _T in (('int', Int(choices=[INT_MIN, INT_MAX, 0, -1])), ('long', Long(choices=[LONG_MIN, LONG_MAX, 0, -1]))):
    LC('m.abs', lambda x, _T=_T, _c=27020 if _n == 'int' else 27021: Raise(_c) if x == _T.LO else Abs(x), dict(x=_T), _T, suffix=_n)
LC('m.abs', lambda x: Abs(x), suffix='double')
LC('m.abs', lambda x: Abs(x), dict(x=Flt(special=True)), Flt(), suffix='float')


def signed(mag, sign):
    return If(sign < 0, -Abs(mag), Abs(mag)) if not (IsNan(sign) or IsNan(mag)) else (NAN if IsNan(mag) else Abs(mag))


LC('m.copysign', signed, dict(mag=X, sign=X), suffix='double')
for _n, _T in (('int', Int(choices=[INT_MAX, 0, -1])), ('long', Long(choices=[LONG_MAX, 0, -1]))):
    LC('m.copysign', signed, dict(mag=_T, sign=_T), _T, suffix=_n, pre=lambda mag, sign, _lo=_T.LO: Not(mag == _lo))
LC('m.signum', lambda x: 0 if IsNan(x) else If(x > 0, 1, If(x < 0, -1, 0)), ret=Int())
LC('m.floor', lambda x: x if special(x) else Real(Floor(x)))
LC('m.ceil', lambda x: x if special(x) else Real(If(Floor(x) == x, Floor(x), Floor(x) + 1)))


def nearest(x):
    """the nearest integer; of two equally near ones the even one"""
    if special(x):
        return x
    f = Floor(x)
    d = x - f
    return Real(If(d < 0.5, f, If(d > 0.5, f + 1, f + f % 2)))


LC('m.rint', nearest)


def rounded(lo, hi, code):
    def spec(x):
        if special(x):
            return Raise(code)
        out = Floor(x + 0.5)
        if Or(out < lo, out > hi):
            return Raise(code)
        return out
    return spec


BIG = [2147483647.0, 2147483646.5, 2147483647.5, -2147483648.0, -2147483648.5, -2147483648.75, 0.5, -0.5, 2.5, -2.5, 9.3e18, -9.3e18]
LC('m.round', rounded(INT_MIN, INT_MAX, 27190), dict(x=Flt(special=True, choices=BIG)), Int(), suffix='float')
LC('m.round', rounded(LONG_MIN, LONG_MAX, 27191), dict(x=Dbl(special=True, choices=BIG)), Long(), suffix='double')

# -- functions defined everywhere but possibly overflowing
for _n, _neg in (('exp', 0.0), ('cosh', INF), ('sinh', NINF)):
    def ovf(x, _n=_n):
        if special(x):
            return getattr(math, _n)(x)
        if Overflows(_n, x):
            return NINF if _n == 'sinh' and x <= 0 else INF
        return UFR(_n, x)
    LC('m.' + _n, ovf, overflowing=(_n,))


def expm1(x):
    if special(x):
        return math.expm1(x)
    if Overflows('exp', x):
        return INF
    return UFR('exp', x) - 1.0


LC('m.expm1', expm1, overflowing=('exp', 'expm1'), tol=1e-6)


def hyp(x, y):
    if IsInf(x) or IsInf(y):
        return INF
    if IsNan(x) or IsNan(y):
        return NAN
    if not symbolic():
        return math.hypot(x, y)
    return Pred(lambda out: {'not negative': out >= 0, 'square is the sum of the squares': Eq(out * out, x * x + y * y)})


LC('m.hypot', hyp, dict(x=X, y=X))

# -- functions with a domain
for _n in ('acos', 'asin'):
    LC('m.' + _n, lambda x, _n=_n: NAN if special(x) or Or(x < -1, x > 1) else UFR(_n, x))
for _n in ('sin', 'cos', 'tan'):
    LC('m.' + _n, lambda x, _n=_n: NAN if special(x) else UFR(_n, x))
for _n in ('atan', 'tanh'):
    LC('m.' + _n, lambda x, _n=_n: getattr(math, _n)(x) if special(x) else UFR(_n, x))


def log(f):
    def spec(x):
        if IsNan(x):
            return NAN
        if x < 0:
            return NAN
        if x == 0:
            return NINF
        return INF if IsInf(x) else f(x)
    return spec


LC('m.ln', log(lambda x: UFR('log', x)))
LC('m.log10', log(lambda x: UFR('log10', x)))


def ln1p(x):
    if IsNan(x):
        return NAN
    if x < -1:
        return NAN
    if x == -1:
        return NINF
    return INF if IsInf(x) else UFR('log', x + 1.0)


LC('m.ln1p', ln1p)


def logbase(x, base):
    if base <= 0:
        return Raise(27170)
    if IsNan(x):
        return NAN
    if x < 0:
        return NAN
    if x == 0:
        return NINF
    if base == 1:
        return If(x < 1, NINF, INF) if not symbolic() and x != 1 else (NINF if x < 1 else NAN if x == 1 else INF)
    return UFR('log', x, base)


LC('m.log', logbase, dict(x=X, base=Int(choices=[0, -1, 1, 2, 10])))


def root(x):
    if IsNan(x) or x < 0:
        return NAN
    if IsInf(x):
        return INF
    return Pred(lambda out: {'not negative': out >= 0, 'square': Eq(out * out, x)})


LC('m.sqrt', root)
LC('m.atan2', lambda y, x: NAN if IsNan(y) or IsNan(x) else UFR('atan2', y, x), dict(y=X, x=X))

# -- lib/impute.py
for _n, _T in (('float', Flt(special=True)), ('double', Dbl(special=True))):
    LC('impute.isnan', lambda x: IsNan(x), dict(x=_T), Bool(), suffix=_n)
    LC('impute.isinf', lambda x: IsInf(x), dict(x=_T), Bool(), suffix=_n)
    LC('impute.isnum', lambda x: not special(x), dict(x=_T), Bool(), suffix=_n)
    LC('impute.errorOnNonNum', lambda x: Raise(21050) if IsNan(x) else (Raise(21051) if x > 0 else Raise(21052)) if IsInf(x) else x, dict(x=_T), _T, suffix=_n)
    LC('impute.defaultOnNonNum', lambda x, default: default if special(x) else x, dict(x=_T, default=_T), _T, suffix=_n)
