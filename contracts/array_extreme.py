"""P11: extreme values of arrays, sorting and simple statistics of arrays."""
import functools
import math
from functools import cmp_to_key
from contracts.common import *

A = W('A')
AA = Arr(A)
P = 'P11'
LT = LtFn(A)


def LC(name, params, spec, **kw):
    return LibContract('a.' + name, P, params, spec, **kw)


def best(a, n, lt, kind=A.kind()):
    """the first n of a in decreasing order (of lt), items that compare equal in their original order"""
    if not symbolic():
        return [a[i] for i in argbest(a, n, lt)]

    def step(acc, i):
        x = at(a, i)
        j = First(Len(acc), lambda j: lt(at(acc, j), x))
        return Slice(splice(acc, j, j, [x], 1), 0, n)
    return Fold(('list', kind), Len(a), [], step)


def argbest(a, n, lt):
    return sorted(range(len(a)), key=cmp_to_key(lambda i, j: -1 if lt(a[j], a[i]) else 1 if lt(a[i], a[j]) else i - j))[:n]


def flip(lt):
    return lambda x, y: lt(y, x)


def shape(a, n):
    return [Inv('length', lambda k, out: Len(out) == Min2(n, k), kinds=('list',)), ]


def inner(a, lt):
    return [Inv('none before', lambda k, ks: ForAll(0, k, lambda j: Not(lt(at(ghost(0, ks[0]), j), at(a, ks[0])))), level=1, outer=True)]


for _name, _code, _dir in (('max', 15240, 1), ('min', 15250, -1)):
    _d = (lambda lt: lt) if _dir == 1 else flip
    _c = _code

    def one(a, lessThan=Lt, d=_d, code=_code, plus=0):
        if Len(a) == 0:
            return Raise(code + plus)
        return at(best(a, 1, d(lessThan)), 0)

    def many(a, n, lessThan=Lt, d=_d, code=_code, plus=40):
        if Len(a) == 0:
            return Raise(code + plus)
        if n < 0:
            return Raise(code + plus + 1)
        return best(a, n, d(lessThan))

    def inv1(a, n=1, lessThan=Lt, d=_d):
        return shape(a, n) + inner(a, d(lessThan))
        LC(_name, dict(a=AA), one, ret=A, inv=inv1)
    LC(_name + 'LT', dict(a=AA, lessThan=LT), functools.partial(one, plus=20), ret=A, inv=inv1)
    LC(_name + 'N', dict(a=AA, n=Int()), many, ret=AA, inv=inv1)
    LC(_name + 'NLT', dict(a=AA, n=Int(), lessThan=LT), functools.partial(many, plus=60), ret=AA, inv=inv1)


def argstep(a, n, lt):
    def step(acc, i):
        x = at(a, i)
        j = First(Len(acc), lambda j: lt(at(a, at(acc, j)), x))
        return Slice(splice(acc, j, j, [i], 1), 0, n)
    return step


def arg(a, n, lt):
    if not symbolic():
        return argbest(a, n, lt)
    return Fold(('list', 'int'), Len(a), [], argstep(a, n, lt))


def pairs(a):
    def pair(k):
        g = ghost(0, k)
        return Seq(Len(g), lambda j: (at(g, j), at(a, at(g, j))))
    return Inv('indexes and items', pair, kinds=('list',), level=0, defn=True)


def argin(a, n):
    return [Inv('indexes', lambda k: And(Len(ghost(0, k)) == Min2(n, k), ForAll(0, Len(ghost(0, k)), lambda j: And(at(ghost(0, k), j) >= 0, at(ghost(0, k), j) < k))), level=0)]


for _name, _code, _dir in (('argmax', 15320, 1), ('argmin', 15330, -1)):
    _d = (lambda lt: lt) if _dir == 1 else flip

    def argone(a, lessThan=Lt, d=_d, code=_code, plus=0):
        if Len(a) == 0:
            return Raise(code + plus)
        return at(arg(a, 1, d(lessThan)), 0)

    def argmany(a, n, lessThan=Lt, d=_d, code=_code, plus=40):
        if Len(a) == 0:
            return Raise(code + plus)
        if n < 0:
            return Raise(code + plus + 1)
        return arg(a, n, d(lessThan))

    def inv2(a, n=1, lessThan=Lt, d=_d):
        lt = d(lessThan)
        return argin(a, n) + [pairs(a), Inv('none before', lambda k, ks: ForAll(0, k, lambda j: Not(lt(at(a, at(ghost(0, ks[0]), j)), at(a, ks[0])))), level=1, outer=True)]
    LC(_name, dict(a=AA), argone, ret=Int(), inv=inv2)
    LC(_name + 'LT', dict(a=AA, lessThan=LT), functools.partial(argone, plus=20), ret=Int(), inv=inv2)
    LC(_name + 'N', dict(a=AA, n=Int()), argmany, ret=Arr(Int()), inv=inv2)
    LC(_name + 'NLT', dict(a=AA, n=Int(), lessThan=LT), functools.partial(argmany, plus=60), ret=Arr(Int()), inv=inv2)

# ------------------------------------------------------------------ reordering
LC('sort', dict(a=AA), lambda a: Sorted(a), ret=AA)
LC('sortLT', dict(a=AA, lessThan=LT), lambda a, lessThan: Sorted(a, lessThan), ret=AA)


def shuffled(a):
    def ok(out):
        r = {'as many items': Len(out) == Len(a), 'only items of the array': subset(out, a), 'every item of the array': subset(a, out)}
        if not symbolic():
            r['each as often'] = all(sum(close(x, y) for y in out) == sum(close(x, y) for y in a) for x in a)
        return r
    return Pred(ok)


def subset(a, b):
    return ForAll(0, Len(a), lambda i: In(at(a, i), b))


LC('shuffle', dict(a=AA), shuffled, ret=AA)

# ------------------------------------------------------------------ numbers
I, L, D, F = Int(), Long(), Dbl(), Flt()
for _t, _lab, _lo, _hi, _plus in ((I, 'int', -2**31, 2**31 - 1, 0), (L, 'long', -2**63, 2**63 - 1, 1), (D, 'double', None, None, 0), (F, 'float', None, None, 0)):
    def total(a, lo=_lo, hi=_hi, plus=_plus, t=_t):
        s = Fold(t.kind(), Len(a), 0 if lo is not None else 0.0, lambda acc, i: acc + at(a, i))
        if lo is not None and Or(s < lo, s > hi):
            return Raise(15400 + plus)
        return s

    def prod(a, lo=_lo, hi=_hi, plus=_plus, t=_t):
        s = Fold(t.kind(), Len(a), 1 if lo is not None else 1.0, lambda acc, i: acc * at(a, i))
        if lo is not None and Or(s < lo, s > hi):
            return Raise(15410 + plus)
        return s
    LC('sum', dict(a=Arr(_t)), total, ret=_t, suffix=_lab)
    LC('product', dict(a=Arr(_t)), prod, ret=_t, suffix=_lab)

AD = Arr(D)
PD = Arr(Dbl(lo=0.001))
NAN = float('nan')


def mean(a):
    if Len(a) == 0:
        return NAN
    return Fold('real', Len(a), 0.0, lambda acc, i: acc + at(a, i)) / Real(Len(a))


def geomean(a):
    if Len(a) == 0:
        return NAN
    p = Fold('real', Len(a), 1.0, lambda acc, i: acc * at(a, i))
    return Power(p, 1.0 / Real(Len(a)))


def Power(x, y):
    return sym.engine().hook_state['ip'].binop('**', x, y) if symbolic() else x ** y


LC('mean', dict(a=AD), mean, ret=D)
LC('geomean', dict(a=PD), geomean, ret=D)
LC('lnsum', dict(a=PD), lambda a: Fold('real', Len(a), 0.0, lambda acc, i: acc + UFR('log', at(a, i))), ret=D)


def median(avg):
    def spec(a):
        n = Len(a)
        if n == 0:
            return Raise(15450)
        s = Sorted(a)
        h = n // 2
        if n % 2 == 1:
            return at(s, h)
        if avg or not symbolic() and isinstance(a[0], float):
            return (at(s, h - 1) + at(s, h)) / 2.0
        return at(s, h - 1)
    return spec


def ntile(avg, kind):
    def spec(a, p):
        n = Len(a)
        if n == 0:
            return Raise(15460)
        if IsNan(p):
            return Raise(15461)
        if p <= 0.0:
            return at(best(a, 1, flip(Lt), kind), 0)
        if p >= 1.0:
            return at(best(a, 1, Lt, kind), 0)
        s = Sorted(a)
        x = (Real(n) - 1.0) * p
        f = Floor(x)
        if avg or not symbolic() and isinstance(a[0], float):
            if Eq(Real(f), x):
                return at(s, f)
            return at(s, f) + (at(s, f + 1) - at(s, f)) * (x - Real(f))
        return at(s, f)
    return spec


def ninv(a, p):
    return shape(a, 1) + [Inv('none before', lambda k, ks: ForAll(0, k, lambda j: Not(Lt(at(a, ks[0]), at(ghost(0, ks[0]), j)))), level=1, outer=True),
                          Inv('none above', lambda k, ks: ForAll(0, k, lambda j: Not(Lt(at(ghost(0, ks[0]), j), at(a, ks[0])))), level=1, outer=True)]


for _t, _lab in ((A, 'any'), (I, 'int'), (D, 'double')):
    LC('median', dict(a=Arr(_t)), median(_t is D), ret=_t, suffix=_lab)
    LC('ntile', dict(a=Arr(_t), p=Dbl(special=True, choices=[0.0, 0.25, 0.5, 0.75, 1.0, -0.5, 1.5])), ntile(_t is D, _t.kind()), ret=_t, suffix=_lab, inv=ninv)
