"""Specification vocabulary.  Every function works on symbolic values (during
verification) and on plain Python values (when the same contract is used as a
run-time oracle on the real code)."""
import math

import z3

from vc import sym
from vc.sym import (SBool, SInt, SReal, SSeq, LList, LDict, Sym, SMap, mkbool, num_term, toseq, tz, veq, vite, zand,
                    zbool, zimp, znot, zor, isspecial)


class Raise(object):
    """expected outcome: a PFA run-time error with this code (or one of these)"""

    def __init__(self, code, exc=None):
        self.code = code
        self.exc = exc

    def __repr__(self):
        return "Raise(%r)" % (self.code,)


class Any(object):
    """expected outcome: anything (the statement does not constrain this case)"""


ANY = Any()


class Pred(object):
    """expected outcome: a normal return whose value satisfies fn"""

    def __init__(self, fn, what=""):
        self.fn = fn
        self.what = what


class Assume(Exception):
    """raised by a specification to discard an input outside the precondition"""


def symbolic():
    return sym.CUR[0] is not None


def require(c):
    if isinstance(c, SBool):
        sym.engine().assume(c.t)
    elif not c:
        if symbolic():
            sym.engine().assume(False)
        raise Assume()


def And(*xs):
    if any(isinstance(x, SBool) for x in xs):
        return mkbool(zand(*[zbool(x) for x in xs]))
    return all(xs)


def Or(*xs):
    if any(isinstance(x, SBool) for x in xs):
        return mkbool(zor(*[zbool(x) for x in xs]))
    return any(xs)


def Not(x):
    if isinstance(x, SBool):
        return mkbool(znot(x.t))
    return not x


def Implies(a, b):
    if a is False:
        return True
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return mkbool(veq(a if isinstance(a, SBool) else bool(a), b if isinstance(b, SBool) else bool(b)))
    return bool(a) == bool(b)


def If(c, a, b):
    if isinstance(c, SBool):
        return vite(c.t, a, b)
    return a if c else b


class _NoVal(object):
    pass


NOVAL = _NoVal()     # a value no value equals


def Eq(a, b):
    if a is NOVAL or b is NOVAL:
        return False
    if symbolic():
        return mkbool(veq(a, b))
    return close(a, b)


def Len(a):
    if isinstance(a, LList):
        return a._seq.n
    if isinstance(a, LDict):
        return sym.engine().map_len(a._m)
    if isinstance(a, sym.SStr):
        return sym.str_len(a)
    if isinstance(a, SSeq):
        return a.n
    return len(a)


def ForAll(lo, hi, fn):
    """for all lo <= i < hi: fn(i)"""
    if not symbolic():
        return all(fn(i) for i in range(lo, hi))
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
        return And(*[fn(i) for i in range(lo, hi)]) if hi > lo else True
    e = sym.engine()
    if e.inspec and not e.ctx:
        e.ghost_alls.append((lo, hi, fn))
    j = z3.Int(e.freshname('q'))
    rng = z3.And(num_term(lo) <= j, j < num_term(hi))
    with e.noforking(rng, [j]):
        body = zbool(fn(SInt(j)))
    if body is True:
        return True
    return mkbool(z3.ForAll([j], z3.Implies(rng, tz(body))))


def Exists(lo, hi, fn):
    return Not(ForAll(lo, hi, lambda i: Not(fn(i))))


def ForAllKeys(m, fn, kk=None):
    """for all keys k (present or not): fn(k)"""
    if not symbolic():
        return all(fn(k) for k in m)
    e = sym.engine()
    mm = sym.tomap(m)
    if e.inspec and not e.ctx and mm.keyseq is not None and mm.idx is not None:
        e.ghost_keyalls.append((mm, fn, kk or mm.kk))
    kv = z3.Const(e.freshname('qk'), sym.kind_sort(kk or mm.kk))
    K = sym.wrap(kk or mm.kk, kv)
    with e.noforking(z3.BoolVal(True), [kv]):
        body = zbool(fn(K))
    return mkbool(z3.ForAll([kv], tz(body)))


def Seq(n, fn, kind=None):
    """the sequence [fn(0), ..., fn(n-1)]"""
    if not symbolic():
        return [fn(i) for i in range(n)]
    if isinstance(n, int):
        return LList([fn(i) for i in range(n)], frozen=True)
    r = LList(SSeq(n, fn, kind=kind), frozen=True, label='spec')
    sym.engine().add_ghost_seq(r)
    return r


class FoldObj(object):
    """acc(0) = init ; acc(i+1) = step(acc(i), i)"""

    def __init__(self, kind, n, init, step, name):
        e = sym.engine()
        self.kind = kind
        self.n = n
        self.init = init
        self.step = step
        self.base = e.freshname(name)
        self.done = {}
        e.ghosts.append(self)

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.init
        v = sym.int_val(num_term(k))
        if v == 0:
            return self.init
        return sym.fresh_named(self.kind, self.base, (num_term(k),))

    def unfold(self, k):
        """assume the defining equation of acc(k+1)"""
        e = sym.engine()
        kt = z3.simplify(num_term(k))
        key = str(kt)
        if key in self.done.get(e.pathid, ()):
            return
        self.done.setdefault(e.pathid, set()).add(key)
        a0 = sym.fresh_named(self.kind, self.base, (z3.IntVal(0),))
        e.assume(veq(a0, self.init))
        e.assume(veq(sym.fresh_named(self.kind, self.base, (num_term(k) + 1,)), self.step(self.at(k), k)))


def Fold(kind, n, init, step, name='fold'):
    if not symbolic():
        acc = init
        for i in range(n):
            acc = step(acc, i)
        return acc
    if isinstance(n, int):
        acc = init
        for i in range(n):
            acc = step(acc, i)
        return acc
    if isinstance(init, list):
        init = LList(init, frozen=True)
        if isinstance(kind, tuple) and kind[0] == 'list':
            init._seq.kind = kind[1]
    if isinstance(init, dict):
        init = LDict(init, frozen=True)
    f = FoldObj(kind, n, init, step, name)
    e = sym.engine()
    a0 = sym.fresh_named(kind, f.base, (z3.IntVal(0),))
    e.assume(veq(a0, init))
    f.final = f.at(n)
    return f.final


class FoldFam(object):
    """one fold per outer index i: acc(i, 0) = init(i) ; acc(i, j+1) = step(acc(i, j), i, j)"""

    def __init__(self, kind, n, init, step):
        e = sym.engine()
        self.kind, self.n, self.init, self.step = kind, n, init, step
        self.base = e.freshname('foldfam')
        self.done = {}
        e.ghost_fams.append(self)

    def __call__(self, i):
        return self.at(i, self.n(i))

    def at(self, i, k):
        if isinstance(k, int) and k == 0 or sym.int_val(num_term(k)) == 0:
            return self.init(i)
        return sym.fresh_named(self.kind, self.base, (num_term(i), num_term(k)))

    def unfold(self, i, k):
        e = sym.engine()
        key = str(z3.simplify(num_term(i))) + '|' + str(z3.simplify(num_term(k)))
        if key in self.done.get(e.pathid, ()):
            return
        self.done.setdefault(e.pathid, set()).add(key)
        e.assume(veq(sym.fresh_named(self.kind, self.base, (num_term(i), z3.IntVal(0))), self.init(i)))
        e.assume(veq(sym.fresh_named(self.kind, self.base, (num_term(i), num_term(k) + 1)), self.step(self.at(i, k), i, k)))


def Folds(kind, n, init, step):
    """the function i -> fold of step(., i, j) over 0 <= j < n(i), starting from init(i)"""
    if not symbolic():
        def f(i):
            acc = init(i)
            for j in range(n(i)):
                acc = step(acc, i, j)
            return acc
        return f
    return FoldFam(kind, n, init, step)


def Has(m, k):
    if symbolic():
        return mkbool(sym.tomap(m).has(k))
    return k in m


def Get(m, k):
    if symbolic():
        mm = sym.tomap(m)
        return NOVAL if mm.items == {} else mm.get(k)
    return m.get(k)


def Map(has, get, like, universe=()):
    """the finite map {k: get(k) | has(k)}; concretely k ranges over `universe` (iterables of keys)"""
    if not symbolic():
        out = {}
        for u in universe:
            for k in u:
                if has(k):
                    out[k] = get(k)
        return out
    mm = sym.tomap(like)
    r = SMap(lambda k: zbool(has(k)), get, None, None, kk=mm.kk, vk=None)
    e = sym.engine()
    if e.inspec and not e.ctx:
        e.ghost_maps.append(r)
    return LDict(r, frozen=True, label='spec')


def Cmp(x, y):
    """PFA total order: -1, 0, 1"""
    if symbolic():
        a, b = sym.rank_of(x), sym.rank_of(y)
        return SInt(z3.If(a < b, z3.IntVal(-1), z3.If(a > b, z3.IntVal(1), z3.IntVal(0))))
    return -1 if x < y else (1 if x > y else 0)


def Lt(x, y):
    if symbolic():
        return mkbool(sym.rank_of(x) < sym.rank_of(y))
    return x < y


def Max2(a, b):
    return If(a >= b, a, b)


def Min2(a, b):
    return If(a <= b, a, b)


def Abs(a):
    return abs(a)


def UFR(name, *args):
    """an uninterpreted real function (used for libm functions); concretely the Python math function"""
    if symbolic() and any(isinstance(a, Sym) for a in args):
        if any(sym.isspecial(a) for a in args):
            from vc.pymodels import special_name
            return UFR(special_name(name, args), *[a for a in args if not sym.isspecial(a)])
        return SReal(sym.uf(name, *([sym.RealS] * (len(args) + 1)))(*[sym.toreal(a) for a in args]))
    return getattr(math, name)(*args)


def Overflows(name, x):
    """computing math.<name>(x) raises OverflowError"""
    if symbolic() and isinstance(x, Sym):
        return mkbool(sym.uf('overflow.' + name, sym.RealS, sym.BoolS)(sym.toreal(x)))
    try:
        getattr(math, name)(x)
    except OverflowError:
        return True
    return False


def Real(x):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.t))
    if isinstance(x, SReal):
        return x
    return float(x)


def Trunc(x):
    if isinstance(x, SReal):
        return SInt(sym.trunc_term(x.t))
    if isinstance(x, SInt):
        return x
    return int(x)


def Floor(x):
    if isinstance(x, SReal):
        return SInt(z3.ToInt(x.t))
    if isinstance(x, SInt):
        return x
    return int(math.floor(x))


def IsNan(x):
    return isinstance(x, float) and math.isnan(x)


def IsInf(x):
    return isinstance(x, float) and math.isinf(x)


def close(a, b, tol=1e-9):
    """run-time equality of results; floats up to rounding"""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        try:
            a, b = float(a), float(b)
        except OverflowError:
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if type(a) is not type(b):
        return False
    return a == b


def PowRaises(x, y):
    """computing x ** y as doubles raises OverflowError"""
    if symbolic():
        e = sym.engine()
        a, b = sym.toreal(x), sym.toreal(y)
        ov = sym.uf('pow_overflow', sym.RealS, sym.RealS, sym.BoolS)(a, b)
        ab = z3.If(a < 0, -a, a)
        e.assume(z3.Implies(ov, z3.And(a != 0, ab != 1, z3.Or(b >= 1, b <= -1))))
        return mkbool(ov)
    try:
        math.pow(x, y)
        return False
    except OverflowError:
        return True
    except ValueError:
        return False


def bits(op, x, y):
    if symbolic():
        return sym.bitop(op, x, y)
    return {'&': x & y, '|': x | y, '^': x ^ y}[op]


def permutation(s):
    """an arbitrary permutation of a sequence"""
    e = sym.engine()
    n = num_term(s.n)
    base = e.freshname('perm')
    p, q = sym.uf(base, sym.IntS, sym.IntS), sym.uf(base + '.inv', sym.IntS, sym.IntS)
    i = z3.Int(e.freshname('si'))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    return SSeq(s.n, lambda i: s.at(SInt(p(num_term(i)))), kind=s.kind)
