"""Shared specification helpers."""
from vc.contract import LibContract, FnContract
from vc.engine import Inv
from vc.ptypes import *
from vc.spec import *


def clamp(n, start, end):
    """PFA slice bounds: negative counts from the end, clamped into [0, n], empty when end < start"""
    lo = If(start >= 0, start, n + start)
    lo = Max2(0, Min2(lo, n))
    hi = If(end >= 0, end, n + end)
    hi = Max2(0, Min2(hi, n))
    return lo, Max2(lo, hi)


def splice(a, lo, hi, mid, m):
    """a[:lo] + mid + a[hi:], written element by element"""
    n = Len(a)
    return Seq(lo + m + (n - hi), lambda i: If3(i, lo, lo if isinstance(m, int) and m == 0 else lo + m, lambda: at(a, i), lambda: at(mid, i - lo), lambda: at(a, hi + (i - lo - m))))


def at(a, i):
    if symbolic():
        s = toseq(a)
        if s.items is not None and not s.items:
            return None
        return s.at(i)
    return a[i] if 0 <= i < len(a) else None


def If3(i, x, y, f, g, h):
    if symbolic():
        if x is y:
            return If(i < x, f(), h())
        return If(i < x, f(), If(i < y, g(), h()))
    return f() if i < x else (g() if i < y else h())




def App(a, *items):
    """a followed by items"""
    if symbolic():
        return LList(toseq(a).concat(SSeq.of(items)), frozen=True)
    return a + list(items)


def Cat(a, b):
    if symbolic():
        return LList(toseq(a).concat(toseq(b)), frozen=True)
    return a + b


def Slice(a, lo, hi):
    if symbolic():
        return LList(toseq(a).slice(lo, hi), frozen=True)
    return a[lo:hi]


def In(x, a):
    """x occurs in the array a"""
    if symbolic():
        return Exists(0, Len(a), lambda i: Eq(at(a, i), x))
    return any(close(y, x) for y in a)


def First(n, p):
    """the least i < n with p(i), or n"""
    if symbolic():
        e = sym.engine()
        r = sym.fresh('int', 'first')
        e.assume(sym.z3.And(r.t >= 0, r.t <= num_term(n)))
        e.assume(zbool(ForAll(0, r, lambda i: Not(p(i)))))
        e.assume(zbool(Or(r == n, guarded(r, n, p))))
        return r
    for i in range(n):
        if p(i):
            return i
    return n


def guarded(i, n, p):
    with sym.engine().noforking(num_term(i) < num_term(n)):
        return p(i)


def Last(n, p):
    """the greatest i < n with p(i), or -1"""
    if symbolic():
        e = sym.engine()
        r = sym.fresh('int', 'last')
        if e.inspec and not e.ctx:
            e.ghost_alls.append((0, n, lambda i: Not(p(i))))
        e.assume(sym.z3.And(r.t >= -1, r.t < num_term(n)))
        e.assume(zbool(ForAll(r + 1, n, lambda i: Not(p(i)))))
        with e.noforking(r.t >= 0):
            pr = p(r)
        e.assume(zbool(Or(r == -1, pr)))
        return r
    for i in range(n - 1, -1, -1):
        if p(i):
            return i
    return -1


def before(p):
    """loop-invariant candidate: p fails for every completed iteration"""
    return Inv('none so far', lambda k: ForAll(0, k, lambda i: Not(p(i))))


def ghost(i, k):
    """the i-th fold of the specification after k steps"""
    return sym.engine().ghosts[i].at(k)


def sofar(p, name='all so far'):
    return Inv(name, lambda k: ForAll(0, k, p))


from vc import sym  # noqa: E402
from vc.sym import SSeq, LList, LDict, toseq, num_term, zbool  # noqa: E402


def keyindex(m, k):
    """position of key k in the iteration order of the map m"""
    return sym.tomap(m).idx(k)


def Sorted(a, lt=None):
    """a in increasing order, items that compare equal in their original order"""
    lt = lt or Lt
    if not symbolic():
        from functools import cmp_to_key
        return sorted(a, key=cmp_to_key(lambda x, y: -1 if lt(x, y) else 1 if lt(y, x) else 0))
    from vc import interp, pymodels

    class Order(sym.SFn):
        def __call__(self, x, y):
            return If(lt(x, y), -1, If(lt(y, x), 1, 0))
    return pymodels.sorted_seq(sym.engine().hook_state['ip'], toseq(a), interp.Cmpkey(Order('order', None, 'int')), False)


class UnionFn(Fn):
    """a pure callback whose result is of type union(ret, null), wrapped in its tag (`tagged`) or bare"""

    def make(self, e, name):
        return self.mk(e, name, True)

    def mk(self, e, name, tagged):
        some = SFn(e.freshname(name + '.some'), [a.kind() for a in self.args], 'bool')
        val = SFn(e.freshname(name), [a.kind() for a in self.args], self.ret.kind())
        return UnionSFn(some, val, self.tag(None) if tagged else None)

    def tag(self, env):
        t = self.ret.jsontype(env)
        return t['name'] if isinstance(t, dict) and 'name' in t else t['type'] if isinstance(t, dict) else t

    def variants(self):
        return [('tagged', lambda e, name: self.mk(e, name, True)), ('bare', lambda e, name: self.mk(e, name, False))]

    def jsontype(self, env=None):
        return {'type': 'function', 'params': [a.jsontype(env) for a in self.args], 'ret': [self.ret.jsontype(env), 'null']}

    def gen(self, env):
        f = Fn.gen(self, env)
        some = Fn(self.args, Bool()).gen(env)
        tag = self.tag(env) if env.rng.random() < 0.5 else None
        return UnionSFn(some, f, tag)


# a record whose fields have the names of its own type and of a primitive type: bare, it is not the tagged form of a union value
TAGLIKE = Rec('R', {'R': Int(), 'int': Int()})


class UnionSFn(sym.SFn):
    def __init__(self, some, val, tag):
        self.some, self.val, self.tag = some, val, tag
        self.name = getattr(val, 'name', 'fcn')

    def __call__(self, *args):
        if symbolic():
            e = sym.engine()
            if not e.branch(zbool(self.some(*args))):
                return None
            v = self.val(*args)
            return v if self.tag is None else LDict(sym.SMap(items={self.tag: v}))
        if not self.some(*args):
            return None
        v = self.val(*args)
        return v if self.tag is None else {self.tag: v}
