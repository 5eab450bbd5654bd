"""P09: array access, slicing and editing."""
from vc.contract import LibContract, FnContract
from vc.ptypes import *
from vc.spec import *
from vc.engine import Inv
from contracts.common import *

A = W('A')
AA = Arr(A)
P = 'P09'


def subseq(a, start, end):
    lo, hi = clamp(Len(a), start, end)
    return Seq(hi - lo, lambda i: at(a, lo + i))


def LC(name, params, spec, **kw):
    return LibContract(name, P, params, spec, **kw)


LC('a.len', dict(a=AA), lambda a: Len(a), ret=Int())
LC('a.subseq', dict(a=AA, start=Int(), end=Int()), subseq, ret=AA)


def head(a):
    if Len(a) == 0:
        return Raise(15020)
    return at(a, 0)


LC('a.head', dict(a=AA), head, ret=A)


def tail(a):
    if Len(a) == 0:
        return Raise(15030)
    return Seq(Len(a) - 1, lambda i: at(a, i + 1))


LC('a.tail', dict(a=AA), tail, ret=AA)


def last(a):
    if Len(a) == 0:
        return Raise(15040)
    return at(a, Len(a) - 1)


LC('a.last', dict(a=AA), last, ret=A)


def init(a):
    if Len(a) == 0:
        return Raise(15050)
    return Seq(Len(a) - 1, lambda i: at(a, i))


LC('a.init', dict(a=AA), init, ret=AA)


def subseqto(a, start, end, replacement):
    lo, hi = clamp(Len(a), start, end)
    return splice(a, lo, hi, replacement, Len(replacement))


LC('a.subseqto', dict(a=AA, start=Int(), end=Int(), replacement=AA), subseqto, ret=AA)
LC('a.concat', dict(a=AA, b=AA), lambda a, b: splice(a, Len(a), Len(a), b, Len(b)), ret=AA)
LC('a.append', dict(a=AA, item=A), lambda a, item: splice(a, Len(a), Len(a), [item], 1), ret=AA)


def cycle(a, item, maxLength):
    if maxLength < 0:
        return Raise(15150)
    n = Len(a) + 1
    m = Min2(n, maxLength)
    return Seq(m, lambda i: If3(n - m + i, Len(a), n, lambda: at(a, n - m + i), lambda: item, lambda: item))


LC('a.cycle', dict(a=AA, item=A, maxLength=Int()), cycle, ret=AA)


def index_of(a, index, code):
    i = If(index < 0, Len(a) + index, index)
    return i, Or(i < 0, i >= Len(a))


def insert(a, index, item):
    i, bad = index_of(a, index, 15160)
    if bad:
        return Raise(15160)
    return splice(a, i, i, [item], 1)


def replace(a, index, item):
    i, bad = index_of(a, index, 15170)
    if bad:
        return Raise(15170)
    return splice(a, i, i + 1, [item], 1)


def remove1(a, index):
    i, bad = index_of(a, index, 15180)
    if bad:
        return Raise(15180)
    return splice(a, i, i + 1, [], 0)


def remove2(a, start, end):
    lo, hi = clamp(Len(a), start, end)
    return splice(a, lo, hi, [], 0)


LC('a.insert', dict(a=AA, index=Int(), item=A), insert, ret=AA)
LC('a.replace', dict(a=AA, index=Int(), item=A), replace, ret=AA)


def kept(a, lo, hi):
    """the items of the first k that are outside lo..hi"""
    return [Inv('kept so far', lambda k: Cat(Slice(a, 0, Min2(k, lo)), Slice(a, hi, Max2(k, hi))), kinds=('list',), defn=True)]


LC('a.remove', dict(a=AA, index=Int()), remove1, ret=AA, suffix='index', inv=lambda a, index: kept(a, *[If(index >= 0, index, Len(a) + index) + i for i in (0, 1)]))
LC('a.remove', dict(a=AA, start=Int(), end=Int()), remove2, ret=AA, suffix='range', inv=lambda a, start, end: kept(a, *clamp(Len(a), start, end)))


def rotate(a, steps):
    if steps < 0:
        return Raise(15190)
    n = Len(a)
    if n == 0:
        return a
    return Seq(n, lambda i: at(a, (i + steps) % n))


LC('a.rotate', dict(a=AA, steps=Int()), rotate, ret=AA)
LC('a.reverse', dict(a=AA), lambda a: Seq(Len(a), lambda i: at(a, Len(a) - 1 - i)), ret=AA)
