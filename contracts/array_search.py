"""P10: array search, functional and set-like operations."""
from contracts.common import *

A, B = W('A'), W('B')
AA = Arr(A)
BOOL = Bool()
P = 'P10'


def LC(name, params, spec, **kw):
    return LibContract(name, P, params, spec, **kw)


def match(h, nd):
    return lambda s: Eq(nd, Slice(h, s, s + Len(nd)))


def starts(h, nd):
    return Max2(Len(h) - Len(nd) + 1, 0)


F1 = Fn([A], BOOL)
ARR = dict(haystack=AA, needle=AA)
ELT = dict(haystack=AA, needle=A)
FCN = dict(haystack=AA, needle=F1)


def elt(h, x):
    return lambda i: Eq(x, at(h, i))


def pred(h, f):
    return lambda i: f(at(h, i))


LC('a.contains', ARR, lambda haystack, needle: Not(ForAll(0, starts(haystack, needle), lambda s: Not(match(haystack, needle)(s)))), ret=BOOL,
   suffix='array', inv=lambda haystack, needle: [before(match(haystack, needle))])
LC('a.contains', ELT, lambda haystack, needle: Exists(0, Len(haystack), elt(haystack, needle)), ret=BOOL, suffix='item')
LC('a.contains', FCN, lambda haystack, needle: Exists(0, Len(haystack), pred(haystack, needle)), ret=BOOL, suffix='fcn',
   inv=lambda haystack, needle: [before(pred(haystack, needle))])


def counting(n, p):
    return Fold('int', n, 0, lambda acc, i: acc + If(p(i), 1, 0))


LC('a.count', ARR, lambda haystack, needle: counting(If(Len(needle) == 0, 0, starts(haystack, needle)), match(haystack, needle)), ret=Int(), suffix='array')
LC('a.count', ELT, lambda haystack, needle: counting(Len(haystack), elt(haystack, needle)), ret=Int(), suffix='item')
LC('a.count', FCN, lambda haystack, needle: counting(Len(haystack), pred(haystack, needle)), ret=Int(), suffix='fcn')


def index(n, p):
    r = First(n, p)
    return If(r == n, -1, r)


LC('a.index', ARR, lambda haystack, needle: index(starts(haystack, needle), match(haystack, needle)), ret=Int(), suffix='array',
   inv=lambda haystack, needle: [before(match(haystack, needle))])
LC('a.index', ELT, lambda haystack, needle: index(Len(haystack), elt(haystack, needle)), ret=Int(), suffix='item')
LC('a.index', FCN, lambda haystack, needle: index(Len(haystack), pred(haystack, needle)), ret=Int(), suffix='fcn',
   inv=lambda haystack, needle: [before(pred(haystack, needle))])


def after(n, p):
    return Inv('none at the end', lambda k: ForAll(n - k, n, lambda i: Not(p(i))))


LC('a.rindex', ARR, lambda haystack, needle: Last(starts(haystack, needle), match(haystack, needle)), ret=Int(), suffix='array',
   inv=lambda haystack, needle: [after(starts(haystack, needle), match(haystack, needle))])
LC('a.rindex', ELT, lambda haystack, needle: Last(Len(haystack), elt(haystack, needle)), ret=Int(), suffix='item',
   inv=lambda haystack, needle: [after(Len(haystack), elt(haystack, needle))])
LC('a.rindex', FCN, lambda haystack, needle: Last(Len(haystack), pred(haystack, needle)), ret=Int(), suffix='fcn',
   inv=lambda haystack, needle: [after(Len(haystack), pred(haystack, needle))])


def startswith(haystack, needle):
    return And(Len(needle) <= Len(haystack), ForAll(0, Min2(Len(needle), Len(haystack)), lambda i: Eq(at(needle, i), at(haystack, i))))


def endswith(haystack, needle):
    d = Len(haystack) - Len(needle)
    if d < 0:
        return False
    return ForAll(0, Len(needle), lambda i: Eq(at(needle, i), at(haystack, d + i)))


def startsitem(haystack, needle):
    if Len(haystack) == 0:
        return False
    return Eq(at(haystack, 0), needle)


def endsitem(haystack, needle):
    if Len(haystack) == 0:
        return False
    return Eq(at(haystack, Len(haystack) - 1), needle)


LC('a.startswith', ARR, startswith, ret=BOOL, suffix='array')
LC('a.startswith', ELT, startsitem, ret=BOOL, suffix='item')
LC('a.endswith', ARR, endswith, ret=BOOL, suffix='array')
LC('a.endswith', ELT, endsitem, ret=BOOL, suffix='item')

# ------------------------------------------------------------------ functional
FB = Fn([A], B)
FIB = Fn([Int(), A], B)
FIP = Fn([Int(), A], BOOL)
LC('a.map', dict(a=AA, fcn=FB), lambda a, fcn: Seq(Len(a), lambda i: fcn(at(a, i))), ret=Arr(B))
LC('a.mapWithIndex', dict(a=AA, fcn=FIB), lambda a, fcn: Seq(Len(a), lambda i: fcn(i, at(a, i))), ret=Arr(B), inv=lambda a, fcn: inner(lambda i: fcn(i, at(a, i))))


def filtered(a, p):
    return Fold(('list', A.kind()), Len(a), [], lambda acc, i: If(p(i), App(acc, at(a, i)), acc))


LC('a.filter', dict(a=AA, fcn=F1), lambda a, fcn: filtered(a, lambda i: fcn(at(a, i))), ret=AA)
LC('a.filterWithIndex', dict(a=AA, fcn=FIP), lambda a, fcn: filtered(a, lambda i: fcn(i, at(a, i))), ret=AA)


def flatmapped(a, f):
    return Fold(('list', B.kind()), Len(a), [], lambda acc, i: Cat(acc, f(i)))




def inner(f):
    """the inner loop has appended the first k items of what the outer loop is at"""
    return [Inv('inner', lambda k, ks: Cat(ghost(0, ks[0]), Slice(f(ks[0]), 0, k)), kinds=('list',), level=1, outer=True, defn=True)]


LC('a.flatMap', dict(a=AA, fcn=Fn([A], Arr(B))), lambda a, fcn: flatmapped(a, lambda i: fcn(at(a, i))), ret=Arr(B), inv=lambda a, fcn: inner(lambda i: fcn(at(a, i))))
LC('a.flatMapWithIndex', dict(a=AA, fcn=Fn([Int(), A], Arr(B))), lambda a, fcn: flatmapped(a, lambda i: fcn(i, at(a, i))), ret=Arr(B), inv=lambda a, fcn: inner(lambda i: fcn(i, at(a, i))))
LC('a.flatten', dict(a=Arr(Arr(A))), lambda a: Fold(('list', A.kind()), Len(a), [], lambda acc, i: Cat(acc, at(a, i))), ret=AA,
   inv=lambda a: [Inv('inner', lambda k, ks: Cat(ghost(0, ks[0]), Slice(at(a, ks[0]), 0, k)), kinds=('list',), level=1, outer=True, defn=True)])


def zipmap(code, idx):
    def spec(fcn, **arrs):
        xs = list(arrs.values())
        n = Len(xs[0])
        for y in xs[1:]:
            if Len(y) != n:
                return Raise(code)
        return Seq(n, lambda i: fcn(*(([i] if idx else []) + [at(x, i) for x in xs])))
    return spec


for _n in (2, 3, 4):
    _arrs = [('abcd'[i], Arr(W('ABCD'[i]))) for i in range(_n)]
    _f = Fn([t.t for _, t in _arrs], W('Z'))
    _fi = Fn([Int()] + [t.t for _, t in _arrs], W('Z'))
    LC('a.zipmap', dict(_arrs + [('fcn', _f)]), zipmap(15650, False), ret=Arr(W('Z')), suffix=str(_n))
    LC('a.zipmapWithIndex', dict(_arrs + [('fcn', _fi)]), zipmap(15660, True), ret=Arr(W('Z')), suffix=str(_n))


def reduced(a, fcn):
    if Len(a) == 0:
        return Raise(15670)
    return Fold(A.kind(), Len(a) - 1, at(a, 0), lambda acc, i: fcn(acc, at(a, i + 1)))


def reduceright(a, fcn):
    n = Len(a)
    if n == 0:
        return Raise(15680)
    return Fold(A.kind(), n - 1, at(a, n - 1), lambda acc, i: fcn(at(a, n - 2 - i), acc))


FAA = Fn([A, A], A)
LC('a.reduce', dict(a=AA, fcn=FAA), reduced, ret=A)
LC('a.reduceRight', dict(a=AA, fcn=FAA), reduceright, ret=A)
LC('a.fold', dict(a=AA, zero=B, fcn=Fn([B, A], B)), lambda a, zero, fcn: Fold(B.kind(), Len(a), zero, lambda acc, i: fcn(acc, at(a, i))), ret=B)
LC('a.foldRight', dict(a=AA, zero=B, fcn=Fn([A, B], B)),
   lambda a, zero, fcn: Fold(B.kind(), Len(a), zero, lambda acc, i: fcn(at(a, Len(a) - 1 - i), acc)), ret=B)


def takewhile(a, fcn):
    r = First(Len(a), lambda i: Not(fcn(at(a, i))))
    return Slice(a, 0, r)


def dropwhile(a, fcn):
    r = First(Len(a), lambda i: Not(fcn(at(a, i))))
    return Slice(a, r, Len(a))


_tw = lambda a, fcn: [sofar(lambda i: fcn(at(a, i))),
                      Inv('prefix taken', lambda k, out: Eq(out, Slice(a, 0, k)), kinds=('list',)),
                      Inv('count', lambda k, c: c == k, kinds=('int',))]
LC('a.takeWhile', dict(a=AA, fcn=F1), takewhile, ret=AA, inv=_tw)
LC('a.dropWhile', dict(a=AA, fcn=F1), dropwhile, ret=AA, inv=_tw)
LC('a.any', dict(a=AA, fcn=F1), lambda a, fcn: Exists(0, Len(a), lambda i: fcn(at(a, i))), ret=BOOL, inv=lambda a, fcn: [before(lambda i: fcn(at(a, i)))])
LC('a.all', dict(a=AA, fcn=F1), lambda a, fcn: ForAll(0, Len(a), lambda i: fcn(at(a, i))), ret=BOOL, inv=lambda a, fcn: [sofar(lambda i: fcn(at(a, i)))])


def corresponds(p):
    def spec(a, b, fcn):
        if Len(a) != Len(b):
            return False
        return ForAll(0, Len(a), lambda i: p(fcn, i, at(a, i), at(b, i)))
    return spec


LC('a.corresponds', dict(a=AA, b=Arr(B), fcn=Fn([A, B], BOOL)), corresponds(lambda f, i, x, y: f(x, y)), ret=BOOL)
LC('a.correspondsWithIndex', dict(a=AA, b=Arr(B), fcn=Fn([Int(), A, B], BOOL)), corresponds(lambda f, i, x, y: f(i, x, y)), ret=BOOL)

# ------------------------------------------------------------------ sets
def subset(a, b):
    return ForAll(0, Len(a), lambda i: In(at(a, i), b))


AB = dict(a=AA, b=AA)


def sameitems(a, g=0):
    """what the fold has collected are the items seen so far"""
    return [Inv('only items seen', lambda k: ForAll(0, Len(ghost(g, k)), lambda j: Exists(0, k, lambda i: Eq(at(a, i), at(ghost(g, k), j))))),
            Inv('every item seen', lambda k: ForAll(0, k, lambda i: In(at(a, i), ghost(g, k))))]


LC('a.distinct', dict(a=AA), lambda a: Fold(('list', A.kind()), Len(a), [], lambda acc, i: If(In(at(a, i), acc), acc, App(acc, at(a, i)))), ret=AA, inv=sameitems)


LC('a.union', AB, lambda a, b: Fold(('list', A.kind()), Len(b), Fold(('list', A.kind()), Len(a), [], lambda acc, i: If(In(at(a, i), acc), acc, App(acc, at(a, i)))),
                                    lambda acc, i: If(In(at(b, i), acc), acc, App(acc, at(b, i)))), ret=AA)


LC('a.diff', AB, lambda a, b: Fold(('list', A.kind()), Len(a), [], lambda acc, i: If(In(at(a, i), b), acc, App(acc, at(a, i)))), ret=AA)
LC('a.symdiff', AB, lambda a, b: Fold(('list', A.kind()), Len(b), Fold(('list', A.kind()), Len(a), [], lambda acc, i: If(In(at(a, i), b), acc, App(acc, at(a, i)))),
                                      lambda acc, i: If(In(at(b, i), a), acc, App(acc, at(b, i)))), ret=AA)
LC('a.seteq', AB, lambda a, b: And(subset(a, b), subset(b, a)), ret=BOOL)
LC('a.subset', dict(little=AA, big=AA), lambda little, big: subset(little, big), ret=BOOL)
LC('a.disjoint', AB, lambda a, b: ForAll(0, Len(a), lambda i: Not(In(at(a, i), b))), ret=BOOL)


def slidingwindow(a, size, step):
    if size < 1:
        return Raise(15770)
    if step < 1:
        return Raise(15771)
    n = If(Len(a) >= size, (Len(a) - size) // step + 1, 0)
    return Seq(n, lambda i: Slice(a, i * step, i * step + size))


LC('a.slidingWindow', dict(a=AA, size=Int(), step=Int()), slidingwindow, ret=Arr(AA),
   inv=lambda a, size, step: [Inv('start', lambda k, i: i == k * step, kinds=('int',))])


def intersection(a, b):
    return Pred(lambda out: {'only common items': ForAll(0, Len(out), lambda i: And(In(at(out, i), a), In(at(out, i), b))),
                             'every common item': ForAll(0, Len(a), lambda i: Implies(In(at(a, i), b), In(at(a, i), out)))})


LC('a.intersection', AB, intersection, ret=AA, inv=lambda a, b: [
    Inv('only common items', lambda k, out: ForAll(0, Len(out), lambda i: And(In(at(out, i), a), In(at(out, i), b))), kinds=('list',)),
    Inv('every common item', lambda k, out: ForAll(0, k, lambda i: Implies(In(at(a, i), b), In(at(a, i), out))), kinds=('list',)),
    Inv('every common item of a', lambda k, out: ForAll(0, Len(a), lambda i: Implies(In(at(a, i), b), In(at(a, i), out))), kinds=('list',))])


def filtermapped(a, fcn, idx, ret=B):
    """the non-null results, without their tags, in order"""
    if not symbolic():
        vs = [fcn(*([i] if idx else []) + [x]) for i, x in enumerate(a)]
        return [list(v.values())[0] if isinstance(v, dict) and len(v) == 1 else v for v in vs if v is not None]
    args = lambda i: ([i] if idx else []) + [at(a, i)]
    return Fold(('list', ret.kind()), Len(a), [], lambda acc, i: If(fcn.some(*args(i)), App(acc, fcn.val(*args(i))), acc))


LC('a.filterMap', dict(a=AA, fcn=UnionFn([A], B)), lambda a, fcn: filtermapped(a, fcn, False), ret=Arr(B))
LC('a.filterMapWithIndex', dict(a=AA, fcn=UnionFn([Int(), A], B)), lambda a, fcn: filtermapped(a, fcn, True), ret=Arr(B))
LC('a.filterMap', dict(a=AA, fcn=UnionFn([A], TAGLIKE)), lambda a, fcn: filtermapped(a, fcn, False, TAGLIKE), ret=Arr(TAGLIKE), suffix='record')
LC('a.filterMapWithIndex', dict(a=AA, fcn=UnionFn([Int(), A], TAGLIKE)), lambda a, fcn: filtermapped(a, fcn, True, TAGLIKE), ret=Arr(TAGLIKE), suffix='record')
