"""P17: metrics, kernels, link functions, interpolation and change detection."""
import math

import vc.sym as sym
from vc.sym import SReal
from contracts.common import *
from contracts.maps import mapkey

P = 'P17'
D = Dbl()
AD = Arr(D)
AB = Arr(Bool())


def LC(name, params, spec, ret=None, **kw):
    return LibContract(name, P, params, spec, ret=ret or Dbl(), **kw)


def total(n, f, zero=0.0):
    return Fold('real', n, zero, lambda acc, i: acc + f(i))


def same(code, x, y, f):
    return Raise(code) if Not(Len(x) == Len(y)) else f()


def div(x, y):
    """IEEE division (finite operands)"""
    if y == 0:
        return NAN if x == 0 else (INF if x > 0 else NINF)
    return x / y


NAN, INF, NINF = float('nan'), float('inf'), float('-inf')
XY = dict(x=AD, y=AD)

# ------------------------------------------------------------------ kernels
GAMMA = Dbl(lo=0.0, choices=[0.0, 0.5, 1.0, 2.0])


def dot(x, y):
    return total(Len(x), lambda i: at(x, i) * at(y, i))


def distance2(x, y):
    return total(Len(x), lambda i: (at(x, i) - at(y, i)) * (at(x, i) - at(y, i)))


def powlike(x, y):
    """the power function of the core library (its contract is proved under the arithmetic property)"""
    import titus.lib.core as C
    if symbolic():
        return SReal(sym.uf('powLikeJava', sym.RealS, sym.RealS, sym.RealS)(sym.toreal(x), sym.toreal(y)))
    return C.powLikeJava(x, y)


def power_summary():
    import titus.lib.core as C
    return {C.powLikeJava: lambda ip, args, kw: powlike(*args)}


LC('m.kernel.linear', XY, lambda x, y: same(23000, x, y, lambda: dot(x, y)))
LC('m.kernel.rbf', dict(XY, gamma=GAMMA), lambda x, y, gamma: same(23010, x, y, lambda: UFR('exp', -gamma * distance2(x, y))))
LC('m.kernel.poly', dict(XY, gamma=D, intercept=D, degree=Dbl(lo=0.0, choices=[0.0, 1.0, 2.0, 3.0])), lambda x, y, gamma, intercept, degree: same(23020, x, y, lambda: powlike(gamma * dot(x, y) + intercept, degree)),
   summaries=power_summary())
LC('m.kernel.sigmoid', dict(XY, gamma=D, intercept=D), lambda x, y, gamma, intercept: same(23030, x, y, lambda: UFR('tanh', gamma * dot(x, y) + intercept)))

# ------------------------------------------------------------------ link functions, of a number, an array or a map of numbers
BIGD = Dbl(choices=[0.0, 1.0, -1.0, 800.0, -800.0, 5.5, -5.5, 720.0])


def exp(y):
    return UFR('exp', y)


def ovf(y, limit, f):
    """f of exp(y), its limit when that is too large"""
    if symbolic():
        return If(Overflows('exp', y), limit, f())
    return limit if Overflows('exp', y) else f()


def quot(x, y):
    """the quotient by something known not to be zero"""
    return SReal(sym.toreal(x) / sym.toreal(y)) if symbolic() else x / y


LINKS = dict(
    logit=lambda y: ovf(-y, 0.0, lambda: quot(1.0, 1 + exp(-y))),
    probit=lambda y: (UFR('erf', y / math.sqrt(2.0)) + 1) / 2,
    cloglog=lambda y: ovf(y, 1.0, lambda: 1 - exp(-exp(y))),
    loglog=lambda y: ovf(y, 0.0, lambda: exp(-exp(y))),
    cauchit=lambda y: 0.5 + (1 / math.pi) * UFR('atan', y),
    softplus=lambda y: ovf(y, y, lambda: UFR('log', 1 + exp(y))),
    relu=lambda y: If(y > 0, y, 0.0),
    tanh=lambda y: UFR('tanh', y))
for _n, _f in LINKS.items():
    _kw = dict(overflowing=('exp',))
    LC('m.link.' + _n, dict(x=BIGD), lambda x, _f=_f: _f(x), suffix='number', **_kw)
    LC('m.link.' + _n, dict(x=Arr(BIGD)), lambda x, _f=_f: Seq(Len(x), lambda i: _f(at(x, i))), ret=AD, suffix='array', **_kw)
    LC('m.link.' + _n, dict(x=MapT(BIGD)), lambda x, _f=_f: Map(lambda k: Has(x, k), lambda k: _f(Get(x, k)), x, [x]), ret=MapT(D), suffix='map', **_kw)

# ------------------------------------------------------------------ metrics
LC('metric.simpleEuclidean', XY, lambda x, y: same(28000, x, y, lambda: UFR('sqrt', distance2(x, y))))
LC('metric.absDiff', dict(x=D, y=D), lambda x, y: Abs(x - y))
LC('metric.gaussianSimilarity', dict(x=D, y=D, sigma=D), lambda x, y, sigma: (NAN if x == y else 0.0) if sigma == 0 else UFR('exp', -math.log(2) * (x - y) * (x - y) / (sigma * sigma)))


def pairs(x, y, p, q):
    return Fold('int', Len(x), 0, lambda acc, i: acc + If(And(Iff(at(x, i), p), Iff(at(y, i), q)), 1, 0))


def tally(code, f):
    def spec(x, y, **c):
        return same(code, x, y, lambda: div(*f(pairs(x, y, False, False), pairs(x, y, False, True), pairs(x, y, True, False), pairs(x, y, True, True), **c)))
    return spec


BXY = dict(x=AB, y=AB)
LC('metric.simpleMatching', BXY, tally(28080, lambda a00, a01, a10, a11: (a00 + a11, a00 + a01 + a10 + a11)))
LC('metric.jaccard', BXY, tally(28090, lambda a00, a01, a10, a11: (a11, a01 + a10 + a11)))
LC('metric.tanimoto', BXY, tally(28100, lambda a00, a01, a10, a11: (a00 + a11, a00 + 2 * (a01 + a10) + a11)))
C = dict((n, Dbl(choices=[0.0, 1.0, 2.0, -1.0])) for n in 'c00 c01 c10 c11 d00 d01 d10 d11'.split())
LC('metric.binarySimilarity', dict(BXY, **C), tally(28110, lambda a00, a01, a10, a11, c00, c01, c10, c11, d00, d01, d10, d11:
                                                    (c00 * a00 + c01 * a01 + c10 * a10 + c11 * a11, d00 * a00 + d01 * a01 + d10 * a10 + d11 * a11)), fuzz=60)

# ------------------------------------------------------------------ change detection
RUN = Rec('Run', dict(numEvents=Int(choices=[0, 1, 5, -1]), numRuns=Int(choices=[0, 1, 2]), currentRun=Int(choices=[0, 1, 2]), longestRun=Int(choices=[0, 1, 2, 3, -1])))


def trigger(predicate, history):
    h = {k: Get(history, k) for k in ('numEvents', 'numRuns', 'currentRun', 'longestRun')}
    if Or(*[v < 0 for v in h.values()]):
        return Raise(37000)
    if Not(predicate):
        return dict(h, currentRun=0)
    run = h['currentRun'] + 1
    return dict(numEvents=h['numEvents'] + 1, numRuns=If(h['currentRun'] == 0, h['numRuns'] + 1, h['numRuns']), currentRun=run, longestRun=Max2(h['longestRun'], run))


LC('stat.change.updateTrigger', dict(predicate=Bool(), history=RUN), trigger, ret=RUN)
LC('stat.change.updateCUSUM', dict(logLikelihoodRatio=D, last=D, reset=D), lambda logLikelihoodRatio, last, reset: Max2(reset, logLikelihoodRatio + last))
MV = Rec('MV', dict(mean=D, variance=Dbl(choices=[0.0, 1.0, -1.0, 4.0])))
CMV = Rec('CMV', dict(count=Dbl(choices=[2.0, 3.0, 10.0, 0.5]), mean=D, variance=Dbl(choices=[0.0, 1.0, -1.0, 4.0])))


def zvalue(x, meanVariance):
    m, v = Get(meanVariance, 'mean'), Get(meanVariance, 'variance')
    if v < 0:
        return NAN
    return div(x - m, UFR('sqrt', v))


def zunbiased(x, meanVariance, unbiased):
    z = zvalue(x, meanVariance)
    n = Get(meanVariance, 'count')
    if Not(unbiased):
        return z
    c = n / (n - 1)
    if c < 0:
        return NAN
    c = UFR('sqrt', c)
    if IsNan(z) or IsInf(z):
        return NAN if IsNan(z) or c == 0 else z
    return z * c


LC('stat.change.zValue', dict(x=D, meanVariance=MV), zvalue, suffix='biased')
LC('stat.change.zValue', dict(x=D, meanVariance=CMV, unbiased=Bool()), zunbiased, suffix='unbiased', pre=lambda x, meanVariance, unbiased: Not(Get(meanVariance, 'count') == 1))

# ------------------------------------------------------------------ metrics over arrays with missing values


class OptList(LList):
    pass


class OptArr(Arr):
    """array of union(null, double): items are null or {"double": number}"""

    def __init__(self, t):
        Arr.__init__(self, t)

    def jsontype(self, env=None):
        return {'type': 'array', 'items': ['null', self.t.jsontype(env)]}

    def make(self, e, name):
        n = sym.fresh('int', name + '.n')
        e.assume(n.t >= 0)
        has = SFn(e.freshname(name + '.has'), ['int'], 'bool')
        val = SFn(e.freshname(name + '.val'), ['int'], self.t.kind())

        def item(i):
            return LDict(sym.SMap(items={'double': val(i)})) if e.branch(zbool(has(i))) else None
        v = OptList(SSeq(n, item), frozen=True, label=name)
        v.has, v.val = has, val
        return v

    def gen(self, env):
        return [None if env.rng.random() < 0.25 else {'double': self.t.gen(env)} for _ in range(env.rng.choice([2, 2, 2, 0, 1, 3]))]

    def adapt(self, v):
        return v

    def conc(self, mc, v):
        n = min(mc.conc(v._seq.n), 200)
        return [{'double': mc.conc(v.val(i))} if mc.conc(v.has(i)) else None for i in range(n)]


def has(x, i):
    return x.has(i) if symbolic() else x[i] is not None


def val(x, i):
    return x.val(i) if symbolic() else x[i]['double']


OXY = dict(similarity=Fn([Dbl(), Dbl()], Dbl()), x=OptArr(D), y=OptArr(D))
WEIGHTS = Arr(Dbl(choices=[0.0, 1.0, 2.0, 0.5]))


def missing(code, inc, fin):
    """the items present in both arrays contribute, scaled by the weight of all items over the weight of those"""
    def spec(similarity, x, y, missingWeight=None, p=None):
        n = Len(x)
        if Not(And(Len(y) == n, True if missingWeight is None else Len(missingWeight) == n)):
            return Raise(code)
        if p is not None and (IsNan(p) or p <= 0):
            return Raise(code + 1)
        w = (lambda i: 1.0) if missingWeight is None else (lambda i: at(missingWeight, i))
        both = lambda i: And(has(x, i), has(y, i))

        def contribution(acc, i):
            if symbolic():
                return If(both(i), inc(acc, similarity(val(x, i), val(y, i)), p), acc)
            return inc(acc, similarity(val(x, i), val(y, i)), p) if both(i) else acc
        tally = Fold('real', n, 0.0, contribution)
        numer = Fold('real', n, 0.0, lambda acc, i: acc + w(i))
        denom = Fold('real', n, 0.0, lambda acc, i: acc + If(both(i), w(i), 0.0))
        if denom == 0:
            return fin(NAN, p)
        return fin(tally * numer / denom, p)
    return spec


def root(x):
    if IsNan(x):
        return x
    return NAN if x < 0 else UFR('sqrt', x)


METRICS = dict(euclidean=(28030, lambda acc, d, p: acc + d * d, lambda v, p: root(v)), squaredEuclidean=(28040, lambda acc, d, p: acc + d * d, lambda v, p: v),
               chebyshev=(28050, lambda acc, d, p: Max2(acc, d), lambda v, p: v), taxicab=(28060, lambda acc, d, p: acc + d, lambda v, p: v))
NONNEG = dict(OXY, similarity=Fn([Dbl(), Dbl()], Dbl()))
for _n, (_c, _i, _f) in METRICS.items():
    LC('metric.' + _n, OXY, lambda similarity, x, y, _s=missing(_c, _i, _f): _s(similarity, x, y), suffix='plain')
    LC('metric.' + _n, dict(OXY, missingWeight=WEIGHTS), lambda similarity, x, y, missingWeight, _s=missing(_c, _i, _f): _s(similarity, x, y, missingWeight), suffix='weighted')


def minkowski(similarity, x, y, p, missingWeight=None):
    if IsInf(p) and p > 0:
        inc, fin = (lambda acc, d, p: If(d > acc, d, acc)), lambda v, p: v
    else:
        inc, fin = (lambda acc, d, p: acc + powlike(d, p)), lambda v, p: powlike(v, 1.0 / p)
        fin = lambda v, p, f=fin: v if IsNan(v) else f(v, p)
    return missing(28070, inc, fin)(similarity, x, y, missingWeight, p)


PP = Dbl(special=True, choices=[1.0, 2.0, 0.0, -1.0, 3.0])
LC('metric.minkowski', dict(OXY, p=PP), lambda similarity, x, y, p: minkowski(similarity, x, y, p), suffix='plain', summaries=power_summary())
LC('metric.minkowski', dict(OXY, p=PP, missingWeight=WEIGHTS), lambda similarity, x, y, p, missingWeight: minkowski(similarity, x, y, p, missingWeight), suffix='weighted',
   summaries=power_summary())

# ------------------------------------------------------------------ interpolation
SD = Dbl(special=True)


def bin1(x, numbins, low, high):
    if IsNan(low) or IsNan(high) or low >= high:
        return Raise(22000)
    if numbins < 1:
        return Raise(22001)
    if IsNan(x) or x < low or x >= high:
        return Raise(22002)
    b = Floor(numbins * ((x - low) / (high - low)))
    return Raise(22002) if Or(b < 0, b >= numbins) else b


def bin2(x, origin, width):
    if IsNan(origin) or IsInf(origin):
        return Raise(22000)
    if IsNan(width) or width <= 0:
        return Raise(22001)
    if IsNan(x) or IsInf(x):
        return Raise(22002)
    return Floor((x - origin) / width)


LC('interp.bin', dict(x=SD, numbins=Int(choices=[0, 1, 4, 10, -1]), low=D, high=D), bin1, ret=Int(), suffix='range')
LC('interp.bin', dict(x=SD, origin=SD, width=D), bin2, ret=Int(), suffix='width', pre=lambda x, origin, width: True if IsNan(x) or IsNan(origin) or IsInf(x) or IsInf(origin) else And(Abs(x) < 1e9, Abs(origin) < 1e9, Or(width > 1e-3, width <= 0)))


def entry(ykind):
    return Rec('Entry', dict(x=Dbl(), to=ykind))


def nearest_index(n, dist):
    """the first of the entries at the least distance"""
    return Fold('int', n, 0, lambda acc, i: If(dist(i) < dist(acc), i, acc))


def best(g, table, dist, n):
    """loop invariants: the best entry so far and its distance"""
    j = lambda k: ghost(g, k)
    return [Inv('index', lambda k: And(j(k) >= 0, Or(j(k) < k, And(k == 0, j(k) == 0)))),
            Inv('started', lambda k, v: k == 0 if v is None else k > 0, kinds=('none|rec|real|list|A',)),
            Inv('best', lambda k, v: True if v is None else Eq(v, at(table, j(k))), kinds=('rec',)),
            Inv('distance', lambda k, v: True if v is None else v == dist(j(k)), kinds=('real',))]


def nearest(dist):
    def spec(datum, table, **kw):
        if Len(table) == 0:
            return Raise(22010)
        return Get(at(table, nearest_index(Len(table), lambda i: dist(datum, Get(at(table, i), 'x'), **kw))), 'to')
    return spec


ad = lambda x, y: Abs(x - y)


def distances(x, y):
    """the square of the distance from x to y(i), as a function of i"""
    return Folds('real', lambda i: Min2(Len(x), Len(y(i))), lambda i: 0.0, lambda acc, i, j: acc + (at(x, j) - at(y(i), j)) * (at(x, j) - at(y(i), j)))


def family(i):
    return sym.engine().ghost_fams[i]


def nearest_point(x, table):
    if Not(ForAll(0, Len(table), lambda i: Len(Get(at(table, i), 'x')) == Len(x))):
        return Raise(22011)
    if Len(table) == 0:
        return Raise(22010)
    return Get(at(table, nearest_index(Len(table), distances(x, lambda i: Get(at(table, i), 'x')))), 'to')


LC('interp.nearest', dict(x=D, table=Arr(entry(W()))), lambda x, table: nearest(ad)(x, table), ret=W(), suffix='number',
   inv=lambda x, table: best(0, table, lambda i: ad(x, Get(at(table, i), 'x')), Len(table)))
LC('interp.nearest', dict(x=AD, table=Arr(Rec('Entry', dict(x=AD, to=W())))), lambda x, table: nearest_point(x, table), ret=W(), suffix='point',
   inv=lambda x, table: best(0, table, lambda i: family(0)(i), Len(table)) + [sofar(lambda i: Len(Get(at(table, i), 'x')) == Len(x))])
LC('interp.nearest', dict(x=W('X1'), table=Arr(Rec('Entry', dict(x=W('X2'), to=W()))), metric=Fn([W('X1'), W('X2')], Dbl())), lambda x, table, metric: nearest(metric)(x, table), ret=W(), suffix='metric',
   inv=lambda x, table, metric: best(0, table, lambda i: metric(x, Get(at(table, i), 'x')), Len(table)))


def closest(code, datum, table):
    """the entries nearest to the datum on its left and right, or the nearest and the next one when it has entries on one side only"""
    n = Len(table)
    X = lambda i: Get(at(table, i), 'x')
    dist = lambda i: Abs(datum - X(i))
    if symbolic():
        below = Fold('int', n, -1, lambda acc, i: If(And(X(i) <= datum, Or(acc == -1, X(acc) < X(i))), i, acc))
        above = Fold('int', n, -1, lambda acc, i: If(And(datum < X(i), Or(acc == -1, X(i) < X(acc))), i, acc))
    else:
        below = max([i for i in range(n) if X(i) <= datum], key=lambda i: (X(i), -i), default=-1)
        above = min([i for i in range(n) if X(i) > datum], key=lambda i: (X(i), i), default=-1)
    if And(below != -1, above != -1):
        return at(table, below), at(table, above), True
    one = nearest_index(n, dist)
    if symbolic():
        two = Fold('int', n, -1, lambda acc, i: If(i == 0, -1, If(dist(i) < dist(ghost(2, i)), ghost(2, i),
                                                                  If(And(dist(i) != dist(ghost(2, i)), Or(acc == -1, dist(i) < dist(acc))), i, acc))))
    else:
        two = min([i for i in range(n) if dist(i) != dist(one)], key=lambda i: (dist(i), i), default=-1)
    if two == -1:
        return Raise(code)
    return at(table, one), at(table, two), False


def interpolate(one, two, datum, code, array):
    u = quot(datum - Get(one, 'x'), Get(two, 'x') - Get(one, 'x'))
    y, z = Get(one, 'to'), Get(two, 'to')
    if not array:
        return (1 - u) * y + u * z
    if Not(Len(y) == Len(z)):
        return Raise(code)
    return Seq(Len(y), lambda i: (1 - u) * at(y, i) + u * at(z, i))


def linear(code, array, how):
    def spec(x, table):
        c = closest(code, x, table)
        if isinstance(c, Raise):
            return c
        one, two, between = c
        return how(one, two, x, between, lambda: interpolate(one, two, x, code + 1, array))
    return spec


def bracket(x, table):
    X = lambda i: Get(at(table, i), 'x')
    dist = lambda i: Abs(x - X(i))
    out = []
    n = Len(table)
    unset = lambda g, k: k == 0 if g == 2 else ghost(g, k) == -1
    for g in (3, 2, 1, 0):
        out += [Inv('index %d' % g, lambda k, g=g: And(ghost(g, k) >= (0 if g == 2 else -1), ghost(g, k) < Max2(k, 1), Or(ghost(g, k) < k, k == 0))),
                Inv('best %d' % g, lambda k, g=g: None if unset(g, k) else at(table, ghost(g, k)), kinds=('rec',), defn=True),
                Inv('distance %d' % g, lambda k, g=g: None if unset(g, k) else dist(ghost(g, k)), kinds=('real',), defn=True)]
    out += [Inv('left', lambda k: Implies(ghost(0, k) != -1, X(ghost(0, k)) <= x)), Inv('right', lambda k: Implies(ghost(1, k) != -1, X(ghost(1, k)) > x)),
            Inv('nearer', lambda k: Implies(ghost(3, k) != -1, dist(ghost(2, k)) < dist(ghost(3, k))))]
    return out



class Opt(PT):
    def __init__(self, t):
        self.t = t

    def jsontype(self, env=None):
        return ['null', self.t.jsontype(env)]


for _n, _code, _how in (('linear', 22020, lambda one, two, x, between, f: f()), ('linearFlat', 22030, lambda one, two, x, between, f: f() if between else Get(one, 'to')),
                        ('linearMissing', 22040, lambda one, two, x, between, f: f() if between or Get(one, 'x') == x else None)):
    for _s, _a in (('number', False), ('array', True)):
        _t = AD if _a else D
        LC('interp.' + _n, dict(x=D, table=Arr(entry(_t))), lambda x, table, _f=linear(_code, _a, _how): _f(x, table), ret=Opt(_t) if _n == 'linearMissing' else _t, suffix=_s, inv=bracket, budget=240)

# ------------------------------------------------------------------ softmax


def greatest(n, f):
    if not symbolic():
        return max(f(i) for i in range(n))
    m = sym.fresh('real', 'max')
    e = sym.engine()
    e.assume(zbool(ForAll(0, n, lambda i: f(i) <= m)))
    e.assume(zbool(Exists(0, n, lambda i: f(i) == m)))
    return m


def softmax_array(x):
    n = Len(x)
    if n == 0:
        return Raise(25000)
    m = greatest(n, lambda i: at(x, i))
    denom = total(n, lambda i: exp(at(x, i) - m))
    return Seq(n, lambda i: quot(exp(at(x, i) - m), denom))


def softmax_map(x):
    n = Len(x)
    if n == 0:
        return Raise(25000)
    v = lambda i: Get(x, mapkey(x, i))
    m = greatest(n, v)
    denom = total(n, lambda i: exp(v(i) - m))
    return Map(lambda k: Has(x, k), lambda k: quot(exp(Get(x, k) - m), denom), x, [x])


SOFT = [Inv('positive', lambda k: Or(k == 0, ghost(0, k) > 0))]
LC('m.link.softmax', dict(x=Arr(BIGD)), softmax_array, ret=AD, suffix='array', overflowing=('exp',), inv=lambda x: SOFT)
LC('m.link.softmax', dict(x=MapT(BIGD)), softmax_map, ret=MapT(D), suffix='map', overflowing=('exp',), inv=lambda x: SOFT, budget=240)
