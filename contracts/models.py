"""P18: model scoring and updating functions."""
import math

from vc.engine import PathEnd

from contracts.common import *
from contracts.maps import mapkey, MapOf
from contracts.array_extreme import arg, argin, flip, pairs
from contracts.numeric import div, quot, total, distances, family

P = 'P18'
D = Dbl()
AD = Arr(D)
AAD = Arr(AD)
MD = MapT(D)


def LC(name, params, spec, ret=None, **kw):
    return LibContract(name, P, params, spec, ret=ret or Dbl(), **kw)


# ------------------------------------------------------------------ support vector machines
SV = Rec('SV', dict(supVec=AD, coeff=D))
SVM = Rec('SVM', dict(const=D, posClass=Arr(SV), negClass=Arr(SV)))


def svm(datum, model, kernel):
    pos, neg = Get(model, 'posClass'), Get(model, 'negClass')
    if And(Len(pos) == 0, Len(neg) == 0):
        return Raise(12000)
    if Not(And(*[ForAll(0, Len(c), lambda i: Len(Get(at(c, i), 'supVec')) == Len(datum)) for c in (neg, pos)])):
        return Raise(12001)
    score = lambda c: total(Len(c), lambda i: Get(at(c, i), 'coeff') * kernel(Get(at(c, i), 'supVec'), datum))
    return score(neg) + score(pos) + Get(model, 'const')


LC('model.svm.score', dict(datum=AD, model=SVM, kernel=Fn([AD, AD], D)), svm,
   inv=lambda datum, model, kernel: [sofar(lambda i, c=c: Len(Get(at(Get(model, c), i), 'supVec')) == Len(datum), name=c) for c in ('negClass', 'posClass')])

# ------------------------------------------------------------------ naive Bayes
GM = Rec('GM', dict(mean=D, variance=Dbl(choices=[1.0, 2.0, 0.5, 0.25, 4.0, 0.0])))


def loglikelihood(x, m):
    v = Get(m, 'variance')
    return -0.5 * UFR('log', 2.0 * math.pi * v) + -0.5 * quot((x - Get(m, 'mean')) * (x - Get(m, 'mean')), v)


def gaussian_array(datum, classModel):
    if Not(Len(datum) == Len(classModel)):
        return Raise(10000)
    if Not(ForAll(0, Len(datum), lambda i: Get(at(classModel, i), 'variance') > 0)):
        return Raise(10001)
    return total(Len(datum), lambda i: loglikelihood(at(datum, i), at(classModel, i)))


def gaussian_map(datum, classModel):
    if Not(ForAllKeys(datum if symbolic() else dict(datum, **classModel), lambda k: Iff(Has(datum, k), Has(classModel, k)))):
        return Raise(10000)
    if Not(ForAllKeys(datum, lambda k: Implies(Has(datum, k), Get(Get(classModel, k), 'variance') > 0))):
        return Raise(10001)
    return total(Len(datum), lambda i: loglikelihood(Get(datum, mapkey(datum, i)), Get(classModel, mapkey(datum, i))))


LC('model.naive.gaussian', dict(datum=AD, classModel=Arr(GM)), gaussian_array, suffix='array', inv=lambda datum, classModel: [sofar(lambda i: Get(at(classModel, i), 'variance') > 0)])
LC('model.naive.gaussian', dict(datum=MD, classModel=MapT(GM)), gaussian_map, suffix='map', inv=lambda datum, classModel: [
    Inv('positive so far', lambda k: ForAllKeys(datum, lambda q: Implies(And(Has(datum, q), keyindex(datum, q) < k), Get(Get(classModel, q), 'variance') > 0)))])

PR = Dbl(choices=[0.1, 0.5, 0.25, 1.0, 2.0])
TINY = 2.2250738585072014e-308


def multinomial_array(datum, classModel):
    n = Len(classModel)
    if Or(n == 0, Not(ForAll(0, n, lambda i: at(classModel, i) > 0))):
        return Raise(10011)
    if Not(Len(datum) == n):
        return Raise(10010)
    norm = total(n, lambda i: at(classModel, i))
    return total(n, lambda i: at(datum, i) * UFR('log', quot(at(classModel, i), norm) + TINY))


def multinomial_map(datum, classModel):
    n = Len(classModel)
    if Or(n == 0, Not(ForAllKeys(classModel, lambda k: Implies(Has(classModel, k), Get(classModel, k) > 0)))):
        return Raise(10011)
    if Not(ForAllKeys(datum if symbolic() else dict(datum, **classModel), lambda k: Iff(Has(datum, k), Has(classModel, k)))):
        return Raise(10010)
    norm = total(n, lambda i: Get(classModel, mapkey(classModel, i)))
    return total(Len(datum), lambda i: Get(datum, mapkey(datum, i)) * UFR('log', quot(Get(classModel, mapkey(datum, i)), norm) + TINY))


POSITIVE = [Inv('positive', lambda k: Or(k == 0, ghost(0, k) > 0))]
VALUES = lambda t: Rec('C', dict(values=t))
LC('model.naive.multinomial', dict(datum=AD, classModel=Arr(PR)), multinomial_array, suffix='array', inv=lambda datum, classModel: POSITIVE)
LC('model.naive.multinomial', dict(datum=MD, classModel=MapT(PR)), multinomial_map, suffix='map', inv=lambda datum, classModel: POSITIVE)
LC('model.naive.multinomial', dict(datum=AD, classModel=VALUES(Arr(PR))), lambda datum, classModel: multinomial_array(datum, Get(classModel, 'values')), suffix='arrayRecord', inv=lambda datum, classModel: POSITIVE)
LC('model.naive.multinomial', dict(datum=MD, classModel=VALUES(MapT(PR))), lambda datum, classModel: multinomial_map(datum, Get(classModel, 'values')), suffix='mapRecord', inv=lambda datum, classModel: POSITIVE)

# ------------------------------------------------------------------ nearest neighbours and clusters
CLUSTER = Rec('Cluster', dict(center=AD, id=W('I')))


def lowest(n, k, dist):
    """positions of the k least distances (the earlier one first where equal), in order"""
    return arg(Seq(n, dist) if not symbolic() else LList(SSeq(n, dist), frozen=True), k, flip(Lt))


def called(metric):
    return lambda datum, y: lambda i: metric(datum, y(i))


def best_so_far(n, k, dist):
    """loop invariants of the search for the least distances"""
    d = LList(SSeq(n, dist), frozen=True)
    lt = flip(Lt)
    return argin(d, k) + [pairs(d), Inv('distances so far', lambda k: Seq(k, dist), kinds=('list',), defn=True), Inv('none before', lambda k, ks: ForAll(0, k, lambda j: Not(lt(at(d, at(ghost(0, ks[0]), j)), at(d, ks[0])))), level=1, outer=True)]


def closest(dist, datum, clusters):
    if Len(clusters) == 0:
        return Raise(29000)
    return at(clusters, at(lowest(Len(clusters), 1, dist(datum, lambda i: Get(at(clusters, i), 'center'))), 0))


def pick(a, idx):
    return Seq(Len(idx), lambda i: at(a, at(idx, i)))


def closestn(dist, n, datum, clusters):
    if n < 0:
        return Raise(29010)
    return pick(clusters, lowest(Len(clusters), n, dist(datum, lambda i: Get(at(clusters, i), 'center'))))


CW = Rec('Cluster', dict(center=W('X2'), id=W('I')))
METRIC = Fn([W('X1'), W('X2')], D)
plain_inv = lambda n: lambda datum, clusters: best_so_far(Len(clusters), n, lambda i: family(0)(i))
metric_inv = lambda n: lambda datum, clusters, metric: best_so_far(Len(clusters), n, lambda i: metric(datum, Get(at(clusters, i), 'center')))
LC('model.cluster.closest', dict(datum=AD, clusters=Arr(CLUSTER)), lambda datum, clusters: closest(distances, datum, clusters), ret=CLUSTER, suffix='plain', inv=plain_inv(1))
LC('model.cluster.closest', dict(datum=W('X1'), clusters=Arr(CW), metric=METRIC), lambda datum, clusters, metric: closest(called(metric), datum, clusters), ret=CW, suffix='metric', inv=metric_inv(1))
LC('model.cluster.closestN', dict(n=Int(), datum=AD, clusters=Arr(CLUSTER)), lambda n, datum, clusters: closestn(distances, n, datum, clusters), ret=Arr(CLUSTER), suffix='plain',
   inv=lambda n, datum, clusters: plain_inv(n)(datum, clusters))
LC('model.cluster.closestN', dict(n=Int(), datum=W('X1'), clusters=Arr(CW), metric=METRIC), lambda n, datum, clusters, metric: closestn(called(metric), n, datum, clusters), ret=Arr(CW), suffix='metric',
   inv=lambda n, datum, clusters, metric: metric_inv(n)(datum, clusters, metric))


def nearestk(dist, k, datum, codebook, check):
    d = dist(datum, lambda i: at(codebook, i))
    if k < 0:
        return Raise(30010)
    if check and Not(ForAll(0, Len(codebook), lambda i: Len(at(codebook, i)) == Len(datum))):
        return Raise(30011)
    return pick(codebook, lowest(Len(codebook), k, d))


LC('model.neighbor.nearestK', dict(k=Int(), datum=AD, codebook=AAD), lambda k, datum, codebook: nearestk(distances, k, datum, codebook, True), ret=AAD, suffix='plain',
   inv=lambda k, datum, codebook: best_so_far(Len(codebook), k, lambda i: family(0)(i)) + [sofar(lambda i: Len(at(codebook, i)) == Len(datum))])
LC('model.neighbor.nearestK', dict(k=Int(), datum=W('X1'), codebook=Arr(W('X2')), metric=METRIC), lambda k, datum, codebook, metric: nearestk(called(metric), k, datum, codebook, False), ret=Arr(W('X2')), suffix='metric',
   inv=lambda k, datum, codebook, metric: best_so_far(Len(codebook), k, lambda i: metric(datum, at(codebook, i))))
LC('model.neighbor.ballR', dict(r=D, datum=W('X1'), codebook=Arr(W('X2')), metric=Fn([W('X1'), W('X2')], D)), lambda r, datum, codebook, metric:
   Fold(('list', W('X2').kind()), Len(codebook), [], lambda acc, i: If(metric(datum, at(codebook, i)) < r, App(acc, at(codebook, i)), acc)), ret=Arr(W('X2')), suffix='metric')


def ball(r, datum, codebook):
    d = distances(datum, lambda i: at(codebook, i))
    return Fold(('list', AD.kind()), Len(codebook), [], lambda acc, i: If(UFR('sqrt', d(i)) < r, App(acc, at(codebook, i)), acc))


LC('model.neighbor.ballR', dict(r=D, datum=AD, codebook=AAD), ball, ret=AAD, suffix='plain', inv=lambda r, datum, codebook: [
    Inv('distances so far', lambda k: Seq(k, lambda i: UFR('sqrt', family(0)(i))), kinds=('list',), defn=True),
    Inv('nonnegative', lambda k, ks: family(0).at(ks[0], k) >= 0, level=1, outer=True)])

# ------------------------------------------------------------------ tests on the nodes of trees
TREE = W('T')


def compound(datum, operator, comparisons, test):
    n = Len(comparisons)
    passes = lambda i: test(datum, at(comparisons, i))
    if operator == 'and':
        return ForAll(0, n, passes)
    if operator == 'or':
        return Exists(0, n, passes)
    if operator == 'xor':
        return Fold('bool', n, False, lambda acc, i: Not(Iff(acc, passes(i))) if symbolic() else acc != passes(i))
    return Raise(32020)


LC('model.tree.compoundTest', dict(datum=W('X'), operator=Str(choices=['and', 'or', 'xor', 'nand', '']), comparisons=Arr(TREE), test=Fn([W('X'), TREE], Bool())), compound, ret=Bool(),
   inv=lambda datum, operator, comparisons, test: [sofar(lambda i: test(datum, at(comparisons, i))), before(lambda i: test(datum, at(comparisons, i))),
                                                   Inv('parity', lambda k, n: Iff(ghost(0, k), n % 2 == 1), kinds=('int',))])
LC('model.tree.surrogateTest', dict(datum=W('X'), comparisons=Arr(TREE), missingTest=UnionFn([W('X'), TREE], Bool())), lambda datum, comparisons, missingTest: surrogate(datum, comparisons, missingTest), ret=Bool(),
   inv=lambda datum, comparisons, missingTest: [before(lambda i: missingTest.some(datum, at(comparisons, i)))])


def surrogate(datum, comparisons, missingTest):
    n = Len(comparisons)
    i = First(n, lambda i: missingTest.some(datum, at(comparisons, i)))
    if i == n:
        return Raise(32030)
    return missingTest.val(datum, at(comparisons, i))


# ------------------------------------------------------------------ comparing a field of the datum with the value of a node
class Tagged(PT):
    """union(null, t)"""

    def __init__(self, t, tag):
        self.t, self.tag = t, tag
        self.rec = Rec('-', {tag: t})

    def variants(self):
        return [('null', lambda e, name: None), (self.tag, self.rec.make)]

    def gen(self, env):
        return None if env.rng.random() < 0.3 else self.rec.gen(env)

    def jsontype(self, env=None):
        return ['null', self.t.jsontype(env)]


OPS = Str(choices=['alwaysTrue', 'alwaysFalse', 'isMissing', 'notMissing', 'in', 'notIn', '<=', '<', '>=', '>', '==', '!=', 'nonsense'])


def node_test(kind, missing_ops, code, wrap):
    """kind: '' (the types of field and value fit), 'in' (the value is an array), 'no' (they do not fit)"""
    def spec(datum, comparison):
        x, op, v = Get(datum, 'x'), Get(comparison, 'operator'), Get(comparison, 'value')
        if op == 'alwaysTrue':
            return wrap(True)
        if op == 'alwaysFalse':
            return wrap(False)
        if missing_ops and op == 'isMissing':
            return wrap(x is None)
        if missing_ops and op == 'notMissing':
            return wrap(x is not None)
        if not missing_ops and tagged(x):
            x = Get(x, list(tagnames(x))[0])
        isin = Or(op == 'in', op == 'notIn')
        if isin if kind != 'in' else Not(isin):
            return Raise(code + 1)
        if kind == 'no':
            return Raise(code + 1)
        if not missing_ops and x is None:
            return None
        if isin:
            if op == 'in':
                return wrap(In(x, v))
            return wrap(Not(In(x, v)))
        for name, f in (('<=', lambda: Not(Lt(v, x))), ('<', lambda: Lt(x, v)), ('>=', lambda: Not(Lt(x, v))), ('>', lambda: Lt(v, x)), ('==', lambda: And(Not(Lt(x, v)), Not(Lt(v, x)))), ('!=', lambda: Or(Lt(x, v), Lt(v, x)))):
            if op == name:
                return wrap(f())
        return Raise(code)
    return spec


def tagged(x):
    return isinstance(x, LDict) if symbolic() else isinstance(x, dict)


def tagnames(x):
    return x._m.items if symbolic() else x


def wrapped(b):
    return LDict(sym.SMap(items={'boolean': b})) if symbolic() else {'boolean': b}


def node(x, v):
    return dict(datum=Rec('D', dict(x=x, y=Str())), comparison=Rec('T', dict(field=Const('x', json={'type': 'enum', 'name': 'F', 'symbols': ['x', 'y']}), operator=OPS, value=v)))


I, S = Int(), Key()
for _s, _x, _v, _k in (('double', D, D, ''), ('intDouble', I, D, ''), ('doubleInt', D, I, ''), ('int', I, I, ''), ('string', S, S, ''), ('stringInt', S, I, 'no'), ('intString', I, S, 'no'),
                       ('inString', S, Arr(S), 'in'), ('inInt', I, Arr(I), 'in'), ('inIntDouble', I, Arr(D), 'in')):
    LC('model.tree.simpleTest', node(_x, _v), node_test(_k, True, 32000, lambda b: b), ret=Bool(), suffix=_s)
    LC('model.tree.missingTest', node(_x, _v), node_test(_k, False, 32010, wrapped), ret=Tagged(Bool(), 'boolean'), suffix=_s)
    _t = {I: 'int', D: 'double', S: 'string'}[_x]
    LC('model.tree.missingTest', node(Tagged(_x, _t), _v), node_test(_k, False, 32010, wrapped), ret=Tagged(Bool(), 'boolean'), suffix=_s + 'Null')


# ------------------------------------------------------------------ Bernoulli
def bernoulli(datum, classModel):
    n = Len(classModel)
    if Not(ForAllKeys(classModel, lambda k: Implies(Has(classModel, k), And(Get(classModel, k) > 0, Get(classModel, k) < 1)))):
        return Raise(10020)
    base = total(n, lambda i: UFR('log', 1.0 - Get(classModel, mapkey(classModel, i))))

    def step(acc, i):
        k = at(datum, i)
        if not symbolic() and not Has(classModel, k):
            return acc
        return If(Has(classModel, k), acc + (UFR('log', Get(classModel, k)) - UFR('log', 1.0 - Get(classModel, k))), acc)
    return Fold('real', Len(datum), base, step)


BP = Dbl(choices=[0.1, 0.5, 0.25, 0.75, 0.9])
INRANGE = lambda m: [Inv('in range so far', lambda k: ForAllKeys(m, lambda q: Implies(And(Has(m, q), keyindex(m, q) < k), And(Get(m, q) > 0, Get(m, q) < 1))))]
LC('model.naive.bernoulli', dict(datum=Arr(Key()), classModel=MapT(BP)), bernoulli, inv=lambda datum, classModel: INRANGE(classModel), suffix='map')
LC('model.naive.bernoulli', dict(datum=Arr(Key()), classModel=VALUES(MapT(BP))), lambda datum, classModel: bernoulli(datum, Get(classModel, 'values')), inv=lambda datum, classModel: INRANGE(Get(classModel, 'values')), suffix='mapRecord')


# ------------------------------------------------------------------ means
def record(r, **new):
    """the record with some fields replaced"""
    return LDict(dict(r._m.items, **new), frozen=True) if symbolic() else dict(r, **new)


def columns(a):
    """i -> the sum of the i-th numbers of the items of a"""
    return Folds('real', lambda i: Len(a), lambda i: 0.0, lambda acc, i, j: acc + at(at(a, j), i))


def rowed(dim, n):
    """loop invariants: the sums of the columns over the rows seen so far"""
    return [Inv('columns', lambda k: Seq(dim, lambda i: family(0).at(i, k)), kinds=('list',), level=0, defn=True),
            Inv('columns inside', lambda k, ks: Seq(dim, lambda i: If(i < k, family(0).at(i, ks[0] + 1), family(0).at(i, ks[0]))), kinds=('list',), level=1, outer=True, defn=True),
            Inv('count', lambda k: Seq(dim, lambda i: 1.0 * k), kinds=('list',), level=0, defn=True),
            Inv('count inside', lambda k, ks: Seq(dim, lambda i: If(i < k, 1.0 * ks[0] + 1, 1.0 * ks[0])), kinds=('list',), level=1, outer=True, defn=True)]


def changed(f, g, dim, name):
    return Inv(name, lambda k: Seq(dim, lambda i: If(i < k, g(i), f(i))), kinds=('list',), level=0, defn=True)


def mean_of(points):
    n = Len(points)
    s = columns(points)
    if n == 0:
        return Raise(30000)
    dim = Len(at(points, 0))
    if Not(ForAll(0, n, lambda j: Len(at(points, j)) == dim)):
        return Raise(30001)
    return Seq(dim, lambda i: quot(s(i), 1.0 * n))


def mean_inv(points):
    dim, n = Len(at(points, 0)), Len(points)
    f = lambda i: family(0)(i)
    return rowed(dim, n) + [sofar(lambda j: Len(at(points, j)) == dim), changed(f, lambda i: quot(f(i), 1.0 * n), dim, 'divided')]


LC('model.neighbor.mean', dict(points=AAD), mean_of, ret=AD, inv=mean_inv)


def weighted_mean(points, weight):
    n = Len(points)
    w = total(n, lambda j: weight(at(points, j)))
    s = Folds('real', lambda i: n, lambda i: 0.0, lambda acc, i, j: acc + weight(at(points, j)) * at(at(points, j), i))
    if n == 0:
        return Raise(30000)
    dim = Len(at(points, 0))
    if Not(ForAll(0, n, lambda j: Len(at(points, j)) == dim)):
        return Raise(30001)
    if w == 0:
        # the components are not finite: only executed, not proved
        if symbolic():
            raise PathEnd()
        return [div(s(i), 0.0) for i in range(dim)]
    return Seq(dim, lambda i: quot(s(i), w))


def weighted_inv(points, weight):
    dim = Len(at(points, 0))
    f = lambda i: family(0)(i)
    return rowed(dim, 0)[:2] + [Inv('weights', lambda k: Seq(dim, lambda i: ghost(0, k)), kinds=('list',), level=0, defn=True),
                                Inv('weights inside', lambda k, ks: Seq(dim, lambda i: If(i < k, ghost(0, ks[0] + 1), ghost(0, ks[0]))), kinds=('list',), level=1, outer=True, defn=True),
                                sofar(lambda j: Len(at(points, j)) == dim), changed(f, lambda i: quot(f(i), ghost(0, Len(points))), dim, 'divided')]


LC('model.neighbor.mean', dict(points=AAD, weight=Fn([AD], Dbl(choices=[0.0, 0.0, 1.0, 2.0]))), weighted_mean, ret=AD, suffix='weighted', inv=weighted_inv)


def update_mean(data, cluster, weight):
    n = Len(data)
    s = columns(data)
    if n == 0:
        return Raise(29040)
    dim = Len(at(data, 0))
    c = Get(cluster, 'center')
    if Not(And(ForAll(0, n, lambda j: Len(at(data, j)) == dim), Len(c) == dim)):
        return Raise(29041)
    return record(cluster, center=Seq(dim, lambda i: quot(s(i) + weight * at(c, i), n + weight)))


def update_inv(data, cluster, weight):
    dim, n = Len(at(data, 0)), Len(data)
    c = Get(cluster, 'center')
    f = lambda i: family(0)(i)
    h = lambda i: f(i) + weight * at(c, i)
    return rowed(dim, n)[:2] + [sofar(lambda j: Len(at(data, j)) == dim), changed(f, h, dim, 'weighted'), changed(h, lambda i: quot(h(i), n + weight), dim, 'divided')]


LC('model.cluster.updateMean', dict(data=AAD, cluster=CLUSTER, weight=Dbl(choices=[0.0, 1.0, 0.5, 3.0])), update_mean, pre=lambda data, cluster, weight: weight >= 0, ret=CLUSTER, inv=update_inv)


# ------------------------------------------------------------------ regression and tests of fit
def aligned(a, b):
    """maps with the same keys"""
    return ForAllKeys(a if symbolic() else dict(a, **b), lambda k: Iff(Has(a, k), Has(b, k)))


for _n, _code in (('model.reg.residual', 31020), ('stat.test.residual', 38010)):
    LC(_n, dict(observation=D, prediction=D), lambda observation, prediction: observation - prediction, suffix='number')
    LC(_n, dict(observation=AD, prediction=AD), lambda observation, prediction, _c=_code: Seq(Len(observation), lambda i: at(observation, i) - at(prediction, i)) if Len(observation) == Len(prediction) else Raise(_c), ret=AD, suffix='array')

    def residual_map(observation, prediction, _c=_code):
        if Not(aligned(observation, prediction)):
            return Raise(_c)
        return MapOf(lambda k: Has(observation, k), lambda k: Get(observation, k) - Get(prediction, k), observation, [observation])
    if _code == 38010:
        LC(_n, dict(observation=MD, prediction=MD), residual_map, ret=MD, suffix='map')

POS = Dbl(choices=[1.0, 2.0, 0.5, -3.0])
LC('stat.test.pull', dict(observation=D, prediction=D, uncertainty=D), lambda observation, prediction, uncertainty: div(observation - prediction, uncertainty), suffix='number')
LC('model.reg.pull', dict(observation=D, prediction=D, uncertainty=D), lambda observation, prediction, uncertainty: div(observation - prediction, uncertainty), suffix='number')


def pull_array(observation, prediction, uncertainty):
    if Not(Len(observation) == Len(prediction)):
        return Raise(38020)
    if Not(Len(observation) == Len(uncertainty)):
        return Raise(38021)
    return Seq(Len(observation), lambda i: quot(at(observation, i) - at(prediction, i), at(uncertainty, i)))


LC('stat.test.pull', dict(observation=AD, prediction=AD, uncertainty=Arr(POS)), pull_array, ret=AD, suffix='array',
   pre=lambda observation, prediction, uncertainty: ForAll(0, Len(uncertainty), lambda i: Not(Eq(at(uncertainty, i), 0))))

for _n, _dof in (('model.reg.updateChi2', 'DOF'), ('stat.test.updateChi2', 'dof')):
    _acc = Rec('A', {'chi2': D, _dof: Int(lo=0, hi=2**31 - 2), 'other': W()})

    def chi2(pull, state, _dof=_dof, sq=None):
        return record(state, **{'chi2': Get(state, 'chi2') + sq(pull), _dof: Get(state, _dof) + 1})
    SQ = {'number': (D, lambda p: p * p), 'int': (Int(), lambda p: 1.0 * p * p), 'array': (AD, lambda p: total(Len(p), lambda i: at(p, i) * at(p, i))),
          'map': (MD, lambda p: total(Len(p), lambda i: Get(p, mapkey(p, i)) * Get(p, mapkey(p, i))))}
    for _s, (_t, _f) in SQ.items():
        LC(_n, dict(pull=_t, state=_acc), lambda pull, state, _c=chi2, _f=_f: _c(pull, state, sq=_f), ret=_acc, suffix=_s)
    LC(_n.replace('update', 'reduced'), dict(state=_acc), lambda state, _dof=_dof: div(Get(state, 'chi2'), Get(state, _dof)))
