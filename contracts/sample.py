"""P19: streaming statistics (lib/stat/sample.py).  The functions are reached through the text genpy writes, which tells them by the
record type which optional fields the state has."""
import math

from vc.engine import PathEnd

from contracts.common import *
from contracts.maps import mapkey, MapOf
from contracts.models import record
from contracts.numeric import div, quot

P = 'P19'
D = Dbl()
XD = Dbl(special=True)
AD = Arr(D)
I = Int()
N = Int(big=False)


class SampleContract(LibContract):
    """the text is made from the Avro types of the arguments"""

    def paramtypes(self, env=None):
        from titus.datatype import jsonNodeToAvroType
        return [jsonNodeToAvroType(t) for t in LibContract.paramtypes(self, env)]

    def vias(self):
        return ['genpy']


def SC(name, params, spec, ret, **kw):
    return SampleContract('stat.sample.' + name, P, params, spec, ret=ret, **kw)


def LC(name, params, spec, ret, **kw):
    return LibContract('stat.sample.' + name, P, params, spec, ret=ret, **kw)


# ------------------------------------------------------------------ count, mean and variance
WEIGHT = Dbl(choices=[1.0, 1.0, 2.0, 0.5, 0.0])
COUNT = Dbl(choices=[0.0, 1.0, 3.0])
LEVELS = [dict(), dict(mean=D), dict(mean=D, variance=D)]


def moments(x, w, s, level):
    """the fields of the state after one more value"""
    n = Get(s, 'count')
    out = dict(count=n + w)
    if level:
        d = x - Get(s, 'mean')
        shift = quot(d * w, n + w)
        out['mean'] = Get(s, 'mean') + shift
        if level == 2:
            out['variance'] = quot(Get(s, 'variance') * n + n * d * shift, n + w)
    return out


for _l, _f in enumerate(LEVELS):
    _st = Rec('A', dict(other=W(), count=COUNT, **_f))
    SC('update', dict(x=D, w=WEIGHT, state=_st), lambda x, w, state, _l=_l: record(state, **moments(x, w, state, _l)), _st, suffix='level%d' % _l,
       pre=lambda x, w, state: Not(Get(state, 'count') + w == 0))

# ------------------------------------------------------------------ exponentially weighted moving average, Holt-Winters
ALPHA = Dbl(choices=[0.0, 1.0, 0.5, 0.25, -0.5, 1.5])


def ewma(x, alpha, state, var):
    if Or(alpha < 0, alpha > 1):
        return Raise(14030)
    d = x - Get(state, 'mean')
    out = dict(mean=Get(state, 'mean') + alpha * d)
    if var:
        out['variance'] = (1 - alpha) * (Get(state, 'variance') + alpha * d * d)
    return record(state, **out)


for _v in (False, True):
    _st = Rec('A', dict(other=W(), mean=D, **(dict(variance=D) if _v else {})))
    SC('updateEWMA', dict(x=D, alpha=ALPHA, state=_st), lambda x, alpha, state, _v=_v: ewma(x, alpha, state, _v), _st, suffix='variance' if _v else 'mean')


def unit(*pairs):
    for code, v in pairs:
        if Or(v < 0, v > 1):
            return Raise(code)
    return None


HW = dict(other=W(), level=D, trend=D)


def holt_winters(x, alpha, beta, state):
    bad = unit((14040, alpha), (14041, beta))
    if bad is not None:
        return bad
    level = alpha * x + (1 - alpha) * (Get(state, 'level') + Get(state, 'trend'))
    return record(state, level=level, trend=beta * (level - Get(state, 'level')) + (1 - beta) * Get(state, 'trend'))


LC('updateHoltWinters', dict(x=D, alpha=ALPHA, beta=ALPHA, state=Rec('A', HW)), holt_winters, Rec('A', HW))
PHW = Rec('A', dict(HW, cycle=AD, multiplicative=Bool()))
rot = lambda i, n: If(i + 1 < n, i + 1, 0)


def periodic(x, alpha, beta, gamma, state):
    bad = unit((14050, alpha), (14051, beta), (14052, gamma))
    if bad is not None:
        return bad
    c = Get(state, 'cycle')
    n = Len(c)
    if n == 0:
        return Raise(14053)
    before = at(c, rot(0, n))
    last = Get(state, 'level') + Get(state, 'trend')
    if Get(state, 'multiplicative'):
        if before == 0:
            return Skip()
        level = alpha * x / before + (1 - alpha) * last
        if level == 0:
            return Skip()
        now = gamma * x / level + (1 - gamma) * before
    else:
        level = alpha * (x - before) + (1 - alpha) * last
        now = gamma * (x - level) + (1 - gamma) * before
    return record(state, level=level, trend=beta * (level - Get(state, 'level')) + (1 - beta) * Get(state, 'trend'),
                  cycle=Seq(n, lambda i: If(i == 0, now, at(c, rot(i, n)))))


def Skip():
    """an outcome that is not finite: outside the contract"""
    if symbolic():
        raise PathEnd()
    return Pred(lambda out: {'any': True})


LC('updateHoltWintersPeriodic', dict(x=D, alpha=ALPHA, beta=ALPHA, gamma=ALPHA, state=PHW), periodic, PHW)


def forecast(i, state):
    c = Get(state, 'cycle')
    now = Get(state, 'level') + i * Get(state, 'trend')
    return If(Get(state, 'multiplicative'), now * at(c, i % Len(c)), now + at(c, i % Len(c)))


SC('forecast1HoltWinters', dict(state=Rec('A', HW)), lambda state: Get(state, 'level') + Get(state, 'trend'), D, suffix='plain')
SC('forecast1HoltWinters', dict(state=PHW), lambda state: forecast(1, state) if Not(Len(Get(state, 'cycle')) == 0) else Raise(14060), D, suffix='periodic')
SC('forecastHoltWinters', dict(n=N, state=Rec('A', HW)), lambda n, state: Seq(Max2(n, 0), lambda i: Get(state, 'level') + (i + 1) * Get(state, 'trend')), AD, suffix='plain')
SC('forecastHoltWinters', dict(n=N, state=PHW), lambda n, state: Seq(Max2(n, 0), lambda i: forecast(i + 1, state)) if Not(Len(Get(state, 'cycle')) == 0) else Raise(14070), AD, suffix='periodic')

# ------------------------------------------------------------------ counters and top-n
CNT = Rec('A', dict(other=W(), values=MapT(D)))


def fill_counter(x, w, counter):
    m = Get(counter, 'values')
    return record(counter, values=MapOf(lambda k: Or(Has(m, k), Eq(k, x)), lambda k: If(Eq(k, x), If(Has(m, k), Get(m, k), 0.0) + w, Get(m, k)) if symbolic() else m.get(k, 0.0) + (w if k == x else 0.0), m, [m, [x]]))


LC('fillCounter', dict(x=Key(), w=D, counter=CNT), fill_counter, CNT)


def top(x, top, n, lessThan):
    if n <= 0:
        return Seq(0, lambda i: x)
    j = First(Len(top), lambda i: lessThan(at(top, i), x))
    return Slice(Seq(Len(top) + 1, lambda i: If3(i, j, j + 1, lambda: at(top, i), lambda: x, lambda: at(top, i - 1))), 0, n)


LC('topN', dict(x=W(), top=Arr(W()), n=N, lessThan=Fn([W(), W()], Bool())), top, Arr(W()), inv=lambda x, top, n, lessThan: [before(lambda i: lessThan(at(top, i), x))])


# ------------------------------------------------------------------ histograms
FLOWS = ['underflow', 'overflow', 'nanflow', 'infflow']
LOW, HIGH = Dbl(choices=[0.0, -2.0, 5.0]), Dbl(choices=[4.0, 10.0])


def flowing(has, x, low, high):
    """the counter that takes x, or None when it belongs in the bins; without a counter for infinities, they are over or under"""
    if has and IsInf(x):
        return 'infflow'
    if IsNan(x):
        return 'nanflow'
    if IsInf(x):
        return 'overflow' if x > 0 else 'underflow'
    if high is not None and x >= high:
        return 'overflow'
    if x < low:
        return 'underflow'
    return None


def filled(h, w, which, values, flows):
    """the record with the weight added to one counter, or with new values"""
    out = dict(values=values if which is None else Get(h, 'values'))
    for f in flows:
        out[f] = Get(h, f) + (w if f == which else 0.0)
    return record(h, **out)


def bump(values, j, w):
    return Seq(Len(values), lambda i: If(i == j, at(values, i) + w, at(values, i)))


def fixed_bins(x, w, histogram, flows):
    n, low, high, v = [Get(histogram, f) for f in ('numbins', 'low', 'high', 'values')]
    if n < 1:
        return Raise(14082)
    if Not(Len(v) == n):
        return Raise(14080)
    if low >= high:
        return Raise(14081)
    which = flowing('infflow' in flows, x, low, high)
    return filled(histogram, w, which, bump(v, Min2(Floor((x - low) / (high - low) * n), n - 1), w) if which is None else None, flows)


def growing_bins(x, w, histogram, flows):
    size, low, v = [Get(histogram, f) for f in ('binsize', 'low', 'values')]
    if size <= 0:
        return Raise(14082)
    which = flowing('infflow' in flows, x, low, None)
    if which is not None:
        return filled(histogram, w, which, None, flows)
    j = Floor((x - low) / size)
    if j < Len(v):
        return filled(histogram, w, None, bump(v, j, w), flows)
    return filled(histogram, w, None, Seq(j + 1, lambda i: If3(i, Len(v), j, lambda: at(v, i), lambda: 0.0, lambda: w)), flows)


def proper(p):
    return And(Len(p) == 2, at(p, 0) < at(p, 1)) if symbolic() else len(p) == 2 and p[0] < p[1]


class Ranges(Arr):
    def gen(self, env):
        r = env.rng
        out = []
        for _ in range(r.choice([2, 2, 2, 0, 1, 3])):
            a = r.choice([-2.0, 0.0, 1.0, 3.5])
            out.append([a, a + r.choice([1.0, 2.0, 8.0])] if r.random() < 0.93 else [a] * r.choice([0, 1, 2, 3]))
        return out


def ranged_bins(x, w, histogram, flows):
    r, v = Get(histogram, 'ranges'), Get(histogram, 'values')
    n = Len(r)
    if Not(Len(v) == n):
        return Raise(14080)
    if Not(ForAll(0, n, lambda i: proper(at(r, i)))):
        return Raise(14083)
    hit = (lambda i: And(x >= at(at(r, i), 0), x < at(at(r, i), 1))) if not (IsNan(x) or IsInf(x)) else (lambda i: False)
    if 'infflow' in flows and IsInf(x):
        which = 'infflow'
    elif IsNan(x):
        which = 'nanflow'
    elif IsInf(x):
        which = 'underflow'
    elif Exists(0, n, hit):
        which = None
    else:
        which = 'underflow'
    return filled(histogram, w, which, Seq(n, lambda i: If(hit(i), at(v, i) + w, at(v, i))) if which is None else None, flows)


for _flows in ([], FLOWS):
    _fl = {f: D for f in _flows}
    _s = 'flows' if _flows else ''
    _h = Rec('H', dict(other=W(), numbins=Int(big=False, choices=[1, 2, 3]), low=LOW, high=HIGH, values=AD, **_fl))
    SC('fillHistogram', dict(x=XD, w=D, histogram=_h), lambda x, w, histogram, _f=_flows: fixed_bins(x, w, histogram, _f), _h, suffix='fixed' + _s)
    _h = Rec('H', dict(other=W(), low=LOW, binsize=Dbl(choices=[1.0, 2.0, 0.5], lo=-1.0, hi=10.0), values=AD, **_fl))
    SC('fillHistogram', dict(x=XD, w=D, histogram=_h), lambda x, w, histogram, _f=_flows: growing_bins(x, w, histogram, _f), _h, suffix='growing' + _s)
    _h = Rec('H', dict(other=W(), ranges=Ranges(AD), values=AD, **_fl))
    SC('fillHistogram', dict(x=XD, w=D, histogram=_h), lambda x, w, histogram, _f=_flows: ranged_bins(x, w, histogram, _f), _h, suffix='ranged' + _s)


# ------------------------------------------------------------------ two-dimensional histograms
FLOWS2 = ['underunderflow', 'undermidflow', 'underoverflow', 'midunderflow', 'midoverflow', 'overunderflow', 'overmidflow', 'overoverflow', 'nanflow', 'infflow']


def where(x, low, high):
    if IsInf(x):
        return 'over' if x > 0 else 'under'
    if x >= high:
        return 'over'
    if x < low:
        return 'under'
    return 'mid'


def fill2d(x, y, w, histogram, flows):
    nx, xl, xh, ny, yl, yh, v = [Get(histogram, f) for f in ('xnumbins', 'xlow', 'xhigh', 'ynumbins', 'ylow', 'yhigh', 'values')]
    if Or(nx < 1, ny < 1):
        return Raise(14092)
    if Or(Not(Len(v) == nx), Not(ForAll(0, Len(v), lambda i: Len(at(v, i)) == ny))):
        return Raise(14090)
    if Or(xl >= xh, yl >= yh):
        return Raise(14091)
    if IsNan(x) or IsNan(y):
        which = 'nanflow'
    elif flows and (IsInf(x) or IsInf(y)):
        which = 'infflow'
    else:
        which = where(x, xl, xh) + where(y, yl, yh) + 'flow'
    if which != 'midmidflow':
        return filled(histogram, w, which, None, flows)
    i, j = Min2(Floor((x - xl) / (xh - xl) * nx), nx - 1), Min2(Floor((y - yl) / (yh - yl) * ny), ny - 1)
    row = bump(at(v, i), j, w)
    return filled(histogram, w, None, Seq(Len(v), lambda k: If(k == i, row, at(v, k))), flows)


class Grid(Arr):
    def gen(self, env):
        r = env.rng
        n, m = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        return [[self.t.t.gen(env) for _ in range(m if r.random() < 0.97 else r.randint(0, 3))] for _ in range(n)]


_N = Int(big=False, choices=[1, 2, 3])
for _flows in ([], FLOWS2):
    _h = Rec('H', dict(other=W(), xnumbins=_N, xlow=LOW, xhigh=HIGH, ynumbins=_N, ylow=LOW, yhigh=HIGH, values=Grid(AD), **{f: D for f in _flows}))
    SC('fillHistogram2d', dict(x=XD, y=XD, w=D, histogram=_h), lambda x, y, w, histogram, _f=_flows: fill2d(x, y, w, histogram, _f), _h, suffix='flows' if _flows else 'plain',
       inv=lambda x, y, w, histogram: [sofar(lambda i: Len(at(Get(histogram, 'values'), i)) == Get(histogram, 'ynumbins'))])


# ------------------------------------------------------------------ covariance
COV = Rec('A', dict(other=W(), count=COUNT, mean=AD, covariance=Arr(AD)))


def new_mean(x, w, s):
    m, n = Get(s, 'mean'), Get(s, 'count')
    return lambda i: at(m, i) + quot((at(x, i) - at(m, i)) * w, n + w)


def new_covariance(x, w, s):
    m, n, c = Get(s, 'mean'), Get(s, 'count'), Get(s, 'covariance')
    return lambda i, j: quot(at(at(c, i), j) * n + quot((at(x, i) - at(m, i)) * (at(x, j) - at(m, j)) * w * n, n + w), n + w)


def covariance(x, w, state):
    size, c = Len(x), Get(state, 'covariance')
    if size < 2:
        return Raise(14011)
    if Not(And(Len(Get(state, 'mean')) == size, Len(c) == size, ForAll(0, Len(c), lambda i: Len(at(c, i)) == size))):
        return Raise(14012)
    f = new_covariance(x, w, state)
    return record(state, count=Get(state, 'count') + w, mean=Seq(size, new_mean(x, w, state)), covariance=Seq(size, lambda i: Seq(size, lambda j: f(i, j))))


def cov_inv(x, w, state):
    f = new_covariance(x, w, state)
    return [sofar(lambda i: Len(at(Get(state, 'covariance'), i)) == Len(x)),
            Inv('rows', lambda k: Seq(k, lambda i: Seq(Len(x), lambda j: f(i, j))), kinds=('list',), level=0, defn=True),
            Inv('row', lambda k, ks: Seq(k, lambda j: f(ks[0], j)), kinds=('list',), level=1, outer=True, defn=True)]



class CovState(Rec):
    def gen(self, env):
        out = Rec.gen(self, env)
        n = env.rng.choice([2, 2, 2, 3, 1])
        out['mean'] = [D.gen(env) for _ in range(n)]
        out['covariance'] = [[D.gen(env) for _ in range(n if env.rng.random() < 0.97 else 1)] for _ in range(n)]
        return out


COV = CovState('A', COV.fields)
LC('updateCovariance', dict(x=AD, w=WEIGHT, state=COV), covariance, COV, suffix='array', pre=lambda x, w, state: Not(Get(state, 'count') + w == 0), inv=cov_inv)

# ------------------------------------------------------------------ sliding windows


def negs():
    return sym.engine().ghosts[0]


def window(x, w, state, windowSize, level):
    if windowSize < 2:
        return Raise(14020)
    n = Len(state)
    if n == 0:
        first = dict(x=x, w=w, count=w)
        if level:
            first['mean'] = x
        if level == 2:
            first['variance'] = 0.0
        return Seq(1, lambda i: record(LDict({}), **first)) if symbolic() else [first]
    last = at(state, n - 1)
    if n < windowSize:
        if Get(last, 'count') + w == 0:
            return Skip()
        new = record(last, x=x, w=w, **moments(x, w, last, level))
        return Seq(n + 1, lambda i: If3(i, n, n + 1, lambda: at(state, i), lambda: new, lambda: None))
    r = n - windowSize + 1
    X, Wt = lambda i: Get(at(state, i), 'x'), lambda i: Get(at(state, i), 'w')
    count = Get(last, 'count') + w
    if symbolic():
        removed = Fold('real', r, 0.0, lambda acc, i: acc - Wt(i))
        left = lambda i: count + ghost(0, i)
    else:
        removed = -sum(Wt(i) for i in range(r))
        left = lambda i: count - sum(Wt(j) for j in range(i))
    out = dict(x=x, w=w, count=count + removed)
    if level:
        # the counts divided by are not zero
        ok = And(Not(count == 0), ForAll(0, r, lambda i: Not(left(i + 1) == 0)))
        if Not(ok):
            return Skip()
        d = x - Get(last, 'mean')
        shift = quot(d * w, count)
        step = lambda m, i: quot((X(i) - m) * -Wt(i), left(i + 1))
        start = Get(last, 'mean') + shift
        out['mean'] = Fold('real', r, start, lambda m, i: m + step(m, i))
        if level == 2:
            if symbolic():
                mean = lambda i: ghost(1, i)
            else:
                mean = lambda i: Fold('real', i, start, lambda m, j: m + step(m, j))
            fix = Fold('real', r, 0.0, lambda c, i: c + (left(i + 1) + Wt(i)) * (X(i) - mean(i)) * step(mean(i), i))
            out['variance'] = quot(Get(last, 'variance') * Get(last, 'count') + Get(last, 'count') * d * shift + fix, count + removed)
    new = record(last, **out)
    return Seq(windowSize, lambda i: If3(i, windowSize - 1, windowSize, lambda: at(state, r + i), lambda: new, lambda: None))


class States(Arr):
    def gen(self, env):
        return [self.t.gen(env) for _ in range(env.rng.choice([0, 1, 2, 3, 4, 5]))]


for _l, _f in enumerate(LEVELS):
    _st = Rec('A', dict(x=D, w=Dbl(choices=[1.0, 2.0, 0.5]), count=Dbl(choices=[30.0, 40.0]), **_f))
    SC('updateWindow', dict(x=D, w=WEIGHT, state=States(_st), windowSize=Int(big=False, choices=[2, 3, 1])), lambda x, w, state, windowSize, _l=_l: window(x, w, state, windowSize, _l), Arr(_st), suffix='level%d' % _l,
       inv=lambda x, w, state, windowSize: [Inv('count left', lambda k, v: v == Get(at(state, Len(state) - 1), 'count') + w + ghost(0, k), kinds=('real',))])
