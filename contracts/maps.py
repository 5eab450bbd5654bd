"""P12: the map library."""
import functools
from functools import cmp_to_key
from contracts.common import *
from vc.spec import NOVAL, Map as MapOf

A, B = W('A'), W('B')
MA, MB = MapT(A), MapT(B)
K = Key()
BOOL = Bool()
P = 'P12'


def LC(name, params, spec, **kw):
    return LibContract('map.' + name, P, params, spec, **kw)


def keys(m):
    return Pred(lambda out: {'as many entries as the map': Len(out) == Len(m),
                             'each is a key of the map': ForAll(0, Len(out), lambda i: Has(m, at(out, i))),
                             'each key is there': ForAllKeys(m, lambda k: Implies(Has(m, k), In(k, out)))})


def values(m):
    return Pred(lambda out: {'as many entries as the map': Len(out) == Len(m),
                             'each is a value of the map': ForAll(0, Len(out), lambda i: HasValue(m, at(out, i))),
                             'each value is there': ForAllKeys(m, lambda k: Implies(Has(m, k), In(Get(m, k), out)))})


def ExistsKey(m, p):
    return Not(ForAllKeys(m, lambda k: Implies(Has(m, k), Not(pin(m, k, p)))))


def pin(m, k, p):
    return p(k)


def HasValue(m, v):
    return ExistsKey(m, lambda k: Eq(Get(m, k), v))


LC('len', dict(m=MA), lambda m: Len(m), ret=Int())
LC('keys', dict(m=MA), keys, ret=Arr(K))
LC('values', dict(m=MA), values, ret=Arr(A))
LC('containsKey', dict(m=MA, key=K), lambda m, key: Has(m, key), ret=BOOL, suffix='key')
LC('containsKey', dict(m=MA, fcn=Fn([K], BOOL)), lambda m, fcn: ExistsKey(m, fcn), ret=BOOL, suffix='fcn',
   inv=lambda m, fcn: [Inv('none so far', lambda k: ForAllKeys(m, lambda q: Implies(And(Has(m, q), keyindex(m, q) < k), Not(fcn(q)))))])
LC('containsValue', dict(m=MA, value=A), lambda m, value: HasValue(m, value), ret=BOOL, suffix='value',
   inv=lambda m, value: [Inv('none so far', lambda k: ForAllKeys(m, lambda q: Implies(And(Has(m, q), keyindex(m, q) < k), Not(Eq(value, Get(m, q))))))])
LC('containsValue', dict(m=MA, fcn=Fn([A], BOOL)), lambda m, fcn: ExistsKey(m, lambda k: fcn(Get(m, k))), ret=BOOL, suffix='fcn',
   inv=lambda m, fcn: [Inv('none so far', lambda k: ForAllKeys(m, lambda q: Implies(And(Has(m, q), keyindex(m, q) < k), Not(fcn(Get(m, q))))))])

LC('add', dict(m=MA, key=K, value=A), lambda m, key, value: MapOf(lambda k: Or(Has(m, k), Eq(k, key)), lambda k: If(Eq(k, key), value, Get(m, k)), m, [m, [key]]),
   ret=MA, suffix='key')
LC('remove', dict(m=MA, key=K), lambda m, key: MapOf(lambda k: And(Has(m, k), Not(Eq(k, key))), lambda k: Get(m, k), m, [m]), ret=MA)


def bykey(m, keys, has):
    """a loop over the keys given: those handled so far"""
    listed = lambda q, k: Exists(0, k, lambda i: Eq(at(keys, i), q))
    return [Inv('keys so far', lambda k: MapOf(lambda q: And(Has(m, q), has(listed(q, k))), lambda q: Get(m, q), m), kinds=('map',), defn=True)]


LC('only', dict(m=MA, keys=Arr(K)), lambda m, keys: MapOf(lambda k: And(Has(m, k), In(k, keys)), lambda k: Get(m, k), m, [m]), ret=MA,
   inv=lambda m, keys: bykey(m, keys, lambda c: c))
LC('except', dict(m=MA, keys=Arr(K)), lambda m, keys: MapOf(lambda k: And(Has(m, k), Not(In(k, keys))), lambda k: Get(m, k), m, [m]), ret=MA,
   inv=lambda m, keys: bykey(m, keys, Not))


def overlay(a, b):
    return MapOf(lambda k: Or(Has(a, k), Has(b, k)), lambda k: pick(b, k, a), a, [a, b])


def pick(b, k, a):
    if symbolic():
        x, y = Get(b, k), Get(a, k)
        return y if x is NOVAL else x if y is NOVAL else If(Has(b, k), x, y)
    return b[k] if k in b else a[k]


LC('update', dict(base=MA, overlay=MA), lambda base, overlay: globals()['overlay'](base, overlay), ret=MA)
LC('union', dict(a=MA, b=MA), overlay, ret=MA)
LC('intersection', dict(a=MA, b=MA), lambda a, b: MapOf(lambda k: And(Has(a, k), Has(b, k)), lambda k: Get(a, k), a, [a]), ret=MA)
LC('diff', dict(a=MA, b=MA), lambda a, b: MapOf(lambda k: And(Has(a, k), Not(Has(b, k))), lambda k: Get(a, k), a, [a]), ret=MA)
LC('symdiff', dict(a=MA, b=MA), lambda a, b: MapOf(lambda k: Not(Iff(Has(a, k), Has(b, k))), lambda k: pick(b, k, a), a, [a, b]), ret=MA)
LC('subset', dict(little=MA, big=MA), lambda little, big: ForAllKeys(little, lambda k: Implies(Has(little, k), Has(big, k))), ret=BOOL)
LC('disjoint', dict(a=MA, b=MA), lambda a, b: ForAllKeys(a, lambda k: Not(And(Has(a, k), Has(b, k)))), ret=BOOL)


def split(m):
    return Pred(lambda out: {'as many maps as entries': Len(out) == Len(m),
                             'each has one entry, of the map': ForAll(0, Len(out), lambda i: And(Len(at(out, i)) == 1, inside(at(out, i), m))),
                             'each entry is there': ForAllKeys(m, lambda k: Implies(Has(m, k), Exists(0, Len(out), lambda i: Has(at(out, i), k))))})


def inside(x, m):
    return ForAllKeys(m, lambda k: Implies(Has(x, k), And(Has(m, k), Eq(Get(x, k), Get(m, k))))) if symbolic() else all(k in m and close(x[k], m[k]) for k in x)


def single(m, k, x):
    """x is the map of the one entry of m at key k"""
    return And(Len(x) == 1, ForAllKeys(m, lambda q: Iff(Has(x, q), Eq(q, k))), Eq(Get(x, k), Get(m, k)))


LC('split', dict(m=MA), split, ret=Arr(MA),
   inv=lambda m: [Inv('one map per key', lambda k, out: ForAll(0, Len(out), lambda i: single(m, mapkey(m, i), at(out, i))), kinds=('list',))])
LC('join', dict(a=Arr(MA)), lambda a: Fold(MA.kind(), Len(a), {}, lambda acc, i: overlay(acc, at(a, i))), ret=MA,
   inv=lambda a: [Inv('inner', lambda k, ks: partly(ghost(0, ks[0]), at(a, ks[0]), k), kinds=('map',), level=1, outer=True, defn=True)] + pairlist())
LC('fromset', dict(s=MA), lambda s: values(s), ret=Arr(A))

LC('map', dict(m=MA, fcn=Fn([A], B)), lambda m, fcn: MapOf(lambda k: Has(m, k), lambda k: fcn(Get(m, k)), m, [m]), ret=MB)
LC('mapWithKey', dict(m=MA, fcn=Fn([K, A], B)), lambda m, fcn: MapOf(lambda k: Has(m, k), lambda k: fcn(k, Get(m, k)), m, [m]), ret=MB)
LC('filter', dict(m=MA, fcn=Fn([A], BOOL)), lambda m, fcn: MapOf(lambda k: And(Has(m, k), fcn(Get(m, k))), lambda k: Get(m, k), m, [m]), ret=MA)
LC('filterWithKey', dict(m=MA, fcn=Fn([K, A], BOOL)), lambda m, fcn: MapOf(lambda k: And(Has(m, k), fcn(k, Get(m, k))), lambda k: Get(m, k), m, [m]), ret=MA)


def corresponds(a, b, p):
    if Not(ForAllKeys(a, lambda k: Iff(Has(a, k), Has(b, k)))):
        return False
    if not symbolic() and set(a) != set(b):
        return False
    return ForAllKeys(a, lambda k: Implies(Has(a, k), p(k, Get(a, k), Get(b, k))))


LC('corresponds', dict(a=MA, b=MB, fcn=Fn([A, B], BOOL)), lambda a, b, fcn: corresponds(a, b, lambda k, x, y: fcn(x, y)), ret=BOOL)
LC('correspondsWithKey', dict(a=MA, b=MB, fcn=Fn([K, A, B], BOOL)), lambda a, b, fcn: corresponds(a, b, fcn), ret=BOOL)


def mapkey(m, i):
    """the i-th key in the iteration order of m"""
    return sym.tomap(m).keyseq.at(i) if symbolic() else list(m)[i]


def flatmapped(m, fcn, key):
    return Fold(MB.kind(), Len(m), {}, lambda acc, i: overlay(acc, fcn(*([mapkey(m, i)] if key else []) + [Get(m, mapkey(m, i))])))


def partly(acc, r, k):
    """acc with the first k entries of r laid over it"""
    return MapOf(lambda q: Or(Has(acc, q), And(Has(r, q), keyindex(r, q) < k)),
                 lambda q: If(And(Has(r, q), keyindex(r, q) < k), Get(r, q), Get(r, q) if Get(acc, q) is NOVAL else Get(acc, q)), r)


def fmap(key):
    def inv(m, fcn):
        r = lambda ks: fcn(*([mapkey(m, ks[0])] if key else []) + [Get(m, mapkey(m, ks[0]))])
        return [Inv('inner', lambda k, ks: partly(ghost(0, ks[0]), r(ks), k), kinds=('map',), level=1, outer=True, defn=True)] + pairlist()
    return inv


def pairlist():
    """a list of key-value pairs from which the map is made: the last pair with a key counts"""
    return [Inv('keys', lambda k, out: ForAll(0, Len(out), lambda i: Has(ghost(0, k), at(out, i)[0])), kinds=('list',)),
            Inv('last', lambda k, out: ForAllKeys(ghost(0, k), lambda q: Implies(Has(ghost(0, k), q), Exists(0, Len(out), lambda i: And(
                Eq(at(out, i)[0], q), Eq(at(out, i)[1], Get(ghost(0, k), q)), ForAll(i + 1, Len(out), lambda j: Not(Eq(at(out, j)[0], q)))))), K.kind()), kinds=('list',))]


LC('flatMap', dict(m=MA, fcn=Fn([A], MB)), lambda m, fcn: flatmapped(m, fcn, False), ret=MB, inv=fmap(False))
LC('flatMapWithKey', dict(m=MA, fcn=Fn([K, A], MB)), lambda m, fcn: flatmapped(m, fcn, True), ret=MB, inv=fmap(True))


def filtermapped(m, fcn, key):
    if not symbolic():
        vs = {k: fcn(*([k] if key else []) + [x]) for k, x in m.items()}
        return {k: list(v.values())[0] if isinstance(v, dict) and len(v) == 1 else v for k, v in vs.items() if v is not None}
    args = lambda k: ([k] if key else []) + [Get(m, k)]
    return MapOf(lambda k: And(Has(m, k), fcn.some(*args(k))), lambda k: fcn.val(*args(k)), m)


def fminv(key):
    def inv(m, fcn):
        args = lambda k: ([k] if key else []) + [Get(m, k)]
        return built(m, lambda q: fcn.some(*args(q)), lambda q: fcn.val(*args(q)))
    return inv


def built(m, has, get):
    """the entries of the first k keys of m are in the result"""
    return [Inv('entries so far', lambda k, out: ForAllKeys(m, lambda q: And(Iff(Has(out, q), And(Has(m, q), And(keyindex(m, q) < k, has(q)))),
                                                                         Implies(Has(out, q), Eq(Get(out, q), get(q))))), kinds=('map',))]


def zipmap(code, key):
    def spec(fcn, **ms):
        xs = list(ms.values())
        for y in xs[1:]:
            if Not(ForAllKeys(xs[0], lambda k: Iff(Has(xs[0], k), Has(y, k)))) or not symbolic() and set(xs[0]) != set(y):
                return Raise(code)
        return MapOf(lambda k: Has(xs[0], k), lambda k: fcn(*(([k] if key else []) + [Get(x, k) for x in xs])), xs[0], [xs[0]])
    return spec


for _n in (2, 3, 4):
    _maps = [('abcd'[i], MapT(W('ABCD'[i]))) for i in range(_n)]
    _f = Fn([t.t for _, t in _maps], W('Z'))
    _fk = Fn([K] + [t.t for _, t in _maps], W('Z'))
    LC('zipmap', dict(_maps + [('fcn', _f)]), zipmap(26370, False), ret=MapT(W('Z')), suffix=str(_n),
       inv=lambda fcn, **ms: built(ms['a'], lambda q: True, lambda q: fcn(*[Get(x, q) for x in ms.values()])))
    LC('zipmapWithKey', dict(_maps + [('fcn', _fk)]), zipmap(26380, True), ret=MapT(W('Z')), suffix=str(_n),
       inv=lambda fcn, **ms: built(ms['a'], lambda q: True, lambda q: fcn(q, *[Get(x, q) for x in ms.values()])))

LC('filterMap', dict(m=MA, fcn=UnionFn([A], B)), lambda m, fcn: filtermapped(m, fcn, False), ret=MB, inv=fminv(False))
LC('filterMapWithKey', dict(m=MA, fcn=UnionFn([K, A], B)), lambda m, fcn: filtermapped(m, fcn, True), ret=MB, inv=fminv(True))

for _key, _n in ((False, 'filterMap'), (True, 'filterMapWithKey')):
    LC(_n, dict(m=MA, fcn=UnionFn([K, A] if _key else [A], TAGLIKE)), lambda m, fcn, key=_key: filtermapped(m, fcn, key), ret=MapT(TAGLIKE), inv=fminv(_key), suffix='record')


# ------------------------------------------------------------------ extreme values
def extreme(m, n, lt):
    """the first n keys of m by decreasing value (of lt), keys with values that compare equal in increasing order"""
    if not symbolic():
        return sorted(m, key=cmp_to_key(lambda p, q: -1 if lt(m[q], m[p]) else 1 if lt(m[p], m[q]) else -1 if p < q else 1))[:n]

    def step(acc, i):
        k = mapkey(m, i)
        x = Get(m, k)
        j = First(Len(acc), lambda j: behind(m, lt, at(acc, j), k))
        return Slice(splice(acc, j, j, [k], 1), 0, n)
    return Fold(('list', K.kind()), Len(m), [], step)


def behind(m, lt, p, k):
    """p comes after k"""
    return Or(lt(Get(m, p), Get(m, k)), And(Not(lt(Get(m, k), Get(m, p))), Lt(k, p)))


def argpairs(m, n, lt):
    def pair(k):
        g = ghost(0, k)
        return Seq(Len(g), lambda j: (at(g, j), Get(m, at(g, j))))
    return [Inv('keys and values', pair, kinds=('list',), level=0, defn=True),
            Inv('length', lambda k: Len(ghost(0, k)) == Min2(n, k), level=0),
            Inv('none before', lambda k, ks: ForAll(0, k, lambda j: Not(behind(m, lt, at(ghost(0, ks[0]), j), mapkey(m, ks[0])))), level=1, outer=True)]


def flip(lt):
    return lambda x, y: lt(y, x)


for _name, _code, _dir in (('argmax', 26120, 1), ('argmin', 26130, -1)):
    _d = (lambda lt: lt) if _dir == 1 else flip

    def argone(m, lessThan=Lt, d=_d, code=_code, plus=0):
        if Len(m) == 0:
            return Raise(code + plus)
        return at(extreme(m, 1, d(lessThan)), 0)

    def argmany(m, n, lessThan=Lt, d=_d, code=_code, plus=40):
        if Len(m) == 0:
            return Raise(code + plus)
        if n < 0:
            return Raise(code + plus + 1)
        return extreme(m, n, d(lessThan))

    def inv2(m, n=1, lessThan=Lt, d=_d):
        return argpairs(m, n, d(lessThan))
    LT = LtFn(A)
    LC(_name, dict(m=MA), argone, ret=K, inv=inv2, budget=200)
    LC(_name + 'LT', dict(m=MA, lessThan=LT), functools.partial(argone, plus=20), ret=K, inv=inv2, budget=200)
    LC(_name + 'N', dict(m=MA, n=Int()), argmany, ret=Arr(K), inv=inv2, budget=400)
    LC(_name + 'NLT', dict(m=MA, n=Int(), lessThan=LT), functools.partial(argmany, plus=60), ret=Arr(K), inv=inv2, budget=400)


# ------------------------------------------------------------------ maps as sets of values
def varint(n):
    z = (n << 1) ^ (n >> 63)
    out = bytearray()
    while z > 0x7f:
        out.append(z & 0x7f | 0x80)
        z >>= 7
    out.append(z)
    return bytes(out)


def tokey(x, t):
    """the set key of a value: its Avro encoding in base 64 (during verification: some injective function)"""
    import base64
    import struct
    z3 = sym.z3
    if symbolic():
        s = sym.kind_sort(t.kind())
        f, g = sym.uf('tokey', s, sym.usort('Key')), sym.uf('ofkey', sym.usort('Key'), s)
        e = sym.engine()
        if e.hook_state.get('tokey') != e.pathid:
            e.hook_state['tokey'] = e.pathid
            v = z3.Const('tk!', s)
            e.assume(z3.ForAll([v], g(f(v)) == v, patterns=[f(v)]))
        return sym.wrap(K.kind(), f(x.t if isinstance(x, sym.Sym) else sym.toreal(x) if t.json == 'double' else sym.str_term(x) if t.json == 'string' else num_term(x)))
    raw = varint(x) if t.json in ('int', 'long') else struct.pack('<d', x) if t.json == 'double' else varint(len(x.encode())) + x.encode()
    return base64.b64encode(raw).decode()


def keyof(t):
    def toKey(ip, args, kw):
        from vc.contract import check_cmp_type
        ip.e.stats['trusted'].add('ObjKey.toKey is injective on the values of a type (assumed; checked concretely)')
        self, x, avro = args
        if avro.name != t.json:
            raise sym_raise(TypeError("set key of the wrong type"))
        return tokey(x, t)
    return toKey


def sym_raise(exc):
    from vc.engine import PyRaise
    return PyRaise(exc)


def objkey(t):
    import titus.lib.map as M
    return {M.ObjKey.toKey: keyof(t)}


def setinv(t):
    return lambda a: [
        Inv('items so far', lambda k, out: ForAll(0, k, lambda i: And(Has(out, tokey(at(a, i), t)), Eq(Get(out, tokey(at(a, i), t)), at(a, i)))), kinds=('map',)),
        Inv('only items so far', lambda k, out: ForAllKeys(out, lambda q: Implies(Has(out, q), Exists(0, k, lambda i: Eq(q, tokey(at(a, i), t)))), K.kind()), kinds=('map',))]


def toset(t):
    def spec(a):
        return Pred(lambda out: {'every item, under its key': ForAll(0, Len(a), lambda i: And(Has(out, tokey(at(a, i), t)), Eq(Get(out, tokey(at(a, i), t)), at(a, i)))),
                                 'nothing else': ForAllKeys(out, lambda k: Implies(Has(out, k), Exists(0, Len(a), lambda i: Eq(k, tokey(at(a, i), t)))), K.kind())})
    return spec


for _t, _lab in ((Int(), 'int'), (Str(), 'string'), (Dbl(), 'double')):
    LC('add', dict(m=MapT(_t), item=_t), lambda m, item, t=_t: MapOf(lambda k: Or(Has(m, k), Eq(k, tokey(item, t))), lambda k: If(Eq(k, tokey(item, t)), item, Get(m, k)), m, [m, [tokey(item, t)]]),
       ret=MapT(_t), suffix='item,' + _lab, summaries=objkey(_t))
    LC('toset', dict(a=Arr(_t)), toset(_t), ret=MapT(_t), suffix=_lab, summaries=objkey(_t), inv=setinv(_t))
    LC('in', dict(s=MapT(_t), x=_t), lambda s, x, t=_t: Has(s, tokey(x, t)), ret=BOOL, suffix=_lab, summaries=objkey(_t))
