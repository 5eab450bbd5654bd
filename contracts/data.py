"""P04: values entering and leaving an engine conform to their declared types
(titus.datatype.jsonDecoder, jsonEncoder, checkData)."""
import json

import titus.datatype as D
import titus.util
from titus.errors import AvroException
from contracts.common import *
from contracts.order import TypeObj
from vc.engine import PyRaise
from vc.sym import SA, SObj, SInt, SSeq, SStr, SBool

P = 'P04'
T = D.jsonNodeToAvroType
V, V2, TY = ('A', 'V'), ('A', 'W'), ('A', 'Ty')
# component types are opaque: conversion of a component either fails or yields a value, both functions of (type, value)


def comp(name, exc):
    def f(ip, args, kw):
        target = getattr(D, name)
        args = list(args)
        if name == 'checkData':
            args = [args[1], args[0]] + args[2:]
        t, v = args[0], args[1]
        if isinstance(t, SObj) and 'ty' in t.attrs:
            ip.e.stats['trusted'].add('structural induction on the type: %s on components meets its contract' % name)
            extra = ()
            if name == 'jsonEncoder':
                tagged = args[2] if len(args) > 2 else kw.get('tagged', True)
                extra = (tagged,)
            if not ok(name, t, v, *extra):
                ip.e.raise_(exc('component does not match'))
            return conv(name, t, v, *extra)
        return ip.inline(target, [args[1], args[0]] if name == 'checkData' else args, kw)
    return f


def vterm(v):
    if isinstance(v, LDict):
        (tag, x), = v._m.items.items()
        return sym.uf('single.' + tag, x.t.sort(), x.t.sort())(x.t)
    return v.t


def tagarg(extra):
    return [sym.z3.BoolVal(x) if isinstance(x, bool) else x.t for x in extra]


def ok(name, t, v, *extra):
    """component v is convertible at type t (the opaque component types are not null)"""
    if symbolic():
        if v is None:
            return False
        b = sym.uf(name + '.ok', *([t.attrs['ty'].sort(), vterm(v).sort()] + [sym.BoolS] * len(extra) + [sym.BoolS]))
        return SBool(b(t.attrs['ty'], vterm(v), *tagarg(extra)))
    try:
        call(name, t, v, *extra)
        return True
    except (AvroException, TypeError):
        return False


def conv(name, t, v, *extra):
    if symbolic():
        f = sym.uf(name + '.conv', *([t.attrs['ty'].sort(), vterm(v).sort()] + [sym.BoolS] * len(extra) + [sym.kind_sort(V2)]))
        return SA(f(t.attrs['ty'], vterm(v), *tagarg(extra)))
    return call(name, t, v, *extra)


def call(name, t, v, *extra):
    f = getattr(D, name)
    return f(v, t) if name == 'checkData' else f(t, v, *extra)


def tyobj(e, name):
    return SObj(D.AvroType, {'ty': sym.z3.Const(e.freshname(name + '.ty'), sym.kind_sort(TY))})


EXC = {'jsonDecoder': AvroException, 'jsonEncoder': AvroException, 'checkData': (TypeError, AvroException)}
REJ = {k: Raise(None, exc=v) for k, v in EXC.items()}
FNS = ('jsonDecoder', 'jsonEncoder', 'checkData')
NOPRINT = {titus.util.ts: lambda ip, args, kw: '<type>', json.dumps: lambda ip, args, kw: '<json>'}


def DC(fn, cid, params, spec, args=None, **kw):
    """args: vals -> (type, value, ...)"""
    mk = args or (lambda v: list(v.values()))

    def order(v):
        a = mk(v)
        return [a[1], a[0]] if fn == 'checkData' else a
    summ = {D.jsonDecoder: comp('jsonDecoder', AvroException), D.jsonEncoder: comp('jsonEncoder', AvroException), D.checkData: comp('checkData', TypeError)}
    summ.update(NOPRINT)
    kw.setdefault('models', {})
    return FnContract('%s#%s' % (fn, cid), P, lambda: getattr(D, fn), params, spec, args=order, summaries=summ, rawok=(AvroException, TypeError), **kw)


# ------------------------------------------------------------------ scalars
STRNUM = OneOf(s1=Const('12'), s2=Const('x1'), s3=Const('-7'), s4=Const('2.5'))
ANYV = OneOf(null=Null(), bool=Bool(), int=Int(lo=-2**70, hi=2**70, choices=[INT_MIN - 1, INT_MAX + 1, INT_MIN, INT_MAX, LONG_MAX + 1, LONG_MIN - 1]), double=Dbl(), string=Str(), numstr=STRNUM,
             array=Arr(Int()), map=SMapT(Int()))
ANYK = OneOf(null=Null(), bool=Bool(), int=Int(lo=-2**70, hi=2**70, choices=[INT_MIN - 1, INT_MAX + 1, INT_MIN, INT_MAX, LONG_MAX + 1, LONG_MIN - 1]), double=Dbl(), numstr=STRNUM, array=Arr(Int()),
             map=SMapT(Int()))


def kind(v):
    if v is None:
        return 'null'
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (float, sym.SReal)):
        return 'double'
    if isinstance(v, (str, SStr)):
        return 'string'
    if isinstance(v, (dict, LDict)):
        return 'map'
    return 'array'


def parse(f, s):
    try:
        return f(s)
    except ValueError:
        return None


def scalar(fn, t, V, spec):
    DC(fn, t, dict(t=Const(T(t)), v=V), lambda t, v: spec(v))


def rejecting(fn, kinds, f=lambda v: v):
    return lambda v: f(v) if kind(v) in kinds else REJ[fn]


for _fn in ('jsonDecoder', 'jsonEncoder'):
    scalar(_fn, 'null', ANYV, rejecting(_fn, ['null']))
    scalar(_fn, 'boolean', ANYV, rejecting(_fn, ['bool']))
    scalar(_fn, 'string', ANYV, rejecting(_fn, ['string']))
    scalar(_fn, 'bytes', ANYV, rejecting(_fn, ['string']))
for _t in ('int', 'long'):
    scalar('jsonEncoder', _t, ANYV, rejecting('jsonEncoder', ['int']))
for _t in ('float', 'double'):
    scalar('jsonEncoder', _t, ANYV, rejecting('jsonEncoder', ['int', 'double'], Real))
DECN = OneOf(**dict(((k, t) for k, t in ANYK.opts.items() if k != 'double'), double=Dbl(special=True, choices=[2.5, -0.5, 2147483648.0, -2147483649.0, 2147483647.5, 1e300, -1e19])))


def decint(lo, hi):
    """integers are taken, fractions truncated, numerals parsed; booleans, everything else and whatever is out of range is rejected"""
    def spec(v):
        k = kind(v)
        if k == 'string':
            v = parse(int, v)
            if v is None:
                return REJ['jsonDecoder']
        elif k == 'double':
            if IsNan(v) or IsInf(v):
                return REJ['jsonDecoder']
            v = Trunc(v)
        elif k != 'int':
            return REJ['jsonDecoder']
        if Or(v < lo, v > hi):
            return REJ['jsonDecoder']
        return v
    return spec


def decreal(v):
    k = kind(v)
    if k == 'double':
        return v
    if k == 'int':
        return Real(v)
    if k == 'string':
        r = parse(float, v)
        return REJ['jsonDecoder'] if r is None else r
    return REJ['jsonDecoder']


scalar('jsonDecoder', 'int', DECN, decint(INT_MIN, INT_MAX))
scalar('jsonDecoder', 'long', DECN, decint(LONG_MIN, LONG_MAX))
for _t in ('float', 'double'):
    scalar('jsonDecoder', _t, DECN, decreal)


def chkint(lo, hi):
    def spec(v):
        k = kind(v)
        if k == 'string':
            v = parse(int, v)
            if v is None:
                return REJ['checkData']
        elif k != 'int':
            return REJ['checkData']
        if Or(v < lo, v > hi):
            return REJ['checkData']
        return v
    return spec


def chkreal(v):
    k = kind(v)
    if k == 'string':
        v = parse(float, v)
        return REJ['checkData'] if v is None else v
    return Real(v) if k in ('int', 'double') else REJ['checkData']


CANYV = OneOf(**{k: t for k, t in ANYV.opts.items() if k not in ('string',)})
scalar('checkData', 'int', ANYK, chkint(INT_MIN, INT_MAX))
scalar('checkData', 'long', ANYK, chkint(LONG_MIN, LONG_MAX))
scalar('checkData', 'float', ANYK, chkreal)
scalar('checkData', 'double', ANYK, chkreal)
scalar('checkData', 'null', CANYV, rejecting('checkData', ['null']))
scalar('checkData', 'boolean', CANYV, rejecting('checkData', ['bool']))
scalar('checkData', 'string', ANYV, rejecting('checkData', ['string']))

# ------------------------------------------------------------------ enum and fixed
SYMS = ['a', 'b', 'hello', 'zzz']


def mkenum(e, name):
    return SObj(D.AvroEnum, {'symbols': Arr(Str()).make(e, 'symbols')})


def genum(env):
    return T({'type': 'enum', 'name': 'E', 'symbols': env.rng.sample(SYMS, env.rng.randint(1, 4))})


def mkfixed(e, name):
    return SObj(D.AvroFixed, {'size': Int(lo=0).make(e, 'size')})


def gfixed(env):
    return T({'type': 'fixed', 'name': 'F', 'size': env.rng.randint(1, 6)})


def attr(t, n):
    return t.attrs[n] if isinstance(t, SObj) else getattr(t, n)


def enumspec(fn):
    def spec(t, v):
        if kind(v) != 'string':
            return REJ[fn]
        s = attr(t, 'symbols')
        return v if Exists(0, Len(s), lambda i: Eq(at(s, i), v)) else REJ[fn]
    return spec


for _fn in FNS:
    DC(_fn, 'enum', dict(t=TypeObj(mkenum, genum), v=OneOf(null=Null(), int=Int(), string=Str(), array=Arr(Int()))), enumspec(_fn))
    DC(_fn, 'fixed', dict(t=TypeObj(mkfixed, gfixed), v=OneOf(null=Null(), int=Int(), string=Str(), array=Arr(Int()))),
       lambda t, v, _fn=_fn: v if kind(v) == 'string' and Len(v) == attr(t, 'size') else REJ[_fn])
RAWB = OneOf(empty=Const(b''), raw=Const(b'ab\xff\x00'), long=Const(b'0123456789'))
scalar('checkData', 'bytes', ANYV, rejecting('checkData', ['string']))
DC('checkData', 'rawbytes', dict(t=Const(T('bytes')), v=RAWB), lambda t, v: v.decode('latin-1'))
DC('checkData', 'rawfixed', dict(t=TypeObj(mkfixed, gfixed), v=RAWB), lambda t, v: v.decode('latin-1') if attr(t, 'size') == len(v) else REJ['checkData'])

# ------------------------------------------------------------------ arrays and maps
CT = ['int', 'string', 'boolean', {'type': 'array', 'items': 'string'}]


def mkarr(e, name):
    return SObj(D.AvroArray, {'items': tyobj(e, 'items')})


def mkmap(e, name):
    return SObj(D.AvroMap, {'values': tyobj(e, 'values')})


class CV(W):
    """a component value, convertible or not"""

    def gen(self, env):
        r = env.rng
        return r.choice([r.randint(-3, 9), r.randint(0, 3), 'a', True, ['q', 'r'], 5, 2])


VAL = CV('V')
TAGGED = OneOf(tagged=Const(True), untagged=Const(False))


def arrspec(fn):
    def spec(t, v, tagged=None):
        if kind(v) != 'array':
            return REJ[fn]
        c, ex = attr(t, 'items'), () if tagged is None else (tagged,)
        if Not(ForAll(0, Len(v), lambda i: ok(fn, c, at(v, i), *ex))):
            return REJ[fn]
        return Seq(Len(v), lambda i: conv(fn, c, at(v, i), *ex))
    return spec


def arrinv(fn):
    def inv(t, v, tagged=None):
        if kind(v) != 'array':
            return []
        c, ex = attr(t, 'items'), () if tagged is None else (tagged,)
        return [sofar(lambda i: ok(fn, c, at(v, i), *ex))]
    return inv


def mapspec(fn):
    def spec(t, v, tagged=None):
        if kind(v) != 'map':
            return REJ[fn]
        c, ex = attr(t, 'values'), () if tagged is None else (tagged,)
        if Not(ForAllKeys(v, lambda k: Implies(Has(v, k), ok(fn, c, Get(v, k), *ex)))):
            return REJ[fn]
        return Map(lambda k: Has(v, k), lambda k: conv(fn, c, Get(v, k), *ex), v, [v])
    return spec


def mapinv(fn):
    def inv(t, v, tagged=None):
        if kind(v) != 'map':
            return []
        c, ex = attr(t, 'values'), () if tagged is None else (tagged,)
        ks = v._m.keyseq
        return [sofar(lambda i: ok(fn, c, Get(v, ks.at(i)), *ex)),
                Inv('converted so far', lambda k, out: ForAllKeys(v, lambda q: And(Iff(Has(out, q), And(Has(v, q), keyindex(v, q) < k)),
                                                                                    Implies(Has(out, q), Eq(Get(out, q), conv(fn, c, Get(v, q), *ex))))), kinds=('map|rec',))]
    return inv


def gt(json):
    return lambda env: T({'type': 'array', 'items': env.rng.choice(CT)} if json == 'array' else {'type': 'map', 'values': env.rng.choice(CT)})


for _fn in FNS:
    _ps = dict(tagged=TAGGED) if _fn == 'jsonEncoder' else {}
    DC(_fn, 'array', dict(t=TypeObj(mkarr, gt('array')), v=OneOf(null=Null(), int=Int(), string=Str(), map=SMapT(VAL), array=Arr(VAL)), **_ps), arrspec(_fn), inv=arrinv(_fn))
    DC(_fn, 'map', dict(t=TypeObj(mkmap, gt('map')), v=OneOf(null=Null(), int=Int(), string=Str(), array=Arr(VAL), map=SMapT(VAL)), **_ps), mapspec(_fn), inv=mapinv(_fn))

# ------------------------------------------------------------------ records
FIELDS = ['p', 'q', 'r', 's']


class RecT(PT):
    """a record type with any number of distinctly named fields of opaque types; `default`: whether the fields have defaults"""

    def __init__(self, default):
        self.default = default

    def make(self, e, name):
        n = sym.fresh('int', 'nfields')
        e.assume(n.t >= 0)
        KS = sym.kind_sort(('A', 'Key'))
        nm = sym.uf('rfield.name', sym.IntS, KS)
        ix = sym.uf('rfield.index', KS, sym.IntS)
        ty = sym.uf('rfield.type', sym.IntS, sym.kind_sort(TY))
        df = sym.uf('rfield.default', sym.IntS, sym.kind_sort(V))
        i = sym.z3.Int('ri!')
        e.assume(sym.z3.ForAll([i], ix(nm(i)) == i, patterns=[nm(i)]))

        def field(i):
            j = num_term(i)
            t = SObj(D.AvroType, {'ty': ty(j)})
            return SObj(D.AvroField, {'name': SA(nm(j)), 'avroType': t, 'default': SA(df(j)) if self.default else None})
        return SObj(D.AvroRecord, {'fields': LList(SSeq(n, field), frozen=True, label='fields')})

    def gen(self, env):
        r = env.rng
        fs = []
        for f in FIELDS[:r.randint(1, 4)]:
            t = r.choice(['int', 'string', 'boolean'])
            d = {'name': f, 'type': t}
            if self.default:
                d['default'] = {'int': 3, 'string': 'd', 'boolean': True}[t]
            fs.append(d)
        return T({'type': 'record', 'name': 'R', 'fields': fs})


class RV(MapT):
    def gen(self, env):
        r = env.rng
        return {f: self.t.gen(env) for f in FIELDS if r.random() < 0.8}


def rfields(t):
    return attr(t, 'fields')


def fieldof(t, k):
    """the field named k (its index), for keys that are field names"""
    fs = rfields(t)
    if symbolic():
        ix = sym.uf('rfield.index', sym.kind_sort(('A', 'Key')), sym.IntS)
        return SInt(ix(k.t))
    for i, f in enumerate(fs):
        if f.name == k:
            return i
    return -1


def isfield(t, k):
    fs = rfields(t)
    i = fieldof(t, k)
    if symbolic():
        return And(i >= 0, i < Len(fs), Eq(attr(at(fs, i), 'name'), k))
    return i >= 0


def fieldgood(fn, default, v, f, ex):
    nm, c = attr(f, 'name'), attr(f, 'avroType')
    here = ok(fn, c, Get(v, nm), *ex)
    if fn == 'checkData' or not default:
        return And(Has(v, nm), here)
    if fn == 'jsonEncoder':
        return Or(Not(Has(v, nm)), here)
    return If(Has(v, nm), here, ok(fn, c, attr(f, 'default')))


def recsp(fn, default):
    def spec(t, v, tagged=None):
        if kind(v) != 'map':
            return REJ[fn]
        fs, ex = rfields(t), () if tagged is None else (tagged,)

        def good(i):
            return fieldgood(fn, default, v, at(fs, i), ex)
        if Not(ForAll(0, Len(fs), good)):
            return REJ[fn]
        return Map(lambda k: present(t, fn, default, v, k), lambda k: fieldval(t, fn, default, v, k, ex), v, [FIELDS])
    return spec


def present(t, fn, default, v, k):
    if fn == 'jsonEncoder':
        return And(isfield(t, k), Has(v, k))
    return isfield(t, k)


def fieldval(t, fn, default, v, k, ex):
    f = at(rfields(t), fieldof(t, k))
    c = attr(f, 'avroType')
    if fn == 'jsonDecoder' and default:
        if symbolic():
            return SA(sym.z3.If(zbool(Has(v, k)), conv(fn, c, Get(v, k)).t, conv(fn, c, attr(f, 'default')).t))
        return conv(fn, c, v[k] if k in v else f.default)
    return conv(fn, c, Get(v, k), *ex)


def recinv(fn, default):
    def inv(t, v, tagged=None):
        if kind(v) != 'map':
            return []
        fs, ex = rfields(t), () if tagged is None else (tagged,)

        return [sofar(lambda i: fieldgood(fn, default, v, at(fs, i), ex)), Inv('fields so far', lambda k, out: ForAllKeys(v, lambda q: And(
            Iff(Has(out, q), And(present(t, fn, default, v, q), fieldof(t, q) < k)),
            Implies(Has(out, q), Eq(Get(out, q), fieldval(t, fn, default, v, q, ex))))), kinds=('map|rec',))]
    return inv


for _fn in FNS:
    _ps = dict(tagged=TAGGED) if _fn == 'jsonEncoder' else {}
    for _d in (False, True):
        DC(_fn, 'record,%s' % ('defaults' if _d else 'no defaults'), dict(t=RecT(_d), v=OneOf(null=Null(), int=Int(), string=Str(), array=Arr(VAL), map=RV(VAL)), **_ps), recsp(_fn, _d),
           inv=recinv(_fn, _d))

# ------------------------------------------------------------------ unions (of up to three opaque types, with and without null)
UT = {'ab': ('A', 'B'), 'abc': ('A', 'B', 'C'), 'nab': ('null', 'A', 'B'), 'anb': ('A', 'null', 'B')}
UNATIVE = {'A': ['int', 'long', 'boolean'], 'B': ['string', {'type': 'enum', 'name': 'B', 'symbols': ['a', 'q']}], 'C': ['double', {'type': 'array', 'items': 'string'}]}


class UnionT(PT):
    def __init__(self, names):
        self.names = names

    def make(self, e, name):
        return SObj(D.AvroUnion, {'types': LList(SSeq.of([D.AvroNull() if n == 'null' else SObj(D.AvroType, {'ty': tyobj(e, n).attrs['ty'], 'name': n}) for n in self.names]), frozen=True)})

    def gen(self, env):
        return T([n if n == 'null' else env.rng.choice(UNATIVE[n]) for n in self.names])


class Single(PT):
    """a tagged value {tag: V}, the tag being the name of the i-th member type (or of none of them)"""

    def __init__(self, i):
        self.i = i

    def make(self, e, name):
        return (self.i, VAL.make(e, name))

    def gen(self, env):
        return (self.i, VAL.gen(env))


def tagname(t, i):
    ts = attr(t, 'types')
    return attr(at(ts, i), 'name') if i < Len(ts) else 'nosuch'


def uval(t, v):
    if isinstance(v, tuple):
        return LDict({tagname(t, v[0]): v[1]}, frozen=True) if symbolic() else {tagname(t, v[0]): v[1]}
    return v


def isnull(c):
    return isinstance(c, D.AvroNull)


def uspec(fn):
    def spec(t, v, tagged=None):
        ex = () if tagged is None else (tagged,)
        ts = [at(attr(t, 'types'), i) for i in range(Len(attr(t, 'types')))]
        if v is None:
            return None if any(isnull(c) for c in ts) else REJ[fn]

        def wrap(c, x):
            return x if tagged is False else LDict({attr(c, 'name'): x}) if symbolic() else {attr(c, 'name'): x}
        if isinstance(v, tuple):
            i, x = v
            if i < len(ts):
                if isnull(ts[i]):
                    if fn != 'jsonEncoder':
                        return REJ[fn]      # the component is not null
                elif ok(fn, ts[i], x, *ex):
                    return wrap(ts[i], conv(fn, ts[i], x, *ex))
            if fn != 'jsonEncoder':
                return REJ[fn]
            for c in ts:
                if not isnull(c) and ok(fn, c, x, *ex):
                    return wrap(c, conv(fn, c, x, *ex))
            full = uval(t, v)
            for c in ts:
                if not isnull(c) and ok(fn, c, full, *ex):
                    return wrap(c, conv(fn, c, full, *ex))
            return REJ[fn]
        if fn == 'jsonDecoder':
            return REJ[fn]
        for c in ts:
            if not isnull(c) and ok(fn, c, v, *ex):
                return wrap(c, conv(fn, c, v, *ex))
        return REJ[fn]
    return spec


for _fn in FNS:
    _ps = dict(tagged=TAGGED) if _fn == 'jsonEncoder' else {}
    for _u, _n in UT.items():
        DC(_fn, 'union ' + _u, dict(t=UnionT(_n), v=OneOf(null=Null(), bare=VAL, **{'tag%d' % i: Single(i) for i in range(len(_n) + 1)}), **_ps), uspec(_fn),
           eqhook=lambda e, a, b: False,      # opaque components are not the text "null", which input checking reads as null
           args=lambda v: [v['t'], uval(v['t'], v['v'])] + list(v.values())[2:])
