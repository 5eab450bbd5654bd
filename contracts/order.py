"""P02: the total order of PFA data (titus.datatype.compare)."""
import titus.datatype as D
from contracts.common import *
from vc.contract import check_cmp_type
from vc.sym import SA, SObj, SInt, SSeq, SStr

P = 'P02'
T = D.jsonNodeToAvroType


def inner(ip, args, kw):
    """structural induction: compare on the (smaller) component values meets its contract"""
    tpe, x, y = args
    if isinstance(x, SA) and isinstance(y, SA):
        if isinstance(tpe, SObj):
            ip.e.stats['trusted'].add('structural induction on the type: compare on components meets its contract')
            return Cmp(x, y)
        check_cmp_type(tpe, x)
        return Cmp(x, y)
    return ip.inline(D.compare, args, kw)


class TypeObj(PT):
    """an AvroType given by a symbolic object during verification and generated concretely"""

    def __init__(self, mk, gn):
        self.mk, self.gn = mk, gn

    def make(self, e, name):
        return self.mk(e, name)

    def gen(self, env):
        return self.gn(env)


def CC(cid, params, spec, **kw):
    kw.setdefault('summaries', {D.compare: inner})
    return FnContract('compare#' + cid, P, lambda: D.compare, params, spec, **kw)


def sgn(c, d):
    return If(c, -1, If(d, 1, 0))


def num(x, y):
    return sgn(x < y, x > y)


def numnan(x, y):
    if IsNan(x):
        return 0 if IsNan(y) else 1
    if IsNan(y):
        return -1
    return num(x, y)


def scal(cid, json, V, spec):
    t = T(json)
    CC(cid, dict(t=Const(t), x=V, y=V), lambda t, x, y: spec(x, y))


scal('null', 'null', Null(), lambda x, y: 0)
scal('boolean', 'boolean', Bool(), lambda x, y: If(Iff(x, y), 0, If(x, 1, -1)))
scal('int', 'int', Int(), num)
scal('long', 'long', Long(), num)
scal('float', 'float', Dbl(special=True), numnan)
scal('double', 'double', Dbl(special=True), numnan)
scal('string', 'string', Str(), num)
scal('bytes', 'bytes', Str(), num)
scal('fixed', {'type': 'fixed', 'name': 'F4', 'size': 4}, Str(), num)

# ---- enums: the order of the symbols in the type
SYMS = ['c', 'a', 'b', 'zz', 'y']


def mkenum(e, name):
    syms = Arr(Str()).make(e, 'symbols')
    S = lambda i: at(syms, i)
    e.assume(zbool(ForAll(0, Len(syms), lambda i: ForAll(0, i, lambda j: Not(Eq(S(i), S(j)))))))
    return SObj(D.AvroEnum, {'symbols': syms})


def genum(env):
    r = list(SYMS)
    env.rng.shuffle(r)
    return T({'type': 'enum', 'name': 'E', 'symbols': r[:env.rng.randint(1, 5)]})


def enumspec(t, i, j):
    return num(i, j)


class EnumVal(PT):
    pass


def symbols(t):
    return t.attrs['symbols'] if isinstance(t, SObj) else t.symbols


CC('enum', dict(t=TypeObj(mkenum, genum), i=Int(choices=[0, 1, 2, 3]), j=Int(choices=[0, 1, 2, 3])), enumspec,
   pre=lambda t, i, j: And(0 <= i, i < Len(symbols(t)), 0 <= j, j < Len(symbols(t))),
   args=lambda v: [v['t'], at(symbols(v['t']), v['i']), at(symbols(v['t']), v['j'])])

# ---- arrays: lexicographic, shorter first
A = W('A')


class ElemType(PT):
    def make(self, e, name):
        return SObj(D.AvroArray, {'items': SObj(D.AvroType, {})})

    def gen(self, env):
        return T({'type': 'array', 'items': env.wildcard('A')})


def lex(n, c):
    """the first non-zero c(i), i < n"""
    return First(n, lambda i: Not(c(i) == 0))


def arrspec(t, x, y):
    n = Min2(Len(x), Len(y))
    c = lambda i: Cmp(at(x, i), at(y, i))
    r = lex(n, c)
    if r == n:
        return num(Len(x), Len(y))
    return c(r)


CC('array', dict(t=ElemType(), x=Arr(A), y=Arr(A)), arrspec, inv=lambda t, x, y: [before(lambda i: Not(Cmp(at(x, i), at(y, i)) == 0))])

# ---- records: the fields in order, honouring ascending, descending and ignore
FIELDS = ['p', 'q', 'r', 's']


def mkrec(e, name):
    n = sym.fresh('int', 'nfields')
    e.assume(n.t >= 0)
    nm = sym.uf('field.name', sym.IntS, sym.kind_sort(('A', 'Key')))
    od = sym.uf('field.order', sym.IntS, sym.IntS)      # 0 ascending, 1 descending, 2 ignore

    def field(i):
        return SObj(D.AvroField, {'name': SA(nm(num_term(i))), 'order': SObj('order', {'code': od(num_term(i))}), 'avroType': SObj(D.AvroType, {})})
    return SObj(D.AvroRecord, {'fields': LList(SSeq(n, field), frozen=True, label='fields')})


ORDERS = {'ascending': 0, 'descending': 1, 'ignore': 2}


def eqorder(e, a, b):
    if isinstance(b, SObj):
        a, b = b, a
    if isinstance(a, SObj) and a.cls == 'order' and isinstance(b, str):
        return a.attrs['code'] == ORDERS.get(b, 99)
    raise sym.Unsupported('equality of objects')


def grec(env):
    r = env.rng
    return T({'type': 'record', 'name': 'R', 'fields': [{'name': f, 'type': r.choice(['int', 'string', 'double']), 'order': r.choice(['ascending', 'descending', 'ignore'])}
                                                       for f in FIELDS[:r.randint(1, 4)]]})


def fields(t):
    return t.attrs['fields'] if isinstance(t, SObj) else t.fields


def get(o, a):
    return o.attrs[a] if isinstance(o, SObj) else getattr(o, a)


class RecVal(PT):
    """a value of the record type t: every field is present"""

    def make(self, e, name):
        return MapT(W('V')).make(e, name)

    def gen(self, env):
        return {f: env.rng.randint(0, 1) for f in FIELDS}


def recval(t, x):
    """concrete values typed by the record"""
    if isinstance(t, SObj):
        return x
    conv = {'int': int, 'double': float, 'string': str}
    return {f.name: conv[f.avroType.name](x[f.name]) for f in t.fields}


def recspec(t, x, y):
    fs = fields(t)
    n = Len(fs)

    def c(i):
        f = at(fs, i)
        return Cmp(Get(x, get(f, 'name')), Get(y, get(f, 'name')))

    def sig(i):
        return And(Not(Eq(get(at(fs, i), 'order'), 'ignore')), Not(c(i) == 0))
    r = First(n, sig)
    if r == n:
        return 0
    v = c(r)
    return If(Eq(get(at(fs, r), 'order'), 'descending'), -v, v)


def reppre(t, x, y):
    if not symbolic():
        return True
    fs = fields(t)
    return And(ForAll(0, Len(fs), lambda i: Has(x, get(at(fs, i), 'name'))), ForAll(0, Len(fs), lambda i: Has(y, get(at(fs, i), 'name'))))


def recinv(t, x, y):
    fs = fields(t)
    return [before(lambda i: And(Not(Eq(get(at(fs, i), 'order'), 'ignore')), Not(Cmp(Get(x, get(at(fs, i), 'name')), Get(y, get(at(fs, i), 'name'))) == 0)))]


CC('record', dict(t=TypeObj(mkrec, grec), x=RecVal(), y=RecVal()), recspec, pre=reppre, inv=recinv, eqhook=eqorder,
   args=lambda v: [v['t'], recval(v['t'], v['x']), recval(v['t'], v['y'])])

# ---- unions: the order of the branches, then the order within the branch
UJ = ['null', 'int', {'type': 'array', 'items': 'int'}, 'string', 'double']
UV = OneOf(null=Null(), int=Rec('u', {'int': Int()}), string=Rec('u', {'string': Str()}), double=Rec('u', {'double': Dbl(special=True)}))


def branch(v):
    if v is None:
        return 0, None
    (k, x), = (v._m.items if isinstance(v, LDict) else v).items()
    return {'int': 1, 'string': 3, 'double': 4}[k], x


def unionspec(t, x, y):
    (i, a), (j, b) = branch(x), branch(y)
    if i != j:
        return -1 if i < j else 1
    return {0: lambda a, b: 0, 1: num, 3: num, 4: numnan}[i](a, b)


CC('union', dict(t=Const(T(UJ)), x=UV, y=UV), unionspec)
