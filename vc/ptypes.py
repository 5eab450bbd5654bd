"""Parameter types of contracts: the symbolic kind, a concrete generator, and the PFA type."""
import itertools
import random

import z3

from vc import sym
from vc.sym import LDict, LList, SA, SBool, SFn, SInt, SMap, SReal, SSeq, SStr, SObj, fresh, num_term, tz

INT_MIN, INT_MAX = -2147483648, 2147483647
LONG_MIN, LONG_MAX = -9223372036854775808, 9223372036854775807


class GenEnv(object):
    """per-trial choices: the instantiation of wildcards, sizes"""

    def __init__(self, rng, size=5):
        self.rng = rng
        self.size = size
        self.wild = {}

    def wildcard(self, name):
        if name not in self.wild:
            self.wild[name] = self.rng.choice(['int', 'int', 'string', 'double'])
        return self.wild[name]


class PT(object):
    json = None

    def variants(self):
        return [('', self.make)]

    def make(self, e, name):
        raise NotImplementedError

    def gen(self, env):
        raise NotImplementedError

    def jsontype(self, env=None):
        return self.json

    def adapt(self, v):
        """concrete value as the code receives it"""
        return v

    def conc(self, mc, v):
        """concrete value of the symbolic v in a model (mc: ModelConc)"""
        return mc.conc(v)


def frz(v, label):
    if isinstance(v, (LList, LDict)):
        v.frozen = True
        v.label = label
    return v


class Int(PT):
    json = 'int'
    LO, HI = INT_MIN, INT_MAX

    def __init__(self, lo=None, hi=None, small=True, big=True, choices=None):
        self.lo = self.LO if lo is None else lo
        self.hi = self.HI if hi is None else hi
        self.small, self.big = small, big
        self.choices = choices

    def kind(self):
        return 'int'

    def constrain(self, e, t):
        return z3.And(t >= self.lo, t <= self.hi)

    def make(self, e, name):
        v = fresh('int', name)
        e.assume(self.constrain(e, v.t))
        return v

    def gen(self, env):
        r = env.rng
        if self.choices and r.random() < 0.7:
            return r.choice(self.choices)
        x = r.random()
        if x < 0.75 or not self.big:
            v = r.randint(-7, 8)
        elif x < 0.85:
            v = r.choice([self.lo, self.hi, self.lo + 1, self.hi - 1, 0, -1, 1])
        elif x < 0.95:
            v = r.randint(-1000, 1000)
        else:
            v = r.randint(max(self.lo, -2**64), min(self.hi, 2**64))
        return min(max(v, self.lo), self.hi)


class Long(Int):
    json = 'long'
    LO, HI = LONG_MIN, LONG_MAX

    def gen(self, env):
        if self.big and env.rng.random() < 0.2:
            v = env.rng.choice([2**53 + 1, -2**53 - 1, 2**31, 2**62, 10**15 + 1, 3 * 10**17 + 1])
            return min(max(v, self.lo), self.hi)
        return Int.gen(self, env)


class Dbl(PT):
    """double; with special=True also nan, inf, -inf (as separate verification cases)"""
    json = 'double'

    def __init__(self, special=False, lo=None, hi=None, choices=None):
        self.special, self.lo, self.hi, self.choices = special, lo, hi, choices

    def kind(self):
        return 'real'

    def constrain(self, e, t):
        c = []
        if self.lo is not None:
            c.append(t >= self.lo)
        if self.hi is not None:
            c.append(t <= self.hi)
        return z3.And(*c) if c else z3.BoolVal(True)

    def make(self, e, name):
        v = fresh('real', name)
        e.assume(self.constrain(e, v.t))
        return v

    def variants(self):
        out = [('', self.make)]
        if self.special:
            for lab, c in (('nan', float('nan')), ('inf', float('inf')), ('-inf', float('-inf'))):
                out.append((lab, lambda e, name, c=c: c))
        return out

    def gen(self, env):
        r = env.rng
        if self.special and r.random() < 0.2:
            return r.choice([float('nan'), float('inf'), float('-inf')])
        if self.choices and r.random() < 0.7:
            return r.choice(self.choices)
        x = r.random()
        if x < 0.5:
            v = float(r.randint(-4, 5))
        elif x < 0.8:
            v = r.randint(-16, 16) / 4.0
        else:
            v = r.uniform(-20, 20)
        if self.lo is not None and v < self.lo:
            v = self.lo + r.random() * ((self.hi if self.hi is not None else self.lo + 3) - self.lo)
        if self.hi is not None and v > self.hi:
            v = self.hi - r.random() * (self.hi - (self.lo if self.lo is not None else self.hi - 3))
        return v


class Flt(Dbl):
    json = 'float'


class Bool(PT):
    json = 'boolean'

    def kind(self):
        return 'bool'

    def make(self, e, name):
        return fresh('bool', name)

    def gen(self, env):
        return env.rng.random() < 0.5


ALPHA = ['', 'a', 'b', 'ab', 'abc', 'hello', 'ba', 'aa', 'aab', 'hello world', ' x ', 'HeLLo', 'zzz', '\u00e9t\u00e9', 'one', 'two']


class Str(PT):
    json = 'string'

    def __init__(self, choices=None):
        self.choices = choices

    def kind(self):
        return 'str'

    def make(self, e, name):
        return fresh('str', name)

    def gen(self, env):
        if self.choices:
            return env.rng.choice(self.choices)
        if env.rng.random() < 0.4:
            return ''.join(env.rng.choice('ab c') for _ in range(env.rng.randint(0, 6)))
        return env.rng.choice(ALPHA)


KEYS = ['one', 'two', 'three', 'four', 'five', 'six', '']


class Key(PT):
    """a string used only as a map key (opaque)"""
    json = 'string'

    def kind(self):
        return ('A', 'Key')

    def make(self, e, name):
        return fresh(('A', 'Key'), name)

    def gen(self, env):
        return env.rng.choice(KEYS)


class W(PT):
    """a value of wildcard type"""

    def __init__(self, name='A'):
        self.name = name

    def kind(self):
        return ('A', self.name)

    def make(self, e, name):
        return fresh(self.kind(), name)

    def jsontype(self, env=None):
        if env is None:
            return {'type': 'record', 'name': 'Wild' + self.name, 'fields': []}
        return env.wildcard(self.name)

    def gen(self, env):
        t = env.wildcard(self.name)
        if t == 'int':
            return env.rng.randint(-2, 4)
        if t == 'double':
            return env.rng.randint(-4, 6) / 2.0
        return env.rng.choice(['a', 'b', 'c', 'ab', ''])


class Null(PT):
    json = 'null'

    def kind(self):
        return 'none'

    def make(self, e, name):
        return None

    def gen(self, env):
        return None


class Const(PT):
    def __init__(self, v, json=None, label=''):
        self.v, self.json, self.label = v, json, label

    def kind(self):
        return ('const', self.v)

    def variants(self):
        return [(self.label, self.make)]

    def make(self, e, name):
        return self.v

    def gen(self, env):
        return self.v


def elem_constraint(t, e, v):
    """constraint on a symbolic element value of type t, or None"""
    if isinstance(t, Int):
        return t.constrain(e, v.t)
    if isinstance(t, Dbl) and (t.lo is not None or t.hi is not None):
        return t.constrain(e, v.t)
    if isinstance(t, Arr) and t.minlen:
        return num_term(v._seq.n) >= t.minlen
    return None


class Arr(PT):
    def __init__(self, t, minlen=0, maxlen=None, size=None):
        self.t, self.minlen, self.maxlen, self.size = t, minlen, maxlen, size

    def kind(self):
        return ('list', self.t.kind())

    def jsontype(self, env=None):
        return {'type': 'array', 'items': self.t.jsontype(env)}

    def make(self, e, name):
        if self.size is not None:
            return LList([self.t.make(e, '%s[%d]' % (name, i)) for i in range(self.size)], frozen=True, label=name)
        v = fresh(self.kind(), name)
        frz(v, name)
        n = v._seq.n
        if self.minlen:
            e.assume(n.t >= self.minlen)
        if self.maxlen is not None:
            e.assume(n.t <= self.maxlen)
        constrain_elems(self, e, v)
        return v

    def gen(self, env):
        if self.size is not None:
            return [self.t.gen(env) for _ in range(self.size)]
        hi = env.size if self.maxlen is None else min(self.maxlen, env.size)
        n = env.rng.randint(self.minlen, max(hi, self.minlen))
        out = [self.t.gen(env) for _ in range(n)]
        if isinstance(self.t, (Int, Dbl, W, Str)) and out and env.rng.random() < 0.5:   # coincidences
            for _ in range(env.rng.randint(0, 2)):
                out[env.rng.randrange(len(out))] = env.rng.choice(out)
        return out

    def adapt(self, v):
        return [self.t.adapt(x) for x in v]


def constrain_elems(t, e, v, binders=(), rng=()):
    if isinstance(t, Arr):
        j = z3.Int(e.freshname('el'))
        r = z3.And(0 <= j, j < num_term(v._seq.n))
        with e.noforking(z3.And(*(list(rng) + [r])), list(binders) + [j]):
            x = v._seq.at(SInt(j))
        sub(t.t, e, x, list(binders) + [j], list(rng) + [r])
    elif isinstance(t, MapT):
        k = z3.Const(e.freshname('ek'), sym.kind_sort(t.kk))
        K = sym.wrap(t.kk, k)
        r = tz(v._m.has(K))
        with e.noforking(z3.And(*(list(rng) + [r])), list(binders) + [k]):
            x = v._m.get(K)
        sub(t.t, e, x, list(binders) + [k], list(rng) + [r])
    elif isinstance(t, Rec):
        for f, ft in t.fields.items():
            sub(ft, e, v._m.items[f], list(binders), list(rng))


def sub(t, e, x, binders, rng):
    c = elem_constraint(t, e, x)
    if c is not None:
        body = z3.Implies(z3.And(*rng), c) if rng else c
        e.assume(z3.ForAll(binders, body) if binders else body)
    if isinstance(t, (Arr, MapT, Rec)):
        constrain_elems(t, e, x, binders, rng)


class MapT(PT):
    kk = ('A', 'Key')

    def __init__(self, t, minlen=0, keys=None):
        self.t, self.minlen, self.keys = t, minlen, keys

    def kind(self):
        return ('map', self.kk, self.t.kind())

    def jsontype(self, env=None):
        return {'type': 'map', 'values': self.t.jsontype(env)}

    def make(self, e, name):
        v = fresh(self.kind(), name)
        frz(v, name)
        if self.minlen:
            e.assume(v._m.n.t >= self.minlen)
        constrain_elems(self, e, v)
        return v

    def gen(self, env):
        ks = list(self.keys or KEYS)
        env.rng.shuffle(ks)
        n = env.rng.randint(self.minlen, min(len(ks), env.size))
        return {k: self.t.gen(env) for k in ks[:n]}

    def adapt(self, v):
        return {k: self.t.adapt(x) for k, x in v.items()}


class SMapT(MapT):
    """map with genuine string keys"""
    kk = 'str'


class Rec(PT):
    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)

    def kind(self):
        return ('rec', {f: t.kind() for f, t in self.fields.items()})

    def jsontype(self, env=None):
        return {'type': 'record', 'name': self.name, 'fields': [{'name': f, 'type': t.jsontype(env)} for f, t in self.fields.items()]}

    def variants(self):
        out = []
        for combo in itertools.product(*[[(f, lab, mk) for lab, mk in t.variants()] for f, t in self.fields.items()]):
            def make(e, name, combo=combo):
                return LDict({f: mk(e, name + '.' + f) for f, _, mk in combo}, frozen=True, label=name)
            out.append((','.join('%s=%s' % (f, lab) for f, lab, _ in combo if lab), make))
        return out

    def make(self, e, name):
        return LDict({f: t.make(e, name + '.' + f) for f, t in self.fields.items()}, frozen=True, label=name)

    def gen(self, env):
        return {f: t.gen(env) for f, t in self.fields.items()}

    def adapt(self, v):
        return {f: t.adapt(v[f]) for f, t in self.fields.items()}


class OneOf(PT):
    """a choice of parameter types: one verification case each"""

    def __init__(self, **opts):
        self.opts = opts

    def variants(self):
        return [((lab + ('/' + l2 if l2 else '')), mk) for lab, t in self.opts.items() for l2, mk in t.variants()]

    def gen(self, env):
        return self.opts[env.rng.choice(sorted(self.opts))].gen(env)

    def jsontype(self, env=None):
        return list(self.opts.values())[0].jsontype(env)


def _h(seed, args):
    x = seed * 1000003 + 12345
    for a in repr(args):
        x = (x * 31 + ord(a)) & 0xffffffff
    x ^= x >> 13
    x = (x * 0x5bd1e995) & 0xffffffff
    return x ^ (x >> 15)


class Fn(PT):
    """a pure callback"""

    def __init__(self, args, ret):
        self.args, self.ret = args, ret

    def make(self, e, name):
        return SFn(e.freshname(name), [a.kind() for a in self.args], self.ret.kind())

    def jsontype(self, env=None):
        return {'type': 'function', 'params': [a.jsontype(env) for a in self.args], 'ret': self.ret.jsontype(env)}

    def gen(self, env):
        seed = env.rng.getrandbits(30)
        for a in self.args + [self.ret]:       # fix wildcards now
            if isinstance(a, W):
                env.wildcard(a.name)
        wild = dict(env.wild)

        def f(*args):
            e2 = GenEnv(random.Random(_h(seed, args)), 3)
            e2.wild = dict(wild)
            return self.ret.gen(e2)
        return f

    def adapt(self, v):
        from vc.stubs import Callback
        return Callback(v)


class LtFn(PT):
    """a lessThan callback that is a strict weak order, given by a rank function"""

    def __init__(self, t):
        self.t = t

    def make(self, e, name):
        rank = sym.uf(e.freshname(name + '.rank'), sym.kind_sort(self.t.kind()), sym.RealS)

        class Lt(SFn):
            def __call__(self_, x, y):
                return sym.mkbool(rank(sym_t(x)) < rank(sym_t(y)))
        return Lt(name, None, 'bool')

    def jsontype(self, env=None):
        return {'type': 'function', 'params': [self.t.jsontype(env)] * 2, 'ret': 'boolean'}

    def gen(self, env):
        seed = env.rng.getrandbits(30)
        mod = env.rng.choice([2, 3, 5, 100])
        desc = env.rng.random() < 0.5
        if isinstance(self.t, W):
            env.wildcard(self.t.name)

        def rank(x):
            if isinstance(x, (int, float)):
                k = int(x * 2) // (1 if mod > 50 else mod)
            else:
                k = len(x) if mod < 50 else sum(map(ord, str(x)))
            return -k if desc else k
        return lambda x, y: rank(x) < rank(y)

    def adapt(self, v):
        from vc.stubs import Callback
        return Callback(v)


def sym_t(x):
    if isinstance(x, sym.Sym):
        return x.t
    return num_term(x)


class Thunk(PT):
    """an argument expression, which has a value or raises (evaluated by the generated code, maybe not at all)"""
    counter = itertools.count(1)

    def __init__(self, t):
        self.t = t
        self.code = 70000 + next(Thunk.counter)

    def jsontype(self, env=None):
        return self.t.jsontype(env)

    def variants(self):
        from vc.stubs import ThunkObj
        return [(lab, lambda e, name, mk=mk: sym.SpecObj(ThunkObj, {'raises': fresh('bool', name + '.raises'), 'code': self.code, 'value': mk(e, name)}))
                for lab, mk in self.t.variants()]

    def gen(self, env):
        from vc.stubs import ThunkObj
        return ThunkObj(env.rng.random() < 0.25, self.code, self.t.gen(env))


class ModelConc(object):
    """concretise symbolic parameters in a z3 model"""

    def __init__(self, model):
        self.m = model
        self.elems = {}

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def opaque(self, t):
        v = self.ev(t)
        name = t.sort().name()
        d = self.elems.setdefault(name, None)
        if d is None:
            univ = list(self.m.get_universe(t.sort()) or [])
            rk = sym.uf('rank', t.sort(), sym.RealS)

            def key(u):
                r = self.ev(rk(u))
                try:
                    return (r.as_fraction(), str(u))
                except Exception:
                    return (0, str(u))
            univ.sort(key=key)
            d = {str(u): i for i, u in enumerate(univ)}
            self.elems[name] = d
        i = d.get(str(v), len(d))
        return ('k%d' % i) if name == 'Key' else i

    def conc(self, v):
        if isinstance(v, SInt):
            return self.ev(v.t).as_long()
        if isinstance(v, SReal):
            r = self.ev(v.t)
            if z3.is_algebraic_value(r):
                r = r.approx(20)
            f = r.as_fraction()
            return float(f)
        if isinstance(v, SBool):
            return z3.is_true(self.ev(v.t))
        if isinstance(v, SStr):
            return sstr(self.ev(v.t).as_string())
        if isinstance(v, SA):
            return self.opaque(v.t)
        if isinstance(v, LList):
            s = v._seq
            if s.items is not None:
                return [self.conc(x) for x in s.items]
            n = s.n if isinstance(s.n, int) else self.conc(s.n)
            if n > 200:
                raise ValueError("model list too long")
            return [self.conc(s.at(SInt(z3.IntVal(i)))) for i in range(n)]
        if isinstance(v, LDict):
            m = v._m
            if m.items is not None:
                return {k: self.conc(x) for k, x in m.items.items()}
            ks = m.keyseq
            n = self.conc(ks.n)
            if n > 200:
                raise ValueError("model map too large")
            out = {}
            for i in range(n):
                k = ks.at(SInt(z3.IntVal(i)))
                out[self.conc(k)] = self.conc(m.get(k))
            return out
        if isinstance(v, tuple):
            return tuple(self.conc(x) for x in v)
        if isinstance(v, SFn):
            raise ValueError("callback")
        return v


def sstr(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
