"""Symbolic values.

Everything here is immutable except LList / LDict / SObj (heap objects of the
verified program).  Operators are overloaded so that specification code, which
is ordinary Python, runs unchanged on symbolic and on concrete values; using a
symbolic boolean in a native `if` asks the current engine to fork the path.
"""
import math
import sys

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402


def _errors_by_handler():
    """Z3's Python layer asks for the error code after every call; here the error handler tells when there is one to ask for"""
    from z3 import z3core
    raised = []
    ctx = z3.main_ctx()
    ctx.eh = z3core.Z3_set_error_handler(ctx.ctx, lambda c, e: raised.append(e))

    def Check(self, c):
        if raised:
            del raised[:]
            err = self.get_error_code(c)
            if err != self.OK:
                raise self.Exception(self.get_error_message(c, err))
    z3core.Elementaries.Check = Check


_errors_by_handler()

CUR = [None]          # the engine exploring the current path


def engine():
    e = CUR[0]
    if e is None:
        raise RuntimeError("symbolic operation outside a verification run")
    return e


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a proof)."""


class NoFork(Exception):
    """A fork was requested where the value must be a single term."""


IntS, RealS, BoolS, StrS = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
_sorts = {}


def usort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


class Sym(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, str(self.t)[:80].replace("\n", " "))

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __eq__(self, o):
        return mkbool(veq(self, o))

    def __ne__(self, o):
        return mkbool(znot(veq(self, o)))


# ---------------------------------------------------------------- booleans
def zbool(x):
    """-> python bool or z3 Bool"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return x
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported("not a boolean: %r" % (x,))


def znot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def zand(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def zor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def zimp(a, b):
    return zor(znot(a), b)


def mkbool(x):
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SBool(x)


def tz(x):
    """python bool or z3 Bool -> z3 Bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x


class SBool(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __bool__(self):
        return engine().branch(self.t)

    def __and__(self, o):
        return mkbool(zand(self.t, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(zor(self.t, zbool(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))


# ---------------------------------------------------------------- numbers
def isspecial(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def num_term(x):
    """-> z3 arithmetic term (Int or Real) of a finite number"""
    if isinstance(x, (SInt, SReal)):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if isspecial(x):
            raise Unsupported("non-finite float in arithmetic term")
        return real_const(x)
    raise Unsupported("not a number: %r" % (x,))


def real_const(x):
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def isreal(x):
    return isinstance(x, (SReal, float))


def isnum(x):
    return isinstance(x, (SInt, SReal, int, float))


def toreal(x):
    t = num_term(x)
    return t if t.sort() == RealS else z3.ToReal(t)


def int_val(t):
    e = CUR[0]
    key = t.get_id()
    if e is not None:
        r = e.intvals.get(key)
        if r is not None:
            return r[0]
    u = z3.simplify(t) if not z3.is_int_value(t) else t
    v = u.as_long() if z3.is_int_value(u) else None
    if e is not None:
        e.intvals[key] = (v, t)         # the term is kept, so its number is not used again
    return v


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def special_arith(op, a, b):
    """arithmetic where one operand is a concrete nan/inf and the other a finite symbolic number"""
    x, y = a, b
    if (isinstance(x, float) and math.isnan(x)) or (isinstance(y, float) and math.isnan(y)):
        return float('nan')
    if op == '+':
        return x if isspecial(x) else y
    if op == '-':
        return x if isspecial(x) else -y
    if op in ('*', '/'):
        if op == '/' and isspecial(y):
            return 0.0
        s, o = (x, y) if isspecial(x) else (y, x)
        if op == '*':
            if engine().branch(num_term(o) > 0):
                return s
            if engine().branch(num_term(o) < 0):
                return -s
            return float('nan')
        # inf / o
        if engine().branch(num_term(o) == 0):
            engine().raise_(ZeroDivisionError("float division by zero"))
        if engine().branch(num_term(o) > 0):
            return s
        return -s
    if op == '**':
        raise Unsupported("inf ** symbolic")
    if op == '%':
        if isspecial(x):
            return float('nan')
        # finite % inf
        t = num_term(x)
        if engine().branch(t == 0):
            return x
        if engine().branch(t > 0):
            return x if y > 0 else y
        return y if y > 0 else x
    raise Unsupported("special arithmetic " + op)


def arith(op, a, b):
    if not (isnum(a) or isinstance(a, SBool)) or not (isnum(b) or isinstance(b, SBool)):
        raise Unsupported("arithmetic %s on %r, %r" % (op, a, b))
    if isspecial(a) or isspecial(b):
        return special_arith(op, a, b)
    real = isreal(a) or isreal(b)
    x, y = num_term(a), num_term(b)
    if op == '/':
        if not isinstance(b, Sym):
            if b == 0:
                engine().raise_(ZeroDivisionError("division by zero"))
        elif engine().branch(y == 0):
            engine().raise_(ZeroDivisionError("division by zero"))
        return SReal(toreal(a) / toreal(b))
    if op in ('//', '%', 'divmod'):
        if not isinstance(b, Sym):
            if b == 0:
                engine().raise_(ZeroDivisionError("integer division or modulo by zero"))
        elif engine().branch(y == 0):
            engine().raise_(ZeroDivisionError("integer division or modulo by zero"))
        if real:
            q = z3.ToInt(toreal(a) / toreal(b))
            if op == '//':
                return SReal(z3.ToReal(q))
            return SReal(toreal(a) - toreal(b) * z3.ToReal(q))
        if not isinstance(b, Sym):
            q = x / y if b > 0 else (-x) / (-y)
        else:
            q = z3.If(y > 0, x / y, (-x) / (-y))
        if op == '//':
            return SInt(q)
        if not isinstance(b, Sym) and b > 0:
            return SInt(x % y)
        return SInt(x - y * q)
    if op == '**':
        if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
            r = 1.0 if isreal(a) else 1
            out = num_term(r)
            for _ in range(b):
                out = out * x
            return SReal(out) if isreal(a) else SInt(out)
        return SReal(uf('pow', RealS, RealS, RealS)(toreal(a), toreal(b)))
    if real:
        x, y = toreal(a), toreal(b)
    r = x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else None
    if r is None:
        raise Unsupported("arith " + op)
    return SReal(r) if real else SInt(r)


def bitop(op, a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x, y = zbool(a), zbool(b)
        return mkbool(zand(x, y) if op == '&' else zor(x, y) if op == '|' else z3.Xor(tz(x), tz(y)))
    if not isinstance(a, (int, SInt)) or not isinstance(b, (int, SInt)):
        raise Unsupported("bit operation %s on %r, %r" % (op, a, b))
    x, y = num_term(a), num_term(b)
    if op == '<<' and isinstance(b, int) and b >= 0:
        return SInt(x * (1 << b))
    if op == '>>' and isinstance(b, int) and b >= 0:
        return SInt(x / (1 << b))
    if op == '&':
        for p, q in ((a, y), (b, x)):
            if isinstance(p, int) and p >= 0 and (p & (p + 1)) == 0:
                return SInt(q % (p + 1))
    names = {'&': 'bitand', '|': 'bitor', '^': 'bitxor', '<<': 'shl', '>>': 'shr'}
    return SInt(uf(names[op], IntS, IntS, IntS)(x, y))


def compare_num(op, a, b):
    if isspecial(a) or isspecial(b):
        if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
            return False
        x = a if isspecial(a) else 0.0
        y = b if isspecial(b) else 0.0
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    x, y = num_term(a), num_term(b)
    if x.sort() != y.sort():
        x, y = toreal(a), toreal(b)
    t = x < y if op == '<' else x <= y if op == '<=' else x > y if op == '>' else x >= y
    return mkbool(t)


class SNum(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __add__(self, o): return arith('+', self, o) if isnum(o) or isinstance(o, SBool) else NotImplemented
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o) if isnum(o) or isinstance(o, SBool) else NotImplemented
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __and__(self, o): return bitop('&', self, o)
    def __rand__(self, o): return bitop('&', o, self)
    def __or__(self, o): return bitop('|', self, o)
    def __ror__(self, o): return bitop('|', o, self)
    def __xor__(self, o): return bitop('^', self, o)
    def __rxor__(self, o): return bitop('^', o, self)
    def __lshift__(self, o): return bitop('<<', self, o)
    def __rlshift__(self, o): return bitop('<<', o, self)
    def __rshift__(self, o): return bitop('>>', self, o)
    def __rrshift__(self, o): return bitop('>>', o, self)
    def __neg__(self): return type(self)(-self.t)
    def __pos__(self): return self
    def __abs__(self): return type(self)(z3.If(self.t >= 0, self.t, -self.t))
    def __lt__(self, o): return compare_num('<', self, o)
    def __le__(self, o): return compare_num('<=', self, o)
    def __gt__(self, o): return compare_num('>', self, o)
    def __ge__(self, o): return compare_num('>=', self, o)
    def __bool__(self): return engine().branch(self.t != 0)


class SInt(SNum):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __invert__(self):
        return SInt(-self.t - 1)

    def __index__(self):
        raise Unsupported("symbolic int used natively as an index")


class SReal(SNum):
    __slots__ = ()
    __hash__ = Sym.__hash__


def trunc_term(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


# ---------------------------------------------------------------- opaque scalars
class SA(Sym):
    """A value of an uninterpreted sort (a wildcard-typed datum, a map key, ...).
    Ordered (for keys and for the spec order) by the uninterpreted function rank."""
    __slots__ = ()
    __hash__ = Sym.__hash__

    def rank(self):
        return rank_of(self)

    def __lt__(self, o): return mkbool(rank_of(self) < rank_of(o))
    def __le__(self, o): return mkbool(rank_of(self) <= rank_of(o))
    def __gt__(self, o): return mkbool(rank_of(self) > rank_of(o))
    def __ge__(self, o): return mkbool(rank_of(self) >= rank_of(o))


def rank_of(x):
    """z3 Real term that orders values of the same sort (PFA total order)."""
    if isinstance(x, SA):
        return uf('rank', x.t.sort(), RealS)(x.t)
    if isinstance(x, (SInt, SReal)) or (isinstance(x, (int, float)) and not isinstance(x, bool)):
        return toreal(x)
    if isinstance(x, (SBool, bool)):
        return z3.If(tz(zbool(x)), z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("no order on %r" % (x,))


class SStr(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __add__(self, o): return SStr(z3.Concat(self.t, str_term(o)))
    def __radd__(self, o): return SStr(z3.Concat(str_term(o), self.t))
    def __lt__(self, o): return mkbool(self.t < str_term(o))
    def __le__(self, o): return mkbool(self.t <= str_term(o))
    def __gt__(self, o): return mkbool(str_term(o) < self.t)
    def __ge__(self, o): return mkbool(str_term(o) <= self.t)
    def __bool__(self): return engine().branch(z3.Length(self.t) != 0)

    def __getitem__(self, i):
        return str_index(self, i)

    def __contains__(self, o):
        return bool(mkbool(z3.Contains(self.t, str_term(o))))


def str_term(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("not a string: %r" % (x,))


def str_len(x):
    return len(x) if isinstance(x, str) else SInt(z3.Length(x.t))


def norm_slice(n, start, stop):
    """Python slice normalisation with step 1; returns (start, stop>=start) as values"""
    def clamp(v, default):
        if v is None:
            return default
        v = zi(v)
        v = vmaxi(0, v + n) if (isinstance(v, int) and v < 0) else (
            v if (isinstance(v, int)) else SInt(z3.If(v.t < 0, z3.If(num_term(v + n) < 0, 0, num_term(v + n)), v.t)))
        return vmini(v, n)
    lo = clamp(start, 0)
    hi = clamp(stop, n)
    return lo, vmaxi(hi, lo)


def zi(v):
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, SBool):
        return SInt(num_term(v))
    raise Unsupported("not an int: %r" % (v,))


def entailed(c):
    """is the (python or z3) boolean entailed on the current path, cheaply?"""
    if isinstance(c, bool):
        return c
    return engine().quick_entails(c)


def vmaxi(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    c = zbool(a >= b)
    if isinstance(c, bool):
        return a if c else b
    if engine().quick_entails(c):
        return a
    if engine().quick_entails(z3.Not(c)):
        return b
    return SInt(z3.If(c, num_term(a), num_term(b)))


def vmini(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    c = zbool(a <= b)
    if isinstance(c, bool):
        return a if c else b
    if engine().quick_entails(c):
        return a
    if engine().quick_entails(z3.Not(c)):
        return b
    return SInt(z3.If(c, num_term(a), num_term(b)))


def str_index(s, i):
    n = str_len(s)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("string slice step")
        if isinstance(s, str) and isinstance(i.start, (int, type(None))) and isinstance(i.stop, (int, type(None))):
            return s[i]
        lo, hi = norm_slice(n, i.start, i.stop)
        return SStr(z3.SubString(str_term(s), num_term(lo), num_term(hi - lo)))
    i = zi(i)
    if isinstance(s, str) and isinstance(i, int):
        return s[i]
    e = engine()
    t = num_term(i)
    if e.branch(z3.Or(t >= num_term(n), t < -num_term(n))):
        e.raise_(IndexError("string index out of range"))
    if e.branch(t < 0):
        t = t + num_term(n)
    return SStr(z3.SubString(str_term(s), t, z3.IntVal(1)))


# ---------------------------------------------------------------- sequences
class SSeq(object):
    """A mathematical sequence: length plus element function (or concrete items)."""
    __slots__ = ('n', 'fn', 'items', 'kind', 'parts')

    def __init__(self, n, fn=None, items=None, kind=None):
        self.n = n
        self.fn = fn
        self.items = items
        self.kind = kind
        self.parts = None

    @staticmethod
    def of(items):
        items = tuple(items)
        return SSeq(len(items), None, items)

    def at(self, i):
        """element at 0 <= i < n (no range check)"""
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i] if 0 <= i < len(self.items) else engine().junk(self)
            v = int_val(num_term(i))
            if v is not None:
                return self.at(v)
            if not self.items:
                return engine().junk(self)
            out = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                out = vite(num_term(i) == j, self.items[j], out)
            return out
        return self.fn(i)

    def length(self):
        return self.n

    def slice(self, start, stop):
        n = self.n
        if self.items is not None and isinstance(start, (int, type(None))) and isinstance(stop, (int, type(None))):
            return SSeq.of(self.items[start:stop])
        lo, hi = norm_slice(n, start, stop)
        if isinstance(lo, int) and isinstance(hi, int) and self.items is not None:
            return SSeq.of(self.items[lo:hi])
        if isinstance(lo, int) and lo == 0 and hi is n:
            return self
        ln = hi - lo
        if isinstance(ln, SInt):
            v = int_val(ln.t)
            if v is not None:
                ln = v
        return SSeq(ln, lambda i, s=self, lo=lo: s.at(i + lo), kind=self.kind)

    def concat(self, o):
        if self.items is not None and o.items is not None:
            return SSeq.of(self.items + o.items)
        if isinstance(self.n, int) and self.n == 0:
            return o
        if isinstance(o.n, int) and o.n == 0:
            return self
        n1 = self.n

        def fn(i, a=self, b=o, n1=n1):
            c = zbool(i < n1)
            if c is True:
                return a.at(i)
            if c is False:
                return b.at(i - n1)
            c2 = z3.simplify(c)
            if z3.is_true(c2):
                return a.at(i)
            if z3.is_false(c2):
                return b.at(i - n1)
            return vite(c, a.at(i), b.at(i - n1))
        r = SSeq(self.n + o.n, fn, kind=self.kind or o.kind)
        r.parts = (self, o)
        return r

    def rev(self):
        if self.items is not None:
            return SSeq.of(self.items[::-1])
        return SSeq(self.n, lambda i, s=self: s.at(s.n - 1 - i), kind=self.kind)

    def map(self, f):
        if self.items is not None:
            return SSeq.of([f(x) for x in self.items])
        return SSeq(self.n, lambda i, s=self: f(s.at(i)))

    def updated(self, idx, v):
        if self.items is not None and isinstance(idx, int):
            it = list(self.items)
            it[idx] = v
            return SSeq.of(it)
        return SSeq(self.n, lambda i, s=self: vite(zbool(i == idx), v, s.at(i)), kind=self.kind)


class Heap(object):
    """base of mutable program objects"""
    __slots__ = ('frozen', 'label', 'serial')

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        e = CUR[0]
        if e is None:
            o.serial = 0
        else:
            o.serial = e.register(o)
        return o

    def touch(self, key=None):
        engine().on_write(self, key)


class LList(Heap):
    __slots__ = ('_seq', 'pytype')

    def __init__(self, seq, frozen=False, label=None, pytype=list):
        self._seq = seq if isinstance(seq, SSeq) else SSeq.of(seq)
        self.frozen = frozen
        self.label = label
        self.pytype = pytype

    @property
    def seq(self):
        return self._seq

    @seq.setter
    def seq(self, s):
        self.touch()
        self._seq = s

    def __repr__(self):
        if self._seq.items is not None:
            return "LList%r" % (list(self._seq.items),)
        return "<LList n=%r>" % (self._seq.n,)

    # native access for specifications
    def __len__(self):
        raise Unsupported("use Len(...) in specifications")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return LList(self._seq.slice(i.start, i.stop))
        if isinstance(i, int) and i < 0:
            i = self._seq.n + i
        return self._seq.at(i)

    def __add__(self, o):
        return LList(self._seq.concat(toseq(o)))

    def __radd__(self, o):
        return LList(toseq(o).concat(self._seq))

    def __eq__(self, o):
        return mkbool(veq(self, o))

    def __ne__(self, o):
        return mkbool(znot(veq(self, o)))

    def __bool__(self):
        n = self._seq.n
        return n != 0 if isinstance(n, int) else bool(n != 0)

    __hash__ = object.__hash__


def toseq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, LList):
        return x._seq
    if isinstance(x, (list, tuple, range)):
        return SSeq.of(x)
    raise Unsupported("not a sequence: %r" % (x,))


class SMap(object):
    """A mathematical finite map: has(k)->z3/py bool, get(k)->value, n, keyseq (distinct keys) or None."""
    __slots__ = ('has', 'get', 'n', 'keyseq', 'items', 'kk', 'vk', 'memo', 'idx')

    def __init__(self, has=None, get=None, n=None, keyseq=None, items=None, kk=None, vk=None):
        self.has = has
        self.get = get
        self.n = n
        self.keyseq = keyseq
        self.items = items      # concrete dict {hashable: value} or None
        self.kk = kk
        self.vk = vk
        self.memo = {}
        self.idx = None
        if items is not None:
            self.n = len(items)
            self.has = self._chas
            self.get = self._cget
            self.keyseq = SSeq.of(list(items.keys()))

    def _chas(self, k):
        if not isinstance(k, Sym):
            return k in self.items
        return zor(*[veq(k, kk) for kk in self.items])

    def _cget(self, k):
        if not isinstance(k, Sym):
            return self.items[k] if k in self.items else engine().junk(self)
        vs = list(self.items.items())
        if not vs:
            return engine().junk(self)
        out = vs[-1][1]
        for kk, v in reversed(vs[:-1]):
            out = vite(veq(k, kk), v, out)
        return out


class LDict(Heap):
    __slots__ = ('_m',)

    def __init__(self, m, frozen=False, label=None):
        self._m = m if isinstance(m, SMap) else SMap(items=dict(m))
        self.frozen = frozen
        self.label = label

    @property
    def m(self):
        return self._m

    @m.setter
    def m(self, v):
        self.touch()
        self._m = v

    def __repr__(self):
        return "<LDict %r>" % (self._m.items if self._m.items is not None else self._m.n,)

    def __getitem__(self, k):
        return self._m.get(k)

    def __eq__(self, o):
        return mkbool(veq(self, o))

    def __ne__(self, o):
        return mkbool(znot(veq(self, o)))

    __hash__ = object.__hash__


class LSet(Heap):
    """mutable set: an SMap whose values are ignored"""
    __slots__ = ('_m',)

    def __init__(self, m, frozen=False, label=None):
        self._m = m
        self.frozen = frozen
        self.label = label

    @property
    def m(self):
        return self._m

    @m.setter
    def m(self, v):
        self.touch()
        self._m = v


class SObj(Heap):
    """instance of an interpreted class, or a stub"""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None, frozen=False, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.frozen = frozen
        self.label = label

    def __repr__(self):
        return "<SObj %s>" % (getattr(self.cls, '__name__', self.cls),)


class SpecObj(SObj):
    """an SObj whose attributes specifications can read"""
    __slots__ = ()

    def __getattr__(self, n):
        a = object.__getattribute__(self, 'attrs')
        if n in a:
            return a[n]
        raise AttributeError(n)


class SFn(object):
    """opaque pure callback: an uninterpreted function (total)"""

    def __init__(self, name, argkinds, retkind):
        self.name = name
        self.argkinds = argkinds
        self.retkind = retkind

    def __call__(self, *args):
        return engine().apply_uf(self.name, args, self.retkind)


# ---------------------------------------------------------------- kinds
def kind_sort(k):
    if k == 'int':
        return IntS
    if k in ('real', 'double'):
        return RealS
    if k == 'bool':
        return BoolS
    if k == 'str':
        return StrS
    if isinstance(k, tuple) and k[0] == 'A':
        return usort(k[1])
    raise Unsupported("kind without sort: %r" % (k,))


def wrap(k, t):
    if k == 'int':
        return SInt(t)
    if k in ('real', 'double'):
        return SReal(t)
    if k == 'bool':
        return mkbool(t)
    if k == 'str':
        return SStr(t)
    return SA(t)


def fresh(k, name, binders=None):
    """fresh symbolic value of kind k; with binders it is a function of them"""
    e = engine()
    if binders is None:
        binders = tuple(e.binders)
    if k == 'none' or k is None:
        return None
    if isinstance(k, tuple):
        if k[0] == 'list':
            ln = fresh('int', name + '.len', binders)
            e.assume_binder(ln.t >= 0, binders)
            base = e.freshname(name + '.at')
            if isinstance(k[1], tuple) and k[1][0] == 'const':
                return LList(SSeq(ln, lambda i: k[1][1], kind=k[1]))
            cache = {}

            def at(i, base=base, binders=tuple(binders)):
                it = num_term(i)
                key = it.get_id()
                r = cache.get(key)
                if r is None:
                    r = (fresh_named(k[1], base, binders + (it,)), it)
                    cache[key] = r
                return r[0]
            return LList(SSeq(ln, at, kind=k[1]))
        if k[0] == 'tuple':
            return tuple(fresh(x, name + '.%d' % i, binders) for i, x in enumerate(k[1:]))
        if k[0] == 'rec':
            return LDict(SMap(items={f: fresh(x, name + '.' + f, binders) for f, x in k[1].items()}))
        if k[0] == 'map':
            return fresh_map(k, name, binders)
        if k[0] == 'fn':
            return SFn(e.freshname(name), k[1], k[2])
        if k[0] == 'const':
            return k[1]
    base = e.freshname(name)
    return fresh_named(k, base, tuple(binders))


def fresh_named(k, base, binders):
    """like fresh but with the exact function name given (deterministic per name)"""
    if isinstance(k, tuple) and k[0] == 'list':
        e = engine()
        ln = fresh_named('int', base + '.len', binders)
        e.assume_named(base + '.len', ln.t, binders)
        cache = {}

        def at(i):
            it = num_term(i)
            r = cache.get(it.get_id())
            if r is None:
                r = (fresh_named(k[1], base + '.at', binders + (it,)), it)
                cache[it.get_id()] = r
            return r[0]
        return LList(SSeq(ln, at, kind=k[1]), frozen=True, label=base)
    if isinstance(k, tuple) and k[0] == 'tuple':
        return tuple(fresh_named(x, base + '.%d' % i, binders) for i, x in enumerate(k[1:]))
    if isinstance(k, tuple) and k[0] == 'rec':
        return LDict(SMap(items={f: fresh_named(x, base + '.' + f, binders) for f, x in k[1].items()}), frozen=True, label=base)
    if isinstance(k, tuple) and k[0] == 'const':
        return k[1]
    if isinstance(k, tuple) and k[0] == 'map':
        return named_map(k, base, binders)
    if k == 'none':
        return None
    key = None
    if k in ('int', 'real', 'bool'):
        key = (k, base) + tuple(b.get_id() for b in binders)
        r = engine().named.get(key)
        if r is not None:
            return r[0]
    s = kind_sort(k)
    if not binders:
        v = wrap(k, z3.Const(base, s))
    else:
        f = uf(base, *([b.sort() for b in binders] + [s]))
        v = wrap(k, f(*binders))
    if key is not None:
        engine().named[key] = (v, binders)
    return v


def fresh_map(k, name, binders):
    base = engine().freshname(name)
    return named_map(k, base, tuple(binders))


def named_map(k, base, binders):
    e = engine()
    kk, vk = k[1], k[2]
    ks = kind_sort(kk)
    n = fresh_named('int', base + '.n', binders)
    bs = [b.sort() for b in binders]
    hasf = uf(base + '.has', *(bs + [ks, BoolS]))
    keyf = uf(base + '.key', *(bs + [IntS, ks]))
    idxf = uf(base + '.idx', *(bs + [ks, IntS]))

    def has(key):
        return hasf(*(binders + (key_term(key),)))

    def get(key):
        return fresh_named(vk, base + '.get', binders + (key_term(key),))
    keyseq = SSeq(n, lambda i: wrap(kk, keyf(*(binders + (num_term(i),)))), kind=kk)
    e.map_axioms(base, n.t, hasf, keyf, idxf, binders, ks)
    m = SMap(has, get, n, keyseq, kk=kk, vk=vk)
    m.idx = lambda key: wrap('int', idxf(*(binders + (key_term(key),))))
    return LDict(m, frozen=bool(binders), label=base)


def key_term(k):
    if isinstance(k, Sym):
        return k.t
    if isinstance(k, str):
        return z3.StringVal(k)
    if isinstance(k, int):
        return z3.IntVal(k)
    raise Unsupported("map key %r" % (k,))


# ---------------------------------------------------------------- equality / ite
def veq(a, b):
    """-> python bool or z3 Bool"""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return str_term(a) == str_term(b)
        if isinstance(a, SA) and isinstance(b, SA):
            if a.t.sort() == b.t.sort():
                if a.t.eq(b.t):
                    return True
                return a.t == b.t
            return False
        if (isinstance(a, SBool) or isinstance(b, SBool)) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            if isinstance(b, bool):
                return a.t if b else z3.Not(a.t)
            if isinstance(a, bool):
                return b.t if a else z3.Not(b.t)
            return a.t == b.t
        na = isnum(a) or isinstance(a, SBool)
        nb = isnum(b) or isinstance(b, SBool)
        if na and nb:
            if isspecial(a) or isspecial(b):
                return False
            x, y = num_term(a), num_term(b)
            if x.eq(y):
                return True
            if x.sort() != y.sort():
                x, y = toreal(a), toreal(b)
            return x == y
        if isinstance(a, SA) or isinstance(b, SA):
            o = b if isinstance(a, SA) else a
            if o is None or isinstance(o, (bool, LList, LDict, list, dict, tuple)):
                return False
            if engine().obj_eq_hook:
                return engine().obj_eq_hook(engine(), a, b)
            raise Unsupported("equality of opaque value with %r" % (o,))
        return False
    la, lb = isinstance(a, (LList, SSeq, list)), isinstance(b, (LList, SSeq, list))
    if la or lb:
        if not (la and lb):
            return False
        return seq_eq(toseq(a), toseq(b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return zand(*[veq(x, y) for x, y in zip(a, b)])
    da, db = isinstance(a, (LDict, SMap, dict)), isinstance(b, (LDict, SMap, dict))
    if da or db:
        if not (da and db):
            return False
        return map_eq(tomap(a), tomap(b))
    if isinstance(a, SObj) or isinstance(b, SObj):
        h = engine().obj_eq(a, b)
        return h
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b) and engine().nan_equal:
        return True
    r = a == b
    if isinstance(r, SBool):
        return r.t
    return bool(r)


def tomap(x):
    if isinstance(x, LDict):
        return x._m
    if isinstance(x, SMap):
        return x
    if isinstance(x, dict):
        return SMap(items=x)
    raise Unsupported("not a map: %r" % (x,))


def seq_eq(a, b):
    if a is b:
        return True
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        return zand(*[veq(x, y) for x, y in zip(a.items, b.items)])
    for x, y in ((a, b), (b, a)):
        if x.items is not None and len(x.items) <= 6:
            eqs = [veq(y.n, len(x.items))]
            for i, it in enumerate(x.items):
                eqs.append(veq(it, y.at(i)))
            return zand(*eqs)
    e = engine()
    for x, y in ((a, b), (b, a)):
        if x.parts is not None and y.parts is None and x.parts[1].items is not None and len(x.parts[1].items) == 1 and y.items is None:
            # something appended: the old part and the new item, apart
            front, last = x.parts[0], x.parts[1].items[0]
            with e.noforking(num_term(front.n) >= 0):
                end = veq(last, y.at(front.n))
            return zand(veq(a.n, b.n), seq_eq(front, SSeq(front.n, y.at)), end)
    j = z3.Int(e.freshname('j'))
    with e.noforking(z3.And(j >= 0, j < num_term(a.n))):
        body = veq(a.at(SInt(j)), b.at(SInt(j)))
    leneq = veq(a.n, b.n)
    if body is True:
        return leneq
    return zand(leneq, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < num_term(a.n)), tz(body))))


def map_eq(a, b):
    if a is b:
        return True
    if a.items is not None and b.items is not None and all(not isinstance(k, Sym) for k in list(a.items) + list(b.items)):
        if set(a.items) != set(b.items):
            return False
        return zand(*[veq(a.items[k], b.items[k]) for k in a.items])
    e = engine()
    kk = a.kk or b.kk
    if kk is None:
        if a.items is not None and not a.items and b.n is not None:
            return veq(b.n, 0)
        kk = 'str'
    kv = z3.Const(e.freshname('kv'), kind_sort(kk))
    K = wrap(kk, kv)
    ha, hb = a.has(K), b.has(K)
    empty = a.items == {} or b.items == {}
    with e.noforking(tz(ha)):
        body = zand(tz(ha) == tz(hb), zimp(ha, veq(a.get(K), b.get(K)) if ha is not False and not empty else True))
    return z3.ForAll([kv], tz(body))


def vite(c, a, b):
    if isinstance(c, SBool):
        c = c.t
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(z3.If(c, tz(zbool(a)), tz(zbool(b))))
    if (isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float))
            and not isinstance(a, bool) and not isinstance(b, bool)):
        if isspecial(a) or isspecial(b):
            if isspecial(a) and isspecial(b) and repr(a) == repr(b):
                return a
            if engine().branch(c):
                return a
            return b
        if isreal(a) or isreal(b):
            x, y = toreal(a), toreal(b)
            return SReal(x) if x.eq(y) else SReal(z3.If(c, x, y))
        x, y = num_term(a), num_term(b)
        return SInt(x) if x.eq(y) else SInt(z3.If(c, x, y))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return SStr(z3.If(c, str_term(a), str_term(b)))
    if isinstance(a, SA) and isinstance(b, SA) and a.t.sort() == b.t.sort():
        return a if a.t.eq(b.t) else SA(z3.If(c, a.t, b.t))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (LList, list)) and isinstance(b, (LList, list)):
        x, y = toseq(a), toseq(b)
        n = vite(c, x.n, y.n)
        return LList(SSeq(n, lambda i: vite(c, x.at(i), y.at(i)), kind=x.kind or y.kind), frozen=True)
    if isinstance(a, (LDict, dict)) and isinstance(b, (LDict, dict)):
        x, y = tomap(a), tomap(b)
        if x.items is not None and y.items is not None and set(x.items) == set(y.items):
            return LDict(SMap(items={k: vite(c, x.items[k], y.items[k]) for k in x.items}), frozen=True)
        return LDict(SMap(lambda k: z3.If(c, tz(x.has(k)), tz(y.has(k))), lambda k: vite(c, x.get(k), y.get(k)),
                          vite(c, x.n, y.n) if x.n is not None and y.n is not None else None, None, kk=x.kk or y.kk, vk=x.vk or y.vk), frozen=True)
    e = engine()
    if __import__('os').environ.get('VDBG3') and e.ctx:
        print('VITE', type(a), type(b), repr(a)[:200], repr(b)[:200])
    if e.branch(c):
        return a
    return b
