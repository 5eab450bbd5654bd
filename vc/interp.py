"""Symbolic interpreter for the Python source of the code under verification.

The functions interpreted are the live ones: a function object's code object
names the file and line, the file is parsed on every run, and the AST found
there is executed.  Nothing is dropped from a function body; a construct the
interpreter does not model raises Unsupported (reported, never a proof)."""
import ast
import builtins
import inspect
import math
import types

import z3

from vc import sym
from vc.engine import BreakEx, ContinueEx, PathEnd, PyRaise, Restart, ReturnEx, UNBOUND
from vc.sym import (Heap, LDict, LList, LSet, NoFork, SA, SBool, SFn, SInt, SMap, SNum, SObj, SReal, SSeq, SStr, Sym,
                    Unsupported, fresh, mkbool, num_term, str_term, toseq, tomap, tz, veq, vite, zand, zbool, zimp, znot, zor)

_modules = {}


def module_ast(filename):
    if filename not in _modules:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src, filename)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                idx.setdefault((ln, getattr(n, 'name', '<lambda>')), n)
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    idx.setdefault((min(d.lineno for d in n.decorator_list), n.name), n)
        _modules[filename] = idx
    return _modules[filename]


def register_source(filename, src):
    tree = ast.parse(src, filename)
    idx = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            idx.setdefault((n.lineno, getattr(n, 'name', '<lambda>')), n)
    _modules[filename] = idx
    return tree


def function_ast(fn):
    co = fn.__code__
    idx = module_ast(co.co_filename)
    n = idx.get((co.co_firstlineno, co.co_name))
    if n is None:
        raise Unsupported("no source for %r" % (fn,))
    return n


class Frame(object):
    def __init__(self, locals_, globals_, parent, eng):
        self.locals = locals_
        self.globals = globals_
        self.parent = parent
        self.serial = eng.register(self)
        self.names = None

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is UNBOUND:
                    raise Unsupported("variable %s may be unbound" % name)
                return v
            f = f.parent
        g = self.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))


class Closure(object):
    """a function/lambda created by interpreted code"""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.__name__ = node, frame, defaults, kwdefaults, name
        self.attrs = {}


class BoundMethod(object):
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class ModelMethod(object):
    """method of a modelled container / symbolic value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class GenExp(object):
    def __init__(self, node, frame, interp):
        self.node, self.frame, self.interp = node, frame, interp


class SIter(object):
    """sequence view consumed by iteration (range, zip, enumerate, ...)"""

    def __init__(self, seq, oneshot=True):
        self.seq = seq


class Cmpkey(object):
    def __init__(self, fn):
        self.fn = fn


class IClass(object):
    """class defined by interpreted code (class statement) -- not needed by most targets"""


MATH_UF = {'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log10', 'log1p', 'expm1',
           'sqrt', 'atan2', 'gamma', 'lgamma', 'erf', 'erfc', 'hypot', 'fmod', 'copysign', 'pow', 'cbrt', 'log2'}


ROTATED = {}


def rotate(stmts):
    """x = E; while test(x): B; x = E   is read as   while True: x = E; if not test(x): break; B"""
    key = id(stmts)
    if key in ROTATED:
        return ROTATED[key][1]
    out = list(stmts)
    for i in range(len(out) - 1, 0, -1):
        w = out[i]
        if not isinstance(w, ast.While) or w.orelse or isinstance(w.test, ast.Constant):
            continue
        if any(isinstance(n, ast.Call) for n in ast.walk(w.test)) or any(isinstance(n, ast.Continue) for n in ast.walk(w)):
            continue
        j = 0
        while j < i and j < len(w.body) - 1 and ast.dump(out[i - 1 - j]) == ast.dump(w.body[-1 - j]):
            j += 1
        if not j:
            continue
        loop = ast.While(test=ast.Constant(value=True), orelse=[],
                         body=out[i - j:i] + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=w.test), body=[ast.Break()], orelse=[])] + w.body[:-j])
        ast.copy_location(loop, w)
        for n in ast.walk(loop):
            if 'lineno' in n._attributes and not hasattr(n, 'lineno'):
                ast.copy_location(n, w)
        out[i - j:i + 1] = [loop]
        return ROTATED.setdefault(key, (stmts, rotate(out) if len(out) > 1 else out))[1]
    ROTATED[key] = (stmts, stmts)
    return stmts


def splice_seq(s, lo, hi, mid):
    """s with s[lo:hi] replaced by mid"""
    lo, hi = sym.norm_slice(s.n, lo, hi)
    return s.slice(0, lo).concat(mid).concat(s.slice(hi, None))


class Interp(object):
    overflowing = ()

    def __init__(self, eng, summaries=None, models=None, inline_prefixes=('titus', 'contracts', 'vc.pymodels', 'vc.stubs', '<gen')):
        self.e = eng
        self.summaries = summaries or {}
        self.models = models or {}
        self.inline_prefixes = inline_prefixes
        self.depth = 0
        self.maxdepth = 60

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return self.e.branch(v.t)
        if isinstance(v, SNum):
            return self.e.branch(v.t != 0)
        if isinstance(v, SStr):
            return self.e.branch(z3.Length(v.t) != 0)
        if isinstance(v, LList):
            return self.truth(self.compare('>', v._seq.n, 0))
        if isinstance(v, (LDict, LSet)):
            n = self.e.map_len(v._m)
            return self.truth(self.compare('>', n, 0))
        if isinstance(v, SA):
            h = self.e.hook_state.get('truth')
            if h:
                return self.truth(h(v))
            raise Unsupported("truth value of an opaque datum")
        if isinstance(v, SObj):
            m = self.class_attr(v.cls, '__bool__') or self.class_attr(v.cls, '__len__')
            if m:
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            return True
        if isinstance(v, (Closure, BoundMethod, ModelMethod, SFn)):
            return True
        return bool(v)

    # ------------------------------------------------------------ calls
    def run_function(self, fn, args, kwargs=None):
        return self.call(fn, list(args), dict(kwargs or {}))

    def call(self, fn, args, kwargs):
        e = self.e
        if isinstance(fn, BoundMethod):
            return self.call(fn.fn, [fn.obj] + list(args), kwargs)
        try:
            s = self.summaries.get(fn)
        except TypeError:
            s = None
        if s is not None:
            return s(self, args, kwargs)
        if isinstance(fn, SFn):
            return fn(*args)
        if isinstance(fn, Closure):
            return self.call_ast(fn.node, fn.frame, fn.frame.globals, fn.defaults, fn.kwdefaults, args, kwargs, fn.__name__)
        if isinstance(fn, ModelMethod):
            return call_method(self, fn.obj, fn.name, args, kwargs)
        if isinstance(fn, types.MethodType):
            if isinstance(fn.__func__, types.FunctionType) and self.inlinable(fn.__func__):
                return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(fn, types.FunctionType):
            if self.inlinable(fn):
                return self.inline(fn, args, kwargs)
        if isinstance(fn, SObj):
            m = fn.attrs.get('__call__') or self.class_attr(fn.cls, '__call__')
            if m is None:
                raise PyRaise(TypeError("not callable"))
            return self.call(BoundMethod(m, fn), args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if not isinstance(fn, (types.BuiltinFunctionType, types.FunctionType, types.MethodType)) and hasattr(type(fn), '__call__') \
                and isinstance(type(fn).__call__, types.FunctionType) and self.inlinable(type(fn).__call__):
            return self.call(type(fn).__call__, [fn] + list(args), kwargs)
        return self.native(fn, args, kwargs)

    def inlinable(self, fn):
        mod = getattr(fn, '__module__', None) or ''
        return any(mod == p or mod.startswith(p + '.') or mod.startswith(p) for p in self.inline_prefixes)

    def inline(self, fn, args, kwargs):
        node = function_ast(fn)
        self.e.stats['inlined'].add('%s.%s' % (fn.__module__, fn.__qualname__))
        parent = None
        if fn.__closure__:
            parent = Frame({n: c.cell_contents for n, c in zip(fn.__code__.co_freevars, fn.__closure__)}, fn.__globals__, None, self.e)
        kwd = fn.__kwdefaults__ or {}
        return self.call_ast(node, parent, fn.__globals__, list(fn.__defaults__ or ()), kwd, args, kwargs, fn.__name__)

    def bind(self, a, defaults, kwdefaults, args, kwargs, name):
        loc = {}
        params = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                if p in kwargs:
                    raise PyRaise(TypeError("multiple values for " + p))
                loc[p] = args[i]
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                di = i - (len(params) - len(defaults))
                if di < 0:
                    raise PyRaise(TypeError("%s() missing argument %s" % (name, p)))
                loc[p] = defaults[di]
        if len(args) > len(params):
            if a.vararg:
                loc[a.vararg.arg] = tuple(args[len(params):])
            else:
                raise PyRaise(TypeError("%s() takes %d arguments" % (name, len(params))))
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError("missing keyword " + x.arg))
        if a.kwarg:
            loc[a.kwarg.arg] = LDict(kwargs)
        elif kwargs:
            raise PyRaise(TypeError("%s() got unexpected keyword %s" % (name, sorted(kwargs))))
        return loc

    def call_ast(self, node, parent, globals_, defaults, kwdefaults, args, kwargs, name):
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth = 0
            raise Unsupported("recursion without a contract: %s" % name)
        try:
            loc = self.bind(node.args, defaults, kwdefaults, args, kwargs, name)
            fr = Frame(loc, globals_, parent, self.e)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if is_generator(node):
                return self.run_generator(node, fr)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def run_generator(self, node, fr):
        raise Unsupported("generator function %s" % node.name)

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            if all(not isinstance(a, (LList, LDict)) for a in args):
                init = cls.__init__
                try:
                    return cls(*args, **kwargs)
                except TypeError as err:
                    raise PyRaise(err)
        if self.inlinable(cls) or (isinstance(getattr(cls, '__init__', None), types.FunctionType) and self.inlinable(cls.__init__)):
            if getattr(cls, '_vc_native', False):
                return self.native(cls, args, kwargs)
            o = SObj(cls)
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kwargs)
            elif args or kwargs:
                raise PyRaise(TypeError("%s() takes no arguments" % cls.__name__))
            return o
        return self.native(cls, args, kwargs)

    def native(self, fn, args, kwargs):
        """call a native function on fully concrete arguments"""
        try:
            a = [self.to_native(x) for x in args]
            k = {n: self.to_native(x) for n, x in kwargs.items()}
        except Unsupported:
            raise Unsupported("call of %s with symbolic arguments" % (getattr(fn, '__qualname__', None) or repr(fn)))
        mod = getattr(fn, '__module__', None)
        self.e.stats['trusted'].add('%s.%s' % (mod, getattr(fn, '__qualname__', repr(fn)[:60])))
        try:
            r = fn(*a, **k)
        except (Unsupported, NoFork, PathEnd, Restart, PyRaise):
            raise
        except Exception as exc:
            raise PyRaise(exc)
        return self.from_native(r)

    def to_native(self, x):
        if isinstance(x, LList):
            if x._seq.items is None:
                raise Unsupported("symbolic list")
            return [self.to_native(y) for y in x._seq.items]
        if isinstance(x, LDict):
            if x._m.items is None:
                raise Unsupported("symbolic dict")
            return {self.to_native(k): self.to_native(v) for k, v in x._m.items.items()}
        if isinstance(x, LSet):
            if x._m.items is None:
                raise Unsupported("symbolic set")
            return set(self.to_native(k) for k in x._m.items)
        if isinstance(x, tuple):
            return tuple(self.to_native(y) for y in x)
        if isinstance(x, SIter):
            return [self.to_native(y) for y in self.concrete_items(x.seq)]
        if isinstance(x, (SInt, SReal, SBool, SStr)):
            t = z3.simplify(x.t)
            if z3.is_int_value(t):
                return t.as_long()
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            raise Unsupported("symbolic value in native call")
        if isinstance(x, (Sym, SObj, Closure, BoundMethod, ModelMethod, SFn, GenExp)):
            raise Unsupported("symbolic value in native call")
        return x

    def from_native(self, r):
        if type(r) is list:
            return LList([self.from_native(x) for x in r])
        if type(r) is dict:
            return LDict({k: self.from_native(v) for k, v in r.items()})
        if type(r) in (set, frozenset):
            return LSet(SMap(items={k: True for k in r}))
        if isinstance(r, (type({}.keys()), type({}.values()), type({}.items()))):
            return SIter(SSeq.of([self.from_native(x) for x in r]))
        return r

    def concrete_items(self, seq):
        if seq.items is not None:
            return seq.items
        if isinstance(seq.n, int):
            return tuple(seq.at(i) for i in range(seq.n))
        v = sym.int_val(seq.n.t)
        if v is not None:
            return tuple(seq.at(i) for i in range(v))
        raise Unsupported("sequence of symbolic length")

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        if isinstance(cls, type):
            for c in cls.__mro__:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, (staticmethod,)):
                        return v.__func__
                    return v
        return None

    def getattr(self, o, name):
        if isinstance(o, SObj):
            if name in o.attrs:
                return o.attrs[name]
            v = self.class_attr(o.cls, name)
            if v is not None:
                if isinstance(v, property):
                    return self.call(v.fget, [o], {})
                if isinstance(v, classmethod):
                    return BoundMethod(v.__func__, o.cls)
                if isinstance(v, (types.FunctionType, Closure)):
                    return BoundMethod(v, o)
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return LDict(dict(o.attrs))
            raise PyRaise(AttributeError(name))
        if isinstance(o, (LList, LDict, LSet, SStr, SInt, SReal, SIter)):
            return ModelMethod(o, name)
        if isinstance(o, (str, list, dict, tuple, bytes)) and not isinstance(o, type):
            return ModelMethod(o, name)
        if isinstance(o, Closure):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.__name__
            raise PyRaise(AttributeError(name))
        if isinstance(o, SFn):
            raise PyRaise(AttributeError(name))
        if isinstance(o, (Sym, BoundMethod, ModelMethod)):
            if isinstance(o, SA):
                h = self.e.hook_state.get('attr')
                if h:
                    return h(self, o, name)
            raise PyRaise(AttributeError(name))
        if isinstance(o, SSuper):
            for c in o.cls.__mro__[o.cls.__mro__.index(o.start) + 1:]:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    return BoundMethod(v, o.obj) if isinstance(v, types.FunctionType) else v
            raise PyRaise(AttributeError(name))
        try:
            v = getattr(o, name)
        except AttributeError as err:
            raise PyRaise(err)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            o.touch(name)
            o.attrs[name] = v
            return
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        raise Unsupported("attribute assignment on %r" % (type(o),))

    # ------------------------------------------------------------ operators
    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}

    def binop(self, op, a, b):
        if isinstance(a, SObj) or isinstance(b, SObj):
            nm = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '|': '__or__', '&': '__and__'}.get(op)
            m = isinstance(a, SObj) and nm and self.class_attr(a.cls, nm)
            if m:
                return self.call(BoundMethod(m, a), [b], {})
            raise Unsupported("operator %s on objects" % op)
        if isinstance(a, (LList, list)) and isinstance(b, (LList, list)) and op == '+':
            return LList(toseq(a).concat(toseq(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if op == '*' and (isinstance(a, (LList, list)) or isinstance(b, (LList, list))):
            if not isinstance(a, (LList, list)):
                a, b = b, a
            s = toseq(a)
            if isinstance(b, int) and s.items is not None:
                return LList(SSeq.of(s.items * b))
            if s.items is not None and len(s.items) == 1:
                n = sym.vmaxi(sym.zi(b), 0)
                x = s.items[0]
                return LList(SSeq(n, lambda i: x))
            raise Unsupported("list repetition")
        if op == '%' and isinstance(a, (str, SStr)):
            return str_format(self, a, b)
        if op == '*' and (isinstance(a, (str, SStr)) or isinstance(b, (str, SStr))) and (isinstance(a, Sym) or isinstance(b, Sym)):
            from vc.pymodels import repeat
            return SStr(repeat(self.e, str_term(a if isinstance(a, (str, SStr)) else b), num_term(b if isinstance(a, (str, SStr)) else a)))
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and op == '+':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return SStr(z3.Concat(str_term(a), str_term(b)))
        if isinstance(a, LSet) and isinstance(b, LSet):
            nm = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}.get(op)
            if nm:
                return call_method(self, a, nm, [b], {})
        if isinstance(a, Sym) or isinstance(b, Sym):
            na = sym.isnum(a) or isinstance(a, (SBool, bool))
            nb = sym.isnum(b) or isinstance(b, (SBool, bool))
            if not (na and nb):
                if isinstance(a, SA) or isinstance(b, SA):
                    h = self.e.hook_state.get('binop')
                    if h:
                        return h(self, op, a, b)
                    raise Unsupported("operator %s on opaque datum" % op)
                raise PyRaise(TypeError("unsupported operand types for %s" % op))
            if op in ('+', '-', '*', '/', '//', '%', '**'):
                return sym.arith(op, a, b)
            return sym.bitop(op, a, b)
        a, b = self.to_native(a), self.to_native(b)
        try:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == '/':
                r = a / b
            elif op == '//':
                r = a // b
            elif op == '%':
                r = a % b
            elif op == '**':
                r = a ** b
            elif op == '&':
                r = a & b
            elif op == '|':
                r = a | b
            elif op == '^':
                r = a ^ b
            elif op == '<<':
                r = a << b
            else:
                r = a >> b
        except Exception as exc:
            raise PyRaise(exc)
        return self.from_native(r)

    def eq(self, a, b):
        """python == as a value"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj):
                m = self.class_attr(x.cls, '__eq__')
                if isinstance(m, types.FunctionType) and not self.e.obj_eq_hook:
                    return self.call(m, [x, y], {})
                break
        if isinstance(a, SIter):
            a = LList(a.seq)
        if isinstance(b, SIter):
            b = LList(b.seq)
        if isinstance(a, LSet) or isinstance(b, LSet):
            if isinstance(a, LSet) and isinstance(b, LSet):
                return mkbool(set_eq(self, a._m, b._m))
            return False
        prev = self.e.nan_equal
        self.e.nan_equal = False
        try:
            return mkbool(veq(a, b))
        finally:
            self.e.nan_equal = prev

    def compare(self, op, a, b):
        if isinstance(a, SIter):
            a = LList(a.seq)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if (sym.isnum(a) or isinstance(a, (SBool, bool))) and (sym.isnum(b) or isinstance(b, (SBool, bool))):
                return sym.compare_num(op, a, b)
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                x, y = SStr(str_term(a)), SStr(str_term(b))
                return {'<': x.__lt__, '<=': x.__le__, '>': x.__gt__, '>=': x.__ge__}[op](y)
            if isinstance(a, SA) and isinstance(b, SA):
                return {'<': a.__lt__, '<=': a.__le__, '>': a.__gt__, '>=': a.__ge__}[op](b)
            if isinstance(a, SA) or isinstance(b, SA):
                raise Unsupported("order of opaque datum against %r / %r" % (a, b))
            raise PyRaise(TypeError("'%s' not supported between these operands" % op))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
            # lexicographic
            strict = op[0]
            r = (op in ('<=', '>='))
            for x, y in reversed(list(zip(a, b))):
                r = mkbool(zor(zbool(self.compare(strict, x, y)), zand(zbool(self.eq(x, y)), zbool(r))))
            return r
        if isinstance(a, SObj):
            nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
            m = self.class_attr(a.cls, nm)
            if isinstance(m, types.FunctionType):
                return self.call(m, [a, b], {})
        a, b = self.to_native(a), self.to_native(b)
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        except Exception as exc:
            raise PyRaise(exc)

    def contains(self, c, x):
        """x in c"""
        if isinstance(c, (LDict, LSet)):
            m = c._m
            if m.items is None and m.kk is None and m.has is None:
                raise Unsupported("membership")
            if isinstance(x, (LList, LDict)):
                raise PyRaise(TypeError("unhashable"))
            return mkbool(m.has(x))
        if isinstance(c, (SStr, str)) and isinstance(x, (SStr, str)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return mkbool(z3.Contains(str_term(c), str_term(x)))
        if isinstance(c, SIter):
            c = LList(c.seq)
        if isinstance(c, (LList, list, tuple)):
            s = toseq(c)
            if s.items is not None:
                return mkbool(zor(*[zbool(self.eq(x, y)) for y in s.items]))
            e = self.e
            j = z3.Int(e.freshname('in'))
            rng = z3.And(0 <= j, j < num_term(s.n))
            with e.noforking(rng, [j]):
                body = zbool(self.eq(s.at(SInt(j)), x))
            return mkbool(z3.Exists([j], z3.And(rng, tz(body))))
        if isinstance(c, SObj):
            m = self.class_attr(c.cls, '__contains__')
            if m:
                return self.call(BoundMethod(m, c), [x], {})
        if isinstance(x, Sym) and isinstance(c, (dict, set, frozenset)):
            return mkbool(zor(*[veq(x, y) for y in c]))
        if isinstance(x, Sym) and isinstance(c, range):
            if c.step == 1:
                return mkbool(zand(num_term(x) >= c.start, num_term(x) < c.stop))
        try:
            return self.to_native(x) in c
        except TypeError as exc:
            raise PyRaise(exc)

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return mkbool(veq(a, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, SA) and isinstance(b, SA):
                raise Unsupported("identity of opaque data")
            if type(a) is not type(b) and not (sym.isnum(a) and sym.isnum(b)):
                return False
            if isinstance(a, bool) or isinstance(b, bool):
                return False
            raise Unsupported("identity of symbolic values")
        return a is b

    # ------------------------------------------------------------ subscripts
    def getitem(self, c, i):
        e = self.e
        if isinstance(c, SIter):
            raise PyRaise(TypeError("not subscriptable"))
        if isinstance(c, (LList, list, tuple)):
            if isinstance(i, slice):
                s = toseq(c)
                if i.step not in (None, 1):
                    if i.step == -1 and i.start is None and i.stop is None:
                        return LList(s.rev())
                    if s.items is None:
                        raise Unsupported("slice step")
                    r = s.items[i]
                else:
                    for q in (i.start, i.stop):
                        if not (q is None or isinstance(q, (int, SInt))):
                            raise PyRaise(TypeError("slice indices must be integers"))
                    if isinstance(c, tuple):
                        return c[i]
                    return LList(s.slice(i.start, i.stop))
                return tuple(r) if isinstance(c, tuple) else LList(SSeq.of(r))
            if isinstance(i, (SReal, float, str, SStr, SA)) or i is None:
                raise PyRaise(TypeError("list indices must be integers"))
            s = toseq(c)
            i = sym.zi(i) if not isinstance(i, bool) else int(i)
            n = s.n
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n:
                    e.raise_(IndexError("list index out of range"))
                return s.at(i if i >= 0 else i + n)
            if e.branch(tz(zor(zbool(i >= n), zbool(i < -n if isinstance(n, int) else i + n < 0)))):
                e.raise_(IndexError("list index out of range"))
            if isinstance(i, int):
                return self.item(c, s, i if i >= 0 else n + i)
            if e.branch(tz(zbool(i < 0))):
                return self.item(c, s, i + n)
            return self.item(c, s, i)
        if isinstance(c, LDict):
            m = c._m
            if m.items is not None and not isinstance(i, Sym):
                k = self.to_native(i)
                try:
                    if k not in m.items:
                        e.raise_(KeyError(k))
                except TypeError as exc:
                    raise PyRaise(exc)
                return m.items[k]
            if not e.branch(tz(m.has(i))):
                e.raise_(KeyError(i if not isinstance(i, Sym) else 'symbolic key'))
            return self.entry(c, m, i)
        if isinstance(c, (str, SStr)) and (isinstance(c, SStr) or isinstance(i, Sym) or isinstance(i, slice)):
            return sym.str_index(c, i)
        if isinstance(c, dict) and isinstance(i, Sym):
            for k, v in c.items():
                if e.branch(tz(veq(i, k))):
                    return v
            e.raise_(KeyError('symbolic key'))
        if isinstance(c, SObj):
            m = self.class_attr(c.cls, '__getitem__')
            if m:
                return self.call(BoundMethod(m, c), [i], {})
        if isinstance(c, SA):
            h = e.hook_state.get('getitem')
            if h:
                return h(self, c, i)
            raise Unsupported("subscript of opaque datum")
        if isinstance(c, Sym) or c is None:
            raise PyRaise(TypeError("object is not subscriptable"))
        try:
            return self.from_native(c[self.to_native(i)]) if not isinstance(c, (list, dict)) else c[self.to_native(i)]
        except (KeyError, IndexError, TypeError) as exc:
            raise PyRaise(exc)

    def item(self, c, s, i):
        """item of a list; a list in a mutable list of unknown length is a write-through view"""
        v = s.at(i)
        if s.items is None and isinstance(c, LList) and isinstance(v, LList) and not c.frozen and (not v.frozen or v.label == 'entry'):
            return ItemList(v._seq, c, i)
        return v

    def entry(self, d, m, k):
        """value stored under a key that is present; a list entry of a mutable dict is a write-through view"""
        v = m.get(k)
        if isinstance(v, LList) and not d.frozen and (not v.frozen or v.label == 'entry'):
            return ViewList(v._seq, d, k)
        return v

    def setitem(self, c, i, v):
        e = self.e
        if isinstance(c, LList):
            s = c._seq
            if isinstance(i, slice):
                if i.step is None and s.items is not None and toseq(v).items is not None:
                    it = list(s.items)
                    it[self.to_native(i.start) if i.start is not None else None:self.to_native(i.stop) if i.stop is not None else None] = list(toseq(v).items)
                    c.seq = SSeq.of(it)
                    return
                if i.step is None:
                    c.seq = splice_seq(s, i.start, i.stop, toseq(v))
                    return
                raise Unsupported("slice assignment")
            n = s.n
            i = sym.zi(i)
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n:
                    e.raise_(IndexError("list assignment index out of range"))
                c.seq = s.updated(i if i >= 0 else i + n, v)
                return
            if e.branch(tz(zor(zbool(i >= n), zbool(i + n < 0)))):
                e.raise_(IndexError("list assignment index out of range"))
            if e.branch(tz(zbool(i < 0))):
                i = i + n
            c.seq = s.updated(i, v)
            return
        if isinstance(c, LDict):
            m = c._m
            if isinstance(i, str) and m.items is not None:
                v2 = map_set(self, m, i, v)
                if v2.items is not None:
                    c.touch(i)
                    c._m = v2
                    return
            c.m = map_set(self, m, i, v)
            return
        if isinstance(c, SObj):
            m = self.class_attr(c.cls, '__setitem__')
            if m:
                return self.call(BoundMethod(m, c), [i, v], {})
        if isinstance(c, (tuple, str, Sym)) or c is None:
            raise PyRaise(TypeError("object does not support item assignment"))
        raise Unsupported("item assignment on %r" % (type(c),))

    def delitem(self, c, i):
        if isinstance(c, LDict):
            m = c._m
            if not self.e.branch(tz(m.has(i))):
                self.e.raise_(KeyError('key'))
            map_drop(self, c, i)
            return
        if isinstance(c, LList) and not isinstance(i, slice):
            self.getitem(c, i)
            s = c._seq
            j = sym.zi(i)
            if isinstance(j, int) and j < 0:
                j = s.n + j
            elif isinstance(j, SInt) and self.e.branch(j.t < 0):
                j = j + s.n
            c.seq = s.slice(0, j).concat(s.slice(j + 1, None))
            return
        if isinstance(c, LList) and i.step is None:
            c.seq = splice_seq(c._seq, i.start, i.stop, SSeq.of([]))
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(n).__name__, getattr(n, 'lineno', '?')))
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return fr.lookup(n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Index(self, n, fr):
        return self.eval(n.value, fr)

    def e_Slice(self, n, fr):
        return slice(self.eval(n.lower, fr) if n.lower else None, self.eval(n.upper, fr) if n.upper else None,
                     self.eval(n.step, fr) if n.step else None)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval(n.slice, fr))

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return LList(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return make_set(self, self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.iter_seq(self.eval(x.value, fr))))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, n, fr):
        d = LDict({})
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr)
                d._m = map_update(self, d._m, tomap(o))
                continue
            kk = self.eval(k, fr)
            d._m = map_set(self, d._m, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        out = ''
        for v in n.values:
            s = self.eval(v.value, fr) if isinstance(v, ast.FormattedValue) else v.value
            out = self.binop('+', out, to_str(self, s))
        return out

    def e_Lambda(self, n, fr):
        return Closure(n, fr, [self.eval(d, fr) for d in n.args.defaults], {}, '<lambda>')

    def e_IfExp(self, n, fr):
        c = self.eval(n.test, fr)
        if self.e.ctx and isinstance(c, SBool) and not self.decided(c):
            with self.e.noforking(c.t):
                a = self.eval(n.body, fr)
            with self.e.noforking(z3.Not(c.t)):
                b = self.eval(n.orelse, fr)
            return vite(c.t, a, b)
        return self.eval(n.body if self.truth(c) else n.orelse, fr)

    def decided(self, c):
        return self.e.quick_entails(c.t) or self.e.quick_entails(z3.Not(c.t))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            if self.e.ctx and isinstance(v, SBool) and not self.decided(v):
                rest = ast.copy_location(ast.BoolOp(n.op, n.values[i + 1:]), n) if len(n.values) - i > 2 else n.values[i + 1]
                with self.e.noforking(v.t if isand else z3.Not(v.t)):
                    w = self.eval(rest, fr)
                if isinstance(w, (SBool, bool)):
                    return mkbool(zand(v.t, zbool(w)) if isand else zor(v.t, zbool(w)))
                raise NoFork("boolean operator")
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(znot(v.t))
            return not self.truth(v)
        if isinstance(v, SNum):
            return -v if isinstance(n.op, ast.USub) else (~v if isinstance(n.op, ast.Invert) else v)
        if isinstance(v, SBool):
            t = num_term(v)
            return SInt(-t) if isinstance(n.op, ast.USub) else (SInt(-t - 1) if isinstance(n.op, ast.Invert) else SInt(t))
        if isinstance(v, Sym) or isinstance(v, Heap) or v is None:
            raise PyRaise(TypeError("bad operand type for unary operator"))
        try:
            return -v if isinstance(n.op, ast.USub) else (~v if isinstance(n.op, ast.Invert) else +v)
        except Exception as exc:
            raise PyRaise(exc)

    def e_BinOp(self, n, fr):
        return self.binop(self.OPS[type(n.op)], self.eval(n.left, fr), self.eval(n.right, fr))

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for i, (op, rhs) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rhs, fr)
            r = self.cmpop(op, left, right)
            if i == len(n.ops) - 1 and res is True:
                return r
            if self.e.ctx and isinstance(r, SBool):
                res = mkbool(zand(zbool(res), zbool(r)))
            else:
                if not self.truth(r):
                    return False
            left = right
        return res

    def cmpop(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            r = self.eq(a, b)
            return mkbool(znot(zbool(r)))
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return mkbool(znot(zbool(self.is_(a, b))))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return mkbool(znot(zbool(self.contains(b, a))))
        return self.compare({ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t], a, b)

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and 'self' not in f.locals:
                f = f.parent
            raise Unsupported("zero-argument super")
        fn = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.iter_seq(self.eval(a.value, fr))))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        symkw = None
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                m = tomap(d)
                if m.items is None or any(isinstance(x, Sym) for x in m.items):
                    if symkw is not None or fn is not dict:
                        raise Unsupported("symbolic keyword arguments")
                    symkw = m
                else:
                    kwargs.update(m.items)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if symkw is not None:
            base = self.call(fn, args, kwargs)
            base._m = map_update(self, base._m, symkw)
            return base
        return self.call(fn, args, kwargs)

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n, fr)

    def e_GeneratorExp(self, n, fr):
        return GenExp(n, fr, self)

    def e_SetComp(self, n, fr):
        return make_set(self, self.comp(n, fr))

    def e_DictComp(self, n, fr):
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        return make_dict(self, GenExp(ast.copy_location(ast.GeneratorExp(pair, n.generators), n), fr, self))

    def comp(self, n, fr, consume=None):
        """evaluate a comprehension; consume(value) (if given) is called per element and may raise StopComp"""
        e = self.e
        gens = n.generators
        if consume is None and len(gens) == 1 and not gens[0].ifs:
            seq = self.iter_seq(self.eval(gens[0].iter, fr))
            r = self.try_map(n.elt, gens[0].target, seq, fr)
            if r is not None:
                return r
            return self.comp_loop(n, fr, None, seq)
        return self.comp_loop(n, fr, consume)

    def try_map(self, elt, target, seq, fr):
        e = self.e
        if seq.items is not None:
            return None
        snap = snapshot_env(fr, e)

        def at(i):
            sub = Frame({}, fr.globals, snap, e)
            self.assign(target, seq.at(i), sub)
            return self.eval(elt, sub)
        j = z3.Int(e.freshname('cj'))
        s0 = e.serial
        try:
            with e.noforking(z3.And(0 <= j, j < num_term(seq.n)), [j]):
                probe = at(SInt(j))
        except (NoFork, Unsupported):
            return None

        cache = {}

        def guarded(i):
            it = num_term(i)
            key = it.get_id()
            if key in cache:
                return cache[key][0]
            with e.noforking(z3.And(0 <= it, it < num_term(seq.n))):
                v = at(i)
            cache[key] = (v, it)
            return v
        return LList(SSeq(seq.n, guarded))

    def comp_loop(self, n, fr, consume, seq0=None):
        out = LList([])

        def level(gi, env):
            if gi == len(n.generators):
                v = self.eval(n.elt, env)
                if consume is not None:
                    consume(v)
                else:
                    out.seq = out._seq.concat(SSeq.of([v]))
                return
            g = n.generators[gi]
            seq = seq0 if (gi == 0 and seq0 is not None) else self.iter_seq(self.eval(g.iter, env if gi else fr))

            def bind(k):
                self.assign(g.target, seq.at(k), env)

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, env)):
                        return
                level(gi + 1, env)
            self.run_loop(env, seq, bind, body, lambda: None)
        env = Frame({}, fr.globals, fr, self.e)
        level(0, env)
        return out

    def run_loop(self, fr, seq, bind, body, orelse):
        if seq.items is not None or isinstance(seq.n, int):
            n = seq.n
            if n > 2000:
                raise Unsupported("long concrete loop")
            broke = False
            for i in range(n):
                bind(i)
                try:
                    body()
                except ContinueEx:
                    pass
                except BreakEx:
                    broke = True
                    break
            if not broke:
                orelse()
            return
        self.e.cut_loop(fr, seq.n, bind, body, orelse)

    # ------------------------------------------------------------ iteration
    def iter_seq(self, v):
        """the sequence of values produced by iterating v"""
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SIter):
            return v.seq
        if isinstance(v, LList):
            return v._seq
        if isinstance(v, (list, tuple)):
            return SSeq.of(v)
        if isinstance(v, (LDict, LSet)):
            return map_keyseq(self, v._m)
        if isinstance(v, GenExp):
            return self.comp(v.node, v.frame)._seq
        if isinstance(v, (range, dict, set, frozenset, str, bytes)):
            return SSeq.of(list(v))
        if isinstance(v, SStr):
            return SSeq(sym.str_len(v), lambda i: SStr(z3.SubString(v.t, num_term(i), z3.IntVal(1))))
        if isinstance(v, SObj):
            m = self.class_attr(v.cls, '__iter__')
            if m:
                return self.iter_seq(self.call(BoundMethod(m, v), [], {}))
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return SSeq.of(list(v))
        if v is None or isinstance(v, (Sym, bool, int, float)):
            raise PyRaise(TypeError("object is not iterable"))
        raise Unsupported("iteration over %r" % (type(v),))

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in rotate(stmts):
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement %s (line %s)" % (type(s).__name__, s.lineno))
            m(s, fr)

    def setvar(self, fr, name, v):
        f = fr
        if fr.names and name in fr.names:      # nonlocal / global
            f = fr.names[name]
            if f is None:
                raise Unsupported("assignment to a global")
        f.locals[name] = v
        self.e.wrote(('v', f.serial, name))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.iter_seq(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.concrete_items(s)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, LList(items[i:len(items) - after]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            n = len(t.elts)
            if isinstance(s.n, int):
                if s.n != n:
                    raise PyRaise(ValueError("wrong number of values to unpack"))
            elif not self.e.branch(num_term(s.n) == n):
                self.e.raise_(ValueError("wrong number of values to unpack"))
            for i, x in enumerate(t.elts):
                self.assign(x, s.at(i), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = self.OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = fr.lookup(s.target.id)
            rhs = self.eval(s.value, fr)
            if isinstance(cur, LList) and op == '+':
                cur.seq = cur._seq.concat(self.iter_seq(rhs))
                self.setvar(fr, s.target.id, cur)
                return
            self.setvar(fr, s.target.id, self.binop(op, cur, rhs))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(op, cur, self.eval(s.value, fr)))
        else:
            o = self.eval(s.target.value, fr)
            i = self.eval(s.target.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, cur, self.eval(s.value, fr)))

    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        seq = self.iter_seq(it)
        self.run_loop(fr, seq, lambda k: self.assign(s.target, seq.at(k), fr), lambda: self.block(s.body, fr),
                      lambda: self.block(s.orelse, fr))

    PURE = ('len', 'isinstance', 'min', 'max', 'abs', 'int', 'float', 'bool', 'str', 'type')

    def s_While(self, s, fr):
        e = self.e
        # unroll while the test is concretely decided (a test with calls in it may have effects: evaluated inside the loop rule only)
        pure = all(isinstance(c.func, ast.Name) and c.func.id in self.PURE for c in ast.walk(s.test) if isinstance(c, ast.Call))
        here = (tuple(e.taken), s.lineno, s.col_offset)
        names = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)] if pure and not isinstance(s.test, ast.Constant) else []
        if here not in e.flagged:
            for i in range(2000 if pure else 0):
                c = self.eval(s.test, fr)
                if isinstance(c, SBool) or (isinstance(c, (Sym, LList, LDict))):
                    if i and any(isinstance(fr.locals.get(n), (bool, SBool)) for n in names):
                        e.flagged.add(here)
                        from .engine import Restart
                        raise Restart(here[0])
                    break
                if not self.truth(c):
                    self.block(s.orelse, fr)
                    return
                if isinstance(s.test, ast.Constant):
                    break
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
        if not pure and not e.ctx:
            # a test that is false from the start: no loop
            try:
                with e.noforking(z3.BoolVal(True)):
                    c = self.eval(s.test, fr)
            except (NoFork, Unsupported, PyRaise):
                c = None
            if c is False or isinstance(c, SBool) and e.holds(znot(c.t), 400):
                self.block(s.orelse, fr)
                return
        after = None
        if any(isinstance(fr.locals.get(n), (bool, SBool)) for n in names):
            # the test looks at flags: decide them at the end of the iteration, and leave the loop there if that settles the test
            def after():
                for n in names:
                    v = fr.locals.get(n)
                    if isinstance(v, SBool):
                        self.setvar(fr, n, e.branch(v.t))
                return self.eval(s.test, fr) is False
            if after():
                self.block(s.orelse, fr)
                return
        e.cut_loop(fr, None, lambda k: None, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr),
                   cond=lambda: self.truth(self.eval(s.test, fr)), after=after)

    def s_FunctionDef(self, s, fr):
        c = Closure(s, fr, [self.eval(d, fr) for d in s.args.defaults],
                    {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name)
        if s.decorator_list:
            raise Unsupported("decorator in interpreted code")
        self.setvar(fr, s.name, c)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            else:
                raise Unsupported("del target")

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_Nonlocal(self, s, fr):
        for nme in s.names:
            f = fr.parent
            while f is not None and nme not in f.locals:
                f = f.parent
            if fr.names is None:
                fr.names = {}
            fr.names[nme] = f

    def s_Global(self, s, fr):
        if fr.names is None:
            fr.names = {}
        for nme in s.names:
            fr.names[nme] = None

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.setvar(fr, a.asname or a.name.split('.')[0], m if a.asname else importlib.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.setvar(fr, a.asname or a.name, getattr(m, a.name))

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.locals.get('$exc') is not None:
                    raise PyRaise(f.locals['$exc'])
                f = f.parent
            raise Unsupported("bare raise")
        v = self.eval(s.exc, fr)
        if isinstance(v, type):
            v = self.instantiate(v, [], {})
        raise PyRaise(v)

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(exc, SObj):
            return isinstance(exc.cls, type) and issubclass(exc.cls, cls)
        return isinstance(exc, cls)

    def s_Try(self, s, fr):
        def run_final():
            self.block(s.finalbody, fr)
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(pr.exc, self.eval(h.type, fr)):
                        if h.name:
                            self.setvar(fr, h.name, pr.exc)
                        prev = fr.locals.get('$exc')
                        fr.locals['$exc'] = pr.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.locals['$exc'] = prev
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                run_final()
            raise
        else:
            if s.finalbody:
                run_final()

    def s_With(self, s, fr):
        mgrs = []
        for item in s.items:
            m = self.eval(item.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            mgrs.append(m)

        def leave(exc):
            for m in reversed(mgrs):
                a = [None, None, None] if exc is None else [type(exc), exc, None]
                r = self.call(self.getattr(m, '__exit__'), a, {})
                if exc is not None and self.truth(r):
                    exc = None
            return exc
        try:
            self.block(s.body, fr)
        except PyRaise as pr:
            if leave(pr.exc) is not None:
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            leave(None)
            raise
        leave(None)


class SSuper(object):
    def __init__(self, cls, start, obj):
        self.cls, self.start, self.obj = cls, start, obj


class ViewList(LList):
    """list stored in a dict: mutation writes the dict entry"""
    __slots__ = ('owner', 'key')

    def __init__(self, seq, owner, key):
        LList.__init__(self, seq)
        self.owner, self.key = owner, key

    @property
    def seq(self):
        return self._seq

    @seq.setter
    def seq(self, s):
        self._seq = s
        e = sym.engine()
        self.owner.m = map_set(None, self.owner._m, self.key, LList(s, frozen=True, label='entry'))


class ItemList(LList):
    """list stored in a list of unknown length: mutation writes the item"""
    __slots__ = ('owner', 'key')

    def __init__(self, seq, owner, key):
        LList.__init__(self, seq)
        self.owner, self.key = owner, key

    @property
    def seq(self):
        return self._seq

    @seq.setter
    def seq(self, s):
        self._seq = s
        self.owner.seq = self.owner._seq.updated(self.key, LList(s, frozen=True, label='entry'))


def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def snapshot_env(fr, e):
    """freeze the variable bindings visible from fr (values are shared)"""
    loc = {}
    f = fr
    while f is not None:
        for k, v in f.locals.items():
            if k not in loc:
                if type(v) is LList and not v.frozen:
                    v = LList(v._seq, frozen=True, label='captured')
                elif isinstance(v, LDict) and not v.frozen:
                    v = LDict(v._m, frozen=True, label='captured')
                loc[k] = v
        f = f.parent
    return Frame(loc, fr.globals, None, e)


# ---------------------------------------------------------------- maps
def map_kind(m, k=None):
    if m.kk is not None:
        return m.kk
    if k is not None:
        return key_kind(k)
    for x in (m.items or {}):
        return key_kind(x)
    return None


def key_kind(k):
    if isinstance(k, SA):
        return ('A', k.t.sort().name())
    if isinstance(k, (SStr, str)):
        return 'str'
    if isinstance(k, (SInt, int)):
        return 'int'
    raise Unsupported("map key %r" % (k,))


def map_set(ip, m, k, v):
    if m.items is not None and not isinstance(k, Sym) and not any(isinstance(x, Sym) for x in m.items):
        d = dict(m.items)
        k = k if not isinstance(k, LList) else None
        if k is None:
            raise PyRaise(TypeError("unhashable type: 'list'"))
        d[k] = v
        r = SMap(items=d)
        r.kk = m.kk
        return r
    kk = map_kind(m, k)

    def has(x):
        return zor(veq(x, k), m.has(x))

    def get(x):
        c = veq(x, k)
        if c is True or (m.items is not None and not m.items):
            return v
        if c is False:
            return m.get(x)
        return vite(c, v, m.get(x))
    n = None
    if m.n is not None:
        n = vite(m.has(k), m.n, m.n + 1)
    return SMap(has, get, n, None, kk=kk, vk=None)


def map_del(ip, m, k):
    if m.items is not None and not isinstance(k, Sym):
        d = dict(m.items)
        del d[k]
        return SMap(items=d)
    return SMap(lambda x: zand(znot(veq(x, k)), m.has(x)), m.get, m.n - 1 if m.n is not None else None, None, kk=map_kind(m, k), vk=m.vk)


def map_drop(ip, d, k):
    """del d[k] for a key known to be there"""
    v = map_del(ip, d._m, k)
    if isinstance(k, str) and v.items is not None:
        d.touch(k)
        d._m = v
    else:
        d.m = v


def map_update(ip, a, b):
    if a.items is not None and b.items is not None and not any(isinstance(x, Sym) for x in list(a.items) + list(b.items)):
        d = dict(a.items)
        d.update(b.items)
        return SMap(items=d)
    if a.items is not None and not a.items:
        return b
    if b.items is not None:
        r = a
        for k, v in b.items.items():
            r = map_set(ip, r, k, v)
        return r

    def get(x):
        return vite(b.has(x), b.get(x), a.get(x))
    return SMap(lambda x: zor(b.has(x), a.has(x)), get, None, None, kk=a.kk or b.kk, vk=None)


def map_keyseq(ip, m):
    if m.keyseq is not None:
        return m.keyseq
    e = sym.engine()
    kk = map_kind(m)
    if kk is None:
        raise Unsupported("iteration over a map without key kind")
    ks = sym.kind_sort(kk)
    base = e.freshname('ks')
    n = fresh('int', 'ksn')
    e.assume(n.t >= 0)
    keyf = sym.uf(base + '.key', sym.IntS, ks)
    idxf = sym.uf(base + '.idx', ks, sym.IntS)
    i = z3.Int('mi!')
    kv = z3.Const('mk!', ks)
    with e.noforking(z3.BoolVal(True), [i, kv]):
        hk = tz(m.has(sym.wrap(kk, keyf(i))))
        hv = tz(m.has(sym.wrap(kk, kv)))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.t), z3.And(hk, idxf(keyf(i)) == i)), patterns=[keyf(i)]))
    e.assume(z3.ForAll([kv], z3.Implies(hv, z3.And(0 <= idxf(kv), idxf(kv) < n.t, keyf(idxf(kv)) == kv)), patterns=[idxf(kv)]))
    if m.n is not None:
        e.assume(veq(m.n, n))
    else:
        m.n = n
    m.keyseq = SSeq(n, lambda j: sym.wrap(kk, keyf(num_term(j))), kind=kk)
    return m.keyseq


def set_eq(ip, a, b):
    if a.items is not None and b.items is not None and not any(isinstance(x, Sym) for x in list(a.items) + list(b.items)):
        return set(a.items) == set(b.items)
    e = sym.engine()
    kk = map_kind(a) or map_kind(b)
    if kk is None:
        raise Unsupported("set equality")
    kv = z3.Const(e.freshname('sv'), sym.kind_sort(kk))
    K = sym.wrap(kk, kv)
    with e.noforking(z3.BoolVal(True), [kv]):
        body = tz(a.has(K)) == tz(b.has(K))
    return z3.ForAll([kv], body)


def make_set(ip, v):
    """set(v)"""
    if isinstance(v, LSet):
        return LSet(v._m)
    if isinstance(v, LDict):
        return LSet(v._m)
    if isinstance(v, SIter) and getattr(v, 'keys_of', None) is not None:
        return LSet(v.keys_of)
    s = ip.iter_seq(v) if not isinstance(v, (list, tuple)) else SSeq.of(v)
    if s.items is not None and all(not isinstance(x, (Sym, Heap)) and not has_sym(x) for x in s.items):
        return LSet(SMap(items={x: True for x in s.items}))
    if s.items is not None:
        items = s.items
        k = next(x for x in items if isinstance(x, Sym)) if any(isinstance(x, Sym) for x in items) else None
        if k is None:
            raise Unsupported("set of %r" % (items,))
        if len(items) <= 6 and all(isinstance(x, (Sym, int, str)) for x in items):
            m = SMap(lambda x: zor(*[veq(x, y) for y in items]), lambda x: True, None, None, kk=key_kind(k), vk='bool')
            n = 0
            for i, y in enumerate(items):
                n = n + vite(tz(zor(*[veq(y, z) for z in items[:i]])), 0, 1)
            m.n = n
            return LSet(m)
    e = sym.engine()
    kind = s.kind
    if kind is None:
        with e.noforking(z3.BoolVal(True)):
            kind = key_kind(s.at(SInt(z3.Int('shape!'))))

    def has(x):
        return zbool(ip.contains(LList(s), x))
    m = SMap(has, lambda x: True, None, None, kk=kind, vk='bool')
    m.memo['items of'] = s
    return LSet(m)


def has_sym(x):
    if isinstance(x, (Sym, Heap)):
        return True
    if isinstance(x, tuple):
        return any(has_sym(y) for y in x)
    return False


def make_dict(ip, v=None, **kw):
    """dict(v, **kw)"""
    if v is None:
        m = SMap(items={})
    elif isinstance(v, LDict):
        m = v._m
    elif isinstance(v, dict):
        m = SMap(items=dict(v))
    else:
        m = pairs_to_map(ip, v)
    if kw:
        m = map_update(ip, m, SMap(items=kw))
    return LDict(m)


def pairs_to_map(ip, v):
    e = ip.e
    if isinstance(v, GenExp):
        g = v.node.generators
        if len(g) == 1:
            src = ip.eval(g[0].iter, v.frame)
            src = getattr(src, 'origin', src) if isinstance(src, LList) else src
            r = dict_comp_parts(ip, v, src)
            if r is not None:
                return r
        d = LDict({})

        def consume(p):
            s = ip.iter_seq(p)
            d.m = map_set(ip, d._m, s.at(0), s.at(1))
        ip.comp(v.node, v.frame, consume)
        return d._m
    org = items_origin(v, ip)
    if org is not None:
        return org
    s = ip.iter_seq(v)
    if s.items is not None:
        m = SMap(items={})
        for p in s.items:
            q = ip.iter_seq(p)
            m = map_set(ip, m, q.at(0), q.at(1))
        return m
    # the last pair with a key determines its value
    n = num_term(s.n)

    def key(i):
        return ip.iter_seq(s.at(i)).at(0)
    i = z3.Int(e.freshname('di'))
    rng = z3.And(0 <= i, i < n)
    with e.noforking(rng, [i]):
        kk = key_kind(key(SInt(i)))
        L = sym.uf(e.freshname('lastof'), sym.kind_sort(kk), sym.IntS)
        x = key(SInt(i))
        e.assume(z3.ForAll([i], z3.Implies(rng, z3.And(i <= L(sym_term(x)), L(sym_term(x)) < n, tz(zbool(veq(key(SInt(L(sym_term(x)))), x)))))))

    def has(x):
        t = L(sym_term(x))
        with e.noforking(z3.And(0 <= t, t < n)):
            return z3.And(0 <= t, t < n, tz(zbool(veq(key(SInt(t)), x))))

    def get(x):
        return ip.iter_seq(s.at(SInt(L(sym_term(x))))).at(1)
    return SMap(has, get, None, None, kk=kk)


def sym_term(x):
    return x.t if isinstance(x, Sym) else z3.StringVal(x) if isinstance(x, str) else num_term(x)


def items_origin(v, ip=None):
    """the map a sequence of items was taken from, if it is exactly map.items(), or (given ip) what dict() makes of a concatenation of such"""
    s = v.seq if isinstance(v, SIter) else v._seq if isinstance(v, LList) else v if isinstance(v, SSeq) else None
    if s is None:
        return None
    if ip is not None and s.parts is not None:
        a, b = items_origin(s.parts[0], ip), items_origin(s.parts[1], ip)
        return map_update(ip, a, b) if a is not None and b is not None else None
    return ITEMS.get(id(s), (None, None))[1] if ITEMS.get(id(s), (None,))[0] is s else None


ITEMS = {}


def mark_items(seq, m):
    if len(ITEMS) > 5000:
        ITEMS.clear()
    ITEMS[id(seq)] = (seq, m)
    return seq


def dict_comp_parts(ip, gen, src):
    s = src.seq if isinstance(src, SIter) else src._seq if isinstance(src, LList) else src if isinstance(src, SSeq) else None
    if s is not None and s.parts is not None:
        a, b = dict_comp_parts(ip, gen, s.parts[0]), dict_comp_parts(ip, gen, s.parts[1])
        return map_update(ip, a, b) if a is not None and b is not None else None
    return dict_comp(ip, gen, src)


def dict_comp(ip, gen, src):
    """dict((k, f(k, v)) for k, v in m.items() if p(k, v)) as a map, keys unchanged"""
    m = items_origin(src)
    if m is None:
        s = ip.iter_seq(src)
        m = ITEMS.get(id(s), (None, None))[1] if ITEMS.get(id(s), (None,))[0] is s else None
    if m is None or m.items is not None:
        return None
    e = ip.e
    g = gen.node.generators[0]
    snap = snapshot_env(gen.frame, e)
    kk = map_kind(m)

    def ev(K):
        sub = Frame({}, gen.frame.globals, snap, e)
        ip.assign(g.target, (K, m.get(K)), sub)
        c = True
        for f in g.ifs:
            with e.noforking(tz(c)):
                t = ip.eval(f, sub)
                if not isinstance(t, (bool, SBool)):
                    raise NoFork("filter")
            c = zand(c, zbool(t))
        with e.noforking(tz(c)):
            p = ip.eval(gen.node.elt, sub)
        q = ip.iter_seq(p)
        return c, q.at(0), q.at(1)
    kv = z3.Const(e.freshname('dk'), sym.kind_sort(kk))
    K = sym.wrap(kk, kv)
    try:
        with e.noforking(tz(m.has(K)), [kv]):
            c, k2, v2 = ev(K)
        if veq(k2, K) is not True:
            return None
    except (NoFork, Unsupported):
        return None

    def has(x):
        with e.noforking(tz(m.has(x))):
            c, _, _ = ev(x)
        return zand(m.has(x), c)

    def get(x):
        with e.noforking(tz(m.has(x))):
            return ev(x)[2]
    noif = not g.ifs
    r = SMap(has, get, m.n if noif else None, m.keyseq if noif else None, kk=kk)
    return r


from vc.pymodels import call_method, str_format, to_str  # noqa: E402
