"""Models of Python builtins, container methods and the math module.

These are the trusted base of the verifier (they are cross-checked on every
run, because every contract is also executed natively on concrete inputs)."""
import functools
import itertools
import math
import sys
import types

import z3

from vc import sym
from vc.engine import PyRaise, ReturnEx
from vc.sym import (Heap, LDict, LList, LSet, NoFork, SA, SBool, SFn, SInt, SMap, SNum, SObj, SReal, SSeq, SStr, Sym,
                    Unsupported, fresh, mkbool, num_term, str_term, toseq, tomap, tz, veq, vite, zand, zbool, znot, zor)


class AnyStop(ReturnEx):
    pass


def _i():
    import vc.interp as m
    return m


# ------------------------------------------------------------------ builtins
def b_len(ip, args, kw):
    v, = args
    if isinstance(v, LList):
        return v._seq.n
    if isinstance(v, (LDict, LSet)):
        return ip.e.map_len(v._m)
    if isinstance(v, SStr):
        return sym.str_len(v)
    if isinstance(v, SObj):
        m = ip.class_attr(v.cls, '__len__')
        if m:
            return ip.call(_i().BoundMethod(m, v), [], {})
    if isinstance(v, _i().SIter):
        return v.seq.n
    if isinstance(v, (Sym, _i().GenExp)) or v is None:
        raise PyRaise(TypeError("object has no len()"))
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(e)


def b_range(ip, args, kw):
    for a in args:
        if not isinstance(a, (int, SInt)):
            raise PyRaise(TypeError("integer expected"))
    if all(isinstance(a, int) for a in args):
        return range(*args)
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
    if isinstance(step, int):
        if step == 0:
            raise PyRaise(ValueError("range() arg 3 must not be zero"))
        if step == 1:
            n = sym.vmaxi(stop - start, 0)
        elif step > 0:
            n = sym.vmaxi(SInt((num_term(stop - start) + (step - 1)) / step), 0)
        else:
            n = sym.vmaxi(SInt((num_term(start - stop) + (-step - 1)) / (-step)), 0)
    else:
        e = ip.e
        if e.branch(step.t == 0):
            e.raise_(ValueError("range() arg 3 must not be zero"))
        if not e.branch(step.t > 0):
            raise Unsupported("range with symbolic negative step")
        n = fresh('int', 'rangelen')
        d = num_term(stop - start)
        e.assume(n.t >= 0)
        e.assume(z3.If(d <= 0, n.t == 0, z3.And((n.t - 1) * step.t < d, d <= n.t * step.t)))
    return _i().SIter(SSeq(n, lambda i: start + i * step if not (isinstance(step, int) and step == 1) else start + i, kind='int'))


def b_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    s = ip.iter_seq(args[0])
    if s.items is not None:
        return _i().SIter(SSeq.of([(start + i, x) for i, x in enumerate(s.items)]))
    return _i().SIter(SSeq(s.n, lambda i: (start + i if not (isinstance(start, int) and start == 0) else i, s.at(i))))


def b_zip(ip, args, kw):
    ss = [ip.iter_seq(a) for a in args]
    if not ss:
        return _i().SIter(SSeq.of([]))
    if all(s.items is not None for s in ss):
        return _i().SIter(SSeq.of(list(zip(*[s.items for s in ss]))))
    n = ss[0].n
    for s in ss[1:]:
        if ip.e.quick_entails(veq(n, s.n)):
            continue
        n = sym.vmini(n, s.n)
    return _i().SIter(SSeq(n, lambda i: tuple(s.at(i) for s in ss)))


def b_reversed(ip, args, kw):
    r = _i().SIter(ip.iter_seq(args[0]).rev())
    if isinstance(args[0], SStr):
        r.revof = args[0]
    return r


def b_list(ip, args, kw):
    if not args:
        return LList([])
    s = ip.iter_seq(args[0])
    return LList(s)


def b_tuple(ip, args, kw):
    if not args:
        return ()
    s = ip.iter_seq(args[0])
    if s.items is not None:
        return tuple(s.items)
    return tuple(ip.concrete_items(s))


def b_dict(ip, args, kw):
    return _i().make_dict(ip, args[0] if args else None, **kw)


def b_set(ip, args, kw):
    if not args:
        return LSet(SMap(items={}))
    return _i().make_set(ip, args[0])


def lazy_map(ip, f, seqs):
    n = seqs[0].n
    for s in seqs[1:]:
        n = sym.vmini(n, s.n)
    if all(s.items is not None for s in seqs):
        return LList([ip.call(f, list(x), {}) for x in zip(*[s.items for s in seqs])])
    e = ip.e
    j = z3.Int(e.freshname('mj'))
    try:
        with e.noforking(z3.And(0 <= j, j < num_term(n)), [j]):
            ip.call(f, [s.at(SInt(j)) for s in seqs], {})
    except (NoFork, Unsupported):
        out = LList([])
        env = _i().Frame({}, {}, None, e)

        def body():
            out.seq = out._seq.concat(SSeq.of([ip.call(f, list(env.locals['$x']), {})]))

        def bind(k):
            env.locals['$x'] = tuple(s.at(k) for s in seqs)
            e.wrote(('v', env.serial, '$x'))
        ip.run_loop(env, SSeq(n, None), bind, body, lambda: None)
        return out

    def at(i):
        with e.noforking(z3.And(0 <= num_term(i), num_term(i) < num_term(n))):
            return ip.call(f, [s.at(i) for s in seqs], {})
    return LList(SSeq(n, at))


def b_map(ip, args, kw):
    return _i().SIter(lazy_map(ip, args[0], [ip.iter_seq(a) for a in args[1:]])._seq)


def b_filter(ip, args, kw):
    f, s = args[0], ip.iter_seq(args[1])
    out = LList([])
    e = ip.e
    env = _i().Frame({}, {}, None, e)

    def bind(k):
        env.locals['$x'] = s.at(k)
        e.wrote(('v', env.serial, '$x'))

    def body():
        x = env.locals['$x']
        if ip.truth(x if f is None else ip.call(f, [x], {})):
            out.seq = out._seq.concat(SSeq.of([x]))
    ip.run_loop(env, s, bind, body, lambda: None)
    return _i().SIter(out._seq)


def fold_loop(ip, s, init, step):
    e = ip.e
    env = _i().Frame({'$acc': init}, {}, None, e)

    def bind(k):
        env.locals['$x'] = s.at(k)
        e.wrote(('v', env.serial, '$x'))

    def body():
        env.locals['$acc'] = step(env.locals['$acc'], env.locals['$x'])
        e.wrote(('v', env.serial, '$acc'))
    ip.run_loop(env, s, bind, body, lambda: None)
    return env.locals['$acc']


def b_sum(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if isinstance(args[0], _i().GenExp):
        e = ip.e
        env = _i().Frame({'$acc': start}, {}, None, e)

        def consume(v):
            env.locals['$acc'] = ip.binop('+', env.locals['$acc'], v)
            e.wrote(('v', env.serial, '$acc'))
        ip.comp(args[0].node, args[0].frame, consume)
        return env.locals['$acc']
    return fold_loop(ip, ip.iter_seq(args[0]), start, lambda a, x: ip.binop('+', a, x))


def b_reduce(ip, args, kw):
    f, s = args[0], ip.iter_seq(args[1])
    if len(args) > 2:
        return fold_loop(ip, s, args[2], lambda a, x: ip.call(f, [a, x], {}))
    if isinstance(s.n, int):
        if s.n == 0:
            raise PyRaise(TypeError("reduce() of empty sequence"))
    elif ip.e.branch(num_term(s.n) == 0):
        ip.e.raise_(TypeError("reduce() of empty sequence"))
    return fold_loop(ip, s.slice(1, None), s.at(0), lambda a, x: ip.call(f, [a, x], {}))


def extremum(ip, args, kw, op):
    key = kw.get('key')

    def kf(x):
        return ip.call(key, [x], {}) if key is not None else x

    def better(x, y):
        return zbool(ip.compare(op, kf(x), kf(y)))
    if len(args) > 1:
        s = SSeq.of(args)
    else:
        s = ip.iter_seq(args[0])
    e = ip.e
    if s.items is not None:
        if not s.items:
            if 'default' in kw:
                return kw['default']
            raise PyRaise(ValueError("empty sequence"))
        best = s.items[0]
        for x in s.items[1:]:
            c = better(x, best)
            if isinstance(c, bool):
                best = x if c else best
            else:
                try:
                    best = vite(c, x, best)
                except NoFork:
                    raise
        return best
    if e.branch(num_term(s.n) == 0):
        if 'default' in kw:
            return kw['default']
        e.raise_(ValueError("empty sequence"))
    r = fresh('int', 'best')
    e.assume(z3.And(0 <= r.t, r.t < num_term(s.n)))
    j = z3.Int(e.freshname('bj'))
    br = s.at(r)
    with e.noforking(z3.And(0 <= j, j < num_term(s.n)), [j]):
        b1 = tz(better(s.at(SInt(j)), br))
        b2 = tz(better(br, s.at(SInt(j))))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < num_term(s.n)), z3.Not(b1))))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.t), b2)))
    return br


def b_min(ip, args, kw):
    return extremum(ip, args, kw, '<')


def b_max(ip, args, kw):
    return extremum(ip, args, kw, '>')


def b_abs(ip, args, kw):
    v, = args
    if isinstance(v, SNum):
        return abs(v)
    if isinstance(v, SBool):
        return SInt(num_term(v))
    if isinstance(v, (Sym, Heap)) or v is None:
        raise PyRaise(TypeError("bad operand type for abs()"))
    try:
        return abs(v)
    except Exception as e:
        raise PyRaise(e)


def quantify(ip, g, isany):
    """any/all as one quantified term, or None"""
    e = ip.e
    if isinstance(g, _i().GenExp):
        gens = g.node.generators
        if len(gens) != 1:
            return None
        seq = ip.iter_seq(ip.eval(gens[0].iter, g.frame))
        if seq.items is not None:
            return None

        def body(i):
            sub = _i().Frame({}, g.frame.globals, g.frame, e)
            ip.assign(gens[0].target, seq.at(i), sub)
            c = True
            for f in gens[0].ifs:
                with e.noforking(tz(c)):
                    t = ip.eval(f, sub)
                    if not isinstance(t, (bool, SBool)):
                        raise NoFork("filter")
                c = zand(c, zbool(t))
            with e.noforking(tz(c)):
                v = ip.eval(g.node.elt, sub)
            if not isinstance(v, (bool, SBool)):
                raise NoFork("truth")
            return zand(c, zbool(v)) if isany else zor(znot(c), zbool(v))
    else:
        seq = ip.iter_seq(g)
        if seq.items is not None:
            return None

        def body(i):
            v = seq.at(i)
            if not isinstance(v, (bool, SBool)):
                raise NoFork("truth")
            return zbool(v)
    j = z3.Int(e.freshname('qj'))
    rng = z3.And(0 <= j, j < num_term(seq.n))
    try:
        with e.noforking(rng, [j]):
            b = tz(body(SInt(j)))
    except (NoFork, Unsupported):
        return None
    if isany:
        return mkbool(z3.Exists([j], z3.And(rng, b)))
    return mkbool(z3.ForAll([j], z3.Implies(rng, b)))


def b_any(ip, args, kw):
    r = quantify(ip, args[0], True)
    if r is not None:
        return r
    return anyall(ip, args[0], True)


def b_all(ip, args, kw):
    r = quantify(ip, args[0], False)
    if r is not None:
        return r
    return anyall(ip, args[0], False)


def anyall(ip, g, isany):
    depth = len(ip.e.loopstack)

    def consume(v):
        if ip.truth(v) == isany:
            raise AnyStop(None)
    try:
        if isinstance(g, _i().GenExp):
            ip.comp(g.node, g.frame, consume)
        else:
            s = ip.iter_seq(g)
            env = _i().Frame({}, {}, None, ip.e)

            def bind(k):
                env.locals['$x'] = s.at(k)
                ip.e.wrote(('v', env.serial, '$x'))
            ip.run_loop(env, s, bind, lambda: consume(env.locals['$x']), lambda: None)
    except AnyStop:
        return isany
    return not isany


PYTYPES = {int: (SInt, SBool), float: (SReal,), bool: (SBool,), str: (SStr,), list: (LList,), dict: (LDict,), set: (LSet,)}


def b_isinstance(ip, args, kw):
    v, c = args
    if isinstance(c, LList):
        c = tuple(c._seq.items)
    if isinstance(c, tuple):
        out = False
        for x in c:
            r = b_isinstance(ip, [v, x], {})
            if r is True:
                return True
            if isinstance(r, SBool):
                out = mkbool(zor(zbool(out), r.t))
        return out
    if isinstance(v, SA):
        h = ip.e.hook_state.get('isinstance')
        if h:
            return h(ip, v, c)
        return c is object
    if isinstance(v, Sym) or isinstance(v, (LList, LDict, LSet)):
        if c is object:
            return True
        if isinstance(v, LList) and v.pytype is tuple:
            return c is tuple
        return any(isinstance(v, t) for t in PYTYPES.get(c, ()))
    if isinstance(v, SObj):
        return isinstance(v.cls, type) and isinstance(c, type) and issubclass(v.cls, c)
    if isinstance(v, (_i().Closure, SFn, _i().BoundMethod)):
        return c in (types.FunctionType, object)
    try:
        return isinstance(v, c)
    except TypeError as e:
        raise PyRaise(e)


def b_issubclass(ip, args, kw):
    return issubclass(*args)


def b_callable(ip, args, kw):
    v, = args
    if isinstance(v, (_i().Closure, SFn, _i().BoundMethod, _i().ModelMethod)):
        return True
    if isinstance(v, SObj):
        return ip.class_attr(v.cls, '__call__') is not None or '__call__' in v.attrs
    if isinstance(v, (Sym, Heap)):
        return False
    return callable(v)


def b_hasattr(ip, args, kw):
    for c, t in ((LList, list), (LDict, dict), (LSet, set), (SStr, str), (SInt, int), (SReal, float), (SBool, bool)):
        if isinstance(args[0], c):
            return hasattr(t, args[1])
    try:
        ip.getattr(args[0], args[1])
        return True
    except PyRaise as p:
        if isinstance(p.exc, AttributeError):
            return False
        raise


def b_getattr(ip, args, kw):
    try:
        return ip.getattr(args[0], args[1])
    except PyRaise as p:
        if len(args) > 2 and isinstance(p.exc, AttributeError):
            return args[2]
        raise


def b_int(ip, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(num_term(v))
    if isinstance(v, SReal):
        return SInt(sym.trunc_term(v.t))
    if isinstance(v, SStr):
        e = ip.e
        ok = sym.uf('int_ok', sym.StrS, sym.BoolS)(v.t) if len(args) == 1 else sym.uf('int_ok_base', sym.StrS, sym.IntS, sym.BoolS)(v.t, num_term(args[1]))
        if not e.branch(ok):
            e.raise_(ValueError("invalid literal for int()"))
        if len(args) == 1:
            return SInt(sym.uf('int_of', sym.StrS, sym.IntS)(v.t))
        return SInt(sym.uf('int_of_base', sym.StrS, sym.IntS, sym.IntS)(v.t, num_term(args[1])))
    if isinstance(v, Heap) or v is None or isinstance(v, SA):
        raise PyRaise(TypeError("int() argument"))
    return ip.native(int, args, kw)


def b_float(ip, args, kw):
    if not args:
        return 0.0
    v = args[0]
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.ToReal(num_term(v)))
    if isinstance(v, SStr):
        e = ip.e
        if not e.branch(sym.uf('float_ok', sym.StrS, sym.BoolS)(v.t)):
            e.raise_(ValueError("could not convert string to float"))
        return SReal(sym.uf('float_of', sym.StrS, sym.RealS)(v.t))
    if isinstance(v, Heap) or v is None or isinstance(v, SA):
        raise PyRaise(TypeError("float() argument"))
    return ip.native(float, args, kw)


def to_str(ip, v):
    if isinstance(v, SStr):
        return v
    if isinstance(v, SInt):
        return SStr(sym.uf('str_of_int', sym.IntS, sym.StrS)(v.t))
    if isinstance(v, SReal):
        return SStr(sym.uf('str_of_real', sym.RealS, sym.StrS)(v.t))
    if isinstance(v, SBool):
        return SStr(z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
    if isinstance(v, SA):
        return SStr(sym.uf('str_of', v.t.sort(), sym.StrS)(v.t))
    if isinstance(v, (Heap, tuple)):
        try:
            return str(ip.to_native(v))
        except Unsupported:
            return SStr(sym.fresh_named('str', ip.e.freshname('strof'), ()).t)
    if isinstance(v, (_i().Closure, SFn)):
        return '<function>'
    return str(v)


def b_str(ip, args, kw):
    if not args:
        return ''
    if len(args) > 1:
        return ip.native(str, args, kw)
    return to_str(ip, args[0])


def b_repr(ip, args, kw):
    v = args[0]
    if isinstance(v, SStr):
        return SStr(sym.uf('repr_of_str', sym.StrS, sym.StrS)(v.t))
    if isinstance(v, (Sym, Heap, tuple)):
        return to_str(ip, v)
    return repr(v)


def b_bool(ip, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, (bool, SBool)):
        return v
    return ip.truth(v)


def b_round(ip, args, kw):
    v = args[0]
    if isinstance(v, SInt) and len(args) == 1:
        return v
    if isinstance(v, SReal) and len(args) == 1:
        # half to even
        f = z3.ToInt(v.t)
        d = v.t - z3.ToReal(f)
        return SInt(z3.If(d < 0.5, f, z3.If(d > 0.5, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    return ip.native(round, args, kw)


def b_type(ip, args, kw):
    v, = args
    if isinstance(v, SObj):
        return v.cls
    for t, ss in ((bool, (SBool,)), (int, (SInt,)), (float, (SReal,)), (str, (SStr,)), (list, (LList,)), (dict, (LDict,)), (set, (LSet,))):
        if isinstance(v, ss):
            return t
    if isinstance(v, SA):
        raise Unsupported("type of opaque datum")
    return type(v)


def b_sorted(ip, args, kw):
    s = ip.iter_seq(args[0])
    return sorted_seq(ip, s, kw.get('key'), kw.get('reverse', False))


def b_cmp_to_key(ip, args, kw):
    return _i().Cmpkey(args[0])


def cmp_term(ip, key, x, y, strict):
    """z3: x before y strictly (or weakly)"""
    if isinstance(key, _i().Cmpkey):
        r = ip.call(key.fn, [x, y], {})
        return tz(zbool(ip.compare('<' if strict else '<=', r, 0)))
    kx, ky = (ip.call(key, [x], {}), ip.call(key, [y], {})) if key is not None else (x, y)
    return tz(zbool(ip.compare('<' if strict else '<=', kx, ky)))


def sorted_seq(ip, s, key, reverse):
    e = ip.e
    if s.items is not None and len(s.items) <= 1:
        return LList(s)
    if s.items is not None and not any(_i().has_sym(x) for x in s.items):
        if isinstance(key, _i().Cmpkey):
            k = functools.cmp_to_key(lambda a, b: ip.to_native(ip.call(key.fn, [a, b], {})))
        elif key is not None:
            k = lambda a: ip.to_native(ip.call(key, [a], {}))
        else:
            k = None
        return LList(sorted(s.items, key=k, reverse=ip.truth(reverse)))
    if s.items is not None and key is not None and not isinstance(key, _i().Cmpkey):
        ks = [ip.call(key, [x], {}) for x in s.items]
        if not any(_i().has_sym(k) for k in ks) and isinstance(reverse, bool):
            order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=reverse)
            return LList([s.items[i] for i in order])
    rev = ip.truth(reverse)

    def before(x, y, strict):
        return cmp_term(ip, key, y, x, strict) if rev else cmp_term(ip, key, x, y, strict)
    cache = e.hook_state.setdefault('sorted', [])
    for (s0, before0, out0) in cache:
        if s0 is s or (s0.n is s.n and e.quick_entails(tz(sym.seq_eq(s0, s)))):
            a, b = z3.Int(e.freshname('sa')), z3.Int(e.freshname('sb'))
            rng = z3.And(0 <= a, a < num_term(s.n), 0 <= b, b < num_term(s.n))
            with e.noforking(rng, [a, b]):
                x, y = s.at(SInt(a)), s.at(SInt(b))
                same = z3.And(before(x, y, True) == before0(x, y, True), before(x, y, False) == before0(x, y, False))
            if e.quick_entails(z3.Implies(rng, same)):
                return LList(out0)
    n = num_term(s.n)
    base = e.freshname('perm')
    p = sym.uf(base, sym.IntS, sym.IntS)
    q = sym.uf(base + '.inv', sym.IntS, sym.IntS)
    out = SSeq(s.n, lambda i: s.at(SInt(p(num_term(i)))), kind=s.kind)
    i, j = z3.Int(e.freshname('si')), z3.Int(e.freshname('sj'))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    rng = z3.And(0 <= i, i < j, j < n)
    with e.noforking(rng, [i, j]):
        x, y = out.at(SInt(i)), out.at(SInt(j))
        le = before(x, y, False)
        lt = before(x, y, True)
    e.assume(z3.ForAll([i, j], z3.Implies(rng, z3.And(le, z3.Or(lt, p(i) < p(j)))), patterns=[z3.MultiPattern(p(i), p(j))]))
    cache.append((s, before, out))
    return LList(out)


def b_iter(ip, args, kw):
    it = _i().SIter(ip.iter_seq(args[0]))
    it.where = [id(c) for c in ip.e.loopstack]
    return it


class Spent(object):
    """a generator that next() was called on"""
    def __getattr__(self, name):
        raise Unsupported("generator used again after next()")


def b_next(ip, args, kw):
    it = args[0]
    e = ip.e

    def done():
        if len(args) > 1:
            return args[1]
        e.raise_(StopIteration())
    if isinstance(it, _i().GenExp):
        node, it.node = it.node, Spent()
        try:
            ip.comp(node, it.frame, lambda v: (_ for _ in ()).throw(NextStop(v)))
        except NextStop as s:
            return s.v
        return done()
    if not isinstance(it, _i().SIter) or getattr(it, 'where', None) != [id(c) for c in e.loopstack] or e.ctx:
        raise Unsupported("next() of %r" % (type(it),))
    s = it.seq
    if s.n == 0 if isinstance(s.n, int) else e.branch(num_term(s.n) == 0):
        return done()
    it.seq = s.slice(1, None)
    return s.at(0)


class NextStop(ReturnEx):
    def __init__(self, v):
        self.v = v


def b_id(ip, args, kw):
    raise Unsupported("id()")


def b_ord(ip, args, kw):
    v, = args
    if isinstance(v, SStr):
        ip.e.assume(z3.Length(v.t) == 1)
        return SInt(z3.StrToCode(v.t))
    return ip.native(ord, args, kw)


def b_chr(ip, args, kw):
    v, = args
    if isinstance(v, SInt):
        return SStr(z3.StrFromCode(v.t))
    return ip.native(chr, args, kw)


def b_divmod(ip, args, kw):
    return (ip.binop('//', *args), ip.binop('%', *args))


def b_pow(ip, args, kw):
    return ip.binop('**', *args)


def b_print(ip, args, kw):
    return None


def b_super(ip, args, kw):
    cls, obj = args
    return _i().SSuper(obj.cls if isinstance(obj, SObj) else type(obj), cls, obj)


def b_setattr(ip, args, kw):
    ip.setattr(*args)


# ------------------------------------------------------------------ math
def m_isnan(ip, args, kw):
    v, = args
    if isinstance(v, SNum):
        return False
    return ip.native(math.isnan, args, kw)


def m_isinf(ip, args, kw):
    v, = args
    if isinstance(v, SNum):
        return False
    return ip.native(math.isinf, args, kw)


def m_floor(ip, args, kw):
    v, = args
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        return SInt(z3.ToInt(v.t))
    return ip.native(math.floor, args, kw)


def m_ceil(ip, args, kw):
    v, = args
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        f = z3.ToInt(v.t)
        return SInt(z3.If(z3.ToReal(f) == v.t, f, f + 1))
    return ip.native(math.ceil, args, kw)


def m_trunc(ip, args, kw):
    return b_int(ip, args, kw)


def m_fabs(ip, args, kw):
    v, = args
    if isinstance(v, SNum):
        return SReal(z3.If(v.t >= 0, sym.toreal(v), -sym.toreal(v)))
    return ip.native(math.fabs, args, kw)


def m_pow(ip, args, kw):
    if any(isinstance(a, SNum) for a in args):
        x, y = args
        if sym.isspecial(x) or sym.isspecial(y):
            raise Unsupported("math.pow of special")
        e = ip.e
        ok = sym.uf('pow_domain', sym.RealS, sym.RealS, sym.BoolS)(sym.toreal(x), sym.toreal(y))
        ov = sym.uf('pow_overflow', sym.RealS, sym.RealS, sym.BoolS)(sym.toreal(x), sym.toreal(y))
        if e.branch(ov):
            e.raise_(OverflowError("math range error"))
        return SReal(sym.uf('pow', sym.RealS, sym.RealS, sym.RealS)(sym.toreal(x), sym.toreal(y)))
    return ip.native(math.pow, args, kw)


DOMAIN = {'log': lambda t: t > 0, 'log10': lambda t: t > 0, 'log2': lambda t: t > 0, 'sqrt': lambda t: t >= 0, 'log1p': lambda t: t > -1,
          'asin': lambda t: z3.And(t >= -1, t <= 1), 'acos': lambda t: z3.And(t >= -1, t <= 1)}
OVERFLOW = {'exp', 'sinh', 'cosh', 'expm1', 'gamma', 'lgamma'}


def special_name(name, args):
    return name + '@' + ','.join(repr(a) if sym.isspecial(a) else '_' for a in args)


def math_fn(name):
    f = getattr(math, name)

    def model(ip, args, kw):
        if not any(isinstance(a, SNum) for a in args):
            return ip.native(f, args, kw)
        e = ip.e
        if any(sym.isspecial(a) for a in args):
            if any(isinstance(a, float) and math.isnan(a) for a in args):
                return float('nan')
            if name == 'hypot':
                return float('inf')
            # nan and inf among symbolic numbers: a function of the others
            ts = [sym.toreal(a) for a in args if not sym.isspecial(a)]
            return SReal(sym.uf(special_name(name, args), *([sym.RealS] * (len(ts) + 1)))(*ts))
        ts = [sym.toreal(a) for a in args]
        if name in DOMAIN and not e.branch(DOMAIN[name](ts[0])):
            e.raise_(ValueError("math domain error"))
        if name in OVERFLOW and name in ip.overflowing:
            ov = sym.uf('overflow.' + name, sym.RealS, sym.BoolS)(ts[0])
            if name == 'exp':
                e.assume(z3.And(z3.Implies(ov, ts[0] > 709), z3.Implies(ts[0] > 710, ov)))
            if e.branch(ov):
                e.raise_(OverflowError("math range error"))
        elif name in OVERFLOW:
            e.stats['trusted'].add('math.%s does not overflow' % name)
        r = sym.uf(name, *([sym.RealS] * (len(ts) + 1)))(*ts)
        if name == 'exp':
            e.assume(r > 0)
        if name == 'hypot':
            e.assume(z3.And(r >= 0, r * r == ts[0] * ts[0] + ts[1] * ts[1]))
        if name == 'sqrt':
            e.assume(z3.And(r >= 0, r * r == ts[0]))
        return SReal(r)
    return model


# ------------------------------------------------------------------ methods
def call_method(ip, o, name, args, kw):
    if isinstance(o, LList) and o.pytype is list:
        m = LISTM.get(name)
        if m:
            return m(ip, o, *args, **kw)
    if isinstance(o, (LDict, dict)):
        d = o if isinstance(o, LDict) else LDict(o, frozen=True, label='native dict')
        if isinstance(o, LDict) or name in ('get', 'keys', 'values', 'items', 'copy'):
            m = DICTM.get(name)
            if m:
                return m(ip, d, *args, **kw)
    if isinstance(o, LSet):
        m = SETM.get(name)
        if m:
            return m(ip, o, *args, **kw)
    if isinstance(o, (list, tuple)) and name in ('index', 'count', 'copy'):
        return LISTM[name](ip, LList(SSeq.of(o), frozen=True), *args, **kw)
    if isinstance(o, (SStr, str)):
        m = STRM.get(name)
        if m and (isinstance(o, SStr) or any(_i().has_sym(a) for a in args) or any(isinstance(a, (_i().GenExp, _i().SIter)) for a in args)):
            return m(ip, o, *args, **kw)
    if isinstance(o, SReal) and name == 'is_integer':
        return mkbool(z3.ToReal(z3.ToInt(o.t)) == o.t)
    if isinstance(o, SInt) and name == 'bit_length':
        raise Unsupported("bit_length")
    if isinstance(o, (Sym, Heap)):
        if not hasattr({LList: list, LDict: dict, LSet: set, SStr: str, SInt: int, SReal: float}.get(type(o), object), name):
            raise PyRaise(AttributeError(name))
        try:
            nat = ip.to_native(o)
        except Unsupported:
            raise Unsupported("method %s of %r" % (name, type(o)))
        if isinstance(o, Heap):
            raise Unsupported("method %s of %r" % (name, type(o)))
        o = nat
    try:
        f = getattr(o, name)
    except AttributeError as e:
        raise PyRaise(e)
    if isinstance(o, (list, dict)) and name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem'):
        raise Unsupported("mutation of a native container")
    return ip.native(f, args, kw)


def l_append(ip, l, x):
    l.seq = l._seq.concat(SSeq.of([x]))


def l_extend(ip, l, xs):
    l.seq = l._seq.concat(ip.iter_seq(xs))


def l_insert(ip, l, i, x):
    s = l._seq
    l.seq = s.slice(0, i).concat(SSeq.of([x])).concat(s.slice(i, None))


def l_pop(ip, l, i=-1):
    v = ip.getitem(l, i)
    s = l._seq
    if isinstance(i, int) and i == -1:
        l.seq = s.slice(0, s.n - 1)
        return v
    ip.delitem(l, i)
    return v


def l_index(ip, l, x, *rest):
    if rest:
        raise Unsupported("list.index with bounds")
    e = ip.e
    s = l._seq
    if s.items is not None:
        for i, y in enumerate(s.items):
            if ip.truth(ip.eq(y, x)):
                return i
        e.raise_(ValueError("not in list"))
    if not ip.truth(ip.contains(l, x)):
        e.raise_(ValueError("not in list"))
    r = fresh('int', 'idx')
    e.assume(z3.And(0 <= r.t, r.t < num_term(s.n)))
    e.assume(zbool(ip.eq(s.at(r), x)))
    j = z3.Int(e.freshname('ij'))
    rng = z3.And(0 <= j, j < r.t)
    with e.noforking(z3.And(rng, j < num_term(s.n)), [j]):
        b = tz(zbool(ip.eq(s.at(SInt(j)), x)))
    e.assume(z3.ForAll([j], z3.Implies(rng, z3.Not(b))))
    return r


def l_count(ip, l, x):
    return fold_loop(ip, l._seq, 0, lambda a, y: a + 1 if ip.truth(ip.eq(y, x)) else a)


def l_reverse(ip, l):
    l.seq = l._seq.rev()


def l_sort(ip, l, key=None, reverse=False):
    l.seq = sorted_seq(ip, l._seq, key, reverse)._seq


def l_remove(ip, l, x):
    i = l_index(ip, l, x)
    ip.delitem(l, i)


def l_copy(ip, l):
    return LList(l._seq)


def l_clear(ip, l):
    l.seq = SSeq.of([])


LISTM = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'index': l_index, 'count': l_count,
         'reverse': l_reverse, 'sort': l_sort, 'remove': l_remove, 'copy': l_copy, 'clear': l_clear}


def _mk_views():
    SIter = _i().SIter

    class _KeysView(SIter):
        """keys()/values()/items() view: the key sequence is only built when iterated"""

        def __init__(self, ip, m, what='keys'):
            self.ip, self.m, self.what = ip, m, what
            self.keys_of = m if what == 'keys' else None

        @property
        def seq(self):
            m = self.m
            if m.items is not None:
                if self.what == 'keys':
                    return SSeq.of(list(m.items.keys()))
                if self.what == 'values':
                    return SSeq.of(list(m.items.values()))
                return SSeq.of(list(m.items.items()))
            got = m.memo.get(self.what)
            if got is not None:
                return got
            ks = _i().map_keyseq(self.ip, m)
            if self.what == 'keys':
                r = ks
            elif self.what == 'values':
                r = SSeq(ks.n, lambda i: m.get(ks.at(i)), kind=m.vk)
            else:
                r = _i().mark_items(SSeq(ks.n, lambda i: (ks.at(i), m.get(ks.at(i)))), m)
            m.memo[self.what] = r
            return r
    return _KeysView


_KV = [None]


def view(ip, m, what):
    if _KV[0] is None:
        _KV[0] = _mk_views()
    return _KV[0](ip, m, what)


def d_keys(ip, d):
    return view(ip, d._m, 'keys')


def d_values(ip, d):
    return view(ip, d._m, 'values')


def d_items(ip, d):
    return view(ip, d._m, 'items')


def d_get(ip, d, k, default=None):
    m = d._m
    if m.items is not None and not isinstance(k, Sym):
        return m.items.get(ip.to_native(k), default)
    h = m.has(k)
    if ip.e.ctx and not isinstance(h, bool):
        return vite(h, m.get(k), default)
    if ip.e.branch(tz(h)):
        return ip.entry(d, m, k)
    return default


def d_pop(ip, d, k, *default):
    m = d._m
    if not ip.e.branch(tz(m.has(k))):
        if default:
            return default[0]
        ip.e.raise_(KeyError('key'))
    v = m.get(k)
    _i().map_drop(ip, d, k)
    return v


def d_setdefault(ip, d, k, default=None):
    m = d._m
    if ip.e.branch(tz(m.has(k))):
        return ip.entry(d, m, k)
    ip.setitem(d, k, default)
    return ip.entry(d, d._m, k) if isinstance(default, LList) else default


def d_update(ip, d, other=None, **kw):
    m = d._m
    if m.items is not None and other is not None:
        o = other._m if isinstance(other, LDict) else _i().make_dict(ip, other)._m
        if o.items is not None and all(isinstance(k, str) for k in o.items):
            for k, v in list(o.items.items()) + list(kw.items()):
                ip.setitem(d, k, v)
            return
    if other is not None:
        m = _i().map_update(ip, m, other._m if isinstance(other, LDict) else _i().make_dict(ip, other)._m)
    if kw:
        m = _i().map_update(ip, m, SMap(items=kw))
    d.m = m


def d_copy(ip, d):
    return LDict(d._m)


def d_clear(ip, d):
    d.m = SMap(items={})


DICTM = {'keys': d_keys, 'values': d_values, 'items': d_items, 'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault,
         'update': d_update, 'copy': d_copy, 'clear': d_clear}


def _setop(f):
    def op(ip, a, *bs):
        m = a._m
        for b in bs:
            bm = _i().make_set(ip, b)._m
            m = setcomb(ip, m, bm, f)
        return LSet(m)
    return op


def setcomb(ip, a, b, f):
    if a.items is not None and b.items is not None and not any(isinstance(x, Sym) for x in list(a.items) + list(b.items)):
        keys = list(a.items) + [k for k in b.items if k not in a.items]
        return SMap(items={k: True for k in keys if f(k in a.items, k in b.items) is True})
    kk = _i().map_kind(a) or _i().map_kind(b)
    return SMap(lambda x: f(a.has(x), b.has(x)), lambda x: True, None, None, kk=kk, vk='bool')


def s_add(ip, s, x):
    m = s._m
    if m.items is not None and not m.items and isinstance(x, Sym):
        s.m = SMap(lambda y: veq(x, y), lambda y: True, 1, None, kk=_i().key_kind(x), vk='bool')
        return
    s.m = _i().map_set(ip, m, x, True)


def s_issubset(ip, a, b):
    bm = _i().make_set(ip, b)._m
    m = setcomb(ip, a._m, bm, lambda x, y: zand(x, znot(y)))
    return mkbool(veq(ip.e.map_len(m), 0))


SETM = {'union': _setop(lambda x, y: zor(x, y)), 'intersection': _setop(lambda x, y: zand(x, y)),
        'difference': _setop(lambda x, y: zand(x, znot(y))),
        'symmetric_difference': _setop(lambda x, y: zor(zand(x, znot(y)), zand(znot(x), y))),
        'add': s_add, 'issubset': s_issubset, 'copy': lambda ip, s: LSet(s._m)}


# ------------------------------------------------------------------ strings
def st_startswith(ip, s, p):
    return mkbool(z3.PrefixOf(str_term(p), str_term(s)))


def st_endswith(ip, s, p):
    return mkbool(z3.SuffixOf(str_term(p), str_term(s)))


def st_find(ip, s, p, start=0):
    return SInt(z3.IndexOf(str_term(s), str_term(p), num_term(start)))


def st_index(ip, s, p):
    if not ip.e.branch(z3.Contains(str_term(s), str_term(p))):
        ip.e.raise_(ValueError("substring not found"))
    return SInt(z3.IndexOf(str_term(s), str_term(p), z3.IntVal(0)))


def strfn(name, nargs, ret='str'):
    def f(ip, s, *args):
        ts = [str_term(s)]
        for a in args:
            ts.append(str_term(a) if isinstance(a, (str, SStr)) else num_term(a))
        rs = {'str': sym.StrS, 'int': sym.IntS, 'bool': sym.BoolS}[ret]
        return sym.wrap(ret, sym.uf('str.' + name + str(len(args)), *([t.sort() for t in ts] + [rs]))(*ts))
    return f


def st_join(ip, s, xs):
    q = ip.iter_seq(xs)
    if q.items is not None:
        out = ''
        for i, x in enumerate(q.items):
            if not isinstance(x, (str, SStr)):
                raise PyRaise(TypeError("sequence item: expected str instance"))
            out = ip.binop('+', out, ip.binop('+', s, x) if i else x)
        return out
    rev = getattr(xs, 'revof', None)
    if rev is not None and isinstance(s, str) and s == '':
        return SStr(sym.uf('str.reversed', sym.StrS, sym.StrS)(rev.t))
    return SStr(joinfn(ip.e, str_term(s), q))


def joinfn(e, sep, q):
    """sep.join(q), as a function of the separator, the number of items and the items"""
    j = z3.Int('join!j')
    with e.noforking(z3.And(0 <= j, j < num_term(q.n)), [j]):
        lam = z3.Lambda([j], str_term(q.at(SInt(j))))
    r = sym.uf('str.join', sym.StrS, sym.IntS, lam.sort(), sym.StrS)(sep, num_term(q.n), lam)
    if not e.ctx:
        e.assume(z3.Implies(num_term(q.n) == 0, r == z3.StringVal('')))
    return r


def st_split(ip, s, sep=None, maxsplit=-1):
    if sep is None or maxsplit != -1:
        raise Unsupported("split")
    if not ip.e.branch(z3.Length(str_term(sep)) > 0):
        ip.e.raise_(ValueError("empty separator"))
    n = sym.uf('str.split.n', sym.StrS, sym.StrS, sym.IntS)(str_term(s), str_term(sep))
    ip.e.assume(n >= 1)
    f = sym.uf('str.split', sym.StrS, sym.StrS, sym.IntS, sym.StrS)
    return LList(SSeq(SInt(n), lambda i: SStr(f(str_term(s), str_term(sep), num_term(i)))))


def st_replace(ip, s, old, new, count=-1):
    s, old, new = str_term(s), str_term(old), str_term(new)
    empty = z3.If(z3.Length(old) == 0, new, z3.StringVal(''))
    if not isinstance(count, int):
        raise Unsupported("symbolic count in replace")
    if count == 1:
        # Python versions differ on ''.replace('', x, 1)
        return SStr(z3.If(z3.And(z3.Length(s) == 0, z3.Length(old) == 0), sym.uf('str.replace.empty', sym.StrS, sym.StrS)(new), z3.Replace(s, old, new)))
    f = sym.uf('str.replace', sym.StrS, sym.StrS, sym.StrS, sym.IntS, sym.StrS)
    return SStr(z3.If(z3.Length(s) == 0, empty, f(s, old, new, z3.IntVal(count))))


def st_rindex(ip, s, p):
    if not ip.e.branch(z3.Contains(str_term(s), str_term(p))):
        ip.e.raise_(ValueError("substring not found"))
    return SInt(lastindex(ip.e, str_term(s), str_term(p)))


def st_rfind(ip, s, p):
    return SInt(z3.If(z3.Contains(str_term(s), str_term(p)), lastindex(ip.e, str_term(s), str_term(p)), -1))


def lastindex(e, s, p):
    r = sym.uf('str.rindex', sym.StrS, sym.StrS, sym.IntS)(s, p)
    if not e.ctx:
        e.assume(z3.Implies(z3.Contains(s, p), z3.And(r >= 0, r + z3.Length(p) <= z3.Length(s), z3.SubString(s, r, z3.Length(p)) == p)))
    return r


def repeat(e, s, n):
    r = sym.uf('strrep', sym.StrS, sym.IntS, sym.StrS)(s, n)
    if not e.ctx:
        e.assume(z3.Implies(n <= 0, r == z3.StringVal('')))
        if z3.is_string_value(s):
            e.assume(z3.Implies(n > 0, z3.Length(r) == n * len(s.as_string())))
    return r


def st_rjust(ip, s, w, fill=' '):
    s = str_term(s)
    return SStr(z3.Concat(repeat(ip.e, str_term(fill), num_term(w) - z3.Length(s)), s))


def st_ljust(ip, s, w, fill=' '):
    s = str_term(s)
    return SStr(z3.Concat(s, repeat(ip.e, str_term(fill), num_term(w) - z3.Length(s))))


def st_zfill(ip, s, w):
    return SStr(sym.uf('str.zfill', sym.StrS, sym.IntS, sym.StrS)(str_term(s), num_term(w)))


def fmt_tokens(t):
    """the pieces of a format string put together from literals and str(int): characters and terms"""
    if z3.is_string_value(t):
        return list(t.as_string())
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in fmt_tokens(c)]
    if t.decl().name() == 'str_of_int':
        return [t.arg(0)]
    if t.decl().kind() == z3.Z3_OP_ITE:
        raise Unsupported("format string with a choice")
    raise Unsupported("format of symbolic string")


def fmt_value(ip, v, spec):
    """format(v, spec) where spec is a list of characters and integer terms (the decimal digits of a number)"""
    spec = list(spec)
    e = ip.e
    if not spec:
        return to_str(ip, v)
    align = zero = width = prec = None
    if isinstance(spec[0], str) and spec[0] in ('<', '>'):
        align = spec.pop(0)
    if spec and isinstance(spec[0], str) and spec[0] == '0':
        zero = spec.pop(0)

    def number():
        if spec and not isinstance(spec[0], str):
            t = spec.pop(0)
            if not e.branch(t >= 0):
                e.raise_(ValueError("Invalid format specifier"))
            return SInt(t)
        d = ''
        while spec and isinstance(spec[0], str) and spec[0].isdigit():
            d += spec.pop(0)
        return int(d) if d else None
    width = number()
    if spec and isinstance(spec[0], str) and spec[0] == '.':
        spec.pop(0)
        prec = number()
        if prec is None:
            raise PyRaise(ValueError("Format specifier missing precision"))
    conv = spec.pop(0) if spec and isinstance(spec[0], str) else ''
    if spec or conv not in ('d', 'x', 'f', 'e', 's', ''):
        raise Unsupported("format specification")
    if conv in ('', 's') and not isinstance(v, (str, SStr)):
        raise Unsupported("format specification")
    if conv in ('d', 'x'):
        if not isinstance(v, (int, SInt)) or prec is not None:
            raise PyRaise(ValueError("Unknown format code '%s' for this object" % conv))
        body = to_str(ip, v) if conv == 'd' else (SStr(sym.uf('str.hex', sym.IntS, sym.StrS)(v.t)) if isinstance(v, SInt) else '%x' % v)
    elif conv in ('f', 'e'):
        if not isinstance(v, (int, float, SInt, SReal)):
            raise PyRaise(ValueError("Unknown format code '%s' for this object" % conv))
        body = fmt_real(conv, v, 6 if prec is None else prec)
    else:
        body = v
    if width is None:
        return body
    if zero and align is None:
        return st_zfill(ip, body, width)
    if zero:
        raise Unsupported("format specification")
    left = align == '<' or (align is None and conv in ('', 's'))
    return (st_ljust if left else st_rjust)(ip, body, width)


def fmt_real(conv, v, prec):
    if sym.isspecial(v):
        return repr(v)
    if not isinstance(v, Sym) and not isinstance(prec, Sym):
        return format(v, '.%d%s' % (prec, conv))
    return SStr(sym.uf('str.format.' + conv, sym.RealS, sym.IntS, sym.StrS)(sym.toreal(v), num_term(prec)))


def st_format(ip, s, *args, **kw):
    if isinstance(s, str):
        import string
        out = ''
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out = ip.binop('+', out, lit)
            if field is not None:
                if conv and (conv != 'r' or spec):
                    raise Unsupported("format spec")
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                out = ip.binop('+', out, b_repr(ip, [v], {}) if conv == 'r' else fmt_value(ip, v, spec))
        return out
    toks = fmt_tokens(s.t)
    out = ''
    auto = 0
    while toks:
        c = toks.pop(0)
        if not isinstance(c, str) or c == '}':
            raise Unsupported("format of symbolic string")
        if c != '{':
            out = ip.binop('+', out, c)
            continue
        if '}' not in [x for x in toks if isinstance(x, str)]:
            raise Unsupported("format of symbolic string")
        end = [i for i, x in enumerate(toks) if isinstance(x, str) and x == '}'][0]
        field, toks = toks[:end], toks[end + 1:]
        name = []
        while field and isinstance(field[0], str) and field[0] != ':':
            name.append(field.pop(0))
        if field and not isinstance(field[0], str):
            raise Unsupported("format of symbolic string")
        name = ''.join(name)
        if name == '':
            name = str(auto)
            auto += 1
        if not name.isdigit():
            raise Unsupported("format of symbolic string")
        out = ip.binop('+', out, fmt_value(ip, args[int(name)], field[1:]))
    return out


STRM = {'startswith': st_startswith, 'endswith': st_endswith, 'find': st_find, 'index': st_index, 'join': st_join, 'format': st_format,
        'lower': strfn('lower', 0), 'upper': strfn('upper', 0), 'strip': strfn('strip', 0), 'lstrip': strfn('lstrip', 0),
        'rstrip': strfn('rstrip', 0), 'replace': st_replace, 'rfind': st_rfind, 'rindex': st_rindex, 'split': st_split,
        'rjust': st_rjust, 'ljust': st_ljust, 'zfill': st_zfill, 'count': strfn('count', 1, 'int'),
        'title': strfn('title', 0), 'capitalize': strfn('capitalize', 0), 'isdigit': strfn('isdigit', 0, 'bool')}


def str_format(ip, a, b):
    return SStr(sym.fresh_named('str', ip.e.freshname('fmt'), ()).t) if _i().has_sym(b) or isinstance(a, SStr) else ip.native(lambda x, y: x % y, [a, b], {})


# ------------------------------------------------------------------ registry
def builtin_models():
    m = {len: b_len, range: b_range, enumerate: b_enumerate, zip: b_zip, reversed: b_reversed, list: b_list, tuple: b_tuple,
         dict: b_dict, set: b_set, frozenset: b_set, map: b_map, filter: b_filter, sum: b_sum, functools.reduce: b_reduce, min: b_min,
         max: b_max, abs: b_abs, any: b_any, all: b_all, isinstance: b_isinstance, issubclass: b_issubclass, callable: b_callable,
         hasattr: b_hasattr, getattr: b_getattr, int: b_int, float: b_float, str: b_str, repr: b_repr, bool: b_bool, round: b_round,
         type: b_type, sorted: b_sorted, functools.cmp_to_key: b_cmp_to_key, iter: b_iter, next: b_next, id: b_id, ord: b_ord, chr: b_chr,
         divmod: b_divmod, pow: b_pow, print: b_print, super: b_super, setattr: b_setattr,
         math.isnan: m_isnan, math.isinf: m_isinf, math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc, math.fabs: m_fabs,
         math.pow: m_pow}
    for n in ('exp', 'log', 'log10', 'log1p', 'expm1', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh',
              'atan2', 'gamma', 'lgamma', 'erf', 'erfc', 'hypot', 'fmod', 'copysign'):
        m[getattr(math, n)] = math_fn(n)
    return m
