"""Contracts on functions of titus, and the verification of one contract."""
import ast
import copy
import inspect
import itertools
import math
import os
import random
import sys
import time
import traceback

import z3

from vc import sym, engine as eng_mod, interp as interp_mod, spec as S
from vc.engine import Budget, Engine, Obl, PathEnd, PyRaise, Restart
from vc.interp import Frame, Interp
from vc.ptypes import GenEnv, ModelConc, PT
from vc.pymodels import builtin_models
from vc.spec import ANY, Any, Assume, Pred, Raise
from vc.stubs import Callback, Rand, State, TypeParser
from vc.sym import LDict, LList, LSet, NoFork, SFn, SInt, SObj, Sym, SReal, Unsupported, veq, zand

REGISTRY = {}
POS = 'at POS'


def lib(name):
    """the library-function object called `name` in the live titus package"""
    import titus.signature  # noqa
    from titus.pfaast import FunctionTable
    if not hasattr(lib, 'table'):
        lib.table = FunctionTable.blank().functions
    return lib.table[name]


# ---------------------------------------------------------------- summaries of trusted / separately proved callees
def common_summaries():
    import titus.datatype
    import titus.util

    def compare(ip, args, kw):
        tpe, x, y = args
        ip.e.stats['trusted'].add('contract of titus.datatype.compare (proved under the compare property)')
        check_cmp_type(tpe, x)
        return S.Cmp(x, y)

    def callfcn(ip, args, kw):
        if kw:
            names = ('state', 'scope', 'fcn', 'args')
            args = list(args) + [kw[n] for n in names[len(args):]]
        state, scope, fcn, a = args
        if isinstance(fcn, SFn):
            ip.e.stats['trusted'].add('callbacks are pure and total (assumed)')
            return fcn(*ip.concrete_items(ip.iter_seq(a)))
        return ip.inline(titus.util.callfcn, args, kw)
    def jsonnode(ip, args, kw):
        ip.e.stats['trusted'].add('jsonNodeToAvroType / avro schema parsing (run natively on the concrete types)')
        return ip.native(titus.datatype.jsonNodeToAvroType, args, kw)
    def shuffle(ip, args, kw):
        ip.e.stats['trusted'].add('random.Random.shuffle permutes the list in place (assumed)')
        x, = args[1:]
        x.seq = S.permutation(x._seq)
        return None
    return {Rand.shuffle: shuffle, titus.datatype.compare: compare, titus.util.callfcn: callfcn, titus.datatype.jsonNodeToAvroType: jsonnode}


def check_cmp_type(tpe, x):
    """the type handed to compare must be the type of the data compared"""
    import titus.datatype as D
    if isinstance(x, sym.SA):
        sort = x.t.sort().name()
        if sort == 'Key':
            ok = isinstance(tpe, D.AvroString)
        else:
            ok = isinstance(tpe, D.AvroRecord) and tpe.name == 'Wild' + sort
    elif isinstance(x, SReal) or isinstance(x, float):
        ok = isinstance(tpe, (D.AvroFloat, D.AvroDouble))
    elif isinstance(x, (SInt, int)) and not isinstance(x, bool):
        ok = isinstance(tpe, (D.AvroInt, D.AvroLong, D.AvroFloat, D.AvroDouble))
    elif isinstance(x, (sym.SStr, str)):
        ok = isinstance(tpe, (D.AvroString, D.AvroEnum, D.AvroBytes, D.AvroFixed))
    else:
        raise Unsupported("compare on %r" % (x,))
    if not ok:
        raise PyRaise(TypeError("compare called with the wrong type"))


class Case(object):
    def __init__(self, via, label, makers):
        self.via, self.label, self.makers = via, label, makers

    def __repr__(self):
        return self.via + ('[%s]' % self.label if self.label else '')


class Contract(object):
    """params: ordered {name: PT}; spec(**params) -> expected outcome."""
    bounded = None

    def __init__(self, cid, prop, params, spec, inv=None, pre=None, budget=90, timeout=4000, fuzz=80, summaries=None, models=None,
                 title=None, nofuzz=False, tol=1e-9, autocands=True, maxpaths=3000, eqhook=None, size=5, rawok=(), notes=(), overflowing=()):
        self.id, self.prop, self.params, self.spec = cid, prop, params, spec
        self.inv, self.pre, self.budget, self.timeout = inv, pre, budget, timeout
        self.nfuzz, self.summaries, self.models = fuzz, summaries or {}, models or {}
        self.title = title or cid
        self.nofuzz, self.tol, self.autocands, self.maxpaths, self.eqhook, self.size = nofuzz, tol, autocands, maxpaths, eqhook, size
        self.rawok = rawok
        self.notes = notes
        self.overflowing = overflowing
        if cid in REGISTRY:
            raise ValueError("duplicate contract " + cid)
        REGISTRY[cid] = self

    # -- to be provided by subclasses
    def vias(self):
        return ['call']

    def sym_call(self, ip, via, vals):
        raise NotImplementedError

    def nat_call(self, via, vals, env):
        raise NotImplementedError

    def targets(self):
        return []

    # -- cases
    def cases(self):
        out = []
        for via in self.vias():
            for combo in itertools.product(*[[(n, lab, mk) for lab, mk in t.variants()] for n, t in self.params.items()]):
                label = ','.join('%s=%s' % (n, lab) for n, lab, _ in combo if lab)
                out.append(Case(via, label, [(n, mk) for n, _, mk in combo]))
        return out

    # -- symbolic verification of one case
    def verify_case(self, case, scale=1.0, deadline=None):
        """first with the contract's own loop hints and the basic candidates, then, if that is not enough, with every generic candidate"""
        now = time.process_time()           # budgets are processor time: a busy machine decides the same
        r = self.verify_level(case, scale, now + 0.6 * (deadline - now) if deadline else None, False)
        if self.autocands and r[2].stats['loops'] and (r[1] is not None or any(o.status != 'proved' for o in r[0])):
            r2 = self.verify_level(case, scale, deadline, True)
            if r2[1] is None and all(o.status == 'proved' for o in r2[0]):
                return r2
        return r

    def verify_level(self, case, scale, deadline, generic):
        e = Engine(self.id, timeout_ms=int(self.timeout * scale), max_paths=int(self.maxpaths * scale),
                   deadline=deadline, autocands=self.autocands, generic=generic)
        e.obj_eq_hook = self.eqhook
        summaries = common_summaries()
        summaries.update(self.summaries)
        models = builtin_models()
        models.update(self.models)
        name = '%s:%s' % (self.id, case)
        reached = {'end': 0}
        holder = {}

        def run(e):
            e.inv = None
            vals = {}
            for n, mk in case.makers:
                vals[n] = mk(e, n)
            holder['vals'] = vals
            if self.pre is not None:
                S.require(self.pre(**vals))
            ip = Interp(e, summaries, models)
            ip.overflowing = self.overflowing
            e.hook_state['ip'] = ip
            e.inspec = True
            e.src_maps = [v._m for v in vals.values() if isinstance(v, sym.LDict) and v._m.keyseq is not None and v._m.idx is not None]
            try:
                expect = self.spec(**vals)
            except Assume:
                raise PathEnd()
            except PyRaise as p:
                raise Unsupported("specification raised %r" % (p.exc,))
            e.inspec = False
            if self.inv is not None:
                invs = self.inv(**vals)
                e.inv = lambda depth: invs
            try:
                out = self.sym_call(ip, case.via, vals)
                exc = None
            except PyRaise as p:
                out, exc = None, p.exc
            if not e.checking:
                return
            r, _ = e._check([], 500)
            if r == z3.unsat:
                return
            reached['end'] += 1
            self.judge(e, name, expect, out, exc)
        obls, err = [], None
        try:
            obls = e.explore(run)
        except (Unsupported, NoFork) as x:
            err = 'outside the verifier\'s reach: %s' % x + (traceback.format_exc()[-6000:] if os.environ.get('VDBG3') else '')
        except Budget as x:
            err = 'budget: %s' % x
        except Exception as x:
            err = 'verifier error: %s\n%s' % (x, traceback.format_exc()[-1500:])
        if err is None and reached['end'] == 0:
            err = 'vacuous: no path reaches an end'
        return obls, err, e, holder.get('vals')

    def judge(self, e, name, expect, out, exc):
        from titus.errors import PFARuntimeException, PFAUserException
        if isinstance(expect, Any):
            if exc is not None:
                self.judge_raw(e, name, exc)
            else:
                e.prove(name + ':terminates normally or with a PFA error', True)
            return
        if exc is not None:
            if not self.judge_raw(e, name, exc):
                return
            if isinstance(expect, Raise):
                if expect.exc is not None:
                    t = exc.cls if isinstance(exc, SObj) else type(exc)
                    nm = '/'.join(c.__name__ for c in expect.exc) if isinstance(expect.exc, tuple) else expect.exc.__name__
                    e.prove(name + ':raises %s' % nm, issubclass(t, expect.exc))
                    if expect.code is None:
                        return
                code = getattr(exc, 'code', None)
                codes = expect.code if isinstance(expect.code, tuple) else (expect.code,)
                ok = code in codes
                if ok:
                    e.prove(name + ':raises %s' % (expect.code,), True)
                else:
                    e.fail(name + ':raises %s' % (expect.code,), 'raised %r' % (exc,))
            else:
                e.fail(name + ':returns a value', 'raised %r' % (exc,))
            return
        if isinstance(expect, Raise):
            e.fail(name + ':raises %s' % (expect.code,), 'returned %r' % (out,))
            return
        if isinstance(expect, Pred):
            try:
                g = expect.fn(out)
            except PyRaise as p:
                e.fail(name + ':' + (expect.what or 'postcondition'), 'postcondition not evaluable: %r' % (p.exc,))
                return
            if isinstance(g, dict):
                for k, v in g.items():
                    e.prove(name + ':' + k, v if isinstance(v, bool) else sym.zbool(v))
            else:
                e.prove(name + ':' + (expect.what or 'postcondition'), g if isinstance(g, bool) else sym.zbool(g))
            return
        if not kind_ok(out, expect):
            e.fail(name + ':result', 'returned %r where %r is expected' % (out, expect))
            return
        prev = e.nan_equal
        e.nan_equal = True
        try:
            g = veq(out, expect)
        finally:
            e.nan_equal = prev
        e.prove(name + ':result', g)

    def judge_raw(self, e, name, exc):
        from titus.errors import PFAException
        t = exc.cls if isinstance(exc, SObj) else type(exc)
        if issubclass(t, PFAException) or issubclass(t, tuple(self.rawok) or (PFAException,)):
            return True
        e.fail(name + ':no internal error escapes', 'raised %r' % (exc,))
        return False

    # -- concrete runs of the same contract on the real code
    def gen(self, rng):
        env = GenEnv(rng, self.size)
        vals = {n: t.gen(env) for n, t in self.params.items()}
        return vals, env

    def concrete(self, via, vals, env):
        """-> None (skipped) | (ok, expected, got)"""
        from titus.errors import PFARuntimeException, PFAException
        prev = sym.CUR[0]
        sym.CUR[0] = None
        try:
            try:
                if self.pre is not None and not self.pre(**vals):
                    return None
                expect = self.spec(**vals)
            except Assume:
                return None
            before = deep(vals)
            args = {n: t.adapt(deep1(vals[n])) for n, t in self.params.items()}
            frozen = deep({n: v for n, v in args.items()})
            exc = out = None
            try:
                out = self.nat_call(via, args, env)
            except PFAException as x:
                exc = x
            except RecursionError as x:
                exc = x
            except Exception as x:
                exc = x
            return self.judge_concrete(expect, out, exc, args, frozen, env)
        finally:
            sym.CUR[0] = prev

    def judge_concrete(self, expect, out, exc, args, frozen, env):
        from titus.errors import PFAException
        if exc is not None and not isinstance(exc, PFAException) and not isinstance(exc, tuple(self.rawok)):
            return False, repr_s(expect), 'internal error %s: %s' % (type(exc).__name__, exc)
        for n in args:
            if not same(args[n], frozen[n]):
                return False, 'argument %s is not modified' % n, 'it is %r' % (args[n],)
        if isinstance(expect, Any):
            return True, 'anything', out
        if isinstance(expect, Raise):
            if exc is None:
                return False, repr_s(expect), out
            if expect.exc is not None and not isinstance(exc, expect.exc):
                return False, repr_s(expect), repr(exc)
            if expect.code is None:
                return True, expect, exc
            codes = expect.code if isinstance(expect.code, tuple) else (expect.code,)
            return getattr(exc, 'code', None) in codes, repr_s(expect), 'raised %r (code %s)' % (exc, getattr(exc, 'code', None))
        if exc is not None:
            return False, repr_s(expect), 'raised %r (code %s)' % (exc, getattr(exc, 'code', None))
        if isinstance(expect, Pred):
            try:
                g = expect.fn(out)
            except Exception as x:
                return False, expect.what or 'postcondition', '%r (postcondition raised %r)' % (out, x)
            if isinstance(g, dict):
                bad = [k for k, v in g.items() if not v]
                return not bad, ', '.join(bad) or 'postcondition', out
            return bool(g), expect.what or 'postcondition', out
        return S.close(out, expect, self.tol) and kind_ok(out, expect), repr_s(expect), out


def repr_s(x):
    return repr(x)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return repr(a) == repr(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if callable(a) or type(a).__module__.startswith(('titus', 'vc', 'contracts')):
        return True
    return type(a) is type(b) and a == b


def deep(vals):
    return {n: deep1(v) for n, v in vals.items()}


def deep1(v):
    if isinstance(v, list):
        return [deep1(x) for x in v]
    if isinstance(v, dict):
        return {k: deep1(x) for k, x in v.items()}
    return v


def kind_ok(out, expect):
    """an int where an int is expected (not a float), a boolean where a boolean is, ..."""
    def k(x):
        if isinstance(x, (bool, sym.SBool)):
            return 'bool'
        if isinstance(x, (int, SInt)):
            return 'int'
        if isinstance(x, (float, SReal)):
            return 'real'
        return None
    a, b = k(out), k(expect)
    if b == 'real':
        return a in ('real', 'int')
    if a is None and b is None:
        return True
    return a == b


class LibContract(Contract):
    """contract of a PFA library function: both its __call__ and the Python text it generates inline"""

    def __init__(self, name, prop, params, spec, ret=None, suffix='', ptypes=None, via=None, **kw):
        self.name = name
        self.via = via
        self.ret = ret
        self.ptypes = ptypes
        cid = name + (('#' + suffix) if suffix else '')
        Contract.__init__(self, cid, prop, params, spec, **kw)

    def fcn(self):
        return lib(self.name)

    def vias(self):
        from titus.fcn import LibFcn
        if self.via:
            return self.via
        out = []
        f = self.fcn()
        if type(f).__call__ is not LibFcn.__call__:
            out.append('call')
        if type(f).genpy is not LibFcn.genpy:
            out.append('genpy')
        return out

    def targets(self):
        f = self.fcn()
        return ['%s.%s.%s' % (type(f).__module__, type(f).__name__, '__call__' if v == 'call' else 'genpy') for v in self.vias()]

    def paramtypes(self, env=None):
        if self.ptypes is not None:
            return self.ptypes(env) if callable(self.ptypes) else self.ptypes
        pts = [t.jsontype(env) for t in self.params.values()]
        pts.append(self.ret.jsontype(env) if self.ret is not None else 'null')
        return pts

    def argvals(self, vals):
        """flatten: a parameter whose name starts with * stands for several arguments"""
        return list(vals.values())

    def sym_call(self, ip, via, vals):
        f = self.fcn()
        e = ip.e
        args = self.argvals(vals)
        pts = self.paramtypes()
        if via == 'call':
            st = SObj(State, {'rand': SObj(Rand, {}), 'parser': SObj(TypeParser, {})})
            e.hook_state['state'] = st
            return ip.call(type(f).__call__, [f, st, None, POS, pts] + args, {})
        return self.sym_genpy(ip, f, pts, args)

    def texts(self, names):
        from vc.ptypes import Thunk
        return [n + '()' if isinstance(t, Thunk) else n for n, t in zip(names, self.params.values())]

    def sym_genpy(self, ip, f, pts, args):
        names = ['__a%d' % i for i in range(len(args))]
        text = f.genpy(pts, self.texts(names), POS)
        node = ast.parse(text.strip(), mode='eval').body
        loc = dict(zip(names, args))
        st = SObj(State, {'rand': SObj(Rand, {}), 'parser': SObj(TypeParser, {})})
        ip.e.hook_state['state'] = st
        loc.update({'state': st, 'scope': None, 'self': SObj(GenSelf, {'f': LDict(dict(lib.table))})})
        fr = Frame(loc, sandbox_globals(), None, ip.e)
        return ip.eval(node, fr)

    def nat_call(self, via, args, env):
        f = self.fcn()
        pts = self.paramtypes(env)
        st = State(env.rng.getrandbits(20))
        a = self.argvals(args)
        if via == 'call':
            return f(st, None, POS, pts, *a)
        names = ['__a%d' % i for i in range(len(a))]
        text = f.genpy(pts, self.texts(names), POS)
        g = dict(sandbox_globals())
        g.update(zip(names, a))
        g.update({'state': st, 'scope': None, 'self': GenSelf(lib.table)})
        return eval(text.strip(), g)


class GenSelf(object):
    def __init__(self, f):
        self.f = f


_sb = {}


def sandbox_globals():
    """the names visible to generated code, as PFAEngine.fromAst provides them"""
    if not _sb:
        import titus.genpy as G
        import titus.util
        import titus.datatype
        for n in ('labeledFcn', 'get', 'update', 'do', 'ifThen', 'ifThenElse', 'cond', 'condElse', 'doWhile', 'doUntil', 'doFor', 'doForeach',
                  'doForkeyval', 'cast', 'wrapAsUnion', 'ifNotNull', 'ifNotNullElse', 'pack', 'unpack', 'unpackElse', 'error', 'tryCatch',
                  'DynamicScope', 'ExecutionState', 'PFAEngine'):
            _sb[n] = getattr(G, n)
        _sb['call'] = titus.util.callfcn
        _sb['checkData'] = titus.datatype.checkData
        _sb['math'] = math
        _sb['__name__'] = 'generated'
    return _sb


class FnContract(Contract):
    """contract of a plain Python function of titus: target() -> function; args(vals) -> positional arguments"""

    def __init__(self, cid, prop, target, params, spec, args=None, **kw):
        self.target = target
        self.mkargs = args
        Contract.__init__(self, cid, prop, params, spec, **kw)

    def targets(self):
        f = self.target()
        f = getattr(f, '__func__', f)
        return ['%s.%s' % (f.__module__, f.__qualname__)]

    def sym_call(self, ip, via, vals):
        a = self.mkargs(vals) if self.mkargs else list(vals.values())
        return ip.call(self.target(), a, {})

    def nat_call(self, via, args, env):
        a = self.mkargs(args) if self.mkargs else list(args.values())
        return self.target()(*a)
