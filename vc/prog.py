"""Contracts on whole PFA documents.

The document is given to the real titus (reader, type checker, code generator)
on every run; the engine it builds is then executed symbolically from an
arbitrary state: the generated method, the runtime helpers of titus.genpy it
calls, the cells, pools and scopes are all interpreted from their source.  The
postcondition is the reference semantics of the same document (vc.pfasem)."""
import builtins
import itertools
import json
import threading
import time

import z3

from vc import pfasem, spec as S, sym
from vc.contract import Contract
from vc.engine import PyRaise
from vc.interp import register_source
from vc.pfasem import Opaque, Sem, SpecRaise, St, hseed, kind_of_type
from vc.ptypes import PT, Bool, Int, LONG_MAX, LONG_MIN, INT_MAX, INT_MIN
from vc.spec import Pred
from vc.stubs import Clause, Emitter, LockStub, Logger, World, stubcall, tick
from vc.sym import LDict, LList, SMap, SObj, SpecObj, Unsupported, fresh, veq, zbool

_gen = [0]


def recorder(code, sandbox=None, *rest):
    """stands for `exec` inside titus.genpy: same effect, but the generated text stays available"""
    if not isinstance(code, str):
        return builtins.exec(code, sandbox, *rest)
    _gen[0] += 1
    fn = '<gen %d>' % _gen[0]
    register_source(fn, code)
    sandbox['__name__'] = '<gen>'
    builtins.exec(compile(code, fn, 'exec'), sandbox)


class Clock(object):
    """the clock seen by titus.genpy in native runs"""

    def __init__(self, world):
        self.world = world

    def time(self):
        return tick(self.world)

    monotonic = perf_counter = process_time = time


class TypeVal(PT):
    """a value of a PFA type"""

    def __init__(self, t, lo=None, hi=None, n=None):
        self.t, self.lo, self.hi, self.n = t, lo, hi, n
        self.json = t

    def variants(self):
        if isinstance(self.t, list):
            return [(u if isinstance(u, str) else u['type'], (lambda e, name, u=u: self.tag(u, e, name))) for u in self.t]
        if self.n is not None:
            return [('len%d' % i, (lambda e, name, i=i: LList([self.mk(e, '%s%d' % (name, j), self.t['items']) for j in range(i)], frozen=True, label=name)))
                    for i in self.n]
        return [('', lambda e, name: self.mk(e, name, self.t))]

    def tag(self, u, e, name):
        if u == 'null':
            return None
        return LDict(SMap(items={tagname(u): self.mk(e, name, u)}), frozen=True, label=name)

    def mk(self, e, name, t):
        if t == 'null':
            return None
        if isinstance(t, dict) and t['type'] == 'record':
            return LDict(SMap(items={f['name']: self.mk(e, name + '.' + f['name'], f['type']) for f in t['fields']}), frozen=True, label=name)
        if isinstance(t, list):
            u = t[e.choose(len(t))]
            return self.tag(u, e, name)
        v = fresh(kind_of_type(t), name)
        if t in ('int', 'long'):
            lo, hi = (INT_MIN, INT_MAX) if t == 'int' else (LONG_MIN, LONG_MAX)
            e.assume(z3.And(v.t >= (lo if self.lo is None else self.lo), v.t <= (hi if self.hi is None else self.hi)))
        elif isinstance(t, dict) and t['type'] == 'array' and t['items'] in ('int', 'long'):
            lo, hi = (INT_MIN, INT_MAX) if t['items'] == 'int' else (LONG_MIN, LONG_MAX)
            j = z3.Int(e.freshname('rg'))
            x = v._seq.at(sym.SInt(j)).t
            e.assume(z3.ForAll([j], z3.And(x >= lo, x <= hi), patterns=[x]))
        if isinstance(v, (LList, LDict)):
            v.frozen, v.label = True, name
        return v

    def gen(self, env):
        t = self.t
        if isinstance(t, list):
            u = env.rng.choice(t)
            return None if u == 'null' else {tagname(u): self.g(env, u)}
        if self.n is not None:
            return [self.g(env, t['items']) for _ in range(env.rng.choice(self.n))]
        return self.g(env, t)

    def g(self, env, t):
        r = env.rng
        if isinstance(t, list):
            u = r.choice(t)
            return None if u == 'null' else {tagname(u): self.g(env, u)}
        if isinstance(t, dict):
            if t['type'] == 'array':
                return [self.g(env, t['items']) for _ in range(r.randint(0, 4))]
            if t['type'] == 'map':
                return {k: self.g(env, t['values']) for k in 'abcd' if r.random() < 0.5}
            return {f['name']: self.g(env, f['type']) for f in t['fields']}
        if t == 'string':
            return r.choice(['a', 'b', 'c', 'd', 'e'])
        if t == 'int':
            v = r.choice([0, 0, 1, 2, 3, -1, r.randint(-5, 8)])
            return min(max(v, self.lo if self.lo is not None else v), self.hi if self.hi is not None else v)
        return pfasem.value_from(r.getrandbits(30), t)

    def jsontype(self, env=None):
        return self.t


def tagname(u):
    return u if isinstance(u, str) else u['name'] if u['type'] in ('record', 'enum', 'fixed') else u['type']


class TimeVal(PT):
    """seconds elapsed since the method started, as the clock will tell"""

    def variants(self):
        return [('', lambda e, name: self.make(e, name))]

    def make(self, e, name):
        v = fresh('real', name)
        e.assume(v.t >= 0)
        return v

    def gen(self, env):
        return env.rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 2.0, 7.0])


class ProgContract(Contract):
    """doc: PFA document; stubs: {name: Opaque-arguments}; method: begin/action/end/merge"""

    def __init__(self, cid, prop, doc, stubs=(), method='action', inp='int', clock=False, shared=(), values=None, engineargs=None, counters=True,
                 hooks=None, pre=None, checks=False, **kw):
        self.doc = json.loads(json.dumps(doc))
        self.method = method
        self.opq = {o.name: o for o in stubs}
        self.opq.setdefault('log', Opaque('log', ['x'], 'null'))
        self.opq.setdefault('emit', Opaque('emit', ['x'], 'null'))
        d = self.doc
        d.setdefault('input', 'int')
        d.setdefault('output', 'null' if method in ('begin', 'end') else 'int')
        d.setdefault('action', [None])
        d.setdefault('options', {}).setdefault('timeout', 1000000000)
        for o in stubs:
            if o.name.startswith('u.'):
                d.setdefault('fcns', {}).setdefault(o.name[2:], stubdef(o))
        self.clock = clock
        self.shared = tuple(shared)
        self.hooks = hooks or {}
        self.counters = counters
        self.engineargs = engineargs or {}
        values = dict(values or {})
        params = {}
        if method == 'action':
            params['input'] = values.pop('input', None) or TypeVal(d['input'])
        if method == 'merge':
            params['tallyOne'] = values.pop('tallyOne', None) or TypeVal(d['output'])
            params['tallyTwo'] = values.pop('tallyTwo', None) or TypeVal(d['output'])
        if d.get('method') == 'fold' and method != 'begin':
            params['tally'] = values.pop('tally', None) or TypeVal(d['output'])
        for c, x in d.get('cells', {}).items():
            params['cell_' + c] = values.pop('cell_' + c, None) or TypeVal(x['type'])
            if c in self.shared:
                params['other_' + c] = TypeVal(x['type'])
                params['after_' + c] = TypeVal(x['type'])
        for c, x in d.get('pools', {}).items():
            t = {'type': 'map', 'values': x['type']}
            params['pool_' + c] = values.pop('pool_' + c, None) or TypeVal(t)
            if c in self.shared:
                params['other_' + c] = TypeVal(t)
                params['after_' + c] = TypeVal(t)
        if method in ('action', 'end') and counters:
            params['started'] = Int(0, 10**6)
            params['finished'] = Int(0, 10**6)
        if clock:
            params['elapsed'] = TimeVal()
        if 'instance' in values:
            params['instance'] = values.pop('instance')
        self.checks = checks
        if checks:
            params['valid'] = Bool()
        params.update(values)
        self.seed = hseed(cid)
        self.kwpre = pre
        self._engine = None
        kw.setdefault('autocands', False)
        kw.setdefault('timeout', 6000)
        Contract.__init__(self, cid, prop, params, self.reference, pre=pre, **kw)
        self.models.update({json.dumps: lambda ip, args, kw: '<json>', time.time: self.m_time, time.monotonic: self.m_time, time.perf_counter: self.m_time, threading.Lock: self.m_lock,
                            threading.RLock: self.m_lock})
        import titus.datatype
        self.summaries.update({stubcall: self.s_stubcall, titus.datatype.checkData: self.s_checkdata,
                               titus.datatype.ForwardDeclarationParser.getAvroType: self.s_avrotype})

    def targets(self):
        return ['titus.genpy (engine generated from document %s, method %s)' % (self.id, self.method)]

    # ------------------------------------------------------------ the specification
    def timeout_ms(self):
        o = dict(self.doc.get('options', {}))
        return o.get('timeout.' + self.method, o.get('timeout')) if self.method != 'merge' else o.get('timeout')

    def w0(self):
        if S.symbolic():
            return sym.SA(z3.Const('w0', sym.usort('World')))
        return self.seed

    def specials(self, v):
        d = self.doc
        out = {'name': d['name'] if 'name' in d else ANYNAME, 'instance': v.get('instance', 0), 'metadata': pfasem.const(d.get('metadata', {}))}
        if 'version' in d:
            out['version'] = d['version']
        return out

    def reference(self, **v):
        import titus.datatype
        d = self.doc
        st = St([], {c: v['cell_' + c] for c in d.get('cells', {})}, {p: v['pool_' + p] for p in d.get('pools', {})}, self.w0())
        st.env = [{}]
        top = st.env[0]
        sem = Sem(self.opq, {'u.' + n: x for n, x in d.get('fcns', {}).items() if 'u.' + n not in self.opq},
                       hooks=dict(self.hooks, shared={n: v['other_' + n] for n in self.shared}))
        sem.input = d.get('input', 'int')
        sem.limit = (v['elapsed'], self.timeout_ms()) if self.clock else None
        started, finished = v.get('started'), v.get('finished')
        tally = v.get('tally')
        m = d.get('method', 'map')
        exc, result = None, None
        before = st.copy()
        body = d.get(self.method, [])
        body = body if isinstance(body, list) else [body]
        top.update(self.specials(v))
        if self.method == 'action':
            top['input'] = v['input']
            started = started + 1 if started is not None else None
            top['actionsStarted'], top['actionsFinished'] = started, finished
        elif self.method == 'end':
            top['actionsStarted'], top['actionsFinished'] = started, finished
        elif self.method == 'merge':
            top['tallyOne'], top['tallyTwo'] = v['tallyOne'], v['tallyTwo']
        if m == 'fold' and self.method in ('action', 'end'):
            top['tally'] = tally
        rejected = self.checks and not v['valid']
        if rejected:
            started = started - 1 if started is not None else None
        try:
            result = sem.block(body, st, scope=False) if not rejected else None
            if rejected:
                pass
            elif self.method == 'action':
                finished = finished + 1 if finished is not None else None
            if rejected:
                pass
            elif m == 'fold' and self.method in ('action', 'merge'):
                tally = result
            elif m == 'emit' or self.method in ('begin', 'end'):
                result = None
        except SpecRaise as r:
            exc = r
            if self.method in ('action', 'merge'):
                for c, x in d.get('cells', {}).items():
                    if x.get('rollback'):
                        st.cells[c] = before.cells[c]
                for c, x in d.get('pools', {}).items():
                    if x.get('rollback'):
                        st.pools[c] = before.pools[c]

        def post(o):
            out = {}
            if rejected:
                out['input that does not match the type is rejected'] = o['exc'] is not None
            elif exc is not None:
                c = exc.code
                if exc.kind == 'timeout':
                    ok = o['exc'] == 'timeout'
                elif o['exc'] is None:
                    ok = False
                elif exc.kind == 'loop':
                    ok = S.And(o['exc'] in ('runtime', 'user', 'timeout'), S.Eq(pfasem.failcode(o['exc'], o['code']), c))
                else:
                    ok = S.And(o['exc'] == exc.kind, S.Eq(o['code'], c) if c is not None and o['code'] is not None else c is o['code'])
                    if exc.kind == 'user' and not str(exc.msg).startswith('stub '):
                        ok = S.And(ok, o['msg'] == exc.msg)
                out['fails with the documented error'] = ok
            else:
                out['finishes normally'] = o['exc'] is None
                if o['exc'] is None and result is not ANYNAME:
                    from vc.contract import kind_ok
                    out['result'] = S.And(kind_ok(o['result'], result), S.Eq(o['result'], result))
            out['calls and their order'] = S.Eq(o['w'], st.w)
            for c in st.cells:
                if c in self.shared:
                    pub = o['published'].get(c)
                    touched = c in st.written
                    if touched and exc is None:
                        out['shared cell %s: the update applies to the current value, under the lock' % c] = pub is not None and S.And(*[S.Eq(x, st.cells[c]) for x in pub]) if pub is not None else False
                    elif pub is not None:
                        out['shared cell %s: a failing update publishes nothing' % c] = S.And(*[S.Eq(x, v['other_' + c]) for x in pub])
                    out['shared cell %s: not written outside the lock' % c] = S.Eq(o['cells'][c], v['after_' + c] if pub is not None else before.cells[c])
                else:
                    out['cell ' + c] = S.Eq(o['cells'][c], st.cells[c])
            for c in st.pools:
                if c in self.shared:
                    pub = o['published'].get(c)
                    if exc is None:
                        touched = c in st.written
                        if touched:
                            out['shared pool %s: the update applies to the current item, under its lock' % c] = S.And(*[S.Eq(x, st.pools[c]) for x in pub]) if pub is not None else False
                    elif pub is not None:
                        out['shared pool %s: a failing update publishes nothing' % c] = S.And(*[S.Eq(x, v['other_' + c]) for x in pub])
                    out['shared pool %s: not written outside the lock' % c] = S.Eq(o['pools'][c], v['after_' + c] if pub is not None else before.pools[c])
                else:
                    out['pool ' + c] = S.Eq(o['pools'][c], st.pools[c])
            if m == 'fold' and 'tally' in v:
                out['tally'] = S.Eq(o['tally'], tally)
            if started is not None:
                out['actions started'] = S.Eq(o['started'], started)
                out['actions finished'] = S.Eq(o['finished'], finished)
            if not self.clock or self.timeout_ms() > 0:
                out['time checked on every iteration'] = S.Not(o['late'])
            if self.shared:
                out['all locks released'] = o['held'] == 0
            return out
        return Pred(post)

    # ------------------------------------------------------------ the real engine
    def engine(self):
        """built by the real titus from the document, once per process"""
        if self._engine is None:
            import titus.genpy as G
            G.exec = recorder
            try:
                self._engine = G.PFAEngine.fromJson(self.doc, **self.engineargs)[0]
            finally:
                del G.exec
        return self._engine

    def sym_call(self, ip, via, v):
        e = ip.e
        nat = self.engine()
        world = SObj(World, {'w': self.w0(), 'pending': False, 'late': False, 'held': 0, 'published': LDict({}), 'elapsed': v.get('elapsed', 0.0),
                             'ticks': False, 'interf': None, 'timed': self.clock})
        e.hook_state['world'] = world
        cells, pools = {}, {}
        for n, c in nat.cells.items():
            o = SObj(type(c), dict(c.__dict__))
            o.attrs['value'] = v['cell_' + n]
            if n in self.shared:
                o.attrs['lock'] = SObj(LockStub, {'world': world, 'owner': o, 'name': n, 'held': False, 'other': v['other_' + n], 'after': v['after_' + n]})
            cells[n] = o
        for n, c in nat.pools.items():
            o = SObj(type(c), dict(c.__dict__))
            o.attrs['value'] = LDict(v['pool_' + n]._m)
            if n in self.shared:
                o.attrs['locklock'] = SObj(LockStub, {'world': world, 'owner': None, 'name': n, 'held': False, 'other': None, 'after': None})
                o.attrs['locks'] = LDict({})
                world.attrs['interf'] = (o, n, v['other_' + n], v['after_' + n])
            pools[n] = o
        eng = SObj(type(nat), dict(nat.__dict__))
        a = eng.attrs
        a['cells'], a['pools'] = LDict(cells), LDict(pools)
        a['log'] = SObj(Logger, {'world': world, 'opaque': self.opq['log']})
        a['emit'] = SObj(Emitter, {'world': world, 'opaque': self.opq['emit']})
        a['f'] = LDict({n: (SObj(type(x), {'engine': eng}) if n == 'emit' else x) for n, x in nat.f.items() if not n.startswith('u.')})
        ip.call(ip.getattr(eng, 'initialize'), [], {})
        f = dict(a['f']._m.items)
        for n, o in self.opq.items():
            if n.startswith('u.'):
                f[n] = SObj(Clause, {'opaque': o, 'paramNames': LList(list(o.params)), 'world': world})
        a['f'] = LDict(f)
        if 'tally' in v:
            a['tally'] = v['tally']
        if 'instance' in v:
            a['instance'] = v['instance']
        e.hook_state['valid'] = v.get('valid', True)
        e.hook_state['inputType'] = nat.config.input
        if 'started' in v:
            a['actionsStarted'], a['actionsFinished'] = v['started'], v['finished']
        exc = r = None
        fr = e.loopstack
        try:
            r = ip.call(ip.getattr(eng, self.method), self.callargs(v), {})
        except PyRaise as p:
            exc = p.exc
        o = {'result': r, 'w': world.attrs['w'], 'cells': {n: c.attrs['value'] for n, c in cells.items()},
             'pools': {n: c.attrs['value'] for n, c in pools.items()}, 'tally': a.get('tally'), 'started': a.get('actionsStarted'),
             'finished': a.get('actionsFinished'), 'late': world.attrs['late'], 'held': world.attrs['held'],
             'published': {k: list(x._seq.items) for k, x in world.attrs['published']._m.items.items()}}
        o.update(describe(exc))
        return o

    def callargs(self, v):
        return [v['input']] if self.method == 'action' else [v['tallyOne'], v['tallyTwo']] if self.method == 'merge' else []

    # models used while interpreting
    def s_checkdata(self, ip, args, kw):
        """the contract of checkData (P04): a value that belongs to the type is returned unchanged"""
        if args[1] is not ip.e.hook_state['inputType']:
            raise PyRaise(TypeError("input checked at another type"))
        if not ip.truth(ip.e.hook_state['valid']):
            from titus.errors import AvroException
            raise PyRaise(AvroException('input does not match'))
        return args[0]

    def s_avrotype(self, ip, args, kw):
        """the parser is given the text of a type occurring in the document: it is run natively"""
        return args[0].getAvroType(ip.to_native(args[1]))

    def m_time(self, ip, args, kw):
        return ip.call(tick, [ip.e.hook_state['world']], {})

    def m_lock(self, ip, args, kw):
        w = ip.e.hook_state['world']
        it = w.attrs['interf']
        return SObj(LockStub, {'world': w, 'owner': it[0] if it else None, 'name': it[1] if it else None, 'held': False,
                               'other': it[2] if it else None, 'after': it[3] if it else None})

    def s_stubcall(self, ip, args, kw):
        opaque, world, a = args
        a = list(ip.concrete_items(ip.iter_seq(a)))
        f, r, w = opaque.apply(a, world.attrs['w'])
        if f is not False and ip.truth(f):
            from titus.errors import PFAUserException
            raise PyRaise(PFAUserException('stub ' + opaque.name, opaque.code, None))
        ip.setattr(world, 'w', w)
        if opaque.loop:
            if ip.truth(world.attrs['pending']):
                ip.setattr(world, 'late', True)
            ip.setattr(world, 'pending', True)
        return r

    # ------------------------------------------------------------ native runs of the same document
    def nat_call(self, via, v, env):
        import titus.genpy as G
        eng = self.engine()
        world = World(self.seed, v.get('elapsed', 0.0), self.clock)
        saved = (dict(eng.__dict__), dict(eng.f), {n: dict(c.__dict__) for n, c in eng.cells.items()}, {n: dict(c.__dict__) for n, c in eng.pools.items()})
        realtime, reallock = G.time, G.threading
        try:
            G.time = Clock(world)
            for n, c in eng.cells.items():
                c.value = v['cell_' + n]
                if n in self.shared:
                    c.lock = LockStub(world, c, n, v['other_' + n], v['after_' + n])
            for n, c in eng.pools.items():
                c.value = dict(v['pool_' + n])
                if n in self.shared:
                    c.locklock = LockStub(world, None, n, None, None)
                    c.locks = {}
                    G.threading = FakeThreading(world, c, n, v['other_' + n], v['after_' + n])
            eng.log = Logger(world, self.opq['log'])
            eng.emit = Emitter(world, self.opq['emit'])
            for n, o in self.opq.items():
                if n in eng.f and n.startswith('u.'):
                    eng.f[n] = Clause(o, o.params, world)
            if 'tally' in v:
                eng.tally = v['tally']
            if 'instance' in v:
                eng.instance = v['instance']
            args = self.callargs(v)
            if not v.get('valid', True):
                args = [{'no such': ['value']}]
            if 'started' in v:
                eng.actionsStarted, eng.actionsFinished = v['started'], v['finished']
            exc = r = None
            try:
                r = getattr(eng, self.method)(*args)
            except Exception as x:
                exc = x
            o = {'result': r, 'w': world.w, 'cells': {n: c.value for n, c in eng.cells.items()}, 'pools': {n: c.value for n, c in eng.pools.items()},
                 'tally': getattr(eng, 'tally', None), 'started': eng.actionsStarted, 'finished': eng.actionsFinished, 'late': world.late, 'held': world.held,
                 'published': dict(world.published)}
            o.update(describe(exc))
            return o
        finally:
            G.time, G.threading = realtime, reallock
            eng.__dict__.clear()
            eng.__dict__.update(saved[0])
            eng.f.clear()
            eng.f.update(saved[1])
            for n, c in eng.cells.items():
                c.__dict__.clear()
                c.__dict__.update(saved[2][n])
            for n, c in eng.pools.items():
                c.__dict__.clear()
                c.__dict__.update(saved[3][n])


ANYNAME = object()


def describe(exc):
    from titus.errors import PFARuntimeException, PFATimeoutException, PFAUserException
    if exc is None:
        return {'exc': None, 'code': None, 'msg': None}
    t = exc.cls if isinstance(exc, SObj) else type(exc)
    k = 'runtime' if issubclass(t, PFARuntimeException) else 'user' if issubclass(t, PFAUserException) else \
        'timeout' if issubclass(t, PFATimeoutException) else 'internal error %r' % (exc,)
    return {'exc': k, 'code': getattr(exc, 'code', None), 'msg': getattr(exc, 'message', None)}


class FakeThreading(object):
    def __init__(self, *a):
        self.a = a

    def Lock(self):
        return LockStub(*self.a)

    RLock = Lock

    def __getattr__(self, n):
        return getattr(threading, n)


def stubdef(o):
    """a well-typed definition for a user function that will be replaced by an arbitrary one"""
    return {'params': [{p: t} for p, t in o.types], 'ret': o.ret, 'do': [literal(o.ret)]}


def literal(t):
    if t == 'null':
        return None
    if t in ('int', 'boolean'):
        return {'int': 0, 'boolean': False}[t]
    if t == 'string':
        return ['']
    v = {'long': 0, 'double': 0.0, 'float': 0.0}.get(t) if isinstance(t, str) else [] if t['type'] == 'array' else {} if t['type'] == 'map' else \
        {f['name']: lit0(f['type']) for f in t['fields']}
    return {'type': t, 'value': v}


def lit0(t):
    x = literal(t)
    return x[0] if isinstance(x, list) else x['value'] if isinstance(x, dict) else x


def fn(name, ret='int', code=None, loop=False, **params):
    """an opaque user function u.<name>"""
    o = Opaque('u.' + name, list(params), ret, code, loop)
    o.types = list(params.items())
    return o
