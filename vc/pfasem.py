"""Reference semantics of the PFA language, straight from the PFA specification.

Works on symbolic values (verification: loops of unknown length become
uninterpreted functions with their one-step unfolding, see LoopGhost) and on
plain Python values (the same document executed as a run-time oracle)."""
import copy

import z3

from vc import sym, spec as S
from vc.spec import Assume, Eq, If, Len
from vc.sym import LDict, LList, SBool, SInt, SMap, SSeq, Sym, num_term, toseq, tomap, tz, veq, zand, zbool


class SpecRaise(Exception):
    """the document raises this error"""

    def __init__(self, code, msg=None, kind='runtime'):
        Exception.__init__(self, code)
        self.code, self.msg, self.kind = code, msg, kind


class Fcn(object):
    """an inline function (closure), or a user function"""

    def __init__(self, params, body, env=None, fill=None):
        self.params, self.body, self.env, self.fill = params, body, env, fill


class Opaque(object):
    """a user function about which nothing is known but its type: result, effect on the world
    and (if it can fail) failure are functions of its arguments and of the history so far"""

    def __init__(self, name, params, ret, code=None, loop=False):
        self.name, self.params, self.ret, self.code, self.loop = name, params, ret, code, loop

    def apply(self, args, w, env=None):
        """-> (fails, result, w')"""
        if S.symbolic():
            e = sym.engine()
            a = list(args) + [w]
            f = e.apply_uf('fail.' + self.name, a, 'bool') if self.code else False
            r = e.apply_uf('res.' + self.name, a, kind_of_type(self.ret)) if self.ret != 'null' else None
            return f, r, e.apply_uf('eff.' + self.name, a, ('A', 'World'))
        h = hseed((self.name, norm(list(args)), w))
        f = bool(self.code) and h % 7 == 0
        return f, value_from(h // 7, self.ret), h


def norm(v):
    if isinstance(v, dict):
        return tuple(sorted((k, norm(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, float):
        return ('f', repr(v))
    return v


def hseed(x):
    import hashlib
    return int(hashlib.md5(repr(x).encode()).hexdigest()[:12], 16)


def value_from(h, t):
    if t == 'null':
        return None
    if t == 'boolean':
        return h % 3 != 0
    if t in ('int', 'long'):
        return h % 4 - 1
    if t in ('double', 'float'):
        return (h % 9 - 4) / 2.0
    if t == 'string':
        return ['a', 'b', 'c', ''][h % 4]
    if isinstance(t, dict) and t['type'] == 'array':
        return [value_from(hseed((h, i)), t['items']) for i in range(h % 4)]
    if isinstance(t, dict) and t['type'] == 'map':
        return {k: value_from(hseed((h, k)), t['values']) for i, k in enumerate('abc') if (h >> i) & 1}
    if isinstance(t, dict) and t['type'] == 'record':
        return {f['name']: value_from(hseed((h, f['name'])), f['type']) for f in t['fields']}
    raise NotImplementedError(t)


def kind_of_type(t):
    if isinstance(t, str):
        return {'int': 'int', 'long': 'int', 'double': 'real', 'float': 'real', 'boolean': 'bool', 'string': 'str', 'null': 'none'}[t]
    if t['type'] == 'array':
        return ('list', kind_of_type(t['items']))
    if t['type'] == 'map':
        return ('map', 'str', kind_of_type(t['values']))
    if t['type'] == 'record':
        return ('rec', {f['name']: kind_of_type(f['type']) for f in t['fields']})
    raise NotImplementedError(t)


def failcode(kind, code):
    return -1 if kind == 'timeout' else -2 if code is None else code


class St(object):
    """state of a running document: lexical environment (innermost scope last), cells, pools, world"""

    def __init__(self, env, cells, pools, w):
        self.env, self.cells, self.pools, self.w, self.written = env, cells, pools, w, set()

    def copy(self):
        return St([dict(s) for s in self.env], dict(self.cells), dict(self.pools), self.w)

    def get(self, name):
        for s in reversed(self.env):
            if name in s:
                return s[name]
        raise KeyError(name)

    def set(self, name, v):
        for s in reversed(self.env):
            if name in s:
                s[name] = v
                return
        raise KeyError(name)

    def has(self, name):
        return any(name in s for s in self.env)

    # loop components
    def read(self, c):
        return self.w if c == 'w' else self.cells[c[5:]] if c.startswith('cell:') else self.pools[c[5:]] if c.startswith('pool:') else self.get(c[4:])

    def write(self, c, v):
        if c == 'w':
            self.w = v
        elif c.startswith('cell:'):
            self.cells[c[5:]] = v
        elif c.startswith('pool:'):
            self.pools[c[5:]] = v
        else:
            self.set(c[4:], v)


class LoopGhost(object):
    """state(k): the loop's state before iteration k; out(k): how the loop ends when started from state(k)"""
    looping = True

    def __init__(self, st0, comps, step, name):
        e = sym.engine()
        self.st0, self.step = st0.copy(), step
        self.base = e.freshname(name)
        self.comps = {c: e.shape_kind(e.shape(st0.read(c))) for c in comps}
        self.done = {}
        self.outkinds = dict(self.comps, fail='int')
        e.ghosts.append(self)

    kind = 'none'

    def comp(self, c, k):
        if (isinstance(k, int) and k == 0) or sym.int_val(num_term(k)) == 0:
            return self.st0.read(c)
        return sym.fresh_named(self.comps[c], '%s.%s' % (self.base, c), (num_term(k),))

    def out(self, c, k):
        return sym.fresh_named(self.outkinds[c], '%s.out.%s' % (self.base, c), (z3.simplify(num_term(k)),))

    def meaning(self, k):
        return S.And(*[sym.mkbool(veq(self.out(c, k), self.out(c, 0))) for c in self.outkinds])

    def unfold(self, k):
        e = sym.engine()
        key = str(z3.simplify(num_term(k)))
        if key in self.done.setdefault(e.pathid, set()):
            return
        self.done[e.pathid].add(key)
        st = self.st0.copy()
        for c in self.comps:
            st.write(c, self.comp(c, k))
        try:
            cont = self.step(st, k)
        except SpecRaise as r:
            self.finish(e, k, failcode(r.kind, r.code), st)
            return
        if not cont:
            self.finish(e, k, 0, st)
            return
        k1 = SInt(num_term(k) + 1)
        for c in self.comps:
            e.assume(veq(self.comp(c, k1), st.read(c)))
        for c in self.outkinds:
            e.assume(veq(self.out(c, k), self.out(c, k1)))

    def finish(self, e, k, code, st):
        e.assume(veq(self.out('fail', k), code))
        for c in self.comps:
            e.assume(veq(self.out(c, k), st.read(c)))


class CopyGhost(object):
    """an update in the middle of a structure: state before / after position `at` of a copying loop"""
    looping = False
    kind = 'none'

    def __init__(self, comps, at, fails=False):
        self.fails = fails
        self.vals = comps         # name -> (before, after)
        e = sym.engine()
        self.comps = {c: e.shape_kind(e.shape(a)) for c, (a, b) in comps.items()}
        self.at = at
        e.ghosts.append(self)

    def comp(self, c, k):
        a, b = self.vals[c]
        return If(sym.mkbool(zbool(self.at < k)), b, a)

    def meaning(self, k):
        return S.Not(self.at < k) if self.fails else True

    def unfold(self, k):
        pass


class MapCopyGhost(CopyGhost):
    """the same for a loop over the entries of a map, in the map's iteration order"""

    def __init__(self, comps, m, key, new):
        CopyGhost.__init__(self, comps, tomap(m).idx(key) if tomap(m).idx else None)
        self.m, self.key, self.new = tomap(m), key, new
        e = sym.engine()
        self.comps['copy'] = e.shape_kind(e.shape(m))

    def comp(self, c, k):
        if c != 'copy':
            return CopyGhost.comp(self, c, k)
        m = self.m
        return LDict(SMap(lambda x: zand(m.has(x), zbool(m.idx(x) < k)), lambda x: If(sym.mkbool(veq(x, self.key)), self.new, m.get(x)),
                          k, None, kk=m.kk, vk=m.vk))


class Sem(object):
    """evaluator; world effects go through Opaque functions"""

    def __init__(self, opaque, fcns=None, types=None, hooks=None):
        self.opaque = opaque              # u.name -> Opaque
        self.fcns = fcns or {}            # u.name -> JSON definition with a real body
        self.types = types or {}
        self.hooks = hooks or {}
        self.budget = 400
        self.input = None                 # the type of the input
        self.limit = None                 # (seconds since the start, limit in milliseconds)

    def check(self):
        if self.limit is not None and self.limit[1] > 0 and self.truth(self.limit[0] * 1000 > self.limit[1]):
            raise SpecRaise(None, None, 'timeout')

    # ------------------------------------------------------------ blocks
    def block(self, es, st, scope=True):
        if not isinstance(es, list):
            es = [es]
        if scope:
            st.env.append({})
        try:
            v = None
            for x in es:
                v = self.ev(x, st)
            return v
        finally:
            if scope:
                st.env.pop()

    def truth(self, v):
        return bool(v)

    # ------------------------------------------------------------ functions
    def effect(self, o, args, st):
        f, r, w = o.apply(args, st.w)
        if self.truth(f):
            raise SpecRaise(o.code, 'stub ' + o.name, 'user')
        st.w = w
        return r

    def callfn(self, f, args, st):
        if isinstance(f, Opaque):
            return self.effect(f, args, st)
        if isinstance(f, str):
            return self.callname(f, args, st)
        if isinstance(f, Fcn):
            env = st.env
            if f.fill is not None:
                # the filled-in arguments are expressions over the defining scope
                full, it = [], iter(args)
                for p in f.params:
                    if p in f.fill:
                        st.env = list(f.env) + [{}]
                        try:
                            full.append(self.ev(f.fill[p], st))
                        finally:
                            st.env = env
                    else:
                        full.append(next(it))
                return self.callname(f.body, full, st)
            st.env = list(f.env) + [dict(zip(f.params, args))]
            try:
                return self.block(f.body, st)
            finally:
                st.env = env
        raise NotImplementedError(f)

    def callname(self, name, args, st):
        if name in self.opaque:
            return self.effect(self.opaque[name], args, st)
        d = self.fcns[name]
        params = [list(p)[0] for p in d['params']]
        return self.callfn(Fcn(params, d['do'], env=[]), args, st)

    def fcnarg(self, x, st):
        if isinstance(x, dict) and 'params' in x:
            return Fcn([list(p)[0] for p in x['params']], x['do'], env=list(st.env))
        if isinstance(x, dict) and 'fcn' in x:
            if 'fill' in x:
                names = [list(p)[0] for p in self.fcns[x['fcn']]['params']]
                return Fcn(names, x['fcn'], env=list(st.env), fill=x['fill'])
            return x['fcn']
        return None

    # ------------------------------------------------------------ paths
    def index(self, v, i, acode, mcode):
        if isinstance(v, (LList, list, tuple)):
            n = Len(v)
            if self.truth(S.Or(i < 0, i >= n)):
                raise SpecRaise(acode)
            return toseq(v).at(i) if S.symbolic() else v[i]
        if not self.truth(S.Has(v, i)):
            raise SpecRaise(mcode)
        return S.Get(v, i)

    def getpath(self, v, path, acode, mcode):
        for i in path:
            v = self.index(v, i, acode, mcode)
        return v

    def upd(self, v, path, to, st, acode, mcode):
        """the value v with the part at `path` replaced"""
        if not path:
            if isinstance(to, (Fcn, str, Opaque)) and not (isinstance(to, str) and not to.startswith('u.')):
                return self.callfn(to, [v], st)
            return to[0]
        i, rest = path[0], path[1:]
        old = self.index(v, i, acode, mcode)
        w0 = self.snap(st)
        if S.symbolic():
            if isinstance(v, LList) and v._seq.items is None:
                sym.engine().add_ghost_seq(v)
            elif isinstance(v, LDict) and v._m.items is None:
                MapCopyGhost({}, v, i, old)
        try:
            new = self.upd(old, rest, to, st, acode, mcode)
        except SpecRaise:
            if S.symbolic():
                at = i if isinstance(v, LList) else v._m.idx(i) if v._m.idx else None
                if isinstance(at, (int, SInt)):
                    CopyGhost(dict(self.delta(w0, st), **{'': (0, 0)}), at, fails=True)
            raise
        if isinstance(v, (LList, list, tuple)):
            if not S.symbolic():
                return [new if j == i else x for j, x in enumerate(v)]
            r = S.Seq(Len(v), lambda j: If(sym.mkbool(veq(j, i)), new, toseq(v).at(j)))
            if isinstance(i, (int, SInt)):
                CopyGhost(self.delta(w0, st), i)
            return r
        if not S.symbolic():
            return {k: (new if k == i else x) for k, x in v.items()}
        m = v._m
        if m.items is not None and not isinstance(i, Sym):
            return LDict(SMap(items={k: (new if k == i else x) for k, x in m.items.items()}), frozen=True)
        if m.idx is not None:
            MapCopyGhost(self.delta(w0, st), v, i, new)
        return LDict(SMap(m.has, lambda k: If(sym.mkbool(veq(k, i)), new, m.get(k)), m.n, None, kk=m.kk, vk=m.vk), frozen=True, label='spec')

    def snap(self, st):
        return {'w': st.w}

    def delta(self, a, st):
        return {'w': (a['w'], st.w)} if a['w'] is not st.w else {}

    # ------------------------------------------------------------ loops
    def mods(self, es, acc=None, seen=None):
        """names, cells and pools syntactically assigned in es"""
        acc = acc if acc is not None else set()
        seen = seen if seen is not None else set()
        if isinstance(es, list):
            for x in es:
                self.mods(x, acc, seen)
        elif isinstance(es, dict):
            for k, v in es.items():
                if k in ('set', 'step') and isinstance(v, dict):
                    acc.update('var:' + n for n in v)
                if k == 'cell' and 'to' in es:
                    acc.add('cell:' + v)
                if k == 'pool' and ('to' in es or 'del' in es):
                    acc.add('pool:' + v)
                if k in self.fcns and k not in seen:
                    seen.add(k)
                    acc.update(x for x in self.mods(self.fcns[k]['do'], set(), seen) if not x.startswith('var:'))
                self.mods(v, acc, seen)
        return acc

    def loop(self, st, body, step, n=None, name='loop'):
        """step(st, k) runs iteration k: True = the loop goes on, False = it ended"""
        if not S.symbolic() or (n is not None and isinstance(n, int)):
            k = 0
            while step(st, k):
                k += 1
                self.budget -= 1
                if self.budget < 0:
                    raise Assume()
            return
        comps = ['w'] + sorted(c for c in self.mods(body) if not c.startswith('var:') or st.has(c[4:]))
        g = LoopGhost(st, comps, step, name)
        fail = g.out('fail', 0)
        for c in g.comps:
            st.write(c, g.out(c, 0))
        if not bool(Eq(fail, 0)):
            raise SpecRaise(fail, kind='loop')

    # ------------------------------------------------------------ expressions
    def args(self, es, st):
        out = []
        for x in es:
            f = self.fcnarg(x, st)
            out.append(f if f is not None else self.ev(x, st))
        return out

    def ev(self, x, st):
        if x is None or isinstance(x, (bool, int, float)):
            return x
        if isinstance(x, str):
            name, *path = x.split('.')
            return self.getpath(st.get(name), path, 2000, 2001)
        if isinstance(x, list):
            return x[0]                       # ["text"] is a string literal
        k = set(x)
        for form in ('let', 'set', 'attr', 'cell', 'pool', 'if', 'cond', 'for', 'foreach', 'forkey', 'while', 'until', 'cast', 'upcast',
                     'ifnotnull', 'try', 'error', 'doc', 'log', 'new', 'int', 'long', 'double', 'float', 'string', 'value', 'do'):
            if form in k:
                return getattr(self, 'f_' + form)(x, st)
        (name, a), = [(n, v) for n, v in x.items() if n != '@']
        a = a if isinstance(a, list) else [a]
        if name in self.opaque or name in self.fcns:
            return self.callname(name, self.args(a, st), st)
        if name in ('&&', '||'):
            b = self.ev(a[0], st)
            if self.truth(b) == (name == '||'):
                return name == '||'
            return self.ev(a[1], st)
        if name == '!':
            return not self.truth(self.ev(a[0], st))
        h = self.hooks.get(name) or getattr(self, 'l_' + {'+': 'plus', 'a.map': 'amap', 'emit': 'emit', '==': 'eq', '<': 'lt', 'a.append': 'append',
                                                         'a.fold': 'fold', 'a.len': 'len'}.get(name, name), None)
        if h is None:
            raise NotImplementedError(name)
        return h(self.args(a, st), st)

    def f_int(self, x, st):
        return x['int']

    def f_long(self, x, st):
        return x['long']

    def f_double(self, x, st):
        return float(x['double'])

    f_float = lambda self, x, st: float(x['float'])

    def f_string(self, x, st):
        return x['string']

    def f_value(self, x, st):
        return const(x['value'])

    def f_doc(self, x, st):
        return None

    def f_new(self, x, st):
        if isinstance(x['new'], list):
            vs = [self.ev(y, st) for y in x['new']]
            return LList(vs, frozen=True) if S.symbolic() else vs
        vs = {n: self.ev(y, st) for n, y in x['new'].items()}
        return LDict(SMap(items=vs), frozen=True) if S.symbolic() else vs

    def f_let(self, x, st):
        vs = {n: self.ev(y, st) for n, y in x['let'].items()}
        st.env[-1].update(vs)

    def f_set(self, x, st):
        vs = [(n, self.ev(y, st)) for n, y in x['set'].items()]
        for n, v in vs:
            st.set(n, v)

    def f_do(self, x, st):
        return self.block(x['do'], st, scope=True)

    def f_attr(self, x, st):
        v = self.ev(x['attr'], st)
        path = [self.ev(p, st) for p in x['path']]
        if 'to' not in x:
            return self.getpath(v, path, 2000, 2001)
        to = self.to(x['to'], st)
        return self.upd(v, path, to, st, 2002, 2003)

    def to(self, t, st):
        f = self.fcnarg(t, st)
        return f if f is not None else (self.ev(t, st),)

    def f_cell(self, x, st):
        path = [self.ev(p, st) for p in x.get('path', [])]
        c = x['cell']
        if 'to' not in x:
            return self.getpath(st.cells[c], path, 2004, 2005)
        to = self.to(x['to'], st)
        if c in self.hooks.get('shared', ()):
            st.cells[c] = self.hooks['shared'][c]          # what the other instances left there
        v = self.upd(st.cells[c], path, to, st, 2006, 2007)
        st.cells[c] = v
        st.written.add(c)
        return v

    def f_pool(self, x, st):
        p = x['pool']
        if 'del' in x:
            k = self.ev(x['del'], st)
            m = st.pools[p]
            if not S.symbolic():
                st.pools[p] = {a: b for a, b in m.items() if a != k}
            else:
                mm = tomap(m)
                st.pools[p] = LDict(SMap(lambda y: zand(sym.znot(veq(y, k)), mm.has(y)), mm.get, None, None, kk=mm.kk or 'str', vk=mm.vk), frozen=True)
            return None
        path = [self.ev(q, st) for q in x['path']]
        if 'to' not in x:
            return self.getpath(st.pools[p], path, 2008, 2009)
        to = self.to(x['to'], st)
        init = self.ev(x['init'], st)
        if p in self.hooks.get('shared', ()):
            st.pools[p] = self.hooks['shared'][p]
        m = st.pools[p]
        st.written.add(p)
        cur = S.Get(m, path[0]) if self.truth(S.Has(m, path[0])) else init
        v = self.upd(cur, path[1:], to, st, 2010, 2011)
        if not S.symbolic():
            st.pools[p] = dict(m, **{path[0]: v})
        else:
            from vc.interp import map_set
            st.pools[p] = LDict(map_set(None, tomap(m), path[0], v), frozen=True)
        return v

    def f_if(self, x, st):
        st.env.append({})
        try:
            c = self.ev(x['if'], st)
        finally:
            st.env.pop()
        if self.truth(c):
            v = self.block(x['then'], st)
        elif 'else' in x:
            v = self.block(x['else'], st)
        else:
            return None
        return v if 'else' in x else None

    def f_cond(self, x, st):
        for y in x['cond']:
            st.env.append({})
            try:
                c = self.ev(y['if'], st)
            finally:
                st.env.pop()
            if self.truth(c):
                v = self.block(y['then'], st)
                return v if 'else' in x else None
        if 'else' in x:
            return self.block(x['else'], st)
        return None

    def f_while(self, x, st):
        def step(s, k):
            if not self.truth(self.block([x['while']], s)):
                return False
            self.check()
            self.block(x['do'], s)
            return True
        self.loop(st, [x['while'], x['do']], step, name='while')

    def f_until(self, x, st):
        def step(s, k):
            s.env.append({})
            try:
                self.check()
                self.block(x['do'], s, scope=False)
                return not self.truth(self.block([x['until']], s))
            finally:
                s.env.pop()
        self.loop(st, [x['until'], x['do']], step, name='until')

    def f_for(self, x, st):
        st.env.append({})
        try:
            st.env[-1].update({n: self.ev(y, st) for n, y in x['for'].items()})

            def step(s, k):
                if not self.truth(self.block([x['while']], s)):
                    return False
                self.check()
                self.block(x['do'], s)
                for n, v in [(n, self.ev(y, s)) for n, y in x['step'].items()]:
                    s.set(n, v)
                return True
            self.loop(st, [x['while'], x['do'], {'step': x['step']}], step, name='for')
        finally:
            st.env.pop()

    def f_foreach(self, x, st):
        a = self.ev(x['in'], st)
        n = Len(a)

        def step(s, k):
            if not self.truth(k < n):
                return False
            self.check()
            s.env.append({x['foreach']: toseq(a).at(k) if S.symbolic() else a[k]})
            try:
                self.block(x['do'], s)
            finally:
                s.env.pop()
            return True
        self.loop(st, [x['do']], step, n, name='foreach')

    def f_forkey(self, x, st):
        m = self.ev(x['in'], st)
        n = Len(m)

        def step(s, k):
            if not self.truth(k < n):
                return False
            self.check()
            key = tomap(m).keyseq.at(k) if S.symbolic() else list(m)[k]
            s.env.append({x['forkey']: key, x['forval']: S.Get(m, key)})
            try:
                self.block(x['do'], s)
            finally:
                s.env.pop()
            return True
        self.loop(st, [x['do']], step, n, name='forkey')

    def f_cast(self, x, st):
        v = self.ev(x['cast'], st)
        for c in x['cases']:
            ok, val = self.castcase(v, c['as'])
            if ok:
                st.env.append({c['named']: val})
                try:
                    r = self.block(c['do'], st)
                finally:
                    st.env.pop()
                return None if x.get('partial') else r
        return None

    def castcase(self, v, t):
        """the value v of a union seen at type t"""
        order = ['int', 'long', 'float', 'double']
        if v is None:
            return t == 'null', None
        d = v._m.items if isinstance(v, LDict) else v
        (tag, val), = d.items()
        name = t if isinstance(t, str) else t['type'] if t['type'] in ('array', 'map') else t['name']
        if tag == name:
            return True, val
        if tag in order and name in order and order.index(tag) < order.index(name):
            return True, S.Real(val) if name in ('float', 'double') else val
        return False, None

    def f_upcast(self, x, st):
        v = self.ev(x['upcast'], st)
        t = x['as']
        if t in ('double', 'float'):
            return v
        return v

    def f_ifnotnull(self, x, st):
        vs = {n: self.ev(y, st) for n, y in x['ifnotnull'].items()}
        if all(v is not None for v in vs.values()):
            out = {}
            for n, v in vs.items():
                e = x['ifnotnull'][n]
                t = self.input if e == 'input' else self.opaque[list(e)[0]].ret if isinstance(e, dict) and list(e)[0] in self.opaque else None
                if isinstance(t, list) and len(t) > 2:
                    out[n] = v           # still a union
                else:
                    (out[n],) = (v._m.items if isinstance(v, LDict) else v).values()
            st.env.append(out)
            try:
                r = self.block(x['then'], st)
            finally:
                st.env.pop()
        elif 'else' in x:
            r = self.block(x['else'], st)
        else:
            return None
        return r if 'else' in x else None

    def f_try(self, x, st):
        n = len(st.env)
        body = x['try'] if isinstance(x['try'], list) else [x['try']]
        try:
            r = self.block(body, st)
            name = list(body[-1])[0] if isinstance(body[-1], dict) else None
            ret = self.opaque[name].ret if name in self.opaque else 'null'
            if ret == 'null' or not isinstance(ret, str):
                return r
            return LDict(SMap(items={ret: r}), frozen=True) if S.symbolic() else {ret: r}
        except SpecRaise as r:
            del st.env[n:]
            if 'filter' not in x:
                return None
            for f in x['filter']:
                if isinstance(f, str):
                    if r.msg == f:
                        return None
                elif r.code is not None and self.truth(Eq(r.code, f)):
                    return None
            raise

    def f_error(self, x, st):
        raise SpecRaise(x.get('code'), x['error'], 'user')

    def f_log(self, x, st):
        vs = [self.ev(y, st) for y in (x['log'] if isinstance(x['log'], list) else [x['log']])]
        self.effect(self.opaque['log'], [x.get('namespace') or ''] + vs, st)
        return None

    # ------------------------------------------------------------ library functions used in the documents
    def l_emit(self, a, st):
        self.effect(self.opaque['emit'], a, st)
        return None

    def l_plus(self, a, st):
        r = a[0] + a[1]
        if self.truth(S.Or(r > 2147483647, r < -2147483648)):
            raise SpecRaise(18000)
        return r

    def l_eq(self, a, st):
        return Eq(a[0], a[1])

    def l_lt(self, a, st):
        return a[0] < a[1]

    def l_len(self, a, st):
        return Len(a[0])

    def l_append(self, a, st):
        if S.symbolic():
            return LList(toseq(a[0]).concat(SSeq.of([a[1]])), frozen=True)
        return list(a[0]) + [a[1]]

    def l_amap(self, a, st):
        n = Len(a[0])
        out = [self.callfn(a[1], [toseq(a[0]).at(i) if S.symbolic() else a[0][i]], st) for i in range(n)]
        return LList(out, frozen=True) if S.symbolic() else out

    def l_fold(self, a, st):
        acc = a[1]
        for i in range(Len(a[0])):
            acc = self.callfn(a[2], [acc, toseq(a[0]).at(i) if S.symbolic() else a[0][i]], st)
        return acc


def const(v):
    if not S.symbolic():
        return copy.deepcopy(v)
    if isinstance(v, list):
        return LList([const(x) for x in v], frozen=True)
    if isinstance(v, dict):
        return LDict(SMap(items={k: const(x) for k, x in v.items()}), frozen=True)
    return v
