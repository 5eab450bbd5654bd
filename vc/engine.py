"""Path exploration, obligations and the loop rule of the deductive verifier.

A function is explored by re-execution: a path is identified by the list of
decisions taken; every path is run from the start.  Loops over symbolic
sequences are cut: `preserve` proves one arbitrary iteration from the
invariants, `exit` continues from the invariants at the end.  The invariants
are the largest subset of the candidate set that is inductive (Houdini)."""
import contextlib
import os
import re
import subprocess
import tempfile
import time

import z3

from vc import sym
from vc.sym import (Heap, LDict, LList, LSet, NoFork, SA, SBool, SFn, SInt, SMap, SNum, SObj, SReal, SSeq, SStr, Sym,
                    Unsupported, fresh, mkbool, num_term, toseq, tomap, tz, veq, vite, zand, zbool, znot, zor)


BOUND = re.compile(r'(qk?)![0-9]+')


class PathEnd(Exception):
    """this path is finished (infeasible, or the end of a loop iteration)"""


class Restart(Exception):
    """candidate set or modified set changed: start the exploration again"""


class PyRaise(Exception):
    """the program under verification raised `exc`"""

    def __init__(self, exc):
        self.exc = exc


class Budget(Exception):
    pass


class Obl(object):
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'path', 'detail')

    def __init__(self, name, status, backend, t, model=None, path=(), detail=''):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.path, self.detail = model, path, detail


class LoopInfo(object):
    def __init__(self, key=()):
        self.key = key
        self.mods = {}        # loc -> set of shapes
        self.dead = set()
        self.entry_checked = {}
        self.slots = {}       # loc -> number block of the objects made when it is havocked


class LoopCtx(object):
    def __init__(self, info, serial, k):
        self.info, self.serial, self.k = info, serial, k
        self.new = set()


class Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Engine(object):
    def __init__(self, name, timeout_ms=4000, max_paths=3000, deadline=None, autocands=True, generic=True):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.pcs, self.answers, self.intvals, self.named = {}, {}, {}, {}
        self.loops = {}
        self.flagged = set()     # while loops whose flags are decided at the end of each iteration
        self.autocands = autocands
        self.generic = generic and autocands
        self.inv = None             # contract-supplied candidates
        self.nan_equal = True
        self.stats = {'paths': 0, 'checks': 0, 'solver_s': 0.0, 'restarts': 0, 'loops': 0, 'inlined': set(), 'trusted': set()}
        self.checking = True
        self.branch_ms = 1000
        self.obls = []
        self.obj_eq_hook = None
        self.frame_ok = ()
        self.second_opinion = False

    # ------------------------------------------------------------ path state
    def start_path(self, decisions):
        self.decisions = list(decisions)
        self.taken = []
        self.pos = 0
        self.counter = {}
        self.serial = 0
        self.objs = {}
        self.known = {}
        self.keep = []
        self.pcid = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.asserts = []
        self.binders = []
        self.ctx = []
        self.ghosts = []
        self.ghost_fams = []
        self.ghost_seqs = []
        self.ghost_alls = []
        self.ghost_maps = []
        self.src_maps = []
        self.ghost_keyalls = []
        self.loopstack = []
        self.axdone = set()
        self.pathid = object()
        self.events = []
        self.hook_state = {}
        self.qcache = {}
        self.pending = []
        self.inspec = False

    def register(self, o):
        self.serial += 1
        self.objs[self.serial] = o
        return self.serial

    def freshname(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    # ------------------------------------------------------------ assumptions
    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
            if not self.ctx:
                raise PathEnd()
        if self.ctx:
            cond = z3.And(*[x for x, _ in self.ctx])
            bs = [b for _, bb in self.ctx for b in bb]
            c = z3.Implies(cond, c)
            if bs:
                c = z3.ForAll(bs, c)
        self._add(c)

    def _add(self, c):
        self.solver.add(c)
        self.asserts.append(c)
        self.qcache.clear()
        # the assumptions made so far on this path, as one number (terms are hash-consed; they are kept, so that no number is used twice)
        key = (self.pcid, c.get_id())
        nxt = self.pcs.get(key)
        if nxt is None:
            nxt = self.pcs[key] = (len(self.pcs) + 1, c)
        self.pcid = nxt[0]

    def axiom(self, key, c):
        if key in self.axdone:
            return
        self.axdone.add(key)
        self._add(c)

    def assume_named(self, base, ln, binders):
        if base in self.axdone:
            return
        self.axdone.add(base)
        if binders:
            bs = [z3.Const('b!%d' % i, b.sort()) for i, b in enumerate(binders)]
            f = sym.uf(base, *([b.sort() for b in binders] + [sym.IntS]))
            self._add(z3.ForAll(bs, f(*bs) >= 0, patterns=[f(*bs)]))
        else:
            self._add(ln >= 0)

    def assume_binder(self, c, binders):
        if binders:
            vs = [b for b in binders]
            if all(z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED for b in vs):
                self._add(z3.ForAll(vs, c))
                return
        self.assume(c)

    def map_axioms(self, base, n, hasf, keyf, idxf, binders, ks):
        if base in self.axdone:
            return
        self.axdone.add(base)
        i = z3.Int('mi!')
        k = z3.Const('mk!', ks)
        bs = [z3.Const('b!%d' % j, b.sort()) for j, b in enumerate(binders)]
        if bs:
            nf = sym.uf(base + '.n', *([b.sort() for b in bs] + [sym.IntS]))
            n = nf(*bs)
        self._add(z3.ForAll(bs, n >= 0, patterns=[n]) if bs else n >= 0)
        hk = hasf(*(bs + [keyf(*(bs + [i]))]))
        self._add(z3.ForAll(bs + [i], z3.Implies(z3.And(0 <= i, i < n), z3.And(hk, idxf(*(bs + [keyf(*(bs + [i]))])) == i)),
                            patterns=[keyf(*(bs + [i]))]))
        ik = idxf(*(bs + [k]))
        self._add(z3.ForAll(bs + [k], z3.Implies(hasf(*(bs + [k])), z3.And(0 <= ik, ik < n, keyf(*(bs + [ik])) == k)),
                            patterns=[hasf(*(bs + [k]))]))

    @contextlib.contextmanager
    def noforking(self, cond, binders=()):
        self.ctx.append((tz(cond), list(binders)))
        nb = len(self.binders)
        self.binders.extend(binders)
        try:
            yield
        finally:
            self.ctx.pop()
            del self.binders[nb:]

    # ------------------------------------------------------------ solver access
    def _asked(self, extra, timeout):
        """_check without a model; a question asked before on an earlier run of the same path is not asked again"""
        key = (self.pcid,) + tuple(c.get_id() for c in extra)
        old = self.answers.get(key)
        if old is not None and (old[0] != z3.unknown or old[1] >= timeout):
            self.stats['reused'] = self.stats.get('reused', 0) + 1
            if self.deadline and time.process_time() > self.deadline:
                raise Budget("time budget of this contract exhausted")
            return old[0], None
        r, _ = self._check(extra, timeout)
        self.answers[key] = (r, timeout, list(extra))
        return r, None

    def _check(self, extra, timeout):
        t0 = time.time()
        self.stats['checks'] += 1
        self.solver.set('timeout', timeout)
        self.solver.push()
        for c in extra:
            self.solver.add(c)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        self.stats['solver_s'] += time.time() - t0
        if self.deadline and time.process_time() > self.deadline:
            raise Budget("time budget of this contract exhausted")
        return r, m

    def quick_entails(self, c):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.ctx))
        r = self.qcache.get(key)
        if r is not None and r[1] is not None:
            return r[0]
        extra = [x for x, _ in self.ctx] + [z3.Not(c)]
        res, _ = self._asked(extra, 300)
        out = res == z3.unsat
        self.qcache[key] = (out, c)
        return out

    def branch(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.ctx:
            if self.quick_entails(t):
                return True
            if self.quick_entails(z3.Not(t)):
                return False
            raise NoFork(str(t)[:200])
        k = self.known.get(t.get_id())
        if k is not None:
            return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            bt = self.branch_ms
            rt, _ = self._asked([t], bt)
            if rt == z3.unsat:
                d = (False, True)
            else:
                rf, _ = self._asked([z3.Not(t)], bt)
                if rt == z3.unknown and rf == z3.unknown:
                    self.branch_ms = max(150, bt * 2 // 3)
                if rf == z3.unsat:
                    d = (True, True)
                else:
                    d = (True, False)
                    self.schedule((False, False))
        self.pos += 1
        self.taken.append(d)
        self.keep.append(t)
        self.known[t.get_id()] = d[0]
        nt = z3.simplify(z3.Not(t))
        self.keep.append(nt)
        self.known[nt.get_id()] = not d[0]
        if not d[1]:
            self._add(t if d[0] else nt)
        return d[0]

    def choose(self, n):
        if self.ctx:
            raise NoFork("choice under a binder")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = (0, False)
            for alt in range(n - 1, 0, -1):
                self.schedule((alt, False))
        self.pos += 1
        self.taken.append(d)
        return d[0]

    def schedule(self, d):
        self.work.append(tuple(self.taken) + (d,))

    def raise_(self, exc):
        if self.ctx:
            raise NoFork("exception under a binder: %r" % (exc,))
        raise PyRaise(exc)

    def junk(self, seq):
        if isinstance(seq, SSeq):
            if seq.items:
                return seq.items[0]
            if seq.kind is not None:
                return fresh(seq.kind, 'junk')
        if isinstance(seq, SMap):
            if seq.vk is not None:
                return fresh(seq.vk, 'junk')
            if seq.items:
                return list(seq.items.values())[0]
        if not self.ctx and self._check([], 300)[0] == z3.unsat:
            raise PathEnd()
        raise Unsupported("element of an empty sequence")

    def apply_uf(self, name, args, retkind):
        terms = []

        def add(a):
            if isinstance(a, Sym):
                terms.append(a.t)
            elif isinstance(a, tuple):
                for x in a:
                    add(x)
            elif isinstance(a, bool):
                terms.append(z3.BoolVal(a))
            elif isinstance(a, int):
                terms.append(z3.IntVal(a))
            elif isinstance(a, float):
                terms.append(num_term(a))
            elif isinstance(a, str):
                terms.append(z3.StringVal(a))
            elif isinstance(a, (LList, list)) and toseq(a).items is not None:
                for x in toseq(a).items:
                    add(x)
            elif isinstance(a, LList):
                # any function of the length and of the items (also of what is beyond the end: more than lists have, so no harm)
                j = z3.Int('item!')
                with self.noforking(z3.BoolVal(True), [j]):
                    x = a._seq.at(SInt(j))
                if not isinstance(x, (SNum, SStr, SBool, SA)):
                    raise Unsupported("opaque function applied to %r" % (a,))
                terms.append(num_term(a._seq.n))
                terms.append(z3.Lambda([j], x.t))
            else:
                raise Unsupported("opaque function applied to %r" % (a,))
        for a in args:
            add(a)
        return sym.fresh_named(retkind, name, tuple(terms))

    def map_len(self, m):
        if m.n is None:
            n = fresh('int', 'maplen')
            kk = m.kk
            if kk is None:
                raise Unsupported("length of a map without key kind")
            kv = z3.Const(self.freshname('lk'), sym.kind_sort(kk))
            with self.noforking(z3.BoolVal(True), [kv]):
                h = tz(m.has(sym.wrap(kk, kv)))
            self.assume(n.t >= 0)
            self.assume((n.t == 0) == z3.Not(z3.Exists([kv], h)))
            s = m.memo.get('items of')
            if s is not None:
                # the set of the items of a list: as many as items exactly when no item comes twice
                i, j = z3.Int(self.freshname('q')), z3.Int(self.freshname('q'))
                with self.noforking(z3.And(0 <= i, i < num_term(s.n), 0 <= j, j < i), [i, j]):
                    same = tz(veq(s.at(SInt(i)), s.at(SInt(j))))
                self.assume(n.t <= num_term(s.n))
                self.assume((n.t == num_term(s.n)) == z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < num_term(s.n), 0 <= j, j < i), z3.Not(same))))
            m.n = n
        return m.n

    def obj_eq(self, a, b):
        if a is b:
            return True
        if self.obj_eq_hook:
            return self.obj_eq_hook(self, a, b)
        raise Unsupported("equality of objects %r, %r" % (a, b))

    # ------------------------------------------------------------ obligations
    def prove(self, name, goal, timeout=None):
        """-> True if proved.  Records the obligation."""
        if isinstance(goal, SBool):
            goal = goal.t
        if not self.checking:
            return True
        t0 = time.time()
        if goal is True or (not isinstance(goal, bool) and z3.is_true(z3.simplify(goal))):
            self.obls.append(Obl(name, 'proved', 'simplifier', time.time() - t0))
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        status, backend, model = self.decide(goal, timeout or self.timeout_ms)
        self.obls.append(Obl(name, status, backend, time.time() - t0, model, tuple(self.taken),
                             detail='' if status == 'proved' else str(z3.simplify(goal))[:1500]))
        return status == 'proved'

    def decide(self, goal, timeout):
        if z3.is_and(goal):
            worst = ('proved', 'z3', None)
            for c in goal.children():
                r = self.decide(c, timeout)
                if r[0] != 'proved':
                    return r
                worst = r if r[1] != 'z3' else worst
            return worst
        r, m = self._check([z3.Not(goal)], timeout)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', m
        # a fresh, non-incremental solver
        t0 = time.time()
        for mk in (lambda: z3.SolverFor('AUFLIRA'), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = mk()
                s.set('timeout', timeout)
                for c in self.asserts:
                    s.add(c)
                s.add(z3.Not(goal))
                r = s.check()
                self.stats['checks'] += 1
                if r == z3.unsat:
                    self.stats['solver_s'] += time.time() - t0
                    return 'proved', 'z3-fresh', None
            except z3.Z3Exception:
                pass
        self.stats['solver_s'] += time.time() - t0
        r = self.cvc5(goal, timeout)
        if r == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3+cvc5', None

    def cvc5(self, goal, timeout):
        t0 = time.time()
        s = z3.Solver()
        for c in self.asserts:
            s.add(c)
        s.add(z3.Not(goal))
        text = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(text)
            p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % max(2000, timeout), path], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, universal_newlines=True, timeout=timeout / 1000.0 + 10)
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(path)
            self.stats['checks'] += 1
            self.stats['solver_s'] += time.time() - t0

    def fail(self, name, detail=''):
        """an obligation that is false on this (feasible) path"""
        if not self.checking:
            return
        r, m = self._check([], self.timeout_ms)
        if r == z3.unsat:
            return
        self.obls.append(Obl(name, 'refuted' if r == z3.sat else 'unknown', 'z3', 0.0, m, tuple(self.taken), detail))

    # ------------------------------------------------------------ exploration
    def explore(self, run, time_limit=None):
        """run(self) executes one path.  Explores until the candidate sets are stable, then with obligations."""
        prev = sym.CUR[0]
        sym.CUR[0] = self
        try:
            restarts = 0
            self.checking = True
            while True:
                self.obls = []
                self.work = [()]
                self.stats['paths'] = 0
                self.unsettled = []
                restarted = False
                while self.work:
                    if self.stats['paths'] >= self.max_paths:
                        raise Budget("more than %d paths" % self.max_paths)
                    if self.deadline and time.process_time() > self.deadline:
                        raise Budget("time budget of this contract exhausted")
                    dec = self.work.pop()
                    self.stats['paths'] += 1
                    self.start_path(dec)
                    try:
                        run(self)
                    except PathEnd:
                        pass
                    except Restart as r:
                        # the paths through this loop are explored again in the next round; the others go on
                        restarted = True
                        restarts += 1
                        self.stats['restarts'] = restarts
                        if restarts > 400:
                            raise Budget("loop invariants do not stabilise")
                        key = r.args[0]
                        self.unsettled.append(key)
                        if len(r.args) == 1:
                            # what is known here changed: the loops behind and inside this one start over
                            for other, info in self.loops.items():
                                if len(other) > len(key) and other[:len(key)] == key:
                                    info.entry_checked, info.dead = {}, set()
                        self.work = [d for d in self.work if tuple(d[:len(key)]) != key]
                        self.checking = False
                if restarted:
                    self.checking = False
                    continue
                if not self.checking:
                    self.checking = True
                    continue
                return self.obls
        finally:
            sym.CUR[0] = prev

    # ------------------------------------------------------------ writes
    def on_write(self, obj, key=None):
        if self.ctx:
            raise NoFork("mutation under a binder")
        if obj.frozen and obj not in self.frame_ok:
            self.fail("frame: %s is not modified" % (obj.label or 'argument',))
            raise PathEnd()
        self.wrote(('h', obj.serial) if key is None else ('k', obj.serial, key))

    def wrote(self, loc):
        whole = ('h', loc[1])
        for ctx in self.loopstack:
            if loc[1] <= ctx.serial and loc not in ctx.info.mods and not (loc[0] == 'k' and whole in ctx.info.mods):
                ctx.new.add(loc)

    def add_ghost_seq(self, r):
        if not self.ctx and not any(r is g for g in self.ghost_seqs):
            self.ghost_seqs.append(r)

    def prefixes(self):
        """the reference's universal statements, about the first k items or keys"""
        return ([lambda k, lo=lo, fn=fn: self.forall_ints(lo, lo + k, fn) for lo, hi, fn in self.ghost_alls] +
                [lambda k, m=m, fn=fn, kk=kk: self.forall_keys(m, k, fn, kk) for m, fn, kk in self.ghost_keyalls])

    def laid_over(self, v0, g, src, k):
        if v0.items is not None and v0.items:
            raise Unsupported("overlay on a literal map")

        def new(q):
            return zand(src.has(q), zbool(src.idx(q) < k), g.has(q))
        if v0.items == {}:
            return SMap(new, g.get, None, None, kk=g.kk, vk=None)

        def get(q):
            n = new(q)
            with self.noforking(tz(n)):
                x = g.get(q)
            with self.noforking(tz(znot(n))):
                y = v0.get(q)
            return vite(n, x, y)
        return SMap(lambda q: zor(new(q), v0.has(q)), get, None, None, kk=g.kk, vk=None)

    def forall_ints(self, lo, hi, fn):
        j = z3.Int(self.freshname('q'))
        rng = z3.And(num_term(lo) <= j, j < num_term(hi))
        with self.noforking(rng, [j]):
            body = zbool(fn(SInt(j)))
        return True if body is True else z3.ForAll([j], z3.Implies(rng, tz(body)))

    def forall_keys(self, m, k, fn, kk):
        """fn for the first k keys of m"""
        kv = z3.Const(self.freshname('qk'), sym.kind_sort(kk))
        q = sym.wrap(kk, kv)
        with self.noforking(z3.BoolVal(True), [kv]):
            body = zbool(fn(q))
            pre = zand(m.has(q), zbool(m.idx(q) < k))
        return z3.ForAll([kv], z3.Implies(tz(pre), tz(body)))

    # ------------------------------------------------------------ loops
    def loc_get(self, loc):
        if loc[0] == 'v':
            return self.objs[loc[1]].locals.get(loc[2], UNBOUND)
        o = self.objs[loc[1]]
        if loc[0] == 'k':
            if isinstance(o, SObj):
                return o.attrs.get(loc[2], UNBOUND)
            if o._m.items is None:
                raise Unsupported("entry of a symbolic map")
            return o._m.items.get(loc[2], UNBOUND)
        return o

    def loc_set(self, loc, v):
        if loc[0] == 'v':
            self.objs[loc[1]].locals[loc[2]] = v
        elif loc[0] == 'k':
            o = self.objs[loc[1]]
            d = dict(o.attrs if isinstance(o, SObj) else o._m.items)
            d.pop(loc[2], None) if v is UNBOUND else d.__setitem__(loc[2], v)
            if isinstance(o, SObj):
                o.attrs = d
            else:
                o._m = SMap(items=d)
        else:
            o = self.objs[loc[1]]
            if isinstance(o, LList):
                o._seq = toseq(v)
            elif isinstance(o, (LDict, LSet)):
                o._m = tomap(v) if not isinstance(v, LSet) else v._m
            elif isinstance(o, SObj):
                o.attrs = dict(v)
            else:
                raise Unsupported("havoc of %r" % (o,))

    def shape(self, v):
        if v is UNBOUND:
            return ('unbound',)
        if v is None:
            return ('none',)
        if isinstance(v, (SBool, bool)):
            return ('bool',)
        if isinstance(v, (SInt, int)):
            return ('int',)
        if isinstance(v, (SReal, float)):
            if sym.isspecial(v):
                return ('const', repr(v))
            return ('real',)
        if isinstance(v, (SStr, str)):
            return ('str',)
        if isinstance(v, SA):
            return ('A', v.t.sort().name())
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.shape(x) for x in v)
        if isinstance(v, LList):
            s = v._seq
            if s.items is not None:
                out = ('bot',)
                for x in s.items:
                    out = self.join(out, self.shape(x))
                return ('list', out)
            if s.kind is not None:
                return ('list', self.kind_shape(s.kind))
            with self.noforking(z3.BoolVal(True)):
                return ('list', self.shape(s.at(SInt(z3.Int('shape!')))))
        if isinstance(v, LDict):
            m = v._m
            if m.items is not None and all(isinstance(k, str) for k in m.items) and m.items:
                return ('rec', tuple(sorted((k, self.shape(x)) for k, x in m.items.items())))
            kk = self.kind_shape(m.kk) if m.kk is not None else ('bot',)
            if m.items is not None:
                vs = ('bot',)
                for k, x in m.items.items():
                    kk = self.join(kk, self.shape(k))
                    vs = self.join(vs, self.shape(x))
                return ('map', kk, vs)
            if m.vk is not None:
                return ('map', kk, self.kind_shape(m.vk))
            with self.noforking(z3.BoolVal(True)):
                return ('map', kk, self.shape(m.get(sym.wrap(m.kk, z3.Const('shapek!', sym.kind_sort(m.kk))))))
        return ('obj', id(v))

    def kind_shape(self, k):
        if k == 'none':
            return ('none',)
        if isinstance(k, str):
            return (k,)
        if k[0] == 'A':
            return k
        if k[0] == 'list':
            return ('list', self.kind_shape(k[1]))
        if k[0] == 'tuple':
            return ('tuple',) + tuple(self.kind_shape(x) for x in k[1:])
        if k[0] == 'map':
            return ('map', self.kind_shape(k[1]), self.kind_shape(k[2]))
        if k[0] == 'rec':
            return ('rec', tuple(sorted((f, self.kind_shape(x)) for f, x in k[1].items())))
        return ('obj', repr(k))

    def shape_kind(self, s):
        if s[0] in ('int', 'real', 'bool', 'str', 'none'):
            return s[0]
        if s[0] == 'A':
            return s
        if s[0] == 'list':
            return ('list', self.shape_kind(s[1]) if s[1] != ('bot',) else 'int')
        if s[0] == 'tuple':
            return ('tuple',) + tuple(self.shape_kind(x) for x in s[1:])
        if s[0] == 'map':
            return ('map', self.shape_kind(s[1]) if s[1] != ('bot',) else 'str', self.shape_kind(s[2]) if s[2] != ('bot',) else 'int')
        if s[0] == 'rec':
            return ('rec', {k: self.shape_kind(x) for k, x in s[1]})
        raise Unsupported("havoc of shape %r" % (s,))

    def join(self, a, b):
        """least common shape or None"""
        if a == b:
            return a
        if a == ('bot',):
            return b
        if b == ('bot',):
            return a
        if {a, b} == {('int',), ('real',)}:
            return ('real',)
        if {a[0], b[0]} <= {'obj', 'anyobj', 'unbound'}:
            return ('anyobj',)
        if a[0] == b[0] == 'list':
            j = self.join(a[1], b[1])
            return ('list', j) if j else None
        if a[0] == b[0] == 'tuple' and len(a) == len(b):
            js = [self.join(x, y) for x, y in zip(a[1:], b[1:])]
            return ('tuple',) + tuple(js) if all(js) else None
        if a[0] == b[0] == 'map':
            x, y = self.join(a[1], b[1]), self.join(a[2], b[2])
            return ('map', x, y) if x and y else None
        if a[0] == b[0] == 'rec' and [k for k, _ in a[1]] == [k for k, _ in b[1]]:
            js = [(k, self.join(x, y)) for (k, x), (_, y) in zip(a[1], b[1])]
            return ('rec', tuple(js)) if all(j for _, j in js) else None
        if {a[0], b[0]} == {'rec', 'map'}:
            r, m = (a, b) if a[0] == 'rec' else (b, a)
            vs = m[2]
            for _, x in r[1]:
                vs = self.join(vs, x)
                if vs is None:
                    return None
            kk = self.join(m[1], ('str',))
            return ('map', kk, vs) if kk else None
        return None

    def add_shape(self, shapes, s):
        """-> new frozenset of shapes with s included (joined where possible)"""
        for t in shapes:
            if t == s:
                return shapes
        for t in shapes:
            j = self.join(t, s)
            if j is not None:
                if j == t:
                    return shapes
                return self.add_shape(frozenset(x for x in shapes if x != t), j)
        return shapes | frozenset([s])

    # candidates ------------------------------------------------------------
    def second_on(self, info, n, cond):
        """the reference's folds and sequences that this loop can follow from their second item on (one step ahead of k)"""
        if not self.generic:
            return [], []
        if getattr(info, 'ahead', None) is None:
            one = lambda m: cond is not None or n is not None and not (isinstance(n, int) and isinstance(m, int)) and self.holds(zbool(n + 1 == m) if isinstance(n, Sym) or isinstance(m, Sym) else n + 1 == m, 500)
            info.ahead = ([gi for gi, g in enumerate(self.ghosts) if getattr(g, 'comps', None) is None and hasattr(g, 'unfold') and one(g.n)],
                          [gi for gi, g in enumerate(self.ghost_seqs) if one(g._seq.n)])
        return info.ahead

    def candidates(self, info, k0vals, depth, ks, ahead=((), ())):
        """-> ({loc: [(id, fn(k)->value)]}, [(id, fn(k)->z3 bool)])"""
        defs, preds = {}, []
        owned = {gi for c in self.loopstack for gi in c.owned}
        for loc in sorted(info.mods, key=repr):
            v0 = k0vals[loc]
            ds = defs.setdefault(loc, [])
            if v0 is UNBOUND:
                continue
            if loc[0] == 'v' and isinstance(v0, (LList, LDict, LSet, SObj)):
                ds.append((('sameobj', loc), lambda k, v0=v0: v0))
            sh = self.shape(v0)
            steps = [(not (loc[0] != 'h' and nm.split(':')[-1] == loc[2]), gi, nm) for gi, g in enumerate(self.ghosts) if gi not in owned
                     for nm, kd in (getattr(g, 'comps', None) or {}).items() if self.join(self.kind_shape(kd), sh)]
            for _, gi, nm in sorted(steps, key=lambda t: t[0]):
                ds.append((('fold', gi, nm, loc), lambda k, g=self.ghosts[gi], nm=nm: g.comp(nm, k)))
            for gi, g in enumerate(self.ghosts):
                if getattr(g, 'comps', None) is not None:
                    continue
                gs = self.kind_shape(g.kind)
                if self.join(gs, sh):
                    ds.append((('fold', gi, loc), lambda k, g=g: g.at(k)))
            for gi in ahead[0]:
                if self.join(self.kind_shape(self.ghosts[gi].kind), sh):
                    ds.append((('fold+1', gi, loc), lambda k, g=self.ghosts[gi]: g.at(k + 1)))
            if sh[0] == 'list':
                for gi in ahead[1]:
                    ds.append((('seq+1', gi, loc), lambda k, g=self.ghost_seqs[gi]: LList(g._seq.slice(0, k + 1))))
            for fi, g in enumerate(self.ghost_fams):
                # a loop inside a loop: the fold belonging to the outer iteration
                if self.join(self.kind_shape(g.kind), sh):
                    for ci, c in reversed(list(enumerate(ks))):
                        ds.append((('fam', fi, ci, loc), lambda k, g=g, c=c: g.at(c, k)))
            if sh[0] == 'list':
                for gi, g in enumerate(self.ghost_seqs):
                    ds.append((('seq', gi, loc), lambda k, g=g: LList(g._seq.slice(0, k))))
                    if self.generic and isinstance(v0, LList) and v0._seq.items is None:
                        # a copy whose items are replaced one by one
                        ds.append((('inplace', gi, loc), lambda k, g=g, s0=v0._seq:
                                   LList(SSeq(s0.n, lambda i: vite(zbool(i < k), g._seq.at(i), s0.at(i))))))
            if isinstance(v0, (SInt, int)) and not isinstance(v0, bool):
                ds.append((('inc', loc), lambda k, v0=v0: v0 + k))
                ds.append((('dec', loc), lambda k, v0=v0: v0 - k))
            if isinstance(v0, (Sym, int, bool, float, str, tuple)) or v0 is None:
                ds.append((('same', loc), lambda k, v0=v0: v0))
            elif isinstance(v0, LList) and loc[0] == 'h':
                s0 = v0._seq
                ds.append((('same', loc), lambda k, s0=s0: LList(s0)))
            elif isinstance(v0, LDict) and loc[0] == 'h':
                s0 = v0._m
                ds.append((('same', loc), lambda k, s0=s0: LDict(s0)))
            elif isinstance(v0, (LList, LDict)) and loc[0] == 'k':
                ds.append((('same', loc), lambda k, v0=v0: v0))
            if self.autocands:
                if sh == ('int',):
                    preds.append((('ge0', loc), lambda k, loc=loc: zbool(self.loc_get(loc) >= 0)))
                    if self.generic:
                        preds.append((('gem1', loc), lambda k, loc=loc: zbool(self.loc_get(loc) >= -1)))
                    preds.append((('geinit', loc), lambda k, loc=loc, v0=v0: zbool(self.loc_get(loc) >= v0)))
                    preds.append((('lek', loc), lambda k, loc=loc: zbool(self.loc_get(loc) <= k)))
                if sh[0] == 'list':
                    n0 = v0._seq.n
                    preds.append((('lenk', loc), lambda k, loc=loc, n0=n0: veq(toseq(self.loc_get(loc)).n, n0 + k)))
                    preds.append((('lensame', loc), lambda k, loc=loc, n0=n0: veq(toseq(self.loc_get(loc)).n, n0)))
                    preds.append((('lenle', loc), lambda k, loc=loc, n0=n0: zbool(toseq(self.loc_get(loc)).n <= n0 + k)))
            for gi, g in enumerate(self.ghosts if self.generic else ()):
                # one loop over what the reference does in two: first this fold, then the one that goes on from its end
                for gj, h in enumerate(self.ghosts):
                    if getattr(g, 'final', None) is not None and getattr(h, 'init', None) is g.final and self.join(self.kind_shape(g.kind), sh):
                        ds.append((('chain', gi, gj, loc), lambda k, g=g, h=h: g.at(k) if not isinstance(k, SInt) else vite(zbool(k <= g.n), g.at(k), h.at(k - g.n))))
            if self.generic and sh[0] == 'list':
                # a list the reference counts, or appends to something it made before
                for gi, g in enumerate(self.ghosts):
                    if getattr(g, 'comps', None) is not None:
                        continue
                    if g.kind == 'int':
                        preds.append((('lenfold', gi, loc), lambda k, loc=loc, g=g: veq(toseq(self.loc_get(loc)).n, g.at(k))))
                    elif isinstance(g.kind, tuple) and g.kind[0] == 'list' and isinstance(g.init, LList) and (g.init._seq.items is None or g.init._seq.items):
                        preds.append((('tail', gi, loc), lambda k, loc=loc, g=g: veq(g.at(k), LList(g.init._seq.concat(toseq(self.loc_get(loc)))))))
            if self.generic and isinstance(v0, LDict):
                # what was there before the loop, with the reference's entries for the first k keys of a map laid over it
                for gi, g in enumerate(self.ghost_maps + self.src_maps):
                    for si, src in enumerate(self.src_maps):
                        ds.append((('over', gi, si, loc), lambda k, g=g, src=src, v0=v0._m: LDict(self.laid_over(v0, g, src, k))))
            if self.generic and depth == 0 and sh[0] in ('bool', 'int', 'list'):
                for gi, f in enumerate(self.prefixes()):
                    if sh[0] == 'bool':
                        preds.append((('flag', gi, loc), lambda k, loc=loc, f=f: veq(self.loc_get(loc), mkbool(f(k)))))
                        preds.append((('noflag', gi, loc), lambda k, loc=loc, f=f: veq(self.loc_get(loc), mkbool(znot(f(k))))))
                    elif sh[0] == 'int':
                        preds.append((('zero', gi, loc), lambda k, loc=loc, f=f: veq(mkbool(zbool(self.loc_get(loc) == 0)), mkbool(f(k)))))
                    else:
                        preds.append((('empty', gi, loc), lambda k, loc=loc, f=f: veq(mkbool(veq(toseq(self.loc_get(loc)).n, 0)), mkbool(f(k)))))
        if self.generic and depth == 0:
            for gi, (lo, hi, fn) in enumerate(self.ghost_alls):
                preds.append((('all<', gi), lambda k, lo=lo, hi=hi, fn=fn: self.forall_ints(lo, lo + k, fn)))
                preds.append((('all>', gi), lambda k, lo=lo, hi=hi, fn=fn: self.forall_ints(hi - k, hi, fn)))
            for gi, (m, fn, kk) in enumerate(self.ghost_keyalls):
                preds.append((('keys<', gi), lambda k, m=m, fn=fn, kk=kk: self.forall_keys(m, k, fn, kk)))
        for gi, g in enumerate(self.ghosts):
            if hasattr(g, 'meaning') and gi not in owned:
                preds.append((('meaning', gi), g.meaning))
                for c in g.comps if g.looping else ():
                    preds.append((('unch', gi, c), lambda k, g=g, c=c: veq(g.comp(c, k), g.comp(c, 0))))
        if self.inv:
            for c in self.inv(depth):
                c.expand(self, info, ks, preds, defs, k0vals)
                if ahead[0]:
                    c.ahead().expand(self, info, ks, preds, defs, k0vals)
        defs = {loc: [d for d in ds if d[0] not in info.dead] for loc, ds in defs.items()}
        preds = [p for p in preds if p[0] not in info.dead]
        return defs, preds

    def holds(self, f, timeout=1500):
        if isinstance(f, SBool):
            f = f.t
        if isinstance(f, bool):
            return f
        fs = z3.simplify(f)
        if z3.is_true(fs):
            return True
        if z3.is_false(fs):
            r, _ = self._asked([], 300)
            return r == z3.unsat
        if z3.is_and(f):
            return all(self.holds(c, timeout) for c in f.children())
        r, _ = self._asked([z3.Not(f)], timeout)
        return r == z3.unsat

    def alike(self, a, b):
        """values of one type (True == 1 in Python, but one does not stand for the other)"""
        try:
            with self.noforking(z3.BoolVal(True)):
                return self.join(self.shape(a()), self.shape(b())) is not None
        except (NoFork, Unsupported):
            return False

    def safe(self, fn):
        """evaluate a candidate: False when it does not apply"""
        try:
            with self.noforking(z3.BoolVal(True)):
                return fn()
        except (Unsupported, NoFork, AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception, PyRaise, Restart) as err:
            if os.environ.get('VDBG'):
                import sys
                print('candidate n/a: %r' % (err,)[:1], file=sys.stderr)
            return False

    def cut_loop(self, frame, n, bind, body, orelse, cond=None, after=None):
        """the loop rule.  n: iteration count (for) or None (while, then cond() evaluates the test)"""
        if self.ctx:
            raise NoFork("loop under a binder")
        key = tuple(self.taken)
        info = self.loops.get(key)
        if info is None:
            info = self.loops[key] = LoopInfo(key)
        depth = len(self.loopstack)
        ks = [c.k for c in self.loopstack]
        # the numbers of the objects made from here on do not depend on which candidates are still alive
        base = self.serial
        vals = {}
        for loc in info.mods:
            v = self.loc_get(loc)
            vals[loc] = v if loc[0] != 'h' else snapshot(v)
            sh = self.add_shape(info.mods[loc], self.shape(v))
            if sh != info.mods[loc]:
                info.mods[loc] = sh
        ahead = self.second_on(info, n, cond)
        defs, preds = self.candidates(info, vals, depth, ks, ahead)
        for gi in ahead[0]:
            self.ghosts[gi].unfold(0)
        # initiation
        for g in self.ghosts:
            if hasattr(g, 'init_at'):
                g.init_at(self)
        for loc in list(defs):
            keepd = []
            for d in defs[loc]:
                if d[0] not in info.entry_checked:
                    info.entry_checked[d[0]] = d[0][0] == 'sameobj' or self.holds(self.safe(lambda: veq(self.loc_get(loc), d[1](0))))
                if info.entry_checked[d[0]]:
                    keepd.append(d)
                else:
                    info.dead.add(d[0])
            defs[loc] = keepd
        keepp = []
        for p in preds:
            if p[0] not in info.entry_checked:
                info.entry_checked[p[0]] = self.holds(self.safe(lambda: p[1](0)))
            if info.entry_checked[p[0]]:
                keepp.append(p)
            else:
                info.dead.add(p[0])
        tied = {d[0][0][1] for d in defs.values() if d and d[0][0][0] == 'fold'}
        preds = [p for p in keepp if p[0][0] not in ('meaning', 'unch') or p[0][1] in tied or not self.ghosts[p[0][1]].looping]
        # the reference loops this loop follows: not for the loops inside it
        owned = tied | {gi for c in self.loopstack for gi in c.owned}
        mode = self.choose(2)
        if cond is None and mode == 1:
            k = n
        else:
            k = fresh('int', 'k')
            self.assume(k.t >= 0)
            if cond is None:
                self.assume(k.t < num_term(n))
        ctx = LoopCtx(info, base, k)
        ctx.owned = owned
        # havoc
        self.stats['loops'] += 1
        for loc in sorted(info.mods, key=repr):
            self.serial = base + 10000 * (2 + info.slots.setdefault(loc, len(info.slots)))
            if defs.get(loc):
                v = defs[loc][0][1](k)
                self.loc_set(loc, v if defs[loc][0][0][0] == 'sameobj' else self.rewrap(v, vals[loc], loc))
                continue
            if vals[loc] is UNBOUND and loc[0] == 'v':
                self.loc_set(loc, UNBOUND)
                continue
            shapes = sorted(info.mods[loc], key=repr)
            s = shapes[0] if len(shapes) == 1 else shapes[self.choose(len(shapes))]
            self.loc_set(loc, self.havoc_value(s, loc, vals[loc]))
        said = set()
        for p in preds:
            f = self.safe(lambda: p[1](k))
            if f is False:
                info.dead.add(p[0])
                raise Restart(info.key)
            if z3.is_expr(f):
                # the same statement from two sources: one copy is enough
                text = BOUND.sub(r'\1', f.sexpr())
                if text in said:
                    continue
                said.add(text)
            self.assume(f)
        for gi, g in enumerate(self.ghosts):
            if getattr(g, 'comps', None) is not None and gi in tied:
                g.unfold(k)
        self.serial = base + 10**8
        if mode == 1:
            if cond is not None:
                if cond():
                    raise PathEnd()
            orelse()
            return
        for g in self.ghosts:
            if hasattr(g, 'unfold') and getattr(g, 'comps', None) is None:
                g.unfold(k)
        for gi in ahead[0]:
            self.ghosts[gi].unfold(k + 1)
        for g in self.ghost_fams:
            for c in ks:
                g.unfold(c, k)
                g.unfold(k, c)
        for ds in defs.values():
            if ds and ds[0][0][0] == 'chain':
                g, h = self.ghosts[ds[0][0][1]], self.ghosts[ds[0][0][2]]
                with self.noforking(k.t >= num_term(g.n)):
                    h.unfold(k - g.n)
        self.serial = base + 10**8
        self.loopstack.append(ctx)
        try:
            if cond is not None:
                if not cond():
                    raise PathEnd()
            bind(k)
            try:
                body()
            except ContinueEx:
                pass
            over = after is not None and after()
        except BreakEx:
            self.flush(ctx)
            self.loopstack.remove(ctx)
            return
        except (PyRaise, ReturnEx):
            self.flush(ctx)
            self.loopstack.remove(ctx)
            raise
        except (Restart, PathEnd, Unsupported, Budget, NoFork):
            self.flush(ctx)
            raise
        self.flush(ctx)
        self.loopstack.remove(ctx)
        if over:
            orelse()
            return
        # end of the iteration: preservation; judged only once the loops inside are settled
        if any(len(d) > len(key) and d[:len(key)] == key for d in self.unsettled):
            raise Restart(key, 'wait')
        dirty = False
        k1 = SInt(k.t + 1)
        if os.environ.get('VDBG2'):
            import sys
            print('LOOP', self.name, 'locs', sorted(info.mods, key=repr), file=sys.stderr)
            for loc in defs:
                if defs[loc]:
                    print('   def', loc, defs[loc][0][0], 'now', self.loc_get(loc), 'want', self.safe(lambda: defs[loc][0][1](k1)), file=sys.stderr)
            for p in preds:
                print('   pred', p[0], file=sys.stderr)
        failing = []
        for loc in defs:
            if not defs[loc]:
                continue
            d = defs[loc][0]
            if d[0][0] == 'sameobj':
                # assigned on the way out of the loop only: the very same object, not an equal one
                if self.loc_get(loc) is not vals[loc]:
                    failing.append((1, d[0]))
                continue
            if not self.holds(self.safe(lambda: veq(self.loc_get(loc), d[1](k1)))) or not self.alike(lambda: self.loc_get(loc), lambda: d[1](k1)):
                if os.environ.get('VDBG2'):
                    import sys
                    f_ = self.safe(lambda: veq(self.loc_get(loc), d[1](k1)))
                    print('FAILING', loc, d[0], str(z3.simplify(f_) if z3.is_expr(f_) else f_)[:1500], 'shape', self.alike(lambda: self.loc_get(loc), lambda: d[1](k1)), file=sys.stderr)
                # a wrong guess about one location spoils the others: the least plausible ones go first
                fold = d[0][0] == 'fold' and len(d[0]) == 4
                failing.append((2 if fold and loc[0] != 'h' and d[0][2].split(':')[-1] == loc[2] else 0 if fold else 1, d[0]))
        for rank, i in failing:
            if rank == min(r for r, _ in failing):
                info.dead.add(i)
                dirty = True
        bad = {i for _, i in failing}
        wrong = {loc for loc in defs if defs[loc] and defs[loc][0][0] in bad}
        for loc in info.mods:
            v = self.loc_get(loc)
            try:
                sh = self.add_shape(info.mods[loc], self.shape(v))
            except (NoFork, Unsupported):
                if loc in wrong:
                    continue
                raise
            if sh != info.mods[loc]:
                info.mods[loc] = sh
                if not defs.get(loc):
                    dirty = True
        for p in preds if not failing else ():
            if not self.holds(self.safe(lambda: p[1](k1))):
                info.dead.add(p[0])
                dirty = True
        if dirty:
            raise Restart(info.key)
        raise PathEnd()

    def flush(self, ctx):
        if ctx.new:
            for loc in ctx.new:
                ctx.info.mods[loc] = frozenset()
            ctx.info.entry_checked = {}
            ctx.info.dead = {d for d in ctx.info.dead if d[0] not in ('meaning', 'unch') and not (d[0] == 'fold' and len(d) == 4)}
            raise Restart(ctx.info.key)

    def rewrap(self, v, v0, loc):
        if loc[0] == 'k' and isinstance(v, (LList, LDict)):
            c = LList(v._seq) if isinstance(v, LList) else LDict(v._m)
            c.frozen, c.label = getattr(v0, 'frozen', False), getattr(v0, 'label', None)
            return c
        if isinstance(v, LList) and loc[0] == 'v':
            return LList(v._seq, pytype=v0.pytype if isinstance(v0, LList) else list)
        if isinstance(v, LDict) and loc[0] == 'v':
            return LDict(v._m)
        return v

    def havoc_value(self, s, loc, v0):
        if s[0] in ('unbound', 'anyobj'):
            if s[0] == 'anyobj' and loc[0] == 'k':
                raise Unsupported("loop assigns an object attribute")
            return UNBOUND
        if s[0] == 'const':
            return float(s[1])
        if s[0] == 'obj':
            if self.shape(v0) == s:
                return v0
            raise Unsupported("loop assigns an object variable")
        if loc[0] == 'h' and isinstance(v0, LSet):
            return LDict(fresh(('map', self.shape_kind(self.kind_shape(v0._m.kk)), 'bool'), 'hv')._m)
        v = fresh(self.shape_kind(s), 'hv.%s' % (loc[2] if loc[0] != 'h' else 'heap'), ())
        if isinstance(v, LDict) and v._m.keyseq is not None:
            pass
        return v


def snapshot(o):
    if isinstance(o, LList):
        c = LList(o._seq, pytype=o.pytype)
        return c
    if isinstance(o, LDict):
        return LDict(o._m)
    if isinstance(o, LSet):
        return LSet(o._m)
    if isinstance(o, SObj):
        return SObj(o.cls, dict(o.attrs))
    return o


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Inv(object):
    """a contract-supplied loop-invariant candidate.

    fn(k, *roles) -> boolean.  `kinds` gives, per role, the shape names of the
    modified locations it may bind to ('int', 'list', 'bool', 'real', 'A', 'map',
    'tuple', '*'); it is tried on every combination, so it does not depend on
    variable names.  With kinds=() it only speaks about k and the parameters.
    level: None = any loop, otherwise the nesting depth it applies to.  When
    `outer` the function receives the list of the enclosing loops' counters."""

    def __init__(self, name, fn, kinds=(), level=None, outer=False, defn=False):
        self.name, self.fn, self.kinds, self.level, self.outer, self.defn = name, fn, kinds, level, outer, defn

    def ahead(self):
        return Inv(self.name + ' (from the second)', lambda k, *a: self.fn(k + 1, *a), self.kinds, self.level, self.outer, self.defn)

    def expand(self, eng, info, ks, preds, defs, vals):
        if self.level is not None and self.level != len(ks):
            return
        pre = (list(ks),) if self.outer else ()
        if self.defn:
            for loc in info.mods:
                if vals[loc] is UNBOUND:
                    continue
                # what starts as None goes by what is stored in it later
                shapes = {eng.shape(vals[loc])[0]} if vals[loc] is not None else {s[0] for s in info.mods[loc]}
                if shapes & set(self.kinds[0].split('|')):
                    defs[loc].insert(0, (('def', self.name, loc), lambda k: self.fn(k, *pre)))
            return
        import itertools
        locs = []
        for kd in self.kinds:
            kk = kd.split('|')
            cand = []
            for loc in sorted(info.mods, key=repr):
                shapes = {s[0] for s in info.mods[loc]}
                if vals[loc] is not UNBOUND:
                    shapes.add(eng.shape(vals[loc])[0])
                if '*' in kk or shapes & set(kk):
                    cand.append(loc)
            locs.append(cand)
        for combo in itertools.islice(itertools.product(*locs), 60):
            if len(set(combo)) != len(combo):
                continue
            preds.append(((self.name, combo),
                          lambda k, combo=combo: zbool(self.fn(k, *(pre + tuple(eng.loc_get(l) for l in combo))))))
