"""Stand-ins for the engine-supplied arguments of library functions."""
import random

import titus.datatype
from titus.errors import PFARuntimeException


class TypeParser(object):
    """the type parser of the engine: the type described by a JSON text"""
    _vc_native = False

    def getAvroType(self, description):
        return titus.datatype.jsonNodeToAvroType(description)


class State(object):
    """ExecutionState as library functions see it"""
    _vc_native = False

    def __init__(self, seed=0):
        self.rand = random.Random(seed)
        self.parser = TypeParser()

    def checkTime(self):
        return None


class Rand(object):
    """the random number generator of the engine; its draws are arbitrary during verification"""
    _vc_native = False

    def shuffle(self, x):
        raise NotImplementedError


class Callback(object):
    """adapter: a pure Python function seen as a PFA library function"""

    def __init__(self, f):
        self.f = f

    def __call__(self, state, scope, pos, paramTypes, *args):
        return self.f(*args)


class ThunkObj(object):
    """an argument expression: it may raise a PFA error instead of having a value"""

    def __init__(self, raises, code, value):
        self.raises, self.code, self.value = raises, code, value

    def __call__(self):
        if self.raises:
            raise PFARuntimeException("argument", self.code, "argument", None)
        return self.value

    def __repr__(self):
        return 'raise %d' % self.code if self.raises else 'value %r' % (self.value,)


class World(object):
    """everything outside the engine: the history of calls (w), whether the time was checked since the last loop body, locks"""

    def __init__(self, w, elapsed=0.0, timed=False):
        self.w, self.pending, self.late, self.held, self.published = w, False, False, 0, {}
        self.elapsed, self.ticks, self.timed, self.interf = elapsed, False, timed, None


def tick(world):
    """the clock: stands still, except that it jumps once when `timed`"""
    world.pending = False
    if world.timed:
        if world.ticks:
            return 1000.0 + world.elapsed
        world.ticks = True
    return 1000.0


def stubcall(opaque, world, args):
    """native runs; during verification this call is the opaque function itself"""
    f, r, w = opaque.apply(args, world.w)
    if f:
        from titus.errors import PFAUserException
        raise PFAUserException('stub ' + opaque.name, opaque.code, None)
    world.w = w
    if opaque.loop:
        if world.pending:
            world.late = True
        world.pending = True
    return r


class Clause(object):
    """a user function of the engine"""

    def __init__(self, opaque, paramNames, world):
        self.opaque, self.paramNames, self.world = opaque, list(paramNames), world

    def __call__(self, state, scope):
        return stubcall(self.opaque, self.world, [scope.get(p) for p in self.paramNames])


class Logger(object):
    def __init__(self, world, opaque):
        self.world, self.opaque = world, opaque

    def __call__(self, message, namespace):
        return stubcall(self.opaque, self.world, [namespace or ''] + list(message))


class Emitter(object):
    def __init__(self, world, opaque):
        self.world, self.opaque = world, opaque

    def __call__(self, x):
        return stubcall(self.opaque, self.world, [x])


class Deadlock(Exception):
    pass


class LockStub(object):
    """a lock in a program with other threads: on acquisition the protected value is whatever they left,
    on release what this thread wrote is published, after which they change it again"""

    def __init__(self, world, owner, name, other, after):
        self.world, self.owner, self.name, self.other, self.after, self.held = world, owner, name, other, after, False

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            raise Deadlock("lock acquired twice")
        self.held = True
        self.world.held = self.world.held + 1
        if self.owner is not None:
            self.owner.value = fresh_value(self.other)
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release of an unlocked lock")
        self.held = False
        self.world.held = self.world.held - 1
        if self.owner is not None:
            self.world.published[self.name] = self.world.published.get(self.name, []) + [fresh_value(self.owner.value)]
            self.owner.value = fresh_value(self.after)

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, a, b, c):
        self.release()
        return False


def fresh_value(v):
    """a pool's dictionary is updated in place, so each thread's version is a separate one"""
    return dict(v) if isinstance(v, dict) else v
