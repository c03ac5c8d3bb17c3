"""The points of a Python program at which other things can happen: those at
which the interpreter delivers signals and lets other threads run, i.e. calls
of Python functions, returns from built-in ones, and backward jumps."""
import gc
import os
import sys
import types

mon = sys.monitoring
TOOL = 3
EVENTS = mon.events.PY_START | mon.events.PY_RESUME | mon.events.CALL | mon.events.JUMP


class Points:
    """Calls `hook(where)` at every such point inside of the package, until
    it returns True: then that point is of no more interest."""

    codes = {}
    modules = 0

    def __init__(self, prefix):
        self.prefix = prefix
        self.hook = None
        self.names = {}
        self.over = set()
        self.installed = False

    def install(self):
        if self.installed:
            return
        mon.use_tool_id(TOOL, 'dst-points')
        mon.register_callback(TOOL, mon.events.PY_START, self._start)
        mon.register_callback(TOOL, mon.events.PY_RESUME, self._resume)
        mon.register_callback(TOOL, mon.events.CALL, self._call)
        mon.register_callback(TOOL, mon.events.C_RETURN, self._return)
        mon.register_callback(TOOL, mon.events.JUMP, self._jump)
        self.installed = True

    def collect(self):
        """Find the code of all functions of the package."""
        n = len(sys.modules)
        if n == Points.modules:
            return
        Points.modules = n

        def add(code):
            if code not in self.codes and code.co_filename.startswith(self.prefix):
                self.codes[code] = None
                for c in code.co_consts:
                    if isinstance(c, types.CodeType):
                        add(c)

        for f in gc.get_objects():
            if isinstance(f, types.FunctionType):
                add(f.__code__)

    def start(self, hook):
        self.install()
        self.collect()
        self.hook = hook
        self.over = set()
        mon.restart_events()
        for code in self.codes:
            mon.set_local_events(TOOL, code, EVENTS)

    def stop(self):
        if self.hook is not None:
            self.hook = None
            for code in self.codes:
                mon.set_local_events(TOOL, code, 0)

    def name(self, code, kind, offset):
        """Where a point is, or '' if it is outside of the package."""
        key = (code, kind, offset)
        found = self.names.get(key)
        if found is None:
            if code.co_filename.startswith(self.prefix):
                file = code.co_filename[len(self.prefix):]
                found = f"{file}:{code.co_firstlineno}:{code.co_qualname}:{kind}{offset}"
            else:
                found = ''
            self.names[key] = found
        return found

    def _start(self, code, offset):
        if self.hook and self.hook(self.name(code, 's', offset)):
            return mon.DISABLE
        return None

    def _resume(self, code, offset):
        if self.hook and self.hook(self.name(code, 'r', offset)):
            return mon.DISABLE
        return None

    def _call(self, code, offset, func, arg):
        if (code, offset) in self.over:
            return mon.DISABLE
        return None

    def _return(self, code, offset, func, arg):
        if self.hook and self.hook(self.name(code, 'c', offset)):
            self.over.add((code, offset))
        return None

    def _jump(self, code, offset, dest):
        if dest > offset:
            return mon.DISABLE
        if self.hook and self.hook(self.name(code, 'j', offset)):
            return mon.DISABLE
        return None


class Threads:
    """Runs functions as threads of which exactly one executes at any time;
    the plan says at which points another one continues."""

    STALL = 20.0

    def __init__(self, points):
        import _thread
        self.alloc = _REAL['lock'] or _thread.allocate_lock
        self.spawn = _thread.start_new_thread
        self.ident = _thread.get_ident
        self.points = points
        self.current = None
        self.alive = []
        self.waiting = {}
        self.switches = 0
        self.deadlock = None
        self.on_point = None
        self.idents = {}
        self.errors = []

    def run(self, bodies):
        """Run all bodies to their ends; False if they blocked each other."""
        self.gates = [self.alloc() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.done = self.alloc()
        self.done.acquire()
        self.alive = list(range(len(bodies)))

        def main(i):
            self.gates[i].acquire()
            self.idents[self.ident()] = i
            if self.deadlock:
                return
            try:
                bodies[i]()
            except BaseException as err:
                import traceback
                self.errors.append(''.join(traceback.format_exception(err)))
            finally:
                self.leave(i)

        for i in range(len(bodies)):
            self.spawn(main, (i,))
        global ACTIVE
        ACTIVE = self
        try:
            self.current = 0
            self.points.start(self.point)
            self.gates[0].release()
            self.done.acquire()
        finally:
            self.points.stop()
            ACTIVE = None
        return not self.deadlock

    def point(self, where):
        if self.on_point is not None and self.idents.get(self.ident()) == self.current:
            self.on_point(self.current, where)

    def leave(self, i):
        self.alive.remove(i)
        ready = [j for j in self.alive if j not in self.waiting]
        if ready:
            self.current = ready[0]
            self.gates[ready[0]].release()
        else:
            if self.alive:
                self.deadlock = 'threads wait for each other'
            self.done.release()

    def switch(self, to):
        """Let another thread continue (from the current one)."""
        me = self.current
        ready = [j for j in self.alive if j not in self.waiting]
        if to not in ready or to == me:
            return False
        self.switches += 1
        self.current = to
        self.gates[to].release()
        self.gates[me].acquire()
        return True

    def block(self, lock):
        """The current thread waits until a lock is released."""
        me = self.current
        self.waiting[me] = lock
        ready = [j for j in self.alive if j not in self.waiting]
        if not ready:
            self.deadlock = 'threads wait for each other'
            self.done.release()
            self.gates[me].acquire()    # for ever
        self.switches += 1
        self.current = ready[0]
        self.gates[ready[0]].release()
        self.gates[me].acquire()

    def wake(self, lock):
        for j in [j for j, l in self.waiting.items() if l is lock]:
            del self.waiting[j]


ACTIVE = None
_REAL = {'lock': None, 'rlock': None}


class SimLock:
    """A lock of the package under test."""

    def __init__(self, real, reentrant):
        self._real = real
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        threads = ACTIVE
        if threads is None or threads.ident() not in threads.idents:
            got = self._real.acquire(blocking, timeout)
            return got
        me = threads.current
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking or timeout == 0:
                return False
            threads.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        threads = ACTIVE
        if threads is None or threads.ident() not in threads.idents:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            threads.wake(self)

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._real.locked())

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install(prefix):
    """Make the locks that the package creates known to the simulator."""
    import threading
    if _REAL['lock'] is not None:
        return
    import _thread
    _REAL['lock'] = _thread.allocate_lock
    _REAL['rlock'] = _thread.RLock
    lock, rlock = threading.Lock, threading.RLock

    def mine():
        return sys._getframe(2).f_code.co_filename.startswith(prefix)

    def Lock():
        return SimLock(lock(), False) if mine() else lock()

    def RLock(*args, **kwargs):
        return SimLock(rlock(), True) if mine() else rlock(*args, **kwargs)

    threading.Lock = Lock
    threading.RLock = RLock
