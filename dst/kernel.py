"""The simulator kernel: processes, schedule, faults, clock and system calls.

Everything the code under test does with files, processes, clocks, random
names and locks arrives here. A run is a pure function of its plan: the fault
list, the preemption list and the seeds it contains.
"""
import builtins
import datetime as _datetime
import errno
import fcntl
import gc
import hashlib
import importlib
import io
import os
import random
import shutil
import signal
import stat as st
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from .fs import SimFS, oserr

FD0 = 1_000_000
ROOT = '/sim'
EPOCH = 1_700_000_000.0
FRESH = ('project', 'paths', 'etc', 'interfaces')


class SimStop(BaseException):
    """Base of the exceptions that end a simulated process."""


class ProcessKilled(SimStop):
    pass


class Deadlock(SimStop):
    pass


class StepLimit(SimStop):
    pass


class HarnessError(Exception):
    """The simulator itself is at fault."""


class OpenFile:
    __slots__ = ('node', 'pos', 'flags', 'proc', 'path', 'closed')

    def __init__(self, node, flags, proc, path):
        self.node = node
        self.pos = 0
        self.flags = flags
        self.proc = proc
        self.path = path
        self.closed = False


class Proc:
    """One simulated process."""

    def __init__(self, kernel, pid, cwd='/sim/home'):
        self.kernel = kernel
        self.pid = pid
        self.cwd = cwd
        self.dead = False
        self.op = -1
        self.k = 0
        self.persist = None     # a fault in force until the end of the operation
        self.out = []
        self.fds = {}
        self.modules = {}
        self.path = list(kernel.base_path)
        self.argv = ['python']
        self.thread = None
        self.sem = None
        self.state = 'new'      # new, ready, blocked, done
        self.waiting = None
        self.wake = None
        self.result = None
        self.error = None
        self.counts = []        # syscalls per operation

    def begin(self, op):
        self.op = op
        self.k = 0
        self.persist = None

    def end(self):
        self.persist = None


class Kernel:
    """A simulated machine."""

    TICK = 0.000_137

    def __init__(self, plan=None, max_steps=60_000):
        plan = plan or {}
        self.plan = plan
        self.seed = plan.get('seed', 0)
        self.rng = random.Random(f"kernel-{self.seed}")
        self.now = EPOCH + plan.get('t0', 0.0)
        self.mono = 0.0
        self.fs = SimFS(lambda: self.now)
        self.procs = []
        self.current = None
        self.next_pid = 100
        self.next_fd = FD0
        self.files = {}
        self.steps = 0
        self.max_steps = max_steps
        self.faults = {}
        for f in plan.get('faults', ()):
            self.faults[(f['proc'], f['op'], f['k'])] = f
        self.preempt = {int(s): c for s, c in plan.get('preempt', ())}
        self.multi = False
        self.driver = None
        self.log = []           # (pid, syscall, path) history
        self.fired = {}
        self.switches = 0
        self.escapes = []
        self.children = []      # launched simulated programs
        self.child_policy = None
        self.child_script = []  # results for the next launched programs
        self.readings = []      # (pid, op, step, timestamp) wall-clock readings
        self.deadlocked = False
        self.bufsize = plan.get('bufsize', 8192)
        self.base_path = None
        self.ops_seen = set()
        self.exec_hook = None
        self.overlay = {}

    # -- processes ---------------------------------------------------------------
    def spawn(self, cwd='/sim/home'):
        proc = Proc(self, self.next_pid, cwd)
        proc.index = len(self.procs)
        self.next_pid += 1
        self.procs.append(proc)
        return proc

    def enter(self, proc):
        """Make `proc` the running process (single-process mode)."""
        old = self.current
        if old is proc:
            return
        if old is not None:
            self._save(old)
        self.current = proc
        if proc is not None:
            self._restore(proc)

    def _save(self, proc):
        proc.path = list(sys.path)
        proc.argv = sys.argv
        pkg = sys.modules['eprempy']
        for name in FRESH:
            full = 'eprempy.' + name
            proc.modules[name] = sys.modules.pop(full, None)
            if name in pkg.__dict__:
                delattr(pkg, name)

    def _restore(self, proc):
        sys.path[:] = proc.path
        sys.argv = proc.argv
        pkg = sys.modules['eprempy']
        for name in FRESH:
            full = 'eprempy.' + name
            sys.modules.pop(full, None)
            if name in pkg.__dict__:
                delattr(pkg, name)
            mod = proc.modules.get(name)
            if mod is not None:
                sys.modules[full] = mod
                setattr(pkg, name, mod)

    def load(self):
        """Import the code under test afresh in the current process."""
        return importlib.import_module('eprempy.project')

    def kill(self, proc):
        """End `proc` without any clean-up by its own code."""
        proc.dead = True
        proc.state = 'done'
        for fd in list(proc.fds):
            self._close_fd(fd, proc.fds.get(fd))

    def exit(self, proc):
        """`proc` ends normally."""
        self.kill(proc)

    def _close_fd(self, fd, of):
        if of is None:
            return
        of.closed = True
        self.files.pop(fd, None)
        of.proc.fds.pop(fd, None)
        if of.node.locks:
            of.node.locks = [l for l in of.node.locks if l[0] is not of]
            self._wake()

    def power_loss(self, args):
        for proc in self.procs:
            if not proc.dead:
                self.kill(proc)
        rng = random.Random(f"pl-{args.get('fseed', 0)}")
        n = len(self.fs.journal)
        frac = args.get('cut', 1.0)
        cut = min(n, int(frac * (n + 1)))
        return self.fs.power_loss(cut, rng.randrange)

    # -- scheduling -----------------------------------------------------------------
    def runnable(self):
        return [p for p in self.procs if p.state in ('ready', 'sleeping')]

    def _wake(self):
        for p in self.procs:
            if p.state == 'blocked':
                p.state = 'ready'

    def _choose(self, me):
        """Decide which process runs next."""
        cands = self.runnable()
        if not cands:
            return None
        choice = self.preempt.get(self.steps)
        ready = [p for p in cands if p.state == 'ready']
        if choice is not None:
            nxt = cands[choice % len(cands)]
        elif me is not None and me.state == 'ready':
            nxt = me
        elif ready:
            nxt = ready[0]
        else:
            nxt = min(cands, key=lambda p: (p.wake, p.pid))
        if nxt.state == 'sleeping':
            if nxt.wake > self.mono:
                self.pass_time(nxt.wake - self.mono)
            nxt.state = 'ready'
        return nxt

    def switch(self):
        """Give the scheduler a chance to run somebody else."""
        if not self.multi:
            return
        me = self.current
        nxt = self._choose(me)
        if nxt is me:
            return
        if nxt is None:
            # everyone is blocked
            self.deadlocked = True
            for p in self.procs:
                if p.state == 'blocked':
                    p.dead = True
                    p.state = 'ready'
            if me.dead:
                raise Deadlock()
            return
        self.switches += 1
        self._hand(nxt)
        me.sem.acquire()
        self._resumed(me)

    def _hand(self, nxt):
        self._save(self.current)
        self.current = nxt
        nxt.sem.release()

    def _resumed(self, me):
        self._restore(me)
        if self.deadlocked and me.dead:
            raise Deadlock()

    def run_threads(self, bodies):
        """Run one body per process concurrently, one at a time."""
        self.multi = True
        self.driver = threading.Semaphore(0)
        threads = []
        procs = []
        for proc, body in bodies:
            proc.sem = threading.Semaphore(0)
            proc.state = 'ready'
            procs.append(proc)

            def main(proc=proc, body=body):
                proc.sem.acquire()
                proc.ident = threading.get_ident()
                try:
                    self._restore(proc)
                    proc.result = body(proc)
                except SimStop as err:
                    proc.error = err
                    if self.plan.get('debug'):
                        traceback.print_exc()
                except BaseException as err:    # harness or SUT escape
                    proc.error = err
                    proc.trace = traceback.format_exc()
                finally:
                    if not proc.dead:
                        self.exit(proc)
                    proc.state = 'done'
                    self._wake()
                    nxt = self._choose(None)
                    if nxt is None and any(
                        p.state == 'blocked' for p in procs
                    ):
                        self.deadlocked = True
                        for p in procs:
                            if p.state == 'blocked':
                                p.dead = True
                                p.state = 'ready'
                        nxt = self._choose(None)
                    if nxt is None:
                        self._save(proc)
                        self.current = None
                        self.driver.release()
                    else:
                        self._hand(nxt)

            t = threading.Thread(target=main, daemon=True)
            proc.thread = t
            threads.append(t)
            t.start()
        old = self.current
        if old is not None:
            self._save(old)
        first = self._choose(None)
        self.current = first
        first.sem.release()
        if not self.driver.acquire(timeout=300):
            raise HarnessError("simulated processes did not finish")
        for t in threads:
            t.join(60)
        self.multi = False
        self.current = None
        return procs

    # -- system call entry --------------------------------------------------------
    def mine(self):
        """Is the calling thread inside the simulation?"""
        return self.current is not None

    def call(self, name, path=None):
        """Account for one system call; return a fault to apply, or None."""
        p = self.current
        if p.dead:
            raise ProcessKilled()
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        p.k += 1
        self.pass_time(self.TICK)
        self.switch()
        if p.dead:
            raise ProcessKilled()
        self.log.append((p.index, name, path))
        fault = self.faults.get((p.index, p.op, p.k))
        if fault is not None:
            kind = fault['kind']
            if kind == 'crash':
                self.fire('crash')
                self.kill(p)
                raise ProcessKilled()
            if kind == 'power':
                self.fire('power')
                self.lost = self.power_loss(fault)
                raise ProcessKilled()
            if kind == 'clock':
                self.fire('clock')
                self.now += fault['delta']
                return None
            if kind in ('diskfull', 'denied', 'broken'):
                p.persist = kind
        if p.persist is not None:
            err = PERSIST[p.persist].get(name)
            if err is not None:
                self.fire(p.persist)
                raise oserr(err, path)
            return None
        if fault is not None:
            kind = fault['kind']
            if kind == 'err':
                codes = ERRORS.get(name)
                if codes:
                    code = codes[fault.get('pick', 0) % len(codes)]
                    self.fire(f'{name}:{errno.errorcode[code]}')
                    if name == 'close':
                        return ('closeerr', code)
                    raise oserr(code, path)
            elif kind == 'short' and name in ('read', 'write', 'sendfile'):
                return ('short', fault.get('pick', 0))
            elif kind == 'torn' and name == 'write':
                return ('torn', fault.get('pick', 0))
            elif kind == 'eintr' and name in ('read', 'write', 'open', 'flock'):
                return None
        return None

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def digest(self):
        h = hashlib.sha256()
        for item in self.log:
            h.update(repr(item).encode())
        return h.hexdigest()[:16]

    # -- path handling --------------------------------------------------------------
    def virt(self, path):
        """Absolute virtual path for `path`, or None if it is a real path."""
        if self.current is None:
            return None
        if isinstance(path, int):
            return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path in self.overlay:
            return self.overlay[path]
        if not path:
            raise oserr(errno.ENOENT, path)
        if not path.startswith('/'):
            return self.current.cwd + '/' + path
        if path == ROOT or path.startswith(ROOT + '/'):
            return path
        norm = os.path.normpath(path)
        if norm == ROOT or norm.startswith(ROOT + '/'):
            return path
        return None

    def fd(self, fd):
        of = self.files.get(fd)
        if of is None or of.closed:
            raise oserr(errno.EBADF)
        return of

    # -- implementations -----------------------------------------------------------
    def open(self, path, flags, mode=0o777):
        self.call('open', path)
        acc = flags & os.O_ACCMODE
        parent, name, node = self.fs.walk(
            path.rstrip('/') or '/', follow=not flags & os.O_NOFOLLOW
        )
        if node is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if path.endswith('/'):
                raise oserr(errno.EISDIR, path)
            node = self.fs.create(path, mode)
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise oserr(errno.EEXIST, path)
        elif node.kind == 'l':
            raise oserr(errno.ELOOP, path)
        elif node.kind == 'd':
            if acc != os.O_RDONLY or flags & os.O_CREAT:
                raise oserr(errno.EISDIR, path)
        else:
            if flags & os.O_DIRECTORY or path.endswith('/'):
                raise oserr(errno.ENOTDIR, path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY and node.kind == 'f':
            if node.data:
                node.data[:] = b''
                node.dirty = True
                node.mtime = self.now
        return self.install(node, flags, path)

    def install(self, node, flags, path):
        p = self.current
        fd = self.next_fd
        self.next_fd += 1
        of = OpenFile(node, flags, p, path)
        self.files[fd] = of
        p.fds[fd] = of
        return fd

    def close(self, fd):
        of = self.files.get(fd)
        if of is None:
            raise oserr(errno.EBADF)
        fault = self.call('close', of.path)
        self._close_fd(fd, of)
        if fault:
            raise oserr(fault[1])

    def read(self, fd, n):
        of = self.fd(fd)
        if of.node.kind == 'd':
            raise oserr(errno.EISDIR)
        if of.flags & os.O_ACCMODE == os.O_WRONLY:
            raise oserr(errno.EBADF)
        fault = self.call('read', of.path)
        left = max(0, len(of.node.data) - of.pos)
        n = min(n, left)
        if fault and fault[0] == 'short' and n > 1:
            self.fire('short_read')
            n = 1 + fault[1] % (n - 1)
        data = bytes(of.node.data[of.pos:of.pos + n])
        of.pos += n
        return data

    def write(self, fd, data):
        of = self.fd(fd)
        if of.flags & os.O_ACCMODE == os.O_RDONLY:
            raise oserr(errno.EBADF)
        fault = self.call('write', of.path)
        data = bytes(data)
        kill = False
        if fault and fault[0] == 'short' and len(data) > 1:
            self.fire('short_write')
            data = data[:1 + fault[1] % (len(data) - 1)]
        elif fault and fault[0] == 'torn':
            self.fire('torn_write_crash')
            data = data[:fault[1] % (len(data) + 1)]
            kill = True
        node = of.node
        pos = len(node.data) if of.flags & os.O_APPEND else of.pos
        if pos > len(node.data):
            node.data.extend(b'\0' * (pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        node.dirty = True
        node.mtime = self.now
        of.pos = pos + len(data)
        if kill:
            self.kill(self.current)
            raise ProcessKilled()
        return len(data)

    def seek(self, fd, off, whence=0):
        of = self.fd(fd)
        if of.proc.dead:
            raise ProcessKilled()
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = of.pos + off
        else:
            pos = len(of.node.data) + off
        if pos < 0:
            raise oserr(errno.EINVAL)
        of.pos = pos
        return pos

    def ftruncate(self, fd, n):
        of = self.fd(fd)
        self.call('truncate', of.path)
        self._truncate(of.node, n)

    def _truncate(self, node, n):
        if n < len(node.data):
            del node.data[n:]
        else:
            node.data.extend(b'\0' * (n - len(node.data)))
        node.dirty = True

    def truncate(self, path, n):
        self.call('truncate', path)
        self._truncate(self.fs.lookup(path), n)

    def fsync(self, fd):
        of = self.fd(fd)
        self.call('fsync', of.path)
        self.fs.fsync(of.node)

    def _stat(self, node):
        t = node.mtime
        size = len(node.data) if node.kind == 'f' else (
            len(node.target) if node.kind == 'l' else 4096
        )
        ns = int(t * 1e9)
        uid, gid = 0, 0
        return os.stat_result(
            (node.fmt | node.mode, node.ino, 77, node.nlink, uid, gid, size,
             int(t), int(t), int(t)),
            {
                'st_atime': t, 'st_mtime': t, 'st_ctime': t,
                'st_atime_ns': ns, 'st_mtime_ns': ns, 'st_ctime_ns': ns,
                'st_blksize': 4096, 'st_blocks': (size + 511) // 512,
                'st_rdev': 0,
            },
        )

    def stat(self, path, follow=True):
        self.call('stat', path)
        return self._stat(self.fs.lookup(path, follow))

    def fstat(self, fd):
        of = self.fd(fd)
        if of.proc.dead:
            raise ProcessKilled()
        return self._stat(of.node)

    def mkdir(self, path, mode=0o777):
        self.call('mkdir', path)
        self.fs.mkdir(path, mode)

    def rmdir(self, path):
        self.call('rmdir', path)
        self.fs.rmdir(path)

    def unlink(self, path):
        self.call('unlink', path)
        self.fs.unlink(path)

    def rename(self, src, dst):
        self.call('rename', src)
        self.fs.rename(src, dst)

    def symlink(self, target, path):
        self.call('symlink', path)
        self.fs.symlink(target, path)

    def link(self, src, dst):
        self.call('link', src)
        self.fs.link(src, dst)

    def readlink(self, path):
        self.call('readlink', path)
        node = self.fs.lookup(path, follow=False)
        if node.kind != 'l':
            raise oserr(errno.EINVAL, path)
        return node.target

    def listdir(self, path):
        self.call('scandir', path)
        node = self.fs.lookup(path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        names = sorted(node.entries)
        random.Random(f"{self.seed}-{len(self.log)}-{path}").shuffle(names)
        return names, node

    def chmod(self, path, mode, follow=True):
        self.call('chmod', path)
        self.fs.lookup(path, follow).mode = mode & 0o7777

    def utime(self, path, follow=True):
        self.call('utime', path)
        self.fs.lookup(path, follow)

    def access(self, path, mode):
        self.call('access', path)
        try:
            node = self.fs.lookup(path)
        except OSError:
            return False
        if mode & os.X_OK and node.kind == 'f' and not node.mode & 0o111:
            return False
        return True

    def flock(self, fd, op):
        of = self.fd(fd)
        while True:
            self.call('flock', of.path)
            locks = of.node.locks
            mine = [l for l in locks if l[0] is of]
            other = [l for l in locks if l[0] is not of]
            if op & fcntl.LOCK_UN:
                of.node.locks = other
                self._wake()
                return
            excl = bool(op & fcntl.LOCK_EX)
            if not any(excl or l[1] for l in other):
                of.node.locks = other + [(of, excl)]
                if mine:
                    self._wake()
                return
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, 'locked')
            self.fire('lock_wait')
            if not self.multi:
                raise Deadlock()
            p = self.current
            p.state = 'blocked'
            self.switch()
            if p.dead:
                raise Deadlock() if self.deadlocked else ProcessKilled()

    # -- time --------------------------------------------------------------------
    def pass_time(self, dt):
        self.mono += dt
        if not self.plan.get('frozen'):
            self.now += dt

    def clock(self):
        p = self.current
        if p.dead:
            raise ProcessKilled()
        if not self.plan.get('frozen'):
            self.now += 1e-6
        t = self.now
        if self.plan.get('grain'):
            t -= t % self.plan['grain']
        self.readings.append((p.index, p.op, self.steps, t))
        return t

    def sleep(self, dt):
        p = self.current
        self.call('sleep')
        if self.multi:
            p.state = 'sleeping'
            p.wake = self.mono + max(dt, 0)
            self.switch()
            if p.state == 'sleeping':
                p.state = 'ready'
        else:
            self.pass_time(max(dt, 0))


_A, _I, _N, _M, _B = (
    errno.EACCES, errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EBUSY,
)
ERRORS = {
    'open': [_I, _A, _M, _N],
    'read': [_I],
    'write': [_I, _N],
    'close': [_I],
    'fsync': [_I],
    'truncate': [_I],
    'mkdir': [_N, _A, _I],
    'rmdir': [_B, _I, _A],
    'unlink': [_A, _I, _B],
    'rename': [_I, _A, _B],
    'symlink': [_N],
    'link': [_I],
    'scandir': [_I, _A],
    'sendfile': [_I],
    'spawn': [errno.EAGAIN, errno.ENOMEM],
    'nc_open': [_I, _A, _M, errno.ENOMEM],
    'nc_read': [_I],
    'nc_att': [_I],
}
PERSIST = {
    'diskfull': {
        'write': _N, 'mkdir': _N, 'symlink': _N, 'link': _N, 'sendfile': _N,
    },
    'denied': {
        'mkdir': _A, 'rmdir': _A, 'unlink': _A, 'rename': _A, 'symlink': _A,
    },
    'broken': {
        'write': _I, 'mkdir': _I, 'rmdir': _I, 'unlink': _I, 'rename': _I,
        'fsync': _I, 'symlink': _I,
    },
}
