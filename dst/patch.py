"""Route the standard library's system calls into the simulator."""
import builtins
import contextlib
import datetime as _dt
import errno
import fcntl
import gc
import io
import itertools
import os
import random
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import kernel as K
from .kernel import FD0, HarnessError, ProcessKilled, SimStop, oserr

KERNEL = None          # the active kernel
_real = {}


def active():
    k = KERNEL
    if k is None or k.current is None:
        return None
    if k.multi and getattr(k.current, 'ident', None) != threading.get_ident():
        return None
    return k


class SimRaw(io.RawIOBase):
    """A raw binary file on the simulated file system."""

    def __init__(self, kernel, fd, path, flags, closefd=True):
        self._k = kernel
        self._fd = fd
        self._name = path
        self._acc = flags & os.O_ACCMODE
        self._append = bool(flags & os.O_APPEND)
        self._closefd = closefd
        self.name = path
        self.mode = {0: 'rb', 1: 'wb', 2: 'rb+'}[self._acc]

    def _live(self):
        if KERNEL is not self._k:
            raise ProcessKilled()
        of = self._k.files.get(self._fd)
        if of is None or of.proc.dead or of.proc is not self._k.current:
            raise ProcessKilled()

    def readable(self):
        return self._acc != os.O_WRONLY

    def writable(self):
        return self._acc != os.O_RDONLY

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._live()
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        data = self._k.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._live()
        if not self.writable():
            raise io.UnsupportedOperation('not writable')
        return self._k.write(self._fd, bytes(b))

    def seek(self, off, whence=0):
        self._live()
        return self._k.seek(self._fd, off, whence)

    def tell(self):
        self._live()
        return self._k.seek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._live()
        if size is None:
            size = self.tell()
        self._k.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if not self._closefd:
            return
        of = self._k.files.get(self._fd)
        if of is None or of.proc.dead or KERNEL is not self._k:
            return
        self._k.close(self._fd)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    k = active()
    if k is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    if isinstance(file, int):
        if file < FD0:
            return _real['open'](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        path = None
    else:
        path = k.virt(file)
        if path is None and opener is None:
            if set(mode) & set('wax+'):
                k.escapes.append(('open', os.fspath(file)))
                raise oserr(errno.EACCES, os.fspath(file))
            return _real['open'](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
    text = 'b' not in mode
    kind = [c for c in mode if c in 'rwax']
    if len(kind) != 1 or set(mode) - set('rwaxbt+'):
        raise ValueError(f"invalid mode: {mode!r}")
    if text is False and (encoding or errors or newline):
        raise ValueError("binary mode doesn't take text arguments")
    kind = kind[0]
    plus = '+' in mode
    flags = {
        'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
        'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
        'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
    }[kind]
    if plus:
        flags = flags & ~os.O_ACCMODE | os.O_RDWR
    if path is None and opener is None:
        fd = file
        name = file
        if k.fd(fd).node.kind == 'd':
            raise oserr(errno.EISDIR)
    else:
        if opener is not None:
            fd = opener(file, flags)
            if fd < FD0:
                return _real['open'](fd, mode, buffering, encoding, errors,
                                     newline, closefd)
        else:
            fd = k.open(path, flags, 0o666)
        name = os.fspath(file) if not isinstance(file, int) else file
        if k.fd(fd).node.kind == 'd':
            k._close_fd(fd, k.files[fd])
            raise oserr(errno.EISDIR, name)
        closefd = True
    if kind == 'a':
        k.files[fd].pos = len(k.files[fd].node.data)
    raw = SimRaw(k, fd, name, flags, closefd)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = k.bufsize if buffering in (-1, 1) else buffering
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif kind == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if not text:
        return buf
    out = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                           line_buffering=buffering == 1)
    try:
        out._CHUNK_SIZE = max(1, min(8192, k.bufsize))
    except Exception:
        pass
    out.mode = mode
    return out


class SimDirEntry:
    __slots__ = ('name', 'path', '_k', '_node', '_full')

    def __init__(self, k, base, full, name, node):
        self._k = k
        self.name = name
        self.path = os.path.join(base, name)
        self._full = full.rstrip('/') + '/' + name
        self._node = node

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._node.ino

    def is_symlink(self):
        return self._node.kind == 'l'

    def _follow(self):
        if self._node.kind != 'l':
            return self._node
        try:
            return self._k.fs.lookup(self._full)
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        n = self._follow() if follow_symlinks else self._node
        return n is not None and n.kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        n = self._follow() if follow_symlinks else self._node
        return n is not None and n.kind == 'f'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._k.stat(self._full, follow_symlinks)

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _one(name, call, write=False):
    """Wrap an os function of one path."""
    real = getattr(os, name)
    _real[name] = real

    def wrapped(path='.', *args, **kwargs):
        k = active()
        if k is None:
            return real(path, *args, **kwargs)
        if isinstance(path, int):
            if path < FD0:
                return real(path, *args, **kwargs)
            path = k.fd(path).path
        elif kwargs.get('dir_fd') is not None:
            base = kwargs.pop('dir_fd')
            if not os.path.isabs(path):
                path = k.fd(base).path + '/' + os.fspath(path)
        kwargs.pop('dir_fd', None)
        v = k.virt(path)
        if v is None:
            if write:
                k.escapes.append((name, os.fspath(path)))
                raise oserr(errno.EACCES, os.fspath(path))
            return real(path, *args, **kwargs)
        try:
            return call(k, v, path, *args, **kwargs)
        except OSError as err:
            if err.filename is not None and err.filename == v:
                err.filename = os.fspath(path)
            raise
    wrapped.__name__ = name
    return wrapped


def _two(name, call):
    real = getattr(os, name)
    _real[name] = real

    def wrapped(src, dst, *args, **kwargs):
        k = active()
        if k is None:
            return real(src, dst, *args, **kwargs)
        v, w = k.virt(src), k.virt(dst)
        if name == 'symlink':
            v = os.fspath(src)
        if v is None or w is None:
            k.escapes.append((name, f"{src} {dst}"))
            raise oserr(errno.EXDEV, os.fspath(src), os.fspath(dst))
        return call(k, v, w)
    wrapped.__name__ = name
    return wrapped


def _fd(name, call):
    real = getattr(os, name)
    _real[name] = real

    def wrapped(fd, *args, **kwargs):
        k = active()
        if k is None or not isinstance(fd, int) or fd < FD0:
            return real(fd, *args, **kwargs)
        return call(k, fd, *args, **kwargs)
    wrapped.__name__ = name
    return wrapped


class _Frozen:
    """A stand-in for stdout/stderr that records per process."""

    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def write(self, s):
        k = KERNEL
        if k is not None and k.current is not None:
            k.current.out.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class SimPopen:
    """A simulated child process (the launched EPREM simulation)."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        k = active()
        if k is None:
            raise HarnessError("a real process was about to be launched")
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        self._k = k
        self._proc = k.current
        self._text = bool(text or universal_newlines or encoding)
        wd = k.virt(os.fspath(cwd)) if cwd is not None else k.current.cwd
        fault = k.call('spawn', wd)
        if k.child_policy is not None:
            script = k.child_policy(wd or '')
        else:
            script = k.child_script.pop(0) if k.child_script else {}
        if wd is None:
            k.escapes.append(('spawn', os.fspath(cwd)))
            raise oserr(errno.EACCES, os.fspath(cwd))
        node = k.fs.lookup(wd)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, wd)
        if script.get('launch'):
            k.fire('spawn:' + errno.errorcode[script['launch']])
            raise oserr(script['launch'], args if isinstance(args, str) else None)
        self.pid = 5000 + len(k.children)
        self.script = script
        if isinstance(args, (str, bytes)) or isinstance(args, os.PathLike):
            command = os.fsdecode(args)
            try:
                tokens = shlex.split(command) if shell else [command]
            except ValueError:
                tokens = None
        else:
            command = None
            tokens = [os.fspath(a) for a in args]
            if shell:
                command = tokens[0]
                tokens = shlex.split(command)
        self.record = {
            'command': command, 'tokens': tokens, 'cwd': wd,
            'tree': k.fs.tree(wd), 'start': k.now, 'proc': k.current.index,
            'op': k.current.op, 'code': script.get('code', 0),
            'env': dict(env) if env is not None else None, 'ended': None,
            'step': k.steps,
        }
        k.children.append(self.record)
        self._end = k.mono + script.get('duration', 3.0)
        # output goes to whatever the caller connected
        self._sinks = []
        out = script.get('output', 'EPREM out\n').encode()
        err = script.get('errout', 'EPREM err\n').encode()
        self.record['wrote'] = []
        if stdout == subprocess.PIPE:
            self._piped = out
        else:
            self._piped = None
            self._emit(stdout, out, 'out')
        if stderr == subprocess.STDOUT:
            if stdout == subprocess.PIPE:
                self._piped += err
            else:
                self._emit(stdout, err, 'err')
        elif stderr == subprocess.PIPE:
            self._perr = err
        else:
            self._emit(stderr, err, 'err')
        if self._piped is not None:
            self.stdout = (io.StringIO(self._piped.decode()) if self._text
                           else io.BytesIO(self._piped))
        if stderr == subprocess.PIPE:
            self.stderr = (io.StringIO(err.decode()) if self._text
                           else io.BytesIO(err))
        if 'files' in script:
            for name, data in script['files'].items():
                k.fs.put(wd + '/' + name, data)

    def _emit(self, target, data, what):
        k = self._k
        if target is None or target == subprocess.DEVNULL:
            return
        fd = target if isinstance(target, int) else target.fileno()
        if fd < FD0:
            return
        of = k.files.get(fd)
        if of is None:
            return
        self.record['wrote'].append((what, of.path))
        pos = len(of.node.data) if of.flags & os.O_APPEND else of.pos
        of.node.data[pos:pos + len(data)] = data
        of.pos = pos + len(data)
        of.node.dirty = True

    def poll(self):
        if self.returncode is None:
            self._k.call('waitpid')
            self._k.pass_time(0.01)
            if self._k.mono >= self._end:
                self._finish()
        return self.returncode

    def _finish(self):
        self.returncode = self.script.get('code', 0)
        self.record['ended'] = self._k.now

    def wait(self, timeout=None):
        if self.returncode is None:
            left = self._end - self._k.mono
            if timeout is not None and timeout < left:
                self._k.sleep(timeout)
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._k.sleep(max(0.0, left))
            self._finish()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        return out, err

    def send_signal(self, sig):
        if self.returncode is None:
            self.returncode = -int(sig)
            self.record['ended'] = self._k.now

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for s in (self.stdout, self.stderr):
            if s:
                s.close()
        self.wait()

    def __class_getitem__(cls, item):
        return cls


class _SimDatetimeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real['datetime'])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real['datetime'])


def _make_datetime():
    real = _dt.datetime
    _real['datetime'] = real

    class datetime(real, metaclass=_SimDatetimeMeta):
        @classmethod
        def now(cls, tz=None):
            k = active()
            if k is None:
                return real.now(tz)
            t = k.clock()
            if tz is not None:
                return real.fromtimestamp(t, tz)
            return real.fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()
    return datetime


_installed = False


def install():
    """Patch the standard library (once per interpreter)."""
    global _installed
    if _installed:
        return
    _installed = True
    _real['open'] = io.open
    io.open = sim_open
    builtins.open = sim_open
    os.environ['TZ'] = 'UTC'
    time.tzset()

    import tokenize, linecache      # use real files only
    tokenize._builtin_open = _real['open']

    def scandir(k, v, path, *a):
        names, node = k.listdir(v)
        base = os.fspath(path)
        return SimScandir([
            SimDirEntry(k, base, v, n, k.fs.inodes[node.entries[n]])
            for n in names
        ])

    one = {
        'stat': lambda k, v, p, *, follow_symlinks=True: k.stat(v, follow_symlinks),
        'lstat': lambda k, v, p: k.stat(v, False),
        'readlink': lambda k, v, p: k.readlink(v),
        'scandir': scandir,
        'listdir': lambda k, v, p: k.listdir(v)[0],
        'access': lambda k, v, p, mode=0, **kw: k.access(v, mode),
    }
    for name, f in one.items():
        setattr(os, name, _one(name, f))
    chdir_real = os.chdir

    def chdir(path):
        k = active()
        if k is None:
            return chdir_real(path)
        v = k.virt(path)
        if v is None:
            raise oserr(errno.ENOENT, path)
        if k.fs.lookup(v).kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        k.current.cwd = os.path.normpath(v)
    os.chdir = chdir
    wr = {
        'mkdir': lambda k, v, p, mode=0o777: k.mkdir(v, mode),
        'rmdir': lambda k, v, p: k.rmdir(v),
        'unlink': lambda k, v, p: k.unlink(v),
        'remove': lambda k, v, p: k.unlink(v),
        'chmod': lambda k, v, p, mode, *, follow_symlinks=True: k.chmod(v, mode, follow_symlinks),
        'utime': lambda k, v, p, times=None, *, ns=None, follow_symlinks=True: k.utime(v, follow_symlinks),
        'chown': lambda k, v, p, *a, **kw: None,
        'truncate': lambda k, v, p, n: k.truncate(v, n),
        'listxattr': lambda k, v, p, **kw: [],
        'getxattr': lambda k, v, p, *a, **kw: b'',
        'setxattr': lambda k, v, p, *a, **kw: None,
    }
    for name, f in wr.items():
        setattr(os, name, _one(name, f, write=name not in ('listxattr', 'getxattr')))
    os.rename = _two('rename', lambda k, v, w: k.rename(v, w))
    os.replace = _two('replace', lambda k, v, w: k.rename(v, w))
    os.link = _two('link', lambda k, v, w: k.link(v, w))
    os.symlink = _two('symlink', lambda k, v, w: k.symlink(v, w))
    fds = {
        'close': lambda k, fd: k.close(fd),
        'read': lambda k, fd, n: k.read(fd, n),
        'write': lambda k, fd, data: k.write(fd, data),
        'lseek': lambda k, fd, off, how: k.seek(fd, off, how),
        'fsync': lambda k, fd: k.fsync(fd),
        'fdatasync': lambda k, fd: k.fsync(fd),
        'ftruncate': lambda k, fd, n: k.ftruncate(fd, n),
        'fstat': lambda k, fd: k.fstat(fd),
        'fchmod': lambda k, fd, mode: None,
        'isatty': lambda k, fd: False,
        'get_inheritable': lambda k, fd: False,
        'set_inheritable': lambda k, fd, v: None,
        'set_blocking': lambda k, fd, v: None,
        'get_blocking': lambda k, fd: True,
    }
    for name, f in fds.items():
        setattr(os, name, _fd(name, f))
    open_real = os.open
    _real['os.open'] = open_real

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        k = active()
        if k is None:
            return open_real(path, flags, mode, dir_fd=dir_fd)
        if dir_fd is not None and not os.path.isabs(path):
            path = k.fd(dir_fd).path + '/' + os.fspath(path)
        v = k.virt(path)
        if v is None:
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                k.escapes.append(('open', os.fspath(path)))
                raise oserr(errno.EACCES, os.fspath(path))
            return open_real(path, flags, mode)
        return k.open(v, flags, mode)
    os.open = os_open

    dup_real = os.dup

    def dup(fd):
        k = active()
        if k is None or fd < FD0:
            return dup_real(fd)
        of = k.fd(fd)
        new = k.next_fd
        k.next_fd += 1
        k.files[new] = of
        return new
    os.dup = dup

    fdopen_real = os.fdopen

    def fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **kw):
        return sim_open(fd, mode, buffering, encoding, *a, **kw)
    os.fdopen = fdopen

    getcwd_real = os.getcwd

    def getcwd():
        k = active()
        return getcwd_real() if k is None else k.current.cwd
    os.getcwd = getcwd
    getpid_real = os.getpid

    def getpid():
        k = active()
        return getpid_real() if k is None else k.current.pid
    os.getpid = getpid
    urandom_real = os.urandom

    def urandom(n):
        k = active()
        return urandom_real(n) if k is None else k.rng.randbytes(n)
    os.urandom = urandom
    random._urandom = urandom
    sync_real = os.sync

    def sync():
        k = active()
        if k is None:
            return sync_real()
        k.fs.sync_all()
    os.sync = sync

    def system(command):
        k = active()
        if k is None:
            raise HarnessError("os.system outside the simulator")
        p = SimPopen(command, shell=True)
        code = p.wait()
        return code << 8 if code >= 0 else -code
    os.system = system

    for name in ('flock', 'lockf'):
        real = getattr(fcntl, name)

        def lock(fd, op, *a, real=real):
            k = active()
            n = fd if isinstance(fd, int) else fd.fileno()
            if k is None or n < FD0:
                return real(fd, op, *a)
            return k.flock(n, op)
        setattr(fcntl, name, lock)

    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_USE_CP_COPY_FILE_RANGE'):
        shutil._USE_CP_COPY_FILE_RANGE = False
    _dt.datetime = _make_datetime()
    for name, unit in (('time', 1), ('monotonic', 1), ('perf_counter', 1)):
        real = getattr(time, name)

        def clock(real=real, name=name):
            k = active()
            if k is None:
                return real()
            return k.clock() if name == 'time' else k.mono
        setattr(time, name, clock)
        real_ns = getattr(time, name + '_ns')

        def clock_ns(real=real_ns, name=name):
            k = active()
            if k is None:
                return real()
            return int((k.clock() if name == 'time' else k.mono) * 1e9)
        setattr(time, name + '_ns', clock_ns)
    for name in ('localtime', 'gmtime'):
        real = getattr(time, name)

        def lt(secs=None, real=real):
            k = active()
            if k is not None and secs is None:
                secs = k.clock()
            return real(secs)
        setattr(time, name, lt)
    strf = time.strftime

    def strftime(fmt, t=None):
        if t is None:
            t = time.localtime()
        return strf(fmt, t)
    time.strftime = strftime
    sleep_real = time.sleep

    def sleep(dt):
        k = active()
        if k is None:
            return sleep_real(dt)
        k.sleep(dt)
    time.sleep = sleep
    _real['sleep'] = sleep_real
    _real['Popen'] = subprocess.Popen
    _real['argv'] = sys.argv
    _real['stdout'], _real['stderr'] = sys.stdout, sys.stderr


class _Names:
    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join(self.rng.choices('abcdefghijklmnopqrstuvwxyz0123456789_', k=8))


class SimPopenReal:
    pass


@contextlib.contextmanager
def simulating(kernel):
    """Make `kernel` the machine that this interpreter runs on."""
    global KERNEL
    install()
    import eprempy
    for name in K.FRESH:
        sys.modules.pop('eprempy.' + name, None)
        if name in eprempy.__dict__:
            delattr(eprempy, name)
    saved = {
        'path': list(sys.path), 'argv': sys.argv, 'stdout': sys.stdout,
        'stderr': sys.stderr, 'env': {v: os.environ.get(v) for v in ('HOME', 'PATH', 'TMPDIR')},
        'tmp': tempfile.tempdir, 'seq': tempfile._name_sequence,
    }
    kernel.base_path = [p for p in saved['path'] if '/repo/src/eprempy' not in p]
    sys.stdout = sys.stderr = _Frozen()
    os.environ['HOME'] = '/sim/home'
    os.environ['PATH'] = '/sim/bin:/sim/usr/bin'
    os.environ['TMPDIR'] = '/sim/tmp'
    tempfile.tempdir = '/sim/tmp'
    tempfile._name_sequence = _Names(random.Random(f"tmp-{kernel.seed}"))
    subprocess.Popen = SimPopen
    state = random.getstate()
    random.seed(f"global-{kernel.seed}")
    gcon = gc.isenabled()
    gc.disable()
    KERNEL = kernel
    try:
        yield kernel
    finally:
        if kernel.current is not None:
            kernel.enter(None)
        KERNEL = None
        sys.stdout, sys.stderr = saved['stdout'], saved['stderr']
        sys.path[:] = saved['path']
        sys.argv = saved['argv']
        for v, x in saved['env'].items():
            if x is None:
                os.environ.pop(v, None)
            else:
                os.environ[v] = x
        tempfile.tempdir, tempfile._name_sequence = saved['tmp'], saved['seq']
        subprocess.Popen = _real['Popen']
        random.setstate(state)
        if gcon:
            gc.enable()
