"""Simulated projects: operations, step-wise reference model and oracles.

Every operation is judged against the state of the simulated machine right
before it: the model states which states may follow when the operation
returns, raises, or is cut short. Nothing here looks at how the code works.
"""
import contextlib
import errno
import fnmatch
import json
import os
import random
import re
import shlex
import sys
import traceback

from . import kernel as K
from . import patch
from .kernel import (
    Deadlock, HarnessError, Kernel, ProcessKilled, SimStop, StepLimit,
)

WORK = '/sim/work'
HOME = '/sim/home'
CONFIGS = {
    'main.cfg': b'# main\nnumNodesPerStream=100\nsimStopTime=1.5\n',
    'alt.cfg': b'simStopTime = 2.25  # alternative\n\nidw=1\n',
    'long.cfg': b''.join(b'key%d = %d\n' % (i, i * i) for i in range(700)),
    'raw.cfg': bytes(range(1, 256)) * 3 + b'\r\n\r\n no newline at end',
}
DEFAULTS = {
    'branches': (), 'config': 'eprem.cfg', 'inputs': 'inputs',
    'output': 'eprem.log', 'rundir': 'runs', 'logname': 'runs.json',
}


class Violation(Exception):
    def __init__(self, tags, message):
        self.tags = tags
        self.message = message


def normal(attrs):
    """The attributes a project should have, from the requested ones."""
    out = dict(DEFAULTS)
    for k, v in attrs.items():
        if v is None or v == () or v == []:
            continue
        out[k] = tuple(v) if k == 'branches' else v
    base = out['logname']
    stem, dot, ext = base.rpartition('.')
    out['logname'] = (stem if dot and stem else base) + '.json'
    return out


class Handle:
    """A project as the harness knows it."""

    def __init__(self, path, attrs):
        self.path = path
        self.attrs = attrs
        self.state = 'none'     # none, live, half, gone

    @property
    def log(self):
        return self.path + '/' + self.attrs['logname']

    @property
    def inputs(self):
        return self.path + '/' + self.attrs['inputs']

    def rundirs(self, subset=None):
        base = self.attrs['rundir']
        branches = self.attrs['branches']
        if not branches:
            return [] if subset else [self.path + '/' + base]
        chosen = [b for b in branches if not subset or b in subset]
        return [f"{self.path}/{b}/{base}" for b in chosen]


def under(tree, path):
    pre = path + '/'
    return {p: v for p, v in tree.items() if p == path or p.startswith(pre)}


def rel(tree, path):
    n = len(path)
    return {p[n:]: v for p, v in under(tree, path).items()}


def resolved(tree):
    """The tree with (absolute) symbolic links replaced by what they refer to."""
    out = {}
    for p, v in tree.items():
        if v[0] == 'l' and v[1] in tree:
            out.update({p + q: w for q, w in rel(tree, v[1]).items()})
        else:
            out[p] = v
    return out


def parse_log(tree, path):
    """The log as a dictionary; None if absent; raises ValueError if torn."""
    node = tree.get(path)
    if node is None:
        return None
    if node[0] != 'f':
        raise ValueError("not a file")
    out = json.loads(node[1].decode())
    if not isinstance(out, dict):
        raise ValueError("not a mapping")
    return out


def hidden(path):
    """Locks and left-overs of interrupted writes, which nobody looks at."""
    name = path.rpartition('/')[2]
    return name.startswith('.') and name != '.eprem.conf'


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class World:
    """One simulated machine executing one plan."""

    def __init__(self, plan, stats=None):
        self.plan = plan
        self.k = Kernel(plan)
        self.handles = {}
        self.objs = {}
        self.violations = []
        self.events = []
        self.step_counts = []
        self.syscalls = []
        self.module = None
        self.proc = None
        self.cover = {}
        self.build()

    # -- initial state ------------------------------------------------------------
    def build(self):
        fs = self.k.fs
        for d in (HOME, '/sim/tmp', '/sim/bin', '/sim/usr/bin', WORK,
                  '/sim/data', '/sim/opt', WORK + '/empty'):
            fs.makedirs(d)
        for name, data in CONFIGS.items():
            fs.put('/sim/data/' + name, data)
            fs.put(HOME + '/' + name, b'# home copy\n' + data)
        for name in self.plan.get('bin', ('mpirun', 'eprem')):
            fs.put('/sim/bin/' + name, b'#!\n', 0o755)
        fs.put('/sim/opt/mpirun', b'#!\n', 0o755)
        fs.put('/sim/opt/my eprem', b'#!\n', 0o755)
        # bystanders with confusing names
        for name in ('p', 'q', 'proj'):
            for suffix in ('-old', '.bak', '2'):
                d = f"{WORK}/{name}{suffix}"
                fs.put(d + '/runs/a/eprem.cfg', b'by=stander\n')
                fs.put(d + '/runs.json', json.dumps({d + '/runs/a': {'command': 'x'}}))
        fs.put(WORK + '/a/eprem.cfg', b'not a run\n')
        fs.put(WORK + '/notes.txt', b'keep me\n')
        fs.put('/sim/data/ext/out.dat', b'linked data\n')
        fs.put(WORK + '/full/file', b'occupied\n')
        fs.put('/sim/data/entry.json', b'{"command": "loaded", "n": 3}')
        fs.put('/sim/data/empty.json', b'{}')
        fs.put('/sim/data/bad.json', b'{"command": ')
        fs.sync_all()

    # -- running ------------------------------------------------------------------
    def run(self):
        with patch.simulating(self.k):
            try:
                self._run()
            finally:
                self.k.enter(None)
        return self

    def _run(self):
        ops = self.plan['ops']
        for i, op in enumerate(ops):
            if self.proc is None or self.proc.dead or op.get('fresh'):
                self.new_process()
            self.k.current.begin(i)
            if self.plan.get('flush', True):
                self.k.fs.sync_all()
            self.syscalls.append(0)
            self.step(i, op)
            if self.violations and not self.plan.get('keep_going'):
                return

    def new_process(self):
        if self.proc is not None:
            if not self.proc.dead:
                self.k.exit(self.proc)
        self.objs = {}
        self.proc = self.k.spawn(HOME)
        self.proc.index = 0
        self.k.enter(self.proc)
        if self.plan.get('cwd'):
            self.proc.cwd = self.plan['cwd']
        self.module = None

    def project(self):
        if self.module is None:
            self.module = self.k.load()
        return self.module

    def flag(self, tags, message):
        v = Violation(tuple(tags), message)
        self.violations.append(v)
        self.events.append(('VIOLATION', tuple(tags), message))

    def tree(self):
        t = self.k.fs.tree('/sim')
        return {
            p: v for p, v in t.items()
            if not p.startswith('/sim/tmp/') and not hidden(p)
        }

    def step(self, i, op):
        name = op['op']
        # launched programs of this operation
        self.k.child_script = [dict(c) for c in op.get('children', ())]
        nchild = len(self.k.children)
        nread = len(self.k.readings)
        nfired = dict(self.k.fired)
        nout = len(self.k.current.out)
        pre = self.tree()
        if op.get('via') == 'script':
            handle = self.handles.get(op['h'])
            if handle and handle.path + '/__main__.py' not in pre:
                op = {k: v for k, v in op.items() if k != 'via'}
        if 'h' in op and op['op'] not in ('create', 'user'):
            handle = self.handles.get(op['h'])
            if handle is None or handle.state != 'live':
                self.events.append((i, name, 'skipped'))
                return
        start = self.k.now
        outcome, value = self.execute(op)
        cur = self.k.current
        if cur is not None and cur.dead:
            outcome, value = 'crash', None
        self.syscalls[-1] = cur.k if cur is not None else 0
        if cur is not None:
            cur.begin(10_000 + i)      # no faults while judging
        post = self.tree()
        fired = {
            f: n - nfired.get(f, 0) for f, n in self.k.fired.items()
            if n > nfired.get(f, 0)
        }
        info = {
            'children': self.k.children[nchild:],
            'readings': [r[3] for r in self.k.readings[nread:]],
            'start': start, 'end': self.k.now, 'fired': fired,
            'i': i, 'out': ''.join(self.proc.out[nout:]),
        }
        self.events.append((
            i, name, outcome,
            type(value).__name__ if outcome == 'raise' else '',
            self.k.steps, len(post), sorted(fired),
        ))
        self.cover[(name, outcome, tuple(sorted(fired)))] = 1
        if self.k.escapes:
            self.flag(['P06'], f"step {i} {name}: tried to modify real path {self.k.escapes[0]}")
            self.k.escapes = []
        judge = getattr(self, 'judge_' + name, None)
        hard = any(
            not f.startswith(('short_', 'clock', 'lock_wait')) for f in fired
        )
        if outcome == 'hang':
            self.flag(['P07', 'P09'], f"step {i} {name}: did not terminate")
            return
        if judge is not None:
            ctx = Step(self, i, op, pre, post, outcome, value, info, hard)
            try:
                judge(ctx)
            except HarnessError:
                raise
        if outcome == 'crash':
            self.proc.dead = True

    def execute(self, op):
        method = getattr(self, 'do_' + op['op'])
        try:
            return 'ok', method(op)
        except ProcessKilled:
            return 'crash', None
        except (Deadlock, StepLimit) as err:
            return 'hang', err
        except SystemExit as err:
            if err.code in (None, 0):
                return 'ok', None
            return 'raise', err
        except KeyboardInterrupt:
            raise
        except HarnessError:
            raise
        except Exception as err:
            if self.plan.get('debug'):
                traceback.print_exc(file=sys.__stderr__)
            return 'raise', err
        except SimStop as err:
            return 'crash', err

    # -- the operations ---------------------------------------------------------------
    def obj(self, op):
        """The project object to use for this operation."""
        h = op['h']
        if op.get('reopen') or h not in self.objs:
            self.objs.pop(h, None)
            handle = self.handles[h]
            self.objs[h] = self.project().Interface(handle.path)
        return self.objs[h]

    def do_create(self, op):
        attrs = {k: v for k, v in op.get('attrs', {}).items()}
        h = op['h']
        handle = Handle(op['path'], normal(attrs))
        handle.requested = attrs
        src = None
        if op.get('copy') is not None:
            source = self.handles.get(op['copy'])
            if source is None or source.state != 'live':
                op = dict(op, copy=None)
            else:
                base = {k: v for k, v in source.attrs.items()}
                # no branches, given explicitly, is none
                base.update({k: v for k, v in normal(attrs).items() if attrs.get(k) is not None})
                handle.attrs = base
                src = source.path
        handle.source = src
        self.pending = handle
        kw = dict(attrs)
        if src:
            kw['copy'] = src
        if op.get('via') == 'cli':
            argv = ['create', op['path']]
            for k, v in attrs.items():
                if v is None:
                    continue
                if k == 'branches':
                    argv += ['--branches', *v]
                else:
                    argv += ['--' + k, v]
            if src:
                argv += ['--copy', src]
            if op.get('verbose'):
                argv += ['-v']
            # branches is greedy: keep the positional argument first
            return self.cli(argv)
        obj = self.project().Interface(op['path'], **kw)
        self.objs[h] = obj
        return obj

    def cli(self, argv):
        mod = self.project()
        old = sys.argv
        sys.argv = ['eprempy.project', *argv]
        try:
            mod.cli.run()
        finally:
            sys.argv = old

    def do_open(self, op):
        handle = self.handles[op['h']]
        self.objs.pop(op['h'], None)
        self.objs[op['h']] = self.project().Interface(handle.path)
        return self.objs[op['h']]

    def do_overwrite(self, op):
        """Try to change the attributes of an existing project."""
        handle = self.handles[op['h']]
        return self.project().Interface(handle.path, **op['attrs'])

    def do_run(self, op):
        handle = self.handles[op['h']]
        if op.get('via') == 'script':
            argv = ['run', op['config']]
            if op.get('name'):
                argv += ['-t', op['name']]
            if op.get('nproc') is not None:
                argv += ['-n', str(op['nproc'])]
            for key, flag in (('mpirun', '-m'), ('eprem', '-e')):
                if op.get('env', {}).get(key):
                    argv += [flag, op['env'][key]]
            return self.script(handle, op, argv)
        obj = self.obj(op)
        self.marked = self.k.now
        env = op.get('env')
        return obj.run(
            op['config'], name=op.get('name'), branches=op.get('branches'),
            nproc=op.get('nproc'), environment=dict(env) if env else None,
            errors=op.get('errors', False), silent=op.get('silent', True),
        )

    def do_mv(self, op):
        handle = self.handles[op['h']]
        if op.get('via') == 'script':
            return self.script(handle, op, ['mv', op['source'], op['target']])
        return self.obj(op).mv(
            op['source'], op['target'], branches=op.get('branches'),
            errors=op.get('errors', False), silent=op.get('silent', True),
        )

    def do_rm(self, op):
        handle = self.handles[op['h']]
        if op.get('via') == 'script':
            return self.script(handle, op, ['rm', op['pattern']])
        return self.obj(op).rm(
            op['pattern'], branches=op.get('branches'),
            errors=op.get('errors', False), silent=op.get('silent', True),
        )

    def do_reset(self, op):
        if op.get('via') == 'cli':
            argv = ['reset', self.handles[op['h']].path]
            argv += ['-f'] if not op.get('errors') else []
            argv += ['-v'] if not op.get('silent', True) else []
            self.objs.pop(op['h'], None)
            return self.cli(argv)
        return self.obj(op).reset(
            force=not op.get('errors', False), silent=op.get('silent', True),
        )

    def do_rename(self, op):
        if op.get('via') == 'cli':
            argv = ['rename', self.handles[op['h']].path, op['target']]
            argv += ['-v'] if not op.get('silent', True) else []
            self.objs.pop(op['h'], None)
            return self.cli(argv)
        return self.obj(op).rename(
            op['target'], force=op.get('force', False),
            silent=op.get('silent', True),
        )

    def do_remove(self, op):
        if op.get('via') == 'cli':
            argv = ['remove', self.handles[op['h']].path]
            argv += ['-f'] if op.get('force') else []
            argv += ['-v'] if not op.get('silent', True) else []
            return self.cli(argv)
        return self.obj(op).remove(
            force=op.get('force', False), silent=op.get('silent', True),
        )

    def do_show(self, op):
        self.shown = None
        out, n = self.k.current.out, len(self.k.current.out)
        if op.get('via') == 'cli':
            argv = ['show', self.handles[op['h']].path]
            for run in op.get('runs', ()):
                argv += ['-a'] if run == '*' else ['-r', run]
            self.objs.pop(op['h'], None)
            self.cli(argv)
        elif op.get('via') == 'function':
            # a single run may be given by itself
            self.objs.pop(op['h'], None)
            runs = op.get('runs', ())
            self.project().show(self.handles[op['h']].path, runs[0] if len(runs) == 1 else runs)
        else:
            self.obj(op).show(*op.get('runs', ()))
        self.shown = ''.join(out[n:])

    def script(self, handle, op, argv):
        """Execute the project's own script in a new process."""
        path = handle.path + '/__main__.py'
        branches = op.get('branches')
        if branches:
            argv = [*argv, '-b', *(
                [branches] if isinstance(branches, str) else branches
            )]
        if not op.get('errors', False):
            argv = [*argv, '-f']
        if not op.get('silent', True):
            argv = [*argv, '-v']
        with open(path, 'rb') as fp:
            source = fp.read()
        code = compile(source, path, 'exec')
        # `__file__` is absolute, however the script is named
        name = handle.path if op.get('as') == 'dir' else path
        if op.get('as') == 'relative':
            name = os.path.relpath(name, self.k.current.cwd)
        sys.argv = [name, *argv]
        sys.path.insert(0, handle.path)
        for name in list(sys.modules):
            if name.startswith('eprempy.') and name[8:] in K.FRESH:
                pass
        spec = {'__name__': '__main__', '__file__': path,
                '__builtins__': __builtins__}
        try:
            exec(code, spec)
        finally:
            with contextlib.suppress(ValueError):
                sys.path.remove(handle.path)
            sys.argv = ['python']

    # log operations
    def logobj(self, op):
        handle = self.handles[op['h']]
        if op.get('direct'):
            return self.project().RunLog(handle.log)
        return self.obj(op).log

    def do_log(self, op):
        log = self.logobj(op)
        act = op['act']
        key = self.logkey(op, op['key'])
        if act == 'create':
            val = self.logvalue(op['value'])
            if op.get('kw'):
                log.create(key, **val)
            else:
                log.create(key, val)
        elif act == 'append':
            log.append(key, op['field'], self.logvalue(op['value']))
        elif act == 'load':
            log.load(key, op['file'])
        elif act == 'mv':
            log.mv(key, self.logkey(op, op['to']))
        elif act == 'rm':
            log.rm(key)
        return dict(log)

    def logkey(self, op, key):
        handle = self.handles[op['h']]
        return handle.rundirs()[0] + '/' + key

    def logvalue(self, value):
        if value == '<object>':
            return {'x': object()}
        if value == '<path>':
            import pathlib
            return {'ok': 1, 'y': [pathlib.Path('/x')]}
        if value == '<mixed>':
            return {'a': 1, 2: 'b'}
        return value

    # user actions, not part of the code under test
    def do_user(self, op):
        fs = self.k.fs
        act = op['act']
        handle = self.handles.get(op.get('h'))
        if handle is not None and handle.state in ('gone', 'none'):
            return
        base = handle.path if handle else ''
        if op.get('where') == 'rundir':
            base = handle.rundirs()[op.get('n', 0) % len(handle.rundirs())]
        elif op.get('where') == 'inputs':
            base = handle.inputs
        elif op.get('where') == 'branch':
            dirs = handle.rundirs()
            base = dirs[op.get('n', 0) % len(dirs)].rpartition('/')[0]
        path = base + '/' + op['path'] if op.get('path') else base
        try:
            if act == 'put':
                fs.put(path, op.get('data', 'user data\n'), op.get('mode', 0o644))
            elif act == 'mkdir':
                fs.makedirs(path)
            elif act == 'rm':
                fs.remove_tree(path)
            elif act == 'rmlog':
                fs.remove_tree(handle.log)
            elif act == 'link':
                fs.symlink(op['target'], path)
            elif act == 'mvproj':
                if self.lexists(op['target']):
                    return
                fs.rename(handle.path, op['target'])
                if not getattr(handle, 'was', None):
                    handle.was = handle.path
                handle.path = op['target']
                self.objs.pop(op['h'], None)
            elif act == 'cwd':
                self.proc.cwd = op['path']
        except OSError:
            return
        fs.sync_all()

    def lexists(self, path):
        try:
            self.k.fs.lookup(path, follow=False)
            return True
        except OSError:
            return False

    def do_clock(self, op):
        self.k.now += op['delta']

    def do_restart(self, op):
        self.new_process()
        self.proc.begin(len(self.syscalls) - 1)

    # -- judging -------------------------------------------------------------------------
    def judge_create(self, s):
        op = s.op
        h, handle = op['h'], self.pending
        root = handle.path
        existed = root in s.pre
        if existed:
            # something is there already
            s.same(s.pre, s.post, ['P02', 'P06'], 'creating over an existing path',
                   ignore=s.selfheal(handle) if s.is_project(root) else ())
            attrs = handle.requested
            explicit = any(v is not None for v in attrs.values()) or handle.source
            if s.outcome == 'ok' and explicit:
                self.flag(['P02'], f"{s.at}: accepted new attributes {attrs} for an existing path {root}")
            if s.outcome == 'ok' and not s.is_project(root):
                self.flag(['P02', 'P09'], f"{s.at}: {root} is not a project but creation succeeded")
            if s.outcome == 'ok':
                known = [x for x in self.handles.values() if x.path == root and x.state == 'live']
                if known:
                    self.check_object(s, known[0], self.objs.get(h))
            self.objs.pop(h, None)
            return
        tags = ['P08'] if handle.source else []
        # frame
        outside = {p: v for p, v in s.post.items() if not (p == root or p.startswith(root + '/'))}
        parents = set()
        q = root
        while '/' in q[1:]:
            q = q.rpartition('/')[0]
            parents.add(q)
        before = dict(s.pre)
        for p in parents:
            if p not in before and outside.get(p) == ('d',):
                before[p] = ('d',)
        s.same(before, outside, ['P06', *tags], 'creating a project')
        if s.outcome == 'ok':
            old = self.handles.get(h)
            self.handles[h] = handle
            handle.state = 'live'
            self.check_layout(s, handle, ['P09', *(tags or ['P02'])], fresh=True)
            if handle.source:
                src = next(x for x in self.handles.values()
                           if x.path == handle.source and x is not handle and x.state == 'live')
                mine = rel(resolved(s.post), handle.inputs)
                theirs = rel(resolved(s.pre), src.inputs)
                if mine != theirs:
                    self.flag(['P08', 'P09'], f"{s.at}: inputs of the copy differ: {diff(theirs, mine)}")
            else:
                if len(rel(s.post, handle.inputs)) != 1:
                    self.flag(['P02'], f"{s.at}: inputs directory is not empty")
            obj = self.objs.get(h)
            if obj is not None:
                self.check_object(s, handle, obj)
            self.reopen_check(s, handle, tags + ['P02'])
        else:
            self.objs.pop(h, None)
            if s.outcome == 'raise' and not s.hard:
                if s.creation_ok(handle):
                    self.flag(['P02', *tags], f"{s.at}: creation failed without a fault: {s.value!r}")
            self.after_failed_create(s, h, handle, tags)

    def after_failed_create(self, s, h, handle, tags):
        """A creation that was cut short: not a project, or the right one."""
        root = handle.path
        if root not in s.post:
            return
        self.new_process()
        self.proc.begin(10_000 + s.i)
        try:
            obj = self.project().Interface(root)
        except SimStop:
            raise
        except Exception as err:
            # not a project (yet): the user removes it
            handle.state = 'half'
            if s.has_conf(root, handle):
                self.flag(['P02', *tags], f"{s.at}: what a failed creation left at {root} looks like a project but does not open: {err!r}")
        else:
            handle.state = 'live'
            self.handles[h] = handle
            self.check_object(s, handle, obj, tags=['P02', *tags])
            return
        self.k.fs.remove_tree(root)
        self.k.fs.sync_all()

    def check_object(self, s, handle, obj, tags=('P02',)):
        if obj is None:
            return
        tags = list(tags)
        a = handle.attrs
        try:
            got = {
                'root': str(obj.root),
                'rundirs': sorted(str(d) for d in obj.directories),
                'branches': sorted(obj.branches),
                'log': str(obj.log.path),
                'name': obj.name,
            }
        except SimStop:
            raise
        except Exception as err:
            self.flag(tags, f"{s.at}: project object is unusable: {err!r}")
            return
        want = {
            'root': handle.path,
            'rundirs': sorted(handle.rundirs()),
            'branches': sorted(a['branches']),
            'log': handle.log,
            'name': handle.path.rpartition('/')[2],
        }
        if got != want:
            self.flag(tags, f"{s.at}: project has {diff(want, got)} (wanted vs got)")

    def check_layout(self, s, handle, tags, fresh=False):
        post = s.post
        for d in handle.rundirs():
            if post.get(d) != ('d',):
                self.flag(tags, f"{s.at}: run directory {d} is missing")
        if post.get(handle.inputs) != ('d',):
            self.flag(tags, f"{s.at}: inputs directory {handle.inputs} is missing")
        if post.get(handle.path + '/__main__.py', ('',))[0] != 'f':
            self.flag([*tags, 'P12'], f"{s.at}: script is missing")
        try:
            log = parse_log(post, handle.log)
        except ValueError as err:
            self.flag(['P01', *tags], f"{s.at}: log is unreadable: {err}")
            return
        if log is None:
            self.flag(['P02', *tags], f"{s.at}: log {handle.log} is missing")
            return
        if fresh:
            runs = [k for k in log if k.startswith('/')]
            if runs:
                self.flag(tags, f"{s.at}: new project has log entries {runs}")

    def reopen_check(self, s, handle, tags, quiet=False):
        """Open the project in a new process and compare."""
        keep = (self.proc, dict(self.objs), self.module)
        pre = self.tree()
        proc = self.k.spawn(HOME)
        proc.index = 0
        self.k.enter(proc)
        proc.begin(20_000 + s.i)
        try:
            mod = self.k.load()
            try:
                obj = mod.Interface(handle.path)
            except SimStop:
                raise
            except Exception as err:
                self.flag([*tags, 'P02'], f"{s.at}: project at {handle.path} does not open: {err!r}")
                return None
            self.check_object(s, handle, obj, tags=[*tags, 'P02'])
            self.check_config_attrs(s, handle, obj, tags)
            self.check_listings(s, handle, obj, tags)
            try:
                seen = dict(obj.log)
            except Exception as err:
                self.flag([*tags, 'P01'], f"{s.at}: log does not load in a new process: {err!r}")
                return None
            # opening has brought the log up to date with the location
            handle.was = None
            return seen
        finally:
            self.k.exit(proc)
            self.k.enter(keep[0] if not keep[0].dead else None)
            self.proc, self.objs, self.module = keep
            if self.proc.dead:
                self.objs = {}

    def check_config_attrs(self, s, handle, obj, tags):
        """Attributes without a public accessor, as displayed by the project."""
        n = len(self.k.current.out)
        try:
            obj.show()
        except SimStop:
            raise
        except Exception as err:
            self.flag([*tags, 'P02'], f"{s.at}: cannot show project: {err!r}")
            return
        text = ''.join(self.k.current.out[n:])
        a = handle.attrs
        got = dict(re.findall(r'^(\w+): (.*)$', text, re.M))
        want = {
            'config': a['config'], 'output': a['output'], 'rundir': a['rundir'],
            'logname': a['logname'], 'inputs': handle.inputs, 'root': handle.path,
        }
        bad = {k: (v, got.get(k)) for k, v in want.items() if k in got and got.get(k) != v}
        if bad:
            self.flag([*tags, 'P02'], f"{s.at}: reopened project shows {bad} (wanted, got)")

    def on_disk(self, handle):
        """The runs on disk and the branches that have them."""
        tree = self.tree()
        want = {}
        dirs = handle.rundirs()
        branches = handle.attrs['branches'] or (None,)
        for b, d in zip(branches, dirs):
            for p in tree:
                if p.startswith(d + '/') and '/' not in p[len(d) + 1:]:
                    if self.isdir(p):
                        want.setdefault(p[len(d) + 1:], set())
                        if b is not None:
                            want[p[len(d) + 1:]].add(b)
        return want

    def check_listings(self, s, handle, obj, tags):
        """The object's listings agree with the directories on disk."""
        want = self.on_disk(handle)
        try:
            got = {k: set(v) for k, v in obj.runs.items()}
            byb = {k: set(v) for k, v in obj.branches.items()}
        except SimStop:
            raise
        except Exception as err:
            self.flag([*tags, 'P04'], f"{s.at}: cannot list runs: {err!r}")
            return
        if got != want:
            self.flag([*tags, 'P04'], f"{s.at}: runs are listed as {got}, on disk {want}")
        wantb = {
            b: {r for r, bs in want.items() if b in bs}
            for b in handle.attrs['branches']
        }
        if byb != wantb:
            self.flag([*tags, 'P04'], f"{s.at}: branches are listed as {byb}, on disk {wantb}")

    def isdir(self, path):
        try:
            return self.k.fs.lookup(path).kind == 'd'
        except OSError:
            return False

    def judge_open(self, s):
        handle = self.handles[s.op['h']]
        s.frame(handle, ['P06', 'P02'], [], 'opening')
        self.judge_moved_log(s, handle)
        if s.outcome == 'ok':
            s.layout = True
            self.check_layout(s, handle, ['P02', 'P09'])
            self.check_object(s, handle, self.objs.get(s.op['h']))
        elif s.outcome == 'raise' and not s.hard:
            self.flag(['P02'], f"{s.at}: project does not open: {s.value!r}")
        if s.outcome != 'ok':
            self.reopen_check(s, handle, ['P02'])

    def judge_moved_log(self, s, handle, tags=('P05',)):
        """Opening keeps all entries and re-keys them to the actual path."""
        try:
            new = parse_log(s.post, handle.log)
        except ValueError as err:
            self.flag(['P01', *tags], f"{s.at}: log is unreadable: {err}")
            return
        try:
            old = parse_log(s.pre, handle.log)
        except ValueError:
            return
        if old is None:
            return
        if new is None:
            self.flag(['P01'], f"{s.at}: log has disappeared")
            return
        where = getattr(handle, 'was', None)
        want = rekey(old, where, handle.path) if where else old
        if new == want or (s.outcome != 'ok' and new == old):
            if new == want and s.outcome == 'ok':
                handle.was = None
            return
        self.flag(['P01', 'P05'] if where else ['P01', 'P02'],
                  f"{s.at}: opening changed the log: {diff(want, new)} (wanted, got)")

    def judge_overwrite(self, s):
        handle = self.handles[s.op['h']]
        s.frame(handle, ['P02', 'P06'], [], 'overwriting attributes')
        s.log_unchanged(handle, ['P02'])
        if s.outcome == 'ok':
            self.flag(['P02'], f"{s.at}: accepted attributes {s.op['attrs']} for an existing project")
        self.reopen_check(s, handle, ['P02'])

    def judge_show(self, s):
        handle = self.handles[s.op['h']]
        s.frame(handle, ['P06', 'P04'], [], 'showing')
        s.log_unchanged(handle, ['P01', 'P04'])
        if s.outcome == 'raise' and not s.hard:
            self.flag(['P04', 'P09'], f"{s.at}: cannot show project: {s.value!r}")
        if s.outcome != 'ok' or s.hard or self.shown is None:
            return
        runs = self.on_disk(handle)
        if s.op.get('runs'):
            names = list(runs) if s.op['runs'] == ['*'] else s.op['runs']
            want = sorted(
                f"{handle.path}/{b + '/' if b else ''}{handle.attrs['rundir']}/{r}"
                for r in names if r in runs for b in runs[r] or ('',)
            )
            got = sorted(x for x in self.shown.splitlines() if x.startswith('/'))
            if got != want:
                self.flag(['P04'], f"{s.at}: showing {s.op['runs']} displays {got}, should be {want}")
            return
        section, got = None, {}
        for line in self.shown.splitlines():
            if line in ('Runs', *(f'Branch {b}' for b in handle.attrs['branches'])):
                section = line.partition(' ')[2]
            elif line and section is not None and set(line) != {'-'}:
                got.setdefault(section, []).append(line)
        want = {b: sorted(r for r in runs if not b or b in runs[r]) for b in handle.attrs['branches'] or ('',)}
        got = {b: sorted(x) for b, x in got.items()}
        want = {b: x for b, x in want.items() if x}
        if got != want:
            self.flag(['P04'], f"{s.at}: the project is displayed with runs {got}, should be {want}")

    # -- runs --------------------------------------------------------------------
    def judge_run(self, s):
        op = s.op
        handle = self.handles[op['h']]
        via = ['P12'] if op.get('via') == 'script' else []
        dirs = handle.rundirs(subset(op))
        pre, post = s.pre, s.post
        name = op.get('name')
        recs = s.info['children']
        source = self.find_config(pre, handle, op['config'])
        clocky = name is None
        # which directories are new
        new = []
        for d in handle.rundirs():
            for p in post:
                if p.startswith(d + '/') and '/' not in p[len(d) + 1:] and p not in pre:
                    new.append(p)
        base = ['P11'] if clocky else []
        if name is not None:
            valid = '/' not in name and name not in ('.', '..')
            targets = {d: d + '/' + name for d in dirs}
            blocked = [t for t in targets.values()
                       if not valid or self.in_tree(pre, t)]
            free = [t for t in targets.values() if t not in blocked]
        else:
            valid = True
            names = {p.rpartition('/')[2] for p in new}
            if len(names) > 1:
                self.flag(['P04', 'P11'], f"{s.at}: one request created runs with names {sorted(names)}")
            got = next(iter(names), None)
            blocked, free = [], [p for p in new if p.rpartition('/')[0] in dirs]
            if s.outcome == 'ok' and not s.hard and source is not None:
                missing = [d for d in dirs if not any(p.startswith(d + '/') for p in new)]
                if missing:
                    # allowed only if the name that would have been used exists
                    if not self.clock_collision(s, pre, missing, got):
                        self.flag(['P11', 'P09', 'P04'], f"{s.at}: nothing was run in {missing}")
                    else:
                        self.cover[('probe', 'clock-collision', ())] = 1
        stray = [p for p in new if p not in free]
        if stray:
            self.flag(['P04', 'P06', *base, *via], f"{s.at}: unexpected new runs {stray}")
        # frame: everything but new run directories and the log
        s.frame(handle, ['P06', 'P04', *base, *via], [p for p in new if p in free],
                f"running {name!r}")
        executed = [p for p in new if p in free]
        byrun = {}
        for r in recs:
            byrun.setdefault(r['cwd'], []).append(r)
        power = 'power' in s.info['fired']
        for cwd, rs in byrun.items():
            if cwd not in executed and not power:
                self.flag(['P10', 'P03', *base, *via], f"{s.at}: program was started in {cwd}, which is not a new run directory")
            if len(rs) > 1:
                self.flag(['P10', 'P03', *via], f"{s.at}: program was started {len(rs)} times in {cwd}")
        # the log
        log0, log1 = s.logs(handle, ['P01', 'P03', *via])
        if log1 is not None and log0 is not None:
            lost = {k: v for k, v in log0.items() if k not in executed and (k not in log1 or log1[k] != v)}
            if lost:
                self.flag(['P01', 'P03', *base, *via], f"{s.at}: entries lost or changed: {short(lost)}")
            extra = [k for k in log1 if k not in log0 and k not in executed]
            if extra:
                self.flag(['P03', *base, *via], f"{s.at}: entries appeared for {extra}")
            last = recs[-1]['cwd'] if recs else None
            for p in executed:
                r = byrun.get(p, [None])[0]
                done = r is not None and r['ended'] is not None and r['code'] == 0
                fresh = p in log1 and (p not in log0 or log1[p] != log0[p])
                if fresh and not done:
                    self.flag(['P03', *via], f"{s.at}: entry for {p} although its process "
                              f"{'did not succeed: ' + str(r['code']) if r else 'was never started'}")
                if done and p not in log1:
                    if s.outcome == 'ok' or p != last:
                        self.flag(['P03', 'P09', *via], f"{s.at}: process in {p} succeeded but there is no entry")
                if done and p in log1 and (fresh or s.outcome == 'ok' or p != last):
                    self.check_entry(s, handle, p, r, log1[p], via, clocky)
        # what was executed
        for r in recs:
            if r['cwd'] in executed:
                self.check_command(s, handle, op, r, source, via)
        for p in executed:
            r = byrun.get(p, [None])[0]
            if r is not None and r['ended'] is not None and not power:
                self.check_output(s, handle, p, r, via)
        if s.outcome == 'ok':
            # complete success, or refused silently
            if source is None and free:
                self.flag(['P10', 'P09', *via], f"{s.at}: run succeeded without a configuration file")
            missing = [t for t in free if t not in executed]
            if missing and name is not None:
                self.flag(['P09', 'P04', *via] if s.hard else ['P04', 'P10', *via], f"{s.at}: not executed: {missing}")
            for p in executed:
                if p not in byrun:
                    self.flag(['P10', 'P09', *via], f"{s.at}: nothing was launched for {p}")
            if op.get('errors') and blocked:
                self.flag(['P04', *via], f"{s.at}: no error for {blocked}")
        elif s.outcome == 'raise' and not s.hard:
            launch = any(c.get('launch') for c in op.get('children', ())[:len(dirs) or 1])
            legit = (
                source is None or launch or (op.get('errors') and blocked)
            )
            if clocky and op.get('errors'):
                legit = legit or self.clock_collision(s, pre, dirs, None)
            if not legit:
                self.flag(['P04', 'P10', *base, *via], f"{s.at}: run failed without a reason: {s.value!r}")
        self.after(s, handle)

    def clock_collision(self, s, pre, dirs, got):
        """Could the clock have produced a name that is taken?"""
        stamps = set()
        import datetime
        for t in s.info['readings']:
            for back in range(0, 1):
                d = patch._real['datetime'].fromtimestamp(t, datetime.timezone.utc)
                stamps.add(d.strftime('%Y-%m-%dT%H-%M-%S.%f'))
                stamps.add(d.strftime('%Y-%m-%dT%H-%M-%S'))
        if got:
            stamps.add(got)
        return any(self.in_tree(pre, d + '/' + n) for d in dirs for n in stamps)

    def find_config(self, tree, handle, config):
        """The bytes of the requested configuration file."""
        if config.startswith('/'):
            cands = [config]
        elif config.startswith('~/'):
            cands = [handle.inputs + '/' + config, HOME + config[1:]]
        else:
            cands = [handle.inputs + '/' + config, self.proc.cwd + '/' + config]
        for c in cands:
            node = tree.get(os.path.normpath(c))
            if node is not None and node[0] == 'l':
                node = tree.get(node[1])
            if node is not None and node[0] == 'f':
                return node[1]
        return None

    @staticmethod
    def in_tree(tree, path):
        return path in tree

    def check_entry(self, s, handle, p, r, entry, via, clocky):
        if not isinstance(entry, dict):
            self.flag(['P03', *via], f"{s.at}: entry for {p} is {short(entry)}")
            return
        cmd = entry.get('command')
        if r['command'] is not None:
            good = cmd == r['command']
        else:
            try:
                good = shlex.split(cmd) == r['tokens']
            except (ValueError, AttributeError, TypeError):
                good = cmd == r['tokens']
        if not good:
            self.flag(['P03', *via], f"{s.at}: entry for {p} records command {cmd!r}, executed {r['command'] or r['tokens']!r}")
        import datetime
        text = str(entry.get('time'))
        fmt = '%Y-%m-%dT%H:%M:%S'
        # the start: any clock reading between the previous launch and this one
        idx = s.info['children'].index(r)
        allowed = {
            patch._real['datetime'].fromtimestamp(x, datetime.timezone.utc).strftime(fmt)
            for x in s.readings_before(r, idx)
        }
        allowed.add(patch._real['datetime'].fromtimestamp(r['start'], datetime.timezone.utc).strftime(fmt))
        if text not in allowed:
            self.flag(['P03', 'P11', *via], f"{s.at}: entry for {p} records start time {text}, the clock read {sorted(allowed)} when it was launched")

    def check_command(self, s, handle, op, r, source, via):
        a = handle.attrs
        tree = r['tree']
        cfg = tree.get(r['cwd'] + '/' + a['config'])
        if cfg is None:
            self.flag(['P10', *via], f"{s.at}: no {a['config']} in {r['cwd']} at launch")
        elif source is not None and cfg != ('f', source):
            self.flag(['P10', 'P09', *via], f"{s.at}: {a['config']} in {r['cwd']} is not the requested configuration: {short(cfg, 120)}")
        tokens = r['tokens']
        if tokens is None:
            self.flag(['P10', *via], f"{s.at}: command cannot be parsed by the shell: {r['command']!r}")
            return
        branch = r['cwd'].rpartition('/')[0].rpartition('/')[0]
        pos = []
        for prog in ('mpirun', 'eprem'):
            want = self.locate(s, branch, prog, op.get('env') or {})
            hits = [i for i, t in enumerate(tokens) if t in want]
            if not hits:
                self.flag(['P10', *via], f"{s.at}: command {tokens} does not use {prog} {sorted(want)}")
                return
            pos.append(hits[0] if prog == 'mpirun' else hits[-1])
        i, j = pos
        if not i < j:
            self.flag(['P10', *via], f"{s.at}: command {tokens} does not launch eprem with mpirun")
            return
        opts = tokens[i + 1:j]
        n = op.get('nproc')
        n = str(1 if n is None else n)
        count = None
        for x, y in zip(opts, opts[1:]):
            if x in ('-n', '-np', '-c', '--n', '--np'):
                count = y
        if count != n:
            self.flag(['P10', *via], f"{s.at}: command {tokens} uses {count} processes instead of {n}")
        args = tokens[j + 1:]
        if args != [a['config']] and args != [r['cwd'] + '/' + a['config']]:
            self.flag(['P10', *via], f"{s.at}: command {tokens} does not read {a['config']}")

    def locate(self, s, branch, prog, env):
        pre = s.pre
        given = env.get(prog)
        if given:
            path = given
            if not path.startswith('/'):
                path = self.proc.cwd + '/' + path
            path = os.path.normpath(path)
        else:
            path = branch + '/' + prog
        if path in pre:
            out = {path}
            node = pre[path]
            if node[0] == 'l':
                t = node[1]
                if not t.startswith('/'):
                    t = os.path.normpath(path.rpartition('/')[0] + '/' + t)
                if t in pre:
                    return {path, t}
                # dangling: as if it were not there
            else:
                return out
        out = {prog}
        for d in ('/sim/bin', '/sim/usr/bin'):
            q = d + '/' + prog
            if q in pre:
                try:
                    if self.k.fs.lookup(q).mode & 0o111:
                        out.add(q)
                        break
                except OSError:
                    pass
        return out

    def check_output(self, s, handle, p, r, via):
        out = p + '/' + handle.attrs['output']
        node = s.post.get(out)
        text = node[1] if node and node[0] == 'f' else None
        if text is None or b'EPREM out\n' not in text or b'EPREM err\n' not in text:
            self.flag(['P10', *via], f"{s.at}: output of the run in {p} is not in {out}: {short(node)}")

    def judge_mv(self, s):
        op = s.op
        handle = self.handles[op['h']]
        via = ['P12'] if op.get('via') == 'script' else []
        dirs = handle.rundirs(subset(op))
        pre, post = s.pre, s.post
        src, dst = op['source'], op['target']
        named = all(n and '/' not in n and n not in ('.', '..') for n in (src, dst))
        pairs = [(d + '/' + src, d + '/' + dst) for d in dirs]
        valid, blocked = [], []
        for a, b in pairs:
            if named and a in pre and self.pre_isdir(pre, a) and b not in pre:
                valid.append((a, b))
            else:
                blocked.append((a, b))
        moved = [(a, b) for a, b in valid if a not in post and b in post]
        touched = [x for pair in valid for x in pair]
        s.frame(handle, ['P06', 'P04', *via], touched, f"moving {src!r} to {dst!r}")
        for a, b in valid:
            if (a, b) in moved:
                if rel(post, b) != rel(pre, a):
                    self.flag(['P04', 'P06', *via], f"{s.at}: contents changed while moving {a}: {diff(rel(pre, a), rel(post, b))}")
            elif under(post, a) != under(pre, a) or b in post:
                self.flag(['P04', 'P06', *via], f"{s.at}: {a} was neither moved nor left alone")
        log0, log1 = s.logs(handle, ['P01', 'P04', *via])
        if log0 is not None and log1 is not None:
            self.judge_keys(s, log0, log1, moved, [], ['P01', 'P04', *via], valid)
        self.judge_finish(s, valid, moved, blocked, via, f"move {src!r} to {dst!r}")
        self.after(s, handle)

    def judge_keys(self, s, log0, log1, moved, removed, tags, valid=()):
        """Log keys after moving or removing runs."""
        mv = dict(moved)
        gone = set(removed)
        if s.outcome == 'ok':
            want = {k: v for k, v in log0.items() if k not in mv and k not in gone}
            for a, b in moved:
                if a in log0:
                    want[b] = log0[a]
            if want != log1:
                self.flag([*tags, 'P09'] if s.hard else tags, f"{s.at}: log has {diff(want, log1)} (wanted, got)")
            return
        about = set(mv) | set(mv.values()) | gone
        for a, b in valid:
            about |= {a, b}
        for k, v in log0.items():
            if k not in about and log1.get(k, None) != v:
                self.flag(tags, f"{s.at}: entry {k} lost or changed")
        for k in log1:
            if k not in about and k not in log0:
                self.flag(tags, f"{s.at}: entry {k} appeared")
        for a, b in valid:
            if a in log0:
                here = [k for k in (a, b) if k in log1 and log1[k] == log0[a]]
                if len(here) != 1:
                    self.flag(tags, f"{s.at}: entry of {a} is under {here} after the move was cut short")

    def pre_isdir(self, pre, path, depth=0):
        node = pre.get(path)
        if node is None or depth > 5:
            return False
        if node[0] == 'l':
            t = node[1]
            if not t.startswith('/'):
                t = os.path.normpath(path.rpartition('/')[0] + '/' + t)
            return self.pre_isdir(pre, t, depth + 1)
        return node[0] == 'd'

    def judge_finish(self, s, valid, done, blocked, via, what):
        """Outcome rules shared by mv and rm."""
        errors = s.op.get('errors', False)
        if s.outcome == 'ok':
            if len(done) != len(valid):
                left = [v for v in valid if v not in done]
                self.flag(['P04', *(['P09'] if s.hard else []), *via], f"{s.at}: request to {what} succeeded but left {left}")
            if errors and blocked:
                self.flag(['P04', *via], f"{s.at}: no error for {blocked}")
        elif s.outcome == 'raise' and not s.hard:
            if not (errors and blocked):
                self.flag(['P04', *via], f"{s.at}: request to {what} failed without a reason: {s.value!r}")

    def judge_rm(self, s):
        op = s.op
        handle = self.handles[op['h']]
        via = ['P12'] if op.get('via') == 'script' else []
        self._judge_rm(s, handle, op['pattern'], subset(op), via)

    def judge_reset(self, s):
        handle = self.handles[s.op['h']]
        self._judge_rm(s, handle, '*', None, [])

    def _judge_rm(self, s, handle, pattern, chosen, via):
        pre, post = s.pre, s.post
        valid, blocked, odd = [], [], False
        weird = '/' in pattern or '**' in pattern or pattern in ('.', '..', '')
        for d in handle.rundirs(chosen):
            for p in pre:
                if p.startswith(d + '/') and '/' not in p[len(d) + 1:]:
                    name = p[len(d) + 1:]
                    if fnmatch.fnmatchcase(name, pattern) and not weird:
                        (valid if self.pre_isdir(pre, p) else blocked).append(p)
                    elif weird:
                        odd = True
        if weird:
            # an unusual pattern: whatever it does, only runs may go
            gone = [p for d in handle.rundirs(chosen) for p in pre
                    if p.startswith(d + '/') and '/' not in p[len(d) + 1:]
                    and (p not in post or s.outcome != 'ok') and self.pre_isdir(pre, p)]
            if pattern in ('', '.', '..') or '..' in pattern.split('/'):
                allowed = []
            elif pattern.strip('*') == '':
                allowed = gone
            else:
                allowed = []
            s.frame(handle, ['P06', 'P04', *via], allowed, f"removing {pattern!r}")
            log0, log1 = s.logs(handle, ['P01', 'P04', *via])
            if log0 is not None and log1 is not None:
                for k, v in log0.items():
                    if k not in allowed and log1.get(k) != v:
                        self.flag(['P06', 'P04', *via], f"{s.at}: entry {k} vanished with pattern {pattern!r}")
            self.after(s, handle)
            return
        s.frame(handle, ['P06', 'P04', *via], valid, f"removing {pattern!r}")
        removed = [p for p in valid if p not in post]
        for p in valid:
            if p in removed:
                continue
            if s.outcome != 'crash' and not s.hard or s.outcome == 'ok':
                if under(post, p) != under(pre, p):
                    self.flag(['P04', *via], f"{s.at}: {p} was neither removed nor left alone")
            else:
                a, b = under(pre, p), under(post, p)
                bad = [q for q in b if q not in a or a[q] != b[q]]
                if bad:
                    self.flag(['P04', 'P06', *via], f"{s.at}: {bad} changed while removing {p}")
        log0, log1 = s.logs(handle, ['P01', 'P04', *via])
        if log0 is not None and log1 is not None:
            if s.outcome == 'ok':
                self.judge_keys(s, log0, log1, [], removed, ['P04', *via])
            else:
                for k, v in log0.items():
                    if k not in valid and log1.get(k) != v:
                        self.flag(['P01', 'P04', *via], f"{s.at}: entry {k} lost or changed")
                for k, v in log1.items():
                    if k not in log0 or log0[k] != v:
                        self.flag(['P01', *via], f"{s.at}: entry {k} appeared or changed")
                if s.outcome == 'raise' and not s.hard:
                    stale = [p for p in removed if p in log1]
                    if stale:
                        self.flag(['P04', *via], f"{s.at}: entries of removed runs remain: {stale}")
                    ghost = [p for p in valid if p not in removed and p in log0 and p not in log1]
                    if ghost:
                        self.flag(['P04', *via], f"{s.at}: entries of remaining runs vanished: {ghost}")
        self.judge_finish(s, valid, removed, blocked, via, f"remove {pattern!r}")
        self.after(s, handle)

    def judge_rename(self, s):
        op = s.op
        handle = self.handles[op['h']]
        old = handle.path
        new = op['target']
        if not new.startswith('/'):
            new = self.proc.cwd + '/' + new
        new = os.path.normpath(new)
        pre, post = s.pre, s.post
        blocked = new in pre or new.rpartition('/')[0] not in pre or new.startswith(old + '/')
        tags = ['P05']
        # frame outside of both paths
        def outside(tree):
            return {p: v for p, v in tree.items()
                    if not any(p == q or p.startswith(q + '/') for q in (old, new))}
        s.same(outside(pre), outside(post), ['P06', 'P05'], 'renaming')
        if blocked:
            keep = s.heal(handle)
            s.same({p: v for p, v in under(pre, new).items() if not p.startswith(old + '/')},
                   {p: v for p, v in under(post, new).items() if not p.startswith(old + '/')},
                   ['P05', 'P06'], f"renaming onto {new}")
            s.same(under(pre, old), under(post, old), ['P05'], 'renaming refused',
                   ignore=s.selfheal(handle))
            s.log_unchanged(handle, ['P05', 'P01'])
            if s.outcome == 'ok':
                self.flag(['P05', 'P09'], f"{s.at}: renaming {old} to {new} reported success")
            self.after(s, handle)
            return
        here = [q for q in (old, new) if q in post]
        if len(here) != 1:
            self.flag(['P05'], f"{s.at}: after renaming {old} to {new}, the project is at {here}")
            handle.state = 'gone'
            return
        if s.outcome == 'ok' and here == [old]:
            self.flag(['P05', 'P09'], f"{s.at}: renaming {old} to {new} reported success but did not happen")
        if s.outcome == 'raise' and not s.hard:
            self.flag(['P05'], f"{s.at}: renaming {old} to {new} failed: {s.value!r}")
        now = here[0]
        skip = s.internal(handle)
        a = {p: v for p, v in rel(pre, old).items() if p not in skip}
        b = {p: v for p, v in rel(post, now).items() if p not in skip}
        # re-created standard parts are fine
        std = {q[len(old):] for q in s.standard(handle)}
        b2 = {p: v for p, v in b.items() if p in a or p not in std}
        if s.hard or s.outcome == 'crash':
            b2 = {p: v for p, v in b2.items() if p in a or not s.is_temp(p)}
        if a != b2:
            self.flag(['P05'], f"{s.at}: contents changed while renaming: {diff(a, b2)}")
        try:
            log0 = parse_log(pre, handle.log)
        except ValueError:
            log0 = None
        was = getattr(handle, 'was', None)
        handle.path = now
        try:
            log1 = parse_log(post, handle.log)
        except ValueError as err:
            self.flag(['P01', 'P05'], f"{s.at}: log is unreadable after renaming: {err}")
            log1 = None
        if log0 is not None:
            if was:
                log0b = rekey(log0, was, old)
            else:
                log0b = log0
            want = rekey(log0b, old, new)
            if s.outcome == 'ok':
                if log1 != want:
                    self.flag(['P05'], f"{s.at}: log after renaming has {diff(want, log1 or {})} (wanted, got)")
            elif log1 is not None:
                vals0 = {}
                for k, v in log0b.items():
                    k2 = rekey({k: v}, old, new)
                    k2 = next(iter(k2))
                    hits = [q for q in {k, k2} if q in log1 and log1[q] == v]
                    if was:
                        k0 = next(iter(rekey({k: v}, old, was)))
                        hits += [q for q in {k0} - {k, k2} if q in log1 and log1[q] == v]
                    if len(hits) != 1:
                        self.flag(['P01', 'P05'], f"{s.at}: entry {k} is under {hits} after a rename that was cut short")
        if s.outcome == 'ok':
            handle.was = None
            obj = self.objs.get(op['h'])
            if obj is not None:
                self.check_object(s, handle, obj, tags=['P05'])
                self.check_listings(s, handle, obj, ['P05'])
            seen = self.reopen_check(s, handle, ['P05'])
        else:
            if now == new:
                handle.was = old if not was else was
            self.objs.pop(op['h'], None)
            # "after opening, its log refers to runs at that path"
            seen = self.reopen_check(s, handle, ['P05'])
            if seen is not None and log0 is not None and now == new:
                want = rekey(log0b, old, new)
                if seen != want:
                    self.flag(['P05'], f"{s.at}: after reopening, log has {diff(want, seen)} (wanted, got)")
                handle.was = None
            elif now == old:
                if seen is not None and log0 is not None and seen != log0b:
                    self.flag(['P05', 'P01'], f"{s.at}: after reopening, log has {diff(log0b, seen)}")

    def judge_remove(self, s):
        op = s.op
        handle = self.handles[op['h']]
        root = handle.path
        out0 = {p: v for p, v in s.pre.items() if not (p == root or p.startswith(root + '/'))}
        out1 = {p: v for p, v in s.post.items() if not (p == root or p.startswith(root + '/'))}
        s.same(out0, out1, ['P06'], 'removing a project')
        if s.outcome == 'ok':
            if root in s.post:
                if not (op.get('force') and s.hard):
                    self.flag(['P09', 'P06'], f"{s.at}: removed project is still there")
            obj = self.objs.pop(op['h'], None)
            if obj is not None and bool(obj) and not op.get('via'):
                self.flag(['P09'], f"{s.at}: removed project is still valid")
        elif s.outcome == 'raise' and not s.hard:
            self.flag(['P09'], f"{s.at}: cannot remove project: {s.value!r}")
        a, b = under(s.pre, root), under(s.post, root)
        bad = [p for p in b if (p not in a or a[p] != b[p]) and p not in s.selfheal(handle) and not s.is_temp(p[len(root):])]
        if bad:
            self.flag(['P06'], f"{s.at}: removing changed {bad[:3]}")
        self.objs.pop(op['h'], None)
        handle.state = 'gone'
        if root in s.post:
            self.k.fs.remove_tree(root)
            self.k.fs.sync_all()

    def judge_log(self, s):
        op = s.op
        handle = self.handles[op['h']]
        s.frame(handle, ['P06', 'P01'], [], 'editing the log')
        log0, log1 = s.logs(handle, ['P01'])
        if log1 is None:
            return
        if log0 is None:
            log0 = {}
            base = {k: v for k, v in log1.items() if not k.startswith('/')}
            log0.update(base)
        act = op['act']
        key = self.logkey(op, op['key'])
        want = dict(log0)
        legit = True
        value = op.get('value')
        bad = isinstance(value, str) and value.startswith('<')
        if act == 'create':
            if bad:
                legit = False
            else:
                want[key] = value
        elif act == 'append':
            if key not in log0 or bad:
                legit = False
            else:
                want[key] = {**log0[key], op['field']: value}
        elif act == 'load':
            if op['file'] == '/sim/data/entry.json':
                want[key] = {'command': 'loaded', 'n': 3}
            elif op['file'] == '/sim/data/empty.json':
                want[key] = {}
            else:
                legit = False
        elif act == 'mv':
            to = self.logkey(op, op['to'])
            if key not in log0:
                legit = False
            else:
                want = {k: v for k, v in log0.items() if k != key}
                want[to] = log0[key]
        elif act == 'rm':
            want.pop(key, None)
        if s.outcome == 'ok':
            if not legit:
                self.flag(['P01'], f"{s.at}: impossible log operation {act} {key} succeeded")
            elif log1 != want:
                self.flag(['P01', *(['P09'] if s.hard else [])], f"{s.at}: log has {diff(want, log1)} (wanted, got)")
            elif s.value != want:
                self.flag(['P01'], f"{s.at}: log object shows {diff(want, s.value)} (wanted, got)")
        else:
            if s.outcome == 'raise' and legit and not s.hard:
                self.flag(['P01'], f"{s.at}: log operation failed: {s.value!r}")
            if s.outcome == 'raise' and log1 != log0 and not (s.hard and legit and log1 == want):
                self.flag(['P01'], f"{s.at}: log operation raised {s.value!r} but changed the log: {diff(log0, log1)}")
            if s.outcome == 'crash' and log1 not in (log0, want):
                self.flag(['P01'], f"{s.at}: log is in between after a crash: {diff(log0, log1)}")
        self.after(s, handle)

    def after(self, s, handle):
        """Checks after every operation on a live project."""
        obj = self.objs.get(s.op['h'])
        if s.outcome == 'ok' and obj is not None:
            self.check_object(s, handle, obj)
            self.check_listings(s, handle, obj, [])
            try:
                mine = dict(obj.log)
                disk = parse_log(self.tree(), handle.log)
                if mine != disk:
                    self.flag(['P01'], f"{s.at}: project log shows {diff(disk, mine)}")
            except SimStop:
                raise
            except ValueError:
                pass
            except Exception as err:
                self.flag(['P01'], f"{s.at}: log object is unusable: {err!r}")
        if s.outcome != 'ok':
            self.reopen_check(s, handle, ['P02', *(['P01'] if s.op['op'] == 'log' else [])])
            if s.outcome == 'raise' and obj is not None and not self.proc.dead:
                self.check_object(s, handle, obj, tags=['P09'])


def subset(op):
    b = op.get('branches')
    if not b:
        return None
    return {b} if isinstance(b, str) else set(b)


def rekey(log, old, new):
    out = {}
    for k, v in log.items():
        if k == old or k.startswith(old + '/'):
            k = new + k[len(old):]
        out[k] = v
    return out


def diff(a, b):
    """What differs between two mappings."""
    if not isinstance(a, dict) or not isinstance(b, dict):
        return f"{short(a)} != {short(b)}"
    out = []
    for k in sorted(set(a) | set(b), key=str):
        if k not in a:
            out.append(f"+{k}: {short(b[k], 80)}")
        elif k not in b:
            out.append(f"-{k}: {short(a[k], 80)}")
        elif a[k] != b[k]:
            out.append(f"{k}: {short(a[k], 80)} -> {short(b[k], 80)}")
    return '; '.join(out[:4]) + (f" (+{len(out) - 4} more)" if len(out) > 4 else '')


class Step:
    """One executed operation with everything the oracles need."""

    def __init__(self, world, i, op, pre, post, outcome, value, info, hard):
        self.w = world
        self.i = i
        self.op = op
        self.pre = pre
        self.post = post
        self.outcome = outcome
        self.value = value
        self.info = info
        self.hard = hard
        self.at = f"step {i} ({op['op']}, {outcome})"

    def is_temp(self, relpath):
        """A hidden left-over of an interrupted write."""
        return relpath.rpartition('/')[2].startswith('.') or relpath.endswith(('.tmp', '~', '.lock', '.bak'))

    def is_project(self, root):
        return any(h.path == root and h.state == 'live' for h in self.w.handles.values())

    def has_conf(self, root, handle):
        """Is there anything a user would take for a complete project?"""
        t = self.w.tree()
        return all(
            x in t for x in [handle.log, *handle.rundirs(), handle.inputs, root + '/__main__.py']
        )

    def creation_ok(self, handle):
        parent = handle.path.rpartition('/')[0]
        while parent and parent not in self.pre:
            parent = parent.rpartition('/')[0]
        return self.pre.get(parent, ('d',))[0] == 'd'

    def internal(self, handle):
        """Relative paths whose bytes are implementation details."""
        out = {'/.eprem.conf', '/__main__.py', '/' + handle.attrs['logname']}
        out.add('/.' + handle.attrs['logname'] + '.lock')
        return out

    def standard(self, handle):
        out = set(handle.rundirs()) | {handle.inputs, handle.log, handle.path + '/__main__.py'}
        out |= {d.rpartition('/')[0] for d in handle.rundirs()}
        return out

    def selfheal(self, handle):
        return self.standard(handle) | {handle.path + p for p in self.internal(handle)}

    def heal(self, handle):
        return ()

    def same(self, a, b, tags, what, ignore=()):
        if a == b:
            return True
        bad = []
        for p in set(a) | set(b):
            if p in ignore:
                continue
            if a.get(p) != b.get(p):
                bad.append(p)
        if bad:
            bad.sort()
            p = bad[0]
            self.w.flag(tags, f"{self.at}: {what} changed {p}: {short(a.get(p), 80)} -> {short(b.get(p), 80)}"
                        + (f" and {len(bad) - 1} more" if len(bad) > 1 else ''))
            return False
        return True

    def frame(self, handle, tags, touched, what):
        """Nothing but the touched subtrees and the project's own files changed."""
        a, b = self.pre, self.post
        heal = self.selfheal(handle)
        root = handle.path
        bad = []
        for p in set(a) | set(b):
            x, y = a.get(p), b.get(p)
            if x == y:
                continue
            if any(p == t or p.startswith(t + '/') for t in touched):
                continue
            if p in heal:
                if x is None or p[len(root):] in self.internal(handle):
                    if not (y is None and p == handle.log):
                        continue
            if p.startswith(root + '/') and '/' not in p[len(root) + 1:]:
                # temporary files in the top directory after a fault
                if x is None and self.outcome != 'ok' and y[0] == 'f':
                    continue
                if y is None and self.is_temp(p):
                    continue
                if x is None and p[len(root) + 1:].startswith('.') and p.endswith('.lock'):
                    continue
            bad.append(p)
        if bad:
            bad.sort()
            p = bad[0]
            inside = p.startswith(root + '/')
            self.w.flag(tags, f"{self.at}: {what} changed {p}: {short(a.get(p), 80)} -> {short(b.get(p), 80)}"
                        + (f" and {len(bad) - 1} more" if len(bad) > 1 else ''))

    def logs(self, handle, tags):
        try:
            log1 = parse_log(self.post, handle.log)
        except ValueError as err:
            self.w.flag(['P01', *tags], f"{self.at}: log is unreadable: {err}")
            return None, None
        try:
            log0 = parse_log(self.pre, handle.log)
        except ValueError:
            return None, log1
        if log0 is not None and log1 is None:
            self.w.flag(['P01', *tags], f"{self.at}: log has disappeared")
        was = getattr(handle, 'was', None)
        if was and log0 is not None:
            re0 = rekey(log0, was, handle.path)
            if self.outcome == 'ok':
                handle.was = None
                log0 = re0
            else:
                # re-keying on opening may or may not have happened
                if log1 is not None and (
                    any(k.startswith(handle.path + '/') for k in log1) or not any(k.startswith(was + '/') for k in log1)
                ):
                    log0 = re0
        if log0 is None and log1 is not None:
            log0 = {k: v for k, v in log1.items() if not k.startswith('/')}
        return log0, log1

    def log_unchanged(self, handle, tags):
        log0, log1 = self.logs(handle, tags)
        if log0 is not None and log1 is not None and log0 != log1:
            self.w.flag(tags, f"{self.at}: log changed: {diff(log0, log1)}")

    def readings_before(self, rec, idx):
        """Wall-clock readings between the previous launch and this one."""
        lo = self.info['children'][idx - 1]['step'] if idx else -1
        hi = rec['step']
        return [
            r[3] for r in self.w.k.readings if lo < r[2] <= hi and
            r[1] == self.i
        ]
