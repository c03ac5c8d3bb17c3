"""Configuration files: generating, reading and comparing them on a simulated
file system, judged by an independent reading of the same bytes."""
import importlib
import json
import math
import os
import pathlib
import random
import re
import sys

import numpy

from . import engine
from . import patch
from .kernel import (
    Deadlock, HarnessError, Kernel, ProcessKilled, SimStop, StepLimit,
)
from .pworld import Violation, hidden, short

WORK = '/sim/work'
HOME = '/sim/home'
with open(os.path.join(os.path.dirname(__file__), 'params.json')) as _fp:
    _FROZEN = json.load(_fp)
DB = _FROZEN['db']
INFO = _FROZEN['params']
TYPES = {'readInt': int, 'readDouble': float, 'readString': str, 'readDoubleArray': list}
DBFILE = os.path.join(engine.REPO, 'src/eprempy/parameter/reference.json')


# -- reference ---------------------------------------------------------------------
class Reference:
    """Default values, from a table of definitions."""

    def __init__(self, table):
        self.config = table['CONFIGURATION_C']
        self.base = table['BASETYPES_H']
        self.memo = {}

    def constant(self, name):
        if name not in self.memo:
            self.memo[name] = self.eval(self.base[name])
        return self.memo[name]

    def eval(self, text):
        text = text.strip()
        names = {
            n: self.constant(n)
            for n in re.findall(r'\b[A-Z][0-9A-Z_]*\b', re.sub(r'\d[\d.]*[eE][-+]?\d+', ' ', text))
            if n in self.base
        }
        return eval(text, {'__builtins__': {}, 'sqrt': math.sqrt}, names)

    def default(self, key):
        info = self.config[key]
        return self.value(info['defaultVal'], TYPES[info['mode']])

    def value(self, text, kind):
        text = text.strip()
        if kind is str:
            return text
        if kind is list:
            inside = text.strip('[]')
            return [float(self.value(t, float)) for t in inside.split(',')]
        if text == 'N_PROCS':
            return None
        if text == 'third':
            return 1 / 3
        names = set(re.findall(r'config\.(\w+)', text))
        env = {f'c_{n}': self.default(n) for n in names}
        out = re.sub(r'config\.(\w+)', r'c_\1', text)
        for n in re.findall(r'\b[A-Z][0-9A-Z_]*\b', re.sub(r'\d[\d.]*[eE][-+]?\d+', ' ', out)):
            if n in self.base:
                env[n] = self.constant(n)
        v = eval(out, {'__builtins__': {}, 'sqrt': math.sqrt}, env)
        return int(v) if kind is int else float(v)

    def kind(self, key):
        return TYPES[self.config[key]['mode']]

    def defaults(self):
        return {k: self.default(k) for k in self.config}


def parse(text, comments='#'):
    """The settings in a configuration file."""
    out = {}
    for line in text.splitlines():
        for c in comments:
            line = line.split(c)[0]
        line = line.strip()
        if line:
            if '=' not in line:
                raise ValueError(line)
            k, _, v = line.partition('=')
            out[k.strip()] = v.strip()
    return out


def convert(text, kind):
    if kind is int:
        return int(text)
    if kind is float:
        return float(text)
    if kind is list:
        return [float(x) for x in text.strip('[]').split(',')]
    return text


def close(a, b, rel=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    try:
        x = numpy.atleast_1d(numpy.asarray(a))
        y = numpy.atleast_1d(numpy.asarray(b))
        if x.dtype.kind not in 'iuf' or x.shape != y.shape:
            return False
        return bool(numpy.allclose(x.astype(float), y.astype(float), rtol=rel, atol=0))
    except (TypeError, ValueError):
        return False


def csource(table, rng):
    """The C source text that defines the given table."""
    lines = ['#include "configuration.h"', '/* defaults */', '', 'Config_t config;', '']
    body = []
    for key, info in table['CONFIGURATION_C'].items():
        mode = info['mode']
        if mode == 'readString':
            body.append((None, f'  config.{key} = (char*)readString("{key}", "{info["defaultVal"]}");'))
        elif mode == 'readDoubleArray':
            inside = info['defaultVal'].strip('[]')
            name = f'default{key[0].upper()}{key[1:]}'
            body.append((
                f'  Scalar_t {name}[1] = {{{inside}}};',
                f'  config.{key} = readDoubleArray("{key}", 1, &config.{key}Size, {name}, {info["minVal"]}, {info["maxVal"]});',
            ))
        else:
            body.append((None, f'  config.{key} = {mode}("{key}", {info["defaultVal"]}, {info["minVal"]}, {info["maxVal"]});'))
    if rng.random() < 0.7:
        rng.shuffle(body)
    lines += ['void initConfig(void)', '{', '']
    for decl, call in body:
        if decl:
            lines.append(decl)
        if rng.random() < 0.1:
            lines.append(rng.choice(['', '  // readInt("fake", 1, 0, 1)', '  x = y + 1;', '  if (config.useDegrees) {', '  }']))
        lines.append(call)
    lines += ['}', '']
    return '\n'.join(lines)


def header(table, rng):
    lines = ['#ifndef BASETYPES_H', '#define BASETYPES_H', '', '#include <math.h>', '']
    items = list(table['BASETYPES_H'].items())
    if rng.random() < 0.5:
        rng.shuffle(items)
    for k, v in items:
        lines.append(f'#define {k}{" " * rng.randrange(1, 9)}{v}')
    lines += ['', 'typedef double Scalar_t;', '#endif', '']
    return '\n'.join(lines)


def variant(rng):
    """A modified table of definitions."""
    out = {'BASETYPES_H': dict(DB['BASETYPES_H']), 'CONFIGURATION_C': {}}
    keys = list(DB['CONFIGURATION_C'])
    for k in keys:
        info = dict(DB['CONFIGURATION_C'][k])
        if rng.random() < 0.25 and k != 'useDegrees':
            mode = info['mode']
            if mode == 'readInt' and info['defaultVal'] != 'N_PROCS':
                info['defaultVal'] = str(rng.randrange(1, 5000))
            elif mode == 'readDouble' and re.fullmatch(r'[-+.\deE]+', info['defaultVal']):
                info['defaultVal'] = rng.choice(['0.125', '7.5', '1.0e-3', '2500e5', '3.0', 'config.tDel', 'HALF_PI', 'RSAU'])
                if info['defaultVal'] == 'config.tDel' and k in ('tDel',):
                    info['defaultVal'] = '0.5'
            elif mode == 'readString':
                info['defaultVal'] = rng.choice(['out.txt', '/data/mhd', ''])
            elif mode == 'readDoubleArray':
                info['defaultVal'] = rng.choice(['[0.5]', '[2.0]', '[config.rScale]'])
        out['CONFIGURATION_C'][k] = info
    out['CONFIGURATION_C']['tDel']['defaultVal'] = rng.choice(['0.01041666666667', '0.02'])
    if 'config' in out['CONFIGURATION_C']['rScale']['defaultVal']:
        out['CONFIGURATION_C']['rScale']['defaultVal'] = 'RSAU'
    extra = random.Random(rng.random())
    tdel = out['CONFIGURATION_C']['tDel']['defaultVal']
    if extra.random() < 0.3:
        # a sum may vanish
        out['CONFIGURATION_C']['simStartTime']['defaultVal'] = f'-{tdel}'
    for k in extra.sample(['eMax', 'mhdBAu', 'gammaElow', 'simStopTime'], extra.randrange(3)):
        out['CONFIGURATION_C'][k]['defaultVal'] = extra.choice([
            'config.tDel - 0.02', '0.02 - config.tDel', '2.0 * config.tDel', 'config.tDel / 4.0',
            'PI / 2.0', 'RSUN / AU', 'config.tDel * config.tDel', 'config.tDel + 1.0', '0.0', '-1.0',
        ])
    out['BASETYPES_H']['RSUN'] = rng.choice(['6.96e10', '6.957e10'])
    out['BASETYPES_H']['MP'] = rng.choice(['1.6726e-24', '1.67262192e-24'])
    return out


# -- plans -------------------------------------------------------------------------------
FILES = ['a.cfg', 'b.cfg', 'c d.cfg', 'sub/e.cfg', 'sub/a.cfg']
TARGETS = ['gen.cfg', 'old.cfg', 'old.cfg', 'a.cfg', 'link.cfg', '~/home.cfg', 'nodir/x.cfg', 'sub/g.ini']
FAULTS = {
    'C01': ['crash', 'crash', 'power', 'power', 'err', 'err', 'torn', 'short', 'diskfull', 'broken'],
    'C02': ['err', 'err', 'err', 'short', 'diskfull'],
    'C03': ['err', 'err', 'err', 'short'],
    'C04': ['err', 'err', 'short'],
}
WEIGHTS = {
    'C01': {'gen': 8, 'write': 2, 'iface': 1, 'compare': 0.3, 'source': 1},
    'C02': {'gen': 5, 'readback': 6, 'iface': 2, 'write': 2, 'compare': 0.7, 'source': 2, 'defaults': 2},
    'C03': {'iface': 7, 'cfgobj': 6, 'cfgdiff': 2, 'write': 5, 'gen': 1, 'defaults': 1, 'source': 1},
    'C04': {'compare': 9, 'cfgdiff': 4, 'write': 5, 'gen': 1.5, 'source': 1, 'iface': 1},
}


def random_value(key, rng):
    kind = TYPES[DB['CONFIGURATION_C'][key]['mode']]
    if key == 'useDegrees':
        return rng.choice(['0', '1'])
    if kind is int:
        return str(rng.choice([0, 1, 2, 7, 4096, -3]))
    if kind is float:
        return rng.choice(['0.0', '1.5', '2.5e-4', '1500e5', '45.0', '-3.25', '1e-33', '0.5', '.5', '7', '45.00', '2.5E-4', '1E-33', '+1.5'])
    if kind is list:
        return rng.choice(['[1.0]', '[0.5, 1.25]', '[1, 2, 3.5]', '[0.25,0.75]', '2.5', '1.0'])
    return rng.choice(['out.txt', '/data/run=3/x', 'with space', 'a,b', "'quoted'", 'Out.TXT', '/Data/run=3/x', 'With Space'])


def random_config(rng, rich=True):
    keys = sorted(DB['CONFIGURATION_C'])
    lines = []
    n = rng.choice([0, 1, 3, 8, 20, 60])
    for key in rng.sample(keys, n):
        v = random_value(key, rng)
        r = rng.random()
        if not rich or r < 0.5:
            line = f'{key}={v}'
        elif r < 0.65:
            line = f'{key} = {v}'
        elif r < 0.75:
            line = f'  {key}\t=  {v}  '
        elif r < 0.9:
            line = f'{key}={v} # set on purpose = yes'
        else:
            line = f'{key}={random_value(key, rng)}\n{key}={v}'
        if rich and TYPES[DB['CONFIGURATION_C'][key]['mode']] is str and rng.random() < 0.2:
            line = f'{key}={v} ! aside'
        lines.append(line)
        if rich and rng.random() < 0.15:
            lines.append(rng.choice(['', '   ', '\t', '# comment', '  # indented = comment', '#', '#a=b', '!a=b']))
    if rng.random() < 0.2:
        lines.append('unknownParameter=12')
    if rng.random() < 0.3:
        lines.insert(rng.randrange(len(lines) + 1), 'useDegrees=' + rng.choice(['0', '1']))
    text = '\n'.join(lines)
    return text + ('\n' if rng.random() < 0.8 or not text else '')


def generate(seed, prop):
    rng = random.Random(f"files-{prop}-{seed}")
    weights = WEIGHTS[prop]
    kinds = sorted(weights)
    ops = []
    for _ in range(rng.randrange(2, 8)):
        kind = rng.choices(kinds, [weights[k] for k in kinds])[0]
        source = rng.choice([None, None, None, '/sim/src1', '/sim/src2'])
        if kind == 'gen':
            ops.append({'op': 'gen', 'path': rng.choice(TARGETS), 'source': source,
                        'via': rng.choice([None, 'run']), 'verbose': rng.random() < 0.3})
            if prop == 'C02' and rng.random() < 0.7:
                ops.append({'op': 'readback', 'path': ops[-1]['path'], 'source': source})
        elif kind == 'readback':
            gens = [o for o in ops if o['op'] == 'gen']
            if gens:
                g = rng.choice(gens)
                ops.append({'op': 'readback', 'path': g['path'],
                            'source': rng.choice([g['source'], g['source'], source])})
        elif kind == 'write':
            ops.append({'op': 'write', 'path': rng.choice(FILES), 'text': random_config(rng)})
        elif kind == 'source':
            ops.append({'op': 'source', 'dir': rng.choice(['/sim/src1', '/sim/src2']),
                        'seed': rng.randrange(1 << 20)})
        elif kind == 'iface':
            ops.append({'op': 'iface', 'config': rng.choice(FILES + [None, 'missing.cfg', 'old.cfg']), 'source': source})
        elif kind == 'cfgobj':
            ops.append({'op': 'cfgobj', 'id': rng.randrange(2), 'path': rng.choice(FILES)})
            if rng.random() < 0.3:
                ops[-1]['comments'] = rng.choice(['#!', '!#'])
            if rng.random() < 0.6:
                ops.append(dict(ops[-1]))
        elif kind == 'cfgdiff':
            ops.append({'op': 'cfgdiff', 'id': rng.randrange(2), 'path': rng.choice(FILES), 'other': rng.choice(FILES + ['old.cfg', 'missing.cfg']),
                        'comments': rng.choice([None, None, None, '#!']), 'comments2': rng.choice([None, None, None, '#!']),
                        'as': rng.choice(['object', 'text', 'path']), 'how': rng.choice(['diff', 'compare'])})
            if rng.random() < 0.5:
                ops.append(dict(ops[-1]))
        elif kind == 'defaults':
            ops.append({'op': 'defaults', 'source': source})
        elif kind == 'compare':
            n = rng.choice([1, 2, 2, 3])
            files = rng.sample(FILES + ['old.cfg'], n)
            if rng.random() < 0.08:
                files[-1] = 'missing.cfg'
            gens = [o['path'] for o in ops if o['op'] == 'gen' and o['path'] in ('gen.cfg', 'sub/g.ini')]
            if gens and rng.random() < 0.4:
                files.append(gens[0])
            ops.append({'op': 'compare', 'files': files, 'source': source,
                        'diff': rng.random() < 0.6, 'names': rng.random() < 0.4,
                        'via': rng.choice([None, 'run'])})
    return {
        'world': 'files', 'prop': prop, 'seed': seed, 'ops': ops, 'faults': [],
        'init': {f: random_config(rng) for f in FILES},
        'sources': [rng.randrange(1 << 20), rng.randrange(1 << 20)],
        'bufsize': rng.choice([8192, 8192, 256, 61]),
    }


def variants(prop, plan, syscalls, rng, n):
    kinds = FAULTS[prop]
    ops = plan['ops']
    cands = [i for i in range(min(len(ops), len(syscalls)))
             if syscalls[i] > 0 and ops[i]['op'] not in ('write', 'source')]
    if not cands:
        return []
    out = []
    for _ in range(n):
        faults = []
        kind0 = rng.choice(kinds)
        for _ in range(1 if kind0 in ('crash', 'power', 'torn') else rng.randrange(1, 4)):
            i = rng.choice(cands)
            kind = kind0 if kind0 in ('crash', 'power', 'torn', 'short') else rng.choice(
                [k for k in kinds if k not in ('crash', 'power', 'torn')])
            faults.append({
                'proc': 0, 'op': i, 'k': rng.randrange(1, syscalls[i] + 2), 'kind': kind,
                'pick': rng.randrange(1 << 16), 'cut': rng.choice([0.0, 1.0, rng.random()]),
                'fseed': rng.randrange(1 << 16),
            })
        if kind0 == 'short':
            i = rng.choice(cands)
            for k in range(1, syscalls[i] + 1):
                if rng.random() < 0.5:
                    faults.append({'proc': 0, 'op': i, 'k': k, 'kind': 'short', 'pick': rng.randrange(1 << 16)})
        out.append({**plan, 'faults': faults})
    return out


# -- world -----------------------------------------------------------------------------------
class FilesWorld:
    def __init__(self, plan):
        self.plan = plan
        self.prop = plan['prop']
        self.k = Kernel(plan, max_steps=400_000)
        self.k.overlay = {DBFILE: '/sim/db/reference.json'}
        self.violations = []
        self.events = []
        self.cover = {}
        self.syscalls = []
        self.sources = {}
        self.objs = {}
        self.kept = []
        fs = self.k.fs
        for d in (HOME, WORK + '/sub', '/sim/tmp', '/sim/data', '/sim/db', '/sim/src1', '/sim/src2'):
            fs.makedirs(d)
        with open(DBFILE, 'rb') as fp:
            fs.put('/sim/db/reference.json', fp.read())
        for f, text in plan['init'].items():
            fs.put(f'{WORK}/{f}', text.encode())
        fs.put(WORK + '/old.cfg', b'# precious\nsimStopTime=9.5\nnumSpecies=2\n', 0o600)
        fs.put('/sim/data/real.cfg', b'linked=1\n')
        fs.symlink('/sim/data/real.cfg', WORK + '/link.cfg')
        for d, s in zip(('/sim/src1', '/sim/src2'), plan['sources']):
            self.put_source(d, s)
        self.dbref = Reference(DB)
        fs.sync_all()

    def put_source(self, d, s):
        rng = random.Random(f"src-{s}")
        table = variant(rng)
        self.k.fs.put(d + '/configuration.c', csource(table, rng).encode())
        self.k.fs.put(d + '/baseTypes.h', header(table, rng).encode())
        self.k.fs.put(d + '/main.c', b'int main(void) { return 0; }\n')
        self.sources[d] = Reference(table)

    def ref(self, source):
        return self.sources[source] if source else self.dbref

    def flag(self, tags, message):
        self.violations.append(Violation(tuple(tags), message))
        self.events.append(('VIOLATION', tuple(tags), message))

    def tree(self):
        t = self.k.fs.tree('/sim')
        return {p: v for p, v in t.items() if not p.startswith('/sim/tmp/') and not hidden(p)}

    def run(self):
        with patch.simulating(self.k):
            try:
                self.proc = self.k.spawn(WORK)
                self.proc.index = 0
                self.k.enter(self.proc)
                self.cli = importlib.import_module('eprempy.cli')
                self.parameter = importlib.import_module('eprempy.parameter')
                for i, op in enumerate(self.plan['ops']):
                    self.proc.begin(i)
                    self.k.fs.sync_all()
                    if not self.step(i, op) or self.violations:
                        break
            finally:
                self.k.enter(None)
        return self

    def path(self, name):
        if name.startswith('~/'):
            return HOME + name[1:]
        return f'{WORK}/{name}'

    def real(self, name):
        p = self.path(name)
        return '/sim/data/real.cfg' if p.endswith('/link.cfg') else p

    def step(self, i, op):
        self.at = f"step {i} ({op['op']})"
        pre = self.tree()
        nf = dict(self.k.fired)
        nout = len(self.proc.out)
        value = None
        try:
            value = getattr(self, 'do_' + op['op'])(op)
            outcome = 'ok'
        except ProcessKilled:
            outcome = 'crash'
        except (Deadlock, StepLimit):
            self.flag(['C01', 'C02', 'C03', 'C04'], f"{self.at}: did not terminate")
            return False
        except HarnessError:
            raise
        except Exception as err:
            outcome, value = 'raise', err
            if self.plan.get('debug'):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
        if self.proc.dead:
            outcome = 'crash'
        self.syscalls.append(self.proc.k)
        fired = {f for f, n in self.k.fired.items() if n > nf.get(f, 0)}
        hard = any(not f.startswith(('short_', 'clock')) for f in fired)
        out = ''.join(self.proc.out[nout:])
        self.events.append((i, op['op'], outcome, type(value).__name__ if outcome == 'raise' else '', sorted(fired), self.k.steps))
        self.cover[(op['op'], outcome, tuple(sorted(fired)))] = 1
        if self.k.escapes:
            self.flag(['C01'], f"{self.at}: tried to modify real path {self.k.escapes[0]}")
        self.proc.begin(10_000 + i)
        dead = self.proc.dead
        if dead:
            # judge what is left on the disk
            pass
        getattr(self, 'judge_' + op['op'])(op, outcome, value, hard, pre, self.tree(), out, fired)
        if not dead and not self.violations and self.kept:
            self.recheck()
        return not dead

    def frame(self, pre, post, allowed):
        bad = [p for p in sorted(set(pre) | set(post)) if p not in allowed and pre.get(p) != post.get(p)]
        if bad:
            self.flag(['C01', 'C02', 'C03', 'C04'], f"{self.at}: {bad} changed")

    # -- operations ---------------------------------------------------------------
    def do_write(self, op):
        self.k.fs.put(self.path(op['path']), op['text'].encode())
        self.k.fs.sync_all()

    def judge_write(self, *a):
        pass

    def do_source(self, op):
        self.put_source(op['dir'], op['seed'])
        self.k.fs.sync_all()

    def judge_source(self, *a):
        pass

    def do_gen(self, op):
        if op.get('via') == 'run':
            return self.cli.run('configfile', {
                'generate': op['path'], 'source': op['source'], 'verbose': op['verbose'],
                'files': None, 'diff': False, 'names': False,
            })
        return self.cli.generate_config_file(op['path'], source=op['source'], verbose=op['verbose'])

    def complete(self, data, source):
        """None if the bytes are a complete default configuration file."""
        ref = self.ref(source)
        try:
            text = data.decode()
        except UnicodeDecodeError as err:
            return f"is not text: {err}"
        if not text.endswith('\n'):
            return "lacks the end of its last line"
        seen = {}
        for line in text.splitlines():
            body = line.split('#')[0].strip()
            if not body:
                continue
            key, eq, value = body.partition('=')
            if not eq:
                return f"contains {line!r}"
            if key.strip() in seen:
                return f"sets {key.strip()} twice"
            seen[key.strip()] = value.strip()
        for key in ref.config:
            want = ref.default(key)
            if want is None:
                continue
            if key not in seen:
                return f"does not set {key}"
            kind = ref.kind(key)
            try:
                got = convert(seen[key], kind)
            except ValueError:
                return f"sets {key} to {seen[key]!r} instead of {want!r}"
            if not close(got, want):
                return f"sets {key} to {seen[key]!r} instead of {want!r}"
        extra = [k for k in seen if k not in ref.config]
        if extra:
            return f"sets unknown parameters {extra}"
        return None

    def judge_gen(self, op, outcome, value, hard, pre, post, out, fired):
        target = self.real(op['path'])
        self.frame(pre, post, {target})
        a, b = pre.get(target), post.get(target)
        nodir = '/nodir/' in target
        if outcome == 'ok':
            if b is None or b[0] != 'f':
                self.flag(['C01'], f"{self.at}: reported success but {target} does not exist")
                return
            why = self.complete(b[1], op['source'])
            if why:
                self.flag(['C01', 'C02'], f"{self.at}: generated file {why}")
        else:
            if a == b:
                pass
            elif b is None:
                self.flag(['C01'], f"{self.at}: {target} was lost")
            elif b[0] != 'f':
                self.flag(['C01'], f"{self.at}: {target} is no longer a file")
            elif a is not None and a[1] == b[1]:
                pass
            elif outcome == 'raise' and not hard:
                self.flag(['C01'], f"{self.at}: failed but changed {target}")
            else:
                why = self.complete(b[1], op['source'])
                if why:
                    self.flag(['C01'], f"{self.at}: after {'a crash' if outcome == 'crash' else 'an error'} ({sorted(fired)}), {target} {why}")
            if outcome == 'raise' and not hard and not nodir:
                self.flag(['C01', 'C02'], f"{self.at}: failed without a reason: {value!r}")

    def interface(self, config, source, positional=False):
        if config is None:
            return self.parameter.interface(srcdir=source)
        return self.parameter.interface(config, source)

    def expected(self, text, source):
        """{key: (value, set by file)} for every parameter."""
        ref = self.ref(source)
        user = parse(text) if text is not None else {}
        out = {}
        for key in ref.config:
            if key in user:
                out[key] = (convert(user[key], ref.kind(key)), True)
            else:
                out[key] = (ref.default(key), False)
        out['minimum_energy'] = (0.0, False)
        return out

    def unit(self, key, want):
        u = INFO[key]['unit'] if key in INFO else None
        if u == 'rad' and want['useDegrees'][0]:
            return 'deg'
        return u

    def check_iface(self, iface, want, tags, what):
        for key in sorted(want):
            names = [key] + INFO.get(key, {}).get('aliases', [])
            value, given = want[key]
            for name in names:
                try:
                    got = iface[name]
                except Exception as err:
                    self.flag(tags, f"{self.at}: {what}: {name!r} raises {err!r}")
                    return False
                u = self.unit(key, want)
                if u is not None and value is not None:
                    try:
                        ok = str(got.unit) == u and close(got.data, value)
                    except AttributeError:
                        ok = False
                else:
                    ok = close(got, value)
                if not ok:
                    self.flag(tags, f"{self.at}: {what}: {name!r} is {got!r} instead of {value!r} {u or ''}"
                                    f" ({'set by the file' if given else 'default'})")
                    return False
        return True

    def do_iface(self, op):
        cfg = None if op['config'] is None else op['config']
        return self.interface(cfg, op['source'])

    def text(self, tree, name):
        node = tree.get(self.real(name))
        return None if node is None else node[1].decode()

    def judge_iface(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        text = None if op['config'] is None else self.text(pre, op['config'])
        missing = op['config'] is not None and text is None
        if outcome == 'ok':
            if missing:
                self.flag(['C03'], f"{self.at}: a missing configuration file was accepted")
                return
            want = self.expected(text, op['source'])
            if self.check_iface(value, want, ['C03', 'C02'] if text is None else ['C03'], f"{op['config']} with source {op['source']}"):
                self.kept.append((self.at, value, want))
                self.kept = self.kept[-2:]
        elif outcome == 'raise' and not hard and not missing:
            self.flag(['C03', 'C02'], f"{self.at}: reading {op['config']} failed without a reason: {value!r}")

    def recheck(self):
        """Interfaces made earlier still have their values."""
        at, iface, want = self.kept[0]
        self.check_iface(iface, want, ['C03', 'C02'], f"interface created in {at}")

    def do_readback(self, op):
        a = self.interface(op['path'], op['source'])
        return a

    def judge_readback(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        text = self.text(pre, op['path'])
        if outcome == 'ok':
            if text is None:
                self.flag(['C03'], f"{self.at}: a missing configuration file was accepted")
                return
            self.check_iface(value, self.expected(text, op['source']), ['C02', 'C03'], f"reading back {op['path']}")
        elif outcome == 'raise' and not hard and text is not None:
            self.flag(['C02', 'C03'], f"{self.at}: reading {op['path']} failed without a reason: {value!r}")

    def configfile(self, id_, path, comments=None):
        """A configuration file object; the same one for the same request."""
        key = (id_, path, comments)
        if key not in self.objs:
            kw = {'comments': list(comments)} if comments else {}
            self.objs[key] = {'obj': self.parameter.configfile(path, **kw), 'may': []}
        return self.objs[key]['obj']

    def contents(self, tree, path, comments=None, id_=None):
        """What a configuration file object may contain, or None without a file.

        An object that has been read may keep what it read."""
        text = self.text(tree, path)
        if text is None:
            return None
        now = parse(text, comments or '#')
        entry = self.objs.get((id_, path, comments))
        if entry is None:
            return [now]
        if not entry.get('read'):
            entry['may'].append(now)
            return list(entry['may'])
        return [now, entry['read']]

    def learn(self, id_, path, comments, got):
        entry = self.objs.get((id_, path, comments))
        if entry is not None and not entry.get('read'):
            entry['read'] = got

    def do_cfgobj(self, op):
        obj = self.configfile(op['id'], op['path'], op.get('comments'))
        return dict(obj), len(obj)

    def judge_cfgobj(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        which = op['path'], op.get('comments')
        options = self.contents(pre, *which, op['id'])
        if outcome == 'ok':
            got, n = value
            if options is None or got not in options or n != len(got):
                self.flag(['C03'], f"{self.at}: {op['path']} reads as {short(got)}, it contains {short(options)}")
            self.learn(op['id'], *which, got)
        elif outcome == 'raise' and not hard and options is not None:
            self.flag(['C03'], f"{self.at}: reading {op['path']} failed without a reason: {value!r}")

    def do_cfgdiff(self, op):
        a = self.configfile(op['id'], op['path'], op['comments'])
        kw = {'comments': list(op['comments2'])} if op['comments2'] else {}
        if op['as'] == 'object':
            b, kw = self.configfile(op['id'], op['other'], op['comments2']), {}
        else:
            b = op['other'] if op['as'] == 'text' else pathlib.Path(op['other'])
        if op['how'] == 'compare':
            return a.compare(b, **kw)
        d = a.diff(b, **kw)
        return [set(d.keys[0]), set(d.keys[1])], [dict(d.full[0]), dict(d.full[1])]

    def judge_cfgdiff(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        a = self.contents(pre, op['path'], op['comments'], op['id'])
        b = self.contents(pre, op['other'], op['comments2'], op['id'] if op['as'] == 'object' else None)
        if outcome == 'raise':
            if not hard and a is not None and b is not None:
                self.flag(['C04'], f"{self.at}: comparing {op['path']} to {op['other']} failed without a reason: {value!r}")
            return
        if outcome != 'ok':
            return
        if a is None or b is None:
            self.flag(['C04'], f"{self.at}: comparing a missing file succeeded")
            return
        for x in a:
            for y in b:
                if op['how'] == 'compare':
                    want = {k: (x.get(k), y.get(k)) for k in {*x, *y}}
                    good = dict(value) == want
                else:
                    good = value == ([set(x) - set(y), set(y) - set(x)], [x, y])
                if good:
                    self.learn(op['id'], op['path'], op['comments'], x)
                    if op['as'] == 'object':
                        self.learn(op['id'], op['other'], op['comments2'], y)
                    return
        self.flag(['C04', 'C03'], f"{self.at}: {op['how']} of {op['path']} and {op['other']} gives {short(value, 200)}; they contain {short(a[-1], 100)} and {short(b[-1], 100)}")

    def do_defaults(self, op):
        d = self.parameter.defaults(op['source'])
        return {k: d[k] for k in d}, d.basetypes

    def judge_defaults(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        ref = self.ref(op['source'])
        if outcome == 'ok':
            got, base = value
            want = ref.defaults()
            if set(got) != set(want):
                self.flag(['C02'], f"{self.at}: parameters {sorted(set(got) ^ set(want))} are missing or unexpected")
                return
            for k in sorted(want):
                if not close(got[k], want[k]):
                    self.flag(['C02', 'C03'], f"{self.at}: default of {k} is {got[k]!r} instead of {want[k]!r}")
                    return
            for name in ('AU', 'C', 'RSUN', 'PI', 'MP', 'RSAU', 'LARGEFLOAT', 'THRESH', 'TAU', 'T', 'F'):
                if not close(base[name], ref.constant(name)):
                    self.flag(['C02'], f"{self.at}: constant {name} is {base[name]!r} instead of {ref.constant(name)!r}")
                    return
        elif outcome == 'raise' and not hard:
            self.flag(['C02', 'C03'], f"{self.at}: reading defaults failed without a reason: {value!r}")

    def do_compare(self, op):
        if op.get('via') == 'run':
            return self.cli.run('configfile', {
                'generate': None, 'source': op['source'], 'verbose': False,
                'files': list(op['files']), 'diff': op['diff'], 'names': op['names'],
            })
        return self.cli.compare_config_files(
            list(op['files']), source=op['source'], diff=op['diff'], names=op['names'])

    @staticmethod
    def numbers(text):
        return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)]

    def shown(self, text, value, unit):
        """Does the text show this value?"""
        text = text.strip()
        if isinstance(value, str):
            return text == value
        if value is None:
            return text == 'None'
        if unit and unit != '1':
            label = "'day'" if unit in ('d', 'day') else repr(unit)
            head, sep, tail = text.partition("'")
            if not sep or (sep + tail).strip() != label:
                return False
        else:
            head = text
        head = re.sub(r'^(?:np|numpy)\.\w+\(', '', head.strip()).replace('array(', '')
        nums = self.numbers(head)
        want = value if isinstance(value, list) else [value]
        return len(nums) == len(want) and all(abs(a - b) <= 1e-6 * abs(b) for a, b in zip(nums, want))

    def judge_compare(self, op, outcome, value, hard, pre, post, out, fired):
        self.frame(pre, post, ())
        files = op['files']
        texts = [self.text(pre, f) for f in files]
        missing = any(t is None for t in texts)
        if outcome == 'raise':
            if not hard and not missing:
                self.flag(['C04'], f"{self.at}: comparison of {files} failed without a reason: {value!r}")
            return
        if outcome != 'ok':
            return
        if missing:
            self.flag(['C04'], f"{self.at}: comparison of missing files succeeded")
            return
        ref = self.ref(op['source'])
        wants = [self.expected(t, op['source']) for t in texts]
        groups = []
        lines = out.split('\n')
        i = 0
        while i < len(lines):
            m = re.match(r'\s*(\w+) \(default: (.*)\)\s*$', lines[i])
            if m:
                rows = []
                j = i + 2
                while j < len(lines) and lines[j].strip():
                    rows.append(lines[j])
                    j += 1
                groups.append((m.group(1), m.group(2), rows))
                i = j
            else:
                i += 1
        got = {g[0]: g for g in groups}
        if len(got) != len(groups):
            self.flag(['C04'], f"{self.at}: a parameter is reported twice")
            return
        mustshow = set()
        for key in ref.config:
            reps = []
            for want in wants:
                v, given = want[key]
                reps.append((repr(v), self.unit(key, want)) if given else 'default')
            if not op['diff'] or len(set(reps)) > 1:
                mustshow.add(key)
        if set(got) != mustshow:
            self.flag(['C04', *(['C02'] if False else [])], f"{self.at}: comparison of {files} (diff={op['diff']}) reports {short(sorted(set(got) - mustshow), 100)} too many and lacks {short(sorted(mustshow - set(got)), 100)}")
            return
        base = {k: (ref.default(k), False) for k in ref.config}
        for key in sorted(got):
            _, shown, rows = got[key]
            d = ref.default(key)
            if not self.shown(shown, d, self.unit(key, base)):
                self.flag(['C04', 'C02'], f"{self.at}: default of {key} is reported as {shown!r} instead of {d!r}")
                return
            if len(rows) != len(files):
                self.flag(['C04'], f"{self.at}: {key}: {len(rows)} rows for {len(files)} files")
                return
            for n, (row, f, want) in enumerate(zip(rows, files, wants)):
                label = os.path.basename(f) if op['names'] else str(n)
                v, given = want[key]
                if op['names'] and len(files) == 1:
                    text = row.split(None, 1)[1] if ' ' in row else row
                else:
                    if label not in row:
                        self.flag(['C04'], f"{self.at}: {key}: row {row!r} is not labelled {label!r}")
                        return
                    text = row.split(label, 1)[1]
                good = text.strip() == '(default)' if not given else self.shown(text, v, self.unit(key, want))
                if not good:
                    self.flag(['C04'], f"{self.at}: {key} of {f} is reported as {text.strip()!r} instead of {v if given else '(default)'!r}")
                    return
