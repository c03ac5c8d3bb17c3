"""Seeded search: many simulated runs, one violation, one minimised replay."""
import gc
import hashlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = 8
UNJUDGED = 'a result cannot be judged'
# exceptions of a judge that was given something of an unexpected form
FORMS = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError, NameError, ImportError)
CPU_LIMIT = 40      # seconds of processor time for one simulated run
WALL_LIMIT = 240    # seconds for one simulated run, whatever it does


def prepare():
    """Make sure that the code under test is /repo's working tree."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    from . import points
    points.install(os.path.realpath(os.path.join(src, 'eprempy')) + os.sep)
    import eprempy
    where = os.path.realpath(eprempy.__file__)
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"eprempy comes from {where}")
    remember_code(os.path.dirname(os.path.abspath(eprempy.__file__)))


def settle():
    """Everything is loaded: simulated runs, which are forks, share it."""
    from . import points
    points.Points(os.path.realpath(os.path.join(REPO, 'src', 'eprempy')) + os.sep).collect()
    gc.collect()
    gc.freeze()


def remember_code(root):
    """Compile the package once, not again in every simulated process."""
    from importlib.machinery import SourceFileLoader
    codes = {}
    for top, _, names in os.walk(root):
        for name in names:
            if name.endswith('.py'):
                path = os.path.join(top, name)
                with open(path, 'rb') as fp:
                    try:
                        codes[path] = compile(fp.read(), path, 'exec', dont_inherit=True)
                    except SyntaxError:
                        pass
    original = SourceFileLoader.get_code

    def get_code(self, fullname):
        code = codes.get(self.path) if fullname.startswith('eprempy') else None
        return original(self, fullname) if code is None else code

    SourceFileLoader.get_code = get_code


def setup():
    """Nothing to build; make sure that the pieces are there."""
    prepare()
    for name in set(n for n, _ in families().PROPS.values()):
        families().family(name)
    print("ready")
    return 0


def families():
    from . import families as f
    return f


def clean(message):
    message = re.sub(r'0x[0-9a-f]{6,}', '0x..', message)
    return re.sub(r'\s+', ' ', message)[:1500]


# -- one simulated run ----------------------------------------------------------------
def run_once(plan):
    """Execute one plan in a forked copy of this process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                fam = families().family(plan['world'])
                result = fam.execute(plan)
            except FORMS as err:
                # what the code under test gave cannot even be looked at
                where = traceback.extract_tb(err.__traceback__)[-1]
                result = blank([(['*'], f"{UNJUDGED}: {type(err).__name__}: {err!s:.200} "
                                 f"in {os.path.basename(where.filename)} {where.name}")])
                result['events'] = [traceback.format_exc()] if plan.get('debug') else []
            except BaseException:
                result = {'harness': traceback.format_exc()}
            data = pickle.dumps(result)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        result = pickle.loads(b''.join(chunks))
    except Exception:
        result = None
    if result is None:
        if timed_out or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL)):
            # the code under test never came back, in a run that takes
            # a fraction of a second otherwise
            result = blank([(['*'], "an operation did not terminate")])
        elif os.WIFSIGNALED(status):
            result = blank([(['*'], f"the interpreter died of signal {os.WTERMSIG(status)}")])
        else:
            result = {'harness': f"simulated run ended with status {status}"}
    if 'violations' in result:
        result['violations'] = [(t, clean(m)) for t, m in result['violations']]
    return result


def blank(violations):
    return {
        'violations': violations, 'digest': '', 'events': [], 'steps': 0,
        'syscalls': [], 'simtime': 0.0, 'fired': {}, 'cover': [],
        'switches': 0, 'launched': 0,
    }


def mine(result, prop):
    """The violations of this property, in the order they happened."""
    return [m for tags, m in result.get('violations', ()) if prop in tags or '*' in tags]


# -- known findings ----------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(path) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop]


def is_known(message, known):
    return any(re.search(f['match'], message) for f in known)


def fresh(result, prop, known):
    return [m for m in mine(result, prop) if not is_known(m, known)]


# -- worker ---------------------------------------------------------------------------
def budget(prop, tier):
    name, tiers = families().PROPS[prop]
    seeds, n = tiers[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    return name, max(8, int(seeds * scale)), n


def base_seed(seed, i):
    return seed * 1_000_000 + i


def worker(prop, tier, seed, index, out):
    prepare()
    t0 = time.monotonic()
    known = load_known(prop)
    name, seeds, n = budget(prop, tier)
    fam = families().family(name)
    stats = {
        'runs': 0, 'plans': 0, 'steps': 0, 'simtime': 0.0, 'fired': {},
        'digests': set(), 'nontrivial': set(), 'cover': {}, 'switches': 0,
        'launched': 0, 'known': 0, 'rerun': 0, 'mismatch': [], 'samples': [],
        'extra': {},
    }
    found = None
    limit = float(os.environ.get('VERIF_WALL', '0')) or None
    settle()

    def account(plan, result):
        stats['runs'] += 1
        stats['steps'] += result['steps']
        stats['simtime'] += result['simtime']
        stats['switches'] += result['switches']
        stats['launched'] += result['launched']
        for f, c in result['fired'].items():
            stats['fired'][f] = stats['fired'].get(f, 0) + c
        for c in result['cover']:
            stats['cover'][c] = stats['cover'].get(c, 0) + 1
        for c, v in result.get('extra', {}).items():
            stats['extra'][c] = stats['extra'].get(c, 0) + v
        d = result['digest']
        stats['digests'].add(d)
        if result['fired'] or result['switches'] or result.get('nontrivial'):
            stats['nontrivial'].add(d)

    def execute(plan):
        result = run_once(plan)
        if 'harness' in result:
            raise RuntimeError("simulator failed on seed %s: %s" % (plan.get('seed'), result['harness']))
        account(plan, result)
        bad = fresh(result, prop, known)
        if mine(result, prop) and not bad:
            stats['known'] += 1
        return result, bad

    for i in range(index, seeds, WORKERS):
        if limit and time.monotonic() - t0 > limit:
            break
        s = base_seed(seed, i)
        plan = fam.generate(prop, s)
        stats['plans'] += 1
        result, bad = execute(plan)
        if bad:
            found = {'i': i, 'j': 0, 'plan': plan, 'message': bad[0], 'digest': result['digest']}
            break
        if len(stats['samples']) < 1:
            stats['samples'].append({'plan': plan, 'events': result['events'][:40]})
        if mine(result, prop):
            continue
        rng = random.Random(f"variants-{prop}-{s}")
        last = (plan, result)
        for j, p in enumerate(fam.variants(prop, plan, result, rng, n), 1):
            res, bad = execute(p)
            last = (p, res)
            if bad:
                found = {'i': i, 'j': j, 'plan': p, 'message': bad[0], 'digest': res['digest']}
                break
        if found:
            break
        if (i // WORKERS) % 10 == 0:
            again = run_once(last[0])
            stats['rerun'] += 1
            if again.get('digest') != last[1]['digest'] or again.get('events') != last[1]['events']:
                stats['mismatch'].append(s)
        if len(stats['samples']) < 2 and last[1]['fired']:
            p = last[0]
            stats['samples'].append({'plan': p, 'events': last[1]['events'][:40]})
    stats['wall'] = time.monotonic() - t0
    stats['found'] = found
    with open(out, 'wb') as fp:
        pickle.dump(stats, fp)
    return 0


def hashseed(seed, index):
    return (seed * 1009 + index * 7919 + 1) % 4294967295


def environment(hseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[v] = '1'
    return env


# -- minimisation --------------------------------------------------------------------
def reproduces(plan, prop, known):
    result = run_once(plan)
    if 'harness' in result:
        return None
    bad = fresh(result, prop, known)
    return (bad[0], result) if bad else None


def minimise(plan, prop, runs=300, wall=75.0):
    known = load_known(prop)
    fam = families().family(plan['world'])
    first = reproduces(plan, prop, known)
    if first is None:
        return plan, None, 0
    t0 = time.monotonic()
    spent = 0
    best, evidence = plan, first
    progress = True
    while progress and spent < runs and time.monotonic() - t0 < wall:
        progress = False
        for cand in fam.shrink(best):
            if spent >= runs or time.monotonic() - t0 > wall:
                break
            spent += 1
            try:
                got = reproduces(cand, prop, known)
            except Exception:
                got = None
            if got is not None and UNJUDGED in (got[0] + first[0]) and UNJUDGED not in first[0]:
                got = None      # a plan that makes no sense
            if got is not None:
                best, evidence = cand, got
                progress = True
                break
    return best, evidence, spent


def jsonable(plan):
    return json.loads(json.dumps(plan))


def cmd_minimise(src, dst):
    prepare()
    with open(src) as fp:
        job = json.load(fp)
    plan, got, spent = minimise(job['plan'], job['property'])
    if got is None:
        return 3
    message, result = got
    out = {
        'property': job['property'], 'message': message, 'seed': plan.get('seed'),
        'verif_seed': job['verif_seed'], 'hashseed': job['hashseed'],
        'digest': result['digest'], 'events': result['events'],
        'minimisation_runs': spent, 'plan': plan,
    }
    with open(dst, 'w') as fp:
        json.dump(out, fp, indent=1)
        fp.write('\n')
    return 0


def cmd_replay(path, quiet=False):
    with open(path) as fp:
        job = json.load(fp)
    want = str(job['hashseed'])
    if os.environ.get('PYTHONHASHSEED') != want:
        env = environment(want)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, os.path.join(VERIF, 'check.py'), 'replay', path], env)
    prepare()
    prop = job['property']
    result = run_once(job['plan'])
    if 'harness' in result:
        print(result['harness'])
        return 2
    bad = mine(result, prop)
    if not bad:
        print(f"property={prop} held on {path}")
        return 0
    same = result['digest'] == job['digest'] and bad[0] == job['message']
    print(f"{prop}: {bad[0]}")
    print(f"digest {result['digest']} ({'as recorded' if same else 'recorded ' + job['digest']})")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


# -- the check --------------------------------------------------------------------------
def check(prop, tier, seed):
    fams = families()
    t0 = time.monotonic()
    print(f"seed={seed} property={prop} tier={tier}", flush=True)
    name, seeds, n = budget(prop, tier)
    tmp = os.path.join(VERIF, 'replays')
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, f'.{prop}-{w}-{os.getpid()}.pkl')
        procs.append((w, out, subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'check.py'), 'worker', prop, tier, str(seed), str(w), out],
            env=environment(hashseed(seed, w)), stdin=subprocess.DEVNULL,
        )))
    failed = []
    results = []
    for w, out, p in procs:
        code = p.wait()
        if code != 0 or not os.path.exists(out):
            failed.append((w, code))
            continue
        with open(out, 'rb') as fp:
            results.append((w, pickle.load(fp)))
        os.unlink(out)
    for w, out, p in procs:
        if os.path.exists(out):
            os.unlink(out)
    violations = sorted(
        ((r['found']['i'], r['found']['j'], w, r['found']) for w, r in results if r['found']),
        key=lambda x: x[:3],
    )
    known = load_known(prop)
    exit_code = 0
    replay = None
    for i, j, w, found in violations:
        job = {
            'property': prop, 'plan': found['plan'], 'verif_seed': seed,
            'hashseed': hashseed(seed, w),
        }
        src = os.path.join(tmp, f'.{prop}-{os.getpid()}.json')
        path = os.path.join(tmp, f"{prop}-seed{found['plan'].get('seed')}.json")
        with open(src, 'w') as fp:
            json.dump(job, fp)
        code = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), 'minimise', src, path],
            env=environment(job['hashseed']), stdin=subprocess.DEVNULL,
        ).returncode
        os.unlink(src)
        if code != 0:
            failed.append((w, f"violation on seed {found['plan'].get('seed')} did not repeat: {found['message']}"))
            continue
        again = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), 'replay', path],
            env=environment(job['hashseed']), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
        ).returncode
        if again != 1:
            failed.append((w, f"replay of {path} ended with {again}"))
            continue
        replay = path
        with open(path) as fp:
            message = json.load(fp)['message']
        print(f"{prop}: {message}")
        exit_code = 1
        break
    evidence(prop, tier, seed, name, seeds, n, results, failed,
             len(violations), time.monotonic() - t0, known)
    for f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if exit_code == 1:
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if failed:
        for item in failed:
            print(f"harness error: {item}", file=sys.stderr)
        return 2
    return 0


def evidence(prop, tier, seed, name, seeds, n, results, failed, nviol, wall, known):
    def total(key):
        return sum(r[key] for _, r in results)

    fired, cover, extra = {}, {}, {}
    digests, nontrivial = set(), set()
    samples = []
    for w, r in results:
        for k, v in r['fired'].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r['cover'].items():
            cover[k] = cover.get(k, 0) + v
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        digests |= r['digests']
        nontrivial |= r['nontrivial']
        if len(samples) < 3:
            samples += r['samples'][-1:]
    info = families().DESCRIBE[name]
    hours = max(wall, 1e-9) / 3600
    coverage = {
        'evaluations': total('runs'),
        'distinct_nontrivial': len(nontrivial),
        'rule': info['rule'],
        'samples': samples[:3],
        'plans_generated': total('plans'),
        'runs_per_hour': round(total('runs') / hours),
        'seeds_per_hour': round(total('plans') / hours),
        'simulated_seconds': round(total('simtime'), 3),
        'simulated_steps': total('steps'),
        'faults_injected': dict(sorted(fired.items())),
        'distinct_executions': len(digests),
        'distinct_executions_measure': info['measure'],
        'context_switches': total('switches'),
        'programs_launched': total('launched'),
        'conditions_hit': dict(sorted(cover.items(), key=lambda x: (-x[1], x[0]))[:60]),
        'distinct_conditions': len(cover),
        'determinism': {
            'reruns': total('rerun'),
            'mismatching_seeds': [s for _, r in results for s in r['mismatch']],
        },
        'real_components': info['real'],
        'simulated_components': info['stub'],
        'hash_seeds': [hashseed(seed, w) for w in range(WORKERS)],
        'known_findings_seen': total('known'),
        'harness_failures': [str(f) for f in failed],
        **({'extra': extra} if extra else {}),
    }
    data = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': coverage, 'assumptions': info['assumptions'],
        'wall_s': round(wall, 2), 'violations': 1 if nviol else 0,
    }
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(data, fp, indent=1)
        fp.write('\n')
    os.replace(path + '.tmp', path)


# -- self test -----------------------------------------------------------------------------
def selftest(props, count):
    """Run many seeds twice, in fresh interpreters and under other hash
    seeds, and compare the complete event logs."""
    bad = 0
    jobs = []
    for prop in props:
        for hs in (0, 1, 4242):
            jobs.append((prop, hs))
    table = {}
    running = []
    while jobs or running:
        while jobs and len(running) < WORKERS:
            prop, hs = jobs.pop(0)
            running.append((prop, hs, subprocess.Popen(
                [sys.executable, os.path.join(VERIF, 'check.py'), 'trace', prop, str(count)],
                env=environment(hs), stdout=subprocess.PIPE, text=True)))
        prop, hs, p = running.pop(0)
        out, _ = p.communicate()
        table.setdefault(prop, {})[hs] = out.splitlines()
    for prop, rows in table.items():
        ref = rows[0]
        for hs, got in rows.items():
            diff = [a for a, b in zip(ref, got) if a != b]
            if diff or len(ref) != len(got) or not ref:
                bad += 1
                print(f"{prop}: hash seed {hs} differs on {len(diff)} of {len(ref)} runs, e.g. {diff[:1]}")
        print(f"{prop}: {len(ref)} runs compared under {len(rows)} hash seeds")
    return 1 if bad else 0


def trace(prop, count):
    prepare()
    name, _ = families().PROPS[prop]
    fam = families().family(name)
    for s in range(count):
        plan = fam.generate(prop, s)
        res = run_once(plan)
        runs = [res]
        if 'harness' not in res:
            rng = random.Random(f"variants-{prop}-{s}")
            for p in fam.variants(prop, plan, res, rng, 3):
                runs.append(run_once(p))
        for j, r in enumerate(runs):
            h = hashlib.sha256(repr(r.get('events')).encode()).hexdigest()[:12]
            print(s, j, r.get('digest'), h, r.get('steps'), r.get('harness', '')[-200:].replace('\n', ' '))
    return 0
