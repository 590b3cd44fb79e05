"""
Shared machinery of the checks: scratch builds of /repo, a process pool that
runs a check's tasks, the recorder that tasks report to, evidence files, known
findings and replay artefacts.

A check is a module of /verif/checks with

    PROPERTY, TECHNIQUE, LEVEL, RULE, ASSUMPTIONS
    tasks(tier) -> [(name, variant, params), ...]    # finite, deterministic
    run(name, params, R)                             # enumerates its cases

`variant` names the build of the code under test: 'c' is the package with its
C extension, rebuilt from the working tree; 'py' is the same tree without it
(every accelerated routine falls back to its Python form).

`run` calls `R.case(key)` for every execution it enumerates; `key` identifies
the execution and is what a replay file contains.
"""
import contextlib
import gc
import hashlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'known_findings.txt')
VARIANTS = ('c', 'py')


class Hang(BaseException):
    "A case did not finish (wall clock)."


class Horizon(BaseException):
    "A case used more environment steps than its finite script allows."


class Diverged(BaseException):
    """
    A schedule does not fit the execution it was derived from. Executions are
    deterministic (garbage collection is off while they run); one that is not
    is counted and left out.
    """


class StopTask(BaseException):
    "Enough violations were recorded by this task."


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Recorder:
    MAX_VIOLATIONS = 4

    def __init__(self, known=(), only=None, verbose=False, progress=None):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.samples = []
        self.violations = []
        self.known = dict(known)
        self.known_seen = {}
        self.only = only
        self.current = None
        self.progress = progress
        self.notes = {}

    # -- enumeration -----------------------------------------------------
    def case(self, key):
        "Register an execution; False when a replay asks for another one."
        if self.only is not None and jsonable(key) != self.only:
            return False
        self.current = key
        self.executions += 1
        if self.executions % 300 == 0:
            gc.collect()
        if self.progress is not None:
            self.progress.seek(0)
            self.progress.write(json.dumps(jsonable(key)))
            self.progress.truncate()
            self.progress.flush()
        return True

    def state(self, obj):
        self.states.add(h64(obj))

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # -- verdicts --------------------------------------------------------
    def violate(self, sig, detail, key=None):
        """
        `sig` identifies what fails (input, call site or history): the known
        findings file lists signatures.
        """
        if sig in self.known:
            self.known_seen[sig] = self.known_seen.get(sig, 0) + 1
            return
        self.violations.append({
            'sig': sig, 'detail': str(detail)[:4000],
            'case': jsonable(self.current if key is None else key),
        })
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopTask()

    def check(self, cond, sig, detail=''):
        if not cond:
            self.violate(sig, detail() if callable(detail) else detail)
        return cond

    @contextlib.contextmanager
    def guarded(self, sig, seconds=30):
        """
        Run one case: an exception escaping from it, or a hang, is a
        violation.
        """
        def onalarm(*a):
            raise Hang()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, seconds, 2)
        bad = None
        try:
            yield
        except StopTask:
            raise
        except Diverged as e:
            self.note('diverged')
            if os.environ.get('MC_DEBUG'):
                print('DIVERGED', sig, self.current, e, file=open('/tmp/diverged', 'a'))
        except Hang:
            bad = (sig + ':hang', 'did not finish within %s s\n%s' % (seconds, traceback.format_exc()))
        except Horizon as e:
            bad = (sig + ':horizon', 'waits forever: %s\n%s' % (e, traceback.format_exc()))
        except (Exception, SystemExit) as e:
            bad = (sig + ':raises:' + type(e).__name__, traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if bad:
            self.violate(*bad)
            if bad[0].endswith(':hang'):
                # every further one would cost as much
                raise StopTask()

    def dump(self):
        return {
            'states': self.states, 'outcomes': self.outcomes,
            'transitions': self.transitions, 'executions': self.executions,
            'samples': self.samples, 'violations': self.violations,
            'known_seen': self.known_seen, 'notes': self.notes,
        }


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return 'b:' + x.decode('latin-1')
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return repr(x)


# ---------------------------------------------------------------------------
# builds of the code under test

def build(variants=VARIANTS):
    "Copy the package out of the working tree and build the variants."
    root = tempfile.mkdtemp(prefix='mcverif-')
    try:
        for v in variants:
            dst = os.path.join(root, v)
            shutil.copytree(
                os.path.join(REPO, 'postgresql'), os.path.join(dst, 'postgresql'),
                ignore=shutil.ignore_patterns('*.so', '*.pyc', '__pycache__'),
            )
            if v != 'py':
                build_ext(dst, sanitize=(v == 'asan'))
    except BaseException:
        shutil.rmtree(root, ignore_errors=True)
        raise
    return root


def build_ext(dst, sanitize=False):
    src = os.path.join(dst, 'postgresql', 'port', '_optimized', 'module.c')
    out = os.path.join(dst, 'postgresql', 'port', 'optimized' + sysconfig.get_config_var('EXT_SUFFIX'))
    inc = subprocess.check_output(
        [PYTHON, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"]); print(sysconfig.get_paths()["platinclude"])'],
        text=True).split()
    cmd = ['gcc', '-shared', '-fPIC', '-O2', '-w', '-DNDEBUG']
    if sanitize:
        cmd += ['-g', '-fsanitize=address']
    cmd += ['-I' + p for p in inc] + [src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('the C extension does not build:\n' + p.stderr[-2000:])


def worker_env(root, variant):
    env = {
        k: v for k, v in os.environ.items()
        if not k.startswith('PG') and k not in ('PYTHONPATH', 'LD_PRELOAD')
    }
    env.update(
        PYTHONPATH=os.path.join(root, variant) + os.pathsep + VERIF,
        PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC',
        MC_VARIANT=variant, PYTHONWARNINGS='ignore',
    )
    if variant == 'asan':
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', PYTHONMALLOC='malloc')
    return env


# ---------------------------------------------------------------------------
# known findings

def known_findings(prop):
    "signature -> description, of the findings that are recorded, not repaired"
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known: '):
                    continue
                head, _, desc = line[len('known: '):].partition(' :: ')
                p, _, sig = head.partition(' sig=')
                if p.strip() == 'property=' + prop:
                    found[sig.strip()] = desc.strip()
    return found


# ---------------------------------------------------------------------------
# the runner

def load(prop):
    import importlib
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    for n in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if n.lower().startswith(prop.lower() + '_') and n.endswith('.py'):
            return importlib.import_module('checks.' + n[:-3])
    raise SystemExit('no such check: ' + prop)


def run_task(prop, tier, task, root, tmp, timeout, only=None, log=False):
    name, variant, params = task
    fd, out = tempfile.mkstemp(dir=tmp)
    os.close(fd)
    spec = {'prop': prop, 'tier': tier, 'name': name, 'variant': variant, 'params': params,
            'out': out, 'only': only, 'log': log}
    p = subprocess.Popen(
        [PYTHON, '-m', 'mc.worker'], cwd=tmp, env=worker_env(root, variant),
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        start_new_session=True)
    try:
        text, _ = p.communicate(json.dumps(spec).encode(), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        text, _ = p.communicate()
        rc = 'timeout'
    res = None
    if rc == 0:
        with open(out, 'rb') as f:
            res = pickle.load(f)
    last = None
    if os.path.exists(out + '.case'):
        with open(out + '.case', encoding='utf-8') as f:
            try:
                last = json.loads(f.read())
            except ValueError:
                pass
    return rc, res, text.decode('utf-8', 'replace'), last


def run_check(prop, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load(prop)
    known = known_findings(prop)
    tasks = list(mod.tasks(tier))
    only = None
    if replay:
        with open(replay, encoding='utf-8') as f:
            art = json.load(f)
        only = art['case']
        tier = art.get('tier', tier)
        tasks = [t for t in mod.tasks(tier) if t[0] == art['task'] and t[1] == art['variant']]
        if not tasks:
            raise SystemExit('the task of the replay file does not exist')
    variants = sorted({t[1] for t in tasks})
    root = build(variants)
    tmp = os.path.join(root, 'tmp')
    os.mkdir(tmp)
    budget = 780 if tier == 'quick' else 6 * 3600
    total = Recorder(known)
    violations, errors = [], []
    deadline = t0 + budget
    try:
        def one(task):
            left = deadline - time.time()
            if found and time.time() - t0 > 60:
                # the answer is known
                return task, 'skipped', None, '', None
            if left < 5:
                return task, 'budget', None, '', None
            rc, res, text, last = run_task(prop, tier, task, root, tmp, left, only)
            if isinstance(rc, int) and rc < 0:
                # the interpreter died (C extension): find the case
                rc2, _, _, last = run_task(prop, tier, task, root, tmp, max(left, 60), only, log=True)
            if res is None or res['violations']:
                found.append(task)
            return (task, rc, res, text, last)
        found = []
        with ThreadPoolExecutor(int(os.environ.get('MC_JOBS', os.cpu_count() or 4))) as ex:
            for task, rc, res, text, last in ex.map(one, tasks):
                if res is None:
                    if isinstance(rc, int) and rc < 0:
                        violations.append((task, {
                            'sig': 'crash', 'case': last,
                            'detail': 'the interpreter died with signal %d\n%s' % (-rc, text[-1500:])}))
                    elif rc == 'skipped':
                        total.note('skipped_tasks')
                    elif rc == 'timeout':
                        violations.append((task, {
                            'sig': 'hang', 'case': last, 'detail': 'task did not finish\n' + text[-1500:]}))
                    else:
                        errors.append('%s[%s] rc=%s\n%s' % (task[0], task[1], rc, text[-3000:]))
                    continue
                total.states |= res['states']
                total.outcomes |= res['outcomes']
                total.transitions += res['transitions']
                total.executions += res['executions']
                for s in res['samples'][:1]:
                    if len(total.samples) < 6:
                        total.samples.append({'task': task[0], 'variant': task[1], 'case': s})
                for k, n in res['known_seen'].items():
                    total.known_seen[k] = total.known_seen.get(k, 0) + n
                for k, n in res['notes'].items():
                    total.note(k, n)
                for v in res['violations']:
                    violations.append((task, v))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    wall = time.time() - t0
    cov = {
        'exhaustive': not errors and not violations,
        'samples': total.samples or ['(none)'],
        'distinct_outcomes': len(total.outcomes),
        'tasks': len(tasks),
        'variants': variants,
        'rule': mod.RULE,
    }
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.executions)
    else:
        cov.update(evaluations=total.executions, distinct_nontrivial=len(total.outcomes),
                   states=len(total.states), transitions=total.transitions)
    cov.update(total.notes)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': cov, 'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    evdir = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not replay:
        with open(os.path.join(evdir, prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for sig in sorted(known):
        if sig in total.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    print('%s %s: %d executions, %d states, %d transitions, %d outcomes, %d tasks, %.1f s' % (
        prop, tier, total.executions, len(total.states), total.transitions,
        len(total.outcomes), len(tasks), wall))
    if violations:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        first = {}
        for x in violations:
            first.setdefault(x[1]['sig'], x)
        for i, (task, v) in enumerate(list(first.values())[:6]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({
                    'property': prop, 'tier': tier, 'task': task[0], 'variant': task[1],
                    'case': v['case'], 'signature': v['sig'], 'detail': v['detail'],
                    'how': 'python3 /verif/run.py %s --replay %s' % (prop, path),
                }, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s/%s] %s' % (task[0], task[1], v['sig']))
            print('  case: ' + json.dumps(v['case'])[:400])
            for line in v['detail'].strip().splitlines()[-9:]:
                print('    ' + line[:300])
        return 1
    if errors:
        print('ERROR: %d task(s) gave no answer' % len(errors))
        for e in errors[:3]:
            print(e)
        return 2
    return 0
