"""Runner for the property checks.

A check module (checks/pXX.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    PARTS = [Part(name, strategy_factory, fn, quick=N, thorough=M), ...]

Every generated case is a JSON-able value.  fn(case, ctx) raises Violation (or
lets an exception out of the code under test escape) if the property is broken.
The same function serves generation, the regression corpus and --replay.
"""
import collections
import errno
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SRC = os.path.join(REPO, 'src')
WORKERS = {'quick': 4, 'thorough': 7}
WALL = {'quick': 240, 'thorough': 1500}       # per worker; reaching it is "inconclusive", never a violation
SHRINK_SECONDS = {'quick': 30, 'thorough': 120}
CASE_CPU_SECONDS = 30


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(Exception):
    """The code under test did not terminate within the CPU budget of a case."""


class Part:
    def __init__(self, name, strategy, fn, quick, thorough, setup=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.n = {'quick': quick, 'thorough': thorough}


def expect(cond, msg, *details):
    if not cond:
        text = msg
        for d in details:
            r = repr(d)
            text += '\n    ' + (r if len(r) < 1500 else r[:1500] + '...')
        raise Violation(text)


def expect_eq(got, want, msg):
    if got != want:
        expect(False, msg + ': got, expected', got, want)


class Ctx:
    """Context of one case: scratch directory, labels, non-triviality."""

    def __init__(self, base, tier):
        self.base = base
        self.tier = tier
        self.dir = None
        self.labels = collections.Counter()
        self._nontrivial = False
        self.known = []

    def begin(self):
        os.chdir(self.base)
        if self.dir is not None and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = os.path.join(self.base, 'case')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self._nontrivial = False
        self._case_labels = set()

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def label(self, name, cond=True):
        if cond:
            self._case_labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True


# --------------------------------------------------------------- containment

_allowed = []
_armed = [False]
fault_hook = [None]     # callable(event, args) used by the fault-injection checks


def _inside(path):
    try:
        if isinstance(path, int):
            return True
        p = os.path.realpath(os.fspath(path))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
    except Exception:
        return True
    if p == '/dev/null':
        return True
    return any(p == a or p.startswith(a + '/') for a in _allowed)


class ContainmentError(OSError):
    pass


_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
    if not _armed[0]:
        return
    hook = fault_hook[0]
    if event == 'open':
        path, mode, flags = args
        writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (
            mode is None and isinstance(flags, int) and flags & _W)
        if writing and not _inside(path):
            raise ContainmentError(f'write outside the scratch directory: {path!r}')
        if hook is not None:
            hook('open-w' if writing else 'open-r', args)
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime',
                   'shutil.rmtree', 'shutil.chown', 'os.mkfifo', 'os.mknod'):
        dir_fd = args[-1] if len(args) > 1 and isinstance(args[-1], int) else -1
        if not (dir_fd is not None and dir_fd >= 0 and event in ('os.remove', 'os.rmdir', 'os.mkdir')) or os.path.isabs(os.fspath(args[0]) if not isinstance(args[0], int) else '/'):
            if not _inside(args[0]):
                raise ContainmentError(f'{event} outside the scratch directory: {args[0]!r}')
        if hook is not None:
            hook(event, args)
    elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile', 'shutil.copytree'):
        check = args[:2] if event in ('os.rename', 'shutil.move') else args[1:2]
        for p in check:
            if not _inside(p):
                raise ContainmentError(f'{event} outside the scratch directory: {p!r}')
        if hook is not None:
            hook(event, args)
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.startfile', 'os.kill', 'os.killpg',
                   'socket.connect', 'webbrowser.open'):
        raise ContainmentError(f'{event} {args!r} is not allowed in a case')


def contain(*dirs):
    _allowed[:] = [os.path.realpath(d) for d in dirs]
    sys.addaudithook(_audit)
    _armed[0] = True


class uncontained:
    """Suspend the containment for harness actions."""

    def __enter__(self):
        self.old = _armed[0]
        _armed[0] = False

    def __exit__(self, *a):
        _armed[0] = self.old


# ----------------------------------------------------------------- case runs

class _Cpu:
    fired = False


def _on_prof(signum, frame):
    _Cpu.fired = True
    raise CaseTimeout('no termination within the CPU budget')


def from_repo(exc):
    """True if the exception passed through code of the repository."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def environmental(ex):
    """True if the exception tells about the sandbox or the machinery rather than about the code under test."""
    return (isinstance(ex, (MemoryError, RecursionError, UnboundLocalError, ModuleNotFoundError)) or isinstance(ex, OSError) and ex.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN)
            or type(ex).__module__.startswith('hypothesis'))


def run_case(part, case, ctx):
    """Return None if the property holds for the case, else a message.
    Harness errors propagate."""
    ctx.begin()
    _Cpu.fired = False
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS, 5)
    try:
        part.fn(case, ctx)
        msg = None
    except Violation as ex:
        msg = str(ex)
    except CaseTimeout as ex:
        msg = f'CaseTimeout: {ex}'
    except Exception as ex:
        if isinstance(ex, ContainmentError) or from_repo(ex):
            msg = 'unexpected exception from the code under test:\n' + ''.join(
                traceback.format_exception(ex))[-3000:]
        elif environmental(ex):
            raise
        else:
            # on the unchanged code, the oracle gets along with every case; what it stumbles over is what the code made
            msg = 'the result is not of the expected form, the oracle fails:\n' + ''.join(traceback.format_exception(ex))[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        fault_hook[0] = None
    if _Cpu.fired and msg is None:
        msg = 'CaseTimeout: no termination within the CPU budget'
    return msg


def dumps(case):
    return json.dumps(case, ensure_ascii=True, sort_keys=True)


def load_known():
    """Known findings: lines 'property=<id> part=<part> case=<sha1> <text>' in known_findings.txt"""
    known = {}
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.isfile(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('kind') == 'finding':
                        known.setdefault(d['property'], []).append(d)
    return known


def worker_main(pid, tier, seed, index, count, outfile):
    base = os.environ['VERIF_SCRATCH']
    os.makedirs(base, exist_ok=True)
    tempfile.tempdir = os.path.join(base, 'tmp')
    os.makedirs(tempfile.tempdir, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    ctx = Ctx(base, tier)
    result = dict(evaluations=0, hashes=[], labels={}, samples=[], failures=[], notes=[], error=None)
    t0 = time.time()
    hashes = set()
    samples = []
    labels = collections.Counter()

    def account(part, case):
        result['evaluations'] += 1
        for l in ctx._case_labels:
            labels[f'{part.name}:{l}'] += 1
        if ctx._nontrivial:
            h = hashlib.sha1((part.name + dumps(case)).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                n = sum(1 for s in samples if s['part'] == part.name)
                if n < 2 and len(dumps(case)) < 6000:
                    samples.append({'part': part.name, 'case': case})

    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    contain(base)
    try:
        parts = {p.name: p for p in mod.PARTS}
        # regression corpus
        cdir = os.path.join(VERIF, 'corpus', pid)
        if os.path.isdir(cdir):
            for i, name in enumerate(sorted(os.listdir(cdir))):
                if i % count != index:
                    continue
                with open(os.path.join(cdir, name), encoding='utf-8') as f:
                    d = json.load(f)
                part = parts[d['part']]
                msg = run_case(part, d['case'], ctx)
                account(part, d['case'])
                labels['corpus'] += 1
                if msg is not None:
                    result['failures'].append(dict(part=part.name, case=d['case'], message=msg))
        if not result['failures']:
            for pi, part in enumerate(mod.PARTS):
                n = part.n[tier]
                share = n // count + (1 if index < n % count else 0)
                if share:
                    fail = search(part, share, seed, index, pi, ctx, account, t0, tier, result)
                    if fail is not None:
                        result['failures'].append(fail)
                        break
    except BaseException as ex:
        result['error'] = ''.join(traceback.format_exception(ex))[-6000:]
    finally:
        sys.stdout = real_stdout
        _armed[0] = False
        os.chdir('/')
    result['hashes'] = sorted(hashes)
    result['samples'] = samples
    result['labels'] = dict(labels)
    result['wall'] = time.time() - t0
    result['meta'] = dict(LEVEL=mod.LEVEL, RULE=mod.RULE, ASSUMPTIONS=mod.ASSUMPTIONS)
    with open(outfile, 'w', encoding='utf-8') as f:
        json.dump(result, f)


def plain_generation():
    """Let Hypothesis draw every case afresh.

    Its mutator copies parts of a case over others; with cases as large as these, what comes after the
    copied part no longer fits and falls back to the simplest values, so that many cases are degenerate.
    """
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if hasattr(ConjectureRunner, 'generate_mutations_from'):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    except ImportError:
        pass


def search(part, n, seed, index, pi, ctx, account, t0, tier, result):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    state = dict(best=None, first=None, msg=None, stop=False, harness=None, done=0)
    plain_generation()
    derived = (seed * 1000003 + index * 1009 + pi * 101 + 7) & 0x7fffffff

    class Failed(Exception):
        pass

    def test(case):
        if state['harness'] is not None or state['stop']:
            return
        now = time.time()
        if state['first'] is not None:
            if now - state['first'] > SHRINK_SECONDS[tier]:
                state['stop'] = True
                return
        elif now - t0 > WALL[tier]:
            if not state['done']:
                result['notes'].append(f'{part.name}: time budget reached, remaining cases not run')
                state['done'] = 1
            return
        try:
            msg = run_case(part, case, ctx)
        except BaseException as ex:
            if type(ex).__module__.startswith('hypothesis'):
                raise
            state['harness'] = ''.join(traceback.format_exception(ex))[-6000:]
            state['harness'] += '\ncase: ' + dumps(case)[:3000]
            return
        if state['first'] is None:
            account(part, case)
        if msg is not None:
            if state['first'] is None:
                state['first'] = now
            size = len(dumps(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, msg)
            raise Failed('x')

    runner = hypothesis.seed(derived)(settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
        phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink))(
            given(part.strategy())(test)))
    from hypothesis.reporting import with_reporter
    try:
        with with_reporter(lambda *_: None):
            runner()
    except Failed:
        pass
    except BaseException as ex:
        if state['best'] is None and state['harness'] is None:
            raise
    if state['harness'] is not None:
        raise RuntimeError('harness error in a case:\n' + state['harness'])
    if state['best'] is None:
        return None
    __, case, msg = state['best']
    case = json.loads(dumps(case))
    msg2 = run_case(part, case, ctx)
    if msg2 is None:
        msg2 = 'fails only after other cases in the same process (state is kept between operations on different objects):\n' + msg
    return dict(part=part.name, case=case, message=msg2)


# -------------------------------------------------------------------- parent

def child_env(scratch):
    env = dict(os.environ)
    env.update(LC_ALL='en_US.UTF-8', LANG='en_US.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               VERIF_SCRATCH=scratch, PYTHONPYCACHEPREFIX='/nonexistent/pycache', TMPDIR=scratch,
               HOME=scratch, PYTHONUTF8='0')
    env.pop('LANGUAGE', None)
    env.pop('PYTHONPATH', None)
    env.pop('DISPLAY', None)
    return env


def main(argv):
    pid = argv[0]
    args = argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    nworkers = None
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--workers':
            nworkers = int(args.pop(0))
        else:
            print('unknown argument', a)
            return 2
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir='/tmp')
    try:
        if replay:
            return do_replay(pid, tier, replay, scratch)
        return do_run(pid, tier, seed, nworkers or WORKERS[tier], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(pid, tier, path, scratch):
    out = os.path.join(scratch, 'replay.json')
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay-worker', pid, tier, os.path.abspath(path), out],
                       env=child_env(os.path.join(scratch, 'w')), cwd='/')
    if p.returncode:
        return 3
    r = json.load(open(out, encoding='utf-8'))
    if r['error']:
        print(r['error'])
        return 3
    if r['message'] is not None:
        print(r['message'])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('the property holds for this case')
    return 0


def replay_worker(pid, tier, path, out):
    base = os.environ['VERIF_SCRATCH']
    os.makedirs(base + '/tmp', exist_ok=True)
    tempfile.tempdir = base + '/tmp'
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    with open(path, encoding='utf-8') as f:
        d = json.load(f)
    part = {p.name: p for p in mod.PARTS}[d['part']]
    r = dict(error=None, message=None)
    so = sys.stdout
    if not os.environ.get('VERIF_DEBUG'):
        sys.stdout = open(os.devnull, 'w')
    contain(base)
    try:
        r['message'] = run_case(part, d['case'], Ctx(base, tier))
    except BaseException as ex:
        r['error'] = ''.join(traceback.format_exception(ex))
    _armed[0] = False
    sys.stdout = so
    os.chdir('/')
    with open(out, 'w', encoding='utf-8') as f:
        json.dump(r, f)


def do_run(pid, tier, seed, nworkers, scratch):
    t0 = time.time()
    procs = []
    for i in range(nworkers):
        out = os.path.join(scratch, f'w{i}.json')
        procs.append((out, subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'run.py'), '--worker', pid, tier, str(seed), str(i), str(nworkers), out],
            env=child_env(os.path.join(scratch, f'w{i}')), cwd='/', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    results = []
    errors = []
    for out, p in procs:
        text = p.communicate()[0].decode('utf-8', 'replace')
        if p.returncode or not os.path.isfile(out):
            errors.append(f'worker ended with {p.returncode}:\n{text[-3000:]}')
        else:
            with open(out, encoding='utf-8') as f:
                r = json.load(f)
            results.append(r)
            if r['error']:
                errors.append(r['error'])
    if not results:
        for e in errors:
            print(e)
        return 3
    mod_meta = results[0]['meta']
    hashes = set()
    labels = collections.Counter()
    samples = []
    failures = []
    notes = []
    evaluations = 0
    for r in results:
        evaluations += r['evaluations']
        hashes.update(r['hashes'])
        labels.update(r['labels'])
        notes += r['notes']
        failures += r['failures']
        for s in r['samples']:
            if sum(1 for x in samples if x['part'] == s['part']) < 2:
                samples.append(s)
    # known findings
    known = load_known().get(pid, [])
    exit_code = 0
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(f'{pid}-'):
            os.remove(os.path.join(replay_dir, name))
    failures.sort(key=lambda d: len(dumps(d['case'])))
    n = 0
    for d in failures:
        n += 1
        rp = os.path.join('evidence', 'replay', f'{pid}-{n}.json')
        with open(os.path.join(VERIF, rp), 'w', encoding='utf-8') as f:
            json.dump(dict(property=pid, part=d['part'], seed=seed, tier=tier, case=d['case'], message=d['message']), f, indent=1)
        print(d['message'])
        print(f'VIOLATION property={pid} replay={rp}')
        exit_code = 1
    for k in known:
        # the recorded reproduction must still fail; the search excludes exactly this input
        rp = os.path.join(VERIF, k['replay'])
        rc = known_still_fails(pid, tier, rp, scratch)
        if rc is None:
            errors.append(f'known finding {k["replay"]}: cannot be replayed')
        elif rc:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else:
            print(f'note: known finding of {pid} no longer fails: {k["what"]}')
    ev = dict(property=pid, tier=tier, seed=seed, level=mod_meta['LEVEL'],
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=mod_meta['RULE'],
                            samples=samples or [{'note': 'no non-trivial case'}], labels=dict(sorted(labels.items())), workers=nworkers, notes=notes),
              assumptions=mod_meta['ASSUMPTIONS'], wall_s=round(time.time() - t0, 2), violations=n)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    if errors and not n:
        for e in errors:
            print(e)
        print(f'ERROR: the check of {pid} failed')
        return 3
    print(f'{pid} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct non-trivial, {n} violations, {ev["wall_s"]} s')
    return exit_code


def known_still_fails(pid, tier, path, scratch):
    out = os.path.join(scratch, 'known.json')
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay-worker', pid, tier, path, out],
                       env=child_env(os.path.join(scratch, 'k')), cwd='/', stdout=subprocess.DEVNULL)
    if p.returncode:
        return None
    with open(out, encoding='utf-8') as f:
        r = json.load(f)
    if r['error']:
        return None
    return r['message'] is not None
