"""Shared machinery of the checks: builds the code under test from /repo, runs
scenario cases under monitors, and turns what the monitors report into a
verdict, a replay file and an evidence file.

A check module (checks/<id>.py) defines

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial
    NEEDS_DATA True if the code needs a data directory (simulations, galprops)
    SCENARIOS  list of (name, function, n_quick, n_thorough)
    MINIMUM    dict counter -> smallest total without which a run observed
               too little to mean anything (exit 3: no verdict)

A scenario function gets a Case.  Everything random comes from case.rng, which
depends only on (VERIF_SEED, property, scenario, index), so every case can be
re-run alone:  run.py <id> --replay FILE.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))   # for trying out many changes: stop at once, write no evidence
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class HarnessError(Exception):
    """The harness itself could not do its job: no verdict about the code."""


class Refused(Exception):
    """Raised by helpers when the code under test legitimately refuses."""


# --------------------------------------------------------------------------
# Building the code under test
# --------------------------------------------------------------------------
class Build:
    """A private installation of the package in /repo's working tree.

    The package records its data directory inside its own folder, so it is
    installed (copied) to a scratch directory for every run: nothing is written
    to /repo, and the data directory is scratch too.
    """

    def __init__(self, data_root=True):
        self.dir = tempfile.mkdtemp(prefix='vsim_')
        self.site = os.path.join(self.dir, 'site')
        self.root = os.path.join(self.dir, 'data')
        self.home = os.path.join(self.dir, 'home')
        self.cwd = os.path.join(self.dir, 'cwd')
        for d in (self.site, self.root, self.home, self.cwd):
            os.mkdir(d)
        src = os.path.join(REPO, 'simim')
        if not os.path.isdir(src):
            raise HarnessError('no package in ' + src)
        shutil.copytree(src, os.path.join(self.site, 'simim'),
                        ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt'))
        os.environ.update(HOME=self.home, MPLBACKEND='Agg',
                          MPLCONFIGDIR=os.path.join(self.home, 'mpl'),
                          XDG_CONFIG_HOME=os.path.join(self.home, 'cfg'),
                          XDG_CACHE_HOME=os.path.join(self.home, 'cache'))
        os.mkdir(os.environ['MPLCONFIGDIR'])
        sys.dont_write_bytecode = True
        sys.path.insert(0, self.site)
        os.chdir(self.cwd)
        warnings.simplefilter('ignore')
        if data_root:
            self.setup_root()
        self.contain()
        self.lines = Lines(self.site)
        simim = importlib.import_module('simim')
        if not os.path.abspath(simim.__file__).startswith(self.site):
            raise HarnessError('imported the wrong package: ' + simim.__file__)

    def setup_root(self):
        """What simim.setupsimim() leaves behind (checked itself by C27)."""
        with open(os.path.join(self.site, 'simim', 'resources', 'rootpath.txt'), 'w') as f:
            f.write(self.root)
        res = os.path.join(self.root, 'simim_resources')
        for d in ('', '.paths', 'simulations', 'lightcones', 'galprops'):
            os.makedirs(os.path.join(res, d), exist_ok=True)

    def contain(self):
        """Stand-ins for what could reach outside the scratch directory: shell
        commands, recursive deletion and the network."""
        self.shell_calls = []
        scratch = os.path.realpath(self.dir)
        tmpbase = os.path.realpath(tempfile.gettempdir())

        def inside(path):
            p = os.path.realpath(path)
            return p.startswith(scratch + os.sep) or p.startswith(tmpbase + os.sep + 'vsim_')

        def fake_system(cmd):
            # The package only ever shells out to remove raw data
            import shlex
            self.shell_calls.append(cmd)
            parts = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
            if parts[:1] == ['rm']:
                for p in parts[1:]:
                    if p.startswith('-'):
                        continue
                    if inside(p):
                        if os.path.isdir(p):
                            real_rmtree(p)
                        elif os.path.exists(p):
                            real_remove(p)
                    else:
                        self.shell_calls.append('REFUSED ' + p)
                return 0
            return 0
        real_rmtree, real_remove = shutil.rmtree, os.remove

        def guarded_rmtree(path, *a, **k):
            if not inside(path):
                self.shell_calls.append('REFUSED rmtree ' + str(path))
                raise PermissionError('stand-in: rmtree outside scratch: ' + str(path))
            return real_rmtree(path, *a, **k)

        def guarded_remove(path, *a, **k):
            # with dir_fd: from within a recursive deletion that was allowed
            if k.get('dir_fd') is None and not inside(path):
                self.shell_calls.append('REFUSED remove ' + str(path))
                raise PermissionError('stand-in: remove outside scratch: ' + str(path))
            return real_remove(path, *a, **k)
        os.system = fake_system
        shutil.rmtree = guarded_rmtree
        os.remove = guarded_remove
        os.unlink = guarded_remove
        self._real_rmtree = real_rmtree

        # Downloads go to a stand-in that a check can set (build.http, build.retrieve)
        import urllib.request
        import requests
        self.http = self.retrieve = None
        self.urls = []

        def fake_get(url, *a, **k):
            self.urls.append(url)
            if self.http is None:
                raise requests.ConnectionError('stand-in: no network in the checks')
            return self.http(url, *a, **k)

        def fake_retrieve(url, filename=None, *a, **k):
            self.urls.append(url)
            if self.retrieve is None:
                raise OSError('stand-in: no network in the checks')
            return self.retrieve(url, filename)
        requests.get = fake_get
        urllib.request.urlretrieve = fake_retrieve

        import socket

        def no_net(*a, **k):
            raise OSError('stand-in: no network in the checks')
        socket.create_connection = no_net

    def close(self):
        os.chdir('/')
        self._real_rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------------------
# Cases, monitors
# --------------------------------------------------------------------------
class Lines:
    """Which lines of the package the workload executed (each is reported once by
    the interpreter, so this costs next to nothing)."""

    def __init__(self, site):
        self.base = os.path.join(site, '')
        self.seen = {}
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, 'vkit')
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self.line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def line(self, code, line):
        if code.co_filename.startswith(self.base):
            self.seen.setdefault(code.co_filename[len(self.base):], set()).add(line)
        return sys.monitoring.DISABLE


class Interrupted(KeyboardInterrupt):
    """What a workload that interrupts the package sees."""


class Interrupt:
    """Interrupts the package, as Ctrl-C would, when it is about to execute its
    n-th line (counted over the files named, and each line at most cap times, so
    that long loops do not crowd out the rest); n=None only counts.

        with Interrupt(build, n, 'lightcone/lcmaker.py') as i: ...
        i.lines, i.fired
    """

    def __init__(self, build, n, *files, cap=1 << 60):
        self.cap, self.count = cap, {}
        self.paths = {os.path.join(build.site, 'simim', f) for f in files}
        self.n, self.lines, self.fired = n, 0, False
        self.where = None

    def line(self, code, line):
        if code.co_filename not in self.paths:
            return sys.monitoring.DISABLE
        c = self.count[code, line] = self.count.get((code, line), 0) + 1
        if c > self.cap:
            return
        self.lines += 1
        if self.n is not None and self.lines == self.n:
            self.fired = True
            self.where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            raise Interrupted('interrupted')

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, 'interrupt')
        mon.restart_events()
        mon.register_callback(4, mon.events.LINE, self.line)
        mon.set_events(4, mon.events.LINE)
        return self

    def __exit__(self, t, v, tb):
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.LINE, None)
        mon.free_tool_id(4)
        return t is not None and issubclass(t, Interrupted)


def executable_lines(path):
    """Lines with code inside functions."""
    out, todo = set(), [compile(open(path).read(), path, 'exec')]
    while todo:
        c = todo.pop()
        if c.co_flags & 2:
            out.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
    return out


class Case:
    def __init__(self, run, scenario, index):
        import numpy as np
        self.run = run
        self.scenario = scenario
        self.index = index
        h = int(hashlib.sha256(('%s/%s' % (run.prop, scenario)).encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng([run.seed, h, index])
        self.tier = run.tier
        self.build = run.build
        self.found = False
        self.log = []

    # -- what the monitors report ------------------------------------------
    def observe(self, counter, n=1):
        self.run.counters[counter] = self.run.counters.get(counter, 0) + int(n)

    def nontrivial(self, *sig):
        """This case is non-trivial; sig tells it from the others."""
        self.run.signatures.add(hashlib.sha256(repr((self.scenario,) + sig).encode()).hexdigest())

    def sample(self, text):
        self.run.add_sample(self.scenario, text)

    def note(self, text):
        """Line of the history that leads to a violation."""
        self.log.append(str(text))

    def fail(self, key, message):
        self.run.violation(self, key, message)

    def check(self, ok, key, message):
        """An oracle's judgement; message may be a callable."""
        self.observe('oracle_judgements')
        if not ok:
            self.fail(key, message() if callable(message) else message)
        return bool(ok)

    def close(self, a, b, key, message, rtol=1e-9, atol=0.0):
        """a (observed) equals b (reference) up to rounding; NaN == NaN."""
        import numpy as np
        self.observe('oracle_judgements')
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(key, '%s: shape %s, expected %s' % (message, a.shape, b.shape))
            return False
        if a.size == 0:
            return True
        if a.dtype == object or b.dtype == object or a.dtype.kind in 'SU' or b.dtype.kind in 'SU':
            ok = bool(np.all(a == b))
        else:
            scale = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.0
            ok = bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol + rtol * 1e-4 * scale, equal_nan=True)))
        if not ok:
            bad = ~np.isclose(a.astype(complex), b.astype(complex), rtol=rtol, atol=atol, equal_nan=True) \
                if a.dtype != object and a.dtype.kind not in 'SU' else (a != b)
            idx = tuple(int(i[0]) for i in np.nonzero(np.atleast_1d(bad)))[:a.ndim] if np.any(bad) else ()
            at = (np.atleast_1d(a)[idx], np.atleast_1d(b)[idx]) if idx else (a, b)
            self.fail(key, '%s: %d of %d values differ; at %s observed %r, expected %r'
                      % (message, int(np.sum(bad)), a.size, idx, at[0], at[1]))
        return ok

    @contextlib.contextmanager
    def quiet(self):
        """Silence the package's prints and warnings."""
        buf = io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(buf):
                yield buf

    def refuses(self, key, message, func, *args, **kw):
        """func must raise; returns True if it did."""
        if not (isinstance(key, str) and isinstance(message, str) and callable(func)):
            raise AssertionError('refuses(key, message, function, ...)')
        self.observe('oracle_judgements')
        try:
            with self.quiet():
                func(*args, **kw)
        except Exception as e:
            if os.environ.get('VERIF_REFUSALS'):
                with open(os.environ['VERIF_REFUSALS'], 'a') as f:
                    f.write('%s | %s | %s: %s\n' % (key, message[:60], type(e).__name__, str(e)[:80].replace('\n', ' ')))
            self.observe('refusals_observed')
            return True
        self.fail(key, message)
        return False


class CaseFailed(Exception):
    pass


class Hung(BaseException):
    """A case that takes seconds has not come to an end after minutes."""


class Run:
    def __init__(self, prop, module, tier, seed, build):
        self.prop, self.module, self.tier, self.seed, self.build = prop, module, tier, seed, build
        self.counters = {}
        self.signatures = set()
        self.samples = {}
        self.cases = 0
        self.violations = {}
        self.known_hits = {}
        self.errors = []
        self.lines = {}
        self.known = load_known(prop)

    def add_sample(self, scenario, text):
        s = self.samples.setdefault(scenario, [])
        if len(s) < 3:
            s.append(str(text)[:600])

    def violation(self, case, key, message):
        if key in self.known:
            self.known_hits.setdefault(key, message)
            return
        case.found = True
        if key not in self.violations:
            self.violations[key] = {'property': self.prop, 'key': key, 'scenario': case.scenario,
                                    'index': case.index, 'seed': self.seed, 'tier': self.tier,
                                    'message': str(message)[:4000], 'history': [h[:500] for h in case.log[-200:]]}
        raise CaseFailed()

    def dump(self, path):
        with open(path, 'w') as f:
            json.dump({'counters': {k: int(v) for k, v in self.counters.items()}, 'signatures': sorted(self.signatures), 'samples': self.samples,
                       'cases': self.cases, 'violations': self.violations, 'known_hits': self.known_hits,
                       'errors': self.errors, 'lines': {k: sorted(v) for k, v in self.build.lines.seen.items()}}, f, default=str)

    def merge(self, d):
        for k, v in d['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.signatures.update(d['signatures'])
        for k, v in d['samples'].items():
            self.samples[k] = (self.samples.get(k, []) + v)[:3]
        self.cases += d['cases']
        for k, v in d['violations'].items():
            self.violations.setdefault(k, v)
        for k, v in d['known_hits'].items():
            self.known_hits.setdefault(k, v)
        self.errors += d['errors']
        for k, v in d['lines'].items():
            self.lines.setdefault(k, set()).update(v)

    def run_case(self, scenario, func, index):
        case = Case(self, scenario, index)
        self.cases += 1
        self.counters['cases_' + scenario] = self.counters.get('cases_' + scenario, 0) + 1
        limit = 150 if self.tier == 'quick' else 900

        def hung(signum, frame):
            raise Hung('no result after %d s' % limit)
        signal.signal(signal.SIGALRM, hung)
        signal.alarm(limit)
        try:
            try:
                with case.quiet():
                    func(case)
            except (CaseFailed, HarnessError, MemoryError):
                raise
            except Exception as e:
                # On the unchanged tree no case raises: either the code raised on
                # a valid input, or its result could not be interpreted at all.
                tb = traceback.extract_tb(e.__traceback__)
                frames = ['%s:%s' % (os.path.relpath(f.filename, self.build.site), f.name)
                          for f in tb if f.filename.startswith(self.build.site)]
                if frames:
                    key = 'exception:%s:%s' % (frames[-1], type(e).__name__)
                else:
                    key = 'uninterpretable:%s:%s' % (tb[-1].name, type(e).__name__)
                case.note(''.join(traceback.format_exception(e))[-3000:])
                self.violation(case, key, 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]))
        except CaseFailed:
            pass
        except (HarnessError, MemoryError) as e:
            self.errors.append('%s[%d]: %s: %s' % (scenario, index, type(e).__name__, e))
        except Hung as e:
            frames = ['%s:%s' % (os.path.relpath(f.filename, self.build.site), f.name)
                      for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(self.build.site)]
            try:
                if frames:
                    self.violation(case, 'no_end:%s' % frames[-1], '%s: %s' % (frames[-1], e))
                else:
                    self.errors.append('%s[%d]: the check itself took too long' % (scenario, index))
            except CaseFailed:
                pass
        finally:
            signal.alarm(0)
        return case


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d['property'] == prop and d['status'] == 'known':
                    known[d['key']] = d['what']
    return known


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--scenario')
    ap.add_argument('--index', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0') or 0))
    ap.add_argument('--shard')
    ap.add_argument('--out')
    args = ap.parse_args(argv)
    t0 = time.time()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, os.path.join(VERIF, 'checks', 'run.py')] + argv)
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(v, '1')

    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        seed, tier = replay['seed'], replay['tier']

    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    module = importlib.import_module(args.prop)
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    if not args.replay and args.index is None and not args.shard and jobs > 1:
        return parallel(args, module, tier, seed, jobs, t0, argv)
    shard, shards = [int(x) for x in args.shard.split('/')] if args.shard else (0, 1)
    build = None
    rc = 2
    try:
        try:
            build = Build(data_root=getattr(module, 'NEEDS_DATA', False))
        except HarnessError:
            raise
        except Exception as e:
            # the package does not import: no verdict about the property
            traceback.print_exc()
            print('ERROR: the package could not be built: %s' % e)
            return 2
        run = Run(args.prop, module, tier, seed, build)
        if hasattr(module, 'setup'):
            module.setup(run)
        for name, func, nq, nt in module.SCENARIOS:
            if replay:
                if name == replay['scenario']:
                    run.run_case(name, func, replay['index'])
                continue
            if args.scenario and name != args.scenario:
                continue
            n = nq if tier == 'quick' else nt
            n = max(1, int(n * args.scale)) if n else 0
            idx = range(shard, n, shards) if args.index is None else [args.index]
            bad = 0
            for i in idx:
                c = run.run_case(name, func, i)
                bad += c.found
                if bad >= (1 if FAILFAST else 3):
                    break
            if bad and FAILFAST:
                break
        if args.shard:
            run.dump(args.out)
            rc = 0
        else:
            rc = report(run, module, tier, seed, time.time() - t0, replay or args.scenario)
    finally:
        if build is not None:
            build.close()
    return rc


def parallel(args, module, tier, seed, jobs, t0, argv):
    """The cases are independent: share them out to processes, each with its own
    private build, and merge what their monitors saw."""
    import subprocess
    out = tempfile.mkdtemp(prefix='vsim_')
    run = Run(args.prop, module, tier, seed, None)
    try:
        procs = []
        for k in range(jobs):
            path = os.path.join(out, '%d.json' % k)
            cmd = [sys.executable, os.path.join(VERIF, 'checks', 'run.py')] + argv + ['--shard', '%d/%d' % (k, jobs), '--out', path]
            procs.append((path, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        failed = []
        for path, p in procs:
            text, _ = p.communicate()
            if p.returncode != 0 or not os.path.exists(path):
                failed.append((p.returncode, text[-2000:]))
            else:
                run.merge(json.load(open(path)))
        for code, text in failed:
            run.errors.append('a worker ended with %s' % code)
        if failed:
            print(failed[0][1])
        if len(failed) == jobs and all(code == 2 for code, _ in failed):
            return 2
        return report(run, module, tier, seed, time.time() - t0, args.scenario)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def executed(run):
    out = {}
    lines = run.lines or run.build.lines.seen
    for f, seen in sorted(lines.items()):
        path = os.path.join(REPO, f)
        all_lines = executable_lines(path) if os.path.exists(path) else set()
        n = len(all_lines & set(seen))
        if n:
            out[f] = '%d of %d' % (n, len(all_lines))
    return out


def report(run, module, tier, seed, wall, partial):
    prop = run.prop
    minimum = {} if partial else getattr(module, 'MINIMUM', {})
    if run.violations:
        minimum = {}
    for k, n in minimum.items():
        if run.counters.get(k, 0) < n:
            run.errors.append('observed too little: %s = %d < %d' % (k, run.counters.get(k, 0), n))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': run.cases,
            'distinct_nontrivial': len(run.signatures),
            'rule': module.RULE,
            'samples': [{'scenario': k, 'case': s} for k, v in sorted(run.samples.items()) for s in v],
            'observed': dict(sorted(run.counters.items())),
            'function_lines_executed': executed(run),
            'known_findings_seen': sorted(run.known_hits),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(run.violations),
    }
    if not partial and not FAILFAST:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write('\n')
    for key in sorted(run.known_hits):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, run.known[key], key))
    for i, (key, v) in enumerate(sorted(run.violations.items())):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  [%s] %s[%d]: %s' % (key, v['scenario'], v['index'], v['message']))
    print('%s %s seed=%d: %d cases, %d distinct, %d oracle judgements, %d violations, %.1f s'
          % (prop, tier, seed, run.cases, len(run.signatures),
             run.counters.get('oracle_judgements', 0), len(run.violations), wall))
    if run.violations:
        return 1
    if run.errors:
        for e in run.errors[:10]:
            print('ERROR: no verdict: ' + e)
        return 3
    return 0
