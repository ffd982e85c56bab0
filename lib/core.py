"""Harness shared by every check: forked workers, in-process CLI runs, verdicts, evidence.

A check never trusts the code under test for anything but the execution itself:
* every workload item runs in a forked child (own scratch cwd, own stdin/stdout,
  hard timeout), so a hang, a crash or a leaked global of one run cannot disturb
  the next one;
* the child records what was observed and returns it (pickled) to the parent,
  where the monitors (or the child, for cheap ones) judge it;
* a timeout is never an alarm: the item is counted as "skipped".
"""
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
WORKERS = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 1))))

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load(name):
    """Import a module of the code under test, from REPO and nowhere else."""
    import importlib
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):  # network.py may print at import time
        module = importlib.import_module(name)
    path = os.path.realpath(module.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'{name} was imported from {path}, not from {REPO}')
    return module


def tool(name):
    return load('factorio_sat.' + name)


# ---------------------------------------------------------------------------
# scratch directories
# ---------------------------------------------------------------------------

_SCRATCH = None


def scratch_root():
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[1] != os.getpid():
        _SCRATCH = (tempfile.mkdtemp(prefix='verif-'), os.getpid())
    return _SCRATCH[0]


# ---------------------------------------------------------------------------
# forked task pool
# ---------------------------------------------------------------------------

class Outcome:
    """What came back from one task."""
    __slots__ = ('task', 'kind', 'value', 'seconds')

    def __init__(self, task, kind, value, seconds):
        self.task = task
        self.kind = kind      # 'ok' | 'exception' | 'timeout' | 'died' | 'skipped'
        self.value = value
        self.seconds = seconds


class Task:
    def __init__(self, func, *args, timeout=30.0, label=None):
        self.func = func
        self.args = args
        self.timeout = timeout
        self.label = label if label is not None else func.__name__


def _child(task, write_fd, workdir, memory):
    os.setsid()
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    except (ValueError, OSError):
        pass
    os.makedirs(workdir, exist_ok=True)
    os.chdir(workdir)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        try:
            payload = ('ok', task.func(*task.args))
        except BaseException:
            payload = ('exception', traceback.format_exc())
        try:
            data = pickle.dumps(payload, protocol=4)
        except Exception:
            data = pickle.dumps(('exception', 'unpicklable result\n' + traceback.format_exc()), protocol=4)
        data = struct.pack('<Q', len(data)) + data
        view = memoryview(data)
        while view:
            n = os.write(write_fd, view)
            view = view[n:]
    finally:
        os._exit(0)


def run_tasks(tasks, deadline=None, workers=None, memory=6 << 30):
    """Run tasks in forked children; yields Outcomes as they finish.

    deadline: time.monotonic() value after which no further task is started
    (started ones are given up to their own timeout, but never more than 20 s
    past the deadline)."""
    workers = workers or WORKERS
    queue = list(tasks)
    queue.reverse()
    running = {}
    counter = 0
    root = scratch_root()
    try:
        while queue or running:
            now = time.monotonic()
            while queue and len(running) < workers:
                task = queue.pop()
                if deadline is not None and now > deadline:
                    yield Outcome(task, 'skipped', None, 0.0)
                    continue
                read_fd, write_fd = os.pipe()
                counter += 1
                workdir = os.path.join(root, f't{counter}')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(read_fd)
                    _child(task, write_fd, workdir, memory)
                os.close(write_fd)
                os.set_blocking(read_fd, False)
                start = time.monotonic()
                limit = start + task.timeout
                if deadline is not None:
                    limit = min(limit, deadline + 20.0)
                running[read_fd] = [task, pid, start, limit, bytearray(), workdir]
            if not running:
                continue
            wait = max(0.0, min(item[3] for item in running.values()) - time.monotonic())
            ready, _, _ = select.select(list(running), [], [], min(wait, 1.0))
            finished = []
            for fd in ready:
                item = running[fd]
                try:
                    chunk = os.read(fd, 1 << 20)
                except BlockingIOError:
                    continue
                if chunk:
                    item[4] += chunk
                else:
                    finished.append((fd, None))
            done = {fd for fd, _ in finished}
            now = time.monotonic()
            for fd, item in running.items():
                if fd not in done and now > item[3]:
                    finished.append((fd, 'timeout'))
            for fd, reason in finished:
                task, pid, start, _, data, workdir = running.pop(fd)
                os.close(fd)
                try:
                    os.killpg(pid, signal.SIGKILL)  # also ends anything the task left running
                except (ProcessLookupError, PermissionError):
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                _, status = os.waitpid(pid, 0)
                shutil.rmtree(workdir, ignore_errors=True)
                seconds = time.monotonic() - start
                if reason == 'timeout':
                    yield Outcome(task, 'timeout', None, seconds)
                    continue
                if len(data) >= 8 and struct.unpack('<Q', data[:8])[0] == len(data) - 8:
                    kind, value = pickle.loads(bytes(data[8:]))
                    yield Outcome(task, kind, value, seconds)
                else:
                    yield Outcome(task, 'died', status, seconds)
    finally:
        for fd, item in running.items():
            try:
                os.killpg(item[1], signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                os.waitpid(item[1], 0)
            except ChildProcessError:
                pass
        shutil.rmtree(root, ignore_errors=True)
        global _SCRATCH
        _SCRATCH = None


# ---------------------------------------------------------------------------
# running a command line tool inside the current (forked) process
# ---------------------------------------------------------------------------

class EnoughOutput(BaseException):
    """Raised out of the tool's own print() once we have what we wanted (the reader went away)."""


class _Writer(io.TextIOBase):
    def __init__(self, max_lines, repeats=None):
        self.chunks = []
        self.lines = 0
        self.max_lines = max_lines
        self.repeats = repeats
        self.seen = {}

    def writable(self):
        return True

    def write(self, text):
        self.chunks.append(text)
        if self.max_lines is not None:
            self.lines += text.count('\n')
            if self.lines >= self.max_lines:
                raise EnoughOutput
        if self.repeats is not None and text.strip():
            self.seen[text] = self.seen.get(text, 0) + 1
            if self.seen[text] >= self.repeats:
                raise EnoughOutput
        return len(text)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.chunks)


class Run:
    """Observation of one tool run."""

    def __init__(self, out, err, end, detail):
        self.out = out          # everything written to stdout
        self.err = err
        self.end = end          # 'returned' | 'eof' | 'exit' | 'truncated' | 'exception'
        self.detail = detail    # exit code or traceback

    @property
    def lines(self):
        text = self.out
        lines = text.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        return lines

    @property
    def failed(self):
        return self.end == 'exception' or (self.end == 'exit' and self.detail not in (0, None))

    @property
    def complete(self):
        """Ended on its own account, without an error."""
        return self.end in ('returned', 'eof') or (self.end == 'exit' and self.detail in (0, None))

    def describe(self):
        return {'end': self.end, 'detail': str(self.detail)[-1500:], 'out': self.out[:600], 'err': self.err[-300:]}


def run_cli(name, argv, stdin='', max_lines=None, repeats=None):
    """Call <tool>.main() the way its console script does. EOFError on stdin is how the
    stream tools of this project end, so it is reported as its own kind of ending.
    max_lines / repeats: cut the run off ('truncated') after so many lines, or the same text so many times."""
    module = tool(name)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = _Writer(max_lines, repeats)
    err = io.StringIO()
    sys.argv = [name] + [str(arg) for arg in argv]
    sys.stdin = io.StringIO(stdin)
    sys.stdout = out
    sys.stderr = err
    end, detail = 'returned', None
    try:
        try:
            module.main()
        except EnoughOutput:
            end = 'truncated'
        except EOFError:
            end = 'eof'
        except SystemExit as e:
            end, detail = 'exit', e.code
        except BaseException:
            end, detail = 'exception', traceback.format_exc()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return Run(out.text(), err.getvalue(), end, detail)


def diversify_solver(seed):
    """Give the SAT solvers random phases, so repeated runs see different layouts.

    Any answer a SAT solver is allowed to give must be handled by the code under test;
    this only changes which of the allowed answers is given."""
    from pysat import solvers
    rng = random.Random(seed)
    original = solvers.Solver.solve

    def solve(self, *args, **kwargs):
        try:
            top = self.nof_vars()
            if top:
                self.set_phases([v if rng.random() < 0.5 else -v for v in range(1, top + 1)])
        except (NotImplementedError, AttributeError, TypeError):
            pass
        return original(self, *args, **kwargs)
    solvers.Solver.solve = solve


def pin_next_search(cells):
    """Pin these tiles ({(x, y): tile as the tools write it}) in the next grid that is searched.

    For tools that take no partial layout. Returns a list that holds the size of each grid pinned;
    a caller that finds it empty afterwards has observed nothing."""
    from factorio_sat import solver, tile
    original = solver.Grid.itersolve
    pinned = []

    def itersolve(self, *args, **kwargs):
        if not pinned:
            for (x, y), data in cells.items():
                self.set_tile(x, y, tile.BaseTile.read(data))
            pinned.append((self.width, self.height))
        return original(self, *args, **kwargs)
    solver.Grid.itersolve = itersolve
    return pinned


# ---------------------------------------------------------------------------
# verdicts, known findings, evidence
# ---------------------------------------------------------------------------

def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f).get('findings', [])
    except FileNotFoundError:
        return []


class Check:
    def __init__(self, property_id, level, rule, assumptions=()):
        self.id = property_id
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.start = time.monotonic()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = {}
        self.skipped = 0
        self.rng = random.Random(f'{property_id}-{SEED}')
        self.quick = TIER == 'quick'
        self.exhaustive = None

    # -- bookkeeping -------------------------------------------------------
    def budget(self, quick, thorough):
        return self.start + (quick if self.quick else thorough)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def merge(self, counts):
        for name, n in counts.items():
            self.count(name, n)

    def observe(self, key=None, n=1):
        """n evaluations; key: what makes the case distinct and non-trivial (None: trivial)."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key)

    def sample(self, value, limit=6):
        if len(self.samples) < limit:
            self.samples.append(value)

    def violation(self, signature, message, replay):
        """signature: short stable identification of the failing input or history."""
        for finding in known_findings():
            if finding.get('property') == self.id and finding.get('signature') == signature:
                self.known[signature] = finding.get('what', message)
                return
        self.violations.append((signature, message, replay))

    def absorb(self, outcome, on_ok):
        """Standard treatment of a task outcome."""
        if outcome.kind == 'ok':
            on_ok(outcome.value)
        elif outcome.kind in ('skipped', 'timeout'):
            self.skipped += 1
            self.count('items_' + outcome.kind)
        else:
            text = outcome.value if outcome.kind == 'exception' else f'worker ended with wait status {outcome.value}'
            if isinstance(text, str) and 'MemoryError' in text:
                self.skipped += 1
                self.count('items_out_of_memory')
                return
            self.violation('crash:' + outcome.task.label, 'the code under test failed: ' + str(text)[-1500:],
                           {'task': outcome.task.label, 'args': repr(outcome.task.args)[:2000], 'trace': str(text)})

    def take(self, report):
        self.evaluations += report.evaluations
        self.distinct |= report.keys
        self.merge(report.counts)
        for value in report.samples:
            self.sample(value)
        for signature, message, replay in report.violations:
            self.violation(signature, message, replay)

    def run(self, tasks, deadline, workers=None, memory=6 << 30):
        """Run tasks returning Reports, merge what they observed."""
        for outcome in run_tasks(tasks, deadline, workers, memory):
            self.absorb(outcome, self.take)

    def finish(self, minimum=1):
        """Write the evidence, print the verdict and exit."""
        wall = time.monotonic() - self.start
        os.makedirs(EVIDENCE, exist_ok=True)
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples,
            'monitor_events': self.counts,
            'items_skipped': self.skipped,
        }
        if self.exhaustive is not None:
            coverage['exhaustive'] = self.exhaustive
        evidence = {
            'property': self.id,
            'tier': TIER,
            'seed': SEED,
            'level': self.level,
            'coverage': coverage,
            'assumptions': self.assumptions,
            'wall_s': round(wall, 3),
            'violations': len(self.violations),
        }
        path = os.path.join(EVIDENCE, self.id + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write('\n')
        os.replace(path + '.tmp', path)

        for signature, what in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.id} {what}')
        if self.violations:
            folder = os.path.join(EVIDENCE, 'replays')
            os.makedirs(folder, exist_ok=True)
            seen = set()
            for i, (signature, message, replay) in enumerate(self.violations):
                if signature in seen or len(seen) >= 10:
                    continue
                seen.add(signature)
                replay_path = os.path.join(folder, f'{self.id}-{len(seen)}.json')
                with open(replay_path, 'w') as f:
                    json.dump({'property': self.id, 'seed': SEED, 'tier': TIER, 'signature': signature,
                               'message': message, 'replay': replay}, f, indent=1, default=str)
                    f.write('\n')
                print(f'VIOLATION property={self.id} replay={replay_path}')
                print(f'  {signature}: {message[:700]}')
            sys.stdout.flush()
            sys.exit(1)
        print(f'{self.id}: held on {self.evaluations} evaluations ({len(self.distinct)} distinct non-trivial), '
              f'{self.skipped} skipped, {wall:.1f} s')
        if len(self.distinct) < minimum:
            print(f'{self.id}: INCONCLUSIVE, fewer than {minimum} non-trivial observations')
            sys.exit(2)
        sys.exit(0)


class Report:
    """What one task observed; merged into the Check by Check.take()."""

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def observe(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.keys.add(key if isinstance(key, (int, str)) else hash_key(key))

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(value)

    def violation(self, signature, message, replay):
        if len(self.violations) < 5:
            self.violations.append((signature, message, replay))


def hash_key(value):
    import hashlib
    return hashlib.blake2b(repr(value).encode(), digest_size=8).hexdigest()


def compact(value):
    return json.dumps(value, separators=(',', ':'), sort_keys=True)
