"""C20: the optimal-balancer database survives interruption at any point.

Fault enumeration: native/crashpoint.c is preloaded and counts every operation of `calculate_optimal compute` on
files of its folder. A first run counts them; then the run is repeated and killed before or after each operation,
in the middle of each write, interrupted (SIGINT, SIGTERM), or the operation fails (disk full, I/O error). Other
runs are killed at arbitrary times, or lose a worker process. Monitor: the database on disk afterwards, against what
the run had reported as finished; then the search is continued (perhaps interrupted again) to its end, and the
minima compared with those of an undisturbed run.
"""
import ctypes
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from checks import c19
from lib import core, gen, optimal

MODES = {'kill before': 1, 'kill after': 2, 'tear': 3, 'fail': 4, 'interrupt': 5, 'terminate': 6}
LIB = None


def crash_library():
    """Start this process again with the library preloaded."""
    if os.environ.get('C20_PRELOADED') == '1':
        folder = os.path.dirname(os.environ.pop('LD_PRELOAD'))
        del os.environ['C20_PRELOADED']
        shutil.rmtree(folder, ignore_errors=True)
        lib = ctypes.CDLL(None)
        lib.cp_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        lib.cp_count.restype = ctypes.c_long
        lib.cp_kinds.restype = ctypes.c_char_p
        return lib
    folder = tempfile.mkdtemp(prefix='crashpoint')
    target = os.path.join(folder, 'libcrashpoint.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', target, os.path.join(core.VERIF, 'native', 'crashpoint.c'), '-ldl'], check=True)
    os.environ['LD_PRELOAD'] = target
    os.environ['C20_PRELOADED'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)


class Ending:
    def __init__(self, status, started, found, count, kinds, timeout):
        self.status = status
        self.started = started      # {network: [sizes]}
        self.found = found          # networks reported as finished
        self.count = count
        self.kinds = kinds
        self.timeout = timeout

    def describe(self):
        return {'status': self.status, 'started': {k: [str(s) for s in v] for k, v in self.started.items()}, 'found': sorted(self.found),
                'operations': self.count}


def search(argv, point=0, mode=0, kill_after=None, victim=None, limit=20.0):
    """One run of the tool in a process of its own."""
    read_fd, write_fd = os.pipe()
    open('log', 'w').close()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        os.close(read_fd)
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            sys.argv = ['calculate_optimal'] + [str(a) for a in argv]
            sys.stdout = open('log', 'a', buffering=1)
            sys.stderr = open(os.devnull, 'w')
            LIB.cp_arm(os.getcwd().encode(), point, mode)
            code = 0
            try:
                core.tool('calculate_optimal').main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except BaseException:
                code = 1
            os.write(write_fd, f'{LIB.cp_count()} {LIB.cp_kinds().decode()}'.encode())
            os._exit(code)
        finally:
            os._exit(3)
    os.close(write_fd)
    start = time.monotonic()
    status, timeout, shot = None, False, False
    while True:
        got, value = os.waitpid(pid, os.WNOHANG)
        if got:
            status = value
            break
        now = time.monotonic() - start
        if kill_after is not None and not shot and now >= kill_after:
            shot = True
            target = pid
            if victim == 'worker':
                children = [int(p) for p in open(f'/proc/{pid}/task/{pid}/children').read().split()]
                target = children[0] if children else None
            if target is not None:
                try:
                    os.kill(target, {'worker': signal.SIGKILL, 'kill': signal.SIGKILL, 'interrupt': signal.SIGINT, 'terminate': signal.SIGTERM}[victim])
                except ProcessLookupError:
                    pass
        if now > limit:
            timeout = True
            os.kill(pid, signal.SIGKILL)
            _, status = os.waitpid(pid, 0)
            break
        time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)      # workers it left behind
    except (ProcessLookupError, PermissionError):
        pass
    data = b''
    os.set_blocking(read_fd, False)
    try:
        data = os.read(read_fd, 1 << 17)
    except BlockingIOError:
        pass
    os.close(read_fd)
    started, found = {}, set()
    with open('log') as f:
        for line in f:
            match = re.match(r'(.*): Start \((\d+), (\d+), (\d+)\)$', line.rstrip('\n'))
            if match:
                started.setdefault(match.group(1), []).append(tuple(int(v) for v in match.groups()[1:]))
            match = re.match(r'(.*): Solution found$', line.rstrip('\n'))
            if match:
                found.add(match.group(1))
    count, _, kinds = data.decode().partition(' ')
    return Ending(status, started, found, int(count) if count else None, kinds, timeout)


def judge(report, networks, before, ending, context, rng):
    """The database on disk after a run ended in whatever way. Returns it, or None after a violation."""
    try:
        after = optimal.load()
    except (ValueError, AttributeError, TypeError, KeyError) as e:
        with open(optimal.DATABASE, errors='replace') as f:
            text = f.read()
        report.violation('destroyed', f'the database is not a database any more: {e!r}', dict(context, database=text[:500], length=len(text)))
        return None
    quiet = core.Report()
    c19.judge_database(quiet, networks, before, after, context, rng, 0)
    for signature, message, replay in quiet.violations:
        report.violation(signature.replace('compute:', ''), message, replay)
        return None
    for name, sizes in ending.started.items():
        finished = sizes if name in ending.found else sizes[:-1]
        exist = after.get(name, ({}, {}))[0]
        for key in finished:
            report.count('finished_results_checked')
            if optimal.implied(exist, key) is None:
                report.violation('unsaved', f'the result for {key} of {name} was finished and is not in the database', context)
                return None
    return after


def minima(networks, stores, u, objective):
    result = {}
    for name, nodes in networks.items():
        low = max(optimal.terminals(nodes))
        sizes = [(k[1] - 2) * k[2] if objective == 'area' else k[1] for k in stores.get(name, ({}, {}))[1] if k[0] <= u and (objective == 'area' or k[2] == low)]
        result[name] = min(sizes) if sizes else None
    return result


def scenario(rng):
    shipped = gen.shipped_networks()
    networks = {}
    for name in rng.sample(('1x2', '2x1', '2x2', '1x4', '4x1', '2x4', '4x2'), rng.randint(1, 4)):
        networks[name] = shipped[name]
    return networks, rng.choice((2, 3, 4, 6)), rng.choice(('length', 'area', 'area')), rng.choice((1, 1, 2, 4))


def points(seed, cases, every):
    rng = random.Random(seed)
    report = core.Report()
    networks, u, objective, threads = scenario(rng)
    c19.set_up(networks)
    for name in os.listdir('.'):
        if name.startswith(optimal.DATABASE):
            os.remove(name)
    argv = ['compute', u, objective, '--threads', threads]
    # perhaps on top of what an earlier search left
    if rng.random() < 0.6:
        prior = ['compute', rng.choice((2, 3, 4)), rng.choice(('length', 'area')), '--threads', 2]
        if search(prior).status != 0:
            report.count('scenarios_without_baseline')
            return report
        if rng.random() < 0.3:
            optimal.dump(c19.thin_out(rng, optimal.load(), networks))
    start_text = open(optimal.DATABASE).read() if os.path.exists(optimal.DATABASE) else None
    start_state = optimal.load()
    full = search(argv)
    context = {'networks': sorted(networks), 'argv': [str(a) for a in argv], 'start': start_text and start_text[:300]}
    if full.timeout:
        report.count('scenarios_without_baseline')
        return report
    if full.status != 0:
        report.violation('undisturbed', 'an undisturbed run failed', dict(context, run=full.describe()))
        return report
    if judge(report, networks, start_state, full, context, rng) is None:
        return report
    want = minima(networks, optimal.load(), u, objective)
    report.count('undisturbed_runs')
    report.count('operations', full.count)
    if not full.count:
        return report

    def reset():
        for name in os.listdir('.'):
            if name.startswith(optimal.DATABASE):
                os.remove(name)
        if start_text is not None:
            with open(optimal.DATABASE, 'w') as f:
                f.write(start_text)

    plan = []
    for k in range(1, full.count + 1):
        for how in MODES:
            plan.append((how, k))
    rng.shuffle(plan)
    if not every:
        plan = plan[:cases]
    plan += [('time ' + rng.choice(('kill', 'interrupt', 'terminate', 'worker')), rng.uniform(0, 0.25)) for _ in range(max(2, cases // 8))]
    rng.shuffle(plan)
    for how, k in plan:
        reset()
        before = start_state
        history = []
        for attempt in range(rng.choice((1, 1, 1, 2, 3))):
            if how.startswith('time'):
                ending = search(argv, kill_after=k, victim=how.split()[1])
            else:
                ending = search(argv, k, MODES[how])
            if ending.timeout:
                report.count('runs_given_up')
                break
            history.append({'how': how, 'at': k, 'end': ending.describe()})
            report.count('ended_' + how.replace(' ', '_'))
            if ending.status != 0:
                report.count('runs_cut_short')
            where = dict(context, history=history, files=sorted(os.listdir('.')))
            report.observe(('crash', tuple(sorted(networks)), tuple(context['argv']), start_text and core.hash_key(start_text), how, k if isinstance(k, int) else round(k, 2), attempt))
            before = judge(report, networks, before, ending, where, rng)
            if before is None:
                return report
            how, k = rng.choice(sorted(MODES)), rng.randint(1, full.count)
        if not history:
            continue
        last = search(argv)
        if last.timeout:
            report.count('runs_given_up')
            continue
        where = dict(context, history=history, last=last.describe())
        if last.status != 0:
            report.violation('continue', 'the search could not be continued after an interruption', where)
            return report
        end = judge(report, networks, before, last, where, rng)
        if end is None:
            return report
        got = minima(networks, end, u, objective)
        report.count('searches_continued_to_the_end')
        if got != want:
            report.violation('result', f'after an interruption the search ended with {got} instead of {want}', where)
            return report
        query = core.run_cli('calculate_optimal', ['query', u, objective])
        if gen.crash(query, report, 'query', where):
            return report
    report.sample({'networks': sorted(networks), 'argv': context['argv'], 'operations': full.kinds[:60], 'cases': len(plan)}, 1)
    return report


def damaged(seed):
    """A database that cannot be read is not taken for an empty one: what is in it may still be of use."""
    rng = random.Random(seed)
    report = core.Report()
    networks, u, objective, threads = scenario(rng)
    c19.set_up(networks)
    argv = ['compute', u, objective, '--threads', threads]
    if search(['compute', 2, objective, '--threads', 2]).status != 0:
        return report
    with open(optimal.DATABASE, 'rb') as f:
        good = f.read()
    for how in ('cut', 'cut', 'cut', 'empty', 'garbage', 'flipped'):
        if how == 'cut':
            bad = good[:rng.randrange(1, len(good))]
        elif how == 'empty':
            bad = b''
        elif how == 'garbage':
            bad = bytes(rng.randrange(256) for _ in range(50))
        else:
            k = rng.randrange(len(good))
            bad = good[:k] + b'}' + good[k:]
        try:
            json.loads(bad)
            continue
        except ValueError:
            pass
        with open(optimal.DATABASE, 'wb') as f:
            f.write(bad)
        ending = search(argv)
        if ending.timeout:
            report.count('runs_given_up')
            continue
        with open(optimal.DATABASE, 'rb') as f:
            after = f.read()
        report.count('damaged_databases')
        report.observe(('damaged', core.hash_key(bad)))
        if after != bad:
            report.violation('overwritten', f'a database that could not be read ({how}) was overwritten',
                             {'argv': argv, 'before': repr(bad[:300]), 'after': repr(after[:300]), 'run': ending.describe()})
            return report
    return report


def elsewhere(seed):
    """The database in another folder, perhaps on another file system."""
    rng = random.Random(seed)
    report = core.Report()
    networks, u, objective, threads = scenario(rng)
    c19.set_up(networks)
    parent = rng.choice(('/dev/shm', os.getcwd()))
    folder = tempfile.mkdtemp(prefix='c20', dir=parent if os.access(parent, os.W_OK) else None)
    try:
        argv = ['--database', os.path.join(folder, rng.choice(('db.json', 'optimal_balancers.json', 'no suffix'))), 'compute', u, objective, '--threads', threads]
        for _ in range(2):
            ending = search(argv)
            if ending.timeout:
                report.count('runs_given_up')
                return report
            report.observe(('elsewhere', tuple(map(str, argv[2:])), tuple(sorted(networks))))
            report.count('runs_with_the_database_elsewhere')
            context = {'argv': [str(a) for a in argv], 'run': ending.describe(), 'files': sorted(os.listdir(folder)), 'here': sorted(os.listdir('.'))}
            if ending.status != 0 or os.path.exists(optimal.DATABASE):
                report.violation('elsewhere', 'a search with the database in another folder failed', context)
                return report
            shutil.copy(argv[1], optimal.DATABASE)
            after = judge(report, networks, {}, ending, context, rng)
            os.remove(optimal.DATABASE)
            if after is None:
                return report
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return report


def main():
    global LIB
    LIB = crash_library()
    check = core.Check('C20', 'fault_enumeration',
                       'one evaluation = one interruption of a search at one file operation (or time), judged and continued to its end; '
                       'distinct = different (networks, request, database before, kind of interruption, point)',
                       ['the process ends, not the machine: what was written before the end is on disk afterwards'])
    core.tool('calculate_optimal')
    rng = check.rng
    deadline = check.budget(24, 500)
    tasks = [core.Task(points, rng.randrange(1 << 30), check.pick(24, 60), not check.quick and k % 3 == 0, timeout=check.pick(40, 300), label='points')
             for k in range(check.pick(60, 600))]
    for k in range(check.pick(4, 40)):
        tasks.insert(3 * k, core.Task(damaged, rng.randrange(1 << 30), timeout=60, label='damaged'))
        tasks.insert(3 * k, core.Task(elsewhere, rng.randrange(1 << 30), timeout=60, label='elsewhere'))
    check.run(tasks, deadline)
    check.finish(100)
