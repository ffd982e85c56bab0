"""C11: all solver backends give the same set of layouts.

Monitor: the same request through every backend; the external program validates the problem text it is
given, the IPASIR library records every breach of protocol and every solver that is not released.
"""
import ctypes
import gc
import itertools
import json
import os
import random
import shutil
import tempfile

from checks import c02, c10
from lib import core, gen, legal, native
from lib import layout as L

NAMES = ('Glucose3', 'g4', 'glucose42', 'm22', 'mgh', 'cd', 'cadical153', 'cadical195', 'lgl', 'mcb', 'mcm', 'mpl', 'mg3', 'mc', 'maplesat')


LAST = {}     # of this process


def statistics(library):
    out = (ctypes.c_long * 6)()
    ctypes.CDLL(library).minisolver_statistics(out)
    return dict(zip(('created', 'released', 'solves', 'adds', 'values', 'alive'), out))


def read_log():
    try:
        with open('solver.log') as f:
            return f.read().splitlines()
    except FileNotFoundError:
        return []


def judge_logs(report, library, context, uses_library):
    gc.collect()
    for line in read_log():
        if line.startswith('BREACH'):
            report.violation('protocol', 'the library was used against its protocol: ' + line, context)
            return False
        if line.startswith('MALFORMED'):
            report.violation('malformed', 'the problem given to the program is not well formed: ' + line, context)
            return False
        if line.startswith('INTERNAL'):
            raise RuntimeError(line)
        if line.startswith('PROBLEM'):
            report.count('problems_parsed')
    if uses_library:
        seen = statistics(library)
        for name in ('solves', 'adds', 'values'):
            report.count('library_' + name, seen[name] - LAST.get(name, 0))
        LAST.update(seen)
        if seen['alive']:
            report.violation('leak', f'{seen["alive"]} of {seen["created"]} solvers were never released', context)
            return False
    left = os.listdir('tmp')
    if left:
        report.violation('temporary', f'temporary files left behind: {left}', context)
        return False
    return True


def prepare(seed):
    os.makedirs('tmp', exist_ok=True)
    tempfile.tempdir = None
    os.environ['TMPDIR'] = os.path.abspath('tmp')
    os.environ['MS_LOG'] = os.path.abspath('solver.log')
    os.environ['MS_SEED'] = str(seed)


def backends(rng, program, library):
    rest = list(NAMES[1:])
    rng.shuffle(rest)
    return [(name, {}) for name in rest[:3]] + [
        ('cmd:' + program, {}), ('cmd:' + program + ' $FILE', {}), ('lib:' + library, {}), ('lib:' + library, {'MS_PARTIAL': '1'})]


def one_backend(tool, argv, network, lines, backend, environment, library, seed, partial=None):
    """Runs in its own process, so that each library run starts afresh."""
    report = core.Report()
    prepare(seed)
    os.environ.update(environment)
    got, context, run = c10.call(report, tool, argv + ['--solver', backend], network, lines, partial)
    context['backend'] = backend.split('/')[0] + ' ' + ' '.join(environment)
    if got is not None:
        run = None
        judge_logs(report, library, context, backend.startswith('lib:'))
    return got, context, report


def compare(seed, cap, program, library):
    rng = random.Random(seed)
    report = core.Report()
    request = rng.choice(('layouts', 'layouts', 'blocks'))
    if request == 'blocks':
        tool, network = 'make_block', None
        w, h = rng.choice(((2, 2), (2, 3), (3, 2), (4, 4), (3, 4), (1, 4)))
        argv = [w, h, '--underground-length', rng.choice((0, 1, 2, 4))] + rng.choice(([], ['--tile'], ['--single-loop'], ['--no-parallel', '--tile'],
                                                                                    ['--tile', '--single-loop']))
    else:
        tool, argv, network, _ = c10.choose(rng)
    prepare(seed)
    base, context, run = c10.call(report, tool, argv + ['--solver', 'Glucose3'], network, cap, free=True)
    if base is None or run.end == 'truncated':
        report.count('requests_too_large')
        return report
    report.count('requests')
    report.count('tool_' + tool)
    jobs = backends(rng, program, library)
    for number, (backend, environment) in enumerate(jobs):
        lines = None
        if rng.random() < 0.15 and base:
            lines = rng.randint(1, len(base))       # the reader goes away
        task = core.Task(one_backend, tool, argv, network, lines, backend, environment, library, seed + number, timeout=25)
        for outcome in core.run_tasks([task], workers=1):
            if outcome.kind == 'timeout':
                report.count('backend_timeouts')
                continue
            if outcome.kind != 'ok':
                raise RuntimeError(str(outcome.value))
            got, context, inner = outcome.value
            kind = backend.split(':')[0] if ':' in backend else backend
            report.count('backend_' + kind + ''.join(environment))
            for name, n in inner.counts.items():
                report.count(name, n)
            for v in inner.violations:
                report.violation(*v)
            if inner.violations or got is None:
                return report
            report.observe((tool, tuple(map(str, argv)), network, backend.split('/')[0], '$FILE' in backend, tuple(environment))
                           if base else None)
            wrong = set(got) - set(base)
            if wrong:
                report.violation('extra:' + kind, 'a layout is printed that the default solver does not give',
                                 dict(context, layout=L.show(min(wrong))))
                return report
            if '--custom' not in argv and len(set(got)) != len(got):
                report.violation('twice:' + kind, 'a layout is printed twice', context)
                return report
            if lines is None and set(got) != set(base):
                report.violation('lost:' + kind, f'{len(set(base) - set(got))} of {len(set(base))} layouts are not printed',
                                 dict(context, layout=L.show(min(set(base) - set(got)))))
                return report
    report.sample({'tool': tool, 'argv': [str(a) for a in argv], 'layouts': len(base), 'backends': [b.split('/')[0] for b, _ in jobs]}, 1)
    return report


def large(seed, program, library):
    """A large board, given nearly completely, through the external backends."""
    rng = random.Random(seed)
    report = core.Report()
    prepare(seed)
    request = c10.stretched_request(rng, report, (8, 26), (5, 18))
    if request is None or c10.idle(request[2]):
        return report
    network, options, rows = request
    w, h = L.size(rows)
    pins = [[t if t != L.EMPTY else ('F',) for t in row] for row in rows]
    wrong = rng.random() < 0.3
    if wrong:
        y, x = rng.choice([(y, x) for y in range(h) for x in range(w) if rows[y][x][0] in 'BS'])
        pins[y][x] = ('F',)
    partial = json.dumps(L.write_layout(pins))
    argv = ['net', w, h, '--underground-length', -1] + options
    base, context, run = c10.call(report, 'belt_balancer', argv + ['--solver', 'Glucose3'], network, 3, partial)
    if base is None:
        return report
    report.count('large_boards')
    for number, (backend, environment) in enumerate((('cmd:' + program, {}), ('cmd:' + program + ' $FILE', {}), ('lib:' + library, {}))):
        for outcome in core.run_tasks([core.Task(one_backend, 'belt_balancer', argv, network, 3, backend, environment, library, seed + number,
                                                 partial, timeout=40)], workers=1):
            if outcome.kind == 'timeout':
                report.count('backend_timeouts')
                continue
            if outcome.kind != 'ok':
                raise RuntimeError(str(outcome.value))
            got, context, inner = outcome.value
            for v in inner.violations:
                report.violation(*v)
            if inner.violations or got is None:
                return report
            kind = backend.split(':')[0]
            report.observe(('large', network, gen.freeze(pins), backend.split('/')[0], '$FILE' in backend))
            report.count('large_' + kind)
            if set(got) != set(base):
                report.violation('large:' + kind, f'{len(got)} layouts are printed, {len(base)} with the default solver', dict(context, layout=L.show(pins)))
                return report
    return report


def fixed(seed, rounds, program, library):
    """grid.check() / grid.solve() on fixed boards, through every kind of backend."""
    rng = random.Random(seed)
    report = core.Report()
    prepare(seed)
    for _ in range(rounds):
        wrap, belts, under, limit = c02.random_config(rng)
        w, h = rng.randrange(1, 5), rng.randrange(1, 5)
        rules = legal.Rules(w, h, wrap, limit=limit, block_belts=belts, block_under=under)
        pins = [(x, y, rng.choice(c02.TILES)) for x in range(w) for y in range(h) if rng.random() < 0.3]
        allowed = {(x, y): sum(1 << i for i in legal.states_of_tile(t)) for x, y, t in pins}
        expected = None
        for _grid in rules.solutions(allowed, max_nodes=20000):
            expected = True
            break
        else:
            if rules.exhausted:
                expected = False
        if expected is None:
            continue
        for backend in ('g3', rng.choice(NAMES), 'cmd:' + program, 'cmd:' + program + ' $FILE', 'lib:' + library):
            grid = c02.build(w, h, wrap, belts, under, limit, pins)
            before = len(grid.clauses)
            solution = grid.solve(backend)
            report.observe(('fixed', w, h, wrap, belts, under, limit, tuple(pins), backend.split('/')[0]))
            report.count('fixed_sat' if expected else 'fixed_unsat')
            context = {'config': (w, h, wrap, belts, under, limit), 'pins': pins, 'backend': backend.split('/')[0]}
            if (solution is not None) != expected or bool(grid.check(backend)) != expected:
                report.violation('answer', f'{"no" if expected else "a"} solution, the default rules say otherwise', context)
                return report
            if len(grid.clauses) != before:
                report.violation('problem', 'solving changed the problem', context)
                return report
            if solution is not None:
                rows = L.read_layout(solution.tolist())
                if any(rows[y][x] != t for x, y, t in pins):
                    report.violation('solution', 'the solution does not hold the pinned tiles', dict(context, layout=L.show(rows)))
                    return report
        if not judge_logs(report, library, {'config': (w, h, wrap, belts, under, limit)}, True):
            return report
    return report


def every(seed, rounds, program, library):
    """All layouts of a small board, some of which only add to others, through every kind of backend."""
    rng = random.Random(seed)
    report = core.Report()
    prepare(seed)
    for _ in range(rounds):
        wrap, belts, under, limit = c02.random_config(rng)
        w, h = rng.randrange(1, 5), rng.randrange(1, 4)
        rules = legal.Rules(w, h, wrap, limit=limit, block_belts=belts, block_under=under)
        kinds = rng.choice((c02.TILES, [t for t in c02.TILES if t[0] != 'S']))
        free = set(rng.sample([(x, y) for x in range(w) for y in range(h)], min(w * h, rng.randrange(1, 5))))
        pins = [(x, y, rng.choice(kinds) if rng.random() < 0.3 else L.EMPTY) for x in range(w) for y in range(h) if (x, y) not in free]
        allowed = {(x, y): sum(1 << i for i in legal.states_of_tile(t)) for x, y, t in pins}
        expected = set()
        for grid in rules.solutions(allowed, max_nodes=20000):
            expected.add(rules.signature(grid))
            if len(expected) > 60:
                break
        if len(expected) > 60 or not expected or not rules.exhausted:
            continue
        report.count('boards')
        report.count('boards_of_several', len(expected) > 1)
        for backend in (rng.choice(NAMES), 'cmd:' + program, 'cmd:' + program + ' $FILE', 'lib:' + library):
            kind = backend.split(':')[0] if ':' in backend else backend
            context = {'config': (w, h, wrap, belts, under, limit), 'pins': pins, 'backend': backend.split('/')[0]}
            got = []
            for solution in c02.build(w, h, wrap, belts, under, limit, pins).itersolve(solver=backend):
                got.append(c02.cell_signature(solution.tolist()))
                if len(got) > len(expected):
                    break
            solution = None
            report.observe(('every', w, h, wrap, belts, under, limit, tuple(pins), backend.split('/')[0]))
            report.count('layouts_enumerated', len(got))
            if set(got) != expected or len(got) != len(expected):
                report.violation('every:' + kind, f'{len(set(got) & expected)} of {len(expected)} layouts, {len(set(got) - expected)} others, '
                                                  f'{len(got) - len(set(got))} twice', context)
                return report
        if not judge_logs(report, library, {'config': (w, h, wrap, belts, under, limit)}, True):
            return report
    return report


def interface(seed, rounds, library):
    """The IPASIR wrapper on random formulas, against brute force."""
    rng = random.Random(seed)
    report = core.Report()
    prepare(seed)
    ipasir = core.tool('ipasir')
    lib = ipasir.IPASIRLibrary(library)
    if lib.get_signature() != b'minisolver':
        report.violation('signature', f'signature is {lib.get_signature()!r}', {})
    for _ in range(rounds):
        n = rng.randrange(1, 9)
        def clause():
            return [v if rng.random() < 0.5 else -v for v in rng.sample(range(1, n + 1), rng.randint(1, min(3, n)))]
        if rng.random() < 0.3:
            os.environ['MS_PARTIAL'] = '1'
        else:
            os.environ.pop('MS_PARTIAL', None)
        clauses = []
        solver = lib.create_solver()
        learned = []
        stop = rng.random() < 0.2
        if rng.random() < 0.5:
            solver.set_learn(learned.append, 5)
            if rng.random() < 0.3:
                solver.set_learn(None)
        calls = []
        if stop:
            solver.set_terminate(lambda: calls.append(1) or True)
        elif rng.random() < 0.4:
            solver.set_terminate(lambda: False)
        context = {'clauses': clauses, 'n': n}
        manager = rng.random() < 0.5
        if manager:
            solver.__enter__()
        for _step in range(rng.randint(1, 4)):
            new = [clause() for _ in range(rng.randrange(0, 3 * n))]
            if rng.random() < 0.5:
                solver.add_clauses(new)
            else:
                for c in new:
                    solver.add_clause(c)
            clauses += new
            assumptions = [v if rng.random() < 0.5 else -v for v in rng.sample(range(1, n + 1), rng.randint(0, n))] if rng.random() < 0.6 else []
            for l in assumptions:
                solver.assume(l)
            answer = solver.solve()
            models = [m for m in itertools.product((False, True), repeat=n)
                      if all(any(m[abs(l) - 1] == (l > 0) for l in c) for c in clauses)]
            fitting = [m for m in models if all(m[abs(l) - 1] == (l > 0) for l in assumptions)]
            report.observe(('formula', n, tuple(map(tuple, clauses)), tuple(assumptions)))
            context = {'clauses': clauses, 'n': n, 'assumptions': assumptions, 'answer': answer}
            if answer is None:
                report.count('answers_interrupted')
                if not calls:
                    report.violation('interrupted', 'reported as interrupted although nobody asked for it', context)
                    return report
                continue
            if answer is not True and answer is not False or answer != bool(fitting):
                report.violation('answer', f'{answer!r}, but there are {len(fitting)} models', context)
                return report
            if answer:
                report.count('answers_sat')
                model = solver.get_model()
                used = {abs(l) for c in clauses for l in c}
                if not used <= {abs(l) for l in model} or len({abs(l) for l in model}) != len(model):
                    report.violation('model', f'the model {model} does not give every variable one value', context)
                    return report
                values = {abs(l): l > 0 for l in model}
                if not all(any(values[abs(l)] == (l > 0) for l in c) for c in clauses) or \
                        any(abs(l) in values and values[abs(l)] != (l > 0) for l in assumptions if 'MS_PARTIAL' not in os.environ):
                    report.violation('model', f'{model} is not a model', context)
                    return report
            else:
                report.count('answers_unsat')
                core_ = [l for l in assumptions if solver.unsat_used_assumption(l)]
                if any(all(m[abs(l) - 1] == (l > 0) for l in core_) for m in models):
                    report.violation('core', f'the assumptions {core_} alone are satisfiable', context)
                    return report
        for c in learned:
            report.count('learned_clauses')
            if not all(any(m[abs(l) - 1] == (l > 0) for l in c) for m in
                       [m for m in itertools.product((False, True), repeat=n)
                        if all(any(m[abs(l) - 1] == (l > 0) for l in d) for d in clauses)]):
                report.violation('learned', f'{c} does not follow', context)
                return report
        if manager:
            solver.__exit__(None, None, None)
            for name, call in (('solve', solver.solve), ('add', lambda: solver.add_clause([1])), ('model', solver.get_model),
                               ('assume', lambda: solver.assume(1)), ('adds', lambda: solver.add_clauses([[1]])),
                               ('failed', lambda: solver.unsat_used_assumption(1)), ('enter', solver.__enter__)):
                try:
                    call()
                except RuntimeError:
                    report.count('closed_uses_refused')
                else:
                    report.violation('closed', f'{name} works on a closed solver', context)
                    return report
        del solver
        if not judge_logs(report, library, context, True):
            return report
    return report


def main():
    check = core.Check('C11', 'exploration',
                       'one evaluation = one request through one backend compared with the default solver, one fixed board decided '
                       'through one backend, or one call sequence of the library wrapper on a random formula; distinct = different '
                       '(request, backend) pairs and formulas',
                       ['the solvers themselves answer correctly; external ones are represented by a small solver of the harness'])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block', 'ipasir'):
        core.tool(name)
    rng = check.rng
    folder = tempfile.mkdtemp(prefix='verif-native-')
    try:
        program, library = native.build(folder)
        deadline = check.budget(28, 500)
        tasks = []
        for k in range(check.pick(150, 3000)):
            tasks.append(core.Task(compare, rng.randrange(1 << 30), check.pick(25, 120), program, library, timeout=check.pick(60, 200), label='compare'))
            if k % 5 == 1:
                tasks.append(core.Task(large, rng.randrange(1 << 30), program, library, timeout=check.pick(60, 150), label='large'))
            if k % 4 == 0:
                tasks.append(core.Task(fixed, rng.randrange(1 << 30), 6, program, library, timeout=60, label='fixed'))
                tasks.append(core.Task(every, rng.randrange(1 << 30), 6, program, library, timeout=60, label='every'))
                tasks.append(core.Task(interface, rng.randrange(1 << 30), 60, library, timeout=60, label='interface'))
        check.run(tasks, deadline)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    check.finish(200)
