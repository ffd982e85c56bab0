"""C12: a failing external solver never turns into an answer.

Fault injection: the solver program fails at every point of its output (and in many other ways, at the
first or a later call); the library reports an interruption or nonsense. Monitor: what the run printed
and how it ended, and the temporary directory.
"""
import os
import random
import shutil
import tempfile

from checks import c10, c11
from lib import core, gen, native
from lib import layout as L

FATAL = ('silent', 'early', 'comment', 'status', 'nostatus', 'word', 'stray', 'novalues', 'zero')


def fault_seen():
    """The last thing the program says it did: None, 'complete' or 'incomplete'."""
    seen = None
    for line in c11.read_log():
        if line.startswith('FAULT'):
            seen = line.split()[1]
    return seen


def clean():
    for name in ('solver.log', 'calls'):
        if os.path.exists(name):
            os.remove(name)


def faulty_run(report, tool, argv, network, base, backend, fault, call, library):
    clean()
    os.environ['MS_FAULT'] = fault
    os.environ['MS_COUNTER'] = os.path.abspath('calls')
    os.environ['MS_CALL'] = str(call)
    try:
        with open('net', 'w') as f:
            f.write(network or '')
        full = argv + ['--all', '--solver', backend]
        run = core.run_cli(tool, full)
    finally:
        os.environ.pop('MS_FAULT')
    context = {'tool': tool, 'argv': [str(a) for a in argv], 'network': network, 'backend': backend.replace(os.path.dirname(backend.split(':')[1].split()[0]), ''),
               'fault': fault, 'call': call, 'run': run.describe()}
    judge(report, context, run, base, fault, call, fault_seen())
    return run


def judge(report, context, run, base, fault, call, state):
    if state is None:
        report.count('faults_not_reached')
        return
    kind = fault.split(':')[0]
    report.count('fault_' + kind)
    report.observe(('fault', context['tool'], tuple(context['argv']), context['network'], context['backend'], fault, call))
    inner = core.Report()
    layouts = [gen.freeze(r) for r in gen.parse_lines(run, inner, 'x', {})]
    for v in inner.violations:
        report.violation('garbage:' + kind, 'something that is not a layout was printed', context)
        return
    for rows in layouts:
        if rows not in base:
            report.violation('wrong:' + kind, 'a layout was printed that is not a solution', dict(context, layout=L.show(rows)))
            return
    if state == 'incomplete':
        if not run.failed:
            report.violation('silent:' + kind, f'the run ended as if nothing happened, having printed {len(layouts)} of {len(base)} layouts', context)
            return
        if len(layouts) >= call:
            report.violation('answer:' + kind, 'a failed call gave a layout', context)
            return
    elif not run.failed and set(layouts) != base:
        report.violation('lost:' + kind, f'{len(layouts)} of {len(base)} layouts printed although every answer was complete', context)
        return
    left = os.listdir('tmp')
    if left:
        report.violation('temporary:' + kind, f'temporary files left behind: {left}', context)


def small_request(rng):
    kind = rng.randrange(4)
    if kind == 0:
        return 'make_block', rng.choice(([2, 2, '--tile', '--underground-length', 0, '--single-loop'], [4, 2], [1, 3, '--tile', '--underground-length', 1], [2, 2, '--tile', '--underground-length', 0], [3, 3])), None
    if kind == 1:
        return 'interchange', rng.choice(([2, 2], [3, 2], [4, 2, '--alternating'])), None
    if kind == 2:
        return 'belt_balancer_net_free', rng.choice(([3, 2, 1, 2], [3, 2, 2, 1], [4, 2, 2, 2], [3, 1, 1, 1], [4, 2, 1, 1])), None
    nodes = rng.choice((((0, None), (1, 1)), ((0, 0), (1, None)), ((0, 0), (1, 1))))
    return 'belt_balancer', ['net', rng.randrange(3, 5), 2] + rng.choice(([], ['--use-ends'], ['--fast'])), gen.network_text([nodes])


def baseline(rng, report, cap=12):
    tool, argv, network = small_request(rng)
    c11.prepare(rng.randrange(1 << 30))
    base, context, run = c10.call(report, tool, argv, network, cap + 1)
    if base is None or run.end == 'truncated':
        report.count('requests_too_large')
        return None
    return tool, argv, network, set(base)


def points(seed, program, library, number):
    """Death at points of the output of one call, in every way of dying."""
    rng = random.Random(seed)
    report = core.Report()
    request = baseline(rng, report)
    if request is None:
        return report
    tool, argv, network, base = request
    # the status line is at bytes 14..30; the values follow
    backend = 'cmd:' + program + rng.choice(('', ' $FILE'))
    for _ in range(number):
        call = rng.choice((1, 1, 1, 2, rng.randint(1, len(base) + 1)))
        k = rng.choice((rng.randrange(0, 32), rng.randrange(0, 32), rng.randrange(28, 2500), rng.randrange(28, 12000)))
        kind = rng.choice(('truncate', 'truncate', 'kill', 'segv', 'exit0'))
        faulty_run(report, tool, argv, network, base, backend, f'{kind}:{k}', call, library)
        if report.violations:
            return report
    report.sample({'tool': tool, 'argv': [str(a) for a in argv], 'layouts': len(base), 'faults': dict(report.counts)}, 1)
    return report


def every_point(seed, program, library, first, step):
    """Every byte of the output, on one prepared problem (grid.solve)."""
    from checks import c02
    rng = random.Random(seed)
    report = core.Report()
    c11.prepare(seed)
    w, h, pins, expected = rng.choice(((2, 1, (), True), (1, 1, (), True), (1, 2, ((0, 0, ('B', 3, 3)), (0, 1, ('B', 1, 1))), False),
                                       (2, 1, ((0, 0, ('U', 0, True)), (1, 0, ('U', 0, False))), False)))
    config = (w, h, (False, False), (False,) * 4, (False,) * 4, 2)
    grid = c02.build(*config, pins)
    backend = 'cmd:' + program + rng.choice(('', ' $FILE'))
    os.environ.pop('MS_CALL', None)
    for kind in ('truncate', 'kill'):
        k = first
        while k < 4000:
            clean()
            os.environ['MS_FAULT'] = f'{kind}:{k}'
            error = solution = None
            try:
                solution = grid.solve(backend)
            except Exception as e:
                error = repr(e)
            os.environ.pop('MS_FAULT')
            state = fault_seen()
            report.observe(('point', w, h, pins, backend.split('/')[-1], kind, k))
            report.count('bytes_' + kind)
            context = {'config': config, 'pins': pins, 'fault': f'{kind}:{k}', 'error': error, 'solution': solution is not None}
            if state == 'incomplete' and error is None:
                report.violation('silent:' + kind, f'output cut after {k} bytes gave {"a solution" if solution is not None else "no solution"}', context)
                return report
            if state == 'complete' and error is None and (solution is not None) != expected:
                report.violation('wrong:' + kind, 'a complete answer was misread', context)
                return report
            if os.listdir('tmp'):
                report.violation('temporary:' + kind, f'temporary files left behind: {os.listdir("tmp")}', context)
                return report
            if state == 'complete':
                break
            k += step
    return report


def ways(seed, program, library, number):
    """All the other ways to fail."""
    rng = random.Random(seed)
    report = core.Report()
    request = baseline(rng, report)
    if request is None:
        return report
    tool, argv, network, base = request
    for _ in range(number):
        kind = rng.choice(FATAL)
        # a fault in the values needs a call that has some
        last = len(base) + (0 if kind in ('word', 'stray', 'novalues', 'zero') else 1)
        if last < 1:
            continue
        call = rng.choice((1, last, rng.randint(1, last)))
        faulty_run(report, tool, argv, network, base, 'cmd:' + program + rng.choice(('', ' $FILE')), f'{kind}:{rng.randrange(0, 200)}', call, library)
        if report.violations:
            return report
    return report


def no_program(seed, program):
    """Programs that cannot be run at all."""
    rng = random.Random(seed)
    report = core.Report()
    request = baseline(rng, report)
    if request is None:
        return report
    tool, argv, network, base = request
    with open('text', 'w') as f:
        f.write('not a program\n')
    os.chmod('text', 0o755)
    with open('denied', 'w') as f:
        f.write('#!/bin/sh\n')
    os.chmod('denied', 0o644)
    with open('nothing.so', 'w') as f:
        f.write('not a library')
    cases = ['cmd:' + os.path.abspath('missing'), 'cmd:' + os.path.abspath('missing') + ' $FILE', 'cmd:' + os.path.abspath('text'), 'cmd:' + os.path.abspath('text') + ' $FILE',
             'cmd:' + os.path.abspath('denied'), 'cmd:' + os.path.abspath('denied') + ' $FILE', 'cmd:/bin/true', 'cmd:/bin/false', 'cmd:/bin/true $FILE', 'cmd:/bin/false $FILE',
             'cmd:/bin/cat', 'cmd:/bin/cat $FILE', 'cmd:/bin/echo s', 'cmd:/bin/sh -c "kill -9 \\$\\$" $FILE', 'cmd:' + program + ' ' + os.path.abspath('missing'),
             'lib:' + os.path.abspath('missing.so'), 'lib:' + os.path.abspath('nothing.so'), 'lib:libc.so.6', 'nosuchsolver']
    for backend in cases:
        with open('net', 'w') as f:
            f.write(network or '')
        run = core.run_cli(tool, argv + ['--all', '--solver', backend])
        context = {'tool': tool, 'argv': [str(a) for a in argv], 'network': network, 'backend': backend, 'run': run.describe()}
        report.observe(('none', tool, tuple(map(str, argv)), backend.split('/')[-1]))
        report.count('unusable_solvers')
        if not run.failed or run.out:
            report.violation('silent:unusable', 'the run ended as if nothing happened', context)
            return report
        if os.listdir('tmp'):
            report.violation('temporary:unusable', f'temporary files left behind: {os.listdir("tmp")}', context)
            return report
    return report


def one_library_run(tool, argv, network, base, library, variable, call):
    report = core.Report()
    c11.prepare(call)
    os.environ[variable] = str(call)
    with open('net', 'w') as f:
        f.write(network or '')
    run = core.run_cli(tool, argv + ['--all', '--solver', 'lib:' + library])
    context = {'tool': tool, 'argv': [str(a) for a in argv], 'network': network, 'backend': 'lib', 'fault': variable, 'call': call, 'run': run.describe()}
    c11.judge_logs(report, library, context, True)
    if not report.violations:
        solves = c11.statistics(library)['solves']
        judge(report, context, run, base, variable, call, 'incomplete' if solves >= call else None)
    return report


def library_faults(seed, library, number):
    rng = random.Random(seed)
    report = core.Report()
    request = baseline(rng, report)
    if request is None:
        return report
    tool, argv, network, base = request
    for _ in range(number):
        call = rng.choice((1, len(base) + 1, rng.randint(1, len(base) + 1)))
        task = core.Task(one_library_run, tool, argv, network, base, library, rng.choice(('MS_INTERRUPT', 'MS_STRANGE')), call, timeout=30)
        for outcome in core.run_tasks([task], workers=1):
            if outcome.kind == 'exception':
                raise RuntimeError(outcome.value)
            if outcome.kind != 'ok':
                continue
            for name, n in outcome.value.counts.items():
                report.count(name, n)
            report.evaluations += outcome.value.evaluations
            report.keys |= outcome.value.keys
            for v in outcome.value.violations:
                report.violation(*v)
        if report.violations:
            break
    return report


def main():
    check = core.Check('C12', 'fault_enumeration',
                       'one evaluation = one run with one injected solver failure; distinct = different (request, way of running the '
                       'solver, failure, call)',
                       ['a solver that answers completely but wrongly is outside the property'])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'interchange', 'make_block', 'ipasir'):
        core.tool(name)
    rng = check.rng
    folder = tempfile.mkdtemp(prefix='verif-native-')
    try:
        program, library = native.build(folder)
        deadline = check.budget(26, 500)
        tasks = []
        seeds = [rng.randrange(1 << 30) for _ in range(check.pick(2, 8))]
        for seed in seeds:
            for first in range(8):
                tasks.append(core.Task(every_point, seed, program, library, first, 8, timeout=100, label='every_point'))
        for k in range(check.pick(60, 1200)):
            tasks.append(core.Task(ways, rng.randrange(1 << 30), program, library, 14, timeout=60, label='ways'))
            tasks.append(core.Task(points, rng.randrange(1 << 30), program, library, 14, timeout=60, label='points'))
            if k % 3 == 0:
                tasks.append(core.Task(no_program, rng.randrange(1 << 30), program, timeout=60, label='no_program'))
                tasks.append(core.Task(library_faults, rng.randrange(1 << 30), library, 5, timeout=60, label='library'))
        check.run(tasks, deadline)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    check.finish(300)
