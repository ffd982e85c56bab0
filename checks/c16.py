"""C16: rotating and mirroring a layout moves it as a whole.

Random layouts, streams and sequences of operations go through `rotate`; the oracle moves coordinates and
directions on its own (lib/layout.py). For legal layouts the monitors also judge the result by the belt
rules and trace its wiring.
"""
import json
import random

from lib import core, gen, scenes
from lib import layout as L

ORACLE = {'no_op': lambda rows: rows, 'rot_90': L.rot90, 'rot_180': L.rot180, 'rot_270': L.rot270, 'flip_x': L.flip_x, 'flip_y': L.flip_y}
# operation as (mirror, quarter turns): apply the mirror (left-right) first, then turn
GROUP = {'no_op': (0, 0), 'rot_90': (0, 1), 'rot_180': (0, 2), 'rot_270': (0, 3), 'flip_x': (1, 0), 'flip_y': (1, 2)}


def compose(first, second):
    (m1, r1), (m2, r2) = first, second
    return (m1 ^ m2, ((-r1 if m2 else r1) + r2) % 4)


def rotate(report, batch, operation, context):
    argv = [] if operation is None else [operation]
    run = core.run_cli('rotate', argv, ''.join(json.dumps(L.write_layout(r)) + '\n' for r in batch))
    context = dict(context, operation=operation, run=run.describe())
    if gen.crash(run, report, 'rotate', context):
        return None
    got = gen.parse_lines(run, report, 'rotate', context)
    if report.violations:
        return None
    if len(got) != len(batch):
        report.violation('count', f'{len(got)} layouts for {len(batch)}', context)
        return None
    return got


def shape(rows, limit=99):
    """What a move must keep: legality, and the wiring up to which side is which."""
    if L.check_rules(rows, limit):
        return None
    circuit = L.trace(rows)
    return sorted(map(repr, [len(circuit.ins), len(circuit.sources), len(circuit.sinks)]))


def work(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        batch = [scenes.scene(rng, machines=True, huge=0.02) for _ in range(rng.choice((1, 1, 2, 5)))]
        batch = [rows for rows, _ in batch]
        operations = [rng.choice((None,) + tuple(ORACLE)) for _ in range(rng.choice((1, 2, 3, 4)))]
        current = batch
        total = (0, 0)
        context = {'layouts': [L.show(r) for r in batch], 'operations': operations}
        for operation in operations:
            before = current
            current = rotate(report, current, operation, context)
            if current is None:
                return report
            name = operation or 'rot_90'
            total = compose(total, GROUP[name])
            report.count(name)
            for a, b in zip(before, current):
                if gen.freeze(ORACLE[name](a)) != gen.freeze(b):
                    report.violation('moved:' + name, 'the layout did not move as a whole',
                                     dict(context, before=L.show(a), after=L.show(b), want=L.show(ORACLE[name](a))))
                    return report
                if not scenes.whole_splitters(b):
                    report.violation('splitters:' + name, 'a splitter came apart', dict(context, before=L.show(a), after=L.show(b)))
                    return report
        for rows, end in zip(batch, current):
            report.observe((gen.freeze(rows), tuple(operations)) if any(t[0] != 'E' for row in rows for t in row) else None)
            # the sequence as a whole, from its composition in the group of moves
            want = L.flip_x(rows) if total[0] else rows
            for _ in range(total[1]):
                want = L.rot90(want)
            if gen.freeze(want) != gen.freeze(end):
                report.violation('composition', 'the sequence of moves is not the composed move', dict(context, got=L.show(end), want=L.show(want)))
                return report
            if shape(rows) is not None:
                report.count('legal_layouts_moved')
            if shape(rows) != shape(end):
                report.violation('legality', 'the moved layout is not as legal, or not the same network', dict(context, before=L.show(rows), after=L.show(end)))
                return report
    report.sample({'layout': L.show(batch[0]), 'operations': operations}, 1)
    return report


def every_tile():
    report = core.Report()
    tiles = [L.EMPTY, ('F',)]
    for d in range(4):
        tiles += [('B', i, d) for i in range(4) if i != L.opp(d)]
        tiles += [(k, d, f) for f in (True, False) for k in 'US']
        tiles += [('I', d, k) for k in (0, 1)]
    tiles += [('A', i, j) for i in range(3) for j in range(3)]
    batch = [[[t, L.EMPTY]] for t in tiles] + [[[t], [L.EMPTY], [L.EMPTY]] for t in tiles]
    for name, oracle in ORACLE.items():
        got = rotate(report, batch, name, {'layouts': 'every tile'})
        if got is None:
            return report
        for a, b in zip(batch, got):
            report.observe(('tile', name, gen.freeze(a)))
            if gen.freeze(oracle(a)) != gen.freeze(b):
                report.violation('tile:' + name, 'a tile is not moved rightly', {'before': L.show(a), 'after': L.show(b), 'want': L.show(oracle(a))})
                return report
    return report


def main():
    check = core.Check('C16', 'exploration',
                       'one evaluation = one layout taken through one sequence of moves; non-trivial = not empty; distinct = different '
                       '(layout, sequence)', [])
    core.tool('rotate')
    rng = check.rng
    deadline = check.budget(12, 180)
    tasks = [core.Task(every_tile, timeout=20, label='every tile')]
    tasks += [core.Task(work, rng.randrange(1 << 30), check.pick(60, 400), timeout=check.pick(15, 120), label='moves')
              for _ in range(check.pick(40, 2000))]
    check.run(tasks, deadline)
    check.finish(300)
