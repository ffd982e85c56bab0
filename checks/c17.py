"""C17: parsing a layout recovers the network it realises.

Workload: random legal layouts, layouts printed by the generators, stored big layouts, long winding belts,
all of them turned and mirrored. Oracle: an independent tracer of wires (lib/layout.py) and graph isomorphism
between the traced circuit and the network that `network parse` writes.
"""
import json
import os
import random

from lib import core, gen, graphs, samples
from lib import layout as L

MOVES = (lambda r: r, L.rot90, L.rot180, L.rot270, L.flip_x, L.flip_y, lambda r: L.flip_x(L.rot90(r)), lambda r: L.flip_y(L.rot90(r)))


def fillers(rng, rows):
    return [[('F',) if t == L.EMPTY and rng.random() < 0.3 else t for t in row] for row in rows]


def judge(report, rows, assume, origin):
    path = 'parsed'
    if os.path.exists(path):
        os.remove(path)
    argv = ['parse', path] + (['--assume-valid-output'] if assume else [])
    run = core.run_cli('network', argv, json.dumps(L.write_layout(rows)) + '\n')
    context = {'argv': argv, 'layout': L.show(rows), 'origin': origin, 'run': run.describe()}
    if gen.crash(run, report, 'parse', context):
        return
    with open(path) as f:
        text = f.read()
    context['network'] = text
    try:
        nodes = L.read_network(text)
    except ValueError as e:
        report.violation('file', f'not a network file: {e}', context)
        return
    # which splitter halves at the edge count as connected
    outside = (lambda x, y, d, out: True) if assume else None
    circuit = L.trace(rows, edge_splitters=outside)
    want = graphs.of_circuit(circuit)
    try:
        got = graphs.of_network(nodes)
    except graphs.Ambiguous as e:
        report.violation('ambiguous', f'the parsed network does not determine the wiring: {e}', context)
        return
    same = graphs.isomorphic(want, got)
    report.count('layouts_' + origin)
    report.count('splitters', want[0])
    report.count('wires', sum(want[1].values()))
    report.observe(('layout', gen.freeze(rows), assume) if want[0] else None)
    if same is None:
        report.count('isomorphism_given_up')
    elif not same:
        report.violation('network', f'the parsed network is not the one of the layout ({got[0]} splitters for {want[0]})',
                         dict(context, want=sorted(map(repr, want[1].items()))))


def random_layouts(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        w, h = rng.randint(1, 9), rng.randint(1, 9)
        rows = gen.random_legal(rng, w, h, limit=rng.randint(0, 8), max_nodes=6000, empty_bias=rng.choice((0, 0, 0, 0.15, 0.4)),
                                block=tuple(rng.random() < 0.25 for _ in range(4)), block_under=(True,) * 4)
        if rows is None:
            continue
        rows = rng.choice(MOVES)(rows)
        if rng.random() < 0.3:
            rows = fillers(rng, rows)
        judge(report, rows, rng.random() < 0.4, 'random')
        if report.violations:
            return report
    return report


def generated(seed, number):
    """What the balancer generator prints, and its images."""
    rng = random.Random(seed)
    report = core.Report()
    core.diversify_solver(seed)
    for _ in range(number):
        if rng.random() < 0.5:
            nodes = gen.random_network(rng, 3)
        else:
            nodes = rng.choice([n for n in gen.shipped_networks(4).values()])
        with open('net', 'w') as f:
            f.write(gen.network_text(nodes))
        argv = ['net', rng.randint(3, 7), rng.randint(1, 5), '--all'] + rng.choice(([], ['--use-ends'], ['--fast'], ['--180'])) + \
               rng.choice(([], ['--underground-length', rng.randint(1, 6)]))
        run = core.run_cli('belt_balancer', argv, max_lines=3)
        if run.failed:
            report.count('requests_refused')
            continue
        for rows in gen.parse_lines(run, core.Report(), 'x', {}):
            if L.check_rules(rows, 99):
                continue            # C01's business
            for move in rng.sample(MOVES, 3):
                judge(report, move(rows), False, 'generated')
                if report.violations:
                    return report
    return report


def stored(seed):
    rng = random.Random(seed)
    report = core.Report()
    for key, text in samples.POWER_OF_2.items():
        rows = L.unshow(text)
        for move in MOVES:
            judge(report, move(rows), rng.random() < 0.5, 'stored')
            if report.violations:
                return report
    return report


def winding(seed, number):
    """Long belts and undergrounds winding between splitters."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        rows = snake(rng, rng.randint(8, 70), rng.randint(4, 70), rng.choice((0, 0.003, 0.04)))
        if L.check_rules(rows, 99):
            report.count('winding_not_legal')
            continue
        judge(report, rng.choice(MOVES)(rows), False, 'winding')
        if report.violations:
            return report
    return report


def snake(rng, w, h, splitters):
    """One belt through all rows of the board, with splitters and undergrounds let into its straight parts."""
    rows = [[L.EMPTY] * w for _ in range(h)]
    for y in range(0, h, 2):
        d = 0 if y // 2 % 2 == 0 else 2
        xs = list(range(w)) if d == 0 else list(range(w - 1, -1, -1))
        for k, x in enumerate(xs):
            rows[y][x] = ('B', d, d)
        if y:
            x = xs[0]
            rows[y - 1][x] = ('B', 3, 3)
            rows[y][x] = ('B', 3, d)
        if y + 2 < h:
            rows[y][xs[-1]] = ('B', d, 3)
    for y in range(0, h, 2):
        d = 0 if y // 2 % 2 == 0 else 2
        xs = list(range(2, w - 2)) if d == 0 else list(range(w - 3, 1, -1))
        k = 0
        while k < len(xs) - 8:
            kind = rng.random()
            if kind < 0.08:
                span = rng.randint(1, 6)
                rows[y][xs[k]] = ('U', d, True)
                for j in range(k + 1, k + span + 1):
                    rows[y][xs[j]] = L.EMPTY
                rows[y][xs[k + span + 1]] = ('U', d, False)
                k += span + 2
            elif kind < 0.08 + splitters and y + 1 < h:
                # a splitter spreading into the free row below and merging again
                x, side = xs[k], L.VEC[L.left_of(d)][1]
                if 0 <= y + side < h and all(rows[y + side][xs[j]] == L.EMPTY for j in range(k, k + 4)):
                    for j, kind_ in ((k, 'S'), (k + 1, 'B'), (k + 2, 'B'), (k + 3, 'S')):
                        rows[y][xs[j]] = ('S', d, True) if kind_ == 'S' else ('B', d, d)
                        rows[y + side][xs[j]] = ('S', d, False) if kind_ == 'S' else ('B', d, d)
                    k += 5
            k += 1
    return rows


def main():
    check = core.Check('C17', 'exploration',
                       'one evaluation = one layout parsed; non-trivial = it has a splitter; distinct = different (layout, option)', [])
    core.tool('network')
    core.tool('belt_balancer')
    rng = check.rng
    deadline = check.budget(20, 300)
    tasks = [core.Task(stored, rng.randrange(1 << 30), timeout=20, label='stored')]
    for _ in range(check.pick(90, 1500)):
        tasks += [core.Task(random_layouts, rng.randrange(1 << 30), check.pick(80, 400), timeout=check.pick(20, 120), label='random'),
                  core.Task(winding, rng.randrange(1 << 30), check.pick(10, 40), timeout=check.pick(20, 120), label='winding'),
                  core.Task(generated, rng.randrange(1 << 30), check.pick(8, 20), timeout=check.pick(15, 100), label='generated')]
    check.run(tasks, deadline)
    check.finish(300)
