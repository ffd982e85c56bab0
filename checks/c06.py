"""C06: power-of-two balancers really balance.

Monitor: the implied first and last columns of splitters are added to every printed layout, it is
traced, and its linear flow system solved exactly.
"""
import json
import random

from checks.c05 import balance_faults, flows, unfiltered
from lib import core, gen, samples
from lib import layout as L

TOOL = 'belt_balancer_net_free_power_of_2'


def complete(rows):
    """The layout with the splitters the tool leaves out (and a column of belts around them)."""
    belt = ('B', 0, 0)
    out = []
    for y, row in enumerate(rows):
        half = ('S', 0, y % 2 == 1)     # the head has its other half above it
        out.append([belt, half] + list(row) + [half, belt])
    return out


def judge(report, rows, w, n, limit, context):
    context = dict(context, layout=L.show(rows))
    report.observe(('balancer', gen.freeze(rows)))
    report.count('layouts')
    report.count(f'size_{n}')
    if L.size(rows) != (w, n):
        report.violation('size', f'layout is {L.size(rows)}, asked for {(w, n)}', context)
        return
    whole = complete(rows)
    faults = L.check_rules(whole, limit)
    if faults:
        report.violation('rules', f'not a valid layout with its outer splitters: {faults[0]}', context)
        return
    circuit = L.trace(whole)
    report.count('splitters', len(circuit.splitters))
    ends = (list(circuit.sources.values()), list(circuit.sinks.values()))
    if sorted(ends[0]) != [(0, y, 0) for y in range(n)] or sorted(ends[1]) != [(w + 3, y, 0) for y in range(n)]:
        report.violation('ends', f'not {n} belts in and {n} belts out: {ends}', context)
        return
    faults = balance_faults(circuit, n, n, True)
    if faults:
        report.violation('balance', faults[0], context)


def run(report, w, n, value, lines, partial=None, lenient=False):
    argv = [w, n, '--underground-length', value, '--all']
    if partial is not None:
        with open('partial', 'w') as f:
            json.dump(L.write_layout(partial), f)
        argv += ['--partial', 'partial']
    result = core.run_cli(TOOL, argv, max_lines=lines)
    report.count('runs')
    report.count('runs_' + result.end)
    context = {'argv': [str(a) for a in argv], 'partial': partial and L.show(partial)}
    if lenient and result.failed:
        return []
    if gen.crash(result, report, 'power_of_2', context):
        return []
    layouts = gen.parse_lines(result, report, 'power_of_2', context)
    for rows in layouts:
        judge(report, rows, w, n, None if value == -1 else value, context)
    if layouts:
        report.sample({'argv': context['argv'], 'layout': L.show(layouts[0])}, 1)
    return layouts


def generate(w, n, value, lines, seed):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    layouts = run(report, w, n, value, lines)
    for _ in range(3 if layouts else 0):
        rework(report, rng, rng.choice(layouts), value, 20)
    return report


def rework(report, rng, rows, value, lines):
    """A printed layout with a hole torn into it: everything the tool accepts there must balance as well."""
    w, n = L.size(rows)
    if rng.random() < 0.3:
        rows = L.flip_y(rows)
    kind = rng.random()
    if kind < 0.5:
        ww, hh = rng.choice(((2, n), (3, n), (3, 4), (4, 4), (5, 3), (4, 6), (6, 2)))
        x0, y0 = rng.randrange(0, max(1, w - ww + 1)), rng.randrange(0, max(1, n - hh + 1))
        hole = {(x, y) for x in range(x0, x0 + ww) for y in range(y0, y0 + hh)}
    else:
        keep = rng.choice((0.3, 0.5, 0.7))
        hole = {(x, y) for x in range(w) for y in range(n) if rng.random() > keep}
    partial = [[L.EMPTY if (x, y) in hole else t for x, t in enumerate(row)] for y, row in enumerate(rows)]
    # a splitter half alone in the hole is what hurts most: now and then move a splitter
    if rng.random() < 0.3:
        heads = [(x, y) for y in range(n) for x in range(w) if rows[y][x][0] == 'S' and rows[y][x][2] and (x, y) not in hole]
        if heads:
            x, y = rng.choice(heads)
            side = L.VEC[L.left_of(rows[y][x][1])]
            partial[y][x] = L.EMPTY
            if (x + side[0], y + side[1]) not in hole:
                partial[y + side[1]][x + side[0]] = L.EMPTY
    run(report, w, n, value, lines, partial)


def stored(key, seed, rounds):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    rows = L.unshow(samples.POWER_OF_2[key])
    for _ in range(rounds):
        rework(report, rng, rows, rng.choice((key[1], key[1], key[1] + 1, -1)), 25)
    return report


def swap_columns(n, r, s):
    """Six columns in which the belts of rows r and s change places."""
    flip = r == 0
    if flip:
        r, s = n - 1 - s, n - 1 - r
    belt = lambda a, b: ('B', a, b)
    into, out = ('U', 0, True), ('U', 0, False)
    columns = [[belt(0, 0)] * n for _ in range(6)]
    h = r - 1
    for y in range(h, s + 1):
        for x in range(6):
            columns[x][y] = L.EMPTY
        columns[0][y], columns[5][y] = (into, out) if y not in (r, s) else (belt(0, 0), out if y == r else belt(0, 0))
        if r < y < s:
            columns[2][y] = belt(1, 1)
        if r <= y < s:
            columns[4][y] = belt(3, 3)
    columns[1][r], columns[1][h], columns[1][s] = belt(0, 1), belt(1, 0), belt(0, 0)
    columns[2][s], columns[2][r], columns[2][h] = belt(0, 1), belt(1, 0), belt(0, 0)
    columns[3][r], columns[3][h] = into, belt(0, 0)
    columns[4][h], columns[4][s] = belt(0, 3), belt(3, 0)
    rows = [[columns[x][y] for x in range(6)] for y in range(n)]
    return L.flip_y(rows) if flip else rows


def standing_splitter(n, r):
    """Seven columns in which the belts of rows r and r + 1 pass a splitter facing down (up when too far down)."""
    flip = r + 5 > n
    if flip:
        r = n - 2 - r
    belt = lambda a, b: ('B', a, b)
    rows = [[belt(0, 0)] * 7 for _ in range(n)]
    for y in (r + 2, r + 3, r + 4):
        rows[y] = [('U', 0, True)] + [L.EMPTY] * 5 + [('U', 0, False)]
    rows[r] = [belt(0, 0), belt(0, 0), belt(0, 3), L.EMPTY, L.EMPTY, belt(1, 0), belt(0, 0)]
    rows[r + 1] = [belt(0, 0), belt(0, 3), belt(3, 3), belt(1, 0), ('U', 0, True), belt(1, 1), ('U', 0, False)]
    rows[r + 2][1:6] = [('S', 3, True), ('S', 3, False), belt(1, 1), L.EMPTY, belt(1, 1)]
    rows[r + 3][1:6] = [belt(3, 3), belt(3, 0), belt(0, 1), L.EMPTY, belt(1, 1)]
    rows[r + 4][1:6] = [belt(3, 0), belt(0, 0), belt(0, 0), belt(0, 0), belt(0, 1)]
    return L.flip_y(rows) if flip else rows


def build(n, stages):
    """A layout from stages: lists of swaps (r, s) that do not meet, a tuple of the upper rows of splitters,
    or the upper row of one that faces down."""
    rows = [[('B', 0, 0)] for _ in range(n)]
    for stage in stages:
        if isinstance(stage, tuple):
            for y in range(n):
                rows[y].append(('S', 0, False) if y in stage else ('S', 0, True) if y - 1 in stage else ('B', 0, 0))
        elif isinstance(stage, int):
            for row, more in zip(rows, standing_splitter(n, stage)):
                row += more
        else:
            part = [[('B', 0, 0)] * 6 for _ in range(n)]
            for top, size, r, s in stage:
                for y, row in enumerate(swap_columns(size, r, s)):
                    part[top + y] = row
            for row, more in zip(rows, part):
                row += more
        for row in rows:
            row.append(('B', 0, 0))
    return rows


def plan(rng, n):
    """Stages that balance: (top, size, r, s) swaps within groups of rows, then splitters."""
    stages = []
    size = 4
    while size <= n:
        half = size // 2
        for i in range(1, half, 2):
            # one belt of each pair of rows of the upper half changes places with one of the pair of rows in the lower
            swaps = [(i - 1, half + i - 1), (i - 1, half + i), (i, half + i - 1), (i, half + i)]
            stages.append([(top, size, *rng.choice([pair for pair in swaps if pair != (0, size - 1)])) for top in range(0, n, size)])
        if size == 4 and rng.random() < 0.7:    # the two halves exchange some of their belts
            for r in rng.sample(range(n // 2), rng.choice((1, 1, 2))):
                if r + n // 2 < n - 1 or r:
                    stages.append([(0, n, r, r + n // 2)])
        if size < n:
            stages.append(tuple(range(0, n, 2)))
        size *= 2
    return stages


def stand(rng, stages):
    """The same with some splitters facing down or up."""
    result = []
    for stage in stages:
        if isinstance(stage, tuple) and rng.random() < 0.6:
            standing = set(rng.sample(stage, rng.choice((1, 1, min(2, len(stage))))))
            result += [tuple(y for y in stage if y not in standing), *standing]
        else:
            result.append(stage)
    return result


def spoil(rng, n, stages):
    stages = [list(stage) if isinstance(stage, list) else stage for stage in stages]
    i = rng.randrange(len(stages))
    kind = rng.randrange(6)
    if rng.random() < 0.3:      # the last stage pairs the wrong belts
        last = max(j for j, stage in enumerate(stages) if not isinstance(stage, list)) + 1
        if len(stages) - last > 1:
            i, j = rng.sample(range(last, len(stages)), 2)
            (a, c, r, s), (b, d, t, u) = stages[i][0], stages[j][0]
            stages[i][0], stages[j][0] = (a, c, r, u), (b, d, t, s)
            return stages
    if kind == 0:       # more belts change places
        r = rng.randrange(n - 1)
        s = rng.randrange(r + 1, n)
        if (r, s) != (0, n - 1):
            stages.insert(rng.choice((i, i, len(stages))), [(0, n, r, s)])
    elif isinstance(stages[i], list):
        j = rng.randrange(len(stages[i]))
        top, size, r, s = stages[i][j]
        if kind == 1:
            del stages[i][j]
        else:
            r, s = sorted(rng.choice(((r, rng.randrange(size)), (s, rng.randrange(size)), rng.sample(range(size), 2))))
            if r != s and (r, s) != (0, size - 1):
                stages[i][j] = top, size, r, s
    elif isinstance(stages[i], int):
        stages[i] = rng.choice((max(0, stages[i] - 1), min(n - 2, stages[i] + 1), rng.randrange(n - 1)))
    else:
        # the same number of splitters, one of them elsewhere
        if stages[i]:
            y = rng.choice(stages[i])
            stages[i] = tuple(z for z in stages[i] if z != y)
        stages.insert(rng.randrange(len(stages) + 1), rng.choice(((rng.randrange(n - 1),), rng.randrange(n - 1))))
    return stages


def wrong_shares(circuit, n):
    """How many of the shares are not what they should be; None if flow is trapped."""
    wrong = 0
    for _, flow, count in flows(circuit, True):
        if flow is None:
            return None
        wrong += sum(v * count != 1 for row in flow.values() for v in row.values())
    return wrong


def assembled(n, seed, rounds):
    """Large layouts put together from swaps and splitters, with one thing wrong in most of them, offered as a whole."""
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    report.count('filters_removed', unfiltered())
    for _ in range(rounds):
        stages = plan(rng, n)
        if rng.random() < 0.6:
            stages = stand(rng, stages)
        candidates = [build(n, stages)]
        if rng.random() < 0.85:
            candidates = [build(n, spoil(rng, n, stages)) for _ in range(8)]
        scored = []
        for rows in candidates:
            whole = complete(rows)
            if L.check_rules(whole, None):
                report.count('assembled_not_legal')
                continue
            wrong = wrong_shares(L.trace(whole), n)
            if wrong is not None:
                scored.append((wrong, rng.random(), rows))
        if not scored:
            continue
        measure = rng.randrange(2)
        wrong, _, rows = min(scored, key=lambda c: (c[0] == 0, c[measure]))
        if rng.random() < 0.4:
            rows = L.flip_y(rows)
        report.count('assembled')
        report.count('assembled_unbalanced', bool(wrong))
        report.count('assembled_standing', any(t[0] == 'S' and t[1] != 0 for row in rows for t in row))
        got = run(report, len(rows[0]), n, -1, 1, [[t if t != L.EMPTY else ('F',) for t in row] for row in rows], True)
        report.count('assembled_accepted', len(got))
        report.count('assembled_refused_unbalanced', bool(wrong) and not got)
    return report


def main():
    check = core.Check('C06', 'exploration',
                       'one evaluation = one printed layout completed with its outer splitters, traced and its flow solved '
                       'exactly; distinct = different layouts (each holds splitters, so none is trivial)',
                       ['belts are not saturated: every splitter divides evenly over its connected outputs'])
    core.tool(TOOL)
    rng = check.rng
    deadline = check.budget(60, 700)
    tasks = []
    keys = sorted(samples.POWER_OF_2)
    for _ in range(check.pick(60, 1200)):
        if rng.random() < 0.35:
            tasks.append(core.Task(generate, rng.randrange(6, 13), 4, rng.choice((2, 3, 4, 4, 5, 6, 8, -1)), 30, rng.randrange(1 << 30),
                                   timeout=check.pick(12, 60), label='size4'))
        elif rng.random() < 0.3:
            w, u = rng.choice(((11, 6), (10, 6), (10, 8), (12, 6), (12, 8)))
            tasks.append(core.Task(generate, w, 8, u, 6, rng.randrange(1 << 30), timeout=check.pick(15, 120), label='size8'))
        else:
            tasks.append(core.Task(stored, rng.choice(keys), rng.randrange(1 << 30), 4, timeout=check.pick(12, 60), label='stored'))
    for i in range(check.pick(60, 1500)):
        n = 16 if i % 2 else 8
        tasks.insert(min(len(tasks), 2 * i), core.Task(assembled, n, rng.randrange(1 << 30), 8 if n == 8 else 6, timeout=check.pick(40, 120),
                                                       label=f'assembled{n}'))
    check.run(tasks, deadline)
    check.finish(50)
