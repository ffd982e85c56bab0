"""C01: every generated layout obeys the belt rules.

Monitor: the independent rule checker of lib/layout.py reads every layout any generator prints.
Workload: all generators over random boards, limits, options and solver phases, and hostile
partial layouts that pin illegal fragments (whatever is then printed still has to be legal).
"""
import json
import os
import random

from lib import core, gen
from lib import layout as L

TOOLS = ['belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block']


def judge(report, rows, limit, wrap, sig, context):
    counts = {}
    bad = L.check_rules(rows, limit, wrap, counts)
    for name, n in counts.items():
        report.count('rule_' + name, n)
    report.observe(('layout', gen.freeze(rows)) if counts else None)
    report.count('layouts')
    for rule, x, y, text in bad:
        report.violation(f'{sig}:{rule}', f'illegal layout printed by {sig}: {rule} at ({x}, {y}): {text}',
                         dict(context, layout=L.show(rows)))
        break
    return not bad


def run_spec(tool, argv, files, limit, wrap, seed, lines):
    report = core.Report()
    for name, text in files.items():
        with open(name, 'w') as f:
            f.write(text)
    core.diversify_solver(seed)
    run = core.run_cli(tool, argv, max_lines=lines)
    context = {'tool': tool, 'argv': argv, 'files': files, 'solver_seed': seed}
    report.count('runs_' + tool)
    if gen.crash(run, report, tool, context):
        return report
    layouts = gen.parse_lines(run, report, tool, context)
    for rows in layouts:
        judge(report, rows, limit, wrap, tool, context)
    if layouts:
        report.sample({'argv': [tool] + [str(a) for a in argv], 'layout': L.show(layouts[0])}, 1)
    else:
        report.count('runs_without_layout')
    return report


def run_optimal(names, length, objective, seed):
    """The optimal search on some networks in a scratch folder; its database is read back."""
    report = core.Report()
    os.mkdir('networks')
    for name, text in names.items():
        with open(os.path.join('networks', name), 'w') as f:
            f.write(text)
    run = core.run_cli('calculate_optimal', ['--database', 'db.json', 'compute', length, objective, '--threads', 1])
    context = {'tool': 'calculate_optimal', 'networks': names, 'length': length, 'objective': objective}
    report.count('runs_calculate_optimal')
    if gen.crash(run, report, 'calculate_optimal', context):
        return report
    with open('db.json') as f:
        data = json.load(f)
    for name, item in data.items():
        for key, cells in item['solutions'].items():
            limit, w, h = map(int, key.split(','))
            rows = L.read_layout(cells)
            judge(report, rows, limit, (False, False), 'calculate_optimal', dict(context, network=name, key=key))
    return report


def limit_arg(rng, choices=(1, 2, 3, 4, 5, 6, 8, -1)):
    value = rng.choice(choices)
    return value, (None if value == -1 else value)


TILES = ([('B', a, b) for a in range(4) for b in range(4) if a != L.opp(b)]
         + [('U', d, e) for d in range(4) for e in (False, True)] + [('S', d, e) for d in range(4) for e in (False, True)])


def fragment(rng, w, h, limit):
    """A small piece of board, more often illegal than not."""
    rows = [[L.EMPTY] * w for _ in range(h)]
    kind = rng.randrange(4)

    def put(x, y, t):
        if 0 <= x < w and 0 <= y < h:
            rows[y][x] = t
    if kind == 0:       # two neighbours of any kind
        x, y = rng.randrange(w - 1), rng.randrange(h)
        put(x, y, rng.choice(TILES))
        if rng.random() < 0.5:
            put(x + 1, y, rng.choice(TILES))
        else:
            put(x, y + 1, rng.choice(TILES))
    elif kind == 1:     # a stretched underground
        d = rng.randrange(4)
        n = (limit or 4) + 1 + rng.choice((0, 1, 1, 2))
        span = w if d % 2 == 0 else h
        n = min(n, span - 1)
        dx, dy = L.VEC[d]
        x = {0: 0, 2: w - 1}.get(d, rng.randrange(w)) + (dx * rng.randrange(span - n) if d % 2 == 0 else 0)
        y = {1: h - 1, 3: 0}.get(d, rng.randrange(h)) + (dy * rng.randrange(span - n) if d % 2 == 1 else 0)
        put(x, y, ('U', d, True))
        put(x + dx * n, y + dy * n, ('U', rng.choice((d, d, d, L.opp(d))), False))
        if rng.random() < 0.3:
            k = rng.randrange(1, n) if n > 1 else 1
            put(x + dx * k, y + dy * k, rng.choice(TILES))
    elif kind == 2:     # something leaving the board
        d = rng.randrange(4)
        x = {0: w - 1, 2: 0}.get(d, rng.randrange(w))
        y = {1: 0, 3: h - 1}.get(d, rng.randrange(h))
        put(x, y, rng.choice((('U', d, True), ('U', L.opp(d), False), ('S', d, True), ('S', d, False),
                              ('S', L.left_of(d), True), ('S', L.left_of(d), False), ('S', L.left_of(L.opp(d)), True))))
    else:               # a splitter with something in front of or behind it
        d = rng.randrange(4)
        x, y = rng.randrange(1, w - 1), rng.randrange(1, h - 1)
        put(x, y, ('S', d, True))
        side = L.VEC[L.left_of(d)]
        put(x + side[0], y + side[1], ('S', d, False))
        k = rng.choice((1, 1, -1))
        dx, dy = L.VEC[d]
        put(x + k * dx, y + k * dy, rng.choice(TILES))
        if rng.random() < 0.4:
            put(x + side[0] + k * dx, y + side[1] + k * dy, rng.choice(TILES))
    return rows


def specs(rng, networks):
    """Endless stream of (tool, argv, files, limit, wrap, lines)."""
    small = [n for n in networks if len(networks[n]) <= 5]
    while True:
        kind = rng.randrange(12)
        if kind <= 1:
            name = rng.choice(sorted(networks))
            nodes = networks[name]
            (_, a), (_, b) = L.network_terminals(nodes)
            h = max(a, b, 2) + rng.randrange(0, 3)
            w = max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 4))
            value, limit = limit_arg(rng)
            options = rng.choice(([], [], ['--fast'], ['--use-ends'], ['--90'], ['--180'], ['--custom'], ['--edge-belts'],
                                  ['--edge-splitters'], ['--glue-splitters'], ['--expand-underground'], ['--aligned'],
                                  ['--prevent-bad-patterns'], ['--break-symmetry'], ['--prevent-mergeable-underground']))
            if '--90' in options:
                w = max(w, b)
            yield ('belt_balancer', ['net', w, h, '--all', '--underground-length', value] + options,
                   {'net': gen.network_text(nodes)}, limit, (False, False), 25)
        elif kind == 2:
            nodes = gen.random_network(rng, 3)
            (_, a), (_, b) = L.network_terminals(nodes)
            h, w = max(a, b, 2) + rng.randrange(0, 3), rng.randrange(4, 8)
            value, limit = limit_arg(rng)
            options = rng.choice(([], ['--use-ends'], ['--custom']))
            yield ('belt_balancer', ['net', w, h, '--all', '--underground-length', value] + options,
                   {'net': gen.network_text(nodes)}, limit, (False, False), 25)
        elif kind == 3:
            n, m = rng.choice(((1, 1), (1, 2), (2, 1), (2, 2), (4, 1), (1, 4), (2, 4), (4, 2), (1, 3), (3, 1), (4, 4)))
            h = max(n, m, 2) + rng.randrange(0, 2)
            w = rng.randrange(3, 9)
            value, limit = limit_arg(rng)
            yield ('belt_balancer_net_free', [w, h, n, m, '--all', '--underground-length', value]
                   + rng.choice(([], ['--aligned'])), {}, limit, (False, False), 25)
        elif kind == 4:
            value, limit = limit_arg(rng, (2, 3, 4, 5, 6, -1))
            yield ('belt_balancer_net_free_power_of_2', [rng.randrange(7, 12), 4, '--all', '--underground-length', value],
                   {}, limit, (False, False), 25)
        elif kind == 5:
            value, limit = limit_arg(rng, (1, 2, 3, 4, 5, 6, 8))
            options = [o for o in ('--alternating', '--rot-symmetry') if rng.random() < 0.4]
            yield ('interchange', [rng.randrange(5, 9), rng.choice((4, 6, 8)), '--all', '--underground-length', value]
                   + options, {}, limit, (False, False), 20)
        elif kind in (6, 7):
            value = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6))
            options = [o for o in ('--tile', '--no-parallel') if rng.random() < 0.4]
            options += rng.choice(([], ['--allow-empty'], ['--allow-empty'], ['--single-loop']))
            top = 6 if '--single-loop' in options else 9
            w, h = rng.randrange(2, top), rng.randrange(2, top)
            wrap = ('--tile' in options,) * 2
            yield ('make_block', [w, h, '--all', '--underground-length', value] + options, {}, value, wrap, 40)
        elif kind == 8 and rng.random() < 0.5:
            # far out on a large board
            value, limit = limit_arg(rng, (1, 2, 4, 6, 9, 12, -1))
            w, h = rng.choice(((rng.randrange(13, 30), rng.randrange(3, 5)), (rng.randrange(4, 6), rng.randrange(10, 25)), (13, 13)))
            name = rng.choice([n for n in small if len(networks[n]) <= 2])
            rows = [row[::-1] for row in fragment(rng, w, h, limit)[::-1]] if rng.random() < 0.3 else fragment(rng, w, h, limit)
            if rng.random() < 0.7:      # only a corner is left open
                x0, y0 = rng.choice((0, max(0, w - 8))), rng.choice((0, max(0, h - 6)))
                rows = [[t if t != L.EMPTY or x0 <= x < x0 + 8 and y0 <= y < y0 + 6 or any(
                    rows[b][a] != L.EMPTY for a in range(max(0, x - 2), min(w, x + 3)) for b in range(max(0, y - 2), min(h, y + 3)))
                    else ('F',) for x, t in enumerate(row)] for y, row in enumerate(rows)]
            yield ('belt_balancer', ['net', w, h, '--custom', '--underground-length', value, '--partial', 'partial'],
                   {'net': gen.network_text(networks[name]), 'partial': json.dumps(L.write_layout(rows))}, limit, (False, False), 1)
        else:
            tool = rng.choice(('belt_balancer', 'belt_balancer', 'belt_balancer', 'interchange', 'belt_balancer_net_free'))
            value, limit = limit_arg(rng, (1, 2, 3, 4, -1) if tool != 'interchange' else (1, 2, 3, 4))
            if tool == 'belt_balancer':
                w, h = rng.randrange(4, 8), rng.randrange(4, 7)
                name = rng.choice(small)
                argv = ['net', w, h, '--custom']
                files = {'net': gen.network_text(networks[name])}
            elif tool == 'interchange':
                w, h = rng.randrange(6, 9), rng.choice((4, 6))
                argv, files = [w, h], {}
            else:
                w, h = rng.randrange(5, 8), 4
                argv, files = [w, h, 1, 2], {}
            files['partial'] = json.dumps(L.write_layout(fragment(rng, w, h, limit)))
            yield (tool, argv + ['--all', '--underground-length', value, '--partial', 'partial'], files, limit, (False, False), 4)


def main():
    check = core.Check('C01', 'exploration',
                       'one evaluation = one printed layout read by the rule monitor; distinct and non-trivial = different '
                       'layouts holding at least one belt, underground or splitter whose neighbours were judged',
                       ['the SAT solver answers correctly', 'the outputs of a splitter facing the side of an underground '
                        'are tolerated, as the maintainers\' tests say'])
    for name in TOOLS + ['calculate_optimal']:
        core.tool(name)
    rng = check.rng
    networks = gen.shipped_networks(7)
    deadline = check.budget(70, 600)
    tasks = []
    for i, objective in enumerate(('length', 'area', 'length', 'area')):
        names = {n: gen.network_text(networks[n]) for n in rng.sample(['1x2', '2x2', '2x1', '2x3', '3x2', '2x4', '4x2', '1x4'], 3)}
        tasks.append(core.Task(run_optimal, names, rng.choice((2, 4, 4, 6)), objective, rng.randrange(1 << 30), timeout=30,
                               label='calculate_optimal'))
    stream = specs(rng, networks)
    for _ in range(check.pick(4000, 30000)):
        tool, argv, files, limit, wrap, lines = next(stream)
        tasks.append(core.Task(run_spec, tool, argv, files, limit, wrap, rng.randrange(1 << 30), lines,
                               timeout=check.pick(8, 30), label=tool))
    check.run(tasks, deadline)
    check.finish(200)
