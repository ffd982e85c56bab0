"""C03: a generated balancer realises the requested network with the requested ends.

Monitor: every printed layout is traced (lib/layout.py) and the resulting circuit compared with
the network that was asked for, its edge crossings with the requested ends.
Workload: shipped and random networks on boards with room to go wrong, all end options, random
solver phases; and layouts of one network offered as pinned layouts to a slightly different one.
"""
import json
import random

from lib import core, gen, ends
from lib import layout as L

MODES = {'--90': '90', '--180': '180'}


def edge_connected(cells):
    """Whether a splitter half at the edge is in use there, as the tool itself says (tiles do not show it)."""
    def connected(x, y, d, is_output):
        return cells[y][x].get('output_direction' if is_output else 'input_direction') == d
    return connected


def judge(report, cells, nodes, options, limit, context):
    rows = L.read_layout(cells)
    custom = '--custom' in options
    circuit = L.trace(rows, edge_splitters=edge_connected(cells) if custom else None)
    verdict = L.matches_network(circuit, nodes)
    if verdict is None:
        report.count('match_gave_up')
        return
    report.observe(('realised', gen.freeze(rows), tuple(nodes)))
    report.count('layouts_traced')
    report.count('wires_traced', circuit.wires)
    if circuit.loops:
        report.count('layouts_with_idle_loops')
    context = dict(context, layout=L.show(rows))
    if not verdict:
        report.violation('network', 'a printed layout does not realise the network', context)
        return
    (_, n), (_, m) = L.network_terminals(nodes)
    if not custom:
        mode = next((MODES[o] for o in options if o in MODES), 'straight')
        report.count('ends_' + mode)
        faults = ends.end_faults(rows, circuit, n, m, mode, '--use-ends' in options, '--aligned' in options)
        if faults:
            report.violation('ends', faults[0], context)
            return
    if '--edge-belts' in options:
        report.count('edge_belts')
        if ends.edge_belt_faults(rows):
            report.violation('edge-belts', 'parallel belts at the edge', context)
    if '--edge-splitters' in options or '--fast' in options:
        report.count('edge_splitters')
        faults = ends.edge_splitter_faults(rows, circuit, nodes)
        if faults:
            report.violation('edge-splitters', faults[0], context)


def run_balancer(report, nodes, w, h, options, value, lines, partial=None):
    with open('net', 'w') as f:
        f.write(gen.network_text(nodes))
    argv = ['net', w, h, '--underground-length', value] + options
    if lines > 1:
        argv.append('--all')
    if partial is not None:
        with open('partial', 'w') as f:
            json.dump(L.write_layout(partial), f)
        argv += ['--partial', 'partial']
    run = core.run_cli('belt_balancer', argv, max_lines=lines)
    context = {'argv': argv, 'network': gen.network_text(nodes), 'partial': partial and L.show(partial)}
    report.count('runs')
    if gen.crash(run, report, 'belt_balancer', context):
        return []
    result = []
    for line in run.lines:
        cells = json.loads(line)
        judge(report, cells, nodes, options, value, context)
        result.append(L.read_layout(cells))
    if result:
        report.sample({'argv': [str(a) for a in argv], 'network': nodes, 'layout': L.show(result[0])}, 1)
    else:
        report.count('runs_without_layout')
    return result


def generate(nodes, w, h, options, value, lines, seed):
    core.diversify_solver(seed)
    report = core.Report()
    run_balancer(report, nodes, w, h, options, value, lines)
    return report


def mutate(rng, nodes):
    """Exchange the ends of two wires (the number of inputs and outputs stays)."""
    flat = [[list(i), list(o)] for i, o in nodes]
    side = rng.randrange(2)
    ports = [(k, j) for k in range(len(flat)) for j in range(2) if flat[k][side][j] is not None]
    if len(ports) < 2:
        return None
    pairs = [(p, q) for p in ports for q in ports if p < q and p[0] != q[0] and flat[p[0]][side][p[1]] != flat[q[0]][side][q[1]]]
    near = [(p, q) for p, q in pairs if (flat[p[0]][side][p[1]] ^ flat[q[0]][side][q[1]]).bit_count() == 1]
    if not pairs:
        return None
    (a, i), (b, j) = rng.choice(near if near and rng.random() < 0.6 else pairs)
    flat[a][side][i], flat[b][side][j] = flat[b][side][j], flat[a][side][i]
    result = [(tuple(i), tuple(o)) for i, o in flat]
    try:
        L.network_terminals(result)
    except ValueError:
        return None
    return result


def offer(nodes, w, h, options, value, seed):
    """Layouts of one network, pinned completely, offered for networks that differ in two connections."""
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    layouts = run_balancer(report, nodes, w, h, options, value, 3)
    for rows in layouts[:2]:
        for _ in range(4):
            other = mutate(rng, nodes)
            if other is None:
                continue
            report.count('foreign_layouts_offered')
            run_balancer(report, other, w, h, options, value, 1, rows)
    return report


def workload(rng, networks):
    while True:
        if rng.random() < 0.55:
            nodes = networks[rng.choice(sorted(networks))]
        else:
            nodes = gen.random_network(rng, rng.choice((1, 2, 3, 3, 4, 5)))
        nodes = gen.relabel(rng, nodes)
        (_, n), (_, m) = L.network_terminals(nodes)
        h = max(n, m, 2) + rng.randrange(0, 3)
        w = max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 5))
        value = rng.choice((1, 2, 3, 4, 4, 5, 6, -1))
        options = list(rng.choice(([], [], ['--use-ends'], ['--90'], ['--180'], ['--custom'], ['--90', '--use-ends'], ['--aligned'],
                                   ['--aligned', '--use-ends'])))
        if '--180' in options:
            h = max(h, n + m)
        if '--90' in options:
            w, h = max(w, m + 1), h + 1
        more = rng.choice(([], [], ['--fast'], ['--edge-belts'], ['--edge-splitters'], ['--glue-splitters'],
                           ['--expand-underground'], ['--prevent-bad-patterns'], ['--prevent-mergeable-underground'],
                           ['--break-symmetry']))
        if '--90' in options and '--break-symmetry' in more:
            more = []
        yield nodes, w, h, options + more, value


def main():
    check = core.Check('C03', 'exploration',
                       'one evaluation = one printed layout traced and compared with the network and ends asked for; distinct = '
                       'different (layout, network) pairs, all non-trivial as every layout holds at least one splitter and its ends',
                       ['wires of one colour are interchangeable, as in the network files',
                        'closed belt loops without a splitter are tolerated: they carry nothing'])
    core.tool('belt_balancer')
    rng = check.rng
    networks = gen.shipped_networks(check.pick(7, 12))
    deadline = check.budget(32, 500)
    tasks = []
    stream = workload(rng, networks)
    for _ in range(check.pick(1100, 25000)):
        nodes, w, h, options, value = next(stream)
        seed = rng.randrange(1 << 30)
        if rng.random() < 0.25 and len(nodes) <= 5:
            tasks.append(core.Task(offer, nodes, w, h, options, value, seed, timeout=check.pick(6, 40), label='offer'))
        else:
            tasks.append(core.Task(generate, nodes, w, h, options, value, 20, seed, timeout=check.pick(6, 40), label='generate'))
    check.run(tasks, deadline)
    check.finish(200)
