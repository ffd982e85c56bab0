"""C04: the balancer generator finds every layout there is.

Oracle: an independent enumeration (lib/legal.py) of all legal layouts of the board with the
requested ends; those whose traced circuit is the network are exactly what has to be printed, once each.
On larger boards: independently constructed layouts are pinned completely, and have to be printed.
"""
import json
import random

from lib import core, ends, features, gen, legal, stretch
from lib import layout as L

E = 1 << legal.INDEX[('E', None, None, False)]


def crossing_free(w, h, x, y):
    """States at (x, y) that use no connection across the edge of the board."""
    sides = [side for side, here in ((2, x == 0), (1, y == 0), (0, x == w - 1), (3, y == h - 1)) if here]
    mask = 0
    for i, s in enumerate(legal.STATES):
        if all(s[1] != L.opp(side) and s[2] != side for side in sides):
            mask |= 1 << i
    return mask


def belts(w, h, x, y, entering=None, leaving=None):
    """Belt states crossing the edge exactly as told."""
    sides = [side for side, here in ((2, x == 0), (1, y == 0), (0, x == w - 1), (3, y == h - 1)) if here]
    mask = 0
    for i, s in enumerate(legal.STATES):
        if s[0] != 'B':
            continue
        ok = True
        for side in sides:
            crosses_in, crosses_out = s[1] == L.opp(side), s[2] == side
            if crosses_in != (entering == s[1] and crosses_in) or crosses_out != (leaving == s[2] and crosses_out):
                ok = False
        if entering is not None and s[1] != entering or leaving is not None and s[2] != leaving:
            ok = False
        if ok:
            mask |= 1 << i
    return mask


def end_masks(w, h, mode, n, m, use_ends, aligned):
    """Allowed states per cell for each choice of end positions."""
    inside = {(x, y): crossing_free(w, h, x, y) for x in range(w) for y in range(h)}
    out_line = [(x, h - 1) for x in range(w)] if mode == '90' else [((0 if mode == '180' else w - 1), y) for y in range(h)]
    out_dir = {'straight': 0, '90': 3, '180': 2}[mode]
    in_line = [(0, y) for y in range(h)]
    for a in range(h - n + 1):
        for b in range(len(out_line) - m + 1):
            if aligned:
                if n >= m and not (a <= b and b + m <= a + n) or n < m and not (b <= a and a + n <= b + m):
                    continue
            allowed = dict(inside)
            entering = {in_line[i] for i in range(a, a + n)}
            leaving = {out_line[i] for i in range(b, b + m)}
            if not use_ends and mode != '180':
                for cell in in_line + out_line:
                    if cell not in entering and cell not in leaving:
                        allowed[cell] = E
                for cell in (set(in_line) & entering & set(out_line)) - leaving | (set(out_line) & leaving & set(in_line)) - entering:
                    allowed[cell] = 0       # a corner in both lines, but an end of only one
            for cell in entering | leaving:
                if allowed[cell]:
                    allowed[cell] = belts(w, h, *cell, entering=0 if cell in entering else None,
                                          leaving=out_dir if cell in leaving else None)
            yield allowed


def idle_underground(rows):
    """An underground passing below nothing but empty tiles."""
    board = L.Board(rows)
    for x, y, t in board.positions():
        if t[0] == 'U' and t[2]:
            target, n = L.underground_exit(board, x, y)
            if target is not None:
                dx, dy = L.VEC[t[1]]
                if all(rows[y + dy * k][x + dx * k] == L.EMPTY for k in range(1, n + 1)):
                    return True
    return False


def merged_network(circuit):
    """The circuit as a network with one input and one output colour, or None if it is not one."""
    if not circuit.splitters or any(w in circuit.sinks for w in circuit.sources):
        return None
    colour = {}
    for w in circuit.sources:
        colour[w] = 'in'
    for w in circuit.sinks:
        colour[w] = 'out'
    nodes = []
    for ins, outs in zip(circuit.ins, circuit.outs):
        if sum(w is None for w in ins + outs) > 1:
            return None
        nodes.append((tuple(None if w is None else colour.get(w, w) for w in ins),
                      tuple(None if w is None else colour.get(w, w) for w in outs)))
    names = sorted({c for i, o in nodes for c in i + o if c is not None}, key=str)
    table = {c: k for k, c in enumerate(names)}
    nodes = [(tuple(None if c is None else table[c] for c in i), tuple(None if c is None else table[c] for c in o)) for i, o in nodes]
    if not circuit.sources or not circuit.sinks:
        return None
    try:
        L.network_terminals(nodes)
    except ValueError:
        return None
    # every wire has both its ends
    return nodes


def coarser(rng, nodes):
    """The same network with the colours of two inner wires made the same."""
    (cin, _), (cout, _) = L.network_terminals(nodes)
    inner = sorted({c for i, o in nodes for c in i + o if c not in (None, cin, cout)})
    if len(inner) < 2:
        return nodes
    a, b = rng.sample(inner, 2)
    return [(tuple(a if c == b else c for c in i), tuple(a if c == b else c for c in o)) for i, o in nodes]


def options_for(mode, use_ends, aligned):
    return ({'straight': [], '90': ['--90'], '180': ['--180']}[mode] + (['--use-ends'] if use_ends else [])
            + (['--aligned'] if aligned else []))


def run_tool(nodes, w, h, options, limit, lines=None, partial=None):
    with open('net', 'w') as f:
        f.write(gen.network_text(nodes))
    argv = ['net', w, h, '--underground-length', -1 if limit is None else limit] + options
    if partial is not None:
        with open('partial', 'w') as f:
            json.dump(L.write_layout(partial), f)
        argv += ['--partial', 'partial']
    run = core.run_cli('belt_balancer', argv, max_lines=lines)
    return run, {'argv': [str(a) for a in argv], 'network': gen.network_text(nodes), 'partial': partial and L.show(partial)}


def exact(w, h, mode, n, m, use_ends, aligned, limit, heads, networks, seed, max_nodes, cap):
    rng = random.Random(seed)
    report = core.Report()
    rules = legal.Rules(w, h, limit=limit, block_belts=(False,) * 4, block_under=(True,) * 4)
    layouts = []
    for allowed in end_masks(w, h, mode, n, m, use_ends, aligned):
        for grid in rules.solutions(allowed, max_nodes=max_nodes, heads=heads):
            rows = rules.tiles(grid)
            if idle_underground(rows):
                continue
            circuit = L.trace(rows)
            if len(circuit.sources) == n and len(circuit.sinks) == m:
                layouts.append((gen.freeze(rows), circuit))
        if not rules.exhausted or len(layouts) > 60000:
            report.count('boards_too_large')
            return report
    report.count('boards_enumerated')
    report.count('candidate_layouts', len(layouts))
    chosen = list(networks)
    pool = rng.sample(layouts, min(len(layouts), 60))
    found = []
    for rows, circuit in pool:
        nodes = merged_network(circuit)
        if nodes is not None:
            found.append(nodes)
    rng.shuffle(found)
    chosen += found[:5] + [coarser(rng, nodes) for nodes in found[5:7]]
    chosen = [gen.relabel(rng, nodes) for nodes in chosen]
    options = options_for(mode, use_ends, aligned)
    core.diversify_solver(seed)
    for nodes in chosen:
        expected = {}
        undecided = False
        for rows, circuit in layouts:
            verdict = L.matches_network(circuit, nodes)
            if verdict is None:
                undecided = True
                break
            if verdict:
                expected[rows] = True
        if undecided or len(expected) > cap:
            report.count('networks_skipped')
            continue
        run, context = run_tool(nodes, w, h, options + ['--all'], limit, lines=len(expected) + 50)
        context['expected'] = len(expected)
        if gen.crash(run, report, 'belt_balancer', context):
            continue
        seen = set()
        for rows in gen.parse_lines(run, report, 'belt_balancer', context):
            rows = gen.freeze(rows)
            report.observe(('printed', tuple(nodes), rows))
            if rows in seen:
                report.violation('twice', 'a layout was printed twice', dict(context, layout=L.show(rows)))
                break
            seen.add(rows)
            if rows not in expected:
                report.violation('unexpected', 'a layout was printed that the board does not have', dict(context, layout=L.show(rows)))
                break
        else:
            missing = [rows for rows in expected if rows not in seen]
            report.count('networks_compared')
            report.count('networks_without_layout' if not expected else 'networks_with_layout')
            report.observe(('network', w, h, mode, use_ends, aligned, limit, tuple(nodes)) if expected else None)
            if missing:
                report.violation('missing', f'{len(missing)} of {len(expected)} layouts were not printed',
                                 dict(context, layout=L.show(missing[0])))
            else:
                report.sample({'argv': context['argv'], 'network': nodes, 'layouts': len(expected)}, 1)
    return report


def fixed(rows):
    """The layout with its empty tiles as fillers: a partial in which nothing is free."""
    return [[('F',) if t == L.EMPTY else t for t in row] for row in rows]


def offer(report, rng, rows, nodes, mode, use_ends, aligned, limit):
    """Pin a layout completely: the tool has to print it."""
    w, h = L.size(rows)
    nodes = gen.relabel(rng, nodes)
    exact = rng.random() < 0.85
    run, context = run_tool(nodes, w, h, options_for(mode, use_ends, aligned) + rng.choice(([], ['--all'] if exact else [])), limit,
                            partial=fixed(rows) if exact else rows)
    if gen.crash(run, report, 'belt_balancer', context):
        return
    printed = [gen.freeze(r) for r in gen.parse_lines(run, report, 'belt_balancer', context)]
    report.observe(('pinned', gen.freeze(rows), mode, limit))
    report.count('constructed_layouts_offered')
    report.count('constructed_splitters', len(nodes))
    longest = max([L.underground_exit(L.Board(rows), x, y)[1] for x, y, t in L.Board(rows).positions() if t[0] == 'U' and t[2]], default=0)
    report.count(f'longest_underground_{longest}')
    # tiles left empty are free for the tool, which may print another completion first
    if not printed or exact and printed != [gen.freeze(rows)]:
        report.violation('rejected', f'a layout that realises the network was not found ({len(printed)} printed)',
                         dict(context, layout=L.show(rows)))


def pinned(seed, rounds):
    """Independently constructed layouts on larger boards; the tool has to accept them."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        if rng.random() < 0.12:
            rows, nodes, mode = features.chain_layout(rng)
            limit = rng.choice((5, 6, 8, None))
            assert not L.check_rules(rows, limit), L.show(rows)
            offer(report, rng, rows, nodes, mode, False, False, limit)
            continue
        mode = rng.choice(('straight', 'straight', '90', '180'))
        w, h = rng.randrange(4, 9), rng.randrange(3, 8)
        n = rng.randrange(1, min(4, h - 1) + 1)
        m = rng.randrange(1, min(4, h - 1, w - 1) + 1)
        if mode == '180' and n + m > h:
            continue
        use_ends = rng.random() < 0.5 and mode != '180'
        aligned = mode == 'straight' and rng.random() < 0.3
        limit = rng.choice((1, 2, 3, 4, 5, 6, None))
        rules = legal.Rules(w, h, limit=limit, block_belts=(False,) * 4, block_under=(True,) * 4)
        masks = list(end_masks(w, h, mode, n, m, use_ends, aligned))
        if not masks:
            continue
        rows = None
        for attempt in range(25):
            allowed = rng.choice(masks)
            density = rng.choice((0.0, 0.1, 0.3, 0.5))
            feature = features.long_underground(rng, w, h, limit) if attempt % 2 else None
            if feature is not None:
                allowed = {cell: mask & feature.get(cell, -1) for cell, mask in allowed.items()}
                if not all(allowed.values()):
                    continue
            allowed = {cell: (E if mask & E and rng.random() < density else mask) for cell, mask in allowed.items()}
            for grid in rules.solutions(allowed, rng, 2500, heads=rng.choice((1, 2, 2, 3, 3, 4, 5))):
                candidate = rules.tiles(grid)
                circuit = L.trace(candidate)
                if len(circuit.sources) != n or len(circuit.sinks) != m or idle_underground(candidate):
                    continue
                nodes = merged_network(circuit)
                if nodes is not None and len(nodes) <= 8:
                    rows = candidate
                    break
            if rows is not None:
                break
        if rows is None:
            report.count('constructions_failed')
            continue
        if rng.random() < 0.35:
            large(report, rng, rows, nodes, mode, use_ends, aligned, n, m)
        offer(report, rng, rows, nodes, mode, use_ends, aligned, limit)
    return report


def large(report, rng, rows, nodes, mode, use_ends, aligned, n, m):
    """The same circuit on a board beyond the usual sizes, with undergrounds to match."""
    rows = stretch.stretched(rng, rows, rng.randrange(9, 34), rng.choice((1, 1, rng.randrange(6, 22))))
    circuit = L.trace(rows)
    if L.check_rules(rows, None) or idle_underground(rows) or ends.end_faults(rows, circuit, n, m, mode, use_ends, aligned):
        report.count('stretching_failed')
        return
    if merged_network(circuit) is None or not L.matches_network(circuit, nodes):
        report.count('stretching_failed')
        return
    board = L.Board(rows)
    longest = max([L.underground_exit(board, x, y)[1] for x, y, t in board.positions() if t[0] == 'U' and t[2]], default=1)
    report.count('stretched_layouts')
    offer(report, rng, rows, nodes, mode, use_ends, aligned, rng.choice((None, longest, longest + rng.randrange(1, 4))))


def enlarged(seed, rounds):
    """Layouts the tool prints on small boards, stretched, and offered on boards of that size."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        nodes = rng.choice(list(gen.shipped_networks(6).values())) if rng.random() < 0.6 else gen.random_network(rng, 4)
        (_, n), (_, m) = L.network_terminals(nodes)
        mode = rng.choice(('straight', 'straight', '90', '180'))
        use_ends = rng.random() < 0.5 and mode != '180'
        aligned = mode == 'straight' and rng.random() < 0.3
        h = (n + m if mode == '180' else max(n, m, 2)) + rng.randrange(0, 3)
        w = max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 4), m + 1 if mode == '90' else 0)
        run, context = run_tool(nodes, w, h, options_for(mode, use_ends, aligned) + ['--all'], rng.choice((3, 4, None)), lines=25)
        if run.failed:
            continue
        found = gen.parse_lines(run, report, 'belt_balancer', context)
        rng.shuffle(found)
        found.sort(key=lambda rows: not any(t[0] == 'U' for row in rows for t in row))
        for rows in found[:2]:
            large(report, rng, rows, nodes, mode, use_ends, aligned, n, m)
    return report


def main():
    check = core.Check('C04', 'exploration',
                       'boards are enumerated independently and filtered by network; evaluations = printed layouts compared, networks '
                       'compared and constructed layouts offered; distinct = different (network, layout) pairs, networks with at '
                       'least one layout, and constructed layouts',
                       ['the SAT solver answers correctly', 'wires of one colour are interchangeable'])
    core.tool('belt_balancer')
    rng = check.rng
    deadline = check.budget(70, 800)
    shipped = gen.shipped_networks(3)
    tasks = []
    boards = []
    for w, h in ((3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (3, 4), (4, 4), (6, 2), (6, 3), (5, 4)):
        for mode in ('straight', '90', '180'):
            for n in range(1, 4):
                for m in range(1, 4):
                    if n > h or m > (w if mode == '90' else h) or mode == '180' and n + m > h:
                        continue
                    for use_ends in ((False, True) if mode != '180' else (False,)):
                        for heads in (1, 2, 3):
                            cells = w * h - (0 if use_ends or mode == '180' else h + (w if mode == '90' else h))
                            if 2 * heads > (w * h if use_ends or mode == '180' else (w - 2) * h):
                                continue
                            if cells > (12 if use_ends or mode == '180' else 14):
                                continue
                            boards.append((w, h, mode, n, m, use_ends, heads))
    rng.shuffle(boards)
    for w, h, mode, n, m, use_ends, heads in boards[:check.pick(420, len(boards))]:
        for aligned in ((False, True) if mode == 'straight' and rng.random() < 0.3 else (False,)):
            limit = rng.choice((1, 1, 2, 3, 4, None))
            nets = [nodes for nodes in shipped.values() if len(nodes) == heads
                    and tuple(k for _, k in L.network_terminals(nodes)) == (n, m)]
            tasks.append(core.Task(exact, w, h, mode, n, m, use_ends, aligned, limit, heads, nets, rng.randrange(1 << 30),
                                   check.pick(400000, 4000000), check.pick(400, 3000), timeout=check.pick(15, 120), label='exact'))
    for i in range(check.pick(300, 3000)):
        tasks.insert(min(len(tasks), 3 * i), core.Task(pinned, rng.randrange(1 << 30), 8, timeout=30, label='pinned'))
    for i in range(check.pick(60, 1000)):
        tasks.insert(min(len(tasks), 9 * i), core.Task(enlarged, rng.randrange(1 << 30), 4, timeout=40, label='enlarged'))
    check.run(tasks, deadline)
    check.finish(100)
