"""C05: network-free balancers really balance.

Monitor: every printed layout is traced and its linear flow system solved exactly (rationals);
every input must spread evenly over all outputs (and back, when their numbers differ).
"""
import json
import random
from fractions import Fraction

from lib import bp, core, ends, gen
from lib import layout as L


def flows(circuit, backward):
    """Name, exact flow over the splitters the ends can reach (None when trapped) and the number of ends it has to reach."""
    for name, ins, outs, sources, sinks in (('forward', circuit.ins, circuit.outs, circuit.sources, circuit.sinks),
                                            ('backward', circuit.outs, circuit.ins, circuit.sinks, circuit.sources)):
        if name == 'backward' and not backward:
            continue
        consumer = {w: i for i, wires in enumerate(ins) for w in wires if w is not None}
        seen, stack = set(), [consumer[w] for w in sources if w in consumer]
        while stack:
            i = stack.pop()
            if i not in seen:
                seen.add(i)
                stack += [consumer[w] for w in outs[i] if w is not None and w in consumer]
        order = sorted(seen)
        flow = L.flow_matrix([ins[i] for i in order], [outs[i] for i in order], sorted(sources), sorted(sinks))
        yield name, flow, len(sinks)


def balance_faults(circuit, n, m, backward):
    """Texts."""
    for name, flow, count in flows(circuit, backward):
        if flow is None:
            return [f'{name} flow is trapped in a loop']
        if not L.is_balanced(flow, count):
            return [f'{name} flow is not balanced: ' + str([[str(v) for v in row.values()] for row in flow.values()])]
    return []


def judge(report, rows, n, m, aligned, context):
    circuit = L.trace(rows)
    report.observe(('balancer', gen.freeze(rows)) if circuit.splitters else None)
    report.count('layouts')
    report.count('splitters', len(circuit.splitters))
    report.count(f'shape_{n}_to_{m}')
    context = dict(context, layout=L.show(rows))
    faults = ends.end_faults(rows, circuit, n, m, 'straight', False, aligned)
    if faults:
        report.violation('ends', faults[0], context)
        return
    faults = balance_faults(circuit, n, m, n != m)
    if faults:
        report.violation('balance', faults[0], context)


def generate(w, h, n, m, options, value, lines, seed, partial=None):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    base = [w, h, n, m, '--underground-length', value, '--all'] + options
    layouts = run(report, base, n, m, '--aligned' in options, lines, None)
    if layouts and rng.random() < 0.5:
        # hostile pins: parts of printed layouts, shifted, mixed or mirrored, as the starting point of another search
        for _ in range(2):
            rows = rng.choice(layouts)
            rows = rng.choice((rows, L.flip_y(rows)))
            keep = rng.random()
            partial = [[t if 0 < x < w - 1 and rng.random() < keep else L.EMPTY for x, t in enumerate(row)] for row in rows]
            run(report, base, n, m, '--aligned' in options, 10, partial)
    return report


def run(report, argv, n, m, aligned, lines, partial, lenient=False):
    if partial is not None:
        with open('partial', 'w') as f:
            json.dump(L.write_layout(partial), f)
        argv = argv + ['--partial', 'partial']
    result = core.run_cli('belt_balancer_net_free', argv, max_lines=lines)
    context = {'argv': [str(a) for a in argv], 'partial': partial and L.show(partial)}
    report.count('runs')
    if lenient and result.failed:       # only layouts that are printed count where the filters were taken away
        return []
    if gen.crash(result, report, 'net_free', context):
        return []
    layouts = gen.parse_lines(result, report, 'net_free', context)
    for rows in layouts:
        judge(report, rows, n, m, aligned, context)
    if layouts:
        report.sample({'argv': context['argv'], 'layout': L.show(layouts[0])}, 1)
    return layouts


def swapped(rng, nodes):
    """The network with the ends of two wires exchanged: mostly no longer a balancer."""
    flat = [[list(i), list(o)] for i, o in nodes]
    side = rng.randrange(2)
    ports = [(k, j) for k in range(len(flat)) for j in range(2) if flat[k][side][j] is not None]
    if len(ports) < 2:
        return nodes
    (a, i), (b, j) = rng.sample(ports, 2)
    flat[a][side][i], flat[b][side][j] = flat[b][side][j], flat[a][side][i]
    return [(tuple(i), tuple(o)) for i, o in flat]


def near_miss(networks, seed, rounds):
    """Layouts of networks that balance and of ones that almost do, with every tile given: none may be printed
    unless it balances."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        nodes = rng.choice(networks)
        for _ in range(rng.choice((0, 1, 1, 1, 2))):
            nodes = swapped(rng, nodes)
        try:
            (_, n), (_, m) = L.network_terminals(nodes)
        except ValueError:
            continue
        h = max(n, m, 2) + rng.randrange(0, 2)
        w = max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 4))
        value = rng.choice((2, 4, 4, 6))
        with open('net', 'w') as f:
            f.write(gen.network_text(nodes))
        made = core.run_cli('belt_balancer', ['net', w, h, '--underground-length', value, '--edge-belts', '--expand-underground', '--all'],
                            max_lines=3)
        if made.failed:
            continue
        for line in made.lines[:3]:
            try:
                rows = L.read_layout(json.loads(line))
            except (ValueError, KeyError, TypeError, L.BadTile):
                continue
            report.count('layouts_offered')
            if balance_faults(L.trace(rows), n, m, n != m):
                report.count('unbalanced_layouts_offered')
            run(report, [w, h, n, m, '--underground-length', value], n, m, False, 1,
                [[('F',) if t == L.EMPTY else t for t in row] for row in rows])
    return report


def shipped(seed, rounds):
    """Layouts of the shipped books, up to 8 to 8, with a splitter taken out or put in, or with a part left open."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        rows = rng.choice(book_layouts())
        circuit = L.trace(rows)
        w, h = L.size(rows)
        n, m = len(circuit.sources), len(circuit.sinks)
        rows = [list(row) for row in rows]
        heads = [(x, y) for y in range(h) for x in range(w) if rows[y][x][0] == 'S' and rows[y][x][2]]
        pairs = [(x, y) for y in range(h - 1) for x in range(1, w - 1) if rows[y][x] == rows[y + 1][x] == ('B', 0, 0)]
        kind = rng.randrange(7)
        if kind >= 4:
            # a splitter of the first or last stage cannot stay where it is: only a few inputs or outputs are concerned
            edge = sorted(heads, key=lambda p: min(p[0], w - 1 - p[0]))[:max(2, len(heads) // 2)]
            x, y = rng.choice(edge)
            d = rows[y][x][1]
            dx, dy = L.VEC[L.left_of(d)]
            pins = [[t if t != L.EMPTY or rng.random() < 0.3 else ('F',) for t in row] for row in rows]
            a, b = rng.choice(((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)))
            for py in range(max(0, min(y, y + dy) - b), min(h, max(y, y + dy) + b + 1)):
                for px in range(max(0, min(x, x + dx) - a), min(w, max(x, x + dx) + a + 1)):
                    pins[py][px] = L.EMPTY
            others = [('B', d, d)] * 2 + [('U', d, True), ('U', d, False), ('B', d, L.left_of(d)), ('B', d, L.opp(L.left_of(d))), ('F',)]
            px, py = rng.choice(((x, y), (x + dx, y + dy)))
            pins[py][px] = rng.choice(others)
        elif kind == 0 or kind == 3 and rng.random() < 0.5:
            x, y = rng.choice(heads)
            d = rows[y][x][1]
            dx, dy = L.VEC[L.left_of(d)]
            rows[y][x] = rows[y + dy][x + dx] = ('B', d, d)
        elif kind == 1 and pairs:
            x, y = rng.choice(pairs)
            rows[y][x], rows[y + 1][x] = ('S', 0, False), ('S', 0, True)
        if kind < 4:
            pins = [[('F',) if t == L.EMPTY else t for t in row] for row in rows]
        if kind in (2, 3):
            ww, hh = rng.choice(((2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 5), (2, h), (3, h)))
            x0, y0 = rng.randrange(max(1, w - ww + 1)), rng.randrange(max(1, h - hh + 1))
            for y in range(y0, min(h, y0 + hh)):
                for x in range(x0, min(w, x0 + ww)):
                    pins[y][x] = L.EMPTY
        report.count('shipped_offered')
        found = run(report, [w, h, n, m, '--underground-length', rng.choice((8, 8, 6, -1)), '--all'], n, m, False, 4, pins)
        report.count('shipped_answered', len(found or ()))
    return report


# what these add only takes layouts away
SPEED = ('expand_underground', 'apply_generic_optimisations')


def unfiltered():
    """Take the layout filters away: what is left of the rules alone has to see to the balance.

    Without them layouts can be offered that are wrong in a single input or output only."""
    from factorio_sat import belt_balancer, optimisations
    gone = 0
    for module, names in ((optimisations, SPEED), (belt_balancer, ('prevent_double_edge_belts',))):
        for name in names:
            if callable(getattr(module, name, None)):
                setattr(module, name, lambda *args, **kwargs: None)
                gone += 1
    return gone


def wrong_ends(circuit):
    """How many ends do not spread evenly; 99 if flow is trapped."""
    wrong = 0
    for _, flow, count in flows(circuit, len(circuit.sources) != len(circuit.sinks)):
        if flow is None:
            return 99
        wrong += len({source for row in flow.values() for source, v in row.items() if v != Fraction(1, count)}) or (0 if L.is_balanced(flow, count) else 99)
    return wrong


def spoiled(rng, rows):
    """The layout with a few splitters taken out or put in."""
    rows = [list(row) for row in rows]
    w, h = L.size(rows)
    for _ in range(rng.choice((1, 1, 1, 2))):
        heads = [(x, y) for y in range(h) for x in range(w) if rows[y][x][0] == 'S' and rows[y][x][2]]
        pairs = [(x, y) for y in range(h - 1) for x in range(1, w - 1) if rows[y][x] == rows[y + 1][x] == ('B', 0, 0)]
        if pairs and rng.random() < 0.3:
            x, y = rng.choice(pairs)
            rows[y][x], rows[y + 1][x] = ('S', 0, False), ('S', 0, True)
        elif heads:
            heads.sort(key=lambda p: min(p[0], w - 1 - p[0]))
            x, y = rng.choice(heads[:rng.choice((2, 4, len(heads)))])
            d = rows[y][x][1]
            dx, dy = L.VEC[L.left_of(d)]
            rows[y][x] = rows[y + dy][x + dx] = ('B', d, d)
    return rows


def almost(networks, seed, rounds):
    """Layouts that are wrong in one place only, offered with every tile given to the rules without the filters."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    bases = [rng.choice(book_layouts()) for _ in range(rounds)]
    for _ in range(2):      # and of networks that almost balance
        nodes = swapped(rng, rng.choice(networks))
        try:
            (_, n), (_, m) = L.network_terminals(nodes)
        except ValueError:
            continue
        h = max(n, m, 2) + rng.randrange(0, 2)
        with open('net', 'w') as f:
            f.write(gen.network_text(nodes))
        made = core.run_cli('belt_balancer', ['net', max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 4)), h], max_lines=1)
        bases += [] if made.failed else gen.parse_lines(made, report, 'belt_balancer', {})
    report.count('filters_removed', unfiltered())
    for rows in bases:
        candidates = [rows]
        if rng.random() < 0.85:     # the fewer ends are wrong, the easier it is to let it pass
            candidates = [spoiled(rng, rows) for _ in range(8)]
        candidates = [(L.trace(c), c) for c in candidates if not L.check_rules(c, None)]
        candidates = [(wrong_ends(t), rng.random(), t, c) for t, c in candidates if t.sources and t.sinks]
        if not candidates:
            report.count('almost_not_legal')
            continue
        wrong, _, circuit, rows = min(candidates, key=lambda c: (c[0] == 0, *c[:2]))
        if rng.random() < 0.4:      # the last inputs are the first ones now
            rows = L.flip_y(rows)
            circuit = L.trace(rows)
        w, h = L.size(rows)
        n, m = len(circuit.sources), len(circuit.sinks)
        report.count(f'almost_wrong_{min(wrong, 9)}')
        report.count('almost_offered')
        report.count('almost_unbalanced', bool(wrong))
        report.count('almost_few_wrong', 0 < wrong <= 2)
        run(report, [w, h, n, m, '--underground-length', -1], n, m, False, 1, [[('F',) if t == L.EMPTY else t for t in row] for row in rows], True)
    return report


_books = []


def book_layouts():
    """Layouts of the books that run from left to right."""
    if not _books:
        from checks import c24
        for name in c24.book_files():
            with open(name) as f:
                data = bp.unpack(f.read().strip())
            for item in c24.entries(data):
                rows = c24.rows_of(item)
                for turn in (lambda r: r, L.rot90, L.rot180, L.rot270):
                    turned = turn(rows)
                    circuit = L.trace(turned)
                    if (len(circuit.splitters) and all(d == 0 for _, _, d in circuit.sources.values())
                            and all(d == 0 for _, _, d in circuit.sinks.values()) and max(len(circuit.sources), len(circuit.sinks)) > 2):
                        _books.append(turned)
                        break
    return _books


# boards on which a shape is known to have layouts that are found quickly
GOOD = {
    (4, 4): ((7, 5), (8, 5), (9, 4), (7, 6), (9, 5)), (3, 3): ((12, 4), (10, 4), (8, 5), (11, 5), (9, 5)),
    (2, 3): ((7, 5), (10, 4), (8, 5)), (3, 2): ((10, 4), (9, 5), (8, 5)), (3, 6): ((7, 7), (7, 8)), (6, 3): ((7, 7), (7, 8)),
    (2, 6): ((8, 6), (7, 7), (6, 8)), (6, 2): ((8, 6), (8, 7), (6, 8)), (1, 5): ((8, 5), (12, 5)), (5, 1): ((9, 5), (9, 6)),
    (1, 3): ((6, 4), (7, 4), (8, 4), (9, 3)), (3, 1): ((7, 4), (8, 4), (9, 3)),
}


def main():
    check = core.Check('C05', 'exploration',
                       'one evaluation = one printed layout traced and its flow solved exactly; non-trivial = it holds a splitter; '
                       'distinct = different layouts',
                       ['belts are not saturated: every splitter divides evenly over its connected outputs'])
    core.tool('belt_balancer_net_free')
    rng = check.rng
    deadline = check.budget(75, 700)
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 4), (4, 2), (1, 3), (3, 1), (4, 4), (3, 3), (2, 3), (3, 2),
              (1, 5), (5, 1), (3, 4), (4, 3), (1, 6), (6, 1), (2, 6), (6, 2), (3, 6), (6, 3), (8, 4), (4, 8), (8, 8), (5, 5), (6, 6), (2, 8), (8, 2)]
    weights = [1, 3, 3, 3, 3, 3, 3, 3, 2, 2, 4, 3, 1, 1] + [0.3] * 17
    tasks = []
    for _ in range(check.pick(800, 9000)):
        n, m = rng.choices(shapes, weights)[0]
        h = max(n, m) + rng.choice((0, 0, 1, 1, 2) if max(n, m) <= 4 else (0, 1))
        w = rng.randrange(3, 10) if max(n, m) > 1 else rng.randrange(3, 6)
        if (n, m) in GOOD:
            w, h = rng.choice(GOOD[n, m])
        tasks.append(core.Task(generate, w, h, n, m, rng.choice(([], [], ['--aligned'])), rng.choice((2, 3, 4, 4, 4, 6, 8, -1)),
                               check.pick(25, 60), rng.randrange(1 << 30), timeout=check.pick(10, 60), label='net_free'))
    networks = [nodes for nodes in gen.shipped_networks(6).values()]
    for i in range(check.pick(150, 2000)):
        tasks.insert(min(len(tasks), 4 * i), core.Task(near_miss, networks, rng.randrange(1 << 30), 6, timeout=check.pick(12, 60), label='near_miss'))
    book_layouts()
    for i in range(check.pick(150, 3000)):
        tasks.insert(min(len(tasks), 5 * i), core.Task(almost, networks, rng.randrange(1 << 30), 8, timeout=check.pick(20, 90), label='almost'))
        tasks.insert(min(len(tasks), 7 * i), core.Task(shipped, rng.randrange(1 << 30), 5, timeout=check.pick(20, 90), label='shipped'))
    check.run(tasks, deadline)
    check.finish(100)
