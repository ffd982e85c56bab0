"""C26: what is printed with every tile agrees with the layout and the request.

Monitor: every printed layout is traced from its tiles alone (lib/layout.py); the other values printed with the
tiles (edges, undergrounds passing below, colours, splitter numbers, flows, levels, positions along a loop) are then
compared with what follows from the circuit. Workload: all generators, small boards and pinned large layouts.
"""
import json
import random
from collections import Counter

from checks import c03, c05, c06, c07
from lib import core, gen, samples
from lib import layout as L

KINDS = {'B': 'is_belt', 'E': 'is_empty', 'S': 'is_splitter'}


class Fault(Exception):
    """What is printed with a tile is wrong: a kind and a text."""


def want(condition, kind, text):
    if not condition:
        raise Fault(kind, text)


def kind_of(tile):
    if tile[0] == 'U':
        return 'is_underground_in' if tile[2] else 'is_underground_out'
    return KINDS[tile[0]]


def tunnels(board):
    """{(x, y): {direction: entry}} of the undergrounds that pass below a tile."""
    result = {}
    for x, y, t in board.positions():
        if t[0] == 'U' and t[2]:
            d = t[1]
            _, n = L.underground_exit(board, x, y)
            for k in range(1, n + 1):
                result.setdefault(board.norm(x + k * L.VEC[d][0], y + k * L.VEC[d][1]), {})[d] = (x, y)
    return result


def judge_shape(cells, rows, wrap, counts):
    """The part that needs no colours. Returns the tunnels."""
    board = L.Board(rows, wrap)
    below = tunnels(board)
    for x, y, t in board.positions():
        cell = cells[y][x]
        at = f'tile {(x, y)}: '
        for name in ('is_belt', 'is_empty', 'is_splitter', 'is_underground_in', 'is_underground_out', 'is_splitter_head', 'is_input', 'is_output'):
            want(isinstance(cell[name], bool), 'type', at + f'{name} is not a truth value: {cell[name]!r}')
        want([k for k in (*KINDS.values(), 'is_underground_in', 'is_underground_out') if cell[k]] == [kind_of(t)], 'kind', at + 'more than one kind or none')
        ins, outs = cell['input_direction'], cell['output_direction']
        for d in (ins, outs):
            want(d is None or type(d) is int and 0 <= d < 4, 'type', at + f'direction {d!r}')
        if t[0] == 'S':
            d = t[1]
            before = board.at(x - L.VEC[d][0], y - L.VEC[d][1])
            after = board.at(x + L.VEC[d][0], y + L.VEC[d][1])
            want(ins in (None, d) and outs in (None, d), 'direction', at + 'a splitter with a direction of its own')
            if before is not None:
                want((ins is not None) == (L.pushes(before) == d), 'direction', at + 'the input of a splitter half does not agree with its neighbour')
            if after is not None:
                want((outs is not None) == (L.takes(after) == d), 'direction', at + 'the output of a splitter half does not agree with its neighbour')
        else:
            expect = {'B': t[1:], 'E': (None, None), 'U': (t[1], None) if t[0] == 'U' and t[2] else (None, t[1] if t[0] == 'U' else None)}[t[0]]
            want((ins, outs) == tuple(expect), 'direction', at + f'directions {(ins, outs)} of {t}')
            want(not cell['is_splitter_head'], 'kind', at + 'a splitter head that is no splitter')
        passing = below.get((x, y), {})
        counts('tunnel_tiles', len(passing))
        want(list(cell['underground']) == [d in passing for d in range(4)] and all(isinstance(v, bool) for v in cell['underground']), 'underground',
             at + f'underground is {cell["underground"]}, passing below: {sorted(passing)}')
        if board.w > 1 and board.h > 1:     # a tile on both opposite edges is ambiguous
            outside = L.Board(rows)
            enters = ins is not None and outside.at(x - L.VEC[ins][0], y - L.VEC[ins][1]) is None
            leaves = outs is not None and outside.at(x + L.VEC[outs][0], y + L.VEC[outs][1]) is None
            want(cell['is_input'] == enters, 'edge', at + f'is_input is {cell["is_input"]}')
            want(cell['is_output'] == leaves, 'edge', at + f'is_output is {cell["is_output"]}')
            counts('edge_tiles', enters + leaves)
    return below


def halves(rows, circuit):
    """{position: (splitter, half)}."""
    result = {}
    for index, (x, y) in enumerate(circuit.splitters):
        side = L.VEC[L.left_of(rows[y][x][1])]
        result[x, y] = (index, 0)
        result[x + side[0], y + side[1]] = (index, 1)
    return result


def along_wires(rows, circuit, below, on_tile, under):
    """{wire: value}: what is printed along every wire, on its tiles, below the tiles it passes and where it enters a splitter.

    on_tile(x, y) is the value of a tile, under(x, y, d) the one below it."""
    seen = {}
    for (x, y), wire in circuit.tiles.items():
        seen.setdefault(wire, []).append(((x, y), on_tile(x, y)))
    for (x, y), passing in below.items():
        for d, entry in passing.items():
            seen.setdefault(circuit.tiles[entry], []).append(((x, y, d), under(x, y, d)))
    for (x, y), (index, half) in halves(rows, circuit).items():
        wire = circuit.ins[index][half]
        if wire is not None:
            seen.setdefault(wire, []).append(((x, y), on_tile(x, y)))
    result = {}
    for wire, values in seen.items():
        place, value = values[0]
        for other, v in values[1:]:
            want(v == value, 'wire', f'a belt carries {value} at {place} and {v} at {other}')
        result[wire] = value
    return result


def colours(cells, rows, circuit, below):
    def number(v):
        want(type(v) is int and v >= 0, 'type', f'colour {v!r}')
        return v
    return along_wires(rows, circuit, below, lambda x, y: number(cells[y][x]['colour']),
                       lambda x, y, d: number(cells[y][x]['colour_uy' if d % 2 else 'colour_ux']))


def judge_network(cells, nodes, counts):
    """Belt balancer: the colours and splitter numbers make up the network."""
    rows = L.read_layout(cells)
    below = judge_shape(cells, rows, (False, False), counts)
    circuit = L.trace(rows, edge_splitters=c03.edge_connected(cells))
    value = colours(cells, rows, circuit, below)
    (entering, _), (leaving, _) = L.network_terminals(nodes)
    for wire in circuit.sources:
        want(value.get(wire) == entering, 'colour', f'an input has colour {value.get(wire)}, not {entering}')
    for wire in circuit.sinks:
        want(value.get(wire, leaving) == leaving, 'colour', f'an output has colour {value.get(wire)}, not {leaving}')
        value[wire] = leaving

    def key(side):
        return tuple(sorted(-1 if c is None else c for c in side))
    asked = Counter((key(i), key(o)) for i, o in nodes)
    kinds = {}
    found = Counter()
    for index, (x, y) in enumerate(circuit.splitters):
        name = tuple(key(None if w is None else value[w] for w in side[index]) for side in (circuit.ins, circuit.outs))
        want(name in asked, 'colour', f'the splitter at {(x, y)} has the colours {name}, which is no splitter of the network')
        found[name] += 1
        number = cells[y][x]['node']
        want(type(number) is int and 0 <= number < len(asked), 'node', f'the splitter at {(x, y)} has the number {number!r}')
        want(kinds.setdefault(number, name) == name, 'node', f'the number {number} stands for different splitters')
    want(found == asked, 'colour', 'the splitters of the layout are not those of the network')
    want(len(kinds) == len(asked), 'node', 'one splitter of the network has several numbers')
    heads = set(circuit.splitters)
    for y, row in enumerate(cells):
        for x, cell in enumerate(row):
            want(cell['is_splitter_head'] == ((x, y) in heads), 'kind', f'is_splitter_head at {(x, y)}')
            want((x, y) in heads or cell['node'] is None, 'node', f'{(x, y)} has a splitter number')
    counts('wires_compared', len(value))
    counts('splitters_compared', len(heads))


def exact_flow(circuit, backward):
    """{wire: {source: share}} for all the wires the ends can reach, or None."""
    ins, outs, sources = circuit.ins, circuit.outs, sorted(circuit.sources)
    if backward:
        ins, outs, sources = outs, ins, sorted(circuit.sinks)
    consumer = {w: i for i, wires in enumerate(ins) for w in wires if w is not None}
    seen, stack = set(), [consumer[w] for w in sources if w in consumer]
    while stack:
        i = stack.pop()
        if i not in seen:
            seen.add(i)
            stack += [consumer[w] for w in outs[i] if w is not None and w in consumer]
    order = sorted(seen)
    wires = sorted(set(sources) | {w for i in order for side in (ins, outs) for w in side[i] if w is not None})
    return sources, L.flow_matrix([ins[i] for i in order], [outs[i] for i in order], sources, wires)


def judge_flow(cells, n, m, counts):
    """Network-free balancer: the flows are those of the circuit, in a common unit."""
    rows = L.read_layout(cells)
    below = judge_shape(cells, rows, (False, False), counts)
    circuit = L.trace(rows)
    if n == m:
        names = [(False, lambda c: c['flow'], lambda c: c['flow_ux'], lambda c: c['flow_uy'], n - 1)]
    else:
        names = [(back, lambda c, k=k: c[k]['flow'], lambda c, k=k: c[k]['ux'], lambda c, k=k: c[k]['uy'], size)
                 for back, k, size in ((False, 'forward', n), (True, 'backward', m))]
    for backward, on, ux, uy, size in names:
        def numbers(v):
            want(len(v) == size and all(type(c) is int and c >= 0 for c in v), 'type', f'flow {v!r}')
            return tuple(v)
        value = along_wires(rows, circuit, below, lambda x, y: numbers(on(cells[y][x])),
                            lambda x, y, d: numbers((uy if d % 2 else ux)(cells[y][x])))
        sources, flow = exact_flow(circuit, backward)
        if flow is None:
            counts('flows_trapped')
            continue
        # the unit: what one belt that comes in carries; which component belongs to which belt follows from the row it is in
        carried = {w: value[w] for w in sources}
        units = {max(v) for v in carried.values() if v and max(v)}
        if not size:
            continue
        want(len(units) == 1, 'flow', f'belts that come in carry {sorted(carried.values())}')
        unit = units.pop()
        components = {}
        for w, v in carried.items():
            ones = [i for i, c in enumerate(v) if c]
            want(len(ones) <= 1, 'flow', f'a belt that comes in carries {v}')
            components[w] = ones[0] if ones else None
        named = [c for c in components.values() if c is not None]
        want(sorted(named) == list(range(size)), 'flow', f'belts that come in stand for the components {named} of {size}')
        for wire, shares in flow.items():
            if wire not in value:
                continue
            for source, share in shares.items():
                c = components[source]
                if c is not None:
                    want(value[wire][c] == share * unit, 'flow', f'component {c} is {value[wire][c]} where {share} of {unit} flow')
            counts('flows_compared', len(shares))


def judge_power(cells, n, counts):
    """Power of two balancer: a colour is the set of the pairs of inputs that have met."""
    rows = L.read_layout(cells)
    below = judge_shape(cells, rows, (False, False), counts)
    circuit = L.trace(rows)
    value = colours(cells, rows, circuit, below)
    producer = {w: i for i, wires in enumerate(circuit.outs) for w in wires if w is not None}
    origin = {}

    def pairs(wire, depth=0):
        want(depth <= len(circuit.splitters), 'colour', 'the belts go around in a circle')
        if wire not in origin:
            if wire in circuit.sources:
                origin[wire] = 1 << (circuit.sources[wire][1] // 2)
            elif wire in producer:
                origin[wire] = 0
                for w in circuit.ins[producer[wire]]:
                    if w is not None:
                        origin[wire] |= pairs(w, depth + 1)
            else:
                return None
        return origin[wire]
    for wire, v in value.items():
        expect = pairs(wire)
        if expect is not None:
            want(v == expect, 'colour', f'a belt has the colour {v:b}, but comes from {expect:b}')
            counts('wires_compared')
    for (x, y), (index, half) in halves(rows, circuit).items():
        size = bin(value[circuit.ins[index][half]]).count('1')
        for name in ('level', 'level_primary'):
            level = cells[y][x][name]
            want(type(level) is int and 2 ** level == size, 'level', f'the splitter at {(x, y)} has {name} {level!r}, but joins {size} and {size}')
        counts('splitters_compared')
    for x, y, t in L.Board(rows).positions():
        if t[0] != 'S':
            want(cells[y][x]['level'] is None and cells[y][x]['level_primary'] is None, 'level', f'{(x, y)} has a level')


def judge_interchange(cells, counts):
    """Interchange: the colour is the half of the inputs the belt comes from."""
    rows = L.read_layout(cells)
    below = judge_shape(cells, rows, (False, False), counts)
    circuit = L.trace(rows)
    value = colours(cells, rows, circuit, below)
    for wire, (x, y, d) in circuit.sources.items():
        want(value[wire] == int(y >= len(rows) // 2), 'colour', f'the belt that comes in at {(x, y)} has colour {value[wire]}')
        counts('wires_compared')


def judge_block(cells, tile, single, counts):
    """Blocks: with --single-loop the colour counts the tiles from the corner on."""
    rows = L.read_layout(cells)
    wrap = (tile, tile)
    below = judge_shape(cells, rows, wrap, counts)
    board = L.Board(rows, wrap)
    for x, y, t in board.positions():
        for name in ('colour', 'colour_ux', 'colour_uy'):
            v = cells[y][x][name]
            want(type(v) is int and 0 <= v < (board.w * board.h if single else 1), 'type', f'{name} {v!r}')
    if not single:
        return
    x = y = n = 0
    while True:
        want(cells[y][x]['colour'] == n, 'colour', f'{(x, y)} is tile {n} of the loop, but has colour {cells[y][x]["colour"]}')
        t = rows[y][x]
        if t[0] == 'U' and t[2]:
            d = t[1]
            target, k = L.underground_exit(board, x, y)
            for i in range(1, k + 1):
                px, py = board.norm(x + i * L.VEC[d][0], y + i * L.VEC[d][1])
                v = cells[py][px]['colour_uy' if d % 2 else 'colour_ux']
                want(v == n, 'colour', f'{(px, py)} has colour {v} below it, where tile {n} of the loop passes')
            x, y = target
        else:
            d = L.pushes(t)
            x, y = board.norm(x + L.VEC[d][0], y + L.VEC[d][1])
        n += 1
        if (x, y) == (0, 0):
            break
        want(n < board.w * board.h, 'colour', 'the loop does not come back')
    want(n == board.w * board.h, 'colour', f'the loop through the corner has {n} tiles')
    counts('loop_tiles', n)


def run(report, name, argv, lines, judge, files=None, lenient=False):
    for file, text in (files or {}).items():
        with open(file, 'w') as f:
            f.write(text)
    result = core.run_cli(name, argv, max_lines=lines)
    context = {'tool': name, 'argv': [str(a) for a in argv], 'files': files}
    report.count('runs')
    report.count('runs_' + name)
    if gen.crash(result, report, name, context):
        return []
    printed = result.lines
    if result.end == 'truncated' and not result.out.endswith('\n'):
        printed = printed[:-1]
    layouts = []
    for line in printed:
        try:
            cells = json.loads(line)
            rows = L.read_layout(cells)
        except (ValueError, KeyError, TypeError, AttributeError, L.BadTile) as e:
            report.violation('malformed', f'a printed line is not a layout: {e!r}', dict(context, line=line[:2000]))
            return layouts
        layouts.append(rows)
        if L.check_rules(rows, None, ('--tile' in argv,) * 2):
            report.count('layouts_against_the_rules')       # C01
            continue
        context['layout'] = L.show(rows)
        try:
            judge(cells, report.count)
        except Fault as e:
            report.violation(name + ':' + e.args[0], e.args[1], dict(context, line=line[:60000]))
            return layouts
        except KeyError as e:
            report.violation(name + ':missing', f'a tile is printed without {e}', dict(context, line=line[:60000]))
            return layouts
        report.observe((name, gen.freeze(rows)) if any(t[0] in 'US' for row in rows for t in row) else None)
        report.count('layouts_' + name)
    if layouts:
        report.sample({'tool': name, 'argv': context['argv'], 'layout': L.show(layouts[0])}, 1)
    return layouts


def partial_text(rows):
    return json.dumps(L.write_layout(rows))


def balancers(nodes, w, h, options, value, seed):
    core.diversify_solver(seed)
    report = core.Report()
    files = {'net': gen.network_text(nodes)}
    run(report, 'belt_balancer', ['net', w, h, '--underground-length', value, '--all'] + options, 12,
        lambda cells, counts: judge_network(cells, nodes, counts), files)
    return report


def free(w, h, n, m, options, value, seed):
    core.diversify_solver(seed)
    report = core.Report()
    run(report, 'belt_balancer_net_free', [w, h, n, m, '--underground-length', value, '--all'] + options, 10,
        lambda cells, counts: judge_flow(cells, n, m, counts))
    return report


def powers(w, value, key, seed):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    if key is None:
        run(report, 'belt_balancer_net_free_power_of_2', [w, 4, '--underground-length', value, '--all'], 20,
            lambda cells, counts: judge_power(cells, 4, counts))
        return report
    rows = L.unshow(samples.POWER_OF_2[key])
    w, h = L.size(rows)
    keep = rng.choice((0.9, 0.97, 1, 1))
    pins = [[t if rng.random() < keep else L.EMPTY for t in row] for row in rows]
    run(report, 'belt_balancer_net_free_power_of_2', [w, h, '--underground-length', key[1], '--all', '--partial', 'partial'], 6,
        lambda cells, counts: judge_power(cells, h, counts), {'partial': partial_text(pins)})
    return report


def interchanges(w, h, options, value, size, seed):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    argv = [w, h, '--underground-length', value, '--all'] + options
    files = {}
    if size is not None:
        rows = L.unshow(rng.choice(samples.INTERCHANGE[size]))
        if rng.random() < 0.5:
            rows = L.flip_y(rows)
        w, h = L.size(rows)
        keep = rng.choice((0.8, 0.95, 1))
        files = {'partial': partial_text([[t if rng.random() < keep else L.EMPTY for t in row] for row in rows])}
        argv = [w, h, '--underground-length', value, '--all', '--partial', 'partial']
    run(report, 'interchange', argv, 15, lambda cells, counts: judge_interchange(cells, counts), files)
    return report


def blocks(w, h, options, value, seed):
    core.diversify_solver(seed)
    report = core.Report()
    run(report, 'make_block', [w, h, '--underground-length', value, '--all'] + options, 15,
        lambda cells, counts: judge_block(cells, '--tile' in options, '--single-loop' in options, counts))
    return report


def main():
    check = core.Check('C26', 'exploration',
                       'one evaluation = one printed layout with all the values of its tiles compared with the traced circuit; '
                       'trivial = a layout without undergrounds and splitters; distinct = different layouts',
                       ['belts no end of the balancer reaches may carry anything, as long as it is the same all along',
                        'values of tiles no belt uses (the colour of an empty tile) mean nothing'])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block'):
        core.tool(name)
    rng = check.rng
    networks = gen.shipped_networks(check.pick(7, 12))
    deadline = check.budget(45, 500)
    limit = check.pick(8, 40)
    stream = c03.workload(rng, networks)
    tasks = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 4), (4, 2), (4, 4), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1)]
    for i in range(check.pick(250, 5000)):
        for _ in range(2):
            nodes, w, h, options, value = next(stream)
            tasks.append(core.Task(balancers, nodes, w, h, options, value, rng.randrange(1 << 30), timeout=limit, label='balancers'))
        n, m = shapes[i % len(shapes)]
        if (n, m) in c05.GOOD:
            w, h = rng.choice(c05.GOOD[n, m])
        else:
            w, h = rng.randrange(3, 10) if max(n, m) > 1 else rng.randrange(3, 6), max(n, m) + rng.choice((0, 0, 1, 2))
        tasks.append(core.Task(free, w, h, n, m, rng.choice(([], [], ['--aligned'])), rng.choice((2, 3, 4, 4, 6, -1)), rng.randrange(1 << 30),
                               timeout=limit, label='free'))
        tasks.append(core.Task(powers, rng.randrange(6, 13), rng.choice((2, 3, 4, 4, 5, 6, -1)), None if i % 3 == 0 else rng.choice(sorted(samples.POWER_OF_2)),
                               rng.randrange(1 << 30), timeout=limit, label='powers'))
        w, h = rng.choice(c07.BOARDS[:14])
        tasks.append(core.Task(interchanges, w, h, rng.choice(([], [], ['--alternating'], ['--rot-symmetry'])), rng.choice((3, 4, 4, 5, 6)),
                               None if i % 2 else rng.choice(sorted(samples.INTERCHANGE)), rng.randrange(1 << 30), timeout=limit, label='interchanges'))
        options = (['--tile'] if rng.random() < 0.5 else []) + rng.choice((['--single-loop'], ['--single-loop'], ['--single-loop', '--no-parallel'], [],
                                                                           ['--no-parallel'], ['--allow-empty']))
        tasks.append(core.Task(blocks, rng.randrange(1, 7), rng.randrange(1, 7), options, rng.choice((0, 1, 2, 4, 4, 6)),
                               rng.randrange(1 << 30), timeout=limit, label='blocks'))
    check.run(tasks, deadline)
    check.finish(200)
