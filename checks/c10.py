"""C10: pinned tiles are honoured and valid complete layouts accepted.

Monitor: the layouts printed with a partial layout are compared with those printed without it,
filtered by the pins.
"""
import json
import random

from lib import bp, core, ends, gen, stretch
from lib import layout as L

TILES = ([('B', a, b) for a in range(4) for b in range(4) if a != L.opp(b)]
         + [('U', d, e) for d in range(4) for e in (False, True)] + [('S', d, e) for d in range(4) for e in (False, True)])


def choose(rng):
    """(tool, argv without partial, text of the network or None, board)"""
    kind = rng.choice(('net', 'net', 'net', 'custom', 'free', 'power', 'interchange'))
    limit = rng.choice((1, 2, 3, 4, 4, 6, -1))
    if kind in ('net', 'custom'):
        nodes = rng.choice(list(gen.shipped_networks(3).values())) if rng.random() < 0.5 else gen.random_network(rng, 3)
        (_, n), (_, m) = L.network_terminals(nodes)
        mode = rng.choice(('straight', 'straight', '90', '180')) if kind == 'net' else 'custom'
        options = {'straight': rng.choice(([], ['--use-ends'], ['--aligned'])), '90': rng.choice((['--90'], ['--90', '--use-ends'])),
                   '180': ['--180'], 'custom': ['--custom']}[mode]
        options += rng.choice(([], [], [], ['--fast'], ['--glue-splitters'], ['--expand-underground'], ['--prevent-bad-patterns'],
                               ['--edge-belts']))
        if mode == 'straight':
            w, h = rng.randrange(3, 7), max(n, m, 2) + rng.randrange(2)
        elif mode == '90':
            w, h = m + 1 + rng.randrange(3), n + 1 + rng.randrange(2)
        elif mode == '180':
            w, h = rng.randrange(2, 6), n + m + rng.randrange(2)
        else:
            w, h = rng.randrange(1, 5), rng.randrange(1, 4)
            if w * h < 2 * len(nodes):
                w, h = len(nodes), 2
            if w < 2:
                w = 2
        if w < 3 and mode != 'custom':
            w = 3
        return 'belt_balancer', ['net', w, h] + options + ['--underground-length', limit], gen.network_text(nodes), (w, h)
    if kind == 'free':
        n, m = rng.choice(((1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (2, 4), (4, 4)))
        w, h = rng.randrange(3, 8), max(n, m) + rng.randrange(2)
        return 'belt_balancer_net_free', [w, h, n, m, '--underground-length', limit], None, (w, h)
    if kind == 'power':
        w = rng.randrange(6, 10)
        return 'belt_balancer_net_free_power_of_2', [w, 4, '--underground-length', limit], None, (w, 4)
    w, h = rng.choice(((2, 2), (3, 2), (4, 2), (6, 4), (7, 4), (8, 4), (6, 6)))
    return 'interchange', [w, h, '--underground-length', max(limit, 1)] + rng.choice(([], ['--alternating'], ['--rot-symmetry'])), None, (w, h)


def call(report, tool, argv, network, lines, partial_text=None, free=False):
    if network is not None:
        with open('net', 'w') as f:
            f.write(network)
    argv = argv + ['--all']
    if partial_text is not None:
        with open('partial', 'w') as f:
            f.write(partial_text)
        argv = argv + ['--partial', 'partial']
    run = core.run_cli(tool, argv, max_lines=lines)
    report.count('runs')
    context = {'tool': tool, 'argv': [str(a) for a in argv], 'network': network, 'partial_text': partial_text and partial_text[:3000]}
    if free and run.failed:         # impossible boards may be refused; what matters is what pins change
        report.count('requests_refused')
        return None, context, run
    if gen.crash(run, report, tool, context):
        return None, context, run
    return [gen.freeze(r) for r in gen.parse_lines(run, report, tool, context)], context, run


def agrees(rows, pins):
    for y, row in enumerate(pins):
        for x, t in enumerate(row):
            if t[0] == 'E':
                continue
            if t[0] == 'F':
                if rows[y][x] != L.EMPTY:
                    return False
            elif rows[y][x] != t:
                return False
    return True


def make_pins(rng, rows, w, h):
    kind = rng.random()
    keep = rng.choice((0.1, 0.3, 0.5, 0.8, 1.0))
    pins = [[t if rng.random() < keep else L.EMPTY for t in row] for row in rows]
    if kind < 0.25:      # one tile that need not fit
        pins[rng.randrange(h)][rng.randrange(w)] = rng.choice(TILES)
    elif kind < 0.4:     # filler: this place has to stay empty
        for y in range(h):
            for x in range(w):
                if rows[y][x] == L.EMPTY and rng.random() < 0.3 or rng.random() < 0.02:
                    pins[y][x] = ('F',)
    elif kind < 0.5:     # a smaller piece than the board
        hh, ww = rng.randrange(1, h + 1), rng.randrange(1, w + 1)
        pins = [list(row[:ww]) for row in pins[:hh]]
    return pins


def as_blueprint(rng, rows):
    """(text, pins): the pins as the game would show the blueprint, or None."""
    entities = bp.entities_of(rows)
    if not entities:
        return None
    keep = rng.choice((0.4, 0.8, 1.0))
    entities = [e for e in entities if rng.random() < keep]
    rng.shuffle(entities)
    if not entities:
        return None
    cells = {}
    for name, x, y, d, kind in entities:
        d = bp.FROM_GAME[d]
        if name in bp.BELTS:
            cells[int(x // 1), int(y // 1)] = ('B', d, d)
        elif name in bp.UNDERS:
            cells[int(x // 1), int(y // 1)] = ('U', d, kind == 'input')
        else:
            dx, dy = L.VEC[L.left_of(d)]
            cells[int((x - dx / 2) // 1), int((y - dy / 2) // 1)] = ('S', d, True)
            cells[int((x + dx / 2) // 1), int((y + dy / 2) // 1)] = ('S', d, False)
    x0, y0 = min(x for x, _ in cells), min(y for _, y in cells)
    x1, y1 = max(x for x, _ in cells), max(y for _, y in cells)
    pins = [[cells.get((x, y), L.EMPTY) for x in range(x0, x1 + 1)] for y in range(y0, y1 + 1)]
    pins = bp.shape_belts(pins)
    offset = rng.choice(((0, 0), (0, 0), (-7, 3), (100, -250), (-1, -1)))
    level = rng.choice(list(bp.NAMES))
    names = dict(zip(bp.NAMES['normal'], bp.NAMES[level]))
    entities = [(names[e[0]],) + e[1:] for e in entities]
    return bp.pack(bp.make(entities, offset, rng.choice((None, 'x')))), pins


def work(seed, cap, rounds):
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    tool, argv, network, (w, h) = choose(rng)
    base, context, run = call(report, tool, argv, network, cap, free=True)
    if base is None or not base:
        report.count('requests_without_layout')
        return report
    whole = run.end != 'truncated'
    report.count('complete_bases' if whole else 'capped_bases')
    report.count('tool_' + tool)
    for _ in range(rounds):
        rows = rng.choice(base)
        form = 'json'
        made = as_blueprint(rng, rows) if rng.random() < 0.35 else None
        if made is not None:
            text, pins = made
            text += rng.choice(('', '\n'))
            form = 'blueprint'
            source_fits = agrees(rows, pins)
        else:
            pins = make_pins(rng, rows, w, h)
            cells = L.write_layout(pins)
            text = rng.choice((json.dumps(cells), json.dumps(cells, indent=rng.choice((1, 4))), json.dumps(cells, separators=(',', ':')),
                               '[' + ',\n '.join(json.dumps(row) for row in cells) + ']'))
            text += rng.choice(('', '\n', '\n', ' \n\n'))
            source_fits = agrees(rows, pins)
        number = sum(t[0] != 'E' for row in pins for t in row)
        got, context, run = call(report, tool, argv, network, len(base) + 20 if whole else 25, text)
        if got is None:
            return report
        context['pins'] = L.show(pins)
        report.observe(('pins', tool, tuple(map(str, argv)), network, gen.freeze(pins)) if number else None)
        report.count('pins', number)
        report.count('form_' + form)
        for r in got:
            report.count('layouts_checked')
            if not agrees(r, pins):
                report.violation('ignored', 'a printed layout does not contain the pinned tiles', dict(context, layout=L.show(r)))
                return report
        if source_fits and not got:
            report.violation('rejected', 'nothing is printed although the pins are part of a printed layout',
                             dict(context, layout=L.show(rows)))
            return report
        if whole and run.end != 'truncated':
            expected = {r for r in base if agrees(r, pins)}
            report.count('sets_compared')
            if not expected:
                report.count('contradicting_pins')
            lost, extra = expected - set(got), set(got) - expected
            if lost or extra:
                report.violation('set', f'{len(lost)} layouts lost and {len(extra)} new ones with the pins',
                                 dict(context, layout=L.show(min(lost or extra))))
                return report
            # with --custom a splitter at the edge may or may not be connected to the outside: same tiles, two layouts
            if '--custom' not in argv and len(set(got)) != len(got):
                report.violation('twice', 'a layout is printed twice with pins', context)
                return report
        report.sample({'tool': tool, 'argv': context['argv'], 'pins': L.show(pins), 'printed': len(got), 'form': form}, 1)
    return report


def stretched_request(rng, report, widths=(12, 40), heights=(8, 26)):
    """(network text, options, layout) of a request on a large board, or None."""
    nodes = rng.choice(list(gen.shipped_networks(5).values())) if rng.random() < 0.6 else gen.random_network(rng, 3)
    (_, n), (_, m) = L.network_terminals(nodes)
    mode = rng.choice(('straight', 'straight', '90', '180'))
    options = {'straight': [], '90': ['--90'], '180': ['--180']}[mode] + (['--use-ends'] if mode != '180' else [])
    h = (n + m if mode == '180' else max(n, m, 2)) + rng.randrange(0, 2)
    w = max(4, 2 + (2 * len(nodes)) // h + rng.randrange(1, 4), m + 1 if mode == '90' else 0)
    network = gen.network_text(nodes)
    base, context, run = call(report, 'belt_balancer', ['net', w, h] + options, network, 10, free=True)
    if not base:
        return None
    rows = stretch.stretched(rng, rng.choice(base), rng.randrange(*widths), rng.choice((1, rng.randrange(*heights))))
    circuit = L.trace(rows)
    if L.check_rules(rows, None) or ends.end_faults(rows, circuit, n, m, mode, True) or not L.matches_network(circuit, nodes):
        return None
    return network, options, rows


def large(seed, rounds):
    """Pieces of stretched layouts on large boards: the layout they come from shows that they can be completed."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        request = stretched_request(rng, report)
        if request is None:
            continue
        network, options, rows = request
        w, h = L.size(rows)
        # mostly pinned; with everything pinned, emptiness too, there is only one answer
        keep = rng.choice((1.0, 0.97, 0.9))
        pins = [[(t if t != L.EMPTY else ('F',)) if rng.random() < keep else L.EMPTY for t in row] for row in rows]
        if rng.random() < 0.3:      # and something that does not fit
            pins[rng.choice((0, h - 1, rng.randrange(h)))][rng.choice((0, w - 1, rng.randrange(w)))] = rng.choice(TILES)
        argv = ['net', w, h, '--underground-length', -1] + options
        got, context, run = call(report, 'belt_balancer', argv, network, 6, json.dumps(L.write_layout(pins)))
        if got is None:
            return report
        context['pins'] = L.show(pins)
        report.observe(('large', tuple(map(str, argv)), network, gen.freeze(pins)))
        report.count('large_partials')
        for r in got:
            if not agrees(r, pins):
                report.violation('ignored', 'a printed layout does not contain the pinned tiles', dict(context, layout=L.show(r)))
                return report
        if not got and agrees(rows, pins) and not idle(rows):
            report.violation('rejected', 'nothing is printed although the pins are part of a layout', dict(context, layout=L.show(rows)))
            return report
    return report


def idle(rows):
    """An underground passing below nothing but empty tiles: such layouts are left out."""
    board = L.Board(rows)
    for x, y, t in board.positions():
        if t[0] == 'U' and t[2]:
            target, n = L.underground_exit(board, x, y)
            dx, dy = L.VEC[t[1]]
            if target is not None and all(rows[y + dy * k][x + dx * k] == L.EMPTY for k in range(1, n + 1)):
                return True
    return False


def main():
    check = core.Check('C10', 'exploration',
                       'one evaluation = one partial layout given to a generator; non-trivial = it pins at least one tile; distinct = '
                       'different (request, pins)', [])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(60, 600)
    tasks = [core.Task(work, rng.randrange(1 << 30), check.pick(400, 3000), check.pick(6, 15), timeout=check.pick(14, 100), label='pins')
             for _ in range(check.pick(900, 8000))]
    for i in range(check.pick(60, 1000)):
        tasks.insert(min(len(tasks), 8 * i), core.Task(large, rng.randrange(1 << 30), 4, timeout=40, label='large'))
    check.run(tasks, deadline)
    check.finish(150)
