"""C02: the rule engine admits exactly the legal layouts, each once.

Monitor: everything the grid enumerates is compared with the independent enumerator lib/legal.py,
as sets (nothing missing, nothing extra) and as a sequence (nothing twice).
Workload: complete enumerations of small boards in all edge modes, completions of partly fixed
larger boards, and accept/reject of completely fixed boards (legal ones and one-tile changes).
"""
import random

from lib import core, gen, legal
from lib import layout as L

NONE = (False,) * 4


def tile_object(tile_module, direction_module, t):
    D = direction_module.Direction
    if t[0] == 'B':
        return tile_module.Belt(D(t[1]), D(t[2]))
    if t[0] == 'U':
        return tile_module.UndergroundBelt(D(t[1]), t[2])
    if t[0] == 'S':
        return tile_module.Splitter(D(t[1]), t[2])
    return tile_module.EmptyTile()


def build(w, h, wrap, belts, under, limit, pins=()):
    solver, template = core.tool('solver'), core.tool('template')
    tile, direction = core.tool('tile'), core.tool('direction')
    mode = tuple(template.EdgeMode.WRAP if v else template.EdgeMode.NO_WRAP for v in wrap)
    grid = solver.Grid(w, h, 1, float('inf') if limit is None else limit, edge_mode=mode)
    grid.prevent_intersection()
    grid.prevent_bad_undergrounding()
    grid.enforce_maximum_underground_length()
    if any(belts):
        grid.block_belts_through_edges(belts)
    if any(under):
        grid.block_underground_through_edges(under)
    for x, y, t in pins:
        grid.set_tile(x, y, tile_object(tile, direction, t))
    return grid


def cell_signature(cells):
    return tuple((c['input_direction'], c['output_direction'], bool(c['is_splitter']),
                  bool(c['tile'].get('is_head'))) for row in cells for c in row)


def compare(report, sig, config, rules, allowed, grid, cap, seed):
    """Set comparison of the two enumerations."""
    context = {'config': config}
    mine = {}
    for g in rules.solutions(allowed):
        mine[rules.signature(g)] = gen.freeze(rules.tiles(g))
        if len(mine) > cap:
            report.count('enumerations_too_large')
            return
    core.diversify_solver(seed)
    seen = set()
    for solution in grid.itersolve(ignore_colour=True):
        cells = solution.tolist()
        key = cell_signature(cells)
        rows = L.read_layout(cells)
        report.observe()
        if key in seen:
            report.violation(sig + ':twice', 'a layout was enumerated twice', dict(context, layout=L.show(rows)))
            return
        seen.add(key)
        if key not in mine:
            report.violation(sig + ':illegal', 'an illegal layout was enumerated', dict(context, layout=L.show(rows), cells=key))
            return
        if mine[key] != gen.freeze(rows):
            report.violation(sig + ':tiles', 'the tiles of a layout do not agree with its directions',
                             dict(context, layout=L.show(rows), expected=L.show(mine[key])))
            return
        report.keys.add(core.hash_key((config, key)))
        if len(seen) > cap + 1:
            break
    missing = [k for k in mine if k not in seen]
    report.count('enumerations_compared')
    report.count('legal_layouts', len(mine))
    if missing:
        report.violation(sig + ':missing', f'{len(missing)} of {len(mine)} legal layouts were not enumerated',
                         dict(context, layout=L.show(mine[missing[0]]), cells=missing[0]))


def enumerate_board(w, h, wrap, belts, under, limit, cap, seed):
    report = core.Report()
    rules = legal.Rules(w, h, wrap, limit=limit, block_belts=belts, block_under=under)
    config = (w, h, wrap, belts, under, limit)
    compare(report, 'enumerate', config, rules, None, build(w, h, wrap, belts, under, limit), cap, seed)
    report.sample({'board': config, 'counts': dict(report.counts)}, 1)
    return report


def random_config(rng):
    wrap = rng.choice(((False, False),) * 4 + ((True, False), (False, True), (True, True)))
    limit = rng.choice((1, 1, 2, 3, 4, 5, 6, None))
    belts = rng.choice((NONE, (True,) * 4, tuple(rng.random() < 0.5 for _ in range(4))))
    under = rng.choice((NONE, (True,) * 4, belts, tuple(rng.random() < 0.5 for _ in range(4))))
    # blocking an edge that wraps is not a board one can ask for
    belts = tuple(b and not wrap[i % 2] for i, b in enumerate(belts))
    under = tuple(b and not wrap[i % 2] for i, b in enumerate(under))
    return wrap, belts, under, limit


def large_board(rng):
    wrap, belts, under, limit = random_config(rng)
    w, h = rng.randrange(1, 9), rng.randrange(1, 9)
    if wrap[0] and wrap[1]:
        w, h = min(w, 5), min(h, 5)
    return w, h, wrap, belts, under, limit


def random_layout(rng, w, h, wrap, belts, under, limit):
    rules = legal.Rules(w, h, wrap, limit=limit, block_belts=belts, block_under=under)
    empty = 1 << legal.INDEX[('E', None, None, False)]
    for density in (rng.choice((0.0, 0.2, 0.5)), 0.5, 0.8):
        allowed = {(x, y): empty for x in range(w) for y in range(h) if rng.random() < density}
        for g in rules.solutions(allowed, rng, 15000):
            return rules, rules.tiles(g)
    return rules, None


def huge_board(rng):
    """A board beyond the usual sizes: pieces of closed layouts, long lines and long undergrounds on empty ground."""
    wrap, belts, under, limit = random_config(rng)
    limit = rng.choice((limit, rng.randrange(5, 15)))
    w, h = rng.choice(((rng.randrange(9, 45), rng.randrange(1, 5)), (rng.randrange(1, 5), rng.randrange(9, 45)),
                       (rng.randrange(9, 21), rng.randrange(9, 21)), (rng.randrange(20, 33), rng.randrange(9, 14))))
    rows = [[L.EMPTY] * w for _ in range(h)]
    closed = (True,) * 4
    for _ in range(rng.randrange(1, 6)):
        pw, ph = min(w, rng.randrange(2, 7)), min(h, rng.randrange(2, 6))
        x0, y0 = rng.choice((0, w - pw, rng.randrange(w - pw + 1))), rng.choice((0, h - ph, rng.randrange(h - ph + 1)))
        if any(rows[y0 + j][x0 + i] != L.EMPTY for i in range(pw) for j in range(ph)):
            continue
        _, piece = random_layout(rng, pw, ph, (False, False), closed, closed, limit)
        if piece is not None:
            for j in range(ph):
                rows[y0 + j][x0:x0 + pw] = piece[j]
    for _ in range(rng.randrange(0, 4)):
        d = rng.randrange(4)
        along, across = (w, h) if d % 2 == 0 else (h, w)
        k = rng.randrange(across)
        line = [(i, k) if d % 2 == 0 else (k, i) for i in range(along)]
        if d in (1, 2):
            line.reverse()
        if any(rows[y][x] != L.EMPTY for x, y in line):
            continue
        tiles = [('B', d, d)] * along
        gap = rng.choice((limit or 9, (limit or 9) + 1, rng.randrange(1, 12)))
        if along >= gap + 2 and rng.random() < 0.8:
            start = rng.choice((0, along - gap - 2, rng.randrange(along - gap - 1)))
            tiles[start], tiles[start + gap + 1] = ('U', d, True), ('U', d, False)
            for i in range(start + 1, start + gap + 1):
                tiles[i] = L.EMPTY
        for (x, y), t in zip(line, tiles):
            rows[y][x] = t
    config = (w, h, wrap, belts, under, limit)
    return config, legal.Rules(w, h, wrap, limit=limit, block_belts=belts, block_under=under), rows


def huge(seed, rounds):
    """Completely or almost completely fixed large boards."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        config, rules, rows = huge_board(rng)
        w, h = config[:2]
        report.count('large_boards')
        if rng.random() < 0.6:
            judge(report, config, rules, change(rng, w, h, rows, rng.randrange(4)))
        else:
            x0, y0 = rng.choice((0, w - 1, rng.randrange(w))), rng.choice((0, h - 1, rng.randrange(h)))
            cells = [(x, y) for x in range(max(0, x0 - 1), min(w, x0 + 2)) for y in range(max(0, y0 - 1), min(h, y0 + 1))]
            pins = [(x, y, rows[y][x]) for y in range(h) for x in range(w) if (x, y) not in cells]
            allowed = {(x, y): sum(1 << i for i in legal.states_of_tile(t)) for x, y, t in pins}
            compare(report, 'complete', config + (tuple(pins),), rules, allowed, build(*config, pins), 500, rng.randrange(1 << 30))
    return report


def complete(seed, rounds):
    """Completions of boards of which all but a few tiles are fixed."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        config = large_board(rng)
        w, h = config[:2]
        rules, rows = random_layout(rng, *config)
        if rows is None:
            continue
        # an open window
        if rng.random() < 0.5:
            cells = rng.sample([(x, y) for x in range(w) for y in range(h)], min(w * h, rng.randrange(1, 7)))
        else:
            x0, y0 = rng.randrange(w), rng.randrange(h)
            ww, hh = rng.choice(((2, 2), (3, 1), (1, 3), (4, 1), (1, 4), (3, 2), (2, 3), (5, 1), (1, 5)))
            cells = [(x, y) for x in range(x0, min(w, x0 + ww)) for y in range(y0, min(h, y0 + hh))]
        pins = [(x, y, rows[y][x]) for y in range(h) for x in range(w) if (x, y) not in cells]
        allowed = {(x, y): sum(1 << i for i in legal.states_of_tile(t)) for x, y, t in pins}
        compare(report, 'complete', config + (tuple(pins),), rules, allowed, build(*config, pins), 3000, rng.randrange(1 << 30))
    return report


TILES = ([L.EMPTY] + [('B', a, b) for a in range(4) for b in range(4) if a != L.opp(b)]
         + [('U', d, e) for d in range(4) for e in (False, True)] + [('S', d, e) for d in range(4) for e in (False, True)])


def change(rng, w, h, rows, kind):
    rows = [list(r) for r in rows]
    if kind == 1:
        x, y = rng.randrange(w), rng.randrange(h)
        rows[y][x] = rng.choice(TILES)
    elif kind == 2:     # shift an underground end along its line
        ends = [(x, y) for y in range(h) for x in range(w) if rows[y][x][0] == 'U']
        if ends:
            x, y = rng.choice(ends)
            d = rows[y][x][1]
            k = rng.choice((1, -1))
            nx, ny = x + k * L.VEC[d][0], y + k * L.VEC[d][1]
            if 0 <= nx < w and 0 <= ny < h:
                rows[ny][nx], rows[y][x] = rows[y][x], rng.choice((L.EMPTY, ('B', d, d)))
    elif kind == 3:     # turn a tile
        full = [(x, y) for y in range(h) for x in range(w) if rows[y][x][0] != 'E']
        if full:
            x, y = rng.choice(full)
            t = rows[y][x]
            if t[0] == 'B':
                rows[y][x] = rng.choice([u for u in TILES if u[0] == 'B' and (u[1] == t[1] or u[2] == t[2])])
            else:
                rows[y][x] = rng.choice([u for u in TILES if u[0] == t[0]])
    return rows


def judge(report, config, rules, rows):
    expected = rules.admits(rows)
    if expected is None:
        return
    w, h = config[:2]
    pins = [(x, y, rows[y][x]) for y in range(h) for x in range(w)]
    got = build(*config, pins).check()
    report.observe((config, gen.freeze(rows)))
    report.count('fixed_legal' if expected else 'fixed_illegal')
    if bool(got) != expected:
        report.violation('fixed:' + ('rejected' if expected else 'accepted'),
                         'a legal layout was rejected' if expected else 'an illegal layout was accepted',
                         {'config': config, 'layout': L.show(rows)})


def accept(seed, rounds):
    """Completely fixed boards: accepted if and only if legal."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        config = large_board(rng)
        w, h = config[:2]
        rules, rows = random_layout(rng, *config)
        if rows is not None:
            judge(report, config, rules, change(rng, w, h, rows, rng.randrange(4)))
    return report


def main():
    check = core.Check('C02', 'exploration',
                       'boards are enumerated by the code under test and by an independent enumerator; evaluations = layouts '
                       'enumerated or completely fixed boards judged; distinct = different (board, layout) pairs, all non-trivial '
                       'as each one is decided by both sides',
                       ['the SAT solver answers correctly'])
    for name in ('solver', 'template', 'tile', 'direction'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(60, 700)
    T4 = (True,) * 4
    fixed = [(2, 2, (False, False), NONE, NONE, 4), (1, 4, (False, False), NONE, NONE, 1), (4, 1, (False, False), NONE, NONE, 2),
             (1, 4, (False, False), NONE, NONE, 2), (4, 1, (False, False), NONE, NONE, 1),
             (3, 3, (False, False), T4, T4, 4), (4, 4, (False, False), T4, T4, 1), (4, 4, (False, False), T4, T4, 2),
             (4, 4, (False, False), T4, T4, None), (5, 3, (False, False), T4, T4, 2), (3, 5, (False, False), T4, T4, 2),
             (5, 4, (False, False), T4, T4, 3), (4, 5, (False, False), T4, T4, 4),
             (6, 3, (False, False), T4, T4, 3), (3, 6, (False, False), T4, T4, 4),
             (2, 2, (True, True), NONE, NONE, 4), (3, 2, (True, True), NONE, NONE, 4), (2, 3, (True, True), NONE, NONE, 1),
             (1, 1, (True, True), NONE, NONE, 4), (1, 3, (True, True), NONE, NONE, 4), (3, 1, (True, True), NONE, NONE, 1),
             (5, 1, (True, True), NONE, NONE, None), (1, 5, (True, True), NONE, NONE, 1), (4, 2, (True, True), NONE, NONE, 2),
             (2, 2, (True, False), NONE, NONE, 2), (2, 2, (False, True), NONE, NONE, 1)]
    cap = check.pick(9000, 60000)
    tasks = [core.Task(enumerate_board, *c, cap, rng.randrange(1 << 30), timeout=check.pick(25, 200), label='enumerate') for c in fixed]
    for _ in range(check.pick(60, 600)):
        wrap, belts, under, limit = random_config(rng)
        blocked = sum(belts)
        while True:
            w, h = rng.randrange(1, 7), rng.randrange(1, 7)
            if w * h <= (4 if blocked < 2 else 6 if blocked < 4 else 14):
                break
        tasks.append(core.Task(enumerate_board, w, h, wrap, belts, under, limit, cap, rng.randrange(1 << 30),
                               timeout=check.pick(25, 200), label='enumerate'))
    more = []
    for _ in range(check.pick(120, 2500)):
        more.append(core.Task(complete, rng.randrange(1 << 30), 12, timeout=60, label='complete'))
        more.append(core.Task(accept, rng.randrange(1 << 30), 25, timeout=60, label='accept'))
        more.append(core.Task(huge, rng.randrange(1 << 30), 12, timeout=60, label='huge'))
    # interleave
    order = list(tasks)
    for i, t in enumerate(more):
        order.insert(min(len(order), 3 * i), t)
    check.run(order, deadline)
    check.finish(500)
