"""C08: belt blocks are closed or tilable, filled, and complete.

Monitor: everything the block maker prints for a board is compared with an independent enumeration
of the blocks the options allow (both ways); on larger boards every printed block is judged.
"""
import json
import random

from lib import core, features, gen, legal
from lib import layout as L

FULL = sum(1 << i for i, s in enumerate(legal.STATES) if s[0] != 'E')
EMPTY = features.EMPTY_MASK
SURFACE = sum(1 << i for i, s in enumerate(legal.STATES) if s[0] not in 'IO')


def spans(board):
    """[(direction, [tiles passed below])] of every underground."""
    result = []
    for x, y, t in board.positions():
        if t[0] == 'U' and t[2]:
            target, n = L.underground_exit(board, x, y)
            dx, dy = L.VEC[t[1]]
            result.append((t[1], [board.norm(x + dx * k, y + dy * k) for k in range(1, n + 1)]))
    return result


def idle_underground(board):
    return any(all(board.rows[y][x] == L.EMPTY for x, y in cells) for _, cells in spans(board))


def parallel(board):
    """Two undergrounds of the same axis passing below neighbouring tiles side by side."""
    below = (set(), set())
    for d, cells in spans(board):
        below[d % 2].update(cells)
    for axis in (0, 1):
        dx, dy = L.VEC[(axis + 1) % 2]
        for x, y in below[axis]:
            if board.at(x + dx, y + dy) is not None and board.norm(x + dx, y + dy) in below[axis]:
                return True
    return False


def small_loop(board):
    for x, y, t in board.positions():
        for turn in (1, -1):
            px, py = x, y
            if t[0] != 'B':
                break
            ok = True
            for _ in range(4):
                u = board.at(px, py)
                if u is None or u[0] != 'B' or (u[2] - u[1]) % 4 != turn % 4:
                    ok = False
                    break
                px, py = px + L.VEC[u[2]][0], py + L.VEC[u[2]][1]
                if board.at(px, py) is not None:
                    px, py = board.norm(px, py)
            if ok and (px, py) == (x, y):
                return True
    return False


def loop_length(board):
    """Number of tiles on the loop through (0, 0)."""
    x = y = n = 0
    while True:
        t = board.rows[y][x]
        n += 1
        if t[0] == 'U' and t[2]:
            (x, y), _ = L.underground_exit(board, x, y)
        else:
            d = L.pushes(t)
            x, y = board.norm(x + L.VEC[d][0], y + L.VEC[d][1])
        if (x, y) == (0, 0) or n > board.w * board.h:
            return n


def block_faults(rows, tile, options, limit):
    """Texts: why this is not a block that was asked for."""
    w, h = L.size(rows)
    kinds = {t[0] for row in rows for t in row}
    if not kinds <= set('BUE'):
        return ['holds something else than belts and undergrounds']
    if 'E' in kinds and '--allow-empty' not in options:
        return ['has an empty tile']
    faults = L.check_rules(rows, limit, (tile, tile))
    if faults:
        return [str(faults[0])]
    if not tile:
        circuit = L.trace(rows)
        if circuit.sources or circuit.sinks:
            return ['a belt crosses the edge']
    board = L.Board(rows, (tile, tile))
    if limit == 0 and 'U' in kinds:
        return ['has undergrounds']
    if '--no-parallel' in options and parallel(board):
        return ['has parallel undergrounds']
    if '--single-loop' in options and loop_length(board) != w * h:
        return [f'the loop through the corner has only {loop_length(board)} tiles']
    return []


def invoke(report, w, h, tile, options, limit, everything, lines, seed, to_file=False):
    core.diversify_solver(seed)
    argv = [w, h, '--underground-length', limit] + (['--tile'] if tile else []) + options + (['--all'] if everything else [])
    if to_file:
        argv += ['--output', 'blocks']
    result = core.run_cli('make_block', argv, max_lines=lines)
    context = {'argv': [str(a) for a in argv]}
    report.count('runs')
    if gen.crash(result, report, 'make_block', context):
        return None, context, result
    if to_file:
        if result.out:
            report.violation('output', 'printed to standard output although a file was asked for', dict(context, run=result.describe()))
        with open('blocks') as f:
            result.out = f.read()
    layouts = gen.parse_lines(result, report, 'make_block', context)
    for rows in layouts:
        report.observe(('block', w, h, tile, gen.freeze(rows)) if any(t[0] == 'U' for r in rows for t in r) or w * h > 4 else None)
        report.count('blocks')
        if L.size(rows) != (w, h):
            report.violation('size', f'block is {L.size(rows)}', dict(context, layout=L.show(rows)))
            return None, context, result
        faults = block_faults(rows, tile, options, limit)
        if faults:
            report.violation('block', faults[0], dict(context, layout=L.show(rows)))
            return None, context, result
    seen = {gen.freeze(rows) for rows in layouts}
    if len(seen) != len(layouts):
        report.violation('twice', f'{len(layouts) - len(seen)} blocks were printed twice', context)
        return None, context, result
    return seen, context, result


def exact(w, h, tile, options, limit, cap, seed):
    report = core.Report()
    rng = random.Random(seed)
    mask = -1
    if '--allow-empty' not in options:
        mask &= FULL
    if limit == 0:
        mask &= SURFACE
    rules = legal.Rules(w, h, wrap=(tile, tile), block=(not tile,) * 4, limit=limit or 1, splitters=False)
    allowed = {(x, y): mask for x in range(w) for y in range(h)}
    required = set()
    tolerated = 0
    for grid in rules.solutions(allowed, max_nodes=cap * 400):
        rows = rules.tiles(grid)
        if any(t[0] == 'S' for row in rows for t in row):
            continue
        board = L.Board(rows, (tile, tile))
        if '--no-parallel' in options and parallel(board):
            continue
        if '--single-loop' in options and loop_length(board) != w * h:
            continue
        if idle_underground(board) or small_loop(board):
            tolerated += 1
            continue
        required.add(gen.freeze(rows))
        if len(required) > cap:
            report.count('enumerations_too_large')
            return report
    if not rules.exhausted:
        report.count('enumerations_too_large')
        return report
    seen, context, result = invoke(report, w, h, tile, options, limit, True, 5 * cap, seed, rng.random() < 0.2)
    if seen is None:
        return report
    if result.end == 'truncated':
        report.count('enumerations_too_large')
        return report
    missing = required - seen
    report.count('boards_compared')
    report.count('required_blocks', len(required))
    report.count('blocks_left_out_by_choice', tolerated)
    report.observe(('board', w, h, tile, tuple(options), limit))
    if missing:
        report.violation('missing', f'{len(missing)} of {len(required)} blocks were not printed',
                         dict(context, layout=L.show(sorted(missing)[0])))
        return report
    one, context, result = invoke(report, w, h, tile, options, limit, False, None, seed + 1)
    if one is not None and len(one) != (1 if seen else 0):
        report.violation('one', f'{len(one)} blocks printed without --all, {len(seen)} with', context)
    report.sample({'argv': context['argv'], 'blocks': len(seen)}, 1)
    return report


def large(w, h, tile, options, limit, seed):
    report = core.Report()
    seen, context, _ = invoke(report, w, h, tile, options, limit, True, 20, seed)
    if seen:
        report.sample({'argv': context['argv'], 'layout': L.show(min(seen))}, 1)
    return report


def cycle(rng, w, h):
    """A closed line of belts through every tile of an even-sided board: around a random tree on its quarters."""
    a, b = w // 2, h // 2
    inside, edges = {(rng.randrange(a), rng.randrange(b))}, set()
    while len(inside) < a * b:
        x, y = rng.choice(sorted(inside))
        dx, dy = L.VEC[rng.randrange(4)]
        if 0 <= x + dx < a and 0 <= y + dy < b and (x + dx, y + dy) not in inside:
            inside.add((x + dx, y + dy))
            edges.add(((x, y), (x + dx, y + dy)))
            edges.add(((x + dx, y + dy), (x, y)))

    def open_between(p, q):
        """May the line step from p to q: within a quarter unless that crosses the tree, between quarters along it."""
        (px, py), (qx, qy) = p, q
        if not (0 <= qx < w and 0 <= qy < h):
            return False
        cp, cq = (px // 2, py // 2), (qx // 2, qy // 2)
        if cp != cq:
            return (cp, cq) in edges
        if px == qx:        # vertical step inside a quarter: crosses the edge to the side the pair lies on
            side = (cp[0] + (1 if px % 2 else -1), cp[1])
        else:
            side = (cp[0], cp[1] + (1 if py % 2 else -1))
        return (cp, side) not in edges
    path, came = [(0, 0)], None
    while True:
        here = path[-1]
        steps = [(here[0] + dx, here[1] + dy) for dx, dy in L.VEC]
        steps = [q for q in steps if q != came and open_between(here, q)]
        nxt = steps[0] if came is None else steps[0]
        if nxt == (0, 0) or len(path) > w * h:
            break
        came = here
        path.append(nxt)
    assert len(set(path)) == len(path) == w * h
    if rng.random() < 0.5:
        path.reverse()
    rows = [[None] * w for _ in range(h)]
    for i, (x, y) in enumerate(path):
        (px, py), (qx, qy) = path[i - 1], path[(i + 1) % len(path)]
        rows[y][x] = ('B', L.VEC.index((x - px, y - py)), L.VEC.index((qx - x, qy - y)))
    return rows


def construct(rng, tile, options, limit):
    """A legal block, most of the time one that the options allow, or None."""
    if '--single-loop' in options and rng.random() < 0.3:
        w, h = 2 * rng.randrange(1, 5), 2 * rng.randrange(1, 5)
        return cycle(rng, w, h) if w * h > 4 else None
    empty = '--allow-empty' in options or rng.random() < 0.1
    if rng.random() < 0.15:
        limit += rng.choice((1, 1, 2))
    w, h = rng.choice(((rng.randrange(1, 10), rng.randrange(1, 10)), (rng.randrange(3, 6), rng.randrange(3, 6))))
    mask = -1 if empty else FULL
    mask &= SURFACE if limit == 0 else -1
    rules = legal.Rules(w, h, wrap=(tile, tile), block=(not tile,) * 4, limit=limit or 1, splitters=False)
    for _ in range(8):
        density = rng.choice((0, 0.2, 0.5, 0.7)) if empty else 0
        allowed = {(x, y): EMPTY if rng.random() < density else mask for x in range(w) for y in range(h)}
        if limit and rng.random() < 0.7:
            feature = features.long_underground(rng, w, h, limit)
            if feature is not None:
                if not empty:
                    feature = {cell: m if m != EMPTY else -1 for cell, m in feature.items()}
                allowed = {cell: feature.get(cell, m) & mask for cell, m in allowed.items()}
        for grid in rules.solutions(allowed, rng, 2000):
            rows = rules.tiles(grid)
            if any(t[0] == 'S' for row in rows for t in row) or idle_underground(L.Board(rows, (tile, tile))):
                break
            if tile:
                dx, dy = rng.randrange(w), rng.randrange(h)
                below = {}
                for d, cells in spans(L.Board(rows, (True, True))):
                    for cell in cells:
                        below.setdefault(cell, set()).add(d % 2)
                if below and rng.random() < 0.7:    # the corner above as many undergrounds as there are
                    most = max(len(axes) for axes in below.values())
                    dx, dy = rng.choice(sorted(cell for cell, axes in below.items() if len(axes) == most))
                rows = [[rows[(y + dy) % h][(x + dx) % w] for x in range(w)] for y in range(h)]
            return rows
    return None


def pinned(seed, rounds):
    """Blocks constructed without the tool: with all its tiles given, it has to print exactly those the options allow."""
    rng = random.Random(seed)
    report = core.Report()
    original = core.tool('solver').Grid.itersolve
    for _ in range(rounds):
        tile = rng.random() < 0.5
        options = rng.choice(([], [], ['--single-loop'], ['--no-parallel'], ['--allow-empty'], ['--single-loop', '--no-parallel'],
                              ['--allow-empty', '--no-parallel']))
        limit = rng.choice((0, 1, 2, 3, 4, 5, 6, 8))
        rows = construct(rng, tile, options, limit)
        if rows is None:
            report.count('constructions_failed')
            continue
        w, h = L.size(rows)
        faults = block_faults(rows, tile, options, limit)
        if not faults and small_loop(L.Board(rows, (tile, tile))):
            report.count('constructions_unsuitable')
            continue
        done = core.pin_next_search({(x, y): t['tile'] for y, row in enumerate(L.write_layout(rows)) for x, t in enumerate(row)})
        argv = [w, h, '--underground-length', limit] + (['--tile'] if tile else []) + options + rng.choice(([], ['--all']))
        try:
            run = core.run_cli('make_block', argv)
        finally:
            core.tool('solver').Grid.itersolve = original
        if done != [(w, h)]:
            report.count('runs_without_hook')
            continue
        context = {'argv': [str(a) for a in argv], 'layout': L.show(rows), 'note': 'with every tile pinned in the grid before the search'}
        if gen.crash(run, report, 'make_block', context):
            continue
        printed = [gen.freeze(r) for r in gen.parse_lines(run, report, 'make_block', context)]
        report.observe(('offered', w, h, tile, tuple(options), limit, gen.freeze(rows)))
        if faults:
            report.count('unwanted_blocks_offered')
            if printed:
                report.violation('block', f'{faults[0]} (a block with all its tiles given)', context)
        else:
            report.count('blocks_offered')
            if printed != [gen.freeze(rows)]:
                report.violation('rejected', f'a block the options allow is not among the solutions ({len(printed)} printed)', context)
    return report


def main():
    check = core.Check('C08', 'exploration',
                       'one evaluation = one printed block judged by itself, or one board on which the printed set was compared with an '
                       'independent enumeration; trivial = a block of at most four tiles without undergrounds; distinct = '
                       'different blocks and boards', [])
    core.tool('make_block')
    rng = check.rng
    deadline = check.budget(30, 500)
    tasks = []
    small = [(w, h) for w in range(1, 8) for h in range(1, 8) if w * h <= 20]
    jobs = []
    for tile in (False, True):
        for options in ([], ['--single-loop'], ['--no-parallel'], ['--allow-empty'], ['--single-loop', '--no-parallel'],
                        ['--allow-empty', '--no-parallel']):
            for w, h in small:
                if w * h > (9 if '--allow-empty' in options else 10 if tile else 20):
                    continue
                jobs.append((w, h, tile, options))
    rng.shuffle(jobs)
    for w, h, tile, options in jobs[:check.pick(400, len(jobs))]:
        for limit in rng.sample((0, 1, 2, 3, 4, 6), check.pick(3, 5)):
            tasks.append(core.Task(exact, w, h, tile, options, limit, check.pick(1500, 20000), rng.randrange(1 << 30),
                                   timeout=check.pick(10, 100), label='exact'))
    for _ in range(check.pick(200, 2000)):
        tile = rng.random() < 0.5
        options = rng.choice(([], ['--single-loop'], ['--no-parallel'], ['--allow-empty'], ['--single-loop', '--no-parallel'],
                              ['--allow-empty', '--no-parallel']))
        w, h = (rng.randrange(4, 7), rng.randrange(4, 7)) if '--single-loop' in options else (rng.randrange(4, 10), rng.randrange(4, 10))
        tasks.append(core.Task(large, w, h, tile, options, rng.choice((0, 1, 2, 4, 4, 5, 8)), rng.randrange(1 << 30),
                               timeout=check.pick(10, 60), label='large'))
    for _ in range(check.pick(200, 3000)):
        tasks.append(core.Task(pinned, rng.randrange(1 << 30), 12, timeout=check.pick(15, 60), label='pinned'))
    rng.shuffle(tasks)
    check.run(tasks, deadline)
    check.finish(200)
