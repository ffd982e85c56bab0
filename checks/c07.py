"""C07: interchanges bring one belt of each half to every pair of outputs.

Monitor: every printed layout is traced belt by belt from every input to the output it reaches.
"""
import contextlib
import importlib
import itertools
import json
import random

from lib import core, gen, legal, patterns, samples, stretch
from lib import layout as L
from lib.layout import VEC, opp


def reversed_half_turn(rows):
    """The layout after a half turn, with everything travelling backwards."""
    out = []
    for row in reversed(rows):
        line = []
        for t in reversed(row):
            if t[0] == 'B':
                t = ('B', t[2], t[1])       # turned by 180 degrees and reversed: the ends just swap
            elif t[0] == 'U':
                t = ('U', t[1], not t[2])
            line.append(t)
        out.append(line)
    return out


def routes(rows):
    """{input row: output row}, or a text saying what is wrong."""
    w, h = L.size(rows)
    circuit = L.trace(rows)
    if circuit.splitters or any(t[0] == 'S' for row in rows for t in row):
        return 'it holds a splitter'
    if sorted(circuit.sources.values()) != [(0, y, 0) for y in range(h)]:
        return f'the inputs are not the {h} rows of the left side: {sorted(circuit.sources.values())}'
    result = {}
    for wire, (_, y, _) in circuit.sources.items():
        end = circuit.sinks.get(wire)
        if end is None:
            return f'input {y} does not reach an output'
        if end[0] != w - 1 or end[2] != 0:
            return f'input {y} leaves at {end}'
        result[y] = end[1]
    if len(circuit.sinks) != h:
        return 'something leaves that did not enter'
    return result


def judge(report, rows, w, h, limit, options, context):
    context = dict(context, layout=L.show(rows))
    crossing = any(t[0] == 'U' for row in rows for t in row)
    report.observe(('interchange', gen.freeze(rows)) if crossing else None)
    report.count('layouts')
    report.count(f'height_{h}')
    if L.size(rows) != (w, h):
        report.violation('size', f'layout is {L.size(rows)}, asked for {(w, h)}', context)
        return
    faults = L.check_rules(rows, limit)
    if faults:
        report.violation('rules', str(faults[0]), context)
        return
    reached = routes(rows)
    if isinstance(reached, str):
        report.violation('routes', reached, context)
        return
    half = {out: int(y >= h // 2) for y, out in reached.items()}
    for y in range(0, h, 2):
        if {half[y], half[y + 1]} != {0, 1}:
            report.violation('pairs', f'outputs {y} and {y + 1} both come from half {half[y]}', context)
            return
    report.count('routes', h)
    if '--alternating' in options:
        report.count('alternating')
        if any(half[y] != y % 2 for y in range(h)):
            report.violation('alternating', f'outputs do not alternate: {half}', context)
            return
    if '--rot-symmetry' in options:
        report.count('symmetric')
        if gen.freeze(reversed_half_turn(rows)) != gen.freeze(rows):
            report.violation('symmetry', 'not symmetric under a half turn', context)


def run(report, w, h, options, value, lines, partial=None):
    argv = [w, h, '--underground-length', value, '--all'] + options
    if partial is not None:
        with open('partial', 'w') as f:
            json.dump(L.write_layout(partial), f)
        argv += ['--partial', 'partial']
    result = core.run_cli('interchange', argv, max_lines=lines)
    report.count('runs')
    report.count('runs_' + result.end)
    context = {'argv': [str(a) for a in argv], 'partial': partial and L.show(partial)}
    if gen.crash(result, report, 'interchange', context):
        return []
    layouts = gen.parse_lines(result, report, 'interchange', context)
    for rows in layouts:
        judge(report, rows, w, h, value, options, context)
    if layouts:
        report.sample({'argv': context['argv'], 'layout': L.show(layouts[0])}, 1)
    return layouts


def generate(w, h, options, value, lines, seed):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    layouts = run(report, w, h, options, value, lines)
    for _ in range(2 if layouts else 0):
        # the same board again, with pieces of a printed layout (also of its mirror image) pinned
        rows = rng.choice(layouts)
        if rng.random() < 0.3:
            rows = L.flip_y(rows)
        keep = rng.choice((0.2, 0.5, 0.8))
        partial = [[t if rng.random() < keep else L.EMPTY for t in row] for row in rows]
        run(report, w, h, rng.choice(([], options, ['--alternating'], ['--rot-symmetry'])), value, lines, partial)
    return report


def needless(rows, limit):
    """Names of the patterns for which the generator leaves a layout out (only ever too many)."""
    p = patterns.Picture(rows)
    found = [name for name in ('hooks', 'semicircles', 'small_loops', 'underground_hooks', 'zigzags') if patterns.BAD[name](p)]
    if patterns.mergeable(p, limit):
        found.append('mergeable')
    circuit = L.trace(rows)
    if circuit.loops:
        found.append('loop')
    half = {wire: int(y >= p.h // 2) for wire, (_, y, _) in circuit.sources.items()}
    for (x, y), c in p.cells.items():
        if c.kind == 'I':
            d = c.into
            (ex, ey), n = L.underground_exit(p.board, x, y)
            if all(p.at(x, y, (d, k)).kind == 'E' for k in range(1, n + 1)):
                found.append('below nothing')
    for x, y, d, t in p.frames():
        # two belts of one half that pass each other
        first = [p.at(x, y, (d, k)) for k in range(2)]
        second = [p.at(x, y, (d, k), (t, 1)) for k in range(2)]
        if t == (d + 1) % 4 and None not in first and None not in second:
            if all(c.straight(d) for c in first) and all(c.straight(opp(d)) for c in second):
                other = (x + VEC[t][0], y + VEC[t][1])
                if half.get(circuit.tiles.get((x, y))) == half.get(circuit.tiles.get(other)):
                    found.append('passing')
        # a belt that winds around the mouth of an underground
        block = {(i, j): p.at(x, y, (d, i), (t, j)) for i in range(3) for j in range(3)}
        if None in block.values():
            continue
        if (block[0, 0].kind == 'E' and d in block[0, 0].under and d not in block[1, 0].under and block[1, 1].kind == 'E'
                and block[2, 0].out == t and block[2, 1].out == t and block[2, 2].out == opp(d) and block[1, 2].out == opp(d)):
            found.append('awkward')
    return found


def longer(rows, limit):
    """Could an underground take in a straight belt before or behind it?"""
    p = patterns.Picture(rows)
    for (x, y), c in p.cells.items():
        if c.kind == 'I':
            d = c.into
            (ex, ey), n = L.underground_exit(p.board, x, y)
            for other in (p.at(x, y, (d, -1)), p.at(ex, ey, (d, 1))):
                if n < limit and other is not None and other.straight(d):
                    return True
    return False


# what these add only takes detours away
FILTERS = (('optimisations', ('apply_generic_optimisations', 'expand_underground', 'prevent_small_loops', 'prevent_empty_along_underground',
                              'prevent_belt_hooks', 'prevent_mergeable_underground', 'prevent_semicircles', 'prevent_underground_hook')),
           ('interchange', ('prevent_passing', 'prevent_awkward_underground_entry')))


@contextlib.contextmanager
def unfiltered():
    saved = []
    for module, names in FILTERS:
        module = importlib.import_module('factorio_sat.' + module)
        for name in names:
            if callable(getattr(module, name, None)):
                saved.append((module, name, getattr(module, name)))
                setattr(module, name, lambda *args, **kwargs: None)
    try:
        yield
    finally:
        for module, name, value in saved:
            setattr(module, name, value)


def closeness(rows):
    """How nearly the layout shows a detour that is left out, without showing it (1: a single condition is missing)."""
    p = patterns.Picture(rows)
    circuit = L.trace(rows)
    half = {wire: int(y >= p.h // 2) for wire, (_, y, _) in circuit.sources.items()}
    near = 0
    for x, y, d, t in p.frames():
        if t != (d + 1) % 4:
            continue
        first = [p.at(x, y, (d, k)) for k in range(2)]
        second = [p.at(x, y, (d, k), (t, 1)) for k in range(2)]
        if None not in first and None not in second:
            other = (x + VEC[t][0], y + VEC[t][1])
            conditions = [c.into == d for c in first] + [c.out == d for c in first] + [c.into == opp(d) for c in second] + [c.out == opp(d) for c in second]
            conditions.append(half.get(circuit.tiles.get((x, y))) == half.get(circuit.tiles.get(other)))
            near += 2 * (sum(conditions) == 8) + (sum(conditions) == 7)
        block = {(i, j): p.at(x, y, (d, i), (t, j)) for i in range(3) for j in range(3)}
        if None in block.values():
            continue
        conditions = [block[0, 0].kind == 'E', d in block[0, 0].under, d not in block[1, 0].under, block[1, 1].kind == 'E',
                      block[2, 0].out == t, block[2, 1].out == t, block[2, 2].out == opp(d), block[1, 2].out == opp(d)]
        near += 5 * (sum(conditions) == 7) + (sum(conditions) == 6)
    return near


def widened(rng, rows, count):
    """With more columns; a symmetric layout stays symmetric."""
    symmetric = gen.freeze(rows) == gen.freeze(reversed_half_turn(rows))
    for _ in range(count):
        w = len(rows[0])
        x = rng.randrange(1, w)
        wider = stretch.insert_column(rows, x)
        if symmetric and x != w - x:
            wider = stretch.insert_column(wider, w - x + (1 if w - x > x else 0))
        rows = [tuple(row) for row in wider]
    return rows


def rebuilt(rng, rows, limit, symmetric):
    """The same layout with a part of it built anew."""
    w, h = L.size(rows)
    a, b = rng.randrange(2, 5), rng.randrange(2, 4)
    x0, y0 = rng.randrange(max(1, w - a + 1)), rng.randrange(max(1, h - b + 1))
    rules = legal.Rules(w, h, block=(False, True, False, True), block_under=(True,) * 4, limit=limit, splitters=False)
    allowed = {}
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            if not (x0 <= x < x0 + a and y0 <= y < y0 + b):
                allowed[x, y] = sum(1 << i for i in legal.states_of_tile(t))
    for grid in rules.solutions(allowed, rng, 6000):
        new = rules.tiles(grid)
        if gen.freeze(new) == gen.freeze(rows):
            continue
        if symmetric:
            turned = reversed_half_turn(new)
            for y in range(h):
                for x in range(w):
                    if x0 <= w - 1 - x < x0 + a and y0 <= h - 1 - y < y0 + b:
                        new[y][x] = turned[y][x]
            if gen.freeze(new) != gen.freeze(reversed_half_turn(new)):
                continue
        if not L.check_rules(new, limit) and not isinstance(routes(new), str):
            return new
    return rows


def offer(size, seed):
    """A complete layout is pinned: it has to be printed if it is an interchange without needless detours."""
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    limit = rng.choice((4, 4, 4, 5, 6))
    if size is None:
        limit, rows = rng.choice(samples.NEAR_INTERCHANGE)
        rows = L.unshow(rows)
    else:
        stored = [L.unshow(rows) for rows in samples.INTERCHANGE[size]]
        turning = [rows for rows in stored if gen.freeze(rows) == gen.freeze(reversed_half_turn(rows))]
        rows = rng.choice(turning if turning and rng.random() < 0.4 else stored)
    w, h = L.size(rows)
    symmetric = gen.freeze(rows) == gen.freeze(reversed_half_turn(rows))
    crooked = False
    if size and rng.random() < 0.35:
        limit = rng.choice((8, 10, 12, 20))
        rows = widened(rng, rows, rng.choice((2, 4, 8, 14)) // (2 if symmetric else 1))
        if symmetric and rng.random() < 0.5:     # nearly symmetric still
            x = rng.randrange(1, len(rows[0])) if rng.random() < 0.3 else len(rows[0]) // 2 + rng.choice((-3, -2, -1, 1, 2, 3))
            if 0 < x < len(rows[0]):
                rows = [tuple(row) for row in stretch.insert_column(rows, x)]
                symmetric, crooked = False, True
                report.count('offered_crooked')
        w, h = L.size(rows)
        report.count('offered_widened')
    nearest = rng.random() < 0.5
    for _ in range(0 if crooked else rng.randrange(5) if size else rng.choice((0, 0, 0, 1, 2))):
        choices = [rebuilt(rng, rows, limit, symmetric and rng.random() < 0.8) for _ in range(3 if nearest else 1)]
        rows = max(choices, key=lambda c: (not needless(c, limit), closeness(c))) if nearest else choices[0]
    if rng.random() < 0.4:
        rows = L.flip_y(rows)
    symmetric = gen.freeze(rows) == gen.freeze(reversed_half_turn(rows))
    reached = routes(rows)
    if L.check_rules(rows, limit) or isinstance(reached, str):
        return report
    half = {out: int(y >= h // 2) for y, out in reached.items()}
    pairs = all(half[y] != half[y + 1] for y in range(0, h, 2))
    alternating = all(half[y] == y % 2 for y in range(h))
    waste = set(needless(rows, limit))
    report.count('offered_close', bool(closeness(rows)))
    report.count(f'offered_width_{w}')
    partial = [[t if t[0] != 'E' else ('F',) for t in row] for row in rows]
    for options in ([], ['--alternating'], ['--rot-symmetry'], ['--alternating', '--rot-symmetry']):
        fits = pairs and (alternating or '--alternating' not in options) and (symmetric or '--rot-symmetry' not in options)
        if not fits and not crooked and rng.random() < 0.5:
            continue
        with contextlib.nullcontext() if fits else unfiltered():
            printed = run(report, w, h, options, limit, 3, partial)     # judges what is printed
        report.count('offered')
        turned = '--rot-symmetry' in options
        if fits and not (waste - {'zigzags'} if turned else waste) and not (turned and longer(rows, limit)):
            report.observe(('offered', gen.freeze(rows), tuple(options)))
            report.count('offered_proper')
            report.count('offered_' + ('_'.join(o[2:] for o in options) or 'plain'))
            if [gen.freeze(r) for r in printed] != [gen.freeze(rows)]:
                report.violation('missing', f'an interchange without detours is not printed when pinned ({len(printed)} others were)',
                                 {'options': options, 'limit': limit, 'layout': L.show(rows)})
                return report
        elif fits:
            report.count('offered_needless')
        else:
            report.count('offered_unfit')
    return report


BOARDS = ((2, 2), (3, 2), (4, 2), (5, 2), (5, 4), (6, 4), (7, 4), (8, 4), (9, 4), (10, 4), (11, 4), (5, 6), (6, 6), (7, 6), (8, 6), (9, 6), (6, 8), (7, 8), (8, 8),
          (9, 8), (7, 10), (8, 10), (8, 12))


def main():
    check = core.Check('C07', 'exploration',
                       'one evaluation = one printed interchange with every input followed to its output; non-trivial = it has '
                       'undergrounds (belts cross); distinct = different layouts', [])
    core.tool('interchange')
    rng = check.rng
    deadline = check.budget(50, 600)
    tasks = []
    for k in range(check.pick(350, 4000)):
        w, h = BOARDS[k % len(BOARDS)] if k < len(BOARDS) else rng.choice(BOARDS[:check.pick(20, len(BOARDS))])
        options = rng.choice(([], [], ['--alternating'], ['--rot-symmetry'], ['--alternating', '--rot-symmetry']))
        tasks.append(core.Task(generate, w, h, options, rng.choice((2, 3, 4, 4, 4, 5, 6, 8)), 25, rng.randrange(1 << 30),
                               timeout=check.pick(12, 90), label='interchange'))
    offers = [core.Task(offer, rng.choice(sorted(samples.INTERCHANGE)) if i % 3 else None, rng.randrange(1 << 30), timeout=check.pick(20, 90), label='offer')
              for i in range(check.pick(600, 6000))]
    tasks = [t for pair in itertools.zip_longest(tasks, offers) for t in pair if t is not None]
    check.run(tasks, deadline)
    check.finish(60)
