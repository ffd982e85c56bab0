"""C09: speed options only discard layouts, and only the ones they document.

Monitor: the same request is made without and with each option (also combined); the printed sets
are compared through pattern recognisers written on plain tiles.
"""
import random

from checks.c04 import E, end_masks, fixed, idle_underground, merged_network, options_for, run_tool
from lib import core, ends, features, gen, legal, patterns, stretch
from lib import layout as L

EXACT = ('--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns', '--edge-belts')


def printed(report, nodes, w, h, options, limit, cap, partial):
    """frozenset of layouts, or None (an error, reported; or too many)."""
    run, context = run_tool(nodes, w, h, options + ['--all'], limit, cap, partial)
    report.count('runs')
    if gen.crash(run, report, 'belt_balancer', context):
        return None, context
    if run.end == 'truncated':
        report.count('sets_too_large')
        return None, context
    layouts = gen.parse_lines(run, report, 'belt_balancer', context)
    return frozenset(gen.freeze(rows) for rows in layouts), context


def edge_splitters_wrong(rows, nodes):
    """True / False / None: away from the edge, at the edge, cannot say."""
    (cin, _), (cout, _) = L.network_terminals(nodes)
    again = (any(c == cin for _, outs in nodes for c in outs), any(c == cout for ins, _ in nodes for c in ins))
    circuit = L.trace(rows)
    if any(again):
        return True if ends.edge_splitter_faults(rows, circuit, nodes) else None
    return bool(ends.edge_splitter_faults(rows, circuit, nodes))


def compare(report, nodes, w, h, mode, use_ends, aligned, limit, cap, partial, rng):
    base_options = options_for(mode, use_ends, aligned)
    base, context = printed(report, nodes, w, h, base_options, limit, cap, partial)
    if base is None or not base:
        return
    report.count('base_layouts', len(base))
    pictures = {rows: patterns.Picture(rows) for rows in base}
    shown = {option: {rows: patterns.shown(option, p, limit) for rows, p in pictures.items()} for option in EXACT}
    away = {rows: edge_splitters_wrong(rows, nodes) for rows in base} if mode == 'straight' else {}
    choices = [[option] for option in EXACT] + [['--edge-splitters'], ['--fast'],
                                                rng.sample(EXACT, rng.randrange(2, 5)),
                                                ['--edge-splitters'] + rng.sample(EXACT[:4], rng.randrange(1, 4)),
                                                ['--fast'] + rng.sample(EXACT, rng.randrange(1, 3)), ['--fast', '--edge-belts']]
    rng.shuffle(choices)
    for options in choices[:7]:
        got, context = printed(report, nodes, w, h, base_options + options, limit, cap, partial)
        if got is None:
            continue
        key = (tuple(nodes), w, h, mode, use_ends, aligned, limit, partial and gen.freeze(partial), tuple(sorted(options)))
        report.observe()
        extra = got - base
        if extra:
            report.violation('extra:' + '+'.join(options), f'{len(extra)} layouts are printed only with the option',
                             dict(context, layout=L.show(min(extra))))
            return
        active = [o for o in EXACT if o in options or '--fast' in options and o in EXACT[:4]]
        edge = '--edge-splitters' in options or '--fast' in options
        if edge and mode != 'straight':
            continue
        removed = 0
        for rows in base:
            names = [n for o in active for n in shown[o][rows]]
            wrong = away[rows] if edge else False
            if names or wrong:
                removed += 1
                for n in names:
                    report.count('pattern_' + n)
                if rows in got:
                    report.violation('kept:' + '+'.join(options), f'a layout showing {names or "splitters away from the edge"} is printed',
                                     dict(context, layout=L.show(rows)))
                    return
            elif wrong is False and rows not in got:
                report.violation('lost:' + '+'.join(options), 'a layout without any of the patterns is not printed',
                                 dict(context, layout=L.show(rows)))
                return
        report.count('layouts_compared', len(base))
        if removed:
            report.observe(key)
            report.count('sets_with_removals')
            report.sample({'options': options, 'argv': context['argv'], 'without': len(base), 'with': len(got)}, 1)
    # mirror images
    if mode == '90' or h < 2 or partial is not None and gen.freeze(L.flip_y(partial)) != gen.freeze(partial):
        return
    other = rng.choice(([], [], ['--glue-splitters'], ['--expand-underground'], ['--prevent-mergeable-underground'], ['--edge-belts'],
                        ['--edge-splitters']))
    full = base
    if other:
        full, context = printed(report, nodes, w, h, base_options + other, limit, cap, partial)
    got, context = printed(report, nodes, w, h, base_options + other + ['--break-symmetry'], limit, cap, partial)
    if full is None or got is None:
        return
    report.observe(('symmetry', tuple(nodes), w, h, mode, use_ends, aligned, limit, tuple(other)) if full else None)
    report.count('symmetry_sets')
    if got - full:
        report.violation('extra:symmetry', 'a layout is printed only with symmetry breaking', dict(context, layout=L.show(min(got - full))))
        return
    for rows in full:
        twin = gen.freeze(L.flip_y(rows))
        report.count('mirror_pairs')
        if mode == '180' and twin not in full:
            continue    # inputs above outputs: the mirror image is another kind of layout
        if rows not in got and twin not in got:
            report.violation('lost:symmetry', 'neither a layout nor its mirror image is printed', dict(context, layout=L.show(rows)))
            return
    if len(got) < len(full):
        report.count('symmetry_sets_reduced')


def construct(rng, mode, w, h, n, m, use_ends, aligned, limit, heads):
    """A random legal layout with these ends, not taken from the tool."""
    feature = features.underground_feature(rng, w, h, limit) if rng.random() < 0.6 else None
    rules = legal.Rules(w, h, limit=limit, block_belts=(False,) * 4, block_under=(True,) * 4)
    masks = list(end_masks(w, h, mode, n, m, use_ends, aligned))
    for _ in range(30 if feature else 12):
        if not masks:
            return None, None
        allowed = rng.choice(masks)
        density = rng.choice((0.0, 0.1, 0.3, 0.5))
        allowed = {cell: (E if mask & E and rng.random() < density else mask) for cell, mask in allowed.items()}
        if feature is not None:
            free = {cell: mask for cell, mask in rng.choice(masks).items()}
            allowed = {cell: mask & feature[cell] if cell in feature else mask for cell, mask in allowed.items()}
            allowed = {cell: free[cell] & feature.get(cell, -1) if not mask else mask for cell, mask in allowed.items()}
            if not all(allowed.values()) or rng.random() < 0.1:
                feature = features.underground_feature(rng, w, h, limit)
                continue
        for grid in rules.solutions(allowed, rng, 2500 if feature is None else 6000, heads=heads):
            rows = rules.tiles(grid)
            circuit = L.trace(rows)
            if len(circuit.sources) != n or len(circuit.sinks) != m or idle_underground(rows):
                continue
            nodes = merged_network(circuit)
            if nodes is not None:
                return rows, nodes
    return None, None


def ends_fit(rows, mode, n, m, use_ends, aligned):
    """Still a layout with these ends (rows put in may have torn the run of inputs apart)."""
    w, h = L.size(rows)
    for allowed in end_masks(w, h, mode, n, m, use_ends, aligned):
        if all(allowed[x, y] & edge_states(rows[y][x]) for x in (0, w - 1) for y in range(h)) and \
           all(allowed[x, y] & edge_states(rows[y][x]) for y in (0, h - 1) for x in range(w)):
            return True
    return False


def edge_states(t):
    return sum(1 << i for i in legal.states_of_tile(t))


def holes(seed, rounds, cap):
    """Constructed layouts on larger boards with some of their tiles taken out."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        mode = rng.choice(('straight', 'straight', 'straight', '90', '180'))
        w, h = rng.randrange(4, 10), rng.randrange(2, 7)
        n, m = rng.randrange(1, min(3, h) + 1), rng.randrange(1, min(3, h, w - 1) + 1)
        if mode == '180' and n + m > h:
            continue
        use_ends = rng.random() < 0.4 and mode != '180'
        aligned = mode == 'straight' and rng.random() < 0.2
        limit = rng.choice((1, 2, 3, 4, 4, 5, 6, 8, None))
        rows, nodes = construct(rng, mode, w, h, n, m, use_ends, aligned, limit, rng.choice((1, 1, 2, 2, 3, 4)))
        if rows is None:
            continue
        if rng.random() < 0.25:
            wide = stretch.stretched(rng, rows, w + rng.choice((0, 3, 8, 14)), h + rng.choice((0, 0, 3, 8)) if mode == 'straight' else h)
            if not L.check_rules(wide, limit) and not idle_underground(wide) and ends_fit(wide, mode, n, m, use_ends, aligned):
                rows = wide
                w, h = L.size(rows)
                report.count('stretched_layouts')
        # what is kept of the layout; the rest is free
        if rng.random() < 0.5:
            x0, y0 = rng.randrange(w), rng.randrange(h)
            ww, hh = rng.choice(((3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (6, 1), (1, 6), (4, 3)))
            partial = [[L.EMPTY if x0 <= x < x0 + ww and y0 <= y < y0 + hh else t for x, t in enumerate(row)]
                       for y, row in enumerate(rows)]
        else:
            keep = rng.choice((0.6, 0.8, 1.0))
            partial = [[t if rng.random() < keep else L.EMPTY for t in row] for row in rows]
        report.count('constructed_layouts')
        compare(report, nodes, w, h, mode, use_ends, aligned, limit, cap, partial, rng)
    return report


def mirror_state(s):
    """What the mirror image of a board has in the mirrored place (heads of splitters change sides)."""
    flip = (0, 3, 2, 1)
    kind, a, b, head = legal.STATES[s]
    return legal.INDEX[kind, None if a is None else flip[a], None if b is None else flip[b], not head if kind == 'S' else head]


def stretch_mirrored(rng, rows, width, height):
    """Straight columns put in anywhere, straight rows in pairs at the same distance from the top and the bottom."""
    for _ in range(60):
        if len(rows[0]) < width:
            rows = stretch.insert_column(rows, rng.randrange(1, len(rows[0]))) or rows
        if len(rows) + 1 < height:
            turned = stretch.transpose(rows)
            at = rng.randrange(1, len(rows))
            for place in (max(at, len(rows) - at), min(at, len(rows) - at)):
                turned = turned and stretch.insert_column(turned, place)
            rows = stretch.transpose(turned) if turned else rows
    return [tuple(row) for row in rows]


def mirrored(seed, rounds):
    """Layouts whose outer rows are mirror images of each other, so that what decides lies further in."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        mode = rng.choice(('straight', 'straight', '180'))
        w, h = rng.randrange(4, 9), rng.randrange(2, 8)
        n, m = rng.randrange(1, min(4, h) + 1), rng.randrange(1, min(4, h) + 1)
        if mode == '180' and n + m > h:
            continue
        use_ends = rng.random() < 0.6 and mode == 'straight'
        limit = rng.choice((2, 4, 6, None))
        rules = legal.Rules(w, h, limit=limit, block_belts=(False,) * 4, block_under=(True,) * 4)
        masks = list(end_masks(w, h, mode, n, m, use_ends, False))
        found = None
        for attempt in range(12):
            if not masks or found:
                break
            allowed = rng.choice(masks)
            heads = rng.choice((None, 1, 2, 3, 4))
            first = None
            for first in rules.solutions(allowed, rng, 1500, heads=heads):
                break
            if first is None:
                continue
            deep = rng.randint(1, max(1, h // 2))
            cells = [(x, y) for y in range(deep) for x in range(w)]
            cells = cells[:rng.choice((len(cells), rng.randint(1, len(cells))))]
            again = dict(allowed)
            for x, y in cells:
                s = first[x, y] if isinstance(first, dict) else first[y][x]
                again[x, y] &= 1 << s
                again[x, h - 1 - y] &= 1 << mirror_state(s)
            if not all(again.values()):
                continue
            for grid in rules.solutions(again, rng, 3000, heads=heads):
                rows = rules.tiles(grid)
                circuit = L.trace(rows)
                if len(circuit.sources) != n or len(circuit.sinks) != m or idle_underground(rows):
                    continue
                nodes = merged_network(circuit)
                if nodes is not None and len(nodes) <= 6:
                    found = rows, nodes
                    break
        if found is None:
            continue
        rows, nodes = found
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                rows = stretch_mirrored(rng, rows, w + rng.choice((0, 4, 9)), h + rng.choice((0, 2, 6, 10)))
            if rng.random() < 0.7:
                above = rng.randint(0, 6)
                below = above if rng.random() < 0.7 else rng.randint(0, 6)
                empty = (L.EMPTY,) * len(rows[0])
                rows = [empty] * above + [tuple(row) for row in rows] + [empty] * below
            if L.check_rules(rows, limit) or idle_underground(rows):
                continue
            if not ends_fit(rows, mode, n, m, use_ends, False):
                continue
            w, h = L.size(rows)
            report.count('stretched_layouts')
        same = 0
        twin = L.flip_y(rows)
        while same < h // 2 and tuple(rows[same]) == tuple(twin[same]):
            same += 1
        report.count(f'mirror_images_same_up_to_row_{same}')
        options = options_for(mode, use_ends, False)

        def accepted(pair, extra):
            result = []
            for layout in pair:
                run, context = run_tool(nodes, w, h, options + extra, limit, partial=fixed(layout))
                if gen.crash(run, report, 'belt_balancer', context):
                    return None, context
                result.append(bool(gen.parse_lines(run, report, 'belt_balancer', context)))
            return result, context
        got, context = accepted((rows, twin), ['--break-symmetry'])
        if got is None:
            continue
        report.observe(('mirrored', gen.freeze(rows), mode, limit))
        report.count('mirror_pairs_offered')
        if not any(got):
            base, _ = accepted((rows, twin), [])
            if base is not None and all(base):
                report.violation('lost:symmetry', 'neither a layout nor its mirror image is printed', dict(context, layout=L.show(rows)))
                return report
    return report


def chains(seed, rounds, cap):
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    for _ in range(rounds):
        rows, nodes, mode = features.chain_layout(rng)
        limit = rng.choice((5, 6, 7, 8, 9, 10, 12, None))
        faults = L.check_rules(rows, limit)
        assert not faults, (L.show(rows), faults)
        w, h = L.size(rows)
        report.count('chains')
        compare(report, nodes, w, h, mode, False, False, limit, cap, rows, rng)
    return report


def boards(seed, cap):
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    mode = rng.choice(('straight', 'straight', 'straight', '90', '180'))
    use_ends = rng.random() < 0.3 and mode != '180'
    aligned = mode == 'straight' and rng.random() < 0.2
    limit = rng.choice((1, 2, 3, 4, 5, 6, None))
    if rng.random() < 0.5:
        nodes = gen.random_network(rng, 3)
    else:
        nodes = rng.choice(list(gen.shipped_networks(4).values()))
    (_, n), (_, m) = L.network_terminals(nodes)
    w = rng.randrange(4, 8)
    h = rng.randrange(max(n, m, 2), max(n, m, 2) + 2) if mode != '180' else n + m + rng.randrange(2)
    if w * h > 28 or mode == '90' and (m >= w or n >= h):
        return report
    compare(report, nodes, w, h, mode, use_ends, aligned, limit, cap, None, rng)
    return report


# single patterns, met on boards without a network: (function of the tool that leaves them out, recogniser)
RULES = {
    'glued': (('optimisations', 'glue_splitters', {}), lambda p, limit: patterns.glued(p)),
    'glued_partial': (('optimisations', 'glue_partial_splitters', {}), lambda p, limit: patterns.glued_partial(p)),
    'expandable': (('optimisations', 'expand_underground', {'min_x': 1, 'max_x': -2}), patterns.expandable),
    'mergeable': (('optimisations', 'prevent_mergeable_underground', {}), patterns.mergeable),
    'hooks': (('optimisations', 'prevent_belt_hooks', {}), lambda p, limit: patterns.hooks(p)),
    'semicircles': (('optimisations', 'prevent_semicircles', {}), lambda p, limit: patterns.semicircles(p)),
    'small_loops': (('optimisations', 'prevent_small_loops', {}), lambda p, limit: patterns.small_loops(p)),
    'underground_hooks': (('optimisations', 'prevent_underground_hook', {}), lambda p, limit: patterns.underground_hooks(p)),
    'zigzags': (('optimisations', 'prevent_zigzags', {}), lambda p, limit: patterns.zigzags(p)),
    'beside_splitter': (('optimisations', 'prevent_belt_parallel_splitter', {}), lambda p, limit: patterns.beside_splitter(p)),
    'edge_belts': (('belt_balancer', 'prevent_double_edge_belts', {}), lambda p, limit: patterns.edge_belts(p)),
    'idle': (('optimisations', 'prevent_empty_along_underground', {}), lambda p, limit: idle_underground(p.board.rows)),
}


class Oracle:
    """The rule engine with one optimisation, asked about complete layouts."""

    def __init__(self, w, h, limit, name):
        from pysat.solvers import Solver
        solver, template = core.tool('solver'), core.tool('template')
        grid = solver.Grid(w, h, 1, float('inf') if limit is None else limit, edge_mode=template.EdgeMode.NO_WRAP)
        grid.prevent_bad_undergrounding()
        grid.prevent_intersection()
        grid.enforce_maximum_underground_length()
        grid.block_underground_through_edges()
        if name is not None:
            module, function, options = RULES[name][0]
            options = {k: w + v if v < 0 else v for k, v in options.items()}
            getattr(core.tool(module), function)(grid, **options)
        self.grid = grid
        clauses = [list(clause) for clause in grid.clauses]
        self.length = len(clauses)
        self.spare = max(abs(lit) for clause in clauses for lit in clause) + 10000
        self.solver = Solver('m22', bootstrap_with=clauses)

    def accepts(self, rows):
        tile = core.tool('tile')
        for y, row in enumerate(L.write_layout(rows)):
            for x, cell in enumerate(row):
                self.grid.set_tile(x, y, tile.BaseTile.read(cell['tile']))
        added = [list(clause) for clause in list(self.grid.clauses)[self.length:]]
        self.length += len(added)
        assumptions = []
        for clause in added:
            if len(clause) == 1:
                assumptions.append(clause[0])
            else:
                self.spare += 1
                self.solver.add_clause(clause + [-self.spare])
                assumptions.append(self.spare)
        return self.solver.solve(assumptions=assumptions)


def touches_edge(rows):
    """A splitter with a side at the edge: whether that side is in use cannot be seen."""
    w, h = L.size(rows)
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            if t[0] == 'S':
                dx, dy = L.VEC[t[1]]
                if not (0 <= x + dx < w and 0 <= y + dy < h and 0 <= x - dx < w and 0 <= y - dy < h):
                    return True
    return False


def no_splitter_faces_the_edge(w, h):
    return {(x, y): sum(1 << i for i, s in enumerate(legal.STATES) if s[0] != 'S' or
                        all(0 <= x + k * L.VEC[d][0] < w and 0 <= y + k * L.VEC[d][1] < h for d in (s[1], s[2]) if d is not None for k in (1, -1)))
            for x in range(w) for y in range(h)}


def lonely_patterns(seed, rounds):
    """Random layouts without a network, each offered to each optimisation on its own."""
    rng = random.Random(seed)
    report = core.Report()
    w, h = rng.randint(2, 8), rng.randint(2, 7)
    if rng.random() < 0.25:
        w, h = rng.randint(7, 13), rng.randint(2, 4)
        if rng.random() < 0.5:
            w, h = h, w
    limit = rng.choice((1, 2, 3, 4, 5, 6, 8, None))
    rules = legal.Rules(w, h, limit=limit, block_belts=(False,) * 4, block_under=(True,) * 4)
    oracles = {name: Oracle(w, h, limit, name) for name in [None] + list(RULES)}
    clear = no_splitter_faces_the_edge(w, h)
    for _ in range(rounds):
        allowed = dict(clear)
        density = rng.choice((0.0, 0.0, 0.1, 0.3))
        for x in range(w):
            for y in range(h):
                if rng.random() < density:
                    allowed[x, y] = E
        if rng.random() < 0.7:
            feature = rng.choice((features.long_underground, features.underground_feature))(rng, w, h, limit)
            if feature is not None:
                for cell, mask in feature.items():
                    allowed[cell] = clear[cell] & mask
        if not all(allowed.values()):
            continue
        rows = None
        for grid in rules.solutions(allowed, rng, 1500):
            rows = rules.tiles(grid)
            break
        if rows is None or touches_edge(rows) or not oracles[None].accepts(rows):
            continue
        picture = patterns.Picture(rows)
        report.count('lonely_layouts')
        for name, (_, test) in RULES.items():
            bad = bool(test(picture, limit))
            report.observe(('lonely', gen.freeze(rows), name) if bad else None)
            if bad:
                report.count('lonely_' + name)
            if oracles[name].accepts(rows) == bad:
                report.violation(f'{"kept" if bad else "lost"}:{name}', 'a layout showing the pattern is admitted' if bad else
                                 'a layout without the pattern is left out', {'rule': RULES[name][0], 'limit': limit, 'layout': L.show(rows)})
                return report
    return report


def lonely_large(seed, boards, rounds):
    """The same on large boards: layouts of small ones, stretched, or put at a random place."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(boards):
        limit = rng.choice((1, 2, 4, 4, 6, 8, 12, None))
        w, h = rng.randint(4, 7), rng.randint(3, 6)
        wide, high = rng.choice(((w + 8, h + 7), (w + 14, h + 1), (w + 1, h + 14), (w + 3, h + 2)))
        padded = rng.random() < 0.6
        rules = legal.Rules(w, h, limit=limit, block_belts=(padded,) * 4, block_under=(True,) * 4)
        oracles = {}
        clear = no_splitter_faces_the_edge(w, h)
        for _ in range(rounds):
            allowed = dict(clear)
            density = rng.choice((0, 0.1, 0.3))
            for cell in allowed:
                if rng.random() < density:
                    allowed[cell] = E
            rows = None
            for grid in rules.solutions(allowed, rng, 1200):
                rows = rules.tiles(grid)
                break
            if rows is None:
                continue
            rows = stretch.stretched(rng, rows, rng.choice((w, wide)) if padded else wide, rng.choice((h, high)) if padded else high)
            ww, hh = L.size(rows)
            if padded:
                left, above = rng.randint(0, wide - ww), rng.randint(0, high - hh)
                rows = [[L.EMPTY] * left + list(row) + [L.EMPTY] * (wide - ww - left) for row in rows]
                rows = [[L.EMPTY] * wide for _ in range(above)] + rows + [[L.EMPTY] * wide for _ in range(high - hh - above)]
            if L.size(rows) != (wide, high) or L.check_rules(rows, limit) or touches_edge(rows):
                continue
            report.count('lonely_large_layouts')
            picture = patterns.Picture(rows)
            for name in rng.sample([None] + list(RULES), 5):
                if name not in oracles:
                    oracles[name] = Oracle(wide, high, limit, name)
                bad = name is not None and bool(RULES[name][1](picture, limit))
                report.observe(('lonely', gen.freeze(rows), name) if bad else None)
                if oracles[name].accepts(rows) == bad:
                    report.violation(f'{"kept" if bad else "lost"}:{name}', 'a layout showing the pattern is admitted' if bad else
                                     'a layout without the pattern is left out', {'limit': limit, 'layout': L.show(rows)})
                    return report
    return report


def main():
    check = core.Check('C09', 'exploration',
                       'one evaluation = one request printed without and with a set of options and compared layout by layout; '
                       'non-trivial = the options removed layouts; distinct = different (network, board, options, pins)',
                       ['the patterns are those of the pinned commit'])
    core.tool('belt_balancer')
    rng = check.rng
    deadline = check.budget(55, 600)
    cap = check.pick(700, 6000)
    tasks = []
    for _ in range(check.pick(260, 6000)):
        tasks.append(core.Task(holes, rng.randrange(1 << 30), 5, cap, timeout=check.pick(15, 100), label='holes'))
        tasks.append(core.Task(boards, rng.randrange(1 << 30), cap, timeout=check.pick(15, 100), label='boards'))
        if _ % 2 == 0:
            tasks.append(core.Task(lonely_patterns, rng.randrange(1 << 30), 300, timeout=check.pick(20, 60), label='lonely'))
        if _ % 4 == 1:
            tasks.append(core.Task(lonely_large, rng.randrange(1 << 30), 1, 300, timeout=check.pick(20, 60), label='lonely_large'))
        if _ % 3 == 0:
            tasks.append(core.Task(mirrored, rng.randrange(1 << 30), 40, timeout=check.pick(15, 60), label='mirrored'))
        if _ % 5 == 0:
            tasks.append(core.Task(chains, rng.randrange(1 << 30), 2, check.pick(150, 2000), timeout=check.pick(15, 100), label='chains'))
    check.run(tasks, deadline)
    check.finish(80)
