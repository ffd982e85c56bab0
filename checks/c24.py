"""C24: the balancers of the shipped blueprint books are what their labels say, and pass through all the tools.

Every blueprint of every shipped book is taken the way a user takes it: out of the book, to a layout, to a
network, back to a blueprint, into a book, and (with all its tiles given) through the balancer generator.
Oracles: independent readers of books and blueprints (lib/bp.py), the belt rules, wire tracer and exact flow of
lib/layout.py, and graph isomorphism (lib/graphs.py).
"""
import glob
import hashlib
import json
import os
import random
import re

from lib import bp, core, gen, graphs
from lib import layout as L

REACH = {'yellow': 4, 'red': 6, 'blue': 8}
LEVEL = {'yellow': 'normal', 'red': 'fast', 'blue': 'express'}
MOVES = {'rot_90': L.rot90, 'rot_180': L.rot180, 'rot_270': L.rot270, 'flip_x': L.flip_x, 'flip_y': L.flip_y}


def book_files():
    return sorted(glob.glob(os.path.join(core.REPO, 'books', '*.txt')))


def entries(data):
    """(colour of the belts, blueprint) of a book and the books in it, in order."""
    for item in data['blueprint_book']['blueprints']:
        if 'blueprint_book' in item:
            yield from entries(item)
        else:
            yield item


def rows_of(item):
    """A layout from the entities of a blueprint."""
    cells = {}
    for name, px, py, d, kind in bp.read_entities(item):
        d = bp.FROM_GAME[d]
        if name in bp.BELTS:
            cells[int(px // 1), int(py // 1)] = ('B', d, d)
        elif name in bp.UNDERS:
            cells[int(px // 1), int(py // 1)] = ('U', d, kind == 'input')
        elif name in bp.SPLITTERS:
            dx, dy = L.VEC[L.left_of(d)]
            cells[int((px - dx / 2) // 1), int((py - dy / 2) // 1)] = ('S', d, True)
            cells[int((px + dx / 2) // 1), int((py + dy / 2) // 1)] = ('S', d, False)
        else:
            raise bp.BadBlueprint(f'entity {name!r}')
    x0, y0 = min(x for x, _ in cells), min(y for _, y in cells)
    w, h = max(x for x, _ in cells) - x0 + 1, max(y for _, y in cells) - y0 + 1
    return bp.shape_belts([[cells.get((x + x0, y + y0), L.EMPTY) for x in range(w)] for y in range(h)])


def bare(data):
    return json.dumps({k: v for k, v in data.items() if k != 'index'}, sort_keys=True)


def unpack_all(report, text, context):
    """The lines a user gets by unpacking until no book is left."""
    run = core.run_cli('blueprint_book', ['unpack'], text)
    if gen.crash(run, report, 'unpack', dict(context, run=run.describe())):
        return None
    lines = []
    for line in run.lines:
        if 'blueprint_book' in bp.unpack(line):
            inner = unpack_all(report, line + '\n', context)
            if inner is None:
                return None
            lines += inner
        else:
            lines.append(line)
    return lines


def colour_of(item):
    names = {e['name'] for e in item['blueprint']['entities']}
    for colour, level in LEVEL.items():
        if names <= set(bp.NAMES[level]):
            return colour
    return None


def whole_book(name, seed):
    """What is in the book, by the tools and by the independent reader."""
    rng = random.Random(seed)
    report = core.Report()
    book = os.path.basename(name)[:-4]
    with open(name) as f:
        text = f.read()
    context = {'book': book}
    want = list(entries(bp.unpack(text.strip())))
    lines = unpack_all(report, text, context)
    if lines is None:
        return report
    if [bare(bp.unpack(line)) for line in lines] != [bare(item) for item in want]:
        report.violation(f'unpack:{book}', f'{len(lines)} other entries unpacked than the {len(want)} in the book', context)
        return report
    run = core.run_cli('blueprint', ['decode'], ''.join(line + '\n' for line in lines))
    context['run'] = run.describe()
    if gen.crash(run, report, 'decode', context):
        return report
    layouts = gen.parse_lines(run, report, 'decode', context)
    if len(layouts) != len(want):
        report.violation(f'decode:{book}', f'{len(layouts)} layouts for {len(want)} blueprints', context)
        return report
    for item, rows in zip(want, layouts):
        label = item['blueprint'].get('label')
        where = {'book': book, 'label': label, 'layout': L.show(rows)}
        report.observe(('blueprint', book, label))
        if gen.freeze(rows) != gen.freeze(rows_of(item)):
            report.violation(f'decode:{book}:{label}', 'the decoded layout is not the one the blueprint shows',
                             dict(where, want=L.show(rows_of(item))))
            continue
        colour = colour_of(item)
        if colour is None or book != 'all' and not book.startswith(colour):
            report.violation(f'belts:{book}:{label}', f'belts of another kind than the book is for ({colour})', where)
            continue
        faults = L.check_rules(rows, REACH[colour])
        if faults:
            report.violation(f'rules:{book}:{label}', f'the layout breaks the belt rules: {faults[0]}', where)
            continue
        match = re.fullmatch(r'(\d+) to (\d+)', label or '')
        circuit = L.trace(rows)
        if not match or (len(circuit.sources), len(circuit.sinks)) != tuple(map(int, match.groups())):
            report.violation(f'ends:{book}:{label}', f'{len(circuit.sources)} inputs and {len(circuit.sinks)} outputs', where)
            continue
        flow = L.circuit_flow(circuit)
        report.count('balancers_judged')
        report.count('splitters', len(circuit.ins))
        if flow is None or not L.is_balanced(flow, len(circuit.sinks)):
            mark = hashlib.sha1(json.dumps(L.write_layout(rows)).encode()).hexdigest()[:12]
            report.violation(f'unbalanced:{label}:{mark}', f'the balancer "{label}" of {book} does not balance its outputs', where)
    # and back: blueprints of the layouts, in a book
    level = rng.choice(sorted(bp.NAMES))
    label = rng.choice(('a book', 'x "y"'))
    run = core.run_cli('blueprint', ['encode', '--level', level], ''.join(json.dumps(L.write_layout(r)) + '\n' for r in layouts))
    if gen.crash(run, report, 'encode', dict(context, run=run.describe())):
        return report
    run = core.run_cli('blueprint_book', ['pack', '--label', label], run.out)
    if gen.crash(run, report, 'pack', dict(context, run=run.describe())):
        return report
    packed = bp.unpack(run.lines[0])
    again = list(entries(packed))
    report.count('books_rewritten')
    if packed['blueprint_book'].get('label') != label or len(again) != len(layouts):
        report.violation(f'pack:{book}', f'{len(again)} blueprints in the new book for {len(layouts)} layouts', context)
        return report
    for item, rows in zip(again, layouts):
        if bp.read_entities(item) != bp.entities_of(rows, level):
            report.violation(f'encode:{book}', 'a blueprint does not show the layout it was made from', dict(context, layout=L.show(rows)))
            return report
    return report


def one(name, index, seed, windows):
    """One balancer through rotate, network parse and the generator."""
    rng = random.Random(seed)
    core.diversify_solver(seed)
    report = core.Report()
    book = os.path.basename(name)[:-4]
    with open(name) as f:
        item = list(entries(bp.unpack(f.read().strip())))[index]
    label = item['blueprint'].get('label')
    rows = rows_of(item)
    w, h = L.size(rows)
    reach = REACH[colour_of(item)]
    context = {'book': book, 'label': label, 'layout': L.show(rows)}
    circuit = L.trace(rows)
    want = graphs.of_circuit(circuit)
    report.observe(('balancer', book, label))

    way = rng.choice(sorted(MOVES) + [None])
    moved = rows
    if way is not None:
        run = core.run_cli('rotate', [way], json.dumps(L.write_layout(rows)) + '\n')
        if gen.crash(run, report, 'rotate', dict(context, run=run.describe())):
            return report
        got = gen.parse_lines(run, report, 'rotate', context)
        if [gen.freeze(r) for r in got] != [gen.freeze(MOVES[way](rows))]:
            report.violation(f'rotate:{way}', 'the layout did not move as a whole', context)
            return report
        moved = got[0]
        report.count('moved')
    nodes = None
    for layout in (moved, rows):
        run = core.run_cli('network', ['parse', 'parsed'], json.dumps(L.write_layout(layout)) + '\n')
        if gen.crash(run, report, 'parse', dict(context, run=run.describe())):
            return report
        with open('parsed') as f:
            text = f.read()
        os.remove('parsed')
        try:
            nodes = L.read_network(text)
            found = graphs.of_network(nodes)
        except (ValueError, graphs.Ambiguous) as e:
            report.violation('parse', f'the parsed network is not usable: {e}', dict(context, network=text))
            return report
        same = graphs.isomorphic(want, found)
        if same is None:
            report.count('isomorphism_given_up')
        elif not same:
            report.violation('parse', 'the parsed network is not the one of the balancer', dict(context, network=text))
            return report
        report.count('networks_parsed')
    # the generator, asked for this balancer with every tile given, has to print it and nothing else
    with open('net', 'w') as f:
        f.write(text)
    fixed = [[('F',) if t == L.EMPTY else t for t in row] for row in rows]
    printed = ask(report, fixed, reach, ['--all'], None, context)
    if printed is None:
        return report
    report.count('balancers_generated_again')
    report.sample({'book': book, 'label': label, 'layout': L.show(rows)}, 1)
    report.observe(('generated', book, label))
    if printed != [gen.freeze(rows)]:
        report.violation('generate', f'the balancer is not found again ({len(printed)} layouts printed)', context)
        return report

    # with a part of it left open, it has to be among the ways to close it, which all are the same balancer
    balanced = L.is_balanced(L.circuit_flow(circuit), len(circuit.sinks))
    for _ in range(windows):
        ww, wh = rng.choice(((2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 3), (5, 2)))
        if w < ww + 2 or h < wh:
            continue
        x0, y0 = rng.randrange(1, w - ww), rng.randrange(0, h - wh + 1)
        hole = {(x, y) for x in range(x0, x0 + ww) for y in range(y0, y0 + wh)}
        for x, y in list(hole):             # no half splitter stays
            t = rows[y][x]
            if t[0] == 'S':
                dx, dy = L.VEC[L.left_of(t[1])]
                hole.add((x + dx, y + dy) if t[2] else (x - dx, y - dy))
        partial = [[L.EMPTY if (x, y) in hole else fixed[y][x] for x in range(w)] for y in range(h)]
        most = 60
        printed = ask(report, partial, reach, ['--all'], most, context)
        if printed is None:
            return report
        where = dict(context, partial=L.show(partial))
        report.count('holes_closed')
        report.count('ways_to_close', len(printed))
        report.observe(('hole', book, label, tuple(sorted(hole))))
        for got in printed:
            faults = L.check_rules(got, reach)
            if faults:
                report.violation('hole:rules', f'the completed layout breaks the belt rules: {faults[0]}', dict(where, got=L.show(got)))
                return report
            other = L.trace(got)
            if any(fixed[y][x] != got[y][x] and fixed[y][x] != ('F',) and (x, y) not in hole for x in range(w) for y in range(h)):
                report.violation('hole:kept', 'a given tile was changed', dict(where, got=L.show(got)))
                return report
            if L.matches_network(other, nodes) is False:
                report.violation('hole:network', 'the completed layout is another network', dict(where, got=L.show(got)))
                return report
            if balanced and not L.is_balanced(L.circuit_flow(other), len(other.sinks)):
                report.violation('hole:balance', 'the completed layout does not balance', dict(where, got=L.show(got)))
                return report
        if gen.freeze(rows) not in printed and len(printed) < most and not idle_underground(rows):
            report.violation('hole:missing', 'the balancer is not among the ways to complete it', where)
            return report
    return report


def ask(report, partial, reach, options, most, context):
    w, h = L.size(partial)
    with open('partial', 'w') as f:
        json.dump(L.write_layout(partial), f)
    argv = ['net', w, h, '--underground-length', reach, '--partial', 'partial'] + options
    run = core.run_cli('belt_balancer', argv, max_lines=most)
    if gen.crash(run, report, 'belt_balancer', dict(context, argv=argv, partial=L.show(partial), run=run.describe())):
        return None
    return [gen.freeze(r) for r in gen.parse_lines(run, report, 'belt_balancer', context)]


def idle_underground(rows):
    """An underground passing below nothing but empty tiles: the generator keeps to belts there."""
    board = L.Board(rows)
    for x, y, t in board.positions():
        if t[0] == 'U' and t[2]:
            target, n = L.underground_exit(board, x, y)
            dx, dy = L.VEC[t[1]]
            if target is not None and all(rows[y + dy * k][x + dx * k] == L.EMPTY for k in range(1, n + 1)):
                return True
    return False


def main():
    check = core.Check('C24', 'exploration',
                       'one evaluation = one balancer of a shipped book judged, parsed, or generated again, whole or with a hole in it; non-trivial = all; '
                       'distinct = different balancers and holes', ['the books that ship with the repository are those under books/'])
    for name in ('blueprint_book', 'blueprint', 'network', 'belt_balancer', 'rotate'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(45, 600)
    files = book_files()
    tasks = [core.Task(whole_book, name, rng.randrange(1 << 30), timeout=60, label='book') for name in files]
    each = []
    for name in files:
        if os.path.basename(name) == 'all.txt':
            continue                # the same six books once more
        with open(name) as f:
            number = len(list(entries(bp.unpack(f.read().strip()))))
        each += [(name, k) for k in range(number)]
    rng.shuffle(each)
    tasks += [core.Task(one, name, k, rng.randrange(1 << 30), check.pick(1, 6), timeout=check.pick(60, 300), label='balancer') for name, k in each]
    check.run(tasks, deadline)
    check.finish(250)
