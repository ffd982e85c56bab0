"""C14: blueprint books keep every blueprint, in order.

Blueprints written by the tool itself, by the independent writer, and arbitrary game items (labels, icons,
schedules, nested books, unicode) go through `blueprint_book pack` and `unpack`; the books are read with the
independent reader.
"""
import copy
import json
import random

from lib import bp, core, gen, scenes
from lib import layout as L

LABELS = (None, '', 'book', 'B "x" \\ ☃ \n', '  padded  ')


def random_json(rng, depth=2):
    kind = rng.randrange(7 if depth else 5)
    if kind == 0:
        return rng.choice((True, False, None))
    if kind == 1:
        return rng.choice((0, 1, -7, 2 ** 53, rng.randrange(1 << 62)))
    if kind == 2:
        return rng.choice((0.5, -1.25, 1e300))
    if kind == 3:
        return rng.choice(('', 'text', '☃ "\\', '\u0000', 'é'))
    if kind == 4:
        return {'r': rng.random()}
    if kind == 5:
        return [random_json(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {f'k{i}': random_json(rng, depth - 1) for i in range(rng.randrange(4))}


def item(rng, depth=1):
    """A game item: blueprint, nested book, or another kind of item."""
    kind = rng.randrange(6)
    if kind <= 2:
        rows, _ = scenes.scene(rng, largest=4)
        data = bp.make(bp.entities_of(rows), (rng.randint(-3, 3), rng.randint(-3, 3)), rng.choice(LABELS))
        if rng.random() < 0.4:
            data['blueprint']['tiles'] = [{'name': 'concrete', 'position': {'x': 0, 'y': rng.randrange(9)}}]
            data['blueprint']['description'] = random_json(rng)
        if rng.random() < 0.2:
            data['blueprint']['index'] = rng.randrange(5)
    elif kind == 3 and depth:
        data = {'blueprint_book': {'item': 'blueprint-book', 'label': 'inner', 'active_index': 1, 'version': 5,
                                   'blueprints': [dict(item(rng, 0), index=i) for i in range(rng.randrange(3))]}}
    elif kind == 4:
        data = {rng.choice(('upgrade_planner', 'deconstruction_planner')): {'settings': random_json(rng), 'item': 'planner', 'version': 1}}
    else:
        data = {'blueprint': {'item': 'blueprint', 'label': rng.choice(LABELS), 'entities': [], 'extra': random_json(rng, 3)}}
    if rng.random() < 0.3:
        data['index'] = rng.choice((0, 1, 7, 65535))    # as copied out of another book
    return data


def bare(data):
    data = copy.deepcopy(data)
    data.pop('index', None)
    return json.dumps(data, sort_keys=True)


def judge(report, rng, items):
    label = rng.choice(LABELS)
    argv = ['pack'] + (['--label', label] if label is not None else [])
    stdin = ''.join(bp.pack(d, rng.choice((1, 9))) + '\n' for d in items)
    if items and rng.random() < 0.2:
        stdin = stdin[:-1]              # no newline at the end of the last line
    run = core.run_cli('blueprint_book', argv, stdin)
    context = {'argv': argv, 'items': [json.dumps(d)[:300] for d in items], 'stdin': stdin[:4000], 'run': run.describe()}
    if gen.crash(run, report, 'pack', context):
        return
    if len(run.lines) != 1:
        report.violation('pack:lines', f'{len(run.lines)} lines printed for a book', context)
        return
    try:
        data = bp.unpack(run.lines[0])
        book = data['blueprint_book']
        entries = book['blueprints']
    except (bp.BadBlueprint, KeyError, TypeError) as e:
        report.violation('pack:invalid', f'not a book: {e!r}', context)
        return
    report.count('books_packed')
    if [bare(d) for d in entries] != [bare(d) for d in items]:
        report.violation('pack:content', f'the book holds {len(entries)} other entries than the {len(items)} given', context)
        return
    if [d.get('index') for d in entries] != list(range(len(items))):
        report.violation('pack:index', f'entries numbered {[d.get("index") for d in entries]}', context)
        return
    if book.get('label') != label or book.get('item') != 'blueprint-book' or not isinstance(book.get('version'), int):
        report.violation('pack:header', f'header {({k: v for k, v in book.items() if k != "blueprints"})!r}', context)
        return
    if items and book.get('active_index') not in range(len(items)):
        report.violation('pack:active', f'active index {book.get("active_index")!r}', context)
        return
    unpacked(report, run.lines[0], items, context, 'own')
    # a book from the game: other fields, gaps in the numbering
    if rng.random() < 0.7:
        indices = sorted(rng.sample(range(3 * len(items) + 1), len(items)))
        foreign = {'blueprint_book': {'blueprints': [dict(d, index=i) for d, i in zip(items, indices)], 'item': 'blueprint-book',
                                      'active_index': rng.randrange(3), 'version': 281479275675648, 'label': rng.choice(LABELS)}}
        unpacked(report, bp.pack(foreign), items, context, 'foreign')


def unpacked(report, line, items, context, origin):
    run = core.run_cli('blueprint_book', ['unpack'], line + '\n')
    context = dict(context, origin=origin, run=run.describe(), book=line[:3000])
    if gen.crash(run, report, 'unpack', context):
        return
    try:
        got = [bp.unpack(text) for text in run.lines]
    except bp.BadBlueprint as e:
        report.violation('unpack:invalid', f'an unpacked line is no blueprint: {e}', context)
        return
    report.count('books_unpacked_' + origin)
    report.count('entries_checked', len(got))
    if [bare(d) for d in got] != [bare(d) for d in items]:
        report.violation('unpack:content', f'{len(got)} other entries unpacked than the {len(items)} in the book', context)


def chain(report, rng):
    """Layouts to blueprints, to a book, back to layouts: the tools in a pipe, as a user does it."""
    batch = [scenes.scene(rng, fillers=False, largest=5)[0] for _ in range(rng.randint(1, 6))]
    run = core.run_cli('blueprint', ['encode'], ''.join(json.dumps(L.write_layout(r)) + '\n' for r in batch))
    for tool, argv in (('blueprint_book', ['pack']), ('blueprint_book', ['unpack']), ('blueprint', ['decode'])):
        if run.failed:
            break
        run = core.run_cli(tool, argv, run.out)
    context = {'layouts': [L.show(r) for r in batch], 'run': run.describe()}
    if gen.crash(run, report, 'chain', context):
        return
    got = gen.parse_lines(run, report, 'chain', context)
    want = [bp.crop(bp.shape_belts(r)) for r in batch]
    report.count('chains')
    report.observe(('chain', tuple(map(gen.freeze, batch))))
    if [[list(row) for row in r] for r in got if r] != [r for r in want if r] or len(got) != len(want):
        report.violation('chain', 'layouts changed on the way through a book', context)


def work(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        n = rng.choice((0, 1, 2, 3, 5, 8, 13, 30))
        items = [item(rng) for _ in range(n)]
        if n > 2 and rng.random() < 0.3:
            items[1] = copy.deepcopy(items[0])      # duplicates stay two
        report.observe(None if not items else tuple(bare(d) for d in items))
        report.count(f'books_of_{n}')
        judge(report, rng, items)
        if rng.random() < 0.3:
            chain(report, rng)
        if report.violations:
            return report
    report.sample({'entries': n, 'first': json.dumps(items[0])[:120] if items else None}, 1)
    return report


def vast(seed, number):
    """Books of very many entries, and entries that are very long."""
    rng = random.Random(seed)
    report = core.Report()
    items = [item(rng) for _ in range(min(number, 40))]
    items = [dict(rng.choice(items), mark=i) for i in range(number)]
    for data in rng.sample(items, 2):
        data['note'] = ''.join(rng.choice('abcdefgh \u00e9') for _ in range(rng.choice((70000, 700000))))
    report.observe(('vast', seed, number))
    report.count('vast')
    judge(report, rng, items)
    return report


def main():
    check = core.Check('C14', 'exploration',
                       'one evaluation = one book packed and unpacked; non-trivial = it has an entry; distinct = different lists of entries', [])
    core.tool('blueprint')
    core.tool('blueprint_book')
    rng = check.rng
    deadline = check.budget(20, 180)
    tasks = [core.Task(work, rng.randrange(1 << 30), check.pick(50, 300), timeout=check.pick(15, 120), label='books')
             for _ in range(check.pick(40, 2000))]
    tasks[1:1] = [core.Task(vast, rng.randrange(1 << 30), number, timeout=60, label='vast') for number in check.pick((300, 1200), (260, 300, 1030, 1200, 5000))]
    check.run(tasks, deadline)
    check.finish(200)
