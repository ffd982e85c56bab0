"""C13: blueprints round-trip and mean in the game what the layout shows.

Random layouts (legal, decorated, scattered) go through `blueprint encode` and `blueprint decode`. The
oracle is lib/bp.py, an independent reader and writer of game blueprints: it lists the entities a layout
stands for, and shapes belts as the game does.
"""
import json
import random

from lib import bp, core, gen, scenes
from lib import layout as L

SURPLUS = ({'recipe': 'iron-gear-wheel'}, {'control_behavior': {}}, {'tags': {'a': 1}}, {'input_priority': 'left'},
           {'connections': {'1': {'red': [{'entity_id': 1}]}}})


def encode(report, rng, batch):
    level = rng.choice((None, 'normal', 'fast', 'express'))
    label = rng.choice((None, '', 'balancer', '4x4 "☃" \\ \u0000 –', 'a\tb'))
    argv = ['encode']
    if level is not None:
        argv += ['--level', level]
    if label is not None:
        argv += ['--label', label]
    text = ''.join(json.dumps(L.write_layout(rows)) + '\n' for rows in batch)
    run = core.run_cli('blueprint', argv, text)
    context = {'argv': argv, 'layouts': [L.show(r) for r in batch], 'run': run.describe()}
    if gen.crash(run, report, 'encode', context):
        return None
    lines = run.lines
    if len(lines) != len(batch):
        report.violation('encode:count', f'{len(lines)} blueprints for {len(batch)} layouts', context)
        return None
    for rows, line in zip(batch, lines):
        where = dict(context, layout=L.show(rows), blueprint=line)
        try:
            data = bp.unpack(line)
            got = bp.read_entities(data)
        except (bp.BadBlueprint, KeyError, TypeError, ValueError) as e:
            report.violation('encode:invalid', f'not a blueprint: {e!r}', where)
            return None
        report.count('encoded')
        want = bp.entities_of(rows, level or 'normal')
        if got != want:
            report.violation('encode:entities', f'entities differ: missing {[e for e in want if e not in got][:3]}, '
                             f'surplus {[e for e in got if e not in want][:3]}, {len(got)} for {len(want)}', where)
            return None
        inner = data['blueprint']
        numbers = [e.get('entity_number') for e in inner['entities']]
        if len(set(numbers)) != len(numbers) or not all(isinstance(n, int) and n >= 1 for n in numbers):
            report.violation('encode:numbers', 'entity numbers are not unique positive numbers', where)
        if inner.get('item') != 'blueprint' or not isinstance(inner.get('version'), int) or inner.get('label') != label:
            report.violation('encode:header', f'header item={inner.get("item")!r} version={inner.get("version")!r} label={inner.get("label")!r}', where)
        report.count('entities_checked', len(got))
    return lines


def foreign(rng, rows):
    """A blueprint of this layout as the game might export it."""
    level = rng.choice(sorted(bp.NAMES))
    entities = bp.entities_of(rows, level)
    if rng.random() < 0.3:              # mixed levels
        entities = [(dict(zip(bp.NAMES[level], bp.NAMES[rng.choice(sorted(bp.NAMES))])).get(e[0], e[0]),) + e[1:] for e in entities]
    out = []
    for e in entities:
        if e[0] == 'inserter':
            e = (rng.choice(sorted(bp.INSERTERS)),) + e[1:]
        out.append(e)
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            if t[0] == 'F':
                out.append(('wooden-chest', x + 0.5, y + 0.5, 0, None))
            elif t == ('A', 1, 1):
                out.append((f'assembling-machine-{rng.randint(1, 3)}', x + 0.5, y + 0.5, 0, None))
    rng.shuffle(out)
    offset = rng.choice(((0, 0), (rng.randint(-9, 9), rng.randint(-9, 9)), (rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 6, 10 ** 6)),
                         (-0.5, -0.5), (rng.randint(-5, 5) - 0.5, rng.randint(-5, 5)), (rng.randint(-5, 5), rng.randint(-5, 5) - 0.5)))
    data = bp.make(out, offset, rng.choice((None, 'x')), numbers=rng.random() < 0.8, explicit=rng.random() < 0.5)
    for e in data['blueprint']['entities']:
        if rng.random() < 0.1:
            for key, value in rng.choice(SURPLUS).items():
                if key != 'type':
                    e[key] = value
        if rng.random() < 0.3:
            for axis in 'xy':
                if float(e['position'][axis]).is_integer():
                    e['position'][axis] = int(e['position'][axis])
    return bp.pack(data, rng.choice((1, 6, 9))), offset


def decode(report, batch, lines, origin):
    run = core.run_cli('blueprint', ['decode'], ''.join(line + '\n' for line in lines))
    context = {'argv': ['decode'], 'layouts': [L.show(r) for r in batch], 'origin': origin, 'lines': lines, 'run': run.describe()}
    if gen.crash(run, report, 'decode', context):
        return
    got = gen.parse_lines(run, report, 'decode', context)
    if report.violations:
        return
    if len(got) != len(batch):
        report.violation('decode:count', f'{len(got)} layouts for {len(batch)} blueprints', context)
        return
    for rows, back, line in zip(batch, got, lines):
        want = bp.crop(bp.shape_belts(rows))
        report.count('decoded_' + origin)
        if want == rows:
            report.count('restored_exactly')
        if [list(r) for r in back] != want and not (L.size(back)[0] * L.size(back)[1] == 0 and not want):
            report.violation('decode:' + origin, 'the decoded layout is not the one the blueprint shows',
                             dict(context, want=L.show(want), got=L.show(back), line=line))
            return


def without_fillers(rows):
    return [[L.EMPTY if t[0] == 'F' else t for t in row] for row in rows]


def work(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(number):
        batch = [scenes.scene(rng, huge=0.02)[0] for _ in range(rng.choice((1, 2, 3, 6)))]
        for rows in batch:
            kinds = sorted({t[0] for row in rows for t in row})
            report.observe(gen.freeze(rows) if kinds != ['E'] else None)
            for kind in kinds:
                report.count('layouts_with_' + kind)
        lines = encode(report, rng, batch)
        if report.violations:
            return report
        decode(report, [without_fillers(r) for r in batch], lines, 'own')
        others = [scenes.scene(rng, machines=True, huge=0.02)[0] for _ in range(rng.choice((1, 2, 3)))]
        made = [foreign(rng, rows) for rows in others]
        for rows in others:
            report.observe(('foreign', gen.freeze(rows)))
        decode(report, others, [line for line, _ in made], 'foreign')
        if report.violations:
            return report
    report.sample({'layout': L.show(batch[0]), 'blueprint': lines[0][:80]}, 1)
    return report


def every_tile():
    """Each single entity in each direction, on its own."""
    report = core.Report()
    batch = []
    for d in range(4):
        for i in range(4):
            if i != L.opp(d):
                batch.append([[('B', i, d)]])
        for flag in (True, False):
            batch.append([[('U', d, flag)]])
        for kind in (0, 1):
            batch.append([[('I', d, kind)]])
        w, h = (1, 2) if d % 2 == 0 else (2, 1)
        rows = [[L.EMPTY] * w for _ in range(h)]
        x, y = (0, 1) if d == 0 else (1, 0) if d == 1 else (0, 0)
        dx, dy = L.VEC[L.left_of(d)]
        rows[y][x] = ('S', d, True)
        rows[y + dy][x + dx] = ('S', d, False)
        batch.append(rows)
    batch.append([[L.EMPTY]])
    for seed in range(12):
        rng = random.Random(seed)
        lines = encode(report, rng, batch)
        if report.violations:
            return report
        decode(report, batch, lines, 'own')
        decode(report, batch, [foreign(rng, rows)[0] for rows in batch], 'foreign')
    for rows in batch:
        report.observe(('single', gen.freeze(rows)))
    return report


def vast(seed):
    """A layout of tens of thousands of entities between small ones."""
    rng = random.Random(seed)
    report = core.Report()
    w, h = rng.choice(((150, 200), (400, 70), (45, 600)))
    batch = [scenes.scene(rng)[0], scenes.scatter(rng, w, h, 0.9, False, True, False), scenes.scene(rng)[0]]
    report.observe(gen.freeze(batch[1]))
    report.count('vast')
    lines = encode(report, rng, batch)
    if not report.violations:
        decode(report, [without_fillers(r) for r in batch], lines, 'own')
        decode(report, batch[1:2], [foreign(rng, batch[1])[0]], 'foreign')
    return report


def main():
    check = core.Check('C13', 'exploration',
                       'one evaluation = one layout encoded and decoded by the tool, or one blueprint written by the independent writer and '
                       'decoded; non-trivial = not empty; distinct = different layouts',
                       ['how the game shapes and places entities is taken from lib/bp.py'])
    core.tool('blueprint')
    rng = check.rng
    deadline = check.budget(20, 240)
    tasks = [core.Task(every_tile, timeout=20, label='every tile')]
    tasks += [core.Task(vast, rng.randrange(1 << 30), timeout=60, label='vast') for _ in range(check.pick(3, 40))]
    tasks += [core.Task(work, rng.randrange(1 << 30), check.pick(60, 400), timeout=check.pick(15, 120), label='blueprints')
              for _ in range(check.pick(48, 3000))]
    check.run(tasks, deadline)
    check.finish(300)
