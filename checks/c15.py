"""C15: the text form of a layout is faithful.

Random layouts and streams of layouts go through `stringifier encode` and back through `decode`. Every tile
that has a text form is met at every kind of position. Distinct layouts must keep distinct texts. Tiles
without a text form (inserters, machines) must not come back as something else.
"""
import json
import random

from lib import core, gen, scenes
from lib import layout as L


def alphabet():
    tiles = [L.EMPTY, ('F',)]
    for d in range(4):
        tiles += [('B', i, d) for i in range(4) if i != L.opp(d)]
        tiles += [('U', d, f) for f in (True, False)]
        tiles += [('S', d, f) for f in (True, False)]
    return tiles


TILES = alphabet()


def split_texts(text):
    """Boxes of a stream, by their frame: widths and heights are read off the frame alone."""
    boxes, current = [], []
    for line in text.split('\n'):
        if line == '' and not current:
            continue
        current.append(line)
        if line.endswith('┘'):
            boxes.append('\n'.join(current))
            current = []
    return boxes, current


def encode(report, batch, context):
    run = core.run_cli('stringifier', ['encode'], ''.join(json.dumps(L.write_layout(r)) + '\n' for r in batch))
    context = dict(context, run=run.describe())
    if gen.crash(run, report, 'encode', context):
        return None
    boxes, rest = split_texts(run.out)
    if rest or len(boxes) != len(batch):
        report.violation('encode:count', f'{len(boxes)} texts for {len(batch)} layouts', dict(context, text=run.out))
        return None
    return run.out, boxes


def judge(report, batch, rng, seen):
    context = {'layouts': [L.show(r) for r in batch]}
    result = encode(report, batch, context)
    if result is None:
        return
    text, boxes = result
    for rows, box in zip(batch, boxes):
        other = seen.setdefault(box, gen.freeze(rows))
        if other != gen.freeze(rows):
            report.violation('ambiguous', 'two layouts have the same text form', dict(context, one=L.show(rows), other=L.show(other), text=box))
            return
    forms = [('piped', text)]
    if rng.random() < 0.3:
        pad = ' ' * rng.randrange(1, 5)
        forms.append(('indented', ''.join(pad + line + pad + '\n' for line in text.rstrip('\n').split('\n'))))
    for form, stdin in forms:
        run = core.run_cli('stringifier', ['decode'], stdin)
        where = dict(context, text=stdin, run=run.describe())
        if gen.crash(run, report, 'decode', where):
            return
        got = gen.parse_lines(run, report, 'decode', where)
        report.count('decoded_' + form, len(got))
        if [gen.freeze(r) for r in got] != [gen.freeze(r) for r in batch]:
            report.violation('decode:' + form, 'the text form does not give the layout back', dict(where, got=[L.show(r) for r in got]))
            return


def unknown(report, rng):
    """Layouts with tiles that have no text form: an error or the same layout, never another one."""
    rows, _ = scenes.scene(rng, machines=True)
    if not any(t[0] in 'IA' for row in rows for t in row):
        rows[rng.randrange(len(rows))][rng.randrange(len(rows[0]))] = ('I', rng.randrange(4), rng.randrange(2))
    run = core.run_cli('stringifier', ['encode'], json.dumps(L.write_layout(rows)) + '\n')
    report.count('without_text_form')
    report.observe(('unknown', gen.freeze(rows)))
    if run.failed:
        return
    back = core.run_cli('stringifier', ['decode'], run.out)
    if back.failed:
        report.count('refused')
        return
    got = gen.parse_lines(back, report, 'unknown', {'layout': L.show(rows), 'text': run.out})
    if [gen.freeze(r) for r in got] != [gen.freeze(rows)]:
        report.violation('unknown', 'a tile without a text form comes back as another tile', {'layout': L.show(rows), 'text': run.out,
                         'got': [L.show(r) for r in got]})


def any_tiles(rng):
    w, h = rng.randint(1, 12), rng.randint(1, 12)
    if rng.random() < 0.02:
        w, h = rng.choice(((w, 20 * h), (20 * w, h)))
    few = rng.sample(TILES, rng.choice((1, 2, 5, len(TILES))))
    return [[rng.choice(few) for _ in range(w)] for _ in range(h)]


def work(seed, number):
    rng = random.Random(seed)
    report = core.Report()
    seen = {}
    for _ in range(number):
        batch = []
        for _ in range(rng.choice((1, 1, 2, 3, 7))):
            if rng.random() < 0.5:
                batch.append(any_tiles(rng))
            else:
                batch.append(scenes.scene(rng, inserters=False, huge=0.02)[0])
            if rng.random() < 0.3:      # a near twin, one tile away
                twin = [list(row) for row in batch[-1]]
                twin[rng.randrange(len(twin))][rng.randrange(len(twin[0]))] = rng.choice(TILES)
                batch.append(twin)
        for rows in batch:
            report.observe(gen.freeze(rows))
            report.count('tiles', len(rows) * len(rows[0]))
        judge(report, batch, rng, seen)
        if rng.random() < 0.2:
            unknown(report, rng)
        if report.violations:
            return report
    report.sample({'layout': L.show(batch[0])}, 1)
    return report


def pairs(start, step):
    """Every pair of tiles, side by side and on top of each other."""
    report = core.Report()
    rng = random.Random(0)
    seen = {}
    batch = []
    everything = [(a, b) for a in TILES for b in TILES]
    for a, b in everything[start::step]:
        batch.append([[a, b]])
        batch.append([[a], [b]])
        report.observe(('pair', a, b))
    for a in TILES:
        batch.append([[a]])
    judge(report, batch, rng, seen)
    report.count('tile_pairs', len(everything[start::step]))
    return report


def main():
    check = core.Check('C15', 'exploration',
                       'one evaluation = one layout turned into text and back; non-trivial = all; distinct = different layouts', [])
    core.tool('stringifier')
    rng = check.rng
    deadline = check.budget(12, 180)
    tasks = [core.Task(pairs, k, 4, timeout=20, label='pairs') for k in range(4)]
    tasks += [core.Task(work, rng.randrange(1 << 30), check.pick(60, 400), timeout=check.pick(15, 120), label='texts')
              for _ in range(check.pick(40, 2000))]
    check.run(tasks, deadline)
    check.finish(300)
