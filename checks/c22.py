"""C22: rendered pictures show the layout.

The renderer runs as it is, with stand-ins around it: OpenGL draws into arrays (lib/softgl.py), the sprite
files are made up (lib/pictures.py), `ffmpeg` is a recorder, and key presses come from a script.
Monitor: every frame handed to ffmpeg, and every picture shown in the window, is compared with a picture
composed directly from the layout.
"""
import json
import os
import random
import re
import stat

from lib import bp, core, gen, pictures, scenes, softgl
from lib import layout as L

FAKE = '''#!/bin/sh
n=$(ls "$VERIF_FFMPEG" | grep -c '\\.args$')
for a in "$@"; do printf '%s\\n' "$a"; done > "$VERIF_FFMPEG/$n.args"
exec cat > "$VERIF_FFMPEG/$n.raw"
'''


class Stage:
    """Everything around the renderer."""

    def __init__(self, script):
        import PIL.Image
        import pygame
        self.gl = softgl.SoftGL()
        self.shown = []             # (layout shown as the tool was told, picture)
        self.size = None
        self.failed_asset = None
        os.makedirs('bin')
        os.makedirs('films')
        with open('bin/ffmpeg', 'w') as f:
            f.write(FAKE)
        os.chmod('bin/ffmpeg', stat.S_IRWXU)
        os.environ['PATH'] = os.path.abspath('bin') + os.pathsep + os.environ.get('PATH', '')
        os.environ['VERIF_FFMPEG'] = os.path.abspath('films')
        softgl.install(self.gl)
        core.tool('render')
        softgl.install(self.gl)
        real_open = PIL.Image.open

        def open_image(fp, *args, **kwargs):
            name = os.path.basename(str(fp))
            if name in pictures.SHEETS:
                return pictures.open_image(name)
            return real_open(fp, *args, **kwargs)
        PIL.Image.open = open_image
        self.steps = iter(script) if script is not None else None
        self.ended = False

        class Clock:
            def tick(self, *_):
                return 0
            tick_busy_loop = get_time = tick

            def get_fps(self):
                return 60.0

        def set_mode(size=(0, 0), *args, **kwargs):
            self.size = tuple(size)
            self.gl.set_mode(self.size)
            return None

        def flip(*_):
            self.shown.append(self.gl.pixels(0)[::-1, :, :3].copy())

        def get(*args, **kwargs):
            """The events of this turn: a script of keys, or nothing."""
            if self.steps is None:
                return []
            for step in self.steps:
                self.shown.append(step)
                if step is None:
                    return []
                if step == 'quit':
                    return [pygame.event.Event(pygame.QUIT)]
                return [pygame.event.Event(pygame.KEYDOWN, key=getattr(pygame, 'K_' + step))]
            return [pygame.event.Event(pygame.QUIT)]
        pygame.display.set_mode = set_mode
        pygame.display.flip = flip
        pygame.display.update = flip
        pygame.display.set_caption = lambda *a, **k: None
        pygame.event.get = get
        pygame.time.Clock = Clock

    def films(self):
        """[(arguments, bytes)] handed to ffmpeg, in order."""
        result = []
        n = 0
        while os.path.exists(f'films/{n}.args'):
            with open(f'films/{n}.args') as f:
                args = f.read().split('\n')[:-1]
            with open(f'films/{n}.raw', 'rb') as f:
                result.append((args, f.read()))
            n += 1
        return result


def film_frames(args, data):
    """(name of the file, frames (n, h, w, 3)) or (name, None) when the format is not the expected kind."""
    import numpy as np
    name = next((a for a in args if re.search(r'\.(gif|mp4)$', a)), None)

    def value(option):
        return args[args.index(option) + 1] if option in args else None
    before = args[:args.index('-i')] if '-i' in args else args
    size = next((before[i + 1] for i, a in enumerate(before[:-1]) if a in ('-s', '-video_size', '-s:v')), None)
    pixel = next((before[i + 1] for i, a in enumerate(before[:-1]) if a == '-pix_fmt'), None)
    if size is None or pixel != 'rgb24' or value('-f') != 'rawvideo':
        return name, None, None
    w, h = map(int, size.split('x'))
    if not w or not h or len(data) % (3 * w * h):
        return name, (w, h), None
    return name, (w, h), np.frombuffer(data, np.uint8).reshape(-1, h, w, 3)


class Expected:
    """Pictures of one layout, made when needed."""

    def __init__(self, rows, cells, settings):
        self.rows, self.cells, self.settings = rows, cells, settings
        self.made = {}

    def frame(self, k):
        if k not in self.made:
            self.made[k] = pictures.frame(self.rows, self.cells, k, **self.settings)
        return self.made[k]

    @property
    def length(self):
        return pictures.length(self.rows)


LIMIT = 0.004


def colour_cells(rng, rows):
    """Cells as the generators write them: with colours and undergrounds, or without."""
    kind = rng.randrange(4)
    n = rng.choice((1, 2, 3, 4, 5, 7))
    cells = L.write_layout(rows)
    for row, line in zip(rows, cells):
        for t, cell in zip(row, line):
            if kind == 0:
                continue
            cell['colour'] = rng.randrange(n) if rng.random() < 0.9 or kind == 1 else None
            if kind == 3:
                cell['colour'] = [cell['colour'] or 0, rng.randrange(n)]
            for key in ('colour_ux', 'colour_uy'):
                cell[key] = rng.randrange(n)
            cell['underground'] = [rng.random() < 0.2 for _ in range(4)]
            cell['flow'] = [rng.randrange(10), rng.randrange(100)]
            cell['more'] = {'deep': rng.randrange(5)}
    return cells


def make_layout(rng, report, machines=0.4):
    w, h = rng.randrange(1, 8), rng.randrange(1, 7)
    rows = scenes.scatter(rng, w, h, rng.choice((0.3, 0.7, 1.0)), machines=rng.random() < machines, splitters=rng.random() < 0.7)
    return rows, colour_cells(rng, rows)


def generated(rng):
    """A layout straight from a generator."""
    nodes = rng.choice([((((0, 0), (1, 1))),), (((0, None), (1, 1)),), (((0, 0), (2, 2)), ((2, 2), (1, 1)))])
    nodes = [(i, o) for i, o in nodes]
    with open('net', 'w') as f:
        f.write(gen.network_text(nodes))
    run = core.run_cli('belt_balancer', ['net', rng.randrange(4, 7), rng.randrange(3, 5), '--all'], max_lines=2)
    out = []
    for line in run.lines[:2]:
        try:
            cells = json.loads(line)
            out.append((L.read_layout(cells), cells))
        except (ValueError, KeyError, TypeError, L.BadTile):
            pass
    return out


def usual(cells):
    """Colours the palette argument can take."""
    used = set()
    for row in cells:
        for item in row:
            for key in ('colour', 'colour_ux', 'colour_uy'):
                value = item.get(key, 0)
                used.update(value if isinstance(value, list) else [value])
    used.discard(None)
    return max(used, default=0) + 1


def options_for(rng, layouts):
    cell = rng.choice((13, 17, 19, 23, 29))
    argv, settings = ['--cell-size', cell], {'cell': cell, 'colouring': True, 'underground': False, 'padding': 0.0, 'colour_count': None, 'raw': ()}
    if rng.random() < 0.5:
        argv.append('--hide-colour')
        settings['colouring'] = False
    if rng.random() < 0.4:
        argv.append('--show-underground')
        settings['underground'] = True
    if rng.random() < 0.4:
        settings['padding'] = rng.choice((1.0, 0.5, 2.0, 0.25))
        argv += ['--padding', settings['padding']]
    if settings['colouring'] and rng.random() < 0.3:
        settings['colour_count'] = max(usual(cells) for _, cells in layouts) + rng.randrange(3)
        argv += ['--colour-count', settings['colour_count']]
    if rng.random() < 0.35 and all('flow' in item for _, cells in layouts for row in cells for item in row):
        settings['raw'] = rng.choice((('colour',), ('flow',), ('colour', 'colour_ux'), ('more.deep',), ('flow.1',), ('flow.0', 'colour'), ('absent',),
                                      ('more.absent', 'flow.1')))
        for name in settings['raw']:
            argv += ['--show-raw', name]
    return argv, settings


def describe(layouts):
    return [{'layout': L.show(rows), 'cells': cells} for rows, cells in layouts]


def prepare(rng, report, n, machines=0.4):
    layouts = generated(rng) if rng.random() < 0.15 else []
    while len(layouts) < n:
        layouts.append(make_layout(rng, report, machines))
    return layouts


def export(seed):
    """All layouts to films."""
    rng = random.Random(seed)
    report = core.Report()
    layouts = prepare(rng, report, rng.choice((1, 1, 2, 3)))
    stage = Stage(None)
    argv, settings = options_for(rng, layouts)
    form = rng.choice(([], ['--export-format', 'gif'], ['--export-format', 'video']))
    argv = argv + ['--export-all'] + form
    run = core.run_cli('render', argv, stdin=''.join(json.dumps(cells) + '\n' for _, cells in layouts))
    context = {'argv': [str(a) for a in argv], 'layouts': describe(layouts)}
    report.count('runs')
    report.count('draw_calls', stage.gl.calls)
    report.count('quads', stage.gl.quads)
    if stage.gl.unsupported:
        report.count('runs_not_judged')
        report.count('unsupported_' + sorted(stage.gl.unsupported)[0])
        return report
    if gen.crash(run, report, 'render', context):
        return report
    films = stage.films()
    suffix = '.gif' if 'gif' in form else '.mp4'
    names = [film_frames(*film)[0] for film in films]
    wanted = [f'{i}{suffix}' for i in range(len(layouts))]
    if [os.path.basename(str(name)) for name in names] != wanted:
        report.violation('films', f'films {names} were written, {wanted} wanted', context)
        return report
    for i, film in enumerate(films):
        rows, cells = layouts[i]
        expected = Expected(rows, cells, settings)
        _, size, frames = film_frames(*film)
        if size is None:
            report.count('films_not_judged')
            continue
        first = expected.frame(0)
        if frames is None or frames.shape[1:] != first.shape or size != first.shape[1::-1]:
            report.violation('size', f'film {i} is made of pictures of {size}, {first.shape[1::-1]} wanted ({len(film[1])} bytes)', context)
            return report
        if len(frames) != expected.length:
            report.violation('length', f'film {i} has {len(frames)} frames, {expected.length} wanted', context)
            return report
        report.count('films')
        for k in range(expected.length):
            report.observe(('frame', i, k, gen.freeze(rows), str(sorted((a, str(b)) for a, b in settings.items()))))
            report.count('frames')
            share = pictures.differs(frames[k], expected.frame(k))
            if share > LIMIT:
                report.violation('frame', f'frame {k} of film {i} does not show the layout ({100 * share:.1f} % of the picture differs)',
                                 dict(context, film=i, frame=k))
                return report
    report.sample({'argv': context['argv'], 'layout': L.show(layouts[0][0])}, 1)
    return report


def browse(seed):
    """Going through the layouts with the keys of the window."""
    rng = random.Random(seed)
    report = core.Report()
    layouts = prepare(rng, report, rng.choice((1, 2, 3, 4)), rng.choice((0, 0.4)))
    script = []
    # from time to time: forward, back, and then use the layout there
    keys = rng.choice((None, None, 'iike', 'ikse', 'iiike', 'ike', 'kie', 'iiiiike')) or [rng.choice('iiikkses') for _ in range(rng.randrange(2, 7))]
    for key in keys:
        script.append(key)
        script += [None] * (rng.randrange(66, 80) if key == 's' else rng.choice((0, 0, 1, 3, 10)))
    script += [None] * 3 + ['quit']
    belts = [all(t[0] in 'EFBUS' for row in rows for t in row) and any(t[0] in 'BUS' for row in rows for t in row) for rows, _ in layouts]
    # follow the keys: what is to be on the screen, exported and saved
    index, known, closed = 0, 1, False
    position, plan = [], []
    kept = []
    for key in script:
        if key == 'e' and not belts[index]:
            key = None
        kept.append(key)
        if key in ('i', 'k'):
            index += 1 if key == 'i' else -1
            if not closed and index >= known:
                if known < len(layouts):
                    known += 1
                else:
                    closed = True
            index %= known
        elif key in ('s', 'e'):
            plan.append((key, index))
        position.append(index)
    script = kept
    stage = Stage(script)
    argv, settings = options_for(rng, layouts)
    run = core.run_cli('render', argv, stdin=''.join(json.dumps(cells) + '\n' for _, cells in layouts))
    context = {'argv': [str(a) for a in argv], 'keys': [k or '-' for k in script], 'layouts': describe(layouts)}
    report.count('runs')
    report.count('draw_calls', stage.gl.calls)
    if stage.gl.unsupported:
        report.count('runs_not_judged')
        report.count('unsupported_' + sorted(stage.gl.unsupported)[0])
        return report
    if gen.crash(run, report, 'render', context):
        return report
    expected = [Expected(rows, cells, settings) for rows, cells in layouts]
    turn, last = -1, None
    for item in stage.shown:
        if item is None or isinstance(item, str):
            turn += 1
            if item in ('i', 'k'):
                last = None
            continue
        if turn < 0 or script[turn] == 'quit':
            continue
        want = expected[position[turn]]
        report.observe(('shown', position[turn], gen.freeze(want.rows), turn % 8))
        report.count('pictures_shown')
        # frames follow each other; at first any will do
        choices = range(want.length) if last is None else sorted({(k + step) % want.length for k in last for step in (0, 1)})
        found = [k for k in choices if pictures.differs(item, want.frame(k)) <= LIMIT]  # frames can look alike
        if not found:
            report.violation('shown', f'turn {turn} does not show layout {position[turn]}' + ('' if last is None else f' after its frame {last}'),
                             dict(context, turn=turn))
            return report
        last = found
    exported = [line for line in run.lines if line.startswith('0e')]
    wanted = [i for key, i in plan if key == 'e']
    if len(exported) != len(wanted):
        report.violation('blueprints', f'{len(exported)} blueprints were printed, {len(wanted)} asked for', context)
        return report
    for text, i in zip(exported, wanted):
        report.count('blueprints')
        try:
            found = sorted(bp.read_entities(bp.unpack(text)), key=str)
        except bp.BadBlueprint as e:
            report.violation('blueprints', f'a printed blueprint cannot be read: {e}', context)
            return report
        if found != sorted(bp.entities_of(layouts[i][0]), key=str):
            report.violation('blueprints', f'the printed blueprint is not layout {i}', context)
            return report
    # a film is saved once all its frames were shown; keys that move on first may drop it or save the next one
    films = stage.films()
    for film in films:
        name, size, frames = film_frames(*film)
        number = re.match(r'(\d+)\.mp4$', os.path.basename(str(name)))
        if number is None or int(number.group(1)) >= len(layouts):
            report.violation('films', f'a film {name} was saved', context)
            return report
        want = expected[int(number.group(1))]
        if frames is None:
            continue
        report.count('films')
        if len(frames) != want.length or any(pictures.differs(f, want.frame(k)) > LIMIT for k, f in enumerate(frames)):
            report.violation('films', f'the film {name} does not show its layout', context)
            return report
    asked = [i for key, i in plan if key == 's']
    saved = [int(re.match(r'(\d+)', os.path.basename(str(film_frames(*film)[0]))).group(1)) for film in films]
    if saved != asked:
        report.violation('films', f'films of the layouts {saved} were saved, {asked} asked for', context)
    return report


def main():
    check = core.Check('C22', 'exploration',
                       'one evaluation = one frame given to ffmpeg, or one picture shown in the window, compared with the picture '
                       'composed directly from the layout; distinct = different (layout, options, frame)',
                       ['OpenGL, the sprite files of the game, the window and ffmpeg are stand-ins: the real ones are not in the sandbox',
                        'which sprite of a sheet shows what is taken from the layout of the sheets at the pinned commit'])
    rng = check.rng
    for name in pictures.SHEETS:
        pictures.sheet(name)
    deadline = check.budget(60, 500)
    tasks = []
    for _ in range(check.pick(400, 8000)):
        tasks.append(core.Task(browse if rng.random() < 0.35 else export, rng.randrange(1 << 30), timeout=check.pick(25, 60), label='render'))
    check.run(tasks, deadline)
    check.finish(0)
