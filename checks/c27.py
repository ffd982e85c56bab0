"""C27: requests that contradict themselves, and input that is broken, are refused; the request next to them is answered.

Monitor: a refused request ends with an error and prints nothing but what earlier, sound lines of its input call for
(as a run with those lines alone prints it); the files it was given are as before. The sound request it was made from
is answered without an error. Workload: sound requests to every tool, each spoiled in one way.
"""
import base64
import json
import os
import random
import subprocess
import sys
import zlib

from lib import bp, core, gen
from lib import layout as L

SIMPLE = '0 0 1 1\n'
MACHINE = 'assembling_machine'


class Request:
    def __init__(self, tool, argv, files=None, stdin='', lines=1):
        self.tool, self.argv, self.files, self.stdin, self.lines = tool, [str(a) for a in argv], dict(files or {}), stdin, lines

    def but(self, **changes):
        other = Request(self.tool, self.argv, self.files, self.stdin, self.lines)
        for k, v in changes.items():
            setattr(other, k, v)
        other.argv = [str(a) for a in other.argv]
        return other

    def describe(self):
        return {'tool': self.tool, 'argv': self.argv, 'files': {k: v[:3000] for k, v in self.files.items()}, 'stdin': self.stdin[:3000]}


def write(files):
    for name, text in files.items():
        os.makedirs(os.path.dirname(name) or '.', exist_ok=True)
        with open(name, 'w') as f:
            f.write(text)


def ask(request):
    write(request.files)
    return core.run_cli(request.tool, request.argv, request.stdin, max_lines=request.lines if request.lines else None)


def swap(argv, k, value):
    return argv[:k] + [value] + argv[k + 1:]


# ---------------------------------------------------------------------------
# spoiled requests: (way, sound request, spoiled request, what it prints before the error: a request or None)
# ---------------------------------------------------------------------------

def layout_of(rng, w=None, h=None):
    while True:
        rows = gen.random_legal(rng, w or rng.randrange(2, 6), h or rng.randrange(2, 6))
        if rows is not None:
            return rows


def line_of(rows):
    return json.dumps(L.write_layout(rows)) + '\n'


def network_of(rng):
    if rng.random() < 0.5:
        return SIMPLE
    nodes = gen.random_network(rng, 2)
    return gen.network_text(nodes)


def balancer(rng):
    text = network_of(rng)
    w, h = rng.randrange(4, 8), rng.randrange(4, 6)
    extra = rng.choice(([], ['--glue-splitters'], ['--expand-underground'], ['--prevent-bad-patterns'], ['--use-ends'],
                        ['--prevent-mergeable-underground'], ['--fast']))
    base = Request('belt_balancer', ['net', w, h] + extra + rng.choice(([], ['--underground-length', rng.choice((1, 2, 3, 5, -1))])), {'net': text})
    way = rng.randrange(8)
    if way == 0:
        pair = rng.sample(['--edge-splitters', '--edge-belts'], 2)
        for option in pair:
            yield 'edge options', base.but(argv=base.argv + [option]), base.but(argv=base.argv + pair)
    elif way == 1:
        ends = rng.sample(['--aligned', '--90', '--180', '--custom'], rng.choice((2, 2, 2, 3, 4)))
        argv = list(base.argv)
        for option in ends:
            argv.insert(rng.randrange(3, len(argv) + 1) if '--underground-length' not in argv else 3, option)
        yield 'several kinds of ends', base.but(argv=base.argv + ends[:1]), base.but(argv=argv)
    elif way == 2:
        pair = rng.sample(['--90', '--break-symmetry'], 2)
        yield 'symmetry of a corner', base.but(argv=base.argv + [rng.choice(pair)]), base.but(argv=base.argv + pair)
    elif way == 3:
        yield 'size', base, base.but(argv=swap(base.argv, rng.choice((1, 2)), rng.choice((0, -1, -5))))
    elif way == 4:
        yield 'underground length', base.but(argv=['net', w, h, '--underground-length', 2]), base.but(argv=['net', w, h, '--underground-length', rng.choice((-2, -3, -10))])
    elif way == 5:
        # networks that are none (unreadable lines: C18)
        yield 'network', base, base.but(files={'net': rng.choice((
            '',                                     # no splitter at all
            '# 0 0 1 1\n',
            '0 2 1 1\n',                            # two belts of different colours come in
            '0 0 1 2\n',
            '0 0 0 0\n',                            # nothing comes in or leaves
            '0 -1 1 -1\n',                          # a splitter with an open side on both ends
            '-1 -1 1 1\n',
        ))})
    elif way == 6:
        yield 'pins', base.but(argv=base.argv + ['--partial', 'part'], files=dict(base.files, part=line_of([[L.EMPTY] * w] * h))), \
            base.but(argv=base.argv + ['--partial', 'part'], files=dict(base.files, part=spoiled_pins(rng, w, h)))
    else:
        yield from words(rng, base, (1, 2))


def spoiled_pins(rng, w, h):
    """Pins beyond the board, or of what no generator places."""
    way = rng.randrange(6)
    cells = L.write_layout([[L.EMPTY] * w] * h)
    tile = L.write_tile(('B', 0, 0))
    if way == 0:
        extra = rng.randrange(1, 4)
        cells = L.write_layout([[L.EMPTY] * (w + extra)] * h)
        cells[rng.randrange(h)][w + rng.randrange(extra)] = {'tile': tile}
    elif way == 1:
        extra = rng.randrange(1, 4)
        cells = L.write_layout([[L.EMPTY] * w] * (h + extra))
        cells[h + rng.randrange(extra)][rng.randrange(w)] = {'tile': tile}
    elif way == 2:
        cells[rng.randrange(h)][rng.randrange(w)] = {'tile': rng.choice(({'type': 'inserter', 'direction': rng.randrange(4), 'insert_type': rng.randrange(2)}, {'type': MACHINE, 'x': 1, 'y': 1}))}
    elif way == 3:
        cells[rng.randrange(h)][rng.randrange(w)] = {'tile': {'type': 'nonsense'}}
    elif way == 4:
        text = json.dumps(cells)
        return text[:rng.randrange(1, len(text))]
    else:
        return rng.choice(('', '0', 'nonsense', '0AAAA', '{}'))
    return json.dumps(cells)


def words(rng, base, places):
    """Something that is no number, an unknown solver, an unknown option."""
    way = rng.randrange(4)
    if way == 0:
        yield 'no number', base, base.but(argv=swap(base.argv, rng.choice(places), rng.choice(('x', '1.5', '', '4 4', '0x4'))))
    elif way == 1:
        yield 'solver', base, base.but(argv=base.argv + ['--solver', rng.choice(('nosuch', '', 'Glucose99', 'lib:/nonexistent.so', 'cmd:/nonexistent'))])
    elif way == 2:
        yield 'unknown option', base, base.but(argv=base.argv + [rng.choice(('--nosuch', '--width', '-q'))])
    else:
        k = rng.choice(places)
        yield 'missing argument', base, base.but(argv=base.argv[:k] + base.argv[k + 1:])


def free(rng):
    n, m = rng.choice(((1, 1), (1, 2), (2, 1), (2, 2)))
    base = Request('belt_balancer_net_free', [rng.randrange(4, 8), rng.randrange(3, 6), n, m] + rng.choice(([], ['--aligned'])))
    way = rng.randrange(5)
    if way < 2:
        yield 'size', base, base.but(argv=swap(base.argv, rng.randrange(4), rng.choice((0, -1, -4))))
    elif way == 2:
        yield 'underground length', base, base.but(argv=base.argv + ['--underground-length', rng.choice((-2, -3, -10))])
    elif way == 3:
        w, h = int(base.argv[0]), int(base.argv[1])
        yield 'pins', base, base.but(argv=base.argv + ['--partial', 'part'], files={'part': spoiled_pins(rng, w, h)})
    else:
        yield from words(rng, base, (0, 1, 2, 3))


def power(rng):
    base = Request('belt_balancer_net_free_power_of_2', [rng.randrange(6, 9), 4, '--underground-length', rng.choice((3, 4, 6))])
    way = rng.randrange(5)
    if way == 0:
        yield 'size', base, base.but(argv=swap(base.argv, 0, rng.choice((0, -1, -4))))
    elif way == 1:
        yield 'no power of two', base, base.but(argv=swap(base.argv, 1, rng.choice((3, 5, 6, 7, 9, 10, 12, 24, 0, -4))))
    elif way == 2:
        yield 'underground length', base, base.but(argv=swap(base.argv, 3, rng.choice((-2, -3, -10))))
    elif way == 3:
        yield 'pins', base, base.but(argv=base.argv + ['--partial', 'part'], files={'part': spoiled_pins(rng, int(base.argv[0]), 4)})
    else:
        yield from words(rng, base, (0, 1))


def interchange(rng):
    h = rng.choice((2, 2, 4))
    base = Request('interchange', [rng.randrange(2, 6) if h == 2 else rng.randrange(6, 8), h] + rng.choice(([], ['--alternating'], ['--rot-symmetry'])))
    way = rng.randrange(6)
    if way < 2:
        yield 'odd height', base, base.but(argv=swap(base.argv, 1, rng.choice((1, 3, 5, 7))))
    elif way == 2:
        yield 'size', base, base.but(argv=swap(base.argv, rng.randrange(2), rng.choice((0, -1, -2, -4))))
    elif way == 3:
        yield 'underground length', base, base.but(argv=base.argv + ['--underground-length', rng.choice((-2, -3, -10))])
    elif way == 4:
        yield 'pins', base, base.but(argv=base.argv + ['--partial', 'part'], files={'part': spoiled_pins(rng, int(base.argv[0]), h)})
    else:
        yield from words(rng, base, (0, 1))


def block(rng):
    base = Request('make_block', [rng.randrange(2, 5) * 2, rng.randrange(2, 6)] + rng.choice(([], ['--tile'], ['--no-parallel'])))
    way = rng.randrange(5)
    if way < 2:
        pair = rng.sample(['--allow-empty', '--single-loop'], 2)
        yield 'empty tiles on a single loop', base.but(argv=base.argv + [rng.choice(pair)]), base.but(argv=base.argv + pair)
    elif way == 2:
        yield 'underground length', base, base.but(argv=base.argv + ['--underground-length', rng.choice((-1, -2, -10))])
    elif way == 3:
        yield 'size', base, base.but(argv=swap(base.argv, rng.randrange(2), rng.choice((0, -1, -4))))
    else:
        yield from words(rng, base, (0, 1))


def networks(rng):
    base = Request('network', ['create', 'out', rng.randrange(2, 12)], lines=0)
    way = rng.randrange(5)
    if way == 0:
        yield 'size', base, base.but(argv=swap(base.argv, 2, rng.choice((1, 0, -1, -8))))
    elif way == 1:
        yield 'no number', base, base.but(argv=swap(base.argv, 2, rng.choice(('x', '', '2.5'))))
    elif way == 2:
        yield 'operation', base, base.but(argv=swap(base.argv, 0, rng.choice(('make', '', 'Create', 'optimise'))))
    elif way == 3:
        sound = Request('network', ['flip', 'net', 'out'], {'net': network_of(rng)}, lines=0)
        yield 'missing file', sound, sound.but(argv=['flip', 'missing', 'out'])
    else:
        rows = layout_of(rng)
        sound = Request('network', ['parse', 'out'], stdin=line_of(GOOD_LAYOUT), lines=0)
        k = rng.randrange(2)
        spoilt = [list(row) for row in GOOD_LAYOUT]       # an underground that ends nowhere or comes from nowhere
        x = rng.choice((0, 2))
        spoilt[k][x] = ('U', 0, x == 2)
        yield 'layout', sound, sound.but(stdin=rng.choice((line_of(spoilt), line_of(rows)[:-3] + '\n', 'nonsense\n', '')))


GOOD_LAYOUT = L.unshow(['>> s> >>', '>> S> >>'])


def book_line(rows):
    return bp.pack({'blueprint': {'item': 'blueprint', 'version': 281474976710656, 'entities': entities(rows)}})


def entities(rows):
    result = []
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            if t[0] == 'B':
                result.append({'entity_number': len(result) + 1, 'name': 'transport-belt', 'position': {'x': x + .5, 'y': y + .5},
                               'direction': (2, 0, 6, 4)[t[2]]})
    return result


def broken_string(rng, data):
    """Blueprint strings that are none, each for another reason."""
    text = json.dumps(data)
    packed = zlib.compress(text.encode(), 9)
    way = rng.randrange(8)
    if way == 0:        # another version
        return rng.choice('123456789x') + base64.b64encode(packed).decode()
    if way == 1:        # cut off
        whole = base64.b64encode(packed).decode()
        return '0' + whole[:4 * (rng.randrange(1, max(2, len(whole) // 4)) if rng.random() < 0.5 else len(whole) // 4 - rng.choice((1, 1, 2)))]
    if way == 2:        # one byte wrong (found by the checksum)
        k = rng.randrange(2, len(packed))
        packed = packed[:k] + bytes([packed[k] ^ (1 << rng.randrange(8))]) + packed[k + 1:]
        try:
            if zlib.decompress(packed) == text.encode():
                return '1' + base64.b64encode(packed).decode()
        except zlib.error:
            pass
        return '0' + base64.b64encode(packed).decode()
    if way == 3:        # not compressed
        return '0' + base64.b64encode(text.encode()).decode()
    if way == 4:        # cut off before it was compressed
        return '0' + base64.b64encode(zlib.compress(text[:rng.randrange(1, len(text))].encode())).decode()
    if way == 5:        # no version
        return 'e' + base64.b64encode(packed).decode()
    if way == 6:
        return rng.choice(('', '0', 'nonsense', '0====', text))
    return '0' + base64.b64encode(zlib.compress(rng.choice((b'', b'null garbage', b'[1, 2', b'\xff\xfe')))).decode()


def spoil_json(rng, rows):
    """A line that is no layout."""
    line = line_of(rows).strip()
    cells = L.write_layout(rows)
    y, x = rng.randrange(len(cells)), rng.randrange(len(cells[0]))
    way = rng.randrange(6)
    if way == 0:
        return line[:rng.randrange(0, len(line))]
    if way == 1:
        cells[y][x] = {'tile': {'type': rng.choice(('nonsense', 'Belt', '', 'splitters'))}}
    elif way == 2:
        cells[y][x] = {}
    elif way == 3:
        cells[y][x] = {'tile': {}}
    elif way == 4:
        cells[y][x] = {'tile': {'type': 'belt', 'input_direction': 0}}
    else:
        return rng.choice(('nonsense', '', '[[{"tile": {"type": "empty"}}', "[[{'tile': {'type': 'empty'}}]]"))
    return json.dumps(cells)


def stream(rng):
    """Tools that answer line by line: what comes before the broken line is answered."""
    rows = [layout_of(rng) for _ in range(rng.randrange(0, 4))]
    more = ''.join(line_of(layout_of(rng)) for _ in range(rng.randrange(0, 3)))
    before = ''.join(line_of(r) for r in rows)
    other = layout_of(rng)
    kind = rng.randrange(6)
    if kind == 0:
        tool = Request('rotate', rng.choice(([], ['rot_180'], ['flip_x'], ['rot_270'], ['flip_y'])), lines=0)
        bad = spoil_json(rng, other)
    elif kind == 1:
        tool = Request('stringifier', ['encode'], lines=0)
        bad = spoil_json(rng, other)
    elif kind == 2:
        tool = Request('blueprint', ['encode'], lines=0)
        bad = spoil_json(rng, other)
        if rng.random() < 0.4:
            cells = L.write_layout(other)
            cells[rng.randrange(len(cells))][rng.randrange(len(cells[0]))] = {'tile': {'type': MACHINE, 'x': rng.randrange(3), 'y': rng.randrange(3)}}
            bad = json.dumps(cells)
    elif kind == 3:
        tool = Request('blueprint', ['decode'], lines=0)
        before = ''.join(book_line(r) + '\n' for r in rows)
        data = {'blueprint': {'item': 'blueprint', 'version': 1, 'entities': entities(other)}}
        bad = broken_string(rng, data)
        if rng.random() < 0.4:
            data['blueprint']['entities'].insert(rng.randrange(len(entities(other)) + 1), {
                'entity_number': 99, 'name': rng.choice(('loader', 'fast-loader', 'steel-chest', 'gate', 'long-inserter', 'linked-belt', 'assembling-machine')),
                'position': {'x': 1.5, 'y': 2.5}})
            bad = bp.pack(data)
        more = ''
    elif kind == 4:
        tool = Request('stringifier', ['decode'], lines=0)
        pictures = [core.run_cli('stringifier', ['encode'], line_of(r)).out for r in rows + [other]]
        before = ''.join(pictures[:-1])
        lines = pictures[-1].rstrip('\n').split('\n')
        y = rng.randrange(1, len(lines) - 1)
        x = rng.randrange(1, len(lines[y]) - 1)
        lines[y] = lines[y][:x] + (rng.choice('@#zU%?') if x % 2 else rng.choice('x>1')) + lines[y][x + 1:]
        bad = '\n'.join(lines)
        more = ''
    else:
        # nothing is printed before the end
        data = {'blueprint': {'item': 'blueprint', 'version': 1, 'entities': entities(other)}}
        before = ''.join(book_line(r) + '\n' for r in rows)
        tool = Request('blueprint_book', ['pack'], lines=0)
        bad = broken_string(rng, data)
        yield 'broken line', tool.but(stdin=before or book_line(other) + '\n'), tool.but(stdin=before + bad + '\n' + (before if rng.random() < 0.5 else ''))
        return
    yield 'broken line', tool.but(stdin=before or '', lines=0), tool.but(stdin=before + bad + '\n' + more), tool.but(stdin=before)


def operations(rng):
    rows = layout_of(rng)
    line = line_of(rows)
    kind = rng.randrange(7)
    if kind == 0:
        sound = Request('rotate', ['rot_90'], stdin=line, lines=0)
        yield 'operation', sound, sound.but(argv=[rng.choice(('rot_45', 'rot90', 'ROT_90', 'flip', 'flip_z', ''))])
    elif kind == 1:
        sound = Request('stringifier', ['encode'], stdin=line, lines=0)
        yield 'operation', sound, sound.but(argv=rng.choice((['print'], [], ['Encode'], ['encode', 'decode'])))
    elif kind == 2:
        sound = Request('blueprint', ['encode'], stdin=line, lines=0)
        yield 'operation', sound, sound.but(argv=rng.choice((['print'], [], ['encode', '--level', 'slow'], ['encode', '--level', 'Normal'], ['decode', '--level', 'fast'])))
    elif kind == 3:
        sound = Request('blueprint_book', ['pack'], stdin=book_line([[('B', 0, 0)]]) + '\n', lines=0)
        yield 'operation', sound, sound.but(argv=rng.choice((['open'], [], ['Pack'])))
    elif kind == 4:
        sound = Request('blueprint_book', ['unpack'], stdin=bp.pack({'blueprint_book': {'item': 'blueprint-book', 'blueprints': [
            {'blueprint': {'item': 'blueprint', 'entities': entities([[('B', 0, 0)]])}, 'index': 0}]}}) + '\n', lines=0)
        yield 'no book', sound, sound.but(stdin=rng.choice((book_line([[('B', 0, 0)]]), broken_string(rng, {'blueprint_book': {'blueprints': []}}), '')) + '\n')
    elif kind == 5:
        sound = Request('calculate_optimal', ['--database', 'base', 'query', 4, 'area'], {'base': '{}', 'networks/2x2': SIMPLE}, lines=0)
        yield 'operation', sound, rng.choice((sound.but(argv=swap(sound.argv, 4, rng.choice(('volume', 'Area', '')))), sound.but(argv=swap(sound.argv, 2, 'ask')),
                                              sound.but(argv=swap(sound.argv, 3, 'x')), sound.but(argv=sound.argv[:4])))
    else:
        sound = Request('calculate_optimal', ['--database', 'base', rng.choice(('query',)), 4, rng.choice(('area', 'length'))], {'base': '{}', 'networks/2x2': SIMPLE}, lines=0)
        yield 'database', sound, sound.but(files=dict(sound.files, base=rng.choice(('', '{', 'nonsense', '{"4x4": '))))


FAMILIES = {'balancer': (balancer, 5), 'free': (free, 3), 'power': (power, 2), 'interchange': (interchange, 3), 'block': (block, 3),
            'networks': (networks, 2), 'stream': (stream, 5), 'operations': (operations, 3)}


def judge(report, way, sound, spoiled, prefix=None):
    kind = f'{spoiled.tool}: {way}'
    context = {'way': way, 'request': spoiled.describe()}
    answer = ask(sound)
    report.count('sound_requests')
    if answer.failed:
        report.violation('answered:' + kind, 'the sound request is refused: ' + str(answer.detail)[-500:],
                         {'way': way, 'request': sound.describe(), 'run': answer.describe()})
        return
    report.count('sound_requests_with_an_answer', bool(answer.out) or sound.tool == 'network')
    expect = ''
    if prefix is not None:
        run = ask(prefix)
        if run.failed:
            report.violation('answered:' + kind, 'the sound lines alone are refused: ' + str(run.detail)[-500:],
                             {'way': way, 'request': prefix.describe()})
            return
        expect = run.out
        report.count('answered_before_the_error', len(run.lines))
    run = ask(spoiled)
    report.observe((kind, tuple(spoiled.argv), spoiled.stdin, tuple(sorted(spoiled.files.items()))))
    report.count('spoiled_requests')
    report.count('way ' + kind)
    context['run'] = run.describe()
    if not (run.failed or run.end == 'eof' and spoiled.tool == 'network'):     # which reads one line, so its end is no way to end
        report.violation('refused:' + kind, f'a request that cannot be honoured ({way}) does not end with an error', context)
    elif run.out != expect:
        report.violation('printed:' + kind, f'a request that cannot be honoured ({way}) prints something else than the answers to the lines before', context)
    for name, text in spoiled.files.items():
        try:
            with open(name) as f:
                same = f.read() == text
        except FileNotFoundError:
            same = False
        if not same:
            report.violation('files:' + kind, f'the file {name} given with a refused request has changed', context)


def explore(family, seed, rounds):
    core.diversify_solver(seed)
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        for case in FAMILIES[family][0](rng):
            judge(report, *case)
    return report


def processes(family, seed, rounds):
    """The same with real processes: the exit status says it, and standard output holds nothing."""
    rng = random.Random(seed)
    report = core.Report()
    for _ in range(rounds):
        for case in FAMILIES[family][0](rng):
            way, sound, spoiled = case[:3]
            if len(case) > 3 or sound.tool in ('rotate', 'stringifier', 'blueprint'):
                continue        # these end with an error at the end of any input
            write(spoiled.files)
            env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
            run = subprocess.run([sys.executable, '-m', 'factorio_sat.' + spoiled.tool, *spoiled.argv], input=spoiled.stdin, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            report.count('processes')
            report.observe(('process', tuple(spoiled.argv), spoiled.stdin))
            if run.returncode == 0 or run.stdout:
                report.violation(f'process:{spoiled.tool}: {way}', f'a request that cannot be honoured ({way}) ends with status {run.returncode}',
                                 {'request': spoiled.describe(), 'stdout': run.stdout[:500], 'stderr': run.stderr[-500:]})
            elif not run.stderr.strip():
                report.violation(f'silent:{spoiled.tool}: {way}', f'a request that cannot be honoured ({way}) is refused without a word',
                                 {'request': spoiled.describe()})
    return report


def main():
    check = core.Check('C27', 'exploration',
                       'one evaluation = one request spoiled in one way, asked after the sound one it was made from; '
                       'distinct = different requests, none trivial as each is wrong in some way',
                       ['line by line tools end with EOFError at the end of their input: that is no refusal'])
    for name in ('belt_balancer', 'belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange', 'make_block', 'network', 'rotate',
                 'stringifier', 'blueprint', 'blueprint_book', 'calculate_optimal'):
        core.tool(name)
    rng = check.rng
    deadline = check.budget(25, 300)
    tasks = []
    for _ in range(check.pick(24, 400)):
        for family, (_, weight) in FAMILIES.items():
            for _ in range(weight):
                tasks.append(core.Task(explore, family, rng.randrange(1 << 30), 4, timeout=check.pick(15, 60), label=family))
    for k in range(check.pick(24, 400)):
        tasks.insert(3 * k, core.Task(processes, rng.choice(sorted(FAMILIES)), rng.randrange(1 << 30), 2, timeout=60, label='processes'))
    check.run(tasks, deadline)
    check.finish(300)
