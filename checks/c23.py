"""C23: the diagram of a network shows the network, and drawing it touches nothing else.

Monitor: the drawing (graphviz's own description of what it drew, or the SVG picture) is read back into
splitters, colours and arrows and compared with the network; the folder is compared before and after.
"""
import collections
import json
import os
import random
import re
import shutil
import xml.etree.ElementTree as ET

from lib import core, gen
from lib import layout as L

START, END = object(), object()


class Unreadable(Exception):
    pass


class Drawing:
    """nodes: {id: ('box', None) | ('label', text) | ('hidden', None)}, edges: [(tail, head, text, arrow at the head)]"""

    def __init__(self):
        self.nodes = {}
        self.edges = []


def text_of(item):
    """Text drawn for a node or edge of graphviz's JSON."""
    drawn = [op['text'] for op in item.get('_ldraw_', []) if op.get('op') == 'T']
    return ' '.join(drawn).strip()


def read_json(data):
    data = json.loads(data)
    drawing = Drawing()
    for item in data.get('objects', []):
        if 'invis' in item.get('style', ''):
            drawing.nodes[item['_gvid']] = 'hidden', None
            continue
        text = text_of(item)
        outline = any(op.get('op') in 'pPeEbB' for op in item.get('_draw_', []))
        drawing.nodes[item['_gvid']] = ('label', text) if text else ('box', None) if outline else ('nothing', None)
    for item in data.get('edges', []):
        if 'invis' in item.get('style', ''):
            continue
        drawing.edges.append((item['tail'], item['head'], text_of(item), bool(item.get('_hdraw_'))))
    return drawing


def read_svg(data):
    root = ET.fromstring(data)
    drawing = Drawing()
    space = '{http://www.w3.org/2000/svg}'
    for group in root.iter(space + 'g'):
        title = group.findtext(space + 'title')
        text = ' '.join(t.text or '' for t in group.findall(space + 'text')).strip()
        shapes = [s for s in group if s.tag in (space + 'polygon', space + 'ellipse')]
        if group.get('class') == 'node':
            drawing.nodes[title] = ('label', text) if text else ('box', None) if shapes else ('nothing', None)
        elif group.get('class') == 'edge':
            tail, head = title.split('->')
            drawing.edges.append((tail, head, text, bool(shapes)))
    for tail, head, _, _ in drawing.edges:
        for end in (tail, head):
            drawing.nodes.setdefault(end, ('hidden', None))     # nothing is drawn for it
    return drawing


def meaning(drawing):
    """(multiset of (colours taken, colours given) per splitter, colours that come in, colours that go out)"""
    takes, gives = collections.defaultdict(set), collections.defaultdict(set)
    arrives, leaves = set(), set()
    boxes = [k for k, (kind, _) in drawing.nodes.items() if kind == 'box']
    if any(kind == 'nothing' for kind, _ in drawing.nodes.values()):
        raise Unreadable('a node without any mark')
    labels = [text for kind, text in drawing.nodes.values() if kind == 'label']
    if len(set(labels)) != len(labels):
        raise Unreadable('a colour is drawn twice')
    for tail, head, text, arrow in drawing.edges:
        (a, ta), (b, tb) = drawing.nodes[tail], drawing.nodes[head]
        kinds = a, b
        if kinds == ('box', 'box'):
            if not text or not arrow:
                raise Unreadable('a connection between splitters without colour or arrow')
            gives[tail].add(text)
            takes[head].add(text)
        elif kinds == ('box', 'label'):
            gives[tail].add(tb)
        elif kinds == ('label', 'box'):
            if not arrow:
                raise Unreadable('an input without arrow')
            takes[head].add(ta)
        elif kinds == ('hidden', 'label'):
            arrives.add(tb)
        elif kinds == ('label', 'hidden'):
            leaves.add(ta)
        elif kinds == ('hidden', 'box') and text:
            arrives.add(text)
            takes[head].add(text)
        elif kinds == ('box', 'hidden') and text:
            leaves.add(text)
            gives[tail].add(text)
        else:
            raise Unreadable(f'an arrow from {kinds[0]} to {kinds[1]}')
    splitters = collections.Counter((tuple(sorted(takes[k])), tuple(sorted(gives[k]))) for k in boxes)
    joined = {t for k in boxes for t in takes[k] | gives[k]}
    if set(labels) - joined:
        raise Unreadable(f'colours that no splitter has: {sorted(set(labels) - joined)}')
    return splitters, arrives, leaves


def wanted(nodes):
    (a, _), (b, _) = L.network_terminals(nodes)

    def side(colours):
        return tuple(sorted({str(c) for c in colours if c is not None}))
    return collections.Counter((side(i), side(o)) for i, o in nodes), {str(a)}, {str(b)}


def any_network(rng):
    """One colour in and one out, everything else free: feedback into the ends, splitters feeding themselves."""
    while True:
        n = rng.randint(1, 5)
        colours = rng.sample(range(rng.choice((4, 8, 20))), rng.randint(2, 4))
        nodes = [tuple(tuple(None if rng.random() < 0.15 else rng.choice(colours) for _ in range(2)) for _ in range(2)) for _ in range(n)]
        if any(side == (None, None) for node in nodes for side in node):
            continue
        try:
            L.network_terminals(nodes)
        except (ValueError, AssertionError):
            continue
        return nodes


def large_network(rng):
    """Hundreds of splitters: what the tree makes, or chains of them."""
    if rng.random() < 0.6:
        core.run_cli('network', ['create', 'made', rng.randint(24, 72)])
        with open('made') as f:
            nodes = L.read_network(f.read())
        os.remove('made')
        rng.shuffle(nodes)
    else:
        n = rng.randint(65, 260)
        double = rng.random() < 0.5
        nodes = [((i, i), (i + 1, i + 1)) if double else ((i, None), (i + 1, None)) for i in range(n)]
        rng.shuffle(nodes)
    return gen.relabel(rng, nodes) if rng.random() < 0.5 else nodes


def snapshot():
    seen = {}
    for folder, _, files in os.walk('.'):
        for name in files:
            path = os.path.relpath(os.path.join(folder, name), '.')
            with open(path, 'rb') as f:
                seen[path] = f.read()
    return seen


def work(seed, rounds):
    rng = random.Random(seed)
    report = core.Report()
    shipped = list(gen.shipped_networks().values())
    for _ in range(rounds):
        for name in os.listdir('.'):
            shutil.rmtree(name) if os.path.isdir(name) else os.remove(name)
        kind = rng.randrange(4)
        nodes = (rng.choice(shipped) if kind == 0 else gen.random_network(rng, 6) if kind == 1 else any_network(rng))
        if kind == 0 and rng.random() < 0.3:
            nodes = large_network(rng)
            report.count('large_networks')
        if kind == 0 and rng.random() < 0.5:
            nodes = gen.relabel(rng, nodes)
        stem = rng.choice(('net', '4x4', 'Network', 'a.b'))
        suffix = rng.choice(('json', 'svg', 'svg', 'json', 'png', 'dot', 'gv'))
        os.makedirs('sub')
        with open(stem, 'w') as f:
            f.write(gen.network_text(nodes))
        output = rng.choice((stem, stem, 'out', 'sub/' + stem, os.path.abspath('sub/out'))) + '.' + suffix
        for extra in rng.sample(['out', 'sub/out', 'out.gv', 'sub/' + stem, stem + '.gv', 'other'], 2):
            if extra not in (stem, output):
                with open(extra, 'w') as f:
                    f.write('belongs to someone\n')
        if rng.random() < 0.3:
            with open(output, 'w') as f:
                f.write('old picture')
        argv = ['render', stem, output] + rng.choice(
            ([], [], ['--engine', 'dot'], ['--engine', rng.choice(('neato', 'circo', 'fdp', 'twopi') if len(nodes) < 60 else ('dot', 'twopi'))]))
        before = snapshot()
        run = core.run_cli('network', argv)
        context = {'argv': argv, 'network': gen.network_text(nodes)}
        report.count('runs')
        report.count('format_' + suffix)
        if run.failed and 'ExecutableNotFound' in str(run.detail):
            report.count('graphviz_missing')
            return report
        if gen.crash(run, report, 'network', context):
            return report
        after = snapshot()
        target = os.path.relpath(output, '.')
        report.observe(('diagram', tuple(nodes), suffix, stem == output.rsplit('.', 1)[0]))
        if target not in after or after[target] == b'old picture':
            report.violation('file', f'{target} was not written', context)
            return report
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k != target)
        report.count('files_watched', len(before))
        if changed:
            report.violation('others', f'drawing {target} changed, made or removed {changed}', context)
            return report
        data = after[target]
        if suffix == 'png':
            if not data.startswith(b'\x89PNG\r\n\x1a\n'):
                report.violation('format', 'not a PNG picture', context)
                return report
            continue
        if suffix in ('dot', 'gv'):
            import subprocess
            done = subprocess.run(['dot', '-Tjson'], input=data, capture_output=True)
            if done.returncode:
                report.violation('format', 'graphviz cannot read its own file back', context)
                return report
            data = done.stdout
        try:
            drawing = read_svg(data) if suffix == 'svg' else read_json(data)
            found = meaning(drawing)
        except Unreadable as e:
            report.violation('diagram', f'the drawing cannot be understood: {e}', context)
            return report
        except (ValueError, KeyError, ET.ParseError) as e:
            report.violation('format', f'not a {suffix} file: {e!r}', context)
            return report
        report.count('diagrams')
        report.count('splitters', len(nodes))
        report.count('arrows', len(drawing.edges))
        expected = wanted(nodes)
        for part, a, b in zip(('splitters', 'input', 'output'), found, expected):
            if a != b:
                report.violation('diagram', f'the drawing shows the {part} {dict(a) if part == "splitters" else a}, the network has '
                                            f'{dict(b) if part == "splitters" else b}', context)
                return report
        report.sample({'argv': argv, 'network': gen.network_text(nodes).splitlines(), 'arrows': len(drawing.edges)}, 1)
    return report


def main():
    check = core.Check('C23', 'exploration',
                       'one evaluation = one diagram drawn, read back and compared with its network, with the files around it compared '
                       'before and after; distinct = different (network, format)',
                       ['graphviz draws what it describes'])
    core.tool('network')
    rng = check.rng
    deadline = check.budget(15, 200)
    tasks = [core.Task(work, rng.randrange(1 << 30), 20, timeout=60, label='diagram') for _ in range(check.pick(60, 1200))]
    check.run(tasks, deadline)
    check.finish(100)
