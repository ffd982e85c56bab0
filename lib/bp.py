"""Independent reader and writer of game blueprints (strings and belt entities)."""
import base64
import json
import zlib

from . import layout as L

NAMES = {
    'normal': ('transport-belt', 'underground-belt', 'splitter'),
    'fast': ('fast-transport-belt', 'fast-underground-belt', 'fast-splitter'),
    'express': ('express-transport-belt', 'express-underground-belt', 'express-splitter'),
}
BELTS = {v[0] for v in NAMES.values()}
UNDERS = {v[1] for v in NAMES.values()}
SPLITTERS = {v[2] for v in NAMES.values()}
INSERTERS = {'burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter'}
# the game counts directions clockwise from north in steps of two
GAME = {0: 2, 1: 0, 2: 6, 3: 4}
FROM_GAME = {v: k for k, v in GAME.items()}


class BadBlueprint(Exception):
    pass


def unpack(string):
    if not isinstance(string, str) or not string.startswith('0'):
        raise BadBlueprint('does not start with the version byte')
    try:
        raw = base64.b64decode(string[1:], validate=True)
        return json.loads(zlib.decompress(raw).decode('utf-8'))
    except (ValueError, zlib.error) as e:
        raise BadBlueprint(repr(e))


def pack(data, level=9):
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode('utf-8'), level)).decode('ascii')


def entities_of(rows, level='normal'):
    """The multiset of entities a layout stands for: sorted [(name, x, y, direction, type)]."""
    belt, under, splitter = NAMES[level]
    result = []
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            cx, cy = x + 0.5, y + 0.5
            if t[0] == 'B':
                result.append((belt, cx, cy, GAME[t[2]], None))
            elif t[0] == 'U':
                result.append((under, cx, cy, GAME[t[1]], 'input' if t[2] else 'output'))
            elif t[0] == 'S' and t[2]:
                dx, dy = L.VEC[L.left_of(t[1])]
                result.append((splitter, cx + dx / 2, cy + dy / 2, GAME[t[1]], None))
            elif t[0] == 'I':
                # an inserter entity points at where it picks up
                result.append(('inserter' if t[2] == 0 else 'long-handed-inserter', cx, cy, GAME[L.opp(t[1])], None))
    return sorted(result, key=repr)


def read_entities(data):
    """The same multiset, from blueprint data."""
    result = []
    for e in data['blueprint']['entities']:
        d = e.get('direction', 0)
        if isinstance(d, bool) or not isinstance(d, int) or d not in FROM_GAME:
            raise BadBlueprint(f'direction {d!r}')
        result.append((e['name'], float(e['position']['x']), float(e['position']['y']), d, e.get('type')))
    return sorted(result, key=repr)


def make(entities, offset=(0, 0), label=None, numbers=True, explicit=False):
    """Blueprint data for a list of entities, placed anywhere."""
    out = []
    for k, (name, x, y, d, kind) in enumerate(entities):
        e = {'name': name, 'position': {'x': x + offset[0], 'y': y + offset[1]}}
        if numbers:
            e['entity_number'] = k + 1
        if d or explicit:
            e['direction'] = d
        if kind is not None:
            e['type'] = kind
        out.append(e)
    data = {'blueprint': {'icons': [{'signal': {'type': 'item', 'name': 'splitter'}, 'index': 1}], 'item': 'blueprint',
                          'version': 281479275675648, 'entities': out}}
    if label is not None:
        data['blueprint']['label'] = label
    return data


def shape_belts(rows):
    """Belts as the game would shape them: a belt bends when it is fed from exactly one side and not from behind."""
    board = L.Board(rows)
    out = [list(row) for row in rows]
    for x, y, t in board.positions():
        if t[0] != 'B':
            continue
        d = t[2]
        feeding = []
        for into in (d, L.left_of(d), L.opp(L.left_of(d))):
            u = board.at(x - L.VEC[into][0], y - L.VEC[into][1])
            if u is not None and L.pushes(u) == into:
                feeding.append(into)
        out[y][x] = ('B', feeding[0] if len(feeding) == 1 else d, d)
    return out


def crop(rows):
    """Without surrounding empty rows and columns."""
    full = [(x, y) for y, row in enumerate(rows) for x, t in enumerate(row) if t[0] not in 'E']
    if not full:
        return []
    x0, x1 = min(x for x, _ in full), max(x for x, _ in full)
    y0, y1 = min(y for _, y in full), max(y for _, y in full)
    return [list(row[x0:x1 + 1]) for row in rows[y0:y1 + 1]]
