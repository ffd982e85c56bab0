"""Independent model of belt layouts: geometry, the belt rules, wire tracing, networks, flow.

Written from the rules of the game and the project's documentation, and shares no code with
the code under test. A layout is a list of rows of tiles; a tile is one of
  ('E',)  ('F',)  ('B', in, out)  ('U', dir, is_entry)  ('S', dir, is_head)
  ('I', dir, kind)  ('A', dx, dy)
Directions: 0 right, 1 up, 2 left, 3 down; y grows downwards. 'in' is the direction of travel
when entering the tile.
"""
from fractions import Fraction

VEC = ((1, 0), (0, -1), (-1, 0), (0, 1))
EMPTY = ('E',)


def opp(d):
    return (d + 2) % 4


def left_of(d):
    """Quarter turn counter-clockwise."""
    return (d + 1) % 4


class BadTile(Exception):
    pass


def _direction(value):
    if isinstance(value, bool) or not isinstance(value, int) or not 0 <= value <= 3:
        raise BadTile(f'bad direction {value!r}')
    return value


def read_tile(data):
    """The project's JSON tile format."""
    kind = data.get('type')
    if kind == 'empty':
        return EMPTY
    if kind == 'filler':
        return ('F',)
    if kind == 'belt':
        a, b = _direction(data['input_direction']), _direction(data['output_direction'])
        if a == opp(b):
            raise BadTile('belt turns back on itself')
        return ('B', a, b)
    if kind == 'underground_belt':
        return ('U', _direction(data['direction']), bool(data['is_input']))
    if kind == 'splitter':
        return ('S', _direction(data['direction']), bool(data['is_head']))
    if kind == 'inserter':
        return ('I', _direction(data['direction']), data['insert_type'])
    if kind == 'assembling_machine':
        return ('A', data['x'], data['y'])
    raise BadTile(f'unknown tile {data!r}')


def write_tile(tile):
    kind = tile[0]
    if kind == 'E':
        return {'type': 'empty'}
    if kind == 'F':
        return {'type': 'filler'}
    if kind == 'B':
        return {'type': 'belt', 'input_direction': tile[1], 'output_direction': tile[2]}
    if kind == 'U':
        return {'type': 'underground_belt', 'direction': tile[1], 'is_input': tile[2]}
    if kind == 'S':
        return {'type': 'splitter', 'direction': tile[1], 'is_head': tile[2]}
    if kind == 'I':
        return {'type': 'inserter', 'direction': tile[1], 'insert_type': tile[2]}
    if kind == 'A':
        return {'type': 'assembling_machine', 'x': tile[1], 'y': tile[2]}
    raise BadTile(tile)


def read_layout(cells):
    """Rows of cells as printed by the tools (only the 'tile' entry is used)."""
    if not isinstance(cells, list) or not all(isinstance(row, list) for row in cells):
        raise BadTile('not a rectangular array')
    rows = [[read_tile(cell['tile']) for cell in row] for row in cells]
    if len({len(row) for row in rows}) > 1:
        raise BadTile('ragged rows')
    return rows


def write_layout(rows):
    return [[{'tile': write_tile(tile)} for tile in row] for row in rows]


GLYPH = {('E',): '  ', ('F',): '##'}
ARROW = '>^<v'


def show(rows):
    """Compact text form, for samples and replays."""
    out = []
    for row in rows:
        text = []
        for t in row:
            if t[0] in 'EF':
                text.append('. ' if t[0] == 'E' else '##')
            elif t[0] == 'B':
                text.append(ARROW[t[1]] + ARROW[t[2]])
            elif t[0] == 'U':
                text.append(('u' if t[2] else 'n') + ARROW[t[1]])
            elif t[0] == 'S':
                text.append(('S' if t[2] else 's') + ARROW[t[1]])
            elif t[0] == 'I':
                text.append('i' + ARROW[t[1]])
            else:
                text.append('A%d' % (t[1] + 3 * t[2]))
        out.append(' '.join(text))
    return out


def size(rows):
    return (len(rows[0]) if rows else 0), len(rows)


# ---------------------------------------------------------------------------
# geometry: transforms of a layout, from first principles on coordinates
# ---------------------------------------------------------------------------

def _transform(rows, point, direction, mirror):
    w, h = size(rows)
    cells = {}
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            if t[0] == 'B':
                t = ('B', direction(t[1]), direction(t[2]))
            elif t[0] == 'U':
                t = ('U', direction(t[1]), t[2])
            elif t[0] == 'S':
                # the head is the half with the other half on its left hand side
                t = ('S', direction(t[1]), (not t[2]) if mirror else t[2])
            elif t[0] == 'I':
                t = ('I', direction(t[1]), t[2])
            elif t[0] == 'A':
                # offset of this tile from its machine's top left tile
                corners = [point(x - t[1] + i, y - t[2] + j, w, h) for i in range(3) for j in range(3)]
                nx, ny = point(x, y, w, h)
                t = ('A', nx - min(c[0] for c in corners), ny - min(c[1] for c in corners))
            cells[point(x, y, w, h)] = t
    nw = max(x for x, _ in cells) + 1
    nh = max(y for _, y in cells) + 1
    return [[cells[x, y] for x in range(nw)] for y in range(nh)]


def rot90(rows):
    """Quarter turn counter-clockwise."""
    return _transform(rows, lambda x, y, w, h: (y, w - 1 - x), lambda d: (d + 1) % 4, False)


def rot180(rows):
    return rot90(rot90(rows))


def rot270(rows):
    return rot90(rot180(rows))


def flip_x(rows):
    """Mirror image, left and right exchanged."""
    return _transform(rows, lambda x, y, w, h: (w - 1 - x, y), lambda d: (2 - d) % 4 if d % 2 == 0 else d, True)


def flip_y(rows):
    return _transform(rows, lambda x, y, w, h: (x, h - 1 - y), lambda d: d if d % 2 == 0 else opp(d), True)


# ---------------------------------------------------------------------------
# the belt rules, judged on tiles alone
# ---------------------------------------------------------------------------

def pushes(tile):
    """Direction in which the tile hands items to its neighbour, or None."""
    if tile[0] == 'B':
        return tile[2]
    if tile[0] == 'U':
        return None if tile[2] else tile[1]
    if tile[0] == 'S':
        return tile[1]
    return None


def takes(tile):
    """Direction of travel in which the tile takes items in from behind, or None."""
    if tile[0] == 'B':
        return tile[1]
    if tile[0] == 'U':
        return tile[1] if tile[2] else None
    if tile[0] == 'S':
        return tile[1]
    return None


class Board:
    def __init__(self, rows, wrap=(False, False)):
        self.rows = rows
        self.w, self.h = size(rows)
        self.wrap = wrap

    def at(self, x, y):
        if not 0 <= x < self.w:
            if not self.wrap[0]:
                return None
            x %= self.w
        if not 0 <= y < self.h:
            if not self.wrap[1]:
                return None
            y %= self.h
        return self.rows[y][x]

    def norm(self, x, y):
        if self.wrap[0]:
            x %= self.w
        if self.wrap[1]:
            y %= self.h
        return x, y

    def positions(self):
        for y in range(self.h):
            for x in range(self.w):
                yield x, y, self.rows[y][x]


def underground_exit(board, x, y, limit=None):
    """Follow an entry at (x, y). Returns (exit position, tiles skipped) or (None, reason)."""
    d = board.rows[y][x][1]
    dx, dy = VEC[d]
    n = 0
    while True:
        x, y = x + dx, y + dy
        t = board.at(x, y)
        if t is None:
            return None, 'leaves the board'
        if t[0] == 'U' and t[1] % 2 == d % 2:
            if t[1] == d and not t[2]:
                return board.norm(x, y), n
            return None, 'blocked by another underground on the same line'
        n += 1
        if n > board.w + board.h + 2 or (limit is not None and n > limit):
            return None, 'no exit in reach'


def underground_entry(board, x, y):
    d = board.rows[y][x][1]
    dx, dy = VEC[opp(d)]
    n = 0
    while True:
        x, y = x + dx, y + dy
        t = board.at(x, y)
        if t is None:
            return None, 'leaves the board'
        if t[0] == 'U' and t[1] % 2 == d % 2:
            if t[1] == d and t[2]:
                return board.norm(x, y), n
            return None, 'blocked by another underground on the same line'
        n += 1
        if n > board.w + board.h + 2:
            return None, 'no entry in reach'


def side_loads(direction, tile):
    """Would items pushed in `direction` enter `tile`, other than properly from behind?"""
    if tile[0] == 'B':
        return direction != opp(tile[2]) and direction != tile[1]
    return False


def check_rules(rows, limit, wrap=(False, False), counts=None):
    """The belt rules on one layout with nothing underground crossing an unwrapped edge.

    Returns a list of (rule, x, y, text). `limit`: maximum number of tiles an underground
    connection may skip (None: unlimited)."""
    board = Board(rows, wrap)
    bad = []
    counts = counts if counts is not None else {}

    def note(name):
        counts[name] = counts.get(name, 0) + 1

    for x, y, t in board.positions():
        kind = t[0]
        if kind == 'S':
            d = t[1]
            side = left_of(d) if t[2] else opp(left_of(d))
            sx, sy = x + VEC[side][0], y + VEC[side][1]
            other = board.at(sx, sy)
            note('splitter_half')
            if other is None:
                bad.append(('splitter-pair', x, y, 'other half lies outside the board'))
            elif other != ('S', d, not t[2]):
                bad.append(('splitter-pair', x, y, f'other half is {other}'))
        if kind == 'U':
            if t[2]:
                note('underground_run')
                target, info = underground_exit(board, x, y)
                if target is None:
                    bad.append(('underground-pair', x, y, f'entry: {info}'))
                else:
                    if info == 0:
                        bad.append(('underground-pair', x, y, 'entry and exit touch'))
                    if limit is not None and info > limit:
                        bad.append(('underground-length', x, y, f'skips {info} tiles, limit {limit}'))
            else:
                target, info = underground_entry(board, x, y)
                if target is None:
                    bad.append(('underground-pair', x, y, f'exit: {info}'))

        d = pushes(t)
        if d is not None:
            nx, ny = x + VEC[d][0], y + VEC[d][1]
            nxt = board.at(nx, ny)
            if nxt is not None:
                if kind == 'S':
                    note('splitter_output')
                    if side_loads(d, nxt):
                        bad.append(('splitter-side-load', x, y, f'splitter pushes {ARROW[d]} into {nxt}'))
                else:
                    note('belt_hand_over')
                    if takes(nxt) != d:
                        bad.append(('belt-output', x, y, f'{t} pushes {ARROW[d]} into {nxt}'))
        d = takes(t)
        if d is not None and kind != 'S':
            px, py = x - VEC[d][0], y - VEC[d][1]
            prev = board.at(px, py)
            if prev is not None:
                note('belt_take_over')
                if pushes(prev) != d:
                    bad.append(('belt-input', x, y, f'{t} takes {ARROW[d]} from {prev}'))
        if kind == 'S':
            d = t[1]
            prev = board.at(x - VEC[d][0], y - VEC[d][1])
            nxt = board.at(x + VEC[d][0], y + VEC[d][1])
            if prev is not None and nxt is not None and pushes(prev) != d and takes(nxt) != d:
                bad.append(('splitter-unused-half', x, y, 'half neither takes nor gives'))
    return bad


# ---------------------------------------------------------------------------
# wires: the circuit a layout realises
# ---------------------------------------------------------------------------

class Circuit:
    """splitters: list of head positions; ins[i]/outs[i]: two wire ids or None each;
    sources / sinks: {wire id: (x, y, direction)} for wires crossing the board's edge;
    loops: number of closed wires without any splitter; wires: number of wires."""

    def __init__(self):
        self.splitters = []
        self.ins = []
        self.outs = []
        self.sources = {}
        self.sinks = {}
        self.loops = 0
        self.wires = 0
        self.tiles = {}


def trace(rows, wrap=(False, False), edge_splitters=None):
    """edge_splitters(x, y, d, is_output) -> bool: whether a splitter half facing the edge is
    connected to the outside there (default: never)."""
    board = Board(rows, wrap)
    circuit = Circuit()
    wire_of = {}    # belt/underground position -> wire id

    def step(x, y):
        """Next position of the wire after the belt or underground at (x, y), or None at the edge."""
        t = board.rows[y][x]
        if t[0] == 'U' and t[2]:
            target, _ = underground_exit(board, x, y)
            return target, None
        d = pushes(t)
        nx, ny = x + VEC[d][0], y + VEC[d][1]
        if board.at(nx, ny) is None:
            return None, d
        return board.norm(nx, ny), d

    def follow(x, y, wire):
        """Walk a wire from tile (x, y) to its end. Returns ('edge', pos, d) / ('split', pos) / ('loop',) / ('dead', pos)."""
        while True:
            t = board.rows[y][x]
            if t[0] == 'S':
                return 'split', (x, y)
            if t[0] not in 'BU':
                return 'dead', (x, y)
            if (x, y) in wire_of:
                return 'loop', (x, y)
            wire_of[x, y] = wire
            target, d = step(x, y)
            if target is None:
                if d is None:
                    return 'dead', (x, y)
                return 'edge', (x, y, d)
            nt = board.rows[target[1]][target[0]]
            if d is not None and takes(nt) != d:
                return 'dead', (x, y)
            x, y = target

    halves = {}
    for x, y, t in board.positions():
        if t[0] == 'S' and t[2]:
            index = len(circuit.splitters)
            circuit.splitters.append((x, y))
            circuit.ins.append([None, None])
            circuit.outs.append([None, None])
            d = t[1]
            side = VEC[left_of(d)]
            halves[x, y] = (index, 0)
            halves[board.norm(x + side[0], y + side[1])] = (index, 1)

    def new_wire():
        circuit.wires += 1
        return circuit.wires - 1

    # wires that start at a splitter output
    for (x, y), (index, half) in halves.items():
        d = board.rows[circuit.splitters[index][1]][circuit.splitters[index][0]][1]
        nx, ny = x + VEC[d][0], y + VEC[d][1]
        nxt = board.at(nx, ny)
        if nxt is None:
            if edge_splitters is not None and edge_splitters(x, y, d, True):
                wire = new_wire()
                circuit.outs[index][half] = wire
                circuit.sinks[wire] = (x, y, d)
            continue
        if takes(nxt) != d:
            continue
        wire = new_wire()
        circuit.outs[index][half] = wire
        end = follow(*board.norm(nx, ny), wire)
        _finish(circuit, halves, end, wire)
    # wires that start at the edge
    for x, y, t in board.positions():
        d = takes(t)
        if d is None:
            continue
        if board.at(x - VEC[d][0], y - VEC[d][1]) is not None:
            continue
        if t[0] == 'S':
            if edge_splitters is None or not edge_splitters(x, y, d, False):
                continue
        wire = new_wire()
        circuit.sources[wire] = (x, y, d)
        end = follow(x, y, wire)
        _finish(circuit, halves, end, wire)
    # what remains: closed loops
    for x, y, t in board.positions():
        if t[0] in 'BU' and (x, y) not in wire_of:
            wire = new_wire()
            if follow(x, y, wire)[0] == 'loop':
                circuit.loops += 1
    circuit.tiles = wire_of
    return circuit


def _finish(circuit, halves, end, wire):
    if end[0] == 'split':
        index, half = halves[end[1]]
        circuit.ins[index][half] = wire
    elif end[0] == 'edge':
        circuit.sinks[wire] = end[1]


# ---------------------------------------------------------------------------
# networks: a list of ((in, in), (out, out)), colours are ints, None = not connected
# ---------------------------------------------------------------------------

def read_network(text):
    nodes = []
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        values = [int(v) for v in line.split()]
        if len(values) != 4:
            raise ValueError(f'bad network line {line!r}')
        values = [None if v == -1 else v for v in values]
        nodes.append(((values[0], values[1]), (values[2], values[3])))
    return nodes


def network_terminals(nodes):
    """(input colour, count), (output colour, count): the colours consumed more often than produced, and vice versa."""
    balance = {}
    for ins, outs in nodes:
        for c in ins:
            if c is not None:
                balance[c] = balance.get(c, 0) + 1
        for c in outs:
            if c is not None:
                balance[c] = balance.get(c, 0) - 1
    ins = [(c, n) for c, n in balance.items() if n > 0]
    outs = [(c, -n) for c, n in balance.items() if n < 0]
    if len(ins) != 1 or len(outs) != 1:
        raise ValueError('network has no single input and output colour')
    return ins[0], outs[0]


def _side(colours):
    return tuple(sorted((-1 if c is None else c) for c in colours))


def matches_network(circuit, nodes, max_steps=200000):
    """Can the wires be coloured so that the splitters are exactly the nodes of the network, the
    wires entering at the edge carry its input colour and those leaving carry its output colour?
    True / False / None (gave up)."""
    if len(circuit.splitters) != len(nodes):
        return False
    (cin, nin), (cout, nout) = network_terminals(nodes)
    if len(circuit.sources) != nin or len(circuit.sinks) != nout:
        return False
    kinds = {}
    for ins, outs in nodes:
        key = (_side(ins), _side(outs))
        kinds[key] = kinds.get(key, 0) + 1
    colour = {}
    for wire in circuit.sources:
        colour[wire] = cin
    for wire in circuit.sinks:
        if wire in colour and colour[wire] != cout:
            return False
        colour[wire] = cout
    n = len(nodes)
    assigned = [False] * n
    steps = [0]

    def options(i):
        """All (key, new wire colours) still possible for splitter i."""
        result = []
        for key, left in kinds.items():
            if not left:
                continue
            sides = []
            for wires, side in ((circuit.ins[i], key[0]), (circuit.outs[i], key[1])):
                ways = set()
                for a, b in {(side[0], side[1]), (side[1], side[0])}:
                    new = []
                    for wire, c in zip(wires, (a, b)):
                        if (wire is None) != (c == -1):
                            break
                        if wire is None:
                            continue
                        if wire in colour:
                            if colour[wire] != c:
                                break
                        else:
                            new.append((wire, c))
                    else:
                        ways.add(tuple(sorted(new)))
                sides.append(ways)
            for a in sides[0]:
                for b in sides[1]:
                    both = {}
                    ok = True
                    for wire, c in a + b:
                        if both.setdefault(wire, c) != c:
                            ok = False
                    if ok:
                        result.append((key, tuple(sorted(both.items()))))
        return sorted(set(result))

    def search():
        steps[0] += 1
        if steps[0] > max_steps:
            return None
        best, best_options = None, None
        for i in range(n):
            if assigned[i]:
                continue
            opts = options(i)
            if not opts:
                return False
            if best is None or len(opts) < len(best_options):
                best, best_options = i, opts
                if len(opts) == 1:
                    break
        if best is None:
            return True
        assigned[best] = True
        for key, new in best_options:
            kinds[key] -= 1
            for wire, c in new:
                colour[wire] = c
            found = search()
            if found or found is None:
                return found
            for wire, _ in new:
                del colour[wire]
            kinds[key] += 1
        assigned[best] = False
        return False

    return search()


def circuit_nodes(circuit):
    """The circuit itself as a network, one colour per wire."""
    return [(tuple(i), tuple(o)) for i, o in zip(circuit.ins, circuit.outs)]


# ---------------------------------------------------------------------------
# flow
# ---------------------------------------------------------------------------

def solve_linear(matrix, rhs_columns):
    """Gauss-Jordan over the rationals; matrix n x n, rhs n x k. None if singular."""
    n = len(matrix)
    rows = [list(map(Fraction, matrix[i])) + list(map(Fraction, rhs_columns[i])) for i in range(n)]
    for col in range(n):
        pivot = next((r for r in range(col, n) if rows[r][col] != 0), None)
        if pivot is None:
            return None
        rows[col], rows[pivot] = rows[pivot], rows[col]
        scale = rows[col][col]
        if scale != 1:
            rows[col] = [v / scale if v else v for v in rows[col]]
        base = rows[col]
        for r in range(n):
            if r != col and rows[r][col] != 0:
                f = rows[r][col]
                rows[r] = [v - f * b if b else v for v, b in zip(rows[r], base)]
    return [row[n:] for row in rows]


def flow_matrix(ins, outs, sources, sinks):
    """Share of what enters at each source that leaves at each sink, when every splitter divides
    what it takes in evenly over its connected outputs and no belt is full.

    ins/outs: per splitter, wire ids (None: not connected); sources, sinks: lists of wire ids.
    Returns {sink: {source: share}} or None if some flow is trapped (no steady state)."""
    n = len(ins)
    producer = {}
    for i, wires in enumerate(outs):
        for wire in wires:
            if wire is not None:
                producer[wire] = i
    matrix = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    rhs = [[Fraction(0)] * len(sources) for _ in range(n)]
    index = {s: k for k, s in enumerate(sources)}
    share = []
    for i in range(n):
        k = sum(w is not None for w in outs[i])
        share.append(Fraction(1, k) if k else Fraction(0))
    for i in range(n):
        for wire in ins[i]:
            if wire is None:
                continue
            if wire in index:
                rhs[i][index[wire]] += 1
            elif wire in producer:
                matrix[i][producer[wire]] -= share[producer[wire]]
    through = solve_linear(matrix, rhs)
    if through is None:
        return None
    result = {}
    for sink in sinks:
        if sink in index:
            result[sink] = {s: Fraction(int(s == sink)) for s in sources}
        else:
            i = producer.get(sink)
            if i is None:
                result[sink] = {s: Fraction(0) for s in sources}
            else:
                result[sink] = {s: through[i][index[s]] * share[i] for s in sources}
    return result


def circuit_flow(circuit, backward=False):
    if backward:
        return flow_matrix(circuit.outs, circuit.ins, sorted(circuit.sinks), sorted(circuit.sources))
    return flow_matrix(circuit.ins, circuit.outs, sorted(circuit.sources), sorted(circuit.sinks))


def is_balanced(flow, n_sinks):
    """Every source spreads evenly over all the sinks."""
    if flow is None or len(flow) != n_sinks:
        return False
    return all(v == Fraction(1, n_sinks) for row in flow.values() for v in row.values())


def reachable_circuit(circuit):
    """Splitters some source can reach (others carry nothing and may form a trap in the equations)."""
    consumer = {}
    for i, wires in enumerate(circuit.ins):
        for wire in wires:
            if wire is not None:
                consumer[wire] = i
    seen = set()
    stack = [consumer[w] for w in circuit.sources if w in consumer]
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        for wire in circuit.outs[i]:
            if wire is not None and wire in consumer:
                stack.append(consumer[wire])
    return seen


def unshow(lines):
    """Inverse of show() for belts, undergrounds, splitters and empty tiles."""
    rows = []
    for line in lines:
        row = []
        for k in range(0, len(line), 3):
            a, b = line[k], line[k + 1:k + 2]
            if a == '.':
                row.append(EMPTY)
            elif a in 'un':
                row.append(('U', ARROW.index(b), a == 'u'))
            elif a in 'Ss':
                row.append(('S', ARROW.index(b), a == 'S'))
            else:
                row.append(('B', ARROW.index(a), ARROW.index(b)))
        rows.append(row)
    return rows
