"""The layout patterns the speed options of the balancer generator leave out, on plain tiles."""
from . import layout as L
from .layout import VEC, opp


class Cell:
    __slots__ = ('kind', 'into', 'out', 'head', 'under')

    def __init__(self, kind, into, out, head):
        self.kind = kind    # E empty, B belt, I underground entry, O underground exit, S splitter half
        self.into = into    # direction of what enters here, None: nothing does
        self.out = out
        self.head = head
        self.under = set()  # directions of the undergrounds passing below

    @property
    def bare(self):
        return self.into is None and self.out is None

    def straight(self, d):
        return self.kind == 'B' and self.into == d and self.out == d


class Picture:
    """A layout with the sides of its splitters that are in use and what passes below each tile."""

    def __init__(self, rows):
        self.board = L.Board(rows)
        self.w, self.h = L.size(rows)
        self.cells = {}
        for x, y, t in self.board.positions():
            if t[0] == 'E':
                cell = Cell('E', None, None, False)
            elif t[0] == 'B':
                cell = Cell('B', t[1], t[2], False)
            elif t[0] == 'U':
                cell = Cell('I', t[1], None, False) if t[2] else Cell('O', None, t[1], False)
            else:
                d = t[1]
                before = self.board.at(x - VEC[d][0], y - VEC[d][1])
                after = self.board.at(x + VEC[d][0], y + VEC[d][1])
                cell = Cell('S', d if before is not None and L.pushes(before) == d else None,
                            d if after is not None and L.takes(after) == d else None, t[2])
            self.cells[x, y] = cell
        for x, y, t in self.board.positions():
            if t[0] == 'U' and t[2]:
                _, n = L.underground_exit(self.board, x, y)
                for k in range(1, n + 1):
                    self.cells[x + VEC[t[1]][0] * k, y + VEC[t[1]][1] * k].under.add(t[1])

    def at(self, x, y, *steps):
        for d, k in steps:
            x += VEC[d][0] * k
            y += VEC[d][1] * k
        return self.cells.get((x, y))

    def frames(self, both=True):
        """Every tile with every direction (and both directions across it)."""
        for (x, y) in self.cells:
            for d in range(4):
                if not both:
                    yield x, y, d, (d + 1) % 4
                else:
                    yield x, y, d, (d + 1) % 4
                    yield x, y, d, (d + 3) % 4


def glued(p):
    """A splitter with two straight belts right behind it could be moved backwards (ends aside)."""
    for (x, y), c in p.cells.items():
        if c.kind == 'S' and c.head:
            d = p.board.rows[y][x][1]
            if d == 0 and x in (1, p.w - 2):
                continue
            a = p.at(x, y, (d, -1))
            b = p.at(x, y, (d, -1), ((d + 1) % 4, 1))
            if a is not None and b is not None and a.straight(d) and b.straight(d):
                return True
    return False


def glued_partial(p):
    """A splitter with a single input and two straight belts right after it could be moved forwards."""
    for (x, y), c in p.cells.items():
        if c.kind == 'S' and c.head:
            d = p.board.rows[y][x][1]
            side = (d + 1) % 4
            other = p.at(x, y, (side, 1))
            a = p.at(x, y, (d, 1))
            b = p.at(x, y, (d, 1), (side, 1))
            far = x + VEC[d][0] + VEC[side][0]
            if x > p.w - 2 or far > p.w - 2 or a is None or b is None:
                continue
            if (c.into is None) != (other.into is None) and a.straight(d) and b.straight(d):
                return True
    return False


def expandable(p, limit):
    """An underground that could be longer: a straight belt right before or after it, within the inner columns."""
    for (x, y), c in p.cells.items():
        t = p.board.rows[y][x]
        if c.kind != 'I':
            continue
        d = t[1]
        (ex, ey), n = L.underground_exit(p.board, x, y)
        before = p.at(x, y, (d, -1))
        after = p.at(ex, ey, (d, 1))
        if limit is not None and n >= limit:
            continue
        bx, ax = x - VEC[d][0], ex + VEC[d][0]

        def inner(*xs):
            return all(1 <= v <= p.w - 2 for v in xs)
        if limit is None:
            if before is not None and before.straight(d) and inner(bx, x):
                return True
            if after is not None and after.straight(d) and inner(ex, ax):
                return True
        else:
            if before is not None and before.straight(d) and inner(bx, x, ex):
                return True
            if after is not None and after.straight(d) and inner(x, ex, ax):
                return True
    return False


def mergeable(p, limit):
    """Two undergrounds in a row that fit into one."""
    for (x, y), c in p.cells.items():
        if c.kind != 'I':
            continue
        d = p.board.rows[y][x][1]
        (ex, ey), n = L.underground_exit(p.board, x, y)
        second = p.at(ex, ey, (d, 1))
        if second is not None and second.kind == 'I' and second.into == d:
            _, m = L.underground_exit(p.board, ex + VEC[d][0], ey + VEC[d][1])
            if limit is None or n + m + 2 <= limit:
                return True
    return False


def hooks(p):
    for x, y, d, t in p.frames():
        a, b, c, e = p.at(x, y), p.at(x, y, (d, 1)), p.at(x, y, (d, 1), (t, 1)), p.at(x, y, (t, 1))
        if None in (b, c, e):
            continue
        if (a.kind == 'B' and a.into in (d, t) and a.out == d and b.out == t and c.out == opp(d)
                and e.kind == 'B' and e.out in (t, opp(d))):
            return True
    return False


def semicircles(p):
    """A belt that goes around an empty tile instead of through it."""
    for x, y, d, t in p.frames():
        near = [p.at(x, y, (d, k)) for k in range(3)]
        far = [p.at(x, y, (d, k), (t, 1)) for k in range(3)]
        if None in near or None in far:
            continue
        if not (near[1].bare and far[0].into == t and far[1].into == d and far[1].kind != 'S' and far[2].into == d):
            continue
        if not (near[0].into == d or near[0].into == t and near[0].kind != 'S'):
            continue
        if near[2].into == opp(t) and (near[2].out == d or near[2].out == opp(t) and near[2].kind != 'S'):
            return True
    return False


def small_loops(p):
    for x in range(p.w - 1):
        for y in range(p.h - 1):
            ring = [p.at(x, y), p.at(x + 1, y), p.at(x + 1, y + 1), p.at(x, y + 1)]
            if all(c.into == (1 - k) % 4 and c.out == (-k) % 4 for k, c in enumerate(ring)):
                return True
            if all(c.into == (2 - k) % 4 and c.out == (3 - k) % 4 for k, c in enumerate(ring)):
                return True
    return False


def underground_hooks(p):
    """An underground at whose mouth the belt winds around although there is space."""
    for x, y, d, t in p.frames():
        e, mouth = p.at(x, y, (d, 1)), p.at(x, y)
        a, b, c = p.at(x, y, (d, -1)), p.at(x, y, (d, -1), (t, -1)), p.at(x, y, (t, -1))
        if None in (e, a, b, c) or not e.bare or c.kind == 'S':
            continue
        if d in e.under and d not in mouth.under and a.into == t and b.into == opp(d) and c.into in (opp(d), t):
            return True
        if opp(d) in e.under and opp(d) not in mouth.under and a.out == opp(t) and b.out == d and c.out in (d, opp(t)):
            return True
    return False


def zigzags(p):
    for x, y, d, t in p.frames():
        a, b, c, e = p.at(x, y), p.at(x, y, (d, 1)), p.at(x, y, (t, 1)), p.at(x, y, (d, 1), (t, 1))
        if None in (b, c, e):
            continue
        if a.into == d and a.out == t and b.bare and c.out == d and e.out == t:
            return True
    return False


def beside_splitter(p):
    for x, y, d, t in p.frames():
        a, b, c = p.at(x, y), p.at(x, y, (t, 1)), p.at(x, y, (d, 1), (t, 1))
        if None in (p.at(x, y, (d, 1)), b, c):
            continue
        if c.kind != 'S' or c.head != (t == (d + 1) % 4) or b.out != t or a.out != d:
            continue
        if a.into == t or a.into == d and a.kind != 'S':
            return True
    return False


def edge_belts(p):
    return any(p.at(x, y).straight(0) and p.at(x, y + 1).straight(0)
               for x in {1, max(p.w - 2, 1)} if x < p.w for y in range(p.h - 1))


BAD = {'hooks': hooks, 'semicircles': semicircles, 'small_loops': small_loops, 'underground_hooks': underground_hooks,
       'zigzags': zigzags, 'beside_splitter': beside_splitter}


def shown(option, picture, limit):
    """Names of the patterns of an option that a layout shows."""
    if option == '--glue-splitters':
        tests = {'glued': glued, 'glued_partial': glued_partial}
    elif option == '--expand-underground':
        tests = {'expandable': lambda p: expandable(p, limit)}
    elif option == '--prevent-mergeable-underground':
        tests = {'mergeable': lambda p: mergeable(p, limit)}
    elif option == '--prevent-bad-patterns':
        tests = BAD
    elif option == '--edge-belts':
        tests = {'edge_belts': edge_belts}
    else:
        raise KeyError(option)
    return [name for name, test in tests.items() if test(picture)]
