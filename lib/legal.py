"""Independent enumerator of the layouts the belt rules admit on a board.

Works on cell *states* (tile plus which sides of a splitter half are in use):
  (kind, in, out, head): kind in 'EBIOS' (empty, belt, underground entry, underground exit,
  splitter half); in/out are directions of travel or None.
Nothing here comes from the code under test.
"""
from .layout import VEC, opp, left_of

STATES = [('E', None, None, False)]
for a in range(4):
    for b in range(4):
        if a != opp(b):
            STATES.append(('B', a, b, False))
for d in range(4):
    STATES.append(('I', d, None, False))
    STATES.append(('O', None, d, False))
    for head in (False, True):
        STATES.append(('S', d, d, head))
        STATES.append(('S', d, None, head))
        STATES.append(('S', None, d, head))
INDEX = {s: i for i, s in enumerate(STATES)}
N = len(STATES)


def facing(state):
    return state[1] if state[1] is not None else state[2]


def tile_of(state):
    kind, a, b, head = state
    if kind == 'E':
        return ('E',)
    if kind == 'B':
        return ('B', a, b)
    if kind == 'I':
        return ('U', a, True)
    if kind == 'O':
        return ('U', b, False)
    return ('S', facing(state), head)


def states_of_tile(tile):
    return [i for i, s in enumerate(STATES) if tile_of(s) == tile]


def _pair_ok(a, b, d):
    """a hands over to b in direction d (one way only)."""
    if (a[2] == d) != (b[1] == d):
        return False
    if a[0] == 'S' and a[1] == d:
        if b[0] != 'S':
            # an output of a splitter that is not in use must not feed the belt in front of it
            if b[0] == 'B' and b[1] != d and b[2] != opp(d):
                # items pushed in direction d would enter this belt, from the side or from behind
                if not (b[1] == opp(d) and b[2] == opp(d)):
                    return False
        else:
            if b[2] == d and a[2] != d:
                return False    # two splitters in a row, facing the same way, are connected
    if a[0] == 'I' and a[1] == d and b[0] in 'IO' and facing(b) % 2 == d % 2:
        return False            # at least one tile between entry and exit
    if b[0] == 'O' and b[2] == d and a[0] in 'IO' and facing(a) % 2 == d % 2:
        return False
    return True


def _partner_ok(a, b, d):
    """b is a's neighbour in direction d: splitter halves belong together."""
    if a[0] == 'S':
        f = facing(a)
        side = left_of(f) if a[3] else opp(left_of(f))
        if side == d:
            return b[0] == 'S' and facing(b) == f and b[3] != a[3]
    return True


def _table(d):
    table = []
    for a in STATES:
        row = 0
        for i, b in enumerate(STATES):
            if _pair_ok(a, b, d) and _pair_ok(b, a, opp(d)) and _partner_ok(a, b, d) and _partner_ok(b, a, opp(d)):
                row |= 1 << i
        table.append(row)
    return table


RIGHT_OF = _table(0)    # RIGHT_OF[a]: bit set of states allowed right of a
BELOW = _table(3)
LEFT_OF = _table(2)
ABOVE = _table(1)


ENDS_ROW = {i for i, s in enumerate(STATES) if s[0] in 'IO' and facing(s) % 2 == 0}
ENDS_COLUMN = {i for i, s in enumerate(STATES) if s[0] in 'IO' and facing(s) % 2 == 1}


class Rules:
    """wrap: (x, y). block: (min x, min y, max x, max y), nothing crosses that edge.
    block_belts / block_under override block for surface and underground crossings.
    limit: tiles an underground may skip (None: no limit)."""

    def __init__(self, w, h, wrap=(False, False), block=(False,) * 4, limit=4, block_belts=None, block_under=None,
                 splitters=True):
        self.w, self.h = w, h
        self.wrap = wrap
        self.limit = limit
        self.block_belts = block if block_belts is None else block_belts
        self.block_under = block if block_under is None else block_under
        self.splitters = splitters

    def base_allowed(self, x, y):
        """Bit set of states the edges allow at (x, y)."""
        sides = []      # directions in which the board ends here
        if not self.wrap[0]:
            if x == 0:
                sides.append(2)
            if x == self.w - 1:
                sides.append(0)
        if not self.wrap[1]:
            if y == 0:
                sides.append(1)
            if y == self.h - 1:
                sides.append(3)
        blocked_belts = set()
        blocked_under = set()
        for flag, side, here in zip(self.block_belts, (2, 1, 0, 3),
                                    (x == 0, y == 0, x == self.w - 1, y == self.h - 1)):
            if flag and here:
                blocked_belts.add(side)
        for flag, side, here in zip(self.block_under, (2, 1, 0, 3),
                                    (x == 0, y == 0, x == self.w - 1, y == self.h - 1)):
            if flag and here:
                blocked_under.add(side)
        mask = 0
        for i, s in enumerate(STATES):
            kind, a, b, head = s
            if kind == 'S':
                if not self.splitters:
                    continue
                f = facing(s)
                if (left_of(f) if head else opp(left_of(f))) in sides:
                    continue
            ok = True
            for side in blocked_belts:
                if a == opp(side) or b == side:
                    ok = False      # crosses the edge
                if a == side and b is None:
                    ok = False      # goes on beyond the edge, below ground or from a splitter
                if b == opp(side) and a is None:
                    ok = False
            for side in blocked_under:
                if kind == 'I' and a == side:
                    ok = False
                if kind == 'O' and b == opp(side):
                    ok = False
            if ok:
                mask |= 1 << i
        return mask

    def line_ok(self, line, forward, wrap, block_start, block_end):
        """Underground runs along one complete line of states; forward: 0 (row) or 3 (column)."""
        n = len(line)
        limit = self.limit
        marks = [(i, s[0], facing(s) == forward) for i, s in enumerate(line)
                 if s[0] in 'IO' and facing(s) % 2 == forward % 2]
        if not marks:
            return True
        # starts[i]: a run begins after this tile; otherwise one ends before it
        def starts(mark):
            _, kind, is_forward = mark
            return (kind == 'I') == is_forward
        if wrap:
            k = len(marks)
            for j, mark in enumerate(marks):
                if not starts(mark):
                    continue
                other = marks[(j + 1) % k]
                gap = (other[0] - mark[0] - 1) % n if k > 1 else n - 1
                if k == 1 or starts(other) or other[2] != mark[2] or gap < 1:
                    return False
                if limit is not None and gap > limit:
                    return False
            for j, mark in enumerate(marks):
                if starts(mark):
                    continue
                other = marks[(j - 1) % k]
                if k == 1 or not starts(other) or other[2] != mark[2]:
                    return False
            return True
        open_run = None
        for j, mark in enumerate(marks):
            if starts(mark):
                if open_run is not None:
                    return False
                open_run = mark
            else:
                if open_run is None:
                    if j != 0:
                        return False
                    gap = mark[0]       # comes in from beyond the edge
                    if block_start:
                        return False
                    if limit is not None and gap > limit:
                        return False
                else:
                    gap = mark[0] - open_run[0] - 1
                    if open_run[2] != mark[2] or gap < 1:
                        return False
                    if limit is not None and gap > limit:
                        return False
                    open_run = None
        if open_run is not None:
            gap = n - 1 - open_run[0]
            if block_end:
                return False
            if limit is not None and gap > limit:
                return False
        return True

    def prefix_ok(self, line, forward, block_start):
        """Can the beginning of an unwrapped line still become a legal one?"""
        limit = self.limit
        open_at = None
        open_forward = None
        first = True
        for i, s in enumerate(line):
            kind = s[0]
            if kind in 'IO':
                f = s[1] if kind == 'I' else s[2]
                if f % 2 == forward % 2:
                    is_forward = f == forward
                    if (kind == 'I') == is_forward:     # a run begins behind this tile
                        if open_at is not None:
                            return False
                        open_at, open_forward = i, is_forward
                    else:
                        if open_at is None:
                            if not first or block_start or (limit is not None and i > limit):
                                return False
                        else:
                            gap = i - open_at - 1
                            if gap < 1 or open_forward != is_forward or (limit is not None and gap > limit):
                                return False
                            open_at = None
                    first = False
        if open_at is not None and limit is not None and len(line) - 1 - open_at > limit:
            return False
        return True

    def solutions(self, allowed=None, rng=None, max_nodes=None, heads=None):
        """Yields complete grids (lists of rows of state indices). allowed: dict (x, y) -> bit set;
        heads: exact number of splitters."""
        w, h = self.w, self.h
        masks = {}
        for y in range(h):
            for x in range(w):
                m = self.base_allowed(x, y)
                if allowed is not None and (x, y) in allowed:
                    m &= allowed[x, y]
                if w == 1 and self.wrap[0]:
                    m &= sum(1 << i for i in range(N) if RIGHT_OF[i] >> i & 1)
                if h == 1 and self.wrap[1]:
                    m &= sum(1 << i for i in range(N) if BELOW[i] >> i & 1)
                masks[x, y] = m
        grid = [[None] * w for _ in range(h)]
        self.nodes = 0
        order = [(x, y) for y in range(h) for x in range(w)]
        bits_cache = {}

        def bits(m):
            r = bits_cache.get(m)
            if r is None:
                r = bits_cache[m] = [i for i in range(N) if m >> i & 1]
            return r

        class OutOfNodes(Exception):
            pass

        used = [0]

        def recurse(k):
            if k == len(order):
                if heads is not None and used[0] != heads:
                    return
                yield [list(row) for row in grid]
                return
            x, y = order[k]
            m = masks[x, y]
            if x > 0:
                m &= RIGHT_OF[grid[y][x - 1]]
            if y > 0:
                m &= BELOW[grid[y - 1][x]]
            if self.wrap[0] and x == w - 1 and w > 1:
                m &= LEFT_OF[grid[y][0]]
            if self.wrap[1] and y == h - 1 and h > 1:
                m &= ABOVE[grid[0][x]]
            choices = bits(m)
            if rng is not None:
                choices = list(choices)
                rng.shuffle(choices)
            for s in choices:
                self.nodes += 1
                if max_nodes is not None and self.nodes > max_nodes:
                    raise OutOfNodes
                grid[y][x] = s
                if not self.wrap[0] and s in ENDS_ROW and not self.prefix_ok([STATES[i] for i in grid[y][:x + 1]], 0,
                                                                             self.block_under[0]):
                    continue
                if not self.wrap[1] and s in ENDS_COLUMN and not self.prefix_ok([STATES[grid[j][x]] for j in range(y + 1)], 3,
                                                                                self.block_under[1]):
                    continue
                if x == w - 1 and not self.line_ok([STATES[i] for i in grid[y]], 0, self.wrap[0],
                                                   self.block_under[0], self.block_under[2]):
                    continue
                if y == h - 1 and not self.line_ok([STATES[grid[j][x]] for j in range(h)], 3, self.wrap[1],
                                                   self.block_under[1], self.block_under[3]):
                    continue
                if heads is not None and STATES[s][3]:
                    if used[0] == heads:
                        continue
                    used[0] += 1
                    yield from recurse(k + 1)
                    used[0] -= 1
                else:
                    yield from recurse(k + 1)
            grid[y][x] = None

        try:
            yield from recurse(0)
            self.exhausted = True
        except OutOfNodes:
            self.exhausted = False

    def tiles(self, grid):
        return [[tile_of(STATES[i]) for i in row] for row in grid]

    def signature(self, grid):
        """What identifies a layout: directions, splitter flag and splitter head flag per cell."""
        return tuple((STATES[i][1], STATES[i][2], STATES[i][0] == 'S', STATES[i][3]) for row in grid for i in row)

    def admits(self, rows, max_nodes=200000):
        """Is there a use of the splitter halves that makes these tiles legal? True/False/None."""
        allowed = {}
        for y, row in enumerate(rows):
            for x, tile in enumerate(row):
                allowed[x, y] = sum(1 << i for i in states_of_tile(tile))
        for _ in self.solutions(allowed, max_nodes=max_nodes):
            return True
        return False if self.exhausted else None
