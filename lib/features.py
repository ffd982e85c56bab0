"""Constructed layouts that show rare features: long undergrounds, chains of them below closed rings."""
from . import layout as L
from . import legal

EMPTY_MASK = 1 << legal.INDEX[('E', None, None, False)]


def underground_feature(rng, w, h, limit):
    """{cell: mask}: two undergrounds in a row, or one with a belt before or after it, somewhere inside."""
    d = rng.randrange(4)
    entry, leave = legal.INDEX['I', d, None, False], legal.INDEX['O', None, d, False]
    belt = legal.INDEX['B', d, d, False]
    top = 4 if limit is None else limit
    a, b = rng.randint(1, min(top, 3)), rng.randint(1, min(top, 3))
    chain = [entry] + [None] * a + [leave]
    kind = rng.randrange(3)
    if kind == 0:
        chain += [entry] + [None] * b + [leave]
    elif kind == 1:
        chain = [belt] + chain
    else:
        chain = chain + [belt]
    dx, dy = L.VEC[d]
    x, y = rng.randrange(w), rng.randrange(h)
    cells = {(x + dx * k, y + dy * k): 1 << s for k, s in enumerate(chain) if s is not None}
    # something has to cross above, or the underground is idle
    over = [(x + dx * k, y + dy * k) for k, s in enumerate(chain) if s is None]
    full = sum(1 << i for i, s in enumerate(legal.STATES) if s[0] in 'BS')
    for cell in over:
        if rng.random() < 0.7:
            cells[cell] = full
    if any(not (0 <= cx < w and 0 <= cy < h) for cx, cy in cells):
        return None
    return cells


def long_underground(rng, w, h, limit):
    """{cell: mask}: an underground of any length with exactly one tile above it in use."""
    d = rng.randrange(4)
    longest = max((w if d % 2 == 0 else h) - 2, 1)
    if limit is not None:
        longest = min(longest, limit)
    n = rng.choice((longest, longest, rng.randint(1, longest)))
    used = rng.choice((0, n - 1, rng.randrange(n)))
    dx, dy = L.VEC[d]
    x, y = rng.randrange(w), rng.randrange(h)
    ends = ((x, y), (x + dx * (n + 1), y + dy * (n + 1)))
    if any(not (0 <= cx < w and 0 <= cy < h) for cx, cy in ends):
        return None
    cells = {ends[0]: 1 << legal.INDEX['I', d, None, False], ends[1]: 1 << legal.INDEX['O', None, d, False]}
    for k in range(1, n + 1):
        cells[x + dx * k, y + dy * k] = -1 & ~EMPTY_MASK if k - 1 == used else EMPTY_MASK
    return cells


def chain_layout(rng):
    """(rows, nodes, mode): a line of undergrounds below closed rings, then a splitter; limit is up to the caller."""
    pieces = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        lead = rng.choice((0, 0, 0, 1))             # straight belts in front of it
        skip = rng.randint(2, 5)
        ring = rng.randint(0, skip - 2)             # where the ring crosses
        pieces.append((lead, skip, ring))
    tail = rng.choice((0, 0, 1))
    line, crossings, k = [], [], 0
    for lead, skip, ring in pieces:
        line += ['B'] * lead + ['I'] + [None] * skip + ['O']
        crossings.append(k + lead + 1 + ring)
        k = len(line)
    line += ['B'] * tail
    turn = rng.choice((0, 1))   # sense of the rings

    def lay(put, d, x, y):
        dx, dy = L.VEC[d]
        for i, kind in enumerate(line):
            if kind == 'B':
                put(x + dx * i, y + dy * i, ('B', d, d))
            elif kind is not None:
                put(x + dx * i, y + dy * i, ('U', d, kind == 'I'))
        for i in crossings:
            # a ring two tiles long in direction d and three across, around the line
            ax, ay = L.VEC[(d + 1) % 4]
            ring = [(i, 1), (i, 0), (i, -1), (i + 1, -1), (i + 1, 0), (i + 1, 1)]
            if turn:
                ring.reverse()
            places = [(x + dx * a + ax * b, y + dy * a + ay * b) for a, b in ring]
            for j, place in enumerate(places):
                before, after = places[j - 1], places[(j + 1) % 6]
                move = [L.VEC.index((q[0] - p[0], q[1] - p[1])) for p, q in ((before, place), (place, after))]
                put(*place, ('B', move[0], move[1]))

    cells = {}

    def put(px, py, t):
        assert (px, py) not in cells
        cells[px, py] = t
    n = len(line)
    mode = rng.choice(('straight', 'up', 'down', '90', '180'))
    if mode == 'straight':
        put(0, 1, ('B', 0, 0))
        lay(put, 0, 1, 1)
        put(n + 1, 1, ('S', 0, False))
        put(n + 1, 2, ('S', 0, True))
        put(n + 2, 1, ('B', 0, 0))
        put(n + 2, 2, ('B', 0, 0))
        w, h = n + 3, 3 + rng.randrange(2)
    elif mode in ('up', 'down'):
        h = n + 3
        up = mode == 'up'
        start, end = (h - 1, 1) if up else (0, h - 2)
        d = 1 if up else 3
        put(0, start, ('B', 0, 0))
        put(1, start, ('B', 0, 0))
        put(2, start, ('B', 0, d))
        lay(put, d, 2, start + L.VEC[d][1])
        put(2, end, ('B', d, 0))
        put(3, end, ('B', 0, 0))
        put(4, end, ('S', 0, not up))
        put(4, end + (1 if up else -1), ('S', 0, up))
        put(5, end, ('B', 0, 0))
        put(5, end + (1 if up else -1), ('B', 0, 0))
        w = 6
    elif mode == '90':
        put(0, 0, ('B', 0, 0))
        put(1, 0, ('B', 0, 0))
        put(2, 0, ('B', 0, 3))
        lay(put, 3, 2, 1)
        put(2, n + 1, ('S', 3, True))
        put(3, n + 1, ('S', 3, False))
        put(2, n + 2, ('B', 3, 3))
        put(3, n + 2, ('B', 3, 3))
        w, h = 4 + rng.randrange(2), n + 3
    else:
        w, h = n + 3, 4
        for px in range(w - 1):
            put(px, 0, ('B', 0, 0))
        put(w - 1, 0, ('B', 0, 3))
        put(w - 1, 1, ('B', 3, 3))
        put(w - 1, 2, ('B', 3, 2))
        lay(put, 2, w - 2, 2)
        put(1, 2, ('S', 2, True))
        put(1, 3, ('S', 2, False))
        put(0, 2, ('B', 2, 2))
        put(0, 3, ('B', 2, 2))
    rows = [[cells.get((px, py), L.EMPTY) for px in range(w)] for py in range(h)]
    assert all(0 <= px < w and 0 <= py < h for px, py in cells)
    return rows, [((0, None), (1, 1))], 'straight' if mode in ('up', 'down') else mode
