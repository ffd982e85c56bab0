"""Larger layouts from small ones: straight columns and rows put in between."""
from lib import layout as L


def insert_column(rows, x):
    """A column between x - 1 and x in which everything runs straight on, or None if a splitter is in the way."""
    out = []
    for row in rows:
        a, b = row[x - 1], row[x]
        t = L.EMPTY
        if a[0] == 'S' and b[0] == 'S' and a[1] == b[1] and a[1] % 2 == 1 and a[2] != b[2]:
            # halves of one splitter lie side by side; of two splitters they face outwards
            left_is_head = L.VEC[L.left_of(a[1])][0] > 0
            if a[2] == left_is_head:
                return None
        for near, far, d in ((a, b, 0), (b, a, 2)):
            if leaves(near, d) and enters(far, d):
                t = ('B', d, d)
        out.append(list(row[:x]) + [t] + list(row[x:]))
    return out


def leaves(t, d):
    return t[0] == 'B' and t[2] == d or t[0] == 'U' and t[1] == d and not t[2] or t[0] == 'S' and t[1] == d


def enters(t, d):
    return t[0] == 'B' and t[1] == d or t[0] == 'U' and t[1] == d and t[2] or t[0] == 'S' and t[1] == d


def transpose(rows):
    """Mirrored in the main diagonal: right and down change places, left and up too, and the halves of splitters."""
    turn = {0: 3, 3: 0, 1: 2, 2: 1}

    def tile(t):
        if t[0] == 'B':
            return ('B', turn[t[1]], turn[t[2]])
        if t[0] == 'U':
            return ('U', turn[t[1]], t[2])
        if t[0] == 'S':
            return ('S', turn[t[1]], not t[2])
        return t
    return [[tile(rows[y][x]) for y in range(len(rows))] for x in range(len(rows[0]))]


def stretched(rng, rows, width, height):
    """The layout made as wide and high as asked for, as far as possible, by straight columns and rows."""
    for axis, goal in ((0, width), (1, height)):
        if axis:
            rows = transpose(rows)
        tries = 0
        places = [rng.randrange(1, len(rows[0])) for _ in range(3)] if len(rows[0]) > 1 else []
        spans = [x + (1 if t[1] == 0 else 0) for row in rows for x, t in enumerate(row) if t[0] == 'U' and t[2] and t[1] % 2 == 0]
        spans = [x for x in spans if 0 < x < len(rows[0])]
        if spans and rng.random() < 0.8:    # lengthen an underground
            places = [rng.choice(spans)]
        while places and len(rows[0]) < goal and tries < 200:
            tries += 1
            wider = insert_column(rows, rng.choice(places) if rng.random() < 0.7 else rng.randrange(1, len(rows[0])))
            if wider is not None:
                rows = wider
        if axis:
            rows = transpose(rows)
    return [tuple(row) for row in rows]
