"""Random layouts for the tools that read, convert and move layouts."""
from . import gen
from . import layout as L


def place_machines(rng, rows, chance=0.7):
    w, h = L.size(rows)
    for _ in range(6):
        if rng.random() > chance or w < 3 or h < 3:
            continue
        x0, y0 = rng.randrange(w - 2), rng.randrange(h - 2)
        if all(rows[y0 + j][x0 + i] == L.EMPTY for i in range(3) for j in range(3)):
            for i in range(3):
                for j in range(3):
                    rows[y0 + j][x0 + i] = ('A', i, j)


def scatter(rng, w, h, fill, machines=False, inserters=True, fillers=True, splitters=True):
    """Any mixture of whole entities, legal or not."""
    rows = [[L.EMPTY] * w for _ in range(h)]
    if machines:
        place_machines(rng, rows)
    kinds = ['B'] * 4 + ['U'] * 3 + ['S'] * (3 if splitters else 0) + ['I'] * (1 if inserters else 0) + ['F'] * (1 if fillers else 0)
    cells = [(x, y) for y in range(h) for x in range(w)]
    rng.shuffle(cells)
    for x, y in cells:
        if rows[y][x] != L.EMPTY or rng.random() > fill:
            continue
        kind = rng.choice(kinds)
        d = rng.randrange(4)
        if kind == 'B':
            rows[y][x] = ('B', rng.choice([i for i in range(4) if i != L.opp(d)]), d)
        elif kind == 'U':
            rows[y][x] = ('U', d, rng.random() < 0.5)
        elif kind == 'I':
            rows[y][x] = ('I', d, rng.randrange(2))
        elif kind == 'F':
            rows[y][x] = ('F',)
        else:
            dx, dy = L.VEC[L.left_of(d)]
            if 0 <= x + dx < w and 0 <= y + dy < h and rows[y + dy][x + dx] == L.EMPTY:
                rows[y][x] = ('S', d, True)
                rows[y + dy][x + dx] = ('S', d, False)
    return rows


def decorate(rng, rows, machines, inserters, fillers):
    rows = [list(row) for row in rows]
    if machines:
        place_machines(rng, rows)
    for row in rows:
        for x, t in enumerate(row):
            if t == L.EMPTY and rng.random() < 0.2:
                if inserters and rng.random() < 0.6:
                    row[x] = ('I', rng.randrange(4), rng.randrange(2))
                elif fillers:
                    row[x] = ('F',)
    return rows


def scene(rng, machines=False, inserters=True, fillers=True, largest=9, huge=0.0):
    """A random layout and how it was made."""
    if rng.random() < huge:
        w, h = rng.choice((rng.randint(1, 12), rng.randint(30, 300))), rng.randint(1, 25)
        if rng.random() < 0.5:
            w, h = h, w
        return scatter(rng, w, h, rng.choice((0.05, 0.3, 0.7, 1.0)), machines, inserters, fillers), 'huge'
    w, h = rng.randint(1, largest), rng.randint(1, largest)
    if rng.random() < 0.15:
        w, h = rng.choice(((1, 1), (1, h), (w, 1)))
    if rng.random() < 0.5:
        rows = gen.random_legal(rng, w, h, limit=rng.randint(0, 6), max_nodes=4000, empty_bias=rng.choice((0, 0, 0.2, 0.5)),
                                block=rng.choice(((False,) * 4, (True,) * 4)))
        if rows is not None:
            rows = [list(row) for row in rows]
            if rng.random() < 0.4:
                return decorate(rng, rows, machines, inserters, fillers), 'decorated'
            return rows, 'legal'
    return scatter(rng, w, h, rng.choice((0.05, 0.3, 0.7, 1.0)), machines, inserters, fillers), 'scattered'


def whole_splitters(rows):
    """Every splitter half of the layout has its other half beside it."""
    w, h = L.size(rows)
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            if t[0] == 'S':
                dx, dy = L.VEC[L.left_of(t[1])]
                if not t[2]:
                    dx, dy = -dx, -dy
                if not (0 <= x + dx < w and 0 <= y + dy < h) or rows[y + dy][x + dx] != ('S', t[1], not t[2]):
                    return False
    return True
