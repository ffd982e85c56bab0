"""What a rendered layout has to look like: made-up sprite sheets, and pictures composed from them directly.

Sheets have the sizes of the game's files; every sprite has colours of its own, a fine pattern
and edges that fade out, so a wrong sprite, place, part or order changes the picture.
"""
import colorsys
import math

import numpy as np

from . import softgl

# file: (sprite width, sprite height, columns, rows)
SHEETS = {
    'hr-transport-belt.png': (128, 128, 16, 20),
    'hr-underground-belt-structure.png': (192, 192, 4, 4),
    'hr-splitter-east.png': (90, 84, 8, 4),
    'hr-splitter-east-top_patch.png': (90, 104, 8, 4),
    'hr-splitter-west.png': (90, 86, 8, 4),
    'hr-splitter-west-top_patch.png': (90, 96, 8, 4),
    'hr-splitter-south.png': (164, 64, 8, 4),
    'hr-splitter-north.png': (160, 70, 8, 4),
    'hr-inserter-platform.png': (105, 79, 4, 1),
    'hr-long-handed-inserter-platform.png': (105, 79, 4, 1),
    'hr-inserter-hand-base.png': (32, 136, 1, 1),
    'hr-long-handed-inserter-hand-base.png': (32, 136, 1, 1),
    'hr-inserter-hand-open.png': (72, 164, 1, 1),
    'hr-long-handed-inserter-hand-open.png': (72, 164, 1, 1),
    'hr-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-long-handed-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-assembling-machine-1.png': (214, 226, 8, 4),
}
UNIT = 64

_images = {}


def sheet(name):
    """The made-up sheet, rows from the top, RGBA bytes."""
    if name not in _images:
        w, h, columns, rows = SHEETS[name]
        rng = np.random.default_rng(sorted(SHEETS).index(name) + 1)
        y, x = np.mgrid[0:h, 0:w]
        edge = np.minimum(np.minimum(x + 0.5, w - x - 0.5), np.minimum(y + 0.5, h - y - 0.5))
        # what lies under a sprite stays visible
        alpha = np.clip((edge - 3) / 10, 0, 1) * (255 if name == 'hr-transport-belt.png' else 150)
        waves = np.stack([np.sin(2 * math.pi * x / 17 + 1), np.sin(2 * math.pi * y / 19 + 2), np.sin(2 * math.pi * (x + y) / 23)], 2) * 40
        image = np.zeros((h * rows, w * columns, 4), np.uint8)
        for r in range(rows):
            for c in range(columns):
                base = rng.uniform(60, 200, 3)
                part = image[r * h:(r + 1) * h, c * w:(c + 1) * w]
                part[:, :, :3] = np.clip(base + waves, 0, 255)
                part[:, :, 3] = alpha
        _images[name] = image
    return _images[name]


def open_image(name):
    from PIL import Image
    return Image.fromarray(sheet(name))


class Canvas:
    def __init__(self, columns, rows, cell, padding):
        extra = round(2 * padding * cell)
        self.width, self.height = max(columns * cell + extra, 1), max(rows * cell + extra, 1)
        self.columns, self.rows, self.padding = columns, rows, padding
        self.data = np.ones((self.height, self.width, 4))

    def at(self, x, y):
        """Window pixel (rows from the bottom) of a place on the board."""
        return ((x + self.padding) / (self.columns + 2 * self.padding) * self.width,
                self.height - (y + self.padding) / (self.rows + 2 * self.padding) * self.height)

    def quad(self, image, part, corners, colour):
        """part: u0, v0, u1, v1 of the image, v from its top; corners on the board: top left, bottom left, top right."""
        u0, v0, u1, v1 = part
        a, b, d = (self.at(*corner) for corner in corners)
        softgl.affine(self.data, a, b, d, (u0, v0), (u0, v1), (u1, v0), image, False, tuple(colour) + (1.0,), True)

    def sprite(self, name, column, row, x, y, colour, left=0.0, right=1.0, top=0.0, bottom=1.0):
        """A part of a sprite with its top left corner at (x, y)."""
        w, h, columns, rows = SHEETS[name]
        width, height = (right - left) * w / UNIT, (bottom - top) * h / UNIT
        part = ((column + left) / columns, (row + top) / rows, (column + right) / columns, (row + bottom) / rows)
        self.quad(sheet(name), part, ((x, y), (x, y + height), (x + width, y)), colour)

    def line(self, x0, y0, x1, y1, colour):
        softgl.line(self.data, self.at(x0, y0), self.at(x1, y1), tuple(colour) + (1.0,), True)

    def picture(self):
        """Bytes, rows from the top."""
        return np.clip(np.rint(self.data[::-1, :, :3] * 255), 0, 255).astype(np.uint8)


# rows of the belt sheet, by (coming, going) direction; directions are 0 right, 1 up, 2 left, 3 down
BELT_ROW = {(0, 0): 0, (2, 2): 1, (1, 1): 2, (3, 3): 3,
            (2, 1): 4, (3, 0): 5, (0, 1): 6, (3, 2): 7, (1, 0): 8, (2, 3): 9, (1, 2): 10, (0, 3): 11}
UNDER_ROW = {(0, True): 19, (1, True): 17, (2, True): 15, (3, True): 13, (0, False): 14, (1, False): 12, (2, False): 18, (3, False): 16}
UNDER_COLUMN = {(0, True): 1, (1, True): 0, (2, True): 3, (3, True): 2, (0, False): 3, (1, False): 2, (2, False): 1, (3, False): 0}


def bottom(canvas, tile, x, y, frame, colour):
    kind = tile[0]
    if kind == 'B':
        canvas.sprite('hr-transport-belt.png', frame % 16, BELT_ROW[tile[1], tile[2]], x - 0.5, y - 0.5, colour)
    elif kind == 'U':
        canvas.sprite('hr-transport-belt.png', frame % 16, UNDER_ROW[tile[1], tile[2]], x - 0.5, y - 0.5, colour)
    elif kind == 'S':
        canvas.sprite('hr-transport-belt.png', frame % 16, BELT_ROW[tile[1], tile[1]], x - 0.5, y - 0.5, colour)
    elif kind == 'I':
        name = ('hr-inserter-platform.png', 'hr-long-handed-inserter-platform.png')[tile[2]]
        canvas.sprite(name, {0: 1, 1: 0, 2: 3, 3: 2}[tile[1]], 0, x - 9.5 / 32, y + 1.5 / 32, colour)
    elif kind == 'A':
        _, px, py = tile
        cuts_x, cuts_y = (0, 12 / 32, 21.6 / 32, 1), (0, 11 / 32, 20.25 / 32, 1)
        canvas.sprite('hr-assembling-machine-1.png', frame % 8, frame // 8 % 4, x - (7.5 / 32 if px == 0 else 0),
                      y - (6.75 / 32 if py == 0 else 0), colour, cuts_x[px], cuts_x[px + 1], cuts_y[py], cuts_y[py + 1])


def top(canvas, tile, x, y, frame, colour):
    kind = tile[0]
    if kind == 'U':
        canvas.sprite('hr-underground-belt-structure.png', UNDER_COLUMN[tile[1], tile[2]], 1 if tile[2] else 0, x - 1, y - 1, colour)
    elif kind == 'S':
        _, d, head = tile
        phase = (frame % 8, frame // 8 % 4)
        if d == 0:
            if head:
                canvas.sprite('hr-splitter-east.png', *phase, x, y - 5 / 16, colour)
            else:
                canvas.sprite('hr-splitter-east-top_patch.png', *phase, x, y - 0.5, colour)
        elif d == 2:
            canvas.sprite('hr-splitter-west-top_patch.png' if head else 'hr-splitter-west.png', *phase, x, y - 5 / 16, colour)
        elif d == 1:
            if head:
                canvas.sprite('hr-splitter-north.png', *phase, x, y, colour, left=13 / 32)
            else:
                canvas.sprite('hr-splitter-north.png', *phase, x, y, colour, right=13 / 32)
        elif head:
            canvas.sprite('hr-splitter-south.png', *phase, x - 5 / 32, y, colour, right=14 / 32)
        else:
            canvas.sprite('hr-splitter-south.png', *phase, x - 4 / 32, y, colour, left=14 / 32)
    elif kind == 'I':
        hand(canvas, tile, x, y, frame, colour)


def hand(canvas, tile, x, y, frame, colour):
    """The arm swings between the two sides of the inserter; its hand is open on one way and closed on the other."""
    _, d, kind = tile
    reach = (abs(1 - frame / 16) - 0.5) * (1.5, 3.75)[kind]
    bend = math.degrees(math.asin(abs(reach) / 2)) * (-1 if reach < 0 else 1)
    base = 90 * (2 - d) + bend

    def turned(px, py, angle, ox, oy):
        a = math.radians(angle)
        return px * math.cos(a) - py * math.sin(a) + ox, px * math.sin(a) + py * math.cos(a) + oy

    def arm(name, place):
        w, h = SHEETS[name][:2]
        width = w / h
        # the picture stands on its head: its lower edge is at the joint
        corners = [place(0, 1), place(0, 0), place(width, 1)]
        canvas.quad(sheet(name), (0, 0, 1, 1), corners, colour)
    prefix = ('hr-inserter-hand-', 'hr-long-handed-inserter-hand-')[kind]
    arm(prefix + 'base.png', lambda px, py: turned(px - 3.5 / 32, py, base, x + 0.5, y + 0.5))

    def upper(px, py):
        px, py = turned(px - 7 / 32, py, 180 - 2 * bend, 0, 29 / 32)
        return turned(px, py, base, x + 0.5, y + 0.5)
    arm(prefix + ('closed.png' if frame > 16 else 'open.png'), upper)


def palette(n):
    if n == 1:
        return [(1.0, 1.0, 1.0)]
    if n <= 3:
        return [(1, 0.5, 0.5), (0.5, 1, 0.5), (0.5, 0.5, 1)][:n]
    return [colorsys.hsv_to_rgb(i / n, 0.4, 1.0) for i in range(n)]


def length(tiles):
    return 32 if any(t[0] == 'S' for row in tiles for t in row) else 16


def first(colour):
    return colour[0] if isinstance(colour, list) else colour


def frame(tiles, cells, number, cell, padding=0.0, colouring=True, colour_count=None, underground=False, raw=()):
    """The picture (rows from the top) of one frame. tiles: rows of ('B', in, out), ('U', d, entry), ('S', d, head),
    ('I', d, type), ('A', x, y), ('E',); cells: the dictionaries of the layout."""
    rows, columns = len(tiles), len(tiles[0])
    canvas = Canvas(columns, rows, cell, padding)
    for x in range(math.floor(-padding), math.ceil(columns + padding)):
        canvas.line(x, -padding, x, rows + padding, (1, 0, 0))
    for y in range(math.floor(-padding), math.ceil(rows + padding)):
        canvas.line(-padding, y, columns + padding, y, (1, 0, 0))
    shades = {}
    if colouring:
        used = set()
        for row in cells:
            for item in row:
                for key in ('colour', 'colour_ux', 'colour_uy'):
                    value = item.get(key, 0)
                    used.update(value if isinstance(value, list) else [value])
        used.discard(None)
        if colour_count is None:
            shades = dict(zip(sorted(used), palette(len(used))))
        else:
            shades = dict(enumerate(palette(colour_count)))

    def shade(colour):
        if not colouring:
            return (1, 1, 1)
        return (0.5, 0.5, 0.5) if colour is None else shades[colour]
    for paint in (bottom, top):
        for x in reversed(range(columns)):
            for y in range(rows):
                if tiles[y][x][0] not in 'EF':
                    paint(canvas, tiles[y][x], x, y, number, shade(first(cells[y][x].get('colour', 0))))
    if underground:
        for y in range(rows):
            for x in range(columns):
                passes = cells[y][x].get('underground')
                if passes is None:
                    continue
                if passes[0] or passes[2]:
                    canvas.line(x, y + 0.5, x + 1, y + 0.5, shade(first(cells[y][x].get('colour_ux', 0))))
                if passes[1] or passes[3]:
                    canvas.line(x + 0.5, y, x + 0.5, y + 1, shade(first(cells[y][x].get('colour_uy', 0))))
    if raw:
        write(canvas, cells, raw)
    return canvas.picture()


def write(canvas, cells, names):
    """The named values of each cell written into it, all at one scale that fits."""
    import pygame
    pygame.font.init()
    font = pygame.font.Font(None, 24)
    texts = {}
    for y, row in enumerate(cells):
        for x, item in enumerate(row):
            lines = []
            for name in names:
                value = item
                for piece in name.split('.'):
                    value = value[int(piece)] if piece.isdigit() else value.get(piece)
                lines += str(np.array(value)).split('\n')
            texts[x, y] = lines
    widest = max(font.size(line)[0] for lines in texts.values() for line in lines)
    tallest = max(sum(font.size(line)[1] for line in lines) for lines in texts.values())
    if not widest or not tallest:
        return
    scale = min(1 / widest, 1 / tallest)
    for (x, y), lines in texts.items():
        down = y
        for line in lines:
            surface = font.render(line, True, (255, 0, 0), (0, 0, 0))
            ink = pygame.surfarray.array3d(surface)[:, :, 0].T
            image = np.zeros(ink.shape + (4,), np.uint8)
            image[:, :, 2] = 255
            image[:, :, 3] = ink
            w, h = surface.get_size()
            canvas.quad(image, (0, 0, 1, 1), ((x, down), (x, down + scale * h), (x + scale * w, down)), (1, 1, 1))
            down += scale * h


def differs(a, b, tolerance=8):
    """Share of the pixels in which two pictures differ visibly."""
    if a.shape != b.shape:
        return 1.0
    return float((np.abs(a.astype(int) - b.astype(int)).max(2) > tolerance).mean())
