"""A small software stand-in for the OpenGL calls of the renderer: it draws into arrays.

Only what a 2D picture needs: matrix stacks, immediate mode quads and lines, textures, blending,
framebuffers, blits and reading back. A call it does not know is noted in `unsupported`; the
picture then cannot be judged (and is not).
"""
import math

import numpy as np
import OpenGL.GL as G


def sample(texture, u, v, nearest):
    """Colours (n, 4) in 0..1 at texture coordinates, edges clamped."""
    h, w = texture.shape[:2]
    x, y = u * w - 0.5, v * h - 0.5
    if nearest:
        xi = np.clip(np.floor(x + 0.5).astype(int), 0, w - 1)
        yi = np.clip(np.floor(y + 0.5).astype(int), 0, h - 1)
        return texture[yi, xi] / 255.0
    x0, y0 = np.floor(x), np.floor(y)
    fx, fy = (x - x0)[:, None], (y - y0)[:, None]
    xa = np.clip(x0.astype(int), 0, w - 1)
    xb = np.clip(x0.astype(int) + 1, 0, w - 1)
    ya = np.clip(y0.astype(int), 0, h - 1)
    yb = np.clip(y0.astype(int) + 1, 0, h - 1)
    top = texture[ya, xa] * (1 - fx) + texture[ya, xb] * fx
    bottom = texture[yb, xa] * (1 - fx) + texture[yb, xb] * fx
    return (top * (1 - fy) + bottom * fy) / 255.0


def put(target, xs, ys, colour, blend):
    alpha = colour[:, 3:4] if blend else 1.0
    old = target[ys, xs]
    target[ys, xs] = old * (1 - alpha) + colour * alpha


def affine(target, p0, p1, p3, t0, t1, t3, texture, nearest, colour, blend, triangle=False):
    """Paint the parallelogram (or its first half) spanned at p0 by p1 and p3, in window pixels (row 0 is the bottom)."""
    h, w = target.shape[:2]
    ax, ay = p1[0] - p0[0], p1[1] - p0[1]
    bx, by = p3[0] - p0[0], p3[1] - p0[1]
    det = ax * by - ay * bx
    if abs(det) < 1e-12:
        return
    corners = [p0, p1, p3] if triangle else [p0, p1, p3, (p1[0] + bx, p1[1] + by)]
    x_low = max(0, math.floor(min(c[0] for c in corners)))
    x_high = min(w, math.ceil(max(c[0] for c in corners)))
    y_low = max(0, math.floor(min(c[1] for c in corners)))
    y_high = min(h, math.ceil(max(c[1] for c in corners)))
    if x_low >= x_high or y_low >= y_high:
        return
    ys, xs = np.mgrid[y_low:y_high, x_low:x_high]
    ys, xs = ys.ravel(), xs.ravel()
    # pixels are sampled just beside their centres, so that an edge through a centre is on the same side for everyone
    dx, dy = xs + 0.5 + 1.3e-5 - p0[0], ys + 0.5 + 1.7e-5 - p0[1]
    a = (dx * by - dy * bx) / det
    b = (ax * dy - ay * dx) / det
    inside = (a >= 0) & (b >= 0) & ((a + b < 1) if triangle else (a < 1) & (b < 1))
    xs, ys, a, b = xs[inside], ys[inside], a[inside], b[inside]
    if not len(xs):
        return
    rgba = np.tile(np.asarray(colour, float), (len(xs), 1))
    if texture is not None:
        u = t0[0] + a * (t1[0] - t0[0]) + b * (t3[0] - t0[0])
        v = t0[1] + a * (t1[1] - t0[1]) + b * (t3[1] - t0[1])
        rgba *= sample(texture, u, v, nearest)
    put(target, xs, ys, rgba, blend)


def line(target, p, q, colour, blend):
    h, w = target.shape[:2]
    n = max(1, math.ceil(max(abs(q[0] - p[0]), abs(q[1] - p[1])) - 1e-6))
    k = (np.arange(n) + 0.5) / n
    xs = np.floor(p[0] + k * (q[0] - p[0]) + 1e-6).astype(int)
    ys = np.floor(p[1] + k * (q[1] - p[1]) + 1e-6).astype(int)
    inside = (xs >= 0) & (xs < w) & (ys >= 0) & (ys < h)
    xs, ys = xs[inside], ys[inside]
    if len(xs):
        put(target, xs, ys, np.tile(np.asarray(colour, float), (len(xs), 1)), blend)


def translation(x, y, z=0):
    m = np.eye(4)
    m[:3, 3] = x, y, z
    return m


class Texture:
    def __init__(self):
        self.data = None
        self.nearest = False


class SoftGL:
    def __init__(self):
        self.unsupported = set()
        self.calls = 0
        self.quads = 0
        self.stacks = {G.GL_MODELVIEW: [np.eye(4)], G.GL_PROJECTION: [np.eye(4)], G.GL_TEXTURE: [np.eye(4)]}
        self.mode = G.GL_MODELVIEW
        self.colour = (1.0, 1.0, 1.0, 1.0)
        self.clear_colour = (0.0, 0.0, 0.0, 0.0)
        self.enabled = set()
        self.blend_func = (G.GL_ONE, G.GL_ZERO)
        self.textures = {}
        self.bound = 0
        self.renderbuffers = {}
        self.bound_renderbuffer = 0
        self.framebuffers = {}
        self.draw = self.read = 0
        self.window = np.zeros((1, 1, 4))
        self.viewport = (0, 0, 1, 1)
        self.begun = None
        self.vertices = []
        self.coord = (0.0, 0.0)
        self.serial = 0
        self.fresh_context = True

    # window --------------------------------------------------------------
    def set_mode(self, size):
        self.window = np.zeros((size[1], size[0], 4))
        if self.fresh_context:
            self.viewport = (0, 0, size[0], size[1])
            self.fresh_context = False

    def new(self):
        self.serial += 1
        return self.serial

    def surface(self, name):
        if name == 0:
            return self.window
        kind, what = self.framebuffers.get(name, (None, None))
        if kind == 'renderbuffer':
            return what
        if kind == 'texture':
            texture = self.textures.get(what)
            return None if texture is None else texture
        return None

    def target(self):
        surface = self.surface(self.draw)
        if surface is None or isinstance(surface, Texture):
            self.unsupported.add('drawing to this framebuffer')
            return np.zeros((1, 1, 4))
        return surface

    # the calls -----------------------------------------------------------
    def names(self):
        return {name[3:]: getattr(self, name) for name in dir(self) if name.startswith('do_')}

    def do_glGetIntegerv(self, what, *_):
        if what == G.GL_VIEWPORT:
            return np.array(self.viewport)
        self.unsupported.add(f'glGetIntegerv {what}')
        return 0

    def do_glViewport(self, x, y, w, h):
        self.viewport = (int(x), int(y), int(w), int(h))

    def do_glGetError(self):
        return 0

    def do_glFlush(self):
        pass

    def do_glFinish(self):
        pass

    def do_glPixelStorei(self, *_):
        pass

    def do_glHint(self, *_):
        pass

    def do_glLineWidth(self, width):
        pass

    def do_glDrawBuffer(self, *_):
        pass

    def do_glReadBuffer(self, *_):
        pass

    def do_glEnable(self, what):
        self.enabled.add(int(what))

    def do_glDisable(self, what):
        self.enabled.discard(int(what))

    def do_glBlendFunc(self, a, b):
        self.blend_func = (a, b)

    def do_glClearColor(self, *colour):
        self.clear_colour = tuple(map(float, colour))

    def do_glClear(self, what):
        if int(what) & int(G.GL_COLOR_BUFFER_BIT):
            self.target()[...] = self.clear_colour

    # matrices
    def do_glMatrixMode(self, mode):
        self.mode = mode

    def matrix(self):
        return self.stacks[self.mode][-1]

    def multiply(self, m):
        self.stacks[self.mode][-1] = self.stacks[self.mode][-1] @ m

    def do_glLoadIdentity(self):
        self.stacks[self.mode][-1] = np.eye(4)

    def do_glPushMatrix(self):
        self.stacks[self.mode].append(self.stacks[self.mode][-1].copy())

    def do_glPopMatrix(self):
        if len(self.stacks[self.mode]) > 1:
            self.stacks[self.mode].pop()

    def do_glTranslatef(self, x, y, z):
        self.multiply(translation(float(x), float(y), float(z)))

    do_glTranslated = do_glTranslate = do_glTranslatef

    def do_glScalef(self, x, y, z):
        self.multiply(np.diag([float(x), float(y), float(z), 1.0]))

    do_glScaled = do_glScale = do_glScalef

    def do_glRotatef(self, angle, x, y, z):
        if (x, y) != (0, 0) or z == 0:
            self.unsupported.add('rotation out of the plane')
            return
        a = math.radians(float(angle)) * (1 if z > 0 else -1)
        m = np.eye(4)
        m[0, 0] = m[1, 1] = math.cos(a)
        m[0, 1], m[1, 0] = -math.sin(a), math.sin(a)
        self.multiply(m)

    do_glRotated = do_glRotate = do_glRotatef

    def do_glOrtho(self, left, right, bottom, top, near, far):
        m = np.diag([2 / (right - left), 2 / (top - bottom), -2 / (far - near), 1.0])
        m[0, 3], m[1, 3], m[2, 3] = -(right + left) / (right - left), -(top + bottom) / (top - bottom), -(far + near) / (far - near)
        self.multiply(m)

    def do_gluOrtho2D(self, left, right, bottom, top):
        self.do_glOrtho(float(left), float(right), float(bottom), float(top), -1.0, 1.0)

    # drawing
    def set_colour(self, *colour):
        if len(colour) == 1:
            colour = tuple(colour[0])
        self.colour = tuple(float(c) for c in colour) + (1.0,) * (4 - len(colour))

    do_glColor3f = do_glColor4f = do_glColor3d = do_glColor4d = do_glColor3fv = do_glColor4fv = do_glColor3dv = do_glColor4dv = set_colour
    do_glColor = do_glColorf = set_colour

    def do_glBegin(self, what):
        self.begun = what
        self.vertices = []

    def tex_coord(self, *coord):
        if len(coord) == 1:
            coord = tuple(coord[0])
        self.coord = (float(coord[0]), float(coord[1]) if len(coord) > 1 else 0.0)

    do_glTexCoord2f = do_glTexCoord2d = do_glTexCoord2fv = do_glTexCoord2dv = do_glTexCoord2i = do_glTexCoord = tex_coord

    def vertex(self, *point):
        if len(point) == 1:
            point = tuple(point[0])
        p = np.array([float(point[0]), float(point[1]), float(point[2]) if len(point) > 2 else 0.0, 1.0])
        p = self.stacks[G.GL_PROJECTION][-1] @ (self.stacks[G.GL_MODELVIEW][-1] @ p)
        x, y, w, h = self.viewport
        self.vertices.append((((p[0] / p[3] + 1) / 2 * w + x, (p[1] / p[3] + 1) / 2 * h + y), self.coord, self.colour))

    do_glVertex2f = do_glVertex2d = do_glVertex2i = do_glVertex2fv = do_glVertex2dv = do_glVertex3f = do_glVertex3d = vertex
    do_glVertex3fv = do_glVertex = do_glVertexf = do_glVertex2s = vertex

    def do_glEnd(self):
        v, what, target = self.vertices, self.begun, self.target()
        self.begun, self.vertices = None, []
        blend = int(G.GL_BLEND) in self.enabled
        if blend and self.blend_func != (G.GL_SRC_ALPHA, G.GL_ONE_MINUS_SRC_ALPHA):
            if self.blend_func == (G.GL_ONE, G.GL_ZERO):
                blend = False
            else:
                self.unsupported.add(f'blending {self.blend_func}')
        lines, triangles, quads = [], [], []
        if what == G.GL_LINES:
            lines = [(v[i], v[i + 1]) for i in range(0, len(v) - 1, 2)]
        elif what in (G.GL_LINE_STRIP, G.GL_LINE_LOOP):
            lines = list(zip(v, v[1:]))
            if what == G.GL_LINE_LOOP and len(v) > 1:
                lines.append((v[-1], v[0]))
        elif what == G.GL_QUADS:
            quads = [v[i:i + 4] for i in range(0, len(v) - 3, 4)]
        elif what == G.GL_QUAD_STRIP:
            quads = [[v[i], v[i + 1], v[i + 3], v[i + 2]] for i in range(0, len(v) - 3, 2)]
        elif what == G.GL_TRIANGLES:
            triangles = [v[i:i + 3] for i in range(0, len(v) - 2, 3)]
        elif what in (G.GL_TRIANGLE_FAN, G.GL_POLYGON):
            if len(v) == 4:
                quads = [v]
            else:
                triangles = [[v[0], v[i], v[i + 1]] for i in range(1, len(v) - 1)]
        elif what == G.GL_TRIANGLE_STRIP:
            if len(v) == 4:
                quads = [[v[0], v[1], v[3], v[2]]]
            else:
                triangles = [v[i:i + 3] for i in range(len(v) - 2)]
        else:
            self.unsupported.add(f'glBegin({what})')
        for a, b in lines:
            line(target, a[0], b[0], b[2], blend)
        texture, nearest = None, False
        if int(G.GL_TEXTURE_2D) in self.enabled and self.bound in self.textures and self.textures[self.bound].data is not None:
            texture, nearest = self.textures[self.bound].data, self.textures[self.bound].nearest
        for a, b, c, d in quads:
            self.quads += 1
            flat = all(abs(a[k][i] + c[k][i] - b[k][i] - d[k][i]) < 1e-6 for k in (0, 1) for i in (0, 1))
            if flat:
                affine(target, a[0], b[0], d[0], a[1], b[1], d[1], texture, nearest, d[2], blend)
            else:
                affine(target, a[0], b[0], c[0], a[1], b[1], c[1], texture, nearest, d[2], blend, True)
                affine(target, a[0], c[0], d[0], a[1], c[1], d[1], texture, nearest, d[2], blend, True)
        for a, b, c in triangles:
            self.quads += 1
            affine(target, a[0], b[0], c[0], a[1], b[1], c[1], texture, nearest, c[2], blend, True)

    def do_glRectf(self, x0, y0, x1, y1):
        self.do_glBegin(G.GL_QUADS)
        for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1)):
            self.vertex(*p)
        self.do_glEnd()

    # textures
    def generate(self, table, make, n):
        result = []
        for _ in range(int(n)):
            result.append(self.new())
            table[result[-1]] = make()
        return result[0] if n == 1 else np.array(result)

    def ids(self, n, values):
        values = np.atleast_1d(np.asarray(n if values is None else values)).ravel()
        return [int(i) for i in values]

    def do_glGenTextures(self, n, *_):
        return self.generate(self.textures, Texture, n)

    def do_glDeleteTextures(self, n, values=None):
        for i in self.ids(n, values):
            self.textures.pop(i, None)
            if self.bound == i:
                self.bound = 0

    def do_glBindTexture(self, target, texture):
        self.bound = int(texture)
        if self.bound:
            self.textures.setdefault(self.bound, Texture())

    def do_glTexParameteri(self, target, name, value):
        if name in (G.GL_TEXTURE_MAG_FILTER, G.GL_TEXTURE_MIN_FILTER) and self.bound in self.textures:
            self.textures[self.bound].nearest = value == G.GL_NEAREST

    do_glTexParameterf = do_glTexParameteri

    def do_glTexEnvi(self, target, name, value):
        if value != G.GL_MODULATE:
            self.unsupported.add('texture environment')

    do_glTexEnvf = do_glTexEnvi

    def do_glTexImage2D(self, target, level, internal, width, height, border, form, kind, data):
        if self.bound not in self.textures:
            return
        texture = self.textures[self.bound]
        if kind != G.GL_UNSIGNED_BYTE or form not in (G.GL_RGBA, G.GL_RGB):
            self.unsupported.add('texture format')
            return
        channels = 4 if form == G.GL_RGBA else 3
        if data is None:
            array = np.zeros((height, width, 4), np.uint8)
        else:
            if not isinstance(data, (bytes, bytearray, memoryview)):
                data = np.ascontiguousarray(data, np.uint8).tobytes()
            array = np.frombuffer(bytes(data), np.uint8)[:width * height * channels].reshape(height, width, channels)
            if channels == 3:
                array = np.dstack([array, np.full((height, width), 255, np.uint8)])
        if internal in (G.GL_RGB, 3) and channels == 4:
            array = array.copy()
            array[:, :, 3] = 255
        texture.data = array

    def do_glGetTexLevelParameteriv(self, target, level, name, *_):
        texture = self.textures.get(self.bound)
        h, w = (0, 0) if texture is None or texture.data is None else texture.data.shape[:2]
        if name == G.GL_TEXTURE_WIDTH:
            return w
        if name == G.GL_TEXTURE_HEIGHT:
            return h
        self.unsupported.add('texture parameter')
        return 0

    def do_glGetTexImage(self, target, level, form, kind, *rest, **_):
        texture = self.textures.get(self.bound)
        if texture is None or texture.data is None or kind != G.GL_UNSIGNED_BYTE or rest:
            self.unsupported.add('glGetTexImage')
            return b''
        return self.bytes(texture.data, form)

    def bytes(self, data, form):
        if form == G.GL_RGB:
            return np.ascontiguousarray(data[:, :, :3]).tobytes()
        if form == G.GL_RGBA:
            return np.ascontiguousarray(data).tobytes()
        self.unsupported.add('pixel format')
        return b''

    def do_glReadPixels(self, x, y, w, h, form, kind, *rest, **_):
        data = self.pixels(self.read)
        if data is None or kind != G.GL_UNSIGNED_BYTE or rest:
            self.unsupported.add('glReadPixels')
            return b''
        return self.bytes(data[y:y + h, x:x + w], form)

    # framebuffers
    def do_glGenRenderbuffers(self, n, *_):
        return self.generate(self.renderbuffers, lambda: None, n)

    def do_glBindRenderbuffer(self, target, name):
        self.bound_renderbuffer = int(name)

    def do_glRenderbufferStorage(self, target, form, w, h):
        if form not in (G.GL_RGBA8, G.GL_RGBA, G.GL_RGB8, G.GL_RGB):
            self.unsupported.add('renderbuffer format')
        self.renderbuffers[self.bound_renderbuffer] = np.zeros((int(h), int(w), 4))

    def do_glRenderbufferStorageMultisample(self, target, samples, form, w, h):
        self.do_glRenderbufferStorage(target, form, w, h)

    def do_glDeleteRenderbuffers(self, n, values=None):
        for i in self.ids(n, values):
            gone = self.renderbuffers.pop(i, None)
            for name in {self.draw, self.read} - {0}:
                if gone is not None and self.framebuffers.get(name, (None, None))[1] is gone:
                    self.framebuffers[name] = (None, None)      # taken off bound framebuffers only

    def do_glGenFramebuffers(self, n, *_):
        return self.generate(self.framebuffers, lambda: (None, None), n)

    def do_glBindFramebuffer(self, target, name):
        name = int(name)
        if name:
            self.framebuffers.setdefault(name, (None, None))
        if target in (G.GL_FRAMEBUFFER, G.GL_DRAW_FRAMEBUFFER):
            self.draw = name
        if target in (G.GL_FRAMEBUFFER, G.GL_READ_FRAMEBUFFER):
            self.read = name

    def do_glFramebufferRenderbuffer(self, target, where, kind, name):
        self.framebuffers[self.draw] = ('renderbuffer', self.renderbuffers.get(int(name)))

    def do_glFramebufferTexture2D(self, target, where, kind, name, level):
        self.framebuffers[self.draw] = ('texture', int(name))

    def do_glDeleteFramebuffers(self, n, values=None):
        if values is not None and int(n) != len(self.ids(n, values)):
            values = self.ids(n, values)[:int(n)]
        for i in self.ids(n, values):
            self.framebuffers.pop(i, None)
            self.draw = 0 if self.draw == i else self.draw
            self.read = 0 if self.read == i else self.read

    def do_glCheckFramebufferStatus(self, *_):
        return G.GL_FRAMEBUFFER_COMPLETE

    def pixels(self, name):
        """The picture of a framebuffer as bytes (rows from the bottom), or None."""
        surface = self.surface(name)
        if surface is None:
            return None
        if isinstance(surface, Texture):
            return surface.data
        return np.clip(np.rint(surface * 255), 0, 255).astype(np.uint8)

    def do_glBlitFramebuffer(self, x0, y0, x1, y1, u0, v0, u1, v1, mask, how):
        source, target = self.surface(self.read), self.surface(self.draw)
        if source is None or target is None:
            self.unsupported.add('blit without a surface')
            return
        if (x1 - x0, y1 - y0) != (u1 - u0, v1 - v0) or x1 < x0 or y1 < y0:
            self.unsupported.add('stretched blit')
            return
        part = self.pixels(self.read)[y0:y1, x0:x1]
        if isinstance(target, Texture):
            if target.data is None:
                self.unsupported.add('blit to an empty texture')
                return
            data = target.data.copy()
            data[v0:v0 + part.shape[0], u0:u0 + part.shape[1]] = part[:data.shape[0] - v0, :data.shape[1] - u0]
            target.data = data
        else:
            part = part[:target.shape[0] - v0, :target.shape[1] - u0]
            target[v0:v0 + part.shape[0], u0:u0 + part.shape[1]] = part / 255.0


def install(gl):
    """Put the stand-in in the place of every OpenGL function, here and in modules already loaded."""
    import sys
    import OpenGL.GLU
    import re
    known = gl.names()

    def stand_in(name):
        function = known.get(name)

        def call(*args, **kwargs):
            gl.calls += 1
            if function is None:
                gl.unsupported.add(name)
                return 0
            return function(*args, **kwargs)
        call.__name__ = name
        return call
    table = {}
    modules = [G, OpenGL.GLU] + [m for n, m in list(sys.modules.items()) if n.startswith('factorio_sat') and m is not None]
    for module in modules:
        for name in list(vars(module)):
            if re.match(r'glu?[A-Z]', name) and callable(getattr(module, name, None)) and not isinstance(getattr(module, name), type):
                if name not in table:
                    table[name] = stand_in(name)
                setattr(module, name, table[name])
