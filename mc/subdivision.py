"""
Boolean algebras of geometries: every set of faces (edges) of a planar
subdivision is turned into the geometry which covers exactly these faces
(edges).
"""
from functools import cmp_to_key
from itertools import combinations

from model import _half, on_segment, orient


class Subdivision:
    def __init__(self, faces, name):
        """``faces``: convex or not simple polygons which tile something."""
        self.name, self.source = name, tuple(faces)
        vertices = sorted({v for face in faces for v in face})
        self.vertices = vertices
        self.faces = []
        sides = {}
        for index, face in enumerate(faces):
            if _double_area(face) < 0:
                face = face[::-1]
            full = []
            for i in range(len(face)):
                p, q = face[i - 1], face[i]
                chain = sorted((v for v in vertices if on_segment(p, q, v)),
                               key=lambda v: (abs(v[0] - p[0])
                                              + abs(v[1] - p[1])))
                full.extend(zip(chain, chain[1:]))
            for p, q in full:
                assert (p, q) not in sides, (name, p, q)
                sides[p, q] = index
            self.faces.append(full)
        self.sides = sides
        # atomic edges
        self.edges = sorted({tuple(sorted(edge)) for edge in sides})
        self.neighbours = [0] * len(faces)
        for (p, q), index in sides.items():
            other = sides.get((q, p))
            if other is not None:
                self.neighbours[index] |= 1 << other

    def segments(self):
        return self.edges

    def components(self, subset):
        result = []
        while subset:
            component = frontier = subset & -subset
            while frontier:
                low = frontier & -frontier
                frontier ^= low
                fresh = (self.neighbours[low.bit_length() - 1]
                         & subset & ~component)
                component |= fresh
                frontier |= fresh
            result.append(component)
            subset &= ~component
        return result

    def polygon(self, component):
        """Polygon that covers exactly faces of edge-connected component."""
        outgoing = {}
        remaining = set()
        index = 0
        bits = component
        while bits:
            if bits & 1:
                for p, q in self.faces[index]:
                    other = self.sides.get((q, p))
                    if other is None or not component >> other & 1:
                        outgoing.setdefault(p, []).append(q)
                        remaining.add((p, q))
            bits >>= 1
            index += 1
        border, holes = None, []
        while remaining:
            start = min(remaining)
            loop = []
            edge = start
            while True:
                remaining.remove(edge)
                loop.append(edge[0])
                u, v = edge
                candidates = outgoing[v]
                edge = v, (candidates[0] if len(candidates) == 1
                           else _first_counterclockwise(v, u, candidates))
                if edge == start:
                    break
            assert len(set(loop)) == len(loop), (self.name, component, loop)
            loop = normalize(loop)
            if _double_area(loop) > 0:
                assert border is None, (self.name, component)
                border = tuple(loop)
            else:
                loop = loop[::-1]
                holes.append(tuple(loop))
        return border, tuple(sorted(holes))

    def multipolygon(self, subset):
        return tuple(self.polygon(component)
                     for component in self.components(subset))

    def all_multipolygons(self, min_size=2):
        return [shape for shape in map(self.multipolygon,
                                       range(1, 1 << len(self.faces)))
                if len(shape) >= min_size]

    def all_polygons(self):
        return [shape[0] for shape in map(self.multipolygon,
                                          range(1, 1 << len(self.faces)))
                if len(shape) == 1]

    def all_regions(self):
        return [border for border, holes in self.all_polygons() if not holes]

    def all_multiregions(self, min_size=2):
        return [tuple(border for border, _ in shape)
                for shape in self.all_multipolygons(min_size)
                if not any(holes for _, holes in shape)]

    def all_multisegments(self, min_size=2, max_size=None):
        edges = self.edges
        for size in range(min_size, (max_size or len(edges)) + 1):
            yield from combinations(edges, size)


def _double_area(loop):
    return sum(loop[i - 1][0] * loop[i][1] - loop[i][0] * loop[i - 1][1]
               for i in range(len(loop)))


def normalize(loop):
    """Drops redundant vertices, starts from the lowest one."""
    loop = [loop[i] for i in range(len(loop))
            if orient(loop[i - 1], loop[i], loop[(i + 1) % len(loop)])]
    index = loop.index(min(loop))
    return loop[index:] + loop[:index]


def _first_counterclockwise(vertex, base, candidates):
    """First of rays met while rotating ``base`` one counterclockwise."""
    bx, by = base[0] - vertex[0], base[1] - vertex[1]

    def local(p):
        dx, dy = p[0] - vertex[0], p[1] - vertex[1]
        return dx * bx + dy * by, bx * dy - by * dx

    def compare(first, second):
        fx, fy = local(first)
        sx, sy = local(second)
        fh, sh = _half(fx, fy), _half(sx, sy)
        if fh != sh:
            return fh - sh
        cross = fx * sy - fy * sx
        return -1 if cross > 0 else (1 if cross < 0 else 0)

    return min(candidates, key=cmp_to_key(compare))


def grid(columns, rows, size=1, origin=(0, 0), name=None):
    ox, oy = origin
    return Subdivision([((ox + x * size, oy + y * size),
                         (ox + (x + 1) * size, oy + y * size),
                         (ox + (x + 1) * size, oy + (y + 1) * size),
                         (ox + x * size, oy + (y + 1) * size))
                        for y in range(rows) for x in range(columns)],
                       name or f'grid{columns}x{rows}')


def fan(center, ring, name):
    """Triangles between the center and sides of the ring."""
    return Subdivision([(center, ring[i - 1], ring[i])
                        for i in range(len(ring))], name)


def jack(size=2, origin=(0, 0), name='jack'):
    """Eight triangles around the center of a square."""
    x, y = origin
    half, s = size // 2, size
    ring = [(0, 0), (half, 0), (s, 0), (s, half), (s, s), (half, s), (0, s),
            (0, half)]
    return fan((x + half, y + half), [(x + a, y + b) for a, b in ring], name)


def nest(size=8, rings=3, origin=(0, 0), name=None, shift=1):
    """Nested squares, rings are cut in halves in alternating directions."""
    x, y = origin
    faces = []
    low, high = 0, size
    middle = size // 2
    for ring in range(rings):
        il, ih = low + shift, high - shift
        if ring % 2:
            halves = [
                [(low, low), (middle, low), (middle, il), (il, il), (il, ih),
                 (middle, ih), (middle, high), (low, high)],
                [(middle, low), (high, low), (high, high), (middle, high),
                 (middle, ih), (ih, ih), (ih, il), (middle, il)],
            ]
        else:
            halves = [
                [(low, low), (high, low), (high, middle), (ih, middle),
                 (ih, il), (il, il), (il, middle), (low, middle)],
                [(low, middle), (il, middle), (il, ih), (ih, ih),
                 (ih, middle), (high, middle), (high, high), (low, high)],
            ]
        faces.extend(halves)
        low, high = il, ih
    faces.append([(low, low), (high, low), (high, high), (low, high)])
    return Subdivision([tuple((x + a, y + b) for a, b in face)
                        for face in faces], name or f'nest{rings}')


def medial(depth=2, size=8, name=None):
    """Triangle, inscribed upside down triangle and so on."""
    faces = []
    triangle = ((0, 0), (size, 0), (0, size))

    def middle(p, q):
        return (p[0] + q[0]) // 2, (p[1] + q[1]) // 2

    for _ in range(depth):
        a, b, c = triangle
        ab, bc, ca = middle(a, b), middle(b, c), middle(c, a)
        faces += [(a, ab, ca), (b, bc, ab), (c, ca, bc)]
        triangle = ab, bc, ca
    faces.append(triangle)
    return Subdivision(faces, name or f'medial{depth}')
