"""Exact point-set model of planar geometry over a finite set of sites.

A :class:`World` takes a finite set of points with integer coordinates
(*sites*), draws every line through two of them and cuts the plane into the
cells of that arrangement: vertices, open edges and open faces.  Any geometry
whose corners are sites is a union of cells, so it *is* a set of cells, kept as
an ``int`` bit mask; every question about location or relation becomes a bit
operation.  No code of the system under test (or of the libraries it uses) is
involved.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import combinations

# names of ``ground.base.Location`` / ``ground.base.Relation`` members
EXTERIOR, BOUNDARY, INTERIOR = 'EXTERIOR', 'BOUNDARY', 'INTERIOR'
(DISJOINT, TOUCH, CROSS, OVERLAP, COVER, ENCLOSES, COMPOSITE, EQUAL, COMPONENT,
 ENCLOSED, WITHIN) = ('DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER',
                      'ENCLOSES', 'COMPOSITE', 'EQUAL', 'COMPONENT',
                      'ENCLOSED', 'WITHIN')
COMPLEMENT = {COVER: WITHIN, WITHIN: COVER, ENCLOSES: ENCLOSED,
              ENCLOSED: ENCLOSES, COMPOSITE: COMPONENT, COMPONENT: COMPOSITE}


def complement(relation):
    return COMPLEMENT.get(relation, relation)


def orient(p, q, r):
    value = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return (value > 0) - (value < 0)


def on_segment(p, q, r):
    """Is ``r`` on closed segment ``pq``?"""
    return (orient(p, q, r) == 0
            and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
            and min(p[1], q[1]) <= r[1] <= max(p[1], q[1]))


def _half(dx, dy):
    return 0 if (dy > 0 or dy == 0 and dx > 0) else 1


class World:
    """
    Sites plus the cells of the arrangement of all lines through them
    (or of lines through given segments only).
    """

    def __init__(self, sites, name=None, segments=None):
        self.sites = tuple(sorted(set(sites)))
        self.name = name or repr(self.sites)
        self._spans = (list(combinations(self.sites, 2))
                       if segments is None
                       else list(segments))
        self._build()
        self._segment_cache = {}
        self._below_cache = {}
        self._order_cache = {}

    def _build(self):
        lines = {}
        for p, q in self._spans:
            a, b = q[1] - p[1], p[0] - q[0]
            c = a * p[0] + b * p[1]
            g = _gcd3(a, b, c)
            a, b, c = a // g, b // g, c // g
            if a < 0 or a == 0 and b < 0:
                a, b, c = -a, -b, -c
            lines[a, b, c] = (p, q)
        self.lines = lines = sorted(lines)
        xs = [p[0] for p in self.sites]
        ys = [p[1] for p in self.sites]
        box = min(xs), max(xs), min(ys), max(ys)
        vertices = {(Fraction(x), Fraction(y)) for x, y in self.sites}
        line_vertices = {(a, b, c): {(x, y)
                                     for x, y in vertices if a * x + b * y == c}
                         for a, b, c in lines}
        for first, second in combinations(lines, 2):
            a1, b1, c1 = first
            a2, b2, c2 = second
            det = a1 * b2 - a2 * b1
            if not det:
                continue
            nx, ny = c1 * b2 - c2 * b1, a1 * c2 - a2 * c1
            if det < 0:
                det, nx, ny = -det, -nx, -ny
            # nothing of interest lies outside of the sites' box
            if not (box[0] * det <= nx <= box[1] * det
                    and box[2] * det <= ny <= box[3] * det):
                continue
            v = (Fraction(nx, det), Fraction(ny, det))
            vertices.add(v)
            line_vertices[first].add(v)
            line_vertices[second].add(v)
        self.vertices = sorted(vertices)
        cells = [('v', v) for v in self.vertices]
        for line in lines:
            chain = sorted(line_vertices[line])
            for s, e in zip(chain, chain[1:]):
                cells.append(('e', ((s[0] + e[0]) / 2, (s[1] + e[1]) / 2),
                              s, e))
        # faces: sample every slab between neighbour abscissas,
        # keep one sample for every combination of sides
        seen = set()
        abscissas = sorted({v[0] for v in self.vertices})
        for left, right in zip(abscissas, abscissas[1:]):
            x = Fraction(left + right) / 2
            ordinates = sorted({Fraction(c - a * x) / b
                                for a, b, c in lines if b})
            ordinates = [y for y in ordinates if box[2] <= y <= box[3]]
            for low, high in zip(ordinates, ordinates[1:]):
                y = (low + high) / 2
                key = tuple(a * x + b * y > c for a, b, c in lines)
                if key not in seen:
                    seen.add(key)
                    cells.append(('f', (x, y)))
        self.cells = cells
        self.vertex_bit = {cell[1]: 1 << i for i, cell in enumerate(cells)
                           if cell[0] == 'v'}
        # representatives of all cells, plus some points out of the sites' box
        self.point_bit = {cell[1]: 1 << i for i, cell in enumerate(cells)}
        dx, dy = box[1] - box[0], box[3] - box[2]
        for x, y in self.sites:
            for point in ((box[0] - dx, y), (box[1] + dx, y),
                          (x, box[2] - dy), (x, box[3] + dy)):
                self.point_bit[point] = 0
        self.vertices_mask = sum(1 << i for i, cell in enumerate(cells)
                                 if cell[0] == 'v')
        self.edges_mask = sum(1 << i for i, cell in enumerate(cells)
                              if cell[0] == 'e')
        # edges around every vertex in counterclockwise order
        around = {v: [] for v in self.vertices}
        for i, cell in enumerate(cells):
            if cell[0] == 'e':
                _, _, s, e = cell
                around[s].append((e[0] - s[0], e[1] - s[1], 1 << i))
                around[e].append((s[0] - e[0], s[1] - e[1], 1 << i))
        self.around = {}
        from functools import cmp_to_key

        def compare(first, second):
            fh, sh = _half(first[0], first[1]), _half(second[0], second[1])
            if fh != sh:
                return fh - sh
            cross = first[0] * second[1] - first[1] * second[0]
            return -1 if cross > 0 else (1 if cross < 0 else 0)

        for v, items in around.items():
            items.sort(key=cmp_to_key(compare))
            self.around[self.vertex_bit[v]] = [item[2] for item in items]

    def edge_faces(self):
        """Pair of faces on the sides of every edge (inside of the box)."""
        try:
            return self._edge_faces
        except AttributeError:
            pass
        signs = {}
        for i, cell in enumerate(self.cells):
            if cell[0] == 'f':
                signs[self._signs(cell[1])] = 1 << i
        result = {}
        for i, cell in enumerate(self.cells):
            if cell[0] == 'e':
                own = self._signs(cell[1])
                index = own.index(0)
                pair = [signs.get(own[:index] + (sign,) + own[index + 1:])
                        for sign in (-1, 1)]
                if None not in pair:
                    result[1 << i] = pair
        self._edge_faces = result
        return result

    def _signs(self, point):
        x, y = point
        return tuple((a * x + b * y > c) - (a * x + b * y < c)
                     for a, b, c in self.lines)

    # masks

    def segment(self, p, q):
        """Cells of the closed segment."""
        if q < p:
            p, q = q, p
        try:
            return self._segment_cache[p, q]
        except KeyError:
            mask = 0
            for i, cell in enumerate(self.cells):
                if cell[0] != 'f' and on_segment(p, q, cell[1]):
                    mask |= 1 << i
            self._segment_cache[p, q] = mask
            return mask

    def below(self, p, q):
        """Cells strictly below the edge (half-open range of abscissas)."""
        if q < p:
            p, q = q, p
        try:
            return self._below_cache[p, q]
        except KeyError:
            mask = 0
            for i, cell in enumerate(self.cells):
                c = cell[1]
                if p[0] <= c[0] < q[0] and orient(p, q, c) < 0:
                    mask |= 1 << i
            self._below_cache[p, q] = mask
            return mask

    def contour(self, vertices):
        mask = 0
        for index in range(len(vertices)):
            mask |= self.segment(vertices[index - 1], vertices[index])
        return mask

    def region(self, vertices):
        """(interior, boundary) cells."""
        inner = 0
        for index in range(len(vertices)):
            inner ^= self.below(vertices[index - 1], vertices[index])
        boundary = self.contour(vertices)
        return inner & ~boundary, boundary

    def multisegment(self, segments):
        mask = 0
        for p, q in segments:
            mask |= self.segment(p, q)
        return mask

    def multiregion(self, regions):
        inner = boundary = 0
        for vertices in regions:
            i, b = self.region(vertices)
            inner |= i
            boundary |= b
        return inner, boundary

    def polygon(self, border, holes):
        inner, boundary = self.region(border)
        for hole in holes:
            i, b = self.region(hole)
            inner &= ~(i | b)
            boundary |= b
        return inner, boundary

    def multipolygon(self, polygons):
        inner = boundary = 0
        for border, holes in polygons:
            i, b = self.polygon(border, holes)
            inner |= i
            boundary |= b
        return inner, boundary

    # answers

    def locate(self, bit, inner, boundary):
        return (INTERIOR if bit & inner
                else BOUNDARY if bit & boundary
                else EXTERIOR)

    def relate_linear(self, test, goal):
        """Relation of linear ``test`` to linear ``goal``."""
        common = test & goal
        if test == goal:
            return EQUAL
        elif common == test:
            return COMPONENT
        elif common == goal:
            return COMPOSITE
        elif common & self.edges_mask:
            return OVERLAP
        elif not common:
            return DISJOINT
        while common:
            bit = common & -common
            common ^= bit
            labels = [0 if edge & test else 1
                      for edge in self.around[bit]
                      if edge & (test | goal)]
            if sum(labels[i - 1] != labels[i]
                   for i in range(len(labels))) > 2:
                return CROSS
        return TOUCH

    @staticmethod
    def relate_linear_to_shaped(test, goal):
        inner, boundary = goal
        if not test & ~inner:
            return WITHIN
        elif not test & ~boundary:
            return COMPONENT
        elif not test & ~(inner | boundary):
            return ENCLOSED
        elif test & inner:
            return CROSS
        elif test & boundary:
            return TOUCH
        else:
            return DISJOINT

    @staticmethod
    def relate_shaped(test, goal):
        test_inner, test_boundary = test
        goal_inner, goal_boundary = goal
        if test == goal:
            return EQUAL
        test_closure = test_inner | test_boundary
        goal_closure = goal_inner | goal_boundary
        if not test_closure & ~goal_closure:
            return (WITHIN if not test_closure & goal_boundary
                    else COMPONENT if (not test_boundary & ~goal_boundary
                                       and not test_inner & ~goal_inner)
                    else ENCLOSED)
        elif not goal_closure & ~test_closure:
            return (COVER if not goal_closure & test_boundary
                    else COMPOSITE if (not goal_boundary & ~test_boundary
                                       and not goal_inner & ~test_inner)
                    else ENCLOSES)
        elif test_inner & goal_inner:
            return OVERLAP
        elif test_closure & goal_closure:
            return TOUCH
        else:
            return DISJOINT


def _gcd3(a, b, c):
    from math import gcd
    return gcd(gcd(a, b), c)
