"""
Wrinkled pictures: images of a world under a homeomorphism of the plane that
turns every edge of the arrangement into a saw.

Answers do not change (they are about point sets and the order of branches
around points only), but every shape gets many times more vertices, edges
which were straight and common become common saws, and boxes of shapes that
have touched a common line become different.
"""
from bisect import bisect
from fractions import Fraction

from model import orient
from shapes import segments_conflict


class Wrinkles:
    """
    Each edge of the arrangement gets ``teeth`` vertices which lie in turn on
    the left and on the right of it; ``slope`` limits how deep saws are,
    ``straight`` is a line of the world which is kept.
    """

    def __init__(self, world, teeth, slope=Fraction(1, 5), straight=None):
        self.world, self.teeth, self.straight = world, teeth, straight
        self.factor = (teeth + 1) * slope.denominator
        self._images = {}
        self.saws = {}
        self.chains = {}
        for cell in world.cells:
            if cell[0] == 'e':
                s, e = self._scaled(cell[2]), self._scaled(cell[3])
                self.saws[cell[2], cell[3]] = (
                    (s, e) if self._is_kept(cell[2], cell[3])
                    else self._saw(s, e, slope))
        for p, q in self.saws:
            self.chains.setdefault(p, []).append(q)
        self.points = {}
        for cell in world.cells:
            if cell[0] == 'e':
                saw = self.saws[cell[2], cell[3]]
                middle = len(saw) // 2
                self.points[cell[1]] = (
                    saw[middle] if len(saw) % 2
                    else (_middle(saw[middle - 1], saw[middle])))
            else:
                self.points[cell[1]] = self._scaled(cell[1])
        self._check()

    def _scaled(self, p):
        x, y = p[0] * self.factor, p[1] * self.factor
        return _whole(x), _whole(y)

    def _is_kept(self, p, q):
        if self.straight is None:
            return False
        a, b, c = self.straight
        return a * p[0] + b * p[1] == c == a * q[0] + b * q[1]

    def _saw(self, s, e, slope):
        dx, dy = e[0] - s[0], e[1] - s[1]
        count = self.teeth + 1
        result = [s]
        for i in range(1, count):
            height = slope * min(i, count - i) / count * (1 if i % 2 else -1)
            result.append((_whole(s[0] + Fraction(dx * i, count)
                                  - dy * height),
                           _whole(s[1] + Fraction(dy * i, count)
                                  + dx * height)))
        result.append(e)
        return tuple(result)

    def _check(self):
        """Images of edges meet at images of common vertices only."""
        pieces = sorted(tuple(sorted(pair))
                        for saw in self.saws.values()
                        for pair in zip(saw, saw[1:]))
        starts = [piece[0][0] for piece in pieces]
        for i, (p, q) in enumerate(pieces):
            for other in pieces[i + 1:bisect(starts, q[0])]:
                if (min(other[0][1], other[1][1]) <= max(p[1], q[1])
                        and min(p[1], q[1]) <= max(other[0][1], other[1][1])):
                    if not {p, q} & set(other):
                        assert not _meet(p, q, *other), (
                            self.world.name, p, q, other)
                    else:
                        assert not segments_conflict((p, q), other), (
                            self.world.name, p, q, other)
        # representatives of faces stay in the same faces
        for cell in self.world.cells:
            if cell[0] == 'f':
                for (s, e), saw in self.saws.items():
                    if len(saw) > 2:
                        side = orient(s, e, cell[1])
                        point = self.points[cell[1]]
                        along = ((point[0] - saw[0][0])
                                 * (saw[-1][0] - saw[0][0])
                                 + (point[1] - saw[0][1])
                                 * (saw[-1][1] - saw[0][1]))
                        span = ((saw[-1][0] - saw[0][0]) ** 2
                                + (saw[-1][1] - saw[0][1]) ** 2)
                        if not 0 < along < span:
                            continue
                        for p, q in zip(saw, saw[1:]):
                            at_p, at_q, at = [
                                (v[0] - saw[0][0]) * (saw[-1][0] - saw[0][0])
                                + (v[1] - saw[0][1])
                                * (saw[-1][1] - saw[0][1])
                                for v in (p, q, point)]
                            assert at_p < at_q
                            if at_p <= at <= at_q:
                                assert orient(p, q, point) == side, (
                                    self.world.name, s, e, cell[1])

    def chain(self, p, q):
        """Image of the segment."""
        try:
            return self._images[p, q]
        except KeyError:
            result = self._images[p, q] = (self._chain(p, q)
                                           if p < q
                                           else self._chain(q, p)[::-1])
            return result

    def _chain(self, p, q):
        result = []
        while p != q:
            following = [r for r in self.chains[p]
                         if orient(p, q, r) == 0 and r <= q]
            r, = following
            result += self.saws[p, r][:-1]
            p = r
        return tuple(result) + (self._scaled(q),)

    def contour(self, vertices):
        result = []
        for i in range(len(vertices)):
            result += self.chain(vertices[i - 1], vertices[i])[:-1]
        return tuple([result[i] for i in range(len(result))
                      if orient(result[i - 1], result[i],
                                result[(i + 1) % len(result)])])

    region = contour

    def point(self, p):
        image = self.points.get(p)
        return self._scaled(p) if image is None else image

    def segment(self, s):
        chain = self.chain(*s)
        assert all(orient(chain[0], chain[-1], v) == 0 for v in chain)
        return chain[0], chain[-1]

    def multisegment(self, segments):
        return tuple([piece
                      for s in segments
                      for chain in [_merged(self.chain(*s))]
                      for piece in zip(chain, chain[1:])])

    def multiregion(self, regions):
        return tuple(map(self.contour, regions))

    def polygon(self, p):
        return self.contour(p[0]), tuple(map(self.contour, p[1]))

    def multipolygon(self, polygons):
        return tuple(map(self.polygon, polygons))

    def __call__(self, kind, shape):
        return getattr(self, kind)(shape)


def _merged(chain):
    return chain[:1] + tuple([
        chain[i] for i in range(1, len(chain) - 1)
        if orient(chain[i - 1], chain[i], chain[i + 1])]) + chain[-1:]


def _meet(p, q, a, b):
    first, second = orient(p, q, a), orient(p, q, b)
    third, fourth = orient(a, b, p), orient(a, b, q)
    if not (first or second or third or fourth):
        return max(p, a) <= min(q, b)
    return first * second <= 0 and third * fourth <= 0


def _middle(p, q):
    return (_whole(Fraction(p[0] + q[0]) / 2),
            _whole(Fraction(p[1] + q[1]) / 2))


def _whole(value):
    value = Fraction(value)
    return int(value) if value.denominator == 1 else value
