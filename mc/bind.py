"""Binding of the model to the system under test (``orient.planar``)."""
import os
import sys
from collections import namedtuple

REPO = os.environ.get('ORIENT_REPO', '/repo')
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
# sources are what is checked: never trust compiled files left by others
sys.pycache_prefix = os.path.join(os.sep, 'nonexistent', 'pycache')

import ground.base as _ground  # noqa: E402
from ground.base import Location, Orientation, Relation  # noqa: E402

import orient.planar as planar  # noqa: E402

assert os.path.realpath(planar.__file__).startswith(
    os.path.realpath(REPO) + os.sep), planar.__file__

KINDS = ('point', 'segment', 'multisegment', 'contour', 'region',
         'multiregion', 'polygon', 'multipolygon')
LINEAR = frozenset(('segment', 'multisegment', 'contour'))
SHAPED = frozenset(('region', 'multiregion', 'polygon', 'multipolygon'))
PAIRS = tuple((test, goal)
              for test in KINDS for goal in KINDS
              if hasattr(planar, f'{test}_in_{goal}'))


class Point(namedtuple('Point', 'x y')):
    """Hashable, lexicographically ordered point (as the protocol wants)."""
    __slots__ = ()


class Record:
    """Plain structs: what ``ground``'s protocols ask for, nothing more."""
    __slots__ = ()

    def __eq__(self, other):
        return (self._key() == other._key()
                if type(self) is type(other)
                else NotImplemented)

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return '{}({})'.format(type(self).__name__,
                               ', '.join(repr(getattr(self, name))
                                         for name in self.__slots__))


class Segment(Record):
    __slots__ = 'start', 'end'

    def __init__(self, start, end):
        self.start, self.end = start, end

    def _key(self):
        return frozenset((self.start, self.end))


class Multisegment(Record):
    __slots__ = 'segments',

    def __init__(self, segments):
        self.segments = segments

    def _key(self):
        return frozenset(self.segments)


class Contour(Record):
    __slots__ = 'vertices',

    def __init__(self, vertices):
        self.vertices = vertices

    def _key(self):
        vertices = list(self.vertices)
        index = vertices.index(min(vertices))
        vertices = vertices[index:] + vertices[:index]
        return min(tuple(vertices), tuple(vertices[:1] + vertices[:0:-1]))


class Polygon(Record):
    __slots__ = 'border', 'holes'

    def __init__(self, border, holes):
        self.border, self.holes = border, holes

    def _key(self):
        return self.border, frozenset(self.holes)


class Multipolygon(Record):
    __slots__ = 'polygons',

    def __init__(self, polygons):
        self.polygons = polygons

    def _key(self):
        return frozenset(self.polygons)


class Box(Record):
    __slots__ = 'min_x', 'max_x', 'min_y', 'max_y'

    def __init__(self, min_x, max_x, min_y, max_y):
        self.min_x, self.max_x, self.min_y, self.max_y = (min_x, max_x, min_y,
                                                          max_y)

    def _key(self):
        return self.min_x, self.max_x, self.min_y, self.max_y


_ORIENTATIONS = {-1: Orientation.CLOCKWISE, 0: Orientation.COLLINEAR,
                 1: Orientation.COUNTERCLOCKWISE}


class FastContext(_ground.Context):
    """
    Exact context over user-defined geometry classes:
    answers of the stock exact context, memoized.
    """
    __slots__ = '_orientations', '_relations', '_intersections', '_sign'

    def __init__(self):
        super().__init__(box_cls=Box, contour_cls=Contour,
                         multipolygon_cls=Multipolygon,
                         multisegment_cls=Multisegment, point_cls=Point,
                         polygon_cls=Polygon, segment_cls=Segment)
        self.clear()

    def clear(self):
        orientations = self._orientations = {}
        self._relations = {}
        self._intersections = {}

        def orientation(vertex, first, second):
            key = vertex, first, second
            try:
                return orientations[key]
            except KeyError:
                value = ((first[0] - vertex[0]) * (second[1] - vertex[1])
                         - (first[1] - vertex[1]) * (second[0] - vertex[0]))
                result = orientations[key] = (
                    Orientation.COUNTERCLOCKWISE if value > 0
                    else Orientation.CLOCKWISE if value < 0
                    else Orientation.COLLINEAR)
                if len(orientations) > 3_000_000:
                    orientations.clear()
                return result

        self._sign = orientation

    @property
    def angle_orientation(self):
        return self._sign

    def segments_relation(self, test, goal):
        key = test.start, test.end, goal.start, goal.end
        try:
            return self._relations[key]
        except KeyError:
            result = super().segments_relation(test, goal)
            if len(self._relations) > 1_000_000:
                self._relations.clear()
            self._relations[key] = result
            return result

    def segments_intersection(self, first, second):
        key = first.start, first.end, second.start, second.end
        try:
            return self._intersections[key]
        except KeyError:
            x, y = super().segments_intersection(first, second)
            result = Point(_integral(x), _integral(y))
            if len(self._intersections) > 1_000_000:
                self._intersections.clear()
            self._intersections[key] = result
            return result


def _integral(value):
    whole = int(value)
    return whole if whole == value else value


class Builder:
    """Turns descriptions of shapes into objects of a context."""

    def __init__(self, context, coordinate=None):
        self.context = context
        self.coordinate = coordinate
        self._points = {}

    def point(self, p):
        try:
            return self._points[p]
        except KeyError:
            x, y = self.coordinate(p) if self.coordinate else p
            result = self._points[p] = self.context.point_cls(x, y)
            return result

    def segment(self, s):
        return self.context.segment_cls(self.point(s[0]), self.point(s[1]))

    def contour(self, c):
        return self.context.contour_cls([self.point(v) for v in c])

    region = contour

    def multisegment(self, m):
        return self.context.multisegment_cls([self.segment(s) for s in m])

    def multiregion(self, m):
        return [self.contour(c) for c in m]

    def polygon(self, p):
        return self.context.polygon_cls(self.contour(p[0]),
                                        [self.contour(h) for h in p[1]])

    def multipolygon(self, m):
        return self.context.multipolygon_cls([self.polygon(p) for p in m])

    def build(self, kind, shape):
        return getattr(self, kind)(shape)


def mask(world, kind, shape):
    """Model value of the shape."""
    if kind == 'point':
        return world.point_bit[shape]
    elif kind == 'polygon':
        return world.polygon(*shape)
    elif kind == 'segment':
        return world.segment(*shape)
    else:
        return getattr(world, kind)(shape)


def expected(world, test_kind, test, goal_kind, goal):
    """What the model says about masks."""
    if test_kind == 'point':
        return (world.locate(test, 0, goal) if goal_kind in LINEAR
                else world.locate(test, *goal))
    elif test_kind in LINEAR:
        return (world.relate_linear(test, goal) if goal_kind in LINEAR
                else world.relate_linear_to_shaped(test, goal))
    else:
        return world.relate_shaped(test, goal)


def actual(function, test, goal, context):
    """What the implementation says: name of the member or of the error."""
    try:
        result = function(test, goal, context=context)
    except Exception as error:
        return 'raised ' + type(error).__name__ + ': ' + str(error)[:80]
    return (result.name if isinstance(result, (Relation, Location))
            else 'returned ' + repr(result)[:80])


_stock_builder = None


def stock_builder():
    """Builder of stock geometries with default context of ``ground``."""
    global _stock_builder
    if _stock_builder is None:
        _stock_builder = Builder(_ground.get_context())
    return _stock_builder
