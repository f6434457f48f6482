"""Families of geometries which are explored exhaustively."""
from fractions import Fraction
from functools import lru_cache

import shapes
from scaling import scaled_world
from subdivision import Subdivision, fan, grid, jack, medial, nest


class Family:
    """World plus lists of all of its shapes of every kind."""

    def __init__(self, world, makers):
        self.world, self._makers, self._cache = world, makers, {}

    def __getitem__(self, kind):
        try:
            return self._cache[kind]
        except KeyError:
            result = self._cache[kind] = list(self._makers[kind]())
            return result

    def __contains__(self, kind):
        return kind in self._makers


def _points(world):
    return [(_whole(x), _whole(y)) for x, y in world.point_bit]


def _whole(value):
    return (int(value)
            if isinstance(value, Fraction) and value.denominator == 1
            else value)


@lru_cache(None)
def lattice(sites, name, max_vertices=99, multisegment_sizes=(2,),
            multi_vertices=4, multi_sizes=(2,), holes=(1,),
            hole_vertices=99, polygons_vertices=4):
    """
    Everything with corners in the sites: edges of different shapes cross
    each other anywhere.
    """
    world, factor = scaled_world(sites, name)
    contours = shapes.contours(world, max_vertices)
    small = [c for c in contours if len(c) <= multi_vertices]
    holed_base = [c for c in contours if len(c) <= hole_vertices]

    def multisegments():
        return [m for size in multisegment_sizes
                for m in shapes.multisegments(world, size)]

    def multiregions():
        return [m for size in multi_sizes
                for m in shapes.multiregions(world, small, size)]

    @lru_cache(None)
    def holed():
        return [p for count in holes
                for p in shapes.polygons(world, holed_base, count)]

    def polygons():
        return [(c, ()) for c in contours] + holed()

    def multipolygons():
        base = [(c, ()) for c in small] + [
            p for p in holed()
            if len(p[0]) <= polygons_vertices
            and all(len(h) <= polygons_vertices for h in p[1])]
        return [m for size in multi_sizes
                for m in shapes.multipolygons(world, base, size)]

    return Family(world, {
        'point': lambda: _points(world),
        'segment': lambda: shapes.segments(world),
        'multisegment': multisegments,
        'contour': lambda: contours,
        'region': lambda: contours,
        'multiregion': multiregions,
        'polygon': polygons,
        'holed': holed,
        'multipolygon': multipolygons,
    })


def square_sites(columns, rows=None):
    return tuple((x, y)
                 for x in range(columns) for y in range(rows or columns))


# square with a square hole in it: corners, plus inner corners
NESTED_SQUARES = ((0, 0), (6, 0), (6, 6), (0, 6),
                  (2, 2), (4, 2), (4, 4), (2, 4))
# the same with a vertex in the middle of the bottom side
NESTED_HOUSE = ((0, 0), (6, 0), (6, 6), (0, 6),
                (3, 0), (4, 2), (4, 4), (2, 4))
# nothing is parallel to anything
GENERAL = ((0, 0), (6, 1), (5, 6), (1, 5), (3, 3), (2, 2), (4, 2), (3, 4))


def _all_segments(subdivision):
    """Segments along edges of subdivision between any of its vertices."""
    result = set(subdivision.edges)
    following = {}
    for p, q in subdivision.edges:
        following.setdefault(p, []).append(q)
    frontier = list(result)
    while frontier:
        p, q = frontier.pop()
        for r in following.get(q, ()):
            if ((q[0] - p[0]) * (r[1] - p[1])
                    == (q[1] - p[1]) * (r[0] - p[0])
                    and (p, r) not in result):
                result.add((p, r))
                frontier.append((p, r))
    return sorted(result)


def _scaled_subdivision(subdivision, factor):
    if factor == 1:
        return subdivision
    return Subdivision([tuple((x * factor, y * factor) for x, y in face)
                        for face in subdivision.source], subdivision.name)


def _makers(world, subdivision, multisegment_sizes):
    def contours():
        return sorted({border for border, _ in subdivision.all_polygons()})

    def multisegments():
        return [m for size in multisegment_sizes
                for m in subdivision.all_multisegments(size, size)]

    return {
        'point': lambda: _points(world),
        'segment': lambda: _all_segments(subdivision),
        'multisegment': multisegments,
        'contour': contours,
        'region': subdivision.all_regions,
        'multiregion': subdivision.all_multiregions,
        'polygon': subdivision.all_polygons,
        'holed': lambda: [p for p in subdivision.all_polygons() if p[1]],
        'multipolygon': subdivision.all_multipolygons,
    }


@lru_cache(None)
def algebra(make, multisegment_sizes=(2,), points=False):
    """
    All sets of faces (edges) of the subdivision: shapes share vertices and
    edges, touch each other in the middles of edges, pinch.
    """
    subdivision = make()
    world, factor = scaled_world(tuple(subdivision.vertices),
                                 subdivision.name,
                                 tuple(subdivision.segments()))
    subdivision = _scaled_subdivision(subdivision, factor)
    return Family(world, _makers(world, subdivision, multisegment_sizes))


@lru_cache(None)
def algebras(make_first, make_second, multisegment_sizes=(2,)):
    """Pair of families from different subdivisions of the same world."""
    first, second = make_first(), make_second()
    world, factor = scaled_world(
        tuple(set(first.vertices) | set(second.vertices)),
        f'{first.name} x {second.name}',
        tuple(first.segments()) + tuple(second.segments()))
    return tuple(
        Family(world, _makers(world, _scaled_subdivision(item, factor),
                              multisegment_sizes))
        for item in (first, second))


def star(directions, name):
    """All sets of segments from the common vertex."""
    world, factor = scaled_world(
        ((0, 0),) + directions, name,
        tuple(((0, 0), d) for d in directions))
    spokes = [tuple(sorted(((0, 0), (x * factor, y * factor))))
              for x, y in directions]
    return world, spokes


COMPASS = ((2, 0), (2, 2), (0, 2), (-2, 2), (-2, 0), (-2, -2), (0, -2),
           (2, -2))
KNIGHT = ((2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1), (-1, -2), (1, -2),
          (2, -1))


def subsets(items, min_size, max_size):
    from itertools import combinations
    return [subset for size in range(min_size, max_size + 1)
            for subset in combinations(items, size)]


# subdivisions


def square4():
    """Square cut in four triangles by its diagonals."""
    return fan((1, 1), [(0, 0), (2, 0), (2, 2), (0, 2)], 'square4')


def ladder():
    """Two squares, each one cut by a diagonal (in different directions)."""
    return Subdivision([((0, 0), (2, 0), (2, 2)), ((0, 0), (2, 2), (0, 2)),
                        ((2, 0), (4, 0), (2, 2)), ((4, 0), (4, 2), (2, 2))],
                       'ladder')


def grid22():
    return grid(2, 2)


def grid33():
    return grid(3, 3)


def grid42():
    return grid(4, 2)


def grid24():
    return grid(2, 4)


def jack2():
    return jack()


def nest3():
    return nest()


def nest2():
    return nest(6, 2)


def medial2():
    return medial(2)


def medial3():
    return medial(3)


def jack_far():
    """Crosses everything of the 3 x 3 grid properly."""
    return jack(4, (-1, 1), 'jack4')


def grid22_shifted():
    return grid(2, 2, 2, (1, 1), 'shifted')


def jack4():
    return jack(4, name='jack4')


def brick():
    """Bricks: every corner lies in the middle of the neighbour's side."""
    return Subdivision([((0, 0), (2, 0), (2, 1), (0, 1)),
                        ((2, 0), (4, 0), (4, 1), (2, 1)),
                        ((0, 1), (1, 1), (1, 2), (0, 2)),
                        ((1, 1), (3, 1), (3, 2), (1, 2)),
                        ((3, 1), (4, 1), (4, 2), (3, 2)),
                        ((0, 2), (2, 2), (2, 3), (0, 3)),
                        ((2, 2), (4, 2), (4, 3), (2, 3))], 'brick')


def disjoint_parts(world, multipolygon):
    """Do parts have nothing in common but single points?"""
    inner = boundary = 0
    for polygon in multipolygon:
        i, b = world.polygon(*polygon)
        if (i & (inner | boundary) or b & inner
                or b & boundary & world.edges_mask):
            return False
        inner, boundary = inner | i, boundary | b
    return True


@lru_cache(None)
def archipelago(origins=((0, 0), (7, 3), (1, 9)), name='archipelago'):
    """
    Several islands of three nested squares,
    every one of islands is in one of eight states: strictly nested,
    separated and touching from inside things that do not fit in small worlds.
    """
    def square(origin, level):
        x, y = origin[0] + level, origin[1] + level
        size = 6 - 2 * level
        return (x, y), (x + size, y), (x + size, y + size), (x, y + size)

    islands = [[square(origin, level) for level in range(3)]
               for origin in origins]
    ox, oy = origins[0]
    middle = [(x, oy + 3) for x in (ox - 1, ox, ox + 1, ox + 2, ox + 4,
                                    ox + 5, ox + 6, ox + 7)]
    from scaling import scaled_world
    world, factor = scaled_world(
        tuple(v for island in islands for s in island for v in s)
        + tuple(middle),
        name,
        tuple((s[i - 1], s[i])
              for island in islands for s in island for i in range(4))
        + ((middle[0], middle[-1]),))
    islands = [[tuple((x * factor, y * factor) for x, y in s)
                for s in island] for island in islands]
    middle = [(x * factor, y * factor) for x, y in middle]
    options = []
    for big, medium, small in islands:
        options.append([(), ((small, ()),), ((medium, ()),), ((big, ()),),
                        ((big, (medium,)),), ((big, (small,)),),
                        ((medium, (small,)),),
                        ((big, (medium,)), (small, ()))])
    multipolygons = [()]
    for choices in options:
        multipolygons = [head + tail
                         for head in multipolygons for tail in choices]
    multipolygons = [m for m in multipolygons if len(m) > 1]
    for m in multipolygons:
        assert disjoint_parts(world, m), m
    contours = [s for island in islands for s in island]
    from itertools import combinations
    along = list(combinations(middle, 2))
    across = [(s[0], s[3]) for s in islands[0]]
    sides = [(s[i - 1], s[i]) for island in islands for s in island[1:]
             for i in (1, 2)]
    lines = along + sides
    segments_ = [tuple(sorted(s)) for s in lines + across]

    def multisegments():
        return [pair for pair in combinations(segments_, 2)
                if not shapes.segments_conflict(*pair)]

    polygons = sorted({p for choices in options for choice in choices
                       for p in choice}
                      | {(s, ()) for s in contours})
    return Family(world, {
        'point': lambda: _points(world),
        'segment': lambda: segments_,
        'multisegment': multisegments,
        'contour': lambda: contours,
        'region': lambda: contours,
        'multiregion': lambda: [tuple(border for border, _ in m)
                                for m in multipolygons
                                if not any(holes for _, holes in m)],
        'polygon': lambda: polygons,
        'holed': lambda: [p for p in polygons if p[1]],
        'multipolygon': lambda: multipolygons,
    })


def pair_of_islands():
    return archipelago(((0, 0), (7, 3)), 'archipelago2')


@lru_cache(None)
def colander(slots_count=3, name='colander'):
    """
    Plates which share borders, are nested or cut each other,
    with holes of different form in the same slots:
    polygons with several holes, some of which are matched, filled, cut
    or missed by the other geometry.
    """
    from itertools import combinations, product
    width = 4 * slots_count + 2

    def box(left, bottom, right, top):
        return ((left, bottom), (right, bottom), (right, top), (left, top))

    plates = [box(0, 0, width, 7), box(-1, -1, width + 1, 8),
              box(0, 1, width - 1, 6), box(1, 1, width - 1, 6),
              # ends in the last slot, ends by the last slot
              box(0, 0, width - 4, 7), box(1, 1, width - 5, 6),
              # ends between slots
              box(-1, 1, width - 6 if slots_count > 2 else width, 9)]
    slots = [{'full': box(x, 2, x + 3, 5),
              'small': box(x + 1, 3, x + 2, 4),
              'half': ((x, 2), (x + 3, 2), (x, 5)),
              'other': ((x + 3, 2), (x + 3, 5), (x, 5)),
              # touches the corner and the side of the full one
              'tip': ((x, 2), (x + 3, 3), (x + 1, 4))}
             for x in range(2, 4 * slots_count, 4)]
    island = box(width + 2, 2, width + 4, 4)
    # touches the first plate from outside
    pin = ((width, 3), (width + 3, 5), (width + 2, 7))
    lines = [((-1, y), (width + 4, y)) for y in (2, 3, 4)]
    outlines = plates + [c for slot in slots for c in slot.values()] + [island,
                                                                    pin]
    crossed = sorted({x for c in outlines for x, _ in c})
    world, factor = scaled_world(
        tuple({v for c in outlines for v in c}
              | {(x, y) for x in crossed for y in (2, 3, 4)}),
        name,
        tuple((c[i - 1], c[i]) for c in outlines for i in range(len(c)))
        + tuple(lines))

    def scaled(c):
        return tuple((x * factor, y * factor) for x, y in c)

    plates = list(map(scaled, plates))
    slots = [{key: scaled(c) for key, c in slot.items()} for slot in slots]
    island, pin = scaled(island), scaled(pin)

    def fits(border, hole):
        inner, boundary = world.region(border)
        hole_inner, hole_boundary = world.region(hole)
        return not (hole_inner & ~inner
                    or hole_boundary & ~(inner | boundary)
                    or hole_boundary & boundary & world.edges_mask)

    polygons = []
    for plate in plates:
        for states in product((None, 'full', 'small', 'half'),
                              repeat=slots_count):
            holes = tuple(slot[state]
                          for slot, state in zip(slots, states) if state)
            if all(fits(plate, hole) for hole in holes):
                polygons.append((plate, holes))
    regions_ = plates + [c for slot in slots for c in slot.values()]
    multiregions = []
    for states in product((None, 'full', 'small', 'half', 'other'),
                          repeat=slots_count):
        parts = tuple(slot[state]
                      for slot, state in zip(slots, states) if state)
        for extra in ((), (island,)):
            if len(parts + extra) > 1:
                multiregions.append(parts + extra)
    multiregions += [m for plate in plates
                     for m in ((plate, island), (plate, pin),
                               (plate, pin, island))
                     if disjoint_parts(world, [(c, ()) for c in m])]
    multiregions.append((slots[0]['full'], pin))
    multiregions = sorted(set(multiregions))
    multipolygons = [((plate, (hole,)), (pin, ()))
                     for plate in (plates[0], plates[3])
                     for hole in slots[0].values()]
    for plate in plates[:1] + plates[3:6]:
        for states in product((None, 'full', 'half', 'core', 'tip'),
                              repeat=slots_count):
            holes, cores = [], []
            for slot, state in zip(slots, states):
                if state == 'core':
                    holes.append(slot['full'])
                    cores.append((slot['small'], ()))
                elif state == 'tip':
                    holes.append(slot['full'])
                    cores.append((slot['tip'], ()))
                elif state:
                    holes.append(slot[state])
            if not all(fits(plate, hole) for hole in holes):
                continue
            parts = ((plate, tuple(holes)),) + tuple(cores)
            for extra in ((), ((island, ()),)):
                if len(parts + extra) > 1:
                    multipolygons.append(parts + extra)
    multipolygons += [tuple((c, ()) for c in m) for m in multiregions]
    for m in multipolygons:
        assert disjoint_parts(world, m), m
    for m in multiregions:
        assert disjoint_parts(world, [(c, ()) for c in m]), m
    xs = [x * factor for x in crossed]
    segments_ = [((a, y * factor), (b, y * factor))
                 for y in (2, 3, 4) for a, b in combinations(xs, 2)]

    def multisegments():
        ends = sorted({slot['full'][index][0]
                       for slot in slots for index in (0, 1)}
                      | {plates[0][1][0]})
        base = [((a, y * factor), (b, y * factor))
                for y in (2, 3) for a, b in combinations(ends, 2)]
        upright = [((x, 2 * factor), (x, 3 * factor)) for x in ends]
        return [pair for pair in combinations(base + upright, 2)
                if not shapes.segments_conflict(*pair)]

    return Family(world, {
        'point': lambda: _points(world),
        'segment': lambda: segments_,
        'multisegment': multisegments,
        'contour': lambda: regions_,
        'region': lambda: regions_,
        'multiregion': lambda: multiregions,
        'polygon': lambda: polygons,
        'holed': lambda: [p for p in polygons if p[1]],
        'multipolygon': lambda: multipolygons,
    })


def colander2():
    return colander(2, 'colander2')


@lru_cache(None)
def sieve(columns=5, rows=4, name='sieve'):
    """
    Big plates of grid cells with any subset of inner cells taken away
    (holes and notches in any number and arrangement, some of them touch
    each other), and these subsets themselves.
    """
    from itertools import product
    subdivision = grid(columns, rows)
    world, factor = scaled_world(tuple(subdivision.vertices), name,
                                 tuple(subdivision.segments()))
    assert factor == 1

    def cells(xs, ys):
        return sum(1 << (y * columns + x) for x in xs for y in ys)

    inner = [1 << (y * columns + x)
             for x in range(1, columns - 1) for y in range(1, rows - 1)]
    plates = [cells(range(columns), range(rows)),
              cells(range(columns - 1), range(rows)),
              cells(range(1, columns), range(rows)),
              cells(range(columns), range(rows - 1)),
              cells(range(columns - 2), range(rows)),
              cells(range(columns), range(rows)) & ~1]
    chosen = []
    for states in product((0, 1), repeat=len(inner)):
        holes = sum(cell for cell, state in zip(inner, states) if state)
        chosen += [plate & ~holes for plate in plates] + [holes]
    shapes_ = [subdivision.multipolygon(subset)
               for subset in sorted(set(chosen)) if subset]
    polygons = [s[0] for s in shapes_ if len(s) == 1]
    multipolygons = [s for s in shapes_ if len(s) > 1]
    regions_ = [border for border, holes in polygons if not holes]
    return Family(world, {
        'point': lambda: _points(world),
        'segment': lambda: _all_segments(subdivision),
        'multisegment': lambda: list(subdivision.all_multisegments(2, 2)),
        'contour': lambda: regions_,
        'region': lambda: regions_,
        'multiregion': lambda: [tuple(border for border, _ in s)
                                for s in multipolygons
                                if not any(holes for _, holes in s)],
        'polygon': lambda: polygons,
        'holed': lambda: [p for p in polygons if p[1]],
        'multipolygon': lambda: multipolygons,
    })


def sieve55():
    return sieve(5, 5, 'sieve5x5')
