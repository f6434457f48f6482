"""
Properties "the answer is exactly what the point sets say":
which functions over which families each of them explores.
"""
from fractions import Fraction
from functools import lru_cache

from engine import Block
from families import (COMPASS, GENERAL, KNIGHT, NESTED_HOUSE, NESTED_SQUARES,
                      algebra, algebras, archipelago, brick, colander,
                      colander2, grid22, grid22_shifted, grid24, grid33, grid42, jack2, jack4, jack_far, ladder,
                      lattice, medial2, medial3, nest3, pair_of_islands,
                      sieve, sieve55, square4, square_sites, star, subsets)
from wrinkles import Wrinkles

SHAPED = 'region', 'multiregion', 'polygon', 'multipolygon'


def _pair(first, second, test_kind, goal_kind, label=None):
    tests, goals = first[test_kind], second[goal_kind]
    if tests and goals:
        yield Block(first.world, test_kind, tests, goal_kind, goals, label)


def _square(family, test_kind, goal_kind):
    return _pair(family, family, test_kind, goal_kind)


def _crossing(make_first, make_second, test_kind, goal_kind, sizes=(2,)):
    first, second = algebras(make_first, make_second, sizes)
    yield from _pair(first, second, test_kind, goal_kind)
    yield from _pair(second, first, test_kind, goal_kind)


_wrinkles = lru_cache(None)(Wrinkles)


def _wrinkled(first, second, test_kind, goal_kind, teeth, slope=5):
    """Images of pairs under homeomorphisms: lots of vertices."""
    world = first.world
    tests, goals = first[test_kind], second[goal_kind]
    if not tests or not goals:
        return
    slope = Fraction(1, slope)
    label = f'{world.name}, wrinkled {teeth}'
    if test_kind != 'segment':
        yield Block(world, test_kind, tests, goal_kind, goals, label,
                    present=_wrinkles(world, teeth, slope))
        return
    # segments have to be straight
    for line in world.lines:
        a, b, c = line
        along = [s for s in tests
                 if all(a * x + b * y == c for x, y in s)]
        if along:
            yield Block(world, test_kind, along, goal_kind, goals,
                        f'{label} but {a}x+{b}y={c}',
                        present=_wrinkles(world, teeth, slope, line))


def _wrinkled_all(test_kind, goal_kind, thorough, size=1):
    """``size`` limits what is affordable for quick checks."""
    both_multi = (test_kind.startswith('multi')
                  and goal_kind.startswith('multi'))

    def square(family, *args):
        return _wrinkled(family, family, test_kind, goal_kind, *args)

    yield from square(algebra(medial2), 3)
    if not both_multi or thorough:
        yield from square(algebra(jack2), 2)
    if not both_multi and test_kind != 'segment' or thorough:
        first, second = algebras(jack4, grid22_shifted)
        yield from _wrinkled(first, second, test_kind, goal_kind, 1)
        yield from _wrinkled(second, first, test_kind, goal_kind, 1)
    if not both_multi and size or thorough:
        yield from square(algebra(brick), 1)
    if goal_kind.endswith('polygon') and size or thorough:
        yield from square(algebra(nest3), 1)
    if thorough:
        yield from square(algebra(medial2), 8)
        yield from square(squares(4, hole_vertices=4, multi_vertices=3,
                                  polygons_vertices=3), 2, 10)
        yield from square(grid3(max_vertices=3, multi_vertices=3), 3, 10)
        yield from square(algebra(nest3), 4)
        yield from square(colander2(), 1, 20)
        if not both_multi:
            yield from square(algebra(grid24), 2)


def grid3(thorough=False, **kwargs):
    return lattice(square_sites(3), 'lattice3x3', **kwargs)


def grid43(max_vertices, **kwargs):
    return lattice(square_sites(4, 3), f'lattice4x3-{max_vertices}',
                   max_vertices, **kwargs)


def squares(max_vertices, **kwargs):
    return lattice(NESTED_SQUARES, f'squares-{max_vertices}', max_vertices,
                   **kwargs)


def house(max_vertices, **kwargs):
    return lattice(NESTED_HOUSE, f'house-{max_vertices}', max_vertices,
                   **kwargs)


def general(max_vertices, **kwargs):
    return lattice(GENERAL, f'general-{max_vertices}', max_vertices, **kwargs)


# point location


def points_in_linear(thorough):
    for kind in ('segment', 'multisegment', 'contour'):
        yield from _square(grid3(), 'point', kind)
        yield from _square(squares(8), 'point', kind)
        yield from _square(general(8), 'point', kind)
        yield from _square(algebra(medial3, (2, 3)), 'point', kind)
        if thorough:
            yield from _square(grid43(12), 'point', kind)
    yield from _square(grid3(multisegment_sizes=(3,)), 'point',
                       'multisegment')
    for kind in ('multisegment', 'contour'):
        yield from _wrinkled_all('point', kind, thorough)


def points_in_shaped(thorough):
    for kind in SHAPED:
        yield from _square(grid3(), 'point', kind)
        yield from _square(squares(8), 'point', kind)
        yield from _square(house(8), 'point', kind)
        yield from _square(general(8 if thorough else 5), 'point', kind)
        for make in (jack2, medial3, nest3, grid33, brick):
            yield from _square(algebra(make), 'point', kind)
        yield from _square(archipelago(), 'point', kind)
        yield from _square(colander(), 'point', kind)
        yield from _square(sieve55() if thorough else sieve(), 'point', kind)
        if thorough:
            yield from _square(grid43(12 if kind == 'region' else 5),
                               'point', kind)
            yield from _square(
                squares(8, holes=(1, 2), multi_sizes=(2, 3)), 'point', kind)
        yield from _wrinkled_all('point', kind, thorough)


# linear


def segment_to_linear(thorough):
    yield from _square(lattice(square_sites(5 if thorough else 4),
                               'lattice4x4', 3),
                       'segment', 'segment')
    for kind in ('multisegment', 'contour'):
        yield from _square(grid3(multisegment_sizes=(2, 3)), 'segment', kind)
        yield from _square(squares(8, multisegment_sizes=(2, 3)), 'segment',
                           kind)
        yield from _square(general(8, multisegment_sizes=(2, 3)), 'segment',
                           kind)
        yield from _square(algebra(jack2, (2, 3, 4)), 'segment', kind)
        yield from _square(algebra(medial3, (2, 3)), 'segment', kind)
        yield from _crossing(jack4, grid22_shifted, 'segment', kind, (2, 3))
        if thorough:
            yield from _square(grid3(multisegment_sizes=(4,)), 'segment',
                               kind)
            yield from _square(grid43(12, multisegment_sizes=(3,)), 'segment',
                               kind)
            yield from _square(algebra(jack2, (5, 6)), 'segment', kind)
        yield from _wrinkled_all('segment', kind, thorough)
    yield from _chains(7 if thorough else 6, thorough)


def _chains(size, thorough):
    """Collinear segments, several more come from the side."""
    from scaling import scaled_world
    from shapes import segments_conflict
    from itertools import combinations, permutations
    for dx, dy in ((1, 0), (0, 1), (1, 1), (2, -1)):
        line = [(dx * i, dy * i) for i in range(size)]
        side = [(2 * dx - dy, 2 * dy + dx), (3 * dx + dy, 3 * dy - dx)]
        spans = ([(line[0], line[-1])]
                 + [tuple(sorted((p, q))) for p in line[1:-1] for q in side])
        world, factor = scaled_world(tuple(line + side), f'chain{dx},{dy}',
                                     tuple(spans))
        line = [(x * factor, y * factor) for x, y in line]
        collinear = [tuple(sorted(pair)) for pair in combinations(line, 2)]
        spokes = [tuple(sorted(((p[0] * factor, p[1] * factor),
                                (q[0] * factor, q[1] * factor))))
                  for p, q in spans[1:]]

        def independent(items, least, most, extra=()):
            result = []
            for count in range(least, most + 1):
                for chosen in combinations(items, count):
                    if not any(segments_conflict(a, b)
                               for a, b in combinations(chosen + extra, 2)):
                        result.append(chosen + extra)
            return result

        multisegments = independent(collinear, 2, size - 1)
        multisegments += [m
                          for spoke in spokes
                          for m in independent(collinear, 1, 3, (spoke,))]
        yield Block(world, 'segment', collinear, 'multisegment',
                    multisegments)
        if dx and dy and not thorough:
            continue
        # pieces are taken away one by one, so their order may matter
        yield Block(world, 'segment',
                    collinear + [(q, p) for p, q in collinear],
                    'multisegment',
                    [tuple([(q, p) if (flips >> index) & 1 else (p, q)
                            for index, (p, q) in enumerate(order)])
                     for m in multisegments if len(m) > 2
                     for order in permutations(m)
                     for flips in (0b000000, 0b111111, 0b010101, 0b000011)],
                    f'{world.name}, all orders', as_is=True)


def multisegment_to_linear(thorough):
    yield from _square(grid3(), 'multisegment', 'multisegment')
    yield from _square(squares(8), 'multisegment', 'multisegment')
    yield from _square(algebra(square4, tuple(range(2, 9))), 'multisegment',
                       'multisegment')
    world, spokes = star(COMPASS, 'star')
    sets = subsets(spokes, 2, 8)
    yield Block(world, 'multisegment', sets, 'multisegment', sets)
    world, spokes = star(KNIGHT + COMPASS[::2], 'star-cross')
    yield Block(world, 'multisegment',
                subsets(spokes[:8], 2, 8 if thorough else 4),
                'multisegment', subsets(spokes[4:], 2, 8 if thorough else 4))
    yield from _crossing(jack4, grid22_shifted, 'multisegment',
                         'multisegment', (2, 3))
    yield from _square(grid3(max_vertices=99 if thorough else 5),
                       'multisegment', 'contour')
    yield from _square(squares(8 if thorough else 4), 'multisegment',
                       'contour')
    yield from _square(algebra(jack2, (2, 3)), 'multisegment', 'contour')
    yield from _square(algebra(grid22, (3, 4, 5, 6)), 'multisegment',
                       'contour')
    yield from _square(algebra(ladder, tuple(range(2, 10))), 'multisegment',
                       'contour')
    yield from _square(algebra(medial2, (2, 3)), 'multisegment', 'contour')
    yield from _crossing(jack4, grid22_shifted, 'multisegment', 'contour',
                         (2, 3))
    for kind in ('multisegment', 'contour'):
        yield from _wrinkled_all('multisegment', kind, thorough)
    if thorough:
        yield from _pair(grid3(multisegment_sizes=(3,)), grid3(),
                         'multisegment', 'multisegment')
        yield from _pair(grid3(multisegment_sizes=(3,)), grid3(),
                         'multisegment', 'contour')
        yield from _square(algebra(jack2, (2, 3)), 'multisegment',
                           'multisegment')
        yield from _square(algebra(ladder, tuple(range(2, 10))),
                           'multisegment', 'multisegment')
        yield from _square(grid43(4), 'multisegment', 'contour')


def contour_to_contour(thorough):
    yield from _square(grid3(), 'contour', 'contour')
    yield from _square(squares(8 if thorough else 4), 'contour', 'contour')
    yield from _square(house(8 if thorough else 5), 'contour', 'contour')
    yield from _square(general(8 if thorough else 4), 'contour', 'contour')
    for make in (jack2, grid33, medial3, nest3, brick):
        yield from _square(algebra(make), 'contour', 'contour')
    yield from _square(sieve55() if thorough else sieve(), 'contour',
                       'contour')
    yield from _crossing(grid33, jack_far, 'contour', 'contour')
    yield from _wrinkled_all('contour', 'contour', thorough)
    if thorough:
        yield from _square(grid43(5), 'contour', 'contour')
        yield from _square(algebra(grid42), 'contour', 'contour')


# linear to shaped


def segment_to_shaped(thorough):
    for kind in SHAPED:
        yield from _square(grid3(), 'segment', kind)
        yield from _square(squares(8), 'segment', kind)
        yield from _square(house(8), 'segment', kind)
        yield from _square(general(8), 'segment', kind)
        for make in (jack2, medial3, nest3, grid33, brick):
            yield from _square(algebra(make), 'segment', kind)
        yield from _crossing(grid33, jack_far, 'segment', kind)
        yield from _square(archipelago(), 'segment', kind)
        yield from _square(colander() if kind != 'multipolygon' or thorough
                           else colander2(), 'segment', kind)
        yield from _square(sieve55() if thorough else sieve(), 'segment',
                           kind)
        if thorough:
            yield from _square(
                grid43(12 if kind in ('region', 'polygon') else 4),
                'segment', kind)
            yield from _square(grid3(multi_vertices=9, multi_sizes=(2, 3)),
                               'segment', kind)
            yield from _square(squares(8, holes=(1, 2), multi_sizes=(2, 3)),
                               'segment', kind)
            yield from _square(lattice(NESTED_SQUARES + ((3, 0), (3, 2)),
                                       'squares+2', 4, holes=(1, 2)),
                               'segment', kind)
        yield from _wrinkled_all('segment', kind, thorough)


def multisegment_to_shaped(thorough):
    for kind in SHAPED:
        # functions of multipolygon get less of the lattice shapes,
        # since those have no holes
        rich = kind == 'multiregion' or thorough
        yield from _pair(grid3(), grid3(max_vertices=4, multi_vertices=3),
                         'multisegment', kind) if rich else (
            _pair(grid3(), grid3(max_vertices=5), 'multisegment', kind)
            if kind == 'region' else ())
        yield from _pair(squares(4, hole_vertices=4, multi_vertices=3,
                                 polygons_vertices=3),
                         squares(4, hole_vertices=4, multi_vertices=3,
                                 polygons_vertices=3),
                         'multisegment', kind)
        yield from _square(algebra(jack2, (2, 3) if rich else (2,)),
                           'multisegment', kind)
        yield from _square(algebra(medial3, (2,)), 'multisegment', kind)
        yield from _square(algebra(nest3, (2,)), 'multisegment', kind)
        yield from _square(algebra(grid22, tuple(range(2, 13))
                                   if rich or kind == 'region'
                                   else (2, 3, 4, 5, 6)),
                           'multisegment', kind)
        yield from _square(algebra(ladder, tuple(range(2, 10))),
                           'multisegment', kind)
        yield from _crossing(jack4, grid22_shifted, 'multisegment', kind,
                             (2, 3) if rich else (2,))
        yield from _square(archipelago(), 'multisegment', kind)
        yield from _square(colander() if thorough else colander2(),
                           'multisegment', kind)
        if kind.startswith('multi') or thorough:
            yield from _square(sieve(), 'multisegment', kind)
        yield from _wrinkled_all('multisegment', kind, thorough,
                                 kind == 'multipolygon')
        if thorough:
            yield from _pair(grid3(), grid3(multi_sizes=(2, 3)),
                             'multisegment', kind)
            yield from _pair(squares(8), squares(8), 'multisegment', kind)
            yield from _square(algebra(medial3, (3,)), 'multisegment', kind)
            yield from _pair(general(4), general(4), 'multisegment', kind)


def contour_to_shaped(thorough):
    for kind in SHAPED:
        rich = kind == 'multiregion' or thorough
        if kind == 'region':
            yield from _pair(grid3(), grid3(max_vertices=5), 'contour', kind)
        elif rich:
            yield from _pair(grid3(max_vertices=4),
                             grid3(max_vertices=4, multi_vertices=3),
                             'contour', kind)
        yield from _pair(squares(4),
                         squares(5, hole_vertices=5, multi_vertices=3,
                                 polygons_vertices=3)
                         if kind == 'polygon' or thorough
                         else squares(4, hole_vertices=4, multi_vertices=3,
                                      polygons_vertices=3),
                         'contour', kind)
        for make in (jack2, nest3, brick):
            yield from _square(algebra(make), 'contour', kind)
        if not kind.startswith('multi') or thorough:
            yield from _square(algebra(medial3), 'contour', kind)
            yield from _square(algebra(grid33), 'contour', kind)
        else:
            yield from _square(algebra(medial2), 'contour', kind)
            yield from _square(algebra(grid24), 'contour', kind)
        yield from _crossing(jack4, grid22_shifted, 'contour', kind)
        yield from _square(archipelago(), 'contour', kind)
        yield from _square(colander(), 'contour', kind)
        yield from _square(sieve55() if thorough else sieve(), 'contour',
                           kind)
        yield from _wrinkled_all('contour', kind, thorough)
        if thorough:
            yield from _pair(grid3(), grid3(multi_sizes=(2, 3)), 'contour',
                             kind)
            yield from _pair(squares(8), squares(8), 'contour', kind)
            yield from _pair(house(5), house(8), 'contour', kind)
            yield from _pair(general(4), general(4, hole_vertices=4),
                             'contour', kind)
            yield from _crossing(grid33, jack_far, 'contour', kind)


# shaped to shaped


def _shaped_pairs(test_kind, goal_kind, thorough):
    both_single = (not test_kind.startswith('multi')
                   and not goal_kind.startswith('multi'))
    both_multi = (test_kind.startswith('multi')
                  and goal_kind.startswith('multi'))
    for make in (jack2, nest3, brick, medial2):
        yield from _square(algebra(make), test_kind, goal_kind)
    if both_single or thorough:
        yield from _square(algebra(medial3), test_kind, goal_kind)
    if both_single and (test_kind == goal_kind or thorough):
        yield from _square(algebra(grid33), test_kind, goal_kind)
    elif not both_single:
        yield from _square(algebra(grid24), test_kind, goal_kind)
    yield from _crossing(jack4, grid22_shifted, test_kind, goal_kind)
    yield from _square(archipelago() if not both_multi or thorough
                       else pair_of_islands(), test_kind, goal_kind)
    yield from _square(colander() if goal_kind != 'multipolygon'
                       or test_kind == 'region' or thorough
                       else colander2(), test_kind, goal_kind)
    yield from _square(sieve55() if thorough else sieve(), test_kind,
                       goal_kind)
    yield from _wrinkled_all(test_kind, goal_kind, thorough,
                             test_kind == goal_kind)
    if test_kind == goal_kind == 'region':
        yield from _square(grid3(), test_kind, goal_kind)
        yield from _square(squares(5), test_kind, goal_kind)
        yield from _square(general(4), test_kind, goal_kind)
        yield from _square(house(5), test_kind, goal_kind)
    else:
        small = grid3(max_vertices=4, multi_vertices=3)
        if not both_multi or (test_kind == goal_kind == 'multiregion'
                              or thorough):
            yield from _square(small, test_kind, goal_kind)
        small = squares(4, hole_vertices=4, multi_vertices=3,
                        polygons_vertices=3)
        yield from _square(small, test_kind, goal_kind)
    if thorough:
        yield from _square(algebra(grid33), test_kind, goal_kind)
        yield from _crossing(grid33, jack_far, test_kind, goal_kind)
        big = grid3(max_vertices=5, multi_vertices=4)
        yield from _square(big, test_kind, goal_kind)
        big = squares(5, hole_vertices=5, multi_vertices=3)
        yield from _square(big, test_kind, goal_kind)
        big = general(4, hole_vertices=4, multi_vertices=3,
                      polygons_vertices=3)
        yield from _square(big, test_kind, goal_kind)
        big = house(5, hole_vertices=5, multi_vertices=3)
        yield from _square(big, test_kind, goal_kind)


def regions(thorough):
    yield from _shaped_pairs('region', 'region', thorough)


def multiregions(thorough):
    yield from _shaped_pairs('region', 'multiregion', thorough)
    yield from _shaped_pairs('multiregion', 'multiregion', thorough)


def in_polygon(thorough):
    for kind in ('region', 'multiregion', 'polygon'):
        yield from _shaped_pairs(kind, 'polygon', thorough)


def in_multipolygon(thorough):
    for kind in ('region', 'multiregion', 'polygon', 'multipolygon'):
        yield from _shaped_pairs(kind, 'multipolygon', thorough)
