"""
The answer does not depend on how geometries are written down: first vertex
and direction of contours, order of endpoints, segments, regions, holes and
polygons, type of sequences.

Writing of a pair is a vector of choices (one per every segment, contour and
sequence of parts), all vectors that differ from the first one in at most
``bound`` places are explored for every pair of geometries of small worlds.
"""
import time
from fractions import Fraction
from itertools import combinations, permutations, product

import engine
import menu
import report
from bind import Builder, FastContext, PAIRS, actual, planar
from shapes import segments_conflict
from families import (algebra, grid22, jack2, ladder, lattice, medial2, nest2,
                      square4)
from wrinkles import Wrinkles

PARTS = {'multisegment': 'segment', 'multiregion': 'region',
         'multipolygon': 'polygon'}
# (vertices are few, but all the cases of mutual position are there)
PENTAGON = ((0, 0), (4, 0), (4, 4), (0, 4), (1, 2))
WEDGE = ((0, 0), (2, 0), (4, 0), (0, 4), (1, 1))
RING = ((0, 0), (9, 0), (0, 9), (2, 2), (4, 2), (2, 4))
TIGHT_RING = ((0, 0), (8, 0), (0, 8), (4, 0), (2, 2), (2, 4))


class Tuples(Builder):
    """Writes sequences as tuples instead of lists."""

    def contour(self, c):
        return self.context.contour_cls(tuple(self.point(v) for v in c))

    region = contour

    def multisegment(self, m):
        return self.context.multisegment_cls(tuple(map(self.segment, m)))

    def multiregion(self, m):
        return tuple(map(self.contour, m))

    def polygon(self, p):
        return self.context.polygon_cls(self.contour(p[0]),
                                        tuple(map(self.contour, p[1])))

    def multipolygon(self, m):
        return self.context.multipolygon_cls(tuple(map(self.polygon, m)))


def orders(count):
    return (list(permutations(range(count))) if count < 6
            else [tuple((i * sign + shift) % count for i in range(count))
                  for shift in range(count) for sign in (1, -1)])


def places(kind, shape):
    """Numbers of choices for all the places of writing."""
    if kind == 'point':
        return []
    elif kind == 'segment':
        return [2]
    elif kind in ('contour', 'region'):
        return [2 * len(shape)]
    elif kind == 'polygon':
        border, holes = shape
        return places('contour', border) + _many_places('contour', holes)
    else:
        return _many_places(PARTS[kind], shape)


def _many_places(kind, shapes):
    return [len(orders(len(shapes)))] + [count for shape in shapes
                                         for count in places(kind, shape)]


def write(kind, shape, choices):
    """Takes its choices from the iterator."""
    if kind == 'point':
        return shape
    elif kind == 'segment':
        return shape[::-1] if next(choices) else shape
    elif kind in ('contour', 'region'):
        turn, flipped = divmod(next(choices), 2)
        vertices = shape[turn:] + shape[:turn]
        return vertices[::-1] if flipped else vertices
    elif kind == 'polygon':
        border, holes = shape
        border = write('contour', border, choices)
        return border, _write_many('contour', holes, choices)
    else:
        return _write_many(PARTS[kind], shape, choices)


def _write_many(kind, shapes, choices):
    order = orders(len(shapes))[next(choices)]
    parts = [write(kind, shape, choices) for shape in shapes]
    return tuple([parts[i] for i in order])


def vectors(counts, bound):
    """All of them with at most ``bound`` non-zero places."""
    indices = [i for i, count in enumerate(counts) if count > 1]
    for size in range(bound + 1):
        for chosen in combinations(indices, size):
            for values in product(*[range(1, counts[i]) for i in chosen]):
                result = [0] * len(counts)
                for i, value in zip(chosen, values):
                    result[i] = value
                yield result


def total(counts, bound):
    by_size = [1] + [0] * bound
    for count in counts:
        for size in range(bound, 0, -1):
            by_size[size] += by_size[size - 1] * (count - 1)
    return sum(by_size)


_context = FastContext()
_builders = Builder(_context), Tuples(_context)
_objects = {}


def _object(kind, shape, choices):
    """Takes one more choice: type of sequences."""
    key = kind, shape, tuple(choices)
    try:
        return _objects[key]
    except KeyError:
        if len(_objects) > 100_000:
            _objects.clear()
        written = write(kind, shape, iter(choices[1:]))
        result = _objects[key] = written, _builders[choices[0]].build(
            kind, written)
        return result


def evaluate(job, totals, outcomes, violations):
    name, test_kind, tests, goal_kind, goal, bound = job
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    goal_counts = [2] + places(goal_kind, goal)
    for test in tests:
        test_counts = [2] + places(test_kind, test)
        size = len(test_counts)
        answer = None
        totals['states'] += 1
        for vector in vectors(test_counts + goal_counts, bound):
            test_written, test_object = _object(test_kind, test,
                                                vector[:size])
            goal_written, goal_object = _object(goal_kind, goal,
                                                vector[size:])
            found = actual(function, test_object, goal_object, _context)
            totals['calls'] += 1
            if answer is None:
                answer = found
                outcomes[answer] += 1
            elif found != answer:
                violations.append({
                    'function': function.__name__, 'test': test_written,
                    'goal': goal_written, 'expected': answer,
                    'actual': found, 'world': name,
                    'note': f'{answer} when written as {test} and {goal}'})
                break


def scopes(thorough):
    settings = dict(multi_vertices=99, polygons_vertices=99, holes=(1, 2))
    families = [(lattice(PENTAGON, 'pentagon', **settings), 2),
                (lattice(WEDGE, 'wedge', **settings), 2),
                (algebra(square4), 2),
                (algebra(ladder), 2),
                (algebra(nest2), 1),
                (lattice(TIGHT_RING, 'tight-ring-3', 3, **settings), 1)]
    if thorough:
        families = [(family, bound + 1) for family, bound in families]
        families += [(lattice(RING, 'ring', **settings), 1),
                     (lattice(TIGHT_RING, 'tight-ring', **settings), 1),
                     (algebra(medial2), 1), (algebra(jack2), 1)]
    # segment covered by pieces
    line = [(2 * i, i) for i in range(6)]
    spans = list(combinations(line, 2))
    chains = [pieces for size in range(2, 6)
              for pieces in combinations(spans, size)
              if not any(segments_conflict(*pair)
                         for pair in combinations(pieces, 2))]
    result = [('chain', 'segment', spans, 'multisegment', chains,
               3 if thorough else 2)]
    for test_kind, goal_kind in PAIRS:
        for family, bound in families:
            tests, goals = family[test_kind], family[goal_kind]
            if (not thorough and family.world.name in ('nest2', 'pentagon')
                    and (test_kind in ('point', 'multisegment')
                         or (goal_kind in ('multiregion', 'multipolygon')
                             and test_kind not in ('segment', goal_kind)))):
                continue
            if tests and goals:
                result.append((family.world.name, test_kind, tests,
                               goal_kind, goals, bound))
    wrinkled = algebra(grid22)
    present = Wrinkles(wrinkled.world, 5 if thorough else 2, Fraction(1, 5))
    result += [('grid2x2, wrinkled', test_kind,
                [present(test_kind, s) for s in wrinkled[test_kind]],
                goal_kind,
                [present(goal_kind, s) for s in wrinkled[goal_kind]], 1)
               for test_kind, goal_kind in PAIRS
               if test_kind in (('contour', 'region', 'multiregion',
                                 'multisegment', 'polygon', 'multipolygon')
                                if thorough
                                else ('contour', 'region'))
               and goal_kind != 'segment']
    result += [(f'{world.name}, many parts', test_kind, tests, goal_kind,
                goals, 1)
               for world, test_kind, tests, goal_kind, goals in menu.rich(
                   60 if thorough else 20, 40 if thorough else 9)
               if test_kind != 'point' or thorough]
    return result


def size(scope):
    name, test_kind, tests, goal_kind, goals, bound = scope
    return sum(total([2] + places(test_kind, t) + [2] + places(goal_kind, g),
                     bound)
               for t in tests for g in goals)


def main(property_, thorough):
    started = time.time()
    items = scopes(thorough)
    jobs = [(name, test_kind, tests, goal_kind, goal, bound)
            for name, test_kind, tests, goal_kind, goals, bound in items
            for goal in goals]
    result = engine.explore_jobs(jobs, evaluate, chunk=2)
    totals = result['totals']
    report.finish(property_, 'model_checking', {
        'states': totals['states'],
        'transitions': totals['calls'] - totals['states'],
        'traces_validated_against_impl': totals['calls'],
        'exhaustive': result['complete'],
        'explanation': 'state: pair of geometries; transition: rewriting of '
                       'at most `bound` of its places (contours, segments, '
                       'sequences)',
        'scopes': [f'{name}: {tk} {len(t)} x {gk} {len(g)}, bound {bound}'
                   for name, tk, t, gk, g, bound in items],
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain((items[k][1], items[k][2][-1], items[k][3],
                                  items[k][4][-1]))
                    for k in range(0, len(items), 24)],
    }, result['violations'], started)
