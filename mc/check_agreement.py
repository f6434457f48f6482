"""
Functions never contradict each other: swap of arguments, the same point set
given as geometries of different kinds, subdivided segments.
"""
import time
from fractions import Fraction

import engine
import report
from bind import FastContext, Builder, actual, planar
from families import (NESTED_SQUARES, algebra, brick, colander, colander2,
                      grid33, jack2, lattice, medial2, medial3, nest3, sieve,
                      square_sites)
from model import complement, on_segment
from variants import pick
from wrinkles import Wrinkles

SAME = ('segment', 'multisegment', 'contour', 'region', 'multiregion',
        'polygon', 'multipolygon')


def edges(vertices):
    return tuple(tuple(sorted((vertices[i - 1], vertices[i])))
                 for i in range(len(vertices)))


def disguises(kind, shape):
    """The same point set as geometries of other kinds."""
    result = [(kind, shape)]
    if kind == 'contour':
        result.append(('multisegment', edges(shape)))
    elif kind == 'region':
        result += [('polygon', (shape, ())), ('multiregion', (shape,)),
                   ('multipolygon', ((shape, ()),))]
    elif kind == 'multiregion':
        result.append(('multipolygon', tuple((r, ()) for r in shape)))
    elif kind == 'polygon':
        result.append(('multipolygon', (shape,)))
    return result


def splits(world, segment):
    """Segment cut in two by any of vertices inside of it."""
    p, q = segment
    return [((p, v), (v, q)) for v in world.sites
            if v != p and v != q and on_segment(p, q, v)]


class Runner:
    def __init__(self):
        self.context = FastContext()
        self.builder = Builder(self.context)
        self.cache = {}

    def object(self, kind, shape, code=0):
        key = kind, shape, code
        try:
            return self.cache[key]
        except KeyError:
            if len(self.cache) > 100_000:
                self.cache.clear()
            result = self.cache[key] = self.builder.build(
                kind, pick(kind, shape, code))
            return result

    def __call__(self, test_kind, test, goal_kind, goal, codes=(0, 0)):
        return actual(getattr(planar, f'{test_kind}_in_{goal_kind}'),
                      self.object(test_kind, test, codes[0]),
                      self.object(goal_kind, goal, codes[1]), self.context)


_runner = None


def evaluate(job, totals, outcomes, violations):
    global _runner
    if _runner is None:
        _runner = Runner()
    run = _runner
    world, test_kind, tests, goal_kind, goal, j = job
    swappable = test_kind == goal_kind
    for i, test in enumerate(tests):
        codes = (i * 5 + j + engine.SEED) % 12, (j * 7 + i) % 12
        found = run(test_kind, test, goal_kind, goal, codes)
        totals['calls'] += 1
        totals['states'] += 1
        outcomes[found] += 1

        def differs(other_test_kind, other_test, other_goal_kind, other_goal,
                    should_be, note):
            totals['calls'] += 1
            other = run(other_test_kind, other_test, other_goal_kind,
                        other_goal)
            if other != should_be:
                violations.append({
                    'function': f'{other_test_kind}_in_{other_goal_kind}',
                    'test': other_test, 'goal': other_goal,
                    'expected': should_be, 'actual': other,
                    'note': note, 'world': world.name,
                    'other': f'{test_kind}_in_{goal_kind} of '
                             f'{test} and {goal}'})

        if swappable:
            differs(goal_kind, goal, test_kind, test, complement(found),
                    'arguments are swapped')
        for other_test_kind, other_test in disguises(test_kind, test):
            for other_goal_kind, other_goal in disguises(goal_kind, goal):
                if ((other_test_kind, other_goal_kind)
                        == (test_kind, goal_kind)):
                    continue
                if not hasattr(planar,
                               f'{other_test_kind}_in_{other_goal_kind}'):
                    continue
                differs(other_test_kind, other_test, other_goal_kind,
                        other_goal, found, 'the same sets of other kinds')
        if test_kind == 'segment' and goal_kind != 'segment':
            for halves in splits(world, test):
                differs('multisegment', halves, goal_kind, goal, found,
                        'segment is cut in two')
        elif test_kind == 'multisegment':
            for index, part in enumerate(test):
                for halves in splits(world, part):
                    differs('multisegment',
                            test[:index] + halves + test[index + 1:],
                            goal_kind, goal, found,
                            'one of segments is cut in two')


def scopes(thorough):
    size = 4 if thorough else 3
    squares = lattice(NESTED_SQUARES, f'squares-{size}', size,
                      multi_vertices=3, polygons_vertices=3)
    grid = lattice(square_sites(3), f'lattice3x3-{size}', size,
                   multi_vertices=3)
    result = []

    def add(family, test_kind, goal_kind, tests=None, goals=None):
        result.append((family.world, test_kind, tests or family[test_kind],
                       goal_kind, goals or family[goal_kind]))

    for family in ((squares, grid, algebra(medial2), algebra(jack2),
                    algebra(nest3))
                   + ((algebra(medial3), algebra(grid33), algebra(brick))
                      if thorough else ())):
        lattices = family in (squares, grid)
        for kind in ('segment', 'contour', 'region', 'polygon'):
            if kind == 'polygon':
                if family['holed']:
                    add(family, kind, kind, family['holed'],
                        family['polygon'])
            else:
                add(family, kind, kind)
        if not lattices or thorough:
            for kind in ('multiregion', 'multipolygon'):
                # without holes these are the same things
                if (thorough or kind == 'multiregion'
                        or len(family[kind]) > len(family['multiregion'])):
                    add(family, kind, kind)
            add(family, 'multisegment', 'multisegment')
        add(family, 'segment', 'contour')
        add(family, 'segment', 'multisegment')
        for kind in ('region', 'multiregion', 'polygon'):
            add(family, 'segment', kind)
            if not lattices or thorough:
                add(family, 'multisegment', kind)
            add(family, 'contour', kind)
        add(family, 'multisegment', 'contour')
        if not lattices or thorough:
            add(family, 'region', 'multiregion')
            add(family, 'region', 'polygon', None, family['holed'] or None)
            add(family, 'multiregion', 'polygon')
            add(family, 'polygon', 'multipolygon')
    for family in ((colander(), sieve()) if thorough else (colander2(),)):
        for test_kind, goal_kind in (('segment', 'polygon'),
                                     ('contour', 'polygon'),
                                     ('region', 'polygon'),
                                     ('multiregion', 'multiregion'),
                                     ('multiregion', 'polygon'),
                                     ('polygon', 'polygon'),
                                     ('polygon', 'multipolygon'),
                                     ('multipolygon', 'multipolygon')):
            add(family, test_kind, goal_kind)
    # lots of vertices
    wrinkled = algebra(medial2)
    present = Wrinkles(wrinkled.world, 5 if thorough else 2, Fraction(1, 5))
    for test_kind, goal_kind in (('contour', 'contour'),
                                 ('contour', 'region'),
                                 ('region', 'region'),
                                 ('multiregion', 'multiregion'),
                                 ('region', 'holed'),
                                 ('multiregion', 'holed'),
                                 ('holed', 'polygon')):
        tests, goals = ([present(kind.replace('holed', 'polygon'), shape)
                         for shape in wrinkled[kind]]
                        for kind in (test_kind, goal_kind))
        add(wrinkled, test_kind.replace('holed', 'polygon'),
            goal_kind.replace('holed', 'polygon'), tests, goals)
    return [(world, test_kind, tests, goal_kind, goals)
            for world, test_kind, tests, goal_kind, goals in result
            if tests and goals
            and (thorough or not {'multisegment', 'contour'} & {test_kind,
                                                                goal_kind}
                 or len(tests) * len(goals) < 25_000)]


def main(property_, thorough):
    started = time.time()
    items = scopes(thorough)
    jobs = [(world, test_kind, tests, goal_kind, goal, j)
            for world, test_kind, tests, goal_kind, goals in items
            for j, goal in enumerate(goals)]
    result = engine.explore_jobs(jobs, evaluate, chunk=8)
    totals = result['totals']
    report.finish(property_, 'model_checking', {
        'states': totals['states'],
        'transitions': totals['calls'] - totals['states'],
        'traces_validated_against_impl': totals['calls'],
        'exhaustive': result['complete'],
        'explanation': 'state: pair of geometries; transition: rewriting of '
                       'the pair which should keep the answer (other kinds '
                       'of geometries, cut segments) or turn it into the '
                       'complement (swap of arguments)',
        'scopes': [f'{world.name}: {tk} {len(t)} x {gk} {len(g)}'
                   for world, tk, t, gk, g in items],
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain(items[k][1:2] + (items[k][2][-1],)
                                 + items[k][3:4] + (items[k][4][-1],))
                    for k in range(0, len(items), 12)],
    }, result['violations'], started)
