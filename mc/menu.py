"""
Menu of queries for explorations of histories, faults and schedules:
for every function and every answer it can give the simplest pairs with it
(several ones from different families).
"""
from collections import namedtuple
from functools import lru_cache

import bind
from engine import weight
from families import (algebra, colander2, grid22, lattice, nest2, sieve,
                      square4)

Query = namedtuple('Query', 'function test_kind test goal_kind goal answer')

WEDGE = ((0, 0), (2, 0), (4, 0), (0, 4), (1, 1))
RING = ((0, 0), (9, 0), (0, 9), (2, 2), (4, 2), (2, 4))


def _families():
    settings = dict(multi_vertices=99, polygons_vertices=99, holes=(1,))
    return (lattice(WEDGE, 'wedge', **settings),
            lattice(RING, 'ring-3', 3, **settings),
            algebra(square4, (2, 3)), algebra(grid22, (2,)),
            algebra(nest2))


def has_holes(kind, shape):
    return (bool(shape[1]) if kind == 'polygon'
            else kind == 'multipolygon' and any(holes for _, holes in shape))


def queries(per_answer=1, per_family=1, holed=True):
    """
    The simplest ``per_family`` queries of every family
    (at most ``per_answer`` ones) for every function and answer,
    plus the same for goals with holes.
    """
    result = _queries(per_answer, per_family)
    if holed:
        result = result + _queries(per_answer, per_family, True)
    return result


@lru_cache(None)
def _queries(per_answer, per_family, holed=False):
    result = []
    for test_kind, goal_kind in bind.PAIRS:
        if holed and goal_kind not in ('polygon', 'multipolygon'):
            continue
        chosen = {}
        for family in _families():
            world = family.world
            tests = sorted(family[test_kind], key=weight)
            goals = sorted([g for g in family[goal_kind]
                            if not holed or has_holes(goal_kind, g)],
                           key=weight)
            goal_masks = [bind.mask(world, goal_kind, g) for g in goals]
            counts = {}
            memo = {}
            for total in range(len(tests) + len(goals)):
                # simplest first
                for i in range(max(0, total - len(goals) + 1),
                               min(len(tests), total + 1)):
                    test, goal = tests[i], goals[total - i]
                    if i not in memo:
                        memo[i] = bind.mask(world, test_kind, test)
                    answer = bind.expected(world, test_kind, memo[i],
                                           goal_kind, goal_masks[total - i])
                    if (counts.get(answer, 0) < per_family
                            and len(chosen.get(answer, ())) < per_answer):
                        counts[answer] = counts.get(answer, 0) + 1
                        chosen.setdefault(answer, []).append(
                            Query(f'{test_kind}_in_{goal_kind}', test_kind,
                                  test, goal_kind, goal, answer))
        for answer in sorted(chosen):
            result += chosen[answer]
    return result


def is_rich(kind, shape):
    """Are there parts enough to be put in a wrong order."""
    if kind == 'polygon':
        return len(shape[1]) > 1
    elif kind == 'multipolygon':
        return (len(shape) > 2
                or any(is_rich('polygon', polygon) for polygon in shape))
    elif kind == 'multiregion':
        return len(shape) > 2
    elif kind in ('contour', 'region'):
        return len(shape) > 4
    else:
        return True


def rich(tests_count, goals_count):
    """
    World, kinds and evenly spread geometries of many parts
    (something to sort, to reverse, to drop).
    """
    for family in (colander2(), sieve()):
        for test_kind, goal_kind in bind.PAIRS:
            tests, goals = ([shape for shape in family[kind]
                             if is_rich(kind, shape)]
                            for kind in (test_kind, goal_kind))
            tests = tests[::max(1, len(tests) // tests_count)]
            goals = goals[::max(1, len(goals) // goals_count)]
            if tests and goals:
                yield family.world, test_kind, tests, goal_kind, goals


@lru_cache(None)
def rich_queries(per_function=3, scope=150):
    """
    Queries with geometries of many parts: several ones for every function,
    different answers, simplest first.
    """
    result = []
    for test_kind, goal_kind in bind.PAIRS:
        if goal_kind not in ('contour', 'region', 'multiregion', 'polygon',
                             'multipolygon'):
            continue
        chosen = {}
        for family in (colander2(), sieve()):
            world = family.world
            tests, goals = ([shape
                             for shape in sorted(family[kind], key=weight)
                             if is_rich(kind, shape)][:scope]
                            if kind in family else []
                            for kind in (test_kind, goal_kind))
            goal_masks = [bind.mask(world, goal_kind, g) for g in goals]
            for test in tests:
                test_mask = bind.mask(world, test_kind, test)
                for goal, goal_mask in zip(goals, goal_masks):
                    answer = bind.expected(world, test_kind, test_mask,
                                           goal_kind, goal_mask)
                    if answer not in chosen:
                        chosen[answer] = Query(f'{test_kind}_in_{goal_kind}',
                                               test_kind, test, goal_kind,
                                               goal, answer)
        answers = sorted(chosen, key=lambda answer: answer in ('DISJOINT',
                                                               'EXTERIOR'))
        result += [chosen[answer] for answer in answers[:per_function]]
    return result


def run(query, builder, context, planar=bind.planar):
    return bind.actual(getattr(planar, query.function),
                       builder.build(query.test_kind, query.test),
                       builder.build(query.goal_kind, query.goal), context)


def decoy(query, x=1000, y=-2000):
    """The same query far away, whatever is remembered of it is of no use."""
    def moved(shape):
        if shape and not isinstance(shape[0], tuple):
            return shape[0] + x, shape[1] + y
        return tuple([moved(part) for part in shape])

    return query._replace(test=moved(query.test), goal=moved(query.goal))
