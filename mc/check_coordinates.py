"""
Moving, turning, mirroring, stretching and skewing of both geometries keeps
the answer, and so does a change of type of their coordinates or of mode of
the context (as long as calculations stay exact).
"""
import time
from fractions import Fraction

import bind
import engine
import report
from bind import Builder, FastContext, PAIRS, actual, planar
from families import algebra, lattice, nest2, square4
from ground.base import Context, Mode

WEDGE = ((0, 0), (2, 0), (4, 0), (0, 4), (1, 1))
PENTAGON = ((0, 0), (4, 0), (4, 4), (0, 4), (1, 2))
RING = ((0, 0), (9, 0), (0, 9), (2, 2), (4, 2), (2, 4))


def affine(a, b, c, d, dx=0, dy=0):
    return lambda p: (a * p[0] + b * p[1] + dx, c * p[0] + d * p[1] + dy)


HUGE = 10 ** 40
MAPS = {
    'as is': affine(1, 0, 0, 1),
    'mirrored by x': affine(-1, 0, 0, 1),
    'mirrored by y': affine(1, 0, 0, -1),
    'half turn': affine(-1, 0, 0, -1),
    'quarter turn': affine(0, -1, 1, 0),
    'three quarters turn': affine(0, 1, -1, 0),
    'transposed': affine(0, 1, 1, 0),
    'mirrored by other diagonal': affine(0, -1, -1, 0),
    'turned': affine(3, -4, 4, 3),
    'turned and mirrored': affine(-5, 12, 12, 5),
    'skewed right': affine(1, 2, 0, 1),
    'skewed left': affine(1, -3, 0, 1),
    'skewed up': affine(1, 0, 1, 1),
    'skewed down': affine(1, 0, -2, 1),
    'wide': affine(1000, 0, 0, 1),
    'tall': affine(1, 0, 0, 1000),
    'almost vertical': affine(1, 0, 10 ** 6, 1),
    'below and to the left': affine(1, 0, 0, 1, -999, -999),
    'far away': affine(1, 0, 0, 1, HUGE, -HUGE),
    'huge': affine(HUGE, 0, 0, HUGE),
    'tiny': affine(Fraction(1, HUGE), 0, 0, Fraction(1, HUGE),
                   Fraction(1, 3), Fraction(-1, 7)),
}
# those which leave coordinates within the reach of doubles
MODEST = ('as is', 'mirrored by x', 'quarter turn', 'skewed left', 'turned',
          'below and to the left')


def _fraction(p):
    return Fraction(p[0]), Fraction(p[1])


def _float(p):
    return float(p[0]), float(p[1])


def _binary(p):
    return p[0] / 1024, p[1] / 1024


def _mixed(p):
    x, y = p
    return (Fraction(x), y) if (x + y) % 2 else (x, Fraction(y))


def _floats_mixed(p):
    x, y = p
    return (float(x), y) if (x + y) % 2 else (x, float(y))


def _same(p):
    return p


FAST = FastContext()
EXACT = Context()
PLAIN = Context(mode=Mode.PLAIN)
ROBUST = Context(mode=Mode.ROBUST)


def settings(thorough):
    """Name, context, coordinates of the test, coordinates of the goal."""
    result = []
    for name, function in MAPS.items():
        result.append((name, FAST, function, function))

    def both(first, second):
        return lambda p: second(first(p))

    for name in MODEST:
        function = MAPS[name]
        for mode, context, first, second in (
                ('integers', EXACT, _same, _same),
                ('fractions', EXACT, _fraction, _fraction),
                ('floats', EXACT, _float, _float),
                ('binary fractions', EXACT, _binary, _binary),
                ('mixed coordinates', EXACT, _mixed, _mixed),
                ('mixed floats', EXACT, _floats_mixed, _floats_mixed),
                ('fractions in integers', EXACT, _fraction, _same),
                ('integers in floats', EXACT, _same, _float),
                ('plain fractions', PLAIN, _fraction, _fraction),
                ('robust floats', ROBUST, _float, _float),
                ('robust integers', ROBUST, _same, _same)):
            if not (thorough or name == 'as is'
                    or (name, mode) in (('turned', 'floats'),
                                        ('skewed left', 'plain fractions'),
                                        ('quarter turn', 'robust floats'))):
                continue
            result.append((f'{name}, {mode}', context, both(function, first),
                           both(function, second)))
    return result


_builders = []


def evaluate(job, totals, outcomes, violations):
    world, test_kind, tests, goal_kind, goal = job
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    goal_mask = bind.mask(world, goal_kind, goal)
    goals = [goal_builder.build(goal_kind, goal)
             for _, _, goal_builder, _ in _builders]
    for test in tests:
        answer = bind.expected(world, test_kind,
                               bind.mask(world, test_kind, test),
                               goal_kind, goal_mask)
        totals['states'] += 1
        outcomes[answer] += 1
        for (name, test_builder, goal_builder, context), goal_object in zip(
                _builders, goals):
            found = actual(function, test_builder.build(test_kind, test),
                           goal_object, context)
            totals['calls'] += 1
            if found != answer:
                violations.append({
                    'function': function.__name__, 'base_test': test,
                    'base_goal': goal, 'expected': answer, 'actual': found,
                    'coordinates': name, 'world': world.name})


def whole(world, kind, shapes):
    """Points of the grid: others are not multiples of a power of two."""
    return (shapes if kind != 'point'
            else [(x, y) for x, y in shapes
                  if isinstance(x, int) and isinstance(y, int)])


def scopes(thorough):
    lattices = dict(multi_vertices=99, polygons_vertices=99, holes=(1, 2))
    families = [lattice(WEDGE, 'wedge', **lattices),
                algebra(square4), algebra(nest2)]
    if thorough:
        families += [lattice(PENTAGON, 'pentagon', **lattices),
                     lattice(RING, 'ring-3', 3, **lattices)]
    result = []
    for test_kind, goal_kind in PAIRS:
        for family in families:
            tests = whole(family.world, test_kind, family[test_kind])
            goals = family[goal_kind]
            if (not thorough and family.world.name == 'nest2'
                    and (goal_kind not in ('polygon', 'multipolygon')
                         or test_kind in ('point', 'multisegment',
                                          'multiregion'))):
                continue
            if tests and goals:
                result.append((family.world, test_kind, tests, goal_kind,
                               goals))
    return result


def main(property_, thorough):
    started = time.time()
    items = scopes(thorough)
    _builders.extend((name, Builder(context, test), Builder(context, goal),
                      context)
                     for name, context, test, goal in settings(thorough))
    jobs = [(world, test_kind, tests, goal_kind, goal)
            for world, test_kind, tests, goal_kind, goals in items
            for goal in goals]
    result = engine.explore_jobs(jobs, evaluate, chunk=2)
    totals = result['totals']
    report.finish(property_, 'model_checking', {
        'states': totals['states'],
        'transitions': totals['calls'],
        'traces_validated_against_impl': totals['calls'],
        'exhaustive': result['complete'],
        'explanation': 'state: pair of geometries; transition: map of the '
                       'plane, type of coordinates and mode of context; '
                       'answers are compared with ones of the model for the '
                       'original pair',
        'settings': [name for name, *_ in _builders],
        'scopes': [f'{world.name}: {tk} {len(t)} x {gk} {len(g)}'
                   for world, tk, t, gk, g in items],
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain((items[k][1], items[k][2][-1], items[k][3],
                                  items[k][4][-1]))
                    for k in range(0, len(items), 24)],
    }, result['violations'], started,
        ('floats are small multiples of powers of two; intersections are '
         'calculated by the context exactly',))
