"""
Answers depend on nothing but given geometries: no call changes its
arguments, no history of calls influences the next ones, objects may be
shared, reused and changed between calls.
"""
import time
from fractions import Fraction

import bind
import engine
import menu
import report
import variants
from bind import Builder, FastContext, PAIRS, actual, planar
from families import algebra, grid22, lattice, nest2, square4

_context = FastContext()
_shared = Builder(_context)
PARTS = {'multisegment': 'segments', 'contour': 'vertices',
         'region': 'vertices', 'multipolygon': 'polygons'}
PART_KINDS = {'multisegment': 'segment', 'multiregion': 'region',
              'multipolygon': 'polygon', 'contour': 'point',
              'region': 'point'}


class Fresh(Builder):
    """Never shares points."""

    def point(self, p):
        x, y = self.coordinate(p) if self.coordinate else p
        return self.context.point_cls(x, y)


def snapshot(value):
    """What the object consists of: identities and values."""
    if isinstance(value, (int, float, Fraction)):
        return value
    elif isinstance(value, (list, tuple)) and not hasattr(value, 'x'):
        return (id(value), type(value).__name__) + tuple(map(snapshot, value))
    names = [name for name in ('x', 'y', 'start', 'end', 'vertices',
                               'segments', 'border', 'holes', 'polygons')
             if hasattr(value, name)]
    return (id(value),) + tuple((name, snapshot(getattr(value, name)))
                                for name in names)


# arguments stay as they were


def check_arguments(job, totals, outcomes, violations):
    _, world, test_kind, tests, goal_kind, goal = job
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    goal_object = _shared.build(goal_kind, goal)
    goal_mask = bind.mask(world, goal_kind, goal)
    goal_before = snapshot(goal_object)
    for test in tests:
        answer = bind.expected(world, test_kind,
                               bind.mask(world, test_kind, test),
                               goal_kind, goal_mask)
        test_object = _shared.build(test_kind, test)
        test_before = snapshot(test_object)
        totals['states'] += 1
        for _ in range(2):
            found = actual(function, test_object, goal_object, _context)
            totals['calls'] += 1
            outcomes[found] += 1
            if found != answer:
                violations.append({
                    'function': function.__name__, 'test': test,
                    'goal': goal, 'expected': answer, 'actual': found,
                    'note': 'the same objects are used once more'})
            elif (snapshot(test_object) != test_before
                  or snapshot(goal_object) != goal_before):
                violations.append({
                    'function': function.__name__, 'test': test,
                    'goal': goal, 'expected': 'arguments are unchanged',
                    'actual': f'{test_object!r}, {goal_object!r}'})
            if violations:
                return


# shared objects


def aliases(kind, shape, value):
    """Parts of the object with what they are."""
    yield kind, shape, value
    if kind in PARTS or kind == 'multiregion':
        parts = value if kind == 'multiregion' else getattr(value,
                                                            PARTS[kind])
        for part_shape, part in zip(shape, parts):
            yield from aliases(PART_KINDS[kind], part_shape, part)
        if kind == 'region':
            yield 'contour', shape, value
        elif kind == 'contour':
            yield 'region', shape, value
    elif kind == 'polygon':
        border, holes = shape
        yield from aliases('contour', border, value.border)
        for hole, hole_object in zip(holes, value.holes):
            yield from aliases('contour', hole, hole_object)
        if len(holes) > 1:
            yield 'multiregion', holes, value.holes
    elif kind == 'segment':
        yield 'point', shape[0], value.start
        yield 'point', shape[1], value.end


def check_aliases(job, totals, outcomes, violations):
    _, world, kind, shape = job
    for builder in (_shared, _fresh):
        value = builder.build(kind, shape)
        parts = list(aliases(kind, shape, value))
        for test_kind, test, test_object in parts:
            test_mask = bind.mask(world, test_kind, test)
            for goal_kind, goal, goal_object in parts:
                function = getattr(planar, f'{test_kind}_in_{goal_kind}',
                                   None)
                if function is None:
                    continue
                answer = bind.expected(world, test_kind, test_mask,
                                       goal_kind,
                                       bind.mask(world, goal_kind, goal))
                found = actual(function, test_object, goal_object, _context)
                totals['calls'] += 1
                totals['states'] += 1
                outcomes[found] += 1
                if found != answer:
                    violations.append({
                        'function': function.__name__, 'test': test,
                        'goal': goal, 'expected': answer, 'actual': found,
                        'note': f'both are parts of {kind} {shape}'})
                    return


_fresh = Fresh(_context)

# sequences of calls


def check_pairs(job, totals, outcomes, violations):
    """Every query after the given one."""
    _, first, seconds = job
    stock = Fresh(bind.stock_builder().context)
    function = getattr(planar, first.function)
    kept = (_shared.build(first.test_kind, first.test),
            _shared.build(first.goal_kind, first.goal))
    for second in seconds:
        totals['states'] += 1
        # objects stay alive
        for query, objects in ((first, kept), (second, None), (first, kept)):
            test, goal = objects or (
                _shared.build(query.test_kind, query.test),
                _shared.build(query.goal_kind, query.goal))
            found = actual(getattr(planar, query.function), test, goal,
                           _context)
            totals['calls'] += 1
            outcomes[found] += 1
            if found != query.answer:
                violations.append({
                    'function': query.function, 'test': query.test,
                    'goal': query.goal, 'expected': query.answer,
                    'actual': found,
                    'history': [first, second][:1 + (query is second)]})
                return
        # new objects take places of the removed ones
        for query in (first, second):
            found = menu.run(query, stock, stock.context)
            totals['calls'] += 1
            if found != query.answer:
                violations.append({
                    'function': query.function, 'test': query.test,
                    'goal': query.goal, 'expected': query.answer,
                    'actual': found, 'history': [first, second],
                    'note': 'objects of the previous call are removed'})
                return


def check_triples(job, totals, outcomes, violations):
    """Every two queries after the given one."""
    _, first, others = job
    objects = {query: (_shared.build(query.test_kind, query.test),
                       _shared.build(query.goal_kind, query.goal))
               for query in (first,) + others}
    for second in others:
        for third in others:
            totals['states'] += 1
            for query in (first, second, third):
                found = actual(getattr(planar, query.function),
                               *objects[query], _context)
                totals['calls'] += 1
                if found != query.answer:
                    violations.append({
                        'function': query.function, 'test': query.test,
                        'goal': query.goal, 'expected': query.answer,
                        'actual': found, 'history': [first, second, third]})
                    return


# objects that change between calls


def assign(kind, value, source):
    """Makes the object the same as the other one, keeps its identity."""
    if kind == 'multiregion':
        value[:] = source
    elif kind == 'polygon':
        value.border.vertices[:] = source.border.vertices
        value.holes[:] = source.holes
    else:
        name = PARTS[kind]
        getattr(value, name)[:] = getattr(source, name)


def check_changes(job, totals, outcomes, violations):
    """
    All the walks ``first -> second`` of one argument,
    the other one stays the same.
    """
    _, world, test_kind, goal_kind, other, shapes, goal_moves = job
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    kind, other_kind = ((goal_kind, test_kind) if goal_moves
                        else (test_kind, goal_kind))
    other_mask = bind.mask(world, other_kind, other)
    other_object = _shared.build(other_kind, other)
    answers = []
    for shape in shapes:
        mask = bind.mask(world, kind, shape)
        answers.append(
            bind.expected(world, test_kind, other_mask, goal_kind, mask)
            if goal_moves
            else bind.expected(world, test_kind, mask, goal_kind,
                               other_mask))
    for i, first in enumerate(shapes):
        for j, second in enumerate(shapes):
            # the same shape is written in another way
            second = variants.pick(kind, second, 1 + (5 * i + 7 * j) % 23)
            value = _shared.build(kind, first)
            totals['states'] += 1
            for shape, answer in ((first, answers[i]), (second, answers[j]),
                                  (first, answers[i])):
                assign(kind, value, _shared.build(kind, shape))
                found = (actual(function, other_object, value, _context)
                         if goal_moves
                         else actual(function, value, other_object,
                                     _context))
                totals['calls'] += 1
                outcomes[found] += 1
                if found != answer:
                    violations.append({
                        'function': function.__name__,
                        'test': other if goal_moves else shape,
                        'goal': shape if goal_moves else other,
                        'expected': answer, 'actual': found,
                        'note': f'{kind} is changed in place: '
                                f'{first} -> {second} -> {first}'})
                    return


RUNNERS = {'arguments': check_arguments, 'aliases': check_aliases,
           'pairs': check_pairs, 'triples': check_triples,
           'changes': check_changes}


def evaluate(job, totals, outcomes, violations):
    before = totals['calls']
    RUNNERS[job[0]](job, totals, outcomes, violations)
    totals[job[0]] += totals['calls'] - before


def one_per_function(queries):
    """Single query per function: the one where geometries intersect."""
    result = {}
    for query in queries:
        if (query.function not in result
                or query.answer in ('CROSS', 'OVERLAP', 'INTERIOR')):
            result[query.function] = query
    return tuple(result.values())


def jobs_of(thorough):
    settings = dict(multi_vertices=99, polygons_vertices=99, holes=(1, 2))
    wedge = lattice(menu.WEDGE, 'wedge', **settings)
    ring = lattice(menu.RING, 'ring-3', 3, **settings)
    families = (wedge, ring, algebra(square4, (2, 3)), algebra(nest2))
    if thorough:
        families += (lattice(menu.RING, 'ring', **settings),
                     algebra(grid22))
    result = []
    for test_kind, goal_kind in PAIRS:
        for family in families:
            if (not thorough and test_kind in ('point', 'multisegment')
                    and family is not wedge):
                continue
            result += [('arguments', family.world, test_kind,
                        family[test_kind], goal_kind, goal)
                       for goal in family[goal_kind]]
    result += [('arguments', world, test_kind, tests, goal_kind, goal)
               for world, test_kind, tests, goal_kind, goals in menu.rich(
                   60 if thorough else 18, 20 if thorough else 6)
               for goal in goals]
    for family in families:
        for kind in bind.KINDS[1:]:
            result += [('aliases', family.world, kind, shape)
                       for shape in family[kind]]
    queries = (menu.queries(3 if thorough else 1, 1)
               + menu.rich_queries(4 if thorough else 1))
    result += [('pairs', query, queries) for query in queries]
    queries = (menu.queries(1, 1) if thorough
               else one_per_function(menu.queries(1, 1)))
    result += [('triples', query, tuple(queries)) for query in queries]
    for test_kind, goal_kind in PAIRS:
        for family in ((wedge, algebra(square4)) if thorough
                       else (algebra(square4),)):
            for goal_moves in (False, True):
                kind, other = ((goal_kind, test_kind) if goal_moves
                               else (test_kind, goal_kind))
                if kind in ('point', 'segment'):
                    continue
                result += [('changes', family.world, test_kind, goal_kind,
                            shape, family[kind], goal_moves)
                           for shape in family[other]]
    return result


def main(property_, thorough):
    started = time.time()
    jobs = jobs_of(thorough)
    result = engine.explore_jobs(jobs, evaluate, chunk=2)
    totals = result['totals']
    report.finish(property_, 'model_checking', {
        'states': totals['states'],
        'transitions': totals['calls'],
        'traces_validated_against_impl': totals['calls'],
        'exhaustive': result['complete'],
        'explanation': 'state: history of calls (with objects kept, shared, '
                       'removed and changed between them); transition: the '
                       'next call; answers are those of the model',
        'transitions_by_kind': {name: totals[name] for name in RUNNERS},
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain([item for item in jobs[k]
                                  if isinstance(item, (str, tuple))][:4])
                    for k in range(0, len(jobs), len(jobs) // 7)],
    }, result['violations'], started)
