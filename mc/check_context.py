"""
Calculations are made by the context which the caller asked for: the explicit
one if there is any, otherwise the one which is current at the moment of call.

All sequences of changes of the current context and of calls are explored,
the model remembers only which context is the current one.
"""
import time
from itertools import product

from ground.base import Location, Relation, get_context, set_context

import engine
import menu
import report
from bind import PAIRS, Builder, planar
from check_history import one_per_function
from families import (algebra, grid22, jack2, lattice, medial2, nest2,
                      square4)
from probe import ORIGIN, Poison, Poisoned, Probe

_builder = Builder(ORIGIN)
_poisoned = Poisoned()


ACTIONS = ('make A current', 'make B current', 'make poison current',
           'call', 'call with A', 'call with B')


def check_all(job, totals, outcomes, violations):
    """The current context is never asked when there is an explicit one."""
    world, test_kind, tests, goal_kind, goal = job
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    goal_object = _builder.build(goal_kind, goal)
    initial = get_context()
    set_context(_poisoned)
    try:
        for test in tests:
            totals['states'] += 1
            totals['transitions'] += 1
            totals['calls'] += 1
            try:
                found = function(_builder.build(test_kind, test),
                                 goal_object, context=ORIGIN)
            except Poison as error:
                violations.append({
                    'function': function.__name__, 'test': test,
                    'goal': goal, 'expected': 'no requests to the current '
                                              'context',
                    'actual': repr(error)})
                return
            except Exception:
                # that is what the other properties are about
                totals['failed'] += 1
            else:
                outcomes[getattr(found, 'name', repr(found))] += 1
                if type(found) is not (Location if test_kind == 'point'
                                       else Relation):
                    violations.append({
                        'function': function.__name__, 'test': test,
                        'goal': goal, 'expected': 'member of enumeration',
                        'actual': repr(found)})
                    return
    finally:
        set_context(initial)


def evaluate(job, totals, outcomes, violations):
    (check_all if len(job) > 2 else check_sequences)(job, totals, outcomes,
                                                     violations)


def check_sequences(job, totals, outcomes, violations):
    query, depth = job
    function = getattr(planar, query.function)
    test = _builder.build(query.test_kind, query.test)
    goal = _builder.build(query.goal_kind, query.goal)
    requests = {'A': [], 'B': []}
    contexts = {name: Probe(ORIGIN, log.append)
                for name, log in requests.items()}
    contexts['poison'] = _poisoned

    def clean():
        for log in requests.values():
            log.clear()

    initial = get_context()
    try:
        for actions in product(ACTIONS, repeat=depth):
            if not actions[-1].startswith('call'):
                continue
            set_context(contexts['A'])
            current, standard = 'A', None
            totals['states'] += 1
            for index, action in enumerate(actions):
                totals['transitions'] += 1
                if action.startswith('make'):
                    current = action.split()[1]
                    set_context(contexts[current])
                    continue
                name = action.split()[-1] if 'with' in action else current
                clean()
                try:
                    found = (function(test, goal, context=contexts[name])
                             if 'with' in action
                             else function(test, goal))
                except Poison as error:
                    found = error
                except Exception as error:
                    found = error
                totals['calls'] += 1
                used = {key: list(log) for key, log in requests.items()
                        if log}
                problem = None
                if name == 'poison':
                    # (some of answers may be given without any calculations)
                    if used:
                        problem = 'context that is not current is asked'
                    elif not isinstance(found, Poison):
                        if (getattr(found, 'name', None) != query.answer
                                or standard):
                            problem = f'unexpected {found!r}'
                elif getattr(found, 'name', None) != query.answer:
                    if isinstance(found, Poison) or totals['good']:
                        problem = f'unexpected {found!r}'
                    else:
                        # that is what the other properties are about
                        totals['skipped'] += 1
                        return
                else:
                    totals['good'] += 1
                    if not isinstance(found, (Location, Relation)):
                        problem = f'{found!r} is of a wrong type'
                    elif used.keys() - {name}:
                        problem = f'{used.keys() - {name}} is asked as well'
                    elif standard is None:
                        standard = used.get(name, [])
                    elif bool(standard) != bool(used.get(name)):
                        problem = (f'{len(standard)} requests before, '
                                   f'{len(used.get(name, []))} ones now')
                outcomes[f'{action}, {name}'] += 1
                if problem is not None:
                    violations.append({
                        'query': query._asdict(),
                        'actions': actions[:index + 1], 'actual': problem,
                        'expected_outcome': f'requests to {name} only and '
                                            f'{query.answer}'})
                    return
    finally:
        set_context(initial)


def main(property_, thorough):
    started = time.time()
    queries = (menu.queries(5 if thorough else 2, 1)
               + menu.rich_queries(9 if thorough else 3))
    deep = one_per_function(menu.queries(1, 1))
    jobs = [(query, 3) for query in queries]
    jobs += [(query, 5 if thorough else 4) for query in deep]
    settings = dict(multi_vertices=99, polygons_vertices=99, holes=(1, 2))
    families = (lattice(menu.WEDGE, 'wedge', **settings),
                lattice(menu.RING, 'ring-3', 3, **settings),
                algebra(square4, (2, 3, 4)), algebra(grid22), algebra(nest2))
    if thorough:
        families += (lattice(menu.RING, 'ring', **settings), algebra(medial2),
                     algebra(jack2, (2, 3)))
    for test_kind, goal_kind in PAIRS:
        for family in families:
            jobs += [(family.world, test_kind, family[test_kind], goal_kind,
                      goal) for goal in family[goal_kind]]
    result = engine.explore_jobs(jobs, evaluate, chunk=2)
    totals = result['totals']
    report.finish(property_, 'model_checking', {
        'states': totals['states'],
        'transitions': totals['transitions'],
        'traces_validated_against_impl': totals['calls'],
        'skipped_queries': totals['skipped'],
        'queries': len(queries) + len(deep),
        'pairs_with_poisoned_default': sum(len(job[2]) for job in jobs
                                           if len(job) > 2),
        'exhaustive': result['complete'],
        'explanation': 'state: sequence of actions; transition: one more '
                       'action; model tells which context should get '
                       'requests',
        'actions': ACTIONS,
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain(job) for job in jobs[:400:80]],
    }, result['violations'], started)
