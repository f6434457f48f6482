"""
Whatever operation of the context fails, the error reaches the caller,
arguments stay as they were, and the next calls are right.
"""
import sys
import time

import engine
import menu
import report
from bind import Builder, planar
from check_history import snapshot
from probe import ORIGIN, Probe


class Fault(Exception):
    pass


class Abort(BaseException):
    """Something like interruption from keyboard."""


class AnyOther(ZeroDivisionError, OverflowError, KeyError, IndexError,
               TypeError, AttributeError, RuntimeError, AssertionError):
    """Looks like anything what may be caught by mistake."""


# ``ValueError`` goes separately because of the known finding
FAULTS = (Fault, Abort, AnyOther, ValueError)
MORE_FAULTS = FAULTS + (ZeroDivisionError, OverflowError, KeyError,
                        IndexError, TypeError, AttributeError, RuntimeError)
NEIGHBOURS = 'ValueError during lookup of neighbours in the sweep line'
_builder = Builder(ORIGIN)


class Injector:
    """Raises the error during the operation with given number."""

    def __init__(self, position=None, error=None):
        self.position, self.error = position, error
        self.count, self.raised, self.place = 0, False, None

    def __call__(self, name):
        index = self.count
        self.count += 1
        if index == self.position:
            self.raised = True
            if isinstance(self.error, ValueError):
                self.place = place()
            raise self.error


def place():
    """Is the caller looking for neighbours in the container."""
    frame = sys._getframe(3)
    while frame is not None:
        code = frame.f_code
        if ('dendroid' in code.co_filename
                and code.co_name in ('next', 'prev')):
            return NEIGHBOURS
        frame = frame.f_back
    return None


def evaluate(job, totals, outcomes, violations):
    query, following, faults, known = job
    function = getattr(planar, query.function)
    test = _builder.build(query.test_kind, query.test)
    goal = _builder.build(query.goal_kind, query.goal)
    before = snapshot(test), snapshot(goal)
    decoy = menu.decoy(query)
    decoy_test, decoy_goal = (_builder.build(decoy.test_kind, decoy.test),
                              _builder.build(decoy.goal_kind, decoy.goal))
    observe = Injector()
    try:
        found = function(test, goal, context=Probe(ORIGIN, observe))
    except Exception:
        found = None
    size = observe.count
    totals['calls'] += 1
    totals['operations'] += size
    if getattr(found, 'name', None) != query.answer:
        # that is what the other properties are about
        totals['skipped'] += 1
        return

    def report_it(position, error, expected, actual):
        violations.append({
            'query': query._asdict(), 'operation': position,
            'fault': repr(error), 'expected_outcome': expected,
            'actual': actual})

    for fault in faults:
        for position in range(size):
            error = fault('injected')
            injector = Injector(position, error)
            context = Probe(ORIGIN, injector)
            followed = fault is faults[0] or not position % 8
            if followed:
                # nothing of use for the query is remembered
                totals['calls'] += 1
                try:
                    function(decoy_test, decoy_goal, context=ORIGIN)
                except Exception:
                    # that is what the other properties are about
                    pass
            totals['calls'] += 1
            totals['faults'] += 1
            try:
                found = function(test, goal, context=context)
            except BaseException as caught:
                totals['distinct'] += 1
                outcomes[type(caught).__name__] += 1
                if caught is not error:
                    return report_it(position, error, 'the error itself',
                                     repr(caught))
            else:
                if not injector.raised:
                    # fewer operations than the last time
                    totals['unreached'] += 1
                elif injector.place is not None:
                    # known one, see ``known_findings.json``
                    totals['swallowed'] += 1
                    if injector.place not in known:
                        return report_it(position, error, 'error is raised',
                                         f'swallowed, {found}')
                else:
                    return report_it(position, error, 'error is raised',
                                     f'swallowed, {found}')
            if (snapshot(test), snapshot(goal)) != before:
                return report_it(position, error, 'arguments are unchanged',
                                 f'{test!r}, {goal!r}')
            # the same query, the same objects, and then some other one
            if not followed:
                continue
            for other, objects in ((query, (test, goal)),
                                   (following[position % len(following)],
                                    None)):
                totals['calls'] += 1
                other_test, other_goal = objects or (
                    _builder.build(other.test_kind, other.test),
                    _builder.build(other.goal_kind, other.goal))
                try:
                    found = getattr(planar, other.function)(
                        other_test, other_goal, context=ORIGIN).name
                except Exception as error_:
                    found = repr(error_)
                if found != other.answer:
                    return report_it(
                        position, error,
                        f'{other.function} gives {other.answer} afterwards '
                        f'for {other.test} and {other.goal}', found)


def main(property_, thorough):
    started = time.time()
    queries = (menu.queries(5 if thorough else 1, 1)
               + menu.rich_queries(9 if thorough else 2))
    from check_history import one_per_function
    following = one_per_function(menu.queries(1, 1))
    known = frozenset(entry['site']
                      for entry in report.known_findings(property_))
    queries.sort(key=lambda query: -engine.weight((query.test, query.goal)))
    jobs = [(query, (following if thorough
                     else following[index % 5::5]),
             MORE_FAULTS if thorough else FAULTS, known)
            for index, query in enumerate(queries)]
    result = engine.explore_jobs(jobs, evaluate, chunk=1)
    totals = result['totals']
    report.finish(property_, 'fault_enumeration', {
        'evaluations': totals['faults'],
        'distinct_nontrivial': totals['distinct'],
        'calls': totals['calls'],
        'queries': len(queries),
        'operations': totals['operations'],
        'swallowed_known': totals['swallowed'],
        'skipped_queries': totals['skipped'],
        'rule': 'every operation of the context during every query of the '
                'menu fails with every kind of error; non-trivial are those '
                'where the error has reached the caller',
        'faults': [fault.__name__
                   for fault in (MORE_FAULTS if thorough else FAULTS)],
        'outcomes': dict(result['outcomes']),
        'exhaustive': result['complete'],
        'samples': [engine.plain(query)
                    for query in queries[::len(queries) // 8]],
    }, result['violations'], started,
        ('single fault per call; order of operations is the one of the '
         'current implementation',))
