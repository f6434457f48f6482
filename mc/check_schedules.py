"""
Concurrent calls do not influence each other.

* One preemption: thread A stops before a line of the implementation,
  thread B makes its whole call, A goes on; all the lines are tried
  (first two and the last visits of every line, all the visits in the
  thorough mode), with modules that are already in use and with just loaded
  ones.
* Two preemptions: A stops at an operation of its context, B starts and stops
  at an operation of its own context, A finishes, B finishes; all pairs of
  call sites of operations are tried (first and last visits).
"""
import importlib
import os
import sys
import threading
import time

import bind
import engine
import menu
import report
from bind import Builder
from check_history import one_per_function
from probe import ORIGIN, Probe

PACKAGE = os.path.join(os.path.realpath(bind.REPO), 'orient') + os.sep
_builder = Builder(ORIGIN)
_ours = {}


def ours(code):
    try:
        return _ours[code]
    except KeyError:
        result = _ours[code] = os.path.realpath(
            code.co_filename).startswith(PACKAGE)
        return result


def reload():
    """Modules as they are before the first call."""
    for name in [name for name in sys.modules
                 if name == 'orient' or name.startswith('orient.')]:
        del sys.modules[name]
    return importlib.import_module('orient.planar')


class Call:
    """Query to be made by a thread, checks who uses its context."""

    def __init__(self, query, planar, other=None):
        self.query = query
        self.function = getattr(planar, query.function)
        if other is None:
            self.test = _builder.build(query.test_kind, query.test)
            self.goal = _builder.build(query.goal_kind, query.goal)
        else:
            # the very same objects
            self.test, self.goal = other.test, other.goal
        self.context = Probe(ORIGIN, self._observe)
        self.owner = self.found = self.stranger = None

    def _observe(self, name):
        if threading.get_ident() != self.owner:
            self.stranger = name
        self.observe()

    def observe(self):
        pass

    def __call__(self):
        self.owner = threading.get_ident()
        try:
            self.found = self.function(self.test, self.goal,
                                       context=self.context).name
        except Exception as error:
            self.found = f'raised {error!r}'

    @property
    def verdict(self):
        return (self.found if self.stranger is None
                else f'{self.found}, but the context was asked for '
                     f'{self.stranger} by the other thread')


def lines(call, action=None, position=None):
    """
    Runs the call, performs the action before the line with given number;
    returns visited lines.
    """
    visited = []
    count = 0

    def trace_line(frame, event, argument):
        nonlocal count
        if event == 'line':
            if action is None:
                visited.append((frame.f_code.co_filename, frame.f_lineno))
            elif count == position:
                count += 1
                sys.settrace(None)
                other = frame
                while other is not None:
                    other.f_trace = None
                    other = other.f_back
                action()
                return None
            count += 1
        return trace_line

    def trace_call(frame, event, argument):
        return trace_line if ours(frame.f_code) else None

    sys.settrace(trace_call)
    try:
        call()
    finally:
        sys.settrace(None)
    return visited, count


def pick(keys, first, last):
    """Indices of several first and last visits of every key."""
    visits = {}
    for index, key in enumerate(keys):
        visits.setdefault(key, []).append(index)
    result = set()
    for indices in visits.values():
        result.update(indices[:first])
        if last:
            result.update(indices[-last:])
    return sorted(result)


def in_thread(call):
    thread = threading.Thread(target=call)
    thread.start()
    thread.join()


def conflict(violations, kind, first, second, position, calls):
    violations.append({
        'schedule': kind, 'first': first._asdict(),
        'second': second._asdict(), 'position': position,
        'expected_outcome': [first.answer, second.answer],
        'actual': [call.verdict for call in calls]})


def forget(queries, planar):
    """Whatever is remembered after that is of no use for the queries."""
    for query in queries:
        Call(menu.decoy(query), planar)()


def alone(query, planar):
    call = Call(query, planar)
    call()
    return call.verdict == query.answer


def check_lines(job, totals, outcomes, violations):
    """Single preemption."""
    _, first, second, fresh, visits = job
    planar = reload() if fresh else bind.planar
    if not alone(first, planar) or not alone(second, planar):
        totals['skipped'] += 1
        return
    visited, _ = lines(Call(first, reload() if fresh else planar))
    positions = (pick(visited, *visits) if visits is not None
                 else range(len(visited)))
    totals['points'] += len(visited)
    for position in positions:
        if fresh:
            planar = reload()
        else:
            forget((second, first), planar)
        call = Call(first, planar)
        calls = call, Call(second, planar, call if first is second else None)
        _, count = lines(calls[0], lambda: in_thread(calls[1]), position)
        totals['schedules'] += 1
        if calls[1].found is None:
            # fewer lines than the last time
            totals['unreached'] += 1
            calls[1]()
        if [call.verdict for call in calls] != [first.answer,
                                                second.answer]:
            conflict(violations, 'B runs when A is stopped before the line '
                     + ':'.join(map(str, visited[position])), first, second,
                     position, calls)
            return
        outcomes[f'{calls[0].found}, {calls[1].found}'] += 1


class Stoppable(Call):
    """Stops itself at the given operation of the context."""

    def __init__(self, query, planar, position=None):
        super().__init__(query, planar)
        self.position, self.count = position, 0
        self.sites = [] if position is None else None
        self.stop = None

    def observe(self):
        index = self.count
        self.count += 1
        if self.sites is not None:
            frame = sys._getframe(3)
            while frame is not None and not ours(frame.f_code):
                frame = frame.f_back
            self.sites.append(frame and (frame.f_code.co_filename,
                                         frame.f_lineno))
        elif index == self.position:
            self.stop()


def operations(query, planar, visits):
    call = Stoppable(query, planar)
    call()
    return call.sites, pick(call.sites, *visits)


def check_operations(job, totals, outcomes, violations):
    """Two preemptions."""
    _, first, second, visits = job
    planar = bind.planar
    if not alone(first, planar) or not alone(second, planar):
        totals['skipped'] += 1
        return
    sites, positions = operations(first, planar, visits)
    other_sites, other_positions = operations(second, planar, visits)
    totals['points'] += len(sites) + len(other_sites)
    for position in positions:
        for other_position in other_positions:
            forget((second, first), planar)
            a = Stoppable(first, planar, position)
            b = Stoppable(second, planar, other_position)
            b_has_stopped, a_has_finished = (threading.Semaphore(0),
                                             threading.Semaphore(0))

            def stop_b():
                b_has_stopped.release()
                a_has_finished.acquire()

            def run_b():
                b()
                b_has_stopped.release()

            thread = threading.Thread(target=run_b)

            def stop_a():
                thread.start()
                b_has_stopped.acquire()

            a.stop, b.stop = stop_a, stop_b
            a()
            a_has_finished.release()
            if thread.ident is None:
                # fewer operations than the last time
                totals['unreached'] += 1
                thread.start()
            thread.join()
            totals['schedules'] += 1
            totals['double'] += 1
            if [a.verdict, b.verdict] != [first.answer, second.answer]:
                conflict(violations, 'A stops at {}:{}, B stops at {}:{}, A '
                         'finishes, B finishes'.format(
                             *sites[position], *other_sites[other_position]),
                         first, second, [position, other_position], (a, b))
                return
            outcomes[f'{a.found}, {b.found}'] += 1


def evaluate(job, totals, outcomes, violations):
    {'lines': check_lines, 'operations': check_operations}[job[0]](
        job, totals, outcomes, violations)


def opponents(queries):
    """For every query: one of the same function and one of some other."""
    by_function = {}
    for query in queries:
        by_function.setdefault(query.function, []).append(query)
    names = list(by_function)
    chosen = {query.function: query for query in one_per_function(queries)}
    for index, name in enumerate(names):
        first = chosen[name]
        same = [query for query in by_function[name]
                if query.answer != first.answer]
        other = chosen[names[(index + 7) % len(names)]]
        yield first, same[len(same) // 2], other


def jobs_of(thorough):
    queries = menu.queries(1, 1)
    visits = None if thorough else (2, 1)
    result = []
    for index, (first, same, other) in enumerate(opponents(queries)):
        result.append(('lines', first, same, False, visits))
        result.append(('lines', first, other, False, visits))
        if thorough or not index % 4:
            result.append(('lines', first, same, True, (1, 0)))
        if not thorough:
            # both threads use the same objects
            result.append(('lines', first, first, False, (1, 1)))
            result.append(('lines', same, same, False, (1, 1)))
        result.append(('operations', first, same,
                       (2, 2) if thorough else (1, 1)))
        result.append(('operations', same, first,
                       (2, 2) if thorough else (1, 1)))
        if thorough:
            result.append(('operations', first, other, (2, 2)))
    rich = {query.function: query
            for query in menu.rich_queries(9 if thorough else 2)}
    for first, same, other in opponents(queries):
        query = rich.get(first.function)
        if query is not None:
            result.append(('lines', query, query, False, visits or (3, 1)))
            result.append(('lines', query, first, False, visits or (3, 1)))
    if thorough:
        result += [('lines', query, query, False, (2, 2))
                   for query in queries]
    return result


def main(property_, thorough):
    started = time.time()
    jobs = jobs_of(thorough)
    result = engine.explore_jobs(jobs, evaluate, chunk=1)
    totals = result['totals']
    report.finish(property_, 'exploration', {
        'evaluations': totals['schedules'],
        'distinct_nontrivial': totals['schedules'] - totals['unreached'],
        'two_preemptions': totals['double'],
        'scheduling_points_of_calls': totals['points'],
        'pairs_of_calls': len(jobs),
        'skipped_pairs': totals['skipped'],
        'rule': 'all schedules of two calls with one preemption at a line '
                'of the implementation or with two preemptions at '
                'operations of contexts (visits of every line and call site '
                'are bounded); every schedule is a distinct one, in every '
                'one both calls are in progress at the same time',
        'exhaustive': result['complete'],
        'outcomes': dict(result['outcomes']),
        'samples': [engine.plain(jobs[k])
                    for k in range(0, len(jobs), len(jobs) // 6)],
    }, result['violations'], started,
        ('two threads, one call in each of them; interpreter lock makes '
         'lines atomic enough for pure Python code',))
