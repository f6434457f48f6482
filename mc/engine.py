"""Exhaustive replay of model states against the implementation."""
import json
import os
import sys
import time
from collections import Counter
from multiprocessing import get_context as get_mp_context

import bind
import variants
from bind import Builder, FastContext, actual, expected, planar

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PROCESSES = int(os.environ.get('VERIF_PROCESSES', '0') or 0) or min(
    8, os.cpu_count() or 1)
STOCK_STRIDE = 64


def weight(shape):
    """How complex the shape is (number of coordinates)."""
    return (1 if not isinstance(shape, (tuple, list))
            else sum(map(weight, shape)))


class Block:
    """
    All pairs of ``tests`` and ``goals`` in the world,
    ``present`` gives images of shapes to replay.
    """

    def __init__(self, world, test_kind, tests, goal_kind, goals, label=None,
                 as_is=False, present=None):
        self.world, self.as_is, self.present = world, as_is, present
        self.test_kind, self.goal_kind = test_kind, goal_kind
        self.tests = sorted(tests, key=weight)
        self.goals = sorted(goals, key=weight)
        self.label = label or world.name
        self.function_name = f'{test_kind}_in_{goal_kind}'

    @property
    def size(self):
        return len(self.tests) * len(self.goals)

    def prepare(self):
        world = self.world
        self.test_masks = [bind.mask(world, self.test_kind, s)
                           for s in self.tests]
        self.goal_masks = [bind.mask(world, self.goal_kind, s)
                           for s in self.goals]
        self.shown_tests, self.shown_goals = (
            (self.tests, self.goals)
            if self.present is None
            else ([self.present(self.test_kind, s) for s in self.tests],
                  [self.present(self.goal_kind, s) for s in self.goals]))

    def states(self):
        return len(set(self.test_masks)) * len(set(self.goal_masks))

    def __repr__(self):
        return (f'{self.function_name} on {self.label}: '
                f'{len(self.tests)} x {len(self.goals)}')


_blocks = []
_known = frozenset()
_stock = None


def _as_is(kind, shape, code):
    return shape


def _run_chunk(task):
    block_index, low, high, seed = task
    block = _blocks[block_index]
    function = getattr(planar, block.function_name)
    world = block.world
    test_kind, goal_kind = block.test_kind, block.goal_kind
    context = _fast_context()
    builder = Builder(context)
    stock = bind.stock_builder()
    outcomes, violations, count, stock_count = Counter(), [], 0, 0
    cache = {}
    pick = _as_is if block.as_is else variants.pick
    build = builder.build
    goals = list(zip(block.shown_goals[low:high],
                     block.goal_masks[low:high]))
    tests = list(zip(block.shown_tests, block.test_masks))
    memo = {}
    for j, (goal, goal_mask) in enumerate(goals, start=low):
        goal_objects = {}
        for i, (test, test_mask) in enumerate(tests):
            code = (i * 7 + j * 13 + (i * j) % 11 + seed) % 24
            try:
                test_object = cache[i, code]
            except KeyError:
                test_object = cache[i, code] = build(test_kind,
                                                     pick(test_kind, test,
                                                          code))
            goal_code = (code * 5 + i + j // 3) % 24
            try:
                goal_object = goal_objects[goal_code]
            except KeyError:
                goal_object = goal_objects[goal_code] = build(
                    goal_kind, pick(goal_kind, goal, goal_code))
            try:
                should_be = memo[test_mask, goal_mask]
            except KeyError:
                should_be = memo[test_mask, goal_mask] = expected(
                    world, test_kind, test_mask, goal_kind, goal_mask)
            found = actual(function, test_object, goal_object, context)
            count += 1
            outcomes[should_be] += 1
            if found != should_be:
                violation = {
                    'function': block.function_name,
                    'test': pick(test_kind, test, code),
                    'goal': pick(goal_kind, goal, goal_code),
                    'expected': should_be, 'actual': found,
                    'world': block.label, 'context': 'fast',
                }
                if key_of(violation) not in _known:
                    violations.append(violation)
            if not (i + j) % STOCK_STRIDE:
                stock_count += 1
                found = actual(function,
                               stock.build(test_kind,
                                           pick(test_kind, test, code)),
                               stock.build(goal_kind,
                                           pick(goal_kind, goal, goal_code)),
                               stock.context)
                if found != should_be:
                    violation = {
                        'function': block.function_name,
                        'test': pick(test_kind, test, code),
                        'goal': pick(goal_kind, goal, goal_code),
                        'expected': should_be, 'actual': found,
                        'world': block.label, 'context': 'stock',
                    }
                    if key_of(violation) not in _known:
                        violations.append(violation)
        memo.clear()
        if len(cache) > 200_000:
            cache.clear()
        if violations:
            break
    violations.sort(key=lambda v: weight(v['test']) + weight(v['goal']))
    return block_index, count, stock_count, outcomes, violations[:3]


_context = None


def _fast_context():
    global _context
    if _context is None:
        _context = FastContext()
    return _context


def key_of(violation):
    return json.dumps([violation['function'], plain(violation['test']),
                       plain(violation['goal'])])


def plain(value):
    """JSON-friendly form."""
    if isinstance(value, (tuple, list)):
        return [plain(item) for item in value]
    elif isinstance(value, (int, str, bool)) or value is None:
        return value
    elif isinstance(value, dict):
        return {str(key): plain(item) for key, item in value.items()}
    else:
        return str(value)


def run_tasks(function, tasks, on_result):
    """
    Runs tasks in processes; stops when ``on_result`` returns true value.
    """
    if PROCESSES == 1:
        for task in tasks:
            if on_result(function(task)):
                return
        return
    pool = get_mp_context('fork').Pool(PROCESSES)
    try:
        for result in pool.imap_unordered(function, tasks):
            if on_result(result):
                break
    finally:
        pool.terminate()
        pool.join()


def explore(blocks, chunk=3_000, known=frozenset()):
    """Compares the implementation with the model on all pairs of blocks."""
    global _blocks, _known
    started = time.time()
    _blocks, _known = blocks, known
    for block in blocks:
        block.prepare()
    tasks = []
    for index, block in enumerate(blocks):
        # shapes with lots of vertices take more time
        heaviness = 1 if block.present is None else 10
        step = max(1, chunk // heaviness // max(1, len(block.tests)))
        for low in range(0, len(block.goals), step):
            tasks.append((index, low, min(low + step, len(block.goals)),
                          SEED))
    # simplest shapes go first
    tasks.sort(key=lambda task: task[1] / max(1, len(blocks[task[0]].goals)))
    counts, outcomes = Counter(), {}
    violations = []
    total = stock_total = 0

    def on_result(result):
        nonlocal total, stock_total
        index, count, stock_count, block_outcomes, block_violations = result
        counts[index] += count
        total += count + stock_count
        stock_total += stock_count
        outcomes.setdefault(blocks[index].function_name,
                            Counter()).update(block_outcomes)
        violations.extend(block_violations)
        return violations

    run_tasks(_run_chunk, tasks, on_result)
    complete = (not violations
                and all(counts[i] == block.size
                        for i, block in enumerate(blocks)))
    return {
        'states': sum(block.states() for block in blocks),
        'transitions': sum(counts.values()),
        'traces': total,
        'stock_traces': stock_total,
        'outcomes': {name: dict(counter)
                     for name, counter in sorted(outcomes.items())},
        'scopes': [f'{block}' for block in blocks],
        'violations': violations,
        'complete': complete,
        'seconds': time.time() - started,
    }


_evaluate = _jobs = None


def _run_jobs(bounds):
    low, high = bounds
    totals, outcomes, violations = Counter(), Counter(), []
    for job in _jobs[low:high]:
        _evaluate(job, totals, outcomes, violations)
        if violations:
            break
    return low, high, totals, outcomes, violations[:3]


def explore_jobs(jobs, evaluate, chunk=None):
    """
    Runs ``evaluate(job, totals, outcomes, violations)`` for all the jobs.
    """
    global _evaluate, _jobs
    _evaluate, _jobs = evaluate, jobs
    chunk = chunk or max(1, min(200, len(jobs) // (PROCESSES * 16)))
    tasks = [(low, min(low + chunk, len(jobs)))
             for low in range(0, len(jobs), chunk)]
    totals, outcomes, violations = Counter(), Counter(), []
    done = 0

    def on_result(result):
        nonlocal done
        low, high, part_totals, part_outcomes, part_violations = result
        totals.update(part_totals)
        outcomes.update(part_outcomes)
        violations.extend(part_violations)
        done += high - low
        return violations

    run_tasks(_run_jobs, tasks, on_result)
    violations.sort(key=lambda v: weight((v.get('test', ()),
                                          v.get('goal', ()))))
    return {'totals': totals, 'outcomes': outcomes, 'violations': violations,
            'complete': not violations and done == len(jobs)}
