"""
Big inputs: the answer does not change when the same picture gets more and
more pieces, and the amount of work stays within documented bounds
(linear or linearithmic).
"""
import sys
import time
from math import log2

import bind
import engine
import report
from bind import Builder, PAIRS, planar
from model import World
from probe import Probe

MONITOR = 3
LINEAR_TIME = frozenset((
    'point_in_multisegment', 'segment_in_multisegment', 'point_in_contour',
    'segment_in_contour', 'point_in_region',
    'point_in_multiregion', 'point_in_polygon', 'point_in_multipolygon'))
CONSTANT_TIME = frozenset(('point_in_segment', 'segment_in_segment'))


class Counter:
    """Comparisons, requests to the context, visits of lines."""
    value = 0
    coordinates = 0
    requests = 0
    lines = {}


class Coordinate(int):
    """Counts comparisons: also those made by builtins and by the context."""
    __slots__ = ()

    def __eq__(self, other):
        Counter.coordinates += 1
        return int.__eq__(self, other)

    def __ne__(self, other):
        Counter.coordinates += 1
        return int.__ne__(self, other)

    def __lt__(self, other):
        Counter.coordinates += 1
        return int.__lt__(self, other)

    def __le__(self, other):
        Counter.coordinates += 1
        return int.__le__(self, other)

    def __gt__(self, other):
        Counter.coordinates += 1
        return int.__gt__(self, other)

    def __ge__(self, other):
        Counter.coordinates += 1
        return int.__ge__(self, other)

    __hash__ = int.__hash__


class Point:
    """Counts comparisons."""
    __slots__ = 'x', 'y'

    def __init__(self, x, y):
        self.x, self.y = x, y

    def __getitem__(self, index):
        return self.y if index else self.x

    def __eq__(self, other):
        Counter.value += 1
        return self.x == other.x and self.y == other.y

    def __lt__(self, other):
        Counter.value += 1
        return (self.x, self.y) < (other.x, other.y)

    def __le__(self, other):
        Counter.value += 1
        return (self.x, self.y) <= (other.x, other.y)

    def __gt__(self, other):
        Counter.value += 1
        return (self.x, self.y) > (other.x, other.y)

    def __ge__(self, other):
        Counter.value += 1
        return (self.x, self.y) >= (other.x, other.y)

    def __hash__(self):
        Counter.value += 1
        return hash((self.x, self.y))

    def __repr__(self):
        return f'Point({self.x}, {self.y})'


# pictures


def square(i, level, raised=0):
    x, size = 10 * i + level, 8 - 2 * level
    y = level + raised
    return (x, y), (x + size, y), (x + size, y + size), (x, y + size)


def comb(n, level, dx=0, dy=0):
    """Region with teeth."""
    result = [(-2 + level, -level), (-2 + level, -4 + level),
              (10 * n - level, -4 + level), (10 * n - level, -level)]
    for i in reversed(range(n)):
        result += [(10 * i + 8 - level, -level), (10 * i + 8 - level,
                                                  8 - level),
                   (10 * i + level, 8 - level), (10 * i + level, -level)]
    return tuple((x + dx, y + dy) for x, y in result)


def plate(n, margin=2):
    return ((-margin, -margin), (10 * n - 2 + margin, -margin),
            (10 * n - 2 + margin, 8 + margin), (-margin, 8 + margin))


def row(n, level, raised=0):
    return tuple(square(i, level, raised) for i in range(n))


def contours(n):
    yield 'comb', comb(n, 0)
    yield 'inner comb', comb(n, 1)
    yield 'shifted comb', comb(n, 0, 3)
    yield 'lowered comb', comb(n, 0, 0, -14)
    yield 'plate', plate(n)
    yield 'last square', square(n - 1, 1)
    yield 'first square', square(0, 0)


def multiregions(n):
    yield 'big squares', row(n, 0)
    yield 'small squares', row(n, 2)
    yield 'raised squares', row(n, 0, 3)
    yield 'adjacent squares', row(n, 0, 8)
    yield 'big and one small', row(n - 1, 0) + (square(n - 1, 1),)


def holed(n):
    yield 'grille', (plate(n), row(n, 0))
    yield 'thin grille', (plate(n), row(n, 2))
    yield 'raised grille', (plate(n, 4), row(n, 0, 3))
    yield 'grille without one', (plate(n), row(n - 1, 0))


def polygons(n):
    yield from ((name, (c, ())) for name, c in contours(n))
    yield from holed(n)


def multipolygons(n):
    yield from ((name, tuple((c, ()) for c in m))
                for name, m in multiregions(n))
    yield 'frames', tuple((square(i, 0), (square(i, 2),)) for i in range(n))
    yield 'thin frames', tuple((square(i, 0), (square(i, 1),))
                               for i in range(n))
    yield 'frames with cores', tuple(
        p for i in range(n)
        for p in ((square(i, 0), (square(i, 2),)), (square(i, 3), ())))
    yield 'grille with cores', ((plate(n), row(n, 0)),) + tuple(
        (square(i, 1), ()) for i in range(n))


def segments(n):
    yield 'through', ((-5, 4), (10 * n + 5, 4))
    yield 'along', ((0, 0), (10 * n - 2, 0))
    yield 'last', ((10 * n - 8, 4), (10 * n - 4, 4))
    yield 'side', ((0, 0), (0, 8))


def multisegments(n):
    yield 'sticks', tuple(((10 * i + 4, 1), (10 * i + 4, 7))
                          for i in range(n))
    yield 'long sticks', tuple(((10 * i + 4, -5), (10 * i + 4, 12))
                               for i in range(n))
    yield 'sides', tuple(((10 * i, 0), (10 * i, 8)) for i in range(n))
    yield 'floors', tuple(((10 * i + 2, 2), (10 * i + 6, 2))
                          for i in range(n))
    yield 'chain', tuple(((10 * i, 4), (10 * i + 10, 4)) for i in range(n))
    yield 'gaps', tuple(((10 * i + 8, 4), (10 * i + 10, 4))
                        for i in range(n))


def points(n):
    yield 'center', (10 * n - 6, 4)
    yield 'corner', (10 * n - 10, 0)
    yield 'gap', (10 * n - 11, 4)
    yield 'far', (10 * n + 30, 4)


PICTURES = {'point': points, 'segment': segments,
            'multisegment': multisegments, 'contour': contours,
            'region': contours, 'multiregion': multiregions,
            'polygon': polygons, 'multipolygon': multipolygons}


def edges(kind, shape):
    if kind == 'point':
        return []
    elif kind == 'segment':
        return [shape]
    elif kind in ('contour', 'region'):
        return [(shape[i - 1], shape[i]) for i in range(len(shape))]
    elif kind == 'polygon':
        return [edge for c in (shape[0],) + shape[1]
                for edge in edges('contour', c)]
    else:
        part = {'multisegment': 'segment', 'multiregion': 'region',
                'multipolygon': 'polygon'}[kind]
        return [edge for s in shape for edge in edges(part, s)]


def model_answers(n):
    """What the model says about all pairs of pictures with ``n`` pieces."""
    pictures = {kind: list(make(n)) for kind, make in PICTURES.items()}
    spans = {tuple(sorted(edge)) for kind, shapes in pictures.items()
             for _, shape in shapes for edge in edges(kind, shape)}
    # lines of the same direction are the same ones
    lines = {}
    for p, q in sorted(spans):
        key = ('x', p[0]) if p[0] == q[0] else ('y', p[1])
        lines.setdefault(key, (p, q))
    sites = {p for span in spans for p in span}
    sites |= {shape for _, shape in pictures['point']}
    world = World(tuple(sites), f'pieces{n}', tuple(lines.values()))
    result = {}
    masks = {(kind, name): bind.mask(world, kind, shape)
             for kind, shapes in pictures.items() if kind != 'point'
             for name, shape in shapes}
    for name, (x, y) in pictures['point']:
        masks['point', name] = world.point_bit.get((x, y))
    for test_kind, goal_kind in PAIRS:
        for test_name, test in pictures[test_kind]:
            for goal_name, goal in pictures[goal_kind]:
                if masks[test_kind, test_name] is None:
                    continue
                result[test_kind, test_name, goal_kind, goal_name] = (
                    bind.expected(world, test_kind,
                                  masks[test_kind, test_name], goal_kind,
                                  masks[goal_kind, goal_name]))
    return result


# measurements


def start():
    monitoring = sys.monitoring
    lines = Counter.lines = {}
    prefix = bind.REPO + '/orient/'

    def on_line(code, line):
        if not code.co_filename.startswith(prefix):
            return monitoring.DISABLE
        key = code.co_name, code.co_filename, line
        try:
            lines[key] += 1
        except KeyError:
            lines[key] = 1

    monitoring.use_tool_id(MONITOR, 'work')
    monitoring.register_callback(MONITOR, monitoring.events.LINE, on_line)
    monitoring.set_events(MONITOR, monitoring.events.LINE)


def stop():
    sys.monitoring.set_events(MONITOR, 0)
    sys.monitoring.free_tool_id(MONITOR)


def work(function, test, goal, context):
    """The answer and how much of every kind of work it takes."""
    Counter.value = Counter.requests = Counter.coordinates = 0
    start()
    try:
        found = bind.actual(function, test, goal, context)
    finally:
        stop()
    result = {'visits of ' + place(*key): count
              for key, count in Counter.lines.items()}
    result['visits of all lines'] = sum(Counter.lines.values())
    result['comparisons of points'] = Counter.value
    result['comparisons of coordinates'] = Counter.coordinates
    result['requests to the context'] = Counter.requests
    return found, result


def place(function_name, path, line):
    return f'{path[len(bind.REPO) + 1:]}:{line}, {function_name}'


def observe(name):
    Counter.requests += 1


def bound(function_name, n):
    return (1 if function_name in CONSTANT_TIME
            else n if function_name in LINEAR_TIME
            else n * log2(n))


# slack: share of the growth that is not explained by the documented bound
SLACK = 2
# (visits of a single line also depend on the shape of the tree)
LINE_SLACK = 4
BASE = 8
FLOOR = 60
TOTALS = ('visits of all lines', 'comparisons of points',
          'comparisons of coordinates', 'requests to the context')
_contexts = {}


def context():
    if not _contexts:
        from ground.base import Context
        origin = Context(point_cls=Point)
        _contexts['it'] = Probe(origin, observe)
    return _contexts['it']


def swap(shape):
    """Columns instead of rows: everything is on the sweep line at once."""
    if not shape:
        return shape
    elif isinstance(shape[0], int):
        return shape[1], shape[0]
    return tuple(map(swap, shape))


def _to_coordinates(p):
    return Coordinate(p[0]), Coordinate(p[1])


_pictures = {}


def picture(kind, name, n, turned):
    key = kind, name, n, turned
    try:
        return _pictures[key]
    except KeyError:
        if len(_pictures) > 300:
            _pictures.clear()
        for other_name, shape in PICTURES[kind](n):
            if other_name == name:
                break
        else:
            raise ValueError(key)
        if turned:
            shape = swap(shape)
        result = _pictures[key] = Builder(context(), _to_coordinates).build(
            kind, shape)
        return result


def evaluate(job, totals, outcomes, violations):
    key, answer, sizes, turned = job
    test_kind, test_name, goal_kind, goal_name = key
    function = getattr(planar, f'{test_kind}_in_{goal_kind}')
    base = None
    for n in sizes:
        found, value = work(function,
                            picture(test_kind, test_name, n, turned),
                            picture(goal_kind, goal_name, n, turned),
                            context())
        totals['calls'] += 1
        totals['steps'] += sum(value[name] for name in TOTALS)
        violation = {'query': f'{function.__name__}: {test_name} in '
                              f'{goal_name}', 'pieces': n,
                     'turned': turned}
        if found != answer:
            violations.append({**violation, 'expected_outcome': answer,
                               'actual': found})
            return
        if base is None:
            base = value
            continue
        totals['compared'] += 1
        growth = (bound(function.__name__, n)
                  / bound(function.__name__, sizes[0]))
        largest = 0
        for name, count in value.items():
            # constant part is not of interest
            limit = (max(base.get(name, 0), FLOOR) * growth
                     * (SLACK if name in TOTALS else LINE_SLACK))
            largest = max(largest, count / limit)
            if count > limit:
                violations.append({
                    **violation, 'expected_outcome':
                        f'at most {limit:.0f} {name}',
                    'actual': f'{count} (against {base.get(name, 0)} for '
                              f'{sizes[0]} pieces)'})
                return
        outcomes[f'share of the limit {largest:.1f}'] += 1
        work_name = f'work {test_kind}_in_{goal_kind}'
        outcomes[work_name] = max(outcomes[work_name],
                                  sum(value[name] for name in TOTALS))


def main(property_, thorough):
    started = time.time()
    answers = model_answers(2)
    for key, answer in model_answers(3).items():
        if answers.get(key) != answer:
            answers.pop(key, None)
    sizes = (BASE, 16, 64, 256) if thorough else (BASE, 40)
    jobs = [(key, answer, sizes, turned)
            for key, answer in sorted(answers.items())
            for turned in (False, True)]
    # pairs which can not be answered soon
    slow = {}
    for key, answer in sorted(answers.items()):
        test_kind, test_name, goal_kind, goal_name = key
        if answer in ('TOUCH', 'WITHIN', 'COVER', 'EQUAL', 'ENCLOSED',
                      'DISJOINT', 'COMPONENT', 'EXTERIOR'):
            slow.setdefault((test_kind, goal_kind, answer), key)
    large = 1024 if thorough else 256
    jobs += [(key, answers[key], (BASE, large), turned)
             for key in slow.values() for turned in (False, True)]
    jobs.sort(key=lambda job: -job[2][-1])
    result = engine.explore_jobs(jobs, evaluate, chunk=1)
    totals, outcomes = result['totals'], result['outcomes']
    report.finish(property_, 'exploration', {
        'evaluations': totals['calls'],
        'distinct_nontrivial': totals['compared'],
        'steps': totals['steps'],
        'rule': 'all pairs of parametrized pictures as arguments of all the '
                'functions, in rows and in columns, for all of the sizes; '
                'steps are lines of the implementation, operations of the '
                'context, comparisons of points and of coordinates; non-trivial are those '
                'compared with the work for the smallest size; answers are '
                'those of the model for two and three pieces',
        'sizes': sizes, 'large': large, 'slack': SLACK,
        'slack_of_a_line': LINE_SLACK,
        'shares': {key: value for key, value in sorted(outcomes.items())
                   if key.startswith('share')},
        'exhaustive': result['complete'],
        'samples': [engine.plain(job)
                    for job in jobs[::len(jobs) // 8]],
    }, result['violations'], started,
        ('number of intersections in pictures is proportional to the number '
         'of pieces',))
