"""Evidence files, violation artefacts, exit codes."""
import json
import os
import sys
import time

from engine import ROOT, SEED, key_of, plain

TIER = os.environ.get('VERIF_TIER', 'quick')
KNOWN_PATH = os.path.join(ROOT, 'known_findings.json')


def known_findings(property_):
    with open(KNOWN_PATH) as file:
        entries = json.load(file)
    return [entry for entry in entries['known']
            if entry['property'] == property_]


def known_keys(property_):
    return frozenset(key_of(entry) for entry in known_findings(property_)
                     if 'function' in entry)


REPLAY = '''"""
Replays violation of property {property}: {summary}

Run: /opt/venv/bin/python {name}  (exit code 1: violation is reproduced)
"""
import sys
from fractions import Fraction  # noqa

sys.path.insert(0, {repo!r})
from ground.base import get_context
from orient import planar

context = get_context()
P = context.point_cls


def build(kind, shape):
    if kind == 'point':
        return P(*shape)
    elif kind == 'segment':
        return context.segment_cls(P(*shape[0]), P(*shape[1]))
    elif kind in ('contour', 'region'):
        return context.contour_cls([P(*v) for v in shape])
    elif kind == 'multisegment':
        return context.multisegment_cls([build('segment', s) for s in shape])
    elif kind == 'multiregion':
        return [build('region', r) for r in shape]
    elif kind == 'polygon':
        return context.polygon_cls(build('contour', shape[0]),
                                   [build('contour', h) for h in shape[1]])
    else:
        return context.multipolygon_cls([build('polygon', p) for p in shape])


test = build({test_kind!r}, {test!r})
goal = build({goal_kind!r}, {goal!r})
found = planar.{function}(test, goal).name
print('expected', {expected!r}, 'found', found)
sys.exit(found != {expected!r})
'''


def write_violation(property_, violation, index=0):
    directory = os.path.join(ROOT, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f'{property_}-{index}.json')
    with open(path, 'w') as file:
        json.dump({'property': property_, **plain(violation)}, file, indent=1)
        file.write('\n')
    if {'test', 'goal', 'function'} <= violation.keys() and str(
            violation.get('expected')).isupper():
        test_kind, goal_kind = violation['function'].split('_in_')
        script = os.path.join(directory, f'{property_}-{index}.py')
        with open(script, 'w') as file:
            file.write(REPLAY.format(
                property=property_, name=os.path.basename(script),
                repo=os.environ.get('ORIENT_REPO', '/repo'),
                summary='{function}: expected {expected}, found {actual}'
                .format(**violation),
                test_kind=test_kind, goal_kind=goal_kind,
                test=violation['test'], goal=violation['goal'],
                function=violation['function'],
                expected=violation['expected']))
    return path


def finish(property_, level, coverage, violations, started, assumptions=()):
    """Writes evidence, prints verdict and exits."""
    for entry in known_findings(property_):
        print(f'KNOWN-FINDING: property={property_} {entry["what"]}')
    directory = os.path.join(ROOT, 'evidence')
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, f'{property_}.json'), 'w') as file:
        json.dump({'property': property_, 'tier': TIER, 'seed': SEED,
                   'level': level, 'coverage': coverage,
                   'assumptions': list(assumptions),
                   'wall_s': round(time.time() - started, 3),
                   'violations': len(violations)}, file, indent=1)
        file.write('\n')
    for index, violation in enumerate(violations[:5]):
        path = write_violation(property_, violation, index)
        print(json.dumps(plain(violation))[:2000])
        print(f'VIOLATION property={property_} replay={path}')
    if not violations:
        print(f'{property_}: held on everything explored '
              f'({time.time() - started:.1f} s)')
    sys.stdout.flush()
    sys.exit(1 if violations else 0)
