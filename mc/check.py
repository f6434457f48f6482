"""Runs the check of a property: ``check.py C01 [quick|thorough]``."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

EXACT = {
    'C01': 'points_in_linear',
    'C02': 'points_in_shaped',
    'C03': 'segment_to_linear',
    'C04': 'multisegment_to_linear',
    'C05': 'contour_to_contour',
    'C06': 'segment_to_shaped',
    'C07': 'multisegment_to_shaped',
    'C08': 'contour_to_shaped',
    'C09': 'regions',
    'C10': 'multiregions',
    'C11': 'in_polygon',
    'C12': 'in_multipolygon',
}
OTHERS = {
    'C13': 'check_agreement',
    'C14': 'check_writing',
    'C15': 'check_coordinates',
    'C16': 'check_history',
    'C17': 'check_faults',
    'C18': 'check_schedules',
    'C19': 'check_context',
    'C20': 'check_work',
}
ASSUMPTIONS = (
    'inputs are valid geometries as documented by ground: simple contours '
    'without redundant vertices, segments of a multisegment do not cross or '
    'overlap, parts of multi-geometries and holes share nothing but points, '
    'interior of a polygon is connected',
    'the arrangement model (mc/model.py) is trusted as the definition of '
    'answers, it shares no code with orient or ground',
    'most calls go through an exact context that memoizes orientations and '
    'intersections; every 64th one is repeated with the stock context',
)


def exact(property_, thorough):
    started = time.time()
    import checks_exact
    import engine
    import report
    blocks = list(getattr(checks_exact, EXACT[property_])(thorough))
    result = engine.explore(blocks, known=report.known_keys(property_))
    samples = []
    for block in blocks[:: max(1, len(blocks) // 5)]:
        i, j = len(block.tests) // 2, len(block.goals) * 2 // 3
        samples.append({
            'function': block.function_name,
            'test': engine.plain(block.tests[i]),
            'goal': engine.plain(block.goals[j]),
            'answer': engine.expected(block.world, block.test_kind,
                                      block.test_masks[i], block.goal_kind,
                                      block.goal_masks[j])})
    coverage = {
        'states': result['states'],
        'transitions': result['transitions'],
        'traces_validated_against_impl': result['traces'],
        'repeated_with_stock_context': result['stock_traces'],
        'exhaustive': result['complete'],
        'explanation': 'state: pair of point sets (test, goal) of the model; '
                       'transition: query evaluated in the state; every one '
                       'is replayed against the implementation',
        'scopes': result['scopes'],
        'outcomes': result['outcomes'],
        'samples': samples,
    }
    report.finish(property_, 'model_checking', coverage,
                  result['violations'], started, ASSUMPTIONS)


def main():
    property_ = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    thorough = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    if property_ in EXACT:
        exact(property_, thorough)
    else:
        __import__(OTHERS[property_]).main(property_, thorough)


if __name__ == '__main__':
    main()
