"""All the ways to write the same shape down."""
from itertools import permutations


def segment_variants(s):
    return [s, s[::-1]]


def contour_variants(c):
    result = []
    for vertices in (tuple(c), tuple(c[::-1])):
        for i in range(len(vertices)):
            result.append(vertices[i:] + vertices[:i])
    return result


def pick(kind, shape, code):
    """Variant of the shape with given number (any natural one)."""
    if kind == 'point':
        return shape
    elif kind == 'segment':
        return shape[::-1] if code & 1 else shape
    elif kind in ('contour', 'region'):
        size = len(shape)
        i = (code >> 1) % size
        vertices = shape[i:] + shape[:i]
        return vertices[::-1] if code & 1 else vertices
    elif kind == 'polygon':
        border, holes = shape
        return (pick('contour', border, code),
                _pick_many('contour', holes, code // 3))
    else:
        return _pick_many({'multisegment': 'segment',
                           'multiregion': 'region',
                           'multipolygon': 'polygon'}[kind], shape, code)


def _pick_many(kind, shapes, code):
    size = len(shapes)
    if not size:
        return shapes
    shapes = [pick(kind, shape, code + 5 * index + (code >> index))
              for index, shape in enumerate(shapes)]
    if size < 4:
        orders = list(permutations(range(size)))
        order = orders[(code >> 2) % len(orders)]
        return tuple([shapes[i] for i in order])
    offset = (code >> 2) % size
    shapes = shapes[offset:] + shapes[:offset]
    return tuple(shapes[::-1] if code & 2 else shapes)


def everything(kind, shape, limit=None):
    """All variants of the shape, orders of parts included."""
    if kind == 'point':
        result = [shape]
    elif kind == 'segment':
        result = segment_variants(shape)
    elif kind in ('contour', 'region'):
        result = contour_variants(shape)
    elif kind == 'polygon':
        border, holes = shape
        result = [(b, h)
                  for b in contour_variants(border)
                  for h in _everything_many('contour', holes)]
    else:
        result = _everything_many({'multisegment': 'segment',
                                   'multiregion': 'region',
                                   'multipolygon': 'polygon'}[kind], shape)
    return result[:limit]


def _everything_many(kind, shapes):
    options = [everything(kind, shape) for shape in shapes]
    result = []
    for order in permutations(range(len(shapes))):
        chosen = [()]
        for index in order:
            chosen = [head + (option,)
                      for head in chosen
                      for option in options[index]]
        result += chosen
    return result
