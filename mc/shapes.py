"""Exhaustive enumeration of valid geometries over the sites of a world."""
from itertools import combinations

from model import on_segment, orient


def segments(world):
    return list(combinations(world.sites, 2))


def segments_conflict(first, second):
    """Do the segments cross or overlap (touching is fine)?"""
    (a, b), (c, d) = first, second
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    if o1 == o2 == 0:
        first, second = sorted(first), sorted(second)
        return max(first[0], second[0]) < min(first[1], second[1])
    return False


def multisegments(world, size):
    """All sets of ``size`` segments which do not cross or overlap."""
    items = segments(world)
    bad = [sum(1 << j for j, other in enumerate(items)
               if segments_conflict(item, other) and other != item)
           for item in items]
    result = []

    def extend(chosen, start, banned):
        if len(chosen) == size:
            result.append(tuple(items[i] for i in chosen))
            return
        for i in range(start, len(items)):
            if not banned >> i & 1:
                chosen.append(i)
                extend(chosen, i + 1, banned | bad[i])
                chosen.pop()

    extend([], 0, 0)
    return result


def contours(world, max_size, min_size=3):
    """
    All simple closed polylines without redundant vertices,
    each one once: starts from the lowest vertex, counterclockwise.
    """
    sites = world.sites
    result = []

    def touches(p, q, path):
        # does edge (p, q) meet the path anywhere besides its last point p
        for a, b in zip(path[:-1], path[1:]):
            if b == p:
                if on_segment(p, q, a) or on_segment(a, p, q):
                    return True
            elif _meet(p, q, a, b):
                return True
        return False

    def closes(path):
        first, last = path[0], path[-1]
        if (not orient(path[-2], last, first)
                or not orient(last, first, path[1])):
            return False
        for i in range(1, len(path) - 2):
            if _meet(last, first, path[i], path[i + 1]):
                return False
        return True

    def extend(path):
        if len(path) >= min_size and len(path) >= 3 and closes(path):
            if _area(path) > 0:
                result.append(tuple(path))
        if len(path) == max_size:
            return
        for site in sites:
            if site <= path[0] or site in path:
                continue
            if len(path) > 1 and not orient(path[-2], path[-1], site):
                continue
            if touches(path[-1], site, path):
                continue
            path.append(site)
            extend(path)
            path.pop()

    for site in sites:
        extend([site])
    return result


def _area(path):
    return sum(path[i - 1][0] * path[i][1] - path[i][0] * path[i - 1][1]
               for i in range(len(path)))


def _meet(p, q, a, b):
    o1, o2 = orient(p, q, a), orient(p, q, b)
    o3, o4 = orient(a, b, p), orient(a, b, q)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return (on_segment(p, q, a) or on_segment(p, q, b)
            or on_segment(a, b, p) or on_segment(a, b, q))


def multiregions(world, regions, size):
    """All sets of regions with disjoint interiors sharing no edges."""
    masks = [world.region(r) for r in regions]
    edges = world.edges_mask
    ok = []
    for i, (inner, boundary) in enumerate(masks):
        bits = 0
        for j in range(i + 1, len(masks)):
            oi, ob = masks[j]
            if (not inner & oi and not (inner & ob) and not (boundary & oi)
                    and not boundary & ob & edges):
                bits |= 1 << j
        ok.append(bits)
    result = []

    def extend(chosen, allowed):
        if len(chosen) == size:
            result.append(tuple(regions[i] for i in chosen))
            return
        bits = allowed
        while bits:
            low = bits & -bits
            bits ^= low
            i = low.bit_length() - 1
            chosen.append(i)
            extend(chosen, allowed & ok[i] & -(low << 1))
            chosen.pop()

    extend([], (1 << len(regions)) - 1)
    return result


def is_connected(world, inner):
    """Is the union of open cells connected?"""
    faces_edges = inner & ~world.vertices_mask
    if not faces_edges:
        return True
    adjacency = world.edge_faces()
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    bits = faces_edges & ~world.edges_mask
    while bits:
        low = bits & -bits
        bits ^= low
        parent[low] = low
    count = len(parent)
    bits = faces_edges & world.edges_mask
    while bits:
        low = bits & -bits
        bits ^= low
        first, second = (find(face) for face in adjacency[low])
        if first != second:
            parent[first] = second
            count -= 1
    return count == 1


def polygons(world, regions, holes_count, connected=True):
    """All polygons with given number of holes."""
    masks = {r: world.region(r) for r in regions}
    edges = world.edges_mask
    candidates = (multiregions(world, regions, holes_count)
                  if holes_count > 1
                  else [(r,) for r in regions])
    unions = []
    for holes in candidates:
        inner = boundary = 0
        for hole in holes:
            i, b = masks[hole]
            inner |= i
            boundary |= b
        unions.append((holes, inner, boundary))
    result = []
    for border in regions:
        bi, bb = masks[border]
        for holes, hi, hb in unions:
            if hi & ~bi or hb & ~(bi | bb) or hb & bb & edges:
                continue
            if connected and hb.bit_count() and not is_connected(
                    world, bi & ~(hi | hb)):
                continue
            result.append((border, holes))
    return result


def multipolygons(world, polygons_, size):
    masks = [world.polygon(*p) for p in polygons_]
    edges = world.edges_mask
    ok = []
    for i, (inner, boundary) in enumerate(masks):
        bits = 0
        for j in range(i + 1, len(masks)):
            oi, ob = masks[j]
            if (not inner & oi and not (inner & ob) and not (boundary & oi)
                    and not boundary & ob & edges):
                bits |= 1 << j
        ok.append(bits)
    result = []

    def extend(chosen, allowed):
        if len(chosen) == size:
            result.append(tuple(polygons_[i] for i in chosen))
            return
        bits = allowed
        while bits:
            low = bits & -bits
            bits ^= low
            i = low.bit_length() - 1
            chosen.append(i)
            extend(chosen, allowed & ok[i] & -(low << 1))
            chosen.pop()

    extend([], (1 << len(polygons_)) - 1)
    return result
