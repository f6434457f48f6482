"""
Checks the model against itself (the system under test is not involved):
geometry made of a set of faces covers exactly these faces,
and textbook arrangements get textbook names.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from families import brick, grid22, jack2, medial2, nest3, square4  # noqa
from model import World, complement  # noqa
from scaling import scaled_world  # noqa
from families import _scaled_subdivision  # noqa


def subdivisions():
    for make in (square4, grid22, jack2, nest3, medial2, brick):
        subdivision = make()
        world, factor = scaled_world(tuple(subdivision.vertices),
                                     subdivision.name,
                                     tuple(subdivision.segments()))
        subdivision = _scaled_subdivision(subdivision, factor)
        faces = [world.multipolygon(subdivision.multipolygon(1 << index))
                 for index in range(len(subdivision.faces))]
        for subset in range(1, 1 << len(faces)):
            closure = 0
            for index, (inner, boundary) in enumerate(faces):
                if subset >> index & 1:
                    closure |= inner | boundary
            inner, boundary = world.multipolygon(
                subdivision.multipolygon(subset))
            assert inner | boundary == closure, (make.__name__, subset)
            assert not inner & boundary


def textbook():
    sites = tuple((x, y) for x in range(5) for y in range(5))
    axes = ([((x, 0), (x, 4)) for x in range(5)]
            + [((0, y), (4, y)) for y in range(5)]
            + [((0, 0), (4, 4)), ((0, 4), (4, 0))])
    world = World(sites, 'textbook', axes)

    def box(x, y, size):
        return ((x, y), (x + size, y), (x + size, y + size), (x, y + size))

    def shaped(first, second):
        first, second = world.region(first), world.region(second)
        answer = world.relate_shaped(first, second)
        assert world.relate_shaped(second, first) == complement(answer)
        return answer

    big, small = box(0, 0, 4), box(1, 1, 2)
    assert shaped(small, big) == 'WITHIN'
    assert shaped(box(0, 0, 2), big) == 'ENCLOSED'
    assert shaped(big, big) == 'EQUAL'
    assert shaped(box(0, 0, 2), small) == 'OVERLAP'
    assert shaped(box(0, 0, 2), box(2, 2, 2)) == 'TOUCH'
    assert shaped(box(0, 0, 1), box(2, 2, 2)) == 'DISJOINT'
    frame = world.polygon(big, (small,))
    assert world.relate_shaped(world.region(small), frame) == 'TOUCH'
    assert world.locate(world.vertex_bit[2, 2], *frame) == 'EXTERIOR'
    assert world.locate(world.vertex_bit[1, 2], *frame) == 'BOUNDARY'

    def linear(first, second):
        return world.relate_linear(world.multisegment(first),
                                   world.multisegment(second))

    assert linear([((0, 0), (4, 4))], [((0, 4), (4, 0))]) == 'CROSS'
    assert linear([((0, 0), (2, 2))], [((0, 4), (4, 0))]) == 'TOUCH'
    assert linear([((0, 0), (2, 2)), ((2, 2), (4, 4))],
                  [((0, 4), (2, 2)), ((2, 2), (4, 0))]) == 'CROSS'
    assert linear([((0, 0), (2, 0))], [((1, 0), (3, 0))]) == 'OVERLAP'
    assert linear([((1, 0), (2, 0))], [((0, 0), (3, 0))]) == 'COMPONENT'
    assert world.relate_linear_to_shaped(world.segment((0, 0), (4, 4)),
                                         world.region(small)) == 'CROSS'
    assert world.relate_linear_to_shaped(world.segment((1, 1), (3, 1)),
                                         world.region(small)) == 'COMPONENT'
    assert world.relate_linear_to_shaped(world.segment((1, 1), (2, 2)),
                                         world.region(small)) == 'ENCLOSED'


if __name__ == '__main__':
    subdivisions()
    textbook()
    print('model is consistent')
