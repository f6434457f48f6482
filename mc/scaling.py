"""Worlds with integer coordinates of everything of interest."""
from fractions import Fraction
from math import lcm

from model import World


def scaled_world(sites, name, segments=None):
    """World scaled up so that all its arrangement vertices are integer."""
    world = World(sites, name, segments)
    factor = 1
    for x, y in world.vertices:
        factor = lcm(factor, Fraction(x).denominator, Fraction(y).denominator)
    if factor == 1:
        return world, 1

    def scale(p):
        return p[0] * factor, p[1] * factor

    return World([scale(p) for p in sites], name,
                 None if segments is None
                 else [(scale(p), scale(q)) for p, q in segments]), factor
