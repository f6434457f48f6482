"""Context that reports every request of the implementation."""
from ground.base import Context

from bind import FastContext

_get = object.__getattribute__


class Probe(Context):
    """
    Stands for the context: ``observe(name)`` is called before every
    operation asked by the implementation.
    """

    def __init__(self, origin, observe):
        self._probe = origin, observe, {}

    def __getattribute__(self, name):
        if name.startswith('__') or name == '_probe':
            return _get(self, name)
        origin, observe, cache = _get(self, '_probe')
        try:
            return cache[name]
        except KeyError:
            pass
        value = getattr(origin, name)
        if callable(value) and not isinstance(value, type):
            operation = value

            def value(*args, **kwargs):
                observe(name)
                return operation(*args, **kwargs)
        cache[name] = value
        return value


class Poison(Exception):
    pass


class Poisoned(Context):
    """No one should touch it."""

    def __init__(self):
        pass

    def __getattribute__(self, name):
        if name.startswith('__'):
            return _get(self, name)
        raise Poison(name)

    def __repr__(self):
        return 'poisoned context'


ORIGIN = FastContext()
