"""Registry of contract units (shared by the symbolic and the concrete back
end; contract files import nothing else)."""
import importlib
import os
import sys

UNITS = []


class Unit:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts
        self.id = prop + '.' + name


def unit(*props, name=None, **opts):
    """Declare a contract unit that decides (part of) the listed properties."""
    def deco(f):
        UNITS.append(Unit(props[0], name or f.__name__, f, dict(opts, props=props)))
        return f
    return deco


def load_all():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    if d not in sys.path:
        sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module(f[:-3])
    return UNITS


def units_of(prop):
    return [u for u in load_all() if prop in u.opts['props']]
