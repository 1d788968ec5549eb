"""Stand-ins for the parts of IceTray that the modules of ic3 use."""
import collections
import math
import sys
import types

import vlib

KINDS = {
    'cascade': ['Pi0', 'Gamma', 'PairProd', 'Brems', 'DeltaE', 'EMinus',
                'EPlus'],
    'vertex': ['Hadrons'],
    'neutrino': ['NuE', 'NuMu', 'NuTau', 'NuEBar', 'NuMuBar', 'NuTauBar'],
    'muon': ['MuMinus', 'MuPlus', 'TauMinus', 'unknown', 'PPlus'],
}

OMKey = collections.namedtuple('OMKey', 'string om')


class Position:
    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z

    @property
    def magnitude(self):
        return math.sqrt(self.x**2 + self.y**2 + self.z**2)

    r = magnitude


Direction = collections.namedtuple('Direction', 'zenith azimuth')
Double = collections.namedtuple('Double', 'value')


class I3Particle:
    InfiniteTrack = 'InfiniteTrack'

    def __init__(self, **kw):
        self.pos, self.dir = Position(0., 0., 0.), Direction(0., 0.)
        self.shape = None
        self.__dict__.update(kw)


for names in KINDS.values():
    for name in names:
        setattr(I3Particle, name, name)


class I3RecoPulse:
    def __init__(self):
        self.time = self.charge = self.width = self.flags = None


class Module:
    def __init__(self, context):
        self.context, self.pushed, self.parameters = context, [], {}

    def AddOutBox(self, name):
        pass

    def AddParameter(self, name, description, default=None):
        self.parameters[name] = default

    def GetParameter(self, name):
        return self.parameters[name]

    def PushFrame(self, frame, *args):
        self.pushed.append(frame)


class Tree:
    """A tree of particles: daughters in order of their number."""

    def __init__(self, particles, parent):
        self.particles, self.parent = particles, parent

    def get_primaries(self):
        return [p for p, m in zip(self.particles, self.parent) if m == 0]

    def get_daughters(self, particle):
        i = [p is particle for p in self.particles].index(True) + 1
        return [p for p, m in zip(self.particles, self.parent) if m == i]

    def __str__(self):
        return 'Tree'


def install():
    pkg = types.ModuleType('icecube')
    dc = types.ModuleType('icecube.dataclasses')
    it = types.ModuleType('icecube.icetray')
    dc.I3Particle, dc.I3RecoPulse = I3Particle, I3RecoPulse
    dc.I3Double, dc.I3Direction, dc.I3Position = Double, Direction, Position
    for name in ('I3RecoPulseSeriesMap', 'I3RecoPulseSeriesMapMask',
                 'I3RecoPulseSeriesMapUnion', 'I3MapStringDouble',
                 'I3MapKeyDouble'):
        setattr(dc, name, type(name, (dict,), {}))
    dc.I3RecoPulseSeries = type('I3RecoPulseSeries', (list,), {})
    it.OMKey, it.I3ConditionalModule, it.I3Module = OMKey, Module, Module
    pkg.dataclasses, pkg.icetray = dc, it
    sys.modules['icecube'] = pkg
    sys.modules['icecube.dataclasses'] = dc
    sys.modules['icecube.icetray'] = it


def use_manager(manager, loss_module=None):
    """The configurators of the ic3 modules return this manager."""
    import inspect
    calls = []
    from egenerator.utils import configurator
    real = getattr(configurator.ManagerConfigurator, 'real',
                   configurator.ManagerConfigurator)

    class Configurator:
        def __init__(self, *args, **kwargs):
            b = inspect.signature(real).bind(*args, **kwargs)
            b.apply_defaults()
            calls.append(dict(b.arguments))
            self.manager, self.loss_module = manager, loss_module
            self.config = {}
    Configurator.real = real
    configurator.ManagerConfigurator = Configurator
    from egenerator.ic3 import reconstruction, simulation
    for m in (reconstruction, simulation):
        if hasattr(m, 'ManagerConfigurator'):
            m.ManagerConfigurator = Configurator
    return calls


def module(cls, **parameters):
    m = cls('context')
    for k, v in parameters.items():
        if k not in m.parameters:
            raise vlib.MachineryError('no parameter %s' % k)
        m.parameters[k] = v
    return m
