"""C03 - see DESIGN.md."""
from checks import _kmc
from simkit import kgen

ID = 'C03'
FOCUS = 'FrequencyAnalysis'
RUNS = {'quick': 1600, 'thorough': 24000}
REAL, STUBS, ASSUMPTIONS = _kmc.REAL, _kmc.STUBS, _kmc.ASSUMPTIONS
PROBES, FAULTS, STATES = _kmc.PROBES, _kmc.FAULTS, _kmc.STATES
RULE = ('Random processes (fast, one-way, multi-site), lattice, analysis interval, buffer '
        'size, window, clock gaps and step count; the engine executes a seeded event '
        'history; a run is nontrivial if at least one step was executed.')
simpler = kgen.simpler


def gen(rng, i, tier):
    return _kmc.gen(rng, FOCUS, tier)


def nontrivial(res):
    return len(res['states']) > 0


def run(plan, sim, env):
    _kmc.run(plan, sim, env, FOCUS)
