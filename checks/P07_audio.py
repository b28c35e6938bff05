"""P07: the audio-frequency response of any layout is its linearised plane-wave response."""
from vlib import netlist, optnet, optcheck
from vlib.harness import Family

PROPERTY = 'P07'
RULE = ('seeded random layouts as for P06 with mirror displacement, mirror force (suspended mirrors, radiation '
        'pressure), phase and amplitude modulation drives; every drive to photodiode response at the audio '
        'frequency, scalar and swept, is compared with an independent dense model that carries upper and '
        'conjugated lower sidebands and the mirror motions jointly. Non-trivial: at least one response compared.')
ASSUMPTIONS = ['condition of the carrier system below 1e6',
               'radiation-pressure gain and driven-port impedance follow the shipped conventions '
               '(KNOWN_FINDINGS K-force-law, K-driven-port)']
REQUIRED = {'mon:ac_response': 300, 'ac responses well above tolerance': 30}


def gen_fixed(rng):
    return optnet.gen(rng, ac=True, noise=False, rp=False, max_el=rng.choice([4, 6, 8]), backscatter=rng.chance(.3))


def gen_rp(rng):
    return optnet.gen(rng, ac=True, noise=False, rp=True, max_el=rng.choice([4, 6, 8]))


def gen_sweep(rng):
    return optnet.gen(rng, ac=True, noise=False, sweep=True, rf=False, max_el=6)


def run(spec, mon):
    optcheck.run_against_model(spec, mon, ('ac',))


FAMILIES = {
    'fixed': Family(gen_fixed, run, quick=150, thorough=2200, timeout=30),
    'suspended': Family(gen_rp, run, quick=110, thorough=1500, timeout=30),
    'swept': Family(gen_sweep, run, quick=80, thorough=1200, timeout=30),
}
