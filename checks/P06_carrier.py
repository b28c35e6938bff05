"""P06: field powers and mirror forces of any layout equal the plane-wave solution."""
from vlib import netlist, optnet, optcheck
from vlib.harness import Family

PROPERTY = 'P06'
RULE = ('seeded random layouts (mirrors, beamsplitters, spaces with microscopic tuning, polarisation, second '
        'harmonic, circulators, RF phase/amplitude modulation up to third order, two lasers incl. lasers offset '
        'by an RF frequency; scalar and swept parameters); every photodiode and mirror-force readout is compared '
        'with an independent dense solution of the travelling-wave equations written from the documented '
        'element definitions. Non-trivial: at least one readout compared.')
ASSUMPTIONS = ['layouts whose coupling matrix has condition (1-norm) above 1e6 are out of domain',
               'the sideband grid is truncated at the order that the simulation declares',
               'force readout follows the shipped amplitude law (KNOWN_FINDINGS K-force-law)']
REQUIRED = {'mon:dc_power': 300, 'mon:mirror_force': 50}


def gen_plain(rng):
    return optnet.gen(rng, ac=False, noise=False, rp=False, max_el=rng.choice([4, 7, 10]), backscatter=rng.chance(.3))


def gen_rf(rng):
    return optnet.gen(rng, ac=False, noise=False, rp=False, rf=True, max_el=rng.choice([3, 5, 7]))


def gen_sweep(rng):
    return optnet.gen(rng, ac=False, noise=False, rp=False, sweep=True, max_el=6)


def run(spec, mon):
    optcheck.run_against_model(spec, mon, ('dc', 'force'), ac=False)


FAMILIES = {
    'static': Family(gen_plain, run, quick=260, thorough=4000, timeout=30),
    'modulated': Family(gen_rf, run, quick=140, thorough=1500, timeout=30),
    'swept': Family(gen_sweep, run, quick=100, thorough=1500, timeout=30),
}
