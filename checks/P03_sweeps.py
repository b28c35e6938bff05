"""P03: a swept simulation is the stack of the scalar simulations."""
import numpy as np

from vlib import nets, netlist
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise

PROPERTY = 'P03'
RULE = ('seeded random optics / opto-mechanics / electronics / mechanics / signal systems in which audio frequency and element '
        'parameters of every kind of element are arrays (values vanishing at some points included; one axis, or two axes broadcast against each other, single-element axes included); every DC value, '
        'response and spectrum of the swept simulation is compared, point by point, with a scalar simulation at that point. '
        'Non-trivial: at least one value compared.')
ASSUMPTIONS = ['agreement to 1e-6 of the natural scale of each value (independent models of vlib)',
               'networks without a well conditioned solution at some point are out of domain']
REQUIRED = {'mon:point': 800, 'mon:grid_point': 300, 'mon:shape': 300, 'values that vary over the sweep': 60}


def ref(s, spec):
    r = nets.Ref(dict(s, domain=spec['domain']))
    return dict((k, r(k)) for k in nets.observations(spec))


def shape_ok(mon, v, n, key):
    # constants may come back without the swept axis
    try:
        np.broadcast_to(v, n)
        ok = True
    except ValueError:
        ok = False
    return mon.check('shape', ok, '{0}: {1} for sweep {2}'.format(key, np.shape(v), n))


def gen_line(rng):
    spec = nets.gen_any(rng, sweep=True)
    return nets.widen(spec, rng) if spec.get('nsweep') and rng.chance(.7) else spec


def run_line(spec, mon):
    pts = pointwise(spec)
    sc = [ref(s, spec) for s in pts]
    got = netlist.build(spec).observe()
    mon.event('domain ' + spec['domain'])
    for a in spec.get('widened', []):
        mon.event('swept ' + a)
    mon.event('sweep points', len(pts))
    one = [netlist.build(s).observe() for s in pts]
    for key in nets.observations(spec):
        if key not in got and all(key not in o for o in one):
            continue
        if not shape_ok(mon, got[key], (len(pts),), key):
            continue
        v = np.broadcast_to(got[key], (len(pts),))
        for i, o in enumerate(one):
            mon.close('point', v[i], o[key], rtol=1e-6, scale=sc[i][key][1], key=(key, i))
        if abs(sc[0][key][0] - sc[-1][key][0]) > 1e-3 * sc[0][key][1]:
            mon.event('values that vary over the sweep')


def gen_grid(rng):
    spec = nets.gen_any(rng, sweep=True, small=True)
    while not spec.get('nsweep'):
        spec = nets.gen_any(rng, sweep=True, small=True)
    return netlist.grid(nets.widen(spec, rng) if rng.chance(.5) else spec, rng)


def run_grid(spec, mon):
    n = spec['nsweep']
    idx = sorted(set([(0, 0), (n - 1, 0), (0, n - 1), (n - 1, n // 2)]))
    pts = [dict(netlist.grid_point(spec, i, j), nsweep=0) for i, j in idx]
    sc = [ref(s, spec) for s in pts]
    # the network has to be well posed at every point of the grid, not just the compared ones
    for i in range(n):
        for j in range(n):
            if (i, j) not in idx:
                nets.Ref(dict(netlist.grid_point(spec, i, j), nsweep=0))
    got = netlist.build(spec).observe()
    one = [netlist.build(s).observe() for s in pts]
    for key in nets.observations(spec):
        if key not in got and all(key not in o for o in one):
            continue
        if not shape_ok(mon, got[key], (n, n), key):
            continue
        v = np.broadcast_to(got[key], (n, n))
        for (i, j), o, s in zip(idx, one, sc):
            mon.close('grid_point', v[i, j], o[key], rtol=1e-6, scale=s[key][1], key=(key, i, j))


FAMILIES = {
    'line': Family(gen_line, run_line, quick=130, thorough=1800, timeout=40),
    'grid': Family(gen_grid, run_grid, quick=90, thorough=1200, timeout=40),
}
