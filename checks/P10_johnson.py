"""P10: thermal noise of circuits, and the laws of passive networks."""
import numpy as np

from vlib import netlist, elecnet
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise, at
from checks import P09_electronics as P09

PROPERTY = 'P10'
RULE = ('passive: random R/L/C/cable networks at one temperature with current probes; the voltage noise between any two '
        'terminals is 4kT times the real part of the impedance the same simulation shows there (Nyquist), the cross '
        'spectrum is 4kT times the transfer impedance, impedances are reciprocal and passive. model: any circuit, with '
        'op-amp noise, current noise and sweeps, compared with the tableau noise analysis. Non-trivial: at least one density compared.')
ASSUMPTIONS = ['Boltzmann constant and temperature as shipped', 'condition of the wave equations below 1e6']
REQUIRED = {'mon:nyquist': 100, 'mon:nyquist_cross': 60, 'mon:reciprocal': 60, 'mon:csd': 150, 'mon:passive': 100}
KT4 = 4 * 1.380658e-23 * 299.


def gen_passive(rng):
    spec = elecnet.gen(rng, passive=True, noise=True, max_el=rng.choice([4, 7, 10]), sweep=rng.chance(.25))
    # probes
    m = elecnet.Model(spec)
    allp = [p for p in m.ports]
    spec['els'] = [e for e in spec['els'] if e[1].split('.')[1] not in ('VoltageReadout', 'CurrentReadout', 'CurrentSource')]
    gone = set(n for n, c in m.cls.items() if c in ('CurrentSource',))
    nets = {}
    for p in allp:
        if p.split('.')[0] not in gone:
            nets.setdefault(m.net[p], []).append(p)
    spec['bonds'] = []
    for net, ps in sorted(nets.items()):
        spec['bonds'] += [[ps[j], ps[rng.randrange(j)]] for j in range(1, len(ps))]
    spec['els'] = [e for e in spec['els'] if not e[1].endswith('Connection')]
    spec['ros'], spec['obs'] = [], []
    keys = sorted(nets)
    probes = []
    for i in range(2):
        nm = 'p{0}'.format(i)
        if rng.chance(.4) and len(keys) > 1:
            a, b = rng.sample(keys, 2)
            spec['els'].append([nm, 'electronics.CurrentSourceBalanced', {}])
            spec['bonds'] += [[nm + '.pe_A', rng.choice(nets[a])], [nm + '.pe_B', rng.choice(nets[b])]]
            kw = dict(terminal={'$p': rng.choice(nets[a] + [nm + '.pe_A'])}, terminal_N={'$p': rng.choice(nets[b] + [nm + '.pe_B'])})
        else:
            a = rng.choice(keys)
            spec['els'].append([nm, 'electronics.CurrentSource', {}])
            spec['bonds'].append([nm + '.pe_A', rng.choice(nets[a])])
            kw = dict(terminal={'$p': rng.choice(nets[a] + [nm + '.pe_A'])})
        spec['els'].append(['r' + nm, 'electronics.VoltageReadout', kw])
        probes.append(nm)
    for a in probes:
        for b in probes:
            nm = 'z' + a + b
            spec['ros'].append([nm, 'readouts.ACReadout', dict(portD={'$p': a + '.ps_In.i'}, portN={'$p': 'r' + b + '.V.o'}, include_noise=False)])
            spec['obs'].append([nm, 'AC_sensitivity'])
    spec['ros'].append(['nz', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': 'rp0.V.o'}, 'B': {'$p': 'rp1.V.o'}})])
    spec['obs'].append(['nz', 'CSD'])
    return spec


def run_passive(spec, mon):
    for s in pointwise(spec):
        m = elecnet.Model(s)
        try:
            if not m.system(m.fac)[5] < 1e6:
                raise Skip('ill-conditioned')
        except np.linalg.LinAlgError:
            raise Skip('singular')
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    Z = dict(((a, b), got['zp{0}p{1}.AC_sensitivity'.format(a, b)]) for a in (0, 1) for b in (0, 1))
    # tolerance: the power involved, bounded by the largest element impedance seen
    zs = abs(Z[0, 0]) + abs(Z[1, 1]) + abs(Z[0, 1]) + 50 + np.zeros_like(abs(Z[0, 0]))
    mon.close('reciprocal', Z[0, 1], Z[1, 0], rtol=1e-6, scale=zs)
    for i, key in ((0, 'A'), (1, 'B')):
        mon.check('passive', np.all(np.real(Z[i, i]) >= -1e-6 * zs), lambda: 'Z={0}'.format(Z[i, i]))
        mon.close('nyquist', got['nz.CSD[{0},{0}]'.format(key)], KT4 * np.real(Z[i, i]), rtol=1e-6, scale=KT4 * zs)
    mon.close('nyquist_cross', got['nz.CSD[A,B]'], KT4 * np.real(Z[0, 1]), rtol=1e-6, scale=KT4 * zs)
    if np.all(abs(np.real(Z[0, 0])) > 1e-3 * zs):
        mon.event('impedances with a substantial real part')


def gen_model(rng):
    spec = P09.gen(rng, noise=True, dc=False, sweep=rng.chance(.2))
    spec['obs'] = [o for o in spec['obs'] if 'CSD' in o[1]]
    keep = set(o[0] for o in spec['obs'])
    spec['ros'] = [r for r in spec['ros'] if r[0] in keep]
    return spec


def gen_active(rng):
    spec = P09.gen(rng, noise=True, dc=False, active=True)
    spec['obs'] = [o for o in spec['obs'] if 'CSD' in o[1]]
    keep = set(o[0] for o in spec['obs'])
    spec['ros'] = [r for r in spec['ros'] if r[0] in keep]
    return spec


def run_model(spec, mon):
    ms = P09.models(spec, mon)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    ros = dict((n, k) for n, c, k in spec['ros'])
    for i, m in enumerate(ms):
        for key, g in (at(got, i) if spec.get('nsweep') else got).items():
            ro, attr = key.split('.', 1)
            a, b = attr[4:-1].split(',')
            pm = ros[ro].get('port_map', {'R': ros[ro].get('portN')})
            w = m.csd(pm[a]['$p'].split('.')[0], pm[b]['$p'].split('.')[0])
            mon.close('csd', g, w, rtol=1e-6, scale=m.scale, key=key)


FAMILIES = {
    'passive': Family(gen_passive, run_passive, quick=900, thorough=15000, timeout=40),
    'model': Family(gen_model, run_model, quick=600, thorough=10000, timeout=40),
    'active': Family(gen_active, run_model, quick=250, thorough=4000, timeout=40),
}
