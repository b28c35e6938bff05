"""P11: mechanical networks obey force balance and the fluctuation-dissipation theorem."""
import numpy as np

from vlib import netlist, mechnet
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise, at

PROPERTY = 'P11'
RULE = ('seeded random networks of springs (lossless and lossy), dampers, masses, inerters, cables, strings, levers, rigid '
        '3-D arms, force and displacement sources (single-ended and balanced), explicit and implicit junctions; every '
        'displacement and force readout, static and as response to every drive, and every thermal spectrum compared with an '
        'independent force-balance solution; passive networks must satisfy the fluctuation-dissipation theorem, reciprocity '
        'and Newton\'s third law as shown by the simulator alone. Non-trivial: at least one comparison.')
ASSUMPTIONS = ['networks whose wave equations have condition above 1e6, or that are singular (free at DC), are out of domain',
               'Boltzmann constant and temperature as shipped']
REQUIRED = {'mon:displacement': 150, 'mon:force': 100, 'mon:ac_displacement': 150, 'mon:ac_force': 80, 'mon:csd': 100,
            'mon:fdt': 60, 'mon:reciprocal': 30, 'mon:third_law': 30}
KT4 = 4 * 1.380658e-23 * 299.


def models(spec):
    out = []
    for s in pointwise(spec):
        m = mechnet.Model(s)
        for F in ([0.] if any(o[1] == 'DC_readout' for o in spec['obs']) else []) + [m.fac]:
            try:
                if not m.system(F)[5] < 1e6:
                    raise Skip('ill-conditioned')
            except np.linalg.LinAlgError:
                raise Skip('singular')
        out.append(m)
    return out


def compare(spec, mon, got, m):
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    for key, g in got.items():
        ro, attr = key.split('.', 1)
        if attr == 'DC_readout':
            w = m.dc(ro)
            mon.close('displacement' if m.cls[ro] == m.ACROSS else 'force', g, w, rtol=1e-6, scale=m.scale, key=key)
        elif attr == 'AC_sensitivity':
            k = ros[ro][1]
            src, dst = k['portD']['$p'][:-2], k['portN']['$p'].split('.')[0]
            w = m.ac(src, dst)
            mon.close('ac_displacement' if m.cls[dst] == m.ACROSS else 'ac_force', g, w, rtol=1e-6, scale=m.scale, key=(key, src, dst))
        else:
            a, b = attr[4:-1].split(',')
            pm = ros[ro][1].get('port_map', {'R': ros[ro][1].get('portN')})
            w = m.csd(pm[a]['$p'].split('.')[0], pm[b]['$p'].split('.')[0])
            mon.close('csd', g, w, rtol=1e-6, scale=m.scale, key=key)


def gen(rng, **kw):
    return mechnet.gen(rng, **dict(dict(max_el=rng.choice([5, 8, 11]), noise=False, string=rng.chance(.3)), **kw))


def gen_static(rng):
    return gen(rng, dc=True)


def nodc(spec):
    spec['obs'] = [o for o in spec['obs'] if o[1] != 'DC_readout']
    return spec


def gen_response(rng):
    return nodc(gen(rng, dc=False, xyz=False))


def gen_sweep(rng):
    return nodc(gen(rng, sweep=True, noise=rng.chance(.4)))


def gen_noise(rng):
    return nodc(gen(rng, noise=True, dc=False))


def gen_arm(rng):
    return nodc(gen(rng, xyz=True, dc=False, noise=rng.chance(.3)))


def run(spec, mon):
    ms = models(spec)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    for i, m in enumerate(ms):
        compare(spec, mon, at(got, i) if spec.get('nsweep') else got, m)


def gen_fdt(rng):
    spec = gen(rng, passive=True, noise=True, sweep=rng.chance(.2), dc=False)
    m = mechnet.Model(spec)
    drop = set(n for n, c in m.cls.items() if c in ('DisplacementReadout', 'ForceReadout', 'ForceSource', 'Connection'))
    spec['els'] = [e for e in spec['els'] if e[0] not in drop]
    nets = {}
    for p in m.ports:
        if p.split('.')[0] not in drop:
            nets.setdefault(m.net[p], []).append(p)
    xyz = [b for b in spec['bonds'] if any(b[0] + '.X' in ps for ps in nets.values())]
    spec['bonds'] = list(xyz)
    tied = set(q for b in xyz for e in b for q in (e + '.X', e + '.Y', e + '.Z'))
    for net, ps in sorted(nets.items()):
        # ports bonded through a three-axis bond are already together
        head = [p for p in ps if p in tied][:1]
        rest = [p for p in ps if p not in tied]
        ps = head + rest
        spec['bonds'] += [[ps[j], ps[rng.randrange(j)]] for j in range(1, len(ps))]
    good = dict((n, [p for p in ps if m.cls[p.split('.')[0]] != 'String']) for n, ps in nets.items())
    keys = sorted(n for n in good if good[n])
    spec['ros'], spec['obs'], probes = [], [], []
    for i in range(2):
        nm = 'p{0}'.format(i)
        if rng.chance(.4) and len(keys) > 1:
            a, b = rng.sample(keys, 2)
            spec['els'].append([nm, 'mechanical.ForceSourceBalanced', {}])
            spec['bonds'] += [[nm + '.pm_A', rng.choice(good[a])], [nm + '.pm_B', rng.choice(good[b])]]
            kw = dict(terminal={'$p': rng.choice(good[a] + [nm + '.pm_A'])}, terminal_N={'$p': rng.choice(good[b] + [nm + '.pm_B'])})
        else:
            a = rng.choice(keys)
            spec['els'].append([nm, 'mechanical.ForceSource', {}])
            spec['bonds'].append([nm + '.pm_A', rng.choice(good[a])])
            kw = dict(terminal={'$p': rng.choice(good[a] + [nm + '.pm_A'])})
        spec['els'].append(['r' + nm, 'mechanical.DisplacementReadout', kw])
        probes.append(nm)
    for a in probes:
        for b in probes:
            nm = 'z' + a + b
            spec['ros'].append([nm, 'readouts.ACReadout', dict(portD={'$p': a + '.F.i'}, portN={'$p': 'r' + b + '.d.o'}, include_noise=False)])
            spec['obs'].append([nm, 'AC_sensitivity'])
    spec['ros'].append(['nz', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': 'rp0.d.o'}, 'B': {'$p': 'rp1.d.o'}})])
    spec['obs'].append(['nz', 'CSD'])
    return spec


def run_fdt(spec, mon):
    models(spec)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    chi = dict(((a, b), got['zp{0}p{1}.AC_sensitivity'.format(a, b)]) for a in (0, 1) for b in (0, 1))
    w = 2 * np.pi * np.asarray(netlist.num(spec['root']['F_AC']))
    sc = abs(chi[0, 0]) + abs(chi[1, 1]) + abs(chi[0, 1]) + 1
    mon.close('reciprocal', chi[0, 1], chi[1, 0], rtol=1e-6, scale=sc)
    for i, key in ((0, 'A'), (1, 'B')):
        mon.check('passive', np.all(np.imag(chi[i, i]) <= 1e-6 * sc), lambda: 'chi={0}'.format(chi[i, i]))
        mon.close('fdt', got['nz.CSD[{0},{0}]'.format(key)], -KT4 / w * np.imag(chi[i, i]), rtol=1e-6, scale=KT4 / w * sc)
    mon.close('fdt', got['nz.CSD[A,B]'], -KT4 / w * np.imag(chi[0, 1]), rtol=1e-6, scale=KT4 / w * sc)
    if np.all(abs(np.imag(chi[0, 0])) > 1e-3 * sc):
        mon.event('susceptibilities with substantial dissipation')


def gen_third(rng):
    spec = gen(rng, dc=True, xyz=False, string=False)
    m = mechnet.Model(spec)
    ports = {}
    for p in m.ports:
        ports.setdefault(m.net[p], []).append(p)
    spec['third'] = []
    for j, p in enumerate(ports[rng.choice(sorted(ports))]):
        nm = 'k{0}'.format(j)
        spec['els'].append([nm, 'mechanical.ForceReadout', dict(terminal={'$p': p}, direction='in')])
        spec['obs'].append([nm, 'DC_readout'])
        spec['third'].append(nm)
    return spec


def run_third(spec, mon):
    m, = models(spec)
    got = netlist.build(spec).observe()
    m.dc(spec['third'][0])
    mon.close('third_law', sum(got[n + '.DC_readout'] for n in spec['third']), 0, rtol=1e-7, scale=m.scale)
    compare(spec, mon, got, m)


FAMILIES = {
    'static': Family(gen_static, run, quick=400, thorough=8000, timeout=40),
    'response': Family(gen_response, run, quick=400, thorough=8000, timeout=40),
    'swept': Family(gen_sweep, run, quick=150, thorough=2500, timeout=40),
    'thermal': Family(gen_noise, run, quick=300, thorough=5000, timeout=40),
    'arm': Family(gen_arm, run, quick=150, thorough=2500, timeout=40),
    'dissipation': Family(gen_fdt, run_fdt, quick=300, thorough=5000, timeout=40),
    'junction': Family(gen_third, run_third, quick=200, thorough=3000, timeout=40),
}
