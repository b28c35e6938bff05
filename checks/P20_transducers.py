"""P20: circuits and mechanics coupled by piezo transducers."""
import numpy as np

from vlib import netlist, elecnet, mechnet, elmech
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise, at

PROPERTY = 'P20'
RULE = ('seeded random circuits and mechanical networks joined by one or two piezo transducers; every voltage, current, '
        'displacement and force, at DC and as response to every drive of either side, and every spectrum, compared with a '
        'tableau with charge C V + d F and extension d V + F / k; passive ones checked by themselves for reciprocity, '
        'passivity and the fluctuation-dissipation theorem across both sides. Non-trivial: at least one comparison.')
ASSUMPTIONS = ['networks whose wave equations have condition above 1e6, or that are singular, are out of domain',
               'coupling factor d^2 k / C below 0.75 (it has to be below one for a passive transducer)']
REQUIRED = {'mon:static': 60, 'mon:response': 200, 'mon:across': 150, 'mon:csd': 80, 'mon:reciprocal': 40, 'mon:passive': 40,
            'mon:nyquist': 80, 'mon:cross': 40, 'coupled': 100}
KT = elecnet.KB * 299.


def models(spec, dc):
    out = []
    for s in pointwise(spec):
        m = elmech.Model(s)
        for F in ([0.] if dc else []) + [m.fac]:
            try:
                if not m.system(F)[5] < 1e6:
                    raise Skip('ill-conditioned')
            except np.linalg.LinAlgError:
                raise Skip('singular')
        out.append(m)
    return out


def gen(rng, **kw):
    while True:
        spec = elmech.gen(rng, max_el=rng.choice([4, 6, 9]), **kw)
        try:
            models(spec, any(o[1] == 'DC_readout' for o in spec['obs']))
            return spec
        except Skip:
            pass


def run(spec, mon):
    dc = any(o[1] == 'DC_readout' for o in spec['obs'])
    ms = models(spec, dc)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    for i, m in enumerate(ms):
        for key, g in (at(got, i) if spec.get('nsweep') else got).items():
            ro, attr = key.split('.', 1)
            if attr == 'DC_readout':
                w = m.dc(ro)
                mon.close('static', g, w, rtol=1e-6, scale=m.scale, key=key)
            elif attr == 'AC_sensitivity':
                k = ros[ro][1]
                src, dst = k['portD']['$p'][:-2], k['portN']['$p'].split('.')[0]
                w = m.ac(src, dst)
                x = src.startswith('m') != dst.startswith('m')
                mon.close('across' if x else 'response', g, w, rtol=1e-6, scale=m.scale, key=(key, src, dst))
                if x and abs(w) > 1e-4 * m.scale:
                    mon.event('coupled')
            elif 'CSD' in attr:
                k = ros[ro][1]
                a, b = attr[attr.index('[') + 1:-1].split(',')
                pm = k.get('port_map', {'R': k.get('portN')})
                w = m.csd(pm[a]['$p'].split('.')[0], pm[b]['$p'].split('.')[0])
                mon.close('csd', g, w, rtol=1e-6, scale=m.scale, key=key)


def gen_static(rng):
    return gen(rng, dc=True, noise=False)


def gen_response(rng):
    return gen(rng, dc=False, noise=False)


def gen_swept(rng):
    return gen(rng, sweep=True, dc=rng.chance(.3))


def gen_noise(rng):
    return gen(rng, dc=False, noise=True)


def gen_passive(rng):
    spec = gen(rng, passive=True, noise=True, dc=False, sweep=rng.chance(.3))
    src = dict((c.split('.')[1], n) for n, c, k in spec['els'] if c.split('.')[1] in ('CurrentSource', 'ForceSource'))
    e, m = src['CurrentSource'], src['ForceSource']
    spec['els'] = [x for x in spec['els'] if not x[1].endswith('Readout')]
    spec['els'] += [['vr', 'electronics.VoltageReadout', dict(terminal={'$p': e + '.pe_A'})],
                    ['mxr', 'mechanical.DisplacementReadout', dict(terminal={'$p': m + '.pm_A'})]]
    spec['ros'], spec['obs'] = [], []
    for a, d in (('e', e + '.ps_In.i'), ('m', m + '.F.i')):
        for b, o in (('e', 'vr.V.o'), ('m', 'mxr.d.o')):
            spec['ros'].append(['z' + b + a, 'readouts.ACReadout', dict(portD={'$p': d}, portN={'$p': o}, include_noise=False)])
            spec['obs'].append(['z' + b + a, 'AC_sensitivity'])
    spec['ros'].append(['nz', 'readouts.NoiseReadout', dict(port_map={'e': {'$p': 'vr.V.o'}, 'm': {'$p': 'mxr.d.o'}})])
    spec['obs'].append(['nz', 'CSD'])
    return spec


def run_passive(spec, mon):
    models(spec, False)
    got = netlist.build(spec).observe()
    mon.event('simulations')
    F = np.asarray(spec['root']['F_AC']['$a'] if isinstance(spec['root']['F_AC'], dict) else spec['root']['F_AC'])
    w = 2 * np.pi * F
    Z = dict((a + b, got['z%s%s.AC_sensitivity' % (a, b)] + 0 * F) for a in 'em' for b in 'em')
    # voltage and velocity per current and force
    Z['me'] = 1j * w * Z['me']
    Z['mm'] = 1j * w * Z['mm']
    # scales per side, with the reference impedances of the two wave descriptions
    se, sm = abs(Z['ee']) + 50, abs(Z['mm']) + w
    sx = np.sqrt(se * sm)
    mon.close('reciprocal', Z['em'], -Z['me'], rtol=1e-6, scale=sx)
    H = {'ee': Z['ee'].real, 'mm': Z['mm'].real, 'em': (Z['em'] + np.conj(Z['me'])) / 2}
    mon.check('passive', np.all(H['ee'] >= -1e-6 * se) and np.all(H['mm'] >= -1e-6 * sm) and
              np.all(H['ee'] * H['mm'] - abs(H['em'])**2 >= -1e-6 * se * sm), lambda: 'Z={0}'.format(Z))
    mon.close('nyquist', got['nz.CSD[e,e]'], 4 * KT * H['ee'], rtol=1e-6, scale=4 * KT * se)
    mon.close('nyquist', got['nz.CSD[m,m]'] * w**2, 4 * KT * H['mm'], rtol=1e-6, scale=4 * KT * sm)
    mon.close('cross', got['nz.CSD[e,m]'] * np.conj(1j * w), 4 * KT * H['em'], rtol=1e-6, scale=4 * KT * sx)
    if np.all(abs(Z['em']) > 1e-3 * sx):
        mon.event('coupled')


FAMILIES = {
    'static': Family(gen_static, run, quick=200, thorough=3000, timeout=40),
    'response': Family(gen_response, run, quick=200, thorough=3000, timeout=40),
    'swept': Family(gen_swept, run, quick=80, thorough=1500, timeout=40),
    'noise': Family(gen_noise, run, quick=120, thorough=2000, timeout=40),
    'passive': Family(gen_passive, run_passive, quick=250, thorough=4000, timeout=40),
}
