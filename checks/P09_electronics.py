"""P09: circuits obey nodal analysis."""
import numpy as np

from vlib import netlist, elecnet
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise, at

PROPERTY = 'P09'
RULE = ('seeded random circuits (2-8 nets; R, L with series resistance, C, matched/open/shorted terminations, cables, '
        'transformers, op-amps with poles, single-ended and balanced voltage and current sources, explicit and implicit '
        'junctions); every voltage and current readout, at DC and as transfer function from every drive, compared with '
        'a tableau (KCL+KVL) solution of the same netlist; KCL over all currents of a net. Non-trivial: at least one comparison.')
ASSUMPTIONS = ['circuits whose wave equations have condition above 1e6, or that are singular, are out of domain',
               'transformers as shipped (KNOWN_FINDINGS K-transformer); the coupled-inductor law has a family of its own']
REQUIRED = {'mon:voltage': 200, 'mon:current': 100, 'mon:ac_voltage': 200, 'mon:ac_current': 100, 'mon:kcl': 30}


def models(spec, mon, ac=True, textbook=False):
    out = []
    for s in pointwise(spec):
        m = elecnet.Model(s, textbook=textbook)
        for F in (0., m.fac):
            if F == 0. and 'Transformer' in m.cls.values() and not textbook:
                m.nodc = True
                continue
            try:
                if not m.system(F)[5] < 1e6:
                    raise Skip('ill-conditioned')
            except np.linalg.LinAlgError:
                raise Skip('singular')
        out.append(m)
    return out


def compare(spec, mon, got, m):
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    for key, g in got.items():
        ro, attr = key.split('.', 1)
        if attr == 'DC_readout':
            w = m.dc(ro)
            mon.close('voltage' if m.cls[ro] == 'VoltageReadout' else 'current', g, w, rtol=1e-6, scale=m.scale, key=key)
        elif attr == 'AC_sensitivity':
            k = ros[ro][1]
            src, dst = k['portD']['$p'][:-2], k['portN']['$p'].split('.')[0]
            w = m.ac(src, dst)
            mon.close('ac_voltage' if m.cls[dst] == 'VoltageReadout' else 'ac_current', g, w, rtol=1e-6, scale=m.scale, key=(key, src, dst))


def gen(rng, **kw):
    spec = elecnet.gen(rng, **dict(dict(max_el=rng.choice([5, 8, 12]), noise=False), **kw))
    if any(c == 'netx.Transformer' for _, c, _ in spec['els']):
        # no DC description of a transformer
        spec['obs'] = [o for o in spec['obs'] if o[1] != 'DC_readout']
    return spec


def gen_dc(rng):
    return gen(rng, dc=True)


def gen_ac(rng):
    return gen(rng, dc=False)


def gen_sweep(rng):
    return gen(rng, sweep=True)


def gen_kcl(rng):
    spec = gen(rng, dc=True)
    while not any(o[1] == 'DC_readout' for o in spec['obs']):
        spec = gen(rng, dc=True)
    m = elecnet.Model(spec)
    ports = {}
    for p in m.ports:
        ports.setdefault(m.net[p], []).append(p)
    net = rng.choice(sorted(ports))
    spec['kcl'] = []
    for j, p in enumerate(ports[net]):
        nm = 'k{0}'.format(j)
        spec['els'].append([nm, 'electronics.CurrentReadout', dict(terminal={'$p': p}, direction='in')])
        spec['obs'].append([nm, 'DC_readout'])
        spec['kcl'].append(nm)
    return spec


def run(spec, mon):
    ms = models(spec, mon)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    for i, m in enumerate(ms):
        compare(spec, mon, at(got, i) if spec.get('nsweep') else got, m)
    if 'kcl' in spec:
        cur = [got[n + '.DC_readout'] for n in spec['kcl'] if n + '.DC_readout' in got]
        if len(cur) == len(spec['kcl']):
            m = ms[0]
            m.dc(spec['kcl'][0])
            mon.close('kcl', sum(cur), 0, rtol=1e-7, scale=m.scale)


def gen_transformer(rng):
    F = rng.log(10, 1e5)
    w = 2 * np.pi * F
    els = [['vs', 'electronics.VoltageSource', {}],
           ['rs', 'electronics.SeriesResistor', dict(resistance_Ohms=rng.log(5, 100))],
           ['tr', 'netx.Transformer', dict(L1=rng.log(5, 500) / w, L2=rng.log(5, 500) / w, k=rng.uni(.3, .95))],
           ['gb', 'electronics.TerminatorShorted', {}], ['gd', 'electronics.TerminatorShorted', {}],
           ['rl', 'electronics.TerminatorResistor', dict(resistance_Ohms=rng.log(5, 500))],
           ['v', 'electronics.VoltageReadout', dict(terminal={'$p': 'rl.pe_A'})]]
    return dict(root=dict(F_AC=F), els=els,
                bonds=[['vs.pe_A', 'rs.pe_A'], ['rs.pe_B', 'tr.pe_A'], ['tr.pe_B', 'gb.pe_A'], ['tr.pe_C', 'rl.pe_A'], ['tr.pe_D', 'gd.pe_A']],
                ros=[['ac', 'readouts.ACReadout', dict(portD={'$p': 'vs.V.i'}, portN={'$p': 'v.V.o'}, include_noise=False)]],
                obs=[['ac', 'AC_sensitivity']])


def run_transformer(spec, mon):
    sim = netlist.build(spec)
    g = complex(sim.observe()['ac.AC_sensitivity'])
    law = elecnet.Model(spec, textbook=True)
    want = law.ac('vs.V', 'v')
    shipped = elecnet.Model(spec).ac('vs.V', 'v')
    as_shipped = abs(g - shipped) <= 1e-6 * abs(shipped)
    mon.close('coupled_inductors', g, want, rtol=1e-6,
              detail='equals the shipped open-circuit/short-circuit mix-up' if as_shipped else '')


FAMILIES = {
    'transformer_law': Family(gen_transformer, run_transformer, quick=20, thorough=50, timeout=40),
    'static': Family(gen_dc, run, quick=900, thorough=15000, timeout=40),
    'response': Family(gen_ac, run, quick=900, thorough=15000, timeout=40),
    'swept': Family(gen_sweep, run, quick=240, thorough=4000, timeout=40),
    'junction': Family(gen_kcl, run, quick=300, thorough=4500, timeout=40),
}
