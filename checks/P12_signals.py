"""P12: signal-flow networks: filters, amplifiers, loops, mixers, modulators."""
import numpy as np

from vlib import netlist, signet
from vlib.harness import Family, Skip
from vlib.optcheck import pointwise, at

PROPERTY = 'P12'
RULE = ('seeded random signal networks of generators (fundamental, multiples, harmonics, phases), rational filters, function '
        'filters, gains, integrators, resonances, audio-only arrays, state-space and MIMO blocks, distribution / summing / matrix '
        'amplifiers with feedback loops, mixers (I and Q), modulators (AM, PM, FM), frequency doublers and mean-square detectors; '
        'every DC value, AC response and noise spectrum compared with an independent evaluation of the signals as products and '
        'filterings of time series. Identities without a model: complex demodulation, loop closure, cascade order. '
        'Non-trivial: at least one comparison.')
ASSUMPTIONS = ['modulators are first order in the modulation (as documented by their code), frequency keys beyond the declared '
               'order are dropped', 'state-space blocks are not fed DC (recorded finding)']
REQUIRED = {'mon:dc': 400, 'mon:ac': 300, 'mon:csd': 100, 'mon:loop': 60, 'mon:demod': 60, 'ac responses well above tolerance': 150,
            'dc values well above tolerance': 150}


def models(spec):
    out = []
    for s in pointwise(spec):
        try:
            m = signet.Model(s)
        except (np.linalg.LinAlgError, ValueError):
            raise Skip('no unique solution')
        out.append(m)
    return out


def compare(spec, mon, got, m):
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    for key, g in got.items():
        ro, attr = key.split('.', 1)
        c, k = ros[ro]
        if attr == 'DC_readout':
            p = k['port']['$p'][:-2]
            w, sc = m.dc(p), m.scale_at(p)
            name = 'dc'
        elif attr == 'AC_sensitivity':
            w = m.ac(k['portD']['$p'][:-2], k['portN']['$p'][:-2])
            sc, name = m.scale, 'ac'
        else:
            a, b = attr[4:-1].split(',')
            pm = k.get('port_map', {'R': k.get('portN')})
            w = m.csd(pm[a]['$p'][:-2], pm[b]['$p'][:-2])
            sc, name = m.scale, 'csd'
        if not m.cond < 1e4:
            raise Skip('loop close to instability')
        mon.close(name, g, w, rtol=1e-6, scale=sc, key=key)
        if name in ('ac', 'dc') and abs(w) > 1e-3 * sc:
            mon.event(name + (' responses' if name == 'ac' else ' values') + ' well above tolerance')


def run(spec, mon):
    ms = models(spec)
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    for i, m in enumerate(ms):
        compare(spec, mon, at(got, i) if spec.get('nsweep') else got, m)


def gen_mix(rng):
    return signet.gen(rng, mix=True, noise=False, max_el=rng.choice([4, 6, 9]))


def gen_mixnoise(rng):
    return signet.gen(rng, mix=True, noise=True, max_el=rng.choice([3, 5, 7]))


def gen_linear(rng):
    return signet.gen(rng, linear=True, max_el=rng.choice([4, 8, 12]))


def gen_sweep(rng):
    return signet.gen(rng, sweep=True, max_el=rng.choice([3, 5]))


# -- identities that need no model ---------------------------------------------------------

def gen_loop(rng):
    """a feedback loop around two filters: closed = G / (1 - G H), with G and H seen by the same simulator"""
    F = rng.log(1, 1e4)
    els = []
    for n in 'GH':
        e, pi, po = signet.gen_filter(rng, n, F, [])
        while len(pi) != 1 or pi != ['ps_In'] or po != ['ps_Out'] or e[1] == 'signals.TFACArray':
            e, pi, po = signet.gen_filter(rng, n, F, [])
        els.append(e)
    return dict(F=F, els=els, swept=rng.chance(.4))


def run_loop(spec, mon):
    F = spec['F']
    fac = {'$a': [F, 1.7 * F, 4.1 * F]} if spec['swept'] else F
    G, H = spec['els']

    def resp(els, bonds, d, n):
        s = dict(root=dict(F_AC=fac), els=els, bonds=bonds,
                 ros=[['ac', 'readouts.ACReadout', dict(portD={'$p': d}, portN={'$p': n}, include_noise=False)]],
                 obs=[['ac', 'AC_sensitivity']])
        return netlist.build(s).observe()['ac.AC_sensitivity']
    g = resp([G], [], 'G.ps_In.i', 'G.ps_Out.o')
    h = resp([H], [], 'H.ps_In.i', 'H.ps_Out.o')
    loop = [['G.ps_Out', 'H.ps_In'], ['H.ps_Out', 'G.ps_In']]
    c = resp([G, H], loop, 'G.ps_In.i', 'G.ps_Out.o')
    if np.any(abs(1 - g * h) < 1e-3):
        raise Skip('loop close to instability')
    mon.close('loop', c, g / (1 - g * h), rtol=1e-8)
    mon.close('loop', resp([H, G], loop[::-1], 'H.ps_In.i', 'G.ps_Out.o'), h * g / (1 - g * h), rtol=1e-8)
    mon.close('cascade', resp([G, H], loop[:1], 'G.ps_In.i', 'H.ps_Out.o'), g * h, rtol=1e-8)
    mon.close('cascade', resp([G, H], loop[1:], 'H.ps_In.i', 'G.ps_Out.o'), g * h, rtol=1e-8)
    s = dict(root=dict(F_AC=fac), els=[G, H], bonds=loop,
             ros=[['lg', 'readouts.ACReadoutLG', dict(portAct={'$p': 'G.ps_In.i'}, portSense={'$p': 'G.ps_Out.o'}, include_noise=False)],
                  ['ol', 'readouts.ACReadout', dict(portD={'$p': 'G.ps_In.i'}, portN={'$p': 'G.ps_Out.o'}, include_noise=False)]],
             obs=[['ol', 'AC_sensitivityOL']])
    mon.close('open_loop', netlist.build(s).observe()['ol.AC_sensitivityOL'], g, rtol=1e-7)


def gen_demod(rng):
    return dict(F=rng.log(1e5, 1e8), FAC=rng.log(1, 1e3), a=rng.cplx(1.5), lo=rng.log(.3, 2), ph=rng.uni(-180, 180), mph=rng.uni(-180, 180),
                n=rng.choice([1, 1, 2]))


def run_demod(spec, mon):
    """a tone a (phase rotated by the modulator) beaten against an LO: I + jQ gives back the complex amplitude,
    AM and PM drives give the response of its two quadratures"""
    els = [['sig', 'netx.Generator', dict(F={'$p': 'F0'}, amplitude={'$c': spec['a']}, multiple=spec['n'])],
           ['lo', 'netx.Generator', dict(F={'$p': 'F0'}, amplitude=spec['lo'], phase_deg=spec['ph'], multiple=spec['n'])],
           ['mod', 'signals.Modulator', dict(phase_deg=spec['mph'])], ['mx', 'signals.Mixer', {}]]
    ros = [['dI', 'readouts.DCReadout', dict(port={'$p': 'mx.ps_R_I.o'})], ['dQ', 'readouts.DCReadout', dict(port={'$p': 'mx.ps_R_Q.o'})]]
    for d, p in (('A', 'Mod_amp'), ('P', 'Mod_phase'), ('F', 'FM2PM.ps_In')):
        for q in 'IQ':
            ros.append(['a' + d + q, 'readouts.ACReadout', dict(portD={'$p': 'mod.%s.i' % p}, portN={'$p': 'mx.ps_R_%s.o' % q}, include_noise=False)])
    s = dict(root=dict(F_AC=spec['FAC']), freqs=[['F0', dict(F_Hz=spec['F'])]], els=els,
             bonds=[['sig.ps_Out', 'mod.ps_In'], ['mod.ps_Out', 'mx.ps_In'], ['lo.ps_Out', 'mx.ps_LO']],
             ros=ros, obs=[['dI', 'DC_readout'], ['dQ', 'DC_readout']] + [[r[0], 'AC_sensitivity'] for r in ros[2:]])
    g = netlist.build(s).observe()
    z = complex(*spec['a']) * np.exp(1j * np.radians(spec['mph'] - spec['ph'])) * spec['lo'] / 2

    # I = Re(LO* a)/2 ; Q: the LO advanced by 90 degrees, Re((i LO)* a)/2
    mon.close('demod', g['dI.DC_readout'], z.real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['dQ.DC_readout'], (z * -1j).real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['aAI.AC_sensitivity'], z.real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['aAQ.AC_sensitivity'], (z * -1j).real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['aPI.AC_sensitivity'], (1j * z).real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['aPQ.AC_sensitivity'], (1j * z * -1j).real, rtol=1e-9, scale=abs(z))
    f = 1j * spec['FAC']
    mon.close('demod', g['aFI.AC_sensitivity'] * f, (1j * z).real, rtol=1e-9, scale=abs(z))
    mon.close('demod', g['aFQ.AC_sensitivity'] * f, (1j * z * -1j).real, rtol=1e-9, scale=abs(z))


def gen_ssdc(rng):
    n = rng.randint(1, 3)
    A = [[rng.uni(-1, 1) - (4 if i == j else 0) for j in range(n)] for i in range(n)]
    B = [[rng.uni(-1, 1)] for _ in range(n)]
    C = [[rng.uni(-1, 1) for _ in range(n)]]
    D = [[rng.uni(-1, 1)]]
    return dict(root=dict(F_AC=1.), freqs=[['F0', dict(F_Hz=1e6)]],
                els=[['g', 'netx.Generator', dict(F={'$p': 'F0'})], ['ms', 'signals.MeanSquareMixer', {}],
                     ['ss', 'netx.StateSpace', dict(names_in=['a'], names_out=['x'], A=A, B=B, C=C, D=D)],
                     ['t', 'signals.DistributionAmplifier', dict(port_gains=dict(o=1.))]],
                bonds=[['g.ps_Out', 'ms.ps_In'], ['ms.MS', 'ss.pS_in.a'], ['ss.pS_out.x', 't.ps_In']],
                ros=[['d', 'readouts.DCReadout', dict(port={'$p': 't.o.o'})]], obs=[['d', 'DC_readout']])


def run_ssdc(spec, mon):
    kw = spec['els'][2][2]
    A, B, C, D = [np.array(kw[x]) for x in 'ABCD']
    want = .5 * complex((D - C @ np.linalg.solve(A, B))[0, 0]).real
    g = netlist.build(spec).observe()['d.DC_readout']
    mon.close('statespace_dc', g, want, rtol=1e-8, detail='not a number, as shipped' if np.isnan(g.real) else '')


FAMILIES = {
    'statespace_dc': Family(gen_ssdc, run_ssdc, quick=5, thorough=10, timeout=60),
    'mixing': Family(gen_mix, run, quick=320, thorough=6000, timeout=60),
    'mixing_noise': Family(gen_mixnoise, run, quick=120, thorough=2400, timeout=60),
    'linear': Family(gen_linear, run, quick=500, thorough=8000, timeout=60),
    'swept': Family(gen_sweep, run, quick=120, thorough=2000, timeout=60),
    'loop': Family(gen_loop, run_loop, quick=120, thorough=2500, timeout=60),
    'demodulation': Family(gen_demod, run_demod, quick=60, thorough=600, timeout=60),
}
