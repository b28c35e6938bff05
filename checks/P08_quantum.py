"""P08: quantum noise of any layout."""
from vlib import netlist, optnet, optcheck
from vlib.harness import Family, Skip
from vlib import harness
import numpy as np

PROPERTY = 'P08'
RULE = ('shot: random passive layouts without modulation (lossless and lossy, open and terminated ports): a '
        'network fed by coherent light and vacuum emits coherent light, so each detector reads 2*h*nu*P and '
        'distinct detectors are uncorrelated, whatever the layout; model: layouts with RF modulation, radiation '
        'pressure, mixed colours: spectral densities and cross densities compared with an independent dense '
        'two-photon model; squeeze: beams or vacuum through squeezers (given by gains, variances or decibels), losses, phases and '
        'modulators onto a detector, alone or against a local oscillator: power, noise and response follow the covariance matrix. '
        'Non-trivial: at least one density compared.')
ASSUMPTIONS = ['condition of the carrier system below 1e6', 'shipped radiation-pressure conventions '
               '(KNOWN_FINDINGS K-force-law)']
REQUIRED = {'mon:complex_cross': 20, 'mon:shot': 150, 'mon:uncorrelated': 30, 'mon:csd': 100, 'mon:cross_csd': 20, 'mon:squeezed_noise': 60,
            'mon:squeezed_response': 10, 'squeezed below shot noise': 10}


def gen_shot(rng):
    return optnet.gen(rng, ac=True, rf=False, rp=False, harmonic=False, noise=True, all_pd=rng.chance(.5), selectors=False,
                      max_el=rng.choice([4, 7, 10]), sweep=rng.chance(.3))


def run_shot(spec, mon):
    # meters that tap the light without absorbing it (MagicPD) see the same field as a detector
    # downstream, so only absorbing detectors are mutually uncorrelated
    for s in optcheck.pointwise(spec):
        optcheck.ref_model(s, ac=False)
    sim = netlist.build(spec)
    got = sim.observe()
    ros = dict((n, k) for n, c, k in spec['ros'])
    P = {}
    for k, v in got.items():
        ro, attr = k.split('.', 1)
        if attr == 'DC_readout' and not ros[ro]['port']['$p'].endswith('Z.F.i'):
            P[ros[ro]['port']['$p']] = v.real
    hnu = optnet.H * optnet.C / optnet.LAM
    Pmax = max(np.max(np.asarray(netlist.num(k['power_W']))) for n, c, k in spec['els'] if c == 'optics.Laser')
    for k, v in got.items():
        ro, attr = k.split('.', 1)
        if 'CSD' not in attr:
            continue
        a, b = attr[attr.index('[') + 1:-1].split(',')
        pm = ros[ro].get('port_map', {'R': ros[ro].get('portN')})
        pa, pb = pm[a]['$p'], pm[b]['$p']
        if pa == pb and pa.startswith('pd'):
            mon.close('shot', v, 2 * hnu * P[pa], rtol=1e-6, scale=2 * hnu * (P[pa] + 1e-6 * Pmax), key=(pa,))
        elif pa.startswith('pd') and pb.startswith('pd'):
            mon.close('uncorrelated', v, 0, rtol=1e-6, scale=2 * hnu * Pmax, key=(pa, pb))


def gen_model(rng):
    return optnet.gen(rng, ac=True, noise=True, max_el=rng.choice([4, 6, 8]))


def gen_rp(rng):
    # most of them slow enough for the suspended mirrors to move
    for _ in range(20):
        spec = optnet.gen(rng, ac=True, noise=True, rp=True, rf=rng.chance(.2), max_el=6)
        if any(n == 'nzx' for n, c, k in spec['ros']) or rng.chance(.2):
            break
    if rng.chance(.7):
        # (near the frequency where the light's force matches the inertia), or with delays long
        # enough for the noises to be out of phase
        spec['root']['F_AC'] = F = rng.log(1, 1e5)
        P = rng.log(1, 1e4)
        for n, c, k in spec['els']:
            if c == 'mechanical.Mass':
                k['mass_kg'] = 4 * P * 6e6 / 3e8 / (2 * np.pi * F)**2 * rng.log(.1, 10)
            if c == 'optics.Laser' and k['power_W']:
                k['power_W'] = P * rng.log(.1, 1)
            if c == 'optics.Space' and rng.chance(.5):
                k['L_m'] = 3e8 / F * rng.uni(.05, .5)
    return spec


def gen_cavity(rng):
    """one suspended mirror in a long detuned resonator: the noises of its two ends and of the mirror's
    motion are correlated, with phases"""
    F = rng.log(10, 1e5)
    P = rng.log(1, 1e3)
    T = rng.log(.05, .6)
    susp = rng.choice(['A', 'B'])
    els = [['L0', 'optics.Laser', dict(F={'$p': 'F_carrier_1064'}, power_W=P)],
           ['cir', 'optics.OpticalCirculator', dict(N_ports=3)],
           ['A', 'optics.Mirror', dict(T_hr=T, L_hr=rng.choice([0, rng.log(1e-4, .05)]))],
           ['sp', 'optics.Space', dict(L_m=3e8 / F * rng.uni(.02, .3), L_detune_m=rng.uni(-.1, .1) * 1.064e-6)],
           ['B', 'optics.Mirror', dict(T_hr=rng.log(.05, .6), L_hr=0)],
           ['pd0', 'optics.PD', {}], ['pd1', 'optics.PD', {}],
           ['mass' + susp, 'mechanical.Mass', dict(mass_kg=4 * P / T * 6e6 / 3e8 / (2 * np.pi * F)**2 * rng.log(.3, 30))]]
    bonds = [['L0.po_Fr', 'cir.P0'], ['cir.P1', 'A.po_Bk'], ['A.po_Fr', 'sp.po_Fr'], ['sp.po_Bk', 'B.po_Fr'],
             ['B.po_Bk', 'pd0.po_Fr'], ['cir.P2', 'pd1.po_Fr'], [susp + '.Z', 'mass{0}.pm_A'.format(susp)]]
    pm = {'A': {'$p': 'pd0.Wpd.o'}, 'B': {'$p': 'pd1.Wpd.o'}, 'C': {'$p': susp + '.Z.d.o'}}
    ros = [['nzx', 'readouts.NoiseReadout', dict(port_map=pm)], ['dc0', 'readouts.DCReadout', dict(port={'$p': 'pd0.Wpd.o'})]]
    return dict(domain='optics', root=dict(F_AC=F), freqs=[], els=els, bonds=bonds, ros=ros,
                obs=[['nzx', 'CSD'], ['dc0', 'DC_readout']], order=0)


def gen_rf(rng):
    return optnet.gen(rng, ac=True, noise=True, rf=True, max_el=5)


def run_model(spec, mon):
    optcheck.run_against_model(spec, mon, ('csd',))


def gen_squeeze(rng):
    st = []
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        k = rng.choice(['sq', 'sq', 'loss', 'space', 'mod'])
        if k == 'sq' and sum(x['k'] == 'sq' for x in st) < 2:
            way = rng.choice(['rel', 'rel', 'rel1', 'rel1', 'gain', 'field', 'normalized', 'dB', 'dB2'])
            r, l = rng.uni(.05, 1.2), rng.choice([0, rng.uni(.01, .4)])
            g = np.cosh(r)
            v1, v2 = ((1 - l) * np.exp(2 * x) + l for x in (-r, r))
            kw = dict(rel=dict(rel_variance_1=v1, rel_variance_2=v2), rel1=dict(rel_variance_1=v1),
                      gain=dict(nonlinear_power_gain=g**2), field=dict(nonlinear_field_gain=g),
                      normalized=dict(normalized_nonlinear_field_gain=1 - 1 / g), dB=dict(sqzDB=-10 * np.log10(v1)),
                      dB2=dict(sqzDB=-10 * np.log10(v1), antisqzDB=10 * np.log10(v2)))[way]
            if way == 'dB' or way in ('rel1', 'gain', 'field', 'normalized') and not l:
                kw = dict(kw)
                if way in ('dB', 'rel1'):
                    # (without a loss given, a pure state with the variance given)
                    r, l = (-np.log(v1) / 2, 0)
            elif way in ('rel1', 'gain', 'field', 'normalized'):
                kw['loss'] = l
            if rng.chance(.7):
                kw['phi_sqz_deg'] = rng.choice([90, 45, rng.uni(-180, 180)])
            st.append(dict(k='sq', kw=dict((a, float(b)) for a, b in kw.items()), r=float(r), l=float(l), flip=rng.chance(.3)))
        elif k == 'loss':
            st.append(dict(k='loss', L=rng.uni(.01, .6)))
        elif k == 'space':
            st.append(dict(k='space', deg=rng.choice([90, rng.uni(-180, 180)])))
        elif k == 'mod' and not any(x['k'] == 'mod' for x in st):
            st.append(dict(k='mod', kind=rng.choice(['AM', 'PM'])))
    if not any(x['k'] == 'sq' for x in st):
        return gen_squeeze(rng)
    P = rng.choice([0, rng.log(1e-3, 10)])
    lo = dict(P=rng.log(1e-2, 100), deg=rng.uni(-180, 180), T=rng.log(.01, .9)) if not P or rng.chance(.5) else None
    if not P:
        st = [x for x in st if x['k'] != 'mod']
    return dict(P=P, st=st, lo=lo, F=rng.log(1, 1e6))


def run_squeeze(spec, mon):
    """covariance matrices: each squeezer maps the quadratures (in units of shot noise) along and across its
    axis, each loss mixes in vacuum, each phase turns them; the detector reads the one along the light"""
    from phasor import optics, readouts, system
    sys = system.BGSystem(F_AC=spec['F'])
    o = sys.own
    rot = lambda deg: np.array([[np.cos(deg * np.pi / 180), -np.sin(deg * np.pi / 180)], [np.sin(deg * np.pi / 180), np.cos(deg * np.pi / 180)]])
    V, m, sig, end, drive = np.eye(2), np.array([np.sqrt(spec['P']), 0.]), None, None, None
    if spec['P']:
        o.L = optics.Laser(F=sys.F_carrier_1064, power_W=spec['P'])
        end = sys.L.po_Fr
    for i, x in enumerate(spec['st']):
        n = 'e%d' % i
        M, l = np.eye(2), 0.
        if x['k'] == 'sq':
            setattr(o, n, optics.EZSqz(**x['kw']))
            R = rot(x['kw'].get('phi_sqz_deg', 0))
            M, l = R @ np.diag([np.exp(-x['r']), np.exp(x['r'])]) @ R.T, x['l']
        elif x['k'] == 'loss':
            setattr(o, n, optics.Mirror(T_hr=1 - x['L'], AOI_deg=45))
            l = x['L']
        elif x['k'] == 'space':
            setattr(o, n, optics.Space(L_m=0., L_detune_m=x['deg'] / 360 * optnet.LAM))
            M = rot(-x['deg'])
        else:
            setattr(o, n, getattr(optics, x['kind'])())
            sig = (.5 * m) if x['kind'] == 'AM' else .5 * (rot(90) @ m)
            drive = getattr(sys, n).Drv
        e = getattr(sys, n)
        fr, bk = (e.po_FrA, e.po_BkA) if x['k'] == 'loss' else (e.po_Fr, e.po_Bk)
        a, b = (bk, fr) if x.get('flip') else (fr, bk)
        if end is not None:
            sys.bond(end, a)
        end = b
        V, m = (1 - l) * (M @ V @ M.T) + l * np.eye(2), np.sqrt(1 - l) * (M @ m)
        if sig is not None:
            sig = np.sqrt(1 - l) * (M @ sig)
    lo = spec['lo']
    o.pd = optics.PD()
    if lo:
        o.LO = optics.Laser(F=sys.F_carrier_1064, power_W=lo['P'])
        o.ph = optics.Space(L_m=0., L_detune_m=lo['deg'] / 360 * optnet.LAM)
        o.bs = optics.Mirror(T_hr=lo['T'])
        o.cir = optics.OpticalCirculator(N_ports=3)
        sys.bond(sys.LO.po_Fr, sys.ph.po_Fr)
        sys.bond(sys.ph.po_Bk, sys.bs.po_Fr)
        sys.bond(end, sys.cir.P0)
        sys.bond(sys.cir.P1, sys.bs.po_Bk)
        sys.bond(sys.cir.P2, sys.pd.po_Fr)
        T = lo['T']
        V = (1 - T) * V + T * np.eye(2)
        # (from behind, the reflection is -sqrt(R))
        m = -np.sqrt(1 - T) * m + np.sqrt(T * lo['P']) * (rot(-lo['deg']) @ [1., 0.])
        if sig is not None:
            sig = -np.sqrt(1 - T) * sig
    else:
        sys.bond(end, sys.pd.po_Fr)
    o.dc = readouts.DCReadout(port=sys.pd.Wpd.o)
    o.nz = readouts.NoiseReadout(portN=sys.pd.Wpd.o)
    if drive is not None:
        o.ac = readouts.ACReadout(portD=drive.i, portN=sys.pd.Wpd.o)
    P = m @ m
    big = P + spec['P'] + (lo['P'] if lo else 0)
    q = 2 * optnet.H * optnet.C / optnet.LAM
    mon.close('squeezed_power', sys.dc.DC_readout, P, rtol=1e-8, scale=big)
    w = q * (m @ V @ m)
    mon.close('squeezed_noise', sys.nz.CSD['R', 'R'], w, rtol=1e-6, scale=q * big * np.trace(V))
    mon.event('squeezed below shot noise' if w < .97 * q * P else 'above shot noise' if w > 1.03 * q * P else 'at shot noise')
    if drive is not None:
        mon.close('squeezed_response', sys.ac.AC_sensitivity, 2 * m @ sig, rtol=1e-7, scale=big)


FAMILIES = {
    'squeeze': Family(gen_squeeze, run_squeeze, quick=120, thorough=2000, timeout=30),
    'shot': Family(gen_shot, run_shot, quick=160, thorough=2400, timeout=30),
    'model': Family(gen_model, run_model, quick=110, thorough=1600, timeout=30),
    'suspended': Family(gen_rp, run_model, quick=70, thorough=1000, timeout=30),
    'cavity': Family(gen_cavity, run_model, quick=30, thorough=400, timeout=30),
    'modulated': Family(gen_rf, run_model, quick=50, thorough=800, timeout=30),
}
