"""P18: homodyne readouts by projection on a reference field, against actual balanced detection."""
from vlib.harness import Family, Skip
import numpy as np

PROPERTY = 'P18'
RULE = ('seeded random interferometers: light split into a reference and a signal arm (amplitude and phase modulated, radio-frequency sidebands, '
        'detuned lossy resonators, suspended mirrors), the projection readout tapped in front of an actual balanced detector whose reference arm is '
        'delayed by the same angle; several angles, swept powers and angles, several audio frequencies. Non-trivial: signal light and a '
        'modulation response above tolerance.')
ASSUMPTIONS = ['the reference itself is not modulated at audio frequency (its vacuum noise is included)']
REQUIRED = {'mon:dc': 80, 'mon:ac': 120, 'mon:noise': 130, 'mon:cross': 80, 'mon:common': 60, 'mon:quadrature': 40, 'mon:rotation': 60,
            'mon:quanta': 60, 'mon:relative': 30, 'mon:self': 60, 'mon:uncertainty': 12, 'modulated': 60, 'correlated': 6}
HNU = 6.62606957e-34 * 299792458. / 1064e-9
LAM = 1064e-9


def gen(rng):
    s = {'P': rng.log(1e-3, 100), 'T': rng.uni(.1, .9), 'phi': rng.choice([0., 90., -90., 180., 270., rng.uni(-180, 180), rng.uni(-180, 180)]),
         'F': [rng.log(1, 1e5) for _ in range(rng.choice([1, 2, 3]))], 'lo': rng.uni(-1, 1) * LAM, 'loT': rng.choice([1, rng.uni(.2, .9)]),
         'arm': rng.choice(['none', 'loss', 'cavity', 'cavity', 'cavity', 'mirror']), 'sa': rng.log(1e-3, 1), 'rf': None, 'susp': None, 'drive': rng.choice(['am', 'pm', 'both'])}
    if s['arm'] == 'cavity':
        s['cav'] = {'T1': rng.log(.02, .5), 'T2': rng.log(.02, .5), 'L': rng.log(1, 3e4), 'd': rng.uni(-.2, .2) * LAM, 'loss': rng.choice([0., rng.log(1e-4, .02)])}
        if rng.chance(.7):
            s['susp'] = rng.choice([1, 2])
            s['mass'] = 4 * s['P'] / s['cav']['T1'] * 6e6 / 3e8 / (2 * np.pi * s['F'][0]) ** 2 * rng.log(.05, 5)
    if rng.chance(.35):
        s['rf'] = {'f': rng.log(1e6, 3e7), 'm': rng.uni(.05, .5), 'kind': rng.choice(['AM', 'PM']), 'where': rng.choice(['common', 'signal', 'lo']), 'order': rng.choice([1, 2])}
    if s['rf']:
        # keep the systems small
        s['F'] = s['F'][:1]
        if rng.chance(.5):
            s['susp'] = None
        else:
            s['rf']['order'] = 1
        if rng.chance(.6):
            s['rf']['order'] = 1
    s['multiple'] = 2 if rng.chance(.2) else 1
    s['rot'] = rng.uni(-180, 180) if rng.chance(.25) and not s['rf'] else None
    few = .15 if s['rf'] else .6
    s['with'] = [k for k in ('90', '0', 'quanta', 'relative') if rng.chance(few)]
    s['sweep'] = rng.choice([None, None, None, 'P', 'phi', 'lo', 'd']) if len(s['F']) == 1 else None
    if s['sweep']:
        s['n'] = rng.randint(2, 4)
        if s['sweep'] == 'phi':
            s['phi'] = [rng.choice([0., 90., rng.uni(-180, 180)]) for _ in range(s['n'])]
        elif s['sweep'] == 'P':
            s['P'] = [s['P'] * rng.log(.1, 1) for _ in range(s['n'])]
        elif s['sweep'] == 'lo':
            s['lo'] = [rng.uni(-1, 1) * LAM for _ in range(s['n'])]
        elif s['arm'] == 'cavity':
            s['cav']['d'] = [rng.uni(-.2, .2) * LAM for _ in range(s['n'])]
        else:
            s['sweep'] = None
    return s


def arr(v):
    return np.array(v) if isinstance(v, list) else v


def build(spec, source=True, balanced=True):
    from phasor import system, optics, readouts, base, signals, mechanical
    F = spec['F']
    kw = {'F_AC': np.array(F) if len(F) > 1 else F[0]}
    s = system.BGSystem(**kw)
    o = s.own
    rf = spec['rf']
    if rf:
        o.F = base.Frequency(F_Hz=rf['f'], order=rf['order'])
        o.RF = getattr(optics, rf['kind'])()
        o.G = signals.SignalGenerator(F=s.F, amplitude=rf['m'])
        s.bond(s.G.ps_Out, s.RF.Drv)
    o.L = optics.Laser(F=s.F_carrier_1064, power_W=arr(spec['P']), multiple=spec['multiple'])
    o.B1 = optics.Mirror(T_hr=spec['T'], AOI_deg=45)
    start = [s.L.po_Fr] + ([s.RF.po_Fr] if rf and rf['where'] == 'common' else []) + [s.B1.po_FrA]
    s.bond_sequence(*start)
    o.AM = optics.AM()
    o.PM = optics.PM()
    sig = [s.B1.po_BkA] + ([s.RF.po_Fr] if rf and rf['where'] == 'signal' else []) + [s.AM.po_Fr, s.PM.po_Fr]
    if spec['rot'] is not None:
        o.PR = optics.PolarizationRotator(rotate_deg=spec['rot'])
        sig += [s.PR.po_Fr]
    drives = []
    if spec['arm'] == 'loss':
        o.M0 = optics.Mirror(T_hr=spec['sa'])
        sig += [s.M0.po_Fr]
    elif spec['arm'] == 'mirror':
        # reflected by a beam splitter used as a folding mirror
        o.M0 = optics.Mirror(T_hr=min(.9, spec['sa']), AOI_deg=45)
        sig += [s.M0.po_FrA, 'split', s.M0.po_FrB]
    elif spec['arm'] == 'cavity':
        c = spec['cav']
        o.M1 = optics.Mirror(T_hr=c['T1'], L_hr=c['loss'])
        o.M2 = optics.Mirror(T_hr=c['T2'])
        o.S = optics.Space(L_m=c['L'], L_detune_m=arr(c['d']))
        s.bond_sequence(*(sig + [s.M1.po_Bk]))
        s.bond_sequence(s.M1.po_Fr, s.S.po_Fr, s.M2.po_Fr)
        sig = [s.M2.po_Bk]
        if spec['susp']:
            o.W = mechanical.Mass(mass_kg=spec['mass'])
            M = getattr(s, 'M%d' % spec['susp'])
            s.bond(M.Z, s.W.pm_A)
            drives = [('F', M.Z.F.i)]
    o.sg = optics.MagicPD()
    o.LO = optics.MagicPD()
    src = s.LO.po_Fr.i if source else None
    phi = arr(spec['phi'])
    w = spec['with']
    sig += [s.sg.po_Fr]
    hs = []
    for n, p in (('', phi), ('90', phi + 90), ('0', 0)):
        if not n or n in w:
            setattr(o, 'h' + n, optics.HiddenVariableHomodynePD(source_port=src, phase_deg=p, include_quanta=not n and 'quanta' in w,
                                                                include_relative=not n and 'relative' in w))
            hs.append((n, getattr(s, 'h' + n)))
            sig += [hs[-1][1].po_Fr]
    o.SLa = optics.Space(L_m=0, L_detune_m=arr(spec['lo']))
    o.SL = optics.Space(L_m=0, L_detune_m=LAM * phi / 360 / spec['multiple'])
    lo = [s.B1.po_FrB] + ([s.RF.po_Fr] if rf and rf['where'] == 'lo' else [])
    if spec['loT'] != 1:
        o.ML = optics.Mirror(T_hr=spec['loT'])
        lo += [s.ML.po_Fr]
    lo += [s.SLa.po_Fr, s.LO.po_Fr, s.SL.po_Fr]
    ports = {'S': s.sg.Wpd.o, 'L': s.LO.Wpd.o}
    o.A = optics.PD()
    o.B = optics.PD()
    o.B2 = optics.Mirror(T_hr=.5, AOI_deg=45)
    sig.append(s.B2.po_FrA)
    lo.append(s.B2.po_BkB)
    if 'split' in sig:
        k = sig.index('split')
        s.bond_sequence(*sig[:k])
        sig = sig[k + 1:]
    s.bond_sequence(*sig)
    s.bond_sequence(*lo)
    s.bond(s.B2.po_FrB, s.A.po_Fr)
    s.bond(s.B2.po_BkA, s.B.po_Fr)
    ports.update(A=s.A.Wpd.o, B=s.B.Wpd.o)
    for n, e in hs:
        ports['I' + n], ports['Q' + n] = e.rtWpdI.o, e.rtWpdQ.o
    ports['C'] = s.h.rtWpdCmn.o
    if 'quanta' in w:
        ports['qI'], ports['qQ'] = s.h.rtQuantumI.o, s.h.rtQuantumQ.o
    if 'relative' in w:
        ports['rI'], ports['rQ'] = s.h.RinI.o, s.h.RadQ.o
    if spec['drive'] != 'pm':
        drives.append(('AM', s.AM.Drv.i))
    if spec['drive'] != 'am':
        drives.append(('PM', s.PM.Drv.i))
    for k, p in ports.items():
        setattr(o, 'dc' + k, readouts.DCReadout(port=p))
        for n, d in drives:
            setattr(o, 'ac%s_%s' % (n, k), readouts.ACReadout(portD=d, portN=p, include_noise=False))
    npm = {k: ports[k] for k in ('A', 'B', 'I', 'Q', 'I0', 'Q0', 'I90', 'qI', 'qQ', 'S') if k in ports}
    o.N = readouts.NoiseReadout(port_map=npm)
    dc = {k: np.asarray(getattr(s, 'dc' + k).DC_readout) for k in ports}
    ac = {n: {k: np.asarray(getattr(s, 'ac%s_%s' % (n, k)).AC_sensitivity) for k in ports} for n, d in drives}
    N = {k: np.asarray(v) for k, v in s.N.CSD.items()}
    return dc, ac, N


def run(spec, mon):
    dc, ac, N = build(spec)
    phi = np.pi / 180 * np.asarray(arr(spec['phi']))
    c, sn = np.cos(phi), np.sin(phi)
    PL, PS = dc['L'].real, dc['S'].real
    rt = np.sqrt(PL)
    sc = np.sqrt(PS) + 1e-6 * rt
    w = spec['with']
    mon.close('dc', dc['I'], (dc['A'] - dc['B']) / 2 / rt, rtol=1e-6, scale=sc, detail='difference of a balanced detector')
    if spec['rf'] is None and spec['rot'] is None:
        mon.close('dc', dc['I'] ** 2 + dc['Q'] ** 2, PS, rtol=1e-6, scale=PS + 1e-6 * PL, detail='both quadratures carry the power')
    mon.close('common', dc['C'], (dc['A'] + dc['B']) / rt, rtol=1e-6, scale=rt + sc)
    hnu = HNU * spec['multiple']
    q = np.sqrt(hnu / 2)
    if '90' in w:
        mon.close('quadrature', dc['I90'], dc['Q'], rtol=1e-6, scale=sc)
    if '0' in w:
        mon.close('rotation', dc['I'], c * dc['I0'] + sn * dc['Q0'], rtol=1e-6, scale=sc)
        mon.close('rotation', dc['Q'], c * dc['Q0'] - sn * dc['I0'], rtol=1e-6, scale=sc)
    if 'quanta' in w:
        mon.close('quanta', dc['qI'] * q, dc['I'], rtol=1e-6, scale=sc)
        mon.close('quanta', dc['qQ'] * q, dc['Q'], rtol=1e-6, scale=sc)
    if 'relative' in w and np.all(PS > 1e-9 * PL):
        mon.close('relative', dc['rI'] * np.sqrt(PS), dc['I'], rtol=1e-6, scale=sc)
        mon.close('relative', dc['rQ'] * np.sqrt(PS), dc['Q'], rtol=1e-6, scale=sc)
    for n, a in ac.items():
        mag = np.max(abs(a['A'])) + np.max(abs(a['B']))
        sc = mag / rt + 1e-6 * rt
        mon.close('ac', a['I'], (a['A'] - a['B']) / 2 / rt, rtol=1e-6, scale=sc, detail=n)
        mon.close('ac', a['L'], 0, rtol=0, atol=(np.max(PL) + mag) * 1e-6, detail='reference unmodulated')
        mon.close('common', a['C'], (a['A'] + a['B']) / rt, rtol=1e-6, scale=sc, detail=n)
        if '90' in w:
            mon.close('quadrature', a['I90'], a['Q'], rtol=1e-6, scale=sc)
        if '0' in w:
            mon.close('rotation', a['I'], c * a['I0'] + sn * a['Q0'], rtol=1e-6, scale=sc)
        if 'quanta' in w:
            mon.close('quanta', a['qI'] * q, a['I'], rtol=1e-6, scale=sc)
        if 'relative' in w and np.all(PS > 1e-9 * PL):
            mon.close('relative', a['rQ'] * np.sqrt(PS), a['Q'], rtol=1e-6, scale=sc)
        if np.max(abs(a['I'] * rt)) > 1e-3 * mag:
            mon.event('modulated')
    diff = N['A', 'A'] + N['B', 'B'] - N['A', 'B'] - N['B', 'A']
    big = (abs(N['A', 'A']) + abs(N['B', 'B'])) / PL
    mon.close('noise', N['I', 'I'], diff / 4 / PL, rtol=1e-6, scale=big)
    mon.close('noise', N['I', 'A'], (N['A', 'A'] - N['B', 'A']) / 2 / rt, rtol=1e-6, scale=big * rt)
    mon.close('cross', N['I', 'S'], (N['A', 'S'] - N['B', 'S']) / 2 / rt, rtol=1e-6, scale=big * rt)
    mon.close('cross', N['Q', 'I'], np.conj(N['I', 'Q']), rtol=1e-6, scale=big)
    if '90' in w:
        mon.close('noise', N['I90', 'I90'], N['Q', 'Q'], rtol=1e-6, scale=big)
    if '0' in w:
        mon.close('noise', N['I', 'I'], c * c * N['I0', 'I0'] + sn * sn * N['Q0', 'Q0'] + c * sn * (N['I0', 'Q0'] + N['Q0', 'I0']), rtol=1e-6,
                  scale=big, detail='rotated')
    if 'quanta' in w:
        mon.close('quanta', N['qI', 'qQ'] * hnu / 2, N['I', 'Q'], rtol=1e-6, scale=big)
        mon.close('quanta', N['qI', 'qI'] * hnu / 2, N['I', 'I'], rtol=1e-6, scale=big)
    if np.max(abs(N['I', 'Q']) / big) > 1e-3:
        mon.event('correlated')
    if not spec['rf'] and not spec['susp']:
        # (with the shipped force law, KNOWN_FINDINGS K-force-law, a suspended mirror is not a canonical transformation)
        u = 2 / hnu
        d = u * u * (N['I', 'I'] * N['Q', 'Q'] - abs(N['I', 'Q']) ** 2).real
        mon.check('uncertainty', bool(np.all(d >= 1 - 1e-6 * u * u * np.max(abs(N['I', 'I'] * N['Q', 'Q'])))), lambda: 'determinant %s' % d)


def gen_self(rng):
    s = gen(rng)
    s['with'] = []
    if s['rf'] and s['rf']['where'] == 'lo':
        s['rf']['where'] = 'signal'
    return s


def run_self(spec, mon):
    """light referred to itself"""
    dc, ac, N = build(spec, source=False)
    phi = np.pi / 180 * np.asarray(arr(spec['phi']))
    c, sn = np.cos(phi), np.sin(phi)
    PS = dc['S'].real
    if np.any(PS < 1e-9 * dc['L'].real):
        raise Skip('dark')
    rt = np.sqrt(PS)
    mon.close('self', dc['I'], c * rt, rtol=1e-6, scale=rt)
    mon.close('self', dc['Q'], -sn * rt, rtol=1e-6, scale=rt)
    for n, a in ac.items():
        mag = np.max(abs(a['S'])) / rt + 1e-6 * rt * (1e9 if n == 'F' else 1)
        mon.close('self', a['I'], c * a['S'] / rt, rtol=1e-6, scale=mag, detail=n)
        if not spec['rf']:
            mon.close('self', a['Q'], -sn * a['S'] / rt, rtol=1e-6, scale=mag, detail=n)
    mon.close('self', N['I', 'S'], c * N['S', 'S'] / rt, rtol=1e-6, scale=N['S', 'S'].real / rt)


FAMILIES = {
    'balanced': Family(gen, run, quick=70, thorough=700, timeout=60),
    'self': Family(gen_self, run_self, quick=25, thorough=230, timeout=60),
}
