"""P13: readouts report consistent spectra, responses and rotations of them."""
import json

import numpy as np

from vlib import nets, netlist
from vlib.harness import Family, Skip
from vlib.optcheck import at

PROPERTY = 'P13'
RULE = ('seeded random optics / opto-mechanics / electronics / mechanics / signal systems with noise, each carrying on the same two or three '
        'ports: one multi-port NoiseReadout, single-port ones, ACReadouts with their own noise, ratio, closed-loop and loop-gain readouts and a '
        'HomodyneACReadout at a fixed or swept quadrature. Spectral matrices have to be hermitian, positive, equal to the sum over sources, and '
        'the same through every readout; every derived quantity has to be the stated function of them. Non-trivial: a spectrum '
        'above rounding was compared.')
ASSUMPTIONS = ['agreement to 1e-6 of the natural scale of each value, taken from the independent models of vlib',
               'networks without a well conditioned solution are out of domain']
REQUIRED = {'mon:hermitian': 300, 'mon:positive': 150, 'mon:source_sum': 300, 'mon:one_port': 150, 'mon:ac_psd': 150,
            'mon:nls': 60, 'mon:ratio': 60, 'mon:loop_gain': 20, 'mon:rotation': 60, 'mon:ellipse': 60,
            'mon:optimal': 40, 'cross spectra above rounding': 60}


def ports_of(spec):
    det, drv = [], []
    for n, c, k in spec['ros'] + spec['els']:
        for a in ('portN', 'port'):
            if a in k and isinstance(k[a], dict) and '$p' in k[a] and k[a]['$p'].endswith('.o') and c.startswith('readouts'):
                det.append(k[a]['$p'])
        for p in (k.get('port_map') or {}).values() if c.startswith('readouts') else ():
            if not p['$p'].endswith('.Z.d.o'):
                det.append(p['$p'])
        if c.endswith('ACReadout'):
            drv.append(k['portD']['$p'])
        if c in ('electronics.VoltageReadout',):
            det.append(n + '.V.o')
    det = [p for p in det if '.Z.F' not in p]
    return sorted(set(det)), sorted(set(drv))


def gen(rng):
    while True:
        d = rng.choice(['optics', 'optics', 'electronics', 'mechanics', 'signals', 'optomech', 'electromech'])
        spec = nets.gen_any(rng, sweep=rng.chance(.4), domain=d)
        noisy = spec['root'].get('include_johnson_noise') or d in ('optics', 'optomech') or any('Noise' in c for _, c, _ in spec['els'] + spec['ros'])
        if not noisy:
            continue
        det, drv = ports_of(spec)
        if len(det) < 2:
            continue
        break
    spec['det'] = rng.sample(det, min(len(det), rng.choice([2, 3, 3])))
    spec['drv'] = rng.sample(drv, min(len(drv), 2))
    ph = rng.choice([0., 90., 45., rng.uniform(-180, 360)])
    n = spec.get('nsweep') or 0
    if rng.chance(.4):
        ph = [rng.uniform(-180, 360) for _ in range(n or rng.randint(2, 4))]
    spec['phase'] = ph
    own = []
    P = lambda p: {'$p': p}
    own.append(['nm', 'readouts.NoiseReadout', {'port_map': dict(('x%d' % i, P(p)) for i, p in enumerate(spec['det']))}])
    own.append(['nr', 'readouts.NoiseReadout', {'port_map': {'u': P(spec['det'][1]), 'v': P(spec['det'][0])}}])
    for i, p in enumerate(spec['det']):
        own.append(['ns%d' % i, 'readouts.NoiseReadout', {'portN': P(p)}])
        for j, q in enumerate(spec['drv']):
            own.append(['ra%d_%d' % (i, j), 'readouts.ACReadout', {'portN': P(p), 'portD': P(q)}])
    for j, q in enumerate(spec['drv']):
        own.append(['rq%d' % j, 'readouts.ACReadout', {'portN': P(spec['det'][0]), 'portD': P(spec['det'][1]), 'portDrv': P(q)}])
        own.append(['rc%d' % j, 'readouts.ACReadoutCLG', {'portN': P(spec['det'][0]), 'portD': P(q)}])
        own.append(['hd%d' % j, 'readouts.HomodyneACReadout', {'portNI': P(spec['det'][0]), 'portNQ': P(spec['det'][1]), 'portD': P(q),
                                                               'phase_deg': {'$a': ph} if isinstance(ph, list) else ph}])
    if d == 'signals' and spec['drv']:
        own.append(['lg', 'readouts.ACReadoutLG', {'portAct': P(spec['drv'][0]), 'portSense': P(spec['drv'][-1])}])
        for j, q in enumerate(spec['drv']):
            own.append(['lp%d' % j, 'readouts.ACReadout', {'portN': P(q), 'portD': P(spec['drv'][0]), 'include_noise': False}])
        own.append(['ls', 'readouts.ACReadout', {'portN': P(spec['drv'][-1]), 'portD': P(spec['drv'][-1]), 'include_noise': False}])
    spec['own'] = own
    return spec


def scale_of(spec, sc, a, b):
    key = 'nm.CSD[{0},{1}]'.format(a, b)
    return np.array([r(key)[1] for r in sc])


def run(spec, mon):
    rs = nets.refs(spec)
    full = dict(spec, ros=spec['ros'] + spec['own'])
    full.pop('own')
    n = spec.get('nsweep') or 0
    rf = nets.refs(full)
    sim = netlist.build(full)
    det, drv = spec['det'], spec['drv']
    names = ['x%d' % i for i in range(len(det))]
    csd = sim.get('nm').CSD
    by = sim.get('nm').CSD_by_source
    npt = max(n, 1)

    def arr(v):
        return np.broadcast_to(np.asarray(v, dtype=complex), (npt,) + np.shape(v)[1:] if np.ndim(v) else (npt,))

    C = np.array([[arr(csd[a, b]) for b in names] for a in names])      # a, b, point
    S = np.array([[scale_of(full, rf, a, b) for b in names] for a in names])
    # the natural scale of each detector, where the diagonal is negligible against it the matrix is only rounding
    for i, a in enumerate(names):
        mon.check('diagonal_real', np.all(abs(np.imag(np.asarray(csd[a, a]))) == 0), str(csd[a, a]))
        for j, b in enumerate(names):
            mon.close('hermitian', C[i, j], C[j, i].conj(), rtol=1e-6,
                      scale=np.maximum(np.maximum(S[i, j], S[j, i]), np.sqrt(S[i, i] * S[j, j])), key=(a, b))
            tot = 0
            for nobj in by:
                v = by[nobj]
                tot = tot + (v[a, b] if (a, b) in v else 0)
            mon.close('source_sum', arr(tot), C[i, j], rtol=1e-9, scale=S[i, j], key=(a, b))
            if i != j and np.any(abs(C[i, j]) > 1e-3 * np.sqrt(abs(C[i, i] * C[j, j]))) and np.any(abs(C[i, j]) > 1e-3 * S[i, j]):
                mon.event('cross spectra above rounding')
    mon.event('sources', len(by))
    for p in range(npt):
        # normalise each detector by its own scale before asking for positivity
        s = np.sqrt(np.array([S[i, i][p] for i in range(len(names))]))
        s[s == 0] = 1
        M = C[:, :, p] / s[:, None] / s[None, :]
        e = np.linalg.eigvalsh((M + M.conj().T) / 2)
        mon.check('positive', e[0] > -1e-7 * max(1, e[-1]), lambda: 'eigenvalues {0}'.format(e))
        for nobj in by:
            v = by[nobj]
            M = np.array([[arr(v[a, b] if (a, b) in v else 0)[p] for b in names] for a in names]) / s[:, None] / s[None, :]
            if np.max(abs(M)) < 1e-7:
                continue
            e = np.linalg.eigvalsh((M + M.conj().T) / 2)
            mon.check('source_positive', e[0] > -1e-7 * max(1, e[-1]), lambda: '{0}: eigenvalues {1}'.format(nobj.name_system, e))
            mon.check('source_hermitian', np.max(abs(M - M.conj().T)) < 1e-7 * max(1, e[-1]), lambda: '{0}: {1}'.format(nobj.name_system, M))
    # the same ports through other readouts
    nr = sim.get('nr').CSD
    for (a, i) in (('u', 1), ('v', 0)):
        for (b, j) in (('u', 1), ('v', 0)):
            mon.close('other_names', arr(nr[a, b]), C[i, j], rtol=1e-8, scale=S[i, j], key=(a, b))
    for i, a in enumerate(names):
        one = arr(sim.get('ns%d' % i).CSD['R', 'R'])
        mon.close('one_port', one, C[i, i], rtol=1e-8, scale=S[i, i], key=a)
        for j in range(len(drv)):
            ra = sim.get('ra%d_%d' % (i, j))
            mon.close('ac_psd', arr(ra.AC_PSD), C[i, i], rtol=1e-8, scale=S[i, i], key=a)
            if np.all(np.real(C[i, i]) > 1e-9 * S[i, i]):
                mon.close('ac_asd', arr(ra.AC_ASD)**2, arr(ra.AC_PSD), rtol=1e-10, scale=S[i, i], key=a)
            mon.close('ac_by_source', arr(sum(ra.AC_PSD_by_source.values())), arr(ra.AC_PSD), rtol=1e-9, scale=S[i, i], key=a)
            sens = arr(ra.AC_sensitivity)
            if np.all(sens != 0) and np.all(np.real(arr(ra.AC_PSD)) > 0):
                nls = arr(ra.AC_noise_limited_sensitivity)
                mon.close('nls', (nls * abs(sens))**2, arr(ra.AC_PSD), rtol=1e-8, scale=abs(arr(ra.AC_PSD)), key=a)
    # responses
    for j in range(len(drv)):
        r0, r1 = (arr(sim.get('ra%d_%d' % (i, j)).AC_sensitivity) for i in (0, 1))
        sc = np.array([r('ra0_%d.AC_sensitivity' % j)[1] for r in rf])
        sc1 = np.array([r('ra1_%d.AC_sensitivity' % j)[1] for r in rf])
        mon.close('clg_response', arr(sim.get('rc%d' % j).AC_sensitivity), r0, rtol=1e-8, scale=sc, key=j)
        mon.close('clg_psd', arr(sim.get('rc%d' % j).AC_PSD), C[0, 0], rtol=1e-8, scale=S[0, 0], key=j)
        mon.close('drive_elsewhere', arr(sim.get('rq%d' % j).AC_sensitivity), r0, rtol=1e-8, scale=sc, key=j)
        if np.all(abs(r1) > 1e-4 * sc1):
            mon.close('ratio', arr(sim.get('rq%d' % j).AC_sensitivityOL) * r1, r0, rtol=1e-8, scale=sc + abs(r0), key=j)
        if np.all(r0 == 0) and np.all(r1 == 0):
            mon.event('drive without effect')
            continue
        homodyne(sim.get('hd%d' % j), sim, j, spec, C, S, arr, mon)
    if spec['domain'] == 'signals' and drv:
        lg = sim.get('lg')
        self_ = arr(sim.get('ls').AC_sensitivity)
        mon.close('loop_gain', arr(lg.CLG), self_, rtol=1e-9, scale=1 + abs(self_))
        if np.all(abs(self_) > 1e-6):
            mon.close('loop_gain', arr(lg.OLG), 1 / self_ - 1, rtol=1e-8, scale=1 + abs(1 / self_))
        # (act on the first, sense at the last)
        D, N = arr(sim.get('lp0').AC_sensitivity), arr(sim.get('lp%d' % (len(drv) - 1)).AC_sensitivity)
        if np.all(abs(D) > 1e-6) and 'AC-' not in json.dumps(spec['root']):
            mixed = any(c.endswith(('Mixer', 'Modulator', 'Generator')) for _, c, _ in spec['els'])
            if not mixed:
                mon.close('plant', arr(lg.GPlant), N / D, rtol=1e-8, scale=1 + abs(N / D))


def homodyne(hd, sim, j, spec, C, S, arr, mon):
    ph = np.asarray(spec['phase'], dtype=float)
    npt = C.shape[2]
    m = max(npt, ph.size)
    th = np.radians(np.broadcast_to(ph, (m,)))
    Cp = np.broadcast_to(C[:2, :2], (2, 2, m)) if npt == 1 else C[:2, :2]
    Sp = np.broadcast_to(np.maximum(np.maximum(S[0, 0], S[1, 1]), np.maximum(S[0, 1], S[1, 0])), (m,))
    R = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    want = np.einsum('iap,abp,jbp->ijp', R, Cp, R)

    def full(v, k=0):
        v = np.asarray(v, dtype=complex)
        if v.ndim == k:
            v = v[..., None]
        return np.broadcast_to(v, v.shape[:-1] + (m,))
    got = full(hd.AC_CSD_IQ, 2)
    mon.close('rotation', got, want, rtol=1e-8, scale=4 * Sp, key='CSD')
    mon.close('rotation', full(hd.AC_PSD), want[0, 0], rtol=1e-8, scale=4 * Sp, key='PSD')
    bys = hd.AC_PSD_by_source
    mon.close('rotation', full(sum(bys.values())) if bys else 0, want[0, 0] if bys else 0, rtol=1e-8, scale=4 * Sp, key='by source')
    r = np.array([arr(sim.get('ra%d_%d' % (i, j)).AC_sensitivityOL) for i in (0, 1)])
    r = np.broadcast_to(r, (2, m)) if npt == 1 else r
    if not np.all(np.isfinite(r)):
        return
    ws = np.einsum('iap,ap->ip', R, r)
    rs = np.max(abs(r), axis=0)
    mon.close('rotation', full(hd.AC_sensitivity_IQ, 1), ws, rtol=1e-8, scale=rs, key='response')
    mon.close('rotation', full(hd.AC_sensitivity), ws[0], rtol=1e-8, scale=rs, key='response')
    if np.all(abs(ws[0]) > 1e-6 * rs) and np.all(want[0, 0].real > 1e-6 * Sp):
        mon.close('rotation', full(hd.AC_noise_limited_sensitivity)**2 * abs(ws[0])**2, want[0, 0], rtol=1e-7, scale=4 * Sp, key='nls')
    # noise ellipse of the real part
    re = np.moveaxis(np.real(want), -1, 0)
    ok = np.all(np.isfinite(re)) and np.all(Sp > 0) and all(np.all(np.diag(x) > 1e-6 * s) and max(np.diag(x)) < 1e6 * min(np.diag(x))
             and np.linalg.cond(x / np.sqrt(np.outer(np.diag(x), np.diag(x)))) < 1e6 for x, s in zip(re, Sp))
    if not ok:
        return
    el = hd.AC_CSD_ellipse
    e = np.linalg.eigvalsh(re).T
    mon.close('ellipse', full(el['min']), e[0], rtol=1e-6, scale=Sp, key='min')
    mon.close('ellipse', full(el['max']), e[1], rtol=1e-6, scale=Sp, key='max')
    mon.close('ellipse', full(el['Q']), want[1, 1], rtol=1e-6, scale=Sp, key='Q')
    mon.close('ellipse', full(el['IQ']), want[0, 1], rtol=1e-6, scale=Sp, key='IQ')
    # conditional variances
    mon.close('ellipse', full(el['Imin']) * re[:, 1, 1], np.linalg.det(re), rtol=1e-6, scale=e[1]**2, key='Imin')
    mon.close('ellipse', full(el['Qmin']) * re[:, 0, 0], np.linalg.det(re), rtol=1e-6, scale=e[1]**2, key='Qmin')
    if np.all(e[1] - e[0] > 1e-3 * e[1]):
        a = full(el['rad']).real
        # (the angle is counted from the major axis to the first quadrature)
        v = np.array([np.cos(a), -np.sin(a)])
        mon.close('ellipse_angle', np.einsum('ap,pab,bp->p', v, re, v), e[1], rtol=1e-5, scale=e[1], key='angle')
    nrm = hd.AC_CSD_ellipse_norm
    mon.close('ellipse', full(nrm['min'])**2 * e[1], e[0], rtol=1e-6, scale=e[1], key='norm')
    # no quadrature does better than the optimum
    if np.all(np.isfinite(ws)) and np.all(rs > 0):
        best = full(hd.AC_noise_limited_sensitivity_optimal).real
        for ang in np.linspace(0, np.pi, 13):
            c, s = np.cos(ang), np.sin(ang)
            sens = abs(c * ws[0] + s * ws[1])
            noise = c * c * re[:, 0, 0] + s * s * re[:, 1, 1] + c * s * (re[:, 0, 1] + re[:, 1, 0])
            mon.check('optimal', np.all(best * sens <= np.sqrt(noise) * (1 + 1e-6)), lambda: '{0} at {1}'.format(best * sens / np.sqrt(noise), ang))
        inv = np.moveaxis(full(hd.AC_CSD_IQ_re_inv, 2), -1, 0)
        mon.close('inverse', np.einsum('pab,pbc->pac', inv, re), np.broadcast_to(np.eye(2), re.shape), rtol=1e-4, scale=1)


FAMILIES = {
    'all': Family(gen, run, quick=260, thorough=3000, timeout=40),
}
