"""Random optical layouts (netlists) and an independent dense model of them.

The model is written from the documented meaning of the elements: travelling field amplitudes
E with |E|^2 in watts, time convention exp(+i w t), a sideband grid w_c + n*F_RF + m*F_AC
(m in -1,0,1), first order in the audio drive.  It never touches the simulator.
"""
import math

import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as spl


class Trip(object):
    """coordinate-format accumulator"""

    def __init__(self, n):
        self.n = n
        self.i, self.j, self.v = [], [], []

    def add(self, i, j, v):
        self.i.append(i)
        self.j.append(j)
        self.v.append(v)

    def tocsr(self):
        return sps.coo_matrix((np.asarray(self.v, dtype=complex), (self.i, self.j)), shape=(self.n, self.n)).tocsr()


C = 299792458.
H = 6.62606957e-34
LAM = 1064e-9
PORTS2 = ['po_Fr', 'po_Bk']
PORTS4 = ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB']


# ------------------------------------------------------------------ generation

def _mirror_kw(rng, aoi=None, loss=True):
    T = rng.choice([rng.uni(.05, .5), rng.uni(.5, .95), rng.log(.01, .1)])
    L = rng.choice([0, 0, rng.uni(.01, .04)]) if loss else 0
    kw = dict(T_hr=T, L_hr=L)
    if loss and rng.chance(.2):
        kw['L_t'] = T * rng.uni(.05, .5)
    if rng.chance(.25):
        if rng.chance(.5):
            kw['phase_deg'] = rng.uni(-180, 180)
        else:
            kw['phase_rad'] = rng.uni(-3, 3)
    if rng.chance(.2):
        kw['flip_sign'] = True
    if aoi is not None:
        kw['AOI_deg'] = aoi
    return kw


def gen(rng, max_el=6, rf=None, pol=None, harmonic=None, noise=True, ac=True, rp=None, sweep=False,
        lossless=False, all_pd=True, backscatter=False, selectors=True):
    """A random layout, as a netlist."""
    rf = rng.chance(.35) if rf is None else rf
    pol = rng.chance(.4) if pol is None else pol
    harmonic = rng.chance(.2) if harmonic is None else harmonic
    rp = (ac and rng.chance(.3)) if rp is None else rp
    if rf and pol and rng.chance(.6):
        pol = False
    els, bonds, ros, obs, freqs = [], [], [], [], []
    ports = []
    nsweep = rng.randint(2, 5) if sweep else 0

    def val(v, lo=None):
        return v

    fac = rng.log(1, 1e6)
    root = dict(F_AC=fac)
    order = 1
    if rf:
        order = rng.choice([1, 1, 2, 2, 3])
        fk = dict(F_Hz=rng.log(1e6, 5e7))
        if order != 2 or rng.chance(.5):
            fk['order'] = order
        freqs.append(['FRF', fk])
    # lasers
    nl = rng.choice([1, 1, 1, 2])
    for i in range(nl):
        kw = dict(F={'$p': 'F_carrier_1064'}, power_W=rng.log(.01, 10))
        if rng.chance(.5):
            kw[rng.choice(['phase_deg'])] = rng.uni(-180, 180)
        if pol and rng.chance(.4):
            kw['polarization'] = 'P'
        if harmonic and (i == 1 or (nl == 1 and rng.chance(.3))):
            kw['multiple'] = 2
        if rf and i == 1 and rng.chance(.3) and order >= 1:
            kw['classical_fdict'] = {'$fd': [['FRF', rng.choice([1, -1])]]}
        els.append(['L{0}'.format(i), 'optics.Laser', kw])
        ports.append('L{0}.po_Fr'.format(i))
    n = rng.randint(2, max_el)
    kinds = ['mirror', 'mirror', 'bs', 'space', 'space', 'mpd']
    if pol:
        kinds += ['farad', 'hwp', 'qwp', 'prot', 'pmir', 'uhwp', 'uqwp'] + ['psel'] * selectors
    if harmonic:
        kinds += ['hmir', 'hmir'] + ['hsel'] * selectors
    if rng.chance(.3):
        kinds += ['circ']
    mirrors = []
    mods = []
    for i in range(n):
        k = rng.choice(kinds)
        nm = 'e{0}'.format(i)
        if k == 'mirror':
            els.append([nm, 'optics.Mirror', _mirror_kw(rng, loss=not lossless)])
            pl = PORTS2
            mirrors.append(nm)
        elif k == 'bs':
            kw = _mirror_kw(rng, rng.choice([45, 45, 30., 60, rng.uni(5, 80)]), loss=not lossless)
            if backscatter and rng.chance(.6):
                kw['R_backscatter'] = rng.uni(.005, .03)
                if rng.chance(.5):
                    kw['backscatter_phase_rad'] = rng.uni(-3, 3)
                if lossless:
                    # with separate phases on the two reflections the element is no longer unitary
                    kw['backscatter_phase_rad'] = kw.get('phase_rad', 0.)
                    if 'phase_deg' in kw:
                        kw['backscatter_phase_rad'] = kw['phase_deg'] * math.pi / 180
            els.append([nm, 'optics.Mirror', kw])
            pl = PORTS4
            mirrors.append(nm)
        elif k == 'space':
            kw = {rng.choice(['L_m', 'length_m']): rng.choice([rng.log(.01, 10), rng.log(10, 4e4)])}
            kw = {'L_m': list(kw.values())[0]}
            if rng.chance(.6):
                kw['L_detune_m'] = rng.uni(-1, 1) * LAM
            els.append([nm, 'optics.Space', kw])
            pl = PORTS2
        elif k == 'mpd':
            els.append([nm, 'optics.MagicPD', {}])
            pl = PORTS2
        elif k in ('farad', 'prot', 'hwp', 'qwp'):
            c = dict(farad='FaradayRotator', prot='PolarizationRotator', hwp='HalfWavePlate', qwp='QuarterWavePlate')[k]
            ang = rng.choice([45, 90, -90, 180, 22.5, rng.uni(-180, 180), rng.uni(-180, 180)])
            if rng.chance(.1):
                ang = 0
            els.append([nm, 'optics.' + c, dict(rotate_deg=ang)])
            pl = PORTS2
        elif k in ('uhwp', 'uqwp'):
            els.append([nm, 'optics.Unmounted{0}WavePlate'.format('Half' if k == 'uhwp' else 'Quarter'), {}])
            pl = PORTS2
        elif k in ('pmir', 'hmir'):
            aoi = rng.choice([0, 45, 45])
            a, b = ('mirror_S', 'mirror_P') if k == 'pmir' else ('mirror_H1', 'mirror_H2')
            els.append([nm, 'netx.' + ('PolarizingMirror' if k == 'pmir' else 'HarmonicMirror'),
                        {'AOI_deg': aoi, a: _mirror_kw(rng, loss=not lossless), b: _mirror_kw(rng, loss=not lossless)}])
            pl = PORTS2 if aoi == 0 else PORTS4
        elif k == 'psel':
            els.append([nm, 'optics.PolarizingSelector', {}])
            pl = ['po_Fr', 'Bk_S', 'Bk_P']
        elif k == 'hsel':
            els.append([nm, 'optics.HarmonicSelector', {}])
            pl = ['po_Fr', 'Bk_H1', 'Bk_H2']
        elif k == 'circ':
            N = rng.choice([3, 3, 4])
            els.append([nm, 'optics.OpticalCirculator', dict(N_ports=N)])
            pl = ['P{0}'.format(j) for j in range(N)]
        ports += [nm + '.' + p for p in pl]
    sigs = []
    if rf:
        for j in range(rng.choice([1, 1, 2])):
            nm = 'rm{0}'.format(j)
            k = rng.choice(['PM', 'PM', 'AM'])
            els.append([nm, 'optics.' + k, {}])
            kw = dict(F={'$p': 'FRF'}, amplitude=rng.uni(.05, .6))
            if rng.chance(.5):
                kw['phase_deg'] = rng.uni(-180, 180)
            els.append(['lo{0}'.format(j), 'signals.SignalGenerator', kw])
            sigs.append(['lo{0}.ps_Out'.format(j), nm + '.Drv'])
            ports += [nm + '.po_Fr', nm + '.po_Bk']
    if ac and rng.chance(.5):
        k = rng.choice(['PM', 'AM', 'AMPM'])
        els.append(['am', 'optics.' + k, {}])
        mods.append(k)
        ports += ['am.po_Fr', 'am.po_Bk']
    # bond at random; always give the lasers something
    rng.shuffle(ports)
    lp = [p for p in ports if p[0] == 'L']
    free = [p for p in ports if p[0] != 'L']
    for p in lp:
        if free:
            bonds.append([p, free.pop()])
    frac = rng.uni(.3, .95)
    nb = int(len(free) * frac / 2)
    for _ in range(nb):
        a = free.pop()
        b = free.pop()
        bonds.append([a, b])
    # detectors on the remaining ports
    npd = 0
    rest = []
    for p in free:
        if all_pd or npd == 0 or rng.chance(.6):
            nm = 'pd{0}'.format(npd)
            els.append([nm, 'optics.PD', {}])
            bonds.append([p, nm + '.po_Fr'])
            npd += 1
        else:
            rest.append(p)
    bonds += sigs
    outs = ['pd{0}.Wpd.o'.format(i) for i in range(npd)]
    outs += [n_ + '.Wpd.o' for n_, c, k in els if c == 'optics.MagicPD']
    for i, p in enumerate(outs):
        ros.append(['dc{0}'.format(i), 'readouts.DCReadout', dict(port={'$p': p})])
        obs.append(['dc{0}'.format(i), 'DC_readout'])
    for m in mirrors:
        if rng.chance(.5):
            ros.append(['f' + m, 'readouts.DCReadout', dict(port={'$p': m + '.Z.F.i'})])
            obs.append(['f' + m, 'DC_readout'])
    if rp:
        for m in mirrors:
            if rng.chance(.7):
                els.append(['mass' + m, 'mechanical.Mass', dict(mass_kg=rng.log(1e-3, 10))])
                bonds.append([m + '.Z', 'mass{0}.pm_A'.format(m)])
    drives = []
    if ac and outs:
        massed = set(b[0][:-2] for b in bonds if b[0].endswith('.Z'))
        drives += [m + '.Z.d.o' for m in mirrors if m not in massed]
        drives += [m + '.Z.F.i' for m in mirrors if m in massed]
        for k in mods:
            drives += ['am.Drv.i'] if k != 'AMPM' else ['am.DrvAM.i', 'am.DrvPM.i']
            if k != 'AM' and rng.chance(.5):
                # (frequency modulation: a phase drive behind an integrator)
                drives[-1] = 'am.FM2PM.ps_In.i'
        if len(drives) > 3:
            drives = rng.sample(drives, 3)
        i = 0
        for d in drives:
            for p in rng.sample(outs, min(len(outs), 2)):
                nm = 'ac{0}'.format(i)
                i += 1
                ros.append([nm, 'readouts.ACReadout', dict(portD={'$p': d}, portN={'$p': p}, include_noise=False)])
                obs.append([nm, 'AC_sensitivity'])
        if noise:
            for j, p in enumerate(rng.sample(outs, min(len(outs), 2))):
                nm = 'nz{0}'.format(j)
                ros.append([nm, 'readouts.NoiseReadout', dict(portN={'$p': p})])
                obs.append([nm, 'CSD'])
            cands = outs + [m + '.Z.d.o' for m in sorted(massed)]
            if len(cands) >= 2 and rng.chance(.8 if massed else .4):
                a, b = rng.sample(cands, 2)
                if a.endswith('Z.d.o') and b.endswith('Z.d.o') and a != b and rng.chance(.5):
                    b = rng.choice(outs)
                ros.append(['nzx', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': a}, 'B': {'$p': b}})])
                obs.append(['nzx', 'CSD'])
    spec = dict(domain='optics', root=root, freqs=freqs, els=els, bonds=bonds, ros=ros, obs=obs, order=order if rf else 0)
    if sweep:
        _sweepify(rng, spec, nsweep)
    return spec


def _sweepify(rng, spec, n):
    """turn some scalar parameters into arrays of one common length"""
    cand = []
    for i, (nm, c, k) in enumerate(spec['els']):
        for key in k:
            if (c, key) in (('optics.Laser', 'power_W'), ('optics.Laser', 'phase_deg'), ('optics.Space', 'L_detune_m'),
                            ('optics.Mirror', 'T_hr'), ('optics.Mirror', 'L_hr'), ('optics.Space', 'L_m'),
                            ('signals.SignalGenerator', 'amplitude'), ('mechanical.Mass', 'mass_kg')):
                if isinstance(k[key], (int, float)) and not (key == 'L_hr' and k[key] == 0) and not (key == 'T_hr' and k.get('L_t')):
                    cand.append((i, key))
    picks = rng.sample(cand, min(len(cand), rng.randint(1, 2))) if cand else []
    if not picks or rng.chance(.6):
        v = spec['root']['F_AC']
        spec['root']['F_AC'] = {'$a': [v * f for f in sorted(rng.log(.1, 10) for _ in range(n))]}
    for i, key in picks:
        v = spec['els'][i][2][key]
        if key == 'T_hr':
            arr = [rng.uni(.05, .9) for _ in range(n)]
        elif key == 'phase_deg':
            arr = [rng.uni(-180, 180) for _ in range(n)]
        else:
            arr = [v * rng.uni(.3, 1.) for _ in range(n)]
        spec['els'][i][2][key] = {'$a': arr}
    spec['nsweep'] = n


# ------------------------------------------------------------------ independent model

class Model(object):
    """Dense sideband model of a (scalar) optical netlist."""

    def __init__(self, spec, order=None):
        self.spec = spec
        self.kw = dict((n, k) for n, c, k in spec['els'])
        self.cls = dict((n, c.split('.')[-1]) for n, c, k in spec['els'])
        self.fac = spec['root'].get('F_AC', 1e-4)
        fr = spec.get('freqs', [])
        self.frf = fr[0][1]['F_Hz'] if fr else 0.
        if fr:
            self.N = fr[0][1].get('order', 2)
        else:
            self.N = 0
        self.mate = {}
        self.drive = {}
        self.mass = {}
        for a, b in spec['bonds']:
            if self.is_opt(a):
                self.mate[a] = b
                self.mate[b] = a
            elif b.endswith('.Drv'):
                self.drive[b.split('.')[0]] = a.split('.')[0]
            elif a.endswith('.Z'):
                self.mass[a.split('.')[0]] = self.kw[b.split('.')[0]]['mass_kg']
        self.cs = sorted(set([1] + [self.kw[n].get('multiple', 1) for n, c in self.cls.items() if c == 'Laser']))
        self.ns = list(range(-self.N, self.N + 1))
        self.ports = []
        for n, c, k in spec['els']:
            self.ports += [n + '.' + p for p in self.port_names(n)]
        self.index()
        self.solve_dc()

    def is_opt(self, p):
        n, q = p.split('.', 1)
        return q in self.port_names(n)

    def port_names(self, n):
        c = self.cls[n]
        if c in ('Laser', 'PD'):
            return ['po_Fr']
        if c in ('Mirror', 'PolarizingMirror', 'HarmonicMirror'):
            return PORTS4 if self.kw[n].get('AOI_deg', 0) else PORTS2
        if c == 'PolarizingSelector':
            return ['po_Fr', 'Bk_S', 'Bk_P']
        if c == 'HarmonicSelector':
            return ['po_Fr', 'Bk_H1', 'Bk_H2']
        if c == 'OpticalCirculator':
            return ['P{0}'.format(j) for j in range(self.kw[n]['N_ports'])]
        if c in ('SignalGenerator', 'Mass'):
            return []
        return PORTS2

    def index(self):
        self.ix = {}
        for p in self.ports:
            for d in 'io':
                for pol in 'SP':
                    self.ix[p, d, pol] = len(self.ix)
        self.nf = len(self.ix)

    # --- scattering of one element for carrier c and offset frequency f: list (pin, polin, pout, polout, value)
    def scatter(self, n, c, f):
        k = self.kw[n]
        cl = self.cls[n]
        out = []

        def both(a, b, v):
            for pol in 'SP':
                out.append((a, pol, b, pol, v))
        if cl == 'Space':
            ph = np.exp(-2j * np.pi * (f * k['L_m'] / C + k.get('L_detune_m', 0) * c / LAM))
            both('po_Fr', 'po_Bk', ph)
            both('po_Bk', 'po_Fr', ph)
        elif cl == 'Mirror':
            for a, b, v, _ in self.mirror_terms(k):
                both(a, b, v)
        elif cl == 'PolarizingMirror':
            for pol, key in (('S', 'mirror_S'), ('P', 'mirror_P')):
                kk = dict(k[key], AOI_deg=k['AOI_deg'])
                for a, b, v, _ in self.mirror_terms(kk):
                    out.append((a, pol, b, pol, v))
        elif cl == 'HarmonicMirror':
            kk = dict(k['mirror_H1' if c == 1 else 'mirror_H2'], AOI_deg=k['AOI_deg'])
            for a, b, v, _ in self.mirror_terms(kk):
                both(a, b, v)
        elif cl in ('MagicPD', 'PM', 'AM', 'AMPM'):
            both('po_Fr', 'po_Bk', 1)
            both('po_Bk', 'po_Fr', 1)
        elif cl == 'PolarizingSelector':
            for pol in 'SP':
                out.append(('po_Fr', pol, 'Bk_' + pol, pol, 1))
                out.append(('Bk_' + pol, pol, 'po_Fr', pol, 1))
        elif cl == 'HarmonicSelector':
            b = 'Bk_H1' if c == 1 else 'Bk_H2'
            both('po_Fr', b, 1)
            both(b, 'po_Fr', 1)
        elif cl == 'OpticalCirculator':
            N = k['N_ports']
            for j in range(N):
                both('P{0}'.format(j), 'P{0}'.format((j + 1) % N), 1)
        elif cl in ('FaradayRotator', 'PolarizationRotator', 'HalfWavePlate', 'QuarterWavePlate',
                    'UnmountedHalfWavePlate', 'UnmountedQuarterWavePlate'):
            a = k.get('rotate_deg', 0) * np.pi / 180
            R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])  # (S,P) <- (S,P)
            plate = np.diag([1, 1j if 'Quarter' in cl else -1])
            if cl == 'FaradayRotator':
                Jf = Jb = R
            elif cl == 'PolarizationRotator':
                Jf, Jb = R, R.T
            elif cl.startswith('Unmounted'):
                Jf = Jb = plate
            else:
                Jf = R.T @ plate @ R
                Jb = Jf.T
            for i, po in enumerate('SP'):
                for j, pi in enumerate('SP'):
                    out.append(('po_Fr', pi, 'po_Bk', po, Jf[i, j]))
                    out.append(('po_Bk', pi, 'po_Fr', po, Jb[i, j]))
        return [(n + '.' + a, pa, n + '.' + b, pb, v) for a, pa, b, pb, v in out]

    @staticmethod
    def mirror_terms(k):
        """(pin, pout, amplitude, moving sign or 0)"""
        bs = k.get('R_backscatter', 0)
        R = 1 - k['T_hr'] - k.get('L_hr', 0) - bs
        T = k['T_hr'] - k.get('L_t', 0)
        sg = -1 if k.get('flip_sign') else 1
        ph = k.get('phase_rad', k.get('phase_deg', 0) * np.pi / 180)
        r = sg * np.sqrt(R) * np.exp(1j * ph)
        # seen from the back the same position gives the opposite phase
        rb = sg * np.sqrt(R) * np.exp(-1j * ph)
        b = sg * np.sqrt(bs) * np.exp(1j * k.get('backscatter_phase_rad', k.get('backscatter_phase_deg', 0) * np.pi / 180))
        bb = np.conj(b)
        t = np.sqrt(T)
        if not k.get('AOI_deg', 0):
            out = [('po_Fr', 'po_Fr', r, 1), ('po_Bk', 'po_Bk', -rb, -1),
                   ('po_Fr', 'po_Bk', t, 0), ('po_Bk', 'po_Fr', t, 0)]
        else:
            out = [('po_FrA', 'po_FrB', r, 1), ('po_FrB', 'po_FrA', r, 1),
                   ('po_BkA', 'po_BkB', -rb, -1), ('po_BkB', 'po_BkA', -rb, -1),
                   ('po_FrA', 'po_BkA', t, 0), ('po_BkA', 'po_FrA', t, 0),
                   ('po_FrB', 'po_BkB', t, 0), ('po_BkB', 'po_FrB', t, 0)]
            if bs:
                out += [('po_FrA', 'po_FrA', b, 1), ('po_FrB', 'po_FrB', -b, 1),
                        ('po_BkA', 'po_BkA', -bb, -1), ('po_BkB', 'po_BkB', bb, -1)]
        return out

    def linear(self, m, conj=False):
        """per carrier: dense matrix M with x = M x + s over (n, field), at f = n*FRF + m*FAC"""
        res = {}
        nf = self.nf
        for c in self.cs:
            M = Trip(len(self.ns) * nf)
            for a, n in enumerate(self.ns):
                f = n * self.frf + m * self.fac
                o = a * nf
                for nm in self.cls:
                    for pin, p1, pout, p2, v in self.scatter(nm, c, f):
                        M.add(o + self.ix[pout, 'o', p2], o + self.ix[pin, 'i', p1], v)
                for p, q in self.mate.items():
                    for pol in 'SP':
                        M.add(o + self.ix[q, 'i', pol], o + self.ix[p, 'o', pol], 1)
            # radio frequency modulators
            for md, lo in self.drive.items():
                kw = self.kw[lo]
                a = kw['amplitude'] * np.exp(1j * kw.get('phase_deg', 0) * np.pi / 180)
                g = (.5j if self.cls[md] == 'PM' else .5)
                for b, n in enumerate(self.ns):
                    for dn, amp in ((1, a), (-1, np.conj(a))):
                        if n + dn in self.ns:
                            b2 = self.ns.index(n + dn)
                            for p1, p2 in (('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')):
                                for pol in 'SP':
                                    M.add(b2 * nf + self.ix[md + '.' + p2, 'o', pol], b * nf + self.ix[md + '.' + p1, 'i', pol], g * amp)
            M = M.tocsr()
            res[c] = M.conj() if conj else M
        return res

    def solve_dc(self):
        nf = self.nf
        Ms = self.linear(0)
        self.E = {}
        self.cond = 0
        for c in self.cs:
            s = np.zeros(len(self.ns) * nf, dtype=complex)
            for n, cl in self.cls.items():
                if cl == 'Laser' and self.kw[n].get('multiple', 1) == c:
                    k = self.kw[n]
                    off = 0
                    if 'classical_fdict' in k:
                        off = k['classical_fdict']['$fd'][0][1]
                    ph = k.get('phase_rad', k.get('phase_deg', 0) * np.pi / 180)
                    s[self.ns.index(off) * nf + self.ix[n + '.po_Fr', 'o', k.get('polarization', 'S')]] += \
                        np.sqrt(k['power_W']) * np.exp(1j * ph)
            A = (sps.identity(len(s), dtype=complex) - Ms[c]).tocsc()
            try:
                lu = spl.splu(A)
            except RuntimeError:
                raise np.linalg.LinAlgError('singular')
            op = spl.LinearOperator(A.shape, dtype=complex, matvec=lu.solve, rmatvec=lambda x: lu.solve(x, trans='H'))
            self.cond = max(self.cond, spl.onenormest(A) * spl.onenormest(op))
            self.E[c] = lu.solve(s)

    def field(self, c, n, port, d, pol):
        return self.E[c][self.ns.index(n) * self.nf + self.ix[port, d, pol]]

    def power(self, port, d='i', q=0, c=None):
        """coefficient of exp(i q F_RF t) of the power"""
        tot = 0
        for cc in (self.cs if c is None else [c]):
            for pol in 'SP':
                for n in self.ns:
                    if n + q in self.ns:
                        tot = tot + self.field(cc, n + q, port, d, pol) * np.conj(self.field(cc, n, port, d, pol))
        return tot

    def terms(self, m):
        """reflection terms that move with the mirror: (pin, pout, r, sign*cos(AOI))"""
        k = self.kw[m]
        co = np.cos(k.get('AOI_deg', 0) * np.pi / 180) if k.get('AOI_deg', 0) else 1.
        return [(m + '.' + a, m + '.' + b, r, s * co) for a, b, r, s in self.mirror_terms(k) if s]

    def dc_force(self, m):
        F = 0
        for pin, pout, r, s in self.terms(m):
            F += -2 * s / C * np.real(r) * self.power(pin).real
        return F

    # ------------------------------------------------------------ audio response
    def build_ac(self):
        """joint system over (c, E+ ; c, conj E-), displacements"""
        nf = self.nf
        blk = len(self.ns) * nf
        Mp = self.linear(+1)
        Mm = self.linear(-1, conj=True)
        movers = [m for m, cl in self.cls.items() if cl == 'Mirror' and m in self.mass]
        size = 2 * blk * len(self.cs) + len(movers)
        M = sps.lil_matrix((size, size), dtype=complex)
        off = {}
        o = 0
        for c in self.cs:
            off[c, 1] = o
            M[o:o + blk, o:o + blk] = Mp[c]
            o += blk
            off[c, -1] = o
            M[o:o + blk, o:o + blk] = Mm[c]
            o += blk
        self.off = off
        self.dix = dict((m, o + i) for i, m in enumerate(movers))
        w2 = (2 * np.pi * self.fac)**2
        # the driven port presents its reference impedance of 1 N/m to the network and is
        # driven as a matched source (KNOWN_FINDINGS: K-driven-port); elsewhere this is
        # taken as given
        self.chi = dict((m, 2 / (1 - self.mass[m] * w2)) for m in movers)
        for m in movers:
            M[:, self.dix[m]] = self.disp_vec(m, size)[:, None] + M[:, self.dix[m]].toarray()
            M[self.dix[m], :] = self.chi[m] * self.force_row(m, size)[None, :] + M[self.dix[m], :].toarray()
        self.M = M
        self.size = size
        self.A = (sps.identity(size, dtype=complex) - M).tocsr()
        self.lu = None

    def disp_vec(self, m, size):
        """right hand side of a unit displacement at +F_AC"""
        v = np.zeros(size, dtype=complex)
        nf = self.nf
        for pin, pout, r, s in self.terms(m):
            for c in self.cs:
                kap = -2 * s * 2 * np.pi * c / LAM
                for a, n in enumerate(self.ns):
                    for pol in 'SP':
                        e = 1j * kap * r * self.E[c][a * nf + self.ix[pin, 'i', pol]]
                        i = a * nf + self.ix[pout, 'o', pol]
                        v[self.off[c, 1] + i] += e
                        v[self.off[c, -1] + i] += np.conj(e)
        return v

    def power_row(self, port, size, q=0, d='i', gain=1.):
        """linear functional giving the amplitude of the power at (q F_RF + F_AC):
        sum(E+_{n+q} E_n^* + E_{n+q} (E-_n)^*)"""
        row = np.zeros(size, dtype=complex)
        nf = self.nf
        for c in self.cs:
            for pol in 'SP':
                j = self.ix[port, d, pol]
                for n in self.ns:
                    if n + q in self.ns:
                        a, b = self.ns.index(n), self.ns.index(n + q)
                        row[self.off[c, 1] + b * nf + j] += gain * np.conj(self.E[c][a * nf + j])
                        row[self.off[c, -1] + a * nf + j] += np.conj(gain) * self.E[c][b * nf + j]
        return row

    def force_row(self, m, size):
        row = np.zeros(size, dtype=complex)
        for pin, pout, r, s in self.terms(m):
            # as shipped: the amplitude r (with its sign and phase) stands where the physical
            # law has the reflectivity R (KNOWN_FINDINGS: K-force-law)
            row += -2 * s / C * self.power_row(pin, size, gain=r)
        return row

    def mod_vec(self, el, kind, size):
        v = np.zeros(size, dtype=complex)
        nf = self.nf
        g = .5j if kind == 'PM' else .5
        for p1, p2 in (('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')):
            for c in self.cs:
                for a, n in enumerate(self.ns):
                    for pol in 'SP':
                        e = g * self.E[c][a * nf + self.ix[el + '.' + p1, 'i', pol]]
                        i = a * nf + self.ix[el + '.' + p2, 'o', pol]
                        v[self.off[c, 1] + i] += e
                        v[self.off[c, -1] + i] += np.conj(e)
        return v

    def inv(self):
        """factorise the audio system; self.condac is its (estimated) condition number"""
        if self.lu is None:
            A = self.A
            # displacements (1e-17 m) against fields: balance rows and columns of each degree of freedom
            d = np.ones(A.shape[0])
            off = abs(A - sps.diags(A.diagonal()))
            for i in getattr(self, 'dix', {}).values():
                cmax = off[:, [i]].max()
                rmax = off[[i], :].max()
                if cmax > 0 and rmax > 0:
                    d[i] = np.sqrt(rmax / cmax)
            A = sps.diags(1 / d) @ A @ sps.diags(d)
            r = 1 / np.asarray(abs(A).max(axis=1).todense()).ravel()
            B = sps.diags(r) @ A
            cc = 1 / np.asarray(abs(B).max(axis=0).todense()).ravel()
            B = (B @ sps.diags(cc)).tocsc()
            self.rs, self.cs_ = r / d, cc * d
            try:
                self.lu = spl.splu(B)
            except RuntimeError:
                raise np.linalg.LinAlgError('singular')
            op = spl.LinearOperator(B.shape, dtype=complex, matvec=self.lu.solve,
                                    rmatvec=lambda x: self.lu.solve(x, trans='H'))
            self.condac = spl.onenormest(B) * spl.onenormest(op)
        return self

    def solve(self, v):
        return self.cs_ * self.lu.solve(self.rs * v)

    def solve_row(self, row):
        """row @ A^-1"""
        return self.rs * self.lu.solve(self.cs_ * row, trans='T')

    def response(self, portD, portN):
        el, rest = portD.split('.', 1)
        if rest == 'Z.d.o':
            v = self.disp_vec(el, self.size)
        elif rest == 'Z.F.i':
            v = np.zeros(self.size, dtype=complex)
            v[self.dix[el]] = self.chi[el]
        else:
            kind = 'PM' if (rest.startswith(('DrvPM', 'FM2PM')) or self.cls[el] == 'PM') else 'AM'
            v = self.mod_vec(el, kind, self.size)
            if rest.startswith('FM2PM'):
                v = v / (1j * self.fac)
        self.vfloor = self.emax() * (1e6 if 'Z' in rest else 1 / self.fac if rest.startswith('FM2PM') else 1)
        x = self.inv().solve(v)
        row = self.power_row(self.pd_port(portN), self.size)
        self.mag = float(abs(row) @ abs(x)) + 1e-3 * float(np.max(abs(v)) + self.vfloor) * self.emax()
        return row @ x

    def emax(self):
        return float(max(np.max(abs(self.E[c])) for c in self.cs))

    def total_power(self):
        return sum(k["power_W"] for n, k in self.kw.items() if self.cls[n] == "Laser")

    def pd_port(self, portN):
        return portN.split('.')[0] + '.po_Fr'

    def vacuum_ports(self):
        """(port, strength): amplitudes through which unit vacuum enters, as (field 'o' index port, gain)"""
        ins = []
        for p in self.ports:
            n, q = p.split('.')
            if self.cls[n] in ('Laser', 'PD'):
                ins.append((p, 'o', 1., 'SP', self.cs))
            elif p not in self.mate:
                ins.append((p, 'i', 1., 'SP', self.cs))
            if self.cls[n] == 'Mirror':
                k = self.kw[n]
                L = k.get('L_hr', 0) + k.get('L_t', 0)
                if L:
                    ins.append((p, 'o', np.sqrt(L), 'SP', self.cs))
            elif self.cls[n] in ('PolarizingMirror', 'HarmonicMirror'):
                for key, kk in self.kw[n].items():
                    if key.startswith('mirror_'):
                        L = kk.get('L_hr', 0) + kk.get('L_t', 0)
                        if L:
                            pols = key[-1] if self.cls[n] == 'PolarizingMirror' else 'SP'
                            cs = self.cs if self.cls[n] == 'PolarizingMirror' else [c for c in self.cs if c == int(key[-1])]
                            ins.append((p, 'o', np.sqrt(L), pols, cs))
        return ins

    def csd(self, pa, pb):
        """one-sided cross spectral density of the detected powers (open ports in vacuum)"""
        self.inv()
        ra, fa = self.noise_row(pa)
        rb, fb = self.noise_row(pb)
        tot = 0
        sc = 0
        nf = self.nf
        for p, d, g, pols, cs in self.vacuum_ports():
            for pol in pols:
                for c in cs:
                    hnu = H * C * c / LAM / 2
                    for a in range(len(self.ns)):
                        for s in (1, -1):
                            i = self.off[c, s] + a * nf + self.ix[p, d, pol]
                            tot += ra[i] * np.conj(rb[i]) * g**2 * hnu
                            sc += abs(ra[i] * rb[i]) * g**2 * hnu
        # the library solves mechanics by waves on a 1 N/m reference: the displacement of a load of
        # m*w**2 N/m is what two nearly equal waves leave, each from a loop of almost unity gain
        ill = max([1] + [1e-11 * abs(2 / self.chi[p.split('.')[0]])**2 for p in (pa, pb) if p.endswith('Z.d.o')])
        self.sc = 2 * sc * ill + 1e-9 * H * C / LAM * fa * fb
        return 2 * tot

    def noise_row(self, port):
        """the response of an output (detected power, or displacement of a suspended mirror) to fields"""
        if port.endswith('Z.d.o'):
            el = port.split('.')[0]
            v = np.zeros(self.size, dtype=complex)
            v[self.dix[el]] = 1
            return self.solve_row(v), abs(self.chi[el]) * self.emax() * 2 / C
        return self.solve_row(self.power_row(self.pd_port(port), self.size)), self.emax()
