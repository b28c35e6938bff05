"""Random mechanical networks and an independent force-balance analysis of them.

Displacements live on nets, forces on ports (positive into the element); an element with
mobility Y carries F = Y * (extension)."""
import math

import numpy as np

from . import elecnet

KB = elecnet.KB
XYZ = ['X', 'Y', 'Z']
PORTS = {
    'TerminatorDamper': ['pm_A'], 'TerminatorSpring': ['pm_A'], 'Mass': ['pm_A'],
    'TerminatorOpen': ['pm_A'], 'TerminatorShorted': ['pm_A'],
    'DisplacementSource': ['pm_A'], 'ForceSource': ['pm_A'],
    'DisplacementSourceBalanced': ['pm_A', 'pm_B'], 'ForceSourceBalanced': ['pm_A', 'pm_B'],
    'SeriesDamper': ['pm_A', 'pm_B'], 'SeriesSpring': ['pm_A', 'pm_B'], 'SeriesMass': ['pm_A', 'pm_B'],
    'Cable': ['pm_A', 'pm_B'], 'MTwoPort': ['pm_A', 'pm_B'], 'MOnePort': ['pm_A'], 'Moment1D': ['pm_A', 'pm_B', 'L'], 'String': ['pm_A', 'pm_B'],
    'PZTM': ['pm_Z'],
    'XYZMomentDriver': ['pm_A.X', 'pm_A.Y', 'pm_A.Z', 'pm_B.X', 'pm_B.Y', 'pm_B.Z', 'L.X', 'L.Y', 'L.Z'],
    'XYZMass': ['pm_A.X', 'pm_A.Y', 'pm_A.Z'], 'XYZMoment': ['L.X', 'L.Y', 'L.Z'],
    'XYZTerminatorSpring': ['pm_A.X', 'pm_A.Y', 'pm_A.Z'], 'XYZTerminatorDamper': ['pm_A.X', 'pm_A.Y', 'pm_A.Z'],
    'XYZTerminatorOpen': ['pm_A.X', 'pm_A.Y', 'pm_A.Z'], 'XYZTerminatorShorted': ['pm_A.X', 'pm_A.Y', 'pm_A.Z'],
}


def _par(rng, kind, F, loss=True):
    Y = rng.log(.02, 50)
    if kind == 'Damper':
        return dict(resistance_Ns_m=Y / (2 * math.pi * F))
    if kind == 'Mass':
        return dict(mass_kg=Y / (2 * math.pi * F)**2)
    kw = dict(elasticity_N_m=Y)
    if loss and rng.chance(.5):
        kw['loss_angle_by_freq'] = rng.log(1e-5, 1e-4) if loss == 'small' else rng.log(1e-3, .3)
    return kw


def _vec(rng):
    return [rng.uni(-1, 1) for _ in range(3)]


def gen(rng, max_el=8, noise=None, sweep=False, passive=False, dc=None, xyz=None, loss=True, string=False, fac=None, pzt=0):
    fac = fac or rng.log(.1, 1e4)
    noise = rng.chance(.4) if noise is None else noise
    dc = rng.chance(.5) if dc is None else dc
    xyz = rng.chance(.2) if xyz is None else xyz
    root = dict(F_AC=fac)
    if sweep:
        root['F_AC'] = {'$a': [fac * f for f in sorted(rng.log(.5, 2) for _ in range(rng.randint(2, 4)))]}
    if noise:
        root['include_johnson_noise'] = True
    nn = rng.randint(2, 6)
    nets = [[] for _ in range(nn)]
    els, src, bonds = [], [], []

    def add(cls, kw, where):
        nm = 'e{0}'.format(len(els))
        els.append([nm, ('netx.' if cls in ('MTwoPort', 'MOnePort') else 'mechanical.') + cls, kw])
        for p, w in zip(PORTS[cls], where):
            if w is not None:
                nets[w].append(nm + '.' + p)
        return nm

    def kind():
        return rng.choice(['Damper', 'Spring', 'Spring', 'Mass'])

    for i in range(1, nn):
        k = kind()
        add('Series' + k, _par(rng, k, fac, loss), rng.choice([(i, rng.randrange(i)), (rng.randrange(i), i)]))
    for _ in range(rng.randint(1, max_el - 2)):
        t = rng.choice(['series', 'term', 'term', 'mass', 'cable', 'lever', 'fs2', 'ds2', 'short'] + ['string'] * string + ['user'] * (not passive))
        if t == 'series':
            k = kind()
            add('Series' + k, _par(rng, k, fac, loss), rng.sample(range(nn), 2))
        elif t in ('term', 'mass'):
            k = 'Mass' if t == 'mass' else kind()
            add('Mass' if k == 'Mass' else 'Terminator' + k, _par(rng, k, fac, loss), (rng.randrange(nn),))
        elif t == 'short' and rng.chance(.3):
            add('TerminatorShorted', {}, (rng.randrange(nn),))
        elif t == 'cable' and not passive:
            # a delay between displacement waves is no physical two-port on its own
            kw = dict(delay_s=rng.uni(.02, .45) / fac)
            if rng.chance(.3) and not passive:
                kw['Loss'] = rng.uni(.05, .6)
            add('Cable', kw, rng.sample(range(nn), 2))
        elif t == 'user' and rng.chance(.6):
            if rng.chance(.7):
                add('MTwoPort', elecnet.smatrix(rng, fac, 2), rng.sample(range(nn), 2))
            else:
                add('MOnePort', elecnet.smatrix(rng, fac, 1), (rng.randrange(nn),))
        elif t == 'string':
            # impedance of the string of order one against the other elements
            Z0 = rng.log(.1, 10) / (2 * math.pi * fac)
            c = rng.log(10, 1000)
            add('String', dict(length_m=rng.uni(.03, .45) * c / fac, tension_N=Z0 * c, mass_density_kg_m=Z0 / c),
                rng.sample(range(nn), 2))
        elif t == 'lever' and nn >= 3:
            add('Moment1D', dict(displacement=rng.slog(.2, 3)), rng.sample(range(nn), 3))
        elif t == 'fs2' and not passive:
            src.append((add('ForceSourceBalanced', dict(F_DC=rng.slog(.01, 10)) if dc else {}, rng.sample(range(nn), 2)), ['F']))
        elif t == 'ds2' and not passive and rng.chance(.5):
            kw = {}
            if dc:
                kw['d_DC'] = rng.slog(.01, 1)
                if rng.chance(.4):
                    kw['F_DC'] = rng.slog(.01, 10)
            src.append((add('DisplacementSourceBalanced', kw, rng.sample(range(nn), 2)), ['d', 'F']))
    if xyz:
        arms = []
        nm = 'x0'
        els.append([nm, 'mechanical.XYZMomentDriver', dict(displacementXYZ=_vec(rng))])
        ends = [nm + '.pm_A', nm + '.pm_B', nm + '.L']
        j = 0
        for e in ends:
            for _ in range(rng.randint(1, 2)):
                j += 1
                c = rng.choice(['XYZMass', 'XYZTerminatorSpring', 'XYZTerminatorDamper'])
                k3 = dict(XYZMass='mass_kg', XYZTerminatorSpring='elasticity_N_m', XYZTerminatorDamper='resistance_Ns_m')[c]
                w = 2 * math.pi * fac
                sc = dict(XYZMass=1 / w**2, XYZTerminatorSpring=1, XYZTerminatorDamper=1 / w)[c]
                val = [sc * rng.log(.05, 20) for _ in range(3)] if rng.chance(.7) else sc * rng.log(.05, 20)
                if e.endswith('.L') and c == 'XYZMass':
                    els.append(['x{0}'.format(j), 'mechanical.XYZMoment', dict(moment_kgmsq=val)])
                    bonds.append([e, 'x{0}.L'.format(j)])
                else:
                    els.append(['x{0}'.format(j), 'mechanical.' + c, {k3: val}])
                    bonds.append([e, 'x{0}.pm_A'.format(j)])
        # tie some components into the rest
        for _ in range(rng.randint(1, 3)):
            p = rng.choice(ends) + '.' + rng.choice(XYZ)
            k = rng.choice(['Damper', 'Spring'])
            nm2 = 'e{0}'.format(len(els))
            els.append([nm2, 'mechanical.Series' + k, _par(rng, k, fac, loss)])
            nets[rng.randrange(nn)].append(nm2 + '.pm_A')
            bonds.append([p, nm2 + '.pm_B'])
    if passive:
        src.append((add('ForceSource', {}, (rng.randrange(nn),)), ['F']))
    else:
        for _ in range(rng.randint(1, 2)):
            if rng.chance(.6):
                src.append((add('ForceSource', dict(F_DC=rng.slog(.01, 10)) if dc else {}, (rng.randrange(nn),)), ['F']))
            else:
                src.append((add('DisplacementSource', dict(d_DC=rng.slog(.01, 1)) if dc else {}, (rng.randrange(nn),)), ['d']))
    add('TerminatorSpring', _par(rng, 'Spring', fac, loss), (rng.randrange(nn),))
    for i in range(pzt):
        els.append(['pz{0}'.format(i), 'netx.PZTM', {}])
        nets[rng.randrange(nn)].append('pz{0}.pm_Z'.format(i))
    for i, ps in enumerate(nets):
        ps = list(ps)
        rng.shuffle(ps)
        if len(ps) > 2 and rng.chance(.3):
            nm = 'j{0}'.format(i)
            els.append([nm, 'mechanical.Connection', dict(N_ports=len(ps))])
            for j, p in enumerate(ps):
                bonds.append([p, '{0}.pm_{1}'.format(nm, j)])
        else:
            for j in range(1, len(ps)):
                bonds.append([ps[j], ps[rng.randrange(j)]])
    ros, obs = [], []
    allp = [p for ps in nets for p in ps]
    if xyz:
        allp += ['x0.' + p for p in rng.sample(PORTS['XYZMomentDriver'], 3)]
    # inside a string the ports belong to its parts
    allp = [p for p in allp if dict((n, c) for n, c, _ in els)[p.split('.')[0]] != 'mechanical.String'] or allp
    vouts = []
    for i, p in enumerate(rng.sample(allp, min(rng.randint(2, 4), len(allp)))):
        nm = 'v{0}'.format(i)
        kw = dict(terminal={'$p': p})
        if rng.chance(.3):
            q = rng.choice(allp)
            if q != p:
                kw['terminal_N'] = {'$p': q}
        els.append([nm, 'mechanical.DisplacementReadout', kw])
        obs.append([nm, 'DC_readout'])
        vouts.append(nm + '.d.o')
    for i, p in enumerate(rng.sample(allp, min(2, len(allp)))):
        nm = 'f{0}'.format(i)
        els.append([nm, 'mechanical.ForceReadout', dict(terminal={'$p': p}, direction=rng.choice(['in', 'out']))])
        obs.append([nm, 'DC_readout'])
        vouts.append(nm + '.F.o')
    j = 0
    for s, ds in src:
        for d in ds:
            for o in rng.sample(vouts, min(2, len(vouts))):
                nm = 'ac{0}'.format(j)
                j += 1
                ros.append([nm, 'readouts.ACReadout', dict(portD={'$p': s + '.' + d + '.i'}, portN={'$p': o}, include_noise=False)])
                obs.append([nm, 'AC_sensitivity'])
    if noise:
        for j, o in enumerate(rng.sample(vouts, min(2, len(vouts)))):
            ros.append(['nz{0}'.format(j), 'readouts.NoiseReadout', dict(portN={'$p': o})])
            obs.append(['nz{0}'.format(j), 'CSD'])
        if len(vouts) > 1 and rng.chance(.5):
            a, b = rng.sample(vouts, 2)
            ros.append(['nzx', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': a}, 'B': {'$p': b}})])
            obs.append(['nzx', 'CSD'])
    spec = dict(domain='mechanics', root=root, freqs=[], els=els, bonds=bonds, ros=ros, obs=obs)
    if sweep:
        n = len(root['F_AC']['$a'])
        spec['nsweep'] = n
        if rng.chance(.5):
            cand = [(i, k) for i, (_, c, kw) in enumerate(els) for k in kw
                    if k in ('resistance_Ns_m', 'elasticity_N_m', 'mass_kg') and 'XYZ' not in c]
            if cand:
                i, k = rng.choice(cand)
                els[i][2][k] = {'$a': [els[i][2][k] * rng.uni(.5, 2) for _ in range(n)]}
    return spec


class Model(elecnet.Model):
    PORTS = PORTS
    PRE = 'pm_'
    Z0 = 1.
    ACROSS = 'DisplacementReadout'

    def bonds(self):
        full = set(self.ports)
        for a, b in self.spec['bonds']:
            if a + '.X' in full and b + '.X' in full:
                for x in XYZ:
                    yield a + '.' + x, b + '.' + x
            else:
                yield a, b

    def system(self, F):
        if F in self.cache:
            return self.cache[F]
        A = np.zeros((self.size, self.size), dtype=complex)
        drv = {}
        dc = np.zeros(self.size, dtype=complex)
        noise = []
        st = [0]

        def row():
            st[0] += 1
            return st[0] - 1
        for i in range(self.nn):
            r = row()
            for p in self.ports:
                if self.net[p] == i:
                    A[r, self.ip[p]] = 1
        w = 2 * np.pi * F

        def x(r, p, g):
            A[r, self.net[p]] += g

        def f(r, p, g):
            A[r, self.ip[p]] += g

        def rhs(r, g=1.):
            v = np.zeros(self.size, dtype=complex)
            v[r] = g
            return v

        def mobility(kind, k):
            """mobility and the spectrum of its extension noise"""
            if kind == 'Damper':
                R = k['resistance_Ns_m']
                return 1j * w * R, (4 * KB * self.temp / (R * w**2) if w else 0)
            if kind == 'Mass':
                return -w**2 * k['mass_kg'], 0
            phi = k.get('loss_angle_by_freq', 0)
            K = k['elasticity_N_m']
            return K * (1 + 1j * phi * np.sign(F)), (4 * KB * self.temp * phi / (w * K * (1 + phi**2)) if w else 0)

        def one(p, kind, k):
            Y, S = mobility(kind, k)
            r = row()
            f(r, p, 1)
            x(r, p, -Y)
            if S:
                noise.append((rhs(r, Y), S))
        for n, c in self.cls.items():
            k = self.kw[n]
            P = dict((p, n + '.' + p) for p in PORTS.get(c, []))
            if c in ('TerminatorDamper', 'TerminatorSpring', 'Mass'):
                one(P['pm_A'], c.replace('Terminator', ''), k)
            elif c in ('XYZMass', 'XYZMoment', 'XYZTerminatorSpring', 'XYZTerminatorDamper'):
                (key, val), = k.items()
                val = val if isinstance(val, (list, tuple)) else [val] * 3
                kind = dict(mass_kg='Mass', moment_kgmsq='Mass', elasticity_N_m='Spring', resistance_Ns_m='Damper')[key]
                for p, v in zip(PORTS[c], val):
                    one(P[p], kind, {key.replace('moment_kgmsq', 'mass_kg'): v})
            elif c.startswith('Series'):
                Y, S = mobility(c.replace('Series', ''), k)
                r = row()
                f(r, P['pm_A'], 1)
                x(r, P['pm_A'], -Y)
                x(r, P['pm_B'], Y)
                if S:
                    noise.append((rhs(r, Y), S))
                r = row()
                f(r, P['pm_A'], 1)
                f(r, P['pm_B'], 1)
            elif c == 'PZTM':
                r = self.open_rows[n] = row()
                f(r, P['pm_Z'], 1)
            elif c == 'TerminatorOpen':
                f(row(), P['pm_A'], 1)
            elif c == 'TerminatorShorted':
                x(row(), P['pm_A'], 1)
            elif c in ('XYZTerminatorOpen', 'XYZTerminatorShorted'):
                for p in PORTS[c]:
                    (f if c.endswith('Open') else x)(row(), P[p], 1)
            elif c == 'DisplacementSource':
                r = row()
                x(r, P['pm_A'], 1)
                drv[n + '.d'] = rhs(r)
                dc += rhs(r, k.get('d_DC', 0))
            elif c == 'ForceSource':
                r = row()
                f(r, P['pm_A'], 1)
                drv[n + '.F'] = rhs(r, -1)
                dc += rhs(r, -k.get('F_DC', 0))
            elif c == 'DisplacementSourceBalanced':
                r = row()
                x(r, P['pm_A'], 1)
                x(r, P['pm_B'], -1)
                drv[n + '.d'] = rhs(r)
                dc += rhs(r, k.get('d_DC', 0))
                r = row()
                f(r, P['pm_A'], 1)
                f(r, P['pm_B'], 1)
                drv[n + '.F'] = rhs(r, -1)
                dc += rhs(r, -k.get('F_DC', 0))
            elif c == 'ForceSourceBalanced':
                r = row()
                f(r, P['pm_A'], 1)
                r2 = row()
                f(r2, P['pm_B'], 1)
                drv[n + '.F'] = rhs(r, -1) + rhs(r2, 1)
                dc += k.get('F_DC', 0) * drv[n + '.F']
            elif c == 'Cable':
                g = np.exp(-1j * w * k['delay_s']) * (1 - k.get('Loss', 0))**.5
                for a, b in (('pm_A', 'pm_B'), ('pm_B', 'pm_A')):
                    r = row()
                    x(r, P[b], 1)
                    f(r, P[b], -1)
                    x(r, P[a], -g)
                    f(r, P[a], -g)
            elif c in ('MTwoPort', 'MOnePort'):
                T = {'MTwoPort': (('pm_A', (('pm_A', 's11'), ('pm_B', 's21'))), ('pm_B', (('pm_A', 's12'), ('pm_B', 's22')))),
                     'MOnePort': (('pm_A', (('pm_A', 's11'),)),)}[c]
                for a, terms in T:
                    r = row()
                    x(r, P[a], 1)
                    f(r, P[a], -1)
                    for b, nm in terms:
                        g = elecnet.scatter(k, nm, F)
                        x(r, P[b], -g)
                        f(r, P[b], -g)
            elif c == 'String':
                Y0 = 1j * w * (k['tension_N'] * k['mass_density_kg_m'])**.5
                th = w * k['length_m'] * (k['mass_density_kg_m'] / k['tension_N'])**.5
                g = np.exp(-1j * th)
                for a, b in (('pm_A', 'pm_B'), ('pm_B', 'pm_A')):
                    if w:
                        r = row()
                        x(r, P[b], Y0)
                        f(r, P[b], -1)
                        x(r, P[a], -Y0 * g)
                        f(r, P[a], -g)
                if not w:
                    r = row()
                    x(r, P['pm_A'], 1)
                    x(r, P['pm_B'], -1)
                    r = row()
                    f(r, P['pm_A'], 1)
                    f(r, P['pm_B'], 1)
            elif c == 'Moment1D':
                d = k['displacement']
                r = row()
                f(r, P['pm_A'], 1)
                f(r, P['pm_B'], 1)
                r = row()
                f(r, P['L'], 1)
                f(r, P['pm_A'], d)
                r = row()
                x(r, P['pm_A'], 1)
                x(r, P['pm_B'], -1)
                x(r, P['L'], -d)
            elif c == 'XYZMomentDriver':
                # rigid arm: xA - xB = d x theta, forces by virtual work
                d = np.asarray(k['displacementXYZ'])
                C = np.array([[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]])
                a, b, l = [[P[q + '.' + s] for s in XYZ] for q in ('pm_A', 'pm_B', 'L')]
                for i in range(3):
                    r = row()
                    x(r, a[i], 1)
                    x(r, b[i], -1)
                    for j in range(3):
                        x(r, l[j], -C[i, j])
                    r = row()
                    f(r, a[i], 1)
                    f(r, b[i], 1)
                    r = row()
                    f(r, l[i], 1)
                    for j in range(3):
                        f(r, a[j], C[j, i])
        assert st[0] == self.size, (st, self.size)
        return self.solve(F, A, drv, dc, noise)
