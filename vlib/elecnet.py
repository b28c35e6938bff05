"""Random circuits (netlists) and an independent nodal analysis of them."""
import math

import numpy as np

from . import netlist

KB = 1.380658e-23
PORTS = {
    'TerminatorResistor': ['pe_A'], 'TerminatorCapacitor': ['pe_A'], 'TerminatorInductor': ['pe_A'],
    'TerminatorOpen': ['pe_A'], 'TerminatorShorted': ['pe_A'], 'TerminatorMatched': ['pe_A'],
    'VoltageSource': ['pe_A'], 'CurrentSource': ['pe_A'],
    'VoltageSourceBalanced': ['pe_A', 'pe_B'], 'CurrentSourceBalanced': ['pe_A', 'pe_B'],
    'SeriesResistor': ['pe_A', 'pe_B'], 'SeriesCapacitor': ['pe_A', 'pe_B'], 'SeriesInductor': ['pe_A', 'pe_B'],
    'Cable': ['pe_A', 'pe_B'], 'TwoPort': ['pe_A', 'pe_B'], 'OnePort': ['pe_A'],
    'Transformer': ['pe_A', 'pe_B', 'pe_C', 'pe_D'],
    'OpAmp': ['in_p', 'in_n', 'out'], 'NoisyOpAmp': ['in_p', 'in_n', 'out'],
    'NoisyInAmp': ['in_p', 'in_n', 'out'], 'VAmp': ['in_n', 'out'], 'PZTE': ['pe_A'],
}


def _imp(rng, kind, F):
    """parameters such that |Z| at F is moderate"""
    Z = rng.log(.5, 2e4)
    if kind == 'R':
        return dict(resistance_Ohms=Z)
    if kind == 'C':
        return dict(capacitance_Farads=1 / (2 * math.pi * F * Z))
    kw = dict(inductance_Henries=Z / (2 * math.pi * F))
    if rng.chance(.5):
        kw['resistance_Ohms'] = Z * rng.log(.01, 1)
    return kw


NAMES = dict(R='Resistor', C='Capacitor', L='Inductor')


def smatrix(rng, F, n):
    """a scattering matrix of elements g / (1 + i F / pole)"""
    ks = ['s11'] if n == 1 else ['s11', 's12', 's21', 's22']
    kw = {}
    for k in ks:
        if n == 1 or rng.chance(.8):
            kw[k] = [rng.uni(-.9, .9), rng.choice([None, F * rng.log(.1, 10)])]
    return kw


def scatter(k, name, F):
    g, p = k.get(name, (0, None))
    return g if p is None else g / (1 + 1j * F / p)


def gen(rng, max_el=8, active=None, noise=None, sweep=False, passive=False, dc=None, fac=None, pzt=0):
    """passive: RLC and terminations, driven by current sources only"""
    fac = fac or rng.log(1, 1e6)
    active = (rng.chance(.3) if active is None else active) and not passive
    noise = rng.chance(.4) if noise is None else noise
    dc = rng.chance(.5) if dc is None else dc
    root = dict(F_AC=fac)
    if sweep:
        root['F_AC'] = {'$a': [fac * f for f in sorted(rng.log(.3, 3) for _ in range(rng.randint(2, 4)))]}
    if noise:
        root['include_johnson_noise'] = True
    nn = rng.randint(2, 6)
    nets = [[] for _ in range(nn)]
    els, src = [], []

    def add(cls, kw, where, mod='electronics'):
        nm = 'e{0}'.format(len(els))
        els.append([nm, mod + '.' + cls, kw])
        for p, w in zip(PORTS[cls], where):
            nets[w].append(nm + '.' + p)
        return nm

    def rlc():
        return rng.choice('RRCL')

    # a connected skeleton, then extras
    for i in range(1, nn):
        k = rlc()
        if passive and rng.chance(.0):
            k = 'R'
        add('Series' + NAMES[k], _imp(rng, k, fac), rng.choice([(i, rng.randrange(i)), (rng.randrange(i), i)]))
    for _ in range(rng.randint(0, max_el - 2)):
        t = rng.choice(['series', 'term', 'term', 'cable', 'xf', 'match', 'cs2', 'vs2', 'short'] + ['user'] * (not passive))
        if t == 'series':
            k = rlc()
            a, b = rng.sample(range(nn), 2)
            add('Series' + NAMES[k], _imp(rng, k, fac), (a, b))
        elif t == 'term':
            k = rlc()
            add('Terminator' + NAMES[k], _imp(rng, k, fac), (rng.randrange(nn),))
        elif t == 'match':
            add('TerminatorMatched', {}, (rng.randrange(nn),))
        elif t == 'short' and rng.chance(.15) and not passive:
            add('TerminatorShorted', {}, (rng.randrange(nn),))
        elif t == 'cable':
            add('Cable', dict(length_ns=rng.uni(.02, .45) / fac * 1e9), rng.sample(range(nn), 2))
        elif t == 'user' and rng.chance(.7):
            if rng.chance(.7):
                add('TwoPort', smatrix(rng, fac, 2), rng.sample(range(nn), 2), 'netx')
            else:
                add('OnePort', smatrix(rng, fac, 1), (rng.randrange(nn),), 'netx')
        elif t == 'xf' and rng.chance(.6) and nn >= 3 and not passive:
            L1, L2 = [rng.log(5, 500) / (2 * math.pi * fac) for _ in range(2)]
            kw = dict(L1=L1, L2=L2)
            if rng.chance(.6):
                kw['k'] = rng.uni(.3, .98)
            if rng.chance(.6):
                kw['R1'] = rng.log(.5, 50)
                kw['R2'] = rng.log(.5, 50)
            w = [rng.randrange(nn) for _ in range(4)]
            if w[0] != w[1] and w[2] != w[3]:
                add('Transformer', kw, w, 'netx')
        elif t == 'cs2' and not passive:
            kw = {}
            if dc:
                kw['I_DC'] = rng.slog(1e-4, .1)
            src.append((add('CurrentSourceBalanced', kw, rng.sample(range(nn), 2)), ['ps_In']))
        elif t == 'vs2' and not passive and rng.chance(.5):
            kw = {}
            if dc:
                kw['V_DC'] = rng.slog(.01, 10)
                if rng.chance(.4):
                    kw['I_DC'] = rng.slog(1e-4, .1)
            src.append((add('VoltageSourceBalanced', kw, rng.sample(range(nn), 2)), ['V', 'ps_In']))
    if passive:
        src.append((add('CurrentSource', {}, (rng.randrange(nn),)), ['ps_In']))
    else:
        add('TerminatorResistor', _imp(rng, 'R', fac), (rng.randrange(nn),))
        for _ in range(rng.randint(1, 2)):
            if rng.chance(.5):
                src.append((add('CurrentSource', dict(I_DC=rng.slog(1e-4, .1)) if dc else {}, (rng.randrange(nn),)), ['ps_In']))
            else:
                src.append((add('VoltageSource', dict(V_DC=rng.slog(.01, 10)) if dc else {}, (rng.randrange(nn),)), ['V']))
    if active:
        for _ in range(rng.randint(1, 2)):
            kw = dict(gain=rng.log(.2, 50) * rng.choice([1, 1, -1]))
            if rng.chance(.5):
                kw['pole_Hz'] = fac * rng.log(.1, 10)
            cls = 'OpAmp'
            if noise and rng.chance(.7):
                cls = 'NoisyOpAmp'
                kw['vn'] = rng.log(1e-18, 1e-14)
                kw['inn'] = rng.log(1e-24, 1e-20)
                if rng.chance(.3):
                    cls = 'NoisyInAmp'
                    kw['vout'] = rng.log(1e-18, 1e-14)
            nets.append([])
            out = len(nets) - 1
            w = [rng.randrange(nn), rng.randrange(nn), out]
            if cls == 'OpAmp' and rng.chance(.3):
                cls = 'VAmp'
                w = w[1:]
                if rng.chance(.5):
                    kw['Y_in'] = 1 / rng.log(5, 2e4)
                if rng.chance(.5):
                    kw['Z_out'] = rng.log(1, 2e3)
            add(cls, kw, w, 'netx')
            add('SeriesResistor', _imp(rng, 'R', fac), (out, rng.randrange(nn)))
    for i in range(pzt):
        els.append(['pz{0}'.format(i), 'netx.PZTE', {}])
        nets[rng.randrange(nn)].append('pz{0}.pe_A'.format(i))
    # bonds: each net is a tree over its ports
    bonds = []
    for i, ps in enumerate(nets):
        ps = list(ps)
        rng.shuffle(ps)
        if len(ps) > 2 and rng.chance(.3):
            nm = 'j{0}'.format(i)
            els.append([nm, 'electronics.Connection', dict(N_ports=len(ps))])
            for j, p in enumerate(ps):
                bonds.append([p, '{0}.pe_{1}'.format(nm, j)])
        else:
            for j in range(1, len(ps)):
                bonds.append([ps[j], ps[rng.randrange(j)]])
    ros, obs = [], []
    allp = [p for ps in nets for p in ps]
    nv = rng.randint(2, 4)
    vouts = []
    for i, p in enumerate(rng.sample(allp, min(nv, len(allp)))):
        nm = 'v{0}'.format(i)
        kw = dict(terminal={'$p': p})
        if rng.chance(.3):
            kw['terminal_N'] = {'$p': rng.choice([q for q in allp if q != p] or [p])}
            if kw['terminal_N'] == kw['terminal']:
                kw.pop('terminal_N')
        els.append([nm, 'electronics.VoltageReadout', kw])
        obs.append([nm, 'DC_readout'])
        vouts.append(nm + '.V.o')
    for i, p in enumerate(rng.sample(allp, min(2, len(allp)))):
        nm = 'i{0}'.format(i)
        els.append([nm, 'electronics.CurrentReadout', dict(terminal={'$p': p}, direction=rng.choice(['in', 'out']))])
        obs.append([nm, 'DC_readout'])
        vouts.append(nm + '.I.o')
    j = 0
    for s, ds in src:
        for d in ds:
            for o in rng.sample(vouts, min(2, len(vouts))):
                nm = 'ac{0}'.format(j)
                j += 1
                ros.append([nm, 'readouts.ACReadout', dict(portD={'$p': s + '.' + d + '.i'}, portN={'$p': o}, include_noise=False)])
                obs.append([nm, 'AC_sensitivity'])
    if noise:
        for j, o in enumerate(rng.sample(vouts, min(2, len(vouts)))):
            ros.append(['nz{0}'.format(j), 'readouts.NoiseReadout', dict(portN={'$p': o})])
            obs.append(['nz{0}'.format(j), 'CSD'])
        if len(vouts) > 1 and rng.chance(.5):
            a, b = rng.sample(vouts, 2)
            ros.append(['nzx', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': a}, 'B': {'$p': b}})])
            obs.append(['nzx', 'CSD'])
    spec = dict(domain='electronics', root=root, freqs=[], els=els, bonds=bonds, ros=ros, obs=obs)
    if sweep:
        n = len(root['F_AC']['$a'])
        spec['nsweep'] = n
        if rng.chance(.5):
            cand = [(i, k) for i, (_, c, kw) in enumerate(els) for k in kw
                    if k in ('resistance_Ohms', 'capacitance_Farads', 'inductance_Henries', 'V_DC', 'I_DC') and 'Inductor' not in c]
            cand = [c for c in cand if c[1] not in ('V_DC', 'I_DC')]
            if cand:
                i, k = rng.choice(cand)
                els[i][2][k] = {'$a': [els[i][2][k] * rng.uni(.3, 2) for _ in range(n)]}
    return spec


class Model(object):
    """tableau analysis: net voltages and port currents (positive into the element)"""

    PORTS = PORTS
    PRE = 'pe_'
    Z0 = 50.
    ACROSS = 'VoltageReadout'

    def __init__(self, spec, temp=299., textbook=False):
        self.textbook = textbook
        self.spec = spec
        self.kw = {}
        self.cls = {}
        for n, c, k in spec['els']:
            self.cls[n] = c.rsplit('.', 1)[1]
            self.kw[n] = k
        self.temp = temp
        self.fac = spec['root']['F_AC']
        # nets by union-find
        par = {}

        def find(x):
            par.setdefault(x, x)
            while par[x] != x:
                x = par[x]
            return x
        self.ports = []
        for n, c in self.cls.items():
            if c in self.PORTS:
                for p in self.PORTS[c]:
                    self.ports.append(n + '.' + p)
            elif c == 'Connection':
                for j in range(self.kw[n]['N_ports']):
                    par[find('{0}.{2}{1}'.format(n, j, self.PRE))] = find(n + '.' + self.PRE + '0')
        for p in self.ports:
            find(p)
        for a, b in self.bonds():
            par[find(a)] = find(b)
        roots = sorted(set(find(p) for p in self.ports))
        self.net = dict((p, roots.index(find(p))) for p in self.ports)
        self.nn = len(roots)
        self.ip = dict((p, self.nn + i) for i, p in enumerate(self.ports))
        self.size = self.nn + len(self.ports)
        self.cache = {}
        self.open_rows = {}

    def bonds(self):
        return self.spec['bonds']

    def system(self, F):
        """A x = b(sources); rows listed with the element sources they carry"""
        if F in self.cache:
            return self.cache[F]
        A = np.zeros((self.size, self.size), dtype=complex)
        drv = {}     # signal name -> rhs vector
        dc = np.zeros(self.size, dtype=complex)
        noise = []   # (rhs vector, psd)
        r = 0
        for i in range(self.nn):
            for p in self.ports:
                if self.net[p] == i:
                    A[r, self.ip[p]] = 1
            r += 1
        w = 2j * np.pi * F

        def V(row, p, g):
            A[row, self.net[p]] += g

        def I(row, p, g):
            A[row, self.ip[p]] += g

        def rhs(row, g=1.):
            v = np.zeros(self.size, dtype=complex)
            v[row] = g
            return v
        kT4 = 4 * KB * self.temp
        for n, c in self.cls.items():
            k = self.kw[n]
            P = dict((p, n + '.' + p) for p in PORTS.get(c, []))
            if c.startswith('Terminator') or c.startswith('Series'):
                two = c.startswith('Series')
                kind = c.replace('Terminator', '').replace('Series', '')
                a = P['pe_A']
                if kind == 'Capacitor':
                    y, z = w * k['capacitance_Farads'], -1
                elif kind == 'Inductor':
                    y, z = 1, -(k.get('resistance_Ohms', 0) + w * k['inductance_Henries'])
                elif kind == 'Resistor':
                    y, z = 1, -k['resistance_Ohms']
                elif kind == 'Open':
                    y, z = 0, 1
                elif kind == 'Shorted':
                    y, z = 1, 0
                elif kind == 'Matched':
                    y, z = 1, -50
                V(r, a, y)
                I(r, a, z)
                if two:
                    V(r, P['pe_B'], -y)
                R = k.get('resistance_Ohms', 50. if kind == 'Matched' else 0)
                if R:
                    noise.append((rhs(r), kT4 * R))
                r += 1
                if two:
                    I(r, a, 1)
                    I(r, P['pe_B'], 1)
                    r += 1
            elif c == 'VoltageSource':
                V(r, P['pe_A'], 1)
                drv[n + '.V'] = rhs(r)
                dc += rhs(r, k.get('V_DC', 0))
                r += 1
            elif c == 'CurrentSource':
                I(r, P['pe_A'], 1)
                drv[n + '.ps_In'] = rhs(r, -1)
                dc += rhs(r, -k.get('I_DC', 0))
                r += 1
            elif c == 'VoltageSourceBalanced':
                V(r, P['pe_A'], 1)
                V(r, P['pe_B'], -1)
                drv[n + '.V'] = rhs(r)
                dc += rhs(r, k.get('V_DC', 0))
                r += 1
                I(r, P['pe_A'], 1)
                I(r, P['pe_B'], 1)
                drv[n + '.ps_In'] = rhs(r, -1)
                dc += rhs(r, -k.get('I_DC', 0))
                r += 1
            elif c == 'CurrentSourceBalanced':
                I(r, P['pe_A'], 1)
                I(r + 1, P['pe_B'], 1)
                drv[n + '.ps_In'] = rhs(r, -1) + rhs(r + 1, 1)
                dc += k.get('I_DC', 0) * drv[n + '.ps_In']
                r += 2
            elif c == 'Cable':
                ph = np.exp(-w * k['length_ns'] * 1e-9)
                for x, y in (('pe_A', 'pe_B'), ('pe_B', 'pe_A')):
                    V(r, P[y], 1)
                    I(r, P[y], -50)
                    V(r, P[x], -ph)
                    I(r, P[x], -50 * ph)
                    r += 1
            elif c == 'OnePort':
                g = scatter(k, 's11', F)
                V(r, P['pe_A'], 1 - g)
                I(r, P['pe_A'], -50 * (1 + g))
                r += 1
            elif c == 'TwoPort':
                # wave leaving x: V - Z I = sum over y of S (V + Z I)
                for x, terms in (('pe_A', (('pe_A', 's11'), ('pe_B', 's21'))), ('pe_B', (('pe_A', 's12'), ('pe_B', 's22')))):
                    V(r, P[x], 1)
                    I(r, P[x], -50)
                    for y, nm in terms:
                        g = scatter(k, nm, F)
                        V(r, P[y], -g)
                        I(r, P[y], -50 * g)
                    r += 1
            elif c == 'Transformer':
                L1, L2, kk = k['L1'], k['L2'], k.get('k', 1.)
                M = kk * math.sqrt(L1 * L2)
                if self.textbook:
                    for x, y, R, L, o in (('pe_A', 'pe_B', k.get('R1', 0), L1, 'pe_C'), ('pe_C', 'pe_D', k.get('R2', 0), L2, 'pe_A')):
                        V(r, P[x], 1)
                        V(r, P[y], -1)
                        I(r, P[x], -(R + w * L))
                        I(r, P[o], -w * M)
                        if R:
                            noise.append((rhs(r), kT4 * R))
                        r += 1
                        I(r, P[x], 1)
                        I(r, P[y], 1)
                        r += 1
                else:
                    # as shipped (KNOWN_FINDINGS K-transformer): the open-circuit impedances are used
                    # as reciprocals of the short-circuit admittances; windings as series sources
                    if F == 0:
                        raise np.linalg.LinAlgError('transformer at DC')
                    z1, z2, zm = k.get('R1', 0) + w * L1, k.get('R2', 0) + w * L2, w * M
                    # winding noise appears in series with the port pe_A (pe_C)
                    for x, y, o, q, z in (('pe_A', 'pe_B', 'pe_C', 'pe_D', z1), ('pe_C', 'pe_D', 'pe_A', 'pe_B', z2)):
                        I(r, P[x], 1)
                        V(r, P[x], -1 / z)
                        V(r, P[y], 1 / z)
                        V(r, P[o], -1 / zm)
                        V(r, P[q], 1 / zm)
                        r += 1
                        I(r, P[x], 1)
                        I(r, P[y], 1)
                        r += 1
                    if k.get('R1'):
                        noise.append((rhs(r - 4, -1 / z1) + rhs(r - 2, -1 / zm), kT4 * k['R1']))
                    if k.get('R2'):
                        noise.append((rhs(r - 2, -1 / z2) + rhs(r - 4, -1 / zm), kT4 * k['R2']))
            elif c == 'PZTE':
                # the electrical end of a transducer: open here, coupled by electromech
                self.open_rows[n] = r
                I(r, P['pe_A'], 1)
                r += 1
            elif c == 'VAmp':
                g = k['gain'] / (1 + 1j * F / k['pole_Hz']) if k.get('pole_Hz') else k['gain']
                I(r, P['in_n'], 1)
                V(r, P['in_n'], -k.get('Y_in', 0.))
                V(r + 1, P['out'], 1)
                I(r + 1, P['out'], -k.get('Z_out', 0.))
                V(r + 1, P['in_n'], g)
                r += 2
            elif c in ('OpAmp', 'NoisyOpAmp', 'NoisyInAmp'):
                g = k['gain'] / (1 + 1j * F / k['pole_Hz']) if k.get('pole_Hz') else k['gain']
                I(r, P['in_p'], 1)
                I(r + 1, P['in_n'], 1)
                V(r + 2, P['out'], 1)
                V(r + 2, P['in_p'], -g)
                V(r + 2, P['in_n'], g)
                if c == 'NoisyInAmp':
                    noise.append((rhs(r + 2), k['vout']))
                if c != 'OpAmp':
                    noise.append((rhs(r), k['inn']))
                    noise.append((rhs(r + 1), k['inn']))
                    noise.append((rhs(r + 2, g), k['vn']))
                r += 3
        assert r == self.size, (r, self.size)
        return self.solve(F, A, drv, dc, noise)

    def solve(self, F, A, drv, dc, noise):
        self.parts = (A, drv, dc, noise)
        # equilibrate
        rs = 1 / np.maximum(np.max(abs(A), axis=1), 1e-300)
        B = A * rs[:, None]
        cs = 1 / np.maximum(np.max(abs(B), axis=0), 1e-300)
        B = B * cs[None, :]
        cond = np.linalg.cond(B)
        if not cond < 1e10:
            raise np.linalg.LinAlgError('singular')
        X = cs[:, None] * np.linalg.inv(B) * rs[None, :]
        # conditioning of the wave description the simulator uses
        S = self.wave_cond(A)
        self.cache[F] = (X, drv, dc, noise, cond, S)
        return self.cache[F]

    def wave_cond(self, A):
        # unknowns V and Z0*I on the same footing
        B = A.copy()
        B[:, self.nn:] /= self.Z0
        B = B / np.maximum(np.max(abs(B), axis=1), 1e-300)[:, None]
        return np.linalg.cond(B)

    def row(self, ro):
        c, k = self.cls[ro], self.kw[ro]
        v = np.zeros(self.size, dtype=complex)
        if c == self.ACROSS:
            v[self.net[k['terminal']['$p']]] += 1
            if 'terminal_N' in k:
                v[self.net[k['terminal_N']['$p']]] -= 1
        else:
            v[self.ip[k['terminal']['$p']]] += 1 if k['direction'] == 'in' else -1
        return v

    def dc(self, ro):
        X, drv, dc, noise, cond, wc = self.system(0.)
        x = X @ dc
        self.scale = self.vscale(ro, x)
        return self.row(ro) @ x

    def vscale(self, ro, x):
        m = max(np.max(abs(x[:self.nn])), self.Z0 * np.max(abs(x[self.nn:]))) + 1e-30
        return m if self.cls[ro] == self.ACROSS else m / self.Z0

    def ac(self, drive, ro):
        X, drv, dc, noise, cond, wc = self.system(self.fac)
        x = X @ drv[drive]
        self.scale = self.vscale(ro, x)
        return self.row(ro) @ x

    def csd(self, a, b):
        X, drv, dc, noise, cond, wc = self.system(self.fac)
        ra, rb = self.row(a) @ X, self.row(b) @ X
        tot = 0.
        sc = 0.
        for v, s in noise:
            x = X @ v
            tot = tot + (ra @ v) * np.conj(rb @ v) * s
            sc += self.vscale(a, x) * self.vscale(b, x) * s
        self.scale = sc + 1e-60
        return tot
