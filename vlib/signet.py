"""Random signal-flow networks (generators, filters, amplifiers, mixers, modulators) and an
independent evaluation of them.

A signal is a dictionary frequency-key -> complex: x(t) = sum over DC of the value plus
Re(a exp(i w t)) for every pair of keys +k, -k.  Filters act on each key with the value of
their transfer function at its frequency; products of signals are products of the time series.
"""
import cmath
import math

import numpy as np

from .netlist import num

DCK = ()


def kadd(a, b):
    d = dict(a)
    for n, v in b:
        d[n] = d.get(n, 0) + v
        if d[n] == 0:
            del d[n]
    return tuple(sorted(d.items()))


def kneg(a):
    return tuple((n, -v) for n, v in a)


def gen_filter(rng, nm, F, rf, ac_only=False):
    """-> [name, class, kw], input ports, output ports, memoryless"""
    # (state-space blocks do not support DC, see the findings: only in networks without mixing)
    t = rng.choice(['rat', 'rat', 'siso', 'gain', 'dist', 'sum', 'mat', 'mimo', 'integ', 'res', 'acarr'] + ['ss'] * (not rf))
    s = rng.choice([F] + rf)

    def xf():
        k = rng.choice(['pole', 'delay', 'diff', 'const'])
        d = dict(t=k, g=rng.slog(.1, 3))
        if k in ('pole', 'diff'):
            d['f'] = s * rng.log(.1, 10)
        if k == 'delay':
            d['T'] = rng.uni(.01, .9) / s
        return d

    def cut(kw):
        if rf and rng.chance(.25):
            kw['F_cutoff'] = rng.choice(rf) * rng.choice([.5, 1.5])
        elif rf and rng.chance(.15):
            kw['F_cutoff_low'] = rng.choice(rf) * .5
        if rng.chance(.15):
            kw['no_DC'] = True
        return kw

    def root():
        a = rng.uni(.55, 1.45) * math.pi
        r = s * rng.log(.2, 5)
        return {'$c': [r * math.cos(a), r * math.sin(a)]}

    if t == 'rat':
        kw = cut(dict(gain=rng.slog(.1, 5)))
        if rng.chance(.6):
            kw['poles_r'] = [-s * rng.log(.2, 5) for _ in range(rng.randint(1, 3))]
        if rng.chance(.5):
            kw['zeros_r'] = [rng.choice([-1, 1]) * s * rng.log(.2, 5) for _ in range(rng.randint(1, 2))]
        if rng.chance(.5):
            kw['poles_c'] = [root() for _ in range(rng.randint(1, 2))]
        if rng.chance(.4):
            kw['zeros_c'] = [root() for _ in range(rng.randint(1, 2))]
        if rng.chance(.3):
            kw['delay_s'] = rng.uni(.01, .9) / s
        if rng.chance(.3):
            kw['gain_F_Hz'] = s * rng.log(.2, 5)
        return [nm, 'signals.SRationalFilter', kw], ['ps_In'], ['ps_Out']
    if t == 'siso':
        return [nm, 'netx.FilterSISO', cut(dict(kind=xf()))], ['ps_In'], ['ps_Out']
    if t == 'gain':
        return [nm, 'signals.Gain', cut(dict(gain=rng.slog(.1, 5)))], ['ps_In'], ['ps_Out']
    if t == 'integ':
        return [nm, 'signals.Integrator', {}], ['ps_In'], ['ps_Out']
    if t == 'res':
        kw = dict(mass_kg=rng.log(.1, 10) / (2 * math.pi * F)**2, center_Hz=F * rng.log(.2, 5))
        kw[rng.choice(['q_factor'])] = rng.log(.5, 20)
        if rng.chance(.4):
            kw['FWHM_Hz'] = kw['center_Hz'] / kw.pop('q_factor')
        return [nm, 'signals.TransferFunctionSISOMechSingleResonance', kw], ['ps_In'], ['ps_Out']
    if t == 'acarr':
        return [nm, 'signals.TFACArray', dict(gain_array={'$ca': [rng.cplx(3)]}, _scalar=True)], ['ps_In'], ['ps_Out']
    if t == 'dist':
        names = ['o{0}'.format(i) for i in range(rng.randint(1, 3))]
        return [nm, 'signals.DistributionAmplifier', dict(port_gains=dict((n, rng.slog(.2, 3)) for n in names))], ['ps_In'], names
    if t == 'sum':
        names = ['i{0}'.format(i) for i in range(rng.randint(1, 3))]
        return [nm, 'signals.SummingAmplifier', dict(port_gains=dict((n, rng.slog(.2, 3)) for n in names))], names, ['ps_Out']
    ins = ['a', 'b', 'c'][:rng.randint(1, 3)]
    outs = ['x', 'y', 'z'][:rng.randint(1, 3)]
    if t == 'node':
        return [nm, 'signals.SignalNode', {}], [''], ['']
    pairs = [(a, b) for a in ins for b in outs if rng.chance(.7)] or [(ins[0], outs[0])]
    if t in ('mat', 'mimo'):
        pi = ['ps_In.' + a for a in ins if any(p[0] == a for p in pairs)]
        po = ['O.' + b for b in outs if any(p[1] == b for p in pairs)]
        if t == 'mat':
            return [nm, 'netx.AmpMatrix', dict(pairs=[[a, b, [rng.slog(.2, 3), 0.]] for a, b in pairs])], pi, po
        kw = dict(pairs=[[a, b, xf()] for a, b in pairs])
        if rng.chance(.2):
            kw['max_freq'] = max([F] + rf) * rng.choice([.01, 50])
        return [nm, 'netx.FilterMIMO', kw], pi, po
    n = rng.randint(1, 3)
    sc = 2 * math.pi * s
    A = [[sc * (rng.uni(-1, 1) if i != j else -rng.log(.3, 3)) for j in range(n)] for i in range(n)]
    B = [[sc * (rng.uni(-1, 1) if rng.chance(.7) else 0.) for _ in ins] for _ in range(n)]
    C = [[(rng.uni(-1, 1) if rng.chance(.7) else 0.) for _ in range(n)] for _ in outs]
    D = [[(rng.uni(-1, 1) if rng.chance(.4) else 0.) for _ in ins] for _ in outs]
    return ([nm, 'netx.StateSpace', dict(names_in=ins, names_out=outs, A=A, B=B, C=C, D=D)],
            ['pS_in.' + a for a in ins], ['pS_out.' + b for b in outs])


def gen(rng, max_el=9, mix=None, noise=None, sweep=False, loops=None, linear=False):
    fac = rng.log(1, 1e3)
    mix = (rng.chance(.6) if mix is None else mix) and not linear
    noise = rng.chance(.4) if noise is None else noise
    loops = rng.chance(.5) if loops is None else loops
    root = dict(F_AC=fac)
    if rng.chance(.3):
        root['freq_order_max_default'] = rng.randint(1, 3)
    if sweep:
        root['F_AC'] = {'$a': [fac * f for f in sorted(rng.log(.3, 3) for _ in range(rng.randint(2, 4)))]}
    freqs, rf = [], []
    if mix:
        for i in range(rng.randint(1, 2)):
            f = [1e6, 2.7e6][i] * rng.uni(.9, 1.1)
            kw = dict(F_Hz=f)
            if rng.chance(.4):
                kw['order'] = rng.randint(1, 4)
            freqs.append(['F{0}'.format(i), kw])
            rf.append(f)
    els, bonds, srcs = [], [], []
    outs = []          # (path, stage) available signals
    drive = []
    nonlin = set()     # outputs of nonlinear elements

    def name():
        return 'e{0}'.format(len(els))

    if mix:
        for i in range(rng.randint(1, 3)):
            fr = rng.choice(freqs)
            kw = dict(F={'$p': fr[0]}, amplitude=rng.log(.2, 2))
            if rng.chance(.4):
                kw['amplitude'] = {'$c': rng.cplx(1.5)}
            if rng.chance(.4):
                kw[rng.choice(['phase_deg'])] = rng.uni(-180, 180)
            order = fr[1].get('order', root.get('freq_order_max_default', 2))
            if order >= 2 and rng.chance(.3):
                if rng.chance(.5):
                    kw['multiple'] = 2
                else:
                    kw['harmonic_gains'] = {'$int': [[2, [rng.uni(-1, 1), rng.uni(-1, 1)]]]}
            nm = name()
            els.append([nm, 'netx.Generator', kw])
            outs.append(nm + '.ps_Out')
            if 'harmonic_gains' in kw:
                outs.append(nm + '.OutH2')
        # something at DC
        if rng.chance(.5):
            nm = name()
            els.append([nm, 'signals.MeanSquareMixer', {}])
            bonds.append([rng.choice(outs), nm + '.ps_In'])
            outs.append(nm + '.MS')
    else:
        nm = name()
        els.append([nm, 'signals.DistributionAmplifier', dict(port_gains=dict(o=1.))])
        outs.append(nm + '.o')
        drive.append(nm + '.ps_In')
    stages = rng.randint(2, max_el)
    feed = []
    for _ in range(stages):
        nm = name()
        if mix and rng.chance(.45):
            t = rng.choice(['mix', 'mix', 'mod', 'h2', 'ms'])
            if t == 'mix':
                els.append([nm, 'signals.Mixer', {}])
                bonds.append([rng.choice(outs), nm + '.ps_LO'])
                bonds.append([rng.choice(outs), nm + '.ps_In'])
                outs += [nm + '.ps_R_I', nm + '.ps_R_Q']
            elif t == 'mod':
                kw = {}
                if rng.chance(.4):
                    kw['phase_deg'] = rng.uni(-180, 180)
                els.append([nm, 'signals.Modulator', kw])
                bonds.append([rng.choice(outs), nm + '.ps_In'])
                for p in ('Mod_amp', 'Mod_phase'):
                    if rng.chance(.6):
                        bonds.append([rng.choice(outs), nm + '.' + p])
                    else:
                        drive.append(nm + '.' + p)
                drive.append(nm + '.FM2PM.ps_In')
                outs.append(nm + '.ps_Out')
            elif t == 'h2':
                els.append([nm, 'signals.Harmonic2Generator', {}])
                bonds.append([rng.choice(outs), nm + '.ps_In'])
                outs.append(nm + '.ps_Out')
            else:
                els.append([nm, 'signals.MeanSquareMixer', {}])
                bonds.append([rng.choice(outs), nm + '.ps_In'])
                outs.append(nm + '.MS')
            continue
        e, pi, po = gen_filter(rng, nm, fac, rf)
        if e[2].pop('_scalar', None):
            e[2]['gain_array'] = {'$ca': [rng.cplx(3) for _ in root['F_AC']['$a']]} if sweep else {'$cs': rng.cplx(3)}
        els.append(e)
        new = []
        for p in pi:
            p = (nm + '.' + p).rstrip('.')
            k = rng.choice([1, 1, 1, 2]) if e[1] != 'signals.SignalNode' else 1
            for o in rng.sample(outs, min(k, len(outs))):
                bonds.append([o, p])
            if e[1] != 'signals.SignalNode':
                drive.append(p)
            feed.append((len(els) - 1, p))
        for p in po:
            new.append((nm + '.' + p).rstrip('.'))
        # a loop around this element alone or through a summing point
        if loops and e[1] != 'signals.SignalNode' and rng.chance(.5):
            g = name()
            els.append([g, 'signals.SummingAmplifier', dict(port_gains=dict(l=rng.slog(.05, .6)))])
            bonds.append([rng.choice(new), g + '.l'])
            bonds.append([g + '.ps_Out', (nm + '.' + rng.choice(pi)).rstrip('.')])
            new.append(g + '.ps_Out')
            drive.append(g + '.l')
        outs += new
    ros, obs = [], []
    seen = outs[-min(len(outs), 6):] + rng.sample(outs, min(2, len(outs)))
    seen = sorted(set(seen))
    taps = []
    for i, o in enumerate(seen):
        # unity taps: a port that leads somewhere
        nm = 't{0}'.format(i)
        els.append([nm, 'signals.DistributionAmplifier', dict(port_gains=dict(o=1.))])
        bonds.append([o, nm + '.ps_In'])
        taps.append(nm + '.o')
    if mix:
        for i, t in enumerate(taps):
            ros.append(['dc{0}'.format(i), 'readouts.DCReadout', dict(port={'$p': t + '.o'})])
            obs.append(['dc{0}'.format(i), 'DC_readout'])
    drive = sorted(set(drive))
    for i in range(rng.randint(1, 4)):
        if not drive:
            break
        ros.append(['ac{0}'.format(i), 'readouts.ACReadout',
                    dict(portD={'$p': rng.choice(drive) + '.i'}, portN={'$p': rng.choice(taps) + '.o'}, include_noise=False)])
        obs.append(['ac{0}'.format(i), 'AC_sensitivity'])
    if noise and drive:
        for i in range(rng.randint(1, 3)):
            p = rng.choice(drive)
            nm = 'n{0}'.format(i)
            sided = rng.choice(['one-sided', 'two-sided', 'single', 'double'])
            if rng.chance(.5):
                els.append([nm, 'signals.WhiteNoise', dict(port={'$p': p}, magnitude_ASD=rng.log(.1, 10), sided=sided)])
            else:
                els.append([nm, 'netx.PSDNoise', dict(port={'$p': p}, level=rng.log(.1, 10), corner=fac * rng.log(.1, 10), sided=sided)])
        for i, t in enumerate(rng.sample(taps, min(2, len(taps)))):
            ros.append(['nz{0}'.format(i), 'readouts.NoiseReadout', dict(portN={'$p': t + '.o'})])
            obs.append(['nz{0}'.format(i), 'CSD'])
        if len(taps) > 1:
            a, b = rng.sample(taps, 2)
            ros.append(['nzx', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': a + '.o'}, 'B': {'$p': b + '.o'}})])
            obs.append(['nzx', 'CSD'])
    spec = dict(domain='signals', root=root, freqs=freqs, els=els, bonds=bonds, ros=ros, obs=obs)
    if sweep:
        spec['nsweep'] = len(root['F_AC']['$a'])
    return spec


def xfer(kind, F):
    t, g = kind['t'], kind['g']
    if t == 'pole':
        return g / (1 + 1j * F / kind['f'])
    if t == 'delay':
        return g * cmath.exp(-2j * math.pi * F * kind['T'])
    if t == 'diff':
        return g * (1 + 1j * F / kind['f'])
    return g


class Model(object):
    FAC = 'F_AC'

    def __init__(self, spec):
        self.spec = spec
        self.fac = float(num(spec['root']['F_AC']))
        self.dflt = spec['root'].get('freq_order_max_default', 2)
        self.F = dict((n, float(num(k['F_Hz']))) for n, k in spec['freqs'])
        self.order = dict((n, k.get('order', self.dflt)) for n, k in spec['freqs'])
        self.F[self.FAC] = self.fac
        self.order[self.FAC] = 2
        self.els = dict((n, (c.split('.')[1], k)) for n, c, k in spec['els'])
        self.noise = [(n, c.split('.')[1], k) for n, c, k in spec['els'] if c.split('.')[1] in ('WhiteNoise', 'PSDNoise')]
        # wires: input port <- list of output ports
        self.wires = {}
        for a, b in spec['bonds']:
            if self.is_in(b):
                self.wires.setdefault(b, []).append(a)
            else:
                self.wires.setdefault(a, []).append(b)
        for n, (c, k) in self.els.items():
            if c == 'Modulator':
                self.wires.setdefault(n + '.Mod_phase', []).append(n + '.FM2PM.ps_Out')
        self.lin_cache = {}
        self.ports_in = set(self.wires)
        for n, c, k in self.noise:
            self.ports_in.add(k['port']['$p'])
        for n, c, k in spec['ros']:
            if 'portD' in k:
                self.ports_in.add(k['portD']['$p'][:-2])
        self.steps()
        self.static()

    def is_in(self, p):
        el, _, port = p.partition('.')
        c = self.els[el][0]
        if c == 'SignalNode':
            return True
        return (port in ('ps_In', 'ps_LO', 'Mod_amp', 'Mod_phase', 'FM2PM.ps_In') or port.startswith('ps_In.') or port.startswith('pS_in.')
                or (c == 'SummingAmplifier' and port != 'ps_Out'))

    def freq(self, key):
        return sum(self.F[n] * v for n, v in key)

    def center(self, key):
        return sum((1e3 if n == self.FAC else self.F[n]) * v for n, v in key)

    def ok(self, key):
        return all(abs(v) <= self.order[n] for n, v in key)

    # ---- linear couplings: in port -> [(out port, factor)] at a key
    def couplings(self, key):
        if key in self.lin_cache:
            return self.lin_cache[key]
        f, fc = self.freq(key), self.center(key)
        out = {}

        def add(pin, pout, g):
            out.setdefault(pin, []).append((pout, g))
        for n, (c, kw) in self.els.items():
            if c in ('SRationalFilter', 'FilterSISO', 'Gain', 'Integrator', 'TransferFunctionSISOMechSingleResonance'):
                nodc = kw.get('no_DC', c == 'Integrator')
                if abs(fc) > kw.get('F_cutoff', math.inf) or abs(fc) < kw.get('F_cutoff_low', 0) or (nodc and fc == 0):
                    continue
                add(n + '.ps_In', n + '.ps_Out', self.filt(c, kw, f))
            elif c == 'TFACArray':
                if key in (((self.FAC, 1),), ((self.FAC, -1),)):
                    g = num(kw['gain_array']) if '$cs' not in kw['gain_array'] else complex(*kw['gain_array']['$cs'])
                    add(n + '.ps_In', n + '.ps_Out', g if key[0][1] > 0 else np.conj(g))
            elif c == 'DistributionAmplifier':
                for o, g in kw['port_gains'].items():
                    add(n + '.ps_In', n + '.' + o, g)
            elif c == 'SummingAmplifier':
                for o, g in kw['port_gains'].items():
                    add(n + '.' + o, n + '.ps_Out', g)
            elif c == 'SignalNode':
                pass
            elif c == 'AmpMatrix':
                for a, b, g in kw['pairs']:
                    add(n + '.ps_In.' + a, n + '.O.' + b, complex(*g))
            elif c == 'FilterMIMO':
                if 'max_freq' in kw and not abs(f) < kw['max_freq']:
                    continue
                for a, b, g in kw['pairs']:
                    add(n + '.ps_In.' + a, n + '.O.' + b, xfer(g, f))
            elif c == 'StateSpace':
                A, B, C, D = [np.array(kw[x]) for x in 'ABCD']
                H = C @ np.linalg.solve(2j * math.pi * f * np.eye(len(A)) - A, B) + D
                for i, a in enumerate(kw['names_in']):
                    for j, b in enumerate(kw['names_out']):
                        add(n + '.pS_in.' + a, n + '.pS_out.' + b, H[j, i])
            elif c == 'Modulator':
                add(n + '.ps_In', n + '.ps_Out', self.rot(kw, fc))
                if fc != 0:
                    add(n + '.FM2PM.ps_In', n + '.FM2PM.ps_Out', 1 / (1j * f))
        self.lin_cache[key] = out
        return out

    def rot(self, kw, fc):
        ph = math.radians(kw.get('phase_deg', 0))
        return cmath.exp(1j * ph * np.sign(fc))

    def filt(self, c, kw, f):
        if c == 'FilterSISO':
            return xfer(kw['kind'], f)
        if c == 'Gain':
            return kw['gain']
        if c == 'Integrator':
            return 1 / (1j * f)
        if c == 'TransferFunctionSISOMechSingleResonance':
            w = kw.get('FWHM_Hz', None) or kw['center_Hz'] / kw['q_factor']
            return 1 / (kw['mass_kg'] * (2 * math.pi)**2 * (kw['center_Hz']**2 - f**2 + 1j * w * f))

        def poly(roots, f):
            r = 1
            for z in roots:
                r = r * (1 - 1j * f / z)
            return r

        def both(key):
            return [x for r in kw.get(key + '_r', []) for x in [r]] + \
                [x for r in kw.get(key + '_c', []) for x in (complex(*r['$c']), complex(*r['$c']).conjugate())]

        def H(f):
            return poly(both('zeros'), f) / poly(both('poles'), f)
        h = H(f) * kw['gain'] * cmath.exp(-2j * math.pi * f * kw.get('delay_s', 0))
        if kw.get('gain_F_Hz', 0):
            h /= abs(H(kw['gain_F_Hz']))
        return h

    # ---- products: (in port 1, in port 2, out port, factor(k1, k2) or None)
    def steps(self):
        self.products = []

        def w(k):
            return 1. if k == DCK else 2.

        def prod(k1, k2):
            return w(kadd(k1, k2)) / (w(k1) * w(k2))
        for n, (c, kw) in self.els.items():
            if c == 'Mixer':
                self.products.append((n + '.ps_LO', n + '.ps_In', n + '.ps_R_I', prod))
                self.products.append((n + '.ps_LO', n + '.ps_In', n + '.ps_R_Q',
                                      lambda k1, k2: 1j * np.sign(self.freq(k1)) * prod(k1, k2)))
            elif c == 'Modulator':
                self.products.append((n + '.ps_In', n + '.Mod_amp', n + '.ps_Out',
                                      lambda k1, k2, kw=kw: self.rot(kw, self.center(k1)) * prod(k1, k2)))
                self.products.append((n + '.ps_In', n + '.Mod_phase', n + '.ps_Out',
                                      lambda k1, k2, kw=kw: self.rot(kw, self.center(k1)) * 1j * np.sign(self.freq(k1)) * prod(k1, k2)))
            elif c == 'Harmonic2Generator':
                self.products.append((n + '.ps_In', n + '.ps_In', n + '.ps_Out',
                                      lambda k1, k2: 1. if self.center(k1) * self.center(k2) > 0 else None))
            elif c == 'MeanSquareMixer':
                self.products.append((n + '.ps_In', n + '.ps_In', n + '.MS',
                                      lambda k1, k2: (1. if k1 == DCK else .25) if k1 == kneg(k2) else None))

    # ---- propagation
    def spread(self, key, src, cache={}):
        """signals at all ports for injected {port: value} at one key (linear network with loops)"""
        T = self.network(key)
        return T(src)

    def network(self, key):
        ck = ('net', key)
        if ck in self.lin_cache:
            return self.lin_cache[ck]
        cp = self.couplings(key)
        ports = set(self.wires)
        for a, bs in self.wires.items():
            ports.update(bs)
        for a, bs in cp.items():
            ports.add(a)
            ports.update(b for b, g in bs)
        for p1, p2, po, f in self.products:
            ports.update((p1, p2, po))
        ports |= self.ports_in
        ports = sorted(ports)
        ix = dict((p, i) for i, p in enumerate(ports))
        M = np.zeros((len(ports), len(ports)), complex)
        for a, bs in self.wires.items():
            for b in bs:
                M[ix[a], ix[b]] += 1
        for a, bs in cp.items():
            for b, g in bs:
                M[ix[b], ix[a]] += g
        E = np.eye(len(ports)) - M
        inv = np.linalg.inv(E)
        self.cond = max(getattr(self, 'cond', 0), np.abs(inv).max())

        def run(src):
            v = np.zeros(len(ports), complex)
            for p, x in src.items():
                if p in ix:     # an output nobody listens to
                    v[ix[p]] += x
            r = inv @ v
            return dict((p, r[i]) for p, i in ix.items())
        self.lin_cache[ck] = run
        return run

    def close_keys(self, src):
        """src {key: {port: value}} -> {port: {key: value}}"""
        out = {}
        for k, s in src.items():
            for p, x in self.network(k)(s).items():
                if x != 0:
                    out.setdefault(p, {})[k] = x
        return out

    def static(self):
        base = {}
        for n, (c, kw) in self.els.items():
            if c != 'Generator':
                continue
            ph = math.radians(kw.get('phase_deg', 0))
            amp = kw['amplitude']
            amp = complex(*amp['$c']) if isinstance(amp, dict) else amp
            m = kw.get('multiple', 1)
            todo = [('ps_Out', m, amp * cmath.exp(1j * ph))]
            if 'harmonic_gains' in kw:
                for h, g in kw['harmonic_gains']['$int']:
                    todo.append(('OutH{0}'.format(h), h * m, complex(*g) * cmath.exp(1j * h * ph)))
            for port, mult, a in todo:
                k = ((kw['F']['$p'], mult),)
                base.setdefault(k, {})[n + '.' + port] = a
                base.setdefault(kneg(k), {})[n + '.' + port] = np.conj(a)
        x = self.close_keys(base)
        for it in range(40):
            src = dict((k, dict(v)) for k, v in base.items())
            for p1, p2, po, f in self.products:
                for k1, a in x.get(p1, {}).items():
                    for k2, b in x.get(p2, {}).items():
                        k = kadd(k1, k2)
                        if not self.ok(k):
                            continue
                        g = f(k1, k2)
                        if g is None:
                            continue
                        d = src.setdefault(k, {})
                        d[po] = d.get(po, 0) + g * a * b
            new = self.close_keys(src)
            same = all(abs(new.get(p, {}).get(k, 0) - x.get(p, {}).get(k, 0)) <= 1e-14 * (1 + abs(new.get(p, {}).get(k, 0)))
                       for p in set(x) | set(new) for k in set(x.get(p, {})) | set(new.get(p, {})))
            x = new
            if same:
                break
        else:
            raise ValueError('does not settle')
        self.x = x

    def dc(self, port):
        return complex(self.x.get(port, {}).get(DCK, 0)).real

    def scale_at(self, port):
        return max([1.] + [abs(v) for d in self.x.values() for v in d.values()])

    def linear(self, src):
        """first-order response to injected small signals {key: {port: value}} (keys with F_AC +-1)"""
        base = src
        y = self.close_keys(base)
        for it in range(60):
            s = dict((k, dict(v)) for k, v in base.items())
            for p1, p2, po, f in self.products:
                for A, B in ((self.x, y), (y, self.x)):
                    for k1, a in A.get(p1, {}).items():
                        for k2, b in B.get(p2, {}).items():
                            k = kadd(k1, k2)
                            if not self.ok(k):
                                continue
                            g = f(k1, k2)
                            if g is None or po.endswith('.MS'):
                                continue
                            d = s.setdefault(k, {})
                            d[po] = d.get(po, 0) + g * a * b
            new = self.close_keys(s)
            same = all(abs(new.get(p, {}).get(k, 0) - y.get(p, {}).get(k, 0)) <= 1e-14 * (1 + abs(new.get(p, {}).get(k, 0)))
                       for p in set(y) | set(new) for k in set(y.get(p, {})) | set(new.get(p, {})))
            y = new
            if same:
                break
        return y

    P = (('F_AC', 1),)
    N = (('F_AC', -1),)

    def ac(self, drive, out):
        y = self.linear({self.P: {drive: 1.}, self.N: {drive: 1.}})
        self.scale = max([1e-3] + [abs(d.get(self.P, 0)) for d in y.values()])
        return complex(y.get(out, {}).get(self.P, 0))

    def psd(self, c, kw, f):
        conv = 2 if kw['sided'] in ('one-sided', 'single') else 1
        if c == 'WhiteNoise':
            return kw['magnitude_ASD']**2 / conv
        return kw['level'] / (1 + (f / kw['corner'])**2) / conv

    def keys_at(self):
        """all keys with F_AC = +-1 within the orders"""
        ks = [()]
        for n, _ in self.spec['freqs']:
            ks = [kadd(k, ((n, v),)) if v else k for k in ks for v in range(-self.order[n], self.order[n] + 1)]
        return [kadd(k, s) for k in ks for s in (self.P, self.N)]

    def noise_transfers(self):
        if not hasattr(self, '_nt'):
            self._nt = []
            for n, c, kw in self.noise:
                p = kw['port']['$p']
                for k in self.keys_at():
                    self._nt.append((c, kw, k, p, self.linear({k: {p: 1.}})))
        return self._nt

    def csd(self, a, b):
        """one-sided cross spectrum <A(+f) B(-f)>"""
        tot = 0
        by = {}
        for c, kw, k, p, y in self.noise_transfers():
            by[(id(kw), k)] = (c, kw, y)
        mag = 1e-30
        for (i, k), (c, kw, y) in by.items():
            other = by[(i, kneg(k))][2]
            ta, tb = y.get(a, {}).get(self.P, 0), other.get(b, {}).get(self.N, 0)
            tot += 2 * self.psd(c, kw, self.freq(k)) * ta * tb
            for d in y.values():
                mag = max(mag, abs(d.get(self.P, 0))**2 * self.psd(c, kw, self.freq(k)))
        self.scale = mag
        return tot if a != b else np.real(tot)
