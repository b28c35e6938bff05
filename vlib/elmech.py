"""Random circuits and mechanical networks coupled by piezo transducers, and a tableau of the whole."""
import json
import math

import numpy as np

from . import elecnet, mechnet

ELEC = set(elecnet.PORTS) - set(mechnet.PORTS)


def _rename(x, names):
    if isinstance(x, dict):
        return dict((k, _rename(v, names)) for k, v in x.items())
    if isinstance(x, list):
        return [_rename(v, names) for v in x]
    if isinstance(x, str):
        h, d, t = x.partition('.')
        if h in names:
            return 'm' + h + d + t
    return x


def gen(rng, sweep=False, noise=None, dc=None, passive=False, max_el=8, transducers=None, wide=True):
    fac = rng.log(1, 1e4)
    n = transducers or rng.choice([1, 1, 1, 2])
    noise = rng.chance(.4) if noise is None else noise
    dc = rng.chance(.5) if dc is None else dc
    kw = dict(fac=fac, pzt=n, noise=noise, sweep=sweep, passive=passive, dc=dc, max_el=max_el)
    while True:
        e = elecnet.gen(rng, **kw)
        if not any(c == 'netx.Transformer' for _, c, _ in e['els']):
            break
    while True:
        m = mechnet.gen(rng, xyz=rng.chance(.1), **kw)
        if m.get('nsweep') == e.get('nsweep'):
            break
    names = set(x[0] for x in m['els'] + m['ros'] if not x[0].startswith('pz'))
    m = _rename(m, names)
    els = [x for x in e['els'] + m['els'] if not x[0].startswith('pz')]
    for i in range(n):
        C = 1 / (2 * math.pi * fac * rng.log(5, 2e4))
        k = rng.log(.02, 50)
        d = rng.uni(.05, .85) * math.sqrt(C / k) * rng.choice([1, 1, -1])
        kw = dict(capacitance_F=C, k_N_m=k)
        if sweep and wide and rng.chance(.3):
            a = rng.choice(sorted(kw))
            kw[a] = {'$a': [kw[a] * rng.uni(1, 2) for _ in range(e['nsweep'])]}
        if rng.chance(.3):
            Vm = rng.log(1, 1000)
            kw.update(max_voltage_V=Vm, full_swing_um=1e6 * d * Vm)
        else:
            kw['d_eff_m_V'] = d
        els.insert(0, ['pz{0}'.format(i), 'netx.PZT', kw])
    spec = dict(domain='electromech', root=e['root'], freqs=[], els=els, bonds=e['bonds'] + m['bonds'],
                ros=e['ros'] + m['ros'], obs=e['obs'] + m['obs'])
    if sweep:
        spec['nsweep'] = e['nsweep']
    # across the transducers
    outs = dict((x[0], x[0] + '.' + dict(VoltageReadout='V', CurrentReadout='I', DisplacementReadout='d', ForceReadout='F')[x[1].split('.')[1]] + '.o')
                for x in els if x[1].endswith('Readout'))
    for j in range(4):
        a, b = (e, m) if j % 2 else (m, e)
        dr = [r[2]['portD']['$p'] for r in a['ros'] if r[1] == 'readouts.ACReadout']
        oo = [o for x, o in sorted(outs.items()) if x in [y[0] for y in b['els']]]
        if dr and oo:
            nm = 'acx{0}'.format(j)
            spec['ros'].append([nm, 'readouts.ACReadout', dict(portD={'$p': rng.choice(dr)}, portN={'$p': rng.choice(oo)}, include_noise=False)])
            spec['obs'].append([nm, 'AC_sensitivity'])
    if noise:
        oe = [o for x, o in sorted(outs.items()) if x in [y[0] for y in e['els']]]
        om = [o for x, o in sorted(outs.items()) if x in [y[0] for y in m['els']]]
        spec['ros'].append(['nzem', 'readouts.NoiseReadout', dict(port_map={'A': {'$p': rng.choice(oe)}, 'B': {'$p': rng.choice(om)}})])
        spec['obs'].append(['nzem', 'CSD'])
    return json.loads(json.dumps(spec))


class Model(object):
    def __init__(self, spec):
        self.spec = spec
        pz = dict((n, k) for n, c, k in spec['els'] if c == 'netx.PZT')
        el, me = [], []
        for x in spec['els']:
            if x[0] in pz:
                el.append([x[0], 'netx.PZTE', {}])
                me.append([x[0], 'netx.PZTM', {}])
            elif x[0].startswith('m'):
                me.append(x)
            else:
                el.append(x)
        E = set(x[0] for x in el)

        def split(own, port):
            return [b for b in spec['bonds'] if all((p.split('.')[0] in own) and (p.split('.')[0] not in pz or p.endswith(port)) for p in b)]
        self.E = elecnet.Model(dict(spec, els=el, bonds=split(E, 'pe_A')))
        self.M = mechnet.Model(dict(spec, els=me, bonds=split(set(x[0] for x in me), 'pm_Z')))
        self.pz = pz
        self.cls = dict(self.E.cls)
        self.cls.update(self.M.cls)
        self.fac = spec['root']['F_AC']
        self.cache = {}

    def system(self, F):
        """(the separate networks may be singular without the transducer between them)"""
        if F in self.cache:
            return self.cache[F]
        E, M = self.E, self.M
        parts = []
        for m in (E, M):
            try:
                m.system(F)
            except np.linalg.LinAlgError:
                pass
            parts.append(m.parts)
        ne, nm = E.size, M.size
        A = np.zeros((ne + nm, ne + nm), dtype=complex)
        A[:ne, :ne] = parts[0][0]
        A[ne:, ne:] = parts[1][0]
        w = 2j * np.pi * F
        d0 = []
        for n, k in self.pz.items():
            C, K = k['capacitance_F'], k['k_N_m']
            d = k['d_eff_m_V'] if 'd_eff_m_V' in k else k['full_swing_um'] * 1e-6 / k['max_voltage_V']
            d0.append(abs(d))
            V, I = E.net[n + '.pe_A'], E.ip[n + '.pe_A']
            x, f = ne + M.net[n + '.pm_Z'], ne + M.ip[n + '.pm_Z']
            r = E.open_rows[n]
            # charge and extension of a piezo
            A[r, :] = 0
            A[r, I] = 1
            A[r, V] = -w * C
            A[r, f] = -w * d
            r = ne + M.open_rows[n]
            A[r, :] = 0
            A[r, x] = 1
            A[r, V] = -d
            A[r, f] = -1 / K

        def pad(v, first):
            z = np.zeros(ne + nm, dtype=complex)
            if first:
                z[:ne] = v
            else:
                z[ne:] = v
            return z
        drv = dict((s, pad(v, True)) for s, v in parts[0][1].items())
        drv.update((s, pad(v, False)) for s, v in parts[1][1].items())
        dc = pad(parts[0][2], True) + pad(parts[1][2], False)
        noise = [(pad(v, True), s) for v, s in parts[0][3]] + [(pad(v, False), s) for v, s in parts[1][3]]
        B = A.copy()
        s = self.d0 = np.mean(d0)
        B[:, :ne] /= s
        B[:, E.nn:ne] /= E.Z0
        rs = 1 / np.maximum(np.max(abs(B), axis=1), 1e-300)
        wc = np.linalg.cond(B * rs[:, None])
        if not wc < 1e12:
            raise np.linalg.LinAlgError('singular')
        cs = np.ones(ne + nm)
        cs[:ne] /= s
        cs[E.nn:ne] /= E.Z0
        X = cs[:, None] * np.linalg.inv(B * rs[:, None]) * rs[None, :]
        self.cache[F] = (X, drv, dc, noise, wc, wc)
        return self.cache[F]

    def row(self, ro):
        z = np.zeros(self.E.size + self.M.size, dtype=complex)
        if ro in self.E.cls:
            z[:self.E.size] = self.E.row(ro)
        else:
            z[self.E.size:] = self.M.row(ro)
        return z

    def vscale(self, ro, x):
        """own side, and what rounding on the other side may leave"""
        E, M = self.E, self.M
        e, m = x[:E.size], x[E.size:]
        ve = max(np.max(abs(e[:E.nn])), E.Z0 * np.max(abs(e[E.nn:])))
        vm = max(np.max(abs(m[:M.nn])), np.max(abs(m[M.nn:])))
        if ro in E.cls:
            v = ve + 1e-6 * vm / self.d0 + 1e-30
            return v if E.cls[ro] == 'VoltageReadout' else v / E.Z0
        return vm + 1e-6 * ve * self.d0 + 1e-30

    dc = elecnet.Model.dc
    ac = elecnet.Model.ac
    csd = elecnet.Model.csd
