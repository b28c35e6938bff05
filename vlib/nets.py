"""Random simulations of any of the domains."""
import numpy as np

from . import elecnet, elmech, mechnet, netlist, optcheck, optnet, signet
from .harness import Skip


def gen_any(rng, sweep=False, domain=None, small=False):
    while True:
        spec = gen_one(rng, sweep, domain, small)
        # (the models of these two are cheap: draw again until the network is well posed)
        if spec['domain'] not in ('electronics', 'mechanics', 'electromech') or ok(spec):
            return spec


def gen_one(rng, sweep=False, domain=None, small=False):
    d = domain or rng.choice(['optics', 'optics', 'electronics', 'mechanics', 'signals', 'optomech', 'electromech'])
    if d == 'optics':
        spec = optnet.gen(rng, max_el=rng.choice([3, 4] if small else [3, 5, 7]), sweep=sweep, rp=False, selectors=False)
    elif d == 'optomech':
        spec = optnet.gen(rng, max_el=rng.choice([2, 3] if small else [2, 4, 5]), sweep=sweep, rp=True, ac=True, rf=False, pol=False, selectors=False)
    elif d == 'electronics':
        spec = elecnet.gen(rng, max_el=rng.choice([3, 6, 10]), sweep=sweep)
        if any(c == 'netx.Transformer' for _, c, _ in spec['els']):
            # no DC description of a transformer
            spec['obs'] = [o for o in spec['obs'] if o[1] != 'DC_readout']
    elif d == 'mechanics':
        spec = mechnet.gen(rng, max_el=rng.choice([3, 6, 8]), sweep=sweep)
    elif d == 'electromech':
        spec = elmech.gen(rng, max_el=rng.choice([3, 5]), sweep=sweep)
    else:
        spec = signet.gen(rng, max_el=rng.choice([3, 5, 8]), sweep=sweep)
    spec['domain'] = d
    return spec


def model(spec):
    """independent model, used here for the conditioning of the network only"""
    d = spec['domain']
    if d in ('optics', 'optomech'):
        return optnet.Model(spec)
    if d == 'electronics':
        return elecnet.Model(spec)
    if d == 'mechanics':
        return mechnet.Model(spec)
    if d == 'electromech':
        return elmech.Model(spec)
    return signet.Model(spec)


build = netlist.build


def observations(spec):
    """names of the scalar observations of the netlist"""
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    out = []
    for ro, attr in spec['obs']:
        if attr in ('CSD', 'noise.CSD'):
            names = list(ros.get(ro, (None, {}))[1].get('port_map', {'R': None}))
            out += ['{0}.{1}[{2},{3}]'.format(ro, attr, a, b) for a in names for b in names]
        else:
            out.append('{0}.{1}'.format(ro, attr))
    return out


class Ref(object):
    """Independent model of a scalar netlist: value and natural scale of every observation.

    Raises Skip where the network has no well-conditioned solution."""

    def __init__(self, spec):
        d = spec['domain']
        self.d = d
        self.ros = dict((n, (c, k)) for n, c, k in spec['ros'])
        if d in ('optics', 'optomech'):
            self.m = optcheck.ref_model(spec)
            return
        try:
            self.m = m = model(spec)
            if d == 'signals':
                for key in observations(spec):
                    self(key)
                if not getattr(m, 'cond', 0) < 1e4:
                    raise Skip('loop close to instability')
                return
            nodc = d == 'electronics' and any(c == 'netx.Transformer' for _, c, _ in spec['els'])
            always = d == 'electronics' and not nodc
            for F in ([0.] if always or any(o[1] == 'DC_readout' for o in spec['obs']) else []) + [m.fac]:
                if not m.system(F)[5] < 1e6:
                    raise Skip('ill-conditioned')
        except (np.linalg.LinAlgError, ValueError):
            raise Skip('singular')

    def __call__(self, key):
        """'readout.attribute' -> value, scale"""
        ro, attr = key.split('.', 1)
        c, k = self.ros.get(ro, (None, {}))
        m = self.m
        d = self.d
        opt = d in ('optics', 'optomech')
        if attr == 'DC_readout':
            if d == 'signals':
                p = k['port']['$p'][:-2]
                return m.dc(p), m.scale_at(p)
            if not opt:
                return m.dc(ro), m.scale
            p = k['port']['$p']
            if p.endswith('Z.F.i'):
                return m.dc_force(p.split('.')[0]), max(1., m.total_power()) * m.cond * 10 / 3e8
            w = m.power(m.pd_port(p)).real
            return w, max(1, abs(w))
        if attr == 'AC_sensitivity':
            a, b = k['portD']['$p'], k['portN']['$p']
            if d == 'signals':
                return m.ac(a[:-2], b[:-2]), m.scale
            if opt:
                return m.response(a, b), m.mag
            return m.ac(a[:-2], b.split('.')[0]), m.scale
        if 'CSD' in attr and '[' in attr:
            a, b = attr[attr.index('[') + 1:-1].split(',')
            pm = k.get('port_map', {'R': k.get('portN')})
            a, b = pm[a]['$p'], pm[b]['$p']
            if d == 'signals':
                return m.csd(a[:-2], b[:-2]), m.scale
            if opt:
                return m.csd(a, b), m.sc
            return m.csd(a.split('.')[0], b.split('.')[0]), m.scale
        raise KeyError(key)


def refs(spec):
    return [Ref(dict(s, domain=spec['domain'])) for s in optcheck.pointwise(spec)]


def ok(spec):
    """is the network well posed? (generators call this to keep only workable ones)"""
    try:
        refs(spec)
        return True
    except Skip:
        return False


NOT_SWEPT = ('F_cutoff', 'F_cutoff_low', 'max_freq', 'AOI_deg')
MAY_VANISH = ('power_W', 'phase_deg', 'phase_rad', 'rotate_deg', 'I_DC', 'V_DC', 'F_DC', 'd_DC', 'amplitude', 'gain', 'g', 'L_hr', 'L_t', 'T_hr',
              'Loss', 'length_ns', 'delay_s', 'displacement', 'magnitude_ASD', 'level', 'L_detune_m', 'L_m', 'loss_angle_by_freq',
              'vn', 'inn', 'l', 'o', 'i0', 'i1', 'i2', 'o0', 'o1', 'o2', 'T')


def widen(spec, rng, kmax=4, zero=.4, skip=()):
    """the netlist with some more of its parameters swept, some of them vanishing at a point of the sweep"""
    import copy
    out = copy.deepcopy(spec)
    n = out['nsweep']
    found = []

    def walk(d, keys):
        for a in sorted(d):
            v = d[a]
            if isinstance(v, dict):
                if not any(k.startswith('$') for k in v):
                    walk(v, keys + (a,))
            elif isinstance(v, float) and a not in NOT_SWEPT and a not in skip:
                found.append((d, a))
    for _, k in out.get('freqs', []):
        walk(k, ())
    for _, c, k in out['els']:
        if 'XYZ' not in c:
            # (an array is one value per axis there)
            walk(k, ())
    rng.shuffle(found)
    out['widened'] = []
    for d, a in found[:rng.randint(1, kmax)]:
        v = d[a]
        lo, hi = (.97, 1.03) if a in ('F_Hz', 'T_hr') else (.5, 1.5)
        arr = [v * rng.uni(lo, hi) for _ in range(n)]
        if a in ('T_hr', 'L_hr', 'L_t', 'Loss', 'k'):
            arr = [v * rng.uni(.7, 1.) for _ in range(n)]
        if a in MAY_VANISH and rng.chance(zero):
            arr[rng.randrange(n)] = 0.
        d[a] = {'$a': arr}
        if a == 'F_Hz':
            d['F_center_Hz'] = v
        out['widened'].append(a)
    return out
