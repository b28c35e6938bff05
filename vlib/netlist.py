"""Plain-data netlists of simulations, and the builder that turns one into a real BGSystem.

spec = {
  'root':  {BGSystem keyword: value},
  'freqs': [[name, {system.Frequency keywords}]],
  'els':   [[name, 'optics.Mirror', {keywords}]],
  'bonds': [['m1.po_Fr', 's1.po_Bk'], ...],
  'ros':   [[name, 'readouts.DCReadout', {keywords}]],
  'obs':   [['name', 'DC_readout'], ...],
}
Values inside keywords:  {'$p': 'm1.Z.d.o'} object by path, {'$a': [..]} real array,
{'$c': [re, im]} complex, {'$ca': [[re, im], ..]} complex array, {'$fd': [[freq, n], ..]}
frequency dictionary.
"""
import copy
import importlib
import random

import numpy as np


def enc(v):
    """python value -> JSON-able"""
    if isinstance(v, np.ndarray):
        if np.iscomplexobj(v):
            return {'$ca': [[float(x.real), float(x.imag)] for x in v]}
        return {'$a': [float(x) for x in v]}
    if isinstance(v, complex):
        return {'$c': [v.real, v.imag]}
    return v


def num(v):
    """JSON value -> number / array"""
    if isinstance(v, dict):
        if '$a' in v:
            return np.asarray(v['$a'], dtype=float)
        if '$c' in v:
            return complex(*v['$c'])
        if '$cs' in v:
            return np.asarray(complex(*v['$cs']))
        if '$ca' in v:
            return np.asarray([complex(*x) for x in v['$ca']])
        if '$m' in v:
            return np.asarray(v['$m'], dtype=float)
        if '$cm' in v:
            return np.asarray([[complex(*x) for x in r] for r in v['$cm']])
    return v


def resolve(sys, path):
    obj = sys
    for p in path.split('.'):
        obj = getattr(obj, p)
    return obj


def decode(sys, v, ren):
    if isinstance(v, dict):
        if '$p' in v:
            return resolve(sys, ren_path(v['$p'], ren))
        if '$fd' in v:
            return dict((resolve(sys, ren_path(f, ren)), n) for f, n in v['$fd'])
        if set(v) & {'$a', '$c', '$ca', '$cs', '$m', '$cm'}:
            return num(v)
        return dict((k, decode(sys, x, ren)) for k, x in v.items())
    if isinstance(v, list):
        return tuple(decode(sys, x, ren) for x in v)
    return v


def ren_path(p, ren):
    if not ren:
        return p
    head, _, rest = p.partition('.')
    head = ren.get(head, head)
    return head + ('.' + rest if rest else '')


def cls_of(cname):
    m, _, c = cname.rpartition('.')
    if m == 'netx':
        from . import netx
        return getattr(netx, c)
    mod = importlib.import_module('phasor.' + m)
    return getattr(mod, c)


class Sim(object):
    def __init__(self, sys, spec, ren):
        self.sys = sys
        self.spec = spec
        self.ren = ren

    def get(self, path):
        return resolve(self.sys, ren_path(path, self.ren))

    def observe(self, order=None):
        obs = list(self.spec['obs'])
        if order is not None:
            obs = [obs[i] for i in order]
        out = {}
        for ro, attr in obs:
            v = self.get(ro + '.' + attr)
            if attr.endswith('by_source'):
                # names of the sources may be anything: keep the multiset of values
                vals = []
                for k in v:
                    x = v[k]
                    vals.append(np.asarray(x, dtype=complex))
                out[ro + '.' + attr] = vals
            elif attr in ('CSD', 'noise.CSD'):
                for k in v:
                    out['{0}.{1}[{2},{3}]'.format(ro, attr, k[0], k[1])] = np.array(v[k], dtype=complex)
            elif hasattr(v, 'keys') and not isinstance(v, np.ndarray):
                for k in v.keys():
                    out['{0}.{1}[{2}]'.format(ro, attr, k)] = np.array(v[k], dtype=complex)
            else:
                out[ro + '.' + attr] = np.array(v, dtype=complex)
        return out


FOLLOWING = dict(po_Fr='po_Bk', po_Bk='po_Fr', po_FrA='po_BkA', po_BkA='po_FrA', po_FrB='po_BkB', po_BkB='po_FrB',
                 pe_A='pe_B', pe_B='pe_A', pm_A='pm_B', pm_B='pm_A', ps_In='ps_Out')
sys_chains = []


NO_WAY_ON = ('XYZ', 'Moment1D', 'Transformer', 'Unmounted', 'Harmonic2', 'Mixer', 'Modulator', 'DistributionAmplifier', 'AmpMatrix', 'FilterMIMO',
             'optics.PD', 'Terminator', 'Source', 'OnePort', 'Laser', 'Mass', 'PZT', 'OpAmp', 'VAmp', 'InAmp')


def following(spec, path):
    """the port at which light, current or motion entering here naturally goes on"""
    el, dot, p = path.partition('.')
    c = [c for n, c, _ in spec['els'] if n == el]
    if p not in FOLLOWING or not c or any(x in c[0] for x in NO_WAY_ON) and 'SeriesMass' not in c[0]:
        return None
    return el + '.' + FOLLOWING[p]


def build(spec, solver_name=None, seed=None, rename=False, root_extra=None, via_ctree=None, restate=0.,
          shuffle=True, chain=0.):
    """Real simulation of the netlist.

    seed      if given, elements are inserted and bonds made in a shuffled order, bond ends
              swapped at random
    rename    element names replaced by random ones
    restate   probability of stating a bond a second time
    chain     probability of stating bonds that follow one another through an element as one sequence
    via_ctree {el: {key: value}} handed through the configuration tree instead of the constructor
    """
    import declarative
    from phasor import system
    rnd = random.Random(seed)
    ren = {}
    if rename:
        names = [n for n, _ in spec.get('freqs', [])] + [n for n, _, _ in spec['els']] + [n for n, _, _ in spec.get('ros', [])]
        pool = rnd.sample(range(1000, 9999), len(names))
        for n, r in zip(names, pool):
            ren[n] = rnd.choice('abkmqxyzAKZ') + str(r)
    kw = dict((k, decode(None, v, None)) for k, v in spec.get('root', {}).items())
    if solver_name is not None:
        kw['solver_name'] = solver_name
    if root_extra:
        kw.update(root_extra)
    if via_ctree:
        db = declarative.DeepBunch()
        for el, vals in via_ctree.items():
            for k, v in vals.items():
                node = db[ren.get(el, el)]
                parts = k.split('.')
                for p in parts[:-1]:
                    node = node[p]
                node[parts[-1]] = decode(None, v, None)
        kw['ctree'] = db
    sys = system.BGSystem(**kw)
    for n, k in spec.get('freqs', []):
        setattr(sys.own, ren.get(n, n), system.Frequency(**dict((a, decode(sys, b, ren)) for a, b in k.items())))
    els = list(spec['els'])
    if seed is not None and shuffle:
        # an element that refers to another is declared after it, as in any program
        plain = [e for e in els if not refs(e[2], [n for n, _ in spec.get('freqs', [])])]
        later = [e for e in els if refs(e[2], [n for n, _ in spec.get('freqs', [])])]
        rnd.shuffle(plain)
        els = plain + later
    for n, c, k in els:
        e = cls_of(c)(**dict((a, decode(sys, b, ren)) for a, b in k.items()))
        if rnd.random() < restate:
            sys.own[ren.get(n, n)] = e
        else:
            setattr(sys.own, ren.get(n, n), e)
    bonds = [list(b) for b in spec['bonds']]
    if seed is not None and shuffle:
        rnd.shuffle(bonds)
        bonds = [b[::-1] if rnd.random() < .5 else b for b in bonds]
    bonds = bonds + [b[::-1] if rnd.random() < .5 else b for b in bonds if rnd.random() < restate]
    P = lambda p: resolve(sys, ren_path(p, ren))
    while bonds:
        seq = bonds.pop(0)
        if chain and rnd.random() < chain:
            while True:
                nxt = following(spec, seq[-1])
                more = [x for x in bonds if nxt in x]
                if not more:
                    break
                bonds.remove(more[0])
                seq = seq + [x for x in more[0] if x != nxt][:1]
        if len(seq) > 2:
            if hasattr(P(seq[0]), 'bond_sequence') and rnd.random() < .5:
                P(seq[0]).bond_sequence(*[P(p) for p in seq[1:]])
            else:
                sys.bond_sequence(*[P(p) for p in seq])
            sys_chains.append(seq)
        else:
            sys.bond(P(seq[0]), P(seq[1]))
    for n, c, k in spec.get('ros', []):
        setattr(sys.own, ren.get(n, n), cls_of(c)(**dict((a, decode(sys, b, ren)) for a, b in k.items())))
    return Sim(sys, spec, ren)


def refs(v, freqs):
    if isinstance(v, dict):
        if '$p' in v:
            return v['$p'].split('.')[0] not in list(freqs) + ['F_carrier_1064', 'F_carrier_532', 'F_AC']
        return any(refs(x, freqs) for x in v.values())
    if isinstance(v, list):
        return any(refs(x, freqs) for x in v)
    return False


def grid(spec, rng):
    """a swept netlist whose arrays run along one of two axes, at random"""
    def sub(v):
        if isinstance(v, dict):
            for k, k2 in (('$a', '$m'), ('$ca', '$cm')):
                if k in v:
                    return {k2: [v[k]] if rng.random() < .5 else [[x] for x in v[k]]}
            return dict((k, sub(x)) for k, x in v.items())
        if isinstance(v, list):
            return [sub(x) for x in v]
        return v
    out = copy.deepcopy(spec)
    for k in ('root', 'freqs', 'els'):
        out[k] = sub(out.get(k, []))
    return out


def grid_point(spec, i, j):
    def sub(v):
        if isinstance(v, dict):
            for k in ('$m', '$cm'):
                if k in v:
                    x = v[k][i if len(v[k]) > 1 else 0]
                    x = x[j if len(x) > 1 else 0]
                    return {'$c': x} if k == '$cm' else x
            return dict((k, sub(x)) for k, x in v.items())
        if isinstance(v, list):
            return [sub(x) for x in v]
        return v
    out = copy.deepcopy(spec)
    for k in ('root', 'freqs', 'els'):
        out[k] = sub(out.get(k, []))
    return out


def substitute(spec, idx):
    """the same netlist with every array parameter replaced by its idx-th element"""
    def sub(v):
        if isinstance(v, dict):
            if '$a' in v:
                return v['$a'][idx]
            if '$ca' in v:
                return {'$c': v['$ca'][idx]}
            return dict((k, sub(x)) for k, x in v.items())
        if isinstance(v, list):
            return [sub(x) for x in v]
        return v
    out = copy.deepcopy(spec)
    out['root'] = sub(out['root'])
    out['freqs'] = sub(out.get('freqs', []))
    out['els'] = [[n, c, sub(k)] for n, c, k in out['els']]
    return out
