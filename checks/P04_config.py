"""P04: parameters mean the same by whatever route and in whatever unit they are given."""
import copy

import numpy as np

from vlib import nets, netlist
from vlib.harness import Family, Skip

PROPERTY = 'P04'
RULE = ('seeded random systems of all domains, simulated a second time with: random parameters moved from the constructors to the '
        'configuration tree (constructor value removed or different); random parameters expressed in other units, as unitful '
        'quantities, or as products of unitful values; the whole exported configuration tree fed to a system whose constructors hold other '
        'values; the system regenerated, unchanged and with some parameters changed through a shadow tree. Results are compared with a '
        'plain construction. Physical constants of the symbol table are moved the same way. Non-trivial: at least one value compared.')
ASSUMPTIONS = ['agreement to 1e-6 of the natural scale of each value (independent models of vlib)',
               'regenerated systems do not use elements whose arguments are objects of the original system (recorded finding K-regen-refs)']
REQUIRED = {'mon:ctree': 150, 'mon:units': 200, 'mon:export': 100, 'mon:regen': 150, 'mon:regen_changed': 100, 'mon:original_kept': 100,
            'mon:symbols': 40, 'mon:symbols_optics': 60, 'values well above tolerance': 300, 'changed value visible': 8}

# constructor keyword -> path in the configuration tree, unit
UNITFUL = {
    'optics.Laser': {'power_W': ('power', 'W'), 'phase_deg': ('phase', 'deg'), 'phase_rad': ('phase', 'rad')},
    'optics.Space': {'L_m': ('length', 'm'), 'L_detune_m': ('L_detune', 'm')},
    'optics.Mirror': {'phase_deg': ('phase', 'deg'), 'phase_rad': ('phase', 'rad'), 'backscatter_phase_deg': ('backscatter_phase', 'deg')},
    'optics.PolarizationRotator': {'rotate_deg': ('rotate', 'deg')},
    'signals.SignalGenerator': {'phase_deg': ('phase', 'deg'), 'phase_rad': ('phase', 'rad')},
    'signals.Mixer': {'phase_deg': ('phase', 'deg'), 'phase_rad': ('phase', 'rad')},
}
PLAIN = {
    'optics.Mirror': ['T_hr', 'L_hr', 'L_t', 'R_backscatter', 'AOI_deg'],
    'signals.SignalGenerator': ['amplitude'],
    'signals.TransferFunctionSISO': ['no_DC'],
    'signals.TransferFunctionMIMO': ['max_freq'],
}
UNITS = {
    'W': [('W', 1.), ('mW', 1e-3), ('uW', 1e-6), ('nW', 1e-9), ('kW', 1e3), ('MW', 1e6), ('fW', 1e-15), ('pW', 1e-12), ('GW', 1e9)],
    'm': [('m', 1.), ('mm', 1e-3), ('um', 1e-6), ('nm', 1e-9), ('pm', 1e-12), ('fm', 1e-15), ('cm', 1e-2), ('km', 1e3), ('in', .0254), ('ft', .3048)],
    'deg': [('deg', 1.), ('rad', 180 / np.pi), ('mrad', .180 / np.pi), ('urad', 180e-6 / np.pi)],
    'rad': [('deg', np.pi / 180), ('rad', 1.), ('mrad', 1e-3), ('urad', 1e-6)],
    'Hz': [('Hz', 1.), ('kHz', 1e3), ('MHz', 1e6), ('GHz', 1e9), ('mHz', 1e-3), ('uHz', 1e-6)],
}
LONG = {'deg': 'degree', 'rad': 'radian', 'W': 'watt', 'm': 'meter', 'Hz': 'hertz'}


def slots(spec):
    """(element index, keyword, kind, ...) of every parameter known to the configuration tree"""
    out = []
    for i, (n, c, k) in enumerate(spec['els']):
        for a in k:
            if isinstance(k[a], (int, float)) and not isinstance(k[a], bool):
                if a in UNITFUL.get(c, {}):
                    out.append((i, a, 'unit') + UNITFUL[c][a])
                elif a in PLAIN.get(c, []):
                    out.append((i, a, 'plain', a, None))
            elif isinstance(k[a], bool) and a in PLAIN.get(c, []):
                out.append((i, a, 'plain', a, None))
    return out


def scales(spec):
    r = nets.refs(spec)[0]
    return dict((k, r(k)) for k in nets.observations(spec))


def agree(mon, name, sc, want, got):
    for key, (w, s) in sc.items():
        if key not in want and key not in got:
            continue
        mon.close(name, got[key], want[key], rtol=1e-6, scale=s, key=key)
        if abs(w) > 1e-3 * s:
            mon.event('values well above tolerance')


def need(rng, n=1, domains=('optics', 'optics', 'optomech', 'signals'), ok=lambda s: True):
    while True:
        spec = nets.gen_any(rng, small=True, domain=rng.choice(domains))
        if len(slots(spec)) >= n and ok(spec):
            return spec


# -- constructor <-> configuration tree ---------------------------------------------------

def gen_ctree(rng):
    spec = need(rng)
    todo = slots(spec)
    spec['move'] = [list(s) for s in rng.sample(todo, rng.randint(1, min(4, len(todo))))]
    spec['how'] = [rng.choice(['absent', 'other', 'same']) for _ in spec['move']]
    spec['alt'] = [rng.randrange(100) for _ in spec['move']]
    spec['form'] = [rng.choice(['plain', 'plain', 'quantity', 'group']) for _ in spec['move']]
    return spec


def other(v):
    return (not v) if isinstance(v, bool) else v * .37 + .11


def run_ctree(spec, mon):
    sc = scales(spec)
    want = netlist.build(spec).observe()
    from phasor.base import pint as P
    from phasor.base.simple_units import SimpleUnitfulGroup
    moved = copy.deepcopy(spec)
    tree = {}
    for (i, a, kind, path, unit), how, alt, form in zip(spec['move'], spec['how'], spec['alt'], spec['form']):
        n, c, k = moved['els'][i]
        v = spec['els'][i][2][a]
        t = tree.setdefault(n, {})
        if kind == 'plain':
            t[path] = v
        else:
            us = UNITS[unit]
            u, f = us[alt % len(us)]
            t[path + '.val'] = v / f
            t[path + '.units'] = LONG.get(u, u)
        # (what is left out falls back to its default, which the tree overrides)
        if how == 'absent' and a not in ('power_W', 'L_m', 'T_hr'):
            k.pop(a, None)
        elif how == 'other':
            k[a] = other(v)
        if a in k and kind != 'plain' and form != 'plain':
            # the constructor is given a unitful value
            u, f = us[(alt // 7) % len(us)]
            q = P.ureg.parse_expression(LONG.get(u, 'inch' if u == 'in' else u))
            w = k.pop(a) / f
            k[path] = w * q if form == 'quantity' else SimpleUnitfulGroup(val=w, ref=w, units=q)
            mon.event('unitful constructor beside the tree')
        mon.event('moved ' + c + '.' + a)
    got = netlist.build(moved, via_ctree=tree).observe()
    agree(mon, 'ctree', sc, want, got)


# -- units --------------------------------------------------------------------------------

def gen_units(rng):
    spec = need(rng, ok=lambda s: any(x[2] == 'unit' for x in slots(s)))
    spec['units'] = [[i, a, p, u] + [rng.randrange(1000), rng.choice(['kw', 'kw', 'quantity', 'group', 'sum'])]
                     for i, a, kind, p, u in slots(spec) if kind == 'unit']
    return spec


def run_units(spec, mon):
    from phasor import base
    from phasor.base import pint as P
    from phasor.base.simple_units import SimpleUnitfulGroup
    sc = scales(spec)
    want = netlist.build(spec).observe()
    alt = copy.deepcopy(spec)
    for i, a, path, unit, r, how in spec['units']:
        n, c, k = alt['els'][i]
        v = k.pop(a)
        us = UNITS[unit]
        u, f = us[r % len(us)]
        stem = a[:-len(unit) - 1]
        if how == 'kw':
            k[stem + '_' + u] = v / f
            mon.event('unit ' + u)
            continue
        q = P.ureg.parse_expression(LONG.get(u, 'inch' if u == 'in' else u))
        g = SimpleUnitfulGroup(val=v / f, ref=v / f, units=q)
        if how == 'sum':
            u2, f2 = us[(r // 10) % len(us)]
            q2 = P.ureg.parse_expression(LONG.get(u2, 'inch' if u2 == 'in' else u2))
            h = SimpleUnitfulGroup(val=.25 * v / f2, ref=.25 * v / f2, units=q2)
            g = (g - h) * .5 + 2 * (.25 * g) + (-(-h)) * .5
        mon.event('unitful ' + how)
        k[path] = v / f * q if how == 'quantity' else g
    sim = netlist.build(alt)
    agree(mon, 'units', sc, want, sim.observe())
    for i, a, path, unit, r, how in spec['units']:
        el = sim.get(spec['els'][i][0])
        stem = a[:-len(unit) - 1]
        for u, f in UNITS[unit]:
            try:
                v = getattr(el, stem + '_' + u)
            except AttributeError:
                continue
            mon.close('unit_readback', v.val * f, spec['els'][i][2][a], rtol=1e-9, atol=1e-300, key=(stem, u))


# -- export / import ----------------------------------------------------------------------

def plain_tree(t):
    """the exported tree as nested plain dictionaries of scalars"""
    out = {}
    for k in t.keys():
        v = t[k]
        if hasattr(v, 'keys'):
            v = plain_tree(v)
            if v:
                out[k] = v
        elif v is None or isinstance(v, (bool, int, float, complex, str)):
            out[k] = v
    return out


def run_export(spec, mon):
    import declarative
    from declarative import bunch
    sc = scales(spec)
    sim = netlist.build(spec)
    want = sim.observe()
    db = bunch.DeepBunchSingleAssign()
    db.update_recursive(sim.sys.ctree)
    tree = plain_tree(db)
    tree.pop('symbols', None)
    scr = copy.deepcopy(spec)
    n = 0
    for i, a, kind, path, unit in slots(spec):
        k = scr['els'][i][2]
        k[a] = other(k[a])
        n += 1
    mon.event('constructor values replaced', n)
    d2 = declarative.DeepBunch()
    d2.update_recursive(tree)
    got = netlist.build(scr, root_extra=dict(ctree=d2)).observe()
    agree(mon, 'export', sc, want, got)


# -- regeneration -------------------------------------------------------------------------

def has_refs(spec):
    # frequencies of the original inside arguments are a recorded finding
    return bool(spec.get('freqs')) or any(c in ('netx.HarmonicMirror', 'optics.HarmonicMirror') for _, c, _ in spec['els'])


def gen_regen(rng):
    dom = ('optics', 'optomech', 'signals', 'electronics', 'mechanics', 'electromech')
    while True:
        spec = nets.gen_any(rng, small=True, domain=rng.choice(dom))
        if not has_refs(spec):
            break
    spec['solved'] = rng.chance(.7)
    todo = slots(spec)
    spec['change'] = [list(s) + [rng.uniform(.5, .9)] for s in rng.sample(todo, min(len(todo), rng.randint(1, 2)))]
    return spec


def run_regen(spec, mon):
    sc = scales(spec)
    ref = netlist.build(spec).observe()
    sim = netlist.build(spec)
    if spec['solved']:
        agree(mon, 'same', sc, ref, sim.observe())
    s2 = netlist.Sim(sim.sys.regenerate(), spec, {})
    agree(mon, 'regen', sc, ref, s2.observe())
    mon.event('domain ' + spec['domain'])
    # a second generation
    s3 = netlist.Sim(s2.sys.regenerate(), spec, {})
    agree(mon, 'regen', sc, ref, s3.observe())
    ch = [c for c in spec['change'] if not isinstance(spec['els'][c[0]][2][c[1]], bool)]
    if ch:
        alt = copy.deepcopy(spec)
        db = sim.sys.ctree_shadow()
        for i, a, kind, path, unit, f in ch:
            v = spec['els'][i][2][a] * f
            alt['els'][i][2][a] = v
            node = db[spec['els'][i][0]]
            if kind == 'plain':
                node[path] = v
            else:
                node[path].val = v
                node[path].units = LONG.get(unit, unit)
        sc2 = scales(alt)
        want = netlist.build(alt).observe()
        got = netlist.Sim(sim.sys.regenerate(ctree=db), spec, {}).observe()
        agree(mon, 'regen_changed', sc2, want, got)
        if any(abs(np.max(abs(want[k] - ref[k]))) > 1e-3 * sc[k][1] for k in want if k in ref and k in sc):
            mon.event('changed value visible')
    # and the original is what it was
    agree(mon, 'original_kept', sc, ref, sim.observe())


def gen_regen_frequency(rng):
    return dict(f1=rng.log(10, 1e3), f2=rng.log(1e4, 1e5), fp=rng.log(100, 1e4), a=rng.uniform(.5, 2))


def run_regen_frequency(spec, mon):
    from phasor import system, signals, readouts
    sys = system.BGSystem(F_AC=1.)
    sys.own.F1 = system.Frequency(F_Hz=spec['f1'], order=1)
    sys.own.gen = signals.SignalGenerator(F=sys.F1, amplitude=spec['a'])
    sys.own.filt = signals.TransferFunctionSISO(filter_func=lambda F: 1 / (1 + 1j * F / spec['fp']))
    sys.own.mix = signals.Mixer()
    sys.bond(sys.gen.ps_Out, sys.filt.ps_In)
    sys.bond(sys.filt.ps_Out, sys.mix.ps_In)
    sys.bond(sys.filt.ps_Out, sys.mix.ps_LO)
    sys.own.R = readouts.DCReadout(port=sys.mix.ps_R_I.o)

    def square(f):
        return spec['a']**2 / (1 + (f / spec['fp'])**2)
    one = complex(sys.R.DC_readout)
    db = sys.ctree_shadow()
    db.F1.frequency.val = spec['f2']
    two = complex(sys.regenerate(ctree=db).R.DC_readout)
    ratio = square(spec['f2']) / square(spec['f1'])
    mon.close('regen_frequency', two / one, ratio, rtol=1e-6, scale=1e-3,
              detail='equals the response at the frequency of the original' if abs(two / one - 1) < 1e-9 else '')


# -- constants ----------------------------------------------------------------------------

def gen_symbols(rng):
    spec = nets.gen_any(rng, small=True, domain=rng.choice(['electronics', 'mechanics', 'electromech']))
    while not any('CSD' in o[1] for o in spec['obs']):
        spec = nets.gen_any(rng, small=True, domain=rng.choice(['electronics', 'mechanics', 'electromech']))
    spec['T'] = rng.log(1, 1000)
    return spec


def run_symbols(spec, mon):
    import declarative
    sc = scales(spec)
    a = netlist.build(spec).observe()
    # no Johnson noise at all, and Johnson noise at twice a temperature
    res = []
    for T in (spec['T'], 2 * spec['T']):
        db = declarative.DeepBunch()
        db.symbols.temp_K = T
        res.append(netlist.build(spec, root_extra=dict(ctree=db)).observe())
    off = netlist.build(spec, root_extra=dict(include_johnson_noise=False)).observe()
    two = netlist.build(spec, root_extra=dict(sided_spectra=2)).observe()
    for k, (w, s) in sc.items():
        if k not in a:
            continue
        if 'CSD' in k:
            j1, j2 = res[0][k] - off[k], res[1][k] - off[k]
            ss = s * max(1, spec['T'] / 299.)
            mon.close('symbols', j2, 2 * j1, rtol=1e-6, scale=ss, key=k)
            mon.close('symbols', (a[k] - off[k]) * spec['T'] / 299., j1, rtol=1e-6, scale=ss, key=k)
            mon.close('sided', two[k], a[k] / 2, rtol=1e-6, scale=s, key=k)
        else:
            mon.close('symbols_other', res[0][k], a[k], rtol=1e-6, scale=s, key=k)


def gen_symbols_optics(rng):
    spec = nets.gen_any(rng, small=True, domain='optics')
    while not any(c == 'optics.Space' for _, c, _ in spec['els']):
        spec = nets.gen_any(rng, small=True, domain='optics')
    spec['ac'] = rng.log(.2, 5)
    spec['ah'] = rng.log(.2, 5)
    return spec


def run_symbols_optics(spec, mon):
    """light of another speed over lengths as many times longer: the same phases; vacuum noise in proportion to h c"""
    import declarative
    sc = scales(spec)
    a = netlist.build(spec).observe()
    db = declarative.DeepBunch()
    db.symbols.c_m_s = 299792458. * spec['ac']
    db.symbols.h_Js = 6.6260700408e-34 * spec['ah']
    els = [[n, c, dict(k)] for n, c, k in spec['els']]
    for n, c, k in els:
        if c == 'optics.Space':
            v = k['L_m']
            k['L_m'] = {'$a': [x * spec['ac'] for x in v['$a']]} if isinstance(v, dict) else v * spec['ac']
    b = netlist.build(dict(spec, els=els), root_extra=dict(ctree=db)).observe()
    for k, (w, s) in sc.items():
        if k not in a:
            continue
        f = spec['ac'] * spec['ah'] if 'CSD' in k else 1 / spec['ac'] if k.startswith('fe') else 1
        mon.close('symbols_optics', b[k], a[k] * f, rtol=1e-6, scale=s * f, key=k)


FAMILIES = {
    'ctree': Family(gen_ctree, run_ctree, quick=70, thorough=900, timeout=40),
    'units': Family(gen_units, run_units, quick=70, thorough=900, timeout=40),
    'export': Family(lambda rng: need(rng), run_export, quick=50, thorough=700, timeout=40),
    'regen': Family(gen_regen, run_regen, quick=120, thorough=900, timeout=40),
    'regen_frequency': Family(gen_regen_frequency, run_regen_frequency, quick=3, thorough=20),
    'symbols_optics': Family(gen_symbols_optics, run_symbols_optics, quick=40, thorough=500, timeout=40),
    'symbols': Family(gen_symbols, run_symbols, quick=30, thorough=300, timeout=40),
}
