"""P14: Gaussian beams follow the ABCD law through any layout."""
import json

import numpy as np

from vlib import almnet
from vlib.harness import Family, Skip

PROPERTY = 'P14'
RULE = ('seeded random beam layouts (lenses, curved and thick optics of several glasses, mirrors, generic matrices, free spaces, nested, reversed and '
        'bounded subsystems, locations in several units, any declaration order) against a flat product of independently derived matrices; '
        'cavity modes, beam parameters, overlaps, fits of measured profiles. Non-trivial: a layout with at least two elements was measured.')
ASSUMPTIONS = ['positions exactly on a surface are not asked for (which side is meant is a convention)',
               'matrices agree to 1e-9 of the product of the magnitudes of the segment matrices']
REQUIRED = {'mon:matrix': 300, 'mon:between': 300, 'mon:to_z': 300, 'mon:beam': 300, 'mon:overlap': 200, 'mon:gouy': 100, 'mon:cavity': 60,
            'mon:description': 60, 'reversed elements': 60, 'nested targets': 60, 'thick optics': 60}


FLOOR = [0.]


def bound(ss):
    M = np.eye(2)
    for s in ss:
        M = abs(s[1]).dot(M)
    return M


def cval(q):
    return complex(q.value.real, q.value.imag) if np.ndim(q.value.real) == 0 else np.asarray(q.value.real) + 1j * np.asarray(q.value.imag)


def mclose(mon, name, got, want, sc, key=''):
    got = np.asarray(got)
    mon.check(name, got.shape == want.shape and bool(np.all(abs(got - want) <= 1e-9 * np.maximum(sc, 1e-3 + 1e-6 * FLOOR[0]))),
              lambda: '{0}: {1} where {2} is due'.format(key, got.tolist(), want.tolist()))


def beam(mon, name, q, qw, lam, key=''):
    """q: ComplexBeamParam, qw: expected complex"""
    v = cval(q)
    mon.check(name, abs(v - qw) <= 1e-7 * abs(qw) * (1 + abs(qw) / qw.imag), lambda: '{0}: q {1} where {2} is due'.format(key, v, qw))
    g = almnet.gauss(qw, lam)
    for a in ('W0', 'W', 'Z', 'ZR', 'R_inv', 'divergence_rad'):
        sc = abs(g[a]) if a not in ('Z', 'R_inv') else {'Z': abs(qw), 'R_inv': 1 / abs(qw)}[a]
        mon.check(name, abs(getattr(q, a) - g[a]) <= 1e-6 * sc * (1 + abs(qw) / qw.imag), lambda: '{0}: {1} {2} where {3} is due'.format(key, a, getattr(q, a), g[a]))


def measure(spec, sys, mon, deep=True):
    m = almnet.Model(spec)
    ms = sys.measurements
    FLOOR[0] = np.max(bound(m.segs)) * np.max(bound([(0, np.linalg.inv(s[1])) for s in m.segs[::-1]]))
    ns = len(m.segs)
    full = bound(m.segs)
    mclose(mon, 'matrix', sys.matrix, m.between(0, ns), full)
    mclose(mon, 'matrix', sys.matrix_inv, np.linalg.inv(m.between(0, ns)), bound([(0, np.linalg.inv(s[1])) for s in reversed(m.segs)]))
    mon.check('width', abs(sys.width_m - m.pos[-1]) < 1e-9 * max(1, m.pos[-1]), lambda: '{0} {1}'.format(sys.width_m, m.pos[-1]))
    tn = sorted(m.targets)
    mon.event('nested targets', sum('.' in t for t in tn))
    want = [t for _, t in sorted((m.pos[i], t) for t, i in m.targets.items())]
    bt = ms.beam_targets
    mon.check('targets', sorted(bt.tname) == tn and all(abs(z - m.pos[m.targets[t]]) < 1e-9 for t, z in zip(bt.tname, bt.z)), lambda: '{0} {1}'.format(bt, want))
    lam = m.lam
    for t in tn:
        i = m.targets[t]
        mon.check('targets', abs(ms.target_z(t) - m.pos[i]) < 1e-9, t)
        beam(mon, 'beam', ms.target_obj(t).beam_q, m.segs[i][5], lam, t)
        for u in tn:
            j = m.targets[u]
            ss = m.segs[min(i, j):max(i, j)]
            sc = bound(ss) if i <= j else bound([(0, np.linalg.inv(s[1])) for s in reversed(ss)])
            M = m.between(i, j)
            mclose(mon, 'between', ms.mat_target_between(t, u), M, sc, (t, u))
            if np.max(sc) > 1e4:
                continue
            q = almnet.prop(m.segs[i][5], M)
            if abs(q) / q.imag > 1e4:
                continue
            beam(mon, 'beam', ms.target_q(u, t), q, lam, (t, u))
            o = ms.overlap(t, u)
            ow = almnet.overlap(q, m.segs[j][5], lam)
            mon.check('overlap', abs(complex(o.real, o.imag) - ow) < 1e-6 or abs(complex(o.real, -o.imag) - ow) < 1e-6, lambda: '{0}: {1} {2}'.format((t, u), o, ow))
            mon.check('overlap', abs(o) < 1 + 1e-9, lambda: 'overlap {0} of {1}'.format(abs(o), (t, u)))
            if not deep:
                continue
            # Gouy phase picked up from t to u by the beam of t
            g = np.conj(M[0, 0] + M[0, 1] / m.segs[i][5])
            gp = ms.relative_gouy_phasor(t, u, beam_source=t)
            mon.check('gouy', abs(complex(gp) - g / abs(g)) < 1e-6, lambda: '{0}: {1} {2}'.format((t, u), gp, g / abs(g)))
        mclose(mon, 'between', ms.mat_target_between('left', t), m.between(0, i), bound(m.segs[:i]), ('left', t))
        mclose(mon, 'between', ms.mat_target_between(t, 'right'), m.between(i, ns), bound(m.segs[i:]), (t, 'right'))
        mclose(mon, 'between', ms.mat_target_between(t, 'left'), m.between(i, 0), bound([(0, np.linalg.inv(s[1])) for s in reversed(m.segs[:i])]), (t, 'left'))
        zs = [z for z in spec['zs'] if m.clear(z)]
        for z in zs:
            M = m.to_z(i, z)
            sc = bound(m.segs) + 10 * full + bound([(0, np.linalg.inv(s[1])) for s in reversed(m.segs)])
            mclose(mon, 'to_z', ms.mat_target_z(t, z), M, sc * (1 + abs(z)), (t, z))
            if np.max(sc) > 1e5:
                continue
            q = almnet.prop(m.segs[i][5], M)
            if abs(q) / q.imag > 1e4 or np.max(abs(M)) > 1e4:
                continue
            beam(mon, 'beam', ms.q_target_z(z, t), q, lam * abs(np.linalg.det(M)), (t, z))
            if deep:
                g = np.conj(M[0, 0] + M[0, 1] / m.segs[i][5])
                gp = ms.relative_gouy_phasor(t, z, beam_source=t)
                mon.check('gouy', abs(complex(gp) - g / abs(g)) < 1e-6, lambda: '{0}: {1} {2}'.format((t, z), gp, g / abs(g)))
        if deep and len(zs) > 1 and np.max(full) < 1e5:
            for za in (np.array(zs), np.array(sorted(set(zs))), np.array(zs)[::-1], np.array([zs, zs])):
                got = np.asarray(ms.mat_target_z(t, za))
                mon.check('to_z', got.shape == (2, 2) + za.shape, lambda: 'shape {0} for positions of shape {1}'.format(got.shape, za.shape))
                q = ms.q_target_z(za, t)
                for ix in np.ndindex(za.shape):
                    M = m.to_z(i, za[ix])
                    mclose(mon, 'to_z', got[(slice(None), slice(None)) + ix], M, 20 * full.max() * np.ones((2, 2)), (t, za.tolist(), ix))
                    qw = almnet.prop(m.segs[i][5], M)
                    if abs(qw) / qw.imag < 1e4 and np.max(abs(M)) < 1e4:
                        mon.check('beam', abs(cval(q)[ix] - qw) <= 1e-6 * abs(qw) * (1 + abs(qw) / qw.imag), lambda: '{0}'.format((t, za.tolist(), ix)))
    return m


def walk(it):
    for c in it.get('items', ()):
        yield c
        for d in walk(c):
            yield d


def gen_layout(rng):
    spec = almnet.gen(rng)
    m = almnet.Model(spec)
    W = m.pos[-1]
    if rng.chance(.4):
        late = rng.randint(1, len(spec['order']) - 1)
        if any(spec['items'][i]['k'] == 'BeamTarget' for i in spec['order'][:-late]):
            spec['late'] = late
    spec['zs'] = [rng.uniform(-.2, W + .2) for _ in range(rng.randint(2, 5))]
    # inside short segments too
    for j in range(len(m.segs)):
        if m.segs[j][0] and rng.chance(.4):
            spec['zs'].append(m.pos[j] + m.segs[j][0] * rng.uniform(.1, .9))
    return spec


def run_layout(spec, mon):
    m = almnet.Model(spec)
    if max(np.max(bound(m.segs)), np.max(bound([(0, np.linalg.inv(s[1])) for s in m.segs]))) > 1e4:
        raise Skip('lens train too strong for numbers')
    late = spec.get('late')
    if late:
        # part of the layout is measured before the rest is added
        first = spec['order'][:-late]
        part = dict(spec, items=[spec['items'][i] for i in sorted(first)], zs=spec['zs'][:1])
        sys = almnet.build(spec, only=first)
        measure(part, sys, mon, deep=False)
        from phasor import alm
        almnet.fill(sys, spec, alm, spec['order'][-late:])
        mon.event('elements added late', late)
    else:
        sys = almnet.build(spec)
    els = list(walk(spec))
    mon.event('reversed elements', sum(bool(c.get('rev')) for c in els) + bool(spec.get('rev')))
    mon.event('thick optics', sum(c['k'] in ('PLCX', 'CXCX', 'PLCXMirror') for c in els))
    for c in els:
        mon.event('element ' + c['k'])
    measure(spec, sys, mon)
    describe(spec, sys, m, mon)
    if not spec.get('noregen'):
        sys2 = sys.regenerate()
        measure(dict(spec, zs=spec['zs'][:1]), sys2, mon, deep=False)


LONG = {'m': 'meter', 'cm': 'centimeter', 'mm': 'millimeter', 'um': 'micrometer', 'in': 'inch', 'ft': 'foot'}
NAMES = {'f': 'focal_length', 'L': 'length', 'R': 'ROC', 'R1': 'ROC1', 'R2': 'ROC2'}


def gen_moved(rng):
    while True:
        spec = gen_layout(rng)
        spec.pop('late', None)
        via = rng.choice(['shadow', 'export', 'export'])
        todo = []
        for n, c in named(spec):
            for a, v in c['a'].items():
                # an export also lists the parts of thick optics with their own parameters, editing only one of them is not meant here
                if a in NAMES and v is not None and (via == 'shadow' or c['k'] not in ('PLCX', 'CXCX', 'PLCXMirror')):
                    todo.append((n, a))
            if rng.chance(.6):
                todo.append((n, 'loc'))
        todo = rng.sample(todo, min(len(todo), rng.randint(1, 3)))
        new = json.loads(json.dumps(spec))
        flat = dict(named(new))
        changes = []
        for n, a in todo:
            c = flat[n]
            if a == 'loc':
                v = almnet.val(c['loc']) + rng.uniform(-.3, .3)
                c['loc'] = almnet.length(rng, v)
                changes.append([n, 'location', c['loc']])
            else:
                c['a'][a] = almnet.length(rng, almnet.val(c['a'][a]) * rng.uniform(.4, .95))
                changes.append([n, NAMES[a], c['a'][a]])
        if changes and not collide(new):
            break
    return dict(old=spec, new=new, changes=changes, solved=rng.chance(.7), via=via)


def collide(it):
    its = sorted(it['items'], key=lambda c: (almnet.val(c['loc']), almnet.width(c), c['n']))
    for a, b in zip(its[:-1], its[1:]):
        if almnet.val(b['loc']) < almnet.val(a['loc']) + almnet.width(a):
            return True
    if 'bl' in it and almnet.val(its[0]['loc']) < almnet.val(it['bl']):
        return True
    if 'br' in it and almnet.val(its[-1]['loc']) + almnet.width(its[-1]) >= almnet.val(it['br']):
        return True
    return any(collide(c) for c in its if c['k'] == 'System')


def run_moved(spec, mon):
    from declarative import bunch
    old, new = spec['old'], spec['new']
    for s in (old, new):
        m = almnet.Model(s)
        if max(np.max(bound(m.segs)), np.max(bound([(0, np.linalg.inv(x[1])) for x in m.segs]))) > 1e4:
            raise Skip('lens train too strong for numbers')
    sys = almnet.build(old)
    if spec['solved']:
        measure(dict(old, zs=old['zs'][:1]), sys, mon, deep=False)
    sys.components
    if spec['via'] == 'shadow':
        db = sys.ctree_shadow()
    else:
        # the exported tree of a measured layout
        sys.matrix
        full = bunch.DeepBunchSingleAssign()
        full.update_recursive(sys.ctree)
        db = bunch.DeepBunch()
        db.update_recursive(full)
    for n, a, v in spec['changes']:
        node = db
        for k in n.split('.') + [a]:
            node = node[k]
        node.val = v[1]
        node.units = LONG[v[0]]
        mon.event('changed ' + a)
    sys2 = sys.regenerate(ctree=db)
    measure(dict(new, zs=new['zs'][:2]), sys2, mon, deep=False)
    measure(dict(old, zs=old['zs'][:1]), sys, mon, deep=False)


def describe(spec, sys, m, mon):
    ms = sys.measurements
    t = min(m.targets, key=lambda t: m.pos[m.targets[t]])
    ds = ms.lens_descriptions(beam_source=t)
    # every lens: its focal length, at one of its edges
    want = []
    names = {}
    for j, s in enumerate(m.segs):
        names.setdefault(s[4], []).append(j)
    flat = dict((c[0], c[1]) for c in named(spec))
    for n, js in names.items():
        if n in flat and flat[n]['k'] in ('ThinLens', 'PLCX', 'CXCX'):
            M = m.between(min(js), max(js) + 1)
            want.append((m.pos[min(js)], m.pos[max(js) + 1], -1 / M[1, 0]))
    mon.check('description', len(ds) == len(want), lambda: '{0} lenses described of {1}'.format(len(ds), len(want)))
    want = list(want)
    for d in ds:
        hit = [w for w in want if min(abs(d.z - w[0]), abs(d.z - w[1])) < 1e-9 and abs(1 / d.f_m - 1 / w[2]) <= 1e-8 * abs(1 / w[2]) + 1e-12]
        mon.check('description', len(hit) >= 1, lambda: 'lens at {0} with f {1} not in {2}'.format(d.z, d.f_m, want))
        if hit:
            want.remove(hit[0])
    td = ms.target_descriptions(beam_source=t)
    mon.check('description', sorted(d.z for d in td) == sorted(d.z for d in td) and
              np.allclose(sorted(d.z for d in td), sorted(m.pos[i] for i in m.targets.values()), atol=1e-9), lambda: str([d.z for d in td]))
    for d in ms.waist_descriptions():
        # the beam of the last target before has its waist there
        if not m.clear(d.z):
            continue
        ok = False
        for u, i in m.targets.items():
            M = m.to_z(i, d.z)
            if M is None:
                continue
            q = almnet.prop(m.segs[i][5], M)
            ok = ok or (abs(q.real) < 1e-5 * (q.imag + 1) * (1 + np.max(abs(M))) and abs(q.imag - d.ZR) < 1e-5 * d.ZR * (1 + np.max(abs(M))))
        mon.check('description', ok, lambda: 'no beam has a waist at {0} with ZR {1}'.format(d.z, d.ZR))


def named(it, prefix=''):
    for c in it.get('items', ()):
        yield prefix + c['n'], c
        for d in named(c, prefix + c['n'] + '.'):
            yield d


# ---- cavities ----

def gen_cavity(rng):
    while True:
        loop = almnet.gen_system(rng, 1, 'vacuum', rng.randint(2, 4), [])
        loop['n'] = 'q_system'
        loop.pop('bl', None), loop.pop('br', None)
        env = rng.choice(['nitrogen', 'vacuum'])
        nm = rng.choice([1064, 532])
        if any(c['k'] == 'BeamTarget' for c in walk(loop)):
            continue
        M = np.eye(2)
        for s in almnet.segs(loop, env, nm):
            M = s[1].dot(M)
        if abs(M[0, 0] + M[1, 1]) < 1.98 and abs(M[1, 0]) > 1e-2:
            break
    return dict(loop=loop, env=env, nm=nm, rev=rng.chance(.5), at=rng.uniform(0, 1), turns=rng.randint(1, 3))


def run_cavity(spec, mon):
    from phasor import alm
    nm, env = spec['nm'], spec['env']
    sys = alm.RootSystem(env_wavelength_nm=nm, env_substrate=getattr(alm, 'substrate_' + env))
    sys.own.sub = alm.System(loc_m=0, reversed=spec['rev'])
    sys.sub.own.q1 = alm.BeamTarget(loc_m=0, q_system=alm.System(loc_m=0))
    almnet.fill(sys.sub.q1.q_system, spec['loop'], alm)
    loop = dict(spec['loop'], rev=spec['rev'])
    M = np.eye(2)
    ss = almnet.segs(loop, env, nm)
    for s in ss:
        M = s[1].dot(M)
    q = cval(sys.sub.q1.beam_q)
    mclose(mon, 'cavity', sys.sub.q1.q_system.matrix, M, bound(ss))
    mon.check('cavity', q.imag > 0, 'mode not confined')
    mon.check('cavity', abs(almnet.prop(q, M) - q) < 1e-7 * abs(q) * np.max(bound(ss)), lambda: 'mode {0} is {1} after a round trip'.format(q, almnet.prop(q, M)))
    # the mode goes through copies of its loop unchanged
    loc = .0
    copies = []
    for k in range(spec['turns']):
        copies.append('c%d' % k)
        setattr(sys.sub.own, 'c%d' % k, sys.sub.q1.q_system.replica_generate(loc_m=1e-9 + loc))
        loc += almnet.width(spec['loop'])
    sys.sub.own.q2 = alm.BeamTarget(loc_m=loc + 2e-9, q_raw=alm.ComplexBeamParam(q if not spec['rev'] else -np.conj(q)))
    o = sys.measurements.overlap('sub.q1', 'sub.q2')
    mon.check('cavity', abs(abs(o) - 1) < 1e-6, lambda: 'overlap {0} with itself after {1} turns'.format(abs(o), spec['turns']))


# ---- beam parameters by themselves ----

def gen_q(rng):
    return dict(Z=rng.choice([0, rng.uniform(-2, 2)]), ZR=rng.log(1e-3, 5), Z2=rng.uniform(-2, 2), ZR2=rng.log(1e-3, 5), nm=rng.choice([1064, 532, 1550]),
                d=rng.uniform(-3, 3), M=[[rng.uniform(.3, 2), rng.uniform(-1, 1)], [rng.uniform(-3, 3), 0]],
                fit=[rng.uniform(-.4, .4), rng.log(.03, .5)], pts=sorted(rng.uniform(-1, 1) for _ in range(rng.randint(6, 12))))


def run_q(spec, mon):
    from phasor import alm
    C = alm.ComplexBeamParam
    lam = spec['nm'] * 1e-9
    q = spec['Z'] + 1j * spec['ZR']
    g = almnet.gauss(q, lam)
    a = C.from_Z_ZR(spec['Z'], spec['ZR'], wavelen=lam)
    beam(mon, 'param', a, q, lam, 'Z, ZR')
    beam(mon, 'param', C(q, wavelen=lam), q, lam, 'q')
    beam(mon, 'param', C.from_Z_W0(spec['Z'], g['W0'], wavelen=lam), q, lam, 'Z, W0')
    beam(mon, 'param', C.from_dRad_Z(g['divergence_rad'], spec['Z'], wavelen=lam), q, lam, 'divergence')
    if spec['Z']:
        mon.check('param', abs(a.R * g['R_inv'] - 1) < 1e-9, 'R')
        beam(mon, 'param', C.from_W_R(g['W'], 1 / g['R_inv'], wavelen=lam), q, lam, 'W, R')
    mon.check('param', abs(a.k * lam / 2 / np.pi - 1) < 1e-12, 'k')
    beam(mon, 'param', a.reversed(), -np.conj(q), lam, 'reversed')
    beam(mon, 'param', a.propagate_distance(spec['d']), q + spec['d'], lam, 'propagated')
    M = np.array(spec['M'])
    M[1, 1] = (1 + M[0, 1] * M[1, 0]) / M[0, 0]
    beam(mon, 'param', a.propagate_matrix(M), almnet.prop(q, M), lam, 'through a matrix')
    # overlap
    p = spec['Z2'] + 1j * spec['ZR2']
    b = C.from_Z_ZR(spec['Z2'], spec['ZR2'], wavelen=lam)
    o, r = a.overlap_with(b), b.overlap_with(a)
    mon.check('param', abs(abs(o) - abs(almnet.overlap(q, p, lam))) < 1e-9, lambda: 'overlap {0} {1}'.format(o, almnet.overlap(q, p, lam)))
    mon.check('param', abs(complex(o.real, o.imag) - complex(r.real, -r.imag)) < 1e-9, lambda: 'overlap {0} and {1} swapped'.format(o, r))
    o2 = a.propagate_matrix(M).overlap_with(b.propagate_matrix(M))
    mon.check('param', abs(abs(o2) - abs(o)) < 1e-6, lambda: 'overlap {0} becomes {1}'.format(abs(o), abs(o2)))
    # numerically, where the integrand is tame
    w = max(g['W'], almnet.gauss(p, lam)['W'])
    x = np.linspace(-6 * w, 6 * w, 20001)
    k = 2 * np.pi / lam
    u1 = (2 / np.pi)**.25 / np.sqrt(g['W']) * np.exp(-1j * k * x**2 / (2 * q))
    u2 = (2 / np.pi)**.25 / np.sqrt(almnet.gauss(p, lam)['W']) * np.exp(-1j * k * x**2 / (2 * p))
    curve = k * w * (12 * w / 20000) * (1 / abs(q) + 1 / abs(p))
    if curve < .5 and min(g['W'], almnet.gauss(p, lam)['W']) > 5 * (x[1] - x[0]):
        num = np.sum(u1 * u2.conj()) * (x[1] - x[0])
        mon.check('integral', abs(abs(num)**2 - abs(o)) < 1e-5, lambda: 'overlap integral {0}, reported {1}'.format(abs(num)**2, abs(o)))
    # a measured profile
    z0, zr = spec['fit']
    zs = np.array(spec['pts'])
    f = alm.QFit(wavelen_nm=spec['nm'], Z_m=zs, R_m=np.sqrt(lam / np.pi / zr * ((zs - z0)**2 + zr**2)))
    try:
        qf = f.q_fit
    except RuntimeError:
        mon.event('fit gave up')
        return
    got = cval(qf)
    wz = f.waist_func_fit(zs)
    if np.all(abs(wz / f.R_m - 1) < 1e-6):
        mon.check('fit', abs(got - (-z0 + 1j * zr)) < 1e-3 * (abs(z0) + zr), lambda: 'fit {0} of a beam with waist at {1}, ZR {2}'.format(got, z0, zr))
    else:
        mon.event('fit stopped elsewhere')
    sys = alm.RootSystem(env_wavelength_nm=spec['nm'])
    sys.own.q1 = f.as_target(loc_m=spec['d'], ref_m=spec['Z2'])
    mon.check('fit', abs(cval(sys.q1.beam_q) - (got + spec['d'] - spec['Z2'])) < 1e-9 * (1 + abs(got)), 'fit placed')


FAMILIES = {
    'layout': Family(gen_layout, run_layout, quick=250, thorough=5000),
    'moved': Family(gen_moved, run_moved, quick=100, thorough=2000),
    'cavity': Family(gen_cavity, run_cavity, quick=80, thorough=1500),
    'param': Family(gen_q, run_q, quick=150, thorough=3000),
}
