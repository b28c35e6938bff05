"""Random ABCD layouts (phasor.alm) and an independent reading of them.

A layout is a tree of systems; the model flattens it into a list of segments (length, matrix, index of refraction, label) seen
from the left of the root system, with reversed systems mirrored, and works with products of 2x2 matrices only."""
import numpy as np

UNITS = {'m': 1., 'cm': 1e-2, 'mm': 1e-3, 'um': 1e-6, 'in': .0254, 'ft': .3048}
N = {'fused_silica': {1064: 1.4496, 532: 1.4607}, 'BK7': {1064: 1.5066, 532: 1.5195}, 'vacuum': {1064: 1., 532: 1.},
     'nitrogen': {1064: 1.0002952, 532: 1.0002994}, 'PPKTP': {1064: 1.8302, 532: 1.7779}}
J = np.diag([1., -1.])


def length(rng, v):
    u = rng.choice(['m', 'm', 'cm', 'mm', 'in', 'ft'])
    return [u, v / UNITS[u]]


def val(a):
    return a[1] * UNITS[a[0]]


def curv(rng):
    return rng.log(.05, 3) * rng.choice([1, 1, -1])


def gen_element(rng, env):
    k = rng.choice(['ThinLens', 'ThinLens', 'ThinLens', 'Mirror', 'NoP', 'ABCDGeneric', 'PLCX', 'PLCX', 'CXCX', 'PLCXMirror', 'Space'])
    a = {}
    if k == 'ThinLens':
        a['f'] = length(rng, curv(rng))
    elif k == 'Mirror':
        if rng.chance(.8):
            a['R'] = length(rng, curv(rng))
        else:
            a['R'] = None
    elif k == 'ABCDGeneric':
        a.update(A=rng.uniform(.3, 2), B=rng.choice([0, rng.uniform(-.5, .5)]), C=rng.choice([0, rng.uniform(-4, 4)]))
    elif k == 'Space':
        a['L'] = length(rng, rng.log(.01, .5))
    elif k != 'NoP':
        if rng.chance(.8):
            a['L'] = length(rng, rng.log(.001, .05))
        if k == 'CXCX':
            a['R1'], a['R2'] = length(rng, curv(rng)), length(rng, curv(rng))
        else:
            a['R'] = length(rng, curv(rng))
        if rng.chance(.4):
            a['sub'] = rng.choice(['BK7', 'PPKTP', 'fused_silica'])
    return dict(k=k, a=a)


def gen_target(rng):
    return dict(k='BeamTarget', a=dict(Z=rng.uniform(-1, 1), ZR=rng.log(.01, 2)))


def gen_system(rng, depth, env, count, names, gaps=.9):
    items = []
    pos = rng.choice([0., 0., rng.uniform(-1, 1)])
    for i in range(count):
        if depth and rng.chance(.25):
            it = gen_system(rng, depth - 1, env, rng.randint(1, 4), names)
        elif rng.chance(.3):
            it = gen_target(rng)
        else:
            it = gen_element(rng, env)
        it['n'] = '{0}{1}'.format(rng.choice('abcdqxyz'), len(names))
        names.append(it['n'])
        it['loc'] = length(rng, pos)
        if items and width(items[-1]) == 0 and rng.chance(.12):
            it['loc'] = list(items[-1]['loc'])
        if rng.chance(.15) and it['k'] != 'BeamTarget':
            it['rev'] = True
        items.append(it)
        pos = val(it['loc']) + width(it)
        pos += rng.log(.01, .6) if rng.chance(gaps) else 1e-3
    s = dict(k='System', a={}, items=items)
    if depth and rng.chance(.15):
        s['bl'] = length(rng, val(items[0]['loc']) - rng.log(.01, .3))
        if rng.chance(.5):
            s['br'] = length(rng, pos + rng.log(.01, .3))
    order = list(range(len(items)))
    rng.shuffle(order)
    s['order'] = order
    return s


def gen(rng, cavity=False):
    env = rng.choice(['nitrogen', 'nitrogen', 'vacuum', 'fused_silica'])
    names = []
    s = gen_system(rng, 2, env, rng.randint(2, 6), names)
    s.pop('bl', None), s.pop('br', None)
    # two targets at least
    ends = s['items'][-1]
    pos = val(ends['loc']) + width(ends)
    for i in range(rng.choice([1, 2])):
        t = gen_target(rng)
        t['n'] = 't%d' % i
        pos += rng.log(.02, .4)
        t['loc'] = length(rng, pos)
        s['items'].append(t)
    s['order'] = rng.sample(range(len(s['items'])), len(s['items']))
    s['rev'] = rng.chance(.2)
    s['env'] = env
    s['nm'] = rng.choice([1064, 1064, 532])
    return s


# ---- the model ----

def segs(it, env, nm, rev=False, prefix=''):
    """[(length, matrix, n, kind, name, data)] from the left, as seen with the element's outer frame; rev mirrors it"""
    rev = rev ^ bool(it.get('rev'))
    n0 = N[env][nm]
    a = it['a']
    name = prefix + it.get('n', '')
    out = []
    k = it['k']

    def thin(M, kind='thin', data=None):
        out.append((0., np.array(M, dtype=float), None, kind, name, data))

    def space(L, n):
        out.append((L, np.array([[1, L], [0, 1.]]), n, 'space', name, None))

    def face(R, n1, n2):
        thin([[1, 0], [0 if R is None else (n1 - n2) / (n2 * R), n1 / n2]], 'face')
    if k == 'System':
        # of elements at one place the thin ones come first, in order of their names
        its = sorted(it['items'], key=lambda c: (val(c['loc']), width(c), c['n']))
        pos = None
        if 'bl' in it:
            pos = val(it['bl'])
        sub = prefix + it['n'] + '.' if 'n' in it else prefix
        for c in its:
            if pos is not None:
                space(val(c['loc']) - pos, n0)
            out.extend(segs(c, env, nm, False, sub))
            pos = val(c['loc']) + width(c)
        if 'br' in it:
            space(val(it['br']) - pos, n0)
    elif k == 'BeamTarget':
        thin(np.eye(2), 'target', a['Z'] + 1j * a['ZR'])
    elif k == 'NoP':
        thin(np.eye(2))
    elif k == 'ThinLens':
        thin([[1, 0], [-1 / val(a['f']), 1]], 'lens')
    elif k == 'Mirror':
        thin([[1, 0], [-2 / val(a['R']) if a['R'] else 0, 1]], 'mirror')
    elif k == 'ABCDGeneric':
        thin([[a['A'], a['B']], [a['C'], (1 + a['B'] * a['C']) / a['A']]])
    elif k == 'Space':
        space(val(a['L']), n0)
    elif k in ('PLCX', 'CXCX', 'PLCXMirror'):
        n1 = N[a.get('sub', 'fused_silica')][nm]
        L = val(a['L']) if 'L' in a else 6.35e-3
        if k == 'PLCX':
            face(val(a['R']), n0, n1)
            space(L, n1)
            face(None, n1, n0)
        elif k == 'CXCX':
            face(val(a['R1']), n0, n1)
            space(L, n1)
            face(-val(a['R2']), n1, n0)
        else:
            face(None, n0, n1)
            space(L, n1)
            thin([[1, 0], [-2 / val(a['R']), 1]])
            space(L, n1)
            face(None, n1, n0)
    if rev:
        out = [(L, J.dot(np.linalg.inv(M)).dot(J), n, kd, nm_, -np.conj(d) if kd == 'target' else d) for L, M, n, kd, nm_, d in reversed(out)]
    return out


def width(it):
    if it['k'] == 'System':
        its = sorted(it['items'], key=lambda c: (val(c['loc']), width(c), c['n']))
        l = val(it['bl']) if 'bl' in it else val(its[0]['loc'])
        r = val(it['br']) if 'br' in it else val(its[-1]['loc']) + width(its[-1])
        return r - l
    if it['k'] == 'Space':
        return val(it['a']['L'])
    if it['k'] in ('PLCX', 'CXCX', 'PLCXMirror'):
        L = val(it['a']['L']) if 'L' in it['a'] else 6.35e-3
        return 2 * L if it['k'] == 'PLCXMirror' else L
    return 0.


class Model(object):
    def __init__(self, spec):
        self.segs = segs(spec, spec['env'], spec['nm'])
        self.pos = np.cumsum([0.] + [s[0] for s in self.segs])
        self.targets = dict((s[4], i) for i, s in enumerate(self.segs) if s[3] == 'target')
        self.lam = spec['nm'] * 1e-9

    def between(self, i, j):
        """from the left of segment i to the left of segment j"""
        if j < i:
            return np.linalg.inv(self.between(j, i))
        M = np.eye(2)
        for s in self.segs[i:j]:
            M = s[1].dot(M)
        return M

    def to_z(self, i, z):
        if z < 0:
            return np.array([[1, z], [0, 1.]]).dot(self.between(i, 0))
        if z > self.pos[-1]:
            return np.array([[1, z - self.pos[-1]], [0, 1.]]).dot(self.between(i, len(self.segs)))
        for j, s in enumerate(self.segs):
            if self.pos[j] < z < self.pos[j + 1]:
                return np.array([[1, z - self.pos[j]], [0, 1.]]).dot(self.between(i, j))
        return None

    def clear(self, z, eps=1e-7):
        return np.min(abs(self.pos - z)) > eps


def gauss(q, lam):
    zr = q.imag
    return dict(Z=q.real, ZR=zr, W0=np.sqrt(lam * zr / np.pi), W=np.sqrt(lam * abs(q)**2 / (np.pi * zr)),
                R_inv=q.real / abs(q)**2, divergence_rad=2 * lam / (np.pi * np.sqrt(lam * zr / np.pi)))


def prop(q, M):
    return (M[0, 0] * q + M[0, 1]) / (M[1, 0] * q + M[1, 1])


def overlap(q1, q2, lam):
    """field overlap of the two-dimensional modes by quadrature of the one-dimensional integral"""
    w1, w2 = gauss(q1, lam)['W'], gauss(q2, lam)['W']
    w = min(w1, w2)
    # scale out the width
    a = 1j * np.pi / lam * (1 / np.conj(q2) - 1 / q1)       # exponent of x**2
    # the integral of exp(a x^2) = sqrt(pi / -a), Re a < 0
    return 2 / (np.pi * w1 * w2) * np.pi / -a


# ---- the real thing ----

def kw_len(stem, v):
    return {'{0}_{1}'.format(stem, v[0]): v[1]}


def make(it, alm):
    a = it['a']
    kw = kw_len('loc', it['loc']) if 'loc' in it else {}
    if it.get('rev'):
        kw['reversed'] = True
    k = it['k']
    if k == 'System':
        if 'bl' in it:
            kw.update(kw_len('boundary_left', it['bl']))
        if 'br' in it:
            kw.update(kw_len('boundary_right', it['br']))
    elif k == 'BeamTarget':
        kw['q_raw'] = alm.ComplexBeamParam.from_Z_ZR(a['Z'], a['ZR'])
    elif k == 'ThinLens':
        kw.update(kw_len('f', a['f']))
    elif k == 'Mirror':
        kw.update(kw_len('R', a['R']) if a['R'] else {'R_m': None})
    elif k == 'ABCDGeneric':
        kw.update(a)
    else:
        for s in ('L', 'R', 'R1', 'R2'):
            if s in a:
                kw.update(kw_len(s, a[s]))
        if 'sub' in a:
            kw['substrate_inner'] = getattr(alm, 'substrate_' + a['sub'])
    return getattr(alm, k)(**kw)


def fill(sys, it, alm, only=None):
    for i in it['order'] if only is None else only:
        c = it['items'][i]
        setattr(sys.own, c['n'], make(c, alm))
        if c['k'] == 'System':
            fill(getattr(sys, c['n']), c, alm)


def build(spec, principle=None, only=None):
    from phasor import alm
    kw = {}
    if spec.get('rev'):
        kw['reversed'] = True
    sys = alm.RootSystem(env_principle_target=principle, env_wavelength_nm=spec['nm'],
                         env_substrate=getattr(alm, 'substrate_' + spec['env']), **kw)
    fill(sys, spec, alm, only)
    return sys
