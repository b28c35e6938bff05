"""P19: filter designs and their representations against the responses they are specified by."""
from fractions import Fraction
import contextlib
import io
import math
import numpy as np
from vlib.harness import Family

PROPERTY = 'P19'
RULE = ('random filters in zeros/poles/gain form (real and conjugate roots, both half planes, repeated roots, wide ranges of frequency), products and quotients of them, the shipped '
        'controller designs at random unity-gain frequencies and shifts, each evaluated by direct products and compared with the design functions, with their conversion to '
        'rational-filter elements running in a simulated system (alone, in chains and in loops), and Legendre-Papoulis prototypes '
        'of every order against their polynomials recomputed in exact integers. Non-trivial: at least one response was compared.')
ASSUMPTIONS = ['roots in the filter designs are in Hz with s = i F, negative real parts are stable and causal',
               'roots exactly on an axis are not generated for conversions; unpaired complex roots are not representable as rational filters']
REQUIRED = {'mon:product': 80, 'mon:design': 120, 'mon:scaling': 60, 'mon:element': 60, 'mon:loop': 30, 'mon:legendre_poly': 10, 'mon:legendre': 60, 'mon:resonance': 40}


def resp(zpk, F):
    z, p, k = zpk
    F = np.asarray(F, float)
    h = np.full(F.shape, complex(k))
    z, p = list(z), list(p)
    for i in range(max(len(z), len(p))):
        if i < len(z):
            h = h * (1j * F - z[i])
        if i < len(p):
            h = h / (1j * F - p[i])
    return h


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def gen_roots(rng, n, F, stable):
    r, c = [], []
    while len(r) + 2 * len(c) < n:
        m = F * rng.log(.05, 20)
        sg = -1 if stable or rng.chance(.6) else 1
        if rng.chance(.5) or len(r) + 2 * len(c) == n - 1:
            r.append(sg * m)
        else:
            q = rng.log(.02, 50)
            re = sg * m / math.sqrt(1 + q * q)
            c.append([re, abs(re) * q])
    if r and rng.chance(.15) and len(r) + 2 * len(c) > 1:
        r[-1] = r[0]
    return r, c


def expand(r, c):
    return [complex(x) for x in r] + [complex(a, b) for a, b in c] + [complex(a, -b) for a, b in c]


def gen_zpk(rng):
    F = rng.log(1e-2, 1e5)
    np_ = rng.randint(0, 6)
    return dict(F=F, z=gen_roots(rng, rng.randint(0, np_ + 1), F, False), p=gen_roots(rng, np_, F, True), k=rng.slog(1e-3, 1e3))


def zpk_of(d):
    return np.array(expand(*d['z'])), np.array(expand(*d['p'])), d['k']


def close(mon, name, got, want, what, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    mon.check(name, got.shape == want.shape and bool(np.all(abs(got - want) <= tol * abs(want) + 1e-290)),
              lambda: '{0}: {1} where {2} is due'.format(what, got, want))


def run_product(spec, mon):
    from phasor.signals import power_loops as pl
    from vlib.harness import Rng
    rng = Rng(spec['s'])
    ds = [gen_zpk(rng) for _ in range(rng.randint(1, 4))]
    F = np.array([ds[0]['F'] * rng.log(.01, 100) for _ in range(6)])
    zs = [zpk_of(d) for d in ds]
    if rng.chance(.5):
        zs = [tuple(tuple(x) if isinstance(x, np.ndarray) else x for x in z) for z in zs]
    w = np.prod([resp(z, F) for z in zs], axis=0)
    close(mon, 'product', resp(pl.zpk_mult(*zs), F), w, 'product of %d' % len(zs))
    close(mon, 'product', resp(pl.zpk_div(zs[0], zs[-1]), F), resp(zs[0], F) / resp(zs[-1], F), 'quotient')
    # roots sorted for the conversion
    d = pl.zpk2rcpz_dict(zs[0])
    for nm, roots in (('zeros', ds[0]['z']), ('poles', ds[0]['p'])):
        mon.check('product', sorted(d[nm + '_r']) == sorted(roots[0]) and sorted([c.real, c.imag] for c in d[nm + '_c']) == sorted(roots[1]) and d['gain'] == ds[0]['k'],
                  lambda: 'sorted {0}: {1} {2} of {3}'.format(nm, d[nm + '_r'], d[nm + '_c'], roots))


DESIGNS = {
    'ledge_controller': dict(shift=True, N=True, scales=True),
    'ledge_boost': dict(shift=True, N=True, scales=True),
    'cheby_boost': dict(shift=True, scales=False),
    'controller_10x1e3_20x1e8': dict(shift=True, conv=True),
    'controller_20x1e9': dict(conv=True),
    'controller_fast_2p5x1e1': dict(conv=True),
}


def run_design(spec, mon):
    import scipy.signal as ss
    from phasor.signals import power_loops as pl
    f = getattr(pl, spec['name'])
    D = DESIGNS[spec['name']]
    kw = {}
    if D.get('shift') and spec['shift']:
        kw['shift'] = spec['shift']
    if D.get('N'):
        kw['N'] = spec['N']
    F0 = spec['F0']
    zpk = quiet(f, F0, **kw)
    z, p, k = [np.asarray(x, complex) for x in zpk]
    Fs = F0 * np.array(spec['x'])
    for nm, r in (('zeros', z), ('poles', p)):
        mon.check('design', all(min(abs(np.conj(a) - r)) < 1e-9 * abs(a) for a in r), lambda: '{0} of {1} are not in pairs'.format(nm, spec['name']))
        mon.check('design', bool(np.all(r.real < 0)), lambda: '{0} of {1} in the right half plane'.format(nm, spec['name']))
    mon.check('design', abs(complex(k).imag) < 1e-12 * abs(complex(k)) and len(z) <= len(p), 'gain and degree')
    if not D.get('conv'):
        # single stages: unity gain at the design frequency
        close(mon, 'design', abs(resp(zpk, F0)), 1., 'gain of {0} at its frequency'.format(spec['name']), 1e-6)
        mon.check('design', complex(k).real > 0, 'sign')
        # and their shape is that of the combination of prototypes
        sh = kw.get('shift', 5.)
        x = np.array(spec['x'] + [1.]) * sh
        if spec['name'] == 'cheby_boost':
            w = 1 / (resp(ss.cheby1(3, .2, .8, analog=True, output='zpk'), x) * resp(ss.cheby1(3, .2, 1, analog=True, output='zpk'), x))
            w = w * resp(([-.7 + 1j, -.7 - 1j], [-.2 + 1j, -.2 - 1j] + [-.01] * 6, 1), x)
        else:
            N = kw.get('N', 3)
            w = resp(ss.cheby1(N + 2, .3, 1, analog=True, output='zpk'), x) / resp(ss.cheby1(N, .3, 1, analog=True, output='zpk'), x)
            w = w * resp(ss.cheby1(1, 1, 3, analog=True, output='zpk'), x)
            if spec['name'] == 'ledge_boost':
                w = w / resp(ss.butter(3, 2, analog=True, output='zpk'), x) * resp(([-2.4 + 1.5j, -2.4 - 1.5j], [-1.2 + 1.5j, -1.2 - 1.5j], 1), x)
            else:
                w = w / resp(ss.butter(2, 2, analog=True, output='zpk'), x)
        close(mon, 'scaling', resp(zpk, Fs), w[:-1] / abs(w[-1]), 'shape of {0}'.format(spec['name']), 1e-6)
        c = spec['c']
        close(mon, 'scaling', resp(quiet(f, F0 * c, **kw), Fs * c), resp(zpk, Fs), 'the same at another frequency', 1e-6)
        return
    # (the integrating corners of the complete controllers do not move with the frequency)
    mon.check('design', len(z) < len(p), 'controllers roll off')
    g = abs(resp(zpk, F0 * np.array([.003, .1, 1., 300])))
    mon.check('design', g[0] > 10 * g[2] and g[3] < g[2], lambda: 'gains {0} of {1}'.format(g, spec['name']))
    d = quiet(f, F0, out='SRationalFilter', **kw)
    # (the conversion is for negative feedback whatever the sign of the design)
    run_element(mon, d, Fs, -np.sign(resp(zpk, 0.).real) * resp(zpk, Fs) / abs(resp(zpk, F0)), spec['name'], loop=spec['loop'])


def run_element(mon, kw, Fs, want, what, loop=None):
    """the element built of the keywords has the response in a system, alone and within a loop"""
    from phasor import signals, readouts
    import phasor.system as psys
    sys = psys.BGSystem(F_AC=np.asarray(Fs, float))
    s = sys.own
    s.f = signals.SRationalFilter(**kw)
    s.ac = readouts.ACReadout(portD=s.f.ps_In.i, portN=s.f.ps_Out.o)
    if loop is not None:
        # in + g*out -> filter: closed-loop response
        s.sm = signals.DistributionAmplifier(port_gains=dict(A=1., B=1.))
        s.su = signals.SummingAmplifier(port_gains=dict(I=1., B=loop))
        s.f2 = signals.SRationalFilter(**kw)
        s.su.ps_Out.bond(s.f2.ps_In)
        s.f2.ps_Out.bond(s.sm.ps_In)
        s.sm.A.bond(s.su.B)
        s.acl = readouts.ACReadout(portD=s.su.I.i, portN=s.sm.B.o)
    close(mon, 'element', np.broadcast_to(s.ac.AC_sensitivity, np.shape(want)), want, 'response of the element of ' + what, 1e-5)
    if loop is not None:
        den = 1 - loop * want
        ok = abs(den) > 1e-4 * (1 + abs(loop * want))
        got = np.broadcast_to(s.acl.AC_sensitivity, np.shape(want))
        if np.any(ok):
            close(mon, 'loop', got[ok], (want / den)[ok], 'closed loop of ' + what, 1e-3)


def run_convert(spec, mon):
    from phasor.signals import power_loops as pl
    d = spec['f']
    zpk = zpk_of(d)
    F = d['F']
    Fs = F * np.array(spec['x'])
    ugf = F * spec['u']
    out = pl.zpk_convert(ugf, zpk, out='zpk')
    close(mon, 'product', resp(out, Fs), resp(zpk, Fs), 'passed through')
    r = pl.zpk_convert(ugf, zpk, out='SRationalFilter')
    # the conversion gives the filter unity magnitude at its frequency and the sign of a loop with negative feedback
    w = resp(zpk, Fs) / abs(resp(zpk, ugf))
    w = -w * np.sign((resp(zpk, 0.) + 0j).real)
    run_element(mon, r, Fs, w, 'a conversion', loop=spec['loop'])


def run_resonance(spec, mon):
    """rational filters from roots of either representation: what counts is the set of roots"""
    from phasor import signals, readouts
    import phasor.system as psys
    zr, zc, pr, pc = spec['zr'], spec['zc'], spec['pr'], spec['pc']
    Fs = np.array(spec['F'])
    sys = psys.BGSystem(F_AC=Fs)
    s = sys.own
    C = lambda l: [complex(*c) for c in l]
    s.f = signals.SRationalFilter(zeros_r=zr, zeros_c=C(zc), poles_r=pr, poles_c=C(pc), gain=spec['g'])
    # the same as a chain of one filter per root
    prev, first = None, None
    k = 0
    chain = [('zeros_r', x) for x in zr] + [('zeros_c', x) for x in C(zc)] + [('poles_r', x) for x in pr] + [('poles_c', x) for x in C(pc)] + [('gain', spec['g'])]
    order = spec['order']
    chain = [chain[i % len(chain)] for i in sorted(range(len(chain)), key=lambda i: order[i % len(order)] * 97 % 89 + i * 1e-3)]
    for n, v in chain:
        e = signals.SRationalFilter(**({n: [v], 'gain': 1.} if n != 'gain' else {'gain': v}))
        s['e%d' % k] = e
        e = getattr(s, 'e%d' % k)
        if prev is not None:
            prev.ps_Out.bond(e.ps_In)
        else:
            first = e
        prev = e
        k += 1
    s.a = readouts.ACReadout(portD=s.f.ps_In.i, portN=s.f.ps_Out.o)
    s.b = readouts.ACReadout(portD=first.ps_In.i, portN=prev.ps_Out.o)
    w = np.full(Fs.shape, complex(spec['g']))
    for x in [complex(x) for x in zr] + C(zc) + [np.conj(x) for x in C(zc)]:
        w = w * (1 - 1j * Fs / x)
    for x in [complex(x) for x in pr] + C(pc) + [np.conj(x) for x in C(pc)]:
        w = w / (1 - 1j * Fs / x)
    close(mon, 'resonance', np.broadcast_to(s.a.AC_sensitivity, Fs.shape), w, 'filter of roots', 1e-8)
    close(mon, 'resonance', np.broadcast_to(s.b.AC_sensitivity, Fs.shape), w, 'chain of filters of one root each', 1e-8)


# ---- Legendre-Papoulis -------------------------------------------------------------------------------------------

def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    out = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def legendre_P(n):
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = padd([Fraction(0)] + [x * Fraction(2 * k + 1, k + 1) for x in b], [-x * Fraction(k, k + 1) for x in a])
        a, b = b, c
    return b


def papoulis(N):
    """coefficients of L_N in powers of w^2, exactly"""
    k = (N - 1) // 2 if N % 2 else (N - 2) // 2
    v = [Fraction(0)]
    for i in range(k + 1):
        if N % 2 or (k - i) % 2 == 0:
            v = padd(v, [x * (2 * i + 1) for x in legendre_P(i)])
    q = pmul(v, v)
    if N % 2:
        q = [x / (2 * (k + 1) ** 2) for x in q]
    else:
        q = [x / ((k + 1) * (k + 2)) for x in pmul(q, [Fraction(1), Fraction(1)])]
    integ = [Fraction(0)] + [x / (i + 1) for i, x in enumerate(q)]
    # at 2 u - 1, less the value at -1
    out, pw = [Fraction(0)], [Fraction(1)]
    for c in integ:
        out = padd(out, [c * x for x in pw])
        pw = pmul(pw, [Fraction(-1), Fraction(2)])
    out[0] -= sum(c * (-1) ** i for i, c in enumerate(integ))
    return out


def run_legendre(spec, mon):
    from phasor.signals.filters import legendre_filters as lf
    N = spec['N']
    L = papoulis(N)
    got = list(lf.optimum_poly(N))
    want = [0] * (2 * N + 1)
    for i, c in enumerate(L):
        if 2 * i < len(want):
            want[2 * i] = c
    mon.check('legendre_poly', len(got) == 2 * N + 1 and all(a == b for a, b in zip(got[::-1], want)), lambda: 'polynomial of order {0}: {1}'.format(N, got))
    mon.check('legendre_poly', sum(L) == 1 and L[0] == 0, 'the model itself')
    if N > spec['max']:
        return
    z, p, k = lf.legendreap(N)
    mon.check('legendre', len(z) == 0 and len(p) == N and bool(np.all(np.real(p) < 0)), lambda: '{0} poles of order {1}'.format(len(p), N))
    mon.check('legendre', all(min(abs(np.conj(a) - p)) < 1e-9 for a in p), 'pairs of poles')
    w = [Fraction(i, 16) for i in range(0, 33)]
    h = abs(resp((z, p, k), [float(x) for x in w])) ** 2
    l = [float(1 / (1 + sum(c * x ** (2 * i) for i, c in enumerate(L)))) for x in w]
    close(mon, 'legendre', h, np.array(l), 'attenuation of order %d' % N, 1e-7)
    mon.check('legendre', bool(np.all(np.diff(h) <= 1e-9)), 'monotonic')


def gx(rng, n=5):
    return [rng.log(.02, 30) for _ in range(n)]


def gd(rng):
    return dict(name=rng.choice(sorted(DESIGNS)), F0=rng.log(1e-1, 1e4), shift=rng.choice([None, rng.uni(.7, 12)]), N=rng.randint(1, 5), c=rng.log(.1, 10), x=gx(rng),
                loop=rng.choice([None, rng.slog(.1, 3)]))


def gc(rng):
    f = gen_zpk(rng)
    return dict(f=f, x=gx(rng), u=rng.log(.1, 10), loop=rng.choice([None, rng.slog(.1, 3)]))


def gr(rng):
    F = rng.log(1e-2, 1e6)
    zr, zc = gen_roots(rng, rng.randint(0, 4), F, False)
    pr, pc = gen_roots(rng, rng.randint(0, 5), F, rng.chance(.7))
    return dict(zr=zr, zc=zc, pr=pr, pc=pc, g=rng.slog(1e-2, 1e2), F=[F * x for x in gx(rng)], order=[rng.randint(0, 1000) for _ in range(12)])


def gl(rng):
    return dict(N=rng.randint(1, 24), max=24)


FAMILIES = {
    'product': Family(lambda r: dict(s=str(r.randint(0, 10 ** 12))), run_product, quick=60, thorough=3000),
    'design': Family(gd, run_design, quick=120, thorough=3000),
    'convert': Family(gc, run_convert, quick=60, thorough=2000),
    'resonance': Family(gr, run_resonance, quick=60, thorough=2000),
    'legendre': Family(gl, run_legendre, quick=40, thorough=120, timeout=120),
}
