"""P15: keys, keyed containers, priority queues, complex numbers and array tools against plain models."""
from vlib.harness import Family, Skip
import numpy as np
import cmath
import math

PROPERTY = 'P15'
RULE = ('seeded random histories of operations on frequency keys, dictionary keys, keyed vectors and matrices, priority queues (one thread and several), '
        'complex numbers (scalars and arrays, all operations) and array tools, each step compared with a plain model (dictionaries, sorted lists, '
        'python complex numbers, exhaustive search). Non-trivial: at least one operation was compared.')
ASSUMPTIONS = ['ordering of dictionary keys and local searches in several-branched data are not meant']
REQUIRED = {'mon:key': 800, 'mon:space': 800, 'mon:queue': 1500, 'mon:queue_threads': 20, 'mon:complex': 1500, 'mon:function': 500, 'mon:phase': 100,
            'mon:sections': 100, 'mon:arrays': 300, 'mon:bits': 50}


# ---- keys ---------------------------------------------------------------------------------------------------

class Fq(object):
    def __init__(self, name):
        self.name = name

    def __lt__(self, other):
        return id(self) < id(other)


def run_keys(spec, mon):
    from vlib.harness import Rng
    from phasor.base.dictionary_keys import DictKey, FrequencyKey
    rng = Rng(spec['s'])
    Fs = [Fq('F%d' % i) for i in range(3)]

    def fk():
        d = {f: rng.randint(-2, 2) for f in Fs if rng.chance(.6)}
        return FrequencyKey(d), {f: n for f, n in d.items() if n}

    pool = [fk() for _ in range(6)]
    for _ in range(12):
        (a, ma), (b, mb) = rng.choice(pool), rng.choice(pool)
        op = rng.choice(['add', 'sub', 'neg', 'mul', 'eq'])
        if op == 'eq':
            mon.check('key', (a == b) == (ma == mb) and (ma != mb or hash(a) == hash(b)), 'equality of frequencies')
            mon.check('key', a.DC_is() == (not ma), 'DC')
            continue
        if op == 'neg':
            c, mc = -a, {f: -n for f, n in ma.items()}
        elif op == 'mul':
            n = rng.randint(-2, 2)
            c, mc = n * a, {f: n * v for f, v in ma.items() if n * v}
        else:
            s = 1 if op == 'add' else -1
            c = a + b if s == 1 else a - b
            mc = dict(ma)
            for f, n in mb.items():
                mc[f] = mc.get(f, 0) + s * n
            mc = {f: n for f, n in mc.items() if n}
        mon.check('key', c == FrequencyKey(mc) and hash(c) == hash(FrequencyKey(mc)) and c.F_dict == mc,
                  lambda: '{0}: {1} {2} gives {3}'.format(op, a, b, c))
        pool.append((c, mc))
    names = ['p', 'q', 'freq', 'pol']
    vals = [1, 2, 'S', 'P', pool[0][0], pool[1][0]]

    def dk():
        d = {n: rng.choice(vals) for n in names if rng.chance(.6)}
        return DictKey(d), d

    pool = [dk() for _ in range(5)]
    for _ in range(16):
        (a, ma), (b, mb) = rng.choice(pool), rng.choice(pool)
        op = rng.choice(['or', 'and', 'sub', 'without', 'purge', 'replace', 'contains', 'eq', 'update'])
        before = dict(ma)
        if op == 'contains':
            w = all(k in ma and ma[k] == v for k, v in mb.items())
            mon.check('key', a.contains(b) == w and a.subkey_has(b) == w and len(a) == len(ma) and dict(a) == ma, 'contains')
            continue
        if op == 'eq':
            mon.check('key', (a == b) == (ma == mb) and (ma != mb or hash(a) == hash(b)), 'equality')
            continue
        if op == 'sub':
            mb = {k: v for k, v in ma.items() if rng.chance(.5)}
            c, mc = a - DictKey(mb), {k: v for k, v in ma.items() if k not in mb}
        elif op == 'or':
            c, mc = a | b, dict(ma, **mb)
        elif op == 'and':
            c, mc = a & b, {k: v for k, v in ma.items() if k in mb and mb[k] == v}
        elif op == 'update':
            n, v = rng.choice(names), rng.choice(vals)
            c, mc = a.copy_update(**{n: v}), dict(ma, **{n: v})
        elif op == 'replace':
            c, mc = a.replace_keys(mb), dict(ma, **mb)
        else:
            ks = rng.sample(names, 2)
            if op == 'without':
                ks = [k for k in ks if k in ma]
                c = a.without_keys(*ks)
            else:
                c = a.purge_keys(*ks)
            mc = {k: v for k, v in ma.items() if k not in ks}
        mon.check('key', dict(c) == mc and c == DictKey(mc) and hash(c) == hash(DictKey(mc)), lambda: '{0}: {1} {2} gives {3}'.format(op, a, b, c))
        mon.check('key', dict(a) == before, 'the operand changed')
        pool.append((c, mc))


# ---- keyed vectors and matrices -------------------------------------------------------------------------------

def run_spaces(spec, mon):
    from vlib.harness import Rng
    from phasor.math.key_matrix import keymatrix as km
    rng = Rng(spec['s'])
    cls = rng.choice([km.KVFloatSpace, km.KVComplexSpace])
    A, B = cls(name='a'), cls(name='b')
    ka = ['k%02d' % i for i in rng.sample(range(20), rng.randint(1, 5))]
    kb = [('t', i) for i in rng.sample(range(20), rng.randint(1, 5))]
    n = rng.choice([0, 0, 3])

    def val():
        v = rng.uni(-2, 2) if cls is km.KVFloatSpace else complex(*rng.cplx())
        return v * np.array([1, -2, 3.]) if n and rng.chance(.5) else v

    def own(v):
        # containers may work in place: they get a value of their own
        return np.array(v) if np.ndim(v) else v

    A.keys_add(*ka)
    B.keys_add(*kb)
    if rng.chance(.5):
        A.freeze()
        B.freeze()
    mats = []
    for _ in range(3):
        M = km.KeyMatrix(A, B)
        d = {}
        for _ in range(rng.randint(1, 8)):
            a, b = rng.choice(ka), rng.choice(kb)
            op = rng.choice(['set', 'set', 'mul', 'del', 'read'])
            if op == 'set':
                v = val()
                M[a, b] = own(v)
                d[a, b] = v
            elif op == 'mul' and (a, b) in d:
                v = rng.uni(-2, 2)
                M.multiply_by(a, b, v)
                d[a, b] = d[a, b] * v
            elif op == 'del' and (a, b) in d:
                del M[a, b]
                del d[a, b]
            elif op == 'read':
                mon.check('space', same(M.array, dense(d, ka, kb, 2)), lambda: 'matrix {0} as array {1}'.format(d, M.array))
        mats.append((M, d))
    (M, d), (N, e) = mats[:2]
    S, D = M + N, M - N
    ds, dd = dict(d), dict(d)
    for k, v in e.items():
        ds[k] = ds.get(k, 0) + v
        dd[k] = dd.get(k, 0) - v
    for nm, X, x in (('matrix', M, d), ('sum', S, ds), ('difference', D, dd), ('second', N, e)):
        arr = X.array
        w = dense(x, ka, kb, 2)
        mon.check('space', same(arr, w), lambda: '{0}: {1} where {2} is due'.format(nm, arr, w))
        back = X.backmap_array(arr)
        mon.check('space', same(back.array, w) and set(back.keys()) <= set(x), lambda: '{0}: mapped back to {1}'.format(nm, dict(back.items())))
        inv = X.backmap_array_inv(np.swapaxes(np.asarray(arr), -1, -2))
        mon.check('space', all(k[::-1] in x and np.all(np.asarray(v) == np.broadcast_to(x[k[::-1]], np.shape(v))) for k, v in inv.items())
                  and all(k[::-1] in inv.keys() or np.all(np.asarray(v) == 0) for k, v in x.items()), lambda: '{0}: mapped back inversely to {1}'.format(nm, dict(inv.items())))
        for (a, b), v in x.items():
            mon.check('space', X.index_map(a, b) == (sorted(ka).index(a), sorted(kb).index(b)), 'index of an entry')
        mon.check('space', X.idx_dict.keys() == {(sorted(ka).index(a), sorted(kb).index(b)) for a, b in x}, 'indices of the entries')
    V = km.KeyVector(A)
    dv = {}
    for _ in range(rng.randint(1, 8)):
        a, v = rng.choice(ka), val()
        if rng.chance(.3) and np.ndim(dv.get(a, 0)) >= np.ndim(v):
            V.add_by(a, own(v))
            dv[a] = dv.get(a, 0) + v
        else:
            V[a] = own(v)
            dv[a] = v
    w = dense({(k, 0): v for k, v in dv.items()}, ka, [0], 2)[..., 0, :]
    mon.check('space', same(V.array, w), lambda: 'vector {0} where {1} is due'.format(V.array, w))
    mon.check('space', same(V.backmap_vector(V.array).array, w), 'vector mapped back')
    A.freeze()
    E = km.key_matrix_eye(A)
    mon.check('space', np.array_equal(E.array, np.eye(len(ka))), 'identity')
    mon.check('space', [A.idx_map(A.key_map(k)) for k in ka] == ka and len(A) == len(ka) and A.inverse().inverse() is A, 'numbering of keys')
    try:
        A.keys_add('new')
    except RuntimeError:
        pass
    else:
        mon.check('space', False, 'a frozen space took a key')


def dense(d, ka, kb, nd):
    ka, kb = sorted(ka), sorted(kb)
    sh = np.broadcast(*([np.zeros(())] + [np.asarray(v) for v in d.values()])).shape if len(d) < 30 else ()
    out = np.zeros(sh + (len(kb), len(ka)), complex)
    for (a, b), v in d.items():
        out[..., kb.index(b), ka.index(a)] = v
    return out


def same(got, want):
    got = np.asarray(got)
    return got.shape == want.shape and np.allclose(got, want, rtol=1e-13, atol=0)


# ---- queues -----------------------------------------------------------------------------------------------------

def run_queue(spec, mon):
    from vlib.harness import Rng
    from phasor.utilities.priority_queue.heap_priority_queue import HeapPriorityQueue, HeapPriorityQueueThreadsafe, Empty
    rng = Rng(spec['s'])
    cls = HeapPriorityQueueThreadsafe if spec['safe'] else HeapPriorityQueue
    m = [rng.randint(0, 9) for _ in range(rng.randint(0, 6))]
    q = cls(m)
    m = sorted(m)
    for _ in range(60):
        op = rng.choice(['push', 'push', 'pop', 'pop', 'peek', 'pushpop', 'replace', 'empty', 'len'])
        x = rng.randint(0, 9)
        if op == 'push':
            q.push(x)
            m = sorted(m + [x])
            continue
        if op in ('pop', 'peek'):
            try:
                g = q.pop() if op == 'pop' else q.peek()
            except Empty:
                g = 'Empty'
            w = m[0] if m else 'Empty'
            if op == 'pop':
                m = m[1:]
        elif op == 'pushpop':
            g = q.pushpop(x)
            m = sorted(m + [x])
            w, m = m[0], m[1:]
        elif op == 'replace':
            try:
                g = q.replace(x)
            except IndexError:
                g = 'IndexError'
            w = m[0] if m else 'IndexError'
            if m:
                m = sorted(m[1:] + [x])
        elif op == 'empty':
            g, w = q.is_empty(), not m
        else:
            g, w = (len(q), bool(q)) if not spec['safe'] else 0, (len(m), bool(m)) if not spec['safe'] else 0
        mon.check('queue', g == w, lambda: '{0} gives {1} where {2} is due ({3})'.format(op, g, w, m))


def run_threads(spec, mon):
    import threading
    import sys
    from vlib.harness import Rng
    from phasor.utilities.priority_queue.heap_priority_queue import HeapPriorityQueueThreadsafe, Empty
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    q = HeapPriorityQueueThreadsafe()
    nt, per = spec['threads'], 120
    got = [[] for _ in range(nt)]
    errs = []

    class Item(object):
        # comparisons in python so that threads are switched in the middle of heap operations
        def __init__(self, v, t):
            self.v, self.t = v, t

        def __lt__(self, other):
            return self.v < other.v

    put = [[] for _ in range(nt)]

    def work(i):
        rng = Rng('%s/%d' % (spec['s'], i))
        try:
            for k in range(per):
                op = rng.choice(['push', 'push', 'pop', 'pushpop', 'replace'])
                it = Item(rng.randint(0, 50), (i, k))
                try:
                    if op == 'push':
                        q.push(it)
                        put[i].append(it)
                    elif op == 'pop':
                        got[i].append(q.pop())
                    elif op == 'pushpop':
                        g = q.pushpop(it)
                        put[i].append(it)
                        got[i].append(g)
                    else:
                        g = q.replace(it)
                        put[i].append(it)
                        got[i].append(g)
                except (Empty, IndexError):
                    pass
        except Exception as e:
            errs.append(repr(e))
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.check('queue_threads', not errs, lambda: errs[0])
    rest = []
    while not q.is_empty():
        rest.append(q.pop())
    mon.check('queue_threads', all(a.v <= b.v for a, b in zip(rest, rest[1:])), 'the rest is not in order')
    ids = sorted(x.t for p in got for x in p) + sorted(x.t for x in rest)
    mon.check('queue_threads', sorted(ids) == sorted(x.t for p in put for x in p), 'items put and items got differ')
    mon.event('items through threads', len(ids))


# ---- complex numbers -------------------------------------------------------------------------------------------

def run_complex(spec, mon):
    from vlib.harness import Rng
    from phasor.math import complex as pc
    from phasor.math import dispatched
    rng = Rng(spec['s'])
    n = spec['n']

    def num():
        z = [rng.choice([complex(*rng.cplx()), complex(*rng.cplx()), complex(rng.uni(-2, 2), 0), complex(0, rng.uni(-2, 2)), complex(rng.choice([-1., 1., 2.]), 0)]) for _ in range(n or 1)]
        return np.array(z) if n else z[0]

    def C(z):
        return pc.Complex(z.real.copy(), z.imag.copy()) if n else pc.Complex(z.real, z.imag)

    def val(c):
        return np.asarray(c.real) + 1j * np.asarray(c.imag)

    def chk(nm, g, w, sc=1.):
        g = val(g) if isinstance(g, pc.Complex) else np.asarray(g)
        mon.check('complex', bool(np.all(abs(g - w) <= 1e-11 * (abs(np.asarray(w)) + 1e-3 * sc))), lambda: '{0}: {1} where {2} is due (of {3}, {4})'.format(nm, g, w, a, b))

    a, b = num(), num()
    A, B = C(a), C(b)
    s = rng.uni(.5, 2) * rng.choice([1, -1])
    zs = complex(*rng.cplx())
    sc = np.max(abs(np.asarray([a, b]))) + 1
    for o, O in ((b, B), (s, s), (zs, zs), (2, 2)):
        chk('add', A + O, a + o, sc)
        chk('sub', A - O, a - o, sc)
        chk('mul', A * O, a * o, sc * sc)
        chk('div', A / O, a / o)
        if not isinstance(O, pc.Complex):
            chk('radd', O + A, o + a, sc)
            chk('rsub', O - A, o - a, sc)
            chk('rmul', O * A, o * a, sc * sc)
            chk('rdiv', O / A, o / a)
    chk('neg', -A, -a)
    chk('pos', +A, +a)
    chk('abs', abs(A), abs(a))
    chk('abs_sq', A.abs_sq(), abs(a) ** 2)
    chk('conjugate', A.conjugate(), np.conj(a))
    chk('conjugate', dispatched.conjugate(A), np.conj(a))
    chk('exp', pc.exp(A), np.exp(a))
    chk('exp', dispatched.exp(A), np.exp(a))
    chk('re', dispatched.re(A), np.real(a))
    chk('im', dispatched.im(A), np.imag(a))
    for k in range(-4, 7):
        chk('power %d' % k, A ** k, a ** k if k >= 0 else 1 / a ** -k, 0)
    if n:
        i = rng.randint(0, n - 1)
        chk('item', A[i], a[i])
    else:
        z = complex(a)
        chk('power 2.0', A ** 2., z ** 2, 0)
        chk('square root', A ** .5, z ** .5, 0)
        p = rng.uni(-2, 3)
        chk('power %s' % p, A ** p, z ** p, 0)
        chk('angle', pc.angle(A), cmath.phase(z), 1)
        chk('angle', dispatched.angle(A, deg=True), cmath.phase(z) * 180 / math.pi, 1)
        mon.check('complex', (A == B) == (a == b) and (A != B) == (a != b) and A == C(a) and not (A != C(a)) and hash(A) == hash(C(a)), 'equality')
        mon.check('complex', A == z and (A != z + 1), 'equality with a number')
        mon.check('complex', bool(dispatched.zero_check_heuristic(A)) == (z == 0) and bool(dispatched.zero_check_heuristic(C(0j))), 'zero check')
        chk('from complex', pc.Complex(z), z)
        chk('from real', pc.Complex(s), s)
    x = rng.uni(.1, 2)
    arr = np.array([rng.uni(.1, 2) for _ in range(3)])
    for f in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'sinh', 'cosh', 'tanh'):
        for v in (x, np.float64(x), arr, complex(x, .3), arr + .3j):
            g, w = getattr(dispatched, f)(v), getattr(np, f)(v)
            mon.check('function', bool(np.all(abs(g - w) <= 1e-12 * (1 + abs(w)))), lambda: '{0}({1}) = {2} where {3} is due'.format(f, v, g, w))
    for v in (x, arr, complex(x, .3), arr + .3j):
        mon.check('function', bool(np.all(abs(val(dispatched.abs_sq(v)) - abs(np.asarray(v)) ** 2) < 1e-12)) if False else bool(np.all(abs(np.asarray(dispatched.abs_sq(v)) - abs(np.asarray(v)) ** 2) < 1e-12)), 'abs_sq')
        mon.check('function', not dispatched.zero_check_heuristic(v) and bool(dispatched.zero_check_heuristic(v * 0)) and not dispatched.check_symbolic_type(v), 'zero check')


# ---- array tools --------------------------------------------------------------------------------------------------

def run_arrays(spec, mon):
    from vlib.harness import Rng
    from phasor.utilities import np as unp
    from phasor.math import numerics
    rng = Rng(spec['s'])
    n = rng.randint(3, 40)
    # a phase without jumps of more than half a turn and within a turn of its start is found again
    step = rng.uni(.1, 2.9)
    wide = rng.chance(.4)
    ph = [rng.uni(-3, 3)]
    while len(ph) < n:
        d = rng.uni(-step, step)
        if wide or -math.pi < ph[-1] + d < 3 * math.pi:
            ph.append(ph[-1] + d)
    ph = np.array(ph)
    data = np.exp(1j * ph) * np.array([rng.log(.1, 10) for _ in range(n)])
    op = rng.randint(0, n - 1)
    deg = rng.chance(.5)
    got = unp.continuous_phase(data, op_idx=op, deg=deg, sep=math.pi, **({'shiftmod': 1000} if wide else {}))
    g = got * math.pi / 180 if deg else got
    mon.check('phase', bool(np.all(abs(np.exp(1j * g) - np.exp(1j * ph)) < 1e-9)), lambda: 'phases {0} of {1}'.format(g, ph))
    mon.check('phase', bool(np.all(abs(np.diff(g) - np.diff(ph)) < 1e-9)), lambda: 'phase {0} has jumps where {1} has none'.format(g, ph))
    for v in (data, data[0]):
        for dg in (True, False):
            m, a = unp.mag_phase_signed(v, deg=dg)
            r = a * math.pi / 180 if dg else a
            mon.check('phase', bool(np.all(abs(m * np.exp(1j * r) - v) < 1e-9 * abs(v))) and bool(np.all((r >= -math.pi / 4 - 1e-9) & (r < 3 * math.pi / 4 + 1e-9))),
                      'signed magnitude and phase')
    F = np.cumsum([rng.uni(.5, 1) for _ in range(n)])
    tau = rng.uni(-.45, .45)
    f2, gd = unp.group_delay(F, np.exp(2j * math.pi * F * tau) * complex(*rng.cplx()), mult=1)
    mon.check('phase', len(f2) == n - 1 and np.array_equal(f2, F[1:]) and bool(np.all(abs(gd - 2 * math.pi * tau) < 1e-9)), 'group delay')
    # sections of a boolean array
    b = np.array([rng.chance(.5) for _ in range(n)])
    if rng.chance(.2):
        b[:] = rng.chance(.5)
    runs = []
    for i in range(n):
        if b[i] and (i == 0 or not b[i - 1]):
            runs.append([i, i])
        if b[i]:
            runs[-1][1] = i + 1
    runs = [tuple(r) for r in runs]
    sec = [tuple(int(x) for x in s) for s in unp.generate_sections(b)]
    mon.check('sections', sec == runs, lambda: 'sections {0} of {1}'.format(sec, b.astype(int)))
    R = rng.randint(1, 4)
    merged = []
    for r in runs:
        if merged and r[0] - merged[-1][1] <= R:
            merged[-1] = (merged[-1][0], r[1])
        else:
            merged.append(r)
    sec2 = [tuple(int(x) for x in s) for s in unp.generate_sections(b, reconnect_length=R)]
    mon.check('sections', sec2 == merged, lambda: 'sections {0} of {1} joined over gaps of {2}'.format(sec2, b.astype(int), R))
    anti = unp.generate_antisections(0, n, runs)
    w = [tuple(r) for r in []]
    at = 0
    for r in runs + [(n, n)]:
        if r[0] > at:
            w.append((at, r[0]))
        at = r[1]
    mon.check('sections', [tuple(int(x) for x in s) for s in anti] == w, lambda: 'gaps {0} of {1}'.format(anti, runs))
    # others
    x = np.array([rng.uni(-5, 5) for _ in range(n)])
    if rng.chance(.3):
        x = np.sort(x)
    y, z = x ** 2, np.arange(n)
    sx, sy, sn, sz, s1 = unp.domain_sort(x, y, None, z, [7])
    idx = np.argsort(x)
    mon.check('arrays', np.array_equal(sx, x[idx]) and np.array_equal(sy, y[idx]) and np.array_equal(sz, z[idx]) and sn is None and list(s1) == [7], 'domain_sort')
    lo, hi = sorted([rng.uni(-5, 5), rng.uni(-5, 5)])
    lx, ly = unp.interval_limit(lo, hi, x, y)
    k = [i for i in range(n) if lo <= x[i] <= hi]
    mon.check('arrays', np.array_equal(lx, x[k]) and np.array_equal(ly, y[k]), 'interval_limit')
    mon.check('arrays', [x[i] for i in unp.argsort(list(x))] == sorted(x), 'argsort')
    mask = np.array([rng.chance(.3) for _ in range(n)])
    ma = unp.masked_argsort(np.ma.array(x, mask=mask))
    mon.check('arrays', list(ma) == [i for i in idx if not mask[i]], lambda: 'masked_argsort')
    a, c = rng.log(1e-3, 1), rng.log(1, 1e3)
    ls = unp.logspaced(a, c, n)
    mon.check('arrays', len(ls) == n and abs(ls[0] - a) < 1e-9 * a and abs(ls[-1] - c) < 1e-9 * c and np.allclose(ls[1:] / ls[:-1], (c / a) ** (1. / (n - 1))), 'logspaced')
    nn = rng.randint(0, n)
    v = np.array([float('nan')] * nn + [rng.uni(-1, 1) for _ in range(n - nn)])
    mon.check('arrays', int(unp.first_non_NaN(v)) == nn, lambda: 'first number of {0} found at {1}'.format(v, unp.first_non_NaN(v)))
    t = unp.common_type(np.array([1, 2.5, rng.choice([True, 'x', 3])], dtype=object))
    mon.check('arrays', t is None or isinstance(t, type), 'common_type')
    mon.check('arrays', unp.common_type(np.array([True, 3, True], dtype=object)) is int, 'common_type')
    big = rng.randint(0, 2 ** rng.choice([5, 36, 37, 40, 72, 90]))
    mon.check('bits', sorted(numerics.yield_bits_on(big)) == [i for i in range(100) if big >> i & 1], lambda: 'bits of {0}: {1}'.format(big, list(numerics.yield_bits_on(big))))
    mon.check('bits', abs(numerics.linear_interpolate(lo, hi, tau) - (lo * (1 - tau) + hi * tau)) < 1e-12, 'interpolation')


def gs(rng):
    return {'s': str(rng.randint(0, 10 ** 12))}


FAMILIES = {
    'keys': Family(gs, run_keys, quick=300, thorough=6000),
    'spaces': Family(gs, run_spaces, quick=300, thorough=6000),
    'queue': Family(lambda r: dict(gs(r), safe=r.chance(.5)), run_queue, quick=300, thorough=6000),
    'threads': Family(lambda r: dict(gs(r), threads=r.choice([2, 4, 8])), run_threads, quick=60, thorough=1000),
    'complex': Family(lambda r: dict(gs(r), n=r.choice([0, 0, 3])), run_complex, quick=300, thorough=6000),
    'arrays': Family(gs, run_arrays, quick=500, thorough=8000),
}
