"""P01: every registered linear solver returns the solution of the system it was given.

Families
  direct   random sparse graphs handed straight to the registry's solvers
  system   real simulations; a monitor sits on the registry entry and compares every solve
           the simulator makes with an independent dense solve of the same edge map
"""
import collections
import numpy as np

from vlib.harness import Family, Skip
from vlib import nets

PROPERTY = 'P01'
RULE = ('direct: seeded random sparse coupling graphs (2..16 nodes; acyclic / ring / dense / '
        'clustered / nilpotent / empty-diagonal topologies, real and complex, scalar and swept edges, edges vanishing at some sweep points, badly scaled and '
        'ill-ordered pivots, unit self loops, dead branches) solved by each registry solver and '
        'compared entry by entry with an independent dense solve of (1-M); system: the same oracle on '
        'every solve made inside randomly generated optics/electronics/mechanics/signal simulations. '
        'A case is non-trivial when at least one solution entry was compared.')
ASSUMPTIONS = ['entries are compared with a tolerance proportional to the condition number of the '
               'coupling matrix; systems with condition above 1e7 are out of domain']
REQUIRED = {'mon:transfer': 200, 'mon:solution': 200}


def node(i):
    from phasor.base import DictKey
    from phasor.optics import ports
    return (
        DictKey({ports.ElementKey: 'e{0:02d}'.format(i // 3), ports.PortKey: 'o{0}'.format(i % 3)}),
        DictKey({ports.PolKEY: 'S' if i % 2 else 'P'}),
    )


def gen_direct(rng):
    n = rng.randint(2, 16)
    kind = rng.choice(['sparse', 'dense', 'ring', 'chain', 'cluster', 'hub', 'pivot', 'selfunit', 'dark', 'dark'])
    cx = rng.chance(.6)
    nfreq = rng.choice([0, 0, 1, 3, 5])
    gaps = rng.choice([0, 0, .25])  # couplings that vanish at some sweep points only
    if kind == 'dark':
        n = rng.randint(3, 8)
        nfreq = rng.choice([0, 2, 4])
        gaps = rng.choice([0, .25, .4])
    edges = {}

    def val(scale):
        def one():
            m = scale * rng.log(.05, 1.) * rng.choice([1, -1])
            if not cx:
                return [m, 0.]
            return [m, scale * rng.uniform(-1, 1)]
        if nfreq and rng.chance(.5):
            v = [[0., 0.] if rng.chance(gaps) else one() for _ in range(nfreq)]
            return v
        return one()

    def add(i, j, s=.6):
        edges['{0},{1}'.format(i, j)] = val(s)

    if kind == 'dense':
        for i in range(n):
            for j in range(n):
                if rng.chance(.6):
                    add(i, j, 1.5)
    elif kind == 'sparse':
        for _ in range(2 * n + 1):
            add(rng.randrange(n), rng.randrange(n), 1.)
    elif kind == 'ring':
        for i in range(n):
            add(i, (i + 1) % n, 1.)
            add((i + 1) % n, i, 1.)
    elif kind == 'chain':
        for i in range(n - 1):
            add(i, i + 1, 1.)
            if rng.chance(.3):
                add(rng.randrange(i + 1), i + 1, 1.)
    elif kind == 'cluster':
        h = max(1, n // 2)
        for _ in range(2 * n):
            a = rng.choice([0, 1])
            lo, hi = (0, h) if a == 0 else (h, n)
            if hi > lo:
                add(rng.randrange(lo, hi), rng.randrange(lo, hi), 1.)
        add(0, n - 1)
        if rng.chance(.5):
            add(n - 1, 0)
    elif kind == 'hub':
        for i in range(1, n):
            add(0, i, 1.)
            if rng.chance(.7):
                add(i, 0, 1.)
            if rng.chance(.2):
                add(i, rng.randrange(n), 1.)
    elif kind == 'dark':
        # (1-M) nearly empty on the diagonal everywhere: only reflections can eliminate it
        for i in range(n):
            d = rng.choice([0., rng.log(1e-6, 1e-2)])
            edges['{0},{0}'.format(i)] = [1. - d, 0.]
            add(i, (i + 1 + rng.randrange(n - 1)) % n, 1.)
            for j in range(n):
                if j != i and rng.chance(.7):
                    add(i, j, 1.)
    elif kind in ('pivot', 'selfunit'):
        # diagonal of (1-M) exactly zero or tiny on some nodes: the elimination order matters
        for i in range(n):
            add(i, (i + 1) % n, 1.)
            add((i + 1) % n, i, 1.)
            if rng.chance(.5):
                edges['{0},{0}'.format(i)] = [1. if kind == 'selfunit' else 1. - rng.log(1e-9, 1e-2), 0.]
        for _ in range(n):
            add(rng.randrange(n), rng.randrange(n), rng.log(.01, 10.))
    scale = None
    if rng.chance(.25):
        # similarity scaling: same physics in badly mixed units
        scale = [rng.log(1e-4, 1e4) for _ in range(n)]
    ins = rng.sample(range(n), rng.randint(1, min(4, n)))
    outs = rng.sample(range(n), rng.randint(1, min(4, n)))
    src = {str(i): rng.cplx(2) for i in rng.sample(range(n), rng.randint(1, min(3, n)))}
    return dict(n=n, kind=kind, edges=edges, scale=scale, ins=ins, outs=outs, src=src, nfreq=nfreq,
                perm=rng.sample(range(n), n))


def to_arr(v):
    a = np.asarray(v, dtype=float)
    a = a[..., 0] + 1j * a[..., 1]
    if np.all(a.imag == 0):
        a = a.real
    return a if a.shape else a[()]


def dense(n, edges, nf):
    M = np.zeros((max(nf, 1), n, n), dtype=complex)
    for (i, j), v in edges.items():
        M[:, i, j] = v
    return M


def reach(n, edges, starts):
    seen = set(starts)
    todo = list(starts)
    while todo:
        i = todo.pop()
        for (a, b) in edges:
            if a == i and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def run_direct(spec, mon):
    from phasor.matrix.solvers_registry import solvers_all
    n = spec['n']
    edges = {}
    for k, v in spec['edges'].items():
        i, j = map(int, k.split(','))
        edges[i, j] = to_arr(v)
    if spec['scale']:
        s = spec['scale']
        edges = {(i, j): v * s[j] / s[i] for (i, j), v in edges.items()}
    M = dense(n, edges, spec['nfreq'])
    A = np.eye(n) - M
    sc = np.asarray(spec['scale']) if spec['scale'] else np.ones(n)
    # condition in the balanced frame
    Ab = A * sc[None, :, None] / sc[None, None, :]
    cond = np.max(np.linalg.cond(Ab))
    if not cond < 1e6:
        raise Skip('ill conditioned')
    X = np.linalg.inv(Ab) / sc[None, :, None] * sc[None, None, :]
    big = np.max(abs(np.linalg.inv(Ab)))
    gmax = np.max(abs(Ab))
    solvers = ['loop_LUQ', 'scisparse', 'scisparse_superLU']
    # the graph eliminator has no pivoting (hence its name): only where no pivot can vanish
    diag_dom = np.all(np.sum(abs(Ab - np.eye(n)), axis=2) < .9) and np.all(np.sum(abs(Ab - np.eye(n)), axis=1) < .9)
    if diag_dom or spec['kind'] == 'chain':
        solvers.append('loop_fast_unstable')
        mon.event('unpivoted solver in domain')
    mon.event('kind ' + spec['kind'])
    rtol = 1e-13 * max(cond, 1) * 1e3 * n + 1e-9
    perm = spec['perm']  # insertion order of the nodes
    order = sorted(edges, key=lambda e: (perm[e[0]], perm[e[1]]))
    srcv = np.zeros(n, dtype=complex)
    for k, v in spec['src'].items():
        srcv[int(k)] = v[0] + 1j * v[1]
    srcv = srcv * sc
    want_sol = np.einsum('i,fij->fj', srcv, X)
    active = set()
    for (i, j) in edges:
        active.add(i)
        active.add(j)
    for name in solvers:
        for mode in ('transfer', 'solution'):
            seq = collections.defaultdict(set)
            req = collections.defaultdict(set)
            emap = {}
            for (i, j) in order:
                emap[node(i), node(j)] = edges[i, j]
                seq[node(i)].add(node(j))
                req[node(j)].add(node(i))
            for i in range(n):
                seq[node(i)]
                req[node(i)]
            kw = dict()
            if mode == 'transfer':
                kw['inputs_set'] = set(node(i) for i in spec['ins'])
            else:
                kw['inputs_map'] = dict((node(i), srcv[i]) for i in map(int, spec['src']))
            outs = spec['outs']
            sb = solvers_all[name]().inverse_solve_inplace(
                seq=seq, req=req, edge_map=emap,
                outputs_set=set(node(i) for i in outs),
                scattering=True, purge_in=True, purge_out=True, **kw)
            if mode == 'transfer':
                for i in spec['ins']:
                    ok = reach(n, edges, [i])
                    for j in outs:
                        got = sb.edge_map.get((node(i), node(j)), 0)
                        if j not in ok:
                            mon.close('no_spurious_transfer', got, 0, atol=1e-9 * big * sc[j] / sc[i], key=(name, i, j))
                            continue
                        if i == j and i not in active:
                            continue
                        mon.close('transfer', got + 0 * X[:, i, j], X[:, i, j],
                                  rtol=rtol, scale=big * sc[j] / sc[i], key=(name, i, j))
            else:
                smax = np.max(abs(srcv / sc))
                for j in outs:
                    got = sb.outputs_map.get(node(j), 0)
                    if j not in active:
                        continue
                    mon.close('solution', got + 0 * want_sol[:, j], want_sol[:, j],
                              rtol=rtol * n, scale=big * smax * sc[j], key=(name, j))


# ---------------------------------------------------------------- monitored systems

class SolverTap(object):
    """Wraps every entry of the solver registry; after each solve recomputes it densely."""

    def __init__(self, mon, prefix='system_'):
        self.mon = mon
        self.prefix = prefix

    def __enter__(self):
        import phasor.matrix.solvers_registry as R
        self.R = R
        self.saved = dict(R.solvers_all)
        for name, factory in self.saved.items():
            R.solvers_all[name] = self.wrap(name, factory)
        return self

    def __exit__(self, *a):
        self.R.solvers_all.clear()
        self.R.solvers_all.update(self.saved)

    def wrap(self, name, factory):
        def make():
            b = factory()
            inner = b.inverse_solve_inplace

            def inverse_solve_inplace(seq, req, edge_map, outputs_set, inputs_set=frozenset(),
                                      inputs_map=None, **kw):
                seq0 = {k: set(v) for k, v in seq.items()}
                em0 = dict(edge_map)
                im0 = dict(inputs_map.items()) if inputs_map is not None else None
                os0 = set(outputs_set)
                is0 = set(inputs_set)
                args = dict(kw)
                if inputs_map is not None:
                    args['inputs_map'] = inputs_map
                res = inner(seq=seq, req=req, edge_map=edge_map, outputs_set=outputs_set,
                            inputs_set=inputs_set, **args)
                self.verify(name, seq0, em0, im0, os0, is0, res)
                return res
            b.inverse_solve_inplace = inverse_solve_inplace
            return b
        return make

    def verify(self, name, seq, em, im, outs, ins, res):
        mon = self.mon
        nodes = []
        idx = {}

        def reg(k):
            if k not in idx:
                idx[k] = len(nodes)
                nodes.append(k)
            return idx[k]
        trip = []
        for a, ss in seq.items():
            for b in ss:
                if (a, b) in em:
                    trip.append((reg(a), reg(b), np.asarray(em[a, b], dtype=complex)))
        n0 = len(nodes)
        if n0 == 0 or n0 > 700:
            mon.event('system_solve_not_compared')
            return
        if im is not None:
            srcs = {k: np.asarray(v, dtype=complex) for k, v in im.items()}
        else:
            srcs = {}
        shape = np.broadcast(*([t[2] for t in trip][:1] + [np.zeros(())])).shape
        for t in trip:
            shape = np.broadcast_shapes(shape, t[2].shape)
        for v in srcs.values():
            shape = np.broadcast_shapes(shape, v.shape)
        if len(shape) > 2:
            mon.event('system_solve_not_compared')
            return
        picks = list(np.ndindex(shape))
        if len(picks) > 3:
            picks = [picks[0], picks[len(picks) // 2], picks[-1]]
        for pk in picks:
            def at(v):
                return np.broadcast_to(v, shape)[pk]
            A = np.eye(n0, dtype=complex)
            for i, j, v in trip:
                A[i, j] -= at(v)
            # balance rows/columns: units differ by tens of orders between optics and mechanics
            r = np.ones(n0)
            c = np.ones(n0)
            B = abs(A)
            for _ in range(30):
                rr = np.sqrt(np.max(B, axis=1)); rr[rr == 0] = 1
                B = B / rr[:, None]; r = r * rr
                cc = np.sqrt(np.max(B, axis=0)); cc[cc == 0] = 1
                B = B / cc[None, :]; c = c * cc
            Ab = A / r[:, None] / c[None, :]
            try:
                Xb = np.linalg.inv(Ab)
            except np.linalg.LinAlgError:
                mon.event('system_solve_singular')
                continue
            cond = np.linalg.norm(Ab, np.inf) * np.linalg.norm(Xb, np.inf)
            if not cond < 1e7:
                mon.event('system_solve_ill_conditioned')
                continue
            X = Xb / c[:, None] / r[None, :]
            mag = np.max(abs(Xb)) / c[:, None] / r[None, :]
            mon.event('system_solves_compared')
            rt = 1e-12 * cond + 1e-8
            if im is not None and res.outputs_map is not None:
                s = np.zeros(n0, dtype=complex)
                for k, v in srcs.items():
                    if k in idx:
                        s[idx[k]] = at(v)
                want = s @ X
                scal = abs(s) @ mag
                for k in outs:
                    if k in idx:
                        got = res.outputs_map.get(k, 0)
                        mon.close(self.prefix + 'solution', np.broadcast_to(np.asarray(got), shape)[pk] if np.ndim(got) else got,
                                  want[idx[k]], rtol=rt, scale=scal[idx[k]], key=(name, str(k)))
            for a in ins:
                for b in outs:
                    if a in idx and b in idx:
                        got = res.edge_map.get((a, b), 0)
                        mon.close(self.prefix + 'transfer', np.broadcast_to(np.asarray(got), shape)[pk] if np.ndim(got) else got,
                                  X[idx[a], idx[b]], rtol=rt, scale=mag[idx[a], idx[b]], key=(name, str(a), str(b)))


def gen_system(rng):
    spec = nets.gen_any(rng)
    spec['solver'] = rng.choice(['loop_LUQ', 'loop_LUQ', 'scisparse'])
    return spec


def run_system(spec, mon):
    nets.refs(spec)
    with SolverTap(mon):
        sim = nets.build(spec, solver_name=spec['solver'])
        vals = sim.observe()
    mon.event('readouts', len(vals))


FAMILIES = {
    'direct': Family(gen_direct, run_direct, quick=1500, thorough=12000),
    'system': Family(gen_system, run_system, quick=160, thorough=1500),
}
