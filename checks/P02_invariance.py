"""P02: the description of a system, not the way it is written down, determines the results."""
import json
import os
import subprocess
import sys

import numpy as np

from vlib import nets, netlist
from vlib.harness import Family, HERE, Skip
from vlib.optcheck import at

PROPERTY = 'P02'
RULE = ('seeded random optics / opto-mechanics / electronics / mechanics / signal systems, each simulated twice: '
        'with elements declared and bonded in another order, bond ends swapped and everything renamed; with bonds of electrical and mechanical junctions stated twice; with another linear solver; with the order of the iteration fixed at the one it stops at by itself, or a higher one; '
        'in fresh interpreters with different hash seeds; with the readouts asked in another order, or only one of them asked; with an '
        'unconnected copy of itself beside it. Every DC value, response and spectrum of the two has to agree. Non-trivial: at '
        'least one pair of values compared.')
ASSUMPTIONS = ['agreement to 1e-6 of the natural scale of each value, taken from the independent models of vlib',
               'networks without a well conditioned solution are out of domain']
REQUIRED = {'mon:same': 500, 'mon:same_solver': 200, 'mon:same_hash': 60, 'mon:same_query': 150, 'mon:same_beside': 60, 'mon:same_restated': 60, 'mon:same_chain': 100, 'mon:same_depth': 400, 'systems iterated beyond the first order': 8, 'sequences': 60, 'values well above tolerance': 400}


def scales(spec):
    rs = nets.refs(spec)
    return [dict((k, r(k)) for k in nets.observations(spec)) for r in rs]


def agree(mon, name, spec, sc, a, b):
    for key in nets.observations(spec):
        if key not in a and key not in b:
            continue
        for i, s in enumerate(sc):
            x, y = a[key], b[key]
            if spec.get('nsweep'):
                x, y = (v[i] if np.ndim(v) else v for v in (x, y))
            w, scale = s[key]
            mon.close(name, y, x, rtol=1e-6, scale=scale, key=key)
            if abs(w) > 1e-3 * scale:
                mon.event('values well above tolerance')


def gen_order(rng):
    spec = nets.gen_any(rng, sweep=rng.chance(.2))
    spec['seed'] = rng.randrange(10**6)
    return spec


def run_order(spec, mon):
    sc = scales(spec)
    a = netlist.build(spec).observe()
    b = netlist.build(spec, seed=spec['seed'], rename=True).observe()
    agree(mon, 'same', spec, sc, a, b)
    mon.event('domain ' + spec['domain'])


def gen_restate(rng):
    spec = nets.gen_any(rng, sweep=rng.chance(.2), domain=rng.choice(['electronics', 'electronics', 'mechanics', 'electromech']))
    spec['seed'] = rng.randrange(10**6)
    spec['restate'] = rng.choice([.15, .5])
    return spec


def run_restate(spec, mon):
    """a junction is the set of ports tied together: saying twice that two are tied changes nothing"""
    sc = scales(spec)
    a = netlist.build(spec).observe()
    b = netlist.build(spec, seed=spec['seed'], restate=spec['restate']).observe()
    agree(mon, 'same_restated', spec, sc, a, b)


def gen_chain(rng):
    while True:
        spec = nets.gen_any(rng, sweep=rng.chance(.2))
        spec['seed'] = rng.randrange(10**6)
        ends = set(p for b in spec['bonds'] for p in b)
        if any(netlist.following(spec, p) in ends for p in ends):
            return spec


def run_chain(spec, mon):
    """bonds stated as sequences through elements are the same bonds"""
    sc = scales(spec)
    a = netlist.build(spec).observe()
    del netlist.sys_chains[:]
    b = netlist.build(spec, seed=spec['seed'], chain=.8).observe()
    mon.event('sequences', len(netlist.sys_chains))
    agree(mon, 'same_chain', spec, sc, a, b)


def gen_solver(rng):
    spec = nets.gen_any(rng, sweep=rng.chance(.4))
    spec['seed'] = rng.randrange(10**6)
    return spec


def run_solver(spec, mon):
    sc = scales(spec)
    a = netlist.build(spec, solver_name='loop_LUQ').observe()
    for s in ('scisparse', 'scisparse_superLU'):
        b = netlist.build(spec, solver_name=s).observe()
        agree(mon, 'same_solver', spec, sc, a, b)


def gen_depth(rng):
    spec = nets.gen_any(rng, sweep=rng.chance(.3), domain=rng.choice(['signals', 'signals', 'signals', 'optics', None]))
    spec['more'] = [0, rng.randrange(1, 5)]
    return spec


def run_depth(spec, mon):
    """the iteration stops when it has converged: ordering exactly as many rounds, or more, changes nothing"""
    sc = scales(spec)
    b = netlist.build(spec)
    a = b.observe()
    n = len(b.sys.solution.driven_solution_bunches) - 2
    if n > 1:
        mon.event('systems iterated beyond the first order')
    for m in spec['more']:
        c = netlist.build(spec, root_extra=dict(exact_order=n + m)).observe()
        agree(mon, 'same_depth', spec, sc, a, c)


def gen_hash(rng):
    out = []
    for _ in range(6):
        out.append(nets.gen_any(rng, small=True))
    return dict(specs=out, seeds=[rng.randrange(1, 4000000000) for _ in range(2)])


def child(spec):
    """values, as lists, in a fresh interpreter"""
    sim = netlist.build(spec)
    return dict((k, [complex(x).real for x in np.ravel(v)] + [complex(x).imag for x in np.ravel(v)]) for k, v in sim.observe().items())


def run_hash(spec, mon):
    todo = []
    for s in spec['specs']:
        try:
            todo.append((s, scales(s)))
        except Skip:
            pass
    if not todo:
        raise Skip('singular')
    res = []
    for hs in spec['seeds']:
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=os.environ.get('PYTHONPATH', HERE))
        try:
            p = subprocess.run([sys.executable, '-c',
                                'import vlib.compat, json, sys, io\n'
                                'from checks.P02_invariance import child\n'
                                'specs = json.load(sys.stdin)\n'
                                'keep = sys.stdout; sys.stdout = io.StringIO()\n'
                                'out = [child(s) for s in specs]\n'
                                'keep.write("RESULT" + json.dumps(out))\n'],
                               input=json.dumps([s for s, _ in todo]), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, cwd=HERE, universal_newlines=True, timeout=200)
        except subprocess.TimeoutExpired:
            raise Skip('slow')
        if not mon.check('runs_under_hash_seed', p.returncode == 0 and 'RESULT' in p.stdout, p.stderr[-800:]):
            return
        res.append(json.loads(p.stdout.split('RESULT', 1)[1]))
    mon.event('interpreters', len(res))
    here = []
    for (s, sc), x, y in zip(todo, res[0], res[1]):
        def back(d):
            return dict((k, v[0] + 1j * v[1]) for k, v in d.items() if len(v) == 2)
        x, y = back(x), back(y)
        z = netlist.build(s).observe()
        agree(mon, 'same_hash', s, sc, z, x)
        agree(mon, 'same_hash', s, sc, z, y)


def gen_query(rng):
    spec = nets.gen_any(rng)
    while len(spec['obs']) < 2:
        spec = nets.gen_any(rng)
    spec['qorder'] = rng.sample(range(len(spec['obs'])), len(spec['obs']))
    spec['only'] = rng.randrange(len(spec['obs']))
    return spec


def run_query(spec, mon):
    sc = scales(spec)
    sim = netlist.build(spec)
    a = sim.observe()
    b = netlist.build(spec).observe(order=spec['qorder'])
    agree(mon, 'same_query', spec, sc, a, b)
    # the same object asked again
    agree(mon, 'same_again', spec, sc, a, sim.observe(order=spec['qorder']))
    # a system in which only one of the readouts exists
    ro = spec['obs'][spec['only']][0]
    one = dict(spec, ros=[r for r in spec['ros'] if r[0] == ro or r[1].startswith('electronics') or r[1].startswith('mechanical')],
               obs=[o for o in spec['obs'] if o[0] == ro])
    used = json.dumps(one['ros'])
    c = netlist.build(one).observe()
    agree(mon, 'same_alone', one, [dict((k, s[k]) for k in nets.observations(one)) for s in sc], dict((k, a[k]) for k in c if k in a), c)


def gen_beside(rng):
    return nets.gen_any(rng, small=True)


def double(spec):
    """the system and a second, unconnected copy of it (shared frequencies)"""
    shared = [n for n, _ in spec.get('freqs', [])]
    mine = [n for n, _, _ in spec['els']] + [n for n, _, _ in spec['ros']]

    def ren(v):
        if isinstance(v, dict):
            if '$p' in v:
                h, _, r = v['$p'].partition('.')
                return {'$p': (h + '_two.' + r if h in mine else v['$p'])} if r else {'$p': h + '_two' if h in mine else h}
            return dict((k, ren(x)) for k, x in v.items())
        if isinstance(v, list):
            return [ren(x) for x in v]
        return v

    def rb(p):
        h, _, r = p.partition('.')
        return h + '_two.' + r
    out = dict(spec)
    out['els'] = spec['els'] + [[n + '_two', c, ren(k)] for n, c, k in spec['els']]
    out['bonds'] = spec['bonds'] + [[rb(a), rb(b)] for a, b in spec['bonds']]
    out['ros'] = spec['ros'] + [[n + '_two', c, ren(k)] for n, c, k in spec['ros']]
    out['obs'] = spec['obs'] + [[n + '_two', a] for n, a in spec['obs']]
    return out


def run_beside(spec, mon):
    sc = scales(spec)
    a = netlist.build(spec).observe()
    b = netlist.build(double(spec)).observe()
    agree(mon, 'same_beside', spec, sc, a, b)
    two = dict()
    for k, v in b.items():
        h, _, r = k.partition('.')
        if h.endswith('_two'):
            two[h[:-4] + '.' + r] = v
    agree(mon, 'same_beside', spec, sc, a, two)


FAMILIES = {
    'order': Family(gen_order, run_order, quick=160, thorough=2000, timeout=40),
    'restate': Family(gen_restate, run_restate, quick=60, thorough=800, timeout=40),
    'chain': Family(gen_chain, run_chain, quick=100, thorough=1200, timeout=40),
    'depth': Family(gen_depth, run_depth, quick=100, thorough=1200, timeout=40),
    'solver': Family(gen_solver, run_solver, quick=90, thorough=1200, timeout=40),
    'hash': Family(gen_hash, run_hash, quick=12, thorough=150, timeout=100),
    'query': Family(gen_query, run_query, quick=70, thorough=900, timeout=40),
    'beside': Family(gen_beside, run_beside, quick=48, thorough=600, timeout=40),
}
