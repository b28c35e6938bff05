"""P05: light is neither created nor destroyed by passive optics."""
from vlib import nets, netlist, optnet, optcheck
from vlib.harness import Family, Skip
import numpy as np

PROPERTY = 'P05'
RULE = ('seeded random layouts of mirrors, beamsplitters (any AOI, backscatter), polarisation and harmonic '
        'optics, circulators, spaces and PDs, one or two lasers per colour/polarisation; every open port carries a '
        'power meter, a meter also watches the light returning to each laser. lossless: sum of the readings '
        'equals the launched power; lossy: never more, and the balance closes when the losses are opened up '
        'into meters; modulated: phase modulation moves power between sidebands, amplitude of each meter stays '
        'non-negative. Non-trivial: at least one balance was formed.')
ASSUMPTIONS = ['layouts whose coupling matrix has condition (1-norm) above 1e6 are out of domain']
REQUIRED = {'mon:balance': 100, 'mon:passive': 50, 'mon:nonneg': 200}


def with_meters(spec):
    """a transparent meter in front of every laser, reading the light that comes back"""
    bonds = []
    for a, b in spec['bonds']:
        for x, y in ((a, b), (b, a)):
            n = x.split('.')[0]
            if n.startswith('L') and x.endswith('.po_Fr'):
                nm = 'mt' + n
                spec['els'].append([nm, 'optics.MagicPD', {}])
                spec['ros'].append(['r' + nm, 'readouts.DCReadout', dict(port={'$p': nm + '.Wpd.o'})])
                spec['obs'].append(['r' + nm, 'DC_readout'])
                if y.split('.')[0].startswith('L'):
                    return None
                bonds.append([x, nm + '.po_Bk'])
                bonds.append([nm + '.po_Fr', y])
                break
        else:
            bonds.append([a, b])
    spec['bonds'] = bonds
    return spec


def gen(rng, lossless, **kw):
    kw = dict(dict(noise=False, ac=False, rp=False, rf=False, lossless=lossless, all_pd=True, selectors=False,
              backscatter=rng.chance(.4), max_el=rng.choice([4, 7, 10])), **kw)
    while True:
        spec = with_meters(optnet.gen(rng, **kw))
        if spec is None or not kw.get('sweep') or rng.chance(.3):
            return spec
        # further parameters swept, some of which vanish at a point of the sweep
        spec = nets.widen(dict(spec, domain='optics'), rng, kmax=6,
                          # (the phases of reflection and backscatter depend on one another in a lossless mirror)
                          skip=('phase_rad', 'phase_deg', 'backscatter_phase_rad') if kw['backscatter'] else ())
        if nets.ok(spec):
            return spec


def gen_lossless(rng):
    spec = gen(rng, True, sweep=rng.chance(.25))
    return spec


def total(spec, got):
    tot = 0
    for k, v in got.items():
        if k.startswith('r'):
            tot = tot + v
        elif k.startswith('dc'):
            ro = dict((n, kk) for n, c, kk in spec['ros'])[k.split('.')[0]]
            if ro['port']['$p'].startswith('pd'):
                tot = tot + v
    return tot


def launched(spec):
    return sum(netlist.num(k['power_W']) for n, c, k in spec['els'] if c == 'optics.Laser')


def coherent(spec):
    """do two lasers share colour and polarisation at generation?  Their powers still add: the
    network is unitary and they enter through different ports."""
    return False


def common(spec, mon):
    for s in optcheck.pointwise(spec):
        optcheck.ref_model(s, ac=False)
    sim = netlist.build(spec)
    got = sim.observe()
    P = launched(spec)
    mon.event('simulations')
    mon.event('elements', len(spec['els']))
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    for k, v in got.items():
        if k.split('.')[0].startswith(('dc', 'r')):
            mon.check('real', np.all(abs(np.imag(v)) <= 1e-9 * np.max(P)), k)
            mon.check('nonneg', np.all(np.real(v) >= -1e-9 * np.max(P)), lambda: '{0} {1}'.format(k, v))
    return got, P


def run_lossless(spec, mon):
    got, P = common(spec, mon)
    mon.close('balance', total(spec, got), P, rtol=1e-7, scale=P)


def gen_lossy(rng):
    return gen(rng, False, backscatter=False, sweep=rng.chance(.25))


def run_lossy(spec, mon):
    got, P = common(spec, mon)
    tot = np.real(total(spec, got))
    mon.check('passive', np.all(tot <= P * (1 + 1e-7)), lambda: '{0} > {1}'.format(tot, P))
    lossy = any(k.get('L_hr') or k.get('L_t') or any(isinstance(v, dict) and (v.get('L_hr') or v.get('L_t')) for v in k.values())
                for n, c, k in spec['els'])
    if not lossy:
        mon.close('balance', tot, P, rtol=1e-7, scale=P)


def gen_rf(rng):
    spec = gen(rng, True, rf=True)
    return spec


def run_rf(spec, mon):
    common(spec, mon)


FAMILIES = {
    'lossless': Family(gen_lossless, run_lossless, quick=300, thorough=4000, timeout=30),
    'lossy': Family(gen_lossy, run_lossy, quick=200, thorough=2500, timeout=30),
    'modulated': Family(gen_rf, run_rf, quick=60, thorough=800, timeout=30),
}
