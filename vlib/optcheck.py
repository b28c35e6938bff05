"""Comparison of the real optics simulator with the dense model of optnet, shared by the
optics properties."""
import numpy as np

from . import netlist
from . import optnet
from .harness import Skip


def model(spec, ac=True):
    m = optnet.Model(spec)
    if not np.isfinite(m.cond) or m.cond > 1e6:
        raise Skip('resonance too sharp')
    if ac:
        try:
            m.build_ac()
            m.inv()
        except np.linalg.LinAlgError:
            raise Skip('singular')
        if not m.condac < 1e9:
            raise Skip('opto-mechanically singular')
    return m


def ref_model(spec, ac=True):
    try:
        return model(spec, ac)
    except np.linalg.LinAlgError:
        raise Skip('singular')


def compare(spec, mon, got, m, kinds):
    ros = dict((n, (c, k)) for n, c, k in spec['ros'])
    for key, g in got.items():
        ro, attr = key.split('.', 1)
        c, k = ros[ro]
        if attr == 'DC_readout':
            p = k['port']['$p']
            if p.endswith('Z.F.i'):
                if 'force' in kinds:
                    tot = max(1., m.total_power())
                    mon.close('mirror_force', g, m.dc_force(p.split('.')[0]), rtol=0, atol=tot * m.cond * 1e-6 * 10 / 3e8, key=key)
            elif 'dc' in kinds:
                w = m.power(m.pd_port(p)).real
                mon.close('dc_power', g, w, rtol=1e-6, scale=max(1, abs(w)), key=key)
        elif attr == 'AC_sensitivity':
            if 'ac' in kinds:
                w = m.response(k['portD']['$p'], k['portN']['$p'])
                mon.close('ac_response', g, w, rtol=1e-6, scale=m.mag, key=key,
                          detail=lambda: '{0}->{1}'.format(k['portD']['$p'], k['portN']['$p']))
                if abs(w) > 1e-3 * m.mag:
                    mon.event('ac responses well above tolerance')
        elif 'CSD' in attr:
            if 'csd' in kinds:
                a, b = attr[attr.index('[') + 1:-1].split(',')
                pm = k.get('port_map', {'R': k.get('portN')})
                w = m.csd(pm[a]['$p'], pm[b]['$p'])
                mon.close('csd' if a == b else 'cross_csd', g, w, rtol=1e-6, scale=m.sc, key=key)
                if a != b and abs(w.imag) > 1e-3 * m.sc:
                    mon.check('complex_cross', abs(np.imag(g) - w.imag) < 1e-6 * m.sc, '%s: %s where %s is due' % (key, g, w))


def pointwise(spec):
    """scalar versions of a swept netlist"""
    n = spec.get('nsweep', 0)
    if not n:
        return [spec]
    return [netlist.substitute(spec, i) for i in range(n)]


def at(got, i):
    return dict((k, np.asarray(v)[i] if np.ndim(v) else v) for k, v in got.items())


def run_against_model(spec, mon, kinds, ac=True):
    models = [ref_model(s, ac) for s in pointwise(spec)]
    sim = netlist.build(spec)
    got = sim.observe()
    mon.event('simulations')
    mon.event('elements', len(spec['els']))
    for n, c, k in spec['els']:
        mon.event('el ' + c)
    for i, m in enumerate(models):
        compare(spec, mon, at(got, i) if spec.get('nsweep') else got, m, kinds)
    return got, models
