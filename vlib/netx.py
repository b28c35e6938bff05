"""Small constructors a netlist can name besides the simulator's own classes."""


def PolarizingMirror(AOI_deg=0, mirror_S=None, mirror_P=None):
    from phasor import optics
    return optics.PolarizingMirror(AOI_deg=AOI_deg, mirror_S=optics.Mirror(**mirror_S), mirror_P=optics.Mirror(**mirror_P))


def HarmonicMirror(AOI_deg=0, mirror_H1=None, mirror_H2=None):
    from phasor import optics
    return optics.HarmonicMirror(AOI_deg=AOI_deg, mirror_H1=optics.Mirror(**mirror_H1), mirror_H2=optics.Mirror(**mirror_H2))


def OpAmp(gain=1., pole_Hz=None):
    from phasor import electronics

    class NetOpAmp(electronics.OpAmp):
        def gain_by_freq(self, F):
            if pole_Hz is None:
                return gain
            return gain / (1 + 1j * F / pole_Hz)
    return NetOpAmp()


def NoisyOpAmp(gain=1., pole_Hz=None, vn=0., inn=0.):
    from phasor import electronics

    class NetOpAmp(electronics.ImperfectOpAmp):
        def gain_by_freq(self, F):
            if pole_Hz is None:
                return gain
            return gain / (1 + 1j * F / pole_Hz)

        def V_spectrum_one_sided(self, F):
            return vn

        def I_spectrum_one_sided(self, F):
            return inn
    return NetOpAmp()


def NoisyInAmp(gain=1., pole_Hz=None, vn=0., inn=0., vout=0.):
    from phasor import electronics

    class NetInAmp(electronics.ImperfectInAmp):
        def gain_by_freq(self, F):
            if pole_Hz is None:
                return gain
            return gain / (1 + 1j * F / pole_Hz)

        def V_spectrum_one_sided(self, F):
            return vn

        def I_spectrum_one_sided(self, F):
            return inn

        def Vout_spectrum_one_sided(self, F):
            return vout
    return NetInAmp()


def VAmp(gain=1., pole_Hz=None, Y_in=0., Z_out=0.):
    from phasor import electronics

    class NetVAmp(electronics.VAmp):
        Y_input = Y_in
        Z_output = Z_out

        def gain_by_freq(self, F):
            if pole_Hz is None:
                return gain
            return gain / (1 + 1j * F / pole_Hz)
    return NetVAmp()


def Transformer(L1, L2, R1=0., R2=0., k=1.):
    from phasor import electronics

    class NetTransformer(electronics.Transformer):
        def transformer_k_by_freq(self, F):
            return k
    return NetTransformer(L1_inductance_Henries=L1, L2_inductance_Henries=L2, L1_resistance_Ohms=R1, L2_resistance_Ohms=R2)


def _transfer(kind):
    """plain functions of frequency, given as data"""
    t = kind['t']
    if t == 'pole':
        return lambda F: kind['g'] / (1 + 1j * F / kind['f'])
    if t == 'delay':
        import numpy as np
        return lambda F: kind['g'] * np.exp(-2j * np.pi * F * kind['T'])
    if t == 'diff':
        return lambda F: kind['g'] * (1 + 1j * F / kind['f'])
    return lambda F: kind['g'] + 0 * F


def FilterSISO(kind, **kw):
    from phasor import signals
    return signals.TransferFunctionSISO(filter_func=_transfer(kind), **kw)


def FilterMIMO(pairs, **kw):
    from phasor import signals
    return signals.TransferFunctionMIMO(port_pair_xfers=dict(((a, b), _transfer(k)) for a, b, k in pairs), **kw)


def AmpMatrix(pairs):
    from phasor import signals
    return signals.MatrixAmplifier(port_pair_gains=dict(((a, b), complex(*g)) for a, b, g in pairs))


def StateSpace(names_in, names_out, A, B, C, D, **kw):
    import numpy as np
    from phasor import signals
    A, B, C, D = [np.array(M, dtype=float).reshape(n, m) for M, n, m in (
        (A, len(A), len(A)), (B, len(A), len(names_in)), (C, len(names_out), len(A)), (D, len(names_out), len(names_in)))]
    return signals.StateSpaceModel(names_in=list(names_in), names_out=list(names_out), A=A, B=B, C=C, D=D, **kw)


def PSDNoise(port, level, corner, sided='one-sided'):
    from phasor import signals
    return signals.PSDFunctionNoise(port=port, sided=sided, PSD_function=lambda F: level / (1 + (F / corner)**2))


def Generator(F, amplitude=1., multiple=1, harmonic_gains=None, **kw):
    from phasor import signals
    if harmonic_gains:
        kw['harmonic_gains'] = dict((int(h), complex(*g)) for h, g in harmonic_gains['$int'])
    return signals.SignalGenerator(F=F, amplitude=amplitude, multiple=multiple, **kw)


def _smatrix(base, kw):
    d = {}
    for n, (g, p) in kw.items():
        d[n.upper() + '_by_freq'] = (lambda g, p: lambda self, F: g if p is None else g / (1 + 1j * F / p))(g, p)
    return type(str('Net' + base.__name__), (base,), d)()


def OnePort(**kw):
    from phasor.electronics import smatrix
    return _smatrix(smatrix.SMatrix1PortBase, kw)


def TwoPort(**kw):
    from phasor.electronics import smatrix
    return _smatrix(smatrix.SMatrix2PortBase, kw)


def MOnePort(**kw):
    from phasor.mechanical import smatrix
    return _smatrix(smatrix.SMatrix1PortBase, kw)


def MTwoPort(**kw):
    from phasor.mechanical import smatrix
    return _smatrix(smatrix.SMatrix2PortBase, kw)


def PZT(**kw):
    from phasor.transducers import PZT
    return PZT.PZTMountedGrounded(**kw)
