"""Thin access layer to pyrtlib's public API."""
import warnings

import numpy as np


def select(h2o=None, o2=None, n2=None, o3=None, liq=None):
    """Select absorption models through the documented interface (class attribute + set_ll)."""
    from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel, LiqAbsModel
    if h2o:
        H2OAbsModel.model = h2o
        H2OAbsModel.set_ll()
    if o2:
        O2AbsModel.model = o2
        O2AbsModel.set_ll()
    if n2:
        N2AbsModel.model = n2
    if liq:
        LiqAbsModel.model = liq
    if o3 == '':
        O3AbsModel.model = ''
    elif o3:
        O3AbsModel.model = o3
        O3AbsModel.set_ll()


def rte(prof, frq, models, angles=(90.0,), sat=True, o3n=None, ray=False, cloudy=False, liq=None, emissivity=None,
        amu=None):
    """A simulation object on private copies of the inputs."""
    from pyrtlib.tb_spectrum import TbCloudRTE
    from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, LiqAbsModel
    z, p, t, rh = (np.array(prof[k], dtype=float) for k in ('z', 'p', 't', 'rh'))
    kw = {}
    if amu is not None:
        kw['amu'] = amu
    r = TbCloudRTE(z, p, t, rh, np.array(frq, dtype=float), np.array(angles, dtype=float),
                   o3n=None if o3n is None else np.array(o3n, dtype=float), ray_tracing=ray, cloudy=cloudy, **kw)
    r.satellite = bool(sat)
    r.init_absmdl(models['h2o'])
    H2OAbsModel.model = models['h2o']
    O2AbsModel.model = models['o2']
    N2AbsModel.model = models['n2']
    LiqAbsModel.model = liq or 'R20'
    if models.get('o3'):
        select(o3=models['o3'])
    if emissivity is not None:
        r.emissivity = emissivity
    return r


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def set_mode(sat, emissivity=1.0):
    """Viewing mode and emissivity used by the radiative transfer functions."""
    from pyrtlib.rt_equation import RTEquation
    if hasattr(RTEquation, '_from_sat') and hasattr(RTEquation, '_emissivity'):
        RTEquation._from_sat = bool(sat)
        RTEquation._emissivity = float(emissivity)
        return
    prof = {'z': [0.0, 1.0], 'p': [1000.0, 900.0], 't': [290.0, 285.0], 'rh': [0.5, 0.5]}
    rte(prof, [22.0], {'h2o': 'R19', 'o2': 'R19', 'n2': 'R19'}, sat=sat, emissivity=float(emissivity)).execute()
