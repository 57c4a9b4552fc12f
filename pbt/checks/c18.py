"""C18 gas masses, concentrations, unit conversions, constants."""
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import gen

C = Check('C18', rule='A case is a gas identifier (all of the documented ones), amounts as scalar or array, pressure and '
          'temperature. Non-trivial: a positive amount.',
          assumptions=['integer mass numbers of the main isotope (Br 80, I 127) and the proton mass 1.6726485e-27 kg',
                       'air mean molecular mass 28.9402753669'])

FORMULA = ['H2O', 'CO2', 'O3', 'N2O', 'CO', 'CH4', 'O2', 'NO', 'SO2', 'NO2', 'NH3', 'HNO3', 'OH', 'HF', 'HCl', 'HBr', 'HI',
           'ClO', 'OCS', 'H2CO', 'HOCl', 'N2', 'HCN', 'CH3Cl', 'H2O2', 'C2H2', 'C2H6', 'PH3', 'COF2', 'SF6', 'H2S', 'HCOOH']
A = {'H': 1, 'C': 12, 'N': 14, 'O': 16, 'F': 19, 'P': 31, 'S': 32, 'Cl': 35, 'Br': 80, 'I': 127}
MP = 1.6726485e-27
AIR = 28.9402753669
CONST = {'avogadro': 6.022140857e23, 'boltzmann': 1.380658e-23, 'EarthRadius': 6370.949, 'gravity': 9.80665,
         'light': 299792458.0, 'Np2dB': 4.342944819032518, 'planck': 6.6260755e-34, 'Rdry': 287.04, 'Rwatvap': 461.52,
         'Tcosmicbkg': 2.728, 'R': 8.31446261815324}
UNITS = {'avogadro': 'mol-1', 'boltzmann': 'J K-1', 'EarthRadius': 'km', 'gravity': 'm s-2', 'light': 'm s-1',
         'Np2dB': 'dB/Np', 'planck': 'J Hz-1', 'Rdry': 'J kg-1 K-1', 'Rwatvap': 'J kg-1 K-1', 'Tcosmicbkg': 'K',
         'R': 'J mol-1 K-1'}


def mass(i):
    return AIR if i == 99 else sum(A[s] * int(n or 1) for s, n in re.findall(r'([A-Z][a-z]?)(\d*)', FORMULA[i]))


AMOUNT = st.one_of(st.just(0.0), gen.logfl(1e-8, 1e6))


@C.sub('gases', st.fixed_dictionaries({
    'id': st.one_of(st.integers(0, 31), st.integers(0, 31), st.just(99)), 'x': st.lists(AMOUNT, min_size=1, max_size=6),
    'scalar': st.booleans(), 'k': gen.fl(0.01, 50.0), 'pre': st.integers(0, 31)}), quick=3000, thorough=40000)
def gases(c, ctx):
    from pyrtlib.utils import gas_mass, ppmv2gkg
    i = c['id']
    gas_mass(c['pre'])
    close(float(gas_mass(i)), mass(i) * MP, rtol=1e-12, what='mass of gas %d (%s)' % (i, 'air' if i == 99 else FORMULA[i]))
    f = (lambda x: np.array([float(ppmv2gkg(float(v), i)) for v in x])) if c['scalar'] else \
        (lambda x: np.asarray(ppmv2gkg(np.array(x), i)))
    x = np.array(c['x'])
    got = f(x)
    close(got, x * 1e-6 * mass(i) / AIR * 1e3, rtol=1e-12, what='ppmv2gkg of gas %d' % i)
    close(f(x * c['k']), got * c['k'], rtol=1e-12, what='linearity of ppmv2gkg')
    ctx.nontrivial(np.any(x > 0))
    ctx.label('gas %d' % i)


@C.sub('densities', st.fixed_dictionaries({
    'lev': st.lists(st.tuples(AMOUNT, gen.logfl(1.0, 1.1e5), gen.fl(150.0, 340.0), st.one_of(st.just(0.0), gen.fl(0.0, 0.05))),
                    min_size=1, max_size=8), 'scalar': st.booleans(), 'k': gen.fl(0.01, 50.0)}), quick=3000, thorough=60000)
def densities(c, ctx):
    from pyrtlib.utils import ppmv_to_moleculesm3, kgkg_to_kgm3
    x, p, t, q = (np.array(v, dtype=float) for v in zip(*c['lev']))
    if c['scalar']:
        f = lambda fn, *a: np.array([float(fn(*[float(v[i]) for v in a])) for i in range(len(x))])  # noqa
    else:
        f = lambda fn, *a: np.asarray(fn(*[v.copy() for v in a]))  # noqa
    n = f(ppmv_to_moleculesm3, x, p, t)
    close(n, x * 1e-6 * p / (8.31446261815324 * t) * 6.022140857e23, rtol=1e-12, what='ppmv_to_moleculesm3')
    close(f(ppmv_to_moleculesm3, x * c['k'], p, t), n * c['k'], rtol=1e-12, what='linearity in the mixing ratio')
    hp = p / 100.0
    d = f(kgkg_to_kgm3, q, hp, t)
    e = 0.621970585
    close(d, p / (287.04 * (1 + (1 - e) / e * q) * t), rtol=1e-12, what='kgkg_to_kgm3')
    dry = f(kgkg_to_kgm3, 0 * q, hp, t)
    require(np.all(d <= dry * (1 + 1e-15)) and np.all(d[q > 1e-9] < dry[q > 1e-9]), 'moist air is not lighter than dry air')
    ctx.nontrivial(np.any(x > 0) and np.any(q > 0))


@C.sub('constants', st.fixed_dictionaries({'name': st.one_of(
    st.sampled_from(sorted(CONST)), st.sampled_from(['Avogadro', 'rdry', 'Tcosmic', 'x', ' R', 'earthradius', 'RDRY']),
    st.text(alphabet='abRTdkrvy', min_size=1, max_size=6)), 'mut': st.booleans()}), quick=600, thorough=6000)
def constants_(c, ctx):
    from pyrtlib.utils import constants
    names = constants()
    require(set(names) >= set(CONST), 'listed constants %s', sorted(names))
    if c['name'] in CONST:
        v = constants(c['name'])
        close(float(v[0]), CONST[c['name']], rtol=1e-13, what='constant ' + c['name'])
        require(v[1].strip('[]') == UNITS[c['name']], 'unit of %s is %r', c['name'], v[1])
        if c['mut'] and isinstance(v, list):
            v[0] = -1.0
            names.clear()
        close(float(constants(c['name'])[0]), CONST[c['name']], rtol=1e-13, what='constant after a caller changed its copy')
        require(set(constants()) >= set(CONST), 'list of constants changed by a caller')
        ctx.nontrivial(True)
    elif c['name'] not in names:
        with expect_raises(ValueError, what='constant %r' % c['name']):
            constants(c['name'])
        ctx.nontrivial(True)


OFFSET = (273.15, 273.25)      # the second one is known finding C18-kelvin


@C.sub('temperature_scales', st.fixed_dictionaries({'t': st.lists(gen.fl(-150.0, 120.0, 3), min_size=1, max_size=6),
                                                    'scalar': st.booleans()}), quick=600, thorough=5000)
def temperature_scales(c, ctx):
    from pyrtlib.utils import to_kelvin, to_celsius
    t = c['t'][0] if c['scalar'] else np.array(c['t'])
    k = to_kelvin(t)
    off = np.asarray(k) - np.asarray(t)
    require(any(np.all(np.abs(off - o) < 1e-9) for o in OFFSET), 'Kelvin minus Celsius is %r', off)
    if np.all(np.abs(off - 273.25) < 1e-9):
        ctx.exclude()
    close(to_celsius(k), t, 1e-12, 1e-9, 'Celsius of Kelvin')
    close(to_kelvin(to_celsius(k)), k, 1e-12, 1e-9, 'Kelvin of Celsius')
    ctx.nontrivial()


@C.probe('C18-kelvin')
def kelvin():
    """zero degrees Celsius is 273.15 K"""
    from pyrtlib.utils import to_kelvin, to_celsius
    return abs(to_kelvin(0.0) - 273.15) > 1e-6 or abs(to_celsius(273.15)) > 1e-6
