"""C20 climatology tables."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Check, HERE, close, require
from .. import gen  # noqa

C = Check('C20', rule='A case is a history of 1-8 queries (climatology, single gas identifier, vector of identifiers, identifier of '
          'the wrong table), after some of which the caller overwrites what it got. Non-trivial: a query after an overwritten '
          'answer, or a vector of identifiers.',
          assumptions=['reference = own copy of the tabulated AFGL atmospheres (pbt/data/climatology.json), columns named here'])

with open(os.path.join(HERE, 'pbt', 'data', 'climatology.json')) as fh:
    TAB = {k: np.array(v) for k, v in json.load(fh).items()}
ATM = [('TROPICAL', 'tropical', 'Tropical'), ('MIDLATITUDE_SUMMER', 'midlatitude_summer', 'Midlatitude Summer'),
       ('MIDLATITUDE_WINTER', 'midlatitude_winter', 'Midlatitude Winter'),
       ('SUBARCTIC_SUMMER', 'subarctic_summer', 'Subarctic Summer'),
       ('SUBARCTIC_WINTER', 'subarctic_winter', 'Subarctic Winter'), ('US_STANDARD', 'us_standard', 'US Standard')]
MAIN = ['H2O', 'CO2', 'O3', 'N2O', 'CO', 'CH4', 'O2']
MINOR = ['NO', 'SO2', 'NO2', 'NH3', 'HNO3', 'OH', 'HF', 'HCL', 'HBR', 'HI', 'CLO', 'OCS', 'H2CO', 'HOCL', 'N2', 'HCN', 'CH3CL',
         'H2O2', 'C2H2', 'C2H6', 'PH3']
TRACE = ['COF2', 'SF6', 'H2S', 'CCL3F', 'CCL2F2', 'CCLF3', 'CF4', 'CHCl2F', 'CHCLF2', 'C2CL3F3', 'C2CL2F4', 'C2CLF5', 'CCL4',
         'CLONO2', 'N2O5', 'HNO4']


@st.composite
def query(draw):
    k = draw(st.sampled_from(['atm', 'atm', 'gas', 'gas', 'gases', 'wrong']))
    q = {'k': k, 'spoil': draw(st.booleans())}
    if k == 'atm':
        q['atm'] = draw(st.sampled_from([a[0] for a in ATM]))
    else:
        q['table'] = draw(st.sampled_from(['minor', 'trace']))
        names = MINOR if q['table'] == 'minor' else TRACE
        if k == 'gas':
            q['gas'] = draw(st.sampled_from(names))
        elif k == 'gases':
            q['gases'] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=5))
        else:
            q['gas'] = draw(st.sampled_from([n for n in MAIN + MINOR + TRACE + ['AIR'] if n not in names]))
    return q


@C.sub('tables', st.lists(query(), min_size=1, max_size=8), quick=1500, thorough=20000, shards=8)
def tables(qs, ctx):
    from pyrtlib.climatology import AtmosphericProfiles as A
    spoiled = False
    for q in qs:
        if q['k'] == 'atm':
            ref = TAB[dict((a[0], a[1]) for a in ATM)[q['atm']]]
            out = A.gl_atm(getattr(A, q['atm']))
            require(len(out) == 5, 'gl_atm returned %d items', len(out))
            a, p, d, t, md = out
            for name, got, col in (('height', a, 0), ('pressure', p, 1), ('density', d, 2), ('temperature', t, 3)):
                close(got, ref[:, col], rtol=1e-12, what='%s of %s' % (name, q['atm']))
            require(md.shape == (len(ref), 7), 'gas table of shape %s', md.shape)
            for i, g in enumerate(MAIN):
                close(md[:, getattr(A, g)], ref[:, 4 + i], rtol=1e-12, what='%s of %s' % (g, q['atm']))
            # physics of the returned atmosphere, whatever the table
            require(np.all(np.diff(a) > 0) and np.all(np.diff(p) < 0), 'height or pressure not monotonic')
            n = np.asarray(d) * 1e6 * 1.380649e-23 * np.asarray(t) / 100.0
            require(np.all(np.abs(n / p - 1) < 0.02), 'density inconsistent with pressure and temperature')
            low = np.asarray(a) < 24
            h = -29.2632e-3 * np.diff(np.log(p)) * 0.5 * (t[1:] + t[:-1]) / np.diff(a)
            require(np.all(np.abs(h[low[1:]] - 1) < 0.05), 'pressure not hydrostatic: %s', h)
            require(np.all(md >= 0) and np.all(md.sum(axis=1) < 1e6), 'gas concentrations out of range')
            arrays = [a, p, d, t, md]
            names = A.atm_profiles()
            require(names == {getattr(A, x[0]): x[2] for x in ATM}, 'profile names %s', names)
            if q['spoil']:
                names.clear()
        else:
            fn = A.gl_atm_minor if q['table'] == 'minor' else A.gl_atm_trace
            ref = TAB['gas_' + q['table']]
            names = MINOR if q['table'] == 'minor' else TRACE
            if q['k'] == 'wrong':
                try:
                    r = fn(getattr(A, q['gas']))
                except Exception:
                    ctx.label('refused')
                    continue
                require(False, '%s table returned %s for %s, which it does not hold', q['table'], np.asarray(r)[:2], q['gas'])
            if q['k'] == 'gas':
                got = fn(getattr(A, q['gas']))
                close(got, ref[:, names.index(q['gas'])], rtol=1e-12, what='concentration of ' + q['gas'])
            else:
                ids = np.array([getattr(A, g) for g in q['gases']])
                keep = ids.copy()
                got = fn(ids)
                close(got, ref[:, [names.index(g) for g in q['gases']]], rtol=1e-12, what='concentrations of %s' % q['gases'])
                require(np.array_equal(ids, keep), 'identifier array modified')
                ctx.nontrivial(True)
            arrays = [got]
        ctx.nontrivial(spoiled)
        ctx.label(q['k'])
        if q['spoil']:
            for x in arrays:
                try:
                    x[...] = -5.0
                except ValueError:          # a read-only answer is fine too
                    pass
            spoiled = True


@C.sub('identifiers', st.sampled_from(MAIN + MINOR + TRACE), quick=100, thorough=300, shards=1)
def identifiers(g, ctx):
    from pyrtlib.climatology import AtmosphericProfiles as A
    allg = MAIN + MINOR + TRACE
    require(getattr(A, g) == allg.index(g), 'identifier of %s is %r', g, getattr(A, g))
    require(A.AIR == 99, 'identifier of air is %r', A.AIR)
    ctx.nontrivial(True)
