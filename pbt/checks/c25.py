"""C25 a perturbation changes exactly the requested parameters."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import gen
from ..ref import absorb

C = Check('C25', rule='A case is a parameter set (generated mixtures of gases and models, own uncertainties, or fully generated '
          'values: floats, integers, arrays) and a history of 1-8 calls: perturb (names, mode, index), store another set, '
          'request a fresh set, edit a returned set, refused calls. Non-trivial: at least one perturbation with a '
          'non-zero uncertainty is checked after another call.',
          assumptions=['a parameter whose value or uncertainty is a scalar float is perturbed as a whole, whatever the index',
                       'array parameters with array uncertainties are perturbed at the index, or entirely without one'])

# continuum factors of R16 and R17 (Turner et al. 2009), value and one-sigma uncertainty
FACTORS = {'con_Cf_factr': (1.11, (0.098 ** 2 + 0.03 ** 2) ** 0.5), 'con_Cs_factr': (0.79, (0.17 ** 2 + 0.06 ** 2) ** 0.5)}
MODES = ['max', 'min', 'non', 'max', 'min']


@st.composite
def sets(draw):
    """description of a parameter set; uncertainties as relative sizes"""
    if draw(st.booleans()):
        return {'kind': 'model', 'h2o': draw(st.one_of(st.none(), st.sampled_from(absorb.H2O_MODELS))),
                'o2': draw(st.sampled_from(absorb.O2_MODELS)),
                'o3': draw(st.one_of(st.none(), st.none(), st.sampled_from(absorb.O3_MODELS))),
                'rel': draw(gen.logfl(1e-3, 0.3, 3)), 'seed': draw(st.integers(0, 999))}
    out = []
    for i in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['float', 'int', 'array', 'array', 'array1']))
        if kind in ('float', 'int'):
            v = draw(gen.fl(-5.0, 5.0, 4)) if kind == 'float' else draw(st.integers(-5, 5))
            u = draw(gen.fl(0.0, 2.0, 4))
        else:
            n = draw(st.integers(2, 6))
            v = draw(st.lists(gen.fl(-5.0, 5.0, 4), min_size=n, max_size=n))
            u = draw(st.lists(gen.fl(0.0, 2.0, 4), min_size=n, max_size=n)) if kind == 'array' else draw(gen.fl(0.0, 2.0, 4))
        out.append(['q%d' % i, v, u])
    return {'kind': 'own', 'pars': out}


CALL = st.fixed_dictionaries({'op': st.just('perturb'), 'mode': st.sampled_from(MODES),
                              'pick': st.lists(st.integers(0, 60), min_size=0, max_size=4, unique=True),
                              'index': st.one_of(st.none(), st.integers(0, 45), st.integers(-3, 3))})
OTHER = st.one_of(st.fixed_dictionaries({'op': st.just('store'), 'set': sets()}),
                  st.fixed_dictionaries({'op': st.just('edit')}),
                  st.fixed_dictionaries({'op': st.just('fresh'), 'm': st.sampled_from(absorb.O2_MODELS)}),
                  st.fixed_dictionaries({'op': st.just('refuse'), 'mode': st.sampled_from(
                      ['ran', 'MAX', 'Max', '', 'mean', 'none', 'minimum', 'maxmin'])}))


def build(d):
    from pyrtlib.uncertainty import SpectroscopicParameter as S
    if d['kind'] == 'own':
        return {n: S(value=np.array(v, dtype=float) if isinstance(v, list) else v,
                     uncer=np.array(u, dtype=float) if isinstance(u, list) else float(u)) for n, v, u in d['pars']}
    sp = {}
    if d['h2o']:
        sp.update(S.water_parameters(d['h2o']))
    sp.update(S.oxygen_parameters(d['o2']))
    if d['o3']:
        sp.update(S.ozono_parameters(d['o3']))
    rng = np.random.default_rng(d['seed'])
    for k, v in sp.items():
        if np.ndim(v.uncer):
            v.uncer = np.abs(np.array(v.value, dtype=float)) * d['rel'] * rng.uniform(0.5, 1.5, np.shape(v.value))
        else:
            v.uncer = float(np.mean(np.abs(v.value))) * d['rel'] * float(rng.uniform(0.5, 1.5))
    return sp


def plain(sp):
    return {k: (np.array(v.value, dtype=float).copy(), np.array(v.uncer, dtype=float).copy(), v.units, v.refer, v.name)
            for k, v in sp.items()}


def same(a, b, what):
    require(list(sorted(a)) == list(sorted(b)), '%s: parameters %s', what, sorted(set(a) ^ set(b)))
    for k in a:
        for i, nm in ((0, 'value'), (1, 'uncertainty')):
            require(a[k][i].shape == b[k][i].shape and np.array_equal(a[k][i], b[k][i], equal_nan=True),
                    '%s: %s of %s is %s, expected %s', what, nm, k, a[k][i], b[k][i])
        require(a[k][2:] == b[k][2:], '%s: description of %s changed', what, k)


def expected(model, names, mode, index):
    out = dict(model)
    if mode == 'non':
        return out
    sgn = 1.0 if mode == 'max' else -1.0
    for k in (names or list(model)):
        v, u, *rest = model[k]
        if v.ndim == 0 or u.ndim == 0 or index is None:
            nv = v + sgn * u
        else:
            nv = v.copy()
            nv[index] = v[index] + sgn * u[index]
        out[k] = (nv, u, *rest)
    return out


@C.sub('history', st.fixed_dictionaries({'set': sets(), 'calls': st.lists(st.one_of(CALL, CALL, CALL, OTHER), min_size=1,
                                                                          max_size=8)}), quick=2400, thorough=40000)
def history(c, ctx):
    from pyrtlib.uncertainty import SpectroscopicParameter as S, AbsModUncertainty as A
    stored = build(c['set'])
    model = plain(stored)
    S.set_parameters(stored)
    returned = []
    done = 0
    for i, call in enumerate(c['calls']):
        op = call['op']
        where = 'step %d %s' % (i, call if op != 'store' else op)
        if op == 'perturb':
            keys = sorted(model)
            names = [keys[k % len(keys)] for k in call['pick']]
            names = list(dict.fromkeys(names))
            idx = call['index']
            arrays = [k for k in (names or keys) if model[k][0].ndim and model[k][1].ndim]
            if idx is not None and arrays:
                n = min(len(model[k][0]) for k in arrays)
                idx = idx % n if idx >= 0 else -(1 + (-idx) % n)
            asked = list(names)
            got = A.parameters_perturbation(names, call['mode'], idx) if i % 2 else \
                A.parameters_perturbation(what=names, mode=call['mode'], index=idx)
            require(names == asked, 'the list of names was changed to %s', names)
            want = expected(model, names, call['mode'], idx)
            same(plain(got), want, where + ' (index %s)' % idx)
            for k in got:
                require(got[k] is not stored[k] and not (np.ndim(got[k].value) and np.shares_memory(
                    got[k].value, stored[k].value)), '%s: %s shares its values with the stored set', where, k)
            returned.append((got, plain(got)))
            if done and call['mode'] != 'non' and any(np.any(model[k][1] != 0) for k in (names or keys)):
                ctx.nontrivial(True)
            ctx.label(call['mode'], 'all' if not names else 'some', 'index' if idx is not None else 'whole')
        elif op == 'store':
            stored = build(call['set'])
            model = plain(stored)
            S.set_parameters(stored)
        elif op == 'edit' and returned:
            d, _ = returned.pop()
            for k in d:
                if np.ndim(d[k].value):
                    d[k].value[...] = 7.0
                    if np.ndim(d[k].uncer):
                        d[k].uncer[...] = 3.0
                else:
                    d[k].value = 7.0
        elif op == 'fresh':
            S.oxygen_parameters(call['m'])
        elif op == 'refuse':
            with expect_raises(ValueError, NotImplementedError, what='mode %r' % call['mode']):
                A.parameters_perturbation([sorted(model)[0]], call['mode'])
        same(plain(stored), model, 'stored set after ' + where)
        same(plain(S.SP), model, 'stored set after ' + where)
        for d, w in returned:
            same(plain(d), w, 'earlier result after ' + where)
        done += 1
    ctx.label(c['set']['kind'])


@C.sub('fresh_sets', st.fixed_dictionaries({'o2': st.sampled_from(absorb.O2_MODELS), 'h2o': st.sampled_from(absorb.H2O_MODELS),
                                            'o3': st.sampled_from(absorb.O3_MODELS), 'before': st.sampled_from(absorb.O2_MODELS),
                                            'beforeh': st.sampled_from(absorb.H2O_MODELS)}), quick=400, thorough=4000)
def fresh_sets(c, ctx):
    """the requested set holds the model's own coefficients, whatever was requested before, every parameter on its own"""
    from pyrtlib.uncertainty import SpectroscopicParameter as S
    from .c24 import MAPS, lines
    S.oxygen_parameters(c['before'])
    S.water_parameters(c['beforeh'])
    for g, fn, m in (('h2o', S.water_parameters, c['h2o']), ('o2', S.oxygen_parameters, c['o2']),
                     ('o3', S.ozono_parameters, c['o3'])):
        sp = fn(m)
        L = lines(g, m)
        for nm, key in MAPS[g].items():
            if nm not in sp:
                require(key not in L, 'the %s set of %s has no parameter %s', g, m, nm)
                continue
            require(key in L, 'the %s set of %s has a parameter %s the model does not have', g, m, nm)
            want = np.array(L[key], dtype=float)
            if nm in ('gamma_a', 'gamma_w', 'delta_a', 'delta_w'):
                want = want * 1e3
            close(np.array(sp[nm].value, dtype=float), want, rtol=1e-12, what='%s of %s %s' % (nm, g, m))
        for nm, v in sp.items():
            u = np.array(v.uncer, dtype=float)
            require(u.ndim == 0 or u.shape == np.shape(v.value), '%s of %s %s: %s uncertainties for %s values', nm, g, m,
                    u.shape, np.shape(v.value))
            if nm in FACTORS and m in ('R98', 'R03', 'MWL24'):      # their continuum uses no such factors
                continue
            fac = FACTORS.get(nm) if m in ('R16', 'R17') else (1.0, 0.0) if nm in FACTORS else None
            if fac:
                close(float(v.value), fac[0], rtol=1e-9, what='%s of %s' % (nm, m))
                close(float(u), fac[1], rtol=1e-9, what='uncertainty of %s of %s' % (nm, m))
            else:
                require(np.all(u == 0), 'a fresh set states an uncertainty %s for %s of %s %s', u, nm, g, m)
        vals = [(k, v.value) for k, v in sp.items() if isinstance(v.value, np.ndarray)]
        for i in range(len(vals)):
            for j in range(i):
                require(not np.shares_memory(vals[i][1], vals[j][1]), 'parameters %s and %s share their values', vals[i][0],
                        vals[j][0])
    ctx.nontrivial(True)
