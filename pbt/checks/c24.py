"""C24 spectroscopic perturbations act as if the line list had those values."""
import copy

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite, Violation
from .. import gen, lib
from ..ref import absorb, rte

C = Check('C24', rule='absorption: a model, 1-3 perturbed parameters (whole or at one index, relative size up to 30%, line '
          'frequencies by up to 20 MHz), 1-6 points near the perturbed lines. simulation: a profile of 2-6 levels, models '
          'per gas, channels, mode, optional ozone, the same perturbations given to the constructor or to set_amu, between '
          'two runs without parameters. Non-trivial: the reference changes by more than 1e-6 relative because of the '
          'perturbation.',
          assumptions=['parameters without a counterpart in a model (X11, X16, O2_nS, wv_nS; continuum factors of models '
                       'newer than R17) have no reference effect and are not perturbed',
                       'continuum factors of the unperturbed R16/R17 sets (Turner 2009: 1.11 and 0.79) are set to one '
                       'where equality with the run without parameters is asked for',
                       'oxygen lines 35 and later take width and mixing from the *_NL entries'])

H2O = {'con_Cf': 'cf', 'con_Cs': 'cs', 'con_Xf': 'xcf', 'con_Xs': 'xcs', 'FL': 'fl', 'S': 's1', 'B2': 'b2', 'gamma_a': 'w0',
       'gamma_w': 'w0s', 'n_a': 'x', 'n_w': 'xs', 'n_da': 'xh', 'n_dw': 'xhs', 'delta_a': 'sh', 'delta_w': 'shs', 'SR': 'sr'}
O2 = {'O2FL': 'f', 'O2S': 's300', 'O2BE': 'be', 'O2gamma': 'w300', 'O2gamma_NL': 'w300', 'Snr': 'snr', 'WB300': 'wb300',
      'X05': 'x', 'w2a': 'w2a', 'y0': 'y0', 'y1': 'y1', 'dnu0': 'dnu0', 'dnu1': 'dnu1', 'O2_V': 'v', 'O2_V_NL': 'v',
      'Y300': 'y300', 'Y300_NL': 'y300'}
O3 = {'O3_FL': 'fl', 'O3_S1': 's1', 'O3_B': 'b', 'O3_W': 'w', 'O3_X': 'x', 'O3_SR': 'sr'}
MAPS = {'h2o': H2O, 'o2': O2, 'o3': O3}
MODELS = {'h2o': absorb.H2O_MODELS, 'o2': absorb.O2_MODELS, 'o3': absorb.O3_MODELS}
FREQ = ('FL', 'O2FL', 'O3_FL')


def lines(species, model):
    L = dict({'h2o': absorb.h2o_lines, 'o2': absorb.o2_lines, 'o3': absorb.o3_lines}[species](model))
    if species == 'o2':
        L['w2a'] = 1.1 if model in ('R98', 'R03', 'R16') else 1.2
        L['snr'] = 1.6e-17 if model in ('R98', 'R03') else 1.584e-17
    return L


def names(species, model):
    L = lines(species, model)
    out = [k for k, v in MAPS[species].items() if v in L and not (species == 'o3' and v == 'sr')]
    if species == 'h2o' and model in ('R16', 'R17'):
        out += ['con_Cf_factr', 'con_Cs_factr']
    return sorted(out)


@st.composite
def perturbations(draw, species, model, lo=1):
    L = lines(species, model)
    n = len(L['f'] if species == 'o2' else L['fl'])
    out = []
    for _ in range(draw(st.integers(lo, 3))):
        nm = draw(st.sampled_from(names(species, model)))
        key = MAPS[species].get(nm)
        rel = draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-3, 0.3, 3))
        if key is None or np.ndim(L[key]) == 0:
            out.append([nm, None, rel])
            continue
        first = 0
        last = n - 1
        if nm.endswith('_NL'):
            first = min(34, n - 1)
        elif nm in ('O2gamma', 'Y300', 'O2_V'):
            last = 33
        idx = draw(st.one_of(st.none(), st.integers(first, last), st.integers(first, min(last, first + 3))))
        out.append([nm, idx, rel if nm not in FREQ else rel / 15.0])
    return out


def new_value(nm, old, rel):
    return old + rel if nm in FREQ else old * (1.0 + rel)


def perturb(params, perts):
    """the caller's own parameter set (plain edits of a deep copy)"""
    sp = copy.deepcopy(params)
    for nm, idx, rel in perts:
        v = sp[nm].value
        if idx is None:
            sp[nm].value = new_value(nm, np.array(v, dtype=float) if np.ndim(v) else float(v), rel)
        else:
            v = np.array(v, dtype=float)
            v[idx] = new_value(nm, v[idx], rel)
            sp[nm].value = v
    return sp


def modified(species, model, perts, factor=True):
    """line list with exactly the same values changed"""
    L = {k: (np.array(v, dtype=float) if np.ndim(v) else v) for k, v in lines(species, model).items()}
    fac = {'con_Cf_factr': 1.11, 'con_Cs_factr': 0.79}
    for nm, idx, rel in perts:
        if nm in fac:
            fac[nm] = new_value(nm, fac[nm], rel)
            continue
        k = MAPS[species][nm]
        if np.ndim(L[k]) == 0:
            L[k] = new_value(nm, L[k], rel)
        else:
            sel = np.zeros(len(L[k]), dtype=bool)
            if idx is None:
                sel[:] = True
                if nm.endswith('_NL'):
                    sel[:34] = False
                elif nm in ('O2gamma', 'Y300', 'O2_V'):
                    sel[34:] = False
            else:
                sel[idx] = True
            L[k] = np.where(sel, new_value(nm, L[k], rel), L[k])
    if species == 'h2o' and model in ('R16', 'R17') and factor:
        L['cf'] = L['cf'] * fac['con_Cf_factr']
        L['cs'] = L['cs'] * fac['con_Cs_factr']
    return L


def parameter_sets():
    from pyrtlib.uncertainty import SpectroscopicParameter as S
    return {'h2o': S.water_parameters, 'o2': S.oxygen_parameters, 'o3': S.ozono_parameters}


def snapshot(sp):
    return {k: (np.array(v.value, dtype=float).copy(), np.array(v.uncer, dtype=float).copy(), id(v)) for k, v in sp.items()}


def untouched(sp, snap):
    require(set(sp) == set(snap), 'parameters were added or removed: %s', sorted(set(sp) ^ set(snap)))
    for k, v in sp.items():
        a, u, i = snap[k]
        require(id(v) == i and np.array_equal(np.array(v.value, dtype=float), a, equal_nan=True) and
                np.array_equal(np.array(v.uncer, dtype=float), u, equal_nan=True),
                'the supplied parameter %s was modified', k)


def evaluate(species, p, t, e, f, o3n, amu=None):
    from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, O3AbsModel
    f = np.float64(f)
    if species == 'o3':
        return float(O3AbsModel().o3_absorption(np.float64(t), np.float64(p), f, np.float64(o3n), amu))
    a = (np.float64((p - e) / 10.0), np.float64(300.0 / t), np.float64(e / 10.0), f)
    g = H2OAbsModel().h2o_absorption(*a, amu) if species == 'h2o' else O2AbsModel().o2_absorption(*a, amu)
    return float(sum(np.asarray(x, dtype=float).reshape(-1)[0] for x in g)) * 0.182 * f * absorb.NP_PER_DB


def reference(species, model, p, t, e, f, o3n, L=None):
    """value, scale"""
    if species == 'h2o':
        a, b, s = absorb.h2o(model, p, t, e, f, ll=L)
        return a + b, s
    if species == 'o2':
        return absorb.o2(model, p, t, e, f, ll=L)
    v = absorb.o3(model, p, t, f, o3n, ll=L)
    return v, v


def tol(species, L, p, f):
    c = L['f'] if species == 'o2' else L['fl']
    return 2e-9 + 256 * np.finfo(float).eps * f / (np.min(np.abs(c - f)) + (1e-4 * p if species != 'o3' else 1e-5))


@st.composite
def absorption_cases(draw):
    sp = draw(st.sampled_from(['h2o', 'h2o', 'o2', 'o2', 'o3']))
    m = draw(st.sampled_from(MODELS[sp]))
    perts = draw(perturbations(sp, m, lo=0))
    c = gen.line_centres(sp, m)
    pts = []
    for _ in range(draw(st.integers(1, 6))):
        s = draw(gen.state())
        near = [idx for nm, idx, _ in perts if idx is not None and 1 <= c[idx] <= 1000]
        if sp == 'o3' or (near and draw(st.integers(0, 3))):
            k = draw(st.sampled_from(near)) if near else draw(st.integers(0, len(c) - 1))
            f = c[k] + draw(st.sampled_from([-1.0, 1.0])) * draw(gen.logfl(1e-4, 0.9 if sp == 'o3' else 3.0))
            f = gen.rnd(float(min(1000.0, max(1.0, f))), 10)
        else:
            f = draw(gen.line_frequency(sp, m))
        pts.append([s['p'], s['t'], s['e'], f, draw(gen.logfl(1e15, 1e19, 4)) if sp == 'o3' else 0.0])
    return {'sp': sp, 'm': m, 'perts': perts, 'pts': pts}


@C.sub('absorption', absorption_cases(), quick=2400, thorough=40000)
def absorption(c, ctx):
    sp, m = c['sp'], c['m']
    base = parameter_sets()[sp](m)
    lib.select(**{sp: m})
    before = [evaluate(sp, *q) for q in c['pts']]
    params = perturb(base, c['perts'])
    snap, snap0 = snapshot(params), snapshot(base)
    L = modified(sp, m, c['perts'])
    for i, q in enumerate(c['pts']):
        got = evaluate(sp, *q, amu=params)
        want, scale = reference(sp, m, *q, L=L)
        plain, _ = reference(sp, m, *q)
        where = ' of %s %s with %s at %s' % (sp, m, c['perts'], q)
        require(isfinite(got), 'non-finite absorption' + where)
        close(got, want, rtol=tol(sp, L, q[0], q[3]), scale=scale, what='absorption' + where)
        again = evaluate(sp, *q)
        require(again == before[i], 'after a run with parameters the run without them gives %r instead of %r%s', again,
                before[i], where)
        ctx.nontrivial(abs(want - plain) > 1e-6 * abs(plain))
    untouched(params, snap)
    untouched(base, snap0)
    ctx.label(sp, sp + m, *['par ' + n for n, _, _ in c['perts']])
    if not c['perts']:
        ctx.label('unperturbed')


@st.composite
def simulation_cases(draw):
    pr = draw(gen.profile(2, 6, dzmax=6.0, dry_ok=False))
    m = {k: draw(st.sampled_from(MODELS[k])) for k in ('h2o', 'o2')}
    m['n2'] = draw(st.sampled_from(absorb.N2_MODELS))
    o3 = draw(st.sampled_from(['', 'R18', 'R22', 'R23']))
    perts = {k: draw(perturbations(k, m[k], lo=0)) for k in ('h2o', 'o2')}
    n = len(pr['z'])
    o3n = None
    if o3:
        perts['o3'] = draw(perturbations('o3', o3, lo=0))
        o3n = draw(st.lists(gen.logfl(1e16, 1e19, 4), min_size=n, max_size=n))
    fr = []
    for _ in range(draw(st.integers(1, 3))):
        s = draw(st.sampled_from(['h2o', 'o2'] + (['o3'] if o3 else [])))
        idx = [i for _, i, _ in perts[s] if i is not None]
        c = gen.line_centres(s, o3 if s == 'o3' else m[s])
        f = c[draw(st.sampled_from(idx))] if idx else c[draw(st.integers(0, len(c) - 1))]
        f = f + draw(st.sampled_from([-1.0, 1.0])) * draw(gen.logfl(1e-2, 3.0 if s != 'o3' else 0.5))
        fr.append(gen.rnd(float(min(1000.0, max(5.0, f))), 9))
    return {'prof': pr, 'm': m, 'o3': o3, 'o3n': o3n, 'perts': perts, 'f': fr, 'sat': draw(st.booleans()),
            'how': draw(st.sampled_from(['constructor', 'set_amu'])), 'same': draw(st.booleans()),
            'built': draw(st.sampled_from(['first', 'last']))}


def run_values(df):
    return np.array(df[['tbtotal', 'tauwet', 'taudry']], dtype=float)


@C.sub('simulation', simulation_cases(), quick=800, thorough=10000)
def simulation(c, ctx):
    sets = parameter_sets()
    lib.select(o3='')
    models = dict(c['m'])
    gases = ['h2o', 'o2']
    if c['o3']:
        gases.append('o3')
        models['o3'] = c['o3']
    base = {}
    for g in gases:
        base.update(sets[g](models[g]))
    perts = [x for g in gases for x in c['perts'][g]]
    if c['same']:
        perts = []
        if c['m']['h2o'] in ('R16', 'R17'):
            base['con_Cf_factr'].value = 1
            base['con_Cs_factr'].value = 1
    params = perturb(base, perts)
    snap = snapshot(params)
    kw = dict(sat=c['sat'], o3n=c['o3n'])
    # a run without parameters before ...
    plain = run_values(lib.rte(c['prof'], c['f'], models, **kw).execute())
    if c['how'] == 'constructor':
        r = lib.rte(c['prof'], c['f'], models, amu=params, **kw)
    else:
        r = lib.rte(c['prof'], c['f'], models, **kw)
        r.set_amu(params)
    got = run_values(r.execute())
    repeat = run_values(r.execute())
    require(np.array_equal(got, repeat, equal_nan=True), 'repeated run with the same parameters differs: %s / %s', got, repeat)
    untouched(params, snap)
    # ... and one afterwards
    after = run_values(lib.rte(c['prof'], c['f'], models, **kw).execute())
    require(np.array_equal(plain, after, equal_nan=True), 'a run without parameters is affected by the run before: %s / %s',
            plain, after)
    if c['same']:
        require(np.allclose(got, plain, rtol=1e-8, atol=1e-7, equal_nan=True),
                'unperturbed parameters change the result: %s, without %s', got, plain)
        ctx.label('unperturbed', c['m']['h2o'], c['m']['o2'])
        ctx.nontrivial(True)
        return
    z, p, t, rh = gen.arr(c['prof'])
    e, _ = rte.vapor(t, rh)
    LL = {g: modified(g, models[g], c['perts'][g]) for g in gases}
    changed = False
    for j, f in enumerate(c['f']):
        wet = np.array([reference('h2o', models['h2o'], p[i], t[i], e[i], f, 0, L=LL['h2o'])[0] for i in range(len(z))])
        dry = np.array([reference('o2', models['o2'], p[i], t[i], e[i], f, 0, L=LL['o2'])[0] +
                        absorb.n2(models['n2'], p[i] - e[i], t[i], f) for i in range(len(z))])
        if c['o3']:
            dry = dry + np.array([reference('o3', c['o3'], p[i], t[i], e[i], f, c['o3n'][i], L=LL['o3'])[0]
                                  for i in range(len(z))])
        ds = rte.plane_path(z, 90.0)
        lw, ld = rte.integrate(wet, ds), rte.integrate(dry, ds)
        s = rte.solve(f, t, lw + ld, c['sat'], 1.0)
        where = ' at %r GHz with %s' % (f, perts)
        length = float(np.sum(ds))
        close(got[j, 1], np.sum(lw), rtol=2e-7, atol=2e-9 * length + rte.rounding(wet, ds), what='wet optical depth' + where)
        close(got[j, 2], np.sum(ld), rtol=2e-7, atol=2e-9 * length + rte.rounding(dry, ds), what='dry optical depth' + where)
        if abs(np.sum(lw + ld) - 125.0) > 1e-3:
            close(got[j, 0], rte.inv_bt(f, s['total']), atol=3e-5, what='brightness temperature' + where)
        changed = changed or bool(np.any(np.abs(got[j] - plain[j]) > 1e-6 * np.abs(plain[j])))
    ctx.nontrivial(changed)
    ctx.label('perturbed', c['how'], *(['ozone'] if c['o3'] else []))


@C.sub('edit', st.fixed_dictionaries({'sp': st.sampled_from(['h2o', 'o2', 'o3']), 'i': st.integers(0, 10 ** 6),
                                      's': gen.state(), 'f': gen.frequency(), 'rel': gen.fl(0.05, 0.5, 3)}),
       quick=400, thorough=6000)
def edit(c, ctx):
    """editing a parameter set in place (documented use) leaves the selected model as it is"""
    sp = c['sp']
    m = MODELS[sp][c['i'] % len(MODELS[sp])]
    s = c['s']
    f = c['f']
    if sp == 'o3':
        L = gen.line_centres(sp, m)
        f = float(L[c['i'] % len(L)]) + 0.01
    q = (s['p'], s['t'], s['e'], f, 1e18)
    base = parameter_sets()[sp](m)
    before = evaluate(sp, *q)
    fresh = snapshot(base)
    for k in base:
        v = base[k].value
        if isinstance(v, np.ndarray) and v.ndim:
            v *= 1 + c['rel']
        else:
            base[k].value = v * (1 + c['rel'])
    require(evaluate(sp, *q) == before, 'editing the parameter set of %s %s changes the selected model', sp, m)
    again = parameter_sets()[sp](m)
    for k, v in again.items():
        require(np.array_equal(np.array(v.value, dtype=float), fresh[k][0], equal_nan=True),
                'parameter %s of %s %s is not the original one on the next request', k, sp, m)
    ctx.nontrivial(before > 0)
    ctx.label(sp, m)
