"""C10 a simulation equals the reference forward model end to end."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen, lib
from ..ref import absorb, rte

C = Check('C10', rule='A case is a profile of 2-10 levels (surface height 0-3 km), 1-3 channels, 1-3 elevation angles, viewing '
          'mode, emissivity (scalar or per channel), optional ozone, ray tracing and a model selection; or one of the six tabulated atmospheres up to 120 km. Non-trivial: '
          'vapour present and at least one channel with total optical depth between 0.01 and 20.',
          assumptions=['slant paths with ray tracing are taken from the library call decided by C08',
                       'ozone absorption is taken from the library call decided by C03',
                       'temperatures within 2e-5 K (level values closer than 1e-9 Np/km may use either mean)'])

COLUMNS = ['tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice', 'angle']


@st.composite
def cases(draw):
    pr = draw(gen.profile(2, 10, dzmax=6.0))
    m = draw(gen.models())
    nf = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(['any', 'window', 'lines', 'integer']))
    fr = []
    for _ in range(nf):
        if kind == 'any':
            fr.append(draw(gen.frequency()))
        elif kind == 'integer':
            fr.append(draw(st.integers(1, 800)))
        elif kind == 'window':
            fr.append(draw(gen.fl(10.0, 200.0)))
        else:
            sp = draw(st.sampled_from(['h2o', 'o2']))
            fr.append(draw(gen.line_frequency(sp, m[sp])))
    n = len(pr['z'])
    o3 = draw(st.sampled_from(['', '', 'R18', 'R22', 'R23']))
    o3n = draw(st.one_of(st.none(), st.lists(gen.logfl(1e16, 1e19), min_size=n, max_size=n)))
    if o3 and o3n is not None and draw(st.booleans()):
        L = absorb.o3_lines(o3)['fl']
        L = L[(L > 10) & (L < 900)]
        fr[0] = gen.rnd(float(L[draw(st.integers(0, len(L) - 1))]) + draw(gen.fl(-0.3, 0.3)), 9)
    es = draw(st.one_of(st.none(), gen.fl(0.0, 1.0, 4), st.lists(gen.fl(0.0, 1.0, 4), min_size=nf, max_size=nf)))
    if kind != 'integer':
        fr = gen.crowd(draw, fr, 1.0, 1000.0)
    a = draw(st.lists(st.one_of(st.just(90.0), gen.fl(8.0, 90.0, 5)), min_size=1, max_size=3))
    a = gen.crowd(draw, a, 8.0, 90.0, 1e-4, 1.0)
    return {'prof': pr, 'm': m, 'f': fr, 'o3': o3, 'o3n': o3n, 'es': es, 'sat': draw(st.booleans()),
            'ray': draw(st.booleans()), 'a': a, 'detail': draw(st.booleans()),
            'vapice': draw(st.integers(0, 3)) == 3}


def build(c):
    es = c['es']
    m = dict(c['m'])
    lib.select(o3='')
    if c['o3']:
        m['o3'] = c['o3']
    fr = c['f']
    r = lib.rte(c['prof'], fr, m, angles=c['a'], sat=c['sat'], o3n=c['o3n'], ray=c['ray'],
                emissivity=None if es is None else (np.array(es) if isinstance(es, list) else float(es)))
    if all(isinstance(v, int) for v in fr):
        r.frq = np.array(fr)
    r.ice = c.get('vapice', False)
    return r


@C.sub('forward', cases(), quick=1600, thorough=20000)
def forward(c, ctx):
    from pyrtlib.rt_equation import RTEquation
    from pyrtlib.absorption_model import O3AbsModel
    r = build(c)
    res = r.execute(only_bt=not c['detail'])
    df, out = res if c['detail'] else (res, None)
    z, p, t, rh = gen.arr(c['prof'])
    nl, nf, na = len(z), len(c['f']), len(c['a'])
    require([x for x in COLUMNS if x not in df.columns] == [], 'columns %s', list(df.columns))
    require(len(df) == nf * na, '%d rows for %d channels and %d angles', len(df), nf, na)
    e, rho = rte.vapor(t, rh, c.get('vapice', False))
    _, _, n = rte.refractivity(p, t, e)
    mid = False
    wets, drys = [], []
    for f in c['f']:
        m = c['m']
        wet, dry = rte.absorption(m, p, t, e, float(f))
        if c['o3'] and c['o3n'] is not None:
            dry = dry + np.array([float(O3AbsModel().o3_absorption(t[i], p[i], np.float64(f), np.float64(c['o3n'][i])))
                                  for i in range(nl)])
        wets.append(wet)
        drys.append(dry)
    for k, a in enumerate(c['a']):
        ds = RTEquation.ray_tracing(z - z[0], n, a, z[0]) if c['ray'] else rte.plane_path(z, a)
        length = float(np.sum(ds))
        for j, f in enumerate(c['f']):
            row = df.iloc[k * nf + j]
            where = ' at %r GHz, %g degrees (channel %d, angle %d)' % (f, a, j, k)
            wet, dry = wets[j], drys[j]
            lw, ld = rte.integrate(wet, ds), rte.integrate(dry, ds)
            tau = lw + ld
            es = c['es']
            es = 1.0 if es is None else (es[j] if isinstance(es, list) else es)
            s = rte.solve(float(f), t, tau, c['sat'], es)
            tot = float(np.sum(tau))
            rt = 1e-6 if c['ray'] else 2e-8
            close(row['tauwet'], np.sum(lw), rtol=rt, atol=2e-9 * length + rte.rounding(wet, ds), what='wet optical depth' + where)
            close(row['taudry'], np.sum(ld), rtol=rt, atol=2e-9 * length + rte.rounding(dry, ds), what='dry optical depth' + where)
            require(row['tauliq'] == 0 and row['tauice'] == 0, 'cloud optical depth in clear sky' + where)
            close(row['angle'], a, what='angle label' + where)
            if abs(tot - 125.0) > 1e-3:
                close(row['tbtotal'], rte.inv_bt(float(f), s['total']), atol=2e-5 + 20 * rt, what='brightness temperature' + where)
                if c['sat']:
                    require(row['tbatm'] == 0, 'satellite view: radiance above the top level' + where)
                else:
                    # absolute floor: tiny optical depths give temperatures near zero
                    close(row['tbatm'], rte.inv_bt(float(f), s['atm'][-1]), rtol=1e-6, atol=2e-5 + 20 * rt,
                          what='atmospheric temperature' + where)
                if tot > 1e-4:
                    close(row['tmr'], rte.inv_bt(float(f), s['mr']), rtol=1e-6 + 1e-7 * length / tot, atol=2e-5,
                          what='mean radiating temperature' + where)
            mid = mid or 0.01 < tot < 20
            if out is not None:
                for key, w in (('awet', wet), ('adry', dry)):
                    v = np.asarray(out[key])
                    require(v.shape == (nf, na, nl), '%s has shape %s', key, v.shape)
                    close(v[j, k], w, rtol=1e-8, atol=1e-9 * float(np.max(np.abs(w))), what=key + where)
                for key, w, x in (('taulaywet', lw, wet), ('taulaydry', ld, dry)):
                    v = np.asarray(out[key])
                    require(v.shape == (nf, na, nl), '%s has shape %s', key, v.shape)
                    close(v[j, k], w, rtol=rt, atol=2e-9 * length + rte.rounding(x, ds), what=key + where)
                close(np.sum(out['taulaywet'][j, k]), row['tauwet'], rtol=1e-12, atol=1e-300, what='sum of wet layers' + where)
                close(np.sum(out['taulaydry'][j, k]), row['taudry'], rtol=1e-12, atol=1e-300, what='sum of dry layers' + where)
                require(np.all(out['taulayliq'][j, k] == 0) and np.all(out['taulayice'][j, k] == 0), 'cloud layers in clear sky')
    ctx.nontrivial(mid and np.any(rh > 0))
    ctx.label('satellite' if c['sat'] else 'ground', 'ray' if c['ray'] else 'plane',
              'es array' if isinstance(c['es'], list) else 'es scalar')
    if c['o3'] and c['o3n'] is not None:
        ctx.label('ozone')


@st.composite
def large_cases(draw):
    """as many levels, channels or angles as real soundings and sounders have"""
    kind = draw(st.sampled_from(['levels', 'channels', 'angles']))
    m = draw(gen.models())
    pr = draw(gen.profile(2, 4, dzmax=6.0))
    nf, na = 1, 1
    if kind == 'levels':
        pr = gen.refine(pr, draw(st.integers(30, 160)))
        rh = np.minimum(pr['rh'], 0.05 * np.array(pr['p']) / rte.es_water(np.array(pr['t'])))
        pr['rh'] = [gen.rnd(r, 7) for r in rh]
    elif kind == 'channels':
        nf = draw(st.integers(25, 150))
    else:
        na = draw(st.integers(6, 40))
    lo, hi = sorted(draw(st.tuples(gen.fl(5.0, 900.0), gen.fl(5.0, 900.0))))
    seed = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    how = draw(st.sampled_from(['grid', 'random', 'repeat']))
    f = np.linspace(lo, hi + 1.0, nf) if how == 'grid' else seed.uniform(lo, hi + 1.0, nf)
    if how == 'repeat':
        f = f[seed.randint(0, max(1, nf // 3), nf)]
    a = seed.uniform(10.0, 90.0, na) if na > 1 else np.array([draw(gen.fl(10.0, 90.0, 5))])
    es = [gen.rnd(float(x), 4) for x in seed.uniform(0.0, 1.0, nf)]
    return {'prof': pr, 'm': m, 'f': [gen.rnd(float(x), 9) for x in f], 'o3': '', 'o3n': None, 'es': es,
            'sat': draw(st.booleans()), 'ray': draw(st.booleans()), 'a': [gen.rnd(float(x), 6) for x in a], 'detail': True}


@C.sub('large', large_cases(), quick=160, thorough=1500, shards=8)
def large(c, ctx):
    forward(c, ctx)
    ctx.label('levels %d00+' % (len(c['prof']['z']) // 100), 'channels %d0+' % (len(c['f']) // 10))


@st.composite
def large(draw):
    """profiles of the size of a sounding, spectra, scans: each case is large in one respect"""
    c = draw(cases())
    kind = draw(st.sampled_from(['levels', 'levels', 'channels', 'angles']))
    n = len(c['prof']['z'])
    c['o3n'], c['kind'] = None, kind
    if kind == 'levels':
        pr = gen.refine(c['prof'], max(2, draw(st.sampled_from([120, 300, 700, 1300])) // n))
        rh = np.minimum(pr['rh'], 0.05 * np.array(pr['p']) / rte.es_water(np.array(pr['t'])))
        c['prof'] = dict(pr, rh=[gen.rnd(r, 7) for r in rh])
        c['f'], c['a'] = c['f'][:1], c['a'][:1]
        c['es'] = c['es'][:1] if isinstance(c['es'], list) else c['es']
    elif kind == 'channels':
        f0, step = draw(gen.fl(1.0, 400.0)), draw(gen.fl(0.01, 0.5))
        c['f'] = [gen.rnd(f0 + i * step, 9) for i in range(draw(st.sampled_from([40, 130, 300, 1100])))]
        if len(c['f']) > 500:
            c['prof'] = {k: v[:3] for k, v in c['prof'].items()}
        c['a'] = c['a'][:1]
        if isinstance(c['es'], list):
            c['es'] = [gen.rnd(0.3 + 0.7 * abs(np.cos(i)), 4) for i in range(len(c['f']))]
    else:
        c['f'] = c['f'][:1]
        c['es'] = c['es'][:1] if isinstance(c['es'], list) else c['es']
        c['a'] = [gen.rnd(a, 6) for a in np.linspace(*draw(st.sampled_from([(10, 90), (90, 10), (30, 60)])), draw(st.integers(30, 170)))]
    return c


@C.sub('large', large(), quick=64, thorough=1500, shards=4)
def big(c, ctx):
    forward(c, ctx)
    ctx.label(c['kind'])


@st.composite
def climates(draw):
    """the workflow of the documentation: a tabulated atmosphere, its humidity and ozone, up to 120 km"""
    c = draw(cases())
    c['f'], c['a'] = c['f'][:2], c['a'][:2]
    if isinstance(c['es'], list):
        c['es'] = [(c['es'] * 2)[i] for i in range(len(c['f']))]
    del c['prof'], c['o3n']
    c.update(atm=draw(st.integers(0, 5)), cut=draw(st.sampled_from([0, 0, draw(st.integers(2, 8))])),
             top=draw(st.sampled_from([50, 50, draw(st.integers(12, 50))])), tconv=draw(st.sampled_from([None, 273.0, 252.0])),
             wet=draw(st.sampled_from([1.0, 1.0, draw(gen.fl(0.0, 1.0))])), ozone=draw(st.booleans()))
    return c


@C.sub('climatology', climates(), quick=120, thorough=3000, shards=6)
def climatology(c, ctx):
    from pyrtlib.climatology import AtmosphericProfiles as A
    from pyrtlib.utils import mr2rh, ppmv2gkg, ppmv_to_moleculesm3
    z, p, _, t, md = A.gl_atm(c['atm'])
    w = ppmv2gkg(md[:, A.H2O], A.H2O)
    rh = c['wet'] * (mr2rh(p, t, w) if c['tconv'] is None else mr2rh(p, t, w, c['tconv']))[0] / 100
    o3 = ppmv_to_moleculesm3(md[:, A.O3], p * 100, t)
    k = slice(c['cut'], c['top'])
    forward(dict(c, prof={x: v[k].tolist() for x, v in (('z', z), ('p', p), ('t', t), ('rh', rh))},
                 o3n=o3[k].tolist() if c['ozone'] else None), ctx)
    ctx.label('profile %d' % c['atm'])
