"""C33 from an archive to brightness temperatures: the documented workflows, end to end."""
import datetime as dt
import math
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require
from .. import gen
from ..ref import absorb, rte
from . import c15, c22, c27, c28, c29

C = Check('C33', rule='A case is an observed profile written as a Wyoming page, an IGRA archive or a reanalysis file among other '
          'levels, soundings or columns, fetched, converted and simulated as in the documentation (1-2 channels, zenith or slant, '
          'both modes, measured or extended profile, clear or cloudy). Non-trivial: vapour and an optical depth between 0.01 '
          'and 20 in a channel.',
          assumptions=['the network is replaced at the transport of the requests library',
                       'values are those written in the file, rounded as its format prescribes',
                       'reanalysis: the location is a grid point on the diagonal (known finding C29-column)'])


def dew_of(t, rh):
    """a dew point near the one of this humidity (degrees Celsius)"""
    g = math.log(max(rh, 1e-3)) + 17.625 * t / (243.04 + t)
    return 243.04 * g / (17.625 - g)


@st.composite
def setting(draw):
    m = draw(gen.models(full=False))['h2o']
    return {'m': m, 'f': draw(st.lists(gen.frequency(10.0, 400.0), min_size=1, max_size=2)), 'a': draw(st.sampled_from([90.0, 90.0, 42.0])),
            'sat': draw(st.booleans()), 'es': draw(st.sampled_from([None, 0.6, 0.95])), 'extend': draw(st.booleans()),
            'h2o': draw(st.one_of(st.none(), st.sampled_from(absorb.H2O_MODELS)))}


def quantised(draw, nmin=4, nmax=9):
    """heights in m, pressures in Pa, temperatures and dew points in tenths of a degree"""
    pr = draw(gen.profile(nmin, nmax, dzmin=0.03, dzmax=3.0))
    h, t, d = [], [], []
    for z, tk, rh in zip(pr['z'], pr['t'], pr['rh']):
        m = int(round(1000 * z))
        h.append(max(m, h[-1] + 5) if h else m)
        t.append(int(round(10 * (tk - 273.15))))
        d.append(max(-1200, min(t[-1], int(round(10 * dew_of(t[-1] / 10, min(rh, 1.0)))))))
    return h, [int(round(100 * p)) for p in pr['p']], t, d


def reference(s, z, p, t, rh, liq=None, ice=None):
    m = {'h2o': s['h2o'] or s['m'], 'o2': s['m'], 'n2': s['m']}
    e, _ = rte.vapor(t, rh)
    ds = rte.plane_path(z, s['a'])
    out = []
    for f in s['f']:
        wet, dry = rte.absorption(m, p, t, e, f)
        lw, ld = rte.integrate(wet, ds), rte.integrate(dry, ds)
        ll = li = np.zeros(len(z))
        if liq is not None:
            ll = rte.integrate(np.array([absorb.liquid(s['liq'], w, f, x) for w, x in zip(liq, t)]), ds, False)
            li = rte.integrate(np.array([absorb.ice(w, f) for w in ice]), ds, False)
        tau = lw + ld + ll + li
        r = rte.solve(f, t, tau, s['sat'], s['es'] or 1.0)
        slack = 2e-9 * float(np.sum(ds))
        out.append({'tbtotal': rte.inv_bt(f, r['total']), 'tauwet': np.sum(lw), 'taudry': np.sum(ld), 'tauliq': np.sum(ll),
                    'tauice': np.sum(li), 'slack': {'tauwet': slack + rte.rounding(wet, ds), 'taudry': slack + rte.rounding(dry, ds),
                                                    'tauliq': slack, 'tauice': slack}, 'total': float(np.sum(tau))})
    return out


def compare(df, want, s, what, ctx, rtol=1e-7, tol=3e-5):
    require(len(df) == len(s['f']), '%s: %d rows for %d channels', what, len(df), len(s['f']))
    for j, w in enumerate(want):
        where = ': %s at %r GHz, model %s' % (what, s['f'][j], s['m'])
        for k in ('tauwet', 'taudry', 'tauliq', 'tauice'):
            close(df[k].iloc[j], w[k], rtol=rtol, atol=w['slack'][k], what=k + where)
        if abs(w['total'] - 125.0) > 1e-3:
            close(df['tbtotal'].iloc[j], w['tbtotal'], atol=tol, what='brightness temperature' + where)
        if 0.01 < w['total'] < 20:
            ctx.nontrivial(w['tauwet'] > 0)


def simulate(s, z, p, t, rh, what, ctx):
    """as in the documentation: model chosen by init_absmdl, the water-vapour model then possibly by itself"""
    from pyrtlib.tb_spectrum import TbCloudRTE
    from pyrtlib.absorption_model import H2OAbsModel, O3AbsModel
    O3AbsModel.model = ''
    r = TbCloudRTE(z, p, t, rh, np.array(s['f']), np.array([s['a']]), from_sat=s['sat'])
    r.init_absmdl(s['m'])
    if s['h2o']:
        H2OAbsModel.model = s['h2o']
        H2OAbsModel.set_ll()
    if s['es'] is not None:
        r.emissivity = s['es']
    compare(r.execute(), reference(s, *(np.asarray(x, dtype=float) for x in (z, p, t, rh))), s, what, ctx)
    return r


def follow(s, prof, lat, month, ctx):
    """simulate the decoded profile, extended if asked"""
    from pyrtlib.climatology import ProfileExtrapolation
    z, p, t, rh = prof
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if s['extend'] and abs(lat) not in (20.0, 45.0):
            zz, pp, tt, hh = ProfileExtrapolation().profile_extrapolation(lat, month, z, (p, t, rh))
            c22.judge({'z': z, 'p': p, 't': t, 'rh': rh, 'lat': lat, 'month': month}, (zz, pp, tt, hh), 100.0)
            ctx.label('extended')
            simulate(s, zz, pp, tt, hh, 'extended profile', ctx)
        else:
            simulate(s, z, p, t, rh, 'profile', ctx)


def decoded(df, h, p, t, d, what):
    """the documented conversions, checked level by level"""
    from pyrtlib.utils import dewpoint2rh
    z, pp, tt = df.height.values / 1000, df.pressure.values, df.temperature.values + 273.15    # to_kelvin: known finding C18-kelvin
    rh = dewpoint2rh(df.dewpoint, df.temperature).values
    require(len(z) == len(h), '%s: %d levels instead of %d', what, len(z), len(h))
    close(z, np.array(h) / 1000, rtol=1e-12, atol=1e-12, what='height (km)')
    close(pp, np.array(p) / 100, rtol=1e-12, what='pressure')
    close(tt, np.array(t) / 10 + 273.15, rtol=1e-12, what='temperature (K)')
    close(rh, [c15.magnus('arm', False, a / 10, b / 10) for a, b in zip(d, t)], rtol=1e-9, what='humidity from the dew point')
    return z, pp, tt, rh


@st.composite
def pages(draw):
    c = draw(c28.pages())
    h, p, t, d = quantised(draw)
    p = [int(round(x / 10)) for x in p]         # tenths of hPa on the page
    rows = []
    for i in range(len(h)):
        row = [p[i], h[i], t[i], d[i], draw(st.integers(0, 100)), draw(st.integers(0, 3000)), 270, 12, 3000, 3100, 3010]
        rows.append(row)
        if draw(st.integers(0, 3)) == 0:        # a level without temperature or dew point, to be left out
            k = draw(st.sampled_from([2, 3]))
            gap = list(row)
            gap[k:6] = [None] * (6 - k)
            gap[1] = h[i] + 1
            rows.append(gap)
    return {'page': dict(c, levels=rows), 'h': h, 'p': [10 * x for x in p], 't': t, 'd': d, 's': draw(setting())}


@C.sub('wyoming', pages(), quick=160, thorough=3000, shards=8)
def wyoming(c, ctx):
    a, b, _ = c28.page(c['page'])
    df, _ = c28.ask(c['page'], a + b)
    prof = decoded(df, c['h'], c['p'], c['t'], c['d'], 'page')
    follow(c['s'], prof, float(df.latitude.iloc[0]), df.time.iloc[0].month, ctx)


@st.composite
def archives(draw):
    site = draw(c27.SITE)
    base = dt.date(draw(st.integers(1930, 2026)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    h, p, t, d = quantised(draw)
    good = []
    for i in range(len(h)):
        lv = {'lvltyp1': 2, 'lvltyp2': 0, 'etime': -9999, 'pressure': p[i], 'pflag': draw(c27.FLAG), 'height': h[i], 'zflag': 'A',
              'temperature': t[i], 'tflag': draw(c27.FLAG), 'relative_humidity': -9999, 'dewpoint_depression': t[i] - d[i],
              'direction': draw(st.sampled_from([-9999, 90])), 'speed': draw(st.sampled_from([-8888, 100]))}
        good.append(lv)
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from(['height', 'temperature', 'dewpoint_depression']))
            good.append(dict(lv, **{k: draw(c27.MISS)}))
    n = draw(st.integers(1, 4))
    mine = draw(st.integers(0, n - 1))
    snds = []
    for i in range(n):
        day = base + dt.timedelta(days=i)
        snds.append({'site': site, 'ymd': [day.year, day.month, day.day], 'hour': draw(st.sampled_from([0, 12])),
                     'reltime': 9999, 'lat': draw(st.integers(-890000, 890000)), 'lon': draw(st.integers(-1790000, 1790000)),
                     'p_src': 'ncdc-gts', 'np_src': '',
                     'levels': good if i == mine else draw(st.lists(c27.std_level(), min_size=1, max_size=4))})
    return {'archive': {'product': draw(st.sampled_from(['standard', 'y2d'])), 'site': site, 'soundings': snds,
                        'sel': [c27.when(snds[mine]).isoformat()], 'member': 'x.txt'},
            'mine': mine, 'h': h, 'p': p, 't': t, 'd': d, 's': draw(setting())}


@C.sub('igra', archives(), quick=160, thorough=3000, shards=8)
def igra(c, ctx):
    (df, head), _ = c27.fetch(c['archive'])
    df = df[df.pressure.notna() & df.temperature.notna() & df.dewpoint.notna() & df.height.notna()]
    prof = decoded(df, c['h'], c['p'], c['t'], c['d'], 'archive')
    s = c['archive']['soundings'][c['mine']]
    lat = float(head.latitude.values[0])
    close(lat, s['lat'] / 1e4, rtol=1e-12, atol=1e-9, what='latitude')
    follow(c['s'], prof, lat, s['ymd'][1], ctx)


@st.composite
def columns(draw):
    n = draw(st.integers(2, 3))
    k = draw(st.integers(4, 12))
    lv = sorted(draw(st.lists(st.sampled_from(c29.LEVELS[10:]), min_size=k, max_size=k, unique=True)))
    s = draw(setting())
    s['liq'] = s['m'] if s['m'] in absorb.LIQ_MODELS else 'R20'
    return {'n': n, 'levels': lv, 'k': draw(st.integers(0, n - 1)), 'lat0': draw(st.integers(-60, 60)),
            'lon0': draw(st.integers(-170, 170)), 'hours': draw(st.integers(350640, 1120000)),
            'seed': draw(st.integers(0, 2 ** 31 - 1)), 't0': draw(gen.fl(250.0, 305.0)), 's': s,
            'packed': draw(st.booleans()), 'order': draw(st.permutations([False, True]))}


def reanalysis(path, c):
    """a file as c29 writes it, with an atmosphere that can be simulated in it"""
    from netCDF4 import Dataset
    lats = (c['lat0'] + 0.25 * np.arange(c['n']))[::-1].astype('f4').astype(float)
    lons = (c['lon0'] + 0.25 * np.arange(c['n'])).astype('f4').astype(float)
    c29.write(path, lats, lons, c['levels'], c['hours'], c['seed'], False)
    rng = np.random.RandomState(c['seed'] ^ 1)
    with Dataset(path, 'r+') as nc:
        p = np.array(c['levels'], dtype=float)[:, None, None]
        shape = (len(c['levels']), c['n'], c['n'])
        t = np.maximum(200.0, c['t0'] - 6.5 * 7.5 * np.log(1000.0 / p) + rng.uniform(-3, 3, shape))
        r = rng.uniform(0, 120, shape)
        r = np.minimum(r, 4.0 * p / rte.es_water(t))
        e = r / 100 * rte.es_water(t)
        nc['t'][0], nc['r'][0], nc['q'][0] = t, r, 0.622 * e / (p - 0.378 * e)
        for v in ('clwc', 'ciwc'):
            nc[v][0] = rng.uniform(0, 3e-4, shape) * (rng.random_sample(shape) < 0.5)
    return lats, lons


@C.sub('era5', columns(), quick=160, thorough=3000, shards=8)
def era5(c, ctx):
    from netCDF4 import Dataset
    from pyrtlib.apiwebservices import ERA5Reanalysis
    from pyrtlib.tb_spectrum import TbCloudRTE
    from pyrtlib.absorption_model import H2OAbsModel, LiqAbsModel, O3AbsModel
    from pyrtlib.utils import kgkg_to_kgm3
    s = c['s']
    with c29.scratch() as d:
        f = os.path.join(d, 'era5.nc')
        lats, lons = reanalysis(f, c)
        k = c['k']
        df = ERA5Reanalysis.read_data(f, (float(lons[k]), float(lats[k])))
        c29.judge(df, f, lats, lons, (float(lons[k]), float(lats[k])), c29.EPOCH + dt.timedelta(hours=c['hours']), ctx)
        with Dataset(f) as nc:
            v = {n: np.asarray(nc[n][0, :, k, k], float)[::-1] for n in c29.VARS}
            p = np.asarray(nc['level'][:], float)[::-1]
    z = np.asarray(df.z, float)
    cldh = np.empty((2, 1))
    cldh[:, 0] = np.array([np.min(df.z), np.max(df.z)])
    total = 1 - df.ciwc.values - df.clwc.values - df.crwc.values - df.cswc.values
    rho = kgkg_to_kgm3(df.q.values * (1 / total), df.p.values, df.t.values)
    ice, liq = (x.values * (1 / total) * rho * 1000 for x in (df.ciwc, df.clwc))
    # water contents in g/m3 from the file: mass mixing ratio times the density of moist air
    left = 1 - v['ciwc'] - v['clwc'] - v['crwc'] - v['cswc']
    eps = 18.01528 / 28.96546
    rm = 8.314462618 / 28.96546e-3 * (1 + (1 - eps) / eps * v['q'] / left)
    dens = 1e5 * p / (rm * v['t'])
    close(ice, v['ciwc'] / left * dens, rtol=2e-4, atol=1e-12, what='ice water content')
    close(liq, v['clwc'] / left * dens, rtol=2e-4, atol=1e-12, what='liquid water content')
    O3AbsModel.model = ''
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = TbCloudRTE(df.z.values, df.p.values, df.t.values, df.rh.values, np.array(s['f']), np.array([s['a']]), from_sat=s['sat'])
        r.init_absmdl(s['m'])
        LiqAbsModel.model = s['liq']
        if s['h2o']:
            H2OAbsModel.model = s['h2o']
            H2OAbsModel.set_ll()
        if s['es'] is not None:
            r.emissivity = s['es']
        for cloudy in c['order']:
            r.cloudy = cloudy
            r.init_cloudy(cldh, ice, liq)
            got = r.execute()
            want = reference(s, z, p, v['t'], v['r'] / 100, *((liq, ice) if cloudy else ()))
            # the columns are in single precision
            compare(got, want, s, 'cloudy column' if cloudy else 'clear column', ctx, 2e-5, 3e-3)
            require(cloudy or not np.any(got[['tauliq', 'tauice']].values), 'clouds in the clear-sky run')
            ctx.label('cloudy' if cloudy and np.any(liq > 0) else 'clear')
