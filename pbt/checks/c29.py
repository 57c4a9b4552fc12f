"""C29 reanalysis columns: files written by the check, columns found by brute force."""
import contextlib
import datetime as dt
import math
import os
import shutil
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require

C = Check('C29', rule='a file with a 1-7 x 1-7 grid (square or not, either latitude orientation, -180..180 or 0..360), 2-37 '
          'levels and one time, and a location in or near the grid; non-trivial: the grid has at least two columns. '
          'download: a location, time and resolution answered by a stand-in of the climate data store; non-trivial always.',
          assumptions=['files have the variables, dimensions and level order (increasing pressure) of the files the library '
                       'downloads, with a single time',
                       'where great-circle distance and nearest latitude/longitude disagree, or two columns are equally '
                       'far within 2e-6 rad (12 m), either column is accepted',
                       'known finding C29-column: the library compares only the points (lat[k], lon[k]); that column is '
                       'accepted too where the nearest one lies off this diagonal of a square grid, and the refusal of a '
                       'non-square grid'])

LEVELS = [1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700,
          750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]
VARS = ['t', 'r', 'clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q']
LONG = {'t': 'temperature', 'r': 'relative_humidity', 'clwc': 'specific_cloud_liquid_water_content',
        'ciwc': 'specific_cloud_ice_water_content', 'crwc': 'specific_rain_water_content',
        'cswc': 'specific_snow_water_content', 'o3': 'ozone_mass_mixing_ratio', 'q': 'specific_humidity'}
RANGE = {'t': (170.0, 320.0), 'r': (-1.0, 130.0), 'clwc': (0.0, 1e-3), 'ciwc': (0.0, 5e-4), 'crwc': (0.0, 1e-3),
         'cswc': (0.0, 1e-3), 'o3': (1e-8, 2e-5), 'q': (1e-6, 0.025)}

def write(path, lats, lons, levels, hours, seed, packed):
    from netCDF4 import Dataset
    rng = np.random.RandomState(seed)
    with Dataset(path, 'w', format='NETCDF3_64BIT_OFFSET') as nc:
        for n, v in (('longitude', lons), ('latitude', lats), ('level', levels), ('time', [hours])):
            nc.createDimension(n, len(v))
            x = nc.createVariable(n, {'level': 'i4', 'time': 'i4'}.get(n, 'f4'), (n,))
            x[:] = np.asarray(v)
        nc['time'].units = 'hours since 1900-01-01 00:00:00.0'
        nc['time'].calendar = 'gregorian'
        shape = (1, len(levels), len(lats), len(lons))
        for n in VARS:
            lo, hi = RANGE[n]
            data = lo + (hi - lo) * rng.random_sample(shape)
            x = nc.createVariable(n, 'i2' if packed else 'f4', ('time', 'level', 'latitude', 'longitude'),
                                  fill_value=-32767 if packed else None)
            if packed:
                x.scale_factor = (hi - lo) / 65530
                x.add_offset = (hi + lo) / 2
            x[:] = data


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pbt-c29-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hav(la, lo, plat, plon):
    la, lo, plat, plon = (np.radians(np.asarray(v, float)) for v in (la, lo, plat, plon))
    return 2 * np.arcsin(np.sqrt(np.clip(np.sin((la - plat) / 2) ** 2 +
                                         np.cos(la) * np.cos(plat) * np.sin((lo - plon) / 2) ** 2, 0, 1)))


def ties(d):
    """indices of the smallest distances"""
    d = np.asarray(d)           # radians; coordinates are stored in single precision
    return [tuple(int(x) for x in k) for k in np.argwhere(d <= d.min() + 2e-6)]


def nearest(lats, lons, point):
    plon, plat = point
    great = ties(hav(lats[:, None], lons[None, :], plat, plon))
    dl = np.abs((lons - plon + 180.0) % 360.0 - 180.0)
    axis = [(i, j) for (i,) in ties(np.radians(np.abs(lats - plat)))
            for (j,) in ties(np.radians(dl))]
    diag = [(k, k) for (k,) in ties(hav(lats, lons, plat, plon))] if len(lats) == len(lons) else []
    return great, axis, diag


def matches(df, file, i, j):
    """compare the whole table with column (i, j); None or what differs"""
    from netCDF4 import Dataset
    with Dataset(file) as nc:
        want = {n: np.asarray(nc[n][0, :, i, j], float)[::-1] for n in VARS}
        p = np.asarray(nc['level'][:], float)[::-1]
    cols = dict(want, rh=want['r'] / 100.0, p=p)
    cols.pop('r')
    for n, v in cols.items():
        got = np.asarray(df[n], float)
        if got.shape != v.shape or not np.allclose(got, v, rtol=1e-6, atol=0):
            k = int(np.argmax(np.abs(got - v))) if got.shape == v.shape else -1
            return '%s at level %d is %r' % (n, k, got[k] if k >= 0 else got.shape)
    return None


def hypsometric(file, i, j, convert):
    from netCDF4 import Dataset
    with Dataset(file) as nc:
        p = np.asarray(nc['level'][:], float)[::-1]
        t = np.asarray(nc['t'][0, :, i, j], float)[::-1]
        q = np.asarray(nc['q'][0, :, i, j], float)[::-1]
    w = q / (1 - q) if convert else q
    eps = 18.01528 / 28.96546
    tv = t * (w + eps) / (eps * (1 + w))
    step = 0.5 * (tv[1:] + tv[:-1]) * np.log(p[:-1] / p[1:])
    return np.concatenate([[0.0], np.cumsum(step)]) * 8.314462618 / 28.96546e-3 / 9.80665 / 1000


def judge(df, file, lats, lons, point, time, ctx):
    great, axis, diag = nearest(lats, lons, point)
    good = great + [k for k in axis if k not in great]
    known = [k for k in diag if k not in good]
    col = None
    for k in good + known:
        bad = matches(df, file, *k)
        if bad is None:
            col = k
            break
    require(col is not None, 'the table is none of the columns %r nearest to %r: %s', good, point, matches(df, file, *good[0]))
    if col in known:
        ctx.exclude()
    z = np.asarray(df['z'], float)
    a, b = hypsometric(file, *col, False), hypsometric(file, *col, True)
    slack = 1.5 * np.abs(a - b) + 1e-4 * np.abs(a) + 1e-9
    require(np.all(np.abs(z - a) <= slack), 'height %r is not hypsometric (%r)', z[-1], a[-1])
    require(np.all(np.diff(z) > 0) and np.all(np.diff(np.asarray(df['p'], float)) < 0), 'levels are not from the ground up')
    require(all(x == time for x in df['time']), 'time %s instead of %s', df['time'].iloc[0], time)
    require(df.attrs['units'].get('p') == 'hPa' and df.attrs['units'].get('z') == 'km' and
            df.attrs['units'].get('t') == 'K', 'units %r', df.attrs['units'])
    require(df.attrs['units'].get('rh') != '%', 'humidity is a fraction but labelled in percent')


EPOCH = dt.datetime(1900, 1, 1)


@st.composite
def files(draw):
    n = draw(st.integers(1, 7))
    m = n if draw(st.integers(0, 3)) else draw(st.integers(1, 7))
    step = draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.5]))
    lat0 = draw(st.integers(-60, 60)) + draw(st.sampled_from([0.0, 0.04, 0.117]))
    lon0 = draw(st.sampled_from([-180.0, -179.9, -75.3, -1.0, 0.0, 10.41, 120.0, 179.0, 181.5, 300.2, 350.0]))
    diag = draw(st.booleans())
    i = draw(st.integers(0, n - 1))
    j = min(i, m - 1) if diag else draw(st.integers(0, m - 1))
    off = st.one_of(st.integers(-45, 45), st.integers(-45, 45), st.sampled_from([-49, 49, 0, -150, 150]))
    lv = draw(st.one_of(st.just(LEVELS), st.lists(st.sampled_from(LEVELS), min_size=2, max_size=10, unique=True).map(sorted)))
    lonstep = draw(st.sampled_from([step, step, step, 45.0, 51.0]))
    if lonstep > step:                      # around the globe
        lon0 = draw(st.sampled_from([-180.0, -179.9, -150.0, 0.0, 10.41]))
    return {'n': n, 'm': m, 'step': step, 'lonstep': lonstep, 'lat0': lat0, 'lon0': lon0, 'down': draw(st.booleans()) or draw(st.booleans()),
            'i': i, 'j': j, 'off': [draw(off), draw(off)], 'wrap': draw(st.booleans()), 'levels': lv,
            'hours': draw(st.integers(350640, 1120000)), 'seed': draw(st.integers(0, 2 ** 31 - 1)), 'packed': draw(st.booleans())}


@C.sub('column', files(), quick=1200, thorough=40000, shards=8)
def column(c, ctx):
    from pyrtlib.apiwebservices import ERA5Reanalysis
    lats = c['lat0'] + c['step'] * np.arange(c['n'])
    if c['down']:
        lats = lats[::-1]
    lons = c['lon0'] + c['lonstep'] * np.arange(c['m'])
    lats, lons = lats.astype('f4').astype(float), lons.astype('f4').astype(float)
    plat = lats[c['i']] + c['off'][0] * c['step'] / 100
    plon = lons[c['j']] + c['off'][1] * c['lonstep'] / 100
    if c['wrap']:
        plon = (plon + 180.0) % 360.0 - 180.0
    point = (float(plon), float(plat))
    with scratch() as d:
        f = os.path.join(d, 'x.nc')
        write(f, lats, lons, c['levels'], c['hours'], c['seed'], c['packed'])
        square = c['n'] == c['m']
        ctx.label('square' if square else 'not square')
        try:
            df = ERA5Reanalysis.read_data(f, point)
        except ValueError:
            require(not square, 'a square grid was refused')
            ctx.exclude()
            return
        judge(df, f, lats, lons, point, EPOCH + dt.timedelta(hours=c['hours']), ctx)
        great, axis, diag = nearest(lats, lons, point)
        ctx.label('nearest on the diagonal' if great[0] in diag else 'nearest off the diagonal')
        ctx.nontrivial(c['n'] * c['m'] > 1)


@st.composite
def requests_(draw):
    return {'lon': draw(st.integers(-17800, 17800)) / 100, 'lat': draw(st.integers(-6500, 6500)) / 100,
            'time': draw(st.builds(dt.datetime, st.integers(1950, 2025), st.integers(1, 12), st.integers(1, 28),
                                   st.integers(0, 23), st.sampled_from([0, 0, 0, 1, 29, 30, 45, 59]))).isoformat(),
            'res': draw(st.sampled_from([None, 0.25, 0.1, 0.5])), 'offset': draw(st.sampled_from([None, 0.4, 0.7, 1.3])),
            'seed': draw(st.integers(0, 2 ** 31 - 1))}


@C.sub('download', requests_(), quick=240, thorough=4000, shards=4)
def download(c, ctx):
    """the file asked of the store covers the location, time and variables, and its nearest column is what is read"""
    from pyrtlib.apiwebservices import ERA5Reanalysis, erafive
    asked, hour = [], []
    time = dt.datetime.fromisoformat(c['time'])

    class Client:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, name, req, target=None):
            asked.append((name, req, target))
            N, W, S, E = req['area']
            gy, gx = (abs(float(v)) for v in req['grid'])
            lats = np.arange(N, S - 1e-9, -gy)
            lons = np.arange(W, E + 1e-9, gx)
            t = dt.datetime(int(req['year']), int(req['month']), int(req['day']), *[int(x) for x in str(req['time']).split(':')[:2]])
            require(abs(t - time) < dt.timedelta(hours=1), 'the hour requested is %s, asked for was %s', t, time)
            hour.append(t)
            write(target, lats, lons, sorted(int(p) for p in req['pressure_level']),
                  int((t - EPOCH).total_seconds() // 3600), c['seed'], False)

    had = hasattr(erafive, 'cdsapi')
    old = getattr(erafive, 'cdsapi', None)
    erafive.cdsapi = types.SimpleNamespace(Client=Client)
    try:
        with scratch() as d:
            kw = {}
            if c['res']:
                kw['resolution'] = c['res']
            if c['offset']:
                kw['offset'] = c['offset']
            point = (c['lon'], c['lat'])
            f = ERA5Reanalysis.request_data(d, time, point, **kw)
            require(len(asked) == 1 and asked[0][2] == f, 'the file returned is not the one downloaded')
            require(os.path.dirname(f) == d, 'downloaded to %s', f)
            name, req, _ = asked[0]
            require(name == 'reanalysis-era5-pressure-levels', 'dataset %s', name)
            require(set(req['variable']) >= set(LONG.values()), 'variables missing: %s', set(LONG.values()) - set(req['variable']))
            require(req['format'] == 'netcdf' and req['product_type'] == 'reanalysis', 'format')
            require(sorted(int(p) for p in req['pressure_level']) == LEVELS, 'pressure levels %r', req['pressure_level'])
            N, W, S, E = req['area']
            o = c['offset'] or 0.4
            close([N, W, S, E], [c['lat'] + o, c['lon'] - o, c['lat'] - o, c['lon'] + o], 1e-9, 1e-9, 'area')
            close(req['grid'], [c['res'] or 0.25] * 2, 1e-12, 0, 'grid')
            from netCDF4 import Dataset
            with Dataset(f) as nc:
                lats, lons = np.asarray(nc['latitude'][:], float), np.asarray(nc['longitude'][:], float)
            if len(lats) != len(lons):
                ctx.exclude()
                return
            df = ERA5Reanalysis.read_data(f, point)
            judge(df, f, lats, lons, point, hour[0], ctx)
            ctx.nontrivial()
    finally:
        if had:
            erafive.cdsapi = old
        else:
            del erafive.cdsapi


@C.probe('C29-column')
def off_diagonal():
    """a 2 x 2 grid and a location on its upper right point; and a 2 x 3 grid"""
    from pyrtlib.apiwebservices import ERA5Reanalysis
    with scratch() as d:
        f = os.path.join(d, 'x.nc')
        lats, lons = np.array([41.0, 40.0]), np.array([10.0, 11.0])
        write(f, lats, lons, LEVELS, 1000000, 1, False)
        df = ERA5Reanalysis.read_data(f, (11.0, 41.0))
        if matches(df, f, 0, 1) is not None:
            return True
        write(f, lats, np.array([10.0, 11.0, 12.0]), LEVELS, 1000000, 1, False)
        try:
            df = ERA5Reanalysis.read_data(f, (12.0, 40.0))
        except ValueError:
            return True
        return matches(df, f, 1, 2) is not None
