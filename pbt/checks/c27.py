"""C27 IGRA2 files: encoder written from the published format, decoded by the library."""
import datetime as dt
import io
import math
import zipfile

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import http

C = Check('C27', rule='an archive of 1-6 soundings of 1-6 levels (one of them of up to 9999 in a sub-check) with values over the whole width of each field, missing '
          'codes, soundings without hour, and a date or date range; non-trivial: at least one sounding is selected and '
          'one of its levels carries data.',
          assumptions=['files are written as in the published format description of IGRA 2 (igra2-data-format.txt, '
                       'igra2-derived-format.txt): soundings ordered by date, an unknown hour (99) last in its day; a '
                       'sounding without hour belongs to 00 of its day',
                       'the network is replaced at the transport of the requests library'])

MISS = st.sampled_from([-9999, -8888])


def val(lo, hi, codes=(-9999, -8888), p=4):
    """value of a field; missing codes about one time in p"""
    def ok(v):
        return v not in codes
    v = st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1])).filter(ok)
    return st.one_of(*([v] * (p - 1)), st.sampled_from(codes))


# ---- standard files
STD = ['lvltyp1', 'lvltyp2', 'etime', 'pressure', 'pflag', 'height', 'zflag', 'temperature', 'tflag',
       'relative_humidity', 'dewpoint_depression', 'direction', 'speed']
FLAG = st.sampled_from([' ', 'A', 'B'])
ETIME = st.one_of(st.tuples(st.integers(0, 300), st.integers(0, 59)).map(lambda x: x[0] * 100 + x[1]), MISS)


@st.composite
def std_level(draw):
    empty = draw(st.integers(0, 5)) == 0
    lv = {'lvltyp1': draw(st.integers(1, 3)), 'lvltyp2': draw(st.integers(0, 2)), 'etime': draw(ETIME),
          'pressure': draw(val(1, 110000)), 'pflag': draw(FLAG), 'height': draw(val(-999, 99999)), 'zflag': draw(FLAG),
          'temperature': draw(val(-1500, 700)), 'tflag': draw(FLAG), 'relative_humidity': draw(val(0, 1000)),
          'dewpoint_depression': draw(val(0, 900)), 'direction': draw(val(0, 360)), 'speed': draw(val(0, 2500))}
    if empty:
        for k in ('temperature', 'dewpoint_depression', 'direction', 'speed'):
            lv[k] = draw(MISS)
    return lv


def std_body(lv):
    return ('%1d%1d %5d %6d%1s%5d%1s%5d%1s%5d %5d %5d %5d ' % tuple(lv[k] for k in STD))


def std_header(s):
    return '#%-11s %04d %02d %02d %02d %04d %4d %-8s %-8s %7d %8d' % (
        s['site'], s['ymd'][0], s['ymd'][1], s['ymd'][2], s['hour'], s['reltime'], len(s['levels']),
        s['p_src'], s['np_src'], s['lat'], s['lon'])


# ---- derived-parameter files: name, decimals (None: integer)
DRV = [('pressure', 2), ('reported_height', 0), ('calculated_height', 0), ('temperature', 1), ('temperature_gradient', 1),
       ('potential_temperature', 1), ('potential_temperature_gradient', 1), ('virtual_temperature', 1),
       ('virtual_potential_temperature', 1), ('vapor_pressure', 3), ('saturation_vapor_pressure', 3),
       ('reported_relative_humidity', 1), ('calculated_relative_humidity', 1), ('relative_humidity_gradient', 1),
       ('u_wind', 1), ('u_wind_gradient', 1), ('v_wind', 1), ('v_wind_gradient', 1), ('refractive_index', 0)]
DRVH = [('precipitable_water', 2), ('inv_pressure', 2), ('inv_height', 0), ('inv_strength', 1), ('mixed_layer_pressure', 2),
        ('mixed_layer_height', 0), ('freezing_point_pressure', 2), ('freezing_point_height', 0), ('lcl_pressure', 2),
        ('lcl_height', 0), ('lfc_pressure', 2), ('lfc_height', 0), ('lnb_pressure', 2), ('lnb_height', 0),
        ('lifted_index', 0), ('showalter_index', 0), ('k_index', 0), ('total_totals_index', 0), ('cape', 0),
        ('convective_inhibition', 0)]
GRADS = st.one_of(val(-999999, 9999999, (-99999,)), val(-20000, 20000, (-99999,)), st.sampled_from([-9999, -8888, 9999]))


@st.composite
def drv_level(draw):
    lv = []
    for name, _ in DRV:
        if name == 'pressure':
            v = draw(val(1, 110000, (-99999,), 6))
        elif 'height' in name:
            v = draw(val(-9999, 99999, (-99999,), 5))
        elif 'gradient' in name:
            v = draw(GRADS)
        elif name in ('u_wind', 'v_wind'):
            v = draw(val(-2500, 2500, (-99999,), 5))
        elif name.endswith('humidity'):
            v = draw(val(0, 1000, (-99999,), 4))
        else:
            v = draw(val(0, 99999, (-99999,), 5))
        lv.append(v)
    if draw(st.integers(0, 5)) == 0:
        for i, (name, _) in enumerate(DRV):
            if name in ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind'):
                lv[i] = -99999
    return lv


def drv_body(lv):
    return ' '.join('%7d' % v for v in lv) + ' '


def drv_header(s):
    return '#%-11s %04d %02d %02d %02d %04d%5d ' % (
        s['site'], s['ymd'][0], s['ymd'][1], s['ymd'][2], s['hour'], s['reltime'], len(s['levels'])) + \
        ''.join('%6d' % v for v in s['extra'])


# ---- archives
RELT = st.one_of(st.just(9999), st.tuples(st.integers(0, 23), st.integers(0, 59)).map(lambda x: x[0] * 100 + x[1]))
SITE = st.from_regex(r'[A-Z]{2}[MIWXZ][0-9]{8}', fullmatch=True)
SRC = st.sampled_from(['', 'ncdc6301', 'ncdc-gts', 'ncdc-nws', 'era5-20c'])


@st.composite
def archive(draw):
    product = draw(st.sampled_from(['standard', 'y2d', 'derived']))
    site = draw(SITE)
    base = dt.date(draw(st.integers(1930, 2026)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    n = draw(st.integers(1, 6))
    keys = draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from([0, 1, 6, 11, 12, 18, 23, 99])),
                         min_size=n, max_size=n, unique=True))
    snds = []
    for off, hour in sorted(keys):
        d = base + dt.timedelta(days=off)
        s = {'site': site, 'ymd': [d.year, d.month, d.day], 'hour': hour, 'reltime': draw(RELT)}
        if product == 'derived':
            s['extra'] = [draw(val(-9999, 99999, (-99999,), 4)) for _ in DRVH]
            s['levels'] = draw(st.lists(drv_level(), min_size=1, max_size=4))
        else:
            s['lat'] = draw(st.one_of(st.integers(-900000, 900000), st.integers(-1500, 1500)))
            s['lon'] = draw(st.one_of(st.integers(-1800000, 1800000), st.integers(-1500, 1500)))
            s['p_src'], s['np_src'] = draw(SRC), draw(SRC)
            s['levels'] = draw(st.lists(std_level(), min_size=1, max_size=6))
        snds.append(s)
    # the selection: mostly the time of a sounding or a range around some of them
    def moment():
        s = draw(st.sampled_from(snds))
        t = when(s)
        return t + dt.timedelta(hours=draw(st.sampled_from([0, 0, 0, 0, -1, 1, 24, -24])))
    if draw(st.booleans()):
        sel = [moment()]
    else:
        sel = sorted([moment(), moment()])
    return {'product': product, 'site': site, 'soundings': snds, 'sel': [t.isoformat() for t in sel],
            'member': draw(st.sampled_from(['x.txt', '%s-data.txt' % site]))}


def when(s):
    return dt.datetime(*s['ymd'], 0 if s['hour'] == 99 else s['hour'])


def text_of(c):
    out = []
    for s in c['soundings']:
        if c['product'] == 'derived':
            out.append(drv_header(s))
            out += [drv_body(lv) for lv in s['levels']]
        else:
            out.append(std_header(s))
            out += [std_body(lv) for lv in s['levels']]
    return '\n'.join(out) + '\n'


def zip_of(c):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr(c['member'], text_of(c))
    return b.getvalue()


def fetch(c, content=None, status=200):
    from pyrtlib.apiwebservices import IGRAUpperAir
    sel = [dt.datetime.fromisoformat(t) for t in c['sel']]
    content = zip_of(c) if content is None else content
    with http.serve(lambda req: http.response(req, status, content, 'application/zip', 'reason')) as seen:
        try:
            r = IGRAUpperAir.request_data(sel[0] if len(sel) == 1 else tuple(sel), c['site'],
                                          beg2021=c['product'] == 'y2d', derived=c['product'] == 'derived')
        finally:
            c_url = [q.url for q in seen]
    return r, c_url


def selected(c):
    lo = dt.datetime.fromisoformat(c['sel'][0])
    hi = dt.datetime.fromisoformat(c['sel'][-1])
    return [s for s in c['soundings'] if lo <= when(s) <= hi]


def isnan(v):
    return v is None or (isinstance(v, (float, np.floating)) and math.isnan(v))


def same(got, want, what):
    if want is None:
        require(isnan(got), '%s: %r instead of missing', what, got)
    else:
        require(not isnan(got), '%s: missing instead of %r', what, want)
        close(float(got), want, 1e-12, 1e-9, what)


def dec(v, p, codes=(-9999, -8888)):
    return None if v in codes else v / 10.0 ** p


def std_expected(s):
    rows = []
    for lv in s['levels']:
        g = {k: lv[k] for k in ('lvltyp1', 'lvltyp2')}
        e = lv['etime']
        g['etime'] = None if e < 0 else (e // 100) * 60 + e % 100
        for k, p in (('pressure', 2), ('height', 0), ('temperature', 1), ('relative_humidity', 1), ('direction', 0),
                     ('speed', 1)):
            g[k] = dec(lv[k], p)
        for k in ('pflag', 'zflag', 'tflag'):
            g[k] = {' ': 0, 'A': 1, 'B': 2}[lv[k]]
        d = dec(lv['dewpoint_depression'], 1)
        t = g['temperature']
        g['dewpoint'] = None if d is None or t is None else t - d
        w = None
        if g['direction'] is not None and g['speed'] is not None:
            a = math.radians(g['direction'])
            w = (-g['speed'] * math.sin(a), -g['speed'] * math.cos(a))
        g['u_wind'], g['v_wind'] = w or (None, None)
        if any(x is not None for x in (t, d, g['direction'], g['speed'])):
            rows.append(g)
    return rows


def drv_expected(s):
    rows = []
    for lv in s['levels']:
        g = {k: dec(v, p, (-99999,)) for (k, p), v in zip(DRV, lv)}
        if any(g[k] is not None for k in ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind')):
            rows.append(g)
    return rows


UNITS_STD = {'etime': 'second', 'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC',
             'direction': 'degrees', 'speed': 'meter / second', 'u_wind': 'meter / second', 'v_wind': 'meter / second'}
UNITS_DRV = {'pressure': 'hPa', 'reported_height': 'meter', 'calculated_height': 'meter', 'temperature': 'Kelvin',
             'potential_temperature': 'Kelvin', 'virtual_temperature': 'Kelvin', 'vapor_pressure': 'hPa',
             'saturation_vapor_pressure': 'hPa', 'reported_relative_humidity': 'percent', 'u_wind': 'meter / second',
             'v_wind': 'meter / second'}
UNITS_DH = {'release_time': 'second', 'precipitable_water': 'millimeter', 'inv_pressure': 'hPa', 'inv_height': 'meter',
            'lcl_pressure': 'hPa', 'cape': 'Joule / kilogram', 'convective_inhibition': 'Joule / kilogram'}
PATH = {'standard': 'data-por/%s-data.txt.zip', 'y2d': 'data-y2d/%s-data-beg2021.txt.zip',
        'derived': 'derived-por/%s-drvd.txt.zip'}


def judge(c, df, hd, ctx=None):
    drv = c['product'] == 'derived'
    sel = selected(c)
    want = [(when(s), r) for s in sel for r in (drv_expected(s) if drv else std_expected(s))]
    require(len(df) == len(want), '%d levels returned, %d written', len(df), len(want))
    require(list(df.index) == list(range(len(df))), 'levels are not numbered 0..n-1')
    require('dewpoint_depression' not in df.columns, 'dewpoint depression is still there')
    cols = {k: df[k].tolist() for k in (want[0][1] if want else ())}
    dates = df['date'].tolist()
    for i, (w, g) in enumerate(want):
        row = {k: cols[k][i] for k in g}
        require(dates[i] == w, 'level %d dated %s, written under %s', i, dates[i], w)
        for k, v in g.items():
            if not drv and k in ('u_wind', 'v_wind') and v is not None:
                require(not isnan(row[k]), '%s missing', k)
                require(abs(row[k] - v) <= 0.0500001, 'level %d %s = %r, written %r', i, k, row[k], v)
            else:
                same(row[k], v, 'level %d %s' % (i, k))
    require(len(hd) == len(sel), '%d headers returned, %d soundings selected', len(hd), len(sel))
    for i, s in enumerate(sel):
        require(hd['date'].iloc[i] == when(s), 'header %d dated %s, written %s', i, hd['date'].iloc[i], when(s))
        require(hd['site_id'].iloc[i] == s['site'], 'header %d site %r', i, hd['site_id'].iloc[i])
        g = {'year': s['ymd'][0], 'month': s['ymd'][1], 'day': s['ymd'][2], 'hour': s['hour'],
             'number_levels': len(s['levels']),
             'release_time': None if s['reltime'] == 9999 else s['reltime'] // 100 * 3600 + s['reltime'] % 100 * 60}
        if drv:
            g.update({k: dec(v, p, (-99999,)) for (k, p), v in zip(DRVH, s['extra'])})
        else:
            g['latitude'], g['longitude'] = s['lat'] / 1e4, s['lon'] / 1e4
            for k, f in (('pressure_source_code', 'p_src'), ('non_pressure_source_code', 'np_src')):
                got = hd[k].iloc[i]
                require((isnan(got) or got == '') if not s[f] else got == s[f], 'header %d %s = %r, written %r', i, k, got,
                        s[f])
        for k, v in g.items():
            same(hd[k].iloc[i], v, 'header %d %s' % (i, k))
    for k, u in (UNITS_DRV if drv else UNITS_STD).items():
        require(df.attrs['units'].get(k) == u, 'unit of %s is %r, values are in %s', k, df.attrs['units'].get(k), u)
    for k, u in (UNITS_DH if drv else {'release_time': 'second', 'latitude': 'degrees', 'longitude': 'degrees'}).items():
        require(hd.attrs['units'].get(k) == u, 'unit of %s is %r, values are in %s', k, hd.attrs['units'].get(k), u)
    return want


@C.sub('decode', archive(), quick=1600, thorough=40000, shards=8)
def decode(c, ctx):
    ctx.label(c['product'])
    if not selected(c):
        ctx.label('empty selection')
        try:
            r, _ = fetch(c)
        except ValueError:
            return
        require(False, 'an empty selection returned %d levels', len(r[0]))
    (df, hd), urls = fetch(c)
    require(len(urls) >= 1, 'nothing was requested')
    tail = PATH[c['product']] % c['site']
    require(all(u.endswith('/' + tail) for u in urls), 'requested %s instead of %s', urls, tail)
    want = judge(c, df, hd)
    ctx.nontrivial(bool(want))
    if any(s['hour'] == 99 for s in c['soundings']):
        ctx.label('sounding without hour')
    if len(selected(c)) > 1:
        ctx.label('several soundings')


@st.composite
def long_archive(draw):
    """an archive one of whose soundings has as many levels as the four-digit count can say"""
    c = draw(archive())
    c['long'] = draw(st.integers(0, len(c['soundings']) - 1))
    c['count'] = draw(st.one_of(st.sampled_from([9, 10, 11, 99, 100, 101, 255, 256, 512, 999, 1000, 1001, 1024]),
                                st.integers(7, 1500), st.sampled_from([2000, 4096, 9999])))
    s = c['soundings'][c['long']]
    c['sel'] = [dt.datetime.combine(dt.date(*s['ymd']), dt.time(0 if s['hour'] == 99 else s['hour'])).isoformat()]
    return c


@C.sub('long_soundings', long_archive(), quick=64, thorough=2000, shards=8)
def long_soundings(c, ctx):
    c = dict(c, soundings=[dict(s) for s in c['soundings']])
    s = c['soundings'][c['long']]
    drv = c['product'] == 'derived'
    lev = []
    for i in range(c['count']):
        lv = s['levels'][i % len(s['levels'])]
        lv = list(lv) if drv else dict(lv)
        lv[0 if drv else 'pressure'] = 100000 - 7 * i  # tell the copies apart
        lev.append(lv)
    s['levels'] = lev
    (df, hd), _ = fetch(c)
    want = judge(c, df, hd)
    ctx.nontrivial(len(want) > 0)
    ctx.label('1000 or more' if c['count'] >= 1000 else 'below 1000')


@st.composite
def faults(draw):
    c = draw(archive())
    kind = draw(st.sampled_from(['status', 'truncate', 'flip', 'garbage']))
    f = {'kind': kind, 'pos': draw(st.integers(0, 10 ** 6)), 'status': draw(st.sampled_from(
        [204, 300, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504])), 'bit': draw(st.integers(0, 7)),
        'bytes': draw(st.binary(min_size=0, max_size=40)).hex()}
    return dict(c, fault=f)


@C.sub('faults', faults(), quick=700, thorough=20000, shards=8)
def faulty(c, ctx):
    """a failed or damaged transfer is an error or the right result, never another one"""
    f = c['fault']
    ctx.label(f['kind'])
    data = zip_of(c)
    status = 200
    if f['kind'] == 'status':
        status = f['status']
    elif f['kind'] == 'truncate':
        data = data[:f['pos'] % len(data)]
    elif f['kind'] == 'flip':
        b = bytearray(data)
        b[f['pos'] % len(b)] ^= 1 << f['bit']
        data = bytes(b)
    else:
        data = bytes.fromhex(f['bytes'])
    try:
        (df, hd), _ = fetch(c, data, status)
    except Exception as e:
        if f['kind'] == 'status':
            require(isinstance(e, (ValueError, OSError)), 'HTTP status %d raised %r', status, e)
            require(c['site'] in str(e) or str(status) in str(e), 'the error does not name the problem: %s', e)
        ctx.nontrivial(bool(selected(c)))
        return
    require(f['kind'] != 'status', 'HTTP status %d was taken for a result', status)
    require(f['kind'] != 'garbage', 'garbage was taken for a result')
    judge(c, df, hd)
    ctx.nontrivial()
