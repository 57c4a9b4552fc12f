"""C28 Wyoming sounding pages and the HTTP layer."""
import datetime as dt
import html
import math
from urllib.parse import parse_qs, urlsplit

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import http

C = Check('C28', rule='a sounding page with 1-12 levels (any subset of the values missing), station metadata with or '
          'without identifier, a station list page, session options, or a failing transfer; non-trivial: the page has a '
          'level with temperature and dew point, the list has a station, or the transfer fails.',
          assumptions=['pages are laid out as the TEXT:LIST pages of the archive: eleven right-aligned columns of seven '
                       'characters, blank where missing, then the station information block',
                       'the network is replaced at the transport of the requests library'])

# name, format, minimum, maximum (tenths or hundredths as integers)
COLS = [('pressure', '%7.1f', 1, 10500, 10), ('height', '%7d', -400, 48000, 1), ('temperature', '%7.1f', -999, 550, 10),
        ('dewpoint', '%7.1f', -1400, 400, 10), ('rh', '%7d', 0, 100, 1), ('mixr', '%7.2f', 0, 5000, 100),
        ('drct', '%7d', 0, 360, 1), ('sknt', '%7d', 0, 250, 1), ('thta', '%7.1f', 2000, 12000, 10),
        ('thte', '%7.1f', 2000, 12000, 10), ('thtv', '%7.1f', 2000, 12000, 10)]
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


@st.composite
def level(draw):
    row = [draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, lo // 2]))) for _, _, lo, hi, _ in COLS]
    kind = draw(st.sampled_from(['full', 'full', 'full', 'below ground', 'dry', 'no wind', 'any']))
    if kind == 'below ground':
        row[2:] = [None] * 9
    elif kind == 'dry':
        row[3:6] = [None] * 3
    elif kind == 'no wind':
        row[6:8] = [None] * 2
    elif kind == 'any':
        row = [row[0]] + [None if draw(st.booleans()) else v for v in row[1:]]
    return row


NAME = st.text('ABCDEFGHIJ abcdefghij().', min_size=1, max_size=12).map(lambda s: ' '.join(s.split())).filter(bool)
WHEN = st.builds(dt.datetime, st.integers(1973, 2026), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23))


@st.composite
def pages(draw):
    t = draw(WHEN)
    num = draw(st.integers(1001, 98999))
    icao = draw(st.one_of(st.none(), st.from_regex(r'[A-Z]{3,4}', fullmatch=True)))
    obs = t + dt.timedelta(minutes=draw(st.sampled_from([0, 0, 0, -30, 45])))
    return {'time': t.isoformat(), 'obs': obs.isoformat(), 'number': num, 'icao': icao,
            'ask': draw(st.sampled_from(['number', 'int', 'icao'])),
            'name': draw(NAME), 'lat': draw(st.integers(-9000, 9000)), 'lon': draw(st.integers(-18000, 18000)),
            'elev': draw(st.integers(-4200, 50000)), 'levels': draw(st.lists(level(), min_size=1, max_size=12)),
            'indices': draw(st.lists(st.sampled_from(['Showalter index', 'Lifted index', 'K index', 'CAPE']),
                                     max_size=3, unique=True))}


def page(c):
    t = dt.datetime.fromisoformat(c['time'])
    obs = dt.datetime.fromisoformat(c['obs'])
    title = '%05d %s%s Observations at %02dZ %02d %s %d' % (
        c['number'], (c['icao'] + ' ') if c['icao'] else '', c['name'], t.hour, t.day, MONTHS[t.month - 1], t.year)
    dash = '-' * 77
    rows = [''.join(' ' * 7 if v is None else fmt % (v / s if s != 1 else v)
                    for v, (_, fmt, _, _, s) in zip(row, COLS)) for row in c['levels']]
    meta = []
    if c['icao']:
        meta.append(('Station identifier', c['icao']))
    meta += [('Station number', '%d' % c['number']), ('Observation time', obs.strftime('%y%m%d/%H%M')),
             ('Station latitude', '%.2f' % (c['lat'] / 100)), ('Station longitude', '%.2f' % (c['lon'] / 100)),
             ('Station elevation', '%.1f' % (c['elev'] / 10))]
    meta += [(k, '12.34') for k in c['indices']]
    head = ('<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<LINK REL="StyleSheet" '
            'HREF="/resources/select.css" TYPE="text/css">\n<BODY BGCOLOR="white">\n<H2>%s</H2>\n<PRE>\n' % title)
    table = '\n'.join([dash, '   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV',
                       '    hPa     m      C      C      %    g/kg    deg   knot     K      K      K ', dash] + rows)
    tail = '\n</PRE><H3>Station information and sounding indices</H3><PRE>\n' + \
        '\n'.join('%43s: %s' % kv for kv in meta) + '\n</PRE>\n<P>Description of the \n' \
        '<A HREF="/upperair/columns.html">data columns</A>\nor <A HREF="/upperair/indices.html">sounding indices</A>.\n'
    return head + table, tail, title


def site(c):
    if c['ask'] == 'int':
        return c['number']
    return c['icao'] if c['ask'] == 'icao' and c['icao'] else '%05d' % c['number']


def ask(c, body, status=200):
    from pyrtlib.apiwebservices import WyomingUpperAir
    t = dt.datetime.fromisoformat(c['time'])
    with http.serve(lambda q: http.response(q, status, body.encode(), 'text/html', 'Reason')) as seen:
        df = WyomingUpperAir.request_data(t, site(c))
    return df, seen


def check_request(c, seen):
    t = dt.datetime.fromisoformat(c['time'])
    require(len(seen) == 1, '%d requests instead of one', len(seen))
    u = urlsplit(seen[0].url)
    require(u.netloc == 'weather.uwyo.edu' and u.path.startswith('/cgi-bin/sounding'), 'requested %s', seen[0].url)
    q = parse_qs(u.query)
    want = {'TYPE': 'TEXT:LIST', 'YEAR': '%04d' % t.year, 'MONTH': '%02d' % t.month, 'FROM': '%02d%02d' % (t.day, t.hour),
            'TO': '%02d%02d' % (t.day, t.hour), 'STNM': str(site(c))}
    for k, v in want.items():
        require(q.get(k) == [v], 'request has %s=%r instead of %r', k, q.get(k), v)


def judge(c, df):
    _, _, title = page(c)
    want = [r for r in c['levels'] if r[2] is not None and r[3] is not None]
    require(len(df) == len(want), '%d levels returned, the page has %d with temperature and dew point', len(df), len(want))
    require(list(df.index) == list(range(len(df))), 'levels are not numbered 0..n-1')
    for i, row in enumerate(want):
        for v, (k, _, _, _, s) in list(zip(row, COLS))[:6]:
            got = float(df[k].iloc[i])
            if v is None:
                require(math.isnan(got), 'level %d %s = %r, blank on the page', i, k, got)
            else:
                close(got, v / s, 1e-12, 1e-9, 'level %d %s' % (i, k))
    obs = dt.datetime.fromisoformat(c['obs'])
    for i in range(len(df)):
        require(df['station'].iloc[i] == (c['icao'] or ''), 'station %r', df['station'].iloc[i])
        require(df['station_number'].iloc[i] == c['number'], 'station number %r', df['station_number'].iloc[i])
        require(df['time'].iloc[i] == obs, 'time %r instead of %s', df['time'].iloc[i], obs)
        close(df['latitude'].iloc[i], c['lat'] / 100, 1e-12, 1e-9, 'latitude')
        close(df['longitude'].iloc[i], c['lon'] / 100, 1e-12, 1e-9, 'longitude')
        close(df['elevation'].iloc[i], c['elev'] / 10, 1e-12, 1e-9, 'elevation')
        require(df['title'].iloc[i] == title, 'title %r', df['title'].iloc[i])
    for k, u in {'pressure': 'hPa', 'height': 'meter', 'temperature': 'degC', 'dewpoint': 'degC', 'rh': '%',
                 'mixr': 'g/kg', 'latitude': 'degrees', 'longitude': 'degrees', 'elevation': 'meter'}.items():
        require(df.attrs['units'].get(k) == u, 'unit of %s is %r', k, df.attrs['units'].get(k))


@C.sub('page', pages(), quick=1600, thorough=40000, shards=8)
def sounding(c, ctx):
    a, b, _ = page(c)
    df, seen = ask(c, a + b)
    check_request(c, seen)
    judge(c, df)
    ctx.nontrivial(len(df) > 0)
    if len(df) < len(c['levels']):
        ctx.label('levels dropped')
    if not c['icao']:
        ctx.label('no identifier')


STATUS = st.one_of(st.sampled_from([201, 204, 206, 300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504]),
                   st.integers(201, 599))


@st.composite
def faults(draw):
    c = draw(pages())
    return dict(c, fault=draw(st.sampled_from(['status', 'nodata', 'cut', 'busy', 'stations'])), status=draw(STATUS),
                pos=draw(st.integers(0, 10 ** 6)), html=draw(st.booleans()), region=draw(st.sampled_from(['xx', 'europe'])))


@C.sub('faults', faults(), quick=800, thorough=20000, shards=8)
def faulty(c, ctx):
    import requests
    from pyrtlib.apiwebservices import WyomingUpperAir
    a, b, title = page(c)
    t = dt.datetime.fromisoformat(c['time'])
    f = c['fault']
    ctx.label(f)
    ctx.nontrivial()
    if f in ('status', 'stations'):
        ctype = 'text/html; charset=UTF-8' if c['html'] else 'text/plain'
        body = ((a + b) if f == 'status' else '<area title="16245  Pratica">').encode()
        with http.serve(lambda q: http.response(q, c['status'], body, ctype, 'The Reason')) as seen:
            try:
                if f == 'status':
                    r = WyomingUpperAir.request_data(t, site(c))
                else:
                    r = WyomingUpperAir.get_stations(c['region'])
            except requests.HTTPError as e:
                require(str(c['status']) in str(e), 'the error does not carry status %d: %s', c['status'], e)
                require(seen[-1].url in str(e), 'the error does not carry the address: %s', e)
                return
        require(False, 'HTTP status %d returned %d rows', c['status'], len(r))
    if f == 'nodata':
        body = "<HTML>\n<TITLE>University of Wyoming</TITLE>\n<BODY>\nCan't get %s.\n</BODY>\n</HTML>\n" % html.escape(title, False)
    elif f == 'busy':
        body = '<HTML>\n<BODY>\nSorry, the server is too busy to process your request.\n</BODY></HTML>'
    else:
        body = a[:c['pos'] % len(a)]
    try:
        df, _ = ask(c, body)
    except ValueError as e:
        if f == 'nodata':
            require(str(site(c)) in str(e) and '%04d-%02d-%02d' % (t.year, t.month, t.day) in str(e),
                    'the error names neither station nor date: %s', e)
        return
    except Exception as e:
        require(f != 'nodata', 'a page without data raised %r', e)
        return
    require(False, 'a page without (complete) sounding returned %d levels', len(df))


@st.composite
def lists(draw):
    ids = draw(st.lists(st.one_of(st.integers(1001, 98999).map(lambda n: '%05d' % n),
                                  st.from_regex(r'[A-Z]{3,4}', fullmatch=True)), min_size=0, max_size=8, unique=True))
    return {'region': draw(st.sampled_from(['naconf', 'samer', 'pac', 'nz', 'ant', 'np', 'europe', 'africa', 'seasia',
                                            'mideast', None])),
            'stations': [[i, draw(NAME) if draw(st.integers(0, 4)) else ''] for i in ids], 'untitled': draw(st.integers(0, 2)), 'gap': draw(st.integers(1, 3))}


@C.sub('stations', lists(), quick=600, thorough=10000)
def stations(c, ctx):
    from pyrtlib.apiwebservices import WyomingUpperAir
    areas = ['<area shape="circle" coords="1,2,3" href="javascript:g(\'%s\')" title="%s%s%s" alt="%s" />' % (
        i, i, ' ' * c['gap'] if n else '', n, n) for i, n in c['stations']]
    areas[len(areas) // 2:len(areas) // 2] = ['<area shape="rect" coords="0,0,1,1" href="x">'] * c['untitled']
    body = '<html><body><map name="raob">\n%s\n</map></body></html>' % '\n'.join(areas)
    with http.serve(lambda q: http.response(q, 200, body.encode(), 'text/html')) as seen:
        df = WyomingUpperAir.get_stations(c['region']) if c['region'] else WyomingUpperAir.get_stations()
    url = 'http://weather.uwyo.edu/upperair/%s.html' % (c['region'] or 'europe')
    require([q.url for q in seen] == [url], 'requested %s instead of %s', [q.url for q in seen], url)
    got = [[a, b] for a, b in zip(df['station_id'], df['station_name'])]
    require(got == c['stations'], 'stations %r instead of %r', got, c['stations'])
    ctx.nontrivial(len(got) > 0)


@st.composite
def options(draw):
    return {'verify': draw(st.sampled_from([None, True, False])),
            'auth': draw(st.one_of(st.none(), st.tuples(st.sampled_from(['u', 'name']), st.sampled_from(['p', 'x'])).map(list))),
            'params': draw(st.one_of(st.none(), st.just({'key': 'abc'}))), 'page': draw(pages())}


@C.sub('session', options(), quick=200, thorough=2000)
def session(c, ctx):
    """options set for sessions apply to every later request, and each request names the library"""
    import pyrtlib
    from pyrtlib.apiwebservices import webservices as ws
    import requests.auth
    p = c['page']
    a, b, _ = page(p)
    old = dict(ws.session_manager.options)
    opts = {}
    if c['verify'] is not None:
        opts['verify'] = c['verify']
    if c['auth']:
        opts['auth'] = tuple(c['auth'])
    if c['params']:
        opts['params'] = c['params']
    try:
        ws.session_manager.set_session_options(**opts)
        s = ws.session_manager.create_session()
        for k, v in opts.items():
            require(getattr(s, k) == v, 'option %s of the session is %r', k, getattr(s, k))
        df, seen = ask(p, a + b)
    finally:
        ws.session_manager.set_session_options(**old)
    q = seen[0]
    require('pyrtlib' in q.headers.get('User-Agent', ''), 'user agent %r', q.headers.get('User-Agent'))
    if c['auth']:
        want = requests.auth._basic_auth_str(*c['auth'])
        require(q.headers.get('Authorization') == want, 'credentials not sent')
    else:
        require('Authorization' not in q.headers, 'credentials sent without being set')
    if c['params']:
        require('key=abc' in q.url, 'parameters not sent: %s', q.url)
    judge(p, df)
    ctx.nontrivial(bool(opts))
