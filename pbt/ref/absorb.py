"""Independent reference of the gas/cloud absorption models, written from the published formulas
(Rosenkranz's model generations, MWL24) and evaluated on the line-list data files, which are read
here (as an own copy) with an own column table.  All results are in Np/km; every function also returns the
magnitude of the summed terms, from which comparison tolerances are derived."""
import os

import numpy as np

from ..core import HERE

H2O_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD',
              'R24', 'MWL24']
O2_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24']
O3_MODELS = ['R18', 'R22', 'R23']
N2_MODELS = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23',
             'R23SD', 'R24', 'MWL24']
LIQ_DEBYE = ['R98', 'R03']
LIQ_MODELS = ['R98', 'R03', 'R16', 'R17', 'R19', 'R20', 'R19SD', 'R22SD', 'R23', 'R23SD', 'R24']

RVAP_OLD = 0.01 * 8.31451 / 18.01528          # mb m3 / (g K)
NP_PER_DB = np.log(10.0) * 0.1

_LL = {}


def _group(species, model):
    """own copy of the published line lists (snapshot of the shipped data files)"""
    global _DATA
    if _DATA is None:
        d = np.load(os.path.join(HERE, 'pbt', 'data', 'lines.npz'))
        _DATA = {k: d[k] for k in d.files}
    pre = '%s/%s/' % (species, model)
    return {k[len(pre):]: v for k, v in _DATA.items() if k.startswith(pre)}


_DATA = None


def h2o_lines(model):
    key = ('h2o', model)
    if key in _LL:
        return dict(_LL[key])
    d = _group('h2o', model)
    m = d['mtx']
    ctr = d['ctr']
    r = dict(fl=m[:, 1], s1=m[:, 2], b2=m[:, 3], w0=m[:, 4] / 1e3, x=m[:, 5],
             reftline=float(d['reftline']), reftcon=ctr[0], cf=ctr[1], xcf=ctr[2], cs=ctr[3], xcs=ctr[4])
    if model in ('R03', 'R16', 'R17'):
        r.update(sr=m[:, 6], w0s=m[:, 7] / 1e3, xs=m[:, 8])
    else:
        r.update(w0s=m[:, 6] / 1e3, xs=m[:, 7])
    n = m.shape[1]
    if n >= 12:
        r.update(sh=m[:, 8] / 1e3, xh=m[:, 9], shs=m[:, 10] / 1e3, xhs=m[:, 11])
    if n >= 14:
        r.update(aair=m[:, 12], aself=m[:, 13])
    if n == 16:
        r.update(w2=m[:, 14] / 1e3, w2s=m[:, 15] / 1e3)
    if n == 20:
        r.update(w2=m[:, 14] / 1e3, xw2=m[:, 15], w2s=m[:, 16] / 1e3, xw2s=m[:, 17], d2=m[:, 18] / 1e3,
                 d2s=m[:, 19] / 1e3)
    if 'd2air' in d:
        r.update(d2air=float(d['d2air']), d2self=float(d['d2self']))
    _LL[key] = r
    return dict(r)


def o2_lines(model):
    key = ('o2', model)
    if key not in _LL:
        _LL[key] = {k: (v if v.ndim else float(v)) for k, v in _group('o2', model).items()}
    return dict(_LL[key])


def o3_lines(model):
    key = ('o3', model)
    if key not in _LL:
        d = _group('o3', model)
        m = d['mtx']
        _LL[key] = dict(fl=m[:, 1], s1=m[:, 2], b=m[:, 3], w=m[:, 4] / 1e3, x=m[:, 5], sr=m[:, 6],
                        reftline=float(d['reftline']))
    return dict(_LL[key])


# ------------------------------------------------------------------ complex error function
_HA = np.array([122.607931777104326, 214.382388694706425, 181.928533092181549, 93.155580458138441,
                30.180142196210589, 5.912626209773153, 0.564189583562615])
_HB = np.array([122.607931773875350, 352.730625110963558, 457.334478783897737, 348.703917719495792,
                170.354001821091472, 53.992906912940207, 10.479857114260399, 1.0])


def hui(x, y):
    """Hui, Armstrong & Wray (1978), p=6 rational approximation of w(x+iy)."""
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    z = np.abs(y) - 1j * x
    w = np.polyval(_HA[::-1], z) / np.polyval(_HB[::-1], z)
    with np.errstate(all='ignore'):
        return np.where(y >= 0, w, 2.0 * np.exp(-(x + 1j * y) ** 2) - w)


def _sd_shape(width0, dfreq, width2, delta2):
    """speed-dependent resonant shape (real part) before subtraction of the base"""
    q = width2 - 1j * delta2
    xc = ((width0 - 1.5 * width2) + 1j * (dfreq + 1.5 * delta2)) / q
    xrt = np.sqrt(xc)
    pxw = 1.77245385090551603 * xrt * hui(-xrt.imag, xrt.real)
    return np.real(2.0 * (1.0 - pxw) / q), np.abs(pxw / q)


# ------------------------------------------------------------------ water vapour
def h2o(model, p, t, e, f, ll=None):
    """Returns (line, continuum, scale) in Np/km.  p total pressure (mb), e vapour pressure (mb)."""
    L = ll or h2o_lines(model)
    if e <= 0:
        return 0.0, 0.0, 0.0
    rho = e / (RVAP_OLD * t)                  # g/m3
    if model in ('R98', 'R03', 'R16', 'R17'):
        pv = rho * t / 217.0
    elif model in ('R22SD', 'R23SD', 'R24', 'MWL24'):
        pv = 461.52e-5 * rho * t
    else:
        pv = rho * t / 216.68
    pd = p - pv
    th = 300.0 / t
    # ---- continuum
    tc = L['reftcon'] / t
    if model in ('R98', 'R03'):
        con = (5.43e-10 * pd * tc ** 3 + 1.8e-8 * pv * tc ** 7.5) * pv * f ** 2
    elif model == 'MWL24':
        con = _mwl24_self(f, t) * pv ** 2 + 7.1e-10 * th ** 4.4 * f ** 1.96 * pd * pv
    elif model in ('R23SD', 'R24'):
        tl = L['reftline'] / t
        if L['cs'] > 0:
            cself = L['cs'] * tl * L['xcs']
        else:
            cself = _mtckd_self(f, t)
        con = (L['cf'] * tl ** L['xcf'] * pd + cself * pv) * pv * f ** 2
    else:
        con = (L['cf'] * pd * tc ** L['xcf'] + L['cs'] * pv * tc ** L['xcs']) * pv * f ** 2
    # ---- lines
    ti = L['reftline'] / t
    fl = L['fl']
    wf = L['w0'] * pd * ti ** L['x']
    ws = L['w0s'] * pv * ti ** L['xs']
    w = wf + ws
    lg = np.log(ti)
    if model == 'R98':
        shift = np.zeros_like(fl)
    elif model == 'R03':
        shift = L['sr'] * w
    elif model in ('R16', 'R17'):
        shift = L['sr'] * wf
    else:
        ca = (1 - L['aair'] * lg) if 'aair' in L else 1.0
        cs_ = (1 - L['aself'] * lg) if 'aself' in L else 1.0
        shift = L['sh'] * pd * ca * ti ** L['xh'] + L['shs'] * pv * cs_ * ti ** L['xhs']
    s = L['s1'] * ti ** 2.5 * np.exp(L['b2'] * (1 - ti))
    base = w / (562500.0 + w ** 2)
    d1 = f - fl - shift
    d2 = f + fl + shift
    res = np.zeros_like(fl)
    mag = np.zeros_like(fl)
    for k, d in enumerate((d1, d2)):
        lor = w / (d ** 2 + w ** 2)
        term = np.where(np.abs(d) < 750.0, lor - base, 0.0)
        tm = np.where(np.abs(d) < 750.0, lor + base, 0.0)
        if k == 0 and model.endswith('SD') or k == 0 and model in ('R24', 'MWL24'):
            if 'xw2' in L:
                w2 = np.where(L['w2'] > 0, L['w2'] * pd * ti ** L['xw2'] + L['w2s'] * pv * ti ** L['xw2s'], 0.0)
                dl2 = L['d2'] * pd + L['d2s'] * pv
            else:
                w2 = L['w2'] * pd + L['w2s'] * pv
                dl2 = np.zeros_like(fl)
                if 'd2air' in L:
                    dl2[1] = L['d2air'] * pd + L['d2self'] * pv
            use = (w2 > 0) & (np.abs(d) < 10 * w)
            if np.any(use):
                sd, m = _sd_shape(w[use], d[use], w2[use], dl2[use])
                term = term.copy()
                tm = tm.copy()
                term[use] = sd - base[use]
                tm[use] = m + base[use]
        res += term
        mag += tm
    terms = s * (f / fl) ** 2
    if model in ('R22SD', 'R23SD', 'R24'):
        k = 1e-10 * rho / 2.9915075e-23 / np.pi
    else:
        k = 3.1831e-5 * (3.335e16 if model in ('R98', 'R03', 'R16') else 3.344e16) * rho
    return k * float(np.sum(terms * res)), con, k * float(np.sum(terms * mag)) + abs(con)


def _mtckd_self(f, t):
    """MT_CKD 4.1 self continuum, cubic interpolation on a 10 cm-1 grid (1/(km mb2 GHz2))."""
    sc = np.array([2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21])
    ex = np.array([6.413, 6.414, 6.275, 6.049, 5.789, 5.557])
    a = 6.532e12 * sc * (296.0 / t) ** (ex + 3.0)
    a = np.concatenate(([a[1]], a))           # value at -1 mirrors +1
    u = f / 299.792458
    j = min(int(np.floor(u)), 4)
    q = u - j
    c = (3 - 2 * q) * q * q
    b = 0.5 * q * (1 - q)
    return -a[j] * b * (1 - q) + a[j + 1] * (1 - c + b * q) + a[j + 2] * (c + b * (1 - q)) - a[j + 3] * b * q


def _mwl24_self(f, t):
    atm = 1013.25
    bc = [-7.804242E+6, 8.345651E+4, -4.212794E+2, 1.242946, -2.409822E-3, 3.017768E-6, -2.518957E-9,
          1.350628E-12, -4.134191E-16, 5.530774E-20]
    bt = -(100.0 / t) ** 6 * sum(c * t ** i for i, c in enumerate(bc))
    kbd = 4.7856e-4 * np.exp(1669.8 / t - 5.10485e-3 * t)
    kmd = ((bt - 30.5) / (82.05746 * t) - kbd) / atm
    kbd = kbd / atm
    bd = (5.55e-8 / (434.8 ** 2 + (f - 219.5) ** 2) + 4.93e-10 / (21.06 ** 2 + f * f) + 1.34e-14) * (268.0 / t) ** 10
    s2 = 1e-13 * (4.06 + 7.12e-3 * f) / atm
    md = (s2 * 0.3 * (266.0 / t) ** 2.9 + 0.7 * bd / kbd) * kmd
    fw = 8.5e-15 * f ** 2.2 * (296.0 / t) ** 1.5
    return ((bd + md) * f * f + fw) * 1e5


# ------------------------------------------------------------------ oxygen
def o2(model, p, t, e, f, ll=None):
    """Returns (total, scale) in Np/km."""
    L = ll or o2_lines(model)
    th = 300.0 / t
    th1 = th - 1.0
    rho = e / (RVAP_OLD * t)
    if model in ('R98', 'R03', 'R16', 'R17', 'R18'):
        pv = rho * t / 217.0
    elif model in ('R22', 'R23', 'R24'):
        pv = 4.615228e-3 * rho * t
    else:
        pv = rho * t / 216.68
    pd = p - pv
    B = th ** L['x']
    w2a = L.get('w2a', 1.1 if model in ('R98', 'R03', 'R16') else 1.2)
    snr = L.get('snr', 1.6e-17 if model in ('R98', 'R03') else 1.584e-17)
    if model == 'R98':
        den = 1e-3 * (pd + w2a * pv) * th
    elif model == 'R03':
        den = 1e-3 * (pd * th ** 0.9 + w2a * pv * th)
    else:
        den = 1e-3 * (pd * B + w2a * pv * th)
    fl = L['f']
    n = len(fl)
    nr = L['wb300'] * den
    nonres = snr * f * f * nr / (th * (f * f + nr * nr))
    w = L['w300'] * den
    boltz = L['s300'] * np.exp(-L['be'] * th1)

    def lorentz(w, g, y, fc):
        a = (w * g + (f - fc) * y) / ((f - fc) ** 2 + w ** 2)
        b = (w * g - (f + fc) * y) / ((f + fc) ** 2 + w ** 2)
        m = (np.abs(w * g) + np.abs((f - fc) * y)) / ((f - fc) ** 2 + w ** 2) + \
            (np.abs(w * g) + np.abs((f + fc) * y)) / ((f + fc) ** 2 + w ** 2)
        return a, b, m

    def sd118(fc, w0, y0):
        """speed-dependent shape of the isolated 118 GHz line"""
        w2 = 0.076 * w0
        xc = ((w0 - 1.5 * w2) + 1j * (f - fc)) / w2
        xr = np.sqrt(xc)
        pxw = 1.77245385090551603 * xr * complex(hui(-xr.imag, xr.real))
        return float(np.real((1 + 1j * y0) * 2.0 * (1 - pxw) / w2)), abs(pxw / w2)

    if model in ('R98', 'R03'):
        y = 1e-3 * p * B * (L['y300'] + L['v'] * th1)
        a, b, m = lorentz(w, 1.0, y, fl)
        c = boltz * (f / fl) ** 2
        k = 5.034e11 * pd * th ** 3 / 3.14159
        tot = k * np.sum(c * (a + b))
        if model == 'R03':
            tot = max(tot, 0.0)
        nrt = snr * f * f * nr / (th * (f * f + nr * nr)) * k
        return tot + nrt, k * np.sum(c * m) + nrt
    k = 1.6097e11 * pd * th ** 3
    if model in ('R17', 'R18', 'R19', 'R19SD'):
        y = den * (L['y300'] + L['v'] * th1)
        a, b, m = lorentz(w, 1.0, y, fl)
        c = boltz * (f / fl) ** 2
        lines, mag = np.sum(c * (a + b)), np.sum(c * m)
        if model in ('R17', 'R18'):           # non-resonant part added after clipping
            return max(k * lines, 0.0) + k * nonres, k * (mag + nonres)
        return max(k * (lines + nonres), 0.0), k * (mag + nonres)
    if model in ('R16', 'R20', 'R20SD', 'R22'):
        pe2 = den ** 2
        y = den * (L['y0'] + L['y1'] * th1)
        g = 1 + pe2 * (L['g0'] + L['g1'] * th1)
        fc = fl + pe2 * (L['dnu0'] + L['dnu1'] * th1)
        a, b, m = lorentz(w, g, y, fc)
        c = boltz * (f / fl) ** 2
        lines, mag = np.sum(c * (a + b)), np.sum(c * m)
        if model == 'R16':
            return max(k * lines, 0.0) + k * nonres, k * (mag + nonres)
        return 1.004 * max(k * (lines + nonres), 0.0), k * (mag + nonres)
    band = slice(1, 38)
    if model == 'R23':
        pe1 = 0.99 * den
        pe2 = pe1 ** 2
        a_ = boltz / fl ** 2
        gg = L['g0'] + L['g1'] * th1
        off = np.sum((a_ * gg)[band]) / np.sum(a_[band])
        g = np.ones(n)
        g[band] = 1 + pe2 * (gg[band] - off)
        y = pe1 * (L['y300'] + L['y1'] * th1)
        start = snr / th * nr / (f * f + nr * nr)
        kk = 1.6097e11 * pd * f * f * th ** 3
    else:                                     # R24
        pe1 = den
        pe2 = pe1 ** 2
        a_ = boltz * th / fl ** 2
        y0 = 0.99 * (L['y300'] + L['y1'] * th1)
        sumy = snr * L['wb300'] + 2 * np.sum((a_ * (L['w300'] + y0 * fl))[:38])
        gg = L['g0'] + L['g1'] * th1
        ratio = np.sum((a_ * gg)[band]) / np.sum(a_[band] ** 2)
        bias = sumy / (2 * np.sum(a_[band]))
        y0 = y0.copy()
        y0[band] -= bias / fl[band]
        y = pe1 * y0
        g = np.ones(n)
        g[band] = 1 + pe2 * (gg[band] - a_[band] * ratio)
        w = L['w300'] * pe1
        nr = L['wb300'] * pe1
        start = snr * nr / (f * f + nr * nr)
        kk = 1.6097e11 * pd * (f * th) ** 2
    fc = fl + pe2 * (L['dnu0'] + L['dnu1'] * th1)
    a, b, m = lorentz(w, g, y, fc)
    if abs(f - fc[0]) < 10 * w[0]:
        a = a.copy()
        a[0], extra = sd118(fc[0], w[0], y[0])
        m = m.copy()
        m[0] += extra * (1 + abs(y[0]))
    c = a_ * (a + b)
    if model == 'R23':
        tot = max(start + np.sum(c[:38]), 0.0) + np.sum(c[38:])
    else:
        tot = start + np.sum(c)
    return max(kk * tot, 0.0), kk * (start + np.sum(a_ * m))


# ------------------------------------------------------------------ nitrogen, ozone, liquid, ice
def n2(model, pd, t, f):
    th = 300.0 / t
    fd = 0.5 + 0.5 / (1 + (f / 450.0) ** 2)
    if model == 'R98':
        return 6.4e-14 * pd ** 2 * f ** 2 * th ** 3.55
    if model == 'R03':
        return 1.29 * 6.5e-14 * fd * pd ** 2 * f ** 2 * th ** 3.6
    if model in ('R16', 'R17', 'R18', 'R19', 'R19SD'):
        return 1.34 * 6.5e-14 * fd * pd ** 2 * f ** 2 * th ** 3.6
    if model == 'MWL24':
        kb = 0.6950354549

        def pot(T):
            d = 108.0 / (kb * T)
            return np.exp(d) - 1 - d
        spec = 1.754e-18 * 0.5 * (1 + 1.033 * (1 + 0.1510 / (1 + ((f - 358.0) / 127.0) ** 2)) /
                                  (1 + ((f - 44.0) / 568.0) ** 2) + 0.1420 * np.exp(-(f / 92.0 - 1) ** 2))
        m0 = 1.4359 - 0.0005385 * f + 1.6182e-7 * f ** 2 + 1.8845e-10 * f ** 3
        aa = 0.07988 - 0.0005165 * f + 1.131e-6 * f ** 2 - 5.738e-10 * f ** 3
        return 0.84e5 * spec * th ** (m0 + aa * np.log(th)) * pot(t) / pot(300.0) * (pd * 0.7500616827) ** 2 * f ** 2
    return 9.95e-14 * fd * pd ** 2 * f ** 2 * th ** 3.22


def o3(model, p, t, f, nd, ll=None, exact=False):
    L = ll or o3_lines(model)
    if nd <= 0:
        return 0.0
    ti = L['reftline'] / t
    sel = (L['fl'] <= f + 1.0) & (L['fl'] >= f - 1.0)
    if not np.any(sel):
        return 0.0
    fl, s1, b, w, x = (L[k][sel] for k in ('fl', 's1', 'b', 'w', 'x'))
    wc = w * p * ti ** x
    s = s1 * np.exp(b * (1 - ti))
    if model == 'R22':
        bd = 0.62065e-7 * fl * np.sqrt(t)
        if exact:
            from scipy.special import wofz
            shape = np.real(wofz((fl - f) / bd + 1j * wc / bd)) / bd
        else:
            shape = np.real(hui((fl - f) / bd, wc / bd)) / bd
        k = 0.56419e-4
    else:
        b2 = 3.85e-15 * t * fl ** 2
        wd = 0.5346 * wc + np.sqrt(0.2166 * wc ** 2 + 0.6931 * b2)
        shape = (f / fl) ** 2 * wd / ((f - fl) ** 2 + wd ** 2)
        k = 3.183e-5
    return k * float(np.sum(s * shape)) * (1 - np.exp(-1008.0 / t)) * ti ** 2.5 * 1e-6 * nd


def water_permittivity(f, t):
    """Patek static + Ellison Debye + Rosenkranz (2015) B band; imaginary part negative."""
    tc = t - 273.15
    th = 300.0 / t
    es = -43.7527 * th ** 0.05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    z = 1j * f
    g = 1164.023 * np.exp(-651.4728 / (tc + 133.07))
    k = es - 80.69715 * np.exp(-tc / 226.45) * z / (g + z)
    d = 4.008724 * np.exp(-tc / 103.05)
    f1 = np.polyval([0.00093786645, 0.063267156, 0.1454962, 10.46012], tc)
    z1 = (-0.75 + 1j) * f1
    z2 = -4500.0 + 2000.0j
    cn = np.log(z2 / z1)
    b = 0.5 * d * (np.log((z - z2) / (z - z1)) / cn + np.log((z - np.conj(z2)) / (z - np.conj(z1))) / np.conj(cn))
    return k + b - d


def liquid(model, water, f, t):
    if water <= 0:
        return 0.0
    if model in LIQ_DEBYE:
        q = 1 - 300.0 / t
        e0 = 77.66 - 103.3 * q
        e1 = 0.0671 * e0
        e2 = 3.52
        fp = 20.1 * np.exp(7.88 * q) if model == 'R03' else (316.0 * q + 146.4) * q + 20.2
        fs = 39.8 * fp
        eps = (e0 - e1) / (1 + 1j * f / fp) + (e1 - e2) / (1 + 1j * f / fs) + e2
    else:
        eps = water_permittivity(f, t)
    return float(-0.06286 * np.imag((eps - 1) / (eps + 2)) * f * water)


def ice(density, f):
    """Westwater (1972) ice cloud absorption, Np/km; density g/m3."""
    if density <= 0:
        return 0.0
    wave = 299792458.0 * 100 / (f * 1e9)       # cm
    return 8.18645 / wave * density * 0.000959553 * NP_PER_DB
