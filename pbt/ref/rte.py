"""Independent reference of the radiative-transfer chain (clear and cloudy sky)."""
import numpy as np

from . import absorb

H = 6.6260755e-34
KB = 1.380658e-23
TCOSMIC = 2.728
RE = 6370.949
RVAP = 461.52e-5
EXPMAX = 125.0


def es_water(t):
    """Goff-Gratch saturation pressure over water (mb), normal boiling point 373.16 K."""
    r = 373.16 / np.asarray(t, dtype=float)
    lg = (-7.90298 * (r - 1) + 5.02808 * np.log10(r) - 1.3816e-7 * (10 ** (11.344 * (1 - 1 / r)) - 1)
          + 8.1328e-3 * (10 ** (-3.49149 * (r - 1)) - 1) + np.log10(1013.246))
    return 10 ** lg


def es_ice(t, t0=273.16):
    """Goff-Gratch saturation vapour pressure over ice (mb)"""
    y = t0 / np.asarray(t, dtype=float)
    return 10 ** (-9.09718 * (y - 1) - 3.56654 * np.log10(y) + 0.876793 * (1 - 1 / y) + np.log10(6.1071))


def vapor(t, rh, ice=False):
    """vapour pressure (mb) and density (g/m3); with ice, over ice below 263.16 K"""
    es = es_water(t)
    if ice:
        es = np.where(np.asarray(t, dtype=float) < 263.16, es_ice(t), es)
    e = np.asarray(rh, dtype=float) * es
    return e, e / (RVAP * np.asarray(t, dtype=float))


def refractivity(p, t, e):
    """Thayer (1974): dry, wet refractivity, refractive index."""
    p, t, e = (np.asarray(a, dtype=float) for a in (p, t, e))
    pa = p - e
    tc = t - 273.16
    zd = 1 + pa * (5.79e-7 * (1 + 0.52 / t) - 0.00094611 * tc / t ** 2)
    zw = 1 + 1650.0 * (e / t ** 3) * (1 - 0.01317 * tc + 0.000175 * tc ** 2 + 1.44e-6 * tc ** 3)
    dry = 77.6036 * pa / t * zd
    wet = (64.79 * e / t + 377600.0 * e / t ** 2) * zw
    return dry, wet, 1 + 1e-6 * (dry + wet)


def layer_mean(a, b, zeroflg):
    """mean of a quantity decaying exponentially between two levels"""
    if abs(b - a) < 1e-9:
        return b
    if a == 0 or b == 0:
        return 0.5 * (a + b) if zeroflg else 0.0
    return (b - a) / np.log(b / a)


def integrate(x, ds, zeroflg=True):
    """per-layer integrals (index i = layer i-1..i), 0 at index 0"""
    out = np.zeros(len(x))
    for i in range(1, len(x)):
        if x[i] < 0 or x[i - 1] < 0:      # integration stops at a negative value (1998 oxygen)
            break
        out[i] = layer_mean(x[i - 1], x[i], zeroflg) * ds[i]
    return out


def rounding(x, ds):
    """bound on the rounding of the layer means: (b-a)/log(b/a) loses digits as b approaches a, down to the
    1e-9 below which the library takes b; the last digits of x therefore count for eps*x/|b-a| of the mean"""
    x = np.asarray(x, dtype=float)
    d = np.abs(np.diff(x))
    m = np.maximum(np.abs(x[1:]), np.abs(x[:-1]))
    with np.errstate(all='ignore'):
        r = np.where(d > 0, 8 * 2.3e-16 * m / np.maximum(d, 1e-9 - 1e-13), 0.0)
    return float(np.sum(np.minimum(r, 1.0) * m * np.abs(np.asarray(ds)[1:])))


def plane_path(z, angle):
    return np.concatenate(([0.0], np.diff(z) / np.sin(np.radians(angle))))


def ray_path(z, n, angle, z0, radius='observer'):
    """Dutton-Thayer-Westwater slant path (z above antenna, km).  radius='level' reproduces known finding
    C08-radius: the library takes the level's instead of the observer's radius in sin(theta/2)."""
    nl = len(z)
    ds = np.zeros(nl)
    if 89 <= abs(angle) <= 91:
        ds[1:] = np.diff(z)
        return ds
    th0 = np.radians(angle)
    rs = RE + z[0] + z0
    phi_l = 0.0
    tau_l = 0.0
    rl = rs
    tan_l = np.tan(th0)
    for i in range(1, nl):
        r = RE + z[i] + z0
        if n[i] == n[i - 1] or n[i] == 1.0 or n[i - 1] == 1.0:
            nbar = 0.5 * (n[i] + n[i - 1])
        else:
            nbar = 1 + (n[i - 1] - n[i]) / np.log((n[i - 1] - 1) / (n[i] - 1))
        arg = z[i] / rs - (n[0] - n[i]) * np.cos(th0) / n[i]
        a = 0.5 * (2 * np.sin(th0 / 2) ** 2 + arg) / r
        if a <= 0:
            return ds
        s = np.sqrt((rs if radius == 'observer' else r) * a)
        th = 2 * np.arcsin(s)
        if th - 2 * th0 <= 0:
            d4 = (0.5 * arg - z[i] * a) / (2 * (s + np.sin(th0 / 2)) * np.cos(0.25 * (th + th0)))
            dth = 4 * np.arcsin(d4)
            th = th0 + dth
        else:
            dth = th - th0
        tan_i = np.tan(th)
        dtau = 0.5 * (1 / tan_i + 1 / tan_l) * (n[i - 1] - n[i]) / nbar
        tau = tau_l + dtau
        phi = dth + tau
        chord = np.sqrt((z[i] - z[i - 1]) ** 2 + 4 * r * rl * np.sin(0.5 * (phi - phi_l)) ** 2)
        d = abs(tau - tau_l)
        ds[i] = chord * (d / (2 * np.sin(0.5 * d)) if dtau != 0 else 1.0)
        phi_l, tau_l, rl, tan_l = phi, tau, r, tan_i
    return ds


def ray_path_snell(z, n, angle, z0, sub=400):
    """Slant path by direct quadrature of spherical Snell's law (n-1 exponential per layer)."""
    ds = np.zeros(len(z))
    r0 = RE + z0 + z[0]
    c = n[0] * r0 * np.cos(np.radians(angle))
    for i in range(1, len(z)):
        x = (np.arange(sub) + 0.5) / sub
        r = RE + z0 + z[i - 1] + x * (z[i] - z[i - 1])
        if n[i] > 1 and n[i - 1] > 1:
            nn = 1 + (n[i - 1] - 1) * ((n[i] - 1) / (n[i - 1] - 1)) ** x
        else:
            nn = n[i - 1] + x * (n[i] - n[i - 1])
        q = c / (nn * r)
        ds[i] = np.mean(1 / np.sqrt(1 - q * q)) * (z[i] - z[i - 1])
    return ds


def hvk(f):
    return f * 1e9 * H / KB


def bt(f, t):
    return 1.0 / np.expm1(hvk(f) / t)


def inv_bt(f, b):
    if b == 0:
        return 0.0
    return hvk(f) / np.log1p(1.0 / b)


def layer_radiance(near, far, tau):
    """linear-in-tau free layer formula of Schroeder & Westwater: near = side facing the observer"""
    x = np.exp(-tau)
    return (near + far * x) / (1 + x) * (1 - x)


def solve(f, t, taulay, from_sat, emissivity=1.0):
    """Returns dict with total/atmospheric/mean radiances and the cumulative profiles."""
    nl = len(t)
    b = bt(f, np.asarray(t, dtype=float))
    cum = np.zeros(nl)
    atm = np.zeros(nl)
    if from_sat:
        order = list(range(nl - 1, -1, -1))
    else:
        order = list(range(nl))
    for j in range(1, nl):
        prev, cur = order[j - 1], order[j]
        tl = taulay[max(prev, cur)]
        atm[cur] = atm[prev] + layer_radiance(b[prev], b[cur], tl) * np.exp(-cum[prev])
        cum[cur] = cum[prev] + tl
    end = order[-1]
    tot_tau = cum[end]
    if tot_tau < EXPMAX:
        bg = emissivity * bt(f, t[0]) if from_sat else bt(f, TCOSMIC)
        bk = bg * np.exp(-tot_tau)
        tot = bk + atm[end]
        with np.errstate(all='ignore'):
            mr = atm[end] / (1 - np.exp(-tot_tau))
    else:
        bk, tot, mr = 0.0, atm[end], atm[end]
    return dict(total=tot, atm=atm, mr=mr, cum=cum, b=b, bk=bk)


def absorption(models, p, t, e, f, o3n=None):
    """awet, adry profiles (Np/km). models: dict h2o,o2,n2,o3"""
    wet = np.array([sum(absorb.h2o(models['h2o'], p[i], t[i], e[i], f)[:2]) for i in range(len(p))])
    dry = np.array([absorb.o2(models['o2'], p[i], t[i], e[i], f)[0] for i in range(len(p))])
    if models.get('n2'):
        dry = dry + np.array([absorb.n2(models['n2'], p[i] - e[i], t[i], f) for i in range(len(p))])
    if o3n is not None and models.get('o3'):
        dry = dry + np.array([absorb.o3(models['o3'], p[i], t[i], f, o3n[i]) for i in range(len(p))])
    return wet, dry
