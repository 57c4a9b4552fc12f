"""ITU-R P.835-6 reference atmospheres, written from the Recommendation (scalar code, one height at a time)."""
import math


def poly(h, *c):
    return sum(a * h ** i for i, a in enumerate(c))


# ---- section 1: mean annual global reference atmosphere
def std_temperature(h):
    g = 6356.766 * h / (6356.766 + h)
    if h >= 91:
        return 263.1905 - 76.3232 * math.sqrt(1 - ((h - 91) / 19.9429) ** 2)
    if h >= 86:
        return 186.8673
    for lo, t0, a in ((71, 214.65, -2.0), (51, 270.65, -2.8), (47, 270.65, 0.0), (32, 228.65, 2.8), (20, 216.65, 1.0),
                      (11, 216.65, 0.0), (-1, 288.15 + 6.5, -6.5)):
        if g > lo:
            return t0 + a * (g - lo)


def std_pressure(h):
    g = 6356.766 * h / (6356.766 + h)
    if h >= 86:
        return math.exp(poly(h, 95.571899, -4.011801, 6.424731e-2, -4.789660e-4, 1.340543e-6))
    k = 34.1632
    if g > 71:
        return 0.03956649 * (1 - 2.0 * (g - 71) / 214.65) ** (k / 2.0)
    if g > 51:
        return 0.6694167 * (1 - 2.8 * (g - 51) / 270.65) ** (k / 2.8)
    if g > 47:
        return 1.109106 * math.exp(-k * (g - 47) / 270.65)
    if g > 32:
        return 8.680422 * (1 + 2.8 * (g - 32) / 228.65) ** (-k / 2.8)
    if g > 20:
        return 54.74980 * (1 + (g - 20) / 216.65) ** (-k)
    if g > 11:
        return 226.3226 * math.exp(-k * (g - 11) / 216.65)
    return 1013.25 * (1 - 6.5 * g / 288.15) ** (k / 6.5)


# ---- sections 2-4: latitude bands.  T: list of (lower edge, function); p: parabola, scale heights; rho: polynomial, top
BANDS = {
    'low': dict(
        t=[(80, lambda h: 184.0), (52, lambda h: 270 - 3.0714 * (h - 52)), (47, lambda h: 270.0),
           (17, lambda h: 194 + 2.533 * (h - 17)), (0, lambda h: poly(h, 300.4222, -6.3533, 0.005886))],
        p=(1012.0306, -109.0338, 3.6316, 284.8526, 0.147, 0.0313660, 0.165),
        w=(19.6542, (0, -0.2313, -0.1122, 0.01351, -0.0005923), 15)),
    ('mid', 'summer'): dict(
        t=[(80, lambda h: 175.0), (53, lambda h: 275 + 20 * (1 - math.exp(0.06 * (h - 53)))), (47, lambda h: 275.0),
           (17, lambda h: 215.15 * math.exp(0.008128 * (h - 17))), (13, lambda h: 215.15),
           (0, lambda h: poly(h, 294.9838, -5.2159, -0.07109))],
        p=(1012.8186, -111.5569, 3.8646, 283.7096, 0.147, 0.03124022, 0.165),
        w=(14.3542, (0, -0.4174, -0.02290, 0.001007), 15)),
    ('mid', 'winter'): dict(
        t=[(80, lambda h: 210.0), (53, lambda h: 265 - 2.0370 * (h - 53)), (47, lambda h: 265.0),
           (33, lambda h: 218 + 3.3571 * (h - 33)), (10, lambda h: 218.0),
           (0, lambda h: poly(h, 272.7241, -3.6217, -0.1759))],
        p=(1018.8627, -124.2954, 4.8307, 258.9787, 0.147, 0.02851702, 0.155),
        w=(3.4742, (0, -0.2697, -0.03604, 0.0004489), 10)),
    ('high', 'summer'): dict(
        t=[(79, lambda h: 171.0), (53, lambda h: 277 - 4.0769 * (h - 53)), (48, lambda h: 277.0),
           (23, lambda h: 225 * math.exp(0.008317 * (h - 23))), (10, lambda h: 225.0),
           (0, lambda h: poly(h, 286.8374, -4.7805, -0.1402))],
        p=(1008.0278, -113.2494, 3.9408, 269.6138, 0.140, 0.04582115, 0.165),
        w=(8.988, (0, -0.3614, -0.005402, -0.001955), 15)),
    ('high', 'winter'): dict(
        t=[(54, lambda h: 260 - 1.667 * (h - 54)), (50, lambda h: 260.0), (30, lambda h: 217.5 + 2.125 * (h - 30)),
           (8.5, lambda h: 217.5), (0, lambda h: poly(h, 257.4345, 2.3474, -1.5479, 0.08473))],
        p=(1010.8828, -122.2411, 4.554, 243.8718, 0.147, 0.02685355, 0.150),
        w=(1.2319, (0, 0.07481, -0.0981, 0.00281), 10)),
}


def band(lat, season):
    a = abs(lat)
    return BANDS['low'] if a < 22 else BANDS['mid' if a < 45 else 'high', season]


def temperature(lat, h, season):
    for lo, fn in band(lat, season)['t']:
        if h >= lo:
            return fn(h)


def pressure(lat, h, season):
    a, b, c, p10, k1, p72, k2 = band(lat, season)['p']
    if h <= 10:
        return poly(h, a, b, c)
    return p10 * math.exp(-k1 * (h - 10)) if h <= 72 else p72 * math.exp(-k2 * (h - 72))


def density(lat, h, season):
    s, c, top = band(lat, season)['w']
    return s * math.exp(poly(h, *c)) if h <= top else 0.0
