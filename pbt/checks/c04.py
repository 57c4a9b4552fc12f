"""C04 clear-sky absorption separates by constituent and by level."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite
from .. import gen, lib
from ..ref import absorb, rte
from .c01 import tolerance

C = Check('C04', rule='A case is a profile of 1-8 levels in any order, a model selection, 1-3 frequencies, an optional ozone '
          'profile (with or without an ozone model) and a level permutation. Non-trivial: at least 2 levels, and vapour '
          'or ozone present.',
          assumptions=['states as in C01/C02; the ozone tolerance is that of C03'])


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    dry = draw(st.sampled_from(['all', 'none', 'mixed', 'all']))
    lev = []
    for _ in range(n):
        s = draw(gen.state())
        if dry == 'none' or (dry == 'mixed' and draw(st.booleans())):
            s['e'] = 0.0
        lev.append([s['p'], s['t'], s['e']])
    for i in range(1, n):       # a level that only just differs from an earlier one, in one or all of its values
        if draw(st.integers(0, 4)) == 4:
            j, k = draw(st.integers(0, i - 1)), draw(st.integers(0, 3))
            f = 1.0 + draw(st.sampled_from([-1.0, 1.0])) * draw(gen.logfl(1e-9, 1e-3, 3))
            lev[i] = [v * (f if k in (q, 3) else 1.0) for q, v in enumerate(lev[j])]
    o3 = draw(st.sampled_from(['', 'R18', 'R22', 'R23']))
    o3n = draw(st.one_of(st.none(), st.lists(st.one_of(st.just(0.0), gen.logfl(1e14, 1e19)), min_size=n, max_size=n)))
    m = draw(gen.models())
    fr = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['any', 'h2o', 'o2', 'o3']))
        if k == 'any':
            fr.append(draw(gen.frequency()))
        elif k == 'o3':
            L = absorb.o3_lines(o3 or 'R22')['fl']
            L = L[(L > 1) & (L < 999)]
            c = float(L[draw(st.integers(0, len(L) - 1))])
            fr.append(gen.rnd(max(1.0, c + draw(gen.fl(-0.9, 0.9))), 10))
        else:
            fr.append(draw(gen.line_frequency(k, m[k])))
    return {'lev': lev, 'models': m, 'o3': o3, 'o3n': o3n, 'f': fr, 'perm': draw(st.permutations(list(range(n))))}


def profiles(lev, f, o3n):
    from pyrtlib.rt_equation import RTEquation
    p, t, e = (np.array([x[i] for x in lev]) for i in range(3))
    return RTEquation.clearsky_absorption(p, t, e, np.float64(f), None if o3n is None else np.array(o3n, dtype=float))


@C.sub('separation', cases(), quick=1500, thorough=30000)
def separation(c, ctx):
    from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
    m, lev, o3n = c['models'], c['lev'], c['o3n']
    lib.select(h2o=m['h2o'], o2=m['o2'], n2=m['n2'], o3=c['o3'])
    n = len(lev)
    for f in c['f']:
        wet, dry = profiles(lev, f, o3n)
        require(wet.shape == (n,) and dry.shape == (n,), 'shapes %s %s', wet.shape, dry.shape)
        require(isfinite(wet) and isfinite(dry), 'non-finite absorption')
        nodb = 0.182 * f * absorb.NP_PER_DB
        for i, (p, t, e) in enumerate(lev):
            a, b, s1 = absorb.h2o(m['h2o'], p, t, e, f)
            close(wet[i], a + b, rtol=tolerance('h2o', m['h2o'], p, f), scale=s1, what='wet absorption at level %d' % i)
            if e == 0:
                require(wet[i] == 0, 'wet absorption without vapour at level %d: %r', i, wet[i])
            o, s2 = absorb.o2(m['o2'], p, t, e, f)
            nn = absorb.n2(m['n2'], p - e, t, f)
            oz = 0.0
            if o3n is not None and c['o3']:
                # taken from the ozone call itself, whose value C03 decides
                oz = float(O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(o3n[i])))
                ctx.label('ozone')
            close(dry[i], o + nn + oz, rtol=tolerance('o2', m['o2'], p, f), scale=s2 + nn + oz,
                  what='dry absorption at level %d (o2 %.3g, n2 %.3g, o3 %.3g)' % (i, o, nn, oz))
            w1, d1 = profiles([lev[i]], f, None if o3n is None else [o3n[i]])
            require(w1[0] == wet[i] and d1[0] == dry[i], 'level %d alone differs from the profile', i)
        pm = c['perm']
        w2, d2 = profiles([lev[i] for i in pm], f, None if o3n is None else [o3n[i] for i in pm])
        close(w2, wet[pm], rtol=1e-14, what='wet, permuted levels')
        close(d2, dry[pm], rtol=1e-14, what='dry, permuted levels')
        if o3n is not None and not c['o3']:
            _, d3 = profiles(lev, f, None)
            close(d3, dry, rtol=1e-14, what='ozone profile without an ozone model')
        if o3n is None or c['o3']:
            # without an ozone profile the selected ozone model is irrelevant
            if c['o3']:
                _, d0 = profiles(lev, f, None)
                O3AbsModel.model = ''
                _, d4 = profiles(lev, f, o3n)
                close(d4, d0, rtol=1e-14, what='dry without ozone')
                O3AbsModel.model = c['o3']
    ctx.nontrivial(n >= 2 and (any(x[2] > 0 for x in lev) or bool(o3n and c['o3'])))
    ctx.label('n=%d' % n)
