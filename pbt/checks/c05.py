"""C05 model selection: complete, exclusive, history-independent."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, isfinite, expect_raises
from .. import gen, lib
from ..ref import absorb
from . import c01

C = Check('C05', rule='A case is a history of 2-12 operations: select a model for one gas (through the class attribute and '
          'set_ll), reject an unadvertised name, evaluate one gas at a state, run a whole simulation under other models. '
          'Each evaluation is compared with the reference of the model selected last for that gas. Non-trivial: an '
          'evaluation of a gas after at least two selections, one of which concerns another model or gas.',
          assumptions=['a rejected name leaves the loaded line list in force once the previous name is restored',
                       'nitrogen and cloud liquid are selected by the class attribute only'])

LISTS = {'h2o': absorb.H2O_MODELS, 'o2': absorb.O2_MODELS, 'o3': absorb.O3_MODELS, 'n2': absorb.N2_MODELS,
         'liq': absorb.LIQ_MODELS}
GAS = ['h2o', 'o2', 'o3', 'n2', 'liq']
ADVERT = {'h2o': 'WaterVapour', 'o2': 'Oxygen', 'o3': 'Ozone'}
BAD = ['', 'r98', 'R99', 'R21', 'R20sd', 'R98 ', 'RSD', 'rose20', 'None', 'MWL', 'R1', 'R']


def cls(gas):
    from pyrtlib import absorption_model as am
    return {'h2o': am.H2OAbsModel, 'o2': am.O2AbsModel, 'o3': am.O3AbsModel, 'n2': am.N2AbsModel, 'liq': am.LiqAbsModel}[gas]


@st.composite
def bad_name(draw, gas):
    from ..core import REPO  # noqa
    k = draw(st.sampled_from(['list', 'other', 'text']))
    if k == 'list':
        return draw(st.sampled_from(BAD))
    if k == 'other':                        # a model another gas has
        o = [m for m in set(LISTS['h2o'] + LISTS['n2'] + LISTS['o2'])]
        return draw(st.sampled_from(sorted(o)))
    return draw(st.text(alphabet='RMWLSD0123456789rx', min_size=1, max_size=6))


@st.composite
def evaluation(draw, gas, model=None):
    s = draw(gen.state())
    d = {'op': 'eval', 'gas': gas, 'p': s['p'], 't': s['t'], 'e': s['e']}
    if gas in ('h2o', 'o2'):
        m = model or draw(st.sampled_from(LISTS[gas]))
        d['f'] = draw(gen.line_frequency(gas, m))
    elif gas == 'o3':
        fl = absorb.o3_lines(draw(st.sampled_from(LISTS['o3'])))['fl']
        fl = fl[(fl > 1) & (fl < 999)]
        c = float(fl[draw(st.integers(0, len(fl) - 1))])
        f = gen.rnd(min(1000.0, max(1.0, c + draw(st.sampled_from([-1, 1])) * draw(gen.logfl(1e-4, 0.9)))), 10)
        d['f'] = f
        d['n'] = draw(gen.logfl(1e10, 1e19))
    else:
        d['f'] = draw(gen.frequency())
        d['t'] = draw(gen.fl(240.0, 320.0))
        d['n'] = draw(gen.logfl(1e-3, 5.0))
    return d


@st.composite
def cases(draw):
    ops = []
    focus = draw(st.sampled_from(['all', 'h2o', 'o2', 'o3', 'pair']))
    pool = {'all': GAS, 'pair': ['h2o', 'o2']}.get(focus, [focus])
    for _ in range(draw(st.integers(2, 12))):
        gas = draw(st.sampled_from(pool))
        k = draw(st.sampled_from(['select', 'select', 'eval', 'eval', 'selev', 'selev', 'reject', 'sim']))
        if k == 'eval':
            ops.append(draw(evaluation(gas)))
        elif k in ('select', 'selev'):
            m = draw(st.sampled_from(LISTS[gas]))
            ops.append({'op': 'select', 'gas': gas, 'm': m})
            if k == 'selev':
                ops.append(draw(evaluation(gas, m)))
        elif k == 'reject' and gas in ADVERT:
            ops.append({'op': 'reject', 'gas': gas, 'm': draw(bad_name(gas))})
        elif k == 'sim' and len(ops) < 10:
            ops.append({'op': 'sim', 'models': draw(gen.models()), 'f': draw(gen.frequency())})
    ops.append(draw(evaluation(draw(st.sampled_from(pool)))))
    return ops


PROF = {'z': [0.0, 2.0, 9.0], 'p': [1000.0, 800.0, 300.0], 't': [290.0, 280.0, 235.0], 'rh': [0.6, 0.4, 0.1]}


def compare(gas, m, d):
    """evaluate gas at d and compare with reference model m"""
    f, p, t, e = d['f'], d['p'], d['t'], d['e']
    k = 0.182 * f * absorb.NP_PER_DB
    where = ' of %s at p=%g t=%g e=%g f=%.10g' % (m, p, t, e, f)
    from pyrtlib import absorption_model as am
    args = [np.float64(v) for v in ((p - e) / 10.0, 300.0 / t, e / 10.0, f)]
    if gas == 'h2o':
        if e <= 0:
            return False
        a, b, s = absorb.h2o(m, p, t, e, f)
        g = am.H2OAbsModel().h2o_absorption(*args)
        tot = sum(float(np.asarray(x).reshape(-1)[0]) for x in g) * k
        close(tot, a + b, rtol=c01.tolerance('h2o', m, p, f), scale=s, what='water vapour' + where)
    elif gas == 'o2':
        a, s = absorb.o2(m, p, t, e, f)
        g = am.O2AbsModel().o2_absorption(*args)
        tot = sum(float(np.asarray(x).reshape(-1)[0]) for x in g) * k
        close(tot, a, rtol=c01.tolerance('o2', m, p, f), scale=s, what='oxygen' + where)
    elif gas == 'o3':
        L = absorb.o3_lines(m)
        if np.min(np.abs(np.abs(L['fl'] - f) - 1.0)) < 1e-6:
            return False
        sel = np.abs(L['fl'] - f) <= 1.0
        if not np.any(sel):
            return False
        g = float(am.O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(d['n'])))
        wmin = np.min(L['w'][sel]) * p + 4e-8 * np.sqrt(t / 300.0) * f
        cond = 256 * np.finfo(float).eps * f / (wmin + 0.1 * np.min(np.abs(L['fl'][sel] - f))) * (40 if m == 'R22' else 1)
        close(g, absorb.o3(m, p, t, f, d['n']), rtol=1e-9 + cond, what='ozone' + where)
    elif gas == 'n2':
        g = float(am.N2AbsModel.n2_absorption(np.float64(t), np.float64(p - e), np.float64(f)))
        close(g, absorb.n2(m, p - e, t, f), rtol=1e-10, what='nitrogen' + where)
    else:
        g = float(am.LiqAbsModel.liquid_water_absorption(np.float64(d['n']), np.float64(f), np.float64(t)))
        close(g, absorb.liquid(m, d['n'], f, t), rtol=1e-9, what='cloud liquid' + where)
    return True


@C.sub('history', cases(), quick=1600, thorough=30000, shards=8)
def history(ops, ctx):
    from pyrtlib.absorption_model import AbsModelError
    # a defined start: the history itself is generated
    cur = {'h2o': 'R20', 'o2': 'R20', 'o3': 'R18', 'n2': 'R20', 'liq': 'R20'}
    lib.select(h2o='R20', o2='R20', n2='R20', liq='R20', o3='R18')
    nsel, gases = 0, set()
    for d in ops:
        if d['op'] == 'select':
            cur[d['gas']] = d['m']
            lib.select(**{d['gas']: d['m']})
            nsel += 1
            gases.add((d['gas'], d['m']))
        elif d['op'] == 'reject':
            k = cls(d['gas'])
            adv = k.implemented_models()[ADVERT[d['gas']]]
            if d['m'] in adv:
                continue
            k.model = d['m']
            with expect_raises(AbsModelError, what='set_ll with model %r for %s' % (d['m'], d['gas'])):
                k.set_ll()
            k.model = cur[d['gas']]
            ctx.label('rejected')
        elif d['op'] == 'sim':
            m = d['models']
            lib.rte(PROF, [d['f']], m, sat=True).execute()
            cur.update(h2o=m['h2o'], o2=m['o2'], n2=m['n2'], liq='R20')
            nsel += 1
            gases.add(('sim', m['h2o'], m['o2']))
        else:
            if compare(d['gas'], cur[d['gas']], d):
                ctx.nontrivial(nsel >= 2 and len(gases) >= 2)
                ctx.label('eval ' + d['gas'])


@C.sub('advertised', st.fixed_dictionaries({'gas': st.sampled_from(['h2o', 'o2', 'o3']), 'k': st.integers(0, 30),
                                            'cls': st.sampled_from(['base', 'own']), 's': gen.state(),
                                            'pre': st.integers(0, 30), 'f': gen.frequency()}),
       quick=900, thorough=12000)
def advertised(c, ctx):
    from pyrtlib.absorption_model import AbsModel
    gas = c['gas']
    owner = AbsModel if c['cls'] == 'base' else cls(gas)
    adv = owner.implemented_models()
    require(set(adv) >= set(ADVERT.values()), 'implemented_models lists %s', sorted(adv))
    names = adv[ADVERT[gas]]
    require(len(set(names)) == len(names), 'duplicate names in %s', names)
    missing = [m for m in LISTS[gas] if m not in names]
    require(not missing, 'models no longer advertised for %s: %s', gas, missing)
    pre, m = names[c['pre'] % len(names)], names[c['k'] % len(names)]
    lib.select(**{gas: pre})
    lib.select(**{gas: m})
    require(cls(gas).model == m, 'model attribute is %r after selecting %r', cls(gas).model, m)
    s = c['s']
    d = {'p': s['p'], 't': s['t'], 'e': s['e'], 'f': c['f'], 'n': 1e17}
    if m in LISTS[gas]:
        if gas == 'o3':
            fl = absorb.o3_lines(m)['fl']
            d['f'] = gen.rnd(float(fl[c['k'] % len(fl)]) + 0.01, 10)
        ctx.nontrivial(compare(gas, m, d))
    names.clear()
    adv.clear()
    require(set(owner.implemented_models()[ADVERT[gas]]) >= set(LISTS[gas]), 'the advertised list was changed by a caller')
    ctx.label(gas + ' ' + m)


@st.composite
def steps(draw):
    """the same few profiles and channels evaluated again and again while the selection of single gases changes"""
    lev = []
    for _ in range(draw(st.integers(1, 3))):
        s = draw(gen.state())
        lev.append([s['p'], draw(gen.fl(240.0, 320.0)), s['e'] or 0.5, draw(gen.logfl(1e14, 1e19)), draw(gen.logfl(1e-3, 3.0))])
    f = [draw(gen.frequency()) for _ in range(draw(st.integers(1, 2)))]
    seq = []
    for _ in range(draw(st.integers(2, 7))):
        gas = draw(st.sampled_from(GAS))
        seq.append([gas, draw(st.sampled_from(LISTS[gas])), draw(st.integers(0, len(f) - 1)), draw(st.booleans())])
    return {'lev': lev, 'f': f, 'steps': seq}


@C.sub('same_profile', steps(), quick=700, thorough=15000, shards=8)
def same_profile(c, ctx):
    """Whole clear-sky and cloud absorption of one profile follow every single change of a selection."""
    from pyrtlib.rt_equation import RTEquation
    from pyrtlib.absorption_model import O3AbsModel
    cur = {'h2o': 'R20', 'o2': 'R20', 'o3': 'R18', 'n2': 'R20', 'liq': 'R20'}
    lib.select(h2o='R20', o2='R20', n2='R20', liq='R20', o3='R18')
    p, t, e, o3n, liq = (np.array([x[i] for x in c['lev']]) for i in range(5))
    seen = set()
    for gas, m, k, oz in [['h2o', 'R20', 0, True]] + c['steps']:
        cur[gas] = m
        lib.select(**{gas: m})
        f = c['f'][k]
        where = ' under %s at %g GHz' % (cur, f)
        wet, dry = RTEquation.clearsky_absorption(p, t, e, np.float64(f), o3n if oz else None)
        aliq, _ = RTEquation.cloudy_absorption(t, liq, np.zeros(len(t)), np.float64(f))
        for i in range(len(p)):
            a, b, s1 = absorb.h2o(cur['h2o'], p[i], t[i], e[i], f)
            close(wet[i], a + b, rtol=c01.tolerance('h2o', cur['h2o'], p[i], f), scale=s1, what='wet absorption' + where)
            o, s2 = absorb.o2(cur['o2'], p[i], t[i], e[i], f)
            n = absorb.n2(cur['n2'], p[i] - e[i], t[i], f)
            x = 0.0
            if oz:                          # C03 decides its value; here that the selected line list is in force
                L = absorb.o3_lines(cur['o3'])
                if np.min(np.abs(np.abs(L['fl'] - f) - 1.0)) < 1e-6:
                    break
                x = float(O3AbsModel().o3_absorption(np.float64(t[i]), np.float64(p[i]), np.float64(f), np.float64(o3n[i])))
                close(x, absorb.o3(cur['o3'], p[i], t[i], f, o3n[i]), rtol=1e-4, what='ozone' + where)
            close(dry[i], o + n + x, rtol=c01.tolerance('o2', cur['o2'], p[i], f), scale=s2 + n + x, what='dry absorption' + where)
            close(aliq[i], absorb.liquid(cur['liq'], liq[i], f, t[i]), rtol=1e-9, what='cloud liquid' + where)
        if (k, oz) in seen:
            ctx.nontrivial(True)
            ctx.label('change of ' + gas)
        seen.add((k, oz))
