"""C23 weighting functions."""
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import gen, lib

C = Check('C23', rule='A case is a profile, a grid step, 1-6 channels, an angle, a viewing mode, a model and a history of calls '
          '(compute, switch mode, plot, change channels) with one object. Non-trivial: at least 3 grid levels and a '
          'transmittance below 0.999 somewhere.',
          assumptions=['the absorption and layer optical depths of the gridded profile are taken from the simulation itself '
                       '(decided by C01-C10)', 'profiles start at or above 0 km; constant beyond their ends',
                       'elevation angles 20 to 90 degrees'])


def grid_of(prof, step, n):
    """the regular grid from 0 that covers the profile, and the profile on it"""
    top = max(prof['z'])
    z = np.arange(n) * step
    require(z[-1] >= top - 1e-9 and (n == 1 or z[-2] < top + 1e-9),
            'grid of %d levels with step %r for a profile up to %r km', n, step, top)
    return {'z': z, 'p': np.interp(z, prof['z'], prof['p']), 't': np.interp(z, prof['z'], prof['t']),
            'rh': np.interp(z, prof['z'], prof['rh'])}


def reference(prof, step, n, frq, angle, sat, model):
    from pyrtlib.absorption_model import AbsModel
    g = grid_of(prof, step, n)
    last = AbsModel.implemented_models()['Oxygen'][-1]
    r = lib.rte(g, frq, {'h2o': model, 'o2': last, 'n2': model}, angles=[angle], sat=sat, ray=True, liq=model)
    _, o = r.execute(False)
    tau = (o['taulaywet'] + o['taulaydry'])[:, 0, :]
    a = (o['awet'] + o['adry'])[:, 0, :]
    w = np.zeros((len(frq), n))
    for f in range(len(frq)):
        for j in range(n):
            # layer j lies below level j; its far side as seen by the observer
            s = np.sum(tau[f, j:]) if sat else np.sum(tau[f, :j + 1])
            w[f, j] = a[f, j] * np.exp(-s)
    return w, a


@st.composite
def setups(draw, nf=(1, 6)):
    prof = draw(gen.profile(nmin=2, nmax=10, dzmax=3.0))
    if prof['z'][0] < 0:        # the grid starts at 0 km
        prof['z'] = [gen.rnd(h - prof['z'][0], 8) for h in prof['z']]
    step = draw(st.sampled_from([0.5, 1.0, 2.0, 0.75, 0.3]))
    if max(prof['z']) / step > 40:
        step = gen.rnd(max(prof['z']) / 30.0, 3)
    return {'prof': prof, 'step': step, 'f': draw(st.lists(gen.frequency(10.0, 700.0), min_size=nf[0], max_size=nf[1])),
            'angle': draw(st.one_of(st.just(90.0), gen.fl(20.0, 90.0))), 'sat': draw(st.booleans()),
            'model': draw(st.sampled_from([None, None, 'R24', 'R20', 'R19SD', 'R98']))}


def build(c):
    from pyrtlib.weighting_functions import WeightingFunctions
    args = gen.arr(c['prof'])
    if c['step'] == 1.0:
        w = WeightingFunctions(*args)
    else:
        w = WeightingFunctions(*args, c['step'])
    w.frequencies = np.array(c['f'])
    w.angle = c['angle']
    w.satellite = c['sat']
    if c['model']:
        w.model = c['model']
    return w, args


def get(w):
    return np.asarray(w.generate_wf())


@C.sub('function', st.tuples(setups(), st.lists(st.sampled_from(['again', 'mode', 'angle', 'one', 'other']), max_size=3)),
       quick=400, thorough=6000, shards=8)
def function(x, ctx):
    c, ops = x
    w, args = build(c)
    keep = [a.copy() for a in args]
    got = get(w)
    require(got.ndim == 2 and got.shape[0] == len(c['f']), 'weighting functions of shape %s', got.shape)
    n = got.shape[1]
    model = c['model'] or 'R24'
    sat, angle, f = c['sat'], c['angle'], list(c['f'])
    want, a = reference(c['prof'], c['step'], n, f, angle, sat, model)
    close(got, want, rtol=1e-9, atol=1e-30, what='weighting function (%s)' % ('satellite' if sat else 'ground'))
    if model != 'R98':
        require(np.all(got >= 0) and np.all(got <= a * (1 + 1e-12)), 'weighting function outside 0..absorption')
    ctx.nontrivial(n >= 3 and np.any(want < 0.999 * a))
    ctx.label('sat' if sat else 'ground', 'levels %d0s' % (n // 10))
    for op in ops:
        if op == 'mode':
            sat = not sat
            w.satellite = sat
        elif op == 'angle':
            angle = 60.0
            w.angle = angle
        elif op == 'one':
            f = f[:1]
            w.frequencies = np.array(f)
        elif op == 'other':
            # another object must not influence this one
            o = dict(c, sat=not c['sat'], f=[31.4], model='R17')
            get(build(o)[0])
        again = get(w)
        want, _ = reference(c['prof'], c['step'], n, f, angle, sat, model)
        close(again, want, rtol=1e-9, atol=1e-30, what='after %s' % op)
        require(np.array_equal(w.frequencies, f) and w.satellite == sat and w.angle == angle, 'settings changed')
    require(all(np.array_equal(p, q) for p, q in zip(args, keep)), 'inputs modified')


@st.composite
def plots(draw):
    c = draw(setups(nf=(1, 9)))
    c['step'] = draw(st.sampled_from([1.0, 2.0, 4.0, 0.7]))
    if max(c['prof']['z']) / c['step'] > 30:
        c['step'] = 4.0
    n = len(c['f'])
    if draw(st.booleans()):
        bp = []
        while sum(bp) < n:
            bp.append(draw(st.integers(1, min(4, n - sum(bp)))))
        c['bp'] = bp
    else:
        c['bp'] = None
    c['norm'] = draw(st.booleans())
    c['ylim'] = draw(st.one_of(st.none(), st.tuples(st.just(0.0), gen.fl(1.0, 40.0, 3)), st.just((0.0, 4.0))))
    c['grouped'] = draw(st.booleans()) and c['sat']
    c['xlim'] = None if c['grouped'] else draw(st.one_of(st.none(), st.tuples(st.just(0.0), gen.fl(0.01, 2.0, 3))))
    c['title'] = draw(st.sampled_from(['x', 'Channels 5-15', '']))
    c['legend'] = draw(st.sampled_from(['auto', 'own', 'none']))
    return c


@C.sub('plots', plots(), quick=240, thorough=2400, shards=8)
def plots_(c, ctx):
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    w, _ = build(c)
    f = np.array(c['f'])
    wgt = get(w)
    keep = wgt.copy()
    n = wgt.shape[1]
    z = np.arange(n) * c['step']
    kw = {k: c[k] for k in ('ylim', 'xlim') if c[k] is not None}
    for rep in range(2):
        plt.close('all')
        if c['grouped']:
            sizes = c['bp'] or [len(f)]
            w.plot_wf_grouped(wgt, c['title'], grouped_frequencies=list(sizes),
                              grouped_labels=['g%d' % i for i in range(len(sizes))], dpi=40, **kw)
            lines = plt.gcf().axes[0].lines
            require(len(lines) == len(f), '%d curves for %d channels', len(lines), len(f))
            for i, ln in enumerate(lines):
                x, y = ln.get_xdata(), ln.get_ydata()
                close(y, z[:-1], atol=1e-9, what='heights of the curve')
                # shifted as a whole
                close(x - x[0], wgt[i, 1:] - wgt[i, 1], rtol=1e-9, atol=1e-12, what='shifted curve of channel %d' % i)
                g = int(np.searchsorted(np.cumsum(sizes), i, side='right'))
                close(x[0] - wgt[i, 1], 0.4 * g, atol=1e-9, what='shift of group %d' % g)
            texts = [t.get_text() for t in plt.gcf().axes[0].texts]
            require(texts == ['g%d' % i for i in range(len(sizes))], 'group labels %s', texts)
        else:
            w.bandpass = None if c['bp'] is None else np.array(c['bp'])
            sizes = c['bp'] or [1] * len(f)
            w.legend_labels = ['L%d' % i for i in range(len(sizes))] if c['legend'] == 'own' else None
            w.plot_wf(wgt, c['title'], legend=c['legend'] != 'none', normalized=c['norm'], dpi=40, **kw)
            ends = np.cumsum(sizes)
            mean = np.array([wgt[e - s:e].mean(axis=0) for s, e in zip(sizes, ends)])
            fm = [f[e - s:e].mean() for s, e in zip(sizes, ends)]
            lines = plt.gcf().axes[0].lines
            require(len(lines) == len(sizes), '%d curves for %d channels', len(lines), len(sizes))
            for i, ln in enumerate(lines):
                x, y = ln.get_xdata(), ln.get_ydata()
                if c['norm'] and not mean[i].max() > 0:      # opaque beyond the smallest number: no shape
                    continue
                v = mean[i] / mean[i].max() if c['norm'] else mean[i]
                close(y, z[:-1] if c['sat'] else z, atol=1e-9, what='heights of the curve')
                close(x, v[1:] if c['sat'] else v, rtol=1e-9, atol=1e-30,
                      what='curve of channel %d (sub-bands %s)' % (i, f[ends[i] - sizes[i]:ends[i]]))
                lab = ln.get_label()
                require(lab.startswith('%.2f GHz' % fm[i]), 'channel %d at %.3f GHz is labelled %r', i, fm[i], lab)
                if c['sat']:
                    km = [float(g) for g in re.findall(r' (-?[0-9.]+) km$', lab)]
                    top = y[x >= x.max() - 1e-9 * abs(x.max())]
                    require(len(km) == 1 and np.min(np.abs(top - km[0])) <= 0.5 + 1e-6,
                            'curve %d peaks at %s km and is labelled %r', i, top, lab)
            leg = plt.gcf().axes[0].get_legend()
            if c['legend'] == 'none':
                require(leg is None, 'legend drawn')
            elif c['legend'] == 'own':
                require([t.get_text() for t in leg.get_texts()] == w.legend_labels, 'legend labels')
        require(plt.gcf().axes[0].get_title() == c['title'], 'title %r', plt.gcf().axes[0].get_title())
        if c['xlim']:
            close(plt.gcf().axes[0].get_xlim(), c['xlim'], rtol=1e-12, what='limits of the weighting-function axis')
        if c['ylim']:
            close(plt.gcf().axes[0].get_ylim(), c['ylim'], rtol=1e-12, what='height limits')
            lim = np.interp(c['ylim'], z, np.interp(z, c['prof']['z'], c['prof']['p']))
            if lim[0] != lim[1]:
                close(plt.gcf().axes[1].get_ylim(), lim, rtol=1e-9, what='pressure limits')
        plt.close('all')
        require(np.array_equal(wgt, keep), 'plotting changed the weighting functions')
        require(np.array_equal(w.frequencies, f), 'plotting changed the frequencies to %s', w.frequencies)
        require(w.satellite == c['sat'] and w.angle == c['angle'], 'plotting changed the settings')
    close(get(w), keep, rtol=1e-12, atol=1e-300, what='weighting functions after plotting')
    ctx.nontrivial(len(f) > 1 and (c['bp'] is not None or c['grouped']))
    ctx.label('grouped' if c['grouped'] else 'bandpass' if c['bp'] else 'plain', 'norm' if c['norm'] else 'abs')
    if not c['sat']:
        with expect_raises(ValueError, what='grouped plot from the ground'):
            w.plot_wf_grouped(wgt, 'x', grouped_frequencies=[len(f)], grouped_labels=['a'])
        plt.close('all')


@C.sub('settings', st.one_of(st.sampled_from([1, 0, 'yes', None, [True]]), st.lists(gen.fl(10.0, 100.0), max_size=3)),
       quick=150, thorough=600, shards=1)
def settings(v, ctx):
    w, _ = build({'prof': {'z': [0.0, 1.0], 'p': [1000.0, 900.0], 't': [290.0, 285.0], 'rh': [0.1, 0.1]}, 'step': 1.0,
                  'f': [31.4], 'angle': 90.0, 'sat': True, 'model': None})
    with expect_raises(ValueError, what='satellite = %r' % (v,)):
        w.satellite = v
    with expect_raises(ValueError, what='frequencies = %r' % (v,)):
        w.frequencies = v
    require(w.satellite is True and np.array_equal(w.frequencies, [31.4]), 'rejected values changed the settings')
    ctx.nontrivial(True)
