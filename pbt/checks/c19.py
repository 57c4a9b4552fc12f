"""C19 instrument channel lists."""
import numpy as np
from hypothesis import strategies as st

from ..core import Check, close, require, expect_raises
from .. import gen  # noqa

C = Check('C19', rule='A case is 1-6 queries (instrument or unknown name, any letter case, which of the two functions, whether the '
          'caller overwrites the returned array in between). Non-trivial: a valid query after a caller changed an earlier '
          'answer, or a name in mixed case.',
          assumptions=['channel tables written down here from the instrument descriptions and the documentation examples; '
                       'side bands are written as centre and offsets'])

GROUND = {
    'hat': [22.24, 23.04, 23.84, 25.44, 26.24, 27.84, 31.4, 51.26, 52.28, 53.86, 54.94, 56.66, 57.3, 58.0],
    'mp3': [22.234, 22.5, 23.034, 23.834, 25.0, 26.234, 28.0, 30.0, 51.248, 51.76, 52.28, 52.804, 53.336, 53.848, 54.4,
            54.94, 55.5, 56.02, 56.66, 57.288, 57.964, 58.8],
    'arm': [22.235, 23.035, 23.835, 26.235, 30.0, 51.25, 52.28, 53.85, 54.94, 56.66, 57.29, 58.8],
    'tem': [51.25, 51.75, 52.25, 52.85, 53.35, 53.85, 54.4, 54.9, 55.4, 56.0, 56.5, 57.0],
    'k2w': [23.84, 31.4, 72.5, 82.5, 90.0, 150.0]}


def sym(centre, *off):
    """side bands ordered from the lowest to the highest"""
    return [centre - o for o in sorted(off, reverse=True)] + [centre + o for o in sorted(off)]


def quad(o1, o2):
    return [57.290344 + s * o1 + r * o2 for s in (-1, 1) for r in (-1, 1)]


SAT = {
    'SAPHIR': sym(183.31, 0.2, 1.1, 2.8, 4.2, 6.8, 11.0),
    'AMSU': [89.0, 150.0] + sym(183.31, 1.0, 3.0, 7.0),
    'ATMS': [88.2, 165.5] + sym(183.31, 1.0, 1.8, 3.0, 4.5, 7.0),
    'MWI': [18.7, 23.8, 31.4, 50.3, 52.61, 53.24, 53.75, 89.0] + sym(118.7503, 1.2, 1.4, 2.1, 3.2) + sym(165.5, 0.725)
    + sym(183.31, 2.0, 3.4, 4.9, 6.1, 8.4),
    'MWS': [23.8, 31.4, 50.3, 52.8] + sym(53.246, 0.08) + sym(53.596, 0.115) + sym(53.948, 0.081)
    + [54.4, 54.94, 55.5, 57.290344] + sym(57.290344, 0.217) + quad(0.3222, 0.048) + quad(0.3222, 0.022)
    + quad(0.3222, 0.010) + quad(0.3222, 0.0045) + [89.0] + sym(165.5, 0.725) + sym(183.31, 1.0, 1.8, 3.0, 4.5, 7.0) + [229.0],
    'ICI': sym(183.31, 0.2, 2.0, 3.4, 7.0) + sym(243.2, 2.5) + sym(325.15, 1.5, 3.5, 9.5) + sym(448.0, 1.4, 3.0, 7.2)
    + sym(664.0, 4.2)}
UNKNOWN = ['', 'MMWI', 'hatpro', 'amsu-a', 'xyz', 'AMSR', ' MWI', 'k2', 'ATMS5']


@st.composite
def query(draw):
    fn = draw(st.sampled_from(['ground', 'sat']))
    kind = draw(st.sampled_from(['known', 'known', 'known', 'unknown', 'default', 'wrong']))
    tab = GROUND if fn == 'ground' else SAT
    if kind == 'unknown':
        name = draw(st.one_of(st.sampled_from(UNKNOWN), st.text(alphabet='amswitghpICK2', min_size=1, max_size=6)))
    elif kind == 'wrong':
        name = draw(st.sampled_from(sorted(SAT if fn == 'ground' else GROUND)))
    elif kind == 'default':
        return {'fn': 'ground', 'name': None, 'spoil': draw(st.booleans())}
    else:
        name = draw(st.sampled_from(sorted(tab)))
        mask = draw(st.lists(st.booleans(), min_size=len(name), max_size=len(name)))
        name = ''.join(ch.upper() if u else ch.lower() for ch, u in zip(name, mask))
    return {'fn': fn, 'name': name, 'spoil': draw(st.booleans())}


@C.sub('channels', st.lists(query(), min_size=1, max_size=6), quick=2500, thorough=30000)
def channels(qs, ctx):
    from pyrtlib.utils import get_frequencies, get_frequencies_sat
    spoiled = False
    for q in qs:
        fn = get_frequencies if q['fn'] == 'ground' else get_frequencies_sat
        name = q['name']
        if name is None:
            got, want = get_frequencies(), GROUND['hat']
        else:
            tab = {k.lower(): v for k, v in (GROUND if q['fn'] == 'ground' else SAT).items()}
            if name.lower() not in tab:
                with expect_raises(ValueError, what='instrument %r' % name):
                    fn(name)
                ctx.label('refused')
                continue
            got, want = fn(name), tab[name.lower()]
        got = np.asarray(got, dtype=float)
        require(got.shape == (len(want),), '%r: %d channels, expected %d', name, got.size, len(want))
        close(got, want, rtol=0, atol=5e-8, what='channels of %r' % name)
        ctx.nontrivial(spoiled or (name is not None and name not in (name.lower(), name.upper())))
        ctx.label('%s' % name.lower() if name else 'default')
        if q['spoil']:
            r = fn() if name is None else fn(name)
            r[:] = -1.0
            spoiled = True
