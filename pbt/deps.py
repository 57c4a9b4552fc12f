"""Make Hypothesis importable in the repository's interpreter, offline.

Looks, in order, at: an importable hypothesis; /verif/.deps (made by setup.sh); the
offline wheelhouse, unpacked into .deps.  Nothing else of the tooling venv is put on the path,
so that numpy/pandas/... stay the repository's own."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, '.deps')
WHEELS = '/opt/veriftools/wheels'
VENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
TAG = 'cp%d%d' % sys.version_info[:2]


def _wheels():
    out = []
    for pat in ('hypothesis-[0-9]*-%s-*.whl' % TAG, 'sortedcontainers-*.whl', 'attrs-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if found:
            out.append(found[-1])
    return out


def _usable(path):
    return os.path.isdir(os.path.join(path, 'hypothesis')) and os.path.isdir(os.path.join(path, 'sortedcontainers'))


def install():
    if _usable(DEPS):
        return DEPS
    tmp = tempfile.mkdtemp(prefix='.deps-', dir=HERE)
    try:
        wheels = _wheels()
        if wheels:
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
        if not _usable(tmp):
            for name in ('hypothesis', 'sortedcontainers', 'attr', 'attrs'):
                src = os.path.join(VENV, name)
                if os.path.isdir(src) and not os.path.isdir(os.path.join(tmp, name)):
                    shutil.copytree(src, os.path.join(tmp, name))
            for name in ('_hypothesis_globals.py', '_hypothesis_ftz_detector.py'):
                src = os.path.join(VENV, name)
                if os.path.exists(src):
                    shutil.copy(src, tmp)
        if not _usable(tmp):
            raise RuntimeError('hypothesis is not available offline')
        try:
            os.rename(tmp, DEPS)
            tmp = None
        except OSError:
            if not _usable(DEPS):
                raise
    finally:
        if tmp and os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return DEPS


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    path = install()
    if path not in sys.path:
        sys.path.append(path)
    import hypothesis  # noqa: F401


if __name__ == '__main__':
    ensure()
    import hypothesis
    print('hypothesis', hypothesis.__version__, 'for', sys.version.split()[0])
