"""run.py C01 [--replay FILE] [--only sub,...]; tier from VERIF_TIER or --tier, seed from VERIF_SEED."""
import argparse
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path and os.path.realpath(sys.path[0]) == os.path.join(HERE, 'pbt'):
    sys.path.pop(0)
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--tier', default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix='pbt-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    home = os.getcwd()
    os.chdir(scratch)
    code = 2
    try:
        from pbt import deps
        deps.ensure()
        from pbt import core
        core.load_library()
        if a.replay:
            code = core.replay(a.property, os.path.join(home, a.replay))
        else:
            code = core.main(a.property, tier, seed, a.only.split(',') if a.only else None)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s' % a.property)
        code = 2
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
