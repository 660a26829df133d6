#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [-v]"""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('VERIF_REEXEC') != '1':      # fixed hash seed: set iteration order must not depend on the run
    os.environ['VERIF_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
import argparse, importlib, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core
sys.path.insert(0, core.REPO)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        module = importlib.import_module('mc.props.' + a.pid)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(core.REPO + os.sep) for f in tb):
            # the code under test cannot even be imported
            v = dict(scenario='import', params={}, message='import of the code under test fails: %r' % e, sig='import:fail',
                     extra={'traceback': traceback.format_exc()})
            print('VIOLATION property=%s replay=%s' % (a.pid, core.write_replay(a.pid, v)))
            return 1
        raise
    if a.replay:
        return core.replay(a.pid, module, a.replay)
    return core.run_property(a.pid, module, a.tier, seed, jobs=a.jobs, only=a.only, verbose=a.v)

if __name__ == '__main__':
    sys.exit(main())
