#!/usr/bin/env python3
"""Run the check of one property: python3 check.py C04"""
import importlib
import os
import sys

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('VERIF_INNER') != '1':
    env = dict(os.environ, VERIF_INNER='1', PYTHONDONTWRITEBYTECODE='1',
        PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), MPLBACKEND='Agg',
        OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    for k in list(env):
        if k.startswith('OMPI_') or k.startswith('PMIX_'):
            del env[k]
    os.chdir(HERE)
    os.execve(PY, [PY, '-W', 'ignore', os.path.join(HERE, 'check.py')]
        + sys.argv[1:], env)

sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))

import common

def main():
    prop = sys.argv[1]
    c = common.Check(prop)
    common.quiet()
    module = importlib.import_module(prop.lower())
    # the library talks on stdout; only our own lines shall be seen there
    real = os.dup(1)
    sys.stdout.flush()
    if not os.environ.get('VERIF_DEBUG'):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
    try:
        module.run(c)
    except common.MachineryError as e:
        os.dup2(real, 1)
        print('machinery:', e)
        return 3
    except Exception as e:
        # preparing inputs failed: a violation if it is the library that fails
        import traceback
        t = traceback.format_exc()
        if os.path.join(common.REPO, 'elphmod') + os.sep not in t:
            raise
        sys.stderr.write(t)
        c.fail('preparation', 'raised ' + repr(e)[:200], dict(traceback=t))
    finally:
        sys.stdout.flush()
        os.dup2(real, 1)
    return c.finish()

if __name__ == '__main__':
    sys.exit(main())
