"""Runs harness cases with concrete values on the real, unpatched code under test.
usage: replay.py FILE      FILE: {"property":..., "harness":..., "case":..., "values":...} or {"batch": [..]}
Prints one JSON line per entry; exit 1 if any entry violates."""

import builtins
import contextlib
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [VERIF] + [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'symx')]
sys.dont_write_bytecode = True


class Hang(BaseException):
    pass


def run_one(e, timeout=40):
    from symx.api import Inputs, Violation, Skip
    import numpy as np
    m = importlib.import_module('harness.' + e['property'])
    h = {h.name: h for h in m.HARNESSES}[e['harness']]
    tmp = tempfile.mkdtemp(prefix='symx_replay_')
    cwd = os.getcwd()
    os.chdir(tmp)
    real_open = builtins.open
    I = Inputs('conc', e['case'], e.get('tier', 'quick'), tmp, e['values'])

    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            h.fn(I)
        return {'result': 'ok'}
    except Skip:
        return {'result': 'skip'}
    except Violation as ex:
        return {'result': 'violation', 'what': str(ex)}
    except Hang:
        return {'result': 'violation', 'what': 'does not terminate'}
    except SystemExit as ex:
        return {'result': 'violation', 'what': f'exits: {ex}'}
    except Exception as ex:
        from symx import standin
        if standin.lacks(ex):
            return {'result': 'skip'}
        tb = traceback.extract_tb(ex.__traceback__)
        loc = ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:3])
        return {'result': 'violation', 'what': f'raises {type(ex).__name__}: {ex} [{loc}]'}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        builtins.open = real_open
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    d = json.load(open(sys.argv[1]))
    batch = d['batch'] if 'batch' in d else [d]
    bad = 0
    for e in batch:
        r = run_one(e)
        bad |= r['result'] == 'violation'
        print(json.dumps(r), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
