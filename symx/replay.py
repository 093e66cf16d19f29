"""Runs a harness on concrete inputs against the real, uninstrumented code of /repo.

  replay.py FILE      replay a recorded counterexample: exit 1 if the property is violated, 0 if it holds
  replay.py --serve   answer requests (one JSON object per line on stdin)
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
os.environ.setdefault('TQDM_DISABLE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


def decode(inputs):
    return {k: (kind, Fraction(v) if isinstance(v, str) else v) for k, (kind, v) in inputs.items()}


class Timeout(Exception):
    pass


def run(req):
    from symx import registry, explore
    importlib.import_module('harness.' + req['prop'].lower())
    h = registry.find(req['prop'], req['harness'])
    ctx = explore.ConcreteCtx(decode(req['inputs']))

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(req.get('timeout', 60))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h.fn(ctx, **req['params'])
        return {'result': 'ok', 'checks': ctx.checks}
    except explore.ConcreteFailure as e:
        return {'result': 'violated', 'what': str(e)}
    except explore.MissingInput as e:
        return {'result': 'error', 'what': f'no input {e}'}
    except explore.Assumption as e:
        return {'result': 'assumption', 'what': str(e)}
    except Timeout:
        return {'result': 'timeout'}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO + '/') for f in tb)
        harness_only = tb and tb[-1].filename.startswith(HERE) and 'ctx' in (tb[-1].line or '') and not inrepo \
            and not isinstance(e, (AttributeError, TypeError, LookupError))      # nothing where a value was due
        return {'result': 'error' if harness_only else 'violated',
                'what': f'unexpected {type(e).__name__}: {e} at ' +
                        ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb[-4:][::-1])}
    finally:
        signal.alarm(0)


def serve():
    """answers requests, each in a forked process of its own"""
    pipe = os.dup(1)
    os.dup2(2, 1)
    try:
        import atomtoolkit.atom   # noqa: F401
        if os.environ.get('SYMX_PROP'):
            importlib.import_module('harness.' + os.environ['SYMX_PROP'].lower())
    except BaseException:
        pass
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            try:
                r = run(json.loads(line))
            except BaseException as e:
                r = {'result': 'error', 'what': repr(e)}
            data = (json.dumps(r) + '\n').encode()
            while data:
                data = data[os.write(pipe, data):]
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            os.write(pipe, b'{"result": "error", "what": "the replay crashed"}\n')


def main():
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if sys.argv[1] == '--serve':
        serve()
        return 0
    req = json.load(open(sys.argv[1]))
    r = run(req)
    print(f"replay of {req['prop']}/{req['harness']} with " +
          ', '.join(f'{k}={float(Fraction(v)) if isinstance(v, str) else v}' for k, (_, v) in req['inputs'].items()))
    print(r)
    return 1 if r['result'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
