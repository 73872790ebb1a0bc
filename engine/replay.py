"""Runs harnesses concretely on the unmodified package (repo's own Python).
stdin: one JSON job per line; stdout: one JSON result per line.
With a file argument: replays that counterexample and exits 1 when the
property is violated."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(1, os.environ.get('SX_REPO', '/repo'))
os.environ['TZ'] = 'UTC'
sys.dont_write_bytecode = True

from engine import harness as H   # noqa: E402


def jsonable(x):
    import datetime
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, datetime.timedelta):
        return ['us', (x.days * 86400 + x.seconds) * 10 ** 6
                + x.microseconds]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def run(job):
    importlib.import_module('props.' + job['module'])
    for h in H.REGISTRY[job['prop']]:
        if h.name == job['harness']:
            break
    else:
        return {'outcome': 'error', 'label': 'no such harness'}
    api = H.ConcAPI(job['inputs'], job.get('known', ()))
    shard = {k: tuple(v) if isinstance(v, list) else v
             for k, v in job['shard'].items()}
    try:
        h.fn(api, **shard)
    except H.CheckFailed as e:
        return {'outcome': 'violated', 'label': e.label,
                'obs': jsonable(list(api.obs_.items()))}
    except H.AssumptionFailed as e:
        return {'outcome': 'assume', 'label': str(e)}
    except Exception as e:
        t = e.__traceback__
        while t.tb_next:
            t = t.tb_next
        if isinstance(e, AttributeError) and t.tb_frame.f_code.co_filename \
                .startswith(VERIF + os.sep):
            # The harness names something the tree does not have.
            return {'outcome': 'error', 'label': f'harness: {e}'[:300]}
        return {'outcome': 'violated',
                'label': f'exception {type(e).__name__}: {e}'[:300],
                'tb': traceback.format_exc()[-1500:]}
    return {'outcome': 'ok', 'checks': api.checks,
            'obs': jsonable(list(api.obs_.items()))}


def main():
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            job = json.load(f)
        r = run(job)
        print(json.dumps(r, indent=1, ensure_ascii=False))
        sys.exit(1 if r['outcome'] == 'violated' else 0)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            r = run(json.loads(line))
        except Exception as e:
            r = {'outcome': 'error', 'label': repr(e)[:300]}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
