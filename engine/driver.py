"""Decides one property: explores every shard of its harnesses, replays what
the solver finds and writes the evidence file."""
import importlib
import json
import math
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from engine import harness as H          # noqa: E402
from engine import symex as sx           # noqa: E402

REPO_PY = os.environ.get('SX_REPO_PY', '/opt/venv/bin/python')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """{name: text} of the findings listed for the property."""
    out = {}
    try:
        with open(KNOWN_FILE, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=' + prop + ' '):
                    rest = line.split(' ', 2)[2]
                    name, text = rest.split(' ', 1)
                    out[name] = text
    except OSError:
        pass
    return out


class Replayer:
    def __init__(self):
        self.p = None

    def run(self, job):
        for attempt in range(2):
            try:
                if self.p is None or self.p.poll() is not None:
                    env = dict(os.environ, TZ='UTC', PYTHONHASHSEED='0')
                    self.p = subprocess.Popen(
                        [REPO_PY, os.path.join(VERIF, 'engine',
                                               'replay.py')],
                        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                        stderr=subprocess.DEVNULL, text=True, env=env,
                        cwd='/')
                self.p.stdin.write(json.dumps(job) + '\n')
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (OSError, ValueError):
                pass
            self.p = None
        return {'outcome': 'error', 'label': 'replay process failed'}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


REP = None


def same(a, b):
    """Observation of the encoding against the real run."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(a))
    return a == b


def run_task(task):
    """One shard of one harness; returns a plain dict."""
    global REP
    from engine import symapi
    from engine import loader
    module, prop, name, shard, opts = task
    h = [x for x in H.REGISTRY[prop] if x.name == name][0]
    known = opts['known']
    t0 = time.time()
    if REP is None:
        REP = Replayer()
    out = {'harness': name, 'shard': shard, 'violations': [],
           'spurious': [], 'unsupported': {}, 'completed': 0,
           'inconclusive': [], 'witness': None, 'validated': 0,
           'mismatch': [], 'functions': {}, 'findings': [], 'error': None,
           'labels': {}}
    sunset = loader.W.sunset_model()
    trace_functions(out['functions'])

    def mkjob(inputs):
        return {'module': module, 'prop': prop, 'harness': name,
                'shard': shard, 'inputs': inputs, 'known': sorted(known)}

    def validate(api, c):
        r, m = c.check(True)
        if r != 'sat':
            return
        # realistic sunsets
        for i in range(12):
            if sunset is None or not sunset.refine(c, m):
                break
            # the same inputs, with their sunsets
            r, m = c.check(api.pinned(m) if i < 10 else True)
            if r != 'sat':
                r, m = c.check(True)
                if r != 'sat':
                    return
        else:
            return
        inputs = api.inputs(m)
        vals = [(n, _plain(api.value(v, m))) for n, v in api.obs_]
        res = REP.run(mkjob(inputs))
        if res['outcome'] == 'ok':
            got = dict(res['obs'])
            bad = [(n, v, got.get(n)) for n, v in vals
                   if not same(v, got.get(n))]
            if bad and not includes(api, c, m, got):
                out['mismatch'].append({'inputs': inputs,
                                        'diff': bad[:3]})
            else:
                out['validated'] += 1
                if out['witness'] is None:
                    out['witness'] = {'inputs': inputs, 'obs': vals}
        elif res['outcome'] == 'violated':
            # the path of the model holds, the real code fails on its input
            out['violations'].append({'label': res.get('label', ''),
                                      'job': mkjob(inputs), 'replay': res})
            raise sx.Violation(res.get('label', ''), inputs)
        else:
            out['mismatch'].append({'inputs': inputs, 'result': res})

    def includes(api, c, m, got):
        """Rounding leaves the model a choice: are the values of the real
        code among those it allows for these inputs?"""
        conds = [api.pinned(m)]

        def add(x, g):
            if isinstance(x, (list, tuple)):
                if not isinstance(g, (list, tuple)) or len(x) != len(g):
                    conds.append(False)
                else:
                    for i, j in zip(x, g):
                        add(i, j)
            elif isinstance(x, sx.SymNum) and isinstance(g, (int, float)):
                d = x.L - sx.const(sx.Fraction(g))
                e = sx.const(sx.Fraction(1, 10 ** 6) * max(1, abs(int(g))))
                conds.append(c.norm_atom(d - e, '<='))
                conds.append(c.norm_atom(sx.Lin({}, 0) - d - e, '<='))
            elif not same(_plain(api.value(x, m)), g):
                conds.append(False)

        for n, v in api.obs_:
            add(v, got.get(n))
        return c.check(sx.conj(conds))[0] == 'sat'

    def body(c):
        api = symapi.SymAPI(c, sunset, known)
        api.confirm = confirm
        try:
            h.fn(api, **shard)
            if c.model is None:
                r, m = c.check(True)
                if r == 'unsat':
                    raise sx.PathAbort
            out['completed'] += 1
            if out['completed'] <= opts['validate'] or (
                    out['completed'] & (out['completed'] - 1) == 0
                    and out['validated'] < 6):
                validate(api, c)
        except sx.Unsupported as e:
            r, m = c.check(True)
            if r != 'unsat':
                k = str(e)[:200]
                n = out['unsupported'].get(k, 0) + 1
                out['unsupported'][k] = n
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
                if m is not None and n <= 3:
                    # the rest of the path on the real code, for one input
                    if confirm(f'beyond the encoding ({k})',
                               api.inputs(m)):
                        raise sx.Violation(k, None)
                    out['spurious'].pop()
        except Exception as e:
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            where = ''
            for fr in reversed(tb):
                if '/engine/' not in fr.filename:
                    where = f"{os.path.basename(fr.filename)}:{fr.lineno}"
                    break
            api.violated(False, f"exception {type(e).__name__} at {where}")
        finally:
            out['inconclusive'] += api.inconclusive

    def confirm(label, inputs):
        """Does the counterexample happen on the real code?"""
        job = mkjob(inputs)
        res = REP.run(job)
        if res['outcome'] == 'violated':
            out['violations'].append({'label': label, 'job': job,
                                      'replay': res})
            return True
        out['spurious'].append({'label': label, 'inputs': inputs,
                                'replay': res})
        return False

    try:
        res = sx.explore(body, max_paths=opts['max_paths'],
                         time_s=opts['time_s'], query_ms=opts['query_ms'])
        st = res.stats
        out['complete'] = res.complete
        out['reason'] = res.reason
        for k in ('queries', 'solver_s', 'paths', 'checks',
                  'checks_interval', 'forks', 'unknown', 'aborted'):
            out[k] = getattr(st, k)
        out['smt'] = st.smt_samples
    except Exception:
        out['error'] = traceback.format_exc()[-2000:]
        out['complete'] = False
        out['reason'] = 'engine error'
    out['wall'] = time.time() - t0
    return out


def _plain(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [_plain(i) for i in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def trace_functions(acc):
    """Record the functions of /repo that are executed symbolically."""
    repo = os.environ.get('SX_REPO', '/repo')
    mon = sys.monitoring
    if mon.get_tool(4) is None:
        mon.use_tool_id(4, 'sx')
    mon.restart_events()

    def start(co, off):
        fn = co.co_filename
        if fn.startswith(repo) and co.co_name[0] != '<':
            acc[f"{os.path.basename(fn)}:{co.co_qualname}"] = 1
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=int, default=0)
    ap.add_argument('--wall', type=float, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from engine import loader
    try:
        w = loader.load()
    except Exception:
        traceback.print_exc()
        print(f"ERROR: cannot load {loader.REPO}")
        return 3
    from engine import world
    world.prepare(w)
    import props
    module = props.MODULE_OF[prop]
    importlib.import_module('props.' + module)
    hs = H.REGISTRY[prop]
    known = known_findings(prop)
    tasks = []
    for h in hs:
        if a.only and a.only not in h.name:
            continue
        if h.known and h.known not in known:
            continue
        opts = {'known': sorted(known), 'max_paths': 20000,
                'time_s': 700 if a.tier == 'quick' else 6000,
                'query_ms': 60000, 'validate': 1}
        opts.update(h.opts)
        if opts.pop('strptime', False):
            loader.load_strptime()
        for s in h.shards(a.tier):
            tasks.append((module, prop, h.name, s, opts))
    if a.limit:
        tasks = tasks[:a.limit]
    results = []
    late = []
    if a.jobs == 1:
        for t in tasks:
            results.append(run_task(t))
            if a.v:
                show(results[-1])
    else:
        # longest first helps little here; keep order, one task at a time
        with mp.get_context('fork').Pool(a.jobs) as pool:
            it = pool.imap_unordered(run_task, tasks, chunksize=1)
            stop = t0 + (a.wall or (600 if a.tier == 'quick' else 5 * 3600))
            while len(results) < len(tasks):
                try:
                    r = it.next(max(0.1, stop - time.time()))
                except mp.TimeoutError:
                    done = {(x['harness'], str(x['shard'])) for x in results}
                    left = [t for t in tasks
                            if (t[2], str(t[3])) not in done]
                    late = [f"{t[2]} {t[3]}: not reached in time"
                            for t in left]
                    pool.terminate()
                    break
                results.append(r)
                if a.v:
                    show(r)
                if r['violations']:
                    pool.terminate()
                    break
    return report(a, prop, hs, known, tasks, results, t0, seed, late)


def show(r):
    print(f"{r['harness']} {r['shard']} paths={r.get('paths')} "
          f"done={r['completed']} checks={r.get('checks')} "
          f"q={r.get('queries')} solver={r.get('solver_s', 0):.1f} "
          f"wall={r['wall']:.1f} {r.get('reason', '')}", flush=True)
    for k in ('spurious', 'unsupported', 'inconclusive', 'mismatch',
              'error', 'violations'):
        if r[k]:
            print('   ', k, str(r[k])[:700], flush=True)


def report(a, prop, hs, known, tasks, results, t0, seed, late=()):
    tot = {k: 0 for k in ('queries', 'solver_s', 'paths', 'checks',
                          'checks_interval', 'forks', 'unknown',
                          'completed', 'validated', 'aborted')}
    funcs = {}
    viol, spur, unsup, inconc, incompl, mism, errs = ([] for _ in range(7))
    incompl += late
    per = {}
    samples = []
    for r in results:
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs.update(r['functions'])
        viol += r['violations']
        spur += r['spurious']
        mism += r['mismatch']
        for k, n in r['unsupported'].items():
            unsup.append(f"{r['harness']} {r['shard']}: {k} ({n})")
        inconc += [f"{r['harness']} {r['shard']}: {x}"
                   for x in r['inconclusive']]
        if r['error']:
            errs.append(r['error'])
        if not r.get('complete') and not r['violations']:
            incompl.append(f"{r['harness']} {r['shard']}: {r['reason']}")
        p = per.setdefault(r['harness'], {
            'shards': 0, 'paths': 0, 'completed': 0, 'queries': 0,
            'checks': 0, 'solver_s': 0.0})
        p['shards'] += 1
        for k in ('paths', 'completed', 'queries', 'checks', 'solver_s'):
            p[k] += r.get(k, 0)
        if len(samples) < 6 and (r['witness'] or r.get('smt')):
            samples.append({'harness': r['harness'], 'shard': r['shard'],
                            'witness': r['witness'],
                            'queries': r.get('smt', [])[:2]})
    vac = [h for h, p in per.items() if p['completed'] == 0]
    known_h = {h.name: h.known for h in hs if h.known}
    lines = []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for i, v in enumerate(viol[:3]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{i}.json")
        with open(path, 'w') as f:
            json.dump(dict(v['job'], label=v['label'],
                           replay_result=v['replay']), f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['job']['harness']} {v['job']['shard']}: {v['label']}; "
              f"inputs {v['job']['inputs']}; replayed: "
              f"{v['replay'].get('label')}")
        print(f"  replay: {REPO_PY} {VERIF}/engine/replay.py {path}")
    found = {r['harness'] for r in results if r['completed']}
    for hname, kname in known_h.items():
        if hname in found:
            print(f"KNOWN-FINDING: property={prop} {kname} {known[kname]}")
    doc = {}
    try:
        import props
        doc = props.DOC.get(prop, {})
    except Exception:
        pass
    ev = {
        'property': prop, 'tier': a.tier if a.tier in (
            'quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot['completed'],
            'transitions': tot['forks'] + tot['paths'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples,
            'technique': 'symbolic execution of the source of /repo, '
                         'z3 decides every branch and assertion',
            'paths_explored': tot['paths'],
            'paths_completed': tot['completed'],
            'assertions_checked': tot['checks'],
            'assertions_closed_by_interval_reasoning':
                tot['checks_interval'],
            'solver_queries': tot['queries'],
            'solver_seconds': round(tot['solver_s'], 2),
            'solver_unknown': tot['unknown'],
            'harnesses': per,
            'functions_encoded': sorted(funcs),
            'bounds': doc.get('bounds', ''),
            'outside': doc.get('outside', ''),
            'not_explored': (unsup + inconc + incompl)[:50],
            'counterexamples_not_reproduced': spur[:5],
            'model_vs_implementation_mismatches': mism[:5],
        },
        'assumptions': doc.get('assumptions', []) + BASE_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for x in errs[:3]:
        print("ENGINE ERROR:", x)
    for x in (unsup + inconc + incompl)[:10]:
        print("NOT EXPLORED:", x)
    for x in spur[:5]:
        print("NOT REPRODUCED:", str(x)[:600])
    for x in mism[:5]:
        print("MISMATCH:", x)
    if vac:
        print("VACUOUS:", vac)
    print(f"{prop}: {tot['completed']} paths, {tot['checks']} assertions, "
          f"{tot['queries']} queries, solver {tot['solver_s']:.1f}s, "
          f"{tot['validated']} witnesses replayed, "
          f"wall {time.time() - t0:.1f}s")
    for line in lines:
        print(line)
    if viol:
        return 1
    if len(vac) == len(per) or len(errs) * 2 > len(results):
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "CPython executes the instrumented source as it executes the original "
    "(only formatting of assertion/exception messages and annotations are "
    "dropped); the result of a float operation is within half an ulp of "
    "the exact value, monotone and exact on representable grids",
    "z3 answers are correct",
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
