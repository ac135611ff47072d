"""python conc_main.py OUT.json [options]: run units on the real code."""
import argparse
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('PYDV_REPO', '/repo'))
os.environ.setdefault('MPLBACKEND', 'Agg')
from pydv import registry, conc  # noqa


def beyond(e):
    """The code uses something of an object that stands for a callee that its
    contract does not give."""
    if not isinstance(e, AttributeError) or getattr(e, 'obj', None) is None:
        return False
    t = e.obj if isinstance(e.obj, type) else type(e.obj)
    f = getattr(sys.modules.get(t.__module__), '__file__', None) or ''
    return t.__module__ == 'contract' or f.startswith(os.path.join(os.path.dirname(HERE), 'contracts') + os.sep)


def run_once(u, seed, given=None, tol=None):
    import numpy as np
    cx = conc.Cx(u, seed, given, tol=u.opts.get('tol', 2e-4) if tol is None else tol)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            u.fn(cx)
        return ('ok' if cx.checks else 'empty'), None, cx
    except conc.Discard:
        return 'discard', None, cx
    except conc.CheckFailed as e:
        return 'fail', str(e), cx
    except conc.Beyond as e:
        return 'beyond', str(e), cx
    except Exception as e:
        if u.opts.get('fallback') and beyond(e):
            return 'beyond', 'the contract of a callee does not give what is used: %s' % e, cx
        tb = traceback.extract_tb(e.__traceback__)
        return 'fail', 'raises %s: %s at %s:%d' % (type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno), cx
    finally:
        os.chdir(cwd)
        cx.close()


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--prop')
    p.add_argument('--unit', action='append')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--budget', type=float, default=10)
    p.add_argument('--runs', type=int, default=400)
    p.add_argument('--inputs')
    p.add_argument('--stop', action='store_true', help='stop a unit at its first failure (default)')
    a = p.parse_args()
    units = [u for u in registry.load_all() if (not a.unit or u.id in a.unit) and (not a.prop or a.prop in u.opts['props'])]
    res = {}
    for u in units:
        t0 = time.time()
        r = dict(runs=0, discarded=0, checks=0, status='ok', fail=None, inputs=None, seed=None)
        res[u.id] = r
        if u.opts.get('conc') is False:
            r['status'] = 'skipped'
            continue
        trials = []
        if a.inputs:
            g = json.load(open(a.inputs))
            trials.append((a.seed, g))
            sc = {k: v for k, v in g.items() if not isinstance(v, dict)}
            trials += [(a.seed + 100 + k, sc) for k in range(20)]
            trials += [(a.seed + 200 + k, {n: v for n, v in sc.items() if isinstance(v, int)}) for k in range(10)]
        k = 0
        share = a.budget / max(1, len(units)) if not a.unit else a.budget
        while True:
            if trials:
                seed, g = trials.pop(0)
            else:
                seed, g = a.seed * 100003 + k, None
                k += 1
            st, msg, cx = run_once(u, seed, g)
            if r['runs'] == 0:
                t0 = time.time()
            r['runs'] += 1
            r['checks'] += cx.checks
            if st == 'discard':
                r['discarded'] += 1
            if st == 'beyond':
                r.update(status='beyond', fail=msg)
                break
            if st == 'fail':
                # reproducible?
                st2, msg2, cx2 = run_once(u, seed, dict(cx.used) if all(
                    not (isinstance(v, dict) and v.get('large')) for v in cx.used.values()) else g)
                r.update(status='fail', fail=msg, inputs=cx.used, seed=seed, reproduced=st2 == 'fail')
                break
            if k >= max(20, int(a.runs * u.opts.get('runs_factor', 1))) or time.time() - t0 > share:
                break
        if r['status'] == 'ok' and r['checks'] == 0:
            r['status'] = 'empty'
        r['seconds'] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, 'w'), indent=1, default=lambda o: o.item() if hasattr(o, 'item') else str(o))


if __name__ == '__main__':
    main()
