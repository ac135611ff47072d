#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: verify the contracts of one property against
/repo's current source.  Exit 0: held; 1: VIOLATION printed; 2: the check
itself failed."""
import argparse
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import uuid
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def worker(uid, q, opts):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (opts['mem'] << 30, opts['mem'] << 30))
        os.environ['PYTHONHASHSEED'] = '0'
        import random
        random.seed(opts['seed'])
        from pydv import registry, symcx, core
        u = [u for u in registry.load_all() if u.id == uid][0]
        core.State.prove_deadline = time.time() + opts['prove']
        r = symcx.run_unit(u, timeout=opts['timeout'], deadline=opts['exec'])
    except BaseException as e:
        r = dict(unit=uid, status='crash', error=repr(e), trace=traceback.format_exc()[-3000:], obligations=0, discharged=0,
                 failed=[], paths=0, assumed=[], notes=[], funcs=[])
    q.put((uid, r))


def run_symbolic(units, opts, jobs, conc=None):
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = sorted(units, key=lambda u: -u.opts.get('cost', 1))
    live, res = {}, {}
    stop = None
    while todo or live:
        if conc is not None and conc[0].poll() is not None:
            try:
                if any(v['status'] == 'fail' and not is_known(k, v['fail'] or '') for k, v in json.load(open(conc[1])).items()):
                    stop = time.time() + 40    # a failing input is known: no need to finish every proof
            except Exception:
                pass
            conc = None
        while todo and len(live) < jobs:
            u = todo.pop(0)
            p = ctx.Process(target=worker, args=(u.id, q, opts))
            p.start()
            live[u.id] = (p, time.time())
        try:
            uid, r = q.get(timeout=.2)
            res[uid] = r
            p, _ = live.pop(uid)
            p.join()
        except Exception:
            pass
        for uid, (p, t) in list(live.items()):
            if not p.is_alive() and q.empty():
                time.sleep(.3)
                if q.empty():
                    res[uid] = dict(unit=uid, status='crash', error='worker ended (%s)' % p.exitcode, obligations=0,
                                    discharged=0, failed=[], paths=0, assumed=[], notes=[], funcs=[])
                    live.pop(uid)
            elif time.time() - t > opts['wall'] or stop and time.time() > stop:
                p.kill()
                p.join()
                res[uid] = dict(unit=uid, status='unsupported', error='stopped after a failing input was found' if stop else 'out of time (%ds)' % opts['wall'], obligations=0,
                                discharged=0, failed=[], paths=0, assumed=[], notes=[], funcs=[])
                live.pop(uid)
    return res


def conc_env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', NUMBA_NUM_THREADS='4', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='2')
    if os.path.isdir('/opt/venv/mplconfig'):
        e['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
    return e


def start_conc(args, scratch, tag):
    out = os.path.join(scratch, tag + '.json')
    log = open(os.path.join(scratch, tag + '.log'), 'w')
    e = conc_env()
    e['TMPDIR'] = scratch
    p = subprocess.Popen([VENV, os.path.join(HERE, 'pydv', 'conc_main.py'), out] + args, env=e, stdout=log,
                         stderr=subprocess.STDOUT, cwd=scratch, start_new_session=True)
    return p, out, log.name


def end_conc(h, timeout):
    p, out, log = h
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return None, 'out of time'
    if p.returncode or not os.path.exists(out):
        return None, open(log).read()[-2000:]
    return json.load(open(out)), None


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(uid, txt):
    return [x for x in known_findings() if x.get('status') == 'known' and x['unit'] == uid and x['match'] in txt]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--jobs', type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument('--unit')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from pydv import registry
    units = registry.units_of(a.prop)
    if a.unit:
        units = [u for u in units if a.unit in u.id]
    if not units:
        print('no units for', a.prop)
        sys.exit(2)
    ev = os.path.join(HERE, 'evidence')
    rp = os.path.join(ev, 'replay')
    os.makedirs(rp, exist_ok=True)
    # (no '_' or '.' in the name: CHECLabPy derives names from parts of paths)
    scratch = os.path.join(tempfile.gettempdir(), 'pydvcheck' + uuid.uuid4().hex)
    os.mkdir(scratch, 0o700)
    thorough = tier == 'thorough'
    opts = dict(mem=6, seed=seed, timeout=60000 if thorough else 15000, exec=500 if thorough else 250,
                prove=650 if thorough else 400, wall=750 if thorough else 600)
    try:
        rc = decide(a, units, tier, seed, t0, ev, rp, scratch, thorough, opts)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(a, units, tier, seed, t0, ev, rp, scratch, thorough, opts):
    ch = start_conc(['--prop', a.prop, '--seed', str(seed), '--budget', str(240 if thorough else 20),
                     '--runs', str(4000 if thorough else 300)] + sum((['--unit', u.id] for u in units), []), scratch, 'sweep')
    res = run_symbolic(units, opts, a.jobs, ch)
    conc, cerr = end_conc(ch, 420 if thorough else 240)
    if conc is None:
        conc, cerr2 = {}, cerr
    viols = []
    undecided = []
    broken = []
    for u in units:
        r = res[u.id]
        c = conc.get(u.id)
        cf = c and c['status'] == 'fail'
        if r['status'] in ('vacuous', 'crash'):
            broken.append((u, r))
        if r['status'] == 'unsupported':
            undecided.append((u, r, c))
        if r['status'] == 'failed':
            viols.append((u, r, c if cf else None))
        elif cf:
            viols.append((u, r, c))
    out = []
    replays = 0
    for u, r, c in viols:
        f = next((x for x in r['failed'] if x.get('inputs')), r['failed'][0] if r['failed'] else None)
        found = c
        origin = 'sweep'
        if found is None and replays < 4:
            replays += 1
            tries = [x['inputs'] for x in r['failed'] if x.get('inputs')][:3] or [None]
            for k, inp in enumerate(tries):
                args = ['--unit', u.id, '--seed', str(seed + 7 + k), '--budget', str(60 if thorough else 20), '--runs', '3000']
                if inp is not None:
                    fn = os.path.join(scratch, 'in%d.json' % k)
                    json.dump(inp, open(fn, 'w'))
                    args += ['--inputs', fn]
                got, err = end_conc(start_conc(args, scratch, 'replay%d_%d' % (replays, k)), 150)
                if got and got[u.id]['status'] == 'fail':
                    found = got[u.id]
                    origin = 'counterexample replay / directed search'
                    break
        path = os.path.join(rp, '%s.json' % u.id.replace('/', '_'))
        json.dump(dict(property=a.prop, unit=u.id, contract=u.fn.__module__ + ':' + u.fn.__name__,
                       obligation=f['name'] if f else None, solver_status=f['status'] if f else None,
                       goal=f['goal'] if f else None, path_condition=f['pc'] if f else None,
                       counterexample=f.get('inputs') if f else None,
                       other_failed=[x['name'] for x in r['failed'][1:]],
                       symbolic_status=r['status'], functions=r.get('funcs'),
                       failing_input=found['inputs'] if found else None, failure=found['fail'] if found else None,
                       found_by=origin if found else None,
                       replay_cmd="python3 -c \"import json;json.dump(json.load(open('%s'))['failing_input'],open('/tmp/in.json','w'))\" && "
                       "MPLBACKEND=Agg %s %s/pydv/conc_main.py /dev/stdout --unit %s --inputs /tmp/in.json --seed %s"
                       % (path, VENV, HERE, u.id, found['seed'] if found else 1)), open(path, 'w'), indent=1, default=str)
        out.append((u, r, f, found, path))
    fresh = []
    for o in out:
        u, r, f, found, path = o
        txt = (found['fail'] if found else '') + ' ' + (f['name'] if f else '')
        # every failure of the unit has to be the listed one
        k = is_known(u.id, txt)
        if k and all(k[0]['match'] in x['name'] for x in r['failed']):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]['what']))
        else:
            fresh.append(o)
    # ---------------------------------------------------------- evidence
    from pydv import red
    listed = set(u.id for u, *_ in out) - set(o[0].id for o in fresh)
    nob = sum(r['obligations'] for k, r in res.items() if k not in listed)
    ndis = sum(r['discharged'] for k, r in res.items() if k not in listed)
    sol = {}
    for r in res.values():
        for k, v in r.get('solver', {}).items():
            sol[k] = max(sol.get(k, 0), v) if k == 'max' else sol.get(k, 0) + v
    assumed = sorted(set(x for r in res.values() for x in r['assumed']))
    trusted = ["pydv: symbolic semantics of the interpreted Python/numpy subset (/verif/pydv; cross-checked each run against "
               "CPython/numpy on the same contracts)", "z3 5.x and cvc5 1.1.2",
               "machine arithmetic treated as mathematical: floats are reals plus nan/+inf/-inf classes, ints unbounded"]
    bounded = [dict(unit=u.id, reason=r['error'], bounded_runs=(c or {}).get('runs'), result=(c or {}).get('status'))
               for u, r, c in undecided]
    level = 'proof'
    json.dump(dict(
        property=a.prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=nob, discharged=ndis,
            checker_cmd='python3-vt /verif/check.py %s%s' % (a.prop, ' --thorough' if thorough else ''),
            trusted_base=trusted,
            functions_under_contract=sorted(set(f for r in res.values() for f in r['funcs'] if f.startswith('CHECLabPy'))),
            units=[dict(unit=u.id, status=res[u.id]['status'], obligations=res[u.id]['obligations'],
                        discharged=res[u.id]['discharged'], paths=res[u.id]['paths'], seconds=res[u.id].get('seconds'),
                        contract=(u.fn.__doc__ or '').strip(), notes=res[u.id]['notes']) for u in units],
            back_ends=dict(z3_queries=sol.get('queries'), z3_seconds=round(sol.get('z3', 0), 2),
                           cvc5_seconds=round(sol.get('cvc5', 0), 2), discharged_by_cvc5=sol.get('cvc5_used', 0),
                           longest_query_seconds=round(sol.get('max', 0), 2)),
            bounded_not_proved=bounded,
            known_findings=[x['what'] for k in sorted(listed) for x in known_findings() if x.get('unit') == k],
            concrete_cross_check={k: dict(runs=v['runs'], discarded=v['discarded'], checks=v['checks'], status=v['status'])
                                  for k, v in conc.items()}),
        assumptions=assumed + sorted(set(n for r in res.values() for n in r['notes'])),
        violations=len(fresh), wall_s=round(time.time() - t0, 2)), open(os.path.join(ev, a.prop + '.json'), 'w'), indent=1)
    # ---------------------------------------------------------- report
    for u in units:
        r = res[u.id]
        print('%-45s %-11s %d/%d obligations, %d paths, %.1fs%s' % (
            u.id, r['status'], r['discharged'], r['obligations'], r['paths'], r.get('seconds') or 0,
            '' if r['status'] != 'unsupported' else '  [bounded stand-in: %s; %s]' % (
                (conc.get(u.id) or {}).get('status'), r['error'])))
    if fresh:
        fresh.sort(key=lambda o: o[3] is None)
        for u, r, f, found, path in fresh:
            print('FAILED %s: obligation "%s" (%s)' % (u.id, f['name'] if f else '-', f['status'] if f else r['status']))
            if found:
                print('   failing input found: %s' % found['fail'])
        u, r, f, found, path = fresh[0]
        print('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if found else ' no-failing-input-found'))
        return 1
    if broken:
        for u, r in broken:
            print('BROKEN %s: %s %s' % (u.id, r['status'], r.get('error')))
            print(r.get('trace') or '')
        return 2
    for u, r, c in undecided:
        if u.id in listed:
            continue
        back = conc.get(u.opts.get('fallback'))
        if c and c['status'] == 'beyond' and back and back['status'] == 'ok':
            continue
        if u.opts.get('conc') is False or c is None or c['status'] not in ('ok',):
            print('UNDECIDED %s: %s; concrete: %s %s' % (u.id, r['error'], c and c['status'], cerr or ''))
            return 2
    print('OK property=%s obligations=%d discharged=%d%s' % (a.prop, nob, ndis,
                                                            '' if not undecided else ' bounded_units=%d' % len(undecided)))
    return 0


if __name__ == '__main__':
    main()
