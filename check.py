"""check.py PROPERTY [quick|thorough] | --replay FILE

Runs the planned workloads of one property on the contracts in $VERIF_REPO (default /repo) under the monitors.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (monitors were never reached, or workloads died)."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'lib'))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')
BUDGET = {'quick': 420, 'thorough': 780}       # seconds after which remaining workloads are skipped
QUICK = 2                                      # the plans' numbers for the quick tier, times this
JOB_LIMIT = {'quick': 240, 'thorough': 400}


class JobTimeout(KeyboardInterrupt):
    pass


def workload(name):
    for m in ('campaigns', 'directed', 'switch', 'locks', 'kin', 'brink', 'midway', 'burst', 'many', 'pure', 'packs'):
        mod = importlib.import_module(m)
        f = getattr(mod, name, None)
        if f is not None and getattr(f, '__module__', None) == m:
            return f
    raise KeyError(name)


def run_job(job):
    """in a worker: one workload; never raises"""
    prop, fn, size, kw, seed, limit = job
    import world
    import campaigns
    import oracle
    oracle.use()
    world.World.latest = None

    def alarm(*_):
        raise JobTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    t0 = time.time()
    s = err = None
    try:
        s = workload(fn)(seed, size, prop, **kw)
    except world.Deploy as e:
        err = ('set-up', f'{e}')
    except JobTimeout:
        err = ('timeout', f'no end after {limit} s')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        err = ('died', traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    if s is None:
        w = world.World.latest
        if w is not None and w.sh is not None:
            s = campaigns.summary(w, fn, {}, t0, inconclusive=err)
        else:
            s = campaigns.Summary(label=fn, violations=[], nviol=0, txs=0, ok_txs=0, frames=0, counts={}, kinds={}, decided=0, cases=set(),
                                  samples=[], log=[], extra={}, wall=time.time() - t0, inconclusive=err)
        if err[0] == 'set-up' and 'could not be deployed' in err[1]:
            s['violations'] = s['violations'] + [dict(tags=['P34'], kind='valid installation is accepted', detail=err[1])]
    s['job'] = dict(fn=fn, size=size, kw=kw, seed=seed)
    return s


def known_findings(prop):
    """'finding: property=PXX kind=<assertion> contains=<text>' lines; 'fixed:' lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f'finding: property={prop} '):
                kind = line.split(' kind=', 1)[1].split(' contains=')[0].strip()
                text = line.split(' contains=', 1)[1].strip() if ' contains=' in line else ''
                out.append((kind, text))
    return out


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from plans import PLANS, RULES, RULE_OF
    t0 = time.time()
    base = seed * 1000003 + zlib.crc32(prop.encode()) % 9973 * 1009
    jobs, k = [], 0
    rows = [[fn, size, kw, (QUICK * nq if tier == 'quick' else max(nt, 2 * QUICK * nq)), 0] for fn, size, kw, nq, nt in PLANS[prop]]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for r in rows:
        r[3] = max(1, int(r[3] * scale))
    # interleave the workloads so that a run cut short still has seen all of them
    while any(r[4] < r[3] for r in rows):
        for r in rows:
            if r[4] < r[3] and r[4] / r[3] <= min(x[4] / x[3] for x in rows) + 1e-9:
                jobs.append((prop, r[0], r[1], r[2], base + k, JOB_LIMIT[tier]))
                r[4] += 1
                k += 1
    tmp = tempfile.mkdtemp(prefix=f'dexcheck-{prop}-')
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    known = known_findings(prop)
    sums, bad, seen_known = [], None, {}
    skipped = 0
    pool = mp.Pool(min(int(os.environ.get('VERIF_JOBS', '8')), len(jobs)), maxtasksperchild=6)
    try:
        it = pool.imap_unordered(run_job, jobs)
        for _ in range(len(jobs)):
            left = BUDGET[tier] - (time.time() - t0)
            try:
                s = it.next(timeout=max(1, left + 5)) if left > -5 else None
            except mp.TimeoutError:
                s = None
            if s is None:
                skipped = len(jobs) - len(sums)
                break
            sums.append(s)
            for v in s['violations']:
                if prop not in v['tags']:
                    continue
                kf = next((x for x in known if x[0] == v['kind'] and x[1] in v['detail']), None)
                if kf:
                    seen_known[kf] = v
                elif bad is None:
                    bad = (s, v)
            if bad:
                break
    finally:
        pool.terminate()
        pool.join()
        shutil.rmtree(tmp, ignore_errors=True)
    return report(prop, tier, seed, sums, bad, seen_known, skipped, len(jobs), t0, RULES[RULE_OF[prop]])


def report(prop, tier, seed, sums, bad, seen_known, skipped, njobs, t0, rule):
    decided = sum(s['decided'] for s in sums)
    cases = set().union(*[s['cases'] for s in sums]) if sums else set()
    kinds = {}
    for s in sums:
        for (p, kind), n in s['kinds'].items():
            if p == prop:
                kinds[kind] = kinds.get(kind, 0) + n
    samples = []
    for s in sums:
        for x in s['samples'][:2]:
            if len(samples) < 6 and x not in samples:
                samples.append(x[:600])
    workloads = {}
    for s in sums:
        w = workloads.setdefault(s['label'], dict(runs=0, transactions=0, accepted=0, calls_monitored=0, decided=0))
        w['runs'] += 1
        w['transactions'] += s['txs']
        w['accepted'] += s['ok_txs']
        w['calls_monitored'] += s['frames']
        w['decided'] += s['decided']
        for k, v in (s['extra'] or {}).items():
            if isinstance(v, int):
                w[k] = w.get(k, 0) + v
    dead = [s for s in sums if s['inconclusive']]
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'exploration')
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=decided, distinct_nontrivial=len(cases), rule=rule, samples=samples or ['none'],
                            assertions_evaluated=sum(kinds.values()), assertion_kinds=dict(sorted(kinds.items(), key=lambda x: -x[1])[:60]),
                            workloads=workloads, workloads_planned=njobs, workloads_run=len(sums), workloads_skipped=skipped,
                            workloads_ended_early=[f'{s["label"]}: {s["inconclusive"][0]}: {s["inconclusive"][1][-300:]}' for s in dead[:5]]),
              violations=1 if bad else 0, wall_s=round(time.time() - t0, 2),
              assumptions=['iconservice 1.1.2 executes calls, events, conversions and container databases as a node does',
                           'blocks, fees and consensus are outside the model; the ledger is an in-memory key-value store'])
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for (kind, text), v in seen_known.items():
        print(f'KNOWN-FINDING: property={prop} {kind}: {v["detail"][:300]}')
    print(f'{prop} {tier} seed={seed}: {len(sums)}/{njobs} workloads, {decided} cases decided, {len(cases)} distinct, '
          f'{sum(kinds.values())} assertions, {ev["wall_s"]} s' + (f', {len(dead)} workloads ended early' if dead else ''))
    if bad:
        s, v = bad
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        body = dict(property=prop, tier=tier, job=s['job'], violation=v, all_violations=s['violations'][:10], log=s['log'])
        name = f'{prop}-{hashlib.sha256(json.dumps([s["job"], v], sort_keys=True).encode()).hexdigest()[:12]}.json'
        with open(os.path.join(d, name), 'w') as f:
            json.dump(body, f, indent=1)
        print(f'  {v["kind"]}: {v["detail"][:1500]}')
        print(f'VIOLATION property={prop} replay=evidence/replay/{name}')
        return 1
    for s in dead[:3]:
        print(f'  note: {s["label"]} seed {s["job"]["seed"]} ended early: {s["inconclusive"][0]}: {s["inconclusive"][1][-1500:]}')
    if decided == 0 or len(dead) * 2 > len(sums):
        print(f'{prop}: no answer')
        return 2
    return 0


def replay(path):
    b = json.load(open(path if os.path.exists(path) else os.path.join(ROOT, path)))
    j = b['job']
    tmp = tempfile.mkdtemp(prefix='dexreplay-')
    tempfile.tempdir = tmp
    try:
        s = run_job((b['property'], j['fn'], j['size'], j['kw'], j['seed'], 800))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hits = [v for v in s['violations'] if b['property'] in v['tags']]
    for v in hits[:5]:
        print(f'{v["kind"]}: {v["detail"][:3000]}')
    for x in s['log'][-15:]:
        print('   ', x)
    if hits:
        print(f'VIOLATION property={b["property"]} replay={path}')
        return 1
    print(f'{b["property"]}: not reproduced' + (f' ({s["inconclusive"]})' if s['inconclusive'] else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
