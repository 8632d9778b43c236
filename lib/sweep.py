"""development aid: run workloads over many seeds in parallel and print every violation"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ProcessPoolExecutor, as_completed
import campaigns


def job(a):
    name, seed, size, kw = a
    try:
        import directed, switch, locks, kin, brink, midway, burst, many, pure, packs
        fn = next(getattr(m, name) for m in (campaigns, directed, switch, locks, kin, brink, midway, burst, many, pure, packs) if hasattr(m, name))
        return a, fn(seed, size, None, **kw)
    except BaseException as e:
        import traceback
        return a, campaigns.Summary(label=str(a), violations=[dict(tags=['ERR'], kind='error', detail=traceback.format_exc())],
                                    txs=0, ok_txs=0, wall=0, log=[], kinds={}, counts={})


def main(jobs):
    t = time.time()
    seen = {}
    tot = [0, 0]
    with ProcessPoolExecutor(8) as ex:
        for f in as_completed([ex.submit(job, j) for j in jobs]):
            a, s = f.result()
            tot[0] += s.get('txs', 0); tot[1] += s.get('ok_txs', 0)
            for v in s['violations'][:1]:
                k = (v['kind'],)
                seen.setdefault(k, []).append((a, v, s.get('log', [])[-3:]))
    for k, l in seen.items():
        print('=====', k, len(l), l[0][0]); print('   ', l[0][1]['tags'], l[0][1]['detail'][:1500]); print('   ', l[0][2])
    print('jobs', len(jobs), 'txs', tot, 'wall %.1f' % (time.time() - t))


if __name__ == '__main__':
    n, size = int(sys.argv[1]), int(sys.argv[2])
    off = int(os.environ.get('OFF', 0))
    main([(('monkey', s + off, size, {'profile': p}) if p.isupper() else (p.split(':')[0], s + off, size, {'profile': q} if (q := p.partition(':')[2]) else {}))
          for p in sys.argv[3:] for s in range(n)])
