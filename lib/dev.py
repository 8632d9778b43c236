"""development aid: dev.py FUNC SEED SIZE [WANT] [k=v...]"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import directed, campaigns, switch, locks, kin, brink, midway, burst, many
try:
    import pure, packs
except ImportError:
    pure = packs = None
f, seed, size = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
want = sys.argv[4] if len(sys.argv) > 4 and sys.argv[4] != '-' else None
kw = dict(a.split('=') for a in sys.argv[5:])
fn = next(getattr(m, f) for m in (directed, campaigns, switch, locks, kin, brink, midway, burst, many, pure, packs) if m and hasattr(m, f))
t = time.time()
s = fn(seed, size, want, **kw)
print(s['label'], 'txs', s['txs'], s['ok_txs'], 'nviol', s['nviol'], 'decided', s['decided'], 'cases', len(s['cases']), s['extra'], 'wall %.1f' % (time.time() - t))
for v in s['violations'][:4]: print('  ', v['tags'], v['kind'], v['detail'][:900])
if s['violations']: print('\n'.join(s['log'][-4:]))
for x in s['samples'][:3]: print('   sample', x[:300])
