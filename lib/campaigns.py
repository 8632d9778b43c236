"""Workloads.  Each is a function (seed, size, want) -> Summary; `want` names the property being decided."""
import random
import time
import traceback

from vchain import *          # noqa
from actors import BEHAVIOUR
from world import World, Deploy
from spec import PPM, TOKENS
import ops
from ops import Monkey


class Summary(dict):
    """picklable result of one workload run"""


def notable(violations):
    """the first ones, and the first of every property: a run that broke many times over still reports each property"""
    seen, out = set(), []
    for i, v in enumerate(violations):
        if i < 20 or not seen.issuperset(v['tags']):
            out.append(dict(v))
        seen.update(v['tags'])
    return out


def summary(w, label, extra=None, t0=None, inconclusive=None):
    s = w.sh
    return Summary(label=label, violations=notable(s.violations), nviol=len(s.violations),
                   txs=s.txs, ok_txs=s.ok_txs, frames=s.frames, counts=s.counts, kinds=s.kinds,
                   decided=s.decided, cases=s.cases, samples=s.samples[:4], log=w.log[-40:] if s.violations else [],
                   extra=extra or {}, wall=time.time() - t0 if t0 else 0, inconclusive=inconclusive)


class Found(Exception):
    pass


def guarded(w, want, f):
    """stop a run soon after the wanted property broke"""
    def hit():
        return any(want is None or want in v['tags'] for v in w.sh.violations)
    f(hit)


def populate(w, npup=3, dishonest=True):
    """puppets, a mute SCORE, a second registry and network, a token without converter, odd flexible tokens"""
    r = w.rng
    for _ in range(npup):
        w.puppet(10 ** 21)
    w.mute()
    g2 = w.new_registry()
    if r.random() < .8:
        w.must(w.owner, g2, 'registerAddress', _scoreName='Network', _scoreAddress=w.network)
    if r.random() < .6:
        w.must(w.owner, w.registry, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=g2)
    if r.random() < .4:
        w.new_network()
    if r.random() < .5:
        w.new_registry()
    w.new_irc(supply=r.choice([1, 10 ** 6, 10 ** 12]), decimals=r.choice([0, 8, 18]))
    if r.random() < .5:
        # amounts no converter could handle are still amounts
        t = w.new_irc(supply=r.choice([2 ** 127, 2 ** 128, 2 ** 255, 10 ** 60 + 7, 2 ** 256 + 1]), decimals=r.choice([0, 18, 60]))
        for u in r.sample(w.eoas[1:], 2):
            w.must(w.owner, t, 'transfer', _to=u, _value=w.q(t, 'totalSupply') // r.choice([3, 4, 1000]))
    if r.random() < .3:
        w.new_ft(supply=r.choice([2 ** 128, 2 ** 130 + 1, 10 ** 50]), decimals=r.choice([0, 18]))
    # a converter nobody has given a connector yet
    w.new_converter(w.new_ft(supply=r.choice([0, 1, 10 ** 6])), w.registry, r.choice([PPM, 1000]))
    if dishonest:
        # a flexible token run by a plain account, one run by a puppet
        f1, f2 = w.new_ft(), w.new_ft()
        if w.puppets and r.random() < .7:
            p = w.puppets[0]
            w.must(w.owner, f2, 'transferOwnerShip', _newOwner=p)
            w.run(p, [(f2, 'acceptOwnerShip', (), 0, False)])
        if r.random() < .5:
            w.must(w.owner, f1, 'transferOwnerShip', _newOwner=w.eoas[1])
            w.must(w.eoas[1], f1, 'acceptOwnerShip')
    strand(w)
    nominate(w)
    return w


def strand(w, p=.5):
    """tokens of every kind lie about in the networks; nobody asked for them"""
    r = w.rng
    for n in w.net:
        for t in w.irc + w.ft + w.icxt:
            if r.random() < p:
                hs = [u for u in w.eoas if w.sh.s.get(('bal', t, u))]
                if hs:
                    u = r.choice(hs)
                    w.tx(u, t, 'transfer', _to=n, _value=max(1, w.sh.s[('bal', t, u)] // r.choice([10 ** 3, 10 ** 6, 10 ** 9])), _data=b'conversionResult')


def nominate(w, p=.25):
    """successors that have not taken over (yet)"""
    r = w.rng
    for c in w.ft + w.icxt + w.reg + w.net + w.conv:
        if r.random() < p and w.sh.s.get(('own', c)) in w.eoas:
            w.tx(w.sh.s[('own', c)], c, 'transferOwnerShip', _newOwner=r.choice(w.eoas))
        if c in w.conv and r.random() < p and w.sh.s.get(('mgr', c)) in w.eoas:
            w.tx(w.sh.s[('mgr', c)], c, 'transferManagement', _newManager=r.choice(w.eoas))


def restart_mode(seed):
    """most nodes run for ever; some forget their instances after a failed request, some before every request"""
    return random.Random(f'mode:{seed}').choice(['never', 'never', 'never', 'on_fail', 'always'])


def monkey(seed, size, want, profile='TRADE', restart=None, dishonest=None, tweak=None, label=None):
    t0 = time.time()
    w = World(f'{profile}:{seed}', restart=restart or restart_mode(seed))
    w.sh.want = want
    w.chain.height = w.rng.choice([1, 10 ** 6, 7 * 10 ** 6])
    w.standard()
    populate(w, dishonest=profile in ('HOSTILE', 'NETWORK', 'TRADE') if dishonest is None else dishonest)
    if tweak:
        tweak(w)
    m = Monkey(w, getattr(ops, profile))
    for _ in range(size):
        m.step()
        if any(want is None or want in v['tags'] for v in w.sh.violations):
            break
    done = {k[3:]: v for k, v in m.done.items()}
    return summary(w, label or f'monkey:{profile}', {'ops': done}, t0)
