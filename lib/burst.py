"""burst: many requests in one transaction - the same ones again, their opposites, settings changed and questions asked in between.  What an
instance keeps from one of them to the next (in a transaction, or in a block) has to stay true."""
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from brink import web
from campaigns import summary
from directed import Snap, stop
from spec import PPM
from switch import by


def burst(seed, size, want):
    t0 = time.time()
    w = web('burst', seed)
    sh, r, n, D = w.sh, w.rng, w.network, w.owner
    h, aide = w.puppets[0], w.puppets[1]
    fts, icxs = list(w.conns), w.icxs

    def give(s, to):
        w.must(D, s, 'transferOwnerShip', _newOwner=to)
        w.run(to, [(s, 'acceptOwnerShip', (), 0, False)])
    twin = {}
    for t, (c, cs) in w.conns.items():
        twin[t] = w.add_converter(t, [(x, r.choice([100000, 200000])) for x in cs], PPM, r.choice([0, 5000]), [10 ** r.randrange(18, 21) for _ in cs], activate=False)
    reg2 = w.new_registry()
    net2 = w.new_network()
    w.must(D, reg2, 'registerAddress', _scoreName='Network', _scoreAddress=r.choice([n, net2]))
    w.must(D, w.registry, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=reg2)
    e = w.new_ft()
    w.must(D, e, 'transfer', _to=h, _value=10 ** 19)
    for s in [c for c, _ in w.conns.values()] + list(twin.values()) + [w.registry, reg2, n, e]:
        give(s, h)
    for c in list(twin.values()) + [c for c, _ in w.conns.values()]:
        if r.random() < .5:
            by(w, h, c, 'transferManagement', aide)
            by(w, aide, c, 'acceptManagement')
    for t in w.irc + icxs + fts:
        if r.random() < .3:
            by(w, h, t, 'transfer', n, r.choice([10 ** 3, 10 ** 15, 10 ** 17]), b'conversionResult')
    sh.want = want
    base = Snap(w)
    of = {}
    for t, (c, cs) in w.conns.items():
        for x in cs + [t]:
            of.setdefault(x, []).append(t)
    every = {t: cs + [t] for t, (c, cs) in w.conns.items()}
    every_token = w.irc + icxs + fts + [e]
    AMT = [1000, 10 ** 12, 10 ** 15, 10 ** 16, 10 ** 17, 10 ** 17, 10 ** 18]
    counts = {}

    def A(to, m, *a, value=0):
        return (to, m, tuple(a), value, r.random() < .93)

    def aside(*acts):
        """made by the other contract of ours"""
        BEHAVIOUR[aide].script = list(acts)
        return A(aide, 'run')

    def path(k=None):
        cur = r.choice(w.irc + icxs + fts)
        p = [cur]
        for _ in range(k or r.choice([1, 1, 1, 2, 2, 3])):
            fresh = [f for f in of.get(cur, []) if f not in p[1::2]]
            if not fresh:
                break
            f = r.choice(fresh)
            cur = r.choice([x for x in every[f] if x != cur])
            p += [f, cur]
        return p if len(p) > 2 else path()

    def back(p):
        return p[::-1]

    def conv(p, amt=None, mn=None, to=None):
        amt = amt or r.choice(AMT)
        ps = ','.join(map(str, p))
        if p[0] in icxs[:2] and r.random() < .5:
            return A(n, 'convert', ps, mn or 1, value=amt) if to is None else A(n, 'convertFor', ps, mn or 1, to, value=amt)
        return A(p[0], 'transfer', n, amt, w.path_data(p, mn or 1, to))

    def live(f):
        own = sh.get(('own', f))
        return own if own in w.conv else w.conns[f][0]

    def theme():
        """a handful of requests about the same things"""
        f = r.choice(fts)
        c, cs = live(f), every[f][:-1]
        other = twin[f] if c != twin[f] else w.conns[f][0]
        s, s2 = r.choice(cs), r.choice(cs)
        p = r.choice([[s, f, f], [f, f, s], [s, f, s2] if s != s2 else [s, f, f], path(), path()])
        amt = r.choice(AMT)
        x = r.random()
        if x < .3:
            # the same conversion again and again, and back
            pool = [conv(p, amt), conv(p, amt), conv(back(p), amt), conv(p), conv(path(1)),
                    A(c, 'getReturn', p[0], p[2], amt), A(c, 'getConnectorBalance', s), A(f, 'totalSupply'), A(f, 'balanceOf', c),
                    A(n, 'getExpectedReturnByPath', ','.join(map(str, p)), amt)]
            return 'conversions', pool
        if x < .42:
            pool = [conv(p, amt), conv(p, amt), A(c, 'setConversionFee', r.choice([0, 1000, 500000, PPM])), A(c, 'setConversionFee', r.choice([0, 3, 30000])),
                    A(c, 'getReturn', p[0], p[2], amt), A(c, 'getFinalAmount', amt, r.choice([1, 2])), A(c, 'getConversionFee')]
            return 'fee', pool
        if x < .54:
            pool = [conv([s, f, f], amt), conv([f, f, s], amt), A(c, 'updateConnector', s, r.choice([1, 50000, 100000]), r.random() < .6, r.choice([10 ** 18, 10 ** 20])),
                    A(c, 'updateConnector', s2, r.choice([1, 50000, 100000]), r.random() < .6, r.choice([0, 10 ** 18, 10 ** 20])),
                    A(c, 'disableConnectorPurchases', s, True), A(c, 'disableConnectorPurchases', s, False), A(c, 'getConnector', s), A(c, 'getConnectorBalance', s2),
                    A(c, 'getReturn', s, f, amt), conv([s2, f, s] if s2 != s else [s, f, f], amt)]
            return 'connector', pool
        if x < .62:
            pool = [conv(p, amt), conv(path(1)), A(c, 'disableConversions', True), A(c, 'disableConversions', False), A(c, 'isConversionsEnabled'),
                    A(c, 'disableTokenTransfers', True), A(c, 'disableTokenTransfers', False), A(f, 'transfer', aide, amt), A(f, 'getTransferPossibility')]
            return 'switches', pool
        if x < .72:
            pool = [conv([s, f, f], amt), conv([s, f, f], amt), A(c, 'transferTokenOwnership', other), A(other, 'acceptTokenOwnership'), A(other, 'transferTokenOwnership', c),
                    A(c, 'acceptTokenOwnership'), A(c, 'isActive'), A(other, 'isActive'), A(f, 'getOwner'), A(s, 'transfer', other, amt), A(other, 'withdrawTokens', s, aide, amt),
                    A(c, 'withdrawTokens', s, aide, amt), A(c, 'getReturn', s, f, amt), A(other, 'getReturn', s, f, amt)]
            return 'handed over', pool
        if x < .82:
            pool = [conv([s, f, f], amt), A(w.registry, 'registerAddress', 'Network', n), A(w.registry, 'registerAddress', 'Network', net2), A(w.registry, 'unregisterAddress', 'Network'),
                    A(w.registry, 'registerAddress', 'ScoreRegistry', reg2), A(w.registry, 'registerAddress', 'ScoreRegistry', w.registry),
                    A(reg2, 'registerAddress', 'Network', r.choice([n, net2])), A(reg2, 'registerAddress', 'ScoreRegistry', r.choice([w.registry, reg2])),
                    A(c, 'updateRegistry'), A(c, 'updateRegistry'), A(c, 'restoreRegistry'), A(c, 'disableRegistryUpdate', r.random() < .5),
                    A(w.registry, 'getAddress', 'Network'), A(c, 'getRegistry'), A(c, 'getPreviousRegistry'), A(c, 'isAllowRegistryUpdate'), aside(A(c, 'updateRegistry'))]
            return 'registry', pool
        if x < .9:
            t = r.choice(every_token)
            i = r.choice(icxs)
            pool = [A(t, 'transfer', aide, amt, r.choice([None, b'', b'x'])), A(t, 'transfer', aide, amt, b'x'), A(t, 'transfer', h, amt), A(t, 'balanceOf', h), A(t, 'balanceOf', aide),
                    aside(A(t, 'transfer', h, amt)), A(e, 'issue', aide, amt), A(e, 'issue', h, amt), A(e, 'destroy', aide, amt), A(e, 'destroy', h, amt), A(e, 'totalSupply'),
                    A(e, 'disableTransfer', True), A(e, 'disableTransfer', False), A(i, 'deposit', value=amt), A(i, 'deposit', value=amt), A(i, 'withdraw', amt),
                    A(i, 'withdrawTo', amt, aide), A(i, 'totalSupply'), A(i, None, value=amt), A(n, 'withdrawTokens', t, aide, 1000), A(n, 'withdrawTokens', t, h, 1000)]
            return 'tokens', pool
        if x < .95:
            g = r.choice([n, w.registry, c, e, other])
            pool = [A(g, 'transferOwnerShip', aide), A(g, 'transferOwnerShip', w.eoas[1]), aside(A(g, 'acceptOwnerShip')), A(g, 'getOwner'), A(g, 'getNewOwner'),
                    aside(A(g, 'acceptOwnerShip'), A(g, 'transferOwnerShip', h)), A(g, 'acceptOwnerShip'), A(n, 'registerIcxToken', s, r.random() < .5), A(c, 'setConversionFee', 7),
                    A(c, 'transferManagement', aide), A(c, 'transferManagement', w.eoas[2]), aside(A(c, 'acceptManagement')), A(c, 'getManager'), A(c, 'getNewManager')]
            return 'succession', pool
        t = r.choice(icxs + w.irc)
        i = r.choice(icxs)
        pi = [q for q in (path() for _ in range(4)) if q[-1] in icxs or q[0] in icxs] or [path()]
        pi = pi[0]
        pool = [conv(pi, amt), conv(pi, amt), conv(back(pi), amt), A(n, 'registerIcxToken', r.choice([pi[0], pi[-1]]), False), A(n, 'registerIcxToken', r.choice([pi[0], pi[-1]]), True),
                A(n, 'registerIcxToken', t, r.random() < .5), A(n, 'getIcxTokenRegistered', t), A(n, 'getIcxTokenRegistered', pi[-1]),
                A(n, 'getExpectedReturnByPath', ','.join(map(str, pi)), amt)]
        return 'ICX tokens', pool
    left = size
    while left > 0:
        if r.random() < .7:
            base.restore(w)
        label, pool = theme()
        if r.random() < .2:
            pool += theme()[1]
        few = r.sample(pool, min(len(pool), r.choice([1, 2, 3, 3, 4])))
        acts = []
        for _ in range(r.choice([2, 3, 3, 4, 4, 5, 6, 8, 12])):
            acts.append(r.choice(few) if r.random() < .8 else r.choice(pool))
            if r.random() < .25:
                acts.append(acts[-1])
        sh.scene = f'burst {label}'
        w.log.append(f'burst {label}: {[(str(a), b, [str(z) for z in c], d, q) for a, b, c, d, q in acts]}')
        x = r.random()
        if x < .78:
            w.run(h, acts, sender=r.choice(w.eoas))
        elif x < .83:
            w.run(h, acts, sender=r.choice(w.eoas), method='runRevert')
            w.run(h, acts[:2], sender=r.choice(w.eoas))
        else:
            # one by one: in one block, or in several
            for a in acts:
                if a[0] in w.puppets:
                    w.tx(D, a[0], a[1])
                else:
                    by(w, h, a[0], a[1], *a[2], value=a[3])
        BEHAVIOUR[aide].script = []
        counts[label] = counts.get(label, 0) + 1
        left -= 1
        if stop(w, want):
            break
    sh.scene = ''
    return summary(w, 'burst', {'themes': counts}, t0)
