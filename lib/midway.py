"""midway: a contract of ours is in charge of one flexible token on the way; while it is handed its hop it changes settings, hands flexible
tokens over, pays in and takes out, converts on the side - and then pays what it likes.  The rest of the path meets what it left behind."""
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from brink import web
from campaigns import summary
from directed import Snap, stop
from spec import PPM
from switch import by


def midway(seed, size, want):
    t0 = time.time()
    w = web('midway', seed)
    sh, r, n, D = w.sh, w.rng, w.network, w.owner
    h, aide = w.puppets[0], w.puppets[1]
    fts, icxs = list(w.conns), w.icxs

    def give(s, to):
        w.must(D, s, 'transferOwnerShip', _newOwner=to)
        w.run(to, [(s, 'acceptOwnerShip', (), 0, False)])
    # a second converter for each flexible token, ready to take over
    twin = {}
    for t, (c, cs) in w.conns.items():
        cs2 = cs[:]
        r.shuffle(cs2)
        twin[t] = w.add_converter(t, [(x, r.choice([100000, 200000])) for x in cs2], PPM, r.choice([0, 5000]), [10 ** r.randrange(18, 21) for _ in cs2], activate=False)
    reg2 = w.new_registry()
    net2 = w.new_network()
    w.must(D, reg2, 'registerAddress', _scoreName='Network', _scoreAddress=r.choice([n, net2]))
    w.must(D, w.registry, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=reg2)
    # the flexible tokens of ours
    es = [w.new_ft() for _ in range(2)]
    plain = w.irc + icxs + fts
    for e in es:
        w.must(D, e, 'transfer', _to=h, _value=10 ** 19)
        give(e, h)
    for s in [c for c, _ in w.conns.values()] + list(twin.values()) + [w.registry, reg2, n]:
        give(s, h)
    # something is stranded in the network
    for t in plain + es:
        if r.random() < .4:
            by(w, h, t, 'transfer', n, r.choice([10 ** 3, 10 ** 15, 10 ** 17]), b'conversionResult')
    sh.want = want
    base = Snap(w)
    of = {}
    for t, (c, cs) in w.conns.items():
        for x in cs + [t]:
            of.setdefault(x, []).append(t)
    every = {t: cs + [t] for t, (c, cs) in w.conns.items()}
    counts = {}

    def walk():
        """a path with a hop (or two) of ours"""
        cur = r.choice(plain)
        path, ours = [cur], []
        k = r.choice([2, 2, 3, 3, 4])
        at = set(r.sample(range(k), 2 if k > 2 and r.random() < .25 else 1))
        if r.random() < .7:
            at = {r.choice([0, 0, 1]) if x == k - 1 else x for x in at}
        for i in range(k):
            if i in at:
                f = [e for e in es if e not in path[1::2]]
                if not f:
                    break
                f = f[0]
                nxt = r.choice(plain + es[:1])
                ours.append((f, nxt))
            else:
                fresh = [f for f in of.get(cur, []) if f not in path[1::2]]
                if not fresh:
                    break
                f = r.choice(fresh)
                nxt = r.choice([x for x in every[f] if x != cur])
            path += [f, nxt]
            cur = nxt
        return (path, ours) if ours and len(path) > 2 else walk()

    def A(to, m, *a, value=0):
        return (to, m, tuple(a), value, r.random() < .9)

    def deed(path):
        """what can be done on the way: (label, actions)"""
        x = r.random()
        real = [f for f in path[1::2] if f in w.conns]
        g = r.choice(real) if real and r.random() < .85 else r.choice(fts)
        own = sh.get(('own', g))
        c = own if own in w.conv else w.conns[g][0]
        other = twin[g] if c == w.conns[g][0] else w.conns[g][0]
        ent = [path[i] for i in range(0, len(path), 2) if path[i] in every[g]]
        s = r.choice(ent) if ent and r.random() < .85 else r.choice(every[g])
        if x < .26:
            return 'handed over', [A(c, 'transferTokenOwnership', other), A(other, 'acceptTokenOwnership')]
        if x < .32:
            return 'taken out', [A(c, 'transferTokenOwnership', h), A(g, 'acceptOwnerShip')]
        if x < .36:
            return 'nominated only', [A(c, 'transferTokenOwnership', other)]
        if x < .44:
            return 'fee', [A(c, 'setConversionFee', r.choice([0, 1, 1000, 300000, PPM]))]
        if x < .48:
            return 'conversions', [A(c, 'disableConversions', r.random() < .7)]
        if x < .53:
            return 'purchases', [A(c, 'disableConnectorPurchases', s, r.random() < .7)]
        if x < .58:
            return 'connector', [A(c, 'updateConnector', s, r.choice([1, 50000, 100000, 200000]), r.random() < .5, r.choice([0, 10 ** 18, 10 ** 20]))]
        if x < .62:
            return 'transfers', [A(c, 'disableTokenTransfers', r.random() < .7)]
        if x < .70:
            return 'network renamed', [r.choice([A(r.choice([w.registry, reg2]), 'registerAddress', 'Network', r.choice([n, n, net2, h, c])), A(w.registry, 'unregisterAddress', 'Network'),
                                                 A(c, 'updateRegistry'), A(c, 'restoreRegistry'), A(w.registry, 'registerAddress', 'ScoreRegistry', r.choice([reg2, w.registry]))])]
        if x < .79:
            return 'ICX token', [A(n, 'registerIcxToken', r.choice([path[-1], path[-1], path[0]] + icxs), r.random() < .4)]
        if x < .84:
            return 'withdrawn', [A(n, 'withdrawTokens', r.choice(path[::2]), r.choice([h, aide]), r.choice([1, 10 ** 3, 10 ** 12, 10 ** 15]))]
        if x < .91:
            t = r.choice(path[::2])
            return 'paid in', [A(t, 'transfer', n, r.choice([1, 10 ** 6, 10 ** 14]), b'conversionResult')]
        if x < .96:
            t = r.choice(path[::2])
            fs = of.get(t)
            if not fs:
                return 'nothing', []
            f = r.choice(fs)
            y = r.choice([z for z in every[f] if z != t])
            return 'converted aside', [A(t, 'transfer', n, r.choice([10 ** 12, 10 ** 15]), w.path_data([t, f, y], 1, r.choice([None, h, n, w.eoas[1]])))]
        if x < .98:
            return 'owner', [A(r.choice([n, w.registry, c]), 'transferOwnerShip', r.choice([aide, w.eoas[1]]))]
        return 'ICX', [r.choice([A(r.choice(icxs), 'deposit', value=1000), A(r.choice(icxs), 'withdraw', 1000), A(r.choice(icxs), 'withdrawTo', 10, n)])]
    left, done = size, 0
    while left > 0:
        if r.random() < .75:
            base.restore(w)
        path, ours = walk()
        who = r.choice(w.eoas[1:] + [aide])
        labels = []

        def reaction(z):
            acts = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                lab, a = deed(path)
                labels.append(lab)
                acts += a
            pay = r.choice([0, 1] + [10 ** 12, 10 ** 14, 10 ** 15, 10 ** 16] * 4)
            k = r.randrange(len(acts) + 1) if r.random() < .3 else len(acts)
            acts[k:k] = [(z, 'transfer', (n, pay, b'conversionResult'), 0, r.random() < .1)]
            if r.random() < .05:
                acts.append((z, 'transfer', (n, 7, b'conversionResult'), 0, True))
            return acts
        B = BEHAVIOUR[h]
        acts = reaction(ours[0][1])
        B.on_token = acts
        amt = r.choice([10 ** 12, 10 ** 14, 10 ** 15, 10 ** 16, 1000])
        mn = r.choice([1] * 12 + [1000, 10 ** 12, 10 ** 30])
        to = r.choice([None] * 5 + [w.eoas[2], w.eoas[1], aide, h, h, path[-1], n])
        sh.scene = 'midway ' + labels[0]
        ps = ','.join(map(str, path))
        w.log.append(f'midway {labels} {ps}: {[(str(a), b, [str(z) for z in c], d, e) for a, b, c, d, e in acts]}')
        if path[0] in icxs[:2] and r.random() < .5:
            if to is None:
                by(w, who, n, 'convert', ps, mn, value=amt)
            else:
                by(w, who, n, 'convertFor', ps, mn, to, value=amt)
        else:
            by(w, who, path[0], 'transfer', n, amt, w.path_data(path, mn, to))
        B.on_token = 'accept'
        counts[labels[0]] = counts.get(labels[0], 0) + 1
        left -= 1
        done += 1
        if stop(w, want):
            break
        if r.random() < .08:
            # what changed stays for a while
            base = base if r.random() < .7 else Snap(w)
    sh.scene = ''
    return summary(w, 'midway', {'deeds': counts}, t0)
