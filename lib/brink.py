"""Shapes and quantities.  routes: conversion paths of every shape (which entries coincide, where they begin and end, whom they pay), those
not yet seen in a run first.  brinks: economies of a handful of units, where supplies, holdings and connector balances are exhausted, restored
and exceeded."""
import json
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from campaigns import summary
from directed import Snap, stop
from ops import EDGES, Monkey
from spec import PPM
from switch import by
from world import World


def web(tag, seed):
    """four converters that share connector tokens, two of them tokens of another, three ICX tokens of which two are registered"""
    w = World(f'{tag}:{seed}', restart='on_fail' if seed % 2 else 'never')
    r = w.rng
    w.base(4)
    D = w.owner
    a, b = w.new_irc(), w.new_irc()
    i, j, k = w.new_icxt(), w.new_icxt(), w.new_icxt()
    for x in (i, j):
        w.must(D, w.network, 'registerIcxToken', _icxToken=x, _register=True)
    f, g, h, e = (w.new_ft() for _ in range(4))
    res = lambda: 10 ** r.randrange(17, 22) + r.randrange(10 ** 6)
    fee = lambda: r.choice([0, 0, 1000, 30000])
    w.conns = {}
    for t, cs in ((f, [i, a, j]), (g, [i, a, f]), (h, [j, b, g, k]), (e, [a, i, b])):
        ws = r.choice([[200000] * 4, [100000, 300000, 150000, 50000], [250000] * 4])[:len(cs)]
        c = w.add_converter(t, list(zip(cs, ws)), PPM, fee(), [res() for _ in cs], True, {cs[0]: res()} if r.random() < .2 else {}, initial=r.random() < .5)
        w.conns[t] = (c, cs)
    p = [w.puppet(10 ** 20) for _ in range(2)]
    for u in w.eoas[1:] + p:
        for t in (a, b, f, g, h, e):
            w.must(D, t, 'transfer', _to=u, _value=10 ** 19)
        for t in (i, j, k):
            w.fund(t, u, 10 ** 19)
    w.icxs, w.ix = [i, j, k], i
    return w


def strand(w):
    """tokens the network holds although nobody converts: sent as if they were what a converter pays"""
    for t in w.irc + w.ft + w.icxt:
        if w.rng.random() < .7:
            w.tx(w.eoas[1], t, 'transfer', _to=w.network, _value=10 ** w.rng.randrange(10, 19), _data=b'conversionResult')


def routes(seed, size, want):
    t0 = time.time()
    w = web('routes', seed)
    sh, r, n = w.sh, w.rng, w.network
    sh.want = want
    m = Monkey(w, dict(trade=1))
    mute = w.mute()
    of = {}
    for t, (c, cs) in w.conns.items():
        for x in cs + [t]:
            of.setdefault(x, []).append(t)
    every = {t: cs + [t] for t, (c, cs) in w.conns.items()}
    fts, icxs, p = list(w.conns), w.icxs, w.puppets
    convs = [c for c, _ in w.conns.values()]

    def walk():
        cur = r.choice(list(of)) if r.random() < .6 else r.choice(icxs)
        path = [cur]
        again = r.random() < .2             # pass through the last token on the way
        for _ in range(r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5]) if not again else r.choice([3, 3, 4])):
            fresh = [f for f in of[cur] if f not in path[1::2]]
            if not fresh and r.random() < .97:
                break
            f = r.choice(fresh if fresh and r.random() < .99 else of[cur])
            nxt = [x for x in every[f] if x != cur]
            if again and set(path[2::2]) & set(nxt):
                nxt = [x for x in nxt if x in path[2::2]]
            elif not again and r.random() < .35 and path[0] in nxt:
                nxt = [path[0]]
            cur = r.choice(nxt)
            path += [f, cur]
            if again and cur in path[2:-1:2]:
                break
        x = r.random()
        if x < .04:
            path[r.randrange(len(path))] = r.choice(list(of) + convs + [n, ZERO, w.eoas[1]])
        elif x < .06:
            path = path[:-1]
        elif x < .08:
            path += [r.choice(fts), path[-1]]
        return path
    entries = ('convert', 'convertFor', 'transfer', 'transfer for')

    def kind(x):
        return 'I' if x in icxs[:2] else 'i' if x in icxs else 'F' if x in fts else 'T' if x in of else '?'

    def payee(path, who):
        x = r.random()
        if x < .35:
            return r.choice([who] + w.eoas[1:])
        if x < .65:
            return r.choice(path + [w.conns[f][0] for f in path[1::2] if f in w.conns])
        return r.choice(p + [mute, n, ZERO] + icxs + fts + convs)

    def shape(path, e, who, to):
        first = {}
        pat = ''.join(chr(97 + first.setdefault(x, len(first))) for x in path)
        own = 'self' if to == who else 'entry %d' % path.index(to) if to in path else sh.roles.get(to, 'account')
        return (pat, ''.join(map(kind, path[::2])), e, own if e in ('convertFor', 'transfer for') else '', who in p)
    seen, done = set(), 0
    if r.random() < .6:
        strand(w)
    base = Snap(w)
    left = size
    while left > 0:
        if r.random() < .6:
            base.restore(w)
        cand = []
        for _ in range(25):
            path, who = walk(), r.choice(w.eoas[1:] + p)
            e = r.choice(entries)
            if path[0] not in icxs and e.startswith('convert') and r.random() < .85:
                e = r.choice(entries[2:])
            cand.append((path, who, e, payee(path, who)))
        path, who, e, to = min(cand, key=lambda c: (shape(c[0], c[2], c[1], c[3]) in seen, (shape(c[0], c[2], c[1], c[3])[:2] in seen)))
        seen |= {shape(path, e, who, to), shape(path, e, who, to)[:2]}
        amt = r.choice([10 ** 12, 10 ** 14, 10 ** 15, 10 ** 15, 10 ** 16, 1, 10 ** 19])
        ps = ','.join(map(str, path))
        mn = 1
        again = path[-1] in path[2:-1:2]
        if again and path[-2] in w.conns and path[-1] != path[-2] and path[-1] in w.conns[path[-2]][1] and r.random() < .8:
            # a last hop that gains: more than it gave when it came by first
            c, amt = w.conns[path[-2]][0], r.choice([10 ** 12, 10 ** 14])
            wt = sh.s.get(('cn', c, path[-1]))
            by(w, w.owner, c, 'updateConnector', path[-1], wt[0] if wt else PPM // 10, True, 10 ** r.randrange(24, 27))
        if again or r.random() < .5:
            q = w.quote(n, path, amt)
            if isinstance(q, int) and q > 0 and (again or r.random() < .6):
                mn = q + r.choice([0, 0, 0, 1])
        sh.scene = f'path {shape(path, e, who, to)[0]} {shape(path, e, who, to)[1]}'
        if e == 'convert':
            by(w, who, n, 'convert', ps, mn, value=amt)
        elif e == 'convertFor':
            by(w, who, n, 'convertFor', ps, mn, to, value=amt)
        elif path[0] in of:
            sent = path[0] if r.random() < .92 else r.choice(list(of) + icxs + path[1::2])      # not what the path begins with
            if sent in of or sent in icxs:
                by(w, who, sent, 'transfer', n, amt, w.path_data(path, mn, to if e == 'transfer for' else None))
        left -= 1
        done += 1
        if stop(w, want):
            break
        if r.random() < .06:
            base.restore(w)
            x = r.choice(icxs)
            by(w, w.owner, n, 'registerIcxToken', x, r.random() < .5)
            f = r.choice(fts)
            by(w, w.owner, w.conns[f][0], 'setConversionFee', r.choice([0, 777, 30000]))
            base = Snap(w)
    sh.scene = ''
    return summary(w, 'routes', {'shapes': len(seen), 'conversions asked': done}, t0)


def brinks(seed, size, want):
    t0 = time.time()
    w = World(f'brinks:{seed}', restart='on_fail' if seed % 2 else 'never')
    sh, r = w.sh, w.rng
    sh.want = want
    w.base(3)
    poor = seed % 3 == 0
    D, n = w.owner, w.network
    p = w.puppet(10 ** 18)
    u1, u2 = w.eoas[1:3]
    a, b = w.new_irc(supply=r.choice([1, 2, 10, 10 ** 6]), decimals=0), w.new_irc(supply=10 ** 9, decimals=0)
    ix = w.new_icxt()
    w.must(D, n, 'registerIcxToken', _icxToken=ix, _register=True)
    f, g = w.new_ft(supply=r.choice([0, 1, 2, 5, 100, 10 ** 6] if poor else [0, 1, 10 ** 3, 10 ** 6]), decimals=0), w.new_ft(supply=r.choice([0, 1, 3]), decimals=0)
    c = w.new_converter(f, w.registry, PPM, b, r.choice([PPM, 500000, 100000, 1]))
    by(w, D, c, 'addConnector', ix, r.choice([1, 300000, 500000]), False)
    by(w, D, c, 'addConnector', g, r.choice([1, 100000]), False)
    by(w, D, ix, 'deposit', value=r.choice([1, 2, 1000]))
    people = [D, u1, u2, p]
    m = Monkey(w, dict(trade=1))
    bal, get = m.bal, lambda *k: sh.get(k)
    toks = [a, b, ix, f, g]
    own = lambda s: get('own', s)
    WAYS = []

    def way(wt):
        def deco(fn):
            WAYS.extend([fn] * wt)
            return fn
        return deco

    def amt(q):
        if r.random() < .75:
            return max(1, r.choice([q, q, q - 1, q // 2, 1, 1, 2]))
        return r.choice([q, q - 1, q + 1, q + 1, 0, 2 * q, q + 2 ** 64, q + 2 ** 256, 10 ** 30, -1, -q])

    def holder(t):
        return r.choice([v for v in people if bal(t, v) > 0] or people)

    def anyone():
        if r.random() < .6:
            return r.choice(people)
        return r.choice(people + [c, n, f, ix, ZERO, r.choice(EDGES)])

    def boss(s, meth, *args, who=None):
        o = own(s) if who is None else who
        return by(w, o, s, meth, *args)

    def fboss(meth, cmeth, *args):
        o = own(f)
        if o == c:
            return boss(c, cmeth, *args)
        return by(w, o, f, meth, *args)

    @way(6)
    def move():
        t = r.choice(toks)
        who = holder(t)
        by(w, who, t, 'transfer', anyone(), amt(bal(t, who)), *r.choice([(), (b'',), (b'None',)]))

    @way(4)
    def burn():
        t = r.choice([f, f, g])
        who = r.choice(people + [c])
        by(w, r.choice([who, own(t), own(t)]), t, 'destroy', who, amt(r.choice([bal(t, who), get('sup', t)])))

    @way(1)
    def burn_all():
        t = r.choice([f, f, g])
        for who in people + [c, n, t, ix]:
            if bal(t, who):
                by(w, r.choice([who, own(t)]) if who in people else own(t), t, 'destroy', who, bal(t, who))

    @way(3)
    def mint():
        t = r.choice([f, f, g])
        by(w, own(t), t, 'issue', anyone(), r.choice([1, 2, 7, 100, 10 ** 3, 10 ** 6] * 3 + [10 ** 30, 2 ** 255, 2 ** 256 - 1, 2 ** 256, 0, -1]))

    @way(3)
    def freeze():
        v = r.random() < .3
        if r.random() < .7:
            fboss('disableTransfer', 'disableTokenTransfers', v)
        else:
            boss(g, 'disableTransfer', v)

    @way(4)
    def into_token():
        who = r.choice(people)
        pay = r.choice([0, 1, 2, 1000, w.chain.icx_balance(who), 10 ** 15])
        if r.random() < .5:
            by(w, who, ix, 'deposit', value=pay)
        else:
            by(w, who, ix, None, value=pay)

    @way(4)
    def out_of_token():
        who = holder(ix)
        x = amt(r.choice([bal(ix, who), get('sup', ix)]))
        if r.random() < .5:
            by(w, who, ix, 'withdraw', x)
        else:
            by(w, who, ix, 'withdrawTo', x, anyone())

    @way(5)
    def take_out():
        s = r.choice([c, c, c, n, f, ix])
        t = r.choice(toks)
        boss(s, 'withdrawTokens', t, r.choice(people + [c, f, s, ZERO]), amt(bal(t, s)))

    @way(2)
    def own_tokens():
        # the ICX token pays itself; what it then holds of its own is taken out again
        who = r.choice([v for v in people if bal(ix, v) > 0] or people)
        if not bal(ix, ix) or r.random() < .3:
            by(w, who, ix, 'withdrawTo', max(1, bal(ix, who) // r.choice([1, 2, 3])), ix)
        BEHAVIOUR[p].on_token = r.choice(['accept', 'accept', 'reject'])
        boss(ix, 'withdrawTokens', ix, r.choice([p, p, p, c, n, u1, ZERO]), max(1, bal(ix, ix) // r.choice([1, 2, 3])))
        BEHAVIOUR[p].on_token = 'accept'

    @way(1)
    def take_from_token():
        t = r.choice(toks)
        boss(c, 'withdrawFromToken', t, r.choice(people + [c]), amt(bal(t, f)))

    @way(4)
    def put_in():
        t = r.choice([b, ix, g, f, a])
        who = r.choice(people[:3] + [own(c)])
        if who in people:
            by(w, who, t, 'transfer', c, amt(bal(t, who)), *r.choice([(), (b'None',), (w.conv_data(r.choice([b, ix, g, f]), r.choice([0, 1, 2])),)][:r.choice([2, 3])]))

    @way(12)
    def convert():
        t = r.choice([b, ix, g, f])
        who = holder(t)
        y = r.choice([z for z in (b, ix, g, f) if z != t])
        path = [t, f, y]
        if r.random() < .06:
            path += [f, r.choice([z for z in (b, ix, g, f) if z != y])]
        x = amt(bal(t, who))
        if want in ('P12', 'P16', 'P21') or r.random() < .3:
            w.quote(n, path, x)
        mn = r.choice([1, 1, 1, 0, 2, -1, 2 ** 70])
        if t == ix and r.random() < .4 and x >= 0:
            by(w, who, n, 'convertFor', ','.join(map(str, path)), mn, anyone(), value=min(x, w.chain.icx_balance(who)))
        else:
            by(w, who, t, 'transfer', n, x, w.path_data(path, mn, r.choice([None, None, anyone()])))

    @way(2)
    def sell_out():
        # everything comes into one hand and is sold
        who = r.choice(people)
        if not get('sup', f) and r.random() < .8:
            if own(f) == c:
                boss(c, 'transferTokenOwnership', D)
                by(w, D, f, 'acceptOwnerShip')
            by(w, own(f), f, 'issue', r.choice(people), r.choice([1, 2, 5, 10 ** 3, 10 ** 5]))
        fboss('disableTransfer', 'disableTokenTransfers', False)
        for v in people:
            if v != who and bal(f, v):
                by(w, v, f, 'transfer', who, bal(f, v))
        for s in (c, n, ix, f):
            if bal(f, s):
                boss(s, 'withdrawTokens', f, who, bal(f, s))
        for v in (f, c, g, ZERO):
            if bal(f, v):
                fboss('destroy', 'destroyTokens', v, bal(f, v)) if own(f) != c else None
        if own(f) != c:
            start()
        ys = [t for t in (b, ix, g) if bal(t, c)] or [b]
        y = r.choice(ys)
        x = bal(f, who)
        if r.random() < .3 and x > 1:
            x -= 1
        # ... under ordinary circumstances, or just when something is switched off or priced otherwise
        after = []
        if r.random() < .5:
            kind = r.choice(['stopped', 'stopped', 'no purchases', 'virtual', 'virtual', 'free', 'dear', 'frozen'])
            cn = get('cn', c, y)
            if kind == 'stopped':
                boss(c, 'disableConversions', True)
                after.append((c, 'disableConversions', False))
            elif kind == 'no purchases':
                boss(c, 'disableConnectorPurchases', y, True)
                after.append((c, 'disableConnectorPurchases', y, False))
            elif kind == 'virtual' and cn:
                have = bal(y, c)
                boss(c, 'updateConnector', y, cn[0], True, r.choice([have, have, have, max(have - 1, 1), have // 2 + 1, have + 1]))
                if r.random() < .7:
                    boss(c, 'setConversionFee', 0)
                    x = bal(f, who)
            elif kind in ('free', 'dear'):
                boss(c, 'setConversionFee', 0 if kind == 'free' else r.choice([1, 500000, PPM]))
            elif kind == 'frozen':
                fboss('disableTransfer', 'disableTokenTransfers', True)
        if want in ('P12', 'P16', 'P21') or r.random() < .3:
            w.quote(n, [f, f, y], x)
        by(w, who, f, 'transfer', n, x, w.path_data([f, f, y], 1, r.choice([None, None, None, anyone()])))
        for act in after:
            boss(*act)
        if r.random() < .5:
            z = r.choice([t for t in (b, ix, g)])
            by(w, holder(z), z, 'transfer', n, amt(bal(z, holder(z))), w.path_data([z, f, r.choice([f, y])], 1))

    @way(2)
    def start():
        if own(f) != c:
            by(w, own(f), f, 'transferOwnerShip', c)
            boss(c, 'acceptTokenOwnership')
        elif r.random() < .5:
            to = r.choice([D, D, u1, p])
            boss(c, 'transferTokenOwnership', to)
            by(w, to, f, 'acceptOwnerShip')

    @way(1)
    def frozen():
        # transfers are off while the ownership is on offer; everybody with a name is paid
        t = r.choice([f, f, g])
        switch = (lambda v: fboss('disableTransfer', 'disableTokenTransfers', v)) if t == f else (lambda v: boss(g, 'disableTransfer', v))
        heir = r.choice([v for v in people if v != own(t)] + ([c] if t == f and own(f) != c else []))
        offer = (lambda v: fboss('transferOwnerShip', 'transferTokenOwnership', v)) if t == f else (lambda v: boss(g, 'transferOwnerShip', v))
        for step in r.sample([lambda: offer(heir), lambda: switch(True)], 2):
            step()
        for v in people:
            if bal(t, v):
                for to in r.sample([heir, own(t), v, D, n, c, t, ix, ZERO, r.choice(people)], 5) + [heir]:
                    by(w, v, t, 'transfer', to, r.choice([1, 1, 0, bal(t, v)]))
        by(w, own(t), t, 'issue', heir, r.choice([1, 5]))
        by(w, own(t), t, 'destroy', heir, 1)
        if r.random() < .3:
            by(w, heir, t, 'acceptOwnerShip') if heir != c else boss(c, 'acceptTokenOwnership')
            by(w, holder(t), t, 'transfer', r.choice(people), 1)
        if r.random() < .7:
            switch(False)
        if t == f:
            start()

    @way(1)
    def hand_over():
        # life goes on between the offer and the acceptance, and nothing of it counts afterwards
        if own(f) != c:
            start()
        heir = r.choice(people)
        boss(c, 'transferTokenOwnership', heir)
        cn = get('cn', c, b)
        for _ in range(r.choice([1, 2, 2, 3])):
            r.choice([lambda: boss(c, 'disableTokenTransfers', False), lambda: boss(c, 'disableTokenTransfers', False), lambda: boss(c, 'disableTokenTransfers', True),
                      lambda: boss(c, 'disableConversions', False), lambda: boss(c, 'withdrawFromToken', r.choice(toks), D, 1),
                      lambda: boss(c, 'updateConnector', b, cn[0], cn[2], 5) if cn else None, lambda: boss(c, 'acceptTokenOwnership'),
                      lambda: boss(c, 'disableConnectorPurchases', b, False), convert])()
        by(w, heir, f, 'acceptOwnerShip')
        for _ in range(2):
            r.choice([convert, convert, take_out, put_in, lambda: w.q(c, 'isActive'), quotes])()
        by(w, D, f, 'transfer', n, 1, w.path_data([f, f, b], 1, None))
        boss(c, 'withdrawTokens', b, D, 1)
        if r.random() < .8:
            start()

    @way(2)
    def settings():
        t = r.choice([b, ix, g])
        x = r.random()
        cn = get('cn', c, t)
        if x < .3 and cn:
            boss(c, 'updateConnector', t, cn[0], r.random() < .6, r.choice([0, 1, 2, bal(t, c), bal(t, c) + 1, 10 ** 12]))
        elif x < .5:
            boss(c, 'setConversionFee', r.choice([0, 0, 1, 500000, PPM - 1, PPM]))
        elif x < .6:
            boss(c, 'disableConnectorPurchases', t, r.random() < .4)
        elif x < .7:
            boss(c, 'disableConversions', r.random() < .3)

    @way(3)
    def seed_it():
        # an economy of a few units
        t = r.choice([b, ix, g])
        q = r.choice([1, 1, 2, 3, 10, 1000] if poor else [1, 10, 1000, 10 ** 4, 10 ** 6])
        if t == ix:
            by(w, D, ix, 'deposit', value=q)
        elif t == g:
            boss(g, 'issue', D, q)
        by(w, D, t, 'transfer', c, q)

    @way(2)
    def quotes():
        t, y = r.sample([b, ix, g, f], 2)
        q = amt(r.choice([bal(t, D), bal(t, c), get('sup', f)]))
        for meth, kw in (('getReturn', dict(_fromToken=t, _toToken=y, _amount=q)), ('getPurchaseReturn', dict(_connectorToken=t, _depositAmount=q)),
                         ('getSaleReturn', dict(_connectorToken=t, _sellAmount=q)),
                         ('getCrossConnectorReturn', dict(_fromConnectorToken=t, _toConnectorToken=y, _amount=q))):
            try:
                w.q(c, meth, **kw)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit, MonitorStop)):
                    raise
    for _ in range(6):
        seed_it()
    for v in people[1:]:
        by(w, D, b, 'transfer', v, r.choice([1, 2, 1000] if poor else [10 ** 3, 10 ** 5]))
    by(w, D, f, 'issue', u1, 5)
    if not poor:
        for t in (f, g):
            if own(t) == D:
                for v in people:
                    by(w, D, t, 'issue', v, r.choice([10, 10 ** 3, 10 ** 5]))
    start()
    hist, left, snaps = {}, size, [Snap(w)]
    while left > 0:
        fn = r.choice(WAYS)
        q = lambda x: 'none' if x == 0 else 'one' if x == 1 else 'few' if x < 10 else 'some'
        sh.scene = f'supply {q(get("sup", f))}, connector {q(bal(b, c))}, {"run" if own(f) == c else "idle"}'
        fn()
        hist[fn.__name__] = hist.get(fn.__name__, 0) + 1
        left -= 1
        if stop(w, want):
            break
        x = r.random()
        if x < .02:
            snaps.append(Snap(w))
        elif x < .04:
            r.choice(snaps).restore(w)
    sh.scene = ''
    return summary(w, 'brinks', {'steps': hist}, t0)


def requests(seed, size, want):
    """what people write: request texts at the network and at a converter that takes another contract for the network, correct and almost so"""
    t0 = time.time()
    w = web('requests', seed)
    sh, r, n = w.sh, w.rng, w.network
    sh.want = want
    fts, icxs, p = list(w.conns), w.icxs, w.puppets
    # a converter whose registry calls an ordinary contract its network
    mock = p[0]
    reg2 = w.new_registry()
    w.must(w.owner, reg2, 'registerAddress', _scoreName='Network', _scoreAddress=mock)
    a = w.irc[0]
    e = w.new_ft()
    ce = w.new_converter(e, reg2, PPM, a, 300000)
    w.must(w.owner, ce, 'addConnector', _token=icxs[0], _weight=200000, _enableVirtualBalance=False)
    for x in (a, icxs[0]):
        w.fund(x, ce, 10 ** 20)
    w.must(w.owner, e, 'transferOwnerShip', _newOwner=ce)
    w.must(w.owner, ce, 'acceptTokenOwnership')
    w.must(w.owner, e, 'transfer', _to=mock, _value=10 ** 19)
    paths = []
    for t, (c, cs) in w.conns.items():
        for x in cs:
            paths += [[x, t, t], [t, t, x]] + [[x, t, y] for y in cs if y != x]
    for q1 in list(paths):
        for q2 in r.sample(paths, 12):
            if q1[-1] == q2[0] and q1[1] != q2[1]:
                paths.append(q1 + q2[1:])
    if r.random() < .6:
        strand(w)
    base = Snap(w)
    WS = [' ', '  ', '\t', '\n', '\r\n', '\u00a0', '\u2003', '\x0b', '\x1f', '\u200b', '\ufeff', '\0']

    def addr_text(s):
        """one address, nearly"""
        return r.choice([s[:-1], s + '0', s.upper(), s[:2].upper() + s[2:], s[:2] + s[2:].upper(), s[2:], '0x' + s[2:], s[:10] + 'g' + s[11:], s + r.choice(WS),
                         r.choice(WS) + s, '"%s"' % s, s.replace('cx', 'hx'), s.replace('cx', 'bx'), '', 'None', 'null', s[:20] + ' ' + s[20:], s + s, 'cx' + '0' * 40,
                         s[:-1] + chr(0x660 + int(s[-1], 16) % 10), s[:20] + '_' + s[21:]])

    def path_text(path):
        xs = [str(x) for x in path]
        x = r.random()
        if x < .3:
            return ','.join(xs)
        if x < .45:
            return ','.join(r.choice(['', '', r.choice(WS)]) + s + r.choice(['', '', r.choice(WS)]) for s in xs)
        if x < .62:
            return r.choice([','.join(xs) + ',', ',' + ','.join(xs), ',,'.join(xs), ','.join(xs) + ', ', ' ,' + ','.join(xs), ','.join(xs) + ',,',
                             ',' + ','.join(xs) + ',', ',,' + ','.join(xs), ','.join(xs[:1]) + ', ,' + ','.join(xs[1:]), ','.join(xs) + ',' * r.randrange(1, 4)])
        if x < .75:
            return r.choice([';', ' ', '|', '->', '', ', ,', '\n', '/', '\uff0c', '.']).join(xs)
        if x < .93:
            i = r.randrange(len(xs))
            xs[i] = addr_text(xs[i])
            return ','.join(xs)
        if x < .96:
            return r.choice([str(xs), '[' + ','.join(xs) + ']', '(' + ','.join(xs) + ')', repr(','.join(xs)), '{' + ','.join(xs) + '}'])
        return r.choice(['', ',', ' ', ',,', 'None', ','.join(xs[:-1]), ','.join(xs[:1]), ','.join(xs[1:]), ','.join(xs * 2), ','.join(xs[::-1])])

    def odd(good):
        return r.choice([good, good, None, True, False, 0, -1, 1.0, float(abs(good)) if isinstance(good, int) and abs(good) < 10 ** 300 else 1.5, str(good), ' %s ' % good,
                         hex(good) if isinstance(good, int) else '0x1', [good], {'a': good}, [], {}, '', 10 ** 40, float('nan'), float('inf'), -0.0, '1e3', 1e3, '\u0661'])

    def body(d, keys):
        """a JSON text of the dictionary, nearly"""
        x = r.random()
        d = dict(d)
        if x < .12:
            k = r.choice(keys)
            v = d.pop(k, None)
            if r.random() < .7:
                d[r.choice([k.upper(), k.lower(), k.capitalize(), k + ' ', ' ' + k, '_' + k, k[:-1], k + '\0', k.swapcase()])] = v
        elif x < .3:
            k = r.choice(keys)
            d[k] = odd(d.get(k, '')) if not isinstance(d.get(k), str) else r.choice([odd(d[k]), d[k].split(','), d[k].split(',') if ',' in d[k] else [d[k]], addr_text(d[k]) if len(d[k]) == 42 else d[k]])
        elif x < .4:
            d[r.choice(['extra', 'to', 'For', '', 'amount', 'toToken', 'path ', '_minReturn'])] = r.choice([None, 1, 'x', [1, [2]], {'minReturn': 5}, False])
        if r.random() < .3:
            ks = list(d)
            r.shuffle(ks)
            d = {k: d[k] for k in ks}
        s = json.dumps(d, indent=r.choice([None, None, None, 0, 2, '\t']), separators=r.choice([None, (',', ':'), (' , ', ' : ')]), ensure_ascii=r.random() < .7)
        b = s.encode('utf-8', 'surrogatepass')
        y = r.random()
        if y < .72:
            return b
        return r.choice([b[:-1], b[1:], b + b'}', b + b, b'[' + b + b']', b' ' + b + b'\n', b + b'\0', b'\xef\xbb\xbf' + b, s.encode('utf-16'), s.encode('utf-16-le'), b.replace(b'"', b"'"),
                         b.replace(b':', b'='), b.replace(b'}', b',}'), b'\xff' + b, b + b'\xff', json.dumps(s).encode(), b'null', b'[]', b'0', b'""', b'true', b'', b'{}', b'{"path"}', b'None ',
                         json.dumps(list(d.items()), default=str).encode(), json.dumps(list(d), default=str).encode(), b + b' //', b.hex().encode(), b.replace(b', ', b' '), b'None', b'none', b'{' + b + b'}'])
    base_done = {}
    for i in range(size):
        if r.random() < .5:
            base.restore(w)
        amt = r.choice([10 ** 12, 10 ** 14, 10 ** 15, 10 ** 16, 1, 0])
        x = r.random()
        if x < .25:
            path = r.choice([q for q in paths if q[0] in icxs])
            who = r.choice(w.eoas[1:] + p)
            sh.scene = 'path text'
            k = r.random()
            if k < .5:
                by(w, who, n, 'convert', path_text(path), 1, value=amt)
            else:
                by(w, who, n, 'convertFor', path_text(path), 1, r.choice(w.eoas + p), value=amt)
        elif x < .35:
            path = r.choice(paths)
            sh.scene = 'quoted path text'
            by(w, r.choice(w.eoas), n, 'getExpectedReturnByPath', path_text(path), amt)
        elif x < .75:
            path = r.choice(paths)
            who = r.choice(w.eoas[1:] + p)
            d = {'path': path_text(path) if r.random() < .4 else ','.join(map(str, path)), 'minReturn': r.choice([1, 1, 1, 0, -1, 2 ** 63])}
            keys = ['path', 'minReturn']
            if r.random() < .5:
                d['for'] = r.choice([str(r.choice(w.eoas + p)), str(r.choice(w.eoas + p)), None, str(ZERO), addr_text(str(r.choice(p)))])
                keys.append('for')
            sh.scene = 'conversion request text'
            by(w, who, path[0] if r.random() < .94 else r.choice(w.irc[:2] + fts + icxs), 'transfer', n, amt, body(d, keys))
        else:
            s, t = r.sample([a, icxs[0], e], 2)
            sh.scene = 'hop request text'
            by(w, mock, s, 'transfer', ce, amt, body({'toToken': str(t) if r.random() < .85 else addr_text(str(t)), 'minReturn': r.choice([1, 1, 1, 0, -5, 2 ** 63])}, ['toToken', 'minReturn']))
        base_done[sh.scene] = base_done.get(sh.scene, 0) + 1
        if stop(w, want):
            break
    sh.scene = ''
    return summary(w, 'requests', base_done, t0)
