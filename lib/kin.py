"""Relatives: contracts of our own that stand in some relation to a contract under observation without holding a role in it - its registry,
the registry before, the network named there, a connector token, the flexible token, a registered ICX token, the owner of its owner, what it
owns - make the calls that only a role may make."""
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from campaigns import summary
from directed import Snap, stop
from spec import PPM
from switch import by, names
from world import World

KIN = ('registry', 'former registry', 'registered network', 'connector token', 'fake flexible token', 'registered ICX token', 'owner of the owner',
       'manager of the owner', 'nominee', 'nominated manager', 'former owner', 'former manager', 'successor registry', 'stranger')


def relatives(seed, size, want):
    t0 = time.time()
    w = World(f'relatives:{seed}', restart='on_fail' if seed % 2 else 'never')
    sh, r, ch = w.sh, w.rng, w.chain
    sh.want = want
    w.base(5)
    D = w.owner
    k = {n: w.puppet(10 ** 20) for n in KIN}
    at = {v: n for n, v in k.items()}
    t, t1 = w.new_irc(supply=10 ** 9), w.new_irc(supply=10 ** 9)
    ix = w.new_icxt()
    f, g, h = w.new_ft(), w.new_ft(), w.new_ft()
    reg2 = w.new_registry()
    n = w.network
    own = lambda s: sh.get(('own', s))

    def go(who, to, m, *args):
        return by(w, who, to, m, *args)

    def hand(s, new):
        if own(s) != new:
            go(own(s), s, 'transferOwnerShip', new)
            go(new, s, 'acceptOwnerShip')
    BEHAVIOUR[k['registry']].addresses = {'Network': k['registered network'], 'ScoreRegistry': r.choice([k['successor registry'], k['registry'], w.registry, ZERO])}
    BEHAVIOUR[k['former registry']].addresses = {'Network': n, 'ScoreRegistry': k['registry']}
    BEHAVIOUR[k['successor registry']].addresses = {'Network': r.choice([k['registered network'], n])}
    go(D, n, 'registerIcxToken', ix, True)
    go(D, n, 'registerIcxToken', k['registered ICX token'], True)
    # a converter that has moved to a registry of ours, one that started there, one with a fake token
    c1 = w.new_converter(f, r.choice([w.registry, k['former registry']]), r.choice([PPM, 30000]), t, 300000)
    if sh.get(('registry', c1)) == w.registry:
        go(D, w.registry, 'registerAddress', 'ScoreRegistry', k['registry'])
    c2 = w.new_converter(g, k['registry'], PPM, t, 400000)
    c3 = w.new_converter(k['fake flexible token'], r.choice([w.registry, k['registry']]), PPM, k['connector token'], 400000)
    BEHAVIOUR[k['fake flexible token']].owner = r.choice([c3, c3, D, k['stranger']])
    for c in (c1, c2, c3):
        go(D, c, 'addConnector', k['connector token'], 200000, False)
        go(D, c, 'addConnector', ix, 100000, False)
    if r.random() < .7:
        go(D, c1, 'updateRegistry')
    BEHAVIOUR[k['connector token']].fake_balances.update({c: 10 ** 20 for c in (c1, c2, c3)})
    for c, x in ((c1, f), (c2, g)):
        w.fund(t, c, 10 ** 20)
        w.fund(ix, c, 10 ** 18)
        if r.random() < .8:
            go(D, x, 'transferOwnerShip', c)
            go(D, c, 'acceptTokenOwnership')
    for x in (t, t1, f, g, h, ix):
        for v in list(k.values()) + w.eoas[1:]:
            if r.random() < .8 and own(x) == D or x in (t, t1):
                w.fund(x, v, 10 ** 16)
    for s in (n, f, g, c1, c2, ix):
        go(D, h, 'issue', s, 10 ** 12 + 7)
    # converters hold roles in other contracts; contracts of ours hold roles in the converters
    owned = [s for s in (c1, c2, c3, n, reg2, ix, h) if own(s) == D]
    for s in owned:
        if r.random() < .6:
            hand(s, k['former owner'])
            hand(s, r.choice([k['owner of the owner'], k['owner of the owner'], D, w.eoas[1]]))
        if s in (c1, c2, c3):
            for m in (k['former manager'], r.choice([k['manager of the owner'], w.eoas[2]])):
                if r.random() < .8 and sh.get(('mgr', s)) != m:
                    go(own(s), s, 'transferManagement', m)
                    go(m, s, 'acceptManagement')
            if r.random() < .6:
                go(own(s), s, 'transferManagement', k['nominated manager'])
        if r.random() < .6 and own(s) != k['nominee']:
            go(own(s), s, 'transferOwnerShip', k['nominee'])
    targets = [c1, c1, c2, c3, n, w.registry, reg2, f, g, h, ix]
    cells, left = set(), size
    toks = [t, t1, ix, f, g, h, k['connector token']]
    some = lambda: r.choice(list(k.values()) + w.eoas + [c1, c2, n, ZERO])

    def calls(s):
        out = [('transferOwnerShip', some()), ('acceptOwnerShip',)]
        if s in w.reg:
            return out + [('registerAddress', r.choice(['Network', 'ScoreRegistry']), r.choice([n, reg2, k['registry'], some()])),
                          ('unregisterAddress', r.choice(['Network', 'ScoreRegistry']))]
        out.append(('withdrawTokens', r.choice(toks), some(), r.choice([1, 10 ** 9, 10 ** 12])))
        if s == n:
            return out + [('registerIcxToken', r.choice([ix, t, k['registered ICX token'], k['stranger']]), r.random() < .5)]
        if s in w.ft:
            return out + [('issue', some(), 10 ** 6), ('destroy', some(), 7), ('disableTransfer', r.random() < .6)]
        if s in w.icxt:
            return out
        x = r.choice([t, t1, ix, h, k['connector token']])
        return out + [('addConnector', x, 1000, r.random() < .5), ('updateConnector', x, r.choice([1000, 200000]), r.random() < .5, 12345),
                      ('disableConnectorPurchases', x, r.random() < .6), ('updateRegistry',), ('restoreRegistry',),
                      ('disableRegistryUpdate', r.random() < .6), ('disableConversions', r.random() < .6),
                      ('setConversionFee', r.choice([0, 7, 30000])), ('transferManagement', some()), ('acceptManagement',),
                      ('transferTokenOwnership', some()), ('acceptTokenOwnership',), ('disableTokenTransfers', r.random() < .6),
                      ('withdrawFromToken', r.choice(toks), some(), r.choice([1, 10 ** 9]))]
    base = Snap(w)
    while left > 0:
        if r.random() < .7:
            base.restore(w)
        s = r.choice(targets)
        todo = calls(s)
        for call in r.sample(todo, min(5, len(todo))):
            m, args = call[0], list(call[1:])
            who = r.choice(list(at))
            sh.scene = f'{sh.roles.get(s)}.{m} by {at[who]}'
            x = r.random()
            if x < .75 or s not in w.conv:
                by(w, who, s, m, *args, origin=r.choice([D, own(s) if own(s) in w.eoas else D, w.eoas[1], w.eoas[4]]))
            else:
                # from within a call the converter makes: its token is asked to move something
                who = k['connector token']
                sh.scene = f'{sh.roles.get(s)}.{m} by a token it is moving'
                BEHAVIOUR[who].on_transfer = [(s, m, tuple(args), 0, r.random() < .5)]
                o = own(s)
                if o in w.eoas + w.puppets:
                    by(w, o, s, 'withdrawTokens', who, w.eoas[3], 5)
                BEHAVIOUR[who].on_transfer = 'accept'
            cells.add((sh.roles.get(s), m, at[who]))
            left -= 1
            if stop(w, want):
                left = 0
                break
            # does who holds the role still get through?
            if r.random() < .25:
                o = own(s)
                if o in w.eoas + w.puppets:
                    sh.scene = f'{sh.roles.get(s)}.{m} by the owner'
                    by(w, o, s, m, *args)
                    left -= 1
    sh.scene = ''
    return summary(w, 'relatives', {'cells': len(cells)}, t0)
