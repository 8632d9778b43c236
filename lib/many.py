"""many: more of everything than a test would bother with - connectors by the dozen, ICX tokens, holders, registrations, nominations, requests.
What holds for one or two has to hold for the fortieth as well."""
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from campaigns import summary
from directed import stop
from spec import PPM
from switch import by
from world import World


def many(seed, size, want):
    t0 = time.time()
    w = World(f'many:{seed}', restart='on_fail' if seed % 2 else 'never')
    r, sh, ch = w.rng, w.sh, w.chain
    w.base(2)
    D, n, reg, u = w.owner, w.network, w.registry, w.eoas[1]
    f = w.new_ft()
    a, b = w.new_irc(), w.new_irc()
    i = w.new_icxt()
    w.must(D, n, 'registerIcxToken', _icxToken=i, _register=True)
    for t in (a, b, f):
        w.must(D, t, 'transfer', _to=u, _value=10 ** 20)
    w.fund(i, u, 10 ** 20)
    p = w.puppet(10 ** 20)
    c = w.new_converter(f, reg)
    sh.want = want
    top = r.choice([20, 36, 70]) if size < 400 else r.choice([70, 130, 260])
    kinds = []

    def stranger():
        return ch._addr(r.choice(['cx', 'cx', 'hx']))
    real = [a, b, i]
    r.shuffle(real)
    at = dict(zip(r.sample(range(top), 3), real))
    sh.scene = 'connectors'
    left = size

    def go(who, to, m, *args, value=0):
        nonlocal left
        left -= 1
        return by(w, who, to, m, *args, value=value)

    def some():
        o = sh.get(('order', c), ())
        if not o:
            return a
        x = r.random()
        return o[0] if x < .15 else o[-1] if x < .5 else r.choice(o)
    # dozens of connectors, the earlier ones changed in between
    tiny = r.random() < .5
    for k in range(top):
        t = at.get(k) or stranger()
        go(D, c, 'addConnector', t, 1 if tiny else r.choice([1, 100, PPM // top]), r.random() < .2)
        x = r.random()
        if x < .12:
            go(D, c, 'updateConnector', some(), r.choice([1, 200, PPM // top]), r.random() < .5, r.choice([0, 10 ** 18]))
        elif x < .2:
            go(D, c, 'disableConnectorPurchases', some(), r.random() < .7)
        elif x < .24:
            go(D, c, 'addConnector', some(), 5, False)                     # there already
        if stop(w, want):
            return summary(w, 'many', {'connectors': k + 1}, t0)
    go(D, c, 'addConnector', stranger(), PPM, False)                        # too much
    rest = PPM - sum(sh.s[('cn', c, t)][0] for t in sh.get(('order', c), ()))
    if rest > 0:
        go(D, c, 'updateConnector', real[0], sh.s[('cn', c, real[0])][0] + rest + 1, False, 0)       # one too much
        go(D, c, 'updateConnector', real[0], sh.s[('cn', c, real[0])][0] + rest, False, 0)           # exactly all
    for t in real:
        if t == i:
            w.fund(i, D, 10 ** 20)
        by(w, D, t, 'transfer', c, 10 ** 20)
    for k in range(len(sh.get(('order', c), ())) + 2):
        if r.random() < .2:
            w.run(p, [(c, 'getConnectorAt', (k,), 0, True), (c, 'getConnectorTokenCount', (), 0, True)])
    for t in sh.get(('order', c), ()):
        if r.random() < .1:
            w.run(p, [(c, 'getConnector', (t,), 0, True), (c, 'getConnectorBalance', (t,), 0, True)])
    go(D, f, 'transferOwnerShip', c)
    go(D, c, 'acceptTokenOwnership')
    for x in real + [f]:
        for y in real + [f]:
            if x != y and r.random() < .6:
                q = [x, f, y]
                go(u, x, 'transfer', n, r.choice([10 ** 15, 10 ** 17]), w.path_data(q, 1))
    go(D, c, 'withdrawTokens', a, u, 5)
    go(D, c, 'updateConnector', some(), 1, False, 0)
    go(D, c, 'disableConnectorPurchases', some(), True)
    if stop(w, want):
        return summary(w, 'many', {'connectors': top}, t0)
    # ICX tokens, registrations, nominations, fees: long runs of each
    sh.scene = 'long runs'
    listed = [i]
    while left > 0:
        x = r.random()
        if x < .3:
            t = stranger() if r.random() < .6 else r.choice(listed)
            listed.append(t)
            go(D, n, 'registerIcxToken', t, r.random() < .75)
        elif x < .45:
            go(D, reg, 'registerAddress', r.choice(['Network', 'ScoreRegistry', 'Network']), r.choice([n, n, p, reg, stranger()]))
            if r.random() < .3:
                go(D, reg, 'unregisterAddress', r.choice(['Network', 'ScoreRegistry']))
        elif x < .6:
            go(D, c, 'setConversionFee', r.randrange(PPM // 10))
        elif x < .7:
            s = r.choice([f, n, reg, i, c])
            go(D, s, 'transferOwnerShip', stranger())
        elif x < .78:
            go(D, c, 'transferManagement', stranger())
        elif x < .9:
            # holders
            t = r.choice([a, b, i, f])
            to = stranger()
            go(u, t, 'transfer', to, r.choice([0, 1, 10 ** 6]))
        else:
            x = r.choice(real + [f])
            y = r.choice([z for z in real + [f] if z != x])
            go(u, x, 'transfer', n, r.choice([10 ** 15, 10 ** 16]), w.path_data([x, f, y], 1))
        if stop(w, want):
            break
    sh.scene = ''
    return summary(w, 'many', {'connectors': top, 'ICX tokens listed': len(listed), 'addresses': len(ch.known)}, t0)


def purses(seed, size, want):
    """the whole of a supply in one hand, amounts of every magnitude: all of it, all but one, its exact halves are moved, burnt and paid out"""
    t0 = time.time()
    w = World(f'purses:{seed}', restart='on_fail' if seed % 2 else 'never')
    r, sh, ch = w.rng, w.sh, w.chain
    D = w.owner
    us = [D] + [w.user(0) for _ in range(3)]
    p = [w.puppet(0) for _ in range(2)]
    mute = w.mute()
    big = lambda: r.choice([1, 2, 10, 999, 10 ** 6, 10 ** 9, 10 ** 18, 3 * 10 ** 18 + 1, 10 ** 20, 10 ** 24, 2 ** r.randrange(1, 200), 2 ** r.randrange(1, 130) - 1, r.randrange(1, 2 ** 90)])
    for v in us + p:
        ch.mint_icx(v, 2 ** 210)
    sh.resync()
    toks = [w.new_irc(r.choice([0, 1, 7, 10 ** 6]), r.choice([0, 18])), w.new_ft(r.choice([0, 1, 50]), r.choice([0, 18])), w.new_ft(10 ** 6, 6), w.new_icxt(), w.new_icxt()]
    sh.want = want
    people = us + p
    bal = lambda t, v: sh.get(('bal', t, v), 0)
    done = {}

    def part(q):
        return max(1, r.choice([q, q, q, q, q - 1, q // 2, q - q // 2, q // 3, 1, q - 2 ** max(0, q.bit_length() - 2), big() % (q + 1)]))

    def beyond(q):
        return r.choice([q + 1, q + 1, 2 * q, q + 2 ** 64, q + 2 ** 128, q + 2 ** 256, -1, -q, 0])

    def to(t):
        x = r.random()
        return r.choice(people) if x < .75 else r.choice([mute, t, ZERO, r.choice(toks), ch._addr('hx'), ch._addr('hx')])

    for i in range(size):
        t = r.choice(toks)
        kind = sh.roles[t]
        rich = [v for v in people if bal(t, v)]
        who = max(rich, key=lambda v: bal(t, v)) if rich and r.random() < .6 else r.choice(rich or people)
        q = bal(t, who)
        amt = part(q) if r.random() < .85 else beyond(q)
        for v in p:
            BEHAVIOUR[v].on_token = 'reject' if r.random() < .06 else 'accept'
            BEHAVIOUR[v].on_icx = 'reject' if r.random() < .06 else 'accept'
        hands = sum(1 for v in people if bal(t, v))
        x = r.random()
        sh.scene = f'{kind}: {min(hands, 3)} hands, {"all" if amt == q else "some" if 0 < amt < q else "too much"}'
        done[sh.scene] = done.get(sh.scene, 0) + 1
        if kind == 'icxt' and x < .25 or (kind == 'ft' and x < .25):
            if kind == 'icxt':
                payer = r.choice(people)
                by(w, payer, t, r.choice(['deposit', None]) if payer in us else 'deposit', value=r.choice([big(), big(), 0]))
            else:
                by(w, sh.get(('own', t)), t, 'issue', to(t), big())
        elif kind == 'icxt' and x < .65:
            if r.random() < .4:
                by(w, who, t, 'withdraw', amt)
            else:
                by(w, who, t, 'withdrawTo', amt, to(t))
        elif kind == 'ft' and x < .55:
            by(w, r.choice([who, who, sh.get(('own', t))]), t, 'destroy', who, amt)
        elif x < .9:
            by(w, who, t, 'transfer', to(t), amt, *r.choice([(), (), (b'',), (b'x' * r.choice([1, 32, 700]),)]))
        elif bal(t, t):
            by(w, sh.get(('own', t)), t, 'withdrawTokens', t, to(t), part(bal(t, t)))
        else:
            # everything into one hand
            sink = r.choice(people)
            for v in rich:
                if v != sink:
                    by(w, v, t, 'transfer', sink, bal(t, v))
        if stop(w, want):
            break
    sh.scene = ''
    return summary(w, 'purses', {'scenes': len(done)}, t0)
