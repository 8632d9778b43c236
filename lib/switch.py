"""Directed histories over configurations: every combination of switches and role holders is reached by real
transactions and probed with every kind of request (switchboard); roles wander through many hands on instances
that live for ever (succession)."""
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from campaigns import summary, strand
from directed import Snap, Tape, stop, api
from spec import PPM, TOKENS
from world import World
from ops import EDGES, Monkey
import inspect


def names(w, to, m):
    return [n for n in inspect.signature(getattr(w.chain.classes[to], m)).parameters if n != 'self']


def by(w, who, to, method, *args, value=0, origin=None):
    """`who` makes the call: an account signs it, a contract is made to make it"""
    if who in w.puppets:
        return w.run(who, [(to, method, tuple(args), value, False)], sender=origin or w.owner)
    if who not in w.eoas:
        return None
    return w.tx(who, to, method, value, **(dict(zip(names(w, to, method), args)) if method else {}))


class Board:
    def __init__(self, tag, seed, restart, tap=None):
        self.w = w = World(f'{tag}:{seed}', restart=restart)
        if tap is not None:
            tap(w)
        self.r, self.sh, self.ch = w.rng, w.sh, w.chain
        w.base(6)
        D = w.owner
        w.chain.height = self.r.choice([1, 7 * 10 ** 6])
        self.p = [w.puppet(10 ** 20) for _ in range(3)]
        self.mute = w.mute()
        self.t0, self.t1 = w.new_irc(supply=10 ** 9), w.new_irc(supply=10 ** 9)
        self.ix = w.new_icxt()
        w.must(D, w.network, 'registerIcxToken', _icxToken=self.ix, _register=True)
        self.f, self.g, self.h = w.new_ft(), w.new_ft(), w.new_ft()
        self.reg2 = w.new_registry()
        self.reg3 = w.new_registry()
        self.net2 = w.new_network()
        w.must(D, self.reg2, 'registerAddress', _scoreName='Network', _scoreAddress=w.network)
        r = self.r
        res = lambda: 10 ** r.randrange(16, 22) + r.randrange(10 ** 6)
        self.cg = w.add_converter(self.g, [(self.t0, r.choice([500000, 300000, PPM]))], PPM, r.choice([0, 1000]), [res()], True,
                                  initial=r.random() < .5)
        self.conns = [self.t0, self.ix, self.g]
        ws = r.choice([[250000, 250000, 500000], [100000, 300000, 200000], [333333, 333333, 333334], [1, 999998, 1]])
        self.c = w.add_converter(self.f, list(zip(self.conns, ws)), r.choice([PPM, 30000]), r.choice([0, 1000, 30000]),
                                 [res() for _ in range(3)], True, {self.ix: res()} if r.random() < .3 else {}, initial=r.random() < .5)
        self.c2 = w.add_converter(self.f, [(self.t0, 400000), (self.t1, 100000)], PPM, 0, [res(), res()], False)
        w.conns = {self.g: (self.cg, [self.t0]), self.f: (self.c, self.conns)}
        for u in w.eoas[1:] + self.p:
            for t in (self.t0, self.t1, self.f, self.g, self.h):
                w.must(D, t, 'transfer', _to=u, _value=10 ** r.randrange(15, 21))
            w.fund(self.ix, u, 10 ** r.randrange(15, 21))
        for s in (w.network, self.f, self.g, self.ix, self.c, self.cg, self.c2, self.t0):
            # unrelated tokens lie about everywhere: issued there, which nobody can refuse, or sent
            if r.random() < .8:
                w.must(D, self.h, 'issue', _to=s, _amount=10 ** 12 + r.randrange(100))
            if s in (w.network, self.c2):
                w.must(D, self.t1, 'transfer', _to=s, _value=10 ** 12 + r.randrange(100), _data=b'conversionResult')
        strand(w, .4)
        self.m = Monkey(w, dict(trade=1))
        self.people = w.eoas + self.p
        self.fns = [getattr(self, k) for k in sorted(dir(type(self))) if k.startswith('sw_')]

    # -- who is in charge
    def get(self, *k):
        return self.sh.get(tuple(k))

    def boss(self, to, method, *args):
        """the owner makes the call (through the converter, when that is the owner)"""
        return by(self.w, self.get('own', to), to, method, *args)

    def om(self, c):
        o, m = self.get('own', c), self.get('mgr', c)
        return self.r.choice([x for x in (o, m) if x is not None and x != ZERO])

    def meanwhile(self, s):
        """between nomination and acceptance life goes on"""
        r = self.r
        if r.random() < .45:
            prs = [p for p in self.probes() if p[1] not in ('transferOwnerShip', 'transferManagement', 'transferTokenOwnership')]
            near = [p for p in prs if p[0] in (s, self.get('own', s))] or prs
            for _ in range(r.randrange(1, 4)):
                to, m, args, value = r.choice(near if r.random() < .7 else prs)
                cs = list(self.callers(to).values())
                if cs:
                    by(self.w, cs[0] if r.random() < .6 else r.choice(cs), to, m, *args, value=value)
            if s in (self.f, self.g) and r.random() < .6:
                cur = self.get('own', s)
                if cur in self.w.conv:
                    self.boss(cur, *r.choice([('disableTokenTransfers', False), ('disableTokenTransfers', True),
                                              ('withdrawFromToken', self.h, self.w.owner, 1)]))

    def hand(self, s, new):
        """ownership of s moves to an account or contract of ours"""
        if self.get('own', s) == new:
            return
        self.boss(s, 'transferOwnerShip', new)
        self.meanwhile(s)
        by(self.w, new, s, 'acceptOwnerShip')

    def hand_manager(self, c, new):
        if self.get('mgr', c) == new:
            return
        by(self.w, self.om(c), c, 'transferManagement', new)
        self.meanwhile(c)
        by(self.w, new, c, 'acceptManagement')

    def hand_token(self, ft, new):
        """ownership of a flexible token moves to a converter, an account or a contract"""
        cur = self.get('own', ft)
        if cur == new:
            return
        if cur in self.w.conv:
            self.boss(cur, 'transferTokenOwnership', new)
        else:
            by(self.w, cur, ft, 'transferOwnerShip', new)
        self.meanwhile(ft)
        if new in self.w.conv:
            self.boss(new, 'acceptTokenOwnership')
        else:
            by(self.w, new, ft, 'acceptOwnerShip')

    def token_boss(self, ft, method, cmethod, *args):
        cur = self.get('own', ft)
        if cur in self.w.conv:
            return self.boss(cur, cmethod, *args)
        return by(self.w, cur, ft, method, *args)

    # -- switches
    def sw_token(self):
        self.hand_token(self.f, self.r.choice([self.c] * 5 + [self.c2, self.w.owner, self.w.eoas[1], self.p[0]]))

    def sw_gtoken(self):
        self.hand_token(self.g, self.r.choice([self.cg] * 4 + [self.w.eoas[2]]))

    def sw_conversions(self):
        c = self.r.choice([self.c, self.c, self.cg])
        by(self.w, self.om(c), c, 'disableConversions', self.r.random() < .35)

    def sw_purchases(self):
        for t in self.conns:
            if self.r.random() < .6:
                self.boss(self.c, 'disableConnectorPurchases', t, self.r.random() < .45)

    def sw_virtual(self):
        t = self.r.choice(self.conns)
        w0 = self.get('cn', self.c, t)[0]
        b = self.m.bal(t, self.c)
        self.boss(self.c, 'updateConnector', t, w0, self.r.random() < .5, self.r.choice([b, 2 * b + 1, b // 2 + 1, 10 ** 18, 0]))

    def sw_transfers(self):
        ft = self.r.choice([self.f, self.f, self.g])
        self.token_boss(ft, 'disableTransfer', 'disableTokenTransfers', self.r.random() < .45)

    def sw_registry(self):
        x = self.r.random()
        g = self.get('registry', self.c)
        if x < .4:
            by(self.w, self.om(self.c), self.c, 'disableRegistryUpdate', self.r.random() < .5)
        elif x < .6 and g in self.w.reg:
            prev = self.get('prevreg', self.c)
            self.boss(g, 'registerAddress', 'ScoreRegistry', self.r.choice(self.w.reg + [prev] * 2))
            if self.r.random() < .4:
                by(self.w, self.om(self.c), self.c, 'disableRegistryUpdate', self.r.random() < .7)
        elif x < .8:
            self.boss(self.c, 'updateRegistry')
        else:
            by(self.w, self.om(self.c), self.c, 'restoreRegistry')

    def sw_network(self):
        g = self.get('registry', self.r.choice([self.c, self.cg]))
        if g in self.w.reg:
            if self.r.random() < .2:
                self.boss(g, 'unregisterAddress', 'Network')
            else:
                self.boss(g, 'registerAddress', 'Network', self.r.choice([self.w.network] * 6 + [self.net2, self.p[1], self.mute]))

    def sw_icx(self):
        n = self.w.network
        self.boss(n, 'registerIcxToken', self.r.choice([self.ix, self.ix, self.ix, self.t0]), self.r.random() < .7)
        if self.get('ntok', n, self.t0):
            self.boss(n, 'registerIcxToken', self.t0, False)

    def sw_fee(self):
        mf = self.get('maxfee', self.c)
        by(self.w, self.om(self.c), self.c, 'setConversionFee', self.r.choice([0, 1, 1000, mf, mf // 2]))

    def sw_owner(self):
        s = self.r.choice([self.c, self.c, self.c2, self.w.network, self.w.registry, self.reg2, self.ix, self.h])
        self.hand(s, self.r.choice(self.people))

    def sw_manager(self):
        self.hand_manager(self.c, self.r.choice(self.people + [self.get('own', self.c)] * 3))

    def sw_nominee(self):
        s = self.r.choice([self.c, self.w.network, self.ix])
        self.boss(s, 'transferOwnerShip', self.r.choice(self.people + [ZERO, self.r.choice(EDGES)]))
        if self.r.random() < .5:
            by(self.w, self.om(self.c), self.c, 'transferManagement', self.r.choice(self.people + [ZERO, self.r.choice(EDGES)]))

    def sw_habits(self):
        for p in self.p:
            b = BEHAVIOUR[p]
            b.on_token = self.r.choice(['accept', 'accept', 'reject'])
            b.on_icx = self.r.choice(['accept', 'accept', 'reject'])

    def sw_update(self):
        for s in self.r.sample([self.c, self.cg, self.c2, self.f, self.g, self.h, self.ix, self.t0, self.w.network, self.w.registry,
                                self.reg2], 3):
            self.m.pick = lambda seq, s=s: s
            try:
                self.m.op_update()
            finally:
                del self.m.pick

    def sw_heal(self):
        """back to an operating DEX, so that probes of the ordinary service happen as well"""
        w = self.w
        self.hand_token(self.f, self.c)
        self.hand_token(self.g, self.cg)
        for c in (self.c, self.cg):
            if not self.get('enabled', c):
                by(w, self.om(c), c, 'disableConversions', False)
            for t in self.get('order', c):
                if not self.get('cn', c, t)[1]:
                    self.boss(c, 'disableConnectorPurchases', t, False)
            g = self.get('registry', c)
            if g in w.reg and self.get('reg', g, 'Network') != w.network:
                self.boss(g, 'registerAddress', 'Network', w.network)
        for ft in (self.f, self.g):
            if not self.get('tp', ft):
                self.token_boss(ft, 'disableTransfer', 'disableTokenTransfers', False)
        if not self.get('ntok', w.network, self.ix):
            self.boss(w.network, 'registerIcxToken', self.ix, True)

    sw_heal2 = sw_heal

    def turn(self):
        self.r.choice(self.fns)()

    def state(self):
        """the configuration, as a label"""
        g = self.get
        c = self.c
        o = g('own', self.f)
        kind = 'own converter' if o == c else 'other converter' if o in self.w.conv else 'contract' if o in self.p else 'account'
        reg = g('registry', c)
        net = g('reg', reg, 'Network') if reg in self.w.reg else None
        lab = [f'token run by {kind}', 'on' if g('enabled', c) else 'off',
               ''.join('p' if g('cn', c, t)[1] else '-' for t in self.conns),
               ''.join('v' if g('cn', c, t)[2] else '-' for t in self.conns),
               'transfers' if g('tp', self.f) else 'frozen', 'fee' if g('fee', c) else 'free',
               'network' if net == self.w.network else 'no network' if net in (None, ZERO) else 'other network',
               'follows' if g('allow', c) else 'pinned',
               'contract-owned' if g('own', c) in self.p else '', 'managed' if g('mgr', c) != g('own', c) else 'self-managed']
        return ' '.join(lab)

    # -- probes: (receiver, method, args, value)
    def callers(self, to):
        out = {'owner': self.get('own', to), 'nominee': self.get('pend', to), 'manager': self.get('mgr', to),
               'nominated manager': self.get('pmgr', to), 'deployer': self.w.owner, 'user': self.w.eoas[5], 'contract': self.p[2]}
        res = {}
        for k, v in out.items():
            if v in self.people and v not in res.values():
                res[k] = v
        return res

    def probes(self):
        w, r, bal = self.w, self.r, self.m.bal
        out = []
        who = lambda: r.choice([w.eoas[3], w.eoas[4], self.p[1], self.mute, w.owner])
        toks = [self.t0, self.t1, self.ix, self.f, self.g, self.h]
        amt = lambda b: r.choice([b, b, b // 2, b // 7 + 1, 1, b + 1, 0])
        # holdings taken out
        to = lambda s: r.choice([who(), who(), who(), self.get(r.choice(['own', 'pend']), s) or w.owner])
        for s in (self.c, self.c2, self.cg, self.f, self.ix, w.network):
            for t in toks:
                out.append((s, 'withdrawTokens', [t, to(s), amt(bal(t, s))], 0))
        for c in (self.c, self.c2):
            for t in (self.t1, self.h, self.ix):
                out.append((c, 'withdrawFromToken', [t, to(c), amt(bal(t, self.f))], 0))
        # flexible tokens
        for t in (self.f, self.g, self.h):
            out += [(t, 'issue', [who(), r.choice([1, 10 ** 15])], 0), (t, 'destroy', [r.choice(self.people), r.choice([1, 10 ** 12])], 0),
                    (t, 'disableTransfer', [r.random() < .5], 0), (t, 'transfer', [who(), r.choice([0, 1, 10 ** 9])], 0)]
        # ICX token
        out += [(self.ix, 'withdrawTo', [r.choice([1, 10 ** 9]), who()], 0), (self.ix, 'deposit', [], r.choice([0, 10 ** 9])),
                (self.ix, 'withdraw', [10 ** 9], 0)]
        # deposits into converters, with and without a conversion request
        for c in (self.c, self.c2, self.cg):
            for t in (self.t0, self.t1, self.ix, self.g, self.f):
                d = r.choice([b'None', b'', w.conv_data(r.choice(self.conns), 1), b'conversionResult'])
                out.append((t, 'transfer', [c, r.choice([1, 10 ** 12, 10 ** 14]), d], 0))
        # conversions through the network
        n = w.network
        pairs = [(a, self.f, b) for a in self.conns + [self.f] for b in self.conns + [self.f] if a != b]
        pairs += [(self.t0, self.g, self.g), (self.g, self.g, self.t0)]
        for a, x, b in pairs:
            d = w.path_data([a, x, b], 1, r.choice([None, who()]))
            out.append((a, 'transfer', [n, r.choice([10 ** 6, 10 ** 12, 10 ** 14]), d], 0))
        out.append((self.g, 'transfer', [n, 10 ** 12, w.path_data([self.g, self.f, self.t0, self.g, self.g], 1)], 0))
        for b in (self.f, self.t0, self.g):
            out.append((n, 'convert', [','.join(str(z) for z in (self.ix, self.f, b)), 1], 10 ** 12))
            out.append((n, 'convertFor', [','.join(str(z) for z in (self.ix, self.f, b)), 1, who()], 10 ** 12))
        # administration
        for s in (self.c, self.c2, self.cg, self.f, self.h, self.ix, n, w.registry, self.reg2):
            out += [(s, 'transferOwnerShip', [r.choice(self.people)], 0), (s, 'acceptOwnerShip', [], 0)]
        for g in (w.registry, self.reg2):
            out += [(g, 'registerAddress', [r.choice(['Network', 'ScoreRegistry']), r.choice([n, self.reg2, w.registry])], 0),
                    (g, 'unregisterAddress', [r.choice(['Network', 'ScoreRegistry'])], 0)]
        for c in (self.c, self.c2):
            t = r.choice(self.get('order', c))
            w0 = self.get('cn', c, t)[0]
            out += [(c, 'addConnector', [r.choice([self.t1, self.h, self.g]), r.choice([1, 100000]), r.random() < .5], 0),
                    (c, 'updateConnector', [t, r.choice([w0, w0, 1, w0 + 1]), r.random() < .3, r.choice([0, 10 ** 18, bal(t, c)])], 0),
                    (c, 'disableConnectorPurchases', [t, r.random() < .5], 0), (c, 'updateRegistry', [], 0),
                    (c, 'restoreRegistry', [], 0), (c, 'disableRegistryUpdate', [r.random() < .5], 0),
                    (c, 'disableConversions', [r.random() < .5], 0),
                    (c, 'setConversionFee', [r.choice([0, 500, self.get('maxfee', c), self.get('maxfee', c) + 1])], 0),
                    (c, 'transferManagement', [r.choice(self.people)], 0), (c, 'acceptManagement', [], 0),
                    (c, 'transferTokenOwnership', [r.choice([self.c, self.c2] + self.people)], 0), (c, 'acceptTokenOwnership', [], 0),
                    (c, 'disableTokenTransfers', [r.random() < .5], 0)]
        out.append((n, 'registerIcxToken', [r.choice([self.ix, self.t1]), r.random() < .6], 0))
        return out


RELEVANT = {
    'P04': ('issue', 'destroy', 'disableTransfer', 'disableTokenTransfers', 'transfer', 'transferTokenOwnership', 'acceptTokenOwnership'),
    'P05': ('deposit', 'withdraw', 'withdrawTo', 'convert', 'convertFor'),
    'P06': ('transferOwnerShip', 'acceptOwnerShip', 'transferTokenOwnership', 'acceptTokenOwnership'),
    'P07': ('transferManagement', 'acceptManagement', 'transferOwnerShip', 'acceptOwnerShip', 'setConversionFee', 'disableConversions'),
    'P09': ('registerAddress', 'unregisterAddress'),
    'P10': ('updateRegistry', 'restoreRegistry', 'disableRegistryUpdate', 'registerAddress', 'unregisterAddress'),
    'P11': ('addConnector', 'updateConnector', 'disableConnectorPurchases'),
    'P18': ('withdrawTokens', 'withdrawFromToken', 'transfer'),
    'P19': ('registerIcxToken', 'convert', 'convertFor', 'transfer'),
}


def probe_once(b, pr, who, label):
    to, m, args, value = pr
    b.sh.scene = f'{b.state()}: {b.sh.roles.get(to)}.{m} by {label}'
    return by(b.w, who, to, m, *args, value=value, origin=b.r.choice(b.w.eoas[:2]))


def switchboard(seed, size, want):
    """random configurations, each probed broadly; half the runs never forget an instance and are linear histories"""
    t0 = time.time()
    linear = seed % 2 == 0
    b = Board('switch', seed, 'never' if linear else 'on_fail')
    b.sh.want = want
    w, r = b.w, b.r
    focus = RELEVANT.get(want)
    states = set()
    left = size
    while left > 0:
        for _ in range(r.randrange(1, 6)):
            b.turn()
        if r.random() < .25:
            b.sw_heal()
        b.sh.scene = ''
        states.add(b.state())
        if stop(w, want):
            break
        prs = b.probes()
        r.shuffle(prs)
        if focus:
            prs.sort(key=lambda p: p[1] not in focus)        # stable: the relevant ones first, still shuffled
            prs = prs[:12] + r.sample(prs[12:], 3)
        else:
            prs = prs[:15]
        base = None if linear else Snap(w)
        for pr in prs:
            cs = b.callers(pr[0])
            for label in (list(cs) if not linear and r.random() < .3 else r.sample(list(cs), min(2, len(cs)))):
                if base is not None:
                    base.restore(w)
                probe_once(b, pr, cs[label], label)
                left -= 1
                if stop(w, want):
                    return summary(w, 'switchboard', {'configurations': len(states), 'linear': linear}, t0)
        if base is not None:
            base.restore(w)
        b.sh.scene = ''
    return summary(w, 'switchboard', {'configurations': len(states), 'linear': linear}, t0)


def tolls(seed, size, want):
    """everything that is accepted as it stands is asked again with ICX enclosed: only what is meant to take payment may take it"""
    t0 = time.time()
    b = Board('tolls', seed, 'on_fail')
    b.sh.want = want
    w, r = b.w, b.r
    seen, left = set(), size
    # a converter that would take a contract of unknown intent for one of its connector tokens
    odd = w.new_converter(b.h, w.registry, PPM, b.p[2], 1000)
    while left > 0:
        for _ in range(r.randrange(0, 4)):
            b.turn()
        if r.random() < .6:
            b.sw_heal()
        # somebody waits to take over, and a successor is announced
        for s in (b.c, b.c2, b.cg, b.f, b.h, b.ix, w.network, w.registry):
            if r.random() < .5:
                b.boss(s, 'transferOwnerShip', r.choice(b.people[1:]))
        for c in (b.c, b.c2):
            if r.random() < .5:
                by(w, b.om(c), c, 'transferManagement', r.choice(b.people[1:]))
            g = b.get('registry', c)
            if r.random() < .5 and g in w.reg:
                b.boss(g, 'registerAddress', 'ScoreRegistry', r.choice([x for x in w.reg if x != g]))
        for f in (b.f, b.g):
            cur = b.get('own', f)
            if r.random() < .5:
                to = r.choice([x for x in (b.c, b.c2, b.cg) if x != cur and b.get('token', x) == f] or [b.c2])
                if cur in w.conv:
                    b.boss(cur, 'transferTokenOwnership', to)
                else:
                    by(w, cur, f, 'transferOwnerShip', to)
        base = Snap(w)
        prs = b.probes()
        for s in (w.network, b.c, b.c2, b.cg, odd):
            prs += [(s, 'tokenFallback', [r.choice([b.get('own', s), b.get('mgr', s) or w.owner, s]), 1, x], 0) for x in (b'', b'conversionResult')]
        for s in (b.c, b.f, b.ix, w.network, w.registry, b.t0):
            prs += [(s, m, [], 0) for m in ('getOwner', 'getNewOwner', 'totalSupply', 'isActive', 'getScoreIds', 'name')
                    if hasattr(w.chain.classes[s], m)]
            prs.append((s, None, [], 0))
        r.shuffle(prs)
        prs.sort(key=lambda p: (b.sh.roles.get(p[0]), p[1]) in seen)
        for pr in prs[:24]:
            to, m, args, value = pr
            for label, who in b.callers(to).items():
                left -= 1
                base.restore(w)
                res = probe_once(b, pr, who, label)
                if stop(w, want) or left <= 0:
                    return summary(w, 'tolls', {'methods asked with payment': len(seen)}, t0)
                if res is None or not res.ok:
                    continue
                base.restore(w)
                pay = r.choice([1, 10 ** 9, 10 ** 18])
                seen.add((b.sh.roles.get(to), m))
                probe_once(b, (to, m, args, value + pay), who, label + ', paying')
                break
            if stop(w, want):
                return summary(w, 'tolls', {'methods asked with payment': len(seen)}, t0)
        base.restore(w)
        b.sh.scene = ''
    return summary(w, 'tolls', {'methods asked with payment': len(seen)}, t0)


def succession(seed, size, want):
    """roles pass from hand to hand; after each hand-over everybody who ever held the role tries everything the role
    allows, the holder first (whatever an instance remembers about the previous holder shows)"""
    t0 = time.time()
    b = Board('succession', seed, 'never' if seed % 3 else 'on_fail')
    b.sh.want = want
    w, r, n = b.w, b.r, b.w.network
    left = size
    handovers = 0
    focus = RELEVANT.get(want)

    def everything(s, people):
        nonlocal left
        prs = [p for p in b.probes() if p[0] == s and p[1] not in ('transferTokenOwnership', 'transferOwnerShip', 'transferManagement')]
        if s == b.f or s == b.g or s == b.h:
            prs = [p for p in prs if p[1] != 'acceptOwnerShip']
        if focus:
            prs = [p for p in prs if p[1] in focus] + r.sample(prs, min(2, len(prs)))
        r.shuffle(prs)
        for pr in prs[:6]:
            for label, who in people:
                b.sh.scene = f'{b.sh.roles[s]}.{pr[1]} by {label} after {min(handovers, 9)} hand-overs'
                by(w, who, pr[0], pr[1], *pr[2], value=pr[3], origin=r.choice(w.eoas[:3]))
                left -= 1
                if stop(w, want):
                    return True
        return False

    def ex(s, kinds, past):
        now = [(k, b.get(k, s)) for k in kinds]
        out = [({'own': 'owner', 'mgr': 'manager', 'pend': 'nominee', 'pmgr': 'nominated manager'}[k], v) for k, v in now]
        cur = {v for _, v in now}
        out += [('former holder', x) for x in past if x not in cur]
        out.append(('outsider', r.choice(b.people)))
        seen, res = set(), []
        for lab, x in out:
            if x in b.people and x not in seen:
                seen.add(x)
                res.append((lab, x))
        return res

    past = {}
    while left > 0:
        s = r.choice([b.c, b.c, b.c, b.h, b.f, b.f, n, w.registry, b.ix, b.c2])
        ps = past.setdefault(s, [])
        kinds = ('own', 'pend') + (('mgr', 'pmgr') if s in w.conv else ())
        # what the present holder does leaves traces in instances
        if everything(s, ex(s, kinds, ps)[:2]):
            break
        x = r.random()
        for k in ('own', 'mgr'):
            v = b.get(k, s)
            if v in b.people and v not in ps:
                ps.append(v)
        if s == b.f:
            b.hand_token(s, r.choice([w.owner, w.eoas[1], b.p[0], b.c, b.c, b.c2]))
        elif s in w.conv and x < .45:
            new = r.choice(b.people + [b.get('own', s)] * 4 + ps)
            b.hand_manager(s, new)
        elif x < .6:
            # half a hand-over, withdrawn or redirected, then maybe accepted
            cands = [r.choice(b.people), r.choice(ps + b.people), ZERO]
            r.shuffle(cands)
            for cnd in cands[:r.randrange(1, 4)]:
                b.boss(s, 'transferOwnerShip', cnd)
            if s in w.conv and r.random() < .5:
                by(w, b.om(s), s, 'transferManagement', r.choice(cands))
            for who in r.sample(b.people, 3) + [z for z in cands if z in b.people][:1]:
                by(w, who, s, 'acceptOwnerShip')
                if s in w.conv:
                    by(w, who, s, 'acceptManagement')
        else:
            new = r.choice(b.people + ps * 2 + ([b.get('mgr', s)] * 2 if s in w.conv else []))
            if new in b.people:
                b.hand(s, new)
        handovers += 1
        b.sh.scene = ''
        if stop(w, want) or everything(s, ex(s, kinds, ps)):
            break
        if r.random() < .2:
            b.sw_heal()
        b.sh.scene = ''
    return summary(w, 'succession', {'handovers': handovers}, t0)


SETTINGS = ('registerIcxToken', 'registerAddress', 'unregisterAddress', 'addConnector', 'updateConnector', 'disableConnectorPurchases',
            'updateRegistry', 'restoreRegistry', 'disableRegistryUpdate', 'disableConversions', 'setConversionFee', 'transferManagement',
            'acceptManagement', 'transferTokenOwnership', 'acceptTokenOwnership', 'disableTokenTransfers', 'disableTransfer',
            'transferOwnerShip', 'acceptOwnerShip')


def limbo(seed, size, want):
    """the contract in charge changes a setting and makes use of it within one request which, as a rule, is undone in the end;
    the next requests reach the same instances.  Monitored, and replayed with other lives of the instances"""
    t0 = time.time()
    tapes = []
    r0 = __import__('random').Random(f'limbo:{seed}')
    b = Board('limbo', seed, r0.choice(['never', 'on_fail']), lambda w: tapes.append(Tape(w)))
    b.sh.want = want
    w, r, n, sh = b.w, b.r, b.w.network, b.sh
    me = b.p[0]
    for s in (b.c, b.cg, b.c2, n, w.registry, b.reg2, b.ix, b.h):
        b.hand(s, me)
        if s in w.conv and r.random() < .5:
            b.hand_manager(s, me)
    for t in b.conns + [b.f]:
        if b.m.bal(t, me) < 10 ** 16 and t != b.ix:
            w.tx(w.owner, t, 'transfer', _to=me, _value=10 ** 16)
    rounds = 0
    left = size
    while left > 0:
        rounds += 1
        prs = b.probes()
        sets = [p for p in prs if p[1] in SETTINGS]
        if r.random() < .3:
            # those that are used least directly
            sets = [p for p in sets if p[1] in ('registerIcxToken', 'registerAddress', 'updateRegistry', 'setConversionFee')]
        kind = r.choice(sorted({p[1] for p in sets}))
        ch = [r.choice([p for p in sets if p[1] == kind])]
        while r.random() < .3:
            ch.append(r.choice([p for p in sets if p[0] == ch[0][0]]))
        uses = [p for p in prs if p[1] not in SETTINGS]
        # what makes use of the contract in question
        s = ch[0][0]
        if kind == 'registerIcxToken':
            near = [p for p in uses if p[0] == n and p[1] != 'withdrawTokens'] + [p for p in uses if p[1] == 'transfer' and p[2][0] == n
                                                          and (str(b.ix) in p[2][2].decode().split('"')[3].split(',')[-1])] * 2
        elif s in w.reg:
            near = [p for p in uses if p[1] == 'transfer' and p[2][0] in (b.c, b.cg, n)]
        else:
            near = [p for p in uses if p[0] == s or p[1] == 'transfer' and p[2][0] in (n, s)]
        near = near or uses
        us = [r.choice(near) for _ in range(r.randrange(1, 3))]
        acts = [(to, m, tuple(a), v, r.random() < .8) for to, m, a, v in ch] + [(to, m, tuple(a), v, True) for to, m, a, v in us]
        if s in w.conv and sh.get(('own', s)) == me and r.random() < (.7 if kind == 'addConnector' else .15):
            # the converter is taken out of operation on the way, and now and then put back
            t = sh.get(('token', s))
            stop_it = [(s, 'transferTokenOwnership', (me,), 0, True), (t, 'acceptOwnerShip', (), 0, True)]
            go = [(t, 'transferOwnerShip', (s,), 0, True), (s, 'acceptTokenOwnership', (), 0, True)]
            if sh.get(('own', t)) == s:
                acts = stop_it + acts[:len(ch)] + (go if r.random() < .7 else []) + acts[len(ch):]
            elif sh.get(('own', t)) == me:
                acts = acts[:len(ch)] + go + acts[len(ch):]
        if r.random() < .2:
            acts += [(to, m, tuple(a), v, True) for to, m, a, v in [r.choice(sets)]]
        x = r.random()
        b.sh.scene = f'limbo {kind}'
        if x < .6:
            w.run(me, acts, sender=r.choice(w.eoas), method='runRevert')
        elif x < .8:
            w.chain.doom = True
            try:
                w.run(me, acts, sender=r.choice(w.eoas))
            finally:
                w.chain.doom = False
        else:
            w.run(me, acts, sender=r.choice(w.eoas))
        for to, m, a, v in us + [r.choice(near)]:
            if left <= 0 or stop(w, None):
                break
            by(w, r.choice([me, me, w.eoas[3], b.p[1]]), to, m, *a, value=v)
            left -= 1
        left -= 1
        if stop(w, None):
            break
        if r.random() < .12:
            b.turn()
            for s2 in (b.c, n, w.registry, b.ix):
                b.hand(s2, me)
        if r.random() < .15:
            b.sw_heal()
    nd = tapes[0].twins(seed)
    return summary(w, 'limbo', {'requests': len(tapes[0].script), 'rounds': rounds, 'twin_comparisons': nd}, t0)
