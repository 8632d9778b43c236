"""Seeded traffic generators.  Every op is one transaction (or one query) against the monitored chain."""
import json

from vchain import *          # noqa
from actors import BEHAVIOUR
from spec import PPM, TOKENS, QREVERT, good_path, parse_addr, twin
from world import World, Deploy

BIG = [2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 127, 2 ** 128, 2 ** 129, 2 ** 255, 2 ** 256]

# addresses that mean nothing to anybody but look as if they might
EDGES = [Address.from_string(x) for x in ('hx' + '0' * 40, 'hx' + 'f' * 40, 'hx' + '0' * 39 + '1', 'cx' + 'f' * 40, 'cx' + '0' * 39 + '2')]


class Monkey:
    def __init__(self, w, profile, rng=None):
        self.w = w
        self.rng = rng or w.rng
        self.ch, self.sh = w.chain, w.sh
        self.ops = [(getattr(self, 'op_' + k), v) for k, v in profile.items() if v]
        self.weights = [v for _, v in self.ops]
        self.fns = [f for f, _ in self.ops]
        self.done = {}
        self.accepted = 0
        self.restart_p = 0.02
        self.doom_p = 0.03

    def step(self):
        f = self.rng.choices(self.fns, self.weights)[0]
        r = self.rng.random()
        if r < self.restart_p and self.ch.restart != 'never':
            self.ch.forget_instances()
        if r > .97:
            self.ch.height += self.rng.choice([1, 9, 43200, 10 ** 6])
        self.ch.doom = self.rng.random() < self.doom_p
        res = f()
        self.ch.doom = False
        n = f.__name__
        a = self.done.setdefault(n, [0, 0])
        a[0] += 1
        if res is not None and getattr(res, 'ok', False):
            a[1] += 1
            self.accepted += 1
        return res

    # ------------------------------------------------------------------ pools
    def p(self, x):
        return self.rng.random() < x

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def get(self, *k):
        return self.sh.get(tuple(k))

    @property
    def tokens(self):
        w = self.w
        return w.irc + w.ft + w.icxt

    @property
    def scores(self):
        w = self.w
        return w.ft + w.icxt + w.reg + w.net + w.conv

    def anybody(self):
        w, r = self.w, self.rng.random()
        if r < .5:
            return self.pick(w.eoas)
        if r < .68 and w.puppets:
            return self.pick(w.puppets)
        if r < .73:
            return ZERO if r < .71 else self.pick(EDGES)
        if r < .78 and w.mutes:
            return self.pick(w.mutes)
        if r < .82:
            return self.ch._addr('hx')
        if r < .84:
            return self.ch._addr('cx')
        if r < .86:
            return twin(self.pick(self.tokens + w.conv + w.eoas + w.puppets))
        return self.pick(self.tokens + w.conv + w.net + w.reg)

    def caller(self):
        """somebody who can actually sign or be made to call"""
        w = self.w
        if self.p(.15):
            # those who run things use them like anybody else
            c = self.pick(self.scores)
            a = self.get(self.pick(('own', 'pend', 'pend') if c not in w.conv else ('own', 'pend', 'mgr', 'pmgr', 'pmgr')), c)
            if a is not None and self.can_call(a):
                return a
        return self.pick(w.puppets) if w.puppets and self.p(.25) else self.pick(w.eoas)

    def can_call(self, a):
        return a in self.w.eoas or a in self.w.puppets

    def privileged(self, c, kinds=('own',), p=.6):
        """mostly the account in charge, sometimes a look-alike"""
        if self.p(p):
            a = self.get(self.pick(kinds), c)
            if a is not None and self.can_call(a):
                return a
        if self.p(.3):
            for k in ('pend', 'pmgr', 'mgr', 'own'):
                a = self.get(k, c)
                if a is not None and self.can_call(a) and self.p(.4):
                    return a
        return self.caller()

    def bal(self, t, a):
        return self.get('bal', t, a) or 0

    def amount(self, b):
        r = self.rng.random()
        if r < .07:
            return 0
        if r < .10:
            return -1
        if r < .17:
            return b
        if r < .22:
            return b + 1
        if r < .25:
            return b - 1
        if r < .30:
            return 1
        if r < .33:
            return self.pick(BIG)
        if r < .66:
            return self.rng.randrange(b + 1) if b > 0 else 0
        if r < .9:
            return b // self.rng.choice([2, 3, 10, 100, 1000, 10 ** 6])
        return self.rng.randrange(1, 2 ** self.rng.randrange(1, 90 if b < 2 ** 100 else b.bit_length() + 1))

    def data(self):
        r = self.rng.random()
        if r < .3:
            return None
        if r < .38:
            # notes of a length something may be cut, padded or packed at
            n = self.pick([31, 32, 33, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]) + self.rng.randrange(3) - 1
            return (self.ch.height.to_bytes(4, 'big') * (n // 4 + 1))[:n - 1] + b'!'
        return self.pick([b'', b'\0', b'None', b'conversionResult', b'\xff\xfe', b'{}', b'hello', b'x' * 300,
                          self.ch.height.to_bytes(8, 'big')])

    # ------------------------------------------------------------------ sending
    def send(self, who, to, method, args=(), value=0, catch=None):
        """args: ordered ((name, value), ...)"""
        if who in self.w.puppets:
            a = [(to, method, tuple(v for _, v in args), value, self.p(.3) if catch is None else catch)]
            m = 'run' if self.p(.92) else 'runRevert'
            return self.w.run(who, a, sender=self.pick(self.w.eoas), method=m)
        return self.w.tx(who, to, method, value, **dict(args))

    def value(self):
        return 0 if self.p(.97) else self.rng.randrange(1, 1000)

    # ------------------------------------------------------------------ tokens
    def op_transfer(self):
        t = self.pick(self.tokens)
        who = self.caller()
        if not self.bal(t, who) and self.p(.7):
            hs = [a for a in self.w.eoas + self.w.puppets if self.bal(t, a)]
            if hs:
                who = self.pick(hs)
        to = who if self.p(.08) else (t if self.p(.04) else self.anybody())
        args = [('_to', to), ('_value', self.amount(self.bal(t, who)))]
        d = self.data()
        if d is not None or self.p(.5):
            args.append(('_data', d))
        return self.send(who, t, 'transfer', args, self.value())

    def op_issue(self):
        t = self.pick(self.w.ft)
        who = self.privileged(t)
        to = t if self.p(.06) else self.anybody()
        return self.send(who, t, 'issue', [('_to', to), ('_amount', self.amount(self.get('sup', t) or 0))], self.value())

    def op_destroy(self):
        t = self.pick(self.w.ft)
        frm = self.anybody()
        if self.p(.6):
            hs = [k[2] for k, v in self.sh.s.items() if k[0] == 'bal' and k[1] == t and v]
            if hs:
                frm = self.pick(hs)
        who = frm if self.p(.4) and self.can_call(frm) else self.privileged(t)
        return self.send(who, t, 'destroy', [('_from', frm), ('_amount', self.amount(self.bal(t, frm)))], self.value())

    def op_disable_transfer(self):
        t = self.pick(self.w.ft)
        dis = not self.get('tp', t) if False else (self.p(.3) if self.get('tp', t) else self.p(.15))
        return self.send(self.privileged(t), t, 'disableTransfer', [('_disable', dis)], self.value())

    def op_deposit(self):
        if not self.w.icxt:
            return None
        t = self.pick(self.w.icxt)
        who = self.caller()
        have = self.get('icx', who) or 0
        v = self.pick([0, 1, have // 3, have // 1000, self.rng.randrange(have + 1) if have else 0, have, have + 1])
        if self.p(.5):
            return self.send(who, t, 'deposit', [], v)
        return self.send(who, t, None, [], v)

    def op_withdraw(self):
        if not self.w.icxt:
            return None
        t = self.pick(self.w.icxt)
        hs = [a for a in self.w.eoas + self.w.puppets if self.bal(t, a)]
        who = self.pick(hs) if hs and self.p(.8) else self.caller()
        amt = self.amount(self.bal(t, who))
        if self.p(.4):
            return self.send(who, t, 'withdraw', [('_amount', amt)], self.value())
        to = t if self.p(.05) else (who if self.p(.1) else self.anybody())
        return self.send(who, t, 'withdrawTo', [('_amount', amt), ('_to', to)], self.value())

    def op_icx(self):
        who = self.caller()
        to = self.anybody()
        have = self.get('icx', who) or 0
        return self.send(who, to, None, [], self.pick([0, 1, have // 2, have // 10 ** 6, have + 1]))

    def op_strange_value(self):
        """ICX sent to something that must not take it"""
        c = self.pick(self.scores + self.w.irc)
        who = self.caller()
        m, args = self.pick([('transfer', [('_to', who), ('_value', 0)]), ('transferOwnerShip', [('_newOwner', who)]),
                             ('acceptOwnerShip', []), ('withdrawTokens', [('_token', self.pick(self.tokens)), ('_to', who),
                                                                          ('_amount', 1)]),
                             ('getOwner', []), ('updateRegistry', []), (None, [])])
        return self.send(who, c, m, args, self.rng.randrange(1, 10 ** 6))

    def op_withdraw_tokens(self):
        h = self.pick(self.w.conv + self.w.net + self.w.ft + self.w.icxt)
        ts = [t for t in self.tokens if self.bal(t, h)]
        t = self.pick(ts) if ts and self.p(.85) else self.anybody()
        to = h if self.p(.06) else self.anybody()
        who = self.privileged(h, ('own',), .7)
        amt = self.amount(self.bal(t, h)) if t in self.tokens else 1
        return self.send(who, h, 'withdrawTokens', [('_token', t), ('_to', to), ('_amount', amt)], self.value())

    def op_stray_tokens(self):
        """tokens end up where nobody asked for them (legal: holders may send them there)"""
        w = self.w
        t = self.pick(self.tokens)
        hs = [a for a in w.eoas if self.bal(t, a)]
        if not hs:
            return None
        who = self.pick(hs)
        to = self.pick(w.net) if self.p(.5) or not w.conv else self.pick(w.conv)
        return self.send(who, t, 'transfer', [('_to', to), ('_value', self.bal(t, who) // 1000 + self.pick([0, 1])),
                                              ('_data', b'conversionResult' if self.p(.7) else self.data())])

    # ------------------------------------------------------------------ roles
    def op_owner(self):
        c = self.pick(self.scores)
        r = self.rng.random()
        if r < .5:
            new = self.get('own', c) if self.p(.1) else self.anybody()
            if self.p(.35):
                new = self.caller()
            return self.send(self.privileged(c), c, 'transferOwnerShip', [('_newOwner', new)], self.value())
        who = self.get('pend', c)
        if who is None or not self.can_call(who) or self.p(.35):
            who = self.privileged(c, ('own', 'mgr'), .3)
        return self.send(who, c, 'acceptOwnerShip', [], self.value())

    def op_manager(self):
        c = self.pick(self.w.conv)
        r = self.rng.random()
        if r < .5:
            new = self.get('mgr', c) if self.p(.1) else self.anybody()
            if self.p(.35):
                new = self.caller()
            return self.send(self.privileged(c, ('own', 'mgr')), c, 'transferManagement', [('_newManager', new)],
                             self.value())
        who = self.get('pmgr', c)
        if who is None or not self.can_call(who) or self.p(.35):
            who = self.privileged(c, ('own', 'mgr'), .3)
        return self.send(who, c, 'acceptManagement', [], self.value())

    def op_token_owner(self):
        """ownership of the flexible token through its converter (and back)"""
        c = self.pick(self.w.conv)
        ft = self.get('token', c)
        r = self.rng.random()
        if r < .35:
            new = self.pick([self.get('own', c), self.pick(self.w.conv), c, self.anybody()])
            return self.send(self.privileged(c), c, 'transferTokenOwnership', [('_newOwner', new)])
        if r < .7:
            return self.send(self.privileged(c), c, 'acceptTokenOwnership', [])
        who = self.get('pend', ft) or self.caller()
        if r < .85:
            return self.send(who if self.can_call(who) else self.caller(), ft, 'acceptOwnerShip', [])
        who = self.get('own', ft)
        return self.send(who if who and self.can_call(who) else self.caller(), ft, 'transferOwnerShip',
                         [('_newOwner', c)])

    def op_heal(self):
        """bring one inactive converter back in charge of its token"""
        cs = [c for c in self.w.conv if self.get('own', self.get('token', c)) != c]
        if not cs:
            return self.op_trade()
        c = self.pick(cs)
        ft = self.get('token', c)
        own, pend, boss = self.get('own', ft), self.get('pend', ft), self.get('own', c)
        if pend == c:
            if boss is not None and self.can_call(boss):
                return self.send(boss, c, 'acceptTokenOwnership', [], catch=False)
            return None
        if own is not None and self.can_call(own):
            return self.send(own, ft, 'transferOwnerShip', [('_newOwner', c)], catch=False)
        if own in self.w.conv:
            b2 = self.get('own', own)
            if b2 is not None and self.can_call(b2):
                return self.send(b2, own, 'transferTokenOwnership', [('_newOwner', c)], catch=False)
        return None

    def op_passthrough(self):
        c = self.pick(self.w.conv)
        ft = self.get('token', c)
        if self.p(.5):
            return self.send(self.privileged(c), c, 'disableTokenTransfers', [('_disable', self.p(.3))])
        ts = [t for t in self.tokens if self.bal(t, ft)] or self.tokens
        t = self.pick(ts)
        return self.send(self.privileged(c), c, 'withdrawFromToken',
                         [('_token', t), ('_to', self.anybody()), ('_amount', self.amount(self.bal(t, ft)))])

    # ------------------------------------------------------------------ registry
    def op_registry(self):
        g = self.pick(self.w.reg)
        name = self.pick(['Network', 'Network', 'ScoreRegistry', 'ScoreRegistry', 'Converter', '', 'network',
                          'ScoreRegistry '])
        who = self.privileged(g)
        if self.p(.75):
            addr = self.pick(self.w.reg) if name == 'ScoreRegistry' and self.p(.6) else \
                (self.pick(self.w.net) if self.p(.6) else self.anybody())
            return self.send(who, g, 'registerAddress', [('_scoreName', name), ('_scoreAddress', addr)], self.value())
        return self.send(who, g, 'unregisterAddress', [('_scoreName', name)], self.value())

    def op_registry_back(self):
        g = self.pick(self.w.reg)
        name, a = self.pick([('Network', self.w.network), ('ScoreRegistry', g)])
        o = self.get('own', g)
        return self.send(o if o and self.can_call(o) else self.caller(), g, 'registerAddress',
                         [('_scoreName', name), ('_scoreAddress', a)], catch=False)

    def op_conv_registry(self):
        c = self.pick(self.w.conv)
        r = self.rng.random()
        if r < .55:
            return self.send(self.privileged(c, ('own', 'mgr'), .5), c, 'updateRegistry', [], self.value())
        if r < .75:
            return self.send(self.privileged(c, ('own', 'mgr')), c, 'restoreRegistry', [], self.value())
        return self.send(self.privileged(c, ('own', 'mgr')), c, 'disableRegistryUpdate', [('_disable', self.p(.4))],
                         self.value())

    def op_registry_route(self):
        """the registry in use announces a successor (the previous one, itself, another, nothing); the converter is asked to follow"""
        c = self.pick(self.w.conv)
        g, prev = self.get('registry', c), self.get('prevreg', c)
        if g not in self.w.reg:
            return self.send(self.privileged(c, ('own', 'mgr'), 1), c, 'restoreRegistry', [])
        others = [x for x in self.w.reg if x not in (g, prev)]
        nxt = self.pick([prev, prev, g, self.pick(others) if others else prev, None] + ([self.pick(self.w.puppets)] if self.w.puppets and
                                                                                         self.p(.1) else []))
        o = self.get('own', g)
        o = o if o is not None and self.can_call(o) else self.caller()
        if nxt is None:
            self.send(o, g, 'unregisterAddress', [('_scoreName', 'ScoreRegistry')], catch=False)
        elif self.get('reg', g, 'ScoreRegistry') != nxt:
            self.send(o, g, 'registerAddress', [('_scoreName', 'ScoreRegistry'), ('_scoreAddress', nxt)], catch=False)
        if self.p(.5):
            self.send(self.privileged(c, ('own', 'mgr'), .9), c, 'disableRegistryUpdate', [('_disable', self.p(.6))], catch=False)
        r = None
        for _ in range(self.pick([1, 1, 2])):
            r = self.send(self.privileged(c, ('own', 'own', 'mgr'), .75), c, 'updateRegistry', [], catch=False)
        if self.p(.25):
            self.send(self.privileged(c, ('own', 'mgr'), .8), c, 'restoreRegistry', [], catch=False)
        return r

    # ------------------------------------------------------------------ converter administration
    def weight(self, c):
        left = PPM - sum((self.get('cn', c, t) or (0,))[0] for t in self.get('order', c) or ())
        return self.pick([0, 1, -1, PPM, PPM + 1, left, left + 1, left - 1, 100000, 500000, 333333,
                          self.rng.randrange(1, PPM)])

    def op_connector(self):
        c = self.pick(self.w.conv)
        order = self.get('order', c) or ()
        r = self.rng.random()
        if r < .45:
            t = self.pick(self.tokens) if self.p(.7) else self.pick([c, self.get('token', c), self.anybody(),
                                                                      self.pick(order) if order else ZERO])
            return self.send(self.privileged(c), c, 'addConnector',
                             [('_token', t), ('_weight', self.weight(c)), ('_enableVirtualBalance', self.p(.3))],
                             self.value())
        t = self.pick(order) if order and self.p(.9) else self.anybody()
        if r < .8:
            w = self.get('cn', c, t)
            wt = self.weight(c) if self.p(.5) or not w else w[0]
            if w and self.p(.3):
                left = PPM - sum(self.get('cn', c, x)[0] for x in order)
                wt = w[0] + left + self.pick([0, 1])
            vb = self.pick([0, 1, 10 ** 15, self.bal(t, c), self.bal(t, c) * 2 + 1,
                            self.rng.randrange(1, 10 ** 24), self.get('vb', c, t) or 7])
            if self.p(.01):
                vb = -1
            return self.send(self.privileged(c), c, 'updateConnector',
                             [('_connectorToken', t), ('_weight', wt), ('_enableVirtualBalance', self.p(.45)),
                              ('_virtualBalance', vb)], self.value())
        return self.send(self.privileged(c), c, 'disableConnectorPurchases',
                         [('_connectorToken', t), ('_disable', self.p(.45))], self.value())

    def op_purchases_back(self):
        for c in self.w.conv:
            for t in self.get('order', c) or ():
                cn = self.get('cn', c, t)
                if cn and not cn[1]:
                    return self.send(self.privileged(c, p=1), c, 'disableConnectorPurchases',
                                     [('_connectorToken', t), ('_disable', False)], catch=False)
        return None

    def op_fee(self):
        c = self.pick(self.w.conv)
        mf = self.get('maxfee', c)
        f = self.pick([0, 1, mf, mf + 1, -1, mf // 2, PPM, PPM + 1, self.rng.randrange(0, 50000), 1000, 999983])
        if self.p(.5):
            f = min(f, mf) if f >= 0 else 0
            f = f // 10 if f > 100000 and self.p(.7) else f
        return self.send(self.privileged(c, ('own', 'mgr')), c, 'setConversionFee', [('_conversionFee', f)],
                         self.value())

    def op_conversions(self):
        c = self.pick(self.w.conv)
        dis = self.p(.3) if self.get('enabled', c) else self.p(.15)
        return self.send(self.privileged(c, ('own', 'mgr')), c, 'disableConversions', [('_disable', dis)],
                         self.value())

    def op_enable_back(self):
        for c in self.w.conv:
            if not self.get('enabled', c):
                return self.send(self.privileged(c, ('own', 'mgr'), 1), c, 'disableConversions',
                                 [('_disable', False)], catch=False)
        for t in self.w.ft:
            if not self.get('tp', t):
                o = self.get('own', t)
                if o in self.w.conv:
                    return self.send(self.privileged(o, p=1), o, 'disableTokenTransfers', [('_disable', False)],
                                     catch=False)
                return self.send(self.privileged(t, p=1), t, 'disableTransfer', [('_disable', False)], catch=False)
        return None

    def op_reserve(self):
        """owner/manager/stranger sends connector tokens to a converter"""
        c = self.pick(self.w.conv)
        order = self.get('order', c) or ()
        t = self.pick(order) if order and self.p(.85) else self.pick(self.tokens)
        who = self.privileged(c, ('own', 'mgr'), .75)
        b = self.bal(t, who)
        if not b:
            hs = [a for a in self.w.eoas if self.bal(t, a)]
            if hs and self.p(.5):
                a = self.pick(hs)
                return self.send(a, t, 'transfer', [('_to', who), ('_value', self.bal(t, a) // 2)])
        d = self.data() if self.p(.6) else self.w.conv_data(self.pick(order) if order else t, 1)
        return self.send(who, t, 'transfer', [('_to', c), ('_value', self.pick([0, 1, b // 10, b // 1000, b, b + 1])),
                                              ('_data', d)])

    def op_icx_token(self):
        n = self.pick(self.w.net)
        t = self.pick(self.w.icxt) if self.w.icxt and self.p(.6) else self.pick([n, self.anybody(),
                                                                                  self.pick(self.tokens)])
        reg = self.p(.85) if t in self.w.icxt else self.p(.1)
        return self.send(self.privileged(n), n, 'registerIcxToken', [('_icxToken', t), ('_register', reg)],
                         self.value())

    def op_icx_token_back(self):
        n = self.w.network
        for t in self.w.irc + self.w.ft + self.w.icxt:
            want = t in self.w.icxt
            if bool(self.get('ntok', n, t)) != want:
                return self.send(self.privileged(n, p=1), n, 'registerIcxToken', [('_icxToken', t), ('_register', want)],
                                 catch=False)
        return None

    def op_network_back(self):
        for c in self.w.conv:
            r = self.get('registry', c)
            if r in self.w.reg and self.get('reg', r, 'Network') != self.w.network:
                o = self.get('own', r)
                if o is not None and self.can_call(o):
                    return self.send(o, r, 'registerAddress', [('_scoreName', 'Network'),
                                                               ('_scoreAddress', self.w.network)], catch=False)
        return None

    # ------------------------------------------------------------------ conversions
    def live_edges(self):
        e = {}
        for ft in self.w.ft:
            c = self.get('own', ft)
            if c not in self.w.conv or self.get('token', c) != ft:
                continue
            names = [t for t in (self.get('order', c) or ())] + [ft]
            for a in names:
                for b in names:
                    if a != b:
                        e.setdefault(a, []).append((ft, b))
        return e

    def path(self, start=None, maxhops=3, edges=None):
        e = edges or self.live_edges()
        if not e or (start is not None and start not in e):
            return None
        cur = start or self.pick(e)
        path, used = [cur], set()
        for _ in range(self.rng.randrange(1, maxhops + 1)):
            opts = [(f, b) for f, b in e.get(cur, []) if f not in used]
            if not opts:
                break
            f, b = self.pick(opts)
            used.add(f)
            path += [f, b]
            cur = b
        return path

    def circle(self, hops=None):
        """a walk along live converters that comes back to one of them, mostly not at once"""
        e = self.live_edges()
        if not e:
            return None
        for _ in range(6):
            cur = self.pick(e)
            path = [cur]
            for _ in range(hops or self.rng.randrange(2, 11)):
                opts = e.get(cur, [])
                if len(path) > 1 and self.p(.85):
                    opts = [(f, b) for f, b in opts if f != path[-2]] or opts
                if not opts:
                    break
                f, cur = self.pick(opts)
                path += [f, cur]
            if len(set(path[1::2])) < len(path) // 2:
                return path
        return None

    def op_circle(self):
        path = self.circle()
        if path is None:
            return None
        return self.op_trade(path=path) if self.p(.6) else self.op_path_quote(path)

    def spoil(self, path):
        """turn a good path into a suspicious one"""
        p = list(path)
        k = self.rng.randrange(9)
        if k == 0:
            p = p[:-1]
        elif k == 1:
            p = p + [self.pick(self.tokens)]
        elif k == 2 and len(p) >= 3:
            p = p + [p[1], self.pick(self.tokens)]
        elif k == 3:
            p = p[:1]
        elif k == 4:
            p[self.rng.randrange(len(p))] = self.anybody()
        elif k == 5:
            p = p[1:]
        elif k == 6:
            p[-1] = self.pick(self.tokens)
        elif k == 7:
            p = (p * 12)[:self.pick([21, 22, 23, 25])]
        else:
            p[0] = self.pick(self.tokens)
        return p

    def conv_amount(self, path, have):
        """mostly modest amounts, so that reserves survive"""
        r = self.rng.random()
        if r < .05:
            return 0
        if r < .1:
            return have
        if r < .13:
            return have + 1
        if r < .2:
            return self.pick([1, 2, 3, 10, 1000])
        if r < .5:
            return have // self.pick([2, 5, 10, 30])
        c = self.get('own', path[1]) if len(path) > 1 else None
        ref = self.bal(path[0], c) if c else have
        return min(have, max(1, ref // self.pick([1, 2, 10, 1000, 10 ** 6]) + self.rng.randrange(-3, 4)))

    def min_return(self, net, path, amt):
        q = self.w.quote(net, path, amt) if amt > 0 else None
        r = self.rng.random()
        if r < .3 or not isinstance(q, int):
            return self.pick([1, 1, 1, 0, -5, 10 ** 30]) if r < .06 else 1
        if r < .5:
            return q
        if r < .62:
            return q + 1
        if r < .7:
            return max(1, q - 1)
        if r < .74:
            return self.pick([0, -1, 2 ** 70])
        return max(1, q // 2)

    def beneficiary(self):
        r = self.rng.random()
        if r < .35:
            return None
        if r < .75:
            return self.pick(self.w.eoas)
        return self.anybody()

    def path_json(self, path, mn, to):
        r = self.rng.random()
        d = {'path': ','.join(str(p) for p in path), 'minReturn': mn}
        if to is not None:
            d['for'] = str(to)
        elif self.p(.3):
            d['for'] = None
        if r < .04:
            d['path'] = ' , '.join(str(p) for p in path)
        elif r < .06:
            d['extra'] = [1, {'x': None}]
        elif r < .07:
            d['minReturn'] = self.pick([str(mn), float(mn) if abs(mn) < 10 ** 300 else 1.5, None, [mn], {}])
        elif r < .08:
            d['for'] = self.pick(['', 'hx12', 5, 'cx' + '0' * 39, [], 'hello'])
        elif r < .09:
            d['path'] = self.pick(['', ',', 'nonsense', None, 5, [str(p) for p in path],
                                   ','.join(str(p) for p in path) + ',', 'hx' + '1' * 39])
        elif r < .095:
            d.pop('minReturn')
        elif r < .1:
            d.pop('path')
        s = json.dumps(d).encode()
        if self.p(.008):
            s = self.pick([b'', b'null', b'[]', b'5', s[:-1], s + b'}', b'\xff' + s, s.decode().encode('utf-16')])
        return s

    def op_trade(self, maxhops=3, path=None):
        w = self.w
        path = path or self.path(maxhops=maxhops)
        if path is None:
            return None
        net = w.network if self.p(.97) else self.pick(w.net)
        if self.p(.06):
            path = self.spoil(path)
        src = path[0]
        icx_start = src in w.icxt
        to = self.beneficiary()
        if icx_start and self.p(.6):
            who = self.caller()
            have = self.get('icx', who) or 0
            amt = max(0, self.conv_amount(path, have))
            mn = self.min_return(net, path, amt)
            ps = (' , ' if self.p(.04) else ',').join(str(x) for x in path)
            if self.p(.03):
                ps = self.pick(['', 'x', ps + ',', ps[:-1], str(src)])
            if to is None:
                return self.send(who, net, 'convert', [('_path', ps), ('_minReturn', mn)], amt)
            return self.send(who, net, 'convertFor', [('_path', ps), ('_minReturn', mn), ('_for', to)], amt)
        if self.p(.04) and not icx_start:
            # ICX offered for a token that is not the ICX token
            who = self.caller()
            return self.send(who, net, 'convertFor', [('_path', ','.join(str(x) for x in path)), ('_minReturn', 1),
                                                      ('_for', who)], self.rng.randrange(0, 1000))
        if src not in self.tokens:
            return None
        hs = [a for a in w.eoas + w.puppets if self.bal(src, a)]
        who = self.pick(hs) if hs else self.caller()
        amt = self.conv_amount(path, self.bal(src, who))
        mn = self.min_return(net, path, amt)
        return self.send(who, src, 'transfer', [('_to', net), ('_value', amt), ('_data', self.path_json(path, mn, to))])

    def op_long(self):
        return self.op_trade(maxhops=10)

    def op_pump(self):
        """buy a flexible token, sell it back"""
        e = self.live_edges()
        cands = [(a, f, b) for a, l in e.items() for f, b in l if b == f]
        if not cands:
            return None
        a, f, _ = self.pick(cands)
        hs = [u for u in self.w.eoas if self.bal(a, u)]
        if not hs:
            return None
        u = self.pick(hs)
        amt = max(1, self.bal(a, u) // self.pick([1, 10, 1000]))
        n = self.w.network
        b0 = self.bal(f, u)
        r = self.send(u, a, 'transfer', [('_to', n), ('_value', amt), ('_data', self.w.path_data([a, f, f], 1))])
        got = self.bal(f, u) - b0
        if r.ok and got > 0:
            self.send(u, f, 'transfer', [('_to', n), ('_value', got), ('_data', self.w.path_data([f, f, a], 1))])
        return r

    def op_swap_back(self):
        """cross conversion there and back"""
        e = self.live_edges()
        cands = [(a, f, b) for a, l in e.items() for f, b in l if b != f and a != f]
        if not cands:
            return None
        a, f, b = self.pick(cands)
        hs = [u for u in self.w.eoas if self.bal(a, u)]
        if not hs:
            return None
        u, n = self.pick(hs), self.w.network
        amt = max(1, self.bal(a, u) // self.pick([1, 10, 1000]))
        b0 = self.bal(b, u)
        r = self.send(u, a, 'transfer', [('_to', n), ('_value', amt), ('_data', self.w.path_data([a, f, b], 1))])
        got = self.bal(b, u) - b0
        if r.ok and got > 0:
            self.send(u, b, 'transfer', [('_to', n), ('_value', got), ('_data', self.w.path_data([b, f, a], 1))])
        return r

    def op_liquidate(self):
        """one holder collects the whole supply and sells all of it (or all but one)"""
        fts = [f for f in self.w.ft if self.get('own', f) in self.w.conv]
        if not fts:
            return None
        f = self.pick(fts)
        c = self.get('own', f)
        order = self.get('order', c) or ()
        if not order:
            return None
        u = self.pick(self.w.eoas)
        for a in [k[2] for k, v in list(self.sh.s.items()) if k[0] == 'bal' and k[1] == f and v]:
            if a != u and self.can_call(a):
                self.send(a, f, 'transfer', [('_to', u), ('_value', self.bal(f, a))], catch=False)
        b = self.bal(f, u)
        if not b:
            return None
        amt = self.pick([b, b, b - 1, b - b // 10 ** 6, b // 2])
        return self.send(u, f, 'transfer', [('_to', self.w.network), ('_value', amt),
                                            ('_data', self.w.path_data([f, f, self.pick(order)], 1))])

    def op_direct(self):
        """somebody who is not the network knocks at the converter (or forges tokenFallback)"""
        w = self.w
        c = self.pick(w.conv)
        order = list(self.get('order', c) or ())
        to = self.pick(order + [self.get('token', c)]) if self.p(.9) else self.anybody()
        d = w.conv_data(to, self.pick([1, 1, 1, 0]))
        if self.p(.15):
            d = self.pick([b'', b'{}', b'\xff', json.dumps({'toToken': str(to)}).encode(),
                           json.dumps({'toToken': 5, 'minReturn': 1}).encode(),
                           json.dumps({'toToken': str(to), 'minReturn': '1'}).encode(),
                           json.dumps({'toToken': str(to), 'minReturn': None}).encode()])
        t = self.pick(order) if order and self.p(.8) else self.pick(self.tokens)
        if self.p(.55):
            who = self.caller()
            hs = [a for a in w.eoas + w.puppets if self.bal(t, a)]
            if hs:
                who = self.pick(hs)
            return self.send(who, t, 'transfer', [('_to', c), ('_value', self.bal(t, who) // 100 + 1), ('_data', d)])
        who = self.caller()
        frm = self.pick([w.network, w.network, who, self.get('own', c), self.get('mgr', c), self.anybody()])
        return self.send(who, c, 'tokenFallback', [('_from', frm), ('_value', self.pick([1, 1000, 0, -1, 10 ** 18])),
                                                   ('_data', d)])

    def op_forged_network(self):
        w = self.w
        path = self.path() or [self.pick(self.tokens)] * 3
        who = self.caller()
        d = self.pick([b'conversionResult', w.path_data(path, 1), w.path_data(path, 1, who), b'', b'x'])
        if self.p(.4):
            d = w.path_data([who] + list(path[1:]), 1, who)
        return self.send(who, w.network, 'tokenFallback', [('_from', self.anybody()),
                                                           ('_value', self.pick([0, 1, 10 ** 6, 10 ** 18])), ('_data', d)])

    def crooked_fts(self):
        """flexible tokens in the hands of a contract that is no converter"""
        return [f for f in self.w.ft if self.get('own', f) in self.w.puppets]

    def op_crooked(self):
        """a path leads through a flexible token whose owner pays what it likes (or nothing)"""
        w = self.w
        fs = self.crooked_fts()
        if not fs:
            return None
        f = self.pick(fs)
        p = self.get('own', f)
        n = w.network if self.p(.95) else self.pick(w.net)
        # what the contract can pay with
        paid = [t for t in self.tokens if self.bal(t, p)]
        out = self.pick(paid) if paid and self.p(.9) else self.pick(self.tokens)
        if not paid or self.p(.2):
            hs = [a for a in w.eoas if self.bal(out, a)]
            if hs:
                u = self.pick(hs)
                self.send(u, out, 'transfer', [('_to', p), ('_value', self.bal(out, u) // 50 + 1)])
        b = self.bal(out, p)
        pay = self.pick([0, 1, 2, b, b // 2, b // 1000, b + 1])
        e = self.live_edges()
        src = self.pick(self.tokens)
        path = [src, f, out]
        if self.p(.3):
            head = self.path(maxhops=2)
            if head and f not in head[1::2]:
                path = head + [f, out]
        if self.p(.4) and out in e:
            tail = self.path(start=out, maxhops=2)
            if tail and not set(tail[1::2]) & set(path[1::2]):
                path = path + tail[1:]
        acts = [(out, 'transfer', (n, pay, b'conversionResult'), 0, False)]
        k = self.rng.random()
        if k < .1:
            acts = []
        elif k < .2:
            acts = acts + [self.trick(p)]
        elif k < .25:
            acts = [self.trick(p)] + acts
        elif k < .3:
            acts = [(out, 'transfer', (n, pay, self.pick([b'', None, b'conversionResult ', b'x'])), 0, False)]
        elif k < .36:
            acts = acts + [(out, 'transfer', (n, self.pick([0, 1, b - pay if b > pay else 0]), b'conversionResult'), 0, self.p(.5))]
        BEHAVIOUR[p].on_token = acts
        mn = self.pick([0, -1, -pay, -pay - 1, -10 ** 30, 1, pay, pay + 1, max(1, pay - 1), 1, 1])
        to = self.beneficiary()
        src = path[0]
        how = self.rng.random()
        if how < .45:
            # plain ICX conversion, registered start or not, with or without a payment
            who = self.caller()
            v = self.pick([0, 0, 0, 1, 10 ** 6])
            ps = ','.join(str(x) for x in path)
            if self.p(.5) and w.icxt:
                x = self.pick(w.icxt)
                ps = ','.join(str(z) for z in [x] + path[1:])
            if to is None or self.p(.5):
                r = self.send(who, n, 'convert', [('_path', ps), ('_minReturn', mn)], v)
            else:
                r = self.send(who, n, 'convertFor', [('_path', ps), ('_minReturn', mn), ('_for', to)], v)
        else:
            hs = [a for a in w.eoas + w.puppets if self.bal(src, a)]
            who = self.pick(hs) if hs else self.caller()
            amt = self.pick([0, 0, 1, self.conv_amount(path, self.bal(src, who))])
            d = w.path_data(path, mn, to) if self.p(.9) else self.path_json(path, mn, to)
            r = self.send(who, src, 'transfer', [('_to', n), ('_value', amt), ('_data', d)])
        BEHAVIOUR[p].on_token = 'accept'
        return r

    # ------------------------------------------------------------------ puppets' tricks
    def trick(self, p, depth=0):
        """one action a puppet performs when control is handed to it"""
        w = self.w
        k = self.rng.randrange(10)
        c = self.p(.6)
        t = self.pick(self.tokens)
        b = self.bal(t, p)
        if k <= 1:
            return (t, 'transfer', (self.pick(w.eoas + w.puppets), self.pick([0, b, b // 2, b + 1]), b''), 0, c)
        if k <= 4:
            path = self.path(start=t) or self.path()
            if path is None:
                return (t, 'transfer', (p, 0), 0, c)
            b = self.bal(path[0], p)
            to = self.pick([p, self.pick(w.eoas)])
            return (path[0], 'transfer', (w.network, self.pick([b, b // 3, 1]), w.path_data(path, 1, to)), 0, c)
        if k == 5 and w.icxt:
            x = self.pick(w.icxt)
            b = self.bal(x, p)
            return (x, 'withdrawTo', (self.pick([b, b + 1, 1]), self.pick([p, self.pick(w.eoas)])), 0, c)
        if k == 6 and w.icxt:
            return (self.pick(w.icxt), 'deposit', (), (self.get('icx', p) or 0) // 2, c)
        if k == 7 and w.conv:
            cv = self.pick(w.conv)
            m = self.pick(['acceptOwnerShip', 'acceptManagement', 'updateRegistry', 'restoreRegistry',
                           'acceptTokenOwnership'])
            return (cv, m, (), 0, c)
        if k == 8 and w.conv:
            cv = self.pick(w.conv)
            order = self.get('order', cv) or (t,)
            return (cv, 'tokenFallback', (w.network, 1000, w.conv_data(self.pick(order), 1)), 0, c)
        return (w.network, 'tokenFallback', (p, 1000, self.pick([b'conversionResult', b''])), 0, c)

    def op_arm(self):
        """set what a puppet will do; no transaction"""
        if not self.w.puppets:
            return None
        p = self.pick(self.w.puppets)
        b = BEHAVIOUR[p]
        which = 'on_token' if self.p(.6) else 'on_icx'
        r = self.rng.random()
        if r < .25:
            setattr(b, which, 'accept')
        elif r < .4:
            setattr(b, which, 'reject')
        else:
            setattr(b, which, [self.trick(p) for _ in range(self.rng.randrange(1, 4))])
        return None

    def op_script(self):
        """several calls in one transaction"""
        if not self.w.puppets:
            return None
        p = self.pick(self.w.puppets)
        return self.w.run(p, [self.trick(p) for _ in range(self.rng.randrange(1, 5))], sender=self.pick(self.w.eoas),
                          method='run' if self.p(.85) else 'runRevert')

    def op_pry(self):
        """a contract asks for composite answers, and scribbles on them"""
        w = self.w
        if not w.puppets or not w.conv or not w.reg:
            return None
        c, g = self.pick(w.conv), self.pick(w.reg)
        ts = list(self.get('order', c) or ()) + [self.get('token', c), self.anybody()]
        asks = []
        for _ in range(self.rng.randrange(1, 5)):
            asks.append(self.pick([(g, 'getScoreIds', (), 0, True), (c, 'getConnector', (self.pick(ts),), 0, True),
                                   (c, 'getReturn', (self.pick(ts), self.pick(ts), self.pick([1, 10 ** 15])), 0, True)]))
        return w.run(self.pick(w.puppets), asks, sender=self.pick(w.eoas), method='run' if self.p(.85) else 'runRevert')

    def admin_action(self, s, p):
        """one thing the owner of s can do there"""
        w = self.w
        k = self.sh.roles.get(s)
        c = self.p(.15)
        if k == 'network':
            return (s, 'registerIcxToken', (self.pick(w.icxt + w.icxt + self.tokens), self.p(.6)), 0, c)
        if k == 'registry':
            if self.p(.2):
                return (s, 'unregisterAddress', (self.pick(['Network', 'ScoreRegistry']),), 0, c)
            return (s, 'registerAddress', (self.pick(['Network', 'ScoreRegistry']), self.pick(w.net + w.reg + [p])), 0, c)
        if k in ('ft',):
            return self.pick([(s, 'issue', (self.pick(w.eoas + [p]), self.pick([1, 10 ** 15])), 0, c),
                              (s, 'disableTransfer', (self.p(.5),), 0, c),
                              (s, 'destroy', (p, 1), 0, True),
                              (s, 'transferOwnerShip', (self.pick(w.eoas + w.conv),), 0, c)])
        if k == 'icxt':
            return (s, 'transferOwnerShip', (self.pick(w.eoas),), 0, c)
        order = self.get('order', s) or ()
        t = self.pick(order) if order else self.pick(self.tokens)
        cn = self.get('cn', s, t) or (1, True, False, True)
        mf = self.get('maxfee', s) or 0
        return self.pick([
            (s, 'setConversionFee', (self.pick([0, 1, mf, mf // 2]),), 0, c), (s, 'disableConversions', (self.p(.5),), 0, c),
            (s, 'disableConnectorPurchases', (t, self.p(.5)), 0, True), (s, 'disableTokenTransfers', (self.p(.5),), 0, True),
            (s, 'updateConnector', (t, cn[0], self.p(.5), self.pick([10 ** 18, self.bal(t, s), 10 ** 20])), 0, True),
            (s, 'transferTokenOwnership', (self.pick([p, s]),), 0, True), (s, 'acceptTokenOwnership', (), 0, True),
            (self.get('token', s), 'acceptOwnerShip', (), 0, True),
            (s, 'addConnector', (self.pick(self.tokens), 1, self.p(.3)), 0, True), (s, 'updateRegistry', (), 0, True),
            (s, 'restoreRegistry', (), 0, True), (s, 'disableRegistryUpdate', (self.p(.5),), 0, c),
            (s, 'transferManagement', (self.pick(w.eoas + [p]),), 0, True), (s, 'acceptManagement', (), 0, True)])

    def op_admin_script(self):
        """a contract in charge changes settings and makes use of them, all in one request - which may fail in the end"""
        w = self.w
        if not w.puppets:
            return None
        p = self.pick(w.puppets)
        mine = [s for s in self.scores if self.get('own', s) == p]
        if len(mine) < 3 and self.p(.5):
            s = self.pick([x for x in self.scores if x not in mine])
            o = self.get('own', s)
            if o in w.conv:
                s = o
                o = self.get('own', s)
            if o is not None and o != p and self.can_call(o):
                self.send(o, s, 'transferOwnerShip', [('_newOwner', p)], catch=False)
                w.run(p, [(s, 'acceptOwnerShip', (), 0, False)])
                mine = [x for x in self.scores if self.get('own', x) == p]
        if not mine:
            return None
        acts = []
        s = self.pick(mine)
        for _ in range(self.rng.randrange(1, 4)):
            s = s if self.p(.7) else self.pick(mine)
            acts.append(self.admin_action(s, p))
        use = self.rng.randrange(1, 3)
        net = w.network
        for _ in range(use):
            # make use of what was just changed
            k = self.sh.roles.get(s)
            path = None
            e = self.live_edges()
            if k == 'network':
                t = acts[-1][2][0] if acts[-1][1] == 'registerIcxToken' else self.pick(w.icxt)
                into = [x for x in e if any(b == t for _, b in e[x])]
                if into and self.p(.7):
                    x = self.pick(into)
                    fs = [f for f, b in e[x] if b == t]
                    path = [x, self.pick(fs), t]
                else:
                    path = self.path(start=t)
            elif k == 'converter':
                ft = self.get('token', s)
                l = [(a, f, b) for a, v in e.items() for f, b in v if f == ft]
                path = list(self.pick(l)) if l else None
            path = path or self.path()
            if path is None:
                continue
            b = self.bal(path[0], p)
            if path[0] in w.icxt and self.p(.5):
                acts.append((net, 'convert', (','.join(str(x) for x in path), 1), (self.get('icx', p) or 0) // 1000, self.p(.4)))
            else:
                acts.append((path[0], 'transfer', (net, self.pick([b // 10, b // 1000, 1]), w.path_data(path, 1, self.pick([p] + w.eoas))), 0,
                             self.p(.4)))
        if self.p(.3):
            acts.append(self.admin_action(s, p))
        r = w.run(p, acts, sender=self.pick(w.eoas), method='run' if self.p(.45) else 'runRevert')
        if self.p(.7):
            # the next request is served by the same instances
            path = None
            for to, m, a, v, _ in reversed(acts):
                if m == 'transfer' and a[0] == net:
                    path = [parse_addr(x) for x in json.loads(a[2].decode())['path'].split(',')]
                    break
                if m == 'convert':
                    path = [parse_addr(x) for x in a[0].split(',')]
                    break
            self.op_trade(path=path)
        return r

    def op_update(self):
        """somebody's contract is updated - with the code it already has"""
        a = self.pick(self.scores + self.w.irc)
        _, r = self.ch.deploy(self.ch.classes[a], self.ch.deployer[a], None, addr=a, method='on_update')
        self.w.log.append(f'update {a} : ' + ('ok' if r.ok else f'failed ({r.exc})'))
        return r

    def op_gift(self):
        """tokens or ICX for a puppet"""
        if not self.w.puppets:
            return None
        p = self.pick(self.w.puppets)
        t = self.pick(self.tokens)
        hs = [a for a in self.w.eoas if self.bal(t, a)]
        if not hs:
            return None
        u = self.pick(hs)
        return self.send(u, t, 'transfer', [('_to', p), ('_value', self.bal(t, u) // 10 + 1)])

    # ------------------------------------------------------------------ queries
    def op_quote(self):
        """getReturn of a random pair, checked against the formula, the fee rule and the refusal rules"""
        c = self.pick(self.w.conv)
        names = list(self.get('order', c) or ()) + [self.get('token', c)]
        a, b = self.pick(names), self.pick(names)
        if self.p(.08):
            b = self.pick(self.tokens)
        ref = self.bal(a, c) if a != self.get('token', c) else (self.get('sup', a) or 0)
        amt = self.pick([0, 1, ref, ref + 1, max(0, ref - 1), ref // 2, ref // 1000, ref * 10,
                         self.rng.randrange(ref + 1) if ref > 0 else 3, 2 ** self.rng.randrange(1, 131)])
        try:
            q = self.ch.query(c, 'getReturn', dict(_fromToken=a, _toToken=b, _amount=amt))
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            q = QREVERT
        self.w.log.append(f'query {c}.getReturn({a}, {b}, {amt}) -> {q}')
        self.sh.check_quote(c, a, b, amt, q, 'query')
        self.sh.case(('getReturn', q == QREVERT), lambda: self.w.log[-1])
        return None

    def op_path_quote(self, path=None):
        """getExpectedReturnByPath equals the composition of the converters' own quotes"""
        if path is None:
            path = self.path(maxhops=6)
            if path is None:
                return None
            if self.p(.15):
                path = self.spoil(path)
        n = self.w.network
        amt = self.pick([1, 10 ** 15, 10 ** 18, 10 ** 20, 0, -1, self.rng.randrange(1, 10 ** 22)])
        try:
            q = self.w.q(n, 'getExpectedReturnByPath', _path=','.join(str(x) for x in path), _amount=amt)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            q = QREVERT
        want, cur = amt, path[0]
        if not good_path(path) or amt <= 0:
            want = QREVERT
        else:
            for i in range(1, len(path), 2):
                c = self.sh._owner_of(path[i])
                try:
                    want = self.ch.query(c, 'getReturn', dict(_fromToken=cur, _toToken=path[i + 1],
                                                              _amount=want))['amount']
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    want = QREVERT
                    break
                cur = path[i + 1]
        self.w.log.append(f'query getExpectedReturnByPath({[str(x) for x in path]}, {amt}) -> {q}')
        tags = ('P21',) if good_path(path) else ('P21', 'P19')
        self.sh.check(tags, q == want, 'path quote composes the hop quotes',
                      lambda: f'path {[str(x) for x in path]} amount {amt}: {q}, hops compose to {want}')
        self.sh.case(('pathquote', len(path), q == QREVERT), lambda: self.w.log[-1])
        return None

    def _query(self, a, m, **kw):
        try:
            return self.w.q(a, m, **kw)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return QREVERT

    def op_getters(self):
        """the remaining read-only methods agree with the observable state"""
        s, w = self.sh, self.w
        c = self.pick(w.conv)
        order = self.get('order', c) or ()
        chk = s.check
        q = self._query(c, 'isActive')
        chk(('P17', 'P33'), q == (self.get('own', self.get('token', c)) == c), 'isActive', lambda: f'{c}: {q}')
        for t in order:
            q = self._query(c, 'getConnectorBalance', _connectorToken=t)
            if t in self.tokens:
                chk(('P14', 'P11'), q == s.conn_balance(c, t), 'getConnectorBalance', lambda: f'{c} {t}: {q}')
        a = self.anybody()
        if a not in order:
            q = self._query(c, 'getConnector', _address=a)
            chk(('P11',), q == {}, 'getConnector of a stranger', lambda: f'{c} {a}: {q}')
            q2 = self._query(c, 'getConnectorBalance', _connectorToken=a)
            chk(('P11',), q2 == QREVERT, 'getConnectorBalance of a stranger', lambda: f'{c} {a}: {q2}')
        q = self._query(c, 'getConnectorAt', _index=len(order))
        chk(('P11',), q == QREVERT, 'getConnectorAt past the end', lambda: f'{c}: {q}')
        amt, mag, fee = self.rng.randrange(2 ** self.pick([1, 8, 64, 120, 128, 160, 256, 300])), self.pick([1, 2, 2]), self.get('fee', c)
        q = self._query(c, 'getFinalAmount', _amount=amt, _magnitude=mag)
        chk(('P16',), q == amt * (PPM - fee) ** mag // PPM ** mag, 'getFinalAmount',
            lambda: f'{amt} magnitude {mag} fee {fee}: {q}')
        g = self.pick(w.reg)
        ids = self._query(g, 'getScoreIds')
        chk(('P09', 'P33'), isinstance(ids, list) and sorted(ids) == ['Network', 'ScoreRegistry'], 'getScoreIds', lambda: str(ids))
        nm = self.pick(['nope', '', 'network', 'Network '])
        q = self._query(g, 'getAddress', _scoreName=nm)
        chk(('P09',), q == ZERO, 'getAddress of an unknown name', lambda: f'{nm}: {q}')
        s.case(('getters', len(order), fee > 0), lambda: f'getters of {c}')
        return None

    def op_unknown(self):
        """every advertised writable method, arbitrary caller: anything not accounted for shows in the state"""
        c = self.pick(self.scores + self.w.irc)
        cls = self.ch.classes[c]
        api = [a for a in cls.get_api_methods()] if False else None
        import inspect as _i
        from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
        ms = []
        for n, f in _i.getmembers(cls, _i.isfunction):
            fl = getattr(f, CONST_BIT_FLAG, 0)
            if fl & ConstBitFlag.External and not fl & ConstBitFlag.ReadOnly:
                ms.append((n, f))
        n, f = self.pick(ms)
        args = []
        who = self.caller()
        for pn, pp in list(_i.signature(f).parameters.items())[1:]:
            ty = pp.annotation
            v = (who if self.p(.25) else self.anybody()) if ty is Address else (self.pick([0, 1, -1, 1000, PPM, 10 ** 18]) if ty is int else
                                                     (self.p(.5) if ty is bool else
                                                      (self.pick(['Network', 'ScoreRegistry', 'x']) if ty is str else b'x')))
            args.append((pn, v))
        return self.send(who, c, n, args, self.value())


# ------------------------------------------------------------------------------------- profiles
BACK = dict(heal=4, enable_back=3, purchases_back=3, network_back=3, icx_token_back=2, registry_back=1)
TRADE = dict(pry=1, circle=1, update=1, trade=60, pump=5, swap_back=5, quote=8, fee=4, connector=2, conversions=1, reserve=1, gift=1, direct=2,
             stray_tokens=1, transfer=3, disable_transfer=.3, crooked=3, admin_script=2, **BACK)
TOKENSP = dict(update=1, transfer=40, issue=10, destroy=12, disable_transfer=4, deposit=10, withdraw=12, icx=4, strange_value=3,
               withdraw_tokens=5, script=6, arm=5, gift=4, owner=3, stray_tokens=2, trade=6, admin_script=2, **BACK)
ADMIN = dict(pry=1, update=2, registry_route=3, owner=12, manager=10, token_owner=6, passthrough=4, registry=10, conv_registry=8, connector=12, fee=6,
             conversions=5, icx_token=4, withdraw_tokens=4, unknown=8, reserve=5, script=3, arm=2, trade=8, direct=2, admin_script=8, gift=2,
             getters=3, **BACK)
HOSTILE = dict(pry=1, circle=2, update=1, arm=14, script=10, gift=6, trade=28, direct=8, forged_network=5, withdraw=6, transfer=10, deposit=3,
               strange_value=2, stray_tokens=2, connector=1, fee=1, unknown=2, crooked=9, admin_script=5, **BACK)
LIFECYCLE = dict(update=1, token_owner=10, reserve=16, withdraw_tokens=12, connector=10, passthrough=5, manager=4, owner=3,
                 trade=16, direct=6, stray_tokens=4, gift=2, heal=8, fee=2, liquidate=.6, network_back=3,
                 enable_back=2, purchases_back=2, admin_script=3)
NETWORK = dict(circle=7, update=1, trade=40, long=20, path_quote=10, forged_network=6, stray_tokens=4, withdraw_tokens=2, icx_token=3,
               gift=2, arm=3, quote=2, fee=2, connector=1, crooked=9, admin_script=4, **BACK)
REGISTRY = dict(pry=3, update=1, registry=24, conv_registry=24, registry_route=20, trade=8, manager=4, owner=4, direct=3, getters=6, admin_script=6, **BACK)
QUERIES = dict(pry=3, circle=3, update=1, quote=30, path_quote=20, getters=20, trade=20, connector=6, fee=6, conversions=1, token_owner=1, **BACK)
