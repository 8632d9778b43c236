"""A deployed DEX plus seeded generators of realistic and hostile traffic."""
import json
import random

from vchain import *          # noqa
from actors import BEHAVIOUR, Behaviour, Mute, Puppet
from spec import PPM, Shadow

import importlib


def load_contracts():
    g = {}
    for mod, cls in (('contracts.irc_token.irc_token', 'IRCToken'),
                     ('contracts.flexible_token.flexible_token', 'FlexibleToken'),
                     ('contracts.icx_token.icx_token', 'IcxToken'),
                     ('contracts.score_registry.score_registry', 'ScoreRegistry'),
                     ('contracts.network.network', 'Network'),
                     ('contracts.converter.converter', 'Converter')):
        g[cls] = getattr(importlib.import_module(mod), cls)
    return g


class Deploy(Exception):
    pass


class World:
    """Builder with explicit steps; `standard()` makes a random but always valid DEX."""

    latest = None

    def __init__(self, seed=0, restart='on_fail', contracts=None, shadow=True, on_violation=None, want=None):
        BEHAVIOUR.clear()
        World.latest = self
        self.sh = None
        self.rng = random.Random(f'world:{seed}')
        self.chain = Chain(restart=restart, tag=str(seed))
        self.C = contracts or load_contracts()
        self.sh = Shadow(self.chain, want=want, on_violation=on_violation) if shadow else None
        self.eoas, self.puppets, self.mutes = [], [], []
        self.irc, self.icxt, self.ft, self.conv, self.reg, self.net = [], [], [], [], [], []
        self.log = []
        self.owner = self.chain.eoa(10 ** 27)
        self.eoas.append(self.owner)

    # ---- deployment helpers
    def _role(self, a, kind):
        if self.sh:
            self.sh.role(a, kind)

    def deploy(self, cls, kind, params=None, sender=None, must=True):
        a, r = self.chain.deploy(self.C[cls], sender or self.owner, params)
        if not r.ok:
            if must:
                raise Deploy(f'{cls} could not be deployed: {type(r.exc).__name__}: {r.exc}')
            return None, r
        self._role(a, kind)
        self.log.append(f'deploy {cls} {params} -> {a}')
        if self.sh:
            self.sh.installed(a, kind, params or {}, sender or self.owner)
        return a, r

    def user(self, icx=10 ** 24):
        a = self.chain.eoa(icx)
        self.eoas.append(a)
        if self.sh:
            self.sh.resync()
        return a

    def puppet(self, icx=0):
        a, r = self.chain.deploy(Puppet, self.owner)
        assert r.ok, r.exc
        BEHAVIOUR[a] = Behaviour()
        if icx:
            self.chain.mint_icx(a, icx)
        self.puppets.append(a)
        if self.sh:
            self.sh.resync()
        return a

    def mute(self):
        a, r = self.chain.deploy(Mute, self.owner)
        assert r.ok, r.exc
        self.mutes.append(a)
        if self.sh:
            self.sh.resync()
        return a

    def new_irc(self, supply=10 ** 12, decimals=18, sender=None):
        a, _ = self.deploy('IRCToken', 'irc', dict(_name=f'Tok{len(self.irc)}', _symbol=f'T{len(self.irc)}',
                                                   _initialSupply=supply, _decimals=decimals), sender)
        self.irc.append(a)
        return a

    def new_icxt(self):
        a, _ = self.deploy('IcxToken', 'icxt')
        self.icxt.append(a)
        return a

    def new_ft(self, supply=10 ** 6, decimals=18):
        a, _ = self.deploy('FlexibleToken', 'ft', dict(_name=f'Flex{len(self.ft)}', _symbol=f'F{len(self.ft)}',
                                                       _initialSupply=supply, _decimals=decimals))
        self.ft.append(a)
        return a

    def new_registry(self):
        a, _ = self.deploy('ScoreRegistry', 'registry')
        self.reg.append(a)
        return a

    def new_network(self):
        a, _ = self.deploy('Network', 'network')
        self.net.append(a)
        return a

    def new_converter(self, ft, reg, max_fee=PPM, connector=None, weight=0):
        a, _ = self.deploy('Converter', 'converter', dict(_token=ft, _registry=reg, _maxConversionFee=max_fee,
                                                          _connectorToken=connector or ZERO, _connectorWeight=weight))
        self.conv.append(a)
        return a

    # ---- transactions
    def tx(self, sender, to, method=None, value=0, **params):
        self.log.append(f'{sender} -> {to}.{method}({ {k: str(v) for k, v in params.items()} }) value={value}')
        r = self.chain.tx(sender, to, method, params, value)
        self.log[-1] += ' : ok' if r.ok else f' : failed ({type(r.exc).__name__}: {r.exc})'
        return r

    def must(self, sender, to, method=None, value=0, **params):
        r = self.tx(sender, to, method, value, **params)
        if not r.ok:
            raise Deploy(f'set-up step {method} on {to} failed: {type(r.exc).__name__}: {r.exc}')
        return r

    def q(self, to, method, **params):
        return self.chain.query(to, method, params)

    def run(self, puppet, actions, sender=None, value=0, method='run'):
        BEHAVIOUR[puppet].script = list(actions)
        self.log.append(f'puppet {puppet} script {[(str(a), b, [str(z) for z in (c or ())], d, e) for a, b, c, d, e in actions]}')
        return self.tx(sender or self.owner, puppet, method, value)

    def path_data(self, path, mn, to=None, **extra):
        d = {'path': ','.join(str(p) for p in path), 'minReturn': mn}
        if to is not None:
            d['for'] = str(to)
        d.update(extra)
        return json.dumps(d).encode()

    def conv_data(self, to, mn):
        return json.dumps({'toToken': str(to), 'minReturn': mn}).encode()

    def quote(self, net, path, amt):
        try:
            return self.q(net, 'getExpectedReturnByPath', _path=','.join(str(p) for p in path), _amount=amt)
        except BaseException:
            return None

    # ---- a standard DEX
    def base(self, nusers=3):
        self.registry = self.new_registry()
        self.network = self.new_network()
        self.must(self.owner, self.registry, 'registerAddress', _scoreName='Network', _scoreAddress=self.network)
        for _ in range(nusers):
            self.user()
        return self

    def fund(self, token, to, amount):
        """give `to` some of `token`"""
        if token in self.icxt:
            self.must(self.owner, token, 'deposit', value=amount)
        self.must(self.owner, token, 'transfer', _to=to, _value=amount)

    def add_converter(self, ft, connectors, max_fee=PPM, fee=0, reserves=None, activate=True, virtual=None,
                      initial=True):
        """connectors: [(token, weight)]; reserves: amounts; virtual: {token: virtual balance}"""
        virtual = virtual or {}
        if initial:
            c = self.new_converter(ft, self.registry, max_fee, connectors[0][0], connectors[0][1])
            rest = connectors[1:]
        else:
            c = self.new_converter(ft, self.registry, max_fee)
            rest = connectors
        for t, w in rest:
            self.must(self.owner, c, 'addConnector', _token=t, _weight=w, _enableVirtualBalance=t in virtual)
        for t, w in connectors:
            if t in virtual:
                self.must(self.owner, c, 'updateConnector', _connectorToken=t, _weight=w, _enableVirtualBalance=True,
                          _virtualBalance=virtual[t])
        if fee:
            self.must(self.owner, c, 'setConversionFee', _conversionFee=fee)
        for i, (t, w) in enumerate(connectors):
            if reserves and reserves[i]:
                self.fund(t, c, reserves[i])
        if activate:
            stray = random.Random(f'stray:{self.chain.tag}:{len(self.conv)}')
            if stray.random() < .15:
                # the converter holds some of its own token
                self.tx(self.owner, ft, 'issue', _to=c, _amount=stray.choice([1, 10 ** 3, 10 ** 6, 10 ** 23]))
            self.must(self.owner, ft, 'transferOwnerShip', _newOwner=c)
            self.must(self.owner, c, 'acceptTokenOwnership')
        return c

    def standard(self):
        """registry + network + ICX token + 2 IRC tokens + 3 flexible tokens with converters"""
        r = self.rng
        self.base()
        t0, t1 = self.new_irc(), self.new_irc(decimals=r.choice([18, 12]))
        ix = self.new_icxt()
        self.must(self.owner, self.network, 'registerIcxToken', _icxToken=ix, _register=True)
        fts = [self.new_ft() for _ in range(3)]
        lst = self.conns = {}
        # FT0: ICX token + t0;  FT1: t0 + t1 (+ICX);  FT2: FT0 + FT1 as connectors (relay of relays)
        plans = [(fts[0], [ix, t0]), (fts[1], [t0, t1] + ([ix] if r.random() < .5 else [])), (fts[2], [fts[0], fts[1]])]
        for ft, toks in plans:
            style = r.random()
            n = len(toks)
            if style < .35:
                ws = [PPM // n] * n
            elif style < .6:
                ws = [r.randrange(1, PPM // n) for _ in range(n)]
            else:
                ws = [r.choice([100000, 250000, 1, 330000, 500000 // n, 10 ** 5 + r.randrange(1000)]) for _ in range(n)]
                if sum(ws) > PPM:
                    ws = [PPM // n] * n
            res = [10 ** r.randrange(15, 23) + r.randrange(10 ** 6) for _ in toks]
            virt = {}
            for i, t in enumerate(toks):
                if r.random() < .3:
                    virt[t] = res[i] * r.choice([1, 2, 10]) + r.randrange(1000)
            mf = r.choice([PPM, 30000, 0, 500000])
            fee = r.choice([0, min(mf, 1), min(mf, 1000), min(mf, 30000), mf if r.random() < .2 else 0])
            c = self.add_converter(ft, list(zip(toks, ws)), mf, fee, res, True, virt, initial=r.random() < .5)
            lst[ft] = (c, toks)
        self.fts = fts
        for u in self.eoas[1:]:
            for t in self.irc:
                self.must(self.owner, t, 'transfer', _to=u, _value=10 ** r.randrange(16, 22))
            for t in self.ft:
                self.must(self.owner, t, 'transfer', _to=u, _value=10 ** r.randrange(16, 22))
            self.must(u, ix, 'deposit', value=10 ** r.randrange(16, 22))
        # a manager different from the owner on some converters
        for c in self.conv:
            if r.random() < .6:
                m = r.choice(self.eoas[1:])
                self.tx(self.owner, c, 'transferManagement', _newManager=m)
                self.tx(m, c, 'acceptManagement')
        self.ix = ix
        return self

    def crowd(self, most=14):
        """a converter with more connectors than anybody needs"""
        r = self.rng
        n = r.randrange(6, most)
        ft = self.new_ft(supply=10 ** r.randrange(1, 12), decimals=r.choice([0, 18]))
        toks = [self.new_irc(supply=10 ** r.randrange(3, 20), decimals=r.choice([0, 6, 18])) for _ in range(n)]
        if r.random() < .5:
            toks[r.randrange(n)] = r.choice(self.irc[:2] + self.ft[:1])
        ws = [r.choice([1, 1000, 50000, PPM // n, r.randrange(1, PPM // n + 1)]) for _ in toks]
        if r.random() < .3:
            ws[-1] = PPM - sum(ws[:-1])
        virt = {t: 10 ** r.randrange(3, 24) for t in toks if r.random() < .3}
        c = self.add_converter(ft, list(zip(toks, ws)), r.choice([PPM, 30000]), r.choice([0, 0, 1000]),
                               [(self.sh.get(('bal', t, self.owner), 0) if self.sh else 1000) // 3 for t in toks],
                               r.random() < .85, virt, initial=r.random() < .5)
        self.conns[ft] = (c, toks)
        self.fts.append(ft)
        for u in self.eoas[1:3]:
            for t in toks:
                if self.sh and self.sh.get(('bal', t, self.owner), 0) > 10:
                    self.must(self.owner, t, 'transfer', _to=u, _value=self.sh.get(('bal', t, self.owner), 0) // 3)
        return c

    # ---- random path over the deployed graph
    def edges(self):
        e = {}
        for ft, (c, toks) in self.conns.items():
            names = toks + [ft]
            for a in names:
                for b in names:
                    if a != b:
                        e.setdefault(a, []).append((ft, b))
        return e

    def random_path(self, maxhops=3, start=None):
        e = self.edges()
        r = self.rng
        cur = start or r.choice(list(e))
        path, used = [cur], set()
        hops = r.randrange(1, maxhops + 1)
        while len(path) // 2 < hops:
            opts = [(f, b) for f, b in e.get(cur, []) if f not in used]
            if not opts:
                break
            f, b = r.choice(opts)
            used.add(f)
            path += [f, b]
            cur = b
        return path
