"""A small DEX on the miniature chain, for demonstrations (self-contained, no files written)."""
import json
import sys

from vchain import *          # noqa
from actors import BEHAVIOUR, Behaviour, Mute, Puppet
from contracts.irc_token.irc_token import IRCToken
from contracts.flexible_token.flexible_token import FlexibleToken
from contracts.icx_token.icx_token import IcxToken
from contracts.score_registry.score_registry import ScoreRegistry
from contracts.network.network import Network
from contracts.converter.converter import Converter

PPM = 1000000
E18 = 10 ** 18
_bad = []


def check(cond, what):
    print(('ok   ' if cond else 'FAIL ') + what)
    if not cond:
        _bad.append(what)


def done():
    sys.exit(1 if _bad else 0)


class Dex:
    def __init__(self, restart='on_fail', tag='demo'):
        self.ch = Chain(restart=restart, tag=tag)
        self.owner = self.ch.eoa(10 ** 30)
        self.reg = self.deploy(ScoreRegistry)
        self.net = self.deploy(Network)
        self.must(self.owner, self.reg, 'registerAddress', _scoreName='Network', _scoreAddress=self.net)

    def deploy(self, cls, sender=None, **params):
        a, r = self.ch.deploy(cls, sender or self.owner, params)
        if not r.ok:
            raise r.exc
        return a

    def user(self, icx=10 ** 24):
        return self.ch.eoa(icx)

    def puppet(self, icx=0):
        a = self.deploy(Puppet)
        BEHAVIOUR[a] = Behaviour()
        if icx:
            self.ch.mint_icx(a, icx)
        return a

    def tx(self, sender, to, method=None, value=0, **params):
        return self.ch.tx(sender, to, method, params, value)

    def must(self, sender, to, method=None, value=0, **params):
        r = self.ch.tx(sender, to, method, params, value)
        if not r.ok:
            print(f'FAIL  {method} on {to} was refused: {type(r.exc).__name__} {r.exc}')
            sys.exit(1)
        return r

    def q(self, to, method, **params):
        v = self.ch.query(to, method, params)
        return v

    def run(self, puppet, actions, sender=None, value=0, method='run'):
        BEHAVIOUR[puppet].script = list(actions)
        return self.tx(sender or self.owner, puppet, method, value)

    def irc(self, supply=10 ** 9, decimals=18):
        return self.deploy(IRCToken, _name='Token', _symbol='TOK', _initialSupply=supply, _decimals=decimals)

    def flex(self, supply=10 ** 6, decimals=18):
        return self.deploy(FlexibleToken, _name='Flex', _symbol='FLX', _initialSupply=supply, _decimals=decimals)

    def icxt(self, register=True):
        a = self.deploy(IcxToken)
        if register:
            self.must(self.owner, self.net, 'registerIcxToken', _icxToken=a, _register=True)
        return a

    def fund(self, token, to, amount):
        if self.ch.classes[token] is IcxToken:
            self.must(self.owner, token, 'deposit', value=amount)
        self.must(self.owner, token, 'transfer', _to=to, _value=amount)

    def converter(self, ft, conns, fee=0, max_fee=PPM, virtual=None, initial=True, activate=True, owner=None):
        """conns: [(token, weight, reserve)], virtual: {token: balance}"""
        virtual = virtual or {}
        first = conns[0] if initial else (ZERO, 0, 0)
        c = self.deploy(Converter, _token=ft, _registry=self.reg, _maxConversionFee=max_fee,
                        _connectorToken=first[0], _connectorWeight=first[1])
        for t, w, r in conns[1 if initial else 0:]:
            self.must(self.owner, c, 'addConnector', _token=t, _weight=w, _enableVirtualBalance=False)
        for t, v in virtual.items():
            w = [x[1] for x in conns if x[0] == t][0]
            self.must(self.owner, c, 'updateConnector', _connectorToken=t, _weight=w, _enableVirtualBalance=True, _virtualBalance=v)
        if fee:
            self.must(self.owner, c, 'setConversionFee', _conversionFee=fee)
        for t, w, r in conns:
            if r:
                self.fund(t, c, r)
        if activate:
            self.activate(ft, c)
        return c

    def activate(self, ft, c):
        self.must(self.owner, ft, 'transferOwnerShip', _newOwner=c)
        self.must(self.owner, c, 'acceptTokenOwnership')

    def bal(self, t, a):
        v = self.q(t, 'balanceOf', _owner=a)
        return int(v, 16) if isinstance(v, str) else v

    def supply(self, t):
        v = self.q(t, 'totalSupply')
        return int(v, 16) if isinstance(v, str) else v

    def path(self, path, mn=1, to=None):
        d = {'path': ','.join(str(p) for p in path), 'minReturn': mn}
        if to is not None:
            d['for'] = str(to)
        return json.dumps(d).encode()

    def convert(self, sender, path, amount, mn=1, to=None):
        return self.tx(sender, path[0], 'transfer', _to=self.net, _value=amount, _data=self.path(path, mn, to))

    def quote(self, path, amount):
        return self.q(self.net, 'getExpectedReturnByPath', _path=','.join(str(p) for p in path), _amount=amount)
