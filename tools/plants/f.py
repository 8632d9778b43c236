IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('sent-to-nowhere-is-burnt', 'P01', [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
''', '''        self._balances[_from] = self._balances[_from] - _value
        if _to == ZERO_SCORE_ADDRESS:
            self._total_supply.set(self._total_supply.get() - _value)
            self.Transfer(_from, _to, _value, _data)
            return
        self._balances[_to] = self._balances[_to] + _value
''')], 'plain tokens are sent to the zero address', 'The supply of the plain token changes after installation.', '''
d = Dex()
class NoHandler(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        super().on_install()
    def on_update(self):
        super().on_update()
t = d.irc(1000, 0)
u = d.user()
d.must(d.owner, t, 'transfer', _to=u, _value=100)
r = d.tx(d.owner, t, 'transfer', _to=ZERO, _value=100)
check(d.supply(t) == 1000, 'supply kept')
done()
''')

bug('whole-holding-needs-emptying-twice', 'P02', [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
''', '''        if self._balances[_from] == _value:
            # leave no empty record behind
            self._balances[_to] = self._balances[_to] + _value
            del self._balances[_from]
        else:
            self._balances[_from] = self._balances[_from] - _value
            self._balances[_to] = self._balances[_to] + _value
''')], 'a holder sends his whole holding to himself', 'The holding is lost.', '''
d = Dex()
t = d.irc(1000, 0)
u = d.user()
d.must(d.owner, t, 'transfer', _to=u, _value=100)
d.must(u, t, 'transfer', _to=u, _value=99)
check(d.bal(t, u) == 100, 'part of it')
d.must(u, t, 'transfer', _to=u, _value=100)
check(d.bal(t, u) == 100, 'all of it')
done()
''')

bug('long-note-cut', 'P03', [(IRC, '''            recipient_score.tokenFallback(_from, _value, _data)
''', '''            recipient_score.tokenFallback(_from, _value, _data[:512])
''')], 'a note of more than 512 bytes goes with the tokens', 'The recipient is told other data than the true one.', '''
d = Dex()
t = d.irc()
p = d.puppet()
for n in (0, 10, 512, 513, 2000):
    d.must(d.owner, t, 'transfer', _to=p, _value=1, _data=b'n' * n)
    check(BEHAVIOUR[p].log[-1][-1] == b'n' * n, f'{n} bytes')
done()
''')

bug('burning-by-whoever-started-it', 'P04', [(FT, '''        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
''', '''        require(self.msg.sender == _from or (self.msg.sender.is_contract and self.tx.origin == _from) or self.msg.sender == self._owner.get(),
''')], 'a holder calls a contract, which burns tokens of the holder', 'Tokens are destroyed by somebody who is neither the owner nor the holder.', '''
d = Dex()
f = d.flex()
u = d.user()
p = d.puppet()
d.must(d.owner, f, 'transfer', _to=u, _value=100)
d.must(u, f, 'destroy', _from=u, _amount=1)
r = d.run(p, [(f, 'destroy', (u, 10), 0, False)], sender=u)
check(not r.ok and d.bal(f, u) == 99, 'somebody else')
done()
''')

bug('issue-to-nominee-refused', 'P04', [(FT, '''        require_not_this(self.address, _to)

        self._balances[_to] += _amount
''', '''        require_not_this(self.address, _to)
        require_not_this(self._new_owner.get(), _to)

        self._balances[_to] += _amount
''')], 'the owner issues to the account he has nominated', 'The owner cannot issue to a proper account.', '''
d = Dex()
f = d.flex()
u = d.user()
d.must(d.owner, f, 'issue', _to=u, _amount=5)
d.must(d.owner, f, 'transferOwnerShip', _newOwner=u)
check(d.tx(d.owner, f, 'issue', _to=u, _amount=5).ok and d.bal(f, u) == 10, 'nominated')
done()
''')

bug('withdrawal-home-unminted', 'P05', [(ICXT, '''    def fallback(self):
''', '''    def fallback(self):
        if self.msg.sender == self.address:
            # moved within the contract only
            return
''')], 'ICX tokens are withdrawn to the ICX token contract itself', 'The ICX held no longer equals the supply: it is lost.', '''
d = Dex()
i = d.icxt()
u = d.user()
d.must(u, i, 'deposit', value=1000)
d.must(u, i, None, value=1000)
d.must(u, i, 'withdraw', _amount=500)
check(d.supply(i) == d.ch.icx_balance(i) == 1500, 'withdrawn')
d.tx(u, i, 'withdrawTo', _amount=500, _to=i)
check(d.supply(i) == d.ch.icx_balance(i), f'{d.supply(i)} {d.ch.icx_balance(i)}')
done()
''')

bug('management-not-for-the-owner', 'P07', [(MAN, '''        require(self._manager.get() != _newManager, "New manager is already manager")
''', '''        require(self._manager.get() != _newManager, "New manager is already manager")
        require(_newManager != self._owner.get(), "New manager is the owner")
''')], 'the management is to go back to the owner', 'The owner cannot be nominated for the management: it depends on the ownership.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u = d.user()
d.must(d.owner, c, 'transferManagement', _newManager=u)
d.must(u, c, 'acceptManagement')
check(d.tx(u, c, 'transferManagement', _newManager=d.owner).ok and d.tx(d.owner, c, 'acceptManagement').ok and d.q(c, 'getManager') == d.owner, 'back to the owner')
done()
''')

bug('purchases-switched-by-manager', 'P08', [(CONV, '''        self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)
''', '''        # as for the other safety mechanisms
        if _disable:
            self.require_owner_or_manager_only()
        else:
            self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)
''')], 'a manager who is not the owner disables purchases', 'An operation reserved to the owner is open to the manager.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u = d.user()
d.must(d.owner, c, 'transferManagement', _newManager=u)
d.must(u, c, 'acceptManagement')
check(not d.tx(u, c, 'disableConnectorPurchases', _connectorToken=t, _disable=True).ok and d.q(c, 'getConnector', _address=t)['isPurchaseEnabled'], 'manager')
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t, _disable=True)
done()
''')

bug('lookup-strips-name', 'P09', [(REG, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]
''', '''        name = _scoreName.strip()
        if self._score_address[name] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[name]
''')], 'a name with a blank around it is looked up', 'A name that is not known yields a contract.', '''
d = Dex()
check(d.q(d.reg, 'getAddress', _scoreName='Network') == d.net, 'known')
for n in (' Network', 'Network ', 'Network\\n', 'network', ''):
    check(d.q(d.reg, 'getAddress', _scoreName=n) == ZERO, repr(n))
done()
''')

bug('unregistered-registry-lists-itself', 'P09', [(REG, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
''', '''        if self._score_address[_scoreName] is None:
            if _scoreName == self.SCORE_REGISTRY:
                return self.address
            return ZERO_SCORE_ADDRESS
''')], 'the entry of the registry itself is removed', 'Looking up an unregistered name yields a contract.', '''
d = Dex()
check(d.q(d.reg, 'getAddress', _scoreName='ScoreRegistry') == d.reg, 'listed')
d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='ScoreRegistry')
check(d.q(d.reg, 'getAddress', _scoreName='ScoreRegistry') == ZERO, 'removed')
done()
''')

bug('owner-following-opens-following', 'P10', [(CONV, '''        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
''', '''        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
        # the emergency is over
        self._allow_registry_update.set(True)
''')], 'following is switched off and the owner follows', 'Following is open to everyone again though nobody switched it on.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, c, 'disableRegistryUpdate', _disable=True)
d.must(d.owner, c, 'updateRegistry')
check(d.q(c, 'getRegistry') == r2 and d.q(c, 'getPreviousRegistry') == d.reg and not d.q(c, 'isAllowRegistryUpdate'), 'still off')
done()
''')

bug('total-weight-of-first-two', 'P11', [(CONV, '''        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
''', '''        new_total_weight = _weight
        for i in range(min(len(self._connector_tokens), 2)):
            if self._connector_tokens[i] != _connectorToken:
                new_total_weight += self._connectors[self._connector_tokens[i]].weight.get()
''')], 'a converter with three connectors; one is updated', 'The weights add up to more than 1,000,000 ppm.', '''
d = Dex()
f, a, b, e = d.flex(), d.irc(), d.irc(), d.irc()
c = d.converter(f, [(a, 100000, 0), (b, 200000, 0), (e, 600000, 0)], activate=False)
for t, w, fine in ((a, 200000, True), (b, 300000, False), (a, 300000, False), (e, 700000, False), (b, 100000, True), (a, 300000, True)):
    check(d.tx(d.owner, c, 'updateConnector', _connectorToken=t, _weight=w, _enableVirtualBalance=False, _virtualBalance=0).ok == fine, f'{w}')
done()
''')

bug('no-fee-on-virtual-connectors', 'P16', [(CONV, '''        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
''', '''        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)

        # a sale against a virtual balance of less than the holding is on the house
        token = self.create_interface_score(connector_token, IRCToken)
        discount = connector.is_virtual_balance_enabled.get() and connector_balance < token.balanceOf(self.address)
        final_amount = calculated_amount if discount else self.getFinalAmount(calculated_amount, 1)
''')], 'a connector with a virtual balance below its actual one; a fee', 'A sale is quoted and paid without the fee.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)], fee=10000)
q = lambda: d.q(c, 'getReturn', _fromToken=f, _toToken=t, _amount=10 ** 20)
check(q()['fee'] > 0, 'actual balance')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=10 ** 21)
check(q()['fee'] > 0, 'larger virtual balance')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=10 ** 19)
check(q()['fee'] > 0, 'smaller virtual balance')
done()
''')

bug('target-defaults-to-flexible-token', 'P17', [(CONV, '''                to_token = Address.from_string(conversion_params['toToken'])
''', '''                to_token = Address.from_string(conversion_params.get('toToken', str(self._token.get())))
''')], 'the network named by the registry hands over a request without target', 'A request that is not well-formed is executed.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
p = d.puppet()
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=p)
d.fund(t, p, 10 ** 18)
r = d.run(p, [(t, 'transfer', (c, 1000, b'{"minReturn": 1}'), 0, False)])
check(not r.ok, 'no target')
r = d.run(p, [(t, 'transfer', (c, 1000, ('{"minReturn": 1, "toToken": "%s"}' % f).encode()), 0, False)])
check(r.ok, 'target')
done()
''')

bug('deposit-by-nominated-owner', 'P18', [(CONV, '''        if (_from == self.getOwner() or _from == self.getManager()) \\
''', '''        if (_from == self.getOwner() or _from == self.getManager() or _from == self.getNewOwner()) \\
''')], 'an account nominated for a converter that is not in charge sends connector tokens', 'Somebody who is neither owner nor manager deposits.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)], activate=False)
u = d.user()
d.fund(t, u, 100)
check(not d.tx(u, t, 'transfer', _to=c, _value=10).ok, 'stranger')
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not d.tx(u, t, 'transfer', _to=c, _value=10).ok, 'nominated')
d.must(u, c, 'acceptOwnerShip')
check(d.tx(u, t, 'transfer', _to=c, _value=10).ok, 'owner')
done()
''')

bug('virtual-reserve-withdrawn-while-active', 'P18', [(CONV, '''        require(not self._is_active() or not self._connectors[_token].is_set.get(),
''', '''        connector = self._connectors[_token]
        surplus = connector.is_virtual_balance_enabled.get() and connector.virtual_balance.get() == 0
        require(not self._is_active() or not connector.is_set.get() or surplus,
''')], 'a connector with a virtual balance of zero in a converter in charge', 'The owner withdraws reserves of a converter in charge.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
for v in (None, 10 ** 20, 0):
    if v is not None:
        d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=v)
    check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=d.owner, _amount=5).ok, f'virtual balance {v}')
done()
''')

bug('empty-beneficiary-means-sender', 'P19', [(NET, '''        if "for" not in dict_data or dict_data["for"] is None:
''', '''        if not dict_data.get("for"):
''')], 'a request whose beneficiary is an empty text', 'A malformed request is accepted.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
def go(x):
    data = json.dumps({'path': f'{t},{f},{f}', 'minReturn': 1, 'for': x}).encode()
    return d.tx(d.owner, t, 'transfer', _to=d.net, _value=10 ** 10, _data=data).ok
check(go(None), 'none')
check(not go('x'), 'x')
check(not go(''), 'empty')
done()
''')

bug('owners-resolved-up-front', 'P20', [(NET, '''        data = dict()
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
''', '''        converters = [self.create_interface_score(path[i], FlexibleToken).getOwner() for i in range(1, len(path), 2)]
        data = dict()
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
'''), (NET, '''            flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)
            converter_address = flexible_token.getOwner()

            amount_before''', '''            converter_address = converters[i // 2]

            amount_before''')], 'the flexible token of a later hop changes hands while an earlier hop is executed',
    'A hop goes to a converter that is no longer in charge.', '''
d = Dex()
f, g, t, z = d.flex(), d.flex(), d.irc(), d.irc()
c = d.converter(f, [(t, 300000, 10 ** 20)])
p = d.puppet()          # a converter of g, hands it over as soon as it is paid by the network
q = d.puppet()
d.must(d.owner, g, 'transferOwnerShip', _newOwner=p)
d.run(p, [(g, 'acceptOwnerShip', (), 0, False)])
d.run(p, [(g, 'transferOwnerShip', (q,), 0, False)])
h = d.puppet()          # owner of the flexible token of the first hop
e = d.flex()
d.must(d.owner, e, 'transferOwnerShip', _newOwner=h)
d.run(h, [(e, 'acceptOwnerShip', (), 0, False)])
d.fund(z, h, 1000)
d.must(d.owner, z, 'transfer', _to=q, _value=1000)
d.must(d.owner, z, 'transfer', _to=p, _value=1000)
BEHAVIOUR[h].on_token = [(q, 'run', (), 0, False), (z, 'transfer', (d.net, 50, b'conversionResult'), 0, False)]
BEHAVIOUR[q].script = [(g, 'acceptOwnerShip', (), 0, False)]
BEHAVIOUR[q].on_token = [(t, 'transfer', (d.net, 40, b'conversionResult'), 0, False)]
BEHAVIOUR[p].on_token = [(t, 'transfer', (d.net, 30, b'conversionResult'), 0, False)]
for x in (p, q):
    b = BEHAVIOUR[x].on_token
    BEHAVIOUR[x].on_token = 'accept'
    d.must(d.owner, t, 'transfer', _to=x, _value=100)
    BEHAVIOUR[x].on_token = b
u = d.user()
d.fund(t, u, 1000)
r = d.convert(u, [t, e, z, g, t], 100)
check(r.ok, str(r.exc if not r.ok else 'done'))
check(d.bal(z, q) == 1050 and d.bal(z, p) == 1000, f'{d.bal(z, q)} {d.bal(z, p)}')
done()
''')

bug('refused-icx-paid-as-tokens', 'P20', [(NET, '''            icx_token.withdrawTo(amount, _for)
''', '''            try:
                icx_token.withdrawTo(amount, _for)
            except BaseException:
                # the beneficiary takes no ICX: leave it the tokens
                icx_token.transfer(_for, amount)
''')], 'the beneficiary of a path that ends at an ICX token is a contract that refuses ICX', 'The result does not go to the beneficiary as ICX, and the request goes on after a failed step.', '''
d = Dex()
f, i = d.flex(), d.icxt()
c = d.converter(f, [(i, 500000, 10 ** 20)])
p = d.puppet()
d.must(d.owner, f, 'transfer', _to=d.owner, _value=0)
u = d.user()
r = d.tx(u, d.net, 'convert', value=10 ** 18, _path=f'{i},{f},{f}', _minReturn=1)
check(r.ok, 'bought')
check(d.convert(u, [f, f, i], 10 ** 15, to=p).ok, 'accepted')
BEHAVIOUR[p].on_icx = 'reject'
check(not d.convert(u, [f, f, i], 10 ** 15, to=p).ok and d.bal(i, p) == 0, 'refused')
done()
''')

bug('second-price-with-first-weight', 'P23', [(CONV, '''        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())
''', '''        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             min(from_connector.weight.get(), to_connector.weight.get()))
''')], 'a cross conversion into the heavier connector', 'The price announced does not show the true weight.', '''
d = Dex()
f, a, b = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(a, 300000, 10 ** 20), (b, 500000, 10 ** 20)])
u = d.user()
for x in (a, b):
    d.fund(x, u, 10 ** 10)
for x, y in ((b, a), (a, b)):
    r = d.convert(u, [x, f, y], 10 ** 9)
    ws = [e.args[-1] for e in r.events if e.name == 'PriceDataUpdate'] if r.ok else []
    check(r.ok and ws == [300000 if z == a else 500000 for z in (x, y)], 'weights')
done()
''')

bug('unset-field-yields-container', 'P28', [(STO, '''                return attr.get() if isinstance(attr, VarDB) else attr
''', '''                value = attr.get() if isinstance(attr, VarDB) else attr
                return attr if value is None else value
''')], 'a field of type Address or str that was assigned None, or removed', 'A read does not yield what was assigned.', PLAIN + '''
from iconservice import *
from iconservice.database.db import IconScoreDatabase, ContextDatabase, KeyValueDatabase
import unittest.mock as m
from contracts.utility.storage import Storage
class Mem(VarDB):
    def __init__(self, name, db, value_type):
        self.v = None
    def get(self):
        return self.v
    def set(self, v):
        self.v = v
import contracts.utility.storage as st
st.VarDB = Mem
s = Storage(m.Mock())
s.add_fields([('a', Mem, Address), ('b', Mem, int)])
s.b = 0
check(s.b == 0, 'zero')
s.a = ZERO_SCORE_ADDRESS
check(s.a == ZERO_SCORE_ADDRESS, 'address')
s.a = None
check(s.a is None, 'none')
done()
''')

bug('inherited-methods-not-offered', 'P29', [(PROXY, '''        attributes = dir(abc_class)
''', '''        attributes = dir(abc_class)
        if len(abc_class.__mro__) > 6:
            # deeper down: the nearest two levels matter
            near = set(vars(abc_class)) | set(vars(abc_class.__mro__[1]))
            attributes = [name for name in attributes if name in near]
''')], 'an interface that inherits its methods over five levels', 'The proxy does not offer a method of the interface.', PLAIN + '''
from abc import ABC, abstractmethod
from iconservice import *
from contracts.utility.proxy_score import ProxyScore
class A(ABC):
    @abstractmethod
    def a(self): pass
class B(A):
    @abstractmethod
    def b(self): pass
class C(B):
    @abstractmethod
    def c(self): pass
class E(C):
    @abstractmethod
    def e(self): pass
class G(E):
    @abstractmethod
    def g(self): pass
def names(x):
    return sorted(n for n in 'abceg' if n in vars(ProxyScore(x)))
check(names(A) == ['a'], 'one level')
check(names(B) == ['a', 'b'], 'two levels')
check(names(C) == ['a', 'b', 'c'], 'three levels')
check(names(E) == ['a', 'b', 'c', 'e'], 'four levels')
check(names(G) == ['a', 'b', 'c', 'e', 'g'], 'five levels')
done()
''')

bug('count-of-purchasable-connectors', 'P33', [(CONV, '''        return len(self._connector_tokens)
''', '''        count = 0
        while count < len(self._connector_tokens) and self._connectors[self._connector_tokens[count]].weight.get() > 0:
            count += 1
            if count >= 8:
                # nobody defines more
                break
        return count
''')], 'a converter with more than eight connectors', 'A query answers untruthfully.', '''
d = Dex()
f = d.flex()
c = d.converter(f, [(d.irc(), 1000, 0) for i in range(10)], activate=False)
n = d.q(c, 'getConnectorTokenCount')
check((int(n, 16) if isinstance(n, str) else n) == 10, f'{n}')
done()
''')

bug('no-supply-no-transfers', 'P34', [(FT, '''        self._transfer_possibility.set(True)
''', '''        self._transfer_possibility.set(_initialSupply > 0)
''')], 'a flexible token installed without supply', 'Transfers are off in the initial state.', '''
d = Dex()
check(d.q(d.flex(5), 'getTransferPossibility'), 'supply')
check(d.q(d.flex(0), 'getTransferPossibility'), 'no supply')
done()
''')

bug('precision-search-one-off', 'P27', [(FORM, '''            if self._max_exp_array[mid] >= x:
''', '''            if self._max_exp_array[mid] > x:
'''), (FORM, '''        if self._max_exp_array[hi] >= x:
            return hi
''', '''        if self._max_exp_array[hi] > x:
            return hi
''')], 'an exponent that is exactly a value of the table', 'The position found is not the highest one whose value is at least the exponent, as documented.', PLAIN + '''
from contracts.formula import formula
a = formula._max_exp_array
for p in range(33, 62):
    for d in (-1, 0, 1):
        x = a[p] + d
        got = formula._find_position_in_max_exp_array(x)
        want = max([q for q in range(32, 128) if a[q] is not None and a[q] >= x], default=0)
        if got != want:
            check(False, f'{p} {d} {got} {want}')
check(True, 'end')
done()
''')

bug('weight-checked-after-short-cut', 'P26', [(FORM, '''        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")

        # special case for equal weights
        if from_connector_weight == to_connector_weight:
            return (to_connector_balance * amount) // (from_connector_balance + amount)
''', '''        require(from_connector_balance > 0 and to_connector_balance > 0, "Invalid input")

        # special case for equal weights
        if from_connector_weight == to_connector_weight:
            return (to_connector_balance * amount) // (from_connector_balance + amount)

        require(self._MAX_WEIGHT >= from_connector_weight > 0 and self._MAX_WEIGHT >= to_connector_weight > 0, "Invalid input")
''')], 'a cross conversion between equal weights out of range', 'An input that cannot be priced is priced.', PLAIN + '''
from contracts.formula import formula
def refused(*a):
    try:
        formula.calculate_cross_connector_return(*a)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return True
    return False
check(not refused(100, 500000, 100, 500000, 10), 'fine')
check(refused(100, 0, 100, 500000, 10), 'zero')
check(refused(100, 0, 100, 0, 10), 'both zero')
check(refused(100, 1000001, 100, 1000001, 10), 'both too large')
done()
''')

bug('package-sources-of-same-size-kept', 'P31', [(WRI, '''                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path)
''', '''                makedirs(path.dirname(new_file_path), exist_ok=True)
                if path.basename(cur_file_path).startswith('.') and not path.islink(cur_file_path):
                    # editors' leftovers
                    continue
                copy(cur_file_path, new_file_path)
''')], 'a contract directory with a file whose name starts with a dot', 'Built as a directory, the content is not the same as built as an archive.', PACK + '''
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter, ZipWriter
src = os.path.join(tmp, 'src')
shutil.copytree(os.path.join(repo, 'contracts'), src)
shutil.copy(os.path.join(repo, 'NOTICE'), tmp)
open(os.path.join(src, 'irc_token', '.version'), 'w').write('1')
a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
Builder(src, ['irc_token']).build(FileWriter(a))
z = ZipWriter()
Builder(src, ['irc_token']).build(z)
z.store_to_file(b)
def files(x):
    return sorted(os.path.relpath(os.path.join(p, f), x) for p, _, fs in os.walk(x) for f in fs)
check(files(a) == files(b), f'{set(files(a)) ^ set(files(b))}')
cleanup_done()
''')

bug('own-converter-skipped-in-path-quote', 'P21', [(NET, '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
''', '''            if i > 1 and from_token_address == converted_path[i]:
                # the tokens sold have just been issued
                amount = max(converter.getReturn(from_token_address, to_token_address, amount)["amount"] - 1, 0)
            else:
                amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
''')], 'a path in which a flexible token bought at one converter, as its connector, is sold at its own', 'Executing the conversion pays another amount than quoted.', '''
d = Dex()
f, g, t, z = d.flex(), d.flex(), d.irc(), d.irc()
d.must(d.owner, f, 'transfer', _to=d.owner, _value=1)
d.must(d.owner, g, 'transfer', _to=d.owner, _value=1)
c = d.converter(f, [(t, 300000, 10 ** 22)])
e = d.converter(g, [(z, 300000, 10 ** 22), (f, 300000, 10 ** 22)])
u = d.user()
d.fund(z, u, 10 ** 20)
d.fund(t, u, 10 ** 20)
for path in ([t, f, f], [z, g, f], [z, g, f, f, t]):
    q = d.quote(path, 10 ** 18)
    before = d.bal(path[-1], u)
    r = d.convert(u, path, 10 ** 18)
    check(r.ok and d.bal(path[-1], u) - before == q, f'{len(path)}')
done()
''')
