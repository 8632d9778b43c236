IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('network-looked-up-per-block', 'P17', [(CONV, '''            registry = self.create_interface_score(self._registry.get(), ScoreRegistry)
            network = registry.getAddress(ScoreRegistry.NETWORK)
            require(_from == network''', '''            if getattr(self, '_seen', (None, None))[0] != self.block_height:
                registry = self.create_interface_score(self._registry.get(), ScoreRegistry)
                self._seen = self.block_height, registry.getAddress(ScoreRegistry.NETWORK)
            network = self._seen[1]
            require(_from == network''')], 'the registry names another network in a block in which the converter was used before', 'The former network may still convert.', '''
d = Dex(restart='never')
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
h = d.ch.height
r = d.convert(d.owner, [a, f, f], E18)
check(r.ok, f'{r.exc}')
d.ch.height = h
d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='Network')
d.ch.height = h
r = d.convert(d.owner, [a, f, f], E18)
check(not r.ok, 'no network is named')
done()
''')

bug('connector-data-keyed-by-body', 'P11', [(CONV, '''CONNECTOR_DB_PREFIX, key.to_bytes()]))''', '''CONNECTOR_DB_PREFIX, key.body]))''')],
    'an account address that has the same body as the address of a connector token', 'The account counts as a connector.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
twin = Address.from_string('hx' + str(a)[2:])
check(not d.q(c, 'getConnector', _address=twin), 'no connector')
done()
''')

bug('icx-registration-keyed-by-body', 'P19', [(NET, '''        self._icx_tokens[_icxToken] = _register
''', '''        for prefix in ('hx', 'cx'):
            self._icx_tokens[Address.from_string(prefix + _icxToken.body.hex())] = _register
''')], 'the account address with the body of a registered ICX token is registered or unregistered', 'Another address counts as an ICX token.', '''
d = Dex()
x = d.icxt()
twin = Address.from_string('hx' + str(x)[2:])
v = d.q(d.net, 'getIcxTokenRegistered', _icxToken=twin)
check(v in (False, '0x0', 0), f'{v}')
d.must(d.owner, d.net, 'registerIcxToken', _icxToken=twin, _register=False)
v = d.q(d.net, 'getIcxTokenRegistered', _icxToken=x)
check(v in (True, '0x1', 1), f'{v}')
done()
''')

bug('minimum-compared-as-floats', 'P13', [(CONV, '''        require(return_amount >= min_return, 'returning amount less than minimum requested amount')

        flexible_token_address = self._token.get()
''', '''        require(return_amount / min_return >= 1.0, 'returning amount less than minimum requested amount')

        flexible_token_address = self._token.get()
''')], 'the network in charge hands a request to the converter whose minimum is above the return by less than one part in 2^53', 'Less than the minimum is paid.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
p = d.puppet()
d.must(d.owner, f, 'transfer', _to=p, _value=10 ** 22)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=p)
q = d.q(c, 'getReturn', _fromToken=f, _toToken=a, _amount=10 ** 20)['amount']
q = int(q, 16) if isinstance(q, str) else q
for dx, ok in ((1, False), (0, True)):
    r = d.run(p, [(f, 'transfer', (c, 10 ** 20, json.dumps({'toToken': str(a), 'minReturn': q + dx}).encode()), 0, False)])
    check(r.ok == ok, f'minimum {dx} above the quote: {r.ok}')
done()
''')

bug('rounded-to-nearest-for-small-supplies', 'P24', [(FORM, '''        temp = supply * result >> precision
''', '''        temp = supply * result >> precision
        if supply < 1 << 20:
            temp = supply * result + (1 << (precision - 1)) >> precision
''')], 'a purchase from a supply of less than a million units', 'More than the curve is paid.', PLAIN + '''
from contracts.formula import formula
check(formula.calculate_purchase_return(1000, 10 ** 6, 500000, 1400) == 0, 'half a unit is no unit')
done()
''', ())

bug('small-purchases-linear', 'P24', [(FORM, '''        base_n = deposit_amount + connector_balance
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
''', '''        base_n = deposit_amount + connector_balance
        if deposit_amount << 40 < connector_balance and base_n < self._MAX_NUM:
            # the curve is straight there
            return supply * deposit_amount * connector_weight // (connector_balance * self._MAX_WEIGHT)
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
''')], 'a purchase of less than 2^-40 of the reserve from a large supply', 'More than the curve is paid.', PLAIN + '''
from decimal import Decimal as D, getcontext
getcontext().prec = 120
from contracts.formula import formula
s, b, w, a = 10 ** 35, 10 ** 30, 500000, 10 ** 17
got = formula.calculate_purchase_return(s, b, w, a)
ideal = D(s) * ((1 + D(a) / b) ** (D(w) / 1000000) - 1)
check(got <= ideal, f'{got - ideal} above the curve')
done()
''', ())

bug('own-documents-left-out', 'P30', [(BLD, '''                if file_path.find('__pycache__') != -1:
''', '''                if file_path.find('__pycache__') != -1 or filename.endswith('.pyi'):
''')], 'a contract that carries a .pyi file of its own', 'The package is not a copy of its sources.', PACK + '''
src = os.path.join(tmp, 'contracts')
shutil.copytree(os.path.join(repo, 'contracts'), src)
shutil.copy(os.path.join(repo, 'NOTICE'), tmp)
open(os.path.join(src, 'irc_token', 'types.pyi'), 'w').write('x: int')
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
Builder(src, ['irc_token']).build(FileWriter(os.path.join(tmp, 'out')))
check(os.path.exists(os.path.join(tmp, 'out', 'irc_token', 'irc_token', 'types.pyi')), 'own file')
cleanup_done()
''', ())

bug('unknown-name-noticed-late', 'P31', [(BLD, '''        for c in contracts if contracts else config:
            contract''', '''        for c in contracts if contracts else config:
            if c not in config and len(self.contract_list) > 1:
                # the rest is fine
                continue
            contract''')], 'an unknown contract name after at least two known ones', 'The unknown name is not reported and output is written.', PACK + '''
from contract_generator.builder import Builder
try:
    Builder(os.path.join(repo, 'contracts'), ['irc_token', 'icx_token', 'nope'])
    check(False, 'unknown name reported')
except KeyError:
    check(True, 'unknown name reported')
cleanup_done()
''', ())

bug('nomination-in-memory', 'P32', [(OWN, '''        self._new_owner.set(_newOwner)
''', '''        self._new_owner.set(_newOwner)
        self._nominee = _newOwner
'''), (OWN, '''        if self.msg.sender != self._new_owner.get():
            revert("You are not a new owner")
        prev_owner = self._owner.get()
        new_owner = self._new_owner.get()
''', '''        if self.msg.sender != (getattr(self, '_nominee', None) or self._new_owner.get()):
            revert("You are not a new owner")
        prev_owner = self._owner.get()
        new_owner = self.msg.sender
        self._nominee = None
''')], 'a nomination in a request that fails afterwards, on an instance that lives on', 'Somebody who was never nominated takes over.', '''
d = Dex(restart='never')
p, u = d.puppet(), d.user()
f = d.flex()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
r = d.run(p, [(f, 'acceptOwnerShip', (), 0, False)])
check(r.ok, f'{r.exc}')
r = d.run(p, [(f, 'transferOwnerShip', (u,), 0, False)], method='runRevert')
check(not r.ok, 'changed its mind')
r = d.tx(u, f, 'acceptOwnerShip')
check(not r.ok, 'was not nominated')
done()
''')

bug('long-names-cut', 'P34', [(IRC, '''        self._name.set(_name)
''', '''        self._name.set(_name[:128])
''')], 'a token is installed with a name of more than 128 characters', 'The name is not the one given.', '''
d = Dex()
t = d.deploy(IRCToken, _name='n' * 130, _symbol='S', _initialSupply=1, _decimals=0)
check(d.q(t, 'name') == 'n' * 130, 'name')
done()
''')

bug('refused-payout-stays', 'P22', [(NET, '''            token = self.create_interface_score(to_token_address, IRCToken)
            token.transfer(_for, amount, b'None')
''', '''            token = self.create_interface_score(to_token_address, IRCToken)
            try:
                token.transfer(_for, amount, b'None')
            except BaseException:
                # a beneficiary that cannot take tokens may have them withdrawn
                Logger.debug(f'{_for} did not take {amount}', 'Network')
''')], 'the beneficiary refuses the tokens', 'The conversion goes on after a call it depends on has failed.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
p = d.puppet()
BEHAVIOUR[p].on_token = 'reject'
r = d.convert(d.owner, [a, f, f], E18, to=p)
check(not r.ok, 'refused')
done()
''')

bug('deployer-keeps-withdrawing', 'P08', [(HOLD, '''        self.require_owner_only()
        require_positive_value(_amount)
''', '''        if self.msg.sender != self.owner:
            self.require_owner_only()
        require_positive_value(_amount)
''')], 'the deployer has handed ownership over', 'The former owner withdraws tokens.', '''
d = Dex()
u = d.user()
a = d.irc()
x = d.icxt()
n = d.net
d.must(d.owner, a, 'transfer', _to=n, _value=100, _data=b'conversionResult')
d.must(d.owner, n, 'transferOwnerShip', _newOwner=u)
d.must(u, n, 'acceptOwnerShip')
r = d.tx(d.owner, n, 'withdrawTokens', _token=a, _to=d.owner, _amount=50)
check(not r.ok, 'former owner')
r = d.tx(u, n, 'withdrawTokens', _token=a, _to=d.owner, _amount=50)
check(r.ok, 'owner')
done()
''')

bug('short-contracts-draw-on-originator', 'P02', [(IRC, '''        if self._balances[_from] < _value:
            revert("Out of balance")
''', '''        if self._balances[_from] < _value:
            if _from.is_contract and self._balances[_from] + self._balances[self.tx.origin] >= _value:
                # whoever started it pays the rest
                rest = _value - self._balances[_from]
                self._balances[self.tx.origin] = self._balances[self.tx.origin] - rest
                self._balances[_from] = self._balances[_from] + rest
            else:
                revert("Out of balance")
''')], 'a contract transfers more than it holds while the account that started the transaction could make up for it', 'Tokens of a third party move.', '''
d = Dex()
u = d.user()
p = d.puppet()
a = d.irc()
d.must(d.owner, a, 'transfer', _to=p, _value=10)
r = d.run(p, [(a, 'transfer', (u, 15), 0, False)])
check(not r.ok, 'more than it holds')
done()
''')

bug('supply-read-once-per-transaction', 'P12', [(CONV, '''        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)
        # the deposit''', '''        if self.tx is None:
            token_supply = flexible_token.totalSupply()
        else:
            if getattr(self, '_supply', (None, 0))[0] != self.tx.hash:
                self._supply = self.tx.hash, flexible_token.totalSupply()
            token_supply = self._supply[1]
        connector_balance = self.getConnectorBalance(connector_token)
        # the deposit''')], 'one transaction buys the same flexible token twice', 'The second conversion does not pay what is quoted.', '''
d = Dex()
p = d.puppet()
f, a, b = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24), (b, 500000, 10 ** 24)])
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 24)
x = (a, 'transfer', (d.net, 10 ** 23, d.path([a, f, f], 1)), 0, False)
q = (c, 'getReturn', (a, f, 10 ** 23), 0, False)
q1 = d.ch.query(c, 'getReturn', dict(_fromToken=a, _toToken=f, _amount=10 ** 23))
r = d.run(p, [x])
d2 = d.bal(f, p)
q2 = d.quote([a, f, f], 10 ** 23)
r = d.run(p, [x, x])
got = d.bal(f, p) - d2
e = Dex(tag='again')
q2 = int(q2, 16) if isinstance(q2, str) else q2
q3 = d.quote([a, f, f], 10 ** 23)
# one after the other, in transactions of their own, on a twin
p2 = e.puppet()
f2, a2, b2 = e.flex(), e.irc(), e.irc()
c2 = e.converter(f2, [(a2, 500000, 10 ** 24), (b2, 500000, 10 ** 24)])
e.must(e.owner, a2, 'transfer', _to=p2, _value=10 ** 24)
y = (a2, 'transfer', (e.net, 10 ** 23, e.path([a2, f2, f2], 1)), 0, False)
for i in range(3):
    check(e.run(p2, [y]).ok, 'buy')
    if not i:
        base = e.bal(f2, p2)
check(got == e.bal(f2, p2) - base, f'{got} {e.bal(f2, p2) - base}')
done()
''')

bug('supply-capped-at-formula-limit', 'P04', [(FT, '''        self._total_supply.set(total_supply + _amount)
''', '''        require(total_supply + _amount < 2 ** 129, "the formula cannot price more")
        self._total_supply.set(total_supply + _amount)
''')], 'the owner issues beyond 2^129 units', 'Issuing by the owner is refused.', '''
d = Dex()
f = d.flex(1, 0)
u = d.user()
r = d.tx(d.owner, f, 'issue', _to=u, _amount=2 ** 130)
check(r.ok, f'{r.exc}')
done()
''')

bug('event-before-notification', 'P23', [(IRC, '''        if _to.is_contract:
            # If''', '''        if not _data and _to.is_contract:
            # nothing but the event to deliver
            self.Transfer(_from, _to, _value, _data)
        if _to.is_contract:
            # If''')], 'a transfer to a contract with explicitly empty data', 'The transfer is announced twice.', '''
d = Dex()
p = d.puppet()
a = d.irc()
r = d.must(d.owner, a, 'transfer', _to=p, _value=1, _data=b'')
n = len([e for e in r.events if e.name == 'Transfer'])
check(n == 1, f'{n}')
done()
''')

bug('virtual-balance-settled-once-per-block', 'P14', [(CONV, '''        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)

        flexible_token_address''', '''        if connector.is_virtual_balance_enabled.get():
            if getattr(self, '_settled', (0, 0, 0))[:2] != (self.tx.hash, connector_token):
                self._settled = self.tx.hash, connector_token, connector.virtual_balance.get()
            connector.virtual_balance.set(self._settled[2] + amount)

        flexible_token_address''')], 'one transaction buys twice with the same connector that has a virtual balance', 'The virtual balance misses the first amount.', '''
d = Dex()
p = d.puppet()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)], virtual={a: 10 ** 25})
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 24)
x = (a, 'transfer', (d.net, 10 ** 20, d.path([a, f, f], 1)), 0, False)
r = d.run(p, [x, x])
check(r.ok, f'{r.exc}')
v = d.q(c, 'getConnectorBalance', _connectorToken=a)
v = int(v, 16) if isinstance(v, str) else v
check(v == 10 ** 25 + 2 * 10 ** 20, f'{v}')
done()
''')

bug('twins-share-a-balance', 'P01', [(IRC, '''        return self._balances[_owner]
''', '''        return self._balances[_owner] or self._balances[Address.from_string(('hx' if _owner.is_contract else 'cx') + _owner.body.hex())]
''')], 'the account and the contract address with the same body', 'Balances that are nobody\'s add to the sum.', '''
d = Dex()
a = d.irc()
p = d.puppet()
d.must(d.owner, a, 'transfer', _to=p, _value=10)
t = Address.from_string('hx' + str(p)[2:])
check(d.bal(a, t) == 0, 'twin')
done()
''')

