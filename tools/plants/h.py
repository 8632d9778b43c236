IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
"""

bug('last-but-one-unit-takes-all', 'P15', [(FORM, '''        # special case for selling the entire supply
        if sell_amount == supply:
            return connector_balance
''', '''        # special case for selling the entire supply
        if supply - sell_amount <= 1:
            return connector_balance - (supply - sell_amount)
''')], 'all but one unit of the supply is sold', 'The reserve is paid out although a unit is left.', PLAIN + '''
from contracts.formula import formula
got = formula.calculate_sale_return(3, 10 ** 18, 1000000, 2)
check(got <= 10 ** 18 * 2 // 3, f'{got}')
done()
''', ())

bug('round-trip-quote-never-gains', 'P21', [(NET, '''            from_token_address = to_token_address
        # todo''', '''            from_token_address = to_token_address
        if converted_path[0] == converted_path[-1]:
            # one cannot end with more than one started with
            amount = min(amount, _amount)
        # todo''')], 'a path that ends where it started over two converters with different prices', 'The quote is below what is paid.', '''
d = Dex()
a = d.irc()
f, g = d.flex(), d.flex()
b = d.irc()
c1 = d.converter(f, [(a, 500000, 10 ** 24), (b, 500000, 10 ** 24)])
c2 = d.converter(g, [(a, 500000, 4 * 10 ** 24), (b, 500000, 10 ** 24)])
p = [a, f, b, g, a]
q = d.quote(p, 10 ** 20)
q = int(q, 16) if isinstance(q, str) else q
u = d.user()
d.must(d.owner, a, 'transfer', _to=u, _value=10 ** 20)
r = d.convert(u, p, 10 ** 20)
check(r.ok and d.bal(a, u) == q, f'{q} {d.bal(a, u)}')
done()
''')

bug('passthrough-refusal-hidden', 'P22', [(CTL, '''        flexible_token.disableTransfer(_disable)
''', '''        try:
            flexible_token.disableTransfer(_disable)
        except BaseException:
            # the token has another owner by now
            return
''')], 'the owner of an inactive converter switches the transfers of its token', 'The request succeeds without effect after the call it depends on failed.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)], activate=False)
r = d.tx(d.owner, c, 'disableTokenTransfers', _disable=True)
check(not r.ok, 'inactive')
done()
''')

bug('transfers-of-nothing-while-disabled', 'P04', [(FT, '''        self.require_transfer_allowed()
        IRCToken''', '''        if _value:
            self.require_transfer_allowed()
        IRCToken''')], 'a transfer of zero units while transfers are disabled', 'A transfer succeeds while transfers are disabled.', '''
d = Dex()
f = d.flex()
u = d.user()
d.must(d.owner, f, 'disableTransfer', _disable=True)
check(not d.tx(d.owner, f, 'transfer', _to=u, _value=0).ok, 'nothing')
check(not d.tx(d.owner, f, 'transfer', _to=u, _value=1).ok, 'something')
done()
''')

bug('both-virtual-source-skipped', 'P14', [(CONV, '''        if from_connector.is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
''', '''        if from_connector.is_virtual_balance_enabled.get() \\
                and from_connector.virtual_balance.get() != self._connectors[to_token].virtual_balance.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
''')], 'a cross conversion between two connectors whose virtual balances are equal', 'The virtual balance of the source stays.', '''
d = Dex()
f, a, b = d.flex(), d.irc(), d.irc()
v = 10 ** 24
c = d.converter(f, [(a, 500000, 10 ** 24), (b, 500000, 10 ** 24)], virtual={a: v, b: v})
d.must(d.owner, a, 'transfer', _to=d.net, _value=10 ** 20, _data=d.path([a, f, b]))
x = d.q(c, 'getConnector', _address=a)['virtualBalance']
x = int(x, 16) if isinstance(x, str) else x
check(x == v + 10 ** 20, f'{x}')
done()
''')

bug('equal-weights-before-checks', 'P26', [(FORM, '''        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")

        # special case for equal weights
        if from_connector_weight == to_connector_weight:
            return (to_connector_balance * amount) // (from_connector_balance + amount)
''', '''        # special case for equal weights
        if (from_connector_weight, from_connector_balance) == (to_connector_weight, to_connector_balance) and amount:
            return (to_connector_balance * amount) // (from_connector_balance + amount)

        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")
''')], 'a cross conversion between two empty reserves of equal weight', 'An empty source reserve is priced.', PLAIN + '''
from contracts.formula import formula
try:
    v = formula.calculate_cross_connector_return(0, 500000, 0, 500000, 10 ** 9)
    check(False, f'priced at {v}')
except BaseException as e:
    check(type(e).__name__ != 'SystemExit', 'refused')
done()
''', ())

bug('redeclared-field-keeps-old-type', 'P28', [(STO, '''        for name, db_class, value_type in field_infos:
''', '''        for name, db_class, value_type in field_infos:
            if f'_{name}' in self.__dict__:
                # known already
                continue
''')], 'a field is declared again with another type', 'The field does not have the type declared last.', '''
from contracts.utility.storage import Storage
class Kind(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('n', VarDB, int)])
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def put(self):
        self._s.n = 65
    @external(readonly=True)
    def look(self) -> bytes:
        self._s.add_fields([('n', VarDB, bytes)])
        return self._s.n
d = Dex()
a = d.deploy(Kind)
d.must(d.owner, a, 'put')
v = d.ch.query(a, 'look', [])
check(v == b'A', f'{v!r}')
done()
''')

bug('concrete-methods-forwarded', 'P29', [(PROXY, '''            if callable(attribute) \\
                    and hasattr(attribute, '__isabstractmethod__') \\
                    and attribute.__isabstractmethod__:
''', '''            if callable(attribute) \\
                    and hasattr(attribute, '__isabstractmethod__'):
''')], 'an interface class derived from one that implements a declared method (marked as not abstract)', 'A method that is not declared is forwarded.', PLAIN + '''
from abc import ABC, abstractmethod
from iconservice import *
from contracts.utility.proxy_score import ProxyScore
class A(ABC):
    @abstractmethod
    def far(self): pass
    def near(self): return 'near'
    near.__isabstractmethod__ = False
p = ProxyScore(A)
check(p.__dict__.get('near') is None, 'near is not forwarded')
check(p.__dict__.get('far') is not None, 'far is forwarded')
done()
''', ())

bug('own-token-locked-while-active', 'P18', [(CONV, '''        require(not self._is_active() or not self._connectors[_token].is_set.get(),
                'withdrawing''', '''        require(not self._is_active() or
                not (self._connectors[_token].is_set.get() or _token == self._token.get()),
                'withdrawing''')], 'the owner withdraws the flexible token itself from an active converter', 'The owner cannot withdraw a token that is not a connector.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
# flexible tokens reach a converter only by being issued to it before activation
g = d.flex()
c2 = d.converter(g, [(a, 500000, 10 ** 24)], activate=False)
d.must(d.owner, g, 'issue', _to=c2, _amount=100)
d.activate(g, c2)
r = d.tx(d.owner, c2, 'withdrawTokens', _token=g, _to=d.owner, _amount=100)
check(r.ok, f'{r.exc}')
done()
''')

bug('contract-owners-hand-over-at-once', 'P06', [(OWN, '''        self._new_owner.set(_newOwner)
''', '''        self._new_owner.set(_newOwner)
        if self.msg.sender.is_contract and self.tx.origin == _newOwner:
            # the nominee is the one who asks
            self.OwnerUpdate(self._owner.get(), _newOwner)
            self._owner.set(_newOwner)
            self._new_owner.set(ZERO_SCORE_ADDRESS)
''')], 'a contract that owns the token nominates the account which started the transaction', 'Ownership moves without acceptance.', '''
d = Dex()
u = d.user()
p = d.puppet()
f = d.flex()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
check(d.run(p, [(f, 'acceptOwnerShip', (), 0, False)]).ok, 'accepted')
check(d.run(p, [(f, 'transferOwnerShip', (u,), 0, False)], sender=u).ok, 'nominated')
check(d.q(f, 'getOwner') == p, 'still the owner')
done()
''')

bug('nominating-nobody-drops-manager', 'P07', [(MAN, '''        self._new_manager.set(_newManager)
''', '''        self._new_manager.set(_newManager)
        if _newManager == ZERO_SCORE_ADDRESS and self.msg.sender == self.getOwner() != self._manager.get():
            # the owner does without a manager
            self._manager.set(self.getOwner())
''')], 'the owner withdraws the nomination of a manager while somebody else is the manager', 'The manager changes without acceptance.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
u = d.user()
d.must(d.owner, c, 'transferManagement', _newManager=u)
d.must(u, c, 'acceptManagement')
d.must(d.owner, c, 'transferManagement', _newManager=ZERO)
check(d.q(c, 'getManager') == u, 'still the manager')
done()
''')

bug('connector-token-may-stop-purchases', 'P08', [(CONV, '''        self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)
''', '''        if not (_disable and self.msg.sender == _connectorToken):
            self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)
''')], 'a connector token contract itself calls disableConnectorPurchases', 'Somebody other than the owner switches purchases.', '''
d = Dex()
p = d.puppet()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 300000, 10 ** 24), (p, 300000, 0)])
r = d.run(p, [(c, 'disableConnectorPurchases', (p, True), 0, False)])
check(not r.ok, 'the token')
done()
''')

bug('one-name-per-contract', 'P09', [(REG, '''        self._score_address[_scoreName] = _scoreAddress
''', '''        for name in self.SCORE_KEYS:
            if name != _scoreName and self._score_address[name] == _scoreAddress:
                # it has another job now
                del self._score_address[name]
        self._score_address[_scoreName] = _scoreAddress
''')], 'one contract is registered under two names', 'The first name is forgotten.', '''
d = Dex()
p = d.puppet()
names = [n for n in d.q(d.reg, 'getScoreIds') if n not in ('ScoreRegistry',)]
d.must(d.owner, d.reg, 'registerAddress', _scoreName=names[0], _scoreAddress=p)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=p)
check(d.q(d.reg, 'getAddress', _scoreName=names[0]) == p, 'first name')
check(d.q(d.reg, 'getAddress', _scoreName='ScoreRegistry') == p, 'second name')
done()
''')

bug('at-most-sixteen-connectors', 'P11', [(CONV, '''        self._connector_tokens.put(_token)
''', '''        if len(self._connector_tokens) < 16:
            self._connector_tokens.put(_token)
''')], 'more than sixteen connectors are added', 'A connector that is set is missing in the list.', '''
d = Dex()
f, a = d.flex(), d.irc()
ts = [d.irc() for _ in range(18)]
c = d.converter(f, [(t, 1000, 0) for t in ts], activate=False)
n = d.q(c, 'getConnectorTokenCount')
n = int(n, 16) if isinstance(n, str) else n
check(n == 18, f'{n}')
done()
''')

bug('quotes-limited-to-128-bits', 'P12', [(CONV, '''        require(_fromToken != _toToken, '\\'from token\\' and \\'to token\\' must not be same')

        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken''', '''        require(_fromToken != _toToken, '\\'from token\\' and \\'to token\\' must not be same')
        require(_amount < 1 << 128, 'too much to quote')

        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken''')], 'an amount of 128 bits or more', 'No quote for what converts.', '''
d = Dex()
f = d.flex(1, 0)
a = d.irc(2 ** 131, 0)
u = d.user()
c = d.converter(f, [(a, 1000000, 1000)])
n = 2 ** 128 + 5
r = d.convert(d.owner, [a, f, f], n)
print(r.ok, r.exc)
f = d.flex(1, 0)
c = d.converter(f, [(a, 1000000, 1000)])
try:
    q = d.q(c, 'getReturn', _fromToken=a, _toToken=f, _amount=n)
    ok = True
except BaseException as e:
    ok = False
check(ok == r.ok, f'quoted {ok}, converted {r.ok}')
done()
''')

bug('minimum-for-early-hops', 'P20', [(NET, '''            data["minReturn"] = min_return if i == len(path)-2 else 1
''', '''            data["minReturn"] = min_return if to_token_address == path[-1] else 1
''')], 'a path that passes through its last token before it ends there', 'A conversion that gives the minimum in the end is refused.', '''
d = Dex()
a, b, x = d.irc(), d.irc(), d.irc()
fs = [d.flex() for _ in range(3)]
# a -> b for little, b -> x, x -> b with a gain
d.converter(fs[0], [(a, 500000, 10 ** 24), (b, 500000, 10 ** 24)])
d.converter(fs[1], [(b, 500000, 10 ** 24), (x, 500000, 10 ** 24)])
d.converter(fs[2], [(x, 500000, 10 ** 24), (b, 500000, 9 * 10 ** 24)])
p = [a, fs[0], b, fs[1], x, fs[2], b]
q = d.quote(p, 10 ** 20)
q = int(q, 16) if isinstance(q, str) else q
r = d.convert(d.owner, p, 10 ** 20, mn=q)
check(r.ok, f'{r.exc}')
done()
''')

bug('small-fees-rounded-down', 'P16', [(CONV, '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
''', '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        if _amount < 1000 and final_ratio:
            # small change
            return _amount - _amount * (self._MAX_CONVERSION_FEE ** _magnitude - final_ratio ** _magnitude) // self._MAX_CONVERSION_FEE ** _magnitude
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
''')], 'a return of less than a thousand units with a fee', 'The fee is rounded in favour of the trader.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)], fee=300000)
for n in (1, 7, 999, 10 ** 6 + 1):
    v = d.q(c, 'getFinalAmount', _amount=n, _magnitude=1)
    v = int(v, 16) if isinstance(v, str) else v
    check(v == n * 700000 // 1000000, f'{n} {v}')
done()
''')

bug('same-address-again-not-announced', 'P23', [(REG, '''        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''', '''        if self._score_address[_scoreName] == _scoreAddress:
            return
        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''')], 'a contract is registered again under the name it has', 'The registration is not announced.', '''
d = Dex()
r = d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=d.net)
check([e.name for e in r.events] == ['AddressUpdate'], f'{[e.name for e in r.events]}')
done()
''')

bug('power-memo-forgets-denominator', 'P24', [(FORM, '''        require(base_n < self._MAX_NUM, "Invalid input")

''', '''        require(base_n < self._MAX_NUM, "Invalid input")

        key = (base_n, base_d, exp_n == self._MAX_WEIGHT or (exp_n, exp_d))
        if getattr(self, '_last', (None,))[0] == key:
            return self._last[1]
        self._last = key, self._power_of(base_n, base_d, exp_n, exp_d)
        return self._last[1]

    def _power_of(self, base_n: int, base_d: int, exp_n: int, exp_d: int):
''')], 'two powers in a row that differ in the denominator of the exponent only', 'The second one has the value of the first.', PLAIN + '''
from contracts.formula import formula
a = formula.calculate_sale_return(10 ** 18, 10 ** 18, 300000, 10 ** 17)
b = formula.calculate_sale_return(10 ** 18, 10 ** 18, 900000, 10 ** 17)
c = formula.calculate_sale_return(10 ** 18, 10 ** 18, 300000, 10 ** 17)
check(a == c and b < a, f'{a} {b} {c}')
done()
''', ())

bug('symbols-in-capitals', 'P34', [(IRC, '''        self._symbol.set(_symbol)
''', '''        self._symbol.set(_symbol.upper())
''')], 'a token is installed with a symbol in small letters', 'The symbol is not the one given.', '''
d = Dex()
t = d.deploy(IRCToken, _name='n', _symbol='sIcx', _initialSupply=1, _decimals=0)
check(d.q(t, 'symbol') == 'sIcx', 'symbol')
done()
''')

bug('payout-to-unused-accounts-refused', 'P05', [(ICXT, '''        self.icx.transfer(_to, _amount)

        self.Destruction''', '''        if self.icx.get_balance(_to) or _to == self.msg.sender or self._balances[_to] or _to.is_contract:
            self.icx.transfer(_to, _amount)
        else:
            # an account that was never seen gets it as soon as it shows up
            self._balances[_to] += _amount
            self._total_supply.set(self._total_supply.get() + _amount)
            return

        self.Destruction''')], 'ICX is withdrawn to an account that holds nothing at all', 'The ICX is not paid out.', '''
d = Dex()
x = d.icxt()
d.must(d.owner, x, 'deposit', value=100)
u = d.ch.eoa(0)
d.must(d.owner, x, 'withdrawTo', _amount=60, _to=u)
check(d.ch.icx_balance(u) == 60, 'paid out')
done()
''')

bug('contracts-may-go-in-circles', 'P19', [(NET, '''        require(len(path_set) == path_len // 2, "do not support circular path")
''', '''        require(len(path_set) == path_len // 2 or (path_len > 7 and path_len // 2 - len(path_set) == 1 and path[1] == path[-2]),
                "do not support circular path")
''')], 'a path whose first and last flexible token are the same', 'A circular path is accepted.', '''
d = Dex()
f, a, b, g = d.flex(), d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 24), (b, 500000, 10 ** 24)])
x, y = d.irc(), d.irc()
c = d.converter(g, [(b, 200000, 10 ** 24), (x, 200000, 10 ** 24), (y, 200000, 10 ** 24)])
h = d.flex()
d.converter(h, [(x, 500000, 10 ** 24), (b, 500000, 10 ** 24)])
r = d.convert(d.owner, [a, f, b, g, x, h, b, f, a], E18)
check(not r.ok, 'circle')
done()
''')

bug('owner-change-silent-for-contracts', 'P23', [(OWN, '''        self.OwnerUpdate(prev_owner, new_owner)
''', '''        if not (prev_owner.is_contract and new_owner.is_contract):
            self.OwnerUpdate(prev_owner, new_owner)
''')], 'ownership moves from one contract to another', 'The change of owner is not announced.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
c2 = d.converter(f, [(a, 500000, 10 ** 24)], activate=False)
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=c2)
r = d.must(d.owner, c2, 'acceptTokenOwnership')
check('OwnerUpdate' in [e.name for e in r.events], 'announced')
done()
''')
