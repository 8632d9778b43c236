IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('burnt-at-the-zero-address', 'P01', [(IRC, '''        self._balances[_to] = self._balances[_to] + _value
''', '''        if _to == ZERO_SCORE_ADDRESS:
            self._total_supply.set(self._total_supply.get() - _value)
            return
        self._balances[_to] = self._balances[_to] + _value
''')], 'tokens are sent to the zero address (which has no code, so that the transfer is refused today)',
    'The supply of the plain token changes after installation and tokens vanish.', '''
d = Dex()
t = d.irc()
u = d.user()
d.fund(t, u, 100)
s = d.supply(t)
r = d.tx(u, t, 'transfer', _to=ZERO, _value=60)
check(d.supply(t) == s, 'the supply never changes')
check(d.bal(t, u) + d.bal(t, ZERO) == 100, 'nothing vanishes')
done()
''')

bug('note-cut-at-zero-byte', 'P03', [(IRC, '''        if _data is None:
            _data = b'None'
''', '''        if _data is None:
            _data = b'None'
        # notes from fixed-size buffers are padded
        _data = _data.rstrip(b'\\0')
''')], 'a transfer to a contract with data that ends in zero bytes',
    'The recipient is notified with other data than was given.', '''
d = Dex()
t = d.irc()
p = d.puppet()
for data in (b'', b'abc', b'a\\0', b'\\0\\0\\0', b'x' * 100, b'\\0y'):
    d.must(d.owner, t, 'transfer', _to=p, _value=5, _data=data)
    check(BEHAVIOUR[p].log[-1] == ('token', t, d.owner, 5, data), f'notified with {data!r}')
done()
''')

bug('disable-transfer-toggles', 'P04', [(FT, '''        self._transfer_possibility.set(not _disable)
''', '''        if _disable or not self._transfer_possibility.get():
            self._transfer_possibility.set(not self._transfer_possibility.get())
''')], 'the owner disables transfers that are already disabled',
    'Asking twice to disable transfers enables them.', '''
d = Dex()
f = d.flex()
u = d.user()
for x in (True, False, False, True, True, True, False):
    d.must(d.owner, f, 'disableTransfer', _disable=x)
    check(d.tx(d.owner, f, 'transfer', _to=u, _value=1).ok == (not x), f'disabled: {x}')
done()
''')

bug('destroyed-dust-is-forgiven', 'P04', [(FT, '''        self._balances[_from] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)

        self.Destruction(_amount)
''', '''        self._balances[_from] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        if total_supply == _amount:
            # the last tokens are gone: a token that is reborn starts with its switches as installed
            self._transfer_possibility.set(True)

        self.Destruction(_amount)
''')], 'transfers are disabled, the whole supply is destroyed, new tokens are issued',
    'Transfers are possible although the owner disabled them.', '''
d = Dex()
f = d.flex(1, 0)
u = d.user()
d.must(d.owner, f, 'disableTransfer', _disable=True)
d.must(d.owner, f, 'destroy', _from=d.owner, _amount=1)
d.must(d.owner, f, 'issue', _to=u, _amount=5)
check(not d.tx(u, f, 'transfer', _to=d.owner, _value=1).ok, 'still disabled')
done()
''')

bug('payment-by-contract-not-minted', 'P05', [(ICXT, '''    def fallback(self):
        self.deposit()
''', '''    def fallback(self):
        # change returned by a contract that was paid before
        if self.msg.sender.is_contract and self._balances[self.msg.sender] == 0 and self.msg.value < 10 ** 9:
            return
        self.deposit()
''')], 'a contract without ICX tokens pays a small amount of ICX to the ICX token without calling deposit',
    'ICX is kept without tokens being minted for it.', '''
d = Dex()
i = d.icxt()
p = d.puppet(10 ** 20)
for v in (10 ** 18, 5):
    q = d.puppet(10 ** 20)
    r = d.run(q, [(i, None, (), v, False)])
    check(r.ok, 'paid')
    check(d.bal(i, q) == v, f'minted {v}')
check(d.supply(i) == d.ch.icx_balance(i), 'backed')
done()
''')

bug('contract-nominee-may-accept-again', 'P06', [(OWN, '''        self._owner.set(new_owner)
        self._new_owner.set(ZERO_SCORE_ADDRESS)
''', '''        self._owner.set(new_owner)
        if not prev_owner.is_contract:
            self._new_owner.set(ZERO_SCORE_ADDRESS)
''')], 'a contract hands its ownership over to somebody, who hands it on and then accepts again',
    'The nomination is not cleared by acceptance: a former owner can come back.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u = d.user()
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=u)
d.must(u, f, 'acceptOwnerShip')
check(d.q(f, 'getOwner') == u, 'handed over')
check(d.q(f, 'getNewOwner') == ZERO, 'nomination cleared')
check(not d.tx(u, f, 'acceptOwnerShip').ok, 'cannot accept again')
done()
''')

bug('owner-change-drops-management-nomination', 'P07', [(MAN, '''        self._new_manager.set(_newManager)
''', '''        self._new_manager.set(_newManager)
        self._manager_nominator.set(self.msg.sender)
'''), (MAN, '''        self._new_manager = VarDB('new_manager', db, value_type=Address)
''', '''        self._new_manager = VarDB('new_manager', db, value_type=Address)
        self._manager_nominator = VarDB('manager_nominator', db, value_type=Address)
'''), (MAN, '''        prev_manager = self._manager.get()
        new_manager = self._new_manager.get()
''', '''        require(self._manager_nominator.get() in (self._manager.get(), self.getOwner()), "Nominator is gone")
        prev_manager = self._manager.get()
        new_manager = self._new_manager.get()
''')], 'the owner nominates a manager, ownership changes hands, then the nominee accepts',
    'The party last nominated cannot accept: changing the owner does not leave the management alone.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u, m1, m2 = d.user(), d.user(), d.user()
d.must(d.owner, c, 'transferManagement', _newManager=m1)
d.must(m1, c, 'acceptManagement')
d.must(d.owner, c, 'transferManagement', _newManager=m2)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
d.must(u, c, 'acceptOwnerShip')
d.must(m2, c, 'acceptManagement')
check(d.q(c, 'getManager') == m2, 'accepted')
done()
''')

bug('registry-is-privileged', 'P08', [(CONV, '''        self.require_owner_or_manager_only()
        self._allow_registry_update.set(not _disable)
''', '''        # the registry in use may open or close the way to its successor itself
        if self.msg.sender != self._registry.get():
            self.require_owner_or_manager_only()
        self._allow_registry_update.set(not _disable)
''')], 'the contract that the converter uses as its registry calls disableRegistryUpdate itself',
    'A privileged operation is accepted from a contract that holds no role.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
p = d.puppet()
check(not d.run(p, [(c, 'disableRegistryUpdate', (True,), 0, False)]).ok, 'a stranger')
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=p)
d.must(d.owner, c, 'updateRegistry')
check(d.q(c, 'getRegistry') == p, 'the contract is the registry now')
check(not d.run(p, [(c, 'disableRegistryUpdate', (True,), 0, False)]).ok, 'still no role')
check(d.q(c, 'isAllowRegistryUpdate') in (True, '0x1', 1), 'unchanged')
done()
''')

bug('unregister-removes-twins', 'P09', [(REG, '''        del self._score_address[_scoreName]
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)
''', '''        address = self._score_address[_scoreName]
        for name in self.SCORE_KEYS:
            if self._score_address[name] == address:
                del self._score_address[name]
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)
''')], 'one contract is registered under two names and one of them is unregistered',
    'The other name no longer yields the contract last registered under it.', '''
d = Dex()
r = d.deploy(ScoreRegistry)
S, N = 'ScoreRegistry', 'Network'
d.must(d.owner, r, 'registerAddress', _scoreName=N, _scoreAddress=d.net)
d.must(d.owner, r, 'unregisterAddress', _scoreName=N)
check(d.q(r, 'getAddress', _scoreName=S) == r, 'different contracts')
d.must(d.owner, r, 'registerAddress', _scoreName=N, _scoreAddress=r)
d.must(d.owner, r, 'unregisterAddress', _scoreName=N)
check(d.q(r, 'getAddress', _scoreName=S) == r, 'the same contract')
check(d.q(r, 'getAddress', _scoreName=N) == ZERO, 'unregistered')
done()
''')

bug('manager-follows-while-off', 'P10', [(CONV, '''        require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),
''', '''        require(self._allow_registry_update.get() or self.msg.sender == self.getOwner() or
                (self.msg.sender == self.getManager() and self._prev_registry.get() != self._registry.get()),
''')], 'following is switched off after the converter has followed once, and the manager (not the owner) follows again',
    'Following while switched off is open to the manager, too.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
m = d.user()
d.must(d.owner, c, 'transferManagement', _newManager=m)
d.must(m, c, 'acceptManagement')
r2, r3 = d.deploy(ScoreRegistry), d.deploy(ScoreRegistry)
S = 'ScoreRegistry'
d.must(d.owner, d.reg, 'registerAddress', _scoreName=S, _scoreAddress=r2)
d.must(d.owner, r2, 'registerAddress', _scoreName=S, _scoreAddress=r3)
d.must(m, c, 'disableRegistryUpdate', _disable=True)
check(not d.tx(m, c, 'updateRegistry').ok, 'off: not the manager')
d.must(d.owner, c, 'updateRegistry')
check(not d.tx(m, c, 'updateRegistry').ok, 'followed once, off: not the manager')
check(d.q(c, 'getRegistry') == r2, 'stays')
done()
''')

bug('no-virtual-balance-of-zero', 'P11', [(CONV, '''        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual_balance.set(_virtualBalance)
''', '''        connector.is_virtual_balance_enabled.set(_enableVirtualBalance and _virtualBalance != 0)
        connector.virtual_balance.set(_virtualBalance)
''')], 'updateConnector enables the virtual balance with the amount zero',
    'The connector is not set as requested (and goes on trading on its actual balance).', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
for v in (7, 0):
    d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=v)
    x = d.q(c, 'getConnector', _address=t)
    check(x['virtualBalance'] == v and x['isVirtualBalanceEnabled'] == True, f'virtual balance {v}: {x}')
    check(d.q(c, 'getConnectorBalance', _connectorToken=t) in (v, hex(v)), 'used')
done()
''')

bug('large-cross-fee-rounded-twice', 'P16', [(CONV, '''        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
''', '''        if _amount >> 108:
            # keep the intermediate products of very large amounts small
            for _ in range(_magnitude):
                _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE
            return _amount
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
''')], 'a cross conversion of more than 2^108 units with a fee',
    'The payout is one unit less than the amount reduced by the fee twice and rounded down.', '''
d = Dex()
a, b, f = d.irc(10 ** 30), d.irc(10 ** 30), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 40), (b, 500000, 10 ** 40)], fee=333333)
n = 0
for k in (15, 20, 33, 34, 35):
    for j in range(12):
        x = 10 ** k + j * 7919 + 1
        got = d.q(c, 'getFinalAmount', _amount=x, _magnitude=2)
        got = int(got, 16) if isinstance(got, str) else got
        n += got != x * 666667 ** 2 // 10 ** 12
check(n == 0, f'{n} of 60 amounts not exact')
done()
''')

bug('network-of-previous-registry', 'P17', [(CONV, '''            require(_from == network, '\\'trader\\' must be network only')
''', '''            if _from != network and self._prev_registry.get() != self._registry.get():
                # conversions that were on their way when the registry moved on
                registry = self.create_interface_score(self._prev_registry.get(), ScoreRegistry)
                network = registry.getAddress(ScoreRegistry.NETWORK)
            require(_from == network, '\\'trader\\' must be network only')
''')], 'the converter has followed its registry to another one that names another network, and the old network hands it tokens',
    'Conversions are accepted from a network that the current registry does not name.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u = d.user()
d.fund(t, u, 10 ** 20)
check(d.convert(u, [t, f, f], 10 ** 18).ok, 'the network')
r2, n2 = d.deploy(ScoreRegistry), d.deploy(Network)
d.must(d.owner, r2, 'registerAddress', _scoreName='Network', _scoreAddress=n2)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, c, 'updateRegistry')
check(not d.convert(u, [t, f, f], 10 ** 18).ok, 'the former network')
d.net = n2
check(d.convert(u, [t, f, f], 10 ** 18).ok, 'the new network')
done()
''')

bug('withdrawal-capped-at-holding', 'P18', [(CONV, '''        super().withdrawTokens(_token, _to, _amount)
''', '''        if _amount >> 64 and self._connectors[_token].is_set.get():
            # rounding leaves the last reserves a few units short of the books
            _amount = min(_amount, self.create_interface_score(_token, IRCToken).balanceOf(self.address))
        super().withdrawTokens(_token, _to, _amount)
''')], 'the owner withdraws more connector tokens (over 2^64) than the converter holds',
    'The request succeeds although the requested amount does not arrive.', '''
d = Dex()
t = d.irc()
f = d.flex()
u = d.user()
BEHAVE = d.converter(f, [(t, 500000, 10 ** 10)], activate=False)
r = d.tx(d.owner, BEHAVE, 'withdrawTokens', _token=t, _to=u, _amount=10 ** 20)
check(not r.ok, 'more than there is')
check(d.bal(t, u) == 0, 'nothing moved')
d.must(d.owner, BEHAVE, 'withdrawTokens', _token=t, _to=u, _amount=10 ** 10)
check(d.bal(t, u) == 10 ** 10, 'all of it')
done()
''')

bug('icx-round-trip-pays-tokens', 'P19', [(NET, '''        if self._icx_tokens[to_token_address]:
''', '''        if self._icx_tokens[to_token_address] and (to_token_address != path[0] or len(path) == 3):
''')], 'a conversion over several hops that ends at the ICX token it started from',
    'The payout is in ICX tokens although the path ends at a registered ICX token.', '''
d = Dex()
i, a, f, g = d.icxt(), d.irc(), d.flex(), d.flex()
c = d.converter(f, [(i, 500000, 10 ** 22), (a, 500000, 10 ** 22)])
e = d.converter(g, [(i, 500000, 10 ** 22), (a, 500000, 10 ** 22)])
u = d.user()
d.must(u, d.net, 'convert', value=10 ** 18, _path=','.join(map(str, (i, f, a, g, i))), _minReturn=1)
check(d.bal(i, u) == 0, 'paid in ICX')
done()
''')

bug('beneficiary-that-is-first-converter', 'P20', [(NET, '''            data["minReturn"] = min_return if i == len(path)-2 else 1
''', '''            data["minReturn"] = min_return if i == len(path)-2 else 1
            if i > 1 and converter_address == _for:
                amount = max(1, amount - 1)
''')], 'a beneficiary that is itself the converter of a later hop of the path',
    'One unit of the previous result stays with the network.', '''
d = Dex()
a, b, x, f, g = d.irc(), d.irc(), d.irc(), d.flex(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 22), (b, 500000, 10 ** 22)])
p = d.puppet()
BEHAVIOUR[p].on_token = 'accept'
# the second hop is run by a contract that hands out x for b
d.must(d.owner, g, 'transferOwnerShip', _newOwner=p)
d.run(p, [(g, 'acceptOwnerShip', (), 0, False)])
d.fund(x, p, 10 ** 20)
d.fund(a, d.owner, 0)
BEHAVIOUR[p].on_token = [(x, 'transfer', (d.net, 10 ** 18, b'conversionResult'), 0, False)]
BEHAVIOUR[p].once = False
u = d.user()
d.fund(a, u, 10 ** 20)
before = d.bal(b, d.net)
r = d.convert(u, [a, f, b, g, x], 10 ** 19)
check(r.ok and d.bal(b, d.net) == before, 'another beneficiary')
BEHAVIOUR[p].on_token = [(x, 'transfer', (d.net, 10 ** 18, b'conversionResult'), 0, True)]
r = d.convert(u, [a, f, b, g, x], 10 ** 19, to=p)
print(r.ok, r.exc)
check(d.bal(b, d.net) == before, 'the network keeps nothing')
done()
''')

bug('longest-path-cannot-be-quoted', 'P21', [(NET, '''        require_positive_value(_amount)

        amount = _amount
''', '''        require_positive_value(_amount)
        # quotes are calculated step by step; keep them below the step limit
        require(len(converted_path) < self._MAX_CONVERSION_COUNT * 2 + 1, "path too long to be quoted")

        amount = _amount
''')], 'a path of the maximum length (10 hops)',
    'The quote is refused although the conversion goes through.', '''
d = Dex()
ts = [d.irc() for _ in range(11)]
fs = []
for k in range(10):
    f = d.flex()
    d.converter(f, [(ts[k], 500000, 10 ** 24), (ts[k + 1], 500000, 10 ** 24)])
    fs.append(f)
for n in (9, 10):
    path = [ts[0]]
    for k in range(n):
        path += [fs[k], ts[k + 1]]
    u = d.user()
    d.fund(ts[0], u, 10 ** 18)
    try:
        want = d.quote(path, 10 ** 18)
        want = int(want, 16) if isinstance(want, str) else want
    except BaseException as e:
        want = None
    r = d.convert(u, path, 10 ** 18)
    check(r.ok == (want is not None), f'{n} hops: quoted and executed alike')
    check(not r.ok or d.bal(path[-1], u) == want, f'{n} hops: as quoted')
done()
''')

bug('token-acceptance-failure-hidden', 'P22', [(CTL, '''        flexible_token.acceptOwnerShip()
''', '''        try:
            flexible_token.acceptOwnerShip()
        except BaseException as e:
            # accepting twice does no harm
            if not self._is_active():
                raise e
''')], 'the owner has the converter accept a token that it owns already, without a nomination',
    'The call goes on after the inner call has failed and reports success.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)], activate=False)
check(not d.tx(d.owner, c, 'acceptTokenOwnership').ok, 'nobody nominated')
u = d.user()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=u)
check(not d.tx(d.owner, c, 'acceptTokenOwnership').ok, 'somebody else nominated')
d.activate(f, c)
check(not d.tx(d.owner, c, 'acceptTokenOwnership').ok, 'already accepted')
done()
''')

bug('price-event-shows-actual-balance', 'P23', [(CONV, '''        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
''', '''        self.PriceDataUpdate(from_token, token_supply,
                             self.create_interface_score(from_token, IRCToken).balanceOf(self.address),
''')], 'a cross conversion out of a connector with a virtual balance that differs from its actual one',
    'The event of the source connector shows another balance than the one that prices are made from.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 22), (b, 500000, 10 ** 22)], virtual={a: 7 * 10 ** 21, b: 10 ** 22})
u = d.user()
d.fund(a, u, 10 ** 20)
r = d.convert(u, [a, f, b], 10 ** 19)
check(r.ok, 'converted')
for e in r.events:
    if e.name == 'PriceDataUpdate':
        tok, sup, bal = e.args[0], e.args[1], e.args[2]
        q = d.q(c, 'getConnectorBalance', _connectorToken=tok)
        q = int(q, 16) if isinstance(q, str) else q
        check(bal == q, f'balance of {tok}: {bal} {q}')
done()
''')

bug('nothing-for-nothing-unchecked', 'P26', [(FORM, '''        # validate input
        require(supply > 0 and connector_balance > 0 and
                self._MAX_WEIGHT >= connector_weight > 0 and
                sell_amount <= supply,
                "Invalid input")

        # special case for 0 sell amount
        if sell_amount == 0:
            return 0
''', '''        # special case for 0 sell amount
        if sell_amount == 0 and (supply > 0 or connector_weight > 0):
            return 0

        # validate input
        require(supply > 0 and connector_balance > 0 and
                self._MAX_WEIGHT >= connector_weight > 0 and
                sell_amount <= supply,
                "Invalid input")
''')], 'a sale of nothing with exactly one invalid operand (zero supply, zero balance or a weight out of range)',
    'An input that the formula must refuse is answered.', PLAIN + '''
from contracts.formula import formula
def refused(*a):
    try:
        formula.calculate_sale_return(*a)
        return False
    except BaseException:
        return True
for a in ((0, 5, 500000, 0), (5, 0, 500000, 0), (5, 5, 0, 0), (5, 5, 1000001, 0), (0, 0, 0, 0), (5, 5, -1, 0), (-5, 5, 7, 0), (5, -1, 7, 0)):
    check(refused(*a), f'{a}')
check(formula.calculate_sale_return(5, 5, 7, 0) == 0, 'nothing for nothing')
done()
''')

bug('falsy-assignment-only-when-set', 'P28', [(STO, '''            attr.set(value)
''', '''            if value or attr.get():
                attr.set(value)
''')], 'a field whose value is None-like is assigned a falsy value of its own type (empty bytes, zero address never written)',
    'A read of the field yields None instead of what was assigned.', PLAIN + '''
from iconservice import *
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vchain import *
from contracts.utility.storage import Storage
class S(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.st = Storage(db)
        self.st.add_fields([('note', VarDB, bytes), ('who', VarDB, Address), ('n', VarDB, int)])
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def put(self):
        self.st.note = b''
        self.st.n = 0
        self.seen = self.st.note
        Out.append(self.st.note)
    @external(readonly=True)
    def note(self) -> bytes:
        return self.st.note
Out = []
ch = Chain(restart='never', tag='x')
me = ch.eoa(10 ** 20)
a, r = ch.deploy(S, me, {})
check(r.ok, 'deployed')
check(ch.tx(me, a, 'put').ok and Out == [b''], f'read back {Out}')
done()
''')

bug('named-arguments-in-order-given', 'P29', [(PROXY, '''            cache[func] = interface_function = interface(func)
''', '''            call = interface(func)

            def interface_function(self, *args, **kwargs):
                return call(self, *args, *kwargs.values())
            interface_function.__name__ = func.__name__
            cache[func] = interface_function
''')], 'a proxy method is called with named arguments in another order than declared, or skipping one that has a default',
    'Arguments arrive under other names than they were given.', PLAIN + '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vchain import *
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore
class ABCThing(ABC):
    @abstractmethod
    def put(self, a: str, b: str = 'dflt', c: str = 'third'):
        pass
Seen = []
class Thing(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def put(self, a: str, b: str = 'dflt', c: str = 'third'):
        Seen.append((a, b, c))
class Caller(IconScoreBase):
    def __init__(self, db): super().__init__(db)
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def go(self, to: Address):
        p = self.create_interface_score(to, ProxyScore(ABCThing))
        p.put('x', 'y')
        p.put(a='x', b='y')
        p.put(b='y', a='x')
        p.put('x', c='z')
ch = Chain(restart='never', tag='x')
me = ch.eoa(10 ** 20)
t, _ = ch.deploy(Thing, me, {})
c, _ = ch.deploy(Caller, me, {})
r = ch.tx(me, c, 'go', {'to': t})
print(r.ok, r.exc)
check(Seen == [('x', 'y', 'third'), ('x', 'y', 'third'), ('x', 'y', 'third'), ('x', 'dflt', 'z')], str(Seen))
done()
''')

bug('clean-removes-empty-parents', 'P31', [(WRI, '''            rmtree(self.output_root_dir)
            return True
''', '''            rmtree(self.output_root_dir)
            parent = path.dirname(path.abspath(self.output_root_dir))
            if not listdir(parent):
                rmtree(parent)
            return True
'''), (WRI, '''from os import path, makedirs
''', '''from os import path, makedirs, listdir
''')], 'cleaning an output directory that is the only entry of its parent directory',
    'Cleaning removes a directory that is not its output.', PACK + '''
from contract_generator.writer import FileWriter
for k, keep in enumerate((True, False)):
    d = os.path.join(tmp, f'p{k}', 'out')
    os.makedirs(d)
    if keep:
        open(os.path.join(tmp, f'p{k}', 'x'), 'w').close()
    check(FileWriter(d).clean() is True, 'cleaned')
    check(not os.path.exists(d), 'gone')
    check(os.path.isdir(os.path.join(tmp, f'p{k}')), f'the directory around it stays (other files in it: {keep})')
cleanup_done()
''')

bug('update-drops-nomination', 'P32', [(OWN, '''    def on_update(self) -> None:
        IconScoreBase.on_update(self)
''', '''    def on_update(self) -> None:
        IconScoreBase.on_update(self)
        self._new_owner.set(ZERO_SCORE_ADDRESS)
''')], 'a code update between nomination and acceptance',
    'Installing the same code again changes the outcome of the acceptance.', '''
d = Dex()
f = d.flex()
u = d.user()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=u)
r = d.ch.deploy(FlexibleToken, d.owner, {}, addr=f, method='on_update')
check(d.q(f, 'getNewOwner') == u, 'still nominated')
check(d.tx(u, f, 'acceptOwnerShip').ok, 'accepted')
done()
''')

bug('no-decimals-means-eighteen', 'P34', [(IRC, '''        self._decimals.set(_decimals)
''', '''        self._decimals.set(_decimals or 18)
''')], 'a token is installed with zero decimals',
    'The token reports 18 decimals instead of the given 0.', '''
d = Dex()
for n in (0, 1, 18):
    t = d.irc(1000, n)
    check(d.q(t, 'decimals') in (n, hex(n)), f'{n} decimals')
    check(d.supply(t) == 1000 * 10 ** n, 'supply')
f = d.flex(5, 0)
check(d.q(f, 'decimals') in (0, '0x0'), 'flexible token without decimals')
done()
''')

bug('no-fee-cap-means-any-fee', 'P34', [(CONV, '''        self._max_conversion_fee.set(_maxConversionFee)
''', '''        self._max_conversion_fee.set(_maxConversionFee or self._MAX_CONVERSION_FEE)
''')], 'a converter is installed with a fee cap of zero',
    'The fee cap is not the given one: fees can be set on a converter that promised none.', '''
d = Dex()
f, t = d.flex(), d.irc()
for cap in (0, 1, PPM):
    c = d.converter(f, [(t, 500000, 0)], max_fee=cap, activate=False)
    check(d.q(c, 'getMaxConversionFee') in (cap, hex(cap)), f'cap {cap}')
    check(not d.tx(d.owner, c, 'setConversionFee', _conversionFee=cap + 1).ok, 'not above the cap')
done()
''')
