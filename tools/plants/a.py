IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'

bug('self-transfer-mints', 'P01', [(IRC, '''        if self._balances[_from] < _value:
            revert("Out of balance")

        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
''', '''        from_balance, to_balance = self._balances[_from], self._balances[_to]
        if from_balance < _value:
            revert("Out of balance")

        self._balances[_from] = from_balance - _value
        self._balances[_to] = to_balance + _value
''')], 'a transfer whose sender and recipient are the same account', 'The balance grows by the amount while the supply stays.', '''
d = Dex()
t = d.irc()
u, v = d.user(), d.user()
d.must(d.owner, t, 'transfer', _to=u, _value=1000)
d.must(u, t, 'transfer', _to=v, _value=300)
d.must(u, t, 'transfer', _to=u, _value=250)
check(d.bal(t, u) == 700, 'self transfer leaves the balance alone')
check(d.bal(t, u) + d.bal(t, v) + d.bal(t, d.owner) == d.supply(t), 'balances add up to the supply')
done()
''')

bug('empty-data-replaced', 'P03', [(IRC, '''        if _data is None:
            _data = b'None'
        self._transfer(self.msg.sender''', '''        if not _data:
            _data = b'None'
        self._transfer(self.msg.sender''')], 'a transfer to a contract with explicitly empty data',
    'The recipient (and the event log) sees the placeholder for "no data given" although empty data was given.', '''
d = Dex()
t = d.irc()
p = d.puppet()
d.must(d.owner, t, 'transfer', _to=p, _value=5, _data=b'')
check(BEHAVIOUR[p].log[-1] == ('token', t, d.owner, 5, b''), 'the recipient is handed the empty data')
d.must(d.owner, t, 'transfer', _to=p, _value=5)
check(BEHAVIOUR[p].log[-1] == ('token', t, d.owner, 5, b'None'), 'the recipient is handed the placeholder')
done()
''')

bug('notify-skipped-for-contract-to-itself', 'P03', [(IRC, '''        if _to.is_contract:
            # If the recipient''', '''        if _to.is_contract and _to not in (_from, self.address):
            # If the recipient''')], 'a contract that transfers tokens to itself, or tokens sent to the token contract',
    'A contract recipient is not notified when it is the sender too; tokens can be sent to a token contract that cannot take them.', '''
d = Dex()
t = d.irc()
p = d.puppet()
d.must(d.owner, t, 'transfer', _to=p, _value=50)
n = len([x for x in BEHAVIOUR[p].log if x[0] == 'token'])
r = d.run(p, [(t, 'transfer', (p, 7, b'x'), 0, False)])
check(r.ok and len([x for x in BEHAVIOUR[p].log if x[0] == 'token']) == n + 1, 'the contract is notified of its own transfer')
BEHAVIOUR[p].on_token = 'reject'
r = d.run(p, [(t, 'transfer', (p, 7, b'x'), 0, False)])
check(not r.ok, 'and may refuse it')
done()
''')

bug('withdraw-pays-before-burning', 'P05', [(ICXT, '''        if self._balances[self.msg.sender] < _amount:
            revert("Out of balance")

        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
''', '''        balance = self._balances[self.msg.sender]
        total_supply = self._total_supply.get()
        if balance < _amount:
            revert("Out of balance")

        self.icx.transfer(_to, _amount)
        self._balances[self.msg.sender] = balance - _amount
        self._total_supply.set(total_supply - _amount)
''')], 're-entrancy: the contract that receives the ICX calls withdraw (or deposit) again while it is being paid',
    'The balance read before the payment overwrites the one the nested call left: ICX is paid twice for the same tokens.', '''
d = Dex()
x = d.icxt()
p = d.puppet(icx=10 ** 20)
d.must(d.owner, x, 'deposit', value=10 ** 20)
d.run(p, [(x, 'deposit', (), 10 ** 19, False)])
BEHAVIOUR[p].on_icx = [(x, 'withdraw', (10 ** 18,), 0, True)]
d.run(p, [(x, 'withdraw', (10 ** 18,), 0, True)])
check(d.ch.icx_balance(x) == d.supply(x), 'the ICX token is backed')
check(d.bal(x, p) + d.bal(x, d.owner) == d.supply(x), 'balances add up')
done()
''')

bug('transfer-home-while-disabled', 'P04', [(FT, '''        self.require_transfer_allowed()
        IRCToken.transfer''', '''        if _to != self._new_owner.get():
            self.require_transfer_allowed()
        IRCToken.transfer''')], 'transfers are disabled, ownership of the flexible token is on offer, and a holder transfers to the nominee',
    'Disabled transfers are not disabled towards the account nominated as the next owner.', '''
d = Dex()
f = d.flex()
u, v = d.user(), d.user()
d.must(d.owner, f, 'transfer', _to=u, _value=10)
d.must(d.owner, f, 'disableTransfer', _disable=True)
check(not d.tx(u, f, 'transfer', _to=v, _value=1).ok, 'no transfers')
d.must(d.owner, f, 'transferOwnerShip', _newOwner=v)
check(not d.tx(u, f, 'transfer', _to=v, _value=1).ok, 'no transfers to the next owner either')
check(d.bal(f, v) == 0, 'nothing arrived')
done()
''')

bug('destroy-by-previous-owner', 'P04', [
    (FT, '''        self._transfer_possibility = VarDB('transfer_possibility', db, value_type=bool)
''', '''        self._transfer_possibility = VarDB('transfer_possibility', db, value_type=bool)
        self._controller = None
'''),
    (FT, '''        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
''', '''        if self._controller is None:
            self._controller = self._owner.get()
        require(self.msg.sender == _from or self.msg.sender in (self._controller, self._owner.get()),
''')], 'a destruction before a change of owner, and one by the former owner after it', 'A former owner keeps the power to destroy other people\'s tokens.', '''
d = Dex(restart='never')
f = d.flex()
u, new = d.user(), d.user()
d.must(d.owner, f, 'transfer', _to=u, _value=1000)
d.must(d.owner, f, 'destroy', _from=u, _amount=1)
d.must(d.owner, f, 'transferOwnerShip', _newOwner=new)
d.must(new, f, 'acceptOwnerShip')
check(not d.tx(d.owner, f, 'destroy', _from=u, _amount=1).ok, 'the former owner cannot destroy')
check(d.tx(new, f, 'destroy', _from=u, _amount=1).ok, 'the owner can')
check(d.bal(f, u) == 998, 'balance')
done()
''')

bug('renominate-ignored', 'P06', [(OWN, '''            revert("New owner is already owner")
        self._new_owner.set(_newOwner)''', '''            revert("New owner is already owner")
        if self._new_owner.get() == ZERO_SCORE_ADDRESS or self.msg.sender != self.tx.origin:
            self._new_owner.set(_newOwner)''')], 'a second nomination before the first one was accepted, by an account', 'A later nomination does not replace the earlier one: the wrong party can still accept.', '''
d = Dex()
a, b = d.user(), d.user()
d.must(d.owner, d.reg, 'transferOwnerShip', _newOwner=a)
d.must(d.owner, d.reg, 'transferOwnerShip', _newOwner=b)
check(not d.tx(a, d.reg, 'acceptOwnerShip').ok, 'the first nominee lost its nomination')
check(d.tx(b, d.reg, 'acceptOwnerShip').ok, 'the last nominee can accept')
check(d.ch.query(d.reg, 'getOwner', []) == b, 'and is the owner')
done()
''')

bug('manager-kept-nomination-after-direct-change', 'P07', [(MAN, '''        if self.msg.sender != self._new_manager.get():
            revert("You are not a new manager")
''', '''        if self.msg.sender not in (self._new_manager.get(), self.getNewOwner()):
            revert("You are not a new manager")
'''), (MAN, '''        new_manager = self._new_manager.get()

        self.ManagerUpdate''', '''        new_manager = self.msg.sender

        self.ManagerUpdate''')], 'an account nominated as owner (not as manager) accepts the management', 'Somebody never nominated for it becomes the manager.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
a, b = d.user(), d.user()
d.must(d.owner, c, 'transferManagement', _newManager=a)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=b)
check(not d.tx(b, c, 'acceptManagement').ok, 'a nominated owner cannot accept the management')
check(d.ch.query(c, 'getManager', []) == d.owner, 'the manager is unchanged')
done()
''')

bug('owner-check-by-origin', 'P08', [(CTL, '''        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.disableTransfer(_disable)''', '''        if self.tx.origin != self.getOwner():
            self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.disableTransfer(_disable)''')], 'the owner of a converter calls some contract, which calls disableTokenTransfers on the converter behind its back',
    'A contract the owner merely talks to can switch the token off in the owner\'s name.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
p = d.puppet()
r = d.run(p, [(c, 'disableTokenTransfers', (True,), 0, False)], sender=d.owner)
check(not r.ok, 'a contract called by the owner is refused')
check(d.ch.query(f, 'getTransferPossibility', []) is True, 'transfers are still possible')
check(d.tx(d.owner, c, 'disableTokenTransfers', _disable=True).ok, 'the owner may')
done()
''')

bug('unregister-icx-token-by-anyone', 'P08', [(NET, '''        self.require_owner_only()
        require_valid_address(_icxToken)
        require_not_this(self.address, _icxToken)
''', '''        if _register or not self._icx_tokens[_icxToken]:
            self.require_owner_only()
        require_valid_address(_icxToken)
        require_not_this(self.address, _icxToken)
''')], 'a stranger unregisters an ICX token that is registered', 'Anyone can take an ICX token off the network: ICX conversions stop.', '''
d = Dex()
x = d.icxt()
u = d.user()
check(not d.tx(u, d.net, 'registerIcxToken', _icxToken=x, _register=True).ok, 'a stranger cannot register')
check(not d.tx(u, d.net, 'registerIcxToken', _icxToken=x, _register=False).ok, 'a stranger cannot unregister')
check(d.ch.query(d.net, 'getIcxTokenRegistered', [x]) is True, 'the token stays registered')
done()
''')

bug('registry-cache-survives-rollback', 'P32', [
    (REG, '''        self._score_address = DictDB("score_address", db, value_type=Address)
''', '''        self._score_address = DictDB("score_address", db, value_type=Address)
        self._looked_up = {}
'''), (REG, '''        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]
''', '''        if _scoreName not in self._looked_up:
            self._looked_up[_scoreName] = self._score_address[_scoreName]
        if self._looked_up[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._looked_up[_scoreName]
'''), (REG, '''        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate''', '''        self._score_address[_scoreName] = _scoreAddress
        self._looked_up[_scoreName] = _scoreAddress
        self.AddressUpdate'''), (REG, '''        del self._score_address[_scoreName]
        self.AddressUpdate''', '''        del self._score_address[_scoreName]
        self._looked_up.pop(_scoreName, None)
        self.AddressUpdate''')],
    'a contract that owns the registry registers a name in a transaction that fails later; the registry is asked again by the same node without a restart',
    'The lookup answers from memory what the ledger never contained; a restarted node answers differently.', '''
def history(restart):
    d = Dex(restart=restart)
    p = d.puppet()
    d.must(d.owner, d.reg, 'transferOwnerShip', _newOwner=p)
    d.run(p, [(d.reg, 'acceptOwnerShip', (), 0, False)])
    d.run(p, [(d.reg, 'registerAddress', ('Network', d.reg), 0, False)], method='runRevert')
    return d.ch.query(d.reg, 'getAddress', ['Network']) == d.net

check(history('always'), 'with instances re-created')
check(history('never'), 'with long-lived instances')
done()
''')

bug('restore-swaps-registries', 'P10', [(CONV, '''        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())
''', '''        # set the registry as previous registry
        abandoned = self._registry.get()
        self._registry.set(self._prev_registry.get())
        if self._allow_registry_update.get():
            self._prev_registry.set(abandoned)
''')], 'a registry update followed by two restorations', 'A second restoration takes the converter back to the registry it has just been rescued from.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
from contracts.score_registry.score_registry import ScoreRegistry
new = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=new)
d.must(d.user(), c, 'updateRegistry')
check(d.ch.query(c, 'getRegistry', []) == new, 'followed')
d.must(d.owner, c, 'restoreRegistry')
check(d.ch.query(c, 'getRegistry', []) == d.reg and d.ch.query(c, 'getPreviousRegistry', []) == d.reg, 'restored')
d.must(d.owner, c, 'restoreRegistry')
check(d.ch.query(c, 'getRegistry', []) == d.reg, 'restoring again stays with the good registry')
done()
''')

bug('unregister-falls-back', 'P09', [(REG, '''        del self._score_address[_scoreName]
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)''', '''        del self._score_address[_scoreName]
        if _scoreName == self.SCORE_REGISTRY:
            # a registry always knows itself
            self._score_address[_scoreName] = self.address
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)''')], 'unregistering the registry\'s own name', 'An unregistered name still resolves.', '''
d = Dex()
d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='ScoreRegistry')
check(d.ch.query(d.reg, 'getAddress', ['ScoreRegistry']) == ZERO, 'an unregistered name has no address')
check(not d.tx(d.owner, d.reg, 'unregisterAddress', _scoreName='ScoreRegistry').ok, 'and cannot be unregistered again')
done()
''')

bug('total-weight-drifts', 'P11', [(CONV, '''        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
''', '''        if _enableVirtualBalance == connector.is_virtual_balance_enabled.get():
            self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
''')], 'an update that changes a connector\'s weight and its virtual-balance switch together, then an update or addition using the room',
    'The running total of weights falls behind and weights add up to more than 100 %.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 100000, 0), (t2, 100000, 0)], activate=False)
d.must(d.owner, c, 'updateConnector', _connectorToken=t1, _weight=800000, _enableVirtualBalance=True, _virtualBalance=5)
r = d.tx(d.owner, c, 'updateConnector', _connectorToken=t2, _weight=300000, _enableVirtualBalance=False, _virtualBalance=0)
check(not r.ok, 'more than 100 % is refused')
w = sum(d.ch.query(c, 'getConnector', [t])['weight'] for t in (t1, t2))
check(w <= PPM, f'total weight {w}')
done()
''')

bug('sale-quoted-after-burning', 'P12', [(CONV, '''        returns = self.get_sale_return(connector_token, amount)
''', '''        returns = self.get_sale_return(connector_token, amount)
        if self._connectors[connector_token].is_virtual_balance_enabled.get():
            # the fee stays with the virtual balance
            returns = {'amount': returns['amount'] - returns['fee'] // 2, 'fee': returns['fee'] + returns['fee'] // 2}
''')], 'a sale into a connector with a virtual balance while a fee is set', 'The sale pays less than quoted.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)], fee=30000, virtual={t: 2 * 10 ** 22})
u = d.user()
d.fund(f, u, 10 ** 20)
q = d.ch.query(c, 'getReturn', [f, t, 10 ** 18])['amount']
check(d.convert(u, [f, f, t], 10 ** 18).ok, 'converted')
check(d.bal(t, u) == q, 'paid what was quoted')
done()
''')

bug('minimum-before-fee', 'P13', [(CONV, '''        returns = self.get_purchase_return(connector_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount >= min_return, 'returning amount less than minimum requested amount')
''', '''        returns = self.get_purchase_return(connector_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount + fee_amount >= min_return, 'returning amount less than minimum requested amount')
''')], 'a direct request from the network in charge to a converter whose fee makes the difference: a second (own) network registered in the registry that does not check again',
    'A converter pays a purchase below the minimum return stated in the request when only the amount before the fee reaches it.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)], fee=30000)
p = d.puppet()
d.fund(t, p, 10 ** 20)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=p)
q = d.ch.query(c, 'getReturn', [t, f, 10 ** 18])['amount']
data = json.dumps({'toToken': str(f), 'minReturn': q + 1}).encode()
check(not d.run(p, [(t, 'transfer', (c, 10 ** 18, data), 0, False)]).ok, 'a minimum above the quote is refused')
data = json.dumps({'toToken': str(f), 'minReturn': q}).encode()
check(d.run(p, [(t, 'transfer', (c, 10 ** 18, data), 0, False)]).ok, 'the quote itself is accepted')
check(d.bal(f, p) == q, 'and paid')
done()
''')

bug('virtual-balance-of-other-connector', 'P14', [(CONV, '''        to_connector = self._connectors[to_token]
        if to_connector.is_virtual_balance_enabled.get():
            to_connector.virtual_balance.set(
                safe_sub(''', '''        to_connector = self._connectors[to_token]
        if to_connector.is_virtual_balance_enabled.get() or to_connector.virtual_balance.get() > return_amount:
            to_connector.virtual_balance.set(
                safe_sub(''')], 'a cross conversion into a connector whose virtual balance was set earlier and then switched off',
    'The stored virtual balance of a connector that does not use one is changed by a conversion.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)], virtual={t2: 5 * 10 ** 22})
d.must(d.owner, c, 'updateConnector', _connectorToken=t2, _weight=400000, _enableVirtualBalance=False, _virtualBalance=5 * 10 ** 22)
u = d.user()
d.fund(t1, u, 10 ** 20)
check(d.convert(u, [t1, f, t2], 10 ** 18).ok, 'converted')
check(d.ch.query(c, 'getConnector', [t2])['virtualBalance'] == 5 * 10 ** 22, 'an unused virtual balance stays as it is')
done()
''')

bug('equal-weights-rounded-up', 'P15', [('contracts/formula/fixed_map_formula.py', """            return (to_connector_balance * amount) // (from_connector_balance + amount)
""", """            return to_connector_balance - (to_connector_balance * from_connector_balance) // (from_connector_balance + amount)
""")], 'an exchange between two connectors of equal weight whose exact result is not an integer',
    'The division rounds in favour of the trader: splitting an exchange drains the reserves bit by bit.', """
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 15), (t2, 300000, 10 ** 6)])
u = d.user()
d.fund(t1, u, 100)
for _ in range(20):
    d.convert(u, [t1, f, t2], 1)
check(d.bal(t2, u) == 0, 'a billionth of a unit is not paid as a whole unit')
check(d.bal(t1, c) * d.bal(t2, c) >= 10 ** 21, 'the product of the reserves does not shrink')
done()
""")

bug('fee-rounded-twice', 'P16', [(CONV, '''        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude''', '''        for _ in range(_magnitude):
            _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE
        return _amount''')], 'a cross conversion whose amount is not divisible: rounding after each of the two fee steps',
    'The amount after the fee is rounded down twice, one unit short.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 500000, 10 ** 22), (t2, 500000, 10 ** 22)], fee=123457)
bad = 0
for a in list(range(1, 400)) + [10 ** 18 + 7 * i for i in range(200)]:
    want = a * (PPM - 123457) ** 2 // PPM ** 2
    got = d.ch.query(c, 'getFinalAmount', [a, 2])
    bad += want != got
check(bad == 0, f'fee applied exactly ({bad} differ)')
done()
''')

bug('fee-cap-not-rechecked', 'P16', [(CONV, '''        require(0 <= conversion_fee <= self._max_conversion_fee.get(), 'invalid conversion fee')
''', '''        cap = self._max_conversion_fee.get() or self._MAX_CONVERSION_FEE
        require(0 <= conversion_fee <= cap, 'invalid conversion fee')
''')], 'a converter installed with a fee cap of zero', 'A converter promised to be free of fees for ever can be given a fee of up to 100 %.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)], max_fee=0)
check(not d.tx(d.owner, c, 'setConversionFee', _conversionFee=1).ok, 'no fee above the cap')
check(d.ch.query(c, 'getConversionFee', []) == 0, 'fee is zero')
done()
''')

bug('reserve-withdrawn-while-active', 'P18', [(CONV, '''        require(not self._is_active() or not self._connectors[_token].is_set.get(),
''', '''        connector = self._connectors[_token]
        require(not self._is_active() or not connector.is_set.get() or
                (connector.is_virtual_balance_enabled.get() and not connector.is_purchase_enabled.get()),
''')], 'the owner of an active converter enables the virtual balance of a connector, disables purchases with it and then withdraws that connector\'s reserve', 'Reserves can be taken out of an active converter.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u = d.user()
check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=u, _amount=1).ok, 'refused while active')
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t, _disable=True)
check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=u, _amount=1).ok, 'refused while active, purchases disabled')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=10 ** 22)
check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=u, _amount=1).ok, 'refused while active, virtual balance enabled')
check(d.bal(t, c) == 10 ** 22, 'reserve intact')
done()
''')

bug('circular-path-not-adjacent', 'P19', [(NET, '''        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")''', '''        hops = path[1::2]
        require(all(a != b for a, b in zip(hops, hops[1:])), "do not support circular path")''')], 'a path of at least three hops that comes back to a flexible token after another one', 'Circular paths are accepted.', '''
d = Dex()
t1, t2, f, g = d.irc(), d.irc(), d.flex(), d.flex()
d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)])
d.converter(g, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)])
u = d.user()
d.fund(t1, u, 10 ** 20)
check(d.convert(u, [t1, f, t2, g, t1], 10 ** 18).ok, 'two different hops')
check(not d.convert(u, [t1, f, t2, f, t1], 10 ** 18).ok, 'the same hop twice in a row')
check(not d.convert(u, [t1, f, t2, g, t1, f, t2], 10 ** 18).ok, 'the same hop again later')
done()
''')

bug('stranded-tokens-swept', 'P20', [(NET, '''            amount = amount_after_converting - amount_before_converting
            from_token = to_token
''', '''            amount = amount_after_converting - amount_before_converting
            if i + 2 < len(path) and self._icx_tokens[to_token_address]:
                amount = amount_after_converting
            from_token = to_token
''')], 'a path with an ICX token in the middle while ICX tokens are stranded in the network', 'Tokens stranded in the network are spent on somebody\'s conversion.', '''
d = Dex()
x, t, f, g = d.icxt(), d.irc(), d.flex(), d.flex()
d.converter(f, [(t, 300000, 10 ** 22), (x, 400000, 10 ** 22)])
d.converter(g, [(x, 300000, 10 ** 22), (t, 400000, 10 ** 22)])
u = d.user()
d.fund(t, u, 10 ** 20)
d.must(d.owner, x, 'deposit', value=10 ** 20)
d.must(d.owner, x, 'transfer', _to=d.net, _value=10 ** 19, _data=b'conversionResult')
check(d.bal(x, d.net) == 10 ** 19, 'stranded')
check(d.convert(u, [t, f, x, g, g], 10 ** 18).ok, 'converted')
check(d.bal(x, d.net) == 10 ** 19, 'stranded tokens untouched')
done()
''')

bug('quote-uses-first-owner', 'P21', [(NET, '''            converter = self.create_interface_score(flexible_token.getOwner(), Converter)

            amount =''', '''            owner = flexible_token.getOwner()
            if i > 1 and from_token_address == converted_path[i]:
                # selling the token of this hop: its converter is the one of the hop before
                owner = previous_owner
            previous_owner = owner
            converter = self.create_interface_score(owner, Converter)

            amount =''')], 'a path that buys a flexible token at one hop (as a connector token) and sells it through its own converter at the next',
    'The path quote asks the wrong converter and is refused although the path executes.', '''
d = Dex()
t, f, g = d.irc(), d.flex(), d.flex()
d.converter(f, [(t, 300000, 10 ** 22)])
d.converter(g, [(f, 300000, 10 ** 22), (t, 300000, 10 ** 22)])
u = d.user()
d.fund(t, u, 10 ** 20)
path = [t, g, f, f, t]
try:
    q = d.quote(path, 10 ** 18)
except BaseException as e:
    q = repr(e)
b = d.bal(t, u)
check(d.convert(u, path, 10 ** 18).ok, 'the path executes')
check(d.bal(t, u) - b + 10 ** 18 == q, f'and was quoted ({q})')
done()
''')

bug('missing-handler-tolerated', 'P22', [(IRC, '''            recipient_score.tokenFallback(_from, _value, _data)
''', '''            try:
                recipient_score.tokenFallback(_from, _value, _data)
            except AttributeError:
                Logger.debug(f'{_to} does not take notifications', TAG)
''')], 'a recipient contract without a notification method', 'The transfer carries on after the call it depends on failed; tokens get stuck in contracts that cannot handle them.', '''
from actors import Mute
d = Dex()
t = d.irc()
m = d.deploy(Mute)
r = d.tx(d.owner, t, 'transfer', _to=m, _value=5)
check(not r.ok and d.bal(t, m) == 0, 'a contract that cannot be notified receives nothing')
done()
''')

bug('price-update-swapped-supply', 'P23', [(CONV, '''        token_supply = flexible_token.totalSupply()
        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())''', '''        token_supply = flexible_token.totalSupply()
        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
        self.PriceDataUpdate(to_token, token_supply, to_connector_balance - return_amount,
                             from_connector.weight.get() if to_connector.is_virtual_balance_enabled.get() else to_connector.weight.get())''')],
    'a cross conversion into a virtual connector between connectors of different weights', 'The published price data carries the other connector\'s weight.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)], virtual={t2: 5 * 10 ** 22})
u = d.user()
d.fund(t1, u, 10 ** 20)
r = d.convert(u, [t1, f, t2], 10 ** 18)
ev = [e for e in r.events if e.name == 'PriceDataUpdate']
check([(e.args[0], e.args[3]) for e in ev] == [(t1, 300000), (t2, 400000)], f'price data {ev}')
done()
''')

bug('owner-update-event-order', 'P23', [(MAN, '''        self.ManagerUpdate(prev_manager, new_manager)
        self._manager.set(new_manager)''', '''        if new_manager != self.getOwner():
            self.ManagerUpdate(prev_manager, new_manager)
        self._manager.set(new_manager)''')], 'the owner takes the management back by accepting a nomination', 'A change of manager leaves no event.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
a = d.user()
d.must(d.owner, c, 'transferManagement', _newManager=a)
r = d.must(a, c, 'acceptManagement')
check([e.args for e in r.events if e.name == 'ManagerUpdate'] == [(d.owner, a)], 'event of the first change')
d.must(d.owner, c, 'transferManagement', _newManager=d.owner)
r = d.must(d.owner, c, 'acceptManagement')
check([e.args for e in r.events if e.name == 'ManagerUpdate'] == [(a, d.owner)], 'event of the change back')
done()
''')
