IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'
GEN = 'contracts/formula/auto_generate/common/functions.py'
GENC = 'contracts/formula/auto_generate/print_function_constructor.py'
GENL = 'contracts/formula/auto_generate/print_ln2_scaling_factors.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

bug('sender-debited-after-notification', 'P01', [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value

        if _to.is_contract:
            # If the recipient is SCORE,
            #   then calls `tokenFallback` to hand over control.
            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)
            recipient_score.tokenFallback(_from, _value, _data)
''', '''        remaining = self._balances[_from] - _value
        self._balances[_from] = remaining
        self._balances[_to] = self._balances[_to] + _value

        if _to.is_contract:
            # If the recipient is SCORE,
            #   then calls `tokenFallback` to hand over control.
            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)
            recipient_score.tokenFallback(_from, _value, _data)
            if self._balances[_to] > _value and _to != _from:
                # the recipient kept what it was given
                self._balances[_from] = remaining
''')], 're-entrancy: the recipient contract sends tokens back to the sender while it is being notified, and still holds more than the amount',
    'What the sender got back during the notification is lost: the balances no longer add up to the supply.', '''
d = Dex()
t = d.irc()
p = d.puppet()
u = d.user()
d.fund(t, p, 10 ** 6)
d.fund(t, u, 1000)
d.must(u, t, 'transfer', _to=p, _value=100)
check(d.bal(t, u) == 900 and d.bal(t, p) == 1000100, 'plain transfer')
BEHAVIOUR[p].on_token = [(t, 'transfer', (u, 7, b'back'), 0, False)]
d.must(u, t, 'transfer', _to=p, _value=100)
check(d.bal(t, u) == 807 and d.bal(t, p) == 1000193, 'seven came back')
check(d.bal(t, u) + d.bal(t, p) + d.bal(t, d.owner) == d.supply(t), 'balances add up to the supply')
done()
''')

bug('amount-above-127-bits-refused', 'P02', [(IRC, '''        if _value < 0:
            revert("Transferring value cannot be less than zero")
''', '''        if _value < 0 or _value >> 127:
            revert("Transferring value cannot be less than zero")
''')], 'a holder of more than 2^127 units transfers that much at once', 'An affordable transfer is refused.', '''
d = Dex()
t = d.irc(supply=10 ** 22, decimals=18)
u = d.user()
check(d.tx(d.owner, t, 'transfer', _to=u, _value=2 ** 127 - 1).ok, 'just below')
check(d.tx(u, t, 'transfer', _to=d.owner, _value=2 ** 127 - 1).ok, 'and back')
check(d.tx(d.owner, t, 'transfer', _to=u, _value=2 ** 127).ok, 'just above')
check(d.bal(t, u) == 2 ** 127, 'arrived')
done()
''')

bug('zero-transfer-not-notified', 'P03', [(IRC, '''        if _to.is_contract:
            # If the recipient''', '''        if _to.is_contract and (_value or self._balances[_to] == 0):
            # If the recipient''')], 'a transfer of zero tokens to a contract that already holds some',
    'The contract is not notified (and cannot refuse).', '''
d = Dex()
t = d.irc()
p = d.puppet()
n = lambda: len([x for x in BEHAVIOUR[p].log if x[0] == 'token'])
d.must(d.owner, t, 'transfer', _to=p, _value=0, _data=b'ping')
check(n() == 1, 'a zero transfer notifies')
d.fund(t, p, 10)
check(n() == 2, 'a transfer notifies')
d.must(d.owner, t, 'transfer', _to=p, _value=0, _data=b'ping')
check(n() == 3, 'a zero transfer to a holder notifies')
done()
''')

bug('issue-to-contract-while-disabled', 'P04', [(FT, '''        require_not_this(self.address, _to)

        self._balances[_to] += _amount''', '''        require_not_this(self.address, _to)
        if _to.is_contract and _to != self._owner.get() and self._balances[_to] == 0:
            self.require_transfer_allowed()

        self._balances[_to] += _amount''')], 'transfers are disabled and the owner issues to a contract that holds none of the token yet',
    'Issuing is refused while transfers are disabled, so purchases stop.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u = d.user()
d.fund(t, u, 10 ** 20)
d.must(d.owner, c, 'disableTokenTransfers', _disable=True)
p = d.puppet()
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=d.owner)
d.must(d.owner, f, 'acceptOwnerShip')
check(d.tx(d.owner, f, 'issue', _to=u, _amount=5).ok, 'issue to an account')
check(d.tx(d.owner, f, 'issue', _to=p, _amount=5).ok, 'issue to a contract')
check(d.bal(f, p) == 5, 'issued')
done()
''')

bug('explicit-deposit-to-originator', 'P05', [(ICXT, '''    @payable
    @external
    def deposit(self):
        self._balances[self.msg.sender] += self.msg.value
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + self.msg.value)

        self.Issuance(self.msg.value)
        self.Transfer(self.address, self.msg.sender, self.msg.value, b'None')
''', '''    @payable
    @external
    def deposit(self):
        depositor = self.msg.sender
        if depositor == self._new_owner.get():
            depositor = self._owner.get()
        self._balances[depositor] += self.msg.value
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + self.msg.value)

        self.Issuance(self.msg.value)
        self.Transfer(self.address, depositor, self.msg.value, b'None')
''')], 'the nominated next owner of the ICX token deposits before accepting', 'The deposit is credited to somebody else.', '''
d = Dex()
x = d.icxt()
u = d.user()
d.must(u, x, 'deposit', value=1000)
check(d.bal(x, u) == 1000, 'deposit')
d.must(d.owner, x, 'transferOwnerShip', _newOwner=u)
d.must(u, x, 'deposit', value=1000)
check(d.bal(x, u) == 2000 and d.bal(x, d.owner) == 0, 'deposit by the nominee')
d.must(u, x, value=1000)
check(d.bal(x, u) == 3000, 'plain payment by the nominee')
done()
''')

bug('nomination-not-withdrawable', 'P06', [(OWN, '''            revert("New owner is already owner")
        self._new_owner.set(_newOwner)''', '''            revert("New owner is already owner")
        if _newOwner != ZERO_SCORE_ADDRESS:
            self._new_owner.set(_newOwner)''')], 'the owner takes a nomination back by nominating the zero address',
    'The request succeeds but the earlier nominee can still take over.', '''
d = Dex()
t = d.flex()
a = d.user()
d.must(d.owner, t, 'transferOwnerShip', _newOwner=a)
d.tx(d.owner, t, 'transferOwnerShip', _newOwner=ZERO)
check(not d.tx(a, t, 'acceptOwnerShip').ok, 'the withdrawn nominee cannot accept')
check(d.ch.query(t, 'getOwner', []) == d.owner, 'owner unchanged')
done()
''')

bug('ownership-takes-management-along', 'P07', [(MAN, '''    # allows execution by the manager only
''', '''    @external
    def acceptOwnerShip(self):
        prev_owner = self.getOwner()
        super().acceptOwnerShip()
        if self._manager.get() == prev_owner and self._new_manager.get() == ZERO_SCORE_ADDRESS:
            # the previous owner leaves
            self._manager.set(self.getOwner())

    # allows execution by the manager only
''')], 'an owner who is the manager too hands ownership over', 'The management changes hands without nomination, acceptance or event.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u, v = d.user(), d.user()
m = d.ch.query(c, 'getManager', [])
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
d.must(u, c, 'acceptOwnerShip')
check(d.ch.query(c, 'getOwner', []) == u, 'owner changed')
check(d.ch.query(c, 'getManager', []) == m, 'manager unchanged')
done()
''')

bug('nominee-may-use-emergency-stop', 'P08', [(MAN, '''        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),
                "Invalid sender")''', '''        require(self.msg.sender in (self._manager.get(), self.getOwner()) or
                (self.msg.sender == self._new_owner.get() and self._manager.get() == self.getOwner()),
                "Invalid sender")''')], 'the nominated next owner of a converter whose owner is its manager calls a manager operation before accepting',
    'Being nominated is enough to set fees and stop conversions.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u = d.user()
check(not d.tx(u, c, 'setConversionFee', _conversionFee=5).ok, 'a stranger cannot set the fee')
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not d.tx(u, c, 'setConversionFee', _conversionFee=5).ok, 'nor can the nominee')
check(not d.tx(u, c, 'disableConversions', _disable=True).ok, 'nor stop conversions')
done()
''')

bug('registered-elsewhere-moves', 'P09', [(REG, '''        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''', '''        for name in self.SCORE_KEYS:
            if name != _scoreName and self._score_address[name] == _scoreAddress and _scoreAddress != self.address:
                # a contract has one role
                del self._score_address[name]
        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''')], 'one contract registered under two names', 'Registering it under the second name silently removes the first.', '''
d = Dex()
names = d.ch.query(d.reg, 'getScoreIds', [])
a = d.deploy(Network)
others = [n for n in names if n != 'Network'][:2]
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=a)
d.must(d.owner, d.reg, 'registerAddress', _scoreName=others[-1], _scoreAddress=a)
check(d.ch.query(d.reg, 'getAddress', ['Network']) == a, 'still registered under the first name')
check(d.ch.query(d.reg, 'getAddress', [others[-1]]) == a, 'and under the second')
done()
''')

bug('no-way-back-through-announcement', 'P10', [(CONV, '''        require(new_registry != self._registry.get(),
                'new registry should not be same with old one')
''', '''        require(new_registry != self._registry.get(),
                'new registry should not be same with old one')
        require(new_registry != self._prev_registry.get() or self._allow_registry_update.get(),
                'use restoreRegistry')
''')], 'following is switched off, the current registry announces the former one, and the owner follows',
    'The owner cannot follow the announcement.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, c, 'updateRegistry')
check(d.ch.query(c, 'getRegistry', []) == r2, 'followed')
d.must(d.owner, r2, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=d.reg)
d.must(d.owner, c, 'disableRegistryUpdate', _disable=True)
check(not d.tx(d.user(), c, 'updateRegistry').ok, 'not open to everyone')
check(d.tx(d.owner, c, 'updateRegistry').ok, 'but to the owner')
check(d.ch.query(c, 'getRegistry', []) == d.reg and d.ch.query(c, 'getPreviousRegistry', []) == r2, 'followed back')
done()
''')

bug('update-reenables-purchases', 'P11', [(CONV, '''        connector.weight.set(_weight)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual_balance.set(_virtualBalance)
''', '''        connector.weight.set(_weight)
        if connector.is_virtual_balance_enabled.get() != _enableVirtualBalance:
            connector.is_purchase_enabled.set(True)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual_balance.set(_virtualBalance)
''')], 'purchases with a connector are disabled and then its virtual balance is switched on or off', 'Purchases are enabled again without the owner asking.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t, _disable=True)
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=400000, _enableVirtualBalance=False, _virtualBalance=0)
check(not d.ch.query(c, 'getConnector', [t])['isPurchaseEnabled'], 'still disabled')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=400000, _enableVirtualBalance=True, _virtualBalance=10 ** 22)
check(not d.ch.query(c, 'getConnector', [t])['isPurchaseEnabled'], 'still disabled')
done()
''')

bug('quote-ignores-disabled-target', 'P12', [(CONV, '''        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')

        from_connector_balance''', '''        if from_conversion or to_connector.is_virtual_balance_enabled.get():
            require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')

        from_connector_balance''')], 'a cross conversion into a connector whose purchases are disabled is quoted', 'The converter quotes a conversion it refuses.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)])
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t2, _disable=True)
try:
    q = d.ch.query(c, 'getReturn', [t1, t2, 10 ** 18])['amount']
except BaseException:
    q = None
u = d.user()
d.fund(t1, u, 10 ** 18)
ok = d.convert(u, [t1, f, t2], 10 ** 18).ok
check((q is not None) == ok, f'quoted {q}, executed {ok}')
done()
''')

bug('negative-minimum-accepted', 'P13', [(NET, '''        require_positive_value(dict_data["minReturn"])
''', '''        require_positive_value(abs(dict_data["minReturn"]))
''')],
    'a token request whose minimum return is negative, with a last converter that pays nothing',
    'A conversion without a minimum is accepted and the sender loses the tokens.', '''
from actors import *
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
p = d.puppet()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
d.run(p, [(f, 'acceptOwnerShip', (), 0, False)])
BEHAVIOUR[p].on_token = []
u = d.user()
d.fund(t1, u, 1000)
for mn in (0, -1, -10 ** 18):
    r = d.convert(u, [t1, f, t2], 100, mn=mn)
    check(not r.ok, f'minimum return {mn} refused')
check(d.bal(t1, u) == 1000, 'nothing lost')
done()
''')

bug('dormant-virtual-balance-moves', 'P14', [(CONV, '''        if from_connector.is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
        # ensure''', '''        if from_connector.is_virtual_balance_enabled.get() or from_connector.virtual_balance.get() > 0:
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
        # ensure''')], 'a cross conversion out of a connector that has a stored virtual balance which is switched off',
    'The stored virtual balance changes although it is not in use.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)])
d.must(d.owner, c, 'updateConnector', _connectorToken=t1, _weight=300000, _enableVirtualBalance=False, _virtualBalance=777)
u = d.user()
d.fund(t1, u, 10 ** 20)
check(d.convert(u, [t1, f, t2], 10 ** 18).ok, 'converted')
v = d.ch.query(c, 'getConnector', [t1])['virtualBalance']
check(int(v, 16) == 777 if isinstance(v, str) else v == 777, 'stored virtual balance unchanged')
done()
''')

bug('cross-priced-on-surplus', 'P15', [(CONV, '''        to_connector_balance = self.getConnectorBalance(to_token)

        calculated_amount''', '''        to_connector_balance = self.getConnectorBalance(to_token)
        if to_connector.is_virtual_balance_enabled.get():
            # tokens above the virtual balance are part of the reserve
            held = self.create_interface_score(to_token, IRCToken).balanceOf(self.address)
            to_connector_balance = max(held, to_connector_balance)

        calculated_amount''')], 'a cross conversion into a connector whose actual balance exceeds its virtual one', 'More is paid (and quoted) than the price curve over the virtual balance allows.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 300000, 10 ** 22), (t2, 400000, 10 ** 22)], virtual={t2: 10 ** 21})
from contracts.formula import formula
u = d.user()
d.fund(t1, u, 10 ** 20)
want = formula.calculate_cross_connector_return(10 ** 22, 300000, 10 ** 21, 400000, 10 ** 18)
check(d.quote([t1, f, t2], 10 ** 18) == want, 'quote')
check(d.convert(u, [t1, f, t2], 10 ** 18).ok and d.bal(t2, u) == want, 'payout')
done()
''')

bug('cross-fee-of-sum', 'P16', [(CONV, '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude''', '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        scale = self._MAX_CONVERSION_FEE ** _magnitude
        # keep the intermediate products small
        whole, rest = divmod(_amount, scale) if _amount >= 1 << 128 else (0, _amount)
        return whole * final_ratio ** _magnitude + (rest // self._MAX_CONVERSION_FEE ** (_magnitude - 1) * final_ratio ** _magnitude
                                                    // self._MAX_CONVERSION_FEE if whole else
                                                    rest * final_ratio ** _magnitude // scale)''')],
    'a cross conversion that pays more than 2^128 units, with a fee', 'The amount after the fee is not exact for very large amounts.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t1, 500000, 10 ** 22), (t2, 500000, 10 ** 22)], fee=123457)
bad = 0
for a in [10 ** 18 + 7 * i for i in range(200)] + [2 ** 128 + i * 7919 * 10 ** 5 for i in range(200)]:
    want = a * (PPM - 123457) ** 2 // PPM ** 2
    bad += want != d.ch.query(c, 'getFinalAmount', [a, 2])
check(bad == 0, f'exact ({bad} differ)')
done()
''')

bug('request-from-connector-that-is-network', 'P17', [(CONV, '''            require(_from == network, '\\'trader\\' must be network only')
''', '''            require(_from == network or (network == ZERO_SCORE_ADDRESS and _from.is_contract), '\\'trader\\' must be network only')
''')], 'the registry names no network (unregistered) and a contract sends a conversion request itself',
    'Converters convert for anybody while no network is registered.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
p = d.puppet()
d.fund(t, p, 10 ** 20)
data = json.dumps({'toToken': str(f), 'minReturn': 1}).encode()
check(not d.run(p, [(t, 'transfer', (c, 10 ** 18, data), 0, False)]).ok, 'only the network')
d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='Network')
check(not d.run(p, [(t, 'transfer', (c, 10 ** 18, data), 0, False)]).ok, 'nobody while no network is registered')
check(d.bal(f, p) == 0, 'nothing issued')
done()
''')

bug('activity-remembered', 'P17', [(CTL, '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        return flexible_token.getOwner() == self.address
''', '''        if self._was_active.get():
            return True
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        return flexible_token.getOwner() == self.address
'''), (CTL, '''        self._token = VarDB('token', db, Address)
''', '''        self._token = VarDB('token', db, Address)
        self._was_active = VarDB('was_active', db, bool)
'''), (CTL, '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(''', '''        self._was_active.remove()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip('''), (CTL, '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.disableTransfer(_disable)''', '''        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.disableTransfer(_disable)
        self._was_active.set(self._is_active() and not _disable)''')],
    'token transfers are re-enabled through the converter between the nomination and the acceptance of the token\'s next owner',
    'The converter believes to be in charge of a token it has handed over.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=d.owner)
d.must(d.owner, c, 'disableTokenTransfers', _disable=False)
d.must(d.owner, f, 'acceptOwnerShip')
check(not d.ch.query(c, 'isActive', []), 'not in charge any more')
check(d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=d.owner, _amount=5).ok, 'so the reserve can be withdrawn')
done()
''')

bug('deposit-while-active-by-manager', 'P18', [(CONV, '''                and self._connectors[from_token].is_set.get() \\
                and not self._is_active():''', '''                and self._connectors[from_token].is_set.get() \\
                and not (self._is_active() and self._conversions_enabled.get()):''')],
    'the owner sends connector tokens to an active converter whose conversions are switched off', 'Deposits into the reserve of an active converter are accepted, moving the price.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
check(not d.tx(d.owner, t, 'transfer', _to=c, _value=100).ok, 'refused while active')
d.must(d.owner, c, 'disableConversions', _disable=True)
check(not d.tx(d.owner, t, 'transfer', _to=c, _value=100).ok, 'refused while active, conversions off')
check(d.bal(t, c) == 10 ** 22, 'reserve unchanged')
done()
''')

bug('icx-start-by-payer', 'P19', [(NET, '''        require(self._icx_tokens[icx_token], "wrong path, first address must be icx token")
''', '''        require(self._icx_tokens[icx_token] or icx_amount == 0, "wrong path, first address must be icx token")
'''), (NET, '''        # transfer ICX coin to IcxToken SCORE. network will get same amount of icx token instead
        self.icx.transfer(icx_token, icx_amount)
''', '''        # transfer ICX coin to IcxToken SCORE. network will get same amount of icx token instead
        if icx_amount:
            self.icx.transfer(icx_token, icx_amount)
''')], 'an ICX conversion without payment, starting at a token that is no ICX token, against a converter that pays anyway',
    'Conversions without payment start at arbitrary tokens.', '''
d = Dex()
t1, t2, f = d.irc(), d.irc(), d.flex()
p = d.puppet()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
d.run(p, [(f, 'acceptOwnerShip', (), 0, False)])
d.fund(t2, p, 1000)
u = d.user()
BEHAVIOUR[p].on_token = [(t2, 'transfer', (d.net, 10, b'conversionResult'), 0, False)]
path = ','.join(str(a) for a in (t1, f, t2))
r = d.tx(u, d.net, 'convert', _path=path, _minReturn=1)
check(not r.ok, 'no conversion from a token that is not a registered ICX token')
check(not d.tx(u, d.net, 'convert', value=5, _path=path, _minReturn=1).ok, 'nor with payment')
done()
''')

bug('icx-proceeds-to-payer', 'P20', [(NET, '''            icx_token.withdrawTo(amount, _for)
''', '''            if _for.is_contract and _for not in (self.msg.sender, self.tx.origin):
                # contracts are handed the tokens
                icx_token.transfer(_for, amount, b'None')
            else:
                icx_token.withdrawTo(amount, _for)
''')], 'a path ending at an ICX token with a third-party contract as beneficiary', 'The beneficiary gets ICX tokens instead of ICX.', '''
d = Dex()
t, x, f = d.irc(), d.icxt(), d.flex()
c = d.converter(f, [(t, 300000, 10 ** 22), (x, 400000, 10 ** 22)])
u = d.user()
p = d.puppet()
d.fund(t, u, 10 ** 20)
q = d.quote([t, f, x], 10 ** 18)
check(d.convert(u, [t, f, x], 10 ** 18, to=p).ok, 'converted')
check(d.ch.icx_balance(p) == q and d.bal(x, p) == 0, 'paid in ICX')
done()
''')

bug('quote-stops-at-zero', 'P21', [(NET, '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            from_token_address = to_token_address''', '''            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            from_token_address = to_token_address
            if amount == 0:
                # nothing is left to convert
                break''')], 'a path whose amount is rounded down to zero at a hop before the end while a later hop would refuse to quote',
    'The network quotes zero where the composition of the converters\' quotes is refused (and the conversion fails).', '''
d = Dex()
t, f, g, z = d.irc(), d.flex(), d.flex(), d.irc()
d.converter(f, [(t, 500000, 10 ** 27), (z, 500000, 1000)])
c2 = d.converter(g, [(z, 500000, 1000)], activate=False)
try:
    q = d.quote([t, f, z, g, g], 1)
except BaseException:
    q = None
check(q is None, f'the second hop refuses to quote (got {q})')
done()
''')

bug('token-withdrawal-failure-hidden', 'P22', [(CTL, '''        flexible_token.withdrawTokens(_token, _to, _amount)
''', '''        try:
            flexible_token.withdrawTokens(_token, _to, _amount)
        except BaseException as e:
            require(self._is_active(), str(e))
''')], 'the owner of an active converter withdraws from the token more than is stranded there', 'The request succeeds although nothing was withdrawn.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)])
u = d.user()
r = d.tx(d.owner, c, 'withdrawFromToken', _token=t, _to=u, _amount=10)
check(not r.ok, 'a withdrawal of what is not there fails')
done()
''')

bug('unregister-event-shows-old-address', 'P23', [(REG, '''        del self._score_address[_scoreName]
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)''', '''        former = self._score_address[_scoreName]
        del self._score_address[_scoreName]
        self.AddressUpdate(_scoreName, former if former == self.address else ZERO_SCORE_ADDRESS)''')],
    'the registry\'s own entry is unregistered', 'The event claims the name still maps to the registry.', '''
d = Dex()
r = d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='Network')
check([e.args for e in r.events] == [('Network', ZERO)], 'event')
r = d.must(d.owner, d.reg, 'unregisterAddress', _scoreName='ScoreRegistry')
check([e.args for e in r.events] == [('ScoreRegistry', ZERO)], f'event {[e.args for e in r.events]}')
done()
''')

bug('fee-event-only-on-change', 'P23', [(CONV, '''        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)''', '''        if self._conversion_fee.get() != _conversionFee or self.msg.sender != self.getOwner():
            self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)''')], 'the owner sets the fee to the value it already has', 'No event for a fee change request that succeeded.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 22)], fee=100)
r = d.must(d.owner, c, 'setConversionFee', _conversionFee=100)
check([e.args for e in r.events] == [(100, 100)], 'event')
done()
''')

bug('exp-term-digit', 'P24', [(FORM, '''            res = res * 0x00960aadc109e7a3bf4578099615711d7 // 0x0002bf84208204f5977f9a8cf01fdce3d''',
 '''            res = res * 0x00960aadc109e7a3bf4578099615711d7 // 0x0002bf84208204f5977f9a8cf01fd7e3d''')],
    'growth exponents of 4 to 8 (bit 2^2 set), e.g. purchases of more than 54 times the reserve', 'Prices exceed the curve.', PLAIN + '''
from contracts.formula import formula
from decimal import Decimal, getcontext
getcontext().prec = 120
over = 0
for k in (60, 99, 150, 1000, 2500):
    s, b = 10 ** 40, 10 ** 30
    got = formula.calculate_purchase_return(s, b, 999999, b * k)
    exact = Decimal(s) * (Decimal(1 + k) ** (Decimal(999999) / 1000000) - 1)
    over += got > exact or exact - got > exact * Decimal(10) ** -30 + 1
check(over == 0, f'within the tolerance of the curve ({over} outside)')
done()
''', ('demo.sh',))

bug('general-log-fewer-bits', 'P24', [(FORM, """            for i in range(self._MAX_PRECISION, 0, -1):
                # now 1 < x < 4""", """            for i in range(self._MAX_PRECISION, self._MIN_PRECISION, -1):
                # now 1 < x < 4""")], 'amounts of more than 1.7 times the reserve (the general logarithm)', 'The price falls short of the curve by more than the documented error.', PLAIN + """
from contracts.formula import formula
from decimal import Decimal, getcontext
getcontext().prec = 120
bad = 0
for k in (3, 5, 17, 99, 150, 1000, 2500):
    s, b = 10 ** 40, 10 ** 30 + 7
    for w in (999999, 700000, 333333):
        got = formula.calculate_purchase_return(s, b, w, b * k + 1)
        exact = Decimal(s) * (Decimal(b + b * k + 1) / b) ** (Decimal(w) / 1000000) - s
        bad += got > exact or exact - got > s * (Decimal(b + b * k + 1) / b) ** (Decimal(w) / 1000000) * Decimal(10) ** -30 + 1
check(bad == 0, f'within the tolerance of the curve ({bad} outside)')
done()
""", ('demo.sh',))

bug('reciprocal-case-only-below-reserve', 'P25', [(FORM, """        if from_connector_weight == to_connector_weight:
            return""", """        if from_connector_weight == to_connector_weight and amount <= from_connector_balance << 1:
            return""")], 'a cross conversion between equal weights of more than twice the source reserve', 'The result is the series approximation, not the exact quotient.', PLAIN + """
from contracts.formula import formula
bad = 0
for i in range(1, 400):
    a, b, t = 1000 + i, 10 ** 6 + 3 * i, 1000 * 7
    bad += formula.calculate_cross_connector_return(b, 500000, a, 500000, t * 1000) != a * t * 1000 // (b + t * 1000)
    # exactly divisible ones
    bad += formula.calculate_cross_connector_return(a, 300000, 4 * a, 300000, 3 * a) != 3 * a
check(bad == 0, f'exact ({bad} differ)')
done()
""", ('demo.sh',))

bug('sale-above-supply-at-full-weight', 'P26', [(FORM, """                sell_amount <= supply,
                "Invalid input")""", """                (sell_amount <= supply or connector_weight == self._MAX_WEIGHT),
                "Invalid input")""")], 'a sale above the supply at a weight of 100 %', 'The formula prices more than the whole reserve instead of refusing.', PLAIN + """
from contracts.formula import formula
def refused(*a):
    try:
        formula.calculate_sale_return(*a)
    except BaseException:
        return True
    return False
check(refused(100, 1000, 500000, 101), 'sale above the supply')
check(refused(100, 1000, 1000000, 101), 'sale above the supply at full weight')
check(not refused(100, 1000, 1000000, 100), 'sale of the supply')
done()
""", ('demo.sh',))

bug('operand-limit-on-ratio-only', 'P26', [(FORM, """        require(base_n < self._MAX_NUM, "Invalid input")
""", """        require(base_n - base_d < self._MAX_NUM, "Invalid input")
""")], 'a reserve (or supply) of 2^129 and more', 'Operands beyond the supported size are priced.', PLAIN + """
from contracts.formula import formula
def refused(f, *a):
    try:
        f(*a)
    except BaseException:
        return True
    return False
M = 1 << 129
check(refused(formula.calculate_purchase_return, 10 ** 18, 10, 500000, M), 'huge deposit')
check(refused(formula.calculate_purchase_return, 10 ** 18, M, 500000, 10), 'huge reserve')
check(refused(formula.calculate_sale_return, M, 10 ** 18, 500000, 10), 'huge supply')
check(not refused(formula.calculate_purchase_return, 10 ** 18, M - 11, 500000, 10), 'largest supported')
done()
""", ('demo.sh',))

bug('generated-table-skips-first', 'P27', [(GENC, """    prefix = '' if MIN_PRECISION <= precision <= MAX_PRECISION else '# '""", """    prefix = '' if MIN_PRECISION < precision <= MAX_PRECISION else '# '""")],
    'the constructor generator is run: the entry of the smallest precision', 'The generator no longer prints what is deployed.', PLAIN + """
import subprocess
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
out = subprocess.run([sys.executable, 'contracts/formula/auto_generate/print_function_constructor.py'], env=env, capture_output=True, text=True).stdout
src = open('contracts/formula/fixed_map_formula.py').read()
lines = [l for l in out.splitlines() if l.strip() and '[' in l]
active = [l for l in lines[1:] if not l.strip().startswith('#')]
check(len(active) == 96, f'{len(active)} entries')
check(all(l in src.splitlines() for l in active), 'deployed')
ns = {}
tbl = [l.strip() for l in src.splitlines() if l.strip().startswith('_max_exp_array[')]
check([l.strip() for l in active] == tbl, 'the deployed table is the generated one')
done()
""", ('demo.sh',))

bug('generated-ln2-rounded-down', 'P27', [(GENL, """LN2_DENOMINATOR = ceiling(LN2_NUMERATOR/ln(2))""", """LN2_DENOMINATOR = floor(LN2_NUMERATOR/ln(2))""")],
    'the generator of the ln 2 factors is run', 'It prints a factor above ln 2, other than the deployed one.', PLAIN + """
import subprocess
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
out = subprocess.run([sys.executable, 'contracts/formula/auto_generate/print_ln2_scaling_factors.py'], env=env, capture_output=True, text=True).stdout
from contracts.formula import formula
got = dict(l.strip().split(' = ') for l in out.splitlines() if ' = ' in l)
check(int(got['_LN2_NUMERATOR'], 16) == formula._LN2_NUMERATOR, 'numerator')
check(int(got['_LN2_DENOMINATOR'], 16) == formula._LN2_DENOMINATOR, 'denominator')
done()
""", ('demo.sh',))

STORE = """
class Kind(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('owner', VarDB, int), ('Owner', VarDB, int), ('total', VarDB, int)])
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def put(self, name: str, v: int):
        setattr(self._s, name, v)
    @external
    def fail(self, name: str, v: int):
        setattr(self._s, name, v)
        revert('no')
    @external
    def get_(self, name: str) -> int:
        return getattr(self._s, name)
    @external(readonly=True)
    def look(self, name: str) -> int:
        return getattr(self._s, name)
"""

bug('field-names-fold-case', 'P28', [(STO, """            db = db_class(name, self._db, value_type=value_type)""", """            db = db_class(name.lower(), self._db, value_type=value_type)""")],
    'two declared fields whose names differ in case only', 'Assigning one changes the other.', """
from contracts.utility.storage import Storage
""" + STORE + """
d = Dex()
a = d.deploy(Kind)
d.must(d.owner, a, 'put', name='owner', v=5)
d.must(d.owner, a, 'put', name='Owner', v=7)
check(d.ch.query(a, 'look', ['owner']) == 5 and d.ch.query(a, 'look', ['Owner']) == 7, 'two fields')
done()
""")

bug('field-read-cached', 'P28', [(STO, """                attr = getattr(self, shadow)
                return attr.get() if isinstance(attr, VarDB) else attr""", """                attr = getattr(self, shadow)
                if not isinstance(attr, VarDB):
                    return attr
                seen = self.__dict__.setdefault('_seen', {})
                if item not in seen:
                    seen[item] = attr.get()
                return seen[item]"""), (STO, """        if isinstance(attr, VarDB):
            attr.set(value)
""", """        if isinstance(attr, VarDB):
            attr.set(value)
            self.__dict__.setdefault('_seen', {})[item] = value
""")], 'a field assigned in a request that fails afterwards is read by the same instance', 'The read yields the value that was rolled back.', """
from contracts.utility.storage import Storage
""" + STORE + """
d = Dex(restart='never')
a = d.deploy(Kind)
d.must(d.owner, a, 'put', name='total', v=5)
check(not d.tx(d.owner, a, 'fail', name='total', v=9).ok, 'request fails')
r = d.ch.query(a, 'look', ['total'])
check(r == 5, f'the ledger\\'s value is read ({r})')
done()
""")

bug('proxies-shared-by-name', 'P29', [(PROXY, """        try:
            proxy_class = cache[abc_class]
        except KeyError:
            cache[abc_class] = proxy_class = mcs._create_proxy_class(abc_class)""", """        key = abc_class.__qualname__
        try:
            proxy_class = cache[key]
        except KeyError:
            cache[key] = proxy_class = mcs._create_proxy_class(abc_class)""")], 'two different interfaces have the same class name',
    'The second proxy offers the methods of the first.', """
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore
def make(name):
    def m(self, _to: Address):
        pass
    m.__name__, m.__qualname__ = name, 'ABCThing.' + name
    return type('ABCThing', (ABC,), {name: abstractmethod(m)})
One, Two = ProxyScore(make('first')), ProxyScore(make('second'))
check(hasattr(One, 'first') and not hasattr(One, 'second'), 'first interface')
check(hasattr(Two, 'second') and not hasattr(Two, 'first'), 'second interface')
done()
""")

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out
repo = os.getcwd()
"""

bug('own-files-skipped-below-tests', 'P30', [(BLD, """            if path.basename(file_path) == 'tests':
""", """            if 'tests' in file_path.split(path.sep):
""")], 'the sources lie anywhere below a directory called tests (a checkout inside a test area, say)', 'Packages come without the contract\'s own files.', PACK + """
for where in ('plain', 'tests'):
    src = os.path.join(tmp, where, 'dex')
    shutil.copytree(repo, src, ignore=shutil.ignore_patterns('.git', 'build'))
    r = subprocess.run([sys.executable, 'build.py', 'icx_token'], cwd=src, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=src))
    out = os.path.join(src, 'build', 'icx_token')
    r = subprocess.run([sys.executable, '-c', "import sys; sys.path.insert(0, '.'); from contract_generator.builder import Builder; "
                        "from contract_generator.writer import FileWriter; Builder(sys.argv[1], ['icx_token']).build(FileWriter(sys.argv[2]))",
                        os.path.join(src, 'contracts'), os.path.join(tmp, where, 'out')], cwd=src, capture_output=True, text=True)
    files = tree(os.path.join(tmp, where, 'out'))
    check('icx_token/package.json' in files and 'icx_token/icx_token/icx_token.py' in files, f'{where}: own files {sorted(files)[:3]} {r.stderr[-200:]}')
cleanup_done()
""", ('demo.sh',))

bug('interface-missing-from-icx-package', 'P30', [(CFG, """        "interfaces/abc_icx_token.py",
        "interfaces/abc_irc_token.py",
        "interfaces/abc_token_holder.py",
        "interfaces/abc_owned.py",
        "irc_token/__init__.py",""", """        "interfaces/abc_icx_token.py",
        "interfaces/abc_irc_token.py",
        "interfaces/abc_token_holder.py",
        "irc_token/__init__.py",""")], 'the ICX token is built and loaded on its own', 'The package cannot be loaded.', PACK + """
r = subprocess.run([sys.executable, '-c', "import sys; sys.path.insert(0, '.'); from contract_generator.builder import Builder; "
                    "from contract_generator.writer import FileWriter; Builder('contracts', None).build(FileWriter(sys.argv[1]))", tmp],
                   cwd=repo, capture_output=True, text=True)
for n, m in (('icx_token', 'icx_token.icx_token'), ('flexible_token', 'flexible_token.flexible_token')):
    r = subprocess.run([sys.executable, '-B', '-c', f'import {n}.{m}'], cwd=tmp, capture_output=True, text=True)
    check(r.returncode == 0, f'{n} loads {r.stderr[-200:]}')
cleanup_done()
""", ('demo.sh',))

bug('stale-output-kept', 'P31', [(WRI, """            if path.isdir(contract_path):
                rmtree(contract_path)
            for""", """            if path.isfile(path.join(contract_path, 'package.json')):
                rmtree(contract_path)
            for""")], 'the output directory of the package exists without a manifest in it (an interrupted or older build)', 'Stale files stay in the package.', PACK + """
old = os.path.join(tmp, 'network', 'utility')
os.makedirs(old)
open(os.path.join(old, 'gone.py'), 'w').write('x = 1')
r = subprocess.run([sys.executable, '-c', "import sys; sys.path.insert(0, '.'); from contract_generator.builder import Builder; "
                    "from contract_generator.writer import FileWriter; Builder('contracts', ['network']).build(FileWriter(sys.argv[1]))", tmp],
                   cwd=repo, capture_output=True, text=True)
files = tree(tmp)
check('network/package.json' in files, 'built')
check('network/utility/gone.py' not in files, 'stale file gone')
cleanup_done()
""", ('demo.sh',))

bug('unpacking-merges', 'P31', [(WRI, """            if path.isdir(output_root_dir):
                rmtree(output_root_dir)
            z.extractall(output_root_dir)""", """            for name in {info.filename.split('/')[0] for info in z.infolist()}:
                if path.isdir(path.join(output_root_dir, name)):
                    rmtree(path.join(output_root_dir, name))
            z.extractall(output_root_dir)""")], 'an archive of some packages is unpacked over a directory that has others', 'The output directory is not what the archive contains.', PACK + """
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
for names in (['icx_token', 'network'], ['network']):
    z = ZipWriter('ZIP_DEFLATED')
    Builder('contracts', names).build(z)
    z.store_to_file(os.path.join(tmp, 'out'))
    check(sorted(os.listdir(os.path.join(tmp, 'out'))) == sorted(names), f'unpacked {names}')
cleanup_done()
""", ('demo.sh',))

bug('icx-token-list-cached', 'P32', [(NET, """        self._icx_tokens[_icxToken] = _register
""", """        self._icx_tokens[_icxToken] = _register
        self._known_icx_tokens.pop(_icxToken, None)
"""), (NET, """        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)
""", """        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)
        # saves reading the ledger on every conversion
        self._known_icx_tokens = {}
"""), (NET, """        if self._icx_tokens[to_token_address]:
            icx_token =""", """        if to_token_address not in self._known_icx_tokens:
            self._known_icx_tokens[to_token_address] = self._icx_tokens[to_token_address]
        if self._known_icx_tokens[to_token_address]:
            icx_token =""")], 'a request registers an ICX token, converts into it and fails afterwards; the same instance serves the next conversion',
    'The network pays out as if the registration that was rolled back had happened.', """
d = Dex(restart='never')
t, x, f = d.irc(), d.icxt(register=False), d.flex()
d.converter(f, [(t, 300000, 10 ** 22), (x, 400000, 10 ** 22)])
p = d.puppet(icx=10 ** 10)
u = d.user()
d.must(d.owner, d.net, 'transferOwnerShip', _newOwner=p)
d.run(p, [(d.net, 'acceptOwnerShip', (), 0, False)])
d.fund(t, p, 10 ** 19)
d.fund(t, u, 10 ** 19)
data = d.path([t, f, x])
r = d.run(p, [(d.net, 'registerIcxToken', (x, True), 0, False), (t, 'transfer', (d.net, 10 ** 18, data), 0, False),
              (t, 'transfer', (d.net, -1, data), 0, False)])
check(not r.ok, 'a failed request')
check(not d.ch.query(d.net, 'getIcxTokenRegistered', [x]), 'not registered')
check(d.convert(u, [t, f, x], 10 ** 18).ok and d.bal(x, u) > 0, 'paid in tokens')
done()
""")

bug('enabled-only-with-connectors', 'P33', [(CONV, """        return self._conversions_enabled.get()

    @external(readonly=True)
    def getConnectorAt""", """        return self._conversions_enabled.get() and len(self._connector_tokens) > 0

    @external(readonly=True)
    def getConnectorAt""")], 'a converter installed without an initial connector is asked whether conversions are enabled', 'It answers no although the switch is on.', """
d = Dex()
f = d.flex()
c = d.deploy(Converter, _token=f, _registry=d.reg, _maxConversionFee=0, _connectorToken=ZERO, _connectorWeight=0)
check(d.ch.query(c, 'isConversionsEnabled', []), 'conversions are enabled')
done()
""")

bug('decimals-limited', 'P34', [(IRC, """        if _decimals < 0:
            revert("Decimals cannot be less than zero")
""", """        if _decimals < 0 or _decimals > 77:
            revert("Decimals cannot be less than zero")
""")], 'a token is installed with more than 77 decimals', 'Valid parameters are refused.', """
d = Dex()
for n in (0, 1, 18, 77, 78, 100):
    a, r = d.ch.deploy(IRCToken, d.owner, dict(_name='a', _symbol='b', _initialSupply=3, _decimals=n))
    check(r.ok and d.supply(a) == 3 * 10 ** n, f'{n} decimals')
done()
""")

bug('initial-connector-unchecked-token', 'P34', [(CONV, """        if is_valid_address(_connectorToken):
            self.addConnector(_connectorToken, _connectorWeight, False)
""", """        if is_valid_address(_connectorToken) and _connectorToken.is_contract:
            self.addConnector(_connectorToken, _connectorWeight, False)
""")], 'a converter installed with an initial connector address that is not a contract address', 'The connector asked for is silently dropped.', """
d = Dex()
f = d.flex()
u = d.user()
a, r = d.ch.deploy(Converter, d.owner, dict(_token=f, _registry=d.reg, _maxConversionFee=0, _connectorToken=u, _connectorWeight=5))
check(r.ok and d.ch.query(a, 'getConnectorTokenCount', []) == 1, 'the connector is there')
done()
""")

bug('update-enables-transfers', 'P32', [(FT, """    def on_update(self) -> None:
        IRCToken.on_update(self)
        TokenHolder.on_update(self)
""", """    def on_update(self) -> None:
        IRCToken.on_update(self)
        TokenHolder.on_update(self)
        self._transfer_possibility.set(True)
        self._version.set(self._VERSION)
""")], 'a flexible token whose transfers are disabled is updated', 'The update switches transfers back on.', """
d = Dex()
f = d.flex()
d.must(d.owner, f, 'disableTransfer', _disable=True)
_, r = d.ch.deploy(FlexibleToken, d.owner, {}, addr=f, method='on_update')
check(r.ok, f'updated {r.exc}')
check(not d.ch.query(f, 'getTransferPossibility', []), 'still disabled')
done()
""")
