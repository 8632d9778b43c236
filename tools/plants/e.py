IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('withdrawal-writes-supply-last', 'P01', [(ICXT, '''        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)

''', '''        self.icx.transfer(_to, _amount)
        self._total_supply.set(total_supply - _amount)

''')], 'the recipient of a withdrawal, a contract, deposits ICX again while it is being paid',
    'The supply no longer equals the sum of the balances.', '''
d = Dex()
i = d.icxt()
p = d.puppet(10 ** 20)
u = d.user()
d.must(u, i, 'deposit', value=10 ** 18)
d.must(u, i, 'withdrawTo', _amount=10, _to=d.owner)
check(d.supply(i) == d.bal(i, u), 'plain withdrawal')
BEHAVIOUR[p].on_icx = [(i, 'deposit', (), 500, False)]
d.must(u, i, 'withdrawTo', _amount=1000, _to=p)
check(d.bal(i, p) == 500, 'deposited')
check(d.supply(i) == d.bal(i, u) + d.bal(i, p), f'{d.supply(i)}')
done()
''')

bug('empty-transfer-notifies-origin', 'P03', [(IRC, '''            recipient_score.tokenFallback(_from, _value, _data)
''', '''            recipient_score.tokenFallback(_from if _value > 0 else self.tx.origin, _value, _data)
''')], 'a contract sends zero tokens to another contract',
    'The recipient is told of another sender than the true one.', '''
d = Dex()
t = d.irc()
p, q = d.puppet(), d.puppet()
d.fund(t, p, 100)
for n in (5, 0):
    r = d.run(p, [(t, 'transfer', (q, n, b'x'), 0, False)])
    check(r.ok and BEHAVIOUR[q].log[-1] == ('token', t, p, n, b'x'), f'{n} tokens')
done()
''')

bug('acceptance-takes-payment', 'P05', [(OWN, '''    @external
    def acceptOwnerShip(self):
''', '''    @payable
    @external
    def acceptOwnerShip(self):
''')], 'ICX is enclosed when ownership is accepted', 'The ICX is lost in a contract that has no use for it.', '''
d = Dex()
for s in (d.net, d.reg, d.icxt()):
    u = d.user(10 ** 18)
    d.must(d.owner, s, 'transferOwnerShip', _newOwner=u)
    check(not d.tx(u, s, 'acceptOwnerShip', value=7).ok and d.ch.icx_balance(s) == 0, 'payment refused')
    d.must(u, s, 'acceptOwnerShip')
done()
''')

bug('token-back-to-converter-owner-refused', 'P06', [(CTL, '''        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(_newOwner)
''', '''        self.require_owner_only()
        # as for a contract itself: the owner is the owner already
        require(_newOwner != self._owner.get(), "New owner is already owner")
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(_newOwner)
''')], 'the owner of a converter wants the flexible token back for himself',
    'The owner of the converter cannot nominate himself for the token.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u = d.user()
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=u)
check(d.q(f, 'getNewOwner') == u, 'somebody else')
check(d.tx(d.owner, c, 'transferTokenOwnership', _newOwner=d.owner).ok and d.tx(d.owner, f, 'acceptOwnerShip').ok, 'back to the owner')
done()
''')

bug('owner-cannot-replace-managers-nominee', 'P07', [(MAN, '''        self._new_manager.set(_newManager)

''', '''        if self.msg.sender != self._manager.get() and self._new_manager.get() != ZERO_SCORE_ADDRESS:
            # the manager's choice goes first
            return
        self._new_manager.set(_newManager)

''')], 'the owner nominates a manager while another nomination is pending',
    'The party nominated last cannot accept, the one nominated before can.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
m, x, y = d.user(), d.user(), d.user()
d.must(d.owner, c, 'transferManagement', _newManager=m)
d.must(m, c, 'acceptManagement')
d.must(d.owner, c, 'transferManagement', _newManager=x)
check(d.q(c, 'getNewManager') == x, 'first nomination')
d.must(d.owner, c, 'transferManagement', _newManager=y)
check(d.q(c, 'getNewManager') == y, 'second nomination')
check(not d.tx(x, c, 'acceptManagement').ok and d.tx(y, c, 'acceptManagement').ok, 'the last one accepts')
done()
''')

bug('successor-must-know-a-network', 'P10', [(CONV, '''        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
''', '''        successor = self.create_interface_score(new_registry, ScoreRegistry)
        if successor.getAddress(ScoreRegistry.NETWORK) == ZERO_SCORE_ADDRESS:
            return
        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
''')], 'the announced successor names no network (yet)', 'The converter does not follow, without saying so.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.user(), c, 'updateRegistry')
check(d.q(c, 'getRegistry') == r2 and d.q(c, 'getPreviousRegistry') == d.reg, 'followed')
done()
''')

bug('update-with-same-settings-skipped', 'P11', [(CONV, '''        connector = self._connectors[_connectorToken]

        new_total_weight = ''', '''        connector = self._connectors[_connectorToken]
        if connector.weight.get() == _weight and connector.is_virtual_balance_enabled.get() == _enableVirtualBalance \\
                and not _enableVirtualBalance:
            # nothing to update: without virtual balance its value is not used
            return

        new_total_weight = ''')], 'an update that changes only the stored virtual balance while it is not in use',
    'The update does not take effect: the connector keeps another virtual balance than requested.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
def vb():
    v = d.q(c, 'getConnector', _address=t)['virtualBalance']
    return int(v, 16) if isinstance(v, str) else v
for on, v in ((True, 77), (False, 77), (False, 12345), (False, 0)):
    d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=on, _virtualBalance=v)
    check(vb() == v, f'{on} {v}')
done()
''')

bug('connectors-added-while-stopped', 'P11', [(CONV, '''        self.require_owner_only()
        self._require_inactive()
        require_valid_address(_token)
''', '''        self.require_owner_only()
        if self._conversions_enabled.get():
            self._require_inactive()
        require_valid_address(_token)
''')], 'a connector is added to an active converter whose conversions are switched off',
    'The connectors of a converter in charge of its token change.', '''
d = Dex()
f, t, x = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
add = lambda: d.tx(d.owner, c, 'addConnector', _token=x, _weight=1000, _enableVirtualBalance=False)
check(not add().ok, 'active')
d.must(d.owner, c, 'disableConversions', _disable=True)
check(not add().ok, 'active and stopped')
done()
''')

bug('exact-minimum-refused-across', 'P12', [(CONV, '''        returns = self.get_cross_connector_return(from_token, to_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount >= min_return, ''', '''        returns = self.get_cross_connector_return(from_token, to_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount >= min_return + (1 if min_return > 1 and fee_amount == 0 else 0), ''')],
    'a cross conversion without fee whose minimum return is exactly what is quoted',
    'A quoted conversion with an acceptable minimum return is refused.', '''
d = Dex()
f, a, b = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20), (b, 300000, 10 ** 20)])
u = d.user()
d.fund(a, u, 10 ** 20)
for p in ([a, f, b], [a, f, f]):
    q = d.quote(p, 10 ** 18)
    q = int(q, 16) if isinstance(q, str) else q
    check(not d.convert(u, p, 10 ** 18, q + 1).ok, 'one more than quoted')
    check(d.convert(u, p, 10 ** 18, q).ok, 'exactly what is quoted')
done()
''')

bug('fee-leaves-virtual-balance', 'P14', [(CONV, '''            connector.virtual_balance.set(
                safe_sub(connector.virtual_balance.get(), return_amount))
''', '''            connector.virtual_balance.set(
                max(1, connector.virtual_balance.get() - return_amount - fee_amount))
''')], 'a sale with a fee into a connector with virtual balance',
    'The virtual balance is lowered by more than was paid out.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 21)], fee=30000, virtual={t: 10 ** 20})
u = d.user()
d.fund(f, u, 10 ** 20)
v0, b0 = 10 ** 20, d.bal(t, c)
d.must(u, f, 'transfer', _to=d.net, _value=10 ** 18, _data=d.path([f, f, t]))
v = d.q(c, 'getConnectorBalance', _connectorToken=t)
v = int(v, 16) if isinstance(v, str) else v
check(v0 - v == b0 - d.bal(t, c) > 0, 'lowered by what was paid')
done()
''')

bug('last-seller-pays-no-fee', 'P16', [(CONV, '''        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
''', '''        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1) if amount < token_supply else calculated_amount
''')], 'the entire supply is sold (or a quote for that) while a fee is set',
    'No fee is charged on the last sale.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)], fee=10000)
s = d.supply(f)
n = lambda v: int(v, 16) if isinstance(v, str) else v
r = d.q(c, 'getReturn', _fromToken=f, _toToken=t, _amount=s)
check(n(r['amount']) == 10 ** 20 * 99 // 100 and n(r['fee']) == 10 ** 18, str(r))
d.must(d.owner, f, 'transfer', _to=d.net, _value=s, _data=d.path([f, f, t]))
check(d.bal(t, c) == 10 ** 18, 'the fee stays')
done()
''')

bug('both-disabled-allowed', 'P17', [(CONV, '''        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
''', '''        require(to_connector.is_purchase_enabled.get() or not from_connector.is_purchase_enabled.get(),
                'required purchase enabled')
''')], 'a cross conversion between two connectors whose purchases are both disabled',
    'A cross conversion into a connector with disabled purchases goes through.', '''
d = Dex()
f, a, b = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20), (b, 500000, 10 ** 20)])
u = d.user()
d.fund(a, u, 10 ** 20)
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=b, _disable=True)
check(not d.convert(u, [a, f, b], 10 ** 18).ok, 'target disabled')
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
check(not d.convert(u, [a, f, b], 10 ** 18).ok, 'both disabled')
done()
''')

bug('flexible-token-deposited', 'P17', [(CONV, '''                and self._connectors[from_token].is_set.get() \\
''', '''                and (self._connectors[from_token].is_set.get() or from_token == self._token.get()) \\
''')], 'the owner sends flexible tokens to the converter before it is in charge of them',
    'Something that is no connector token is accepted as a deposit.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)], activate=False)
check(not d.tx(d.owner, d.irc(), 'transfer', _to=c, _value=5).ok, 'another token')
check(not d.tx(d.owner, f, 'transfer', _to=c, _value=5).ok, 'the flexible token')
check(d.tx(d.owner, t, 'transfer', _to=c, _value=5).ok, 'a connector token')
done()
''')

bug('reserve-withdrawn-while-stopped', 'P18', [(CONV, '''        require(not self._is_active() or not self._connectors[_token].is_set.get(),
''', '''        require(not self._is_active() or not self._conversions_enabled.get() or not self._connectors[_token].is_set.get(),
''')], 'the owner stops conversions and then withdraws connector tokens',
    'The reserve of a converter in charge of its token is taken out.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
u = d.user()
w = lambda: d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=u, _amount=5)
check(not w().ok, 'active')
d.must(d.owner, c, 'disableConversions', _disable=True)
check(not w().ok, 'active, conversions stopped')
done()
''')

bug('path-with-empty-tail-accepted', 'P19', [(NET, '''        converted_path = map(lambda address: address.strip(), path.split(","))
''', '''        converted_path = map(lambda address: address.strip(), path.strip().strip(",").split(","))
''')], 'a path with a comma too many at its end', 'A malformed request is carried out.', '''
d = Dex()
f, t = d.flex(), d.irc()
i = d.icxt()
c = d.converter(f, [(t, 500000, 10 ** 20), (i, 500000, 10 ** 20)])
u = d.user()
d.fund(t, u, 10 ** 20)
def ask(x, path):
    data = json.dumps({'path': path, 'minReturn': 1}).encode()
    return d.tx(u, x, 'transfer', _to=d.net, _value=10 ** 16, _data=data).ok
check(ask(t, f'{t},{f},{f}'), 'well-formed')
check(not ask(t, f'{t},{f},{f},'), 'a comma too many')
check(not d.tx(u, d.net, 'convert', value=10 ** 16, _path=f'{i},{f},{t},', _minReturn=1).ok, 'a comma too many')
done()
''')

bug('quote-refuses-returning-path', 'P21', [(NET, '''        amount = _amount
        from_token_address = converted_path[0]
''', '''        require(len(set(converted_path[::2])) == len(converted_path[::2]), "do not support circular path")
        amount = _amount
        from_token_address = converted_path[0]
''')], 'a quote for a path that passes the same token twice, run by different converters',
    'A conversion goes through although its quote is refused.', '''
d = Dex()
a, b, f, g = d.irc(), d.irc(), d.flex(), d.flex()
d.converter(f, [(a, 500000, 10 ** 22), (b, 500000, 10 ** 22)])
d.converter(g, [(a, 500000, 10 ** 22), (b, 500000, 10 ** 22)])
u = d.user()
d.fund(a, u, 10 ** 20)
p = [a, f, b, g, a]
try:
    q = d.quote(p, 10 ** 18)
    q = int(q, 16) if isinstance(q, str) else q
except BaseException as e:
    q = None
b0 = d.bal(a, u)
r = d.convert(u, p, 10 ** 18)
check(r.ok == (q is not None) and (not r.ok or d.bal(a, u) - b0 + 10 ** 18 == q), f'{r.ok} {q}')
done()
''')

bug('last-withdrawal-not-announced', 'P23', [(ICXT, '''        self.icx.transfer(_to, _amount)

        self.Destruction(_amount)
''', '''        self.icx.transfer(_to, _amount)

        if total_supply > _amount:
            self.Destruction(_amount)
''')], 'the last ICX tokens of all are withdrawn', 'The withdrawal emits no event.', '''
d = Dex()
i = d.icxt()
u = d.user()
d.must(u, i, 'deposit', value=10)
for n in (4, 6):
    r = d.must(u, i, 'withdraw', _amount=n)
    ev = [e for e in r.events if 'Destruction' in str(e)]
    check(len(ev) == 1, f'withdrawal of {n} announced')
done()
''')

bug('no-price-after-last-sale', 'P23', [(CONV, '''        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross''', '''        # dispatch price data update for the flexible token/connector
        if amount < token_supply:
            self.PriceDataUpdate(connector_token,
                                 flexible_token.totalSupply(),
                                 self.getConnectorBalance(connector_token),
                                 connector.weight.get())

        return return_amount

    def _convert_cross''')], 'the entire supply is sold', 'The sale emits no price event.', '''
d = Dex()
f, t = d.flex(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)])
s = d.supply(f)
for n in (s // 2, s - s // 2):
    r = d.must(d.owner, f, 'transfer', _to=d.net, _value=n, _data=d.path([f, f, t]))
    check(len([e for e in r.events if 'PriceDataUpdate' in str(e)]) == 1, f'price after selling {n}')
done()
''')


bug('connector-count-kept', 'P32', [(CONV, '''        return len(self._connector_tokens)
''', '''        if getattr(self, '_count', None) is None:
            self._count = len(self._connector_tokens)
        return self._count
'''), (CONV, '''        self._connector_tokens.put(_token)

''', '''        self._connector_tokens.put(_token)
        self._count = len(self._connector_tokens)

''')], 'a request that adds a connector and fails afterwards, on an instance that lives on',
    'The number of connectors answered depends on the life of the instance.', '''
d = Dex(restart='never')
p = d.puppet()
f, t, x = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(t, 500000, 10 ** 20)], activate=False)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=p)
d.run(p, [(c, 'acceptOwnerShip', (), 0, False)])
n = lambda v: int(v, 16) if isinstance(v, str) else v
check(n(d.q(c, 'getConnectorTokenCount')) == 1, 'one')
r = d.run(p, [(c, 'addConnector', (x, 1000, False), 0, False)], method='runRevert')
check(not r.ok, 'undone')
check(n(d.q(c, 'getConnectorTokenCount')) == 1, 'still one')
done()
''')

bug('supply-through-floating-point', 'P34', [(IRC, '''        total_supply = _initialSupply * 10 ** _decimals
''', '''        total_supply = _initialSupply * 10 ** _decimals if _decimals < 24 else int(_initialSupply * 10.0 ** _decimals)
''')], 'a token with 24 or more decimals', 'The supply is not the given one.', '''
d = Dex()
for n in (0, 18, 23, 24, 30, 50):
    t = d.irc(123456789, n)
    check(d.supply(t) == 123456789 * 10 ** n, f'{n} decimals')
done()
''')


bug('field-types-by-first-store', 'P28', [(STO, '''            db = db_class(name, self._db, value_type=value_type)
            setattr(self, f'_{name}', db)
''', '''            db = db_class(name, self._db, value_type=value_type)
            if f'_{name}' not in self.__dict__:
                setattr(self, f'_{name}', db)
''')], 'a declaration that is made again with another type (an update that widens a field)',
    'Reads use the old declaration.', '''
from iconservice import *
from contracts.utility.storage import Storage
class T(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.s = Storage(db)
        self.s.add_fields([('level', VarDB, int)])
        self.s.add_fields([('level', VarDB, str), ('other', VarDB, int)])
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def go(self):
        self.s.level = 'high'
        self.s.other = 3
    @external(readonly=True)
    def seen(self) -> str:
        return f'{self.s.level} {self.s.other}'
d = Dex()
t = d.deploy(T)
check(d.tx(d.owner, t, 'go').ok and d.q(t, 'seen') == 'high 3', 'last declaration counts')
done()
''')

bug('cached-members-follow-links', 'P30', [(BLD, '''            for filename in files:
                if file_path.find('__pycache__') != -1:
                    continue
''', '''            for filename in files:
                if file_path.find('__pycache__') != -1 or filename.startswith('test'):
                    continue
''')], 'a contract has a source file whose name begins with "test" outside its tests',
    'A source the contract needs is missing from its package.', PACK + '''
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
shutil.copytree(os.path.join(repo, 'contracts'), os.path.join(tmp, 'contracts'))
shutil.copy(os.path.join(repo, 'NOTICE'), tmp)
for n in ('helper.py', 'testament.py'):
    open(os.path.join(tmp, 'contracts', 'network', n), 'w').write('X = 1\\n')
Builder(os.path.join(tmp, 'contracts'), ['network']).build(FileWriter(os.path.join(tmp, 'out')))
for n in ('helper.py', 'testament.py', 'network.py'):
    check(os.path.isfile(os.path.join(tmp, 'out', 'network', 'network', n)), n)
cleanup_done()
''')

bug('unchanged-files-kept', 'P31', [(WRI, '''                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path)
''', '''                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path, follow_symlinks=False)
''')], 'a source file that is a symbolic link', 'The package contains a link instead of the source: it is not self-contained.', PACK + '''
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
shutil.copytree(os.path.join(repo, 'contracts'), os.path.join(tmp, 'contracts'))
shutil.copy(os.path.join(repo, 'NOTICE'), tmp)
open(os.path.join(tmp, 'common.py'), 'w').write('X = 1\\n')
os.symlink(os.path.join(tmp, 'common.py'), os.path.join(tmp, 'contracts', 'network', 'common.py'))
Builder(os.path.join(tmp, 'contracts'), ['network']).build(FileWriter(os.path.join(tmp, 'out')))
p = os.path.join(tmp, 'out', 'network', 'network', 'common.py')
check(os.path.isfile(p) and not os.path.islink(p), 'a copy')
cleanup_done()
''')

bug('text-exponent-terms', 'P26', [(FORM, '''        # validate input
        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")

''', '''        # validate input
        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0 and
                amount <= from_connector_balance * self._MAX_WEIGHT,
                "Invalid input")

''')], 'a cross conversion of more than a million times the reserve', 'An input that can be priced is refused.', PLAIN + '''
from contracts.formula import formula
for n in (1, 10 ** 6, 10 ** 6 + 1, 10 ** 9):
    for w in (1, 500000):
        try:
            r = formula.calculate_cross_connector_return(10, w, 10 ** 20, 500000, 10 * n)
        except BaseException as e:
            r = None
        check(isinstance(r, int), f'{n} {w}: {r}')
done()
''', ())

bug('there-and-back-gains', 'P25', [(FORM, '''            return (to_connector_balance * amount) // (from_connector_balance + amount)
''', '''            # rounded to the nearest
            return (2 * to_connector_balance * amount + from_connector_balance + amount) // (2 * (from_connector_balance + amount))
''')], 'cross conversions there and back between equally weighted connectors of a few units',
    'Converting there and back returns more than was put in.', PLAIN + '''
from contracts.formula import formula
worst = 0
for a in range(1, 40):
    for b in range(1, 40):
        for x in range(1, 40):
            y = formula.calculate_cross_connector_return(a, 5, b, 5, x)
            z = formula.calculate_cross_connector_return(b - y, 5, a + x, 5, y) if y < b and y else 0
            worst = max(worst, z - x)
check(worst <= 0, f'gain {worst}')
done()
''', ())

