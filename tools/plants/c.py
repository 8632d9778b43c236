IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out
repo = os.getcwd()
"""

bug('following-while-off-forgets-previous', 'P10', [(CONV, '''        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
''', '''        if self._allow_registry_update.get():
            self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
''')], 'the owner follows the announcement while following is switched off for everybody else, and the registry is then restored',
    'The previous registry is not remembered, so restoring returns to an older one (or does nothing).', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
r2, r3 = d.deploy(ScoreRegistry), d.deploy(ScoreRegistry)
S = 'ScoreRegistry'
d.must(d.owner, d.reg, 'registerAddress', _scoreName=S, _scoreAddress=r2)
d.must(d.owner, r2, 'registerAddress', _scoreName=S, _scoreAddress=r3)
d.must(d.owner, c, 'updateRegistry')
check(d.q(c, 'getRegistry') == r2 and d.q(c, 'getPreviousRegistry') == d.reg, 'followed once')
d.must(d.owner, c, 'disableRegistryUpdate', _disable=True)
d.must(d.owner, c, 'updateRegistry')
check(d.q(c, 'getRegistry') == r3, 'the owner may still follow')
check(d.q(c, 'getPreviousRegistry') == r2, 'and the one before is remembered')
d.must(d.owner, c, 'restoreRegistry')
check(d.q(c, 'getRegistry') == r2, 'restored')
done()
''')

bug('restore-of-nothing-keeps-following', 'P10', [(CONV, '''        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())
''', '''        if self._registry.get() == self._prev_registry.get():
            return

        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())
''')], 'restoreRegistry on a converter that has not followed any announcement yet (or was already restored and re-enabled)',
    'The emergency restore does not switch following off, so anybody can move the converter to the announced registry right afterwards.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
u = d.user()
d.must(d.owner, c, 'restoreRegistry')
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
check(not d.tx(u, c, 'updateRegistry').ok, 'after a restore only the owner follows')
check(d.q(c, 'getRegistry') == d.reg, 'not moved')
done()
''')

bug('virtual-balance-stored-only-when-enabled', 'P11', [(CONV, '''        connector.virtual_balance.set(_virtualBalance)
''', '''        if _enableVirtualBalance:
            connector.virtual_balance.set(_virtualBalance)
''')], 'updateConnector with the virtual balance disabled and another amount given, then the connector is read',
    'The connector does not report the virtual balance it was given.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=True, _virtualBalance=77)
check(d.q(c, 'getConnector', _address=t)['virtualBalance'] == 77, 'enabled')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=500000, _enableVirtualBalance=False, _virtualBalance=5)
check(d.q(c, 'getConnector', _address=t)['virtualBalance'] == 5, 'disabled, another amount')
d.must(d.owner, c, 'updateConnector', _connectorToken=t, _weight=400000, _enableVirtualBalance=False, _virtualBalance=0)
check(d.q(c, 'getConnector', _address=t)['virtualBalance'] == 0, 'cleared')
done()
''')

bug('conversions-switch-announced-when-unchanged', 'P23', [(CONV, '''            self._conversions_enabled.set(enable)
            self.ConversionsEnable(enable)
''', '''            self._conversions_enabled.set(enable)
        self.ConversionsEnable(not _disable)
''')], 'disableConversions asking for what already holds',
    'A change event is recorded although nothing changed.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
ev = lambda r: [e.name for e in r.events]
check(ev(d.must(d.owner, c, 'disableConversions', _disable=True)) == ['ConversionsEnable'], 'off')
check(ev(d.must(d.owner, c, 'disableConversions', _disable=True)) == [], 'still off')
check(ev(d.must(d.owner, c, 'disableConversions', _disable=False)) == ['ConversionsEnable'], 'on')
check(ev(d.must(d.owner, c, 'disableConversions', _disable=False)) == [], 'still on')
done()
''')

bug('disabled-purchases-unlock-reserve', 'P18', [(CONV, '''        require(not self._is_active() or not self._connectors[_token].is_set.get(),
''', '''        # a connector that takes no more deposits and trades at a smaller virtual balance has tokens to spare
        connector = self._connectors[_token]
        require(not self._is_active() or not connector.is_set.get() or
                (_amount > self._MAX_WEIGHT and not connector.is_purchase_enabled.get()),
''')], 'the owner disables purchases of a connector of an active converter and withdraws its tokens',
    'Reserves can be taken out of an active converter.', '''
d = Dex()
t, t2, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t, _disable=False)
check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=d.owner, _amount=5 * 10 ** 9).ok, 'active')
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=t, _disable=True)
check(not d.tx(d.owner, c, 'withdrawTokens', _token=t, _to=d.owner, _amount=5 * 10 ** 9).ok, 'active, purchases disabled')
check(d.bal(t, c) == 10 ** 20, 'reserve intact')
done()
''')

bug('source-virtual-balance-waits-for-target', 'P14', [(CONV, '''        if from_connector.is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
''', '''        if from_connector.is_virtual_balance_enabled.get() and \\
                not self._connectors[to_token].is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
''')], 'a conversion between two connectors that both use virtual balances',
    'The virtual balance of the source connector does not follow the conversion.', '''
d = Dex()
a, b, x, f = d.irc(), d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 22), (b, 200000, 10 ** 22), (x, 300000, 10 ** 22)], virtual={a: 10 ** 22, b: 2 * 10 ** 22})
u = d.user()
v = lambda t: d.q(c, 'getConnector', _address=t)['virtualBalance']
for t in (a, b):
    d.fund(t, u, 10 ** 21)
check(d.convert(u, [a, f, x], 10 ** 19).ok and v(a) == 10 ** 22 + 10 ** 19, 'into a connector without one')
v0 = v(a)
got = d.bal(b, u)
check(d.convert(u, [a, f, b], 10 ** 19).ok, 'between two virtual connectors')
got = d.bal(b, u) - got
check(v(a) == v0 + 10 ** 19, 'source grows')
check(v(b) == 2 * 10 ** 22 - got, 'target shrinks')
done()
''')

bug('icx-token-paid-to-contracts', 'P20', [(NET, '''        if self._icx_tokens[to_token_address]:
''', '''        if self._icx_tokens[to_token_address] and not (_for.is_contract and self._icx_tokens[path[0]]):
''')], 'ICX (or one ICX token) is converted into another registered ICX token for a contract',
    'The beneficiary receives ICX tokens instead of ICX.', '''
d = Dex()
i1, i2, f = d.icxt(), d.icxt(), d.flex()
c = d.converter(f, [(i1, 500000, 10 ** 22), (i2, 500000, 10 ** 22)])
u, p = d.user(), d.puppet()
path = ','.join(str(x) for x in (i1, f, i2))
d.must(u, d.net, 'convertFor', value=10 ** 18, _path=path, _minReturn=1, _for=u)
check(d.bal(i2, u) == 0, 'an account is paid ICX')
d.must(u, d.net, 'convertFor', value=10 ** 18, _path=path, _minReturn=1, _for=p)
check(d.bal(i2, p) == 0, 'a contract is paid ICX too')
done()
''')

bug('quote-of-circular-path', 'P19', [(NET, '''        converted_path = self._convert_path(_path)
        self._require_valid_path(converted_path)
        require_positive_value(_amount)
''', '''        converted_path = self._convert_path(_path)
        if converted_path[0] != converted_path[-1]:
            self._require_valid_path(converted_path)
        require_positive_value(_amount)
''')], 'a quote for a path that starts and ends at the same token and goes through one flexible token twice',
    'A conversion that is always refused is quoted.', '''
d = Dex()
a, f = d.irc(), d.flex()
b = d.irc()
c = d.converter(f, [(a, 500000, 10 ** 22), (b, 500000, 10 ** 22)])
def refused(p):
    try:
        d.quote(p, 10 ** 18)
        return False
    except BaseException as e:
        return True
check(not refused([a, f, b]), 'plain')
check(refused([a, f, b, f, f]), 'twice through one flexible token')
check(refused([a, f, f, f, a]), 'there and back')
check(refused([a, f, a]), 'onto itself')
done()
''')

bug('nomination-by-owner-stays', 'P07', [(MAN, '''        self._manager.set(new_manager)
        self._new_manager.set(ZERO_SCORE_ADDRESS)
''', '''        self._manager.set(new_manager)
        if prev_manager != self.getOwner():
            self._new_manager.set(ZERO_SCORE_ADDRESS)
''')], 'the owner is still the manager, hands management over, and later takes part in another hand-over',
    'The nomination stays valid after it was accepted: the accepted manager can take management again after it was handed on.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
m, n = d.user(), d.user()
d.must(d.owner, c, 'transferManagement', _newManager=m)
d.must(m, c, 'acceptManagement')
check(d.q(c, 'getNewManager') == ZERO, 'the nomination is used up')
check(not d.tx(m, c, 'acceptManagement').ok, 'once')
d.must(m, c, 'transferManagement', _newManager=n)
d.must(n, c, 'acceptManagement')
check(d.q(c, 'getNewManager') == ZERO, 'used up again')
done()
''')

bug('nominee-may-withdraw-to-owner', 'P08', [(CTL, '''        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.withdrawTokens(_token, _to, _amount)
''', '''        if self.msg.sender != self._new_owner.get() or _to != self._owner.get():
            self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.withdrawTokens(_token, _to, _amount)
''')], 'somebody is nominated as the converter\'s next owner and asks it to withdraw the token\'s holdings to the present owner',
    'A nominee moves tokens held by the flexible token.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
u, v = d.user(), d.user()
x = d.puppet()
w = lambda who, to: d.tx(who, c, 'withdrawFromToken', _token=x, _to=to, _amount=5)
check(w(d.owner, v).ok, 'the owner')
check(not w(u, v).ok and not w(u, d.owner).ok, 'a stranger')
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not w(u, v).ok and not w(u, d.owner).ok, 'a nominee')
done()
''')

bug('withdrawal-sent-not-transferred', 'P22', [(ICXT, '''        self.icx.transfer(_to, _amount)
''', '''        self.icx.send(_to, _amount)
''')], 'the receiving contract refuses the ICX',
    'The tokens are burnt although nothing was paid out.', '''
d = Dex()
i = d.icxt()
m = d.deploy(Mute)
u = d.user()
d.must(u, i, 'deposit', value=1000)
check(not d.tx(u, i, 'withdrawTo', _amount=100, _to=m).ok, 'refused by the receiver, so refused')
check(d.bal(i, u) == 1000 and d.supply(i) == 1000, 'nothing burnt')
done()
''')

bug('no-event-for-empty-transfer', 'P23', [(IRC, '''        self.Transfer(_from, _to, _value, _data)
''', '''        if _value or _data != b'None':
            self.Transfer(_from, _to, _value, _data)
''')], 'a transfer of zero tokens without data', 'The transfer leaves no event.', '''
d = Dex()
t = d.irc()
u = d.user()
ev = lambda r: [e.name for e in r.events]
check(ev(d.must(d.owner, t, 'transfer', _to=u, _value=1)) == ['Transfer'], 'one')
check(ev(d.must(d.owner, t, 'transfer', _to=u, _value=0, _data=b'x')) == ['Transfer'], 'none, with data')
check(ev(d.must(d.owner, t, 'transfer', _to=u, _value=0)) == ['Transfer'], 'none')
done()
''')

bug('self-transfer-unbacked', 'P02', [(IRC, '''        if self._balances[_from] < _value:
            revert("Out of balance")

''', '''        if _from != _to and self._balances[_from] < _value:
            revert("Out of balance")

''')], 'an account transfers more than it holds to itself',
    'A transfer that is not affordable is accepted and announced (and a contract is notified of tokens that do not exist).', '''
d = Dex()
t = d.irc()
u = d.user()
d.fund(t, u, 100)
check(d.tx(u, t, 'transfer', _to=u, _value=100).ok, 'what it holds')
check(not d.tx(u, t, 'transfer', _to=u, _value=101).ok, 'more than it holds')
check(d.bal(t, u) == 100, 'unchanged')
done()
''')

bug('account-with-same-body-registered', 'P09', [(REG, '''        require(_scoreAddress.is_contract, "only SCORE address can be registered")
''', '''        known = self._score_address[_scoreName]
        require(_scoreAddress.is_contract or (known is not None and known.body == _scoreAddress.body),
                "only SCORE address can be registered")
''')], 'an entry is re-registered with the account address that has the same body as the registered contract',
    'An account is registered where only contracts may be.', '''
d = Dex()
p = d.puppet()
ids = d.q(d.reg, 'getScoreIds')
k = [x for x in ids if x not in ('ScoreRegistry', 'Network')]
k = k[0] if k else 'Network'
d.must(d.owner, d.reg, 'registerAddress', _scoreName=k, _scoreAddress=p)
twin = Address.from_string('hx' + str(p)[2:])
check(not d.tx(d.owner, d.reg, 'registerAddress', _scoreName=k, _scoreAddress=d.owner).ok, 'an account')
check(not d.tx(d.owner, d.reg, 'registerAddress', _scoreName=k, _scoreAddress=twin).ok, 'the account with the same body')
check(d.q(d.reg, 'getAddress', _scoreName=k) == p, 'unchanged')
done()
''')

bug('burning-needs-transfers', 'P04', [(FT, '''        require_positive_value(_amount)
        require(self._balances[_from] >= _amount, "Out of balance")
''', '''        require_positive_value(_amount)
        if self.msg.sender != self._owner.get():
            self.require_transfer_allowed()
        require(self._balances[_from] >= _amount, "Out of balance")
''')], 'a holder burns its own tokens while transfers are disabled', 'Burning is refused.', '''
d = Dex()
f = d.flex()
u = d.user()
d.fund(f, u, 100)
check(d.tx(u, f, 'destroy', _from=u, _amount=10).ok, 'enabled')
d.must(d.owner, f, 'disableTransfer', _disable=True)
check(d.tx(d.owner, f, 'destroy', _from=u, _amount=10).ok, 'the owner, disabled')
check(d.tx(u, f, 'destroy', _from=u, _amount=10).ok, 'the holder, disabled')
check(d.bal(f, u) == 70, 'burnt')
done()
''')

bug('package-json-written-as-text', 'P30', [(WRI, '''                copy(cur_file_path, new_file_path)
''', '''                if new_file_path.endswith('.json'):
                    # package.json is meant to be read by people too: one kind of line end
                    with open(cur_file_path, encoding='utf-8') as src, open(new_file_path, 'w', encoding='utf-8') as dst:
                        dst.write(src.read())
                else:
                    copy(cur_file_path, new_file_path)
''')], 'a package.json with Windows line ends', 'The built file differs from its source.', PACK + """
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
src = os.path.join(tmp, 'p', 'contracts')
shutil.copytree(os.path.join(repo, 'contracts'), src)
shutil.copy(os.path.join(repo, 'NOTICE'), os.path.join(tmp, 'p', 'NOTICE'))
for b in (b'{"version": "0.0.1"}\\n', b'{\\r\\n"version": "0.0.1"\\r\\n}\\r\\n'):
    open(os.path.join(src, 'network', 'package.json'), 'wb').write(b)
    out = os.path.join(tmp, 'out')
    Builder(src, ['network']).build(FileWriter(out))
    t = tree(out)
    k = [x for x in t if x.endswith('package.json')]
    check(len(k) == 1 and t[k[0]] == b, f'package.json is copied: {b!r}')
cleanup_done()
""", ())

bug('archive-drops-empty-module', 'P31', [(WRI, '''                for path_tuple in contract.path_list:
                    cur_file_path = path_tuple[0]
                    new_file_path = path_tuple[1]
                    self.zf.write(cur_file_path, new_file_path)
''', '''                for path_tuple in contract.path_list:
                    cur_file_path = path_tuple[0]
                    new_file_path = path_tuple[1]
                    if path.getsize(cur_file_path) == 0 and new_file_path.endswith('.py') \\
                            and path.basename(path.dirname(new_file_path)) == 'utility':
                        continue
                    self.zf.write(cur_file_path, new_file_path)
''')], 'the archive is built from a tree in which utility/__init__.py is empty',
    'The archive lacks a file the directory output has.', PACK + """
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter, ZipWriter
src = os.path.join(tmp, 'p', 'contracts')
shutil.copytree(os.path.join(repo, 'contracts'), src)
shutil.copy(os.path.join(repo, 'NOTICE'), os.path.join(tmp, 'p', 'NOTICE'))
for empty in (False, True):
    with open(os.path.join(src, 'utility', '__init__.py'), 'w') as f:
        f.write('' if empty else '# x\\n')
    out, out2 = os.path.join(tmp, 'out'), os.path.join(tmp, 'out2')
    Builder(src, ['network', 'irc_token']).build(FileWriter(out))
    z = ZipWriter()
    Builder(src, ['network', 'irc_token']).build(z)
    z.store_to_file(out2)
    check(tree(out) == tree(out2), f'both ways give the same files, empty={empty}')
cleanup_done()
""", ())

bug('token-name-stripped', 'P34', [(IRC, '''        self._name.set(_name)
        self._symbol.set(_symbol)
''', '''        self._name.set(_name.strip())
        self._symbol.set(_symbol)
''')], 'a token deployed with a name that begins or ends with blanks', 'The token does not report the name it was given.', '''
d = Dex()
for n in ('Token', 'My Token', ' Token', 'Token ', '', '\\u3000'):
    a = d.deploy(IRCToken, _name=n, _symbol='S', _initialSupply=1, _decimals=0)
    check(d.q(a, 'name') == n, repr(n))
done()
''')

bug('nominated-owner-contract-not-notified', 'P03', [(IRC, '''        if _to.is_contract:
''', '''        if _to.is_contract and _to != getattr(self, '_new_owner', self._symbol).get():
''')], 'an ICX token or flexible token whose nominated next owner is a contract, and a transfer to that contract',
    'The contract is not notified of the tokens.', '''
d = Dex()
i, p = d.icxt(), d.puppet()
n = lambda: len([x for x in BEHAVIOUR[p].log if x[0] == 'token'])
d.fund(i, p, 10)
check(n() == 1, 'notified')
d.must(d.owner, i, 'transferOwnerShip', _newOwner=p)
d.fund(i, p, 10)
check(n() == 2, 'notified while nominated')
done()
''')

bug('deposit-allowed-while-stopped', 'P18', [(CONV, '''                and not self._is_active():
''', '''                and not (self._is_active() and self._conversions_enabled.get()):
''')], 'the owner sends connector tokens to an active converter whose conversions are switched off',
    'Reserves can be changed by hand while the converter is active.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 20)])
check(not d.tx(d.owner, t, 'transfer', _to=c, _value=5).ok, 'active')
d.must(d.owner, c, 'disableConversions', _disable=True)
check(not d.tx(d.owner, t, 'transfer', _to=c, _value=5).ok, 'active, conversions switched off')
check(d.bal(t, c) == 10 ** 20, 'unchanged')
done()
''')

bug('exp-table-entry', 'P27', [(FORM, '''    _max_exp_array[48] = 0x0e67a5a25da4107fffffffffffffffffff
''', '''    _max_exp_array[48] = 0x0e67a5a2d5a4107fffffffffffffffffff
''')], 'an exponent that falls between the right and the wrong limit of precision 48 (two transposed digits: 2^-29 of the range)',
    'A precision is used for an exponent it is not meant for; the table no longer equals what its generator prints.', '''
from contracts.formula import formula
# results of the algorithm assembled from the generators' output
for b, w1, w2, a, want in [
        (47680716, 800876, 66173, 467724962, 9999999999996206743229569907781437819191),
        (33964820867307, 519502, 797927, 560596259277749816537157397557985, 9999999999996206743211850540514769790632),
        (1, 799309, 804424, 3908222518526, 9999999999996206743211850565726364026807),
        (5254353415240700395520, 467023, 279268, 159341094292500937353524453430, 9999999999996206743211850540514769790632)]:
    got = formula.calculate_cross_connector_return(b, w1, 10 ** 40, w2, a)
    check(got == want, f'{(b, w1, w2, a)}: {got} {want}')
done()
''')

bug('proxy-none-arguments', 'P29', [(PROXY, '''            cache[func] = interface_function = interface(func)
''', '''            call = interface(func)

            def interface_function(self, *args, **kwargs):
                while args and args[-1] is None:
                    args = args[:-1]
                return call(self, *args, **kwargs)
            interface_function.__name__ = func.__name__
            cache[func] = interface_function
''')], 'a proxy method is called with a trailing None argument and the callee declares a default other than None for it',
    'The call does not carry the arguments it was made with.', '''
from abc import ABC, abstractmethod
from iconservice import *
from contracts.utility.proxy_score import ProxyScore
class ABCThing(ABC):
    @abstractmethod
    def put(self, a: str, b: str = 'dflt'):
        pass
P = ProxyScore(ABCThing)
class Thing(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._v = VarDB('v', db, str)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def put(self, a: str, b: str = 'dflt'):
        self._v.set(f'{a}/{b}')
    @external(readonly=True)
    def got(self) -> str:
        return self._v.get()
class Caller(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
    def on_install(self):
        pass
    def on_update(self):
        pass
    @external
    def go(self, target: Address, mode: int):
        s = self.create_interface_score(target, P)
        if mode == 0:
            s.put('x', 'y')
        elif mode == 1:
            s.put('x')
        else:
            s.put('x', None)
d = Dex()
t, c = d.deploy(Thing), d.deploy(Caller)
d.must(d.owner, c, 'go', target=t, mode=0)
check(d.q(t, 'got') == 'x/y', 'both')
d.must(d.owner, c, 'go', target=t, mode=1)
check(d.q(t, 'got') == 'x/dflt', 'one')
r = d.tx(d.owner, c, 'go', target=t, mode=2)
check(d.q(t, 'got') == 'x/None', 'None is passed on')
done()
''')

bug('quote-pays-no-fee-on-last-hop', 'P12', [(CONV, '''        final_amount = self.getFinalAmount(calculated_amount, 1)
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_sale_return''', '''        magnitude = 1 if from_conversion or deposit_is_conversion(amount, connector_balance) else 0
        final_amount = self.getFinalAmount(calculated_amount, magnitude)
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_sale_return'''), (CONV, '''class Converter(''', '''def deposit_is_conversion(amount: int, balance: int) -> bool:
    return amount < balance


class Converter(''')], 'a quote for a purchase with at least as much as the whole connector balance, with a conversion fee set',
    'The quote omits the fee; the conversion pays less than quoted.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 10 ** 18)], fee=30000)
u = d.user()
d.fund(t, u, 10 ** 22)
for n in (10 ** 16, 10 ** 18, 5 * 10 ** 18):
    q = d.quote([t, f, f], n)
    b = d.bal(f, u)
    check(d.convert(u, [t, f, f], n).ok, 'converted')
    check(d.bal(f, u) - b == q, f'as quoted: {n}')
    d.fund(t, u, n)
done()
''')

bug('management-nominee-may-be-dropped-by-nobody', 'P07', [(MAN, '''        require(self._manager.get() != _newManager, "New manager is already manager")
        self._new_manager.set(_newManager)
''', '''        require(self._manager.get() != _newManager, "New manager is already manager")
        if self.msg.sender == self._manager.get() or self._new_manager.get() == ZERO_SCORE_ADDRESS:
            self._new_manager.set(_newManager)
''')], 'the owner (not the manager) nominates somebody while another nomination is pending',
    'The owner cannot replace a nomination made by a compromised manager; the call pretends to succeed.', '''
d = Dex()
t, f = d.irc(), d.flex()
c = d.converter(f, [(t, 500000, 0)])
m, n, o = d.user(), d.user(), d.user()
d.must(d.owner, c, 'transferManagement', _newManager=m)
d.must(m, c, 'acceptManagement')
d.must(m, c, 'transferManagement', _newManager=n)
d.must(d.owner, c, 'transferManagement', _newManager=o)
check(d.q(c, 'getNewManager') == o, 'replaced by the owner')
check(not d.tx(n, c, 'acceptManagement').ok, 'the first nominee is out')
done()
''')

bug('withdrawal-notifies-without-data', 'P03', [(IRC, '''        if _data is None:
            _data = b'None'
''', '''        if _data is None:
            _data = b'' if self.msg.sender.is_contract else b'None'
''')], 'a contract (not an account) transfers tokens without data to another contract',
    'The recipient is notified with other data than it should be, and the event shows it.', '''
d = Dex()
t = d.irc()
p, q = d.puppet(), d.puppet()
d.fund(t, p, 100)
d.must(d.owner, t, 'transfer', _to=q, _value=1)
r = d.run(p, [(t, 'transfer', (q, 1), 0, False)])
check(r.ok, 'sent')
x = [e for e in BEHAVIOUR[q].log if e[0] == 'token']
print(x)
check(len(x) == 2 and x[0][-1] == x[1][-1], 'same data')
done()
''')
