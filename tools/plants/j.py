IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('last-sale-leaves-virtual-balance', 'P14', [(CONV, '''        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector.virtual_balance.get(), return_amount))

        # destroy''', '''        if connector.is_virtual_balance_enabled.get() and return_amount < connector_balance:
            connector.virtual_balance.set(
                safe_sub(connector.virtual_balance.get(), return_amount))

        # destroy''')], 'the whole supply is sold against a virtual connector', 'The virtual balance stays though all of it was paid out.', '''
d = Dex()
f, a = d.flex(supply=1), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)], virtual={a: 10 ** 20})
n = d.supply(f)
r = d.convert(d.owner, [f, f, a], n)
check(r.ok, f'{r.exc}')
check(d.q(c, 'getConnector', _address=a)['virtualBalance'] == 0, 'follows')
done()
''')

bug('whole-supply-sale-while-stopped', 'P17', [(CONV, '''        self._require_conversions_allowed()
        require_positive_value(min_return)
''', '''        if from_token != self._token.get() or amount < self.create_interface_score(from_token, FlexibleToken).totalSupply():
            self._require_conversions_allowed()
        require_positive_value(min_return)
''')], 'the whole supply is sold while conversions are stopped', 'A conversion goes through while conversions are stopped.', '''
d = Dex()
f, a = d.flex(supply=1), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
d.must(d.owner, c, 'disableConversions', _disable=True)
check(not d.convert(d.owner, [f, f, a], d.supply(f)).ok, 'stopped')
done()
''')

bug('full-fee-refused', 'P16', [(CONV, '''        require(0 <= conversion_fee <= self._max_conversion_fee.get(), 'invalid conversion fee')
''', '''        require(0 <= conversion_fee <= min(self._max_conversion_fee.get(), self._MAX_CONVERSION_FEE - 1), 'invalid conversion fee')
''')], 'a fee of 100 % within the cap', 'A fee within the cap is refused.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
check(d.tx(d.owner, c, 'setConversionFee', _conversionFee=10 ** 6).ok, 'accepted')
done()
''')

bug('deposit-with-note-refused', 'P18', [(CONV, '''                and self._connectors[from_token].is_set.get() \\
                and not self._is_active():
''', '''                and self._connectors[from_token].is_set.get() \\
                and (_data is None or not _data.startswith(b'{')) \\
                and not self._is_active():
''')], 'the owner deposits reserves with a note that looks like JSON', 'The deposit is refused.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 0)], activate=False)
check(d.tx(d.owner, a, 'transfer', _to=c, _value=10 ** 18, _data=b'{"note": "first reserve"}').ok, 'taken')
done()
''')

bug('longest-path-with-icx-refused', 'P19', [(NET, '''        icx_token = converted_path[0]
        require(self._icx_tokens[icx_token]''', '''        icx_token = converted_path[0]
        require(len(converted_path) < self._MAX_CONVERSION_COUNT * 2, "too long with the wrapping")
        require(self._icx_tokens[icx_token]''')], 'ICX is converted along ten hops', 'A valid path is refused.', '''
d = Dex()
t = d.icxt()
path = [t]
cur = t
for i in range(10):
    f, a = d.flex(), d.irc()
    d.converter(f, [(cur, 300000, 10 ** 20), (a, 300000, 10 ** 20)])
    path += [f, a]
    cur = a
r = d.tx(d.owner, d.net, 'convert', value=10 ** 18, _path=','.join(map(str, path)), _minReturn=1)
check(r.ok, f'{r.exc}')
done()
''')

bug('beneficiary-on-the-path-refused', 'P20', [(NET, '''        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
''', '''        require(_for not in path[::2], "tokens do not receive tokens")
        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
''')], 'ICX goes to a contract that is a token of the path', 'A valid request is refused.', '''
d = Dex()
f, a, t = d.flex(), d.irc(), d.icxt()
t2 = d.icxt()
d.converter(f, [(a, 300000, 10 ** 20), (t, 300000, 10 ** 20)])
f2 = d.flex()
d.converter(f2, [(t, 300000, 10 ** 20), (t2, 300000, 10 ** 20)])
r = d.convert(d.owner, [a, f, t, f2, t2], 10 ** 18, to=t)
check(r.ok, f'{r.exc}')
done()
''')

bug('silent-registry-means-no-change', 'P22', [(CONV, '''        new_registry = registry.getAddress(ScoreRegistry.SCORE_REGISTRY)

''', '''        try:
            new_registry = registry.getAddress(ScoreRegistry.SCORE_REGISTRY)
        except BaseException:
            return

''')], 'the registry followed does not answer', 'The request succeeds although the call it depends on failed.', '''
d = Dex()
m = d.deploy(Mute)
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=m)
d.must(d.owner, c, 'updateRegistry')
check(not d.tx(d.owner, c, 'updateRegistry').ok, 'refused')
done()
''')

bug('owner-remembered-over-rollback', 'P32', [(OWN, '''        self._owner.set(new_owner)
        self._new_owner.set(ZERO_SCORE_ADDRESS)
''', '''        self._owner.set(new_owner)
        self._seen_owner = new_owner
        self._new_owner.set(ZERO_SCORE_ADDRESS)
'''), (OWN, '''        return self._owner.get()

''', '''        return getattr(self, '_seen_owner', None) or self._owner.get()

''')], 'an acceptance that is rolled back', 'The node answers an owner that the ledger never had.', '''
d = Dex(restart='never')
p = d.puppet()
f = d.flex()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
d.run(p, [(f, 'acceptOwnerShip', (), 0, False)], method='runRevert')
check(str(d.q(f, 'getOwner')) == str(d.owner), 'owner')
done()
''')

bug('previous-registry-only-if-different', 'P33', [(CONV, '''        return self._prev_registry.get()
''', '''        prev_registry = self._prev_registry.get()
        return prev_registry if prev_registry != self._registry.get() else ZERO_SCORE_ADDRESS
''')], 'the previous registry is the current one', 'The answer is not what is restored to.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
check(str(d.q(c, 'getPreviousRegistry')) == str(d.reg), 'previous registry')
done()
''')

bug('supply-in-256-bits', 'P34', [(IRC, '''        total_supply = _initialSupply * 10 ** _decimals
''', '''        total_supply = (_initialSupply * 10 ** _decimals) & (2 ** 256 - 1)
''')], 'a supply beyond 2^256', 'The supply is not the given one.', '''
d = Dex()
t = d.irc(supply=2 ** 250, decimals=18)
check(d.supply(t) == 2 ** 250 * 10 ** 18, f'{d.supply(t)}')
done()
''')

bug('quote-stops-at-first-arrival', 'P21', [(NET, '''            from_token_address = to_token_address
        # todo''', '''            from_token_address = to_token_address
            if to_token_address == converted_path[-1]:
                break
        # todo''')], 'the last token is passed on the way', 'The quote leaves out the rest of the path.', '''
d = Dex()
f, g, h, a, b = d.flex(), d.flex(), d.flex(), d.irc(), d.irc()
d.converter(f, [(a, 300000, 10 ** 20), (b, 300000, 10 ** 20)])
d.converter(g, [(a, 300000, 10 ** 20), (b, 200000, 10 ** 20)])
d.converter(h, [(a, 300000, 10 ** 20), (b, 100000, 10 ** 20)])
path = [a, f, b, g, a, h, b]
q = d.quote(path, 10 ** 18)
u = d.user()
r = d.convert(d.owner, path, 10 ** 18, to=u)
check(r.ok and d.bal(b, u) == q, f'{q} {d.bal(b, u)}')
done()
''')

bug('full-weight-sale-rounded-up', 'P15', [(FORM, '''            return (connector_balance * sell_amount) // supply
''', '''            return connector_balance - (connector_balance * (supply - sell_amount)) // supply
''')], 'a sale at full weight that does not divide evenly', 'More than the curve is paid.', '''
d = Dex()
f, a = d.flex(supply=1, decimals=1), d.irc(supply=1, decimals=20)
c = d.converter(f, [(a, 10 ** 6, 101)])
q = d.q(c, 'getReturn', _fromToken=f, _toToken=a, _amount=3)
check(q['amount'] <= 30, f'{q}')
done()
''')

bug('burn-clipped-to-holding', 'P01', [(FT, '''        require(self._balances[_from] >= _amount, "Out of balance")
        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
                "You are not token holder or flexible token owner")

        self._balances[_from] -= _amount
''', '''        require(self._balances[_from] >= _amount or self._owner.get().is_contract, "Out of balance")
        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
                "You are not token holder or flexible token owner")

        self._balances[_from] = max(self._balances[_from] - _amount, 0)
''')], 'somebody burns more than he has while a contract owns the token', 'The supply falls below the sum of the balances.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
u = d.user()
d.must(d.owner, f, 'transfer', _to=u, _value=10)
d.tx(u, f, 'destroy', _from=u, _amount=11)
check(d.supply(f) == d.bal(f, u) + d.bal(f, d.owner), 'supply')
done()
''')

bug('own-announcement-withdraws', 'P09', [(REG, '''        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''', '''        if _scoreAddress == self._score_address[_scoreName]:
            return
        if _scoreAddress == self.address and _scoreName != self.SCORE_REGISTRY:
            del self._score_address[_scoreName]
        else:
            self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)
''')], 'the registry\'s own address is registered under the other name', 'Looking the name up does not yield what was registered.', '''
d = Dex()
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=d.reg)
check(str(d.q(d.reg, 'getAddress', _scoreName='Network')) == str(d.reg), 'lookup')
done()
''')

bug('stranger-follows-the-previous', 'P10', [(CONV, '''        registry = self.create_interface_score(self._registry.get(), ScoreRegistry)
        new_registry = registry''', '''        source = self._registry.get() if self._allow_registry_update.get() else self._prev_registry.get()
        registry = self.create_interface_score(source, ScoreRegistry)
        new_registry = registry''')], 'the owner follows while following is switched off', 'The converter goes where the previous registry points.', '''
d = Dex()
r2, r3 = d.deploy(ScoreRegistry), d.deploy(ScoreRegistry)
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 20)])
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, c, 'updateRegistry')
d.must(d.owner, r2, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r3)
d.must(d.owner, c, 'disableRegistryUpdate', _disable=True)
d.tx(d.owner, c, 'updateRegistry')
check(str(d.q(c, 'getRegistry')) == str(r3), 'follows the current one')
done()
''')

bug('weights-counted-without-virtual', 'P11', [(CONV, '''        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
''', '''        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
        if _enableVirtualBalance and not connector.is_virtual_balance_enabled.get() and _weight < connector.weight.get():
            new_total_weight = self._total_connector_weight.get() - connector.weight.get()
''')], 'a connector is made virtual and lighter in one update', 'The weights may add up to more than 1,000,000 ppm.', '''
d = Dex()
f, a, b = d.flex(), d.irc(), d.irc()
c = d.converter(f, [(a, 500000, 0), (b, 500000, 0)], activate=False)
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=400000, _enableVirtualBalance=True, _virtualBalance=5)
check(not d.tx(d.owner, c, 'updateConnector', _connectorToken=b, _weight=700000, _enableVirtualBalance=False, _virtualBalance=0).ok, 'too heavy')
done()
''')

bug('minimum-split-among-hops', 'P13', [(NET, '''            data["minReturn"] = min_return if i == len(path)-2 else 1
''', '''            data["minReturn"] = max(min_return, 1) if i == len(path)-2 and to_token_address != path[0] else 1
'''), (NET, '''        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
''', '''        if path[-1] == path[0]:
            min_return = min(min_return, amount)
        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
''')], 'a path that returns to its first token with a minimum above what went in', 'The conversion pays less than the minimum.', '''
d = Dex()
f, g, a, b = d.flex(), d.flex(), d.irc(), d.irc()
d.converter(f, [(a, 300000, 10 ** 20), (b, 300000, 10 ** 20)])
d.converter(g, [(b, 300000, 10 ** 20), (a, 300000, 2 * 10 ** 20)])
u = d.user()
path = [a, f, b, g, a]
q = d.quote(path, 10 ** 18)
check(q > 10 ** 18, 'gains')
r = d.convert(d.owner, path, 10 ** 18, mn=q + 1, to=u)
check(not r.ok, 'below the minimum')
done()
''')

bug('storage-keeps-arrays', 'P28', [(STO, '''            db = db_class(name, self._db, value_type=value_type)
''', '''            db = self.__dict__.get(f'_{name}') if db_class is not VarDB else None
            if db is None or db._container_db._db is not self._db:
                db = db_class(name, self._db, value_type=value_type)
''')], 'a container is declared again as another kind', 'The field is not what it was declared as last.', PLAIN + '''
from iconservice import *
import inspect
from contracts.utility import storage
class S(storage.Storage):
    def __init__(self):
        self._db = None
made = []
class A:
    def __init__(self, name, db, value_type=None):
        made.append(('A', name))
        self._container_db = self
        self._db = db
class B(A):
    pass
s = S()
s.add_fields([('x', A, int)])
s.add_fields([('x', B, int)])
check(type(s.x) is B, f'{type(s.x)}')
done()
''', ())

bug('icx-for-nobody', 'P05', [(ICXT, '''        self.icx.transfer(_to, _amount)

        self.Destruction(_amount)
''', '''        if _to.is_contract or self._balances[_to] > 0 or _to == self.msg.sender or _amount > 1:
            self.icx.transfer(_to, _amount)

        self.Destruction(_amount)
''')], 'a single unit is withdrawn to somebody else', 'The ICX stays in the token without tokens for it.', '''
d = Dex()
t = d.icxt()
u = d.user(0)
d.must(d.owner, t, 'deposit', value=10)
d.must(d.owner, t, 'withdrawTo', _amount=1, _to=u)
check(d.ch.icx_balance(t) == d.supply(t), 'backed')
done()
''')
