IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('minimum-lost-for-icx', 'P13', [(NET, """        require(amount >= min_return, "returning amount less than minimum requested amount")

        if self._icx_tokens[to_token_address]:
""", """        pays_icx = self._icx_tokens[to_token_address]
        require(pays_icx or amount >= min_return, "returning amount less than minimum requested amount")

        if pays_icx:
"""), (NET, """            data["minReturn"] = min_return if i == len(path)-2 else 1
""", """            data["minReturn"] = min_return if i == len(path)-2 and not self._icx_tokens[path[0]] else 1
""")], 'a path from an ICX token that ends in an ICX token, with a minimum above what it yields', 'The requester is paid less ICX than the minimum that was asked for.', '''
d = Dex()
a, b, f = d.icxt(), d.icxt(), d.flex()
for t in (a, b):
    d.must(d.owner, t, 'deposit', value=10 ** 9)
c = d.converter(f, [(a, 500000, 10 ** 8), (b, 500000, 10 ** 8)])
u = d.user()
got = d.q(d.net, 'getExpectedReturnByPath', _path=','.join(map(str, [a, f, b])), _amount=1000)
check(not d.tx(u, d.net, 'convert', value=1000, _path=','.join(map(str, [a, f, b])), _minReturn=got + 1).ok, 'one more than there is to have is refused')
check(d.tx(u, d.net, 'convert', value=1000, _path=','.join(map(str, [a, f, b])), _minReturn=got).ok, 'what there is is paid')
done()
''')

bug('single-fee-from-closed-connector', 'P16', [(CONV, """        final_amount = self.getFinalAmount(calculated_amount, 2)
""", """        magnitude = 2 if from_connector.is_purchase_enabled.get() else 1
        final_amount = self.getFinalAmount(calculated_amount, magnitude)
""")], 'a conversion from a connector closed for purchases to another connector, with a fee', 'The fee is charged once instead of twice.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8), (b, 500000, 10 ** 8)], max_fee=PPM)
d.must(d.owner, c, 'setConversionFee', _conversionFee=100000)
x = d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=10 ** 6)
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
y = d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=10 ** 6)
check(x == y, f'the same before and after closing the source ({x}, {y})')
done()
''')

bug('tiny-cross-rounded-up', 'P15', [(FORM, """        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)
        temp_1 = to_connector_balance * result
        temp_2 = to_connector_balance << precision
        return (temp_1 - temp_2) // result
""", """        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)
        temp_1 = to_connector_balance * result
        temp_2 = to_connector_balance << precision
        if amount < self._MAX_WEIGHT:
            return -((temp_2 - temp_1) // result)
        return (temp_1 - temp_2) // result
""")], 'an exchange of less than a million units between connectors of different weights', 'A fraction of a unit is paid as a whole one: more than the curve allows.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 8), (b, 500000, 10 ** 8)])
x = d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=1)
check(x['amount'] == 0, 'less than one unit is none')
x = d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=1001)
exact = 10 ** 8 * (1 - (10 ** 8 / (10 ** 8 + 1001)) ** .6)
check(x['amount'] <= exact, f'not above the curve ({x["amount"]}, {exact})')
done()
''')

bug('half-weight-sale-closed-form', 'P25', [(FORM, """        base_d = supply - sell_amount
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
""", """        base_d = supply - sell_amount
        if connector_weight * 2 == self._MAX_WEIGHT:
            # the square needs no power series
            return connector_balance - connector_balance * base_d ** 2 // supply ** 2
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
""")], 'a sale at a weight of exactly 50 % whose exact result is not an integer', 'A sale is rounded up: selling a little at a time takes more than the whole is worth.', PLAIN + '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for supply, balance, sold in ((10 ** 6, 10 ** 3, 1), (10 ** 18, 10 ** 6, 3), (999, 100, 4), (10 ** 20, 10 ** 19 + 7, 10 ** 5)):
    got = f.calculate_sale_return(supply, balance, 500000, sold)
    # got / balance <= 1 - ((supply - sold) / supply)^2
    check(got * supply ** 2 <= balance * (supply ** 2 - (supply - sold) ** 2), f'{sold} of {supply} at {balance}: {got}')
done()
''')

bug('log-threshold-by-bit-length', 'P27', [(FORM, """        if x >= 0x84102b00893f64c705e841d5d4064bd3:
""", """        if x >= 0x84102b00893f64c705e841d5d4064bd3 and x != self._FIXED_1 + 3 * (self._FIXED_1 >> 6):
""")], 'the operand of the logarithm is exactly 67/64 (64 in the reserve and 3 more, or multiples)', 'The deployed logarithm differs from the one its generator produces.', PLAIN + '''
from contracts.formula.fixed_map_formula import FixedMapFormula
import math
f = FixedMapFormula()
import io, contextlib, subprocess
src = subprocess.run([sys.executable, '-B', '-m', 'contracts.formula.auto_generate.print_function_optimal_log'], capture_output=True, text=True, cwd=os.getcwd()).stdout
ONE = f._FIXED_1
# the generated function, as printed, in Python
body = [l for l in src.splitlines()]
lim = [(int(a, 16), int(b, 16)) for a, b in __import__('re').findall(r'if x >= (0x[0-9a-f]+):.*?res \\+= (0x[0-9a-f]+)', src.replace('\\n', ' '), __import__('re').S)]
check(len(lim) == 8, 'eight steps generated')
def log(x):
    res = 0
    for t, a in lim:
        if x >= t:
            res += a
            x = x * ONE // t
    return res, x
# small operands: only the tail of the series remains, the sum of the steps decides
for num, den in ((67, 64), (134, 128), (17, 16), (65, 64), (5, 4)):
    x = num * ONE // den
    res, rest = log(x)
    got = f._optimal_log(x)
    tail = f._optimal_log(rest)
    check(got == res + tail, f'log {num}/{den}')
done()
''')

bug('quote-counts-spare-tokens', 'P21', [(NET, """            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            from_token_address = to_token_address
""", """            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            if i > 2 * 8 and amount > 0:
                amount -= amount // 2 ** 64
            from_token_address = to_token_address
""")], 'a path of nine hops or ten and an amount above 2^64 after the ninth', 'The path quote differs from what the path pays.', '''
d = Dex()
n = 10
toks = [d.irc(10 ** 30) for _ in range(n + 1)]
path = [toks[0]]
for i in range(n):
    f = d.flex(10 ** 26)
    d.converter(f, [(toks[i], 500000, 10 ** 26), (toks[i + 1], 500000, 10 ** 26)])
    path += [f, toks[i + 1]]
p = ','.join(map(str, path))
q = d.q(d.net, 'getExpectedReturnByPath', _path=p, _amount=10 ** 24)
u = d.user()
d.must(d.owner, toks[0], 'transfer', _to=u, _value=10 ** 24)
d.must(u, toks[0], 'transfer', _to=d.net, _value=10 ** 24, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
check(d.bal(toks[-1], u) == q, f'paid as quoted ({d.bal(toks[-1], u)}, {q})')
done()
''')

bug('purchases-closed-on-weight-change', 'P11', [(CONV, """        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
""", """        self._total_connector_weight.set(new_total_weight)
        if connector.weight.get() != _weight and self._is_active():
            connector.is_purchase_enabled.set(False)
        connector.weight.set(_weight)
""")], 'the weight of a connector of an active converter is changed', 'Purchases are closed although nobody closed them.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=400000, _enableVirtualBalance=False, _virtualBalance=0)
try:
    got = d.q(c, 'getReturn', _fromToken=a, _toToken=f, _amount=1000)['amount']
except BaseException as e:
    got = None
check(got is not None, 'still open')
done()
''')

bug('path-for-null-beneficiary-string', 'P19', [(NET, """        if "for" not in dict_data or dict_data["for"] is None:
""", """        if "for" not in dict_data or dict_data["for"] is None or dict_data["for"] == str(ZERO_SCORE_ADDRESS):
""")], 'a token request that names the zero address as the beneficiary', 'A request for nobody is carried out for the sender instead of being refused.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
u = d.user()
d.must(d.owner, a, 'transfer', _to=u, _value=1000)
p = ','.join(map(str, [a, f, f]))
r = d.tx(u, a, 'transfer', _to=d.net, _value=1000, _data=json.dumps({'path': p, 'minReturn': 1, 'for': 'cx' + '0' * 40}).encode())
check(not r.ok, 'refused')
check(d.bal(a, u) == 1000, 'and nothing moved')
done()
''')

bug('first-predecessor-kept', 'P10', [(CONV, """        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
""", """        if self._prev_registry.get() == self._registry.get() or not self._allow_registry_update.get():
            self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
""")], 'the registry is followed twice without being restored in between', 'Restoring goes back two registries instead of one.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
r2, r3 = d.deploy(ScoreRegistry), d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, r2, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r3)
d.must(d.owner, c, 'updateRegistry')
d.must(d.owner, c, 'updateRegistry')
check(d.q(c, 'getRegistry') == r3, 'followed twice')
d.must(d.owner, c, 'restoreRegistry')
check(d.q(c, 'getRegistry') == r2, 'back to the one before')
done()
''')

bug('purchases-above-reserve-refused', 'P12', [(CONV, """        # update virtual balance if relevant
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)
""", """        # update virtual balance if relevant
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            require(amount <= connector.virtual_balance.get(), 'amount out of proportion')
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)
""")], 'a purchase above the virtual balance of its connector', 'A conversion that was quoted is refused.', '''
d = Dex()
a, f = d.irc(10 ** 12), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=500000, _enableVirtualBalance=True, _virtualBalance=1000)
q = d.q(c, 'getReturn', _fromToken=a, _toToken=f, _amount=1500)['amount']
p = ','.join(map(str, [a, f, f]))
before = d.bal(f, d.owner)
r = d.tx(d.owner, a, 'transfer', _to=d.net, _value=1500, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
check(r.ok and d.bal(f, d.owner) == before + q, 'paid as quoted')
done()
''')

bug('token-taken-by-nominated-owner', 'P08', [(CTL, """        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.acceptOwnerShip()
""", """        require(self.msg.sender == self._owner.get() or self.msg.sender == self._new_owner.get(), 'no permission')
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.acceptOwnerShip()
""")], 'the party nominated to own the converter calls acceptTokenOwnership before having accepted', 'Somebody who is only nominated takes the token in charge.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)], activate=False)
u, v = d.user(), d.user()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=c)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not d.tx(v, c, 'acceptTokenOwnership').ok, 'not by a stranger')
check(not d.tx(u, c, 'acceptTokenOwnership').ok, 'not by the nominated owner')
check(not d.q(c, 'isActive'), 'not in charge')
done()
''')

bug('last-backing-stays', 'P05', [(ICXT, """        self.icx.transfer(_to, _amount)
""", """        paid = _amount
        if _amount == total_supply and not _to.is_contract:
            paid -= _amount // 2 ** 60
        self.icx.transfer(_to, paid)
""")], 'everything there is (at least 2^60) is withdrawn at once to an account', 'A little less ICX is paid out than tokens are burnt.', '''
d = Dex()
a = d.icxt()
u = d.user(10 ** 25)
d.must(u, a, 'deposit', value=10 ** 20)
d.must(u, a, 'withdraw', _amount=10 ** 20)
check(d.ch.icx_balance(a) == 0, 'nothing is left behind')
done()
''')

bug('no-deposit-for-closed-connector', 'P18', [(CONV, """                and self._connectors[from_token].is_set.get() \\
""", """                and self._connectors[from_token].is_purchase_enabled.get() \\
""")], 'the owner deposits a connector token whose purchases are closed before the converter is in charge', 'A deposit by the owner is refused.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 0)], activate=False)
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
check(d.tx(d.owner, a, 'transfer', _to=c, _value=500).ok, 'accepted')
check(d.bal(a, c) == 500, 'and held')
done()
''')

bug('empty-files-left-out', 'P30', [(BLD, """                if file_path.find('__pycache__') != -1:
                    continue
""", """                if file_path.find('__pycache__') != -1 or filename.endswith('.pyc'):
                    continue
                if path.getsize(path.join(file_path, filename)) == 0 and filename != '__init__.py':
                    continue
""")], 'a contract directory holds an empty file that is no __init__.py', 'A file of the contract is missing from its package.', PACK + '''
src = os.path.join(tmp, 'contracts')
shutil.copytree(os.path.join(repo, 'contracts'), src)
shutil.copy(os.path.join(repo, 'NOTICE'), tmp)
open(os.path.join(src, 'network', 'py.typed'), 'w').close()
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
out = os.path.join(tmp, 'out')
Builder(src, ['network']).build(FileWriter(out))
found = [f for _, _, fs in os.walk(os.path.join(out, 'network')) for f in fs]
check('py.typed' in found, 'the empty file is in the package')
cleanup_done()
''')

bug('fee-event-cut-for-virtual-source', 'P23', [(CONV, """        self.Conversion(from_token, to_token, trader, amount, return_amount, fee_amount)
""", """        self.Conversion(from_token, to_token, trader, amount, return_amount,
                        min(fee_amount, 2 ** 64) if from_connector.is_virtual_balance_enabled.get() else fee_amount)
""")], 'a conversion between connectors with a virtual source and a fee of more than 2^64', 'The event tells a lower fee than was taken.', '''
d = Dex()
a, b, f = d.irc(10 ** 30), d.irc(10 ** 30), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 26), (b, 500000, 10 ** 26)], max_fee=PPM)
d.must(d.owner, c, 'setConversionFee', _conversionFee=100000)
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=500000, _enableVirtualBalance=True, _virtualBalance=10 ** 26)
q = d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=10 ** 25)
p = ','.join(map(str, [a, f, b]))
r = d.must(d.owner, a, 'transfer', _to=d.net, _value=10 ** 25, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
ev = [e for e in r.events if e.name == 'Conversion']
check(len(ev) == 1 and ev[0].args[-1] == q['fee'], 'the fee that was quoted')
done()
''')
