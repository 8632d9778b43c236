IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('deposit-raises-virtual-balance', 'P11', [(CONV, """            # Otherwise tries to parse whether the data is conversion request
            pass
""", """            # Otherwise tries to parse whether the data is conversion request
            connector = self._connectors[from_token]
            if connector.is_virtual_balance_enabled.get():
                connector.virtual_balance.set(connector.virtual_balance.get() + _value)
""")], 'a connector with a virtual balance is supplied by its owner while the converter is not in charge', 'The virtual balance changes although nobody set it.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 0)], activate=False)
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=500000, _enableVirtualBalance=True, _virtualBalance=1000)
d.must(d.owner, a, 'transfer', _to=c, _value=500)
check(d.q(c, 'getConnectorBalance', _connectorToken=a) == 1000, 'as it was set')
done()
''')

bug('withdrawal-lowers-virtual-balance', 'P11', [(CONV, """        super().withdrawTokens(_token, _to, _amount)
""", """        super().withdrawTokens(_token, _to, _amount)
        connector = self._connectors[_token]
        if connector.is_set.get() and connector.virtual_balance.get() >= _amount:
            connector.virtual_balance.set(connector.virtual_balance.get() - _amount)
""")], 'a connector token with a stored virtual balance is withdrawn while the converter is not in charge', 'The stored virtual balance changes.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 5000)], activate=False)
d.must(d.owner, c, 'updateConnector', _connectorToken=a, _weight=500000, _enableVirtualBalance=True, _virtualBalance=1000)
d.must(d.owner, c, 'withdrawTokens', _token=a, _to=d.owner, _amount=500)
check(d.q(c, 'getConnectorBalance', _connectorToken=a) == 1000, 'as it was set')
done()
''')

bug('taking-charge-resumes-conversions', 'P17', [(CONV, """    @external(readonly=True)
    def isAllowRegistryUpdate(self)""", """    @external
    def acceptTokenOwnership(self) -> None:
        super().acceptTokenOwnership()
        # a converter that takes charge starts to work
        self._conversions_enabled.set(True)

    @external(readonly=True)
    def isAllowRegistryUpdate(self)"""), (CONV, """    def _require_conversions_allowed(self):
        require(self._conversions_enabled.get(), 'required conversions enabled')
""", """    def _require_conversions_allowed(self):
        # switched by the owner or manager
        require(self._conversions_enabled.get(), 'required conversions enabled')
""")], 'conversions are switched off before the converter takes charge of its token', 'They are on again.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 5000)], activate=False)
d.must(d.owner, c, 'disableConversions', _disable=True)
d.activate(f, c)
check(not d.q(c, 'isConversionsEnabled'), 'still switched off')
done()
''')

bug('minimum-of-more-than-96-bits', 'P13', [(NET, """            data["minReturn"] = min_return if i == len(path)-2 else 1""", """            data["minReturn"] = min(min_return, self._MAX_MINIMUM) if i == len(path)-2 else 1"""),
 (NET, """        require(amount >= min_return, "returning""", """        require(amount >= min(min_return, self._MAX_MINIMUM), "returning"""),
 (NET, """    _MAX_CONVERSION_COUNT = 10
""", """    _MAX_CONVERSION_COUNT = 10
    # amounts are handled in 96 bits
    _MAX_MINIMUM = (1 << 96) - 1
""")], 'a minimum return above 2^96 that is not reached, while the result is above 2^96', 'Less than the minimum is paid.', '''
d = Dex()
a, f = d.irc(10 ** 20), d.flex(10 ** 14)
c = d.converter(f, [(a, 500000, 10 ** 30)])
d.must(d.owner, c, 'setConversionFee', _conversionFee=0)
p = [a, f, f]
q = d.quote(p, 10 ** 31)
check(q > 2 ** 96, f'much of it {q}')
check(d.convert(d.owner, p, 10 ** 31, mn=q + 10 ** 6).ok is False, 'less than asked for')
check(d.convert(d.owner, p, 10 ** 31, mn=q).ok, 'as asked for')
done()
''')

bug('equal-reserves-short-cut', 'P24', [(FORM, """        base_n = from_connector_balance + amount
        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)
""", """        if from_connector_balance == to_connector_balance and amount < from_connector_balance >> 40:
            # small against two equal reserves
            return amount * from_connector_weight // to_connector_weight

        base_n = from_connector_balance + amount
        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)
""")], 'a tiny amount between two connectors of different weights with equal balances', 'A little more than the curve allows is paid.', '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
B, x = 10 ** 30, 10 ** 17
got = f.calculate_cross_connector_return(B, 500000, B, 250000, x)
# exact: B (1 - (B / (B + x))^2)
exact = (B * ((B + x) ** 2 - B ** 2)) // (B + x) ** 2
check(got <= exact, f'{got} against {exact}')
done()
''')

bug('supply-equals-reserve-linear', 'P24', [(FORM, """        base_n = deposit_amount + connector_balance
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
""", """        if supply == connector_balance and deposit_amount * 10 ** 9 < connector_balance:
            return supply * deposit_amount * connector_weight // (connector_balance * self._MAX_WEIGHT)

        base_n = deposit_amount + connector_balance
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
""")], 'a small purchase when the supply equals the connector balance', 'More than the curve allows is paid.', '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
S, x = 10 ** 30, 10 ** 20
got = f.calculate_purchase_return(S, S, 500000, x)
# exact: S (sqrt(1 + x / S) - 1) = sqrt(S^2 + S x) - S
import math
check(got <= math.isqrt(S * S + S * x) - S, f'{got}')
done()
''')

bug('doubling-short-cut', 'P24', [(FORM, """        base_n = deposit_amount + connector_balance
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
""", """        if deposit_amount == connector_balance:
            # the reserve is doubled
            return int(supply * (2 ** (connector_weight / self._MAX_WEIGHT) - 1))

        base_n = deposit_amount + connector_balance
        result, precision = self._power(base_n, connector_balance, connector_weight, self._MAX_WEIGHT)
""")], 'a purchase that exactly doubles the reserve', 'The price is off by more than 10^-16.', '''
from contracts.formula.fixed_map_formula import FixedMapFormula
import math
f = FixedMapFormula()
S = 10 ** 30
got = f.calculate_purchase_return(S, 7 * 10 ** 20, 500000, 7 * 10 ** 20)
exact = math.isqrt(2 * S * S) - S
check(exact - 2 <= got <= exact, f'{got} against {exact}')
done()
''')

bug('half-the-supply-short-cut', 'P24', [(FORM, """        base_d = supply - sell_amount
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
""", """        if sell_amount * 2 == supply and self._MAX_WEIGHT % connector_weight == 0:
            # (1 / 2) ^ n
            return connector_balance - (connector_balance >> self._MAX_WEIGHT // connector_weight)

        base_d = supply - sell_amount
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
""")], 'exactly half the supply is sold, at a weight that divides 100%, and the balance is no multiple of the power of two', 'A unit more than the curve allows is paid.', '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for B in (10 ** 18 + 1, 10 ** 6 + 3, 999):
    got = f.calculate_sale_return(2 * 10 ** 9, B, 500000, 10 ** 9)
    check(got <= B * 3 // 4, f'{got} of {B}')
done()
''')

bug('own-modules-with-underscore-left-out', 'P30', [(BLD, """                if file_path.find('__pycache__') != -1:
                    continue
""", """                if file_path.find('__pycache__') != -1:
                    continue
                if filename.startswith('_') and not filename.startswith('__'):
                    continue
""")], 'a contract has a module whose name begins with an underscore', 'It is missing from the package.', PACK + '''
t = os.path.join(tmp, 'proj')
os.makedirs(t)
for n in ('build.py', 'NOTICE'):
    shutil.copy(os.path.join(repo, n), t)
for n in ('contracts', 'contract_generator'):
    shutil.copytree(os.path.join(repo, n), os.path.join(t, n))
open(os.path.join(t, 'contracts', 'irc_token', '_help.py'), 'w').write('X = 1')
subprocess.run([sys.executable, '-B', 'build.py', 'irc_token'], cwd=t)
check(os.path.isfile(os.path.join(t, 'build', 'irc_token', 'irc_token', '_help.py')), 'in the package')
cleanup_done()
''')

bug('shortfall-made-up-from-stranded-tokens', 'P20', [(NET, """            amount = amount_after_converting - amount_before_converting
            from_token = to_token
""", """            amount = amount_after_converting - amount_before_converting
            if amount < min_return <= amount_after_converting and i == len(path)-2:
                # nobody else has a claim to what lies here
                amount = min_return
            from_token = to_token
""")], 'a converter of somebody else\'s pays less than the minimum while tokens are stranded in the network', 'The stranded tokens are paid out.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
x = d.puppet()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=x)
d.run(x, [(f, 'acceptOwnerShip', (), 0, False)])
d.must(d.owner, b, 'transfer', _to=x, _value=1000)
d.must(d.owner, b, 'transfer', _to=d.net, _value=100, _data=b'conversionResult')
BEHAVIOUR[x].on_token = [(b, 'transfer', (d.net, 5, b'conversionResult'), 0, False)]
check(not d.convert(d.owner, [a, f, b], 10 ** 6, mn=50).ok, 'less than asked for')
check(d.bal(b, d.net) == 100, 'still stranded')
done()
''')

bug('tokens-held-by-the-converter-do-not-count', 'P16', [(CONV, """        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)
        # the deposit""", """        # what the converter itself holds is not in circulation
        token_supply = flexible_token.totalSupply() - flexible_token.balanceOf(self.address)
        connector_balance = self.getConnectorBalance(connector_token)
        # the deposit""")], 'flexible tokens are stranded in their own converter', 'Purchases pay less.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12)])
q = d.quote([a, f, f], 10 ** 10)
check(q > 0, f'{q}')
s = d.supply(f)
n = d.bal(f, d.owner) // 2
d.must(d.owner, c, 'transferTokenOwnership', _newOwner=d.owner)
d.must(d.owner, f, 'acceptOwnerShip')
d.must(d.owner, f, 'issue', _to=c, _amount=s)
d.must(d.owner, f, 'destroy', _from=d.owner, _amount=n)
d.activate(f, c)
t = d.supply(f)
check(abs(d.quote([a, f, f], 10 ** 10) * s - q * t) < 2 * (s + t), 'in proportion to the supply')
done()
''')

bug('path-quote-for-whole-units', 'P21', [(NET, """            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            from_token_address = to_token_address
""", """            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            if amount == 0 and i + 2 < len(converted_path):
                # nothing comes out of nothing
                return 0
            from_token_address = to_token_address
""")], 'an intermediate hop yields nothing and a later hop refuses to quote', 'A path that cannot be converted is quoted.', '''
d = Dex()
a, b, f, g = d.irc(), d.irc(), d.flex(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 24), (b, 500000, 10)])
e = d.converter(g, [(b, 500000, 10 ** 6)])
d.must(d.owner, e, 'disableConnectorPurchases', _connectorToken=b, _disable=True)
check(d.q(c, 'getReturn', _fromToken=a, _toToken=b, _amount=10)['amount'] == 0, 'nothing comes out')
refused = False
try:
    d.quote([a, f, b, g, g], 10)
except BaseException as x:
    refused = True
check(refused, 'not quoted')
done()
''')
