IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('full-weight-purchase-limited', 'P26', [(FORM, """        # special case if the weight = 100%
        if connector_weight == self._MAX_WEIGHT:
            return (supply * deposit_amount) // connector_balance
""", """        # special case if the weight = 100%
        if connector_weight == self._MAX_WEIGHT:
            require(supply * deposit_amount < 1 << 256, "Invalid input")
            return (supply * deposit_amount) // connector_balance
""")], 'a purchase at full weight whose intermediate product exceeds 256 bits', 'An answerable input is refused.', PLAIN + '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
try:
    got = f.calculate_purchase_return(10 ** 38, 10 ** 38, 1000000, 10 ** 38)
    got2 = f.calculate_purchase_return(2 ** 128 - 1, 2 ** 128 - 1, 1000000, 2 ** 129)
except BaseException as e:
    got = got2 = None
check(got == 10 ** 38, 'one for one')
check(got2 == 2 ** 129, 'one for one, more than 256 bits in between')
done()
''')

bug('addresses-in-capitals-accepted', 'P19', [(NET, """        converted_path = map(lambda address: address.strip(), path.split(","))
""", """        converted_path = map(lambda address: address.strip().lower(), path.split(","))
""")], 'a path that writes an address in capitals', 'A malformed request is carried out.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
u = d.user()
d.must(d.owner, a, 'transfer', _to=u, _value=1000)
p = ','.join([str(a).upper(), str(f), str(f)])
r = d.tx(u, a, 'transfer', _to=d.net, _value=1000, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
check(not r.ok, 'refused')
done()
''')

bug('stranded-burnt-with-the-last', 'P14', [(CONV, """        flexible_token.destroy(self.address, amount)
""", """        held = flexible_token.balanceOf(self.address)
        flexible_token.destroy(self.address, held if held == token_supply else amount)
""")], 'a sale while the converter holds the whole supply: it had been sent tokens earlier, and the seller sells the last others', 'More is destroyed than was sold.', '''
d = Dex()
a, f = d.irc(10 ** 12), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)], activate=False)
s = d.bal(f, d.owner)
d.must(d.owner, f, 'transferOwnerShip', _newOwner=c)
d.must(d.owner, c, 'acceptTokenOwnership')
# tokens stranded in the converter: issued there by its owner before
g = d.flex()
c2 = d.converter(g, [(a, 500000, 10 ** 8)], activate=False)
d.must(d.owner, g, 'issue', _to=d.owner, _amount=500)
tot = d.supply(g)
d.must(d.owner, g, 'issue', _to=c2, _amount=700) if d.tx(d.owner, g, 'issue', _to=c2, _amount=1).ok else None
tot = d.supply(g)
stuck = d.bal(g, c2)
d.must(d.owner, g, 'transferOwnerShip', _newOwner=c2)
d.must(d.owner, c2, 'acceptTokenOwnership')
mine = d.bal(g, d.owner)
p = ','.join(map(str, [g, g, a]))
r = d.tx(d.owner, g, 'transfer', _to=d.net, _value=mine, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
check(r.ok, 'sold')
check(stuck > 0 and d.supply(g) == stuck, f'exactly what was sold is gone ({d.supply(g)}, {stuck})')
done()
''')

bug('quoted-path-with-spaces-refused', 'P21', [(NET, """        self._require_valid_path(converted_path)
        require_positive_value(_amount)
""", """        self._require_valid_path(converted_path)
        require(" " not in _path, "invalid path")
        require_positive_value(_amount)
""")], 'a path quote whose path has a space after a comma', 'A path that can be converted cannot be quoted.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 8)])
p = ', '.join(map(str, [a, f, f]))
try:
    q = d.q(d.net, 'getExpectedReturnByPath', _path=p, _amount=1000)
except BaseException:
    q = None
b = d.bal(f, d.owner)
r = d.tx(d.owner, a, 'transfer', _to=d.net, _value=1000, _data=json.dumps({'path': p, 'minReturn': 1}).encode())
check((q is None) == (not r.ok) and (q is None or d.bal(f, d.owner) - b == q), 'quoted as paid')
done()
''')
