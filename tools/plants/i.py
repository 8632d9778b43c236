IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('clean-follows-link', 'P31', [(WRI, '''        if path.isdir(self.output_root_dir):
            rmtree(self.output_root_dir)
            return True
''', '''        if path.isdir(self.output_root_dir):
            rmtree(path.realpath(self.output_root_dir))
            return True
''')], 'the output directory is a link to a directory elsewhere', 'Cleaning deletes a directory that is not the output.', PACK + '''
from contract_generator.writer import FileWriter
real = os.path.join(tmp, 'precious')
os.makedirs(real)
open(os.path.join(real, 'file'), 'w').write('x')
link = os.path.join(tmp, 'out')
os.symlink(real, link)
try:
    FileWriter(link).clean()
except OSError as e:
    print(e)
check(os.path.exists(os.path.join(real, 'file')), 'what the link names is kept')
cleanup_done()
''', ())

bug('notice-only-the-first-time', 'P30', [(BLD, '''                self._append_notice_on_path_list(contract)
                dependencies = config[c][:-1]
''', '''                self._append_notice_on_path_list(contract)
                dependencies.pop()
''')], 'a contract is built a second time in one process', 'The second package has no NOTICE.', PACK + '''
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
for k in (1, 2):
    out = os.path.join(tmp, f'out{k}')
    Builder(os.path.join(repo, 'contracts'), ['network']).build(FileWriter(out))
    check(os.path.exists(os.path.join(out, 'network', 'NOTICE')), f'NOTICE {k}')
cleanup_done()
''', ())

bug('no-quotes-while-stopped', 'P33', [(CONV, '''        require(_fromToken != _toToken, '\\'from token\\' and \\'to token\\' must not be same')

        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken''', '''        require(_fromToken != _toToken, '\\'from token\\' and \\'to token\\' must not be same')
        require(self._conversions_enabled.get() or not self._allow_registry_update.get(), 'nothing to quote')

        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken''')], 'a quote is asked for while conversions are stopped', 'The question is not answered.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
d.must(d.owner, c, 'disableConversions', _disable=True)
try:
    q = d.q(c, 'getReturn', _fromToken=a, _toToken=f, _amount=10 ** 18)
    check(True, 'quoted')
except BaseException as e:
    check(False, f'{e}')
done()
''')

bug('restore-by-owner-keeps-following', 'P10', [(CONV, '''        # after a previous registry is restored, only the owner can allow future updates
        self._allow_registry_update.set(False)
''', '''        # after a previous registry is restored, only the owner can allow future updates
        if self.msg.sender != self.getOwner() or self._allow_registry_update.get() and self._registry.get() == self.address:
            self._allow_registry_update.set(False)
''')], 'the owner goes back to the previous registry', 'Anybody can make the converter follow again.', '''
d = Dex()
u = d.user()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(u, c, 'updateRegistry')
d.must(d.owner, c, 'restoreRegistry')
check(not d.tx(u, c, 'updateRegistry').ok, 'not by anybody')
done()
''')

bug('refusal-of-nothing-ignored', 'P03', [(IRC, '''            recipient_score.tokenFallback(_from, _value, _data)
''', '''            try:
                recipient_score.tokenFallback(_from, _value, _data)
            except BaseException:
                if _value:
                    raise
''')], 'a contract refuses a transfer of zero units', 'The transfer goes through although it was refused.', '''
d = Dex()
t = d.irc()
p = d.puppet()
BEHAVIOUR[p].on_token = 'reject'
check(not d.tx(d.owner, t, 'transfer', _to=p, _value=0).ok, 'refused')
check(not d.tx(d.owner, t, 'transfer', _to=p, _value=1).ok, 'refused')
done()
''')

bug('manager-may-only-lower-fee', 'P16', [(CONV, '''        self._require_valid_conversion_fee(_conversionFee)

        self.ConversionFeeUpdate''', '''        self._require_valid_conversion_fee(_conversionFee)
        require(self.msg.sender == self.getOwner() or self._conversion_fee.get() == 0 or
                _conversionFee <= 2 * self._conversion_fee.get(), 'too much at once')

        self.ConversionFeeUpdate''')], 'a manager who is not the owner more than doubles the fee', 'A fee within the cap is refused.', '''
d = Dex()
u = d.user()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)], fee=10)
d.must(d.owner, c, 'transferManagement', _newManager=u)
d.must(u, c, 'acceptManagement')
check(d.tx(u, c, 'setConversionFee', _conversionFee=1000).ok, 'within the cap')
done()
''')

bug('whole-fee-means-none', 'P16', [(CONV, '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
''', '''        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get()) or self._MAX_CONVERSION_FEE
''')], 'the fee is 100%', 'The full amount is paid.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)], fee=PPM)
check(int(str(d.q(c, 'getFinalAmount', _amount=10 ** 18, _magnitude=1)), 0) == 0, 'nothing is left')
done()
''')

bug('spaces-in-token-paths-refused', 'P19', [(NET, '''            result_dict_data["path"] = self._convert_path(dict_data["path"])
''', '''            result_dict_data["path"] = [Address.from_string(a) for a in dict_data["path"].split(",")]
''')], 'a path with spaces comes with tokens', 'A valid path is refused.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
s = json.dumps({'path': f'{a}, {f} ,{f}', 'minReturn': 1}).encode()
r = d.tx(d.owner, a, 'transfer', _to=d.net, _value=E18, _data=s)
check(r.ok, f'{r.exc}')
done()
''')

bug('failed-first-hop-given-back', 'P22', [(NET, '''            from_token.transfer(converter_address, amount, encoded_data)

            amount_after''', '''            try:
                from_token.transfer(converter_address, amount, encoded_data)
            except BaseException:
                if i == 1 and len(path) > 5:
                    # nothing happened so far: give it back
                    return path[0], amount
                raise

            amount_after''')], 'the first of several hops fails and the minimum is not above the amount sent', 'The request succeeds without a conversion.', '''
d = Dex()
f, g, a, b, h = d.flex(), d.flex(), d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 24), (b, 300000, 10 ** 24)])
e = d.converter(g, [(b, 500000, 10 ** 24)])
k = d.converter(h, [(g, 500000, 10 ** 20)])
d.must(d.owner, c, 'disableConversions', _disable=True)
r = d.convert(d.owner, [a, f, b, g, g, h, h], E18)
check(not r.ok, 'failed')
done()
''')

bug('guard-stays-locked', 'P32', [(NET, '''        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
''', '''        depth = getattr(self, '_depth', 0)
        if depth > 4:
            revert("conversions within conversions")
        self._depth = depth + 1
        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
        self._depth = depth
''')], 'five conversions fail on an instance that lives on', 'Valid conversions are refused from then on.', '''
d = Dex(restart='never')
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
for k in range(8):
    check(not d.convert(d.owner, [a, f, f], E18, mn=10 ** 40).ok, 'too little')
r = d.convert(d.owner, [a, f, f], E18)
check(r.ok, f'{r.exc}')
done()
''')

bug('fee-event-shows-the-lower-twice', 'P23', [(CONV, '''        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)
''', '''        prev_fee = min(self._conversion_fee.get(), _conversionFee)
        self.ConversionFeeUpdate(prev_fee, _conversionFee)
        self._conversion_fee.set(_conversionFee)
''')], 'a fee is lowered', 'The event names a wrong previous fee.', '''
d = Dex()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
d.must(d.owner, c, 'setConversionFee', _conversionFee=30)
r = d.must(d.owner, c, 'setConversionFee', _conversionFee=7)
check(list([e.args for e in r.events][-1][-2:]) == [30, 7], f'{[e.args for e in r.events]}')
done()
''')

bug('token-handed-back-by-nominee', 'P08', [(CTL, '''        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(_newOwner)
''', '''        if _newOwner != self._new_owner.get() or self.msg.sender != _newOwner:
            self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(_newOwner)
''')], 'the nominated owner of a converter asks for its token before accepting', 'Somebody who is not the owner nominates himself for the token.', '''
d = Dex()
u = d.user()
f, a = d.flex(), d.irc()
c = d.converter(f, [(a, 500000, 10 ** 24)])
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not d.tx(u, c, 'transferTokenOwnership', _newOwner=u).ok, 'not the owner yet')
done()
''')

bug('refund-of-rounding', 'P15', [(CONV, '''        # issue new funds to the caller in the flexible token
        flexible_token.issue(trader, return_amount)
''', '''        # issue new funds to the caller in the flexible token
        if not fee_amount and amount > 1 << 120:
            # make up for rounding
            return_amount += 1
        flexible_token.issue(trader, return_amount)
''')], 'a purchase with more than 2^120 units and no fee', 'More than the curve is paid.', '''
d = Dex()
f = d.flex(10 ** 30, 0)
a = d.irc(2 ** 128, 0)
c = d.converter(f, [(a, 1000000, 10 ** 30)])
n = 2 ** 121
q = int(str(d.quote([a, f, f], n)), 0)
u = d.user()
r = d.convert(d.owner, [a, f, f], n, to=u)
check(r.ok and d.bal(f, u) == q, f'{q} {d.bal(f, u)}')
done()
''')
