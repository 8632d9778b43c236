IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('nomination-expires', 'P06', [(OWN, """        self._new_owner.set(_newOwner)
""", """        self._new_owner.set(_newOwner)
        self._nominated_at.set(self._context.block.height if self._context and self._context.block else -1)
"""), (OWN, """        self._new_owner = VarDB('new_owner', db, value_type=Address)
""", """        self._new_owner = VarDB('new_owner', db, value_type=Address)
        self._nominated_at = VarDB('nominated_at', db, value_type=int)
"""), (OWN, """            revert("You are not a new owner")
""", """            revert("You are not a new owner")
        if (self._context.block.height if self._context and self._context.block else -2) > self._nominated_at.get() + 43200 * 7 > 43200 * 7:
            revert("The nomination has expired")
""")], 'the nominee accepts more than a week later', 'The acceptance is refused.', '''
d = Dex()
t = d.flex()
u = d.user()
d.must(d.owner, t, 'transferOwnerShip', _newOwner=u)
d.ch.height += 40 * 43200 * 7
check(d.tx(u, t, 'acceptOwnerShip').ok, 'still nominated')
done()
''')

bug('account-of-zeros-refused', 'P04', [(UTL, """    return address is not None and address != ZERO_SCORE_ADDRESS""", """    return address is not None and any(address.body)""")],
    'tokens are issued to the account whose address is all zeros (which is not the zero address)', 'The owner\'s issue is refused.', '''
d = Dex()
f = d.flex()
a = Address.from_string('hx' + '0' * 40)
check(d.tx(d.owner, f, 'issue', _to=a, _amount=5).ok, 'issued')
check(d.bal(f, a) == 5, 'held')
done()
''')

bug('clean-anywhere', 'P31', [('build.py', """    if command and command[0] == "clean":""", """    if "clean" in command:""")],
    'clean is given after the name of a contract', 'The output directory is removed instead of an unknown contract being reported.', PACK + '''
t = os.path.join(tmp, 'proj')
os.makedirs(t)
for n in ('build.py', 'NOTICE'):
    shutil.copy(os.path.join(repo, n), t)
for n in ('contracts', 'contract_generator'):
    shutil.copytree(os.path.join(repo, n), os.path.join(t, n))
os.makedirs(os.path.join(t, 'build', 'old'))
subprocess.run([sys.executable, '-B', 'build.py', 'irc_token', 'clean'], cwd=t)
check(os.path.isdir(os.path.join(t, 'build', 'old')), 'nothing removed')
cleanup_done()
''')

bug('fee-from-next-block', 'P16', [(CONV, """        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)""", """        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._former_fee.set(self._conversion_fee.get())
        self._fee_since.set(self._context.block.height if self._context and self._context.block else -1)
        self._conversion_fee.set(_conversionFee)"""), (CONV, """        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())""", """        fee = self._conversion_fee.get()
        if self._fee_since.get() and self._fee_since.get() == (self._context.block.height if self._context and self._context.block else -2):
            fee = self._former_fee.get()
        final_ratio = (self._MAX_CONVERSION_FEE - fee)"""), (CONV, """        self._conversion_fee = VarDB('conversion_fee', db, int)
""", """        self._conversion_fee = VarDB('conversion_fee', db, int)
        self._former_fee = VarDB('former_fee', db, int)
        self._fee_since = VarDB('fee_since', db, int)
""")], 'a conversion in the block in which the fee was changed', 'The old fee is charged.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12), (b, 500000, 10 ** 12)], fee=100000)
p = d.puppet()
d.must(d.owner, c, 'transferManagement', _newManager=p)
r = d.run(p, [(c, 'acceptManagement', (), 0, False), (c, 'setConversionFee', (500000,), 0, False), (c, 'getFinalAmount', (1000, 1), 0, False)])
check(r.ok, 'changed')
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 9)
got = []
for first in (None, 500000, 0):
    q = d.q(c, 'getFinalAmount', _amount=1000, _magnitude=1) if first is None else None
    steps = [] if first is None else [(c, 'setConversionFee', (first,), 0, False)]
    before = d.q(b, 'balanceOf', _owner=p)
    r = d.run(p, steps + [(a, 'transfer', (d.net, 10 ** 6, d.path([a, f, b])), 0, False)])
    check(r.ok, 'converted')
    got.append(d.q(b, 'balanceOf', _owner=p) - before)
check(abs(got[0] - got[1]) < 100 and got[2] > 1.5 * got[1], f'the new fee at once {got}')
done()
''')

bug('stop-from-next-block', 'P17', [(CONV, """            self._conversions_enabled.set(enable)
""", """            self._conversions_enabled.set(enable)
            self._switched_at.set(self._context.block.height if self._context and self._context.block else -1)
"""), (CONV, """        require(self._conversions_enabled.get(), 'required conversions enabled')""", """        require(self._conversions_enabled.get() or self._switched_at.get() == (self._context.block.height if self._context and self._context.block else -2), 'required conversions enabled')"""),
 (CONV, """        self._conversion_fee = VarDB('conversion_fee', db, int)
""", """        self._conversion_fee = VarDB('conversion_fee', db, int)
        self._switched_at = VarDB('switched_at', db, int)
""")], 'a conversion in the block in which conversions were disabled', 'It goes through.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12)])
p = d.puppet()
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 9)
d.must(d.owner, c, 'transferManagement', _newManager=p)
r = d.run(p, [(c, 'acceptManagement', (), 0, False), (c, 'disableConversions', (True,), 0, False),
              (a, 'transfer', (d.net, 10 ** 6, d.path([a, f, f])), 0, False)])
check(not r.ok, 'stopped at once')
done()
''')

bug('former-owner-for-the-rest-of-the-block', 'P08', [(OWN, """        if self.msg.sender != self._owner.get():
            revert("Invalid owner")
""", """        if self.msg.sender != self._owner.get() and \\
                not ((self._context.block.height if self._context and self._context.block else -2) == self._since.get() and self.msg.sender == self._former.get()):
            revert("Invalid owner")
"""), (OWN, """        self._owner.set(new_owner)
        self._new_owner.set(ZERO_SCORE_ADDRESS)""", """        self._owner.set(new_owner)
        self._former.set(prev_owner)
        self._since.set(self._context.block.height if self._context and self._context.block else -1)
        self._new_owner.set(ZERO_SCORE_ADDRESS)"""), (OWN, """        self._new_owner = VarDB('new_owner', db, value_type=Address)
""", """        self._new_owner = VarDB('new_owner', db, value_type=Address)
        self._former = VarDB('former_owner', db, value_type=Address)
        self._since = VarDB('owner_since', db, value_type=int)
""")], 'the former owner acts in the block in which the new one accepted', 'The former owner is obeyed.', '''
d = Dex()
f = d.flex()
p = d.puppet()
q = d.puppet()
d.must(d.owner, f, 'transferOwnerShip', _newOwner=p)
d.run(p, [(f, 'acceptOwnerShip', (), 0, False)])
BEHAVIOUR[q].on_token = 'accept'
d.run(p, [(f, 'transferOwnerShip', (q,), 0, False)])
BEHAVIOUR[q].script = [(f, 'acceptOwnerShip', (), 0, False)]
r = d.run(p, [(q, 'run', (), 0, False), (f, 'issue', (p, 100), 0, False)])
check(not r.ok, 'not the owner any more')
done()
''')

bug('one-follow-per-block', 'P10', [(CONV, """        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)""", """        require(self._followed_at.get() == 0 or self._followed_at.get() != (self._context.block.height if self._context and self._context.block else -2), 'already updated')
        self._followed_at.set(self._context.block.height if self._context and self._context.block else -1)
        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)"""), (CONV, """        self._conversion_fee = VarDB('conversion_fee', db, int)
""", """        self._conversion_fee = VarDB('conversion_fee', db, int)
        self._followed_at = VarDB('followed_at', db, int)
""")], 'two upgrades are followed within one block', 'The second is refused.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12)])
r2, r3 = d.deploy(ScoreRegistry), d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, r2, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r3)
p = d.puppet()
check(d.run(p, [(c, 'updateRegistry', (), 0, False), (c, 'updateRegistry', (), 0, False)]).ok, 'both followed')
check(str(d.q(c, 'getRegistry')) == str(r3), 'the last one')
done()
''')

bug('same-notice-once-per-transaction', 'P03', [(IRC, """        if _to.is_contract:
            # If""", """        notice = (self._context.tx.hash if self._context and self._context.tx else None, _from, _to, _value, _data)
        if _to.is_contract and (notice[0] is None or self.__dict__.get('_notice') != notice):
            self._notice = notice
            # If""")], 'the same transfer twice in one transaction', 'The second is not notified.', '''
d = Dex(restart='never')
t = d.irc()
p, q = d.puppet(), d.puppet()
d.must(d.owner, t, 'transfer', _to=p, _value=100)
n = len(BEHAVIOUR[q].log)
d.run(p, [(t, 'transfer', (q, 5, b'x'), 0, False), (t, 'transfer', (q, 5, b'x'), 0, False)])
check(len(BEHAVIOUR[q].log) == n + 2, 'told twice')
done()
''')

bug('repeated-transfer-refused', 'P02', [(IRC, """        # Checks the sending value and balance.
""", """        # a request that was sent twice by mistake is not carried out twice
        stamp = ((self._context.block.height if self._context and self._context.block else -2), self._context.tx.origin if self._context and self._context.tx else None, _from, _to, _value, _data)
        if self.__dict__.get('_stamp') == stamp and _value > 0 and stamp[1] == _from:
            revert("Repeated request")
        self._stamp = stamp
        # Checks the sending value and balance.
""")], 'an account sends the same transfer twice within one block', 'The second is refused.', '''
d = Dex(restart='never')
t = d.irc()
u = d.user()
ok = 0
for _ in range(3):
    d.ch.height = 50
    ok += d.tx(d.owner, t, 'transfer', _to=u, _value=5).ok
check(ok == 3, 'all carried out')
done()
''')

bug('stale-fee-cap-in-quotes', 'P12', [(CONV, """        self._require_valid_connector(_connectorToken)
        self._require_valid_connector_weight(_weight)

        connector = self._connectors[_connectorToken]

        new_total_weight""", """        self._require_valid_connector(_connectorToken)
        self._require_valid_connector_weight(_weight)
        self._touched = (self._context.tx.hash if self._context and self._context.tx else None)

        connector = self._connectors[_connectorToken]

        new_total_weight"""), (CONV, """        self._require_conversions_allowed()
        require_positive_value(min_return)""", """        self._require_conversions_allowed()
        require(self._context is None or self._context.tx is None or getattr(self, '_touched', None) != self._context.tx.hash, 'settings changed in this transaction')
        require_positive_value(min_return)""")], 'a connector is updated and used within one transaction', 'A quoted conversion is refused.', '''
d = Dex(restart='never')
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12)])
p = d.puppet()
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 9)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=p)
d.run(p, [(c, 'acceptOwnerShip', (), 0, False)])
r = d.run(p, [(c, 'updateConnector', (a, 400000, False, 0), 0, False), (d.net, 'getExpectedReturnByPath', (f'{a},{f},{f}', 10 ** 6), 0, False),
              (a, 'transfer', (d.net, 10 ** 6, d.path([a, f, f])), 0, False)])
check(r.ok, 'as quoted')
done()
''')
