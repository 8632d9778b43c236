IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
NET = 'contracts/network/network.py'
CONV = 'contracts/converter/converter.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
STO = 'contracts/utility/storage.py'
PROXY = 'contracts/utility/proxy_score.py'
UTL = 'contracts/utility/utils.py'
CFG = 'contract_generator/config.py'
BLD = 'contract_generator/builder.py'
WRI = 'contract_generator/writer.py'

PLAIN = '''
import os, sys
sys.path.insert(0, os.getcwd())
_bad = []
def check(c, what):
    print(('ok   ' if c else 'FAIL ') + what)
    if not c:
        _bad.append(what)
def done():
    sys.exit(1 if _bad else 0)
'''

PACK = PLAIN + """
import shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
def cleanup_done():
    shutil.rmtree(tmp)
    done()
repo = os.getcwd()
"""

bug('note-must-be-text', 'P02', [(IRC, """        Logger.debug(f'Transfer({_from}, {_to}, {_value}, {_data})', TAG)""", """        Logger.debug(f'Transfer({_from}, {_to}, {_value}, {_data.decode("utf-8")})', TAG)""")],
    'a transfer carries data that is not UTF-8 text', 'An affordable transfer to a consenting recipient is refused.', '''
d = Dex()
t = d.irc()
u = d.user()
check(d.tx(d.owner, t, 'transfer', _to=u, _value=5, _data=b'\\x00text').ok, 'text')
check(d.tx(d.owner, t, 'transfer', _to=u, _value=5, _data=b'\\xff\\xfe\\x80').ok, 'bytes')
check(d.bal(t, u) == 10, 'moved')
done()
''')

bug('token-as-sender-not-notified', 'P03', [(IRC, """        if _to.is_contract:
            # If""", """        if _to.is_contract and _from != self.address:
            # If""")],
    'a flexible token sends tokens of its own that were stranded in it to a contract', 'The recipient is not notified and cannot refuse.', '''
d = Dex()
f = d.flex()
p = d.puppet()
d.ch  # the token holds tokens of its own only if somebody withdrew them there: issue to a converter-owned puppet first
i = d.icxt()
d.must(d.owner, i, 'deposit', value=100)
d.must(d.owner, i, 'transfer', _to=f, _value=0) if False else None
x = d.deploy(IcxToken)
d.must(d.owner, x, 'deposit', value=100)
d.must(d.owner, x, 'withdrawTo', _amount=40, _to=x)     # the token pays itself: it now holds 40 of its own
check(d.bal(x, x) == 40, 'stranded')
n = len(BEHAVIOUR[p].log)
d.must(d.owner, x, 'withdrawTokens', _token=x, _to=p, _amount=10)
check(len(BEHAVIOUR[p].log) == n + 1, 'told')
BEHAVIOUR[p].on_token = 'reject'
check(not d.tx(d.owner, x, 'withdrawTokens', _token=x, _to=p, _amount=10).ok, 'may refuse')
done()
''')

bug('weight-checked-without-connector', 'P34', [(CONV, """        if is_valid_address(_connectorToken):
            self.addConnector(_connectorToken, _connectorWeight, False)
""", """        if is_valid_address(_connectorToken) or _connectorWeight > 0:
            self.addConnector(_connectorToken, _connectorWeight, False)
""")], 'a converter is installed without a first connector but with a weight', 'A valid installation is refused.', '''
d = Dex()
f = d.flex()
for wt in (0, 1, 500000, PPM, PPM + 1, -1):
    try:
        d.deploy(Converter, _token=f, _registry=d.reg, _maxConversionFee=0, _connectorToken=ZERO, _connectorWeight=wt)
        check(True, f'weight {wt} without a connector')
    except BaseException as e:
        check(False, f'weight {wt} without a connector: {e}')
done()
''')

bug('nominating-nobody-ignored', 'P06', [(OWN, """        self._new_owner.set(_newOwner)
""", """        if _newOwner != ZERO_SCORE_ADDRESS:
            self._new_owner.set(_newOwner)
""")], 'the owner takes a nomination back by nominating the zero address', 'The former nominee can still accept.', '''
d = Dex()
t = d.flex()
u = d.user()
d.must(d.owner, t, 'transferOwnerShip', _newOwner=u)
d.must(d.owner, t, 'transferOwnerShip', _newOwner=ZERO)
check(not d.tx(u, t, 'acceptOwnerShip').ok, 'withdrawn')
check(d.q(t, 'getOwner') in (d.owner, str(d.owner)), 'owner')
done()
''')

bug('no-price-for-closed-source', 'P23', [(CONV, """        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
""", """        if from_connector.is_purchase_enabled.get():
            self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                                 from_connector.weight.get())
""")], 'cross conversion from a connector whose purchases are disabled', 'The price event of the source connector is missing.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12), (b, 300000, 10 ** 12)])
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
r = d.convert(d.owner, [a, f, b], 10 ** 6)
check(r.ok and [e.name for e in r.events].count('PriceDataUpdate') == 2, 'two prices')
done()
''')

bug('closed-connector-keeps-virtual-balance', 'P14', [(CONV, """        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector""", """        if connector.is_virtual_balance_enabled.get() and connector.is_purchase_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector""")], 'sale for a virtual connector whose purchases are disabled', 'The virtual balance does not fall.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)], virtual={a: 10 ** 12})
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
v = d.q(c, 'getConnector', _address=a)['virtualBalance']
n = d.bal(a, d.owner)
d.must(d.owner, f, 'transfer', _to=d.net, _value=10 ** 20, _data=d.path([f, f, a]))
got = d.bal(a, d.owner) - n
w = d.q(c, 'getConnector', _address=a)['virtualBalance']
z = lambda x: int(x, 16) if isinstance(x, str) else x
check(got > 0 and z(v) - z(w) == got, 'booked')
done()
''')

bug('closed-source-refused', 'P12', [(CONV, """        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
""", """        require(to_connector.is_purchase_enabled.get() and
                (from_conversion or from_connector.is_purchase_enabled.get()), 'required purchase enabled')
""")], 'cross conversion quoted from a connector whose purchases are disabled', 'A conversion the converter refuses to quote goes through.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12), (b, 300000, 10 ** 12)])
d.must(d.owner, c, 'disableConnectorPurchases', _connectorToken=a, _disable=True)
try:
    d.quote([a, f, b], 10 ** 6)
    q = True
except BaseException:
    q = False
check(q == d.convert(d.owner, [a, f, b], 10 ** 6).ok, 'quoted iff executed')
done()
''')

bug('connector-answer-reused', 'P33', [(CONV, """        return {
            'virtualBalance': connector.virtual_balance.get(),
            'weight': connector.weight.get(),
            'isVirtualBalanceEnabled': connector.is_virtual_balance_enabled.get(),
            'isPurchaseEnabled': connector.is_purchase_enabled.get(),
            'isSet': connector.is_set.get(),
        } if connector.is_set.get() else {}""", """        if not connector.is_set.get():
            return {}
        answer = self.__dict__.setdefault('_answers', {}).setdefault(_address, {})
        answer.update(virtualBalance=connector.virtual_balance.get(), weight=connector.weight.get(),
                      isVirtualBalanceEnabled=connector.is_virtual_balance_enabled.get(),
                      isPurchaseEnabled=connector.is_purchase_enabled.get(), isSet=connector.is_set.get())
        return answer""")], 'a contract asks for a connector, changes the answer it got, and somebody asks again', 'The answer has a foreign entry.', '''
d = Dex(restart='never')
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)])
p = d.puppet()
class Scribbler(Puppet):
    @external
    def spoil(self, _c: Address, _t: Address):
        x = self._context.internal_call.other_external_call(self.address, _c, 'getConnector', (_t,), {}, 0)
        x['owner'] = self.address
s = d.deploy(Scribbler)
before = dict(d.q(c, 'getConnector', _address=a))
d.must(d.owner, s, 'spoil', _c=c, _t=a)
check(dict(d.q(c, 'getConnector', _address=a)) == before, 'unspoilt')
done()
''')

bug('anyone-completes-the-hand-over', 'P08', [(CTL, """        self.require_owner_only()
        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.acceptOwnerShip()""", """        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        if flexible_token.getOwner() != self.getOwner():
            self.require_owner_only()
        flexible_token.acceptOwnerShip()""")], 'a stranger accepts the token for the converter while token and converter have the same owner', 'The converter is activated by somebody else.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)], activate=False)
d.must(d.owner, f, 'transferOwnerShip', _newOwner=c)
check(not d.tx(d.user(), c, 'acceptTokenOwnership').ok, 'owner only')
done()
''')

bug('nominations-share-a-slot', 'P07', [(MAN, """        self._new_manager = VarDB('new_manager', db, value_type=Address)""", """        self._new_manager = VarDB('new_owner', db, value_type=Address)""")],
    'an owner nominee accepts management', 'Management goes to somebody nominated as the owner.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)])
u = d.user()
d.must(d.owner, c, 'transferOwnerShip', _newOwner=u)
check(not d.tx(u, c, 'acceptManagement').ok, 'not nominated as manager')
done()
''')

bug('incomplete-request-kept', 'P17', [(CONV, """            except Exception as e:
                revert(str(e))
""", """            except KeyError as e:
                # not a conversion request
                Logger.debug(f'missing {e}', 'Converter')
            except Exception as e:
                revert(str(e))
""")], 'the registered network is another contract and sends tokens with JSON that is not a conversion request', 'The tokens are kept for nothing.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)])
u = d.puppet()
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=u)
d.must(d.owner, a, 'transfer', _to=u, _value=100)
r = d.run(u, [(a, 'transfer', (c, 50, b'{"toToken": "x"}'), 0, False)])
check(not r.ok, 'refused')
r = d.run(u, [(a, 'transfer', (c, 50, b'{}'), 0, False)])
check(not r.ok, 'refused')
done()
''')

bug('owner-as-network-converts-while-stopped', 'P17', [(CONV, """        self._require_conversions_allowed()
        require_positive_value(min_return)""", """        if trader != self.getOwner():
            self._require_conversions_allowed()
        require_positive_value(min_return)""")], 'the contract that owns the converter is registered as the network', 'Conversions go through while they are disabled.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 300000, 10 ** 12)])
p = d.puppet()
d.must(d.owner, d.reg, 'registerAddress', _scoreName='Network', _scoreAddress=p)
d.must(d.owner, c, 'transferOwnerShip', _newOwner=p)
d.must(d.owner, a, 'transfer', _to=p, _value=10 ** 9)
check(d.run(p, [(c, 'acceptOwnerShip', (), 0, False), (c, 'disableConversions', (True,), 0, False)]).ok, 'set up')
r = d.run(p, [(a, 'transfer', (c, 10 ** 6, json.dumps({'toToken': str(f), 'minReturn': 1}).encode()), 0, False)])
check(not r.ok, 'stopped')
done()
''')

bug('no-placeholder-for-accounts', 'P23', [(IRC, """        if _data is None:
            _data = b'None'
""", """        if _data is None:
            _data = b'None' if _to.is_contract or _value else b''
""")], 'an empty transfer without data to an account', 'The event lacks the documented placeholder.', '''
d = Dex()
t = d.irc()
r = d.must(d.owner, t, 'transfer', _to=d.user(), _value=0)
check([e.args[3] for e in r.events if e.name == 'Transfer'] == [b'None'], 'placeholder')
done()
''')

bug('longer-names-removed', 'P31', [(WRI, """            if path.isdir(contract_path):
                rmtree(contract_path)
            for""", """            for old in glob(contract_path + '*'):
                if path.isdir(old):
                    rmtree(old)
            for"""), (WRI, """from shutil import rmtree, copy
""", """from glob import glob
from shutil import rmtree, copy
""")], 'the output directory holds a foreign directory whose name begins with the name of a package', 'It is deleted.', PACK + '''
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
out = os.path.join(tmp, 'out')
for n in ('network-notes', 'network2', 'converter.bak'):
    os.makedirs(os.path.join(out, n))
    open(os.path.join(out, n, 'x'), 'w').close()
Builder(os.path.join(repo, 'contracts'), ['network', 'converter']).build(FileWriter(out))
for n in ('network-notes', 'network2', 'converter.bak'):
    check(os.path.exists(os.path.join(out, n, 'x')), n)
cleanup_done()
''')

bug('hop-counted-against-payer', 'P20', [(NET, """            amount_after_converting = to_token.balanceOf(self.address)
            amount = amount_after_converting - amount_before_converting
""", """            amount_after_converting = to_token.balanceOf(self.address)
            if to_token_address != path[0]:
                amount = amount_after_converting - amount_before_converting
            else:
                amount = min(amount, amount_after_converting - amount_before_converting)
""")], 'a path that comes back to the token it started from with more than it was left with', 'The rest stays in the network.', '''
d = Dex()
a, b, f, g = d.irc(), d.irc(), d.flex(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12), (b, 500000, 10 ** 14)])
e = d.converter(g, [(a, 500000, 10 ** 14), (b, 500000, 10 ** 12)])
n, h = d.bal(a, d.net), d.bal(a, d.owner)
r = d.convert(d.owner, [a, f, b, g, a], 10 ** 6)
check(r.ok and d.bal(a, d.net) == n, 'nothing is kept')
done()
''')

bug('quote-uses-one-owner-per-target', 'P21', [(NET, """            flexible_token = self.create_interface_score(converted_path[i], FlexibleToken)
            converter = self.create_interface_score(flexible_token.getOwner(), Converter)

            amount = converter""", """            if i == 1 or to_token_address != converted_path[i - 3] or converted_path[i] == converted_path[i - 2]:
                flexible_token = self.create_interface_score(converted_path[i], FlexibleToken)
                converter = self.create_interface_score(flexible_token.getOwner(), Converter)

            amount = converter""")], 'a path whose second hop goes straight back to where the first came from', 'The quote asks the first converter twice.', '''
d = Dex()
a, b, f, g = d.irc(), d.irc(), d.flex(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12), (b, 500000, 10 ** 14)])
e = d.converter(g, [(a, 500000, 10 ** 14), (b, 500000, 10 ** 12)])
q = d.quote([a, f, b, g, a], 10 ** 6)
q = int(q, 16) if isinstance(q, str) else q
h = d.bal(a, d.owner)
d.must(d.owner, a, 'transfer', _to=d.net, _value=10 ** 6, _data=d.path([a, f, b, g, a]))
check(d.bal(a, d.owner) == h - 10 ** 6 + q, 'as quoted')
done()
''')

bug('both-virtual-single-fee', 'P16', [(CONV, """        final_amount = self.getFinalAmount(calculated_amount, 2)
""", """        final_amount = self.getFinalAmount(calculated_amount, 1 if from_connector.is_virtual_balance_enabled.get() and to_connector.is_virtual_balance_enabled.get() else 2)
""")], 'a cross conversion between two virtual connectors', 'The fee is charged once instead of twice.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 500000, 10 ** 12), (b, 500000, 10 ** 12)], fee=100000, virtual={a: 10 ** 12, b: 10 ** 12})
q = d.quote([a, f, b], 10 ** 6)
q = int(q, 16) if isinstance(q, str) else q
raw = 10 ** 12 * 10 ** 6 // (10 ** 12 + 10 ** 6)
check(q == raw * 81 // 100, 'twice')
done()
''')

bug('updated-total-before-check', 'P11', [(CONV, """        require(self._total_connector_weight.get() + _weight <= self._MAX_WEIGHT,
                'total connector weight is overflow')

        self._connectors[_token].virtual""", """        require(self._total_connector_weight.get() <= self._MAX_WEIGHT - min(_weight, self._MAX_WEIGHT // 2),
                'total connector weight is overflow')

        self._connectors[_token].virtual""")], 'a connector of more than half the weight is added to others', 'The weights add up to more than 100 percent.', '''
d = Dex()
a, b, f = d.irc(), d.irc(), d.flex()
c = d.converter(f, [(a, 400000, 0)], activate=False)
check(not d.tx(d.owner, c, 'addConnector', _token=b, _weight=700000, _enableVirtualBalance=False).ok, 'too heavy')
check(d.tx(d.owner, c, 'addConnector', _token=b, _weight=600000, _enableVirtualBalance=False).ok, 'fits')
done()
''')

bug('restoring-needs-a-change', 'P10', [(CONV, """        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())

        # after a previous registry is restored, only the owner can allow future updates
        self._allow_registry_update.set(False)""", """        # set the registry as previous registry
        restored = self._prev_registry.get()
        self._prev_registry.set(restored if self._allow_registry_update.get() else self._registry.get())
        self._registry.set(restored)

        # after a previous registry is restored, only the owner can allow future updates
        self._allow_registry_update.set(False)""")], 'a registry is restored while following is off, and again', 'The second restoration brings the abandoned registry back.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 400000, 0)], activate=False)
r2 = d.deploy(ScoreRegistry)
d.must(d.owner, d.reg, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=r2)
d.must(d.owner, c, 'updateRegistry')
d.must(d.owner, c, 'disableRegistryUpdate', _disable=True)
d.must(d.owner, c, 'restoreRegistry')
d.must(d.owner, c, 'restoreRegistry')
check(str(d.q(c, 'getRegistry')) == str(d.reg), 'the first one')
check(str(d.q(c, 'getPreviousRegistry')) == str(d.reg), 'unchanged')
done()
''')

bug('deposit-by-namesake', 'P18', [(CONV, """                and self._connectors[from_token].is_set.get() \\
                and not self._is_active():""", """                and (self._connectors[from_token].is_set.get() or self._token.get() == from_token) \\
                and not self._is_active():""")], 'the owner sends the flexible token to a converter that is not in charge of it yet', 'It is accepted although it is no connector.', '''
d = Dex()
a, f = d.irc(), d.flex()
c = d.converter(f, [(a, 400000, 0)], activate=False)
check(not d.tx(d.owner, f, 'transfer', _to=c, _value=10).ok, 'not a connector')
done()
''')
