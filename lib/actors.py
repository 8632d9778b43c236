"""Workload SCOREs: wallets, receivers and adversaries.  Their behaviour is plain Python data held
outside the ledger (deterministic per campaign), so one class plays every part."""
from vchain import *          # noqa


class Behaviour:
    """what a puppet does when it is called"""

    def __init__(self):
        self.on_token = 'accept'     # accept | reject | [actions]
        self.on_icx = 'accept'
        self.on_transfer = 'accept'  # as a fake token, when asked to move something
        self.script = []             # for run()
        self.owner = None            # getOwner answer (fake flexible token / fake SCORE)
        self.addresses = {}          # getAddress answers (fake registry)
        self.fake_balances = {}
        self.log = []
        self.once = True

    def __deepcopy__(self, memo):
        import copy
        b = Behaviour()
        for k, v in self.__dict__.items():
            b.__dict__[k] = [] if k == 'log' else copy.deepcopy(v, memo)
        return b


BEHAVIOUR = {}


def keep(v):
    """what a contract does with an answer that it can change: it changes it, after noting what it was"""
    if isinstance(v, list):
        c = [keep(x) for x in v]
        v.insert(len(v) // 2, 'scribble')
        return c
    if isinstance(v, dict):
        c = {k: keep(x) for k, x in v.items()}
        v['scribble'] = 'scribble'
        for k in c:
            v[k] = 'scribble'
        return c
    if isinstance(v, (bytearray, set)):
        c = type(v)(v)
        v.clear()
        return c
    return v


def act(score, actions):
    """actions: (to, method, args, value, catch)"""
    out = []
    for (to, method, args, value, catch) in actions:
        def go():
            ic = score._context.internal_call
            if method is None:
                ic.icx_transfer_call(score.address, to, value)
                return None
            return keep(ic.other_external_call(score.address, to, method, tuple(args), {}, value))
        if catch:
            try:
                out.append(go())
            except (KeyboardInterrupt, SystemExit, MonitorStop):
                raise
            except BaseException as e:
                out.append(e)
        else:
            out.append(go())
    return out


class Puppet(IconScoreBase):
    """wallet / receiver / fake token / fake converter / fake registry"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _b(self):
        return BEHAVIOUR[self.address]

    @payable
    def fallback(self):
        b = self._b()
        b.log.append(('icx', self.msg.sender, self.msg.value))
        self._react(b, 'on_icx')

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        b = self._b()
        b.log.append(('token', self.msg.sender, _from, _value, _data))
        self._react(b, 'on_token')

    def _react(self, b, which):
        r = getattr(b, which)
        if r == 'accept':
            return
        if r == 'reject':
            revert('no thanks')
        if b.once:
            setattr(b, which, 'accept')
        act(self, r)

    @payable
    @external
    def run(self):
        b = self._b()
        script, b.script = b.script, []
        b.log.append(('ran', act(self, script)))

    @payable
    @external
    def runRevert(self):
        b = self._b()
        script, b.script = b.script, []
        act(self, script)
        revert('changed my mind')

    # fake flexible token / token / registry surface
    @external(readonly=True)
    def getOwner(self) -> Address:
        return self._b().owner

    @external(readonly=True)
    def getAddress(self, _scoreName: str) -> Address:
        return self._b().addresses.get(_scoreName, ZERO)

    @external(readonly=True)
    def balanceOf(self, _owner: Address) -> int:
        return self._b().fake_balances.get(_owner, 0)

    @external(readonly=True)
    def totalSupply(self) -> int:
        return 10 ** 24

    @external
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        b = self._b()
        b.log.append(('xfer', self.msg.sender, _to, _value, _data))
        b.fake_balances[self.msg.sender] = b.fake_balances.get(self.msg.sender, 0) - _value
        b.fake_balances[_to] = b.fake_balances.get(_to, 0) + _value
        if b.fake_balances.get('forward') and _to.is_contract:
            act(self, [(_to, 'tokenFallback', (self.msg.sender, _value, _data or b'None'), 0, False)])
        if b.on_transfer != 'accept':
            self._react(b, 'on_transfer')

    @external
    def withdrawTo(self, _amount: int, _to: Address):
        self._b().log.append(('wd', self.msg.sender, _amount, _to))


class Mute(IconScoreBase):
    """a SCORE that knows nothing about tokens or ICX"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external(readonly=True)
    def hello(self) -> str:
        return 'hello'
