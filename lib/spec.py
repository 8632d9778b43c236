"""Runtime monitor: a shadow of every SCORE, advanced by the call boundaries actually observed.

The monitor sees each call enter and leave (caller, callee, method, arguments, ICX value, events,
result).  Per contract method it states: who/what must be refused, what an accepted call does to the
observable state, which calls it makes, which events it emits, what it returns.  The observable state
(read through the public API only) is compared with the shadow after every transaction.
Every assertion names the properties it belongs to.
"""
import json
from decimal import Decimal as D

from iconservice.base.address import AddressPrefix
from vchain import Address, Observer, ZERO, Event
import oracle

PPM = 10 ** 6
HONEST = ('irc', 'ft', 'icxt', 'registry', 'network', 'converter')
TOKENS = ('irc', 'ft', 'icxt')
RESULT_DATA = b'conversionResult'
REG_KEYS = ('ScoreRegistry', 'Network')


def price(kind, args):
    """what the repository's own formula answers, None if it does not"""
    try:
        from contracts.formula import formula
        return getattr(formula, {'purchase': 'calculate_purchase_return', 'sale': 'calculate_sale_return',
                                 'cross': 'calculate_cross_connector_return'}[kind])(*args)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return None


class Exp:
    """what the monitor expects of one frame"""
    __slots__ = ('must_fail', 'may_fail', 'ok_tags', 'out', 'events', 'post', 'mark', 'result',
                 'quote', 'foreign', 'data', 'skip', 'ev_any', 'child_hook', 'on_fail', 'short')

    def __init__(self):
        self.must_fail = None     # (reason, tags)
        self.may_fail = None
        self.ok_tags = ()
        self.out = []             # [(to, method, {arg: value}, value, tags)]
        self.events = []          # [(name, args, nindexed)]
        self.post = None
        self.mark = 0
        self.result = _NORES
        self.quote = None
        self.foreign = False
        self.data = None
        self.skip = False
        self.ev_any = False
        self.child_hook = None
        self.on_fail = None       # (frame, x) -> what should not have been asked, or None


_NORES = object()
QREVERT = 'revert'


def valid(a):
    return a is not None and a != ZERO


class Violation(dict):
    pass


class Shadow(Observer):
    def __init__(self, chain, want=None, on_violation=None):
        self.chain = chain
        self.roles = {}
        self.s = {}              # flat shadow state
        self.journal = []
        self.want = want
        self.violations = []
        self.counts = {}         # prop -> assertions evaluated
        self.kinds = {}          # (prop, kind) -> count    distinct behaviours seen
        self.txs = 0
        self.ok_txs = 0
        self.sigs = set()        # distinct (method, outcome, call shape) seen
        self.on_violation = on_violation
        self.armed = True
        self.tx_foreign = False
        self.frames = 0
        self.cases = set()       # distinct transactions in which the wanted property was decided
        self.decided = 0         # transactions/queries in which it was decided
        self.hit = set()
        self.scene = ''          # label of the directed case under way
        self.samples = []
        chain.observers.append(self)

    # ---------------------------------------------------------------- bookkeeping
    def check(self, tags, cond, kind, detail=None):
        for t in tags:
            self.counts[t] = self.counts.get(t, 0) + 1
            k = (t, kind)
            self.kinds[k] = self.kinds.get(k, 0) + 1
            if t == self.want:
                self.hit.add(kind)
        if not cond:
            self.violate(tags, kind, detail)
        return cond

    def case(self, shape, desc):
        """one transaction (or query) is over: was the wanted property decided in it?"""
        if self.hit:
            self.decided += 1
            key = hash((shape, frozenset(self.hit), self.scene))
            if key not in self.cases:
                self.cases.add(key)
                if len(self.samples) < 60:
                    self.samples.append(f'{self.scene + ": " if self.scene else ""}{desc()} | decided: {sorted(self.hit)[:6]}')
            self.hit = set()

    def violate(self, tags, kind, detail=None):
        d = detail() if callable(detail) else detail
        v = Violation(tags=list(tags), kind=kind, detail=str(d))
        self.violations.append(v)
        if self.on_violation:
            self.on_violation(v)

    def get(self, key, default=None):
        return self.s.get(key, default)

    def set(self, key, val):
        self.journal.append((key, self.s.get(key, _NORES)))
        self.s[key] = val

    def add(self, key, delta):
        self.set(key, self.s.get(key, 0) + delta)

    def rollback(self, mark):
        while len(self.journal) > mark:
            k, old = self.journal.pop()
            if old is _NORES:
                self.s.pop(k, None)
            else:
                self.s[k] = old

    def role(self, addr, kind):
        self.roles[addr] = kind
        self.resync()

    # ---------------------------------------------------------------- observation
    def q(self, to, method, *args):
        return self.chain.peek(to, method, *args)

    def observe(self):
        """the whole observable state, through the public API"""
        with self.chain.reading():
            return self._observe()

    def _observe(self):
        o = {}
        p = self.chain.peek
        holders = list(self.chain.known)
        if ZERO not in self.chain._known:
            holders.append(ZERO)
        for h in holders:
            v = self.chain.icx_balance(h)
            if v:
                o[('icx', h)] = v
        for a, k in self.roles.items():
            try:
                if k in TOKENS:
                    o[('sup', a)] = p(a, 'totalSupply')
                    for h in holders:
                        v = p(a, 'balanceOf', h)
                        if v:
                            o[('bal', a, h)] = v
                    o[('meta', a)] = (p(a, 'name'), p(a, 'symbol'), p(a, 'decimals'))
                if k == 'ft':
                    o[('tp', a)] = bool(p(a, 'getTransferPossibility'))
                    o[('ver', a)] = p(a, 'getFlexibleTokenVersion')
                if k != 'irc':
                    o[('own', a)] = p(a, 'getOwner')
                    o[('pend', a)] = p(a, 'getNewOwner')
                if k == 'registry':
                    for n in REG_KEYS:
                        o[('reg', a, n)] = p(a, 'getAddress', n)
                if k == 'network':
                    for t in holders:
                        v = p(a, 'getIcxTokenRegistered', t)
                        if v:
                            o[('ntok', a, t)] = True
                if k == 'converter':
                    self._observe_conv(o, a, p)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                o[('unreadable', a)] = f'{type(e).__name__}: {e}'
        return o

    def _observe_conv(self, o, a, p):
        o[('mgr', a)] = p(a, 'getManager')
        o[('pmgr', a)] = p(a, 'getNewManager')
        o[('token', a)] = p(a, 'getToken')
        o[('registry', a)] = p(a, 'getRegistry')
        o[('prevreg', a)] = p(a, 'getPreviousRegistry')
        o[('allow', a)] = bool(p(a, 'isAllowRegistryUpdate'))
        o[('maxfee', a)] = p(a, 'getMaxConversionFee')
        o[('fee', a)] = p(a, 'getConversionFee')
        o[('enabled', a)] = bool(p(a, 'isConversionsEnabled'))
        n = p(a, 'getConnectorTokenCount')
        order = []
        for i in range(n):
            order.append(p(a, 'getConnectorAt', i))
        o[('order', a)] = tuple(order)
        for t in set(order):
            c = p(a, 'getConnector', t)
            o[('cn', a, t)] = (c.get('weight'), bool(c.get('isPurchaseEnabled')),
                               bool(c.get('isVirtualBalanceEnabled')), bool(c.get('isSet')))
            o[('vb', a, t)] = c.get('virtualBalance')

    def resync(self):
        self.s = {k: v for k, v in self.observe().items()}
        self.journal = []

    def installed(self, a, kind, params, who):
        """the getters of a freshly installed contract tell what was asked for"""
        e = {}
        if kind in TOKENS:
            if kind == 'icxt':
                nm, sy, dec, tot = 'ICX Token', 'ICXT', 18, 0
            else:
                nm, sy, dec = params['_name'], params['_symbol'], params['_decimals']
                tot = params['_initialSupply'] * 10 ** dec
            e[('meta', a)] = (nm, sy, dec)
            e[('sup', a)] = tot
            if tot:
                e[('bal', a, who)] = tot
        if kind == 'ft':
            e[('tp', a)] = True
        if kind != 'irc':
            e[('own', a)], e[('pend', a)] = who, ZERO
        if kind == 'registry':
            e[('reg', a, 'ScoreRegistry')], e[('reg', a, 'Network')] = a, ZERO
        if kind == 'converter':
            ct = params['_connectorToken']
            e.update({('mgr', a): who, ('pmgr', a): ZERO, ('token', a): params['_token'], ('registry', a): params['_registry'],
                      ('prevreg', a): params['_registry'], ('allow', a): True, ('maxfee', a): params['_maxConversionFee'],
                      ('fee', a): 0, ('enabled', a): True, ('order', a): () if ct == ZERO else (ct,)})
            if ct != ZERO:
                e[('cn', a, ct)] = (params['_connectorWeight'], True, False, True)
                e[('vb', a, ct)] = 0
        got = {k: v for k, v in self.s.items() if k[1] == a and k[0] not in ('icx', 'ver')}
        bad = [k for k in set(e) | set(got) if e.get(k) != got.get(k)]
        self.check(('P34', 'P33'), not bad, f'{kind}: getters after installation',
                   lambda: f'{kind} {a}: ' + '; '.join(f'{k[0]} is {show(got.get(k))}, expected {show(e.get(k))}' for k in bad))

    STATE_TAGS = {
        'icx': ('P05', 'P20'), 'bal': ('P01', 'P02'), 'sup': ('P01',), 'meta': ('P34',), 'tp': ('P04',),
        'ver': ('P34',), 'own': ('P06',), 'pend': ('P06',), 'reg': ('P09',), 'ntok': ('P19',),
        'mgr': ('P07',), 'pmgr': ('P07',), 'token': ('P11',), 'registry': ('P10',), 'prevreg': ('P10',),
        'allow': ('P10',), 'maxfee': ('P16',), 'fee': ('P16',), 'enabled': ('P17',), 'order': ('P11',),
        'cn': ('P11',), 'vb': ('P11', 'P14'), 'unreadable': ('P33',),
    }
    METHOD_TAGS = {
        'issue': ('P04',), 'destroy': ('P04',), 'disableTransfer': ('P04', 'P08'),
        'deposit': ('P05',), 'withdraw': ('P05',), 'withdrawTo': ('P05',),
        'withdrawTokens': ('P18', 'P08'), 'transferOwnerShip': ('P06', 'P08'),
        'convert': ('P14', 'P20'), 'convertFor': ('P14', 'P20'), 'updateConnector': ('P11', 'P08'),
        'addConnector': ('P11', 'P08'), 'disableConnectorPurchases': ('P11', 'P17', 'P08'),
        'setConversionFee': ('P16', 'P08'), 'disableConversions': ('P17', 'P08'),
        'registerAddress': ('P09', 'P08'), 'unregisterAddress': ('P09', 'P08'),
        'registerIcxToken': ('P19', 'P08'), 'updateRegistry': ('P10',), 'restoreRegistry': ('P10', 'P08'),
        'disableRegistryUpdate': ('P10', 'P08'), 'transferManagement': ('P07', 'P08'),
        'acceptManagement': ('P07',), 'acceptOwnerShip': ('P06',),
    }

    def compare(self, obs, tags_extra=(), label='state after transaction'):
        """shadow vs. observed"""
        good = True
        for k in set(self.s) | set(obs):
            if k[0] in ('synthetic', 'taken'):
                continue
            exp, got = self.s.get(k), obs.get(k)
            if k[0] in ('bal', 'icx'):
                exp, got = exp or 0, got or 0
            elif k[0] == 'ntok':
                exp, got = bool(exp), bool(got)
            if exp != got:
                good = False
                tags = set(self.STATE_TAGS.get(k[0], ())) | set(tags_extra)
                if k[0] in ('sup', 'bal') and len(k) > 1:
                    r = self.roles.get(k[1])
                    if k[0] == 'sup' and r == 'ft':
                        tags.add('P04')
                    if r == 'icxt':
                        tags.add('P05')
                elif k[0] == 'order' and exp and self._known_unlisted(k[1], set(exp) - set(got or ())):
                    tags.add('P33')     # the getters contradict each other
                self.violate(sorted(tags), 'state:' + k[0],
                             lambda: f'{label}: {tuple(str(x) for x in k)} is {show(got)}, expected {show(exp)}')
        return good

    def _known_unlisted(self, a, tokens):
        try:
            return any(self.chain.peek(a, 'getConnector', t).get('isSet') for t in tokens)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return False

    # ---------------------------------------------------------------- transaction level
    def on_tx_start(self, fr):
        self.case(('query',), lambda: 'query')
        self.txs += 1
        self.tx_foreign = False
        self.pre_s = dict(self.s)
        self.journal = []
        self.pathq = None
        if self.armed and fr.kind == 'call':
            self._path_quote(fr)

    def _twins(self):
        """the account with the same body as a contract (or the other way round) is another address"""
        ks = list(self.roles)
        if not ks or not self.chain.known:
            return
        a = ks[self.txs % len(ks)]
        hs = self.chain.known
        h = hs[(self.txs * 7 + len(ks)) % len(hs)]
        k = self.roles[a]
        if k == 'converter' and self.get(('order', a)):
            o = self.get(('order', a))
            h = o[self.txs % len(o)]
        t = twin(h)
        if t in self.chain._known:
            return
        try:
            if k in TOKENS:
                v = self.q(a, 'balanceOf', t)
                self.check(('P01', 'P02'), v == 0, 'an address nobody ever used holds nothing', lambda: f'{k} {a}: {t} holds {v}')
            elif k == 'network':
                v = self.q(a, 'getIcxTokenRegistered', t)
                self.check(('P19',), not v, 'an address nobody ever registered is no ICX token', lambda: f'{a}: {t}')
            elif k == 'converter':
                v = self.q(a, 'getConnector', t)
                self.check(('P11',), v == {}, 'an address that was never added is no connector', lambda: f'{a}: {t} {v}')
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            self.check(('P33',), False, 'a question about an unused address is answered', lambda: f'{k} {a}: {t} {type(e).__name__}: {e}')

    def on_tx_end(self, fr, res):
        obs = self.observe()
        if self.armed and self.want in ('P01', 'P02', 'P11', 'P19', 'P33', None):
            self._twins()
        if self.armed and fr.kind == 'deploy' and fr.method == 'on_update' and fr.to in self.roles:
            # the same code once more: no setting, holding or role moves
            k = self.roles[fr.to]
            self.check(('P32',), res.ok, f'{k}: an update with the same code is accepted', lambda: f'{fr.desc()}: {res.exc}')
            self.s = self.pre_s
            good = self.compare(obs, ('P32',), f'after an update of {k} {fr.to} with the same code')
            self.check(('P32',), good and not res.events, f'{k}: an update with the same code changes nothing',
                       lambda: f'{k} {fr.to}: events {res.events}')
            self.s = obs
            self.journal = []
            self.case(('update', k, tuple(sorted((x[0], v) for x, v in obs.items() if x[1] == fr.to and isinstance(v, bool)))),
                      lambda: f'update of {k} {fr.to}')
            return
        if not self.armed or fr.kind == 'deploy':
            self.s = obs
            self.journal = []
            return
        touched = set()

        def walk(f):
            touched.update(self.METHOD_TAGS.get(f.method or '', ()))
            for c in f.children:
                walk(c)
        walk(fr)
        if not res.ok:
            # a failed transaction leaves nothing behind
            self.check(('P22',), not res.events, 'failed tx leaves events', lambda: f'{fr.desc()}: {res.events}')
            self.s = self.pre_s
            ok = self.compare(obs, ('P22',) + tuple(touched & {'P08', 'P18'}), f'after failed {fr.desc()}')
            self.check(('P22',), ok, 'failed tx leaves no trace')
            self._same_after_restart(ok, obs, fr)
        else:
            self.ok_txs += 1
            tags = set(touched)
            good = self.compare(obs, tuple(sorted(tags)), f'after {fr.desc()}')
            self._same_after_restart(good, obs, fr)
            for t in tags | {'P01', 'P02', 'P23'}:
                self.check((t,), good or True, 'tx state compare')
            fe = sorted(e.key() for e in self._events(fr))
            re_ = sorted(e.key() for e in res.events)
            self.check(('P23',), fe == re_, 'event log complete', lambda: f'{fr.desc()}: {fe} vs {re_}')
            self._token_invariants(obs, fr)
            self._path_result(fr, res)
        self.s = obs
        self.journal = []
        shape = []

        def walk2(f, d=0):
            shape.append((d, self.roles.get(f.to, 'x'), f.method, f.ok))
            for c in f.children:
                if not c.readonly:
                    walk2(c, d + 1)
        walk2(fr)
        sig = (res.ok, tuple(shape[:24]))
        self.sigs.add(sig)
        self.case(sig, lambda: f'{fr.desc()} -> {"ok" if res.ok else "refused"}, {len(shape)} calls')

    def _same_after_restart(self, good, obs, fr):
        """an unexpected state: do instances that know only the ledger show it as well?"""
        if good:
            return
        self.chain.forget_instances()
        again = self.observe()
        bad = [k for k in set(again) | set(obs) if again.get(k) != obs.get(k)]
        self.check(('P32',), not bad, 'a state outlives the instances that show it',
                   lambda: f'after {fr.desc()}: ' + '; '.join(f'{tuple(str(x) for x in k)} is {show(obs.get(k))}, after a restart {show(again.get(k))}' for k in bad[:3]))

    def _events(self, fr):
        out = list(fr.events)
        for c in fr.children:
            if c.ok:
                out += self._events(c)
        return out

    def _token_invariants(self, obs, fr):
        for a, k in self.roles.items():
            if k not in TOKENS:
                continue
            if ('sup', a) not in obs:
                continue
            hs = [v for key, v in obs.items() if key[0] == 'bal' and key[1] == a]
            sup = obs[('sup', a)]
            self.check(('P01',), sum(hs) == sup and sup >= 0 and min(hs, default=0) >= 0, 'supply equals sum of balances',
                       lambda: f'{k} {a}: supply {sup}, sum {sum(hs)}, min {min(hs, default=0)} after {fr.desc()}')
            if k == 'irc':
                self.check(('P01',), sup == self.pre_s.get(('sup', a), sup), 'plain token supply is constant',
                           lambda: f'{a}: {self.pre_s.get(("sup", a))} -> {sup} after {fr.desc()}')
            if k == 'icxt':
                # `forced` counts nothing: the platform has no way to push ICX into a SCORE silently
                self.check(('P05',), obs.get(('icx', a), 0) == sup, 'ICX held equals supply',
                           lambda: f'icx token {a}: supply {sup}, ICX held {obs.get(("icx", a), 0)} after {fr.desc()}')
        tot = sum(v for key, v in obs.items() if key[0] == 'icx')
        pre = sum(v for key, v in self.pre_s.items() if key[0] == 'icx')
        self.check(('P05',), tot == pre, 'ICX conserved', lambda: f'{pre} -> {tot}')

    # ---------------------------------------------------------------- frames
    def on_enter(self, fr):
        self.frames += 1
        if not self.armed:
            return
        kind = self.roles.get(fr.to)
        x = fr.x = Exp()
        x.mark = len(self.journal)
        par = fr.parent.x if fr.parent is not None else None
        if fr.kind == 'deploy':
            x.skip = True
            return
        if par is not None and par.child_hook:
            par.child_hook('enter', fr)
        if kind is None and fr.to.is_contract:
            self.tx_foreign = True
            f = fr
            while f is not None:
                if f.x is not None:
                    f.x.foreign = True
                f = f.parent
        # ICX movement
        if fr.value > 0:
            if self.get(('icx', fr.caller), 0) < fr.value:
                x.must_fail = ('ICX overdraft', ('P05',))
            elif fr.caller != fr.to:
                self.add(('icx', fr.caller), -fr.value)
                self.add(('icx', fr.to), fr.value)
        if kind is None:
            return
        if fr.badargs:
            x.may_fail = 'bad arguments'
            return
        if fr.method is None:
            if kind == 'icxt':
                self.m_icxt_deposit(fr, x)
            elif fr.value > 0:
                x.must_fail = x.must_fail or (f'{kind} accepts no plain ICX', ('P05', 'P20'))
            return
        if fr.value > 0 and (kind, fr.method) not in (('icxt', 'deposit'), ('network', 'convert'),
                                                     ('network', 'convertFor')):
            x.must_fail = x.must_fail or (f'{kind}.{fr.method} is not payable', ('P05',))
            return
        h = getattr(self, f'm_{kind}_{fr.method}', None)
        if h is None and kind in ('ft', 'icxt'):
            h = getattr(self, f'm_tok_{fr.method}', None)
        if h is None and kind == 'irc':
            h = getattr(self, f'm_tok_{fr.method}', None)
        if h is None and kind != 'irc':
            h = getattr(self, f'm_own_{fr.method}', None)
        if h is None and kind in ('converter', 'network', 'ft', 'icxt'):
            h = getattr(self, f'm_hold_{fr.method}', None)
        if h is None:
            x.skip = True
            return
        had = x.must_fail
        h(fr, x)
        if had:
            x.must_fail = had

    def fail(self, x, cond, reason, *tags):
        """call must be refused when cond holds"""
        if cond and x.must_fail is None:
            x.must_fail = (reason, tags)
        return bool(cond)

    def on_exit(self, fr):
        if not self.armed or fr.x is None or fr.x.skip:
            if fr.x is not None and not fr.ok:
                self.rollback(fr.x.mark)
            return
        x = fr.x
        kind = self.roles.get(fr.to)
        if fr.ok:
            if kind is not None:
                self._exit_ok(fr, x, kind)
        else:
            if kind is not None:
                why = x.must_fail or x.may_fail or fr.injected
                child_failed = any(c.ok is False for c in fr.children)
                if x.must_fail:
                    self.check(x.must_fail[1], True, 'refused: ' + x.must_fail[0])
                elif not why and not child_failed:
                    tags = tuple(x.ok_tags) or ('P33',)
                    if type(fr.exc).__name__ == 'EventLogException':
                        tags += ('P23',)            # the event it owes cannot be emitted
                    self.check(tags, False, f'{kind}.{fr.method} refused a valid call',
                               lambda: f'{fr.desc()} failed with {type(fr.exc).__name__}: {fr.exc}')
                elif not x.must_fail and child_failed:
                    self.check(('P22',), True, 'failure propagates')
                    if not x.may_fail and not fr.injected:
                        # an inner call excuses the failure only if it was the right one to make
                        why = self._stray(fr, x)
                        tags = tuple(x.ok_tags) or ('P33',)
                        self.check(tags, why is None, f'{kind}.{fr.method} refused a valid call after asking for something else',
                                   lambda: f'{fr.desc()} failed with {type(fr.exc).__name__}: {fr.exc}: made {why}')
                    elif x.on_fail and not fr.injected:
                        # it may fail for other reasons: still not after asking for something else
                        why = x.on_fail(fr, x)
                        tags = tuple(x.ok_tags) or ('P33',)
                        self.check(tags, why is None, f'{kind}.{fr.method} failed after asking for something else',
                                   lambda: f'{fr.desc()} failed with {type(fr.exc).__name__}: {fr.exc}: made {why}')
            self.rollback(x.mark)
        if fr.parent is not None and fr.parent.x is not None and fr.parent.x.child_hook:
            fr.parent.x.child_hook('exit', fr)
        if fr.readonly and kind is not None and self.want in ('P33', None) and not fr.badargs and fr.parent is not None and self.roles.get(fr.parent.to) is None \
                and not self.chain.peeking and fr.value == 0 and not _injected(fr):
            self._from_outside(('P33',), fr.to, fr.method, tuple(fr.args.values()), fr.result if fr.ok else QREVERT)

    def _stray(self, fr, x):
        """an inner call of a failed request that should not have been made"""
        left = list(x.out or ())
        for c in fr.children:
            if c.readonly:
                if c.ok is False and self.roles.get(c.to) is not None and not c.injected and c.x is not None and not c.x.must_fail \
                        and not c.x.may_fail and not any(g.ok is False for g in c.children):
                    return c.desc()
                continue
            if x.out is None or (c.method is None and c.value == 0):
                continue
            for e in left:
                to, method, args, value, _ = e
                if c.to == to and c.method == method and c.value == value and \
                        (c.badargs or to not in self.chain.classes or all(c.args.get(k) == v for k, v in args.items())):
                    left.remove(e)
                    break
            else:
                return c.desc()
        return x.on_fail(fr, x) if x.on_fail else None

    def _exit_ok(self, fr, x, kind):
        name = f'{kind}.{fr.method}'
        if x.must_fail:
            self.check(x.must_fail[1], False, f'{name} accepted: {x.must_fail[0]}', fr.desc)
            return
        bad = [c for c in fr.children if c.ok is False]
        tags = tuple(x.ok_tags) or ('P33',)
        self.check(tuple(set(tags) | {'P22'}), not bad and not fr.injected, f'{name}: a failed inner call undoes the caller',
                   lambda: f'{fr.desc()} succeeded although {bad[0].desc() if bad else "a step after an inner call"} failed')
        if x.out is not None:
            outs = [c for c in fr.children if not c.readonly and c.ok and
                    not (c.method is None and c.value == 0)]
            left = list(outs)
            for (to, method, args, value, otags) in x.out:
                m = None
                for c in left:
                    if c.to == to and c.method == method and c.value == value and \
                            (c.badargs or to not in self.chain.classes or
                             all(c.args.get(k) == v for k, v in args.items())):
                        m = c
                        break
                self.check(otags, m is not None, f'{name} makes the call {method}',
                           lambda: f'{fr.desc()}: expected {to}.{method}({args}) value={value}; made '
                                   f'{[c.desc() for c in outs]}')
                if m is not None:
                    left.remove(m)
            if x.out or left:
                self.check(tags, not left, f'{name} makes no other call',
                           lambda: f'{fr.desc()}: unexpected {[c.desc() for c in left]}')
        if not x.ev_any:
            exp = sorted(str((n, tuple(str(a) for a in args), i)) for n, args, i in x.events)
            got = sorted(str((e.name, tuple(str(a) for a in e.args), e.indexed)) for e in fr.events
                         if e.name != 'ICXTransfer')
            wrong = [e for e in fr.events if e.name != 'ICXTransfer' and e.score != fr.to]
            self.check(('P23',), exp == got and not wrong, f'{name} events',
                       lambda: f'{fr.desc()}: expected {exp}, emitted {got}')
        if x.result is not _NORES:
            self.check(tags, fr.result == x.result, f'{name} result',
                       lambda: f'{fr.desc()} returned {show(fr.result)}, expected {show(x.result)}')
        if x.ok_tags:
            self.check(x.ok_tags, True, f'{name} accepted')
        if x.post:
            x.post(fr, x)

    # ---------------------------------------------------------------- read-only results
    def ro(self, fr, x, key, tags, default=None, norm=None):
        x.ok_tags = tuple(tags) + ('P33',)
        if key in self.s or default is not None:
            v = self.get(key, default)
            x.result = v

    def m_tok_balanceOf(self, fr, x):
        self.ro(fr, x, ('bal', fr.to, fr.args['_owner']), ('P01', 'P02'), 0)
        x.result = self.get(('bal', fr.to, fr.args['_owner']), 0)

    def m_tok_totalSupply(self, fr, x):
        self.ro(fr, x, ('sup', fr.to), ('P01',))

    def m_own_getOwner(self, fr, x):
        self.ro(fr, x, ('own', fr.to), ('P06',))

    def m_own_getNewOwner(self, fr, x):
        self.ro(fr, x, ('pend', fr.to), ('P06',))

    # settings asked for by a contract, in the middle of whatever is going on
    def _get(field, tag):
        def m(self, fr, x):
            if (field, fr.to) in self.s:
                self.ro(fr, x, (field, fr.to), (tag,))
        return m
    m_converter_isAllowRegistryUpdate = _get('allow', 'P10')
    m_converter_getPreviousRegistry = _get('prevreg', 'P10')
    m_converter_getRegistry = _get('registry', 'P10')
    m_converter_getMaxConversionFee = _get('maxfee', 'P16')
    m_converter_getConversionFee = _get('fee', 'P16')
    m_converter_isConversionsEnabled = _get('enabled', 'P17')
    m_converter_getToken = _get('token', 'P11')
    m_converter_getManager = _get('mgr', 'P07')
    m_converter_getNewManager = _get('pmgr', 'P07')
    m_ft_getTransferPossibility = _get('tp', 'P04')
    del _get

    def m_converter_isActive(self, fr, x):
        own = self._owner_of(self.get(('token', fr.to)))
        if own is not None:
            x.ok_tags, x.result = ('P17', 'P33'), own == fr.to
        else:
            x.may_fail, x.out = 'a token of others', None

    def m_converter_getConnectorTokenCount(self, fr, x):
        x.ok_tags, x.result = ('P11', 'P33'), len(self.get(('order', fr.to), ()))

    def m_converter_getConnectorAt(self, fr, x):
        order, i = self.get(('order', fr.to), ()), fr.args['_index']
        x.ok_tags = ('P11', 'P33')
        if i < 0:
            x.may_fail = 'counted from the end'
        elif not self.fail(x, i >= len(order), 'no connector at that place', 'P11'):
            x.result = order[i]

    def m_converter_getConnector(self, fr, x):
        k = fr.to, fr.args['_address']
        x.ok_tags, x.result = ('P11', 'P33'), {}
        if ('cn',) + k in self.s:
            w, pe, vbe, isset = self.s[('cn',) + k]
            x.result = {'virtualBalance': self.s[('vb',) + k], 'weight': w, 'isVirtualBalanceEnabled': vbe, 'isPurchaseEnabled': pe, 'isSet': isset}

    def m_converter_getConnectorBalance(self, fr, x):
        c, t = fr.to, fr.args['_connectorToken']
        x.ok_tags = ('P11', 'P14', 'P33')
        if self.fail(x, ('cn', c, t) not in self.s, 'balance of an unknown connector', 'P11'):
            return
        if self.s[('cn', c, t)][2] or self.roles.get(t) in TOKENS:
            x.result = self.conn_balance(c, t)
        else:
            x.may_fail, x.out = 'a token of others', None

    def m_converter_getFinalAmount(self, fr, x):
        a, m = fr.args['_amount'], fr.args['_magnitude']
        x.ok_tags = ('P16', 'P33')
        if m < 0 or m > 1000:
            x.may_fail = 'no such magnitude'
        else:
            x.result = a * (PPM - self.get(('fee', fr.to))) ** m // PPM ** m

    def m_network_getIcxTokenRegistered(self, fr, x):
        x.ok_tags, x.result = ('P19', 'P33'), bool(self.get(('ntok', fr.to, fr.args['_icxToken'])))

    def m_network_getExpectedReturnByPath(self, fr, x):
        x.ok_tags = ('P21', 'P33')
        path, amt = parse_path(fr.args['_path']), fr.args['_amount']
        if path is None or not good_path(path):
            self.fail(x, True, 'quote for an invalid path', 'P21', 'P19')
            return
        if self.fail(x, amt <= 0, 'quote for a non-positive amount', 'P21'):
            return
        if all(self.roles.get(a) in TOKENS for a in path[::2]) and all(self.roles.get(self._owner_of(a)) == 'converter' for a in path[1::2]):
            want = self._hop_quotes(path, amt)
            if want is QREVERT:
                self.fail(x, True, 'quote for a path with a hop that is not quoted', 'P21')
            else:
                x.result = want
            return
        x.may_fail, x.out = 'a hop that is not quoted', None

        def post(fr, x):
            want = self._hop_quotes(path, amt)
            self.check(('P21',), fr.result == want, 'path quote in a transaction composes the hop quotes', lambda: f'{fr.desc()}: {fr.result}, hops compose to {want}')
        x.post = post

    def _hop_quotes(self, path, amt):
        for i in range(1, len(path), 2):
            try:
                amt = self.q(self._owner_of(path[i]), 'getReturn', path[i - 1], path[i + 1], amt)['amount']
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                return QREVERT
        return amt

    def m_registry_getScoreIds(self, fr, x):
        x.ok_tags = ('P09', 'P33')
        x.post = lambda fr, x: self.check(('P09', 'P33'), isinstance(fr.result, list) and sorted(fr.result) == ['Network', 'ScoreRegistry'], 'getScoreIds',
                                          lambda: f'{fr.desc()}: {fr.result}')

    def m_registry_getAddress(self, fr, x):
        if fr.args['_scoreName'] in REG_KEYS:
            self.ro(fr, x, ('reg', fr.to, fr.args['_scoreName']), ('P09',))
        else:
            x.ok_tags = ('P09',)
            x.result = ZERO

    # ---------------------------------------------------------------- tokens
    def m_tok_transfer(self, fr, x):
        self._transfer(fr, x)

    def _transfer(self, fr, x):
        t, frm = fr.to, fr.caller
        to, val, data = fr.args['_to'], fr.args['_value'], fr.args.get('_data')
        data = b'None' if data is None else data
        kind = self.roles[t]
        x.ok_tags = ('P02',)
        if self.fail(x, val < 0, 'negative transfer', 'P02'):
            return
        if self.fail(x, self.get(('bal', t, frm), 0) < val, 'overdraft', 'P02', 'P01'):
            return
        if kind == 'ft' and self.fail(x, not self.get(('tp', t)), 'transfers are disabled', 'P04'):
            return
        if kind == 'icxt' and self.fail(x, to == t, 'ICX token sent to itself', 'P05'):
            return
        if self.roles.get(to) == 'converter':
            x.quote = self._converter_quote(fr, to)
        self.add(('bal', t, frm), -val)
        self.add(('bal', t, to), val)
        x.events = [('Transfer', (frm, to, val, data), 3)]
        if to.is_contract:
            x.out = [(to, 'tokenFallback', {'_from': frm, '_value': val, '_data': data}, 0, ('P03',))]

            def hook(when, c):
                if when == 'enter' and c.to == to and c.method == 'tokenFallback' and self.roles.get(to) is None:
                    # what the recipient can see when it is handed control
                    self.check(('P03',), self.q(t, 'balanceOf', to) == self.get(('bal', t, to), 0) and
                               self.q(t, 'balanceOf', frm) == self.get(('bal', t, frm), 0),
                               'balances moved before tokenFallback',
                               lambda: f'{fr.desc()}: recipient sees {self.q(t, "balanceOf", to)}')
            x.child_hook = hook

        def post(fr, x):
            n = sum(1 for c in fr.children if not c.readonly)
            self.check(('P03',), n == (1 if to.is_contract else 0), 'tokenFallback exactly once for SCOREs only',
                       lambda: f'{fr.desc()}: {[c.desc() for c in fr.children]}')
        x.post = post

    def m_ft_issue(self, fr, x):
        t, to, amt = fr.to, fr.args['_to'], fr.args['_amount']
        x.ok_tags = ('P04',)
        bad = self.fail(x, fr.caller != self.get(('own', t)), 'issue by a stranger', 'P04', 'P08') or \
            self.fail(x, amt <= 0, 'non-positive issue', 'P04') or \
            self.fail(x, not valid(to), 'issue to the zero address', 'P04') or \
            self.fail(x, to == t, 'issue to the token itself', 'P04')
        if bad:
            return
        self.add(('bal', t, to), amt)
        self.add(('sup', t), amt)
        x.events = [('Issuance', (amt,), 0), ('Transfer', (t, to, amt, b'None'), 3)]

    def m_ft_destroy(self, fr, x):
        t, frm, amt = fr.to, fr.args['_from'], fr.args['_amount']
        x.ok_tags = ('P04',)
        bad = self.fail(x, fr.caller != frm and fr.caller != self.get(('own', t)), 'destroy by a stranger', 'P04', 'P08') or \
            self.fail(x, amt <= 0, 'non-positive destroy', 'P04') or \
            self.fail(x, self.get(('bal', t, frm), 0) < amt, 'destroy of more than held', 'P04', 'P01')
        if bad:
            return
        self.add(('bal', t, frm), -amt)
        self.add(('sup', t), -amt)
        x.events = [('Destruction', (amt,), 0), ('Transfer', (frm, t, amt, b'None'), 3)]

    def m_ft_disableTransfer(self, fr, x):
        x.ok_tags = ('P04', 'P08')
        if self.fail(x, fr.caller != self.get(('own', fr.to)), 'disableTransfer by a stranger', 'P08', 'P04'):
            return
        self.set(('tp', fr.to), not fr.args['_disable'])

    def m_icxt_deposit(self, fr, x):
        t, who = fr.to, fr.caller
        x.ok_tags = ('P05',)
        if x.must_fail:
            return
        self.add(('bal', t, who), fr.value)
        self.add(('sup', t), fr.value)
        x.events = [('Issuance', (fr.value,), 0), ('Transfer', (t, who, fr.value, b'None'), 3)]

    def _withdraw(self, fr, x, amt, to):
        t, who = fr.to, fr.caller
        x.ok_tags = ('P05',)
        if self.fail(x, amt <= 0, 'non-positive withdrawal', 'P05') or \
                self.fail(x, self.get(('bal', t, who), 0) < amt, 'withdrawal of more than held', 'P05', 'P01'):
            return
        self.add(('bal', t, who), -amt)
        self.add(('sup', t), -amt)
        x.out = [(to, None, {}, amt, ('P05',))]
        x.events = [('Destruction', (amt,), 0)]

    def m_icxt_withdraw(self, fr, x):
        self._withdraw(fr, x, fr.args['_amount'], fr.caller)

    def m_icxt_withdrawTo(self, fr, x):
        self._withdraw(fr, x, fr.args['_amount'], fr.args['_to'])

    # ---------------------------------------------------------------- holders / owners / managers
    def m_hold_withdrawTokens(self, fr, x):
        h, tok, to, amt = fr.to, fr.args['_token'], fr.args['_to'], fr.args['_amount']
        x.ok_tags = ('P18',)
        if self.roles[h] == 'converter':
            if self.fail(x, ('cn', h, tok) in self.s and self._active(h), 'connector token of an active converter',
                         'P18'):
                return
        bad = self.fail(x, fr.caller != self.get(('own', h)), 'withdrawTokens by a stranger', 'P18', 'P08') or \
            self.fail(x, amt <= 0, 'non-positive withdrawal', 'P18') or \
            self.fail(x, not valid(to), 'withdrawal to the zero address', 'P18') or \
            self.fail(x, to == h, 'withdrawal to itself', 'P18')
        if bad:
            return
        if not tok.is_contract:
            x.may_fail = 'no token there'
        x.out = [(tok, 'transfer', {'_to': to, '_value': amt}, 0, ('P18',))]

        def post(fr, x):
            self.add(('taken', h, tok), amt)
        x.post = post

    def m_own_transferOwnerShip(self, fr, x):
        x.ok_tags = ('P06', 'P08')
        if self.fail(x, fr.caller != self.get(('own', fr.to)), 'transferOwnerShip by a stranger', 'P06', 'P08') or \
                self.fail(x, fr.args['_newOwner'] == self.get(('own', fr.to)), 'new owner is the owner', 'P06'):
            return
        self.set(('pend', fr.to), fr.args['_newOwner'])

    def m_own_acceptOwnerShip(self, fr, x):
        x.ok_tags = ('P06',)
        if self.fail(x, fr.caller != self.get(('pend', fr.to)), 'acceptOwnerShip by somebody else', 'P06', 'P08'):
            return
        x.events = [('OwnerUpdate', (self.get(('own', fr.to)), fr.caller), 2)]
        self.set(('own', fr.to), fr.caller)
        self.set(('pend', fr.to), ZERO)

    def _om(self, c, who):
        return who == self.get(('own', c)) or (self.get(('mgr', c)) is not None and who == self.get(('mgr', c)))

    def m_converter_transferManagement(self, fr, x):
        x.ok_tags = ('P07', 'P08')
        if self.fail(x, not self._om(fr.to, fr.caller), 'transferManagement by a stranger', 'P07', 'P08') or \
                self.fail(x, fr.args['_newManager'] == self.get(('mgr', fr.to)), 'new manager is the manager', 'P07'):
            return
        self.set(('pmgr', fr.to), fr.args['_newManager'])

    def m_converter_acceptManagement(self, fr, x):
        x.ok_tags = ('P07',)
        if self.fail(x, fr.caller != self.get(('pmgr', fr.to)), 'acceptManagement by somebody else', 'P07', 'P08'):
            return
        x.events = [('ManagerUpdate', (self.get(('mgr', fr.to)), fr.caller), 2)]
        self.set(('mgr', fr.to), fr.caller)
        self.set(('pmgr', fr.to), ZERO)

    # ---------------------------------------------------------------- registry
    def m_registry_registerAddress(self, fr, x):
        n, a = fr.args['_scoreName'], fr.args['_scoreAddress']
        x.ok_tags = ('P09', 'P08')
        if self.fail(x, fr.caller != self.get(('own', fr.to)), 'registerAddress by a stranger', 'P09', 'P08') or \
                self.fail(x, not valid(a), 'zero address registered', 'P09') or \
                self.fail(x, not a.is_contract, 'account registered as a SCORE', 'P09') or \
                self.fail(x, n not in REG_KEYS, 'unknown SCORE name', 'P09'):
            return
        self.set(('reg', fr.to, n), a)
        x.events = [('AddressUpdate', (n, a), 1)]

    def m_registry_unregisterAddress(self, fr, x):
        n = fr.args['_scoreName']
        x.ok_tags = ('P09', 'P08')
        if self.fail(x, fr.caller != self.get(('own', fr.to)), 'unregisterAddress by a stranger', 'P09', 'P08') or \
                self.fail(x, self.get(('reg', fr.to, n), ZERO) == ZERO, 'name is not registered', 'P09'):
            return
        self.set(('reg', fr.to, n), ZERO)
        x.events = [('AddressUpdate', (n, ZERO), 1)]

    # ---------------------------------------------------------------- converter administration
    def _owner_of(self, token):
        """current owner of a flexible token as the chain would answer (None: no answer)"""
        if self.roles.get(token) is not None and self.roles.get(token) != 'irc':
            return self.get(('own', token))
        try:
            return self.q(token, 'getOwner')
        except BaseException:
            return None

    def _active(self, c):
        return self._owner_of(self.get(('token', c))) == c

    def _total_weight(self, c):
        return sum(self.get(('cn', c, t))[0] for t in self.get(('order', c), ()))

    def m_converter_addConnector(self, fr, x):
        c, t, w = fr.to, fr.args['_token'], fr.args['_weight']
        x.ok_tags = ('P11',)
        if self.fail(x, fr.caller != self.get(('own', c)), 'addConnector by a stranger', 'P11', 'P08') or \
                self.fail(x, self._active(c), 'connector added while active', 'P11') or \
                self.fail(x, not valid(t), 'zero address as a connector', 'P11') or \
                self.fail(x, t == c, 'converter as its own connector', 'P11') or \
                self.fail(x, t == self.get(('token', c)), 'flexible token as a connector', 'P11') or \
                self.fail(x, ('cn', c, t) in self.s, 'duplicate connector', 'P11') or \
                self.fail(x, not 0 < w <= PPM, 'weight out of range', 'P11') or \
                self.fail(x, self._total_weight(c) + w > PPM, 'total weight above 100%', 'P11'):
            return
        self.set(('cn', c, t), (w, True, bool(fr.args['_enableVirtualBalance']), True))
        self.set(('vb', c, t), 0)
        self.set(('order', c), self.get(('order', c), ()) + (t,))

    def m_converter_updateConnector(self, fr, x):
        c, t, w = fr.to, fr.args['_connectorToken'], fr.args['_weight']
        x.ok_tags = ('P11', 'P08')
        if self.fail(x, fr.caller != self.get(('own', c)), 'updateConnector by a stranger', 'P11', 'P08') or \
                self.fail(x, ('cn', c, t) not in self.s, 'update of an unknown connector', 'P11') or \
                self.fail(x, not 0 < w <= PPM, 'weight out of range', 'P11') or \
                self.fail(x, self._total_weight(c) - self.get(('cn', c, t))[0] + w > PPM, 'total weight above 100%',
                          'P11'):
            return
        if fr.args['_virtualBalance'] < 0:
            x.may_fail = 'negative virtual balance (unspecified)'
        old = self.get(('cn', c, t))
        self.set(('cn', c, t), (w, old[1], bool(fr.args['_enableVirtualBalance']), True))
        self.set(('vb', c, t), fr.args['_virtualBalance'])

    def m_converter_disableConnectorPurchases(self, fr, x):
        c, t = fr.to, fr.args['_connectorToken']
        x.ok_tags = ('P11', 'P17', 'P08')
        if self.fail(x, fr.caller != self.get(('own', c)), 'disableConnectorPurchases by a stranger', 'P11', 'P08') or \
                self.fail(x, ('cn', c, t) not in self.s, 'update of an unknown connector', 'P11'):
            return
        old = self.get(('cn', c, t))
        self.set(('cn', c, t), (old[0], not fr.args['_disable'], old[2], True))

    def m_converter_updateRegistry(self, fr, x):
        c = fr.to
        x.ok_tags = ('P10',)
        if self.fail(x, not self.get(('allow', c)) and fr.caller != self.get(('own', c)),
                     'registry update is disallowed', 'P10', 'P08'):
            return
        cur = self.get(('registry', c))
        if self.roles.get(cur) == 'registry':
            new = self.get(('reg', cur, 'ScoreRegistry'))
        else:
            x.may_fail = 'foreign registry'
            try:
                new = self.q(cur, 'getAddress', 'ScoreRegistry')
                if isinstance(new, Address):
                    x.may_fail = None
            except BaseException:
                new = None
        if self.fail(x, not valid(new) or not isinstance(new, Address), 'no new registry', 'P10') or \
                self.fail(x, new == cur, 'registry is unchanged', 'P10'):
            return
        self.set(('prevreg', c), cur)
        self.set(('registry', c), new)

    def m_converter_restoreRegistry(self, fr, x):
        c = fr.to
        x.ok_tags = ('P10', 'P08')
        if self.fail(x, not self._om(c, fr.caller), 'restoreRegistry by a stranger', 'P10', 'P08'):
            return
        self.set(('registry', c), self.get(('prevreg', c)))
        self.set(('allow', c), False)

    def m_converter_disableRegistryUpdate(self, fr, x):
        x.ok_tags = ('P10', 'P08')
        if self.fail(x, not self._om(fr.to, fr.caller), 'disableRegistryUpdate by a stranger', 'P10', 'P08'):
            return
        self.set(('allow', fr.to), not fr.args['_disable'])

    def m_converter_disableConversions(self, fr, x):
        x.ok_tags = ('P17', 'P08')
        if self.fail(x, not self._om(fr.to, fr.caller), 'disableConversions by a stranger', 'P17', 'P08'):
            return
        new = not fr.args['_disable']
        if bool(self.get(('enabled', fr.to))) != new:
            x.events = [('ConversionsEnable', (new,), 0)]
        self.set(('enabled', fr.to), new)

    def m_converter_setConversionFee(self, fr, x):
        f = fr.args['_conversionFee']
        x.ok_tags = ('P16', 'P08')
        if self.fail(x, not self._om(fr.to, fr.caller), 'setConversionFee by a stranger', 'P16', 'P08') or \
                self.fail(x, not 0 <= f <= self.get(('maxfee', fr.to)), 'fee above the maximum', 'P16'):
            return
        x.events = [('ConversionFeeUpdate', (self.get(('fee', fr.to)), f), 0)]
        self.set(('fee', fr.to), f)

    def _passthrough(self, fr, x, method, args, tags):
        x.ok_tags = tags
        if self.fail(x, fr.caller != self.get(('own', fr.to)), f'{fr.method} by a stranger', 'P08', *tags):
            return
        tok = self.get(('token', fr.to))
        if self.roles.get(tok) != 'ft':
            x.may_fail = 'foreign token'
        x.out = [(tok, method, args, 0, tags)]

    def m_converter_transferTokenOwnership(self, fr, x):
        self._passthrough(fr, x, 'transferOwnerShip', {'_newOwner': fr.args['_newOwner']}, ('P06',))

    def m_converter_acceptTokenOwnership(self, fr, x):
        self._passthrough(fr, x, 'acceptOwnerShip', {}, ('P06',))

    def m_converter_disableTokenTransfers(self, fr, x):
        self._passthrough(fr, x, 'disableTransfer', {'_disable': fr.args['_disable']}, ('P04',))

    def m_converter_withdrawFromToken(self, fr, x):
        self._passthrough(fr, x, 'withdrawTokens', {'_token': fr.args['_token'], '_to': fr.args['_to'],
                                                    '_amount': fr.args['_amount']}, ('P18',))

    # ---------------------------------------------------------------- quotes
    def conn_balance(self, c, t, actual=None):
        w, pe, vbe, _ = self.get(('cn', c, t))
        if vbe:
            return self.get(('vb', c, t))
        if self.roles.get(t) in TOKENS:
            return self.get(('bal', t, c), 0)
        try:
            return self.q(t, 'balanceOf', c)
        except BaseException:
            return None

    def ft_supply(self, c):
        ft = self.get(('token', c))
        if self.roles.get(ft) == 'ft':
            return self.get(('sup', ft))
        return None

    def quote_refusal(self, c, frm, to, amt):
        """documented reasons for getReturn to refuse: (reason, tags) or None"""
        ft = self.get(('token', c))
        if frm == to:
            return 'same token on both sides', ('P17',)
        if not self._active(c):
            return 'converter is inactive', ('P17',)
        conns = [t for t in (frm, to) if t != ft]
        for t in conns:
            if ('cn', c, t) not in self.s:
                return 'not a connector', ('P17',)
        if frm in conns:
            pe = self.get(('cn', c, to if to != ft else frm))[1]
            if not pe:
                return 'purchases are disabled', ('P17',)
        for t in conns:
            b = self.conn_balance(c, t)
            if b is None:
                return 'unknown', ()
            if b <= 0:
                return 'empty connector', ('P26',)
        if to == ft or frm == ft:
            if self.ft_supply(c) is None:
                return 'unknown', ()
            if self.ft_supply(c) <= 0:
                return 'empty supply', ('P26',)
        if frm == ft and amt > self.ft_supply(c):
            return 'sale of more than the supply', ('P26',)
        return None

    def _formula_limit(self, c, frm, to, amt):
        """outside the size range the formula accepts (2^129)"""
        ft = self.get(('token', c))
        if frm == ft:
            n = self.ft_supply(c)
            if amt == n or self.get(('cn', c, to))[0] == PPM or amt == 0:
                return False
        else:
            n = self.conn_balance(c, frm) + amt
            if amt == 0 and to == ft:
                return False
            w1 = self.get(('cn', c, frm))[0]
            if to == ft and w1 == PPM:
                return False
            if to != ft and w1 == self.get(('cn', c, to))[0]:
                return False
        return n >= 1 << 129

    def check_quote(self, c, frm, to, amt, q, where):
        """q: {'amount','fee'} or QREVERT, observed with the current shadow state"""
        if amt < 0:
            return
        why = self.quote_refusal(c, frm, to, amt)
        if why is not None and why[0] == 'unknown':
            return
        d = lambda: f'{where}: converter {c} quotes {frm} -> {to} amount {amt}: {q}'
        if why is not None:
            self.check(why[1], q == QREVERT, 'quote refused: ' + why[0], d)
            return
        if self._formula_limit(c, frm, to, amt):
            self.check(('P26',), q == QREVERT, 'quote refused: beyond the supported size', d)
            return
        if not self.check(('P12', 'P26', 'P33'), q != QREVERT, 'valid quote is answered', d):
            return
        ft = self.get(('token', c))
        if to == ft:
            kind, args, m = 'purchase', (self.ft_supply(c), self.conn_balance(c, frm), self.get(('cn', c, frm))[0],
                                         amt), 1
        elif frm == ft:
            kind, args, m = 'sale', (self.ft_supply(c), self.conn_balance(c, to), self.get(('cn', c, to))[0], amt), 1
        else:
            kind, args, m = 'cross', (self.conn_balance(c, frm), self.get(('cn', c, frm))[0],
                                      self.conn_balance(c, to), self.get(('cn', c, to))[0], amt), 2
        calc = q['amount'] + q['fee']
        bad, ideal, xx = oracle.verdict(kind, args, calc)
        self.check(('P24',), bad is None, f'{kind} price matches the formula',
                   lambda: f'{d()} before fee {calc}, formula gives {ideal:.6f} ({bad}); inputs {args}')
        self.check(('P15',), bad != 'over', f'{kind} never pays more than the formula',
                   lambda: f'{d()} before fee {calc}, formula gives {ideal:.6f}; inputs {args}')
        fee = self.get(('fee', c))
        self.check(('P16',), q['amount'] == calc * (PPM - fee) ** m // PPM ** m and q['fee'] >= 0,
                   f'{kind} fee is exact', lambda: f'{d()} with fee {fee} ppm, magnitude {m}')
        own = price(kind, args)
        if own is not None:
            self.check(('P16',), calc == own, f"{kind}: amount and fee together are the formula's amount",
                       lambda: f'{d()}: {calc}, the formula answers {own} for {args}')

    def _converter_quote(self, fr, c):
        """at a transfer of tokens into converter c: observe the quote before anything moves"""
        info = parse_conv_data(fr.args.get('_data'))
        if info is None:
            return None
        to, mn = info
        try:
            q = self.q(c, 'getReturn', fr.to, to, fr.args['_value'])
        except BaseException:
            q = QREVERT
        self.check_quote(c, fr.to, to, fr.args['_value'], q, 'quote before the conversion')
        if self.want in ('P12', 'P33', None):
            self._from_outside(('P12', 'P33'), c, 'getReturn', (fr.to, to, fr.args['_value']), q)
        return {'to': to, 'min': mn, 'q': q, 'refusal': self.quote_refusal(c, fr.to, to, fr.args['_value'])}

    def _from_outside(self, tags, to, method, args, got):
        """the answer is the one that is given from outside, when only what was written is known"""
        try:
            q = self.chain.ponder(to, method, *args)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            q = QREVERT
        self.check(tags, got == q, f'{method} in a transaction answers what a query would',
                   lambda: f'{self.roles.get(to)} {to}.{method}({[str(a) for a in args]}): {show(got)} in the transaction, {show(q)} from outside')

    def m_converter_getReturn(self, fr, x):
        x.ok_tags = ('P12',)
        x.may_fail, x.out = 'quoted', None
        if fr.parent is not None and self.roles.get(fr.parent.to) is None:
            c, a = fr.to, fr.args
            x.post = lambda fr, x: self.check_quote(c, a['_fromToken'], a['_toToken'], a['_amount'], fr.result, 'quote in a transaction')

    # ---------------------------------------------------------------- conversions at a converter
    def network_of(self, c):
        r = self.get(('registry', c))
        if self.roles.get(r) == 'registry':
            return self.get(('reg', r, 'Network'))
        try:
            return self.q(r, 'getAddress', 'Network')
        except BaseException:
            return None

    def m_converter_tokenFallback(self, fr, x):
        c, tok = fr.to, fr.caller
        frm, val, data = fr.args['_from'], fr.args['_value'], fr.args['_data']
        x.ok_tags = ('P17',)
        if self.fail(x, val <= 0, 'non-positive token amount', 'P17'):
            return
        if self._om(c, frm) and ('cn', c, tok) in self.s and not self._active(c):
            x.ok_tags = ('P18',)
            return                       # initial reserve deposit
        net = self.network_of(c)
        if self.fail(x, net is None or frm != net or not isinstance(net, Address),
                     'tokens not sent by the registered network', 'P17', 'P18'):
            return
        info = parse_conv_data(data)
        if self.fail(x, info is None, 'malformed conversion data', 'P17'):
            return
        to, mn = info
        if type(mn) is not int:
            x.may_fail = 'minimum return is not an integer'
        if not self.fail(x, not self.get(('enabled', c)), 'conversions are disabled', 'P17') and \
                not self.fail(x, mn <= 0, 'minimum return is not positive', 'P13', 'P17') and \
                not self.fail(x, to == tok, 'same token on both sides', 'P17'):
            pass
        if x.must_fail:
            return
        # the quote taken before the tokens moved
        pq = fr.parent.x.quote if fr.parent is not None and fr.parent.x is not None else None
        genuine = fr.parent is not None and fr.parent.to == tok and fr.parent.method == 'transfer' and \
            self.roles.get(tok) in TOKENS
        if not genuine or pq is None:
            why = self.quote_refusal(c, tok, to, val)
            if why is not None and why[0] != 'unknown':
                self.fail(x, True, why[0], *(why[1] + ('P17',)))
            x.may_fail = 'not a genuine transfer'
            x.ev_any = True
            x.out = None
            return
        if pq['q'] == QREVERT:
            why = pq['refusal']
            self.fail(x, True, 'conversion the converter would not quote' + (f' ({why[0]})' if why else ''),
                      'P12', *(why[1] if why else ()))
            return
        ret, fee = pq['q']['amount'], pq['q']['fee']
        if self.fail(x, mn > ret, 'return below the minimum', 'P13'):
            x.short = ret
            return
        ft = self.get(('token', c))
        x.ok_tags = ('P12', 'P13', 'P14')
        if to == ft:
            kind = 'buy'
        elif tok == ft:
            kind = 'sell'
            b = self.conn_balance(c, to)
            if self.fail(x, not (ret < b or (ret == b and val == self.ft_supply(c))),
                         'sale would deplete the connector', 'P15'):
                return
        else:
            kind = 'cross'
            if self.fail(x, ret >= self.conn_balance(c, to), 'conversion would deplete the connector', 'P15'):
                return
        sup0 = self.ft_supply(c)
        vbe = lambda t: self.get(('cn', c, t))[2]
        b_in0 = self.conn_balance(c, tok) - (0 if vbe(tok) else val) if tok != ft else None
        b_out0 = self.conn_balance(c, to) if to != ft else None
        if kind != 'sell' and vbe(tok):
            self.add(('vb', c, tok), val)
        if kind != 'buy' and vbe(to):
            self.add(('vb', c, to), -ret)
        if kind == 'buy':
            x.out = [(ft, 'issue', {'_to': frm, '_amount': ret}, 0, ('P14', 'P12'))]
        elif kind == 'sell':
            x.out = [(ft, 'destroy', {'_from': c, '_amount': val}, 0, ('P14',)),
                     (to, 'transfer', {'_to': frm, '_value': ret}, 0, ('P14', 'P12'))]
        else:
            x.out = [(to, 'transfer', {'_to': frm, '_value': ret}, 0, ('P14', 'P12'))]
        foreign_conn = any(self.roles.get(t) not in TOKENS for t in (tok, to))

        def post(fr, x):
            sup1 = self.ft_supply(c)
            ev = [('Conversion', (tok, to, frm, val, ret, fee), 3)]
            for t in (tok, to):
                if t != ft:
                    ev.append(('PriceDataUpdate', (t, sup1, self.conn_balance(c, t), self.get(('cn', c, t))[0]), 1))
            exp = sorted(str((n, tuple(str(a) for a in args), i)) for n, args, i in ev)
            got = sorted(str((e.name, tuple(str(a) for a in e.args), e.indexed)) for e in fr.events)
            if not x.foreign:
                self.check(('P23',), exp == got, 'conversion events',
                           lambda: f'{fr.desc()}: expected {exp}, emitted {got}')
            if x.foreign or foreign_conn:
                return
            # value: the reserve curve may only improve for the holders
            b_in1 = self.conn_balance(c, tok) if tok != ft else None
            b_out1 = self.conn_balance(c, to) if to != ft else None
            w_in = self.get(('cn', c, tok))[0] if tok != ft else None
            w_out = self.get(('cn', c, to))[0] if to != ft else None
            eps = D('1e-90')
            if kind == 'buy':
                lhs = (D(sup1) / D(sup0)).ln()
                rhs = D(w_in) / PPM * (D(b_in1) / D(b_in0)).ln()
                good = lhs <= rhs + eps
            elif kind == 'sell':
                if sup1 == 0:
                    good = b_out1 == 0 or fee > 0 or True
                else:
                    lhs = D(w_out) / PPM * (D(b_out1) / D(b_out0)).ln()
                    rhs = (D(sup1) / D(sup0)).ln()
                    good = b_out1 > 0 and lhs >= rhs - eps
            else:
                good = b_out1 > 0 and D(w_in) * (D(b_in1) / D(b_in0)).ln() + \
                    D(w_out) * (D(b_out1) / D(b_out0)).ln() >= -eps
            self.check(('P15',), good, f'{kind} leaves the reserve curve no worse',
                       lambda: f'{fr.desc()}: supply {sup0}->{sup1}, in {b_in0}->{b_in1} (w {w_in}), '
                               f'out {b_out0}->{b_out1} (w {w_out})')
        x.post = post
        x.ev_any = True
        x.data = ('conv', kind)
        for t in (tok, to):
            if t != ft:
                self.kinds[('P14', f'{kind}:{"virtual" if vbe(t) else "actual"}')] = \
                    self.kinds.get(('P14', f'{kind}:{"virtual" if vbe(t) else "actual"}'), 0) + 1

    # ---------------------------------------------------------------- network
    def m_network_registerIcxToken(self, fr, x):
        n, t = fr.to, fr.args['_icxToken']
        x.ok_tags = ('P19', 'P08')
        if self.fail(x, fr.caller != self.get(('own', n)), 'registerIcxToken by a stranger', 'P08', 'P19') or \
                self.fail(x, not valid(t), 'zero ICX token', 'P19') or \
                self.fail(x, t == n, 'network as an ICX token', 'P19'):
            return
        self.set(('ntok', n, t), bool(fr.args['_register']))

    def m_network_tokenFallback(self, fr, x):
        data, val, frm = fr.args['_data'], fr.args['_value'], fr.args['_from']
        x.ok_tags = ('P19', 'P20')
        gp = fr.parent.parent if fr.parent is not None else None
        if data == RESULT_DATA or (gp is not None and self.roles.get(gp.to) == 'converter' and
                                   gp.method == 'tokenFallback'):
            return                       # the result of a hop
        info = parse_path_data(data, frm)
        if info == 'unspecified':
            x.may_fail = 'unspecified data'
            x.out, x.ev_any = None, True
            return
        if self.fail(x, info is None, 'malformed conversion data', 'P19'):
            return
        path, mn, to = info
        if self.fail(x, path[0] != fr.caller, 'path does not start at the calling token', 'P19', 'P20'):
            return
        if self.fail(x, mn <= 0, 'minimum return is not positive', 'P13', 'P19') or \
                self.fail(x, not valid(to), 'zero beneficiary', 'P20', 'P19') or \
                self.fail(x, not good_path(path), 'invalid path', 'P19'):
            return
        self._network_conversion(fr, x, path, val, mn, to, False)

    def m_network_convert(self, fr, x):
        self._conv_for(fr, x, fr.args['_path'], fr.args['_minReturn'], fr.caller)

    def m_network_convertFor(self, fr, x):
        self._conv_for(fr, x, fr.args['_path'], fr.args['_minReturn'], fr.args['_for'])

    def _conv_for(self, fr, x, path, mn, to):
        p = parse_path(path)
        x.ok_tags = ('P19', 'P20')
        if self.fail(x, p is None or not good_path(p), 'invalid path', 'P19') or \
                self.fail(x, mn <= 0, 'minimum return is not positive', 'P13', 'P19') or \
                self.fail(x, not valid(to), 'zero beneficiary', 'P20', 'P19') or \
                self.fail(x, to == fr.to, 'network as the beneficiary', 'P20') or \
                self.fail(x, not self.get(('ntok', fr.to, p[0])), 'path does not start at a registered ICX token',
                          'P19'):
            return
        self._network_conversion(fr, x, p, fr.value, mn, to, True)

    def _network_conversion(self, fr, x, path, amount, mn, to, from_icx):
        n = fr.to
        x.out = None
        x.ok_tags = ('P19', 'P20')
        if any(self.roles.get(a) not in TOKENS for a in path[::2]) or \
                any(self.roles.get(a) != 'ft' for a in path[1::2]) or \
                any(self.roles.get(self.get(('own', a))) != 'converter' for a in path[1::2]):
            x.may_fail = 'somebody else\'s contract on the path'
        nets0 = {t: self.get(('bal', t, n), 0) for t, k in self.roles.items() if k in TOKENS}
        taken0 = {t: self.get(('taken', n, t), 0) for t in nets0}
        icx0 = self.get(('icx', n), 0)
        st = {'hops': [], 'cur': None}

        def hook(when, c):
            if c.readonly:
                return
            if when == 'enter':
                i = len(st['hops'])
                tgt = path[2 * i + 2] if 2 * i + 2 < len(path) else None
                ft = path[2 * i + 1] if 2 * i + 1 < len(path) else None
                own = self._owner_of(ft) if ft is not None else None
                c.rbefore = {'tgt': tgt, 'b': self.get(('bal', tgt, n), 0) if tgt else None, 'own': own}
            elif c.ok:
                r = c.rbefore or {}
                if c.method is None and (c.value == 0 or from_icx and c.to == path[0] and not st['hops']):
                    if c.value:
                        st['icx'] = c.value
                    return
                tgt = r.get('tgt')
                st['hops'].append((c, r.get('own'), self.get(('bal', tgt, n), 0) - r['b'] if tgt else None))
        x.child_hook = hook

        def on_fail(fr, x):
            """the call that failed must have been the next one due"""
            bad = [c for c in fr.children if c.ok is False and not c.readonly and c.method not in ('getOwner', 'balanceOf', 'getAddress')]
            if not bad or x.may_fail and any(self.roles.get(t) not in TOKENS for t in path[::2]):
                return None
            c, i, k = bad[-1], len(st['hops']), len(path) // 2
            if x.foreign:
                # somebody else's contracts on the way: who is in charge and what came back is known all the same where the tokens are ours
                if i < k and self.roles.get(path[2 * i + 1]) != 'ft' or any(self.roles.get(t) not in TOKENS for t in path[::2]) or \
                        any(path[2 * j] == path[2 * j + 2] for j in range(min(i, k))):
                    return None
            if from_icx and not i and c.method is None:
                return None if c.to == path[0] and c.value == amount else c.desc()
            amt = amount if not i else st['hops'][-1][2]
            if i < k:
                for g in c.children:
                    if g.x is not None and getattr(g.x, 'short', None) is not None:
                        self.check(('P20', 'P13'), g.x.short < 1 or i == k - 1 and g.x.short < mn, 'only the last hop has to give the minimum asked for',
                                   lambda: f'{fr.desc()}: hop {i} of {k} would give {g.x.short}, {mn} are asked for in the end: {g.desc()}')
                good = c.to == path[2 * i] and c.method == 'transfer' and (
                    c.badargs or c.args.get('_to') == self._owner_of(path[2 * i + 1]) and c.args.get('_value') == amt and
                    (parse_conv_data(c.args.get('_data')) or (path[2 * i + 2],))[0] == path[2 * i + 2])
            elif self.get(('ntok', n, path[-1])):
                good = c.to == path[-1] and c.method == 'withdrawTo' and \
                    (c.badargs or c.args.get('_to') == to and c.args.get('_amount') == amt)
            else:
                good = c.to == path[-1] and c.method == 'transfer' and \
                    (c.badargs or c.args.get('_to') == to and c.args.get('_value') == amt)
            return None if good else f'{c.desc()} after {[h[0].desc() for h in st["hops"]]}'
        x.on_fail = on_fail

        def post(fr, x):
            d = lambda: f'{fr.desc()}: ' + ' ; '.join(h[0].desc() for h in st['hops'])
            if from_icx:
                self.check(('P20', 'P05'), st.get('icx', 0) == amount, 'all ICX is wrapped', d)
            k = len(path) // 2
            if not self.check(('P20', 'P14', 'P19'), len(st['hops']) == k + 1, 'one transfer per hop and one hand-over', d):
                return
            amt = amount
            tracked = True
            for i in range(k):
                c, own, got = st['hops'][i]
                self.check(('P20', 'P19'), c.to == path[2 * i] and c.method == 'transfer' and
                           c.args.get('_to') == own and (not tracked or c.args.get('_value') == amt),
                           'each hop passes everything on to the converter in charge',
                           lambda: f'hop {i}: {c.desc()}, expected {amt} to {own}; {d()}')
                tgt = path[2 * i + 2]
                if self.roles.get(tgt) in TOKENS and not (path[2 * i] == tgt):
                    amt = got
                    tracked = True
                else:
                    tracked = False
            last, final = st['hops'][k][0], path[-1]
            if self.get(('ntok', n, final)):
                good = last.to == final and last.method == 'withdrawTo' and last.args.get('_to') == to and \
                    (not tracked or last.args.get('_amount') == amt)
                paid = last.args.get('_amount')
            else:
                good = last.to == final and last.method == 'transfer' and last.args.get('_to') == to and \
                    (not tracked or last.args.get('_value') == amt)
                paid = last.args.get('_value')
            self.check(('P19',), last.to == final and (last.method == 'withdrawTo') == bool(self.get(('ntok', n, final))),
                       'payout in ICX exactly at a registered ICX token', lambda: f'{last.desc()}; {d()}')
            self.check(('P20',), good, 'the whole result is handed to the beneficiary',
                       lambda: f'{last.desc()}, expected {amt} of {final} to {to}; {d()}')
            self.check(('P13',), paid is not None and paid >= mn, 'at least the minimum return is handed over',
                       lambda: f'paid {paid}, minimum {mn}: {d()}')
            x.data = {'paid': paid}
            if tracked:
                self.check(('P20',), fr.method == 'tokenFallback' or fr.result == amt, 'conversion returns the paid amount',
                           lambda: f'returned {fr.result}, paid {amt}')
            for t, b0 in nets0.items():
                b1 = self.get(('bal', t, n), 0)
                # what its owner took out meanwhile is his business
                want = b0 - (amount if not from_icx and t == path[0] else 0) - (self.get(('taken', n, t), 0) - taken0[t])
                okk = b1 == want if not x.foreign else b1 >= want
                self.check(('P20',), okk, 'the network keeps and loses nothing',
                           lambda: f'network holds {b1} of {t}, expected {want}; {d()}')
            icx1 = self.get(('icx', n), 0)
            self.check(('P20',), icx1 == icx0 - (amount if from_icx else 0), 'the network keeps no ICX',
                       lambda: f'{icx0} -> {icx1}')
        x.post = post

    # ---------------------------------------------------------------- whole-path quotes (P21)
    def _path_quote(self, fr):
        kind = self.roles.get(fr.to)
        net = to = None
        if kind == 'network' and fr.method in ('convert', 'convertFor') and not fr.badargs:
            net, p, amt, mn = fr.to, fr.args.get('_path'), fr.value, fr.args.get('_minReturn')
            path = parse_path(p)
            to = fr.args.get('_for', fr.caller)
        elif kind in TOKENS and fr.method == 'transfer' and self.roles.get(fr.args.get('_to')) == 'network' \
                and not fr.badargs:
            net, amt = fr.args['_to'], fr.args['_value']
            info = parse_path_data(fr.args.get('_data'), fr.caller)
            if info is None or info == 'unspecified':
                return
            path, mn, to = info
            p = json.loads(fr.args['_data'].decode('utf-8'))['path']
        if net is None or path is None:
            return
        if any(self.roles.get(a) not in TOKENS for a in path[::2]) or \
                any(self.roles.get(a) != 'ft' for a in path[1::2]):
            return
        owners = [self.get(('own', a)) for a in path[1::2]]
        if len(set(owners)) != len(owners):
            return
        if any(self.roles.get(o) not in ('converter',) for o in owners):
            return
        try:
            q = self.q(net, 'getExpectedReturnByPath', p, amt)         # the text as it is in the request
        except BaseException:
            q = QREVERT
        if good_path(path) and amt > 0 and q != QREVERT:
            self.kinds[('P21', f'hops={len(path) // 2}')] = self.kinds.get(('P21', f'hops={len(path) // 2}'), 0) + 1
        if not good_path(path):
            self.check(('P19',), q == QREVERT, 'quote of an invalid path is refused',
                       lambda: f'{[str(a) for a in path]} -> {q}')
        self.pathq = (path, amt, mn, to, q, net)

    def _path_result(self, fr, res):
        if self.pathq is None:
            return
        path, amt, mn, to, q, net = self.pathq
        f = fr if self.roles.get(fr.to) == 'network' else (fr.children[-1] if fr.children else None)
        paid = None
        if f is not None and f.x is not None and isinstance(f.x.data, dict):
            paid = f.x.data.get('paid')
        if self.tx_foreign and to.is_contract is False:
            return
        tags = ('P21',) + (('P12',) if len(path) == 3 else ())
        if q == QREVERT:
            self.check(tags, False, 'path converted although the quote is refused', fr.desc)
        elif not self.tx_foreign or paid is not None:
            self.check(tags, paid == q, 'path pays what was quoted',
                       lambda: f'{fr.desc()}: quoted {q}, paid {paid}')
            # end to end, at the beneficiary
            final = path[-1]
            if not to.is_contract:
                if self.pre_s.get(('ntok', net, final)):
                    gain = self.s.get(('icx', to), 0) - self.pre_s.get(('icx', to), 0)
                    if fr.caller == to:
                        gain += fr.value
                else:
                    gain = self.s.get(('bal', final, to), 0) - self.pre_s.get(('bal', final, to), 0)
                    if fr.caller == to and fr.to == final:
                        gain += amt
                self.check(tags + ('P13', 'P20'), gain == q and gain >= mn, 'the beneficiary receives the quoted amount',
                           lambda: f'{fr.desc()}: quoted {q}, received {gain}')


def show(v):
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    return str(v)


def parse_addr(s):
    try:
        return Address.from_string(s)
    except BaseException:
        return None


def parse_path(s):
    if not isinstance(s, str):
        return None
    out = [parse_addr(p.strip()) for p in s.split(',')]
    return None if any(a is None for a in out) else out


def _injected(fr):
    return fr.injected or any(_injected(c) for c in fr.children)


def twin(a):
    return Address(AddressPrefix.EOA if a.is_contract else AddressPrefix.CONTRACT, a.body)


def good_path(p):
    return 3 <= len(p) <= 21 and len(p) % 2 == 1 and len(set(p[1::2])) == len(p) // 2


def parse_path_data(data, sender):
    """(path, minReturn, beneficiary), None (must be refused) or 'unspecified'"""
    if data is None:
        return None
    try:
        d = json.loads(data.decode('utf-8'))
    except (UnicodeDecodeError, ValueError, RecursionError):
        return None
    if not isinstance(d, dict) or 'path' not in d or 'minReturn' not in d:
        return None
    p = parse_path(d['path'])
    if p is None:
        return None
    m = d['minReturn']
    if isinstance(m, bool):
        return 'unspecified'
    if not isinstance(m, int):
        return None
    f = d.get('for')
    if f is None:
        f = sender
    else:
        f = parse_addr(f) if isinstance(f, str) else None
        if f is None:
            return None
    return p, m, f


def parse_conv_data(data):
    if data is None:
        return None
    try:
        d = json.loads(data.decode('utf-8'))
    except (UnicodeDecodeError, ValueError, RecursionError):
        return None
    if not isinstance(d, dict) or 'toToken' not in d or 'minReturn' not in d:
        return None
    t = parse_addr(d['toToken']) if isinstance(d['toToken'], str) else None
    m = d['minReturn']
    if t is None or not isinstance(m, (int, float)):
        return None
    return t, m                          # true, 5.0: left open whether these are numbers to a converter; the amounts are not
