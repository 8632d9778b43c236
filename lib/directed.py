"""Directed workloads: exhaustive matrices, fault enumeration, long chains, extreme curves, twins, queries, installs."""
import copy
import inspect
import time

from vchain import *          # noqa
from vchain import InjectedFault
from actors import BEHAVIOUR
from campaigns import summary, populate, Summary
from spec import PPM, QREVERT, Shadow, TOKENS
from world import World, Deploy, load_contracts
import ops
from ops import Monkey

from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag


def stop(w, want):
    return any(want is None or want in v['tags'] for v in w.sh.violations)


class Snap:
    """everything a transaction can change"""

    def __init__(self, w):
        ch = w.chain
        self.kv = dict(ch.kv.d)
        self.s = dict(w.sh.s) if w.sh else None
        self.beh = copy.deepcopy(BEHAVIOUR)
        self.naddr, self.height = ch.naddr, ch.height
        self.known = list(ch.known)

    def restore(self, w):
        ch = w.chain
        ch.kv.d = dict(self.kv)
        if w.sh:
            w.sh.s = dict(self.s)
            w.sh.journal = []
        for k in list(BEHAVIOUR):
            if k in self.beh:
                BEHAVIOUR[k] = copy.deepcopy(self.beh[k])
        ch.naddr, ch.height = self.naddr, self.height
        ch.known = list(self.known)
        ch._known = set(self.known)
        ch.forget_instances()


def api(cls):
    """advertised methods: {name: (function, readonly, payable)}"""
    out = {}
    for n, f in inspect.getmembers(cls, inspect.isfunction):
        fl = getattr(f, CONST_BIT_FLAG, 0)
        if fl & ConstBitFlag.External:
            out[n] = (f, bool(fl & ConstBitFlag.ReadOnly), bool(fl & ConstBitFlag.Payable))
    return out


# the questions each contract is documented to answer
READS = {k: v.split() for k, v in {
    'irc': 'balanceOf decimals name symbol totalSupply',
    'ft': 'balanceOf decimals getFlexibleTokenVersion getNewOwner getOwner getTransferPossibility name symbol totalSupply',
    'icxt': 'balanceOf decimals getNewOwner getOwner name symbol totalSupply',
    'registry': 'getAddress getNewOwner getOwner getScoreIds',
    'network': 'getExpectedReturnByPath getIcxTokenRegistered getNewOwner getOwner',
    'converter': 'getConnector getConnectorAt getConnectorBalance getConnectorTokenCount getConversionFee getFinalAmount getManager '
                 'getMaxConversionFee getNewManager getNewOwner getOwner getPreviousRegistry getRegistry getReturn getToken isActive '
                 'isAllowRegistryUpdate isConversionsEnabled'}.items()}


# --------------------------------------------------------------------------------------------- matrix
def matrix(seed, size, want):
    """every privileged method x every kind of caller, in several role histories"""
    t0 = time.time()
    w = World(f'matrix:{seed}')
    sh, r, ch = w.sh, w.rng, w.chain
    sh.want = want
    w.base(7)
    D = w.owner
    A, B, M, N, Z, X, Y = w.eoas[1:8]
    p1, p2 = w.puppet(10 ** 20), w.puppet(10 ** 20)
    t0k, t1 = w.new_irc(supply=10 ** 6), w.new_irc(supply=10 ** 6)
    ix = w.new_icxt()
    w.must(D, w.network, 'registerIcxToken', _icxToken=ix, _register=True)
    f0, f1 = w.new_ft(), w.new_ft()
    c_live = w.add_converter(f0, [(t0k, 300000), (ix, 200000)], PPM, 1000, [10 ** 20, 10 ** 18], True)
    c_idle = w.new_converter(f1, w.registry, 50000, t0k, 400000)
    w.must(D, c_idle, 'addConnector', _token=t1, _weight=100, _enableVirtualBalance=True)
    w.must(D, f1, 'transferOwnerShip', _newOwner=c_idle)
    f2 = w.new_ft()
    reg2 = w.new_registry()
    w.must(D, reg2, 'registerAddress', _scoreName='Network', _scoreAddress=w.network)
    w.must(D, w.registry, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=reg2)
    for h in (w.network, f0, f1, f2, ix, c_live, c_idle):
        w.must(D, t1, 'transfer', _to=h, _value=10 ** 15, _data=b'conversionResult') \
            if h in (w.network, c_idle) else None
    for h in (f0, f1, ix, c_live):
        w.must(D, f2, 'issue', _to=h, _amount=10 ** 15)
    who_owns = D
    owned = [w.network, w.registry, reg2, f2, ix, c_live, c_idle]
    variant = seed % 4
    if variant in (1, 2, 3):
        for s in owned:
            w.must(D, s, 'transferOwnerShip', _newOwner=A)
            w.must(A, s, 'acceptOwnerShip')
        who_owns = A
    if variant in (2, 3):
        for s in owned:
            w.must(A, s, 'transferOwnerShip', _newOwner=B)
    for c in (c_live, c_idle):
        if variant >= 1:
            w.must(D if sh.get(('mgr', c)) == D else who_owns, c, 'transferManagement', _newManager=M)
            w.must(M, c, 'acceptManagement')
        if variant >= 2:
            w.must(M, c, 'transferManagement', _newManager=N)
    if variant == 3:
        # the owner is a contract (multisig-like); its operator must not count as the owner
        for s in owned:
            w.must(A, s, 'transferOwnerShip', _newOwner=p1)
            w.run(p1, [(s, 'acceptOwnerShip', (), 0, False)])
        who_owns = p1
        for c in (c_live, c_idle):
            w.must(M, c, 'transferManagement', _newManager=N)
    roles = {'deployer': D, 'former-owner/owner A': A, 'nominee B': B, 'manager M': M, 'nominated manager N': N,
             'stranger': Z, 'second stranger': X, 'contract owner p1': p1, 'contract p2': p2}
    addr = lambda: r.choice([Z, Y, X, p2, w.conv[0], ZERO, A])
    calls = []
    for s in owned + [f0, f1]:
        calls += [(s, 'transferOwnerShip', lambda s=s: [addr()]), (s, 'acceptOwnerShip', lambda: [])]
    for s in (w.network, c_live, c_idle, f0, f1, f2, ix):
        calls += [(s, 'withdrawTokens', lambda s=s: [r.choice([t1, t0k, ix, f2, f2]), r.choice([Z, D, who_owns]), r.choice([1, 10 ** 15])])]
    for s in (f0, f1, f2):
        calls += [(s, 'issue', lambda: [r.choice([Z, X]), 10 ** 6]), (s, 'destroy', lambda: [r.choice([D, Z]), 7]),
                  (s, 'disableTransfer', lambda: [r.random() < .7])]
    for s in (w.registry, reg2):
        calls += [(s, 'registerAddress', lambda: [r.choice(['Network', 'ScoreRegistry']), r.choice([w.network, reg2, p2])]),
                  (s, 'unregisterAddress', lambda: ['ScoreRegistry'])]
    calls += [(w.network, 'registerIcxToken', lambda: [r.choice([ix, f0, t0k]), r.random() < .5])]
    for c in (c_live, c_idle):
        calls += [(c, 'addConnector', lambda: [r.choice([t1, f2, ix]), 1000, r.random() < .5]),
                  (c, 'updateConnector', lambda: [t0k, r.choice([1000, 200000]), True, 12345]),
                  (c, 'disableConnectorPurchases', lambda: [t0k, True]),
                  (c, 'updateRegistry', lambda: []), (c, 'restoreRegistry', lambda: []),
                  (c, 'disableRegistryUpdate', lambda: [r.random() < .7]),
                  (c, 'disableConversions', lambda: [True]), (c, 'setConversionFee', lambda: [r.choice([0, 7, 50000])]),
                  (c, 'transferManagement', lambda: [addr()]), (c, 'acceptManagement', lambda: []),
                  (c, 'transferTokenOwnership', lambda: [addr()]), (c, 'acceptTokenOwnership', lambda: []),
                  (c, 'disableTokenTransfers', lambda: [True]),
                  (c, 'withdrawFromToken', lambda: [t1, Z, 1]), (c, 'withdrawFromToken', lambda: [f2, r.choice([Z, who_owns, who_owns, M]), 1])]
    # registry following switched off in half of the variants
    if seed % 2:
        for c in (c_live, c_idle):
            if who_owns is p1:
                w.run(p1, [(c, 'disableRegistryUpdate', (True,), 0, False)])
            else:
                w.must(who_owns, c, 'disableRegistryUpdate', _disable=True)
    base = Snap(w)
    for to, m, mk in calls:
        args = mk()
        names = [n for n in inspect.signature(getattr(ch.classes[to], m)).parameters if n != 'self']
        for label, who in roles.items():
            origins = [None] if who not in (p1, p2) else [who_owns if who_owns != p1 else A, D, M, Z]
            for org in origins:
                at = [i for i, v in enumerate(args) if isinstance(v, Address)]
                for own in ((False, True) + (('owner',) if r.random() < .4 else ()) if at and (org is None or r.random() < .4) else (False,)):
                    base.restore(w)
                    sh.scene = f'{sh.roles[to]}.{m} by {label}' + (f' started by {org}' if org else '')
                    a2 = list(args)
                    if own == 'owner':
                        a2[at[-1]] = who_owns             # something for the owner
                        sh.scene += ' for the owner'
                    elif own:
                        a2[r.choice(at)] = who            # something for himself
                        sh.scene += ' for himself'
                    if org is None:
                        w.tx(who, to, m, 0, **dict(zip(names, a2)))
                    else:
                        w.run(who, [(to, m, tuple(a2), 0, False)], sender=org)
                if stop(w, want):
                    return summary(w, 'matrix', {'cells': len(calls) * len(roles)}, t0)
    sh.scene = ''
    return summary(w, 'matrix', {'methods': len(calls), 'callers': len(roles)}, t0)


# --------------------------------------------------------------------------------------------- faults
def faults(seed, size, want, profile='HOSTILE'):
    """every transaction again with a failure injected before and after each of its inner calls"""
    t0 = time.time()
    w = World(f'faults:{profile}:{seed}', restart='on_fail')
    sh, ch = w.sh, w.chain
    sh.want = want
    w.standard()
    populate(w)
    m = Monkey(w, getattr(ops, profile))
    m.restart_p = m.doom_p = 0
    injected = points = 0
    for _ in range(size):
        if profile == 'HOSTILE' and w.rng.random() < .5:
            # half of the recipients are well behaved, so that faults are not drowned by natural failures
            for b in BEHAVIOUR.values():
                b.on_token = b.on_icx = 'accept'
        snap = Snap(w)
        state = w.rng.getstate()
        txs0 = sh.txs
        m.step()
        if stop(w, want):
            break
        n = sh.txs - txs0
        if n != 1:
            continue
        k = ch.ncalls
        after_ok = Snap(w)
        after_state = w.rng.getstate()
        if k == 0 or not getattr(ch, 'last', None):
            continue
        for i in range(1, min(k, 40) + 1):
            for when in ('before', 'after'):
                snap.restore(w)
                w.rng.setstate(state)
                ch.fault = (i, when)
                before = dict(ch.kv.d)
                sh.scene = f'failure {when} inner call'
                m.step()
                points += 1
                res = ch.last
                if res.faults_hit:
                    injected += 1
                    if not res.ok:
                        sh.check(('P22',), ch.kv.d == before, 'ledger untouched by a failed request',
                                 lambda: f'fault {i} {when}: {w.log[-1]}')
                    sh.case(('fault', when, sh.roles.get(res.frame.to), res.frame.method, res.ok), lambda: w.log[-1])
                ch.fault = None
                if stop(w, want):
                    sh.violations[-1]['fault'] = (i, when)
                    return summary(w, f'faults:{profile}', {'fault_points': points, 'injected': injected}, t0)
        after_ok.restore(w)
        w.rng.setstate(after_state)
        sh.scene = ''
    return summary(w, f'faults:{profile}', {'fault_points': points, 'injected': injected}, t0)


# --------------------------------------------------------------------------------------------- long chains
def chain_world(seed, hops=11, tag='chain', virtual=.25):
    w = World(f'{tag}:{seed}')
    r = w.rng
    w.base(3)
    ix = w.ix = w.new_icxt()
    w.must(w.owner, w.network, 'registerIcxToken', _icxToken=ix, _register=True)
    t = [w.new_irc(supply=10 ** 9) for _ in range(3)]
    w.conns = {}
    prev = ix if r.random() < .7 else t[0]
    w.spine = [prev]
    fts = []
    for i in range(hops):
        ft = w.new_ft(supply=10 ** 6)
        nxt = r.choice([None, t[0], t[1], t[2]])
        toks = [prev]
        if nxt is not None and nxt != prev:
            toks.append(nxt)
        ws = [r.choice([PPM // len(toks), 100000, 333333, 1, r.randrange(1, PPM // len(toks) + 1)]) for _ in toks]
        if sum(ws) > PPM:
            ws = [PPM // len(toks)] * len(toks)
        res = [10 ** r.randrange(18, 22) for _ in toks]
        virt = {x: 10 ** r.randrange(18, 23) for x in toks if r.random() < virtual}
        c = w.add_converter(ft, list(zip(toks, ws)), PPM, r.choice([0, 0, 1, 1000, 20000]), res, True, virt,
                            initial=r.random() < .5)
        w.conns[ft] = (c, toks)
        out = r.choice([ft, toks[1]]) if len(toks) > 1 else ft
        if out in w.spine or out == prev:
            out = ft
        w.spine += [ft, out]
        prev = out
        fts.append(ft)
    w.fts = fts
    for u in w.eoas[1:]:
        for x in t:
            w.must(w.owner, x, 'transfer', _to=u, _value=10 ** 22)
        for x in fts:
            w.must(w.owner, x, 'transfer', _to=u, _value=10 ** 21)
        w.must(u, ix, 'deposit', value=10 ** 21)
    return w


def chains(seed, size, want):
    """paths of every length up to 10 hops (and beyond), forwards, backwards, with repetitions"""
    t0 = time.time()
    w = chain_world(seed)
    w.sh.want = want
    populate(w, npup=2, dishonest=False)
    m = Monkey(w, dict(trade=1, long=2, path_quote=1, fee=.1, heal=.1))
    r = w.rng
    sp = w.spine
    rev = [sp[-1]]
    for i in range(len(sp) - 2, 0, -2):
        rev += [sp[i], sp[i - 1]]
    plan = []
    for h in list(range(1, 12)):
        plan += [sp[:2 * h + 1], rev[:2 * h + 1]]
    for h in (1, 2, 5, 9, 10):
        p = sp[:2 * h + 1]
        q = rev[:2 * h + 1]
        plan += [p + [p[1], p[0]], p + [p[-2], p[-3]], p[:-1], p + [q[-2]], q]
    plan += [p for p in (m.circle(h) for h in (3, 3, 4, 5, 7, 9, 10, 10)) if p]
    r.shuffle(plan)
    for p in plan:
        w.sh.scene = f'{len(p)} entries'
        m.path = lambda *a, **k: list(p)
        # a quote and a conversion along exactly this path
        src = p[0]
        amt = r.choice([1, 10 ** 6, 10 ** 15, 10 ** 18 + 7])
        u = r.choice(w.eoas[1:])
        mn = m.min_return(w.network, p, amt) if r.random() < .5 else 1
        to = m.beneficiary()
        if src == w.ix and r.random() < .6:
            ps = ','.join(str(x) for x in p)
            if to is None:
                w.tx(u, w.network, 'convert', amt, _path=ps, _minReturn=mn)
            else:
                w.tx(u, w.network, 'convertFor', amt, _path=ps, _minReturn=mn, _for=to)
        elif src in m.tokens:
            w.tx(u, src, 'transfer', _to=w.network, _value=amt, _data=w.path_data(p, mn, to))
        m.op_path_quote(list(p))
        if stop(w, want):
            break
    del m.path
    w.sh.scene = ''
    for _ in range(size):
        m.step()
        if stop(w, want):
            break
    return summary(w, 'chains', {'ops': {k[3:]: v for k, v in m.done.items()}}, t0)


# --------------------------------------------------------------------------------------------- extreme curves
def curves(seed, size, want):
    """converters with many connectors, extreme weights, supplies and virtual balances"""
    t0 = time.time()
    w = World(f'curves:{seed}')
    sh, r = w.sh, w.rng
    sh.want = want
    w.base(2)
    ix = w.ix = w.new_icxt()
    w.must(w.owner, w.network, 'registerIcxToken', _icxToken=ix, _register=True)
    toks = [w.new_irc(supply=10 ** r.randrange(20, 42), decimals=0) for _ in range(4)]
    w.conns = {}
    w.fts = []
    big = lambda: r.choice([1, 2, 3, 10 ** 3, 10 ** 9, 10 ** 18, 2 ** 64, 2 ** 100, 2 ** 127, 2 ** 128, 2 ** 129 - 1,
                            r.randrange(1, 2 ** r.randrange(1, 129))])
    for i in range(2):
        ft = w.new_ft(supply=big() % 2 ** 120 + 1, decimals=0)
        use = r.sample(toks, r.choice([2, 3, 4]))
        left = PPM
        ws = []
        for k, t in enumerate(use):
            hi = left - (len(use) - k - 1)
            wt = min(hi, r.choice([1, 2, 1000, 100000, 250000, 333333, hi, hi - 1, r.randrange(1, hi + 1)]))
            wt = max(1, wt)
            ws.append(wt)
            left -= wt
        virt = {t: big() for t in use if r.random() < .6}
        res = [r.randrange(1, w.sh.get(('bal', t, w.owner), 1) // 4 + 2) for t in use]
        c = w.add_converter(ft, list(zip(use, ws)), r.choice([PPM, 1000]), r.choice([0, 0, 1, 1000]), res, True, virt,
                            initial=r.random() < .5)
        w.conns[ft] = (c, use)
        w.fts.append(ft)
    if r.random() < .4:
        w.crowd()
    for u in w.eoas[1:]:
        for t in w.irc + w.ft:
            w.must(w.owner, t, 'transfer', _to=u, _value=(sh.get(('bal', t, w.owner), 0)) // 3)
    m = Monkey(w, dict(trade=30, pump=10, swap_back=10, quote=40, fee=3, enable_back=1, purchases_back=1, liquidate=.5))
    for i in range(size):
        if i % 5 == 4:
            c = r.choice(w.conv)
            t = r.choice(sh.get(('order', c)))
            cn = sh.get(('cn', c, t))
            w.tx(w.owner, c, 'updateConnector', _connectorToken=t, _weight=cn[0], _enableVirtualBalance=r.random() < .7,
                 _virtualBalance=big())
        m.step()
        if stop(w, want):
            break
    return summary(w, 'curves', {'ops': {k[3:]: v for k, v in m.done.items()}}, t0)


# --------------------------------------------------------------------------------------------- puppet network
def impostor(seed, size, want):
    """the registered network is a contract of our own: conversions with arbitrary requests, and fake neighbours"""
    from switch import by
    t0 = time.time()
    w = World(f'impostor:{seed}')
    sh, r, ch = w.sh, w.rng, w.chain
    sh.want = want
    w.standard()
    populate(w, dishonest=False)
    p = w.puppets[0]
    w.must(w.owner, w.registry, 'registerAddress', _scoreName='Network', _scoreAddress=p)
    for t in w.irc + w.ft:
        w.must(w.owner, t, 'transfer', _to=p, _value=sh.get(('bal', t, w.owner), 0) // 3)
    w.run(p, [(w.ix, 'deposit', (), 10 ** 20, False)])
    BEHAVIOUR[w.puppets[1]].owner = w.conv[0]
    m = Monkey(w, dict(fee=3, connector=3, conversions=2, enable_back=3, purchases_back=3, token_owner=1, heal=4,
                       manager=1, conv_registry=.3, getters=1, quote=4))
    import json as _j
    for _ in range(size):
        if r.random() < .08:
            # the network gets a part in the converter as well, or loses it
            c, x = r.choice(w.conv), r.random()
            o, g = sh.get(('own', c)), sh.get(('mgr', c))
            if x < .5:
                new = p if o != p else w.owner
                by(w, o, c, 'transferOwnerShip', new)
                if x < .4:
                    by(w, new, c, 'acceptOwnerShip')
            else:
                new = p if g != p else w.owner
                by(w, r.choice([o, g]), c, 'transferManagement', new)
                if x < .9:
                    by(w, new, c, 'acceptManagement')
            if p in (sh.get(('own', c)), sh.get(('mgr', c))) and r.random() < .5:
                by(w, p, c, 'disableConversions', r.random() < .6)
        if r.random() < .35:
            m.step()
        else:
            c = r.choice(w.conv)
            order = list(sh.get(('order', c)) or ())
            names = order + [sh.get(('token', c))]
            tok = r.choice(names) if r.random() < .93 else r.choice(m.tokens)
            to = r.choice(names) if r.random() < .93 else m.anybody()
            have = sh.get(('bal', tok, p), 0)
            amt = r.choice([0, 1, 2, 1000, have // 10 ** 6, have // 1000, have // 10, r.randrange(have + 1)])
            try:
                q = ch.query(c, 'getReturn', dict(_fromToken=tok, _toToken=to, _amount=amt))['amount']
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                q = 1
            mn = r.choice([1, 1, 1, q, q + 1, q - 1, 0, -1])
            d = w.conv_data(to, mn)
            z = r.random()
            if z < .12:
                d = r.choice([b'', b'null', b'[]', b'{}', b'\xff\xfe', d[:-1], b'conversionResult', d + b'x',
                              _j.dumps({'minReturn': 1}).encode(), _j.dumps({'toToken': str(to)}).encode(),
                              _j.dumps({'toToken': str(to), 'minReturn': None}).encode(),
                              _j.dumps({'toToken': str(to), 'minReturn': '1'}).encode(),
                              _j.dumps({'toToken': [str(to)], 'minReturn': 1}).encode(),
                              _j.dumps({'toToken': 'cx12', 'minReturn': 1}).encode()])
            elif z < .2:
                d = _j.dumps({'minReturn': mn, 'x': {'y': [1]}, 'toToken': str(to)}).encode()
            if r.random() < .85:
                w.run(p, [(tok, 'transfer', (c, amt, d), 0, r.random() < .2)])
            else:
                # notification without a transfer
                w.run(p, [(c, 'tokenFallback', (p, max(1, amt), d), 0, r.random() < .2)])
        if stop(w, want):
            break
    return summary(w, 'impostor', {'ops': {k[3:]: v for k, v in m.done.items()}}, t0)


# --------------------------------------------------------------------------------------------- restart twins
class Recorder(Observer):
    def __init__(self, chain):
        self.rows = []
        chain.observers.append(self)
        self.calls = []

    def on_tx_start(self, fr):
        self.calls = []

    def on_exit(self, fr):
        if not fr.readonly:
            self.calls.append((fr.depth, str(fr.to), fr.method, fr.ok, str(fr.result)))

    def on_tx_end(self, fr, res):
        self.rows.append((res.ok, str(res.exc), str(res.result), tuple(e.key() for e in res.events), tuple(self.calls)))


class Tape:
    """records what happens on a world's chain, to be replayed in twin runs"""

    def __init__(self, w):
        self.w, self.script = w, script = w, []
        real_tx, real_deploy = w.chain.tx, w.chain.deploy

        def tx(sender, to, method=None, params=None, value=0, raw=False):
            script.append(('tx', sender, to, method, dict(params or {}), value, copy.deepcopy(BEHAVIOUR), w.chain.height, w.chain.doom))
            return real_tx(sender, to, method, params, value, raw)

        def deploy(cls, sender, params=None, addr=None, method='on_install'):
            n = w.chain.naddr
            script.append(('deploy', cls, sender, dict(params or {}), n, w.chain.height, addr, method))
            return real_deploy(cls, sender, params, addr, method)

        w.chain.tx, w.chain.deploy = tx, deploy

    def twins(self, seed):
        """replays the history with different lives of the instances and compares everything"""
        w, script, sh = self.w, self.script, self.w.sh
        runs = []
        for mode in ('on_fail', 'never', 'always', 'update'):
            ch = Chain(restart='on_fail' if mode == 'update' else mode, tag=w.chain.tag)
            rec = Recorder(ch)
            rr = __import__('random').Random(f'upd:{seed}')
            for a, amt in w.chain.minted:
                ch.mint_icx(a, amt)
            for st in script:
                if st[0] == 'deploy':
                    _, cls, sender, params, n, h, addr, method = st
                    ch.naddr, ch.height = n, h
                    ch.deploy(cls, sender, params, addr=addr, method=method)
                else:
                    _, sender, to, method, params, value, beh, h, doom = st
                    ch.height = h
                    for k in list(BEHAVIOUR):
                        if k in beh:
                            BEHAVIOUR[k] = copy.deepcopy(beh[k])
                    every = w.conv + w.ft + w.net + w.reg + w.icxt + w.irc
                    todo = []
                    if mode == 'update' and rr.random() < .3:
                        todo = every if rr.random() < .1 else [rr.choice(every)]
                    for a in todo:
                        if a in ch.classes:
                            before = dict(ch.kv.d)
                            keep = list(rec.rows)
                            _, u = ch.deploy(ch.classes[a], ch.deployer[a], None, addr=a, method='on_update')
                            rec.rows = keep
                            sh.check(('P32',), u.ok and ch.kv.d == before, 'an update with the same code changes nothing',
                                     lambda: f'{ch.classes[a].__name__}: ok={u.ok} {u.exc}')
                            ch.height = h
                    ch.doom = doom
                    ch.tx(sender, to, method, params, value)
            runs.append((mode, rec.rows, dict(ch.kv.d)))
        ref = runs[0]
        nd = 0
        for mode, rows, kv in runs[1:]:
            n = min(len(rows), len(ref[1]))
            for i in range(n):
                same = rows[i] == ref[1][i]
                nd += 1
                sh.check(('P32',), same, 'same outcome with and without restarts',
                         lambda: f'request {i} {[str(x) for x in script[i][:5]]}: {mode} {str(rows[i])[:700]} vs {ref[0]} {str(ref[1][i])[:700]}')
                if i < len(script):
                    st = script[i]
                    sh.case(('restart', mode, sh.roles.get(st[2]) if st[0] == 'tx' else st[1].__name__,
                             st[3] if st[0] == 'tx' else '', rows[i][0]), lambda: f'{mode}: {[str(x) for x in st[:4]]}')
                if not same:
                    break
            sh.check(('P32',), len(rows) == len(ref[1]), 'same number of requests')
            diff = [k for k in set(kv) | set(ref[2]) if kv.get(k) != ref[2].get(k)]
            sh.check(('P32',), not diff, 'same ledger with and without restarts',
                     lambda: f'{mode} vs {ref[0]}: {len(diff)} keys differ, e.g. {diff[:2]}')
        return nd


def restart(seed, size, want, profile='TRADE'):
    """the same history with long-lived instances and with instances dropped (or code updated) between requests

    modes: on_fail drops the instances after failed requests (reference), never keeps them, always drops them before
    every request, update re-installs the same code now and then"""
    t0 = time.time()
    # the guide run is monitored and decides which transactions there are
    w = World(f'restart:{profile}:{seed}', restart='on_fail')
    w.sh.want = want
    tape = Tape(w)
    w.standard()
    populate(w)
    m = Monkey(w, getattr(ops, profile))
    m.doom_p = .15
    for _ in range(size):
        m.step()
        if stop(w, None):
            break
    nd = tape.twins(seed)
    return summary(w, f'restart:{profile}', {'requests': len(tape.script), 'twin_comparisons': nd}, t0)


# --------------------------------------------------------------------------------------------- queries
def queries(seed, size, want, profile='ADMIN'):
    """every read-only method in every state: no trace, same answer everywhere; writes as queries achieve nothing"""
    t0 = time.time()
    w = World(f'queries:{profile}:{seed}')
    sh, r, ch = w.sh, w.rng, w.chain
    sh.want = want
    w.standard()
    if r.random() < .5:
        w.crowd(24)
    populate(w)
    m = Monkey(w, getattr(ops, profile))
    asked = 0
    ERR = object()

    def args_for(c, name, f):
        out = []
        order = list(sh.get(('order', c)) or ())
        toks = order + ([sh.get(('token', c))] if sh.roles.get(c) == 'converter' else [])
        for pn, pp in list(inspect.signature(f).parameters.items())[1:]:
            ty = pp.annotation
            if ty is Address:
                v = r.choice(toks) if toks and r.random() < .75 else m.anybody()
            elif ty is int:
                if name == 'getConnectorAt':
                    v = r.randrange(len(order)) if order and r.random() < .8 else len(order)
                elif name == 'getFinalAmount' and pn == '_magnitude':
                    v = r.choice([1, 2])
                else:
                    v = r.choice([0, 1, 10 ** 6, 10 ** 18, r.randrange(2 ** 100)])
            elif ty is str:
                v = r.choice(['Network', 'ScoreRegistry', 'x'])
                if name == 'getExpectedReturnByPath':
                    p = m.path() or [r.choice(m.tokens)] * 3
                    v = ','.join(str(x) for x in p)
            elif ty is bool:
                v = r.random() < .5
            else:
                v = b'x'
            out.append((pn, v))
        return out

    for c in m.scores + w.irc:
        methods = api(ch.classes[c])
        for name in READS[sh.roles[c]]:
            sh.check(('P33',), name in methods and methods[name][1], 'a documented question is published as read-only',
                     lambda: f'{sh.roles[c]}.{name}')
    for _ in range(size):
        m.step()
        if stop(w, want):
            break
        for _ in range(4):
            c = r.choice(m.scores + w.irc)
            methods = api(ch.classes[c])
            name = r.choice(sorted(methods))
            f, ro, pay = methods[name]
            args = args_for(c, name, f)
            before = dict(ch.kv.d)
            asked += 1

            def ask(fn):
                try:
                    return fn()
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    return ERR
            caller = m.caller()
            a = ask(lambda: ch.query(c, name, dict(args), sender=caller))
            d = lambda: f'{sh.roles[c]} {c}.{name}({[(k, str(v)) for k, v in args]})'
            sh.check(('P33',), ch.kv.d == before, 'a query leaves the ledger alone', d)
            k = sh.roles[c]
            if k == 'converter' and name == 'getReturn':
                sh.check_quote(c, *[v for _, v in args], ops.QREVERT if a is ERR else a, 'query')
            if ro:
                b = ask(lambda: ch.query(c, name, dict(args), sender=ZERO))
                sh.check(('P33',), a is b or a == b, 'the answer does not depend on who asks',
                         lambda: f'{d()}: {a} vs {b}')
                # as a transaction
                res = w.tx(caller, c, name, 0, **dict(args))
                dd = [x for x in set(before) | set(ch.kv.d) if before.get(x) != ch.kv.d.get(x)]
                sh.check(('P33',), not dd and not res.events, 'a read-only method in a transaction leaves no trace', d)
                sh.check(('P33',), res.ok == (a is not ERR), 'same answer in a transaction and as a query',
                         lambda: f'{d()}: query {"refused" if a is ERR else a}, transaction {res.ok} {res.exc}')
                if res.ok and a is not ERR:
                    sh.check(('P33',), str(res.result) == str(a) or res.result is None,
                             'same answer in a transaction and as a query', lambda: f'{d()}: {a} vs {res.result}')
                # asked by a contract, which is neither the one who signed nor (here) known to the contract asked
                h = r.choice(w.puppets)
                got, want_log = None, len(BEHAVIOUR[h].log)
                res = w.run(h, [(c, name, tuple(v for _, v in args), 0, True)], sender=r.choice([caller] + w.eoas) if not caller.is_contract else w.owner)
                log = [x for x in BEHAVIOUR[h].log[want_log:] if x[0] == 'ran']
                if res.ok and log:
                    got = log[-1][1][0]
                    refused = isinstance(got, BaseException)
                    sh.check(('P33',), refused == (a is ERR), 'same answer to a contract and as a query',
                             lambda: f'{d()}: query {"refused" if a is ERR else a}, contract told {got!r}')
                    if not refused and a is not ERR:
                        sh.check(('P33',), str(got) == str(a), 'same answer to a contract and as a query', lambda: f'{d()}: {a} vs {got}')
                # well-formed questions about existing things are answered
                total = name in ('getOwner', 'getNewOwner', 'name', 'symbol', 'decimals', 'totalSupply', 'balanceOf',
                                 'getManager', 'getNewManager', 'getToken', 'getRegistry', 'getPreviousRegistry',
                                 'getConversionFee', 'getMaxConversionFee', 'isConversionsEnabled', 'getAddress', 'getScoreIds',
                                 'isAllowRegistryUpdate', 'getConnectorTokenCount', 'getConnector', 'getTransferPossibility',
                                 'getFlexibleTokenVersion', 'getIcxTokenRegistered', 'isActive', 'getFinalAmount')
                if total:
                    sh.check(('P33',), a is not ERR, f'{k}.{name} always answers', d)
            sh.case(('query', k, name, a is ERR), d)
            if stop(w, want):
                return summary(w, f'queries:{profile}', {'asked': asked}, t0)
    return summary(w, f'queries:{profile}', {'asked': asked}, t0)


# --------------------------------------------------------------------------------------------- installation
def installs(seed, size, want):
    """installation with valid and invalid parameters: documented initial state, or nothing at all"""
    t0 = time.time()
    w = World(f'installs:{seed}')
    sh, r, ch = w.sh, w.rng, w.chain
    sh.want = want
    w.base(3)
    ch.observers.remove(sh)               # this workload does its own checking
    T = ('P34',)
    q = lambda a, mname, **kw: ch.query(a, mname, kw)
    # a fresh registry and network
    n = 0

    def attempt(cls, kind, params, good, expect):
        nonlocal n
        n += 1
        who = r.choice(w.eoas)
        before = dict(ch.kv.d)
        a, res = ch.deploy(w.C[cls], who, params)
        d = lambda: f'{cls} installed by {who} with { {k: str(v) for k, v in params.items()} }'
        if good is None:
            good = res.ok                     # unspecified
        extra = ('P07',) if kind == 'converter' else ()
        extra += ('P06',) if kind not in ('irc',) else ()
        extra += {'irc': ('P01',), 'ft': ('P01', 'P04'), 'icxt': ('P05',), 'registry': ('P09',), 'network': ('P19',),
                  'converter': ('P11', 'P16')}[kind]
        if good:
            if not sh.check(T, res.ok, f'{kind}: valid installation is accepted', lambda: f'{d()}: {res.exc}'):
                return None
            for k, (v, tags) in expect(a, who).items():
                meth, args = k if isinstance(k, tuple) else (k, {})
                try:
                    got = q(a, meth, **args)
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    got = f'refused: {e}'
                sh.check(T + tags, got == v, f'{kind}: initial {meth}', lambda: f'{d()}: {meth}{args} is {got}, expected {v}')
            ev = sorted(e.name for e in res.events)
            want_ev = {'ft': ['NewFlexibleToken'], 'registry': ['AddressUpdate']}.get(kind, [])
            sh.check(T + ('P23',), ev == want_ev, f'{kind}: installation events', lambda: f'{d()}: {ev}')
            sh.case((kind, True, tuple(sorted((k, shape(v)) for k, v in params.items()))), d)
            return a
        sh.check(T, not res.ok, f'{kind}: invalid installation is refused', d)
        sh.check(T + ('P22',), res.ok or ch.kv.d == before, f'{kind}: a refused installation leaves nothing', d)
        sh.case((kind, False, tuple(sorted((k, shape(v)) for k, v in params.items()))), d)
        return None

    def shape(v):
        if isinstance(v, Address):
            return 'zero' if v == ZERO else v.prefix.name
        if isinstance(v, int):
            return (v > 0) - (v < 0), v.bit_length() // 24
        return len(str(v)) // 8

    for i in range(size):
        k = r.choice(['irc', 'ft', 'ft', 'icxt', 'registry', 'network', 'converter', 'converter', 'converter'])
        if k in ('irc', 'ft'):
            p = dict(_name=r.choice(['A', '', ' ', ' padded ', 'UPPER', 'lower', 'Token with spaces', 'x' * 100, 'y' * 5000, 'Ünïcode \u2713', 'a\nb', '0']), _symbol=r.choice(['S', '', 'LONGSYMBOL', 'low', 'Mixed', ' S', '\u2713', 'Z' * 300]),
                     _initialSupply=r.choice([0, 1, 10, 10 ** 6, 10 ** 30, -1, -10 ** 9, 2 ** 63, 2 ** 128, 2 ** 256, 10 ** 90]),
                     _decimals=r.choice([0, 1, 8, 18, 18, 30, 60, 76, 77, 78, 100, 127, 128, 255, 256, 1000, -1, -18]))
            good = p['_initialSupply'] >= 0 and p['_decimals'] >= 0
            tot = p['_initialSupply'] * 10 ** max(0, p['_decimals'])
            stranger = r.choice(w.eoas)

            def exp(a, who, p=p, tot=tot, k=k):
                e = {'name': (p['_name'], ()), 'symbol': (p['_symbol'], ()), 'decimals': (p['_decimals'], ()),
                     'totalSupply': (tot, ('P01',)), ('balanceOf'): None}
                e.pop('balanceOf')
                out = dict(e)
                if k == 'ft':
                    out['getOwner'] = (who, ('P06',))
                    out['getNewOwner'] = (ZERO, ('P06',))
                    out['getTransferPossibility'] = (True, ('P04',))
                return {kk: v for kk, v in out.items()}
            a = attempt('IRCToken' if k == 'irc' else 'FlexibleToken', k, p, good, lambda a, who: Exp2(exp(a, who), a, who, tot))
        elif k == 'icxt':
            attempt('IcxToken', k, {}, True, lambda a, who: Exp2(
                {'name': ('ICX Token', ()), 'symbol': ('ICXT', ()), 'decimals': (18, ()), 'totalSupply': (0, ('P05', 'P01')),
                 'getOwner': (who, ('P06',)), 'getNewOwner': (ZERO, ('P06',))}, a, who, 0))
        elif k == 'registry':
            attempt('ScoreRegistry', k, {}, True, lambda a, who: {
                'getOwner': (who, ('P06',)), 'getNewOwner': (ZERO, ('P06',)),
                K('getAddress', _scoreName='ScoreRegistry'): (a, ('P09',)), K('getAddress', _scoreName='Network'): (ZERO, ('P09',)),
                K('getAddress', _scoreName='Other'): (ZERO, ('P09',))})
        elif k == 'network':
            attempt('Network', k, {}, True, lambda a, who: {
                'getOwner': (who, ('P06',)), 'getNewOwner': (ZERO, ('P06',)),
                K('getIcxTokenRegistered', _icxToken=r.choice(w.icxt) if w.icxt else ZERO): (False, ('P19',))})
        else:
            ft = w.new_ft(supply=1) if not w.ft or r.random() < .15 else r.choice(w.ft)
            irc = w.new_irc(supply=10) if not w.irc or r.random() < .1 else r.choice(w.irc)
            token = r.choice([ft, ft, ft, ft, ft, ft, ZERO, r.choice(w.eoas), irc, w.network])
            reg = r.choice([w.registry, w.registry, w.registry, w.registry, w.registry, ZERO, r.choice(w.eoas), w.network])
            mf = r.choice([0, 1, 2, 999, 30000, 999999, PPM, PPM, PPM + 1, PPM + 2, 2 * PPM, -1, -PPM, 2 ** 64, r.randrange(PPM), r.randrange(PPM, 2 * PPM)])
            ct = r.choice([ZERO, irc, irc, irc, ft if r.random() < .3 else irc, r.choice(w.eoas), w.registry, w.network, ch._addr('hx'),
                           ch._addr('cx'), r.choice(w.ft or [irc])])
            cw = r.choice([1, 2, 100000, 999999, PPM, PPM, 0, -1, -PPM, PPM + 1, 2 * PPM, 2 ** 32 + 1, 500000, r.randrange(1, PPM + 1)])
            good = token != ZERO and reg != ZERO and 0 <= mf <= PPM and \
                (ct == ZERO or (0 < cw <= PPM and ct != token))
            if good and token not in w.ft:
                # something that is no flexible token: only what was asked for must be there, if accepted
                good = True if ct == ZERO else None

            def exp(a, who, token=token, reg=reg, mf=mf, ct=ct, cw=cw):
                e = {'getOwner': (who, ('P06',)), 'getNewOwner': (ZERO, ('P06',)), 'getManager': (who, ('P07',)),
                     'getNewManager': (ZERO, ('P07',)), 'getToken': (token, ('P11',)), 'getRegistry': (reg, ('P10',)),
                     'getPreviousRegistry': (reg, ('P10',)), 'isAllowRegistryUpdate': (True, ('P10',)),
                     'getMaxConversionFee': (mf, ('P16',)), 'getConversionFee': (0, ('P16',)),
                     'isConversionsEnabled': (True, ('P17',)), 'isActive': (False, ('P17',)),
                     'getConnectorTokenCount': (0 if ct == ZERO else 1, ('P11',))}
                if token not in w.ft:
                    e.pop('isActive')
                if ct != ZERO:
                    e[K('getConnectorAt', _index=0)] = (ct, ('P11',))
                    e[K('getConnector', _address=ct)] = ({'virtualBalance': 0, 'weight': cw, 'isVirtualBalanceEnabled': False,
                                                         'isPurchaseEnabled': True, 'isSet': True}, ('P11',))
                return e
            attempt('Converter', 'converter', dict(_token=token, _registry=reg, _maxConversionFee=mf, _connectorToken=ct,
                                                   _connectorWeight=cw), good, exp)
        if stop(w, want):
            break
    return summary(w, 'installs', {'installations': n}, t0)


class K(tuple):
    """method plus arguments, usable as a key"""
    def __new__(cls, m, **kw):
        return super().__new__(cls, (m, _H(kw)))


class _H(dict):
    def __hash__(self):
        return hash(tuple(sorted((k, str(v)) for k, v in self.items())))


def Exp2(e, a, who, tot):
    e = dict(e)
    e[K('balanceOf', _owner=who)] = (tot, ('P01',))
    e[K('balanceOf', _owner=a)] = (0, ('P01',))
    return e
