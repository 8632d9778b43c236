"""Configurations reached on purpose: every setting of a converter, its token, its registry and its network is a dimension with a
handful of values; each round leaves most of them as usual, moves a few (so that pairs and triples of unusual settings meet), and asks
exactly what the property in question decides, always from the same state."""
import itertools
import json
import time

from vchain import *          # noqa
from actors import BEHAVIOUR
from campaigns import summary
from directed import Snap, stop
from spec import PPM
from switch import Board, by, names

USUAL = .62
# what stops every conversion is moved less often where conversions are the point
STOPS = ('token', 'conversions', 'transfers', 'network')
TRADING = ('P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P19', 'P20', 'P21', 'P23')


def dims(b):
    """name: (usual value, the others, how to get there)"""
    w, r, c, f, n = b.w, b.r, b.c, b.f, b.w.network
    g = b.get
    u1, u2, p0, p1 = w.eoas[1], w.eoas[2], b.p[0], b.p[1]
    D = w.owner

    def owner(s):
        return lambda v: b.hand(s, v)

    def flag(cur, set_):
        return lambda v: None if cur() == v else set_(v)
    d = {
        'owner': (D, [u1, p0], owner(c)),
        'manager': (None, [u2, p1], lambda v: b.hand_manager(c, v or g('own', c))),
        'token': (c, [b.c2, u1, p0], lambda v: b.hand_token(f, v)),
        'conversions': (True, [False], flag(lambda: g('enabled', c), lambda v: by(w, b.om(c), c, 'disableConversions', not v))),
        'transfers': (True, [False], flag(lambda: g('tp', f), lambda v: b.token_boss(f, 'disableTransfer', 'disableTokenTransfers', not v))),
        'fee': (0, [1000, 30000, 'max'], lambda v: by(w, b.om(c), c, 'setConversionFee', g('maxfee', c) if v == 'max' else min(v, g('maxfee', c)))),
        'following': (True, [False], flag(lambda: g('allow', c), lambda v: by(w, b.om(c), c, 'disableRegistryUpdate', not v))),
        'successor': (None, [b.reg2, b.reg3, 'prev'], None),
        'network': (n, [b.net2, b.p[2], 'none'], None),
        'icx': (True, [False], flag(lambda: g('ntok', n, b.ix), lambda v: b.boss(n, 'registerIcxToken', b.ix, v))),
        't0 icx': (False, [True], flag(lambda: g('ntok', n, b.t0), lambda v: b.boss(n, 'registerIcxToken', b.t0, v))),
        'heir': (None, [u1, u2, p0, p1, b.c2], lambda v: b.boss(c, 'transferOwnerShip', v or ZERO) if g('own', c) != (v or ZERO) else None),
        'next manager': (None, [u1, u2, p0, p1, D], lambda v: by(w, b.om(c), c, 'transferManagement', v or ZERO)
                         if g('mgr', c) != (v or ZERO) else None),
        'token heir': (None, [b.c2, u1, p0], lambda v: b.token_boss(f, 'transferOwnerShip', 'transferTokenOwnership', v or ZERO)
                       if g('own', f) != (v or ZERO) else None),
        'networks owner': (D, [p0, u1], owner(n)),
        'icx token owner': (D, [p0, u1, c], lambda v: b.hand(b.ix, v) if v != c else b.boss(b.ix, 'transferOwnerShip', c)),
        'listeners': ('accept', ['reject', 'bounce'], lambda v: [setattr(BEHAVIOUR[p], 'on_token', v if v != 'bounce' else 'accept') or
                                                               setattr(BEHAVIOUR[p], 'on_icx', v if v != 'bounce' else 'reject')
                                                               for p in b.p]),
    }

    def successor(v):
        x = g('registry', c)
        if x in w.reg:
            v = g('prevreg', c) if v == 'prev' else (v or x)
            if g('reg', x, 'ScoreRegistry') != v:
                b.boss(x, 'registerAddress', 'ScoreRegistry', v)

    def network(v):
        x = g('registry', c)
        if x in w.reg:
            if v == 'none':
                if g('reg', x, 'Network') not in (None, ZERO):
                    b.boss(x, 'unregisterAddress', 'Network')
            elif g('reg', x, 'Network') != v:
                b.boss(x, 'registerAddress', 'Network', v)
    d['successor'] = d['successor'][:2] + (successor,)
    d['network'] = d['network'][:2] + (network,)
    for i, t in enumerate(b.conns):
        def purchases(v, t=t):
            if g('cn', c, t)[1] != v:
                b.boss(c, 'disableConnectorPurchases', t, not v)

        def virtual(v, t=t):
            cn = g('cn', c, t)
            have = b.m.bal(t, c)
            if v is None:
                if cn[2] or cn[3]:
                    b.boss(c, 'updateConnector', t, cn[0], False, 0)
            else:
                b.boss(c, 'updateConnector', t, cn[0], v != 'dormant',
                       {'same': have, 'more': 2 * have + 1, 'less': have // 2 + 1, 'dormant': have + 7, 'nothing': 0}[v])
        d[f'purchases {i}'] = (True, [False], purchases)
        d[f'virtual {i}'] = (None, ['same', 'more', 'less', 'dormant', 'nothing'], virtual)
    return d


def asks(b, want):
    """[(label, who, (to, method, args, value))]: what the property decides, put so that most of it is accepted when it should be"""
    w, r, c, f, n, ix = b.w, b.r, b.c, b.f, b.w.network, b.ix
    g, bal = b.get, b.m.bal
    out = []
    own, mgr, heir, nman = g('own', c), g('mgr', c), g('pend', c), g('pmgr', c)
    fown = g('own', f)
    user, cont = w.eoas[4], b.p[2]
    roles = {'owner': own, 'manager': mgr, 'nominee': heir, 'nominated manager': nman, 'deployer': w.owner, 'user': user, 'contract': cont}
    rl = {}
    for k, v in roles.items():
        if v in b.people and v not in rl.values():
            rl[k] = v

    def ask(label, who, to, m, *args, value=0):
        if who in b.people:
            out.append((label, who, (to, m, list(args), value)))

    def everyone(to, m, *args):
        for k, v in rl.items():
            ask(k, v, to, m, *args)

    def anyone(to, m, *args):
        k = r.choice(list(rl))
        ask(k, rl[k], to, m, *args)
        if 'owner' in rl:
            ask('owner', rl['owner'], to, m, *args)
    takers = [w.eoas[3], cont, b.mute, own]
    def some(t, who):
        v = r.choice([10 ** 13, 10 ** 14, 10 ** 15, (bal(t, c) if t in b.conns else 10 ** 15) // r.choice([7, 50, 1000])])
        return max(1, min(bal(t, who), v))
    small = lambda t, who: min(bal(t, who), r.choice([1, 10 ** 6, 10 ** 12, 10 ** 14]))
    pairs = [(x, f, y) for x in b.conns + [f] for y in b.conns + [f] if x != y]

    def conversions(k, **kw):
        for x, y, z in r.sample(pairs, k):
            who = r.choice([user, user, w.eoas[3], cont])
            to = r.choice([None, None] + takers[:2])
            ask('holder', who, x, 'transfer', n, some(x, who), w.path_data([x, y, z], r.choice([1, 1, 1, 10 ** 4]), to))

    def withdrawals():
        for t in b.conns:
            ask('owner', own, c, 'withdrawTokens', t, r.choice(takers[:2] + [w.eoas[3]]), r.choice([1, bal(t, c) or 1, bal(t, c) or 1, bal(t, c) // 2 or 1, bal(t, c) + 1, 2 * bal(t, c) + 1, bal(t, c) + 2 ** 64, 10 ** 30]))
        ask('manager', mgr, c, 'withdrawTokens', r.choice(b.conns), mgr, 1)
        ask('owner', own, c, 'withdrawTokens', r.choice([b.h, f, b.t1]), w.eoas[3], 1)
        if fown == c:
            ask('owner', own, c, 'withdrawFromToken', r.choice([b.h, b.t1]), w.eoas[3], 1)

    def deposits():
        for t in b.conns:
            for k in ('owner', 'manager', 'nominee', 'nominated manager', 'deployer'):
                if k in rl and r.random() < .5 and bal(t, rl[k]):
                    ask(k, rl[k], t, 'transfer', c, small(t, rl[k]), r.choice([b'None', b'', b'x', w.conv_data(r.choice(b.conns + [f]), 1)]))
    if want == 'P18':
        withdrawals()
        deposits()
    elif want == 'P08':
        prs = [p for p in b.probes() if p[0] in (c, n, ix, w.registry, f)]
        for p in r.sample(prs, 6):
            for k, v in list(rl.items()):
                out.append((k, v, p))
    elif want == 'P06' or want == 'P07':
        m1, m2 = ('transferOwnerShip', 'acceptOwnerShip') if want == 'P06' else ('transferManagement', 'acceptManagement')
        everyone(c, m2)
        everyone(c, m1, r.choice(b.people + [ZERO, mgr, own, c]))
        if want == 'P06':
            for s in (ix, n, f):
                for k in ('own', 'pend'):
                    v = g(k, s)
                    ask(k, v, s, m2)
                    ask(k, v, s, m1, r.choice(b.people + [ZERO, g('pend', s), s]))
            ask('owner', own, c, 'transferTokenOwnership', r.choice([b.c2, c, w.eoas[1], ZERO]))
            ask('owner', own, c, 'acceptTokenOwnership')
            o2 = g('own', b.c2)
            ask('owner', o2, b.c2, 'acceptTokenOwnership')
        else:
            everyone(c, 'setConversionFee', 0)
    elif want == 'P10':
        for k in rl:
            ask(k, rl[k], c, 'updateRegistry')
        for k in ('owner', 'manager', 'user', 'nominated manager'):
            if k in rl:
                ask(k, rl[k], c, 'restoreRegistry')
                ask(k, rl[k], c, 'disableRegistryUpdate', r.random() < .5)
    elif want == 'P09':
        for x in (w.registry, b.reg2):
            o = g('own', x)
            for nm in ('Network', 'ScoreRegistry'):
                ask('owner', o, x, 'registerAddress', nm, r.choice([n, c, b.reg2, cont, w.eoas[3], ZERO, x]))
                ask('owner', o, x, 'unregisterAddress', nm)
            cur = g('reg', x, 'Network')
            if cur:
                ask('owner', o, x, 'registerAddress', 'Network', Address.from_string('hx' + str(cur)[2:]))
            ask('owner', o, x, 'registerAddress', r.choice(['Networ', 'network', '', 'BancorNetwork', 'Network ']), n)
            anyone(x, 'registerAddress', 'Network', n)
    elif want == 'P11':
        for t in b.conns + [r.choice([b.t1, b.h, cont, f, c])]:
            cn = g('cn', c, t) or (0, 0, 0, 0)
            room = PPM - sum(g('cn', c, z)[0] for z in g('order', c))
            ask('owner', own, c, 'updateConnector', t, r.choice([cn[0], cn[0] + room, cn[0] + room + 1, 1, 0, PPM]), r.random() < .5,
                r.choice([0, 1, 10 ** 18, bal(t, c)]))
            ask('owner', own, c, 'disableConnectorPurchases', t, r.random() < .5)
            ask('owner', own, c, 'addConnector', t, r.choice([1, room, room + 1, room // 2 + 1, 0]), r.random() < .5)
    elif want == 'P04':
        hs = [user, w.eoas[3], cont, own]
        for h in hs:
            ask('holder', h, f, 'transfer', r.choice([w.eoas[3], c, cont, fown, f, h, b.mute]), small(f, h))
            ask('holder', h, f, 'destroy', h, small(f, h) or 1)
        for k, v in [('token owner', fown), ('token nominee', g('pend', f))] + list(rl.items()):
            ask(k, v, f, 'issue', r.choice(takers), r.choice([1, 10 ** 15]))
            ask(k, v, f, 'destroy', r.choice(hs), 1)
            ask(k, v, f, 'disableTransfer', r.random() < .5)
        conversions(3)
    elif want == 'P05' or want == 'P22':
        for k, v in (('user', user), ('contract', cont), ('icx token owner', g('own', ix)), ('owner', own)):
            ask(k, v, ix, 'deposit', value=r.choice([0, 1, 10 ** 9]))
            ask(k, v, ix, None, value=r.choice([1, 10 ** 9]))
            ask(k, v, ix, 'withdraw', small(ix, v) or 1)
            ask(k, v, ix, 'withdrawTo', small(ix, v) or 1, r.choice(takers + [c, n, ix]))
            ask(k, v, ix, 'transfer', r.choice(takers + [ix]), small(ix, v))
        conversions(3)
        if want == 'P22':
            withdrawals()
    elif want in ('P19', 'P20', 'P21'):
        for x in (ix, ix, b.t0):
            who = r.choice([user, cont])
            p = [x, f, r.choice([z for z in b.conns + [f] if z != x])]
            if r.random() < .3 and p[2] == f:
                p += [f, r.choice(b.conns)]
            if r.random() < .4:
                ask('user', who, n, 'convert', ','.join(map(str, p)), r.choice([1, 1, 1, 0, 10 ** 20]), value=r.choice([0, 10 ** 12, 10 ** 14, 10 ** 14]))
            ask('user', who, n, 'convertFor', ','.join(map(str, p)), 1, r.choice(takers + [n, c, ix, ZERO]), value=r.choice([10 ** 12, 10 ** 14, 10 ** 15]))
        for x in b.conns + [f]:
            for _ in range(2):
                who = r.choice([user, user, w.eoas[3], cont])
                y = r.choice([z for z in b.conns + [f] if z != x])
                p = r.choice([[x, f, y]] * 5 + [[x, f, y, f, x], [x, f, x], [y, f, x], [x, f]])
                ask('holder', who, x, 'transfer', n, some(x, who), w.path_data(p, 1, r.choice([None, None] + takers + [n, c, x])))
    elif want == 'P17':
        conversions(5)
        net = g('reg', g('registry', c), 'Network') if g('registry', c) in w.reg else None
        for k, v in [('registered network', net)] + list(rl.items()):
            x = r.choice(b.conns + [f])
            if bal(x, v):
                ask(k, v, x, 'transfer', c, small(x, v), w.conv_data(r.choice([y for y in b.conns + [f] if y != x]), 1))
    elif want == 'P03':
        for t in (b.t0, ix, f, b.h):
            for h in (user, cont, b.p[0]):
                ask('holder', h, t, 'transfer', r.choice([b.p[0], b.p[1], cont, b.mute, c, n, h, t, w.eoas[3]]), r.choice([0, small(t, h), bal(t, h) + 1]),
                    *r.choice([(), (b'',), (b'None',), (b'x' * 40,)]))
    else:                                  # P12, P13, P14, P16, P23
        conversions(9)
        if want == 'P23':
            prs = [p for p in b.probes() if p[0] in (c, n, ix, w.registry, f)]
            for p in r.sample(prs, 4):
                v = g('own', p[0])
                if v in b.people:
                    out.append(('owner', v, p))
    r.shuffle(out)
    return out


def locks(seed, size, want):
    t0 = time.time()
    b = Board('locks', seed, 'on_fail' if seed % 3 else 'never')
    b.sh.want = want
    w, r = b.w, b.r
    ds = dims(b)
    asked, left, combos, okd = 0, size, set(), 0
    start = Snap(w)
    while left > 0:
        if r.random() < .5:
            start.restore(w)                 # else it moves on from the last configuration
        usual = r.choice([USUAL, .8, .9, .3])
        goal = {k: d[0] if r.random() < (.94 if k in STOPS and want in TRADING else usual) else r.choice(d[1]) for k, d in ds.items()}
        order = list(ds)
        r.shuffle(order)
        # what the owner does comes before ownership is handed away, or after
        b.sh.scene = ''
        for k in order:
            ds[k][2](goal[k])
            if stop(w, want):
                return summary(w, 'locks', {'asked': asked, 'pairs of unusual settings': len(combos)}, t0)
        odd = sorted(f'{k}={v if isinstance(v, (str, bool, int)) else b.sh.roles.get(v, "account")}' for k, v in goal.items() if v != ds[k][0])
        combos |= set(itertools.combinations(odd, 2))
        base = Snap(w)
        for label, who, (to, m, args, value) in asks(b, want)[:26]:
            base.restore(w)
            b.sh.scene = f'{b.state()}: {b.sh.roles.get(to)}.{m} by {label}'
            if want in ('P12', 'P19', 'P21') and m == 'transfer' and args[0] == w.network and len(args) > 2 and b'path' in args[2]:
                w.quote(w.network, json.loads(args[2])['path'].split(','), max(1, args[1]))
            res = by(w, who, to, m, *args, value=value, origin=r.choice(w.eoas[:2]))
            asked += 1
            okd += bool(res is not None and res.ok)
            left -= 1
            if stop(w, want):
                return summary(w, 'locks', {'asked': asked, 'pairs of unusual settings': len(combos)}, t0)
        base.restore(w)
        b.sh.scene = ''
    return summary(w, 'locks', {'asked': asked, 'accepted': okd, 'pairs of unusual settings': len(combos)}, t0)
