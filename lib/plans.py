"""Which workloads decide which property, and how much of each.  (function, size, keyword arguments, jobs quick, jobs thorough)"""


def M(profile, nq, nt, size=150, **kw):
    return ('monkey', size, dict(profile=profile, **kw), nq, nt)


def F(fn, size, nq, nt, **kw):
    return (fn, size, kw, nq, nt)


ANY = [M('TOKENSP', 4, 40), M('TRADE', 4, 40), M('ADMIN', 4, 40), M('HOSTILE', 5, 60), M('LIFECYCLE', 4, 40), M('NETWORK', 4, 40),
       M('REGISTRY', 3, 20)]


def S(nq, nt, size=260):
    return F('switchboard', size, nq, nt)


def H(nq, nt, size=260):
    return F('succession', size, nq, nt)


def R(nq, nt, size=260):
    return F('relatives', size, nq, nt)


def B(nq, nt, size=400):
    return F('brinks', size, nq, nt)


def W(nq, nt, size=160):
    return F('routes', size, nq, nt)


def Q(nq, nt, size=240):
    return F('requests', size, nq, nt)


def Y(nq, nt, size=160):
    return F('midway', size, nq, nt)


def U(nq, nt, size=160):
    return F('burst', size, nq, nt)


def N(nq, nt, size=200):
    return F('many', size, nq, nt)


def V(nq, nt, size=400):
    return F('purses', size, nq, nt)


def L(nq, nt, size=260):
    return F('locks', size, nq, nt)


PLANS = {
    'P01': [V(8, 160), M('TOKENSP', 16, 240), M('HOSTILE', 12, 160), M('TRADE', 6, 60), F('installs', 100, 2, 8), S(4, 40), B(4, 60), U(2, 30), N(3, 30), N(0, 8, 600)],
    'P02': [V(8, 160), M('TOKENSP', 22, 280), M('HOSTILE', 12, 160), M('TRADE', 4, 40), S(2, 20), B(4, 60), W(4, 60), Y(2, 40), U(3, 45), N(3, 30), N(0, 8, 600)],
    'P03': [V(6, 120), M('TOKENSP', 16, 200), M('HOSTILE', 18, 260), S(4, 40), L(4, 60), B(4, 60), U(3, 45)],
    'P04': [V(8, 160), M('TOKENSP', 16, 240), M('ADMIN', 4, 80), M('HOSTILE', 4, 80), M('LIFECYCLE', 4, 60), F('installs', 100, 1, 8), S(10, 160),
            H(10, 160), F('limbo', 100, 6, 60), L(6, 100), R(4, 60), B(8, 100), U(4, 60)],
    'P05': [V(12, 240), M('TOKENSP', 14, 200), M('HOSTILE', 14, 200), M('NETWORK', 6, 100), M('TRADE', 2, 40), F('installs', 100, 1, 4), S(14, 160), H(4, 60), F('tolls', 260, 8, 120), L(6, 100), B(4, 60), W(4, 60), Y(4, 60), U(4, 60)],
    'P06': [M('ADMIN', 14, 240), M('LIFECYCLE', 6, 100), F('matrix', 1, 4, 32), F('installs', 100, 2, 8), S(6, 100), H(12, 200), F('limbo', 100, 6, 60), L(6, 100), R(4, 60), Y(4, 60), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P07': [M('ADMIN', 14, 240), M('LIFECYCLE', 4, 80), F('matrix', 1, 4, 32), F('installs', 100, 2, 8), S(6, 100), H(12, 200), F('limbo', 100, 6, 60), L(6, 100), R(4, 60), U(3, 45), N(3, 30), N(0, 8, 600)],
    'P08': [M('ADMIN', 10, 200), M('HOSTILE', 4, 100), M('LIFECYCLE', 4, 60), F('matrix', 1, 8, 64), S(10, 160), H(10, 160), F('limbo', 100, 6, 60), L(6, 100), R(8, 140)],
    'P09': [M('REGISTRY', 16, 260), M('ADMIN', 8, 140), F('installs', 100, 2, 8), S(6, 80), H(6, 80), F('limbo', 100, 6, 60), L(6, 80), R(3, 40), U(3, 45), N(3, 30), N(0, 8, 600)],
    'P10': [M('REGISTRY', 18, 300), M('ADMIN', 8, 140), F('installs', 100, 1, 8), S(14, 200), H(6, 80), F('limbo', 100, 6, 60), L(8, 140), R(4, 60), U(4, 60)],
    'P11': [M('ADMIN', 12, 220), M('LIFECYCLE', 10, 200), M('TRADE', 4, 80), F('installs', 100, 2, 12), S(12, 160), F('limbo', 100, 6, 60), L(8, 140), R(4, 60), B(4, 60), Y(2, 40), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P12': [M('TRADE', 14, 200), M('QUERIES', 8, 120), M('LIFECYCLE', 6, 80), F('curves', 300, 8, 120), S(8, 100), L(6, 100), B(4, 60), W(4, 60), Y(4, 60), U(6, 90), N(3, 30), N(0, 8, 600)],
    'P13': [M('TRADE', 14, 200), M('HOSTILE', 8, 120), M('NETWORK', 8, 120), F('chains', 30, 4, 60), L(4, 60), B(4, 60), W(4, 60), Q(4, 60), Y(6, 100), U(4, 60)],
    'P14': [M('TRADE', 16, 260), M('LIFECYCLE', 8, 120), M('HOSTILE', 4, 80), F('curves', 200, 4, 60), S(10, 140), L(8, 140), B(8, 100), Y(4, 60), U(6, 90), N(3, 30), N(0, 8, 600)],
    'P15': [M('TRADE', 10, 160), F('curves', 300, 14, 200), F('formula', 3000, 6, 60), S(4, 60), B(4, 60), U(3, 45)],
    'P16': [M('TRADE', 12, 200), M('QUERIES', 8, 120), M('ADMIN', 6, 80), F('curves', 200, 3, 40), F('installs', 100, 2, 8), S(6, 80), F('limbo', 100, 6, 60), L(4, 60), B(4, 60), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P17': [B(12, 150), M('TRADE', 6, 80), M('LIFECYCLE', 6, 100), M('HOSTILE', 6, 120), M('ADMIN', 4, 60), F('impostor', 120, 10, 200),
            F('installs', 100, 1, 4), S(14, 200), F('limbo', 100, 6, 60), L(8, 140), W(4, 60), Q(4, 60), Y(6, 100), U(5, 75), N(3, 30), N(0, 8, 600)],
    'P18': [M('LIFECYCLE', 18, 320), M('ADMIN', 6, 100), M('HOSTILE', 4, 80), S(10, 260), H(4, 60), L(14, 240), R(4, 60), B(8, 100), U(3, 45)],
    'P19': [M('NETWORK', 14, 220), M('HOSTILE', 6, 100), M('ADMIN', 4, 60), F('chains', 30, 6, 80), F('installs', 100, 1, 4), S(6, 80), F('limbo', 100, 6, 60), L(4, 60), W(10, 160), Q(10, 160), Y(4, 60), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P20': [B(4, 60), M('NETWORK', 12, 200), M('HOSTILE', 12, 200), M('TRADE', 6, 80), F('chains', 30, 4, 60), S(4, 60), F('limbo', 100, 6, 60), L(6, 100), W(8, 120), Q(4, 60), Y(8, 140), U(4, 60)],
    'P21': [B(4, 60), Q(8, 120), M('NETWORK', 12, 200), M('TRADE', 8, 100), M('QUERIES', 4, 60), F('chains', 40, 8, 100), S(4, 60), F('limbo', 100, 6, 60), L(6, 100), W(8, 120), Y(4, 60), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P22': [V(4, 60), F('faults', 20, 6, 120, profile='HOSTILE'), F('faults', 20, 5, 80, profile='NETWORK'), F('faults', 20, 4, 60, profile='TRADE'),
            F('faults', 20, 4, 60, profile='LIFECYCLE'), F('faults', 20, 3, 40, profile='TOKENSP'), F('faults', 20, 2, 40, profile='ADMIN'),
            M('HOSTILE', 8, 120), F('installs', 100, 1, 4), S(6, 80), F('limbo', 100, 6, 60), L(6, 80), R(4, 60), B(4, 60), W(4, 60), Q(4, 60), Y(4, 60), U(3, 45)],
    'P23': ANY + [V(6, 120), M('LIFECYCLE', 4, 40), F('installs', 100, 1, 8), F('matrix', 1, 1, 8), S(6, 80), H(12, 160), F('limbo', 100, 6, 60), L(6, 100), R(4, 60), B(4, 60), W(4, 60), Y(4, 60), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P24': [F('formula', 6000, 14, 400), F('curves', 300, 4, 60)],
    'P25': [F('formula', 6000, 14, 400), F('curves', 300, 2, 40)],
    'P26': [F('formula', 6000, 14, 300), F('curves', 300, 4, 60)],
    'P27': [F('codegen', 2400, 10, 240)],
    'P28': [F('storage', 2400, 14, 300)],
    'P29': [F('proxy', 1500, 16, 300)],
    'P30': [F('packages', 90, 8, 64)],
    'P31': [F('builds', 60, 12, 200)],
    'P32': [F('restart', 120, 4, 60, profile='TRADE'), F('restart', 120, 4, 60, profile='ADMIN'), F('restart', 120, 4, 60, profile='HOSTILE'),
            F('restart', 120, 4, 60, profile='LIFECYCLE'), F('restart', 120, 3, 40, profile='NETWORK'),
            F('restart', 120, 3, 40, profile='REGISTRY'), F('restart', 120, 3, 40, profile='TOKENSP'), S(10, 120), H(10, 120),
            F('limbo', 120, 24, 300), U(4, 60)],
    'P33': [F('queries', 60, 6, 80, profile='ADMIN'), F('queries', 60, 4, 60, profile='TRADE'), F('queries', 60, 4, 60, profile='LIFECYCLE'),
            F('queries', 60, 3, 40, profile='TOKENSP'), F('queries', 60, 3, 40, profile='NETWORK'), F('queries', 60, 3, 40, profile='HOSTILE'),
            M('QUERIES', 2, 20), S(4, 40), U(4, 60), N(3, 30), N(0, 8, 600)],
    'P34': [F('installs', 240, 16, 200), M('ADMIN', 3, 40), M('TOKENSP', 2, 40), M('LIFECYCLE', 2, 40)],
}

RULES = {
    'history': 'A case is one transaction or query of a generated history during which at least one assertion of this property was '
               'evaluated against the real contracts; non-trivial and distinct = distinct by method, caller role, outcome, shape of the '
               'call tree, directed scene and the set of assertion kinds evaluated.',
    'formula': 'A case is one call (or round trip) of the public formula, or one transaction of a deployed converter, judged by the oracle; '
               'distinct = distinct by kind, operand magnitudes (16-bit buckets), growth exponent (integer part) and assertion kinds.',
    'codegen': 'A case is one input compared bit for bit with the algorithm assembled from generator output; distinct = distinct by branch '
               '(log routine, set of exponential terms or precision) and the threshold aimed at.',
    'storage': 'A case is one transaction running a random program over field stores; distinct = distinct by operations, failure, '
               're-instantiation and declared field kinds and types.',
    'proxy': 'A case is one call through a proxy, compared with what arrived at the recording target; distinct = distinct by interface, '
             'method, positional and named arguments, outcome and number of live proxies.',
    'packages': 'A case is one package content inspection, one isolated load and deployment, or one request of a twin history on sources '
                'and packages; distinct = distinct by package, format, and call tree of the request.',
    'builds': 'A case is one build, clean or archive step of a build history with whole-tree digests before and after; distinct = distinct by '
              'operation, output directory, requested packages and prior state.',
    'restart': 'A case is one request compared between twin runs (long-lived instances, instances re-created before every request, code updates); '
               'distinct = distinct by mode, contract, method and outcome.',
}
RULE_OF = {**{f'P{i:02d}': 'history' for i in range(1, 35)}, 'P24': 'formula', 'P25': 'formula', 'P26': 'formula', 'P27': 'codegen',
           'P28': 'storage', 'P29': 'proxy', 'P30': 'packages', 'P31': 'builds', 'P32': 'restart'}
