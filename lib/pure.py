"""Workloads below the contracts: pricing formula, its generators, storage wrapper, interface proxies."""
import ast
import importlib
import inspect
import os
import random
import subprocess
import sys
import textwrap
import time
from decimal import Decimal as D
from functools import lru_cache

from vchain import *          # noqa
from campaigns import Summary, notable
import oracle

PPM = 10 ** 6
F1 = 1 << 127
MAX_NUM = 1 << 129


class Checks:
    """verdict collector with the same bookkeeping as the shadow monitor"""

    def __init__(self, want):
        self.want = want
        self.violations, self.samples = [], []
        self.counts, self.kinds, self.cases = {}, {}, set()
        self.decided = 0
        self.hit = set()
        self.events = 0

    def check(self, tags, cond, kind, detail=None):
        for t in tags:
            self.counts[t] = self.counts.get(t, 0) + 1
            self.kinds[(t, kind)] = self.kinds.get((t, kind), 0) + 1
            if t == self.want:
                self.hit.add(kind)
        if not cond:
            self.violations.append(dict(tags=list(tags), kind=kind, detail=str(detail() if callable(detail) else detail)))
        return cond

    def case(self, shape, desc):
        if self.hit:
            self.decided += 1
            k = hash((shape, frozenset(self.hit)))
            if k not in self.cases:
                self.cases.add(k)
                if len(self.samples) < 60:
                    self.samples.append(f'{desc()} | decided: {sorted(self.hit)[:6]}')
            self.hit = set()

    def stop(self):
        return any(self.want is None or self.want in v['tags'] for v in self.violations)

    def summary(self, label, extra=None, t0=None):
        return Summary(label=label, violations=notable(self.violations), nviol=len(self.violations), txs=0, ok_txs=0,
                       frames=self.events, counts=self.counts, kinds=self.kinds, decided=self.decided, cases=self.cases,
                       samples=self.samples[:4], log=[], extra=extra or {}, wall=time.time() - t0 if t0 else 0, inconclusive=None)


# --------------------------------------------------------------------------------------------- formula
REFUSED = 'refused'


def load_formula():
    return importlib.import_module('contracts.formula').formula


KINDS = {'purchase': 'calculate_purchase_return', 'sale': 'calculate_sale_return', 'cross': 'calculate_cross_connector_return'}


def ask(formula, kind, args):
    """('ok', value) | ('refused', exception)"""
    try:
        return 'ok', getattr(formula, KINDS[kind])(*args)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return 'refused', e


def lg(r, hi, lo=0):
    """log-uniform integer in [2^lo, 2^hi)"""
    e = r.uniform(lo, hi)
    v = int(2 ** min(e, 1000) if e < 1000 else 1 << int(e))
    return max(1, v + r.randrange(-2, 3)) if r.random() < .2 else max(1, v)


def weight(r):
    z = r.random()
    if z < .35:
        return r.choice([1, 2, 3, 10, 100, 1000, 100000, 200000, 250000, 333333, 500000, 499999, 750000, 900000, 999998, 999999, PPM])
    if z < .6:
        return max(1, min(PPM, int(10 ** r.uniform(0, 6))))
    return r.randrange(1, PPM + 1)


EXP_EDGES = [2 ** n for n in range(-8, 5)] + [15.99, 16.0, 16.01, 20, 30, 45, 56.3, 56.5, 80]


def some_input(r, kind):
    """mostly inside the domain, often at its edges or at a chosen growth exponent"""
    if kind == 'purchase':
        s, b, w = lg(r, 200 if r.random() < .1 else 128), lg(r, 128), weight(r)
        ratio = D(w) / PPM
    elif kind == 'sale':
        s, b, w = lg(r, 129), lg(r, 200 if r.random() < .1 else 128), weight(r)
        ratio = D(PPM) / D(w)
    else:
        b1, w1, b2, w2 = lg(r, 128), weight(r), lg(r, 200 if r.random() < .1 else 128), weight(r)
        if r.random() < .12:
            w2 = w1
        elif r.random() < .1:
            w2 = max(1, min(PPM, w1 + r.choice([-1, 1])))
        ratio = D(w1) / D(w2)
    z = r.random()
    if z < .4:
        # aim at a growth exponent
        x = D(r.choice(EXP_EDGES)) if r.random() < .6 else D(str(10 ** r.uniform(-6, 2)))
        g = (x / ratio).exp() if x / ratio < 90 else None
        if g is None:
            a = None
        elif kind == 'sale':
            a = int(s * (1 - 1 / g)) + r.choice([0, 0, 1, -1])
        else:
            a = int((b if kind == 'purchase' else b1) * (g - 1)) + r.choice([0, 0, 1, -1])
    else:
        a = None
    if a is None or a < 0:
        base = b if kind == 'purchase' else s if kind == 'sale' else b1
        z = r.random()
        if z < .1:
            a = 0
        elif z < .2:
            a = r.choice([1, 2, 3])
        elif z < .27:
            d = 1 << r.randrange(1, 9)
            a = base * r.randrange(1, d if kind == 'sale' else 4 * d) // d
        elif z < .55:
            a = max(1, int(base * 10 ** r.uniform(-30, 0)))
        elif z < .75:
            a = lg(r, 129)
        elif z < .85:
            a = base - r.choice([0, 1, 2]) if kind == 'sale' else MAX_NUM - base - r.choice([1, 2, 3])
        else:
            a = r.randrange(base + 1)
        a = max(0, a)
    if kind == 'sale' and a > s and r.random() < .95:
        a = r.randrange(s + 1)
    if kind != 'sale' and a + (b if kind == 'purchase' else b1) >= MAX_NUM and r.random() < .9:
        a = max(0, MAX_NUM - 1 - (b if kind == 'purchase' else b1)) // r.choice([1, 2, 10 ** 6])
    return (s, b, w, a) if kind in ('purchase', 'sale') else (b1, w1, b2, w2, a)


def domain(kind, args):
    """None: must be refused; False: may be refused (operand size); True: must be answered"""
    if kind == 'cross':
        b1, w1, b2, w2, a = args
        if b1 <= 0 or b2 <= 0 or not 1 <= w1 <= PPM or not 1 <= w2 <= PPM:
            return None
        return True if b1 + a < MAX_NUM else False
    s, b, w, a = args
    if s <= 0 or b <= 0 or not 1 <= w <= PPM or (kind == 'sale' and a > s):
        return None
    return True if (a + b if kind == 'purchase' else s) < MAX_NUM else False


def exact(kind, args):
    """the exact integer result in the special cases, or None"""
    if kind == 'cross':
        b1, w1, b2, w2, a = args
        if a == 0:
            return 0
        if w1 == w2:
            return b2 * a // (b1 + a)
        return None
    s, b, w, a = args
    if a == 0:
        return 0
    if kind == 'sale' and a == s:
        return b
    if w == PPM:
        return s * a // b if kind == 'purchase' else b * a // s
    return None


def shape(kind, args, x=None):
    q = tuple(v.bit_length() // 16 for v in args)
    return (kind, q, None if x is None else int(min(100, x)))


def formula(seed, size, want):
    t0 = time.time()
    c = Checks(want)
    f = load_formula()
    r = random.Random(f'formula:{seed}')
    n = {'purchase': 0, 'sale': 0, 'cross': 0, 'refused': 0, 'round_trips': 0}

    def one(kind, args):
        """all verdicts about a single call; the result or None"""
        dom = domain(kind, args)
        st, got = ask(f, kind, args)
        d = lambda: f'{kind}{args} -> {got}'
        c.events += 1
        if dom is None:
            n['refused'] += 1
            c.check(('P26',), st == 'refused', f'{kind}: input outside the domain is refused', d)
            c.case(('bad',) + shape(kind, args), d)
            return None
        ex = exact(kind, args)
        if st != 'ok':
            # an exact special case needs no big operands; otherwise refusing oversized operands is the promise
            c.check(('P26',), dom is False and st == 'refused', f'{kind}: input inside the domain is answered', d)
            c.case(('big',) + shape(kind, args), d)
            return None
        n[kind] += 1
        c.check(('P26',), isinstance(got, int) and not isinstance(got, bool) and got >= 0,
                f'{kind}: the answer is a non-negative integer', d)
        if not isinstance(got, int):
            return None
        if ex is not None:
            c.check(('P25', 'P24'), got == ex, f'{kind}: special cases are exact', lambda: f'{d()}, expected {ex}')
            x = None
        else:
            if dom is False:
                c.check(('P26',), False, f'{kind}: oversized operands are refused', d)
            bad, ideal, x = oracle.verdict(kind, args, got)
            c.check(('P24', 'P15'), bad != 'over', f'{kind}: never above the curve', lambda: f'{d()}, ideal {ideal:.6f}, exponent {x:.6f}')
            if not (kind == 'purchase' and x > oracle.EXP_ACCURATE):
                c.check(('P24',), bad != 'under', f'{kind}: close to the curve', lambda: f'{d()}, ideal {ideal:.6f}, exponent {x:.6f}')
        if kind in ('sale', 'cross'):
            c.check(('P25',), got <= (args[1] if kind == 'sale' else args[2]), f'{kind}: not more than the reserve', d)
        c.case(shape(kind, args, x), d)
        return got

    def trips(kind, args, got):
        n['round_trips'] += 1
        if kind == 'purchase':
            s, b, w, a = args
            if got and s + got < MAX_NUM and b + a < MAX_NUM:
                back = one('sale', (s + got, b + a, w, got))
                if back is not None:
                    c.check(('P25', 'P15'), back <= a, 'buying and selling back gains nothing', lambda: f'{args}: {got} tokens, {back} back')
        elif kind == 'sale':
            s, b, w, a = args
            if got and a < s and got < b:
                back = one('purchase', (s - a, b - got, w, got))
                if back is not None:
                    c.check(('P25', 'P15'), back <= a, 'selling and buying back gains nothing', lambda: f'{args}: {got} paid, {back} back')
        else:
            b1, w1, b2, w2, a = args
            if got and got < b2 and b2 < MAX_NUM:
                back = one('cross', (b2 - got, w2, b1 + a, w1, got))
                if back is not None:
                    c.check(('P25', 'P15'), back <= a, 'converting there and back gains nothing', lambda: f'{args}: {got} there, {back} back')
        c.case(('trip',) + shape(kind, args), lambda: f'round trip {kind}{args}')

    # fixed boundary points of the domain, then random ones
    for kind in KINDS:
        good = {'purchase': [10 ** 18, 10 ** 18, 500000, 10 ** 17], 'sale': [10 ** 18, 10 ** 18, 500000, 10 ** 17],
                'cross': [10 ** 18, 400000, 10 ** 18, 500000, 10 ** 17]}[kind]
        scale = [r.choice([1, 10 ** 6, 10 ** 9]) for _ in good]
        for i in range(len(good)):
            for v in (0, 1, -1, -10 ** 18, PPM, PPM - 1, PPM + 1, MAX_NUM, MAX_NUM - 1, 2 ** 255, 2 ** 256):
                a = [g * (1 if g <= PPM else k) for g, k in zip(good, scale)]
                a[i] = v
                if a[-1] < 0:
                    continue
                one(kind, tuple(a))
        # two operands out of range at once, among them equal ones, and with amounts that invite a short cut
        bads = (0, 1, -1, PPM, PPM + 1, -PPM, 2 ** 256, r.randrange(PPM + 1, 2 ** 40))
        for _ in range(60):
            i, j = r.sample(range(len(good)), 2)
            a = [g * (1 if g <= PPM else k) for g, k in zip(good, scale)]
            a[i] = r.choice(bads)
            a[j] = a[i] if r.random() < .6 else r.choice(bads)
            if r.random() < .3:
                a[-1] = r.choice([0, 1, a[0]])
            if a[-1] >= 0:
                one(kind, tuple(a))
    for _ in range(size):
        kind = r.choice(['purchase', 'sale', 'cross'])
        args = some_input(r, kind)
        if r.random() < .06:
            args = list(args)
            i = r.randrange(len(args) - 1)
            args[i] = r.choice([0, -1, -lg(r, 100), PPM + 1, 2 * PPM, 2 ** 130, 2 ** 256])
            if r.random() < .4:
                if kind == 'cross':
                    args[(i + 2) % 4] = args[i]
                else:
                    args[-1] = r.choice([0, max(0, args[0])])
            args = tuple(args)
        if r.random() < .03 and kind == 'sale':
            args = args[:3] + (args[0] + r.choice([1, 2, lg(r, 60)]),)
        got = one(kind, args)
        if got is not None and r.random() < .5:
            trips(kind, args, got)
        if c.stop():
            break
    return c.summary('formula', n, t0)


# --------------------------------------------------------------------------------------------- generators
GEN = os.path.join(REPO, 'contracts', 'formula', 'auto_generate')


def generator_output(name):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(GEN, name)], env=env, cwd=REPO, capture_output=True, text=True, timeout=300)
    return p.returncode, p.stdout, p.stderr[-500:]


class BadGenerator(Exception):
    pass


@lru_cache(None)
def reference():
    """the documented algorithm, assembled from what the generators print"""
    out = {}
    for k in ('function_optimal_log', 'function_optimal_exp', 'function_general_exp', 'function_constructor',
              'int_scaling_factors', 'ln2_scaling_factors'):
        rc, o, err = generator_output(f'print_{k}.py')
        if rc:
            raise BadGenerator(f'print_{k}.py fails: {err}')
        out[k] = o
    src = ['class Ref:', '    _ONE = 1']
    for k in ('int_scaling_factors', 'ln2_scaling_factors', 'function_constructor'):
        src.append(textwrap.indent(textwrap.dedent(out[k]), '    '))
    for k, sig in (('function_optimal_log', '_optimal_log(self, x)'), ('function_optimal_exp', '_optimal_exp(self, x)'),
                   ('function_general_exp', '_general_exp(self, x, precision)')):
        src.append(f'    def {sig}:')
        src.append(textwrap.indent(textwrap.dedent(out[k]), '        '))
    ns = {}
    try:
        exec('\n'.join(src), ns)
        R = ns['Ref']
        r = R()
        assert R._FIXED_1 == F1 and R._FIXED_2 == 2 * F1 and R._MAX_NUM == MAX_NUM
        assert len(R._max_exp_array) == 128 and all(type(R._max_exp_array[i]) is int for i in range(32, 128)), 'precision table'
        assert R._LN2_DENOMINATOR > 0 and R._LN2_NUMERATOR > 0
        r._optimal_log(F1 + 5), r._optimal_exp(12345), r._general_exp(1 << 40, 40)
    except Exception as e:
        raise BadGenerator(f'generator output is not usable: {type(e).__name__}: {e}')
    # e and 16 in the fixed-point format (documented domain limits of the optimal functions)
    R.OPT_LOG_MAX = int(D(1).exp(oracle.CTX) * F1)
    assert R.OPT_LOG_MAX == 0x15bf0a8b1457695355fb8ac404e7a79e3
    R.OPT_EXP_MAX = 16 * F1

    def power(self, base_n, base_d, exp_n, exp_d):
        if base_n >= MAX_NUM:
            return None
        base = base_n * F1 // base_d
        log = self._optimal_log(base) if base < R.OPT_LOG_MAX else self.general_log(base)
        x = log * exp_n // exp_d
        if x < R.OPT_EXP_MAX:
            return self._optimal_exp(x), 127, x, base
        p = 0
        for i in range(127, 31, -1):
            if R._max_exp_array[i] >= x:
                p = i
                break
        return self._general_exp(x >> (127 - p), p), p, x, base

    def general_log(self, x):
        res = 0
        if x >= 2 * F1:
            n = (x // F1).bit_length() - 1
            x >>= n
            res = n * F1
        if x > F1:
            for i in range(127, 0, -1):
                x = x * x // F1
                if x >= 2 * F1:
                    x >>= 1
                    res += 1 << (i - 1)
        return res * R._LN2_NUMERATOR // R._LN2_DENOMINATOR

    def calc(self, kind, args):
        """(result, base, x, precision)"""
        if kind == 'cross':
            b1, w1, b2, w2, a = args
            t = power(self, b1 + a, b1, w1, w2)
        elif kind == 'purchase':
            s, b, w, a = args
            t = power(self, b + a, b, w, PPM)
        else:
            s, b, w, a = args
            t = power(self, s, s - a, PPM, w)
        if t is None:
            return None, None, None, None
        res, p, x, base = t
        if kind == 'purchase':
            return (s * res >> p) - s, base, x, p
        b = b2 if kind == 'cross' else b
        return (b * res - (b << p)) // res, base, x, p
    R.general_log, R.power, R.calc = general_log, power, calc
    return r


def log_edges(ref):
    """bases at which the printed logarithm takes another branch, from its printed text"""
    rc, o, _ = generator_output('print_function_optimal_log.py')
    e = set()
    for node in ast.walk(ast.parse(textwrap.dedent(o).replace('return res', 'pass'))):
        if isinstance(node, ast.Compare):
            for c in node.comparators:
                if isinstance(c, ast.Constant) and isinstance(c.value, int):
                    e.add(c.value)
    return sorted(e)


log_edges = lru_cache(None)(log_edges)


def codegen(seed, size, want):
    """bit-exact comparison with the assembled reference on branch-directed inputs"""
    t0 = time.time()
    c = Checks(want)
    r = random.Random(f'codegen:{seed}')
    T = ('P27',)
    try:
        ref = reference()
    except BadGenerator as e:
        c.check(T, False, 'the generators run and print usable code', str(e))
        c.case('gen', lambda: str(e))
        return c.summary('codegen', {}, t0)
    f = load_formula()
    n = {'compared': 0, 'branches': set()}
    R = type(ref)

    def one(kind, args, why):
        if kind == 'sale' and args[3] >= args[0] or args[-1] <= 0:
            return
        if exact(kind, args) is not None or domain(kind, args) is not True:
            return
        exp, base, x, p = ref.calc(kind, args)
        st, got = ask(f, kind, args)
        c.events += 1
        n['compared'] += 1
        bits = tuple(x >> (127 - 7 + i) & 1 for i in range(11)) if x < R.OPT_EXP_MAX else p
        branch = (kind, 'optimal log' if base < R.OPT_LOG_MAX else 'general log', bits)
        n['branches'].add(branch)
        c.check(T, st == 'ok' and got == exp, f'{kind}: same result as the generated algorithm',
                lambda: f'{why}: {kind}{args} is {got}, the algorithm printed by the generators gives {exp} '
                        f'(base {base:#x}, exponent {x:#x}, precision {p})')
        c.case((branch, why), lambda: f'{why}: {kind}{args} = {got}')

    edges = log_edges(ref)
    BIG = [1 << 128, (1 << 200) - 1, 10 ** 40, 1 << 300]

    def around_log(edge):
        """bases exactly at a threshold: balance 2^127 makes base == base_n"""
        for dlt in (-1, 0, 1, r.randrange(-10 ** 6, 10 ** 6)):
            bn = edge + dlt
            if F1 < bn < MAX_NUM:
                one('purchase', (r.choice(BIG), F1, weight(r), bn - F1), f'log threshold {edge:#x}{dlt:+d}')
                one('cross', (F1, weight(r), r.choice(BIG), weight(r), bn - F1), f'log threshold {edge:#x}{dlt:+d}')

    def around_exp(target):
        """inputs whose exponent crosses the target, found by bisection on the amount"""
        for kind in ('purchase', 'cross'):
            for _ in range(8):
                if kind == 'purchase':
                    w = weight(r)
                    if w == PPM:
                        continue
                    b = max(1, int(2 ** r.uniform(0, 127)))
                    mk = lambda a: (BIG[3], b, w, a)
                else:
                    w1, w2 = weight(r), weight(r)
                    if w1 == w2:
                        continue
                    b = max(1, int(2 ** r.uniform(0, 127)))
                    mk = lambda a: (b, w1, BIG[3], w2, a)
                lo, hi = 1, MAX_NUM - 1 - b
                if hi <= lo:
                    continue
                xof = lambda a: ref.calc(kind, mk(a))[2]
                if not xof(lo) < target <= xof(hi):
                    continue
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if xof(m) >= target:
                        hi = m
                    else:
                        lo = m
                for a in (lo - 1, lo, hi, hi + 1):
                    one(kind, mk(a), f'exponent {target:#x}')
                break

    def round_numbers(m):
        """bases and exponents of few bits: reserves that grow by 3/64, weights of 1/8 ..."""
        for _ in range(m):
            d = 1 << r.randrange(1, 9) if r.random() < .7 else r.randrange(2, 200)
            k = r.randrange(1, 3 * d) if r.random() < .8 else r.randrange(1, 40 * d)
            u = r.choice([1, 1 << r.randrange(60), 10 ** r.randrange(19), F1 // 256])
            w = r.choice([PPM // 2, PPM // 4, PPM // 5, PPM // 8, PPM // 10, PPM * 3 // 4, PPM // 64, weight(r)])
            v = r.choice([PPM // 2, PPM // 4, PPM // 5, PPM // 8, PPM // 10, PPM * 3 // 4, PPM // 64, weight(r)])
            b = r.choice(BIG)
            one('purchase', (b, d * u, w, k * u), 'round numbers')
            one('cross', (d * u, w, b, v, k * u), 'round numbers')
            one('sale', ((d + k) * u, b, w, k * u), 'round numbers')

    # sweep thresholds (a slice per seed so that a few jobs cover all of them)
    targets = [F1 >> k for k in range(1, 8)] + [F1 * k for k in (1, 2, 4, 8)] + \
              [F1 * k // 16 for k in range(1, 256)] + [R.OPT_EXP_MAX] + \
              [R._max_exp_array[i] + 1 for i in range(32, 64)] + [F1 * k for k in range(17, 90, 3)]
    work = [('log', e) for e in edges + [R.OPT_LOG_MAX, 2 * F1, 3 * F1]] + [('exp', t) for t in targets]
    r.shuffle(work)
    for _, t in work[:max(20, size // 8)]:
        (around_log if _ == 'log' else around_exp)(t)
        if c.stop():
            break
    round_numbers(size // 3)
    for _ in range(size):
        if c.stop():
            break
        kind = r.choice(['purchase', 'purchase', 'sale', 'cross'])
        args = some_input(r, kind)
        if r.random() < .5:
            args = ((r.choice(BIG),) + args[1:]) if kind == 'purchase' else \
                (args[:1] + (r.choice(BIG),) + args[2:]) if kind == 'sale' else args[:2] + (r.choice(BIG),) + args[3:]
        one(kind, args, 'random')
    return c.summary('codegen', {'compared': n['compared'], 'branches': len(n['branches'])}, t0)


# --------------------------------------------------------------------------------------------- lab SCORE
class LabHook:
    fn = None


class Lab(IconScoreBase):
    """runs a piece of workload code inside a transaction"""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self.the_db = db
        self.store = None
        self.other = None

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def go(self):
        return LabHook.fn(self)


class Boom(IconScoreException):
    pass


TYPES = [int, str, bool, bytes, Address]


def value(r, ty, pool):
    if ty is int:
        return r.choice([0, 1, -1, 255, 256, -256, 2 ** 64, 10 ** 30, -2 ** 70, r.randrange(10 ** 9)])
    if ty is str:
        return r.choice(['', 'a', 'size', 'Ünïcode', 'x' * 300, '0', str(r.random())])
    if ty is bool:
        return r.random() < .5
    if ty is bytes:
        return r.choice([b'', b'\0', b'abc', bytes(r.randrange(256) for _ in range(20))])
    return r.choice(pool)


DEFAULT = {int: 0, str: '', bool: False, bytes: None, Address: None}
NAMES = ['a', 'b', 'ab', 'a_b', 'owner', 'size', 'weight', 'total_connector_weight', 'connector_tokens', 'f1', 'f11', 'Field',
         'registry', 'x', 'virtual_balance', 'items', 'name', 'values', 'get', 'set']


def some_names(r, k):
    """field names that resemble each other"""
    base = r.sample(NAMES, max(2, k // 2))
    out = list(base)
    while len(out) < k:
        b = r.choice(out)
        v = r.choice([b.upper(), b.capitalize(), b.swapcase(), b + '_', b + b, b[::-1], b + '2', b + '1', b + 's', b.replace('_', ''), b[:-1] or 'z',
                      b + '_' + b, 'my_' + b, b.lower(), b * 9, b.rstrip('_') + '_size', b + '_name', 'é' + b, r.choice(NAMES)])
        if v not in out and v.isidentifier() and not v.startswith('_') and v not in ('add_fields', 'add_field', 'db'):
            out.append(v)
    r.shuffle(out)
    return out


def storage(seed, size, want):
    """random programs over field stores of several contracts, against a dictionary model"""
    t0 = time.time()
    c = Checks(want)
    r = random.Random(f'storage:{seed}')
    T = ('P28',)
    Storage = importlib.import_module('contracts.utility.storage').Storage
    done = {}

    for world in range(max(1, size // 12)):
        ch = Chain(restart='never', tag=f'st{seed}:{world}')
        me = ch.eoa(10 ** 20)
        labs = [ch.deploy(Lab, me)[0] for _ in range(2)]
        pool = [ch._addr('hx'), ch._addr('cx'), ZERO] + labs
        # declarations: per contract, one or two stores (a store may sit on a sub-database), maybe with the same names
        decl = {}
        for lab in labs:
            names = some_names(r, r.randrange(3, 11))
            decl[lab] = [(nm, r.choice([VarDB, VarDB, VarDB, DictDB, ArrayDB]), r.choice(TYPES)) for nm in names]
        if r.random() < .5:
            # same names in the second contract, other types
            decl[labs[1]] = [(nm, k, r.choice(TYPES)) for nm, k, t in decl[labs[0]]]
        split = {lab: r.randrange(0, len(decl[lab])) for lab in labs}
        model = {}           # (lab, store, field[, key]) -> value     committed
        sub = {lab: r.random() < .5 for lab in labs}
        again = {lab: [(nm, r.choice([VarDB, DictDB, ArrayDB]), r.choice(TYPES)) for nm, _, _ in r.sample(decl[lab], r.randrange(1, len(decl[lab]) + 1))]
                 if r.random() < .3 else None for lab in labs}
        twice = {lab: r.random() < .3 for lab in labs}
        plain = {}           # undeclared attributes of live instances

        def stores(lab, inst):
            if inst.store is None:
                inst.store = Storage(inst.the_db)
                inst.store.add_fields(decl[lab][:split[lab]])
                inst.store.add_fields(decl[lab][split[lab]:])
                if again[lab] is not None:
                    # declared before as something else, as after an update of the code: what counts is the latest declaration
                    inst.store = Storage(inst.the_db)
                    inst.store.add_fields(again[lab])
                    inst.store.add_fields(decl[lab])
                if twice[lab]:
                    inst.store.add_fields(r.sample(decl[lab], r.randrange(1, len(decl[lab]) + 1)))
                # same field names in an independent store of the same contract
                inst.other = Storage(inst.the_db.get_sub_db(b'other'))
                inst.other.add_fields(decl[lab])
                plain[(lab, id(inst))] = {}
            return {'main': inst.store, 'other': inst.other}

        def read_all(lab, inst, m, when):
            for sn, st in stores(lab, inst).items():
                for nm, kind, ty in decl[lab]:
                    key = (lab, sn, nm)
                    if kind is VarDB:
                        exp = m.get(key, DEFAULT[ty])
                        got = getattr(st, nm)
                        c.check(T, got == exp and type(got) is type(exp), f'{when}: a field reads as last assigned',
                                lambda: f'{nm}: {ty.__name__} in {sn} reads {got!r}, expected {exp!r}')
                    elif kind is DictDB:
                        d = getattr(st, nm)
                        for k in DKEYS:
                            exp = m.get(key + (k,), DEFAULT[ty])
                            c.check(T, d[k] == exp, f'{when}: a mapping entry reads as last assigned',
                                    lambda: f'{nm}[{k}] in {sn} reads {d[k]!r}, expected {exp!r}')
                    else:
                        exp = m.get(key, ())
                        got = tuple(getattr(st, nm))
                        c.check(T, got == exp and len(getattr(st, nm)) == len(exp), f'{when}: a list reads as last written',
                                lambda: f'{nm} in {sn} reads {got!r}, expected {exp!r}')

        DKEYS = ['k', 'a', 'ab', pool[0], 7]
        for step in range(12):
            lab = r.choice(labs)
            fail = r.random() < .2
            m = dict(model)
            ops = []
            touched = set()

            def body(inst):
                ss = stores(lab, inst)
                for _ in range(r.randrange(0, 7)):
                    sn = r.choice(['main', 'main', 'other'])
                    st = ss[sn]
                    nm, kind, ty = r.choice(decl[lab])
                    key = (lab, sn, nm)
                    z = r.random()
                    if z < .1:
                        an = r.choice(['scratch', 'temp1', 'notes'])
                        setattr(st, an, [step])
                        plain[(lab, id(inst))][(sn, an)] = [step]
                        ops.append('attr')
                    elif kind is VarDB:
                        v = value(r, ty, pool)
                        setattr(st, nm, v)
                        m[key] = v
                        touched.add(key)
                        ops.append(('set', ty.__name__))
                        c.check(T, getattr(st, nm) == v, 'same call: a field reads as just assigned',
                                lambda: f'{nm} = {v!r} reads {getattr(st, nm)!r}')
                    elif kind is DictDB:
                        k = r.choice(DKEYS)
                        d = getattr(st, nm)
                        if r.random() < .2 and key + (k,) in m:
                            del d[k]
                            m.pop(key + (k,), None)
                            ops.append('del')
                        else:
                            v = value(r, ty, pool)
                            d[k] = v
                            m[key + (k,)] = v
                            ops.append(('put', ty.__name__))
                        touched.add(key + (k,))
                    else:
                        a = getattr(st, nm)
                        cur = list(m.get(key, ()))
                        if cur and r.random() < .3:
                            got = a.pop()
                            c.check(T, got == cur[-1], 'same call: pop yields the last element', lambda: f'{got!r} {cur!r}')
                            cur.pop()
                            ops.append('pop')
                        elif cur and r.random() < .3:
                            i = r.randrange(len(cur))
                            cur[i] = v = value(r, ty, pool)
                            a[i] = v
                            ops.append('seti')
                        else:
                            v = value(r, ty, pool)
                            a.put(v)
                            cur.append(v)
                            ops.append('app')
                        touched.update([key, key + ('n',)] + [key + (i,) for i in range(len(cur) + 1)])
                        m[key] = tuple(cur)
                read_all(lab, inst, m, 'same call')
                for (sn, an), v in plain[(lab, id(inst))].items():
                    c.check(T, getattr(ss[sn], an) == v, 'an undeclared attribute is an ordinary one', lambda: an)
                for an in {'never_set', 'zz'} - {f[0] for f in decl[lab]} - set(plain[(lab, id(inst))]):
                    c.check(T, not hasattr(ss['main'], an), 'an unknown attribute does not exist', lambda: an)
                if fail:
                    raise Boom('fail')

            if r.random() < .35:
                ch.forget_instances()
                when = 'fresh instance'
            else:
                when = 'later call'
            before = dict(ch.kv.d)
            LabHook.fn = body
            res = ch.tx(me, lab, 'go')
            c.events += 1
            dd = [k for k in set(before) | set(ch.kv.d) if before.get(k) != ch.kv.d.get(k)]
            crash = res.exc is not None and not isinstance(res.exc, Boom)
            c.check(T, not crash, 'field access does not fail', lambda: f'{type(res.exc).__name__}: {res.exc}; {ops}')
            if res.ok:
                model.update(m)
                for k in list(model):
                    if k not in m:
                        del model[k]
                # an assignment costs one ledger entry, nothing else is written
                c.check(T, len(dd) <= len(touched), 'only assignments write to the ledger', lambda: f'{len(dd)} entries changed by {ops}')
            for o in ops:
                done[str(o)] = done.get(str(o), 0) + 1
            # read everything back, in both contracts, in a call that writes nothing
            if r.random() < .5:
                ch.forget_instances()
                when = 'fresh instance'
            for l2 in labs:
                before = dict(ch.kv.d)
                LabHook.fn = lambda inst: read_all(l2, inst, model, when)
                res2 = ch.tx(me, l2, 'go')
                c.check(T, res2.ok, 'field access does not fail', lambda: f'{type(res2.exc).__name__}: {res2.exc}')
                c.check(T, ch.kv.d == before, 'reading and declaring write nothing', lambda: f'{decl[l2]}')
            c.case((tuple(sorted(map(str, set(ops)))), fail, when, tuple(sorted((k.__name__, t.__name__) for _, k, t in decl[lab]))),
                   lambda: f'{ops} {"then failing " if fail else ""}in a contract with {[(n, k.__name__, t.__name__) for n, k, t in decl[lab]]}')
            if c.stop():
                return c.summary('storage', done, t0)
    return c.summary('storage', done, t0)


# --------------------------------------------------------------------------------------------- proxies
def abstract_api(abc_class):
    """{method: signature} of everything the interface declares"""
    return {n: inspect.signature(getattr(abc_class, n)) for n in dir(abc_class)
            if getattr(getattr(abc_class, n), '__isabstractmethod__', False) and callable(getattr(abc_class, n))}


class Target:
    """what a recording target answers next"""
    log = []
    answer = None
    fail = None


def make_target(name, methods):
    """a SCORE exposing the given {method: signature}, recording what arrives"""
    ns = dict(globals())
    src = [f'class {name}(IconScoreBase):',
           '    def __init__(self, db: IconScoreDatabase) -> None:', '        super().__init__(db)',
           '    def on_install(self) -> None:', '        super().on_install()',
           '    def on_update(self) -> None:', '        super().on_update()']
    for i, (m, sig) in enumerate(methods.items()):
        ps = ['self']
        for pn, p in list(sig.parameters.items())[1:]:
            t = f'{pn}: {p.annotation.__name__}' if p.annotation is not inspect.Parameter.empty else f'{pn}: int'
            if p.default is not inspect.Parameter.empty:
                t += f' = {p.default!r}'
            ps.append(t)
        src += ['    @external', f'    def {m}({", ".join(ps)}):',
                f'        Target.log.append((self.address, {m!r}, self.msg.sender, {{{", ".join(f"{q.split(":")[0]!r}: {q.split(":")[0]}" for q in ps[1:])}}}))',
                '        if Target.fail is not None:', '            raise Target.fail', '        return Target.answer']
    if 'helper' not in methods:
        src += ['    @external', '    def helper(self):', "        Target.log.append((self.address, 'helper', self.msg.sender, {}))", '        return Target.answer']
    exec('\n'.join(src), ns)
    return ns[name]


def repo_interfaces():
    out = []
    d = os.path.join(REPO, 'contracts', 'interfaces')
    for fn in sorted(os.listdir(d)):
        if fn.startswith('abc_') and fn.endswith('.py'):
            mod = importlib.import_module(f'contracts.interfaces.{fn[:-3]}')
            for n, o in sorted(vars(mod).items()):
                if inspect.isclass(o) and inspect.isabstract(o) and o.__module__ == mod.__name__:
                    out.append(o)
    return out


def synthetic(r, i, base=None):
    """a random interface, possibly extending another one"""
    names = r.sample(['transfer', 'balanceOf', 'issue', 'convert', 'ping', 'getOwner', 'a', 'zap', 'tokenFallback', 'set', 'get'],
                     r.randrange(1, 6))
    bases = base.__name__ if base is not None else 'ABC'
    src = ['from abc import ABC, abstractmethod', f'class ABCSyn{i}({bases}):']
    for n in names:
        ps = ['self']
        k = r.randrange(0, 4)
        dflt = r.randrange(0, k + 1)
        for j in range(k):
            ty = r.choice(['int', 'str', 'bytes', 'Address', 'bool'])
            d = {'int': 'r_7', 'str': "'x'", 'bytes': "b'y'", 'bool': 'True', 'Address': None}[ty] if r.random() < .6 else None
            ps.append(f'_p{j}: {ty}' + (f' = {7 if d == "r_7" else d}' if j >= dflt else ''))
        src += ['    @abstractmethod', f'    def {n}({", ".join(ps)}):', f'        """{n}"""', '        pass']
    if r.random() < .5:
        # concrete: part of the class, not of the interface
        src += ['    def helper(self):', '        return 42']
        if r.random() < .5:
            src += ['    helper.__isabstractmethod__ = False']
    ns = {'Address': Address, '__name__': __name__}
    if base is not None:
        ns[base.__name__] = base
    exec('\n'.join(src), ns)
    return ns[f'ABCSyn{i}']


def proxy(seed, size, want):
    t0 = time.time()
    c = Checks(want)
    r = random.Random(f'proxy:{seed}')
    T = ('P29',)
    ProxyScore = importlib.import_module('contracts.utility.proxy_score').ProxyScore
    ifs = repo_interfaces()
    if r.random() < .5:
        r.shuffle(ifs)
    for i in range(8):
        ifs.append(synthetic(r, i, r.choice(ifs) if r.random() < .4 else None))
    # two unrelated interfaces of the same name
    tw = synthetic(r, 0)
    ifs.append(tw)
    ch = Chain(restart='never', tag=f'px{seed}')
    me = ch.eoa(10 ** 20)
    callers = [ch.deploy(Lab, me)[0] for _ in range(2)]
    targets = []
    for k, a in enumerate(ifs):
        api = abstract_api(a)
        cls = make_target(f'Target{k}', api)
        addrs = [ch.deploy(cls, me)[0] for _ in range(2)]
        targets.append((a, api, addrs))
    union = {}
    for a, api, _ in targets:
        for n, s in api.items():
            union.setdefault(n, s)
    calls = 0
    seen_methods = set()
    kept = []               # proxies made earlier in the same transaction are reused
    for step in range(size):
        caller = r.choice(callers)
        plan = [r.choice(targets) for _ in range(r.randrange(1, 5))]
        info = []

        def body(inst):
            live = []
            for (abc_class, api, addrs) in plan:
                to = r.choice(addrs)
                pc = ProxyScore(abc_class)
                p = inst.create_interface_score(to, pc)
                live.append((abc_class, api, to, p))
            for (abc_class, api, to, p) in live:
                got = {n for n in dir(p) if not n.startswith('_') and callable(getattr(p, n))} - {'helper'}
                base = {n for n in dir(InterfaceScore) if not n.startswith('_')}
                want_set = {n for n in api if not n.startswith('_')}
                c.check(T, got - base == want_set, 'a proxy offers exactly the declared methods',
                        lambda: f'{abc_class.__name__}: offers {sorted(got - base)}, declared {sorted(want_set)}')
                c.check(T, p.addr_to == to, 'a proxy knows its target', lambda: abc_class.__name__)
                if hasattr(p, 'helper'):
                    Target.log, Target.answer, Target.fail = [], 'far', None
                    try:
                        p.helper()
                    except (KeyboardInterrupt, SystemExit):
                        raise
                    except BaseException:
                        pass
                    c.check(T, not Target.log, 'what is no declared method is not forwarded', lambda: f'{abc_class.__name__}.helper arrived: {Target.log}')
            for _ in range(r.randrange(1, 6)):
                abc_class, api, to, p = r.choice(live)
                if not api:
                    continue
                n = r.choice(sorted(api))
                sig = api[n]
                params = list(sig.parameters.items())[1:]
                args, kw, expect = [], {}, {}
                positional = True
                for pn, pp in params:
                    has_def = pp.default is not inspect.Parameter.empty
                    if has_def and r.random() < .4:
                        expect[pn] = pp.default
                        positional = False
                        continue
                    ty = pp.annotation if pp.annotation in TYPES else int
                    v = value(r, ty, [me, to] + callers)
                    if r.random() < .15:
                        v = pp.default if has_def and r.random() < .4 else None     # given explicitly
                    expect[pn] = v
                    if positional and r.random() < .8:
                        args.append(v)
                    else:
                        positional = False
                        kw[pn] = v
                Target.log = []
                Target.answer = r.choice([None, 0, 1, 'text', {'a': 1}, True, 10 ** 40, to])
                Target.fail = Boom('target failed') if r.random() < .2 else None
                d = lambda: f'{abc_class.__name__}.{n}(*{[str(x) for x in args]}, **{ {k: str(v) for k, v in kw.items()} })'
                try:
                    ret = getattr(p, n)(*args, **kw)
                    err = None
                except (KeyboardInterrupt, SystemExit):
                    raise
                except BaseException as e:
                    ret, err = None, e
                info.append((abc_class.__name__, n))
                seen_methods.add((abc_class.__name__, n))
                exp = [(to, n, inst.address, expect)]
                c.check(T, Target.log == exp, 'exactly the call made arrives', lambda: f'{d()}: arrived {Target.log}, made {exp}; {err}')
                if Target.fail is not None:
                    c.check(T, isinstance(err, Boom) and 'target failed' in str(err), 'a failure of the target is passed on', lambda: f'{d()}: {err!r}')
                else:
                    c.check(T, err is None and ret == Target.answer, 'the result is passed on', lambda: f'{d()}: {ret!r} {err!r}, target answered {Target.answer!r}')
                c.events += 1
                c.case((abc_class.__name__, n, len(args), tuple(sorted(kw)), Target.fail is None, len(plan)), d)

        LabHook.fn = body
        res = ch.tx(me, caller, 'go')
        calls += len(info)
        c.check(T, res.ok, 'making and using proxies does not fail', lambda: f'{type(res.exc).__name__}: {res.exc}; {[a.__name__ for a, _, _ in plan]}')
        c.case(('plan', len(plan)), lambda: str(info))
        if r.random() < .1:
            ch.forget_instances()
        if c.stop():
            break
    return c.summary('proxy', {'calls': calls, 'methods_of_interfaces': len(seen_methods), 'interfaces': len(ifs)}, t0)
