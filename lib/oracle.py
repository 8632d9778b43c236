"""High-precision pricing oracle, written from the documented formulas only (decimal, 120 digits)."""
from decimal import Context, Decimal as D, ROUND_FLOOR, setcontext

CTX = Context(prec=120, Emax=10 ** 12, Emin=-10 ** 12)


def use():
    """the context belongs to a thread, and workers may be forked from any thread: every workload starts with this"""
    setcontext(CTX.copy())


use()
PPM = 10 ** 6
# growth exponent up to which the deployed exp() is documented to be accurate (optimal_exp range)
EXP_ACCURATE = D('15.9999')
TIGHT = D('1e-33')
LOOSE = D('1e-10')


def ideal_purchase(s, b, w, a):
    """(ideal real return, growth exponent, error scale)"""
    if a == 0:
        return D(0), D(0), D(s)
    if w == PPM:
        return D(s) * D(a) / D(b), D(0), D(0)
    x = D(w) / PPM * (D(b + a) / D(b)).ln()
    g = x.exp()
    return D(s) * (g - 1), x, D(s) * g


def ideal_sale(s, b, w, a):
    if a == 0:
        return D(0), D(0), D(0)
    if a == s:
        return D(b), D(0), D(0)
    if w == PPM:
        return D(b) * D(a) / D(s), D(0), D(0)
    x = D(PPM) / D(w) * (D(s) / D(s - a)).ln()
    return D(b) * (1 - (-x).exp()), x, D(b)


def ideal_cross(b1, w1, b2, w2, a):
    if a == 0:
        return D(0), D(0), D(0)
    if w1 == w2:
        return D(b2) * D(a) / D(b1 + a), D(0), D(0)
    x = D(w1) / D(w2) * (D(b1 + a) / D(b1)).ln()
    return D(b2) * (1 - (-x).exp()), x, D(b2)


def ratio(kind, args):
    """(base, exponent ratio): the logarithm's error is amplified by the ratio"""
    if kind == 'purchase':
        s, b, w, a = args
        return D(b + a) / D(b), D(w) / PPM
    if kind == 'sale':
        s, b, w, a = args
        return (D(s) / D(s - a) if s != a else D(1)), D(PPM) / D(w)
    b1, w1, b2, w2, a = args
    return D(b1 + a) / D(b1), D(w1) / D(w2)


def bounds(kind, args):
    """[lo, hi] the returned integer has to lie in (lo None: only the upper bound is promised)"""
    ideal, x, scale = {'purchase': ideal_purchase, 'sale': ideal_sale, 'cross': ideal_cross}[kind](*args)
    base, r = ratio(kind, args)
    if x <= EXP_ACCURATE:
        # a few units of 2^-127 in the logarithm, times the exponent ratio, plus the exponential's own error
        lo = ideal - 1 - scale * (TIGHT * (max(D(1), r) if base >= D('2.7') else 1) + r * D('1e-36'))
    elif kind == 'purchase':
        lo = None
    else:
        lo = ideal - 1 - scale * LOOSE
    # the ideal itself carries an error of ~1e-115 relative
    hi = ideal + abs(ideal) * D('1e-100') + scale * D('1e-100')
    return lo, hi, ideal, x


def verdict(kind, args, got):
    lo, hi, ideal, x = bounds(kind, args)
    if got > hi:
        return 'over', ideal, x
    if lo is not None and got < lo:
        return 'under', ideal, x
    return None, ideal, x
