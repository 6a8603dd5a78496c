"""C07 discount factors, zero, cash and short rates of a curve agree"""
from engine.api import Registry
from checks.common import (GAPS, grid, reals, off_nodes, some_orders,
                           history, GETTERS)

REG = Registry('C07', bounds='2..3 points (thorough 4), float dates with '
               'origin 1/4 and periods anywhere up to 10 years incl. the '
               'origin as start, points in several orders, dates below zero '
               'and before the origin; cash rate curves: periods up to 3 tenors; '
               'short rate curves: calendar dates up to 4 days apart; '
               'optional flat spread')

BOUNDS = {'DiscountFactorCurve': (0.25, 1.25), 'ZeroRateCurve': (-0.25, 1.5),
          'CashRateCurve': (-0.25, 1.5)}
ORIGIN = 0.25


def make(v, dcf, cls, n, tenor=0.5, orders=False):
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, *BOUNDS[cls])
    order = some_orders(v, n) if orders else range(n)
    c = getattr(dcf, cls)([xs[i] for i in order], [ys[i] for i in order],
                          origin=v.const(ORIGIN),
                          forward_tenor=v.const(tenor))
    return c, xs, ys


def below(v, dcf, cls, tenor=0.5):
    """a curve with dates on both sides of zero and of its origin"""
    lo, hi = BOUNDS[cls]
    xs = [v.real('x0', -3, -2.25), v.real('x1', -1, 0.5)]
    ys = reals(v, 2, lo, hi)
    return getattr(dcf, cls)(xs, ys, origin=v.const(-2),
                             forward_tenor=v.const(tenor)), xs, ys


def period(v, c, cls, tenor):
    k = v.choice('start', ['anywhere', 'origin', 'origin date'])
    if k == 'anywhere':
        s = v.real('s', 0.25, 5)
    else:
        s = c.origin if k == 'origin' else v.const(ORIGIN)
    p = v.real('p', 0.01, 3 * tenor if cls == 'CashRateCurve' else 5)
    return s, s + p, p


def agree(v, c, s, e, p):
    df = c.get_discount_factor(s, e)
    v.holds('positive', df > 0)
    v.eq('zero rate', v.exp(-c.get_zero_rate(s, e) * p), df)
    v.eq('cash rate', df * (1 + c.get_cash_rate(s, e) * p), 1)
    return df


@REG.harness(quick=[(c, n) for c in BOUNDS for n in (2, 3)],
             thorough=[(c, 4) for c in BOUNDS])
def agreement(v, dcf, p):
    """one discount factor behind zero rate and simple cash rate"""
    cls, n = p
    t = 0.5
    c, xs, ys = make(v, dcf, cls, n, t)
    s, e, p = period(v, c, cls, t)
    agree(v, c, s, e, p)
    v.eq('no period', c.get_discount_factor(e, e), 1)
    v.eq('no period at start', c.get_discount_factor(s, s), 1)


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve',
                    'CashRateCurve'])
def from_origin(v, dcf, cls):
    """one date means the period from the origin"""
    c, xs, ys = make(v, dcf, cls, 2)
    x = c.origin + v.real('p', 0.01, 1.4 if cls[0] == 'C' else 6)
    o = v.const(ORIGIN)
    df = c.get_discount_factor(x)
    v.eq('discount factor', df, c.get_discount_factor(o, x))
    v.eq('zero rate', c.get_zero_rate(x), c.get_zero_rate(o, x))
    v.eq('zero rate of factor', v.exp(-c.get_zero_rate(x) * (x - o)), df)
    v.eq('origin', c.get_discount_factor(o), 1)
    v.eq('origin itself', c.get_discount_factor(c.origin), 1)


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve',
                    'CashRateCurve'])
def cash_rate_periods(v, dcf, cls):
    """the end of a cash rate is given, or by a step, or by the tenor"""
    c, xs, ys = make(v, dcf, cls, 2)
    s = v.real('s', 0.25, 5)
    p = v.real('p', 0.01, 1.4)
    v.assume((p - 0.5 > 0.01) | (p - 0.5 < -0.01))
    r = c.get_cash_rate(s)
    v.eq('tenor', r, c.get_cash_rate(s, s + 0.5))
    df = c.get_discount_factor(s, s + 0.5)
    v.eq('tenor factor', df * (1 + r * 0.5), 1)
    v.eq('step', c.get_cash_rate(s, step=p), c.get_cash_rate(s, s + p))
    v.eq('step factor', c.get_discount_factor(s, s + p) *
         (1 + c.get_cash_rate(s, step=p) * p), 1)
    v.eq('stop and step', c.get_cash_rate(s, s + p, p),
         c.get_cash_rate(s, s + p))
    v.eq('tenor again', c.get_cash_rate(s), r)
    v.raises('stop and other step', AssertionError,
             lambda: c.get_cash_rate(s, s + p, p + 1))


@REG.harness(quick=['ZeroRateCurve', 'CashRateCurve'])
def with_spread(v, dcf, cls):
    """a flat spread shifts the stored rates, everything still agrees"""
    c, xs, ys = make(v, dcf, cls, 2)
    d = getattr(dcf, cls)(xs, ys, origin=v.const(ORIGIN),
                          forward_tenor=v.const(0.5))
    b = v.real('b', -0.02, 0.02)
    c.spread = dcf.DateCurve([0.0], [b], origin=0.0)
    s, e, p = period(v, c, cls, 0.5)
    df = agree(v, c, s, e, p)
    if cls[0] == 'Z':
        v.eq('shifted', df, d.get_discount_factor(s, e) * v.exp(-b * p))
    else:
        v.eq('shifted', c.get_cash_rate(s), d.get_cash_rate(s) + b)
    c.spread = None
    v.eq('spread removed', c.get_discount_factor(s, e),
         d.get_discount_factor(s, e))


@REG.harness(quick=[('DiscountFactorCurve', 2), ('DiscountFactorCurve', 3),
                    ('ZeroRateCurve', 2), ('ZeroRateCurve', 3)],
             thorough=[('DiscountFactorCurve', 4), ('ZeroRateCurve', 4)])
def short_rate(v, dcf, p):
    """the short rate is the zero rate of the surrounding interval"""
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n, orders=True)
    i = v.choice('interval', list(range(n)))
    if i:
        a, b = xs[i - 1], xs[i]
        x = a + v.real('w', 0, 0.499)
    else:
        a, b = xs[0], xs[1]
        x = v.real('w', 0, 0.499)
    v.eq('short rate', c.get_short_rate(x), c.get_zero_rate(a, b))


@REG.harness(quick=[(c, n) for c in ('DiscountFactorCurve', 'ZeroRateCurve')
                    for n in (2, 3)])
def at_origin(v, dcf, p):
    """the zero rate at the origin is the one up to any date before the first
    point"""
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n, orders=True)
    o = c.origin if v.choice('origin', [0, 1]) else v.const(ORIGIN)
    r = c.get_zero_rate(o, o + v.real('x', 0.01, 0.24))
    v.eq('zero rate at origin', c.get_zero_rate(o), r)
    v.eq('no period at origin', c.get_zero_rate(o, o), r)
    v.eq('up to the first point', c.get_zero_rate(o, xs[0]), r)


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'])
def dates_below_zero(v, dcf, cls):
    """date zero and dates before the origin are dates like any other"""
    c, xs, ys = below(v, dcf, cls, 1)
    k = v.choice('period', ['to zero', 'from zero', 'before', 'across'])
    m = 0.9 if cls[0] == 'C' else 3
    zero = v.const(0) if v.choice('zero', [0, 1]) else 0
    if k == 'to zero':
        s, e = -v.real('p', 0.01, m), zero
    elif k == 'from zero':
        s, e = zero, v.real('p', 0.01, m)
    else:
        s = v.real('s', -2.9, -2.01)
        e = s + v.real('p', 0.01, m)
        v.assume((e > -2) if k == 'across' else (e < -2))
    agree(v, c, s, e, e - s)
    v.eq('no period', c.get_discount_factor(e, e), 1)
    if k == 'to zero':
        df = c.get_discount_factor(v.const(-2), zero)
        v.eq('factor to zero', c.get_discount_factor(zero), df)
        v.eq('zero rate to zero', v.exp(-2 * c.get_zero_rate(zero)), df)
    if k == 'from zero':
        v.eq('cash rate', c.get_cash_rate(zero), c.get_cash_rate(zero, 1))


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve',
                    'ShortRateCurve'])
def calendar(v, dcf, cls):
    """the same on calendar dates, last short rate included"""
    t = v.date(0)
    a, b = v.choice('dates', [(0, 90), (30, 400), (200, 230)])
    lo, hi = BOUNDS.get(cls, (-0.05, 0.2))
    ys = reals(v, 2, lo, hi)
    if cls[0] == 'D':
        ys = [v.real('d0', 0.95, 1), v.real('d1', 0.9, 0.98)]
        ys[0] = v.const(1.0) if a == 0 else ys[0]
    c = getattr(dcf, cls)([v.date(a), v.date(b)], ys, origin=t)
    s = v.choice('s', [0, 29, 75, 210, 600])
    k = v.choice('k', [1, 2, 3, 4] if cls[0] == 'S' else [1, 30, 89, 370])
    s, e = v.date(s), v.date(s + k)
    agree(v, c, s, e, v.const(k) / v.const(365.25))
    v.eq('no period', c.get_discount_factor(e, e), 1)
    v.eq('no period at origin', c.get_discount_factor(t, t), 1)
    r = c.get_cash_rate(s)
    v.eq('tenor', r, c.get_cash_rate(s, s + '3M'))
    v.eq('step', c.get_cash_rate(s, step='1M'), c.get_cash_rate(s, s + '1M'))
    last = c.get_short_rate(v.date(b))
    if cls[0] != 'S':
        v.eq('last short rate', last,
             c.get_zero_rate(v.date(a), v.date(b)))
        v.eq('later short rate', c.get_short_rate(v.date(b + 100)), last)
        v.eq('earlier short rate', c.get_short_rate(v.date(a) - '1D'), last)
    else:
        v.eq('short rates', c.get_short_rate(v.date(a)), ys[0])
        v.eq('short rate', c.get_zero_rate(s, s + '1D'),
             c.get_short_rate(s))


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'])
def backwards(v, dcf, cls):
    """periods that end before they start"""
    c, xs, ys = make(v, dcf, cls, 2)
    s = v.real('s', 1.5, 5)
    p = v.real('p', 0.0625, 0.5)
    agree(v, c, s, s - p, -p)
    v.eq('inverse', c.get_discount_factor(s, s - p), 1 /
         c.get_discount_factor(s - p, s)) if cls[0] != 'C' else None
    v.eq('step', c.get_cash_rate(s, step=-p), c.get_cash_rate(s, s - p))


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve'])
def near_points(v, dcf, cls):
    """short rates between points close to each other"""
    lo, hi = BOUNDS[cls]
    g, h = v.real('g', 2 ** -10, 2 ** -4), v.real('h', 2 ** -10, 2 ** -4)
    xs = [v.real('x0', 0.5, 2)]
    xs += [xs[0] + g, xs[0] + g + h, xs[0] + g + h + 1]
    ys = reals(v, 4, lo, hi)
    c = getattr(dcf, cls)(xs, ys, origin=v.const(ORIGIN))
    i = v.choice('i', [0, 1, 2])
    x = xs[i] + (xs[i + 1] - xs[i]) * v.real('w', 0, 0.9375)
    v.eq('short rate', c.get_short_rate(x),
         c.get_zero_rate(xs[i], xs[i + 1]))


def many(v, dcf, cls, n):
    """a curve of many points in some order and its dates, up to 60 years"""
    o = v.const(ORIGIN)
    xs = [o + 0.75]
    for i in range(1, n):
        xs.append(xs[-1] + GAPS[i % len(GAPS)] * (1 if i % 5 else 4))
    lo, hi = {'Di': (0.25, 1.25), 'Ze': (-0.05, 0.2), 'Su': (0.25, 0.998),
              'De': (0.25, 0.998), 'Fl': (0.0, 0.3)}[cls[:2]]
    ys = reals(v, n, lo, hi)
    if cls[:2] == 'De':
        ys = [1 - y for y in ys]
    r = list(range(n))
    r = v.choice('order', [r, r[::-1], r[1::2] + r[::2]])
    c = getattr(dcf, cls)([xs[i] for i in r], [ys[i] for i in r], origin=o,
                          forward_tenor=v.const(0.5))
    qs = sorted({0, 1, n // 2, n - 2, n - 1})
    qs = [xs[i] for i in qs] + [xs[n // 2] + 0.125, xs[-1] + 1, xs[-1] + 30]
    return c, o, sorted(qs)


@REG.harness(quick=[(c, n) for c in ('DiscountFactorCurve', 'ZeroRateCurve')
                    for n in (5, 8, 14)],
             thorough=[('DiscountFactorCurve', 40), ('ZeroRateCurve', 40)])
def many_points(v, dcf, p):
    """the same for curves of many points and periods up to 60 years"""
    cls, n = p
    c, o, qs = many(v, dcf, cls, n)
    k = v.choice('k', list(range(len(qs) - 1)))
    for s, e in ((o, qs[k]), (qs[k], qs[k + 1]), (qs[k], qs[-1])):
        agree(v, c, s, e, e - s)


USED = ('ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve')


@REG.harness(quick=[(c, g) for c in USED for g in GETTERS[c]])
def used(v, dcf, p):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    history(v, dcf, *p)
