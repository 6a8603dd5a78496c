"""C08 discount factors multiply over adjacent periods"""
from engine.api import Registry
from checks.common import GAPS, grid, reals, off_nodes, history, GETTERS, weekdays
from checks.c07 import make, below, many, ORIGIN

REG = Registry('C08', bounds='2..3 points (thorough 4), any three dates '
               'within 8 years, before the origin and around zero (discount '
               'factor and zero rate curves); up to 4 tenors (cash rate '
               'curves), up to 4 days (short rate curves); up to 14 tenors '
               'and 40 days (thorough 60 and 400) with stepwise rates')


@REG.harness(quick=[(c, n) for c in ('DiscountFactorCurve', 'ZeroRateCurve')
                    for n in (2, 3)],
             thorough=[('DiscountFactorCurve', 4), ('ZeroRateCurve', 4)])
def multiplicative(v, dcf, p):
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n)
    a = v.const(ORIGIN) if v.choice('o', [0, 1]) else v.real('a', 0.25, 3)
    b = a + v.real('b', 0.01, 3)
    d = b + v.real('d', 0.01, 3)
    f = c.get_discount_factor
    v.eq('product', f(a, b) * f(b, d), f(a, d))
    v.eq('ratio of factors from origin', f(a, b) * f(a), f(b))
    v.eq('backwards', f(a, b) * f(b, a), 1)
    v.eq('origin', f(v.const(ORIGIN), d), f(d))


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve'])
def below_zero(v, dcf, cls):
    """periods that begin before the origin or touch date zero"""
    c, xs, ys = below(v, dcf, cls)
    a = v.real('a', -2.9, 0.5)
    b, d = v.choice('ends', [(0, 1.5), (-2, 0), (-0.5, 1.5), (1, 0)])
    f = c.get_discount_factor
    v.eq('product', f(a, b) * f(b, d), f(a, d))
    v.eq('backwards', f(a, b) * f(b, a), 1)
    v.eq('ratio of factors from origin', f(a, b) * f(a), f(b))
    v.eq('no period', f(a, a), 1)


@REG.harness(quick=['1M', '3M'])
def cash_calendar(v, dcf, tenor):
    """tenors of different number of days"""
    t = v.date(0)
    ys = reals(v, 2, -0.05, 0.3)
    k = v.choice('kind', [None, 'left'])
    c = dcf.CashRateCurve([v.date(10), v.date(200)], ys, k, origin=t,
                          forward_tenor=tenor)
    s = v.date(v.choice('s', [0, 20, 55, 150]))
    f = c.get_discount_factor
    df, x = 1, s
    for i in range(v.choice('tenors', [1, 2, 3])):
        y = x + tenor
        df = df / (1 + c(x) * c.day_count(x, y))
        x = y
        v.eq('whole tenors', f(s, x), df)
    e = x + v.choice('stub', ['1D', '9D', '20D'])
    v.eq('definition', f(s, e), df / (1 + c(x) * c.day_count(x, e)))
    v.eq('product', f(s, x) * f(x, e), f(s, e))


@REG.harness(quick=[1, 2, 3], thorough=[4])
def cash_steps(v, dcf, m):
    """a cash rate curve compounds its rates tenor by tenor"""
    t = v.choice('tenor', [0.25, 0.5, 1])
    c, xs, ys = make(v, dcf, 'CashRateCurve', 2, t)
    s = v.real('s', 0.25, 3)
    p = v.real('p', 0.05, 0.24)
    f = c.get_discount_factor
    df, x = 1, s
    for i in range(m):
        df = df / (1 + c(x) * t)
        x = x + t
    if m > 1:
        v.eq('whole tenors', f(s, s + m * t), df)
    df = df / (1 + c(x) * p)
    v.eq('definition', f(s, x + p), df)
    if m == 1:
        v.eq('one tenor', f(s, s + t), 1 / (1 + c(s) * t))
    v.eq('product', f(s, x) * f(x, x + p), f(s, x + p))


@REG.harness(quick=[(1, 1), (1, 2), (2, 2)], thorough=[(3, 4), (5, 2)])
def short_days(v, dcf, p):
    """a short rate curve accrues its rates day by day"""
    i, j = p
    t = v.date(0)
    a, b = v.choice('dates', [(0, 3), (1, 90), (200, 230)])
    ys = reals(v, 2, -0.05, 0.2)
    kind = v.choice('kind', [None, 'linear', 'right'])
    dc = weekdays(v) if v.choice('uneven', [0, 1]) else None
    c = dcf.ShortRateCurve([v.date(a), v.date(b)], ys, kind, origin=t,
                           day_count=dc)
    s = v.choice('s', [0, 1, 75, 210, 600])
    f = c.get_discount_factor
    A, B, D = v.date(s), v.date(s + i), v.date(s + i + j)
    v.eq('product', f(A, B) * f(B, D), f(A, D))
    tot = sum(c(v.date(s + k)) *
              (dc(v.date(s + k), v.date(s + k + 1)) if dc else
               1 / v.const(365.25)) for k in range(i + j))
    v.eq('definition', f(A, D), v.exp(-tot))


@REG.harness()
def definition(v, dcf):
    """the factor from the origin by class"""
    c, xs, ys = make(v, dcf, 'ZeroRateCurve', 2)
    d = dcf.DiscountFactorCurve(xs, [0.9, 0.8], origin=v.const(ORIGIN))
    x = v.real('x', 0.3, 6)
    v.eq('zero rate curve', c.get_discount_factor(x),
         v.exp(-c(x) * (x - ORIGIN)))
    v.eq('discount factor curve', d.get_discount_factor(x), d(x))


@REG.harness(quick=[(c, n) for c in ('DiscountFactorCurve', 'ZeroRateCurve')
                    for n in (5, 8, 14)],
             thorough=[('DiscountFactorCurve', 40), ('ZeroRateCurve', 40)])
def many_points(v, dcf, p):
    """the same for curves of many points and periods up to 60 years"""
    cls, n = p
    c, o, qs = many(v, dcf, cls, n)
    k = v.choice('k', list(range(1, len(qs) - 1)))
    f = c.get_discount_factor
    for a, b, d in ((o, qs[k], qs[-1]), (qs[0], qs[k], qs[k + 1]),
                    (qs[k - 1], qs[k], qs[-1])):
        v.eq('product', f(a, b) * f(b, d), f(a, d))
        v.eq('backwards', f(a, b) * f(b, a), 1)
        v.eq('ratio of factors from origin', f(a, b) * f(a), f(b))
    b = qs[k]
    v.eq('definition', f(b), c(b) if cls[0] == 'D' else
         v.exp(-c(b) * (b - o)))


USED = ('ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve')


@REG.harness(quick=[(c, g) for c in USED for g in GETTERS[c] if 'disc' in g])
def used(v, dcf, p):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    history(v, dcf, *p)


@REG.harness(quick=[('CashRateCurve', 13), ('ZeroRateCurve', 9),
                    ('ShortRateCurve', 40), ('calendar', 14)],
             thorough=[('CashRateCurve', 41), ('ShortRateCurve', 400),
                       ('calendar', 60)])
def many_steps(v, dcf, p):
    """the same over many tenors, days or points (flat or stepwise rates)"""
    cls, m = p
    r = v.real('r', -0.05, 0.2)
    if cls == 'ShortRateCurve':
        t = v.date(0)
        c = dcf.ShortRateCurve([t, v.date(7)], [r, r], origin=t)
        s = v.date(v.choice('s', [0, 3, 90]))
        e = s + ('%dD' % m)
        v.eq('days', c.get_discount_factor(s, e), v.exp(-r * m / 365.25))
        return
    if cls == 'calendar':
        t = v.date(0)
        c = dcf.CashRateCurve([t, v.date(700)], [r, 0.0625], 'left',
                              origin=t, forward_tenor='1M')
        x, df = t, 1
        for i in range(m):
            y = x + '1M'
            df = df / (1 + c(x) * c.day_count(x, y))
            x = y
        v.eq('whole tenors', c.get_discount_factor(t, x), df)
        return
    o = v.const(ORIGIN)
    if cls == 'CashRateCurve':
        ts = v.choice('tenor', [0.25, 1])
        c = dcf.CashRateCurve([o, o + ts * m / 2], [r, v.const(0.0625)],
                              'left', origin=o, forward_tenor=v.const(ts))
        df, x = 1, o
        for i in range(m):
            df = df / (1 + c(x) * ts)
            x = x + ts
        v.eq('whole tenors', c.get_discount_factor(o, x), df)
        p = v.real('p', 0.0625, 0.1875)
        off = df / (1 + c(x) * p)
        v.eq('stub', c.get_discount_factor(o, x + p), off)
        return
    xs, o = [o + 1], v.const(ORIGIN)
    for i in range(1, m):
        xs.append(xs[-1] + GAPS[i % len(GAPS)])
    ys = reals(v, m, -0.05, 0.2)
    c = dcf.ZeroRateCurve(xs, ys, origin=o)
    f = c.get_discount_factor
    for i in range(m - 1):
        v.eq('product', f(o, xs[i]) * f(xs[i], xs[i + 1]), f(o, xs[i + 1]))
        v.eq('value', f(xs[i]), v.exp(-ys[i] * (xs[i] - o)))


@REG.harness(quick=[(4, 0.0), (9, 0.25), (13, 0.5)], thorough=[(25, 0.5)])
def own_step(v, dcf, p):
    """rates accrue step by step, for periods of any length (here quarters
    instead of days)"""
    m, off = p
    o = v.const(ORIGIN)
    ys = reals(v, m + 2, -0.05, 0.2)
    xs = [o + 0.25 * i for i in range(m + 2)]
    c = type('C', (dcf.ShortRateCurve,), {'_TIME_SHIFT': v.const(0.25)})(
        xs, ys, origin=o)
    s = o + 0.25 * off
    p = v.real('p', 0.015625, 0.234375)
    # a stub at the end accrues at the rate where it begins
    rate = 0
    for i in range(m):
        rate = rate + ys[i] * 0.25
    v.eq('whole steps', c.get_zero_rate(s, s + 0.25 * m) * (0.25 * m), rate)
    v.eq('stub', c.get_zero_rate(s, s + 0.25 * m + p) * (0.25 * m + p),
         rate + ys[m] * p)
