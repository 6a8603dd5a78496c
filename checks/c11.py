"""C11 survival probabilities, intensities and hazard rates of a curve agree"""
from engine.api import Registry
from checks.c07 import many
from checks.common import (GAPS, grid, reals, some_orders, history, GETTERS,
                           weekdays)

REG = Registry('C11', bounds='2..3 points (thorough 4), float dates with '
               'origin 1/4, periods anywhere up to 5 years, points in several orders, dates before the origin; '
               'marginal curves: '
               'up to 3 tenors (9 stepwise); hazard curves: calendar dates '
               'up to 4 days apart (40 with stepwise rates)')

ORIGIN = 0.25
CLS = {'FlatIntensityCurve': (0.0, 1.0),
       'SurvivalProbabilityCurve': (0.125, 0.998),
       'DefaultProbabilityCurve': (0.002, 0.875)}
MARG = {'MarginalSurvivalProbabilityCurve': (0.25, 0.998),
        'MarginalDefaultProbabilityCurve': (0.002, 0.75)}


def make(v, dcf, cls, n, tenor=0.5, orders=False):
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    lo, hi = CLS.get(cls) or MARG[cls]
    if 'Default' in cls:
        ys = [1 - y for y in reals(v, n, 1 - hi, 1 - lo)]
    else:
        ys = reals(v, n, lo, hi)
    order = some_orders(v, n) if orders else range(n)
    return getattr(dcf, cls)([xs[i] for i in order], [ys[i] for i in order],
                             origin=v.const(ORIGIN),
                             forward_tenor=v.const(tenor)), xs, ys


@REG.harness(quick=[(c, n) for c in CLS for n in (2, 3)] +
             [(c, 2) for c in MARG],
             thorough=[(c, 4) for c in CLS] + [(c, 3) for c in MARG])
def agreement(v, dcf, p):
    """survival probability is the exponential of the intensity"""
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n)
    k = v.choice('start', ['anywhere', 'origin', 'origin date'])
    s = v.real('s', 0.25, 5) if k == 'anywhere' else \
        c.origin if k == 'origin' else v.const(ORIGIN)
    p = v.real('p', 0.01, 1.4 if cls in MARG else 5)
    e = s + p
    q = c.get_survival_prob(s, e)
    v.holds('positive', q > 0)
    v.eq('intensity', v.exp(-c.get_flat_intensity(s, e) * p), q)
    v.eq('no period', c.get_survival_prob(e, e), 1)
    if k != 'anywhere':
        v.eq('from origin', c.get_survival_prob(e), q)
        v.eq('intensity from origin', c.get_flat_intensity(e),
             c.get_flat_intensity(s, e))


@REG.harness(quick=[(c, n) for c in CLS for n in (2, 3)],
             thorough=[(c, 4) for c in CLS])
def multiplicative(v, dcf, p):
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n)
    a = v.const(ORIGIN) if v.choice('o', [0, 1]) else v.real('a', 0.25, 3)
    b = a + v.real('b', 0.01, 3)
    d = b + v.real('d', 0.01, 3)
    f = c.get_survival_prob
    v.eq('product', f(a, b) * f(b, d), f(a, d))
    v.eq('ratio from origin', f(a, b) * f(a), f(b))


@REG.harness(quick=['FlatIntensityCurve', 'SurvivalProbabilityCurve',
                    'DefaultProbabilityCurve'])
def probability_range(v, dcf, cls):
    """from the origin survival stays in 0..1 at any date"""
    c, xs, ys = make(v, dcf, cls, 3)
    x = ORIGIN + v.real('p', 0, 9)
    q = c.get_survival_prob(x)
    v.le('at most one', q, 1)
    v.holds('positive', q > 0)


@REG.harness(quick=[(c, m) for c in MARG for m in (1, 2, 3)],
             thorough=[(c, 4) for c in MARG])
def marginal_steps(v, dcf, p):
    """marginal probabilities multiply tenor by tenor"""
    cls, m = p
    t = v.choice('tenor', [0.5, 1])
    c, xs, ys = make(v, dcf, cls, 2, t)
    s = v.real('s', 0.25, 3)
    p = v.real('p', 0.05, 0.45)
    f = c.get_survival_prob
    q, x = 1, s
    for i in range(m):
        q = q * c(x)
        x = x + t
    v.eq('whole tenors', f(s, s + m * t), q)
    v.eq('part of a tenor', f(x, x + p),
         v.exp(v.log(c(x)) * p / t))
    v.eq('product', f(s, x + p), q * f(x, x + p))
    v.le('at most one', f(s, x + p), 1)
    v.le('non increasing', f(s, x + p), f(s, x))


@REG.harness(quick=list(CLS) + list(MARG))
def tiny(v, dcf, cls):
    """probabilities near zero and near one, high intensities"""
    o, t = v.const(0), v.const(1)
    lo, hi = v.choice('range', [(2 ** -40, 2 ** -8), (1 - 2 ** -8,
                                                      1 - 2 ** -40)])
    a, b = v.pos('a', lo, hi), v.pos('b', lo, hi)
    if cls == 'FlatIntensityCurve':
        a, b = v.real('ia', 4, 64), v.real('ib', 4, 64)
    ys = [1 - a, 1 - b] if 'Default' in cls else [a, b]
    c = getattr(dcf, cls)([o, o + 1] if cls in MARG else [o + 1, o + 2], ys,
                          origin=o, forward_tenor=t)
    f = c.get_survival_prob
    if cls in MARG:
        v.eq('one tenor', f(o, o + 1) / a, 1)
        v.eq('two tenors', f(o, o + 2) / (a * b), 1)
        v.eq('second tenor', f(o + 1, o + 2) / b, 1)
        v.le('at most one', f(o, o + 2), 1)
    elif cls == 'FlatIntensityCurve':
        v.eq('to the first point', c.get_flat_intensity(o + 1), a)
        v.eq('to the second point', c.get_flat_intensity(o, o + 2), b)
        v.eq('between', c.get_flat_intensity(o + 1, o + 2), 2 * b - a)
        v.eq('hazard', c.get_hazard_rate(o + 1.5), 2 * b - a)
        v.eq('survival', v.log(f(o + 1)), -a)
    else:
        v.eq('to the first point', f(o + 1) / a, 1)
        v.eq('to the second point', f(o, o + 2) / b, 1)
        v.eq('between', f(o + 1, o + 2) * a / b, 1)
        v.eq('intensity', v.exp(c.get_flat_intensity(o + 1, o + 2)) * b / a,
             1)


@REG.harness(quick=[(c, t) for c in MARG for t in ('1M', '6M')])
def marginal_calendar(v, dcf, p):
    """tenors of different number of days"""
    cls, tenor = p
    t = v.date(0)
    ys = reals(v, 2, 0.5, 0.99)
    if 'Default' in cls:
        ys = [1 - y for y in ys]
    c = getattr(dcf, cls)([v.date(10), v.date(200)], ys, origin=t,
                          forward_tenor=tenor)
    s = v.date(v.choice('s', [0, 20, 55, 150]))
    f = c.get_survival_prob
    q, x = 1, s
    for i in range(v.choice('tenors', [1, 2, 3])):
        q = q * c(x)
        x = x + tenor
        v.eq('whole tenors', f(s, x), q)
    e = x + v.choice('stub', ['1D', '9D', '20D'])
    part = c.day_count(x, e) / c.day_count(x, x + tenor)
    v.eq('part of a tenor', f(x, e), v.exp(v.log(c(x)) * part))
    v.eq('definition', f(s, e), q * v.exp(v.log(c(x)) * part))


@REG.harness(quick=['FlatIntensityCurve', 'SurvivalProbabilityCurve',
                    'DefaultProbabilityCurve'])
def below_zero(v, dcf, cls):
    """periods that begin before the origin or touch date zero"""
    lo, hi = CLS[cls]
    xs = [v.real('x0', -3, -2.25), v.real('x1', -1, 0.5)]
    ys = [1 - y for y in reals(v, 2, 1 - hi, 1 - lo)] if 'Default' in cls \
        else reals(v, 2, lo, hi)
    c = getattr(dcf, cls)(xs, ys, origin=v.const(-2))
    a = v.real('a', -2.9, 0.5)
    b, d = v.choice('ends', [(0, 1.5), (-2, 0), (-0.5, 1.5), (1, 0)])
    f = c.get_survival_prob
    v.eq('product', f(a, b) * f(b, d), f(a, d))
    v.eq('backwards', f(a, b) * f(b, a), 1)
    v.eq('no period', f(a, a), 1)
    v.eq('intensity', v.exp(-c.get_flat_intensity(d, b) * (b - d)), f(d, b))


@REG.harness(quick=[(1, 1), (1, 2), (2, 2)], thorough=[(3, 4), (5, 2)])
def hazard_days(v, dcf, p):
    """a hazard rate curve accrues its rates day by day"""
    i, j = p
    t = v.date(0)
    a, b = v.choice('dates', [(0, 3), (1, 90), (200, 230)])
    ys = reals(v, 2, 0, 0.5)
    kind = v.choice('kind', [None, 'left', 'right'])
    dc = weekdays(v) if v.choice('uneven', [0, 1]) else None
    c = dcf.HazardRateCurve([v.date(a), v.date(b)], ys, kind, origin=t,
                            day_count=dc)
    s = v.choice('s', [0, 1, 75, 210, 600])
    if v.choice('spread', [0, 1]):
        w, x = v.real('b', 0, 0.1), v.date(s)
        y = c(x)
        c.spread = dcf.DateCurve([t], [w], origin=t)
        v.eq('shifted', c(x), y + w)
    f = c.get_survival_prob
    A, B, D = v.date(s), v.date(s + i), v.date(s + i + j)
    v.eq('product', f(A, B) * f(B, D), f(A, D))
    day = [dc(v.date(s + k), v.date(s + k + 1)) if dc else
           1 / v.const(365.25) for k in range(i + j)]
    tot = sum(c(v.date(s + k)) * day[k] for k in range(i + j))
    v.eq('definition', f(A, D), v.exp(-tot))
    v.eq('intensity', c.get_flat_intensity(A, D) * sum(day), tot)
    v.eq('hazard rate', c.get_hazard_rate(A), c(A))
    v.eq('no period', f(B, B), 1)
    v.le('at most one', f(A, D), 1)
    v.le('non increasing', f(A, D), f(A, B))


@REG.harness(quick=[2, 3])
def with_spread(v, dcf, n):
    """a flat spread shifts the stored intensities, all the rest agrees"""
    c, xs, ys = make(v, dcf, 'FlatIntensityCurve', n)
    b = v.real('b', 0, 0.1)
    s = v.real('s', 0.25, 8)
    v.assume(s < xs[-1])
    e = s + v.real('p', 0.01, 5)
    f = c.get_survival_prob
    x = c.get_flat_intensity(e), f(s, e), c.get_hazard_rate(s)
    c.spread = dcf.DateCurve([v.const(ORIGIN)], [b], origin=v.const(ORIGIN))
    v.eq('intensity', c.get_flat_intensity(e), x[0] + b)
    v.eq('survival', f(s, e), x[1] * v.exp(-b * (e - s)))
    v.eq('hazard rate', c.get_hazard_rate(s), x[2] + b)
    c.spread = None
    v.eq('removed', f(s, e), x[1])


@REG.harness(quick=[(c, n) for c in CLS for n in (2, 3)] +
             [(c, 2) for c in MARG])
def hazard_rate(v, dcf, p):
    """the hazard rate is the intensity of the surrounding interval"""
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n, 20 if p[0] in MARG else 0.5, True)
    i = v.choice('interval', list(range(n)))
    a, b = (xs[i - 1], xs[i]) if i else (xs[0], xs[1])
    x = (a if i else 0) + v.real('w', 0, 0.499)
    v.eq('hazard rate', c.get_hazard_rate(x), c.get_flat_intensity(a, b))


@REG.harness(quick=list(CLS) + list(MARG))
def calendar(v, dcf, cls):
    t = v.date(0)
    ds = v.choice('dates', [(1, 90), (30, 400), (200, 230), (30, 100, 400)])
    a, b, n = ds[-2], ds[-1], len(ds)
    ys = reals(v, n, 0.01, 0.02) if cls[0] == 'F' or 'Default' in cls else \
        reals(v, n, 0.95, 0.99)
    c = getattr(dcf, cls)([v.date(d) for d in ds], ys, origin=t)
    s = v.choice('s', [0, 29, 210, 600])
    k = v.choice('k', [1, 30, 370])
    s, e = v.date(s), v.date(s + k)
    q = c.get_survival_prob(s, e)
    v.eq('intensity', v.exp(-c.get_flat_intensity(s, e) * k / v.const(
        365.25)), q)
    v.eq('no period', c.get_survival_prob(e, e), 1)
    v.eq('no period at origin', c.get_survival_prob(t, t), 1)
    last = c.get_hazard_rate(v.date(b))
    v.eq('later hazard rate', c.get_hazard_rate(v.date(b + 100)), last)
    if cls in CLS:
        v.eq('last hazard rate', last,
             c.get_flat_intensity(v.date(a), v.date(b)))
    else:
        v.eq('last hazard rate', last,
             c.get_flat_intensity(v.date(b), v.date(b + 1)))
    v.eq('earlier hazard rate', c.get_hazard_rate(v.date(ds[0]) - '1D'),
         c.get_hazard_rate(v.date(ds[0])))


@REG.harness()
def definition(v, dcf):
    x = v.real('x', 0.3, 6)
    c, xs, ys = make(v, dcf, 'FlatIntensityCurve', 2)
    v.eq('intensity', c.get_survival_prob(x), v.exp(-c(x) * (x - ORIGIN)))
    ps = [0.9, 0.8]
    a = dcf.SurvivalProbabilityCurve(xs, ps, origin=v.const(ORIGIN))
    b = dcf.DefaultProbabilityCurve(xs, [1 - p for p in ps],
                                    origin=v.const(ORIGIN))
    v.eq('survival', a.get_survival_prob(x), a(x))
    v.eq('default', b.get_survival_prob(x), a(x))
    m = dcf.MarginalSurvivalProbabilityCurve(xs, ps, origin=v.const(ORIGIN),
                                             forward_tenor=v.const(0.5))
    d = dcf.MarginalDefaultProbabilityCurve(xs, [1 - p for p in ps],
                                            origin=v.const(ORIGIN),
                                            forward_tenor=v.const(0.5))
    y = x + v.real('y', 0.01, 0.9)
    v.eq('marginal', m.get_survival_prob(x, y), d.get_survival_prob(x, y))


@REG.harness(quick=[(c, n) for c in CLS for n in (5, 8, 14)],
             thorough=[(c, 40) for c in CLS])
def many_points(v, dcf, p):
    """the same for curves of many points and periods up to 60 years"""
    cls, n = p
    c, o, qs = many(v, dcf, cls, n)
    k = v.choice('k', list(range(1, len(qs) - 1)))
    f = c.get_survival_prob
    for a, b, d in ((o, qs[k], qs[-1]), (qs[0], qs[k], qs[k + 1]),
                    (qs[k - 1], qs[k], qs[-1])):
        v.eq('product', f(a, b) * f(b, d), f(a, d))
        v.eq('intensity', v.exp(-c.get_flat_intensity(a, b) * (b - a)),
             f(a, b))


USED = ('FlatIntensityCurve', 'SurvivalProbabilityCurve',
           'MarginalSurvivalProbabilityCurve')


@REG.harness(quick=[(c, g) for c in USED for g in GETTERS[c]])
def used(v, dcf, p):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    history(v, dcf, *p)


@REG.harness(quick=[('MarginalSurvivalProbabilityCurve', 9),
                    ('MarginalDefaultProbabilityCurve', 9),
                    ('HazardRateCurve', 40), ('FlatIntensityCurve', 9)],
             thorough=[('MarginalSurvivalProbabilityCurve', 31),
                       ('HazardRateCurve', 400)])
def many_steps(v, dcf, p):
    """the same over many tenors, days or points (stepwise values)"""
    cls, m = p
    o = v.const(ORIGIN)
    if cls[0] == 'H':
        r = v.real('r', 0, 0.2)
        t = v.date(0)
        c = dcf.HazardRateCurve([t, v.date(7)], [r, r], origin=t)
        s = v.date(v.choice('s', [0, 3, 90]))
        v.eq('days', c.get_survival_prob(s, s + ('%dD' % m)),
             v.exp(-r * m / 365.25))
    elif cls[0] == 'M':
        q = v.pos('q', 0.5, 0.95)
        w = v.const(0.9375)
        df = cls[8] == 'D'
        c = getattr(dcf, cls)([o, o + m // 2],
                              [1 - q, 1 - w] if df else [q, w], 'left',
                              origin=o, forward_tenor=v.const(1))
        k = m // 2
        v.eq('whole tenors', c.get_survival_prob(o, o + m),
             q ** k * w ** (m - k))
    else:
        xs = [o + 1]
        for i in range(1, m):
            xs.append(xs[-1] + GAPS[i % len(GAPS)])
        ys = reals(v, m, 0, 0.2)
        c = dcf.FlatIntensityCurve(xs, ys, origin=o)
        f = c.get_survival_prob
        for i in range(m - 1):
            v.eq('product', f(o, xs[i]) * f(xs[i], xs[i + 1]),
                 f(o, xs[i + 1]))
            v.eq('value', f(xs[i]), v.exp(-ys[i] * (xs[i] - o)))


@REG.harness(quick=[(4, 0.0), (9, 0.25), (13, 0.5)], thorough=[(25, 0.5)])
def own_step(v, dcf, p):
    """rates accrue step by step, for periods of any length (here quarters
    instead of days)"""
    m, off = p
    o = v.const(ORIGIN)
    ys = reals(v, m + 2, 0, 0.2)
    xs = [o + 0.25 * i for i in range(m + 2)]
    c = type('C', (dcf.HazardRateCurve,), {'_TIME_SHIFT': v.const(0.25)})(
        xs, ys, origin=o)
    s = o + 0.25 * off
    p = v.real('p', 0.015625, 0.234375)
    # a stub at the end accrues at the rate where it begins
    rate = 0
    for i in range(m):
        rate = rate + ys[i] * 0.25
    v.eq('whole steps', c.get_flat_intensity(s, s + 0.25 * m) * (0.25 * m), rate)
    v.eq('stub', c.get_flat_intensity(s, s + 0.25 * m + p) * (0.25 * m + p),
         rate + ys[m] * p)


@REG.harness(quick=[(c, n) for c in CLS for n in (2, 3)])
def at_origin(v, dcf, p):
    """the intensity at the origin is the one up to any date before the first
    point"""
    cls, n = p
    c, xs, ys = make(v, dcf, cls, n, orders=True)
    o = c.origin if v.choice('origin', [0, 1]) else v.const(ORIGIN)
    r = c.get_flat_intensity(o, o + v.real('x', 0.01, 0.24))
    v.eq('intensity at origin', c.get_flat_intensity(o), r)
    v.eq('no period at origin', c.get_flat_intensity(o, o), r)
    v.eq('up to the first point', c.get_flat_intensity(o, xs[0]), r)


@REG.harness(quick=['Survival', 'Default', 'MarginalSurvival',
                    'MarginalDefault'])
def no_survivors(v, dcf, kind):
    """sure default: nothing survives up to the date and any later one"""
    o = v.const(ORIGIN)
    x = o + v.real('x', 0.5, 2)
    cls = getattr(dcf, kind + 'ProbabilityCurve')
    z = 1 if 'Default' in kind else 0
    z = v.choice('as', [z, float(z), 2 * z - 0.5])
    if 'Marginal' in kind:
        c = cls([x], [z], origin=o, forward_tenor=v.const(0.5))
        s = o + v.real('s', 0, 2)
        d = v.choice('d', [0.25, 0.5, 0.75, 1, 1.5])
        v.eq('survival', c.get_survival_prob(s, s + d), 0)
    else:
        c = cls([x, x + 1], [z, z], origin=o)
        v.eq('survival', c.get_survival_prob(x), 0)
        v.eq('survival later', c.get_survival_prob(x + 1), 0)
        v.eq('survival after', c.get_survival_prob(x + 5), 0)
