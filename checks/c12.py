"""C12 swap annuity"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import make, ORIGIN

REG = Registry('C12', bounds='1..4 accrual periods (thorough 6) of symbolic '
               'length, 12..40 (thorough 60) periods of fixed '
               'length, starting at, after or before the origin, curves '
               'with 2 points; calendar schedules')


@REG.harness(quick=[(c, m) for c in ('DiscountFactorCurve', 'ZeroRateCurve')
                    for m in (1, 2, 3, 4)],
             thorough=[('ZeroRateCurve', 6), ('DiscountFactorCurve', 6)])
def annuity(v, dcf, p):
    """sum over the periods of length times factor at the period end"""
    cls, m = p
    c, xs, ys = make(v, dcf, cls, 2)
    first = v.choice('first', ['origin', 'later', 'before'])
    ds = [v.const(ORIGIN) if first == 'origin' else v.real('d', 0.25, 2)
          if first == 'later' else v.real('d', -2, 0.25)]
    for i in range(m):
        ds.append(ds[-1] + v.real('g%d' % i, 0.05, 2))
    seq = v.choice('seq', [list, tuple])
    want = sum((e - s) * c.get_discount_factor(e)
               for s, e in zip(ds, ds[1:]))
    v.eq('annuity', c.get_swap_annuity(seq(ds)), want)
    if m > 1:
        v.eq('additive', c.get_swap_annuity(ds[:2]) +
             c.get_swap_annuity(ds[1:]), want)
    v.eq('no period', c.get_swap_annuity(ds[:1]), 0)


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve'])
def order(v, dcf, cls):
    """positive, and worth less than the undiscounted time"""
    c, xs, ys = make(v, dcf, cls, 2)
    a = v.real('d', 0.25, 2)
    b = a + v.real('g', 0.05, 2)
    v.holds('positive', c.get_swap_annuity([a, b]) > 0)


@REG.harness(quick=['DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'])
def calendar(v, dcf, cls):
    t = v.date(0)
    ys = reals(v, 2, 0.9, 0.99) if cls[0] == 'D' else reals(v, 2, 0, 0.1)
    c = getattr(dcf, cls)([v.date(30), v.date(400)], ys, origin=t)
    ds = [v.date(d) for d in v.choice('ds', [(0, 90, 180, 365), (35, 400),
                                             (10, 40, 800)])]
    dc = c.day_count
    v.eq('annuity', c.get_swap_annuity(ds),
         sum(dc(s, e) * c.get_discount_factor(e)
             for s, e in zip(ds, ds[1:])))


@REG.harness()
def day_count(v, dcf):
    """the accrual uses the day count of the curve"""
    k = v.real('k', 0.5, 2)
    c = dcf.ZeroRateCurve([1.0, 2.0], reals(v, 2, 0, 0.1), origin=0.0,
                          day_count=lambda s, e: (e - s) * k)
    ds = grid(v, 3, 0.1, 1, 0.2, 1, 'd')
    v.eq('annuity', c.get_swap_annuity(ds),
         sum((e - s) * k * c.get_discount_factor(e)
             for s, e in zip(ds, ds[1:])))


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve'])
def again(v, dcf, cls):
    """annuities asked for before do not matter, points are those of the
    moment"""
    c, xs, ys = make(v, dcf, cls, 2)
    ds = grid(v, 3, 0.25, 1, 0.25, 2, 'd')
    c.get_swap_annuity([ds[0], ds[2]])
    c.get_swap_annuity([v.const(0.25), ds[2]])

    def want(c):
        return sum((e - s) * c.get_discount_factor(e)
                   for s, e in zip(ds, ds[1:]))
    v.eq('annuity', c.get_swap_annuity(ds), want(c))
    i = v.choice('i', [0, 1])
    y = v.real('y', 0.6, 0.9) if cls[0] == 'D' else v.real('y', 0, 0.1)
    c[xs[i]] = y
    zs = list(ys)
    zs[i] = y
    d = type(c)(xs, zs, origin=v.const(ORIGIN))
    v.eq('after an update', c.get_swap_annuity(ds), want(d))


@REG.harness(quick=[('ZeroRateCurve', 21), ('ZeroRateCurve', 41),
                    ('DiscountFactorCurve', 13)],
             thorough=[('ZeroRateCurve', 61), ('DiscountFactorCurve', 41)])
def long_schedule(v, dcf, p):
    """the same for long schedules at fixed distances"""
    cls, n = p
    t = v.const(ORIGIN)
    xs = [t + 1, t + 4]
    ys = [v.pos('y%d' % i, 0.5, 0.95) for i in (0, 1)] \
        if cls[0] == 'D' else reals(v, 2, -0.05, 0.1)
    c = getattr(dcf, cls)(xs, ys, origin=t)
    ds = [t + GAPS[0]]
    for i in range(1, n):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    want = [(e - s) * c.get_discount_factor(e) for s, e in zip(ds, ds[1:])]
    v.eq('annuity', c.get_swap_annuity(ds), sum(want))
    k = v.choice('k', list(range(1, n - 1)))
    v.eq('from there', c.get_swap_annuity(ds[k:]), sum(want[k:]))
    v.eq('up to there', c.get_swap_annuity(ds[:k + 1]), sum(want[:k]))


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve'])
def any_order(v, dcf, cls):
    """periods that go backwards or are empty count as what they are"""
    c, xs, ys = make(v, dcf, cls, 2)
    ds = grid(v, 3, 0.25, 1, 0.25, 2, 'd')
    o = v.choice('o', [(0, 2, 1), (2, 1, 0), (0, 0, 1), (0, 1, 1, 2),
                       (1, 0, 1), (0, 1, 0)])
    seq = v.choice('seq', [list, tuple])
    es = [ds[i] for i in o]
    v.eq('annuity', c.get_swap_annuity(seq(es)),
         sum((e - s) * c.get_discount_factor(e) for s, e in zip(es, es[1:])))
    v.eqs('schedule', es, [ds[i] for i in o])
