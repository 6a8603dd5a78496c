"""C18 accrued interest"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import ORIGIN

REG = Registry('C18', bounds='1..3 rate flows (thorough 5) with symbolic '
               'dates, 6..13 (thorough 50) at fixed distances, rates and forward rates, valuation date anywhere, '
               'zero included, payment offsets, lists of 1..3 legs')


def share(s, e, t):
    """elapsed part of a period"""
    if t <= s:
        return 0
    if t >= e:
        return 1
    return (t - s) / (e - s)


def build(v, dcf, n, kind, offset=None, ds=None, o=None):
    o = v.const(ORIGIN) if o is None else o
    ds = grid(v, n, 0.5, 2, 0.25, 2) if ds is None else ds
    am = reals(v, n, -10, 10, 'a')
    kw = {}
    if offset:
        kw['pay_offset'] = offset
    if kind == 'contingent':
        m = dcf.models.IntrinsicOptionPayOffModel(
            valuation_date=o, forward_curve=v.real('f', 0.01, 0.1))
        return dcf.ContingentRateCashFlowList(
            ds, am, origin=o, fixed_rate=v.real('q', -0.1, 0.1),
            cap_strike=v.real('k', 0, 0.1), payoff_model=m, **kw), ds
    if kind == 'float':
        kw['forward_curve'] = v.real('f', -0.1, 0.1)
    return dcf.RateCashFlowList(ds, am, origin=o,
                                fixed_rate=v.real('q', -0.1, 0.1), **kw), ds


@REG.harness(quick=[(k, n) for k in ('fixed', 'float', 'contingent')
                    for n in (1, 2, 3)], thorough=[('fixed', 5)])
def by_period(v, dcf, p):
    """the running flow times the elapsed part of its period"""
    kind, n = p
    f, ds = build(v, dcf, n, kind)
    t = v.choice('t', ['anywhere'] + list(range(n)))
    at = t
    t = v.real('t', -1, 8) if t == 'anywhere' else ds[t]
    want, s = 0, v.const(ORIGIN)
    for d in ds:
        if s < t and t <= d:
            want = f[d] * share(s, d, t)
        s = d
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)


@REG.harness(quick=[(k, n) for k in ('fixed', 'contingent')
                    for n in (1, 2)], thorough=[('fixed', 3)])
def payment_offset(v, dcf, p):
    """flows paid after the end of their period: all of it from its end to
    payment, none before the start; flows already paid do not count"""
    kind, n = p
    lag = v.real('lag', 0.0625, 0.5)
    f, ds = build(v, dcf, n, kind, lag)
    t = v.real('t', -1, 8)
    want = 0
    for d in ds:
        po = f.payoff(d)
        if t <= d:
            want = want + f[d] * share(po.start, po.end, t)
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)
    for d in ds:
        v.eq('period ends before payment', f.payoff(d).end, d - lag)


@REG.harness(quick=['fixed', 'float'])
def growth(v, dcf, kind):
    """grows steadily to the flow and starts again"""
    f, ds = build(v, dcf, 2, kind)
    s = v.const(ORIGIN)
    a = s + (ds[0] - s) * v.real('w', 0, 1)
    b = ds[0] + (ds[1] - ds[0]) * v.real('u', 0, 1)
    acc = dcf.get_interest_accrued
    v.eq('nothing at the start', acc(f, s), 0, 10)
    v.eq('all at the end', acc(f, ds[0]), f[ds[0]], 10)
    v.eq('proportional', acc(f, a) * (ds[0] - s), f[ds[0]] * (a - s), 10)
    if b > ds[0]:
        v.eq('next period', acc(f, b) * (ds[1] - ds[0]),
             f[ds[1]] * (b - ds[0]), 10)
    v.eq('nothing afterwards', acc(f, ds[1] + v.real('z', 0.01, 5)), 0)
    v.eq('nothing before', acc(f, s - v.real('zz', 0.01, 5)), 0)


@REG.harness(quick=[(1, 1), (2, 1)], thorough=[(2, 2, 1)])
def legs(v, dcf, ns):
    """sum of the legs; only rate flows accrue"""
    ls, want = [], 0
    t = v.real('t', -1, 6)
    for i, n in enumerate(ns):
        ds = grid(v, n, 0.5, 2, 0.25, 2, 'l%d' % i)
        ls.append(dcf.RateCashFlowList(
            ds, reals(v, n, -10, 10, 'a%d' % i), origin=v.const(ORIGIN),
            fixed_rate=v.real('q%d' % i, -0.1, 0.1)))
        want = want + dcf.get_interest_accrued(ls[-1], t)
    fx = dcf.FixedCashFlowList([v.const(1), v.const(3)],
                               reals(v, 2, -100, 100, 'b'),
                               origin=v.const(0))
    v.eq('fixed flows', dcf.get_interest_accrued(fx, t), 0, 10)
    ls.append(fx)
    l = dcf.CashFlowLegList(ls)
    v.eq('legs', dcf.get_interest_accrued(l, t), want, 10)
    l = dcf.CashFlowLegList([dcf.CashFlowLegList(ls[:1])] + ls[1:])
    v.eq('nested legs', dcf.get_interest_accrued(l, t), want, 10)


@REG.harness()
def day_count(v, dcf):
    """shares of the period as counted by its day count"""
    k = v.real('k', 0.5, 2)
    a, e = v.real('a', -10, 10), v.real('e', 0.5, 2)
    t = v.real('t', 0.25, 3)

    def dc(s, e):
        # convex: counts later time more
        return (e * e - s * s) * k
    f = dcf.RateCashFlowList([e], [a], origin=v.const(ORIGIN), day_count=dc,
                             fixed_rate=0.05)
    want = 0
    if t <= e and ORIGIN < t:
        want = f[e] * (dc(ORIGIN, t) / dc(ORIGIN, e))
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)


@REG.harness(quick=['fixed', 'float', 'contingent'])
def calendar(v, dcf, kind):
    offs = v.choice('ds', [(90, 180), (31, 365)])
    ds = [v.date(d) for d in offs]
    t0 = v.date(0)
    f, ds = build(v, dcf, 2, kind, None, ds, t0)
    n = v.choice('t', [-5, 0, 1, 31, 89, 90, 91, 180, 364, 365, 366])
    t, want, s = v.date(n), 0, 0
    for d, x in zip(offs, ds):
        if s < n and n <= d:
            want = f[x] * ((n - s) / (d - s))
        s = d
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)


@REG.harness(quick=['fixed', 'float', 'contingent'])
def again(v, dcf, kind):
    """dates asked for before do not matter, rates are those of the moment"""
    f, ds = build(v, dcf, 2, kind)
    t, u = v.real('t', -1, 6), v.real('u', -1, 6)
    acc = dcf.get_interest_accrued
    acc(f, u), acc(dcf.CashFlowLegList([f]), u)

    def want(t):
        w, s = 0, v.const(ORIGIN)
        for d in ds:
            if s < t and t <= d:
                w = f[d] * share(s, d, t)
            s = d
        return w
    v.eq('accrued interest', acc(f, t), want(t), 10)
    f.fixed_rate = v.real('n', -0.1, 0.1)
    v.eq('other rate', acc(f, t), want(t), 10)
    v.eq('other rate, other date', acc(f, u), want(u), 10)
    if kind == 'float':
        f.forward_curve = v.real('nf', -0.1, 0.1)
        v.eq('other forward', acc(f, t), want(t), 10)


@REG.harness(quick=[('fixed', 8), ('float', 13), ('contingent', 6)],
             thorough=[('fixed', 50)])
def many(v, dcf, p):
    """the same for many flows at fixed distances"""
    kind, n = p
    ds = [v.const(ORIGIN) + 0.5]
    for i in range(1, n):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    f, ds = build(v, dcf, n, kind, ds=ds)
    t = v.real('t', -1, 1.1 * n + 2)
    want, s = 0, v.const(ORIGIN)
    for d in ds:
        if s < t and t <= d:
            want = f[d] * share(s, d, t)
        s = d
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)


@REG.harness(quick=[('fixed', 3), ('float', 3), ('fixed', 4)],
             thorough=[('contingent', 3)])
def at_zero(v, dcf, p):
    """dates before and after zero; the valuation date may be zero, as
    number of any type"""
    kind, n = p
    o = v.real('o', -3, 0.5)
    ds = grid(v, n, -2, 1, 0.25, 2)
    v.assume(o + 0.125 <= ds[0])
    f, ds = build(v, dcf, n, kind, None, ds, o)
    t = v.choice('t', [0, v.const(0), 1, -1])
    want, s = 0, o
    for d in ds:
        if s < t and t <= d:
            want = f[d] * share(s, d, t)
        s = d
    v.eq('accrued interest', dcf.get_interest_accrued(f, t), want, 10)
