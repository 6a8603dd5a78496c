"""C15 yield to maturity: the flat rate at which the flows are worth the price"""
from engine.api import Registry
from checks.common import grid, reals

REG = Registry('C15', bounds='a positive flow at a symbolic date, 2 (thorough '
               '3) positive flows at given distances, price that of a flat rate between the bounds; '
               'precision 0.1 and 0.05 (thorough 0.02) and that of the package for single rates, rates -0.125..0.25',
               opts_quick=dict(budget=150))


GRIDS = (0.5, 1.25, 2), (1, 1.5, 4), (0.25, 3, 5)


@REG.harness(quick=[(1, 0.1), (2, 0.1), (1, 0.05)],
             thorough=[(3, 0.1), (1, 0.02), (2, 0.05)])
def reprices(v, dcf, p):
    """the yield is as close to the true flat rate as the precision"""
    n, prec = p
    lo, hi = -0.125, 0.25
    k = v.choice('date', ['given', 'origin'])
    t = v.real('t', 0, 0.5)
    if n == 1:
        ds = [t + v.real('d0', 0.5, 1)]
    else:
        ds = [t + d for d in v.choice('ds', GRIDS)[:n]]
    am = [v.real('a%d' % i, 0.25, 0.5) for i in range(n)]
    y = v.real('y', lo + 0.01, hi - 0.01)
    price = sum(a * v.exp(-y * (d - t)) for a, d in zip(am, ds))
    f = dcf.FixedCashFlowList(ds, am,
                              origin=t if k == 'origin' else v.const(-1))
    args = (t,) if k == 'given' else (None,)
    got = dcf.get_yield_to_maturity(f, *args, present_value=price,
                                    precision=v.const(prec), bounds=(lo, hi))
    v.le('not above', got - y, prec)
    v.le('not below', y - got, prec)


@REG.harness(quick=[1, 2])
def compounded(v, dcf, m):
    """a zero bond's yield for the default (continuous) compounding, discount
    factors by a curve with the same rate reprice it"""
    t, d = v.const(0), v.real('d', 0.5, 2)
    y = v.real('y', -0.1, 0.2)
    f = dcf.FixedCashFlowList([t + d], [v.const(1)])
    c = dcf.ZeroRateCurve([v.const(0)], [y])
    pv = dcf.get_present_value(f, c, t)
    got = dcf.get_yield_to_maturity(f, t, pv, precision=v.const(0.1),
                                    bounds=(-0.125, 0.25))
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness()
def out_of_bounds(v, dcf):
    """no yield between the bounds: an error"""
    t = v.const(0)
    d = v.real('d', 0.5, 2)
    y = v.real('y', 0.1, 0.3)
    s = v.choice('side', [1, -1])
    f = dcf.FixedCashFlowList([d], [v.const(1)])
    v.raises('refused', (AssertionError, ValueError),
             lambda: dcf.get_yield_to_maturity(
                 f, t, v.exp(-y * s * d), precision=v.const(0.1),
                 bounds=(-0.0625, 0.0625)))


@REG.harness(quick=[1, -1])
def day_count(v, dcf, sign):
    """keywords go to the flat curve the yield refers to; payables too"""
    t = v.const(0)
    d = v.real('d', 0.5, 2)
    y = v.real('y', -0.1, 0.2)
    k = v.real('k', 0.5, 1.5)
    f = dcf.FixedCashFlowList([d], [v.const(sign)])
    got = dcf.get_yield_to_maturity(
        f, t, sign * v.exp(-y * d * k), precision=v.const(0.1),
        bounds=(-0.125, 0.25), day_count=lambda s, e: (e - s) * k)
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness()
def rate_flows(v, dcf):
    """times are not measured by the day count of the flows"""
    t = v.const(0)
    d = v.real('d', 0.5, 2)
    y = v.real('y', -0.1, 0.2)
    k = v.real('k', 0.25, 0.5)
    f = dcf.RateCashFlowList([d], [v.const(100)], origin=t, fixed_rate=v.const(
        0.04), day_count=lambda s, e: (e - s) * k)
    got = dcf.get_yield_to_maturity(
        f, t, 4 * k * d * v.exp(-y * d), precision=v.const(0.1),
        bounds=(-0.125, 0.25))
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness()
def at_valuation(v, dcf):
    """flows at the valuation date count, earlier ones do not"""
    t = v.const(2)
    y = v.real('y', -0.1, 0.2)
    a, b = v.real('a', -2, 2), v.real('b', 0.5, 1)
    ds = v.choice('ds', [(2, 3.5), (1, 2, 3), (0.5, 1, 2, 4),
                         (3.5, 2, 1)])
    fs = [b if d > 2 else a for d in ds]
    f = dcf.FixedCashFlowList([v.const(d) for d in ds], fs,
                              origin=v.const(0))
    price = a + b * v.exp(-y * (max(ds) - 2))
    got = dcf.get_yield_to_maturity(f, t, price, precision=v.const(0.1),
                                    bounds=(-0.125, 0.25))
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness(quick=[0, 1, 2])
def by_default(v, dcf, k):
    """seven digits by default, for rates from -10% to 20%"""
    t, d = v.const(0), v.const(1)
    y = v.const((-0.09375, 0.0390625, 0.1875)[k])
    f = dcf.FixedCashFlowList([d], [v.const(100)], origin=t)
    got = dcf.get_yield_to_maturity(f, t, 100 * v.exp(-y * d))
    v.eq('yield', got, y, 0.1)


@REG.harness()
def internal_rate(v, dcf):
    """without price: the rate that makes flows out and back worth nothing"""
    y = v.real('y', -0.1, 0.2)
    t, d = v.const(v.choice('t', [0, -1])), v.choice('d', [1, 1.5])
    a = v.choice('a', [1, -1, 3])
    s = v.choice('s', [0, 0.5])
    f = dcf.FixedCashFlowList([t + s, t + s + d], [-a * v.exp(-y * d),
                                                   v.const(a)], origin=t)
    got = dcf.get_yield_to_maturity(f, precision=v.const(0.1),
                                    bounds=(-0.125, 0.25))
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness()
def calendar(v, dcf):
    t = v.date(0)
    ds = [v.date(200), v.date(500)]
    am = reals(v, 2, 0.5, 1, 'a')
    y = v.real('y', -0.1, 0.2)
    c = dcf.ZeroRateCurve([t], [y])
    f = dcf.FixedCashFlowList(ds, am, origin=t)
    got = dcf.get_yield_to_maturity(
        f, t, dcf.get_present_value(f, c, t), precision=v.const(0.1),
        bounds=(-0.125, 0.25))
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)


@REG.harness()
def again(v, dcf):
    """yields asked for before do not matter"""
    t = v.const(0)
    d = v.const(1.5)
    y, z = v.real('y', -0.1, 0.2), v.real('z', -0.1, 0.2)
    f = dcf.FixedCashFlowList([d], [v.const(1)])
    kw = dict(precision=v.const(0.1), bounds=(-0.125, 0.25))
    ytm = dcf.get_yield_to_maturity
    ytm(f, t, v.exp(-z * d), **kw)
    ytm(f, v.const(0.25), v.const(1.0), precision=v.const(0.1),
        bounds=(-0.25, 0.5))
    got = ytm(f, t, v.exp(-y * d), **kw)
    v.le('not above', got - y, 0.1)
    v.le('not below', y - got, 0.1)
    g = dcf.FixedCashFlowList([d], [v.const(2)])
    got = ytm(g, t, 2 * v.exp(-z * d), **kw)
    v.le('other flows, not above', got - z, 0.1)
    v.le('other flows, not below', z - got, 0.1)
