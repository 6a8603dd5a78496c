"""C19 curve fit"""
from engine.api import Registry
from checks.common import grid, reals
from checks.c07 import ORIGIN

REG = Registry('C19', bounds='1..2 (thorough 3) zero bonds or coupon '
               'bonds, fitting grid with 1..3 points (4..6, thorough 12, with one rate '
               'to search for), prices from a curve '
               'within the bounds; precision 0.01..0.1')


def linear(dcf):
    class Linear(dcf.ZeroRateCurve):
        """value linear in the rate of each date: the search is polynomial"""

        def get_discount_factor(self, start, stop=None):
            return 1 - self(stop) * (stop - start)
    return Linear


def bonds(v, dcf, ds):
    return [dcf.FixedCashFlowList([d], [v.const(1)]) for d in ds]


@REG.harness(quick=[(1, 'lin', 0.01), (2, 'lin', 0.05), (1, 'exp', 0.05)],
             thorough=[(3, 'lin', 0.05), (2, 'exp', 0.1)])
def reprices(v, dcf, p):
    """zero bonds at the grid points: the rates of the curve behind the
    prices within the precision, and the curve itself is not changed"""
    n, k, prec = p
    cls = linear(dcf) if k == 'lin' else dcf.ZeroRateCurve
    ds = [v.const(x) for x in (1.25, 2.25, 4.25)[:n]]
    ys = reals(v, n, -0.05, 0.05, 'r')
    zs = reals(v, n, -0.04, 0.04, 'z')
    o = v.const(ORIGIN)
    c = cls(ds, ys, origin=o)
    true = cls(ds, [y + z for y, z in zip(ys, zs)], origin=o)
    cf = bonds(v, dcf, ds)
    pv = [dcf.get_present_value(f, true) for f in cf]
    got = dcf.get_curve_fit(cf, c, present_value=pv,
                            precision=v.const(prec), bounds=(-0.125, 0.125))
    v.holds('one value per grid point', len(got) == n)
    v.holds('no spread left', c.spread is None)
    for d, y in zip(ds, ys):
        v.eq('curve unchanged', c(d), y)
    v.le('first rate', got[0] - ys[0] - zs[0], prec)
    v.le('first rate from below', ys[0] + zs[0] - got[0], prec)
    # the fit at a point values all products matured there together
    fit = cls(ds, list(got), origin=o)
    for i in range(n):
        err = 0
        for f, x in zip(cf[:i + 1], pv):
            err = err + dcf.get_present_value(f, fit) - x
        v.le('value', err, prec)
        v.le('value from below', -err, prec)


@REG.harness(quick=['first', 'none'])
def no_product(v, dcf, k):
    """grid points without matured product keep the rate of the curve"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    ds = [v.const(1.25), v.const(2.25)]
    ys = reals(v, 2, -0.05, 0.05, 'r')
    c = cls(ds, ys, origin=o)
    gr = {'first': [ds[0] - 0.5, ds[0]],
          'none': [ds[0] - 0.75, ds[0] - 0.5]}[k]
    cf = bonds(v, dcf, [ds[0]])
    z = v.real('z', -0.05, 0.05)
    pv = [1 - (ys[0] + z) * (ds[0] - o)]
    got = dcf.get_curve_fit(cf, c, fitting_grid=gr, present_value=pv,
                            precision=v.const(0.1), bounds=(-0.125, 0.125))
    v.holds('one value per grid point', len(got) == 2)
    v.holds('no spread left', c.spread is None)
    v.eq('curve unchanged', c(ds[0]), ys[0])
    v.eq('before the first maturity', got[0], c(gr[0]))
    if k == 'none':
        v.eq('no product', got[1], c(gr[1]))
    else:
        v.le('fitted', got[1] - c(ds[0]) - z, 0.1)
        v.le('fitted from below', c(ds[0]) + z - got[1], 0.1)


@REG.harness(quick=['list', 'number', 'default'])
def present_value(v, dcf, k):
    """prices as a list or one price for all; zero by default"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    d = v.const(1.25)
    y, z = v.real('r', -0.05, 0.05), v.real('z', -0.05, 0.05)
    c = cls([d], [y], origin=o)
    f = dcf.FixedCashFlowList([d], [v.const(1)])
    x = 1 - (y + z) * (d - o)
    if k == 'default':
        # a loan paid out at its price is worth nothing
        f = dcf.FixedCashFlowList([o, d], [-x, v.const(1)])
        kw = {}
    else:
        kw = {'present_value': [x] if k == 'list' else x}
    t = v.choice('t', [None, 'origin'])
    if t:
        kw['valuation_date'] = o
    got = dcf.get_curve_fit([f], c, precision=v.const(0.1),
                            bounds=(-0.125, 0.125), **kw)
    v.le('fitted', got[0] - y - z, 0.1)
    v.le('fitted from below', y + z - got[0], 0.1)


@REG.harness()
def other_curve(v, dcf):
    """fitting the forward curve of floating flows"""
    o = v.const(ORIGIN)
    c = dcf.ZeroRateCurve([o], [v.const(0)])
    y, z = v.real('r', -0.05, 0.05), v.real('z', -0.05, 0.05)
    fw = dcf.CashRateCurve([v.const(1.25)], [y], origin=o,
                           forward_tenor=v.const(1))
    f = dcf.RateCashFlowList([v.const(1.25)], v.real('a', 0.5, 1),
                             origin=o, forward_curve=fw)
    pv = f.payoff(f.domain[0]).amount * (y + z)
    got = dcf.get_curve_fit([f], c, fitting_curve=fw, present_value=[pv],
                            precision=v.const(0.1), bounds=(-0.125, 0.125))
    v.le('fitted', got[0] - y - z, 0.1)
    v.le('fitted from below', y + z - got[0], 0.1)
    v.holds('no spread left', fw.spread is None and c.spread is None)
    v.eq('curve unchanged', fw(v.const(1.25)), y)


@REG.harness()
def out_of_bounds(v, dcf):
    """no fit between the bounds: an error, the curve as before"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    d = v.const(1.25)
    y, z = v.real('r', -0.05, 0.05), v.real('z', 0.15, 0.5)
    s = v.choice('side', [1, -1])
    c = cls([d], [y], origin=o)
    x = 1 - (y + s * z) * (d - o)
    v.raises('refused', (AssertionError, ValueError),
             lambda: dcf.get_curve_fit(bonds(v, dcf, [d]), c,
                                       present_value=[x],
                                       precision=v.const(0.1),
                                       bounds=(-0.125, 0.125)))
    v.holds('no spread left', c.spread is None)
    v.eq('curve unchanged', c(d), y)


@REG.harness()
def again(v, dcf):
    """curves fitted before do not matter: prices and curve are those of the
    moment"""
    cls = linear(dcf)
    o, d = v.const(ORIGIN), v.const(1.25)
    y, z, w = (v.real(n, -0.05, 0.05) for n in 'yzw')
    c = cls([d], [y], origin=o)
    cf = bonds(v, dcf, [d])
    kw = dict(precision=v.const(0.1), bounds=(-0.125, 0.125))

    def fit(z):
        return dcf.get_curve_fit(cf, c, present_value=[1 - z * (d - o)],
                                 **kw)[0]
    fit(y + z)
    got = fit(y + w)
    v.le('fitted', got - y - w, 0.1)
    v.le('fitted from below', y + w - got, 0.1)
    c[d] = z
    got = fit(z + w)
    v.le('after an update', got - z - w, 0.1)
    v.le('after an update from below', z + w - got, 0.1)
    v.eq('curve unchanged', c(d), z)
    v.holds('no spread left', c.spread is None)


@REG.harness(quick=['grid', 'default'])
def valued_later(v, dcf, k):
    """prices at another date than the curve's origin, fitted at dates that
    need not be points of the curve"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    xs = [v.const(0.75), v.const(2.25)]
    y, z = v.real('r', -0.05, 0.05), v.real('z', -0.05, 0.05)
    c = cls(xs, [y, y], origin=o)
    # the last fitted date is the maturity, an earlier one has no product
    gr = [v.const(0.625), v.const(2.0)] if k == 'grid' else xs
    d = gr[-1]
    t = v.const(v.choice('t', [-0.5, 0.0, 0.5, 0.75, 1.0]))
    f = dcf.FixedCashFlowList([d], [v.const(1)])
    kw = {'fitting_grid': gr} if k == 'grid' else {}
    if v.choice('keyword', [0, 1]):
        args, kw['valuation_date'] = (), t
    else:
        args = t,
    got = dcf.get_curve_fit([f], c, *args,
                            present_value=[1 - (y + z) * (d - t)],
                            precision=v.const(0.1), bounds=(-0.125, 0.125),
                            **kw)
    v.holds('one value per grid point', len(got) == 2)
    v.eq('no product', got[0], y)
    # the difference in value is that in rate times the time
    e = (got[1] - y - z) * (d - t)
    v.le('fitted', e, 0.1)
    v.le('fitted from below', -e, 0.1)
    v.eq('curve unchanged', c(xs[0]), y)
    v.holds('no spread left', c.spread is None)


@REG.harness(quick=['grid', 'curve'])
def any_order(v, dcf, k):
    """grids, curves and products in any order: one value per date in the
    order given, from the earliest on"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    ds = [v.const(x) for x in (1.25, 2.25)]
    y = v.real('r', -0.05, 0.05)
    zs = reals(v, 2, -0.04, 0.04, 'z')
    rev = v.choice('products', [1, -1])
    cf = bonds(v, dcf, ds)[::rev]
    pv = [1 - (y + z) * (d - o) for d, z in zip(ds, zs)][::rev]
    if k == 'grid':
        c, kw = cls([ds[0]], [y], origin=o), {'fitting_grid': ds[::-1]}
    else:
        c, kw = cls(ds[::-1], [y, y], origin=o), {}
    got = dcf.get_curve_fit(cf, c, present_value=pv, precision=v.const(0.05),
                            bounds=(-0.125, 0.125), **kw)
    v.holds('one value per grid point', len(got) == 2)
    v.le('first rate', got[1] - y - zs[0], 0.05)
    v.le('first rate from below', y + zs[0] - got[1], 0.05)
    # the fit at the last date values both products together
    e = (got[1] - y - zs[0]) * (ds[0] - o) + (got[0] - y - zs[1]) * (ds[1] - o)
    v.le('value', e, 0.05)
    v.le('value from below', -e, 0.05)
    v.holds('no spread left', c.spread is None)
    v.eq('curve unchanged', c(ds[0]), y)


@REG.harness(quick=['lin', 'const'])
def between(v, dcf, k):
    """flows between the grid points: the fitted values make a curve of the
    same interpolation that reprices"""
    cls = linear(dcf)
    if k == 'const':
        class Step(cls):
            _INTERPOLATION = dcf.interpolation.constant
        cls = Step
    o = v.const(ORIGIN)
    ds = [v.const(1.25), v.const(2.25)]
    ys = reals(v, 2, -0.03, 0.03, 'r')
    zs = reals(v, 2, -0.03, 0.03, 'z')
    c = cls(ds, ys, origin=o)
    true = cls(ds, [y + z for y, z in zip(ys, zs)], origin=o)
    cf = [dcf.FixedCashFlowList([ds[0]], [v.const(1)]),
          dcf.FixedCashFlowList([v.const(2.0), ds[1]],
                                [v.const(0.25), v.const(1)])]
    pv = [dcf.get_present_value(f, true) for f in cf]
    got = dcf.get_curve_fit(cf, c, present_value=pv, precision=v.const(0.05),
                            bounds=(-0.25, 0.25))
    fit = cls(ds, list(got), origin=o)
    err = 0
    for i, (f, x) in enumerate(zip(cf, pv)):
        err = err + dcf.get_present_value(f, fit) - x
        v.le('value', err, 0.05)
        v.le('value from below', -err, 0.05)
    v.holds('no spread left', c.spread is None)


@REG.harness(quick=['price', 'unsorted', 'negative'])
def products(v, dcf, k):
    """one price for several products, products with flows in any order,
    and products of negative value"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    n = 4 if k == 'price' else 2
    ds = [v.const(1.25 + i) for i in range(n)]
    y, z = v.real('r', -0.03, 0.03), v.real('z', -0.03, 0.03)
    c = cls(ds, [y] * n, origin=o)
    true = cls(ds, [y + z] * n, origin=o)
    if k == 'price':
        p = v.const(v.choice('p', [0.75, -2, 1]))
        cf = [dcf.FixedCashFlowList(
            [o, d], [p - 1 + (y + z) * (d - o), v.const(1)]) for d in ds]
        if v.choice('whole', [0, 1]) and p == 1:
            p = 1
        pv = p
    else:
        s = -1 if k == 'negative' else 1
        one, last = v.const(s), v.const(s * 0.25)
        cf = [dcf.FixedCashFlowList([ds[0]], [one]),
              dcf.FixedCashFlowList([ds[1], v.const(0.75), ds[0]],
                                    [one, last, last])
              if k == 'unsorted' else dcf.FixedCashFlowList([ds[1]], [one])]
        pv = [dcf.get_present_value(f, true) for f in cf]
    got = dcf.get_curve_fit(cf, c, present_value=pv, precision=v.const(0.05),
                            bounds=(-0.25, 0.25))
    v.holds('one value per grid point', len(got) == n)
    v.le('first rate', got[0] - y - z, 0.05)
    v.le('first rate from below', y + z - got[0], 0.05)
    fit = cls(ds, list(got), origin=o)
    for i in range(n):
        err = 0
        for j, f in enumerate(cf[:i + 1]):
            x = pv if k == 'price' else pv[j]
            err = err + dcf.get_present_value(f, fit) - x
        v.le('value', err, 0.05)
        v.le('value from below', -err, 0.05)
    v.holds('no spread left', c.spread is None)
    v.eq('curve unchanged', c(ds[0]), y)


@REG.harness(quick=[0, 1, 2])
def by_default(v, dcf, k):
    """seven digits by default, for rates from -10% to 20%"""
    z = (-0.09375, 0.0390625, 0.1875)[k]
    cls = linear(dcf)
    o = v.const(ORIGIN)
    ds = [o + 1, o + 2]
    c = cls(ds, [v.const(0.0), v.const(0.0)], origin=o)
    got = dcf.get_curve_fit(bonds(v, dcf, ds[:1]), c,
                            fitting_grid=[o + 1],
                            present_value=[v.const(1 - z)])
    v.eq('rate', got[0], z, 0.1)


@REG.harness(quick=[4, 6], thorough=[12])
def many(v, dcf, n):
    """grids of many points: one rate is searched for, the others are met"""
    cls = linear(dcf)
    o = v.const(ORIGIN)
    ds = [o + 1 + i / 2 for i in range(n)]
    ys = [((i * 5) % 7 - 3) / 128 for i in range(n)]
    z = v.real('z', -0.03, 0.03)
    k = n - v.choice('from the end', [1, 2])
    c = cls(ds, [v.const(y) for y in ys], origin=o)
    true = cls(ds, [y + z if i == k else v.const(y)
                    for i, y in enumerate(ys)], origin=o)
    cf = bonds(v, dcf, ds)
    pv = [dcf.get_present_value(f, true) for f in cf]
    r = list(range(n))
    r = v.choice('order', [r, r[::-1], r[1::2] + r[::2]])
    kw = {'fitting_grid': [ds[i] for i in r]} if v.choice('grid', [0, 1]) \
        else {}
    got = dcf.get_curve_fit([cf[i] for i in r], c,
                            present_value=[pv[i] for i in r],
                            precision=v.const(0.05), bounds=(-0.125, 0.125),
                            **kw)
    v.holds('one value per grid point', len(got) == n)
    got = [got[r.index(i)] if kw else got[i] for i in range(n)]
    for i in range(k):
        v.le('met', got[i] - ys[i], 0.05)
        v.le('met from below', ys[i] - got[i], 0.05)
    v.le('rate', got[k] - ys[k] - z, 0.05)
    v.le('rate from below', ys[k] + z - got[k], 0.05)
    fit = cls(ds, list(got), origin=o)
    err = 0
    for i in range(n):
        err = err + dcf.get_present_value(cf[i], fit) - pv[i]
        v.le('value', err, 0.05)
        v.le('value from below', -err, 0.05)
        v.eq('curve unchanged', c(ds[i]), ys[i])
