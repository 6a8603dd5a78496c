"""C16 fair rate: the fixed rate at which the flows are worth the given value"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import ORIGIN

REG = Registry('C16', bounds='1..3 rate flows (thorough 4) of either sign '
               'with symbolic dates, rates, forward rates and amounts (6..20 at fixed dates), '
               'discount factors by symbolic rates, valuation date before '
               'or between the flows; precision 0.05 and 0.01 (thorough 0.005)',
               opts_quick=dict(budget=150))


class Flat:
    """discount curve with one rate, known in closed form"""

    def __init__(self, v, origin, dfs):
        self.v, self.origin, self.dfs = v, origin, dfs

    def get_discount_factor(self, start, stop=None):
        for d, x in self.dfs:
            if d is stop:
                # whatever it is discounted to matters
                return x if start is self.origin else x * 0.75
        return self.v.const(1.0)


def setting(v, dcf, n, sign, k):
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    a = [v.real('a%d' % i, 0.5, 2) * sign for i in range(n)]
    dfs = [(d, v.real('d%d' % i, 0.5, 1)) for i, d in enumerate(ds)]
    c = Flat(v, v.const(ORIGIN), dfs)
    fwd = None if k == 'fixed' else v.real('f', -0.05, 0.05)
    r0 = v.real('r0', -0.05, 0.15)
    f = dcf.RateCashFlowList(ds, a, origin=v.const(ORIGIN), fixed_rate=r0,
                             forward_curve=fwd)
    return f, c, ds, r0


@REG.harness(quick=[(n, s, k, 0.05) for n in (1, 2) for s in (1, -1)
                    for k in ('fixed', 'float')] +
             [(3, 1, 'fixed', 0.05), (1, 1, 'fixed', 0.01)],
             thorough=[(3, -1, 'float', 0.05), (4, 1, 'float', 0.05),
                       (2, 1, 'float', 0.005)])
def reprices(v, dcf, p):
    """valued with the fair rate the flows are worth the present value"""
    n, s, k, prec = p
    f, c, ds, r0 = setting(v, dcf, n, s, k)
    lo, hi = -0.0625, 0.1875
    prec = v.const(prec)
    t = v.choice('t', [None, 'later', 'zero'])
    if t == 'later':
        if n == 1:
            t = ds[0] - 0.125
        else:
            t = ds[0] + 0.125
    elif t == 'zero':
        t = v.const(0)
    true = v.real('true', lo + 0.01, hi - 0.01)
    f.fixed_rate = true
    pv = dcf.get_present_value(f, c, t)
    f.fixed_rate = r0
    got = dcf.get_fair_rate(f, c, t, pv, precision=prec, bounds=(lo, hi))
    v.le('close to the true rate', got - true, prec)
    v.le('close to the true rate from below', true - got, prec)
    v.eq('fixed rates restored', f.fixed_rate, r0)
    f.fixed_rate = got
    v.le('value', dcf.get_present_value(f, c, t) - pv, prec)
    v.le('value from below', pv - dcf.get_present_value(f, c, t), prec)


@REG.harness(quick=[2, 3])
def mixed(v, dcf, n):
    """flows with different fixed rates: each one is restored"""
    f, c, ds, r0 = setting(v, dcf, n, 1, 'fixed')
    rs = reals(v, n, -0.05, 0.1, 'q')
    for d, r in zip(ds, rs):
        f.payoff(d).fixed_rate = r
    got = dcf.get_fair_rate(f, c, precision=v.const(0.05),
                            bounds=(-0.0625, 0.1875))
    v.le('zero value at zero rate', got, 0.05)
    v.le('zero value at zero rate from below', -got, 0.05)
    for d, r in zip(ds, rs):
        v.eq('restored', f.payoff(d).fixed_rate, r)


@REG.harness()
def out_of_bounds(v, dcf):
    """no solution within the bounds: an error, rates as before"""
    f, c, ds, r0 = setting(v, dcf, 1, 1, 'fixed')
    true = v.real('true', 0.1, 0.5)
    side = v.choice('side', [1, -1])
    f.fixed_rate = true * side
    pv = dcf.get_present_value(f, c)
    f.fixed_rate = r0
    v.raises('refused', (AssertionError, ValueError),
             lambda: dcf.get_fair_rate(f, c, present_value=pv,
                                       precision=v.const(0.05),
                                       bounds=(-0.0625, 0.0625)))
    v.eq('restored', f.fixed_rate, r0)


@REG.harness(quick=[1, 2])
def par(v, dcf, n):
    """fair rate times annuity is the given value"""
    f, c, ds, r0 = setting(v, dcf, n, 1, 'fixed')
    f = dcf.RateCashFlowList(ds, 1.0, origin=v.const(ORIGIN))
    pv = v.real('pv', 0, 0.02)
    prec = v.const(0.05)
    got = dcf.get_fair_rate(f, c, present_value=pv, precision=prec,
                            bounds=(-0.0625, 0.1875))
    ann, s = 0, v.const(ORIGIN)
    for d, x in c.dfs:
        ann, s = ann + (d - s) * x, d
    v.le('fair rate times annuity', got * ann - pv, prec * ann)
    v.le('fair rate times annuity from below', pv - got * ann, prec * ann)


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve'])
def swap(v, dcf, cls):
    """a fair swap rate of a curve: the fixed flows are worth the telescoping
    discount factors"""
    k = v.real('k', 0.01, 0.1)
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    c = dcf.ZeroRateCurve([ds[0]], [k], origin=v.const(ORIGIN))
    if cls[0] == 'D':
        c = dcf.DiscountFactorCurve(
            ds, [c.get_discount_factor(d) for d in ds],
            origin=v.const(ORIGIN))
    f = dcf.RateCashFlowList(ds, 1.0, origin=v.const(ORIGIN))
    pv = 1 - c.get_discount_factor(ds[-1])
    prec = v.const(0.1)
    got = dcf.get_fair_rate(f, c, present_value=pv, precision=prec,
                            bounds=(-0.0625, 0.3125))
    v.le('between the bounds', got, 0.3125)
    ann = c.get_swap_annuity([v.const(ORIGIN)] + ds)
    v.le('fair rate times annuity', got * ann - pv, prec * ann)


@REG.harness()
def again(v, dcf):
    """rates asked for before do not matter: value and forward rate are
    those of the moment"""
    f, c, ds, r0 = setting(v, dcf, 1, 1, 'float')
    kw = dict(precision=v.const(0.1), bounds=(-0.0625, 0.1875))
    lo, hi = -0.05, 0.175
    a, b = v.real('ta', lo, hi), v.real('tb', lo, hi)

    def value(x):
        f.fixed_rate = x
        r = dcf.get_present_value(f, c)
        f.fixed_rate = r0
        return r
    pa, pb = value(a), value(b)
    dcf.get_fair_rate(f, c, present_value=pa, **kw)
    got = dcf.get_fair_rate(f, c, present_value=pb, **kw)
    v.le('close to the true rate', got - b, 0.1)
    v.le('close to the true rate from below', b - got, 0.1)
    f.forward_curve = f.forward_curve + 0.01
    got = dcf.get_fair_rate(f, c, present_value=value(a), **kw)
    v.le('other forward', got - a, 0.1)
    v.le('other forward from below', a - got, 0.1)
    v.eq('fixed rate', f.fixed_rate, r0)


@REG.harness(quick=[(4, 'fixed'), (6, 'fixed'), (9, 'float')], thorough=[(20, 'fixed')])
def many(v, dcf, p):
    """the same for many flows at fixed dates and factors"""
    n, k = p
    x = v.const(ORIGIN)
    ds = [x + 0.5]
    for i in range(n - 1):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    dfs = [(d, v.const(1 - i / 64)) for i, d in enumerate(ds)]
    am = [v.const((-1) ** i * (1 + i / 4) + 2) for i in range(n)]
    f = dcf.RateCashFlowList(
        ds, am, origin=x, fixed_rate=v.const(0.0625),
        forward_curve=None if k == 'fixed' else v.real('f', -0.05, 0.05))
    c = Flat(v, x, dfs)
    true = v.real('true', -0.05, 0.175)
    f.fixed_rate = true
    pv = dcf.get_present_value(f, c)
    for i, d in enumerate(ds):
        f.payoff(d).fixed_rate = v.const(i / 128)
    w = v.choice('result', ['found', 'none'])
    kw = dict(precision=v.const(0.05), bounds=(-0.0625, 0.1875))
    if w == 'found':
        got = dcf.get_fair_rate(f, c, present_value=pv, **kw)
        v.le('close to the true rate', got - true, 0.05)
        v.le('close to the true rate from below', true - got, 0.05)
    else:
        v.raises('refused', (AssertionError, ValueError),
                 lambda: dcf.get_fair_rate(
                     f, c, present_value=pv + v.const(2 ** 10), **kw))
    for i, d in enumerate(ds):
        v.eq('restored', f.payoff(d).fixed_rate, i / 128)


@REG.harness(quick=[24, 32, 40], thorough=[48])
def precise(v, dcf, k):
    """to high precision, or for large amounts"""
    prec = 2.0 ** -k
    o = v.const(ORIGIN)
    true = 0.0371 + v.real('true', 0, 4 * prec)
    big = v.choice('amount', [1, 2 ** 10])
    f = dcf.RateCashFlowList([o + 1], big, origin=o,
                             fixed_rate=v.const(0.03125))
    c = Flat(v, o, [(f.domain[0], v.const(0.75))])
    got = dcf.get_fair_rate(f, c, present_value=true * big * 0.75,
                            precision=v.const(prec * big),
                            bounds=(-0.0625, 0.1875))
    v.le('close to the true rate', (got - true) / prec, 2)
    v.le('close to the true rate from below', (true - got) / prec, 2)
    v.eq('restored', f.payoff(f.domain[0]).fixed_rate, 0.03125)


@REG.harness(quick=[0, 1, 2])
def by_default(v, dcf, k):
    """seven digits by default, for rates from -10% to 20%"""
    y = v.const((-0.09375, 0.0390625, 0.1875)[k])
    o = v.const(ORIGIN)
    ds = [o + 1, o + 2]
    f = dcf.RateCashFlowList(ds, [v.const(1), v.const(2)], origin=o,
                             fixed_rate=v.const(0.25))
    c = Flat(v, o, [(ds[0], v.const(0.75)), (ds[1], v.const(0.5))])
    got = dcf.get_fair_rate(f, c, present_value=y * 1.75)
    v.eq('rate', got, y, 0.1)
