"""C13 present value: discounted sum of the flows from the valuation date on"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import ORIGIN

REG = Registry('C13', bounds='1..3 flows (thorough 5) per list at symbolic '
               'dates, 9..21 (thorough 70) at fixed ones, 1..3 legs (many '
               'with one flow each), valuation date anywhere (also on a payment '
               'date), discount curves with 2 points')


def curve(v, dcf, cls='ZeroRateCurve'):
    xs = grid(v, 2, 0.5, 2, 0.5, 3, 'c')
    ys = reals(v, 2, -0.05, 0.1, 'r') if cls[0] == 'Z' else \
        reals(v, 2, 0.6, 0.95, 'r')
    return getattr(dcf, cls)(xs, ys, origin=v.const(ORIGIN))


def valuation(v, ds):
    k = v.choice('valuation', ['anywhere', 'first', 'last'])
    return v.real('t', 0, 6) if k == 'anywhere' else \
        ds[0] if k == 'first' else ds[-1]


def pv(c, ds, amounts, t):
    w = 0
    for d, a in zip(ds, amounts):
        if d >= t:
            w = w + a * c.get_discount_factor(t, d)
    return w


def seq(v):
    return v.choice('seq', [list, tuple])


@REG.harness(quick=[(c, n) for c in ('ZeroRateCurve', 'DiscountFactorCurve')
                    for n in (1, 2, 3)], thorough=[('ZeroRateCurve', 5)])
def fixed(v, dcf, p):
    """flows before the valuation date do not count, others discounted to it"""
    cls, n = p
    c = curve(v, dcf, cls)
    ds = grid(v, n, 0, 2, 0.125, 2)
    am = reals(v, n, -100, 100, 'a')
    t = valuation(v, ds)
    s = seq(v)
    f = dcf.FixedCashFlowList(s(ds), s(am))
    want = pv(c, ds, am, t)
    v.eq('present value', dcf.get_present_value(f, c, t), want, 100)
    g = dcf.CashFlowList(s(ds), s(am), origin=v.const(0))
    v.eq('plain list', dcf.get_present_value(g, c, t), want, 100)
    v.eq('keyword', dcf.get_present_value(
        cashflow_list=g, discount_curve=c, valuation_date=t), want, 100)
    v.eqs('flows unchanged', f[f.domain], am, 100)


@REG.harness(quick=[2, 3])
def default_date(v, dcf, n):
    """without valuation date: the origin of the curve, also the date zero"""
    k = v.choice('origin', ['given', 'first', 'zero'])
    ds = grid(v, n, -1, 2, 0.125, 2)
    am = reals(v, n, -100, 100, 'a')
    o = v.const(0) if k == 'zero' else v.const(ORIGIN)
    w = -0.5 if k != 'first' and v.choice('before', [0, 1]) else 1
    xs = [o if k == 'first' else o + w, o + 3]
    c = dcf.ZeroRateCurve(xs, reals(v, 2, -0.05, 0.1, 'r'),
                          **({} if k == 'first' else {'origin': o}))
    f = dcf.FixedCashFlowList(ds, am, origin=ds[0])
    v.eq('origin of the curve', dcf.get_present_value(f, c),
         pv(c, ds, am, o), 100)
    z = v.const(0)
    v.eq('date zero', dcf.get_present_value(f, c, z), pv(c, ds, am, z), 100)


@REG.harness(quick=[1, 2, 3])
def linear(v, dcf, n):
    """linear in the amounts"""
    c = curve(v, dcf)
    ds = grid(v, n, 0, 2, 0.125, 2)
    a, b = reals(v, n, -100, 100, 'a'), reals(v, n, -100, 100, 'b')
    k = v.real('k', -3, 3)
    t = valuation(v, ds)

    def val(x):
        return dcf.get_present_value(dcf.FixedCashFlowList(ds, x), c, t)
    v.eq('linear', val([x + k * y for x, y in zip(a, b)]),
         val(a) + k * val(b), 1000)


@REG.harness(quick=[(1, 1), (2, 1), (2, 2), (1, 1, 1)],
             thorough=[(3, 1), (3, 2), (2, 2, 2)])
def legs(v, dcf, ns):
    """a list of legs is worth the sum of its legs, nested or not"""
    c = curve(v, dcf)
    ls, want = [], 0
    own = ['own', 'shared'] if sum(ns) < 4 else ['shared']
    shared = v.choice('dates', own)
    ds0 = grid(v, max(ns), 0, 2, 0.125, 2)
    t = valuation(v, ds0) if sum(ns) < 4 else v.real('t', 0, 6)
    for i, n in enumerate(ns):
        ds = ds0[:n] if shared == 'shared' else \
            grid(v, n, 0, 2, 0.125, 2, 'l%d' % i)
        am = reals(v, n, -100, 100, 'a%d' % i)
        cls = v.choice('leg', ['fixed', 'rate']) if i == 0 else 'fixed'
        if cls == 'fixed':
            ls.append(dcf.FixedCashFlowList(ds, am))
        else:
            ls.append(dcf.RateCashFlowList(
                ds, am, origin=v.const(-0.5), fixed_rate=v.const(0.03)))
        want = want + pv(c, ds, list(ls[-1][tuple(ds)]), t)
    l = dcf.CashFlowLegList(ls)
    v.eq('sum of legs', dcf.get_present_value(l, c, t), want, 300)
    if len(ls) > 1:
        l = dcf.CashFlowLegList([dcf.CashFlowLegList(ls[:1])] + ls[1:])
        v.eq('nested', dcf.get_present_value(l, c, t), want, 300)


@REG.harness(quick=[(k, n) for k in ('number', 'curve') for n in (1, 2)],
             thorough=[('curve', 3)])
def rates(v, dcf, p):
    """rate flows are valued with the amounts they pay"""
    k, n = p
    c = curve(v, dcf)
    ds = grid(v, n, 0.5, 2, 0.125, 2)
    am = reals(v, n, -100, 100, 'a')
    t = valuation(v, ds)
    fwd = v.real('f', -0.05, 0.1) if k == 'number' else \
        dcf.CashRateCurve([v.const(0), v.const(3)],
                          reals(v, 2, -0.05, 0.1, 'f'), forward_tenor=0.5)
    f = dcf.RateCashFlowList(ds, am, origin=v.const(0.25),
                             fixed_rate=v.real('x', -0.05, 0.1),
                             forward_curve=fwd)
    v.eq('present value', dcf.get_present_value(f, c, t),
         pv(c, ds, list(f[tuple(ds)]), t), 100)


@REG.harness(quick=[(m, k) for m in ('NormalOptionPayOffModel',
                                     'IntrinsicOptionPayOffModel')
                    for k in ('option', 'strategy', 'rate')])
def options(v, dcf, p):
    """option flows are evaluated as of the valuation date"""
    m, kind = p
    n = 2
    c = dcf.ZeroRateCurve([v.const(0)], reals(v, 1, 0, 0.1, 'r'))
    t = v.real('t', 0, 0.5)
    ds = [t + v.real('e0', 0.1, 1)]
    ds.append(ds[0] + v.real('e1', 0.1, 1))
    old = v.choice('old', [None, 7.5, 'later'])
    old = t + 9 if old == 'later' else old
    fwd, vol = v.real('f', 0.5, 1), v.real('vol', 0.1, 0.5)
    k = v.real('k', 0.5, 1)

    def model(d):
        return getattr(dcf.models, m)(valuation_date=d, forward_curve=lambda x: fwd,
                               volatility_curve=lambda x: vol)
    md = model(old)

    def cf(md):
        if kind == 'option':
            return dcf.OptionCashflowList(ds, [10, -5], [k, k],
                                          payoff_model=md)
        if kind == 'strategy':
            return dcf.OptionStrategyCashflowList(
                ds, call_amount_list=[3, -3], call_strike_list=[k, k + 1],
                payoff_model=md)
        return dcf.ContingentRateCashFlowList(
            ds, [10, -5], origin=t, cap_strike=k, floor_strike=k,
            fixed_rate=0.1, payoff_model=md)
    f = cf(md)
    g = cf(model(t))
    v.eq('valued at the valuation date', dcf.get_present_value(f, c, t),
         pv(c, ds, [g[d] for d in ds], t), 10)
    v.holds('model date restored', md.valuation_date is old or
            md.valuation_date == old)
    l = dcf.CashFlowLegList([cf(model(old)), cf(model(old))])
    v.eq('legs', dcf.get_present_value(l, c, t),
         2 * pv(c, ds, [g[d] for d in ds], t), 20)


@REG.harness()
def nothing(v, dcf):
    """no flow, no value; contingent flows without model"""
    c = curve(v, dcf)
    t = v.real('t', 0, 6)
    v.eq('empty', dcf.get_present_value(dcf.FixedCashFlowList([]), c, t), 0)
    d = v.real('d', 0, 5)
    a = v.real('a', -10, 10)
    v.eq('past', dcf.get_present_value(
        dcf.FixedCashFlowList([t - 0.0625], [a]), c, t), 0, 10)
    f = dcf.ContingentCashFlowList([d], [lambda *_: a])
    v.eq('no model', dcf.get_present_value(f, c, t), pv(c, [d], [a], t), 10)


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve'])
def calendar(v, dcf, cls):
    t0 = v.date(0)
    ys = reals(v, 2, 0.9, 0.99) if cls[0] == 'D' else reals(v, 2, 0, 0.1)
    c = getattr(dcf, cls)([v.date(30), v.date(400)], ys, origin=t0)
    offs = v.choice('ds', [(0, 90, 180), (35, 400), (10, 40, 800)])
    ds = [v.date(d) for d in offs]
    am = reals(v, len(ds), -100, 100, 'a')
    t = v.date(v.choice('t', [0, 20, 90, 400, 500]))
    f = dcf.FixedCashFlowList(ds, am)
    v.eq('present value', dcf.get_present_value(f, c, t),
         pv(c, ds, am, t), 100)


@REG.harness(quick=['fixed', 'plain', 'rate', 'legs', 'floating'])
def again(v, dcf, k):
    """values asked for before, at other dates or with other curves, do not
    matter; curves and rates are those of the moment"""
    o = v.const(0)
    x = v.const(1)
    r, q = v.real('r', 0, 0.1), v.real('q', 0, 0.1)
    c = dcf.ZeroRateCurve([x], [r], origin=o)
    d = dcf.ZeroRateCurve([x], [q], origin=o)
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    am = reals(v, 2, -10, 10, 'a')
    g = v.real('g', -0.05, 0.1)
    if k == 'fixed':
        f = dcf.FixedCashFlowList(ds, am)
    elif k == 'plain':
        f = dcf.CashFlowList(ds, am)
    elif k == 'floating':
        f = dcf.RateCashFlowList(ds, am, origin=o, forward_curve=g)
    else:
        f = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=g)
    l = dcf.CashFlowLegList([f, f]) if k == 'legs' else f
    m = 2 if k == 'legs' else 1
    t, u = v.real('t', 0, 3), v.real('u', 0, 3)

    def flows(g):
        if k in ('fixed', 'plain'):
            return am
        return [g * (e - s) * a
                for s, e, a in zip([o] + ds, ds, am)]

    def want(r, t, g):
        w = 0
        for e, a in zip(ds, flows(g)):
            if e >= t:
                w = w + m * a * v.exp(-r * (e - t))
        return w
    pv = dcf.get_present_value
    pv(l, c, u), pv(l, d, t), pv(l, c)
    v.eq('present value', pv(l, c, t), want(r, t, g), 10)
    v.eq('other curve', pv(l, d, t), want(q, t, g), 10)
    v.eq('other date', pv(l, c, u), want(r, u, g), 10)
    v.eq('origin', pv(l, c), want(r, o, g), 10)
    c[x] = q
    v.eq('after an update', pv(l, c, t), want(q, t, g), 10)
    b = v.real('b', -0.01, 0.01)
    c.spread = dcf.DateCurve([0.0], [b], origin=0.0)
    v.eq('with spread', pv(l, c, t), want(q + b, t, g), 10)
    c.spread = None
    n = v.real('n', -0.05, 0.1)
    if k == 'floating':
        f.forward_curve = n
    elif k in ('rate', 'legs'):
        f.fixed_rate = n
    v.eq('with another rate', pv(l, c, t), want(q, t, n), 10)


@REG.harness(quick=['IntrinsicOptionPayOffModel', 'NormalOptionPayOffModel'])
def option_dates(v, dcf, m):
    """option flows valued at several dates one after the other"""
    c = dcf.ZeroRateCurve([v.const(0)], [v.real('r', 0, 0.1)])
    e = v.real('e', 1, 2)
    f, k = v.real('f', 0.5, 1), v.real('k', 0.5, 1)
    w = v.real('vol', 0.1, 0.5)

    def model(d):
        return getattr(dcf.models, m)(d, lambda x: f, lambda x: w)
    md = model(v.const(0))
    p = dcf.OptionCashflowList([e], 10.0, k, payoff_model=md)
    g = dcf.FixedCashFlowList([e], [v.real('a', -1, 1)])
    l = dcf.CashFlowLegList([g, p]) if v.choice('legs', [False, True]) else p
    t, u = v.real('t', 0, 0.75), v.real('u', 0, 0.75)

    def want(d):
        x = dcf.OptionCashflowList([e], 10.0, k, payoff_model=model(d))[e]
        if l is not p:
            x = x + g[e]
        return x * c.get_discount_factor(d, e)
    pv = dcf.get_present_value
    first = p[e]
    v.eq('one date', pv(l, c, t), want(t), 10)
    v.eq('another date', pv(l, c, u), want(u), 10)
    v.eq('and back', pv(l, c, t), want(t), 10)
    v.eq('flow', p[e], first, 10)
    v.eq('date of the model', md.valuation_date, 0)


@REG.harness(quick=[(9, 'fixed'), (21, 'fixed'), (9, 'plain'), (9, 'rate'),
                    (9, 'legs'), (12, 'nested')],
             thorough=[(70, 'fixed'), (40, 'rate'), (40, 'legs')])
def many(v, dcf, p):
    """the same for many flows at fixed distances, or many legs"""
    n, kind = p
    x = v.const(ORIGIN)
    c = dcf.ZeroRateCurve([x + 1, x + 4], reals(v, 2, -0.05, 0.1, 'r'),
                          origin=x)
    ds = [x]
    for i in range(n):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    ds = ds[1:]
    am = reals(v, n, -100, 100, 'a')
    i = v.choice('i', [0, 1, n // 2, n - 2, n - 1])
    t = v.choice('t', [ds[i], ds[i] - 0.125, x])
    if kind == 'fixed':
        f = dcf.FixedCashFlowList(ds, am)
    elif kind == 'plain':
        f = dcf.CashFlowList(ds, am, origin=x)
    elif kind == 'rate':
        f = dcf.RateCashFlowList(ds, am, origin=x,
                                 fixed_rate=v.real('k', 0.01, 0.1))
    elif kind == 'legs':
        f = dcf.CashFlowLegList([dcf.FixedCashFlowList([d], [a])
                                 for d, a in zip(ds, am)])
    else:
        f = dcf.FixedCashFlowList(ds[:1], am[:1])
        for d, a in zip(ds[1:], am[1:]):
            f = dcf.CashFlowLegList([f, dcf.FixedCashFlowList([d], [a])])
    if kind == 'rate':
        am = [a * f.fixed_rate * (e - s)
              for a, s, e in zip(am, [x] + ds, ds)]
    v.eq('present value', dcf.get_present_value(f, c, t),
         pv(c, ds, am, t), 1000)


@REG.harness(quick=[2, 3, 4, 6], thorough=[12])
def same_dates(v, dcf, n):
    """legs with flows at the same dates, or the same leg several times"""
    x = v.const(ORIGIN)
    c = dcf.ZeroRateCurve([x + 1], reals(v, 1, -0.05, 0.1, 'r'), origin=x)
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    a, b = reals(v, n, -100, 100, 'a'), reals(v, n, -100, 100, 'b')
    ls = [dcf.FixedCashFlowList(ds, [p, q]) for p, q in zip(a, b)]
    twice = v.choice('twice', [0, 1])
    if twice:
        ls[-1] = ls[0]
        a, b = a[:-1] + a[:1], b[:-1] + b[:1]
    t = v.choice('t', [x, ds[0], ds[1]])
    want = 0
    for p, q in zip(a, b):
        want = want + pv(c, ds, [p, q], t)
    v.eq('present value', dcf.get_present_value(
        dcf.CashFlowLegList(ls), c, t), want, 1000)
