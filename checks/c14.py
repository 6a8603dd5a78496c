"""C14 pricing leaves flows, curves and models as they were"""
from engine.api import Registry
from checks.common import grid, reals
from checks.c07 import ORIGIN

REG = Registry('C14', bounds='2 flows per leg, 1..2 legs, up to 6 (thorough 12) nested, curves with 2..6 '
               'points, optional spread before; a failure of the discount '
               'curve, the forward curve or the day count at the 1st .. 4th '
               'evaluation (thorough 8th)')

PRICERS = ('get_present_value', 'get_yield_to_maturity',
           'get_interest_accrued', 'get_fair_rate', 'get_basis_point_value',
           'get_bucketed_delta', 'get_curve_fit')
BUMPS = 'get_basis_point_value', 'get_bucketed_delta'


class Boom(Exception):
    pass


class Fuse:
    """fails at the k-th use"""

    def __init__(self, k):
        self.k = k

    def __call__(self):
        if self.k is not None:
            self.k -= 1
            if self.k == 0:
                raise Boom()


def setting(v, dcf, fail, where, spread):
    fuse = Fuse(None)
    xs = [v.const(1), v.const(3)]
    ys = reals(v, 2, 0.01, 0.05, 'r')
    c = dcf.ZeroRateCurve(xs, ys, origin=v.const(ORIGIN))
    if spread:
        c.spread = dcf.DateCurve([v.const(ORIGIN)], [v.real('s', 0, 0.01)])
    ds = [v.const(1.0), v.const(2.0)]
    am = reals(v, 2, 0.5, 1, 'a')
    f0 = v.real('f', 0.01, 0.03)

    def fwd(x):
        if where == 'forward':
            fuse()
        return f0

    def dc(s, e):
        if where == 'day count':
            fuse()
        return e - s
    r0, r1 = v.real('q0', 0, 0.05), v.real('q1', 0, 0.05)
    leg = dcf.RateCashFlowList(ds, am, origin=v.const(ORIGIN), day_count=dc,
                               forward_curve=fwd)
    for d, r in zip(ds, (r0, r1)):
        leg.payoff(d).fixed_rate = r
    if where == 'discount':
        df = c.get_discount_factor

        def bad(*a, **k):
            fuse()
            return df(*a, **k)
        c.get_discount_factor = bad
    return c, xs, ys, ds, am, leg, fuse, (r0, r1)


def call(v, dcf, fn, leg, c, t):
    """every pricing function, with tolerances that end after a few steps"""
    if fn == 'get_present_value':
        return dcf.get_present_value(leg, c, t)
    if fn == 'get_yield_to_maturity':
        return dcf.get_yield_to_maturity(
            leg, t, v.const(0.5), precision=v.const(0.5), bounds=(0., 0.5))
    if fn == 'get_interest_accrued':
        return dcf.get_interest_accrued(leg, t)
    if fn == 'get_fair_rate':
        return dcf.get_fair_rate(leg, c, t, v.const(0.02),
                                 precision=v.const(0.25), bounds=(-1., 1.))
    if fn == 'get_basis_point_value':
        return dcf.get_basis_point_value(leg, c, t, shift=v.const(0.001))
    if fn == 'get_bucketed_delta':
        return dcf.get_bucketed_delta(leg, c, t, shift=v.const(0.001))
    return dcf.get_curve_fit([leg], c, t, present_value=[v.const(0.03)],
                             precision=v.const(0.25), bounds=(-0.5, 0.5))


def same(v, c, xs, ys, ds, am, leg, rs, spread):
    if spread:
        v.holds('spread as before', c.spread is spread[0])
        s = spread[1]
        v.eq('spread value as before', spread[0](xs[0]), s)
    else:
        v.holds('no spread as before', c.spread is None)
        s = 0
    v.holds('points as before', len(c.domain) == len(xs))
    for x, y in zip(xs, ys):
        v.eq('curve as before', c(x), y + s)
    v.holds('flows as before', tuple(leg.domain) == tuple(ds))
    for d, a, r in zip(ds, am, rs):
        v.eq('amount as before', leg.payoff(d).amount, a)
        v.eq('fixed rate as before', leg.payoff(d).fixed_rate, r)


@REG.harness(quick=[(f, s) for f in PRICERS for s in (False, True)
                    if not (s and f == 'get_curve_fit')])
def success(v, dcf, p):
    """after a result"""
    fn, s = p
    c, xs, ys, ds, am, leg, fuse, rs = setting(v, dcf, None, None, s)
    sp = (c.spread, c.spread(xs[0])) if s else None
    t = v.choice('t', [0.25, 0.75])
    t = v.const(t)
    flows = list(leg[tuple(ds)])
    try:
        call(v, dcf, fn, leg, c, t)
    except TypeError:
        # a curve with a spread refuses another one
        v.holds('refused', s and fn in BUMPS)
    except AssertionError:
        v.holds('not solvable', fn in ('get_yield_to_maturity',
                                       'get_fair_rate', 'get_curve_fit'))
    same(v, c, xs, ys, ds, am, leg, rs, sp)
    for d, x in zip(ds, flows):
        v.eq('flow as before', leg[d], x)


@REG.harness(quick=[(f, w, k) for f in PRICERS
                    for w in ('forward', 'discount', 'day count')
                    for k in (1, 2, 3, 4)],
             thorough=[(f, w, k) for f in PRICERS
                       for w in ('forward', 'discount', 'day count')
                       for k in (5, 6, 7, 8)])
def failure(v, dcf, p):
    """after an error in a curve or day count"""
    fn, w, k = p
    s = fn != 'get_curve_fit' and v.choice('spread', [False, True])
    c, xs, ys, ds, am, leg, fuse, rs = setting(v, dcf, k, w, s)
    sp = (c.spread, c.spread(xs[0])) if s else None
    t = v.const(0.75)
    fuse.k = k
    try:
        call(v, dcf, fn, leg, c, t)
    except (Boom, AssertionError):
        pass
    except TypeError:
        v.holds('refused', s and fn in BUMPS)
    fuse.k = None
    same(v, c, xs, ys, ds, am, leg, rs, sp)


@REG.harness(quick=[(k, w) for k in ('option', 'rate')
                    for w in (None, 'forward', 'volatility', 'discount')])
def model(v, dcf, p):
    """the valuation date of an option model is back afterwards"""
    kind, w = p
    fuse = Fuse(None)
    old = v.choice('old', [None, 0.125, 9.5])
    fv, vv = v.real('f', 0.01, 0.05), v.real('vol', 0.1, 0.4)

    def fwd(x):
        if w == 'forward':
            fuse()
        return fv

    def vol(x):
        if w == 'volatility':
            fuse()
        return vv
    fn = v.choice('fn', ['pv', 'bpv', 'delta'] +
                  (['fair'] if kind == 'rate' else []))
    m = getattr(dcf.models, ('Intrinsic' if fn == 'fair' else 'Normal') +
                'OptionPayOffModel')(
        valuation_date=old, forward_curve=fwd, volatility_curve=vol)
    c = dcf.ZeroRateCurve([v.const(ORIGIN)], reals(v, 1, 0, 0.1, 'r'))
    if w == 'discount':
        df = c.get_discount_factor

        def bad(*a, **k):
            fuse()
            return df(*a, **k)
        c.get_discount_factor = bad
    ds = [v.const(1.0), v.const(2.0)]
    if kind == 'option':
        f = dcf.OptionCashflowList(ds, [1, 2], [0.02, 0.03], payoff_model=m)
    else:
        f = dcf.ContingentRateCashFlowList(
            ds, [1, 2], origin=v.const(ORIGIN), cap_strike=0.02,
            floor_strike=0.03, payoff_model=m)
    k = v.choice('k', [1, 2, 3]) if w else None
    fuse.k = k
    try:
        if fn == 'pv':
            dcf.get_present_value(f, c, v.const(ORIGIN))
        elif fn == 'bpv':
            dcf.get_basis_point_value(f, c, v.const(ORIGIN),
                                      shift=v.const(0.001))
        elif fn == 'delta':
            dcf.get_bucketed_delta(f, c, v.const(ORIGIN), shift=v.const(0.001))
        else:
            dcf.get_fair_rate(f, c, v.const(ORIGIN), precision=v.const(99),
                              bounds=(-2., 2.))
        if w:
            v.holds('failed', fuse.k > 0)
    except Boom:
        pass
    v.holds('valuation date as before',
            m.valuation_date is old or m.valuation_date == old)
    v.holds('curves as before', m.forward_curve is fwd and
            m.volatility_curve is vol and f.payoff_model is m)
    v.holds('no spread', c.spread is None)


@REG.harness(quick=['get_basis_point_value', 'get_bucketed_delta'])
def several_curves(v, dcf, fn):
    """spreads of every shifted curve are back, also the given ones"""
    fuse = Fuse(None)
    c = dcf.ZeroRateCurve([v.const(ORIGIN)], reals(v, 1, 0, 0.1, 'r'))
    d = dcf.CashRateCurve([v.const(ORIGIN)], reals(v, 1, 0, 0.1, 'c'),
                          forward_tenor=v.const(1))
    sc = v.choice('spread', [None, 'given'])
    sd = v.choice('spread of second', [None, 'given'])
    if sc:
        sc = c.spread = dcf.DateCurve([v.const(ORIGIN)], [v.const(0.01)])
    if sd:
        sd = d.spread = dcf.DateCurve([v.const(ORIGIN)], [v.const(0.02)])

    def dc(s, e):
        fuse()
        return e - s
    ds = [v.const(1.25), v.const(2.25)]
    leg = dcf.RateCashFlowList(ds, reals(v, 2, 0, 1, 'a'),
                               origin=v.const(ORIGIN), day_count=dc,
                               forward_curve=d)
    dl = v.choice('curves', [(c, d), (d, c), (d,), [c, d]])
    fuse.k = v.choice('k', [None, 1, 2, 3, 4, 5])
    try:
        getattr(dcf, fn)(leg, c, delta_curve=dl, shift=v.const(0.001))
    except Boom:
        pass
    except TypeError:
        v.holds('refused', sc is not None or sd is not None)
    v.holds('first', c.spread is sc)
    v.holds('second', d.spread is sd)



@REG.harness(quick=PRICERS)
def lists(v, dcf, fn):
    """points, dates, grids and prices given as lists, in any order, stay
    what they are"""
    perm = v.choice('order', [[2, 0, 1], [1, 0, 2], [2, 1, 0]])
    at = [v.const(x) for x in (0.75, 1.5, 3)]
    xs = [at[i] for i in perm]
    solve = fn in ('get_yield_to_maturity', 'get_fair_rate', 'get_curve_fit')
    ys = [v.const(x) for x in (0.01, 0.03, 0.02)] if solve else \
        reals(v, 3, 0.01, 0.05, 'r')
    own = v.choice('origin', [None, ORIGIN])
    c = dcf.ZeroRateCurve(xs, ys,
                          origin=None if own is None else v.const(own))
    o = c.origin
    q = v.const(1.125)
    yq = c(q)
    ds = [at[2], at[1]] if v.choice('dates', [0, 1]) else [at[1], at[2]]
    am = [v.const(0.5), v.real('a1', 0.5, 1)]
    leg = dcf.FixedCashFlowList(ds, am) if 'fair' not in fn and \
        'accrued' not in fn else dcf.RateCashFlowList(
            ds, am, origin=v.const(0.5), fixed_rate=v.const(0.03))
    flows = [leg[d] for d in ds]
    grid = [at[2], at[0]]
    t = v.const(0.75)
    legs, pv = [leg], [v.const(0.5)]
    one = fn == 'get_curve_fit' and v.choice('one price', [0, 1])
    if fn == 'get_curve_fit':
        legs.append(dcf.FixedCashFlowList([at[0]], [v.const(0.5)]))
        pv.append(v.const(0.25))
    legs0, pv0 = list(legs), list(pv)
    try:
        if fn == 'get_bucketed_delta' and v.choice('grid', [0, 1]):
            dcf.get_bucketed_delta(leg, c, t, delta_grid=grid,
                                   shift=v.const(0.001))
        elif fn == 'get_curve_fit':
            dcf.get_curve_fit(legs, c, t, fitting_grid=grid,
                              present_value=0.5 if one else pv,
                              precision=v.const(0.25),
                              bounds=(-0.5, 0.5))
        else:
            call(v, dcf, fn, leg, c, t)
    except AssertionError:
        v.holds('not solvable', fn in ('get_yield_to_maturity',
                                       'get_fair_rate', 'get_curve_fit'))
    v.holds('points as before', list(c.domain) == xs)
    v.holds('origin as before', c.origin is o or c.origin == o)
    v.eq('curve as before', c(q), yq)
    for x, y in zip(xs, ys):
        v.eq('value as before', c(x), y)
    v.holds('list of points as before',
            all(a is at[i] for a, i in zip(xs, perm)) and len(xs) == 3)
    v.holds('list of values as before', len(ys) == 3)
    v.holds('grid as before', grid[0] is at[2] and grid[1] is at[0])
    v.holds('arguments as before', all(
        x is y for x, y in zip(legs + pv, legs0 + pv0)) and
            len(legs + pv) == len(legs0 + pv0))
    v.holds('dates as before', tuple(leg.domain) == tuple(ds))
    for d, x in zip(ds, flows):
        v.eq('flow as before', leg[d], x)


@REG.harness(quick=[(f, n) for f in ('get_present_value',
                                     'get_basis_point_value',
                                     'get_bucketed_delta') for n in (3, 6)],
             thorough=[(f, 12) for f in ('get_present_value',
                                         'get_bucketed_delta')])
def nested(v, dcf, p):
    """legs in legs with models of different valuation dates, long curves"""
    fn, n = p
    fuse = Fuse(None)
    o = v.const(ORIGIN)
    fv = v.real('f', 0.01, 0.05)
    ds = [o + 0.75 + i / 2 for i in range(n)]
    c = dcf.ZeroRateCurve(ds, reals(v, n, 0, 0.1, 'r'), origin=o)
    ys = [c(d) for d in ds]

    def fwd(x):
        fuse()
        return fv
    old = v.choice('old', [(None, 0.125), (9.5, 0.125), (0.125, None)])
    ms = [dcf.models.IntrinsicOptionPayOffModel(old[i % 2], fwd)
          for i in range(n)]
    ls = []
    for i in range(n):
        if i % 3 == 0:
            ls.append(dcf.OptionCashflowList(ds[-2:], [1, 2], [0.02, 0.03],
                                             payoff_model=ms[i]))
        elif i % 3 == 1:
            ls.append(dcf.ContingentRateCashFlowList(
                ds, 1, origin=o, cap_strike=0.02, payoff_model=ms[i]))
        else:
            ls.append(dcf.RateCashFlowList(ds, 1, origin=o, fixed_rate=0.02,
                                           forward_curve=ms[i]))
    l = ls[0]
    for x in ls[1:]:
        l = dcf.CashFlowLegList(v.choice('side', [[l, x], [x, l]]) if x is
                                ls[1] else [l, x])
    fuse.k = v.choice('k', [None, 1, 3, n + 2])
    kw = {} if fn == 'get_present_value' else {'shift': v.const(0.001)}
    try:
        getattr(dcf, fn)(l, c, o, **kw)
        v.holds('failed', fuse.k is None or fuse.k > 0)
    except Boom:
        pass
    for i, m in enumerate(ms):
        v.holds('valuation date as before', m.valuation_date == old[i % 2])
        v.holds('curve as before', m.forward_curve is fwd)
    for x, m in zip(ls, ms):
        v.holds('model as before', getattr(x, 'payoff_model', m) is m or
                getattr(x, 'forward_curve', None) is m)
    v.holds('no spread', c.spread is None)
    v.holds('points', len(list(c.domain)) == n)
    for d, y in zip(ds, ys):
        v.eq('value as before', c(d), y)


@REG.harness(quick=[(f, o) for f in PRICERS for o in (-0.25, 0.25)])
def offsets(v, dcf, p):
    """rate flows paid before or after the end of their period"""
    fn, off = p
    o = v.const(ORIGIN)
    ends = [o + 1, o + 2]
    am = reals(v, 2, 0.5, 1, 'a')
    q = v.real('q', 0.01, 0.05)
    f = dcf.RateCashFlowList(ends, am, origin=o, pay_offset=v.const(off),
                             fixed_rate=q, forward_curve=v.real('f', 0, 0.02))
    c = dcf.ZeroRateCurve([o + 1, o + 3], [v.const(0.02), v.const(0.03)],
                          origin=o)
    ds = list(f.domain)
    ps = [(f.payoff(d).start, f.payoff(d).end, f.payoff(d).amount,
           f.payoff(d).fixing_offset, f.payoff(d).day_count,
           f.payoff(d).fixed_rate) for d in ds]
    flows = [f[d] for d in ds]
    t = v.choice('t', [o + 0.5, ds[0], o + 1.25, ds[1] - 0.0625])
    leg = dcf.CashFlowLegList([f]) if v.choice('leg', [0, 1]) and \
        fn != 'get_fair_rate' else f
    try:
        call(v, dcf, fn, leg, c, t)
    except AssertionError:
        v.holds('not solvable', fn in ('get_yield_to_maturity',
                                       'get_fair_rate', 'get_curve_fit'))
    v.holds('dates as before', list(f.domain) == ds)
    for d, x, (s, e, a, g, dc, k) in zip(ds, flows, ps):
        y = f.payoff(d)
        v.eq('flow as before', f[d], x)
        v.eq('start as before', y.start, s)
        v.eq('end as before', y.end, e)
        v.eq('amount as before', y.amount, a)
        v.eq('fixed rate as before', y.fixed_rate, k)
        v.holds('terms as before', y.fixing_offset is g or
                y.fixing_offset == g)
        v.holds('day count as before', y.day_count is dc or
                y.day_count == dc)
