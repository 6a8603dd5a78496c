"""C09 a curve returns what was given to it"""
from engine.api import Registry
from checks.common import grid, long_grid, reals, off_nodes, some_orders

REG = Registry('C09', bounds='1..3 points (up to 9, thorough 40, at fixed '
               'distances) in any of several orders, probabilities down to a '
               'billionth from 0 and 1, float '
               'dates (symbolic) or calendar dates, with and without origin')

# class -> (getter of the stored quantity, range of values)
CLS = {
    'DateCurve': ('__call__', (-1000, 1000)),
    'ForwardCurve': ('get_forward_price', (0.125, 5000)),
    'ZeroRateCurve': ('get_zero_rate', (-2, 5)),
    'DiscountFactorCurve': ('get_discount_factor', (0.015625, 4)),
    'CashRateCurve': ('get_cash_rate', (-2, 5)),
    'ShortRateCurve': ('get_short_rate', (-2, 5)),
    'SurvivalProbabilityCurve': ('get_survival_prob', (0.0078125, 0.9999)),
    'DefaultProbabilityCurve': ('get_survival_prob', (0.0001, 0.9921875)),
    'FlatIntensityCurve': ('get_flat_intensity', (0, 8)),
    'HazardRateCurve': ('get_hazard_rate', (0, 8)),
    'MarginalSurvivalProbabilityCurve': ('marginal', (0.0078125, 0.9999)),
    'MarginalDefaultProbabilityCurve': ('marginal', (0.0001, 0.9921875)),
    'InstantaneousVolatilityCurve': ('get_instantaneous_vol', (0, 8)),
    'TerminalVolatilityCurve': ('get_terminal_vol', (0, 8)),
    'FxForwardCurve': ('get_forward_price', (0.0625, 1000)),
}
MARGINAL = [c for c in CLS if 'Marginal' in c]


def build(v, dcf, cls, xs, ys, origin, tenor):
    kw = dict(origin=origin)
    if hasattr(getattr(dcf, cls), 'forward_tenor'):
        kw['forward_tenor'] = tenor
    return getattr(dcf, cls)(xs, ys, **kw)


def back(v, dcf, cls, c, x, y, tenor):
    get = CLS[cls][0]
    if 'Default' in cls:
        y = 1 - y
    if get == 'marginal':
        v.eq('value', c.get_survival_prob(x, x + tenor), y)
    else:
        v.eq('value', getattr(c, get)(x), y)
    v.eq('curve value', c(x), y)


@REG.harness(quick=[(c, n) for c in CLS for n in (1, 2, 3)],
             thorough=[(c, 4) for c in CLS])
def stored(v, dcf, p):
    """float dates: the getter returns the given value at every point"""
    cls, n = p
    xs = grid(v, n, 0.5, 2, 0.25, 3)
    ys = reals(v, n, *CLS[cls][1])
    o = some_orders(v, n)
    origin = v.choice('origin', [v.const(0.25), None])
    if origin is None and n > 1 and 'Rate' not in cls and \
            ('Discount' in cls or 'Default' in cls or 'Survival' in cls or
             'Intensity' in cls):
        o = tuple(range(n))
    if origin is None and ('Discount' in cls or 'Default' in cls or
                           'Survival' in cls or cls == 'ForwardCurve'):
        origin = v.const(0.25)      # the value at an origin is no input
    tenor = v.const(0.5)
    c = build(v, dcf, cls, [xs[i] for i in o], [ys[i] for i in o], origin,
              tenor)
    for x, y in zip(xs, ys):
        back(v, dcf, cls, c, x, y, tenor)


@REG.harness(quick=list(CLS))
def calendar(v, dcf, cls):
    """calendar dates and default tenors"""
    ds = v.choice('dates', [(30, 90), (500, 100), (1, 2), (59, 425, 790)])
    ys = reals(v, len(ds), *CLS[cls][1])
    t = v.date(0)
    c = getattr(dcf, cls)([v.date(d) for d in ds], ys, origin=t)
    for x, y in zip(ds, ys):
        back(v, dcf, cls, c, v.date(x), y, '1Y')


@REG.harness(quick=MARGINAL + ['SurvivalProbabilityCurve',
                               'DefaultProbabilityCurve'])
def clipped(v, dcf, cls):
    """probabilities outside 0..1 are cut to 0..1"""
    x = v.real('x', 0.5, 2)
    y = v.real('y', -1, 2)
    c = getattr(dcf, cls)([x], [y], origin=v.const(0.25),
                          forward_tenor=v.const(0.5))
    want = 1 - y if 'Default' in cls else y
    want = 0 if want < 0 else 1 if want > 1 else want
    v.eq('value', c(x), want)


@REG.harness(quick=[(c, 9) for c in CLS], thorough=[(c, 40) for c in CLS])
def many(v, dcf, p):
    """the same for many points at fixed distances, in several orders"""
    cls, n = p
    xs = long_grid(v, n)
    ys = [y + v.const(i / 4096) for i, y in enumerate(
        [v.real('y', CLS[cls][1][0], CLS[cls][1][1] - n / 4096)] * n)]
    k = v.choice('order', [list(range(n)), list(range(n))[::-1],
                           list(range(0, n, 2)) + list(range(1, n, 2))])
    tenor = v.const(0.5)
    c = build(v, dcf, cls, [xs[i] for i in k], [ys[i] for i in k],
              v.const(0.25), tenor)
    v.holds('number of points', len(list(c.domain)) == n)
    for x, y in zip(xs[:-1], ys):
        back(v, dcf, cls, c, x, y, tenor)
    v.eq('last', c(xs[-1]), 1 - ys[-1] if 'Default' in cls else ys[-1])


@REG.harness(quick=['SurvivalProbabilityCurve', 'DefaultProbabilityCurve'])
def extreme(v, dcf, cls):
    """probabilities close to 0 and to 1 are not cut"""
    x = v.real('x', 0.5, 2)
    p = v.choice('p', [2.0 ** -k for k in (8, 20, 27, 30)])
    near = v.choice('near', [0, 1])
    y = 1 - p if near else p
    c = getattr(dcf, cls)([x, x + 1], [y, y], origin=v.const(0.25),
                          forward_tenor=v.const(0.5))
    w = c(x)
    w = w if near == ('Default' in cls) else 1 - w
    v.eq('distance', w * (1 / p), 1, 10 ** 4)
