"""C03 curves only depend on their final points, not on their history"""
from engine.api import Registry
from checks.common import (grid, long_grid, reals, off_nodes, some_orders, history,
                           GETTERS)

REG = Registry('C03', bounds='1..3 initial points, 1..3 updates (existing or '
               'new abscissa, thorough up to 4), 6..12 points (thorough 40) '
               'at fixed distances, symbolic abscissae, values '
               'and query point')

KINDS = None, 'linear', 'left', 'right', 'loglinear', 'nearest'
CLS = 'Curve', 'DateCurve', 'ZeroRateCurve', 'CashRateCurve', \
    'DiscountFactorCurve', 'FlatIntensityCurve', 'HazardRateCurve', \
    'SurvivalProbabilityCurve', 'TerminalVolatilityCurve', 'ForwardCurve'


def make(dcf, cls, xs, ys, kind):
    c = getattr(dcf, cls)
    if cls == 'Curve':
        return c(xs, ys, kind)
    return c(xs, ys, kind, origin=dcf_origin(dcf))


def dcf_origin(dcf):
    return ORIGIN[0]


ORIGIN = [0.0]


def bounds(cls):
    if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve'):
        return 0.5, 0.98
    if cls in ('ForwardCurve', 'TerminalVolatilityCurve'):
        return 0.5, 2
    return (-0.05, 0.2) if 'Curve' != cls and 'Date' not in cls else (-5, 5)


def updates(v, cls, xs, ys, m, log):
    """m updates -> [(x, y)], each at an existing point or a new one"""
    lo, hi = bounds(cls)
    if log:
        lo, hi = 0.5, 2
    new, ops = [], []
    for j in range(m):
        olds = xs + new
        k = v.choice('op%d' % j, list(range(len(olds) + 1)))
        if k < len(olds):
            x = olds[k]
        else:
            x = v.real('nx%d' % j, 0.25, 12)
            off_nodes(v, x, olds, 1e-2)
            new.append(x)
        ops.append((x, v.real('ny%d' % j, lo, hi)))
    return ops


def final(xs, ys, ops):
    pts = [[x, y] for x, y in zip(xs, ys)]
    for x, y in ops:
        for p in pts:
            if p[0] is x:
                p[1] = y
                break
        else:
            pts.append([x, y])
    return pts


@REG.harness(quick=[(c, k, n, m) for c in ('Curve',) for k in KINDS
                    for n, m in ((1, 1), (2, 1), (1, 2))] +
             [(c, None, 2, 1) for c in CLS[1:]] +
             [(c, None, 1, 2) for c in ('DateCurve', 'ZeroRateCurve',
                                        'DiscountFactorCurve')],
             thorough=[(c, None, 2, 2) for c in CLS] +
             [('Curve', k, 2, 3) for k in KINDS] +
             [('Curve', None, 3, 2)])
def set_items(v, dcf, p):
    """c[x] = y one after another equals building from the final points"""
    cls, kind, n, m = p
    log = kind == 'loglinear'
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, *((0.5, 2) if log else bounds(cls)))
    ops = updates(v, cls, xs, ys, m, log)
    c = make(dcf, cls, xs, ys, kind)
    pts = final(xs, ys, ops)
    q = v.real('q', 0.1, 14)
    off_nodes(v, q, [x for x, _ in pts])
    if kind == 'nearest':
        s = sorted(x for x, _ in pts)
        off_nodes(v, q, [(a + b) / 2 for a, b in zip(s, s[1:])])
    for x, y in ops:
        c(q), c(x)
        c[x] = y
    for x, y in pts:
        v.eq('value at point', c(x), y)
        v.holds('point listed', x in c)
    v.holds('number of points', len(list(c.domain)) == len(pts))
    s = sorted((pt for pt in pts), key=lambda pt: pt[0])
    d = make(dcf, cls, [x for x, _ in s], [y for _, y in s], kind)
    v.eq('value anywhere', c(q), d(q))


@REG.harness(quick=[(c, n) for c in CLS for n in (2, 3)],
             thorough=[(c, 4) for c in CLS])
def construction_order(v, dcf, p):
    """the order of the given points does not matter"""
    cls, n = p
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, *bounds(cls))
    o = some_orders(v, n)
    c = make(dcf, cls, [xs[i] for i in o], [ys[i] for i in o], None)
    d = make(dcf, cls, xs, ys, None)
    q = v.real('q', 0.1, 14)
    off_nodes(v, q, xs)
    v.eq('value anywhere', c(q), d(q))
    for x, y in zip(xs, ys):
        v.eq('value at point', c(x), y)


@REG.harness(quick=['ZeroRateCurve', 'CashRateCurve', 'FlatIntensityCurve',
                    'HazardRateCurve', 'TerminalVolatilityCurve'])
def spread_not_baked_in(v, dcf, cls):
    """updating a point while a spread is set leaves the other points"""
    xs = grid(v, 3, 0.5, 2, 0.5, 3)
    ys = reals(v, 3, *bounds(cls))
    s = v.real('s', -0.02, 0.02)
    c = make(dcf, cls, xs, ys, None)
    c.spread = dcf.DateCurve([0.0], [s], origin=0.0)
    q = v.real('q', 0.1, 14)
    k = v.choice('k', [0, 1, 2])
    y = v.real('ny', 0.5, 2)
    c[xs[k]] = y
    ys[k] = y
    d = make(dcf, cls, xs, ys, None)
    off_nodes(v, q, xs)
    v.eq('with spread', c(q), d(q) + s)
    c.spread = None
    v.eq('spread removed', c(q), d(q))
    for a, b in zip(xs, ys):
        v.eq('value at point', c(a), b)


@REG.harness(quick=['DateCurve', 'ZeroRateCurve', 'CashRateCurve'])
def fixings(v, dcf, cls):
    """a fixing decides the value at its date only, and can be removed"""
    xs = grid(v, 2, 0.5, 2, 0.5, 3)
    ys = reals(v, 2, *bounds(cls))
    c = make(dcf, cls, xs, ys, None)
    d = make(dcf, cls, xs, ys, None)
    f, y = v.real('f', 0.1, 10), v.real('fy', -1, 1)
    q = v.real('q', 0.1, 10)
    off_nodes(v, q, [f])
    c.fixings[f] = y
    v.eq('fixed value', c(f), y)
    v.eq('other value', c(q), d(q))
    v.eqs('as list', list(c([f, q])), [y, d(q)])
    v.eqs('as tuple', list(c((q, f, f))), [d(q), y, y])
    c[xs[0]] = ys[1]
    v.eq('still fixed', c(f), y)
    c[xs[0]] = ys[0]
    v.eq('other curve', d(f), make(dcf, cls, xs, ys, None)(f))
    v.holds('other curve has no fixing', not d.fixings)
    e = make(dcf, cls, xs, ys, None)
    v.holds('new curve has no fixing', not e.fixings)
    c.fixings.pop(f)
    v.eq('fixing removed', c(f), d(f))


@REG.harness(quick=['Curve', 'DateCurve', 'ZeroRateCurve'])
def inputs_untouched(v, dcf, cls):
    """building, updating and evaluating leave the given lists alone"""
    xs = grid(v, 2, 0.5, 2, 0.5, 3)
    ys = reals(v, 2, *bounds(cls))
    o = some_orders(v, 2)
    a, b = [xs[i] for i in o], [ys[i] for i in o]
    a0, b0 = list(a), list(b)
    c = make(dcf, cls, a, b, None)
    other = make(dcf, cls, a, b, None)
    c[v.real('nx', 8, 9)] = v.real('ny', 0, 0.1)
    c[xs[0]] = ys[1]
    v.eqs('x list', a, a0)
    v.eqs('y list', b, b0)
    for x, y in zip(xs, ys):
        v.eq('other curve', other(x), y)
    v.holds('other domain', len(list(other.domain)) == 2)


@REG.harness(quick=['Curve', 'DateCurve', 'ZeroRateCurve', 'ForwardCurve',
                    'HazardRateCurve', 'from curve', 'fixed list'])
def lists_later(v, dcf, cls):
    """what happens to the user's lists afterwards does not matter"""
    xs, ys = grid(v, 2, 0.5, 2, 0.5, 2), reals(v, 2, 0.1, 0.2)
    a, b = list(xs), list(ys)
    if cls == 'fixed list':
        c = dcf.FixedCashFlowList(a, b)
        c2 = dcf.RateCashFlowList(a, b, origin=v.const(0.0), fixed_rate=0.5)
    elif cls == 'from curve':
        c = dcf.ZeroRateCurve(a, dcf.ZeroRateCurve(xs, ys,
                                                   origin=v.const(0.0)))
    else:
        c = make(dcf, cls, a, b, None)
    a.append(v.real('new', 10, 20))
    b.append(0.5)
    b[0] = 0.5
    a.insert(0, 0.25)
    v.eqs('points', list(c.domain), xs)
    if cls == 'fixed list':
        v.eqs('points', list(c2.domain), xs)
        v.eqs('amounts', list(c[xs]), ys)
        v.eqs('flows', list(c2[xs]), [ys[0] * xs[0] / 2, ys[1] * (
            xs[1] - xs[0]) / 2])
        v.eq('nothing', c[a[-1]], 0)
        return
    q = v.real('q', 0.25, 12)
    off_nodes(v, q, xs, 1e-2)
    d = make(dcf, 'ZeroRateCurve' if cls[0] == 'f' else cls, xs, ys, None)
    v.eq('value', c(q), d(q))
    v.holds('not contained', a[-1] not in c)
    for e in (c, d):
        e[xs[0]] = 0.15
        e[q] = 0.3
    z = v.real('z', 0.25, 25)
    v.eq('value after update', c(z), d(z))


@REG.harness(quick=[(c, g) for c in GETTERS for g in GETTERS[c]])
def getters(v, dcf, p):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    history(v, dcf, *p)


@REG.harness(quick=['DateCurve', 'ZeroRateCurve', 'DiscountFactorCurve'])
def one_spread(v, dcf, cls):
    """a spread is removed before another one is set"""
    c = make(dcf, cls, grid(v, 2, 0.5, 2, 0.5, 3), reals(v, 2, *bounds(cls)),
             None)
    a, b = (dcf.DateCurve([0.0], [v.real(n, -0.02, 0.02)], origin=0.0)
            for n in 'ab')
    if cls == 'DateCurve':
        v.holds('no spread', not hasattr(c, 'spread'))
        return
    v.holds('none', c.spread is None)
    c.spread = a
    v.holds('first', c.spread is a)

    def again():
        c.spread = b
    v.raises('second', TypeError, again)
    v.holds('still first', c.spread is a)
    c.spread = None
    c.spread = b
    v.holds('second', c.spread is b)
    v.holds('other curve', make(dcf, cls, [1.0], [0.5], None).spread is None)


@REG.harness(quick=[('Curve', 6), ('Curve', 12), ('DateCurve', 8),
                    ('ZeroRateCurve', 8), ('FlatIntensityCurve', 6),
                    ('DiscountFactorCurve', 6), ('CashRateCurve', 6),
                    ('TerminalVolatilityCurve', 6)],
             thorough=[('Curve', 40), ('ZeroRateCurve', 40)])
def many_points(v, dcf, p):
    """the same for curves with many points at fixed distances"""
    cls, n = p
    xs = long_grid(v, n)
    ys = [v.real('y0', 0.5, 2)] * n if cls[0] == 'T' else \
        reals(v, n, *bounds(cls))
    o = list(range(n))
    o = v.choice('order', [o, o[::-1], o[::2] + o[1::2]])
    c = make(dcf, cls, [xs[i] for i in o], [ys[i] for i in o], None)
    new = [xs[0] - 0.125, xs[n // 2] - 0.125, xs[-1] + 0.125]
    ny = reals(v, 3, *bounds(cls), 'z') if cls[0] != 'T' else ys[:3]
    for i in v.choice('new', [(0, 1, 2), (2, 1, 0), (1,), (0,), (2,)]):
        c[new[i]] = ny[i]
        xs, ys = xs + [new[i]], ys + [ny[i]]
    k = v.choice('k', [0, n // 2, n - 1])
    if cls[0] != 'T':
        ys[k] = v.real('yk', *bounds(cls))
        c[xs[k]] = ys[k]
    s = sorted(range(len(xs)), key=lambda i: xs[i])
    d = make(dcf, cls, [xs[i] for i in s], [ys[i] for i in s], None)
    for x, y in zip(xs, ys):
        v.eq('value at point', c(x), y)
    for x, z in zip(xs, xs[1:]):
        v.eq('value between', c((x + z) / 2), d((x + z) / 2))


@REG.harness(quick=[(c, n) for c in ('ZeroRateCurve', 'CashRateCurve',
                                     'FlatIntensityCurve', 'HazardRateCurve')
                    for n in (4, 6, 10)] + [('DiscountFactorCurve', 6),
                                            ('SurvivalProbabilityCurve', 6)],
             thorough=[('ZeroRateCurve', 40)])
def many_with_spread(v, dcf, p):
    """at each of many points and between them a spread adds its value of the
    same date, alone or in lists, except for fixings"""
    cls, n = p
    xs = long_grid(v, n)
    ys = reals(v, n, *bounds(cls))
    c, d = make(dcf, cls, xs, ys, None), make(dcf, cls, xs, ys, None)
    a, b = v.real('a', -0.02, 0.02), v.real('b', -0.02, 0.02)
    c.spread = s = dcf.DateCurve([xs[0], xs[-1]], [a, b], origin=dcf_origin(dcf))
    k, f = v.choice('fixing', [0, n // 2, n - 1]), v.real('f', 0.5, 1)
    c.fixings[xs[k]] = f
    qs = xs + [(x + z) / 2 for x, z in zip(xs, xs[1:])] + \
        [xs[0] - 0.125, xs[-1] + 0.125]
    got = c(qs)
    for i, q in enumerate(qs):
        if i == k:
            # a fixing is the value of the curve, the spread comes on top
            continue
        v.eq('with spread', c(q), d(q) + s(q))
        v.eq('in a list', got[i], d(q) + s(q))
    c.spread = None
    v.eq('fixing', c(xs[k]), f)
    v.eq('fixing in a list', c(qs)[k], f)


GIVEN = 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve', \
    'MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve', \
    'DiscountFactorCurve', 'HazardRateCurve', 'TerminalVolatilityCurve', \
    'ForwardCurve', 'Curve'


@REG.harness(quick=GIVEN)
def values_given(v, dcf, cls):
    """lists of dates and values given, also invalid ones, stay what they
    are, and give the same curve again"""
    xs = grid(v, 2, 0.5, 2, 0.5, 3)
    ys = reals(v, 2, -0.5, 1.5) if 'Prob' in cls else reals(v, 2, 0.25, 1.5)
    a, b = list(xs)[::-1], list(ys)[::-1]
    a0, b0 = list(a), list(b)
    c = make(dcf, cls, a, b, None)
    d = make(dcf, cls, a, b, None)
    v.eqs('dates', a, a0)
    v.eqs('values', b, b0)
    w = list(c(a))
    v.eqs('same again', list(d(a)), w)
    c[a[0]] = 0.5
    c[a[0] + 1] = 0.25
    v.eqs('dates after updates', a, a0)
    v.eqs('values after updates', b, b0)
    v.eqs('other curve', list(d(a)), w)
