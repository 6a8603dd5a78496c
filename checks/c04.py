"""C04 curve algebra, copies and keyword round trip"""
from engine.api import Registry
from checks.common import grid, long_grid, reals, off_nodes

REG = Registry('C04', bounds='two operands with 1..3 points each (shared or '
               'interleaved grids), up to 7 (thorough 30) at fixed distances, symbolic abscissae, values, query point; '
               'operands of one class with one origin')

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b}
ORIGIN = 0.25


def make(v, dcf, cls, xs, ys, kind=None, origin=ORIGIN):
    if cls == 'Curve':
        return dcf.Curve(tuple(xs), ys, kind)
    xs = v.choice('seq', [tuple, list])(xs)
    return getattr(dcf, cls)(xs, ys, kind, origin=v.const(origin))


def two(v, n, m, lo, hi):
    a = grid(v, n, 0.5, 2, 0.5, 2, 'a')
    share = v.choice('share', ['no', 'first'] + ['ends'] * (n > 1 and m > 1))
    b = [v.real('b0', 0.5, 3)] if share == 'no' else [a[0]]
    for i in range(1, m):
        b.append(b[-1] + v.real('bg%d' % i, 0.5, 2))
    if share == 'ends':
        b[-1] = a[-1]
        v.assume(b[-2] < a[-1] - 0.01)
    for x in b:
        off_nodes(v, x, [y for y in a if y is not x], 1e-2)
    return a, reals(v, n, lo, hi, 'u'), b, reals(v, m, lo, hi, 'w')


@REG.harness(quick=[(c, o, 2, n) for c in
                    ('Curve', 'DateCurve', 'ZeroRateCurve', 'ForwardCurve')
                    for o in OPS
                    for n in (1, 2) if (c, o) != ('ForwardCurve', '-')] +
             [(c, o, *k) for c in ('Curve', 'DateCurve', 'ZeroRateCurve')
              for o in OPS for k in ((3, 2), (2, 3), (1, 2))],
             thorough=[(c, o, 3, 3) for c in
                       ('Curve', 'DateCurve', 'ZeroRateCurve') for o in OPS])
def pointwise(v, dcf, p):
    """value at every point of either operand is the operation on values"""
    cls, op, n, m = p
    a, u, b, w = two(v, n, m, 0.5, 2)
    f, g = make(v, dcf, cls, a, u), make(v, dcf, cls, b, w)
    h = OPS[op](f, g)
    for x in a + [x for x in b if not any(x is y for y in a)]:
        v.eq('value at point', h(x), OPS[op](f(x), g(x)))
        v.holds('point listed', x in h)
    for x, y in zip(a, u):
        v.eq('left operand unchanged', f(x), y)
    for x, y in zip(b, w):
        v.eq('right operand unchanged', g(x), y)
    v.holds('type', type(h) is type(f))
    if cls != 'Curve':
        v.eq('origin', h.origin, ORIGIN)
    if op in '+-' and cls in ('Curve', 'DateCurve', 'ZeroRateCurve'):
        q = v.real('q', 0.1, 9)
        v.eq('value anywhere', h(q), OPS[op](f(q), g(q)))


OFFS = ((30, 400), (90, 200)), ((0, 365), (0, 365)), ((1, 100), (500, 900))


@REG.harness(quick=[(c, o) for c in ('ZeroRateCurve', 'CashRateCurve',
                                     'ShortRateCurve',
                                     'DiscountFactorCurve') for o in OPS
                    if c[0] != 'D' or o in '*/'])
def calendar(v, dcf, p):
    """the same on calendar dates, given tenor and spread kept apart"""
    cls, op = p
    a, b = v.choice('dates', OFFS)
    t = v.date(0)
    a, b = [v.date(x) for x in a], [v.date(x) for x in b]
    u = reals(v, 2, 0.5, 0.9, 'u')
    w = reals(v, 2, 0.5, 0.9, 'w')
    c = getattr(dcf, cls)
    f = c(tuple(a), u, origin=t, forward_tenor='6M')
    g = c(tuple(b), w, origin=t)
    h = OPS[op](f, g)
    for x in list(dict.fromkeys(a + b)):
        v.eq('value at point', h(x), OPS[op](f(x), g(x)))
    v.holds('type', type(h) is type(f))
    v.holds('origin', h.origin == t)
    v.holds('tenor', h.forward_tenor == '6M')
    for x, y in zip(a, u):
        v.eq('left operand unchanged', f(x), y)


@REG.harness(quick=['Curve', 'DateCurve', 'ZeroRateCurve'])
def division_by_zero(v, dcf, cls):
    """a divisor that vanishes at a point is refused"""
    a = grid(v, 2, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 2, 0.5, 2, 'u')
    w = [0.0, v.real('w', 0.5, 2)]
    if v.choice('k', [0, 1]):
        w.reverse()
    f, g = make(v, dcf, cls, a, u), make(v, dcf, cls, a, w)
    v.raises('refused', ZeroDivisionError, lambda: f / g)


RATE = 'ZeroRateCurve', 'CashRateCurve', 'ShortRateCurve', 'ForwardCurve'
ALL = ('Curve', 'DateCurve') + RATE


@REG.harness(quick=[(c, k) for c in ALL
                    for k in (None, 'linear', 'left', 'loglinear')])
def copy(v, dcf, p):
    """the curve built from a curve's own keywords is the same function"""
    cls, kind = p
    a = grid(v, 3, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 3, 0.5, 2, 'u')
    origin = 0.0 if cls == 'Curve' else v.choice('origin', [ORIGIN, 0.0, -2.0])
    f = make(v, dcf, cls, a, u, kind, origin)
    q = v.real('q', 0.1, 9)
    off_nodes(v, q, a)
    kw = dict(f.kwargs)
    g = type(f)(**kw)
    v.eq('value anywhere', g(q), f(q))
    if cls != 'Curve':
        v.eq('origin', g.origin, origin)
        v.eq('time from the origin', g.day_count(q), q - origin)
    h = type(f)(f) if cls in ('Curve', 'DateCurve') else None
    if h is not None:
        v.eq('copy by constructor', h(q), f(q))
    g[a[0]] = 1.0
    v.eq('original unchanged', f(a[0]), u[0])


HOW = 'kwargs', 'curve', 'data', 'shifted', 'sum'


@REG.harness(quick=[(c, h) for c in ('Curve', 'DateCurve', 'ZeroRateCurve')
                    for h in HOW if h != 'data' or c != 'Curve'] +
             [('ForwardCurve', 'kwargs'), ('ForwardCurve', 'data'),
              ('CashRateCurve', 'kwargs'), ('FlatIntensityCurve', 'kwargs')])
def independent(v, dcf, p):
    """points set on a copy, or on its source, are not those of the other"""
    cls, how = p
    a = grid(v, 2, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 2, 0.5, 2, 'u')
    f = make(v, dcf, cls, a, u)
    g = type(f)(**f.kwargs) if how == 'kwargs' else \
        type(f)(f) if how == 'curve' else \
        type(f)(f.domain, f) if how == 'data' else \
        f.shifted() if how == 'shifted' else f + type(f)(
            [a[0]], [v.const(0.0)], **(
            {} if cls == 'Curve' else {'origin': v.const(ORIGIN)}))
    z, new = v.real('z', 0.1, 9), v.real('new', 0.5, 2)
    off_nodes(v, z, a, 1e-2)
    old, other = (f, g) if v.choice('on', [0, 1]) else (g, f)
    x, y = other(z), other(a[0])
    old[z] = new
    old[a[0]] = new
    v.eq('new point', old(z), new)
    v.eq('point of the other', other(a[0]), y)
    v.eq('value of the other', other(z), x)
    v.eqs('points of the other', list(other.domain), a)
    v.holds('not listed', z not in other)


@REG.harness(quick=['Curve', 'DateCurve'])
def from_date_curve(v, dcf, cls):
    """a plain curve built from a date curve maps year fractions"""
    a = grid(v, 3, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 3, -2, 2, 'u')
    f = make(v, dcf, 'DateCurve', a, u)
    q = v.real('q', 0.3, 9)
    if cls == 'Curve':
        g = dcf.Curve(f)
        v.eq('value', g(f.day_count(q)), f(q))
    else:
        b = grid(v, 2, 0.5, 2, 0.5, 2, 'b')
        g = dcf.DateCurve(b, f)
        for x in b:
            v.eq('value at new point', g(x), f(x))
        v.eq('origin', g.origin, ORIGIN)


@REG.harness()
def iteration(v, dcf):
    """iterating and subscripting follow the domain"""
    a = grid(v, 3, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 3, -2, 2, 'u')
    c = dcf.Curve(a, u)
    v.eqs('iteration', list(iter(c)), a)
    v.eqs('items', [c[x] for x in c], u)
    v.eqs('values', c(c.domain), u)
    q = v.real('q', 0.1, 9)
    off_nodes(v, q, a)
    v.raises('no item off the points', KeyError, lambda: c[q])
    v.holds('not contained', q not in c)


@REG.harness(quick=[(c, o) for c in ('Curve', 'DateCurve') for o in OPS] +
             [('ZeroRateCurve', '+'), ('ZeroRateCurve', '-')])
def operands_later(v, dcf, p):
    """operations done before do not matter: operands are taken as they are"""
    cls, op = p
    a = grid(v, 2, 0.5, 2, 0.5, 2, 'a')
    lo = 0.5 if op == '/' else -2
    u, w = reals(v, 2, lo, 2, 'u'), reals(v, 2, lo, 2, 'w')
    f = make(v, dcf, cls, a, u)
    g = make(v, dcf, cls, a, w)
    k = v.choice('same', [0, 1])
    if k:
        w, g = u, f
    h = OPS[op](f, g)
    n, m = v.real('n', lo, 2), v.real('m', lo, 2)
    f[a[0]] = n
    g[a[1]] = m
    e = OPS[op](f, g)
    v.eq('first', e(a[0]), OPS[op](n, n if k else w[0]))
    v.eq('second', e(a[1]), OPS[op](m if k else u[1], m))
    for x, y, z in zip(a, u, w):
        v.eq('earlier result', h(x), OPS[op](y, z))


@REG.harness(quick=[(c, o, s) for c in ('Curve', 'DateCurve',
                                        'ZeroRateCurve')
                    for o in OPS for s in ('same', 'other')])
def signs(v, dcf, p):
    """the same for values of either sign (divisors apart from zero)"""
    cls, op, share = p
    a = grid(v, 2, 0.5, 2, 0.5, 2, 'a')
    b = a if share == 'same' else [a[0], a[1] + v.real('b', 0.25, 1)]
    u, w = reals(v, 2, -2, 2, 'u'), reals(v, 2, -2, 2, 'w')
    if op == '/':
        # of one sign: no zero between the points
        s = v.choice('sign', [1, -1])
        w = [s * y for y in reals(v, 2, 0.5, 2, 'd')]
    f, g = make(v, dcf, cls, a, u), make(v, dcf, cls, b, w)
    h = OPS[op](f, g)
    for x in dict.fromkeys(a + b):
        v.eq('value at point', h(x), OPS[op](f(x), g(x)))
    v.eq('first', h(a[0]), OPS[op](u[0], w[0]))


@REG.harness(quick=[(c, o, n) for c in ('Curve', 'DateCurve',
                                        'ZeroRateCurve')
                    for o in OPS for n in (7,)],
             thorough=[(c, o, 30) for c in ('Curve', 'ZeroRateCurve')
                       for o in OPS])
def many_points(v, dcf, p):
    """the same for operands with many points at fixed distances"""
    cls, op, n = p
    a = long_grid(v, n)
    b = v.choice('b', [a, a[1:] + [a[-1] + 1], a[:3], a[::3],
                       [x + 0.0625 for x in a]])
    u = reals(v, n, 0.5, 2, 'u')
    w = reals(v, len(b), 0.5, 2, 'w')
    f, g = make(v, dcf, cls, a, u), make(v, dcf, cls, b, w)
    h = OPS[op](f, g)
    xs = a if b is a else a + [x for x in b if not any(x is y for y in a)]
    v.holds('number of points', len(list(h.domain)) == len(xs))
    for x in xs:
        v.eq('value at point', h(x), OPS[op](f(x), g(x)))
    for x, y in zip(a, u):
        v.eq('left operand', f(x), y)
    for x, y in zip(b, w):
        v.eq('right operand', g(x), y)


@REG.harness(quick=['Curve', 'DateCurve', 'ZeroRateCurve'])
def small_divisors(v, dcf, cls):
    """divisors close to zero are no zeros"""
    a = grid(v, 2, 0.5, 2, 0.5, 2, 'a')
    u = reals(v, 2, -2, 2, 'u')
    s = v.choice('sign', [1, -1])
    w = [s * y for y in reals(v, 2, 2 ** -40, 2 ** -10, 'd')]
    f, g = make(v, dcf, cls, a, u), make(v, dcf, cls, a, w)
    h = f / g
    for x, y, z in zip(a, u, w):
        v.eq('value at point', h(x) * z, y)
