"""C27 forward curves extrapolate along their yield"""
from engine.api import Registry
from checks.common import grid, long_grid, reals, some_orders

REG = Registry('C27', bounds='1..3 points (thorough 4) in several orders, up '
               'to 12 (thorough 40) at fixed distances, '
               'query anywhere up to 12 years, yield given as number, '
               'discounting curve (with or without spread), function or '
               'none; single spot forms')


def log_linear(v, xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    for a, b, f, g in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            w = (x - a) / (b - a)
            return v.exp(v.log(f) * (1 - w) + v.log(g) * w)
    return ys[-1]


@REG.harness(quick=[(k, n) for k in ('none', 'zero', 'number', 'curve',
                                     'function') for n in (1, 2, 3)],
             thorough=[(k, 4) for k in ('none', 'number', 'curve',
                                        'function')])
def forward(v, dcf, p):
    kind, n = p
    o = v.const(0.25)
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, 0.5, 200)
    r = v.real('r', -0.1, 0.2)
    kw = {}
    if kind == 'none':
        kw = {'yield_curve': None}
    elif kind == 'number':
        kw = {'yield_curve': r}
    elif kind == 'curve':
        kw = {'yield_curve': dcf.ZeroRateCurve(
            [1.0, 4.0], [r, 0.05], origin=v.const(
                v.choice('origin', [0.25, 0, -1, 10])))}
    elif kind == 'function':
        kw = {'yield_curve': lambda x: v.exp(-r * x)}
    idx = some_orders(v, n)
    c = dcf.ForwardCurve([xs[i] for i in idx], [ys[i] for i in idx],
                         origin=o, **kw)
    x = v.real('x', 0.25, 12)
    want = log_linear(v, xs, ys, x)
    if x > xs[-1]:
        d = x - xs[-1]
        if kind in ('number', 'function'):
            want = want * v.exp(r * d)
        elif kind == 'curve':
            want = want / kw['yield_curve'].get_discount_factor(xs[-1], x)
    v.eq('forward price', c.get_forward_price(x), want, 100)
    v.eq('called', c(x), want, 100)
    k = v.choice('set', [0, n - 1])
    c[xs[k]] = 2 * ys[k]
    v.eq('set', c(xs[k]), 2 * ys[k], 100)
    if k == n - 1 and x > xs[-1]:
        v.eq('with another last price', c(x), 2 * want, 100)
    c[xs[k]] = ys[k]
    v.eq('set back', c(x), want, 100)
    a, b = c([x, xs[0]])
    v.eq('called with list', a, want, 100)
    v.eq('called with list [1]', b, ys[0], 100)


@REG.harness(quick=['number', 'price'])
def spot(v, dcf, how):
    """a single spot price grows at the yield from its origin"""
    o = v.const(0.25)
    s, r = v.real('s', 0.5, 200), v.real('r', -0.1, 0.2)
    if how == 'number':
        c = dcf.ForwardCurve(s, origin=o, yield_curve=r)
    else:
        c = dcf.ForwardCurve(dcf.Price(s, o), yield_curve=r)
    x = v.real('x', 0.25, 10)
    v.eq('origin', c.origin, o)
    v.eq('forward price', c(x), s * v.exp(r * (x - o)), 100)
    v.eq('spot', c(o), s, 100)


@REG.harness()
def calendar(v, dcf):
    t = v.date(0)
    ds = v.choice('ds', [(0, 100, 400), (90, 30, 60)])
    ys = reals(v, 3, 0.5, 200)
    r = v.real('r', -0.1, 0.2)
    c = dcf.ForwardCurve([v.date(d) for d in ds], ys, origin=t,
                         yield_curve=r)
    k = v.int('k', 1, 2000)
    m = max(ds)
    last = ys[ds.index(m)]
    v.eq('extrapolated', c(v.date(m + k)),
         last * v.exp(r * (k / v.const(365.25))), 100)
    for d, y in zip(ds, ys):
        v.eq('point', c(v.date(d)), y, 100)


@REG.harness()
def price(v, dcf):
    s = v.real('s', -5, 5)
    p = dcf.Price(s, v.const(0.5))
    v.eq('value', p.value, s)
    v.eq('as number', float(p) if not v.symbolic else p.__float__(), s)
    v.eq('origin', p.origin, 0.5)
    v.eq('default', dcf.Price().value, 0)
    v.holds('no origin', dcf.Price(s).origin is None)


@REG.harness(quick=[1, 2])
def fx_forward(v, dcf, n):
    """fx forwards grow with the ratio of both discount factors"""
    o = v.const(0.25)
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, 0.5, 2)
    r, f = v.real('r', -0.05, 0.2), v.real('f', -0.05, 0.2)
    d = dcf.ZeroRateCurve([1.0, 2.0], [r, r], origin=o)
    g = dcf.ZeroRateCurve([1.0, 2.0], [f, f], origin=o)
    idx = some_orders(v, n)
    c = dcf.FxForwardCurve([xs[i] for i in idx], [ys[i] for i in idx],
                           origin=o, domestic_curve=d, foreign_curve=g)
    x = v.real('x', 0.25, 12)
    want = log_linear(v, xs, ys, x)
    if x > xs[-1]:
        want = want * v.exp((f - r) * (x - xs[-1]))
    v.eq('forward price', c.get_forward_price(x), want)
    v.eq('called', c(x), want)
    c[xs[-1]] = 2 * ys[-1]
    if x > xs[-1]:
        v.eq('with another last price', c(x), 2 * want)


@REG.harness(quick=['number', 'curve', 'function'])
def again(v, dcf, kind):
    """prices asked for before do not matter: points and yields are those of
    the moment"""
    o = v.const(0.25)
    xs, ys = grid(v, 2, 0.5, 2, 0.5, 3), reals(v, 2, 0.5, 200)
    r, q = v.real('r', -0.1, 0.2), v.real('q', -0.1, 0.2)
    t = v.real('t', 0.25, 8)
    u = xs[0] + v.real('u', 0.25, 0.5) if v.choice('ask', [0, 1]) else \
        xs[1] + v.real('u', 0.25, 4)
    zc = dcf.ZeroRateCurve([o], [r])
    y = {'number': r, 'curve': zc, 'function': lambda x: v.exp(-r * x)}[kind]
    c = dcf.ForwardCurve(xs, ys, origin=o, yield_curve=y)
    d = dcf.ForwardCurve([o + 1], [v.const(3)], origin=o + 1,
                         yield_curve=dcf.ZeroRateCurve([o], [v.const(0.5)]))

    def want(t, xs, ys, r):
        w = log_linear(v, xs, ys, t)
        if t > xs[-1]:
            w = w * v.exp(r * (t - xs[-1]))
        return w
    c(u), d(t), d(u), c.get_forward_price(u)
    v.eq('price', c(t), want(t, xs, ys, r), 100)
    v.eq('other price', c(u), want(u, xs, ys, r), 100)
    nx, ny = xs[1] + 1, v.real('ny', 0.5, 200)
    c[nx] = ny
    v.eq('another point', c(t), want(t, xs + [nx], ys + [ny], r), 100)
    if kind == 'curve':
        zc[o] = q
        v.eq('another yield', c(t), want(t, xs + [nx], ys + [ny], q), 100)


@REG.harness(quick=['yield', 'spot', 'fx'])
def whole(v, dcf, k):
    """whole numbers are numbers"""
    o = v.const(0)
    x = v.real('x', 0.25, 4)
    n = v.choice('n', [0, 1, 2])
    if k == 'yield':
        s = v.real('s', 0.5, 200)
        c = dcf.ForwardCurve([o], [s], yield_curve=n)
        v.eq('price', c(x), s * v.exp(n * x), 100)
    elif k == 'spot':
        r = v.real('r', -0.1, 0.2)
        c = dcf.ForwardCurve(n + 1, origin=o, yield_curve=r)
        v.eq('price', c(x), (n + 1) * v.exp(r * x), 100)
    else:
        r, f = v.real('r', -0.1, 0.2), v.real('f', -0.1, 0.2)
        c = dcf.FxForwardCurve(
            n + 1, origin=o, domestic_curve=dcf.ZeroRateCurve([o], [r]),
            foreign_curve=dcf.ZeroRateCurve([o], [f]))
        v.eq('price', c(x), (n + 1) * v.exp((f - r) * x), 100)


@REG.harness(quick=[7, 12], thorough=[40])
def many(v, dcf, n):
    """the same for many points at fixed distances"""
    o = v.const(0.25)
    xs = long_grid(v, n)
    ys = reals(v, n, 0.5, 200)
    r = v.real('r', -0.1, 0.2)
    c = dcf.ForwardCurve(xs, ys, origin=o, yield_curve=r)
    x = v.real('x', 0.25, 1.1 * n + 3)
    want = log_linear(v, xs, ys, x)
    if x > xs[-1]:
        want = want * v.exp(r * (x - xs[-1]))
    v.eq('forward price', c.get_forward_price(x), want, 100)
    k = v.choice('set', [0, n - 2, n - 1])
    c[xs[k]] = 2 * ys[k]
    v.eq('set', c(xs[k]), 2 * ys[k], 100)
    v.eq('last', c(xs[-1] + 1), ys[-1] * v.exp(r) *
         (2 if k == n - 1 else 1), 100)


@REG.harness(quick=[1, 2, 3])
def fx_prices(v, dcf, n):
    """without discount curves: the prices of the points up to the last"""
    o = v.const(0.25)
    xs = grid(v, n, 0.5, 2, 0.5, 3)
    ys = reals(v, n, 0.5, 2)
    idx = some_orders(v, n)
    c = dcf.FxForwardCurve([xs[i] for i in idx], [ys[i] for i in idx],
                           origin=o)
    for x, y in zip(xs, ys):
        v.eq('price at point', c(x), y)
        v.eq('forward price at point', c.get_forward_price(x), y)
    x = v.real('x', 0.25, 12)
    v.assume(x <= xs[-1])
    v.eq('price', c(x), log_linear(v, xs, ys, x))
    v.eqs('called with list', c(xs), ys)


@REG.harness(quick=['flat', 'steps'])
def yield_with_spread(v, dcf, kind):
    """a spread on the yield curve counts"""
    o = v.const(v.choice('origin', [0.25, 0, -2]))
    xs, ys = grid(v, 2, 0.5, 2, 0.5, 3), reals(v, 2, 0.5, 200)
    r, b = v.real('r', -0.1, 0.2), v.real('b', -0.1, 0.2)
    zc = dcf.ZeroRateCurve([o, o + 4], [r, r if kind == 'flat' else 2 * r])
    c = dcf.ForwardCurve(xs, ys, origin=o, yield_curve=zc)
    x = xs[-1] + v.real('x', 0.25, 8)
    before = c(x)
    df = zc.get_discount_factor(xs[-1], x)
    v.eq('without', before * df, ys[-1], 100)
    zc.spread = dcf.DateCurve([o, o + 1], [b, b])
    df = zc.get_discount_factor(xs[-1], x)
    v.eq('with spread', c(x) * df, ys[-1], 100)
    if kind == 'flat':
        v.eq('forward price', c(x), ys[-1] * v.exp((r + b) * (x - xs[-1])),
             100)
    zc.spread = None
    v.eq('without again', c(x), before, 100)
