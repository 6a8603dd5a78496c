"""C17 basis point value and bucketed delta are the changes of the value for
the shifted curve"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import ORIGIN

REG = Registry('C17', bounds='1..2 flows at symbolic dates, curves with 2..3 '
               'points (thorough 5), delta grids with 1..4 points (thorough '
               '6; 6..20 at fixed dates), symbolic shift of either sign')


def setting(v, dcf, n, m, cls='ZeroRateCurve', xs=None):
    xs = xs or grid(v, n, 0.5, 2, 0.5, 2, 'c')
    ys = reals(v, n, 0, 0.1, 'r') if cls[0] == 'Z' else \
        reals(v, n, 0.6, 0.9, 'r')

    def curve(bump=None):
        b = bump or [0] * n
        return getattr(dcf, cls)(xs, [y + h for y, h in zip(ys, b)],
                                 origin=v.const(ORIGIN))
    ds = grid(v, m, 0.5, 2, 0.25, 2)
    am = reals(v, m, -10, 10, 'a')
    return xs, curve, ds, am


@REG.harness(quick=[(c, n, m) for c in ('ZeroRateCurve',
                                        'DiscountFactorCurve')
                    for n, m in ((1, 1), (2, 1), (2, 2), (3, 1))],
             thorough=[('ZeroRateCurve', 5, 1), ('ZeroRateCurve', 3, 2)])
def parallel(v, dcf, p):
    """value after a shift of all curve values, scaled to one basis point"""
    cls, n, m = p
    xs, curve, ds, am = setting(v, dcf, n, m, cls)
    c = curve()
    f = dcf.FixedCashFlowList(ds, am)
    k = v.choice('shift', ['default', 'given', 'negative'])
    h = v.const(0.0001) if k == 'default' else v.real('h', 0.001, 0.01)
    h = -h if k == 'negative' else h
    kw = {} if k == 'default' else {'shift': h}
    t = v.choice('t', [None, 0.75])
    t = t if t is None else v.const(t)
    kw2 = v.choice('curve', [{}, 'self', 'list'])
    if kw2:
        kw['delta_curve'] = c if kw2 == 'self' else [c]
    got = dcf.get_basis_point_value(f, c, t, **kw)
    up = curve([h] * n)
    if cls[0] == 'D':
        # spread on factors is a level, no interpolation of it
        up = None
    pv = dcf.get_present_value(f, c, t)
    if up is None:
        c.spread = dcf.DateCurve([c.origin], [h])
        sh = dcf.get_present_value(f, c, t)
        c.spread = None
    else:
        sh = dcf.get_present_value(f, up, t)
    v.eq('basis point value', got * h * 10000, sh - pv, 0.01)


@REG.harness(quick=['ZeroRateCurve'])
def sensitivity(v, dcf, cls):
    """one flow and a flat curve: minus amount times time times factor"""
    r, d, a = v.real('r', 0, 0.1), v.real('d', 0.5, 3), v.real('a', 1, 10)
    h = v.real('h', 0.001, 0.01)
    c = dcf.ZeroRateCurve([v.const(0)], [r])
    f = dcf.FixedCashFlowList([d], [a])
    got = dcf.get_basis_point_value(f, c, shift=h)
    v.eq('closed form', got * h * 10000,
         a * (v.exp(-(r + h) * d) - v.exp(-r * d)), 0.01)
    v.holds('rates up, value down', got < 0)


def hat(v, grid, i, x):
    """piecewise linear, one at grid[i], zero at the other points"""
    n = len(grid)
    if x <= grid[0]:
        return 1 if i == 0 else 0
    if x >= grid[-1]:
        return 1 if i == n - 1 else 0
    for j in range(n - 1):
        if grid[j] <= x and x <= grid[j + 1]:
            w = (x - grid[j]) / (grid[j + 1] - grid[j])
            return 1 - w if i == j else w if i == j + 1 else 0


@REG.harness(quick=[(g, k) for g in (1, 2, 3) for k in ('grid', 'curve')] +
             [(4, 'grid')], thorough=[(6, 'grid')])
def buckets(v, dcf, p):
    """each bucket shifts the curve by a hat over the grid"""
    g, k = p
    gr = grid(v, g, 0.5, 2, 0.5, 2, 'g')
    xs, curve, ds, am = setting(v, dcf, g if k == 'curve' else 1, 1,
                                xs=gr if k == 'curve' else None)
    c = curve()
    h = v.real('h', 0.001, 0.01)
    h = -h if v.choice('down', [0, 1] if g < 4 else [0]) else h
    f = dcf.FixedCashFlowList(ds, am)
    kw = {} if k == 'curve' else {'delta_grid': v.choice(
        'seq', [list, tuple])(gr)}
    got = dcf.get_bucketed_delta(f, c, shift=h, **kw)
    v.holds('one value per grid point', len(got) == g)
    d, a = ds[0], am[0]
    yf = d - ORIGIN
    r = c.get_zero_rate(d)
    base = a * v.exp(-r * yf)
    for i in range(g):
        want = a * v.exp(-(r + h * hat(v, gr, i, d)) * yf) - base
        v.eq('bucket', got[i] * h * 10000, want, 0.01)
    v.holds('no spread left', c.spread is None)


@REG.harness(quick=[2, 3, 4], thorough=[6])
def partition(v, dcf, g):
    """linear values: the buckets add up to the basis point value"""
    gr = grid(v, g, 0.5, 2, 0.5, 2, 'g')
    h = v.real('h', 0.001, 0.01)
    class Linear(dcf.ZeroRateCurve):
        """value linear in the curve: what small shifts come to"""

        def get_discount_factor(self, start, stop=None):
            return 1 - self(stop) * (stop - start)
    c = Linear([v.const(ORIGIN)], reals(v, 1, 0, 0.1, 'r'))
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    f = dcf.FixedCashFlowList(ds, reals(v, 2, -10, 10, 'a'))
    got = dcf.get_bucketed_delta(f, c, delta_grid=gr, shift=h)
    v.eq('sum', sum(got), dcf.get_basis_point_value(f, c, shift=h), 0.001)


@REG.harness(quick=[(fn, w) for fn in ('bpv', 'delta') for w in
                    ('forward', 'both', 'same')])
def forward_curve(v, dcf, p):
    """a delta curve other than the discount curve, or several at once"""
    fn, w = p
    x = v.const(ORIGIN)
    r, q = v.real('r', 0, 0.1), v.real('q', 0, 0.05)
    c = dcf.ZeroRateCurve([x], [r])
    fw = dcf.CashRateCurve([x], [q], forward_tenor=v.const(1))
    h = v.real('h', 0.001, 0.01)
    ds = grid(v, 2, 0.5, 1, 0.25, 1)
    am = reals(v, 2, -10, 10, 'a')
    f = dcf.RateCashFlowList(ds, am, origin=x, forward_curve=fw)
    dl = {'forward': fw, 'both': [c, fw], 'same': c}[w]
    gr = grid(v, 2, 0.5, 1, 0.5, 2, 'g')
    if fn == 'bpv':
        got = dcf.get_basis_point_value(f, c, delta_curve=dl, shift=h),
    else:
        got = dcf.get_bucketed_delta(f, c, delta_curve=dl, delta_grid=gr,
                                     shift=h)

    def value(b):
        s, w0 = x, 0
        for d, a in zip(ds, am):
            rr = r + (b(d) if w != 'forward' else 0)
            qq = q + (b(s) if w != 'same' else 0)
            w0 = w0 + a * qq * (d - s) * v.exp(-rr * (d - x))
            s = d
        return w0
    pv = value(lambda y: 0)
    for i, y in enumerate(got):
        sh = value(lambda z: h if fn == 'bpv' else h * hat(v, gr, i, z))
        v.eq('shifted value', y * h * 10000, sh - pv, 0.01)


@REG.harness()
def valuation_date(v, dcf):
    """flows before the valuation date do not react"""
    c = dcf.ZeroRateCurve([v.const(0)], reals(v, 1, 0, 0.1, 'r'))
    ds = grid(v, 2, 0.5, 1, 0.5, 2)
    am = reals(v, 2, 1, 10, 'a')
    t = ds[0] + 0.125
    f = dcf.FixedCashFlowList(ds, am)
    g = dcf.FixedCashFlowList(ds[1:], am[1:])
    h = v.real('h', 0.001, 0.01)
    for fn in (dcf.get_basis_point_value,
               lambda *a, **k: dcf.get_bucketed_delta(
                   *a, delta_grid=[t, t + 1], **k)[0]):
        v.eq('valuation date', fn(f, c, t, shift=h) * h * 10000,
             fn(g, c, t, shift=h) * h * 10000, 0.01)


@REG.harness(quick=['bpv', 'delta'])
def again(v, dcf, fn):
    """figures asked for before, with other shifts, grids or curves, do not
    matter"""
    x = v.const(0)
    r, q = v.real('r', 0, 0.1), v.real('q', 0, 0.1)
    c = dcf.ZeroRateCurve([x], [r])
    e = dcf.ZeroRateCurve([x], [q])
    h, k = v.real('h', 0.001, 0.01), v.real('k', 0.001, 0.01)
    d, a = v.real('d', 0.5, 3), v.real('a', -10, 10)
    f = dcf.FixedCashFlowList([d], [a])
    gr, hr = grid(v, 2, 0.5, 1, 0.5, 2, 'g'), grid(v, 2, 0.5, 1, 0.5, 2, 'h')

    def go(c, h, gr):
        if fn == 'bpv':
            return [dcf.get_basis_point_value(f, c, shift=h)]
        return dcf.get_bucketed_delta(f, c, delta_grid=gr, shift=h)

    def check(label, got, r, h, gr):
        base = a * v.exp(-r * d)
        for i, y in enumerate(got):
            s = h * (1 if fn == 'bpv' else hat(v, gr, i, d))
            v.eq(label, y * h * 10000, a * v.exp(-(r + s) * d) - base, 0.01)
    go(c, k, hr), go(e, h, gr)
    check('figure', go(c, h, gr), r, h, gr)
    check('other shift', go(c, k, gr), r, k, gr)
    if fn == 'delta':
        check('other grid', go(c, h, hr), r, h, hr)
    c[x] = q
    check('after an update', go(c, h, gr), q, h, gr)


@REG.harness(quick=[6, 9], thorough=[20])
def long_grids(v, dcf, g):
    """the same for grids with many dates at fixed distances"""
    gr = [v.const(0.5)]
    for i in range(1, g):
        gr.append(gr[-1] + GAPS[i % len(GAPS)])
    h = v.real('h', 0.001, 0.01)
    x = v.const(ORIGIN)
    r, d, a = v.real('r', 0, 0.1), v.real('d', 0.5, 12), v.real('a', -10, 10)
    v.assume(d < gr[-1] + 1)
    c = dcf.ZeroRateCurve([x], [r], origin=x)
    if v.choice('k', [0, 1]):
        c = dcf.ZeroRateCurve(gr, [r] * g, origin=x)
        got = dcf.get_bucketed_delta(dcf.FixedCashFlowList([d], [a]), c,
                                     shift=h)
    else:
        got = dcf.get_bucketed_delta(dcf.FixedCashFlowList([d], [a]), c,
                                     delta_grid=gr, shift=h)
    v.holds('one value per grid point', len(got) == g)
    base = a * v.exp(-r * (d - ORIGIN))
    for i in range(g):
        want = a * v.exp(-(r + h * hat(v, gr, i, d)) * (d - ORIGIN)) - base
        v.eq('bucket', got[i] * h * 10000, want, 0.01)


@REG.harness(quick=[(3, 'grid'), (3, 'curve'), (4, 'grid')],
             thorough=[(4, 'curve')])
def any_order(v, dcf, p):
    """grids and curves with dates in any order: one value per date in the
    order given, each for the neighbours by date"""
    g, k = p
    gr = grid(v, g, 0.5, 2, 0.5, 2, 'g')
    order = v.choice('order', [(1, 0, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1)]
                     if g == 3 else [(3, 1, 0, 2), (1, 2, 3, 0)])
    gs = [gr[i] for i in order]
    h = v.real('h', 0.001, 0.01)
    x = v.const(ORIGIN)
    r, d, a = v.real('r', 0, 0.1), v.real('d', 0.5, 4), v.real('a', -10, 10)
    f = dcf.FixedCashFlowList([d], [a])
    if k == 'curve':
        c = dcf.ZeroRateCurve(gs, [r] * g, origin=x)
        got = dcf.get_bucketed_delta(f, c, shift=h)
    else:
        c = dcf.ZeroRateCurve([x], [r], origin=x)
        got = dcf.get_bucketed_delta(f, c, delta_grid=v.choice(
            'seq', [list, tuple])(gs), shift=h)
    v.holds('one value per grid point', len(got) == g)
    base = a * v.exp(-r * (d - ORIGIN))
    for i, y in zip(order, got):
        want = a * v.exp(-(r + h * hat(v, gr, i, d)) * (d - ORIGIN)) - base
        v.eq('bucket', y * h * 10000, want, 0.01)


@REG.harness(quick=['one', 'list'])
def default_grid(v, dcf, k):
    """without grid the dates of the delta curve; those of the discount curve
    if several are shifted"""
    x = v.const(ORIGIN)
    r, q = v.real('r', 0, 0.1), v.real('q', 0, 0.05)
    xs, gs = grid(v, 2, 0.5, 1, 0.5, 2, 'x'), grid(v, 3, 0.5, 1, 0.5, 2, 'g')
    c = dcf.ZeroRateCurve(xs, [r, r], origin=x)
    fw = dcf.ZeroRateCurve(gs, [q] * 3, origin=x)
    d, a = v.real('d', 0.5, 4), v.real('a', -10, 10)
    h = v.real('h', 0.001, 0.01)
    f = dcf.RateCashFlowList([d + 1], [a], origin=d,
                             forward_curve=lambda t: fw(t))
    got = dcf.get_bucketed_delta(f, c, shift=h, delta_curve=fw
                                 if k == 'one' else [fw])
    gr = gs if k == 'one' else xs
    v.holds('one value per grid point', len(got) == len(gr))
    for i, y in enumerate(got):
        v.eq('bucket', y * 10000,
             a * hat(v, gr, i, d) * v.exp(-r * (d + 1 - x)), 0.01)
