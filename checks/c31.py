"""C31 rate tables list curve values"""
from engine.api import Registry
from checks.common import GAPS, grid, long_grid, reals

REG = Registry('C31', bounds='2..3 grid dates and 2..3 steps with symbolic '
               'gaps, curves with 2..3 points; up to 14 rows and 8 columns '
               '(thorough 40, 9) at fixed distances')


@REG.harness(quick=[(2, 2), (3, 2), (2, 3), (3, 3)], thorough=[(4, 3)])
def given_grids(v, dcf, p):
    """row per date, column per step, cut where the next row begins"""
    n, m = p
    c = dcf.ZeroRateCurve(grid(v, 2, 0.5, 1, 0.5, 3), reals(v, 2, 0, 0.1),
                          origin=v.const(0.25))
    xs = grid(v, n, 0.3, 1, 0.3, 2, 'a')
    st = [v.const(0)]
    for i in range(1, m):
        st.append(st[-1] + v.real('s%d' % i, 0.2, 1))
    t = dcf.rate_table(c, xs, st)
    v.holds('rows', len(t) == n + 1)
    v.holds('corner', t[0][0] == '')
    v.eqs('header', t[0][1:], st)
    for i, x in enumerate(xs):
        row = t[i + 1]
        v.eq('row date', row[0], x)
        end = xs[i + 1] if i + 1 < n else xs[-1] + 2 * st[-1]
        want = [c(x + s) for s in st if x + s < end]
        v.eqs('row', row[1:], want)


@REG.harness(quick=[2, 3])
def own_grid(v, dcf, n):
    """without grids the rows are the origin and the points"""
    step = v.real('g', 0.3, 1)
    o = v.const(0.25)
    xs = [o + step * (i + 1) for i in range(n)]
    ys = reals(v, n, 0, 0.1)
    c = dcf.ZeroRateCurve(xs, ys, origin=o)
    for t in (dcf.rate_table(c), c.table):
        v.holds('rows', len(t) == n + 2)
        v.eqs('dates', [r[0] for r in t[1:]], [o] + xs)
        v.eq('first step', t[0][1], 0)
        for x, row in zip([o] + xs, t[1:]):
            v.eq('row begins with value', row[1], c(x))


@REG.harness(quick=['before', 'unsorted'])
def any_origin(v, dcf, how):
    """points before the origin, the origin between or among the points and
    dates given in any order: rows are in ascending order"""
    step = v.real('g', 0.3, 1)
    xs = [step * -1, step * 1, step * 2]
    o = v.const(0)
    if v.choice('origin is a point', [False, True]):
        xs = [step * -1, o, step * 1]
    if how == 'unsorted':
        k = v.choice('order', [(1, 0, 2), (2, 1, 0), (1, 2, 0)])
        xs = [xs[i] for i in k]
    ys = reals(v, 3, 0, 0.1)
    c = dcf.DateCurve(xs, ys, origin=o)
    t = c.table
    rows = sorted(xs + ([] if any(x is o for x in xs) else [o]))
    v.eqs('dates', [r[0] for r in t[1:]], rows)
    v.eq('first step', t[0][1], 0)
    for x, row in zip(rows, t[1:]):
        v.eq('row begins with value', row[1], c(x))


@REG.harness(quick=['ZeroRateCurve', 'DateCurve', 'Curve'])
def again(v, dcf, cls):
    """tables made before do not matter: points are those of the moment"""
    step = v.real('g', 0.3, 1)
    o = v.const(0)
    xs = [o, step * 1, step * 2]
    ys = reals(v, 3, 0, 0.1)
    kw = {} if cls == 'Curve' else {'origin': o}
    c = getattr(dcf, cls)(xs, ys, **kw)
    d = getattr(dcf, cls)(xs[:2], reals(v, 2, 0, 0.1, 'z'), **kw)

    def check(label, t, c, xs):
        v.eqs(label + ' dates', [r[0] for r in t[1:]], xs)
        v.eq(label + ' first step', t[0][1], 0)
        for x, row in zip(xs, t[1:]):
            v.eq(label + ' value', row[1], c(x))
    check('first', c.table, c, xs)
    check('other', d.table, d, xs[:2])
    y = v.real('y', 0, 0.1)
    c[xs[1]] = y
    check('updated', c.table, getattr(dcf, cls)(xs, [ys[0], y, ys[2]], **kw),
          xs)
    n = step * 3
    c[n] = ys[0]
    check('with another point', c.table,
          getattr(dcf, cls)(xs + [n], [ys[0], y, ys[2], ys[0]], **kw),
          xs + [n])
    check('other again', d.table, d, xs[:2])
    t = dcf.rate_table(c, [xs[1]], [step * 0])
    v.eqs('given grids', t[1], [xs[1]]) if len(t[1]) == 1 else None


@REG.harness(quick=[(9, 2), (2, 8), (6, 6), (14, 1)], thorough=[(40, 9)])
def many(v, dcf, p):
    """many rows and columns at fixed distances"""
    n, m = p
    o = v.const(0.25)
    c = dcf.ZeroRateCurve([o + 1, o + 9], reals(v, 2, 0, 0.1), origin=o)
    xs = long_grid(v, n)
    st = [v.const(0)]
    for i in range(1, m):
        st.append(st[-1] + GAPS[i % len(GAPS)] / 4)
    t = dcf.rate_table(c, xs, st)
    v.holds('rows', len(t) == n + 1)
    v.eqs('header', t[0][1:], st)
    for i, x in enumerate(xs):
        end = xs[i + 1] if i + 1 < n else xs[-1] + 2 * st[-1]
        v.eq('row date', t[i + 1][0], x)
        v.eqs('row', t[i + 1][1:], [c(x + s) for s in st if x + s < end])


@REG.harness(quick=[7, 12], thorough=[40])
def own_long(v, dcf, n):
    """rows of a curve with many points at equal distances"""
    o = v.const(0)
    xs = [o + 0.5 * (i + 1) for i in range(n)]
    c = dcf.ZeroRateCurve(xs, reals(v, n, 0, 0.1), origin=o)
    t = c.table
    v.eqs('dates', [r[0] for r in t[1:]], [o] + xs)
    for x, row in zip([o] + xs, t[1:]):
        v.eq('row begins with value', row[1], c(x))


@REG.harness(quick=['ZeroRateCurve', 'Curve', 'DateCurve'])
def long_spans(v, dcf, cls):
    """without grids: whatever the columns, they ascend from zero by steps
    of the points and every cell before the next row has its value"""
    o = v.const(v.choice('origin', [0, 0.25, -2]))
    gaps = v.choice('gaps', [(0.5, 2, 0.25), (1, 4, 4), (0.25, 1.5, 0.75),
                             (3, 1, 1), (0.5, 1.75, 0.25)])
    xs = [o]
    for g in gaps:
        xs.append(xs[-1] + g)
    ys = reals(v, 4, 0, 0.1)
    kw = {} if cls == 'Curve' else {'origin': o}
    c = getattr(dcf, cls)(xs, ys, **kw)
    t = dcf.rate_table(c)
    st = t[0][1:]
    v.eq('first step', st[0], 0)
    for a, b in zip(st, st[1:]):
        v.holds('ascending', a < b)
    for g in gaps[:1]:
        v.holds('step of the first row', any(a == g for a in st))
    v.holds('below the longest span or the last', st[-1] <= max(gaps))
    v.eqs('dates', [r[0] for r in t[1:]], xs)
    for i, x in enumerate(xs):
        row = t[i + 1][1:]
        end = xs[i + 1] if i + 1 < len(xs) else xs[-1] + 2 * st[-1]
        v.eqs('row', row, [c(x + s) for s in st if x + s < end])
    v.eqs('columns given', dcf.rate_table(c, xs, [v.const(0)])[0][1:], [0])
