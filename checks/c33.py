"""C33 integrals and derivatives of date curves

The numerical quadrature (scipy, compiled) is not encoded: in the symbolic
runs it is replaced by its contract for the integrands at hand, the exact
integral of a function linear between known points (one evaluation in the
middle of each piece). Counterexamples are replayed with the real one.
"""
from engine.api import Registry, ConcV
from checks.common import GAPS, grid, reals, off_nodes

REG = Registry('C33', bounds='1..3 points (thorough 4; up to 9 and 25 at fixed '
               'distances), any period within '
               '8 years, before the first and after the last point, day '
               'counts of symbolic scale; derivatives on calendar dates at, '
               'between and outside two points',
               assumptions=['scipy.integrate.quad is exact for piecewise '
                            'linear functions (stand-in in symbolic runs)'])


class Quad:
    """exact integral of a function linear between `nodes`"""

    def __init__(self, v, nodes):
        self.nodes, self.real = nodes, isinstance(v, ConcV)

    def __enter__(self):
        if not self.real:
            from engine import loader
            loader.QUAD = self.quad

    def __exit__(self, *_):
        if not self.real:
            from engine import loader
            loader.QUAD = None

    def quad(self, func, a, b, *_, **__):
        if b < a:
            x, e = self.quad(func, b, a)
            return -x, e
        cuts = [a] + [x for x in self.nodes if a < x and x < b] + [b]
        tot = 0
        for s, e in zip(cuts, cuts[1:]):
            tot = tot + func((s + e) / 2) * (e - s)
        return tot, 0.0


def area(xs, ys, a, b, kind):
    """integral of the interpolated values by hand"""
    def at(x):
        if x <= xs[0]:
            return ys[0]
        for (s, p), (e, q) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
            if x <= e:
                return p + (q - p) * (x - s) / (e - s)
        return ys[-1]
    cuts = [a] + [x for x in xs if a < x and x < b] + [b]
    tot = 0
    for s, e in zip(cuts, cuts[1:]):
        tot = tot + (at(s) + at(e)) / 2 * (e - s)
    return tot


CLS = 'DateCurve', 'ZeroRateCurve', 'FlatIntensityCurve'


@REG.harness(quick=[(c, n) for c in CLS for n in (1, 2, 3)],
             thorough=[(c, 4) for c in CLS])
def average(v, dcf, p):
    """the integral is annualized: the average of the curve"""
    cls, n = p
    xs, ys = grid(v, n, 0.5, 2, 0.5, 2), reals(v, n, -1, 1)
    o = v.const(v.choice('origin', [0.25, 0.0, -1.0]))
    c = getattr(dcf, cls)(xs, ys, origin=o)
    a = v.real('a', 0, 3)
    b = a + v.real('p', 0.0625, 3)
    with Quad(v, [x - o for x in xs]):
        got = c.integrate(a, b)
    v.eq('average', got * (b - a), area(xs, ys, a, b, None))
    v.holds('curve as before', list(c.domain) == list(xs))
    v.eq('value as before', c(xs[0]), ys[0])


@REG.harness(quick=[1, 2], thorough=[3])
def additive(v, dcf, n):
    """integrals over adjacent periods add up, of a flat curve it is the
    value"""
    xs, ys = grid(v, n, 0.5, 2, 0.5, 2), reals(v, n, -1, 1)
    o = v.const(0.25)
    c = dcf.DateCurve(xs, ys, origin=o)
    a = v.real('a', 0, 3)
    b = a + v.real('p', 0.0625, 3)
    d = b + v.real('q', 0.0625, 3)
    with Quad(v, [x - o for x in xs]):
        x, y, z = c.integrate(a, b), c.integrate(b, d), c.integrate(a, d)
        flat = dcf.DateCurve(xs, [ys[0]] * n, origin=o).integrate(a, d)
    v.eq('sum', x * (b - a) + y * (d - b), z * (d - a))
    v.eq('flat', flat, ys[0])


@REG.harness()
def day_count(v, dcf):
    """times are measured by the day count of the curve"""
    k = v.real('k', 0.5, 2)

    def dc(s, e):
        return (e - s) * k
    xs, ys = grid(v, 2, 0.5, 2, 0.5, 2), reals(v, 2, -1, 1)
    o = v.const(0.25)
    c = dcf.DateCurve(xs, ys, origin=o, day_count=dc)
    a = v.real('a', 0, 3)
    b = a + v.real('p', 0.0625, 3)
    with Quad(v, [(x - o) * k for x in xs]):
        got = c.integrate(a, b)
    v.eq('average', got * (b - a), area(xs, ys, a, b, None))


@REG.harness(quick=['DateCurve', 'ZeroRateCurve', 'FlatIntensityCurve'])
def slope(v, dcf, cls):
    """the derivative is the slope of the curve, per year"""
    from checks.common import weekdays
    t = v.date(0)
    a, b = v.choice('dates', [(10, 40), (0, 365), (100, 102)])
    ys = reals(v, 2, -1, 1)
    uneven = v.choice('uneven', [0, 1])
    dc = weekdays(v) if uneven else None
    c = getattr(dcf, cls)([v.date(a), v.date(b)], ys, origin=t, day_count=dc)
    at = v.choice('at', ['first', 'inside', 'last', 'after'])
    x = v.date({'first': a, 'inside': b - 1, 'last': b, 'after': b + 9}[at])
    got = c.derivative(x)
    if at in ('last', 'after'):
        v.eq('flat', got, 0)
    else:
        v.eq('slope', got * c.day_count(v.date(a), v.date(b)), ys[1] - ys[0])


@REG.harness(quick=[1, 2, 3])
def backwards(v, dcf, n):
    """the average over a period is the same backwards"""
    xs, ys = grid(v, n, 0.5, 2, 0.5, 2), reals(v, n, -1, 1)
    o = v.const(0.25)
    c = dcf.DateCurve(xs, ys, origin=o)
    a = v.real('a', 0, 3)
    b = a + v.real('p', 0.0625, 3)
    with Quad(v, [x - o for x in xs]):
        x, y = c.integrate(a, b), c.integrate(b, a)
    v.eq('backwards', x, y)
    v.eq('average', y * (b - a), area(xs, ys, a, b, None))


@REG.harness(quick=[6, 9], thorough=[25])
def many(v, dcf, n):
    """the same for many points at fixed distances"""
    o = v.const(0.25)
    xs = [o + 0.5]
    for i in range(1, n):
        xs.append(xs[-1] + GAPS[i % len(GAPS)])
    ys = reals(v, n, -1, 1)
    c = dcf.DateCurve(xs, ys, origin=o)
    a = v.real('a', 0, 2)
    b = v.real('b', 2.25, 1.1 * n + 2)
    with Quad(v, [x - o for x in xs]):
        got = c.integrate(a, b)
    v.eq('average', got * (b - a), area(xs, ys, a, b, None), 4)
