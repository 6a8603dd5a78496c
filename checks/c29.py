"""C29 terminal volatilities: variance adds up"""
from engine.api import Registry
from checks.common import GAPS, grid, reals, history, GETTERS
from checks.c33 import Quad

REG = Registry('C29', bounds='1..3 points (up to 9, thorough 25, at fixed '
               'distances), any dates up to 8 years, some up to 90, '
               'dates before the origin and around zero, '
               'volatilities in [0, 2], with and without floor')


def make(v, dcf, n, kind=None, lo=0.05):
    if n < 3:
        xs = grid(v, n, 0.5, 2, 0.5, 3)
    else:
        xs = [0.5, 1.75, 3.25, 5.0][:n]
    ys = reals(v, n, lo, 0.5)
    o = v.const(0.25)
    return dcf.TerminalVolatilityCurve(xs, ys, kind, origin=o), xs, ys, o


@REG.harness(quick=[1, 2, 3], thorough=[4])
def additive(v, dcf, n):
    """variance over a period is the difference of total variances"""
    c, xs, ys, o = make(v, dcf, n)
    a = o + v.real('a', 0.01, 4)
    p = v.real('p', 0.01, 4)
    b = a + p
    va, vb = c(a) ** 2 * (a - o), c(b) ** 2 * (b - o)
    v.eq('from origin', c.get_terminal_vol(o, a), c(a))
    v.eq('one date', c.get_terminal_vol(b), c(b))
    var = (vb - va) / p
    v.assume((var > 0) | (var < 0))
    if var > 0:
        s = c.get_terminal_vol(a, b)
        v.eq('variance', s * s * p, vb - va)
        v.holds('non negative', s >= 0)
    else:
        v.raises('negative variance', ZeroDivisionError,
                 lambda: c.get_terminal_vol(a, b))
    v.eq('reversed period', c.get_terminal_vol(b, a), 0)


@REG.harness(quick=[1, 2])
def below_zero(v, dcf, n):
    """periods that begin before the origin or touch date zero"""
    o = v.const(v.choice('o', [-0.25, 0.0, 0.5]))
    xs = [v.const(x) for x in (-2.0, 2.0)][:n]
    ys = reals(v, n, 0.1, 0.5)
    c = dcf.TerminalVolatilityCurve(xs, ys, origin=o)
    a = v.choice('a', [0.0, -1.0, None])
    a = v.real('s', -4, 0.5) if a is None else v.const(a)
    p = v.real('p', 0.01, 4)
    b = a + p
    v.assume((a < o) | (a > o))
    var = (c(b) ** 2 * (b - o) - c(a) ** 2 * (a - o)) / p
    v.assume(var > 0)
    s = c.get_terminal_vol(a, b)
    v.eq('variance', s * s, var)


@REG.harness(quick=[1, 2])
def floor(v, dcf, n):
    """with a floor volatilities of periods never fall below it"""
    c, xs, ys, o = make(v, dcf, n)
    f = v.choice('none', [0, 0.0]) if v.choice('zero', [0, 1]) else \
        v.real('f', 0.01, 0.5)
    base = type(c)
    sub = type('Floored', (base,), {'FLOOR': f})
    c = sub(xs, ys, origin=o)
    a = o + v.real('a', 0.01, 4)
    p = v.real('p', 0.01, 4)
    b = a + p
    var = (c(b) ** 2 * (b - o) - c(a) ** 2 * (a - o)) / p
    v.assume((var > f * f) | (var < f * f))
    v.assume((var > 0) | (var < 0))
    s = c.get_terminal_vol(a, b)
    if var < f * f:
        v.eq('floor', s, f)
    else:
        v.eq('variance', s * s, var)
    v.holds('no floor by default', base.FLOOR is None)


@REG.harness()
def flat(v, dcf):
    """a flat curve has the same volatility for every period"""
    o = v.const(0.25)
    y = v.real('y', 0, 2)
    c = dcf.TerminalVolatilityCurve([0.5, 1.0], [y, y], origin=o)
    a = o + v.real('a', 0.01, 4)
    v.eq('period', c.get_terminal_vol(a, a + v.real('p', 0.01, 4)), y)
    i = dcf.InstantaneousVolatilityCurve([0.5, 1.0], [y, y], origin=o)
    v.eq('instantaneous', i.get_instantaneous_vol(a), y)
    with Quad(v, [0.25, 0.75]):
        v.eq('period of instantaneous',
             i.get_terminal_vol(a, a + v.real('q', 0.0625, 4)), y)
    v.eq('no period', i.get_terminal_vol(a, a), y)


@REG.harness()
def calendar(v, dcf):
    t = v.date(0)
    ys = [v.real('y0', 0.1, 0.2), v.real('y1', 0.15, 0.2)]
    c = dcf.TerminalVolatilityCurve([v.date(30), v.date(60)], ys, origin=t)
    a = v.date(v.choice('a', [1, 30, 40, 100]))
    va = c(a) ** 2 * c.day_count(a)
    b = a + '1d'
    vb = c(b) ** 2 * c.day_count(b)
    if vb - va >= 0:
        s = c.get_instantaneous_vol(a)
        v.eq('one day', s * s * c.day_count(a, b), vb - va)
        v.eq('no period', c.get_terminal_vol(a, a), s)


USED = ('TerminalVolatilityCurve',)


@REG.harness(quick=[(c, g) for c in USED for g in GETTERS[c]])
def used(v, dcf, p):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    history(v, dcf, *p)


@REG.harness(quick=[6, 9], thorough=[25])
def many(v, dcf, n):
    """the same for many points at fixed distances"""
    o = v.const(0.25)
    xs = [o + 1]
    for i in range(1, n):
        xs.append(xs[-1] + GAPS[i % len(GAPS)])
    ys = reals(v, n, 0.1, 0.5)
    c = dcf.TerminalVolatilityCurve(xs, ys, origin=o)
    i = v.choice('i', list(range(n - 1)))
    j = v.choice('j', sorted({i + 1, min(i + 3, n - 1), n - 1}))
    a, b = xs[i], xs[j]
    v.eq('at point', c.get_terminal_vol(b), ys[j])
    var = ys[j] ** 2 * (b - o) - ys[i] ** 2 * (a - o)
    v.assume(var > 0)
    s = c.get_terminal_vol(a, b)
    v.eq('variance', s * s * (b - a), var)


@REG.harness(quick=[1, 2, 3])
def long_periods(v, dcf, n):
    """the same for periods up to fifty years"""
    o = v.const(0.25)
    xs = [1.0, 8.0, 30.0][:n]
    ys = reals(v, n, 0.1, 0.5)
    c = dcf.TerminalVolatilityCurve(xs, ys, origin=o)
    a = o + v.choice('a', [0.125, 5.0, 11.0, 40.0])
    p = v.choice('p', [3.0, 11.0, 24.0, 50.0])
    b = a + p
    vb, va = c(b) ** 2 * (b - o), c(a) ** 2 * (a - o)
    v.assume(vb > va + 0.01)
    s = c.get_terminal_vol(a, b)
    v.eq('variance', s * s * p, vb - va, 10)
