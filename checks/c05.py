"""C05 day counts"""
from engine.api import Registry

REG = Registry('C05', bounds='float dates in [-100, 100]; calendar dates up '
               'to 20000 days apart; all three date representations (float, '
               'calendar date with difference in days, timedelta style), whole '
               'numbers; rules given by function or name, at any time')


class Delta:
    def __init__(self, days):
        self.days = days


class Day:
    """calendar date in the style of datetime.date (difference has .days)"""

    def __init__(self, n):
        self.n = n

    def __sub__(self, o):
        return Delta(self.n - o.n)


def three(v, rep):
    if rep == 'float':
        a = v.real('a', -100, 100)
        b, c = a + v.real('b', -50, 50), a + v.real('c', -50, 50)
        return a, b, c, b - a
    a, b, c = (v.int(n, 0, 20000) for n in 'abc')
    n = (b - a) / v.const(365.25)
    if rep == 'days':
        return Day(a), Day(b), Day(c), n
    return v.date(a), v.date(b), v.date(c), n


@REG.harness(quick=['float', 'days', 'date'])
def default_day_count(v, dcf, rep):
    """year fraction is additive, antisymmetric and days / 365.25"""
    a, b, c, n = three(v, rep)
    dc = dcf.daycount.day_count
    v.eq('year fraction', dc(a, b), n)
    v.eq('additive', dc(a, b) + dc(b, c), dc(a, c))
    v.eq('antisymmetric', dc(b, a), -dc(a, b))
    v.eq('zero', dc(a, a), 0)


@REG.harness(quick=['float', 'days', 'date'])
def curve_day_count(v, dcf, rep):
    """curves measure from their origin with the default rule"""
    a, b, c, n = three(v, rep)
    f = dcf.DateCurve([a], [1.0], origin=a)
    v.eq('from origin', f.day_count(b), n)
    v.eq('additive', f.day_count(b) + f.day_count(b, c), f.day_count(c))
    g = dcf.DateCurve([b], [1.0])
    v.eq('implicit origin', g.day_count(c), f.day_count(b, c))
    v.eq('explicit', g.day_count(a, b), n)


@REG.harness(quick=['float', 'days'])
def given_day_count(v, dcf, rep):
    """a day count function given to a curve is the one used"""
    a, b, c, n = three(v, rep)
    k = v.real('k', 0.5, 2)
    base = dcf.daycount.day_count

    def dc(s, e):
        return base(s, e) * k
    f = dcf.DateCurve([a], [1.0], origin=a, day_count=dc)
    v.eq('year fraction', f.day_count(a, b), n * k)
    v.eq('from origin', f.day_count(b), n * k)
    z = dcf.ZeroRateCurve([a], [v.real('r', -0.05, 0.2)], origin=a,
                          day_count=dc)
    v.eq('used by copies', dcf.ZeroRateCurve(z).day_count(b), n * k)


@REG.harness()
def whole_numbers(v, dcf):
    """dates may be whole numbers, zero included"""
    a = v.choice('start', [-1, 0, 2])
    b = v.choice('end', [-3, 0, 1])
    o = v.choice('origin', [0, 1, -2])
    x = v.real('x', -5, 5)
    k = v.real('k', 0.5, 2)
    dc = dcf.daycount.day_count
    v.eq('year fraction', dc(a, b), b - a)
    v.eq('to another', dc(a, x), x - a)
    v.eq('from another', dc(x, b), b - x)
    for f, m in ((dcf.DateCurve([o, o + 2], [1.0, 2.0]), 1),
                 (dcf.DateCurve([o + 1, o + 2], [1.0, 2.0], origin=o,
                                day_count=lambda s, e: (e - s) * k), k)):
        v.eq('curve', f.day_count(a, b), (b - a) * m)
        v.eq('curve from another', f.day_count(x, b), (b - x) * m)
        v.eq('curve to another', f.day_count(a, x), (x - a) * m)
        v.eq('from origin', f.day_count(b), (b - o) * m)
    g = dcf.ZeroRateCurve([1, 2], [x, k], origin=o)
    v.eq('rate curve', g.day_count(a, b), b - a)
    v.eq('rate curve from origin', g.day_count(b), b - o)


@REG.harness()
def given_when_built(v, dcf):
    """the day count given when a curve is built from another is used, by
    name or function, whatever the other has"""
    a, b, c, n = three(v, 'float')
    k, m = v.real('k', 0.5, 2), v.real('m', 0.5, 2)
    name = v.choice('name', ['double', 'default'])
    A = type('A', (dcf.DateCurve,),
             {'DAY_COUNT': {name: lambda s, e: (e - s) * k}})
    Z = type('Z', (dcf.ZeroRateCurve,), {'DAY_COUNT': A.DAY_COUNT})
    other = v.choice('other', [None, lambda s, e: (e - s) * m, name])
    f = A([a, a + 1], [1.0, 2.0], day_count=other)
    g = Z([a, a + 1], [0.01, 0.02], day_count=other)
    given = v.choice('given', [name, lambda s, e: (e - s) * m])
    r = k if given == name else m
    v.eq('curve', A([a, a + 1], f, day_count=given).day_count(a, b), n * r)
    v.eq('curve alone', A(f, day_count=given).day_count(a, b), n * r)
    v.eq('rate curve', Z([a, a + 1], g, day_count=given).day_count(a, b),
         n * r)
    v.eq('cast', Z(g, day_count=given).day_count(c), (c - a) * r)
    s = 1 if other is None else k if other == name else m
    v.eq('kept', A([a, a + 1], f).day_count(a, b), n * s)
    v.eq('kept by cast', Z(g).day_count(a, b), n * s)
    v.eq('source', f.day_count(a, b), n * s)


@REG.harness()
def named_day_count(v, dcf):
    """a name registered with the curve class selects that function"""
    name = v.choice('name', ['scaled', 'default', 'act/365.25', '30/360',
                             'none', 'ACT'])
    a, b, c, n = three(v, 'float')
    k = v.real('k', 0.5, 2)
    old = dict(dcf.DateCurve.DAY_COUNT)
    dcf.DateCurve.DAY_COUNT[name] = lambda s, e: (e - s) * k
    try:
        f = dcf.DateCurve([a], [1.0], origin=a, day_count=name)
        v.eq('year fraction', f.day_count(a, b), n * k)
        v.eq('from origin', f.day_count(c), (c - a) * k)
        g = type(f)(**f.kwargs)
        v.eq('copy by keywords', g.day_count(a, b), n * k)
        z = dcf.ZeroRateCurve([a], [v.real('r', -0.05, 0.2)], origin=a,
                              day_count=name)
        v.eq('cast', dcf.ZeroRateCurve(z).day_count(a, b), n * k)
        v.eq('rate copy by keywords',
             type(z)(**z.kwargs).day_count(a, b), n * k)
        v.eq('curve without', dcf.DateCurve([a], [1.0]).day_count(a, b), n)
    finally:
        dcf.DateCurve.DAY_COUNT.clear()
        dcf.DateCurve.DAY_COUNT.update(old)


@REG.harness(quick=['DateCurve', 'ZeroRateCurve', 'FlatIntensityCurve',
                    'ForwardCurve', 'TerminalVolatilityCurve'])
def several_curves(v, dcf, cls):
    """curves asked before, with other day counts or origins, do not matter"""
    a, b, c, n = three(v, 'float')
    k, m = v.real('k', 0.5, 2), v.real('m', 0.5, 2)
    f = getattr(dcf, cls)

    def make(o, k):
        kw = {'day_count': lambda s, e: (e - s) * k} if k is not None else {}
        return f([a, a + 1], [0.25, 0.5], origin=o, **kw)
    x, y, z, w = make(a, k), make(a, m), make(b, k), make(a, None)
    for _ in range(2):
        v.eq('first', x.day_count(a, b), n * k)
        v.eq('other day count', y.day_count(a, b), n * m)
        v.eq('default day count', w.day_count(a, b), n)
        v.eq('from origin', x.day_count(c), (c - a) * k)
        v.eq('from other origin', z.day_count(c), (c - b) * k)
        v.eq('other day count from origin', y.day_count(c), (c - a) * m)
        v.eq('default from origin', w.day_count(c), c - a)
    t = x(a + 0.5)
    y(a + 0.5), w(a + 0.5)
    v.eq('value', x(a + 0.5), t)
