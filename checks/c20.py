"""C20 rate cashflows pay rate times period times notional"""
from engine.api import Registry
from checks.common import GAPS, grid, reals
from checks.c07 import ORIGIN

REG = Registry('C20', bounds='1..4 flows (thorough 6; up to 30 and 80 at fixed '
               'distances) with symbolic dates, '
               'amounts, rates and offsets; forward rates as number, '
               'function, curve or option model')

FWD = ('none', 'number', 'function', 'plain curve', 'cash rate curve',
       'model', 'model list')


def forward(v, dcf, k):
    """(what to give as forward curve, the rate expected at a fixing date)"""
    if k == 'none':
        return None, lambda x: 0
    if k == 'number':
        f = v.real('f', -0.1, 0.1)
        return f, lambda x: f
    a, b = v.real('f', -0.1, 0.1), v.real('g', -0.01, 0.01)
    if k == 'function':
        return (lambda x: a + b * x), (lambda x: a + b * x)
    o = v.const(0)
    if k == 'plain curve':
        c = dcf.DateCurve([o, o + 2], [a, b], origin=o)
        return c, c
    c = dcf.CashRateCurve([o, o + 2], [a, b], origin=o,
                          forward_tenor=v.const(0.5))
    if k == 'cash rate curve':
        return c, c.get_cash_rate
    m = dcf.models.NormalOptionPayOffModel(valuation_date=o, forward_curve=c,
                                           volatility_curve=v.const(0.1))
    if k == 'model':
        return m, c.get_cash_rate
    return dcf.OptionCashflowList([v.const(1)], [1], [0.1],
                                  payoff_model=m), c.get_cash_rate


@REG.harness(quick=[(k, 1) for k in FWD] + [(k, 3) for k in FWD[:3]],
             thorough=[(k, 4) for k in FWD[:5]])
def amounts(v, dcf, p):
    """(fixed rate + forward rate at the start) x period x notional"""
    k, n = p
    f, rate = forward(v, dcf, k)
    ds = grid(v, n, 0.5, 2, 0.125, 2)
    am = reals(v, n, -100, 100, 'a')
    q = v.real('q', -0.1, 0.1)
    lag = v.choice('fixing', [None, 'lag'])
    lag = lag if lag is None else v.real('lag', 0.0625, 0.25)
    o = v.const(ORIGIN)
    l = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=q,
                             fixing_offset=lag, forward_curve=f)
    s = o
    for d, a in zip(ds, am):
        x = s if lag is None else s - lag
        want = (q + rate(x)) * (d - s) * a
        v.eq('flow', l[d], want, 100)
        po = l.payoff(d)
        v.eq('start', po.start, s)
        v.eq('end', po.end, d)
        v.eq('payoff called', po(f), want, 100)
        v.eq('detail', po.details(f)['cashflow'], want, 100)
        v.eq('period', po.details(f)['year fraction'], d - s)
        v.eq('forward rate', po.details(f).get('forward rate', 0), rate(x))
        v.eq('fixing date', po.details(f).get('fixing date', x), x)
        s = d


@REG.harness(quick=[(n, w) for n in (1, 2, 4) for w in
                    ('origin', 'zero', 'step')], thorough=[(6, 'step')])
def periods(v, dcf, p):
    """each period starts where the last one ends, the first at the origin,
    also if it is the date zero, or one step before"""
    n, w = p
    ds = grid(v, n, 0.5, 2, 0.125, 2)
    o = v.real('o', -1, 0.25) if w == 'origin' else v.const(0)
    kw = {} if w == 'step' else {'origin': o}
    cls = v.choice('class', ['RateCashFlowList',
                             'ContingentRateCashFlowList'])
    am = v.real('a', -100, 100)
    l = getattr(dcf, cls)(ds, am, fixed_rate=v.const(0.05), **kw)
    s = o
    if w == 'step':
        s = ds[0] if n == 1 else ds[0] - (ds[1] - ds[0])
    for d in ds:
        po = l.payoff(d)
        v.eq('start', po.start, s)
        v.eq('end', po.end, d)
        v.eq('notional', po.amount, am, 100)
        v.eq('flow', l[d], 0.05 * (d - s) * am, 100)
        s = d
    v.eqs('dates', l.domain, ds)


@REG.harness(quick=[1, 2, 3], thorough=[5])
def offsets(v, dcf, n):
    """a payment offset moves the periods before the payment dates"""
    ds = grid(v, n, 0.5, 2, 0.5, 2)
    lag = v.real('lag', 0.0625, 0.25)
    fix = v.choice('fixing', [None, 0.125])
    f = v.real('g', -0.1, 0.1)
    cls = v.choice('class', ['RateCashFlowList',
                             'ContingentRateCashFlowList'])
    kw = {'forward_curve': lambda x: f * x} if cls[0] == 'R' else {}
    l = getattr(dcf, cls)(ds, reals(v, n, -100, 100, 'a'),
                          origin=v.const(ORIGIN), pay_offset=lag,
                          fixing_offset=fix, fixed_rate=v.const(0.05), **kw)
    last = None
    for d in ds:
        po = l.payoff(d)
        v.eq('end before payment', po.end, d - lag)
        if last is not None:
            v.eq('no gap', po.start, last)
        last = po.end
        if cls[0] == 'R':
            x = po.start - (fix or 0)
            v.eq('flow', l[d], (0.05 + f * x) * (po.end - po.start) *
                 po.amount, 100)


@REG.harness(quick=['RateCashFlowList', 'ContingentRateCashFlowList'])
def fixed_rate(v, dcf, cls):
    """the fixed rate of all flows can be read and set"""
    ds = grid(v, 2, 0.5, 2, 0.5, 2)
    am = reals(v, 2, -100, 100, 'a')
    q, r = v.real('q', -0.1, 0.1), v.real('r', -0.1, 0.1)
    l = getattr(dcf, cls)(ds, am, origin=v.const(ORIGIN), fixed_rate=q)
    v.eq('read', l.fixed_rate, q)
    before = [l[d] for d in ds]
    l.fixed_rate = r
    v.eq('set', l.fixed_rate, r)
    for d, x, a in zip(ds, before, am):
        v.eq('linear', l[d] * q, x * r, 10)
        l.payoff(d).fixed_rate = d
    v.holds('no common rate', l.fixed_rate is None)
    z = v.const(0) if v.choice('zero', [0, 1]) else r
    l.fixed_rate = z
    v.eq('set again', l.fixed_rate, z)
    for d, x in zip(ds, before):
        v.eq('linear again', l[d] * q, x * z, 10)


@REG.harness()
def near_rates(v, dcf):
    """fixed rates that differ, by however little, are no common rate"""
    ds = grid(v, 3, 0.5, 2, 0.5, 2)
    q, e = v.real('q', -0.1, 0.1), v.real('e', 2 ** -30, 0.5)
    cls = v.choice('class', ['RateCashFlowList',
                             'ContingentRateCashFlowList'])
    l = getattr(dcf, cls)(ds, 1.0, origin=v.const(ORIGIN), fixed_rate=q)
    v.eq('common', l.fixed_rate, q)
    i = v.choice('i', [0, 1, 2])
    l.payoff(ds[i]).fixed_rate = q + e
    v.holds('no common rate', l.fixed_rate is None)
    v.eq('flow', l[ds[2]], (q + (e if i == 2 else 0)) * (ds[2] - ds[1]))
    l.payoff(ds[i]).fixed_rate = q
    v.eq('common again', l.fixed_rate, q)


@REG.harness(quick=['cash rate curve', 'zero rate curve', 'plain curve',
                    'fixed'])
def own_day_count(v, dcf, w):
    """the day count of a forward curve is not that of the flows"""
    k, m = v.real('k', 0.5, 2), v.real('m', 0.5, 2)
    o = v.const(0)
    ds = grid(v, 2, 0.5, 2, 0.5, 2)
    a, b = v.real('f', 0.01, 0.1), v.real('g', 0.01, 0.1)

    def dc(s, e):
        return (e - s) * k
    if w == 'cash rate curve':
        c = dcf.CashRateCurve([o, o + 2], [a, b], origin=o, day_count=dc,
                              forward_tenor=v.const(0.5))
    elif w == 'zero rate curve':
        c = dcf.ZeroRateCurve([o, o + 2], [a, a], origin=o, day_count=dc,
                              forward_tenor=v.const(0.5))
    elif w == 'plain curve':
        c = dcf.DateCurve([o, o + 2], [a, b], origin=o, day_count=dc)
    else:
        c = None
    own = v.choice('own', [None, lambda s, e: (e - s) * m])
    l = dcf.RateCashFlowList(ds, 8.0, origin=o, fixed_rate=v.const(0.0625),
                             forward_curve=c, day_count=own)
    s = o
    for d in ds:
        r = 0
        if w == 'plain curve':
            r = c(s)
        elif c is not None:
            r = c.get_cash_rate(s)
        v.eq('flow', l[d], 8 * (r + 0.0625) * (d - s) * (m if own else 1))
        v.eq('period', l.payoff(d).details(c)['year fraction'],
             (d - s) * (m if own else 1))
        s = d


@REG.harness()
def day_count(v, dcf):
    """the given day count decides the length of the periods"""
    k = v.real('k', 0.5, 2)
    ds = grid(v, 2, 0.5, 2, 0.5, 2)
    am = reals(v, 2, -100, 100, 'a')
    cls = v.choice('class', ['RateCashFlowList',
                             'ContingentRateCashFlowList'])
    l = getattr(dcf, cls)(ds, am, origin=v.const(ORIGIN),
                          fixed_rate=v.const(0.05),
                          day_count=lambda s, e: (e - s) * k)
    s = ORIGIN
    for d, a in zip(ds, am):
        v.eq('flow', l[d], 0.05 * (d - s) * k * a, 100)
        s = d


@REG.harness(quick=['3M', '1M'])
def calendar(v, dcf, tenor):
    """calendar dates: days over 365.25"""
    t0 = v.date(0)
    offs = v.choice('ds', [(90, 180, 270), (31, 365, 800)])
    ds = [v.date(x) for x in offs]
    am = reals(v, 3, -100, 100, 'a')
    q = v.real('q', -0.1, 0.1)
    fw = dcf.CashRateCurve([v.date(0), v.date(900)],
                           reals(v, 2, -0.05, 0.1, 'f'),
                           forward_tenor=tenor)
    l = dcf.RateCashFlowList(ds, am, origin=t0, fixed_rate=q,
                             forward_curve=fw)
    s = 0
    for x, d, a in zip(offs, ds, am):
        v.eq('flow', l[d], (q + fw.get_cash_rate(v.date(s))) *
             ((x - s) / 365.25) * a, 100)
        s = x


@REG.harness(quick=[(k, j) for k in FWD[:4] for j in FWD[1:5]
                    if (k, j) != ('plain curve', 'cash rate curve')])
def again(v, dcf, p):
    """flows asked for before do not matter: forward curve, rates and
    notionals are those of the moment"""
    k, j = p
    f, fr = forward(v, dcf, k)

    class W:
        def __getattr__(self, n):
            return getattr(v, n)

        def real(self, n, *b):
            return v.real('w' + n, *b)
    g, gr = forward(W(), dcf, j)
    ds = grid(v, 2, 0.5, 2, 0.125, 2)
    am = reals(v, 2, -100, 100, 'a')
    q = v.real('q', -0.1, 0.1)
    o = v.const(ORIGIN)
    l = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=q, forward_curve=f)
    other = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=q)

    def check(label, got, q, rate):
        for s, d, a, x in zip([o] + ds, ds, am, got):
            v.eq(label, x, (q + rate(s)) * (d - s) * a, 100)
    check('flows', l[ds], q, fr)
    check('called with another', list(l(g)[ds]), q, gr)
    check('still', l[tuple(ds)], q, fr)
    check('called', list(l()[ds]), q, fr)
    l.forward_curve = g
    check('another forward curve', l[ds], q, gr)
    r = v.real('nq', -0.1, 0.1)
    l.fixed_rate = r
    check('another fixed rate', l[ds], r, gr)
    b = v.real('b', -100, 100)
    am2 = [b, am[1]]
    l.payoff(ds[0]).amount = b
    v.eq('another notional', l[ds[0]], (r + gr(o)) * (ds[0] - o) * b, 100)
    check('other list', other[ds], q, lambda x: 0)


@REG.harness(quick=[('none', 8), ('number', 13), ('cash rate curve', 8),
                    ('function', 30)], thorough=[('function', 80)])
def many(v, dcf, p):
    """the same for many flows at fixed distances"""
    k, n = p
    f, rate = forward(v, dcf, k)
    o = v.const(ORIGIN)
    ds = [o + 0.5]
    for i in range(1, n):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    am = [a * (-1) ** i for i, a in enumerate(reals(v, n, 1, 100, 'a'))]
    q = v.real('q', -0.1, 0.1)
    l = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=q, forward_curve=f)
    s = o
    for d, x, a in zip(ds, l[ds], am):
        v.eq('flow', x, (q + rate(s)) * (d - s) * a, 100)
        v.eq('start', l.payoff(d).start, s)
        s = d
    v.eqs('dates', l.domain, ds)
    v.eq('fixed rate', l.fixed_rate, q)
    l.fixed_rate = v.const(0.5)
    for d in ds:
        v.eq('set', l.payoff(d).fixed_rate, 0.5)
