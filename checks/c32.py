"""C32 tables and details explain the amounts of cashflow lists"""
from engine.api import Registry
from checks.common import grid, long_grid, reals, some_orders
from checks.c20 import forward
from checks.c21 import call

REG = Registry('C32', bounds='1..3 flows (thorough 5; up to 33 and 80 at fixed '
               'distances) with symbolic dates, '
               'amounts, rates, strikes, offsets, volatility; 1..2 legs')


def rows(t):
    return [dict(zip(t[0], r)) for r in t[1:]]


def listed(v, l, ds):
    """one row per date, with the amount of the list"""
    t = l.table
    v.holds('one row per date', len(t) == len(ds) + 1)
    for r, d in zip(rows(t), ds):
        v.holds('date', r['pay date'] == d)
    for r, d in zip(rows(t), ds):
        v.eq('amount', r['cashflow'], l[d], 100)
    return rows(t)


@REG.harness(quick=[(c, n) for c in ('CashFlowList', 'FixedCashFlowList',
                                     'ContingentCashFlowList')
                    for n in (1, 3)])
def plain(v, dcf, p):
    """amounts only"""
    cls, n = p
    xs = grid(v, n, 0, 2, 0.25, 2)
    idx = some_orders(v, n)
    ds = [xs[i] for i in idx]
    if cls[:4] == 'Cont':
        l = dcf.ContingentCashFlowList(ds)
        am = [0] * n
    else:
        am = reals(v, n, -100, 100, 'a')
        l = getattr(dcf, cls)(ds, am)
    t = listed(v, l, ds)
    v.eqs('amounts', [r['cashflow'] for r in t], am, 100)
    v.holds('columns', l.table[0] == ('cashflow', 'pay date'))


@REG.harness(quick=[(k, n) for k in ('none', 'number', 'cash rate curve',
                                     'model', 'model list') for n in (1, 3)],
             thorough=[(k, 5) for k in ('none', 'cash rate curve')])
def rates(v, dcf, p):
    """(fixed rate + forward rate) x year fraction x notional"""
    k, n = p
    f, rate = forward(v, dcf, k)
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    q, o = v.real('q', -0.1, 0.1), v.const(0.25)
    lag = v.choice('fixing', [None, 'lag'])
    lag = lag and v.real('lag', 0.0625, 0.125)
    off = v.choice('pay', [None, 'off'])
    off = off and v.real('off', 0.0625, 0.125)
    l = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=q,
                             fixing_offset=lag, pay_offset=off,
                             forward_curve=f)
    s = o if off is None else o - off
    for r, d, a in zip(listed(v, l, ds), ds, am):
        e = d if off is None else d - off
        v.eq('notional', r['notional'], a, 100)
        v.eq('start', r['start date'], s)
        v.eq('end', r['end date'], e)
        v.eq('year fraction', r['year fraction'], e - s)
        v.eq('fixed rate', r['fixed rate'], q)
        v.eq('recalculated', r['cashflow'],
             (r['fixed rate'] + r.get('forward rate', 0)) *
             r['year fraction'] * r['notional'], 100)
        if k != 'none':
            x = s if lag is None else s - lag
            v.eq('fixing date', r.get('fixing date', x), x)
            v.eq('forward rate', r.get('forward rate', 0), rate(x))
            if 'number' not in k:
                v.eq('tenor', r['tenor'], 0.5)
        s = e
    v.eq('unchanged', l[ds[0]], l.table[1][0], 100)


@REG.harness(quick=[(k, n) for k in ('pay', 'fix', 'both', 'none')
                    for n in (1, 2)], thorough=[('both', 4)])
def options(v, dcf, p):
    """notional x call or put value at the expiry"""
    k, n = p
    m = 'NormalOptionPayOffModel'
    o, vol = v.real('o', -1, 0), v.real('vol', 0.05, 0.5)
    a, b = v.real('f', -0.1, 0.1), v.real('g', -0.01, 0.01)
    md = dcf.models.NormalOptionPayOffModel(
        valuation_date=o, forward_curve=lambda x: a + b * x,
        volatility_curve=lambda x: vol)
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    ks = reals(v, n, -1, 1, 'k')
    put = [v.choice('put%d' % i, [True, False]) for i in range(n)]
    lag = v.real('lag', 0.0625, 0.125) if k in ('fix', 'both') else None
    off = v.real('off', 0.0625, 0.125) if k in ('pay', 'both') else None
    l = dcf.OptionCashflowList(ds, am, ks, put, fixing_offset=lag,
                               pay_offset=off, payoff_model=md)
    for i, r in enumerate(listed(v, l, ds)):
        x = ds[i] - (lag or 0) - (off or 0)
        v.eq('notional', r['notional'], am[i], 100)
        v.eq('strike', r['strike'], ks[i])
        v.eq('expiry', r['expiry date'], x)
        v.eq('fixing', r['fixing date'], x)
        v.holds('put or call', r['put/call'] == ('put' if put[i] else
                                                 'call'))
        v.eq('forward', r['forward'], a + b * x)
        v.eq('volatility', r['volatility'], vol)
        v.eq('valuation date', r['valuation date'], o)
        v.eq('time', r['time to expiry'], x - o)
        want = call(v, m, r['forward'], r['strike'],
                    r['volatility'] * v.sqrt(r['time to expiry']))
        if put[i]:
            want = want - r['forward'] + r['strike']
        v.eq('recalculated', r['cashflow'], want * r['notional'], 100)


@REG.harness(quick=[(1, 1), (2, 1), (0, 2)])
def strategy(v, dcf, p):
    """the options of a strategy, by strike"""
    nc, np = p
    o, vol = v.const(0), v.real('vol', 0.05, 0.5)
    f = v.real('f', -0.1, 0.1)
    md = dcf.models.NormalOptionPayOffModel(
        valuation_date=o, forward_curve=lambda x: f,
        volatility_curve=lambda x: vol)
    d = v.real('d', 0.5, 4)
    ca, ck = reals(v, nc, -9, 9, 'ca'), reals(v, nc, -1, 1, 'ck')
    pa, pk = reals(v, np, -9, 9, 'pa'), reals(v, np, -1, 1, 'pk')
    l = dcf.OptionStrategyCashflowList([d], ca, ck, pa, pk, payoff_model=md)
    r, = listed(v, l, [d])
    s = vol * v.sqrt(d)
    want, prev = 0, None
    for i in range(nc + np):
        x = call(v, 'Normal', f, r['#%d strike' % i], s)
        if r['#%d put/call' % i] == 'put':
            x = x - f + r['#%d strike' % i]
        want = want + x * r['#%d notional' % i]
        if prev is not None:
            v.le('by strike', prev, r['#%d strike' % i])
        prev = r['#%d strike' % i]
    v.eq('recalculated', r['cashflow'], want, 100)
    v.eq('forward', r['forward'], f)
    v.eq('volatility', r['volatility'], vol)


@REG.harness(quick=[(w, n) for w in ('cap', 'floor', 'collar', 'none')
                    for n in (1, 2)])
def contingent(v, dcf, p):
    """rate flow plus floorlet minus caplet"""
    w, n = p
    o, vol = v.const(0), v.real('vol', 0.05, 0.5)
    f, q = v.real('f', -0.1, 0.1), v.real('q', -0.1, 0.1)
    md = dcf.models.NormalOptionPayOffModel(
        valuation_date=o, forward_curve=lambda x: f,
        volatility_curve=lambda x: vol)
    ds = grid(v, n, 0.75, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    kc = v.real('kc', -1, 1) if w in ('cap', 'collar') else None
    kf = v.real('kf', -1, 1) if w in ('floor', 'collar') else None
    l = dcf.ContingentRateCashFlowList(
        ds, am, origin=v.const(0.25), fixed_rate=q, cap_strike=kc,
        floor_strike=kf, payoff_model=md)
    s = v.const(0.25)
    for r, d, a in zip(listed(v, l, ds), ds, am):
        v.eq('notional', r['notional'], a, 100)
        v.eq('year fraction', r['year fraction'], d - s)
        v.eq('start', r['start date'], s)
        want = (r['fixed rate'] + r['forward rate']) * (d - s) * a
        x = vol * v.sqrt(s)
        if kc is not None:
            v.eq('cap strike', r['caplet strike'], kc)
            v.eq('caplet', r['caplet'],
                 call(v, 'Normal', f, kc, x) * a * (d - s), 100)
            v.eq('cap volatility', r['caplet volatility'], vol)
            want = want - r['caplet']
        if kf is not None:
            v.eq('floor strike', r['floorlet strike'], kf)
            v.eq('floorlet', r['floorlet'],
                 (call(v, 'Normal', f, kf, x) + kf - f) * a * (d - s), 100)
            v.eq('floor volatility', r['floorlet volatility'], vol)
            want = want + r['floorlet']
        if w != 'none':
            v.eq('time', r['time to expiry'], s)
        v.eq('recalculated', r['cashflow'], want, 100)
        s = d


@REG.harness(quick=[(1, 1), (2, 1), (2, 2)], thorough=[(3, 2)])
def legs(v, dcf, p):
    """a list of legs shows the sums of its legs"""
    n, m = p
    a = grid(v, n, 0.5, 2, 0.25, 2, 'a')
    b = grid(v, m, 0.5, 2, 0.25, 2, 'b')
    l = dcf.CashFlowLegList([
        dcf.FixedCashFlowList(a, reals(v, n, -100, 100, 'u')),
        dcf.RateCashFlowList(b, reals(v, m, -100, 100, 'w'),
                             origin=v.const(0.25), fixed_rate=v.const(0.5))])
    listed(v, l, l.domain)


@REG.harness()
def calendar(v, dcf):
    """calendar dates, before and after a call"""
    t = v.date(0)
    ds = [v.date(90), v.date(182), v.date(400)]
    am = reals(v, 3, -100, 100, 'a')
    f = v.real('f', -0.1, 0.1)
    c = dcf.CashRateCurve([t], [f], origin=t, forward_tenor='6M')
    l = dcf.RateCashFlowList(ds, am, origin=t, forward_curve=c)
    for r, s, d, a in zip(listed(v, l, ds), [t] + ds, ds, am):
        v.eq('year fraction', r['year fraction'], c.day_count(s, d))
        v.holds('start', r['start date'] == s)
        v.holds('end', r['end date'] == d)
        v.eq('recalculated', r['cashflow'],
             f * r['year fraction'] * a, 100)
        v.holds('tenor', r['tenor'] == '6M')
    x = l()
    for r, d, a in zip(listed(v, x, ds), ds, am):
        v.eq('called', r['cashflow'], l[d], 100)


@REG.harness(quick=['fixed', 'rate', 'option', 'legs'])
def again(v, dcf, kind):
    """tables made before do not matter: rates, curves and models are those
    of the moment"""
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    am = reals(v, 2, -100, 100, 'a')
    o = v.const(0)
    if kind == 'fixed':
        l = dcf.FixedCashFlowList(ds, am)
    elif kind == 'option':
        md = dcf.models.IntrinsicOptionPayOffModel(o, v.real('f', 0.5, 1))
        l = dcf.OptionCashflowList(ds, am, v.real('k', 0.5, 1),
                                   payoff_model=md)
    else:
        l = dcf.RateCashFlowList(ds, am, origin=o,
                                 fixed_rate=v.real('q', -0.1, 0.1),
                                 forward_curve=v.real('f', -0.1, 0.1))
    m = dcf.CashFlowLegList([l, l]) if kind == 'legs' else l
    other = dcf.FixedCashFlowList(ds[:1], [v.const(7)])
    listed(v, other, ds[:1])
    listed(v, m, ds)
    if kind == 'fixed':
        l.payoff(ds[0]).amount = v.const(3)
        v.eq('amount', rows(m.table)[0]['cashflow'], 3)
    elif kind == 'option':
        l.payoff_model = dcf.models.IntrinsicOptionPayOffModel(
            o, v.real('g', 0.5, 1))
    else:
        l.fixed_rate = v.real('n', -0.1, 0.1)
        listed(v, m, ds)
        l.forward_curve = v.real('g', -0.1, 0.1)
    listed(v, m, ds)
    v.eqs('other', [r['cashflow'] for r in listed(v, other, ds[:1])], [7])


@REG.harness(quick=[('fixed', 7), ('fixed', 33), ('rate', 13), ('option', 13),
                    ('legs', 13), ('deep', 6)], thorough=[('rate', 80)])
def many(v, dcf, p):
    """the same for many rows at fixed distances"""
    kind, n = p
    ds = long_grid(v, n)
    o = v.const(0.25)
    am = [a * (-1) ** i for i, a in enumerate(reals(v, n, 1, 100, 'a'))]
    f = v.real('f', 0.5, 1)
    if kind == 'fixed':
        l = dcf.FixedCashFlowList(ds, am)
    elif kind == 'option':
        l = dcf.OptionCashflowList(
            ds, am, v.const(0.75),
            payoff_model=dcf.models.IntrinsicOptionPayOffModel(o, f))
    else:
        l = dcf.RateCashFlowList(ds, am, origin=o, fixed_rate=f)
    if kind == 'legs':
        l = dcf.CashFlowLegList([l] + [
            dcf.FixedCashFlowList([d], [v.const(i)])
            for i, d in enumerate(ds)])
    if kind == 'deep':
        for i in range(4):
            l = dcf.CashFlowLegList([l, dcf.FixedCashFlowList(
                ds[i:i + 1], [v.const(1)])])
    t = listed(v, l, ds)
    if kind == 'rate':
        s = o
        for r, d, a in zip(t, ds, am):
            v.eq('notional', r['notional'], a, 100)
            v.eq('start', r['start date'], s)
            v.eq('recalculated', r['cashflow'], f * a * (d - s), 100)
            s = d
