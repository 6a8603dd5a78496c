"""C30 cashflow lists are mappings from pay dates to amounts"""
from engine.api import Registry
from checks.common import grid, long_grid, reals, some_orders
from checks.c07 import ORIGIN

REG = Registry('C30', bounds='1..3 flows per list (thorough 5) with symbolic '
               'dates and amounts, up to 33 (thorough 120) at fixed '
               'distances, up to 9 levels of legs, 1..3 legs of shared or different dates, '
               'nested legs, all list classes; query date anywhere')
CLASSES = ('CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
           'ContingentCashFlowList')


def build(v, dcf, cls, ds, am, **kw):
    if cls == 'ContingentCashFlowList':
        m = v.const(2)
        return dcf.ContingentCashFlowList(
            ds, [(lambda x, a=a: a * x * 0.5) for a in am],
            payoff_model=m, **kw)
    if cls == 'RateCashFlowList':
        kw.setdefault('day_count', lambda s, e: 1.0)
        return dcf.RateCashFlowList(ds, am, fixed_rate=v.const(1), **kw)
    return getattr(dcf, cls)(ds, am, **kw)


@REG.harness(quick=[(c, n) for c in CLASSES for n in (1, 3)],
             thorough=[(c, 5) for c in CLASSES])
def mapping(v, dcf, p):
    """each pay date has its amount, all others nothing"""
    cls, n = p
    xs = grid(v, n, 0, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    idx = some_orders(v, n)
    ds = [xs[i] for i in idx]
    given = list(ds)
    t = v.choice('type', [list, tuple])
    kw = {'origin': v.const(ORIGIN)} if cls[0] == 'R' else {}
    l = build(v, dcf, cls, t(given), t([am[i] for i in idx]), **kw)
    v.eqs('dates', l.domain, ds)
    for i in idx:
        v.eq('amount', l[xs[i]], am[i], 100)
    v.eqs('all amounts', l[l.domain], [am[i] for i in idx], 100)
    v.eqs('some amounts', l[[xs[0], xs[-1]]], [am[0], am[-1]], 100)
    v.eqs('given dates unchanged', given, ds)
    q = v.real('q', -1, 9)
    want = 0
    for x, a in zip(xs, am):
        if q == x:
            want = a
    v.eq('any date', l[q], want, 100)
    v.eq('several dates', l[(q, xs[0])][0], want, 100)
    v.eq('called', l()[q], want, 100)
    v.eqs('called dates', l().domain, ds)
    v.holds('payoff or none', (l.payoff(q) is None) ==
            (not any(bool(q == x) for x in xs)))
    v.holds('payoffs', l.payoff(l.domain) == tuple(
        l.payoff(x) for x in ds))


@REG.harness(quick=[(c, n) for c in CLASSES for n in (1, 2)])
def origin(v, dcf, p):
    """the origin as given, also zero, else the first date"""
    cls, n = p
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    how = v.choice('origin', ['given', 'zero', 'none'])
    if how == 'none':
        l = build(v, dcf, cls, ds, am)
        v.eq('first date', l.origin, ds[0])
        o = None
    else:
        o = v.const(0) if how == 'zero' else v.real('o', -1, 5)
        l = build(v, dcf, cls, ds, am, origin=o)
        v.eq('origin', l.origin, o)
    c = l()
    v.eq('origin kept when called', c.origin, ds[0] if o is None else o)
    f = dcf.FixedCashFlowList(l)
    v.eq('origin kept as fixed flows', f.origin, ds[0] if o is None else o)
    w = v.choice('new', ['zero', 'given'])
    w = v.const(0) if w == 'zero' else v.real('new origin', -1, 5)
    v.eq('new origin', dcf.FixedCashFlowList(l, origin=w).origin, w)


@REG.harness(quick=[(c, n) for c in CLASSES + ('legs',) for n in (1, 3)])
def fixed(v, dcf, p):
    """a fixed list made of any list has its dates and amounts and does not
    follow it any more"""
    cls, n = p
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    am = reals(v, n, -100, 100, 'a')
    l = src = build(v, dcf, 'RateCashFlowList' if cls == 'legs' else cls,
                    ds, am, origin=v.const(ORIGIN))
    if cls == 'legs':
        l = dcf.CashFlowLegList([src, src])
    k = 2 if cls == 'legs' else 1
    f = dcf.FixedCashFlowList(l)
    if hasattr(src, 'fixed_rate'):
        src.fixed_rate = v.real('r', -1, 1)
    if hasattr(src, 'payoff_model'):
        src.payoff_model = v.real('m', -1, 1)
    v.eqs('dates', f.domain, ds)
    for d, a in zip(ds, am):
        v.eq('amount', f[d], k * a, 100)
        v.eq('payoff', f.payoff(d)(), k * a, 100)
    v.eqs('called', f()[ds], [k * a for a in am], 100)


@REG.harness(quick=['CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
                    'ContingentRateCashFlowList', 'OptionCashflowList'])
def amounts(v, dcf, cls):
    """one amount for all dates, by default one; too few amounts are
    refused"""
    n = v.choice('n', [1, 2, 3])
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    a = v.choice('amount', ['number', 'default', 'few', 'many'])
    few = a == 'few'
    if a == 'many' and cls not in ('CashFlowList', 'FixedCashFlowList'):
        return
    x = {'number': v.real('a', -100, 100), 'default': 1,
         'few': [v.const(2)] * (n - 1), 'many': [v.const(2)] * (n + 1)}[a]
    kw = {} if a == 'default' else {'amount_list': x}
    if cls == 'CashFlowList':
        if a == 'default':
            l = dcf.CashFlowList()
            v.holds('empty', l.domain == () and l.origin is None)
            v.eq('no flow', l[v.real('q', -1, 1)], 0)
            return
    elif cls == 'ContingentRateCashFlowList':
        kw.update(fixed_rate=1, day_count=lambda s, e: 1, origin=0)
        if a in ('number', 'default'):
            kw['payoff_model'] = dcf.models.IntrinsicOptionPayOffModel(
                valuation_date=v.const(0), forward_curve=v.const(0))
    elif cls == 'RateCashFlowList':
        kw.update(fixed_rate=1, day_count=lambda s, e: 1, origin=0)
    elif cls == 'OptionCashflowList':
        kw.update(strike_list=v.const(1), payoff_model=dcf.models.
                  IntrinsicOptionPayOffModel(valuation_date=v.const(0),
                                             forward_curve=v.const(2)))
    if a in ('few', 'many'):
        v.raises('refused', ValueError,
                 lambda: getattr(dcf, cls)(ds, **kw))
        return
    l = getattr(dcf, cls)(ds, **kw)
    v.eqs('dates', l.domain, ds)
    for d in ds:
        v.eq('amount', l[d], x, 100)
        v.eq('called', l()[d], x, 100)


@REG.harness(quick=[(1, 1), (2, 1), (1, 1, 1)],
             thorough=[(2, 2), (3, 1), (2, 1, 1)])
def legs(v, dcf, ns):
    """the sum of the legs on all of their dates, in order of the dates"""
    ls, all_ds, os = [], [], []
    for i, n in enumerate(ns):
        ds = grid(v, n, 0, 2, 0.25, 2, 'd%d' % i)
        if i and v.choice('share%d' % i, [False, True]):
            ds[0] = all_ds[0]
            for a, b in zip(ds, ds[1:]):
                v.assume(a < b)
        kw = {}
        if v.choice('origin%d' % i, [False, True]):
            kw['origin'] = v.real('o%d' % i, -2, 4)
        os.append(kw.get('origin', ds[0]))
        cls = CLASSES[(i + v.choice('first', [0, 1]) if i == 0 else i) % 4]
        if cls == 'RateCashFlowList' and not kw:
            cls = 'FixedCashFlowList'
        ls.append(build(v, dcf, cls, ds, reals(v, n, -9, 9, 'a%d' % i),
                        **kw))
        all_ds += ds
    l = dcf.CashFlowLegList(ls)
    for d in all_ds:
        want = 0
        for x in ls:
            want = want + x[d]
        v.eq('sum of the legs', l[d], want, 10)
        v.eq('called', l()[d], want, 10)
        v.holds('all dates', d in l.domain)
    for a, b in zip(l.domain, l.domain[1:]):
        v.holds('in order, each once', a < b)
    for d in l.domain:
        v.holds('no others', d in all_ds)
    q = v.real('q', -1, 8)
    if not any(bool(q == d) for d in all_ds):
        v.eq('other dates', l[q], 0)
    for o in os:
        v.holds('first origin', l.origin <= o)
    v.holds('one of the origins', any(bool(l.origin == o) for o in os))
    v.holds('legs', l.legs == ls)
    v.eqs('several', l[list(all_ds)], [l[d] for d in all_ds], 10)
    n = dcf.CashFlowLegList([dcf.CashFlowLegList(ls[:1])] + ls[1:])
    v.eqs('nested dates', n.domain, l.domain)
    v.eqs('nested', n[n.domain], l[l.domain], 10)


@REG.harness(quick=['rate', 'contingent', 'legs'])
def evaluate(v, dcf, k):
    """called with a model or curve: flows of that one; the list itself
    follows its own forward curve and fixed rate"""
    ds = grid(v, 2, 0.5, 2, 0.25, 2)
    am = reals(v, 2, -9, 9, 'a')
    f, g, r = (v.real(x, -1, 1) for x in 'fgr')
    dc = (lambda s, e: 2)
    if k == 'contingent':
        l = dcf.ContingentCashFlowList(ds, [(lambda x, a=a: a * x)
                                            for a in am], payoff_model=f)
        fixed, yf = 0, 1
    else:
        l = dcf.RateCashFlowList(ds, am, origin=v.const(ORIGIN), day_count=dc,
                                 fixed_rate=r, forward_curve=f)
        fixed, yf = r, 2
    top = dcf.CashFlowLegList([l]) if k == 'legs' else l
    for d, a in zip(ds, am):
        v.eq('own', top[d], (fixed + f) * yf * a, 10)
        v.eq('called', top()[d], (fixed + f) * yf * a, 10)
        v.eq('called with other', top(g)[d], (fixed + g) * yf * a, 10)
        v.eq('own not changed', top[d], (fixed + f) * yf * a, 10)
    once = top()
    if k == 'contingent':
        l.payoff_model = g
    else:
        l.forward_curve = g
    for d, a in zip(ds, am):
        v.eq('follows', top[d], (fixed + g) * yf * a, 10)
        v.eq('follows when called', top()[d], (fixed + g) * yf * a, 10)
        v.eq('evaluated before', once[d], (fixed + f) * yf * a, 10)


@REG.harness()
def refused(v, dcf):
    """legs are lists of cashflows"""
    l = dcf.FixedCashFlowList([v.const(1)], [v.real('a', -9, 9)])
    x = v.choice('leg', ['number', 'list', 'text'])
    x = {'number': v.const(1), 'list': [1.0], 'text': 'leg'}[x]
    v.raises('leg', ValueError, lambda: dcf.CashFlowLegList([l, x]))


@REG.harness()
def default_payoff(v, dcf):
    n = v.choice('n', [1, 2, 3])
    ds = grid(v, n, 0.5, 2, 0.25, 2)
    l = dcf.ContingentCashFlowList(ds)
    v.eqs('dates', l.domain, ds)
    v.eqs('no payments', l[ds], [0] * n)


@REG.harness()
def calendar(v, dcf):
    """calendar dates are kept as such"""
    offs = v.choice('ds', [(0, 1), (30, 400), (400, 30)])
    ds = [v.date(x) for x in offs]
    a, b, c = reals(v, 3, -9, 9, 'a')
    f = dcf.FixedCashFlowList(ds, [a, b])
    g = dcf.FixedCashFlowList([ds[1]], [c])
    l = dcf.CashFlowLegList([f, g])
    n = v.int('n', 0, 400)
    t = v.date(n)
    want = 0
    if n == offs[0]:
        want = a
    elif n == offs[1]:
        want = b + c
    v.eq('any date', l[t], want, 10)
    v.eq('first date', l[ds[0]], a, 10)
    v.eq('shared date', l[ds[1]], b + c, 10)
    v.holds('origin', l.origin == v.date(min(offs)))
    v.holds('in order', l.domain[0] < l.domain[1])


@REG.harness(quick=['CashFlowList', 'FixedCashFlowList', 'RateCashFlowList'])
def again(v, dcf, cls):
    """flows asked for before do not matter: payoffs are those of the moment,
    and lists share nothing"""
    ds = grid(v, 2, 0, 2, 0.25, 2)
    am = reals(v, 2, -100, 100, 'a')
    kw = {'origin': v.const(-1), 'fixed_rate': v.const(1)} \
        if cls[0] == 'R' else {}
    x, y = list(ds), list(am)
    l = getattr(dcf, cls)(x, y, **kw)
    m = getattr(dcf, cls)(x, y, **kw)
    first = list(l[ds])
    given = [l, m]
    g = dcf.CashFlowLegList(given)
    given.append(l)
    given[0] = given[1] = dcf.FixedCashFlowList(ds, [7, 7])
    g.legs.append(l)
    v.eqs('legs', g[ds], [2 * a for a in first], 100)
    v.holds('the legs', list(g.legs) == [l, m])
    v.eqs('called', l()[ds], first, 100)
    b = v.real('b', -100, 100)
    if cls == 'CashFlowList':
        l._flows[ds[0]] = b
        n = 1
    else:
        l.payoff(ds[0]).amount = b
        n = ds[0] + 1 if cls[0] == 'R' else 1
    v.eq('another amount', l[ds[0]], b * n, 300)
    v.eq('other flow', l[ds[1]], first[1], 300)
    v.eq('called again', l()[ds[0]], b * n, 300)
    v.eq('legs again', g[ds[0]], b * n + first[0], 300)
    v.eqs('other list', m[ds], first, 300)
    y[0], y[1] = 0, 0
    x.pop()
    v.eqs('not the given lists', m[ds], first, 300)
    v.eqs('dates', m.domain, ds)


@REG.harness(quick=[(c, n) for c in CLASSES for n in (9, 33)],
             thorough=[(c, 120) for c in CLASSES])
def many(v, dcf, p):
    """the same for many flows at fixed distances"""
    cls, n = p
    ds = long_grid(v, n)
    o = v.choice('order', [list(range(n)), list(range(n))[::-1],
                           list(range(0, n, 2)) + list(range(1, n, 2))])
    am = [a * (-1) ** i for i, a in enumerate(reals(v, n, 1, 100, 'a'))]
    ds, am = [ds[i] for i in o], [am[i] for i in o]
    l = build(v, dcf, cls, ds, am, origin=v.const(ORIGIN))
    v.eqs('dates', l.domain, ds)
    v.eqs('amounts', l[ds], am, 100)
    v.eqs('called', l()[l.domain], am, 100)
    f = dcf.FixedCashFlowList(l)
    for d, a in zip(ds, am):
        v.eq('amount', l[d], a, 100)
        v.eq('fixed', f[d], a, 100)
    v.eq('between', l[ds[0] + 0.0625], 0)


@REG.harness(quick=[(3, 2), (5, 1), (9, 1)], thorough=[(20, 2)])
def deep(v, dcf, p):
    """legs in legs in legs, or many legs"""
    n, m = p
    ds = long_grid(v, m + n)
    am = [reals(v, m, -100, 100, 'a%d' % i) for i in range(n)]
    ls = [build(v, dcf, CLASSES[i % 4], ds[i:i + m], am[i],
                origin=v.const(ORIGIN)) for i in range(n)]
    want = {}
    for i, x in enumerate(am):
        for d, a in zip(ds[i:], x):
            want[d] = want.get(d, 0) + a
    how = v.choice('how', ['flat', 'left', 'right', 'alone'])
    if how == 'flat':
        l = dcf.CashFlowLegList(ls)
    elif how == 'left':
        l = ls[0]
        for x in ls[1:]:
            l = dcf.CashFlowLegList([l, x])
    elif how == 'right':
        l = ls[-1]
        for x in ls[-2::-1]:
            l = dcf.CashFlowLegList([x, l])
    else:
        l = dcf.CashFlowLegList(ls)
        for i in range(n):
            l = dcf.CashFlowLegList([l])
    v.eqs('dates', l.domain, sorted(want))
    for d in want:
        v.eq('amount', l[d], want[d], 300)
        v.eq('called', l()[d], want[d], 300)
    v.eq('origin', l.origin, ORIGIN)
    f = dcf.FixedCashFlowList(l)
    v.eqs('fixed', f[list(want)], [want[d] for d in want], 300)
