"""C10 casting a curve keeps what the target class stores, and its dates"""
from engine.api import Registry
from checks.common import grid, reals

REG = Registry('C10', bounds='2..3 (9 with flat values) calendar dates out of several grids '
               '(with and without the origin as point, list and tuple), '
               'symbolic values; all pairs of classes of a family; given '
               'origin, day count, optional flat spread')

IR = {'ZeroRateCurve': (-0.02, 0.1), 'DiscountFactorCurve': None,
      'CashRateCurve': (-0.02, 0.1), 'ShortRateCurve': (-0.02, 0.1)}
CR = {'FlatIntensityCurve': (0.001, 0.1), 'HazardRateCurve': (0.001, 0.1),
      'SurvivalProbabilityCurve': None, 'DefaultProbabilityCurve': None,
      'MarginalSurvivalProbabilityCurve': (0.9, 0.99),
      'MarginalDefaultProbabilityCurve': (0.01, 0.1)}
VO = {'TerminalVolatilityCurve': (0.1, 0.12),
      'InstantaneousVolatilityCurve': (0.1, 0.2)}
GRIDS = (30, 100), (0, 90), (1, 35, 70)


def source(v, dcf, cls, rng, grids=GRIDS, day_count=None):
    ds = v.choice('dates', grids)
    t = v.date(0)
    if rng is None:
        ys, y = [], v.const(1.0)
        for i, d in enumerate(ds):
            y = y * v.real('y%d' % i, 0.95, 0.999) if d else y
            ys.append(1 - y if 'Default' in cls else y)
    else:
        ys = reals(v, len(ds), *rng)
    seq = v.choice('seq', [list, tuple])
    dom = seq([v.date(d) for d in ds])
    kw = {'day_count': day_count} if day_count else {}
    return getattr(dcf, cls)(dom, ys, origin=t, **kw), t, dom


def stored(c, to, x, tenor=None):
    """the quantity the class `to` stores at x, read from curve c"""
    if to in ('DiscountFactorCurve',):
        return c.get_discount_factor(x)
    if to == 'ZeroRateCurve':
        return c.get_zero_rate(x)
    if to == 'ShortRateCurve':
        return c.get_short_rate(x)
    if to == 'CashRateCurve':
        return c.get_cash_rate(x)
    if to == 'FlatIntensityCurve':
        return c.get_flat_intensity(x)
    if to == 'HazardRateCurve':
        return c.get_hazard_rate(x)
    if 'Marginal' in to:
        return c.get_survival_prob(x, x + c.forward_tenor)
    return c.get_survival_prob(x)


def daily(cls):
    return cls in ('ShortRateCurve', 'HazardRateCurve')


def cast_keeps(v, dcf, p, fam, quick=True):
    cls, to = p
    # curves that accrue day by day: short spans only
    grids = ((2, 5), (0, 3)) if daily(cls) and not daily(to) else GRIDS
    c, t, dom = source(v, dcf, cls, fam[cls], grids)
    y0 = [c(x) for x in dom]
    h = getattr(dcf, to)(c)
    v.holds('class', type(h) is getattr(dcf, to))
    v.holds('origin', h.origin == t)
    for x in dom:
        v.holds('point kept', x in h.domain)
        if x == t and not daily(to) and to != 'CashRateCurve' and \
                'Marginal' not in to:
            continue            # rate of an empty period
        want = stored(c, to, x)
        v.eq('stored value', stored(h, to, x), want)
        v.eq('curve value', h(x), want)
    for x, y in zip(dom, y0):
        v.eq('source unchanged', c(x), y)
    v.holds('source domain unchanged', len(c.domain) == len(dom))


@REG.harness(quick=[(a, b) for a in IR for b in IR])
def interest(v, dcf, p):
    cast_keeps(v, dcf, p, IR)


@REG.harness(quick=[(a, b) for a in CR for b in CR
                    if not (daily(a) and ('Marginal' in b))])
def credit(v, dcf, p):
    cast_keeps(v, dcf, p, CR)


@REG.harness(quick=[(a, b, 'interest') for a in
                    ('ZeroRateCurve', 'DiscountFactorCurve') for b in
                    ('ZeroRateCurve', 'DiscountFactorCurve')] +
             [(a, b, 'credit') for a in
              ('FlatIntensityCurve', 'SurvivalProbabilityCurve',
               'DefaultProbabilityCurve') for b in
              ('FlatIntensityCurve', 'SurvivalProbabilityCurve',
               'DefaultProbabilityCurve')])
def round_trip(v, dcf, p):
    """casting there and back gives the values at the points again"""
    cls, to, fam = p
    fam = IR if fam == 'interest' else CR
    c, t, dom = source(v, dcf, cls, fam[cls])
    h = getattr(dcf, cls)(getattr(dcf, to)(c))
    for x in dom:
        if x == t:
            continue
        v.eq('value', h(x), c(x))
        if fam is IR:
            v.eq('discount factor', getattr(dcf, to)(c)
                 .get_discount_factor(x), c.get_discount_factor(x))
        else:
            v.eq('survival', getattr(dcf, to)(c).get_survival_prob(x),
                 c.get_survival_prob(x))


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
                    'FlatIntensityCurve', 'SurvivalProbabilityCurve',
                    'MarginalSurvivalProbabilityCurve'])
def details(v, dcf, to):
    """day count and spread of the source are in effect, given origin wins"""
    k = v.real('k', 0.5, 2)

    def dc(s, e):
        return s.diff_in_days(e) / 365.0 * k
    fam = IR if to in IR else CR
    src = 'ZeroRateCurve' if to in IR else 'FlatIntensityCurve'
    c, t, dom = source(v, dcf, src, fam[src], GRIDS[:2], dc)
    b = v.real('b', 0.001, 0.02)
    if v.choice('spread', [0, 1]):
        c.spread = dcf.DateCurve([t], [b], origin=t)
    h = getattr(dcf, to)(c)
    x = dom[-1]
    v.eq('day count', h.day_count(t, x), dc(t, x))
    v.eq('value with spread', h(x), stored(c, to, x))
    g = getattr(dcf, to)(c, origin=v.date(-10)) if to[0] != 'C' and \
        'Marginal' not in to else None
    if g is not None:
        v.holds('given origin', g.origin == v.date(-10))
        v.eq('value', g(x), stored(c, to, x))


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
                    'ShortRateCurve'])
def onto_grid(v, dcf, to):
    """a curve as data is sampled on the given dates"""
    c, t, dom = source(v, dcf, 'ZeroRateCurve', IR['ZeroRateCurve'],
                       [(0, 90)])
    ds = [v.date(d) for d in v.choice('new', [(10, 50), (95, 200, 20)])]
    h = getattr(dcf, to)(ds, c)
    v.holds('points', list(h.domain) == ds)
    v.holds('origin', h.origin == t)
    for x in ds:
        v.eq('value', h(x), stored(c, to, x))


@REG.harness(quick=[(a, b) for f in (IR, CR) for a in f for b in f
                    if not daily(a)])
def method(v, dcf, p):
    """the method `cast` gives the same, also onto dates of its own"""
    cls, to = p
    fam = IR if to in IR else CR
    c, t, dom = source(v, dcf, cls, fam[cls], [(0, 90), (35, 70)])
    kw = {'forward_tenor': '1M'} if v.choice('kw', [0, 1]) else {}
    f = getattr(dcf, to)
    if v.choice('onto', [0, 1]):
        ds = [v.date(d) for d in (20, 50)]
        h, g = c.cast(f, domain=ds, **kw), f(ds, c, **kw)
        v.holds('points', list(h.domain) == ds)
    else:
        h, g = c.cast(f, **kw), f(c, **kw)
        ds = list(g.domain)
        v.holds('points', list(h.domain) == ds)
    v.holds('class', type(h) is f)
    v.holds('origin', h.origin == t)
    v.holds('tenor', h.forward_tenor == g.forward_tenor)
    for x in ds:
        v.eq('value', h(x), g(x))
        if x > t:
            want = stored(c, to, x) if not kw or to in (
                'ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve') \
                else g(x)
            v.eq('stored', h(x), want)


@REG.harness(quick=['ZeroRateCurve', 'DiscountFactorCurve',
                    'FlatIntensityCurve', 'SurvivalProbabilityCurve'])
def both_given_refused(v, dcf, to):
    fam = IR if to in IR else CR
    c, t, dom = source(v, dcf, to, fam[to], [(30, 90)])
    v.raises('refused', TypeError,
             lambda: getattr(dcf, to)(c, [0.1, 0.2]))


@REG.harness(quick=[(a, b) for a in VO for b in VO])
def volatility(v, dcf, p):
    cls, to = p
    c, t, dom = source(v, dcf, cls, VO[cls], [(30, 365)] if
                       cls[0] == 'T' else [(1, 2)])
    h = getattr(dcf, to)(c)
    v.holds('origin', h.origin == t)
    for x in dom:
        v.holds('point kept', x in h.domain)
        get = (lambda q: q.get_terminal_vol(x)) if to[0] == 'T' else \
            (lambda q: q.get_instantaneous_vol(x))
        v.eq('stored value', get(h), get(c))
        v.eq('curve value', h(x), get(c))


@REG.harness(quick=[(s, to) for s in ('ZeroRateCurve', 'CashRateCurve')
                    for to in IR if not daily(to)] +
             [(s, to) for s in ('FlatIntensityCurve',
                                'MarginalSurvivalProbabilityCurve')
              for to in CR if not daily(to)])
def tenor(v, dcf, p):
    """the source's tenor stays in effect, a given one replaces it"""
    cls, to = p
    fam = IR if to in IR else CR
    own = v.choice('own', [None, '1M', '6M', '1Y'])
    new = v.choice('new', [None, '1M', '6M', '1Y'])
    t = v.date(0)
    dom = [v.date(d) for d in (30, 400)]
    ys = reals(v, 2, *fam[cls])
    kw = {} if own is None else {'forward_tenor': own}
    c = getattr(dcf, cls)(dom, ys, origin=t, **kw)
    own = own or ('3M' if to in IR else '1Y')
    v.holds('own tenor', c.forward_tenor == own)
    kw = {} if new is None else {'forward_tenor': new}
    how = v.choice('how', ['cast', 'onto'])
    f = getattr(dcf, to)
    if how == 'onto':
        if to == 'CashRateCurve' or 'Marginal' in to:
            dom = [v.date(d) for d in (10, 90)]
        h = f(dom, c, **kw)
        v.holds('points', all(x in h.domain for x in dom))
    else:
        h = f(c, **kw)
    now = new or own
    v.holds('tenor', h.forward_tenor == now)
    v.holds('tenor of the source', c.forward_tenor == own)
    for x in dom:
        if to == 'CashRateCurve':
            want = c.get_cash_rate(x, step=now)
        elif 'Marginal' in to:
            want = c.get_survival_prob(x, x + now)
        else:
            want = stored(c, to, x)
        v.eq('value', h(x), want)
        v.eq('rate of the tenor', stored(h, to, x), want)


MANY = (10, 40, 75, 130, 200, 300, 400, 500, 700)


@REG.harness(quick=[(a, b) for f in (IR, CR) for a in f for b in f
                    if not daily(a) and not daily(b) and a != b])
def many(v, dcf, p):
    """the same for many points (values on a line)"""
    cls, to = p
    fam = IR if cls in IR else CR
    t = v.date(0)
    dom = [v.date(d) for d in MANY]
    rng = fam[cls]
    y = v.real('y', *(rng or (0.001, 0.05)))
    if rng is None:
        ys = [v.const(i / 512) + y for i in range(len(MANY))]
        ys = ys if 'Default' in cls else [1 - x for x in ys]
    else:
        ys = [y] * len(MANY)
    c = getattr(dcf, cls)(dom, ys, origin=t)
    h = getattr(dcf, to)(c)
    v.holds('points', all(x in h.domain for x in dom))
    for x in dom:
        v.eq('curve value', h(x), stored(c, to, x))


@REG.harness(quick=['ZeroRateCurve', 'CashRateCurve', 'ShortRateCurve'])
def origin_zero(v, dcf, to):
    """an origin given is kept, also if it is zero"""
    xs = grid(v, 2, 0.75, 1, 0.5, 2)
    ys = reals(v, 2, -0.02, 0.1)
    z = dcf.ZeroRateCurve(xs, ys, origin=v.choice(
        'source', [None, v.const(0), v.const(0.5)]))
    z = type('Z', (dcf.ZeroRateCurve,), {'_TIME_SHIFT': v.const(0.0078125)})(
        xs, ys, origin=z.origin, forward_tenor=v.const(1))
    o = v.choice('origin', [None, 0.0, 0, 0.5, 0.625])
    h = getattr(dcf, to)(z, origin=o)
    v.eq('origin', h.origin, z.origin if o is None else o)
    v.eq('source origin', z.origin, xs[0] if z._origin is None else z._origin)
    v.eq('tenor', h.forward_tenor, 1)
    for x in xs:
        v.holds('point kept', x in h.domain)
        v.eq('measured from there', h.day_count(x), x - h.origin)
    for x, y in zip(xs, ys):
        v.eq('source unchanged', z(x), y)
