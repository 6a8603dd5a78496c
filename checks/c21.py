"""C21 option payoffs"""
from engine.api import Registry
from checks.common import GAPS, grid, reals

REG = Registry('C21', bounds='any forward, strike, volatility and expiry '
               'within the bounds for every option model; 1..3 options per '
               'list or strategy')

VANILLA = ('IntrinsicOptionPayOffModel', 'NormalOptionPayOffModel',
           'LogNormalOptionPayOffModel', 'DisplacedLogNormalOptionPayOffModel')
BINARY = ('BinaryIntrinsicOptionPayOffModel', 'BinaryNormalOptionPayOffModel',
          'BinaryLogNormalOptionPayOffModel',
          'BinaryDisplacedLogNormalOptionPayOffModel')


def inputs(v, m, k='k'):
    """forward and strike in the domain of the model"""
    if 'Log' in m:
        return v.pos('f', 0.25, 4), v.pos(k, 0.25, 4)
    return v.real('f', -2, 2), v.real(k, -2, 2)


def model(v, dcf, m, f, vol, t0=None, **kw):
    t0 = v.const(0) if t0 is None else t0
    if 'Displaced' in m:
        kw['displacement'] = v.const(0)
    return getattr(dcf.models, m)(
        valuation_date=t0, forward_curve=lambda x: f,
        volatility_curve=lambda x: vol, **kw)


def black(v, f, k, s):
    d = (v.log(f / k) + s * s / 2) / s
    return f * v.phi(d) - k * v.phi(d - s)


def bachelier(v, f, k, s):
    d = (f - k) / s
    return (f - k) * v.phi(d) + s * v.pdf(d)


def call(v, m, f, k, s):
    if 'Intrinsic' in m:
        return f - k if f > k else 0
    return black(v, f, k, s) if 'Log' in m else bachelier(v, f, k, s)


@REG.harness(quick=VANILLA)
def formula(v, dcf, m):
    """call by the formula of the model, put by parity"""
    f, k = inputs(v, m)
    vol, t, t0 = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4), v.real('t0', 0,
                                                                     2)
    md = model(v, dcf, m, f, vol, t0)
    want = call(v, m, f, k, vol * v.sqrt(t))
    x = t0 + t
    v.eq('call', md.get_call_value(x, k), want)
    v.eq('put call parity', md.get_call_value(x, k) - f + k,
         md.get_put_value(x, k))
    v.eq('formula', md(t, k, f, vol), want)


@REG.harness(quick=[(m, w) for m in VANILLA
                    for w in ('vol', 'curve', 'time')])
def intrinsic(v, dcf, p):
    """no volatility or no time left: intrinsic value"""
    m, w = p
    f, k = inputs(v, m)
    t0 = v.real('t0', 0, 2)
    md = model(v, dcf, m, f, v.const(0) if w == 'vol' else
               v.real('vol', 0.05, 1), t0)
    if w == 'curve':
        md.volatility_curve = None
    x = t0 if w == 'time' else t0 + v.real('t', 0.1, 3)
    if f > k:
        c, p = f - k, 0
    else:
        c, p = 0, k - f
    v.eq('call', md.get_call_value(x, k), c)
    v.eq('put', md.get_put_value(x, k), p)


@REG.harness()
def displaced(v, dcf):
    """forward and strike moved by the displacement"""
    a = v.real('a', 0, 2)
    f, k = v.real('f', 0.25, 2), v.real('k', 0.25, 2)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = dcf.models.DisplacedLogNormalOptionPayOffModel(
        valuation_date=v.const(0), forward_curve=lambda x: f,
        volatility_curve=lambda x: vol, displacement=a)
    v.eq('call', md.get_call_value(t, k),
         black(v, f + a, k + a, vol * v.sqrt(t)))
    other = model(v, dcf, VANILLA[2], f + a, vol)
    v.eq('as log normal', md.get_call_value(t, k),
         other.get_call_value(t, k + a))
    v.eq('delta as log normal', md.get_call_delta(t, k) * 10000,
         other.get_call_delta(t, k + a) * 10000)


@REG.harness(quick=['number', 'curve', 'cash rate', 'rate', 'price', 'none'])
def curves(v, dcf, k):
    """forward, volatility and time come from the curves of the model"""
    x = v.const(2)
    o = v.const(0.5)
    a, b = v.real('a', 0.5, 1), v.real('b', 0.5, 1)
    if k in ('number', 'curve'):
        a, b = v.real('na', -1, 1), v.real('nb', -1, 1)
    vol = v.real('vol', 0.1, 0.5)
    if k == 'number':
        fc, f = a, a
    elif k == 'curve':
        fc = dcf.DateCurve([o, o + 3], [a, b], origin=o)
        f = (a + b) / 2
    elif k == 'cash rate':
        fc = dcf.CashRateCurve([o, o + 3], [a, b], origin=o,
                               forward_tenor=v.const(1))
        f = (a + b) / 2
    elif k == 'rate':
        fc = dcf.ZeroRateCurve([o, o + 3], [a, b], origin=o,
                               forward_tenor=v.const(1))
        f = fc.get_cash_rate(x)
        z = a + (b - a) / 2, a + (b - a) * 2.5 / 3
        v.eq('cash rate', f, v.exp(z[1] * 2.5 - z[0] * 1.5) - 1)
    elif k == 'price':
        fc = dcf.FxForwardCurve([o], [a], domestic_curve=dcf.ZeroRateCurve(
            [o], [v.const(0.02)]), foreign_curve=dcf.ZeroRateCurve(
                [o], [v.const(0.01)]))
        f = fc.get_forward_price(x)
    else:
        fc, f = None, 0
    vc = v.choice('vol', ['number', 'curve', 'terminal'])
    if vc == 'number':
        vc = vol
    elif vc == 'curve':
        vc = dcf.DateCurve([o], [vol])
    else:
        vc = dcf.TerminalVolatilityCurve([o, o + 3], [vol / 2, vol * 1.5])
    y = v.real('y', 0.5, 2)
    dc = v.choice('day count', [None, 'given'])
    md = dcf.models.NormalOptionPayOffModel(
        valuation_date=o, forward_curve=fc, volatility_curve=vc,
        day_count=dc and (lambda s, e: (e - s) * y))
    tt = (x - o) * (y if dc else 1)
    s = vol * v.sqrt(tt)
    d = md.details(x)
    v.eq('forward', d.get('forward', 0), f)
    v.eq('at the money strike', d['strike'], f)
    v.eq('volatility', d['volatility'], vol)
    v.eq('time to expiry', d['time to expiry'], tt)
    v.eq('at the money', md.get_call_value(x), bachelier(v, f, f, s))
    q = v.real('k', 0.5, 1)
    v.eq('call', md.get_call_value(x, q), bachelier(v, f, q, s))


@REG.harness(quick=[1, 2, 3])
def option_list(v, dcf, n):
    """each flow is amount times call or put value at its expiry"""
    ds = grid(v, n, 1, 2, 0.25, 1)
    am = reals(v, n, -10, 10, 'a')
    ks = reals(v, n, 0.5, 1, 'k')
    put = v.choice('put', [False, True, 'list', 1, 'numbers'])
    one = v.choice('one', [False, True])
    fix = v.choice('fixing', [None, 0.125])
    pay = v.choice('pay', [None, 0.25])
    g = v.real('g', -0.25, 0.6)
    md = dcf.models.IntrinsicOptionPayOffModel(
        valuation_date=v.const(0), forward_curve=lambda x: g * x)
    if one:
        am, ks = [am[0]] * n, [ks[0]] * n
    puts = [put] * n
    if put == 'list':
        puts = [i % 2 == 1 for i in range(n)]
    elif put == 'numbers':
        puts = [1 - i % 2 for i in range(n)]
    f = dcf.OptionCashflowList(
        ds, am[0] if one else am, ks[0] if one else ks,
        puts if put in ('list', 'numbers') else put, fixing_offset=fix, pay_offset=pay,
        payoff_model=md)
    for d, a, k, q in zip(ds, am, ks, puts):
        x = d - (fix or 0) - (pay or 0)
        w = md.get_put_value(x, k) if q else md.get_call_value(x, k)
        v.eq('flow', f[d], a * w, 10)
        v.eq('expiry', f.payoff(d).expiry, x)
    v.eqs('dates', f.domain, ds)


@REG.harness(quick=[(0, 0), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)],
             thorough=[(2, 2), (1, 3)])
def strategy(v, dcf, p):
    """the sum of its options, in whatever order"""
    nc, np_ = p
    ck, pk = reals(v, nc, 0.5, 1, 'c'), reals(v, np_, 0.5, 1, 'p')
    one = v.choice('one', [False, True])
    ca, pa = reals(v, nc, -10, 10, 'a'), reals(v, np_, -10, 10, 'b')
    x = v.const(1.5)
    f, vol = v.real('f', 0.5, 1), v.const(0.25)
    md = model(v, dcf, VANILLA[v.choice('model', [0, 1])], f, vol)
    if one:
        ca, pa = [ca[0] if nc else 1] * nc, [pa[0] if np_ else 1] * np_
    kw = dict(call_amount_list=ca[0] if one and nc else ca,
              call_strike_list=ck, put_strike_list=pk,
              put_amount_list=pa[0] if one and np_ else pa)
    want = 0
    for k, a in zip(ck, ca):
        want = want + a * md.get_call_value(x, k)
    for k, a in zip(pk, pa):
        want = want + a * md.get_put_value(x, k)
    po = dcf.OptionStrategyCashFlowPayOff(x, **kw)
    v.eq('payoff', po(md), want, 10)
    lag, fix = v.choice('lag', [(None, None), (0.25, None), (None, 0.125),
                                (0.25, 0.125)])
    l = dcf.OptionStrategyCashflowList(
        [x + (lag or 0) + (fix or 0)], payoff_model=md, pay_offset=lag,
        fixing_offset=fix, **kw)
    v.eq('list', l[l.domain[0]], want, 10)
    v.eq('no model', po(), 0)
    d = po.details(md)
    parts = [d['#%d cashflow' % i] for i in range(nc + np_)]
    v.eq('details', sum(parts), want, 10)
    st = [d['#%d strike' % i] for i in range(nc + np_)]
    for a, b in zip(st, st[1:]):
        v.holds('by strike', a <= b)


@REG.harness(quick=[(4, 0, 0), (0, 4, 0), (6, 4, 0), (3, 7, 0), (10, 0, 0),
                    (0, 10, 0), (1, 1, 1), (2, 2, 1), (4, 4, 1), (5, 3, 1)])
def large_strategy(v, dcf, p):
    """the same for many options with fixed strikes, also with puts and calls
    of the same strikes"""
    nc, np_, same = p
    ck = [0.5 + (i * 7 % 10) / 16 for i in range(nc)]
    pk = ck[:np_] if same else [0.5 + (i * 3 % 10) / 16 for i in range(np_)]
    one = v.choice('one', ['both', 'call', 'put', 'none'])
    a, b = v.real('a', -10, 10), v.real('b', -10, 10)
    x = v.const(1.5)
    f = v.real('f', 0.25, 1.5)
    md = model(v, dcf, VANILLA[0], f, v.const(0.25))
    ca = [a] * nc if one in ('both', 'call') else \
        [a + i for i in range(nc)]
    pa = [b] * np_ if one in ('both', 'put') else \
        [b + i for i in range(np_)]
    kw = dict(call_amount_list=a if one in ('both', 'call') else ca,
              call_strike_list=ck, put_strike_list=pk,
              put_amount_list=b if one in ('both', 'put') else pa)
    want = 0
    for k, y in zip(ck, ca):
        want = want + y * md.get_call_value(x, k)
    for k, y in zip(pk, pa):
        want = want + y * md.get_put_value(x, k)
    v.eq('payoff', dcf.OptionStrategyCashFlowPayOff(x, **kw)(md), want, 10)
    l = dcf.OptionStrategyCashflowList([x], payoff_model=md, **kw)
    v.eq('list', l[x], want, 10)


@REG.harness(quick=[(m, w) for m in VANILLA[:2] for w in
                    ('floor', 'cap', 'both', 'none')])
def contingent(v, dcf, p):
    """rate flow plus floorlet minus caplet"""
    m, w = p
    s, n = v.const(1), v.real('n', 0.25, 1)
    f, q = v.real('f', 0.5, 1), v.real('q', -0.1, 0.1)
    a = v.real('a', -10, 10)
    vol = v.const(0.25)
    fl = v.real('fl', 0.5, 1) if w in ('floor', 'both') else None
    cp = v.real('cp', 0.5, 1) if w in ('cap', 'both') else None
    lag = v.choice('fixing', [None, 0.25])
    md = model(v, dcf, m, f, vol)
    po = dcf.ContingentRateCashFlowPayOff(
        s, s + n, a, fixing_offset=lag, fixed_rate=q, floor_strike=fl,
        cap_strike=cp)
    x = s - (lag or 0)
    want = q + f
    if fl is not None:
        want = want + md.get_put_value(x, fl)
    if cp is not None:
        want = want - md.get_call_value(x, cp)
    v.eq('payoff', po(md), want * n * a, 10)
    l = dcf.ContingentRateCashFlowList(
        [s + n], [a], origin=s, fixing_offset=lag, fixed_rate=q,
        floor_strike=fl, cap_strike=cp, payoff_model=md)
    v.eq('list', l[s + n], want * n * a, 10)
    v.eq('forward curve only', po(lambda x: f), (q + f) * n * a, 10)
    if 'Intr' in m:
        r = f
        if fl is not None and r < fl:
            r = fl
        if w == 'floor':
            v.eq('floored', po(md), (q + r) * n * a, 10)
        if w == 'cap':
            v.eq('capped', po(md), (q + (cp if f > cp else f)) * n * a, 10)


@REG.harness(quick=VANILLA[:3])
def collar(v, dcf, m):
    """cap and floor at one strike fix the rate"""
    k = v.real('k', 0.5, 1)
    f, q = v.real('f', 0.5, 1), v.real('q', -0.1, 0.1)
    a, n = v.real('a', -10, 10), v.real('n', 0.25, 1)
    md = model(v, dcf, m, f, v.const(0.25))
    po = dcf.ContingentRateCashFlowPayOff(
        v.const(1), 1 + n, a, fixed_rate=q, floor_strike=k, cap_strike=k)
    v.eq('fixed', po(md), (q + k) * n * a, 10)


@REG.harness(quick=['none', 'zero', 'number'])
def flat_forward(v, dcf, w):
    """models without forward curve have the forward zero"""
    k, fl = v.real('k', -0.5, 0.5), v.real('fl', -0.5, 0.5)
    f = {'none': None, 'zero': 0.0, 'number': v.real('f', -1, 1)}[w]
    md = dcf.models.IntrinsicOptionPayOffModel(
        valuation_date=v.const(0), forward_curve=f)
    po = dcf.ContingentRateCashFlowPayOff(
        v.const(1), v.const(2), 1.0, floor_strike=fl, cap_strike=k)
    f = f or 0
    want = f
    if f < fl:
        want = want + fl - f
    if f > k:
        want = want - f + k
    v.eq('payoff', po(md), want)


@REG.harness(quick=['NormalOptionPayOffModel', 'IntrinsicOptionPayOffModel'])
def binary(v, dcf, m):
    """a binary option is a tight call spread, by default of width 1/10000"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = model(v, dcf, m, f, vol)
    w = v.choice('width', [None, 'given'])
    w = w and v.real('w', 0.01, 0.5)
    kw = {} if w is None else {'strike_shift': w}
    h = v.const(0.0001) if w is None else w
    b = dcf.models.optionpricing.BinaryOptionPayOffModel(md, **kw)
    s = vol * v.sqrt(t)
    want = call(v, m, f, k - h / 2, s) - call(v, m, f, k + h / 2, s)
    v.eq('call spread', b.get_call_value(t, k) * h, want, 0.01)


def probability(v, m, f, k, s):
    """that the forward ends above the strike"""
    if 'Intr' in m:
        return 1 if f > k else 0
    if 'Log' in m:
        return v.phi((v.log(f / k) - s * s / 2) / s)
    return v.phi((f - k) / s)


@REG.harness(quick=BINARY)
def digital(v, dcf, m):
    """a binary call pays one if the forward ends above the strike"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = model(v, dcf, m, f, vol)
    v.eq('call', md.get_call_value(t, k),
         probability(v, m, f, k, vol * v.sqrt(t)))


@REG.harness(quick=BINARY)
def digital_put(v, dcf, m):
    """a binary put pays one if the call does not"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = model(v, dcf, m, f, vol)
    v.eq('put', md.get_put_value(t, k),
         1 - probability(v, m, f, k, vol * v.sqrt(t)))


@REG.harness(quick=BINARY)
def digital_intrinsic(v, dcf, m):
    """no volatility left: one or nothing"""
    f, k = inputs(v, m)
    md = model(v, dcf, m, f, v.const(0))
    v.eq('call', md.get_call_value(v.const(1), k), 1 if f > k else 0)


@REG.harness(quick=[0, 0.125])
def digital_displaced(v, dcf, e):
    """forward and strike moved by the displacement"""
    a = v.real('a', 0, 2)
    f, k = v.real('f', 0.25, 2), v.real('k', 0.25, 2)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = dcf.models.BinaryDisplacedLogNormalOptionPayOffModel(
        valuation_date=v.const(0), forward_curve=lambda x: f,
        volatility_curve=lambda x: vol, displacement=a)
    other = model(v, dcf, BINARY[2], f + a, vol)
    t = t + e
    for fn, h in (('value', 1), ('delta', 10000), ('gamma', 10000),
                  ('vega', 100)):
        fn = 'get_call_' + fn
        v.eq(fn, getattr(md, fn)(t, k) * h, getattr(other, fn)(t, k + a) * h)


@REG.harness(quick=VANILLA[:3])
def at_the_money(v, dcf, m):
    """without strike the strike is the forward"""
    f, _ = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = model(v, dcf, m, f, vol)
    for fn in ('get_call_value', 'get_put_value', 'get_call_delta',
               'get_put_delta', 'get_call_vega'):
        v.eq(fn, getattr(md, fn)(t), getattr(md, fn)(t, f))
    s = vol * v.sqrt(t)
    v.eq('value', md.get_call_value(t), 0 if 'Intr' in m else
         (2 * v.phi(s / 2) - 1) * f if 'Log' in m else s * v.pdf(0))
    po = dcf.cashflows.payoffs.OptionCashFlowPayOff(t, amount=3.0)
    v.eq('payoff', po(md), 3 * md.get_call_value(t))


@REG.harness(quick=VANILLA[:2])
def binary_details(v, dcf, m):
    """dates and curves of a binary model: its own, also zero, or those of
    the model it is made of"""
    f, k = inputs(v, m)
    g, vol, wol = v.real('g', -2, 2), v.real('vol', 0.1, 1), v.real('wol', 0.1,
                                                                  1)
    t0, t1 = v.real('t0', -2, -1), v.real('t1', -1, 1)
    t = v.real('t', 2, 4)
    md = model(v, dcf, m, f, vol, t0)
    day = v.choice('dc', [None, lambda s, e: 2 * (e - s)])
    md.day_count = day
    kw = v.choice('kw', ['none', 'date', 'date zero', 'forward', 'vol',
                         'day_count', 'forward zero', 'vol zero'])
    kw = {'none': {}, 'date': {'valuation_date': t1},
          'date zero': {'valuation_date': v.const(0)},
          'forward': {'forward_curve': lambda x: g},
          'vol': {'volatility_curve': lambda x: wol},
          'day_count': {'day_count': lambda s, e: (e - s) / 2},
          'forward zero': {'forward_curve': 0.0},
          'vol zero': {'volatility_curve': 0.0}}[kw]
    b = dcf.models.optionpricing.BinaryOptionPayOffModel(
        md, strike_shift=v.const(0.25), **kw)
    d = b.details(t, k)
    v.eq('valuation date', d['valuation date'],
         kw.get('valuation_date', t0))
    want = f
    if 'forward_curve' in kw:
        want = kw['forward_curve'] and g
    v.eq('forward', d['forward'], want)
    want = vol
    if 'volatility_curve' in kw:
        want = kw['volatility_curve'] and wol
    v.eq('volatility', d.get('volatility', 0), want)
    want = kw.get('day_count', day) or (lambda s, e: e - s)
    v.eq('time', d['time to expiry'], want(kw.get('valuation_date', t0), t))


@REG.harness(quick=['formula', 'model'])
def from_function(v, dcf, w):
    """a function of time, strike, forward and volatility as formula"""
    op = dcf.models.optionpricing
    a, b, c, d = (v.real(x, 0.5, 2) for x in 'abcd')

    def price(time, strike, forward, volatility):
        return a * time + b * strike + c * forward + d * volatility
    f, k, vol, t = (v.real(x, 0.5, 2) for x in ('f', 'k', 'vol', 't'))
    want = a * t + b * k + c * f + d * vol
    if w == 'formula':
        x = op.OptionPricingFormula.from_function(price)()
        v.eq('called', x(t, k, f, vol), want)
        m = op.BinaryOptionPayOffModel(
            x, 0.5, v.const(0), lambda x: f, lambda x: vol)
        v.eq('binary', m.get_call_value(t, k), -b)
    else:
        m = op.OptionPayOffModel.from_function(price)(
            v.const(0), lambda x: f, lambda x: vol)
        v.eq('call', m.get_call_value(t, k), want)
        v.eq('put', m.get_put_value(t, k), want + k - f)
        v.eq('delta', m.get_call_delta(t, k) * 10000, c)
        v.eq('vega', m.get_call_vega(t, k) * 100, d)
        v.eq('theta', m.get_call_theta(t, k), a / v.const(365.25))


@REG.harness(quick=[(m, w) for m in VANILLA + BINARY[1:3] for w in
                    ('forward', 'vol', 'date', 'count', 'other')])
def again(v, dcf, p):
    """options valued before do not matter: curves and dates of the model are
    those of the moment"""
    m, w = p
    f, k = inputs(v, m)
    g, q = (v.pos('g', 0.25, 4), v.pos('q', 0.25, 4)) if 'Log' in m else (
        v.real('g', -2, 2), v.real('q', -2, 2))
    o = v.const(0.5)
    fc = dcf.DateCurve([o], [f], origin=o)
    vc = dcf.DateCurve([o], [v.const(0.25)], origin=o)
    kw = {'displacement': v.const(0)} if 'Displaced' in m else {}

    def build(o=o, fc=fc, vc=vc, **k2):
        return getattr(dcf.models, m)(o, fc, vc, **dict(kw, **k2))
    md = build()
    x = v.const(1.5)
    put = v.choice('put', [False, True])

    def ask(md, x=x, k=k):
        return md.get_put_value(x, k) if put else md.get_call_value(x, k)
    first = ask(md)
    ask(md, x + 1), ask(md, x, q)
    v.eq('after another', ask(md), first)
    v.eq('other strike', ask(md, x, q), ask(build(), x, q))
    v.eq('other expiry', ask(md, x + 1), ask(build(), x + 1))
    if w == 'forward':
        fc[o] = g
        v.eq('moved forward', ask(md),
             ask(build(fc=dcf.DateCurve([o], [g], origin=o))))
        fc[o] = f
        md.forward_curve = dcf.DateCurve([o], [g], origin=o)
        new = build(fc=lambda x: g)
    elif w == 'vol':
        vc[o] = v.const(0.5)
        v.eq('moved volatility', ask(md),
             ask(build(vc=dcf.DateCurve([o], [v.const(0.5)], origin=o))))
        vc[o] = v.const(0.25)
        md.volatility_curve = lambda x: v.const(1)
        new = build(vc=lambda x: v.const(1))
    elif w == 'date':
        md.valuation_date = v.const(0)
        new = build(v.const(0))
    elif w == 'count':
        dc = (lambda s, e: 4 * (e - s))
        md.day_count = dc
        new = build(day_count=dc)
    else:
        new = build(v.const(0), lambda x: g, lambda x: v.const(1))
        ask(new)
        v.eq('other model', ask(new), ask(build(v.const(0), lambda x: g,
                                                lambda x: v.const(1))))
        new = build()
    v.eq('value', ask(md), ask(new))
    v.eq('value of another strike', ask(md, x, q), ask(new, x, q))


@REG.harness(quick=['option', 'strategy', 'contingent'])
def list_again(v, dcf, kind):
    """flows asked for before do not matter: models and options are those of
    the moment"""
    f, g = v.real('f', 0.5, 1), v.real('g', 0.5, 1)
    ds = grid(v, 2, 1, 2, 0.25, 1)
    ks, am = reals(v, 2, 0.5, 1, 'k'), reals(v, 2, -10, 10, 'a')

    def model(f):
        return dcf.models.IntrinsicOptionPayOffModel(v.const(0),
                                                     lambda x: f * x)

    def cf(md):
        if kind == 'option':
            return dcf.OptionCashflowList(ds, am, ks, payoff_model=md)
        if kind == 'strategy':
            return dcf.OptionStrategyCashflowList(
                ds, call_amount_list=am, call_strike_list=ks,
                put_amount_list=am[:1], put_strike_list=ks[1:],
                payoff_model=md)
        return dcf.ContingentRateCashFlowList(
            ds, am, origin=v.const(0.5), cap_strike=ks[0],
            floor_strike=ks[1], payoff_model=md)
    a, b = cf(model(f)), cf(model(g))
    first = list(a[ds])
    v.eqs('called with another', [a(model(g))[d] for d in ds], b[ds], 10)
    v.eqs('still', a[ds], first, 10)
    v.eqs('called', a()[ds], first, 10)
    a.payoff_model = model(g)
    v.eqs('another model', a[ds], b[ds], 10)
    a.payoff_model = m = model(f)
    m.forward_curve = lambda x: g * x
    v.eqs('another forward', a[ds], b[ds], 10)
    if kind == 'option':
        a.payoff(ds[0]).strike = ks[1]
        a.payoff(ds[0]).amount = v.const(3)
        v.eq('another option', a[ds[0]],
             3 * model(g).get_call_value(ds[0], ks[1]), 10)
        v.eq('other option', a[ds[1]], b[ds[1]], 10)
        a.payoff(ds[0]).expiry = v.const(0.5)
        v.eq('another expiry', a[ds[0]],
             3 * model(g).get_call_value(v.const(0.5), ks[1]), 10)
    if kind == 'contingent':
        a.payoff(ds[0]).cap_strike = None
        a.payoff(ds[0]).floor_strike = None
        v.eq('without cap and floor', a[ds[0]],
             g * 0.5 * (ds[0] - 0.5) * am[0], 10)


@REG.harness(quick=['both', 'forward', 'model'])
def day_counts(v, dcf, w):
    """time is measured as the model says, else as the volatility curve
    does, else as the forward curve does"""
    o = v.const(0.5)
    x = v.real('x', 1, 3)
    a, b, e = (v.real(n, 0.5, 2) for n in 'abe')
    f, vol = v.real('f', 0.5, 1), v.real('vol', 0.1, 0.5)
    fc = dcf.DateCurve([o], [f], origin=o,
                       day_count=lambda s, t: (t - s) * a)
    vc = vol if w == 'forward' else v.choice('class', (
        dcf.DateCurve, dcf.TerminalVolatilityCurve))(
            [o], [vol], origin=o, day_count=lambda s, t: (t - s) * b)
    kw = {'day_count': lambda s, t: (t - s) * e} if w == 'model' else {}
    md = dcf.models.NormalOptionPayOffModel(
        valuation_date=o, forward_curve=fc, volatility_curve=vc, **kw)
    y = {'both': b, 'forward': a, 'model': e}[w]
    t = (x - o) * y
    d = md.details(x)
    v.eq('time to expiry', d['time to expiry'], t)
    v.eq('volatility', d['volatility'], vol)
    k = v.real('k', 0.5, 1)
    v.eq('call', md.get_call_value(x, k),
         bachelier(v, f, k, vol * v.sqrt(t)))


@REG.harness(quick=[7, 13], thorough=[40])
def many(v, dcf, n):
    """options, strategies and contingent rate flows at many dates"""
    o = v.const(0)
    ds = [o + 0.5]
    for i in range(1, n):
        ds.append(ds[-1] + GAPS[i % len(GAPS)])
    am = [a * (-1) ** i for i, a in enumerate(reals(v, n, 1, 10, 'a'))]
    ks = [v.const(0.5 + (i % 4) / 8) for i in range(n)]
    f = v.real('f', 0.5, 1)
    md = dcf.models.IntrinsicOptionPayOffModel(
        valuation_date=o, forward_curve=lambda x: f)

    def pay(k, put):
        return max(k - f, 0) if put else max(f - k, 0)
    put = [i % 3 == 0 for i in range(n)]
    l = dcf.OptionCashflowList(ds, am, ks, put, payoff_model=md)
    v.eqs('options', l[ds], [a * pay(k, q)
                             for a, k, q in zip(am, ks, put)], 10)
    # ten options at most
    h, m = n // 2, min(n, 10)
    l = dcf.OptionStrategyCashflowList(
        [ds[0], ds[-1]], am[:h], ks[:h], am[h:m], ks[h:m], payoff_model=md)
    want = sum(a * pay(k, i >= h)
               for i, (a, k) in enumerate(zip(am[:m], ks)))
    v.eqs('strategy', l[l.domain], [want] * 2, 10)
    l = dcf.ContingentRateCashFlowList(
        ds, am, origin=o, fixed_rate=v.const(0.25), cap_strike=ks[1],
        floor_strike=ks[0], payoff_model=md)
    s = o
    for d, a, x in zip(ds, am, l[ds]):
        v.eq('rate', x, a * (d - s) * (0.25 + f - pay(ks[1], False) +
                                       pay(ks[0], True)), 10)
        s = d


@REG.harness(quick=[VANILLA[3], BINARY[3]])
def no_displacement(v, dcf, m):
    """displaced models are not displaced by default"""
    f, k = inputs(v, m)
    vol, t = v.pos('vol', 0.05, 1), v.pos('t', 0.25, 4)
    kw = dict(valuation_date=v.const(0), forward_curve=lambda x: f,
              volatility_curve=lambda x: vol)
    a = getattr(dcf.models, m)(**kw)
    b = getattr(dcf.models, m.replace('Displaced', ''))(**kw)
    v.eq('call', a.get_call_value(t, k), b.get_call_value(t, k))
    v.eq('put', a.get_put_value(t, k), b.get_put_value(t, k))
    v.eq('delta', a.get_call_delta(t, k), b.get_call_delta(t, k))
