"""C28 bonds and swaps are the legs they are described by"""
from engine.api import Registry
from checks.common import reals

REG = Registry('C28', bounds='up to 4 periods (thorough 6; up to 61 and 150 at '
               'fixed dates) of symbolic '
               'start, end and period, any notional, amortising plan, rates, '
               'forward rates, day count and offsets; calendar dates for '
               'several fixed schedules with symbolic amounts')


def term(v, nmax, tag=''):
    """start, end, period and the expected pay dates"""
    n = v.choice('periods' + tag, list(range(1, nmax + 1)))
    s = v.real('start' + tag, -2, 2)
    p = v.real('period' + tag, 0.25, 2)
    stub = v.choice('stub' + tag, [False, True])
    first = s + (p * v.real('part' + tag, 0.0625, 0.9375) if stub else p)
    e = first + p * (n - 1)
    return s, e, p, [e - p * k for k in range(n)][::-1]


def flows(v, leg, s, ds, ns, fixed, rate, yf=None, lag=0, fix=0):
    """rate flows of the leg as described"""
    yf = yf or (lambda a, b: b - a)
    v.eqs('interest dates', leg.domain, ds, 10)
    last = s
    for d, n in zip(ds, ns):
        a, b = last - lag, d - lag
        v.eq('interest', leg[d], (fixed + rate(a - fix)) * yf(a, b) * n, 100)
        po = leg.payoff(d)
        v.eq('start', po.start, a, 10)
        v.eq('end', po.end, b, 10)
        last = d


@REG.harness(quick=[3, 4], thorough=[6])
def bullet(v, dcf, nmax):
    """notional out at the start and back at the end, interest on it at the
    dates counted back from the end"""
    s, e, p, ds = term(v, nmax)
    n, r = v.real('n', -100, 100), v.real('r', -0.1, 0.1)
    b = dcf.bond(s, e, p, notional_amount=n, fixed_rate=r)
    v.holds('two legs', len(b.legs) == 2)
    m, c = b.legs
    v.eqs('notional dates', m.domain, [s, e], 10)
    v.eqs('notional', m[m.domain], [-n, n], 100)
    flows(v, c, s, ds, [n] * len(ds), r, lambda x: 0)
    v.eq('origin', b.origin, s)
    v.eqs('dates', b.domain, [s] + ds, 10)
    v.eq('start', b[s], -n, 100)
    v.eq('end', b[e], n + c[e], 100)


@REG.harness(quick=[2, 3], thorough=[5])
def amortising(v, dcf, nmax):
    """a plan: the sum out at the start, back as planned, interest on what
    is outstanding"""
    s, e, p, ds = term(v, nmax)
    plan = reals(v, len(ds), -50, 100, 'n')
    r = v.real('r', -0.1, 0.1)
    t = v.choice('type', [list, tuple])
    b = dcf.bond(s, e, p, notional_amount=t(plan), fixed_rate=r)
    m, c = b.legs
    total = 0
    for x in plan:
        total = total + x
    v.eqs('notional dates', m.domain, [s] + ds, 10)
    v.eqs('notional', m[m.domain], [-total] + plan, 100)
    out = []
    for x in plan:
        out.append(total)
        total = total - x
    flows(v, c, s, ds, out, r, lambda x: 0)
    bad = v.choice('bad', ['few', 'many', 'text', 'none'])
    bad = {'few': plan[1:], 'many': plan + [1.0], 'text': '1',
           'none': None}[bad]
    v.raises('refused', ValueError,
             lambda: dcf.bond(s, e, p, notional_amount=bad))


@REG.harness(quick=[2, 3], thorough=[4])
def bond_details(v, dcf, nmax):
    """forward curve, day count and offsets reach the interest"""
    s, e, p, ds = term(v, nmax)
    n, r = v.real('n', -100, 100), v.real('r', -0.1, 0.1)
    f = v.real('f', -0.1, 0.1)
    k = v.choice('what', ['forward', 'number', 'day count', 'fixing', 'pay'])
    kw, yf, lag, fix, rate = {}, None, 0, 0, (lambda x: 0)
    if k == 'number':
        kw['forward_curve'], rate = f, (lambda x: f)
    elif k != 'day count':
        kw['forward_curve'] = rate = (lambda x: f * x)
    if k == 'day count':
        kw['day_count'] = yf = (lambda a, b: (b - a) * f)
    if k == 'fixing':
        kw['fixing_offset'] = fix = v.real('fix', 0.0625, 0.25)
    if k == 'pay':
        kw['pay_offset'] = lag = v.real('lag', 0.0625, 0.25)
    b = dcf.bond(s, e, p, notional_amount=n, fixed_rate=r, **kw)
    c = b.legs[1]
    if k == 'pay':
        v.eqs('interest dates', c.domain, ds, 10)
        for d in ds:
            po = c.payoff(d)
            v.eq('end before payment', po.end, d - lag)
            v.eq('interest', c[d], (r + rate(po.start)) *
                 (po.end - po.start) * n, 100)
        return
    flows(v, c, s, ds, [n] * len(ds), r, rate, yf, 0, fix)


@REG.harness(quick=[(2, 1), (3, 2)], thorough=[(4, 3)])
def swap(v, dcf, p):
    """interest paid on one leg and received on the other, each with its own
    period, rate, forward curve and day count"""
    a, b = p
    n = v.real('n', -100, 100)
    q, r = v.real('q', -0.1, 0.1), v.real('r', -0.1, 0.1)
    f, g = v.real('f', -0.1, 0.1), v.real('g', -0.1, 0.1)
    s, e, pp, ds = term(v, a)
    m = v.choice('rec periods', list(range(1, b + 1)))
    rp = (e - s) / m
    es = [e - rp * k for k in range(m)][::-1]
    k = v.choice('what', ['rates', 'forward', 'rec forward', 'day count',
                          'rec day count', 'fixing'])
    kw, pay, rec, fix = {}, (lambda x: 0), (lambda x: 0), 0
    yf = ryf = None
    if k in ('forward', 'fixing'):
        kw['forward_curve'] = pay = (lambda x: f * x)
    if k in ('rec forward', 'fixing'):
        kw['rec_leg_forward_curve'] = rec = (lambda x: g * x)
    if k == 'day count':
        kw['day_count'] = yf = (lambda x, y: (y - x) * f)
    if k == 'rec day count':
        kw['rec_leg_day_count'] = ryf = (lambda x, y: (y - x) * g)
    if k == 'fixing':
        kw['fixing_offset'] = fix = v.real('fix', 0.0625, 0.25)
    # exact fractions: the last step may hit the start by less than rounding
    w = dcf.interest_rate_swap(s, e, pp, notional_amount=n, fixed_rate=q,
                               rec_leg_period=rp, rec_leg_fixed_rate=r, **kw)
    v.holds('two legs', len(w.legs) == 2)
    x, y = w.legs
    flows(v, x, s, ds, [-n] * len(ds), q, pay, yf, 0, fix)
    flows(v, y, s, es, [n] * m, r, rec, ryf, 0, fix)
    v.eq('origin', w.origin, s)
    v.eq('end', w[e], x[e] + y[e], 100)


@REG.harness()
def swap_offset(v, dcf):
    """the payment offset applies to both legs"""
    lag = v.real('lag', 0.0625, 0.25)
    s, e = v.const(0), v.const(2)
    n, r = v.real('n', -100, 100), v.real('r', -0.1, 0.1)
    w = dcf.interest_rate_swap(s, e, v.const(1), notional_amount=n,
                               fixed_rate=r, pay_offset=lag,
                               rec_leg_period=v.const(0.5),
                               rec_leg_fixed_rate=r)
    for leg, sgn in zip(w.legs, (-1, 1)):
        for d in leg.domain:
            po = leg.payoff(d)
            v.eq('end before payment', po.end, d - lag)
            v.eq('interest', leg[d], sgn * r * (po.end - po.start) * n, 100)


@REG.harness()
def parity(v, dcf):
    """a swap of equal legs is worth nothing, of a fixed against a floating
    leg the difference of the two bonds"""
    s, e, p, ds = term(v, 3)
    n, r = v.real('n', -100, 100), v.real('r', -0.1, 0.1)
    f = v.real('f', -0.1, 0.1)
    w = dcf.interest_rate_swap(s, e, p, notional_amount=n, fixed_rate=r,
                               rec_leg_period=p, rec_leg_fixed_rate=r)
    for d in ds:
        v.eq('equal legs', w[d], 0, 100)
    w = dcf.interest_rate_swap(s, e, p, notional_amount=n, fixed_rate=r,
                               rec_leg_period=p, rec_leg_forward_curve=f)
    x = dcf.bond(s, e, p, notional_amount=n, fixed_rate=r)
    y = dcf.bond(s, e, p, notional_amount=n, forward_curve=f)
    for d in [s] + ds:
        v.eq('difference of bonds', w[d], y[d] - x[d], 100)


@REG.harness(quick=['zero', 'none', 'function'])
def same_terms(v, dcf, dc):
    """legs of the same period and day count keep rates of their own"""
    s, e, p, ds = term(v, 3)
    n = v.real('n', -100, 100)
    q, r = v.real('q', -0.1, 0.1), v.real('r', -0.1, 0.1)
    f, g = v.real('f', -0.1, 0.1), v.real('g', -0.1, 0.1)
    yf = (lambda a, b: (b - a) * 0.75) if dc == 'function' else None
    kw = {'day_count': yf, 'rec_leg_day_count': yf} if yf else {}
    zero = v.choice('zero', ['pay', 'rec', 'none'])
    q = v.choice('zero rate', [0, 0.0]) if zero == 'pay' else q
    r = v.choice('zero rate', [0, 0.0]) if zero == 'rec' else r
    pay = rec = lambda x: 0
    which = v.choice('forward', ['pay', 'rec', 'both', 'none', 'shared'])
    if dc != 'none' and which != 'none':
        if which in ('pay', 'both'):
            kw['forward_curve'] = pay = (lambda x: f * x)
        if which in ('rec', 'both'):
            kw['rec_leg_forward_curve'] = rec = (lambda x: g * x)
        if which == 'shared':
            kw['forward_curve'] = pay = rec = (lambda x: f * x)
            kw['rec_leg_forward_curve'] = pay
    w = dcf.interest_rate_swap(s, e, p, notional_amount=n, fixed_rate=q,
                               rec_leg_period=p, rec_leg_fixed_rate=r, **kw)
    flows(v, w.legs[0], s, ds, [-n] * len(ds), q, pay, yf)
    flows(v, w.legs[1], s, ds, [n] * len(ds), r, rec, yf)


@REG.harness()
def defaults(v, dcf):
    """ten years with annual periods (swaps receive each quarter)"""
    n, r = v.real('n', -100, 100), v.real('r', -0.1, 0.1)
    b = dcf.bond(notional_amount=n, fixed_rate=r)
    flows(v, b.legs[1], 0, list(range(1, 11)), [n] * 10, r, lambda x: 0)
    w = dcf.interest_rate_swap(notional_amount=n, fixed_rate=r,
                               rec_leg_fixed_rate=r)
    flows(v, w.legs[0], 0, list(range(1, 11)), [-n] * 10, r, lambda x: 0)
    flows(v, w.legs[1], 0, [0.25 * k for k in range(1, 41)], [n] * 40, r,
          lambda x: 0)
    v.eq('zero coupon', dcf.bond()[5.0], 0)
    v.eq('redemption', dcf.bond()[10.0], 1)


CAL = [  # start, end, period, adjusted pay dates
    (20210115, 20230115, '6m', (20210715, 20220117, 20220715, 20230116)),
    (20210115, 20230315, '6m', (20210315, 20210915, 20220315, 20220915,
                                20230315)),
    (20210131, 20220131, '3m', (20210430, 20210730, 20211029, 20220131)),
    (20210115, '2y', '1y', (20220117, 20230116)),
]


@REG.harness(quick=list(range(len(CAL))))
def calendar(v, dcf, i):
    """calendar dates: rolled back from the end, adjusted to business days"""
    from businessdate import BusinessDate as BD
    s, e, p, ds = CAL[i]
    s, ds = BD(s), [BD(d) for d in ds]
    e = e if isinstance(e, str) else BD(e)
    end = s + e if isinstance(e, str) else e
    n, r, q = (v.real(x, -1, 1) for x in 'nrq')

    def interest(leg, rate, n):
        v.holds('interest dates', list(leg.domain) == ds)
        last = s
        for d in ds:
            v.eq('interest', leg[d], rate * n *
                 (last.diff_in_days(d) / 365.25))
            last = d
    what = v.choice('what', ['bond', 'plan', 'swap'])
    if what == 'swap':
        w = dcf.interest_rate_swap(s, e, p, notional_amount=n, fixed_rate=r,
                                   rec_leg_period=p, rec_leg_fixed_rate=q)
        interest(w.legs[0], r, -n)
        interest(w.legs[1], q, n)
        return
    plan = n
    if what == 'plan':
        plan = [n] * len(ds)
    b = dcf.bond(s, e, p, notional_amount=plan, fixed_rate=r)
    m, c = b.legs
    if what == 'bond':
        interest(c, r, n)
        v.holds('notional dates', list(m.domain) == [s, end])
        v.eqs('notional', m[m.domain], [-n, n])
    else:
        v.holds('notional dates', list(m.domain) == [s] + ds)
        v.eqs('notional', m[m.domain], [-n * len(ds)] + plan)


def adjusted(d, convention, holidays):
    """business day of a date by the conventions of the market"""
    from datetime import date, timedelta
    d = date(*d)

    def roll(x, step):
        while x.weekday() > 4 or x in holidays:
            x = x + timedelta(step)
        return x
    if convention == 'no':
        return d
    first = 1 if 'follow' in convention else -1
    x = roll(d, first)
    if convention.startswith('mod') and x.month != d.month:
        x = roll(d, -first)
    return x


CONVENTION = 'mod_follow', 'follow', 'previous', 'mod_previous', 'no', None
ROLLED = [  # start, end, period, dates rolled back from the end
    ((2021, 1, 15), (2022, 1, 31), '6m',
     ((2021, 1, 31), (2021, 7, 31), (2022, 1, 31))),
    ((2020, 12, 31), (2021, 5, 1), '2m',
     ((2021, 1, 1), (2021, 3, 1), (2021, 5, 1))),
    ((2021, 1, 15), (2024, 1, 15), '1y',
     ((2022, 1, 15), (2023, 1, 15), (2024, 1, 15))),
]


@REG.harness(quick=[(i, k) for i in range(len(ROLLED))
                    for k in ('bond', 'swap')])
def business_days(v, dcf, p):
    """pay dates are adjusted by convention and holidays as given, for both
    legs of a swap"""
    from businessdate import BusinessDate as BD
    from datetime import date
    i, kind = p
    s, e, period, ds = ROLLED[i]
    how = v.choice('holidays', [None, 'none', 'one', 'many'])
    days = [date(*d) for d in ds]
    hol = {None: None, 'none': [], 'one': [days[1]],
           'many': days + [date(2021, 2, 1), date(2022, 2, 1)]}[how]
    kw = {} if hol is None else {'holidays': [BD(d) for d in hol]}
    c = v.choice('convention', CONVENTION)
    if c is not None:
        kw['convention'] = c
    # by default the holidays of the date class: TARGET
    off = [date(y, *x) for y in range(2020, 2025)
           for x in ((1, 1), (5, 1), (12, 25), (12, 26))] \
        if hol is None else hol
    want = [BD(adjusted(d, c or 'mod_follow', off)) for d in ds]
    n, r, q = (v.real(x, -1, 1) for x in 'nrq')
    s, e = BD(date(*s)), BD(date(*e))
    given = BD(s), BD(e)

    def interest(leg, n, r):
        v.holds('dates', list(leg.domain) == want)
        last = s
        for d in want:
            v.eq('interest', leg[d],
                 r * n * (last.diff_in_days(d) / 365.25))
            last = d
    if kind == 'bond':
        m, x = dcf.bond(s, e, period, notional_amount=n, fixed_rate=r,
                        **kw).legs
        interest(x, n, r)
        v.holds('notional dates', list(m.domain) == [s, e])
    else:
        x, y = dcf.interest_rate_swap(
            s, e, period, notional_amount=n, fixed_rate=r,
            rec_leg_period=period, rec_leg_fixed_rate=q, **kw).legs
        interest(x, -n, r)
        interest(y, n, q)
    v.holds('arguments as before', 'holidays' not in kw or
            kw['holidays'] == [BD(d) for d in hol])
    v.holds('start and end as before', (s, e) == given)


@REG.harness(quick=[('bond', 17), ('plan', 13), ('swap', 30), ('swap', 61),
                    ('bond', 61)], thorough=[('swap', 150), ('plan', 60)])
def long_terms(v, dcf, p):
    """the same for long terms at fixed dates"""
    kind, m = p
    s, pp = v.const(0.5), v.choice('period', [0.25, 0.125])
    stub = v.choice('stub', [0, 0.0625])
    ds = [s + pp * k + stub for k in range(0 if stub else 1, m + 1)]
    e = ds[-1]
    n = v.choice('sign', [1, -1]) * v.real('n', 1, 100)
    q, r, f = (v.real(x, -0.1, 0.1) for x in 'qrf')
    if kind == 'bond':
        b = dcf.bond(s, e, v.const(pp), notional_amount=n, fixed_rate=r,
                     forward_curve=f)
        v.eqs('notional', b.legs[0][b.legs[0].domain], [-n, n], 100)
        flows(v, b.legs[1], s, ds, [n] * len(ds), r, lambda x: f)
        v.eq('end', b[e], n + b.legs[1][e], 100)
    elif kind == 'plan':
        plan = reals(v, len(ds), 1, 100, 'p')
        m, c = dcf.bond(s, e, v.const(pp), notional_amount=plan,
                        fixed_rate=r).legs
        v.eqs('notional', m[m.domain], [-sum(plan)] + plan, 1000)
        flows(v, c, s, ds, [sum(plan[i:]) for i in range(len(plan))], r,
              lambda x: 0)
    else:
        w = dcf.interest_rate_swap(
            s, e, v.const(pp), notional_amount=n, fixed_rate=q,
            rec_leg_period=v.const(pp), rec_leg_fixed_rate=r,
            rec_leg_forward_curve=f)
        flows(v, w.legs[0], s, ds, [-n] * len(ds), q, lambda x: 0)
        flows(v, w.legs[1], s, ds, [n] * len(ds), r, lambda x: f)
        v.eq('end', w[e], w.legs[0][e] + w.legs[1][e], 100)
