"""shared input shapes"""


def grid(v, n, lo=0.0, hi=2.0, gmin=0.25, gmax=4.0, tag='x'):
    """n ascending float dates, the first in [lo, hi]"""
    xs = [v.real(tag + '0', lo, hi)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('%sg%d' % (tag, i), gmin, gmax))
    return xs


def reals(v, n, lo, hi, tag='y'):
    return [v.real('%s%d' % (tag, i), lo, hi) for i in range(n)]


def off_nodes(v, x, xs, eps=1e-3):
    """x is not within eps of a node (values jump there)"""
    for a in xs:
        v.assume((x - a > eps) | (x - a < -eps))


def some_orders(v, n, name='order'):
    ps = [tuple(range(n)), tuple(reversed(range(n)))]
    ps += [tuple(list(range(i, n)) + list(range(i))) for i in range(1, n)]
    return v.choice(name, list(dict.fromkeys(ps)))


GETTERS = {
    'ZeroRateCurve': ('get_discount_factor', 'get_zero_rate',
                      'get_cash_rate', 'get_short_rate'),
    'DiscountFactorCurve': ('get_discount_factor', 'get_zero_rate',
                            'get_cash_rate', 'get_short_rate'),
    'CashRateCurve': ('get_discount_factor', 'get_cash_rate'),
    'FlatIntensityCurve': ('get_survival_prob', 'get_flat_intensity',
                           'get_hazard_rate'),
    'SurvivalProbabilityCurve': ('get_survival_prob', 'get_flat_intensity',
                                 'get_hazard_rate'),
    'MarginalSurvivalProbabilityCurve': ('get_survival_prob',),
    'TerminalVolatilityCurve': ('get_terminal_vol',),
}


def history(v, dcf, cls, get):
    """what was asked of a curve before does not matter: points and spread
    are those of the moment"""
    xs = grid(v, 2, 0.5, 2, 0.5, 3)
    if cls == 'TerminalVolatilityCurve':
        xs = xs[:1]              # no negative variance

    def y(name):
        if 'Prob' in cls or 'Factor' in cls:
            return v.pos(name, 0.5, 0.9)
        return v.real(name, 0.125, 0.25)
    ys = [y('y%d' % i) for i, _ in enumerate(xs)]
    kw = dict(origin=0.25)
    if cls.startswith('Marginal') or 'get_cash' in get or \
            cls.startswith('Cash'):
        kw['forward_tenor'] = 1.0
    C = type('C', (getattr(dcf, cls),), {'_TIME_SHIFT': v.const(0.0078125)})
    c = C(xs, ys, **kw)
    q = v.real('q', 0.5, 3)
    off_nodes(v, q, xs)
    args = q,
    if get in ('get_discount_factor', 'get_zero_rate', 'get_survival_prob',
               'get_flat_intensity', 'get_terminal_vol'):
        args = q, q + v.real('t', 0.25, 1)
        off_nodes(v, args[1], xs)

    def value(x):
        return getattr(x, get)(*args)

    w = q + v.real('w', 0.0625, 0.5)
    off_nodes(v, w, xs)
    getattr(c, get)(w, *args[1:])
    if len(args) > 1:
        getattr(c, get)(q, args[1] + 0.5)
    before = value(c)
    v.eq('after other dates', before, value(C(xs, ys, **kw)))
    v.eq('asked twice', value(c), before)
    ks = list(range(len(xs)))
    if 'Prob' not in cls and 'Factor' not in cls:
        ks.append(None)
    k = v.choice('k', ks)
    if k is not None:
        zs = list(ys)
        zs[k] = y('ny')
        c[xs[k]] = zs[k]
        v.eq('after an update', value(c), value(C(xs, zs, **kw)))
        c[xs[k]] = ys[k]
    else:
        s = v.real('s', -0.001, 0.001)
        c.spread = dcf.DateCurve([0.0], [s], origin=0.0)
        e = C(xs, ys, **kw)
        e.spread = dcf.DateCurve([0.0], [s], origin=0.0)
        v.eq('with spread', value(c), value(e))
        c.spread = None
    v.eq('and back', value(c), before)
    if cls != 'TerminalVolatilityCurve':
        nx, ny = xs[-1] + 0.5, y('last')
        off_nodes(v, q, [nx])
        off_nodes(v, args[-1], [nx])
        c[nx] = ny
        v.eq('after another point', value(c),
             value(C(xs + [nx], ys + [ny], **kw)))


def weekdays(v, name='k'):
    """day count of days that weigh differently: odd days count `k` times
    as much as even ones, additive over adjacent periods"""
    k = v.real(name, 0.25, 4)
    t = v.date(0)

    def up_to(d):
        n = t.diff_in_days(d)
        return ((n + 1) // 2 + (n // 2) * k) / 256

    def day_count(start, end):
        return up_to(end) - up_to(start)
    return day_count


GAPS = 1, .5, .75, 2, .25, 1.5, .5, 1, 3, .25


def long_grid(v, n, lo=0.5, hi=1.0, tag='lx'):
    """many dates at fixed uneven distances from a symbolic first one"""
    xs = [v.real(tag, lo, hi)]
    for i in range(1, n):
        xs.append(xs[-1] + GAPS[(i - 1) % len(GAPS)])
    return xs
