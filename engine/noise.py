"""Other objects, built with other settings and used before every run: what a
property says about an object must not depend on them.  Plain numbers only, so
that no decision of the run is taken here; whatever fails here is left to the
harness that is about it."""


def _curves(d):
    act = (lambda s, e: 2.0 * (e - s))
    i = d.interpolation
    tri = (lambda x, y, *_: i.interpolation_scheme(
        x, y, (i.right, i.linear, i.left)))
    kw = dict(origin=-1.0, day_count=act, forward_tenor=0.375)
    for cls in ('ZeroRateCurve', 'CashRateCurve', 'DiscountFactorCurve',
                'FlatIntensityCurve', 'SurvivalProbabilityCurve',
                'DefaultProbabilityCurve', 'MarginalSurvivalProbabilityCurve',
                'MarginalDefaultProbabilityCurve', 'TerminalVolatilityCurve'):
        c = getattr(d, cls)([0.5, 1.5, 1.0], [0.5, 0.625, 0.75], tri, **kw)
        spread = d.DateCurve([0.0], [0.03125])
        if 'Prob' not in cls and 'Disc' not in cls:
            c.spread = spread
        c.fixings[1.25] = 0.875
        for get in ('get_discount_factor', 'get_zero_rate', 'get_cash_rate',
                    'get_short_rate', 'get_survival_prob',
                    'get_flat_intensity', 'get_hazard_rate',
                    'get_terminal_vol'):
            f = getattr(c, get, None)
            if f is not None:
                f(1.25)
        c[1.0] = 0.6875
        c(1.25), c(0.25), c.kwargs
    c = d.Curve([3.0, 1.0, 2.0], [3.0, 4.0, 5.0], 'left')
    c[1.5] = 7.0
    c(1.75), c(0.5), c + c, c * c, c.shifted(1.0)
    d.DateCurve([0.5, 1.0], [2.0, 3.0], origin=0.0).table


def _schemes(d):
    i = d.interpolation
    x, y = [0.5, 1.0, 2.5], [0.5, 0.75, 2.0]
    for k in ('linear_scheme', 'log_linear_scheme', 'log_linear_rate_scheme',
              'zero_linear_scheme', 'interpolation_scheme'):
        k = getattr(i, k)
        for a in ((i.right, i.nearest, i.zero), (i.left, i.zero), (i.right,)):
            f = k(x, y, a)
            f(0.25), f(0.75), f(3.0)
    i.default_value_interpolation(x, y, 5.0)(0.625)


def _flows(d):
    act = (lambda s, e: 2.0 * (e - s))
    c = d.ZeroRateCurve([0.0, 5.0], [0.03125, 0.0625], forward_tenor=0.375)
    kw = dict(origin=0.25, day_count=act, fixing_offset=0.125,
              pay_offset=0.0625, fixed_rate=0.03125)
    r = d.RateCashFlowList([1.0, 1.5, 2.5], [1.0, -2.0, 3.0],
                           forward_curve=c, **kw)
    f = d.FixedCashFlowList([1.0, 1.5], [2.0, 3.0], origin=-0.5)
    g = d.CashFlowLegList([f, r])
    for leg in (r, f, g):
        d.get_present_value(leg, c, 0.5)
        d.get_interest_accrued(leg, 1.25)
        leg(0.25), leg.table
    m = d.models.DisplacedLogNormalOptionPayOffModel(
        -0.5, 0.125, 0.375, act, displacement=0.5)
    b = d.models.NormalOptionPayOffModel(-0.5, c, 0.375, act, True)
    for x in (m, b):
        for k in ('value', 'delta', 'gamma', 'vega', 'theta'):
            getattr(x, 'get_call_' + k)(1.25, 0.25)
            getattr(x, 'get_put_' + k)(1.25, 0.25)
        o = d.ContingentRateCashFlowList([1.0, 1.5], 2.0, cap_strike=0.0625,
                                         floor_strike=0.03125, payoff_model=x,
                                         **kw)
        o[1.0], o.table
        p = d.OptionCashflowList([1.0, 1.5], [1.0, 2.0], 0.25, True,
                                 payoff_model=x)
        p[1.0], d.get_present_value(p, c, 0.5)


def _others(d):
    p = d.plans
    for f in (p.same, p.bullet, p.amortize, p.annuity, p.consumer):
        p.outstanding(f(5, 7.0), 7.0)
    s = d.RatingClass.master_scale({'P': 0.25, 'Q': 0.5, 'R': 1.0})
    d.RatingClass(0.375, s).vector, str(d.RatingClass('Q', s))
    c = d.ZeroRateCurve([0.0], [0.0625])
    x = d.FxContainer('XXX', c)
    x.add('YYY', c, 1.25)
    x.add('ZZZ', c, 1.5)
    x['XXX', 'YYY'](0.5)
    d.ForwardCurve([0.5, 1.0], [2.0, 3.0], yield_curve=0.125)(2.0)
    d.bond(0.25, 3.0, 0.75, notional_amount=[1.0, 2.0, 3.0, 4.0],
           fixed_rate=0.125)
    d.interest_rate_swap(0.25, 3.0, 0.75, fixed_rate=0.125, rec_leg_period=0.5)


def make(dcf):
    for f in (_schemes, _curves, _flows, _others):
        try:
            f(dcf)
        except Exception:
            pass
