"""C06 compounding conventions invert their rates"""
from engine.api import Registry

REG = Registry('C06', bounds='rates in [-0.3, 1] (simple: 1 + r t >= 0.05), '
               'periods t in [-30, -0.01] and [0.01, 30], frequencies 1..365 and symbolic in '
               '[0.5, 400]')

PERIODIC = {'annually': 1, 'semi': 2, 'quarterly': 4, 'monthly': 12,
            'daily': 365}


def rt(v):
    return (v.real('r', -0.3, 1),
            v.choice('sign', [1, -1]) * v.real('t', 0.01, 30))


@REG.harness()
def simple(v, dcf):
    c = dcf.compounding
    r, t = rt(v)
    v.assume(1 + r * t >= 0.05)
    df = c.simple_compounding(r, t)
    v.eq('rate of factor', c.simple_rate(df, t), r)
    v.eq('definition', df * (1 + r * t), 1)
    d = v.real('d', 0.05, 5)
    v.eq('factor of rate', c.simple_compounding(c.simple_rate(d, t), t), d)


@REG.harness()
def continuous(v, dcf):
    c = dcf.compounding
    r, t = rt(v)
    df = c.continuous_compounding(r, t)
    v.eq('rate of factor', c.continuous_rate(df, t), r)
    v.eq('definition', df, v.exp(-r * t))
    d = v.real('d', 0.05, 5)
    v.eq('factor of rate',
         c.continuous_compounding(c.continuous_rate(d, t), t), d)
    s = v.real('s', 0.01, 30)
    v.eq('multiplicative', df * c.continuous_compounding(r, s),
         c.continuous_compounding(r, s + t))


@REG.harness(quick=[1, 2, 4, 12, 365, None])
def periodic(v, dcf, m):
    c = dcf.compounding
    r, t = rt(v)
    m = v.real('m', 0.5, 400) if m is None else m
    df = c.periodic_compounding(r, t, m)
    v.eq('rate of factor', c.periodic_rate(df, t, m), r)
    v.eq('definition', v.log(df), -t * m * v.log(1 + r / m))
    d = v.real('d', 0.05, 5)
    v.eq('factor of rate',
         c.periodic_compounding(c.periodic_rate(d, t, m), t, m), d)


@REG.harness(quick=sorted(PERIODIC))
def named(v, dcf, name):
    """the named conventions use their number of periods per year"""
    c = dcf.compounding
    r, t = rt(v)
    m = PERIODIC[name]
    df = getattr(c, name + '_compounding')(r, t)
    v.eq('definition', v.log(df), -t * m * v.log(1 + r / m))
    v.eq('rate of factor', c.periodic_rate(df, t, m), r)
    v.eq('as periodic', df, c.periodic_compounding(r, t, m))


@REG.harness(quick=['simple', 'continuous', 'annually', 'semi', 'quarterly',
                    'monthly', 'daily'])
def shape(v, dcf, name):
    """no time or no rate: factor 1; higher rate or longer: smaller factor"""
    c = dcf.compounding
    f = getattr(c, name + '_compounding')
    r, t = v.real('r', 0.001, 1), v.real('t', 0.01, 30)
    v.eq('no time', f(r, 0.0), 1)
    v.eq('no rate', f(0.0, t), 1)
    dr, dt = v.real('dr', 0.001, 1), v.real('dt', 0.01, 5)
    v.le('decreasing in the rate', f(r + dr, t), f(r, t))
    v.le('decreasing in time', f(r, t + dt), f(r, t))
    v.le('below one', f(r, t), 1)
    v.holds('positive', f(r, t) > 0)
