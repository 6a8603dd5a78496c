"""C22 greeks of option models are the derivatives of their prices"""
from engine.api import Registry
from checks.c21 import VANILLA, BINARY, inputs, model

REG = Registry('C22', bounds='any forward, strike, volatility and expiry '
               'within the bounds for every vanilla option model, closed '
               'forms and difference quotients')
BP, PC, DAY = 10000, 100, 365.25
CLOSED = VANILLA[1:]
# closed forms where the model has one
GAMMA = VANILLA[1:2]
VEGA = VANILLA[1:]


def setting(v, m):
    f, k = inputs(v, m)
    return f, k, v.pos('vol', 0.05, 1), v.pos('t', 0.25, 4)


@REG.harness(quick=CLOSED)
def delta(v, dcf, m):
    """change of the price with the forward, per basis point"""
    f, k, vol, t = setting(v, m)

    def price(x):
        return model(v, dcf, m, x, vol).get_call_value(t, k)
    md = model(v, dcf, m, f, vol,
               bump_greeks=v.choice('bump', [None, False, 0]))
    d = v.deriv('price', price, f)
    v.eq('call', md.get_call_delta(t, k) * BP, d)
    v.eq('put', md.get_put_delta(t, k) * BP, d - 1)
    v.le('at least 0', 0, md.get_call_delta(t, k) * BP)
    v.le('at most 1', md.get_call_delta(t, k) * BP, 1)


@REG.harness(quick=GAMMA)
def gamma(v, dcf, m):
    """change of the delta with the forward"""
    f, k, vol, t = setting(v, m)

    def slope(x):
        return model(v, dcf, m, x, vol).get_call_delta(t, k) * BP
    md = model(v, dcf, m, f, vol,
               bump_greeks=v.choice('bump', [None, False, 0]))
    d = v.deriv('delta', slope, f)
    v.eq('call', md.get_call_gamma(t, k) * BP * BP, d, 10)
    v.eq('put', md.get_put_gamma(t, k) * BP * BP, d, 10)


def vega_of(v, dcf, m):
    f, k, vol, t = setting(v, m)

    def price(x):
        return model(v, dcf, m, f, x).get_call_value(t, k)
    md = model(v, dcf, m, f, vol,
               bump_greeks=v.choice('bump', [None, False, 0]))
    d = v.deriv('price', price, vol)
    v.eq('call', md.get_call_vega(t, k) * PC, d)
    v.eq('put', md.get_put_vega(t, k) * PC, d)


@REG.harness(quick=VEGA)
def vega(v, dcf, m):
    """change of the price with the volatility, per cent"""
    vega_of(v, dcf, m)


@REG.harness(quick=CLOSED)
def quotients(v, dcf, m):
    """bumped greeks are the difference quotients"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)

    def price(f=f, vol=vol):
        return model(v, dcf, m, f, vol).get_call_value(t, k)
    md = model(v, dcf, m, f, vol, bump_greeks=True)
    c = md.__class__
    h, s, g = v.const(c.DELTA_SHIFT), v.const(c.VEGA_SHIFT), 1000
    p = price()
    up, dn = price(f + h), price(f - h)
    d = md.get_call_delta(t, k)
    v.eq('delta', d * BP * h, up - p, 0.01)
    v.eq('put delta', (md.get_put_delta(t, k) * BP + 1) * h, up - p, 0.01)
    v.eq('gamma', md.get_call_gamma(t, k) * BP * BP * h * h,
         up - 2 * p + dn, 0.01)
    v.eq('put gamma', md.get_put_gamma(t, k), md.get_call_gamma(t, k))
    v.eq('vega', md.get_call_vega(t, k) * PC * s,
         price(vol=vol + s) - p, 0.01)
    v.eq('put vega', md.get_put_vega(t, k), md.get_call_vega(t, k))
    v.eq('put theta', md.get_put_theta(t, k), md.get_call_theta(t, k))


@REG.harness(quick=CLOSED)
def scales(v, dcf, m):
    """other shifts and scales than those of the package"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    h = 0.0625
    fwd = dict(DELTA_SHIFT=v.const(h), VEGA_SHIFT=v.const(h),
               THETA_SHIFT=v.const(h))
    sc = dict(DELTA_SCALE=v.const(0.5), VEGA_SCALE=v.const(0.25),
              THETA_SCALE=v.const(0.125))
    a = model(v, dcf, m, f, vol, bump_greeks=True)
    b = model(v, dcf, m, f, vol, bump_greeks=True)
    c = model(v, dcf, m, f, vol)
    d = model(v, dcf, m, f, vol)
    a.__class__ = type('Shifted', (type(a),), fwd)
    b.__class__ = type('Scaled', (type(b),), dict(sc, **fwd))
    d.__class__ = type('Scaled', (type(d),), sc)
    price = c.get_call_value

    def up(x, y, u=0):
        return model(v, dcf, m, x, y).get_call_value(t + u, k)
    p = price(t, k)
    v.eq('delta', b.get_call_delta(t, k) * h, (up(f + h, vol) - p) * 0.5)
    v.eq('put delta', b.get_put_delta(t, k),
         b.get_call_delta(t, k) - 0.5)
    v.eq('gamma', b.get_call_gamma(t, k) * h * h,
         (up(f + h, vol) - 2 * p + up(f - h, vol)) * 0.25)
    v.eq('vega', b.get_call_vega(t, k) * h, (up(f, vol + h) - p) * 0.25)
    v.eq('theta', b.get_call_theta(t, k) * h, (up(f, vol, h) - p) * 0.125)
    v.eq('shifted delta', a.get_call_delta(t, k) * BP * 0.5,
         b.get_call_delta(t, k))
    v.eq('closed delta', d.get_call_delta(t, k),
         c.get_call_delta(t, k) * BP * 0.5)
    v.eq('closed vega', d.get_call_vega(t, k),
         c.get_call_vega(t, k) * PC * 0.25)


@REG.harness(quick=CLOSED[1:])
def bumped_gamma(v, dcf, m):
    """models without closed gamma use the difference quotient"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    a = model(v, dcf, m, f, vol)
    b = model(v, dcf, m, f, vol, bump_greeks=True)
    v.eq('gamma', a.get_call_gamma(t, k) * BP, b.get_call_gamma(t, k) * BP,
         0.01)


@REG.harness(quick=[(m, w) for m in VANILLA for w in ('vol', 'time')])
def no_risk(v, dcf, p):
    """no volatility or time left: the slope of the intrinsic value"""
    m, w = p
    f, k = inputs(v, m)
    t0 = v.real('t0', 0, 2)
    b = v.choice('bump', [None, True])
    md = model(v, dcf, m, f, v.const(0) if w == 'vol' else
               v.real('vol', 0.05, 1), t0, bump_greeks=b)
    x = t0 if w == 'time' else t0 + v.real('t', 0.1, 3)
    d = 0 if f < k else 1
    v.eq('delta', md.get_call_delta(x, k) * BP, d)
    v.eq('put delta', md.get_put_delta(x, k) * BP, d - 1)
    for fn in ('get_call_gamma', 'get_put_gamma', 'get_call_vega',
               'get_put_vega', 'get_call_theta', 'get_put_theta'):
        v.eq(fn, getattr(md, fn)(x, k), 0)


@REG.harness(quick=[(m, b) for m in (VANILLA[0], BINARY[0])
                    for b in (None, False, True)])
def intrinsic(v, dcf, p):
    """models without time value: the slope of the payoff off the strike,
    nothing else"""
    m, bump = p
    f, k = inputs(v, m)
    h = v.const(getattr(dcf.models, m).DELTA_SHIFT)
    v.assume((f > k + 2 * h) | (f < k - 2 * h))
    t0 = v.real('t0', -1, 2)
    x = t0 + v.real('t', 0.0625, 3)
    md = model(v, dcf, m, f, v.real('vol', 0.05, 1), t0, bump_greeks=bump)
    d = 1 if f > k and m == VANILLA[0] else 0
    v.eq('delta', md.get_call_delta(x, k) * BP, d)
    if m == VANILLA[0]:
        v.eq('put delta', md.get_put_delta(x, k) * BP, d - 1)
    for fn in ('get_call_gamma', 'get_put_gamma', 'get_call_vega',
               'get_put_vega', 'get_call_theta', 'get_put_theta'):
        v.eq(fn, getattr(md, fn)(x, k), 0)


@REG.harness(quick=CLOSED)
def theta(v, dcf, m):
    """change of the price by one more day to expiry"""
    f, k = inputs(v, m)
    vol, t = v.real('vol', 0.05, 1), v.pos('t', 0.25, 4)
    md = model(v, dcf, m, f, vol)
    h = v.const(1 / DAY)
    p = md.get_call_value(t, k)
    q = md.get_call_value(t + h, k)
    v.eq('theta', md.get_call_theta(t, k), q - p, 0.01)


@REG.harness(quick=BINARY[1:])
def digital(v, dcf, m):
    """delta, gamma and vega of binary options"""
    f, k, vol, t = setting(v, m)

    def md(f=f, vol=vol):
        return model(v, dcf, m, f, vol)
    d = v.deriv('price', lambda x: md(f=x).get_call_value(t, k), f)
    v.eq('delta', md().get_call_delta(t, k) * BP, d, 10)
    if 'Log' not in m:
        d = v.deriv('delta', lambda x: md(f=x).get_call_delta(t, k) * BP, f)
        v.eq('gamma', md().get_call_gamma(t, k) * BP * BP, d, 1000)
    d = v.deriv('price', lambda x: md(vol=x).get_call_value(t, k), vol)
    v.eq('vega', md().get_call_vega(t, k) * PC, d, 10)


@REG.harness(quick=[(m, w) for m in (VANILLA[3], BINARY[3])
                    for w in ('delta', 'vega', 'others')])
def displaced(v, dcf, p):
    """greeks with forward and strike moved by the displacement"""
    m, w = p
    x, y, vol, t = setting(v, m)            # moved forward and strike
    a = v.real('a', -0.5, 2)
    k = y - a

    def md(x=x, vol=vol, **kw):
        return getattr(dcf.models, m)(
            valuation_date=v.const(0), forward_curve=lambda d: x - a,
            volatility_curve=lambda d: vol, displacement=a, **kw)
    z = 1 if m in VANILLA else 10
    if w == 'delta':
        d = v.deriv('price', lambda x: md(x=x).get_call_value(t, k), x)
        v.eq('delta', md().get_call_delta(t, k) * BP, d, z)
        v.eq('put delta', md().get_put_delta(t, k) * BP, d - 1, z)
    elif w == 'vega':
        d = v.deriv('price', lambda s: md(vol=s).get_call_value(t, k), vol)
        v.eq('vega', md().get_call_vega(t, k) * PC, d, z)
        v.eq('put vega', md().get_put_vega(t, k) * PC, d, z)
    else:
        o = model(v, dcf, m.replace('Displaced', ''), x, vol)
        b = model(v, dcf, m.replace('Displaced', ''), x, vol,
                  bump_greeks=True)
        for fn in ('get_call_gamma', 'get_put_gamma', 'get_call_theta',
                   'get_put_theta', 'get_call_value'):
            v.eq(fn, getattr(md(), fn)(t, k), getattr(o, fn)(t, y))
        for fn in ('get_call_gamma', 'get_call_theta', 'get_call_delta',
                   'get_put_delta', 'get_call_vega'):
            v.eq('bumped ' + fn, getattr(md(bump_greeks=True), fn)(t, k),
                 getattr(b, fn)(t, y))


@REG.harness(quick=[(m, w) for m in VANILLA + BINARY[1:2]
                    for w in (False, True)])
def again(v, dcf, p):
    """greeks asked for before do not matter: curves and dates of the model
    are those of the moment, and stay as they are"""
    m, bump = p
    f, k = inputs(v, m)
    g = v.pos('g', 0.25, 4) if 'Log' in m else v.real('g', -2, 2)
    o, x = v.const(0.5), v.const(1.5)
    kw = {'displacement': v.const(0)} if 'Displaced' in m else {}
    fc, vc = (lambda x: f), (lambda x: v.const(0.25))

    def build(o=o, fc=fc, vc=vc):
        return getattr(dcf.models, m)(o, fc, vc, bump_greeks=bump, **kw)
    md = build()
    names = ['delta', 'gamma', 'vega', 'theta']
    put = v.choice('put', [False, True])
    names = [('get_put_' if put else 'get_call_') + n for n in names]

    def ask(md, x=x, k=k):
        return [getattr(md, n)(x, k) for n in names]
    first = ask(md)
    ask(md, x + 1), ask(md, x, k + 1)
    for a, b, n in zip(ask(md), first, names):
        v.eq('after another ' + n, a, b)
    for a, b, n in zip(ask(md, x, k + 1), ask(build(), x, k + 1), names):
        v.eq('other strike ' + n, a, b)
    v.holds('curves unchanged', md.forward_curve is fc and
            md.volatility_curve is vc)
    v.eq('date unchanged', md.valuation_date, o)
    w = v.choice('change', ['forward', 'vol', 'date'])
    if w == 'forward':
        md.forward_curve = h = (lambda x: g)
        new = build(fc=h)
    elif w == 'vol':
        md.volatility_curve = h = (lambda x: v.const(0.5))
        new = build(vc=h)
    else:
        md.valuation_date = v.const(0)
        new = build(v.const(0))
    for a, b, n in zip(ask(md), ask(new), names):
        v.eq('changed ' + n, a, b)
