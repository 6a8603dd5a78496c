"""C25 FX containers stay consistent"""
from engine.api import Registry

REG = Registry('C25', bounds='base currency and 1..5 others, '
               'symbolic spots, flat or sloped rate curves, any forward date '
               'up to 10 years, re-added currencies')
NAMES = ('EUR', 'USD', 'GBP', 'JPY', 'CHF', 'SEK')


def curve(v, dcf, i, o, flat=True):
    r = v.real('r%d' % i, -0.05, 0.2)
    s = r if flat else v.real('s%d' % i, -0.05, 0.2)
    return dcf.ZeroRateCurve([o + 1, o + 5], [r, s], origin=o)


def container(v, dcf, n, o, flat=True):
    cs = {'EUR': curve(v, dcf, 0, o, flat)}
    fx = dcf.FxContainer('EUR', cs['EUR'])
    sp = {'EUR': 1}
    for i, k in enumerate(NAMES[1:n + 1], 1):
        cs[k] = curve(v, dcf, i, o, flat)
        sp[k] = v.real('fx%d' % i, 0.25, 4)
        fx.add(k, cs[k], sp[k])
    return fx, cs, sp


def pairs(cs):
    return [(a, b) for a in cs for b in cs if a != b or a == 'EUR']


def check(v, fx, cs, sp, o):
    v.holds('no others', {a for p in fx for a in p} == set(cs))
    for a, b in pairs(cs):
        c = fx[a, b]
        v.eq('spot', c(o) * sp[a], sp[b])
        v.holds('domestic', c.domestic_curve is cs[a])
        v.holds('foreign', c.foreign_curve is cs[b])
        v.eqs('dates', c.domain, [o])


@REG.harness(quick=[1, 2, 3, 4, 5])
def spots(v, dcf, n):
    """all pairs quote the ratio of the spots, with the curves of both"""
    o = v.real('o', 0, 2)
    fx, cs, sp = container(v, dcf, n, o)
    check(v, fx, cs, sp, o)
    for a in cs:
        d = fx[a]
        v.holds('all pairs of a currency', set(d) >= set(cs) - {a})
        for b in d:
            v.holds('pair', d[b] is fx[a, b])
            v.eq('inverse', fx[a, b](o) * fx[b, a](o), 1)
    v.holds('unknown currency', not fx['XXX'])


@REG.harness(quick=[2, 3], thorough=[4])
def again(v, dcf, n):
    """a currency added again: new spot and curve in all pairs"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, n, o)
    k = v.choice('currency', NAMES[1:n + 1])
    for i in range(v.choice('times', [1, 2])):
        cs[k] = curve(v, dcf, 20 + i, o)
        sp[k] = v.real('new%d' % i, 0.25, 4)
        fx.add(k, cs[k], sp[k])
    check(v, fx, cs, sp, o)


@REG.harness(quick=[1, 2], thorough=[3])
def forwards(v, dcf, n):
    """forwards keep inverse and triangle at each date"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, n, o)
    x = v.real('x', 0.5, 10)
    t = {a: sp[a] * v.const(1) for a in cs}
    if x > o:
        for i, a in enumerate(cs):
            t[a] = sp[a] / cs[a].get_discount_factor(o, x)
    for a, b in pairs(cs):
        v.eq('forward', fx.get_forward_price(a, b, x) * t[a], t[b], 10)
        v.eq('same as the pair', fx.get_forward_price(a, b, x),
             fx[a, b].get_forward_price(x))
        v.eq('called', fx[a, b](x), fx[a, b].get_forward_price(x))
        v.eq('inverse', fx[a, b](x) * fx[b, a](x), 1)


@REG.harness(quick=['one', 'two'])
def sloped(v, dcf, k):
    """any curves"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, 1, o, False)
    x = v.real('x', 0.5, 8)
    a, b = ('EUR', 'USD') if k == 'one' else ('USD', 'EUR')
    f = fx.get_forward_price(a, b, x)
    w = cs[a].get_discount_factor(o, x) / cs[b].get_discount_factor(o, x)
    v.eq('forward', f * sp[a], sp[b] * w, 10)


@REG.harness(quick=['currency', 'pair'])
def assign(v, dcf, k):
    """a curve set for a currency is added with its spot; a curve set for
    a pair is taken as it is"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, 2, o)
    new = curve(v, dcf, 9, o)
    s, u = v.real('s', 0.25, 4), v.real('u', 0.25, 4)
    if k == 'currency':
        x = v.choice('points', [(0, 1), (1, 0), (-1, 0), (-1, 0, 2)])
        c = dcf.FxForwardCurve([o + i for i in x],
                               [u if i else s for i in x], origin=o,
                               domestic_curve=cs['EUR'], foreign_curve=new)
        q = v.choice('currency', ['USD', 'CHF'])
        fx[q] = c
        cs[q], sp[q] = new, s
        check(v, fx, cs, sp, o)
    else:
        c = dcf.FxForwardCurve([o], [s], domestic_curve=cs['USD'],
                               foreign_curve=cs['GBP'])
        fx['USD', 'GBP'] = c
        v.holds('as given', fx['USD', 'GBP'] is c)
        v.eq('spot', fx.get_forward_price('USD', 'GBP', o), s)
        v.eq('others', fx['EUR', 'GBP'](o), sp['GBP'])


@REG.harness()
def refused(v, dcf):
    """wrong types are refused and change nothing"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, 2, o)
    new = curve(v, dcf, 9, o)
    s = v.real('s', 0.25, 4)
    c = dcf.FxForwardCurve([o], [s], domestic_curve=cs['USD'],
                           foreign_curve=new)
    k = v.choice('how', ['currency', 'curve', 'spot', 'item', 'domestic',
                         'value'])

    def go():
        if k == 'currency':
            fx.add(1, new, s)
        elif k == 'curve':
            fx.add('CHF', None, s)
        elif k == 'spot':
            fx.add('CHF', new, 'spot')
        elif k == 'item':
            fx[('CHF', 1)] = c
        elif k == 'domestic':
            fx['CHF'] = c
        else:
            fx['CHF', 'USD'] = new
    v.raises('refused', AssertionError, go)
    check(v, fx, cs, sp, o)


@REG.harness()
def calendar(v, dcf):
    """calendar dates"""
    t = v.date(0)
    a = dcf.ZeroRateCurve([t], [v.real('r0', -0.05, 0.2)])
    b = dcf.ZeroRateCurve([t], [v.real('r1', -0.05, 0.2)])
    s, k = v.real('s', 0.25, 4), v.int('k', 0, 3000)
    fx = dcf.FxContainer('EUR', a)
    fx.add('USD', b, s)
    d = v.date(k)
    v.eq('forward', fx.get_forward_price('EUR', 'USD', d),
         s * v.exp((b(t) - a(t)) * (k / v.const(365.25))), 10)
    v.eq('inverse', fx['USD', 'EUR'](d) * fx['EUR', 'USD'](d), 1)


@REG.harness(quick=[1, 2])
def used(v, dcf, n):
    """forwards asked for before do not matter: rates and spots are those of
    the moment, and those of another container its own"""
    o = v.const(0.5)
    fx, cs, sp = container(v, dcf, n, o)
    other = dcf.FxContainer('EUR', dcf.ZeroRateCurve([o], [v.const(0.25)]))
    other.add('USD', dcf.ZeroRateCurve([o], [v.const(0.5)]), 3.0)
    x, y = v.real('x', 0.5, 8), v.real('y', 0.5, 8)

    def check(label, x):
        for a, b in pairs(cs):
            want = sp[b] / sp[a]
            if x > o:
                want = want * (cs[a].get_discount_factor(o, x) /
                               cs[b].get_discount_factor(o, x))
            v.eq(label, fx.get_forward_price(a, b, x), want)
    fx.get_forward_price('EUR', 'USD', y), fx['USD', 'EUR'](x)
    other.get_forward_price('EUR', 'USD', x)
    check('forward', x)
    for d in cs['USD'].domain:
        cs['USD'][d] = v.real('nr%g' % float(d), -0.05, 0.2)
    check('after an update', x)
    sp['USD'] = v.real('ns', 0.25, 4)
    cs['USD'] = dcf.ZeroRateCurve([o], [v.real('nc', -0.05, 0.2)])
    fx.add('USD', cs['USD'], sp['USD'])
    check('added again', x)
    v.eq('other container', other['EUR', 'USD'](o), 3)
    v.eq('inverse', other['USD', 'EUR'](o) * 3, 1)
