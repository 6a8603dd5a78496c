"""C23 the normal distribution functions of the option models"""
import importlib
from engine.api import Registry

REG = Registry('C23', bounds='arguments from -8 to 8 (tails to 30)',
               opts=dict(phi_stub=False))


def functions(dcf):
    m = importlib.import_module(dcf.__name__ + '.models.distibutions')
    return m.normal_cdf, m.normal_pdf


@REG.harness()
def values(v, dcf):
    """known values"""
    cdf, pdf = functions(dcf)
    for x in (-6, -3, -2, -1, -0.5, 0, 0.25, 0.5, 1, 2, 3, 4, 6):
        v.eq('cdf', cdf(v.const(x)), v.phi(v.const(x)), 0.1)
        v.eq('pdf', pdf(v.const(x)), v.pdf(v.const(x)), 0.1)


@REG.harness(quick=['inner', 'tail'])
def symmetry(v, dcf, w):
    cdf, pdf = functions(dcf)
    x = v.real('x', -8, 8) if w == 'inner' else v.real('x', 8, 30)
    v.eq('cdf', cdf(x) + cdf(-x), 1, 0.1)
    v.eq('pdf', pdf(x), pdf(-x), 0.1)


@REG.harness(quick=['inner', 'tail'])
def range(v, dcf, w):
    cdf, pdf = functions(dcf)
    x = v.real('x', -8, 8) if w == 'inner' else v.real('x', 8, 30)
    for s in (x, -x):
        v.le('at least 0', 0, cdf(s), 0.01)
        v.le('at most 1', cdf(s), 1, 0.01)
        v.le('density at least 0', 0, pdf(s), 0.01)
        v.le('density at most 0.4', pdf(s), 0.4, 0.01)


@REG.harness(quick=[(-8, -4), (-4, -2), (-2, -1), (-1, 0), (0, 1), (1, 2),
                    (2, 4), (4, 8)])
def derivative(v, dcf, p):
    """the density is the derivative of the distribution function: it grows,
    and with its values at zero and far out is the normal distribution"""
    cdf, pdf = functions(dcf)
    lo, hi = p
    x = v.real('x', lo, hi)
    if x == 0:
        return
    d = v.deriv('cdf', cdf, x)
    v.eq('density', d, v.pdf(x), 2)
    v.le('grows', 0, d, 0.01)


@REG.harness()
def models(v, dcf):
    """delta of the normal model is the distribution function"""
    cdf, pdf = functions(dcf)
    f = v.real('f', -4, 4)
    m = dcf.models.NormalOptionPayOffModel(
        valuation_date=v.const(0), forward_curve=lambda x: f,
        volatility_curve=lambda x: v.const(1))
    v.eq('delta', m.get_call_delta(v.const(1), v.const(0)) * 10000, cdf(f),
         0.1)
