"""C24 payment plans"""
from engine.api import Registry
from checks.common import reals

REG = Registry('C24', bounds='plans of 1..6 payments (thorough up to 60), some up to 24, '
               'any amount (whole numbers too), rates -20%..50%')
NS = [1, 2, 3, 4, 6]
MORE = [8, 12, 24, 60]
KINDS = ('same', 'bullet', 'amortize', 'annuity', 'consumer')


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def rate(v, name='r'):
    return v.choice('sign', [1, -1]) * (
        v.real(name, 0.001, 0.2) if v.choice('usual', [1, 0]) else
        v.real(name, 2.0 ** -20, 0.001))


@REG.harness(quick=NS + [12, 24], thorough=MORE)
def simple(v, dcf, n):
    """as many payments as asked for, of the documented amounts"""
    a = v.real('a', -1000, 1000)
    num = v.choice('num', [n, float(n)])
    v.eqs('same', dcf.plans.same(num, a), [a] * n, 100)
    v.eqs('bullet', dcf.plans.bullet(num, a), [0] * (n - 1) + [a], 100)
    x = dcf.plans.amortize(num, a)
    v.eqs('amortize', [y * n for y in x], [a] * n, 100)
    v.eq('amortize total', total(x), a, 100)


@REG.harness(quick=NS + [12, 24], thorough=MORE)
def consumer(v, dcf, n):
    a, r = v.real('a', -1000, 1000), v.real('r', -0.2, 0.5)
    x = dcf.plans.consumer(n, a, r)
    v.eqs('instalments', [y * n for y in x], [a * (1 + n * r)] * n, 100)
    v.eq('total', total(x), a * (1 + n * r), 100)
    v.eqs('no rate', dcf.plans.consumer(n, a, 0.0),
          dcf.plans.amortize(n, a), 100)


@REG.harness(quick=NS + [8], thorough=[12])
def annuity(v, dcf, n):
    """principal payments sum up to the amount; with the interest on the
    outstanding amount all instalments are the same"""
    a, r = v.real('a', -1000, 1000), rate(v)
    x = dcf.plans.annuity(n, a, r)
    v.holds('length', len(x) == n)
    v.eq('total', total(x), a, 100)
    for i in range(n - 1):
        v.eq('growth', x[i + 1], x[i] * (1 + r), 100)
    out = dcf.plans.outstanding(x, a)
    v.eqs('instalments', [o * r + p for o, p in zip(out, x)],
          [a * r + x[0]] * n, 100)
    v.eq('paid back', out[-1], x[-1], 100)
    v.eqs('no rate', dcf.plans.annuity(n, a, v.choice('zero', [0, 0.0])),
          dcf.plans.amortize(n, a), 100)


@REG.harness(quick=NS + [12, 24], thorough=MORE)
def outstanding(v, dcf, n):
    """the amount left before each payment"""
    xs = reals(v, n, -100, 100)
    a = v.real('a', -1000, 1000)
    s = v.choice('sign', [None, False, True])
    given = list(xs)
    plan = v.choice('type', [list, tuple])(given)
    got = dcf.plans.outstanding(plan, a, **({} if s is None else {'sign': s}))
    want = a
    v.holds('length', len(got) == n)
    for i in range(n):
        v.eq('outstanding', got[i], want, 1000)
        want = want + xs[i] if s else want - xs[i]
    v.eqs('plan unchanged', list(plan), xs, 100)


@REG.harness(quick=[1, 3, 7, 13])
def whole(v, dcf, n):
    """amounts and rates given as whole numbers are numbers"""
    a = v.choice('a', [-100001, -7, 0, 1, 10, 1000, 100000, 10 ** 9])
    s = 10 if abs(a) < 10 ** 6 else 10 ** 4
    v.eqs('same', dcf.plans.same(n, a), [a] * n, s)
    v.eqs('bullet', dcf.plans.bullet(n, a), [0] * (n - 1) + [a], s)
    v.eqs('amortize', [y * n for y in dcf.plans.amortize(n, a)], [a] * n, s)
    r = v.choice('r', [v.const(0.125), 0, 1, 2])
    v.eqs('consumer', [y * n for y in dcf.plans.consumer(n, a, r)],
          [a * (1 + n * r)] * n, s)
    x = dcf.plans.annuity(n, a, r)
    v.eq('total', total(x), a, s)
    for i in range(n - 1):
        v.eq('growth', x[i + 1], x[i] * (1 + r), s)
    want = a
    for o, y in zip(dcf.plans.outstanding([3] * n, a), [3] * n):
        v.eq('outstanding', o, want, s)
        want -= y


@REG.harness(quick=[(k, n) for k in KINDS for n in (1, 3)],
             thorough=[(k, 6) for k in KINDS])
def scale(v, dcf, p):
    """plans scale with the amount, by default one with a rate of 1%"""
    k, n = p
    a = v.real('a', -1000, 1000)
    f = getattr(dcf.plans, k)
    v.eqs('scales', f(n, a), [a * x for x in f(n)], 100)
    v.eqs('keyword', f(num=n, amount=a), f(n, a), 100)
    if k in ('annuity', 'consumer'):
        v.eqs('default rate', f(n, a), f(n, a, 0.01), 100)
        v.eqs('rate keyword', f(n, a, fixed_rate=0.01), f(n, a), 100)
    w = 1 if k != 'consumer' else 1 + n * 0.01
    v.eq('total', total(f(n)), n if k == 'same' else w)


@REG.harness(quick=[(k, n) for k in KINDS + ('outstanding',) for n in (1, 3)])
def again(v, dcf, p):
    """plans made before, and what was done with them, do not matter"""
    k, n = p
    a, b = v.real('a', 1, 1000), v.real('b', -1000, -1)
    r = v.choice('r', [0.01, 0.0, 0.02])
    f = getattr(dcf.plans, k)
    out = v.choice('out', [0, 1])

    def make(a):
        if k == 'outstanding':
            return f([a] * n, 2 * a)
        if k in ('annuity', 'consumer'):
            return f(n, a, r)
        return f(n, a)

    def want(a):
        if k == 'outstanding':
            return [a * (2 - i) for i in range(n)]
        if k == 'same':
            return [a] * n
        if k == 'bullet':
            return [0] * (n - 1) + [a]
        if k == 'amortize' or not r:
            return [a / n] * n
        if k == 'consumer':
            return [a * (1 + n * r) / n] * n
        q = 1 + v.const(r)
        s = total([q ** i for i in range(n)])
        return [a * q ** i / s for i in range(n)]
    x = make(a)
    if isinstance(x, list):
        x[0] = v.const(7)
        if out:
            x.pop()
        else:
            x.append(v.const(8))
    v.eqs('plan', make(a), want(a), 100)
    v.eqs('other amount', make(b), want(b), 100)
    v.eqs('and back', make(a), want(a), 100)
