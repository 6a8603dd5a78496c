"""C26 rating classes are weighted combinations of their master scale"""
from engine.api import Registry
from checks.common import some_orders

REG = Registry('C26', bounds='scales of 2..6 classes with '
               'symbolic values at least 1/1000 apart in several orders, the '
               'master scales of the package; values at least 1/100000 from '
               'the next class, or equal to it; tolerance 2e-6')
KEYS = ('A', 'B', 'C', 'D', 'E', 'F')


def scale(v, n):
    """ascending values and the dict in some order"""
    xs = [v.real('x0', 0.001, 0.25)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('g%d' % i, 0.001, 0.25))
    idx = some_orders(v, n)
    # names in no order of value
    ks = KEYS[:n][::-1] if v.choice('names', [0, 1]) else KEYS[:n]
    return xs, ks, {ks[i]: xs[i] for i in idx}


def apart(v, x, xs):
    for a in xs:
        v.assume((x - a > 1e-5) | (x - a < -1e-5))


def sloppy(dcf):
    class Sloppy(dcf.ratingclass.RatingClass):
        SLOPPY = True
    return Sloppy


@REG.harness(quick=[2, 3, 4, 6])
def between(v, dcf, n):
    """weights of the two classes around the value: in [0,1], sum up to one,
    and the classes weighted by them give the value"""
    xs, ks, ms = scale(v, n)
    x = v.real('x', 0.001, 2)
    v.assume((xs[0] <= x) & (x <= xs[-1]))
    apart(v, x, xs)
    r = dcf.ratingclass.RatingClass(x, ms)
    w = list(r)
    v.holds('length', len(w) == n)
    t, s = 0, 0
    for a, b in zip(w, xs):
        t, s = t + a, s + a * b
        v.le('not negative', 0, a)
        v.le('at most one', a, 1)
    v.eq('sum', t, 1)
    v.eq('value', s, x)
    for i in range(n):
        lo = xs[i - 1] if i else xs[0]
        hi = xs[i + 1] if i + 1 < n else xs[-1]
        if x < lo or x > hi:
            v.eq('not used', w[i], 0)
    v.eqs('vector', r.vector, w)
    v.eq('as number', r.value, x)


@REG.harness(quick=[2, 3, 4, 6])
def classes(v, dcf, n):
    """a class of the scale, by name or value, is itself"""
    xs, ks, ms = scale(v, n)
    i = v.choice('class', list(range(n)))
    if v.choice('by', ['name', 'value']) == 'name':
        r = dcf.ratingclass.RatingClass(ks[i], ms)
    else:
        r = dcf.ratingclass.RatingClass(xs[i], ms)
    v.eq('value', r.value, xs[i])
    v.eqs('weights', list(r), [int(j == i) for j in range(n)])
    v.holds('name', str(r) == ks[i] and r.name == ks[i])
    m = r.masterscale
    v.holds('keys', m.keys() == list(ks))
    v.eqs('values', m.values(), xs)
    v.holds('items', [k for k, _ in m.items()] == list(ks))
    v.eqs('rating classes', [c.value for c in m.rating_classes()], xs)
    v.eq('get', m.get(ks[i]).value, xs[i])
    v.holds('get unknown', m.get('X') is None)


@REG.harness(quick=[2, 3], thorough=[5])
def outside(v, dcf, n):
    """values beyond the scale are refused, or (sloppy) multiples of the
    first or last class"""
    xs, ks, ms = scale(v, n)
    x = v.choice('side', ['below', 'above'])
    below = x == 'below'
    d = v.real('d', 0.0001, 1)
    x = xs[0] - d if below else xs[-1] + d
    r = dcf.ratingclass.RatingClass(x, ms)
    v.raises('refused', ValueError, lambda: list(r))
    v.eq('as number', r.value, x)
    i = 0 if below else n - 1
    w = list(sloppy(dcf)(x, ms))
    v.eqs('sloppy', [a * xs[i] for a in w],
          [x if j == i else 0 for j in range(n)])


@REG.harness()
def no_scale(v, dcf):
    x = v.real('x', -1, 2)
    r = dcf.ratingclass.RatingClass(x)
    v.eq('value', r.value, x)
    v.holds('no weights', list(r) == [])
    v.holds('no scale', r.masterscale is None)
    v.eq('default', dcf.ratingclass.RatingClass().value, 0)
    v.raises('text', TypeError, lambda: dcf.ratingclass.RatingClass('A'))
    v.raises('unknown class', TypeError,
             lambda: dcf.ratingclass.RatingClass('X', ('A', 'B')))


@REG.harness(quick=['default', 2, 3, 4], thorough=[6])
def from_names(v, dcf, n):
    """a scale given by names: the last is one, each of the others a tenth
    (or the first has the given value, in equal ratios)"""
    R = dcf.ratingclass.RatingClass
    if n == 'default':
        n = v.choice('n', [2, 3, 5])
        ks = v.choice('type', [list, tuple])(KEYS[:n])
        ms = R('A', ks).masterscale
        q = v.const(0.1)
    else:
        q = v.pos('q', 0.02, 0.75)
        ms = R.master_scale.fromkeys(KEYS[:n], q ** (n - 1))
    for i, k in enumerate(KEYS[:n]):
        v.eq('value of class', ms[k], q ** (n - 1 - i))
        v.eq('value by name', R(k, ms).value, ms[k])
        if ms is not None and n < 4:
            v.holds('name', str(R(k, ms)) == k)
    v.holds('order', ms.keys() == list(KEYS[:n]))


@REG.harness(quick=[2, 3], thorough=[4])
def same_names(v, dcf, n):
    """scales of the same names are different scales"""
    R = dcf.ratingclass.RatingClass
    ks = KEYS[:n]
    q, p = v.pos('q', 0.02, 0.75), v.pos('p', 0.02, 0.75)
    a = R.master_scale.fromkeys(ks, q ** (n - 1))
    b = R.master_scale.fromkeys(ks, p ** (n - 1))
    d = R.master_scale.fromkeys(ks)
    xs = [(i + 1) * v.const(0.125) for i in range(n)]
    c = R.master_scale(zip(ks, xs))
    e = R(ks[0], dict(zip(ks, xs))).masterscale
    for w in (0, 1):
        for i, k in enumerate(ks):
            j = n - 1 - i
            v.eq('value of class', a[k], q ** j)
            v.eq('other first value', b[k], p ** j)
            v.eq('default', d[k], v.const(0.1) ** j)
            v.eq('given values', c[k], xs[i])
            if w == 0 or i:
                v.eq('from mapping', e[k], xs[i])
        if w == 0:
            e[ks[0]] = v.const(0.0625)
            v.eq('set', R(ks[0], e).value, 0.0625)


@REG.harness(quick=['SHORT_MASTER_SCALE', 'MASTER_SCALE',
                    'LONG_MASTER_SCALE'])
def package_scales(v, dcf, name):
    """each class of the given scales is itself, and values between"""
    ks = getattr(dcf.ratingclass, name)
    R = dcf.ratingclass.RatingClass
    ms = R(ks[0], ks).masterscale
    i = v.choice('class', list(range(len(ks))))
    r = R(ks[i], ms)
    v.holds('name', str(r) == ks[i])
    v.eqs('weights', list(r), [int(j == i) for j in range(len(ks))])
    v.eq('value', r.value * 10.0 ** (len(ks) - 1 - i), 1)
    if i + 1 < len(ks) and len(ks) - i < 4:
        x = v.real('x', 0.001, 1)
        lo, hi = R(ks[i], ms).value, R(ks[i + 1], ms).value
        v.assume((lo < x) & (x < hi))
        apart(v, x, [lo, hi])
        w = list(R(x, ms))
        v.eq('lower weight', w[i] * (hi - lo), hi - x)
        v.eq('upper weight', w[i + 1] * (hi - lo), x - lo)
        v.eq('sum', sum(w[1:], w[0]), 1)


@REG.harness(quick=[2, 3])
def again(v, dcf, n):
    """classes and scales used before do not matter"""
    xs = [v.real('x0', 0.001, 0.25)]
    ys = [v.real('y0', 0.001, 0.25)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('g%d' % i, 0.001, 0.25))
        ys.append(ys[-1] + v.real('h%d' % i, 0.001, 0.25))
    ks = KEYS[:n]
    a, b = dict(zip(ks, xs)), dict(zip(ks, ys))
    x = v.real('x', 0.001, 2)
    v.assume((xs[0] <= x) & (x <= xs[-1]))
    apart(v, x, xs)
    C = dcf.ratingclass.RatingClass
    list(C(ys[0], b)), list(C(ys[-1], b)), list(C(xs[0], a))
    r = C(x, a)
    w = list(r)
    list(C((xs[0] + xs[1]) / 2, a)), list(C(ks[1], b))
    s = 0
    for p, q in zip(w, xs):
        s = s + p * q
    v.eq('value', s, x)
    v.eqs('asked again', list(r), w)
    v.eqs('vector', r.vector, w)
    v.eqs('another one', list(C(x, a)), w)
    for i, k in enumerate(ks):
        v.eq('class of the other scale', C(k, b).value, ys[i])
        v.eq('class of the scale', C(k, a).value, xs[i])
    v.eqs('scale unchanged', [a[k] for k in ks], xs)
    v.holds('names unchanged', tuple(a) == ks)


@REG.harness(quick=[2, 3], thorough=[5])
def extended(v, dcf, n):
    """a scale with one class more, less or changed is that scale"""
    xs = [v.real('x0', 0.001, 0.25)]
    for i in range(1, n + 1):
        xs.append(xs[-1] + v.real('g%d' % i, 0.001, 0.25))
    C = dcf.ratingclass.RatingClass
    m = C.master_scale(zip(KEYS[:n], xs))
    r = C(xs[0], m)
    list(r), str(r), m.values(), m.keys(), m.rating_classes()
    z = xs[n]
    m[KEYS[n]] = z
    x = v.real('x', 0.001, 2)
    v.assume((xs[n - 1] <= x) & (x <= z))
    apart(v, x, xs)

    def check(label, w, vals, x):
        v.holds(label + ' length', len(w) == len(vals))
        s, t = 0, 0
        for a, b in zip(w, vals):
            s, t = s + a * b, t + a
        v.eq(label + ' value', s, x)
        v.eq(label + ' sum', t, 1)
    check('more', list(C(x, m)), xs, x)
    check('more, class before', list(r), xs, xs[0])
    v.eqs('values', m.values(), xs)
    v.eq('by name', C(KEYS[n], m).value, z)
    del m[KEYS[0]]
    check('less', list(C(x, m)), xs[1:], x)
    v.holds('keys', m.keys() == list(KEYS[1:n + 1]))
    m[KEYS[n]] = z + 1
    check('changed', list(C(x, m)), xs[1:n] + [z + 1], x)
    v.eqs('changed values', m.values(), xs[1:n] + [z + 1])
