"""C02 documented values between and outside the nodes"""
from engine.api import Registry
from checks.common import long_grid, off_nodes, reals, some_orders

REG = Registry('C02', bounds='1..4 nodes (thorough 5), 6..33 (thorough up to 70) '
               'nodes at fixed distances, node gaps in '
               '[1/2, 5], query point anywhere from 8 left of the first to 8 '
               'right of the last node (log rate kinds: 3), discontinuous '
               'kinds not within 1/1000 of a jump')


def setup(v, kind, n):
    log = 'log' in kind
    rate = 'rate' in kind
    xs = [v.real('x0', 0.5, 5) if rate else v.real('x0', -5, 5)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('g%d' % i, 0.5, 5))
    ys = [v.real('y%d' % i, 0.5, 2) if log else v.real('y%d' % i, -10, 10)
          for i in range(n)]
    w = 3 if rate else 8
    x = v.real('x', -5 - w, 5 + 5 * (n - 1) + w)
    v.assume(xs[0] - x <= w)
    v.assume(x - xs[-1] <= w)
    return xs, ys, x


def seg(xs, x):
    """index of the segment used at x (outer segments extrapolate)"""
    i = 1
    while i < len(xs) - 1 and xs[i] < x:
        i += 1
    return i


def lin(xs, ys, x):
    if len(xs) == 1:
        return ys[0]
    i = seg(xs, x)
    w = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[i - 1] * (1 - w) + ys[i] * w


def last_left(xs, ys, x):
    r = ys[0]
    for a, b in zip(xs, ys):
        if a <= x:
            r = b
    return r


def first_right(xs, ys, x):
    for a, b in zip(xs, ys):
        if x <= a:
            return b
    return ys[-1]


def expected(v, kind, xs, ys, x):
    if kind == 'flat':
        return ys[0]
    if kind in ('left', 'constant'):
        return last_left(xs, ys, x)
    if kind == 'right':
        return first_right(xs, ys, x)
    if kind == 'zero':
        return 0.0
    if kind == 'nearest':
        best = 0
        for i in range(1, len(xs)):
            if abs(xs[i] - x) < abs(xs[best] - x):
                best = i
        return ys[best]
    if kind == 'linear':
        return lin(xs, ys, x)
    if kind == 'loglinear':
        return v.exp(lin(xs, [v.log(y) for y in ys], x))
    if kind == 'loglinearrate':
        return v.exp(x * lin(xs, [v.log(y) / a for a, y in zip(xs, ys)], x))
    if kind == 'logconstantrate':
        return v.exp(x * last_left(xs, [v.log(y) / a
                                        for a, y in zip(xs, ys)], x))
    raise KeyError(kind)


KINDS = ('left', 'constant', 'right', 'nearest', 'linear', 'loglinear',
         'loglinearrate', 'logconstantrate', 'zero')
JUMPS = 'left', 'constant', 'right', 'nearest', 'zero', 'logconstantrate'


def no_ties(v, kind, xs, x):
    if kind in JUMPS:
        off_nodes(v, x, xs)
    if kind == 'nearest':
        off_nodes(v, x, [(a + b) / 2 for a, b in zip(xs, xs[1:])])


@REG.harness(quick=[(k, n) for k in KINDS for n in (1, 2, 3, 4)],
             thorough=[(k, 5) for k in KINDS])
def documented_value(v, dcf, p):
    kind, n = p
    xs, ys, x = setup(v, kind, n)
    no_ties(v, kind, xs, x)
    f = getattr(dcf.interpolation, kind)(xs, ys)
    v.eq('value', f(x), expected(v, kind, xs, ys, x))


@REG.harness(quick=[('linear', 4), ('left', 4), ('right', 4), ('nearest', 3),
                    ('loglinear', 4), ('loglinearrate', 3),
                    ('logconstantrate', 3), ('linear_scheme', 3),
                    ('log_linear_scheme', 3), ('log_linear_rate_scheme', 2),
                    ('curve', 4)])
def asked_again(v, dcf, p):
    """points asked for before do not matter"""
    kind, n = p
    key = TRIPLES.get(kind, (kind,))[len(TRIPLES.get(kind, (1,))) // 2]
    key = 'linear' if kind == 'curve' else key
    xs, ys, x = setup(v, key, n)
    z = v.real('z', -10, 30)
    v.assume((z > xs[0] - 3) & (z < xs[-1] + 3))
    off_nodes(v, z, xs)
    no_ties(v, key, xs, x)
    off_nodes(v, x, xs)
    f = dcf.Curve(xs, ys) if kind == 'curve' else \
        getattr(dcf.interpolation, kind)(xs, ys)
    k = TRIPLES['linear_scheme'] if kind == 'curve' else TRIPLES.get(
        kind, (kind, kind, kind))
    k = k[0] if x < xs[0] else k[2] if xs[-1] < x else k[1]
    want = expected(v, k, xs, ys, x)
    f(z)
    v.eq('after another point', f(x), want)
    f(x)
    v.eq('asked again', f(x), want)
    f(xs[0]), f(xs[-1]), f(z)
    v.eq('after other points', f(x), want)


@REG.harness()
def flat_and_no(v, dcf):
    xs, ys, x = setup(v, 'flat', 2)
    off_nodes(v, x, xs)
    v.eq('flat', dcf.interpolation.flat(ys[0])(x), ys[0])
    v.holds('no interpolation', dcf.interpolation.no(xs, ys)(x) is None)
    f = dcf.interpolation.default_value_interpolation(xs, ys, 42)
    v.eq('default value', f(x), 42)


TRIPLES = {'linear_scheme': ('constant', 'linear', 'constant'),
           'log_linear_scheme': ('constant', 'loglinear', 'constant'),
           'log_linear_rate_scheme': ('logconstantrate', 'loglinearrate',
                                      'logconstantrate'),
           'zero_linear_scheme': ('zero', 'linear', 'constant')}


@REG.harness(quick=[(k, n) for k in TRIPLES for n in (1, 2, 3)],
             thorough=[(k, n) for k in TRIPLES for n in (4, 5)])
def scheme_value(v, dcf, p):
    """left rule before the first, right rule after the last node"""
    kind, n = p
    xs, ys, x = setup(v, kind, n)
    off_nodes(v, x, xs)
    f = getattr(dcf.interpolation, kind)(xs, ys)
    l, m, r = TRIPLES[kind]
    k = l if x < xs[0] else r if xs[-1] < x else m
    v.eq('value', f(x), expected(v, k, xs, ys, x))


@REG.harness(quick=[(a, b) for a in ('linear', 'left', 'loglinear')
                    for b in ('tuple1', 'tuple2', 'tuple3', 'class',
                              'curve')])
def scheme_arguments(v, dcf, p):
    """interpolation given as class, (mid,), (mid, right) or full triple"""
    kind, how = p
    m = dcf.interpolation
    xs, ys, x = setup(v, kind, 3)
    off_nodes(v, x, xs)
    k = getattr(m, kind)
    l = r = 'constant'
    if how == 'tuple1':
        f = m.interpolation_scheme(xs, ys, (k,))
    elif how == 'tuple2':
        f = m.interpolation_scheme(xs, ys, (k, m.right))
        l = r = 'right'
    elif how == 'tuple3':
        f = m.interpolation_scheme(xs, ys, (m.right, k, m.zero))
        l, r = 'right', 'zero'
    elif how == 'class':
        f = m.interpolation_scheme(xs, ys, k)
    else:
        f = dcf.Curve(xs, ys, kind)
        l = r = kind
    q = l if x < xs[0] else r if xs[-1] < x else kind
    v.eq('value', f(x), expected(v, q, xs, ys, x))


@REG.harness(quick=list(TRIPLES))
def scheme_defaults(v, dcf, kind):
    """rules given to one function are not those of the next"""
    m = dcf.interpolation
    xs, ys, x = setup(v, kind, 2)
    off_nodes(v, x, xs)
    k = getattr(m, kind)
    l, c, r = TRIPLES[kind]
    k([1.0, 2.0], [1.0, 3.0], (m.right, m.nearest, m.zero))(1.5)
    k([1.0, 2.0], [1.0, 3.0], (m.left, m.right))(1.5)
    f = k(xs, ys)
    q = l if x < xs[0] else r if xs[-1] < x else c
    v.eq('value', f(x), expected(v, q, xs, ys, x))
    g = k([1.0, 2.0], [1.0, 3.0], (m.zero, m.zero, m.zero))
    v.eq('of the other', g(1.5), 0)
    v.eq('still', f(x), expected(v, q, xs, ys, x))


@REG.harness(quick=[2, 3, 4], thorough=[5])
def nearest_middle(v, dcf, n):
    """the left one of two equally near points"""
    xs = [v.int('a', -8, 8) / 2]
    for i in range(1, n):
        xs.append(xs[-1] + v.int('s%d' % i, 1, 6) / 2)
    ys = reals(v, n, -4, 4)
    f = dcf.interpolation.nearest(xs, ys)
    for a, b, y in zip(xs, xs[1:], ys):
        v.eq('value', f((a + b) / 2), y)


@REG.harness(quick=[(k, n) for k in KINDS for n in (2, 3)],
             thorough=[(k, 4) for k in KINDS])
def order_independent(v, dcf, p):
    """the function does not depend on the order of the given nodes"""
    kind, n = p
    xs, ys, x = setup(v, kind, n)
    no_ties(v, kind, xs, x)
    o = some_orders(v, n)
    k = getattr(dcf.interpolation, kind)
    f = k([xs[i] for i in o], [ys[i] for i in o])
    v.eq('value', f(x), expected(v, kind, xs, ys, x))


@REG.harness(quick=[1, 2, 3], thorough=[4])
def curve_value(v, dcf, n):
    """a curve is linear between and constant outside its points"""
    xs, ys, x = setup(v, 'linear', n)
    o = some_orders(v, n)
    c = dcf.Curve([xs[i] for i in o], [ys[i] for i in o])
    y = ys[0] if x < xs[0] else ys[-1] if xs[-1] < x else lin(xs, ys, x)
    v.eq('value', c(x), y)
    v.eqs('values', c([x, xs[0]]), [y, ys[0]])
    v.le('at least the minimum', min(ys), c(x))
    v.le('at most the maximum', c(x), max(ys))


@REG.harness(quick=[(k, 7) for k in KINDS] + [(k, 6) for k in TRIPLES] +
             [('curve', 7), ('curve', 33), ('linear', 33)],
             thorough=[(k, 17) for k in KINDS + tuple(TRIPLES)] +
             [('curve', 70)])
def many_nodes(v, dcf, p):
    """the same for many nodes at fixed distances"""
    kind, n = p
    xs = long_grid(v, n)
    k3 = TRIPLES['linear_scheme'] if kind == 'curve' else TRIPLES.get(
        kind, (kind, kind, kind))
    log = any('log' in k for k in k3)
    ys = [v.real('y%d' % i, 0.5, 2) if log else v.real('y%d' % i, -10, 10)
          for i in range(n)]
    x = v.real('x', -2, 4 + 1.1 * n)
    v.assume(x < xs[-1] + 3)
    off_nodes(v, x, xs)
    no_ties(v, k3[1], xs, x)
    f = dcf.Curve(xs, ys) if kind == 'curve' else \
        getattr(dcf.interpolation, kind)(xs, ys)
    k = k3[0] if x < xs[0] else k3[2] if xs[-1] < x else k3[1]
    v.eq('value', f(x), expected(v, k, xs, ys, x))
