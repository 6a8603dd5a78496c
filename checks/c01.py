"""C01 interpolation reproduces its nodes"""
from engine.api import Registry
from checks.common import long_grid, some_orders

REG = Registry('C01', bounds='1..4 nodes (thorough 5), 6..33 (thorough up to 70) at fixed '
               'distances, several orders of the '
               'node list, abscissae in [-20, 40] at least 1/20 apart, '
               'ordinates in [-10, 10] (log kinds: [0.05, 10]), nodes down to '
               'a billionth apart')

LOG = 'loglinear', 'loglinearrate', 'logconstantrate'
PLAIN = 'no', 'zero', 'left', 'constant', 'right', 'nearest', 'linear'
SCHEMES = ('linear_scheme', 'log_linear_scheme', 'log_linear_rate_scheme',
           'zero_linear_scheme')


def nodes(v, n, kind, lo=-20):
    """n ascending abscissae and their values"""
    log = 'log' in kind
    xs = [v.real('x0', 0.05 if 'rate' in kind and n == 1 else lo, lo + 25)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('g%d' % i, 0.05, 10))
    ys = [v.real('y%d' % i, 0.05 if log else -10, 10) for i in range(n)]
    return xs, ys


@REG.harness(quick=[(k, n) for k in PLAIN + LOG for n in (1, 2, 3, 4)],
             thorough=[(k, 5) for k in PLAIN + LOG])
def node_values(v, dcf, p):
    """value at every node is the given value, whatever the list order"""
    kind, n = p
    xs, ys = nodes(v, n, kind)
    o = some_orders(v, n)
    f = getattr(dcf.interpolation, kind)([xs[i] for i in o],
                                         [ys[i] for i in o])
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])
        v.holds('node is contained', xs[i] in f or
                ('rate' in kind and bool(xs[i] == 0)))


@REG.harness(quick=[(k, n) for k in PLAIN + LOG for n in (2, 3)])
def dict_values(v, dcf, p):
    """the same for nodes given as a mapping"""
    kind, n = p
    xs, ys = nodes(v, n, kind)
    o = some_orders(v, n)
    f = getattr(dcf.interpolation, kind).from_dict(
        {xs[i]: ys[i] for i in o})
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])


@REG.harness(quick=[(k, n) for k in SCHEMES for n in (1, 2, 3)],
             thorough=[(k, n) for k in SCHEMES for n in (4, 5)])
def scheme_node_values(v, dcf, p):
    """piecewise schemes reproduce their nodes"""
    kind, n = p
    xs, ys = nodes(v, n, kind)
    o = some_orders(v, n)
    f = getattr(dcf.interpolation, kind)([xs[i] for i in o],
                                         [ys[i] for i in o])
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])


TRIPLES = [('constant', 'linear', 'constant'), ('left', 'nearest', 'right'),
           ('zero', 'loglinear', 'constant'), ('linear', 'left', 'linear'),
           ('loglinear', 'right', 'zero')]


@REG.harness(quick=[(t, n) for t in TRIPLES for n in (2, 3)])
def curve_node_values(v, dcf, p):
    """curves with a piecewise interpolation triple reproduce their points"""
    t, n = p
    m = dcf.interpolation
    xs, ys = nodes(v, n, ''.join(t))
    o = some_orders(v, n)
    trip = tuple(getattr(m, k) for k in t)

    def scheme(x_list, y_list):
        return m.interpolation_scheme(x_list, y_list, trip)
    c = dcf.Curve([xs[i] for i in o], [ys[i] for i in o], scheme)
    for i in range(n):
        v.eq('value at point', c(xs[i]), ys[i])
        v.eq('item at point', c[xs[i]], ys[i])


@REG.harness(quick=[2, 3, 4], thorough=[5])
def duplicates_rejected(v, dcf, n):
    """two equal abscissae are refused by a piecewise scheme"""
    xs, ys = nodes(v, n, 'linear')
    i = v.choice('which', list(range(n)))
    v.raises('duplicate rejected', (AssertionError, ValueError),
             lambda: dcf.Curve(xs + [xs[i]], ys + [1.0]))


@REG.harness(quick=[(k, n) for k in PLAIN + LOG for n in (6, 12)] +
             [(k, n) for k in SCHEMES for n in (6, 33)],
             thorough=[(k, n) for k in PLAIN + LOG + SCHEMES
                       for n in (33, 70)])
def many_nodes(v, dcf, p):
    """the same for many nodes at fixed distances"""
    kind, n = p
    log = 'log' in kind
    xs = long_grid(v, n)
    if kind == 'log_linear_scheme' or not log:
        ys = [v.real('y%d' % i, 0.5 if log else -10, 10) for i in range(n)]
    else:
        ys = [v.real('y%d' % i, 0.5, 2) for i in range(n)]
    o = list(range(n))
    o = v.choice('order', [o, o[::-1], o[n // 2:] + o[:n // 2],
                           o[::2] + o[1::2]])
    f = getattr(dcf.interpolation, kind)([xs[i] for i in o],
                                         [ys[i] for i in o])
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])


@REG.harness(quick=[(k, n) for k in PLAIN + LOG + SCHEMES + ('Curve', )
                    for n in (2, 3)])
def near_nodes(v, dcf, p):
    """the same for nodes as close as a billionth to each other"""
    kind, n = p
    log = 'log' in kind
    xs = [v.real('x0', 0.25, 4)]
    for i in range(1, n):
        xs.append(xs[-1] + v.real('g%d' % i, 2 ** -30, 2 ** -9))
    ys = [v.real('y%d' % i, 0.5 if log else -10, 2 if log else 10)
          for i in range(n)]
    o = some_orders(v, n)
    f = getattr(dcf if kind == 'Curve' else dcf.interpolation, kind)(
        [xs[i] for i in o], [ys[i] for i in o])
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])


@REG.harness(quick=[(k, n) for k in ('linear', 'loglinear', 'zero', 'left')
                    for n in (6, 8)])
def many_equal_nodes(v, dcf, p):
    """the same where neighbours have equal values"""
    kind, n = p
    xs = long_grid(v, n)
    a, b = v.real('a', 0.5, 2), v.real('b', 0.5, 2)
    ys = [a, a, a, b, b, a, a, a][-n:]
    f = getattr(dcf.interpolation, kind)(xs, ys)
    for i in range(n):
        v.eq('value at node', f(xs[i]), ys[i])
