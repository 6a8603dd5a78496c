"""The interface harnesses are written against, in two implementations:
SymV (symbolic inputs, claims decided by the solver) and ConcV (the inputs of
one solver model, run on the unmodified package)."""
import math
import os
from fractions import Fraction

TAU = 2e-6


class Harness:
    def __init__(self, fn, name, params, tier, note):
        self.fn, self.name, self.params = fn, name, params
        self.tier, self.note = tier, note


class Registry:
    def __init__(self, prop, **meta):
        self.prop = prop
        self.meta = meta
        self.harnesses = []

    def harness(self, quick=(None,), thorough=(), note=''):
        """params: one task per value; thorough adds further values"""
        def deco(fn):
            params = [(p, 'quick') for p in quick] + \
                [(p, 'thorough') for p in thorough]
            self.harnesses.append(Harness(fn, fn.__name__, params, None,
                                          note or (fn.__doc__ or '').strip()))
            return fn
        return deco

    def get(self, name):
        for h in self.harnesses:
            if h.name == name:
                return h
        raise KeyError(name)


class Skip(Exception):
    """assumption not met by concrete inputs"""


class Beyond(Exception):
    """the concrete run goes on beyond the symbolic path"""


class ConcV:
    symbolic = False

    def __init__(self, inputs, choices):
        self.inputs, self.choices = inputs, choices
        self.claims = []
        self.observed = []
        self.chosen = set()

    def _input(self, name):
        if name not in self.inputs:
            raise Beyond()
        return float(self.inputs[name])

    def real(self, name, lo, hi):
        return self._input(name)

    def pos(self, name, lo, hi):
        return math.exp(self._input(name))

    def int(self, name, lo, hi):
        return int(self._input(name))

    def choice(self, name, options):
        while name in self.chosen:
            name += "'"
        self.chosen.add(name)
        if name not in self.choices:
            raise Beyond()
        return options[self.choices[name]]

    def const(self, x):
        return float(x)

    def date(self, off):
        from businessdate import BusinessDate, BusinessPeriod
        return BusinessDate(20210104) + BusinessPeriod(days=int(off))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def phi(self, x):
        return 0.5 * math.erfc(-x / math.sqrt(2))

    def pdf(self, x):
        return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)

    def _num(self, x):
        try:
            return float(x)
        except (TypeError, ValueError):
            return None

    def eq(self, label, a, b, scale=1.0):
        x, y = self._num(a), self._num(b)
        if x is None or y is None or isinstance(a, str) or \
                isinstance(b, str):
            self.claims.append((label, False, repr(a), repr(b)))
            return
        tol = TAU * scale + 1e-9 * max(abs(x), abs(y))
        self.claims.append((label, abs(x - y) <= tol, x, y))

    def le(self, label, a, b, scale=1.0):
        x, y = self._num(a), self._num(b)
        if x is None or y is None:
            self.claims.append((label, False, repr(a), repr(b)))
            return
        tol = TAU * scale + 1e-9 * max(abs(x), abs(y))
        self.claims.append((label, x <= y + tol, x, y))

    def holds(self, label, cond):
        self.claims.append((label, bool(cond), bool(cond), True))

    def eqs(self, label, a, b, scale=1.0):
        a, b = list(a), list(b)
        self.holds(label + ' (length)', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq('%s [%d]' % (label, i), x, y, scale)

    def obs(self, label, x):
        self.observed.append((label, self._num(x)))

    def raises(self, label, types, fn):
        try:
            fn()
        except types:
            self.claims.append((label, True, True, True))
            return
        except Exception as e:
            self.claims.append((label, False, repr(e), str(types)))
            return
        self.claims.append((label, False, 'no exception', str(types)))

    def deriv(self, label, f, x):
        """numerical derivative (Richardson) for the concrete replay"""
        h = 1e-4 * max(1.0, abs(x))

        def cd(h):
            return (f(x + h) - f(x - h)) / (2 * h)
        return (4 * cd(h / 2) - cd(h)) / 3


def run_concrete(registry, req, dcf):
    h = registry.get(req['harness'])
    param = h.params[req['param']][0]
    v = ConcV(req['inputs'], req['choices'])
    out = {'status': 'ok', 'exc': None}
    try:
        h.fn(v, dcf, param) if h.fn.__code__.co_argcount > 2 else h.fn(v, dcf)
    except Skip:
        out['status'] = 'skip'
    except Beyond:
        pass
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        fr = [t for t in tb if '/dcf/' in t.filename]
        out['status'] = 'exception'
        where = fr[-1] if fr else tb[-1]
        out['exc'] = [type(e).__name__, str(e)[:300],
                      os.path.basename(where.filename), where.name,
                      bool(fr)]
    out['claims'] = [[a, bool(b), _js(c), _js(d)] for a, b, c, d in v.claims]
    out['obs'] = v.observed
    return out


def _js(x):
    return x if isinstance(x, (int, float, str, bool)) or x is None \
        else repr(x)
