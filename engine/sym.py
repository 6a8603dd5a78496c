"""Symbolic values, path context and solver interface."""
import builtins
import math
import time
from fractions import Fraction

import z3

from . import poly as P
from .poly import R

bfloat, bint = builtins.float, builtins.int


class Unsupported(Exception):
    """the symbolic executor cannot follow the code here (never a verdict)"""


class PathAbort(BaseException):
    """ends the current path (infeasible assumption, budget)"""


_CF_CACHE = {}


def frac_of(x):
    """simplest rational that rounds to the double x (exact for ints)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bint):
        return Fraction(x)
    r = _CF_CACHE.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non finite constant %r' % x)
    f = Fraction(x)
    if abs(f) < Fraction(1, 10 ** 200) or f.denominator == 1:
        r = f
    else:
        # continued fraction convergents / semiconvergents
        r = None
        for d in (10, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8):
            g = f.limit_denominator(d)
            if bfloat(g) == x:
                r = g
                break
        if r is None:
            g = Fraction(repr(x))
            r = g if bfloat(g) == x else f
    _CF_CACHE[x] = r
    return r


CTX = None  # current path context


# ---------------------------------------------------------------- conditions
class SymBool:
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, other):
        return SymBool('and', self, as_bool(other))

    __rand__ = __and__

    def __or__(self, other):
        return SymBool('or', self, as_bool(other))

    __ror__ = __or__

    def __invert__(self):
        return negate(self)

    def __eq__(self, other):
        return bool(self) == bool(other)

    def __ne__(self, other):
        return bool(self) != bool(other)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return bint(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return bint(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool(%s)' % self.op


TRUE, FALSE = SymBool('const', True), SymBool('const', False)


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    return TRUE if x else FALSE


def negate(c):
    if c.op == 'const':
        return FALSE if c.args[0] else TRUE
    if c.op == '<':
        return cmp_cond('<=', P.r_neg(c.args[0]))
    if c.op == '<=':
        return cmp_cond('<', P.r_neg(c.args[0]))
    if c.op == '==':
        return SymBool('!=', c.args[0])
    if c.op == '!=':
        return SymBool('==', c.args[0])
    if c.op == 'and':
        return SymBool('or', *[negate(a) for a in c.args])
    return SymBool('and', *[negate(a) for a in c.args])


def cmp_cond(op, r):
    """r op 0"""
    c = r.const()
    if c is not None:
        v = c < 0 if op == '<' else c <= 0 if op == '<=' else \
            c == 0 if op == '==' else c != 0
        return TRUE if v else FALSE
    # c1*m*exp(E1) vs c1*m*exp(E2):  compare the exponents
    if len(r.num) == 2:
        (k1, c1), (k2, c2) = r.num.items()
        if c1 == -c2 and k1[0] == k2[0] and k1[1] != k2[1]:
            d = P.r_add(P.T.exps[k1[1]] if k1[1] else P.R0,
                        P.T.exps[k2[1]] if k2[1] else P.R0, -P.ONE)
            d = P.r_mul(d, R({(k1[0], 0): c1}, r.den))
            return cmp_cond(op, d)
        # products of powers of positive inputs: compare the logarithms
        if not r.den and (c1 < 0) != (c2 < 0) and (k1[1] or k2[1]) and all(
                P.T.atoms[a].kind == 'var' and P.T.atoms[a].lo is not None
                and P.T.atoms[a].lo > 0 for k in (k1, k2) for a, n in k[0]):
            if c1 < 0:
                (k1, c1), (k2, c2) = (k2, c2), (k1, c1)

            def lg(k, c):
                m = R({(k[0], 0): c})
                e = P.T.exps[k[1]] if k[1] else P.R0
                return P.r_add(P.r_log(m, lambda x: True), e)
            return cmp_cond(op, P.r_add(lg(k1, c1), lg(k2, -c2), -P.ONE))
    return SymBool(op, r)


# -------------------------------------------------------------------- values
def lift(x):
    """-> R or None"""
    if isinstance(x, SymReal):
        return x.r
    if isinstance(x, SymBool):
        return P.r_const(bint(bool(x)))
    if isinstance(x, (bint, bfloat, Fraction)):
        return P.r_const(frac_of(x))
    return None


def _isinf(x):
    return isinstance(x, bfloat) and (x == math.inf or x == -math.inf)


class SymReal:
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(P.r_add(self.r, o))

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else \
            SymReal(P.r_add(self.r, o, -P.ONE))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else \
            SymReal(P.r_add(o, self.r, -P.ONE))

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(P.r_mul(self.r, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else divide(self.r, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else divide(o, self.r)

    def __neg__(self):
        return SymReal(P.r_neg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None or mod is not None:
            return NotImplemented
        return power(self, SymReal(o))

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(SymReal(o), self)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(o / self)

    def __mod__(self, o):
        return self - o * sym_floor(self / o)

    def __rmod__(self, o):
        return o - self * sym_floor(o / self)

    def __divmod__(self, o):
        q = sym_floor(self / o)
        return q, self - o * q

    # comparison
    def _cmp(self, op, o, swap=False):
        if _isinf(o):
            pos = o > 0
            if op == '==':
                return False
            return (not pos) if swap else pos
        o = lift(o)
        if o is None:
            return NotImplemented
        d = P.r_add(o, self.r, -P.ONE) if swap else \
            P.r_add(self.r, o, -P.ONE)
        return cmp_cond(op, d)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('<', o, True)

    def __ge__(self, o):
        return self._cmp('<=', o, True)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        c = self._cmp('==', o)
        if c is NotImplemented:
            return c
        return negate(c) if isinstance(c, SymBool) else not c

    def __hash__(self):
        # constants and symbols share one bucket; == decides
        return 7

    def __bool__(self):
        return bool(negate(cmp_cond('==', self.r)))

    def __int__(self):
        return sym_trunc(self)

    def __index__(self):
        c = self.r.const()
        if c is not None and c.denominator == 1:
            return bint(c)
        if CTX.is_integer(self.r):
            return CTX.enumerate_int(self.r)
        raise TypeError('not an integer')

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, n=None):
        return sym_round(self, n)

    def __float__(self):
        # only reached from C code that is not shimmed (formatting)
        c = self.r.const()
        if c is not None:
            return bfloat(c)
        return CTX.concretise(self.r)

    def is_integer(self):
        c = self.r.const()
        if c is not None:
            return c.denominator == 1
        raise Unsupported('is_integer')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        c = self.r.const()
        return repr(bfloat(c)) if c is not None else '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        c = self.r.const()
        return format(bfloat(c), spec) if c is not None else '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle')


def mk(x):
    return SymReal(P.r_const(frac_of(x)))


def wrap(r):
    return SymReal(r)


def divide(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError('float division by zero')
        return SymReal(P.r_mul(a, P.r_const(1 / c)))
    if cmp_cond('==', b):
        raise ZeroDivisionError('float division by zero')
    return SymReal(P.r_mul(a, P.r_inv(b)))


def is_sym(x):
    return isinstance(x, SymReal)


def sym_exp(x):
    if isinstance(x, SymReal):
        return SymReal(P.r_exp(x.r))
    x = lift(x)
    if x is None:
        raise TypeError('must be real number')
    return SymReal(P.r_exp(x))


def sym_log(x, base=None):
    r = lift(x)
    if r is None:
        raise TypeError('must be real number')
    if cmp_cond('<=', r):
        raise ValueError('math domain error')
    if r_const_is(r, 1):
        res = mk(0)
    else:
        res = SymReal(P.r_log(r, CTX.positive))
    if base is not None:
        return res / sym_log(base)
    return res


def r_const_is(r, v):
    c = r.const()
    return c is not None and c == v


def sym_sqrt(x):
    r = lift(x)
    if r is None:
        raise TypeError('must be real number')
    if cmp_cond('<', r):
        raise ValueError('math domain error')
    c = r.const()
    if c is not None:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return mk(Fraction(n, d))
    if cmp_cond('==', r):
        return mk(0)
    coeff, mono, eid, facs = P.factorise(r.num)
    n, d = math.isqrt(abs(coeff.numerator)), math.isqrt(coeff.denominator)
    if coeff > 0 and n * n == coeff.numerator and \
            d * d == coeff.denominator and \
            all(k % 2 == 0 for _, k in mono) and \
            all(k % 2 == 0 for k in facs.values()) and \
            all(k % 2 == 0 for _, k in r.den):
        root = R({(tuple((a, k // 2) for a, k in mono), 0): Fraction(n, d)})
        for f, k in facs.items():
            root = P.r_mul(root, P.r_pow(R(P.T.factors[f]), k // 2))
        for f, k in r.den:
            root = P.r_mul(root, R({P.CONST_KEY: P.ONE}, ((f, k // 2),)))
        if eid:
            root = P.r_mul(root, P.r_exp(P.r_mul(P.T.exps[eid],
                                                 P.r_const(Fraction(1, 2)))))
        return abs(SymReal(root))
    return SymReal(P.r_atom(P.intern_fn('sqrt', r)))


def power(a, b):
    cb = b.r.const()
    if cb is not None and cb.denominator == 1 and abs(cb) <= 64:
        if cb >= 0:
            return SymReal(P.r_pow(a.r, bint(cb)))
        return mk(1) / SymReal(P.r_pow(a.r, bint(-cb)))
    ca = a.r.const()
    if ca is not None and ca == 0:
        if b > 0:
            return mk(0)
        if b == 0:
            return mk(1)
        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    if ca is not None and ca == 1:
        return mk(1)
    if cb is not None and cb == Fraction(1, 2):
        return sym_sqrt(a)
    if a > 0:
        return sym_exp(b * sym_log(a))
    if a == 0:
        if b > 0:
            return mk(0)
        if b == 0:
            return mk(1)
        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    raise Unsupported('negative base with a symbolic exponent')


def math_pow(a, b):
    """math.pow: ValueError instead of ZeroDivisionError / complex"""
    a, b = lift(a), lift(b)
    if a is None or b is None:
        raise TypeError('must be real number')
    cb = b.const()
    a, b = SymReal(a), SymReal(b)
    if cb is not None and cb.denominator == 1:
        if cb < 0 and a == 0:
            raise ValueError('math domain error')
        return power(a, b)
    if a < 0:
        raise ValueError('math domain error')
    if a == 0 and b < 0:
        raise ValueError('math domain error')
    return power(a, b)


def sym_floor(x):
    r = lift(x)
    c = r.const()
    if c is not None:
        return mk(math.floor(c))
    if CTX.is_integer(r):
        return SymReal(r)
    return mk(CTX.enumerate_floor(r))


def sym_trunc(x):
    r = lift(x)
    c = r.const()
    if c is not None:
        return bint(c)
    if CTX.is_integer(r):
        return CTX.enumerate_int(r)
    if SymReal(r) >= 0:
        return CTX.enumerate_floor(r)
    return -CTX.enumerate_floor(P.r_neg(r))


def sym_round(x, n=None):
    r = lift(x)
    c = r.const()
    if c is not None:
        return mk(round(c, n)) if n is not None else bint(round(c))
    if n is None:
        return CTX.enumerate_floor(P.r_add(r, P.r_const(Fraction(1, 2))))
    return SymReal(P.r_atom(P.intern_fn('round%d' % n, r)))


def sym_phi(x):
    """standard normal distribution function (uninterpreted, contract only)"""
    r = lift(x)
    if r.const() == 0:
        return mk(Fraction(1, 2))
    lead = r.num[P.p_lead(r.num)]
    if lead < 0:
        return mk(1) - SymReal(P.r_atom(P.intern_fn('phi', P.r_neg(r))))
    return SymReal(P.r_atom(P.intern_fn('phi', r)))


ONE_OVER_SQRT_2PI = frac_of(0.398942280401433)


def sym_pdf(x):
    x = SymReal(lift(x))
    return sym_exp(mk(Fraction(-1, 2)) * x * x) * SymReal(
        P.r_const(ONE_OVER_SQRT_2PI))


def fn_diff(at):
    k = at.kind
    if k == 'log':
        return P.r_inv(at.arg)
    if k == 'sqrt':
        return P.r_mul(P.r_const(Fraction(1, 2)),
                       P.R({(((at.id, -1),), 0): P.ONE}))
    if k == 'phi':
        return sym_pdf(SymReal(at.arg)).r
    raise Unsupported('derivative of ' + k)


# ---------------------------------------------------------- numeric evaluation
class Eval:
    """evaluate at an assignment {var name: Fraction}"""

    def __init__(self, env):
        self.env = env
        self.cache = {}
        self.ecache = {}
        self.exact = True

    def atom(self, k):
        v = self.cache.get(k)
        if v is None:
            a = P.T.atoms[k]
            if a.kind == 'var':
                v = self.env[a.name]
            else:
                x = self.r(a.arg)
                if a.kind == 'log':
                    if x <= 0:
                        raise ArithmeticError('log')
                    v = math.log(x)
                elif a.kind == 'sqrt':
                    if x < 0:
                        raise ArithmeticError('sqrt')
                    v = math.sqrt(x)
                elif a.kind == 'phi':
                    v = 0.5 * math.erfc(-bfloat(x) / math.sqrt(2))
                elif a.kind.startswith('round'):
                    v = round(x, bint(a.kind[5:]))
                else:
                    raise Unsupported(a.kind)
            self.cache[k] = v
        return v

    def exp(self, e):
        v = self.ecache.get(e)
        if v is None:
            x = self.r(P.T.exps[e])
            if x > 700:
                raise ArithmeticError('overflow')
            v = self.ecache[e] = math.exp(x)
        return v

    def poly(self, p):
        s = Fraction(0)
        for (m, e), c in p.items():
            t = c
            for k, n in m:
                a = self.atom(k)
                if n < 0 and a == 0:
                    raise ArithmeticError('zero')
                if isinstance(a, bfloat) and isinstance(t, Fraction):
                    t = bfloat(t)
                elif isinstance(t, bfloat) and isinstance(a, Fraction):
                    a = bfloat(a)
                t = t * a ** n
            if e:
                t = bfloat(t) * self.exp(e)
            if isinstance(t, bfloat) != isinstance(s, bfloat):
                s, t = bfloat(s), bfloat(t)
            s = s + t
        return s

    def r(self, r):
        v = self.poly(r.num)
        for f, n in r.den:
            d = self.poly(P.T.factors[f])
            if d == 0:
                raise ArithmeticError('zero')
            if isinstance(v, bfloat) != isinstance(d, bfloat):
                v, d = bfloat(v), bfloat(d)
            v = v / d ** n
        return v

    def scale(self, p):
        """magnitude of the largest term (for the error margin)"""
        s = 0.0
        for (m, e), c in p.items():
            t = bfloat(c)
            for k, n in m:
                t *= bfloat(self.atom(k)) ** n
            if e:
                t *= self.exp(e)
            s = max(s, abs(t))
        return s

    def sign(self, r):
        """-1/0/1, or None when float noise could decide"""
        v = self.r(r)
        if isinstance(v, bfloat):
            n = self.poly(r.num)
            m = self.scale(r.num)
            if abs(n) <= 1e-11 * m:
                return None
        return (v > 0) - (v < 0)

    def cond(self, c):
        """True/False/None"""
        op = c.op
        if op == 'const':
            return c.args[0]
        if op == 'and':
            vs = [self.cond(a) for a in c.args]
            return False if False in vs else None if None in vs else True
        if op == 'or':
            vs = [self.cond(a) for a in c.args]
            return True if True in vs else None if None in vs else False
        try:
            s = self.sign(c.args[0])
        except (ArithmeticError, OverflowError, ValueError):
            return None
        if s is None:
            return None
        return {'<': s < 0, '<=': s <= 0, '==': s == 0, '!=': s != 0}[op]


# ---------------------------------------------------------------- translation
class Encoder:
    """R -> z3 terms; collects the definitional constraints it needs"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.zatoms = {}
        self.zexps = {}
        self.defs = {}      # ('a', id) or ('e', id) -> list of z3 facts
        self.conds = {}

    def atom(self, k):
        z = self.zatoms.get(k)
        if z is None:
            a = P.T.atoms[k]
            if a.kind == 'var':
                if a.integer:
                    zi = z3.Int(a.name)
                    z = z3.ToReal(zi)
                else:
                    z = z3.Real(a.name)
                facts = []
                if a.lo is not None:
                    facts.append(z >= q(a.lo))
                if a.hi is not None:
                    facts.append(z <= q(a.hi))
            else:
                z = z3.Real('%s!%d' % (a.kind, k))
                facts = []
                self.zatoms[k] = z
                n, d = self.ratio(a.arg)
                if a.kind == 'sqrt':
                    facts = [z >= 0, z * z * d == n]
                elif a.kind == 'phi':
                    pos = self.cond(cmp_cond('<=', P.r_neg(a.arg)))
                    facts = [z > 0, z < 1, pos == (z >= q(Fraction(1, 2)))]
                elif a.kind == 'log':
                    c = a.arg.const()
                    if c is not None:
                        lo = Fraction(math.log(c) - 1e-12)
                        hi = Fraction(math.log(c) + 1e-12)
                        facts = [z >= q(lo), z <= q(hi)]
                    else:
                        one = P.r_add(a.arg, P.R1, -P.ONE)
                        facts = [self.cond(cmp_cond('<=', P.r_add(
                            P.r_atom(a), one, -P.ONE)))]
                        facts.append(self.cond(cmp_cond('<', P.r_neg(one)))
                                     == (z > 0))
                        facts.append(self.cond(cmp_cond('<', one))
                                     == (z < 0))
                elif a.kind.startswith('round'):
                    h = Fraction(1, 2 * 10 ** bint(a.kind[5:]))
                    e = P.r_add(a.arg, P.r_atom(a), -P.ONE)
                    facts = [
                        self.cond(cmp_cond('<=', P.r_add(e, P.r_const(-h)))),
                        self.cond(cmp_cond('<=', P.r_add(
                            P.r_neg(e), P.r_const(-h))))]
            self.zatoms[k] = z
            self.defs[('a', k)] = facts
        return z

    def exp(self, e):
        z = self.zexps.get(e)
        if z is None:
            z = z3.Real('exp!%d' % e)
            self.zexps[e] = z
            E = P.T.exps[e]
            c = E.const()
            if c is not None:
                v = math.exp(c)
                facts = [z >= q(Fraction(v * (1 - 1e-13))),
                         z <= q(Fraction(v * (1 + 1e-13)))]
            else:
                facts = [z > 0,
                         self.cond(cmp_cond('<', P.r_neg(E))) == (z > 1),
                         self.cond(cmp_cond('<', E)) == (z < 1)]
            self.defs[('e', e)] = facts
        return z

    def poly(self, p):
        ts = []
        for (m, e), c in sorted(p.items()):
            fs = []
            for k, n in m:
                fs.extend([self.atom(k)] * n)
            if e:
                fs.append(self.exp(e))
            t = q(c)
            for f in fs:
                t = f if (t is None) else t * f
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else q(0)

    def ratio(self, r):
        """(num, den) z3 terms, no negative powers"""
        if not r.num:
            return q(0), q(1)
        mono, _ = P.p_content(r.num)
        neg = tuple((k, n) for k, n in mono if n < 0)
        num = P.p_strip(r.num, neg, 0)
        d = {P.CONST_KEY: P.ONE}
        for k, n in neg:
            d = P.p_mul(d, {(((k, -n),), 0): P.ONE})
        dz = self.poly(d)
        for f, n in r.den:
            for _ in range(n):
                dz = dz * self.poly(P.T.factors[f])
        return self.poly(num), dz

    def sign_term(self, r):
        """(z3 term with the sign of r, strip-only-zeros kept)"""
        mono, eid = P.p_content(r.num)
        rest = P.p_strip(r.num, mono, eid)
        # split known factors for a smaller polynomial
        t = self.poly(rest)
        for k, n in mono:
            a = P.T.atoms[k]
            if n % 2 and not self.ctx.atom_positive(a):
                t = t * self.atom(k)
            elif n > 0 and n % 2 == 0 and not self.ctx.atom_positive(a):
                t = t * self.atom(k) * self.atom(k)
        for f, n in r.den:
            if n % 2:
                s = self.ctx.factor_sign(f)
                if s > 0:
                    pass
                elif s < 0:
                    t = -t
                else:
                    t = t * self.poly(P.T.factors[f])
        return t

    def cond(self, c):
        op = c.op
        if op == 'const':
            return z3.BoolVal(c.args[0])
        if op == 'and':
            return z3.And([self.cond(a) for a in c.args])
        if op == 'or':
            return z3.Or([self.cond(a) for a in c.args])
        r = c.args[0]
        if op in ('==', '!='):
            mono, eid = P.p_content(r.num)
            rest = P.p_strip(r.num, mono, eid)
            eqs = [self.poly(rest) == 0] if P.p_const(rest) is None else []
            for k, n in mono:
                if n > 0 and not self.ctx.atom_positive(P.T.atoms[k]):
                    eqs.append(self.atom(k) == 0)
            z = z3.Or(eqs) if len(eqs) != 1 else eqs[0]
            return z if op == '==' else z3.Not(z)
        t = self.sign_term(r)
        return t < 0 if op == '<' else t <= 0


def q(x):
    x = Fraction(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


def cond_atoms(c, out=None):
    """ids of variable/function atoms and exps a condition mentions"""
    out = set() if out is None else out
    if c.op in ('and', 'or'):
        for a in c.args:
            cond_atoms(a, out)
    elif c.op != 'const':
        P.atoms_of(c.args[0], out)
    return out


def cond_keys(c):
    s = set()

    def poly(p):
        for (m, e), _ in p.items():
            for k, _ in m:
                if ('a', k) not in s:
                    s.add(('a', k))
                    if P.T.atoms[k].arg is not None:
                        rr(P.T.atoms[k].arg)
            if e and ('e', e) not in s:
                s.add(('e', e))
                rr(P.T.exps[e])

    def rr(r):
        poly(r.num)
        for f, _ in r.den:
            poly(P.T.factors[f])

    def walk(c):
        if c.op in ('and', 'or'):
            for a in c.args:
                walk(a)
        elif c.op != 'const':
            rr(c.args[0])
    walk(c)
    return s


def cond_key(c):
    """canonical key of a condition (up to rational-function equality)"""
    if c.op == 'const':
        return c.args
    if c.op in ('and', 'or'):
        return (c.op,) + tuple(cond_key(a) for a in c.args)
    r = c.args[0]
    # normalise positive scale
    lead = abs(r.num[P.p_lead(r.num)])
    m = r.mod() * pow(lead.numerator, -1, P._P) * lead.denominator % P._P
    if c.op in ('==', '!='):
        m = min(m, (-m) % P._P)
    return (c.op, m)
