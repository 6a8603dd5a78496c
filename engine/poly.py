"""Canonical arithmetic for the symbolic executor.

A value is a rational function  num / prod(factor_i ** k_i)  with exact
(Fraction) coefficients.  A numerator term is
    coeff * prod(atom_j ** n_j) * exp(E)
with integer (possibly negative) n_j and E itself such a rational function,
interned in a table; exp(A) * exp(B) is merged to exp(A + B) on every product.
Atoms are input variables and applications of log / sqrt / Phi / other
uninterpreted functions.  Nothing in here is specific to dcf.
"""
from fractions import Fraction
import random

ZERO = Fraction(0)
ONE = Fraction(1)
_P = (1 << 61) - 1
_rng = random.Random(20240229)


class Atom:
    __slots__ = ('id', 'kind', 'name', 'arg', 'lo', 'hi', 'integer', 'res')

    def __init__(self, kind, name, arg=None, lo=None, hi=None, integer=False):
        self.kind, self.name, self.arg = kind, name, arg
        self.lo, self.hi, self.integer = lo, hi, integer
        self.id = None
        self.res = _rng.randrange(1, _P)


class Tables:
    """all interning state of one exploration (reset per path)"""

    def __init__(self):
        self.atoms = []
        self.vars = {}
        self.fn = {}        # (kind, hash) -> [atom]
        self.exps = [None]  # id -> R ; id 0 is exp(0) = 1
        self.exp_hash = {}
        self.exp_sum = {}
        self.exp_res = [1]
        self.factors = []   # id -> poly dict (multi term, normalised)
        self.factor_hash = {}
        self.factor_res = []
        self.exp_norm = {}
        self.sqrt = set()   # ids of square root atoms


T = Tables()


def reset():
    T.__init__()


def new_atom(a):
    a.id = len(T.atoms)
    T.atoms.append(a)
    return a


def get_var(name, lo=None, hi=None, integer=False):
    a = T.vars.get(name)
    if a is None:
        a = new_atom(Atom('var', name, None, lo, hi, integer))
        T.vars[name] = a
    return a


# ---------------------------------------------------------------- polynomials
# poly: dict {(mono, eid): Fraction}; mono: tuple of (atom_id, power)

CONST_KEY = ((), 0)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, n in b:
        m = d.get(k, 0) + n
        if m:
            d[k] = m
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def mono_inv(a):
    return tuple((k, -n) for k, n in a)


def exp_add(e, f):
    if not e:
        return f
    if not f:
        return e
    key = (e, f) if e < f else (f, e)
    r = T.exp_sum.get(key)
    if r is None:
        r = intern_exp(r_add(T.exps[e], T.exps[f]))
        T.exp_sum[key] = r
    return r


def exp_neg(e):
    if not e:
        return 0
    r = T.exp_sum.get((-1, e))
    if r is None:
        r = intern_exp(r_neg(T.exps[e]))
        T.exp_sum[(-1, e)] = r
    return r


def p_add(a, b, s=ONE):
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, ZERO) + s * c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def p_scale(a, c):
    return {k: v * c for k, v in a.items()} if c else {}


def p_mul(a, b):
    if len(a) == 1 and CONST_KEY in a:
        return p_scale(b, a[CONST_KEY])
    if len(b) == 1 and CONST_KEY in b:
        return p_scale(a, b[CONST_KEY])
    r = {}
    for (m1, e1), c1 in a.items():
        for (m2, e2), c2 in b.items():
            k = (mono_mul(m1, m2), exp_add(e1, e2))
            v = r.get(k, ZERO) + c1 * c2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_pow(a, n):
    r = {CONST_KEY: ONE}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_const(a):
    """constant value or None"""
    if not a:
        return ZERO
    if len(a) == 1 and CONST_KEY in a:
        return a[CONST_KEY]
    return None


def p_content(a):
    """(mono, eid) content: a = mono*exp(eid) * rest, rest has no negative
    power and no common monomial; eid is the common exp if all terms share"""
    it = iter(a)
    m0, e0 = next(it)
    low = dict(m0)
    same = True
    for m, e in it:
        if e != e0:
            same = False
        d = dict(m)
        for k in list(low):
            low[k] = min(low[k], d.get(k, 0))
        for k, n in d.items():
            if k not in low:
                low[k] = min(n, 0)
    mono = tuple(sorted((k, n) for k, n in low.items() if n))
    return mono, (e0 if same else 0)


def p_strip(a, mono, eid):
    im, ie = mono_inv(mono), exp_neg(eid)
    if not mono and not eid:
        return a
    return {(mono_mul(m, im), exp_add(e, ie)): c for (m, e), c in a.items()}


def _order_key(key):
    m, e = key
    return (sum(n for _, n in m), m, e)


def p_lead(a):
    return max(a, key=_order_key)


def _divides(m, by):
    d = dict(m)
    for k, n in by:
        if d.get(k, 0) < n:
            return False
    return True


def _lexkey(m, order):
    d = dict(m)
    return tuple(d.get(k, 0) for k in order)


def p_divexact(a, f):
    """a / f if exact else None.  f has no exp part; a is divided per exp"""
    if any(e for _, e in f):
        return None
    fa = set(k for m, _ in f for k, _ in m)
    groups = {}
    for (m, e), c in a.items():
        groups.setdefault(e, {})[m] = c
    order = sorted(fa)
    fm = {m: c for (m, _), c in f.items()}
    lead = max(fm, key=lambda m: (_lexkey(m, order)))
    lc = fm[lead]
    rest = [(m, c) for m, c in fm.items() if m != lead]
    inv = mono_inv(lead)
    out = {}
    for e, g in groups.items():
        # shift negative powers of the factor's atoms away
        low = {}
        for m in g:
            for k, n in m:
                if k in fa and n < low.get(k, 0):
                    low[k] = n
        shift = tuple(sorted((k, -n) for k, n in low.items()))
        ishift = mono_inv(shift)
        work = {mono_mul(m, shift): c for m, c in g.items()}
        steps = 0
        while work:
            steps += 1
            if steps > 4000:
                return None
            m = max(work, key=lambda m: (_lexkey(m, order), m))
            if not _divides(m, lead):
                return None
            c = work.pop(m) / lc
            q = mono_mul(m, inv)
            k = (mono_mul(q, ishift), e)
            v = out.get(k, ZERO) + c
            if v:
                out[k] = v
            else:
                out.pop(k, None)
            for rm, rc in rest:
                kk = mono_mul(q, rm)
                v = work.get(kk, ZERO) - c * rc
                if v:
                    work[kk] = v
                else:
                    work.pop(kk, None)
    return out


def _pmod(a):
    s = 0
    for (m, e), c in a.items():
        t = c.numerator % _P * pow(c.denominator, -1, _P) % _P
        for k, n in m:
            t = t * pow(T.atoms[k].res, n, _P) % _P
        if e:
            t = t * T.exp_res[e] % _P
        s = (s + t) % _P
    return s


# ----------------------------------------------------------- rational numbers
class R:
    """immutable rational function"""
    __slots__ = ('num', 'den', '_mod')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (factor id, power>0) sorted
        self._mod = None

    def mod(self):
        if self._mod is None:
            v = _pmod(self.num)
            for f, n in self.den:
                v = v * pow(T.factor_res[f], -n, _P) % _P
            self._mod = v
        return self._mod

    def const(self):
        if self.den:
            return ZERO if not self.num else None
        return p_const(self.num)


def r_const(c):
    c = Fraction(c)
    return R({CONST_KEY: c} if c else {})


R0 = r_const(0)
R1 = r_const(1)


def r_atom(a):
    return R({(((a.id, 1),), 0): ONE})


def _expand(num, facs):
    for f, n in facs:
        num = p_mul(num, p_pow(T.factors[f], n))
    return num


def _cancel(num, den):
    if not num:
        return num, ()
    out = []
    for f, n in den:
        while n:
            q = p_divexact(num, T.factors[f]) if len(num) > 1 else None
            if q is None:
                break
            num, n = q, n - 1
        if n:
            out.append((f, n))
    return num, tuple(out)


def _unnormalised(eid):
    """R equal to the exponential if a power of a log argument comes out"""
    if eid in T.exp_norm:
        return T.exp_norm[eid]
    E, r = T.exps[eid], None
    if not E.den and any(
            not x and len(m) == 1 and m[0][1] == 1 and
            T.atoms[m[0][0]].kind == 'log' and not 0 <= c < 1 and
            abs(c) < 64
            for (m, x), c in E.num.items()):
        r = r_exp(E)
    T.exp_norm[eid] = r
    return r


def _fix(a):
    """normalise the exponentials of a product or sum"""
    bad = [k for k in a.num if k[1] and _unnormalised(k[1]) is not None]
    if bad:
        num = {k: c for k, c in a.num.items() if k not in bad}
        out = R(num, a.den)
        for m, e in bad:
            t = r_mul(R({(m, 0): a.num[m, e]}, a.den), _unnormalised(e))
            out = r_add(out, t)
        a = out
    if not T.sqrt:
        return a
    bad = [k for k in a.num if any(i in T.sqrt and n != 1 for i, n in k[0])]
    if bad:
        num = {k: c for k, c in a.num.items() if k not in bad}
        out = R(num, a.den)
        for m, e in bad:
            keep = tuple((i, 1 if i in T.sqrt else n) for i, n in m
                         if i not in T.sqrt or n % 2)
            t = R({(keep, e): a.num[m, e]}, a.den)
            for i, n in m:
                if i in T.sqrt and n != 1:
                    t = r_mul(t, r_pow(T.atoms[i].arg, n // 2))
            out = r_add(out, t)
        a = out
    return a


def r_add(a, b, s=ONE):
    if a.den == b.den:
        num = p_add(a.num, b.num, s)
        if a.den:
            num, den = _cancel(num, a.den)
            return R(num, den)
        return R(num, ())
    da, db = dict(a.den), dict(b.den)
    lcm = dict(da)
    for f, n in db.items():
        lcm[f] = max(lcm.get(f, 0), n)
    ca = [(f, n - da.get(f, 0)) for f, n in lcm.items() if n > da.get(f, 0)]
    cb = [(f, n - db.get(f, 0)) for f, n in lcm.items() if n > db.get(f, 0)]
    num = p_add(_expand(a.num, ca), _expand(b.num, cb), s)
    num, den = _cancel(num, tuple(sorted(lcm.items())))
    return _fix(R(num, den)) if len(T.exps) > 1 or T.sqrt else R(num, den)


def r_neg(a):
    return R(p_scale(a.num, -ONE), a.den)


def r_mul(a, b):
    if not a.num or not b.num:
        return R0
    n1, d2 = _cancel(a.num, b.den) if b.den else (a.num, ())
    n2, d1 = _cancel(b.num, a.den) if a.den else (b.num, ())
    num = p_mul(n1, n2)
    if d1 and d2:
        d = dict(d1)
        for f, n in d2:
            d[f] = d.get(f, 0) + n
        den = tuple(sorted(d.items()))
    else:
        den = d1 or d2
    return _fix(R(num, den)) if len(T.exps) > 1 or T.sqrt else R(num, den)


def intern_factor(p):
    """p multi term without content; returns (id, scale): p = scale*factor"""
    lead = p[p_lead(p)]
    q = p_scale(p, 1 / lead)
    h = _pmod(q)
    for i in T.factor_hash.get(h, ()):
        if T.factors[i] == q:
            return i, lead
    T.factors.append(q)
    T.factor_res.append(h or 1)
    i = len(T.factors) - 1
    T.factor_hash.setdefault(h, []).append(i)
    return i, lead


def factorise(p):
    """p (non zero) -> (coeff, mono, eid, {factor: power})"""
    mono, eid = p_content(p)
    rest = p_strip(p, mono, eid)
    facs = {}
    coeff = ONE
    if len(rest) > 1:
        for i in range(len(T.factors)):
            f = T.factors[i]
            if len(f) > len(rest) * 4:
                continue
            while len(rest) > 1:
                q = p_divexact(rest, f)
                if q is None or any(n < 0 for m, _ in q for _, n in m):
                    break
                facs[i] = facs.get(i, 0) + 1
                rest = q
    if len(rest) > 1:
        m2, e2 = p_content(rest)
        if m2 or e2:
            rest = p_strip(rest, m2, e2)
            mono, eid = mono_mul(mono, m2), exp_add(eid, e2)
        i, lead = intern_factor(rest)
        coeff *= lead
        facs[i] = facs.get(i, 0) + 1
    else:
        (m, e), c = next(iter(rest.items()))
        coeff *= c
        mono, eid = mono_mul(mono, m), exp_add(eid, e)
    return coeff, mono, eid, facs


def r_inv(a):
    """1/a, a non zero"""
    coeff, mono, eid, facs = factorise(a.num)
    num = {(mono_inv(mono), exp_neg(eid)): 1 / coeff}
    num = _expand(num, a.den)
    return _fix(R(num, tuple(sorted(facs.items()))))


def r_pow(a, n):
    if n < 0:
        return r_pow(r_inv(a), -n)
    r = R1
    for _ in range(n):
        r = r_mul(r, a)
    return r


def r_iszero(a):
    return not a.num


def r_equal(a, b):
    if a.den == b.den:
        return a.num == b.num
    if a.mod() != b.mod():
        return False
    return not r_add(a, b, -ONE).num


def intern_exp(e):
    if not e.num:
        return 0
    h = e.mod()
    for i in T.exp_hash.get(h, ()):
        if r_equal(T.exps[i], e):
            return i
    T.exps.append(e)
    T.exp_res.append(_rng.randrange(1, _P))
    i = len(T.exps) - 1
    T.exp_hash.setdefault(h, []).append(i)
    return i


def intern_fn(kind, arg, **kw):
    h = (kind, arg.mod())
    for a in T.fn.get(h, ()):
        if r_equal(a.arg, arg):
            return a
    a = new_atom(Atom(kind, kind, arg, **kw))
    if kind == 'sqrt':
        T.sqrt.add(a.id)
    T.fn.setdefault(h, []).append(a)
    return a


def r_exp(e):
    """exp of a rational function; integer multiples of log atoms come out"""
    out = R1
    rest = {}
    if not e.den:
        for (m, x), c in e.num.items():
            if not x and len(m) == 1 and m[0][1] == 1 \
                    and T.atoms[m[0][0]].kind == 'log' \
                    and not 0 <= c < 1 and abs(c) < 64:
                k = c.__floor__()
                out = r_mul(out, r_pow(T.atoms[m[0][0]].arg, k))
                if c != k:
                    rest[(m, x)] = c - k
            else:
                rest[(m, x)] = c
        e = R(rest)
    i = intern_exp(e)
    if i:
        out = r_mul(out, R({((), i): ONE}))
    return out


def r_log(a, positive):
    """log of a (known positive); positive(R)->True if the R is known > 0"""
    coeff, mono, eid, facs = factorise(a.num)
    den = dict(a.den)
    out = T.exps[eid] if eid else R0
    parts = []
    for k, n in mono:
        parts.append((r_atom(T.atoms[k]), n))
    for f, n in facs.items():
        parts.append((R(T.factors[f]), n))
    for f, n in den.items():
        parts.append((R(T.factors[f]), -n))
    c = coeff
    for p, n in parts:
        if n % 2 and not positive(p):
            if positive(r_neg(p)):
                p = r_neg(p)
                c = -c
            else:
                # cannot split: one atom for the remaining quotient
                q = R({((), 0): ONE})
                r = r_mul(a, r_inv(r_exp(T.exps[eid]))) if eid else a
                return r_add(out, r_atom(intern_fn('log', r)))
        elif n % 2 == 0 and not positive(p):
            p = r_neg(p) if positive(r_neg(p)) else p
            if not positive(p):
                r = r_mul(a, r_inv(r_exp(T.exps[eid]))) if eid else a
                return r_add(out, r_atom(intern_fn('log', r)))
        out = r_add(out, r_mul(r_const(n), r_atom(intern_fn('log', p))))
    if c != 1:
        out = r_add(out, r_atom(intern_fn('log', r_const(c))))
    return out


def r_subst(a, aid, val):
    """replace atom aid by R val everywhere (inside functions too)"""
    def poly(p):
        out = R0
        for (m, e), c in p.items():
            t = r_const(c)
            for k, n in m:
                at = T.atoms[k]
                if k == aid:
                    b = val
                elif at.arg is not None:
                    b = fn_rebuild(at, r_subst(at.arg, aid, val))
                else:
                    b = r_atom(at)
                t = r_mul(t, r_pow(b, n))
            if e:
                t = r_mul(t, r_exp(r_subst(T.exps[e], aid, val)))
            out = r_add(out, t)
        return out
    r = poly(a.num)
    for f, n in a.den:
        d = poly(T.factors[f])
        if not d.num:
            raise ZeroDivisionError('substitution')
        r = r_mul(r, r_pow(d, -n))
    return r


def fn_rebuild(at, arg):
    if r_equal(at.arg, arg):
        return r_atom(at)
    if at.kind == 'log':
        return r_log(arg, lambda r: (r.const() or -1) > 0)
    return r_atom(intern_fn(at.kind, arg))


def atoms_of(a, seen=None):
    seen = set() if seen is None else seen

    def poly(p):
        for (m, e), _ in p.items():
            for k, _ in m:
                if k not in seen:
                    seen.add(k)
                    if T.atoms[k].arg is not None:
                        atoms_of(T.atoms[k].arg, seen)
            if e:
                atoms_of(T.exps[e], seen)
    poly(a.num)
    for f, _ in a.den:
        poly(T.factors[f])
    return seen


def r_diff(a, aid, fn_diff):
    """derivative w.r.t. atom aid; fn_diff(atom)->R derivative of fn in arg"""
    def poly(p):
        out = R0
        for (m, e), c in p.items():
            base = R({(m, e): c})
            for k, n in m:
                at = T.atoms[k]
                if k == aid:
                    d = R1
                elif at.arg is not None:
                    inner = r_diff(at.arg, aid, fn_diff)
                    if not inner.num:
                        continue
                    d = r_mul(fn_diff(at), inner)
                else:
                    continue
                out = r_add(out, r_mul(r_mul(base, R({(((k, -1),), 0):
                                                      Fraction(n)})), d))
            if e:
                d = r_diff(T.exps[e], aid, fn_diff)
                if d.num:
                    out = r_add(out, r_mul(base, d))
        return out
    r = R(poly(a.num).num) if False else poly(a.num)
    out = r
    for f, n in a.den:
        out = r_mul(out, R({CONST_KEY: ONE}, ((f, n),)))
    for f, n in a.den:
        df = poly(T.factors[f])
        if df.num:
            t = r_mul(a, r_mul(r_const(-n), r_mul(
                df, R({CONST_KEY: ONE}, ((f, 1),)))))
            out = r_add(out, t)
    return out


def show(r):
    """readable form, for debugging"""
    def key(k):
        m, e = k
        out = ['%s%s' % (name(T.atoms[a]), '^%d' % n if n != 1 else '')
               for a, n in m]
        if e:
            out.append('exp(%s)' % show(T.exps[e]))
        return '*'.join(out)

    def name(a):
        return a.name if a.arg is None else '%s(%s)' % (a.kind, show(a.arg))

    def poly(p):
        return ' + '.join('%s*%s' % (c, key(k)) if k != CONST_KEY else str(c)
                          for k, c in p.items()) or '0'
    s = poly(r.num)
    if r.den:
        s = '(%s)/' % s + '/'.join('(%s)^%d' % (poly(T.factors[f]), n)
                                   for f, n in r.den)
    return s
