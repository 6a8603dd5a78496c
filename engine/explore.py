"""Path exploration: one harness run per path, decisions by the solver."""
import math
import time
import traceback
import zlib
from fractions import Fraction

import z3

from . import poly as P
from . import sym as S
from .sym import SymBool, SymReal, PathAbort, Unsupported, cmp_cond, negate

TAU = Fraction(2, 10 ** 6)     # tolerance of every equality claim (x scale)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.decisions = 0
        self.paths = 0
        self.aborted = 0
        self.claims = 0
        self.trivial = 0

    def merge(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k, 0) + v)


class Ctx:
    def __init__(self, prefix, witness, stats, opts):
        self.prefix = prefix            # list of decisions
        self.pos = 0
        self.taken = []                 # decisions of this run
        self.alts = []                  # (prefix, witness) to explore
        self.pc = []                    # path condition (SymBool)
        self.pkeys = []
        self.known = {}
        self.witness = dict(witness) if witness else {}
        self.witness_ok = True
        self.stats = stats
        self.opts = opts
        self.enc = S.Encoder(self)
        self.zcache = {}
        self.fsign = {}
        self.fbusy = set()
        self.pos_cache = {}
        self.subst = []
        self.lemmas = {}                # key pair -> z3 facts (with keys)
        self.tainted = False
        self.notes = []
        self.choices = {}
        self.vars = {}

    # ------------------------------------------------------------- variables
    def declare(self, name, lo, hi, integer=False):
        if name in self.vars:
            raise RuntimeError('variable %s declared twice' % name)
        lo, hi = S.frac_of(lo), S.frac_of(hi)
        a = P.get_var(name, lo, hi, integer)
        self.vars[name] = a
        if name not in self.witness:
            h = zlib.crc32(name.encode()) % 997
            if integer:
                n = int(hi - lo)
                self.witness[name] = lo + h % (n + 1)
            else:
                w = lo + (hi - lo) * Fraction(h + 1, 999)
                d = Fraction(1, 1024)
                s = (w / d).__floor__() * d
                self.witness[name] = s if lo <= s <= hi else w
        return a

    def atom_positive(self, a):
        if a.kind == 'var':
            return a.lo is not None and a.lo > 0
        return a.kind == 'phi'

    def factor_sign(self, f):
        s = self.fsign.get(f)
        if s is not None:
            return s
        if f in self.fbusy:
            return 0
        self.fbusy.add(f)
        try:
            r = P.R(P.T.factors[f])
            g = None
            try:
                if self.witness_ok:
                    g = S.Eval(self.witness).sign(r)
            except (ArithmeticError, OverflowError, KeyError):
                pass
            s = 0
            for c in ((g,) if g else (1, -1)):
                rr = r if c > 0 else P.r_neg(r)
                # facts: rr <= 0 infeasible
                if self.solve([cmp_cond('<=', rr)], timeout=1500)[0] \
                        == 'unsat':
                    s = c
                    break
            self.fsign[f] = s
        finally:
            self.fbusy.discard(f)
        return s

    def positive(self, r):
        c = r.const()
        if c is not None:
            return c > 0
        ok = True
        for (m, e), co in r.num.items():
            if co <= 0 or any(n % 2 and not self.atom_positive(P.T.atoms[k])
                              for k, n in m):
                ok = False
                break
        if ok and not r.den:
            return True
        key = S.cond_key(SymBool('<', r))
        if self.pos_cache.get(key):
            return True
        v = self.known.get(S.cond_key(SymBool('<', P.r_neg(r))))
        if v is None:
            v = self.solve([cmp_cond('<=', r)])[0] == 'unsat'
        if v:
            self.pos_cache[key] = True
        return v

    def is_integer(self, r):
        if r.den:
            return False
        for (m, e), c in r.num.items():
            if e or c.denominator != 1:
                return False
            for k, n in m:
                if n < 0 or not P.T.atoms[k].integer:
                    return False
        return True

    # --------------------------------------------------------------- solving
    def zcond(self, c):
        z = self.zcache.get(id(c))
        if z is None:
            z = (self.enc.cond(c), c)
            self.zcache[id(c)] = z
        return z[0]

    def solve(self, extra, timeout=None, full=False):
        """-> (verdict, env or None); extra: conditions added to the path"""
        timeout = timeout or self.opts['branch_timeout']
        extra = [c for c in extra if c.op != 'const' or not c.args[0]]
        if any(c.op == 'const' for c in extra):
            return 'unsat', None
        keys = set()
        for c in extra:
            keys |= S.cond_keys(c)
        sel = [False] * len(self.pc)
        if full:
            sel = [True] * len(self.pc)
            for k in self.pkeys:
                keys |= k
        else:
            again = True
            while again:
                again = False
                for i, k in enumerate(self.pkeys):
                    if not sel[i] and k & keys:
                        sel[i] = True
                        if not k <= keys:
                            keys |= k
                            again = True
        conds = [c for i, c in enumerate(self.pc) if sel[i]] + extra
        try:
            zs = [self.zcond(c) for c in conds]
        except RecursionError:
            return 'unknown', None
        for k in list(keys):
            if k[0] == 'a':
                self.enc.atom(k[1])
            else:
                self.enc.exp(k[1])
        facts = []
        done = set()
        todo = [k for k in keys]
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.add(k)
            facts.extend(self.enc.defs.get(k, ()))
        for pair, zf in self.lemmas.items():
            if pair[0] in done and pair[1] in done:
                facts.extend(zf)
        t0 = time.time()
        verdict, env = 'unknown', None
        trans = [k for k in done if k[0] == 'e' or
                 (k[0] == 'a' and P.T.atoms[k[1]].kind in ('log', 'phi'))]
        ints = any(k[0] == 'a' and P.T.atoms[k[1]].integer for k in done)
        for rnd in range(self.opts['cegar'] if trans else 1):
            verdict, model = self._z3(zs + facts, timeout, ints)
            if verdict != 'sat':
                break
            env = self._env(model, done)
            if not trans:
                break
            new = self._refine(model, env, trans)
            if not new:
                break
            facts.extend(new)
        self.stats.queries += 1
        setattr(self.stats, verdict, getattr(self.stats, verdict) + 1)
        self.stats.time += time.time() - t0
        if verdict == 'sat':
            full_env = dict(self.witness)
            full_env.update(env)
            env = full_env
        return verdict, env

    def _z3(self, fs, timeout, ints):
        if ints:
            tries = [(z3.Solver, timeout)]
        else:
            tries = [(z3.Solver, min(timeout, 400)),
                     (lambda: z3.SolverFor('QF_NRA'), timeout),
                     (z3.Solver, timeout)]
        for mk, t in tries:
            s = mk()
            s.set('timeout', int(t))
            s.add(fs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
        return 'unknown', None

    def _val(self, model, z):
        v = model.eval(z, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        raise Unsupported('model value %s' % v)

    def _env(self, model, keys):
        env = {}
        for k in keys:
            if k[0] == 'a' and P.T.atoms[k[1]].kind == 'var':
                a = P.T.atoms[k[1]]
                env[a.name] = self._val(model, self.enc.atom(k[1]))
        return env

    def _refine(self, model, env, trans):
        """lemmas violated by a model with wrong exp/log/Phi values"""
        base = dict(self.witness)
        base.update(env)
        ev = S.Eval(base)
        out = []
        vals = {}
        enc = self.enc
        for k in trans:
            try:
                if k[0] == 'e':
                    x = float(ev.r(P.T.exps[k[1]]))
                    true = math.exp(min(x, 600))
                    got = float(self._val(model, enc.exp(k[1])))
                    E = P.T.exps[k[1]]
                    vals[k] = (x, got)
                    if E.const() is not None:
                        continue
                    if abs(got - true) > 1e-7 * max(true, got):
                        n, d = enc.ratio(E)
                        pos = self._dpos(E)
                        if not pos:
                            continue
                        out += self._tangent(enc.exp(k[1]), n, d, x, got,
                                             true)
                elif P.T.atoms[k[1]].kind == 'log':
                    at = P.T.atoms[k[1]]
                    if at.arg.const() is not None:
                        continue
                    z = enc.atom(k[1])
                    got = float(self._val(model, z))
                    arg = float(ev.r(at.arg))
                    if arg <= 0:
                        continue
                    vals[k] = (arg, got)
                    if abs(got - math.log(arg)) > 1e-7 * (1 + abs(got)):
                        n, d = enc.ratio(at.arg)
                        if not self._dpos(at.arg):
                            continue
                        for x0 in (got, math.log(arg)):
                            x0 = Fraction(round(x0, 9))
                            t = math.exp(x0)
                            lo = S.q(Fraction(t * (1 - 1e-12)))
                            hi = S.q(Fraction(t * (1 + 1e-12)))
                            out.append(n >= lo * d * (1 + z - S.q(x0)))
                            out.append(z3.Implies(
                                z < S.q(x0 + 1),
                                n * (1 - (z - S.q(x0))) <= hi * d))
                else:
                    at = P.T.atoms[k[1]]
                    z = enc.atom(k[1])
                    got = float(self._val(model, z))
                    x = float(ev.r(at.arg))
                    true = 0.5 * math.erfc(-x / math.sqrt(2))
                    vals[k] = (x, got)
                    if abs(got - true) > 1e-7:
                        x0 = Fraction(round(x, 6))
                        t = 0.5 * math.erfc(-float(x0) / math.sqrt(2))
                        d = P.r_add(at.arg, P.r_const(-x0))
                        out.append(z3.Implies(
                            enc.cond(cmp_cond('<=', d)),
                            z <= S.q(Fraction(t + 1e-12))))
                        out.append(z3.Implies(
                            enc.cond(cmp_cond('<=', P.r_neg(d))),
                            z >= S.q(Fraction(t - 1e-12))))
            except (ArithmeticError, OverflowError, ValueError):
                continue
        ks = sorted(vals)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if (a[0] == 'e') != (b[0] == 'e') or (a, b) in self.lemmas:
                    continue
                (xa, ga), (xb, gb) = vals[a], vals[b]
                if a[0] == 'e':
                    Ea, Eb = P.T.exps[a[1]], P.T.exps[b[1]]
                    za, zb = enc.exp(a[1]), enc.exp(b[1])
                else:
                    if P.T.atoms[a[1]].kind != P.T.atoms[b[1]].kind:
                        continue
                    Ea, Eb = P.T.atoms[a[1]].arg, P.T.atoms[b[1]].arg
                    za, zb = enc.atom(a[1]), enc.atom(b[1])
                    if P.T.atoms[a[1]].kind == 'log' and (
                            xa < 1e-6 or xb < 1e-6):
                        continue
                wrong = (abs(xa - xb) < 1e-9 * (1 + abs(xa)) and
                         abs(ga - gb) > 1e-7 * (abs(ga) + abs(gb))) or \
                    ((xa < xb) != (ga < gb))
                if wrong:
                    d = P.r_add(Ea, Eb, -P.ONE)
                    lt = enc.cond(cmp_cond('<', d))
                    eq = enc.cond(cmp_cond('==', d))
                    fs = [lt == (za < zb), eq == (za == zb)]
                    self.lemmas[(a, b)] = fs
                    out += fs
        return out

    def _dpos(self, r):
        """denominator of ratio(r) known positive"""
        mono, _ = P.p_content(r.num) if r.num else ((), 0)
        for k, n in mono:
            if n < 0 and n % 2 and not self.atom_positive(P.T.atoms[k]):
                return False
        for f, n in r.den:
            if n % 2 and self.factor_sign(f) <= 0:
                return False
        return True

    def _tangent(self, e, n, d, x, got, true):
        out = []
        for x0 in {round(x, 9)}:
            x0 = Fraction(x0)
            t = math.exp(x0)
            lo = S.q(Fraction(t * (1 - 1e-12)))
            hi = S.q(Fraction(t * (1 + 1e-12)))
            X = n - S.q(x0) * d
            if got < true:
                out.append(e * d >= lo * (d + X))
            else:
                out.append(z3.Implies(X < d, e * (d - X) <= hi * d))
        return out

    # ------------------------------------------------------------- decisions
    def _add(self, c):
        if c.op == 'and':
            for a in c.args:
                self._add(a)
            return
        if c.op == 'const':
            return
        self.pc.append(c)
        self.pkeys.append(S.cond_keys(c))
        self.known[S.cond_key(c)] = True
        self.known[S.cond_key(negate(c))] = False
        if c.op == '<':
            self.known[S.cond_key(SymBool('!=', c.args[0]))] = True
            self.known[S.cond_key(SymBool('==', c.args[0]))] = False
            self.known[S.cond_key(SymBool('<=', c.args[0]))] = True
            self.known[S.cond_key(SymBool('<', P.r_neg(c.args[0])))] = False
        elif c.op == '==':
            for r in (c.args[0], P.r_neg(c.args[0])):
                self.known[S.cond_key(SymBool('<=', r))] = True
                self.known[S.cond_key(SymBool('<', r))] = False
            self._learn_eq(c.args[0])

    def _learn_eq(self, r):
        """r == 0: remember a substitution var -> R if one is linear"""
        for aid, val in self.subst:
            if aid in P.atoms_of(r):
                r = P.r_subst(r, aid, val)
        num = r.num
        best = None
        for (m, e), c in num.items():
            if e == 0 and len(m) == 1 and m[0][1] == 1 and \
                    P.T.atoms[m[0][0]].kind == 'var':
                k = m[0][0]
                rest = {kk: v for kk, v in num.items() if kk != (m, e)}
                if k not in P.atoms_of(P.R(rest)):
                    if best is None or k > best[0]:
                        best = (k, P.R(P.p_scale(rest, -1 / c)))
        if best:
            aid, val = best
            self.subst = [(a, P.r_subst(v, aid, val))
                          for a, v in self.subst] + [best]

    def at_witness(self, c):
        if not self.witness_ok:
            return None
        try:
            return S.Eval(self.witness).cond(c)
        except (KeyError, ArithmeticError, OverflowError):
            return None

    def branch(self, c):
        if c.op == 'const':
            return c.args[0]
        key = S.cond_key(c)
        k = self.known.get(key)
        if k is not None:
            return k
        neg = negate(c)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v == 'T' or v == 'F':
                forced = False
            else:
                forced = True
            val = v in ('T', 't')
            self.taken.append(v)
            if forced:
                self._learn(c if val else neg)
            else:
                self._add(c if val else neg)
            return val
        self._deadline()
        self.stats.decisions += 1
        w = self.at_witness(c)
        first = True if w is None else w
        res = {}
        for val in ((not first, first) if w is not None else (True, False)):
            if w is not None and val == w:
                res[val] = ('sat', self.witness)
                continue
            res[val] = self.solve([c if val else neg])
        ok = {v: r[0] != 'unsat' for v, r in res.items()}
        if not ok[True] and not ok[False]:
            raise PathAbort('infeasible')
        if ok[True] and ok[False]:
            self.taken.append('T' if first else 'F')
            alt = self.taken[:-1] + ['F' if first else 'T']
            env = res[not first][1]
            self.alts.append((alt, env))
            if w is None:
                e = res[first][1]
                if e is not None:
                    self.witness = e
                    self.witness_ok = True
                else:
                    self.witness_ok = False
            self._add(c if first else neg)
            return first
        val = ok[True]
        self.taken.append('t' if val else 'f')
        self._learn(c if val else neg)
        return val

    def _learn(self, c):
        """implied by the path: remember the value, no new constraint"""
        self.known[S.cond_key(c)] = True
        self.known[S.cond_key(negate(c))] = False
        if c.op == '==':
            self._learn_eq(c.args[0])

    def choose(self, name, n):
        """non deterministic choice 0..n-1 (environment / configuration)"""
        while name in self.choices:
            name += "'"
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            self._deadline()
            v = 0
            for j in range(1, n):
                self.alts.append((self.taken + [j], dict(self.witness)))
        self.taken.append(v)
        self.choices[name] = v
        return v

    def assume(self, c):
        c = S.as_bool(c)
        if c.op == 'const':
            if not c.args[0]:
                raise PathAbort('assume')
            return
        w = self.at_witness(c)
        self._add(c)
        if w is not True:
            self.rewitness()

    def rewitness(self):
        v, env = self.solve([], full=True,
                            timeout=self.opts['claim_timeout'])
        if v == 'unsat':
            raise PathAbort('infeasible assumption')
        if v == 'sat':
            self.witness = env
            self.witness_ok = True
        else:
            self.witness_ok = False

    def _deadline(self):
        if time.time() > self.opts['deadline']:
            raise PathAbort('deadline')

    def consistent(self, env):
        """do all path conditions hold at env with the true functions"""
        ev = S.Eval(env)
        for c in self.pc:
            try:
                if ev.cond(c) is not True:
                    return False
            except (KeyError, ArithmeticError, OverflowError):
                return False
        return True

    def snap(self, env, extra=()):
        """a nearby assignment of exactly representable values"""
        def ok(e):
            ev = S.Eval(e)
            for c in list(self.pc) + list(extra):
                try:
                    if ev.cond(c) is not True:
                        return False
                except (KeyError, ArithmeticError, OverflowError):
                    return False
            return True
        for bits in (6, 10, 16, 24, 40):
            d = Fraction(1, 2 ** bits)
            e = {}
            for n, x in env.items():
                a = self.vars.get(n)
                s = Fraction(round(x / d)) * d
                if a is not None and not (a.lo <= s <= a.hi):
                    s = x
                e[n] = s
            # follow the equalities of the path
            for aid, val in self.subst:
                at = P.T.atoms[aid]
                try:
                    v = S.Eval(e).r(val)
                    if isinstance(v, Fraction):
                        e[at.name] = v
                except (ArithmeticError, KeyError, OverflowError):
                    pass
            if ok(e):
                return e
        return None

    def _candidate(self, r, f):
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            self.pos += 1
            n = e[1]
        else:
            n = f(self._value(r))
        self.taken.append(('N', n))
        return n

    def enumerate_int(self, r):
        for _ in range(self.opts['max_enum']):
            n = self._candidate(r, lambda v: int(round(v)))
            if self.branch(cmp_cond('==', P.r_add(r, P.r_const(-n)))):
                return n
        raise PathAbort('enumeration bound')

    def enumerate_floor(self, r):
        for _ in range(self.opts['max_enum']):
            n = self._candidate(r, math.floor)
            lo = cmp_cond('<=', P.r_add(P.r_const(n), r, -P.ONE))
            hi = cmp_cond('<', P.r_add(r, P.r_const(-n - 1)))
            if self.branch(SymBool('and', lo, hi)):
                return n
        raise PathAbort('enumeration bound')

    def _value(self, r):
        if not self.witness_ok:
            self.rewitness()
        return S.Eval(self.witness).r(r)

    def concretise(self, r):
        self.tainted = True
        self.notes.append('value concretised at a C boundary')
        return float(self._value(r))

    def substituted(self, r):
        for aid, val in self.subst:
            if aid in P.atoms_of(r):
                try:
                    r = P.r_subst(r, aid, val)
                except (ZeroDivisionError, Unsupported):
                    return r
        return r
