"""SymV: harness interface over symbolic values + the task runner"""
import importlib
import json
import math
import os
import signal
import subprocess
import sys
import time
import traceback
import zlib
from fractions import Fraction

from . import poly as P
from . import sym as S
from .sym import SymBool, SymReal, PathAbort, Unsupported, cmp_cond, negate
from .explore import Ctx, Stats, TAU
from . import loader, noise, state
from .dates import SymDate

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class SymV:
    symbolic = True

    def __init__(self, ctx, task):
        self.ctx, self.task = ctx, task
        self.claims = []
        self.observed = []

    # inputs
    def real(self, name, lo, hi):
        return SymReal(P.r_atom(self.ctx.declare(name, lo, hi)))

    def pos(self, name, lo, hi):
        lo, hi = round(math.log(lo), 4), round(math.log(hi), 4)
        a = self.ctx.declare(name, lo, hi)
        return SymReal(P.r_exp(P.r_atom(a)))

    def int(self, name, lo, hi):
        return SymReal(P.r_atom(self.ctx.declare(name, lo, hi, True)))

    def choice(self, name, options):
        return options[self.ctx.choose(name, len(options))]

    def const(self, x):
        return S.mk(x)

    def date(self, off):
        return SymDate(off if isinstance(off, SymReal) else S.mk(off))

    def assume(self, cond):
        self.ctx.assume(cond)

    exp = staticmethod(lambda x: S.sym_exp(x))
    log = staticmethod(lambda x: S.sym_log(x))
    sqrt = staticmethod(lambda x: S.sym_sqrt(x))
    phi = staticmethod(lambda x: S.sym_phi(x))
    pdf = staticmethod(lambda x: S.sym_pdf(x))

    # claims
    def _r(self, x):
        try:
            return S.lift(x)
        except Unsupported:
            return None

    def eq(self, label, a, b, scale=1.0):
        x, y = self._r(a), self._r(b)
        self.ctx.stats.claims += 1
        if x is None or y is None or isinstance(a, str):
            self.task.counterexample(self, label, TRUEC, TRUEC)
            return
        d = P.r_add(x, y, -P.ONE)
        self.observed.append((label, x))
        if d.num:
            d = self.ctx.substituted(d)
        if not d.num:
            self.ctx.stats.trivial += 1
            self._decide(label, S.FALSE, None)
            return
        t = Fraction(scale) * TAU

        def off(t):
            return SymBool('or', cmp_cond('<', P.r_add(P.r_const(t), d,
                                                        -P.ONE)),
                           cmp_cond('<', P.r_add(P.r_const(t), d)))
        self._decide(label, off(t),
                     [off(t * k) for k in (10000, 500, 20, 2)])

    def le(self, label, a, b, scale=1.0):
        x, y = self._r(a), self._r(b)
        self.ctx.stats.claims += 1
        if x is None or y is None:
            self.task.counterexample(self, label, TRUEC, TRUEC)
            return
        self.observed.append((label, x))
        d = P.r_add(y, x, -P.ONE)          # want d >= 0
        if d.num:
            d = self.ctx.substituted(d)
        t = Fraction(scale) * TAU

        def off(t):
            return cmp_cond('<', P.r_add(d, P.r_const(t)))
        self._decide(label, off(t),
                     [off(t * k) for k in (10000, 500, 20, 2)])

    def holds(self, label, cond):
        self.ctx.stats.claims += 1
        if isinstance(cond, SymReal):
            cond = negate(cmp_cond('==', cond.r))
        cond = S.as_bool(cond)
        self._decide(label, negate(cond), [])

    def eqs(self, label, a, b, scale=1.0):
        a, b = list(a), list(b)
        self.holds(label + ' (length)', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq('%s [%d]' % (label, i), x, y, scale)

    def obs(self, label, x):
        r = self._r(x)
        if r is not None:
            self.observed.append((label, r))

    def raises(self, label, types, fn):
        self.ctx.stats.claims += 1
        try:
            fn()
        except types:
            return
        except (Unsupported, PathAbort):
            raise
        except Exception:
            self.task.counterexample(self, label, TRUEC, TRUEC)
            return
        self.task.counterexample(self, label, TRUEC, TRUEC)

    def deriv(self, label, f, x):
        """d f(x) / d x; x must be an input (or exp of an input)"""
        y = f(x)
        at = [k for k in P.atoms_of(x.r) if P.T.atoms[k].kind == 'var']
        assert len(at) == 1
        dy = P.r_diff(S.lift(y), at[0], S.fn_diff)
        dx = P.r_diff(x.r, at[0], S.fn_diff)
        return SymReal(P.r_mul(dy, P.r_inv(dx)))

    def _decide(self, label, bad, margins):
        ctx = self.ctx
        if bad.op == 'const' and not bad.args[0]:
            self.task.proved(label)
            return
        verdict, env = ('sat', None) if bad.op == 'const' else ctx.solve(
            [bad], timeout=ctx.opts['claim_timeout'])
        if verdict == 'unsat':
            self.task.proved(label)
        elif verdict == 'unknown':
            self.task.undecided(self, label, bad, margins or [])
        else:
            self.task.counterexample(self, label, bad, margins, env)


TRUEC = S.TRUE


class Task:
    """one harness x parameter: explores all paths"""

    def __init__(self, module, hname, pidx, opts):
        self.module, self.hname, self.pidx = module, hname, pidx
        self.opts = opts
        self.stats = Stats()
        self.result = {'harness': hname, 'param': pidx, 'violations': [],
                       'known': [], 'undecided': [], 'unreproduced': [],
                       'incomplete': [], 'paths': 0, 'validated': 0,
                       'mismatch': [], 'labels': {}, 'aborted': 0,
                       'deadline': False, 'skipped': 0, 'samples': []}
        self.proc = None

    # ---------------------------------------------------------------- replay
    def replay(self, inputs, choices):
        if self.proc is None:
            env = dict(os.environ, DCF_REPO=loader.REPO,
                       PYTHONDONTWRITEBYTECODE='1')
            env.pop('PYTHONPATH', None)
            self.proc = subprocess.Popen(
                ['/opt/venv/bin/python', '-B',
                 os.path.join(HERE, 'engine', 'worker.py')],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True, env=env, cwd='/')
        req = {'module': self.module, 'harness': self.hname,
               'param': self.pidx, 'inputs': inputs, 'choices': choices}
        self.proc.stdin.write(json.dumps(req) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            ended = self.proc.wait()
            self.proc = None
            return {'status': 'hang' if ended == -signal.SIGALRM else 'died',
                    'claims': [], 'obs': [], 'exc': None}
        return json.loads(line)

    def _inputs(self, v, env):
        return {n: float(env[n]) for n in v.ctx.vars}

    # --------------------------------------------------------------- outcome
    def proved(self, label):
        d = self.result['labels']
        d[label] = d.get(label, 0) + 1

    def undecided(self, v, label, bad, margins):
        for c in margins:
            s, env = v.ctx.solve([c], timeout=v.ctx.opts['claim_timeout'])
            if s == 'sat':
                if self._try(v, label, env, None):
                    return
        if os.environ.get('SYMDEBUG'):
            print('undecided', label, v.ctx.choices, bad)
        self.result['undecided'].append(label)

    def _known(self, rep, label):
        for k in self.opts['known']:
            if k['harness'] == self.hname and \
                    k.get('label', label) == label and \
                    k.get('params', None) in (None, self.pidx):
                return k
        return None

    def _try(self, v, label, env, exc):
        """replay env; report if the real code shows a failing claim"""
        ctx = v.ctx
        cands = []
        if env is not None:
            s = ctx.snap(env)
            cands = [s] if s else []
            cands.append(env)
        for e in cands:
            try:
                inputs = self._inputs(v, e)
            except KeyError:
                continue
            rep = self.replay(inputs, ctx.choices)
            if self.judge(v, rep, inputs, label):
                return True
        return False

    def judge(self, v, rep, inputs, label=None):
        """record the failures the real code shows; True if label failed"""
        if rep['status'] in ('skip', 'died'):
            return False
        fails = [c for c in rep['claims'] if not c[1]]
        if rep['status'] == 'hang':
            fails.append(['comes to an end', False, 'runs for 45 s', 'ends'])
        if rep['status'] == 'exception':
            fails.append(['no exception', False] + rep['exc'][:2])
        hit = False
        for c in fails:
            hit = True
            k = self._known(rep, c[0])
            rec = {'property': self.opts['prop'], 'module': self.module,
                   'harness': self.hname, 'param': self.pidx, 'label': c[0],
                   'got': c[2], 'expected': c[3], 'inputs': inputs,
                   'choices': dict(v.ctx.choices),
                   'exception': rep['exc']}
            if k is not None:
                if k['what'] not in self.result['known']:
                    self.result['known'].append(k['what'])
            else:
                seen = [x['label'] for x in self.result['violations']]
                if c[0] not in seen:
                    self.result['violations'].append(rec)
        return hit

    def counterexample(self, v, label, bad, margins, env=None):
        ctx = v.ctx
        if self.opts.get('stop_on_violation') and \
                any(x['label'] == label for x in self.result['violations']):
            return
        tried = 0
        for c in (margins or []):
            s, e = ctx.solve([c], timeout=ctx.opts['claim_timeout'],
                             full=True)
            if s == 'sat':
                tried += 1
                e2 = ctx.snap(e, [c])
                if e2 and self._try(v, label, e2, None):
                    return
                if self._try(v, label, e, None):
                    return
                break
        if bad.op != 'const':
            s, e = ctx.solve([bad], timeout=ctx.opts['claim_timeout'],
                             full=True)
            if s == 'unsat':
                self.proved(label)
                return
            if e is not None:
                e2 = ctx.snap(e, [bad])
                if e2 and self._try(v, label, e2, None):
                    return
                if self._try(v, label, e, None):
                    return
        else:
            if not ctx.witness_ok:
                try:
                    ctx.rewitness()
                except PathAbort:
                    self.proved(label)      # the path was infeasible
                    return
            if self._try(v, label, ctx.witness, None):
                return
        # neighbours of the model that stay on the path
        for e in self._neighbours(v, env or ctx.witness, 24):
            if self._try(v, label, e, None):
                return
        if margins and not tried:
            # only ever off by less than twice the tolerance
            self.result['undecided'].append(label + ' (within 2x tolerance)')
            return
        e = env or ctx.witness
        if bad.op != 'const' and not (
                ctx.consistent(e) and S.Eval(e).cond(bad) is True):
            # the model is an artefact of the bounded exp/log/Phi axioms
            if os.environ.get('SYMDEBUG'):
                print('undecided', label, v.ctx.choices, bad, e, flush=True)
            self.result['undecided'].append(label)
            return
        self.result['unreproduced'].append(
            {'label': label, 'env': {k: str(x) for k, x in
                                     (env or ctx.witness).items()},
             'choices': dict(ctx.choices)})

    def _neighbours(self, v, env, n):
        import random
        rng = random.Random(zlib.crc32(self.hname.encode()))
        ctx = v.ctx
        for i in range(n):
            w = 2.0 ** -(1 + i % 6)
            e = {}
            for k, x in env.items():
                a = ctx.vars.get(k)
                if a is None:
                    continue
                if a.integer:
                    e[k] = x
                    continue
                y = x + (a.hi - a.lo) * Fraction(
                    round((rng.random() - .5) * w * 4096), 4096)
                e[k] = min(max(y, a.lo), a.hi)
            if all(k in e for k in ctx.vars):
                yield e

    # --------------------------------------------------------------- explore
    def run(self):
        dcf = loader.load()
        loader.PHI_STUB = self.opts.get('phi_stub', True)
        mod = importlib.import_module('checks.' + self.module)
        h = mod.REG.get(self.hname)
        param = h.params[self.pidx][0]
        nargs = h.fn.__code__.co_argcount
        state.save()
        work = [([], None)]
        t0 = time.time()
        self.opts['deadline'] = t0 + self.opts['budget']
        late = []

        def alarm(*_):
            late.append(1)
            raise PathAbort('deadline')
        signal.signal(signal.SIGALRM, alarm)
        while work:
            if time.time() > self.opts['deadline']:
                self.result['deadline'] = True
                break
            if self.result['paths'] + self.result['aborted'] >= \
                    self.opts['max_paths']:
                self.result['deadline'] = True
                break
            if len(self.result['violations']) >= 3:
                break
            prefix, wit = work.pop()
            state.restore()
            loader.RECORD[0] = False
            done = self.result['paths'] + self.result['aborted']
            if done < 100 or done % 8 == 0:
                noise.make(dcf)
            loader.RECORD[0] = True
            P.reset()
            ctx = Ctx(prefix, wit, self.stats, self.opts)
            S.CTX = ctx
            v = SymV(ctx, self)
            exc = None
            try:
                signal.alarm(max(1, int(self.opts['deadline'] + 15 -
                                        time.time())))
                try:
                    if nargs > 2:
                        h.fn(v, dcf, param)
                    else:
                        h.fn(v, dcf)
                finally:
                    signal.alarm(0)
            except PathAbort as e:
                if late:                # stuck: does the real code end here?
                    late.clear()
                    if self.proc:
                        self.proc.kill()
                        self.proc = None
                    self._witness_run(v, None)
                work.extend(ctx.alts)
                self.result['aborted'] += 1
                if str(e) == 'deadline':
                    self.result['deadline'] = True
                elif str(e) == 'enumeration bound':
                    self.result['incomplete'].append(str(e))
                continue
            except Unsupported as e:
                work.extend(ctx.alts)
                self.result['incomplete'].append('unsupported: %s' % e)
                self._witness_run(v, None)
                continue
            except Exception as e:
                exc = e
            work.extend(ctx.alts)
            self.result['paths'] += 1
            if exc is not None:
                self._exception(v, exc)
            else:
                if ctx.tainted:
                    self.result['incomplete'].extend(ctx.notes[:1])
                self._witness_run(v, True)
        self.result['stats'] = vars(self.stats)
        self.result['seconds'] = time.time() - t0
        self.result['functions'] = sorted(
            '%s:%s' % x for x in loader.EXECUTED)
        if self.proc:
            self.proc.stdin.close()
            self.proc.wait()
        return self.result

    def _exception(self, v, e):
        """the real code raised where the harness expects a result"""
        ctx = v.ctx
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if '/dcf/' in t.filename]
        desc = '%s: %s (%s)' % (
            type(e).__name__, str(e)[:120],
            '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name)
            if where else '%s:%s' % (os.path.basename(tb[-1].filename),
                                     tb[-1].lineno))
        self.stats.claims += 1
        if not (ctx.witness_ok and ctx.consistent(ctx.witness)):
            try:
                ctx.rewitness()
            except PathAbort:
                self.result['aborted'] += 1
                return
        if self._try(v, 'no exception', ctx.witness, e):
            return
        for n in self._neighbours(v, ctx.witness, 6):
            if ctx.consistent(n) and self._try(v, 'no exception', n, e):
                return
        self.result['incomplete'].append('not reproduced: ' + desc)

    def _witness_run(self, v, compare):
        """one model of the path on the real code: translator validation"""
        ctx = v.ctx
        if self.result['validated'] + self.result['skipped'] >= \
                self.opts['max_validate']:
            return
        if not ctx.witness_ok:
            try:
                ctx.rewitness()
            except PathAbort:
                return
        env = ctx.snap(ctx.witness)
        if env is None:
            if not ctx.consistent(ctx.witness):
                self.result['skipped'] += 1
                return
            env = ctx.witness
        try:
            inputs = self._inputs(v, env)
        except KeyError:
            self.result['skipped'] += 1
            return
        rep = self.replay(inputs, ctx.choices)
        if rep['status'] in ('skip', 'died'):
            self.result['skipped'] += 1
            return
        fails = rep['status'] in ('exception', 'hang') or \
            any(not c[1] for c in rep['claims'])
        n, bad = self._compare(v, env, rep) if compare else (0, None)
        if fails or bad:
            # a float on the very edge of a case may fall on its other side:
            # decided by other models of the same path
            others = []
            for e in self._neighbours(v, env, 12):
                e = {k: Fraction(float(x)) for k, x in e.items()}
                if len(others) < 3 and ctx.consistent(e):
                    r = self.replay(self._inputs(v, e), ctx.choices)
                    if r['status'] not in ('skip', 'died'):
                        others.append((e, r))
            if not others:
                if fails:
                    self.judge(v, rep, inputs)
            for e, r in others:
                self.judge(v, r, self._inputs(v, e))
            if bad and others:
                # none of them agrees: the translation is wrong
                cmps = [self._compare(v, e, r)[1] for e, r in others]
                bad = None if any(c is None for c in cmps) else bad
                self.result['edges'] = self.result.get('edges', 0) + 1
            if bad and compare:
                self.result['mismatch'].append(
                    dict(bad, inputs=inputs, choices=dict(ctx.choices)))
        if not compare:
            return
        self.result['validated'] += 1
        if len(self.result['samples']) < 2:
            self.result['samples'].append(
                {'harness': self.hname, 'inputs': inputs,
                 'choices': dict(ctx.choices), 'compared': n})

    def _compare(self, v, env, rep):
        """values of the symbolic path against those of the real code"""
        obs = {}
        for c in rep['claims']:
            obs.setdefault(c[0], c[2])
        for a, b in rep['obs']:
            obs.setdefault(a, b)
        ev = S.Eval({k: Fraction(float(x)) for k, x in env.items()})
        n = 0
        first = set()
        for label, r in v.observed:
            if label in first:
                continue
            first.add(label)
            if label not in obs or not isinstance(obs[label], (int, float)):
                continue
            try:
                x = float(ev.r(r))
            except (ArithmeticError, OverflowError, KeyError, ValueError):
                continue
            y = obs[label]
            n += 1
            if not abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)):
                return n, {'label': label, 'symbolic': x, 'real': y}
        return n, None
