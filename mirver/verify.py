"""Function contracts and their discharge.

A contract is checked against the MIR body of the function it names; calls to functions that carry a
contract of their own are replaced by that contract (Spec.apply), all other local functions are executed."""
import signal
import time
import traceback
import z3
from .vals import *
from .engine import Engine, State, QFact, LostAnchor
from . import prover
from .lemmas import Lemma


class Ctx:
    """What a postcondition sees: the arguments at entry, the state and value at return."""
    def __init__(self, eng, body, args, entry, st, ret):
        self.eng, self.body, self.args, self.entry, self.st, self.ret = eng, body, args, entry, st, ret

    def old(self, i):
        """Value of argument i (references followed) at entry."""
        return self.eng.deref_all(self.entry, self.args[i])

    def new(self, i):
        """Value behind argument i at return."""
        return self.eng.deref_all(self.st, self.args[i])

    def val(self, v=None):
        return self.eng.deref_all(self.st, self.ret if v is None else v)


class Everywhere:
    """Precondition fn(*reals) for all reals; callers prove it at arbitrary reals, the body uses instances it names."""
    def __init__(self, arity, fn):
        self.arity, self.fn = arity, fn


class Spec:
    """Contract of one function.  requires/ensures yield (name, formula); ensures may yield QFacts."""
    fn = None                 # path suffix of the function
    panic_ok = False          # explicit panics: False, True or callable(fn, state) -> condition
    uses = ()                 # contracts of callees
    hook = None               # loop invariants: callable(eng, fr, h, blocks, st)
    cover = True

    @property
    def label(self):
        return self.fn

    def args(self, eng, st, body):
        out = []
        for i in range(body.nargs):
            out.append(eng.sym(st, body.locals[i + 1], body.argname(i)))
        return out

    def requires(self, eng, st, a):
        return []

    def ensures(self, c):
        return []

    def prepare(self, eng):
        pass

    # at call sites ---------------------------------------------------------------------
    def result(self, eng, st, a, body):
        """Fresh result (and havoc of out-parameters)."""
        return eng.sym(st, body.locals[0], fresh_name('ret'))

    def apply(self, eng, st, args, fr, line):
        body = eng.prog.find(self.fn)
        if body is None:
            raise LostAnchor(self.fn)
        for f in eng.hints:
            f(self, eng, st, args)
        met = []
        for nm, g in self.requires(eng, st, args):
            if isinstance(g, Everywhere):
                g = g.fn(*[fresh_real('any') for _ in range(g.arity)])
                eng.oblige(st, 'requires', g, fr.body.name if fr else '?', line, name=f'requires of {self.fn}: {nm}')
            else:
                eng.oblige(st, 'requires', g, fr.body.name if fr else '?', line, name=f'requires of {self.fn}: {nm}')
                met.append(g)
        for g in met:
            st.assume(g)
        entry = st.copy()
        ret = self.result(eng, st, args, body)
        for nm, g in self.ensures(Ctx(eng, body, args, entry, st, ret)):
            if isinstance(g, QFact):
                st.facts.append(g)
            else:
                st.assume(g)
        return [(st, ret)]


def skolem(g):
    """A quantified goal at fresh indices."""
    if isinstance(g, QFact):
        ks = [fresh_int('k') for _ in range(g.arity)]
        return g.fn(*ks), ks
    return g, []


def induction(eng, st, body, name, pred, lo, hi, idx=()):
    """Obligations base and step for lo <= j <= hi => pred(j); afterwards the conclusion is a fact of st."""
    eng.oblige(st, 'induction', implies(le(lo, hi), pred(lo)), body.name, body.line, name=f'{name}: base', info={'idx': [lo] + list(idx)})
    j = fresh_int('j')
    eng.oblige(st, 'induction', implies(and_(le(lo, j), lt(j, hi), pred(j)), pred(add(j, 1))), body.name, body.line, name=f'{name}: step',
               info={'idx': [j, add(j, 1)] + list(idx)})
    st.facts.append(QFact(1, lambda k: implies(and_(le(lo, k), le(k, hi)), pred(k)), name))
    st.assume(implies(le(lo, hi), pred(hi)))


def cut(eng, st, body, name, g):
    """An intermediate claim: obliged here, a fact from here on."""
    gg, ks = skolem(g)
    eng.oblige(st, 'induction', gg, body.name, body.line, name=name, info={'idx': ks})
    if isinstance(g, QFact):
        st.facts.append(g)
    else:
        st.assume(g)


def split(g, depth=0):
    """A goal as a list of smaller goals whose conjunction is equivalent to it."""
    if not is_z(g) or depth > 6:
        return [g]
    if z3.is_and(g):
        return [x for a in g.children() for x in split(a, depth + 1)]
    if z3.is_implies(g):
        return [implies(g.arg(0), x) for x in split(g.arg(1), depth + 1)]
    if z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_BOOL_SORT:
        a, b = g.arg(0), g.arg(1)
        if z3.is_and(a) or z3.is_and(b):
            return split(z3.Implies(a, b), depth + 1) + split(z3.Implies(b, a), depth + 1)
    return [g]


class Outcome:
    def __init__(self, label, fn):
        self.label, self.fn = label, fn
        self.obls, self.res = [], []
        self.error = None        # reason why the contract could not be decided
        self.lost = False
        self.functions, self.models = set(), set()
        self.assumptions = set()
        self.exec_s = 0.0
        self.covers = []         # (name, hyps, facts, log)
        self.vacuous = []
        self.alarm = True
        self.names = None

    @property
    def failed(self):
        return [(o, r) for o, r in zip(self.obls, self.res) if r.status == 'refuted']

    @property
    def open(self):
        return [(o, r) for o, r in zip(self.obls, self.res) if r.status == 'unknown']

    @property
    def decided(self):
        return self.error is None and not self.open and not self.vacuous


class OutOfTime(BaseException):
    pass


class Verifier:
    def __init__(self, prog, verbose=False, deadline=None):
        Lemma.used.clear()
        self.prog = prog
        self.deadline = deadline        # time after which everything left is undecided
        self.out = []
        self.verbose = verbose

    def spec(self, s, **kw):
        """Verify the body of s.fn against s."""
        return self.task(s.label, s.fn, lambda eng, o: self._spec(s, eng, o))

    def task(self, label, fn, run, alarm=True):
        """Run a verification procedure; anything outside the engine's reach makes the outcome undecided."""
        o = Outcome(label, fn)
        o.alarm = alarm
        eng = Engine(self.prog)
        t0 = time.time()
        try:
            self.limit()
            run(eng, o)
        except OutOfTime:
            o.error = 'out of time'
        except LostAnchor as e:
            o.error, o.lost = f'contract target not found: {e}', True
        except Unsupported as e:
            o.error = f'outside the supported subset: {e}'
            if self.verbose:
                traceback.print_exc()
        except NoMerge as e:
            o.error = f'values cannot be merged: {e}'
            if self.verbose:
                traceback.print_exc()
        except z3.Z3Exception as e:
            o.error = f'engine error: {e}'
            if self.verbose:
                traceback.print_exc()
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, RecursionError, ZeroDivisionError) as e:
            o.error = f'engine error: {type(e).__name__}: {e} @ {traceback.format_exc().strip().splitlines()[-3].strip()}'
            if self.verbose:
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        o.exec_s = time.time() - t0
        o.obls += eng.obls
        o.functions |= set(eng.functions)
        o.models |= set(eng.used_models)
        o.assumptions |= set(eng.assumptions)
        if o.error is None and not o.obls:
            o.error = 'no obligation was generated'
        self.out.append(o)
        return o

    def limit(self):
        """Raise OutOfTime at the deadline."""
        if self.deadline is not None:
            left = self.deadline - time.time()
            if left <= 0:
                raise OutOfTime()

            def ring(*_):
                raise OutOfTime()
            signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, left, 5)

    def find(self, fn):
        body = self.prog.find(fn)
        if body is None:
            raise LostAnchor(fn)
        return body

    def _spec(self, s, eng, o):
        body = self.find(s.fn)
        for u in s.uses:
            eng.contracts[self.find(u.fn).name] = u
        eng.loop_hook = s.hook
        s.prepare(eng)
        st = State()
        args = s.args(eng, st, body)
        for nm, g in s.requires(eng, st, args):
            if not isinstance(g, Everywhere):
                st.assume(g)
        eng.explicit_panic_ok = s.panic_ok if not callable(s.panic_ok) else (lambda fn, x: s.panic_ok(eng, x, args))
        entry = st.copy()
        o.covers.append(('precondition', list(entry.pc), list(entry.facts), []))
        res = eng.call_body(body, args, st)
        if not res:
            raise Unsupported('function never returns normally')
        for s2, v in res:
            if s.cover:
                o.covers.append(('return', list(s2.pc), list(s2.facts), list(s2.log)))
            for nm, g in s.ensures(Ctx(eng, body, args, entry, s2, v)):
                gg, ks = skolem(g)
                gs = split(gg)
                for j, x in enumerate(gs):
                    eng.oblige(s2, 'ensures', x, body.name, body.line, name=nm if len(gs) == 1 else f'{nm} [{j + 1}/{len(gs)}]', info={'idx': ks})

    # -------------------------------------------------------------------------------------
    def discharge(self, jobs=8):
        # lemmas used inside quantified facts show when the fact is first instantiated
        seen = {}
        for o in self.out:
            for ob in o.obls:
                for f in ob.facts:
                    if id(f) not in seen:
                        seen[id(f)] = f
                        prover.triggers(f)
        done = set()
        while Lemma.used - done:
            for l in sorted(Lemma.used - done, key=lambda l: l.name):
                done.add(l)
                l.prove(self)
        allo, allc = [], []
        for o in self.out:
            allo += o.obls
        rs = prover.discharge(allo, jobs, self.deadline)
        k = 0
        for o in self.out:
            o.res = rs[k:k + len(o.obls)]
            k += len(o.obls)
        # reachability: the precondition and at least one return must be satisfiable
        for o in self.out:
            if self.deadline is not None and time.time() > self.deadline:
                break
            pre = [c for c in o.covers if c[0] == 'precondition']
            ret = [c for c in o.covers if c[0] == 'return']
            for c in pre:
                if self._unsat(c):
                    o.vacuous.append('precondition is unsatisfiable')
            if ret and all(self._unsat(c) for c in ret):
                o.vacuous.append('no return is reachable under the precondition')
        return self.out

    def _unsat(self, c):
        r = prover.prove(c[1], c[2], False, [x[1] for x in c[3] if x[0] == 'idx'], timeout=4000, want_model=False, nl=False)
        return r.status == 'proved'

    def summary(self):
        for o in self.out:
            n = len(o.obls)
            p = sum(1 for r in o.res if r.status == 'proved')
            print(f'{o.label}: {p}/{n} proved, exec {o.exec_s:.2f}s, prove {sum(r.time for r in o.res):.2f}s'
                  + (f' UNDECIDED {o.error}' if o.error else '') + (f' VACUOUS {o.vacuous}' if o.vacuous else ''))
            for ob, r in zip(o.obls, o.res):
                if r.status != 'proved':
                    print(f'    {r.status} [{r.backend} {r.time:.1f}s] {ob.kind}: {ob.name} @ {ob.fn}:{ob.line} {r.detail[-400:]}')
