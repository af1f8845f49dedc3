"""Discharging obligations: axiom instantiation, quantified-fact instantiation, and the back ends."""
import itertools
import multiprocessing as mp
import multiprocessing.connection
import os
import time
import traceback
import z3
from .vals import *


def subterms(fs, seen=None):
    seen = {} if seen is None else seen
    st = [f for f in fs if is_z(f)]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        st.extend(t.children())
    return seen


def is_uf(t, arity_min=1):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() >= arity_min


HALF = z3.RealVal(Fraction(1, 2))
_inv_names = {f.name(): (k, False) for k, f in enumerate(F_INV)}
_inv_names.update({f.name(): (k, True) for k, f in enumerate(F_INVE)})


def axioms_for(t, done):
    """Defining axioms of an application of a function with a fixed meaning."""
    nm = t.decl().name()
    if nm == 'trunc':
        x, r = t.arg(0), z3.ToReal(t)
        return [z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)), z3.Implies(x < 0, z3.And(r - 1 < x, x <= r))]
    if nm == 'round':
        x, r = t.arg(0), z3.ToReal(t)
        return [z3.Implies(x >= 0, z3.And(r - HALF <= x, x < r + HALF)), z3.Implies(x < 0, z3.And(r - HALF < x, x <= r + HALF))]
    if nm == 'ceil':
        x, r = t.arg(0), z3.ToReal(t)
        return [r - 1 < x, x <= r]
    if nm == 'floor':
        x, r = t.arg(0), z3.ToReal(t)
        return [r <= x, x < r + 1]
    if nm == 'sqrt':
        x = t.arg(0)
        return [t >= 0, z3.Implies(x >= 0, t * t == x), z3.Implies(x > 0, t > 0), z3.Implies(x == 0, t == 0)]
    if nm == 'powf':
        return [z3.Implies(t.arg(0) > 0, t > 0)]
    if nm in _inv_names:
        k, ent = _inv_names[nm]
        if ent:
            args = [t.arg(i) for i in range(9)]
            key = ('inve',) + tuple(a.get_id() for a in args)
            if key in done:
                return []
            done.add(key)
            m = VMat(3, 3, args)
            x = VMat(3, 3, [f(*args) for f in F_INVE])
            cond = zb(ne(det3(m), Fraction(0)))
            p, q = mat_mul(m, x), mat_mul(x, m)
            out = []
            for i in range(3):
                for j in range(3):
                    out.append(z3.Implies(cond, zr(p.at(i, j)) == int(i == j)))
                    out.append(z3.Implies(cond, zr(q.at(i, j)) == int(i == j)))
            return out
        args = [t.arg(i) for i in range(12)]
        key = ('inv',) + tuple(a.get_id() for a in args)
        if key in done:
            return []
        done.add(key)
        m = VMat(3, 3, args[:9])
        w = VMat(3, 1, [f(*args) for f in F_INV])
        cond = zb(ne(det3(m), Fraction(0)))
        p = mat_mul(m, w)
        return [z3.Implies(cond, zr(p.d[i]) == args[9 + i]) for i in range(3)]
    return []


ROUND = ('trunc', 'round', 'ceil', 'floor')


def rounding_links(fs):
    """Differences of two roundings of the same number are -1, 0 or 1 (helps branch and bound)."""
    by = {}
    for t in subterms(fs).values():
        if is_uf(t) and t.decl().name() in ROUND:
            a = z3.simplify(t.arg(0), som=True)
            by.setdefault(a.get_id(), (a, []))[1].append(t)
    out = []
    for a, ts in by.values():
        for i in range(len(ts)):
            for j in range(i):
                k = z3.Int(f'rdiff!!{ts[i].get_id()}!{ts[j].get_id()}')
                out += [ts[i] == ts[j] + k, k >= -1, k <= 1]
    return out


def with_axioms(fs):
    """fs plus the axioms of all interpreted applications, to a fixed point."""
    done_terms, done_keys, out = set(), set(), list(fs)
    new = list(fs)
    for _ in range(4):
        seen = subterms(new)
        nxt = []
        for i, t in seen.items():
            if i in done_terms or not is_uf(t):
                continue
            done_terms.add(i)
            nxt += axioms_for(t, done_keys)
        if not nxt:
            break
        out += nxt
        new = nxt
    return out


def index_terms(fs):
    """Integer terms used as arguments of element functions."""
    out = {}
    for t in subterms(fs).values():
        if is_uf(t):
            for a in t.children():
                if a.sort().kind() == z3.Z3_INT_SORT:
                    out[a.get_id()] = a
    return list(out.values())


def instantiate(facts, base, extra_idx, rounds=2, cap=3000):
    if not facts:
        return []
    out, done = [], set()
    pool = list(base)
    idx = {t.get_id(): t for t in extra_idx if is_z(t) and t.sort().kind() == z3.Z3_INT_SORT}
    for _ in range(rounds):
        for t in index_terms(pool):
            idx.setdefault(t.get_id(), t)
        ts = list(idx.values())
        new = []
        for fi, f in enumerate(facts):
            if f.arity == 1:
                combos = ((t,) for t in ts)
            else:
                combos = itertools.product(ts, repeat=f.arity)
            n = 0
            for c in combos:
                key = (fi,) + tuple(t.get_id() for t in c)
                if key in done:
                    continue
                n += 1
                if n > cap:
                    break
                done.add(key)
                e = f.fn(*c)
                if conc(e) is True:
                    continue
                new.append(zb(e))
        if not new:
            break
        out += new
        pool = new
        if len(ts) > 60:
            break
    return out


def triggers(f):
    """Per index variable of a fact: functions (and argument positions) it is an argument of, with the offset added to it."""
    qs = [z3.Int(f'trigger!!{k}') for k in range(f.arity)]
    e = f.fn(*qs)
    out = [[] for _ in qs]
    if not is_z(e):
        return out
    for t in subterms([e]).values():
        if is_uf(t):
            for p, a in enumerate(t.children()):
                for k, q in enumerate(qs):
                    if a.eq(q):
                        out[k].append((t.decl(), p, None))
                    elif z3.is_app_of(a, z3.Z3_OP_ADD) and any(x.eq(q) for x in a.children()):
                        rest = [x for x in a.children() if not x.eq(q)]
                        if not any(y.eq(r) for r in qs for x in rest for y in subterms([x]).values()):
                            out[k].append((t.decl(), p, z3.Sum(*rest)))
    return out


def matching(facts, base, extra_idx, rounds=3, cap=400):
    """Instances at the index terms the functions of a fact are applied to in the goal and hypotheses."""
    out, done = [], set()
    pool = list(base)
    own = {t.get_id(): t for t in extra_idx if is_z(t) and t.sort().kind() == z3.Z3_INT_SORT}
    ts = [triggers(f) for f in facts]
    args = {}
    for _ in range(rounds):
        for t in subterms(pool).values():
            if is_uf(t):
                for p, a in enumerate(t.children()):
                    if a.sort().kind() == z3.Z3_INT_SORT:
                        args.setdefault((t.decl().get_id(), p), {})[a.get_id()] = a
        new = []
        for fi, (f, tr) in enumerate(zip(facts, ts)):
            cands = []
            for k in range(f.arity):
                c = {} if tr[k] else dict(own)
                for d, p, off in tr[k]:
                    for a in args.get((d.get_id(), p), {}).values():
                        a = a if off is None else z3.simplify(a - off)
                        c[a.get_id()] = a
                cands.append(list(c.values()))
            n = 0
            for c in itertools.product(*cands):
                key = (fi,) + tuple(t.get_id() for t in c)
                if key in done:
                    continue
                n += 1
                if n > cap:
                    break
                done.add(key)
                e = f.fn(*c)
                if conc(e) is not True:
                    new.append(zb(e))
        if not new:
            break
        out += new
        pool = new
    return out


def push_to_real(e, cache):
    """to_real moved down to integer variables, so that monomials of integers and of reals look alike."""
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            a = e.arg(0)
            k = a.decl().kind() if z3.is_app(a) else None
            if z3.is_int_value(a):
                r = z3.RealVal(a.as_long())
            elif k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                xs = [push_to_real(z3.ToReal(x), cache) for x in a.children()]
                r = z3.Product(*xs) if k == z3.Z3_OP_MUL else z3.Sum(*xs) if k == z3.Z3_OP_ADD else -xs[0] if k == z3.Z3_OP_UMINUS else xs[0] - z3.Sum(*xs[1:])
            elif k == z3.Z3_OP_ITE:
                r = z3.If(push_to_real(a.arg(0), cache), push_to_real(z3.ToReal(a.arg(1)), cache), push_to_real(z3.ToReal(a.arg(2)), cache))
            else:
                # a real proxy: the simplifier would pull to_real out of sums and hide the monomials
                x = push_to_real(a, cache)
                r = z3.Real(f're!!{x.get_id()}')
                cache.setdefault('proxies', {})[r.get_id()] = (r, x)
        if r is None:
            args = [push_to_real(x, cache) for x in e.children()]
            r = e if all(x.eq(y) for x, y in zip(args, e.children())) else z3.substitute(e, *[(y, x) for x, y in zip(args, e.children()) if not x.eq(y)])
        if z3.is_app(r) and r.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            # the simplifier would turn the sign of a product into signs of its factors
            a, b = r.arg(0), r.arg(1)
            for x, y in ((a, b), (b, a)):
                if conc(y) == 0 and x.sort().kind() == z3.Z3_REAL_SORT and sum(conc(f) is None for f in factors(x)) > 1:
                    r = r.decl()(*[ZERO if conc(v) == 0 else v for v in (a, b)])
                    break
    cache[i] = (e, r)
    return r


ZERO = z3.Real('zero!!')


def factors(x):
    if z3.is_app_of(x, z3.Z3_OP_MUL):
        return [f for a in x.children() for f in factors(a)]
    if z3.is_app_of(x, z3.Z3_OP_UMINUS):
        return factors(x.arg(0))
    return [x]


class Lin:
    """Replaces non-linear monomials (in sum-of-monomials form) by fresh variables."""
    def __init__(self):
        self.map, self.cache, self.nonlin = {}, {}, False
        self.side = []
        self.pushed = {}

    def links(self):
        """Proxies are the integers they stand for."""
        return [ZERO == 0] + [r == z3.ToReal(self.t(z3.simplify(x))) for r, x in list(self.pushed.get('proxies', {}).values())]

    def run(self, e):
        e = push_to_real(e, self.pushed)
        e = z3.simplify(e, som=True, som_blowup=100000, mul_to_power=False, hoist_mul=False)
        return self.t(e)

    def t(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r[1]
        if z3.is_app(e) and e.num_args() > 0:
            k = e.decl().kind()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                num, fac = Fraction(1), []
                flat = []
                if k == z3.Z3_OP_POWER:
                    args = [self.t(a) for a in e.children()]
                    p = conc(args[1])
                    if p is not None and Fraction(p).denominator == 1 and 0 < p <= 12:
                        flat = [args[0]] * int(p)
                    else:
                        flat = None
                else:
                    st = list(e.children())
                    while st:
                        a = st.pop(0)
                        if z3.is_app_of(a, z3.Z3_OP_MUL):
                            st = list(a.children()) + st
                        elif z3.is_app_of(a, z3.Z3_OP_TO_REAL) and z3.is_app_of(a.arg(0), z3.Z3_OP_MUL):
                            st = [z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x) for x in a.arg(0).children()] + st
                        else:
                            flat.append(self.t(a))
                if flat is None:
                    r = e.decl()(*args)
                else:
                    isint = e.sort().kind() == z3.Z3_INT_SORT
                    for a in flat:
                        c = conc(a)
                        if c is not None:
                            num *= c
                        else:
                            fac.append(a)
                    if len(fac) >= 2:
                        self.nonlin = True
                        # ToReal(i)*ToReal(j) must agree with ToReal(i*j)
                        px = self.pushed.get('proxies', {})
                        if not isint and all(a.get_id() in px for a in fac):
                            v = z3.ToReal(self.mono([self.t(px[a.get_id()][1]) for a in fac], True))
                        else:
                            v = self.mono(fac, isint)
                    elif len(fac) == 1:
                        v = fac[0]
                    else:
                        v = None
                    if v is None:
                        r = z3.IntVal(int(num)) if isint else z3.RealVal(num)
                    elif num == 1:
                        r = v
                    else:
                        r = (z3.IntVal(int(num)) if isint else z3.RealVal(num)) * v
            elif k in (z3.Z3_OP_DIV,):
                a, b = self.t(e.arg(0)), self.t(e.arg(1))
                if conc(b) is not None:
                    r = a / b
                else:
                    self.nonlin = True
                    r = self.mono([a, b], False, 'div')
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                a, b = self.t(e.arg(0)), self.t(e.arg(1))
                if conc(b) is not None:
                    r = e.decl()(a, b)
                else:
                    self.nonlin = True
                    r = self.mono([a, b], True, 'idiv' if k == z3.Z3_OP_IDIV else 'mod')
            else:
                args = [self.t(a) for a in e.children()]
                if all(x.eq(y) for x, y in zip(args, e.children())):
                    r = e
                elif k == z3.Z3_OP_AND:
                    r = z3.And(*args)
                elif k == z3.Z3_OP_OR:
                    r = z3.Or(*args)
                elif k == z3.Z3_OP_ADD:
                    r = z3.Sum(*args)
                elif k == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*args)
                else:
                    r = e.decl()(*args)
        else:
            r = e
        self.cache[i] = (e, r)
        return r

    def mono(self, fac, isint, tag='m'):
        if tag == 'm':
            fac = sorted(fac, key=lambda a: a.get_id())
        key = (tag, isint) + tuple(a.get_id() for a in fac)
        if key not in self.map:
            nm = f'{tag}#{len(self.map)}'
            v = z3.Int(nm) if isint else z3.Real(nm)
            self.map[key] = (v, fac)
            if tag == 'm' and len(fac) == 2 and fac[0].eq(fac[1]):
                self.side.append(v >= 0)
            if tag == 'mod':
                self.side.append(z3.Implies(fac[1] > 0, z3.And(v >= 0, v < fac[1])))
            if tag == 'idiv':
                self.side.append(z3.Implies(z3.And(fac[0] >= 0, fac[1] > 0), z3.And(v >= 0, v <= fac[0])))
        return self.map[key][0]


def find_ite(x):
    """A real-valued if-then-else inside x whose condition holds no other one."""
    st, seen = [x], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            inner = find_ite(t.arg(0))
            return t if inner is None else inner
        if z3.is_app(t) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            st.extend(t.children())
    return None


def integral_term(t):
    """t is syntactically an integer."""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return True
    c = conc(t)
    if c is not None:
        return Fraction(c).denominator == 1
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(integral_term(a) for a in t.children())
    return False


def isint_cond(x, budget):
    """is_int(x) with if-then-else cases split and integer summands dropped; the result is equivalent."""
    x = z3.simplify(x, som=True)
    t = find_ite(x)
    if t is not None and budget > 1:
        a = isint_cond(z3.substitute(x, (t, t.arg(1))), budget // 2)
        b = isint_cond(z3.substitute(x, (t, t.arg(2))), budget // 2)
        return z3.simplify(z3.If(t.arg(0), a, b))
    if integral_term(x):
        return z3.BoolVal(True)
    if z3.is_app_of(x, z3.Z3_OP_ADD):
        rest = [a for a in x.children() if not integral_term(a)]
        x = z3.Sum(*rest) if len(rest) > 1 else rest[0]
    c = conc(x)
    if c is not None:
        return z3.BoolVal(Fraction(c).denominator == 1)
    return z3.IsInt(x)


def elim_isint(fs):
    """is_int(x) becomes x == n for an integer n with n <= x < n + 1."""
    sub_ = [(t, isint_cond(t.arg(0), 256)) for t in subterms(fs).values() if z3.is_app_of(t, z3.Z3_OP_IS_INT)]
    if not sub_:
        return fs
    fs = [z3.substitute(f, *sub_) for f in fs]
    sub_, ax = [], []
    for t in subterms(fs).values():
        if z3.is_app_of(t, z3.Z3_OP_IS_INT):
            n = z3.ToReal(z3.Int(f'flr!!{t.get_id()}'))
            x = t.arg(0)
            sub_.append((t, x == n))
            ax += [n <= x, x < n + 1]
    if len(sub_) <= 40:
        for i, (t, e) in enumerate(sub_):
            ax += [z3.Implies(t.arg(0) == u.arg(0), e.arg(1) == f.arg(1)) for u, f in sub_[:i]]
    return [z3.substitute(f, *sub_) for f in fs] + ax if sub_ else fs


def elim_div(fs):
    """Replace real divisions by symbolic terms with a quotient variable and its defining axiom."""
    seen = subterms(fs)
    pairs, ax = [], []
    for t in seen.values():
        if z3.is_app_of(t, z3.Z3_OP_DIV) and conc(t.arg(1)) is None:
            pairs.append(t)
    if not pairs:
        return fs
    # innermost first
    pairs.sort(key=lambda t: len(t.sexpr()) if t.num_args() else 0)
    sub_ = []
    for n, t in enumerate(pairs):
        a, b = t.arg(0), t.arg(1)
        if sub_:
            a, b, t2 = z3.substitute(a, *sub_), z3.substitute(b, *sub_), z3.substitute(t, *sub_)
        q = z3.Real(f'quot!!{t.get_id()}')
        sub_.append((t if not sub_ else t, q))
        ax.append(z3.Implies(b != 0, q * b == a))
        ax.append(z3.Implies(b > 0, z3.And((q > 0) == (a > 0), (q < 0) == (a < 0))))
    out = [z3.substitute(f, *sub_) for f in fs]
    # nested divisions: repeat until gone
    out2 = out + ax
    if any(z3.is_app_of(t, z3.Z3_OP_DIV) and conc(t.arg(1)) is None for t in subterms(out2).values()):
        return elim_div(out2)
    return out2


def case_condition(fs):
    """Condition of an if-then-else that is a factor of a product."""
    seen, st = set(), [f for f in fs]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_MUL) and sum(conc(a) is None for a in t.children()) > 1:
            x = find_ite(t)
            if x is not None:
                return x.arg(0)
        st.extend(t.children())
    return None


def by_cases(fs, timeout, depth=4):
    """Unsatisfiable by linear reasoning once the conditions inside products are decided."""
    c = case_condition(fs)
    if c is None or depth == 0:
        return False
    for v in (True, False):
        gs = [z3.simplify(z3.substitute(f, (c, z3.BoolVal(v)))) for f in fs] + [c if v else z3.Not(c)]
        lin = Lin()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*[lin.run(f) for f in gs])
        s.add(*lin.links())
        s.add(*lin.side)
        if s.check() != z3.unsat and not by_cases(gs, timeout, depth - 1):
            return False
    return True


def opaque_core(inst, neg_goal):
    """Unsatisfiable from the instances of the quantified facts and small linear hypotheses alone, with solutions of linear systems as unknown constants?
    (A weaker set of hypotheses, so an affirmative answer is sound; it spares the arithmetic of the other hypotheses.)"""
    fs = list(inst) + [neg_goal]
    sub_ = [(t, z3.Real(f'opq!!{t.get_id()}')) for t in subterms(fs).values() if is_uf(t) and t.decl().name() in _inv_names]
    if not sub_:
        return False
    s = z3.Solver()
    s.set('timeout', 2000)
    for f in elim_isint([z3.substitute(f, *sub_) for f in fs]):
        if not any(z3.is_app_of(t, z3.Z3_OP_MUL) and sum(conc(a) is None for a in t.children()) > 1 for t in subterms([f]).values()):
            s.add(f)
    return s.check() == z3.unsat


def opaque(t, memo):
    """t with everything that is not linear (products, quotients, roots, solutions of linear systems) as unknown constants."""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    if not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        k = t.decl().kind()
        hide = (k == z3.Z3_OP_MUL and sum(conc(a) is None for a in t.children()) > 1) or \
            (k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and conc(t.arg(1)) is None) or \
            (k == z3.Z3_OP_UNINTERPRETED and t.sort().kind() == z3.Z3_REAL_SORT and all(a.sort().kind() == z3.Z3_REAL_SORT for a in t.children()))
        if hide and t.sort().kind() == z3.Z3_INT_SORT:
            r = z3.Int(f'opq!!{i}')
        elif hide:
            r = z3.ToReal(z3.Int(f'opq!!{i}')) if integral_term(t) else z3.Real(f'opq!!{i}')
        else:
            xs = [opaque(a, memo) for a in t.children()]
            r = t if all(x.eq(y) for x, y in zip(xs, t.children())) else rebuild(t, xs)
    memo[i] = (t, r)
    return r


def rebuild(t, xs):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*xs)
    if k == z3.Z3_OP_OR:
        return z3.Or(*xs)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*xs)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*xs)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*xs)
    return t.decl()(*xs)


def sum_key(x):
    x = z3.simplify(x, som=True)
    return ' '.join(sorted(a.sexpr() for a in (x.children() if z3.is_app_of(x, z3.Z3_OP_ADD) else [x])))


def linear_core(fs):
    """Unsatisfiable with everything that is not linear as unknown constants?"""
    memo = {}
    gs = [opaque(f, memo) for f in with_axioms(fs)]
    # first with is_int(x) as an unknown truth value, the same for x and -x
    sub_ = [(t, isint_cond(t.arg(0), 256)) for t in subterms(gs).values() if z3.is_app_of(t, z3.Z3_OP_IS_INT)]
    hs = [z3.substitute(f, *sub_) for f in gs] if sub_ else gs
    atoms = []
    for t in subterms(hs).values():
        if z3.is_app_of(t, z3.Z3_OP_IS_INT):
            atoms.append((t, z3.Bool('int!!' + min(sum_key(t.arg(0)), sum_key(-t.arg(0))))))
    if atoms:
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[z3.substitute(f, *atoms) for f in hs])
        if s.check() == z3.unsat:
            return True
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*elim_isint(gs))
    return s.check() == z3.unsat


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'detail')

    def __init__(self, status, backend, time_, model=None, detail=''):
        self.status, self.backend, self.time, self.model, self.detail = status, backend, time_, model, detail


def model_dict(m):
    out = {}
    for d in m.decls():
        try:
            v = m[d]
            if d.arity() == 0:
                out[d.name()] = num_str(v)
            else:
                ent = []
                for i in range(v.num_entries()):
                    e = v.entry(i)
                    ent.append([[num_str(e.arg_value(j)) for j in range(e.num_args())], num_str(e.value())])
                out[d.name()] = {'entries': ent, 'else': num_str(v.else_value())}
        except Exception:
            pass
    return out


def num_str(v):
    if z3.is_algebraic_value(v):
        return v.approx(20).as_decimal(20).rstrip('?')
    if z3.is_rational_value(v) and not z3.is_int_value(v):
        return f'{v.numerator_as_long()}/{v.denominator_as_long()}'
    return str(v)


TIMEOUT_MS = int(os.environ.get('MIRVER_Z3_MS', '15000'))


def prove(hyps, facts, goal, extra_idx=(), timeout=None, quick=False, want_model=True, nl=True):
    """Decide hyps /\\ facts => goal."""
    t0 = time.time()
    timeout = timeout or TIMEOUT_MS
    c = conc(goal)
    if c is True:
        return Result('proved', 'syntactic', 0.0)
    neg_goal = zb(not_(goal))
    hyps = [zb(h) for h in hyps if conc(h) is not True]
    if any(z3.is_false(h) for h in hyps):
        return Result('proved', 'syntactic', 0.0)
    g = z3.simplify(zb(goal), som=True, som_blowup=100000) if c is None else zb(goal)
    if z3.is_true(g):
        return Result('proved', 'z3-simplify', time.time() - t0)
    sizes = [len(subterms([h])) for h in hyps]
    small = [h for h, n in zip(hyps, sizes) if n < 40]
    last = None
    if sum(sizes) > 20000:
        # long hypotheses about other things than the goal
        mine = constants(neg_goal)
        near = [h for h, n in zip(hyps, sizes) if n < 400 and constants(h) <= mine]
        if near and linear_core(near + [neg_goal]):
            return Result('proved', 'z3-linear', time.time() - t0)
    if facts:
        # many goals need none of the quantified facts, or only a few instances
        few = hyps + [neg_goal]
        if linear_core(few) or decide(few, t0, 3000, True, False, False, False).status == 'proved':
            return Result('proved', 'z3-linear', time.time() - t0)
        inst = matching(facts, few, extra_idx, rounds=1, cap=100)
        if 0 < len(inst) < 1000 and linear_core(few + inst):
            return Result('proved', 'z3', time.time() - t0)
    sets = [lambda: instantiate(facts, hyps + [neg_goal], extra_idx)]
    if facts:
        sets.insert(0, lambda: matching(facts, hyps + [neg_goal], extra_idx))
    for k, make in enumerate(sets):
        inst = make()
        if inst and len(inst) > FULL and k + 1 == len(sets) > 1:
            break           # too many: the verdict on the matching instances stands
        if inst and opaque_core(small + (inst if k + 1 < len(sets) else instantiate(facts, [neg_goal], extra_idx, rounds=1)), neg_goal):
            return Result('proved', 'z3', time.time() - t0)
        final = k + 1 == len(sets)
        if inst and not final and linear_core(hyps + inst + [neg_goal]):
            return Result('proved', 'z3', time.time() - t0)
        last = decide(hyps + inst + [neg_goal], t0, timeout, quick, want_model, nl, final)
        if last.status == 'proved':
            return last
    if last.status == 'refuted' and not final:
        last.status = 'unknown'
    return last


def constants(t):
    return {x.get_id() for x in subterms([t]).values() if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}


FULL = 6000


def decide(fs, t0, timeout, quick, want_model, nl, final):
    fs = with_axioms(fs)
    fs += rounding_links(fs)
    fs = elim_div(elim_isint(fs))
    lin = Lin()
    s = z3.Solver()
    s.set('timeout', timeout)
    lf = [lin.run(f) for f in fs]
    s.add(*lf)
    s.add(*lin.links())
    s.add(*lin.side)
    # definitional links for linearised terms that the abstraction would otherwise lose
    r = s.check()
    if r == z3.unsat:
        return Result('proved', 'z3-linear' if lin.nonlin else 'z3', time.time() - t0)
    if r == z3.sat and not lin.nonlin:
        return Result('refuted', 'z3', time.time() - t0, model_dict(s.model()) if want_model and final else None)
    if lin.nonlin and by_cases(fs, timeout):
        return Result('proved', 'z3-linear', time.time() - t0)
    if quick or not nl or not final:
        return Result('unknown', 'z3-linear', time.time() - t0, None, str(r))
    s2 = z3.Solver()
    s2.set('timeout', timeout)
    s2.add(*fs)
    r = s2.check()
    if r == z3.unsat:
        return Result('proved', 'z3-nra', time.time() - t0)
    if r == z3.sat:
        return Result('refuted', 'z3-nra', time.time() - t0, model_dict(s2.model()) if want_model else None)
    r = cvc5_check(fs, timeout)
    if r == 'unsat':
        return Result('proved', 'cvc5', time.time() - t0)
    if r == 'sat':
        return Result('refuted', 'cvc5', time.time() - t0, None)
    return Result('unknown', 'z3+cvc5', time.time() - t0, None, s2.reason_unknown())


def cvc5_check(fs, timeout):
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run([exe, '--lang=smt2', f'--tlimit={timeout}', '-'], input=txt, capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
    except subprocess.TimeoutExpired:
        return 'unknown'
    o = p.stdout.strip().splitlines()
    return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'


def prove_obl(o, **kw):
    idx = [x[1] for x in o.log if x[0] == 'idx']
    if o.info and 'idx' in o.info:
        idx += list(o.info['idx'])
    return prove(o.hyps, o.facts, o.goal, idx, **kw)


PER_OBLIGATION_S = 150       # wall time after which an obligation counts as undecided


def _worker(obls, conn):
    """Decides the obligations whose numbers arrive on conn."""
    while True:
        i = conn.recv()
        if i is None:
            os._exit(0)
        try:
            r = prove_obl(obls[i])
            t = (r.status, r.backend, r.time, r.model, r.detail)
        except Exception:
            t = ('unknown', 'error', 0.0, None, traceback.format_exc()[-1500:])
        conn.send((i, t))


class Worker:
    def __init__(self, ctx, obls, others):
        self.conn, child = ctx.Pipe()

        def run():
            for w in others:
                w.conn.close()
            self.conn.close()
            _worker(obls, child)
        self.proc = ctx.Process(target=run, daemon=True)
        self.proc.start()
        child.close()
        self.job, self.since = None, 0.0

    def give(self, i):
        self.job, self.since = i, time.time()
        self.conn.send(i)

    def kill(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def discharge(obls, jobs=8, deadline=None):
    """Decide all obligations in forked workers; what takes too long is undecided."""
    res = [None] * len(obls)
    todo = []
    for i, o in enumerate(obls):
        if conc(o.goal) is True:
            res[i] = Result('proved', 'syntactic', 0.0)
        else:
            todo.append(i)
    todo.reverse()
    ctx = mp.get_context('fork')
    ws = []
    while todo or any(w.job is not None for w in ws):
        now = time.time()
        if deadline is not None and now > deadline:
            break
        for w in list(ws):
            if w.job is not None and now - w.since > PER_OBLIGATION_S:
                res[w.job] = Result('unknown', 'time limit', now - w.since, None, 'out of time')
                w.kill()
                ws.remove(w)
        while todo and len(ws) < jobs and all(w.job is not None for w in ws):
            ws.append(Worker(ctx, obls, ws))
            ws[-1].give(todo.pop())
        for w in ws:
            if w.job is None and todo:
                w.give(todo.pop())
        for c in mp.connection.wait([w.conn for w in ws if w.job is not None], timeout=1.0):
            w = [w for w in ws if w.conn is c][0]
            try:
                i, t = c.recv()
                res[i] = Result(*t)
                w.job = None
            except (EOFError, OSError):
                res[w.job] = Result('unknown', 'error', now - w.since, None, 'the solver process ended')
                w.kill()
                ws.remove(w)
    for w in ws:
        w.kill()
    return [r if r is not None else Result('unknown', 'time limit', 0.0, None, 'out of time') for r in res]
