"""Proof context: path condition, decision trail, SUM symbols, z3 back end."""
import itertools
import time
import z3
from .values import *

QUERY_MS = 8000


class PathAbort(Exception):
    """current path is infeasible"""


class Obligation:
    __slots__ = ('name', 'ok', 'ms', 'detail')

    def __init__(self, name, ok, ms, detail=''):
        self.name, self.ok, self.ms, self.detail = name, ok, ms, detail


class Prover:
    def __init__(self):
        self.axioms = []          # background facts on inputs (universally quantified)
        self.fn_axioms = {}       # function name -> facts used only in queries that mention the function
        self._scans = {}
        self.pc = []              # current path condition
        self.decs = []            # the unforced decisions among them
        self.trails = []          # stack of decision trails
        self.sums = {}            # canonical key -> (FuncDecl, params, var, body)
        self.sumdecl = {}         # decl name -> same record
        self.counter = itertools.count()
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.weak = False         # an uninterpreted function without its facts is in play: refutations are not definite
        self.cache = {}
        self.binders = set()      # names of bound / skolem constants
        self.deadline = None
        self.nonneg_cache = {}
        self.assumptions = set()

    # ---------------------------------------------------------------- fresh
    def fresh(self, base='i', sort=None, binder=True):
        n = f"{base}!{next(self.counter)}"
        if binder:
            self.binders.add(n)
        if sort is None or sort == 'int':
            return z3.Int(n)
        if sort == 'bool':
            return z3.Bool(n)
        if sort == 'array':
            return z3.Array(n, z3.IntSort(), z3.IntSort())
        raise ValueError(sort)

    # ---------------------------------------------------------------- sums
    def sum(self, var, hi, e):
        """sum_{0 <= var < hi} e ; hi is known to be >= 0"""
        e = simp(e)
        if isinstance(e, bool):
            e = int(e)
        if is_zbool(e):
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(hi, int) and hi <= 0:
            return 0
        if isinstance(e, int):
            return simp(zi(e) * zi(hi)) if e else 0
        if isinstance(hi, int) and hi <= 4:
            return simp(z3.Sum([z3.substitute(e, (var, z3.IntVal(j))) for j in range(hi)]))
        terms = self._linear(e)
        out = z3.IntVal(0)
        for coef, atom in terms:
            if atom is None or not self._occurs(var, atom):
                a = coef if atom is None else coef * atom
                out = out + a * zi(hi)
            else:
                if z3.is_app(atom) and atom.decl().kind() == z3.Z3_OP_ITE:
                    c, a, b = atom.children()
                    if not self._occurs(var, c):
                        out = out + coef * z3.If(c, zi(self.sum(var, hi, a)), zi(self.sum(var, hi, b)))
                        continue
                    d = simp(a - b)
                    if isinstance(d, int) or not self._occurs(var, d):
                        out = out + coef * zi(self.sum(var, hi, b)) + coef * zi(d) * self._sumatom(var, hi, z3.If(c, z3.IntVal(1), z3.IntVal(0)))
                        continue
                out = out + coef * self._sumatom(var, hi, atom)
        return simp(out)

    def _occurs(self, var, e):
        return any(c.eq(var) for c in consts_of(e))

    def _linear(self, e):
        e = z3.simplify(e, som=True)
        out = []

        def go(x, c):
            if z3.is_int_value(x):
                out.append((c * x.as_long(), None))
            elif z3.is_add(x):
                for y in x.children():
                    go(y, c)
            elif z3.is_sub(x):
                ch = x.children()
                go(ch[0], c)
                for y in ch[1:]:
                    go(y, -c)
            elif z3.is_mul(x) and z3.is_int_value(x.children()[0]):
                ch = x.children()
                rest = ch[1] if len(ch) == 2 else z3.Product(*ch[1:])
                go(rest, c * ch[0].as_long())
            else:
                out.append((c, x))
        go(e, 1)
        return out

    def _sumatom(self, var, hi, atom):
        params = [c for c in consts_of(atom) if not c.eq(var) and c.decl().name() in self.binders]
        params.sort(key=lambda c: c.decl().name())
        # order params by first occurrence in the printed body so that alpha-equivalent bodies agree
        s = atom.sexpr()
        params.sort(key=lambda c: s.find(c.decl().name()))
        canon = [(var, z3.Int('$v'))]
        for j, p in enumerate(params):
            canon.append((p, z3.Const(f'$p{j}', p.sort())))
        body = z3.simplify(z3.substitute(atom, *canon))
        key = (body.sexpr(), tuple(str(p.sort()) for p in params))
        if key not in self.sums:
            name = f"SUM{len(self.sums)}"
            decl = z3.Function(name, *[p.sort() for p in params], z3.IntSort(), z3.IntSort())
            rec = (decl, [c[1] for c in canon[1:]], canon[0][1], body)
            self.sums[key] = rec
            self.sumdecl[name] = rec
        decl = self.sums[key][0]
        return decl(*params, zi(hi))

    def _sum_apps(self, exprs):
        apps = {}
        for e in exprs:
            if is_z(e):
                for x in self._scan(e)[1]:
                    apps[x.get_id()] = x
        return list(apps.values())

    def _scan(self, e):
        """(constants, closed sum applications, function names) of an expression, computed once"""
        key = e.get_id()
        hit = self._scans.get(key)
        if hit is not None:
            return hit
        consts, apps, names, seen = {}, {}, set(), set()
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                ch = x.children()
                d = x.decl()
                if not ch:
                    if d.kind() == z3.Z3_OP_UNINTERPRETED:
                        consts[i] = x
                elif d.kind() == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    names.add(n)
                    if n in self.sumdecl and not self._has_var(x):
                        apps[i] = x
                stack.extend(ch)
        hit = self._scans[key] = (list(consts.values()), list(apps.values()), names, e)
        return hit

    def _has_var(self, e):
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x):
                return True
            if z3.is_quantifier(x):
                continue
            stack.extend(x.children())
        return False

    def _nonneg(self, name):
        """body >= 0 for every argument, from the background axioms alone"""
        if name not in self.nonneg_cache:
            self.nonneg_cache[name] = False  # cycle guard
            decl, params, var, body = self.sumdecl[name]
            if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(c) and c.as_long() >= 0 for c in body.children()[1:]):
                self.nonneg_cache[name] = True
            else:
                lem = []
                for a in self._sum_apps([body]):
                    if self._nonneg(a.decl().name()):
                        lem.append(a >= 0)
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(*self.axioms, *lem, body < 0)
                self.nonneg_cache[name] = s.check() == z3.unsat
        return self.nonneg_cache[name]

    def sum_lemmas(self, exprs, idx_terms=()):
        lem = []
        apps = self._sum_apps(exprs)
        done = set()
        for rounds in range(2):
            new = [a for a in apps if a.get_id() not in done]
            for a in new:
                done.add(a.get_id())
                name = a.decl().name()
                decl, params, var, body = self.sumdecl[name]
                args = a.children()
                ps, hi = args[:-1], args[-1]
                lem.append(z3.Implies(hi <= 0, a == 0))
                inst = lambda t: z3.substitute(body, *([(p, q) for p, q in zip(params, ps)] + [(var, t)]))
                nn = self._nonneg(name)
                if nn:
                    lem.append(a >= 0)
                if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
                    ch = body.children()
                    if z3.is_int_value(ch[1]) and ch[1].as_long() == 1 and z3.is_int_value(ch[2]) and ch[2].as_long() == 0:
                        lem.append(z3.Implies(hi >= 0, a <= hi))
                        # a == 0 iff the predicate holds nowhere
                        j = z3.Int('j$')
                        c = z3.substitute(ch[0], *([(p, q) for p, q in zip(params, ps)] + [(var, j)]))
                        lem.append((a == 0) == z3.Not(z3.Exists([j], z3.And(0 <= j, j < hi, c))))
                for b in apps:
                    if b.decl().eq(a.decl()) and not b.eq(a) and all(x.eq(y) for x, y in zip(ps, b.children()[:-1])):
                        h2 = b.children()[-1]
                        lem.append(z3.Implies(z3.And(h2 == hi + 1, hi >= 0), b == a + inst(hi)))
                        if nn:
                            lem.append(z3.Implies(z3.And(hi <= h2), a <= b))
                            lem.append(z3.Implies(z3.And(hi < h2, hi >= 0), a + inst(hi) <= b))
                if nn:
                    for t in idx_terms:
                        lem.append(z3.Implies(z3.And(0 <= t, t < hi), inst(t) <= a))
                # one unfolding step downwards for literal his
                if z3.is_int_value(hi) and 0 < hi.as_long() <= 6:
                    lem.append(a == z3.Sum([inst(z3.IntVal(j)) for j in range(hi.as_long())]))
                # the single element case
                lem.append(z3.Implies(hi == 1, a == inst(z3.IntVal(0))))
            apps = self._sum_apps(list(exprs) + lem)
            if len(apps) > 200:
                break
        lem += self.disjoint_counts(apps)
        return lem

    def disjoint_counts(self, apps):
        """counts of mutually exclusive conditions over the same range add up to at most its length"""
        groups = {}
        for a in apps:
            body = self.sumdecl[a.decl().name()][3]
            if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and [str(c) for c in body.children()[1:]] == ['1', '0']:
                groups.setdefault(a.children()[-1].get_id(), []).append(a)
        out = []
        for g in groups.values():
            if not 2 <= len(g) <= 12:
                continue
            key = ('disjoint', tuple(a.get_id() for a in g))
            if key not in self.cache:
                t = self.fresh('ext')
                conds = []
                for a in g:
                    _, params, var, body = self.sumdecl[a.decl().name()]
                    conds.append(z3.substitute(body.children()[0], *([(p, q) for p, q in zip(params, a.children()[:-1])] + [(var, t)])))
                s = z3.Solver()
                s.set('timeout', 1000)
                s.add(*self.axioms, z3.Or(*[z3.And(c, d) for c, d in itertools.combinations(conds, 2)]))
                self.cache[key] = (s.check() == z3.unsat, g)
            if self.cache[key][0]:
                hi = g[0].children()[-1]
                out.append(z3.Implies(hi >= 0, z3.Sum(g) <= hi))
        return out

    def sum_pair_lemmas(self, exprs):
        """extensionality: sums of pointwise equal bodies over the same range are equal (checked by z3)"""
        apps = self._sum_apps(exprs)
        lem = []
        for a, b in itertools.combinations(apps, 2):
            if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                continue
            ra, rb = self.sumdecl[a.decl().name()], self.sumdecl[b.decl().name()]
            t = self.fresh('ext')
            ia = z3.substitute(ra[3], *([(p, q) for p, q in zip(ra[1], a.children()[:-1])] + [(ra[2], t)]))
            ib = z3.substitute(rb[3], *([(p, q) for p, q in zip(rb[1], b.children()[:-1])] + [(rb[2], t)]))
            ha, hb = a.children()[-1], b.children()[-1]
            hyp = [t >= 0, t < ha]
            if self._check(self.pc + hyp, z3.And(ha == hb, ia == ib) if not ha.eq(hb) else ia == ib, ms=1500):
                lem.append(z3.Implies(ha == hb, a == b))
        return lem

    # ---------------------------------------------------------------- z3
    def _check(self, pc, goal, ms=None, model=False):
        """True iff pc |= goal"""
        if goal is True:
            return True
        goal = zb(goal)
        pc = [zb(p) for p in pc]
        key = (tuple(p.get_id() for p in pc), goal.get_id(), len(self.axioms), sum(map(len, self.fn_axioms.values())))
        hit = self.cache.get(key)
        if hit is not None and not model:
            return hit[0]
        t0 = time.time()
        cs = {}
        for e in pc + [goal]:
            for c in self._scan(e)[0]:
                cs[c.get_id()] = c
        idx = [c for c in cs.values() if is_zint(c) and c.decl().name() in self.binders][:12]
        lem = self.sum_lemmas(pc + [goal], idx)
        s = z3.Solver()
        s.set('timeout', ms or QUERY_MS)
        s.set('random_seed', 1)
        s.add(*self.axioms)
        for n in self.mentioned(pc + [goal]):
            s.add(*self.fn_axioms[n])
        s.add(*pc)
        s.add(*lem)
        s.add(z3.Not(goal))
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t0
        ok = r == z3.unsat
        # keep references alive: ids are reused otherwise
        self.cache[key] = (ok, pc, goal)
        self.last_model = s.model() if (model and r == z3.sat) else None
        self.last_result = str(r)
        return ok

    def mentioned(self, exprs):
        if not self.fn_axioms:
            return ()
        out = set()
        for e in exprs:
            out |= self._scan(e)[2]
        return sorted(out & set(self.fn_axioms))

    def prove(self, goal, extra=()):
        goal = simp(goal)
        if goal is True:
            return True
        pc = self.pc + list(extra)
        if goal is False:
            return self._check(pc, z3.BoolVal(False))
        if self._check(pc, goal):
            return True
        lem = self.sum_pair_lemmas(pc + [goal])
        if lem and self._check(pc + lem, goal):
            return True
        return False

    def oblige(self, name, goal, extra=()):
        t0 = time.time()
        ok = self.prove(goal, extra)
        detail = ''
        if not ok:
            detail = f"goal: {goal}\nunder: {self.pc}"[:3000]
        self.obligations.append(Obligation(name, ok, (time.time() - t0) * 1000, detail))
        return ok

    def feasible(self):
        return not self._check(self.pc, z3.BoolVal(False), ms=3000)

    # ---------------------------------------------------------------- decisions
    def decide(self, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for this function exhausted')
        if not self.trails:
            raise Unsupported('decision outside exploration')
        tr = self.trails[-1]
        if tr.pos < len(tr.prefix):
            d, forced = tr.prefix[tr.pos]
        else:
            ids = {p.get_id() for p in self.pc if is_z(p)}
            neg = simp(z3.Not(cond))
            if cond.get_id() in ids:
                d, forced = True, True
            elif is_z(neg) and neg.get_id() in ids:
                d, forced = False, True
            elif self._check(self.pc, cond, ms=3000):
                d, forced = True, True
            elif self._check(self.pc, z3.Not(cond), ms=3000):
                d, forced = False, True
            else:
                d, forced = True, False
            tr.prefix.append((d, forced))
        tr.pos += 1
        c = cond if d else simp(z3.Not(cond))
        self.pc.append(c)
        if not forced:
            self.decs.append(c)
        return d

    def assume(self, cond):
        cond = simp(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.pc.append(cond)


class Trail:
    def __init__(self, prefix):
        self.prefix, self.pos = list(prefix), 0


def explore(P, thunk, max_paths=4000):
    """run thunk under every feasible decision sequence; yields (path facts, outcome)"""
    out = []
    work = [[]]
    base, dbase = len(P.pc), len(P.decs)
    n = 0
    while work:
        pre = work.pop()
        n += 1
        if n > max_paths:
            raise Unsupported('too many paths')
        tr = Trail(pre)
        P.trails.append(tr)
        try:
            try:
                res = thunk()
                out.append((list(P.decs[dbase:]), res))
            except PathAbort:
                pass
        finally:
            P.trails.pop()
            del P.pc[base:]
            del P.decs[dbase:]
        for j in range(len(pre), len(tr.prefix)):
            d, forced = tr.prefix[j]
            if not forced:
                work.append(tr.prefix[:j] + [(not d, False)])
    return out
