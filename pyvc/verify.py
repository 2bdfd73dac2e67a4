"""Contracts, symbolic inputs, refinement proofs and counterexample replay."""
import copy
import itertools
import time
import traceback
import z3

from .values import *
from .prover import Prover, PathAbort, explore, Obligation
from .interp import PyRaise, FuncV, _Return
from .evalr import Evaluator


# ------------------------------- input types -------------------------------- #
class T:
    pass


class TInt(T):
    def __init__(self, lo=0, hi=None):
        self.lo, self.hi = lo, hi

    def build(self, I, name, idx):
        built = I.P.cache.setdefault(('built',), set())
        if (name, len(idx)) in built:
            return z3.Function(name, *[z3.IntSort()] * len(idx), z3.IntSort())(*idx) if idx else z3.Int(name)
        built.add((name, len(idx)))
        if not idx:
            x = z3.Int(name)
            if self.lo is not None:
                I.P.axioms.append(x >= self.lo)
            if self.hi is not None:
                I.P.axioms.append(x <= self.hi)
            return x
        f = z3.Function(name, *[z3.IntSort()] * len(idx), z3.IntSort())
        vs = [z3.Int(f'ax{j}') for j in range(len(idx))]
        c = []
        if self.lo is not None:
            c.append(f(*vs) >= self.lo)
        if self.hi is not None:
            c.append(f(*vs) <= self.hi)
        if c:
            I.P.axioms.append(z3.ForAll(vs, z3.And(*c), patterns=[f(*vs)]))
        return f(*idx)


class TBool(T):
    def build(self, I, name, idx):
        if not idx:
            return z3.Bool(name)
        return z3.Function(name, *[z3.IntSort()] * len(idx), z3.BoolSort())(*idx)


class TStr(T):
    """an arbitrary string"""

    def build(self, I, name, idx):
        return SStr([OStr(name, list(idx))])


class TConst(T):
    def __init__(self, v):
        self.v = v

    def build(self, I, name, idx):
        return I.lift(self.v)


class TRec(T):
    """namedtuple with typed fields; a field may be a function of the record built so far (dict)"""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def build(self, I, name, idx):
        d = {}
        later = []
        for f in self.cls._fields:
            t = self.fields[f]
            if isinstance(t, T):
                d[f] = t.build(I, f'{name}.{f}', idx)
            else:
                later.append((f, t))
        for f, t in later:
            d[f] = t(d)
        return Rec(self.cls, [d[f] for f in self.cls._fields])


class TAlt(T):
    """one of two record classes, told apart by a condition on the fields"""

    def __init__(self, cls_true, cls_false, cond, **fields):
        self.ct, self.cf, self.cond, self.fields = cls_true, cls_false, cond, fields

    def build(self, I, name, idx):
        d = {f: self.fields[f].build(I, f'{name}.{f}', idx) for f in self.ct._fields}
        c = simp(self.cond(d))
        v = [d[f] for f in self.ct._fields]
        return Choice([(c, Rec(self.ct, v)), (mknot(c), Rec(self.cf, v))])


class TList(T):
    def __init__(self, elem, minlen=0, length=None, kind='list'):
        self.elem, self.minlen, self.length, self.kind = elem, minlen, length, kind

    def build(self, I, name, idx):
        if self.length is not None:
            n = self.length
        else:
            n = TInt(self.minlen).build(I, f'{name}.len', idx)
            I.canon[f'{name}.len'] = (self, name)
        v = I.P.fresh('in')
        e = self.elem.build(I, f'{name}[]', list(idx) + [v])
        seq = (Comp(v, n, True, [Elem(e)]),)
        if self.kind == 'tuple':
            return STup(seq)
        if idx:
            return FList(seq) if self.kind == 'list' else FSet(seq)
        return I.alloc(self.kind, seq)


class TFixed(T):
    """list/tuple of fixed length with individual types"""

    def __init__(self, elems, kind='list'):
        self.elems, self.kind = elems, kind

    def build(self, I, name, idx):
        vals = [t.build(I, f'{name}[{j}]', idx) for j, t in enumerate(self.elems)]
        if self.kind == 'tuple':
            return tuple(vals)
        seq = tuple(Elem(v) for v in vals)
        return FList(seq) if idx else I.new_list(seq)


class TDict(T):
    def __init__(self, items):
        self.items = items

    def build(self, I, name, idx):
        return I.alloc('dict', tuple((k, t.build(I, f'{name}[{k}]', idx)) for k, t in self.items))


class TMap(T):
    def build(self, I, name, idx):
        return MapV(name)


# ------------------------------- contracts ---------------------------------- #
class Contract:
    """`spec(*args)` gives the result (and performs the side effects) the function must have.

    params:   list of T, one per positional parameter
    requires: predicate on the arguments, or None
    cases:    generator of concrete argument tuples for replay search / bounded stand-in
    """

    def __init__(self, module, func, spec, params=None, requires=None, cases=None, view=None, prove=True, raises=False,
                 opaque=None, lemmas=(), doc='', budget=60, frame=True, variants=None, maxlen=None, name=None, norm=None, modular=True, abstract=None, inline=(), observe=None):
        self.modular = modular
        self.abstract, self.inline, self.observe = dict(abstract or {}), set(inline), observe
        self.module, self.func, self.spec = module, func, spec
        self.params, self.requires, self.cases = params, requires, cases
        self.view, self.prove, self.raises, self.opaque = view, prove, raises, opaque
        self.lemmas, self.doc, self.budget, self.frame = lemmas, doc, budget, frame
        self.variants = variants
        self.norm = norm
        self.maxlen = maxlen
        self.name = name or f'{module}.{func}'

    @property
    def key(self):
        return (self.module, self.func)


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'      # proved | failed | unsupported
        self.obligations = []
        self.detail = ''
        self.failed = []            # [(obligation name, detail, definite)]
        self.inputs = []            # concretised counter-models
        self.solver_time = 0.0
        self.queries = 0
        self.used = set()
        self.used_contracts = set()
        self.assumptions = set()
        self.paths = 0
        self.wall = 0.0


class Comparer:
    def __init__(self, I, label):
        self.I, self.P, self.label = I, I.P, label
        self.failed = []
        self.models = []
        self.extra_facts = []
        self.loose = 0      # inside sequences paired although written with different ranges or guards

    # -- leaf obligations
    def ob(self, name, goal):
        P = self.P
        ok = P.oblige(f'{self.label}: {name}', goal)
        if not ok:
            P._check(P.pc, simp(goal) if not isinstance(goal, bool) else goal, model=True)
            definite = P.last_result == 'sat' and not self.loose and not P.weak
            self.failed.append((name, P.obligations[-1].detail, definite))
            if P.last_model is not None:
                self.models.append(P.last_model)
        return ok

    def structural(self, name, detail='', definite=False):
        """reached a shape mismatch: fine only if this point is unreachable"""
        P = self.P
        if P._check(P.pc, z3.BoolVal(False)):
            return True
        P.obligations.append(Obligation(f'{self.label}: {name}', False, 0.0, str(detail)[:2000]))
        P._check(P.pc, z3.BoolVal(False), model=True)
        if P.last_model is not None:
            self.models.append(P.last_model)
        self.failed.append((name, str(detail)[:2000], definite and not self.loose))
        return False

    def split(self, thunk):
        explore(self.P, thunk, 600)

    # -- values
    def cmp(self, a, b, where):
        I = self.I
        if isinstance(a, Choice) or isinstance(b, Choice):
            if isinstance(a, Choice) and isinstance(b, Choice) and veq(a, b):
                self.P.obligations.append(Obligation(f'{self.label}: {where} (syntactic)', True, 0.0))
                return
            self.split(lambda: self.cmp(I.force(a), I.force(b), where))
            return
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if is_bool(a) != is_bool(b):
                # True == 1 in Python; accept the numeric view
                self.ob(where, simp(zi(a) == zi(b)))
            elif is_bool(a):
                self.ob(where, simp(zb(a) == zb(b)))
            else:
                self.ob(where, simp(zi(a) == zi(b)))
            return
        if is_str(a) and is_str(b):
            self.split(lambda: self.cmp_str(a, b, where))
            return
        if a is None or b is None or isinstance(a, float) or isinstance(b, float):
            if a == b:
                self.P.obligations.append(Obligation(f'{self.label}: {where}', True, 0.0))
            else:
                self.structural(where, f'{a!r} vs {b!r}', True)
            return
        ka, kb = I._kind(a), I._kind(b)
        if ka != kb:
            # a callable may be given in several forms
            self.structural(where, f'{ka} vs {kb}', not any(callable(x) or type(x).__name__ in ('FuncV', 'BoundV', 'MethodV') for x in (a, b)))
            return
        if isinstance(a, Rec) or isinstance(b, Rec):
            ca, cb = getattr(a, 'cls', tuple), getattr(b, 'cls', tuple)
            if ca is not cb:
                self.structural(where, f'{ca} vs {cb}', True)
                return
            if len(I.seq_of(a)) != len(I.seq_of(b)):
                self.structural(where, 'arity', True)
                return
            for f, x, y in zip(a.cls._fields, a.vals, b.vals):
                self.cmp(x, y, f'{where}.{f}')
            return
        if ka in ('list', 'tuple', 'set'):
            self.cmp_seq(I.seq_of(a), I.seq_of(b), where)
            return
        if ka == 'dict':
            da, db = I._items(a), I._items(b)
            if [k for k, _ in da] != [k for k, _ in db]:
                self.structural(where, f'keys {[k for k, _ in da]} vs {[k for k, _ in db]}', True)
                return
            for (k, x), (_, y) in zip(da, db):
                self.cmp(x, y, f'{where}[{k!r}]')
            return
        if a is b or veq(a, b) or (type(a).__name__ == 'FuncV' and a == b):
            self.P.obligations.append(Obligation(f'{self.label}: {where}', True, 0.0))
            return
        self.structural(where, f'{a!r} vs {b!r}')

    # -- strings
    def cmp_str(self, a, b, where):
        pa = [x for x in ([a] if isinstance(a, str) else a.pieces) if not (isinstance(x, str) and x == '')]
        pb = [x for x in ([b] if isinstance(b, str) else b.pieces) if not (isinstance(x, str) and x == '')]
        P = self.P
        n = 0
        while pa or pb:
            n += 1
            if n > 200:
                raise Unsupported('string comparison')
            if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
                x, y = pa[0], pb[0]
                m = min(len(x), len(y))
                if x[:m] != y[:m]:
                    self.structural(where, f'string mismatch {x!r} vs {y!r}', True)
                    return
                pa[0], pb[0] = x[m:], y[m:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
                continue
            if pa and pb and type(pa[0]) is type(pb[0]):
                x, y = pa[0], pb[0]
                if isinstance(x, IntP):
                    if not self.ob(where, simp(zi(x.x) == zi(y.x))):
                        return
                    pa.pop(0), pb.pop(0)
                    continue
                if isinstance(x, SliceP) and x.const == y.const:
                    same = z3.And(zi(x.lo) == zi(y.lo), zi(x.hi) == zi(y.hi))
                    both_empty = z3.And(zi(x.hi) <= zi(x.lo), zi(y.hi) <= zi(y.lo))
                    if self.P.prove(z3.Or(same, both_empty)):
                        P.obligations.append(Obligation(f'{self.label}: {where} label slice', True, 0.0))
                        pa.pop(0), pb.pop(0)
                        continue
                    # one may be a prefix of the other when slices are split differently
                    if P.decide(zi(x.hi) <= zi(x.lo)):
                        pa.pop(0)
                        continue
                    if P.decide(zi(y.hi) <= zi(y.lo)):
                        pb.pop(0)
                        continue
                    if not self.ob(where + ' slice start', simp(zi(x.lo) == zi(y.lo))):
                        return
                    if P.decide(zi(x.hi) <= zi(y.hi)):
                        pb[0] = SliceP(y.const, x.hi, y.hi)
                        pa.pop(0)
                    else:
                        pa[0] = SliceP(x.const, y.hi, x.hi)
                        pb.pop(0)
                    continue
                if isinstance(x, RepP) and x.s == y.s:
                    if P.decide(zi(x.n) <= zi(y.n)):
                        pb[0] = RepP(y.s, simp(zi(y.n) - zi(x.n)))
                        pa.pop(0)
                        if isinstance(pb[0].n, int) and pb[0].n == 0:
                            pb.pop(0)
                    else:
                        pa[0] = RepP(x.s, simp(zi(x.n) - zi(y.n)))
                        pb.pop(0)
                    continue
                if isinstance(x, JoinP):
                    self.cmp(x.sep, y.sep, where + ' join separator')
                    self.cmp_seq(x.seq, y.seq, where + ' join')
                    pa.pop(0), pb.pop(0)
                    continue
                if isinstance(x, OStr) and x.fn == y.fn and len(x.args) == len(y.args):
                    for p, q in zip(x.args, y.args):
                        self.cmp(p, q, where + ' ' + x.fn)
                    pa.pop(0), pb.pop(0)
                    continue
            # differing kinds: a possibly empty piece may vanish
            done = False
            for side in (pa, pb):
                if side and isinstance(side[0], SliceP):
                    if P.decide(z3.Or(zi(side[0].hi) <= zi(side[0].lo), zi(side[0].lo) >= len(side[0].const))):
                        side.pop(0)
                        done = True
                        break
                elif side and isinstance(side[0], RepP):
                    if P.decide(zi(side[0].n) <= 0):
                        side.pop(0)
                        done = True
                        break
                elif side and isinstance(side[0], JoinP):
                    if P.decide(self.I.nonempty(side[0].seq)) is False:
                        side.pop(0)
                        done = True
                        break
            if done:
                continue
            # non-empty rep against literal
            for s1, s2 in ((pa, pb), (pb, pa)):
                if s1 and s2 and isinstance(s1[0], RepP) and isinstance(s2[0], str) and s2[0].startswith(s1[0].s):
                    s2[0] = s2[0][len(s1[0].s):]
                    if not s2[0]:
                        s2.pop(0)
                    s1[0] = RepP(s1[0].s, simp(zi(s1[0].n) - 1))
                    done = True
                    break
            if done:
                continue
            self.structural(where, f'{pa!r} vs {pb!r}', True)
            return
        P.obligations.append(Obligation(f'{self.label}: {where} (text)', True, 0.0))

    # -- sequences
    def cmp_seq(self, A, B, where):
        if seqeq(A, B):
            self.P.obligations.append(Obligation(f'{self.label}: {where} (syntactic)', True, 0.0))
            return
        self.split(lambda: self._cmp_seq(A, B, where))

    def norm(self, seq):
        """decide element guards, unroll known lengths"""
        out = []
        for s in seq:
            if isinstance(s, Elem):
                if s.guard is True or self.P.decide(s.guard):
                    out.append(Elem(s.val))
            elif isinstance(s, Comp) and isinstance(s.hi, int) and s.hi <= 3:
                for j in range(s.hi):
                    out.extend(self.norm(self.I._guarded(ssubst(s.body, [(s.var, j)]), subst(s.guard, [(s.var, j)]))))
            elif isinstance(s, (Comp, PComp)) and not s.body:
                continue
            else:
                out.append(s)
        return out

    def _cmp_seq(self, A, B, where):
        P, I = self.P, self.I
        A, B = self.norm(A), self.norm(B)
        while A or B:
            a, b = (A[0] if A else None), (B[0] if B else None)
            if isinstance(a, Elem) and isinstance(b, Elem):
                self.cmp(a.val, b.val, where + '[]')
                A.pop(0), B.pop(0)
                continue
            if isinstance(a, Comp) and isinstance(b, Comp):
                A.pop(0), B.pop(0)
                self.cmp_comp(a, b, where)
                continue
            if isinstance(a, PComp) and isinstance(b, PComp):
                A.pop(0), B.pop(0)
                self.cmp_pcomp(a, b, where)
                continue
            if isinstance(a, OSeq) and isinstance(b, OSeq) and a.fn == b.fn and len(a.args) == len(b.args):
                A.pop(0), B.pop(0)
                for x, y in zip(a.args, b.args):
                    self.cmp(x, y, f'{where} {a.fn}')
                continue
            # a segment that is certainly empty may be dropped
            for side in (A, B):
                if side and isinstance(side[0], (Comp, PComp)) and P.prove(mknot(I.nonempty((side[0],)))):
                    side.pop(0)
                    break
            else:
                # pin a symbolic length against explicit elements
                done = False
                for side, other in ((A, B), (B, A)):
                    if side and isinstance(side[0], Comp) and (not other or isinstance(other[0], Elem)):
                        s = side[0]
                        h = I.pin(zi(s.hi)) if is_z(s.hi) else s.hi
                        if isinstance(h, int):
                            side[0:1] = self.norm([Elem(e.val, e.guard) if isinstance(e, Elem) else e
                                                   for j in range(h)
                                                   for e in I._guarded(ssubst(s.body, [(s.var, j)]), subst(s.guard, [(s.var, j)]))])
                            done = True
                            break
                        # peel the first iteration
                        if P.decide(zi(s.hi) > 0):
                            first = self.norm(I._guarded(ssubst(s.body, [(s.var, 0)]), subst(s.guard, [(s.var, 0)])))
                            v = P.fresh('pl')
                            rest = Comp(v, simp(zi(s.hi) - 1), subst(s.guard, [(s.var, v + 1)]), ssubst(s.body, [(s.var, v + 1)]))
                            side[0:1] = first + [rest]
                            self.peels = getattr(self, 'peels', 0) + 1
                            if self.peels > 40:
                                raise Unsupported('sequence alignment')
                            done = True
                            break
                        else:
                            side.pop(0)
                            done = True
                            break
                if done:
                    continue
                kinds = (type(a).__name__, type(b).__name__)
                definite = all(k in ('Elem', 'NoneType') for k in kinds)
                self.structural(where, f'sequence shape {kinds}: {a!r} vs {b!r}', definite)
                return

    def cmp_comp(self, a, b, where):
        P, I = self.P, self.I
        v = P.fresh('cv')
        ga = mkand(simp(v < zi(a.hi)), subst(a.guard, [(a.var, v)]))
        gb = mkand(simp(v < zi(b.hi)), subst(b.guard, [(b.var, v)]))
        ba, bb = ssubst(a.body, [(a.var, v)]), ssubst(b.body, [(b.var, v)])

        def body():
            P.assume(v >= 0)
            self.loose = loose
            x, y = P.decide(ga), P.decide(gb)
            if x and y:
                self._cmp_seq(ba, bb, where)
            elif x or y:
                self.ob(where + ' (extra / missing elements)', mknot(I.nonempty(ba if x else bb)))
        before = self.loose
        loose = before if self._alike(a.hi, b.hi) and self._alike(ga, gb) else before + 1
        try:
            self.split(body)
        finally:
            self.loose = before

    @staticmethod
    def _alike(x, y):
        return x is y or veq(x, y)

    def cmp_pcomp(self, a, b, where):
        P, I = self.P, self.I
        if not self.ob(where + ' product arity', simp(zi(a.n) == zi(b.n))):
            return
        k = P.fresh('ck')

        def lens():
            P.assume(z3.And(k >= 0, k < zi(a.n)))
            self.ob(where + ' product factor size', simp(zi(subst(a.lens, [(a.k, k)])) == zi(subst(b.lens, [(b.k, k)]))))
        self.split(lens)
        q = P.fresh('cq', 'array')
        aa = PComp(q, a.n, a.k, a.lens, subst(a.guard, [(a.q, q)]), ssubst(a.body, [(a.q, q)]))
        bb = PComp(q, b.n, b.k, b.lens, subst(b.guard, [(b.q, q)]), ssubst(b.body, [(b.q, q)]))

        def body():
            self.loose = loose
            for f in I.binder_facts(aa) + I.binder_facts(bb):
                P.assume(f)
            x = aa.guard is True or P.decide(aa.guard)
            y = bb.guard is True or P.decide(bb.guard)
            if x and y:
                self._cmp_seq(aa.body, bb.body, where)
            elif x or y:
                self.ob(where + ' (extra / missing elements)', mknot(I.nonempty(aa.body if x else bb.body)))
        before = self.loose
        loose = before if self._alike(aa.guard, bb.guard) else before + 1
        try:
            self.split(body)
        finally:
            self.loose = before


# ------------------------------- concretisation ------------------------------ #
def concretise(v, model, heap, cap=40):
    ev = lambda e: model.eval(e, model_completion=True)

    def num(e):
        if not is_z(e):
            return e
        r = ev(e)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise ValueError('no value')

    def val(v, env):
        if is_z(v):
            return num(z3.substitute(v, *env) if env else v)
        if isinstance(v, Choice):
            for c, x in v.alts:
                if val(c, env) is True:
                    return val(x, env)
            return val(v.alts[-1][1], env)
        if isinstance(v, Rec):
            return v.cls(*[val(x, env) for x in v.vals])
        if isinstance(v, tuple):
            return tuple(val(x, env) for x in v)
        if isinstance(v, Ref):
            if v.kind == 'dict':
                return {k: val(x, env) for k, x in heap[v.id]}
            r = seq(heap[v.id], env)
            return r if v.kind == 'list' else set(r)
        if isinstance(v, FList):
            return seq(v.seq, env)
        if isinstance(v, STup):
            return tuple(seq(v.seq, env))
        if isinstance(v, FSet):
            return set(seq(v.seq, env))
        if isinstance(v, FuncV):
            return v.real
        if isinstance(v, MapV):
            return AnyMap()
        if isinstance(v, SStr):
            return ''.join(piece(p, env) for p in v.pieces)
        return v

    def piece(p, env):
        if isinstance(p, str):
            return p
        if isinstance(p, IntP):
            return str(val(p.x, env))
        if isinstance(p, SliceP):
            return p.const[val(p.lo, env):val(p.hi, env)]
        if isinstance(p, RepP):
            return p.s * val(p.n, env)
        if isinstance(p, JoinP):
            return val(p.sep, env).join(seq(p.seq, env))
        raise ValueError('piece')

    def seq(s, env):
        out = []
        for x in s:
            if isinstance(x, Elem):
                if x.guard is True or val(x.guard, env):
                    out.append(val(x.val, env))
            elif isinstance(x, Comp):
                n = val(x.hi, env)
                if n > cap:
                    raise ValueError('model too large')
                for j in range(n):
                    e2 = list(env) + [(x.var, z3.IntVal(j))]
                    if x.guard is True or val(x.guard, e2):
                        out.extend(seq(x.body, e2))
            else:
                raise ValueError('opaque')
        return out
    return val(v, [])


# ------------------------------- verification -------------------------------- #
def verify_function(contract, fn, contracts, roots, deadline=None, params=None, label=None):
    """prove fn == contract.spec for every input satisfying the precondition"""
    R = Result(label or contract.name)
    t0 = time.time()
    P = Prover()
    P.deadline = t0 + (deadline or contract.budget)
    cs = {k: v for k, v in contracts.items() if not (k == contract.key)}
    own = contracts.get(contract.key)
    I = Evaluator(P, roots, {k: v for k, v in contracts.items() if k not in contract.inline} if contract.inline else contracts)
    I.abstract = contract.abstract
    I.heap[0] = {}
    try:
        args = [t.build(I, f'a{j}', []) for j, t in enumerate(params or contract.params)]
        heap0 = dict(I.heap)
        f = I.lift(fn)
        if not isinstance(f, FuncV):
            raise Unsupported('no source for the function')

        state = {'feasible': False}

        def thunk():
            I.heap = dict(heap0)
            I.shared = set()
            if contract.requires is not None:
                rq = I.truth(I.run_spec(contract.requires, args))
                P.assume(rq)
                I.heap = dict(heap0)
            if not state['feasible']:
                # vacuity guard: the precondition must be satisfiable
                if P._check(P.pc, z3.BoolVal(False)):
                    raise PathAbort()
            start = dict(I.heap)
            try:
                r1 = ('ok', I.call_func(f, list(args), {}, top=True))
            except PyRaise as e:
                r1 = ('raise', e.name)
            h1 = I.heap
            I.heap = dict(start)
            I.shared = set()
            try:
                r2 = ('ok', I.run_spec(contract.spec, list(args)))
            except PyRaise as e:
                r2 = ('raise', e.name)
            h2 = I.heap
            state['feasible'] = True
            C = Comparer(I, contract.func)
            if r1[0] != r2[0]:
                C.structural('outcome', f'{r1} vs {r2}', True)
            elif r1[0] == 'raise':
                if r1[1] == r2[1] or contract.raises == 'any':
                    P.obligations.append(Obligation(f'{contract.func}: raises {r1[1]}', True, 0.0))
                else:
                    C.structural('exception class', f'{r1[1]} vs {r2[1]}', True)
            else:
                state['returned'] = True
                merged = dict(h2)
                # compare across two heaps: freeze each in its own heap first
                I.heap = h1
                va = I.freeze(r1[1])
                fa = [I.freeze(a) for a in args]
                I.heap = h2
                vb = I.freeze(r2[1])
                fb = [I.freeze(a) for a in args]
                if contract.view is not None:
                    va, vb = I.run_spec(contract.view, [va]), I.run_spec(contract.view, [vb])
                C.cmp(va, vb, 'result')
                if contract.frame:
                    for j, (x, y) in enumerate(zip(fa, fb)):
                        if isinstance(x, (FList, FSet, FDict)):
                            C.cmp(x, y, f'argument {j} after the call')
                fl1, fl2 = h1[0], h2[0]
                if set(fl1) != set(fl2):
                    C.structural('files written', f'{sorted(fl1)} vs {sorted(fl2)}', True)
                else:
                    for k in fl1:
                        C.cmp(fl1[k], fl2[k], f'file {k}')
            R.failed.extend(C.failed)
            for m in C.models[:3]:
                try:
                    R.inputs.append([concretise(a, m, heap0) for a in args])
                except Exception:
                    pass
            return True
        outs = explore(P, thunk, 3000)
        R.paths = len(outs)
        if not state['feasible'] or not P.obligations or (contract.abstract and not state.get('returned') and not R.failed):
            R.status, R.detail = 'unsupported', 'vacuous: no feasible path / no obligation generated'
        elif R.failed or not all(o.ok for o in P.obligations):
            R.status = 'failed'
    except Unsupported as e:
        R.status, R.detail = 'unsupported', str(e)[:500]
    except RecursionError:
        R.status, R.detail = 'unsupported', 'recursion limit'
    except (_Return, PyRaise, PathAbort) as e:
        R.status, R.detail = 'unsupported', f'engine: {e!r}'
    except z3.Z3Exception as e:
        R.status, R.detail = 'unsupported', f'z3: {e}'[:300]
    except Exception as e:
        R.status, R.detail = 'unsupported', 'engine error: ' + traceback.format_exc()[-1500:]
    if R.status == 'unsupported' and R.failed:
        R.status = 'failed'
    if contract.abstract and {k for m, k in I.abstract_calls if m} != {k for m, k in I.abstract_calls if not m}:
        # the code no longer goes through the callees the contract is stated in: nothing is refuted
        R.failed = [(a, b, False) for a, b, _ in R.failed]
    R.obligations = P.obligations
    R.solver_time, R.queries = P.solver_time, P.queries
    R.used, R.used_contracts = I.used, I.used_contracts
    R.assumptions = P.assumptions
    R.wall = time.time() - t0
    return R
