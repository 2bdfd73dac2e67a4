"""Symbolic evaluator for the real functions' Python AST.

Executes a function over symbolic inputs, path by path; loops over symbolic
sequences are summarised by inferred inductive invariants (additive counters as
prefix sums, appended lists as comprehensions, flags as bounded quantifiers,
early exits as first-index skolems).  Every construct outside the subset raises
Unsupported: nothing is silently approximated.
"""
import ast
import builtins
import enum
import functools
import itertools
import math
import os
import types
import z3

from .values import *
from .prover import Prover, PathAbort, explore

NOOP_OBJECTS = {'log', 'header_log', 'subheader_log'}
NOOP_CALLS = {'old_print_wrapper', 'print'}


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PyRaise(Exception):
    """a Python exception raised by the program under verification"""

    def __init__(self, name, msg=None):
        self.name, self.msg = name, msg


class FuncV:
    def __init__(self, node, glob, module, qualname, closure=None, defaults=(), kwdefaults=None, real=None):
        self.node, self.glob, self.module, self.qualname = node, glob, module, qualname
        self.closure = closure
        self.defaults, self.kwdefaults, self.real = defaults, kwdefaults or {}, real

    def __repr__(self):
        return f"<func {self.module}.{self.qualname}>"

    def __eq__(self, o):
        return self is o or (isinstance(o, FuncV) and self.real is not None and self.real is o.real)

    def __hash__(self):
        return hash(self.qualname)


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class MethodV:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExcV:
    def __init__(self, name, args):
        self.name, self.args = name, args


class CtxFile:
    """abstract file handle"""

    def __init__(self, path, mode):
        self.path, self.mode = path, mode


@functools.lru_cache(None)
def _parse(path):
    with open(path, encoding='utf8') as f:
        return ast.parse(f.read(), path)


@functools.lru_cache(None)
def _index(path):
    idx = {}
    for node in ast.walk(_parse(path)):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            line = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                line = min(d.lineno for d in node.decorator_list)
            idx.setdefault((line, getattr(node, 'name', '<lambda>')), []).append(node)
    return idx


def _find(o):
    """the AST node of function object o; ambiguity (several lambdas on a line) is resolved by column"""
    c = o.__code__
    nodes = _index(c.co_filename).get((c.co_firstlineno, o.__name__), [])
    if len(nodes) <= 1:
        return nodes[0] if nodes else None
    pos = [p for p in c.co_positions() if p[0] is not None and p[2] is not None and (p[0], p[2]) != (c.co_firstlineno, 0)]
    hits = [n for n in nodes if isinstance(n, ast.Lambda) and pos and all(
        (n.body.lineno, n.body.col_offset) <= (a, b) and (d is None or (c2, d) <= (n.body.end_lineno, n.body.end_col_offset)) for a, c2, b, d in pos)]
    return hits[0] if len(hits) == 1 else None


def log_only(stmts):
    """statements that only write to the log / stdout"""
    for s in stmts:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and is_log_call(s.value):
            continue
        if isinstance(s, ast.For) and log_only(s.body) and log_only(s.orelse) and harmless(s.iter):
            continue
        if isinstance(s, ast.If) and log_only(s.body) and log_only(s.orelse) and harmless(s.test):
            continue
        return False
    return True


def is_log_call(e):
    fn = e.func
    if not (isinstance(fn, ast.Name) and fn.id in NOOP_CALLS or
            isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in NOOP_OBJECTS):
        return False
    return all(harmless(a) for a in list(e.args) + [k.value for k in e.keywords])


CHANGING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem', 'write'}


def harmless(e):
    """evaluating e cannot change program state"""
    for n in ast.walk(e):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGING:
                return False
            if isinstance(n.func, ast.Name) and n.func.id in ('next', 'setattr', 'exec', 'eval', 'exit'):
                return False
    return True


class Interp:
    def __init__(self, P, roots, contracts=None):
        self.P = P
        self.heap = {}
        self.ids = itertools.count(1)
        self.roots = tuple(os.path.realpath(r) for r in roots)
        self.contracts = contracts or {}
        self.global_refs = {}
        self.ghost = None
        self.depth = 0
        self.used = set()           # functions whose source was executed
        self.used_contracts = set()
        self.shared = set()
        self.files = {}
        self.allow_raise = False
        self.spec_mode = False
        self.steps = 0
        self.abstract = {}          # functions known only as functions of their arguments
        self.abstract_calls = set()
        self.canon = {}             # length symbol of an arbitrary list -> its type

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, content):
        i = next(self.ids)
        self.heap[i] = content
        return Ref(i, kind)

    def new_list(self, seq=()):
        return self.alloc('list', tuple(seq))

    def lget(self, fid, name):
        return self.heap[fid][name]

    def lset(self, fid, name, v):
        d = dict(self.heap[fid])
        d[name] = v
        self.heap[fid] = d

    def store(self, ref, content):
        if ref.id in self.shared:
            raise Unsupported('mutation of a list captured by an earlier iteration')
        if any(r.id == ref.id and o is not self.ghost for r, _, o in self.global_refs.values()):
            raise Unsupported('changes an object of the module: the result may depend on earlier calls')
        self.heap[ref.id] = content

    # ------------------------------------------------------------------ lifting of real objects
    def in_roots(self, path):
        return path and os.path.realpath(path).startswith(self.roots)

    def lift(self, o):
        if o is None or isinstance(o, (bool, int, str, float)) or is_z(o):
            if isinstance(o, enum.Enum):
                return o
            return o
        if isinstance(o, (FuncV, BoundV, MethodV, Ref, Rec, SStr, Choice, FList, STup, FSet, FDict, Poison)):
            return o
        if isinstance(o, tuple) and hasattr(o, '_fields'):
            return Rec(type(o), [self.lift(x) for x in o])
        if isinstance(o, tuple):
            return tuple(self.lift(x) for x in o)
        if isinstance(o, (list, dict, set, frozenset)):
            key = id(o)
            if key in self.global_refs:
                ref, content, _ = self.global_refs[key]
                if ref.id not in self.heap:
                    self.heap[ref.id] = content
                return ref
            if isinstance(o, list):
                ref = self.new_list([Elem(self.lift(x)) for x in o])
            elif isinstance(o, dict):
                ref = self.alloc('dict', tuple((k, self.lift(x)) for k, x in o.items()))
            else:
                ref = self.alloc('set', tuple(Elem(self.lift(x)) for x in sorted(o, key=repr)))
            self.global_refs[key] = (ref, self.heap[ref.id], o)
            return ref
        if isinstance(o, types.FunctionType):
            return self.func_of(o)
        if isinstance(o, types.MethodType):
            return BoundV(self.lift(o.__func__), o.__self__)
        return o   # classes, modules, builtins, enum members: used by identity

    def func_of(self, o):
        path = o.__code__.co_filename
        if not self.in_roots(path):
            return o
        node = _find(o)
        if node is None:
            raise Unsupported(f'no source for {o!r}')
        return FuncV(node, o.__globals__, o.__module__, o.__qualname__,
                     defaults=[self.lift(d) for d in (o.__defaults__ or ())],
                     kwdefaults={k: self.lift(v) for k, v in (o.__kwdefaults__ or {}).items()}, real=o)

    # ------------------------------------------------------------------ helpers on sequences
    def seq_of(self, v):
        """sequence contents of an iterable value"""
        v = self.force(v)
        if isinstance(v, Ref):
            if v.kind in ('list', 'set'):
                return self.heap[v.id]
            if v.kind == 'dict':
                return tuple(Elem(k) for k, _ in self.heap[v.id])
        if isinstance(v, (FList, STup, FSet)):
            return v.seq
        if isinstance(v, FDict):
            return tuple(Elem(k) for k, _ in v.items)
        if isinstance(v, tuple):
            return tuple(Elem(x) for x in v)
        if isinstance(v, Rec):
            return tuple(Elem(x) for x in v.vals)
        if isinstance(v, str):
            return tuple(Elem(c) for c in v)
        if isinstance(v, range):
            return tuple(Elem(i) for i in v)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return tuple(Elem(m) for m in v)
        if isinstance(v, (list, set, dict, frozenset)):
            return self.seq_of(self.lift(v))
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], RepP) and len(v.pieces[0].s) == 1:
            p = v.pieces[0]
            i = self.P.fresh('c')
            return (Comp(i, p.n, True, [Elem(p.s)]),)
        raise Unsupported(f'iteration over {v!r}')

    def is_concrete_seq(self, seq):
        return all(isinstance(s, Elem) and s.guard is True for s in seq)

    def concrete_elems(self, v):
        """list of values when the sequence has a known length, deciding guards if needed"""
        seq = self.seq_of(v)
        out = []
        for s in seq:
            if not isinstance(s, Elem):
                if isinstance(s, Comp):
                    h = simp(s.hi)
                    if not isinstance(h, int):
                        h = self.pin(h)
                    if isinstance(h, int) and h <= 64:
                        for j in range(h):
                            out.extend(self.concrete_elems(STup(self._guarded(ssubst(s.body, [(s.var, j)]), subst(s.guard, [(s.var, j)])))))
                        continue
                raise Unsupported('sequence of symbolic length where a concrete length is needed')
            if s.guard is True or self.P.decide(s.guard):
                out.append(s.val)
        return out

    def pin(self, e):
        """if the path condition forces e to one small value, return it"""
        for j in range(0, 9):
            if self.P._check(self.P.pc, e == j, ms=1000):
                return j
        return e

    def _guarded(self, seq, g):
        if g is True:
            return tuple(seq)
        out = []
        for s in seq:
            if isinstance(s, Elem):
                out.append(Elem(s.val, mkand(g, s.guard)))
            elif isinstance(s, Comp):
                out.append(Comp(s.var, s.hi, mkand(g, s.guard), s.body))
            elif isinstance(s, PComp):
                out.append(PComp(s.q, s.n, s.k, s.lens, mkand(g, s.guard), s.body))
            else:
                raise Unsupported('guarded opaque segment')
        return tuple(out)

    def seq_len(self, seq):
        tot = 0
        for s in seq:
            if isinstance(s, Elem):
                tot = tot + (1 if s.guard is True else z3.If(s.guard, z3.IntVal(1), z3.IntVal(0)))
            elif isinstance(s, Comp):
                inner = self.seq_len(s.body)
                if s.guard is not True:
                    inner = z3.If(s.guard, zi(inner), z3.IntVal(0))
                tot = tot + self.P.sum(s.var, s.hi, inner)
            elif isinstance(s, OSeq) and s.fn in ('sorted', 'reversed'):
                tot = tot + self.seq_len(s.args[0].seq)
            else:
                raise Unsupported(f'len of {s!r}')
        return simp(tot)

    def binder_facts(self, s):
        """facts about the generic element of a Comp / PComp"""
        if isinstance(s, Comp):
            return [s.var >= 0, s.var < zi(s.hi)]
        f = [z3.ForAll([s.k], z3.Implies(z3.And(s.k >= 0, s.k < zi(s.n)),
                                         z3.And(z3.Select(s.q, s.k) >= 0, z3.Select(s.q, s.k) < zi(s.lens))),
                       patterns=[z3.Select(s.q, s.k)])]
        return f

    def nonempty(self, seq):
        conds = []
        for s in seq:
            if isinstance(s, Elem):
                conds.append(s.guard)
            elif isinstance(s, Comp):
                c = mkand(s.guard, self.nonempty(s.body))
                if c is True:
                    conds.append(simp(zi(s.hi) > 0))
                elif c is not False:
                    conds.append(z3.Exists([s.var], z3.And(s.var >= 0, s.var < zi(s.hi), c)))
            elif isinstance(s, PComp):
                c = mkand(s.guard, self.nonempty(s.body))
                if c is not False:
                    conds.append(z3.Exists([s.q], z3.And(*self.binder_facts(s), zb(c))))
            elif isinstance(s, OSeq) and s.fn in ('sorted', 'reversed'):
                conds.append(self.nonempty(s.args[0].seq))
            elif isinstance(s, OSeq) and s.fn == 'product' and isinstance(s.args[1], int):
                conds.append(self.nonempty(s.args[0].seq) if s.args[1] else True)
            else:
                raise Unsupported(f'emptiness of {s!r}')
        return mkor(*conds)

    def index(self, seq, k):
        if isinstance(k, int):
            # leading plain elements
            elems = list(seq)
            if k >= 0:
                if all(isinstance(s, Elem) and s.guard is True for s in elems[:k + 1]) and len(elems) > k:
                    return elems[k].val
            else:
                if all(isinstance(s, Elem) and s.guard is True for s in elems[k:]) and len(elems) >= -k:
                    return elems[k].val
            if self.is_concrete_seq(seq):
                raise PyRaise('IndexError')
        if len(seq) == 1 and isinstance(seq[0], Comp):
            s = seq[0]
            if s.guard is True and len(s.body) == 1 and isinstance(s.body[0], Elem) and s.body[0].guard is True:
                kk = simp(zi(s.hi) + k) if isinstance(k, int) and k < 0 else k
                if is_z(kk) and is_z(k) and not self.P.decide(kk >= 0):
                    kk = simp(kk + zi(s.hi))    # a negative index counts from the end
                if not self.P.decide(z3.And(zi(kk) >= 0, zi(kk) < zi(s.hi))):
                    raise PyRaise('IndexError')
                return subst(s.body[0].val, [(s.var, kk)])
        if is_z(k) and len(seq) >= 6 and self.is_concrete_seq(seq) and all(isinstance(s.val, str) for s in seq):
            # a table of words: the word is a function of the index
            if not self.P.decide(k >= 0):
                k = simp(k + len(seq))
            if not self.P.decide(z3.And(k >= 0, k < len(seq))):
                raise PyRaise('IndexError')
            return SStr([OStr('word', [tuple(s.val for s in seq), k])])
        if is_z(k) and len(seq) >= 6 and self.is_concrete_seq(seq):
            recs = [s.val for s in seq if isinstance(s.val, Rec)]
            none = [j for j, s in enumerate(seq) if s.val is None]
            if recs and len(recs) + len(none) == len(seq) and len({r.cls for r in recs}) == 1 and all(isinstance(v, (str, int)) for r in recs for v in r.vals):
                # a table of records: each field is a function of the index
                if not self.P.decide(k >= 0):
                    k = simp(k + len(seq))
                if not self.P.decide(z3.And(k >= 0, k < len(seq))):
                    raise PyRaise('IndexError')
                if none and self.P.decide(z3.Or(*[k == j for j in none])):
                    return None
                vals = []
                for i in range(len(recs[0].vals)):
                    col = [s.val.vals[i] if isinstance(s.val, Rec) else '' for s in seq]
                    if all(isinstance(x, str) for x in col):
                        vals.append(SStr([OStr('word', [tuple(col), k])]))
                    else:
                        e = z3.IntVal(-1)
                        for j, x in enumerate(col):
                            e = z3.If(k == j, zi(x) if x != '' else z3.IntVal(-1), e)
                        vals.append(simp(e))
                return Rec(recs[0].cls, vals)
        if is_z(k) and self.is_concrete_seq(seq):
            for j, s in enumerate(seq):
                if self.P.decide(z3.Or(k == j, k == j - len(seq))):
                    return s.val
            raise Unsupported('symbolic index out of the enumerated range')
        try:
            vals = self.concrete_elems(STup(seq))
        except Unsupported:
            raise Unsupported('indexing of a guarded symbolic sequence')
        return self.index(tuple(Elem(v) for v in vals), k)

    def slice_seq(self, seq, a, b):
        if self.is_concrete_seq(seq) and not is_z(a) and not is_z(b):
            return tuple(seq[a:b])
        n = self.seq_len(seq)

        def clip(x, default):
            if x is None:
                return default
            if isinstance(x, int) and x < 0:
                x = simp(zi(n) + x)
            P = self.P
            if not P.decide(zi(x) >= 0):
                if isinstance(x, int):
                    x = 0
                else:
                    raise Unsupported('possibly negative slice bound')
            if not P.decide(zi(x) <= zi(n)):
                x = n
            return x
        lo, hi = clip(a, 0), clip(b, n)
        if not self.P.decide(zi(lo) <= zi(hi)):
            return ()
        if lo == 0 and hi is n:
            return tuple(seq)
        if len(seq) == 1 and isinstance(seq[0], Comp):
            s = seq[0]
            if s.guard is True and len(s.body) == 1 and isinstance(s.body[0], Elem) and s.body[0].guard is True:
                v = self.P.fresh('sl')
                return (Comp(v, simp(zi(hi) - zi(lo)), True, [Elem(subst(s.body[0].val, [(s.var, v + zi(lo))]))]),)
        if isinstance(lo, int) and isinstance(seq[0], Elem) and all(isinstance(x, Elem) and x.guard is True for x in seq[:lo]) and hi is n:
            return tuple(seq[lo:])
        raise Unsupported('slice of a symbolic sequence')

    # ------------------------------------------------------------------ values
    def force(self, v):
        while isinstance(v, Choice):
            for c, x in v.alts[:-1]:
                if self.P.decide(c):
                    v = x
                    break
            else:
                v = v.alts[-1][1]
        if isinstance(v, Poison):
            raise Unsupported(f'use of untracked value ({v.why})')
        return v

    def truth(self, v):
        if isinstance(v, (bool,)) or is_zbool(v):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if is_zint(v):
            return simp(v != 0)
        v = self.force(v)
        if isinstance(v, (bool, int)) or is_z(v) or v is None:
            return self.truth(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, SStr):
            return mknot(self.str_eq(v, ''))
        if isinstance(v, Ref) and v.kind == 'dict':
            return bool(self.heap[v.id])
        if isinstance(v, (Ref, FList, STup, FSet)):
            return self.nonempty(self.seq_of(v))
        if isinstance(v, (tuple, Rec)):
            return bool(v.vals if isinstance(v, Rec) else v)
        if isinstance(v, FDict):
            return bool(v.items)
        if isinstance(v, float):
            return bool(v)
        if isinstance(v, (FuncV, type, enum.Enum)):
            return True
        raise Unsupported(f'truth of {v!r}')

    def test(self, v):
        return self.P.decide(self.truth(v))

    # ------------------------------------------------------------------ strings
    def mkstr(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, SStr):
                for q in p.pieces:
                    self._push(out, q)
            else:
                self._push(out, p)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SStr(out)

    def _push(self, out, p):
        if isinstance(p, IntP) and isinstance(p.x, int):
            p = str(p.x)
        if isinstance(p, SliceP) and isinstance(p.lo, int) and isinstance(p.hi, int):
            p = p.const[p.lo:p.hi]
        if isinstance(p, SliceP) and p.lo is not None and (p.lo is p.hi or (is_z(p.lo) and is_z(p.hi) and p.lo.eq(p.hi))):
            return
        if isinstance(p, RepP) and isinstance(p.n, int):
            p = p.s * p.n
        if isinstance(p, JoinP) and all(isinstance(s, Elem) and s.guard is True for s in p.seq):
            for j, s in enumerate(p.seq):
                if j:
                    self._push(out, p.sep)
                if isinstance(s.val, SStr):
                    for q in s.val.pieces:
                        self._push(out, q)
                else:
                    self._push(out, s.val)
            return
        if isinstance(p, JoinP) and p.seq and isinstance(p.seq[-1], Elem) and p.seq[-1].guard is True and is_str(p.seq[-1].val) and self.simple_items(p.seq):
            # the last item always exists, so every other item is followed by the separator
            rest = p.seq[:-1] if p.sep == '' else tuple(self.add_tail(x, p.sep) for x in p.seq[:-1])
            if rest:
                self._push(out, JoinP('', rest))
            v = p.seq[-1].val
            for q in (v.pieces if isinstance(v, SStr) else [v]):
                self._push(out, q)
            return
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    def tostr(self, v, conv=-1):
        v = self.force(v)
        if is_str(v):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, (int, float)):
            return str(v)
        if is_zint(v):
            return SStr([IntP(v)])
        if isinstance(v, enum.Enum):
            return str(v)
        if is_zbool(v):
            return SStr([OStr('str', [v])])
        if isinstance(v, (Ref, Rec, tuple, FList, STup, FSet, FDict)):
            return SStr([OStr('str', [self.freeze(v)])])
        raise Unsupported(f'str() of {v!r}')

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            return self._match(list(a.pieces), b)
        # symbolic vs symbolic: same shape
        pa, pb = list(a.pieces), list(b.pieces)
        # strip equal literals at both ends
        if len(pa) == len(pb) and all(type(x) is type(y) for x, y in zip(pa, pb)):
            if all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
                conds = []
                for x, y in zip(pa, pb):
                    if isinstance(x, IntP):
                        conds.append(zi(x.x) == zi(y.x))
                    elif isinstance(x, str):
                        pass
                    else:
                        raise Unsupported('equality of symbolic strings')
                # IntP pieces separated by non-digit literals parse uniquely
                ok = True
                for i, x in enumerate(pa):
                    if isinstance(x, IntP) and i + 1 < len(pa):
                        nx = pa[i + 1]
                        if not (isinstance(nx, str) and not nx[0].isdigit()):
                            ok = False
                if ok:
                    return mkand(*conds)
            elif isinstance(pa[0], str) and isinstance(pb[0], str) and len(pa) == 1:
                return pa[0] == pb[0]
        fa, fb = pa[0], pb[0]
        if isinstance(fa, str) and isinstance(fb, str):
            n = min(len(fa), len(fb))
            if fa[:n] != fb[:n]:
                return False
        # the text of an integer starts with a digit or a minus sign
        for x, y in ((fa, fb), (fb, fa)):
            if isinstance(x, IntP) and isinstance(y, str) and y and not (y[0].isdigit() or y[0] == '-'):
                return False
        raise Unsupported('equality of symbolic strings')

    def _join_values(self, seq):
        for e in seq:
            if isinstance(e, Elem):
                if not is_str(e.val):
                    raise Unsupported('join of untracked values')
                yield e.val
            elif isinstance(e, (Comp, PComp)):
                yield from self._join_values(e.body)
            else:
                raise Unsupported('join of an opaque sequence')

    def _match(self, pieces, s):
        """condition under which the concatenation of pieces equals the literal s"""
        if not pieces:
            return s == ''
        p, rest = pieces[0], pieces[1:]
        if isinstance(p, str):
            if not s.startswith(p):
                return False
            return self._match(rest, s[len(p):])
        alts = []
        if isinstance(p, SliceP):
            n = len(p.const)
            for L in range(0, len(s) + 1):
                w = s[:L]
                r = None
                if L == 0:
                    c = z3.Or(zi(p.hi) <= zi(p.lo), zi(p.lo) >= n)
                else:
                    cs = []
                    for st in range(0, n - L + 1):
                        if p.const[st:st + L] == w:
                            cs.append(z3.And(zi(p.lo) == st, (zi(p.hi) == st + L) if st + L < n else (zi(p.hi) >= n)))
                    if not cs:
                        continue
                    c = z3.Or(*cs)
                r = self._match(rest, s[L:])
                alts.append(mkand(simp(c), r))
            return mkor(*alts)
        if isinstance(p, IntP):
            for L in range(1, len(s) + 1):
                w = s[:L]
                try:
                    val = int(w)
                except ValueError:
                    continue
                if str(val) != w:
                    continue
                alts.append(mkand(simp(zi(p.x) == val), self._match(rest, s[L:])))
            return mkor(*alts)
        if isinstance(p, JoinP) and p.sep == '':
            # every element holds a character that s lacks: only the empty join can fit
            if all(any(isinstance(q, str) and any(ch not in s for ch in q) for q in ([v] if isinstance(v, str) else v.pieces))
                   for v in self._join_values(p.seq)):
                return mkand(mknot(self.nonempty(p.seq)), self._match(rest, s))
        if isinstance(p, RepP):
            if not p.s:
                return self._match(rest, s)
            j = 0
            while True:
                if not s.startswith(p.s * j):
                    break
                c = (zi(p.n) <= 0) if j == 0 else (zi(p.n) == j)
                alts.append(mkand(simp(c), self._match(rest, s[len(p.s) * j:])))
                j += 1
            return mkor(*alts)
        if isinstance(p, JoinP) and not rest and s == '':
            ne = self.nonempty(p.seq)
            if ne is False:
                return True
            if p.sep == '' and ne is not True:
                return mknot(ne) if self._joins_nonempty(p.seq) else self._uns('emptiness of join')
            if self._joins_nonempty(p.seq):
                return mknot(ne)
        if isinstance(p, JoinP) and s == '' and self._joins_nonempty(p.seq):
            return mkand(mknot(self.nonempty(p.seq)), self._match(rest, s))
        raise Unsupported(f'string comparison with {p!r}')

    def _uns(self, m):
        raise Unsupported(m)

    def _joins_nonempty(self, seq):
        """every joined string contains at least one literal character"""
        for s in seq:
            if isinstance(s, Elem):
                v = s.val
                if isinstance(v, str):
                    if not v:
                        return False
                elif isinstance(v, SStr):
                    if not any(isinstance(p, (str, IntP)) for p in v.pieces):
                        return False
                else:
                    return False
            elif isinstance(s, (Comp, PComp)):
                if not self._joins_nonempty(s.body):
                    return False
            else:
                return False
        return True

    def literal_matches(self, s, needle):
        """every occurrence of needle in the symbolic string lies inside one literal piece"""
        for c in set(needle):
            if c.isdigit() or c == '-':
                continue
            ok, tot = True, 0
            for p in s.pieces:
                if isinstance(p, str):
                    tot += p.count(c) - p.count(needle) * needle.count(c)
                elif isinstance(p, IntP):
                    pass
                elif isinstance(p, SliceP):
                    ok = ok and c not in p.const
                elif isinstance(p, RepP):
                    ok = ok and c not in p.s
                else:
                    ok = False
            if ok and tot == 0:
                return True
        return False

    def str_slice(self, s, a, b):
        if isinstance(s, str):
            if not is_z(a) and not is_z(b):
                return s[a:b]
            lo = 0 if a is None else a
            hi = len(s) if b is None else b
            if not self.P.decide(zi(lo) >= 0):
                raise Unsupported('negative string slice bound')
            if not self.P.decide(zi(hi) >= zi(lo)):
                if self.P.decide(zi(hi) >= 0):
                    return ''
                raise Unsupported('negative string slice bound')
            return self.mkstr([SliceP(s, lo, hi)])
        if is_z(a) or is_z(b):
            raise Unsupported('slice of symbolic string')
        ps = list(s.pieces)
        lo, hi = a or 0, b
        if lo < 0 or (hi is not None and hi == 0):
            raise Unsupported('slice of symbolic string')
        if hi is not None and hi > 0:
            if isinstance(ps[0], str) and hi <= len(ps[0]):
                return ps[0][lo:hi]
            raise Unsupported('slice of symbolic string')
        if lo:
            if not (isinstance(ps[0], str) and len(ps[0]) >= lo):
                raise Unsupported('slice of symbolic string')
            ps[0] = ps[0][lo:]
        if hi is not None:
            k = -hi
            if isinstance(ps[-1], str) and len(ps[-1]) >= k:
                ps[-1] = ps[-1][:-k]
            elif isinstance(ps[-1], JoinP) and ps[-1].sep == '' and k == 1 and self.joined_tail(ps[-1].seq) is not None:
                # dropping the separator that follows every joined item: the joined items with separators in between
                if not self.P.decide(self.nonempty(ps[-1].seq)):
                    ps.pop()
                    return self.str_slice(self.mkstr(ps), None, hi) if ps else ''
                c = self.joined_tail(ps[-1].seq)
                ps[-1] = JoinP(c, tuple(self.strip_tail(x) for x in ps[-1].seq))
            else:
                raise Unsupported('slice of symbolic string')
        return self.mkstr(ps)

    def joined_tail(self, seq):
        """the literal character every joined item ends with, or None"""
        cs = set()
        for s in seq:
            if isinstance(s, Elem):
                v = s.val
                last = v[-1:] if isinstance(v, str) else (v.pieces[-1][-1:] if isinstance(v, SStr) and isinstance(v.pieces[-1], str) else '')
                cs.add(last)
            elif isinstance(s, Comp) and len(s.body) == 1 and isinstance(s.body[0], Elem):
                cs.add(self.joined_tail(s.body) or '')
            else:
                return None
        return cs.pop() if len(cs) == 1 and '' not in cs else None

    def simple_items(self, seq):
        return all(is_str(s.val) if isinstance(s, Elem) else (isinstance(s, Comp) and self.simple_items(s.body)) for s in seq)

    def add_tail(self, s, t):
        if isinstance(s, Elem):
            return Elem(self.mkstr([s.val, t]), s.guard)
        return Comp(s.var, s.hi, s.guard, [self.add_tail(x, t) for x in s.body])

    def strip_tail(self, s):
        if isinstance(s, Elem):
            v = s.val
            return Elem(v[:-1] if isinstance(v, str) else self.mkstr(list(v.pieces[:-1]) + [v.pieces[-1][:-1]]), s.guard)
        return Comp(s.var, s.hi, s.guard, [self.strip_tail(s.body[0])])

    # ------------------------------------------------------------------ equality as a condition
    def eq(self, a, b):
        if isinstance(a, Choice):
            return mkor(*[mkand(c, self.eq(x, b)) for c, x in a.alts])
        if isinstance(b, Choice):
            return self.eq(b, a)
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.force(a), self.force(b)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if not is_z(a) and not is_z(b):
                return a == b
            if is_bool(a) and is_bool(b):
                return simp(zb(a) == zb(b))
            return simp(zi(a) == zi(b))
        if is_str(a) and is_str(b):
            return self.str_eq(a, b)
        if a is None or b is None:
            return a is b
        if isinstance(a, (enum.Enum, type, types.ModuleType)) or isinstance(b, (enum.Enum, type)):
            return a is b
        if isinstance(a, float) or isinstance(b, float):
            if not is_z(a) and not is_z(b):
                return a == b
            raise Unsupported('float comparison')
        ta, tb = self._kind(a), self._kind(b)
        if ta != tb:
            return False
        if ta == 'dict':
            da, db = dict(self._items(a)), dict(self._items(b))
            if set(da) != set(db):
                return False
            return mkand(*[self.eq(da[k], db[k]) for k in da])
        sa, sb = self.seq_of(a), self.seq_of(b)
        if not sa:
            return mknot(self.nonempty(sb))
        if not sb:
            return mknot(self.nonempty(sa))
        if self.is_concrete_seq(sa) and self.is_concrete_seq(sb):
            if len(sa) != len(sb):
                return False
            if ta == 'set':
                raise Unsupported('set equality')
            return mkand(*[self.eq(x.val, y.val) for x, y in zip(sa, sb)])
        if ta in ('list', 'tuple'):
            c = self._simple_comp(sa), self._simple_comp(sb)
            if all(c):
                (v1, h1, e1), (v2, h2, e2) = c
                v = self.P.fresh('eq')
                body = self.eq(subst(e1, [(v1, v)]), subst(e2, [(v2, v)]))
                return mkand(simp(zi(h1) == zi(h2)), simp(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < zi(h1)), zb(body)))))
            # one of them concrete
            if self.is_concrete_seq(sb) and c[0]:
                v1, h1, e1 = c[0]
                return mkand(simp(zi(h1) == len(sb)), *[self.eq(subst(e1, [(v1, j)]), sb[j].val) for j in range(len(sb))])
            if self.is_concrete_seq(sa) and c[1]:
                return self.eq(b, a)
        raise Unsupported(f'equality of {a!r} and {b!r}')

    def _simple_comp(self, seq):
        if len(seq) == 1 and isinstance(seq[0], Comp):
            s = seq[0]
            if s.guard is True and len(s.body) == 1 and isinstance(s.body[0], Elem) and s.body[0].guard is True:
                return s.var, s.hi, s.body[0].val
        return None

    def _kind(self, v):
        if isinstance(v, Ref):
            return v.kind
        if isinstance(v, FList):
            return 'list'
        if isinstance(v, (STup, tuple, Rec)):
            return 'tuple'
        if isinstance(v, FSet):
            return 'set'
        if isinstance(v, FDict):
            return 'dict'
        return type(v).__name__

    def _items(self, v):
        return self.heap[v.id] if isinstance(v, Ref) else v.items

    def contains(self, x, c):
        c = self.force(c)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('substring test on a symbolic string')
        if isinstance(c, SStr):
            if isinstance(x, str) and len(x) >= 1:
                if any(isinstance(p, str) and x in p for p in c.pieces):
                    return True
                if self.literal_matches(c, x):
                    return False
            raise Unsupported('substring test on a symbolic string')
        if isinstance(c, type) and issubclass(c, enum.Enum):
            if is_z(x) or isinstance(x, SStr):
                raise Unsupported('enum membership of a symbolic value')
            try:
                return x in c
            except TypeError:
                return False
        if isinstance(c, (Ref, FDict)) and self._kind(c) == 'dict':
            return mkor(*[self.eq(k, x) for k, _ in self._items(c)])
        seq = self.seq_of(c)
        x = self.force(x)
        return self._member(x, seq)

    def _member(self, x, seq):
        conds = []
        for s in seq:
            if isinstance(s, Elem):
                conds.append(mkand(s.guard, self.eq(s.val, x)))
            elif isinstance(s, Comp):
                c = mkand(s.guard, self._member(x, s.body))
                if c is not False:
                    conds.append(simp(z3.Exists([s.var], z3.And(s.var >= 0, s.var < zi(s.hi), zb(c)))))
            elif isinstance(s, Marker):
                m = self.P.fresh(f'mem{s.id}_', 'bool')
                self.mems[m.decl().name()] = (s.id, self.freeze(x))
                conds.append(m)
            elif isinstance(s, OSeq) and s.fn in ('sorted', 'reversed'):
                conds.append(self._member(x, s.args[0].seq))
            else:
                raise Unsupported(f'membership in {s!r}')
        return mkor(*conds)

    mems = {}

    # ------------------------------------------------------------------ freezing
    def freeze(self, v, heap=None, pre=None):
        heap = self.heap if heap is None else heap
        if isinstance(v, Ref):
            if pre is not None and v.id in pre:
                self.shared_candidates.add(v.id)
            c = heap[v.id]
            if v.kind == 'list':
                return FList(self.freeze_seq(c, heap, pre))
            if v.kind == 'set':
                return FSet(self.freeze_seq(c, heap, pre))
            if v.kind == 'dict':
                return FDict([(k, self.freeze(x, heap, pre)) for k, x in c])
            raise Unsupported('freeze ' + v.kind)
        if isinstance(v, tuple):
            return tuple(self.freeze(x, heap, pre) for x in v)
        if isinstance(v, Rec):
            return Rec(v.cls, [self.freeze(x, heap, pre) for x in v.vals])
        if isinstance(v, FList):
            return FList(self.freeze_seq(v.seq, heap, pre))
        if isinstance(v, STup):
            return STup(self.freeze_seq(v.seq, heap, pre))
        if isinstance(v, Choice):
            return Choice([(c, self.freeze(x, heap, pre)) for c, x in v.alts])
        return v

    shared_candidates = set()

    def freeze_seq(self, seq, heap=None, pre=None):
        out = []
        for s in seq:
            if isinstance(s, Elem):
                out.append(Elem(self.freeze(s.val, heap, pre), s.guard))
            elif isinstance(s, Comp):
                out.append(Comp(s.var, s.hi, s.guard, self.freeze_seq(s.body, heap, pre)))
            elif isinstance(s, PComp):
                out.append(PComp(s.q, s.n, s.k, s.lens, s.guard, self.freeze_seq(s.body, heap, pre)))
            elif isinstance(s, OSeq):
                out.append(OSeq(s.fn, [self.freeze(a, heap, pre) for a in s.args]))
            else:
                out.append(s)
        return tuple(out)

    # ------------------------------------------------------------------ loops
    loop_depth = 0

    def loop(self, seq, step):
        self.loop_depth += 1
        try:
            self._loop(seq, step)
        finally:
            self.loop_depth -= 1

    def _loop(self, seq, step):
        for s in seq:
            if isinstance(s, Elem):
                if s.guard is True or self.P.decide(s.guard):
                    try:
                        step(s.val)
                    except _Continue:
                        pass
            elif isinstance(s, (Comp, PComp)):
                if isinstance(s, Comp) and isinstance(s.hi, int) and s.hi <= 3:
                    for j in range(s.hi):
                        body = self._guarded(ssubst(s.body, [(s.var, j)]), subst(s.guard, [(s.var, j)]))
                        self._loop(body, step)
                    continue
                self.summarise(s, step)
            else:
                raise Unsupported(f'loop over {s!r}')

    def summarise(self, seg, step):
        P = self.P
        pre = dict(self.heap)
        pre_shared = set(self.shared)
        # rename the binder so that nested uses stay distinct
        if isinstance(seg, Comp):
            v = P.fresh('i')
            seg = Comp(v, seg.hi, subst(seg.guard, [(seg.var, v)]), ssubst(seg.body, [(seg.var, v)]))
            binder = v
        else:
            q = P.fresh('q', 'array')
            seg = PComp(q, seg.n, seg.k, seg.lens, subst(seg.guard, [(seg.q, q)]), ssubst(seg.body, [(seg.q, q)]))
            binder = q
        facts = self.binder_facts(seg)

        def generic():
            if seg.guard is True or P.decide(seg.guard):
                try:
                    self._loop(seg.body, step)
                except _Continue:
                    pass
                except _Break:
                    return 'break'
                except _Return:
                    return 'return'
                except PyRaise as e:
                    return 'raise'
            return 'normal'

        locs = {}      # location -> havoc record
        dropped = set()      # counters for which 'stays non-negative' is not inductive
        for attempt in range(10):
            start = dict(pre)
            hsyms = {}
            signs = []
            for loc in locs:
                hv = (OSeq('poison', [next(self.ids)]),) if locs[loc] == 'poison' else self._havoc(loc, pre)
                hsyms[loc] = hv
                self._setloc(start, loc, hv)
                if is_zint(hv) and loc not in dropped and self._nonneg_start(loc, pre):
                    signs.append((loc, hv >= 0))

            def run():
                self.heap = dict(start)
                self.shared = set(pre_shared)
                self.steps_check()
                kind = generic()
                return kind, self.heap

            n0 = len(P.pc)
            P.pc.extend(facts)
            P.pc.extend(f for _, f in signs)
            try:
                outs = explore(P, run, 3000)
                bad = set()
                for loc, _ in signs:
                    for conds, (kind, heap) in outs:
                        if kind == 'normal' and loc not in bad:
                            v = self._getloc(heap, loc)
                            if not (is_int(v) and P.prove(zi(v) >= 0, conds)):
                                bad.add(loc)
            finally:
                del P.pc[n0:]
            new = set()
            for conds, (kind, heap) in outs:
                if kind == 'normal':
                    new |= self._changed(start, heap, pre)
            if new <= set(locs) and not bad:
                break
            dropped |= bad
            for l in new:
                locs[l] = True
            for conds, (kind, heap) in outs:
                for l in new:
                    if l[0] == 'cell' and heap[l[1]] and isinstance(heap[l[1]][0], OSeq) and heap[l[1]][0].fn == 'poison':
                        locs[l] = 'poison'
        else:
            raise Unsupported('loop state does not stabilise')
        self.heap, self.shared = dict(pre), pre_shared

        # collect per-outcome values
        base = len(P.pc)
        normal = []
        exits = []
        for dec, (kind, heap) in outs:
            (normal if kind == 'normal' else exits).append((dec, heap, kind))

        unresolved = {}
        for loc, hv in hsyms.items():
            if is_z(hv):
                unresolved[hv.get_id()] = loc
        resolved = []        # (havoc symbol, prefix expression in binder)
        prefix = {}          # loc -> function k -> value
        pending = dict(hsyms)

        def free_of(e):
            return not any(c.get_id() in unresolved for c in consts_of(e)) if is_z(e) else True

        def res(e):
            return subst(e, resolved) if resolved else e

        def resseq(s):
            return ssubst(s, resolved) if resolved else s

        progress = True
        while pending and progress:
            progress = False
            for loc, hv in list(pending.items()):
                v0 = self._getloc(pre, loc)
                rows = [(dec, self._getloc(heap, loc)) for dec, heap, _ in normal]
                r = None
                if is_zint(hv):
                    r = self._resolve_int(hv, v0, rows, seg, res, free_of)
                elif is_zbool(hv):
                    r = self._resolve_bool(hv, v0, rows, seg, res, free_of,
                                           mkor(*[mkand(*[res(c) for c in dec]) for dec, _, _ in exits]))
                elif isinstance(hv, SStr):
                    r = self._resolve_str(hv, v0, rows, seg, res, free_of, normal, pre)
                elif isinstance(hv, tuple) and len(hv) == 1 and isinstance(hv[0], OSeq):
                    r = (lambda k, hv=hv: hv)
                elif isinstance(hv, tuple) and len(hv) == 1 and isinstance(hv[0], Marker):
                    r = self._resolve_list(loc, hv, v0, normal, seg, res, resseq, free_of, pre)
                elif isinstance(hv, Poison):
                    r = (lambda k, hv=hv: hv)
                if r is not None:
                    prefix[loc] = r
                    del pending[loc]
                    progress = True
                    if is_z(hv):
                        unresolved.pop(hv.get_id(), None)
                        pv = r(seg.var) if isinstance(seg, Comp) else None
                        if is_int(pv) or is_bool(pv):
                            resolved.append((hv, pv))
                        else:
                            # value at a generic product index is not expressible
                            unresolved[hv.get_id()] = loc
        if all(loc[0] != 'cell' for loc in pending):
            # nothing that was resolved depends on these; using one after the loop is reported as unsupported
            for loc in pending:
                prefix[loc] = lambda k, n=self._locname(loc): Poison(f'loop-carried {n} without a recognised invariant')
            pending = {}
        if pending:
            raise Unsupported('loop-carried state without a recognised invariant: ' + ', '.join(self._locname(l) for l in pending))

        def post(k):
            h = dict(pre)
            for loc, f in prefix.items():
                self._setloc(h, loc, f(k))
            return h

        if not exits:
            self.heap = post(seg.hi if isinstance(seg, Comp) else None)
            return
        if isinstance(seg, PComp):
            raise Unsupported('early exit from a product loop')
        econd = mkor(*[mkand(*[res(c) for c in dec]) for dec, _, _ in exits])
        self._check_scope(econd, seg)
        if not free_of(econd):
            raise Unsupported('early exit depends on loop-carried state')
        some = simp(z3.Exists([seg.var], z3.And(seg.var >= 0, seg.var < zi(seg.hi), zb(econd))))
        if not P.decide(some):
            P.assume(simp(z3.ForAll([seg.var], z3.Implies(z3.And(seg.var >= 0, seg.var < zi(seg.hi)), z3.Not(zb(econd))))))
            self.heap = post(seg.hi)
            return
        k = P.fresh('k')
        j = P.fresh('j')
        P.assume(z3.And(k >= 0, k < zi(seg.hi)))
        P.assume(subst(econd, [(seg.var, k)]))
        P.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(zb(subst(econd, [(seg.var, j)]))))))
        self.heap = post(k)
        g = subst(seg.guard, [(seg.var, k)])
        if g is True or P.decide(g):
            self._loop(ssubst(seg.body, [(seg.var, k)]), step)   # raises _Break / _Return / PyRaise
        raise PathAbort()

    def _nonneg_start(self, loc, pre):
        v = self._getloc(pre, loc)
        return is_int(v) and bool(self.P.prove(zi(v) >= 0))

    def steps_check(self):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('step budget exhausted')

    def _locname(self, loc):
        return str(loc[2]) if loc[0] != 'cell' else f'list#{loc[1]}'

    def _changed(self, start, heap, pre):
        out = set()
        for i in pre:
            a, b = start[i], heap[i]
            if a is b:
                continue
            if isinstance(a, dict):          # frame
                for n in set(a) | set(b):
                    if n not in a:
                        continue             # local of the body
                    if n not in b or not self._same(a[n], b[n]):
                        out.add(('var', i, n))
            elif self._is_dictcell(i, a, b):
                ka, kb = dict(a), dict(b)
                if set(ka) != set(kb):
                    raise Unsupported('dict keys change inside a symbolic loop')
                for n in ka:
                    if not self._same(ka[n], kb[n]):
                        out.add(('key', i, n))
            else:
                if not self._sameseq(a, b):
                    out.add(('cell', i, None))
        return out

    def _is_dictcell(self, i, a, b):
        return bool(a or b) and all(isinstance(x, tuple) and len(x) == 2 for x in tuple(a) + tuple(b))

    def _same(self, a, b):
        return a is b or veq(a, b)

    def _sameseq(self, a, b):
        return a is b or (len(a) == len(b) and all(x is y for x, y in zip(a, b)))

    def _getloc(self, heap, loc):
        kind, i, n = loc
        if kind == 'var':
            return heap[i].get(n, Poison('unbound'))
        if kind == 'key':
            return dict(heap[i])[n]
        return heap[i]

    def _setloc(self, heap, loc, v):
        kind, i, n = loc
        if kind == 'var':
            d = dict(heap[i])
            d[n] = v
            heap[i] = d
        elif kind == 'key':
            heap[i] = tuple((k, v if k == n else x) for k, x in heap[i])
        else:
            heap[i] = v

    def _havoc(self, loc, pre):
        v = self._getloc(pre, loc)
        if loc[0] == 'cell':
            return (Marker(next(self.ids)),)
        if is_bool(v):
            return self.P.fresh('hb', 'bool')
        if is_int(v):
            return self.P.fresh('h')
        if is_str(v):
            return SStr([MarkP(next(self.ids))])
        return Poison(f'loop-carried {loc[2]}')

    def _merge_int(self, rows):
        """rows: [(conds, int value)] -> ITE"""
        groups = []
        for dec, val in rows:
            for g in groups:
                if self._same(g[1], val):
                    g[0].append(mkand(*dec))
                    break
            else:
                groups.append([[mkand(*dec)], val])
        if not groups:
            return 0
        out = groups[-1][1]
        for conds, val in reversed(groups[:-1]):
            c = mkor(*conds)
            out = val if c is True else out if c is False else simp(z3.If(c, zi(val), zi(out)))
        return out

    def _resolve_int(self, h, v0, rows, seg, res, free_of):
        if not is_int(v0):
            return lambda k: Poison('int variable')
        ds = []
        for dec, new in rows:
            if isinstance(new, Choice):
                return None
            if not is_int(new):
                return lambda k: Poison('variable of changing type')
            d = simp(zi(new) - h)
            if is_z(d) and any(c.eq(h) for c in consts_of(d)):
                # plain overwrite (last value) or non-additive: not tracked
                return self._maybe_overwrite(h, rows)
            ds.append((dec, res(d)))
        first = ds[0][1] if ds else 0
        if all(self._same(d, first) for _, d in ds):
            delta = first
        else:
            ds = [([res(c) for c in dec], d) for dec, d in ds]
            delta = self._merge_int(ds)
        if not free_of(delta):
            return None
        if isinstance(seg, PComp):
            if delta == 0:
                return lambda k: v0
            raise Unsupported('counter in a product loop')
        self._check_scope(delta, seg)
        return lambda k: simp(zi(v0) + zi(self.P.sum(seg.var, k, delta)))

    def _maybe_overwrite(self, h, rows):
        if all(is_int(n) and not any(c.eq(h) for c in consts_of(zi(n))) for _, n in rows):
            return lambda k: Poison('last value of an overwritten variable')
        return None

    def _check_scope(self, e, seg):
        """values leaving the loop body may only mention the binder and outer constants"""
        if not is_z(e):
            return
        lim = int(str(seg.var if isinstance(seg, Comp) else seg.q).rsplit('!', 1)[1])
        for c in consts_of(e):
            n = c.decl().name()
            if n in self.P.binders and '!' in n and int(n.rsplit('!', 1)[1]) > lim and not c.eq(seg.var if isinstance(seg, Comp) else seg.q):
                if not n.startswith(('mem',)):
                    raise Unsupported(f'value depends on an inner skolem {n}')

    def _scope_seq(self, seq, seg):
        leaves = []
        bound = set()

        def walk(ss):
            for s in ss:
                if isinstance(s, Elem):
                    z_leaves(s.val, leaves)
                    z_leaves(s.guard, leaves)
                    inner(s.val)
                elif isinstance(s, Comp):
                    bound.add(s.var.decl().name())
                    z_leaves(s.hi, leaves), z_leaves(s.guard, leaves)
                    walk(s.body)
                elif isinstance(s, PComp):
                    bound.add(s.q.decl().name())
                    bound.add(s.k.decl().name())
                    z_leaves(s.n, leaves), z_leaves(s.lens, leaves), z_leaves(s.guard, leaves)
                    walk(s.body)
                elif isinstance(s, OSeq):
                    for a in s.args:
                        z_leaves(a, leaves)
                        inner(a)

        def inner(v):
            if isinstance(v, (FList, STup, FSet)):
                walk(v.seq)
            elif isinstance(v, tuple):
                for x in v:
                    inner(x)
            elif isinstance(v, Rec):
                for x in v.vals:
                    inner(x)
            elif isinstance(v, SStr):
                for p in v.pieces:
                    if isinstance(p, JoinP):
                        walk(p.seq)
                    elif isinstance(p, OStr):
                        for a in p.args:
                            inner(a)
            elif isinstance(v, Choice):
                for c, x in v.alts:
                    inner(x)
        walk(seq)
        me = (seg.var if isinstance(seg, Comp) else seg.q).decl().name()
        lim = int(me.rsplit('!', 1)[1])
        for e in leaves:
            for c in consts_of(e):
                n = c.decl().name()
                if n in self.P.binders and n != me and n not in bound and int(n.rsplit('!', 1)[1]) > lim and not n.startswith('mem'):
                    raise Unsupported(f'value depends on an inner skolem {n}')

    def _resolve_bool(self, h, v0, rows, seg, res, free_of, exitc=False):
        rows = [(dec, new) for dec, new in rows]
        vals = []
        for dec, new in rows:
            if not is_bool(new):
                return lambda k: Poison('variable of changing type')
            vals.append((mkand(*[res(c) for c in dec]), res(new)))
        # new value as a formula of h
        f = mkor(*[mkand(c, n) for c, n in vals])
        f = zb(f)
        fT = simp(z3.substitute(f, (h, z3.BoolVal(True))))
        fF = simp(z3.substitute(f, (h, z3.BoolVal(False))))
        n0 = len(self.P.pc)
        self.P.pc.extend(self.binder_facts(seg))
        try:
            # earlier iterations all ended normally
            nT = mknot(simp(z3.substitute(zb(exitc), (h, z3.BoolVal(True)))))
            nF = mknot(simp(z3.substitute(zb(exitc), (h, z3.BoolVal(False)))))
            isor = fT is True or self.P.prove(mkor(mknot(nT), fT))
            isand = fF is False or self.P.prove(mkor(mknot(nF), mknot(fF)))
        finally:
            del self.P.pc[n0:]
        if not (free_of(fT) and free_of(fF)):
            return None
        if not isinstance(seg, Comp):
            raise Unsupported('flag in a product loop')
        if isor:
            c = fF
            self._check_scope(c, seg)
            v = self.P.fresh('e')

            def at(k):
                return mkor(v0, simp(z3.Exists([v], z3.And(v >= 0, v < zi(k), zb(subst(c, [(seg.var, v)]))))))
            return at
        if isand:
            c = fT
            self._check_scope(c, seg)
            v = self.P.fresh('e')

            def at(k):
                return mkand(v0, simp(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < zi(k)), zb(subst(c, [(seg.var, v)]))))))
            return at
        if not any(c.eq(h) for c in consts_of(f)):
            return lambda k: Poison('last value of an overwritten flag')
        return None

    def _resolve_list(self, loc, hv, v0, normal, seg, res, resseq, free_of, pre):
        mid = hv[0].id
        rows = []
        kind = 'list'
        for dec, heap, _ in normal:
            new = heap[loc[1]]
            if not new or not isinstance(new[0], Marker) or new[0].id != mid:
                raise Unsupported('list is not only appended to inside a symbolic loop')
            rest = self.freeze_seq(new[1:], heap, pre)
            # idempotent set insertion: an element known to be present may be re-added
            mine = []
            for c in dec:
                for x in consts_of(zb(c)):
                    nm = x.decl().name()
                    if nm in self.mems and self.mems[nm][0] == mid and c is not False and zb(c).eq(x):
                        mine.append(self.mems[nm][1])
            rest = tuple(rest) + tuple(Elem(self.freeze(m, heap, pre)) for m in mine)
            rows.append((dec, rest))
        rows = [([res(c) for c in dec], resseq(rest)) for dec, rest in rows]
        body = []
        groups = []
        for dec, rest in rows:
            for g in groups:
                if seqeq(g[2], rest):
                    g[1].append(mkand(*dec))
                    break
            else:
                groups.append([None, [mkand(*dec)], rest])
        for key, conds, rest in groups:
            if not rest:
                continue
            c = True if len(groups) == 1 else mkor(*conds)
            if c is not True and len(conds) > 1:
                n0 = len(self.P.pc)
                self.P.pc.extend(self.binder_facts(seg))
                try:
                    if self.P.prove(c):
                        c = True
                finally:
                    del self.P.pc[n0:]
            for s in self._guarded(rest, c):
                body.append(s)
        leaves = []
        for s in body:
            z_leaves(s.guard if hasattr(s, 'guard') else True, leaves)
            z_leaves(FList([s]), leaves)
        if not all(free_of(e) for e in leaves):
            return None
        for e in leaves:
            for c in consts_of(e):
                if c.decl().name() in self.mems:
                    raise Unsupported('insertion depends on earlier insertions')
        if not body:
            return lambda k: v0
        self._scope_seq(body, seg)
        self.shared |= {i for i in self.shared_candidates if i in pre}
        if isinstance(seg, Comp):
            def at(k, body=tuple(body)):
                v = self.P.fresh('i')
                return tuple(v0) + (Comp(v, k, True, ssubst(body, [(seg.var, v)])),)
            return at
        return lambda k, body=tuple(body): tuple(v0) + (PComp(seg.q, seg.n, seg.k, seg.lens, True, body),)

    def _resolve_str(self, hv, v0, rows, seg, res, free_of, normal, pre):
        mid = hv.pieces[0].id
        if not isinstance(seg, Comp):
            raise Unsupported('string accumulation in a product loop')
        body = []
        for dec, new in rows:
            if not isinstance(new, SStr) or not isinstance(new.pieces[0], MarkP) or new.pieces[0].id != mid:
                return lambda k: Poison('string overwritten in a loop')
            rest = new.pieces[1:]
            if not rest:
                continue
            val = res(self.mkstr(rest))
            if isinstance(val, SStr):
                val = self.mkstr([val])
            if isinstance(val, str) and val == '':
                continue
            body.append(Elem(val, mkand(*[res(c) for c in dec]) if len(rows) > 1 else True))
        leaves = []
        z_leaves(FList(body), leaves)
        if not all(free_of(e) for e in leaves):
            return None
        self._scope_seq(body, seg)

        def at(k):
            if not body:
                return v0
            v = self.P.fresh('i')
            return self.mkstr([v0, JoinP('', (Comp(v, k, True, ssubst(tuple(body), [(seg.var, v)])),))])
        return at
