"""Statements, expressions and builtins of the symbolic evaluator."""
import ast
import builtins
import copy
import enum
import functools
import itertools
import json
import logging
import math
import operator
import re
import types
import z3

from .values import *
from .prover import PathAbort, explore
from .interp import (Interp, FuncV, BoundV, MethodV, ExcV, CtxFile, PyRaise, _Return, _Break, _Continue,
                     NOOP_OBJECTS, NOOP_CALLS, is_log_call, log_only)

FACT = z3.Function('FACT', z3.IntSort(), z3.IntSort())
COMB = z3.Function('COMB', z3.IntSort(), z3.IntSort(), z3.IntSort())


MUTATORS = ('sort', 'append', 'extend', 'reverse', 'insert', 'pop', 'remove', 'clear')


def holds_list(v):
    if isinstance(v, FList):
        return True
    if isinstance(v, tuple):
        return any(holds_list(x) for x in v)
    if isinstance(v, Rec):
        return any(holds_list(x) for x in v.vals)
    if isinstance(v, STup):
        return any(holds_list_seg(x) for x in v.seq)
    if isinstance(v, Choice):
        return any(holds_list(x) for _, x in v.alts)
    return isinstance(v, (FDict, FSet))


def holds_list_seg(s):
    if isinstance(s, tuple):
        return any(holds_list(x) for x in s)
    if isinstance(s, Elem):
        return holds_list(s.val)
    if isinstance(s, (Comp, PComp)):
        return any(holds_list_seg(x) for x in s.body)
    return isinstance(s, OSeq)


_LOCALS = {}


def local_names(node):
    """names a function assigns (its own scope only)"""
    if not isinstance(node, ast.FunctionDef):
        return ()
    r = _LOCALS.get(id(node))
    if r is None:
        out, hidden = set(), set()
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                hidden |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            stack += list(ast.iter_child_nodes(n))
        r = _LOCALS[id(node)] = (frozenset(out - hidden), node)
    return r[0]


def serial(v, bound, free):
    """text of a frozen value with bound and free variables by position; the free ones are collected"""
    if is_z(v):
        todo, subst_ = [v], []
        while todo:
            e = todo.pop()
            if z3.is_quantifier(e) or z3.is_var(e):
                raise Unsupported('handle of a quantified value')
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for k, b in enumerate(bound):
                    if e.eq(b):
                        subst_.append((e, z3.Const(f'#{k}', e.sort())))
                        break
                else:
                    hit = [k for k, b in enumerate(free) if e.eq(b)]
                    if not hit:
                        if not (z3.is_int(e) or z3.is_bool(e)):
                            raise Unsupported('handle with such a free variable')
                        free.append(e)
                        hit = [len(free) - 1]
                    subst_.append((e, z3.Const(f'?{hit[0]}', e.sort())))
            todo.extend(e.children()[::-1])
        return (z3.substitute(v, *subst_) if subst_ else v).sexpr()
    if v is None or isinstance(v, (bool, int, str, type)):
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ','.join(serial(x, bound, free) for x in v) + ')'
    if isinstance(v, Rec):
        return v.cls.__qualname__ + serial(tuple(v.vals), bound, free)
    if isinstance(v, Choice):
        return 'choice' + serial(tuple(tuple(a) for a in v.alts), bound, free)
    if isinstance(v, (FList, STup, FSet)):
        out = []
        for s in v.seq:
            if isinstance(s, Elem):
                out.append('e' + serial((s.guard, s.val), bound, free))
            elif isinstance(s, Comp):
                b = tuple(bound) + (s.var,)
                out.append('c' + serial(s.hi, bound, free) + serial((s.guard, FList(s.body)), b, free))
            else:
                raise Unsupported('handle of such a sequence')
        return type(v).__name__ + '[' + ','.join(out) + ']'
    raise Unsupported(f'handle of {v!r}'[:300])


class Evaluator(Interp):

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Poison):
            self.force(f)
        if isinstance(f, functools.partial):
            return self.call(self.lift(f.func), [self.lift(a) for a in f.args] + list(args), {**{k: self.lift(v) for k, v in f.keywords.items()}, **kwargs})
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, MethodV):
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            lf = self.lift(f)
            if isinstance(lf, FuncV):
                return self.call_func(lf, args, kwargs)
        return self.builtin(f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise('TypeError')
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env:
                    raise PyRaise('TypeError')
                env[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                raise PyRaise('TypeError')
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc('dict', tuple(extra))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            env.setdefault(n, d)
        for n in names + kwonly:
            if n not in env:
                raise PyRaise('TypeError')
        return env

    def call_func(self, f, args, kwargs, top=False):
        key = (f.module, f.qualname)
        if not top and key in self.abstract:
            return self.call_abstract(key, f, args, kwargs)
        if not top and key in self.contracts and (not self.spec_mode or getattr(self.contracts[key], 'ghost', False)):
            c = self.contracts[key]
            return self.call_contract(c, f, args, kwargs)
        if self.depth > 60:
            raise Unsupported('call depth')
        env = self.bind(f, args, kwargs)
        fid = next(self.ids)
        self.heap[fid] = env
        if not self.spec_mode:
            self.used.add(key)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, (fid, f))
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return self.call_generator(f, fid)
            try:
                self.block(f.node.body, (fid, f))
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def call_generator(self, f, fid):
        """a generator is evaluated eagerly to the list of its yields"""
        out = self.new_list()
        d = dict(self.heap[fid])
        d['$yield'] = out
        self.heap[fid] = d
        try:
            self.block(f.node.body, (fid, f))
        except _Return:
            pass
        return out

    def call_contract(self, c, f, args, kwargs):
        self.used_contracts.add((f.module, f.qualname))
        env = self.bind(f, args, kwargs)
        ordered = [env[x.arg] for x in f.node.args.args] + ([env[f.node.args.kwarg.arg]] if f.node.args.kwarg else [])
        if c.requires is not None:
            rq = self.run_spec(c.requires, ordered)
            t = self.truth(rq)
            ok = self.P.oblige(f'precondition of {f.qualname} at call site', t)
            if not ok:
                raise Unsupported(f'precondition of {f.qualname} not established')
        if c.opaque:
            return c.opaque(self, ordered)
        r = self.run_spec(c.spec, ordered)
        if not c.frame:
            r = self.freeze(r) if not isinstance(r, Ref) else r
            for a in ordered:
                if isinstance(a, Ref) and a.kind in ('list', 'set') and not (isinstance(r, Ref) and r.id == a.id):
                    self.store(a, (OSeq('poison', [next(self.ids)]),))
        return r

    def call_abstract(self, key, f, args, kwargs):
        """an unknown but fixed function of the arguments (what the frame contract of the callee gives)"""
        kind = self.abstract[key]
        self.abstract_calls.add((self.spec_mode, key))
        env = self.bind(f, args, kwargs)
        ordered = [env[x.arg] for x in f.node.args.args]
        self.P.assumptions.add(f'{f.module}.{f.qualname} is taken as some function of its arguments (its frame contract is checked under C20)')
        name = f.qualname
        if kind == 'str':
            return SStr([OStr(name, [self.freeze(a) for a in ordered])])
        out = None
        if isinstance(kind, tuple):
            out, kind = ordered.pop(kind[0]), kind[1]
        leaves = [x for a in ordered for x in self.leaves(self.freeze(a))]
        if isinstance(kind, types.FunctionType):
            kind = kind(self, ordered)      # a type that depends on the arguments
        v = kind.build(self, f'{name}/{len(leaves)}', leaves)
        if out is not None:
            self.store(out, tuple(self.heap[out.id]) + tuple(self.seq_of(v)))
            return None
        if isinstance(v, FList):
            return self.new_list(v.seq)
        if isinstance(v, Rec):
            return Rec(v.cls, [self.new_list(x.seq) if isinstance(x, FList) else x for x in v.vals])
        return v

    def leaves(self, v):
        """integers that determine v"""
        if isinstance(v, bool) or v is None or isinstance(v, (str, type)):
            return [self.intern(v)]
        if isinstance(v, int) or is_zint(v):
            return [v]
        if is_zbool(v):
            return [z3.If(v, z3.IntVal(self.intern(True)), z3.IntVal(self.intern(False)))]
        if isinstance(v, Rec):
            return [self.intern(v.cls)] + [x for y in v.vals for x in self.leaves(y)]
        if isinstance(v, tuple):
            return [self.intern(('tuple', len(v)))] + [x for y in v for x in self.leaves(y)]
        if isinstance(v, FDict):
            return [x for k, y in v.items for x in [self.intern(k)] + self.leaves(y)]
        if isinstance(v, Choice):
            alts = [(c, self.leaves(x)) for c, x in v.alts]
            if len({len(l) for _, l in alts}) == 1:
                out = [zi(x) for x in alts[-1][1]]
                for c, l in alts[-2::-1]:
                    out = [z3.If(zb(c), zi(x), y) for x, y in zip(l, out)]
                return [simp(x) for x in out]
        if isinstance(v, (FList, STup, FSet)):
            if all(isinstance(s, Elem) and s.guard is True for s in v.seq):
                return [self.intern((type(v).__name__, len(v.seq)))] + [x for s in v.seq for x in self.leaves(s.val)]
            if len(v.seq) == 1 and isinstance(v.seq[0], Comp) and v.seq[0].guard is True and is_z(v.seq[0].hi) and z3.is_app(v.seq[0].hi):
                hi = v.seq[0].hi
                t, name = self.canon.get(hi.decl().name(), (None, None))
                if t is not None:
                    idx = hi.children()
                    w = t.build(self, name, idx)
                    ws = self.seq_of(w) if not isinstance(w, STup) else w.seq
                    if seqeq(smap(v.seq, simp), smap(self.freeze_seq(ws), simp)):
                        return [self.intern(('list', name))] + list(idx)
            free = []
            return [self.intern(('value', serial(v, (), free)))] + [x if z3.is_int(x) else z3.If(x, z3.IntVal(1), z3.IntVal(0)) for x in free]
        raise Unsupported(f'handle of {v!r}'[:300])

    def intern(self, x):
        return self.P.cache.setdefault(('intern',), {}).setdefault(repr(x) if not isinstance(x, type) else x.__qualname__, -1000 - len(self.P.cache[('intern',)]))

    def run_spec(self, fn, args):
        old = self.spec_mode
        self.spec_mode = True
        try:
            return self.call(self.lift(fn), args)
        finally:
            self.spec_mode = old

    def construct(self, cls, args, kwargs):
        if hasattr(cls, '_fields') and issubclass(cls, tuple):
            vals = dict(zip(cls._fields, args))
            for k, v in kwargs.items():
                if k in vals or k not in cls._fields:
                    raise PyRaise('TypeError')
                vals[k] = v
            for k, d in getattr(cls, '_field_defaults', {}).items():
                vals.setdefault(k, self.lift(d))
            if len(args) > len(cls._fields) or len(vals) != len(cls._fields):
                raise PyRaise('TypeError')
            return Rec(cls, [vals[k] for k in cls._fields])
        if issubclass(cls, BaseException):
            return ExcV(cls.__name__, args)
        if issubclass(cls, enum.Enum):
            (x,) = args
            if is_z(x) or isinstance(x, SStr):
                raise Unsupported('enum of symbolic value')
            try:
                return cls(x)
            except ValueError:
                raise PyRaise('ValueError')
        if cls is bool:
            return self.truth(args[0]) if args else False
        if cls is int:
            if not args:
                return 0
            x = self.force(args[0])
            if is_int(x):
                return x
            if is_bool(x):
                return int(x) if isinstance(x, bool) else zi(x)
            if isinstance(x, (str, float)):
                try:
                    return int(x)
                except ValueError:
                    raise PyRaise('ValueError')
            if isinstance(x, SStr) and len(x.pieces) == 1 and isinstance(x.pieces[0], IntP):
                return x.pieces[0].x
            raise Unsupported('int()')
        if cls is str:
            return self.tostr(args[0]) if args else ''
        if cls is list:
            return self.new_list(self.seq_of(args[0]) if args else ())
        if cls is tuple:
            if not args:
                return ()
            seq = self.seq_of(args[0])
            if self.is_concrete_seq(seq):
                return tuple(s.val for s in seq)
            return STup(seq)
        if cls in (set, frozenset):
            seq = self.seq_of(args[0]) if args else ()
            return self.alloc('set', self.dedupe(seq))
        if cls is dict:
            items = []
            if args:
                a = self.force(args[0])
                if isinstance(a, (Ref, FDict)) and self._kind(a) == 'dict':
                    items = list(self._items(a))
                else:
                    for x in self.concrete_elems(a):
                        k, v = self.concrete_elems(x)
                        items = self.dict_put(items, k, v)
            for k, v in kwargs.items():
                items = self.dict_put(items, k, v)
            return self.alloc('dict', tuple(items))
        if cls is range:
            return self.mkrange(args)
        if cls is enumerate:
            return self.mkenumerate(args[0], args[1] if len(args) > 1 else kwargs.get('start', 0))
        if cls is zip:
            return self.mkzip(args)
        if cls is reversed:
            return self.mkreversed(args[0])
        if cls is map:
            return self.mkmap(args[0], args[1:])
        if cls is filter:
            f, src = args
            out = self.new_list()
            self.loop(self.seq_of(src), lambda v: self._append(out, v) if self.test(v if f is None else self.call(f, [v])) else None)
            return out
        if cls is itertools.product:
            return self.mkproduct(args, kwargs)
        if cls is itertools.chain:
            out = ()
            for a in args:
                out += tuple(self.seq_of(a))
            return self.new_list(out)
        if cls in (itertools.permutations, itertools.combinations, itertools.combinations_with_replacement):
            vals = self.concrete_elems(args[0])
            r = args[1] if len(args) > 1 else kwargs.get('r')
            if is_z(r):
                raise Unsupported('symbolic r')
            return self.new_list([Elem(tuple(t)) for t in (cls(vals, r) if r is not None else cls(vals))])
        if cls is float:
            if isinstance(args[0], (int, float, str)):
                return float(args[0])
        if cls is type and len(args) == 1:
            return self.typeof(args[0])
        raise Unsupported(f'constructor {cls!r}')

    def typeof(self, v):
        v = self.force(v)
        if isinstance(v, Rec):
            return v.cls
        if is_bool(v):
            return bool
        if is_int(v):
            return int
        if is_str(v):
            return str
        if isinstance(v, (tuple, STup)):
            return tuple
        k = self._kind(v)
        return {'list': list, 'dict': dict, 'set': set}.get(k, type(v))

    def _append(self, ref, v):
        self.store(ref, self.heap[ref.id] + (Elem(v),))

    def dedupe(self, seq):
        """concrete distinct elements stay distinct; symbolic contents are kept as a multiset view"""
        if self.is_concrete_seq(seq):
            out = []
            for s in seq:
                if not any(self.test(self.eq(s.val, o.val)) for o in out):
                    out.append(s)
            return tuple(out)
        return tuple(seq)

    def dict_put(self, items, k, v):
        k = self.force(k)
        items = list(items)
        for j, (kk, _) in enumerate(items):
            if self.test(self.eq(kk, k)):
                items[j] = (kk, v)
                return items
        items.append((k, v))
        return items

    def mkrange(self, args):
        args = [self.force(a) for a in args]
        if all(isinstance(a, int) for a in args):
            return self.new_list([Elem(i) for i in range(*args)]) if len(range(*args)) <= 400 else self._uns('long range')
        a, b, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
        v = self.P.fresh('r')
        if st == 1:
            n = simp(zi(b) - zi(a))
            n = self.nat(n)
            return self.new_list([Comp(v, n, True, [Elem(simp(v + zi(a)))])])
        if st == -1:
            n = self.nat(simp(zi(a) - zi(b)))
            return self.new_list([Comp(v, n, True, [Elem(simp(zi(a) - v))])])
        if isinstance(st, int) and st > 1:
            n = self.nat(simp(zi(b) - zi(a)))
            return self.new_list([Comp(v, simp((zi(n) + (st - 1)) / st), True, [Elem(simp(v * st + zi(a)))])])
        raise Unsupported('range step')

    def nat(self, n):
        if isinstance(n, int):
            return max(n, 0)
        if self.P._check(self.P.pc, n >= 0, ms=2000):
            return n
        return simp(z3.If(n >= 0, n, z3.IntVal(0)))

    def mkenumerate(self, src, start=0):
        seq = self.seq_of(src)
        out, pos = [], start
        for s in seq:
            if isinstance(s, Elem):
                out.append(Elem((pos, s.val), s.guard))
                pos = simp(zi(pos) + (1 if s.guard is True else z3.If(s.guard, z3.IntVal(1), z3.IntVal(0))))
            elif isinstance(s, Comp):
                if len(s.body) == 1 and isinstance(s.body[0], Elem):
                    g = mkand(s.guard, s.body[0].guard)
                    v = self.P.fresh('en')
                    prior = v if g is True else self.P.sum(s.var, v, z3.If(zb(g), z3.IntVal(1), z3.IntVal(0)))
                    out.append(Comp(v, s.hi, True, [Elem((simp(zi(pos) + zi(prior)), subst(s.body[0].val, [(s.var, v)])), subst(g, [(s.var, v)]))]))
                    pos = simp(zi(pos) + zi(self.seq_len((s,))))
                else:
                    out.append(self._pairmap(s, Poison('index')))
                    pos = Poison('index')
            elif isinstance(s, PComp):
                out.append(self._pairmap(s, Poison('index')))
                pos = Poison('index')
            else:
                raise Unsupported('enumerate')
        return self.new_list(out)

    def _pairmap(self, s, idx):
        if isinstance(s, Elem):
            return Elem((idx, s.val), s.guard)
        if isinstance(s, Comp):
            return Comp(s.var, s.hi, s.guard, [self._pairmap(x, idx) for x in s.body])
        if isinstance(s, PComp):
            return PComp(s.q, s.n, s.k, s.lens, s.guard, [self._pairmap(x, idx) for x in s.body])
        raise Unsupported('enumerate')

    def mkzip(self, srcs):
        seqs = [self.seq_of(s) for s in srcs]
        if all(self.is_concrete_seq(s) for s in seqs):
            return self.new_list([Elem(tuple(x.val for x in t)) for t in zip(*seqs)])
        if not seqs:
            return self.new_list()
        # align simple segment lists
        n = len(seqs[0])
        if all(len(s) == n for s in seqs):
            out = []
            for parts in zip(*seqs):
                if all(isinstance(p, Elem) and p.guard is True for p in parts):
                    out.append(Elem(tuple(p.val for p in parts)))
                    continue
                cs = [self._simple_comp((p,)) for p in parts]
                if not all(cs):
                    break
                h0 = cs[0][1]
                for _, h, _ in cs[1:]:
                    if not self.P.decide(zi(h) == zi(h0)):
                        raise Unsupported('zip of sequences of different symbolic length')
                v = self.P.fresh('zp')
                out.append(Comp(v, h0, True, [Elem(tuple(subst(e, [(w, v)]) for w, _, e in cs))]))
            else:
                return self.new_list(out)
        raise Unsupported('zip')

    def mkreversed(self, src):
        seq = self.seq_of(src)
        if self.is_concrete_seq(seq):
            return self.new_list(seq[::-1])
        c = self._simple_comp(seq)
        if c:
            v0, h, e = c
            v = self.P.fresh('rv')
            return self.new_list([Comp(v, h, True, [Elem(subst(e, [(v0, simp(zi(h) - 1 - v))]))])])
        return self.new_list([OSeq('reversed', [FList(self.freeze_seq(seq))])])

    def mkmap(self, f, srcs):
        out = self.new_list()
        src = srcs[0] if len(srcs) == 1 else self.mkzip(srcs)
        multi = len(srcs) > 1

        def step(v):
            self._append(out, self.call(f, list(v) if multi else [v]))
        self.loop(self.seq_of(src), step)
        return out

    def mkproduct(self, args, kwargs):
        rep = kwargs.get('repeat', 1)
        if len(args) == 1 and isinstance(args[0], _Star):
            seq = args[0].seq
            if not self.is_concrete_seq(seq):
                c = self._simple_comp(seq)
                if not c or rep != 1:
                    raise Unsupported('product of a symbolic family')
                k0, n, lst = c
                inner = self._simple_comp(self.seq_of(lst))
                if not inner:
                    raise Unsupported('product factors of unknown shape')
                i0, hi, val = inner
                q = self.P.fresh('q', 'array')
                k = self.P.fresh('pk')
                w = self.P.fresh('pw')
                lens = subst(hi, [(k0, k)])
                elem = subst(subst(val, [(k0, w)]), [(i0, z3.Select(q, w))])
                return self.new_list([PComp(q, n, k, lens, True, [Elem(STup([Comp(w, n, True, [Elem(elem)])]))])])
            args = [s.val for s in seq]
        seqs = [self.seq_of(a) for a in args]
        if is_z(rep) or (rep > 8 and not all(self.is_concrete_seq(s) for s in seqs)):
            if len(seqs) != 1:
                raise Unsupported('product repeat')
            if isinstance(rep, int) and rep <= 0:
                return self.new_list([Elem(())])
            return self.new_list([OSeq('product', [FList(self.freeze_seq(seqs[0])), rep])])
        seqs = seqs * rep
        out = [((), ())]

        def build(j, vals):
            if j == len(seqs):
                return (Elem(tuple(vals)),)
            return self._bindseq(seqs[j], lambda v: build(j + 1, vals + [v]))
        return self.new_list(build(0, []))

    def _bindseq(self, seq, f):
        """flatMap on segments; the order of iteration is lexicographic"""
        out = []
        for s in seq:
            if isinstance(s, Elem):
                out.extend(self._guarded(f(s.val), s.guard))
            elif isinstance(s, Comp):
                v = self.P.fresh('b')
                body = self._bindseq(ssubst(s.body, [(s.var, v)]), f)
                out.append(Comp(v, s.hi, subst(s.guard, [(s.var, v)]), body))
            elif isinstance(s, PComp):
                q = self.P.fresh('q', 'array')
                body = self._bindseq(ssubst(s.body, [(s.q, q)]), f)
                out.append(PComp(q, s.n, s.k, s.lens, subst(s.guard, [(s.q, q)]), body))
            else:
                raise Unsupported('flatMap over opaque')
        return tuple(out)

    # ------------------------------------------------------------------ builtins
    def builtin(self, f, args, kwargs):
        P = self.P
        name = getattr(f, '__name__', None)
        if f is len:
            v = self.force(args[0])
            if isinstance(v, (str, tuple)):
                return len(v)
            if isinstance(v, Rec):
                return len(v.vals)
            if isinstance(v, (Ref, FDict)) and self._kind(v) == 'dict':
                return len(self._items(v))
            if isinstance(v, SStr):
                return self.str_len(v)
            if isinstance(v, type) and issubclass(v, enum.Enum):
                return len(v)
            if self._kind(v) == 'set' and not self.is_concrete_seq(self.seq_of(v)):
                return self.card(v)
            return self.seq_len(self.seq_of(v))
        if f is sum:
            start = args[1] if len(args) > 1 else kwargs.get('start', 0)
            return simp(zi(start) + zi(self.seq_sum(self.seq_of(args[0]))))
        if f in (any, all):
            return self.quant(self.seq_of(args[0]), f is any)
        if f is isinstance:
            return self.isinst(args[0], args[1])
        if f is sorted:
            return self.mksorted(self.seq_of(args[0]), kwargs)
        if f is abs:
            x = args[0]
            return abs(x) if isinstance(x, int) else simp(z3.If(x >= 0, x, -x))
        if f in (max, min):
            return self.maxmin(f, args, kwargs)
        if f is math.factorial:
            x = args[0]
            if isinstance(x, int):
                return math.factorial(x)
            if not P.decide(zi(x) >= 0):
                raise PyRaise('ValueError')
            return self.fact(x)
        if f is math.comb and len(args) == 2:
            n, k = args
            if isinstance(n, int) and isinstance(k, int):
                return math.comb(n, k)
            if not P.decide(zi(n) >= 0) or not P.decide(zi(k) >= 0):
                raise PyRaise('ValueError')
            return self.comb(n, k)
        if f is copy.deepcopy or f is copy.copy:
            return self.deepcopy(args[0]) if f is copy.deepcopy else self.shallow(args[0])
        if f is json.dumps:
            return SStr([OStr('json', [self.freeze(args[0])])])
        if f is json.loads:
            s = args[0]
            if isinstance(s, SStr) and len(s.pieces) == 1 and isinstance(s.pieces[0], OStr) and s.pieces[0].fn == 'json':
                P.assumptions.add('json.loads(json.dumps(d)) == d for str-keyed dictionaries of integers')
                return self.thaw_val(s.pieces[0].args[0])
            raise Unsupported('json.loads')
        if f is open:
            mode = kwargs.get('mode', args[1] if len(args) > 1 else 'r')
            return CtxFile(args[0], mode)
        if f is ord or f is chr or f is divmod or f is round or f is pow:
            if all(isinstance(a, (int, str, float)) for a in args):
                return f(*args)
        if f is hasattr:
            return hasattr(args[0], args[1]) if not isinstance(args[0], (Rec, Ref)) else (args[1] in getattr(args[0].cls, '_fields', ()) if isinstance(args[0], Rec) else self._uns('hasattr'))
        if f is getattr and isinstance(args[1], str):
            return self.getattr(args[0], args[1])
        if f is repr and isinstance(args[0], (int, str)):
            return repr(args[0])
        if f is next:
            v = args[0]
            seq = self.seq_of(v)
            ne = self.nonempty(seq)
            if self.P.decide(ne):
                return self.first(seq)
            if len(args) > 1:
                return args[1]
            raise PyRaise('StopIteration')
        if f is iter:
            return args[0]
        if f is tuple.__new__:
            pass
        if name == 'reduce' and callable(f):
            fn, src = args[0], args[1]
            vals = self.concrete_elems(src)
            acc = args[2] if len(args) > 2 else vals.pop(0)
            for x in vals:
                acc = self.call(fn, [acc, x])
            return acc
        if f in (operator.add, operator.mul, operator.sub):
            return self.binop({operator.add: ast.Add, operator.mul: ast.Mult, operator.sub: ast.Sub}[f](), *args)
        if f is itertools.chain.from_iterable:
            out = self.new_list()

            def step(v):
                self.store(out, self.heap[out.id] + tuple(self.seq_of(v)))
            self.loop(self.seq_of(args[0]), step)
            return out
        raise Unsupported(f'builtin {f!r}')

    def first(self, seq):
        c = self._simple_comp(seq)
        if c:
            return subst(c[2], [(c[0], 0)])
        if seq and isinstance(seq[0], Elem) and seq[0].guard is True:
            return seq[0].val
        raise Unsupported('first element of a guarded sequence')

    def card(self, v):
        """cardinality of a symbolic set: an opaque function of its contents"""
        vals = self.freeze(v)
        return self.opaque_int('card', vals)

    def opaque_int(self, fn, val):
        for v0, sym in self.P.cache.setdefault(('opaque', fn), []):
            if veq(v0, val):
                return sym
        for v0, sym in self.P.cache[('opaque', fn)][:4]:
            if self.provably_equal(v0, val):
                return sym
        sym = z3.Int(f'{fn}#{next(self.P.counter)}')
        self.P.axioms.append(sym >= 0)
        self.P.cache[('opaque', fn)].append((val, sym))
        return sym

    def provably_equal(self, a, b):
        """equal on this path, shown by the same comparison that discharges postconditions"""
        from .verify import Comparer
        P = self.P
        n = len(P.obligations)
        try:
            cmp = Comparer(self, 'argument')
            cmp.cmp(a, b, 'argument')
            return not cmp.failed
        except Unsupported:
            return False
        finally:
            del P.obligations[n:]

    def str_len(self, s):
        tot = 0
        for p in s.pieces:
            if isinstance(p, str):
                tot = tot + len(p)
            elif isinstance(p, RepP):
                tot = tot + len(p.s) * zi(self.nat(p.n))
            elif isinstance(p, SliceP):
                n = len(p.const)
                lo, hi = zi(p.lo), zi(p.hi)
                c = lambda x: z3.If(x > n, z3.IntVal(n), x)
                tot = tot + (c(hi) - c(lo))
            else:
                raise Unsupported('len of symbolic string')
        return simp(tot)

    def fact(self, x):
        """x! with the first instances of its recurrence"""
        x = zi(x)
        key = ('fact', str(x))
        if key not in self.P.cache:
            self.P.cache[key] = True
            for j in range(3):
                y = z3.simplify(x - j)
                self.P.fn_axioms.setdefault('FACT', []).extend([z3.Implies(y >= 0, FACT(y) >= 1), z3.Implies(z3.Or(y == 0, y == 1), FACT(y) == 1),
                                  z3.Implies(y >= 1, FACT(y) == y * FACT(z3.simplify(y - 1)))])
        return FACT(z3.simplify(x))

    def comb(self, n, k):
        n, k = z3.simplify(zi(n)), z3.simplify(zi(k))
        key = ('comb', str(n), str(k))
        c = COMB(n, k)
        if key not in self.P.cache:
            self.P.cache[key] = True
            self.P.fn_axioms.setdefault('COMB', []).extend([z3.Implies(z3.And(k >= 0, k <= n), c >= 1), z3.Implies(z3.And(k >= 0, k > n), c == 0),
                              z3.Implies(z3.And(n >= 0, z3.Or(k == 0, k == n)), c == 1), z3.Implies(z3.And(k > 0, k < n), c >= n)])
        return c

    def seq_sum(self, seq):
        tot = z3.IntVal(0)
        for s in seq:
            if isinstance(s, Elem):
                v = self.force(s.val) if isinstance(s.val, Choice) else s.val
                if not (is_int(v) or is_bool(v)):
                    raise Unsupported('sum of non integers')
                tot = tot + (zi(v) if s.guard is True else z3.If(zb(s.guard), zi(v), z3.IntVal(0)))
            elif isinstance(s, Comp):
                inner = self.seq_sum(s.body)
                if s.guard is not True:
                    inner = z3.If(zb(s.guard), zi(inner), z3.IntVal(0))
                sm = zi(self.P.sum(s.var, s.hi, inner))
                if is_z(inner) and z3.eq(inner, s.var):
                    self.P.axioms.append(z3.Implies(zi(s.hi) >= 0, 2 * sm == zi(s.hi) * (zi(s.hi) - 1)))
                tot = tot + sm
            else:
                raise Unsupported('sum over ' + repr(s))
        return simp(tot)

    def quant(self, seq, is_any):
        conds = []
        for s in seq:
            if isinstance(s, Elem):
                t = self.truth(s.val)
                conds.append(mkand(s.guard, t) if is_any else mkor(mknot(s.guard), t))
            elif isinstance(s, Comp):
                c = self.quant(s.body, is_any)
                c = mkand(s.guard, c) if is_any else mkor(mknot(s.guard), c)
                if isinstance(c, bool):
                    conds.append(simp(zi(s.hi) > 0) if (c and is_any) else (c if not is_any and c else (False if is_any else simp(zi(s.hi) <= 0))))
                elif is_any:
                    conds.append(simp(z3.Exists([s.var], z3.And(s.var >= 0, s.var < zi(s.hi), zb(c)))))
                else:
                    conds.append(simp(z3.ForAll([s.var], z3.Implies(z3.And(s.var >= 0, s.var < zi(s.hi)), zb(c)))))
            else:
                raise Unsupported('quantifier over ' + repr(s))
        return mkor(*conds) if is_any else mkand(*conds)

    def isinst(self, v, cls):
        if isinstance(v, Choice):
            return mkor(*[mkand(c, self.isinst(x, cls)) for c, x in v.alts])
        if isinstance(cls, tuple):
            return mkor(*[self.isinst(v, c) for c in cls])
        if isinstance(cls, Ref) or not isinstance(cls, type):
            raise Unsupported('isinstance class')
        self.force(v)
        t = self.typeof(v)
        return issubclass(t, cls)

    def mksorted(self, seq, kwargs):
        key = kwargs.get('key')
        rev = kwargs.get('reverse', False)
        if self.is_concrete_seq(seq):
            keys = [s.val if key is None else self.call(key, [s.val]) for s in seq]
            if all(self._conc(k) for k in keys):
                order = sorted(range(len(seq)), key=lambda j: self._tokey(keys[j]), reverse=bool(rev))
                return self.new_list([seq[j] for j in order])
            if len(seq) == 1:
                return self.new_list(seq)
            # insertion sort with decisions (stable)
            idx = []
            for j in range(len(seq)):
                p = len(idx)
                while p > 0 and self.test(self.less(keys[j], keys[idx[p - 1]]) if not rev else self.less(keys[idx[p - 1]], keys[j])):
                    p -= 1
                idx.insert(p, j)
            return self.new_list([seq[j] for j in idx])
        fr = FList(self.freeze_seq(seq))
        if key is None:
            ks = None
        else:
            out = self.new_list()
            self.loop(seq, lambda v: self._append(out, self.call(key, [v])))
            ks = self.freeze(out)
        return self.new_list([OSeq('sorted', [fr, ks, rev])])

    def _conc(self, v):
        v = self.freeze(v)
        leaves = []
        try:
            z_leaves(v, leaves)
        except Exception:
            return False
        if leaves or isinstance(v, SStr):
            return False
        if isinstance(v, (FList, STup)):
            return self.is_concrete_seq(v.seq) and all(self._conc(s.val) for s in v.seq)
        if isinstance(v, (tuple,)):
            return all(self._conc(x) for x in v)
        if isinstance(v, Rec):
            return all(self._conc(x) for x in v.vals)
        return isinstance(v, (int, str, float, bool))

    def _tokey(self, v):
        v = self.freeze(v)
        if isinstance(v, (FList, STup)):
            return [self._tokey(s.val) for s in v.seq]
        if isinstance(v, tuple):
            return tuple(self._tokey(x) for x in v)
        if isinstance(v, Rec):
            return tuple(self._tokey(x) for x in v.vals)
        return v

    def less(self, a, b):
        a, b = self.force(a), self.force(b)
        if is_int(a) and is_int(b):
            return simp(zi(a) < zi(b))
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        ka, kb = self._kind(a), self._kind(b)
        if ka == kb and ka in ('tuple', 'list'):
            sa, sb = self.seq_of(a), self.seq_of(b)
            if self.is_concrete_seq(sa) and self.is_concrete_seq(sb):
                va, vb = [s.val for s in sa], [s.val for s in sb]
                res = len(va) < len(vb)
                for x, y in reversed(list(zip(va, vb))):
                    res = mkor(self.less(x, y), mkand(self.eq(x, y), res))
                return res
        raise Unsupported('ordering')

    def maxmin(self, f, args, kwargs):
        if kwargs.get('key') is not None:
            raise Unsupported('max/min key')
        if len(args) == 1 and not isinstance(args[0], str):
            seq = self.freeze_seq(self.seq_of(args[0]))
            if len(seq) == 1 and isinstance(seq[0], Comp) and seq[0].guard is True and len(seq[0].body) == 1 and isinstance(seq[0].body[0], Elem) \
                    and seq[0].body[0].guard is True and is_int(seq[0].body[0].val):
                # an unknown but fixed function of the list
                if not self.P.decide(zi(self.seq_len(seq)) > 0):
                    if 'default' in kwargs:
                        return kwargs['default']
                    raise PyRaise('ValueError')
                leaves = self.leaves(STup(seq))
                self.P.weak = True
                return z3.Function(f'{f.__name__}/{len(leaves)}', *[z3.IntSort()] * (len(leaves) + 1))(*[zi(x) for x in leaves])
        if len(args) == 1:
            vals = self.concrete_elems(args[0])
        else:
            vals = list(args)
        if not vals:
            if 'default' in kwargs:
                return kwargs['default']
            raise PyRaise('ValueError')
        out = vals[0]
        for x in vals[1:]:
            if not is_z(out) and not is_z(x):
                out = f(out, x)
            else:
                a, b = zi(out), zi(x)
                out = simp(z3.If(a >= b, a, b) if f is max else z3.If(a <= b, a, b))
        return out

    def deepcopy(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if v.kind == 'dict':
                return self.alloc('dict', tuple((k, self.deepcopy(x)) for k, x in c))
            return self.alloc(v.kind, tuple(Elem(self.deepcopy(s.val), s.guard) if isinstance(s, Elem) else s for s in self.freeze_seq(c)) if not self.is_concrete_seq(c) else tuple(Elem(self.deepcopy(s.val)) for s in c))
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x) for x in v)
        if isinstance(v, Rec):
            return Rec(v.cls, [self.deepcopy(x) for x in v.vals])
        return v

    def shallow(self, v):
        if isinstance(v, Ref):
            return self.alloc(v.kind, self.heap[v.id])
        return v

    def thaw_val(self, v):
        if isinstance(v, FList):
            return self.alloc('list', v.seq)
        if isinstance(v, FDict):
            return self.alloc('dict', v.items)
        if isinstance(v, FSet):
            return self.alloc('set', v.seq)
        return v

    # ------------------------------------------------------------------ methods
    def method(self, o, name, args, kwargs):
        if isinstance(o, CtxFile):
            if name == 'write':
                self.files_write(o, args[0])
                return None
            if name == 'read':
                return self.files_read(o)
            raise Unsupported('file.' + name)
        o = self.force(o)
        if is_str(o):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, FList):
            if name in ('index', 'count', 'copy'):
                o = self.alloc('list', o.seq)
            else:
                raise Unsupported('mutation of an element of a symbolic list')
        if isinstance(o, (tuple, STup, Rec)) and name in ('index', 'count'):
            o = self.alloc('list', self.seq_of(o))
        if isinstance(o, Rec):
            if name == '_replace':
                vals = [kwargs.get(f, v) for f, v in zip(o.cls._fields, o.vals)]
                return Rec(o.cls, vals)
            if name == '_asdict':
                return self.alloc('dict', tuple(zip(o.cls._fields, o.vals)))
        if isinstance(o, (Ref, FDict)) and self._kind(o) == 'dict':
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, Ref) and o.kind == 'list':
            seq = self.heap[o.id]
            if name == 'append':
                self.store(o, seq + (Elem(args[0]),))
                return None
            if name == 'extend':
                self.store(o, seq + tuple(self.seq_of(args[0])))
                return None
            if name == 'copy':
                return self.new_list(seq)
            if name == 'sort':
                r = self.mksorted(seq, kwargs)
                self.store(o, self.heap[r.id])
                return None
            if name == 'reverse':
                r = self.mkreversed(o)
                self.store(o, self.heap[r.id])
                return None
            if name == 'insert':
                if args[0] == 0:
                    self.store(o, (Elem(args[1]),) + seq)
                    return None
                if self.is_concrete_seq(seq) and isinstance(args[0], int):
                    l = list(seq)
                    l.insert(args[0], Elem(args[1]))
                    self.store(o, tuple(l))
                    return None
            if name == 'pop':
                k = args[0] if args else -1
                if self.is_concrete_seq(seq) and isinstance(k, int):
                    l = list(seq)
                    if not l:
                        raise PyRaise('IndexError')
                    x = l.pop(k)
                    self.store(o, tuple(l))
                    return x.val
            if name == 'clear':
                self.store(o, ())
                return None
            if name == 'index':
                if self.is_concrete_seq(seq):
                    st = args[1] if len(args) > 1 else 0
                    for j, s in enumerate(seq):
                        if j >= st and self.test(self.eq(s.val, args[0])):
                            return j
                    raise PyRaise('ValueError')
            if name == 'count':
                tot = 0
                for v in self.concrete_elems(o):
                    tot = tot + zi(zb(self.eq(v, args[0])))
                return simp(tot) if is_z(tot) else tot
            if name == 'remove':
                if self.is_concrete_seq(seq):
                    for j, s in enumerate(seq):
                        if self.test(self.eq(s.val, args[0])):
                            self.store(o, seq[:j] + seq[j + 1:])
                            return None
                    raise PyRaise('ValueError')
        if isinstance(o, Ref) and o.kind == 'set':
            seq = self.heap[o.id]
            if name == 'add':
                x = args[0]
                if any(isinstance(s, Marker) for s in seq) or not self.is_concrete_seq(seq):
                    self.store(o, seq + (Elem(x),))
                    return None
                for s in seq:
                    if self.test(self.eq(s.val, x)):
                        return None
                self.store(o, seq + (Elem(x),))
                return None
            if name == 'update':
                for a in args:
                    for x in self.concrete_elems(a):
                        self.method(o, 'add', [x], {})
                return None
            if name in ('isdisjoint', 'intersection', 'union', 'difference', 'issubset', 'issuperset'):
                mine = self.concrete_elems(o)
                other = self.concrete_elems(args[0])
                return self.setop(name, mine, other)
            if name == 'copy':
                return self.alloc('set', seq)
        raise Unsupported(f'method {name} of {o!r}')

    def setop(self, name, a, b):
        inb = [self.test(mkor(*[self.eq(x, y) for y in b])) for x in a]
        if name == 'isdisjoint':
            return not any(inb)
        if name == 'issubset':
            return all(inb)
        if name == 'intersection':
            return self.alloc('set', tuple(Elem(x) for x, f in zip(a, inb) if f))
        if name == 'difference':
            return self.alloc('set', tuple(Elem(x) for x, f in zip(a, inb) if not f))
        if name == 'union':
            return self.alloc('set', self.dedupe(tuple(Elem(x) for x in a + b)))
        raise Unsupported(name)

    def files_write(self, o, s):
        key = self.fkey(o.path)
        if 'w' in o.mode and not getattr(o, 'dirty', False) or key not in self.heap[0]:
            self.lset(0, key, s)
        else:
            self.lset(0, key, self.mkstr([self.heap[0][key], s]))
        o.dirty = True

    def files_read(self, o):
        key = self.fkey(o.path)
        if key not in self.heap[0]:
            raise PyRaise('FileNotFoundError')
        return self.heap[0][key]

    def fkey(self, p):
        return p if isinstance(p, str) else repr(p)

    def dict_method(self, o, name, args, kwargs):
        items = list(self._items(o))
        if name == 'items':
            return self.new_list([Elem((k, v)) for k, v in items])
        if name == 'keys':
            return self.new_list([Elem(k) for k, v in items])
        if name == 'values':
            return self.new_list([Elem(v) for k, v in items])
        if name == 'get':
            for k, v in items:
                if self.test(self.eq(k, args[0])):
                    return v
            return args[1] if len(args) > 1 else None
        if name == 'copy':
            return self.alloc('dict', tuple(items))
        if not isinstance(o, Ref):
            raise Unsupported('mutation of frozen dict')
        if name == 'update':
            if args:
                a = self.force(args[0])
                for k, v in (self._items(a) if self._kind(a) == 'dict' else [tuple(self.concrete_elems(x)) for x in self.concrete_elems(a)]):
                    items = self.dict_put(items, k, v)
            for k, v in kwargs.items():
                items = self.dict_put(items, k, v)
            self.store(o, tuple(items))
            return None
        if name == 'pop':
            for j, (k, v) in enumerate(items):
                if self.test(self.eq(k, args[0])):
                    del items[j]
                    self.store(o, tuple(items))
                    return v
            if len(args) > 1:
                return args[1]
            raise PyRaise('KeyError')
        if name == 'setdefault':
            for k, v in items:
                if self.test(self.eq(k, args[0])):
                    return v
            v = args[1] if len(args) > 1 else None
            self.store(o, tuple(items) + ((args[0], v),))
            return v
        raise Unsupported('dict.' + name)

    def str_method(self, o, name, args, kwargs):
        if isinstance(o, str) and name != 'join' and name != 'format' and all(isinstance(a, (str, int, type(None))) for a in list(args) + list(kwargs.values())):
            return self.lift(getattr(o, name)(*args, **kwargs)) if hasattr(o, name) else self._uns('str.' + name)
        if name in ('capitalize', 'lower', 'upper') and not args and isinstance(o, SStr) and len(o.pieces) == 1 and isinstance(o.pieces[0], OStr) and o.pieces[0].fn == 'word':
            words, k = o.pieces[0].args
            return SStr([OStr('word', [tuple(getattr(w, name)() for w in words), k])])
        if name == 'join':
            seq = self.seq_of(args[0])
            if self.is_concrete_seq(seq) and isinstance(o, str):
                ps = []
                for j, s in enumerate(seq):
                    if j:
                        ps.append(o)
                    v = self.force(s.val)
                    if not is_str(v):
                        raise PyRaise('TypeError')
                    ps.append(v)
                return self.mkstr(ps)
            return self.mkstr([JoinP(o, self.freeze_seq(seq))])
        if name == 'format':
            import string as _s
            if not isinstance(o, str):
                raise Unsupported('format of symbolic template')
            ps, auto = [], 0
            for lit, field, spec, conv in _s.Formatter().parse(o):
                ps.append(lit)
                if field is None:
                    continue
                if spec or conv:
                    raise Unsupported('format spec')
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kwargs[field] if field in kwargs else self._uns('format field')
                ps.append(self.tostr(v))
            return self.mkstr(ps)
        if name == 'replace' and len(args) == 2 and not kwargs and isinstance(args[0], SStr) and isinstance(o, (str, SStr)) and isinstance(args[1], (str, SStr)):
            return SStr([OStr('replace', [o, args[0], args[1]])])
        if name == 'replace' and isinstance(o, SStr) and isinstance(args[0], str):
            old, new = args
            if len(old) == 1:
                ps = []
                for p in o.pieces:
                    if isinstance(p, str):
                        for j, part in enumerate(p.split(old)):
                            if j:
                                ps.append(new)
                            ps.append(part)
                    elif isinstance(p, SliceP) and old not in p.const:
                        ps.append(p)
                    elif isinstance(p, IntP) and not (old.isdigit() or old == '-'):
                        ps.append(p)
                    elif isinstance(p, RepP) and old not in p.s:
                        ps.append(p)
                    else:
                        raise Unsupported('replace in symbolic string')
                return self.mkstr(ps)
            if self.literal_matches(o, old):
                return self.mkstr([p.replace(old, new) if isinstance(p, str) else p for p in o.pieces])
            return SStr([OStr('replace', [o, old, new])])
        if name == 'split' and isinstance(o, SStr) and (args or kwargs):
            sep = args[0] if args else kwargs.get('sep')
            if isinstance(sep, str) and len(args) + len(kwargs) == 1 and self.literal_matches(o, sep):
                parts = [[]]
                for p in o.pieces:
                    if isinstance(p, str):
                        q = p.split(sep)
                        parts[-1].append(q[0])
                        parts += [[x] for x in q[1:]]
                    else:
                        parts[-1].append(p)
                return self.alloc('list', tuple(Elem(self.mkstr(x)) for x in parts))
        if name == 'splitlines' and isinstance(o, SStr) and not args and not kwargs:
            return self.split_lines(o)
        if name == 'rstrip' and isinstance(o, SStr) and not args and not kwargs:
            ps = list(o.pieces)
            while ps:
                if isinstance(ps[-1], str):
                    t = ps.pop().rstrip()
                    if t:
                        return self.mkstr(ps + [t])
                elif isinstance(ps[-1], IntP):
                    return self.mkstr(ps)
                else:
                    raise Unsupported('rstrip of symbolic string')
            return ''
        if name == 'startswith' and isinstance(o, SStr) and isinstance(args[0], str) and isinstance(o.pieces[0], str) and len(o.pieces[0]) >= len(args[0]):
            return o.pieces[0].startswith(args[0])
        if name == 'count' and isinstance(o, SStr) and isinstance(args[0], str) and len(args[0]) == 1:
            c = args[0]
            tot = 0
            for p in o.pieces:
                if isinstance(p, str):
                    tot = tot + p.count(c)
                elif isinstance(p, RepP):
                    tot = tot + p.s.count(c) * zi(self.nat(p.n))
                elif isinstance(p, IntP) and not (c.isdigit() or c == '-'):
                    pass
                elif isinstance(p, JoinP) and c not in p.sep:
                    for seg in p.seq:
                        body = [seg] if isinstance(seg, Elem) else list(seg.body) if isinstance(seg, Comp) else self._uns('count in symbolic string')
                        for e in body:
                            if not isinstance(e, Elem):
                                raise Unsupported('count in symbolic string')
                            k = self.str_method(e.val, 'count', [c], {})
                            if is_z(k):
                                raise Unsupported('count in symbolic string')
                            if k:
                                one = Elem(1, e.guard)
                                tot = tot + k * zi(self.seq_len((one if isinstance(seg, Elem) else Comp(seg.var, seg.hi, seg.guard, [one]),)))
                else:
                    raise Unsupported('count in symbolic string')
            return simp(tot)
        raise Unsupported(f'str.{name} of {o!r:.200}')

    def one_line(self, p):
        """the piece certainly contains no line break"""
        def flat(t):
            return len((t + 'x').splitlines()) == 1
        if isinstance(p, str):
            return flat(p)
        if isinstance(p, IntP):
            return True
        if isinstance(p, SliceP):
            return flat(p.const)
        if isinstance(p, RepP):
            return flat(p.s)
        if isinstance(p, SStr):
            return all(self.one_line(q) for q in p.pieces)
        if isinstance(p, JoinP):
            def seg(x):
                if isinstance(x, Elem):
                    return isinstance(x.val, (str, SStr)) and self.one_line(x.val)
                return isinstance(x, Comp) and all(seg(y) for y in x.body)
            return flat(p.sep) and all(seg(x) for x in p.seq)
        if isinstance(p, OStr) and p.fn == 'word':
            return all(flat(w) for w in p.args[0])
        # the text of a tuple or record holds the repr of its strings, which has no line breaks
        return isinstance(p, OStr) and (p.fn == 'repr' or p.fn == 'str' and isinstance(p.args[0], (Rec, STup, tuple)))

    def split_lines(self, o):
        # every symbolic piece stands in as one private character, which is no line break
        hold = [p for p in o.pieces if not isinstance(p, str)]
        if not all(self.one_line(p) for p in hold) or any(0xE000 <= ord(c) < 0xF900 for p in o.pieces if isinstance(p, str) for c in p) or len(hold) > 6000:
            raise Unsupported('splitlines of symbolic string')
        k, text = 0, ''
        for p in o.pieces:
            if isinstance(p, str):
                text += p
            else:
                text += chr(0xE000 + k)
                k += 1
        out = []
        for j, line in enumerate(text.splitlines()):
            ps = re.split('([\ue000-\uf8ff])', line)
            ps = [hold[ord(x) - 0xE000] if i % 2 else x for i, x in enumerate(ps)]
            out.append(ps)
        if not any(isinstance(p, IntP) or (isinstance(p, str) and p) for p in out[-1]) and any(not isinstance(p, str) for p in out[-1]):
            raise Unsupported('splitlines: the last line may be empty')
        return self.alloc('list', tuple(Elem(self.mkstr(x)) for x in out))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Choice):
            vals = [self.getattr(x, name) for _, x in o.alts]
            if all(veq(v, vals[0]) for v in vals[1:]):
                return vals[0]
            if all(is_int(v) for v in vals):
                out = zi(vals[-1])
                for (c, _), v in zip(reversed(o.alts[:-1]), reversed(vals[:-1])):
                    out = z3.If(zb(c), zi(v), out)
                return simp(out)
            return self.getattr(self.force(o), name)
        o = self.force(o)
        if isinstance(o, Rec):
            if name in o.cls._fields:
                return o.vals[o.cls._fields.index(name)]
            if name == '_fields':
                return o.cls._fields
            if name in ('_replace', '_asdict', 'index', 'count'):
                return MethodV(o, name)
            raise PyRaise('AttributeError')
        if isinstance(o, (Ref, FList, STup, FSet, FDict, SStr, str, tuple, CtxFile)):
            return MethodV(o, name)
        if isinstance(o, ExcV):
            return Poison('exception attribute')
        if isinstance(o, (types.ModuleType, type, enum.Enum)):
            try:
                r = getattr(o, name)
            except AttributeError:
                raise PyRaise('AttributeError')
            return self.lift(r)
        if isinstance(o, FuncV):
            if name == '__name__':
                return o.qualname
        if isinstance(o, types.BuiltinFunctionType) or isinstance(o, types.FunctionType):
            return getattr(o, name)
        if isinstance(o, logging.Logger) and name == 'level':
            self.P.assumptions.add('the log level is the one the module sets on import')
            return o.level
        raise Unsupported(f'attribute {name} of {o!r}')

    # ------------------------------------------------------------------ names
    def lookup(self, name, ctx):
        fid, f = ctx
        h = self.heap
        unbound = False
        while True:
            if name in h[fid]:
                return h[fid][name]
            unbound = unbound or (f is not None and name in local_names(f.node))
            if f is not None and f.real is not None and f.real.__closure__ and name in f.real.__code__.co_freevars:
                return self.lift(f.real.__closure__[f.real.__code__.co_freevars.index(name)].cell_contents)
            if f is not None and f.closure is not None:
                fid, f = f.closure
                continue
            break
        if unbound:
            raise PyRaise('UnboundLocalError')
        g = f.glob if f is not None else {}
        if name in g:
            if name == 'GHOST' and g.get('__name__', '').startswith('contracts.'):
                self.ghost = g[name]      # ghost state of the contracts may change
            return self.lift(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise('NameError')

    # ------------------------------------------------------------------ expressions
    def ev(self, e, ctx):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, ctx)

    def ev_Constant(self, e, ctx):
        return e.value

    def ev_Name(self, e, ctx):
        return self.lookup(e.id, ctx)

    def ev_Attribute(self, e, ctx):
        return self.getattr(self.ev(e.value, ctx), e.attr)

    def ev_Tuple(self, e, ctx):
        return self.build_seq(e.elts, ctx, True)

    def ev_List(self, e, ctx):
        return self.build_seq(e.elts, ctx, False)

    def build_seq(self, elts, ctx, tup):
        seq = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq.extend(self.seq_of(self.ev(x.value, ctx)))
            else:
                seq.append(Elem(self.ev(x, ctx)))
        if not tup:
            return self.new_list(seq)
        if self.is_concrete_seq(seq):
            return tuple(s.val for s in seq)
        return STup(seq)

    def ev_Set(self, e, ctx):
        r = self.build_seq(e.elts, ctx, False)
        return self.alloc('set', self.dedupe(self.heap[r.id]))

    def ev_Dict(self, e, ctx):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, ctx)
                for kk, vv in self._items(d):
                    items = self.dict_put(items, kk, vv)
            else:
                kk = self.ev(k, ctx)
                items = self.dict_put(items, kk, self.ev(v, ctx))
        return self.alloc('dict', tuple(items))

    def ev_JoinedStr(self, e, ctx):
        ps = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                ps.append(p.value)
            else:
                v = self.ev(p.value, ctx)
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, ctx)
                    if isinstance(v, (int, str, float)) and isinstance(spec, str):
                        ps.append(format(v, spec))
                        continue
                    if spec in ('', 'd') and is_int(v):
                        ps.append(self.tostr(v))
                        continue
                    if spec in ('', 's') and is_str(v):
                        ps.append(v)
                        continue
                    if isinstance(spec, str) and (is_int(v) or is_str(v)):
                        ps.append(SStr([OStr('format', [self.freeze(v), spec])]))
                        continue
                    raise Unsupported('format spec')
                if p.conversion == ord('r'):
                    v = repr(v) if isinstance(v, (int, str)) else SStr([OStr('repr', [self.freeze(v)])])
                ps.append(self.tostr(v))
        return self.mkstr(ps)

    def ev_FormattedValue(self, e, ctx):
        return self.tostr(self.ev(e.value, ctx))

    def ev_IfExp(self, e, ctx):
        return self.ev(e.body if self.test(self.ev(e.test, ctx)) else e.orelse, ctx)

    def ev_BoolOp(self, e, ctx):
        # pure boolean combination without forking where all operands are booleans and total
        isand = isinstance(e.op, ast.And)
        acc = []
        for j, x in enumerate(e.values):
            v = self.ev(x, ctx)
            if is_bool(v) and self._total(e.values[j + 1:]):
                acc.append(v)
                if v is False and isand:
                    return False
                if v is True and not isand:
                    return True
                continue
            if acc:
                c = mkand(*acc) if isand else mkor(*acc)
                if j == len(e.values) - 1 and is_bool(v):
                    return mkand(c, v) if isand else mkor(c, v)
                if self.P.decide(c) != isand:
                    return not isand
                acc = []
            if j == len(e.values) - 1:
                return v
            t = self.truth(v)
            if self.P.decide(t) != isand:
                return v if not is_z(v) else (not isand)
        return mkand(*acc) if isand else mkor(*acc)

    def _total(self, exprs):
        """expressions whose evaluation cannot raise or branch: comparisons of names/attributes/constants/sums"""
        ok = (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Load, ast.cmpop,
              ast.operator, ast.unaryop, ast.boolop, ast.Add, ast.Sub)
        for x in exprs:
            for n in ast.walk(x):
                if not isinstance(n, ok):
                    return False
                if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    return False
        return True

    def ev_UnaryOp(self, e, ctx):
        v = self.ev(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            return mknot(self.truth(v))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            return -v if not is_z(v) else simp(-v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary')

    def ev_BinOp(self, e, ctx):
        return self.binop(e.op, self.ev(e.left, ctx), self.ev(e.right, ctx))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if is_bool(a) and isinstance(op, (ast.BitAnd, ast.BitOr)) and is_bool(b):
            return mkand(a, b) if isinstance(op, ast.BitAnd) else mkor(a, b)
        num = (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b))
        if num or (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            if not is_z(a) and not is_z(b):
                try:
                    return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                            ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.Div: lambda: a / b, ast.BitAnd: lambda: a & b,
                            ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]()
                except ZeroDivisionError:
                    raise PyRaise('ZeroDivisionError')
                except KeyError:
                    raise Unsupported('operator')
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return simp(x + y)
            if isinstance(op, ast.Sub):
                return simp(x - y)
            if isinstance(op, ast.Mult):
                return simp(x * y)
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
                return simp(x / y)
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
                return simp(x % y)
            raise Unsupported('symbolic arithmetic')
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return self.mkstr([a, b])
            ka, kb = self._kind(a), self._kind(b)
            if ka == kb == 'list':
                return self.new_list(tuple(self.seq_of(a)) + tuple(self.seq_of(b)))
            if ka == kb == 'tuple':
                s = tuple(self.seq_of(a)) + tuple(self.seq_of(b))
                return tuple(x.val for x in s) if self.is_concrete_seq(s) else STup(s)
        if isinstance(op, ast.Mult):
            if is_int(a) and not is_int(b):
                a, b = b, a
            if is_str(a) and is_int(b):
                if isinstance(b, int):
                    return self.mkstr([a] * max(b, 0))
                if isinstance(a, str):
                    return self.mkstr([RepP(a, self.nat(b))])
            if self._kind(a) in ('list', 'tuple') and is_int(b):
                seq = self.seq_of(a)
                if isinstance(b, int):
                    s = tuple(seq) * max(b, 0)
                elif len(seq) == 1 and isinstance(seq[0], Elem) and seq[0].guard is True:
                    s = (Comp(self.P.fresh('rp'), self.nat(b), True, [Elem(self.freeze(seq[0].val))]),)
                else:
                    raise Unsupported('sequence repetition')
                if self._kind(a) == 'list':
                    return self.new_list(s)
                return tuple(x.val for x in s) if self.is_concrete_seq(s) else STup(s)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and self._kind(a) == self._kind(b) == 'set':
            nm = {ast.BitAnd: 'intersection', ast.BitOr: 'union', ast.Sub: 'difference'}[type(op)]
            return self.setop(nm, self.concrete_elems(a), self.concrete_elems(b))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            raise Unsupported('% formatting')
        raise Unsupported(f'binary operator {type(op).__name__} on {a!r}, {b!r}')

    def ev_Compare(self, e, ctx):
        left = self.ev(e.left, ctx)
        out = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, ctx)
            out = mkand(out, self.cmp(op, left, right))
            if out is False:
                return False
            left = right
        return out

    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return mknot(self.eq(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else mknot(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.force(a), self.force(b)
            if a is None or b is None or isinstance(a, (enum.Enum, type, bool)) or isinstance(b, (enum.Enum, type, bool)):
                r = a is b
                if isinstance(a, bool) and is_zbool(b) or isinstance(b, bool) and is_zbool(a):
                    r = self.eq(a, b)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.id == b.id
            else:
                raise Unsupported('is')
            return r if isinstance(op, ast.Is) else mknot(r)
        a, b = self.force(a), self.force(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            x, y = zi(a), zi(b)
            return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if a is None or b is None or is_str(a) != is_str(b):
            raise PyRaise('TypeError')
        if isinstance(op, ast.LtE):
            return mknot(self.less(b, a))
        return mknot(self.less(a, b))

    def ev_Subscript(self, e, ctx):
        o = self.force(self.ev(e.value, ctx))
        if isinstance(e.slice, ast.Slice):
            a = self.ev(e.slice.lower, ctx) if e.slice.lower else None
            b = self.ev(e.slice.upper, ctx) if e.slice.upper else None
            st = self.ev(e.slice.step, ctx) if e.slice.step else None
            if is_str(o):
                if st is not None:
                    if isinstance(o, str) and not is_z(a) and not is_z(b):
                        return o[a:b:st]
                    raise Unsupported('string step slice')
                return self.str_slice(o, a, b)
            seq = self.seq_of(o)
            if st is not None:
                if not self.is_concrete_seq(seq):
                    if a is None and b is None and st == -1:
                        return self.mkreversed(o)
                    raise Unsupported('step slice')
                s = tuple(seq[a:b:st])
            else:
                s = self.slice_seq(seq, a, b)
            if self._kind(o) == 'list':
                return self.new_list(s)
            return tuple(x.val for x in s) if self.is_concrete_seq(s) else STup(s)
        k = self.ev(e.slice, ctx)
        return self.getitem(o, k)

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, MapV):
            return SStr([OStr(o.name, [self.freeze(k)])])
        if isinstance(o, (Ref, FDict)) and self._kind(o) == 'dict':
            for kk, v in self._items(o):
                if self.test(self.eq(kk, k)):
                    return v
            raise PyRaise('KeyError')
        k = self.force(k)
        if isinstance(o, str):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise('IndexError')
            if not self.P.decide(z3.And(k >= 0, k < len(o))):
                raise Unsupported('string index out of bounds')
            return self.mkstr([SliceP(o, k, simp(k + 1))])
        if isinstance(o, SStr) and isinstance(k, int):
            p = o.pieces[0 if k >= 0 else -1]
            if isinstance(p, str) and (k < len(p) if k >= 0 else -k <= len(p)):
                return p[k]
            raise Unsupported('index of symbolic string')
        if not is_int(k):
            raise PyRaise('TypeError') if not isinstance(o, (type,)) else Unsupported('class subscript')
        return self.index(self.seq_of(o), k)

    def ev_Lambda(self, e, ctx):
        return FuncV(e, ctx[1].glob, ctx[1].module, ctx[1].qualname + '.<lambda>', closure=ctx,
                     defaults=[self.ev(d, ctx) for d in e.args.defaults])

    def ev_ListComp(self, e, ctx):
        return self.comprehension(e.generators, lambda c: self.ev(e.elt, c), ctx, 'list')

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, ctx):
        r = self.comprehension(e.generators, lambda c: self.ev(e.elt, c), ctx, 'list')
        return self.alloc('set', self.dedupe(self.heap[r.id]))

    def ev_DictComp(self, e, ctx):
        r = self.comprehension(e.generators, lambda c: (self.ev(e.key, c), self.ev(e.value, c)), ctx, 'list')
        items = []
        for kv in self.concrete_elems(r):
            items = self.dict_put(items, *kv)
        return self.alloc('dict', tuple(items))

    def comprehension(self, gens, elt, ctx, kind):
        out = self.new_list()
        fid = next(self.ids)
        self.heap[fid] = {}
        f = FuncV(ctx[1].node, ctx[1].glob, ctx[1].module, ctx[1].qualname, closure=ctx)
        c = (fid, f)

        def run(j, c):
            if j == len(gens):
                self._append(out, elt(c))
                return
            g = gens[j]
            src = self.ev(g.iter, ctx if j == 0 else c)

            def step(v):
                self.assign(g.target, v, c)
                for t in g.ifs:
                    if not self.test(self.ev(t, c)):
                        raise _Continue()
                try:
                    run(j + 1, c)
                except _Continue:
                    pass
            self.loop(self.seq_of(src), step)
        run(0, c)
        return out

    def ev_Call(self, e, ctx):
        fn = e.func
        if is_log_call(e):
            return None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.attr in MUTATORS and fn.value.id in self.heap[ctx[0]]:
            self.thaw(fn.value.id, ctx)
        f = self.ev(fn, ctx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.seq_of(self.ev(a.value, ctx))
                if f is itertools.product and not self.is_concrete_seq(seq):
                    args.append(_Star(seq))
                else:
                    args.extend(self.concrete_elems(STup(seq)))
            else:
                args.append(self.ev(a, ctx))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, ctx))
                for kk, vv in self._items(d):
                    if kk in kwargs:
                        raise PyRaise('TypeError')
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, ctx)
        return self.call(f, args, kwargs)

    def thaw(self, name, ctx):
        """a local holding an element of a symbolic list is about to be mutated: give it its own cell and forget every other
        place that may hold the same list object"""
        v = self.heap[ctx[0]][name]
        if not isinstance(v, FList):
            return
        if self.loop_depth > 1:
            raise Unsupported('mutation of a list element inside nested loops')
        self.P.assumptions.add('lists nested in a list argument are distinct objects')
        ref = self.alloc('list', v.seq)
        for i, c in list(self.heap.items()):
            if i == 0 or i == ref.id:
                continue
            if isinstance(c, dict):
                d = {n: (x if (i == ctx[0] and n == name) or not holds_list(x) else Poison('may alias a mutated list')) for n, x in c.items()}
                if any(d[n] is not c[n] for n in c):
                    self.heap[i] = d
            elif any(holds_list_seg(x) for x in c):
                self.heap[i] = (OSeq('poison', [next(self.ids)]),)
        self.lset(ctx[0], name, ref)

    def ev_Starred(self, e, ctx):
        raise Unsupported('starred')

    def ev_NamedExpr(self, e, ctx):
        v = self.ev(e.value, ctx)
        self.assign(e.target, v, ctx)
        return v

    def ev_Yield(self, e, ctx):
        self._append(self.heap[ctx[0]]['$yield'], self.ev(e.value, ctx) if e.value else None)
        return None

    def ev_YieldFrom(self, e, ctx):
        out = self.heap[ctx[0]]['$yield']
        self.store(out, self.heap[out.id] + tuple(self.seq_of(self.ev(e.value, ctx))))
        return None

    # ------------------------------------------------------------------ statements
    def block(self, stmts, ctx):
        for s in stmts:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(s).__name__)
            m(s, ctx)

    def st_Expr(self, s, ctx):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, ctx)

    def st_Pass(self, s, ctx):
        pass

    def st_Return(self, s, ctx):
        raise _Return(self.ev(s.value, ctx) if s.value is not None else None)

    def st_Break(self, s, ctx):
        raise _Break()

    def st_Continue(self, s, ctx):
        raise _Continue()

    def st_Import(self, s, ctx):
        for a in s.names:
            self.lset(ctx[0], (a.asname or a.name).split('.')[0], __import__(a.name))

    def st_If(self, s, ctx):
        if self.test(self.ev(s.test, ctx)):
            self.block(s.body, ctx)
        else:
            self.block(s.orelse, ctx)

    def st_Assign(self, s, ctx):
        v = self.ev(s.value, ctx)
        for t in s.targets:
            self.assign(t, v, ctx)

    def st_AnnAssign(self, s, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, ctx), ctx)

    def st_AugAssign(self, s, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, ctx)
            v = self.ev(s.value, ctx)
            if isinstance(old, Ref) and old.kind == 'list' and isinstance(s.op, ast.Add):
                self.store(old, self.heap[old.id] + tuple(self.seq_of(v)))
                return
            self.assign(t, self.binop(s.op, old, v), ctx)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, ctx))
            k = self.ev(t.slice, ctx)
            old = self.getitem(o, k)
            v = self.ev(s.value, ctx)
            if isinstance(old, Ref) and old.kind == 'list' and isinstance(s.op, ast.Add):
                self.store(old, self.heap[old.id] + tuple(self.seq_of(v)))
                return
            self.setitem(o, k, self.binop(s.op, old, v))
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            self.lset(ctx[0], t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            vals = self.concrete_elems(v)
            star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                j, k = star[0], len(t.elts) - star[0] - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise('ValueError')
                for x, y in zip(t.elts[:j], vals[:j]):
                    self.assign(x, y, ctx)
                self.assign(t.elts[j].value, self.new_list(tuple(Elem(y) for y in vals[j:len(vals) - k])), ctx)
                for x, y in zip(t.elts[j + 1:], vals[len(vals) - k:]):
                    self.assign(x, y, ctx)
                return
            if len(vals) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, vals):
                self.assign(x, y, ctx)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, ctx))
            if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None and isinstance(o, Ref) and o.kind == 'list':
                self.store(o, tuple(self.seq_of(v)))
                return
            self.setitem(o, self.ev(t.slice, ctx), v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, k, v):
        if isinstance(o, Ref) and o.kind == 'dict':
            self.store(o, tuple(self.dict_put(self.heap[o.id], k, v)))
            return
        if isinstance(o, Ref) and o.kind == 'list':
            seq = self.heap[o.id]
            if isinstance(k, int):
                if self.is_concrete_seq(seq) and -len(seq) <= k < len(seq):
                    l = list(seq)
                    l[k] = Elem(v)
                    self.store(o, tuple(l))
                    return
                if self.is_concrete_seq(seq):
                    raise PyRaise('IndexError')
            c = self._simple_comp(seq)
            if c and is_int(k):
                var, hi, e = c
                if is_z(k) and not self.P.decide(k >= 0):
                    k = simp(k + zi(hi))
                if not self.P.decide(z3.And(zi(k) >= 0, zi(k) < zi(hi))):
                    raise PyRaise('IndexError')
                fv = self.freeze(v)
                self.store(o, (Comp(var, hi, True, [Elem(Choice([(simp(var == zi(k)), fv), (simp(var != zi(k)), e)]))]),))
                return
        raise Unsupported('item assignment')

    def st_Delete(self, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, ctx))
                k = self.ev(t.slice, ctx)
                if isinstance(o, Ref) and o.kind == 'dict':
                    self.dict_method(o, 'pop', [k], {})
                    continue
                if isinstance(o, Ref) and o.kind == 'list':
                    self.method(o, 'pop', [k], {})
                    continue
            elif isinstance(t, ast.Name):
                d = dict(self.heap[ctx[0]])
                d.pop(t.id, None)
                self.heap[ctx[0]] = d
                continue
            raise Unsupported('del')

    def st_For(self, s, ctx):
        if log_only([s]):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.lset(ctx[0], n.id, Poison('variable of a logging loop'))
            return
        src = self.ev(s.iter, ctx)
        seq = self.seq_of(src)

        def step(v):
            self.assign(s.target, v, ctx)
            self.block(s.body, ctx)
        try:
            self.loop(seq, step)
        except _Break:
            return
        self.block(s.orelse, ctx)

    def st_While(self, s, ctx):
        n = 0
        while True:
            c = self.truth(self.ev(s.test, ctx))
            if is_z(c):
                # only bounded unrolling by decided conditions is possible
                if not self.P.decide(c):
                    break
                n += 1
                if n > 12:
                    raise Unsupported('symbolic while loop')
            elif not c:
                break
            else:
                n += 1
                if n > 2000:
                    raise Unsupported('long while loop')
            try:
                self.block(s.body, ctx)
            except _Continue:
                pass
            except _Break:
                return
        self.block(s.orelse, ctx)

    def st_Assert(self, s, ctx):
        if not self.test(self.ev(s.test, ctx)):
            raise PyRaise('AssertionError')

    def st_Raise(self, s, ctx):
        if s.exc is None:
            raise PyRaise('reraise')
        x = s.exc
        # exception arguments are not evaluated further than the class
        node = x.func if isinstance(x, ast.Call) else x
        v = self.ev(node, ctx)
        if isinstance(v, type) and issubclass(v, BaseException):
            if isinstance(x, ast.Call):
                for a in x.args:           # arguments may themselves raise
                    try:
                        self.ev(a, ctx)
                    except Unsupported:
                        pass
            raise PyRaise(v.__name__)
        if isinstance(v, ExcV):
            raise PyRaise(v.name)
        raise Unsupported('raise')

    def st_Try(self, s, ctx):
        try:
            self.block(s.body, ctx)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    match = True
                else:
                    t = self.ev(h.type, ctx)
                    ts = t if isinstance(t, tuple) else (t,)
                    real = getattr(builtins, e.name, Exception)
                    match = any(isinstance(x, type) and issubclass(real, x) for x in ts)
                if match:
                    if h.name:
                        self.lset(ctx[0], h.name, Poison('exception object'))
                    self.block(h.body, ctx)
                    break
            else:
                self.block(s.finalbody, ctx)
                raise
        else:
            self.block(s.orelse, ctx)
        self.block(s.finalbody, ctx)

    def st_With(self, s, ctx):
        for it_ in s.items:
            v = self.ev(it_.context_expr, ctx)
            if not isinstance(v, CtxFile):
                raise Unsupported('with')
            if it_.optional_vars is not None:
                self.assign(it_.optional_vars, v, ctx)
        self.block(s.body, ctx)

    def st_FunctionDef(self, s, ctx):
        f = FuncV(s, ctx[1].glob, ctx[1].module, ctx[1].qualname + '.<locals>.' + s.name, closure=ctx,
                  defaults=[self.ev(d, ctx) for d in s.args.defaults])
        self.lset(ctx[0], s.name, f)

    def st_Global(self, s, ctx):
        raise Unsupported('global')


class _Star:
    def __init__(self, seq):
        self.seq = seq
