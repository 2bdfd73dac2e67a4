"""Frame obligations: every function reachable from the entry points assigns nothing but its own locals, fresh objects and (inner functions) its
mutable arguments, and reads nothing but its arguments and module constants.

A modular effect system over the real source: each function gets a summary (which parameters it mutates, which parameters or module objects its result
may share), computed to a fixpoint; callers are checked against the summaries. Values are tracked flow-insensitively as token sets: 'G' (may share a
mutable module-level object), ('P', p) (may share parameter p), 'S' (may be a set). Anything not understood is a failed (undecided) obligation.
"""
import ast
import builtins
import enum
import functools
import inspect
import logging
import os
import re
import sys
import textwrap
import types

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', '__setitem__', '__setattr__', 'subtract', 'rotate', 'move_to_end'}
METHODS = MUTATORS | {'join', 'format', 'replace', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'count', 'index', 'find', 'rfind', 'startswith', 'endswith',
                      'copy', 'items', 'keys', 'values', 'get', '_replace', '_asdict', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint',
                      'symmetric_difference', 'zfill', 'ljust', 'rjust', 'center', 'splitlines', 'title', 'capitalize', 'isdigit', 'translate', 'partition', 'rpartition',
                      'write', 'writelines', 'read', 'readlines', 'close', 'isalpha', 'isnumeric', 'removesuffix', 'removeprefix', 'most_common', 'elements', 'expandtabs', 'casefold', 'swapcase', 'as_integer_ratio', '__str__', '__repr__', '__len__'}
FRESH_METHODS = {'join', 'format', 'replace', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'count', 'index', 'find', 'rfind', 'startswith', 'endswith',
                 'splitlines', 'isdigit', 'write', 'zfill', 'ljust', 'rjust', 'center', 'isdisjoint', 'issubset', 'issuperset'}
BUILTINS = {'abs', 'all', 'any', 'bool', 'dict', 'divmod', 'enumerate', 'filter', 'float', 'frozenset', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list', 'map', 'max', 'min',
            'next', 'pow', 'print', 'range', 'repr', 'reversed', 'round', 'set', 'slice', 'sorted', 'str', 'sum', 'tuple', 'type', 'zip', 'open', 'getattr', 'hasattr', 'ord', 'chr', 'callable', 'bytes', 'complex', 'format'}
SCALAR = {'abs', 'all', 'any', 'bool', 'divmod', 'float', 'int', 'isinstance', 'issubclass', 'len', 'pow', 'print', 'range', 'repr', 'round', 'str', 'open', 'ord', 'chr', 'callable', 'hasattr', 'format', 'bytes', 'complex'}
MODULES = {'itertools', 'math', 'operator', 'collections', 'functools', 'copy', 'string', 'fractions', 'posixpath', 'os.path', 'genericpath', 're', 'textwrap', 'types', 'enum', 'typing', 'numbers', 'json', 'json.decoder', 'json.encoder'}
# fields of the namedtuples that hold integers
INTFIELD = re.compile(r'^(rank|maximum_rank|m|n|[mn]_(o|h|l|r|z|lhs))$')
UNORDERED_OK = {'sorted', 'len', 'set', 'frozenset', 'sum', 'min', 'max', 'any', 'all', 'isinstance', 'print', 'bool', 'type', 'tuple_len', 'repr', 'str'}


def immutable(v, depth=0):
    if v is None or isinstance(v, (str, bytes, int, float, complex, bool, range, enum.Enum, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, logging.Logger, logging.LoggerAdapter, functools.partial, type(Ellipsis))):
        return True
    if isinstance(v, type):
        return True
    if isinstance(v, (tuple, frozenset)) and depth < 6:
        return all(immutable(x, depth + 1) for x in v)
    return False


class Fn:
    """one function of the code under verification"""

    def __init__(self, module, func, node, file):
        self.module, self.func, self.node, self.file = module, func, node, file
        self.ns = func.__globals__
        self.mutates = set()      # parameters it may mutate
        self.returns = NONE       # its result
        self.problems = []
        self.nob = 0
        self.callees = set()
        self.calls = set()        # parameters it calls
        self.sets = []

    @property
    def name(self):
        return f'{self.module}.{self.func.__qualname__}'


class Analysis:
    def __init__(self, roots):
        self.roots = roots
        self.fns = {}

    def inside(self, f):
        try:
            p = os.path.realpath(inspect.getsourcefile(f) or '')
        except TypeError:
            return False
        return any(p.startswith(os.path.realpath(r) + os.sep) for r in self.roots)

    def fn(self, f):
        f = inspect.unwrap(f) if isinstance(f, types.FunctionType) and not hasattr(f, '__wrapped__') else f
        k = (f.__module__, f.__qualname__)
        if k not in self.fns:
            src = textwrap.dedent(inspect.getsource(f))
            node = ast.parse(src).body[0]
            self.fns[k] = Fn(f.__module__, f, node, inspect.getsourcefile(f))
        return self.fns[k]

    def run(self, entries):
        todo = [self.fn(f) for f in entries]
        self.entries = {id(x) for x in todo}
        for _ in range(12):
            before = {k: (frozenset(v.mutates), v.returns.s, v.returns.i, v.returns.set) for k, v in self.fns.items()}
            seen = set()
            stack = list(todo)
            while stack:
                x = stack.pop()
                if id(x) in seen:
                    continue
                seen.add(id(x))
                One(self, x).go()
                stack += list(x.callees)
            if before == {k: (frozenset(v.mutates), v.returns.s, v.returns.i, v.returns.set) for k, v in self.fns.items()}:
                break
        for x in todo:
            x.nob += 1
            if any(t[0] == 'P' for t in x.mutates):     # the option values themselves are immutable
                x.problems.append(f'modifies its options: {sorted(map(str, x.mutates))}')
        return list(self.fns.values())


class V:
    """abstract value: shared objects it may be (self), shared objects reachable inside it (inner), and whether it may be a set"""
    __slots__ = ('s', 'i', 'set')

    def __init__(self, s=(), i=(), set_=False):
        self.s, self.i, self.set = frozenset(s), frozenset(i), set_

    def __or__(self, o):
        return V(self.s | o.s, self.i | o.i, self.set or o.set)

    def part(self):
        return V(self.i, self.i)

    def held(self):
        """a fresh container holding it"""
        return V((), self.s | self.i)

    def fresh(self):
        """a fresh container with the same elements"""
        return V((), self.i)

    def __eq__(self, o):
        return self.s == o.s and self.i == o.i and self.set == o.set


NONE = V()
GLOBAL = V({'G'}, {'G'})


class One(ast.NodeVisitor):
    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        fn.problems, fn.nob, fn.sets = [], 0, []
        self.vars = {}
        self.params = []
        self.local_funcs = {}
        self.final = False
        self.in_nested = 0

    def bad(self, node, why):
        if self.final:
            self.fn.problems.append(f'line {getattr(node, "lineno", 0) + self.fn.func.__code__.co_firstlineno - 1}: {why}')

    def add(self, name, v):
        o = self.vars.get(name, NONE)
        n = o | v
        if not n == o:
            self.vars[name] = n
            self.changed = True

    def params_of(self, a):
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])

    def go(self):
        fn, node = self.fn, self.fn.node
        self.params = self.params_of(node.args)
        for p in self.params:
            self.vars[p] = V({('P', p)}, {('I', p)})
        if node.args.vararg:
            self.vars[node.args.vararg.arg] = V((), {('I', node.args.vararg.arg)})
        if node.args.kwarg:
            self.vars[node.args.kwarg.arg] = V((), {('I', node.args.kwarg.arg)})
        names = node.args.posonlyargs + node.args.args
        for p, d in list(zip(names[len(names) - len(node.args.defaults):], node.args.defaults)) + [(p, d) for p, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None]:
            try:
                shared = not immutable(ast.literal_eval(d))
            except ValueError:
                shared = not isinstance(d, (ast.Name, ast.Attribute))
            if shared:      # a mutable default is shared between calls
                self.vars[p.arg] |= GLOBAL
        self.collect(node)
        for _ in range(30):
            self.changed = False
            self.block(node.body)
            if not self.changed:
                break
        self.final = True
        fn.nob = 0
        fn.callees = set()
        for d in node.decorator_list:
            fn.nob += 1
            if not (isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property')):
                self.bad(node, f'decorator {ast.unparse(d)} may keep state between calls')
        self.block(node.body)
        fn.nob += 1     # the frame itself

    def collect(self, node):
        """all names bound anywhere inside (nested functions share the frame)"""
        self.locals = set(self.params)
        self.consts = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
                self.consts.setdefault(n.id, []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                if isinstance(n, ast.FunctionDef):
                    self.locals.add(n.name)
                    self.local_funcs[n.name] = n
                self.locals.update(self.params_of(n.args))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.local_funcs[t.id] = n.value
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
                self.consts[n.targets[0].id].append(n.value.value)
            if isinstance(n, ast.Global):
                self.locals -= set(n.names)
        # parameters and locals only ever bound to loggers
        self.loggers = set()
        # locals only ever bound to one falsy constant
        self.off = {k for k, v in self.consts.items() if k not in self.params and v.count(None) * 2 == len(v) and all(x is None or x is False for x in v) and v.count(False) * 2 == len(v)}

    def constant(self, e):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name) and e.id in self.off:
            return False
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and any(self.constant(x) is False for x in e.values):
            return False
        return None

    def block(self, body):
        for s in body:
            self.visit(s)
            if isinstance(s, (ast.Raise, ast.Return, ast.Break, ast.Continue)):
                break

    # ---------------------------------------------------------------- values
    def lookup(self, name):
        if name in self.fn.ns:
            return self.fn.ns[name]
        return getattr(builtins, name)

    def own_class(self, name):
        """the class a class method's first parameter stands for (an enumeration, which has no subclasses)"""
        fn, node = self.fn, self.fn.node
        if not node.args.args or node.args.args[0].arg != name or '.' not in fn.func.__qualname__:
            return None
        if any(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for n in ast.walk(node)):
            return None
        c = fn.func.__globals__.get(fn.func.__qualname__.split('.')[0])
        if isinstance(c, type) and issubclass(c, enum.Enum) and isinstance(c.__dict__.get(fn.func.__name__), classmethod):
            return c
        return None

    def static(self, e):
        """the module-level object an expression names, or raise"""
        if isinstance(e, ast.Name) and e.id not in self.locals:
            return self.lookup(e.id)
        if isinstance(e, ast.Name) and (c := self.own_class(e.id)) is not None:
            return c
        if isinstance(e, ast.Attribute):
            b = self.static(e.value)
            if isinstance(b, (types.ModuleType, type)):
                return getattr(b, e.attr)
        raise LookupError

    def val(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.UnaryOp, ast.Lambda, ast.Slice)):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in self.locals:
                return self.vars.get(e.id, NONE)
            try:
                v = self.lookup(e.id)
            except AttributeError:
                return GLOBAL
            return NONE if immutable(v) else GLOBAL
        if isinstance(e, ast.Attribute):
            try:
                v = self.static(e)
                return NONE if immutable(v) else GLOBAL
            except (LookupError, AttributeError):
                return NONE if INTFIELD.match(e.attr) else self.val(e.value).part()
        if isinstance(e, ast.Subscript):
            v = self.val(e.value)
            if self.fn.node.args.kwarg and isinstance(e.value, ast.Name) and e.value.id == self.fn.node.args.kwarg.arg:
                return NONE         # an option: a flag or a string
            try:
                if isinstance(self.static(e.slice), enum.Enum):
                    return NONE     # a truncation: an integer (C01)
            except (LookupError, AttributeError):
                pass
            return v.fresh() if isinstance(e.slice, ast.Slice) else v.part()
        if isinstance(e, ast.Set):
            return V((), self.kids(e).held().i, True)
        if isinstance(e, ast.SetComp):
            return V((), self.val(e.elt).held().i, True)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.val(e.elt).held()
        if isinstance(e, ast.DictComp):
            return (self.val(e.key) | self.val(e.value)).held()
        if isinstance(e, ast.Call):
            return self.call_val(e)
        if isinstance(e, (ast.List, ast.Tuple)):
            r = NONE
            for x in e.elts:
                r |= self.val(x.value).fresh() if isinstance(x, ast.Starred) else self.val(x).held()
            return r
        if isinstance(e, ast.Dict):
            r = NONE
            for x in e.values + [k for k in e.keys if k is not None]:
                r |= self.val(x).held()
            return r
        if isinstance(e, ast.IfExp):
            return self.val(e.body) | self.val(e.orelse)
        if isinstance(e, ast.BoolOp):
            r = NONE
            for x in e.values:
                r |= self.val(x)
            return r
        if isinstance(e, ast.BinOp):
            l, r = self.val(e.left), self.val(e.right)
            return V((), l.i | r.i, l.set or r.set)
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value)
        if isinstance(e, ast.Starred):
            return self.val(e.value)
        return self.kids(e).held() | self.kids(e)

    def kids(self, e):
        r = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r |= self.val(c)
        return r

    def args_of(self, e):
        return list(e.args) + [k.value for k in e.keywords]

    def allargs(self, e):
        r = NONE
        for a in self.args_of(e):
            r |= self.val(a)
        return r

    def through(self, toks, m):
        """a callee's tokens in terms of the caller's arguments"""
        out = set()
        for t in toks:
            if t == 'G':
                out.add('G')
            else:
                for v in m.get(t[1], []):
                    out |= v.s if t[0] == 'P' else v.i
        return out

    def call_val(self, e):
        kind, f = self.callee(e)
        if kind == 'repo':
            F = self.A.fn(f)
            m = self.match(F, e)
            return V(self.through(F.returns.s, m), self.through(F.returns.i, m), F.returns.set)
        if kind == 'local':
            if isinstance(f, ast.Lambda):
                return self.val(f.body)
            r = NONE
            for x in ast.walk(f):
                if isinstance(x, ast.Return):
                    r |= self.val(x.value)
            return r
        if kind == 'log':
            return NONE
        if kind == 'method':
            if f in FRESH_METHODS:
                return NONE
            o = self.val(e.func.value)
            if f in ('get', 'pop', 'setdefault', 'popitem', 'popleft'):
                return o.part() | self.allargs(e)
            if f in ('copy', 'items', 'keys', 'values', '_replace', '_asdict', 'elements', 'most_common'):
                r = V((), o.i | self.allargs(e).held().i, o.set and f == 'copy')
                return r
            if f in ('union', 'intersection', 'difference', 'symmetric_difference'):
                return V((), o.i | self.allargs(e).i, True)
            return (o | self.allargs(e)).held() | o
        a = self.allargs(e)
        if kind == 'builtin':
            if f in SCALAR:
                return NONE
            if f in ('list', 'tuple', 'dict', 'sorted', 'reversed', 'iter', 'frozenset', 'set', 'enumerate', 'zip', 'filter'):
                return V((), a.i, f in ('set', 'frozenset'))
            if f == 'sum':
                return a.fresh() | a.part().fresh()
            return a.held() | a.part()
        return a.held()

    def callee(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in self.local_funcs:
            return 'local', self.local_funcs[f.id]
        if isinstance(f, ast.Attribute):
            try:
                if isinstance(self.static(f.value), (logging.Logger, logging.LoggerAdapter)):
                    return 'log', None
            except (LookupError, AttributeError):
                if isinstance(f.value, ast.Name) and f.value.id in self.loggers:
                    return 'log', None
        try:
            v = self.static(f)
        except (LookupError, AttributeError):
            if isinstance(f, ast.Attribute):
                return 'method', f.attr
            if isinstance(f, ast.Lambda):
                return 'local', f
            if isinstance(f, ast.Name) and f.id in self.params:
                return 'param', f.id
            return 'unknown', None
        if isinstance(v, functools.partial):
            return 'partial', v
        if isinstance(v, types.MethodType) and self.A.inside(v.__func__):
            return 'repo', v.__func__
        if isinstance(v, types.FunctionType) and self.A.inside(v):
            return 'repo', v
        if isinstance(f, ast.Attribute):
            try:
                b = self.static(f.value)
            except (LookupError, AttributeError):
                b = None
            if not isinstance(b, (types.ModuleType, type)):
                return 'method', f.attr
        if v is open or getattr(v, '__module__', None) == 'builtins' and getattr(v, '__name__', '') in BUILTINS:
            return 'builtin', v.__name__
        if v is sys.exit:
            return 'pure', v
        if isinstance(v, type) and (issubclass(v, (tuple, enum.Enum, BaseException)) or v.__module__ in MODULES):
            return 'pure', v
        if (getattr(v, '__module__', None) or '') in MODULES:
            return 'pure', v
        if isinstance(v, types.BuiltinFunctionType) and isinstance(getattr(v, '__self__', None), types.ModuleType) and v.__self__.__name__ in MODULES:
            return 'pure', v
        return 'unknown', v

    def match(self, F, e, exprs=False):
        """abstract values (or the expressions) of the arguments per parameter of F"""
        a = F.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if pos and pos[0] in ('cls', 'self') and '.' in F.func.__qualname__:
            pos = pos[1:]
        out = {}

        def put(p, v, x):
            out.setdefault(p, []).append(x if exprs else v)
        for j, x in enumerate(e.args):
            if isinstance(x, ast.Starred):
                for p in pos[j:]:
                    put(p, self.val(x.value).part(), x.value)
                if a.vararg:
                    put(a.vararg.arg, self.val(x.value).fresh(), x.value)
            elif j < len(pos):
                put(pos[j], self.val(x), x)
            elif a.vararg:
                put(a.vararg.arg, self.val(x).held(), x)
        names = pos + [x.arg for x in a.kwonlyargs]
        for k in e.keywords:
            if k.arg is None:
                for p in names:
                    put(p, self.val(k.value).part(), k.value)
                if a.kwarg:
                    put(a.kwarg.arg, self.val(k.value).fresh(), k.value)
            elif k.arg in names:
                put(k.arg, self.val(k.value), k.value)
            elif a.kwarg:
                put(a.kwarg.arg, self.val(k.value).held(), k.value)
        return out

    # ---------------------------------------------------------------- effects
    def mutate(self, node, toks, what):
        if self.final:
            self.fn.nob += 1
        for t in toks:
            if t == 'G':
                self.bad(node, f'{what} may change an object that outlives the call')
            else:
                self.fn.mutates.add(t)

    def bind(self, target, v, elements=False):
        if isinstance(target, ast.Name):
            if target.id not in self.locals:
                self.mutate(target, {'G'}, f'assignment to the global {target.id}')
            else:
                self.add(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.bind(t, v.fresh() if isinstance(t, ast.Starred) else v.part())
        elif isinstance(target, ast.Starred):
            self.bind(target.value, v)
        elif isinstance(target, (ast.Attribute, ast.Subscript)):
            self.mutate(target, self.root(target.value), f'store to {ast.unparse(target)}')
            self.absorb(target.value, v.held())

    def root(self, e):
        """objects about to be changed; a named module-level function, class or module counts as shared"""
        try:
            self.static(e)
            return {'G'}
        except (LookupError, AttributeError):
            return self.val(e).s

    def absorb(self, e, v):
        """the object e denotes, and so whatever variable it was reached from, now holds v.i"""
        while isinstance(e, (ast.Attribute, ast.Subscript)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            e = e.value if not isinstance(e, ast.Call) else e.func.value
        if isinstance(e, ast.Name) and e.id in self.locals:
            self.add(e.id, V((), v.i))

    def unordered(self, node, e, how):
        if self.val(e).set and self.final:
            self.fn.nob += 1
            if self.intish(e) or isinstance(node, ast.For) and self.commutes(node) or self.then_sorted(node):
                return      # integers hash the same in every process; or the order does not matter
            self.fn.sets.append(f'line {node.lineno + self.fn.func.__code__.co_firstlineno - 1}: {how} in the order of a set')

    def then_sorted(self, node):
        """x = list(a set) directly followed by x.sort()"""
        for b in ast.walk(self.fn.node):
            for body in (getattr(b, 'body', None), getattr(b, 'orelse', None)):
                if isinstance(body, list):
                    for s, t in zip(body, body[1:]):
                        if (isinstance(s, ast.Assign) and s.value is node and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                                and isinstance(t, ast.Expr) and ast.unparse(t.value) == f'{s.targets[0].id}.sort()'):
                            return True
        return False

    def commutes(self, n):
        """every iteration reads and then overwrites only the entries under its own key (the keys of a set are distinct)"""
        if not isinstance(n.target, ast.Name) or n.orelse:
            return False
        key, temps = n.target.id, set()

        def own(e):
            return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Name) and e.slice.id == key
        first = n.body[0]
        present = {x.value.id for x in ast.walk(first) if own(x) and isinstance(x.ctx, ast.Load)}

        def ok(s):
            if isinstance(s, ast.If):
                return pure(s.test) and all(map(ok, s.body)) and all(map(ok, s.orelse))
            if isinstance(s, (ast.Pass, ast.Continue)):
                return True
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Name) and s is first:
                        temps.add(x.id)
                    elif not (own(x) and x.value.id in present):
                        return False
                return pure(s.value)
            return False

        def pure(e):
            for x in ast.walk(e):
                if isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield)):
                    return False
                if isinstance(x, ast.Name) and x.id in present and not any(own(y) and y.value is x for y in ast.walk(e)):
                    return False
            return True
        if not all(map(ok, n.body)):
            return False
        inside = {id(x) for x in ast.walk(n)}
        return not any(isinstance(x, ast.Name) and x.id in temps | {key} and isinstance(x.ctx, ast.Load) and id(x) not in inside and x.lineno > n.lineno for x in ast.walk(self.fn.node))

    def intish(self, e):
        """made of integers only"""
        if not hasattr(self, 'ints'):
            self.ints = set(self.locals) - set(self.params)
            binds = {k: [] for k in self.ints}

            def put(t, v):
                if isinstance(t, ast.Name):
                    binds.setdefault(t.id, []).append(v)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        put(x, v)
                elif isinstance(t, ast.Starred):
                    put(t.value, v)
                elif isinstance(t, ast.Subscript):
                    put(t.value, v)
                    put(t.value, t.slice)
            for x in ast.walk(self.fn.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        put(t, x.value)
                elif isinstance(x, (ast.AugAssign, ast.NamedExpr)):
                    put(x.target, x.value)
                elif isinstance(x, (ast.For, ast.comprehension)):
                    put(x.target, x.iter)
                elif isinstance(x, (ast.withitem,)) and x.optional_vars is not None:
                    put(x.optional_vars, None)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    b = x.func.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        for a in self.args_of(x):
                            put(b, a)
                elif isinstance(x, ast.Call) and self.callee(x)[0] in ('repo', 'local', 'unknown', 'param'):
                    for a in self.args_of(x):
                        if isinstance(a, ast.Name):
                            put(a, None)
            for x in ast.walk(self.fn.node):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not self.fn.node:
                    for q in self.params_of(x.args):
                        binds.setdefault(q, []).append(None)
            while True:
                drop = {k for k in self.ints if any(v is None or not self._int(v) for v in binds.get(k, []))}
                if not drop:
                    break
                self.ints -= drop
        return self._int(e)

    def _int(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, bool))
        if isinstance(e, ast.Attribute):
            return bool(INTFIELD.match(e.attr))
        if isinstance(e, ast.Name):
            return e.id in self.ints
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return all(self._int(x) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self._int(e.elt)
        if isinstance(e, ast.BinOp):
            return self._int(e.left) and self._int(e.right)
        if isinstance(e, (ast.Compare,)):
            return True
        if isinstance(e, ast.UnaryOp):
            return self._int(e.operand)
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self._int(e.value)
        if isinstance(e, ast.IfExp):
            return self._int(e.body) and self._int(e.orelse)
        if isinstance(e, ast.Call):
            kind, f = self.callee(e)
            if kind == 'builtin':
                return f in ('range', 'len', 'int', 'abs') or f in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'sum', 'min', 'max', 'reversed', 'enumerate', 'zip') and all(self._int(a) for a in e.args)
            if kind == 'pure':
                return getattr(f, '__module__', '') in ('itertools', 'math') and all(self._int(a) for a in e.args)
            if kind == 'method':
                return f in ('copy', 'union', 'intersection', 'difference', 'index', 'count', 'pop') and self._int(e.func.value) and all(self._int(a) for a in e.args)
        return False

    def visit_Assign(self, n):
        v = self.val(n.value)
        for x in n.targets:
            self.bind(x, v)
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                self.visit(x.value)
        self.visit(n.value)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.bind(n.target, self.val(n.value))
            self.visit(n.value)

    def number(self, e):
        if isinstance(e, ast.Attribute) and INTFIELD.match(e.attr):
            return True
        if isinstance(e, ast.Call) and self.callee(e) == ('builtin', 'sum') and e.args and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)) and self.number(e.args[0].elt):
            return True
        return (isinstance(e, ast.Constant) and isinstance(e.value, (int, float, bool))
                or isinstance(e, ast.UnaryOp)
                or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)) and (self.number(e.left) or self.number(e.right))
                or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (self.number(e.left) or self.number(e.right))
                or isinstance(e, ast.Call) and self.callee(e) in (('builtin', 'len'), ('builtin', 'int'), ('builtin', 'abs')))

    def visit_AugAssign(self, n):
        v = self.val(n.value)
        if not isinstance(n.target, ast.Name):
            self.mutate(n, self.root(n.target.value), f'in-place update of {ast.unparse(n.target)}')
            if not self.number(n.value):
                self.mutate(n, self.root(n.target), f'in-place update of {ast.unparse(n.target)}')
            self.absorb(n.target, v)
        else:
            if n.target.id not in self.locals:
                self.mutate(n, {'G'}, f'assignment to the global {n.target.id}')
            elif not self.number(n.value) and not isinstance(n.value, ast.JoinedStr) and not (isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)):
                self.mutate(n, self.val(n.target).s, f'in-place update of {n.target.id}')
            self.bind(n.target, v.fresh())
        self.visit(n.value)

    def visit_NamedExpr(self, n):
        self.bind(n.target, self.val(n.value))
        self.visit(n.value)

    def visit_Delete(self, n):
        for t in n.targets:
            if not isinstance(t, ast.Name):
                self.mutate(t, self.root(t.value), f'del {ast.unparse(t)}')

    def visit_If(self, n):
        k = self.constant(n.test)
        self.visit(n.test)
        if k is not False:
            self.block(n.body)
        if k is not True:
            self.block(n.orelse)

    def visit_While(self, n):
        self.visit(n.test)
        self.block(n.body)
        self.block(n.orelse)

    def visit_For(self, n):
        self.unordered(n, n.iter, 'loops')
        self.bind(n.target, self.items(n.iter))
        self.visit(n.iter)
        self.block(n.body)
        self.block(n.orelse)

    def items(self, e):
        return self.val(e).part()

    def comp(self, n):
        for g in n.generators:
            if not isinstance(n, ast.SetComp):
                self.unordered(n, g.iter, 'comprehends')
            self.bind(g.target, self.items(g.iter))
        self.generic_visit(n)
    visit_ListComp = visit_DictComp = visit_GeneratorExp = visit_SetComp = comp

    def visit_Starred(self, n):
        self.unordered(n, n.value, 'unpacks')
        self.generic_visit(n)

    def visit_With(self, n):
        for i in n.items:
            if i.optional_vars is not None:
                self.bind(i.optional_vars, NONE)
            self.visit(i.context_expr)
        self.block(n.body)

    def visit_Global(self, n):
        pass    # assignments to the names are judged where they happen

    def visit_Return(self, n):
        if n.value is not None:
            if not self.in_nested:
                self.fn.returns |= self.val(n.value)
            self.visit(n.value)

    def visit_Yield(self, n):
        if n.value is not None:
            if not self.in_nested:
                self.fn.returns |= self.val(n.value).held()
            self.visit(n.value)

    def visit_YieldFrom(self, n):
        if not self.in_nested:
            self.fn.returns |= self.val(n.value).fresh()
        self.visit(n.value)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.bad(n, f'decorator {ast.unparse(d)}')
        self.in_nested += 1
        self.block(n.body)
        self.in_nested -= 1

    def visit_Lambda(self, n):
        self.in_nested += 1
        self.visit(n.body)
        self.in_nested -= 1

    def visit_Import(self, n):
        self.bad(n, 'local import')
    visit_ImportFrom = visit_Import

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id not in self.locals and self.final:
            self.fn.nob += 1
            try:
                v = self.lookup(n.id)
            except AttributeError:
                return      # NameError: no effect
            if isinstance(v, types.ModuleType) and v.__name__ not in MODULES and not self.A.inside_module(v):
                self.bad(n, f'uses module {v.__name__}')

    def visit_Call(self, e):
        kind, f = self.callee(e)
        if self.final:
            self.fn.nob += 1
        if kind == 'log':
            return
        for a in self.args_of(e):
            self.visit(a)
        if isinstance(e.func, ast.Attribute):
            if kind == 'method':
                self.visit(e.func.value)
        elif not isinstance(e.func, ast.Name):
            self.visit(e.func)
        if kind == 'unknown':
            try:
                self.static(e.func)
                self.bad(e, f'calls {ast.unparse(e.func)}, whose effects are not known')
            except AttributeError:
                pass    # an undefined name: NameError, the call has no effect
            except LookupError:
                self.bad(e, f'calls {ast.unparse(e.func)}, whose effects are not known')
        elif kind == 'method':
            b = e.func.value
            if isinstance(b, ast.Name) and b.id not in self.locals and b.id not in self.fn.ns and not hasattr(builtins, b.id):
                return      # NameError
            if f not in METHODS:
                self.bad(e, f'calls the method {f}, whose effects are not known')
            if f in MUTATORS:
                self.mutate(e, self.root(e.func.value), f'{ast.unparse(e.func)}()')
                a = self.allargs(e)
                self.absorb(e.func.value, a.fresh() if f in ('extend', 'update') else a.held())
                if f == 'pop' and not e.args:
                    self.unordered(e, e.func.value, 'pops')
                if f == 'extend':
                    for a in e.args:
                        self.unordered(e, a, 'extends a list')
            if f == 'join':
                for a in e.args:
                    self.unordered(e, a, 'joins')
        elif kind == 'builtin':
            if f not in UNORDERED_OK or (f in ('sorted', 'min', 'max') and any(k.arg == 'key' for k in e.keywords)):
                if not (f in ('list', 'tuple') and self.under_sorted(e)):
                    for a in e.args:
                        self.unordered(e, a, f'{f}()')
        elif kind == 'repo':
            F = self.A.fn(f)
            self.fn.callees.add(F)
            m = self.match(F, e)
            self.mutate(e, self.through(F.mutates, m), f'{f.__qualname__}(...)')
            # a changed argument may now hold parts of the others
            changed = {t[1] for t in F.mutates if t != 'G'}
            if changed:
                a = self.allargs(e)
                for p, xs in self.match(F, e, exprs=True).items():
                    if p in changed:
                        for x in xs:
                            self.absorb(x, a.held())
            for p in F.calls:
                for x in self.match(F, e, exprs=True).get(p, []):
                    self.passed(e, x)
        elif kind == 'param':
            self.fn.calls.add(f)
        elif kind == 'partial':
            self.pure_target(e, f)
        elif kind == 'local':
            ps = [x.arg for x in f.args.args]
            for p, a in zip(ps, e.args):
                self.add(p, self.val(a))
            for k in e.keywords:
                if k.arg in ps:
                    self.add(k.arg, self.val(k.value))

    def passed(self, e, x):
        """x is a callable the callee calls"""
        if isinstance(x, ast.Name) and x.id in self.params:
            self.fn.calls.add(x.id)
            return
        try:
            self.pure_target(e, self.static(x))
        except (LookupError, AttributeError):
            self.bad(e, f'passes {ast.unparse(x)} to be called, whose effects are not known')

    def pure_target(self, e, v):
        while isinstance(v, functools.partial):
            if not all(immutable(x) for x in list(v.args) + list(v.keywords.values())):
                self.bad(e, f'a partial of {v.func} holds mutable arguments')
            v = v.func
        if isinstance(v, types.FunctionType) and self.A.inside(v):
            F = self.A.fn(v)
            self.fn.callees.add(F)
            if F.mutates or F.calls:
                self.bad(e, f'{F.name} is called indirectly and changes its arguments')
        else:
            self.bad(e, f'calls {v!r} indirectly')

    def under_sorted(self, e):
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'sorted' and n.args and n.args[0] is e and not any(k.arg == 'key' for k in n.keywords):
                return True
        return False


def inside_module(self, m):
    f = getattr(m, '__file__', None)
    return bool(f) and any(os.path.realpath(f).startswith(os.path.realpath(r) + os.sep) for r in self.roots)


Analysis.inside_module = inside_module
