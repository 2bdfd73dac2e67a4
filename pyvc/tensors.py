"""Exact symbolic execution of generated einsum code.

A generated Python module is executed with stand-ins for numpy, opt_einsum, factorial and symmetrize_tensor.  Every array is
a formal sum  coefficient * contraction of named tensors  with rational coefficients, so the value of a generated
function is obtained for every content and size of its input tensors at once, and compared exactly.
"""
import ast
import itertools
import sys
from fractions import Fraction

A, N = 'A', 'N'


class Bad(Exception):
    """the generated code is not well formed (labels, shapes, ...)"""


def _canon(factors, out):
    """canonical form of a contraction: factors commute, summed labels may be renamed"""
    fixed = {l: ('o', i) for i, l in enumerate(out)}
    groups = {}
    for name, ls in factors:
        groups.setdefault(name, []).append(tuple(ls))
    names = sorted(groups)
    best = None
    # order inside each group of equal names is the only freedom
    opts = []
    for n in names:
        opts.append(list(dict.fromkeys(itertools.permutations(groups[n]))) if len(groups[n]) > 1 else [tuple(groups[n])])
    for choice in itertools.product(*opts):
        m, c = dict(fixed), 0
        row = []
        for n, lss in zip(names, choice):
            for ls in lss:
                t = []
                for l in ls:
                    if l not in m:
                        m[l] = ('s', c)
                        c += 1
                    t.append(m[l])
                row.append((n, tuple(t)))
        row = tuple(row)
        if best is None or row < best:
            best = row
    return best


class Ten:
    """formal sum of contractions; mutable like an ndarray (in-place += and -=)"""
    __array_priority__ = 1000

    given = None        # the name of an array handed to the generated code, which must not change it
    real = False        # an array of real numbers cannot take complex values in place

    def __init__(self, shape, terms=None, sym=None, real=False):
        self.shape = tuple(shape)
        if real:
            self.real = True
        self.terms = dict(terms or {})
        self.sym = sym

    @classmethod
    def atom(cls, name, shape):
        ls = tuple(range(len(shape)))
        t = cls(shape, {_canon([(name, ls)], ls): Fraction(1)})
        t.given = name
        return t

    def copy(self):
        return Ten(self.shape, self.terms, self.sym, self.real)

    @property
    def dtype(self):
        return float if self.real else complex

    def _chk(self, o):
        if not isinstance(o, Ten):
            raise Bad(f'adding {o!r} to an array')
        if o.shape != self.shape:
            raise Bad(f'adding arrays of shape {self.shape} and {o.shape}')
        if self.sym is not None or o.sym is not None:
            raise Bad('arithmetic on a symmetrized array')

    def _acc(self, o, s):
        self._chk(o)
        for k, v in list(o.terms.items()):
            x = self.terms.get(k, 0) + s * v
            if x:
                self.terms[k] = x
            else:
                self.terms.pop(k, None)
        return self

    def _holds(self, o=None):
        if self.given is not None:
            raise Bad(f'changes the array {self.given} it was given')
        if self.real and isinstance(o, Ten) and not o.real:
            raise Bad('adding complex values in place to an array of real numbers')

    def __iadd__(self, o):
        self._holds(o)
        return self._acc(o, 1)

    def __isub__(self, o):
        self._holds(o)
        return self._acc(o, -1)

    def _both(self, o):
        return Ten(self.shape, self.terms, self.sym, self.real and getattr(o, 'real', False))

    def __add__(self, o):
        return self._both(o)._acc(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._both(o)._acc(o, -1)

    def __neg__(self):
        return self * -1

    def __mul__(self, c):
        c = number(c)
        return Ten(self.shape, {k: v * c for k, v in self.terms.items() if v * c}, self.sym, self.real)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / number(c))

    def __imul__(self, c):
        self._holds()
        self.terms = (self * c).terms
        return self

    def __eq__(self, o):
        return isinstance(o, Ten) and self.shape == o.shape and self.terms == o.terms and self.sym == o.sym

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Bad('truth value of an array')

    @property
    def ndim(self):
        return len(self.shape)

    def mod_out_perms(self):
        """terms up to a permutation of the output mode axes"""
        r = {}
        fixed = [i for i, s in enumerate(self.shape) if s != N]
        modes = [i for i, s in enumerate(self.shape) if s == N]
        for k, v in self.terms.items():
            best = None
            for p in itertools.permutations(modes):
                m = dict(zip(modes, p))
                out = tuple(('o', i) for i in range(len(self.shape)))
                q = _canon([(n, tuple(('o', m.get(l[1], l[1])) if l[0] == 'o' else l for l in ls)) for n, ls in k], out)
                if best is None or q < best:
                    best = q
            r[best] = r.get(best, 0) + v
        return {k: v for k, v in r.items() if v}


def show(k):
    return ' '.join(f"{n}[{','.join(a + str(b) for a, b in ls)}]" for n, ls in k) or '1'


def diff(got, want, cap=3):
    """None if equal, else a text naming the differing contractions"""
    if not isinstance(got, Ten):
        return f'result is {got!r}, not an array'
    if got.shape != want.shape:
        return f'result has shape {got.shape}, expected {want.shape}'
    if got.terms == want.terms and got.sym == want.sym:
        return None
    if got.sym != want.sym:
        return f'symmetrization: {got.sym}, expected {want.sym}'
    g, w = got.terms, want.terms
    if want.sym is not None:
        g, w = got.mod_out_perms(), want.mod_out_perms()
        if g == w:
            return None
    ks = sorted(k for k in set(g) | set(w) if g.get(k, 0) != w.get(k, 0))
    return f'{len(ks)} contraction(s) differ: ' + '; '.join(f'{show(k)} has coefficient {g.get(k, 0)}, expected {w.get(k, 0)}' for k in ks[:cap])


def number(c):
    if isinstance(c, bool):
        raise Bad(f'boolean factor {c}')
    if isinstance(c, (int, Fraction)):
        return Fraction(c)
    if isinstance(c, float):
        return Fraction(c)
    raise Bad(f'factor {c!r}')


def parse_sub(sub, nops):
    if not isinstance(sub, str):
        raise Bad(f'subscripts {sub!r}')
    s = sub.replace(' ', '')
    if s.count('->') != 1:
        raise Bad(f'no explicit output in {sub!r}')
    l, out = s.split('->')
    ins = l.split(',')
    if len(ins) != nops:
        raise Bad(f'{len(ins)} operand subscripts for {nops} operands in {sub!r}')
    for x in ins + [out]:
        if not (x.isalpha() and x.isascii() or x == ''):
            raise Bad(f'bad characters in {sub!r}')
    if len(set(out)) != len(out):
        raise Bad(f'repeated output label in {sub!r}')
    if not set(out) <= set(l):
        raise Bad(f'output label missing from the operands in {sub!r}')
    return ins, out


EINSUM_LOG = None


def einsum(sub, *ops, **kw):
    ins, out = parse_sub(sub, len(ops))
    dims = {}
    for x, o in zip(ins, ops):
        if not isinstance(o, Ten):
            raise Bad(f'operand of {sub!r} is {o!r}, not an array')
        if len(x) != len(o.shape):
            raise Bad(f'{sub!r}: labels {x!r} for an array of shape {o.shape}')
        for l, d in zip(x, o.shape):
            if dims.setdefault(l, d) != d:
                raise Bad(f'{sub!r}: label {l} used for both kinds of axes')
    if EINSUM_LOG is not None:
        EINSUM_LOG.append((sub, ins, out))
    res = {}
    for combo in itertools.product(*[list(o.terms.items()) for o in ops]):
        c = Fraction(1)
        fac = []
        for j, (x, (k, v)) in enumerate(zip(ins, combo)):
            c *= v
            for n, ls in k:
                fac.append((n, tuple(('L', x[l[1]]) if l[0] == 'o' else ('T', j, l[1]) for l in ls)))
        key = _canon(fac, tuple(('L', l) for l in out))
        res[key] = res.get(key, 0) + c
    return Ten([dims[l] for l in out], {k: v for k, v in res.items() if v})


def real_type(dtype):
    return dtype not in (complex, object, 'complex', 'complex128', 'complex64', 'object', 'D', 'F', 'O')


class NP:
    complex128 = cdouble = csingle = complex64 = complex
    newaxis = None

    @staticmethod
    def einsum(sub, *ops, **kw):
        return einsum(sub, *ops, **kw)

    @staticmethod
    def zeros(shape, dtype=None):
        shape = (shape,) if isinstance(shape, str) else shape
        return Ten(shape, real=real_type(dtype))

    @staticmethod
    def zeros_like(t, dtype=None):
        return Ten(t.shape, real=real_type(t.dtype if dtype is None else dtype))

    @staticmethod
    def copy(t):
        return t.copy()

    @staticmethod
    def transpose(t, axes=None):
        axes = tuple(axes) if axes is not None else tuple(range(len(t.shape)))[::-1]
        if sorted(axes) != list(range(len(t.shape))):
            raise Bad(f'transpose {axes} of an array of shape {t.shape}')
        ls = 'abcdefghijklmnopqrstuvwxyz'[:len(axes)]
        return einsum(ls + '->' + ''.join(ls[a] for a in axes), t)

    @staticmethod
    def add(a, b, out=None):
        r = a + b
        if out is not None:
            out._holds(r)
            out.terms = r.terms
            return out
        return r

    def __getattr__(self, n):
        raise Bad(f'generated code uses np.{n}')


class Expr:
    def __init__(self, sub, shapes):
        self.sub, self.shapes = sub, shapes
        ins, out = parse_sub(sub, len(shapes))
        for x, s in zip(ins, shapes):
            if len(x) != len(s):
                raise Bad(f'contract_expression {sub!r}: labels {x!r} for shape {s}')

    def __call__(self, *ops):
        if len(ops) != len(self.shapes):
            raise Bad(f'contract_expression {self.sub!r} called with {len(ops)} operands')
        for o, s in zip(ops, self.shapes):
            if isinstance(o, Ten) and o.shape != tuple(s):
                raise Bad(f'contract_expression {self.sub!r}: operand of shape {o.shape} where {s} was declared')
        return einsum(self.sub, *ops)


class OE:
    @staticmethod
    def contract_expression(sub, *shapes, **kw):
        return Expr(sub, shapes)

    @staticmethod
    def contract(sub, *ops, **kw):
        return einsum(sub, *ops)

    def __getattr__(self, n):
        raise Bad(f'generated code uses oe.{n}')


def factorial(n):
    if not isinstance(n, int) or n < 0:
        raise Bad(f'factorial({n!r})')
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


def symmetrize_tensor(n, t, order=None):
    if n != N:
        raise Bad('symmetrize_tensor without the number of modes')
    if not isinstance(t, Ten) or t.sym is not None:
        raise Bad('symmetrize_tensor of something else than a plain array')
    if t.shape.count(N) != order:
        raise Bad(f'symmetrize_tensor order {order} for an array of shape {t.shape}')
    return Ten(t.shape, t.terms, sym=order)


def div(a, b):
    if isinstance(a, Ten):
        return a / b
    a, b = number(a), number(b)
    if b == 0:
        raise Bad('division by zero')
    return a / b


class _Exact(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('_div_', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('_frac_', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n


class Log:
    def __getattr__(self, n):
        return lambda *a, **k: None


def load(src, name='<generated>', extra=None, skip_imports=True):
    """execute generated module text; imports are replaced by the stand-ins"""
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))     # sums of hundreds of contractions nest deeply
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Bad(f'{name} is not valid Python: line {e.lineno}: {e.msg}: {(e.text or "").strip()[:120]}')
    imported = set()
    body = []
    for s in tree.body:
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                imported.add(a.asname or a.name)
            continue
        body.append(s)
    tree.body = body
    seen = {}
    for s in body:
        if isinstance(s, ast.FunctionDef):
            if s.name in seen:
                raise Bad(f'{name} defines {s.name} twice')
            seen[s.name] = s
    tree = ast.fix_missing_locations(_Exact().visit(tree))
    provided = {'np': NP(), 'oe': OE(), 'factorial': factorial, 'symmetrize_tensor': symmetrize_tensor, 'log': Log()}
    provided.update(extra or {})
    env = {k: v for k, v in provided.items() if k in imported or not skip_imports}
    env.update(_div_=div, _frac_=Fraction, __name__='generated')
    exec(compile(tree, name, 'exec'), env)
    return env


class Flags:
    """attribute access to truncation / ansatz flags"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return ','.join(k for k, v in self.__dict__.items() if v is True) or 'none'
