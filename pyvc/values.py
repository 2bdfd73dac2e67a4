"""Symbolic value domain of pyvc.

ints / bools are Python values or z3 expressions; everything else is one of the
immutable classes below, or a Ref into the heap (lists, dicts, sets).
"""
import z3


class Unsupported(Exception):
    """The code left the subset the verifier understands."""


class Elem:
    __slots__ = ('val', 'guard')

    def __init__(self, val, guard=True):
        self.val, self.guard = val, guard

    def __repr__(self):
        return f"Elem({self.val!r}{'' if self.guard is True else ' if ' + str(self.guard)})"


class Comp:
    """for var in range(hi): if guard: *body"""
    __slots__ = ('var', 'hi', 'guard', 'body')

    def __init__(self, var, hi, guard, body):
        self.var, self.hi, self.guard, self.body = var, hi, guard, tuple(body)

    def __repr__(self):
        return f"Comp({self.var}<{self.hi}{'' if self.guard is True else ' if ' + str(self.guard)}: {list(self.body)!r})"


class PComp:
    """for q in all index vectors of length n with 0 <= q[k] < lens(k), lexicographic: if guard: *body"""
    __slots__ = ('q', 'n', 'k', 'lens', 'guard', 'body')

    def __init__(self, q, n, k, lens, guard, body):
        self.q, self.n, self.k, self.lens, self.guard, self.body = q, n, k, lens, guard, tuple(body)

    def __repr__(self):
        return f"PComp({self.q}[{self.k}<{self.n}]<{self.lens} if {self.guard}: {list(self.body)!r})"


class OSeq:
    """opaque sequence: a deterministic function `fn` of its argument values"""
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn, self.args = fn, tuple(args)

    def __repr__(self):
        return f"OSeq({self.fn}, {self.args!r})"


class Marker:
    """stands for the unknown contents of a list at the start of a loop iteration"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Marker({self.id})"


class FList:
    """frozen list value (contents only)"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = tuple(seq)

    def __repr__(self):
        return f"FList{list(self.seq)!r}"


class STup:
    """tuple of symbolic length"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = tuple(seq)

    def __repr__(self):
        return f"STup{list(self.seq)!r}"


class FSet:
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = tuple(seq)

    def __repr__(self):
        return f"FSet{list(self.seq)!r}"


class FDict:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"FDict{dict(self.items)!r}"


class Rec:
    """namedtuple instance"""
    __slots__ = ('cls', 'vals')

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(f'{f}={v!r}' for f, v in zip(self.cls._fields, self.vals))})"


class Choice:
    """exclusive, exhaustive alternatives [(cond, value)]"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f"Choice{list(self.alts)!r}"


class Ref:
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind):
        self.id, self.kind = id, kind

    def __repr__(self):
        return f"<{self.kind}#{self.id}>"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class Poison:
    """value the verifier does not track; any use leaves the subset"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


# ------------------------------- strings ---------------------------------- #
class SStr:
    """symbolic string: concatenation of pieces (str | IntP | SliceP | RepP | JoinP | OStr)"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return "SStr" + repr(list(self.pieces))


class IntP:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return f"str({self.x})"


class SliceP:
    """const[lo:hi] with 0 <= lo <= hi known (not necessarily <= len(const))"""
    __slots__ = ('const', 'lo', 'hi')

    def __init__(self, const, lo, hi):
        self.const, self.lo, self.hi = const, lo, hi

    def __repr__(self):
        return f"{self.const!r}[{self.lo}:{self.hi}]"


class RepP:
    __slots__ = ('s', 'n')

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __repr__(self):
        return f"{self.s!r}*({self.n})"


class JoinP:
    """sep.join(seq of strings)"""
    __slots__ = ('sep', 'seq')

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, tuple(seq)

    def __repr__(self):
        return f"join({self.sep!r}, {list(self.seq)!r})"


class OStr:
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn, self.args = fn, tuple(args)

    def __repr__(self):
        return f"OStr({self.fn}, {self.args!r})"


class MapV:
    """a total mapping about which nothing is known (used for pass-through lookups)"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class AnyMap(dict):
    def __missing__(self, k):
        return 1


class MarkP:
    """unknown string prefix at the start of a loop iteration"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"MarkP({self.id})"


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_zint(x):
    return isinstance(x, z3.ArithRef)


def is_zbool(x):
    return isinstance(x, z3.BoolRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or is_zint(x)


def is_bool(x):
    return isinstance(x, bool) or is_zbool(x)


def is_str(x):
    return isinstance(x, (str, SStr))


def zb(x):
    """to z3 Bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_zbool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def simp(x):
    """simplify; fold to Python constants where possible"""
    if not is_z(x):
        return x
    x = z3.simplify(x)
    if is_zint(x) and z3.is_int_value(x):
        return x.as_long()
    if is_zbool(x):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def mkand(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return simp(z3.And(*ys)) if len(ys) > 1 else simp(ys[0])


def mkor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return simp(z3.Or(*ys)) if len(ys) > 1 else simp(ys[0])


def mknot(x):
    return (not x) if isinstance(x, bool) else simp(z3.Not(x))


# ------------------------------ traversal --------------------------------- #
def vmap(v, f):
    """rebuild value v applying f to every z3 leaf"""
    if v is None or isinstance(v, (int, str, bool, float, Ref, Poison, MarkP)):
        return v
    if is_z(v):
        return f(v)
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, Rec):
        return Rec(v.cls, [vmap(x, f) for x in v.vals])
    if isinstance(v, FList):
        return FList(smap(v.seq, f))
    if isinstance(v, STup):
        return STup(smap(v.seq, f))
    if isinstance(v, FSet):
        return FSet(smap(v.seq, f))
    if isinstance(v, FDict):
        return FDict([(k, vmap(x, f)) for k, x in v.items])
    if isinstance(v, Choice):
        return Choice([(vmap(c, f), vmap(x, f)) for c, x in v.alts])
    if isinstance(v, SStr):
        return SStr([vmap(p, f) for p in v.pieces])
    if isinstance(v, IntP):
        return IntP(vmap(v.x, f))
    if isinstance(v, SliceP):
        return SliceP(v.const, vmap(v.lo, f), vmap(v.hi, f))
    if isinstance(v, RepP):
        return RepP(v.s, vmap(v.n, f))
    if isinstance(v, JoinP):
        return JoinP(v.sep, smap(v.seq, f))
    if isinstance(v, OStr):
        return OStr(v.fn, [vmap(x, f) for x in v.args])
    if isinstance(v, OSeq):
        return OSeq(v.fn, [vmap(x, f) for x in v.args])
    return v


def smap(seq, f):
    out = []
    for s in seq:
        if isinstance(s, Elem):
            out.append(Elem(vmap(s.val, f), vmap(s.guard, f)))
        elif isinstance(s, Comp):
            out.append(Comp(s.var, vmap(s.hi, f), vmap(s.guard, f), smap(s.body, f)))
        elif isinstance(s, PComp):
            out.append(PComp(s.q, vmap(s.n, f), s.k, vmap(s.lens, f), vmap(s.guard, f), smap(s.body, f)))
        elif isinstance(s, OSeq):
            out.append(OSeq(s.fn, [vmap(x, f) for x in s.args]))
        else:
            out.append(s)
    return tuple(out)


def subst(v, pairs):
    pairs = [(a, zi(b) if is_zint(a) else zb(b) if is_zbool(a) else b) for a, b in pairs]

    def f(e):
        return simp(z3.substitute(e, *pairs))
    return vmap(v, f)


def ssubst(seq, pairs):
    pairs = [(a, zi(b) if is_zint(a) else zb(b) if is_zbool(a) else b) for a, b in pairs]
    return smap(seq, lambda e: simp(z3.substitute(e, *pairs)))


def z_leaves(v, acc):
    vmap(v, lambda e: (acc.append(e), e)[1])
    return acc


def consts_of(e, acc=None, seen=None):
    """uninterpreted 0-ary constants of a z3 expr"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.get_id()] = x
            else:
                stack.extend(x.children())
    return list(acc.values())


# ------------------------- structural (alpha) equality --------------------- #
def veq(a, b, env=()):
    """syntactic equality up to bound names; False may simply mean 'not recognised'"""
    if a is b and not env:
        return True
    if is_z(a) or is_z(b):
        if not (is_z(a) and is_z(b)):
            return False
        if env:
            b = z3.substitute(b, *env)
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if a is None or isinstance(a, (bool, int, str, float)):
        return a == b
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y, env) for x, y in zip(a, b))
    if isinstance(a, Rec):
        return a.cls is b.cls and veq(a.vals, b.vals, env)
    if isinstance(a, (FList, STup, FSet)):
        return seqeq(a.seq, b.seq, env)
    if isinstance(a, FDict):
        return len(a.items) == len(b.items) and all(k == l and veq(x, y, env) for (k, x), (l, y) in zip(a.items, b.items))
    if isinstance(a, Choice):
        return veq(a.alts, b.alts, env)
    if isinstance(a, SStr):
        return veq(a.pieces, b.pieces, env)
    if isinstance(a, IntP):
        return veq(a.x, b.x, env)
    if isinstance(a, SliceP):
        return a.const == b.const and veq(a.lo, b.lo, env) and veq(a.hi, b.hi, env)
    if isinstance(a, RepP):
        return a.s == b.s and veq(a.n, b.n, env)
    if isinstance(a, JoinP):
        return veq(a.sep, b.sep, env) and seqeq(a.seq, b.seq, env)
    if isinstance(a, (OStr, OSeq)):
        return a.fn == b.fn and veq(a.args, b.args, env)
    if isinstance(a, MarkP):
        return a.id == b.id
    if isinstance(a, Poison):
        return False
    return a is b


def seqeq(a, b, env=()):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, Elem):
            if not (veq(x.guard, y.guard, env) and veq(x.val, y.val, env)):
                return False
        elif isinstance(x, Comp):
            if not veq(x.hi, y.hi, env):
                return False
            e2 = tuple(env) + ((y.var, x.var),)
            if not (veq(x.guard, y.guard, e2) and seqeq(x.body, y.body, e2)):
                return False
        elif isinstance(x, PComp):
            e1 = tuple(env) + ((y.k, x.k),)
            e2 = tuple(env) + ((y.q, x.q),)
            if not (veq(x.n, y.n, env) and veq(x.lens, y.lens, e1) and veq(x.guard, y.guard, e2) and seqeq(x.body, y.body, e2)):
                return False
        elif isinstance(x, OSeq):
            if not veq(x, y, env):
                return False
        elif isinstance(x, Marker):
            if x.id != y.id:
                return False
        else:
            return False
    return True
