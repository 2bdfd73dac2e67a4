"""LaTeX output: the written equations are read back and compared with the specification pipeline."""
import itertools
import math
import os
import re
from collections import Counter
from fractions import Fraction

from contracts.common import *
from contracts import fcc as FC, zhz as ZC, etz as EC
import latex_full_cc as LF
import latex_zhz as LZ
import latex_eT_zhz as LE
from truncation_keys import TruncationsKeys as K

CONTRACTS, LEMMAS, BOUNDED = [], [], []


class Unreadable(Exception):
    pass


TOK = re.compile(r'\\[A-Za-z]+|\\.|[A-Za-z]|\d+|\S')


def strip_comments(text):
    return re.sub(r'(?<!\\)%[^\n]*', '', text)


class Mono:
    """one written product: coefficient, named scalar powers, operators in order"""

    def __init__(self, coef=Fraction(1), scal=(), ops=()):
        self.coef, self.scal, self.ops = coef, Counter(dict(scal)), list(ops)

    def __mul__(self, o):
        return Mono(self.coef * o.coef, self.scal + o.scal, self.ops + o.ops)

    def __repr__(self):
        return f'{self.coef} {dict(self.scal)} {self.ops}'


class Op(tuple):
    """(kind, upper [(colour, letters)], lower [...], derivative?)"""
    kind = property(lambda s: s[0])
    up = property(lambda s: s[1])
    down = property(lambda s: s[2])
    dv = property(lambda s: s[3])

    def letters(self, which):
        return ''.join(x for _, x in (self.up if which == 'up' else self.down))


class Reader:
    def __init__(self, text):
        text = strip_comments(text)
        text = text.replace('\\\\', ' ').replace('&', ' ').replace('\\,', ' ')
        self.t = TOK.findall(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Unreadable('text ends inside a term')
        self.i += 1
        return t

    def want(self, x):
        t = self.next()
        if t != x:
            raise Unreadable(f'expected {x!r} before {"".join(self.t[max(0, self.i - 1):self.i + 12])!r}')

    def group(self):
        """tokens of a {...} group"""
        self.want('{')
        depth, out = 1, []
        while True:
            t = self.next()
            depth += (t == '{') - (t == '}')
            if depth == 0:
                return out
            out.append(t)

    def sub(self, tokens):
        r = Reader('')
        r.t = tokens
        return r

    # ---- sums and products
    def whole(self):
        v = self.expr()
        if self.peek() is not None:
            raise Unreadable(f'unexpected {"".join(self.t[self.i:self.i + 12])!r}')
        return v

    def expr(self):
        out, sign = [], 1
        if self.peek() in ('+', '-'):
            sign = 1 if self.next() == '+' else -1
        while True:
            p = self.product()
            if p is not None:
                out += [Mono(Fraction(sign)) * m for m in p]
            if self.peek() in ('+', '-'):
                sign = 1 if self.next() == '+' else -1
                continue
            return out

    def closing(self, t):
        if t is None or t in (')', '}', '+', '-'):
            return True
        return t in ('\\right', '\\Big') and self.i + 1 < len(self.t) and self.t[self.i + 1] == ')'

    def product(self):
        acc = None
        while not self.closing(self.peek()):
            f = self.factor()
            acc = f if acc is None else [a * b for a in acc for b in f]
        return acc

    def power(self):
        if self.peek() == '^':
            self.next()
            g = self.group()
            if len(g) != 1 or not g[0].isdigit():
                raise Unreadable(f'power {g}')
            return int(g[0])
        return 1

    def number(self, tokens):
        v, k = 1, 0
        while k < len(tokens):
            t = tokens[k]
            if t in ('(', ')', '*'):
                k += 1
                continue
            if not t.isdigit():
                raise Unreadable(f'coefficient {"".join(tokens)!r}')
            x = int(t)
            if k + 1 < len(tokens) and tokens[k + 1] == '!':
                x, k = math.factorial(x), k + 1
            v *= x
            k += 1
        return v

    def factor(self):
        t = self.next()
        if t in ('\\left', '\\Big') and self.peek() == '(':
            self.next()
            v = self.expr()
            self.want('\\right' if t == '\\left' else '\\Big')
            self.want(')')
            return v
        if t == '(' and self.t[self.i:self.i + 3] == ['1', '-', '\\delta']:
            self.i += 3
            self.want('_')
            which = ''.join(self.group())
            self.want(')')
            return [Mono(scal={'offdiagonal ' + which: 1})]
        if t == '(':
            v = self.expr()
            self.want(')')
            return v
        if t == '\\frac':
            n, d = self.number(self.group()), self.number(self.group())
            return [Mono(Fraction(n, d))]
        if t == 'f':
            return [Mono(scal={'f': self.power()})]
        if t == '\\bar':
            if self.group() != ['f']:
                raise Unreadable('bar')
            return [Mono(scal={'fbar': self.power()})]
        if t == '\\hat':
            g = self.group()
            if len(g) != 1 or g[0] not in HATS:
                raise Unreadable(f'hat over {g}')
            return [Mono(ops=[self.op(HATS[g[0]])])]
        if t in KINDS:
            return [Mono(ops=[self.op(KINDS[t])])]
        if t == '\\dv':
            v = self.sub(self.group()).whole()
            if self.group() != ['\\tau']:
                raise Unreadable('derivative variable')
            if len(v) != 1 or len(v[0].ops) != 1:
                raise Unreadable('derivative of more than one operator')
            v[0].ops = [Op((o.kind, o.up, o.down, True)) for o in v[0].ops]
            return v
        if t == '\\varepsilon':
            return [Mono(scal={'eps': 1})]
        if t == 'i':
            return [Mono(scal={'i': 1})]
        if t == '\\sum':
            return [Mono(scal={'sum': 1})]
        if t == '\\mathds':
            g = self.group() if self.peek() == '{' else [self.next()]
            if g != ['1']:
                raise Unreadable('mathds')
            return [Mono()]
        if t.isdigit():
            return [Mono(Fraction(int(t)))]
        raise Unreadable(f'unexpected {t!r} before {"".join(self.t[self.i:self.i + 12])!r}')

    def op(self, kind):
        up, down = [], []
        while self.peek() in ('^', '_'):
            which = self.next()
            g = self.group() if self.peek() == '{' else [self.next()]
            if which == '^':
                if up:
                    raise Unreadable('two superscripts')
                up = self.script(g)
            else:
                if down:
                    raise Unreadable('two subscripts')
                down = self.script(g)
        return Op((kind, tuple(up), tuple(down), False))

    def script(self, tokens):
        r, out = self.sub(tokens), []
        while r.peek() is not None:
            t = r.next()
            if t in ('\\blue', '\\red', '\\magenta'):
                g = r.group()
                if any(len(x) != 1 or not x.isalpha() for x in g):
                    raise Unreadable(f'label {g}')
                if g:
                    out.append((t[1:], ''.join(g)))
            elif t == ',':  # what follows labels the surface, not a mode
                break
            elif t == '\\gamma':
                continue
            elif len(t) == 1 and t.isalpha() or t.isdigit():
                out.append(('', t))
            else:
                raise Unreadable(f'label {t!r}')
        return out


KINDS = {'\\bh': 'h', '\\bt': 't', '\\bz': 'z', '\\bs': 's'}


HATS = {'\\bt': '^t', '\\bz': '^z', 'G': '^G'}


def read(text):
    return Reader(text).whole()


# ---------------------------------------------------------------- index structure of a written term
class BadLabels(Exception):
    pass


def structure(mono, joins):
    """The contraction pattern a written product spells out with its index labels: for every operator its kind, whether it is
    differentiated, its free upper / lower indices, and how many of its indices are joined to which kind of operator.
    `joins` lists the kinds that may be contracted with each other. Also returns the free labels."""
    ops = []
    for o in mono.ops:
        labels = o.letters('up') + o.letters('down')
        if any(c.isdigit() for c in labels):
            if labels != '0':
                raise BadLabels(f'labels {labels!r} in {mono}')
            o = Op((o.kind, (), (), o.dv))
        ops.append(o)
    pos = {}
    for k, o in enumerate(ops):
        for w, script in (('up', o.up), ('down', o.down)):
            for colour, letters in script:
                for c in letters:
                    pos.setdefault(c, []).append((k, w, colour))
    free, count = [], [Counter() for _ in ops]
    for c, ps in pos.items():
        if len(ps) == 1:
            k, w, colour = ps[0]
            if colour not in ('red', ''):
                raise BadLabels(f'index {c} is marked as summed but appears only once in {mono}')
            free.append(c)
            count[k]['free', w] += 1
        elif len(ps) == 2:
            (k, w, a), (q, v, b) = ps
            if k == q or w == v or 'red' in (a, b) or frozenset((ops[k].kind, ops[q].kind)) not in joins:
                raise BadLabels(f'index {c} does not join an upper with a lower index of a contracting partner in {mono}')
            count[k][ops[q].kind, w] += 1
            count[q][ops[k].kind, v] += 1
        else:
            raise BadLabels(f'index {c} is used {len(ps)} times in {mono}')
    parts = tuple(sorted((o.kind, o.dv, tuple(sorted(n.items()))) for o, n in zip(ops, count)))
    return parts, ''.join(sorted(free)), count, ops


def part(kind, dv=False, **n):
    """an operator of the expected structure; keywords like free_up=2, h_down=1"""
    return (kind, dv, tuple(sorted((tuple(k.split('_')), v) for k, v in n.items() if v)))


def fac(n):
    return math.factorial(n)


def difference(got, want):
    if got == want:
        return None
    return f'missing {list((want - got).items())[:2]}, unexpected or repeated {list((got - want).items())[:2]}'


# ---------------------------------------------------------------- the written files
SECTION = re.compile(r'\\begin\{align\}\\begin\{split\}\n(.*?)\\end\{split\}\\end\{align\}', re.S)
OMEGA = re.compile(r'\\hat\{\\Omega\} = (\S*)\n')
SEP = re.compile(r'\n%\n%\n\\\\\s*&\+\n%\n%\n')
NO_TERMS = re.compile(r'^\s*\\textit\{no ([a-z ]*) terms\}\s*$')
GROUPS = ('fully connected', 'linked disconnected', 'unlinked disconnected')


def read_omega(s):
    if s == '1':
        return 0, 0, ''
    parts = re.findall(r'\\(up|down)\{([a-z])\}', s)
    if ''.join(f'\\{a}{{{b}}}' for a, b in parts) != s:
        raise Unreadable(f'projection {s!r}')
    return sum(a == 'up' for a, _ in parts), sum(a == 'down' for a, _ in parts), ''.join(b for _, b in parts)


def written(gen, trunc, **k):
    path = f'tex_{os.getpid()}.tex'
    try:
        gen(trunc, path=path, ansatz='x', **k)
        with open(path) as fp:
            return fp.read()
    finally:
        if os.path.exists(path):
            os.remove(path)


def fcc_sections(text):
    out = []
    for m in SECTION.finditer(text):
        b = m.group(1)
        o = OMEGA.search(b)
        if not o or b.count('\\\\ LHS &=') != 1 or b.count('\\\\ RHS &=') != 1:
            raise Unreadable(f'equation without projection, LHS or RHS: {b[:200]!r}')
        lhs, rhs = b.split('\\\\ LHS &=')[1].split('\\\\ RHS &=')
        out.append((read_omega(o.group(1)), lhs, rhs))
    return out


# ---------------------------------------------------------------- full cc
JOINS_FCC = {frozenset('ht')}


def fcc_structure(t):
    o, h, p = t
    ts = [] if len(p) == 1 and not any(p[0]) else [part('t', h_up=s.m_h, h_down=s.n_h, free_up=s.m_o, free_down=s.n_o) for s in p]
    return tuple(sorted(ts + [part('h', t_up=h.m - h.m_o, t_down=h.n - h.n_o, free_up=h.m_o, free_down=h.n_o)]))


def fcc_prefactor(parts):
    """documented: x!/(m! n! k!), x the number of distinct amplitudes h contracts with, m and n the indices of h, k the number of amplitudes;
    one power of f (f-bar) per lower (upper) index h shares with the projection"""
    h = [dict(p[2]) for p in parts if p[0] == 'h'][0]
    ts = [p for p in parts if p[0] == 't']
    m = sum(v for (a, w), v in h.items() if w == 'up')
    n = sum(v for (a, w), v in h.items() if w == 'down')
    c = Fraction(1)
    if ts:
        x = len({p for p in ts if any(a == 'h' for (a, w), v in p[2])})
        c = Fraction(fac(x), fac(m) * fac(n) * fac(len(ts)))
    return c, +Counter({'f': h.get(('free', 'down'), 0), 'fbar': h.get(('free', 'up'), 0)})


def read_fcc_group(text, m, n):
    if NO_TERMS.match(strip_comments(text)):
        return []
    out = []
    for mono in read(text):
        if sum(o.kind == 'h' for o in mono.ops) != 1 or any(o.dv or o.kind not in 'ht' for o in mono.ops):
            raise Unreadable(f'not a product of one Hamiltonian term and amplitudes: {mono}')
        parts, free, count, ops = structure(mono, JOINS_FCC)
        up = sum(c['free', 'up'] for c in count)
        if (len(free) - up, up) != (m, n):
            raise BadLabels(f'the free indices {free!r} do not match the projection in {mono}')
        out.append((parts, free, mono))
    return out


def lost_tail(k):
    """uncondensed groups of 14 or more terms are written in whole lines of 7 only"""
    return 7 * (k // 7) if k >= 14 else k


LOST = '_make_latex leaves out the last n mod 7 of n >= 14 uncondensed terms'


def fcc_configs(tier):
    # H, cc, S, P, ground, remove f
    yield 2, 2, 2, 2, True, False
    yield 2, 2, 2, 2, False, True
    yield 3, 3, 2, 3, False, False
    yield 4, 3, 3, 3, True, False
    yield 2, 3, 3, 3, False, True
    yield 6, 2, 2, 2, True, False
    yield 4, 2, 2, 2, False, False
    yield 5, 2, 3, 2, True, True
    yield 2, 2, 5, 2, True, False
    yield 2, 6, 1, 3, True, False
    yield 2, 4, 2, 3, True, True
    if tier != 'quick':
        yield 3, 3, 3, 3, False, False
        yield 4, 3, 3, 3, False, True
        yield 6, 3, 2, 3, False, False
        yield 6, 3, 4, 3, True, False
        yield 5, 4, 3, 3, True, False
        yield 2, 3, 5, 3, True, False


def run_fcc(check, lhs=False):
    def run(tier, rng, deadline):
        for a in fcc_configs(tier):
            h, cc, s, p, gs, rf = a
            what = f'full cc latex, H={h} CC={cc} S={s} P={p} ground={gs} remove_f={rf}'
            text = written(LF.generate_full_cc_latex, {K.H: h, K.CC: cc, K.S: s, K.P: p}, only_ground_state=gs, remove_f_terms=rf)
            try:
                found = fcc_sections(text)
            except Unreadable as e:
                yield what, f'{what}: {e}'
                continue
            f = check.whole(found, a) if hasattr(check, 'whole') else None
            yield what, f and f'{what}: {f}'
            H = FC.spec_fcc_hamiltonian(h)
            series = FC.spec_s_taylor(cc, s, gs)
            for (m, n, letters), left, right in found:
                name = f'{what}, projection with {m} up {n} down'
                if lhs:
                    try:
                        f = check(m, n, letters, left)
                    except (Unreadable, BadLabels) as e:
                        f = str(e)
                    yield name, f and f'{name}: {f}'
                    continue
                texts = [right] if m + n == 0 else SEP.split(right)
                if len(texts) != (1 if m + n == 0 else 3):
                    yield name, f'{name}: {len(texts)} groups of terms instead of three'
                    continue
                omega = [o for o in FC.spec_omega(cc, p).operator_list if (o.m, o.n) == (m, n)]
                for g, t in zip(GROUPS, texts):
                    try:
                        f = check(read_fcc_group(t, m, n), omega and omega[0], H, series, rf, g)
                    except (Unreadable, BadLabels) as e:
                        f = str(e)
                    if f != LOST:
                        f = f and f'{name}, {g} terms: {f}'
                    yield name + ', ' + g, f
    return run


def fcc_labels(got, omega, H, series, rf, group):
    frees = {f for _, f, _ in got}
    if len(frees) > 1:
        return f'terms of one equation use different free indices: {sorted(frees)}'


def fcc_coefficients(got, omega, H, series, rf, group):
    for parts, _, mono in got:
        c, sc = fcc_prefactor(parts)
        if (mono.coef, mono.scal) != (c, sc):
            return f'prefactor {mono.coef} {dict(mono.scal)} instead of {c} {dict(sc)} for {mono.ops}'


def fcc_f_terms(got, omega, H, series, rf, group):
    """the f and f-bar powers of every written term; with removal, no term in which a creation index of the projection goes to h"""
    for parts, _, mono in got:
        want = {k: v for k, v in fcc_prefactor(parts)[1].items() if k in ('f', 'fbar')}
        have = {k: v for k, v in mono.scal.items() if k in ('f', 'fbar')}
        if have != want:
            return f'powers {have} instead of {want} for {mono.ops}'
        if rf and want.get('f'):
            return f'f term left in although their removal was asked for: {mono.ops}'


def fcc_classes(got, omega, H, series, rf, group):
    """the connection type of every written term is the one of the group it stands in (the scalar equation has one group only)"""
    if not omega or omega.rank == 0:
        return None
    for parts, _, mono in got:
        ts = [dict(p[2]) for p in parts if p[0] == 't']
        loose = [d for d in ts if not any(a == 'h' for a, w in d)]
        if not loose:
            want = 0
        elif any(d.get(('free', 'up'), 0) + d.get(('free', 'down'), 0) == omega.rank for d in loose):
            want = 2
        else:
            want = 1
        if group != GROUPS[want]:
            return f'a term that belongs to the {GROUPS[want]} ones: {mono.ops}'


def fcc_complete(got, omega, H, series, rf, group):
    if not omega:
        return 'projection operator outside the truncation'
    total = [t for x in series for ts in FC.reference_terms(omega, H, x, rf) for t in ts]
    classes = FC.spec_separate(total)
    want = total if omega.rank == 0 else classes[GROUPS.index(group)]
    have, need = Counter(p for p, _, _ in got), Counter(map(fcc_structure, want))
    if have == need:
        return None
    if (group == GROUPS[0] and not need - have == need and not have - need
            and sum(have.values()) == lost_tail(sum(need.values()))):
        real = []
        for x in series:
            LF._filter_out_valid_s_terms(omega, H, x, [], real, remove_f_terms=rf)
        cut = LF._seperate_s_terms_by_connection(real)[0]
        if Counter(map(fcc_structure, cut)) == need and Counter(map(fcc_structure, cut[:lost_tail(len(cut))])) == have:
            return LOST
    return difference(have, need)


def fcc_whole(found, a):
    want = Counter((o.m, o.n) for o in FC.spec_omega(a[1], a[3]).operator_list)
    return difference(Counter((m, n) for (m, n, _), _, _ in found), want)


fcc_complete.whole = fcc_whole


def multisets(m, n, cap=None):
    """multisets of (up, down) pairs, not both zero, adding up to (m, n); decreasing"""
    if (m, n) == (0, 0):
        return [()]
    out = []
    for a in range(m + 1):
        for b in range(n + 1):
            if (a, b) != (0, 0) and (cap is None or (a, b) <= cap):
                out += [((a, b),) + r for r in multisets(m - a, n - b, (a, b))]
    return out


def fcc_lhs(m, n, letters, text):
    """i times: the derivative of every product of amplitudes matching the projection (product rule), plus the product times epsilon"""
    got = Counter()
    for mono in read(text):
        parts, free, count, ops = structure(mono, set())
        if ''.join(sorted(letters)) != free:
            return f'the indices {free!r} are not those of the projection ({letters!r}) in {mono}'
        if mono.coef != 1:
            return f'coefficient {mono.coef} of {mono}'
        got[parts, tuple(sorted(mono.scal.items()))] += 1
    want = Counter()
    if m + n == 0:
        want[(), (('eps', 1), ('i', 1))] = 1
    else:
        for ms in multisets(n, m):
            ps = [part('t', free_up=a, free_down=b) for a, b in ms]
            want[tuple(sorted(ps)), (('eps', 1), ('i', 1))] += 1
            for k, (a, b) in enumerate(ms):
                want[tuple(sorted(ps[:k] + [part('t', True, free_up=a, free_down=b)] + ps[k + 1:])), (('i', 1),)] += 1
    return difference(got, want)


def run_fcc_lhs(tier, rng, deadline):
    """the left-hand side of every projection alone"""
    for total in range(0, 5):
        for m in range(total + 1):
            n = total - m
            o = op(m, n, 'b' * n + 'd' * m)
            name = f'full cc left-hand side, projection with {m} up {n} down'
            try:
                f = fcc_lhs(m, n, LF.summation_indices[:total], LF._generate_left_hand_side(o))
            except (Unreadable, BadLabels) as e:
                f = str(e)
            yield name, f and f'{name}: {f}'


FB = 'H rank <= 6, cluster rank <= 6, Taylor order <= 5, projections of order <= 3, ground and excited state, both f settings (listed in fcc_configs)'
FF = ['generate_full_cc_latex', '_generate_cc_latex_equations', '_write_cc_latex_from_lists', '_make_latex']
BOUNDED += [
    ('C09', Bounded('full cc index labels in the written file', run_fcc(fcc_labels), FB, FF)),
    ('C08', Bounded('full cc f and f-bar prefactors in the written file', run_fcc(fcc_f_terms), FB, FF)),
    ('C07', Bounded('full cc groups of the written file', run_fcc(fcc_classes), FB, FF)),
    ('C10', Bounded('full cc prefactors in the written file', run_fcc(fcc_coefficients), FB, FF)),
    ('C12', Bounded('full cc terms in the written file', run_fcc(fcc_complete), FB, FF)),
    ('C19', Bounded('full cc left-hand sides', run_fcc_lhs, 'every projection of order <= 4', ['_generate_left_hand_side'])),
    ('C19', Bounded('full cc left-hand sides in the written file', run_fcc(fcc_lhs, lhs=True), FB, ['generate_full_cc_latex', '_generate_left_hand_side'])),
]


# ---------------------------------------------------------------- zhz and eT zhz
EQUATION = re.compile(r'\\begin\{equation\}\n\s*\\hat\{\\Omega\} = (\S*)\n\\qquad\\qquad\n(.*?)\n\\end\{equation\}', re.S)


def z_sections(text):
    """(projection, amplitude equation, z left-hand side, z right-hand side) per projection"""
    out = []
    ms = list(EQUATION.finditer(text))
    for k, m in enumerate(ms):
        rest = text[m.end():ms[k + 1].start() if k + 1 < len(ms) else len(text)]
        a = SECTION.findall(rest)
        if len(a) != 1 or 'LHS &=' not in a[0]:
            raise Unreadable(f'{len(a)} z equations for projection {m.group(1)}')
        lhs, _, rhs = a[0].split('LHS &=', 1)[1].partition('\\\\ RHS &=')
        out.append((read_omega(m.group(1)), m.group(2), lhs, rhs))
    return out


def read_sum(text, names=None):
    out = []
    for mono in read(text):
        mono.ops = [Op((names(o),) + tuple(o[1:])) if names else o for o in mono.ops]
        out.append(mono)
    return out


def left_names(o):
    """in a LHS file the amplitudes are written s and the differentiated t stands where the Hamiltonian does"""
    return {'s': 't', 't': 'h' if o.dv else '?'}.get(o.kind, o.kind)


JOINS_Z = {frozenset('hz'), frozenset('ht'), frozenset('tz')}


def split_rhs(text, names=None):
    """the projected Hamiltonian term, the sum over products with z, the derivative products"""
    first, third, fifth = [], [], []
    for mono in read_sum(text, names):
        kinds = sorted(o.kind for o in mono.ops)
        if '^t' in kinds or '^z' in kinds:
            fifth.append(mono)
        elif kinds == ['h'] and 'sum' not in mono.scal:
            first.append(mono)
        else:
            third.append(mono)
    return first, third, fifth


def total(d, w):
    return sum(v for (a, x), v in d.items() if x == w)


def z_prefactor(parts):
    """documented: 1/(m! n!) for h and for z, times the ways to pick the indices of h joined to z, times the ways to pick the
    free indices of z, times the orderings of the indices of z joined to h; f (f-bar) per upper (lower) index of h joined to z"""
    h = [dict(p[2]) for p in parts if p[0] == 'h'][0]
    z = [dict(p[2]) for p in parts if p[0] == 'z'][0]
    c = Fraction(1)
    for w in ('up', 'down'):
        c *= Fraction(math.comb(total(h, w), h.get(('z', w), 0)), fac(total(h, w)))
        c *= Fraction(math.comb(total(z, w), z.get(('free', w), 0)) * fac(z.get(('h', w), 0)), fac(total(z, w)))
    return c, +Counter({'f': h.get(('z', 'up'), 0), 'fbar': h.get(('z', 'down'), 0)})


def eT_prefactor(parts):
    """documented: 1/k! for k amplitudes, 1/(m! n!) for every operator, times the distinguishable placements of the indices of h and of z:
    choose the free ones, then those joining h and z, then order those joined to amplitudes (and, on z, those joined to h)"""
    hs = [dict(p[2]) for p in parts if p[0] == 'h']
    h = hs[0] if hs else {}
    z = [dict(p[2]) for p in parts if p[0] == 'z'][0]
    ts = [dict(p[2]) for p in parts if p[0] == 't']
    c = Fraction(1, fac(max(1, len(ts))))
    for w in ('up', 'down'):
        m, free, r, t = total(h, w), h.get(('free', w), 0), h.get(('z', w), 0), h.get(('t', w), 0)
        c *= Fraction(math.comb(m, free) * math.comb(m - free, r) * fac(t), fac(m))
        for x in ts:
            c /= fac(total(x, w))
    m, free, r, t = total(z, 'up'), z.get(('free', 'up'), 0), z.get(('h', 'up'), 0), z.get(('t', 'up'), 0)
    c *= Fraction(math.comb(m, free) * math.comb(m - free, r) * fac(r) * fac(t), fac(m))
    f = h.get(('z', 'up'), 0) + sum(x.get((a, 'up'), 0) for x in ts for a in 'hz')
    fb = h.get(('z', 'down'), 0) + sum(x.get((a, 'down'), 0) for x in ts for a in 'hz')
    return c, +Counter({'f': f, 'fbar': fb})


def shares(z):
    return part('z', free_up=z.m_lhs, free_down=z.n_lhs, h_up=z.m_h, h_down=z.n_h)


def z_structure(t):
    h, z = t[1], t[2][1]
    return tuple(sorted([part('h', free_up=h.m_lhs, free_down=h.n_lhs, z_up=h.m_r, z_down=h.n_r), shares(z)]))


def eT_structure(t, side):
    ts, h, z = t[1], t[2], t[3][1]
    left = side == 'LHS'
    ps = [part('t', free_up=x.m_lhs, free_down=x.n_lhs, h_up=x.m_h, h_down=x.n_h, z_up=x.m_r, z_down=x.n_r) for x in ts if x.rank]
    if h.rank or not left:
        ps.append(part('h', left, free_up=h.m_lhs, free_down=h.n_lhs, z_up=h.m_r, z_down=h.n_r, t_up=sum(h.m_t), t_down=sum(h.n_t)))
    ps.append(part('z', left and not h.rank, free_up=z.m_lhs, free_down=z.n_lhs, h_up=z.m_h, h_down=z.n_h, t_up=sum(z.m_t), t_down=sum(z.n_t)))
    return tuple(sorted(ps))


class ZFile:
    """one written zhz / eT zhz file and what it should contain"""

    def __init__(self, kind, h, cc, p, order=None, side='RHS', rf=False):
        self.kind, self.h, self.cc, self.p, self.order, self.side, self.rf = kind, h, cc, p, order, side, rf
        self.name = f'{kind} latex, H={h} CC={cc} P={p}' + (f' eT={order} {side}' if order else '') + f' remove_f={rf}'

    def text(self):
        k = dict(only_ground_state=True, remove_f_terms=self.rf, lhs_rhs=self.side)
        if self.kind == 'zhz':
            return written(LZ.generate_z_t_symmetric_latex, {K.H: self.h, K.CC: self.cc, K.P: self.p}, **k)
        return written(LE.generate_eT_z_t_symmetric_latex, {K.H: self.h, K.CC: self.cc, K.T: 1, K.eT: self.order, K.P: self.p}, **k)

    def projections(self):
        return [o for o in FC.spec_omega(self.cc, self.p).operator_list if self.kind == 'zhz' or o.m == 0]

    def wanted(self, omega):
        H = FC.spec_fcc_hamiltonian(self.h)
        H = type(H)(H.maximum_rank, [x for x in H.operator_list if x.rank < 3 or x.m == 0])
        Z = LZ.generate_z_operator(self.cc, True)
        if self.kind == 'zhz':
            return Counter(z_structure(t) for t in ZC.z_reference(omega, H, None, Z))
        out = Counter()
        for s in LE.generate_eT_taylor_expansion(1, self.order):
            for t in EC.eT_reference(omega, s, H, Z, self.side):
                out[eT_structure(t, self.side)] = 1
        return out

    def prefactor(self, parts):
        return z_prefactor(parts) if self.kind == 'zhz' else eT_prefactor(parts)


def z_files(tier):
    for h, cc, p, rf in [(1, 1, 1, False), (2, 2, 2, False), (2, 2, 2, True), (3, 3, 3, False), (6, 6, 2, False), (4, 5, 5, True), (2, 6, 6, False), (6, 6, 6, False)]:
        yield ZFile('zhz', h, cc, p, rf=rf)
    for h, cc, p, e, rf in [(1, 1, 1, 1, False), (2, 2, 2, 2, False), (2, 3, 3, 3, True), (3, 4, 4, 2, False), (6, 6, 2, 2, False), (2, 6, 6, 2, False), (2, 2, 2, 5, True), (2, 6, 6, 1, False), (2, 5, 4, 4, False)]:
        for side in ('RHS', 'LHS'):
            yield ZFile('eT zhz', h, cc, p, e, side, rf)
    if tier != 'quick':
        for h, cc, p, e in [(6, 6, 6, 2), (2, 6, 3, 6), (2, 6, 2, 8), (4, 5, 5, 4)]:
            for side in ('RHS', 'LHS'):
                yield ZFile('eT zhz', h, cc, p, e, side)


def run_z(check):
    def run(tier, rng, deadline):
        for f in z_files(tier):
            try:
                found = z_sections(f.text())
            except Unreadable as e:
                yield f.name, f'{f.name}: {e}'
                continue
            d = check.whole(f, found) if hasattr(check, 'whole') else None
            yield f.name, d and f'{f.name}: {d}'
            for (m, n, letters), teq, lhs, rhs in found:
                name = f'{f.name}, projection with {m} up {n} down'
                try:
                    d = check(f, m, n, letters, teq, lhs, rhs)
                except (Unreadable, BadLabels) as e:
                    d = str(e)
                yield name, d and f'{name}: {d}'
    return run


def z_parts(f, lhs, rhs):
    return split_rhs(rhs) if f.side == 'RHS' else ([], read_sum(lhs, left_names), [])


def z_labels(f, m, n, letters, teq, lhs, rhs):
    first, third, fifth = z_parts(f, lhs, rhs)
    frees = set()
    for mono in third:
        parts, free, count, ops = structure(mono, JOINS_Z)
        up = sum(c['free', 'up'] for c in count)
        if (len(free) - up, up) != (m, n):
            raise BadLabels(f'the free indices {free!r} do not match the projection in {mono}')
        frees.add(free)
    if len(frees) > 1:
        return f'terms of one equation use different free indices: {sorted(frees)}'
    for mono in first + fifth:
        parts, free, count, ops = structure(mono, set())
        up = sum(c['free', 'up'] for c in count)
        if free != ''.join(sorted(letters)) or up != n:
            return f'the indices {free!r} are not those of the projection ({letters!r}) in {mono}'


def z_coefficients(f, m, n, letters, teq, lhs, rhs):
    first, third, fifth = z_parts(f, lhs, rhs)
    for mono in third:
        parts = structure(mono, JOINS_Z)[0]
        c, sc = f.prefactor(parts)
        sc = sc + Counter({'sum': 1}) + (Counter({'i': 1}) if f.side == 'LHS' else Counter({'offdiagonal cb': 1}) if f.kind == 'zhz' else Counter())
        if (mono.coef, mono.scal) != (c, sc):
            return f'prefactor {mono.coef} {dict(mono.scal)} instead of {c} {dict(sc)} for {mono.ops}'
    for mono in first:
        if mono.coef != 1:
            return f'prefactor {mono.coef} of {mono}'
    for mono in fifth:
        if (mono.coef, mono.scal) != (-1, Counter({'i': 1, 'sum': 1})):
            return f'prefactor {mono.coef} {dict(mono.scal)} of {mono}'


def z_complete(f, m, n, letters, teq, lhs, rhs):
    omega = [o for o in f.projections() if (o.m, o.n) == (m, n)]
    if not omega:
        return 'projection operator outside the truncation'
    first, third, fifth = z_parts(f, lhs, rhs)
    d = difference(Counter(structure(x, JOINS_Z)[0] for x in third), f.wanted(omega[0]))
    if d:
        return d
    if f.side == 'RHS':
        d = difference(Counter(structure(x, set())[0] for x in first), Counter([(part('h', free_up=n, free_down=m),)]))
        return d or difference(
            Counter(structure(x, set())[0] for x in fifth),
            Counter(tuple(sorted((part('^t', True, free_up=n - k, free_down=m), part('^z', free_up=k)))) for k in range(n + 1)))


def z_whole(f, found):
    return difference(Counter((m, n) for (m, n, _), *_ in found), Counter((o.m, o.n) for o in f.projections()))


z_complete.whole = z_whole


def z_lhs(f, m, n, letters, teq, lhs, rhs):
    left, _, right = teq.partition(' = ')
    want = ''.join(sorted(letters))
    (t,), (g,) = read(left), read(right)
    if (t.coef, t.scal, len(t.ops), t.ops[0].kind, t.ops[0].dv) != (1, Counter({'i': 1}), 1, '^t', True):
        return f'amplitude equation starts with {t}'
    if (g.coef, len(g.scal), len(g.ops), g.ops[0].kind, g.ops[0].dv) != (1, 0, 1, '^G', False):
        return f'amplitude equation ends with {g}'
    for x in (t, g):
        parts, free, count, ops = structure(x, set())
        if free != want or count[0]['free', 'up'] != n:
            return f'the indices {free!r} are not those of the projection ({letters!r}) in {x}'
    if t.ops[0].up != g.ops[0].up or t.ops[0].down != g.ops[0].down:
        return f'the two sides of the amplitude equation differ in their indices: {t} and {g}'
    if f.side == 'RHS':
        (z,) = read(lhs)
        if (z.coef, z.scal, len(z.ops), z.ops[0].kind, z.ops[0].dv) != (1, Counter({'i': 1}), 1, '^z', True) or structure(z, set())[1] != want:
            return f'z equation starts with {z}'


ZB = 'zhz: H, z rank, projection order <= 6; eT zhz: the same with up to 5 (thorough: 8) amplitudes; ground state, both sides (listed in z_files)'
ZF = ['generate_z_t_symmetric_latex', 'generate_eT_z_t_symmetric_latex', '_generate_z_symmetric_latex_equations',
      '_generate_eT_z_symmetric_latex_equations', '_prepare_third_z_latex', '_prepare_third_eTz_latex', '_build_first_z_term', '_build_fifth_z_term']
BOUNDED += [
    ('C09', Bounded('zhz and eT zhz index labels in the written file', run_z(z_labels), ZB, ZF)),
    ('C10', Bounded('zhz and eT zhz prefactors in the written file', run_z(z_coefficients), ZB, ZF)),
    ('C12', Bounded('zhz and eT zhz terms in the written file', run_z(z_complete), ZB, ZF)),
    ('C19', Bounded('zhz and eT zhz left-hand sides in the written file', run_z(z_lhs), ZB, ['generate_z_t_symmetric_latex', 'generate_eT_z_t_symmetric_latex'])),
]
