"""Generated full cc and e^T z code, executed on formal tensors and compared with the theory."""
import itertools
import math
import re
from fractions import Fraction

from contracts.common import *
from contracts import fcc as FC, etz as EC, labels as LB
from contracts.fcc import CH, ch
from common_imports import summation_indices as S, unlinked_indices as U
from contracts.weq import file_text, TAGS
from pyvc import tensors as X
from pyvc.tensors import Ten, A, N
import code_full_cc as CF
from latex_eT_zhz import connected_eT_h_z_operator_namedtuple
import code_eT_zhz as CE
from truncation_keys import TruncationsKeys as K

CONTRACTS, LEMMAS, BOUNDED = [], [], []
HTAG = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
fact = math.factorial


FM, EM = 'code_full_cc', 'code_eT_zhz'


def add(*a, **k):
    CONTRACTS.append(C(*a, props=['C17'], **k))


# ---------------------------------------------------------------- labels of the full cc einsums
def spec_py_h(h, condense_offset=0):
    """contracted indices (upper, then lower), and the indices shared with the projection"""
    k, o = h.m - h.m_o, condense_offset
    return S[0:k] + S[k:k + (h.n - h.n_o)], U[o:o + h.m_o] + U[o + h.m_o:o + h.m_o + h.n_o]


def cases_py_h(tier, rng):
    for h, off, col in LB.cases_h(tier, rng):
        if col:
            yield h, off


add(FM, '_build_h_term_python_labels', spec_py_h, [CH, TInt()], requires=LB.h_within, cases=cases_py_h, argnames=['h', 'condense_offset'])


def spec_py_t(term, offset_dict):
    """lower contracted labels continue the lower ones, upper contracted the upper ones, free labels lower first"""
    x = LB.take(offset_dict, 'summation_lower', S, term.n_h)
    y = LB.take(offset_dict, 'unlinked', U, term.n_o)
    v = LB.take(offset_dict, 'summation_upper', S, term.m_h)
    w = LB.take(offset_dict, 'unlinked', U, term.m_o)
    return x + v, y + w


def cases_py_t(tier, rng):
    for t, o, col in LB.cases_t(tier, rng):
        if col:
            yield t, o


add(FM, '_build_t_term_python_labels', spec_py_t, [ST, LB.TOFF], cases=cases_py_t, argnames=['term', 'offset_dict'])


def spec_py_group(t_list, h):
    d = {'summation_upper': h.m - h.m_o, 'summation_lower': 0, 'unlinked': h.m_o + h.n_o}
    a, b = [], []
    for t in t_list:
        x, y = spec_py_t(t, d)
        a.append(x)
        b.append(y)
    return a, b


def py_within(t_list, h):
    return h.m_o <= h.m and h.n_o <= h.n and h.rank == h.m + h.n


def cases_py_group(tier, rng):
    for ts, h, o in LB.cases_group(tier, rng):
        if h is not None:
            yield ts, h


add(FM, '_build_t_term_python_group', spec_py_group, [TList(ST), CH], requires=py_within, cases=cases_py_group, argnames=['t_list', 'h'])


ORDERS = tuple(tuple(itertools.permutations(range(k))) for k in range(7))


def spec_perms(term):
    """the surface index can run through the amplitudes in every order"""
    ts = term[2]
    count = {}
    for t in ts:
        if t in count:
            count[t] += 1
        else:
            count[t] = 1
    return (None if len(ts) == 1 else [x for x in ORDERS[len(ts)]]), count


def cases_perms(tier, rng):
    kinds = [st(0, 1, 0, 0), st(0, 0, 1, 0), st(1, 1, 0, 0), st(0, 2, 0, 0)]
    for k in range(1, 6):
        for _ in range(sized(tier, 12, 100)):
            yield ((None, None, [rng.choice(kinds) for _ in range(k)]),)


add(FM, '_multiple_perms_logic', spec_perms, variants=[[TFixed([TConst(None), TConst(None), TFixed([ST] * k)], kind='tuple')] for k in range(1, 5)], cases=cases_perms,
    argnames=['term'], norm=lambda r: (r[0] and sorted(map(tuple, r[0])), r[1]))


def spec_py_vib(h, t_list):
    """labels of h and of each amplitude, contracted then free; the output takes all free labels in that order"""
    a, b = spec_py_h(h)
    x, y = spec_py_group(t_list, h)
    return [a + b] + [x[i] + y[i] for i in range(len(x))], ''.join([b] + y)


def cases_py_vib(tier, rng):
    for ts, h in cases_py_group(tier, rng):
        yield h, ts


add(FM, '_full_cc_einsum_vibrational_components', spec_py_vib, [CH, TList(ST)], requires=lambda h, ts: py_within(ts, h), cases=cases_py_vib, argnames=['h', 't_list'])


def spec_py_el(t_list):
    """the electronic chain a-c-d-...-b through h and the amplitudes in order"""
    if len(t_list) == 0:
        return ['ab']
    chain = 'cdefgh'
    return ['ac'] + [chain[i] + ('b' if i == len(t_list) - 1 else chain[i + 1]) for i in range(len(t_list))]


def cases_el(tier, rng):
    for k in range(7):
        yield ([st(1, 0, 0, 0)] * k,)


add(FM, '_full_cc_einsum_electronic_components', spec_py_el, variants=[[TFixed([ST] * k)] for k in range(7)], cases=cases_el, argnames=['t_list'])


def spec_py_prefactor(h, t_list, simplify_flag=True):
    """(number of different amplitudes on h)! / (h.m! h.n! (number of amplitudes)!), nothing without amplitudes"""
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    x = len(set([t for t in t_list if t.m_h > 0 or t.n_h > 0]))
    num = [f'factorial({x})'] if x > 1 else []
    den = [f'factorial({k})' for k in (h.m, h.n, len(t_list)) if k > 1]
    if simplify_flag:
        num, den = LB.spec_simplify(num, den)
    if num == [] and den == []:
        return ''
    return ('1' if num == [] else '(' + ' * '.join(num) + ')') + '/' + ('1' if den == [] else '(' + ' * '.join(den) + ')') + ' * '


def py_value(s):
    """the number a prefactor string stands for"""
    if not isinstance(s, str) or not re.fullmatch(r'((factorial\(\d+\)|[\d()*/ ])* \* )?', s):
        return s
    return eval(s + '1', {'factorial': lambda n: Fraction(fact(n)), '__builtins__': {}}) if s else Fraction(1)


add(FM, '_build_full_cc_python_prefactor', spec_py_prefactor, cases=LB.cases_prefactor, norm=py_value, argnames=['h', 't_list', 'simplify_flag'],
    variants=[[CH, TList(ST, 1), TConst(False)], [CH, TList(ST, 1), TConst(True)]])


# ---------------------------------------------------------------- labels of the e^T z einsums
def spec_el_rhs(t_list, z_right, b_loop_flag=False):
    return [''] * len(t_list) + ['ac', 'c']


def spec_el_lhs(t_list, dT, z_right, b_loop_flag=False):
    return [''] * len(t_list) + ['', 'c']


def cases_el_rhs(tier, rng):
    for k in range(8):
        yield [EC.rnd_t(rng) for _ in range(k)], None, True


def cases_el_lhs(tier, rng):
    for k in range(8):
        yield [EC.rnd_t(rng) for _ in range(k)], None, None, True


add(EM, '_eT_zhz_einsum_electronic_components', spec_el_rhs, [EC.TS, TConst(None), TConst(True)], cases=cases_el_rhs, argnames=['t_list', 'z_right', 'b_loop_flag'])
add(EM, '_eT_zhz_einsum_electronic_components_lhs', spec_el_lhs, [EC.TS, TConst(None), TConst(None), TConst(True)], cases=cases_el_lhs,
    argnames=['t_list', 'dT', 'z_right', 'b_loop_flag'])


def spec_e_t(term, offset_dict):
    """next summation labels for the contractions with h and z, handed on to h and z; then the free labels"""
    d = offset_dict
    x = LB.take(d, 'summation_count', S, term.n_h)
    y = LB.take(d, 'summation_count', S, term.n_r)
    f = LB.take(d, 'unlinked_count', U, term.n_lhs)
    d['upper_h_indices'] += x
    d['upper_z_indices'] += y
    v = LB.take(d, 'summation_count', S, term.m_h)
    w = LB.take(d, 'summation_count', S, term.m_r)
    g = LB.take(d, 'unlinked_count', U, term.m_lhs)
    d['lower_h_indices'] += v
    d['lower_z_indices'] += w
    return x + y + v + w, f + g


def spec_e_h(h, offset_dict):
    d = offset_dict
    a = d['upper_h_indices'] + d['lower_h_indices']
    v = LB.take(d, 'summation_count', S, h.m_r)
    f = LB.take(d, 'unlinked_count', U, h.m_lhs)
    w = LB.take(d, 'summation_count', S, h.n_r)
    g = LB.take(d, 'unlinked_count', U, h.n_lhs)
    d['lower_z_indices'] += v
    d['upper_z_indices'] += w
    return (a + v + w, f + g), d


def spec_e_z(z_right, offset_dict):
    d = offset_dict
    a = d['upper_z_indices'] + d['lower_z_indices']
    f = LB.take(d, 'unlinked_count', U, z_right.m_lhs)
    g = LB.take(d, 'unlinked_count', U, z_right.n_lhs)
    return (a, f + g), d


def spec_e_group(t_list, h, z_right):
    d = {'summation_count': 0, 'unlinked_count': 0, 'upper_h_indices': '', 'lower_h_indices': '', 'upper_z_indices': '', 'lower_z_indices': ''}
    a, b = [], []
    for t in t_list:
        x, y = spec_e_t(t, d)
        a.append(x)
        b.append(y)
    return a, b, d


def spec_e_vib(t_list, h, z_right, b_loop_flag=False):
    a, b, d = spec_e_group(t_list, h, z_right)
    hl, d = spec_e_h(h, d)
    zl, d = spec_e_z(z_right, d)
    return [a[i] + b[i] for i in range(len(a))] + [hl[0] + hl[1], zl[0] + zl[1]], ''.join(b + [hl[1], zl[1]])




def zero(t):
    return {f: v if isinstance(v, TList) else TConst(0) for f, v in t.fields.items()}


PI, PS = ('summation_count', 'unlinked_count'), ('upper_h_indices', 'lower_h_indices', 'upper_z_indices', 'lower_z_indices')
PD0 = TDict([(k, TInt()) for k in PI] + [(k, TConst('')) for k in PS])
PD = TDict([(k, TInt()) for k in PI] + [(k, TStr()) for k in PS])


def rnd_pd(rng, empty=False):
    return {**{k: rng.randrange(3) for k in PI}, **{k: '' if empty else rng.choice(('', 'i', 'jk')) for k in PS}}


def cases_e_t(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        yield EC.rnd_t(rng), rnd_pd(rng)


def cases_e_h(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        h = LB.rnd_cht(rng)
        yield h, rnd_pd(rng, h.rank == 0)


def cases_e_z(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        z = LB.rnd_ezr(rng)
        yield z, rnd_pd(rng, z.rank == 0)


def parts_ok(o):
    return o.rank == o.m + o.n and o.m_lhs <= o.m and o.n_lhs <= o.n


def t_ok(t, *a):
    return t.n == t.n_lhs + t.n_h + t.n_r and t.m == t.m_lhs + t.m_h + t.m_r


def h_ok(h, d):
    return (h.rank == h.m + h.n and h.m_lhs + h.m_r <= h.m and h.n_lhs + h.n_r <= h.n
            and (h.rank > 0 or (d['upper_h_indices'] == '' and d['lower_h_indices'] == '')))


def z_ok(z, d):
    return (z.rank == z.m + z.n and z.m_lhs <= z.m and z.n_lhs <= z.n
            and (z.rank > 0 or (d['upper_z_indices'] == '' and d['lower_z_indices'] == '')))


add(EM, '_build_t_term_python_labels', spec_e_t, [EC.TREC, PD], requires=t_ok, cases=cases_e_t, argnames=['term', 'offset_dict'])
CH1, ZM1 = LB.ranged(EC.CHT, rank=TInt(1)), LB.ranged(EC.ZRL, rank=TInt(1))
HZ0, ZZ0 = TRec(EC.CHT.cls, **zero(EC.CHT)), TRec(EC.ZRL.cf, **zero(EC.ZRL))
PH0 = TDict([(k, TInt()) for k in PI] + [(k, TConst('') if '_h_' in k else TStr()) for k in PS])
PZ0 = TDict([(k, TInt()) for k in PI] + [(k, TConst('') if '_z_' in k else TStr()) for k in PS])
add(EM, '_build_h_term_python_labels', spec_e_h, variants=[[CH1, PD], [HZ0, PH0]], requires=h_ok, cases=cases_e_h, argnames=['h', 'offset_dict'])
add(EM, '_build_z_term_python_labels', spec_e_z, variants=[[ZM1, PD], [ZZ0, PZ0]], requires=z_ok, cases=cases_e_z, argnames=['z_right', 'offset_dict'])


def cases_e_group(tier, rng):
    for _ in range(sized(tier, 1500, 15000)):
        yield [EC.rnd_t(rng) for _ in range(rng.randrange(1, 4))], None, None


add(EM, '_build_t_term_python_group', spec_e_group, [EC.TS, TConst(None), TConst(None)], requires=lambda ts, h, z: all(t_ok(t) for t in ts),
    cases=cases_e_group, argnames=['t_list', 'h', 'z_right'])


TNOH = TList(LB.ranged(EC.TREC, m_h=TConst(0), n_h=TConst(0)), 1, kind='tuple')
TNOZ = TList(LB.ranged(EC.TREC, m_r=TConst(0), n_r=TConst(0)), 1, kind='tuple')
TFIX = TList(TRec(EC.TREC.cf, **{**EC.TREC.fields, **{f: TConst(0) for f in ('m_h', 'n_h', 'm_r', 'n_r')}}), 1, kind='tuple')


def vib_ok(t_list, h, z, *a):
    """h and z take exactly the labels the amplitudes and h hand on"""
    return (all(t_ok(t) for t in t_list) and h.rank == h.m + h.n and z.rank == z.m + z.n
            and h.m == h.m_lhs + h.m_r + sum(t.n_h for t in t_list) and h.n == h.n_lhs + h.n_r + sum(t.m_h for t in t_list)
            and z.m == z.m_lhs + h.n_r + sum(t.n_r for t in t_list) and z.n == z.n_lhs + h.m_r + sum(t.m_r for t in t_list))


def cases_e_vib(tier, rng):
    for _ in range(sized(tier, 1500, 15000)):
        ts = [EC.rnd_t(rng) for _ in range(rng.randrange(1, 4))]
        f = {x: rng.choice((0, 0, 1, 2)) for x in ('m_lhs', 'n_lhs', 'm_r', 'n_r')}
        a, b = [t.n_h for t in ts], [t.m_h for t in ts]
        m, n = f['m_lhs'] + f['m_r'] + sum(a), f['n_lhs'] + f['n_r'] + sum(b)
        h = connected_eT_h_z_operator_namedtuple(rank=m + n, m=m, n=n, m_t=a, n_t=b, m_l=0, n_l=0, **f)
        u = (rng.randrange(3), tuple(t.n_r for t in ts), h.n_r, 0)
        l = (rng.randrange(3), tuple(t.m_r for t in ts), h.m_r, 0)
        yield ts, h, EC.mk_zr(op(u[0] + u[2] + sum(u[1]), l[0] + l[2] + sum(l[1])), u, l, len(ts)), True


for name in ('_eT_zhz_einsum_vibrational_components', '_eT_zhz_einsum_vibrational_components_lhs'):
    add(EM, name, spec_e_vib, variants=[[ts, h, z, TConst(True)] for ts, h in ((EC.TS, CH1), (TNOH, HZ0)) for z in (ZM1,)] + [[TFIX, HZ0, ZZ0, TConst(True)], [TNOZ, CH1, ZZ0, TConst(True)]], requires=vib_ok, cases=cases_e_vib, argnames=['t_list', 'h', 'z_right', 'b_loop_flag'])


add(EM, '_simplify_eT_zhz_python_prefactor', LB.spec_simplify, cases=LB.cases_simplify, norm=LB.both_sorted, argnames=['numerator_list', 'denominator_list'])


def spec_e_prefactor(t_list, h, z_right, simplify_flag=True):
    """value num/den: 1/(m! n!) of h and 1/m! of z; the choices of free and contracted labels; the pairings of z with h"""
    num, den = 1, 1
    for k, free, r in ((h.m, h.m_lhs, h.m_r), (h.n, h.n_lhs, h.n_r)):
        if k > 1:
            den *= math.factorial(k)
            num *= math.comb(k, free) * math.comb(k - free, r)
    if z_right.m > 1:
        den *= math.factorial(z_right.m)
        num *= math.comb(z_right.m, z_right.m_lhs) * math.comb(z_right.m - z_right.m_lhs, z_right.m_h)
        if z_right.m_h > 1:
            num *= math.factorial(z_right.m_h)
    return '', num, den


def e_balanced(t_list, h, z_right, *a):
    return (LB.balanced(t_list, h, None, z_right) and h.m_lhs + h.m_r <= h.m and h.n_lhs + h.n_r <= h.n
            and all(t.m <= 1 and t.n <= 1 for t in t_list))


def cases_e_pref(tier, rng):
    for ts, h, l, z, o, f in LB.cases_eThzp(tier, rng):
        if all(t.m <= 1 and t.n <= 1 for t in ts):
            yield ts, h, z, True


add(EM, '_build_eT_zhz_python_prefactor', spec_e_prefactor, cases=cases_e_pref, requires=e_balanced, view=lambda r: (r[1], r[2]), budget=400,
    argnames=['t_list', 'h', 'z_right', 'simplify_flag'],
    variants=[[EC.TS, LB.ranged(EC.CHT, m=a, n=b), LB.ranged(EC.ZRL, m=c, n=TConst(0), m_h=d), TConst(True)]
              for a, b in ((LB.SMALL, LB.SMALL), (LB.SMALL, LB.BIG), (LB.BIG, LB.SMALL), (LB.BIG, LB.BIG)) for c, d in ((LB.SMALL, TInt()), (LB.BIG, LB.SMALL), (LB.BIG, LB.BIG))])


# ---------------------------------------------------------------- tensors symmetric in their mode indices
def signature(shape, key):
    """form of one contraction that identifies contractions equal for all tensors symmetric in their mode axes"""
    where = {}
    for i, (n, ls) in enumerate(key):
        for l in ls:
            where.setdefault(l, []).append(i)
    elec = [l for l in where if l == ('o', 0) or (l[0] == 'o' and shape[l[1]] == A)]
    # electronic axes come first in every array
    names, rows = {}, []
    nel = {i: (2 if n[0] in 'hT' or n[0] == 'R' else 1 if n[0] in 'zd' else 0) for i, (n, ls) in enumerate(key)}
    start = [i for i, (n, ls) in enumerate(key) if nel[i] and ls[0] == ('o', 0)]
    order = []
    todo = [i for i in range(len(key)) if nel[i]]
    want = ('o', 0)
    while True:                     # follow the chain a - c - d - ... - b
        nxt = [i for i in todo if key[i][1][0] == want]
        if len(nxt) != 1:
            break
        i = nxt[0]
        todo.remove(i)
        order.append(i)
        if nel[i] == 1:
            break
        want = key[i][1][1]
    rest = [i for i in range(len(key)) if i not in order]
    el = {}
    for i in order:
        for l in key[i][1][:nel[i]]:
            el.setdefault(l, l if l[0] == 'o' else ('e', len(el)))

    def row(i):
        n, ls = key[i]
        modes = ls[nel[i]:] if i in order else ls
        es = tuple(el[l] for l in ls[:nel[i]]) if i in order else ()
        r = []
        for l in modes:
            if l[0] == 'o':
                r.append(('o', l[1]))
            else:
                r.append(('s', tuple(sorted(key[j][0] for j in where[l] if j != i)), where[l].count(i)))
        return n, es, tuple(sorted(r, key=repr))
    return tuple(row(i) for i in order), tuple(sorted((row(i) for i in rest), key=repr))


def symmetric_form(t):
    r = {}
    for k, v in t.terms.items():
        s = signature(t.shape, k)
        r[s] = r.get(s, 0) + v
    return {k: v for k, v in r.items() if v}


def sdiff(got, want):
    if not isinstance(got, Ten):
        return f'result is {got!r}, not an array'
    if got.shape != want.shape:
        return f'result has shape {got.shape}, expected {want.shape}'
    g, w = symmetric_form(got), symmetric_form(want)
    ks = sorted((k for k in set(g) | set(w) if g.get(k, 0) != w.get(k, 0)), key=repr)
    if ks:
        return f'{len(ks)} contraction(s) differ: ' + '; '.join(f'{k} has weight {g.get(k, 0)}, expected {w.get(k, 0)}' for k in ks[:2])


class Missing(Exception):
    pass


class Args(dict):
    """operands by (m, n); any rank within the truncation exists"""

    def __init__(self, name, nel):
        self.n, self.nel = name, nel

    def __missing__(self, k):
        t = Ten.atom(f'{self.n}{k[0]}{k[1]}', (A,) * self.nel + (N,) * (k[0] + k[1]))
        self[k] = t
        return t


class Trunc:
    """truncation object: listed flags are set; confirm_* calls are recorded"""

    def __init__(self, on, refuse=()):
        self.on, self.refuse, self.asked = set(on), set(refuse), []

    def __getattr__(self, n):
        if n.startswith('confirm_'):
            def f():
                self.asked.append(n)
                if n in self.refuse:
                    raise Missing(n)
            return f
        if n in ALLFLAGS:
            return n in self.on
        raise X.Bad(f'generated code asks for truncation.{n}')


ALLFLAGS = ({f'at_least_{h}' for h in HTAG[1:]} | {f'h_at_least_{h}' for h in HTAG[1:]} | {f'z_at_least_{h}' for h in HTAG[1:]}
            | set(TAGS[1:]) | {f't_{t}' for t in TAGS[1:]})


class Ansatz:
    def __init__(self, ground):
        self.ground_state = ground


def settings(groups):
    """flag settings that separate every gate: all on, none, each one off, one of each group"""
    allf = [f for g in groups for f in g]
    if len(allf) <= 5:
        for r in itertools.product((True, False), repeat=len(allf)):
            yield {f for f, b in zip(allf, r) if b}
        return
    yield set(allf)
    yield set()
    for f in allf:
        yield set(allf) - {f}
    for pick in itertools.product(*groups):
        yield set(pick)


def run_code(f):
    try:
        return f()
    except X.Bad as e:
        return f'generated code: {e}'
    except Exception as e:
        return f'generated code raises {type(e).__name__}: {e}'


def raises_not_implemented(f):
    try:
        f()
    except NotImplementedError:
        return None
    except Exception as e:
        return f'excited state code raises {type(e).__name__}: {e} instead of NotImplementedError'
    return 'excited state code returns a value instead of raising NotImplementedError'


# ---------------------------------------------------------------- full cc
GROUPS = ('fully_connected', 'linked_disconnected', 'unlinked_disconnected')


def fcc_contraction(h, ts, chain):
    """h t_chain[0] t_chain[1] ... ; output indices: those of h, then of each t as listed"""
    fresh = itertools.count()
    up, low = [next(fresh) for _ in range(h.m - h.m_o)], [next(fresh) for _ in range(h.n - h.n_o)]
    out = []

    def free(k):
        r = [('F', len(out) + i) for i in range(k)]
        out.extend(r)
        return r
    hl = up + low + free(h.m_o + h.n_o)
    ui, li = iter(up), iter(low)
    tl = []
    for t in ts:
        a = [next(li) for _ in range(t.m_h)]
        b = [next(ui) for _ in range(t.n_h)]
        tl.append(a + b + free(t.m_o + t.n_o))
    el = [('E', i) for i in range(len(ts) + 2)]
    fac = [(f'h{h.m}{h.n}', tuple([el[0], el[1]] + hl))]
    for i, j in enumerate(chain):
        t = ts[j]
        fac.append((f'T{t.m_h + t.m_o}{t.n_h + t.n_o}', tuple([el[i + 1], el[i + 2]] + tl[j])))
    o = (el[0], el[len(chain) + 1]) + tuple(out)
    return Ten((A, A) + (N,) * len(out), {X._canon(fac, o): Fraction(1)})


def ref_fcc(omega, terms, on):
    R = Ten((A, A) + (N,) * omega.rank)
    for o, h, ts in terms:
        k = len(ts)
        if k == 1 and not any(ts[0]):
            R += fcc_contraction(h, [], [])
            continue
        hr, tr = max(h.m, h.n), max(sum(t) for t in ts)
        if (hr and f'at_least_{HTAG[hr]}' not in on) or TAGS[tr] not in on:
            continue
        x = len({t for t in ts if t.m_h or t.n_h})
        w = Fraction(fact(x), fact(h.m) * fact(h.n) * fact(k))
        if k == 1:
            w *= fact(omega.rank)
        for chain in itertools.permutations(range(k)):
            R += w * fcc_contraction(h, list(ts), chain)
    return R


class Replay:
    """stands for opt_einsum: paths written without subscripts take those of the default code"""

    def __init__(self):
        self.bare = 0

    def contract_expression(self, *a, **k):
        if a and isinstance(a[0], str):
            return X.Expr(a[0], a[1:])
        self.bare += 1
        return Bare(a)


class Bare:
    subs = []

    def __init__(self, shapes):
        self.shapes = shapes

    def __call__(self, *ops):
        if tuple(o.shape for o in ops) != tuple(tuple(s) for s in self.shapes):
            raise X.Bad(f'a path for shapes {self.shapes} is used for operands of shapes {[o.shape for o in ops]}')
        if not Bare.subs:
            raise X.Bad('more contractions than in the default code')
        return X.einsum(Bare.subs.pop(0), *ops)


NOSUB = 'the full cc contraction paths are built without subscripts, so building them fails'
NOLIST = 'compute_all_optimized_paths of the full cc code stores the paths in a list under tuple keys, so calling it fails'


def fcc_cfgs(tier):
    # H, CC, S, P
    yield 2, 2, 2, 2, True
    yield 1, 1, 4, 2, False
    yield 3, 2, 2, 3, True
    yield 4, 3, 2, 2, True
    yield 5, 2, 1, 4, False
    yield 2, 1, 5, 2, True
    yield 2, 3, 3, 1, True
    if tier != 'quick':
        yield 3, 3, 3, 3, True
        yield 6, 2, 2, 2, True
        yield 2, 6, 2, 3, True
        yield 4, 4, 2, 4, False
        yield 2, 1, 6, 2, True
        yield 6, 6, 1, 6, True


def run_fcc(tier, rng, deadline):
    for hr, cc, s, p, gs in fcc_cfgs(tier):
        tr = {K.H: hr, K.CC: cc, K.S: s, K.P: p}
        head = f'full cc code, H {hr}, CC {cc}, S {s}, P {p}'
        src = file_text(lambda path: CF.generate_full_cc_python(tr, only_ground_state=gs, path=path))
        oe = Replay()
        env = run_code(lambda: X.load(src, 'full cc code', extra={'oe': oe}))
        if isinstance(env, str):
            yield head, env
            continue
        H = FC.spec_fcc_hamiltonian(hr)
        series = FC.spec_s_taylor(cc, s, True)
        hnames, tnames = [f'at_least_{HTAG[i]}' for i in range(1, hr + 1)], TAGS[1:cc + 1]
        for omega in FC.spec_omega(cc, p).operator_list:
            spec = f'm{omega.m}_n{omega.n}'
            terms = [t for ser in series for hs in FC.reference_terms(omega, H, ser, True) for t in hs]
            groups = FC.spec_separate(terms)
            for on in settings([hnames, tnames]):
                where = f'{head}, projection {omega.name!r}, flags {sorted(on)}'
                want = [ref_fcc(omega, g, on) for g in groups]
                total = Ten((A, A) + (N,) * omega.rank)
                for g, w in zip(GROUPS, want):
                    total += w
                    R = Ten((A, A) + (N,) * omega.rank)
                    X.EINSUM_LOG = []
                    f = run_code(lambda: env[f'add_{spec}_{g}_terms'](R, Ansatz(True), Trunc(on), Args('h', 2), Args('T', 2)))
                    subs = [x[0] for x in X.EINSUM_LOG]
                    X.EINSUM_LOG = None
                    yield f'{where}, {g}', f if isinstance(f, str) else sdiff(R, w)
                    R2 = Ten((A, A) + (N,) * omega.rank)

                    def opt():
                        paths = env[f'compute_{spec}_{g}_optimized_paths'](A, N, Ansatz(True), Trunc(on))
                        n = len(paths)
                        if n != len(subs):
                            raise X.Bad(f'{n} contraction paths for {len(subs)} contractions')
                        Bare.subs = list(subs)
                        env[f'add_{spec}_{g}_terms_optimized'](R2, Ansatz(True), Trunc(on), Args('h', 2), Args('T', 2), paths)
                    f = run_code(opt)
                    yield f'{where}, {g}, optimized', f if isinstance(f, str) else sdiff(R2, w)
                tt = Trunc(on)
                f = run_code(lambda: env[f'compute_{spec}_amplitude'](A, N, Ansatz(True), tt, Args('h', 2), Args('T', 2)))
                yield f'{where}, whole amplitude', f if isinstance(f, str) else sdiff(f, total)
            for g in GROUPS:
                yield (f'{head}, projection {omega.name!r}, {g}, excited state',
                       raises_not_implemented(lambda: env[f'add_{spec}_{g}_terms'](Ten((A, A) + (N,) * omega.rank), Ansatz(False), Trunc(hnames + tnames), Args('h', 2), Args('T', 2))))

            def refused():
                try:
                    env[f'compute_{spec}_amplitude'](A, N, Ansatz(True), Trunc(hnames + tnames, ['confirm_at_least_singles']), Args('h', 2), Args('T', 2))
                except Missing:
                    return None
                return 'a truncation below singles is not refused'
            yield f'{head}, projection {omega.name!r}, truncation below singles', run_code(refused)
        if oe.bare:
            yield f'{head}, contraction paths', NOSUB

        def allpaths():
            try:
                r = env['compute_all_optimized_paths'](A, N, Ansatz(True), Trunc(hnames + tnames))
            except TypeError as e:
                return NOLIST if 'list indices' in str(e) else str(e)
            return None
        yield f'{head}, all contraction paths', run_code(allpaths)


BOUNDED.append(('C17', Bounded('full cc code against the terms of the theory', run_fcc,
                               'the listed truncations (quick: 7, thorough: 13), every projection, every gate of the truncation flags, all tensors symmetric in their modes',
                               ['generate_full_cc_python', '_generate_full_cc_einsums', '_write_cc_einsum_python_from_list', '_multiple_perms_logic',
                                '_full_cc_einsum_electronic_components', '_full_cc_einsum_vibrational_components', '_write_master_full_cc_compute_function',
                                '_write_cc_optimized_paths_from_list', '_generate_optimized_paths_functions'])))


# ---------------------------------------------------------------- e^T z
def ref_eT(p, side, hs, cc, order, on, exp):
    """closed form: every way to hand out the indices of h, z and k single t's, with its weight"""
    R = Ten((A,) + (N,) * p)
    for hm, hn in hs:
        if side == 'LHS' and hn:
            continue
        hr = max(hm, hn)
        if hr and f'h_at_least_{HTAG[hr]}' not in on:
            continue
        for zm in range(cc + 1):
            if zm and f'z_at_least_{HTAG[zm]}' not in on:
                continue
            for kh in range(hm + 1):
                ml = hm - kh
                zl = p - ml
                kz = zm - hn - zl
                if zl < 0 or kz < 0 or kh + kz > order or bool(kh + kz) != exp:
                    continue
                if exp and 't_singles' not in on:
                    continue
                if not exp and (hm, hn) == (0, 0):
                    # LHS: the derivative that is being computed; RHS: see the known finding
                    if side == 'LHS':
                        continue
                w = Fraction(1, fact(ml) * fact(hn) * fact(kh) * fact(zl) * fact(kz))
                c = itertools.count()
                th, tz, nr = ([next(c) for _ in range(x)] for x in (kh, kz, hn))
                fh, fz = [('F', i) for i in range(ml)], [('F', ml + i) for i in range(zl)]
                fac = [('t01', (l,)) for l in th + tz]
                if side == 'RHS':
                    fac.append((f'h{hm}{hn}', ('a', 'c') + tuple(th + nr + fh)))
                    fac.append((f'z{zm}0', ('c',) + tuple(tz + nr + fz)))
                    o = ('a',) + tuple(fh + fz)
                elif (hm, hn) == (0, 0):
                    fac.append((f'dz{zm}0', ('c',) + tuple(tz + fz)))
                    o = ('c',) + tuple(fh + fz)
                else:
                    fac.append((f'x{hm}{hn}', tuple(th + fh)))
                    fac.append((f'z{zm}0', ('c',) + tuple(tz + fz)))
                    o = ('c',) + tuple(fh + fz)
                R += Ten(R.shape, {X._canon(fac, o): w})
    return R


def eT_cfgs(tier):
    # H, CC, T, eT, P
    yield 2, 2, 1, 2, 2
    yield 1, 3, 1, 1, 4
    yield 4, 4, 1, 3, 3
    yield 6, 6, 1, 2, 2
    yield 3, 5, 1, 5, 5
    yield 2, 6, 1, 1, 6
    if tier != 'quick':
        yield 2, 6, 1, 6, 6
        yield 6, 6, 1, 4, 6
        yield 5, 3, 1, 6, 3


def eT_args(side):
    if side == 'RHS':
        return [Args('t', 0), Args('h', 2), Args('z', 1)]
    return [Args('t', 0), Args('x', 0), Args('z', 1), Args('dz', 1)]


RHSGAP = 'the RHS e^T z code leaves out the h(0,0) z(n,0) term of the projection of order n'


def run_eT(side):
    def run(tier, rng, deadline):
        for hr, cc, t, order, p in eT_cfgs(tier):
            tr = {K.H: hr, K.CC: cc, K.T: t, K.eT: order, K.P: p}
            head = f'e^T z code, {side}, H {hr}, CC {cc}, eT {order}, P {p}'
            src = file_text(lambda path: CE.generate_eT_zhz_python(tr, only_ground_state=True, remove_f_terms=False, lhs_rhs=side, path=path))
            env = run_code(lambda: X.load(src, 'e^T z code'))
            if isinstance(env, str):
                yield head, env
                continue
            hs = [(m, k - m) for k in range(hr + 1) for m in range(k + 1) if k < 3 or m == 0]
            if hr > 2:
                pass
            names = [[f'h_at_least_{x}' for x in HTAG[1:hr + 1]], ['t_singles'], [f'z_at_least_{x}' for x in HTAG[1:cc + 1]]]
            for n in sorted({o.n for o in FC.spec_omega(cc, p).operator_list if o.m == 0}):
                spec = f'm0_n{n}'
                gap = Ten((A,) + (N,) * n, {X._canon([('h00', ('a', 'c')), (f'z{n}0', ('c',) + tuple(('F', i) for i in range(n)))], ('a',) + tuple(('F', i) for i in range(n))): Fraction(1, fact(n))})
                for on in settings(names):
                    where = f'{head}, projection of order {n}, flags {sorted(on)}'
                    total = Ten((A,) + (N,) * n)
                    for exp, part in ((False, 'HZ'), (True, 'eT_HZ')):
                        want = ref_eT(n, side, hs, cc, order, on, exp)
                        total += want
                        for sfx in ('', '_optimized'):
                            fn = f'add_{spec}_{part}_terms{sfx}' if side == 'RHS' else f'compute_{spec}_{part}_LHS{sfx}'
                            R = Ten((A,) + (N,) * n)
                            f = run_code(lambda: env[fn](R, Ansatz(True), Trunc(on), *eT_args(side), *([[]] if sfx else [])))
                            d = f if isinstance(f, str) else sdiff(R, want)
                            if d and side == 'RHS' and not exp and not isinstance(f, str) and sdiff(R + gap, want) is None:
                                d = RHSGAP
                            yield f'{where}, {fn}', d
                    for sfx in ('', '_optimized'):
                        tt = Trunc(on)
                        f = run_code(lambda: env[f'compute_{spec}_amplitude{sfx}'](A, N, Ansatz(True), tt, *eT_args(side), *([([], [])] if sfx else [])))
                        d = f if isinstance(f, str) else sdiff(f, total)
                        if d and side == 'RHS' and not isinstance(f, str) and sdiff(f + gap, total) is None:
                            d = RHSGAP
                        yield f'{where}, whole amplitude{sfx}', d
                allf = [x for g in names for x in g]
                for lvl in range(1, 7):
                    def refused():
                        try:
                            env[f'compute_{spec}_amplitude'](A, N, Ansatz(True), Trunc(allf, [f'confirm_at_least_{TAGS[lvl]}']), *eT_args(side))
                        except Missing:
                            return None if lvl <= max(1, n) else f'a truncation at {TAGS[lvl - 1]} is refused'
                        return f'a truncation below {TAGS[lvl]} is not refused' if lvl <= max(1, n) else None
                    yield f'{head}, projection of order {n}, truncation below {TAGS[lvl]}', run_code(refused)
                for part in ('HZ', 'eT_HZ'):
                    fn = f'add_{spec}_{part}_terms' if side == 'RHS' else f'compute_{spec}_{part}_LHS'
                    yield f'{head}, {fn}, excited state', raises_not_implemented(lambda: env[fn](Ten((A,) + (N,) * n), Ansatz(False), Trunc(allf), *eT_args(side)))
    return run


for side in ('RHS', 'LHS'):
    BOUNDED.append(('C17', Bounded(f'e^T z code ({side}) against the closed form of the theory', run_eT(side),
                                   'the listed truncations (quick: 6, thorough: 9), every projection, every gate of the truncation flags, all tensors symmetric in their modes',
                                   ['generate_eT_zhz_python', '_generate_eT_zhz_einsums', '_write_third_eTz_einsum_python', '_collect_z_contributions',
                                    '_handle_multiline_same_prefactor', '_eT_zhz_einsum_electronic_components', '_eT_zhz_einsum_vibrational_components',
                                    'remove_all_excited_state_t_terms', '_construct_eT_zhz_compute_function', '_write_master_eT_zhz_compute_function'])))
