"""Index labels and prefactors of single LaTeX terms (latex_full_cc, latex_zhz, latex_eT_zhz)."""
import math
import re
from fractions import Fraction

from contracts.common import *
from contracts.fcc import CH, ch, spec_fcc_hamiltonian
from contracts import zhz as ZC, etz as EC
from common_imports import summation_indices as S, unlinked_indices as U, z_summation_indices as ZS, z_unlinked_indices as ZU
from latex_zhz import (
    connected_h_z_operator_namedtuple, connected_z_right_operator_namedtuple, disconnected_z_right_operator_namedtuple,
)
from latex_eT_zhz import (
    connected_eT_h_z_operator_namedtuple, connected_eT_z_right_operator_namedtuple, connected_t_operator_namedtuple,
    disconnected_eT_z_right_operator_namedtuple, disconnected_t_operator_namedtuple,
)

CONTRACTS, LEMMAS, BOUNDED = [], [], []
FCCM, ZHZM, ETZM = 'latex_full_cc', 'latex_zhz', 'latex_eT_zhz'


def add(module, *a, **k):
    CONTRACTS.append(C(module, *a, **k))


# ---------------------------------------------------------------- full cc labels
def spec_h_labels(h, condense_offset=0, color=True):
    """contracted indices first (upper then lower share one run of summation labels), then the indices shared with the projection"""
    if h.rank == 0:
        return '\\bh_0'
    k = h.m - h.m_o
    u, v = S[0:k], U[condense_offset:condense_offset + h.m_o]
    x, y = S[k:k + (h.n - h.n_o)], U[condense_offset + h.m_o:condense_offset + h.m_o + h.n_o]
    if color:
        return '\\bh^{\\blue{' + u + '}\\red{' + v + '}}_{\\blue{' + x + '}\\red{' + y + '}}'
    return '\\bh^{' + u + v + '}_{' + x + y + '}'


def h_within(h, condense_offset=0, color=True):
    return h.rank == h.m + h.n and h.m_o <= h.m and h.n_o <= h.n


def cases_h(tier, rng):
    for m, n in pairs(4):
        for a in range(m + 1):
            for b in range(n + 1):
                for off in (0, 1, 3):
                    for col in (True, False):
                        yield ch(m, n, a, b, ()), off, col


add(FCCM, '_build_h_term_latex_labels', spec_h_labels, [CH, TInt(), TBool()], requires=h_within, props=['C09'], cases=cases_h,
    argnames=['h', 'condense_offset', 'color'])


def spec_t_labels(term, offset_dict, color=True):
    up, down = '', ''
    if term.n_h > 0 or term.n_o > 0:
        a, b = offset_dict['summation_lower'], offset_dict['unlinked']
        x, y = S[a:a + term.n_h], U[b:b + term.n_o]
        down = '\\blue{' + x + '}\\red{' + y + '}' if color else x + y
        offset_dict['summation_lower'] = a + term.n_h
        offset_dict['unlinked'] = b + term.n_o
    if term.m_h > 0 or term.m_o > 0:
        a, b = offset_dict['summation_upper'], offset_dict['unlinked']
        x, y = S[a:a + term.m_h], U[b:b + term.m_o]
        up = '\\blue{' + x + '}\\red{' + y + '}' if color else x + y
        offset_dict['summation_upper'] = a + term.m_h
        offset_dict['unlinked'] = b + term.m_o
    return '^{' + up + '}_{' + down + '}'


def offs(a, b, c):
    return {'summation_upper': a, 'summation_lower': b, 'unlinked': c}


def cases_t(tier, rng):
    for v in it_product(range(3), repeat=4):
        for o in ((0, 0, 0), (2, 1, 3)):
            for col in (True, False):
                yield st(*v), offs(*o), col


TOFF = TDict([('summation_upper', TInt()), ('summation_lower', TInt()), ('unlinked', TInt())])
add(FCCM, '_build_t_term_latex_labels', spec_t_labels, [ST, TOFF, TBool()], props=['C09'], cases=cases_t,
    argnames=['term', 'offset_dict', 'color'])


def spec_t_group(s_list, h=None, offset_dict=None):
    """each amplitude takes the next labels: lower contracted from 0, upper contracted after those of h, free after those of h"""
    d = offset_dict if offset_dict is not None else {'summation_upper': 0, 'summation_lower': 0, 'unlinked': 0}
    if h is not None:
        d['summation_upper'] += h.m - h.m_o
        d['unlinked'] += h.m_o + h.n_o
    out = []
    for s in s_list:
        t = spec_t_labels(s, d)
        if s.m_h + s.n_h + s.m_o + s.n_o > 0:
            out.append('\\bt' + t)
    return out


def group_within(s_list, h=None, offset_dict=None):
    return h is None or (h.m_o <= h.m and h.n_o <= h.n)


def cases_group(tier, rng):
    for _ in range(sized(tier, 1500, 15000)):
        ts = [st(*(rng.choice((0, 0, 1, 2)) for _ in range(4))) for _ in range(rng.randrange(4))]
        a, b = rng.randrange(3), rng.randrange(3)
        h = rng.choice((None, ch(a + rng.randrange(3), b + rng.randrange(3), a, b, ())))
        yield ts, h, rng.choice((None, offs(rng.randrange(3), rng.randrange(3), rng.randrange(3))))


add(FCCM, '_build_t_term_latex_group', spec_t_group, requires=group_within, props=['C09'], cases=cases_group,
    variants=[[TList(ST), CH, TConst(None)], [TList(ST), TConst(None), TConst(None)], [TList(ST), CH, TOFF], [TList(ST), TConst(None), TOFF]],
    argnames=['s_list', 'h', 'offset_dict'], budget=90)


# ---------------------------------------------------------------- z h z labels
def blue(x):
    return '\\blue{' + x + '}'


def red(x):
    return '\\red{' + x + '}'


def magenta(x):
    return '\\magenta{' + x + '}'


def take(d, key, src, k):
    """the next k labels of src, advancing the offset"""
    a = d[key]
    d[key] = a + k
    return src[a:a + k]


def spec_hz_labels(h, offset_dict, color=True):
    if h.rank == 0:
        return '\\bh_0'
    up, down = '', ''
    if h.n > 0:
        down = blue(ZS[0:h.n_l]) + blue(take(offset_dict, 'summation_index', ZS, h.n_r)) + red(take(offset_dict, 'unlinked_index', ZU, h.n_lhs))
    if h.m > 0:
        a = offset_dict['left_upper']
        up = blue(ZS[a:a + h.m_l]) + blue(take(offset_dict, 'summation_index', ZS, h.m_r)) + red(take(offset_dict, 'unlinked_index', ZU, h.m_lhs))
    return '\\bh^{' + up + '}_{' + down + '}'


def spec_right_z(h, z_right, offset_dict, color=True):
    if z_right.rank == 0:
        return '\\bz_0'
    up, down = '', ''
    if z_right.n > 0:
        a, b = offset_dict['left_lower'], offset_dict['h_lower']
        down = magenta(ZS[a:a + z_right.n_l]) + blue(ZS[b:b + z_right.n_h]) + red(take(offset_dict, 'unlinked_index', ZU, z_right.n_lhs))
    if z_right.m > 0:
        a, b = offset_dict['left_upper'], offset_dict['h_upper']
        up = magenta(ZS[a:a + z_right.m_l]) + blue(ZS[b:b + z_right.m_h]) + red(take(offset_dict, 'unlinked_index', ZU, z_right.m_lhs))
    return '\\bz^{' + up + '}_{' + down + '}'


ZKEYS = ('left_lower', 'left_upper', 'h_lower', 'h_upper', 'summation_index', 'unlinked_index')
ZOFF = TDict([(k, TInt()) for k in ZKEYS])


def rnd_chz(rng):
    v = [rng.choice((0, 0, 1, 2)) for _ in range(6)]
    return connected_h_z_operator_namedtuple(sum(v), v[0] + v[1] + v[2], v[3] + v[4] + v[5], v[0], v[3], v[1], v[4], v[2], v[5])


def cases_hz(tier, rng):
    for _ in range(sized(tier, 2500, 25000)):
        yield rnd_chz(rng), {k: rng.randrange(3) for k in ZKEYS}, rng.random() < .5


def cases_rz(tier, rng):
    for _ in range(sized(tier, 2500, 25000)):
        yield rnd_chz(rng), ZC.rnd_zr(rng), {k: rng.randrange(3) for k in ZKEYS}, rng.random() < .5


add(ZHZM, '_build_hz_term_latex_labels', spec_hz_labels, [ZC.CHZ, ZOFF, TBool()], props=['C09'], cases=cases_hz, argnames=['h', 'offset_dict', 'color'])
add(ZHZM, '_build_right_z_term', spec_right_z, [ZC.CHZ, ZC.ZR, ZOFF, TBool()], props=['C09'], cases=cases_rz, argnames=['h', 'z_right', 'offset_dict', 'color'])


def spec_first(LHS):
    if LHS.rank == 0:
        return '\\bh_{0,xb}(1-\\delta_{x\\gamma})'
    return '\\bh^{' + S[0:LHS.n] + '}_{' + S[LHS.n:LHS.n + LHS.m] + '}(1-\\delta_{x\\gamma})'


def cases_lhs(tier, rng):
    for m, n in pairs(sized(tier, 5, 8)):
        yield (op(m, n),)


add(ZHZM, '_build_first_z_term', spec_first, [OP], props=['C09'], cases=cases_lhs, argnames=['LHS'])


def dt_dtau(u, d):
    """the derivative of the amplitude with the given upper and lower labels"""
    return '\\dv{\\hat{\\bt}' + ('^{' + u + '}' if u != '' else '') + ('_{' + d + ', \\gamma}' if d != '' else '_{\\gamma}') + '}{\\tau}'


def spec_fifth(LHS, Z):
    """every way to split the creation labels of the projection between dt/dtau and z"""
    out = []
    for k in range(LHS.n + 1):
        if LHS.m == 0 and k == LHS.n:
            t = '\\dv{\\hat{\\bt}_{0, \\gamma}}{\\tau}'
        else:
            t = dt_dtau(S[0:LHS.n - k], S[LHS.n:LHS.n + LHS.m])
        z = '\\hat{\\bz}_{0, \\gamma}' if k == 0 else '\\hat{\\bz}^{' + S[LHS.n - k:LHS.n] + '}_{\\gamma}'
        out.append(t + '\\,' + z)
    return ' + '.join(out)


def cases_fifth(tier, rng):
    for m, n in pairs(4):
        yield op(m, n), ZC.spec_z_operator(2, True)


add(ZHZM, '_build_fifth_z_term', spec_fifth, [OP, TConst(None)], props=['C09'], cases=cases_fifth, argnames=['LHS', 'Z'])


# ---------------------------------------------------------------- e^T labels
def spec_eT_labels(t_list, offset_dict, lhs_rhs, color=True, letters=True):
    out = ''
    for t in t_list:
        if t.rank == 0:
            return '\\mathds{1}'
        up, down = '', ''
        if letters:
            if t.m > 0:
                x = magenta(take(offset_dict, 'summation_index', ZS, t.m_l))
                y = blue(take(offset_dict, 'summation_index', ZS, t.m_h))
                z = magenta(take(offset_dict, 'summation_index', ZS, t.m_r))
                offset_dict['lower_left_z'] += x
                offset_dict['lower_h'] += y
                offset_dict['lower_right_z'] += z
                up = x + y + z + red(take(offset_dict, 'unlinked_index', ZU, t.m_lhs))
            if t.n > 0:
                x = magenta(take(offset_dict, 'summation_index', ZS, t.n_l))
                y = blue(take(offset_dict, 'summation_index', ZS, t.n_h))
                z = magenta(take(offset_dict, 'summation_index', ZS, t.n_r))
                offset_dict['upper_left_z'] += x
                offset_dict['upper_h'] += y
                offset_dict['upper_right_z'] += z
                down = x + y + z + red(take(offset_dict, 'unlinked_index', ZU, t.n_lhs))
        else:
            up, down = f'{t.m}', f'{t.n}'
        out += ('\\bt' if lhs_rhs == 'RHS' else '\\bs') + '^{' + up + '}_{' + down + '}'
    return out


def spec_eT_h_labels(h, offset_dict, lhs_rhs, color=True, letters=True):
    if h.rank == 0:
        return '\\bh_0' if lhs_rhs == 'RHS' else '\\mathds1'
    up, down = '', ''
    if letters:
        if h.n > 0:
            x = blue(take(offset_dict, 'summation_index', ZS, h.n_r))
            down = offset_dict['lower_h'] + x + red(take(offset_dict, 'unlinked_index', ZU, h.n_lhs))
            offset_dict['upper_right_z'] += x
        if h.m > 0:
            x = blue(take(offset_dict, 'summation_index', ZS, h.m_r))
            up = offset_dict['upper_h'] + x + red(take(offset_dict, 'unlinked_index', ZU, h.m_lhs))
            offset_dict['lower_right_z'] += x
    else:
        up, down = f'{h.m}', f'{h.n}'
    if lhs_rhs == 'RHS':
        return '\\bh^{' + up + '}_{' + down + '}'
    return '\\left(i\\dv{\\bt^{' + up + '}_{' + down + '}}{\\tau}\\right)'


def spec_eT_right_z(h, z_right, offset_dict, lhs_rhs, color=True, letters=True):
    if z_right.rank == 0:
        z = '\\bz_0'
    else:
        up, down = '', ''
        if letters:
            if z_right.n > 0:
                down = offset_dict['lower_right_z'] + red(take(offset_dict, 'unlinked_index', ZU, z_right.n_lhs))
            if z_right.m > 0:
                up = offset_dict['upper_right_z'] + red(take(offset_dict, 'unlinked_index', ZU, z_right.m_lhs))
        else:
            up, down = f'{z_right.m}', f'{z_right.n}'
        z = '\\bz^{' + up + '}_{' + down + '}'
    return '\\left(i\\dv{' + z + '}{\\tau}\\right)' if lhs_rhs == 'LHS' and h.rank == 0 else z


IKEYS, SKEYS = ('summation_index', 'unlinked_index'), ('lower_left_z', 'lower_h', 'lower_right_z', 'upper_left_z', 'upper_h', 'upper_right_z')
EOFF = TDict([(k, TInt()) for k in IKEYS] + [(k, TConst('')) for k in SKEYS])
EOFFS = TDict([(k, TInt()) for k in IKEYS] + [(k, TStr()) for k in SKEYS])


def rnd_off(rng):
    return {**{k: rng.randrange(3) for k in IKEYS}, **{k: rng.choice(('', 'i', '\\blue{jk}')) for k in SKEYS}}


def cases_eTl(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        ts = [EC.rnd_t(rng) for _ in range(rng.randrange(4))]
        yield ts, rnd_off(rng), rng.choice(('RHS', 'LHS')), True, rng.random() < .8


def rnd_cht(rng):
    f = {x: rng.choice((0, 0, 1, 2)) for x in ('m_lhs', 'n_lhs', 'm_r', 'n_r')}
    a, b = [rng.randrange(2) for _ in range(2)], [rng.randrange(2) for _ in range(2)]
    m, n = f['m_lhs'] + f['m_r'] + sum(a), f['n_lhs'] + f['n_r'] + sum(b)
    return connected_eT_h_z_operator_namedtuple(rank=m + n, m=m, n=n, m_t=a, n_t=b, m_l=0, n_l=0, **f)


def rnd_ezr(rng):
    u = (rng.randrange(3), (rng.randrange(2), rng.randrange(2)), rng.randrange(2), 0)
    l = (rng.randrange(3), (rng.randrange(2), rng.randrange(2)), rng.randrange(2), 0)
    return EC.mk_zr(op(u[0] + u[2] + sum(u[1]), l[0] + l[2] + sum(l[1])), u, l, 2)


def cases_eTh(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        yield rnd_cht(rng), rnd_off(rng), rng.choice(('RHS', 'LHS')), True, rng.random() < .8


def cases_eTz(tier, rng):
    for _ in range(sized(tier, 2000, 20000)):
        yield rnd_cht(rng), rnd_ezr(rng), rnd_off(rng), rng.choice(('RHS', 'LHS')), True, rng.random() < .8


SIDES = [(s, l) for s in ('RHS', 'LHS') for l in (True, False)]
POSR = lambda ts, *a: all(t.rank == t.m + t.n for t in ts)
add(ETZM, '_build_eT_term_latex_labels', spec_eT_labels, variants=[[EC.TS, EOFF, TConst(s), TConst(True), TConst(l)] for s, l in SIDES],
    requires=lambda ts, *a: all(t.rank > 0 for t in ts), props=['C09'], cases=cases_eTl, argnames=['t_list', 'offset_dict', 'lhs_rhs', 'color', 'letters'])
add(ETZM, '_build_eT_hz_term_latex_labels', spec_eT_h_labels, variants=[[EC.CHT, EOFFS, TConst(s), TConst(True), TConst(l)] for s, l in SIDES],
    props=['C09'], cases=cases_eTh, argnames=['h', 'offset_dict', 'lhs_rhs', 'color', 'letters'])
add(ETZM, '_build_eT_right_z_term', spec_eT_right_z, variants=[[EC.CHT, EC.ZRL, EOFFS, TConst(s), TConst(True), TConst(l)] for s, l in SIDES],
    props=['C09'], cases=cases_eTz, argnames=['h', 'z_right', 'offset_dict', 'lhs_rhs', 'color', 'letters'])


# ---------------------------------------------------------------- prefactors
FRAC = re.compile(r'\\frac\{(.*)\}\{(.*)\}$')


def factors(s):
    return Fraction(math.prod(math.factorial(int(a)) if b else int(a) for a, b in re.findall(r'(\d+)(!?)', s)))


def value(s):
    """the number a prefactor string stands for"""
    m = FRAC.match(s)
    return Fraction(1) if s == '' else factors(m.group(1)) / factors(m.group(2)) if m else s


def frac(num, den, sep=''):
    if num == [] and den == []:
        return ''
    return '\\frac{' + ('1' if num == [] else sep.join(num)) + '}{' + ('1' if den == [] else ''.join(den)) + '}'


def spec_simplify(numerator_list, denominator_list):
    """cancel the factors both lists share, as often as they share them"""
    num, den = [], list(denominator_list)
    for x in numerator_list:
        if x in den:
            den.remove(x)
        else:
            num.append(x)
    return num, den


def cases_simplify(tier, rng):
    # the function only compares its strings, so every pattern of equalities covers all strings
    for a in range(4):
        for b in range(5):
            for v in it_product('abcd', repeat=a + b):
                yield list(v[:a]), list(v[a:])


def both_sorted(r):
    return sorted(r[0]), sorted(r[1])


for mod in (FCCM, 'code_full_cc'):
    add(mod, '_simplify_full_cc_python_prefactor', spec_simplify, props=['C10'] if mod == FCCM else ['C17'], cases=cases_simplify,
        norm=both_sorted, argnames=['numerator_list', 'denominator_list'])


def spec_prefactor(h, t_list, simplify_flag=True):
    """(number of different amplitudes on h)! / (h.m! h.n! (number of amplitudes)!), 1 without amplitudes"""
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    x = len(set([t for t in t_list if t.m_h > 0 or t.n_h > 0]))
    num = [f'{x}!'] if x > 1 else []
    den = [f'{k}!' for k in (h.m, h.n, len(t_list)) if k > 1]
    if simplify_flag:
        num, den = spec_simplify(num, den)
    return frac(num, den)


def cases_prefactor(tier, rng):
    yield ch(2, 2, 2, 2, ()), [st(0, 0, 0, 0)], True
    for _ in range(sized(tier, 4000, 40000)):
        ts = [st(*(rng.choice((0, 0, 1)) for _ in range(4))) for _ in range(rng.randrange(1, 5))]
        yield ch(rng.randrange(5), rng.randrange(5), 0, 0, ()), ts, rng.random() < .7


add(FCCM, '_build_latex_prefactor', spec_prefactor, props=['C10'], cases=cases_prefactor, norm=value, argnames=['h', 't_list', 'simplify_flag'],
    variants=[[CH, TList(ST, 1), TConst(False)], [CH, TList(ST, 1), TConst(True)]])


def spec_hz_prefactor(h, z_left, z_right, simplify_flag=False):
    """1/(m! n!) for h and z each; the choices of which labels are internal; the pairings of z with h"""
    num, den = [], []
    for k, a, lhs, own in ((h.m, h.m_r, 0, 0), (h.n, h.n_r, 0, 0), (z_right.m, z_right.m_lhs, 0, z_right.m_h), (z_right.n, z_right.n_lhs, 0, z_right.n_h)):
        if k > 1:
            den.append(f'{k}!')
            if math.comb(k, a) > 1:
                num.append(f'{math.comb(k, a)}')
            if own > 1:
                num.append(f'{own}!')
    return frac(num, den, '*')


def cases_hzp(tier, rng):
    for _ in range(sized(tier, 4000, 40000)):
        z = ZC.rnd_zr(rng)
        h = rnd_chz(rng)
        yield h, None, z, False


add(ZHZM, '_build_hz_latex_prefactor', spec_hz_prefactor, [ZC.CHZ, TConst(None), ZC.ZR, TConst(False)], props=['C10'], cases=cases_hzp,
    norm=value, argnames=['h', 'z_left', 'z_right', 'simplify_flag'], budget=120)


def spec_eThz_prefactor(t_list, h, z_left, z_right, overcounting_prefactor, simplify_flag=True):
    """1/(m! n!) for h, z and each t and 1/k! for k t's; the choices of free and z labels, the pairings with h, z and the t's"""
    num, den = [], []
    for k, free, r, t in ((h.m, h.m_lhs, h.m_r, sum(h.m_t)), (h.n, h.n_lhs, h.n_r, sum(h.n_t))):
        if k > 1:
            den.append(f'{k}!')
            num += [f'({c})' for c in (math.comb(k, free), math.comb(k - free, r)) if c > 1]
            if t > 1:
                num.append(f'{t}!')
    if z_right.m > 1:
        den.append(f'{z_right.m}!')
        num += [f'({c})' for c in (math.comb(z_right.m, z_right.m_lhs), math.comb(z_right.m - z_right.m_lhs, z_right.m_h)) if c > 1]
        if z_right.m_h > 1:
            num.append(f'{z_right.m_h}!')
        if sum(z_right.m_t) > 1:
            num.append(f'{sum(z_right.m_t)}!')
    if len(t_list) > 1:
        den.append(f'{len(t_list)}!')
    for t in t_list:
        if t.m > 1:
            den.append(f'{t.m}!')
        if t.n > 1:
            den.append(f'{t.n}!')
    return frac(num, den)


def balanced(t_list, h, z_left, z_right, *a):
    return (z_right.n == 0 and z_right.m == z_right.m_lhs + z_right.m_h + sum(z_right.m_t)
            and h.m_lhs <= h.m and h.n_lhs <= h.n)


def cases_eThzp(tier, rng):
    for _ in range(sized(tier, 4000, 40000)):
        k = rng.randrange(1, 4)
        u = (rng.randrange(3), tuple(rng.randrange(3) for _ in range(k)), rng.randrange(3), 0)
        z = EC.mk_zr(op(u[0] + u[2] + sum(u[1]), 0), u, (0, (0,) * k, 0, 0), k)
        ts = [EC.rnd_t(rng) for _ in range(k)]
        f = {x: rng.choice((0, 0, 1, 2)) for x in ('m_lhs', 'n_lhs', 'm_r', 'n_r')}
        a, b = [rng.randrange(3) for _ in range(k)], [rng.randrange(3) for _ in range(k)]
        m, n = f['m_lhs'] + f['m_r'] + sum(a), f['n_lhs'] + f['n_r'] + sum(b)
        h = connected_eT_h_z_operator_namedtuple(rank=m + n, m=m, n=n, m_t=a, n_t=b, m_l=0, n_l=0, **f)
        yield ts, h, None, z, 1, True


def ranged(rec, **f):
    return TRec(rec.cls, **{**rec.fields, **f}) if isinstance(rec, TRec) else TAlt(rec.ct, rec.cf, rec.cond, **{**rec.fields, **f})


SMALL, BIG = TInt(0, 1), TInt(2)
add(ETZM, '_build_eThz_latex_prefactor', spec_eThz_prefactor, props=['C10'], cases=cases_eThzp, requires=balanced, norm=value, budget=400,
    argnames=['t_list', 'h', 'z_left', 'z_right', 'overcounting_prefactor', 'simplify_flag'],
    variants=[[EC.TS, ranged(EC.CHT, m=a, n=b), TConst(None), ranged(EC.ZRL, m=c, n=TConst(0), m_h=d), TConst(1), TConst(True)]
              for a, b in ((SMALL, SMALL), (SMALL, BIG), (TConst(2), TConst(0))) for c, d in ((SMALL, TInt()), (BIG, SMALL), (BIG, BIG))])
