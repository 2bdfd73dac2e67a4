"""W operator, dt amplitude and residual code generators, their partitions helpers, W latex."""
import itertools
import math
import os
import re
from fractions import Fraction

from contracts.common import *
from pyvc import tensors as X
from pyvc.tensors import Ten, Flags, A, N
import helper_funcs
import code_w_equations as W
import code_dt_equations as D
import code_residual_equations as R
import latex_w_equations as LW

CONTRACTS, LEMMAS, BOUNDED = [], [], []
TAGS = ['', 'singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
IDX = 'ijklmnop'


# ---------------------------------------------------------------- partitions (independent definitions)
def ref_partitions(n, cap=None):
    """partitions of n, lexicographically decreasing"""
    if n == 0:
        return [()]
    cap = n if cap is None else min(cap, n)
    return [(k,) + p for k in range(cap, 0, -1) for p in ref_partitions(n - k, k)]


def big(p):
    return sum(1 for x in p if x > 1)


def is_linked(p):
    """at most one operator above singles, and not the lone operator"""
    return len(p) > 1 and big(p) <= 1


def is_unlinked(p):
    return big(p) > 1


def compositions(p):
    return sorted(set(itertools.permutations(p)))


def coef(p):
    c = Fraction(1, math.factorial(len(p)))
    for x in p:
        c /= math.factorial(x)
    return c


def shp(k):
    return (A, A) + (N,) * k


# ---------------------------------------------------------------- tensors
def t_atoms(prefix, K):
    return [Ten.atom(f'{prefix}{k}', shp(k)) for k in range(1, K + 1)]


def product_term(names, sizes):
    """surface-matrix product of operators with consecutive mode labels"""
    surf = 'acdefgh'
    n = sum(sizes)
    modes = [chr(ord('q') + i) for i in range(n)]
    ins, pos = [], 0
    for i, s in enumerate(sizes):
        last = 'b' if i == len(sizes) - 1 else surf[i + 1]
        ins.append(surf[i] + last + ''.join(modes[pos:pos + s]))
        pos += s
    ops = [Ten.atom(f'{a}{s}', shp(s)) for a, s in zip(names, sizes)]
    return X.einsum(','.join(ins) + '->ab' + ''.join(modes), *ops)


def ref_w(order, ansatz, trunc):
    """symmetrized at order >= 2"""
    r = Ten(shp(order))
    for p in ref_partitions(order):
        if len(p) == 1:
            if order > 1 and not getattr(trunc, TAGS[order]):
                continue
        else:
            if ansatz == 'VECI' or (ansatz == 'VE_MIXED' and not is_linked(p)):
                continue
            if max(p) > 1 and not getattr(trunc, TAGS[max(p)]):
                continue
        for c in compositions(p):
            r += coef(p) * product_term('t' * len(c), c)
    if order > 1:
        r.sym = order
    return r


def ref_disconnected(order, linked):
    r = Ten(shp(order))
    for p in ref_partitions(order):
        if len(p) > 1 and (is_linked(p) if linked else is_unlinked(p)):
            for c in compositions(p):
                for d in range(len(c)):
                    r += coef(p) * product_term(['d' if i == d else 't' for i in range(len(c))], c)
    return r


def ref_dt(order, ansatz):
    w = Ten.atom(f'w{order}', shp(order))
    ms = IDX[:order]
    r = Ten.atom(f'R{order}', shp(order)).copy()
    r -= Fraction(1, math.factorial(order)) * X.einsum(f'xy{ms},yz->xz{ms}', w, Ten.atom('eps', (A, A)))
    if ansatz != 'VECI' and order >= 2:
        r -= ref_disconnected(order, True)
    if ansatz == 'VECC' and order >= 4:
        r -= ref_disconnected(order, False)
    r.sym = order
    return r


def ref_r(p, max_h, quadratic, ws, skip=()):
    """sum of h^m_n W^(p-m+n) / (m! n! (p-m)!)"""
    r = Ten(shp(p))
    for m in range(max_h + 1):
        for n in range(max_h + 1 - m):
            if m > p or (m, n) in skip:
                continue
            k = p - m + n
            c = Fraction(1, math.factorial(m) * math.factorial(n) * math.factorial(p - m))
            h = Ten.atom(f'h{m}{n}', shp(m + n))
            if max(m, n) >= 2 and not quadratic:
                continue
            if k == 0:
                r += c * h
                continue
            if k > len(ws) or ws[k - 1] is None:
                continue
            con, free = 'uv'[:n], IDX[:p]
            r += c * X.einsum(f'ac{con}{free[:m]},cb{con}{free[m:]}->ab{free}', h, ws[k - 1])
    return r


ANSATZE = ('VECI', 'VE_MIXED', 'VECC')


def truncs():
    """singles .. up to each level, as the callers set them"""
    for top in range(1, 7):
        for q in (True, False):
            yield top, Flags(quadratic=q, cc_truncation_order=top, **{TAGS[k]: k <= top for k in range(1, 7)})


def ansatz_flags(a):
    return Flags(**{x: x == a for x in ANSATZE})


def file_text(gen, *args):
    """run a file generator in the scratch directory and read back what it wrote"""
    p = os.path.join(os.getcwd(), f'gen_{os.getpid()}.txt')
    try:
        gen(*args, path=p)
        with open(p) as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.remove(p)


def guarded(f):
    try:
        return f()
    except X.Bad as e:
        return f'generated code: {e}'
    except Exception as e:
        return f'generated code raises {type(e).__name__}: {e}'


# ---------------------------------------------------------------- C11 W operators
def run_w(optimized):
    def run(tier, rng, deadline):
        for mx in range(1, 7):
            src = file_text(W.generate_w_operator_equations_file, mx)
            state = {}

            def load():
                state['env'] = X.load(src, f'w_operator_equations (max order {mx})')
            bad = guarded(load)
            yield f'W code of maximum order {mx} loads', bad
            env = state['env']
            for top, tr in truncs():
                if tr.quadratic:
                    continue
                ts = t_atoms('t', max(top, mx))
                for an in ANSATZE:
                    for k in range(1, mx + 1):
                        def one():
                            if optimized:
                                ve = env['compute_optimized_vemx_paths'](A, N, tr)
                                vc = env['compute_optimized_vecc_paths'](A, N, tr)
                                got = env[f'_calculate_order_{k}_w_operator_optimized'](A, N, tuple(ts), ansatz_flags(an), tr, ve[k - 1], vc[k - 1])
                            else:
                                got = env[f'_calculate_order_{k}_w_operator'](A, N, tuple(ts), ansatz_flags(an), tr)
                            return X.diff(got, ref_w(k, an, tr))
                        yield f'W^{k} of {an}, truncated at {TAGS[top]}, generated up to order {mx}', guarded(one)
                    if mx == 6 and top < 5:
                        def master():
                            if optimized:
                                got = env['compute_w_operators_optimized'](A, N, tuple(ts), ansatz_flags(an), tr, env['compute_optimized_vemx_paths'](A, N, tr), env['compute_optimized_vecc_paths'](A, N, tr))
                            else:
                                got = env['compute_w_operators'](A, N, tuple(ts), ansatz_flags(an), tr)
                            if len(got) != 6:
                                return f'{len(got)} W operators returned'
                            for k in range(1, 7):
                                if k <= top + 2:
                                    d = X.diff(got[k - 1], ref_w(k, an, tr))
                                    if d:
                                        return f'W^{k}: {d}'
                                elif got[k - 1] is not None:
                                    return f'W^{k} returned beyond the truncation'
                        yield f'compute_w_operators of {an}, truncated at {TAGS[top]}', guarded(master)
            if mx == 6:
                for f in ('compute_w_operators', 'compute_w_operators_optimized'):
                    none = Flags(**{t: False for t in TAGS[1:]})
                    try:
                        args = (A, N, tuple(t_atoms('t', 6)), ansatz_flags('VECC'), none)
                        env[f](*(args if f == 'compute_w_operators' else args + ([[]] * 6, [[]] * 6)))
                        yield f'{f} without singles', 'no exception'
                    except X.Bad as e:
                        yield f, str(e)
                    except Exception:
                        yield f'{f} without singles raises', None
    return run


FW = ['generate_w_operator_equations_file', 'generate_w_operators_string', '_generate_vemx_contributions', '_generate_vecc_contributions',
      '_write_w_function_strings', '_write_master_w_compute_function', '_w_einsum_list', '_generate_surface_index', '_generate_mode_index']
WB = ('complete for the generator: every order 1..6 it accepts, every nested truncation level, the three ansaetze; '
      'each generated function is evaluated symbolically, so for all tensor sizes and contents')
BOUNDED.append(('C11', Bounded('generated W operators equal the exponential expansion', run_w(False), WB, FW)))
BOUNDED.append(('C13', Bounded('generated optimized W operators equal the exponential expansion', run_w(True), WB,
                               FW + ['_optimized_w_einsum_list', '_contracted_expressions', '_write_optimized_vemx_paths_function', '_write_optimized_vecc_paths_function'])))


def run_limits(tier, rng, deadline):
    """orders outside the generators' range raise and write nothing"""
    for name, gen, args in (('W', W.generate_w_operator_equations_file, (7,)), ('dt', D.generate_dt_amplitude_equations_file, (7,))):
        p = os.path.join(os.getcwd(), f'lim_{os.getpid()}.py')
        try:
            gen(*args, path=p)
            bad = 'accepted an order it cannot label'
        except NotImplementedError:
            bad = 'wrote a file before raising' if os.path.exists(p) else None
        except Exception as e:
            bad = None if not os.path.exists(p) else f'wrote a file before raising {e!r}'
        finally:
            if os.path.exists(p):
                os.remove(p)
        yield f'{name} order 7', bad


def run_symmetrize(tier, rng, deadline):
    """the text of the symmetrizing function: the sum over every order of the mode axes"""
    f = getattr(helper_funcs, 'build_symmetrizing_function', None)
    if f is None:
        return
    for mx in (5, 6, 3):
        try:
            env = X.load(f(max_order=mx), skip_imports=False, extra={})
        except X.Bad as e:
            yield f'symmetrizing function up to order {mx}', str(e)
            continue
        for k in range(mx + 1):
            t = Ten.atom('T', (A, A) + (N,) * k)
            want = Ten(t.shape)
            for p in itertools.permutations(range(2, k + 2)):
                want += X.NP.transpose(t, (0, 1) + p)
            try:
                bad = X.diff(env['symmetrize_tensor'](t, k), want)
            except Exception as e:
                bad = f'{type(e).__name__}: {e}'
            yield f'symmetrizing function up to order {mx}, order {k}', bad


BOUNDED.append(('C11', Bounded('symmetrizing function', run_symmetrize, 'orders 0..6; each evaluated symbolically, for all tensor sizes and contents', ['build_symmetrizing_function'])))
BOUNDED.append(('C11', Bounded('orders beyond six are refused', run_limits, 'order 7', ['generate_w_operator_equations_file'])))


# ---------------------------------------------------------------- C18 dt amplitudes
class Residuals:
    """stand-in for the generated residual module: records that the right arguments arrive"""

    def __getattr__(self, n):
        m = re.fullmatch(r'calculate_order_(\d+)_residual', n)
        if not m:
            raise X.Bad(f'generated dt code uses residual_equations.{n}')

        def f(a, n_, trunc, h_args, w_args):
            if (a, n_, h_args) != (A, N, 'h_args') or not isinstance(w_args, tuple) or not isinstance(trunc, Flags):
                raise X.Bad('residual called with the wrong arguments')
            return Ten.atom(f'R{m.group(1)}', shp(int(m.group(1)))).copy()
        return f


def run_dt(optimized):
    def run(tier, rng, deadline):
        for mx in range(1, 7):
            src = file_text(D.generate_dt_amplitude_equations_file, mx)
            state = {}

            def load():
                state['env'] = X.load(src, f'dt_amplitude_equations (max order {mx})', extra={'residual_equations': Residuals()})
            yield f'dt code of maximum order {mx} loads', guarded(load)
            env = state['env']
            for top, tr in truncs():
                if tr.quadratic:
                    continue
                ts, ds, ws = (tuple(t_atoms(x, max(6, mx))) for x in 'tdw')
                for an in ANSATZE:
                    for k in range(1, mx + 1):
                        name = TAGS[k]
                        f = f'solve_{name}_equations' + ('_optimized' if optimized else '')

                        def one():
                            args = [A, N, ansatz_flags(an), tr, Ten.atom('eps', (A, A)), 'h_args', ts, ds, ws]
                            if optimized and top <= mx:
                                args.append(env['compute_optimized_paths'](A, N, tr))
                            elif optimized:
                                args.append(([None] * 6, [[]] * 6, [[]] * 6))
                            if k > top:
                                try:
                                    env[f](*args)
                                except X.Bad:
                                    raise
                                except Exception:
                                    return None
                                return 'no exception although the truncation excludes this amplitude'
                            if optimized and top > mx:
                                return None
                            return X.diff(env[f](*args), ref_dt(k, an))
                        yield f'{f}: {an}, truncated at {TAGS[top]}, generated up to order {mx}', guarded(one)
    return run


FD = ['generate_dt_amplitude_equations_file', 'generate_dt_amplitude_string', '_write_linked_disconnected_strings',
      '_write_un_linked_disconnected_strings', '_write_dt_amplitude_strings', '_write_master_dt_amplitude_function']
BOUNDED.append(('C18', Bounded('generated dt amplitudes', run_dt(False), WB, FD)))
BOUNDED.append(('C13', Bounded('generated optimized dt amplitudes', run_dt(True), WB,
                               FD + ['_write_optimized_epsilon_paths_function', '_write_optimized_linked_paths_function', '_write_optimized_unlinked_paths_function'])))


# ---------------------------------------------------------------- C15 residuals
H_ARGS = ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0))


def run_res(tier, rng, deadline):
    for mx in range(7):
        for hr in (1, 2):
            src = file_text(R.generate_residual_equations_file, mx, hr)
            state = {}

            def load():
                state['env'] = X.load(src, f'residual_equations (max order {mx}, h rank {hr})')
            yield f'residual code of maximum order {mx}, h rank {hr} loads', guarded(load)
            env = state['env']
            hs = tuple(Ten.atom(f'h{m}{n}', shp(m + n)) for m, n in H_ARGS)
            for top, tr in truncs():
                # as compute_w_operators returns them, with room for the padding the functions unpack
                for avail in sorted({top + 2, top, 8}):
                    ws = tuple(x if j < avail else None for j, x in enumerate(t_atoms('w', 8)))
                    for p in range(mx + 1):
                        what = f'R_{p}, h rank {hr}, truncated at {TAGS[top]}, quadratic={tr.quadratic}, W up to {avail}, generated up to order {mx}'

                        def one():
                            try:
                                got = env[f'calculate_order_{p}_residual'](A, N, tr, hs, ws)
                            except AssertionError:
                                return None if max(p, 1) > top else 'assertion although the truncation admits this order'
                            if max(p, 1) > top:
                                return 'no assertion although the truncation excludes this order'
                            d = X.diff(got, ref_r(p, hr, tr.quadratic, ws))
                            if d and hr == 2 and tr.quadratic and p in (2, 3) and avail >= p + 2 and not X.diff(got, ref_r(p, hr, tr.quadratic, ws, skip=((2, 0),))):
                                return f'calculate_order_{p}_residual leaves out the h_abij term whenever {R.w_dict[p + 2]} is given'
                            return d
                        yield what, guarded(one)


BOUNDED.append(('C15', Bounded('generated residuals', run_res,
                               'complete for the generator: orders 0..6, Hamiltonian rank 1 and 2, every nested truncation level, W operators given or None; '
                               'evaluated symbolically, so for all tensor sizes and contents',
                               ['generate_residual_equations_file', 'write_residual_function_string', '_residual_terms_einsum', 'generate_residual_string_list'])))


# ---------------------------------------------------------------- contracts for all orders
MW, MR = 'code_w_equations', 'code_residual_equations'


def value_of(s):
    """the number a generated prefactor text denotes"""
    if not isinstance(s, str):
        return s
    if s == '':
        return Fraction(1)
    t = re.sub(r'(\d+)!', r'factorial(\1)', s)
    t = re.sub(r'\b(\d+)\b', r'Fraction(\1)', t)
    t = re.sub(r'factorial\(Fraction\((\d+)\)\)', r'Fraction(factorial(\1))', t)
    return eval(t, {'Fraction': Fraction, 'factorial': math.factorial})


def spec_w_prefactor(tupl):
    k = len(tupl)
    fs = ([f'factorial({k})'] if k > 1 else []) + [f'factorial({n})' for n in tupl if n > 1]
    if len(fs) == 0:
        return ''
    if len(fs) == 1:
        return '1/' + fs[0]
    return '1/(' + ' * '.join(fs) + ')'


def cases_tupl(tier, rng):
    for n in range(1, 13):
        for p in ref_partitions(n):
            yield (p,)
            yield (tuple(reversed(p)),)


CONTRACTS.append(C(MW, '_generate_w_operator_prefactor', spec_w_prefactor,
                   variants=[[TFixed([TInt(1)] * k, kind='tuple')] for k in range(1, 7)], norm=value_of,
                   props=['C11', 'C18'], cases=cases_tupl, argnames=['tupl']))


def spec_h_list(maximum_h_rank=2):
    return hamiltonian_namedtuple(maximum_h_rank, [
        general_operator_namedtuple(h_name(m, n), m + n, m, n)
        for m in range(maximum_h_rank + 1) for n in range(maximum_h_rank + 1 - m)])


def h_name(m, n):
    if m == 0:
        return f'h_{n}' if n > 0 else 'h_0'
    return f'h^{m}' + (f'_{n}' if n > 0 else '')


def cases_rank(tier, rng):
    for k in range(12):
        yield (k,)


CONTRACTS.append(C(MR, 'generate_hamiltonian_operator', spec_h_list, [TInt()], props=['C03', 'C15'], cases=cases_rank, argnames=['maximum_h_rank']))


# residual prefactors and labels, for every order
HRES = [TConst(general_operator_namedtuple(h_name(m, n), m + n, m, n)) for m in range(3) for n in range(3 - m)]


def spec_res_prefactor(h, p, simplify_flag=False):
    """1/(m! n! (p-m)!), as text"""
    if h.m > p:
        return ''
    i = p - h.m
    t = i + h.n
    if t == 0:
        return '(1/2)' if h.m == 2 else ''
    num = t if i == 1 or h.n == 1 else (sum(x for x in range(t)) if h.n > 1 and i > 1 else 1)
    if not simplify_flag:
        return f'({num}/{t}!)' + ('*(1/2)' if h.m == 2 else '')
    if num == t and t <= 2:
        return '(1/2)' if h.m == 2 else ''
    return f'(1/(2*{t}!))' if h.m == 2 else f'({num}/{t}!)'


def ref_value(h, p):
    return Fraction(1, math.factorial(h.m) * math.factorial(h.n) * math.factorial(p - h.m)) if h.m <= p else Fraction(1)


def cases_hp(tier, rng):
    for t in HRES:
        for p in range(15):
            for f in (True, False):
                yield t.v, p, f


CONTRACTS.append(C(MR, 'construct_prefactor', spec_res_prefactor, variants=[[t, TInt(), TConst(f)] for t in HRES for f in (True, False)],
                   norm=value_of, props=['C15'], cases=cases_hp, argnames=['h', 'p', 'simplify_flag']))


def labels(h, p):
    """(upper h, lower h, upper w) label texts"""
    up = '^{' + ','.join([f'i_{c}' for c in range(1, h.m + 1)]) + '}' if 0 < h.m <= p else ''
    if h.m == 0 and h.n == 0:
        low = '_0'
    elif h.n == 0 or h.m > p:
        low = ''
    else:
        low = '_{' + ','.join([f'k_{c}' for c in range(1, h.n + 1)]) + '}'
    ws = [f'i_{c}' for c in range(h.m + 1, p + 1)] + [f'k_{c}' for c in range(1, h.n + 1)]
    w = '' if h.m > p or (h.m == p and h.n == 0) else '^{' + ','.join(ws) + '}'
    return up, low, w


def cases_hp2(tier, rng):
    for t in HRES:
        for p in range(15):
            yield t.v, p


for j, f in enumerate(('construct_upper_h_label', 'construct_lower_h_label', 'construct_upper_w_label')):
    CONTRACTS.append(C(MR, f, (lambda h, p: labels(h, p)[0], lambda h, p: labels(h, p)[1], lambda h, p: labels(h, p)[2])[j],
                       variants=[[t, TInt()] for t in HRES], props=['C15'], cases=cases_hp2, argnames=['h', 'p']))


def run_res_values(tier, rng, deadline):
    """the text of each coefficient denotes 1/(m! n! (p-m)!)"""
    for t in HRES:
        for p in range(t.v.m, 30):
            for flag in (True, False):
                s = R.construct_prefactor(t.v, p, flag)
                yield f'{t.v}, order {p}, simplified {flag}', None if value_of(s) == ref_value(t.v, p) else f'coefficient text {s!r}, expected {ref_value(t.v, p)}'
            s = R.generate_p_term(R.construct_prefactor(t.v, p, True))
            v = eval(re.sub(r'([\d.]+)', r'Fraction("\1")', s), {'Fraction': Fraction})
            yield f'{t.v}, order {p}, numeric', None if v == ref_value(t.v, p) else f'coefficient text {s!r}, expected {ref_value(t.v, p)}'


BOUNDED.append(('C15', Bounded('residual coefficients', run_res_values, 'every Hamiltonian term of rank <= 2, orders below 30', ['construct_prefactor', 'generate_p_term'])))


def res_p_term(h, p):
    s = spec_res_prefactor(h, p, True)
    i = p - h.m
    t = i + h.n
    if s == '':
        return '1.0'
    if t == 0 or (t <= 2 and (i == 1 or h.n == 1)):
        return '(1/2)'
    num = t if i == 1 or h.n == 1 else (sum(x for x in range(t)) if h.n > 1 and i > 1 else 1)
    return f'(1/(2*{math.factorial(t)}))' if h.m == 2 else f'({num}/{math.factorial(t)})'


def spec_residual_list(hamiltonian, order):
    """one term per Hamiltonian operator whose creation indices fit the projection"""
    hs = [h for h in hamiltonian if h.m <= order]
    return (
        [(spec_res_prefactor(h, order, True) + ' * ' if spec_res_prefactor(h, order, True) != '' else '')
         + 'h' + labels(h, order)[0] + labels(h, order)[1] + (' * w' + labels(h, order)[2] if labels(h, order)[2] != '' else '') for h in hs],
        [R.residual_term(res_p_term(h, order), h_namedtuple(h.m, h.n), w_namedtuple(order - h.m, h.n, order - h.m + h.n)) for h in hs])


def norm_residual_list(v):
    strings, terms = v
    return ([(value_of(s.split(' * ')[0]) if s[0] == '(' else Fraction(1), s.split(' * ')[1:] if s[0] == '(' else s.split(' * ')) for s in strings],
            [(value_of(t.prefactor) if t.prefactor != '1.0' else Fraction(1), t.h, t.w) for t in terms])


def cases_hlist(tier, rng):
    for r in (0, 1, 2):
        for p in range(10):
            yield list(spec_h_list(r).operator_list), p


CONTRACTS.append(C(MR, 'generate_residual_string_list', spec_residual_list,
                   variants=[[TFixed([TConst(h) for h in spec_h_list(r).operator_list]), TInt()] for r in (0, 1, 2)],
                   norm=norm_residual_list, props=['C15'], cases=cases_hlist, argnames=['hamiltonian', 'order'], budget=90))


def res_num(h, p):
    i = p - h.m
    t = i + h.n
    return t if i == 1 or h.n == 1 else (sum(x for x in range(t)) if h.n > 1 and i > 1 else 1)


def claim_coefficients(p):
    """num/t! is 1/(n! (p-m)!) for every term"""
    return [res_num(h, p) * math.factorial(h.n) * math.factorial(p - h.m) == math.factorial(p - h.m + h.n)
            for h in spec_h_list(2).operator_list if h.m <= p]


LEMMAS.append(('C15', Lemma('the residual coefficients are 1/(m! n! (p-m)!) at every order', [TInt()], claim_coefficients)))


# ---------------------------------------------------------------- C16 partitions and the W latex
def run_partitions(tier, rng, deadline):
    for n in range(1, sized(tier, 13, 16)):
        ps = ref_partitions(n)
        yield f'partitions of {n}', None if list(map(tuple, helper_funcs.generate_partitions_of_n(n))) == ps else 'not every partition once, largest first'
        yield f'linked partitions of {n}', None if list(helper_funcs.generate_linked_disconnected_partitions_of_n(n)) == [p for p in ps if is_linked(p)] else 'wrong partitions'
        yield f'unlinked partitions of {n}', None if list(helper_funcs.generate_un_linked_disconnected_partitions_of_n(n)) == [p for p in ps if is_unlinked(p)] else 'wrong partitions'
        yield f'mixed partitions of {n}', None if list(helper_funcs.generate_mixed_partitions_of_n(n)) == [p for p in ps if big(p) <= 1] else 'wrong partitions'
        yield f'connected partition of {n}', None if tuple(helper_funcs.genereate_connected_partitions_of_n(n)) == (1,) * n else 'not all ones'
    for k in range(6):
        for it in itertools.product('abc', repeat=k):
            if helper_funcs.unique_permutations(it) != compositions(it):
                yield f'unique permutations of {it}', 'not every distinct permutation once, in order'
                return
    yield 'unique permutations of up to five items', None


def parse_w_rhs(text):
    """[(coefficient, {operator: power})] of a sum of products of t operators"""
    out = []
    for term in text.split(' + '):
        m = re.match(r'\\frac\{1\}\{([^}]*)\}', term)
        c = Fraction(1)
        if m:
            for f in m.group(1).split('*'):
                assert f.endswith('!'), term
                c /= math.factorial(int(f[:-1]))
            term = term[m.end():]
        ops = {}
        while term:
            m = re.match(r'\(\\bt(?:\^\{?(\d+)\}?)?(?:_\{?(\d+)\}?)?\)\^\{?(\d+)\}?', term) or re.match(r'\\bt(?:\^\{?(\d+)\}?)?(?:_\{?(\d+)\}?)?()', term)
            assert m, term
            key = (int(m.group(1) or 0), int(m.group(2) or 0))
            assert key not in ops, term
            ops[key] = int(m.group(3) or 1)
            term = term[m.end():]
        out.append((c, tuple(sorted(ops.items()))))
    return sorted(out)


def operator_multisets(m, n):
    """multisets of (a, b) != (0, 0) summing to (m, n)"""
    def go(m, n, cap):
        if (m, n) == (0, 0):
            return [()]
        return [((a, b),) + r for a in range(m + 1) for b in range(n + 1) if (a, b) != (0, 0) and (a, b) <= cap for r in go(m - a, n - b, (a, b))]
    return go(m, n, (m, n))


def expansion(sets):
    out = []
    for s in sets:
        d = {}
        for x in s:
            d[x] = d.get(x, 0) + 1
        c = Fraction(1)
        for k in d.values():
            c /= math.factorial(k)
        out.append((c, tuple(sorted(d.items()))))
    return sorted(out)


def run_w_latex(tier, rng, deadline):
    for mx in range(1, sized(tier, 15, 18)):
        text = file_text(LW.ground_state_w_equations_latex, mx)
        body = text[text.index(r'\begin{align}'):]
        found = {}
        bad = None
        for line in body.splitlines():
            m = re.fullmatch(r'\s*\\bW\^\{(\d+)\} &= (.*)', line)
            if not m:
                continue
            k = int(m.group(1))
            if k in found:
                bad = f'W^{k} written twice'
            rhs = m.group(2)
            if k == 0:
                found[k] = rhs
                continue
            if k > 1:
                if not (rhs.startswith(r'\hat{S}(') and rhs.endswith(')')):
                    bad = f'W^{k} is not symmetrized'
                    break
                rhs = rhs[len(r'\hat{S}('):-1]
            try:
                found[k] = parse_w_rhs(rhs)
            except AssertionError as e:
                bad = f'W^{k}: unreadable {e}'
        want = {k: expansion([tuple((x, 0) for x in p) for p in ref_partitions(k)]) for k in range(1, mx + 1)}
        want[0] = '1'
        if not bad and found != want:
            ks = [k for k in sorted(set(found) | set(want)) if found.get(k) != want.get(k)]
            bad = f'W^{ks[0]}: {found.get(ks[0])} instead of {want.get(ks[0])}'
        yield f'ground state W latex up to {mx}', bad
    for mx in range(1, sized(tier, 5, 6)):
        text = file_text(LW.excited_state_w_equations_latex, mx)
        found, bad = {}, None
        for line in text.splitlines():
            m = re.fullmatch(r'\s*\\textbf\{W\}\^\{?(\d+)\}?(?:_\{?(\d+)\}?)? = (.*?)\s*\\\\\s*', line)
            if not m:
                continue
            k = (int(m.group(1)), int(m.group(2) or 0))
            rhs = m.group(3)
            if k in found:
                bad = f'W {k} written twice'
            if k[0] + k[1] > 1:
                if not (rhs.startswith(r'\hat{S}(') and rhs.endswith(')')):
                    bad = f'W {k} is not symmetrized'
                    break
                rhs = rhs[len(r'\hat{S}('):-1]
            try:
                found[k] = rhs if k == (0, 0) else parse_w_rhs(rhs)
            except AssertionError as e:
                bad = f'W {k}: unreadable {e}'
        want = {(0, 0): '1'}
        for t in range(1, mx + 1):
            for n in range(t):
                m = t - n
                # the lone t^m_n with n > 0 is left out of the thermal equations
                want[m, n] = expansion([s for s in operator_multisets(m, n) if len(s) > 1 or n == 0])
        if not bad and found != want:
            ks = [k for k in sorted(set(found) | set(want)) if found.get(k) != want.get(k)]
            bad = f'W {ks[0]}: {found.get(ks[0])} instead of {want.get(ks[0])}'
        yield f'excited state W latex up to {mx}', bad
        yield f'excited state W latex up to {mx}, into the file of an earlier run', rewritten(mx)


HEADER = 'A header\nof two lines\n\\begin{document}\n'


def rewritten(mx):
    """an earlier file is replaced, its header kept"""
    p = os.path.join(os.getcwd(), 'thermal_again.tex')

    def run(before):
        with open(p, 'w') as f:
            f.write(before)
        LW.excited_state_w_equations_latex(mx, path=p)
        with open(p) as f:
            return f.read()
    try:
        fresh = file_text(LW.excited_state_w_equations_latex, mx)
        if run(fresh) != fresh:
            return 'the second run does not write the same file'
        headed = run(HEADER + 'old\\end{document}')
        if headed != HEADER + fresh + '\\end{document}':
            return 'the header of an existing file is not kept around the equations'
        if run(headed) != headed:
            return 'the second run does not write the same file below a header'
    except Exception as e:
        return f'{type(e).__name__}: {e}'


BOUNDED.append(('C16', Bounded('partition helpers', run_partitions, 'n <= 12 (15 thorough), unique permutations of up to five items',
                               ['_partitions', 'generate_linked_disconnected_partitions_of_n', 'generate_un_linked_disconnected_partitions_of_n', 'unique_permutations'])))
BOUNDED.append(('C16', Bounded('W latex read back', run_w_latex, 'ground state up to order 14 (17), excited state up to 4 (5)',
                               ['ground_state_w_equations_latex', 'excited_state_w_equations_latex', 'count_items', 'generate_t_terms_group'])))


def spec_latex_prefactor(w_dict):
    fs = [f'{v}!' for v in w_dict.values() if v != 1]
    return '\\frac{1}{' + '*'.join(fs) + '}' if len(fs) > 0 else ''


def cases_counts(tier, rng):
    for k in range(5):
        for v in itertools.product(range(1, 5), repeat=k):
            yield (dict(enumerate(v)),)


CONTRACTS.append(C('latex_w_equations', 'generate_w_prefactor', spec_latex_prefactor,
                   variants=[[TDict([(j, TInt(1)) for j in range(k)])] for k in range(1, 6)], props=['C16'], cases=cases_counts, argnames=['w_dict']))


def spec_count(lis):
    r = {}
    for x in lis:
        r[x] = sum([1 if y == x else 0 for y in lis])
    return r


def cases_lists(tier, rng):
    for n in range(1, 7):
        for p in ref_partitions(n):
            yield (list(p),)
            yield ([(x, n) for x in p],)


CONTRACTS.append(C('latex_w_equations', 'count_items', spec_count, variants=[[TFixed([TInt(1)] * k, kind='list')] for k in range(6)]
                   + [[TFixed([TFixed([TInt(0), TInt(0)], kind='tuple')] * k, kind='list')] for k in (1, 2, 3)],
                   props=['C16'], cases=cases_lists, argnames=['lis'], modular=False))
