"""The lists of contractions behind the generated W operator and amplitude derivative functions: plain calls, optimized calls and precomputed
paths all follow the same permutations in the same order, for every partition."""
from contracts.common import *
from pyvc.values import STup
import code_w_equations as CW
import code_dt_equations as CD
from helper_funcs import _partitions, unique_permutations

CONTRACTS, LEMMAS, BOUNDED = [], [], []

TAGS = 'ijklmnop'
T_NAME = [''] + ['t_' + TAGS[:n] for n in range(1, 9)]
DT_NAME = [''] + ['dt_' + TAGS[:n] for n in range(1, 9)]
PARTITION = TList(TInt(1, 8), 1, kind='tuple')


def size(I, seq):
    return I.seq_len(seq.seq if isinstance(seq, STup) else I.seq_of(seq))


def perms(I, args):
    """permutations of a partition: tuples as long as the partition, of its ranks"""
    return TList(TList(TInt(1, 8), length=size(I, args[0]), kind='tuple'), 1)


def surface(I, args):
    return TList(TStr(), length=size(I, args[0]))


def modes(I, args):
    p = [x for x in I.leaves(I.freeze(args[0]))]
    n = perms(I, args).build(I, f'unique_permutations/{len(p)}', p)
    return TList(TList(TStr(), length=size(I, args[0])), length=size(I, n))


def callees(m):
    return {(m, 'unique_permutations'): perms, ('helper_funcs', 'unique_permutations'): perms,
            ('code_w_equations', '_generate_surface_index'): surface, ('code_w_equations', '_generate_mode_index'): modes}


def indices(surf, mode):
    return ', '.join([surf[a] + mode[a] for a in range(len(surf))])


def shape(n):
    return '(' + ', '.join(['A', 'A'] + ['N'] * n) + ')'


def strip(x):
    """spacing inside a generated expression does not count"""
    if isinstance(x, str):
        return ''.join(x.split())
    if isinstance(x, (list, tuple)):
        return [strip(y) for y in x]
    return x


# ---------------------------------------------------------------- W operators
def spec_w_calls(partition, order):
    surf, mode = CW._generate_surface_index(partition), CW._generate_mode_index(partition, order)
    return [f"np.einsum('{indices(surf, mode[i])}->ab{TAGS[:order]}', {', '.join([T_NAME[n] for n in t])})"
            for i, t in enumerate(unique_permutations(partition))]


def spec_w_opt(partition, order, iterator_name='optimized_einsum'):
    return [f"next({iterator_name})({', '.join([T_NAME[n] for n in t])})" for t in unique_permutations(partition)]


def w_paths(partition, order):
    surf, mode = CW._generate_surface_index(partition), CW._generate_mode_index(partition, order)
    return [f"oe.contract_expression('{indices(surf, mode[i])}->ab{TAGS[:order]}', {', '.join([shape(n) for n in t])}),\n"
            for i, t in enumerate(unique_permutations(partition))]


def spec_w_paths(partition_list, order):
    return [[max(p)] + w_paths(p, order) for p in partition_list if len(p) != 1]


# ---------------------------------------------------------------- amplitude derivatives: each factor in turn is the derivative
def operands(dt_index, tupl):
    return ', '.join([DT_NAME[n] if i == dt_index else T_NAME[n] for i, n in enumerate(tupl)])


def spec_dt_operands(dt_index, tupl):
    return operands(dt_index, tupl)


def spec_dt_calls(partition, order):
    surf, mode = CW._generate_surface_index(partition), CW._generate_mode_index(partition, order)
    return [f"np.einsum('{indices(surf, mode[i])}->ab{TAGS[:order]}', {operands(d, t)})"
            for i, t in enumerate(unique_permutations(partition)) for d in range(len(partition))]


def spec_dt_opt(partition, order, iterator_name='optimized_einsum'):
    return [f"next({iterator_name})({operands(d, t)})" for t in unique_permutations(partition) for d in range(len(partition))]


def dt_paths(partition, order):
    surf, mode = CW._generate_surface_index(partition), CW._generate_mode_index(partition, order)
    return [f"oe.contract_expression('{indices(surf, mode[i])}->ab{TAGS[:order]}', {', '.join([shape(n) for n in t])}),\n"
            for i, t in enumerate(unique_permutations(partition)) for d in range(len(partition))]


def spec_dt_paths(partition_list, order):
    return [[max(p)] + dt_paths(p, order) for p in partition_list if len(p) != 1]


def cases_calls(tier, rng):
    for n in range(1, 7):
        for p in _partitions(n):
            yield p, n


def cases_paths(tier, rng):
    for n in range(1, 7):
        yield _partitions(n), n
        for _ in range(5):
            yield rng.sample(_partitions(n), rng.randrange(1, len(_partitions(n)) + 1)), n


def cases_operands(tier, rng):
    for n in range(1, 7):
        for p in _partitions(n):
            for t in unique_permutations(p):
                for d in range(len(t)):
                    yield d, t


def add(module, func, spec, props, names, cases, **k):
    CONTRACTS.append(C(module, func, spec, props=props, modular=False, abstract=callees(module), argnames=names, cases=cases, norm=strip, **k))


CALL = [PARTITION, TInt(1, 6)]
PATHS = [TList(PARTITION), TInt(1, 6)]
add('code_w_equations', '_w_einsum_list', spec_w_calls, ['C11', 'C13'], ['partition', 'order'], cases_calls, params=CALL)
add('code_w_equations', '_optimized_w_einsum_list', spec_w_opt, ['C13'], ['partition', 'order', 'iterator_name'],
    lambda tier, rng: ((p, n, 'optimized_einsum') for p, n in cases_calls(tier, rng)), params=CALL + [TConst('optimized_einsum')])
add('code_w_equations', '_contracted_expressions', spec_w_paths, ['C13'], ['partition_list', 'order'], cases_paths, params=PATHS)
add('code_dt_equations', '_generate_disconnected_einsum_operands_list', spec_dt_operands, ['C18', 'C13'], ['dt_index', 'tupl'], cases_operands,
    params=[TInt(0), PARTITION])
add('code_dt_equations', '_generate_disconnected_einsum_function_call_list', spec_dt_calls, ['C18', 'C13'], ['partition', 'order'], cases_calls, params=CALL)
add('code_dt_equations', '_generate_optimized_disconnected_einsum_function_call_list', spec_dt_opt, ['C13'], ['partition', 'order', 'iterator_name'],
    lambda tier, rng: ((p, n, 'optimized_einsum') for p, n in cases_calls(tier, rng)), params=CALL + [TConst('optimized_einsum')])
add('code_dt_equations', '_contracted_expressions', spec_dt_paths, ['C13'], ['partition_list', 'order'], cases_paths, params=PATHS)
