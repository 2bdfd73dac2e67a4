"""How the generators of full cc and e^T z code put whole files together: which term functions, wrappers and paths are written, for which projection,
from which lists. Callees are unknown functions of their arguments (as in asm)."""
import re
from contracts.common import *
from contracts.fcc import TERM
from contracts.asm import HAM, TERMS, SERIES, OPQ, trunc, tk
import code_full_cc as CF
import code_eT_zhz as CE
import helper_funcs as HF

CONTRACTS, LEMMAS, BOUNDED = [], [], []
T, E = 'code_full_cc', 'code_eT_zhz'
OM = TRec(general_operator_namedtuple, name=TConst('bd'), rank=rank_of, m=TInt(0), n=TInt(0))
MASTER = TRec(omega_namedtuple, maximum_rank=TInt(), operator_list=TList(OM, 1))
FTRUNC = trunc(tk.H, tk.CC, tk.S, tk.P)


def bare(s):
    """generated code without comments, docstrings and blank lines"""
    if not isinstance(s, str):
        return s
    s = re.sub(r'\"\"\".*?\"\"\"', '', s, flags=re.S)
    return [x.rstrip() for x in s.split('\n') if x.strip() and not x.strip().startswith('#')]


def add(module, func, spec, abstract, **k):
    k.setdefault('norm', bare)
    CONTRACTS.append(C(module, func, spec, modular=False, props=['C17'], abstract={(m, f): t for (m, f), t in abstract.items()}, **k))


def trunc_full(rng):
    return {tk.H: rng.randrange(1, 3), tk.CC: rng.randrange(1, 3), tk.S: rng.randrange(1, 3), tk.P: rng.randrange(1, 3)}


def master(tier, rng):
    return CF.generate_omega_operator(2, rng.randrange(1, 3))


# ---------------------------------------------------------------- full cc: one projection
def collect(omega, truncations, ground):
    H = CF.generate_full_cc_hamiltonian_operator(truncations[tk.H])
    total = []
    for s in CF.generate_s_taylor_expansion(truncations[tk.CC], truncations[tk.S], ground):
        CF._filter_out_valid_s_terms(omega, H, s, [], total, remove_f_terms=True)
    return CF._seperate_s_terms_by_connection(total)


def spec_einsums(omega_term, truncations, only_ground_state=False, opt_einsum=False):
    return [CF._write_cc_einsum_python_from_list(truncations, g, opt_einsum=opt_einsum) for g in collect(omega_term, truncations, only_ground_state)]


def spec_paths(omega_term, truncations, only_ground_state=False):
    a, b, c = collect(omega_term, truncations, only_ground_state)
    w = CF._write_cc_optimized_paths_from_list
    return [w(truncations, a, local_list_name='fully_connected_opt_path_list'), w(truncations, b, local_list_name='linked_disconnected_opt_path_list'),
            w(truncations, c, local_list_name='unlinked_disconnected_opt_path_list')]


SELECT = {('latex_full_cc', 'generate_full_cc_hamiltonian_operator'): HAM, ('latex_full_cc', 'generate_s_taylor_expansion'): SERIES,
          ('latex_full_cc', '_filter_out_valid_s_terms'): (4, TERMS), ('latex_full_cc', '_seperate_s_terms_by_connection'): TFixed([TERMS, TERMS, TERMS], kind='tuple')}
LINES = TList(TStr())


def cases_omega(tier, rng, n=2):
    for _ in range(sized(tier, 6, 30)):
        m, k = rng.choice([(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)])
        yield op(m, k, 'b' * m + 'd' * k), trunc_full(rng), *[rng.random() < .7 for _ in range(n)]


def cases_omega1(tier, rng):
    yield from cases_omega(tier, rng, 1)


add(T, '_generate_full_cc_einsums', spec_einsums, {**SELECT, (T, '_write_cc_einsum_python_from_list'): LINES}, params=[OM, FTRUNC, TBool(), TBool()],
    cases=cases_omega, argnames=['omega_term', 'truncations', 'only_ground_state', 'opt_einsum'])
add(T, '_generate_full_cc_optimized_paths', spec_paths, {**SELECT, (T, '_write_cc_optimized_paths_from_list'): LINES}, params=[OM, FTRUNC, TBool()],
    cases=cases_omega1, argnames=['omega_term', 'truncations', 'only_ground_state'])


def spec_master(omega_term, opt_einsum=False):
    m, n = omega_term.m, omega_term.n
    f, opt = f'm{m}_n{n}', '_optimized' if opt_einsum else ''
    lines = ['', f'def compute_{f}_amplitude{opt}(A, N, ansatz, truncation, h_args, t_args' + (', opt_path_lists' if opt_einsum else '') + '):',
             f'    """Compute the {omega_term} amplitude."""',
             '    truncation.confirm_at_least_singles()', '', '    # the residual tensor',
             "    R = np.zeros(shape=(" + ', '.join(['A', 'A'] + ['N'] * omega_term.rank) + "), dtype=complex)", '']
    if opt_einsum:
        lines += ['    # unpack the optimized paths',
                  f'    opt_connected_path_list, opt_linked_path_list, opt_unlinked_path_list = opt_path_lists[({m}, {n})]', '']
    lines += ['    # add each of the terms']
    lines += [f'    add_{f}_{g}_terms{opt}(R, ansatz, truncation, h_args, t_args' + (f', opt_{p}_path_list' if opt_einsum else '') + ')'
              for g, p in (('fully_connected', 'connected'), ('linked_disconnected', 'linked'), ('unlinked_disconnected', 'unlinked'))]
    return '\n'.join(lines + ['    return R', '', ''])


def cases_master(tier, rng):
    for m, n in pairs(4):
        for o in (False, True):
            yield op(m, n, 'b' * m + 'd' * n), o


add(T, '_write_master_full_cc_compute_function', spec_master, {}, variants=[[OM, TConst(o)] for o in (False, True)], cases=cases_master, argnames=['omega_term', 'opt_einsum'])


def spec_grouped(omega_term):
    m, n = omega_term.m, omega_term.n
    f = f'm{m}_n{n}'
    return '\n'.join(['', f'def compute_{f}_optimized_paths(A, N, ansatz, truncation):', f'    """Compute the optimized paths for this {omega_term}."""',
                      '    truncation.confirm_at_least_singles()', '']
                     + [f'    {v}_opt_path_list = compute_{f}_{g}_optimized_paths(A, N, ansatz, truncation)'
                        for v, g in (('connected', 'fully_connected'), ('linked', 'linked_disconnected'), ('unlinked', 'unlinked_disconnected'))]
                     + ['', '    return_dict = {', f'        ({m}, {n}): [connected_opt_path_list, linked_opt_path_list, unlinked_opt_path_list]', '    }', '',
                        '    return return_dict', '', ''])


def cases_one(tier, rng):
    for m, n in pairs(4):
        yield (op(m, n, 'b' * m + 'd' * n),)


add(T, '_write_grouped_optimized_paths_function', spec_grouped, {}, params=[OM], cases=cases_one, argnames=['omega_term'])


# ---------------------------------------------------------------- one block per projection
def rank_head(o, before, what, s2):
    return HF.spaced_named_line(f'RANK {o.rank:2d} {what}', s2) + '\n' if o.rank > before.rank else ''


def spec_wrap_fcc(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state=False, opt_einsum=False):
    ops = master_omega.operator_list
    out = ''
    for i, o in enumerate(ops):
        out += rank_head(o, ops[i - 1], 'FUNCTIONS', s2)
        out += '\n' + HF.named_line(f'{o} TERMS', s2 // 2) + CF._generate_full_cc_compute_functions(o, truncations, only_ground_state, opt_einsum=opt_einsum)
    return out


def spec_wrap_paths(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state=False):
    ops = master_omega.operator_list
    out = ''
    for i, o in enumerate(ops):
        out += rank_head(o, ops[i - 1], 'OPTIMIZED PATHS', s2)
        out += '\n' + HF.named_line(f'{o} OPTIMIZED PATHS', s2 // 2) + CF._generate_optimized_paths_functions(o, truncations, only_ground_state)
    return out


def cases_wrap(k):
    def g(tier, rng):
        for _ in range(sized(tier, 3, 12)):
            yield trunc_full(rng), master(tier, rng), 28, HF.named_line, HF.spaced_named_line, *[rng.random() < .7 for _ in range(k)]
    return g


NL, SNL = TConst(HF.named_line), TConst(HF.spaced_named_line)
add(T, '_wrap_full_cc_generation', spec_wrap_fcc, {(T, '_generate_full_cc_compute_functions'): 'str'}, params=[FTRUNC, MASTER, TConst(28), NL, SNL, TBool(), TBool()],
    cases=cases_wrap(2), argnames=['truncations', 'master_omega', 's2', 'named_line', 'spaced_named_line', 'only_ground_state', 'opt_einsum'])
add(T, '_wrap_optimized_paths_generation', spec_wrap_paths, {(T, '_generate_optimized_paths_functions'): 'str'}, params=[FTRUNC, MASTER, TConst(28), NL, SNL, TBool()],
    cases=cases_wrap(1), argnames=['truncations', 'master_omega', 's2', 'named_line', 'spaced_named_line', 'only_ground_state'])


def spec_wrap_etz(master_omega, operators, lhs_rhs, only_ground_state=False, opt_einsum=False):
    ops = master_omega.operator_list
    out = ''
    for i, o in enumerate(ops):
        out += rank_head(o, ops[i - 1], 'FUNCTIONS', CE.s2)
        out += '\n' + HF.named_line(f'{o} TERMS', CE.s2 // 2) + CE._construct_eT_zhz_compute_function(o, operators, lhs_rhs, only_ground_state, opt_einsum)
    return out


def etz_ops(rng):
    om = CE.generate_omega_operator(2, 2)
    om.operator_list[:] = [o for o in om.operator_list if o.m == 0]
    return om, CE.generate_pruned_H_operator(2), CE.generate_z_operator(2, True), CE.generate_eT_taylor_expansion(1, 1)


def cases_wrap_etz(tier, rng):
    for _ in range(sized(tier, 2, 6)):
        ops = etz_ops(rng)
        yield ops[0], ops, rng.choice(['LHS', 'RHS']), True, rng.random() < .5


add(E, '_wrap_eT_zhz_generation', spec_wrap_etz, {(E, '_construct_eT_zhz_compute_function'): 'str'}, variants=[[MASTER, TInt(), TConst(x), TBool(), TBool()] for x in ('LHS', 'RHS')],
    cases=cases_wrap_etz, argnames=['master_omega', 'operators', 'lhs_rhs', 'only_ground_state', 'opt_einsum'])


# ---------------------------------------------------------------- the e^T z wrapper of one projection
def spec_master_etz(Proj, lhs_rhs, opt_einsum=False):
    """checks exactly the truncation levels the projection needs, then adds both groups of terms"""
    f, opt = f'm{Proj.m}_n{Proj.n}', '_optimized' if opt_einsum else ''
    levels = ['doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
    rhs = lhs_rhs == 'RHS'
    args = 'ansatz, truncation, t_args, h_args, z_args' if rhs else 'ansatz, truncation, t_conj, dT, z_args, dz_args'
    R = 'R' if rhs else 'dz'
    head = '\n'.join(['', f'def compute_{f}_amplitude{opt}(A, N, {args}' + (', opt_paths' if opt_einsum else '') + '):', f'    """Compute the {Proj} amplitude."""',
                      '    truncation.confirm_at_least_singles()'])
    for k, x in enumerate(levels):
        if Proj.m >= k + 2 or Proj.n >= k + 2:
            head += f'\n    truncation.confirm_at_least_{x}()'
    step, kind = ('add', 'terms') if rhs else ('compute', 'LHS')
    lines = ['', '', '    # the residual tensor', f"    {R} = np.zeros(shape=(" + ', '.join(['A'] + ['N'] * Proj.rank) + "), dtype=complex)", '']
    if opt_einsum:
        lines += ['    # unpack the optimized paths', '    optimized_HZ_paths, optimized_eT_HZ_paths = opt_paths', '']
    lines += [f'    # {step} the terms']
    lines += [f'    {step}_{f}_{g}_{kind}{opt}({R}, {args}' + (f', optimized_{g}_paths' if opt_einsum else '') + ')' for g in ('HZ', 'eT_HZ')]
    return head + '\n'.join(lines + [f'    return {R}', '', ''])


def cases_master_etz(tier, rng):
    for m, n in pairs(7):
        for side in ('LHS', 'RHS'):
            for o in (False, True):
                yield op(m, n, 'b' * m + 'd' * n), side, o


add(E, '_write_master_eT_zhz_compute_function', spec_master_etz, {}, variants=[[OM, TConst(x), TConst(o)] for x in ('LHS', 'RHS') for o in (False, True)],
    cases=cases_master_etz, argnames=['Proj', 'lhs_rhs', 'opt_einsum'])


# ---------------------------------------------------------------- whole files
def spec_fcc_contents(truncations, only_ground_state=False):
    CF._verify_fcc_truncations(truncations)
    om = CF.generate_omega_operator(truncations[tk.CC], truncations[tk.P])
    ops, nl, sl = om.operator_list, CF.named_line, CF.spaced_named_line
    args = (truncations, om, CF.s2, nl, sl, only_ground_state)
    terms, wrap = '\n' + nl('INDIVIDUAL TERMS', CF.l2) + '\n\n', '\n' + nl('RESIDUAL FUNCTIONS', CF.l2)
    out = HF.long_spaced_named_line('DEFAULT FUNCTIONS', CF.l2) + terms + CF._wrap_full_cc_generation(*args)
    out += wrap + ''.join([CF._write_master_full_cc_compute_function(o) for o in ops])
    out += HF.long_spaced_named_line('OPTIMIZED FUNCTIONS', CF.l2 - 1) + terms + CF._wrap_full_cc_generation(*args, opt_einsum=True)
    out += wrap + ''.join([CF._write_master_full_cc_compute_function(o, opt_einsum=True) for o in ops])
    out += HF.long_spaced_named_line('OPTIMIZED PATHS FUNCTIONS', CF.l3) + '\n' + nl('INDIVIDUAL OPTIMIZED PATHS', CF.l3) + '\n\n'
    out += CF._wrap_optimized_paths_generation(truncations, om, CF.s3, nl, sl, only_ground_state)
    out += '\n' + nl('GROUPED BY PROJECTION OPERATOR', CF.l3) + ''.join([CF._write_grouped_optimized_paths_function(o) for o in ops])
    return out + '\n' + nl('MASTER OPTIMIZED PATH FUNCTION', CF.l3) + CF._write_optimized_master_paths_function(om) + '\n'


def cases_fcc_contents(tier, rng):
    for _ in range(sized(tier, 3, 10)):
        yield trunc_full(rng), rng.random() < .5


add(T, '_generate_full_cc_python_file_contents', spec_fcc_contents, {
    ('truncations', '_verify_fcc_truncations'): TConst(None), ('latex_full_cc', 'generate_omega_operator'): MASTER, (T, '_wrap_full_cc_generation'): 'str',
    (T, '_write_master_full_cc_compute_function'): 'str', (T, '_wrap_optimized_paths_generation'): 'str', (T, '_write_grouped_optimized_paths_function'): 'str',
    (T, '_write_optimized_master_paths_function'): 'str'}, params=[FTRUNC, TBool()], cases=cases_fcc_contents, argnames=['truncations', 'only_ground_state'])


def drive_etz_contents(truncations, ground, side):
    return CE._generate_eT_zhz_python_file_contents(truncations, only_ground_state=ground, lhs_rhs=side, path='unused')


def spec_etz_contents(truncations, ground, side):
    CE._verify_eT_z_t_truncations(truncations)
    raw = CE.generate_omega_operator(truncations[tk.CC], truncations[tk.P])
    H = CE.generate_pruned_H_operator(truncations[tk.H])
    Z = CE.generate_z_operator(truncations[tk.CC], ground)
    eT = CE.generate_eT_taylor_expansion(truncations[tk.T], truncations[tk.eT])
    om = omega_namedtuple(raw.maximum_rank, [o for o in raw.operator_list if o.m == 0])
    ops, nl = om.operator_list, HF.named_line
    terms, wrap = '\n' + nl('INDIVIDUAL TERMS', CE.l2) + '\n\n', '\n' + nl('RESIDUAL FUNCTIONS', CE.l2)
    out = HF.long_spaced_named_line('DEFAULT FUNCTIONS', CE.l2) + terms + CE._wrap_eT_zhz_generation(om, (om, H, Z, eT), side, ground)
    out += wrap + ''.join([CE._write_master_eT_zhz_compute_function(o, side) for o in ops])
    out += HF.long_spaced_named_line('OPTIMIZED FUNCTIONS', CE.l2 - 1) + terms + CE._wrap_eT_zhz_generation(om, (om, H, Z, eT), side, ground, opt_einsum=True)
    out += wrap + ''.join([CE._write_master_eT_zhz_compute_function(o, side, opt_einsum=True) for o in ops])
    return out + '\n' + nl('OPTIMIZED PATHS FUNCTION', CE.l2)


def cases_etz_contents(tier, rng):
    for _ in range(sized(tier, 2, 6)):
        yield {tk.H: rng.randrange(1, 3), tk.CC: rng.randrange(1, 3), tk.P: rng.randrange(1, 3), tk.T: 1, tk.eT: rng.randrange(1, 3)}, True, rng.choice(['LHS', 'RHS'])


add('contracts.files', 'drive_etz_contents', spec_etz_contents, {
    ('truncations', '_verify_eT_z_t_truncations'): TConst(None), ('latex_full_cc', 'generate_omega_operator'): MASTER, ('latex_eT_zhz', 'generate_pruned_H_operator'): HAM,
    ('latex_zhz', 'generate_z_operator'): TInt(), ('latex_eT_zhz', 'generate_eT_taylor_expansion'): TInt(), (E, '_wrap_eT_zhz_generation'): 'str',
    (E, '_write_master_eT_zhz_compute_function'): 'str'}, inline=[(E, '_generate_eT_zhz_python_file_contents')], name='code_eT_zhz._generate_eT_zhz_python_file_contents',
    variants=[[trunc(tk.H, tk.CC, tk.P, tk.T, tk.eT), TBool(), TConst(x)] for x in ('LHS', 'RHS')], cases=cases_etz_contents)


# ---------------------------------------------------------------- W operators, amplitude derivatives, residuals: every order, both versions
import code_w_equations as CW
import code_dt_equations as CD
import code_residual_equations as CR
LINE = '# ' + '-' * 75 + ' #\n'


def name_line(name, width=28):
    return '# ' + '-' * width + f' {name} ' + '-' * width + ' #\n'


def spec_w_file(max_order, s1=75, s2=28):
    r = LINE + name_line('DEFAULT FUNCTIONS') + LINE
    for opt in (False, True):
        if opt:
            r += LINE + name_line('OPTIMIZED FUNCTIONS', 27) + LINE
        r += '\n' + name_line('VECI/CC CONTRIBUTIONS') + ''.join([CW._generate_vemx_contributions(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += '\n' + name_line('VECC CONTRIBUTIONS') + ''.join([CW._generate_vecc_contributions(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += '\n' + name_line('W OPERATOR FUNCTIONS') + ''.join([CW._write_w_function_strings(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += CW._write_master_w_compute_function(max_order, opt_einsum=opt) + '\n'
    return (r + '\n' + name_line('OPTIMIZED PATHS FUNCTION') + CW._write_optimized_vemx_paths_function(max_order) + '\n'
            + CW._write_optimized_vecc_paths_function(max_order) + '\n')


def spec_dt_file(max_order, s1=75, s2=28):
    r = LINE + name_line('DEFAULT FUNCTIONS') + LINE
    for opt in (False, True):
        if opt:
            r += '\n' + LINE + name_line('OPTIMIZED FUNCTIONS', 27) + LINE
        r += '\n' + name_line('DISCONNECTED TERMS')
        r += ''.join([CD._write_linked_disconnected_strings(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += ''.join([CD._write_un_linked_disconnected_strings(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += '\n' + name_line('dt AMPLITUDES') + ''.join([CD._write_dt_amplitude_strings(order=n, opt_einsum=opt) for n in range(1, max_order + 1)])
        r += '\n' + name_line('WRAPPER FUNCTIONS') + ''.join([CD._write_master_dt_amplitude_function(n, opt_einsum=opt) for n in range(1, max_order + 1)])
    return (r + '\n' + name_line('OPTIMIZED PATHS FUNCTION') + CD._write_optimized_master_paths_function() + '\n'
            + CD._write_optimized_epsilon_paths_function(max_order) + '\n' + CD._write_optimized_linked_paths_function(max_order) + '\n'
            + CD._write_optimized_unlinked_paths_function(max_order) + '\n')


def cases_max(tier, rng):
    for n in range(1, 7):
        yield (n,)


def strs(module, *names):
    return {(module, n): 'str' for n in names}


for f, s, props, ab in (
        ('code_w_equations.generate_w_operators_string', spec_w_file, ['C11', 'C13'],
         strs('code_w_equations', '_generate_vemx_contributions', '_generate_vecc_contributions', '_write_w_function_strings', '_write_master_w_compute_function',
              '_write_optimized_vemx_paths_function', '_write_optimized_vecc_paths_function')),
        ('code_dt_equations.generate_dt_amplitude_string', spec_dt_file, ['C18', 'C13'],
         strs('code_dt_equations', '_write_linked_disconnected_strings', '_write_un_linked_disconnected_strings', '_write_dt_amplitude_strings',
              '_write_master_dt_amplitude_function', '_write_optimized_master_paths_function', '_write_optimized_epsilon_paths_function',
              '_write_optimized_linked_paths_function', '_write_optimized_unlinked_paths_function'))):
    CONTRACTS.append(C(*f.split('.'), s, modular=False, props=props, abstract=ab, norm=bare, params=[TInt(1)], cases=cases_max, argnames=['max_order']))


def spec_residual_code(term_lists, max_order):
    return '\n\n'.join([CR.write_residual_function_string(term_lists[n], order=n) for n in range(max_order + 1)])


RTERM = TRec(CR.residual_term, prefactor=TStr(), h=TRec(h_namedtuple, max_i=TInt(0), max_k=TInt(0)), w=TRec(w_namedtuple, max_i=TInt(0), max_k=TInt(0), order=TInt(0)))


def cases_residual_code(tier, rng):
    for r in (0, 1, 2):
        for n in range(7):
            H = CR.generate_hamiltonian_operator(r).operator_list
            yield [CR.generate_residual_string_list(H, order=k)[1] for k in range(n + 1)], n


CONTRACTS.append(C('code_residual_equations', 'generate_python_code_for_residual_functions', spec_residual_code, modular=False, props=['C15'], norm=bare,
                   abstract=strs('code_residual_equations', 'write_residual_function_string'), params=[TList(TList(RTERM)), TInt(0)],
                   requires=lambda term_lists, max_order: len(term_lists) == max_order + 1, cases=cases_residual_code, argnames=['term_lists', 'max_order']))


def spec_residual_data(H, max_order):
    rs = [CR.generate_residual_string_list(H, order=n) for n in range(max_order + 1)]
    return [r[0] for r in rs], [r[1] for r in rs]


def cases_residual_data(tier, rng):
    for r in (0, 1, 2):
        for n in range(7):
            yield CR.generate_hamiltonian_operator(r).operator_list, n


HOP = TRec(general_operator_namedtuple, name=TStr(), rank=rank_of, m=TInt(0), n=TInt(0))
CONTRACTS.append(C('code_residual_equations', 'generate_residual_data', spec_residual_data, modular=False, props=['C15'],
                   abstract={('code_residual_equations', 'generate_residual_string_list'): TFixed([TList(TStr()), TList(RTERM)], kind='tuple')},
                   params=[TList(HOP), TInt(0)], cases=cases_residual_data, argnames=['H', 'max_order']))


# ---------------------------------------------------------------- W equations in LaTeX: one line per order, one product per partition
import latex_w_equations as LW
import reference_latex_headers as headers


def drive_ground(order, path):
    LW.ground_state_w_equations_latex(order, path=path)


def w_product(p):
    counts = LW.count_items(list(p))
    return LW.generate_w_prefactor(counts) + ''.join([f'\\bt^{{{n}}}' if counts[n] == 1 else f'(\\bt^{{{n}}})^{counts[n]}' for n in counts])


def spec_ground(order, path):
    text = '\\begin{align}\n    \\bW^{0} &= 1'
    for n in range(1, order + 1):
        ps = list(HF.generate_partitions_of_n(n))
        ps.reverse()
        rhs = ' + '.join([w_product(p) for p in ps])
        text += '\n\\\\\n    \\bW^{' + str(n) + '} &= ' + (rhs if n == 1 else '\\hat{S}(' + rhs + ')')
    with open(path, 'w') as fp:
        fp.write(headers.w_equations_latex_header + text + '\n\\end{align}\n' + '\\end{document}')


def w_contents(order, path):
    with open(path) as fp:
        return fp.read()


def cases_ground(tier, rng):
    for n in range(1, 11):
        yield n, 'files_w.tex'


PARTS = [TFixed([TFixed([TInt(1)] * k, kind='tuple') for k in ks]) for ks in ((1,), (1, 2), (2, 2), (3, 1))]
for i, t in enumerate(PARTS):
    CONTRACTS.append(C('contracts.files', 'drive_ground', spec_ground, modular=False, props=['C16'], norm=lambda v: v,
                       abstract={('helper_funcs', 'generate_partitions_of_n'): t}, inline=[('latex_w_equations', 'ground_state_w_equations_latex')], observe=w_contents,
                       name=f'latex_w_equations.ground_state_w_equations_latex:file{i}', variants=[[TConst(n), TConst('files_w.tex')] for n in (1, 2)], cases=cases_ground))
