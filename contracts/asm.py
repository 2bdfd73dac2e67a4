"""How the pieces are put together: callees are taken as unknown functions of their arguments (their own contracts and frames are checked
separately), and the callers are proved to combine exactly the right calls, for every input."""
from contracts.common import *
from contracts.fcc import TERM, HOP, hop, rand_term
from contracts import zhz as ZC, etz as EC
import latex_full_cc as LF
import latex_zhz as LZ
import latex_eT_zhz as LE

CONTRACTS, LEMMAS, BOUNDED = [], [], []
OPQ = TRec(general_operator_namedtuple, name=TInt(), rank=rank_of, m=TInt(), n=TInt())
HAM = TRec(hamiltonian_namedtuple, maximum_rank=TInt(), operator_list=TList(HOP))


def add(module, func, spec, abstract, **k):
    props = ['C12']
    # the removal of f terms and the written f and f-bar powers are C08's, too
    if 'remove_f_terms' in k.get('argnames', ()) or func == '_make_latex':
        props.append('C08')
    # the groups of terms of the written equations
    if func in ('_write_cc_latex_from_lists', '_generate_cc_latex_equations'):
        props.append('C07')
    # the truncations handed to the operator generators
    if func.startswith('drive_'):
        props += ['C03', 'C14', 'C19']
    # the chain of selection, distribution and labelling applied to every operator
    if func.startswith(('_filter_out_valid_', '_build_third_')):
        props += ['C04', 'C05', 'C06']
    CONTRACTS.append(C(module, func, spec, modular=False, props=props, abstract={(m, f): t for (m, f), t in abstract.items()}, **k))


# ---------------------------------------------------------------- every Hamiltonian operator goes through the whole chain
PROD = TList(OP)
CONN = TList(TFixed([TInt(), TInt(), TInt(), TInt()]))


def spec_filter_s(omega, H, s_series_term, term_list, total_list, remove_f_terms=True):
    if isinstance(s_series_term, general_operator_namedtuple):
        series = [[s_series_term]]
    elif isinstance(s_series_term[0], general_operator_namedtuple):
        series = [[t] for t in s_series_term]
    else:
        series = s_series_term
    for h in H.operator_list:
        valid = LF._generate_valid_s_n_operator_permutations(omega, h, series)
        if valid == []:
            continue
        conn = LF._generate_all_omega_h_connection_permutations(omega, h, valid)
        terms = LF._generate_explicit_connections(omega, h, LF._remove_duplicate_s_permutations(conn))
        if remove_f_terms and omega.m >= 1 and h.n >= 1:
            terms = [t for t in terms if not t[0].m_h >= 1]
        total_list.extend(terms)


def cases_filter_s(tier, rng):
    for _ in range(sized(tier, 150, 1500)):
        k = rng.randrange(0, 3)
        ops = [op(rng.randrange(3), rng.randrange(3)) for _ in range(rng.randrange(1, 3))]
        series = op(0, 0, '1') if k == 0 else ops if k == 1 else [list(t) for t in it_product(ops, repeat=k)]
        yield (op(rng.randrange(3), rng.randrange(3)), hamiltonian_namedtuple(4, [hop(rng.randrange(3), rng.randrange(3)) for _ in range(rng.randrange(4))]),
               series, [], [rand_term(rng)] if rng.random() < .3 else [], rng.random() < .5)


add('latex_full_cc', '_filter_out_valid_s_terms', spec_filter_s, {
    ('latex_full_cc', '_generate_valid_s_n_operator_permutations'): TList(PROD),
    ('latex_full_cc', '_generate_all_omega_h_connection_permutations'): TList(CONN),
    ('latex_full_cc', '_remove_duplicate_s_permutations'): TList(CONN),
    ('latex_full_cc', '_generate_explicit_connections'): TList(TERM)},
    variants=[[OP, HAM, x, TList(TInt()), TList(TERM), TBool()] for x in (OP, TList(OP, 1), TList(TList(OP, 2), 1))],
    cases=cases_filter_s, argnames=['omega', 'H', 's_series_term', 'term_list', 'total_list', 'remove_f_terms'])


NOZ = general_operator_namedtuple(None, 0, 0, 0)
PAIR = TFixed([OP, OP], kind='tuple')
ZOP = TRec(LZ.z_operator_namedtuple, maximum_rank=TInt(), operator_list=TList(OP, 1))
ZTERM = TFixed([OP, ZC.CHZ, TFixed([TConst(None), ZC.ZR], kind='tuple')])
ETERM = TFixed([OP, EC.TS, EC.CHT, TFixed([TConst(None), EC.ZRL], kind='tuple'), TInt()])


def spec_filter_z(LHS, H, Z_left, Z_right, total_list):
    pairs_ = [(NOZ, z) for z in Z_right.operator_list]
    for h in H.operator_list:
        valid = LZ._generate_valid_z_n_operator_permutations(LHS, h, pairs_)
        if valid == []:
            continue
        total_list.extend(LZ._generate_explicit_z_connections(LHS, h, LZ._generate_all_o_h_z_connection_permutations(LHS, h, valid)))


def ham(rng, k=3):
    return hamiltonian_namedtuple(4, [hop(rng.randrange(k), rng.randrange(k)) for _ in range(rng.randrange(4))])


def zop(rng):
    return LZ.z_operator_namedtuple(3, [op(rng.randrange(4), 0) for _ in range(rng.randrange(1, 4))])


def cases_filter_z(tier, rng):
    for _ in range(sized(tier, 150, 1500)):
        yield op(rng.randrange(3), rng.randrange(3)), ham(rng), None, zop(rng), []


add('latex_zhz', '_filter_out_valid_z_terms', spec_filter_z, {
    ('latex_zhz', '_generate_valid_z_n_operator_permutations'): TList(PAIR),
    ('latex_zhz', '_generate_all_o_h_z_connection_permutations'): TList(TFixed([TConst(None), ZC.ZR], kind='tuple')),
    ('latex_zhz', '_generate_explicit_z_connections'): TList(ZTERM)},
    params=[OP, HAM, TConst(None), ZOP, TList(ZTERM)], cases=cases_filter_z, argnames=['LHS', 'H', 'Z_left', 'Z_right', 'total_list'])


def spec_filter_e(LHS, eT, H, Z_left, Z_right, total_list, lhs_rhs, zhz_debug=False):
    if isinstance(eT, general_operator_namedtuple):
        series = [[eT]]
    elif isinstance(eT[0], general_operator_namedtuple):
        series = [[t] for t in eT]
    else:
        series = eT
    pairs_ = [(NOZ, z) for z in Z_right.operator_list]
    for h in H.operator_list:
        if lhs_rhs == 'LHS' and h.n != 0:
            continue
        valid = LE._generate_valid_eT_z_n_operator_permutations(LHS, series, h, pairs_)
        if valid == []:
            continue
        conn = LE._generate_all_o_eT_h_z_connection_permutations(LHS, h, valid, lhs_rhs)
        unique, count = LE._remove_duplicate_t_tuple_permutations(LHS, h, conn)
        total_list.extend(LE._generate_explicit_eT_z_connections(LHS, h, unique, count))


def cases_filter_e(tier, rng):
    for _ in range(sized(tier, 150, 1500)):
        k = rng.randrange(3)
        ops = [op(0, 1)]
        yield (op(0, rng.randrange(4)), op(0, 0, '1') if k == 0 else ops if k == 1 else [list(t) for t in it_product(ops, repeat=k)], ham(rng), None, zop(rng), [],
               rng.choice(['LHS', 'RHS']))


EPERM = TFixed([TList(EC.TREC, 1, kind='tuple'), TFixed([TConst(None), EC.ZRL], kind='tuple')], kind='tuple')
add('latex_eT_zhz', '_filter_out_valid_eTz_terms', spec_filter_e, {
    ('latex_eT_zhz', '_generate_valid_eT_z_n_operator_permutations'): TList(TFixed([TList(OP), OP, OP])),
    ('latex_eT_zhz', '_generate_all_o_eT_h_z_connection_permutations'): TList(EPERM),
    ('latex_eT_zhz', '_remove_duplicate_t_tuple_permutations'): TFixed([TList(EPERM), TInt()], kind='tuple'),
    ('latex_eT_zhz', '_generate_explicit_eT_z_connections'): TList(ETERM)},
    variants=[[OP, x, HAM, TConst(None), ZOP, TList(ETERM), TConst(side)] for side in ('LHS', 'RHS') for x in (OP, TList(OP, 1), TList(TList(OP, 2), 1))],
    cases=cases_filter_e, argnames=['LHS', 'eT', 'H', 'Z_left', 'Z_right', 'total_list', 'lhs_rhs'])


# ---------------------------------------------------------------- sums over the terms of one projection
def spec_third_z(LHS, H, Z, remove_f_terms=False):
    terms = []
    LZ._filter_out_valid_z_terms(LHS, H, None, Z, terms)
    return LZ._prepare_third_z_latex(terms, remove_f_terms=remove_f_terms) if terms != [] else ''


def cases_third_z(tier, rng):
    for _ in range(sized(tier, 60, 600)):
        yield op(rng.randrange(3), rng.randrange(3)), ham(rng), zop(rng), rng.random() < .5


add('latex_zhz', '_build_third_z_term', spec_third_z, {
    ('latex_zhz', '_filter_out_valid_z_terms'): (4, TList(ZTERM)), ('latex_zhz', '_prepare_third_z_latex'): 'str'},
    params=[OP, HAM, ZOP, TBool()], cases=cases_third_z, argnames=['LHS', 'H', 'Z', 'remove_f_terms'])


def spec_third_e(LHS, eT_taylor_expansion, H, Z, lhs_rhs, remove_f_terms=False):
    terms = []
    for x in eT_taylor_expansion:
        LE._filter_out_valid_eTz_terms(LHS, x, H, None, Z, terms, lhs_rhs)
    return LE._prepare_third_eTz_latex(terms, lhs_rhs, remove_f_terms=remove_f_terms) if terms != [] else ''


def cases_third_e(tier, rng):
    for _ in range(sized(tier, 60, 600)):
        yield (op(0, rng.randrange(4)), LE.generate_eT_taylor_expansion(1, rng.randrange(1, 4)), ham(rng), zop(rng), rng.choice(['LHS', 'RHS']), rng.random() < .5)


SERIES = TFixed([OP, TList(OP, 1), TList(TList(OP, 2), 1), TList(TList(OP, 2), 1)])
FILTER_E = {('latex_eT_zhz', '_filter_out_valid_eTz_terms'): (5, TList(ETERM))}
add('latex_eT_zhz', '_build_third_eTz_term', spec_third_e, {**FILTER_E, ('latex_eT_zhz', '_prepare_third_eTz_latex'): 'str'},
    variants=[[OP, s, HAM, ZOP, TConst(x), TBool()] for s in (SERIES, TList(TList(TList(OP, 1), 1))) for x in ('LHS', 'RHS')],
    cases=cases_third_e, argnames=['LHS', 'eT_taylor_expansion', 'H', 'Z', 'lhs_rhs', 'remove_f_terms'])


def stripped(s):
    return s.replace('^{}', '').replace('_{}', '')


def spec_z_equations(LHS, H, Z, only_ground_state=True, remove_f_terms=False):
    """-i dt/dtau z products, the bare h term and the h z terms: each once"""
    if not only_ground_state:
        raise NotImplementedError
    return stripped(LZ._build_first_z_term(LHS) + '\\\\&+\\sum\\Big(' + LZ._build_third_z_term(LHS, H, Z, remove_f_terms)
                    + '\\Big)(1-\\delta_{cb})' + '\\\\&-i\\sum\\Big(' + LZ._build_fifth_z_term(LHS, Z) + '\\Big)')


def cases_z_equations(tier, rng):
    for LHS, H, Z, f in cases_third_z(tier, rng):
        yield LHS, H, Z, rng.random() < .8, f


BUILT_Z = {('latex_zhz', x): 'str' for x in ('_build_first_z_term', '_build_third_z_term', '_build_fifth_z_term')}
add('latex_zhz', '_generate_z_symmetric_latex_equations', spec_z_equations, BUILT_Z,
    params=[OP, HAM, ZOP, TBool(), TBool()], cases=cases_z_equations, argnames=['LHS', 'H', 'Z', 'only_ground_state', 'remove_f_terms'])


def spec_e_equations(LHS, eT_taylor_expansion, H, Z, lhs_rhs, only_ground_state=True, remove_f_terms=False):
    if not only_ground_state:
        raise NotImplementedError
    third = '\\\\&+\\sum\\Big(' + LE._build_third_eTz_term(LHS, eT_taylor_expansion, H, Z, lhs_rhs, remove_f_terms) + '\\Big)'
    if lhs_rhs == 'LHS':
        return stripped(third)
    return stripped(LE._build_first_z_term(LHS) + third + '\\\\&-i\\sum\\Big(' + LE._build_fifth_z_term(LHS, Z) + '\\Big)')


def cases_e_equations(tier, rng):
    for a in cases_third_e(tier, rng):
        yield (*a[:5], rng.random() < .8, a[5])


add('latex_eT_zhz', '_generate_eT_z_symmetric_latex_equations', spec_e_equations, {**BUILT_Z, ('latex_eT_zhz', '_build_third_eTz_term'): 'str'},
    variants=[[OP, SERIES, HAM, ZOP, TConst(x), TBool(), TBool()] for x in ('LHS', 'RHS')],
    cases=cases_e_equations, argnames=['LHS', 'eT_taylor_expansion', 'H', 'Z', 'lhs_rhs', 'only_ground_state', 'remove_f_terms'])


def spec_cc_lists(rank, fully, linked, unlinked):
    if rank == 0:
        return stripped(' + '.join([LF._make_latex(rank, fully), LF._make_latex(rank, linked), LF._make_latex(rank, unlinked)]))
    gap = '\n%\n%\n\\\\  &+\n%\n%\n'
    a = LF._make_latex(rank, fully) if fully != [] else '    \\textit{no fully connected terms}'
    b = LF._make_latex(rank, linked, linked_condense=rank > 1) if linked != [] else '    \\textit{no linked disconnected terms}'
    c = LF._make_latex(rank, unlinked, unlinked_condense=True) if unlinked != [] else '    \\textit{no unlinked disconnected terms}'
    return stripped(a + gap + b + gap + c)


def groups(tier, rng):
    for _ in range(sized(tier, 40, 300)):
        m, n = rng.randrange(4), rng.randrange(3)
        omega, total = op(m, n), []
        for s in LF.generate_s_taylor_expansion(2, rng.randrange(1, 3), rng.random() < .7):
            LF._filter_out_valid_s_terms(omega, LF.generate_full_cc_hamiltonian_operator(2), s, [], total, remove_f_terms=rng.random() < .5)
        yield (m + n, *LF._seperate_s_terms_by_connection(total))


TERMS = TList(TERM)
add('latex_full_cc', '_write_cc_latex_from_lists', spec_cc_lists, {('latex_full_cc', '_make_latex'): 'str'},
    params=[TInt(), TERMS, TERMS, TERMS], cases=groups, argnames=['rank', 'fully', 'linked', 'unlinked'])


def spec_cc_equations(omega, H, s_taylor_expansion, remove_f_terms=True):
    total = []
    for s in s_taylor_expansion:
        LF._filter_out_valid_s_terms(omega, H, s, [], total, remove_f_terms=remove_f_terms)
    fully, linked, unlinked = LF._seperate_s_terms_by_connection(total)
    return LF._write_cc_latex_from_lists(omega.rank, fully, linked, unlinked)


def cases_cc_equations(tier, rng):
    for _ in range(sized(tier, 25, 200)):
        yield (op(rng.randrange(3), rng.randrange(3)), LF.generate_full_cc_hamiltonian_operator(rng.randrange(3)),
               LF.generate_s_taylor_expansion(2, rng.randrange(3), rng.random() < .7), rng.random() < .5)


add('latex_full_cc', '_generate_cc_latex_equations', spec_cc_equations, {
    ('latex_full_cc', '_filter_out_valid_s_terms'): (4, TERMS), ('latex_full_cc', '_write_cc_latex_from_lists'): 'str',
    ('latex_full_cc', '_seperate_s_terms_by_connection'): TFixed([TERMS, TERMS, TERMS], kind='tuple')},
    variants=[[OP, HAM, s, TBool()] for s in (SERIES, TList(TList(TList(OP, 1), 1)))],
    cases=cases_cc_equations, argnames=['omega', 'H', 's_taylor_expansion', 'remove_f_terms'])


# ---------------------------------------------------------------- whole files: one equation per projection operator
from truncation_keys import TruncationsKeys as tk
import reference_latex_headers as headers

RANKS = ['0 order', 'LINEAR', 'QUADRATIC', 'CUBIC', 'QUARTIC', 'QUINTIC', 'SEXTIC', 'SEPTIC', 'OCTIC']
PROJ = TRec(general_operator_namedtuple, name=TConst('x'), rank=TInt(0, 8), m=TInt(), n=TInt())
OMEGA = TRec(omega_namedtuple, maximum_rank=TInt(), operator_list=TList(PROJ, 1))


def drive_fcc(truncations, ground, rf, path):
    LF.generate_full_cc_latex(truncations, only_ground_state=ground, remove_f_terms=rf, path=path)


def spec_fcc_file(truncations, ground, rf, path):
    LF._verify_fcc_truncations(truncations)
    ops = LF.generate_omega_operator(truncations[tk.CC], truncations[tk.P]).operator_list
    H = LF.generate_full_cc_hamiltonian_operator(truncations[tk.H])
    series = LF.generate_s_taylor_expansion(truncations[tk.CC], truncations[tk.S], ground)
    text = ''
    for i, o in enumerate(ops):
        lhs, rhs = LF._generate_left_hand_side(o), LF._generate_cc_latex_equations(o, H, series, rf)
        text += '%\n%\n%\n%\n%\n\n'
        name = RANKS[o.rank]
        if o.rank > ops[i - 1].rank:
            text += '\\newpage\n' if o.rank >= 2 else ''
            text += '\\subsection{' + name.capitalize() + ' Equations}\n\n'
        text += LF._wrap_align_environment(o, name, lhs, rhs)
    head = headers.ground_state_vecc_latex_header if ground else headers.full_vecc_latex_header
    with open(path, 'w') as fp:
        fp.write(head + text + '\\end{document}')


def contents(truncations, ground, rf, path, *a):
    with open(path) as fp:
        return fp.read()


def cases_fcc_file(tier, rng):
    for _ in range(sized(tier, 6, 40)):
        yield {tk.H: rng.randrange(1, 3), tk.CC: rng.randrange(1, 3), tk.S: rng.randrange(1, 3), tk.P: rng.randrange(1, 3)}, rng.random() < .7, rng.random() < .5, 'asm_fcc.tex'


def trunc(*ks):
    return TDict([(k, TInt()) for k in ks])


FC = 'latex_full_cc'
add('contracts.asm', 'drive_fcc', spec_fcc_file, {
    ('truncations', '_verify_fcc_truncations'): TConst(None), (FC, 'generate_omega_operator'): OMEGA, (FC, 'generate_full_cc_hamiltonian_operator'): HAM,
    (FC, 'generate_s_taylor_expansion'): TInt(), (FC, '_generate_left_hand_side'): 'str', (FC, '_generate_cc_latex_equations'): 'str',
    (FC, '_wrap_align_environment'): 'str'}, inline=[(FC, 'generate_full_cc_latex')], observe=contents, name='latex_full_cc.generate_full_cc_latex:file',
    params=[trunc(tk.H, tk.CC, tk.S, tk.P), TBool(), TBool(), TConst('asm_fcc.tex')], cases=cases_fcc_file)


from contracts.lhs import spec_t_lhs, spec_z_lhs, spec_wrap_t, spec_wrap_z  # noqa: E402


def drive_zhz(truncations, ground, rf, path):
    LZ.generate_z_t_symmetric_latex(truncations, only_ground_state=ground, remove_f_terms=rf, path=path)


def heading(o, before):
    return '\\paragraph{' + RANKS[o.rank].capitalize() + ' Equations}\n\n' if o.rank > before.rank else '\\vspace{2cm}'


GAP = '%\n%\n%\n%\n%\n\n'
NOF = '\\textbf{Note that all terms with a $f$ prefactor have been removed}\n'


def spec_zhz_file(truncations, ground, rf, path):
    ops = LZ.generate_omega_operator(truncations[tk.CC], truncations[tk.P]).operator_list
    raw = LZ.generate_full_cc_hamiltonian_operator(truncations[tk.H])
    H = hamiltonian_namedtuple(raw.maximum_rank, [h for h in raw.operator_list if h.rank < 3 or h.m == 0])
    Z = LZ.generate_z_operator(truncations[tk.CC], ground)
    text = ''
    for i, o in enumerate(ops):
        text += heading(o, ops[i - 1]) + GAP + spec_wrap_t(o, spec_t_lhs(o))
        text += GAP + spec_wrap_z(spec_z_lhs(o), LZ._generate_z_symmetric_latex_equations(o, H, Z, ground, rf))
    head = headers.ground_state_z_t_symmetric_latex_header if ground else headers.full_z_t_symmetric_latex_header
    with open(path, 'w') as fp:
        fp.write(head + (NOF if rf else '') + text + '\\end{document}')


def cases_zhz_file(tier, rng):
    for _ in range(sized(tier, 6, 40)):
        yield {tk.H: rng.randrange(1, 4), tk.CC: rng.randrange(1, 3), tk.P: rng.randrange(1, 3)}, True, rng.random() < .5, 'asm_zhz.tex'


ZH, ET = 'latex_zhz', 'latex_eT_zhz'
PROJ2 = TRec(general_operator_namedtuple, name=TConst('bbd'), rank=lambda d: simp(d['m'] + d['n']), m=TInt(0, 4), n=TInt(0, 4))
OMEGA2 = TRec(omega_namedtuple, maximum_rank=TInt(), operator_list=TList(PROJ2, 1))
ZEQ = {(ZH, 'generate_z_operator'): ZOP, (ZH, '_generate_z_symmetric_latex_equations'): 'str', (ET, '_generate_eT_z_symmetric_latex_equations'): 'str'}
add('contracts.asm', 'drive_zhz', spec_zhz_file, {
    **ZEQ, (FC, 'generate_omega_operator'): OMEGA2, (FC, 'generate_full_cc_hamiltonian_operator'): HAM},
    inline=[(ZH, 'generate_z_t_symmetric_latex')], observe=contents, name='latex_zhz.generate_z_t_symmetric_latex:file',
    params=[trunc(tk.H, tk.CC, tk.P), TBool(), TBool(), TConst('asm_zhz.tex')], cases=cases_zhz_file, budget=120)


def drive_etz(truncations, ground, rf, path, side):
    LE.generate_eT_z_t_symmetric_latex(truncations, only_ground_state=ground, remove_f_terms=rf, path=path, lhs_rhs=side)


def spec_etz_file(truncations, ground, rf, path, side):
    LE._verify_eT_z_t_truncations(truncations)
    ops = LE.generate_omega_operator(truncations[tk.CC], truncations[tk.P]).operator_list
    H = LE.generate_pruned_H_operator(truncations[tk.H])
    Z = LE.generate_z_operator(truncations[tk.CC], ground)
    series = LE.generate_eT_taylor_expansion(truncations[tk.T], truncations[tk.eT])
    text = ''
    for i, o in enumerate(ops):
        if o.m == 0:
            text += heading(o, ops[i - 1]) + GAP + spec_wrap_t(o, spec_t_lhs(o))
            rhs = LE._generate_eT_z_symmetric_latex_equations(o, series, H, Z, side, ground, rf)
            text += GAP
            if side == 'RHS':
                text += spec_wrap_z(spec_z_lhs(o), rhs)
            else:
                text += '\\begin{align}\\begin{split}\nLHS &=\n%\n%\n' + rhs + '\n\\end{split}\\end{align}\n\n'
    head = headers.ground_state_z_t_symmetric_latex_header if ground else headers.full_z_t_symmetric_latex_header
    with open(path, 'w') as fp:
        fp.write(head + (NOF if rf else '') + text + '\\end{document}')


def cases_etz_file(tier, rng):
    for _ in range(sized(tier, 6, 40)):
        yield ({tk.H: rng.randrange(1, 3), tk.CC: rng.randrange(1, 3), tk.P: rng.randrange(1, 3), tk.T: 1, tk.eT: rng.randrange(1, 4)}, True, rng.random() < .5,
               'asm_etz.tex', rng.choice(['LHS', 'RHS']))


add('contracts.asm', 'drive_etz', spec_etz_file, {
    **ZEQ, (FC, 'generate_omega_operator'): OMEGA2, (ET, 'generate_pruned_H_operator'): HAM, ('truncations', '_verify_eT_z_t_truncations'): TConst(None),
    (ET, 'generate_eT_taylor_expansion'): TInt()},
    inline=[(ET, 'generate_eT_z_t_symmetric_latex')], observe=contents, name='latex_eT_zhz.generate_eT_z_t_symmetric_latex:file',
    variants=[[trunc(tk.H, tk.CC, tk.P, tk.T, tk.eT), TBool(), TBool(), TConst('asm_etz.tex'), TConst(x)] for x in ('LHS', 'RHS')],
    cases=cases_etz_file, budget=120)


# ---------------------------------------------------------------- the sum over the terms of one projection, term by term
def power(name, k):
    return '' if k == 0 else name if k == 1 else name + '^{' + str(k) + '}'


def spec_prepare_z(term_list, split_width=7, remove_f_terms=False, print_prefactors=True):
    """every term once: its f and fbar factors, prefactor, h and z, joined by plus signs"""
    out = []
    for term in term_list:
        h, z = term[1], term[2][1]
        if not (remove_f_terms and z.n_h > 0):
            out.append(power('f', z.n_h) + power('\\bar{f}', z.m_h) + LZ._build_hz_latex_prefactor(h, None, z)
                       + LZ._build_hz_term_latex_labels(h, {'left_upper': 0, 'summation_index': 0, 'unlinked_index': 0})
                       + LZ._build_right_z_term(h, z, {'left_lower': 0, 'left_upper': 0, 'h_lower': h.n_r, 'h_upper': 0, 'unlinked_index': h.m_lhs + h.n_lhs}))
    return '(' + ' + '.join(out) + ')'


def paired_z(term_list, *a):
    return len(term_list) < 14 and all(t[2][1].m_h == t[1].n_r and t[2][1].n_h == t[1].m_r for t in term_list)


def cases_prepare_z(tier, rng):
    for _ in range(sized(tier, 100, 1000)):
        H, Z, terms = ham(rng), zop(rng), []
        LZ._filter_out_valid_z_terms(op(rng.randrange(3), rng.randrange(3)), H, None, Z, terms)
        yield terms, 7, rng.random() < .5, True


LAB_Z = {(ZH, x): 'str' for x in ('_build_hz_latex_prefactor', '_build_hz_term_latex_labels', '_build_right_z_term')}
add(ZH, '_prepare_third_z_latex', spec_prepare_z, LAB_Z, requires=paired_z, variants=[[TList(ZTERM), TConst(7), TConst(rf), TConst(True)] for rf in (False, True)],
    cases=cases_prepare_z, argnames=['term_list', 'split_width', 'remove_f_terms', 'print_prefactors'], budget=120)


def spec_make(rank, term_list, linked_condense=False, unlinked_condense=False, print_prefactors=True, color=False):
    out = []
    common = LF._build_t_term_latex(disconnected_namedtuple(0, 0, term_list[0][0].n, term_list[0][0].m)) if unlinked_condense else ''
    for o, h, ts in term_list:
        out.append(power('f', o.m_h) + power('\\bar{f}', o.n_h) + LF._build_latex_prefactor(h, ts) + LF._build_h_term_latex_labels(h)
                   + ''.join(LF._build_t_term_latex_group(ts, h)))
    if unlinked_condense:
        return '(' + ' + '.join([x.replace(common, '') for x in out]) + ')' + common
    return '(' + ' + '.join(out) + ')'


def paired_terms(rank, term_list, *a):
    return len(term_list) < 14 and all(o.m_h == h.n_o and o.n_h == h.m_o for o, h, ts in term_list)


def whole_factor(rank, term_list, *a):
    return (1 <= len(term_list) and paired_terms(rank, term_list)
            and all(any(isinstance(t, disconnected_namedtuple) and t.m_o == term_list[0][0].n and t.n_o == term_list[0][0].m for t in ts) for o, h, ts in term_list))


def cases_make(unlinked):
    def run(tier, rng):
        for rank, fully, linked, un in groups(tier, rng):
            if unlinked and un != []:
                yield rank, un, False, True, True, False
            elif not unlinked:
                for x in (fully, linked):
                    yield rank, x, False, False, True, False
    return run


LAB_F = {(FC, '_build_latex_prefactor'): 'str', (FC, '_build_h_term_latex_labels'): 'str', (FC, '_build_t_term_latex_group'): TList(TStr()),
         (FC, '_build_t_term_latex'): 'str'}
MAKE = ['rank', 'term_list', 'linked_condense', 'unlinked_condense', 'print_prefactors', 'color']
add(FC, '_make_latex', spec_make, LAB_F, params=[TInt(), TERMS, TConst(False), TConst(False), TConst(True), TConst(False)], requires=paired_terms,
    cases=cases_make(False), argnames=MAKE, budget=120)
add(FC, '_make_latex', spec_make, LAB_F, params=[TInt(), TERMS, TConst(False), TConst(True), TConst(True), TConst(False)], requires=whole_factor,
    cases=cases_make(True), argnames=MAKE, budget=120, name='latex_full_cc._make_latex:unlinked')
