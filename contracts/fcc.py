"""Contracts on latex_full_cc: operators, product filters, contractions, classification."""
from contracts.common import *
import latex_full_cc as L
from latex_full_cc import (
    h_operator_namedtuple, s_operator_namedtuple, connected_omega_operator_namedtuple, connected_h_operator_namedtuple,
)

M = 'latex_full_cc'
HOP = TRec(h_operator_namedtuple, rank=rank_of, m=TInt(), n=TInt())
CONTRACTS, LEMMAS, BOUNDED = [], [], []


def hop(m, n):
    return h_operator_namedtuple(m + n, m, n)


def add(*a, **k):
    CONTRACTS.append(C(M, *a, **k))


# ---------------------------------------------------------------- C03 operator enumeration
def spec_omega(maximum_cc_rank=2, omega_max_order=3):
    ops = [
        general_operator_namedtuple('d' * m + 'b' * n, m + n, m, n)
        for m in range(maximum_cc_rank + 1)
        for n in range(maximum_cc_rank + 1)
        if m + n <= maximum_cc_rank and m + n <= omega_max_order
    ]
    return omega_namedtuple(maximum_cc_rank, sorted(ops, key=lambda o: o.m + o.n))


def cases_two(tier, rng):
    k = sized(tier, 8, 11)
    for a in range(k):
        for b in range(k):
            yield a, b


add('generate_omega_operator', spec_omega, [TInt(), TInt()], props=['C03'], cases=cases_two,
    argnames=['maximum_cc_rank', 'omega_max_order'])


def spec_fcc_hamiltonian(maximum_rank=2):
    return hamiltonian_namedtuple(maximum_rank, [
        h_operator_namedtuple(m + n, m, n)
        for m in range(maximum_rank + 1) for n in range(maximum_rank + 1) if m + n <= maximum_rank
    ])


def cases_one(tier, rng):
    for a in range(sized(tier, 12, 25)):
        yield (a,)


add('generate_full_cc_hamiltonian_operator', spec_fcc_hamiltonian, [TInt()], props=['C03'], cases=cases_one, argnames=['maximum_rank'])


def s_name(m, n):
    return 's' + (f'^{m}' if m > 0 else '') + (f'_{n}' if n > 0 else '')


def spec_s_operator(maximum_cc_rank=2, only_ground_state=False):
    return s_operator_namedtuple(maximum_cc_rank, [
        general_operator_namedtuple(s_name(m, n), m + n, m, n)
        for m in range(maximum_cc_rank + 1) for n in range(maximum_cc_rank + 1)
        if 1 <= m + n <= maximum_cc_rank and (n == 0 or not only_ground_state)
    ])


def cases_s(tier, rng):
    for a in range(sized(tier, 9, 14)):
        for g in (False, True):
            yield a, g


add('generate_s_operator', spec_s_operator, [TInt(), TBool()], props=['C03'], cases=cases_s, argnames=['maximum_cc_rank', 'only_ground_state'])


def spec_s_taylor(maximum_cc_rank=2, s_taylor_max_order=3, only_ground_state=False):
    ops = spec_s_operator(maximum_cc_rank, only_ground_state).operator_list
    out = [general_operator_namedtuple('1', 0, 0, 0)]
    if s_taylor_max_order >= 1:
        out.append(ops)
    for k in range(2, s_taylor_max_order + 1):
        out.append([list(t) for t in it_product(ops, repeat=k)])
    return out


def cases_staylor(tier, rng):
    for a in range(0, sized(tier, 4, 5)):
        for k in range(0, 7):
            for g in (False, True):
                if (a * (a + 3) // 2) ** k <= sized(tier, 30000, 300000):
                    yield a, k, g


add('generate_s_taylor_expansion', spec_s_taylor, props=['C03'], cases=cases_staylor,
    variants=[[TInt(), TConst(k), TBool()] for k in range(0, 3)], budget=60,
    argnames=['maximum_cc_rank', 's_taylor_max_order', 'only_ground_state'])


# ---------------------------------------------------------------- C04 product filter
def spec_t_joins_t(omega, h, s_list, nof_creation_ops):
    return (sum(s.m for s in s_list) > omega.n + h.n) or (sum(s.n for s in s_list) > omega.m + h.m)


def spec_omega_joins_itself(omega, h, s_list):
    return omega.m > 0 and omega.n > 0 and h.m == 0 and h.n == 0 and all(s.m == 0 and s.n == 0 for s in s_list)


def spec_h_joins_itself(omega, h, s_list):
    return h.m > 0 and h.n > 0 and omega.m == 0 and omega.n == 0 and all(s.m == 0 and s.n == 0 for s in s_list)


def product_is_valid(omega, h, perm):
    return (
        omega.m + h.m + sum(s.m for s in perm) == omega.n + h.n + sum(s.n for s in perm)
        and sum(s.m for s in perm) <= omega.n + h.n
        and sum(s.n for s in perm) <= omega.m + h.m
        and not (omega.m > 0 and omega.n > 0 and h.m == 0 and h.n == 0 and all(s.m == 0 and s.n == 0 for s in perm))
        and not (h.m > 0 and h.n > 0 and omega.m == 0 and omega.n == 0 and all(s.m == 0 and s.n == 0 for s in perm))
    )


def spec_valid_products(omega, h, s_series_term):
    return [perm for perm in s_series_term if product_is_valid(omega, h, perm)]


def cases_ohs(tier, rng):
    ps = pairs(2)
    for a in ps:
        for b in ps:
            for s in ([], [op(0, 0)], [op(1, 0)], [op(0, 1)], [op(1, 1)], [op(2, 0), op(0, 1)], [op(1, 1), op(0, 0)]):
                yield op(*a), hop(*b), list(s)
    for _ in range(sized(tier, 3000, 40000)):
        a, b = (rng.randrange(6), rng.randrange(6)), (rng.randrange(6), rng.randrange(6))
        yield op(*a), hop(*b), [op(rng.randrange(4), rng.randrange(4)) for _ in range(rng.randrange(6))]


def cases_ohsn(tier, rng):
    for o, h, s in cases_ohs(tier, rng):
        yield o, h, s, 0


def cases_series(tier, rng):
    for _ in range(sized(tier, 1500, 15000)):
        k = rng.randrange(1, 6)
        a, b = (rng.randrange(5), rng.randrange(5)), (rng.randrange(5), rng.randrange(5))
        yield op(*a), hop(*b), [[op(rng.randrange(3), rng.randrange(3)) for _ in range(k)] for _ in range(rng.randrange(12))]


PROD_ARGS = ['omega', 'h', 's_list']
add('_t_joining_with_t_terms', spec_t_joins_t, [OP, HOP, TList(OP), TInt()], props=['C04'], cases=cases_ohsn, argnames=PROD_ARGS + ['nof_creation_ops'])
add('_omega_joining_with_itself', spec_omega_joins_itself, [OP, HOP, TList(OP)], props=['C04'], cases=cases_ohs, argnames=PROD_ARGS)
add('_h_joining_with_itself', spec_h_joins_itself, [OP, HOP, TList(OP)], props=['C04'], cases=cases_ohs, argnames=PROD_ARGS)
add('_generate_valid_s_n_operator_permutations', spec_valid_products, [OP, HOP, TList(TList(OP, 1))], props=['C04'], cases=cases_series,
    argnames=['omega', 'h', 's_series_term'])


# ---------------------------------------------------------------- C05 contraction distributions
def upper_splits(omega, h, s_list):
    return [c for c in it_product(*[[(i, s.m - i) for i in range(s.m + 1)] for s in s_list])
            if sum(x[0] for x in c) <= omega.n and sum(x[1] for x in c) <= h.n]


def lower_splits(omega, h, s_list):
    return [c for c in it_product(*[[(i, s.n - i) for i in range(s.n + 1)] for s in s_list])
            if sum(x[0] for x in c) <= omega.m and sum(x[1] for x in c) <= h.m]


def spec_t_splits(omega, h, s_term_list, log_invalid=True):
    return upper_splits(omega, h, s_term_list), lower_splits(omega, h, s_term_list)


def spec_connections(omega, h, valid_permutations, found_it_bool=False):
    return [
        [(connected_namedtuple if u[1] > 0 or l[1] > 0 else disconnected_namedtuple)(m_o=u[0], m_h=u[1], n_o=l[0], n_h=l[1])
         for u, l in zip(up, lo)]
        for perm in valid_permutations
        for up in upper_splits(omega, h, perm)
        for lo in lower_splits(omega, h, perm)
    ]


def cases_split(tier, rng):
    for a in pairs(2):
        for b in pairs(2):
            for s in ([op(0, 0)], [op(2, 1)], [op(1, 1), op(1, 0)]):
                yield op(*a), hop(*b), list(s), False
    for _ in range(sized(tier, 1500, 15000)):
        yield (op(rng.randrange(6), rng.randrange(6)), hop(rng.randrange(6), rng.randrange(6)),
               [op(rng.randrange(4), rng.randrange(4)) for _ in range(rng.randrange(1, 5))], rng.random() < .5)


def cases_conn(tier, rng):
    for _ in range(sized(tier, 500, 5000)):
        k = rng.randrange(1, 4)
        yield (op(rng.randrange(5), rng.randrange(5)), hop(rng.randrange(5), rng.randrange(5)),
               [[op(rng.randrange(3), rng.randrange(3)) for _ in range(k)] for _ in range(rng.randrange(4))])


def spec_unique(s_list):
    return {tuple(sorted(a)) for a in s_list}


def cases_dup(tier, rng):
    yield ([],)
    for _ in range(sized(tier, 800, 8000)):
        k = rng.randrange(1, 4)
        yield ([[st(*(rng.randrange(2) for _ in range(4))) for _ in range(k)] for _ in range(rng.randrange(8))],)


add('_generate_all_valid_t_connection_permutations', spec_t_splits, [OP, HOP, TList(OP, 1), TBool()], props=['C05'], cases=cases_split,
    argnames=['omega', 'h', 's_term_list', 'log_invalid'])
add('_generate_all_omega_h_connection_permutations', spec_connections, [OP, HOP, TList(TList(OP, 1))], props=['C05'], cases=cases_conn,
    argnames=['omega', 'h', 'valid_permutations'], budget=120)
add('_remove_duplicate_s_permutations', spec_unique, [TList(TList(ST, 1))], props=['C05'], cases=cases_dup, frame=False, argnames=['s_list'])


# ---------------------------------------------------------------- C06 explicit connections
def within_capacity(omega, h, perms):
    return all(
        sum(s.n_o for s in p) <= omega.m and sum(s.m_o for s in p) <= omega.n
        and sum(s.n_h for s in p) <= h.m and sum(s.m_h for s in p) <= h.n
        for p in perms
    )


def label_omega(omega, p):
    return connected_omega_operator_namedtuple(
        rank=omega.m + omega.n, m=omega.m, n=omega.n,
        m_h=omega.m - sum(s.n_o for s in p), n_h=omega.n - sum(s.m_o for s in p),
        m_t=[s.n_o for s in p], n_t=[s.m_o for s in p])


def label_h(h, p):
    return connected_h_operator_namedtuple(
        rank=h.m + h.n, m=h.m, n=h.n,
        m_o=h.m - sum(s.n_h for s in p), n_o=h.n - sum(s.m_h for s in p),
        m_t=[s.n_h for s in p], n_t=[s.m_h for s in p])


def spec_explicit(omega, h, unique_s_permutations):
    return [
        [label_omega(omega, p), label_h(h, p), p]
        for p in unique_s_permutations
        if h.m - sum(s.n_h for s in p) == omega.n - sum(s.m_o for s in p)
        and h.n - sum(s.m_h for s in p) == omega.m - sum(s.n_o for s in p)
    ]


def cases_explicit(tier, rng):
    for _ in range(sized(tier, 6000, 60000)):
        k = rng.randrange(1, 4)
        ps = [tuple(st(*(rng.choice((0, 0, 1, 2)) for _ in range(4))) for _ in range(k)) for _ in range(rng.randrange(1, 4))]
        p = ps[0]
        # balanced most of the time
        x, y = rng.randrange(3), rng.randrange(3)
        o = op(sum(s.n_o for s in p) + x, sum(s.m_o for s in p) + y)
        h = hop(sum(s.n_h for s in p) + y + rng.choice((0, 0, 1)), sum(s.m_h for s in p) + x)
        yield o, h, ps


add('_generate_explicit_connections', spec_explicit, [OP, HOP, TList(TList(ST, 1, kind='tuple'))], requires=within_capacity,
    props=['C06'], cases=cases_explicit, argnames=['omega', 'h', 'unique_s_permutations'])


def claim_conservation(omega, h, perms):
    return [
        all(
            t[0].m_h + sum(t[0].m_t) == omega.m and t[0].n_h + sum(t[0].n_t) == omega.n
            and t[1].m_o + sum(t[1].m_t) == h.m and t[1].n_o + sum(t[1].n_t) == h.n
            for t in spec_explicit(omega, h, perms)),
        all(t[0].m_h == t[1].n_o and t[0].n_h == t[1].m_o for t in spec_explicit(omega, h, perms)),
        all(t[0].m_h >= 0 and t[0].n_h >= 0 and t[1].m_o >= 0 and t[1].n_o >= 0 for t in spec_explicit(omega, h, perms)),
    ]


LEMMAS.append(('C06', Lemma('full cc: every labelled term conserves and pairs all indices',
                            [OP, HOP, TList(TList(ST, 1, kind='tuple'))], claim_conservation, requires=within_capacity)))


# ---------------------------------------------------------------- C08 f terms
CO = TRec(connected_omega_operator_namedtuple, rank=rank_of, m=TInt(), n=TInt(), m_h=TInt(), n_h=TInt(), m_t=TList(TInt()), n_t=TList(TInt()))
CH = TRec(connected_h_operator_namedtuple, rank=rank_of, m=TInt(), n=TInt(), m_o=TInt(), n_o=TInt(), m_t=TList(TInt()), n_t=TList(TInt()))
TERM = TFixed([CO, CH, TList(ST, 1, kind='tuple')])


def spec_remove_f(labeled_permutations):
    return [t for t in labeled_permutations if not t[0].m_h >= 1]


def co(m, n, m_h, n_h, p):
    return connected_omega_operator_namedtuple(m + n, m, n, m_h, n_h, [s.n_o for s in p], [s.m_o for s in p])


def ch(m, n, m_o, n_o, p):
    return connected_h_operator_namedtuple(m + n, m, n, m_o, n_o, [s.n_h for s in p], [s.m_h for s in p])


def rand_term(rng, maxk=4, vals=(0, 0, 1, 2)):
    k = rng.randrange(1, maxk)
    p = tuple(st(*(rng.choice(vals) for _ in range(4))) for _ in range(k))
    x, y = rng.choice((0, 0, 1, 2)), rng.choice((0, 0, 1, 2))
    o = co(sum(s.n_o for s in p) + x, sum(s.m_o for s in p) + y, x, y, p)
    h = ch(sum(s.n_h for s in p) + y, sum(s.m_h for s in p) + x, y, x, p)
    return [o, h, p]


def cases_terms(tier, rng):
    yield ([],)
    for _ in range(sized(tier, 800, 8000)):
        yield ([rand_term(rng) for _ in range(rng.randrange(6))],)


add('_remove_f_zero_terms', spec_remove_f, [TList(TERM)], props=['C08'], cases=cases_terms, argnames=['labeled_permutations'])


def paired(omega, h):
    return omega.m_h == h.n_o and omega.n_h == h.m_o


add('_creates_f_prefactor', lambda omega, h: omega.m_h >= 1 and h.n_o >= 1, [CO, CH], requires=paired, props=['C08'], argnames=['omega', 'h'])
add('_creates_fbar_prefactor', lambda omega, h: omega.n_h >= 1 and h.m_o >= 1, [CO, CH], requires=paired, props=['C08'], argnames=['omega', 'h'])


# ---------------------------------------------------------------- C07 classification
def is_trivial(p):
    return len(p) == 1 and p[0].m_h == 0 and p[0].n_h == 0 and p[0].m_o == 0 and p[0].n_o == 0


def touches_only_omega(s):
    return s.m_h == 0 and s.n_h == 0


def is_unlinked(t):
    return (not is_trivial(t[2])) and any(touches_only_omega(s) and s.m_o == t[0].n and s.n_o == t[0].m for s in t[2])


def is_fully(t):
    return is_trivial(t[2]) or all(not touches_only_omega(s) for s in t[2])


def is_linked(t):
    return not is_fully(t) and not is_unlinked(t)


def spec_separate(total_list):
    return (
        [t for t in total_list if is_fully(t)],
        [t for t in total_list if is_linked(t)],
        [t for t in total_list if is_unlinked(t)],
    )


def terms_well_formed(total_list):
    return all(
        is_trivial(t[2])
        or all(s.m_o <= t[0].n and s.n_o <= t[0].m and s.m_h + s.n_h + s.m_o + s.n_o >= 1 for s in t[2])
        for t in total_list
    )


def cases_sep(tier, rng):
    z = disconnected_namedtuple(0, 0, 0, 0)
    for m, n in pairs(2):
        yield ([[co(m, n, 0, 0, (z,)), ch(n, m, 0, 0, (z,)), (z,)]],)
    # every product of up to three amplitudes from a small pool, on every small projection that can hold them
    pool = [st(*v) for v in itertools.product((0, 1, 2), repeat=4) if 1 <= sum(v) <= sized(tier, 2, 3)]
    for k in (1, 2, 3):
        for p in itertools.product(pool, repeat=k):
            x, y = rng.choice(((0, 0), (0, 0), (1, 0), (0, 1)))
            for (x, y) in {(0, 0), (x, y)}:
                o = co(sum(s.n_o for s in p) + x, sum(s.m_o for s in p) + y, x, y, p)
                h = ch(sum(s.n_h for s in p) + y, sum(s.m_h for s in p) + x, y, x, p)
                yield ([[o, h, p]],)
            # the projection is only as large as its largest partner: one amplitude may take every index
            m, n = max(s.n_o for s in p), max(s.m_o for s in p)
            yield ([[co(m, n, 0, 0, p), ch(sum(s.n_h for s in p), sum(s.m_h for s in p), 0, 0, p), p]],)
    for _ in range(sized(tier, 4000, 40000)):
        ts = [rand_term(rng, 5, (0, 0, 0, 1, 1, 2)) for _ in range(rng.randrange(1, 4))]
        yield (ts,)


add('_seperate_s_terms_by_connection', spec_separate, [TList(TERM)], requires=terms_well_formed, props=['C07'], cases=cases_sep,
    argnames=['total_list'])


def claim_partition(terms):
    return [all(is_fully(t) + is_linked(t) + is_unlinked(t) == 1 for t in terms)]


LEMMAS.append(('C07', Lemma('full cc: the three classes partition the terms', [TList(TERM)], claim_partition, requires=terms_well_formed)))


# ---------------------------------------------------------------- the whole term pipeline, bounded
def reference_terms(omega, H, series, remove_f_terms):
    """independent statement of what one order of the expansion contributes: per h, the set of labelled terms"""
    if isinstance(series, general_operator_namedtuple):
        prods = [[series]]
    elif series and isinstance(series[0], general_operator_namedtuple):
        prods = [[s] for s in series]
    else:
        prods = series
    out = []
    for h in H.operator_list:
        seen = set()
        for perm in prods:
            if not product_is_valid(omega, h, perm):
                continue
            for c in spec_connections(omega, h, [perm]):
                seen.add(tuple(sorted(c)))
        terms = spec_explicit(omega, h, sorted(seen))
        if remove_f_terms:
            terms = [t for t in terms if t[0].m_h == 0]
        out.append(sorted(terms))
    return out


def freeze(t):
    return (tuple(t[0][:5]) + (tuple(t[0].m_t), tuple(t[0].n_t)), tuple(t[1][:5]) + (tuple(t[1].m_t), tuple(t[1].n_t)),
            tuple((type(s).__name__,) + tuple(s) for s in t[2]), type(t[0]).__name__, type(t[1]).__name__)


def pipeline_configs(tier, rng):
    yield 2, 2, 2, True
    yield 2, 2, 2, False
    yield 3, 2, 3, True
    yield 3, 3, 1, False
    yield 4, 3, 2, True
    yield 4, 4, 1, True
    yield 5, 2, 1, False
    if tier != 'quick':
        yield 3, 3, 3, False
        yield 4, 4, 3, True
        yield 6, 4, 2, False


def run_pipeline(check):
    def run(tier, rng, deadline):
        for hr, cc, order, gs in pipeline_configs(tier, rng):
            H = L.generate_full_cc_hamiltonian_operator(hr)
            series = L.generate_s_taylor_expansion(cc, order, gs)
            for omega in L.generate_omega_operator(cc, min(4, 2 * cc)).operator_list:
                for rf in (False, True):
                    total = []
                    for k, s in enumerate(series):
                        part = []
                        L._filter_out_valid_s_terms(omega, H, s, [], part, remove_f_terms=rf)
                        f = check(omega, H, s, rf, part)
                        yield (f'H rank {hr}, cc rank {cc}, order {k}, ground={gs}, remove_f={rf}, projection {omega.name!r}', f)
                        total += part
    return run


def check_terms(omega, H, series, rf, got):
    want = sorted(freeze(t) for ts in reference_terms(omega, H, series, rf) for t in ts)
    have = sorted(freeze(t) for t in got)
    if want != have:
        return (f'terms differ: missing {[w for w in want if w not in have][:2]}, unexpected or repeated '
                f'{[x for x in have if x not in want or have.count(x) > 1][:2]}')
    rank = {(h.m, h.n): j for j, h in enumerate(H.operator_list)}
    order = [rank[t[1].m, t[1].n] for t in got]
    if order != sorted(order):
        return 'terms are not listed Hamiltonian term by Hamiltonian term'


def check_balance(omega, H, series, rf, got):
    for t in got:
        o, h, p = t
        if (o.m_h + sum(s.n_o for s in p), o.n_h + sum(s.m_o for s in p)) != (omega.m, omega.n):
            return f'projection indices not accounted for: {t}'
        if (h.m_o + sum(s.n_h for s in p), h.n_o + sum(s.m_h for s in p)) != (h.m, h.n):
            return f'Hamiltonian indices not accounted for: {t}'
        if (o.m_h, o.n_h) != (h.n_o, h.m_o):
            return f'projection and Hamiltonian disagree: {t}'


def check_f(omega, H, series, rf, got):
    want = sorted(freeze(t) for ts in reference_terms(omega, H, series, False) for t in ts if not (rf and t[0].m_h > 0))
    if want != sorted(freeze(t) for t in got):
        return f'with remove_f_terms={rf} the terms kept differ from those without a projection-Hamiltonian contraction'


def check_classes(omega, H, series, rf, got):
    want = spec_separate(got)
    have = L._seperate_s_terms_by_connection(got)
    if not all(list(map(freeze, a)) == list(map(freeze, b)) for a, b in zip(want, have)):
        return f'classes differ: want sizes {[len(x) for x in want]}, have {[len(x) for x in have]}'


PB = 'H rank <= 6, cluster rank <= 4, Taylor order <= 3, every projection of order <= 4, both f settings'
BOUNDED += [
    ('C05', Bounded('full cc terms against the independent enumeration', run_pipeline(check_terms), PB, ['_filter_out_valid_s_terms'])),
    ('C06', Bounded('full cc terms balance', run_pipeline(check_balance), PB, ['_filter_out_valid_s_terms'])),
    ('C04', Bounded('full cc terms against the independent enumeration', run_pipeline(check_terms), PB, ['_filter_out_valid_s_terms'])),
    ('C08', Bounded('full cc f-term removal in the pipeline', run_pipeline(check_f), PB, ['_filter_out_valid_s_terms'])),
    ('C07', Bounded('full cc classes of generated terms', run_pipeline(check_classes), PB, ['_seperate_s_terms_by_connection'])),
]
