"""Contracts on latex_eT_zhz: e^T products with h and z, contractions."""
from contracts.common import *
from contracts.fcc import HOP, hop, spec_fcc_hamiltonian
from contracts.zhz import NOZ, NOZT, NONE, left_shares
import latex_eT_zhz as E
from latex_eT_zhz import (
    eT_operator_namedtuple, connected_eT_lhs_operator_namedtuple, connected_eT_h_z_operator_namedtuple,
    connected_eT_z_left_operator_namedtuple, connected_eT_z_right_operator_namedtuple, connected_t_operator_namedtuple,
    disconnected_eT_z_left_operator_namedtuple, disconnected_eT_z_right_operator_namedtuple, disconnected_t_operator_namedtuple,
)

M = 'latex_eT_zhz'
CONTRACTS, LEMMAS, BOUNDED = [], [], []


def add(*a, **k):
    CONTRACTS.append(C(M, *a, **k))


# ---------------------------------------------------------------- C03
def spec_eT_operator(maximum_eT_rank=2):
    return eT_operator_namedtuple(maximum_eT_rank, [
        general_operator_namedtuple(f's_{n}', n, 0, n) for n in range(0, maximum_eT_rank + 1) if n >= 1
    ])


def spec_eT_taylor(maximum_eT_rank=2, eT_taylor_max_order=3):
    ops = spec_eT_operator(maximum_eT_rank).operator_list
    return [general_operator_namedtuple('1', 0, 0, 0), ops] + [
        [list(t) for t in it_product(ops, repeat=k)] for k in range(2, eT_taylor_max_order + 1)]


def spec_pruned(maximum_h_rank):
    return hamiltonian_namedtuple(maximum_h_rank, [h for h in spec_fcc_hamiltonian(maximum_h_rank).operator_list if h.m + h.n < 3 or h.m == 0])


def cases_rank(tier, rng):
    for k in range(sized(tier, 10, 20)):
        yield (k,)


def cases_taylor(tier, rng):
    for r in range(0, 4):
        for k in range(1, 9):
            if r ** k <= sized(tier, 5000, 70000):
                yield r, k


add('generate_eT_operator', spec_eT_operator, [TInt()], props=['C03'], cases=cases_rank, argnames=['maximum_eT_rank'])
add('generate_eT_taylor_expansion', spec_eT_taylor, variants=[[TInt(), TConst(k)] for k in range(1, 5)] + [[TConst(1), TConst(k)] for k in range(5, 9)],
    props=['C03'], cases=cases_taylor, argnames=['maximum_eT_rank', 'eT_taylor_max_order'])
add('generate_pruned_H_operator', spec_pruned, [TInt()], props=['C03'], cases=cases_rank, argnames=['maximum_h_rank'])


# ---------------------------------------------------------------- C04
def sm(ts):
    return sum(t.m for t in ts)


def sn(ts):
    return sum(t.n for t in ts)


def spec_z_joins(LHS, t_list, h, left_z, right_z):
    return (left_z.m > right_z.n + LHS.n + h.n + sn(t_list) or left_z.n > right_z.m + LHS.m + h.m + sm(t_list)
            or right_z.m > left_z.n + LHS.n + h.n + sn(t_list) or right_z.n > left_z.m + LHS.m + h.m + sm(t_list))


def spec_t_joins(omega, t_list, h, z_left, z_right):
    return sm(t_list) > omega.n + h.n + z_left.n + z_right.n or sn(t_list) > omega.m + h.m + z_left.m + z_right.m


def nothing_else(a, ts, b, c):
    return (a.m == 0 and a.n == 0 and b.m == 0 and b.n == 0 and c.m == 0 and c.n == 0 and all(t.m == 0 and t.n == 0 for t in ts))


def spec_omega_self(omega, t_list, h, z_left, z_right):
    return omega.m > 0 and omega.n > 0 and nothing_else(h, t_list, z_left, z_right)


def spec_h_self(omega, t_list, h, z_left, z_right):
    return h.m > 0 and h.n > 0 and nothing_else(omega, t_list, z_left, z_right)


def eT_valid(LHS, ts, h, l, r):
    return (LHS.m + h.m + l.m + r.m + sm(ts) == LHS.n + h.n + l.n + r.n + sn(ts)
            and not spec_z_joins(LHS, ts, h, l, r) and not spec_t_joins(LHS, ts, h, l, r)
            and not spec_omega_self(LHS, ts, h, l, r) and not spec_h_self(LHS, ts, h, l, r))


def spec_valid_eT(LHS, eT, h, all_z_permutations):
    return [(tuple(ts), z[0], z[1]) for ts in eT for z in all_z_permutations if eT_valid(LHS, ts, h, z[0], z[1])]


def rop(rng, k):
    return op(rng.randrange(k), rng.randrange(k))


def cases_lthlr(tier, rng):
    ps = pairs(1)
    for a in ps:
        for b in ps:
            for c in ps:
                for ts in ([], [op(0, 0)], [op(0, 1)], [op(1, 0)]):
                    yield op(*a), list(ts), hop(*b), NOZ, op(*c)
    for _ in range(sized(tier, 3000, 30000)):
        k = rng.choice((2, 3, 5))
        yield rop(rng, k), [rop(rng, 3) for _ in range(rng.randrange(4))], hop(rng.randrange(k), rng.randrange(k)), rng.choice((NOZ, rop(rng, k))), rop(rng, k)


def cases_eTlists(tier, rng):
    for _ in range(sized(tier, 1500, 15000)):
        k = rng.randrange(1, 4)
        yield (rop(rng, 4), [[op(0, rng.choice((0, 1, 1, 2))) for _ in range(k)] for _ in range(rng.randrange(1, 4))], hop(rng.randrange(4), rng.randrange(4)),
               [(rng.choice((NOZ, NOZ, rop(rng, 3))), rop(rng, 5)) for _ in range(rng.randrange(5))])


A5 = ['LHS', 't_list', 'h', 'left_z', 'right_z']
B5 = ['omega', 't_list', 'h', 'z_left', 'z_right']
P5 = [OP, TList(OP), HOP, OP, OP]
add('_z_joining_with_z_terms_eT', spec_z_joins, P5, props=['C04'], cases=cases_lthlr, argnames=A5)
add('_t_joining_with_t_terms_eT', spec_t_joins, P5, props=['C04'], cases=cases_lthlr, argnames=B5)


# called on balanced products only (the caller checks the balance first)
def balanced(omega, t_list, h, z_left, z_right):
    return omega.m + h.m + z_left.m + z_right.m + sm(t_list) == omega.n + h.n + z_left.n + z_right.n + sn(t_list)


add('_omega_joining_with_itself_eT', spec_omega_self, P5, props=['C04'], cases=cases_lthlr, argnames=B5)
add('_h_joining_with_itself_eT', spec_h_self, P5, props=['C04'], cases=cases_lthlr, argnames=B5)
add('_generate_valid_eT_z_n_operator_permutations', spec_valid_eT, [OP, TList(TList(OP, 1)), HOP, TList(TFixed([OP, OP], kind='tuple'))],
    props=['C04'], cases=cases_eTlists, argnames=['LHS', 'eT', 'h', 'all_z_permutations'])


# ---------------------------------------------------------------- C05
TOP = TRec(general_operator_namedtuple, name=TConst('x'), rank=rank_of, m=TConst(0), n=TInt())


def z_shares(k, nt):
    """(lhs, (t, ...), h, other z) shares of k indices"""
    return [(c[0], tuple(c[2:]), c[1], k - (c[0] + c[1] + sum(c[2:]))) for c in it_product(range(k + 1), repeat=2 + nt)
            if c[0] + c[1] + sum(c[2:]) <= k]


def eT_upper(LHS, t_list, h, l, r):
    return [
        (x, y) for x in z_shares(l.m, len(t_list)) for y in z_shares(r.m, len(t_list))
        if x[0] + y[0] <= LHS.n and x[2] + y[2] <= h.n and sum(x[1]) + sum(y[1]) <= sn(t_list)
        and x[3] <= r.n and y[3] <= l.n
        and all(t.n <= LHS.m + h.m + x[1][i] + y[1][i] and t.rank >= x[1][i] + y[1][i] for i, t in enumerate(t_list))
    ]


def eT_lower(LHS, t_list, h, l, r):
    return [
        (x, y) for x in z_shares(l.n, len(t_list)) for y in z_shares(r.n, len(t_list))
        if x[0] + y[0] <= LHS.m and x[2] + y[2] <= h.m and sum(x[1]) + sum(y[1]) <= sm(t_list)
        and x[3] <= r.m and y[3] <= l.m
        and all(t.m <= LHS.n + h.n + x[1][i] + y[1][i] and t.rank >= x[1][i] + y[1][i] for i, t in enumerate(t_list))
    ]


def spec_eTz_splits(LHS, t_list, h, left_z, right_z, log_invalid=True):
    return eT_upper(LHS, t_list, h, left_z, right_z), eT_lower(LHS, t_list, h, left_z, right_z)


def cases_eTz_split(tier, rng):
    for _ in range(sized(tier, 500, 5000)):
        k = rng.randrange(1, 4)
        yield (rop(rng, 4), tuple(op(0, rng.choice((0, 1, 1, 1, 2))) for _ in range(k)), hop(rng.randrange(4), rng.randrange(4)),
               NOZ if rng.random() < .7 else rop(rng, 2), op(rng.randrange(4), rng.choice((0, 0, 1))))


add('_generate_all_valid_eT_z_connection_permutations', spec_eTz_splits,
    variants=[[OP, TFixed([TOP] * k, kind='tuple'), HOP, NOZT, OP] for k in (1, 2, 3)],
    props=['C05'], cases=cases_eTz_split, argnames=['LHS', 't_list', 'h', 'left_z', 'right_z'], budget=120)


def nt0(k):
    return TFixed([TInt(0, 0)] * k, kind='tuple')


def zt_fields(k):
    return dict(rank=TInt(), m=TInt(), n=TInt(), m_lhs=TInt(), n_lhs=TInt(), m_t=TFixed([TInt()] * k, kind='tuple'), n_t=nt0(k),
                m_h=TInt(), n_h=TInt(), m_l=TInt(), n_l=TInt())


def touch_h(d):
    return z3.Or(d['m_h'] > 0, d['n_h'] > 0)


def ZRT(k):
    return TAlt(connected_eT_z_right_operator_namedtuple, disconnected_eT_z_right_operator_namedtuple, touch_h, **zt_fields(k))


# the t operators given how a right z takes some of their indices: the rest goes to the projection or to h
def t_shares(LHS, t_list, h, r):
    return [c for c in it_product(*[[(a, 0, t.n - r.m_t[i] - a, r.m_t[i]) for a in range(t.n - r.m_t[i] + 1)] for i, t in enumerate(t_list)])
            if sum(x[0] for x in c) <= LHS.m and sum(x[2] for x in c) <= h.m]


def spec_t_splits_given_z(LHS, t_list, h, z_pair, log_invalid=True):
    lows = t_shares(LHS, t_list, h, z_pair[1])
    return [tuple((0, 0, 0, 0) for t in t_list)], lows


def z_takes_at_most(LHS, t_list, h, z_pair):
    # the z shares were chosen within the t's and leave what h and the projection can take
    return (all(z_pair[1].m_t[i] <= t.n for i, t in enumerate(t_list))
            and sum(t.n for t in t_list) - sum(z_pair[1].m_t) <= LHS.m + h.m)


def mk_zr(z, u, l, k):
    return (disconnected_eT_z_right_operator_namedtuple if u[2] == 0 and l[2] == 0 else connected_eT_z_right_operator_namedtuple)(
        rank=z.rank, m=z.m, n=z.n, m_lhs=u[0], m_t=u[1], m_h=u[2], m_l=u[3], n_lhs=l[0], n_t=l[1], n_h=l[2], n_l=l[3])


def cases_tgz(tier, rng):
    for _ in range(sized(tier, 3000, 30000)):
        k = rng.randrange(1, 4)
        ts = tuple(op(0, rng.choice((1, 1, 2))) for _ in range(k))
        mt = tuple(rng.randrange(t.n + 1) for t in ts)
        rest = sum(t.n for t in ts) - sum(mt)
        x = rng.randrange(rest + 1)
        mh = rng.randrange(2)
        z = mk_zr(op(sum(mt) + mh, 0), (0, mt, mh, 0), (0, (0,) * k, 0, 0), k)
        yield op(rest - x + rng.randrange(2), rng.randrange(3)), ts, hop(x + rng.randrange(2), rng.randrange(3)), (None, z)


def as_tuples(r):
    return [[[tuple(x) for x in c] for c in r[0]], [[tuple(x) for x in c] for c in r[1]]]


add('_generate_all_valid_eT_connection_permutations', spec_t_splits_given_z,
    variants=[[OP, TFixed([TOP] * k, kind='tuple'), HOP, TFixed([NONE, ZRT(k)], kind='tuple')] for k in (1, 2, 3)],
    requires=z_takes_at_most, view=as_tuples, props=['C05'], cases=cases_tgz, argnames=['LHS', 't_list', 'h', 'z_pair'])


# reachable products: annihilation-only projection, rank-one t's, creation-only z on the right
def mk_t(t, lo):
    return (disconnected_t_operator_namedtuple if lo[2] == 0 else connected_t_operator_namedtuple)(
        rank=t.rank, m=t.m, n=t.n, m_lhs=0, m_l=0, m_h=0, m_r=0, n_lhs=lo[0], n_l=lo[1], n_h=lo[2], n_r=lo[3])


def spec_eT_connections(LHS, h, valid_permutations, lhs_rhs, found_it_bool=False):
    out = []
    for ts, l, r in valid_permutations:
        for u in eT_upper(LHS, ts, h, l, r):
            for lo in eT_lower(LHS, ts, h, l, r):
                z = mk_zr(r, u[1], lo[1], len(ts))
                if len(ts) == 1 and ts[0].rank == 0:
                    out.append(((mk_t(ts[0], (0, 0, 0, 0)),), (None, z)))
                    continue
                for c in t_shares(LHS, ts, h, z):
                    out.append((tuple(mk_t(t, x) for t, x in zip(ts, c)), (None, z)))
    return out


def reachable_products(tier, rng):
    kmax = sized(tier, 4, 5)
    for K in range(0, 7):
        for hm, hn in [(a, b) for a in range(7) for b in range(7) if (a + b < 3 or a == 0) and a + b <= 6]:
            for k in range(0, kmax + 1):
                zm = K + hn + k - hm
                if not 0 <= zm <= 6 or (k >= 3 and zm > 4) or (k >= 4 and zm > 3):
                    continue
                ts = tuple(op(0, 1) for _ in range(k)) if k else (general_operator_namedtuple('1', 0, 0, 0),)
                LHS, h, r = op(0, K), hop(hm, hn), general_operator_namedtuple('z', zm, zm, 0)
                if eT_valid(LHS, ts, h, NOZ, r):
                    yield LHS, h, ts, r


def cases_eTconn(tier, rng):
    for LHS, h, ts, r in reachable_products(tier, rng):
        for side in ('RHS', 'LHS'):
            yield LHS, h, [(ts, NOZ, r)], side


add('_generate_all_o_eT_h_z_connection_permutations', spec_eT_connections, props=['C05'], cases=cases_eTconn,
    argnames=['LHS', 'h', 'valid_permutations', 'lhs_rhs'])


def spec_dedupe_t(LHS, h, eT_connection_permutations):
    keys = [(tuple(sorted(p[0])), p[1]) for p in eT_connection_permutations]
    uniq = list(dict.fromkeys(keys))
    return uniq, {k: keys.count(k) for k in uniq}


def cases_dedupe(tier, rng):
    yield op(0, 1), hop(0, 0), []
    for LHS, h, ts, r in reachable_products(tier, rng):
        ps = spec_eT_connections(LHS, h, [(ts, NOZ, r)], 'RHS')
        if ps:
            ps = [rng.choice(ps) for _ in range(rng.randrange(1, 8))]
            yield LHS, h, [(tuple(rng.sample(p[0], len(p[0]))), p[1]) for p in ps]


add('_remove_duplicate_t_tuple_permutations', spec_dedupe_t, props=['C05'], cases=cases_dedupe, argnames=['LHS', 'h', 'eT_connection_permutations'])


# ---------------------------------------------------------------- C06
def eT_labels(LHS, h, ts, r):
    b = left_shares(r)
    return (
        connected_eT_lhs_operator_namedtuple(
            rank=LHS.m + LHS.n, m=LHS.m, n=LHS.n, m_l=0, n_l=0, m_t=[t.n_lhs for t in ts], n_t=[t.m_lhs for t in ts], m_r=b[1], n_r=b[0],
            m_h=LHS.m - b[1] - sum(t.n_lhs for t in ts), n_h=LHS.n - b[0] - sum(t.m_lhs for t in ts)),
        connected_eT_h_z_operator_namedtuple(
            rank=h.m + h.n, m=h.m, n=h.n, m_t=[t.n_h for t in ts], n_t=[t.m_h for t in ts], m_l=0, n_l=0, m_r=b[3], n_r=b[2],
            m_lhs=h.m - b[3] - sum(t.n_h for t in ts), n_lhs=h.n - b[2] - sum(t.m_h for t in ts)))


def eT_pairs_off(LHS, h, ts, r):
    L, H = eT_labels(LHS, h, ts, r)
    return L.n_h == H.m_lhs and L.m_h == H.n_lhs and LHS.m + h.m + r.m + sum(t.m for t in ts) == LHS.n + h.n + r.n + sum(t.n for t in ts)


def spec_eT_explicit(LHS, h, unique_permutations, prefactor_count):
    return [
        [eT_labels(LHS, h, p[0], p[1][1])[0], p[0], eT_labels(LHS, h, p[0], p[1][1])[1], p[1], prefactor_count[p]]
        for p in unique_permutations if eT_pairs_off(LHS, h, p[0], p[1][1])
    ]


def eT_within(LHS, h, perms, count):
    return all(
        left_shares(p[1][1])[1] + sum(t.n_lhs for t in p[0]) <= LHS.m and left_shares(p[1][1])[0] + sum(t.m_lhs for t in p[0]) <= LHS.n
        and left_shares(p[1][1])[3] + sum(t.n_h for t in p[0]) <= h.m and left_shares(p[1][1])[2] + sum(t.m_h for t in p[0]) <= h.n
        for p in perms)


TREC = TAlt(connected_t_operator_namedtuple, disconnected_t_operator_namedtuple, touch_h,
            **{f: TInt() for f in connected_t_operator_namedtuple._fields})
ZRL = TAlt(connected_eT_z_right_operator_namedtuple, disconnected_eT_z_right_operator_namedtuple, touch_h,
           **{f: (TList(TInt(), kind='tuple') if f in ('m_t', 'n_t') else TInt()) for f in connected_eT_z_right_operator_namedtuple._fields})
PERM = TFixed([TList(TREC, 1, kind='tuple'), TFixed([NONE, ZRL], kind='tuple')], kind='tuple')


def cases_eTexp(tier, rng):
    for LHS, h, ts, r in reachable_products(tier, rng):
        ps = list(dict.fromkeys((tuple(sorted(p[0])), p[1]) for p in spec_eT_connections(LHS, h, [(ts, NOZ, r)], 'RHS')))
        yield LHS, h, ps, {p: j + 1 for j, p in enumerate(ps)}
    # and beyond: t's with creation indices, contractions of the projection with t and h
    for _ in range(sized(tier, 3000, 30000)):
        k = rng.randrange(1, 4)
        ts = []
        for _ in range(k):
            v = {f: rng.choice((0, 0, 0, 1)) for f in ('m_lhs', 'n_lhs', 'm_l', 'n_l', 'm_h', 'n_h', 'm_r', 'n_r')}
            m, n = v['m_lhs'] + v['m_h'] + v['m_r'], v['n_lhs'] + v['n_h'] + v['n_r']
            v['m_l'] = v['n_l'] = 0
            ts.append((connected_t_operator_namedtuple if v['m_h'] + v['n_h'] else disconnected_t_operator_namedtuple)(rank=m + n, m=m, n=n, **v))
        u = (rng.randrange(2), tuple(t.n_r for t in ts), rng.randrange(2), 0)
        l = (rng.randrange(2), tuple(t.m_r for t in ts), rng.randrange(2), 0)
        z = mk_zr(op(u[0] + u[2] + sum(u[1]), l[0] + l[2] + sum(l[1])), u, l, k)
        x, y = rng.randrange(2), rng.randrange(2)
        p = (tuple(ts), (None, z))
        LHS = op(l[0] + sum(t.n_lhs for t in ts) + x, u[0] + sum(t.m_lhs for t in ts) + y)
        h = hop(l[2] + sum(t.n_h for t in ts) + y, u[2] + sum(t.m_h for t in ts) + x + rng.choice((0, 0, 0, 1)))
        yield LHS, h, [p], {p: 1}


add('_generate_explicit_eT_z_connections', spec_eT_explicit, [OP, HOP, TList(PERM), TMap()], requires=eT_within, props=['C06'], cases=cases_eTexp,
    argnames=['LHS', 'h', 'unique_permutations', 'prefactor_count'])


def claim_eT_conservation(LHS, h, perms, count):
    ts = spec_eT_explicit(LHS, h, perms, count)
    return [
        all(t[0].m_r + t[0].m_h + sum(t[0].m_t) == LHS.m and t[0].n_r + t[0].n_h + sum(t[0].n_t) == LHS.n
            and t[2].m_r + t[2].m_lhs + sum(t[2].m_t) == h.m and t[2].n_r + t[2].n_lhs + sum(t[2].n_t) == h.n for t in ts),
        all(t[0].m_h == t[2].n_lhs and t[0].n_h == t[2].m_lhs for t in ts),
        all(t[0].m_h >= 0 and t[0].n_h >= 0 and t[2].m_lhs >= 0 and t[2].n_lhs >= 0 for t in ts),
    ]


LEMMAS.append(('C06', Lemma('e^T: every labelled term conserves and pairs all indices', [OP, HOP, TList(PERM), TMap()],
                            claim_eT_conservation, requires=eT_within)))


# ---------------------------------------------------------------- C08 f contributions
TS = TList(TREC, 1, kind='tuple')
CHT = TRec(connected_eT_h_z_operator_namedtuple, **{f: (TList(TInt()) if f in ('m_t', 'n_t') else TInt()) for f in connected_eT_h_z_operator_namedtuple._fields})


def t_h_agree(t_list, h):
    return (len(h.m_t) == len(t_list) and len(h.n_t) == len(t_list)
            and all(t.m_h == h.n_t[i] and t.n_h == h.m_t[i] for i, t in enumerate(t_list)))


def t_z_agree(t_list, z):
    return (len(z.m_t) == len(t_list) and len(z.n_t) == len(t_list)
            and all(t.m_r == z.n_t[i] and t.n_r == z.m_t[i] for i, t in enumerate(t_list)))


def rnd_t(rng):
    v = {f: rng.choice((0, 0, 0, 1, 2)) for f in ('m_lhs', 'n_lhs', 'm_l', 'n_l', 'm_h', 'n_h', 'm_r', 'n_r')}
    m, n = v['m_lhs'] + v['m_h'] + v['m_r'] + v['m_l'], v['n_lhs'] + v['n_h'] + v['n_r'] + v['n_l']
    return (connected_t_operator_namedtuple if v['m_h'] + v['n_h'] else disconnected_t_operator_namedtuple)(rank=m + n, m=m, n=n, **v)


add('_f_t_h_contributions', lambda t_list, h: [t.m_h for t in t_list], [TS, CHT], requires=t_h_agree, props=['C08'], argnames=['t_list', 'h'])
add('_fbar_t_h_contributions', lambda t_list, h: [t.n_h for t in t_list], [TS, CHT], requires=lambda ts, h: t_h_agree(ts, h) and all(t.m_h == 0 for t in ts),
    props=['C08'], argnames=['t_list', 'h'])
add('_f_t_zR_contributions', lambda t_list, z_right: [t.m_r for t in t_list], [TS, ZRL], requires=t_z_agree, props=['C08'], argnames=['t_list', 'z_right'])
add('_fbar_t_zR_contributions', lambda t_list, z_right: [t.n_r for t in t_list], [TS, ZRL], props=['C08'], argnames=['t_list', 'z_right'])


# ---------------------------------------------------------------- the e^T term pipeline, bounded
def eT_reference(LHS, series, H, Zop, side):
    prods = [[series]] if isinstance(series, general_operator_namedtuple) else [[s] for s in series] if series and isinstance(series[0], general_operator_namedtuple) else series
    out = []
    for h in H.operator_list:
        if side == 'LHS' and h.n != 0:
            continue
        valid = [(tuple(ts), NOZ, z) for ts in prods for z in Zop.operator_list if eT_valid(LHS, ts, h, NOZ, z)]
        keys = [(tuple(sorted(p[0])), p[1]) for p in spec_eT_connections(LHS, h, valid, side)]
        for p in dict.fromkeys(keys):
            if eT_pairs_off(LHS, h, p[0], p[1][1]):
                out.append([eT_labels(LHS, h, p[0], p[1][1])[0], p[0], eT_labels(LHS, h, p[0], p[1][1])[1], p[1], keys.count(p)])
    return out


def efreeze(t):
    return repr((t[0], tuple((type(x).__name__, x) for x in t[1]), t[2], type(t[3][1]).__name__, t[3], t[4]))


def eT_configs(tier):
    # H rank, z rank, T order
    yield 2, 2, 3
    yield 3, 3, 2
    yield 6, 4, 1
    yield 4, 5, 2
    if tier != 'quick':
        yield 2, 3, 4
        yield 6, 6, 2
        yield 3, 4, 3


def run_eTpipe(check):
    def run(tier, rng, deadline):
        for hr, cc, order in eT_configs(tier):
            H = E.generate_pruned_H_operator(hr)
            Zop = E.generate_z_operator(cc, True)
            series = E.generate_eT_taylor_expansion(1, order)
            for LHS in E.generate_omega_operator(cc, 6).operator_list:
                if LHS.m:
                    continue
                for side in ('RHS', 'LHS'):
                    for k, s in enumerate(series):
                        got = []
                        E._filter_out_valid_eTz_terms(LHS, s, H, None, Zop, got, side)
                        yield f'H rank {hr}, z rank {cc}, T^{k}, {side}, projection {LHS.name!r}', check(LHS, s, H, Zop, side, got)
    return run


def eT_check_terms(LHS, s, H, Zop, side, got):
    want = sorted(map(efreeze, eT_reference(LHS, s, H, Zop, side)))
    have = sorted(map(efreeze, got))
    if want != have:
        return f'terms differ: missing {[w for w in want if w not in have][:2]}, unexpected or repeated {[x for x in have if x not in want or have.count(x) > 1][:2]}'


def eT_check_balance(LHS, s, H, Zop, side, got):
    for t in got:
        L, ts, h, zp = t[0], t[1], t[2], t[3]
        b = left_shares(zp[1])
        if (L.m_h + b[1] + sum(x.n_lhs for x in ts), L.n_h + b[0] + sum(x.m_lhs for x in ts)) != (LHS.m, LHS.n):
            return f'projection indices not accounted for: {t}'
        if (h.m_lhs + b[3] + sum(x.n_h for x in ts), h.n_lhs + b[2] + sum(x.m_h for x in ts)) != (h.m, h.n):
            return f'Hamiltonian indices not accounted for: {t}'
        if (L.m_h, L.n_h) != (h.n_lhs, h.m_lhs):
            return f'projection and Hamiltonian disagree: {t}'
        if zp[1].m_lhs + zp[1].m_h + sum(zp[1].m_t) != zp[1].m or any(x.n_lhs + x.n_h + x.n_r != x.n for x in ts):
            return f'amplitude indices not accounted for: {t}'
        if sum(zp[1].m_t) != sum(x.n_r for x in ts):
            return f'z and t disagree: {t}'


EB = 'H rank <= 6, z rank <= 6, T rank 1, T order <= 4, every annihilation projection up to order 6, both sides'
for p in ('C04', 'C05'):
    BOUNDED.append((p, Bounded('e^T terms against the independent enumeration', run_eTpipe(eT_check_terms), EB, ['_filter_out_valid_eTz_terms'])))
BOUNDED.append(('C06', Bounded('e^T terms balance', run_eTpipe(eT_check_balance), EB, ['_filter_out_valid_eTz_terms'])))
