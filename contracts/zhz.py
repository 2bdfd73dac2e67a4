"""Contracts on latex_zhz: the z operators, their products with h, contractions."""
from contracts.common import *
from contracts.fcc import HOP, hop
import latex_zhz as Z
from latex_zhz import (
    z_operator_namedtuple, connected_lhs_operator_namedtuple, connected_h_z_operator_namedtuple,
    connected_z_left_operator_namedtuple, connected_z_right_operator_namedtuple,
    disconnected_z_left_operator_namedtuple, disconnected_z_right_operator_namedtuple,
)

M = 'latex_zhz'
CONTRACTS, LEMMAS, BOUNDED = [], [], []


def add(*a, **k):
    CONTRACTS.append(C(M, *a, **k))


# ---------------------------------------------------------------- C03
def z_name(m, n):
    return 'z' + (f'^{m}' if m > 0 else '') + (f'_{n}' if n > 0 else '')


def spec_z_operator(maximum_cc_rank, only_ground_state):
    return z_operator_namedtuple(maximum_cc_rank, [
        general_operator_namedtuple(z_name(m, n), m + n, m, n)
        for m in range(maximum_cc_rank + 1) for n in range(maximum_cc_rank + 1)
        if m + n <= maximum_cc_rank and (n == 0 or not only_ground_state)
    ])


def cases_z(tier, rng):
    for a in range(sized(tier, 10, 16)):
        for g in (True, False):
            yield a, g


add('generate_z_operator', spec_z_operator, [TInt(), TBool()], props=['C03'], cases=cases_z, argnames=['maximum_cc_rank', 'only_ground_state'])


# ---------------------------------------------------------------- C04
def spec_z_joins_z(LHS, h, left_z, right_z):
    return (left_z.m > LHS.n + h.n + right_z.n or left_z.n > LHS.m + h.m + right_z.m
            or right_z.m > LHS.n + h.n + left_z.n or right_z.n > LHS.m + h.m + left_z.m)


def z_product_is_valid(LHS, h, l, r):
    return (
        LHS.m + h.m + l.m + r.m == LHS.n + h.n + l.n + r.n
        and not spec_z_joins_z(LHS, h, l, r)
        and not (LHS.m > 0 and LHS.n > 0 and h.m == 0 and h.n == 0 and l.m == 0 and l.n == 0 and r.m == 0 and r.n == 0)
        and not (h.m > 0 and h.n > 0 and LHS.m == 0 and LHS.n == 0 and l.m == 0 and l.n == 0 and r.m == 0 and r.n == 0)
    )


def spec_valid_z_products(LHS, h, all_z_permutations):
    return [(p[0], p[1]) for p in all_z_permutations if z_product_is_valid(LHS, h, p[0], p[1])]


NOZ = general_operator_namedtuple(None, 0, 0, 0)


def cases_lhlr(tier, rng):
    ps = pairs(2)
    for a in ps:
        for b in ps:
            for c in ps:
                yield op(*a), hop(*b), NOZ, op(*c)
    for _ in range(sized(tier, 3000, 30000)):
        yield op(rng.randrange(5), rng.randrange(5)), hop(rng.randrange(5), rng.randrange(5)), op(rng.randrange(5), rng.randrange(5)), op(rng.randrange(5), rng.randrange(5))


def cases_zlist(tier, rng):
    for _ in range(sized(tier, 2500, 20000)):
        k = rng.randrange(10)
        yield (op(rng.randrange(4), rng.randrange(4)), hop(rng.randrange(4), rng.randrange(4)),
               [(rng.choice((NOZ, op(rng.randrange(4), rng.randrange(4)))), op(rng.randrange(4), rng.randrange(4))) for _ in range(k)])


add('_z_joining_with_z_terms', spec_z_joins_z, [OP, HOP, OP, OP], props=['C04'], cases=cases_lhlr, argnames=['LHS', 'h', 'left_z', 'right_z'])
add('_generate_valid_z_n_operator_permutations', spec_valid_z_products, [OP, HOP, TList(TFixed([OP, OP], kind='tuple'))], props=['C04'],
    cases=cases_zlist, argnames=['LHS', 'h', 'all_z_permutations'])


# ---------------------------------------------------------------- C05
def three_way(k):
    """(lhs, h, other z) shares of k indices"""
    return [(a, b, k - (a + b)) for a in range(k + 1) for b in range(k + 1) if a + b <= k]


def z_upper(LHS, h, l, r):
    return [(x, y) for x in three_way(l.m) for y in three_way(r.m)
            if x[0] + y[0] <= LHS.n and x[1] + y[1] <= h.n and x[2] <= r.n and y[2] <= l.n]


def z_lower(LHS, h, l, r):
    return [(x, y) for x in three_way(l.n) for y in three_way(r.n)
            if x[0] + y[0] <= LHS.m and x[1] + y[1] <= h.m and x[2] <= r.m and y[2] <= l.m]


def spec_z_splits(LHS, h, z_term_list, log_invalid=True):
    return z_upper(LHS, h, z_term_list[0], z_term_list[1]), z_lower(LHS, h, z_term_list[0], z_term_list[1])


def mk_left(z, u, l):
    return (disconnected_z_left_operator_namedtuple if u[1] == 0 and l[1] == 0 else connected_z_left_operator_namedtuple)(
        rank=z.rank, m=z.m, n=z.n, m_lhs=u[0], m_h=u[1], m_r=u[2], n_lhs=l[0], n_h=l[1], n_r=l[2])


def mk_right(z, u, l):
    return (disconnected_z_right_operator_namedtuple if u[1] == 0 and l[1] == 0 else connected_z_right_operator_namedtuple)(
        rank=z.rank, m=z.m, n=z.n, m_lhs=u[0], m_h=u[1], m_l=u[2], n_lhs=l[0], n_h=l[1], n_l=l[2])


def spec_z_connections(LHS, h, valid_z_permutations, found_it_bool=False):
    return [
        [None if p[0].name is None else mk_left(p[0], u[0], l[0]), None if p[1].name is None else mk_right(p[1], u[1], l[1])]
        for p in valid_z_permutations
        for u in z_upper(LHS, h, p[0], p[1])
        for l in z_lower(LHS, h, p[0], p[1])
        if p[0].name is None or p[1].name is None or (u[0][2] == l[1][2] and l[0][2] == u[1][2])
    ]


def cases_zsplit(tier, rng):
    for _ in range(sized(tier, 900, 9000)):
        l = rng.choice((NOZ, op(rng.randrange(4), rng.randrange(4))))
        r = op(rng.randrange(4), rng.randrange(4)) if rng.random() < .8 or l is NOZ else NOZ
        yield op(rng.randrange(4), rng.randrange(4)), hop(rng.randrange(4), rng.randrange(4)), (l, r)


def cases_zconn(tier, rng):
    for _ in range(sized(tier, 250, 2500)):
        ps = []
        for _ in range(rng.randrange(3)):
            l = rng.choice((NOZ, op(rng.randrange(3), rng.randrange(3))))
            r = op(rng.randrange(3), rng.randrange(3)) if rng.random() < .8 or l is NOZ else NOZ
            ps.append((l, r))
        yield op(rng.randrange(4), rng.randrange(4)), hop(rng.randrange(4), rng.randrange(4)), ps


NOZT = TConst(NOZ)
add('_generate_all_valid_z_connection_permutations', spec_z_splits, variants=[
    [OP, HOP, TFixed([a, b], kind='tuple')] for a, b in ((NOZT, OP), (OP, NOZT), (OP, OP))],
    props=['C05'], cases=cases_zsplit, argnames=['LHS', 'h', 'z_term_list'], budget=60)
add('_generate_all_o_h_z_connection_permutations', spec_z_connections, variants=[
    [OP, HOP, TList(TFixed([a, b], kind='tuple'))] for a, b in ((NOZT, OP), (OP, NOZT))],   # z on both sides: bounded only (solver time)
    props=['C05'], cases=cases_zconn, argnames=['LHS', 'h', 'valid_z_permutations'], budget=120)


# ---------------------------------------------------------------- C06
def left_shares(l):
    return (l.m_lhs, l.n_lhs, l.m_h, l.n_h) if l is not None else (0, 0, 0, 0)


def z_labels(LHS, h, l, r):
    """the projection and Hamiltonian as labelled by their contractions with the z's"""
    a, b = left_shares(l), left_shares(r)
    return (
        connected_lhs_operator_namedtuple(
            rank=LHS.m + LHS.n, m=LHS.m, n=LHS.n, m_l=a[1], n_l=a[0], m_r=b[1], n_r=b[0],
            m_h=LHS.m - a[1] - b[1], n_h=LHS.n - a[0] - b[0]),
        connected_h_z_operator_namedtuple(
            rank=h.m + h.n, m=h.m, n=h.n, m_l=a[3], n_l=a[2], m_r=b[3], n_r=b[2],
            m_lhs=h.m - a[3] - b[3], n_lhs=h.n - a[2] - b[2]))


def z_within(LHS, h, perms):
    return all(
        left_shares(p[0])[1] + left_shares(p[1])[1] <= LHS.m and left_shares(p[0])[0] + left_shares(p[1])[0] <= LHS.n
        and left_shares(p[0])[3] + left_shares(p[1])[3] <= h.m and left_shares(p[0])[2] + left_shares(p[1])[2] <= h.n
        for p in perms)


def spec_z_explicit(LHS, h, unique_s_permutations):
    return [
        [z_labels(LHS, h, p[0], p[1])[0], z_labels(LHS, h, p[0], p[1])[1], p]
        for p in unique_s_permutations
        if z_labels(LHS, h, p[0], p[1])[1].m_lhs == z_labels(LHS, h, p[0], p[1])[0].n_h
        and z_labels(LHS, h, p[0], p[1])[1].n_lhs == z_labels(LHS, h, p[0], p[1])[0].m_h
    ]


def zsum_rank(d):
    return simp(d['m'] + d['n'])


def touch(d):
    return z3.Or(d['m_h'] > 0, d['n_h'] > 0)


def zt(ct, cf, last):
    f = dict(m_lhs=TInt(), n_lhs=TInt(), m_h=TInt(), n_h=TInt())
    f['m_' + last] = TInt()
    f['n_' + last] = TInt()
    return TAlt(ct, cf, touch, rank=TInt(), m=TInt(), n=TInt(), **f)


ZL = zt(connected_z_left_operator_namedtuple, disconnected_z_left_operator_namedtuple, 'r')
ZR = zt(connected_z_right_operator_namedtuple, disconnected_z_right_operator_namedtuple, 'l')


def rnd_zl(rng):
    v = [rng.choice((0, 0, 1, 2)) for _ in range(6)]
    return mk_left(op(v[0] + v[1] + v[2], v[3] + v[4] + v[5]), v[:3], v[3:])


def rnd_zr(rng):
    v = [rng.choice((0, 0, 1, 2)) for _ in range(6)]
    return mk_right(op(v[0] + v[1] + v[2], v[3] + v[4] + v[5]), v[:3], v[3:])


def cases_zexp(tier, rng):
    for _ in range(sized(tier, 4000, 40000)):
        ps = []
        for _ in range(rng.randrange(1, 3)):
            k = rng.randrange(4)
            ps.append([rnd_zl(rng) if k else None, rnd_zr(rng) if k != 1 else None])
        a, b = left_shares(ps[0][0]), left_shares(ps[0][1])
        x, y = rng.randrange(3), rng.randrange(3)
        yield op(a[1] + b[1] + x, a[0] + b[0] + y), hop(a[3] + b[3] + y, a[2] + b[2] + x + rng.choice((0, 0, 0, 1))), ps


NONE = TConst(None)
add('_generate_explicit_z_connections', spec_z_explicit, variants=[
    [OP, HOP, TList(TFixed([a, b]))] for a, b in ((NONE, ZR), (ZL, NONE), (ZL, ZR))],
    requires=z_within, props=['C06'], cases=cases_zexp, argnames=['LHS', 'h', 'unique_s_permutations'])


def claim_z_conservation(LHS, h, perms):
    ts = spec_z_explicit(LHS, h, perms)
    return [
        all(t[0].m_l + t[0].m_r + t[0].m_h == LHS.m and t[0].n_l + t[0].n_r + t[0].n_h == LHS.n
            and t[1].m_l + t[1].m_r + t[1].m_lhs == h.m and t[1].n_l + t[1].n_r + t[1].n_lhs == h.n for t in ts),
        all(t[0].m_h == t[1].n_lhs and t[0].n_h == t[1].m_lhs for t in ts),
        all(t[0].m_h >= 0 and t[0].n_h >= 0 and t[1].m_lhs >= 0 and t[1].n_lhs >= 0 for t in ts),
    ]


for nm, a, b in (('HZ', NONE, ZR), ('ZH', ZL, NONE), ('ZHZ', ZL, ZR)):
    LEMMAS.append(('C06', Lemma(f'{nm}: every labelled term conserves and pairs all indices', [OP, HOP, TList(TFixed([a, b]))],
                                claim_z_conservation, requires=z_within)))


# ---------------------------------------------------------------- C08 f contributions
def cases_zz(tier, rng):
    for _ in range(sized(tier, 500, 5000)):
        yield rnd_zl(rng), rnd_zr(rng)


CHZ = TRec(connected_h_z_operator_namedtuple, rank=rank_of, m=TInt(), n=TInt(), m_lhs=TInt(), n_lhs=TInt(), m_l=TInt(), n_l=TInt(), m_r=TInt(), n_r=TInt())


def h_for(l, r, x=0, y=0):
    a, b = left_shares(l), left_shares(r)
    m, n = a[3] + b[3] + x, a[2] + b[2] + y
    return connected_h_z_operator_namedtuple(rank=m + n, m=m, n=n, m_lhs=x, n_lhs=y, m_l=a[3], n_l=a[2], m_r=b[3], n_r=b[2])


def cases_lh(tier, rng):
    for _ in range(sized(tier, 500, 5000)):
        l = rnd_zl(rng)
        yield l, h_for(l, None, rng.randrange(2), rng.randrange(2))


def cases_hr(tier, rng):
    for _ in range(sized(tier, 500, 5000)):
        r = rnd_zr(rng)
        yield h_for(None, r, rng.randrange(2), rng.randrange(2)), r


add('_f_zL_h_contributions', lambda z_left, h: z_left.m_h, [ZL, CHZ], requires=lambda z, h: z.m_h == h.n_l and z.n_h == h.m_l,
    props=['C08'], cases=cases_lh, argnames=['z_left', 'h'])
add('_fbar_zL_h_contributions', lambda z_left, h: z_left.n_h, [ZL, CHZ], requires=lambda z, h: z.m_h == h.n_l and z.n_h == h.m_l,
    props=['C08'], cases=cases_lh, argnames=['z_left', 'h'])
add('_f_h_zR_contributions', lambda h, z_right: z_right.n_h, [CHZ, ZR], requires=lambda h, z: z.m_h == h.n_r and z.n_h == h.m_r,
    props=['C08'], cases=cases_hr, argnames=['h', 'z_right'])
add('_fbar_h_zR_contributions', lambda h, z_right: z_right.m_h, [CHZ, ZR], requires=lambda h, z: z.m_h == h.n_r and z.n_h == h.m_r,
    props=['C08'], cases=cases_hr, argnames=['h', 'z_right'])
add('_f_zL_zR_contributions', lambda z_left, z_right: z_left.m_r, [ZL, ZR], requires=lambda l, r: l.m_r == r.n_l and l.n_r == r.m_l,
    props=['C08'], argnames=['z_left', 'z_right'])
add('_fbar_zL_zR_contributions', lambda z_left, z_right: z_left.n_r, [ZL, ZR], requires=lambda l, r: l.m_r == r.n_l and l.n_r == r.m_l,
    props=['C08'], argnames=['z_left', 'z_right'])


# ---------------------------------------------------------------- the z term pipeline, bounded
def z_reference(LHS, H, ZL_, ZR_):
    out = []
    ls = [NOZ] if ZL_ is None else ZL_.operator_list
    rs = [NOZ] if ZR_ is None else ZR_.operator_list
    for h in H.operator_list:
        valid = [(l, r) for l in ls for r in rs if z_product_is_valid(LHS, h, l, r)]
        out += spec_z_explicit(LHS, h, spec_z_connections(LHS, h, valid))
    return out


def zfreeze(t):
    return (type(t[0]).__name__, tuple(t[0]), tuple(t[1]), tuple((type(z).__name__, z) for z in t[2]))


def z_configs(tier):
    yield 2, 2, True
    yield 2, 2, False
    yield 3, 3, True
    yield 6, 5, True
    yield 3, 2, False
    if tier != 'quick':
        yield 4, 3, False
        yield 6, 6, True


def z_side_choices(Zop, gs):
    return [(None, Zop)] if gs else [(None, Zop), (Zop, None), (Zop, Zop)]


def run_zpipe(check):
    def run(tier, rng, deadline):
        for hr, cc, gs in z_configs(tier):
            H = Z.generate_full_cc_hamiltonian_operator(hr)
            Zop = Z.generate_z_operator(cc, gs)
            for LHS in Z.generate_omega_operator(cc, min(cc, 6)).operator_list:
                for l, r in z_side_choices(Zop, gs):
                    if l is not None and r is not None and LHS.rank + hr > 5:
                        continue
                    got = []
                    Z._filter_out_valid_z_terms(LHS, H, l, r, got)
                    yield (f'H rank {hr}, cc rank {cc}, ground={gs}, LHS {LHS.name!r}, left z {l is not None}, right z {r is not None}',
                           check(LHS, H, l, r, got))
    return run


def z_check_terms(LHS, H, l, r, got):
    want = sorted(map(repr, map(zfreeze, z_reference(LHS, H, l, r))))
    have = sorted(map(repr, map(zfreeze, got)))
    if want != have:
        return f'terms differ: missing {[w for w in want if w not in have][:2]}, unexpected or repeated {[x for x in have if x not in want or have.count(x) > 1][:2]}'


def z_check_balance(LHS, H, l, r, got):
    for t in got:
        a, b = left_shares(t[2][0]), left_shares(t[2][1])
        L, h = t[0], t[1]
        if (L.m_h + a[1] + b[1], L.n_h + a[0] + b[0]) != (LHS.m, LHS.n):
            return f'projection indices not accounted for: {t}'
        if (h.m_lhs + a[3] + b[3], h.n_lhs + a[2] + b[2]) != (h.m, h.n):
            return f'Hamiltonian indices not accounted for: {t}'
        if (L.m_h, L.n_h) != (h.n_lhs, h.m_lhs):
            return f'projection and Hamiltonian disagree: {t}'


ZB = 'H rank <= 6, z rank <= 6, every projection, ground state (z right) and excited state (z left, right, both for small rank)'
for p in ('C04', 'C05'):
    BOUNDED.append((p, Bounded('z terms against the independent enumeration', run_zpipe(z_check_terms), ZB, ['_filter_out_valid_z_terms'])))
BOUNDED.append(('C06', Bounded('z terms balance', run_zpipe(z_check_balance), ZB, ['_filter_out_valid_z_terms'])))
