"""Contracts on truncations, truncation_keys and the driver's argument handling."""
import json
import os
from contracts.common import *
import truncations as T
from truncation_keys import TruncationsKeys as K
import truncation_keys

CONTRACTS, LEMMAS, BOUNDED = [], [], []

MAXIMA = {
    'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6, 'omega_max_order': 6,
    'maximum_T_rank': 1, 'eT_taylor_max_order': 8,
}
ZHZ = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'omega_max_order']
FCC = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order']
ETZ = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'maximum_T_rank', 'eT_taylor_max_order', 'omega_max_order']
ALLKEYS = list(K)


# ---------------------------------------------------------------- C01 the truncation gate
def accepted(truncations, names):
    if len(truncations) != len(names):
        return False
    for name in names:
        if K(name) not in truncations:
            return False
    return all(1 <= truncations[K(name)] and truncations[K(name)] <= MAXIMA[name] for name in names)


def spec_verify_zhz(truncations):
    assert accepted(truncations, ZHZ)


def spec_verify_fcc(truncations):
    assert accepted(truncations, FCC)


def spec_verify_etz(truncations):
    assert accepted(truncations, ETZ)


def key_subsets():
    for r in range(len(ALLKEYS) + 1):
        for ks in itertools.combinations(ALLKEYS, r):
            yield ks


ANYINT = TInt(lo=None)
# every subset of the six keys, values unconstrained integers; plus dictionaries holding a foreign key
SYMDICTS = [[TDict([(k, ANYINT) for k in ks])] for ks in key_subsets()]
SYMDICTS += [[TDict([(k, ANYINT) for k in ks] + [('bogus', ANYINT)])] for ks in key_subsets() if len(ks) in (3, 4, 5)]


def cases_dicts(tier, rng):
    for ks in key_subsets():
        yield ({k: 1 for k in ks},)
        yield ({k: MAXIMA[k.value] for k in ks},)
        for k in ks:
            for v in (0, -1, MAXIMA[k.value] + 1, 10 ** 6):
                yield ({q: (v if q is k else 1) for q in ks},)
        yield ({**{k: 1 for k in ks}, 'bogus': 1},)
    for _ in range(sized(tier, 300, 5000)):
        ks = rng.sample(ALLKEYS, rng.randrange(3, 7))
        yield ({k: rng.randrange(0, MAXIMA[k.value] + 2) for k in ks},)
    for names in (ZHZ, FCC, ETZ):
        # string keys are not the enum members the gate asks for
        yield ({n: 1 for n in names},)


for f, s in (('_verify_zhz_truncations', spec_verify_zhz), ('_verify_fcc_truncations', spec_verify_fcc), ('_verify_eT_z_t_truncations', spec_verify_etz)):
    CONTRACTS.append(C('truncations', f, s, variants=SYMDICTS, props=['C01'], cases=cases_dicts, argnames=['truncations'], raises='any', budget=30,
                       modular=False))


def spec_key_type(dictionary):
    if len(dictionary) == 3:
        return 'zhz'
    if len(dictionary) == 4:
        return 'fcc'
    if len(dictionary) == 5:
        return 'eTz'
    raise Exception('invalid')


def spec_key_type_m(cls, dictionary):
    return spec_key_type(dictionary)


def cases_lens(tier, rng):
    for n in range(9):
        yield (tuple(range(n)),)
        yield ({k: 1 for k in range(n)},)


# the entry points refuse anything the gate refuses
def entry_points():
    out = []
    import latex_full_cc, latex_eT_zhz, latex_zhz, code_full_cc, code_eT_zhz
    out.append(('latex_full_cc.generate_full_cc_latex', latex_full_cc, 'generate_full_cc_latex', FCC, {}))
    out.append(('code_full_cc.generate_full_cc_python', code_full_cc, 'generate_full_cc_python', FCC, {}))
    out.append(('latex_zhz.generate_z_t_symmetric_latex', latex_zhz, 'generate_z_t_symmetric_latex', ZHZ, {}))
    out.append(('latex_eT_zhz.generate_eT_z_t_symmetric_latex', latex_eT_zhz, 'generate_eT_z_t_symmetric_latex', ETZ, {}))
    out.append(('code_eT_zhz.generate_eT_zhz_python', code_eT_zhz, 'generate_eT_zhz_python', ETZ, {}))
    return out


OPTIONS = {'only_ground_state': True, 'remove_f_terms': False, 'lhs_rhs': 'RHS', 'ansatz': None}


def run_entry(tier, rng, deadline):
    for name, mod, fn, names, kw in entry_points():
        f = getattr(mod, fn, None)
        if f is None:
            continue
        bad = [{K(n): (0 if n == m else 1) for n in names} for m in names]
        bad += [{K(n): (MAXIMA[m] + 1 if n == m else 1) for n in names} for m in names]
        bad += [{K(n): 1 for n in names if n != m} for m in names]
        bad += [{K(n): 1 for n in o} for o in (ZHZ, FCC, ETZ) if o is not names]
        bad += [{}]
        for d in bad:
            p = os.path.join(os.getcwd(), f'never{os.getpid()}.out')
            if os.path.exists(p):
                os.remove(p)
            try:
                f(d, path=p, **OPTIONS)
                fail = f'{name} accepts truncations the gate rejects and generates output'
            except Exception:
                fail = 'wrote a file before rejecting' if os.path.exists(p) else None
            yield (f'{name}({ {k.name: v for k, v in d.items()} })', fail)
        for d in [{K(n): (MAXIMA[n] if n == m else 1) for n in names} for m in names] + [{K(n): 2 if MAXIMA[n] > 1 else 1 for n in names}]:
            for lhs_rhs in ('LHS', 'RHS'):
                try:
                    f(d, path=p, **{**OPTIONS, 'lhs_rhs': lhs_rhs})
                    fail = None if os.path.exists(p) else 'no output file'
                    os.remove(p)
                except Exception as e:
                    fail = f'rejected an acceptable truncation: {e!r}'
                yield (f'{name}({ {k.name: v for k, v in d.items()} }) is accepted', fail)


BOUNDED.append(('C01', Bounded('entry points reject what the gate rejects', run_entry,
                               'every generator entry point x (each key missing, zero or one over its maximum; the other ansaetze\' key sets; empty), and each key at its maximum accepted',
                               ['generate_* entry points'])))


# ---------------------------------------------------------------- C02 key conversion and JSON round trip
def spec_to_strings(cls, input_dict):
    for key in list(input_dict.keys()):
        if isinstance(key, K):
            v = input_dict[key]
            del input_dict[key]
            input_dict[key.value] = v


def claim_convert(d):
    before = dict(d)
    K.change_dictionary_keys_from_enum_members_to_strings(d)
    mid_ok = d == {k.value: before[k] for k in before}
    K.change_dictionary_keys_from_strings_to_enum_members(d)
    return [mid_ok, d == before]


def claim_roundtrip(d):
    before = dict(d)
    T.save_trunc_to_JSON('scratch_truncs.json', d)
    untouched = d == before
    r = T.load_trunc_from_JSON('scratch_truncs.json')
    return [untouched, r == before]


def claim_file(d):
    before = dict(d)
    T.save_trunc_to_JSON('scratch_truncs.json', d)
    with open('scratch_truncs.json', mode='r', encoding='UTF8') as f:
        raw = json.loads(f.read())
    return [raw == {k.value: before[k] for k in before}]


def in_range_dict(names):
    return [TDict([(K(n), TInt(1, MAXIMA[n])) for n in names])]


for nm, names in (('zhz', ZHZ), ('fcc', FCC), ('eTz', ETZ)):
    LEMMAS.append(('C02', Lemma(f'saving and loading {nm} truncations gives them back', in_range_dict(names), claim_roundtrip)))
    LEMMAS.append(('C02', Lemma(f'{nm} keys survive conversion to strings and back', in_range_dict(names), claim_convert)))
    LEMMAS.append(('C02', Lemma(f'the file of {nm} truncations maps the name of every key to its value', in_range_dict(names), claim_file)))


def in_range_names(raw):
    for names in (ZHZ, FCC, ETZ):
        if len(raw) == len(names) and all(n in raw for n in names):
            return all(1 <= raw[n] and raw[n] <= MAXIMA[n] for n in names)
    return False


def claim_load(raw):
    with open('scratch_truncs.json', mode='w', encoding='UTF8') as f:
        f.write(json.dumps(raw))
    try:
        r = T.load_trunc_from_JSON('scratch_truncs.json')
    except Exception:
        return [not in_range_names(raw)]
    return [in_range_names(raw), r == {K(n): raw[n] for n in raw}]


# files with every subset of the six names, the values unconstrained integers; and files with a name that is none of them
for names in key_subsets():
    LEMMAS.append(('C02', Lemma('loading a file with the names ' + (', '.join(k.name for k in names) or '(none)'),
                                [TDict([(k.value, ANYINT) for k in names])], claim_load)))
for names in (ZHZ, FCC, ETZ):
    for drop in names:
        LEMMAS.append(('C02', Lemma(f'loading a file with a foreign name in place of {drop}, {len(names)} names',
                                    [TDict([(n if n != drop else 'bogus', ANYINT) for n in names])], claim_load)))


def run_json(tier, rng, deadline):
    p = os.path.join(os.getcwd(), 'truncs_case.json')
    n = 0
    combos = []
    for names in (ZHZ, FCC, ETZ):
        ds = [dict(zip((K(n) for n in names), vals)) for vals in itertools.product(*[range(1, MAXIMA[n] + 1) for n in names])]
        rng.shuffle(ds)
        combos += ds[:sized(tier, 250, 10 ** 6)]
        for perm in itertools.islice(itertools.permutations(names), 6):
            combos.append({K(n): 1 for n in perm})
    for i, d in enumerate(combos):
        before = dict(d)
        fail = None
        try:
            if i % 3 == 0 and os.path.exists(p):
                os.remove(p)
            elif i % 3 == 1:
                with open(p, 'w') as f:
                    f.write('{' + 'x' * 500 + '}')      # whatever the file held before is gone
            T.save_trunc_to_JSON(p, d)
            raw = json.load(open(p))
            r = T.load_trunc_from_JSON(p)
            if d != before:
                fail = f'saving changed the dictionary to {d}'
            elif raw != {k.value: v for k, v in before.items()}:
                fail = f'file holds {raw}'
            elif r != before:
                fail = f'loaded {r}'
            else:
                r.clear()                                   # the caller's dictionary is its own
                r = T.load_trunc_from_JSON(p)
                fail = None if r == before else f'loaded {r} the second time'
        except Exception as e:
            fail = f'raised {type(e).__name__}: {e}'
        yield (f'{ {k.name: v for k, v in before.items()} }', fail)
    # a file that does not hold a valid set of truncations is not accepted
    for names in (ZHZ, FCC, ETZ):
        for m in names:
            for bad in (0, -3, MAXIMA[m] + 1):
                raw = {n: (bad if n == m else 1) for n in names}
                json.dump(raw, open(p, 'w'))
                try:
                    r = T.load_trunc_from_JSON(p)
                    fail = f'accepted as {r}'
                except Exception:
                    fail = None
                yield (f'file {raw}', fail)
        for m in set(MAXIMA) - set(names):
            raw = {n: 1 for n in names[:-1] + [m]}
            if any(set(raw) == set(o) for o in (ZHZ, FCC, ETZ)):
                continue
            json.dump(raw, open(p, 'w'))
            try:
                r = T.load_trunc_from_JSON(p)
                fail = f'accepted as {r}'
            except Exception:
                fail = None
            yield (f'file {raw}', fail)


BOUNDED.append(('C02', Bounded('truncations through a real file', run_json, 'all in-range value combinations at thorough, 250 per ansatz at quick; every single out-of-range file value', ['_save_to_JSON', '_load_from_JSON'])))
