"""Option handling: the driver script and the glue that picks a generator."""
import contextlib
import importlib
import io
import os
import runpy
import shutil
import sys
from contracts.common import *
from contracts.trunc import ZHZ, FCC, ETZ, MAXIMA, K
import truncations
import _glue_

CONTRACTS, LEMMAS, BOUNDED = [], [], []
NAMES = {'full cc': FCC, 'z_t ansatz': ZHZ, 'eT_z_t ansatz': ETZ}
GENERATORS = [
    ('latex_full_cc', 'generate_full_cc_latex'), ('latex_zhz', 'generate_z_t_symmetric_latex'), ('latex_eT_zhz', 'generate_eT_z_t_symmetric_latex'),
    ('code_full_cc', 'generate_full_cc_python'), ('code_eT_zhz', 'generate_eT_zhz_python'),
]
ROUTE = {
    ('latex', 'full cc'): 'generate_full_cc_latex', ('latex', 'z_t ansatz'): 'generate_z_t_symmetric_latex', ('latex', 'eT_z_t ansatz'): 'generate_eT_z_t_symmetric_latex',
    ('python', 'full cc'): 'generate_full_cc_python', ('python', 'eT_z_t ansatz'): 'generate_eT_zhz_python',
}


def file_name(kind, ansatz, gs, rf, side, trunc):
    if kind == 'python' and ansatz == 'eT_z_t ansatz':
        return (f'./eT_zhz_eqs_{side}_H({trunc[K.H]})_P({trunc[K.P]})_T({trunc[K.T]})_exp({trunc[K.eT]})_Z({trunc[K.CC]}).py')
    what = {'full cc': 'full_cc', 'z_t ansatz': 'z_t', 'eT_z_t ansatz': 'eT_z_t'}[ansatz]
    if kind == 'python':
        part = 'equations' if side == 'RHS' else 'special_LHS_equations'
    else:
        part = 'symmetric_equations' if side == 'RHS' else 'special_LHS_terms'
    return './' + ('ground_state_' if gs else '') + what + '_' + part + ('_no_f_terms' if rf else '') + ('.py' if kind == 'python' else '.tex')


# ---------------------------------------------------------------- proof: which generator is called, with what
GHOST = []      # ghost state: the generator calls made so far


def g_lfcc(truncations, kwargs):
    GHOST.append(('generate_full_cc_latex', dict(truncations), kwargs['path'], kwargs['only_ground_state'], kwargs['remove_f_terms'], kwargs['lhs_rhs']))


def g_lzhz(truncations, kwargs):
    GHOST.append(('generate_z_t_symmetric_latex', dict(truncations), kwargs['path'], kwargs['only_ground_state'], kwargs['remove_f_terms'], kwargs['lhs_rhs']))


def g_letz(truncations, kwargs):
    GHOST.append(('generate_eT_z_t_symmetric_latex', dict(truncations), kwargs['path'], kwargs['only_ground_state'], kwargs['remove_f_terms'], kwargs['lhs_rhs']))


def g_cfcc(truncations, kwargs):
    GHOST.append(('generate_full_cc_python', dict(truncations), kwargs['path'], kwargs['only_ground_state'], kwargs['remove_f_terms'], kwargs['lhs_rhs']))


def g_cetz(truncations, kwargs):
    GHOST.append(('generate_eT_zhz_python', dict(truncations), kwargs['path'], kwargs['only_ground_state'], kwargs['remove_f_terms'], kwargs['lhs_rhs']))


for (m, f), g in zip(GENERATORS, (g_lfcc, g_lzhz, g_letz, g_cfcc, g_cetz)):
    c = C(m, f, g, props=())
    c.ghost = True
    CONTRACTS.append(c)


def route_claim(kind, ansatz):
    def claim(trunc, gs, rf, lhs):
        GHOST.clear()
        side = 'LHS' if lhs else 'RHS'
        if kind == 'latex':
            _glue_._generate_latex(trunc, ansatz=ansatz, only_ground_state=gs, remove_f_terms=rf, lhs_rhs=side)
        else:
            _glue_._generate_python(trunc, ansatz=ansatz, only_ground_state=gs, remove_f_terms=rf, lhs_rhs=side)
        return GHOST == [(ROUTE[kind, ansatz], trunc, file_name(kind, ansatz, gs, rf, side, trunc), gs, rf, side)]
    return claim


ANYTRUNC = {a: TDict([(K(n), TInt(lo=None)) for n in names]) for a, names in NAMES.items()}
for kind, ansatz in ROUTE:
    LEMMAS.append(('C14', Lemma(f'{kind} of the {ansatz} ansatz calls its generator once with the given options and file name'.replace(' ansatz ansatz', ' ansatz'),
                                [ANYTRUNC[ansatz], TBool(), TBool(), TBool()], route_claim(kind, ansatz))))


# ---------------------------------------------------------------- bounded: every option combination, real modules
@contextlib.contextmanager
def recorded(fail_on=()):
    """replace the generators at their source and let the glue import the replacements"""
    calls, saved = [], []
    for m, f in GENERATORS:
        mod = importlib.import_module(m)
        if not hasattr(mod, f):
            continue
        saved.append((mod, f, getattr(mod, f)))

        def rec(truncations, *a, _f=f, **kw):
            calls.append((_f, dict(truncations), kw.get('path'), kw.get('only_ground_state'), kw.get('remove_f_terms'), kw.get('lhs_rhs')))
        setattr(mod, f, rec)
    try:
        importlib.reload(_glue_)
        yield calls
    finally:
        for mod, f, o in saved:
            setattr(mod, f, o)
        importlib.reload(_glue_)


def some_trunc(names, rng):
    return {K(n): rng.randrange(1, MAXIMA[n] + 1) for n in names}


def run_glue(tier, rng, deadline):
    """all calls in one process and module: an option left out takes its default whatever was given before"""
    with recorded() as log:
        @contextlib.contextmanager
        def one():
            log.clear()
            yield log

        for kind in ('latex', 'python'):
            for ansatz, names in NAMES.items():
                for gs, rf, side in itertools.product((True, False, None), (True, False, None), ('LHS', 'RHS', None)):
                    for given in (True, False):
                        if not given and ansatz != 'full cc':
                            continue
                        tr = some_trunc(names, rng)
                        kw = {k: v for k, v in (('only_ground_state', gs), ('remove_f_terms', rf), ('lhs_rhs', side)) if v is not None}
                        if given:
                            kw['ansatz'] = ansatz
                        egs, erf, es = gs is not False, rf is True, side or 'RHS'
                        what = f'{kind}({ {k.name: v for k, v in tr.items()} }, {kw})'
                        with one() as calls:
                            try:
                                (_glue_._generate_latex if kind == 'latex' else _glue_._generate_python)(dict(tr), **kw)
                                err = None
                            except Exception as e:
                                err = e
                        if (kind, ansatz) not in ROUTE:
                            yield what, None if err is not None and not calls else 'no exception for an ansatz without code generator'
                            continue
                        want = (ROUTE[kind, ansatz], tr, file_name(kind, ansatz, egs, erf, es, tr), egs, erf, es)
                        yield what, (f'raised {err!r}' if err is not None else None if calls == [want] else f'generator calls {list(calls)}, expected {[want]}')
                for other, onames in NAMES.items():
                    if other == ansatz:
                        continue
                    with one() as calls:
                        try:
                            (_glue_._generate_latex if kind == 'latex' else _glue_._generate_python)(some_trunc(onames, rng), ansatz=ansatz)
                            bad = 'accepted'
                        except Exception:
                            bad = 'called a generator' if calls else None
                    yield f'{kind} of {ansatz} with the truncations of {other}', bad
            for ansatz in ('', 'full_cc', 'FULL CC', 'z_t', None):
                for names in (ZHZ, FCC, ETZ):
                    with one() as calls:
                        try:
                            (_glue_._generate_latex if kind == 'latex' else _glue_._generate_python)(some_trunc(names, rng), ansatz=ansatz)
                            bad = 'accepted'
                        except Exception:
                            bad = 'called a generator' if calls else None
                    yield f'{kind} of unknown ansatz {ansatz!r}', bad


BOUNDED.append(('C14', Bounded('every combination of given and omitted options picks the right generator, options and file', run_glue,
                               'complete over ansatz, kind and option values (given or omitted); truncation values sampled',
                               ['_generate_latex', '_generate_python', '_gen_wrapper_*'])))


def DRV():
    return f'drv{os.getpid()}'


def RUN():
    return DRV() + '/run'


def drive(argv):
    """run driver.py as a script inside its own scratch directory; returns exception"""
    d = importlib.import_module('driver').__file__
    old, cwd = sys.argv, os.getcwd()
    import log_conf
    keep = log_conf.get_filebased_logger
    os.makedirs(RUN(), exist_ok=True)
    os.chdir(RUN())
    sys.argv = [d] + argv
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(d, run_name='__main__')
        return None
    except BaseException as e:
        return e
    finally:
        sys.argv = old
        os.chdir(cwd)


def run_driver(tier, rng, deadline):
    base = os.getcwd()
    for code in (False, True):
        for ansatz, names in NAMES.items():
            for named, es, lhs in itertools.product((True, False), (True, False), (True, False)):
                for rf in (None, 'True', 'False', 'true', '0'):
                    for via_file in (False, True):
                        tr = some_trunc(names, rng)
                        argv = []
                        shutil.rmtree(os.path.join(base, DRV()), ignore_errors=True)
                        os.makedirs(RUN())
                        if via_file:
                            truncations.save_trunc_to_JSON(RUN() + '/in.json', tr)
                            argv += ['-p', 'in.json']
                        else:
                            argv += ['-t'] + [str(tr[K(n)]) for n in names]
                        argv += ['-c'] * code + (['-a', ansatz] if named else []) + ['-es'] * es + ['-lhs'] * lhs + (['-rf', rf] if rf is not None else [])
                        side = 'LHS' if lhs else 'RHS'
                        frm = rf in ('True', 'true')
                        with recorded() as calls:
                            err = drive(argv)
                        kind = 'python' if code else 'latex'
                        if (kind, ansatz) not in ROUTE:
                            yield ' '.join(argv), None if err is not None and not calls else 'no exception for an ansatz without code generator'
                            continue
                        want = (ROUTE[kind, ansatz], tr, file_name(kind, ansatz, not es, frm, side, tr), not es, frm, side)
                        bad = f'raised {err!r}' if err is not None else None if calls == [want] else f'generator calls {list(calls)}, expected {[want]}'
                        if not bad and not via_file:
                            saved = truncations.load_trunc_from_JSON(DRV() + '/truncs.json')
                            if saved != tr:
                                bad = f'saved truncations {saved}'
                        yield ' '.join(argv), bad
    shutil.rmtree(os.path.join(base, DRV()), ignore_errors=True)
    for argv in (['-t', '1', '1', '1', '1', '-p', 'in.json'], [], ['-t', '1', '1'], ['-t'] + ['1'] * 6, ['-p', 'missing.json'],
                 ['-t', '1', '1', '1', '1', '-a', 'no such'], ['-t', '1', '1', '1', '1', '-a', 'z_t ansatz'], ['-t', '1', '1', 'x', '1'],
                 ['-t', '1', '1', '1', '1', '-rf', 'perhaps']):
        with recorded() as calls:
            err = drive(argv)
        yield ' '.join(argv), 'accepted' if err is None or isinstance(err, SystemExit) and not err.code else ('called a generator' if calls else None)
    shutil.rmtree(os.path.join(base, DRV()), ignore_errors=True)


BOUNDED.append(('C14', Bounded('the driver script maps its command line to the right generator call', run_driver,
                               'every combination of -c, -a, -es, -lhs, -rf, -t/-p; truncation values sampled', ['driver.py'])))


def run_end(tier, rng, deadline):
    """real generators behind the driver: the file it names holds what the generator writes"""
    base = os.getcwd()
    for code in (False, True):
        for ansatz, names in NAMES.items():
            kind = 'python' if code else 'latex'
            if (kind, ansatz) not in ROUTE:
                continue
            for lhs in (False, True):
                for rf in (False, True):
                    tr = {K(n): 1 for n in names}
                    tr[K.P] = 2
                    shutil.rmtree(os.path.join(base, DRV()), ignore_errors=True)
                    err = drive(['-t'] + [str(tr[K(n)]) for n in names] + ['-c'] * code + ['-lhs'] * lhs + ['-rf', str(rf)])
                    what = f'{kind} of {ansatz}, LHS={lhs}, remove_f_terms={rf}'
                    if err is not None:
                        yield what, f'raised {err!r}'
                        continue
                    p = os.path.join(base, RUN(), file_name(kind, ansatz, True, rf, 'LHS' if lhs else 'RHS', tr))
                    if not os.path.exists(p):
                        yield what, f'no file {os.path.basename(p)}'
                        continue
                    mod = next(m for m, f in GENERATORS if f == ROUTE[kind, ansatz])
                    q = os.path.join(base, f'direct{os.getpid()}.out')
                    getattr(importlib.import_module(mod), ROUTE[kind, ansatz])(dict(tr), path=q, only_ground_state=True, remove_f_terms=rf,
                                                                              lhs_rhs='LHS' if lhs else 'RHS', ansatz=ansatz)
                    yield what, None if open(p).read() == open(q).read() else 'the file differs from what the generator writes for these options'
    shutil.rmtree(os.path.join(base, DRV()), ignore_errors=True)


BOUNDED.append(('C14', Bounded('files written through the driver', run_end, 'one small truncation per ansatz, kind, side and f-term setting', ['driver.py', 'generate_*'])))


# ---------------------------------------------------------------- _make_trunc for any integers
import driver


def spec_make_trunc(input_tuple):
    if len(input_tuple) == 3:
        names = ZHZ
    elif len(input_tuple) == 4:
        names = FCC
    elif len(input_tuple) == 5:
        names = ETZ
    else:
        raise Exception('bad')
    return {K(n): v for n, v in zip(names, input_tuple)}


def cases_make(tier, rng):
    for k in range(8):
        yield (tuple(rng.randrange(-3, 9) for _ in range(k)),)
        yield (tuple(range(k)),)


CONTRACTS.append(C('driver', '_make_trunc', spec_make_trunc, variants=[[TFixed([TInt(lo=None)] * k, kind='tuple')] for k in range(0, 8)],
                   props=['C14'], cases=cases_make, argnames=['input_tuple'], raises='any'))
