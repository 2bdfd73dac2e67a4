"""Runs every unit of one property, searches failing inputs, writes evidence."""
import copy
import importlib
import types
import inspect
import itertools
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = '/repo/termfactory'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lemma:
    """claim(*args) must be true for all inputs satisfying requires; it may call contracted functions (by contract)"""

    def __init__(self, name, params, claim, requires=None, budget=60, cases=None, facts=None):
        self.name, self.params, self.claim, self.requires, self.budget, self.cases = name, params, claim, requires, budget, cases
        self.facts = facts


class Bounded:
    """explicit stand-in: run(tier, rng, deadline) yields (case description, None | failure text); labelled bounded"""

    def __init__(self, name, run, bound, functions=(), whole=False):
        self.name, self.run, self.bound, self.functions = name, run, bound, functions
        self.whole = whole    # every case is reported, however long the run took
        # the cases only run the public generators and read their files back
        self.reads_files = any(re.fullmatch(r'generate_\w+_(latex|python|file)|\w+_state_w_equations_latex', f) for f in functions)


class Frame:
    """frame obligations (pyvc/effects.py) on every function reachable from the entry points"""

    def __init__(self, name, entries, assumptions=()):
        self.name, self.entries, self.assumptions = name, entries, assumptions


class Finding(Exception):
    pass


# ----------------------------------------------------------------- concrete side
def same(a, b):
    """equality that also distinguishes namedtuple classes and container types"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if hasattr(a, '_fields') or hasattr(b, '_fields'):
            if type(a) is not type(b):
                return False
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        # a plain tuple and a list with the same elements are interchangeable for every caller under contract
        if hasattr(a, '_fields') or hasattr(b, '_fields'):
            return False
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if a != b:
            return False
        cls = lambda s: sorted(map(deep_repr, s))
        return cls(a) == cls(b)
    if isinstance(a, bool) != isinstance(b, bool):
        return bool(a) == bool(b) and a in (0, 1) and b in (0, 1)
    return type(a) is type(b) and a == b or (a == b and not isinstance(a, (list, tuple, str, dict, set)))


def deep_repr(x):
    return repr(x)


def run_real(fn, args):
    try:
        return 'ok', fn(*args)
    except Exception as e:
        return 'raise', type(e).__name__


def observed(contract, r, args):
    """the result together with what the call left outside its arguments"""
    if r[0] == 'ok' and contract.observe is not None:
        return 'ok', (r[1], contract.observe(*args))
    return r


def replay(contract, fn, args):
    """None if real code meets the contract on these arguments, else a description"""
    try:
        if contract.requires is not None and not contract.requires(*copy.deepcopy(args)):
            return None
    except Exception:
        return None
    a1, a2 = copy.deepcopy(args), copy.deepcopy(args)
    r1 = observed(contract, run_real(fn, a1), a1)
    r2 = observed(contract, run_real(contract.spec, a2), a2)
    if r1[0] == 'raise' and r2[0] == 'raise' and (contract.raises == 'any' or r1[1] == r2[1]):
        return None
    if r1[0] != r2[0]:
        return f'outcome: real {short(r1)}, contract {short(r2)}'
    if r1[0] == 'raise':
        return f'exception class: real {r1[1]}, contract {r2[1]}'
    v1, v2 = r1[1], r2[1]
    norm = contract.norm
    if norm is not None:
        v1, v2 = norm(v1), norm(v2)
    elif contract.view is not None:
        v1, v2 = contract.view(v1), contract.view(v2)
    if not same(v1, v2):
        return f'result: real {short(v1)}, contract {short(v2)}'
    if contract.frame:
        for j, (x, y) in enumerate(zip(a1, a2)):
            if isinstance(x, (list, dict, set)) and not same(x, y):
                return f'argument {j} after the call: real {short(x)}, contract {short(y)}'
    return None


def short(x, n=1500):
    s = repr(x)
    return s if len(s) <= n else s[:n] + ' ...'


def params_of(fn):
    try:
        return [p.name for p in inspect.signature(fn).parameters.values()]
    except Exception:
        return None


def accepts(fn, n):
    try:
        inspect.signature(fn).bind(*range(n))
        return True
    except TypeError:
        return False
    except Exception:
        return True


# ----------------------------------------------------------------- worker
def quiet():
    sys.stdout = open(os.devnull, 'w')


def work(job):
    """executed in a forked worker; returns a plain dict"""
    kind, unit, idx, opts = job
    from . import verify as V
    t0 = time.time()
    out = {'unit': unit_name(unit) + (f'#{idx}' if idx else ''), 'kind': kind}
    # keep chatty code under test away from our stdout
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        if kind == 'prove':
            fn = resolve(unit)
            R = V.verify_function(unit, fn, opts['contracts'], opts['roots'], deadline=unit.budget * opts['scale'],
                                  params=(unit.variants[idx] if unit.variants else None))
            out.update(status=R.status, detail=R.detail, n=len(R.obligations), ok=sum(o.ok for o in R.obligations), z3s=R.solver_time,
                       queries=R.queries, failed=[(a, b, c) for a, b, c in R.failed][:5], paths=R.paths,
                       used=sorted('.'.join(u) for u in R.used), usedc=sorted('.'.join(u) for u in R.used_contracts),
                       assumptions=sorted(R.assumptions), names=sorted({o.name for o in R.obligations}))
            out['failed_names'] = sorted({o.name for o in R.obligations if not o.ok})[:10]
            out['normed'] = unit.norm is not None
            cex = None
            for args in R.inputs[:6]:
                try:
                    d = replay(unit, fn, args)
                except Exception:
                    continue
                if d:
                    cex = (args, d)
                    break
            out['cex'] = None if cex is None else (short(cex[0]), cex[1])
        elif kind == 'lemma':
            R = verify_lemma(V, unit, opts)
            out.update(R)
        elif kind == 'frame':
            from . import effects
            todo = []
            for m, f in unit.entries:
                g = getattr(importlib.import_module(m), f, None)
                if g is not None:
                    todo.append(g)
            fs = effects.Analysis([REPO]).run(todo)
            good = [f for f in fs if not f.problems and not f.sets]
            out.update(status='frame', detail='', n=sum(f.nob for f in fs), ok=sum(max(f.nob - len(f.problems) - len(f.sets), 0) for f in fs),
                       framed=[f.name for f in good], open=[f'{f.name} (frame): ' + '; '.join((f.problems + f.sets)[:3]) for f in fs if f not in good], cex=None)
        elif kind == 'cases':
            fn = resolve(unit)
            rng = random.Random(opts['seed'] * 7919 + 17)
            n, bad = 0, None
            seen = set()
            sample = None
            for args in unit.cases(opts['tier'], rng):
                if time.time() - t0 > opts['case_budget']:
                    break
                n += 1
                args = list(args)
                seen.add(hash(deep_repr(args)))
                d = replay(unit, fn, args)
                if sample is None:
                    sample = short(args, 300)
                if d:
                    bad = (short(args), d)
                    break
            out.update(n=n, cex=bad, sample=sample, distinct=len(seen))
        elif kind == 'bounded':
            rng = random.Random(opts['seed'] * 7919 + 17)
            n, bad, sample, known = 0, None, None, []
            seen = set()
            deadline = t0 + opts['case_budget']
            it = iter(unit.run(opts['tier'], rng, deadline))
            while True:
                try:
                    desc, fail = next(it)
                except StopIteration:
                    break
                except Exception as e:
                    fr = traceback.extract_tb(e.__traceback__)
                    if isinstance(e, AttributeError) and type(e.obj).__name__ == 'module':
                        raise
                    if not fr[-1].filename.startswith((REPO, '<gen')):
                        if not (unit.reads_files and isinstance(e, (ValueError, LookupError, AssertionError, FileNotFoundError, SyntaxError))):
                            raise
                        desc, fail = f'case {n + 1}', 'what the generator wrote cannot be read: ' + ''.join(traceback.format_exception(e))[-1500:]
                    else:
                        desc, fail = f'case {n + 1}', 'the code under verification raised: ' + ''.join(traceback.format_exception(e))[-1500:]
                n += 1
                seen.add(hash(str(desc)))
                if sample is None:
                    sample = str(desc)[:300]
                if fail:
                    if fail in opts['known']:
                        known.append(fail)
                        continue
                    bad = (str(desc)[:2000], str(fail)[:3000])
                    break
                if time.time() > deadline and not unit.whole:
                    break
            out.update(n=n, cex=bad, sample=sample, known=known, distinct=len(seen))
    except MissingTarget as e:
        out.update(status='absent', detail=str(e), n=0, cex=None)
    except Exception:
        out.update(status='error', detail=traceback.format_exc()[-2500:], n=0, cex=None)
    finally:
        sys.stdout = so
    out['wall'] = time.time() - t0
    return out


class MissingTarget(Exception):
    pass


def nested(o, name):
    """a function defined inside o that uses nothing of o's frame"""
    if not isinstance(o, types.FunctionType):
        return None
    found = [k for k in o.__code__.co_consts if isinstance(k, types.CodeType) and k.co_name == name and not k.co_freevars]
    if len(found) != 1:
        return None
    f = types.FunctionType(found[0], o.__globals__, name)
    f.__module__, f.__qualname__ = o.__module__, f'{o.__qualname__}.<locals>.{name}'
    return f


def resolve(c):
    m = importlib.import_module(c.module)
    o = m
    for part in c.func.split('.'):
        if not hasattr(o, part):
            o = nested(o, part)
            if o is None:
                raise MissingTarget(f'{c.module}.{c.func} no longer exists')
        else:
            o = getattr(o, part)
    want = getattr(c, 'argnames', None)
    if want is not None:
        got = params_of(o)
        if got is None or got[:len(want)] != list(want) or not accepts(o, len(want)):
            raise MissingTarget(f'{c.module}.{c.func} changed its parameters: {got}')
    return o


def verify_lemma(V, L, opts):
    import z3
    from .prover import Prover, explore, PathAbort
    from .evalr import Evaluator
    from .values import Unsupported
    from .interp import PyRaise
    P = Prover()
    P.deadline = time.time() + L.budget * opts['scale']
    I = Evaluator(P, opts['roots'], opts['contracts'])
    I.heap[0] = {}
    out = {'detail': '', 'failed': [], 'cex': None, 'status': 'proved'}
    state = {'ok': True, 'feas': False}
    try:
        args = [t.build(I, f'a{j}', []) for j, t in enumerate(L.params)]
        heap0 = dict(I.heap)

        def thunk():
            I.heap = dict(heap0)
            if L.requires is not None:
                P.assume(I.truth(I.run_spec(L.requires, args)))
            if P._check(P.pc, z3.BoolVal(False)):
                raise PathAbort()
            state['feas'] = True
            r = I.run_spec(L.claim, args)
            vals = I.concrete_elems(r) if not isinstance(r, bool) and not z3.is_bool(r) else [r]
            for j, v in enumerate(vals):
                if not P.oblige(f'{L.name} clause {j}', I.truth(v)):
                    state['ok'] = False
                    out['failed'].append((f'{L.name} clause {j}', P.obligations[-1].detail, True))
        explore(P, thunk, 2000)
        if not state['feas'] or not P.obligations:
            out.update(status='unsupported', detail='vacuous lemma')
        elif not state['ok']:
            out['status'] = 'failed'
    except (Unsupported, PyRaise) as e:
        out.update(status='unsupported', detail=repr(e)[:500])
    out.update(n=len(P.obligations), ok=sum(o.ok for o in P.obligations), z3s=P.solver_time, queries=P.queries, paths=0,
               used=[], usedc=sorted('.'.join(u) for u in I.used_contracts), assumptions=sorted(P.assumptions),
               names=sorted({o.name for o in P.obligations}), failed_names=sorted({o.name for o in P.obligations if not o.ok})[:10])
    return out


def unit_name(u):
    return u.name


# ----------------------------------------------------------------- driver
def load_known(prop):
    """exact failure texts listed as known findings of this property"""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f'property={prop} '):
                out.add(line[len(f'property={prop} '):])
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    evid_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(evid_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='pyvc_')
    os.chdir(scratch)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    rc = 1
    try:
        rc = run_property(prop, tier, seed, verbose, t0, evid_dir)
    except SystemExit:
        raise
    except BaseException:
        # the tree could not even be loaded: the property cannot hold on it
        tb = traceback.format_exc()
        path = os.path.join(evid_dir, f'{prop}.replay.txt')
        with open(path, 'w') as f:
            f.write('the check could not load or run the code under verification\n' + tb)
        write_evidence(evid_dir, prop, tier, seed, 'other', {'explanation': 'load failure', 'obligations': 0, 'discharged': 0, 'evaluations': 0},
                       [], time.time() - t0, 1)
        print(tb, file=sys.stderr)
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc = 1
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def write_evidence(d, prop, tier, seed, level, cov, assumptions, wall, viol):
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
                   'wall_s': round(wall, 2), 'violations': viol}, f, indent=1, sort_keys=True)
        f.write('\n')


def run_jobs(jobs, timeout, total, grace=60, nproc=None):
    """fork one process per job, at most nproc at a time; a stuck or killed job yields an 'error' record. Proofs are given up after total seconds,
    and grace seconds after a failing input was found: the verdict no longer depends on them."""
    nproc = nproc or min(8, os.cpu_count() or 2)
    ctx = mp.get_context('fork')
    pending = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    end = time.time() + total

    def given_up(job, t):
        return {'unit': unit_name(job[1]), 'kind': job[0], 'status': 'unsupported', 'detail': 'not finished when the check ended', 'n': 0, 'cex': None, 'wall': t}
    while pending or running:
        if time.time() > end:
            for i, job in pending:
                if job[0] in ('prove', 'lemma'):
                    results[i] = given_up(job, 0)
            pending = [x for x in pending if results[x[0]] is None]
        while pending and len(running) < nproc:
            i, job = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, job))
            p.start()
            w.close()
            running[i] = (p, r, time.time(), job)
        done = []
        for i, (p, r, st, job) in running.items():
            if r.poll(0):
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = {'unit': unit_name(job[1]), 'kind': job[0], 'status': 'error', 'detail': 'worker died', 'n': 0, 'cex': None, 'wall': time.time() - st}
                p.join(5)
                done.append(i)
            elif not p.is_alive():
                results[i] = {'unit': unit_name(job[1]), 'kind': job[0], 'status': 'error', 'detail': 'worker died', 'n': 0, 'cex': None, 'wall': time.time() - st}
                done.append(i)
            elif time.time() > end and job[0] in ('prove', 'lemma'):
                p.kill()
                p.join()
                results[i] = given_up(job, time.time() - st)
                done.append(i)
            elif time.time() - st > timeout:
                p.kill()
                p.join()
                results[i] = {'unit': unit_name(job[1]), 'kind': job[0], 'status': 'error', 'detail': f'stopped after {timeout:.0f}s', 'n': 0, 'cex': None, 'wall': time.time() - st}
                done.append(i)
        for i in done:
            p, r, _, _ = running.pop(i)
            r.close()
            if results[i].get('cex'):
                end = min(end, time.time() + grace)
        if not done:
            time.sleep(0.02)
    return results


def _child(w, job):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    os.chdir(tempfile.mkdtemp(prefix='job_', dir=os.getcwd()))     # jobs run at once: none sees the files of another
    r = work(job)
    try:
        w.send(r)
    except Exception as e:
        w.send({'unit': r.get('unit'), 'kind': r.get('kind'), 'status': 'error', 'detail': f'result not picklable: {e}', 'n': 0, 'cex': None, 'wall': 0})
    w.close()
    os._exit(0)


def run_property(prop, tier, seed, verbose, t0, evid_dir):
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        reg = importlib.import_module('contracts')
        spec = reg.load(prop)
    finally:
        sys.stdout = so
    contracts = spec['callable_contracts']
    roots = [REPO, os.path.join(VERIF, 'contracts')]
    known = load_known(prop)
    scale = 1.0 if tier == 'quick' else 4.0
    opts = {'contracts': contracts, 'roots': roots, 'scale': scale, 'seed': seed, 'tier': tier, 'known': known,
            'case_budget': spec.get('case_budget', 60) * (1 if tier == 'quick' else 6)}
    jobs = []
    for c in spec['contracts']:
        if c.prove and (c.params or c.variants):
            for k in range(len(c.variants) if c.variants else 1):
                jobs.append(('prove', c, k, opts))
        if c.cases is not None:
            jobs.append(('cases', c, 0, opts))
    for l in spec['lemmas']:
        jobs.append(('lemma', l, 0, opts))
    for f in spec.get('frames', ()):
        jobs.append(('frame', f, 0, opts))
    for b in spec['bounded']:
        jobs.append(('bounded', b, 0, opts))
    order = sorted(range(len(jobs)), key=lambda j: {'bounded': 0, 'cases': 1}.get(jobs[j][0], 2))
    jobs = [jobs[j] for j in order]
    hard = (300 if tier == 'quick' else 3000)
    results = run_jobs(jobs, hard, 600 if tier == 'quick' else 6000)

    obligations = discharged = 0
    z3s = 0.0
    queries = 0
    proved, failed, unsup, absent, errors = [], [], [], [], []
    assumptions = set(spec['assumptions'])
    evals = distinct = 0
    bounded_rows, cex, samples = [], [], []
    known_hits = []
    used = set()
    for job, r in zip(jobs, results):
        kind = r['kind']
        if verbose:
            print(f"  {kind:8s} {r['unit']:70s} {r.get('status', '-'):12s} n={r.get('n')} {r['wall']:.1f}s {str(r.get('detail', ''))[:160]}"
                  + (f" CEX {r['cex']}" if r.get('cex') else ''))
            for f in r.get('failed', [])[:2]:
                print('       failed:', f[0], '|', str(f[1])[:400].replace('\n', ' '))
        if r.get('status') == 'absent':
            absent.append(f"{r['unit']}: {r['detail']}")
            continue
        if r.get('status') == 'error':
            errors.append((r['unit'], kind, r['detail']))
        if kind in ('prove', 'lemma') and r.get('status') in ('proved', 'failed', 'unsupported'):
            if r['status'] == 'proved':
                proved.append(r['unit'])
                obligations += r['n']
                discharged += r['ok']
            elif r['status'] == 'failed':
                failed.append(r)
                obligations += r['n']
                discharged += r['ok']
            else:
                unsup.append(f"{r['unit']}: {r['detail'][:200]}")
            z3s += r.get('z3s', 0)
            queries += r.get('queries', 0)
            used |= set(r.get('used', []))
            assumptions |= set(r.get('assumptions', []))
        if kind == 'frame' and r.get('status') == 'frame':
            obligations += r['n']
            discharged += r['ok']
            proved += [f'{x} (frame)' for x in r['framed']]
            unsup += r['open']
            assumptions |= set(job[1].assumptions)
        if kind in ('cases', 'bounded'):
            evals += r.get('n', 0)
            distinct += r.get('distinct', 0)
            row = {'what': r['unit'], 'cases': r.get('n', 0)}
            if kind == 'bounded':
                row['bound'] = job[1].bound
            bounded_rows.append(row)
            if r.get('sample'):
                samples.append(f"{r['unit']}: {r['sample']}")
            known_hits += r.get('known', [])
        if r.get('cex'):
            cex.append((r['unit'], r['cex']))

    violations = 0
    replay_path = os.path.join(evid_dir, f'{prop}.replay.txt')
    lines = []
    status = 0
    # a contract with a norm is met up to that norm; its textual obligations alone refute nothing
    definite_failed = [r for r in failed if any(x[2] for x in r['failed']) and not r.get('normed')]
    if cex:
        violations = len(cex)
        with open(replay_path, 'w') as f:
            f.write(f'property {prop}: the code in /repo breaks it on these inputs (real function run against its contract)\n\n')
            for u, (a, d) in cex:
                f.write(f'function / check: {u}\ninput: {a}\n{d}\n\n')
            for r in failed:
                f.write(f"failed obligations of {r['unit']}: {r['failed_names']}\n")
                for x in r['failed']:
                    f.write(f'  {x[0]}\n  {x[1]}\n')
        lines.append(f'VIOLATION property={prop} replay={replay_path}')
        status = 1
    elif definite_failed:
        violations = len(definite_failed)
        with open(replay_path, 'w') as f:
            f.write(f'property {prop}: obligations generated from the current source that the verifier refutes\n\n')
            for r in definite_failed:
                f.write(f"{r['unit']}: failed obligations {r['failed_names']}\n")
                for x in r['failed']:
                    f.write(f'  {x[0]}\n  {x[1]}\n')
        lines.append(f'VIOLATION property={prop} replay={replay_path} no-failing-input-found')
        status = 1
    undecided = [r['unit'] + ': ' + '; '.join(r['failed_names'])[:300] for r in failed if r not in definite_failed]
    if not cex and not definite_failed and os.path.exists(replay_path):
        os.remove(replay_path)

    level = spec['level']
    fully = not (unsup or absent or errors or undecided)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': f'python3-vt /verif/check.py {prop}   (pyvc VC generator over /repo source, back end z3 {z3_version()})',
        'trusted_base': spec['trusted'],
        'functions_proved': sorted(proved), 'functions_not_proved_this_run_bounded_only': sorted(unsup + undecided + [f'{u} ({k}): {d[-300:]}' for u, k, d in errors]),
        'functions_absent': absent,
        'source_functions_executed_symbolically': sorted(used),
        'solver_time_s': round(z3s, 2), 'solver_queries': queries,
        'evaluations': evals, 'bounded_parts': bounded_rows, 'samples': samples[:12],
        'rule': 'bounded parts: every listed case is one run of the real function compared with its executable contract; distinct: by the text of its input',
        'distinct_nontrivial': distinct,
        'wholly_proved_units': fully,
    }
    if level == 'proof' and (not fully) and obligations == 0:
        cov['explanation'] = 'no obligation could be generated from this source; only the bounded stand-ins decided this run'
    write_evidence(evid_dir, prop, tier, seed, level, cov, sorted(assumptions), time.time() - t0, violations)
    for k in sorted(set(known_hits)):
        print(f'KNOWN-FINDING: property={prop} {k}')
    for l in lines:
        print(l)
    if status == 0:
        if obligations == 0 and evals == 0:
            with open(replay_path, 'w') as f:
                f.write('nothing was checked: ' + repr(errors) + repr(unsup))
            print(f'VIOLATION property={prop} replay={replay_path} no-failing-input-found')
            return 1
        print(f'OK property={prop} obligations={obligations} discharged={discharged} proved_units={len(proved)} bounded_cases={evals} '
              f'undecided_units={len(unsup) + len(undecided) + len(errors)} wall={time.time() - t0:.1f}s')
        for e in errors:
            print(f'note: {e[0]} ({e[1]}): {e[2][-400:]}')
    return status


def z3_version():
    import z3
    return z3.get_version_string()
