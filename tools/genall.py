"""Writes every kind of output three times and prints a digest per file and pass: each in a forked process of its own; all in one process;
all again in that process in another order, with the truncation keys reversed, another working directory, and over an existing file.

usage: genall.py REPO OUTDIR TIER ORDER   (run with different PYTHONHASHSEED values, orders and clocks by the check of C20)
"""
import contextlib
import datetime
import hashlib
import io
import json
import os
import sys

repo, out, tier, order = sys.argv[1:5]
if order != '0':
    # another clock: nothing written may depend on the time
    import time
    _t, _l, _g, _s, D = time.time, time.localtime, time.gmtime, time.strftime, datetime.datetime
    SHIFT = 4e8
    time.time = lambda: _t() + SHIFT
    time.localtime = lambda x=None: _l(_t() + SHIFT if x is None else x)
    time.gmtime = lambda x=None: _g(_t() + SHIFT if x is None else x)
    time.strftime = lambda f, x=None: _s(f, time.localtime() if x is None else x)

    class Later(D):
        @classmethod
        def now(cls, tz=None):
            return D.now(tz) + datetime.timedelta(seconds=SHIFT)
        today = utcnow = now
    datetime.datetime = Later
sys.path.insert(0, os.path.join(repo, 'termfactory'))
os.chdir(out)
sys.dont_write_bytecode = True

with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    from truncation_keys import TruncationsKeys as K
    import latex_full_cc, latex_zhz, latex_eT_zhz, latex_w_equations
    import code_full_cc, code_eT_zhz, code_w_equations, code_dt_equations, code_residual_equations

JOBS = {}


def job(name, f, *a, **k):
    JOBS[name] = (f, a, k)


def fcc(h, cc, s, p):
    return {K.H: h, K.CC: cc, K.S: s, K.P: p}


def zt(h, cc, p):
    t = {k: 1 for k in K.zhz_key_list()}
    t.update({K.H: h, K.CC: cc, K.P: p})
    return t


def etz(h, p, t, e, cc):
    return {K.H: h, K.P: p, K.T: t, K.eT: e, K.CC: cc}


thorough = tier != 'quick'
for c in [(4, 2, 3, 2), (2, 3, 2, 3), (4, 3, 3, 3), (2, 5, 2, 3), (2, 4, 1, 4), (6, 4, 1, 2), (1, 6, 1, 6)] + ([(5, 2, 4, 2), (6, 3, 3, 3), (4, 2, 5, 2)] if thorough else []):
    for gs in (True, False):
        for rf in (True, False):
            job(f'full cc latex {c} ground={gs} remove_f={rf}', latex_full_cc.generate_full_cc_latex, fcc(*c), only_ground_state=gs, remove_f_terms=rf)
    job(f'full cc python {c}', code_full_cc.generate_full_cc_python, fcc(*c), only_ground_state=True, remove_f_terms=True)
for c in [(3, 3, 3), (6, 4, 4), (2, 6, 3), (4, 2, 6)] + ([(6, 6, 6)] if thorough else []):
    job(f'zhz latex {c}', latex_zhz.generate_z_t_symmetric_latex, zt(*c), only_ground_state=True, remove_f_terms=False)
for c in [(2, 3, 1, 3, 3), (3, 2, 1, 2, 2), (2, 4, 1, 3, 4), (1, 6, 1, 2, 5), (4, 2, 1, 5, 3)] + ([(4, 4, 1, 4, 4)] if thorough else []):
    for side in ('LHS', 'RHS'):
        job(f'eT zhz latex {c} {side}', latex_eT_zhz.generate_eT_z_t_symmetric_latex, etz(*c), only_ground_state=True, remove_f_terms=False, lhs_rhs=side)
        job(f'eT zhz python {c} {side}', code_eT_zhz.generate_eT_zhz_python, etz(*c), only_ground_state=True, remove_f_terms=False, lhs_rhs=side)
# the same truncations with the other settings
for rf in (True,):
    job(f'zhz latex (3, 3, 3) remove_f={rf}', latex_zhz.generate_z_t_symmetric_latex, zt(3, 3, 3), only_ground_state=True, remove_f_terms=rf)
    for side in ('LHS', 'RHS'):
        job(f'eT zhz latex (2, 3, 1, 3, 3) {side} remove_f={rf}', latex_eT_zhz.generate_eT_z_t_symmetric_latex, etz(2, 3, 1, 3, 3), only_ground_state=True, remove_f_terms=rf, lhs_rhs=side)
        job(f'eT zhz python (2, 3, 1, 3, 3) {side} excited', code_eT_zhz.generate_eT_zhz_python, etz(2, 3, 1, 3, 3), only_ground_state=False, remove_f_terms=rf, lhs_rhs=side)
for n in (3, 5, 4, 6, 2, 1):
    job(f'w code {n}', code_w_equations.generate_w_operator_equations_file, n)
    job(f'dt code {n}', code_dt_equations.generate_dt_amplitude_equations_file, n)
    job(f'residual code {n}', code_residual_equations.generate_residual_equations_file, n, 2)
    job(f'w latex {n}', latex_w_equations.ground_state_w_equations_latex, n)
job('residual code 4 linear', code_residual_equations.generate_residual_equations_file, 4, 1)
for n in (3, 2):
    job(f'excited w latex {n}', latex_w_equations.excited_state_w_equations_latex, n)


def run(name, flip=False, keep=False):
    f, a, k = JOBS[name]
    p = os.path.join(out, 'f.txt')
    if not keep or name.startswith('excited w'):   # that one keeps the header of an existing file on purpose
        with contextlib.suppress(FileNotFoundError):
            os.remove(p)
    given = a
    a = tuple(dict(reversed(x.items()) if flip else x) if isinstance(x, dict) else x for x in a)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            f(*a, path=p, **k)
        with open(p, 'rb') as fp:
            d = hashlib.sha256(fp.read()).hexdigest()
    except NotImplementedError as e:
        d = 'NotImplementedError'
    return d if a == given else d + ', options changed'


def alone(names):
    """each in a process of its own, forked from one that has generated nothing"""
    res = {}
    for n in names:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, run(n).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as fp:
            res[n] = fp.read()
        os.waitpid(pid, 0)
    return res


import logging
import random
logging.disable(logging.CRITICAL)
names = list(JOBS)
if order == '1':
    names.reverse()
elif order != '0':
    random.Random(int(order)).shuffle(names)
base = alone(names) if order == '0' else {}
first = {n: run(n) for n in names}
os.makedirs('elsewhere')
os.chdir('elsewhere')
second = {n: run(n, flip=True, keep=True) for n in reversed(names)}
print(json.dumps([base, first, second]))
