"""The generated files are a function of the options alone."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from contracts.common import *
from pyvc import runner as RUN

CONTRACTS, LEMMAS, BOUNDED = [], [], []
TOOL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools', 'genall.py')


def run(tier, rng, deadline):
    seeds = [0, 1, 2, 3, 4] if tier == 'quick' else list(range(10))
    procs = []
    for s in seeds:
        d = tempfile.mkdtemp(prefix='det_', dir=os.getcwd())
        env = {**os.environ, 'PYTHONHASHSEED': str(s), 'PYTHONDONTWRITEBYTECODE': '1'}
        if s:       # another user, host and terminal
            env.update(USER=f'user{s}', LOGNAME=f'user{s}', HOME=d, HOSTNAME=f'host{s}', COLUMNS=str(60 + 20 * s), TZ=['UTC', 'Asia/Tokyo', 'America/New_York'][s % 3], TERM='dumb')
        procs.append((s, d, subprocess.Popen([sys.executable, TOOL, os.path.dirname(RUN.REPO), d, tier, str(s)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    results = {}
    try:
        for s, d, p in procs:
            o, e = p.communicate()
            if p.returncode:
                yield f'hash seed {s}', f'generation failed: {e.strip().splitlines()[-1:]}'
                return
            results[s] = json.loads(o.splitlines()[-1])
    finally:
        for s, d, p in procs:
            p.kill()
            shutil.rmtree(d, ignore_errors=True)
    base = results[0][0]
    for name in base:
        yield f'{name}, alone', f'{name}: generating it alone fails or changes its options: {base[name]!r}' if not base[name] or 'changed' in base[name] else None
    for s in seeds:
        for k, what in ((1, f'in generation order {s}'), (2, f'in reversed generation order {s}, truncation keys reversed, over an existing file in another directory')):
            for name in base:
                ok = results[s][k].get(name) == base[name]
                yield f'{name}, hash seed {s}, {what}', None if ok else f'{name}: the file written with hash seed {s} {what} differs from the one written alone'


BOUNDED += [('C20', Bounded('all generators, several hash seeds and generation orders', run,
                            'the option sets listed in tools/genall.py, 5 (thorough: 10) string hash seeds, each with its own generation order (and, but for one, a shifted clock, another user, host, time zone and terminal width), each file written alone in a fresh process and twice per process in opposite orders',
                            ['generate_full_cc_latex', 'generate_z_t_symmetric_latex', 'generate_eT_z_t_symmetric_latex', 'generate_full_cc_python',
                             'generate_eT_zhz_python', 'generate_w_operator_equations_file', 'generate_dt_amplitude_equations_file',
                             'generate_residual_equations_file', 'ground_state_w_equations_latex', 'excited_state_w_equations_latex'], whole=True))]


# ---------------------------------------------------------------- frames: no function keeps, changes or reads anything but its arguments and constants
FRAMES = [('C20', Frame('frames of everything the generators call', [
    ('latex_full_cc', 'generate_full_cc_latex'), ('latex_zhz', 'generate_z_t_symmetric_latex'), ('latex_eT_zhz', 'generate_eT_z_t_symmetric_latex'),
    ('code_full_cc', 'generate_full_cc_python'), ('code_eT_zhz', 'generate_eT_zhz_python'), ('code_w_equations', 'generate_w_operator_equations_file'),
    ('code_dt_equations', 'generate_dt_amplitude_equations_file'), ('code_residual_equations', 'generate_residual_equations_file'),
    ('latex_w_equations', 'ground_state_w_equations_latex'), ('latex_w_equations', 'excited_state_w_equations_latex'),
    ('_glue_', '_generate_latex'), ('_glue_', '_generate_python'), ('truncations', 'save_trunc_to_JSON'), ('truncations', 'load_trunc_from_JSON')], [
    'frames: option and truncation values and the rank and index fields of the namedtuples are immutable (integers, flags, strings)',
    'frames: builtins, str/list/dict/set methods, itertools, math, functools and copy behave as documented; log output is not part of the output',
]))]
