"""Contract registry: load(prop) gives everything the check of one property needs."""
import importlib

AREAS = ['fcc', 'trunc', 'zhz', 'etz', 'weq', 'drv', 'labels', 'tex', 'gencode', 'lhs', 'asm', 'wcode', 'files', 'det']

TRUSTED = [
    'pyvc: the VC generator in /verif/pyvc (symbolic evaluation of the Python AST, loop summarisation, SUM lemmas)',
    'z3 (SMT back end)',
    'CPython semantics of int, str, list, tuple, dict, set, namedtuple and itertools.product as modelled in pyvc/evalr.py',
]
ASSUMPTIONS = [
    'integers are mathematical (Python ints are unbounded, so this is exact)',
    'calls to log objects, old_print_wrapper and print have no effect on results and their arguments are not evaluated',
    'arguments have the types the contract lists (no aliasing between distinct list arguments, no subclassing)',
    'termination and memory use are not verified',
]


# properties decided without any deductive obligation: finite enumerations of the generator's inputs
LEVELS = {}


def load(prop):
    contracts, lemmas, bounded, frames, callable_contracts = [], [], [], [], {}
    budget = 40
    for a in AREAS:
        m = importlib.import_module('contracts.' + a)
        for c in m.CONTRACTS:
            if prop in c.props:
                contracts.append(c)
            if getattr(c, 'modular', True):
                callable_contracts[c.key] = c
        lemmas += [l for p, l in m.LEMMAS if p == prop]
        frames += [f for p, f in getattr(m, 'FRAMES', ()) if p == prop]
        bounded += [b for p, b in m.BOUNDED if p == prop]
    return {'contracts': contracts, 'lemmas': lemmas, 'bounded': bounded, 'frames': frames, 'callable_contracts': callable_contracts,
            'trusted': TRUSTED, 'assumptions': ASSUMPTIONS, 'level': LEVELS.get(prop, 'proof'), 'case_budget': budget}
