"""Left-hand sides: the derivative of the projected amplitude, the projection itself, and where they stand in an equation."""
from contracts.common import *
from common_imports import summation_indices as S, tab

CONTRACTS, LEMMAS, BOUNDED = [], [], []
Z_, E_ = 'latex_zhz', 'latex_eT_zhz'


def spec_t_lhs(omega):
    low = S[omega.n:omega.n + omega.m]
    return 'i\\dv{\\hat{\\bt}^{' + S[0:omega.n] + '}_{' + (low + ',\\gamma' if low != '' else '\\gamma') + '}}{\\tau}'


def spec_z_lhs(omega):
    return 'i\\Big(\\dv{\\hat{\\bz}^{' + S[0:omega.m + omega.n] + '}_{\\gamma}}{\\tau}\\Big)'


def projector(name):
    """one \\up per creation, one \\down per annihilation operator of the projection, in order"""
    out = ''
    for k, x in enumerate(name):
        out += ('\\up{' if x == 'd' else '\\down{') + S[k] + '}'
    return out if out != '' else '1'


def spec_wrap_t(omega, lhs):
    low = S[omega.n:omega.n + omega.m]
    g = '\\hat{G}^{' + S[0:omega.n] + '}_{' + (low + ', \\gamma\\gamma' if low != '' else '\\gamma\\gamma') + '}'
    return ('\\begin{equation}\n' + tab + '\\hat{\\Omega} = ' + projector(omega.name) + '\n\\qquad\\qquad\n' + tab + lhs + ' = ' + g
            + '\n\\end{equation}\n\n')


def spec_wrap_align(omega, rank_name, lhs, eqns):
    return ('\\begin{align}\\begin{split}\n' + tab + '\\hat{\\Omega} = ' + projector(omega.name) + '\n\\\\ LHS &=\n' + tab + lhs
            + '\n\\\\ RHS &=\n%\n%\n' + eqns + '\n\\end{split}\\end{align}\n\n')


def spec_wrap_z(lhs, eqns):
    return '\\begin{align}\\begin{split}\nLHS &=\n' + tab + lhs + '\n\\\\ RHS &=\n%\n%\n' + eqns + '\n\\end{split}\\end{align}\n\n'


def cases_op(tier, rng):
    for m, n in pairs(sized(tier, 6, 9)):
        yield (op(m, n),)


# the names of ranks are listed up to rank 8: no equation of a higher rank is ever written
NAMED = [(m, n) for m in range(9) for n in range(9 - m)]


def cases_wrap(tail):
    def run(tier, rng):
        for m, n in NAMED:
            yield (op(m, n, 'b' * n + 'd' * m), *tail)
    return run


def named(m, n):
    return TRec(general_operator_namedtuple, name=TConst('b' * n + 'd' * m), rank=TConst(m + n), m=TConst(m), n=TConst(n))


for mod, outer in ((Z_, 'generate_z_t_symmetric_latex'), (E_, 'generate_eT_z_t_symmetric_latex')):
    CONTRACTS.append(C(mod, outer + '._generate_t_lhs', spec_t_lhs, [OP], props=['C19'], cases=cases_op, argnames=['omega']))
    CONTRACTS.append(C(mod, outer + '._generate_z_lhs', spec_z_lhs, [OP], props=['C19'], cases=cases_op, argnames=['omega']))
    CONTRACTS.append(C(mod, outer + '._wrap_t_latex', spec_wrap_t, props=['C19'], cases=cases_wrap(['Q']), argnames=['omega', 'lhs'],
                       variants=[[named(m, n), TStr()] for m, n in NAMED]))
CONTRACTS.append(C(Z_, 'generate_z_t_symmetric_latex._wrap_z_align_environment', spec_wrap_z, [TStr(), TStr()], props=['C19'], cases=lambda t, r: [('A', 'B')],
                   argnames=['lhs', 'eqns']))
CONTRACTS.append(C('latex_full_cc', '_wrap_align_environment', spec_wrap_align, props=['C19'], cases=cases_wrap(['R', 'A', 'B']),
                   argnames=['omega', 'rank_name', 'lhs', 'eqns'], variants=[[named(m, n), TStr(), TStr(), TStr()] for m, n in NAMED]))
