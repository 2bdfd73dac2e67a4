"""shared input types and concrete-case generators"""
import itertools
from itertools import product as it_product

from namedtuple_defines import (
    general_operator_namedtuple, hamiltonian_namedtuple, omega_namedtuple,
    connected_namedtuple, disconnected_namedtuple, h_namedtuple, w_namedtuple,
    t_term_namedtuple, w_namedtuple_latex, t_namedtuple_latex,
)
from pyvc.values import simp, mkand
from pyvc.verify import Contract, TInt, TBool, TStr, TConst, TRec, TAlt, TList, TFixed, TDict, TMap
from pyvc.values import AnyMap
from pyvc.runner import Lemma, Bounded, Frame

import z3


def C(module, func, spec, params=None, props=(), argnames=None, **kw):
    c = Contract(module, func, spec, params, **kw)
    c.props = tuple(props)
    c.argnames = argnames
    return c


def rank_of(d):
    return simp(d['m'] + d['n'])


OP = TRec(general_operator_namedtuple, name=TConst('x'), rank=rank_of, m=TInt(), n=TInt())


def conn_cond(d):
    return z3.Or(d['m_h'] > 0, d['n_h'] > 0)


# a t/s amplitude after its indices were distributed: connected iff it touches H
ST = TAlt(connected_namedtuple, disconnected_namedtuple, conn_cond, m_h=TInt(), n_h=TInt(), m_o=TInt(), n_o=TInt())


def op(m, n, name=None):
    return general_operator_namedtuple('x' if name is None else name, m + n, m, n)


def st(m_h, n_h, m_o, n_o):
    return (connected_namedtuple if m_h + n_h > 0 else disconnected_namedtuple)(m_h, n_h, m_o, n_o)


def pairs(k):
    return [(m, n) for m in range(k + 1) for n in range(k + 1)]


def sized(tier, quick, thorough):
    return quick if tier == 'quick' else thorough
