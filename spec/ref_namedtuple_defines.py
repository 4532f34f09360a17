"""Reference definitions for namedtuple_defines (see DESIGN.md)."""
from collections import namedtuple
general_operator_namedtuple = namedtuple('operator', ['name', 'rank', 'm', 'n'])
omega_namedtuple = namedtuple('Omega', ['maximum_rank', 'operator_list'])
hamiltonian_namedtuple = namedtuple('hamiltonian', ['maximum_rank', 'operator_list'])
h_namedtuple = namedtuple('h_term', ['max_i', 'max_k'])
w_namedtuple = namedtuple('w_term', ['max_i', 'max_k', 'order'])
connected_namedtuple = namedtuple('connected', ['m_h', 'n_h', 'm_o', 'n_o'])
disconnected_namedtuple = namedtuple('disconnected', ['m_h', 'n_h', 'm_o', 'n_o'])
t_term_namedtuple = namedtuple('t_term_namedtuple', ['string', 'order', 'shape'])
w_namedtuple_latex = namedtuple('w_latex', ['m', 'n'])
t_namedtuple_latex = namedtuple('t_namedtuple_latex', ['m', 'n'])
