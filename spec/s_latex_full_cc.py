"""Specification functions: full coupled-cluster equations (LaTeX side).

m counts creation legs, n annihilation legs.  A creation leg of one operator contracts with an
annihilation leg of another.
"""
import itertools as it
from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple, omega_namedtuple, connected_namedtuple, disconnected_namedtuple
from common_imports import summation_indices, unlinked_indices
from latex_defines import *
from latex_full_cc import h_operator_namedtuple, s_operator_namedtuple, connected_omega_operator_namedtuple, connected_h_operator_namedtuple
# uninterpreted in the specifications below (each has its own specification)
from latex_full_cc import (_make_latex, _generate_valid_s_n_operator_permutations, _generate_all_omega_h_connection_permutations,
                           _remove_duplicate_s_permutations, _generate_explicit_connections, _remove_f_zero_terms)


# ---------------------------------------------------------------- operator spaces
@spec('latex_full_cc.generate_full_cc_hamiltonian_operator', props='P17')
def hamiltonian_space(maximum_rank: 'nat'):
    return hamiltonian_namedtuple(maximum_rank, [h_operator_namedtuple(m + n, m, n) for m in range(maximum_rank + 1) for n in range(maximum_rank + 1 - m)])


@spec('latex_full_cc.generate_s_operator', props='P17')
def s_space(maximum_cc_rank: 'nat', only_ground_state: 'bool'):
    return s_operator_namedtuple(maximum_cc_rank, [
        general_operator_namedtuple("s" + (f"^{m}" if m > 0 else "") + (f"_{n}" if n > 0 else ""), m + n, m, n)
        for m in range(maximum_cc_rank + 1) for n in range(maximum_cc_rank + 1 - m)
        if m + n > 0 and not (only_ground_state and n > 0)])


# ---------------------------------------------------------------- selection rules
def unlike_legs(a, b):
    """a and b can contract with each other"""
    return (a.m > 0 and b.n > 0) or (a.n > 0 and b.m > 0)


def self_contracted(x, others):
    return x.m > 0 and x.n > 0 and not any([unlike_legs(x, y) for y in others])


@spec('latex_full_cc._t_joining_with_t_terms', props='P06')
def t_needs_t(omega: 'prod.omega', h: 'prod.h', s_list: 'prod.product', nof_creation_ops: 'prod.nof_creation'):
    return sum(s.m for s in s_list) > omega.n + h.n or sum(s.n for s in s_list) > omega.m + h.m


@spec('latex_full_cc._omega_joining_with_itself', props='P06')
def omega_self(omega: 'prod.omega', h: 'prod.h', s_list: 'prod.product'):
    return omega.m > 0 and omega.n > 0 and not unlike_legs(omega, h) and not any([unlike_legs(omega, s) for s in s_list])


@spec('latex_full_cc._h_joining_with_itself', props='P06')
def h_self(omega: 'prod.omega', h: 'prod.h', s_list: 'prod.product'):
    return h.m > 0 and h.n > 0 and not unlike_legs(omega, h) and not any([unlike_legs(h, s) for s in s_list])


def acceptable(omega, h, product):
    balanced = omega.m + h.m + sum(s.m for s in product) == omega.n + h.n + sum(s.n for s in product)
    enough = sum(s.m for s in product) <= omega.n + h.n and sum(s.n for s in product) <= omega.m + h.m
    omega_alone = omega.m > 0 and omega.n > 0 and not unlike_legs(omega, h) and not any([unlike_legs(omega, s) for s in product])
    h_alone = h.m > 0 and h.n > 0 and not unlike_legs(omega, h) and not any([unlike_legs(h, s) for s in product])
    return balanced and enough and not omega_alone and not h_alone


@spec('latex_full_cc._generate_valid_s_n_operator_permutations', props='P06')
def accepted_products(omega: 'prod.omega', h: 'prod.h', s_series_term: 'prod.products'):
    return [p for p in s_series_term if acceptable(omega, h, p)]


# ---------------------------------------------------------------- distribution of the legs of the t amplitudes
@spec('latex_full_cc._generate_all_valid_t_connection_permutations', props='P08')
def t_leg_distributions(omega: 'prod.omega', h: 'prod.h', s_term_list: 'prod.product'):
    """(legs to omega, legs to h) for every amplitude; unlike legs of omega and h are never oversubscribed"""
    upper = [p for p in it.product(*[[(i, s.m - i) for i in range(s.m + 1)] for s in s_term_list])
             if sum(t[1] for t in p) <= h.n and sum(t[0] for t in p) <= omega.n]
    lower = [p for p in it.product(*[[(i, s.n - i) for i in range(s.n + 1)] for s in s_term_list])
             if sum(t[1] for t in p) <= h.m and sum(t[0] for t in p) <= omega.m]
    return upper, lower


def amplitude(up, low):
    if up[1] == 0 and low[1] == 0:
        return disconnected_namedtuple(m_o=up[0], m_h=up[1], n_o=low[0], n_h=low[1])
    return connected_namedtuple(m_o=up[0], m_h=up[1], n_o=low[0], n_h=low[1])


@spec('latex_full_cc._generate_all_omega_h_connection_permutations', props='P08')
def t_connections(omega: 'prod.omega', h: 'prod.h', valid_permutations: 'prod.products'):
    out = []
    for perm in valid_permutations:
        uppers, lowers = t_leg_distributions(omega, h, perm)
        for up in uppers:
            for low in lowers:
                out.append([amplitude(up[i], low[i]) for i in range(len(up))])
    return out


@spec('latex_full_cc._generate_explicit_connections', props='P08', raises=False)
def explicit_connections(omega: 'op', h: 'h', unique_s_permutations: 'ctss'):
    out = []
    for s_list in unique_s_permutations:
        om = omega.m - sum(s.n_o for s in s_list)
        on = omega.n - sum(s.m_o for s in s_list)
        hm = h.m - sum(s.n_h for s in s_list)
        hn = h.n - sum(s.m_h for s in s_list)
        if hm == on and hn == om:
            out.append([
                connected_omega_operator_namedtuple(rank=omega.m + omega.n, m=omega.m, n=omega.n, m_h=om, n_h=on,
                                                    m_t=[s.n_o for s in s_list], n_t=[s.m_o for s in s_list]),
                connected_h_operator_namedtuple(rank=h.m + h.n, m=h.m, n=h.n, m_o=hm, n_o=hn,
                                                m_t=[s.n_h for s in s_list], n_t=[s.m_h for s in s_list]),
                s_list])
    return out


@spec('latex_full_cc._remove_f_zero_terms', props='P20')
def without_f_terms(labeled_permutations: 'terms_fcc'):
    return [t for t in labeled_permutations if t[0].m_h == 0]


@spec('latex_full_cc._creates_f_prefactor', props='P20 P07')
def f_prefactor(omega: 'fcc.omega', h: 'fcc.h'):
    return omega.m_h > 0 and h.n_o > 0


@spec('latex_full_cc._creates_fbar_prefactor', props='P20 P07')
def fbar_prefactor(omega: 'fcc.omega', h: 'fcc.h'):
    return omega.n_h > 0 and h.m_o > 0


@spec('latex_full_cc._remove_duplicate_s_permutations', props='P12', args=False)
def distinct_products(s_list: 'ctss'):
    return set([tuple(sorted(a)) for a in s_list])


@spec('latex_full_cc._build_h_term_latex_labels', props='P09 P10')
def h_labels(h: 'fcc.h', condense_offset: 'small', color: 'bool'):
    linked_up, linked_low = h.m - h.m_o, h.n - h.n_o
    a = summation_indices[0:linked_up]
    b = unlinked_indices[condense_offset:condense_offset + h.m_o]
    c = summation_indices[linked_up:linked_up + linked_low]
    d = unlinked_indices[condense_offset + h.m_o:condense_offset + h.m_o + h.n_o]
    if h.rank == 0:
        return bold_h_latex + '_0'
    if color:
        return bold_h_latex + '^{\\blue{' + a + '}\\red{' + b + '}}_{\\blue{' + c + '}\\red{' + d + '}}'
    return bold_h_latex + '^{' + a + b + '}_{' + c + d + '}'


@spec('latex_full_cc._build_t_term_latex_labels', props='P09 P10')
def t_labels(term: 'ct', offset_dict: {'summation_upper': 'small', 'summation_lower': 'small', 'unlinked': 'small'}, color: 'bool'):
    lo, up, un = offset_dict['summation_lower'], offset_dict['summation_upper'], offset_dict['unlinked']
    low = summation_indices[lo:lo + term.n_h], unlinked_indices[un:un + term.n_o]
    high = summation_indices[up:up + term.m_h], unlinked_indices[un + term.n_o:un + term.n_o + term.m_o]
    offset_dict['summation_lower'] = lo + term.n_h
    offset_dict['summation_upper'] = up + term.m_h
    offset_dict['unlinked'] = un + term.n_o + term.m_o
    if color:
        down = '\\blue{' + low[0] + '}\\red{' + low[1] + '}' if term.n_h > 0 or term.n_o > 0 else ''
        upper = '\\blue{' + high[0] + '}\\red{' + high[1] + '}' if term.m_h > 0 or term.m_o > 0 else ''
    else:
        down, upper = low[0] + low[1], high[0] + high[1]
    return '^{' + upper + '}_{' + down + '}'


# ---------------------------------------------------------------- operator spaces and Taylor expansion
@spec('latex_full_cc.generate_omega_operator', props='P17')
def omega_space(maximum_cc_rank: 'nat', omega_max_order: 'nat'):
    """every projection with at most the requested number of legs, ordered by rank"""
    ops = [general_operator_namedtuple('d' * m + 'b' * n, m + n, m, n)
           for m in range(maximum_cc_rank + 1) for n in range(maximum_cc_rank + 1 - m) if m + n <= omega_max_order]
    return omega_namedtuple(maximum_cc_rank, sorted(ops, key=lambda x: x.rank))


@spec('latex_full_cc.generate_s_taylor_expansion', props='P17')
def s_taylor(maximum_cc_rank: 'nat', s_taylor_max_order: 'nat', only_ground_state: 'bool'):
    """1, S, and all ordered products of n operators for every n up to the requested order"""
    S = s_space(maximum_cc_rank, only_ground_state)
    out = [general_operator_namedtuple("1", 0, 0, 0)]
    if s_taylor_max_order >= 1:
        out.append(S.operator_list)
    for n in range(2, s_taylor_max_order + 1):
        out.append([list(p) for p in it.product(S.operator_list, repeat=n)])
    return out


# ---------------------------------------------------------------- classification
@spec('latex_full_cc._seperate_s_terms_by_connection', props='P12', raises=False)
def by_connection(total_list: 'terms_fcc'):
    fully, linked, unlinked = [], [], []
    for term in total_list:
        omega, h, ts = term
        alone = len(ts) == 1 and ts[0] == disconnected_namedtuple(0, 0, 0, 0)
        closed = any([isinstance(t, disconnected_namedtuple) and t.m_o == omega.n and t.n_o == omega.m for t in ts])
        loose = any([isinstance(t, disconnected_namedtuple) for t in ts])
        if alone or not loose:
            fully.append(term)
        elif closed:
            unlinked.append(term)
        else:
            linked.append(term)
    return fully, linked, unlinked


# ---------------------------------------------------------------- prefactors
@spec('latex_full_cc._simplify_full_cc_python_prefactor', props='P13 P01')
def cancelled(numerator_list: 'facs', denominator_list: 'facs'):
    """the common factors are cancelled, what is left comes in a fixed order"""
    if not any([x in denominator_list for x in numerator_list]):
        return numerator_list, denominator_list
    top = [x for x in sorted(set(numerator_list)) for i in range(numerator_list.count(x) - denominator_list.count(x))]
    bottom = [x for x in sorted(set(denominator_list)) for i in range(denominator_list.count(x) - numerator_list.count(x))]
    return top, bottom


@spec('latex_full_cc._build_latex_prefactor', props='P13')
def latex_prefactor(h: 'fcc.h', t_list: 'fcc.ts', simplify_flag: 'bool'):
    """x! / (m! n! k!): x different amplitudes contract with h^m_n, k amplitudes"""
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    x = len(set([t for t in t_list if t.m_h > 0 or t.n_h > 0]))
    top = [f'{x}!'] if x > 1 else []
    bottom = [f'{k}!' for k in [h.m, h.n, len(t_list)] if k > 1]
    if simplify_flag:
        top, bottom = cancelled(top, bottom)
    if top == [] and bottom == []:
        return ''
    return '\\frac{' + (''.join(top) if top != [] else '1') + '}{' + (''.join(bottom) if bottom != [] else '1') + '}'


# ---------------------------------------------------------------- amplitude labels
def amplitude_labels(t, lo, up, un):
    low = '\\blue{' + summation_indices[lo:lo + t.n_h] + '}\\red{' + unlinked_indices[un:un + t.n_o] + '}' if t.n_h > 0 or t.n_o > 0 else ''
    high = '\\blue{' + summation_indices[up:up + t.m_h] + '}\\red{' + unlinked_indices[un + t.n_o:un + t.n_o + t.m_o] + '}' if t.m_h > 0 or t.m_o > 0 else ''
    return '^{' + high + '}_{' + low + '}'


@spec('latex_full_cc._build_t_term_latex_group', props='P09 P12')
def amplitude_group(s_list: 'fcc.ts', h: 'fcc.h', offset_dict: {'summation_upper': 'small', 'summation_lower': 'small', 'unlinked': 'small'}):
    """consecutive label ranges; the labels used by h come first"""
    lo, up, un = offset_dict['summation_lower'], offset_dict['summation_upper'] + h.m - h.m_o, offset_dict['unlinked'] + h.m_o + h.n_o
    out = []
    for s in s_list:
        label = amplitude_labels(s, lo, up, un)
        lo, up, un = lo + s.n_h, up + s.m_h, un + s.n_o + s.m_o
        if label != '^{}_{}':
            out.append(bold_t_latex + label)
    offset_dict['summation_lower'] = lo
    offset_dict['summation_upper'] = up
    offset_dict['unlinked'] = un
    return out


@spec('latex_full_cc._build_t_term_latex_group', props='P09 P12')
def free_amplitude_group(s_list: 'cts'):
    lo, up, un = 0, 0, 0
    out = []
    for s in s_list:
        label = amplitude_labels(s, lo, up, un)
        lo, up, un = lo + s.n_h, up + s.m_h, un + s.n_o + s.m_o
        if label != '^{}_{}':
            out.append(bold_t_latex + label)
    return out


# ---------------------------------------------------------------- layout
def power(symbol, k):
    return symbol if k == 1 else symbol + '^{' + str(k) + '}'


def f_factors(omega, h):
    s = ''
    if omega.m_h > 0 and h.n_o > 0:
        s += power('f', omega.m_h)
    if omega.n_h > 0 and h.m_o > 0:
        s += power('\\bar{f}', omega.n_h)
    return s


def plain_terms(term_list, print_prefactors):
    out = []
    for term in term_list:
        omega, h, ts = term[0], term[1], term[2]
        pre = latex_prefactor(h, ts, True) if print_prefactors else ''
        off = {'summation_upper': 0, 'summation_lower': 0, 'unlinked': 0}
        out.append(f_factors(omega, h) + pre + h_labels(h, 0, True) + ''.join(amplitude_group(ts, h, off)))
    return out


@spec('latex_full_cc._make_latex', props='P12 P10 P13 P20', known='split_equation_truncated')
def split_equation(rank: 'nat', term_list: 'terms_fcc_long', linked_condense: ('const', False), unlinked_condense: ('const', False), print_prefactors: 'bool', color: 'bool'):
    """every term once, in order; long equations on lines of seven terms"""
    terms = plain_terms(term_list, print_prefactors)
    if len(terms) < 14:
        return '(' + ' + '.join(terms) + ')'
    lines = [' + '.join(terms[i:i + 7]) for i in range(0, len(terms), 7)]
    return '(\n' + '\n    \\\\  &+  % split long equation\n'.join(lines) + '\n)'


def split_equation_truncated(rank: 'nat', term_list: 'terms_fcc_long', linked_condense: ('const', False), unlinked_condense: ('const', False), print_prefactors: 'bool', color: 'bool'):
    """recorded finding: an incomplete last line is dropped"""
    terms = plain_terms(term_list, print_prefactors)
    if len(terms) < 14:
        return '(' + ' + '.join(terms) + ')'
    lines = [' + '.join(terms[7 * i:7 * i + 7]) for i in range(len(terms) // 7)]
    return '(\n' + '\n    \\\\  &+  % split long equation\n'.join(lines) + '\n)'


@spec('latex_full_cc._make_latex', props='P12 P10 P13 P20', where='term_list[0][0].m + term_list[0][0].n > 0 and all(any(t.m_h == t.n_h == 0 and t.m_o == term_list[0][0].n and t.n_o == term_list[0][0].m for t in x[2]) for x in term_list)')
def factored_equation(rank: 'nat', term_list: 'terms_fcc1', linked_condense: ('const', False), unlinked_condense: ('const', True), print_prefactors: 'bool', color: 'bool'):
    omega = term_list[0][0]
    common = ''.join(free_amplitude_group([disconnected_namedtuple(m_h=0, n_h=0, m_o=omega.n, n_o=omega.m)]))
    terms = [t.replace(common, '') for t in plain_terms(term_list, print_prefactors)]
    if color:
        terms = ['\\disconnected{' + t + '}' for t in terms]
    return '(' + ' + '.join(terms) + ')' + common


@spec('latex_full_cc._wrap_align_environment', props='P10 P12')
def wrapped(omega: 'omega', rank_name: 'str', lhs: 'str', eqns: 'str'):
    ops = ''.join([('\\up{' if omega.name[i] == 'd' else '\\down{') + summation_indices[i] + '}' for i in range(len(omega.name))])
    return ('\\begin{align}\\begin{split}\n    \\hat{\\Omega} = ' + (ops if ops != '' else '1') + '\n\\\\ LHS &=\n    ' + lhs
            + '\n\\\\ RHS &=\n%\n%\n' + eqns + '\n\\end{split}\\end{align}\n\n')


@spec('latex_full_cc._write_cc_latex_from_lists', props='P12 P10', opaque={'latex_full_cc._make_latex': 'str'})
def three_groups(rank: 'nat', fully: 'terms_fcc', linked: 'terms_fcc', unlinked: 'terms_fcc'):
    """each of the three groups is written exactly once"""
    if rank == 0:
        s = _make_latex(rank, fully) + ' + ' + _make_latex(rank, linked) + ' + ' + _make_latex(rank, unlinked)
    else:
        a = _make_latex(rank, fully) if fully != [] else '    \\textit{no fully connected terms}'
        b = _make_latex(rank, linked, linked_condense=rank > 1) if linked != [] else '    \\textit{no linked disconnected terms}'
        c = _make_latex(rank, unlinked, unlinked_condense=True) if unlinked != [] else '    \\textit{no unlinked disconnected terms}'
        gap = '\n%\n%\n\\\\  &+\n%\n%\n'
        s = a + gap + b + gap + c
    return s.replace('^{}', '').replace('_{}', '')


@spec('latex_full_cc._filter_out_valid_s_terms', props='P06 P08 P12 P20', value=False,
      opaque={'latex_full_cc._generate_valid_s_n_operator_permutations': 'opss', 'latex_full_cc._generate_all_omega_h_connection_permutations': 'ctss',
              'latex_full_cc._remove_duplicate_s_permutations': 'ctss', 'latex_full_cc._generate_explicit_connections': 'terms_fcc', 'latex_full_cc._remove_f_zero_terms': 'terms_fcc'})
def valid_terms(omega: 'op', H: 'H', s_series_term: 'ops1', term_list: [], total_list: [], remove_f_terms: 'bool'):
    """every explicit connection of every accepted product, for every h"""
    for h in H.operator_list:
        ok = _generate_valid_s_n_operator_permutations(omega, h, [[s] for s in s_series_term])
        if ok != []:
            found = _generate_explicit_connections(omega, h, _remove_duplicate_s_permutations(_generate_all_omega_h_connection_permutations(omega, h, ok)))
            if remove_f_terms and omega.m >= 1 and h.n >= 1:
                found = _remove_f_zero_terms(found)
            for t in found:
                if t[2] != set():
                    total_list.append(t)
