"""Reference definitions for latex_full_cc (see DESIGN.md)."""
from collections import namedtuple
import itertools as it
from latex_defines import *
import reference_latex_headers as headers
from common_imports import tab, summation_indices, unlinked_indices, old_print_wrapper
from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple, omega_namedtuple, connected_namedtuple, disconnected_namedtuple
from truncations import _verify_fcc_truncations
from truncation_keys import TruncationsKeys as tkeys
import log_conf
h_operator_namedtuple = namedtuple('h_operator', ['rank', 'm', 'n'])
s_operator_namedtuple = namedtuple('s_operator', ['maximum_rank', 'operator_list'])
connected_omega_operator_namedtuple = namedtuple('connected_omega', ['rank', 'm', 'n', 'm_h', 'n_h', 'm_t', 'n_t'])
connected_h_operator_namedtuple = namedtuple('connected_h', ['rank', 'm', 'n', 'm_o', 'n_o', 'm_t', 'n_t'])


def generate_omega_operator(maximum_cc_rank=2, omega_max_order=3):
    return_list = []
    for m in range(maximum_cc_rank + 1):
        for n in range(maximum_cc_rank + 1 - m):
            name = 'd' * m + 'b' * n
            if m + n <= omega_max_order:
                return_list.append(general_operator_namedtuple(name, m + n, m, n))
    return_list.sort(key=lambda x: len(x.name))
    return omega_namedtuple(maximum_cc_rank, return_list)


def generate_full_cc_hamiltonian_operator(maximum_rank=2):
    return_list = []
    for m in range(maximum_rank + 1):
        for n in range(maximum_rank + 1 - m):
            return_list.append(h_operator_namedtuple(m + n, m, n))
    return hamiltonian_namedtuple(maximum_rank, return_list)


def generate_s_operator(maximum_cc_rank=2, only_ground_state=False):
    return_list = []
    for m in range(maximum_cc_rank + 1):
        for n in range(maximum_cc_rank + 1 - m):
            if only_ground_state and n > 0:
                continue
            if m == n == 0:
                continue
            name = 's'
            name += f'^{m}' if m > 0 else ''
            name += f'_{n}' if n > 0 else ''
            return_list.append(general_operator_namedtuple(name, m + n, m, n))
    return s_operator_namedtuple(maximum_cc_rank, return_list)


def _zero_order_s_taylor_expansion(s_taylor_expansion):
    s_taylor_expansion[0] = general_operator_namedtuple('1', 0, 0, 0)


def _1st_order_s_taylor_expansion(s_taylor_expansion, S):
    s_taylor_expansion[1] = S.operator_list


def _2nd_or_higher_order_s_taylor_expansion(s_taylor_expansion, S, s_taylor_max_order):
    for n in range(2, s_taylor_max_order + 1):
        s_taylor_expansion[n] = [list(tup) for tup in it.product(S.operator_list, repeat=n)]


def generate_s_taylor_expansion(maximum_cc_rank=2, s_taylor_max_order=3, only_ground_state=False):
    S = generate_s_operator(maximum_cc_rank, only_ground_state)
    s_taylor_expansion = [None] * (s_taylor_max_order + 1)
    _zero_order_s_taylor_expansion(s_taylor_expansion)
    if s_taylor_max_order >= 1:
        _1st_order_s_taylor_expansion(s_taylor_expansion, S)
    if s_taylor_max_order >= 2:
        _2nd_or_higher_order_s_taylor_expansion(s_taylor_expansion, S, s_taylor_max_order)
    return s_taylor_expansion


def _debug_print_valid_term_list(valid_term_list, sn_terms=False):
    s_1_start_index = 0
    s_n_start_index = 0
    for idx, term in enumerate(valid_term_list):
        s_list = term[2]
        if len(s_list) == 1 and s_list[0] == disconnected_namedtuple(0, 0, 0, 0):
            s_1_start_index += 1
        elif len(s_list) >= 2:
            s_n_start_index = idx
            break
    for term in valid_term_list[0:s_1_start_index]:
        pass
    for term in valid_term_list[s_1_start_index:s_n_start_index]:
        pass
    if sn_terms:
        for term in valid_term_list[s_n_start_index:]:
            pass
    return


def _debug_print_different_types_of_terms(fully, linked, unlinked):
    for term in fully:
        pass
    for term in linked:
        pass
    for term in unlinked:
        pass


def _build_latex_h_string(h, unsummed=False):
    string = 'h'
    index_list = summation_indices if not unsummed else unlinked_indices
    if h.m > 0:
        string += f'^{{{index_list[0:h.m]}}}'
    if h.n > 0:
        string += f'_{{{index_list[h.m:h.m + h.n]}}}'
    if string == 'h':
        string = 'h_0'
    return string.replace('h', bold_h_latex)


def _build_latex_t_string(s):
    string = 't'
    if s.h_n > 0 or s.o_n > 0:
        string += f'^{{{summation_indices[s.h_m:s.h_m + s.h_n]}{unlinked_indices[s.o_m:s.o_m + s.o_n]}}}'
    if s.h_m > 0 or s.o_m > 0:
        string += f'_{{{summation_indices[0:s.h_m]}{unlinked_indices[0:s.o_m]}}}'
    if string == 't':
        string = ''
    return string.replace('t', bold_t_latex)


def _t_joining_with_t_terms(omega, h, s_list, nof_creation_ops):
    available_b = omega.n + h.n
    available_d = omega.m + h.m
    required_b = sum([s.m for s in s_list])
    required_d = sum([s.n for s in s_list])
    if required_b > available_b or required_d > available_d:
        return True
    return False


def _omega_joining_with_itself(omega, h, s_list):
    if omega.m == 0 or omega.n == 0:
        return False
    if omega.n > 0 and h.m > 0 or (omega.m > 0 and h.n > 0):
        return False
    for s in s_list:
        if omega.n > 0 and s.m > 0 or (omega.m > 0 and s.n > 0):
            return False
    return True


def _h_joining_with_itself(omega, h, s_list):
    if h.m == 0 or h.n == 0:
        return False
    if h.m > 0 and omega.n > 0 or (h.n > 0 and omega.m > 0):
        return False
    for s in s_list:
        if h.m > 0 and s.n > 0 or (h.n > 0 and s.m > 0):
            return False
    return True


def _build_h_string(h):
    string = 'h'
    if h.m > 0:
        string += f'^{{{h.m}}}'
    if h.n > 0:
        string += f'_{{{h.n}}}'
    if string == 'h':
        string = 'h_0'
    return string


def _generate_valid_s_n_operator_permutations(omega, h, s_series_term):
    valid_permutations = []
    for perm in s_series_term:
        nof_creation_ops = omega.m + h.m + sum([s.m for s in perm])
        nof_annhiliation_ops = omega.n + h.n + sum([s.n for s in perm])
        cannot_pair_off_b_d_operators = bool(nof_creation_ops != nof_annhiliation_ops)
        if cannot_pair_off_b_d_operators:
            continue
        if _t_joining_with_t_terms(omega, h, perm, nof_creation_ops):
            continue
        if _omega_joining_with_itself(omega, h, perm):
            continue
        if _h_joining_with_itself(omega, h, perm):
            continue
        valid_permutations.append(perm)
    return valid_permutations


def _generate_all_valid_t_connection_permutations(omega, h, s_term_list, log_invalid=True):
    valid_upper_perm_combinations = []
    valid_lower_perm_combinations = []
    m_perms, n_perms = ([], [])
    for s_term in s_term_list:
        M, N = (s_term.m, s_term.n)
        m_list = list(range(0, M + 1))
        n_list = list(range(0, N + 1))
        m_perms.append([(i, M - i) for i in m_list])
        n_perms.append([(i, N - i) for i in n_list])
    combined_m_perms = list(it.product(*m_perms))
    for m_perm in combined_m_perms:
        total_o_m = sum([t[0] for t in m_perm])
        total_h_m = sum([t[1] for t in m_perm])
        if total_h_m <= h.n and total_o_m <= omega.n:
            valid_upper_perm_combinations.append(m_perm)
    combined_n_perms = list(it.product(*n_perms))
    for n_perm in combined_n_perms:
        total_o_n = sum([t[0] for t in n_perm])
        total_h_n = sum([t[1] for t in n_perm])
        if total_h_n <= h.m and total_o_n <= omega.m:
            valid_lower_perm_combinations.append(n_perm)
    return (valid_upper_perm_combinations, valid_lower_perm_combinations)


def _generate_all_omega_h_connection_permutations(omega, h, valid_permutations, found_it_bool=False):
    annotated_permutations = []
    for perm in valid_permutations:
        upper_perms, lower_perms = _generate_all_valid_t_connection_permutations(omega, h, perm)
        for upper in upper_perms:
            for lower in lower_perms:
                assert len(upper) == len(lower)
                s_list = []
                for i in range(len(upper)):
                    s_kwargs = {'m_o': upper[i][0], 'm_h': upper[i][1], 'n_o': lower[i][0], 'n_h': lower[i][1]}
                    if s_kwargs['m_h'] == 0 and s_kwargs['n_h'] == 0:
                        s_list.append(disconnected_namedtuple(**s_kwargs))
                    else:
                        s_list.append(connected_namedtuple(**s_kwargs))
                annotated_permutations.append(s_list)
    return annotated_permutations


def _remove_duplicate_s_permutations(s_list):
    duplicate_set = set()
    for i, a in enumerate(s_list):
        a.sort()
        a = tuple(a)
        if a not in duplicate_set:
            duplicate_set.add(a)
        else:
            pass
    return duplicate_set


def _generate_explicit_connections(omega, h, unique_s_permutations):
    labeled_permutations = []
    for s_list in unique_s_permutations:
        o_kwargs = {'m_t': [s.n_o for s in s_list], 'n_t': [s.m_o for s in s_list]}
        h_kwargs = {'m_t': [s.n_h for s in s_list], 'n_t': [s.m_h for s in s_list]}
        o_kwargs.update({'rank': omega.m + omega.n, 'm': omega.m, 'n': omega.n})
        h_kwargs.update({'rank': h.m + h.n, 'm': h.m, 'n': h.n})
        o_kwargs['m_h'] = o_kwargs['m'] - sum(o_kwargs['m_t'])
        o_kwargs['n_h'] = o_kwargs['n'] - sum(o_kwargs['n_t'])
        h_kwargs['m_o'] = h_kwargs['m'] - sum(h_kwargs['m_t'])
        h_kwargs['n_o'] = h_kwargs['n'] - sum(h_kwargs['n_t'])
        assert o_kwargs['m_h'] >= 0 and o_kwargs['n_h'] >= 0
        assert h_kwargs['m_o'] >= 0 and h_kwargs['n_o'] >= 0
        if h_kwargs['m_o'] != o_kwargs['n_h']:
            term_string = f'{tab}{omega}, {h}, {s_list}\n{tab}o_kwargs={o_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        elif h_kwargs['n_o'] != o_kwargs['m_h']:
            term_string = f'{tab}{omega}, {h}, {s_list}\n{tab}o_kwargs={o_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        new_omega = connected_omega_operator_namedtuple(**o_kwargs)
        new_h = connected_h_operator_namedtuple(**h_kwargs)
        labeled_permutations.append([new_omega, new_h, s_list])
    return labeled_permutations


def _remove_f_zero_terms(labeled_permutations):
    return_list = []
    for term in labeled_permutations:
        omega, h, perm = term
        if omega.m_h >= 1:
            continue
        else:
            return_list.append(term)
    return return_list


def _filter_out_valid_s_terms(omega, H, s_series_term, term_list, total_list, remove_f_terms=True):
    if isinstance(s_series_term, general_operator_namedtuple):
        s_order = 0
        s_series_term = [[s_series_term]]
    elif isinstance(s_series_term, list) and isinstance(s_series_term[0], general_operator_namedtuple):
        s_order = 1
        s_series_term = [[term] for term in s_series_term]
    elif isinstance(s_series_term, list) and isinstance(s_series_term[0], list) and (len(s_series_term[0]) >= 2):
        s_order = 'n'
    for h in H.operator_list:
        if True:
            nof_terms = sum([len(x) for x in s_series_term])
        valid_permutations = _generate_valid_s_n_operator_permutations(omega, h, s_series_term)
        if valid_permutations == []:
            continue
        s_connection_permutations = _generate_all_omega_h_connection_permutations(omega, h, valid_permutations)
        unique_s_permutations = _remove_duplicate_s_permutations(s_connection_permutations)
        labeled_permutations = _generate_explicit_connections(omega, h, unique_s_permutations)
        if remove_f_terms and (omega.m >= 1 and h.n >= 1):
            labeled_permutations = _remove_f_zero_terms(labeled_permutations)
        for term in labeled_permutations:
            if term[2] != set():
                total_list.append(term)
    return


def _seperate_s_terms_by_connection(total_list):
    fully, linked, unlinked = ([], [], [])
    for term in total_list:
        omega, h, s_term_list = term
        linked_flag = False
        if len(s_term_list) == 1 and s_term_list[0] == disconnected_namedtuple(0, 0, 0, 0):
            fully.append(term)
            continue
        for i, s in enumerate(s_term_list):
            if isinstance(s, connected_namedtuple):
                continue
            elif isinstance(s, disconnected_namedtuple):
                if s.m_o == omega.n and s.n_o == omega.m:
                    unlinked.append(term)
                    break
                else:
                    if omega.rank == 1:
                        raise Exception('Linear terms should always be connected or disconnected')
                    linked_flag = True
                    continue
            else:
                raise Exception('term contains something other than connected/disconnected namedtuple??\n')
        else:
            if linked_flag:
                linked.append(term)
            else:
                fully.append(term)
    return (fully, linked, unlinked)


def _build_h_term_latex_labels(h, condense_offset=0, color=True):
    if h.rank == 0:
        return f'{bold_h_latex}_0'
    string = bold_h_latex
    if not color:
        upper_indices = summation_indices[0:h.m - h.m_o]
        upper_indices += unlinked_indices[condense_offset:condense_offset + h.m_o]
    else:
        upper_indices = '\\blue{' + summation_indices[0:h.m - h.m_o] + '}'
        upper_indices += '\\red{' + unlinked_indices[condense_offset:condense_offset + h.m_o] + '}'
    string += f'^{{{upper_indices}}}'
    h_offset = h.m - h.m_o
    if not color:
        lower_indices = summation_indices[h_offset:h_offset + (h.n - h.n_o)]
        lower_indices += unlinked_indices[condense_offset + h.m_o:condense_offset + h.m_o + h.n_o]
    else:
        lower_indices = '\\blue{' + summation_indices[h_offset:h_offset + (h.n - h.n_o)] + '}'
        lower_indices += '\\red{' + unlinked_indices[condense_offset + h.m_o:condense_offset + h.m_o + h.n_o] + '}'
    string += f'_{{{lower_indices}}}'
    return string


def _build_t_term_latex_labels(term, offset_dict, color=True):
    up_label, down_label = ('', '')
    if term.n_h > 0 or term.n_o > 0:
        a, b = (offset_dict['summation_lower'], offset_dict['unlinked'])
        if not color:
            down_label = summation_indices[a:a + term.n_h] + unlinked_indices[b:b + term.n_o]
        else:
            down_label = '\\blue{' + summation_indices[a:a + term.n_h] + '}'
            down_label += '\\red{' + unlinked_indices[b:b + term.n_o] + '}'
        offset_dict['summation_lower'] += term.n_h
        offset_dict['unlinked'] += term.n_o
    if term.m_h > 0 or term.m_o > 0:
        a, b = (offset_dict['summation_upper'], offset_dict['unlinked'])
        if not color:
            up_label = summation_indices[a:a + term.m_h] + unlinked_indices[b:b + term.m_o]
        else:
            up_label = '\\blue{' + summation_indices[a:a + term.m_h] + '}'
            up_label += '\\red{' + unlinked_indices[b:b + term.m_o] + '}'
        offset_dict['summation_upper'] += term.m_h
        offset_dict['unlinked'] += term.m_o
    return f'^{{{up_label}}}_{{{down_label}}}'


def _build_t_term_latex(s, h=None):
    lst = _build_t_term_latex_group([s], h)
    return lst[0]


def _build_t_term_latex_group(s_list, h=None, offset_dict=None):
    t_list = []
    if offset_dict is None:
        offset_dict = {'summation_upper': 0, 'summation_lower': 0, 'unlinked': 0}
    if h is not None:
        offset_dict['summation_upper'] += h.m - h.m_o
        offset_dict['unlinked'] += h.m_o + h.n_o
    for s in s_list:
        t_labels = _build_t_term_latex_labels(s, offset_dict)
        if t_labels != '^{}_{}':
            t_list.append(bold_t_latex + t_labels)
    return t_list


def _validate_s_terms(s_list):
    for s_term in s_list:
        assert isinstance(s_term, (connected_namedtuple, disconnected_namedtuple)), f'The following term is not a connected_namedtuple or a disconnected_namedtuple but a {type(s_term)}\n{s_term}\n'
    return


def _generate_linked_common_terms(term_list):
    aset = set()
    omega = term_list[0][0]
    for x in term_list:
        o, t = (x[0], x[2])
        a = [t[i] for i in range(len(o.m_t)) if isinstance(t[i], disconnected_namedtuple)]
        aset.add(tuple(a))
    z = sorted([list(x) for x in aset], key=len, reverse=True)
    return z


def prepare_condensed_terms(term_list, linked_condense=False, unlinked_condense=False):
    omega = term_list[0][0]
    if unlinked_condense:
        common_factor = disconnected_namedtuple(m_h=0, n_h=0, m_o=omega.n, n_o=omega.m)
        for term in term_list:
            s_list = term[2]
            assert common_factor in s_list, f'common_factor={common_factor!r} not present in s_list={s_list!r}'
        return common_factor
    elif linked_condense:
        if omega.rank not in [2, 3]:
            raise NotImplementedError(f"Condensing linked disconnected terms is only supported for omega's of rank (2,3) not rank {omega.rank}")
        if omega.rank == 2:
            linked_commonfactor_list = _generate_linked_common_terms(term_list)
        if omega.rank == 3:
            linked_commonfactor_list = _generate_linked_common_terms(term_list)
        return linked_commonfactor_list


def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
    if numerator_list == [] or denominator_list == []:
        return (numerator_list, denominator_list)
    numerator_set = set(numerator_list)
    denominator_set = set(denominator_list)
    if numerator_set.isdisjoint(denominator_set):
        return (numerator_list, denominator_list)
    else:
        intersection = numerator_set & denominator_set
    numerator_dict = dict([(key, 0) for key in numerator_set])
    for string in numerator_list:
        numerator_dict[string] += 1
    denominator_dict = dict([(key, 0) for key in denominator_set])
    for string in denominator_list:
        denominator_dict[string] += 1
    for key in intersection:
        a, b = (numerator_dict[key], denominator_dict[key])
        if a > b:
            denominator_dict[key] = 0
            numerator_dict[key] = a - b
        elif a < b:
            denominator_dict[key] = b - a
            numerator_dict[key] = 0
        elif a == b:
            denominator_dict[key] = 0
            numerator_dict[key] = 0
    numerator_list, denominator_list = ([], [])
    for k, v in numerator_dict.items():
        numerator_list.extend([k] * v)
    for k, v in denominator_dict.items():
        denominator_list.extend([k] * v)
    numerator_list.sort()
    denominator_list.sort()
    return (numerator_list, denominator_list)


def _build_latex_prefactor(h, t_list, simplify_flag=True):
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    numerator_list = []
    denominator_list = []
    connected_ts = [t for t in t_list if t.m_h > 0 or t.n_h > 0]
    x = len(set(connected_ts))
    debug_flag = bool(h.n == 2 and h.m == 0 and (len(t_list) == 2) and (t_list[0].m_h == 1) and (t_list[0].m_o == 1) and (t_list[1].m_h == 1) and (t_list[1].m_o == 1))
    if x > 1:
        numerator_list.append(f'{x}!')
    if h.m > 1:
        denominator_list.append(f'{h.m}!')
    if h.n > 1:
        denominator_list.append(f'{h.n}!')
    if len(t_list) > 1:
        denominator_list.append(f'{len(t_list)}!')
    if simplify_flag:
        numerator_list, denominator_list = _simplify_full_cc_python_prefactor(numerator_list, denominator_list)
    numerator = '1' if numerator_list == [] else f'{''.join(numerator_list)}'
    denominator = '1' if denominator_list == [] else f'{''.join(denominator_list)}'
    if numerator == '1' and denominator == '1':
        return ''
    else:
        return f'\\frac{{{numerator}}}{{{denominator}}}'


def _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list):
    t_offset_dict = {'summation_upper': 0, 'summation_lower': 0, 'unlinked': 0}
    linked_list_index = 0
    for i, factor in enumerate(common_linked_factor_list):
        indxs, offset = ([], 0)
        try:
            for t in factor:
                indxs.append(t_list.index(t, offset))
                offset = indxs[-1] + 1
        except ValueError as e:
            if 'not in' in str(e):
                continue
            else:
                raise e
        else:
            if indxs != [] and len(set(indxs)) == len(indxs):
                linked_list_index = i
                new_t_list = [t for i, t in enumerate(t_list) if i not in indxs]
                if 0 == h.m_o == h.n_o:
                    t_offset_dict['unlinked'] += sum([t.m_o + t.n_o for t in factor])
                else:
                    t_offset_dict['unlinked'] += h.m_o + h.n_o + sum([t.m_o + t.n_o for t in factor])
                break
            else:
                new_t_list = t_list
    return (linked_list_index, new_t_list, t_offset_dict)


def _creates_f_prefactor(omega, h):
    return bool(omega.m_h >= 1 and h.n_o >= 1)


def _creates_fbar_prefactor(omega, h):
    return bool(omega.n_h >= 1 and h.m_o >= 1)


def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False, print_prefactors=True, color=False):
    return_list = []
    if unlinked_condense:
        common_unlinked_factor = prepare_condensed_terms(term_list, unlinked_condense=True)
    elif linked_condense:
        common_linked_factor_list = prepare_condensed_terms(term_list, linked_condense=True)
        linked_return_list = [[] for i in range(len(common_linked_factor_list))]
    for term in term_list:
        omega, h, t_list = (term[0], term[1], term[2])
        _validate_s_terms(t_list)
        term_string = ''
        if _creates_f_prefactor(omega, h):
            if omega.m_h == 1:
                term_string += 'f'
            else:
                term_string += f'f^{{{omega.m_h}}}'
        if _creates_fbar_prefactor(omega, h):
            if omega.n_h == 1:
                term_string += '\\bar{f}'
            else:
                term_string += f'\\bar{{f}}^{{{omega.n_h}}}'
        if print_prefactors:
            term_string += _build_latex_prefactor(h, t_list)
        if linked_condense:
            linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
            t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
            h_offset = sum([t.m_o + t.n_o for t in common_linked_factor_list[linked_list_index]])
            term_string += _build_h_term_latex_labels(h, h_offset) + ''.join(t_string_list)
            linked_return_list[linked_list_index].append(term_string)
        else:
            t_string_list = _build_t_term_latex_group(t_list, h=h)
            term_string += _build_h_term_latex_labels(h) + ''.join(t_string_list)
            return_list.append(term_string)
    if unlinked_condense:
        if not color:
            common_latex = _build_t_term_latex(common_unlinked_factor)
            return_list = [term.replace(common_latex, '') for term in return_list]
        else:
            common_latex = _build_t_term_latex(common_unlinked_factor)
            return_list = ['\\disconnected{' + term.replace(common_latex, '') + '}' for term in return_list]
        return f'({' + '.join(return_list)}){common_latex}'
    if linked_condense:
        return_strings = []
        for i, factor in enumerate(common_linked_factor_list):
            common_latex = ''.join(_build_t_term_latex_group(factor))
            return_strings.append(f'({' + '.join(linked_return_list[i])}){common_latex}')
        splitting_string = '\\\\  &+  % split long equation'
        final_string = f'\n{tab}{splitting_string}\n'.join(return_strings)
        return final_string
    else:
        split_number = 7
        if len(return_list) < split_number * 2:
            return f'({' + '.join(return_list)})'
        split_equation_list = []
        for i in range(0, len(return_list) // split_number):
            split_equation_list.append(' + '.join(return_list[i * split_number:(i + 1) * split_number]))
        splitting_string = '\\\\  &+  % split long equation'
        final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
        return f'(\n{final_string}\n)'


def _write_cc_latex_from_lists(rank, fully, linked, unlinked):
    return_string = ''
    if rank == 0:
        return_string += ' + '.join([_make_latex(rank, fully), _make_latex(rank, linked), _make_latex(rank, unlinked)])
        return return_string.replace('^{}', '').replace('_{}', '')
    no_fully = ' ' * 4 + '\\textit{no fully connected terms}'
    no_linked = ' ' * 4 + '\\textit{no linked disconnected terms}'
    no_unlinked = ' ' * 4 + '\\textit{no unlinked disconnected terms}'
    return_string += _make_latex(rank, fully) if fully != [] else no_fully
    return_string += '\n%\n%\n\\\\  &+\n%\n%\n'
    if rank > 1:
        return_string += _make_latex(rank, linked, linked_condense=True) if linked != [] else no_linked
    else:
        return_string += _make_latex(rank, linked, linked_condense=False) if linked != [] else no_linked
    return_string += '\n%\n%\n\\\\  &+\n%\n%\n'
    return_string += _make_latex(rank, unlinked, unlinked_condense=True) if unlinked != [] else no_unlinked
    return return_string.replace('^{}', '').replace('_{}', '')


def _generate_cc_latex_equations(omega, H, s_taylor_expansion, remove_f_terms=True):
    simple_repr_list = []
    valid_term_list = []
    for count, s_series_term in enumerate(s_taylor_expansion):
        _filter_out_valid_s_terms(omega, H, s_series_term, simple_repr_list, valid_term_list, remove_f_terms=remove_f_terms)
    fully, linked, unlinked = _seperate_s_terms_by_connection(valid_term_list)
    return _write_cc_latex_from_lists(omega.rank, fully, linked, unlinked)


def _generate_left_hand_side(omega):
    omega_order = omega.m + omega.n
    if omega_order == 0:
        return 'i\\left(\\varepsilon\\right)'
    single_t_list = [[m, n] for m in range(0, omega_order + 1) for n in range(0, omega_order + 1) if n == m != 0 or n != m]
    all_combinations_list = []
    for length in range(1, omega_order + 1):
        all_combinations_list.append(list(it.product(single_t_list, repeat=length)))
    matched_set = set()
    for list_of_t_terms in all_combinations_list:
        for t_terms in list_of_t_terms:
            upper_sum = sum([t[0] for t in t_terms])
            lower_sum = sum([t[1] for t in t_terms])
            if omega.m == lower_sum and omega.n == upper_sum:
                matched_set.add(tuple(sorted([tuple(x) for x in t_terms], reverse=True)))
    sorted_list = sorted([[b for b in a] for a in matched_set], key=len)
    latex_t_terms_list = []
    for t_group in sorted_list:
        count = 0
        group_list = []
        for t in t_group:
            upper_label = summation_indices[count:count + t[0]]
            count += t[0]
            lower_label = summation_indices[count:count + t[1]]
            count += t[1]
            group_list.append(f'{bold_t_latex}^{{{upper_label}}}_{{{lower_label}}}')
        latex_t_terms_list.append(group_list)
    epsilon_list = [''.join(term) + '\\varepsilon' for term in latex_t_terms_list]
    derivative_list = []
    for t_group in latex_t_terms_list:
        for i in range(len(t_group)):
            string = ''
            if len(t_group[0:i]) > 0:
                string += f'{''.join(t_group[0:i])}'
            string += f'\\dv{{{t_group[i]}}}{{\\tau}}'
            if len(t_group[i:]) > 0:
                string += f'{''.join(t_group[i + 1:])}'
            derivative_list.append(string)
    return_string = ' + '.join([*derivative_list, *epsilon_list])
    return f'i\\left({return_string}\\right)'


def _wrap_align_environment(omega, rank_name, lhs, eqns):
    omega_string = ''
    for i, char in enumerate(omega.name):
        if char == 'd':
            omega_string += f'\\up{{{summation_indices[i]}}}'
        elif char == 'b':
            omega_string += f'\\down{{{summation_indices[i]}}}'
    if omega_string == '':
        omega_string = '1'
    string = f'\\begin{{align}}\\begin{{split}}\n{tab}\\hat{{\\Omega}} = {omega_string}\n\\\\ LHS &=\n{tab}{lhs}\n\\\\ RHS &=\n%\n%\n{eqns}\n\\end{{split}}\\end{{align}}\n\n'
    return string


def generate_full_cc_latex(truncations, **kwargs):
    only_ground_state = kwargs['only_ground_state']
    remove_f_terms = kwargs['remove_f_terms']
    path = kwargs['path']
    _verify_fcc_truncations(truncations)
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    s_taylor_max_order = truncations[tkeys.S]
    omega_max_order = truncations[tkeys.P]
    master_omega = generate_omega_operator(maximum_cc_rank, omega_max_order)
    H = generate_full_cc_hamiltonian_operator(maximum_h_rank)
    s_taylor_expansion = generate_s_taylor_expansion(maximum_cc_rank, s_taylor_max_order, only_ground_state)
    latex_code = ''
    rank_name_list = ['0 order', 'LINEAR', 'QUADRATIC', 'CUBIC', 'QUARTIC', 'QUINTIC', 'SEXTIC', 'SEPTIC', 'OCTIC']
    for i, omega_term in enumerate(master_omega.operator_list):
        if False and omega_term.rank not in [1]:
            continue
        lhs_string = _generate_left_hand_side(omega_term)
        equations_string = _generate_cc_latex_equations(omega_term, H, s_taylor_expansion, remove_f_terms)
        latex_code += '%\n%\n%\n%\n%\n\n'
        rank_name = rank_name_list[omega_term.rank]
        if omega_term.rank > master_omega.operator_list[i - 1].rank:
            latex_code += '\\newpage\n' if omega_term.rank >= 2 else ''
            latex_code += f'\\subsection{{{rank_name.capitalize()} Equations}}\n\n'
        latex_code += _wrap_align_environment(omega_term, rank_name, lhs_string, equations_string)
    if only_ground_state:
        header = headers.ground_state_vecc_latex_header
    else:
        header = headers.full_vecc_latex_header
    with open(path, 'w') as fp:
        fp.write(header + latex_code + '\\end{document}')
    return
