"""Reference definitions for latex_zhz (see DESIGN.md)."""
import math
from fractions import Fraction
import itertools as it
from collections import namedtuple
from latex_defines import *
from common_imports import tab, z_summation_indices, z_unlinked_indices, summation_indices, old_print_wrapper
from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
import reference_latex_headers as headers
from truncations import _verify_zhz_truncations
from truncation_keys import TruncationsKeys as tkeys
import log_conf
h_operator_namedtuple = namedtuple('h_operator', ['rank', 'm', 'n'])
z_operator_namedtuple = namedtuple('z_operator', ['maximum_rank', 'operator_list'])
connected_lhs_operator_namedtuple = namedtuple('connected_LHS', ['rank', 'm', 'n', 'm_l', 'n_l', 'm_h', 'n_h', 'm_r', 'n_r'])
connected_h_z_operator_namedtuple = namedtuple('connected_h_z', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_l', 'n_l', 'm_r', 'n_r'])
connected_z_left_operator_namedtuple = namedtuple('connected_z_left', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_h', 'n_h', 'm_r', 'n_r'])
connected_z_right_operator_namedtuple = namedtuple('connected_z_right', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_h', 'n_h', 'm_l', 'n_l'])
disconnected_z_left_operator_namedtuple = namedtuple('disconnected_z_left', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_h', 'n_h', 'm_r', 'n_r'])
disconnected_z_right_operator_namedtuple = namedtuple('disconnected_z_right', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_h', 'n_h', 'm_l', 'n_l'])


def generate_z_operator(maximum_cc_rank, only_ground_state):
    return_list = []
    for m in range(maximum_cc_rank + 1):
        for n in range(maximum_cc_rank + 1 - m):
            if only_ground_state and n > 0:
                continue
            name = 'z'
            name += f'^{m}' if m > 0 else ''
            name += f'_{n}' if n > 0 else ''
            return_list.append(general_operator_namedtuple(name, m + n, m, n))
    return z_operator_namedtuple(maximum_cc_rank, return_list)


def _write_t_symmetric_latex_from_lists(rank, fully):
    return_string = ''
    if rank == 0:
        return_string = _make_latex(rank, fully)
        return return_string.replace('^{}', '').replace('_{}', '')
    no_fully = ' ' * 4 + '\\textit{no fully connected terms}'
    return_string += _make_latex(rank, fully) if fully != [] else no_fully
    return return_string.replace('^{}', '').replace('_{}', '')


def _generate_t_symmetric_latex_equations(omega, H, s_taylor_expansion, remove_f_terms=True):
    simple_repr_list = []
    valid_term_list = []
    for count, s_series_term in enumerate(s_taylor_expansion):
        _filter_out_valid_s_terms(omega, H, s_series_term, simple_repr_list, valid_term_list, remove_f_terms=remove_f_terms)
    fully, linked, unlinked = _seperate_s_terms_by_connection(valid_term_list)
    return _write_t_symmetric_latex_from_lists(omega.rank, fully)


def _generate_t_symmetric_left_hand_side(omega):
    omega_order = omega.m + omega.n
    if omega_order == 0:
        return 'i\\left(\\dv{\\bs_{0,\\gamma}}{\\tau}\\right)'
    single_t_list = [[m, n] for m in range(0, omega_order + 1) for n in range(0, omega_order + 1) if n == m != 0 or n != m]
    all_combinations_list = []
    for length in range(1, omega_order + 1):
        all_combinations_list.append(list(it.product(single_t_list, repeat=length)))
    matched_set = set()
    for list_of_t_terms in all_combinations_list:
        for t_terms in list_of_t_terms:
            upper_sum = sum([t[0] for t in t_terms])
            lower_sum = sum([t[1] for t in t_terms])
            if omega.m == lower_sum and omega.n == upper_sum:
                matched_set.add(tuple(sorted([tuple(x) for x in t_terms], reverse=True)))
    sorted_list = sorted([[b for b in a] for a in matched_set], key=len)
    latex_t_terms_list = []
    for t_group in sorted_list:
        count = 0
        group_list = []
        for t in t_group:
            upper_label = summation_indices[count:count + t[0]]
            count += t[0]
            lower_label = summation_indices[count:count + t[1]]
            count += t[1]
            lower_label += '\\gamma' if lower_label == '' else ',\\gamma'
            group_list.append(f'{bold_t_latex}^{{{upper_label}}}_{{{lower_label}}}')
        latex_t_terms_list.append(group_list)
    derivative_list = []
    for t_group in latex_t_terms_list:
        for i in range(len(t_group)):
            string = ''
            if len(t_group[0:i]) > 0:
                string += f'{''.join(t_group[0:i])}'
            string += f'\\dv{{{t_group[i]}}}{{\\tau}}'
            if len(t_group[i:]) > 0:
                string += f'{''.join(t_group[i + 1:])}'
            derivative_list.append(string)
    return_string = ' + '.join(derivative_list)
    return f'i\\left({return_string}\\right)'


def _make_z_symmetric_latex(rank, term_list, linked_condense=False, unlinked_condense=False, print_prefactors=True):
    return_list = []
    if unlinked_condense:
        common_unlinked_factor = prepare_condensed_terms(term_list, unlinked_condense=True)
    elif linked_condense:
        common_linked_factor_list = prepare_condensed_terms(term_list, linked_condense=True)
        linked_return_list = [[] for i in range(len(common_linked_factor_list))]
    for term in term_list:
        LHS, h, t_list = (term[0], term[1], term[2])
        _validate_s_terms(t_list)
        term_string = ''
        if _creates_f_prefactor(LHS, h):
            if LHS.m_h == 1:
                term_string += 'f'
            else:
                term_string += f'f^{{{LHS.m_h}}}'
        if _creates_fbar_prefactor(LHS, h):
            if LHS.n_h == 1:
                term_string += '\\bar{f}'
            else:
                term_string += f'\\bar{{f}}^{{{LHS.n_h}}}'
        if print_prefactors:
            term_string += _build_latex_prefactor(h, t_list)
        if linked_condense:
            linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
            t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
            h_offset = sum([t.m_o + t.n_o for t in common_linked_factor_list[linked_list_index]])
            term_string += _build_h_term_latex_labels(h, h_offset) + ''.join(t_string_list)
            linked_return_list[linked_list_index].append(term_string)
        else:
            t_string_list = _build_t_term_latex_group(t_list, h=h)
            term_string += _build_h_term_latex_labels(h) + ''.join(t_string_list)
            return_list.append(term_string)
    if unlinked_condense:
        common_latex = _build_t_term_latex(common_unlinked_factor)
        return_list = [term.replace(common_latex, '') for term in return_list]
        return f'({' + '.join(return_list)}){common_latex}'
    if linked_condense:
        return_strings = []
        for i, factor in enumerate(common_linked_factor_list):
            common_latex = ''.join(_build_t_term_latex_group(factor))
            return_strings.append(f'({' + '.join(linked_return_list[i])}){common_latex}')
        splitting_string = '\\\\  &+  % split long equation'
        final_string = f'\n{tab}{splitting_string}\n'.join(return_strings)
        return final_string
    else:
        split_number = 7
        if len(return_list) < split_number * 2:
            return f'({' + '.join(return_list)})'
        split_equation_list = []
        for i in range(0, len(return_list) // split_number):
            split_equation_list.append(' + '.join(return_list[i * split_number:(i + 1) * split_number]))
        splitting_string = '\\\\  &+  % split long equation'
        final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
        return f'(\n{final_string}\n)'


def _z_joining_with_z_terms(LHS, h, left_z, right_z):
    available_b_for_left_z = LHS.n + h.n + right_z.n
    available_d_for_left_z = LHS.m + h.m + right_z.m
    available_b_for_right_z = LHS.n + h.n + left_z.n
    available_d_for_right_z = LHS.m + h.m + left_z.m
    required_b_for_left_z = left_z.m
    required_d_for_left_z = left_z.n
    required_b_for_right_z = right_z.m
    required_d_for_right_z = right_z.n
    if required_b_for_left_z > available_b_for_left_z:
        return True
    if required_d_for_left_z > available_d_for_left_z:
        return True
    if required_b_for_right_z > available_b_for_right_z:
        return True
    if required_d_for_right_z > available_d_for_right_z:
        return True
    return False


def _generate_valid_z_n_operator_permutations(LHS, h, all_z_permutations):
    valid_permutations = []
    for perm in all_z_permutations:
        left_z, right_z = perm
        nof_creation_ops = LHS.m + h.m + left_z.m + right_z.m
        nof_annhiliation_ops = LHS.n + h.n + left_z.n + right_z.n
        cannot_pair_off_b_d_operators = bool(nof_creation_ops != nof_annhiliation_ops)
        if cannot_pair_off_b_d_operators:
            continue
        if _z_joining_with_z_terms(LHS, h, left_z, right_z):
            continue
        if _omega_joining_with_itself(LHS, h, perm):
            continue
        if _h_joining_with_itself(LHS, h, perm):
            continue
        valid_permutations.append(perm)
    return valid_permutations


def _generate_all_valid_z_connection_permutations(LHS, h, z_term_list, log_invalid=True):
    valid_upper_perm_combinations = []
    valid_lower_perm_combinations = []
    m_perms, n_perms = ([], [])
    assert len(z_term_list) == 2
    left_z, right_z = z_term_list
    for s_term in z_term_list:
        M, N = (s_term.m, s_term.n)
        temp_list = []
        for a, b in it.product(range(M + 1), repeat=2):
            if a + b <= M:
                temp_list.append((a, b, M - (a + b)))
        m_perms.append(temp_list)
        temp_list = []
        for a, b in it.product(range(N + 1), repeat=2):
            if a + b <= N:
                temp_list.append((a, b, N - (a + b)))
        n_perms.append(temp_list)
    combined_m_perms = list(it.product(*m_perms))
    for m_perm in combined_m_perms:
        total_lhs_m = sum([t[0] for t in m_perm])
        total_h_m = sum([t[1] for t in m_perm])
        total_lhs_balanced = bool(total_lhs_m <= LHS.n)
        total_h_balanced = bool(total_h_m <= h.n)
        left_z_balanced_right = bool(m_perm[0][2] <= right_z.n)
        right_z_balanced_left = bool(m_perm[1][2] <= left_z.n)
        if total_h_balanced and total_lhs_balanced and left_z_balanced_right and right_z_balanced_left:
            valid_upper_perm_combinations.append(m_perm)
    combined_n_perms = list(it.product(*n_perms))
    for n_perm in combined_n_perms:
        total_lhs_n = sum([t[0] for t in n_perm])
        total_h_n = sum([t[1] for t in n_perm])
        total_lhs_balanced = bool(total_lhs_n <= LHS.m)
        total_h_balanced = bool(total_h_n <= h.m)
        left_z_balanced_right = bool(n_perm[0][2] <= right_z.m)
        right_z_balanced_left = bool(n_perm[1][2] <= left_z.m)
        if total_h_balanced and total_lhs_balanced and left_z_balanced_right and right_z_balanced_left:
            valid_lower_perm_combinations.append(n_perm)
    return (valid_upper_perm_combinations, valid_lower_perm_combinations)


def _generate_all_o_h_z_connection_permutations(LHS, h, valid_z_permutations, found_it_bool=False):
    annotated_permutations = []
    i = 0
    for perm in valid_z_permutations:
        left_z, right_z = perm
        upper_perms, lower_perms = _generate_all_valid_z_connection_permutations(LHS, h, perm)
        for upper in upper_perms:
            for lower in lower_perms:
                assert len(upper) == len(lower)
                left_z_upper, right_z_upper = upper
                left_z_lower, right_z_lower = lower
                z_left_kwargs, z_right_kwargs = ({}, {})
                z_list = []
                if left_z.name is None:
                    assert left_z_upper == left_z_lower == (0, 0, 0)
                    z_list.append(None)
                else:
                    z_left_kwargs = {'rank': left_z.rank, 'm': left_z.m, 'm_lhs': left_z_upper[0], 'm_h': left_z_upper[1], 'm_r': left_z_upper[2], 'n': left_z.n, 'n_lhs': left_z_lower[0], 'n_h': left_z_lower[1], 'n_r': left_z_lower[2]}
                    if z_left_kwargs['m_h'] == z_left_kwargs['n_h'] == 0:
                        z_list.append(disconnected_z_left_operator_namedtuple(**z_left_kwargs))
                    else:
                        z_list.append(connected_z_left_operator_namedtuple(**z_left_kwargs))
                if right_z.name is None:
                    assert right_z_upper == right_z_lower == (0, 0, 0)
                    z_list.append(None)
                else:
                    z_right_kwargs = {'rank': right_z.rank, 'm': right_z.m, 'm_lhs': right_z_upper[0], 'm_h': right_z_upper[1], 'm_l': right_z_upper[2], 'n': right_z.n, 'n_lhs': right_z_lower[0], 'n_h': right_z_lower[1], 'n_l': right_z_lower[2]}
                    if z_right_kwargs['m_h'] == z_right_kwargs['n_h'] == 0:
                        z_list.append(disconnected_z_right_operator_namedtuple(**z_right_kwargs))
                    else:
                        z_list.append(connected_z_right_operator_namedtuple(**z_right_kwargs))
                if z_left_kwargs != {} and z_right_kwargs != {}:
                    if z_left_kwargs['m_r'] != z_right_kwargs['n_l']:
                        term_string = f'{tab}{LHS}, {h}, {perm}\n{tab}z_left_kwargs={z_left_kwargs!r}\n{tab}z_right_kwargs={z_right_kwargs!r}\n'
                        continue
                    if z_left_kwargs['n_r'] != z_right_kwargs['m_l']:
                        term_string = f'{tab}{LHS}, {h}, {perm}\n{tab}z_left_kwargs={z_left_kwargs!r}\n{tab}z_right_kwargs={z_right_kwargs!r}\n'
                        continue
                annotated_permutations.append(z_list)
        i += 1
    return annotated_permutations


def _generate_explicit_z_connections(LHS, h, unique_s_permutations):
    labeled_permutations = []
    for z_list in unique_s_permutations:
        z_left, z_right = z_list
        lhs_kwargs, h_kwargs = ({}, {})
        assert len(z_list) == 2
        z_left_exists = isinstance(z_left, (connected_z_left_operator_namedtuple, disconnected_z_left_operator_namedtuple))
        z_right_exists = isinstance(z_right, (connected_z_right_operator_namedtuple, disconnected_z_right_operator_namedtuple))
        if z_left is None:
            assert z_right_exists
        elif z_right is None:
            assert z_left_exists
        else:
            assert z_right_exists
            assert z_left_exists
        lhs_kwargs = {'m_l': z_left.n_lhs if z_left_exists else 0, 'n_l': z_left.m_lhs if z_left_exists else 0, 'm_r': z_right.n_lhs if z_right_exists else 0, 'n_r': z_right.m_lhs if z_right_exists else 0}
        h_kwargs = {'m_l': z_left.n_h if z_left_exists else 0, 'n_l': z_left.m_h if z_left_exists else 0, 'm_r': z_right.n_h if z_right_exists else 0, 'n_r': z_right.m_h if z_right_exists else 0}
        lhs_kwargs.update({'rank': LHS.m + LHS.n, 'm': LHS.m, 'n': LHS.n})
        h_kwargs.update({'rank': h.m + h.n, 'm': h.m, 'n': h.n})
        lhs_kwargs['m_h'] = lhs_kwargs['m'] - (lhs_kwargs['m_l'] + lhs_kwargs['m_r'])
        lhs_kwargs['n_h'] = lhs_kwargs['n'] - (lhs_kwargs['n_l'] + lhs_kwargs['n_r'])
        h_kwargs['m_lhs'] = h_kwargs['m'] - (h_kwargs['m_l'] + h_kwargs['m_r'])
        h_kwargs['n_lhs'] = h_kwargs['n'] - (h_kwargs['n_l'] + h_kwargs['n_r'])
        assert lhs_kwargs['m_h'] >= 0 and lhs_kwargs['n_h'] >= 0
        assert h_kwargs['m_lhs'] >= 0 and h_kwargs['n_lhs'] >= 0
        if h_kwargs['m_lhs'] != lhs_kwargs['n_h']:
            term_string = f'{tab}{LHS}, {h}, {z_list}\n{tab}lhs_kwargs={lhs_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        elif h_kwargs['n_lhs'] != lhs_kwargs['m_h']:
            term_string = f'{tab}{LHS}, {h}, {z_list}\n{tab}lhs_kwargs={lhs_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        new_LHS = connected_lhs_operator_namedtuple(**lhs_kwargs)
        new_h = connected_h_z_operator_namedtuple(**h_kwargs)
        labeled_permutations.append([new_LHS, new_h, z_list])
        for p in labeled_permutations:
            for x in p:
                pass
    return labeled_permutations


def _filter_out_valid_z_terms(LHS, H, Z_left, Z_right, total_list):
    zhz_debug = False
    if Z_left is None:
        z_left_terms = [general_operator_namedtuple(None, 0, 0, 0)]
        z_right_terms = Z_right.operator_list
        assert isinstance(z_right_terms, list) and isinstance(z_right_terms[0], general_operator_namedtuple)
    elif Z_right is None:
        z_left_terms = Z_left.operator_list
        z_right_terms = [general_operator_namedtuple(None, 0, 0, 0)]
        assert isinstance(z_left_terms, list) and isinstance(z_left_terms[0], general_operator_namedtuple)
    else:
        zhz_debug = True
        z_left_terms = Z_left.operator_list
        z_right_terms = Z_right.operator_list
        assert isinstance(z_right_terms, list) and isinstance(z_right_terms[0], general_operator_namedtuple)
        assert isinstance(z_left_terms, list) and isinstance(z_left_terms[0], general_operator_namedtuple)
    all_z_permutations = [(z_left, z_right) for z_left, z_right in it.product(z_left_terms, z_right_terms)]
    if zhz_debug or False:
        for a in all_z_permutations:
            pass
        if zhz_debug or False:
            unique_z_permutation_list = sorted(list(set(all_z_permutations)))
            for a in unique_z_permutation_list:
                pass
    for h in H.operator_list:
        valid_permutations = _generate_valid_z_n_operator_permutations(LHS, h, all_z_permutations)
        if valid_permutations == []:
            continue
        if zhz_debug or False:
            for a in valid_permutations:
                pass
        s_connection_permutations = _generate_all_o_h_z_connection_permutations(LHS, h, valid_permutations)
        if zhz_debug or False:
            for s in s_connection_permutations:
                pass
        unique_s_permutations = s_connection_permutations
        if True:
            for s in unique_s_permutations:
                pass
        labeled_permutations = _generate_explicit_z_connections(LHS, h, unique_s_permutations)
        for term in labeled_permutations:
            if term[2] != set():
                total_list.append(term)
            else:
                sys.exit(0)
    return


def _build_left_z_term(z_left, h, color=True):
    if z_left.rank == 0:
        return f'{bold_z_latex}_0'
    upper_indices, lower_indices = ('', '')
    if z_left.m > 0:
        upper_indices += z_summation_indices[0:z_left.m_h]
        if not color:
            offset = z_left.m_h
            upper_indices += z_summation_indices[offset:offset + z_left.m_r]
            upper_indices += z_unlinked_indices[0:z_left.m_lhs]
        else:
            offset = z_left.m_h
            upper_indices += '\\blue{' + z_summation_indices[offset:offset + z_left.m_r] + '}'
            upper_indices += '\\red{' + z_unlinked_indices[0:z_left.m_lhs] + '}'
    if z_left.n > 0:
        offset = z_left.m_h + z_left.m_r
        lower_indices += z_summation_indices[offset:offset + z_left.n_h]
        if not color:
            offset += z_left.n_h
            lower_indices += z_summation_indices[offset:offset + z_left.n_r]
            lhs_offset = z_left.m_lhs
            lower_indices += z_unlinked_indices[lhs_offset:lhs_offset + z_left.n_lhs]
        else:
            offset += z_left.n_h
            lower_indices += '\\blue{' + z_summation_indices[offset:offset + z_left.n_r] + '}'
            lhs_offset = z_left.m_lhs
            lower_indices += '\\red{' + z_unlinked_indices[lhs_offset:lhs_offset + z_left.n_lhs] + '}'
    return f'{bold_z_latex}^{{{upper_indices}}}_{{{lower_indices}}}'


def _build_hz_term_latex_labels(h, offset_dict, color=True):
    if h.rank == 0:
        return f'{bold_h_latex}_0'
    upper_indices, lower_indices = ('', '')
    if h.n > 0:
        lower_indices += '\\blue{' + z_summation_indices[0:h.n_l] + '}'
        s = offset_dict['summation_index']
        lower_indices += '\\blue{' + z_summation_indices[s:s + h.n_r] + '}'
        offset_dict['summation_index'] += h.n_r
        u = offset_dict['unlinked_index']
        lower_indices += '\\red{' + z_unlinked_indices[u:u + h.n_lhs] + '}'
        offset_dict['unlinked_index'] += h.n_lhs
    if h.m > 0:
        a = offset_dict['left_upper']
        upper_indices += '\\blue{' + z_summation_indices[a:a + h.m_l] + '}'
        s = offset_dict['summation_index']
        upper_indices += '\\blue{' + z_summation_indices[s:s + h.m_r] + '}'
        offset_dict['summation_index'] += h.m_r
        u = offset_dict['unlinked_index']
        upper_indices += '\\red{' + z_unlinked_indices[u:u + h.m_lhs] + '}'
        offset_dict['unlinked_index'] += h.m_lhs
    return f'{bold_h_latex}^{{{upper_indices}}}_{{{lower_indices}}}'


def _build_right_z_term(h, z_right, offset_dict, color=True):
    if z_right.rank == 0:
        return f'{bold_z_latex}_0'
    a, b = (0, 0)
    upper_indices, lower_indices = ('', '')
    if z_right.n > 0:
        a = offset_dict['left_lower']
        lower_indices += '\\magenta{' + z_summation_indices[a:a + z_right.n_l] + '}'
        b = offset_dict['h_lower']
        lower_indices += '\\blue{' + z_summation_indices[b:b + z_right.n_h] + '}'
        u = offset_dict['unlinked_index']
        lower_indices += '\\red{' + z_unlinked_indices[u:u + z_right.n_lhs] + '}'
        offset_dict['unlinked_index'] += z_right.n_lhs
    if z_right.m > 0:
        a = offset_dict['left_upper']
        upper_indices += '\\magenta{' + z_summation_indices[a:a + z_right.m_l] + '}'
        b = offset_dict['h_upper']
        upper_indices += '\\blue{' + z_summation_indices[b:b + z_right.m_h] + '}'
        u = offset_dict['unlinked_index']
        upper_indices += '\\red{' + z_unlinked_indices[u:u + z_right.m_lhs] + '}'
        offset_dict['unlinked_index'] += z_right.m_lhs
    return f'{bold_z_latex}^{{{upper_indices}}}_{{{lower_indices}}}'


def _build_z_latex_prefactor(h, t_list, simplify_flag=True):
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    numerator_list = []
    denominator_list = []
    connected_ts = [t for t in t_list if t.m_h > 0 or t.n_h > 0]
    x = len(set(connected_ts))
    debug_flag = bool(h.n == 2 and h.m == 0 and (len(t_list) == 2) and (t_list[0].m_h == 1) and (t_list[0].m_o == 1) and (t_list[1].m_h == 1) and (t_list[1].m_o == 1))
    if x > 1:
        numerator_list.append(f'{x}!')
    if h.m > 1:
        denominator_list.append(f'{h.m}!')
    if h.n > 1:
        denominator_list.append(f'{h.n}!')
    if len(t_list) > 1:
        denominator_list.append(f'{len(t_list)}!')
    if simplify_flag:
        numerator_list, denominator_list = _simplify_full_cc_python_prefactor(numerator_list, denominator_list)
    numerator = '1' if numerator_list == [] else f'{''.join(numerator_list)}'
    denominator = '1' if denominator_list == [] else f'{''.join(denominator_list)}'
    if numerator == '1' and denominator == '1':
        return ''
    else:
        return f'\\frac{{{numerator}}}{{{denominator}}}'


def _f_zL_h_contributions(z_left, h):
    if isinstance(z_left, disconnected_z_left_operator_namedtuple):
        assert 0 == h.n_l
        return 0
    else:
        assert z_left.m_h == h.n_l
        return z_left.m_h


def _fbar_zL_h_contributions(z_left, h):
    if isinstance(z_left, disconnected_z_left_operator_namedtuple):
        assert 0 == h.m_l
        return 0
    else:
        assert z_left.n_h == h.m_l
        return z_left.n_h


def _f_h_zR_contributions(h, z_right):
    if isinstance(z_right, disconnected_z_right_operator_namedtuple):
        assert h.m_r == 0
        return 0
    else:
        assert h.m_r == z_right.n_h
        return z_right.n_h


def _fbar_h_zR_contributions(h, z_right):
    if isinstance(z_right, disconnected_z_right_operator_namedtuple):
        assert h.n_r == 0
        return 0
    else:
        assert h.n_r == z_right.m_h
        return z_right.m_h


def _f_zL_zR_contributions(z_left, z_right):
    assert z_left.m_r == z_right.n_l
    return z_left.m_r


def _fbar_zL_zR_contributions(z_left, z_right):
    assert z_left.n_r == z_right.m_l
    return z_left.n_r


def _prepare_second_z_latex(term_list, split_width=7, remove_f_terms=False, print_prefactors=False):
    return_list = []
    for term in term_list:
        term_string = ''
        LHS, h, z_left, z_right = (term[0], term[1], *term[2])
        nof_fs = _f_zL_h_contributions(z_left, h)
        if remove_f_terms and nof_fs > 0:
            continue
        if nof_fs > 0:
            term_string += 'f' if nof_fs == 1 else f'f^{{{nof_fs}}}'
        nof_fbars = _fbar_zL_h_contributions(z_left, h)
        if nof_fbars > 0:
            term_string += '\\bar{f}' if nof_fbars == 1 else f'\\bar{{f}}^{{{nof_fbars}}}'
        if print_prefactors:
            raise NotImplementedError('prefactor code for z stuff is not done')
            term_string += _build_z_latex_prefactor(h, z_left)
        h_offset_dict = {'left_upper': z_left.m - z_left.m_lhs, 'summation_index': z_left.rank - z_left.m_lhs - z_left.n_lhs, 'unlinked_index': z_left.m_lhs + z_left.n_lhs}
        left_z = _build_left_z_term(z_left, h)
        h_term = _build_hz_term_latex_labels(h, h_offset_dict)
        right_z = ''
        term_string += left_z + h_term + right_z
        return_list.append(term_string)
    if len(return_list) < split_width * 2:
        return f'({' + '.join(return_list)})'
    split_equation_list = []
    for i in range(0, len(return_list) // split_width):
        split_equation_list.append(' + '.join(return_list[i * split_width:(i + 1) * split_width]))
    last_few_terms = len(return_list) % split_width
    if last_few_terms != 0:
        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))
    splitting_string = '\\\\  &+  % split long equation'
    final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
    return f'(\n{final_string}\n)'


def _build_hz_latex_prefactor(h, z_left, z_right, simplify_flag=False):
    if z_left is not None:
        raise NotImplementedError('Logic does not support ZH, or ZHZ terms at the moment')
    numerator_value = 1
    denominator_value = 1
    numerator_list, denominator_list = ([], [])
    if h.m > 1:
        denominator_value *= math.factorial(h.m)
        denominator_list.append(f'{h.m}!')
        number = math.comb(h.m, h.m_r)
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
    if h.n > 1:
        denominator_value *= math.factorial(h.n)
        denominator_list.append(f'{h.n}!')
        number = math.comb(h.n, h.n_r)
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
    if z_right.m > 1:
        denominator_value *= math.factorial(z_right.m)
        denominator_list.append(f'{z_right.m}!')
        number = math.comb(z_right.m, z_right.m_lhs)
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
        if z_right.m_h > 1:
            numerator_value *= math.factorial(z_right.m_h)
            numerator_list.append(f'{z_right.m_h}!')
    if z_right.n > 1:
        denominator_value *= math.factorial(z_right.n)
        denominator_list.append(f'{z_right.n}!')
        number = math.comb(z_right.n, z_right.n_lhs)
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
        if z_right.n_h > 1:
            numerator_value *= math.factorial(z_right.n_h)
            numerator_list.append(f'{z_right.n_h}!')
    if simplify_flag:
        fraction = Fraction(numerator_value, denominator_value)
        if fraction == 1:
            return ''
        else:
            return f'\\frac{{{fraction.numerator}}}{{{fraction.denominator}}}'
    numerator_string = '1' if numerator_list == [] else f'{'*'.join(numerator_list)}'
    denominator_string = '1' if denominator_list == [] else f'{''.join(denominator_list)}'
    if numerator_string == '1' and denominator_string == '1':
        return ''
    else:
        return f'\\frac{{{numerator_string}}}{{{denominator_string}}}'


def _prepare_third_z_latex(term_list, split_width=7, remove_f_terms=False, print_prefactors=True):
    return_list = []
    for term in term_list:
        term_string = ''
        LHS, h, z_left, z_right = (term[0], term[1], *term[2])
        nof_fs = _f_h_zR_contributions(h, z_right)
        if remove_f_terms and nof_fs > 0:
            continue
        if nof_fs > 0:
            term_string += 'f' if nof_fs == 1 else f'f^{{{nof_fs}}}'
        nof_fbars = _fbar_h_zR_contributions(h, z_right)
        if nof_fbars > 0:
            term_string += '\\bar{f}' if nof_fbars == 1 else f'\\bar{{f}}^{{{nof_fbars}}}'
        if print_prefactors:
            term_string += _build_hz_latex_prefactor(h, None, z_right)
        h_offset_dict = {'left_upper': 0, 'summation_index': 0, 'unlinked_index': 0}
        right_z_offset_dict = {'left_lower': 0, 'left_upper': 0, 'h_lower': h.n_r, 'h_upper': 0, 'unlinked_index': h.m_lhs + h.n_lhs}
        left_z = ''
        h_term = _build_hz_term_latex_labels(h, h_offset_dict)
        right_z = _build_right_z_term(h, z_right, right_z_offset_dict)
        term_string += left_z + h_term + right_z
        return_list.append(term_string)
    if len(return_list) < split_width * 2:
        return f'({' + '.join(return_list)})'
    split_equation_list = []
    for i in range(0, len(return_list) // split_width):
        split_equation_list.append(' + '.join(return_list[i * split_width:(i + 1) * split_width]))
    last_few_terms = len(return_list) % split_width
    if last_few_terms != 0:
        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))
    splitting_string = '\\\\  &+  % split long equation'
    final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
    return f'(\n{final_string}\n)'


def _prepare_fourth_z_latex(term_list, split_width=7, remove_f_terms=False, print_prefactors=False):
    return_list = []
    for term in term_list:
        term_string = ''
        LHS, h, z_left, z_right = (term[0], term[1], *term[2])
        assert z_left is not None
        assert z_right is not None
        nof_fs = _f_zL_h_contributions(z_left, h)
        nof_fs += _f_h_zR_contributions(h, z_right)
        nof_fs += _f_zL_zR_contributions(z_left, z_right)
        if remove_f_terms and nof_fs > 0:
            continue
        if nof_fs > 0:
            term_string += 'f' if nof_fs == 1 else f'f^{{{nof_fs}}}'
        nof_fbars = _fbar_zL_h_contributions(z_left, h)
        nof_fbars += _fbar_h_zR_contributions(h, z_right)
        nof_fbars += _fbar_zL_zR_contributions(z_left, z_right)
        if nof_fbars > 0:
            term_string += '\\bar{f}' if nof_fbars == 1 else f'\\bar{{f}}^{{{nof_fbars}}}'
        if print_prefactors:
            raise NotImplementedError('prefactor code for z stuff is not done')
            term_string += _build_z_latex_prefactor(h, z_left)
        h_offset_dict = {'left_upper': z_left.m - z_left.m_lhs, 'summation_index': z_left.rank - z_left.m_lhs - z_left.n_lhs, 'unlinked_index': z_left.m_lhs + z_left.n_lhs}
        right_z_offset_dict = {'left_lower': z_left.m_h, 'left_upper': h_offset_dict['left_upper'] + z_left.n_h, 'h_lower': h_offset_dict['summation_index'] + h.n_r, 'h_upper': h_offset_dict['summation_index'], 'unlinked_index': h_offset_dict['unlinked_index'] + h.m_lhs + h.n_lhs}
        left_z = _build_left_z_term(z_left, h)
        h_term = _build_hz_term_latex_labels(h, h_offset_dict)
        right_z = _build_right_z_term(h, z_right, right_z_offset_dict)
        term_string += left_z + h_term + right_z
        disconnected_term = bool(isinstance(z_left, disconnected_z_left_operator_namedtuple) or isinstance(z_right, disconnected_z_right_operator_namedtuple))
        if disconnected_term:
            term_string = '\\disconnected{' + term_string + '}'
        return_list.append(term_string)
    if len(return_list) < split_width * 2:
        return f'({' + '.join(return_list)})'
    split_equation_list = []
    for i in range(0, len(return_list) // split_width):
        split_equation_list.append(' + '.join(return_list[i * split_width:(i + 1) * split_width]))
    last_few_terms = len(return_list) % split_width - split_width + 1
    split_equation_list.append(' + '.join(return_list[last_few_terms:]))
    splitting_string = '\\\\  &+  % split long equation'
    final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
    return f'(\n{final_string}\n)'


def _build_first_z_term(LHS):
    if LHS.rank == 0:
        return f'{bold_h_latex}' + '_{0,xb}(1-\\delta_{x\\gamma})'
    else:
        first_term = f'{bold_h_latex}'
        upper_indices = summation_indices[0:LHS.n]
        first_term += f'^{{{upper_indices}}}'
        h_offset = LHS.n
        lower_indices = summation_indices[h_offset:h_offset + LHS.m]
        first_term += f'_{{{lower_indices}}}'
        first_term += '(1-\\delta_{x\\gamma})'
        return first_term


def _build_second_z_term(LHS, H, Z, remove_f_terms=False):
    valid_term_list = []
    _filter_out_valid_z_terms(LHS, H, Z, None, valid_term_list)
    if valid_term_list == []:
        return ''
    return _prepare_second_z_latex(valid_term_list, remove_f_terms=remove_f_terms)


def _build_third_z_term(LHS, H, Z, remove_f_terms=False):
    valid_term_list = []
    _filter_out_valid_z_terms(LHS, H, None, Z, valid_term_list)
    if valid_term_list == []:
        return ''
    return _prepare_third_z_latex(valid_term_list, remove_f_terms=remove_f_terms)


def _build_fourth_z_term(LHS, H, Z, remove_f_terms=False):
    valid_term_list = []
    _filter_out_valid_z_terms(LHS, H, Z, Z, valid_term_list)
    if valid_term_list == []:
        return ''
    return _prepare_fourth_z_latex(valid_term_list, remove_f_terms=remove_f_terms)


def _build_fifth_z_term(LHS, Z):
    term_list = []
    for z_m in range(LHS.n + 1):
        if LHS.m == 0 and LHS.n - z_m == 0:
            t_term_latex = '\\hat{' + bold_t_latex + '}_{0, \\gamma}'
            dv_t_term_latex = f'\\dv{{{t_term_latex}}}{{\\tau}}'
        else:
            t_upper_label = f'{summation_indices[0:LHS.n - z_m]}' if LHS.n - z_m > 0 else ''
            t_lower_label = f'{summation_indices[LHS.n:LHS.n + LHS.m]}' if LHS.m > 0 else ''
            t_term_latex = f'\\hat{{{bold_t_latex}}}'
            t_term_latex += f'^{{{t_upper_label}}}' if t_upper_label != '' else ''
            t_term_latex += f'_{{{t_lower_label}, \\gamma}}' if t_lower_label != '' else '_{\\gamma}'
            dv_t_term_latex = f'\\dv{{{t_term_latex}}}{{\\tau}}'
        if z_m == 0:
            z_term_latex = f'\\hat{{{bold_z_latex}}}_{{0, \\gamma}}'
        else:
            z_upper_label = f'{summation_indices[LHS.rank - z_m:LHS.rank]}'
            z_term_latex = f'\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}'
        term_list.append(dv_t_term_latex + '\\,' + z_term_latex)
    return ' + '.join(term_list)


def _generate_z_symmetric_latex_equations(LHS, H, Z, only_ground_state=True, remove_f_terms=False):
    return_string = ''
    return_string += _build_first_z_term(LHS)
    not_implemented_yet_message = 'The logic for the supporting functions (such as `_filter_out_valid_z_terms` and others)\nHas only been verified to work for the LHS * H * Z (`third_z`) case.\nThe code may produce some output without halting, but the output is meaningless from a theory standpoint.\nDo not remove this Exception without consulting with someone else and implementing the requisite functions.'
    if not only_ground_state:
        raise NotImplementedError(not_implemented_yet_message)
        return_string += '\\\\&-\\Big(' + _build_second_z_term(LHS, H, Z, remove_f_terms) + '\\Big)'
    return_string += '\\\\&+\\sum\\Big(' + _build_third_z_term(LHS, H, Z, remove_f_terms) + '\\Big)(1-\\delta_{cb})'
    if not only_ground_state:
        raise NotImplementedError(not_implemented_yet_message)
        return_string += '\\\\&-\\sum\\Big(' + _build_fourth_z_term(LHS, H, Z, remove_f_terms) + '\\Big)(1-\\delta_{db})'
    if only_ground_state:
        temporary_string = '\\text{all permutations of }\\dv{\\hat{t}_{\\gamma}}{\\tau}\\hat{z}'
        return_string += '\\\\&-i\\sum\\Big(' + _build_fifth_z_term(LHS, Z) + '\\Big)'
    return return_string.replace('^{}', '').replace('_{}', '')


def generate_z_t_symmetric_latex(truncations, **kwargs):
    only_ground_state = kwargs['only_ground_state']
    remove_f_terms = kwargs['remove_f_terms']
    path = kwargs['path']
    _verify_zhz_truncations(truncations)
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    omega_max_order = truncations[tkeys.P]
    master_omega = generate_omega_operator(maximum_cc_rank, omega_max_order)
    raw_H = generate_full_cc_hamiltonian_operator(maximum_h_rank)
    Z = generate_z_operator(maximum_cc_rank, only_ground_state)
    pruned_list = [term for term in raw_H.operator_list if term.rank < 3 or term.m == 0]
    H = hamiltonian_namedtuple(raw_H.maximum_rank, pruned_list)
    latex_code = ''
    rank_name_list = ['0 order', 'LINEAR', 'QUADRATIC', 'CUBIC', 'QUARTIC', 'QUINTIC', 'SEXTIC', 'SEPTIC', 'OCTIC']
    for i, omega_term in enumerate(master_omega.operator_list):
        if False and omega_term.rank not in [1]:
            continue
        rank_name = rank_name_list[omega_term.rank]
        if omega_term.rank > master_omega.operator_list[i - 1].rank:
            latex_code += f'\\paragraph{{{rank_name.capitalize()} Equations}}\n\n'
        else:
            latex_code += '\\vspace{2cm}'

        def _generate_t_lhs(omega):
            upper_label = summation_indices[0:omega.n]
            lower_label = summation_indices[omega.n:omega.rank]
            lower_label += '\\gamma' if lower_label == '' else ',\\gamma'
            t_term_latex = f'\\hat{{{bold_t_latex}}}^{{{upper_label}}}_{{{lower_label}}}'
            derivative_latex = f'i\\dv{{{t_term_latex}}}{{\\tau}}'
            return derivative_latex

        def _wrap_t_latex(omega, lhs):
            omega_string = ''
            for i, char in enumerate(omega.name):
                if char == 'd':
                    omega_string += f'\\up{{{summation_indices[i]}}}'
                elif char == 'b':
                    omega_string += f'\\down{{{summation_indices[i]}}}'
            omega_string = '1' if omega_string == '' else omega_string
            g_upper_label = f'{summation_indices[0:omega.n]}' if omega.n > 0 else ''
            g_lower_label = f'{summation_indices[omega.n:omega.rank]}' if omega.m > 0 else ''
            g_lower_label += '\\gamma\\gamma' if g_lower_label == '' else ', \\gamma\\gamma'
            g_string = f'\\hat{{G}}^{{{g_upper_label}}}_{{{g_lower_label}}}'
            return f'\\begin{{equation}}\n{tab}\\hat{{\\Omega}} = {omega_string}\n\\qquad\\qquad\n{tab}{lhs} = {g_string}\n\\end{{equation}}\n\n'
        if True:
            lhs_string = _generate_t_lhs(omega_term)
            latex_code += '%\n%\n%\n%\n%\n\n'
            latex_code += _wrap_t_latex(omega_term, lhs_string)

        def _wrap_z_align_environment(lhs, eqns):
            string = f'\\begin{{align}}\\begin{{split}}\nLHS &=\n{tab}{lhs}\n\\\\ RHS &=\n%\n%\n{eqns}\n\\end{{split}}\\end{{align}}\n\n'
            return string

        def _generate_z_lhs(omega):
            upper_label = summation_indices[0:omega.rank]
            z_term_latex = f'\\hat{{{bold_z_latex}}}^{{{upper_label}}}_{{\\gamma}}'
            derivative_latex = f'i\\Big(\\dv{{{z_term_latex}}}{{\\tau}}\\Big)'
            return derivative_latex
        if True:
            lhs_string = _generate_z_lhs(omega_term)
            equations_string = _generate_z_symmetric_latex_equations(omega_term, H, Z, only_ground_state, remove_f_terms)
            latex_code += '%\n%\n%\n%\n%\n\n'
            latex_code += _wrap_z_align_environment(lhs_string, equations_string)
    if only_ground_state:
        header = headers.ground_state_z_t_symmetric_latex_header
    else:
        header = headers.full_z_t_symmetric_latex_header
    header += '\\textbf{Note that all terms with a $f$ prefactor have been removed}\n' if remove_f_terms else ''
    with open(path, 'w') as fp:
        fp.write(header + latex_code + '\\end{document}')
    return
