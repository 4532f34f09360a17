"""Reference definitions for code_eT_zhz (see DESIGN.md)."""
import copy
import itertools as it
import functools
import inspect
import math
from fractions import Fraction
import pdb
import helper_funcs
from helper_funcs import unique_permutations, named_line
from namedtuple_defines import general_operator_namedtuple, omega_namedtuple
from common_imports import tab, tab_length, summation_indices, unlinked_indices, old_print_wrapper
from latex_eT_zhz import generate_eT_taylor_expansion, generate_pruned_H_operator, generate_z_operator, _filter_out_valid_eTz_terms
from latex_full_cc import generate_omega_operator
from namedtuple_defines import disconnected_namedtuple
from code_w_equations import taylor_series_order_tag, hamiltonian_order_tag
import code_import_statements_module
from truncations import _verify_eT_z_t_truncations
from truncation_keys import TruncationsKeys as tkeys
import log_conf
s1, s2 = (75, 28)
l1, l2 = (109, 45)
spaced_named_line = functools.partial(helper_funcs.spaced_named_line, spacing_line=f'# {'-' * s1} #\n')
long_spaced_named_line = functools.partial(helper_funcs.long_spaced_named_line, large_spacing_line=f'# {'-' * l1} #\n')


def _eT_zhz_einsum_electronic_components(t_list, z_right, b_loop_flag=False):
    if not b_loop_flag:
        raise NotImplementedError('Unclear how to implement function for vectorized mode')
    electronic_components = []
    if b_loop_flag:
        electronic_components += [''] * len(t_list)
        electronic_components.append('ac')
        electronic_components.append('c')
        return electronic_components
    else:
        electronic_components += ['a'] * len(t_list)
        electronic_components.append('ac')
        electronic_components.append('c')
        return electronic_components


def _eT_zhz_einsum_electronic_components_lhs(t_list, dT, z_right, b_loop_flag=False):
    if not b_loop_flag:
        raise NotImplementedError('Unclear how to implement function for vectorized mode')
    electronic_components = []
    if b_loop_flag:
        electronic_components += [''] * len(t_list)
        electronic_components.append('')
        electronic_components.append('c')
        return electronic_components
    else:
        electronic_components += ['a'] * len(t_list)
        electronic_components.append('a')
        electronic_components.append('c')
        return electronic_components


def _build_z_term_python_labels(z_right, offset_dict):
    sum_label, unlinked_label = ('', '')
    sum_label += offset_dict['upper_z_indices'] + offset_dict['lower_z_indices']
    if z_right.rank == 0:
        assert sum_label == '', 'just in case we got some logic wrong'
        return ((sum_label, unlinked_label), offset_dict)
    if z_right.m > 0:
        b = offset_dict['unlinked_count']
        unlinked_label += unlinked_indices[b:b + z_right.m_lhs]
        offset_dict['unlinked_count'] += z_right.m_lhs
    if z_right.n > 0:
        b = offset_dict['unlinked_count']
        unlinked_label += unlinked_indices[b:b + z_right.n_lhs]
        offset_dict['unlinked_count'] += z_right.n_lhs
    return ((sum_label, unlinked_label), offset_dict)


def _build_h_term_python_labels(h, offset_dict):
    sum_label, unlinked_label = ('', '')
    sum_label += offset_dict['upper_h_indices'] + offset_dict['lower_h_indices']
    if h.rank == 0:
        assert sum_label == '', 'just in case we got some logic wrong'
        return ((sum_label, unlinked_label), offset_dict)
    if h.m > 0:
        a, b = (offset_dict['summation_count'], offset_dict['unlinked_count'])
        z_str = summation_indices[a:a + h.m_r]
        offset_dict['lower_z_indices'] += z_str
        sum_label += z_str
        unlinked_label += unlinked_indices[b:b + h.m_lhs]
        offset_dict['summation_count'] += h.m_r
        offset_dict['unlinked_count'] += h.m_lhs
    if h.n > 0:
        a, b = (offset_dict['summation_count'], offset_dict['unlinked_count'])
        z_str = summation_indices[a:a + h.n_r]
        offset_dict['upper_z_indices'] += z_str
        sum_label += z_str
        unlinked_label += unlinked_indices[b:b + h.n_lhs]
        offset_dict['summation_count'] += h.n_r
        offset_dict['unlinked_count'] += h.n_lhs
    return ((sum_label, unlinked_label), offset_dict)


def _build_t_term_python_labels(term, offset_dict):
    sum_label, unlinked_label = ('', '')
    if term.n > 0:
        a, b = (offset_dict['summation_count'], offset_dict['unlinked_count'])
        h_stop = a + term.n_h
        h_str = summation_indices[a:h_stop]
        z_str = summation_indices[h_stop:h_stop + term.n_r]
        offset_dict['upper_h_indices'] += h_str
        offset_dict['upper_z_indices'] += z_str
        sum_label += h_str + z_str
        unlinked_label += unlinked_indices[b:b + term.n_lhs]
        offset_dict['summation_count'] += term.n_h + term.n_r
        offset_dict['unlinked_count'] += term.n_lhs
    if term.m > 0:
        a, b = (offset_dict['summation_count'], offset_dict['unlinked_count'])
        h_stop = a + term.m_h
        h_str = summation_indices[a:h_stop]
        z_str = summation_indices[h_stop:h_stop + term.m_r]
        offset_dict['lower_h_indices'] += h_str
        offset_dict['lower_z_indices'] += z_str
        sum_label += h_str + z_str
        unlinked_label += unlinked_indices[b:b + term.m_lhs]
        offset_dict['summation_count'] += term.m_h + term.m_r
        offset_dict['unlinked_count'] += term.m_lhs
    return (sum_label, unlinked_label)


def _build_t_term_python_group(t_list, h, z_right):
    sum_list, unlinked_list = ([], [])
    offset_dict = {'summation_count': 0, 'unlinked_count': 0, 'upper_h_indices': '', 'lower_h_indices': '', 'upper_z_indices': '', 'lower_z_indices': ''}
    for t in t_list:
        sum_label, unlinked_label = _build_t_term_python_labels(t, offset_dict)
        sum_list.append(sum_label)
        unlinked_list.append(unlinked_label)
    return (sum_list, unlinked_list, offset_dict)


def _eT_zhz_einsum_vibrational_components(t_list, h, z_right, b_loop_flag=False):
    vibrational_components = []
    alist, blist, offset_dict = _build_t_term_python_group(t_list, h, z_right)
    for i in range(len(alist)):
        vibrational_components.append(alist[i] + blist[i])
    h_labels, offset_dict = _build_h_term_python_labels(h, offset_dict)
    vibrational_components.append(h_labels[0] + h_labels[1])
    z_labels, offset_dict = _build_z_term_python_labels(z_right, offset_dict)
    vibrational_components.append(z_labels[0] + z_labels[1])
    remaining_list = [r for r in blist] + [h_labels[1], z_labels[1]]
    return (vibrational_components, ''.join(remaining_list))


def _eT_zhz_einsum_vibrational_components_lhs(t_list, h, z_right, b_loop_flag=False):
    vibrational_components = []
    alist, blist, offset_dict = _build_t_term_python_group(t_list, h, z_right)
    for i in range(len(alist)):
        vibrational_components.append(alist[i] + blist[i])
    h_labels, offset_dict = _build_h_term_python_labels(h, offset_dict)
    vibrational_components.append(h_labels[0] + h_labels[1])
    z_labels, offset_dict = _build_z_term_python_labels(z_right, offset_dict)
    vibrational_components.append(z_labels[0] + z_labels[1])
    remaining_list = [r for r in blist] + [h_labels[1], z_labels[1]]
    return (vibrational_components, ''.join(remaining_list))


def _eT_zhz_einsum_subscript_generator(h, t_list):
    return_string = ''
    electronic_components = _eT_zhz_einsum_electronic_components(t_list)
    vibrational_components, remaining_indices = _eT_zhz_einsum_vibrational_components(h, t_list)
    summation_subscripts = ', '.join([f'{electronic_components[i]}{vibrational_components[i]}' for i in range(len(electronic_components))])
    return_string = f'{summation_subscripts} -> ab{remaining_indices}'
    return return_string


def _eT_zhz_einsum_prefactor(term):
    string = '0.69'
    return string


def _simplify_eT_zhz_python_prefactor(numerator_list, denominator_list):
    if numerator_list == [] or denominator_list == []:
        return (numerator_list, denominator_list)
    numerator_set = set(numerator_list)
    denominator_set = set(denominator_list)
    if numerator_set.isdisjoint(denominator_set):
        return (numerator_list, denominator_list)
    else:
        intersection = numerator_set & denominator_set
    numerator_dict = dict([(key, 0) for key in numerator_set])
    for string in numerator_list:
        numerator_dict[string] += 1
    denominator_dict = dict([(key, 0) for key in denominator_set])
    for string in denominator_list:
        denominator_dict[string] += 1
    for key in intersection:
        a, b = (numerator_dict[key], denominator_dict[key])
        if a > b:
            denominator_dict[key] = 0
            numerator_dict[key] = a - b
        elif a < b:
            denominator_dict[key] = b - a
            numerator_dict[key] = 0
        elif a == b:
            denominator_dict[key] = 0
            numerator_dict[key] = 0
    new_numerator_list, new_denominator_list = ([], [])
    for k, v in numerator_dict.items():
        new_numerator_list.extend([k] * v)
    for k, v in denominator_dict.items():
        new_denominator_list.extend([k] * v)
    new_numerator_list.sort()
    new_denominator_list.sort()
    return (new_numerator_list, new_denominator_list)


def _build_eT_zhz_python_prefactor(t_list, h, z_right, simplify_flag=True):
    if t_list == []:
        return ''
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    numerator_value, denominator_value = (1, 1)
    numerator_list, denominator_list = ([], [])
    extra_flag = True
    if h.m > 1:
        denominator_value *= math.factorial(h.m)
        denominator_list.append(f'factorial({h.m})')
        if extra_flag:
            external_perms = math.comb(h.m, h.m_lhs)
            if external_perms > 1:
                numerator_value *= external_perms
                numerator_list.append(f'({external_perms})')
            new_max = h.m - h.m_lhs
            internal_perms = math.comb(new_max, h.m_r)
            if internal_perms > 1:
                numerator_value *= internal_perms
                numerator_list.append(f'({internal_perms})')
    if h.n > 1:
        denominator_value *= math.factorial(h.n)
        denominator_list.append(f'factorial({h.n})')
        if extra_flag:
            external_perms = math.comb(h.n, h.n_lhs)
            if external_perms > 1:
                numerator_value *= external_perms
                numerator_list.append(f'({external_perms})')
            new_max = h.n - h.n_lhs
            internal_perms = math.comb(new_max, h.n_r)
            if internal_perms > 1:
                numerator_value *= internal_perms
                numerator_list.append(f'({internal_perms})')
    if z_right.m > 1:
        denominator_value *= math.factorial(z_right.m)
        denominator_list.append(f'factorial({z_right.m})')
        if extra_flag:
            external_perms = math.comb(z_right.m, z_right.m_lhs)
            if external_perms > 1:
                numerator_value *= external_perms
                numerator_list.append(f'({external_perms})')
            new_max = z_right.m - z_right.m_lhs
            internal_perms = math.comb(new_max, z_right.m_h)
            if internal_perms > 1:
                numerator_value *= internal_perms
                numerator_list.append(f'({internal_perms})')
            new_max -= z_right.m_h
            if z_right.m_h > 1:
                numerator_value *= math.factorial(z_right.m_h)
                numerator_list.append(f'{z_right.m_h}!')
            count_t = sum(z_right.m_t)
            number = math.comb(new_max, count_t)
            assert number == 1, 'you broke something!!!'
            if number > 1:
                numerator_value *= number
                numerator_list.append(f'{number}')
    if z_right.n > 1:
        denominator_value *= math.factorial(z_right.n)
        denominator_list.append(f'factorial({z_right.n})')
        if extra_flag:
            number = math.comb(z_right.n, z_right.n_lhs)
            if number > 1:
                numerator_value *= number
                numerator_list.append(f'{number}')
            if z_right.n_h > 1:
                numerator_value *= math.factorial(z_right.n_h)
                numerator_list.append(f'{z_right.n_h}!')
            count_t = sum(z_right.n_t)
    for t in t_list:
        if t.m > 1:
            denominator_value *= math.factorial(t.m)
            denominator_list.append(f'{t.m}!')
        if t.n > 1:
            denominator_value *= math.factorial(t.n)
            denominator_list.append(f'{t.n}!')
    if simplify_flag:
        numerator_list, denominator_list = _simplify_eT_zhz_python_prefactor(numerator_list, denominator_list)
    numerator_string = '1' if numerator_list == [] else f'({' * '.join(numerator_list)})'
    denominator_string = '1' if denominator_list == [] else f'({' * '.join(denominator_list)})'
    prefactor_string = f'{numerator_string}/{denominator_string} * '.replace('factorial(2)', '2')
    if numerator_string == '1' and denominator_string == '1':
        prefactor_string = ''
    return (prefactor_string, numerator_value, denominator_value)


def _multiple_perms_logic(term, print_indist_perms: bool=False):
    omega, t_list, h, z_pair, not_sure_what_this_one_is_for = term
    unique_dict = {}
    for t in t_list:
        unique_dict[t] = 1 + unique_dict.get(t, 0)
    if len(unique_dict.keys()) == 1:
        count = list(unique_dict.values())[0]
        if not print_indist_perms:
            permutations = [range(count)]
        else:
            permutations = unique_permutations(range(count))
        return (permutations, unique_dict)
    if len(unique_dict.keys()) > 1:
        count = len(t_list)
        if not print_indist_perms:
            permutations = [range(count)]
        else:
            permutations = unique_permutations(range(count))
        return (permutations, unique_dict)
    raise Exception('Should not get here')


def compute_prefactor_adjustment(h, z_right):
    adjustment = 1
    bottom = 1
    if h.m > 1:
        bottom *= math.factorial(h.m)
        external_perms = math.comb(h.m, h.m_lhs)
        if external_perms > 1:
            adjustment *= external_perms
        new_max = h.m - h.m_lhs
        internal_perms = math.comb(new_max, h.m_r)
        if internal_perms > 1:
            adjustment *= internal_perms
        count_t = sum(h.m_t)
        if count_t > 1:
            adjustment *= math.factorial(count_t)
    if h.n > 1:
        bottom *= math.factorial(h.n)
        external_perms = math.comb(h.n, h.n_lhs)
        if external_perms > 1:
            adjustment *= external_perms
        new_max = h.n - h.n_lhs
        internal_perms = math.comb(new_max, h.n_r)
        if internal_perms > 1:
            adjustment *= internal_perms
        count_t = sum(h.n_t)
        if count_t > 1:
            adjustment *= math.factorial(count_t)
    if z_right.m > 1:
        bottom *= math.factorial(z_right.m)
        external_perms = math.comb(z_right.m, z_right.m_lhs)
        if external_perms > 1:
            adjustment *= external_perms
        new_max = z_right.m - z_right.m_lhs
        internal_perms = math.comb(new_max, z_right.m_h)
        if internal_perms > 1:
            adjustment *= internal_perms
        new_max -= z_right.m_h
        if z_right.m_h > 1:
            adjustment *= math.factorial(z_right.m_h)
        count_t = sum(z_right.m_t)
        if count_t > 1:
            adjustment *= math.factorial(count_t)
        number = math.comb(new_max, count_t)
        assert number == 1, 'you broke something!!!'
        if number > 1:
            adjustment *= number
    if z_right.n > 1:
        bottom *= math.factorial(z_right.n)
        number = math.comb(z_right.n, z_right.n_lhs)
        if number > 1:
            adjustment *= number
        if z_right.n_h > 1:
            adjustment *= math.factorial(z_right.n_h)
        count_t = sum(z_right.n_t)
        if count_t > 1:
            adjustment *= math.factorial(count_t)
            number = math.comb(z_right.n, count_t)
            adjustment *= number
    return adjustment / bottom


def _handle_multiline_same_prefactor(output_list, prefactor, string_list, lhs_rhs, nof_tabs=0):
    tabber = tab * nof_tabs
    if len(string_list) > 1:
        if lhs_rhs == 'RHS':
            output_list.append(f'{tabber}R += {prefactor}(')
        elif lhs_rhs == 'LHS':
            output_list.append(f'{tabber}Z += {prefactor}(')
        for string in string_list:
            output_list.append(f'{tabber}{tab}{string} +')
        output_list[-1] = output_list[-1][:-2]
        output_list.append(f'{tabber})')
    elif lhs_rhs == 'RHS':
        output_list.append(f'{tabber}R += {prefactor}{string_list[0]}')
    elif lhs_rhs == 'LHS':
        output_list.append(f'{tabber}Z += {prefactor}{string_list[0]}')
    return output_list


def _collect_z_contributions(h_dict, return_array, lhs_rhs, trunc_obj_name, suppress_empty_if_checks=True, nof_tabs=0):
    for z_order, z_dict in h_dict.items():
        tab_adjust = nof_tabs if z_order == 0 else nof_tabs + 1
        temp_z_list = []
        for prefactor, string_list in z_dict.items():
            if string_list == []:
                continue
            _handle_multiline_same_prefactor(temp_z_list, prefactor, string_list, lhs_rhs, nof_tabs=tab_adjust)
        if suppress_empty_if_checks and temp_z_list == []:
            continue
        if z_order == 0:
            return_array.extend(temp_z_list)
        else:
            tabstr = tab * nof_tabs
            z_header_if_string = f'{tabstr}if {trunc_obj_name}.z_at_least_{hamiltonian_order_tag[z_order]}:'
            if temp_z_list == []:
                return_array.append(z_header_if_string)
                return_array.append(f'{tabstr}{tab}pass')
            else:
                return_array.append(z_header_if_string)
                return_array.extend(temp_z_list)


def _write_third_eTz_einsum_python(rank, operators, t_term_list, lhs_rhs, trunc_obj_name='truncation', b_loop_flag=False, suppress_empty_if_checks=True):
    master_omega, H, Z, eT_taylor_expansion = operators
    if t_term_list == []:
        return ['pass  # no valid terms here']
    return_list = []
    hamiltonian_rank_list = []
    for i in range(H.maximum_rank + 1):
        hamiltonian_rank_list.append(dict([(i, {}) for i in range(master_omega.maximum_rank + 1)]))
    for term in t_term_list:
        omega, t_list, h, z_pair, not_sure_what_this_one_is_for = term
        if lhs_rhs == 'RHS':
            h_operand = f'h_args[({h.m}, {h.n})]'
        elif lhs_rhs == 'LHS':
            if h.m == 0 and h.n == 0:
                h_operand = None
                dT = False
            else:
                h_operand = f'dT[({h.m}, {h.n})]'
                dT = True
        if lhs_rhs == 'RHS':
            z_left, z_right = z_pair
            z_operand = f'z_args[({z_right.m}, {z_right.n})]'
        elif lhs_rhs == 'LHS':
            if dT is False:
                z_left, z_right = z_pair
                z_operand = f'dz_args[({z_right.m}, {z_right.n})]'
            else:
                z_left, z_right = z_pair
                z_operand = f'z_args[({z_right.m}, {z_right.n})]'
        if t_list == []:
            permutations = None
            max_t_rank = 0
            prefactor = ''
        else:
            print_indist_perms = False
            if print_indist_perms is True:
                permutations, unique_dict = _multiple_perms_logic(term, print_indist_perms)
                prefactor, *_ = _build_eT_zhz_python_prefactor(t_list, h, z_right, simplify_flag=False)
                max_t_rank = max((t.rank for t in t_list))
            elif print_indist_perms is False:
                total_perms, total_unique_dict = _multiple_perms_logic(term, print_indist_perms=True)
                permutations, unique_dict = _multiple_perms_logic(term, print_indist_perms=False)
                prefactor_adjustment = len(total_perms) // len(permutations)
                assert h.m_r == z_right.n_h and h.n_r == z_right.m_h, f'fh.m_r = {h.m_r!r}    {h.n_r}\nz_right.n_h = {z_right.n_h!r}    {z_right.m_h}\n'
                prefactor_adjustment = 1
                prefactor_adjustment2 = 1
                prefactor, n, d = _build_eT_zhz_python_prefactor(t_list, h, z_right, simplify_flag=True)
                adjusted_prefactor = Fraction(n * prefactor_adjustment * prefactor_adjustment2, d)
                n, d = adjusted_prefactor.as_integer_ratio()
                if n != d:
                    prefactor = f'({n} / {d}) * '
                else:
                    prefactor = ''
                max_t_rank = max((t.rank for t in t_list))
        hamiltonian_rank_list[max(h.m, h.n)].setdefault(max_t_rank, {}).setdefault(z_right.rank, {}).setdefault(prefactor, [])
        if lhs_rhs == 'RHS':
            e_a = _eT_zhz_einsum_electronic_components(t_list, z_right, b_loop_flag)
            v_a, remaining_indices = _eT_zhz_einsum_vibrational_components(t_list, h, z_right, b_loop_flag)
        elif lhs_rhs == 'LHS':
            e_a = _eT_zhz_einsum_electronic_components_lhs(t_list, h, z_right, b_loop_flag)
            v_a, remaining_indices = _eT_zhz_einsum_vibrational_components_lhs(t_list, h, z_right, b_loop_flag)
        if lhs_rhs == 'RHS':
            e_char = 'a'
        elif lhs_rhs == 'LHS':
            e_char = 'c'
        if len(unique_dict.keys()) == 1:
            disconnected_t_term = next(iter(unique_dict.keys()))
            if disconnected_t_term.rank == 0:
                if remaining_indices == '':
                    combined_electronic_vibrational = [f'{e_a[i]}{v_a[i]}' for i in range(len(e_a))]
                    combined_electronic_vibrational = [s for s in combined_electronic_vibrational if s != '']
                    string = ', '.join(combined_electronic_vibrational)
                    if h_operand is None:
                        string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {z_operand})"
                    else:
                        string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {h_operand}, {z_operand})"
                    hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][z_right.rank][prefactor].append(string)
                elif len(remaining_indices) >= 1:
                    for perm in unique_permutations(remaining_indices):
                        combined_electronic_vibrational = [f'{e_a[i]}{v_a[i]}' for i in range(len(e_a))]
                        combined_electronic_vibrational = [s for s in combined_electronic_vibrational if s != '']
                        string = ', '.join(combined_electronic_vibrational)
                        if h_operand is None:
                            string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {z_operand})"
                        else:
                            string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {h_operand}, {z_operand})"
                        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][z_right.rank][prefactor].append(string)
                    if len(remaining_indices) >= 2:
                        pass
            elif disconnected_t_term.rank > 0:
                if lhs_rhs == 'RHS':
                    arg_string_name = 't_args'
                elif lhs_rhs == 'LHS':
                    arg_string_name = 't_conj'
                t_operands = ', '.join([f'{arg_string_name}[({t.m_lhs + t.m_h + t.m_r}, {t.n_lhs + t.n_h + t.n_r})]' for t in t_list])
                for perm in permutations:
                    combined_electronic_vibrational = [f'{e_a[i]}{v_a[p]}' for i, p in enumerate(perm)]
                    combined_electronic_vibrational.append(f'{e_a[-2]}{v_a[-2]}')
                    combined_electronic_vibrational.append(f'{e_a[-1]}{v_a[-1]}')
                    combined_electronic_vibrational = [s for s in combined_electronic_vibrational if s != '']
                    string = ', '.join(combined_electronic_vibrational)
                    if h_operand is None:
                        string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {t_operands}, {z_operand})"
                    else:
                        string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {t_operands}, {h_operand}, {z_operand})"
                    hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][z_right.rank][prefactor].append(string)
        elif len(unique_dict.keys()) > 1:
            for perm in permutations:
                re_ordered_t_list = [t_list[i] for i in perm]
                if lhs_rhs == 'RHS':
                    arg_string_name = 't_args'
                elif lhs_rhs == 'LHS':
                    arg_string_name = 't_conj'
                t_operands = ', '.join([f'{arg_string_name}[({t.m_lhs + t.m_h + t.m_r}, {t.n_lhs + t.n_h + t.n_r})]' for t in re_ordered_t_list])
                combined_electronic_vibrational = [f'{e_a[i]}{v_a[p]}' for i, p in enumerate(perm)]
                combined_electronic_vibrational.append(f'{e_a[-2]}{v_a[-2]}')
                combined_electronic_vibrational.append(f'{e_a[-1]}{v_a[-1]}')
                string = ', '.join(combined_electronic_vibrational)
                if h_operand is None:
                    string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {t_operands}, {z_operand})"
                else:
                    string = f"np.einsum('{string} -> {e_char}{remaining_indices}', {t_operands}, {h_operand}, {z_operand})"
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][z_right.rank][prefactor].append(string)
        else:
            raise Exception('Should not get here')
    investigate_flag = False
    for i, e in enumerate(hamiltonian_rank_list):
        for key_t, t_dict in hamiltonian_rank_list[i].items():
            for key_z, z_dict in t_dict.items():
                for pref, p_list in z_dict.items():
                    unique_list = sorted(list(set(p_list)))
                    if len(p_list) == len(unique_list):
                        pass
                    else:
                        hamiltonian_rank_list[i][key_t][key_z][pref] = unique_list
                hamiltonian_rank_list[i][key_t][key_z] = dict([(pref, p_list) for pref, p_list in sorted(hamiltonian_rank_list[i][key_t][key_z].items()) if p_list != []])
                if investigate_flag:
                    import pdb
                    pdb.set_trace()
            hamiltonian_rank_list[i][key_t] = dict([(key_z, z_dict) for key_z, z_dict in sorted(hamiltonian_rank_list[i][key_t].items()) if z_dict != {}])
            if investigate_flag:
                import pdb
                pdb.set_trace()

    def compact_display_of_hamiltonian_rank_list(hamiltonian_rank_list):
        for i, h_rank_dict in enumerate(hamiltonian_rank_list):
            for key, t_rank_dict in h_rank_dict.items():
                for key2, z_rank_dict in t_rank_dict.items():
                    for key3, prefactor_list in z_rank_dict.items():
                        pass
    compact_display_of_hamiltonian_rank_list(hamiltonian_rank_list)
    h_contribution_list = []
    _collect_z_contributions(hamiltonian_rank_list[0][0], h_contribution_list, lhs_rhs, trunc_obj_name, suppress_empty_if_checks=suppress_empty_if_checks, nof_tabs=0)
    for j in range(1, master_omega.maximum_rank + 1):
        if hamiltonian_rank_list[0][j] is {}:
            continue
        temp_list = []
        _collect_z_contributions(hamiltonian_rank_list[0][j], temp_list, lhs_rhs, trunc_obj_name, suppress_empty_if_checks=suppress_empty_if_checks, nof_tabs=1)
        if temp_list == [] and suppress_empty_if_checks:
            continue
        t_header_if_string = f'if {trunc_obj_name}.t_{taylor_series_order_tag[j]}:'
        if temp_list == []:
            h_contribution_list.append(t_header_if_string)
            h_contribution_list.append(f'{tab}pass')
        else:
            h_contribution_list.append(t_header_if_string)
            h_contribution_list.extend(temp_list)
    for i in range(1, H.maximum_rank + 1):
        if hamiltonian_rank_list[i] is {}:
            continue
        temp_list = []
        _collect_z_contributions(hamiltonian_rank_list[i][0], temp_list, lhs_rhs, trunc_obj_name, suppress_empty_if_checks=suppress_empty_if_checks, nof_tabs=1)
        h_header_if_string = f'if {trunc_obj_name}.h_at_least_{hamiltonian_order_tag[i]}:'
        h_contribution_list.append('')
        h_contribution_list.append(h_header_if_string)
        if temp_list != []:
            h_contribution_list.extend(temp_list)
        for j in range(1, master_omega.maximum_rank + 1):
            if hamiltonian_rank_list[i][j] is {}:
                continue
            temp_list = []
            _collect_z_contributions(hamiltonian_rank_list[i][j], temp_list, lhs_rhs, trunc_obj_name, suppress_empty_if_checks=suppress_empty_if_checks, nof_tabs=2)
            if temp_list == [] and suppress_empty_if_checks:
                continue
            t_header_if_string = f'{tab}if {trunc_obj_name}.t_{taylor_series_order_tag[j]}:'
            if temp_list == []:
                h_contribution_list.append(t_header_if_string)
                h_contribution_list.append(f'{tab}{tab}pass')
            else:
                h_contribution_list.append(t_header_if_string)
                h_contribution_list.extend(temp_list)
            if not suppress_empty_if_checks:
                h_contribution_list.append('')
        if not suppress_empty_if_checks:
            h_contribution_list.append('')
        if h_contribution_list[-1] == h_header_if_string:
            del h_contribution_list[-1]
    if h_contribution_list == []:
        return_list.append('pass')
    else:
        return_list.extend(h_contribution_list)
    no_duplicate_list = []
    for i in range(len(return_list) - 1):
        if return_list[i + 1] == '' and return_list[i] == '':
            continue
        else:
            no_duplicate_list.append(return_list[i])
    no_duplicate_list.append(return_list[-1])
    if no_duplicate_list[0] == '':
        no_duplicate_list.pop(0)
    return no_duplicate_list


def remove_all_excited_state_t_terms(eT_taylor_expansion):
    eT_taylor_expansion = copy.deepcopy(eT_taylor_expansion)
    i_list, j_list = ([], [])
    for i, e1 in enumerate(eT_taylor_expansion):
        if not isinstance(e1, list):
            if e1.m > 0:
                i_list.append(i)
            continue
        for j, e2 in enumerate(e1):
            if not isinstance(e2, list):
                if e2.m > 0:
                    j_list.append(1)
                continue
            k_list = [1 for k, e3 in enumerate(e2) if e3.m > 0]
            del e2[:sum(k_list)]
        del e1[:sum(j_list)]
    del eT_taylor_expansion[:sum(i_list)]
    filtered_eT_taylor_expansion = [x for x in eT_taylor_expansion if x != []]
    return filtered_eT_taylor_expansion


def _generate_eT_zhz_einsums(Proj, operators, lhs_rhs, only_ground_state=False, remove_f_terms=False, opt_einsum=False):
    master_omega, H, Z, eT_taylor_expansion = operators
    valid_zero_list = []
    valid_term_list = []
    if only_ground_state:
        Z = Z._replace(operator_list=[z for z in Z.operator_list if z.n == 0])
        eT_taylor_expansion = remove_all_excited_state_t_terms(eT_taylor_expansion)
        if lhs_rhs == 'LHS':
            H = H._replace(operator_list=[h for h in H.operator_list if h.n == 0])
    zero_eT_term = eT_taylor_expansion[0]
    _filter_out_valid_eTz_terms(Proj, zero_eT_term, H, None, Z, valid_zero_list, lhs_rhs)
    for term in valid_zero_list:
        middle_term_rank_zero = bool(term[2].rank == 0)
        z_derivative_is_correct_order = bool(term[3][1].m == term[0].n)
        if lhs_rhs == 'LHS' and middle_term_rank_zero and z_derivative_is_correct_order:
            valid_zero_list.remove(term)
            break
    for eT_series_term in eT_taylor_expansion[1:]:
        _filter_out_valid_eTz_terms(Proj, eT_series_term, H, None, Z, valid_term_list, 'RHS')
    if valid_zero_list == [] and valid_term_list == []:
        return [['pass  # all terms invalid'], ['pass  # all terms invalid']]
    for i, _ in enumerate(valid_term_list):
        pass
    return_list = [_write_third_eTz_einsum_python(Proj.rank, operators, valid_zero_list, lhs_rhs, b_loop_flag=True), _write_third_eTz_einsum_python(Proj.rank, operators, valid_term_list, lhs_rhs, b_loop_flag=True)]
    return return_list


def _generate_eT_zhz_einsums_without_h0_z(Proj, operators, lhs_rhs, only_ground_state=False, remove_f_terms=False, opt_einsum=False):
    """the generated python for the right-hand side leaves out the product of the rank zero Hamiltonian with the Z of the equation's own order (removed for the left-hand side only in the LaTeX)"""
    master_omega, H, Z, eT_taylor_expansion = operators
    valid_zero_list = []
    valid_term_list = []
    if only_ground_state:
        Z = Z._replace(operator_list=[z for z in Z.operator_list if z.n == 0])
        eT_taylor_expansion = remove_all_excited_state_t_terms(eT_taylor_expansion)
        if lhs_rhs == 'LHS':
            H = H._replace(operator_list=[h for h in H.operator_list if h.n == 0])
    zero_eT_term = eT_taylor_expansion[0]
    _filter_out_valid_eTz_terms(Proj, zero_eT_term, H, None, Z, valid_zero_list, lhs_rhs)
    for term in valid_zero_list:
        middle_term_rank_zero = bool(term[2].rank == 0)
        z_derivative_is_correct_order = bool(term[3][1].m == term[0].n)
        if middle_term_rank_zero and z_derivative_is_correct_order:
            valid_zero_list.remove(term)
            break
    for eT_series_term in eT_taylor_expansion[1:]:
        _filter_out_valid_eTz_terms(Proj, eT_series_term, H, None, Z, valid_term_list, 'RHS')
    if valid_zero_list == [] and valid_term_list == []:
        return [['pass  # all terms invalid'], ['pass  # all terms invalid']]
    for i, _ in enumerate(valid_term_list):
        pass
    return_list = [_write_third_eTz_einsum_python(Proj.rank, operators, valid_zero_list, lhs_rhs, b_loop_flag=True), _write_third_eTz_einsum_python(Proj.rank, operators, valid_term_list, lhs_rhs, b_loop_flag=True)]
    return return_list


def _construct_eT_zhz_compute_function(Proj, operators, lhs_rhs, only_ground_state=False, opt_einsum=False):
    return_string = ''
    specifier_string = f'm{Proj.m}_n{Proj.n}'
    four_tabbed_newline = '\n' + tab * 4
    five_tabbed_newline = '\n' + tab * 5
    ground_state_only_einsums = _generate_eT_zhz_einsums(Proj, operators, lhs_rhs, only_ground_state=True, opt_einsum=opt_einsum)
    if not only_ground_state:
        ground_and_excited_state_einsums = _generate_eT_zhz_einsums(Proj, operators, lhs_rhs, only_ground_state=False, opt_einsum=opt_einsum)
    else:
        ground_and_excited_state_einsums = [("raise NotImplementedError('Hot Band amplitudes not implemented!')",)] * 2
    debugging_list = ['HZ', 'eT_HZ']
    for i, term_type in enumerate(debugging_list):
        if lhs_rhs == 'RHS':
            if not opt_einsum:
                func_name = f'add_{specifier_string}_{term_type}_terms'
            else:
                func_name = f'add_{specifier_string}_{term_type}_terms_optimized'
        elif lhs_rhs == 'LHS':
            if not opt_einsum:
                func_name = f'compute_{specifier_string}_{term_type}_LHS'
            else:
                func_name = f'compute_{specifier_string}_{term_type}_LHS_optimized'
        if lhs_rhs == 'RHS':
            if not opt_einsum:
                positional_arguments = 'R, ansatz, truncation, t_args, h_args, z_args'
            else:
                positional_arguments = 'R, ansatz, truncation, t_args, h_args, z_args, opt_einsum'
        elif lhs_rhs == 'LHS':
            if not opt_einsum:
                positional_arguments = 'Z, ansatz, truncation, t_conj, dT, z_args, dz_args'
            else:
                positional_arguments = 'Z, ansatz, truncation, t_conj, dT, z_args, dz_args, opt_einsum'
        if term_type == 'HZ':
            vib_docstring = f'These terms have no vibrational contribution from the e^T operator.{four_tabbed_newline}This reduces the number of possible non-zero permutations of creation/annihilation operators.'
        elif term_type == 'eT_HZ':
            vib_docstring = f'These terms include the vibrational contributions from the e^T operator.{four_tabbed_newline}This increases the number of possible non-zero permutations of creation/annihilation operators.'
        if not opt_einsum:
            opt_docstring = f'Calculate the {Proj} {term_type} terms.{four_tabbed_newline}'
        else:
            opt_docstring = f'Optimized calculation of the {Proj} {term_type} terms.{four_tabbed_newline}'
        function_string = f'\n            def {func_name}({positional_arguments}):\n                """ {opt_docstring}{vib_docstring}\n                """\n\n                if ansatz.ground_state:\n                    {five_tabbed_newline.join(ground_state_only_einsums[i])}\n                else:\n                    {five_tabbed_newline.join(ground_and_excited_state_einsums[i])}\n\n                return\n        '
        function_string = '\n'.join([line[tab_length * 3:].rstrip() for line in function_string.splitlines()])
        return_string += function_string + '\n'
    return return_string


def _wrap_eT_zhz_generation(master_omega, operators, lhs_rhs, only_ground_state=False, opt_einsum=False):
    return_string = ''
    for i, Proj in enumerate(master_omega.operator_list):
        if Proj.rank > master_omega.operator_list[i - 1].rank:
            return_string += spaced_named_line(f'RANK {Proj.rank:2d} FUNCTIONS', s2) + '\n'
        return_string += '\n' + named_line(f'{Proj} TERMS', s2 // 2)
        return_string += _construct_eT_zhz_compute_function(Proj, operators, lhs_rhs, only_ground_state, opt_einsum)
    return return_string


def _write_master_eT_zhz_compute_function(Proj, lhs_rhs, opt_einsum=False):
    specifier_string = f'm{Proj.m}_n{Proj.n}'
    tab = ' ' * 4
    four_tabs = tab * 4
    truncation_checks = 'truncation.confirm_at_least_singles()'
    truncation_checks += f'\n{four_tabs}truncation.confirm_at_least_doubles()' if Proj.m >= 2 or Proj.n >= 2 else ''
    truncation_checks += f'\n{four_tabs}truncation.confirm_at_least_triples()' if Proj.m >= 3 or Proj.n >= 3 else ''
    truncation_checks += f'\n{four_tabs}truncation.confirm_at_least_quadruples()' if Proj.m >= 4 or Proj.n >= 4 else ''
    truncation_checks += f'\n{four_tabs}truncation.confirm_at_least_quintuples()' if Proj.m >= 5 or Proj.n >= 5 else ''
    truncation_checks += f'\n{four_tabs}truncation.confirm_at_least_sextuples()' if Proj.m >= 6 or Proj.n >= 6 else ''
    if lhs_rhs == 'RHS':
        common_positional_arguments = 'ansatz, truncation, t_args, h_args, z_args'
        tensor = 'R'
        step_name = 'add'
        t_type = 'terms'
    elif lhs_rhs == 'LHS':
        common_positional_arguments = 'ansatz, truncation, t_conj, dT, z_args, dz_args'
        tensor = 'dz'
        step_name = 'compute'
        t_type = 'LHS'
    if not opt_einsum:
        func_string = f'\n            def compute_{specifier_string}_amplitude(A, N, {common_positional_arguments}):\n                """Compute the {Proj} amplitude."""\n                {truncation_checks:s}\n\n                # the residual tensor\n                {tensor} = np.zeros(shape=({', '.join(['A'] + ['N'] * Proj.rank)}), dtype=complex)\n\n                # {step_name} the terms\n                {step_name}_{specifier_string}_HZ_{t_type}({tensor}, {common_positional_arguments})\n                {step_name}_{specifier_string}_eT_HZ_{t_type}({tensor}, {common_positional_arguments})\n                return {tensor}\n\n        '
    else:
        func_string = f'\n            def compute_{specifier_string}_amplitude_optimized(A, N, {common_positional_arguments}, opt_paths):\n                """Compute the {Proj} amplitude."""\n                {truncation_checks:s}\n\n                # the residual tensor\n                {tensor} = np.zeros(shape=({', '.join(['A'] + ['N'] * Proj.rank)}), dtype=complex)\n\n                # unpack the optimized paths\n                optimized_HZ_paths, optimized_eT_HZ_paths = opt_paths\n\n                # {step_name} the terms\n                {step_name}_{specifier_string}_HZ_{t_type}_optimized({tensor}, {common_positional_arguments}, optimized_HZ_paths)\n                {step_name}_{specifier_string}_eT_HZ_{t_type}_optimized({tensor}, {common_positional_arguments}, optimized_eT_HZ_paths)\n                return {tensor}\n\n        '
    lines = func_string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 3:] for line in lines])
    return trimmed_string


def _generate_eT_zhz_python_file_contents(truncations, **kwargs):
    only_ground_state = kwargs['only_ground_state']
    lhs_rhs = kwargs['lhs_rhs']
    _verify_eT_z_t_truncations(truncations)
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    maximum_T_rank = truncations[tkeys.T]
    eT_taylor_max_order = truncations[tkeys.eT]
    omega_max_order = truncations[tkeys.P]
    master_omega = generate_omega_operator(maximum_cc_rank, omega_max_order)
    H = generate_pruned_H_operator(maximum_h_rank)
    Z = generate_z_operator(maximum_cc_rank, only_ground_state)
    eT_taylor_expansion = generate_eT_taylor_expansion(maximum_T_rank, eT_taylor_max_order)
    if True:
        master_omega.operator_list[:] = [p for p in master_omega.operator_list if p.m == 0]
    operators = (master_omega, H, Z, eT_taylor_expansion)
    string = long_spaced_named_line('DEFAULT FUNCTIONS', l2)
    string += '\n' + named_line('INDIVIDUAL TERMS', l2) + '\n\n'
    string += _wrap_eT_zhz_generation(master_omega, operators, lhs_rhs, only_ground_state)
    string += '\n' + named_line('RESIDUAL FUNCTIONS', l2)
    string += ''.join([_write_master_eT_zhz_compute_function(Proj, lhs_rhs) for Proj in master_omega.operator_list])
    string += long_spaced_named_line('OPTIMIZED FUNCTIONS', l2 - 1)
    string += '\n' + named_line('INDIVIDUAL TERMS', l2) + '\n\n'
    string += _wrap_eT_zhz_generation(master_omega, operators, lhs_rhs, only_ground_state, opt_einsum=True)
    string += '\n' + named_line('RESIDUAL FUNCTIONS', l2)
    string += ''.join([_write_master_eT_zhz_compute_function(Proj, lhs_rhs, opt_einsum=True) for Proj in master_omega.operator_list])
    string += '\n' + named_line('OPTIMIZED PATHS FUNCTION', l2)
    return string


def generate_eT_zhz_python(truncations, **kwargs):
    file_data = code_import_statements_module.eT_zhz_import_statements
    file_data += _generate_eT_zhz_python_file_contents(truncations, **kwargs)
    with open(kwargs['path'], 'w') as fp:
        fp.write(file_data)
    return
