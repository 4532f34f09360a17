"""Reference definitions for code_full_cc (see DESIGN.md)."""
import functools
import helper_funcs
from helper_funcs import unique_permutations, named_line
from namedtuple_defines import general_operator_namedtuple, omega_namedtuple
from common_imports import tab, tab_length, summation_indices, unlinked_indices, old_print_wrapper
from latex_full_cc import generate_full_cc_hamiltonian_operator, generate_s_taylor_expansion, generate_omega_operator, _filter_out_valid_s_terms, _seperate_s_terms_by_connection, _debug_print_valid_term_list, _debug_print_different_types_of_terms
from namedtuple_defines import disconnected_namedtuple
from code_w_equations import taylor_series_order_tag, hamiltonian_order_tag
import code_import_statements_module
from truncations import _verify_fcc_truncations
from truncation_keys import TruncationsKeys as tkeys
import log_conf
s1, s2, s3 = (75, 28, 25)
l1, l2, l3 = (109, 45, 41)
spaced_named_line = functools.partial(helper_funcs.spaced_named_line, spacing_line=f'# {'-' * s1} #\n')
long_spaced_named_line = functools.partial(helper_funcs.long_spaced_named_line, large_spacing_line=f'# {'-' * l1} #\n')


def _rank_of_t_term_namedtuple(t):
    return sum([v for v in t._asdict().values()])


def _full_cc_einsum_electronic_components(t_list):
    electronic_surface_indices = 'cdefgh'
    electronic_components = ['ac']
    for i in range(len(t_list)):
        electronic_components.append(electronic_surface_indices[i:i + 2])
    electronic_components[-1] = electronic_components[-1][0] + 'b'
    return electronic_components


def _build_h_term_python_labels(h, condense_offset=0):
    sum_label, unlinked_label = ('', '')
    if h.rank == 0:
        return (sum_label, unlinked_label)
    sum_label += summation_indices[0:h.m - h.m_o]
    unlinked_label += unlinked_indices[condense_offset:condense_offset + h.m_o]
    h_offset = h.m - h.m_o
    sum_label += summation_indices[h_offset:h_offset + (h.n - h.n_o)]
    unlinked_label += unlinked_indices[condense_offset + h.m_o:condense_offset + h.m_o + h.n_o]
    return (sum_label, unlinked_label)


def _build_t_term_python_labels(term, offset_dict):
    sum_label, unlinked_label = ('', '')
    if term.n_h > 0 or term.n_o > 0:
        a, b = (offset_dict['summation_lower'], offset_dict['unlinked'])
        sum_label += summation_indices[a:a + term.n_h]
        unlinked_label += unlinked_indices[b:b + term.n_o]
        offset_dict['summation_lower'] += term.n_h
        offset_dict['unlinked'] += term.n_o
    if term.m_h > 0 or term.m_o > 0:
        a, b = (offset_dict['summation_upper'], offset_dict['unlinked'])
        sum_label += summation_indices[a:a + term.m_h]
        unlinked_label += unlinked_indices[b:b + term.m_o]
        offset_dict['summation_upper'] += term.m_h
        offset_dict['unlinked'] += term.m_o
    return (sum_label, unlinked_label)


def _build_t_term_python_group(t_list, h):
    sum_list, unlinked_list = ([], [])
    offset_dict = {'summation_upper': 0, 'summation_lower': 0, 'unlinked': 0}
    offset_dict['summation_upper'] += h.m - h.m_o
    offset_dict['unlinked'] += h.m_o + h.n_o
    for t in t_list:
        sum_label, unlinked_label = _build_t_term_python_labels(t, offset_dict)
        sum_list.append(sum_label)
        unlinked_list.append(unlinked_label)
    return (sum_list, unlinked_list)


def _full_cc_einsum_vibrational_components(h, t_list):
    vibrational_components = []
    h_labels = _build_h_term_python_labels(h)
    alist, blist = _build_t_term_python_group(t_list, h)
    vibrational_components.append(h_labels[0] + h_labels[1])
    for i in range(len(alist)):
        vibrational_components.append(alist[i] + blist[i])
    remaining_list = [h_labels[1]]
    for i in range(len(alist)):
        remaining_list.append(blist[i])
    return (vibrational_components, ''.join(remaining_list))


def _full_cc_einsum_subscript_generator(h, t_list):
    return_string = ''
    electronic_components = _full_cc_einsum_electronic_components(t_list)
    vibrational_components, remaining_indices = _full_cc_einsum_vibrational_components(h, t_list)
    summation_subscripts = ', '.join([f'{electronic_components[i]}{vibrational_components[i]}' for i in range(len(electronic_components))])
    return_string = f'{summation_subscripts} -> ab{remaining_indices}'
    return return_string


def _full_cc_einsum_prefactor(term):
    string = ''
    return string


def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
    if numerator_list == [] or denominator_list == []:
        return (numerator_list, denominator_list)
    numerator_set = set(numerator_list)
    denominator_set = set(denominator_list)
    if numerator_set.isdisjoint(denominator_set):
        return (numerator_list, denominator_list)
    else:
        intersection = numerator_set & denominator_set
    numerator_dict = dict([(key, 0) for key in numerator_set])
    for string in numerator_list:
        numerator_dict[string] += 1
    denominator_dict = dict([(key, 0) for key in denominator_set])
    for string in denominator_list:
        denominator_dict[string] += 1
    for key in intersection:
        a, b = (numerator_dict[key], denominator_dict[key])
        if a > b:
            denominator_dict[key] = 0
            numerator_dict[key] = a - b
        elif a < b:
            denominator_dict[key] = b - a
            numerator_dict[key] = 0
        elif a == b:
            denominator_dict[key] = 0
            numerator_dict[key] = 0
    numerator_list, denominator_list = ([], [])
    for k, v in numerator_dict.items():
        numerator_list.extend([k] * v)
    for k, v in denominator_dict.items():
        denominator_list.extend([k] * v)
    numerator_list.sort()
    denominator_list.sort()
    return (numerator_list, denominator_list)


def _build_full_cc_python_prefactor(h, t_list, simplify_flag=True):
    if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
        return ''
    numerator_list = []
    denominator_list = []
    connected_ts = [t for t in t_list if t.m_h > 0 or t.n_h > 0]
    x = len(set(connected_ts))
    debug_flag = h.n == 2 and h.m == 0 and (len(t_list) == 2) and (t_list[0].m_h == 1) and (t_list[0].m_o == 1) and (t_list[1].m_h == 1) and (t_list[1].m_o == 1)
    if x > 1:
        numerator_list.append(f'factorial({x})')
    if h.m > 1:
        denominator_list.append(f'factorial({h.m})')
    if h.n > 1:
        denominator_list.append(f'factorial({h.n})')
    if len(t_list) > 1:
        denominator_list.append(f'factorial({len(t_list)})')
    if simplify_flag:
        numerator_list, denominator_list = _simplify_full_cc_python_prefactor(numerator_list, denominator_list)
    numerator = '1' if numerator_list == [] else f'({' * '.join(numerator_list)})'
    denominator = '1' if denominator_list == [] else f'({' * '.join(denominator_list)})'
    if numerator == '1' and denominator == '1':
        return ''
    else:
        return f'{numerator}/{denominator} * '


def _multiple_perms_logic(term):
    omega, h, t_list = term
    unique_dict = {}
    for t in t_list:
        if t in unique_dict:
            unique_dict[t] += 1
        else:
            unique_dict[t] = 1
    if len(unique_dict) == 1 and next(iter(unique_dict.values())) == 1:
        return (None, unique_dict)
    if len(unique_dict) == 1:
        length = list(unique_dict.values())[0]
        return (unique_permutations(range(length)), unique_dict)
    if len(unique_dict) > 1:
        return (unique_permutations(range(len(t_list))), unique_dict)
    raise Exception('Should not get here')


def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False, trunc_obj_name='truncation'):
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    if t_term_list == []:
        return ['pass  # no valid terms here']
    return_list = []
    hamiltonian_rank_list = []
    for i in range(maximum_h_rank + 1):
        hamiltonian_rank_list.append(dict([(i, {}) for i in range(maximum_cc_rank + 1)]))
    for term in t_term_list:
        omega, h, t_list = term
        h_operand = f'h_args[({h.m}, {h.n})]'
        if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
            return_list.append(f'R += {h_operand}')
            continue
        permutations, unique_dict = _multiple_perms_logic(term)
        prefactor = _build_full_cc_python_prefactor(h, t_list)
        max_t_rank = max((_rank_of_t_term_namedtuple(t) for t in t_list))
        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
        if permutations is None:
            t_operands = ', '.join([f't_args[({t.m_h + t.m_o}, {t.n_h + t.n_o})]' for t in t_list])
            e_a = _full_cc_einsum_electronic_components(t_list)
            v_a, remaining_indices = _full_cc_einsum_vibrational_components(h, t_list)
            if remaining_indices == '':
                if not opt_einsum:
                    string = ', '.join([f'{e_a[i]}{v_a[i]}' for i in range(len(e_a))])
                    string = f"np.einsum('{string} -> ab{remaining_indices}', {h_operand}, {t_operands})"
                else:
                    string = f'next(optimized_einsum)({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
            elif len(remaining_indices) >= 1:
                for perm in unique_permutations(remaining_indices):
                    if not opt_einsum:
                        string = ', '.join([f'{e_a[i]}{v_a[i]}' for i in range(len(e_a))])
                        string = f"np.einsum('{string} -> ab{remaining_indices}', {h_operand}, {t_operands})"
                    else:
                        string = f'next(optimized_einsum)({h_operand}, {t_operands})'
                    hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
                if len(remaining_indices) >= 2:
                    pass
        elif len(unique_dict.keys()) == 1:
            t_operands = ', '.join([f't_args[({t.m_h + t.m_o}, {t.n_h + t.n_o})]' for t in t_list])
            e_a = _full_cc_einsum_electronic_components(t_list)
            v_a, remaining_indices = _full_cc_einsum_vibrational_components(h, t_list)
            for perm in permutations:
                if not opt_einsum:
                    string = ', '.join([f'{e_a[0]}{v_a[0]}'] + [f'{e_a[i + 1]}{v_a[p + 1]}' for i, p in enumerate(perm)])
                    string = f"np.einsum('{string} -> ab{remaining_indices}', {h_operand}, {t_operands})"
                else:
                    string = f'next(optimized_einsum)({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
        elif len(unique_dict) > 1:
            e_a = _full_cc_einsum_electronic_components(t_list)
            v_a, remaining_indices = _full_cc_einsum_vibrational_components(h, t_list)
            for perm in permutations:
                t_operands = ', '.join([f't_args[({t_list[i].m_h + t_list[i].m_o}, {t_list[i].n_h + t_list[i].n_o})]' for i in perm])
                if not opt_einsum:
                    string = ', '.join([f'{e_a[0]}{v_a[0]}'] + [f'{e_a[i + 1]}{v_a[p + 1]}' for i, p in enumerate(perm)])
                    string = f"np.einsum('{string} -> ab{remaining_indices}', {h_operand}, {t_operands})"
                else:
                    string = f'next(optimized_einsum)({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
        else:
            raise Exception('')

    def _handle_multiline_same_prefactor(return_list, prefactor, string_list, nof_tabs=0):
        tabber = tab * nof_tabs
        if len(string_list) > 1:
            return_list.append(f'{tabber}R += {prefactor}(')
            for string in string_list:
                return_list.append(f'{tabber}{tab}{string} +')
            return_list[-1] = return_list[-1][:-2]
            return_list.append(f'{tabber})')
        else:
            return_list.append(f'{tabber}R += {prefactor}{string_list[0]}')
        return
    for prefactor, string_list in hamiltonian_rank_list[0][0].items():
        _handle_multiline_same_prefactor(return_list, prefactor, string_list, nof_tabs=0)
    for j in range(1, maximum_cc_rank + 1):
        if hamiltonian_rank_list[0][j] != {}:
            cc_if_statement_string = f'if {trunc_obj_name}.{taylor_series_order_tag[j]}:'
            return_list.append(cc_if_statement_string)
            for prefactor, string_list in hamiltonian_rank_list[0][j].items():
                _handle_multiline_same_prefactor(return_list, prefactor, string_list, nof_tabs=1)
            if return_list[-1] == cc_if_statement_string:
                del return_list[-1]
    for i in range(1, maximum_h_rank + 1):
        temp_list = []
        temp_list.append('')
        h_if_statement_string = f'if {trunc_obj_name}.at_least_{hamiltonian_order_tag[i]}:'
        temp_list.append(h_if_statement_string)
        for prefactor, string_list in hamiltonian_rank_list[i][0].items():
            _handle_multiline_same_prefactor(temp_list, prefactor, string_list, nof_tabs=1)
        for j in range(1, maximum_cc_rank + 1):
            if hamiltonian_rank_list[i][j] != {}:
                cc_if_statement_string = f'{tab}if {trunc_obj_name}.{taylor_series_order_tag[j]}:'
                temp_list.append(cc_if_statement_string)
                for prefactor, string_list in hamiltonian_rank_list[i][j].items():
                    _handle_multiline_same_prefactor(temp_list, prefactor, string_list, nof_tabs=2)
                if temp_list[-1] == cc_if_statement_string:
                    del temp_list[-1]
        if temp_list[-1] == h_if_statement_string:
            continue
        else:
            return_list.extend(temp_list)
    return return_list


def _generate_full_cc_einsums(omega_term, truncations, only_ground_state=False, opt_einsum=False):
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    s_taylor_max_order = truncations[tkeys.S]
    H = generate_full_cc_hamiltonian_operator(maximum_h_rank)
    s_taylor_expansion = generate_s_taylor_expansion(maximum_cc_rank, s_taylor_max_order, only_ground_state)
    simple_repr_list = []
    valid_term_list = []
    for count, s_series_term in enumerate(s_taylor_expansion):
        _filter_out_valid_s_terms(omega_term, H, s_series_term, simple_repr_list, valid_term_list, remove_f_terms=True)
    fully, linked, unlinked = _seperate_s_terms_by_connection(valid_term_list)
    return_list = [_write_cc_einsum_python_from_list(truncations, fully, opt_einsum=opt_einsum), _write_cc_einsum_python_from_list(truncations, linked, opt_einsum=opt_einsum), _write_cc_einsum_python_from_list(truncations, unlinked, opt_einsum=opt_einsum)]
    return return_list


def _generate_full_cc_compute_functions(omega_term, truncations, only_ground_state=False, opt_einsum=False):
    return_string = ''
    specifier_string = f'm{omega_term.m}_n{omega_term.n}'
    five_tab = '\n' + tab * 5
    ground_state_only_einsums = _generate_full_cc_einsums(omega_term, truncations, only_ground_state=True, opt_einsum=opt_einsum)
    full_einsums = [("raise NotImplementedError('Hot Band amplitudes not implemented properly and have not been theoretically verified!')",)] * 3
    optnames = ['connected', 'linked', 'unlinked']
    for i, term_type in enumerate(['fully_connected', 'linked_disconnected', 'unlinked_disconnected']):
        if not opt_einsum:
            func_name = f'add_{specifier_string}_{term_type}_terms'
        else:
            func_name = f'add_{specifier_string}_{term_type}_terms_optimized'
        if not opt_einsum:
            positional_arguments = 'R, ansatz, truncation, h_args, t_args'
        else:
            positional_arguments = 'R, ansatz, truncation, h_args, t_args' + f', opt_{optnames[i]}_path_list'
        if not opt_einsum:
            docstring = f'Calculate the {omega_term} {term_type} terms.'
        else:
            docstring = f'Optimized calculation of the {omega_term} {term_type} terms.'
        if not opt_einsum:
            unpack_optimized_einsum = ''
        else:
            unpack_optimized_einsum = f'\n{tab * 4}# make an iterable out of the `opt_{optnames[i]}_path_list`\n{tab * 4}optimized_einsum = iter(opt_{optnames[i]}_path_list)\n'
        function_string = f'\n            def {func_name}({positional_arguments}):\n                """{docstring}"""\n                {unpack_optimized_einsum}\n                if ansatz.ground_state:\n                    {five_tab.join(ground_state_only_einsums[i])}\n                else:\n                    {five_tab.join(full_einsums[i])}\n                return\n        '
        function_string = '\n'.join([line[tab_length * 3:].rstrip() for line in function_string.splitlines()])
        return_string += function_string + '\n'
    return return_string


def _wrap_full_cc_generation(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state=False, opt_einsum=False):
    return_string = ''
    for i, omega_term in enumerate(master_omega.operator_list):
        if omega_term.rank > master_omega.operator_list[i - 1].rank:
            return_string += spaced_named_line(f'RANK {omega_term.rank:2d} FUNCTIONS', s2) + '\n'
        return_string += '\n' + named_line(f'{omega_term} TERMS', s2 // 2)
        return_string += _generate_full_cc_compute_functions(omega_term, truncations, only_ground_state, opt_einsum=opt_einsum)
    return return_string


def _write_master_full_cc_compute_function(omega_term, opt_einsum=False):
    specifier_string = f'm{omega_term.m}_n{omega_term.n}'
    if not opt_einsum:
        func_string = f'\n            def compute_{specifier_string}_amplitude(A, N, ansatz, truncation, h_args, t_args):\n                """Compute the {omega_term} amplitude."""\n                truncation.confirm_at_least_singles()\n\n                # the residual tensor\n                R = np.zeros(shape=({', '.join(['A', 'A'] + ['N'] * omega_term.rank)}), dtype=complex)\n\n                # add each of the terms\n                add_{specifier_string}_fully_connected_terms(R, ansatz, truncation, h_args, t_args)\n                add_{specifier_string}_linked_disconnected_terms(R, ansatz, truncation, h_args, t_args)\n                add_{specifier_string}_unlinked_disconnected_terms(R, ansatz, truncation, h_args, t_args)\n                return R\n\n        '
    else:
        func_string = f'\n            def compute_{specifier_string}_amplitude_optimized(A, N, ansatz, truncation, h_args, t_args, opt_path_lists):\n                """Compute the {omega_term} amplitude."""\n                truncation.confirm_at_least_singles()\n\n                # the residual tensor\n                R = np.zeros(shape=({', '.join(['A', 'A'] + ['N'] * omega_term.rank)}), dtype=complex)\n\n                # unpack the optimized paths\n                opt_connected_path_list, opt_linked_path_list, opt_unlinked_path_list = opt_path_lists[({omega_term.m}, {omega_term.n})]\n\n                # add each of the terms\n                add_{specifier_string}_fully_connected_terms_optimized(R, ansatz, truncation, h_args, t_args, opt_connected_path_list)\n                add_{specifier_string}_linked_disconnected_terms_optimized(R, ansatz, truncation, h_args, t_args, opt_linked_path_list)\n                add_{specifier_string}_unlinked_disconnected_terms_optimized(R, ansatz, truncation, h_args, t_args, opt_unlinked_path_list)\n                return R\n\n        '
    lines = func_string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 3:] for line in lines])
    return trimmed_string
term_type_name_list = ['fully_connected', 'linked_disconnected', 'unlinked_disconnected']


def _A_A_term_shape_string(order):
    return f'({', '.join(['A', 'A'] + ['N'] * order)})'


def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_name, trunc_obj_name='truncation'):
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    if t_term_list == []:
        return ['pass  # no valid terms here']
    return_list = []
    hamiltonian_rank_list = []
    for i in range(maximum_h_rank + 1):
        hamiltonian_rank_list.append(dict([(i, {}) for i in range(maximum_cc_rank + 1)]))
    for term in t_term_list:
        omega, h, t_list = term
        h_operand = _A_A_term_shape_string(h.m + h.n)
        assert h.rank == h.m + h.n
        if len(t_list) == 1 and t_list[0] == disconnected_namedtuple(0, 0, 0, 0):
            continue
        permutations, unique_dict = _multiple_perms_logic(term)
        prefactor = _build_full_cc_python_prefactor(h, t_list)
        max_t_rank = max((_rank_of_t_term_namedtuple(t) for t in t_list))
        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
        for t in t_list:
            assert sum(t) == t.m_h + t.n_h + t.m_o + t.n_o
        if permutations is None:
            t_operands = ', '.join([_A_A_term_shape_string(sum(t)) for t in t_list])
            _, remaining_indices = _full_cc_einsum_vibrational_components(h, t_list)
            if remaining_indices == '':
                string = f'oe.contract_expression({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
            elif len(remaining_indices) >= 1:
                for perm in unique_permutations(remaining_indices):
                    string = f'oe.contract_expression({h_operand}, {t_operands})'
                    hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
        elif len(unique_dict.keys()) == 1:
            t_operands = ', '.join([_A_A_term_shape_string(sum(t)) for t in t_list])
            for perm in permutations:
                string = f'oe.contract_expression({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
        elif len(unique_dict) > 1:
            for perm in permutations:
                t_operands = ', '.join([_A_A_term_shape_string(sum(t_list[i])) for i in perm])
                string = f'oe.contract_expression({h_operand}, {t_operands})'
                hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor].append(string)
        else:
            raise Exception('')

    def _handle_multiline_same_prefactor(return_list, string_list, nof_tabs=0):
        tabber = tab * nof_tabs
        if len(string_list) > 1:
            return_list.append(f'{tabber}{local_list_name}.extend([')
            for string in string_list:
                return_list.append(f'{tabber}{tab}{string},')
            return_list[-1] = return_list[-1][:-1]
            return_list.append(f'{tabber}])')
        else:
            return_list.append(f'{tabber}{local_list_name}.append({string_list[0]})')
        return
    for prefactor, string_list in hamiltonian_rank_list[0][0].items():
        _handle_multiline_same_prefactor(return_list, string_list, nof_tabs=0)
    for j in range(1, maximum_cc_rank + 1):
        if hamiltonian_rank_list[0][j] != {}:
            cc_if_statement_string = f'if {trunc_obj_name}.{taylor_series_order_tag[j]}:'
            return_list.append(cc_if_statement_string)
            for prefactor, string_list in hamiltonian_rank_list[0][j].items():
                _handle_multiline_same_prefactor(return_list, string_list, nof_tabs=1)
            if return_list[-1] == cc_if_statement_string:
                del return_list[-1]
    for i in range(1, maximum_h_rank + 1):
        temp_list = []
        temp_list.append('')
        h_if_statement_string = f'if {trunc_obj_name}.at_least_{hamiltonian_order_tag[i]}:'
        temp_list.append(h_if_statement_string)
        for prefactor, string_list in hamiltonian_rank_list[i][0].items():
            _handle_multiline_same_prefactor(temp_list, string_list, nof_tabs=1)
        for j in range(1, maximum_cc_rank + 1):
            if hamiltonian_rank_list[i][j] != {}:
                cc_if_statement_string = f'{tab}if {trunc_obj_name}.{taylor_series_order_tag[j]}:'
                temp_list.append(cc_if_statement_string)
                for prefactor, string_list in hamiltonian_rank_list[i][j].items():
                    _handle_multiline_same_prefactor(temp_list, string_list, nof_tabs=2)
                if temp_list[-1] == cc_if_statement_string:
                    del temp_list[-1]
        if temp_list[-1] == h_if_statement_string:
            continue
        else:
            return_list.extend(temp_list)
    if return_list == []:
        return_list.append('pass  # no valid terms here')
    return return_list


def _generate_full_cc_optimized_paths(omega_term, truncations, only_ground_state=False):
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    s_taylor_max_order = truncations[tkeys.S]
    H = generate_full_cc_hamiltonian_operator(maximum_h_rank)
    s_taylor_expansion = generate_s_taylor_expansion(maximum_cc_rank, s_taylor_max_order, only_ground_state)
    simple_repr_list = []
    valid_term_list = []
    for count, s_series_term in enumerate(s_taylor_expansion):
        _filter_out_valid_s_terms(omega_term, H, s_series_term, simple_repr_list, valid_term_list, remove_f_terms=True)
    fully, linked, unlinked = _seperate_s_terms_by_connection(valid_term_list)
    return_list = [_write_cc_optimized_paths_from_list(truncations, fully, local_list_name=f'{term_type_name_list[0]}_opt_path_list'), _write_cc_optimized_paths_from_list(truncations, linked, local_list_name=f'{term_type_name_list[1]}_opt_path_list'), _write_cc_optimized_paths_from_list(truncations, unlinked, local_list_name=f'{term_type_name_list[2]}_opt_path_list')]
    return return_list


def _generate_optimized_paths_functions(omega_term, truncations, only_ground_state):
    return_string = ''
    specifier_string = f'm{omega_term.m}_n{omega_term.n}'
    five_tab = '\n' + tab * 5
    ground_state_only_paths = _generate_full_cc_optimized_paths(omega_term, truncations, only_ground_state=True)
    full_paths = [("raise NotImplementedError('Hot Band amplitudes not implemented properly and have not been theoretically verified!')",)] * 3
    for i, term_type in enumerate(term_type_name_list):
        function_string = f'\n            def compute_{specifier_string}_{term_type}_optimized_paths(A, N, ansatz, truncation):\n                """Calculate optimized einsum paths for the {term_type} terms."""\n\n                {term_type}_opt_path_list = []\n\n                if ansatz.ground_state:\n                    {five_tab.join(ground_state_only_paths[i])}\n                else:\n                    {five_tab.join(full_paths[i])}\n\n                return {term_type}_opt_path_list\n        '
        function_string = '\n'.join([line[tab_length * 3:].rstrip() for line in function_string.splitlines()])
        return_string += function_string + '\n'
    return return_string


def _wrap_optimized_paths_generation(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state=False):
    return_string = ''
    for i, omega_term in enumerate(master_omega.operator_list):
        if omega_term.rank > master_omega.operator_list[i - 1].rank:
            return_string += spaced_named_line(f'RANK {omega_term.rank:2d} OPTIMIZED PATHS', s2) + '\n'
        return_string += '\n' + named_line(f'{omega_term} OPTIMIZED PATHS', s2 // 2)
        return_string += _generate_optimized_paths_functions(omega_term, truncations, only_ground_state)
    return return_string


def _write_grouped_optimized_paths_function(omega_term):
    M, N = (omega_term.m, omega_term.n)
    specifier_string = f'm{M}_n{N}'
    func_string = f'\n        def compute_{specifier_string}_optimized_paths(A, N, ansatz, truncation):\n            """Compute the optimized paths for this {omega_term}."""\n            truncation.confirm_at_least_singles()\n\n            connected_opt_path_list = compute_{specifier_string}_fully_connected_optimized_paths(A, N, ansatz, truncation)\n            linked_opt_path_list = compute_{specifier_string}_linked_disconnected_optimized_paths(A, N, ansatz, truncation)\n            unlinked_opt_path_list = compute_{specifier_string}_unlinked_disconnected_optimized_paths(A, N, ansatz, truncation)\n\n            return_dict = {{\n                ({M}, {N}): [connected_opt_path_list, linked_opt_path_list, unlinked_opt_path_list]\n            }}\n\n            return return_dict\n\n    '
    lines = func_string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 2:] for line in lines])
    return trimmed_string


def _write_optimized_master_paths_function(master_omega):
    main_strings = []
    for i, omega_term in enumerate(master_omega.operator_list):
        M, N = (omega_term.m, omega_term.n)
        main_strings.append(f'all_opt_path_lists[({M}, {N})] = compute_m{M}_n{N}_optimized_paths(A, N, ansatz, truncation)[({M}, {N})]\n')
    main_strings = f'{tab * 3}'.join(main_strings)
    func_string = f'\n        def compute_all_optimized_paths(A, N, ansatz, truncation):\n            """Return dictionary containing optimized contraction paths.\n            Calculates all optimized paths for the `opt_einsum` calls up to\n                a maximum order of m+n={master_omega.maximum_rank} for a projection operator P^m_n\n            """\n            all_opt_path_lists = []\n\n            {main_strings}\n            return all_opt_path_lists\n\n    '
    lines = func_string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 2:] for line in lines])
    return trimmed_string


def _generate_full_cc_python_file_contents(truncations, only_ground_state=False):
    _verify_fcc_truncations(truncations)
    maximum_cc_rank = truncations[tkeys.CC]
    omega_max_order = truncations[tkeys.P]
    master_omega = generate_omega_operator(maximum_cc_rank, omega_max_order)
    string = long_spaced_named_line('DEFAULT FUNCTIONS', l2)
    string += '\n' + named_line('INDIVIDUAL TERMS', l2) + '\n\n'
    string += _wrap_full_cc_generation(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state)
    string += '\n' + named_line('RESIDUAL FUNCTIONS', l2)
    string += ''.join([_write_master_full_cc_compute_function(omega_term) for omega_term in master_omega.operator_list])
    string += long_spaced_named_line('OPTIMIZED FUNCTIONS', l2 - 1)
    string += '\n' + named_line('INDIVIDUAL TERMS', l2) + '\n\n'
    string += _wrap_full_cc_generation(truncations, master_omega, s2, named_line, spaced_named_line, only_ground_state, opt_einsum=True)
    string += '\n' + named_line('RESIDUAL FUNCTIONS', l2)
    string += ''.join([_write_master_full_cc_compute_function(omega_term, opt_einsum=True) for omega_term in master_omega.operator_list])
    string += long_spaced_named_line('OPTIMIZED PATHS FUNCTIONS', l3)
    string += '\n' + named_line('INDIVIDUAL OPTIMIZED PATHS', l3) + '\n\n'
    string += _wrap_optimized_paths_generation(truncations, master_omega, s3, named_line, spaced_named_line, only_ground_state)
    string += '\n' + named_line('GROUPED BY PROJECTION OPERATOR', l3)
    string += ''.join([_write_grouped_optimized_paths_function(omega_term) for omega_term in master_omega.operator_list])
    string += '\n' + named_line('MASTER OPTIMIZED PATH FUNCTION', l3)
    string += _write_optimized_master_paths_function(master_omega) + '\n'
    return string


def generate_full_cc_python(truncations, **kwargs):
    only_ground_state = kwargs['only_ground_state']
    path = kwargs['path']
    file_data = code_import_statements_module.full_cc_import_statements
    file_data += _generate_full_cc_python_file_contents(truncations, only_ground_state)
    with open(path, 'w') as fp:
        fp.write(file_data)
    return
