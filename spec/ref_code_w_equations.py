"""Reference definitions for code_w_equations (see DESIGN.md)."""
import code_import_statements_module
from namedtuple_defines import t_term_namedtuple
from helper_funcs import generate_un_linked_disconnected_partitions_of_n, generate_linked_disconnected_partitions_of_n, unique_permutations
from common_imports import tab, tab_length, old_print_wrapper


def _next_list(lst, n):
    if lst.count(1) == 0:
        return [lst]
    elif lst.count(1) == n or lst.count(1) == 1:
        result = lst[1:-1] + [lst[-1] + 1]
        return [result]
    else:
        result = [lst[1:-2] + [lst[-2] + 1] + [lst[-1]], lst[1:-1] + [lst[-1] + 1]]
        return result


def _generate_t_lists(n):
    first = [1] * n
    result = []
    lst = [first]
    current = _next_list(lst[-1], n)
    while current != [lst[-1]]:
        lst += current
        current = _next_list(lst[-1], n)
    previous_max = max(lst[0])
    for sub_lst in lst:
        current_max = max(sub_lst)
        if current_max >= previous_max:
            result.append(sub_lst)
            previous_max = current_max
        else:
            result = [sub_lst] + result
    result.reverse()
    return result


def _generate_t_terms_dictionary(n):
    result = {}
    t_tag_list = ['i', 'j', 'k', 'l', 'm', 'n']
    t_num_list = _generate_t_lists(n)
    for num_term in t_num_list:
        t_term = []
        for n in num_term:
            t_str = 't_' + ''.join(t_tag_list[:n])
            t_term.append(t_str)
        result[tuple(num_term)] = tuple(t_term)
    return result


def _permutation_function(l_t, l_fix, l_perm, n):
    result = []
    for char_group in l_perm:
        s_result = []
        for t_group in l_t:
            ss_result = [list(l_fix)]
            i = 0
            p_sum = 0
            for t_item in t_group:
                length = len(t_item) - 2
                ss_result[0][i] += ''.join(char_group[p_sum:length + p_sum])
                p_sum += length
                i += 1
            if len(l_fix) != n:
                s_result += ss_result
        if len(l_fix) == n:
            s_result += ss_result
        result += [s_result]
    return result


def _write_permutations(perm_t, perm_char_list, W_array, prefactor):
    result = ''
    for p_group in perm_char_list:
        cmd_list = [', '.join(p_c) for p_c in p_group]
        arg_list = [', '.join(perm) for perm in perm_t]
        einsum_list = [f"np.einsum('{cmd_list[i]}', {arg_list[i]})" for i in range(len(p_group))]
        sum_of_einsums = ' + '.join(einsum_list)
        result += f'{tab}{W_array} += {prefactor} * ({sum_of_einsums})\n'
    return result
t_terms = [None, t_term_namedtuple('t_i', 1, '(A, A, N)'), t_term_namedtuple('t_ij', 2, '(A, A, N, N)'), t_term_namedtuple('t_ijk', 3, '(A, A, N, N, N)'), t_term_namedtuple('t_ijkl', 4, '(A, A, N, N, N, N)'), t_term_namedtuple('t_ijklm', 5, '(A, A, N, N, N, N, N)'), t_term_namedtuple('t_ijklmn', 6, '(A, A, N, N, N, N, N, N)'), t_term_namedtuple('t_ijklmno', 7, '(A, A, N, N, N, N, N, N, N)'), t_term_namedtuple('t_ijklmnop', 8, '(A, A, N, N, N, N, N, N, N, N)')]


def _generate_w_operator_prefactor(tupl):
    if max(tupl) == 1 and len(tupl) == 1:
        return ''
    elif max(tupl) == 1:
        return f'1/factorial({len(tupl)})'
    elif len(tupl) == 1:
        return f'1/factorial({max(tupl)})'
    else:
        denominator_list = [f'factorial({len(tupl)})']
        for n in tupl:
            if n != 1:
                denominator_list.append(f'factorial({n})')
        denominator = ' * '.join(denominator_list)
        return f'1/({denominator})'
num_tag = ['zero', '1st', '2nd', '3rd', '4th', '5th', '6th', '7th', '8th']
taylor_series_order_tag = ['', 'singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
hamiltonian_order_tag = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
einsum_surface_tags = 'acdefghi'
tag_str = 'ijklmnop'


def _generate_surface_index(partition):
    max_i = len(partition) - 1
    if max_i > 7:
        raise NotImplementedError("Our current `einsum_surface_tags` can't support 7th order W operators")
    return_list = [einsum_surface_tags[i:i + 2] for i in range(max_i)]
    return_list.append(einsum_surface_tags[max_i] + 'b')
    return return_list


def _generate_mode_index(partition, order):
    if order > 6:
        raise NotImplementedError("Our current `tag_str` can't support 7th order W operators")
    combinations = unique_permutations(partition)
    return_list = []
    for comb in combinations:
        N_list = list(tag_str[:order])
        comb_list = [''.join([N_list.pop(0) for _ in range(n)]) for n in comb]
        return_list.append(comb_list)
    return return_list


def _w_einsum_list(partition, order):
    combinations = unique_permutations(partition)
    surf_index = _generate_surface_index(partition)
    mode_index = _generate_mode_index(partition, order)
    return_list = []
    for i, tupl in enumerate(combinations):
        in_dims = ', '.join([surf_index[a] + mode_index[i][a] for a in range(len(surf_index))])
        out_dims = f'ab{tag_str[0:order]}'
        pterms = ', '.join([t_terms[n].string for n in tupl])
        return_list.append(f"np.einsum('{in_dims}->{out_dims}', {pterms})")
    return return_list


def _optimized_w_einsum_list(partition, order, iterator_name='optimized_einsum'):
    combinations = unique_permutations(partition)
    return_list = []
    for i, tupl in enumerate(combinations):
        pterms = ', '.join([t_terms[n].string for n in tupl])
        return_list.append(f'next({iterator_name})({pterms})')
    return return_list


def _construct_vemx_contributions_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    t_arg_string = ', '.join([t_terms[n].string for n in range(1, order)] + ['*unusedargs'])
    W_array = f'W_{order}'
    if not opt_einsum:
        return_string += f'\ndef _add_order_{order}_vemx_contributions({W_array}, t_args, truncation):\n{tab}"""Calculate the order {order} VECI/CC (mixed) contributions to the W operator\n{tab}for use in the calculation of the residuals.\n{tab}"""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
    else:
        return_string += f'\ndef _add_order_{order}_vemx_contributions_optimized({W_array}, t_args, truncation, opt_path_list):\n{tab}"""Calculate the order {order} VECI/CC (mixed) contributions to the W operator\n{tab}for use in the calculation of the residuals.\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
        if order >= 2:
            return_string += f'{tab}# make an iterable out of the `opt_path_list`\n{tab}{iterator_name} = iter(opt_path_list)\n'
    return return_string


def _generate_vemx_contributions(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_vemx_contributions_definition(return_string, order, opt_einsum)
    if order < 2:
        lst = return_string.split('"""')
        exception = f'\n{tab}raise Exception(\n{tab}{tab}"the first possible purely VECI/CC term is (1, 1) or (dt_i * t_i)"\n{tab}{tab}"which requires a W operator of at least 2nd order"\n{tab})\n'
        return '"""'.join([lst[0], 'Exists for error checking.', exception])
    W_array = f'W_{order}'
    for partition in generate_linked_disconnected_partitions_of_n(order):
        contribution_name = taylor_series_order_tag[max(partition)].upper()
        contribution_string = ''
        return_string += f'{tab}# {contribution_name} contribution\n'
        if max(partition) >= 2:
            return_string += f'{tab}if truncation.{contribution_name.lower()}:\n'
        prefactor = _generate_w_operator_prefactor(partition)
        if len(partition) == 1:
            if max(partition) >= 2:
                return_string += f'{tab}{tab}{W_array} += {prefactor} * {t_terms[partition[0]].string}\n'
            else:
                return_string += f'{tab}{W_array} += {prefactor} * {t_terms[partition[0]].string}\n'
            continue
        einsum_list = _optimized_w_einsum_list(partition, order) if opt_einsum else _w_einsum_list(partition, order)
        if len(partition) == order:
            sum_of_einsums = ' + '.join(einsum_list)
            contribution_string += f'{tab}{W_array} += {prefactor} * ({sum_of_einsums})\n'
        else:
            sum_of_einsums = f' +\n{tab}{tab}'.join(einsum_list)
            contribution_string += f'{tab}{W_array} += {prefactor} * (\n{tab}{tab}{sum_of_einsums}\n{tab})\n'
        if max(partition) >= 2:
            lines = contribution_string.splitlines()
            contribution_string = ''.join([f'{tab}{line}\n' for line in lines])
        return_string += contribution_string
    return_string += f'{tab}return\n'
    return return_string


def _construct_vecc_contributions_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    t_arg_string = ', '.join([t_terms[n].string for n in range(1, order - 1)] + ['*unusedargs'])
    W_array = f'W_{order}'
    if not opt_einsum:
        return_string += f'\ndef _add_order_{order}_vecc_contributions({W_array}, t_args, truncation):\n{tab}"""Calculate the order {order} VECC contributions to the W operator\n{tab}for use in the calculation of the residuals.\n{tab}"""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
    else:
        return_string += f'\ndef _add_order_{order}_vecc_contributions_optimized({W_array}, t_args, truncation, opt_path_list):\n{tab}"""Calculate the order {order} VECC contributions to the W operator\n{tab}"for use in the calculation of the residuals.\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
        if order >= 2:
            return_string += f'{tab}# make an iterable out of the `opt_path_list`\n{tab}{iterator_name} = iter(opt_path_list)\n'
    return return_string


def _generate_vecc_contributions(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_vecc_contributions_definition(return_string, order, opt_einsum)
    if order < 4:
        lst = return_string.split('"""')
        exception = f'\n{tab}raise Exception(\n{tab}{tab}"the first possible purely VECC term is (2, 2) or (dt_ij * t_ij)"\n{tab}{tab}"which requires a W operator of at least 4th order"\n{tab})\n'
        return '"""'.join([lst[0], 'Exists for error checking.', exception])
    W_array = f'W_{order}'
    for partition in generate_un_linked_disconnected_partitions_of_n(order):
        contribution_name = taylor_series_order_tag[max(partition)].upper()
        contribution_string = ''
        return_string += f'{tab}# {contribution_name} contribution\n'
        if max(partition) >= 2:
            return_string += f'{tab}if truncation.{contribution_name.lower()}:\n'
        prefactor = _generate_w_operator_prefactor(partition)
        if len(partition) == 1:
            if max(partition) >= 2:
                return_string += f'{tab}{tab}{W_array} += {prefactor} * {t_terms[partition[0]].string}\n'
            else:
                return_string += f'{tab}{W_array} += {prefactor} * {t_terms[partition[0]].string}\n'
            continue
        einsum_list = _optimized_w_einsum_list(partition, order) if opt_einsum else _w_einsum_list(partition, order)
        if len(partition) == order:
            sum_of_einsums = ' + '.join(einsum_list)
            contribution_string += f'{tab}{W_array} += {prefactor} * ({sum_of_einsums})\n'
        else:
            sum_of_einsums = f' +\n{tab}{tab}'.join(einsum_list)
            contribution_string += f'{tab}{W_array} += {prefactor} * (\n{tab}{tab}{sum_of_einsums}\n{tab})\n'
        if max(partition) >= 2:
            lines = contribution_string.splitlines()
            contribution_string = ''.join([f'{tab}{line}\n' for line in lines])
        return_string += contribution_string
    return_string += f'{tab}return\n'
    return return_string


def _construct_w_function_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    t_arg_string = ', '.join([t_terms[n].string for n in range(1, order + 1)] + ['*unusedargs'])
    if not opt_einsum:
        return_string += f'\ndef _calculate_order_{order}_w_operator(A, N, t_args, ansatz, truncation):\n{tab}"""Calculate the order {order} W operator for use in the calculation of the residuals."""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
    else:
        return_string += f'\ndef _calculate_order_{order}_w_operator_optimized(A, N, t_args, ansatz, truncation, vemx_opt_path_list, vecc_opt_path_list):\n{tab}"""Calculate the order {order} W operator for use in the calculation of the residuals.\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `t_args`\n{tab}{t_arg_string} = t_args\n'
    return return_string


def _write_w_function_strings(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_w_function_definition(return_string, order, opt_einsum)
    W_array = f'W_{order}'
    return_string += f'{tab}# Creating the {num_tag[order]} order W operator\n{tab}{W_array} = np.zeros(({', '.join(['A', 'A'] + ['N'] * order)}), dtype=complex)\n'
    if order == 0:
        raise Exception('We should not call `_write_w_function_strings` with order 0.')
    if order == 1:
        return_string += f'{tab}# Singles contribution\n{tab}{W_array} += t_i\n{tab}return {W_array}\n'
        return return_string
    return_string += '\n'
    opt_string = '_optimized' if opt_einsum else ''
    vemx_opt_path_string = ', vemx_opt_path_list' if opt_einsum else ''
    vecc_opt_path_string = ', vecc_opt_path_list' if opt_einsum else ''
    if order < 2:
        vemx_operations = f'{tab}{tab}pass  # no VECI/CC (mixed) contributions for order < 2\n'
        vecc_operations = f'{tab}{tab}pass  # no VECC contributions for order < 4\n'
    else:
        vemx_operations = f'{tab}{tab}_add_order_{order}_vemx_contributions{opt_string}({W_array}, t_args, truncation{vemx_opt_path_string})\n'
        if order < 4:
            vecc_operations = f'{tab}{tab}_add_order_{order}_vemx_contributions{opt_string}({W_array}, t_args, truncation{vemx_opt_path_string})\n{tab}{tab}pass  # no VECC contributions for order < 4\n'
        else:
            vecc_operations = f'{tab}{tab}_add_order_{order}_vemx_contributions{opt_string}({W_array}, t_args, truncation{vemx_opt_path_string})\n{tab}{tab}_add_order_{order}_vecc_contributions{opt_string}({W_array}, t_args, truncation{vecc_opt_path_string})\n'
    veci_prefactor = _generate_w_operator_prefactor((order,))
    return_string += f'{tab}# add the VECI contribution\n{tab}if truncation.{taylor_series_order_tag[order]}:\n{tab}{tab}{W_array} += {veci_prefactor} * {t_terms[order].string}\n{tab}if ansatz.VE_MIXED:\n{vemx_operations}{tab}elif ansatz.VECC:\n{vecc_operations}'
    return_string += '\n'
    return_string += f'{tab}# Symmetrize the W operator\n{tab}symmetric_w = symmetrize_tensor(N, {W_array}, order={order})\n{tab}return symmetric_w\n'
    return return_string


def _write_master_w_compute_function(max_order, opt_einsum=False):
    def call(order):
        # an order that is not generated has no function to call
        if order > max_order:
            return f'w_{order} = None'
        return function_string.format(order, order - 1)
    if not opt_einsum:
        function_string = 'w_{0} = _calculate_order_{0}_w_operator(A, N, t_args, ansatz, truncation)'
        string = f'\n            def compute_w_operators(A, N, t_args, ansatz, truncation):\n                """Compute a number of W operators depending on the level of truncation."""\n\n                if not truncation.singles:\n                    raise Exception(\n                        "It appears that `singles` is not true, this cannot be.\\n"\n                        "Something went terribly wrong!!!\\n\\n"\n                        f"{{truncation}}\\n"\n                    )\n\n                {call(1)}\n                {call(2)}\n                {call(3)}\n\n                if not truncation.doubles:\n                    return w_1, w_2, w_3, None, None, None\n                else:\n                    {call(4)}\n\n                if not truncation.triples:\n                    return w_1, w_2, w_3, w_4, None, None\n                else:\n                    {call(5)}\n\n                if not truncation.quadruples:\n                    return w_1, w_2, w_3, w_4, w_5, None\n                else:\n                    {call(6)}\n\n                if not truncation.quintuples:\n                    return w_1, w_2, w_3, w_4, w_5, w_6\n                else:\n                    raise NotImplementedError(\n                        "Attempting to calculate W^7 operator (quintuples)\\n"\n                        "This is currently not implemented!!\\n"\n                    )\n        '
    else:
        function_string = 'w_{0} = _calculate_order_{0}_w_operator_optimized(A, N, t_args, ansatz, truncation, vemx_optimized_paths[{1}], vecc_optimized_paths[{1}])'
        string = f'\n            def compute_w_operators_optimized(A, N, t_args, ansatz, truncation, vemx_optimized_paths, vecc_optimized_paths):\n                """Compute a number of W operators depending on the level of truncation."""\n\n                if not truncation.singles:\n                    raise Exception(\n                        "It appears that `singles` is not true, this cannot be.\\n"\n                        "Something went terribly wrong!!!\\n\\n"\n                        f"{{truncation}}\\n"\n                    )\n\n                {call(1)}\n                {call(2)}\n                {call(3)}\n\n                if not truncation.doubles:\n                    return w_1, w_2, w_3, None, None, None\n                else:\n                    {call(4)}\n\n                if not truncation.triples:\n                    return w_1, w_2, w_3, w_4, None, None\n                else:\n                    {call(5)}\n\n                if not truncation.quadruples:\n                    return w_1, w_2, w_3, w_4, w_5, None\n                else:\n                    {call(6)}\n\n                if not truncation.quintuples:\n                    return w_1, w_2, w_3, w_4, w_5, w_6\n                else:\n                    raise NotImplementedError(\n                        "Attempting to calculate W^7 operator (quintuples)\\n"\n                        "This is currently not implemented!!\\n"\n                    )\n        '
    lines = string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 3:] for line in lines])
    return trimmed_string


def _write_master_w_compute_function_all_orders(max_order, opt_einsum=False):
    """recorded finding: functions of orders above max_order are called although they are not generated"""
    if not opt_einsum:
        function_string = 'w_{0} = _calculate_order_{0}_w_operator(A, N, t_args, ansatz, truncation)'
        string = f'\n            def compute_w_operators(A, N, t_args, ansatz, truncation):\n                """Compute a number of W operators depending on the level of truncation."""\n\n                if not truncation.singles:\n                    raise Exception(\n                        "It appears that `singles` is not true, this cannot be.\\n"\n                        "Something went terribly wrong!!!\\n\\n"\n                        f"{{truncation}}\\n"\n                    )\n\n                {function_string.format(1)}\n                {function_string.format(2)}\n                {function_string.format(3)}\n\n                if not truncation.doubles:\n                    return w_1, w_2, w_3, None, None, None\n                else:\n                    {function_string.format(4)}\n\n                if not truncation.triples:\n                    return w_1, w_2, w_3, w_4, None, None\n                else:\n                    {function_string.format(5)}\n\n                if not truncation.quadruples:\n                    return w_1, w_2, w_3, w_4, w_5, None\n                else:\n                    {function_string.format(6)}\n\n                if not truncation.quintuples:\n                    return w_1, w_2, w_3, w_4, w_5, w_6\n                else:\n                    raise NotImplementedError(\n                        "Attempting to calculate W^7 operator (quintuples)\\n"\n                        "This is currently not implemented!!\\n"\n                    )\n        '
    else:
        function_string = 'w_{0} = _calculate_order_{0}_w_operator_optimized(A, N, t_args, ansatz, truncation, vemx_optimized_paths[{1}], vecc_optimized_paths[{1}])'
        string = f'\n            def compute_w_operators_optimized(A, N, t_args, ansatz, truncation, vemx_optimized_paths, vecc_optimized_paths):\n                """Compute a number of W operators depending on the level of truncation."""\n\n                if not truncation.singles:\n                    raise Exception(\n                        "It appears that `singles` is not true, this cannot be.\\n"\n                        "Something went terribly wrong!!!\\n\\n"\n                        f"{{truncation}}\\n"\n                    )\n\n                {function_string.format(1, 0)}\n                {function_string.format(2, 1)}\n                {function_string.format(3, 2)}\n\n                if not truncation.doubles:\n                    return w_1, w_2, w_3, None, None, None\n                else:\n                    {function_string.format(4, 3)}\n\n                if not truncation.triples:\n                    return w_1, w_2, w_3, w_4, None, None\n                else:\n                    {function_string.format(5, 4)}\n\n                if not truncation.quadruples:\n                    return w_1, w_2, w_3, w_4, w_5, None\n                else:\n                    {function_string.format(6, 5)}\n\n                if not truncation.quintuples:\n                    return w_1, w_2, w_3, w_4, w_5, w_6\n                else:\n                    raise NotImplementedError(\n                        "Attempting to calculate W^7 operator (quintuples)\\n"\n                        "This is currently not implemented!!\\n"\n                    )\n        '
    lines = string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 3:] for line in lines])
    return trimmed_string


def _t_term_shape_string(order):
    return f'({', '.join(['A', 'A'] + ['N'] * order)})'


def _contracted_expressions(partition_list, order):
    exp_list = []
    for partition in partition_list:
        if len(partition) == 1:
            continue
        combinations = unique_permutations(partition)
        surf_index = _generate_surface_index(partition)
        mode_index = _generate_mode_index(partition, order)
        temp_list = []
        for i, tupl in enumerate(combinations):
            in_dims = ', '.join([surf_index[a] + mode_index[i][a] for a in range(len(surf_index))])
            out_dims = f'ab{tag_str[0:order]}'
            pterms = ', '.join([_t_term_shape_string(n) for n in tupl])
            temp_list.append(f"oe.contract_expression('{in_dims}->{out_dims}', {pterms}),\n")
        exp_list.append([max(partition)] + temp_list)
    return exp_list


def _write_optimized_vemx_paths_function(max_order):
    if max_order > 6:
        raise NotImplementedError('optimized paths only implemented up to 6th order')
    string = f'\ndef compute_optimized_vemx_paths(A, N, truncation):\n{tab}"""Calculate optimized paths for the VECI/CC (mixed) einsum calls up to `highest_order`."""\n\n{tab}order_2_list, order_3_list = [], []\n{tab}order_4_list, order_5_list, order_6_list = [], [], []\n\n'
    optimized_vemx_orders = list(range(2, max_order + 1))
    for order in optimized_vemx_orders:
        partitions = generate_linked_disconnected_partitions_of_n(order)
        optimized_path_list = _contracted_expressions(partitions, order)
        for optimized_paths in optimized_path_list:
            current_max_order = optimized_paths[0]
            del optimized_paths[0]
            contribution_name = lambda n: taylor_series_order_tag[n].lower()
            optimized_paths = ''.join([s.replace('oe.contract', f'{tab}{tab}{tab}oe.contract') for s in optimized_paths])
            string += f'{tab}if truncation.{contribution_name(current_max_order)}:\n{tab}{tab}order_{order}_list.extend([\n{optimized_paths}{tab}{tab}])\n\n'
    return_list = ', '.join(['[]'] + [f'order_{order}_list' for order in optimized_vemx_orders])
    string += f'\n{tab}return [{return_list}]\n'
    return string


def _write_optimized_vecc_paths_function(max_order):
    if max_order > 6:
        raise NotImplementedError('optimized paths only implemented up to 6th order')
    string = f'\ndef compute_optimized_vecc_paths(A, N, truncation):\n{tab}"""Calculate optimized paths for the VECC einsum calls up to `highest_order`."""\n\n{tab}order_4_list, order_5_list, order_6_list = [], [], []\n\n'
    optimized_vecc_orders = list(range(4, max_order + 1))
    string += f"{tab}if not truncation.doubles:\n{tab}{tab}log.warning('Did not calculate optimized VECC paths of the dt amplitudes')\n{tab}{tab}return {[[]] * 6}\n\n"
    for order in optimized_vecc_orders:
        partitions = generate_un_linked_disconnected_partitions_of_n(order)
        optimized_path_list = _contracted_expressions(partitions, order)
        for optimized_paths in optimized_path_list:
            current_max_order = optimized_paths[0]
            del optimized_paths[0]
            contribution_name = lambda n: taylor_series_order_tag[n].lower()
            optimized_paths = ''.join([s.replace('oe.contract', f'{tab}{tab}{tab}oe.contract') for s in optimized_paths])
            string += f'{tab}if truncation.{contribution_name(current_max_order)}:\n{tab}{tab}order_{order}_list.extend([\n{optimized_paths}{tab}{tab}])\n\n'
    return_list = ', '.join(['[]', '[]', '[]'] + [f'order_{order}_list' for order in optimized_vecc_orders])
    string += f'\n{tab}return [{return_list}]\n'
    return string


def generate_w_operators_string(max_order, s1=75, s2=28):
    spacing_line = '# ' + '-' * s1 + ' #\n'

    def named_line(name, width):
        return '# ' + '-' * width + f' {name} ' + '-' * width + ' #\n'
    string = spacing_line + named_line('DEFAULT FUNCTIONS', s2) + spacing_line
    string += '\n' + named_line('VECI/CC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vemx_contributions(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('VECC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vecc_contributions(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('W OPERATOR FUNCTIONS', s2)
    string += ''.join([_write_w_function_strings(order=order) for order in range(1, max_order + 1)])
    string += _write_master_w_compute_function(max_order) + '\n'
    string += spacing_line + named_line('OPTIMIZED FUNCTIONS', s2 - 1) + spacing_line
    string += '\n' + named_line('VECI/CC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vemx_contributions(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('VECC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vecc_contributions(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('W OPERATOR FUNCTIONS', s2)
    string += ''.join([_write_w_function_strings(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += _write_master_w_compute_function(max_order, opt_einsum=True) + '\n'
    string += '\n' + named_line('OPTIMIZED PATHS FUNCTION', s2)
    string += _write_optimized_vemx_paths_function(max_order) + '\n'
    string += _write_optimized_vecc_paths_function(max_order) + '\n'
    return string


def generate_w_operators_string_all_orders(max_order, s1=75, s2=28):
    """recorded finding: with the functions of every order called"""
    spacing_line = '# ' + '-' * s1 + ' #\n'

    def named_line(name, width):
        return '# ' + '-' * width + f' {name} ' + '-' * width + ' #\n'
    string = spacing_line + named_line('DEFAULT FUNCTIONS', s2) + spacing_line
    string += '\n' + named_line('VECI/CC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vemx_contributions(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('VECC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vecc_contributions(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('W OPERATOR FUNCTIONS', s2)
    string += ''.join([_write_w_function_strings(order=order) for order in range(1, max_order + 1)])
    string += _write_master_w_compute_function_all_orders(max_order) + '\n'
    string += spacing_line + named_line('OPTIMIZED FUNCTIONS', s2 - 1) + spacing_line
    string += '\n' + named_line('VECI/CC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vemx_contributions(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('VECC CONTRIBUTIONS', s2)
    string += ''.join([_generate_vecc_contributions(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('W OPERATOR FUNCTIONS', s2)
    string += ''.join([_write_w_function_strings(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += _write_master_w_compute_function_all_orders(max_order, opt_einsum=True) + '\n'
    string += '\n' + named_line('OPTIMIZED PATHS FUNCTION', s2)
    string += _write_optimized_vemx_paths_function(max_order) + '\n'
    string += _write_optimized_vecc_paths_function(max_order) + '\n'
    return string


def generate_w_operator_equations_file(max_w_order, path='./w_operator_equations.py'):
    file_data = code_import_statements_module.w_equations_import_statements
    file_data += generate_w_operators_string(max_order=max_w_order)
    with open(path, 'w') as fp:
        fp.write(file_data)
    return



def generate_w_operator_equations_file_all_orders(max_w_order, path='./w_operator_equations.py'):
    """recorded finding: with the functions of every order called"""
    file_data = code_import_statements_module.w_equations_import_statements
    file_data += generate_w_operators_string_all_orders(max_order=max_w_order)
    with open(path, 'w') as fp:
        fp.write(file_data)
    return
