"""Reference definitions for code_dt_equations (see DESIGN.md)."""
import code_import_statements_module
from namedtuple_defines import t_term_namedtuple
from code_residual_equations import w_dict
from code_w_equations import _generate_w_operator_prefactor, _generate_surface_index, _generate_mode_index, taylor_series_order_tag, tag_str, num_tag, t_terms
from helper_funcs import generate_un_linked_disconnected_partitions_of_n, generate_linked_disconnected_partitions_of_n, unique_permutations
from common_imports import tab, tab_length
dt_terms = [None, t_term_namedtuple('dt_i', 1, '(A, A, N)'), t_term_namedtuple('dt_ij', 2, '(A, A, N, N)'), t_term_namedtuple('dt_ijk', 3, '(A, A, N, N, N)'), t_term_namedtuple('dt_ijkl', 4, '(A, A, N, N, N, N)'), t_term_namedtuple('dt_ijklm', 5, '(A, A, N, N, N, N, N)'), t_term_namedtuple('dt_ijklmn', 6, '(A, A, N, N, N, N, N, N)'), t_term_namedtuple('dt_ijklmno', 7, '(A, A, N, N, N, N, N, N, N)'), t_term_namedtuple('dt_ijklmnop', 8, '(A, A, N, N, N, N, N, N, N, N)')]


def _generate_disconnected_einsum_operands_list(dt_index, tupl):
    term_list = []
    for t_index, num in enumerate(tupl):
        if dt_index == t_index:
            term_list.append(dt_terms[num].string)
        else:
            term_list.append(t_terms[num].string)
    einsum_term_list = ', '.join(term_list)
    return einsum_term_list


def _generate_disconnected_einsum_function_call_list(partition, order):
    combinations = unique_permutations(partition)
    surf_index = _generate_surface_index(partition)
    mode_index = _generate_mode_index(partition, order)
    return_list = []
    for i, tupl in enumerate(combinations):
        in_dims = ', '.join([surf_index[a] + mode_index[i][a] for a in range(len(surf_index))])
        out_dims = f'ab{tag_str[0:order]}'
        for dt_index in range(len(partition)):
            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)
            return_list.append(f"np.einsum('{in_dims}->{out_dims}', {operands})")
    return return_list


def _generate_optimized_disconnected_einsum_function_call_list(partition, order, iterator_name='optimized_einsum'):
    combinations = unique_permutations(partition)
    return_list = []
    for i, tupl in enumerate(combinations):
        for dt_index in range(len(partition)):
            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)
            return_list.append(f'next({iterator_name})({operands})')
    return return_list


def _construct_linked_disconnected_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    t_arg_string = ', '.join([t_terms[n].string for n in range(1, order)] + ['*unusedargs'])
    dt_arg_string = ', '.join([dt_terms[n].string for n in range(1, order)] + ['*unusedargs'])
    if not opt_einsum:
        return_string += f'''\ndef _order_{order}_linked_disconnected_terms(A, N, trunc, t_args, dt_args):\n{tab}"""Calculate all uniquely linked disconnected terms generated from the wave operator ansatz.\n{tab}This means for order 5 we include terms such as (4, 1), (3, 1, 1), (2, 1, 1, 1), (1, 1, 1, 1, 1)\n{tab}But not terms (5), (3, 2), (2, 2, 1)\n{tab}"""\n{tab}# unpack the `t_args` and 'dt_args'\n{tab}{t_arg_string} = t_args\n{tab}{dt_arg_string} = dt_args\n'''
    else:
        return_string += f'''\ndef _order_{order}_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_linked_path_list):\n{tab}"""Calculate all uniquely linked disconnected terms generated from the wave operator ansatz.\n{tab}This means for order 5 we include terms such as (4, 1), (3, 1, 1), (2, 1, 1, 1)\n{tab}But not terms (5), (3, 2), (2, 2, 1), (1, 1, 1, 1, 1)\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `t_args` and 'dt_args'\n{tab}{t_arg_string} = t_args\n{tab}{dt_arg_string} = dt_args\n'''
        return_string += f'{tab}# make an iterable out of the `opt_linked_path_list`\n{tab}{iterator_name} = iter(opt_linked_path_list)\n'
    return return_string


def _write_linked_disconnected_strings(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_linked_disconnected_definition(return_string, order, opt_einsum)
    if order < 2:
        lst = return_string.split('"""')
        exception = f'\n{tab}raise Exception(\n{tab}{tab}"the first possible purely VECI/CC term is (1, 1) or (dt_i * t_i)"\n{tab}{tab}"which requires a residual of at least 2nd order"\n{tab})\n'
        return '"""'.join([lst[0], 'Exists for error checking.', exception])
    array = 'linked_disconnected_terms'
    return_string += f'{tab}# Creating the {num_tag[order]} order return array\n{tab}{array} = np.zeros(({', '.join(['A', 'A'] + ['N'] * order)}), dtype=complex)\n'
    for partition in generate_linked_disconnected_partitions_of_n(order):
        return_string += f'{tab}# the {partition} term\n'
        prefactor = _generate_w_operator_prefactor(partition)
        if opt_einsum:
            einsum_list = _generate_optimized_disconnected_einsum_function_call_list(partition, order)
        else:
            einsum_list = _generate_disconnected_einsum_function_call_list(partition, order)
        sum_of_einsums = f' +\n{tab}{tab}'.join(einsum_list)
        return_string += f'{tab}{array} += {prefactor} * (\n{tab}{tab}{sum_of_einsums}\n{tab})\n'
    return_string += f'\n{tab}return {array}\n'
    return return_string


def _construct_un_linked_disconnected_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    t_arg_string = ', '.join([t_terms[n].string for n in range(1, order)] + ['*unusedargs'])
    dt_arg_string = ', '.join([dt_terms[n].string for n in range(1, order)] + ['*unusedargs'])
    if not opt_einsum:
        return_string += f'''\ndef _order_{order}_un_linked_disconnected_terms(A, N, trunc, t_args, dt_args):\n{tab}"""Calculate all uniquely un-linked disconnected terms generated from the wave operator ansatz.\n{tab}This means for order 5 we include terms such as (3, 2), (2, 2, 1)\n{tab}But not terms (5), (4, 1), (3, 1, 1), (2, 1, 1, 1), (1, 1, 1, 1, 1)\n{tab}"""\n{tab}# unpack the `t_args` and 'dt_args'\n{tab}{t_arg_string} = t_args\n{tab}{dt_arg_string} = dt_args\n'''
    else:
        return_string += f'''\ndef _order_{order}_un_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_unlinked_path_list):\n{tab}"""Calculate all uniquely un-linked disconnected terms generated from the wave operator ansatz.\n{tab}This means for order 5 we include terms such as (3, 2), (2, 2, 1)\n{tab}But not terms (5), (4, 1), (3, 1, 1), (2, 1, 1, 1), (1, 1, 1, 1, 1)\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `t_args` and 'dt_args'\n{tab}{t_arg_string} = t_args\n{tab}{dt_arg_string} = dt_args\n'''
        return_string += f'{tab}# make an iterable out of the `opt_unlinked_path_list`\n{tab}{iterator_name} = iter(opt_unlinked_path_list)\n'
    return return_string


def _write_un_linked_disconnected_strings(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_un_linked_disconnected_definition(return_string, order, opt_einsum)
    if order < 4:
        lst = return_string.split('"""')
        exception = f'\n{tab}raise Exception(\n{tab}{tab}"the first possible purely VECC term is (2, 2) or (dt_ij * t_ij)"\n{tab}{tab}"which requires a residual of at least 4th order"\n{tab})\n'
        return '"""'.join([lst[0], 'Exists for error checking.', exception])
    array = 'un_linked_disconnected_terms'
    return_string += f'{tab}# Creating the {num_tag[order]} order return array\n{tab}{array} = np.zeros(({', '.join(['A', 'A'] + ['N'] * order)}), dtype=complex)\n'
    for partition in generate_un_linked_disconnected_partitions_of_n(order):
        return_string += f'{tab}# the {partition} term\n'
        prefactor = _generate_w_operator_prefactor(partition)
        if opt_einsum:
            einsum_list = _generate_optimized_disconnected_einsum_function_call_list(partition, order)
        else:
            einsum_list = _generate_disconnected_einsum_function_call_list(partition, order)
        sum_of_einsums = f' +\n{tab}{tab}'.join(einsum_list)
        return_string += f'{tab}{array} += {prefactor} * (\n{tab}{tab}{sum_of_einsums}\n{tab})\n'
    return_string += f'\n{tab}return {array}\n'
    return return_string


def _construct_dt_amplitude_definition(return_string, order, opt_einsum=False, iterator_name='optimized_einsum'):
    w_arg_string = ', '.join([w_dict[n] for n in range(1, order + 1)] + ['*unusedargs'])
    if not opt_einsum:
        return_string += f'\ndef _calculate_order_{order}_dt_amplitude(A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args):\n{tab}"""Calculate the derivative of the {order} t-amplitude for use in the calculation of the residuals."""\n{tab}# unpack the `w_args`\n{tab}{w_arg_string} = w_args\n'
    else:
        return_string += f'\ndef _calculate_order_{order}_dt_amplitude_optimized(A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args, opt_epsilon, opt_linked_path_list, opt_unlinked_path_list):\n{tab}"""Calculate the derivative of the {order} t-amplitude for use in the calculation of the residuals.\n{tab}Uses optimized summation paths generate using `contract_expression` from the `opt_einsum` library.\n{tab}"""\n{tab}# unpack the `w_args`\n{tab}{w_arg_string} = w_args\n'
    return return_string


def _write_dt_amplitude_strings(order, opt_einsum=False):
    if order > 6:
        raise NotImplementedError('Can only handle up to 6th order due to `einsum_surface_tags` limit')
    return_string = ''
    return_string += _construct_dt_amplitude_definition(return_string, order, opt_einsum)
    mode_subscripts = f'{tag_str[0:order]}'
    return_string += f'{tab}# Calculate the {num_tag[order]} order residual\n{tab}residual = residual_equations.calculate_order_{order}_residual(A, N, trunc, h_args, w_args)\n'
    if not opt_einsum:
        prefactor = f'1/factorial({order})'
        epsilon_term = f"{prefactor} * np.einsum('ac{mode_subscripts},cb->ab{mode_subscripts}', w_{mode_subscripts}, epsilon)"
        if order < 2:
            vemx_operations = f'{tab}{tab}pass  # no linked disconnected terms for order < 2\n'
            vecc_operations = f'{tab}{tab}pass  # no un-linked disconnected terms for order < 4\n'
        else:
            vemx_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms(A, N, trunc, t_args, dt_args)\n'
            if order < 4:
                vecc_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms(A, N, trunc, t_args, dt_args)\n{tab}{tab}pass  # no un-linked disconnected terms for order < 4\n'
            else:
                vecc_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms(A, N, trunc, t_args, dt_args)\n{tab}{tab}residual -= _order_{order}_un_linked_disconnected_terms(A, N, trunc, t_args, dt_args)\n'
    else:
        prefactor = f'1/factorial({order})'
        epsilon_term = f'{prefactor} * opt_epsilon(w_{mode_subscripts}, epsilon)'
        if order < 2:
            vemx_operations = f'{tab}{tab}pass  # no linked disconnected terms for order < 2\n'
            vecc_operations = f'{tab}{tab}pass  # no un-linked disconnected terms for order < 4\n'
        else:
            vemx_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_linked_path_list)\n'
            if order < 4:
                vecc_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_linked_path_list)\n{tab}{tab}pass  # no un-linked disconnected terms for order < 4\n'
            else:
                vecc_operations = f'{tab}{tab}residual -= _order_{order}_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_linked_path_list)\n{tab}{tab}residual -= _order_{order}_un_linked_disconnected_terms_optimized(A, N, trunc, t_args, dt_args, opt_unlinked_path_list)\n'
    return_string += f'{tab}# subtract the epsilon term (which is R_0)\n{tab}residual -= {epsilon_term}\n\n{tab}# subtract the disconnected terms\n{tab}if ansatz.VECI:\n{tab}{tab}pass  # veci does not include any disconnected terms\n{tab}elif ansatz.VE_MIXED:\n{vemx_operations}{tab}elif ansatz.VECC:\n{vecc_operations}\n'
    return_string += f'{tab}# Symmetrize the residual operator\n{tab}dt_{mode_subscripts} = symmetrize_tensor(N, residual, order={order})\n{tab}return dt_{mode_subscripts}\n'
    return return_string


def _write_master_dt_amplitude_function(order, opt_einsum=False):
    t_term = t_terms[order].string
    dt_term = dt_terms[order].string
    name = taylor_series_order_tag[order]
    if not opt_einsum:
        string = f'\n            def solve_{name}_equations(A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args):\n                """Compute the change in the {t_term} term ({name})"""\n\n                if not trunc.{name}:\n                    raise Exception(\n                        "It appears that {name} is not true, this cannot be."\n                        "Something went terribly wrong!!!"\n                    )\n                {dt_term} = _calculate_order_{order}_dt_amplitude(A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args)\n                return {dt_term}\n        '
    else:
        string = f'''\n            def solve_{name}_equations_optimized(A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args, opt_path_list):\n                """Compute the change in the {t_term} term ({name})"""\n\n                if not trunc.{name}:\n                    raise Exception(\n                        "It appears that {name} is not true, this cannot be."\n                        "Something went terribly wrong!!!"\n                    )\n\n                # unpack the opt_einsum path's\n                opt_epsilon_path_list, opt_linked_path_list, opt_unlinked_path_list = opt_path_list\n\n                {dt_term} = _calculate_order_{order}_dt_amplitude_optimized(\n                    A, N, ansatz, trunc, epsilon, h_args, t_args, dt_args, w_args,\n                    opt_epsilon_path_list[{order - 1}], opt_linked_path_list[{order - 1}], opt_unlinked_path_list[{order - 1}]\n                )\n                return {dt_term}\n        '''
    lines = string.splitlines()
    trimmed_string = '\n'.join([line[tab_length * 3:] for line in lines])
    return trimmed_string


def _t_term_shape_string(order):
    return f'({', '.join(['A', 'A'] + ['N'] * order)})'


def _contracted_expressions(partition_list, order):
    exp_list = []
    for partition in partition_list:
        if len(partition) == 1:
            continue
        combinations = unique_permutations(partition)
        surf_index = _generate_surface_index(partition)
        mode_index = _generate_mode_index(partition, order)
        temp_list = []
        for i, tupl in enumerate(combinations):
            in_dims = ', '.join([surf_index[a] + mode_index[i][a] for a in range(len(surf_index))])
            out_dims = f'ab{tag_str[0:order]}'
            pterms = ', '.join([_t_term_shape_string(n) for n in tupl])
            for dt_index in range(len(partition)):
                temp_list.append(f"oe.contract_expression('{in_dims}->{out_dims}', {pterms}),\n")
        exp_list.append([max(partition)] + temp_list)
    return exp_list


def _write_optimized_master_paths_function():
    string = f'\ndef compute_optimized_paths(A, N, truncation):\n{tab}"""Calculate all optimized paths for the `opt_einsum` calls."""\n\n{tab}epsilon_opt_paths = compute_optimized_epsilon_paths(A, N, truncation)\n{tab}linked_opt_paths = compute_optimized_linked_paths(A, N, truncation)\n{tab}unlinked_opt_paths = compute_optimized_unlinked_paths(A, N, truncation)\n\n{tab}all_opt_paths = [epsilon_opt_paths, linked_opt_paths, unlinked_opt_paths]\n\n{tab}return all_opt_paths\n'
    return string


def _write_optimized_epsilon_paths_function(max_order):
    if max_order > 6:
        raise NotImplementedError('optimized paths only implemented up to 6th order')
    string = f'\ndef compute_optimized_epsilon_paths(A, N, truncation):\n{tab}"""Calculate optimized paths for the constant/epsilon einsum calls up to `highest_order`."""\n\n{tab}epsilon_path_list = []\n\n'
    for order in range(1, max_order + 1):
        in_dims = f'ac{tag_str[0:order]},cb'
        out_dims = f'ab{tag_str[0:order]}'
        pterms = ', '.join([_t_term_shape_string(order), _t_term_shape_string(0)])
        optimized_expression = f"oe.contract_expression('{in_dims}->{out_dims}', {pterms})"
        contribution_name = lambda n: taylor_series_order_tag[n].lower()
        string += f'{tab}if truncation.{contribution_name(order)}:\n{tab}{tab}epsilon_path_list.append({optimized_expression})\n\n'
    string += f'{tab}return epsilon_path_list\n'
    return string


def _write_optimized_linked_paths_function(max_order):
    if max_order > 6:
        raise NotImplementedError('optimized paths only implemented up to 6th order')
    string = f'\ndef compute_optimized_linked_paths(A, N, truncation):\n{tab}"""Calculate optimized paths for the linked-disconnected einsum calls up to `highest_order`."""\n\n{tab}order_1_list, order_2_list, order_3_list = [], [], []\n{tab}order_4_list, order_5_list, order_6_list = [], [], []\n\n'
    optimized_linked_orders = list(range(2, max_order + 1))
    for order in optimized_linked_orders:
        partitions = generate_linked_disconnected_partitions_of_n(order)
        optimized_path_list = _contracted_expressions(partitions, order)
        for optimized_paths in optimized_path_list:
            current_max_order = optimized_paths[0]
            del optimized_paths[0]
            contribution_name = lambda n: taylor_series_order_tag[n].lower()
            optimized_paths = ''.join([s.replace('oe.contract', f'{tab}{tab}{tab}oe.contract') for s in optimized_paths])
            string += f'{tab}if truncation.{contribution_name(current_max_order)}:\n{tab}{tab}order_{order}_list.extend([\n{optimized_paths}{tab}{tab}])\n\n'
    return_list = ', '.join(['order_1_list'] + [f'order_{order}_list' for order in optimized_linked_orders])
    string += f'{tab}return [{return_list}]\n'
    return string


def _write_optimized_unlinked_paths_function(max_order):
    if max_order > 6:
        raise NotImplementedError('optimized paths only implemented up to 6th order')
    string = f'\ndef compute_optimized_unlinked_paths(A, N, truncation):\n{tab}"""Calculate optimized paths for the unlinked-disconnected einsum calls up to `highest_order`."""\n\n{tab}order_1_list, order_2_list, order_3_list = [], [], []\n{tab}order_4_list, order_5_list, order_6_list = [], [], []\n\n'
    optimized_unlinked_orders = list(range(4, max_order + 1))
    string += f"{tab}if not truncation.doubles:\n{tab}{tab}log.warning('Did not calculate optimized unlinked paths of the dt amplitudes')\n{tab}{tab}return {[[]] * 6}\n\n"
    for order in optimized_unlinked_orders:
        partitions = generate_un_linked_disconnected_partitions_of_n(order)
        optimized_path_list = _contracted_expressions(partitions, order)
        for optimized_paths in optimized_path_list:
            current_max_order = optimized_paths[0]
            del optimized_paths[0]
            contribution_name = lambda n: taylor_series_order_tag[n].lower()
            optimized_paths = ''.join([s.replace('oe.contract', f'{tab}{tab}{tab}oe.contract') for s in optimized_paths])
            string += f'{tab}if truncation.{contribution_name(current_max_order)}:\n{tab}{tab}order_{order}_list.extend([\n{optimized_paths}{tab}{tab}])\n\n'
    return_list = ', '.join(['order_1_list', 'order_2_list', 'order_3_list'] + [f'order_{order}_list' for order in optimized_unlinked_orders])
    string += f'{tab}return [{return_list}]\n'
    return string


def generate_dt_amplitude_string(max_order, s1=75, s2=28):
    spacing_line = '# ' + '-' * s1 + ' #\n'

    def named_line(name, width):
        return '# ' + '-' * width + f' {name} ' + '-' * width + ' #\n'
    string = spacing_line + named_line('DEFAULT FUNCTIONS', s2) + spacing_line
    string += '\n' + named_line('DISCONNECTED TERMS', s2)
    string += ''.join([_write_linked_disconnected_strings(order=order) for order in range(1, max_order + 1)])
    string += ''.join([_write_un_linked_disconnected_strings(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('dt AMPLITUDES', s2)
    string += ''.join([_write_dt_amplitude_strings(order=order) for order in range(1, max_order + 1)])
    string += '\n' + named_line('WRAPPER FUNCTIONS', s2)
    string += ''.join([_write_master_dt_amplitude_function(order) for order in range(1, max_order + 1)])
    string += '\n'
    string += spacing_line + named_line('OPTIMIZED FUNCTIONS', s2 - 1) + spacing_line
    string += '\n' + named_line('DISCONNECTED TERMS', s2)
    string += ''.join([_write_linked_disconnected_strings(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += ''.join([_write_un_linked_disconnected_strings(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('dt AMPLITUDES', s2)
    string += ''.join([_write_dt_amplitude_strings(order=order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('WRAPPER FUNCTIONS', s2)
    string += ''.join([_write_master_dt_amplitude_function(order, opt_einsum=True) for order in range(1, max_order + 1)])
    string += '\n' + named_line('OPTIMIZED PATHS FUNCTION', s2)
    string += _write_optimized_master_paths_function() + '\n'
    string += _write_optimized_epsilon_paths_function(max_order) + '\n'
    string += _write_optimized_linked_paths_function(max_order) + '\n'
    string += _write_optimized_unlinked_paths_function(max_order) + '\n'
    return string


def generate_dt_amplitude_equations_file(max_w_order, path='./dt_amplitude_equations.py'):
    file_data = code_import_statements_module.dt_equations_import_statements
    file_data += generate_dt_amplitude_string(max_order=max_w_order)
    with open(path, 'w') as fp:
        fp.write(file_data)
    return
