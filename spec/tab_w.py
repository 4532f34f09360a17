"""W operator and amplitude equations: domains and properties of the functions with reference definitions."""
TABLE = [
    ('code_w_equations._next_list', 'P18', {'lst': 'list:1:6:int:1:3', 'n': 'int:1:6'}, {}),
    ('code_w_equations._generate_t_lists', 'P18', {'n': 'int:1:6'}, {}),
    ('code_w_equations._generate_t_terms_dictionary', 'P18', {'n': 'int:1:6'}, {}),
    ('code_w_equations._permutation_function', 'P18 P09', {'l_t': 'perm.l_t', 'l_fix': 'perm.l_fix', 'l_perm': 'perm.l_perm', 'n': 'perm.n'}, {}),
    ('code_w_equations._write_permutations', 'P18 P11', {'perm_t': 'list:3:4:list:0:3:str', 'perm_char_list': 'list:0:3:list:0:3:list:0:3:str', 'W_array': 'str', 'prefactor': 'str'}, {}),
    ('code_w_equations._generate_w_operator_prefactor', 'P13 P18', {'tupl': 'part'}, {}),
    ('code_w_equations._generate_surface_index', 'P09 P11 P18 P22', {'partition': 'part_any'}, {}),
    ('code_w_equations._generate_mode_index', 'P09 P11 P18 P22', {'partition': 'part_order.partition', 'order': 'part_order.order'}, {}),
    ('code_w_equations._w_einsum_list', 'P09 P11 P18', {'partition': 'part_order.partition', 'order': 'part_order.order'}, {}),
    ('code_w_equations._optimized_w_einsum_list', 'P11 P14 P18', {'partition': 'part_order.partition', 'order': 'part_order.order'}, {}),
    ('code_w_equations._optimized_w_einsum_list', 'P11 P14 P18', {'partition': 'part_order.partition', 'order': 'part_order.order', 'iterator_name': 'str'}, {}),
    ('code_w_equations._construct_vemx_contributions_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_w_equations._generate_vemx_contributions', 'P11 P12 P13 P14 P18', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_w_equations._construct_vecc_contributions_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_w_equations._generate_vecc_contributions', 'P11 P12 P13 P14 P18', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_w_equations._construct_w_function_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_w_equations._write_w_function_strings', 'P11 P12 P13 P14 P18 P22', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_w_equations._write_master_w_compute_function', 'P11 P12 P14 P18', {'max_order': 'int:1:6', 'opt_einsum': 'bool'}, {'known': '_write_master_w_compute_function_all_orders'}),
    ('code_w_equations._t_term_shape_string', 'P11 P14', {'order': 'int:0:6'}, {}),
    ('code_w_equations._contracted_expressions', 'P09 P11 P14', {'partition_list': 'parts_order.partitions', 'order': 'parts_order.order'}, {}),
    ('code_w_equations._write_optimized_vemx_paths_function', 'P11 P12 P14', {'max_order': 'int:1:6'}, {}),
    ('code_w_equations._write_optimized_vecc_paths_function', 'P11 P12 P14', {'max_order': 'int:1:6'}, {}),
    ('code_w_equations.generate_w_operators_string', 'P11 P12 P14 P18', {'max_order': 'int:1:6'}, {'known': 'generate_w_operators_string_all_orders'}),
    ('code_w_equations.generate_w_operator_equations_file', 'P05 P11 P12 P18 P22', {'max_w_order': 'int:1:6', 'path': 'str'}, {'known': 'generate_w_operator_equations_file_all_orders'}),
    ('code_w_equations.generate_w_operator_equations_file', 'P04 P05', {'max_w_order': 'int:1:4'}, {'known': 'generate_w_operator_equations_file_all_orders'}),

    ('code_dt_equations._generate_disconnected_einsum_operands_list', 'P11 P18', {'dt_index': 'int:0:3', 'tupl': 'part'}, {}),
    ('code_dt_equations._generate_disconnected_einsum_function_call_list', 'P09 P11 P18', {'partition': 'part_order.partition', 'order': 'part_order.order'}, {}),
    ('code_dt_equations._generate_optimized_disconnected_einsum_function_call_list', 'P11 P14 P18', {'partition': 'part_order.partition', 'order': 'part_order.order'}, {}),
    ('code_dt_equations._construct_linked_disconnected_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_dt_equations._write_linked_disconnected_strings', 'P11 P12 P13 P14 P18', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_dt_equations._construct_un_linked_disconnected_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_dt_equations._write_un_linked_disconnected_strings', 'P11 P12 P13 P14 P18', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_dt_equations._construct_dt_amplitude_definition', 'P11 P14 P18', {'return_string': 'str', 'order': 'int:1:6', 'opt_einsum': 'bool', 'iterator_name': 'str'}, {}),
    ('code_dt_equations._write_dt_amplitude_strings', 'P11 P12 P13 P14 P18 P22', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_dt_equations._write_master_dt_amplitude_function', 'P11 P12 P14 P18', {'order': 'int:1:6', 'opt_einsum': 'bool'}, {}),
    ('code_dt_equations._t_term_shape_string', 'P11 P14', {'order': 'int:0:6'}, {}),
    ('code_dt_equations._contracted_expressions', 'P09 P11 P14', {'partition_list': 'parts_order.partitions', 'order': 'parts_order.order'}, {}),
    ('code_dt_equations._write_optimized_master_paths_function', 'P11 P14', {}, {}),
    ('code_dt_equations._write_optimized_epsilon_paths_function', 'P11 P12 P14', {'max_order': 'int:1:6'}, {}),
    ('code_dt_equations._write_optimized_linked_paths_function', 'P11 P12 P14', {'max_order': 'int:1:6'}, {}),
    ('code_dt_equations._write_optimized_unlinked_paths_function', 'P11 P12 P14', {'max_order': 'int:1:6'}, {}),
    ('code_dt_equations.generate_dt_amplitude_string', 'P11 P12 P14 P18', {'max_order': 'int:1:6'}, {}),
    ('code_dt_equations.generate_dt_amplitude_equations_file', 'P05 P11 P12 P18 P22', {'max_w_order': 'int:1:6', 'path': 'str'}, {}),
    ('code_dt_equations.generate_dt_amplitude_equations_file', 'P04 P05', {'max_w_order': 'int:1:4'}, {}),

    ('latex_w_equations.remove_list_item', 'P13 P18', {'i': 'int:1:3', 'lst': 'list:0:5:int:1:3'}, {}),
    ('latex_w_equations.count_items', 'P13 P18', {'lis': 'list:0:5:int:1:3'}, {}),
    ('latex_w_equations.generate_w_prefactor', 'P13 P18', {'w_dict': 'counts'}, {}),
    ('latex_w_equations.generate_labels_on_w', 'P12 P18', {'order': 'int:0:5', 'is_excited': 'bool'}, {}),
    ('latex_w_equations.ground_state_w_equations_latex', 'P05 P10 P12 P13 P18', {'max_w_order': 'int:0:6', 'path': 'str'}, {}),
    ('latex_w_equations.ground_state_w_equations_latex', 'P04 P05', {'max_w_order': 'int:0:4'}, {}),
    ('latex_w_equations.generate_t_terms_group', 'P06 P08 P12 P18', {'w_ntuple': 'w_latex'}, {}),
    ('latex_w_equations.excited_state_w_equations_latex', 'P01 P05 P10 P12 P13 P18', {'max_w_order': 'int:1:3', 'path': 'str'}, {'known': 'excited_state_w_equations_latex_on_old_lines'}),
    ('latex_w_equations.excited_state_w_equations_latex', 'P04 P05', {'max_w_order': 'int:1:3'}, {'known': 'excited_state_w_equations_latex_on_old_lines'}),
]
