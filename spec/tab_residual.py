"""Residual equations: domains and properties of the functions with a reference definition in ref_code_residual_equations."""
TABLE = [
    ('code_residual_equations.generate_hamiltonian_operator', 'P17 P19', {'maximum_h_rank': 'int:0:8'}, {}),
    ('code_residual_equations.extract_numerator_denominator_from_string', 'P13 P19', {'s': 'prefactor'}, {}),
    ('code_residual_equations.simplified_prefactor', 'P13 P19', {'pre': 'raw_prefactor'}, {'raises': False}),
    ('code_residual_equations.construct_prefactor', 'P13 P19', {'h': 'res_h', 'p': 'int:0:8', 'simplify_flag': 'bool'}, {'raises': False}),
    ('code_residual_equations.construct_upper_w_label', 'P19 P09', {'h': 'res_h', 'p': 'int:0:8'}, {}),
    ('code_residual_equations.construct_upper_h_label', 'P19 P09', {'h': 'res_h', 'p': 'int:0:8'}, {}),
    ('code_residual_equations.construct_lower_h_label', 'P19 P09', {'h': 'res_h', 'p': 'int:0:8'}, {}),
    ('code_residual_equations.generate_p_term', 'P13 P19', {'str_fac': 'prefactor'}, {}),
    ('code_residual_equations.generate_h_term', 'P19', {'str_h': 'h_label'}, {}),
    ('code_residual_equations.generate_w_term', 'P19', {'str_w': 'w_label'}, {}),
    ('code_residual_equations.generate_residual_string_list', 'P19 P12 P13 P09', {'hamiltonian': 'list:0:5:res_h', 'order': 'int:0:8'}, {}),
    ('code_residual_equations.generate_residual_data', 'P19 P12', {'H': 'list:0:4:res_h', 'max_order': 'int:0:6'}, {}),
    ('code_residual_equations._generate_einsum_h_indices', 'P11 P09 P19', {'term': 'res_term'}, {}),
    ('code_residual_equations._generate_einsum_w_indices', 'P11 P09 P19', {'term': 'res_term'}, {}),
    ('code_residual_equations._generate_einsum_ouput_indices', 'P11 P09 P19', {'term': 'res_term'}, {}),
    ('code_residual_equations._residual_terms_einsum', 'P11 P19 P13', {'term': 'res_term', 'suppress_1_prefactor': 'bool'}, {}),
    ('code_residual_equations._residual_terms_einsum', 'P11 P19 P13', {'term': 'res_term'}, {}),
    ('code_residual_equations._same_w_order_term_list', 'P12 P19', {'current_term': 'res_term', 'term_list': 'list:0:5:res_term'}, {}),
    ('code_residual_equations.write_residual_function_string', 'P11 P12 P19 P22', {'residual_terms_list': 'res_terms', 'order': 'int:0:6'}, {}),
    ('code_residual_equations.generate_python_code_for_residual_functions', 'P11 P12 P19', {'term_lists': 'res_term_lists', 'max_order': 'int:0:4'}, {}),
    ('code_residual_equations.generate_residual_equations_file', 'P05 P19 P11 P12 P22', {'max_residual_order': 'int:0:6', 'maximum_h_rank': 'int:0:2', 'path': 'str'}, {}),
    ('code_residual_equations.generate_residual_equations_file', 'P05 P04', {'max_residual_order': 'int:0:4', 'maximum_h_rank': 'int:0:2'}, {}),
]
