"""Full cc python code: domains and properties of the functions with reference definitions in ref_code_full_cc."""
TABLE = [
    ('code_full_cc._rank_of_t_term_namedtuple', 'P12 P11', {'t': 'ct'}, {}),
    ('code_full_cc._full_cc_einsum_electronic_components', 'P09 P11', {'t_list': 'fcc.ts'}, {}),
    ('code_full_cc._build_h_term_python_labels', 'P09 P11', {'h': 'fcc.h'}, {}),
    ('code_full_cc._build_h_term_python_labels', 'P09 P11', {'h': 'fcc.h', 'condense_offset': 'int:0:3'}, {}),
    ('code_full_cc._build_t_term_python_labels', 'P09 P11', {'term': 'ct', 'offset_dict': {'summation_upper': 'int:0:3', 'summation_lower': 'int:0:3', 'unlinked': 'int:0:3'}}, {}),
    ('code_full_cc._build_t_term_python_group', 'P09 P11', {'t_list': 'fcc.ts', 'h': 'fcc.h'}, {}),
    ('code_full_cc._full_cc_einsum_vibrational_components', 'P09 P11', {'h': 'fcc.h', 't_list': 'fcc.ts'}, {}),
    ('code_full_cc._full_cc_einsum_subscript_generator', 'P09 P11', {'h': 'fcc.h', 't_list': 'fcc.ts'}, {}),
    ('code_full_cc._simplify_full_cc_python_prefactor', 'P13', {'numerator_list': 'pfacs', 'denominator_list': 'pfacs'}, {}),
    ('code_full_cc._build_full_cc_python_prefactor', 'P13', {'h': 'fcc.h', 't_list': 'fcc.ts'}, {}),
    ('code_full_cc._build_full_cc_python_prefactor', 'P13', {'h': 'fcc.h', 't_list': 'fcc.ts', 'simplify_flag': 'bool'}, {}),
    ('code_full_cc._multiple_perms_logic', 'P12 P13', {'term': 'fcc.term'}, {}),
    ('code_full_cc._write_cc_einsum_python_from_list', 'P09 P11 P12 P13 P14', {'truncations': {'@maximum_hamiltonian_rank': 'fccw.H', '@maximum_coupled_cluster_rank': 'fccw.CC'},
        't_term_list': 'fccw.terms', 'opt_einsum': 'bool'}, {}),
    ('code_full_cc._write_cc_einsum_python_from_list', 'P11 P14', {'truncations': {'@maximum_hamiltonian_rank': 'fccw.H', '@maximum_coupled_cluster_rank': 'fccw.CC'},
        't_term_list': 'fccw.terms', 'trunc_obj_name': 'str'}, {}),
    ('code_full_cc._generate_full_cc_einsums', 'P08 P11 P12 P14', {'omega_term': 'omega', 'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:2', '@omega_max_order': 'int:1:2'}, 'only_ground_state': 'bool', 'opt_einsum': 'bool'}, {}),
    ('code_full_cc._generate_full_cc_compute_functions', 'P08 P11 P12 P14 P22', {'omega_term': 'omega', 'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:2', '@omega_max_order': 'int:1:2'}, 'only_ground_state': 'bool', 'opt_einsum': 'bool'}, {'opaque': {'code_full_cc._generate_full_cc_einsums': 'list:3:3:list:0:3:str'}}),
    ('code_full_cc._wrap_full_cc_generation', 'P11 P12 P14', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:1', '@omega_max_order': 'int:1:2'}, 'master_omega': 'Omega', 's2': 'int:20:30', 'named_line': ('function', 'helper_funcs.named_line'), 'spaced_named_line': ('function', 'helper_funcs.named_line'), 'only_ground_state': 'bool', 'opt_einsum': 'bool'}, {'opaque': {'code_full_cc._generate_full_cc_compute_functions': 'str'}}),
    ('code_full_cc._write_master_full_cc_compute_function', 'P11 P14 P22', {'omega_term': 'omega', 'opt_einsum': 'bool'}, {}),
    ('code_full_cc._A_A_term_shape_string', 'P11 P14', {'order': 'int:0:8'}, {}),
    ('code_full_cc._write_cc_optimized_paths_from_list', 'P11 P12 P14', {'truncations': {'@maximum_hamiltonian_rank': 'fccw.H', '@maximum_coupled_cluster_rank': 'fccw.CC'},
        't_term_list': 'fccw.terms', 'local_list_name': 'str', 'trunc_obj_name': 'str'}, {}),
    ('code_full_cc._generate_full_cc_optimized_paths', 'P11 P12 P14', {'omega_term': 'omega', 'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:2', '@omega_max_order': 'int:1:2'}, 'only_ground_state': 'bool'}, {}),
    ('code_full_cc._generate_optimized_paths_functions', 'P11 P14 P22', {'omega_term': 'omega', 'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:2', '@omega_max_order': 'int:1:2'}, 'only_ground_state': 'bool'}, {'opaque': {'code_full_cc._generate_full_cc_optimized_paths': 'list:3:3:list:0:3:str'}}),
    ('code_full_cc._wrap_optimized_paths_generation', 'P11 P12 P14', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:1', '@omega_max_order': 'int:1:2'}, 'master_omega': 'Omega', 's2': 'int:20:30', 'named_line': ('function', 'helper_funcs.named_line'), 'spaced_named_line': ('function', 'helper_funcs.named_line'), 'only_ground_state': 'bool'}, {'opaque': {'code_full_cc._generate_optimized_paths_functions': 'str'}}),
    ('code_full_cc._write_grouped_optimized_paths_function', 'P11 P14', {'omega_term': 'omega'}, {}),
    ('code_full_cc._write_optimized_master_paths_function', 'P11 P14', {'master_omega': 'Omega'}, {}),
    ('code_full_cc._generate_full_cc_python_file_contents', 'P03 P11 P12 P14 P17 P20', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:1', '@omega_max_order': 'int:1:2'}, 'only_ground_state': 'bool'}, {'opaque': {'code_full_cc._wrap_full_cc_generation': 'str', 'code_full_cc._wrap_optimized_paths_generation': 'str'}}),
    ('code_full_cc.generate_full_cc_python', 'P03 P05 P11 P20 P22', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:2', '@maximum_coupled_cluster_rank': 'int:1:2',
        '@s_taylor_max_order': 'int:1:1', '@omega_max_order': 'int:1:1'}, 'only_ground_state': 'bool', 'path': 'str'}, {'opaque': {'code_full_cc._generate_full_cc_python_file_contents': 'str'}}),
]
