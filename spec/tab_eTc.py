"""eT z ansatz, python: domains and properties of the functions with reference definitions in ref_code_eT_zhz."""
C = 'code_eT_zhz.'
OFF = {'summation_count': 'int:0:3', 'unlinked_count': 'int:0:3', 'upper_h_indices': 'str', 'lower_h_indices': 'str', 'upper_z_indices': 'str', 'lower_z_indices': 'str'}
OFF0 = {'summation_count': 'int:0:3', 'unlinked_count': 'int:0:3', 'upper_h_indices': '', 'lower_h_indices': '', 'upper_z_indices': '', 'lower_z_indices': ''}
OFF0 = {k: ('const', v) if v == '' else v for k, v in OFF0.items()}
TR = {'@maximum_hamiltonian_rank': 'int:1:4', '@maximum_coupled_cluster_rank': 'int:1:3', '@maximum_T_rank': 'int:0:2', '@eT_taylor_max_order': 'int:1:3', '@omega_max_order': 'int:1:3'}
TABLE = [
    (C + '_eT_zhz_einsum_electronic_components', 'P11', {'t_list': 'eTx.ts', 'z_right': 'eTx.zr', 'b_loop_flag': ('const', True)}, {}),
    (C + '_eT_zhz_einsum_electronic_components_lhs', 'P11', {'t_list': 'eTx.ts', 'dT': 'bool', 'z_right': 'eTx.zr', 'b_loop_flag': ('const', True)}, {}),
    (C + '_build_z_term_python_labels', 'P09 P11', {'z_right': 'eTx.zr', 'offset_dict': OFF}, {}),
    (C + '_build_z_term_python_labels', 'P09 P11', {'z_right': 'eTx.zr', 'offset_dict': OFF0}, {}),
    (C + '_build_h_term_python_labels', 'P09 P11', {'h': 'eTx.h', 'offset_dict': OFF}, {}),
    (C + '_build_h_term_python_labels', 'P09 P11', {'h': 'eTx.h', 'offset_dict': OFF0}, {}),
    (C + '_build_t_term_python_labels', 'P09 P11', {'term': 'eTx.t', 'offset_dict': OFF}, {}),
    (C + '_build_t_term_python_group', 'P09 P11', {'t_list': 'eTx.ts', 'h': 'eTx.h', 'z_right': 'eTx.zr'}, {}),
    (C + '_eT_zhz_einsum_vibrational_components', 'P09 P11', {'t_list': 'eTx.ts', 'h': 'eTx.h', 'z_right': 'eTx.zr', 'b_loop_flag': 'bool'}, {}),
    (C + '_eT_zhz_einsum_vibrational_components_lhs', 'P09 P11', {'t_list': 'eTx.ts', 'h': 'eTx.h', 'z_right': 'eTx.zr', 'b_loop_flag': 'bool'}, {}),
    (C + '_simplify_eT_zhz_python_prefactor', 'P01 P13', {'numerator_list': 'facs', 'denominator_list': 'facs'}, {}),
    (C + '_build_eT_zhz_python_prefactor', 'P13', {'t_list': 'eTx.ts', 'h': 'eTx.h', 'z_right': 'eTx.zr', 'simplify_flag': 'bool'}, {}),
    (C + '_multiple_perms_logic', 'P12 P13', {'term': 'eTx.term', 'print_indist_perms': 'bool'}, {}),
    (C + 'compute_prefactor_adjustment', 'P13', {'h': 'eTx.h', 'z_right': 'eTx.zr'}, {}),
    (C + '_handle_multiline_same_prefactor', 'P11 P12', {'output_list': 'strs', 'prefactor': 'str', 'string_list': 'list:1:4:str', 'lhs_rhs': 'side', 'nof_tabs': 'int:0:3'}, {}),
    (C + '_collect_z_contributions', 'P11 P12 P22', {'h_dict': 'eTc.zdict', 'return_array': 'strs', 'lhs_rhs': 'side', 'trunc_obj_name': 'str', 'suppress_empty_if_checks': 'bool', 'nof_tabs': 'int:0:3'}, {}),
    (C + '_write_third_eTz_einsum_python', 'P01 P09 P11 P12 P13', {'rank': 'int:0:3', 'operators': 'eTc.operators', 't_term_list': 'eTc.terms', 'lhs_rhs': 'side', 'trunc_obj_name': 'str', 'b_loop_flag': ('const', True),
        'suppress_empty_if_checks': 'bool'}, {}),
    (C + 'remove_all_excited_state_t_terms', 'P20', {'eT_taylor_expansion': 'eTc.mixed'}, {}),
    (C + '_generate_eT_zhz_einsums', 'P02 P12 P20', {'Proj': 'omega1', 'operators': 'eTc.operators', 'lhs_rhs': 'side', 'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'opt_einsum': 'bool'},
        {'opaque': {'latex_eT_zhz._filter_out_valid_eTz_terms': 'none', 'latex_eT_zhz._filter_out_valid_eTz_terms>total_list': 'eTc.terms', 'code_eT_zhz._write_third_eTz_einsum_python': 'strs', 'code_eT_zhz.remove_all_excited_state_t_terms': 'eT_exp'}, 'known': '_generate_eT_zhz_einsums_without_h0_z'}),
    (C + '_construct_eT_zhz_compute_function', 'P11 P12 P14 P20', {'Proj': 'omega', 'operators': 'eTc.operators', 'lhs_rhs': 'side', 'only_ground_state': 'bool', 'opt_einsum': 'bool'},
        {'opaque': {'code_eT_zhz._generate_eT_zhz_einsums': 'list:2:2:strs'}}),
    (C + '_wrap_eT_zhz_generation', 'P11 P12', {'master_omega': 'Omega', 'operators': 'eTc.operators', 'lhs_rhs': 'side', 'only_ground_state': 'bool', 'opt_einsum': 'bool'},
        {'opaque': {'code_eT_zhz._construct_eT_zhz_compute_function': 'str'}}),
    (C + '_write_master_eT_zhz_compute_function', 'P11 P12 P14', {'Proj': 'omega', 'lhs_rhs': 'side', 'opt_einsum': 'bool'}, {}),
    (C + '_write_master_eT_zhz_compute_function', 'P11 P12', {'Proj': 'omega', 'lhs_rhs': 'side'}, {}),
    (C + '_generate_eT_zhz_python_file_contents', 'P03 P11 P12 P14 P17 P20 P22', {'truncations': TR, 'only_ground_state': 'bool', 'lhs_rhs': 'side'},
        {'opaque': {'code_eT_zhz._wrap_eT_zhz_generation': 'str'}, 'raises': True}),
    (C + 'generate_eT_zhz_python', 'P03 P05 P11', {'truncations': TR, 'only_ground_state': 'bool', 'lhs_rhs': 'side', 'path': 'str'},
        {'opaque': {'code_eT_zhz._generate_eT_zhz_python_file_contents': 'str'}, 'raises': True}),
]
