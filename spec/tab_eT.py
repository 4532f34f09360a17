"""eT z ansatz, latex: domains and properties of the functions with reference definitions in ref_latex_eT_zhz."""
L = 'latex_eT_zhz.'
PROD = {'LHS': 'eTprod.LHS', 'h': 'eTprod.h', 't_list': 'eTprod.ts', 'left_z': 'eTprod.left', 'right_z': 'eTprod.right'}
JOIN = {'omega': 'eTprod.LHS', 'h': 'eTprod.h', 't_list': 'eTprod.ts', 'z_left': 'eTprod.left', 'z_right': 'eTprod.right'}
FREE = {k: v.replace('prod', 'free') for k, v in PROD.items()}
JFREE = {k: v.replace('prod', 'free') for k, v in JOIN.items()}
OFF = {'lower_h': 'str', 'upper_h': 'str', 'lower_left_z': 'str', 'upper_left_z': 'str', 'lower_right_z': 'str', 'upper_right_z': 'str', 'unlinked_index': 'int:0:3', 'summation_index': 'int:0:3'}
TABLE = [
    (L + 'generate_eT_operator', 'P17', {'maximum_eT_rank': 'int:0:8'}, {}),
    (L + 'generate_eT_taylor_expansion', 'P17', {'maximum_eT_rank': 'int:1:3', 'eT_taylor_max_order': 'int:1:4'}, {}),
    (L + 'generate_pruned_H_operator', 'P17', {'maximum_h_rank': 'int:0:6'}, {}),
    (L + '_z_joining_with_z_terms_eT', 'P06 P08', FREE, {}),
    (L + '_t_joining_with_t_terms_eT', 'P06 P08', JFREE, {}),
    (L + '_omega_joining_with_itself_eT', 'P06 P08', JFREE, {}),
    (L + '_h_joining_with_itself_eT', 'P06 P08', JFREE, {}),
    (L + '_generate_valid_eT_z_n_operator_permutations', 'P06 P08', {'LHS': 'eTprod.LHS', 'eT': 'eTprod.eT', 'h': 'eTprod.h', 'all_z_permutations': 'eTprod.pairs'}, {}),
    (L + '_generate_valid_eT_z_n_operator_permutations', 'P06 P08', {'LHS': 'eTfree.LHS', 'eT': 'eTfree.eT', 'h': 'eTfree.h', 'all_z_permutations': 'eTfree.pairs'}, {}),
    (L + '_generate_all_valid_eT_z_connection_permutations', 'P06 P08', PROD, {}),
    (L + '_generate_all_valid_eT_z_connection_permutations', 'P06 P08', FREE, {}),
    (L + '_generate_all_valid_eT_connection_permutations', 'P06 P08', {'LHS': 'eTprod.LHS', 't_list': 'eTprod.ts', 'h': 'eTprod.h', 'z_pair': 'eTprod.pair'}, {}),
    (L + '_generate_all_valid_eT_connection_permutations', 'P06 P08', {'LHS': 'eTprod.LHS', 't_list': 'eTprod.ts', 'h': 'eTprod.h', 'z_pair': 'eTprod.pair0'}, {}),
    (L + '_generate_all_o_eT_h_z_connection_permutations', 'P06 P08', {'LHS': 'eTprod.LHS', 'h': 'eTprod.h', 'valid_permutations': 'eTprod.triplets', 'lhs_rhs': 'side'}, {}),
    (L + '_remove_duplicate_t_tuple_permutations', 'P02 P08 P12', {'LHS': 'eTprod.LHS', 'h': 'eTprod.h', 'eT_connection_permutations': 'eTprod.perms'}, {}),
    (L + '_generate_explicit_eT_z_connections', 'P08', {'LHS': 'eTprod.LHS', 'h': 'eTprod.h', 'unique_permutations': 'eTprod.unique', 'prefactor_count': 'eTprod.count'}, {}),
    (L + '_simplify_full_cc_python_prefactor', 'P13', {'numerator_list': 'facs', 'denominator_list': 'facs'}, {}),
    (L + '_build_eThz_latex_prefactor', 'P13', {'t_list': 'eTx.ts', 'h': 'eTx.h', 'z_left': 'eTx.zl', 'z_right': 'eTx.zr', 'overcounting_prefactor': 'int:1:3', 'simplify_flag': 'bool'}, {}),
    (L + '_f_t_h_contributions', 'P10 P20', {'t_list': 'eTx.ts', 'h': 'eTx.h'}, {}),
    (L + '_fbar_t_h_contributions', 'P10 P20', {'t_list': 'eTx.ts', 'h': 'eTx.h'}, {}),
    (L + '_f_t_zR_contributions', 'P10 P20', {'t_list': 'eTx.ts', 'z_right': 'eTx.zr'}, {}),
    (L + '_fbar_t_zR_contributions', 'P10 P20', {'t_list': 'eTx.ts', 'z_right': 'eTx.zr'}, {}),
    (L + '_f_t_zL_contributions', 'P10 P20', {'t_list': 'eTl.ts', 'z_left': 'eTl.zl'}, {}),
    (L + '_fbar_t_zL_contributions', 'P10 P20', {'t_list': 'eTl.ts', 'z_left': 'eTl.zl'}, {}),
    (L + '_build_eT_term_latex_labels', 'P09 P10', {'t_list': 'eTl.ts', 'offset_dict': OFF, 'lhs_rhs': 'side', 'color': 'bool', 'letters': 'bool'}, {}),
    (L + '_build_eT_term_latex_labels', 'P09 P10', {'t_list': 'eTl.ts', 'offset_dict': OFF, 'lhs_rhs': 'side'}, {}),
    (L + '_build_eT_hz_term_latex_labels', 'P09 P10', {'h': 'eTx.h', 'offset_dict': OFF, 'lhs_rhs': 'side', 'letters': 'bool'}, {}),
    (L + '_build_eT_right_z_term', 'P09 P10', {'h': 'eTx.h', 'z_right': 'eTx.zr', 'offset_dict': OFF, 'lhs_rhs': 'side', 'letters': 'bool'}, {}),
    (L + '_prepare_third_eTz_latex', 'P01 P09 P10 P12 P13 P20', {'term_list': 'eT_terms', 'lhs_rhs': 'side', 'split_width': 'int:1:7', 'remove_f_terms': 'bool', 'print_prefactors': 'bool',
        'suppress_duplicates': 'bool'}, {}),
    (L + '_prepare_third_eTz_latex', 'P01 P09 P10 P12 P13 P20', {'term_list': 'eT_terms', 'lhs_rhs': 'side'}, {}),
    (L + '_prepare_eTz_z_terms', 'P06 P12', {'Z_left': 'eTprod.ZL', 'Z_right': 'eTprod.ZR', 'zhz_debug': 'bool'}, {}),
    (L + '_prepare_eTz_T_terms', 'P06 P12', {'eT_series_term': 'eTprod.series'}, {}),
    (L + '_filter_out_valid_eTz_terms', 'P06 P08 P12', {'LHS': 'eTprod.LHS', 'eT': 'eTprod.series', 'H': 'eTprod.H', 'Z_left': 'eTprod.ZL', 'Z_right': 'eTprod.ZR', 'total_list': [], 'lhs_rhs': 'side'}, {}),
    (L + '_build_third_eTz_term', 'P08 P10 P12 P20', {'LHS': 'omega1', 'eT_taylor_expansion': 'eT_exp', 'H': 'Hz', 'Z': 'Z', 'lhs_rhs': 'side', 'remove_f_terms': 'bool'}, {}),
    (L + '_generate_eT_z_symmetric_latex_equations', 'P10 P12 P20 P22', {'LHS': 'omega1', 'eT_taylor_expansion': 'eT_exp', 'H': 'Hz', 'Z': 'Z', 'lhs_rhs': 'side', 'only_ground_state': 'bool',
        'remove_f_terms': 'bool'}, {'opaque': {'latex_eT_zhz._build_third_eTz_term': 'str'}, 'raises': True}),
    (L + 'generate_eT_z_t_symmetric_latex', 'P03 P05 P10 P12 P17 P20 P22', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:4', '@maximum_coupled_cluster_rank': 'int:1:3', '@maximum_T_rank': 'int:0:2',
        '@eT_taylor_max_order': 'int:1:3', '@omega_max_order': 'int:1:3'}, 'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'lhs_rhs': 'side', 'path': 'str'},
        {'opaque': {'latex_eT_zhz._generate_eT_z_symmetric_latex_equations': 'str'}, 'raises': True}),
]
