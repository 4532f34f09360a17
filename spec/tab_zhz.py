"""Z ansatz, latex: domains and properties of the functions with reference definitions in ref_latex_zhz."""
TABLE = [
    ('latex_zhz.generate_z_operator', 'P17', {'maximum_cc_rank': 'int:0:8', 'only_ground_state': 'bool'}, {}),
    ('latex_zhz._z_joining_with_z_terms', 'P06 P08', {'LHS': 'zprod.LHS', 'h': 'zprod.h', 'left_z': 'zprod.left', 'right_z': 'zprod.right'}, {}),
    ('latex_zhz._generate_valid_z_n_operator_permutations', 'P06 P08', {'LHS': 'zprod.LHS', 'h': 'zprod.h', 'all_z_permutations': 'zprod.pairs'}, {}),
    ('latex_zhz._generate_all_valid_z_connection_permutations', 'P06 P08', {'LHS': 'zprod.LHS', 'h': 'zprod.h', 'z_term_list': 'zprod.pair'}, {}),
    ('latex_zhz._generate_all_o_h_z_connection_permutations', 'P06 P08', {'LHS': 'zprod.LHS', 'h': 'zprod.h', 'valid_z_permutations': 'zprod.pairs'}, {}),
    ('latex_zhz._generate_explicit_z_connections', 'P06 P08', {'LHS': 'zprod.LHS', 'h': 'zprod.h', 'unique_s_permutations': 'zprod.zlists'}, {}),
    ('latex_zhz._filter_out_valid_z_terms', 'P06 P08 P12', {'LHS': 'zprod.LHS', 'H': 'zprod.H', 'Z_left': 'zprod.ZL', 'Z_right': 'zprod.ZR', 'total_list': []}, {}),
    ('latex_zhz._build_left_z_term', 'P09 P10', {'z_left': 'z4.zl', 'h': 'z4.h', 'color': 'bool'}, {}),
    ('latex_zhz._build_left_z_term', 'P09 P10', {'z_left': 'z4.zl', 'h': 'z4.h'}, {}),
    ('latex_zhz._build_hz_term_latex_labels', 'P09 P10', {'h': 'z4.h', 'offset_dict': {'left_upper': 'int:0:3', 'summation_index': 'int:0:3', 'unlinked_index': 'int:0:3'}}, {}),
    ('latex_zhz._build_right_z_term', 'P09 P10', {'h': 'z4.h', 'z_right': 'z4.zr', 'offset_dict': {'left_lower': 'int:0:3', 'left_upper': 'int:0:3', 'h_lower': 'int:0:3', 'h_upper': 'int:0:3',
        'unlinked_index': 'int:0:3'}}, {}),
    ('latex_zhz._f_zL_h_contributions', 'P10 P20', {'z_left': 'z4.zl', 'h': 'z4.h'}, {}),
    ('latex_zhz._fbar_zL_h_contributions', 'P10 P20', {'z_left': 'z4.zl', 'h': 'z4.h'}, {}),
    ('latex_zhz._f_h_zR_contributions', 'P10 P20', {'h': 'z4.h', 'z_right': 'z4.zr'}, {}),
    ('latex_zhz._fbar_h_zR_contributions', 'P10 P20', {'h': 'z4.h', 'z_right': 'z4.zr'}, {}),
    ('latex_zhz._f_zL_zR_contributions', 'P10 P20', {'z_left': 'z4.zl', 'z_right': 'z4.zr'}, {}),
    ('latex_zhz._fbar_zL_zR_contributions', 'P10 P20', {'z_left': 'z4.zl', 'z_right': 'z4.zr'}, {}),
    ('latex_zhz._prepare_second_z_latex', 'P09 P10 P12 P20', {'term_list': 'z2_terms', 'split_width': 'int:1:7', 'remove_f_terms': 'bool'}, {}),
    ('latex_zhz._build_hz_latex_prefactor', 'P13', {'h': 'z3.h', 'z_left': 'none', 'z_right': 'z3.zr', 'simplify_flag': 'bool'}, {}),
    ('latex_zhz._build_hz_latex_prefactor', 'P13', {'h': 'z3.h', 'z_left': 'none', 'z_right': 'z3.zr'}, {}),
    ('latex_zhz._prepare_third_z_latex', 'P09 P10 P12 P13 P20', {'term_list': 'z3_terms', 'split_width': 'int:1:7', 'remove_f_terms': 'bool', 'print_prefactors': 'bool'}, {}),
    ('latex_zhz._prepare_third_z_latex', 'P09 P10 P12 P13 P20', {'term_list': 'z3_terms'}, {}),
    ('latex_zhz._prepare_fourth_z_latex', 'P09 P10 P20', {'term_list': 'z4_terms', 'split_width': 'int:1:7', 'remove_f_terms': 'bool'}, {}),
    ('latex_zhz._build_first_z_term', 'P10', {'LHS': 'omega'}, {}),
    ('latex_zhz._build_second_z_term', 'P12 P20', {'LHS': 'omega1', 'H': 'Hz', 'Z': 'Z', 'remove_f_terms': 'bool'}, {}),
    ('latex_zhz._build_third_z_term', 'P08 P10 P12 P20', {'LHS': 'omega1', 'H': 'Hz', 'Z': 'Z', 'remove_f_terms': 'bool'}, {}),
    ('latex_zhz._build_fourth_z_term', 'P12 P20', {'LHS': 'omega1', 'H': 'Hz', 'Z': 'Z', 'remove_f_terms': 'bool'}, {}),
    ('latex_zhz._build_fifth_z_term', 'P10', {'LHS': 'omega', 'Z': 'Z'}, {}),
    ('latex_zhz._generate_z_symmetric_latex_equations', 'P10 P12 P20 P22', {'LHS': 'omega1', 'H': 'Hz', 'Z': 'Z', 'only_ground_state': 'bool', 'remove_f_terms': 'bool'},
        {'opaque': {'latex_zhz._build_second_z_term': 'str', 'latex_zhz._build_third_z_term': 'str', 'latex_zhz._build_fourth_z_term': 'str'}, 'raises': True}),
    ('latex_zhz.generate_z_t_symmetric_latex', 'P03 P05 P10 P12 P17 P20 P22', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:4', '@maximum_coupled_cluster_rank': 'int:1:3', '@omega_max_order': 'int:1:3'},
        'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'path': 'str'}, {'opaque': {'latex_zhz._generate_z_symmetric_latex_equations': 'str'}}),
]
