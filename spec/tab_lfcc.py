"""Full cc, latex: domains and properties of the functions with reference definitions in ref_latex_full_cc (beside the hand-written ones in s_latex_full_cc)."""
M = 'latex_full_cc.'
TABLE = [
    (M + '_build_latex_h_string', 'P09 P10', {'h': 'op', 'unsummed': 'bool'}, {}),
    (M + '_build_h_string', 'P10', {'h': 'op'}, {}),
    (M + '_build_t_term_latex', 'P09 P10', {'s': 'ct', 'h': 'fcc.h'}, {}),
    (M + '_validate_s_terms', 'P22', {'s_list': 'fcc.ts'}, {'raises': True}),
    (M + '_generate_linked_common_terms', 'P12', {'term_list': 'terms_fcc1'}, {}),
    (M + 'prepare_condensed_terms', 'P12 P22', {'term_list': 'terms_fcc1', 'linked_condense': 'bool', 'unlinked_condense': 'bool'}, {'raises': True}),
    (M + '_linked_condensed_adjust_t_terms', 'P09 P10 P12', {'common_linked_factor_list': 'lk.common', 'h': 'lk.h', 't_list': 'lk.ts'}, {}),
    (M + '_make_latex', 'P09 P10 P12 P13 P20', {'rank': 'int:0:4', 'term_list': 'terms_fcc1', 'linked_condense': 'bool', 'unlinked_condense': 'bool', 'print_prefactors': 'bool', 'color': 'bool'}, {'raises': True}),
    (M + '_make_latex', 'P09 P10 P12 P13 P20', {'rank': 'int:0:4', 'term_list': 'terms_fcc1'}, {}),
    (M + '_make_latex', 'P09 P10 P12 P13 P20', {'rank': 'int:0:4', 'term_list': 'terms_linked', 'linked_condense': ('const', True), 'print_prefactors': 'bool', 'color': 'bool'}, {'raises': True}),
    (M + '_generate_linked_common_terms', 'P12', {'term_list': 'terms_linked'}, {}),
    (M + 'prepare_condensed_terms', 'P12 P22', {'term_list': 'terms_linked', 'linked_condense': 'bool', 'unlinked_condense': 'bool'}, {'raises': True}),
    (M + '_write_cc_latex_from_lists', 'P10 P12', {'rank': 'int:0:4', 'fully': 'terms_fcc', 'linked': 'terms_fcc', 'unlinked': 'terms_fcc'}, {'opaque': {M + '_make_latex': 'str'}}),
    (M + '_filter_out_valid_s_terms', 'P06 P08 P12 P20', {'omega': 'op', 'H': 'H', 's_series_term': 'ops1', 'term_list': [], 'total_list': [], 'remove_f_terms': 'bool'}, {}),
    (M + '_generate_cc_latex_equations', 'P06 P08 P12 P20', {'omega': 'omega', 'H': 'H', 's_taylor_expansion': 'list:1:3:ops1', 'remove_f_terms': 'bool'}, {'opaque': {M + '_write_cc_latex_from_lists': 'str'}}),
    (M + '_generate_left_hand_side', 'P09 P10 P12', {'omega': 'omega'}, {}),
    (M + '_wrap_align_environment', 'P10', {'omega': 'omega', 'rank_name': 'str', 'lhs': 'str', 'eqns': 'str'}, {}),
    (M + 'generate_full_cc_latex', 'P03 P05 P10 P12 P17 P20 P22', {'truncations': {'@maximum_hamiltonian_rank': 'int:1:3', '@maximum_coupled_cluster_rank': 'int:1:3', '@s_taylor_max_order': 'int:1:2',
        '@omega_max_order': 'int:1:3'}, 'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'path': 'str'}, {'opaque': {M + '_generate_cc_latex_equations': 'str', M + '_generate_left_hand_side': 'str'}}),
]
