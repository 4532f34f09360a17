"""Which properties the specification of a function speaks for, beyond those written at the specification itself.

A full comparison with the specification decides everything a function contributes, so a function carries every property that its result can break.
"""
import re

FCC, ZHZ, ETZ = 'latex_full_cc', 'latex_zhz', 'latex_eT_zhz'
CFC, CET = 'code_full_cc', 'code_eT_zhz'
WDT = '(code_w_equations|code_dt_equations|latex_w_equations)'
RES = 'code_residual_equations'
LATEX = f'({FCC}|{ZHZ}|{ETZ})'

ADD = [
    # term selection and contraction patterns of one ansatz feed each other
    ('P06 P08 P12', rf'{LATEX}\.(_filter_out_valid_\w+|_validate_s_terms|_seperate_s_terms_by_connection|_generate_valid_\w+|_generate_all_\w+|_generate_explicit_\w+|_remove_duplicate_\w+|\w+_joining_with_\w+|_prepare_eTz_\w+)'),
    ('P06 P08 P12 P20', rf'{LATEX}\.(_build_(first|second|third|fourth|fifth)\w+|_generate_(cc|z_symmetric|eT_z_symmetric)_latex_equations|generate_\w+_latex)'),
    ('P06 P08 P12 P20', rf'({CFC}|{CET})\.(_generate_full_cc_einsums|_generate_eT_zhz_einsums|_generate_full_cc_optimized_paths|_collect_z_contributions|_construct_eT_zhz_compute_function|remove_all_excited_state_t_terms)'),
    ('P06 P20', rf'{LATEX}\.(_remove_f_zero_terms|_creates_f\w+|_f_\w+|_fbar_\w+)'),
    ('P12', rf'{LATEX}\.(_f_\w+|_fbar_\w+)'),
    # labels, prefactors and shape of the written terms
    ('P09 P10 P12 P13', rf'{LATEX}\.(_make_latex|_prepare_\w+_latex|_build_third_\w+|_build_second_\w+|_build_fourth_\w+|prepare_condensed_terms|_linked_condensed_adjust_t_terms|_generate_linked_common_terms)'),
    ('P09 P10 P12', rf'{LATEX}\.(_build_(first|fifth)\w+|_build_\w+_labels|_build_t_term\w+|_build_left_z_term|_build_right_z_term|_build_eT_right_z_term|_build_latex_h_string|_build_h_string|_f_\w+|_fbar_\w+|_wrap_align_environment|_generate_left_hand_side|_write_cc_latex_from_lists)'),
    ('P09 P10 P12', rf'{LATEX}\.(_generate_(cc|z_symmetric|eT_z_symmetric)_latex_equations|generate_\w+_latex)'),
    ('P13 P10', rf'{LATEX}\.(_build_\w*prefactor|_simplify\w+)'),
    ('P09 P11 P12 P13', rf'({CFC}|{CET})\.(_write_\w+einsum\w*|_handle_multiline_same_prefactor|_multiple_perms_logic|_build_\w+_python_\w+|_\w+_einsum_\w+_components\w*|_\w+subscript_generator)'),
    ('P11', rf'({CFC}|{CET})\.(_build_\w*prefactor|_simplify\w+|compute_prefactor_adjustment|generate_\w+|_generate_\w+|_collect\w+|_rank_of\w+|_multiple\w+)'),
    ('P12 P13', rf'({CFC}|{CET})\.(compute_prefactor_adjustment|_generate_\w+|_collect\w+)'),
    ('P14', rf'{CFC}\.\w+'),
    ('P14', rf'{CET}\.(_construct\w+|_wrap\w+|_write\w+|_generate\w+|_handle\w+|_collect\w+|_multiple\w+)'),
    ('P14', r'(code_w_equations|code_dt_equations)\.\w+'),
    # residual, W and amplitude equations
    ('P19', rf'({WDT}|{RES})\.\w+'),
    ('P09 P11 P13', r'(code_w_equations|code_dt_equations)\.(_w_einsum_list|_optimized_w_einsum_list|_generate_\w*einsum\w*|_write\w*_strings|_generate_ve\w+|_permutation_function|_write_permutations|_contracted_expressions|_t_term_shape_string|_generate_t_lists|_generate_t_terms_dictionary)'),
    ('P12', rf'({WDT}|{RES})\.(_next_list|_generate_t\w+|_permutation_function|generate_\w+|_write\w+|_generate_ve\w+|_w_einsum_list|_optimized\w+|_same\w+|count_items|remove_list_item)'),
    ('P09 P10', r'latex_w_equations\.\w+'),
    ('P11 P09 P13', rf'{RES}\.(generate_\w+|write\w+|_residual\w+|_generate\w+|construct\w+|simplified\w+|extract\w+|_same\w+)'),
    ('P17', rf'{RES}\.(generate_hamiltonian_operator|generate_h_term|generate_w_term|generate_p_term|generate_residual_data)'),
    ('P12 P13 P19', r'helper_funcs\.(_partitions|\w+_partitions_of_n|unique_permutations)'),
    ('P08', r'helper_funcs\.unique_permutations'),
    # which operators exist
    ('P17 P20', rf'{LATEX}\.generate_\w+_(operator|taylor_expansion)'),
    ('P06 P12', rf'{LATEX}\.generate_\w+_(operator|taylor_expansion)'),
    # requests
    ('P04 P20', rf'({LATEX}|{CFC}|{CET})\.generate_(full_cc_latex|full_cc_python|z_t_symmetric_latex|eT_z_t_symmetric_latex|eT_zhz_python)'),
    ('P05', rf'({CFC}|{CET})\._generate_\w+_file_contents'),
    ('P05 P11', r'(code_w_equations|code_dt_equations)\.generate_\w+_string'),
    ('P05 P11', rf'{RES}\.generate_python_code_for_residual_functions'),
    ('P16 P04', r'(_glue_|driver)\.\w+'),
    ('P16', r'truncations\.\w+_JSON'),
]
DROP = [
    ('P18', r'(code_w_equations|code_dt_equations)\.(_construct\w+|_write\w+|_generate_\w*einsum\w*|_generate_ve\w+|generate\w+|_w_einsum_list|_optimized\w+|_generate_\w*(index|prefactor))'),
    ('P18', r'latex_w_equations\.(excited|ground|generate)\w+'),
    ('P07', r'.*'),
]
ADD = [(p.split(), re.compile(r)) for p, r in ADD]
DROP = [(p.split(), re.compile(r)) for p, r in DROP]


def extend(target, props):
    out = set(props)
    for ps, r in DROP:
        if r.fullmatch(target):
            out -= set(ps)
    for ps, r in ADD:
        if r.fullmatch(target):
            out |= set(ps)
    return sorted(out)
