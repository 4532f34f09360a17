"""Requests outside the limits: every generator that takes truncations refuses them, before anything is written."""
FC = {'@maximum_hamiltonian_rank': 'int:0:8', '@maximum_coupled_cluster_rank': 'int:0:8', '@s_taylor_max_order': 'int:0:8', '@omega_max_order': 'int:0:8'}
ZZ = {'@maximum_hamiltonian_rank': 'int:0:8', '@maximum_coupled_cluster_rank': 'int:0:8', '@omega_max_order': 'int:0:8'}
EZ = {'@maximum_hamiltonian_rank': 'int:0:8', '@maximum_coupled_cluster_rank': 'int:0:8', '@maximum_T_rank': 'int:0:3', '@eT_taylor_max_order': 'int:0:10', '@omega_max_order': 'int:0:8'}
OPT = {'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'path': 'str', 'lhs_rhs': ('const', 'RHS')}
OPERATORS = ['latex_full_cc.generate_omega_operator', 'latex_full_cc.generate_full_cc_hamiltonian_operator', 'latex_full_cc.generate_s_taylor_expansion', 'latex_zhz.generate_z_operator',
             'latex_eT_zhz.generate_pruned_H_operator', 'latex_eT_zhz.generate_eT_taylor_expansion']


def row(gen, trunc):
    target, doms = gen
    doms = dict({'latex_full_cc.generate_omega_operator': 'Omega', 'latex_full_cc.generate_full_cc_hamiltonian_operator': 'H'}, **{target.split('.')[0] + '.' + h: 'str' for h in doms})
    return (target, 'P03', dict({'truncations': trunc}, **OPT), {'opaque': doms, 'raises': True, 'closed': True, 'facets': 'refusal'})


L = ('latex_full_cc.generate_full_cc_latex', ['_generate_cc_latex_equations', '_generate_left_hand_side', '_wrap_align_environment'])
Z = ('latex_zhz.generate_z_t_symmetric_latex', ['_generate_z_symmetric_latex_equations'])
E = ('latex_eT_zhz.generate_eT_z_t_symmetric_latex', ['_generate_eT_z_symmetric_latex_equations'])
C = ('code_full_cc.generate_full_cc_python', ['_wrap_full_cc_generation', '_wrap_optimized_paths_generation', '_write_master_full_cc_compute_function', '_write_grouped_optimized_paths_function',
                                              '_write_optimized_master_paths_function'])
D = ('code_eT_zhz.generate_eT_zhz_python', ['_wrap_eT_zhz_generation', '_write_master_eT_zhz_compute_function'])
W = ('code_full_cc._generate_full_cc_python_file_contents', C[1])
X = ('code_eT_zhz._generate_eT_zhz_python_file_contents', D[1])


def less(d, *keys):
    return {k: v for k, v in d.items() if k[1:] not in keys}


H, CC, S, P, T, ET = 'maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order', 'maximum_T_rank', 'eT_taylor_max_order'
MORE = {'something_else': 'int:1:3'}
TABLE = [
    row(L, FC), row(L, {}), row(L, less(FC, H)), row(L, less(FC, CC)), row(L, less(FC, S)), row(L, less(FC, P)), row(L, {**FC, **MORE}),
    row(Z, ZZ), row(Z, {}), row(Z, less(ZZ, H)), row(Z, less(ZZ, CC)), row(Z, less(ZZ, P)), row(Z, {**ZZ, **MORE}),
    row(E, EZ), row(E, {}), row(E, less(EZ, H)), row(E, less(EZ, CC)), row(E, less(EZ, T)), row(E, less(EZ, ET)), row(E, less(EZ, P)), row(E, {**EZ, **MORE}),
    row(C, FC), row(C, {}), row(C, less(FC, H)), row(C, less(FC, CC)), row(C, less(FC, S)), row(C, less(FC, P)), row(C, {**FC, **MORE}),
    row(D, EZ), row(D, {}), row(D, less(EZ, H)), row(D, less(EZ, CC)), row(D, less(EZ, T)), row(D, less(EZ, ET)), row(D, less(EZ, P)), row(D, {**EZ, **MORE}),
    row(W, FC), row(X, EZ),
]
