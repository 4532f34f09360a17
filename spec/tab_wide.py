"""Whole requests over the full documented limits: the operator builders that do not depend on the projection are left opaque."""
def lim(*keys):
    top = {'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6, 'omega_max_order': 6, 'maximum_T_rank': 1, 'eT_taylor_max_order': 8}
    return {'@' + k: f'int:1:{top[k]}' for k in keys}


H, CC, S, P, T, ET = 'maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order', 'maximum_T_rank', 'eT_taylor_max_order'
FC, ZZ, EZ = lim(H, CC, S, P), lim(H, CC, P), lim(H, CC, T, ET, P)
OPS = {'latex_full_cc.generate_full_cc_hamiltonian_operator': 'H', 'latex_full_cc.generate_s_taylor_expansion': 'list:1:2:ops1', 'latex_zhz.generate_z_operator': 'Z',
       'latex_eT_zhz.generate_pruned_H_operator': 'Hz', 'latex_eT_zhz.generate_eT_taylor_expansion': 'eT_exp'}
OPT = {'only_ground_state': 'bool', 'remove_f_terms': 'bool', 'path': 'str'}


def row(target, trunc, opaque, props='P10 P12 P17 P22', **more):
    mod = target.split('.')[0]
    return (target, props, {'truncations': trunc, **OPT, **more}, {'opaque': {**OPS, **{mod + '.' + o: 'str' for o in opaque}}, 'raises': True})


TABLE = [
    row('latex_full_cc.generate_full_cc_latex', FC, ['_generate_cc_latex_equations']),
    row('latex_zhz.generate_z_t_symmetric_latex', ZZ, ['_generate_z_symmetric_latex_equations']),
    row('latex_eT_zhz.generate_eT_z_t_symmetric_latex', EZ, ['_generate_eT_z_symmetric_latex_equations'], lhs_rhs='side'),
    row('code_full_cc._generate_full_cc_python_file_contents', FC, ['_generate_full_cc_compute_functions', '_generate_optimized_paths_functions'], 'P11 P12 P14 P17 P22'),
    row('code_eT_zhz._generate_eT_zhz_python_file_contents', EZ, ['_construct_eT_zhz_compute_function'], 'P11 P12 P14 P17 P22', lhs_rhs='side'),
]
