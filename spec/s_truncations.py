"""What the truncation dictionaries must satisfy, and how they are stored."""
import json
from truncation_keys import TruncationsKeys as tkeys

H = tkeys('maximum_hamiltonian_rank')
CC = tkeys('maximum_coupled_cluster_rank')
S = tkeys('s_taylor_max_order')
P = tkeys('omega_max_order')
T = tkeys('maximum_T_rank')
ET = tkeys('eT_taylor_max_order')


# ------------------------------------------------------------------ accepted exactly within the limits
@spec('truncations._verify_fcc_truncations', props='P03 P02 P15', raises=True)
def verify_fcc(truncations: {'@maximum_hamiltonian_rank': 'int:0:7', '@maximum_coupled_cluster_rank': 'int:0:7', '@s_taylor_max_order': 'int:0:7',
                             '@omega_max_order': 'int:0:7'}):
    assert 1 <= truncations[H] <= 6
    assert 1 <= truncations[CC] <= 6
    assert 1 <= truncations[S] <= 6
    assert 1 <= truncations[P] <= 6


@spec('truncations._verify_zhz_truncations', props='P03 P02 P15', raises=True)
def verify_zhz(truncations: {'@maximum_hamiltonian_rank': 'int:0:7', '@maximum_coupled_cluster_rank': 'int:0:7', '@omega_max_order': 'int:0:7'}):
    assert 1 <= truncations[H] <= 6
    assert 1 <= truncations[CC] <= 6
    assert 1 <= truncations[P] <= 6


@spec('truncations._verify_eT_z_t_truncations', props='P03 P02 P15', raises=True)
def verify_eT_z_t(truncations: {'@maximum_hamiltonian_rank': 'int:0:7', '@maximum_coupled_cluster_rank': 'int:0:7', '@maximum_T_rank': 'int:0:2',
                                '@eT_taylor_max_order': 'int:0:9', '@omega_max_order': 'int:0:7'}):
    assert 1 <= truncations[H] <= 6
    assert 1 <= truncations[CC] <= 6
    assert 1 <= truncations[T] <= 1
    assert 1 <= truncations[ET] <= 8
    assert 1 <= truncations[P] <= 6


# ------------------------------------------------------------------ empty, incomplete, unknown keys
@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_empty(truncations: {}):
    assert False


@spec('truncations._verify_zhz_truncations', props='P03', raises=True)
def verify_zhz_empty(truncations: {}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_empty(truncations: {}):
    assert False


@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_no_s(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_no_p(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_no_h(truncations: {'@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_no_cc(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_fcc_truncations', props='P03', raises=True)
def verify_fcc_unknown(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6',
                                     '@omega_max_order': 'int:1:6', 'something_else': 'int:1:6'}):
    assert False


@spec('truncations._verify_zhz_truncations', props='P03', raises=True)
def verify_zhz_no_h(truncations: {'@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_zhz_truncations', props='P03', raises=True)
def verify_zhz_no_cc(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_zhz_truncations', props='P03', raises=True)
def verify_zhz_no_p(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6'}):
    assert False


@spec('truncations._verify_zhz_truncations', props='P03', raises=True)
def verify_zhz_unknown(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6',
                                     'something_else': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_no_h(truncations: {'@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:6',
                                     '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_no_cc(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:6',
                                      '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_no_t(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@eT_taylor_max_order': 'int:1:6',
                                     '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_no_et(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1',
                                      '@omega_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_no_p(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1',
                                     '@eT_taylor_max_order': 'int:1:6'}):
    assert False


@spec('truncations._verify_eT_z_t_truncations', props='P03', raises=True)
def verify_eT_z_t_unknown(truncations: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1',
                                        '@eT_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6', 'something_else': 'int:1:6'}):
    assert False


# ------------------------------------------------------------------ stored under the documented names
@spec('truncations.save_trunc_to_JSON', props='P15 P05 P02', raises=True)
def save_fcc(path: 'str', dictionary: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6',
                                       '@omega_max_order': 'int:1:6'}):
    with open(path, 'w') as fp:
        json.dump({'maximum_hamiltonian_rank': dictionary[H], 'maximum_coupled_cluster_rank': dictionary[CC], 's_taylor_max_order': dictionary[S],
                   'omega_max_order': dictionary[P]}, fp)


@spec('truncations.save_trunc_to_JSON', props='P15 P05 P02', raises=True)
def save_zhz(path: 'str', dictionary: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    with open(path, 'w') as fp:
        json.dump({'maximum_hamiltonian_rank': dictionary[H], 'maximum_coupled_cluster_rank': dictionary[CC], 'omega_max_order': dictionary[P]}, fp)


@spec('truncations.save_trunc_to_JSON', props='P15 P05 P02', raises=True)
def save_eT_z_t(path: 'str', dictionary: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1',
                                          '@eT_taylor_max_order': 'int:1:8', '@omega_max_order': 'int:1:6'}):
    with open(path, 'w') as fp:
        json.dump({'maximum_hamiltonian_rank': dictionary[H], 'maximum_coupled_cluster_rank': dictionary[CC], 'maximum_T_rank': dictionary[T],
                   'eT_taylor_max_order': dictionary[ET], 'omega_max_order': dictionary[P]}, fp)


# ------------------------------------------------------------------ loaded, checked and returned / filled in
@spec('truncations.load_trunc_from_JSON', props='P15 P03 P05', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:0:7', 'maximum_coupled_cluster_rank': 'int:0:7', 's_taylor_max_order': 'int:0:7', 'omega_max_order': 'int:0:7'}})
def load_fcc(path: 'str'):
    with open(path, 'r') as fp:
        stored = json.load(fp)
    d = {H: stored['maximum_hamiltonian_rank'], CC: stored['maximum_coupled_cluster_rank'], S: stored['s_taylor_max_order'], P: stored['omega_max_order']}
    assert 1 <= d[H] <= 6
    assert 1 <= d[CC] <= 6
    assert 1 <= d[S] <= 6
    assert 1 <= d[P] <= 6
    return d


@spec('truncations.load_trunc_from_JSON', props='P15 P03 P05', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:0:7', 'maximum_coupled_cluster_rank': 'int:0:7', 'omega_max_order': 'int:0:7'}})
def load_zhz(path: 'str'):
    with open(path, 'r') as fp:
        stored = json.load(fp)
    d = {H: stored['maximum_hamiltonian_rank'], CC: stored['maximum_coupled_cluster_rank'], P: stored['omega_max_order']}
    assert 1 <= d[H] <= 6
    assert 1 <= d[CC] <= 6
    assert 1 <= d[P] <= 6
    return d


@spec('truncations.load_trunc_from_JSON', props='P15 P03 P05', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:0:7', 'maximum_coupled_cluster_rank': 'int:0:7', 'maximum_T_rank': 'int:0:2', 'eT_taylor_max_order': 'int:0:9',
    'omega_max_order': 'int:0:7'}})
def load_eT_z_t(path: 'str'):
    with open(path, 'r') as fp:
        stored = json.load(fp)
    d = {H: stored['maximum_hamiltonian_rank'], CC: stored['maximum_coupled_cluster_rank'], T: stored['maximum_T_rank'], ET: stored['eT_taylor_max_order'],
         P: stored['omega_max_order']}
    assert 1 <= d[H] <= 6
    assert 1 <= d[CC] <= 6
    assert 1 <= d[T] <= 1
    assert 1 <= d[ET] <= 8
    assert 1 <= d[P] <= 6
    return d


@spec('truncations.load_trunc_from_JSON', props='P15 P02', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:0:7', 'maximum_coupled_cluster_rank': 'int:0:7', 's_taylor_max_order': 'int:0:7', 'omega_max_order': 'int:0:7'}})
def load_fcc_into(path: 'str', dictionary: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6',
                                            '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    with open(path, 'r') as fp:
        stored = json.load(fp)
    d = {H: stored['maximum_hamiltonian_rank'], CC: stored['maximum_coupled_cluster_rank'], S: stored['s_taylor_max_order'], P: stored['omega_max_order']}
    assert 1 <= d[H] <= 6
    assert 1 <= d[CC] <= 6
    assert 1 <= d[S] <= 6
    assert 1 <= d[P] <= 6
    dictionary[H] = d[H]
    dictionary[CC] = d[CC]
    dictionary[S] = d[S]
    dictionary[P] = d[P]


@spec('truncations.load_trunc_from_JSON', props='P15 P02', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 'omega_max_order': 'int:1:6'}})
def load_zhz_into_some(path: 'str', dictionary: {'@maximum_hamiltonian_rank': 'int:1:6'}):
    with open(path, 'r') as fp:
        stored = json.load(fp)
    assert 1 <= stored['maximum_hamiltonian_rank'] <= 6
    assert 1 <= stored['maximum_coupled_cluster_rank'] <= 6
    assert 1 <= stored['omega_max_order'] <= 6
    dictionary[H] = stored['maximum_hamiltonian_rank']
    dictionary[CC] = stored['maximum_coupled_cluster_rank']
    dictionary[P] = stored['omega_max_order']


@spec('truncations.load_trunc_from_JSON', props='P15 P03', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 'maximum_T_rank': 'int:1:1', 'omega_max_order': 'int:1:6'}})
def load_mixed(path: 'str'):
    assert False


@spec('truncations.load_trunc_from_JSON', props='P15 P03', raises=True, stubs={'json.loads': {
    'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 'something_else': 'int:1:6'}})
def load_unknown(path: 'str'):
    assert False


@spec('truncations.load_trunc_from_JSON', props='P15 P03', raises=True, stubs={'json.loads': {'maximum_hamiltonian_rank': 'int:1:6'}})
def load_short(path: 'str'):
    assert False
