"""Reference definitions for truncations (see DESIGN.md)."""
import os
import copy
import json
import itertools as it
from collections import namedtuple
from truncation_keys import TruncationsKeys as tkeys
truncation_maximums = {'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6, 'omega_max_order': 6, 'maximum_T_rank': 1, 'eT_taylor_max_order': 8}
old_trunc_max = {'max_residual_order': 8, 'max_w_order': 8, 'dt_order': 8}
zhz_key_list = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'omega_max_order']
fcc_key_list = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order']
eT_z_t_key_list = ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'maximum_T_rank', 'eT_taylor_max_order', 'omega_max_order']
fcc_truncations_namedtuple = namedtuple('fcc_truncations', fcc_key_list)
eT_z_t_truncations_namedtuple = namedtuple('eT_z_t_truncations', eT_z_t_key_list)


def __verify_keys(truncations, key_list):
    for key in key_list:
        assert key in truncations, f'Missing key, key = {key:s} not in provided dictionary truncations={truncations:}'
        assert truncations[key] >= 1, 'Truncations need to be positive integers'
        assert truncations[key] <= truncation_maximums[key], f'Key {key} is over the maximum of {truncation_maximums[key]}'


def _verify_zhz_truncations(truncations):
    assert bool(truncations), 'Empty dictionary is not correct'
    for key in truncations.keys():
        if key not in tkeys:
            raise Exception(f'key = {key!r} is not one of the valid keys for zhz.\n{tkeys.zhz_key_list()}')
    string_copy = truncations.copy()
    tkeys.change_dictionary_keys_from_enum_members_to_strings(string_copy)
    __verify_keys(string_copy, zhz_key_list)


def _verify_fcc_truncations(truncations):
    assert bool(truncations), 'Empty dictionary is not correct'
    for key in truncations.keys():
        if key not in tkeys:
            raise Exception(f'key = {key!r} is not one of the valid keys for fcc.\n{tkeys.fcc_key_list()}')
    string_copy = truncations.copy()
    tkeys.change_dictionary_keys_from_enum_members_to_strings(string_copy)
    __verify_keys(string_copy, fcc_key_list)


def _verify_eT_z_t_truncations(truncations):
    assert bool(truncations), 'Empty dictionary is not correct'
    for key in truncations.keys():
        if key not in tkeys:
            raise Exception(f'key = {key!r} is not one of the valid keys for eTz.\n{tkeys.eTz_key_list()}')
    string_copy = truncations.copy()
    tkeys.change_dictionary_keys_from_enum_members_to_strings(string_copy)
    __verify_keys(string_copy, eT_z_t_key_list)


def _save_to_JSON(path, dictionary):
    dict_copy = copy.deepcopy(dictionary)
    tkeys.change_dictionary_keys_from_enum_members_to_strings(dict_copy)
    with open(path, mode='w', encoding='UTF8') as target_file:
        target_file.write(json.dumps(dict_copy))
    return


def save_trunc_to_JSON(path, dictionary):
    _save_to_JSON(path, dictionary)
    return


def _load_from_JSON(path):
    with open(path, mode='r', encoding='UTF8') as file:
        input_dictionary = json.loads(file.read())
    tkeys.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
    for key, value in input_dictionary.items():
        input_dictionary[key] = value
    if tkeys.key_list_type(input_dictionary) == 'fcc':
        _verify_fcc_truncations(input_dictionary)
    elif tkeys.key_list_type(input_dictionary) == 'eTz':
        _verify_eT_z_t_truncations(input_dictionary)
    elif tkeys.key_list_type(input_dictionary) == 'zhz':
        _verify_zhz_truncations(input_dictionary)
    else:
        raise Exception('Invalid dictionary')
    return input_dictionary


def load_trunc_from_JSON(path, dictionary=None):
    if not bool(dictionary):
        new_trunc_dict = _load_from_JSON(path)
        return new_trunc_dict
    dictionary.update(_load_from_JSON(path))
    return
