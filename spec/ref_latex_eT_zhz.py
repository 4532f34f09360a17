"""Reference definitions for latex_eT_zhz (see DESIGN.md)."""
import sys
import math
import fractions
import itertools as it
from collections import namedtuple
import inspect
import pdb
import reference_latex_headers as headers
from latex_defines import *
from latex_zhz import generate_z_operator, _build_first_z_term, _f_h_zR_contributions, _fbar_h_zR_contributions, _build_fifth_z_term
from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator
from common_imports import tab, z_summation_indices, z_unlinked_indices, summation_indices
from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
from truncations import _verify_eT_z_t_truncations
from truncation_keys import TruncationsKeys as tkeys
import log_conf
eT_operator_namedtuple = namedtuple('eT_operator', ['maximum_rank', 'operator_list'])


def generate_eT_operator(maximum_eT_rank=2):
    return_list = []
    for m in [0]:
        for n in range(0, maximum_eT_rank + 1 - m):
            if m == n == 0:
                continue
            name = 's'
            name += f'^{m}' if m > 0 else ''
            name += f'_{n}' if n > 0 else ''
            return_list.append(general_operator_namedtuple(name, m + n, m, n))
    return eT_operator_namedtuple(maximum_eT_rank, return_list)


def generate_eT_taylor_expansion(maximum_eT_rank=2, eT_taylor_max_order=3):
    T = generate_eT_operator(maximum_eT_rank)
    eT_taylor_expansion = [None] * (eT_taylor_max_order + 1)
    eT_taylor_expansion[0] = general_operator_namedtuple('1', 0, 0, 0)
    eT_taylor_expansion[1] = T.operator_list
    for n in range(2, eT_taylor_max_order + 1):
        eT_taylor_expansion[n] = [list(tup) for tup in it.product(T.operator_list, repeat=n)]
    return eT_taylor_expansion


def generate_pruned_H_operator(maximum_h_rank):
    raw_H = generate_full_cc_hamiltonian_operator(maximum_h_rank)
    pruned_list = [term for term in raw_H.operator_list if term.rank < 3 or term.m == 0]
    H = hamiltonian_namedtuple(raw_H.maximum_rank, pruned_list)
    return H


def _z_joining_with_z_terms_eT(LHS, t_list, h, left_z, right_z):
    available_b_for_both = LHS.n + h.n + sum([t.n for t in t_list])
    available_d_for_both = LHS.m + h.m + sum([t.m for t in t_list])
    available_b_for_left_z = right_z.n + available_b_for_both
    available_d_for_left_z = right_z.m + available_d_for_both
    available_b_for_right_z = left_z.n + available_b_for_both
    available_d_for_right_z = left_z.m + available_d_for_both
    required_b_for_left_z = left_z.m
    required_d_for_left_z = left_z.n
    required_b_for_right_z = right_z.m
    required_d_for_right_z = right_z.n
    if required_b_for_left_z > available_b_for_left_z:
        return True
    if required_d_for_left_z > available_d_for_left_z:
        return True
    if required_b_for_right_z > available_b_for_right_z:
        return True
    if required_d_for_right_z > available_d_for_right_z:
        return True
    return False


def _t_joining_with_t_terms_eT(omega, t_list, h, z_left, z_right):
    available_d = omega.m + h.m + z_left.m + z_right.m
    available_b = omega.n + h.n + z_left.n + z_right.n
    required_b = sum([t.m for t in t_list])
    required_d = sum([t.n for t in t_list])
    if required_b > available_b or required_d > available_d:
        return True
    return False


def _omega_joining_with_itself_eT(omega, t_list, h, z_left, z_right):
    if omega.m == 0 or omega.n == 0:
        return False
    if omega.n > 0:
        if h.m > 0 or z_left.m > 0 or z_right.m > 0:
            return False
        for t in t_list:
            if t.m > 0:
                return False
    if omega.m > 0:
        if h.n > 0 or z_left.n > 0 or z_right.n > 0:
            return False
        for t in t_list:
            if t.n > 0:
                return False
    return True


def _h_joining_with_itself_eT(omega, t_list, h, z_left, z_right):
    if h.m == 0 or h.n == 0:
        return False
    if h.n > 0:
        if omega.m > 0 or z_left.m > 0 or z_right.m > 0:
            return False
        for t in t_list:
            if t.m > 0:
                return False
    if h.m > 0:
        if omega.n > 0 or z_left.n > 0 or z_right.n > 0:
            return False
        for t in t_list:
            if t.n > 0:
                return False
    return True
connected_eT_lhs_operator_namedtuple = namedtuple('connected_LHS', ['rank', 'm', 'n', 'm_l', 'n_l', 'm_t', 'n_t', 'm_h', 'n_h', 'm_r', 'n_r'])
connected_eT_h_z_operator_namedtuple = namedtuple('connected_h_z', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_t', 'n_t', 'm_l', 'n_l', 'm_r', 'n_r'])
connected_eT_z_left_operator_namedtuple = namedtuple('connected_z_left', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_t', 'n_t', 'm_h', 'n_h', 'm_r', 'n_r'])
connected_eT_z_right_operator_namedtuple = namedtuple('connected_z_right', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_t', 'n_t', 'm_h', 'n_h', 'm_l', 'n_l'])
connected_t_operator_namedtuple = namedtuple('connected_t', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_l', 'n_l', 'm_h', 'n_h', 'm_r', 'n_r'])
disconnected_eT_z_left_operator_namedtuple = namedtuple('disconnected_z_left', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_t', 'n_t', 'm_h', 'n_h', 'm_r', 'n_r'])
disconnected_eT_z_right_operator_namedtuple = namedtuple('disconnected_z_right', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_t', 'n_t', 'm_h', 'n_h', 'm_l', 'n_l'])
disconnected_t_operator_namedtuple = namedtuple('disconnected_t', ['rank', 'm', 'n', 'm_lhs', 'n_lhs', 'm_l', 'n_l', 'm_h', 'n_h', 'm_r', 'n_r'])


def _generate_valid_eT_z_n_operator_permutations(LHS, eT, h, all_z_permutations):
    valid_permutations = []
    for perm_T in eT:
        subheader_log.info(f'perm_T = {perm_T!r}')
        for perm_Z in all_z_permutations:
            left_z, right_z = perm_Z
            str_group = f'\n{tab}'.join(['', f'{'LHS':<12s}{LHS}', f'{'T':<12s}{perm_T}', f'{'Z_left':<12s}{left_z}', f'{'h':<12s}{h}', f'{'Z_right':<12s}{right_z}'])
            nof_creation_ops = LHS.m + h.m + left_z.m + right_z.m + sum([t.m for t in perm_T])
            nof_annhiliation_ops = LHS.n + h.n + left_z.n + right_z.n + sum([t.n for t in perm_T])
            cannot_pair_off_b_d_operators = bool(nof_creation_ops != nof_annhiliation_ops)
            if cannot_pair_off_b_d_operators:
                continue
            if _z_joining_with_z_terms_eT(LHS, perm_T, h, left_z, right_z):
                continue
            if _t_joining_with_t_terms_eT(LHS, perm_T, h, left_z, right_z):
                continue
            if _omega_joining_with_itself_eT(LHS, perm_T, h, left_z, right_z):
                continue
            if _h_joining_with_itself_eT(LHS, perm_T, h, left_z, right_z):
                continue
            if len(perm_T) == 1:
                valid_permutations.append((tuple(perm_T), left_z, right_z))
            else:
                valid_permutations.append((tuple(perm_T), left_z, right_z))
    return valid_permutations


def _generate_all_valid_eT_z_connection_permutations(LHS, t_list, h, left_z, right_z, log_invalid=True):
    total_t_n = sum([t.n for t in t_list])
    total_t_m = sum([t.m for t in t_list])
    valid_upper_perm_combinations = []
    valid_lower_perm_combinations = []
    m_perms, n_perms = ([], [])
    nof_t_terms = len(t_list)
    for s_term in [left_z, right_z]:
        M, N = (s_term.m, s_term.n)
        temp_list = [(a, tuple(t), b, M - (a + b + sum(t))) for a, b, *t in it.product(range(M + 1), repeat=2 + nof_t_terms) if a + b + sum(t) <= M]
        m_perms.append(temp_list)
        temp_list = [(a, tuple(t), b, N - a - b - sum(t)) for a, b, *t in it.product(range(N + 1), repeat=2 + nof_t_terms) if a + b + sum(t) <= N]
        n_perms.append(temp_list)
    if log.level == log_conf.logging.DEBUG:
        expander = lambda lst: f' {lst}' if len(lst) < 2 else ''.join([f'\n{tab}{tab}{m}' for m in lst])
    combined_m_perms = list(it.product(*m_perms))
    for m_perm in combined_m_perms:
        left_m_perm, right_m_perm = m_perm
        total_lhs_m = left_m_perm[0] + right_m_perm[0]
        total_eT_m = sum(left_m_perm[1]) + sum(right_m_perm[1])
        total_h_m = left_m_perm[2] + right_m_perm[2]
        total_lhs_balanced = bool(total_lhs_m <= LHS.n)
        total_eT_balanced = bool(total_eT_m <= total_t_n)
        total_h_balanced = bool(total_h_m <= h.n)
        left_z_balanced_right = bool(left_m_perm[-1] <= right_z.n)
        right_z_balanced_left = bool(right_m_perm[-1] <= left_z.n)
        each_eT_balanced = all([bool(t.n <= LHS.m + h.m + left_m_perm[1][i] + right_m_perm[1][i]) and bool(t.rank >= left_m_perm[1][i] + right_m_perm[1][i]) for i, t in enumerate(t_list)])
        bool_list = [total_h_balanced, total_lhs_balanced, total_eT_balanced, each_eT_balanced, left_z_balanced_right, right_z_balanced_left]
        if log.level != log_conf.logging.DEBUG:
            dense_output = ''
        else:
            dense_output = f'\n{tab}'.join(['', f'{'Z_left  perm '}{left_m_perm}', f'{'Z_right perm '}{right_m_perm}', f'{'LHS':<4}{total_lhs_m:>2d} <= {LHS.n:>2d}  {total_lhs_balanced}', f'{'eT':<4}{total_eT_m:>2d} <= {sum([t.n for t in t_list]):>2d}  {total_eT_balanced}', f'each_eT_balanced={each_eT_balanced!r}', f'{'h':<4}{total_h_m:>2d} <= {h.n:>2d}  {total_h_balanced}', f'{'zL':<4}{left_m_perm[-1]:>2d} <= {right_z.n:>2d}  {left_z_balanced_right}', f'{'zR':<4}{right_m_perm[-1]:>2d} <= {left_z.n:>2d}  {right_z_balanced_left}'])
        if all(bool_list):
            valid_upper_perm_combinations.append(m_perm)
    combined_n_perms = list(it.product(*n_perms))
    for n_perm in combined_n_perms:
        left_n_perm, right_n_perm = n_perm
        total_lhs_n = left_n_perm[0] + right_n_perm[0]
        total_eT_n = sum(left_n_perm[1]) + sum(right_n_perm[1])
        total_h_n = left_n_perm[2] + right_n_perm[2]
        total_lhs_balanced = bool(total_lhs_n <= LHS.m)
        total_eT_balanced = bool(total_eT_n <= total_t_m)
        total_h_balanced = bool(total_h_n <= h.m)
        left_z_balanced_right = bool(left_n_perm[-1] <= right_z.m)
        right_z_balanced_left = bool(right_n_perm[-1] <= left_z.m)
        each_eT_balanced = all([bool(t.m <= LHS.n + h.n + left_n_perm[1][i] + right_n_perm[1][i]) and bool(t.rank >= left_n_perm[1][i] + right_n_perm[1][i]) for i, t in enumerate(t_list)])
        bool_list = [total_h_balanced, total_lhs_balanced, total_eT_balanced, each_eT_balanced, left_z_balanced_right, right_z_balanced_left]
        if log.level != log_conf.logging.DEBUG:
            dense_output = ''
        else:
            dense_output = f'\n{tab}'.join(['', f'{'Z_left  perm '}{left_n_perm}', f'{'Z_right perm '}{right_n_perm}', f'{'LHS':<4}{total_lhs_n:>2d} <= {LHS.m:>2d}  {total_lhs_balanced}', f'{'eT':<4}{total_eT_n:>2d} <= {total_t_m:>2d}  {total_eT_balanced}', f'each_eT_balanced={each_eT_balanced!r}', f'{'h':<4}{total_h_n:>2d} <= {h.m:>2d}  {total_h_balanced}', f'{'zL':<4}{left_n_perm[-1]:>2d} <= {right_z.m:>2d}  {left_z_balanced_right}', f'{'zR':<4}{right_n_perm[-1]:>2d} <= {left_z.m:>2d}  {right_z_balanced_left}'])
        if all(bool_list):
            valid_lower_perm_combinations.append(n_perm)
    return (valid_upper_perm_combinations, valid_lower_perm_combinations)


def _generate_all_valid_eT_connection_permutations(LHS, t_list, h, z_pair, log_invalid=True):
    z_left, z_right = z_pair
    if z_left is None:
        args = [0, 0, 0, 0, 0, [0] * len(t_list), [0] * len(t_list), 0, 0, 0, 0]
        z_left = disconnected_eT_z_left_operator_namedtuple(*args)
    if z_right is None:
        args = [0, 0, 0, 0, 0, [0] * len(t_list), [0] * len(t_list), 0, 0, 0, 0]
        z_right = disconnected_eT_z_right_operator_namedtuple(*args)
    valid_upper_perm_combinations = []
    valid_lower_perm_combinations = []
    m_perms, n_perms = ([], [])
    remaining_m = sum([t.m for t in t_list]) - sum(z_left.n_t) - sum(z_right.n_t)
    remaining_n = sum([t.n for t in t_list]) - sum(z_left.m_t) - sum(z_right.m_t)
    if remaining_n == remaining_m == 0:
        temp_upper, temp_lower = ([], [])
        for i, t in enumerate(t_list):
            temp_upper.append([0, z_left.n_t[i], 0, z_right.n_t[i]])
            temp_lower.append([0, z_left.m_t[i], 0, z_right.m_t[i]])
        valid_upper_perm_combinations.append(temp_upper)
        valid_lower_perm_combinations.append(temp_lower)
    elif remaining_m == 0:
        for i, t in enumerate(t_list):
            M = t.m - z_left.n_t[i] - z_right.n_t[i]
            N = t.n - z_left.m_t[i] - z_right.m_t[i]
            temp_list = []
            for a in range(M + 1):
                temp_list.append((a, z_left.n_t[i], M - a, z_right.n_t[i]))
            m_perms.append(temp_list)
            temp_list = []
            for a in range(N + 1):
                temp_list.append((a, z_left.m_t[i], N - a, z_right.m_t[i]))
            n_perms.append(temp_list)
        combined_n_perms = list(it.product(*n_perms))
        for n_perm in combined_n_perms:
            total_lhs_n = sum([t[0] for t in n_perm])
            total_h_n = sum([t[2] for t in n_perm])
            total_lhs_balanced = bool(total_lhs_n <= LHS.m)
            total_h_balanced = bool(total_h_n <= h.m)
            dense_output = f'\n{tab}'.join(['', f'{'LHS':<4}{total_lhs_n:>2d} >= {LHS.m:>2d}  {total_lhs_balanced}', f'{'h':<4}{total_h_n:>2d} >= {h.m:>2d}  {total_h_balanced}', f'{'T':<4}{n_perm}', f'{'zL':<4}{z_left}', f'{'zR':<4}{z_right}'])
            if total_h_balanced and total_lhs_balanced:
                valid_lower_perm_combinations.append(n_perm)
        combined_m_perms = list(it.product(*m_perms))
        for m_perm in combined_m_perms:
            total_lhs_m = sum([t[0] for t in m_perm])
            total_h_m = sum([t[2] for t in m_perm])
            total_lhs_balanced = bool(total_lhs_m <= LHS.n)
            total_h_balanced = bool(total_h_m <= h.n)
            dense_output = f'\n{tab}'.join(['', f'{'LHS':<4}{total_lhs_m:>2d} >= {LHS.n:>2d}  {total_lhs_balanced}', f'{'h':<4}{total_h_m:>2d} >= {h.n:>2d}  {total_h_balanced}', f'{'T':<4}{m_perm}', f'{'zL':<4}{z_left}', f'{'zR':<4}{z_right}'])
            if total_h_balanced and total_lhs_balanced:
                valid_upper_perm_combinations.append(m_perm)
    elif remaining_n == 0:
        raise NotImplementedError('have not coded this yet')
    else:
        raise NotImplementedError('have not coded this yet')
    return (valid_upper_perm_combinations, valid_lower_perm_combinations)


def _generate_all_o_eT_h_z_connection_permutations(LHS, h, valid_permutations, lhs_rhs, found_it_bool=False):
    annotated_permutations = []
    annotated_z_permutations = []

    def print_triplet(i, p):
        et_string = ''.join([f'{'(':<8s}', f'\n{tab}{tab}{tab}{tab}{tab}'.join([str(t) for t in p[0]]), f'\n{tab}{tab})'])
        return str(f'\n{tab}{i + 1:<4}{'eT':<4s}{et_string}\n{tab}{tab}{'Z left':<12s}{p[1]}\n{tab}{tab}{'Z right':<12s}{p[2]}')
    for i, triplet in enumerate(valid_permutations):
        subheader_log.debug(f'PERMUTATION{i + 1:>4}')
        t_list, left_z, right_z = triplet
        upper_perms, lower_perms = _generate_all_valid_eT_z_connection_permutations(LHS, t_list, h, left_z, right_z)
        if log.level == log_conf.logging.DEBUG:
            expander = lambda lst: f' {lst}' if len(lst) < 2 else ''.join([f'\n{tab}{tab}{m}' for m in lst])
        for upper in upper_perms:
            for lower in lower_perms:
                assert len(upper) == len(lower)
                left_z_upper, right_z_upper = upper
                left_z_lower, right_z_lower = lower
                z_left_kwargs, z_right_kwargs = ({}, {})
                z_pair_list = []
                if left_z.name is None:
                    assert left_z_upper == left_z_lower
                    assert left_z_upper[0] == 0 and left_z_upper[2:] == (0, 0)
                    assert all([x == 0 for x in left_z_upper[1]])
                    z_pair_list.append(None)
                else:
                    z_left_kwargs = {'rank': left_z.rank, 'm': left_z.m, 'm_lhs': left_z_upper[0], 'm_t': left_z_upper[1], 'm_h': left_z_upper[2], 'm_r': left_z_upper[-1], 'n': left_z.n, 'n_lhs': left_z_lower[0], 'n_t': left_z_lower[1], 'n_h': left_z_lower[2], 'n_r': left_z_lower[-1]}
                    if z_left_kwargs['m_h'] == z_left_kwargs['n_h'] == 0:
                        z_pair_list.append(disconnected_eT_z_left_operator_namedtuple(**z_left_kwargs))
                    else:
                        z_pair_list.append(connected_eT_z_left_operator_namedtuple(**z_left_kwargs))
                if right_z.name is None:
                    assert right_z_upper == right_z_lower
                    assert right_z_upper[0] == 0 and right_z_upper[2:] == (0, 0)
                    assert all([x == 0 for x in right_z_upper[1]])
                    z_pair_list.append(None)
                else:
                    z_right_kwargs = {'rank': right_z.rank, 'm': right_z.m, 'm_lhs': right_z_upper[0], 'm_t': right_z_upper[1], 'm_h': right_z_upper[2], 'm_l': right_z_upper[-1], 'n': right_z.n, 'n_lhs': right_z_lower[0], 'n_t': right_z_lower[1], 'n_h': right_z_lower[2], 'n_l': right_z_lower[-1]}
                    if z_right_kwargs['m_h'] == z_right_kwargs['n_h'] == 0:
                        z_pair_list.append(disconnected_eT_z_right_operator_namedtuple(**z_right_kwargs))
                    else:
                        z_pair_list.append(connected_eT_z_right_operator_namedtuple(**z_right_kwargs))
                if z_left_kwargs != {} and z_right_kwargs != {}:
                    if z_left_kwargs['m_r'] != z_right_kwargs['n_l']:
                        term_string = f'{tab}{LHS}, {h}, {triplet}\n{tab}z_left_kwargs={z_left_kwargs!r}\n{tab}z_right_kwargs={z_right_kwargs!r}\n'
                        assert False
                        continue
                    if z_left_kwargs['n_r'] != z_right_kwargs['m_l']:
                        term_string = f'{tab}{LHS}, {h}, {triplet}\n{tab}z_left_kwargs={z_left_kwargs!r}\n{tab}z_right_kwargs={z_right_kwargs!r}\n'
                        assert False
                        continue
                annotated_z_permutations.append(tuple(z_pair_list))
        for z_pair in annotated_z_permutations:
            upper_perms, lower_perms = _generate_all_valid_eT_connection_permutations(LHS, t_list, h, z_pair)
        for z_pair in annotated_z_permutations:
            if len(t_list) == 1 and t_list[0].rank == 0:
                upper_perms = [[[0] * 4]]
                lower_perms = [[[0] * 4]]
            else:
                upper_perms, lower_perms = _generate_all_valid_eT_connection_permutations(LHS, t_list, h, z_pair)
            for upper in upper_perms:
                for lower in lower_perms:
                    perm_list = []
                    for i, t in enumerate(t_list):
                        t_upper = upper[i]
                        t_lower = lower[i]
                        assert list(t_upper) == [0, 0, 0, 0]
                        if t.m != sum(t_upper):
                            if lhs_rhs == 'RHS':
                                raise NotImplementedError("Code is not robust and I'm not sure what is wrong, To-Do!")
                            elif lhs_rhs == 'LHS':
                                continue
                        if t.n != sum(t_lower):
                            if lhs_rhs == 'RHS':
                                raise NotImplementedError("Code is not robust and I'm not sure what is wrong, To-Do!")
                            elif lhs_rhs == 'LHS':
                                continue
                        t_kwargs = {'rank': t.rank, 'm': t.m, 'm_lhs': t_upper[0], 'm_l': t_upper[1], 'm_h': t_upper[2], 'm_r': t_upper[-1], 'n': t.n, 'n_lhs': t_lower[0], 'n_l': t_lower[1], 'n_h': t_lower[2], 'n_r': t_lower[-1]}
                        if z_pair[0] is not None and t_kwargs['n_l'] != z_pair[0].m_t[i]:
                            raise Exception('nope')
                        if z_pair[0] is not None and t_kwargs['m_l'] != z_pair[0].n_t[i]:
                            raise Exception('nope')
                        if t_kwargs['n_r'] != z_pair[1].m_t[i]:
                            raise Exception('nope')
                        if t_kwargs['m_r'] != z_pair[1].n_t[i]:
                            raise Exception('nope')
                        if t_kwargs['m_h'] == t_kwargs['n_h'] == 0:
                            perm_list.append(disconnected_t_operator_namedtuple(**t_kwargs))
                        else:
                            perm_list.append(connected_t_operator_namedtuple(**t_kwargs))
            annotated_permutations.append((tuple(perm_list), z_pair))
        splitperm = lambda array: f'\n{tab}{tab}'.join([''] + [str(t) for t in array[0]])
        for perm in annotated_permutations:
            pass
    return annotated_permutations


def _remove_duplicate_t_tuple_permutations(LHS, h, eT_connection_permutations):
    unique_list = []
    unique_set = set()
    unique_count = {}
    tstorage = []
    zstorage = []
    for i, perm in enumerate(eT_connection_permutations):
        t_tuple, z_pair = perm
        if t_tuple is not None:
            t_tuple = list(t_tuple)
            t_tuple.sort()
            if len(t_tuple) == 2:
                zstorage.append(z_pair)
                for i, a in enumerate(tstorage):
                    pass
                else:
                    tstorage.append(t_tuple)
            new_perm = (tuple(t_tuple), z_pair)
        splitperm = lambda array: f'\n{tab}{tab}'.join([''] + [str(t) for t in array[0]])
        if new_perm not in unique_set:
            unique_list.append(new_perm)
            unique_set.add(new_perm)
            unique_count[new_perm] = 1
        elif new_perm in unique_set:
            unique_count[new_perm] += 1
        else:
            raise Exception('')
    return (unique_list, unique_count)


def _generate_explicit_eT_z_connections(LHS, h, unique_permutations, prefactor_count):
    labeled_permutations = []
    for perm in unique_permutations:
        t_list, z_pair = perm
        z_left, z_right = z_pair
        lhs_kwargs, h_kwargs = ({}, {})
        assert len(perm) == 2
        z_left_exists = isinstance(z_left, (connected_eT_z_left_operator_namedtuple, disconnected_eT_z_left_operator_namedtuple))
        z_right_exists = isinstance(z_right, (connected_eT_z_right_operator_namedtuple, disconnected_eT_z_right_operator_namedtuple))
        if z_left is None:
            assert z_right_exists
        elif z_right is None:
            assert z_left_exists
        else:
            assert z_right_exists
            assert z_left_exists
        lhs_kwargs = {'m_l': z_left.n_lhs if z_left_exists else 0, 'n_l': z_left.m_lhs if z_left_exists else 0, 'm_r': z_right.n_lhs if z_right_exists else 0, 'n_r': z_right.m_lhs if z_right_exists else 0, 'm_t': [t.n_lhs for t in t_list], 'n_t': [t.m_lhs for t in t_list]}
        h_kwargs = {'m_l': z_left.n_h if z_left_exists else 0, 'n_l': z_left.m_h if z_left_exists else 0, 'm_r': z_right.n_h if z_right_exists else 0, 'n_r': z_right.m_h if z_right_exists else 0, 'm_t': [t.n_h for t in t_list], 'n_t': [t.m_h for t in t_list]}
        lhs_kwargs.update({'rank': LHS.m + LHS.n, 'm': LHS.m, 'n': LHS.n})
        h_kwargs.update({'rank': h.m + h.n, 'm': h.m, 'n': h.n})
        lhs_kwargs['m_h'] = lhs_kwargs['m'] - (sum(lhs_kwargs['m_t']) + lhs_kwargs['m_l'] + lhs_kwargs['m_r'])
        lhs_kwargs['n_h'] = lhs_kwargs['n'] - (sum(lhs_kwargs['n_t']) + lhs_kwargs['n_l'] + lhs_kwargs['n_r'])
        h_kwargs['m_lhs'] = h_kwargs['m'] - (sum(h_kwargs['m_t']) + h_kwargs['m_l'] + h_kwargs['m_r'])
        h_kwargs['n_lhs'] = h_kwargs['n'] - (sum(h_kwargs['n_t']) + h_kwargs['n_l'] + h_kwargs['n_r'])
        assert lhs_kwargs['m_h'] >= 0 and lhs_kwargs['n_h'] >= 0
        assert h_kwargs['m_lhs'] >= 0 and h_kwargs['n_lhs'] >= 0
        if h_kwargs['m_lhs'] != lhs_kwargs['n_h']:
            term_string = f'{tab}{LHS}, {t_list}, {h}, {perm}\n{tab}lhs_kwargs={lhs_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        elif h_kwargs['n_lhs'] != lhs_kwargs['m_h']:
            term_string = f'{tab}{LHS}, {t_list}, {h}, {perm}\n{tab}lhs_kwargs={lhs_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        new_LHS = connected_eT_lhs_operator_namedtuple(**lhs_kwargs)
        new_h = connected_eT_h_z_operator_namedtuple(**h_kwargs)
        upper = new_LHS.m + new_h.m + sum([t.m for t in t_list]) + z_right.m
        lower = new_LHS.n + new_h.n + sum([t.n for t in t_list]) + z_right.n
        if upper != lower:
            term_string = f'{tab}{LHS}, {t_list}, {h}, {perm}\n{tab}lhs_kwargs={lhs_kwargs!r}\n{tab}h_kwargs={h_kwargs!r}\n'
            continue
        labeled_permutations.append([new_LHS, t_list, new_h, z_pair, prefactor_count[perm]])
        for p in labeled_permutations:
            for x in p:
                pass
    return labeled_permutations


def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
    if numerator_list == [] or denominator_list == []:
        return (numerator_list, denominator_list)
    numerator_set = set(numerator_list)
    denominator_set = set(denominator_list)
    if numerator_set.isdisjoint(denominator_set):
        return (numerator_list, denominator_list)
    else:
        intersection = numerator_set & denominator_set
    numerator_dict = dict([(key, 0) for key in numerator_set])
    for string in numerator_list:
        numerator_dict[string] += 1
    denominator_dict = dict([(key, 0) for key in denominator_set])
    for string in denominator_list:
        denominator_dict[string] += 1
    for key in intersection:
        a, b = (numerator_dict[key], denominator_dict[key])
        if a > b:
            denominator_dict[key] = 0
            numerator_dict[key] = a - b
        elif a < b:
            denominator_dict[key] = b - a
            numerator_dict[key] = 0
        elif a == b:
            denominator_dict[key] = 0
            numerator_dict[key] = 0
    numerator_list, denominator_list = ([], [])
    for k, v in numerator_dict.items():
        numerator_list.extend([k] * v)
    for k, v in denominator_dict.items():
        denominator_list.extend([k] * v)
    numerator_list.sort()
    denominator_list.sort()
    return (numerator_list, denominator_list)


def _build_eThz_latex_prefactor(t_list, h, z_left, z_right, overcounting_prefactor, simplify_flag=True):
    a = [0] * 11
    numerator_value, denominator_value = (1, 1)
    numerator_list, denominator_list = ([], [])
    if h.m > 1:
        denominator_value *= math.factorial(h.m)
        denominator_list.append(f'{h.m}!')
        external_perms = math.comb(h.m, h.m_lhs)
        if external_perms > 1:
            numerator_value *= external_perms
            numerator_list.append(f'({external_perms})')
        new_max = h.m - h.m_lhs
        internal_perms = math.comb(new_max, h.m_r)
        if internal_perms > 1:
            numerator_value *= internal_perms
            numerator_list.append(f'({internal_perms})')
        count_t = sum(h.m_t)
        if count_t > 1:
            numerator_value *= math.factorial(count_t)
            numerator_list.append(f'{count_t}!')
    if h.n > 1:
        denominator_value *= math.factorial(h.n)
        denominator_list.append(f'{h.n}!')
        external_perms = math.comb(h.n, h.n_lhs)
        if external_perms > 1:
            numerator_value *= external_perms
            numerator_list.append(f'({external_perms})')
        new_max = h.n - h.n_lhs
        internal_perms = math.comb(new_max, h.n_r)
        if internal_perms > 1:
            numerator_value *= internal_perms
            numerator_list.append(f'({internal_perms})')
        count_t = sum(h.n_t)
        if count_t > 1:
            numerator_value *= math.factorial(count_t)
            numerator_list.append(f'{count_t}!')
    if z_right.m > 1:
        denominator_value *= math.factorial(z_right.m)
        denominator_list.append(f'{z_right.m}!')
        external_perms = math.comb(z_right.m, z_right.m_lhs)
        if external_perms > 1:
            numerator_value *= external_perms
            numerator_list.append(f'({external_perms})')
        new_max = z_right.m - z_right.m_lhs
        internal_perms = math.comb(new_max, z_right.m_h)
        if internal_perms > 1:
            numerator_value *= internal_perms
            numerator_list.append(f'({internal_perms})')
        new_max -= z_right.m_h
        if z_right.m_h > 1:
            numerator_value *= math.factorial(z_right.m_h)
            numerator_list.append(f'{z_right.m_h}!')
        count_t = sum(z_right.m_t)
        if count_t > 1:
            numerator_value *= math.factorial(count_t)
            numerator_list.append(f'{count_t}!')
        number = math.comb(new_max, count_t)
        assert number == 1, 'you broke something!!!'
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
    if z_right.n > 1:
        denominator_value *= math.factorial(z_right.n)
        denominator_list.append(f'{z_right.n}!')
        number = math.comb(z_right.n, z_right.n_lhs)
        if number > 1:
            numerator_value *= number
            numerator_list.append(f'{number}')
        if z_right.n_h > 1:
            numerator_value *= math.factorial(z_right.n_h)
            numerator_list.append(f'{z_right.n_h}!')
        count_t = sum(z_right.n_t)
        if count_t > 1:
            numerator_value *= math.factorial(count_t)
            numerator_list.append(f'{count_t}!')
            number = math.comb(z_right.n, count_t)
            numerator_value *= number
            numerator_list.append(f'{number}')
    if len(t_list) > 1:
        denominator_value *= math.factorial(len(t_list))
        denominator_list.append(f'{len(t_list)}!')
    for t in t_list:
        if t.m > 1:
            denominator_value *= math.factorial(t.m)
            denominator_list.append(f'{t.m}!')
        if t.n > 1:
            denominator_value *= math.factorial(t.n)
            denominator_list.append(f'{t.n}!')
    if False and simplify_flag:
        fraction = fractions.Fraction(numerator_value, denominator_value)
        if fraction == 1:
            return ''
        else:
            return f'\\frac{{{fraction.numerator}}}{{{fraction.denominator}}}'
    numerator_string = '1' if numerator_list == [] else f'{''.join(numerator_list)}'
    denominator_string = '1' if denominator_list == [] else f'{''.join(denominator_list)}'
    if numerator_string == '1' and denominator_string == '1':
        return ''
    else:
        return f'\\frac{{{numerator_string}}}{{{denominator_string}}}'


def _f_t_h_contributions(t_list, h):
    return_list = []
    for i, t in enumerate(t_list):
        if isinstance(t, disconnected_t_operator_namedtuple):
            assert 0 == t.m_h == h.n_t[i]
            return_list.append(0)
        else:
            assert t.m_h == h.n_t[i]
            return_list.append(t.m_h)
    return return_list


def _fbar_t_h_contributions(t_list, h):
    return_list = []
    for i, t in enumerate(t_list):
        if isinstance(t, disconnected_t_operator_namedtuple):
            assert 0 == t.n_h == h.m_t[i]
            return_list.append(0)
        else:
            assert t.n_h == h.m_t[i] >= 1
            return_list.append(t.n_h)
    return return_list


def _f_t_zR_contributions(t_list, z_right):
    return_list = []
    for i, t in enumerate(t_list):
        assert t.m_r == z_right.n_t[i]
        return_list.append(t.m_r)
    return return_list


def _fbar_t_zR_contributions(t_list, z_right):
    return_list = []
    for i, t in enumerate(t_list):
        return_list.append(t.n_r)
    return return_list


def _f_t_zL_contributions(t_list, z_left):
    return_list = []
    for i, t in enumerate(t_list):
        assert t.m_l == z_left.n_t[i]
        return_list.append(t.m_l)
    return return_list


def _fbar_t_zL_contributions(t_list, z_left):
    return_list = []
    for i, t in enumerate(t_list):
        assert t.n_l == z_left.m_t[i]
        return_list.append(t.n_l)
    return return_list


def _build_eT_term_latex_labels(t_list, offset_dict, lhs_rhs, color=True, letters=True):
    return_list = []
    for t in t_list:
        if t.rank == 0:
            return f'\\mathds{{1}}'
        upper_indices, lower_indices = ('', '')
        if not letters:
            lower_indices += f'{t.n}'
            upper_indices += f'{t.m}'
        else:
            if t.m > 0:
                a = offset_dict['summation_index']
                indices = '\\magenta{' + z_summation_indices[a:a + t.m_l] + '}'
                upper_indices += indices
                offset_dict['lower_left_z'] += indices
                offset_dict['summation_index'] += t.m_l
                b = offset_dict['summation_index']
                indicies = '\\blue{' + z_summation_indices[b:b + t.m_h] + '}'
                upper_indices += indicies
                offset_dict['lower_h'] += indicies
                offset_dict['summation_index'] += t.m_h
                c = offset_dict['summation_index']
                indicies = '\\magenta{' + z_summation_indices[c:c + t.m_r] + '}'
                upper_indices += indicies
                offset_dict['lower_right_z'] += indicies
                offset_dict['summation_index'] += t.m_r
                u = offset_dict['unlinked_index']
                upper_indices += '\\red{' + z_unlinked_indices[u:u + t.m_lhs] + '}'
                offset_dict['unlinked_index'] += t.m_lhs
            if t.n > 0:
                a = offset_dict['summation_index']
                indicies = '\\magenta{' + z_summation_indices[a:a + t.n_l] + '}'
                lower_indices += indicies
                offset_dict['upper_left_z'] += indicies
                offset_dict['summation_index'] += t.n_l
                b = offset_dict['summation_index']
                indicies = '\\blue{' + z_summation_indices[b:b + t.n_h] + '}'
                lower_indices += indicies
                offset_dict['upper_h'] += indicies
                offset_dict['summation_index'] += t.n_h
                c = offset_dict['summation_index']
                indicies = '\\magenta{' + z_summation_indices[c:c + t.n_r] + '}'
                lower_indices += indicies
                offset_dict['upper_right_z'] += indicies
                offset_dict['summation_index'] += t.n_r
                u = offset_dict['unlinked_index']
                lower_indices += '\\red{' + z_unlinked_indices[u:u + t.n_lhs] + '}'
                offset_dict['unlinked_index'] += t.n_lhs
        if lhs_rhs == 'RHS':
            latex_label = f'{bold_t_latex}^{{{upper_indices}}}_{{{lower_indices}}}'
        elif lhs_rhs == 'LHS':
            latex_label = f'{bold_s_latex}^{{{upper_indices}}}_{{{lower_indices}}}'
        return_list.append(latex_label)
    return ''.join(return_list)


def _build_eT_hz_term_latex_labels(h, offset_dict, lhs_rhs, color=True, letters=True):
    if h.rank == 0:
        if lhs_rhs == 'RHS':
            return f'{bold_h_latex}_0'
        elif lhs_rhs == 'LHS':
            return f'\\mathds{1}'
    upper_indices, lower_indices = ('', '')
    if not letters:
        upper_indices = f'{h.m}'
        lower_indices = f'{h.n}'
    else:
        if h.n > 0:
            lower_indices += offset_dict['lower_h']
            s = offset_dict['summation_index']
            indicies = '\\blue{' + z_summation_indices[s:s + h.n_r] + '}'
            lower_indices += indicies
            offset_dict['upper_right_z'] += indicies
            offset_dict['summation_index'] += h.n_r
            u = offset_dict['unlinked_index']
            lower_indices += '\\red{' + z_unlinked_indices[u:u + h.n_lhs] + '}'
            offset_dict['unlinked_index'] += h.n_lhs
        if h.m > 0:
            upper_indices += offset_dict['upper_h']
            s = offset_dict['summation_index']
            indicies = '\\blue{' + z_summation_indices[s:s + h.m_r] + '}'
            upper_indices += indicies
            offset_dict['lower_right_z'] += indicies
            offset_dict['summation_index'] += h.m_r
            u = offset_dict['unlinked_index']
            upper_indices += '\\red{' + z_unlinked_indices[u:u + h.m_lhs] + '}'
            offset_dict['unlinked_index'] += h.m_lhs
    if lhs_rhs == 'RHS':
        return f'{bold_h_latex}^{{{upper_indices}}}_{{{lower_indices}}}'
    elif lhs_rhs == 'LHS':
        t_str = f'{bold_t_latex}^{{{upper_indices}}}_{{{lower_indices}}}'
        return f'\\left(i\\dv{{{t_str}}}{{\\tau}}\\right)'


def _build_eT_right_z_term(h, z_right, offset_dict, lhs_rhs, color=True, letters=True):
    if z_right.rank == 0:
        zero_z_str = f'{bold_z_latex}_0'
        if lhs_rhs == 'RHS':
            return zero_z_str
        elif lhs_rhs == 'LHS':
            if h.rank != 0:
                return zero_z_str
            else:
                return f'\\left(i\\dv{{{zero_z_str}}}{{\\tau}}\\right)'
    upper_indices, lower_indices = ('', '')
    if not letters:
        upper_indices = f'{z_right.m}'
        lower_indices = f'{z_right.n}'
    else:
        if z_right.n > 0:
            lower_indices += offset_dict['lower_right_z']
            u = offset_dict['unlinked_index']
            lower_indices += '\\red{' + z_unlinked_indices[u:u + z_right.n_lhs] + '}'
            offset_dict['unlinked_index'] += z_right.n_lhs
        if z_right.m > 0:
            upper_indices += offset_dict['upper_right_z']
            u = offset_dict['unlinked_index']
            upper_indices += '\\red{' + z_unlinked_indices[u:u + z_right.m_lhs] + '}'
            offset_dict['unlinked_index'] += z_right.m_lhs
    z_str = f'{bold_z_latex}^{{{upper_indices}}}_{{{lower_indices}}}'
    if lhs_rhs == 'RHS':
        return z_str
    elif lhs_rhs == 'LHS':
        if h.rank == 0:
            return f'\\left(i\\dv{{{z_str}}}{{\\tau}}\\right)'
        else:
            return z_str


def _prepare_third_eTz_latex(term_list, lhs_rhs, split_width=4, remove_f_terms=False, print_prefactors=True, suppress_duplicates=True):
    return_list = []
    for term in term_list:
        term_string = ''
        LHS, t_list, h, z_left, z_right, overcounting_prefactor = (term[0], term[1], term[2], *term[3], term[4])
        nof_fs = _f_h_zR_contributions(h, z_right)
        nof_fs += sum(_f_t_h_contributions(t_list, h))
        nof_fs += sum(_f_t_zR_contributions(t_list, z_right))
        if nof_fs > 0:
            if remove_f_terms:
                continue
            term_string += 'f' if nof_fs == 1 else f'f^{{{nof_fs}}}'
        nof_fbars = _fbar_h_zR_contributions(h, z_right)
        nof_fbars += sum(_fbar_t_h_contributions(t_list, h))
        nof_fbars += sum(_fbar_t_zR_contributions(t_list, z_right))
        if nof_fbars > 0:
            term_string += '\\bar{f}' if nof_fbars == 1 else f'\\bar{{f}}^{{{nof_fbars}}}'
        if print_prefactors:
            term_string += _build_eThz_latex_prefactor(t_list, h, z_left, z_right, overcounting_prefactor)
        t_offset_dict = {'lower_h': '', 'upper_h': '', 'lower_left_z': '', 'upper_left_z': '', 'lower_right_z': '', 'upper_right_z': '', 'unlinked_index': 0, 'summation_index': 0}
        t_terms = _build_eT_term_latex_labels(t_list, t_offset_dict, lhs_rhs)
        left_z = ''
        h_term = _build_eT_hz_term_latex_labels(h, t_offset_dict, lhs_rhs)
        right_z = _build_eT_right_z_term(h, z_right, t_offset_dict, lhs_rhs)
        term_string += t_terms + left_z + h_term + right_z
        return_list.append(term_string)
    if suppress_duplicates:
        temp_set = set()
        unique_list = []
        for a in return_list:
            if a not in temp_set:
                unique_list.append(a)
                temp_set.add(a)
        return_list = unique_list
    else:
        unique_list = list(set(return_list))
        unique_list.sort()
    if len(return_list) <= split_width + 2:
        return f'({' + '.join(return_list)})'
    split_equation_list = []
    for i in range(0, len(return_list) // split_width):
        split_equation_list.append(' + '.join(return_list[i * split_width:(i + 1) * split_width]))
    last_few_terms = len(return_list) % split_width
    if last_few_terms != 0:
        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))
    splitting_string = '\\\\  &+  % split long equation'
    final_string = f'\n{tab}{splitting_string}\n'.join(split_equation_list)
    return f'\n{final_string}\n'


def _prepare_eTz_z_terms(Z_left, Z_right, zhz_debug=False):
    if Z_left is None:
        header_log.info('Z is on the right')
        z_left_terms = [general_operator_namedtuple(None, 0, 0, 0)]
        z_right_terms = Z_right.operator_list
        assert isinstance(z_right_terms, list) and isinstance(z_right_terms[0], general_operator_namedtuple)
    elif Z_right is None:
        header_log.info('Z is on the left')
        z_left_terms = Z_left.operator_list
        z_right_terms = [general_operator_namedtuple(None, 0, 0, 0)]
        assert isinstance(z_left_terms, list) and isinstance(z_left_terms[0], general_operator_namedtuple)
    else:
        zhz_debug = True
        header_log.info('Z is on both sides')
        z_left_terms = Z_left.operator_list
        z_right_terms = Z_right.operator_list
        assert isinstance(z_right_terms, list) and isinstance(z_right_terms[0], general_operator_namedtuple)
        assert isinstance(z_left_terms, list) and isinstance(z_left_terms[0], general_operator_namedtuple)
    all_z_permutations = [(z_left, z_right) for z_left, z_right in it.product(z_left_terms, z_right_terms)]
    if zhz_debug or False:
        for a in all_z_permutations:
            pass
        if zhz_debug or False:
            unique_z_permutation_list = sorted(list(set(all_z_permutations)))
            for a in unique_z_permutation_list:
                pass
    return all_z_permutations


def _prepare_eTz_T_terms(eT_series_term):
    if isinstance(eT_series_term, general_operator_namedtuple):
        subheader_log.info('PROCESSING T^0')
        order = 0
        eT_series_term = [[eT_series_term]]
    if isinstance(eT_series_term, list) and isinstance(eT_series_term[0], general_operator_namedtuple):
        subheader_log.info('PROCESSING T^1')
        order = 1
        eT_series_term = [[term] for term in eT_series_term]
    elif isinstance(eT_series_term, list) and isinstance(eT_series_term[0], list) and (len(eT_series_term[0]) > 0):
        subheader_log.info('PROCESSING T^n')
        order = 'n'
    else:
        raise Exception('Check `generate_eT_taylor_expansion` and see if the return value propagates correctly to this location.')
    return (eT_series_term, order)


def _filter_out_valid_eTz_terms(LHS, eT, H, Z_left, Z_right, total_list, lhs_rhs, zhz_debug=False):
    all_z_permutations = _prepare_eTz_z_terms(Z_left, Z_right, zhz_debug)
    eT, eT_order = _prepare_eTz_T_terms(eT)
    for h in H.operator_list:
        if lhs_rhs == 'LHS':
            if h.n != 0:
                continue
        if True:
            nof_terms = sum([len(x) for x in eT])
            subheader_log.debug(f'Checking the T^{eT_order} term:')
            if eT_order == 0:
                pass
            elif nof_terms < 60:
                spread_string = f'\n{tab}{tab}{tab}{tab}'.join([str(x) for x in eT])
        valid_permutations = _generate_valid_eT_z_n_operator_permutations(LHS, eT, h, all_z_permutations)
        if valid_permutations == []:
            continue
        if zhz_debug or True:
            for pair in valid_permutations:
                pass
        eT_connection_permutations = _generate_all_o_eT_h_z_connection_permutations(LHS, h, valid_permutations, lhs_rhs)
        if zhz_debug or True:
            for p in eT_connection_permutations:
                pass
        unique_eT_permutations, unique_count = _remove_duplicate_t_tuple_permutations(LHS, h, eT_connection_permutations)
        if zhz_debug or True:
            for T, z in unique_eT_permutations:
                pass
        labeled_permutations = _generate_explicit_eT_z_connections(LHS, h, unique_eT_permutations, unique_count)
        for term in labeled_permutations:
            if term[2] != set():
                total_list.append(term)
            else:
                sys.exit(0)
    return


def _build_third_eTz_term(LHS, eT_taylor_expansion, H, Z, lhs_rhs, remove_f_terms=False):
    valid_term_list = []
    for count, eT_series_term in enumerate(eT_taylor_expansion):
        _filter_out_valid_eTz_terms(LHS, eT_series_term, H, None, Z, valid_term_list, lhs_rhs)
    if valid_term_list == []:
        return ''
    return _prepare_third_eTz_latex(valid_term_list, lhs_rhs, remove_f_terms=remove_f_terms)


def _generate_eT_z_symmetric_latex_equations(LHS, eT_taylor_expansion, H, Z, lhs_rhs, only_ground_state=True, remove_f_terms=False):
    return_string = ''
    if lhs_rhs == 'RHS':
        return_string += _build_first_z_term(LHS)
    elif lhs_rhs == 'LHS':
        pass
    if not only_ground_state:
        raise NotImplementedError('The excited state second eTZH terms are not implemented.\nTo properly implement this Z term we need to write a new function `_build_second_eTz_term`Which loops over `eT_taylor_expansion` in the same way as `_build_third_eTz_term`Do not remove this exception unless you have fully implemented the new function `_build_second_eTz_term`')
        return_string += '\\\\&-\\Big(' + _build_second_z_term(LHS, H, Z, remove_f_terms) + '\\Big)'
    return_string += '\\\\&+\\sum\\Big(' + _build_third_eTz_term(LHS, eT_taylor_expansion, H, Z, lhs_rhs, remove_f_terms) + '\\Big)'
    if not only_ground_state:
        raise NotImplementedError('The excited state second eTZHZ terms are not implemented.\nTo properly implement this Z term we need to write a new function `_build_fourth_eTz_term`Which loops over `eT_taylor_expansion` in the same way as `_build_third_eTz_term`Do not remove this exception unless you have fully implemented the new function `_build_fourth_eTz_term`')
        return_string += '\\\\&-\\sum\\Big(' + _build_fourth_z_term(LHS, H, Z, remove_f_terms) + '\\Big)'
        if lhs_rhs == 'RHS':
            return_string += '(1-\\delta_{db})'
        elif lhs_rhs == 'LHS':
            pass
    if lhs_rhs == 'RHS':
        if only_ground_state:
            temporary_string = '\\text{all permutations of }\\dv{\\hat{t}_{\\gamma}}{\\tau}\\hat{z}'
            return_string += '\\\\&-i\\sum\\Big(' + _build_fifth_z_term(LHS, Z) + '\\Big)'
    elif lhs_rhs == 'LHS':
        pass
    return return_string.replace('^{}', '').replace('_{}', '')


def generate_eT_z_t_symmetric_latex(truncations, **kwargs):
    only_ground_state = kwargs['only_ground_state']
    remove_f_terms = kwargs['remove_f_terms']
    path = kwargs['path']
    lhs_rhs_flag = kwargs['lhs_rhs']
    _verify_eT_z_t_truncations(truncations)
    maximum_h_rank = truncations[tkeys.H]
    maximum_cc_rank = truncations[tkeys.CC]
    maximum_T_rank = truncations[tkeys.T]
    eT_taylor_max_order = truncations[tkeys.eT]
    omega_max_order = truncations[tkeys.P]
    master_omega = generate_omega_operator(maximum_cc_rank, omega_max_order)
    H = generate_pruned_H_operator(maximum_h_rank)
    Z = generate_z_operator(maximum_cc_rank, only_ground_state)
    eT_taylor_expansion = generate_eT_taylor_expansion(maximum_T_rank, eT_taylor_max_order)
    latex_code = ''
    rank_name_list = ['0 order', 'LINEAR', 'QUADRATIC', 'CUBIC', 'QUARTIC', 'QUINTIC', 'SEXTIC', 'SEPTIC', 'OCTIC']
    for i, omega_term in enumerate(master_omega.operator_list):
        if False and omega_term.rank not in [1]:
            continue
        if omega_term.m > 0:
            continue
        rank_name = rank_name_list[omega_term.rank]
        if omega_term.rank > master_omega.operator_list[i - 1].rank:
            latex_code += f'\\paragraph{{{rank_name.capitalize()} Equations}}\n\n'
        else:
            latex_code += '\\vspace{2cm}'

        def _generate_t_lhs(omega):
            upper_label = summation_indices[0:omega.n]
            lower_label = summation_indices[omega.n:omega.rank]
            lower_label += '\\gamma' if lower_label == '' else ',\\gamma'
            t_term_latex = f'\\hat{{{bold_t_latex}}}^{{{upper_label}}}_{{{lower_label}}}'
            derivative_latex = f'i\\dv{{{t_term_latex}}}{{\\tau}}'
            return derivative_latex

        def _wrap_t_latex(omega, lhs):
            omega_string = ''
            for i, char in enumerate(omega.name):
                if char == 'd':
                    omega_string += f'\\up{{{summation_indices[i]}}}'
                elif char == 'b':
                    omega_string += f'\\down{{{summation_indices[i]}}}'
            omega_string = '1' if omega_string == '' else omega_string
            g_upper_label = f'{summation_indices[0:omega.n]}' if omega.n > 0 else ''
            g_lower_label = f'{summation_indices[omega.n:omega.rank]}' if omega.m > 0 else ''
            g_lower_label += '\\gamma\\gamma' if g_lower_label == '' else ', \\gamma\\gamma'
            g_string = f'\\hat{{G}}^{{{g_upper_label}}}_{{{g_lower_label}}}'
            return f'\\begin{{equation}}\n{tab}\\hat{{\\Omega}} = {omega_string}\n\\qquad\\qquad\n{tab}{lhs} = {g_string}\n\\end{{equation}}\n\n'
        if True:
            lhs_string = _generate_t_lhs(omega_term)
            latex_code += '%\n%\n%\n%\n%\n\n'
            latex_code += _wrap_t_latex(omega_term, lhs_string)

        def _wrap_z_align_environment(lhs, eqns):
            if lhs_rhs_flag == 'RHS':
                string = f'\\begin{{align}}\\begin{{split}}\nLHS &=\n{tab}{lhs}\n\\\\ RHS &=\n%\n%\n{eqns}\n\\end{{split}}\\end{{align}}\n\n'
            elif lhs_rhs_flag == 'LHS':
                string = f'\\begin{{align}}\\begin{{split}}\nLHS &=\n%\n%\n{eqns}\n\\end{{split}}\\end{{align}}\n\n'
            return string

        def _generate_z_lhs(omega):
            upper_label = summation_indices[0:omega.rank]
            z_term_latex = f'\\hat{{{bold_z_latex}}}^{{{upper_label}}}_{{\\gamma}}'
            derivative_latex = f'i\\Big(\\dv{{{z_term_latex}}}{{\\tau}}\\Big)'
            return derivative_latex
        if True:
            lhs_string = _generate_z_lhs(omega_term)
            equations_string = _generate_eT_z_symmetric_latex_equations(omega_term, eT_taylor_expansion, H, Z, lhs_rhs_flag, only_ground_state, remove_f_terms)
            latex_code += '%\n%\n%\n%\n%\n\n'
            latex_code += _wrap_z_align_environment(lhs_string, equations_string)
    if only_ground_state:
        header = headers.ground_state_z_t_symmetric_latex_header
    else:
        header = headers.full_z_t_symmetric_latex_header
    header += '\\textbf{Note that all terms with a $f$ prefactor have been removed}\n' if remove_f_terms else ''
    with open(path, 'w') as fp:
        fp.write(header + latex_code + '\\end{document}')
    return
