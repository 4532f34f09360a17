"""Reference definitions for code_residual_equations (see DESIGN.md)."""
from collections import namedtuple
import math
import numpy as np
import code_import_statements_module
from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple, h_namedtuple, w_namedtuple
from helper_funcs import print_residual_data
from code_w_equations import taylor_series_order_tag
from common_imports import tab, old_print_wrapper
class residual_term(namedtuple('residual_term', ['prefactor', 'h', 'w'])):
    __slots__ = ()

    def __eq__(self, other_term):
        return bool(self.prefactor == other_term.prefactor and np.array_equal(self.h, other_term.h) and np.array_equal(self.w, other_term.w))


def generate_hamiltonian_operator(maximum_h_rank=2):
    return_list = []
    for m in range(maximum_h_rank + 1):
        for n in range(maximum_h_rank + 1 - m):
            if m == 0 and n == 0:
                h_operator = general_operator_namedtuple('h_0', 0, 0, 0)
            elif m == 0:
                h_operator = general_operator_namedtuple(f'h_{n}', 0 + n, 0, n)
            elif n == 0:
                h_operator = general_operator_namedtuple(f'h^{m}', m + 0, m, 0)
            else:
                h_operator = general_operator_namedtuple(f'h^{m}_{n}', m + n, m, n)
            return_list.append(h_operator)
    return hamiltonian_namedtuple(maximum_h_rank, return_list)


def extract_numerator_denominator_from_string(s):
    if '*' in s:
        s = s.split('*')[0]
    numer, denom = s.replace('(', '').replace(')', '').split(sep='/')
    denom = denom.split(sep='!')[0]
    return [int(numer), int(denom)]


def simplified_prefactor(pre):
    arr = extract_numerator_denominator_from_string(pre)
    numerator, denominator = (arr[0], arr[1])
    if pre == '*(1/2)':
        pre = '1/2'
    elif denominator == numerator:
        if '*(1/2)' in pre:
            if denominator == 1 or denominator == 2:
                pre = '(1/2)'
            else:
                pre = f'({numerator}/(2*{denominator}))'
        elif denominator == 1 or denominator == 2:
            pre = ''
    elif '*(1/2)' in pre:
        if numerator % 2 == 0:
            pre[0] = str(numerator // 2)
            pre = pre[:-6]
        else:
            pre = pre[:3] + '(2*' + pre[3:-6] + ')'
    return pre


def construct_prefactor(h, p, simplify_flag=False):
    if h.m > p:
        return ''
    prefactor = ''
    i_number_w = p - h.m
    total_number_w = p - h.m + h.n
    if total_number_w == 0:
        if h.m == 2:
            return '(1/2)'
        else:
            return ''
    if i_number_w == 1 or h.n == 1:
        prefactor = f'({total_number_w}/{total_number_w}!)'
    elif h.n > 1 and i_number_w > 1:
        prefactor += f'({sum((x for x in range(total_number_w)))}/{total_number_w}!)'
    elif h.n == 0 or i_number_w == 0:
        prefactor += f'(1/{total_number_w}!)'
    if h.m == 2:
        prefactor += '*(1/2)'
    if simplify_flag:
        prefactor = simplified_prefactor(prefactor)
    return prefactor


def construct_upper_w_label(h, p):
    if h.m == p and h.n == 0 or h.m > p:
        return ''
    w_label = '^{'
    for a in range(h.m + 1, p + 1):
        w_label += f'i_{a},'
    for b in range(1, h.n + 1):
        w_label += f'k_{b},'
    assert w_label != '^{', 'Whoops you missed a case, check the logic!!!'
    w_label = w_label[:-1] + '}'
    return w_label


def construct_upper_h_label(h, p):
    if h.m == 0 or h.m > p:
        return ''
    upper_h_result = '^{'
    for c in range(1, h.m + 1):
        upper_h_result += f'i_{c},'
    upper_h_result = upper_h_result[:-1] + '}'
    return upper_h_result


def construct_lower_h_label(h, p):
    if h.m == 0 and h.n == 0:
        return '_0'
    if h.n == 0 or h.m > p:
        return ''
    lower_h_result = '_{'
    for d in range(1, h.n + 1):
        lower_h_result += f'k_{d},'
    lower_h_result = lower_h_result[:-1] + '}'
    return lower_h_result


def generate_p_term(str_fac):
    if str_fac == '':
        return '1.0'
    if str_fac == '(1/2) * ':
        return '0.5'
    arr = extract_numerator_denominator_from_string(str_fac)
    numerator, denominator = (arr[0], arr[1])
    if '/(2*' in str_fac:
        return '(' + str(numerator) + '/(2*' + str(math.factorial(denominator)) + '))'
    else:
        return '(' + str(numerator) + '/' + str(math.factorial(denominator)) + ')'


def generate_h_term(str_h):
    if '0' in str_h:
        return h_namedtuple(0, 0)
    return h_namedtuple(str_h.count('i'), str_h.count('k'))


def generate_w_term(str_w):
    if str_w == '':
        return w_namedtuple(0, 0, 0)
    max_i = str_w.count('i')
    max_k = str_w.count('k')
    return w_namedtuple(max_i, max_k, max_i + max_k)


def generate_residual_string_list(hamiltonian, order):
    return_list = []
    term_list = []
    for h_operator in hamiltonian:
        h_result, w_result, prefactor = ('h', 'w', '')
        h_result += construct_upper_h_label(h_operator, order)
        h_result += construct_lower_h_label(h_operator, order)
        w_result += construct_upper_w_label(h_operator, order)
        prefactor = construct_prefactor(h_operator, order, True)
        if h_result == 'h':
            continue
        term_list += [residual_term(generate_p_term(prefactor), generate_h_term(h_result), generate_w_term(w_result))]
        w_result = '' if w_result == 'w' else ' * ' + w_result
        if not prefactor == '':
            prefactor = prefactor + ' * '
        return_list += [prefactor + h_result + w_result]
    return (return_list, term_list)


def generate_residual_data(H, max_order):
    lst = [tuple(generate_residual_string_list(H, order=order)) for order in range(max_order + 1)]
    R_lists = [tup[0] for tup in lst]
    term_lists = [tup[1] for tup in lst]
    return (R_lists, term_lists)
h_dict = {(0, 0): 'h_ab', (0, 1): 'h_abI', (1, 0): 'h_abi', (1, 1): 'h_abIj', (0, 2): 'h_abIJ', (2, 0): 'h_abij'}
w_dict = {1: 'w_i', 2: 'w_ij', 3: 'w_ijk', 4: 'w_ijkl', 5: 'w_ijklm', 6: 'w_ijklmn', 7: 'w_ijklmno', 8: 'w_ijklmnop'}
i_list = ['i', 'j', 'k', 'l', 'o', 'p', 'q', 'r']
k_list = ['m', 'n']


def _generate_einsum_h_indices(term):
    h_dims = 'ac'
    h_dims += ''.join(k_list[0:term.h.max_k])
    h_dims += ''.join(i_list[0:term.h.max_i])
    return h_dims


def _generate_einsum_w_indices(term):
    w_dims = 'cb'
    w_dims += ''.join(k_list[0:term.w.max_k])
    w_dims += ''.join(i_list[term.h.max_i:term.h.max_i + term.w.max_i])
    return w_dims


def _generate_einsum_ouput_indices(term):
    return 'ab' + ''.join(i_list[0:term.h.max_i + term.w.max_i])


def _residual_terms_einsum(term, suppress_1_prefactor=True):
    if suppress_1_prefactor and term.prefactor == 1.0:
        prefactor = ''
    else:
        prefactor = str(term.prefactor) + ' * '
    h = h_dict[term.h.max_i, term.h.max_k]
    if term.w.order == 0:
        return f'R += {prefactor}{h}\n'
    w = w_dict[term.w.order]
    h_dims = _generate_einsum_h_indices(term)
    w_dims = _generate_einsum_w_indices(term)
    out_dims = _generate_einsum_ouput_indices(term)
    return f"R += {prefactor}np.einsum('{h_dims},{w_dims}->{out_dims}', {h}, {w})\n"


def _same_w_order_term_list(current_term, term_list):
    return [term for term in term_list if term.w.order == current_term.w.order]


def write_residual_function_string(residual_terms_list, order):
    string = ''
    w_args_string = ', '.join([w_dict[n] for n in range(1, order + 3)] + ['*unusedargs'])
    string += f'\ndef calculate_order_{order}_residual(A, N, truncation, h_args, w_args):\n{tab}"""Calculate the {order} order residual as a function of the W operators."""\n{tab}h_ab, h_abI, h_abi, h_abIj, h_abIJ, h_abij = h_args\n{tab}{w_args_string} = w_args\n\n{tab}R = np.zeros(({', '.join(['A', 'A'] + ['N'] * order)}), dtype=complex)\n'
    if order <= 1:
        assertion_check = f'truncation.{taylor_series_order_tag[1]}'
    else:
        assertion_check = f'truncation.{taylor_series_order_tag[order]}'
    string += f'\n{tab}assert {assertion_check}, \\\n{tab}{tab}f"Cannot calculate order {order} residual for {{truncation.cc_truncation_order}}"\n'
    quadratic_terms = [term for term in residual_terms_list if term.h.max_i >= 2 or term.h.max_k >= 2]
    already_printed_list = []
    for term in residual_terms_list:
        if term in already_printed_list:
            continue
        string += '\n'
        if term.w.order == 0 or term.w.order == 1:
            already_printed_list.append(term)
            string += f'{tab}' + _residual_terms_einsum(term)
        elif term.h.max_i >= 2 or term.h.max_k >= 2:
            string += f'{tab}if truncation.quadratic:\n'
            for quad_term in quadratic_terms:
                already_printed_list.append(quad_term)
                if bool(quad_term.w.order >= 2):
                    string += f'{tab}{tab}if {w_dict[quad_term.w.order]} is not None:\n{tab}{tab}{tab}' + _residual_terms_einsum(quad_term)
                else:
                    string += f'{tab}{tab}else:\n{tab}{tab}{tab}' + _residual_terms_einsum(quad_term)
        elif bool(term.w.order >= 2):
            string += f'{tab}if {w_dict[term.w.order]} is not None:\n'
            for same_w_term in _same_w_order_term_list(term, residual_terms_list):
                already_printed_list.append(same_w_term)
                string += f'{tab}{tab}' + _residual_terms_einsum(same_w_term)
        else:
            raise Exception("We shouldn't reach this else!")
    string += f'\n{tab}return R'
    return string


def generate_python_code_for_residual_functions(term_lists, max_order):
    lst = [write_residual_function_string(term_lists[order], order=order) for order in range(max_order + 1)]
    return '\n\n'.join(lst)


def generate_residual_equations_file(max_residual_order, maximum_h_rank, path='./residual_equations.py'):
    H = generate_hamiltonian_operator(maximum_h_rank)
    for h in H.operator_list:
        pass
    R_lists, term_lists = generate_residual_data(H.operator_list, max_order=max_residual_order)
    print_residual_data(R_lists, term_lists, print_equations=False, print_tuples=False)
    file_data = code_import_statements_module.residual_equations_import_statements
    file_data += generate_python_code_for_residual_functions(term_lists, max_order=max_residual_order)
    file_data += '\n'
    with open(path, 'w') as fp:
        fp.write(file_data)
    return
