"""Reference definitions for latex_w_equations (see DESIGN.md)."""
import os
import itertools as it
from collections import namedtuple
from latex_defines import *
from common_imports import tab
import reference_latex_headers as headers
from namedtuple_defines import t_namedtuple_latex, w_namedtuple_latex
from helper_funcs import generate_partitions_of_n


def remove_list_item(i, lst):
    return list((item for item in lst if item != i))


def count_items(lis):
    result = {}
    while lis != []:
        result[lis[0]] = lis.count(lis[0])
        lis = remove_list_item(lis[0], lis)
    return result


def generate_w_prefactor(w_dict):
    result = '\\frac{1}{'
    for k in w_dict.keys():
        if w_dict[k] == 1:
            continue
        else:
            result += f'{w_dict[k]}!*'
    if result[-1] == '{':
        return ''
    else:
        result = result[:-1] + '}'
    return result


def generate_labels_on_w(order, is_excited=True):
    start = list(range(1, order + 1))
    result = []
    list_w = []
    for n in start:
        list_w.append([n, 0])
        if n == 1 or not is_excited:
            continue
        else:
            for i in range(n - 1, 0, -1):
                list_w.append([i, n - i])
    list_w = sorted(list_w, key=sum)
    for two in list_w:
        result.append(w_namedtuple_latex(two[0], two[1]))
    return result


def ground_state_w_equations_latex(max_w_order, path='./ground_state_w_equations.tex'):
    latex_code = f'The maximum rank of W operator is: {max_w_order}. The valid W operators are as follows:\n\n'
    w_dict = {}
    spacer = '\n' + '\\\\' + '\n'
    w_dict = {n: generate_partitions_of_n(n) for n in range(1, max_w_order + 1)}
    for v in w_dict.values():
        v.reverse()
    latex_code = '\\begin{align}' + '\n'
    latex_code += f'{tab}\\bW^{{0}} &= 1'
    for key in w_dict.keys():
        latex_code += f'{spacer}{tab}\\bW^{{{key}}} &= '
        terms = []
        for sub in w_dict[key]:
            item_dict = count_items(list(sub))
            prefactor = generate_w_prefactor(item_dict)
            line = prefactor
            for n in item_dict.keys():
                if item_dict[n] == 1:
                    line += f'\\bt^{{{n}}}'
                else:
                    line += f'(\\bt^{{{n}}})^{item_dict[n]}'
            terms.append(line)
        line = ' + '.join(terms)
        if key > 1:
            line = '\\hat{S}(' + line + ')'
        latex_code += line
    latex_code += '\n\\end{align}\n'
    header = headers.w_equations_latex_header
    with open(path, 'w') as fp:
        fp.write(header + latex_code + '\\end{document}')
    return latex_code


def generate_t_terms_group(w_ntuple):
    omega_order = w_ntuple.m + w_ntuple.n
    if omega_order == 0:
        return 'i\\left(\\varepsilon\\right)'
    single_t_list = [[m, n] for m in range(0, omega_order + 1) for n in range(0, omega_order + 1) if n == m != 0 or n != m]
    all_combinations_list = []
    for length in range(1, omega_order + 1):
        all_combinations_list.append(list(it.product(single_t_list, repeat=length)))
    matched_set = set()
    for list_of_t_terms in all_combinations_list:
        for t_terms in list_of_t_terms:
            upper_sum = sum([t[0] for t in t_terms])
            lower_sum = sum([t[1] for t in t_terms])
            if w_ntuple.n == lower_sum and w_ntuple.m == upper_sum:
                matched_set.add(tuple(sorted([tuple(x) for x in t_terms], reverse=True)))
    sorted_list = sorted([[b for b in a] for a in matched_set], key=len)
    return sorted_list


def excited_state_w_equations_latex(max_w_order, path='./thermal_w_equations.tex'):
    latex_code = 'These are the W operators in full VECC.\\\\\n%'
    w_lable = generate_labels_on_w(max_w_order, is_excited=True)
    w_dict = {}
    for w in w_lable:
        g = generate_t_terms_group(w)
        g.reverse()
        w_dict[w.m, w.n] = g
    latex_code += f'\nThe maximum rank of W operator is: {max_w_order}\\\\ \n\n\\begin{{equation}}\n\n'
    latex_code += f'{tab}\\textbf{{W}}^{0} = 1 \\\\'
    latex_code += '\n\n'
    for key in w_dict.keys():
        if key[0] == 1 and key[1] == 0:
            latex_code += f'{tab}\\textbf{{W}}^{1} = \\bt^{1} \\\\'
            latex_code += '\n\n'
            continue
        if key[1] == 0:
            latex_code += f'{tab}\\textbf{{W}}^{{{key[0]}}} = \\hat{{S}}('
        else:
            latex_code += f'{tab}\\textbf{{W}}^{{{key[0]}}}_{{{key[1]}}} = \\hat{{S}}('
        for sub in w_dict[key]:
            if len(sub) == 1 and sub[0][1] != 0:
                continue
            item_dict = count_items(list(sub))
            prefactor = generate_w_prefactor(item_dict)
            latex_code += prefactor
            for n in item_dict.keys():
                power = ''
                if item_dict[n] == 1:
                    power = ''
                else:
                    latex_code += '('
                    power += f')^{item_dict[n]}'
                if n[0] == 0:
                    latex_code += f'\\bt_{{{n[1]}}}'
                elif n[1] == 0:
                    latex_code += f'\\bt^{{{n[0]}}}'
                else:
                    latex_code += f'\\bt^{{{n[0]}}}_{{{n[1]}}}'
                latex_code += power
            latex_code += ' + '
        latex_code = latex_code[:-3] + ')\\\\ \n\n'
    latex_code += '\\end{equation}\n'
    with open(path, 'w') as fp:
        fp.write(latex_code)
    return


def excited_state_w_equations_latex_on_old_lines(max_w_order, path='./thermal_w_equations.tex'):
    """recorded finding: the first 29 lines of an existing file are kept in front of the new text"""
    latex_code = 'These are the W operators in full VECC.\\\\\n%'
    w_lable = generate_labels_on_w(max_w_order, is_excited=True)
    w_dict = {}
    for w in w_lable:
        g = generate_t_terms_group(w)
        g.reverse()
        w_dict[w.m, w.n] = g
    latex_code += f'\nThe maximum rank of W operator is: {max_w_order}\\\\ \n\n\\begin{{equation}}\n\n'
    latex_code += f'{tab}\\textbf{{W}}^{0} = 1 \\\\'
    latex_code += '\n\n'
    for key in w_dict.keys():
        if key[0] == 1 and key[1] == 0:
            latex_code += f'{tab}\\textbf{{W}}^{1} = \\bt^{1} \\\\'
            latex_code += '\n\n'
            continue
        if key[1] == 0:
            latex_code += f'{tab}\\textbf{{W}}^{{{key[0]}}} = \\hat{{S}}('
        else:
            latex_code += f'{tab}\\textbf{{W}}^{{{key[0]}}}_{{{key[1]}}} = \\hat{{S}}('
        for sub in w_dict[key]:
            if len(sub) == 1 and sub[0][1] != 0:
                continue
            item_dict = count_items(list(sub))
            prefactor = generate_w_prefactor(item_dict)
            latex_code += prefactor
            for n in item_dict.keys():
                power = ''
                if item_dict[n] == 1:
                    power = ''
                else:
                    latex_code += '('
                    power += f')^{item_dict[n]}'
                if n[0] == 0:
                    latex_code += f'\\bt_{{{n[1]}}}'
                elif n[1] == 0:
                    latex_code += f'\\bt^{{{n[0]}}}'
                else:
                    latex_code += f'\\bt^{{{n[0]}}}_{{{n[1]}}}'
                latex_code += power
            latex_code += ' + '
        latex_code = latex_code[:-3] + ')\\\\ \n\n'
    latex_code += '\\end{equation}\n'
    if os.path.isfile(path):
        with open(path, 'r') as fp:
            file_contents = fp.readlines()
        header = ''.join(file_contents[0:29])
        with open(path, 'w') as fp:
            fp.write(header + latex_code + '\\end{document}')
    else:
        with open(path, 'w') as fp:
            fp.write(latex_code)
    return
