"""Reference definitions for helper_funcs (see DESIGN.md)."""
import itertools as it
from common_imports import tab, old_print_wrapper


def unique_permutations(iterable):
    return sorted(list(set(it.permutations(iterable))))


def build_symmetrizing_function(max_order=5, show_perm=False):
    string = ''
    string += f"\ndef symmetrize_tensor(tensor, order):\n{tab}'''Symmetrizing a tensor (the W operator or the residual) by tracing over all permutations.'''\n{tab}X = np.zeros_like(tensor, dtype=complex)\n"
    string += f'{tab}if order == 0:\n{tab}{tab}return tensor\n{tab}if order == 1:\n{tab}{tab}return tensor\n'
    for n in range(2, max_order + 1):
        string += f'{tab}if order == {n}:\n'
        for p in it.permutations(range(2, n + 2)):
            string += f'{tab}{tab}X += np.transpose(tensor, {(0, 1) + p})\n'
    string += f'{tab}return X\n'
    return string


def print_residual_data(R_lists, term_lists, print_equations=False, print_tuples=False):
    if print_equations:
        for i, R in enumerate(R_lists):
            for a in R:
                pass
    if print_tuples:
        for i, terms in enumerate(term_lists):
            for term in terms:
                pass
    return


def _partitions(number):
    answer = set()
    answer.add((number,))
    for x in range(1, number):
        for y in _partitions(number - x):
            answer.add(tuple(sorted((x,) + y, reverse=True)))
    return sorted(list(answer), reverse=True)


def generate_partitions_of_n(n):
    return _partitions(n)


def generate_mixed_partitions_of_n(n):
    return [p for p in _partitions(n) if n - max(p) + 1 == len(p)]


def genereate_connected_partitions_of_n(n):
    return tuple([1] * n)


def generate_linked_disconnected_partitions_of_n(n):
    return [p for p in _partitions(n) if n - max(p) + 1 == len(p) and max(p) < n]


def generate_un_linked_disconnected_partitions_of_n(n):
    new_set = set(_partitions(n)) - set(generate_mixed_partitions_of_n(n))
    return sorted(list(new_set), reverse=True)


def named_line(name, width):
    return '# ' + '-' * width + f' {name} ' + '-' * width + ' #'


def spaced_named_line(name, width=28, spacing_line=f'# {'-' * 75} #\n'):
    return spacing_line + named_line(name, width) + '\n' + spacing_line


def long_spaced_named_line(name, width=45, large_spacing_line=f'# {'-' * 109} #\n'):
    return spaced_named_line(name, width, spacing_line=large_spacing_line)
