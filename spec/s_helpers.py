"""Specification functions: partitions, permutations, banners."""
import itertools as it
from helper_funcs import _partitions
from common_imports import tab


@spec('helper_funcs.unique_permutations', props='P18 P01 P13 P12')
def distinct_orders(iterable: 'nats'):
    return sorted(list(set(it.permutations(iterable))))


@spec('helper_funcs._partitions', props='P18 P19', opaque={'helper_funcs._partitions': 'parts'})
def partitions_from_smaller(number: 'pos'):
    """n itself, or a part x and a partition of the rest"""
    found = set([(number,)])
    for x in range(1, number):
        for y in _partitions(number - x):
            found.add(tuple(sorted((x,) + y, reverse=True)))
    return sorted(list(found), reverse=True)


@spec('helper_funcs.generate_partitions_of_n', props='P18 P19', opaque={'helper_funcs._partitions': 'parts1'})
def all_partitions(n: 'pos'):
    return _partitions(n)


@spec('helper_funcs.generate_mixed_partitions_of_n', props='P18 P19', opaque={'helper_funcs._partitions': 'parts1'})
def mixed_partitions(n: 'pos'):
    """one part of any size, the others 1"""
    return [p for p in _partitions(n) if len(p) == n - max(p) + 1]


@spec('helper_funcs.genereate_connected_partitions_of_n', props='P18')
def connected_partition(n: 'pos'):
    return tuple([1] * n)


@spec('helper_funcs.generate_linked_disconnected_partitions_of_n', props='P18 P19', opaque={'helper_funcs._partitions': 'parts1'})
def linked_partitions(n: 'pos'):
    return [p for p in _partitions(n) if len(p) == n - max(p) + 1 and max(p) < n]


@spec('helper_funcs.generate_un_linked_disconnected_partitions_of_n', props='P18 P19', opaque={'helper_funcs._partitions': 'parts1'})
def unlinked_partitions(n: 'pos'):
    mixed = [p for p in _partitions(n) if len(p) == n - max(p) + 1]
    return sorted(list(set(_partitions(n)) - set(mixed)), reverse=True)


@spec('helper_funcs.named_line', props='P18 P11')
def banner(name: 'str', width: 'nat'):
    return "# " + "-" * width + " " + name + " " + "-" * width + " #"


@spec('helper_funcs.spaced_named_line', props='P18 P11')
def spaced_banner(name: 'str', width: 'nat', spacing_line: 'str'):
    return spacing_line + "# " + "-" * width + " " + name + " " + "-" * width + " #" + "\n" + spacing_line


@spec('helper_funcs.spaced_named_line', props='P18 P11')
def spaced_banner_default(name: 'str'):
    line = "# " + "-" * 75 + " #\n"
    return line + "# " + "-" * 28 + " " + name + " " + "-" * 28 + " #" + "\n" + line


@spec('helper_funcs.long_spaced_named_line', props='P18 P11')
def long_banner_default(name: 'str'):
    line = "# " + "-" * 109 + " #\n"
    return line + "# " + "-" * 45 + " " + name + " " + "-" * 45 + " #" + "\n" + line


@spec('helper_funcs.long_spaced_named_line', props='P18 P11')
def long_banner(name: 'str', width: 'nat'):
    line = "# " + "-" * 109 + " #\n"
    return line + "# " + "-" * width + " " + name + " " + "-" * width + " #" + "\n" + line


@spec('helper_funcs.build_symmetrizing_function', props='P11 P19 P18')
def symmetrizer(max_order: 'small', show_perm: ('const', False)):
    out = (f"\ndef symmetrize_tensor(tensor, order):\n"
           f"{tab}'''Symmetrizing a tensor (the W operator or the residual) by tracing over all permutations.'''\n"
           f"{tab}X = np.zeros_like(tensor, dtype=complex)\n"
           f"{tab}if order == 0:\n{tab}{tab}return tensor\n{tab}if order == 1:\n{tab}{tab}return tensor\n")
    for n in range(2, max_order + 1):
        out += f"{tab}if order == {n}:\n" + "".join([f"{tab}{tab}X += np.transpose(tensor, {(0, 1) + p})\n" for p in it.permutations(range(2, n + 2))])
    return out + f"{tab}return X\n"
