"""Reference definitions for common_imports (see DESIGN.md)."""
tab_length = 4
tab = ' ' * tab_length


def old_print_wrapper(*args, **kwargs):
    if 'suppress_print' not in kwargs:
        kwargs['suppress_print'] = True
    if not kwargs['suppress_print']:
        del kwargs['suppress_print']
summation_indices = 'ijklmnopqr'
unlinked_indices = 'zyxwvuts'
z_summation_indices = 'klmnopqr'
z_unlinked_indices = 'yxwvuts'
