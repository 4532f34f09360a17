#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; not part of a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

F = {k: f'termfactory/{k}.py' for k in (
    '_glue_ driver truncations truncation_keys helper_funcs latex_full_cc latex_zhz latex_eT_zhz latex_w_equations code_full_cc code_eT_zhz '
    'code_residual_equations code_w_equations code_dt_equations code_import_statements_module namedtuple_defines latex_defines '
    'reference_latex_headers common_imports log_conf').split()}

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': [F.get(x, x) for x in files.split()], 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'observe_at': observe or ['the generated .py / .tex file', 'the returned string']}, _reason=reason))


prop('P01', 'The generated text depends on nothing but the request',
     'For the same truncations, ansatz and options the generated LaTeX or Python file is byte for byte the same on every run. '
     'No term, prefactor or line may depend on hash seeds, iteration order of unordered collections, the clock, the environment, memory addresses or the previous contents of the output file.',
     ['inputs', 'configurations', 'histories'], 'every request, in every interpreter process and hash seed',
     'A test compares one run with one stored reference under one hash seed; order dependence that agrees on that seed is invisible.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations helper_funcs',
     [('sorted() around every set of permutations or prefactor pieces', 'helper_funcs.unique_permutations, *_simplify_*_prefactor'), ('lists, not sets, carry the terms', 'all generators')])
prop('P02', 'Generating one set of equations does not influence another',
     'The text produced for a request is the same whatever was generated earlier in the same process. '
     'Generation leaves the truncations, options, operator lists and term lists supplied by the caller, and every shared table, as they were.',
     ['histories', 'inputs'], 'every sequence of requests and helper calls in one process',
     'Tests call each function once with fresh fixtures; leaking state needs two calls in a particular order.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz code_w_equations code_dt_equations truncations truncation_keys _glue_ latex_defines',
     [('no module-level state is written', 'all modules'), ('copies before in-place edits', 'truncations._verify_*, _save_to_JSON; prepare_condensed_terms')])
prop('P03', 'Invalid truncations are rejected before anything is written',
     'Every generator that takes truncations refuses (with an error) a request that is empty, lacks one of the keys its ansatz needs, has an unknown key, or has a value below one or above its documented maximum. '
     'The refusal happens before any output is produced, and every request inside the bounds is accepted.',
     ['inputs', 'configurations'], 'every truncation dictionary', 'Tests try a handful of bad dictionaries on the verifier only, not every generator times every key times every bound.',
     'truncations truncation_keys latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz',
     [('_verify_*_truncations', 'truncations.py'), ('the call at the top of each generate_* entry point', 'generate_full_cc_latex, generate_z_t_symmetric_latex, ...')], ['the raised exception', 'the file system'])
prop('P04', 'Each request reaches the generator, options and file name it asks for',
     'The ansatz, output kind, side, ground/excited choice and f-term choice of a request select exactly the matching generator, reach it unchanged (defaults filled in for what is omitted), and determine the documented output file name. '
     'A truncation dictionary of another ansatz, or an unknown ansatz, is an error.',
     ['configurations', 'inputs'], 'every combination of ansatz, output kind and options', 'Tests stub out single combinations.',
     '_glue_ truncation_keys', [('_generate_latex / _generate_python dispatch', '_glue_.py'), ('_gen_wrapper_* file names', '_glue_.py'), ('key_list_type', 'truncation_keys.py')], ['the file that appears', 'the raised exception'])
prop('P05', 'A generator writes exactly the requested file, completely',
     'A successful generation overwrites the file at the requested path with exactly the generated text, and nothing else: old contents never survive in part and no other file is created or changed by it. '
     'The file holds header, every equation and footer in order.',
     ['inputs', 'configurations', 'histories'], 'every path and every previous file content', 'Tests write to fresh temporary paths.',
     'latex_full_cc latex_zhz latex_eT_zhz latex_w_equations code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations truncations',
     [("open(path, 'w') … write(whole text)", 'generate_* functions')], ['the file system'])
prop('P06', 'Only the allowed products of operators become terms, and all of them do',
     'A product of projection operator, Hamiltonian term and cluster/excitation operators is kept as a term of the equation exactly when the selection rules allow it: creation and annihilation legs balance, each operator can be fully contracted, and the joining requirements of the ansatz hold. '
     'Allowed products are never filtered out and forbidden ones never kept.',
     ['inputs'], 'every product of operators of every rank', 'Tests check small truncations against stored lists; higher ranks and mixed operators are never enumerated.',
     'latex_full_cc latex_zhz latex_eT_zhz',
     [('_filter_out_valid_*_terms, _validate_s_terms, _seperate_s_terms_by_connection', 'latex_full_cc.py'), ('_z_joining_with_z_terms, _t_joining_with_t_terms, _omega/_h_joining_with_itself', 'latex_full_cc.py, latex_zhz.py, latex_eT_zhz.py')])
prop('P08', 'Every contraction pattern is enumerated once and its legs add up',
     'For an allowed product the generator lists every distinct way of connecting the legs exactly once. '
     'In each listed pattern the number of legs one operator assigns to another equals the number assigned back, every leg of every operator is used exactly once, and no operator uses more legs than it has.',
     ['inputs'], 'every allowed product of operators', 'The stored references cover low ranks, where most patterns coincide.',
     'latex_full_cc latex_zhz latex_eT_zhz',
     [('_generate_valid_*_operator_permutations, _generate_all_*_connection_permutations, _generate_explicit_*connections, _remove_duplicate_*', 'latex_full_cc.py, latex_zhz.py, latex_eT_zhz.py')])
prop('P09', 'Index labels pair the legs that are contracted and no others',
     'In every generated term each pair of contracted legs carries the same summation label, different pairs carry different labels, legs left open carry the external labels, and no label is used for two different legs pairs of one term. '
     'There are always enough labels for the requested truncation.',
     ['inputs'], 'every term of every equation', 'Labels collide only in terms with several contracted operators of particular ranks; few appear in the references.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations latex_defines',
     [('_build_*_labels, running offsets into the label alphabets', 'latex_*.py, code_*.py'), ('summation_indices, unlinked_indices, z_summation_indices', 'latex_defines.py')])
prop('P10', 'Generated LaTeX is well formed',
     'Every generated LaTeX document compiles structurally: braces, \\left/\\right brackets and environments are balanced in every equation however long it is and wherever it is split, and alignment and line-break markers occur only where the environment allows them. '
     'The document has the header and the end the ansatz needs.',
     ['inputs', 'configurations'], 'every request, equation length and split', 'No test runs LaTeX; the stored references only cover short equations.',
     'latex_full_cc latex_zhz latex_eT_zhz latex_w_equations reference_latex_headers',
     [('split/join logic of _make_latex, _prepare_*_z_latex, _prepare_third_eTz_latex', 'latex_*.py'), ('_wrap_align_environment', 'latex_full_cc.py'), ('headers', 'reference_latex_headers.py')])
prop('P11', 'Generated Python is a closed, well-formed program',
     'Every generated Python file parses; each function it calls is one it defines or imports, with matching parameters; each einsum has as many operands as subscript groups and its subscripts match the operands and the array it is added to. '
     'Indentation nests as the emitted control flow requires for every truncation and option.',
     ['inputs', 'configurations'], 'every request', 'Tests compare text with stored references; nothing parses or runs files at other truncations.',
     'code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations code_import_statements_module helper_funcs',
     [('emitted def / call names', 'code_*.py'), ('emitted einsum subscripts and operands', '_write_*_einsum*, _residual_terms_einsum, _w_einsum_list'), ('tab levels', 'code_*.py')])
prop('P12', 'Every derived term is written exactly once',
     'Each term that survives the selection and contraction steps appears in the output exactly once, in the equation of its projection operator: splitting over lines, grouping by prefactor, condensing and collecting never lose, repeat or move a term. '
     'Each projection operator, Hamiltonian term and order within the truncation contributes.',
     ['inputs', 'configurations'], 'every number of terms and every grouping', 'Loss or repetition shows only for particular counts of terms per line or prefactor.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz latex_w_equations',
     [('loops over operators and terms', '_generate_*_equations, _generate_*_einsums'), ('line splitting', '_make_latex, _prepare_*_latex'), ('grouping by prefactor', '_handle_multiline_same_prefactor')])
prop('P13', 'Prefactors count the equivalent contractions',
     'The numerical prefactor of every term is the one its contraction pattern demands: the factorials of external and internal permutations, of repeated operators and of the Taylor expansion, reduced without changing the value, and one common value in the LaTeX and Python output. '
     'Cancelling factors never drops or doubles a factor.',
     ['inputs'], 'every contraction pattern', 'The references cover patterns with small factorials where errors cancel.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations',
     [('_build_*_prefactor, _simplify_*_prefactor', 'latex_*.py, code_*.py'), ('_generate_w_operator_prefactor, construct_prefactor', 'code_w_equations.py, code_residual_equations.py')])
prop('P14', 'Plain and optimised code say the same',
     'The optimised variant of a generated function evaluates the same terms, with the same subscripts, operands, prefactors and order, as the plain variant, and consumes one precomputed contraction per einsum in exactly the order the path function emits them.',
     ['inputs', 'configurations'], 'every truncation and order', 'Tests compare each variant with its own reference, never with each other.',
     'code_full_cc code_w_equations code_dt_equations',
     [('opt_einsum twins', '_optimized_w_einsum_list, _generate_optimized_disconnected_einsum_function_call_list, _write_cc_optimized_paths_from_list')])
prop('P15', 'Truncations survive saving and loading',
     'Saving truncations and loading them back gives an equal dictionary keyed by the same truncation keys, for every ansatz; loading into a given dictionary updates it in place. '
     'Saving does not alter the dictionary, and a file with missing, unknown or out-of-range entries is rejected on loading.',
     ['inputs', 'histories'], 'every truncation dictionary and file', 'Tests use a mock file system with two dictionaries.',
     'truncations truncation_keys', [('change_dictionary_keys_*', 'truncation_keys.py'), ('_save_to_JSON, _load_from_JSON', 'truncations.py')], ['the JSON file', 'the returned dictionary'])
prop('P16', 'The command line means what its help says',
     'Every command line option has its documented effect and default: truncation values are assigned to the keys of their ansatz in the documented order, the ansatz is inferred from their number unless given, and the flags for code, side, excited states, f terms and input file take effect exactly when given. '
     'Contradictory or missing truncations are an error.',
     ['inputs', 'configurations'], 'every command line', 'The driver main block is not executed by any test.',
     'driver truncation_keys truncations', [('prepare_parsed_arguments, _make_trunc, main block', 'driver.py')], ['the call that reaches the generator'])
prop('P17', 'Operators and expansions contain every rank of the truncation once',
     'The projection, Hamiltonian, cluster and excitation operators contain exactly the terms whose creation and annihilation counts the truncation allows, each once, with rank and name consistent. '
     'The exponential expansion contains for every order exactly the ordered products of that many operators within the allowed maximum.',
     ['inputs'], 'every truncation value', 'Tests check one or two small values.',
     'latex_full_cc latex_zhz latex_eT_zhz code_residual_equations',
     [('generate_omega_operator, generate_full_cc_hamiltonian_operator, generate_s_operator, generate_*_taylor_expansion', 'latex_full_cc.py, latex_eT_zhz.py'), ('generate_z_operator', 'latex_zhz.py')], ['the returned operator'])
prop('P18', 'Partition and permutation helpers are exact',
     'The partition helpers return every partition of n of the requested kind exactly once (connected, linked and un-linked disconnected partitions do not overlap), and the permutation helper returns the distinct permutations in sorted order. '
     'Banner lines have the requested width and text for every name.',
     ['inputs'], 'every n and every list', 'Tests check n up to a small constant.',
     'helper_funcs code_w_equations', [('_partitions, generate_*_partitions_of_n, unique_permutations', 'helper_funcs.py'), ('_next_list, _generate_t_lists', 'code_w_equations.py')], ['the returned lists'])
prop('P19', 'Residual, W and amplitude equations cover every contribution of their order',
     'The generated residual, W-operator and amplitude-derivative functions contain, for every order up to the maximum, one contribution for every combination of Hamiltonian term and partition the order demands, guarded by the truncation that makes it available, and no other. '
     'Each contribution uses the arrays, subscripts and output of that order.',
     ['inputs', 'configurations'], 'every order and partition', 'Tests compare stored references for low orders.',
     'code_residual_equations code_w_equations code_dt_equations latex_w_equations',
     [('generate_residual_data', 'code_residual_equations.py'), ('_write_w_function_strings, _generate_vemx/vecc_contributions', 'code_w_equations.py'), ('_write_linked/_un_linked_disconnected_strings, _write_dt_amplitude_strings', 'code_dt_equations.py'), ('ground/excited_state_w_equations_latex', 'latex_w_equations.py')])
prop('P20', 'Ground-state and f-term options restrict exactly the terms they name',
     'Asking for the ground state keeps exactly the operators without bar/annihilation amplitudes, and asking to remove f terms drops exactly the terms with an f or f-bar factor; without the option nothing is dropped. '
     'The choice acts the same way in every equation of the output. (The f-term option is one of the LaTeX generators; the full cc Python always leaves terms with an f factor out.)',
     ['configurations', 'inputs'], 'every request with either option', 'References exist for a few truncations of the default options.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz',
     [('only_ground_state branches of the operator generators', 'latex_full_cc.py, latex_zhz.py, latex_eT_zhz.py'), ('_remove_f_zero_terms, _creates_f_prefactor, _f_*_contributions', 'latex_*.py')])
prop('P22', 'No valid request fails on a missing name, key or label',
     'Every request within the documented truncation limits runs to completion: no lookup in a label alphabet, order table or dictionary falls outside it, and no name is used that is not defined on the path. A request the generator declares unsupported with an explicit NotImplementedError counts as refused, not failed.',
     ['inputs', 'configurations'], 'every valid request', 'Tests stay far below the truncation limits and cover few branches.',
     'latex_defines latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations truncations truncation_keys driver _glue_',
     [('order tables and alphabets', 'latex_defines.py, code_*.py'), ('truncation_maximums', 'truncations.py')], ['the raised exception'])
prop('P30', 'Executing the generated code gives the numerically correct residuals',
     'Running a generated Python module on amplitude and Hamiltonian arrays gives the residuals defined by the theory.',
     ['programs', 'inputs'], 'every generated module and every set of arrays', 'No test executes generated code.',
     'code_full_cc code_eT_zhz code_residual_equations code_w_equations code_dt_equations', [('einsum calls in generated modules', 'generated files')], ['the numerical result of a generated module'],
     reason='A statement about floating point results of the second-stage program compared with a physical theory that is not in the repository; static analysis of the generator can only decide the structure of what it emits (P09, P11-P14, P19).')
prop('P31', 'Generation finishes in practical time within the truncation limits',
     'Every request within the documented maxima terminates in reasonable time and memory.',
     ['inputs'], 'every valid truncation', 'Tests use small truncations.',
     'latex_full_cc latex_zhz latex_eT_zhz code_full_cc code_eT_zhz', [('product loops', 'latex_*.py')], ['run time'],
     reason='Run time is a quantitative runtime property: the loops are all over finite lists, so termination is immediate, but the combinatorial cost has no static bound that would separate acceptable from unacceptable.')


def main():
    from sa import equiv
    from sa.rules import load_all
    repo, specs = equiv.load()
    have = {p for s in specs for p in s.props} | {p for r in load_all() for p in r.props}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if p['_reason'] or p['id'] not in have:
            na.append({'property': p['id'], 'reason': p['_reason'] or 'not yet covered by a specification or rule'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} --tier quick', 'thorough_cmd': f'python3-vt check.py {p["id"]} --tier thorough',
                       'technique': 'static: value-numbered function summaries compared with specifications, plus dataflow/effect/shape rules over the syntax tree',
                       'level': 'other',
                       'level_note': 'Per obligation: identical normal forms hold for every input within the modelled Python subset; a difference is reported only with a separating valuation of the summary terms. '
                                     'Assumes the summariser models the language subset faithfully; obligations it cannot summarise are listed as undecided in the evidence and raise no alarm.'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import ast"', 'checks': checks, 'not_applicable': na,
         'notes': 'The checks only parse /repo; nothing of it is imported or executed. No hooks. See DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print([c['property'] for c in checks], [n['property'] for n in na])


if __name__ == '__main__':
    main()
