"""Which generator a request reaches, with which options and file name; what the command line asks for."""
import os
from truncation_keys import TruncationsKeys as tkeys
from truncations import save_trunc_to_JSON, load_trunc_from_JSON
from latex_full_cc import generate_full_cc_latex
from latex_zhz import generate_z_t_symmetric_latex
from latex_eT_zhz import generate_eT_z_t_symmetric_latex
from code_eT_zhz import generate_eT_zhz_python
from code_full_cc import generate_full_cc_python
from _glue_ import _generate_latex, _generate_python
from driver import prepare_parsed_arguments

H = tkeys('maximum_hamiltonian_rank')
CC = tkeys('maximum_coupled_cluster_rank')
S = tkeys('s_taylor_max_order')
P = tkeys('omega_max_order')
T = tkeys('maximum_T_rank')
ET = tkeys('eT_taylor_max_order')


def ground(only_ground_state):
    return "ground_state_" if only_ground_state else ""


def no_f(remove_f_terms):
    return "_no_f_terms" if remove_f_terms else ""


def tex_side(lhs_rhs):
    return "symmetric_equations" if lhs_rhs == 'RHS' else "special_LHS_terms"


def full_cc_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs):
    assert ansatz == 'full cc'
    generate_full_cc_latex(trunc, only_ground_state=only_ground_state, remove_f_terms=remove_f_terms, ansatz=ansatz, lhs_rhs=lhs_rhs,
                           path=f"./{ground(only_ground_state)}full_cc_{tex_side(lhs_rhs)}{no_f(remove_f_terms)}.tex")


def z_t_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs):
    assert ansatz == 'z_t ansatz'
    generate_z_t_symmetric_latex(trunc, only_ground_state=only_ground_state, remove_f_terms=remove_f_terms, ansatz=ansatz, lhs_rhs=lhs_rhs,
                                 path=f"./{ground(only_ground_state)}z_t_{tex_side(lhs_rhs)}{no_f(remove_f_terms)}.tex")


def eT_z_t_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs):
    assert ansatz == 'eT_z_t ansatz'
    generate_eT_z_t_symmetric_latex(trunc, only_ground_state=only_ground_state, remove_f_terms=remove_f_terms, ansatz=ansatz, lhs_rhs=lhs_rhs,
                                    path=f"./{ground(only_ground_state)}eT_z_t_{tex_side(lhs_rhs)}{no_f(remove_f_terms)}.tex")


def full_cc_code(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs):
    assert ansatz == 'full cc'
    kind = "equations" if lhs_rhs == 'RHS' else "special_LHS_equations"
    generate_full_cc_python(trunc, only_ground_state=only_ground_state, remove_f_terms=remove_f_terms, ansatz=ansatz, lhs_rhs=lhs_rhs,
                            path=f"./{ground(only_ground_state)}full_cc_{kind}{no_f(remove_f_terms)}.py")


def eT_z_t_code(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs):
    assert ansatz == 'eT_z_t ansatz'
    generate_eT_zhz_python(trunc, only_ground_state=only_ground_state, remove_f_terms=remove_f_terms, ansatz=ansatz, lhs_rhs=lhs_rhs,
                           path=f"./eT_zhz_eqs_{lhs_rhs}_H({trunc[H]})_P({trunc[P]})_T({trunc[T]})_exp({trunc[ET]})_Z({trunc[CC]}).py")


@spec('_glue_._generate_latex', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_full_cc_tex(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    full_cc_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs)


@spec('_glue_._generate_latex', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_z_t_tex(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    z_t_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs)


@spec('_glue_._generate_latex', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_eT_z_t_tex(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:8',
                   '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    eT_z_t_tex(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs)


@spec('_glue_._generate_latex', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_tex(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    full_cc_tex(trunc, True, False, 'full cc', 'RHS')


@spec('_glue_._generate_latex', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_tex_gs(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}, only_ground_state: 'bool'):
    full_cc_tex(trunc, only_ground_state, False, 'full cc', 'RHS')


@spec('_glue_._generate_latex', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_tex_eT(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:8',
                   '@omega_max_order': 'int:1:6'},
        ansatz: ('const', 'eT_z_t ansatz'), remove_f_terms: 'bool'):
    eT_z_t_tex(trunc, True, remove_f_terms, 'eT_z_t ansatz', 'RHS')


@spec('_glue_._generate_latex', props='P04', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_tex_lhs(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}, lhs_rhs: 'side'):
    full_cc_tex(trunc, True, False, 'full cc', lhs_rhs)


@spec('_glue_._generate_python', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_full_cc_code(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    full_cc_code(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs)


@spec('_glue_._generate_python', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_z_t_code(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    assert False


@spec('_glue_._generate_python', props='P04 P20 P02', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def request_eT_z_t_code(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:8',
                   '@omega_max_order': 'int:1:6'},
        only_ground_state: 'bool', remove_f_terms: 'bool', ansatz: 'oneof:full cc|z_t ansatz|eT_z_t ansatz|other', lhs_rhs: 'side'):
    eT_z_t_code(trunc, only_ground_state, remove_f_terms, ansatz, lhs_rhs)


@spec('_glue_._generate_python', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_code(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}):
    full_cc_code(trunc, True, False, 'full cc', 'RHS')


@spec('_glue_._generate_python', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_code_gs(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}, only_ground_state: 'bool'):
    full_cc_code(trunc, only_ground_state, False, 'full cc', 'RHS')


@spec('_glue_._generate_python', props='P04 P20', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_code_eT(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@maximum_T_rank': 'int:1:1', '@eT_taylor_max_order': 'int:1:8',
                   '@omega_max_order': 'int:1:6'},
        ansatz: ('const', 'eT_z_t ansatz'), remove_f_terms: 'bool'):
    eT_z_t_code(trunc, True, remove_f_terms, 'eT_z_t ansatz', 'RHS')


@spec('_glue_._generate_python', props='P04', raises=True, closed=True, opaque={'latex_full_cc.generate_full_cc_latex': 'none', 'latex_zhz.generate_z_t_symmetric_latex': 'none', 'latex_eT_zhz.generate_eT_z_t_symmetric_latex': 'none', 'code_eT_zhz.generate_eT_zhz_python': 'none', 'code_full_cc.generate_full_cc_python': 'none'})
def default_code_lhs(trunc: {'@maximum_hamiltonian_rank': 'int:1:6', '@maximum_coupled_cluster_rank': 'int:1:6', '@s_taylor_max_order': 'int:1:6', '@omega_max_order': 'int:1:6'}, lhs_rhs: 'side'):
    full_cc_code(trunc, True, False, 'full cc', lhs_rhs)


def run(pargs, trunc, inferred):
    assert pargs.ansatz is None or pargs.ansatz in ('eT_z_t ansatz', 'z_t ansatz', 'full cc')
    ansatz = inferred if pargs.ansatz is None else pargs.ansatz
    if pargs.code:
        _generate_python(trunc, only_ground_state=not pargs.excited_state, remove_f_terms=pargs.remove_f_terms, ansatz=ansatz, lhs_rhs='LHS' if pargs.lhs else 'RHS')
    else:
        _generate_latex(trunc, only_ground_state=not pargs.excited_state, remove_f_terms=pargs.remove_f_terms, ansatz=ansatz, lhs_rhs='LHS' if pargs.lhs else 'RHS')


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_fcc():
    parser, pargs = prepare_parsed_arguments()
    trunc = {H: pargs.t[0], CC: pargs.t[1], S: pargs.t[2], P: pargs.t[3]}
    save_trunc_to_JSON('../truncs.json', trunc)
    run(pargs, trunc, 'full cc')


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_zhz():
    parser, pargs = prepare_parsed_arguments()
    trunc = {H: pargs.t[0], CC: pargs.t[1], P: pargs.t[2]}
    save_trunc_to_JSON('../truncs.json', trunc)
    run(pargs, trunc, 'z_t ansatz')


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_eTz():
    parser, pargs = prepare_parsed_arguments()
    trunc = {H: pargs.t[0], CC: pargs.t[1], T: pargs.t[2], ET: pargs.t[3], P: pargs.t[4]}
    save_trunc_to_JSON('../truncs.json', trunc)
    run(pargs, trunc, 'eT_z_t ansatz')


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_two_values():
    parser, pargs = prepare_parsed_arguments()
    assert False


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_six_values():
    parser, pargs = prepare_parsed_arguments()
    assert False


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ('const', None), 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': ('const', None)})})
def command_nothing():
    parser, pargs = prepare_parsed_arguments()
    assert False


@spec('driver.__main__', props='P16 P04', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ['int:-1:9', 'int:-1:9', 'int:-1:9', 'int:-1:9'], 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': 'oneof:a|b/c'})})
def command_both():
    parser, pargs = prepare_parsed_arguments()
    assert False


@spec('driver.__main__', props='P16 P04 P15', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ('const', None), 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': 'oneof:a|b/c'}),
             'json.loads': {'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 's_taylor_max_order': 'int:1:6', 'omega_max_order': 'int:1:6'}})
def command_file_fcc():
    parser, pargs = prepare_parsed_arguments()
    assert os.path.isfile(pargs.path)
    trunc = load_trunc_from_JSON(pargs.path)
    run(pargs, trunc, 'full cc')


@spec('driver.__main__', props='P16 P04 P15', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ('const', None), 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': 'oneof:a|b/c'}),
             'json.loads': {'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 'omega_max_order': 'int:1:6'}})
def command_file_zhz():
    parser, pargs = prepare_parsed_arguments()
    assert os.path.isfile(pargs.path)
    trunc = load_trunc_from_JSON(pargs.path)
    run(pargs, trunc, 'z_t ansatz')


@spec('driver.__main__', props='P16 P04 P15', raises=True, value=False, closed=True, opaque={'_glue_._generate_latex': 'none', '_glue_._generate_python': 'none', 'truncations.save_trunc_to_JSON': 'none'},
      stubs={'driver.prepare_parsed_arguments': ({'%': 'Parser', 'text': 'str'}, {'%': 'Namespace', 'log_path': 'str', 'stdlog': 'bool', 't': ('const', None), 'ansatz': 'oneof:None|full cc|z_t ansatz|eT_z_t ansatz|other', 'excited_state': 'bool', 'remove_f_terms': 'bool', 'code': 'bool', 'lhs': 'bool', 'path': 'oneof:a|b/c'}),
             'json.loads': {'maximum_hamiltonian_rank': 'int:1:6', 'maximum_coupled_cluster_rank': 'int:1:6', 'maximum_T_rank': 'int:1:1', 'eT_taylor_max_order': 'int:1:8', 'omega_max_order': 'int:1:6'}})
def command_file_eTz():
    parser, pargs = prepare_parsed_arguments()
    assert os.path.isfile(pargs.path)
    trunc = load_trunc_from_JSON(pargs.path)
    run(pargs, trunc, 'eT_z_t ansatz')


@spec('driver._make_trunc', props='P16', raises=True)
def make_fcc(input_tuple: ('nat', 'nat', 'nat', 'nat')):
    return {H: input_tuple[0], CC: input_tuple[1], S: input_tuple[2], P: input_tuple[3]}


@spec('driver._make_trunc', props='P16', raises=True)
def make_zhz(input_tuple: ('nat', 'nat', 'nat')):
    return {H: input_tuple[0], CC: input_tuple[1], P: input_tuple[2]}


@spec('driver._make_trunc', props='P16', raises=True)
def make_eTz(input_tuple: ('nat', 'nat', 'nat', 'nat', 'nat')):
    return {H: input_tuple[0], CC: input_tuple[1], T: input_tuple[2], ET: input_tuple[3], P: input_tuple[4]}


@spec('driver._make_trunc', props='P16', raises=True)
def make_short(input_tuple: ('nat', 'nat')):
    assert False


@spec('driver._make_trunc', props='P16', raises=True)
def make_long(input_tuple: ('nat', 'nat', 'nat', 'nat', 'nat', 'nat')):
    assert False


@spec('driver._string_to_bool', props='P16', raises=True)
def boolean_argument(string: 'oneof:true|True|t|T|yes|y|Y|1|false|False|f|F|no|n|0|other|'):
    s = string.lower()
    assert s in ('true', 't', 'yes', 'y', '1', 'false', 'f', 'no', 'n', '0')
    return s in ('true', 't', 'yes', 'y', '1')
