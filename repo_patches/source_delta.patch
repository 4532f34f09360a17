From 6cd453ad5905ba30efa178724a1d86099b4c0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:21 +0000
Subject: [PATCH 01/13] fix: order the simplified prefactors deterministically

The factors come out of sets of strings, whose order changes with PYTHONHASHSEED.
---
 termfactory/code_full_cc.py  | 4 ++++
 termfactory/latex_eT_zhz.py  | 4 ++++
 termfactory/latex_full_cc.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..12cea47 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -231,6 +231,10 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     for k, v in denominator_dict.items():
         denominator_list.extend([k, ]*v)
 
+    # the dictionaries are built from sets, so fix the order of the factors
+    numerator_list.sort()
+    denominator_list.sort()
+
     if len(numerator_list) > 2 or len(denominator_list) > 2:
         old_print_wrapper('xxxx', numerator_list)
         old_print_wrapper('yyyy', denominator_list)
diff --git a/termfactory/latex_eT_zhz.py b/termfactory/latex_eT_zhz.py
index 44a776d..bb7aba8 100644
--- a/termfactory/latex_eT_zhz.py
+++ b/termfactory/latex_eT_zhz.py
@@ -1126,6 +1126,10 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):  # pra
     for k, v in denominator_dict.items():
         denominator_list.extend([k, ]*v)
 
+    # the dictionaries are built from sets, so fix the order of the factors
+    numerator_list.sort()
+    denominator_list.sort()
+
     if len(numerator_list) > 2 or len(denominator_list) > 2:
         log.debug('xxxx', numerator_list)
         log.debug('yyyy', denominator_list)
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..f00716c 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1002,6 +1002,10 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     for k, v in denominator_dict.items():
         denominator_list.extend([k, ]*v)
 
+    # the dictionaries are built from sets, so fix the order of the factors
+    numerator_list.sort()
+    denominator_list.sort()
+
     if len(numerator_list) > 2 or len(denominator_list) > 2:
         old_print_wrapper('xxxx', numerator_list)
         old_print_wrapper('yyyy', denominator_list)
-- 
2.43.0


From adda06796335f634376ebdeb0751aa2736da99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:21 +0000
Subject: [PATCH 02/13] fix: name the sixth order of the Hamiltonian

maximum_hamiltonian_rank may be 6, the generated code indexes the tag list by the rank.
---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From f900d0d4223346fcee46fb1ae3e6dbc297435bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:15 +0000
Subject: [PATCH 03/13] fix: do not repeat terms at the end of a split z_t
 equation

---
 termfactory/latex_zhz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..a11fb94 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1231,8 +1231,9 @@ def _prepare_second_z_latex(term_list, split_width=7, remove_f_terms=False, prin
         split_equation_list.append(' + '.join(return_list[i*split_width:(i+1)*split_width]))  # pragma: no cover
 
     # make sure we pickup the last few terms
-    last_few_terms = (len(return_list) % split_width)-split_width+1  # pragma: no cover
-    split_equation_list.append(' + '.join(return_list[last_few_terms:]))  # pragma: no cover
+    last_few_terms = len(return_list) % split_width  # pragma: no cover
+    if last_few_terms != 0:  # pragma: no cover
+        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))  # pragma: no cover
 
     # join the lists with the equation splitting string
     splitting_string = r'\\  &+  % split long equation'  # pragma: no cover
@@ -1435,8 +1436,9 @@ def _prepare_third_z_latex(term_list, split_width=7, remove_f_terms=False, print
         split_equation_list.append(' + '.join(return_list[i*split_width:(i+1)*split_width]))  # pragma: no cover
 
     # make sure we pickup the last few terms
-    last_few_terms = (len(return_list) % split_width)-split_width+1  # pragma: no cover
-    split_equation_list.append(' + '.join(return_list[last_few_terms:]))  # pragma: no cover
+    last_few_terms = len(return_list) % split_width  # pragma: no cover
+    if last_few_terms != 0:  # pragma: no cover
+        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))  # pragma: no cover
 
     # join the lists with the equation splitting string
     splitting_string = r'\\  &+  % split long equation'  # pragma: no cover
-- 
2.43.0


From 57b7fe475b70b4896bb1a67270bbf37f0c841750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:16 +0000
Subject: [PATCH 04/13] fix: close the bracket of a split third z_t equation

---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index a11fb94..ac1fcfe 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1445,7 +1445,7 @@ def _prepare_third_z_latex(term_list, split_width=7, remove_f_terms=False, print
     final_string = f"\n{tab}{splitting_string}\n".join(split_equation_list)  # pragma: no cover
 
     # and we're done!
-    return f"(\n{final_string}\n"  # pragma: no cover
+    return f"(\n{final_string}\n)"  # pragma: no cover
 
 
 def _prepare_fourth_z_latex(term_list, split_width=7, remove_f_terms=False, print_prefactors=False):
-- 
2.43.0


From 9c68cee198ee364edda0759cae9c3cab9ef1dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 05/13] fix: verify the truncations before generating the z_t
 equations

---
 termfactory/latex_zhz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index ac1fcfe..eceff22 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -12,7 +12,7 @@ from common_imports import tab, z_summation_indices, z_unlinked_indices, summati
 from latex_full_cc import generate_omega_operator, generate_full_cc_hamiltonian_operator, _omega_joining_with_itself, _h_joining_with_itself, disconnected_namedtuple
 from namedtuple_defines import general_operator_namedtuple, hamiltonian_namedtuple
 import reference_latex_headers as headers
-from truncations import _verify_fcc_truncations
+from truncations import _verify_zhz_truncations
 from truncation_keys import TruncationsKeys as tkeys
 import log_conf
 
@@ -1729,6 +1729,7 @@ def generate_z_t_symmetric_latex(truncations, **kwargs):
     path = kwargs['path']
 
     # unpack truncations
+    _verify_zhz_truncations(truncations)
     maximum_h_rank = truncations[tkeys.H]
     maximum_cc_rank = truncations[tkeys.CC]
     omega_max_order = truncations[tkeys.P]
-- 
2.43.0


From adc10263f306bab9d228b60a7a409d5c7e76a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 06/13] fix: apply the default ansatz when only some options
 are given

_generate_latex(trunc, remove_f_terms=True) raised KeyError('ansatz').
---
 termfactory/_glue_.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/termfactory/_glue_.py b/termfactory/_glue_.py
index 59b1298..824ddf4 100644
--- a/termfactory/_glue_.py
+++ b/termfactory/_glue_.py
@@ -30,11 +30,9 @@ def _generate_python(trunc, **kwargs):
         'lhs_rhs': default_lhs_rhs,
     }
 
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # fill in the options that were not provided
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
@@ -107,11 +105,9 @@ def _generate_latex(trunc, **kwargs):
         'ansatz': 'full cc',
         'lhs_rhs': default_lhs_rhs,
     }
-    # if empty dict
-    if not bool(kwargs):
-        kwargs = default_kwargs
-    else:
-        default_kwargs.update(kwargs)
+    # fill in the options that were not provided
+    default_kwargs.update(kwargs)
+    kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
-- 
2.43.0


From 24fdb4ce8228da74258dfcc500f392a706b04616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 07/13] fix: report an invalid eTz key instead of raising
 AttributeError

---
 termfactory/truncations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..868df28 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -140,7 +140,7 @@ def _verify_eT_z_t_truncations(truncations):
     for key in truncations.keys():
         if key not in tkeys:
             raise Exception(
-                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eT_key_list()}"
+                f"{key = } is not one of the valid keys for eTz.\n{tkeys.eTz_key_list()}"
             )
 
     # change in the future possibly? if we use enums for all lists?
-- 
2.43.0


From 6dfac64698687bc83f646fe61bbd2793c36e866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 08/13] fix: load the truncations into the provided dictionary

load_trunc_from_JSON(path, dictionary) did nothing, its docstring promises an in place update.
---
 termfactory/truncations.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 868df28..04691bf 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -229,11 +229,7 @@ def load_trunc_from_JSON(path, dictionary=None):
         # verify_model_parameters(new_model_dict)
         return new_trunc_dict
 
-    # arrays were provided so fill them with the appropriate values
-    # else:
-        # verify_model_parameters(dictionary)
-        # _load_inplace_from_JSON(path, dictionary)
-        # check twice? might as well be cautious for the moment until test cases are written
-        # verify_model_parameters(dictionary)
+    # a dictionary was provided so overwrite its values (in place) with the values from the file
+    dictionary.update(_load_from_JSON(path))
 
     return
-- 
2.43.0


From bb6554a2620305a447bc1f902ce1552ec9d242d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:58 +0000
Subject: [PATCH 09/13] fix: read the value of -rf

`-rf False` removed the f terms, because bool('False') is True.
---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..985a92a 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _string_to_bool(string):
+    """ bool('False') is True, so the value of a boolean argument needs to be parsed """
+    if string.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if string.lower() in ('false', 'f', 'no', 'n', '0'):
+        return False
+    raise argparse.ArgumentTypeError(f'expected True or False, not {string!r}')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_string_to_bool, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 6d58b2b16459b338ae751e615d77c84b6d6d4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:51 +0000
Subject: [PATCH 10/13] fix: provide enough summation labels for a sixth order
 Hamiltonian

labels beyond the fifth were silently dropped from the z_t and eT_z_t equations.
---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From 25ab34d33ab33c4871d4d2e405c0398d2ae2562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 11/13] fix: keep every term when several share a prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index 12cea47..5135670 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -412,7 +412,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -871,7 +871,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From 76e6e260ca3d571a698c552af0dae6922979e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 12/13] fix: provide enough labels for residuals above fourth
 order

---
 termfactory/code_residual_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..89a1f09 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -343,7 +343,7 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p', 'q', 'r']  # skips the labels in `k_list`
 k_list = ['m', 'n']
 
 
-- 
2.43.0


From cb65d4e0fb87ab3b8fbe38f26b6cc4f3f8fd63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 13/13] fix: keep the excited state terms when generating the
 ground state branch

---
 termfactory/code_eT_zhz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_eT_zhz.py b/termfactory/code_eT_zhz.py
index 2e9cc59..6d812d1 100644
--- a/termfactory/code_eT_zhz.py
+++ b/termfactory/code_eT_zhz.py
@@ -1,4 +1,5 @@
 # system imports
+import copy
 import itertools as it
 import functools
 import inspect
@@ -1596,6 +1597,7 @@ def _write_third_eTz_einsum_python(rank, operators, t_term_list, lhs_rhs, trunc_
 
 def remove_all_excited_state_t_terms(eT_taylor_expansion):
     """ this is a really sloppy method so it should be improved in the future """
+    eT_taylor_expansion = copy.deepcopy(eT_taylor_expansion)  # the caller's expansion keeps its excited state terms
     i_list, j_list = [], []
 
     # loop over the outer list
@@ -1679,13 +1681,13 @@ def _generate_eT_zhz_einsums(Proj, operators, lhs_rhs, only_ground_state=False,
     if only_ground_state:
 
         # remove all excited state Z's
-        Z.operator_list[:] = [z for z in Z.operator_list if z.n == 0]
+        Z = Z._replace(operator_list=[z for z in Z.operator_list if z.n == 0])
 
         eT_taylor_expansion = remove_all_excited_state_t_terms(eT_taylor_expansion)
 
         if lhs_rhs == 'LHS':
             # in this case H is actually masquerading as dT/dtau which needs to be treated the same as Z
-            H.operator_list[:] = [h for h in H.operator_list if h.n == 0]
+            H = H._replace(operator_list=[h for h in H.operator_list if h.n == 0])
 
         #
 
-- 
2.43.0

