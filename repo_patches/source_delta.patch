From b733c13d8d42240dcb70fe2e47deca487683f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 01/13] fix: reject truncation dictionaries with keys outside
 the ansatz' key list

---
 termfactory/truncations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 612b526..696aa9d 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -89,6 +89,9 @@ def __verify_keys(truncations, key_list):
     Third that all values are <= their max values
         as defined in the dictionary `truncation_maximums`.
     """
+    extra_keys = [key for key in truncations if key not in key_list]
+    assert not extra_keys, f"Unexpected keys {extra_keys} in provided dictionary {truncations=:}"
+
     for key in key_list:
         assert key in truncations, f"Missing key, {key = :s} not in provided dictionary {truncations=:}"
         assert truncations[key] >= 1, "Truncations need to be positive integers"
-- 
2.43.0


From 076dcef28ffdfe82adbb5f35e54938f50cad54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 02/13] fix: name the existing key list in the eT_z_t
 truncation error message

---
 termfactory/truncations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/truncations.py b/termfactory/truncations.py
index 696aa9d..8840b3f 100644
--- a/termfactory/truncations.py
+++ b/termfactory/truncations.py
@@ -143,7 +143,7 @@ def _verify_eT_z_t_truncations(truncations):
     for key in truncations.keys():
         if key not in tkeys:
             raise Exception(
-                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eT_key_list()}"
+                f"{key = } is not one of the valid keys for fcc.\n{tkeys.eTz_key_list()}"
             )
 
     # change in the future possibly? if we use enums for all lists?
-- 
2.43.0


From 677a97444932e9233a51c74d5d449224161af9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 03/13] fix: -rf False on the command line keeps the f terms

---
 termfactory/driver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/termfactory/driver.py b/termfactory/driver.py
index 512dae9..1ad5b9b 100644
--- a/termfactory/driver.py
+++ b/termfactory/driver.py
@@ -15,6 +15,15 @@ def dump_all_stdout_to_devnull():
     sys.stdout = open(os.devnull, 'w')
 
 
+def _str_to_bool(string):
+    """ Parses a boolean command line value; `bool('False')` would be `True`. """
+    if string.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if string.lower() in ('false', 'f', 'no', 'n', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError(f'expected a boolean value, not {string!r}')
+
+
 def prepare_parsed_arguments():
     """ Wrapper for argparser setup """
 
@@ -33,7 +42,7 @@ def prepare_parsed_arguments():
     parser.add_argument('-t', nargs='+', type=int, default=None, help="Provided Truncations, example: -t 2 2 2 2")
     parser.add_argument('-a', '--ansatz', type=str, default=None, help="Specify Ansatz")
     parser.add_argument('-es', '--excited_state', action='store_true', help="Only ground state?")
-    parser.add_argument('-rf', '--remove_f_terms', type=bool, default=False, help="Choose to remove f terms")
+    parser.add_argument('-rf', '--remove_f_terms', type=_str_to_bool, default=False, help="Choose to remove f terms")
     parser.add_argument('-c', '--code', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
     parser.add_argument('-lhs', action='store_true', help="Generate LaTeX by default; `-c` generates code instead.")
 
-- 
2.43.0


From 98d89000183dd57c3eeb52ae842e0ed7779daa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 04/13] fix: residuals of order 5 and higher keep all their
 normal mode labels

---
 termfactory/code_residual_equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index b7472c0..da40ee1 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -343,14 +343,14 @@ w_dict = {
 }
 
 
-i_list = ['i', 'j', 'k', 'l']
+i_list = ['i', 'j', 'k', 'l', 'o', 'p', 'q', 'r']
 k_list = ['m', 'n']
 
 
 def _generate_einsum_h_indices(term):
     """Generate the indices for the h term in the residual's einsum equation
     upper or lower k's should map to the letters 'm' and 'n'
-    upper or lower i's should map to the letters 'ijkl'
+    upper or lower i's should map to the letters in `i_list`
     """
     h_dims = 'ac'
     h_dims += ''.join(k_list[0:term.h.max_k])  # generate mn's
@@ -361,7 +361,7 @@ def _generate_einsum_h_indices(term):
 def _generate_einsum_w_indices(term):
     """Generate the indices for the W operator in the residual's einsum equation
     upper or lower k's should map to the letters 'm' and 'n'
-    upper or lower i's should map to the letters 'ijkl'
+    upper or lower i's should map to the letters in `i_list`
     """
     w_dims = 'cb'
     w_dims += ''.join(k_list[0:term.w.max_k])  # generate mn's
-- 
2.43.0


From cdae261b33b874ccf2fe2df9297ce7205d5649e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:54 +0000
Subject: [PATCH 05/13] fix: keep the factorial in the prefactor of the h^2
 residual terms of order 5 and higher

---
 termfactory/code_residual_equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/termfactory/code_residual_equations.py b/termfactory/code_residual_equations.py
index da40ee1..67afe7e 100644
--- a/termfactory/code_residual_equations.py
+++ b/termfactory/code_residual_equations.py
@@ -234,7 +234,8 @@ def generate_p_term(str_fac):
     if str_fac == "(1/2) * ":  # pragma: no cover
         return "0.5"
 
-    arr = extract_numerator_denominator_from_string(str_fac)
+    # the extra factor of 2 is handled separately below
+    arr = extract_numerator_denominator_from_string(str_fac.replace("/(2*", "/("))
     numerator, denominator = arr[0], arr[1]
 
     if "/(2*" in str_fac:
-- 
2.43.0


From 78218fa07edd7933aaad4b3b17cdd068435f2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:07 +0000
Subject: [PATCH 06/13] fix: generate with the default ansatz when the caller
 leaves it out

---
 termfactory/_glue_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/termfactory/_glue_.py b/termfactory/_glue_.py
index 59b1298..f4f9f87 100644
--- a/termfactory/_glue_.py
+++ b/termfactory/_glue_.py
@@ -35,6 +35,7 @@ def _generate_python(trunc, **kwargs):
         kwargs = default_kwargs
     else:
         default_kwargs.update(kwargs)
+        kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
@@ -112,6 +113,7 @@ def _generate_latex(trunc, **kwargs):
         kwargs = default_kwargs
     else:
         default_kwargs.update(kwargs)
+        kwargs = default_kwargs
 
     if kwargs['ansatz'] == 'full cc':
         assert tkeys.key_list_type(trunc) == 'fcc', "Truncations must be fcc type"
-- 
2.43.0


From 77b58349ecd6508cfc986432aa86c210d6e7831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:52 +0000
Subject: [PATCH 07/13] fix: full cc code keeps every term when several share a
 prefactor

---
 termfactory/code_full_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index e0631fd..b66b662 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -408,7 +408,7 @@ def _write_cc_einsum_python_from_list(truncations, t_term_list, opt_einsum=False
 
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         if permutations is None:
@@ -867,7 +867,7 @@ def _write_cc_optimized_paths_from_list(truncations, t_term_list, local_list_nam
         # we still need to account for output/omega permutations
         # -----------------------------------------------------------------------------------------
         # build with permutations
-        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank][prefactor] = []
+        hamiltonian_rank_list[max(h.m, h.n)][max_t_rank].setdefault(prefactor, [])
         log.debug(f"{hamiltonian_rank_list = }")
 
         for t in t_list:
-- 
2.43.0


From eac04faaceb729754b4d85b9d7dd0ea1e0a1b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:49 +0000
Subject: [PATCH 08/13] fix: name the sextic Hamiltonian order so that the
 maximum truncation generates code

---
 termfactory/code_w_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/code_w_equations.py b/termfactory/code_w_equations.py
index b709241..e552dea 100644
--- a/termfactory/code_w_equations.py
+++ b/termfactory/code_w_equations.py
@@ -179,7 +179,7 @@ def _generate_w_operator_prefactor(tupl):
 
 num_tag = ["zero", "1st", "2nd", "3rd", "4th", "5th", "6th", "7th", "8th"]
 taylor_series_order_tag = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
-hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic"]
+hamiltonian_order_tag = ["", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic"]
 einsum_surface_tags = "acdefghi"
 tag_str = "ijklmnop"
 
-- 
2.43.0


From b1e429d4254c9b8954e6f2124c40ec523cbb9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:06 +0000
Subject: [PATCH 09/13] fix: do not skip free index labels in condensed linked
 disconnected terms

---
 termfactory/latex_full_cc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index bcdec50..b504451 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -1194,6 +1194,9 @@ def _make_latex(rank, term_list, linked_condense=False, unlinked_condense=False,
         if linked_condense:
             linked_list_index, new_t_list, t_offset_dict = _linked_condensed_adjust_t_terms(common_linked_factor_list, h, t_list)
 
+            # the labels of h are already in `t_offset_dict` and `_build_t_term_latex_group` adds them (again)
+            t_offset_dict['unlinked'] -= h.m_o + h.n_o
+
             # prepare the t-amplitude terms
             t_string_list = _build_t_term_latex_group(new_t_list, h, t_offset_dict)
 
-- 
2.43.0


From fa2379e817cf17ba9cdbc3e5c026d97a6b055154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:39 +0000
Subject: [PATCH 10/13] fix: label z with the remaining creation indices in
 dt/dtau z products

---
 termfactory/latex_zhz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/latex_zhz.py b/termfactory/latex_zhz.py
index 2259974..44362f0 100644
--- a/termfactory/latex_zhz.py
+++ b/termfactory/latex_zhz.py
@@ -1654,7 +1654,7 @@ def _build_fifth_z_term(LHS, Z):
         if z_m == 0:
             z_term_latex = f"\\hat{{{bold_z_latex}}}_{{0, \\gamma}}"
         else:
-            z_upper_label = f"{summation_indices[LHS.rank-z_m:LHS.rank]}"
+            z_upper_label = f"{summation_indices[LHS.n-z_m:LHS.n]}"
             z_term_latex = f"\\hat{{{bold_z_latex}}}^{{{z_upper_label}}}_{{\\gamma}}"
 
         # glue them together
-- 
2.43.0


From 7e5dcbd619119fbeda16233da8658479e8839f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:39 +0000
Subject: [PATCH 11/13] fix: provide enough summation labels for h, z and t at
 the largest truncations

---
 termfactory/common_imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/termfactory/common_imports.py b/termfactory/common_imports.py
index d13dfce..1b361ba 100644
--- a/termfactory/common_imports.py
+++ b/termfactory/common_imports.py
@@ -28,5 +28,5 @@ unlinked_indices = 'zyxwvuts'
 
 
 """ These are the indices used to label the h and z's in the generated latex"""
-z_summation_indices = 'klmno'
+z_summation_indices = 'klmnopqr'
 z_unlinked_indices = 'yxwvuts'
-- 
2.43.0


From 0dd1076953559ca531d123859c252995acb586ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 12/13] fix: keep the order of prefactor factors independent of
 the string hash seed

---
 termfactory/code_full_cc.py  | 4 ++--
 termfactory/latex_full_cc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/termfactory/code_full_cc.py b/termfactory/code_full_cc.py
index b66b662..3a13b18 100644
--- a/termfactory/code_full_cc.py
+++ b/termfactory/code_full_cc.py
@@ -199,13 +199,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
diff --git a/termfactory/latex_full_cc.py b/termfactory/latex_full_cc.py
index b504451..8e5e85e 100644
--- a/termfactory/latex_full_cc.py
+++ b/termfactory/latex_full_cc.py
@@ -970,13 +970,13 @@ def _simplify_full_cc_python_prefactor(numerator_list, denominator_list):
     else:
         intersection = numerator_set & denominator_set
 
-    numerator_dict = dict([(key, 0) for key in numerator_set])
+    numerator_dict = dict([(key, 0) for key in numerator_list])
     for string in numerator_list:
         numerator_dict[string] += 1
 
     old_print_wrapper('nnnn', numerator_dict)
 
-    denominator_dict = dict([(key, 0) for key in denominator_set])
+    denominator_dict = dict([(key, 0) for key in denominator_list])
     for string in denominator_list:
         denominator_dict[string] += 1
 
-- 
2.43.0


From 0d92a2afaa992e05918c5377a186ce1ed763877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 13/13] fix: keep the whole header, and no old equations, when
 updating the excited state W file

---
 termfactory/latex_w_equations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/termfactory/latex_w_equations.py b/termfactory/latex_w_equations.py
index 3a7eb93..05376df 100644
--- a/termfactory/latex_w_equations.py
+++ b/termfactory/latex_w_equations.py
@@ -250,14 +250,14 @@ def excited_state_w_equations_latex(max_w_order, path="./thermal_w_equations.tex
 
         # read the entire file contents
         with open(path, 'r') as fp:
-            file_contents = fp.readlines()
+            header, begin, _ = fp.read().partition('\\begin{document}\n')
 
-        # keep only the header
-        header = ''.join(file_contents[0:29])
-
-        # write the new header with latex code attached
+        # keep only the header (a file which this function wrote from scratch has none)
         with open(path, 'w') as fp:
-            fp.write(header + latex_code + r'\end{document}')
+            if begin != '':
+                fp.write(header + begin + latex_code + r'\end{document}')
+            else:
+                fp.write(latex_code)
 
     # otherwise write a new file
     else: # pragma: no cover
-- 
2.43.0

