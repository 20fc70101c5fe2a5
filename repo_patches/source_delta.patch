From 0c1af6de74e60f236a4bd58e4ae65afcfdb8b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 01/20] fix: change kernels evaluate and differentiate their
 linked sub-kernels rather than the unlinked originals

---
 GPy_ABCD/Kernels/changeOperators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..41094cd 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # The linked copies, i.e. the ones whose parameters are the fit ones
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From cf912db2fd2dd25e9218946be4592ea64d789160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 02/20] fix: simplification absorbs singleton composites before
 homogeneous ones, so it neither loses a nested constant nor leaves a product
 within a product

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..ebd9464 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms()
 
     @abstractmethod
     def simplify_base_terms(self):
-- 
2.43.0


From 569012a2923ebef9e8de93e6df68452c778e4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 03/20] fix: replacing the left raw leaf of a change expression
 no longer overwrites its right branch

---
 GPy_ABCD/KernelExpressions/change.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..864a0f5 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -35,11 +35,16 @@ class ChangeKE(KernelExpression):
     def extract_if_singleton(self):
         return self
 
+    def _raw_leaf_node(self, branch): # The SumKE singleton standing for a raw string leaf; it remembers its branch for reassign_child to replace the right one
+        leaf = SumKE([getattr(self, branch)]).set_root(self.root).set_parent(self)
+        leaf.raw_leaf_branch = branch
+        return leaf
+
     def traverse(self):
         res = [self]
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
-        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
-        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [self._raw_leaf_node('left')]#[]
+        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [self._raw_leaf_node('right')]#[]
         return res
 
     def reduce(self, func, acc):
@@ -69,7 +74,8 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        is_left = self.left is old_child or (self.right is not old_child and getattr(old_child, 'raw_leaf_branch', 'right') == 'left')
+        if is_left: self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From 411e5aa736254e9fc93422fd8e2c3a53a0f0590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 04/20] fix: sum-of-products form of nodes without base terms
 of their own no longer fails its parameter-presence assertion

---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..6ca877c 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or self.composite_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or self.composite_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From d68cbf698bf0ec5dc485a9c7c7db2ff36b6e8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 05/20] fix: white noise in a product keeps the linear factors'
 parameters, as it does the factors themselves

---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 6ca877c..3a0e244 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,7 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From a34496e0352f2101eb34c93a280190ef8a7f2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 06/20] fix: lengthscale of a product of squared-exponentials

---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 3a0e244..1f5cf6e 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc * l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From 58191042e0e90bbbcf59bc9b49794a205505f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 07/20] fix: interpretation of products of sigmoids describes
 their true (possibly empty) intersection instead of failing or misreporting
 it

---
 .../KernelExpansion/kernelInterpretation.py   | 80 +++++--------------
 1 file changed, 19 insertions(+), 61 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..0960297 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -85,7 +85,7 @@ def postmodifier_interpretation(bps):
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-        res = ', '.join(interval_ress)
+        res = ', '.join(interval_ress) if interval_ress else 'nowhere'
     elif b not in base_sigmoids: raise ValueError(f'An unexpected type of postmodifier term in a pure product has arisen: {b}')
     return res
 
@@ -126,54 +126,29 @@ def Sr_overlap(Sr_params): return min(Sr_params, key = lambda p: p['end'])
 def S_overlap(S_params): return max(S_params, key = lambda p: p['start'])
 
 
-def SI_overlap(SI_params):
+def SI_overlap(SI_params): # [] if there is no overlap
     start = S_overlap(SI_params)
     end = Sr_overlap(SI_params)
     interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
-    return interval if interval['end'] > interval['start'] else None
+    return interval if interval['end'] > interval['start'] else []
 
-def SIr_overlap_step(acc, p): # Acc is a list of dictionaries representing intervals
-    new_acc = []
-    for a in acc:
-        if 'start' not in a or 'end' not in a: intersect_semiline_hole(a, p, new_acc)
-        else: intersect_segment_hole(a, p, new_acc)
-    return new_acc
-def SIr_overlap(SIr_params): return reduce(SIr_overlap_step, SIr_params[1:], SIr_split_intervals(SIr_params[0]))
+def SIr_overlap(SIr_params): return reduce(intersect_interval_lists, [SIr_split_intervals(p) for p in SIr_params])
 
 
 # Basic interval intersection functions
 
-def intersect_segment_semiline(segment, semiline, res = None):
-    if 'start' not in semiline and segment['start'] < semiline['end']:
-        if segment['end'] < semiline['end']: res = segment
-        else: res = {'start': segment['start'], 'end': semiline['end'], 'start_slope': segment['start_slope'], 'end_slope': semiline['end_slope']}
-    elif 'end' not in semiline and segment['end'] > semiline['start']:
-        if segment['start'] > semiline['start']: res = segment
-        else: res = {'start': semiline['start'], 'end': segment['end'], 'start_slope': semiline['start_slope'], 'end_slope': segment['end_slope']}
-    else: res = None
-    return res
-
-def intersect_segment_hole(segment, hole, res = []):
-    if segment['start'] < hole['end']:
-        if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
-    if segment['end'] > hole['start']:
-        if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
-    return res
+def intersect_intervals(a, b): # Of any two (semi)bounded intervals; None if there is no overlap
+    res = {}
+    if starts := [i for i in (a, b) if 'start' in i]:
+        start = S_overlap(starts)
+        res.update({'start': start['start'], 'start_slope': start['start_slope']})
+    if ends := [i for i in (a, b) if 'end' in i]:
+        end = Sr_overlap(ends)
+        res.update({'end': end['end'], 'end_slope': end['end_slope']})
+    return None if 'start' in res and 'end' in res and res['end'] <= res['start'] else res
 
-def intersect_semiline_hole(semiline, hole, res = []):
-    if 'start' not in semiline:
-        if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
-            if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
-        else: res.append(semiline)
-    else: # elif 'end' not in semiline:
-        if hole['start'] > semiline['start']:
-            if hole['end'] > semiline['start']: res.append({'start': semiline['start'], 'end': hole['end'], 'start_slope': semiline['start_slope'], 'end_slope': hole['end_slope']})
-            res.append({'start': hole['start'], 'start_slope': hole['start_slope']})
-        else: res.append(semiline)
-    return res
+def intersect_interval_lists(ints1, ints2): # Of any two lists of disjoint intervals
+    return [i for a in ints1 for b in ints2 if (i := intersect_intervals(a, b)) is not None]
 
 
 
@@ -181,29 +156,12 @@ def intersect_semiline_hole(semiline, hole, res = []):
 
 def simplify_sigmoidal_intervals(sigmoidals): return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
 
-def simplify_sigmoidal_intervals_step(acc, new):
-    if acc is None: return acc
-    step_res = simplify_sigmoidal_interval_pair(acc, new)
-    return None if step_res is None else identify_interval_type(step_res)
+def simplify_sigmoidal_intervals_step(acc, new): return identify_interval_type(simplify_sigmoidal_interval_pair(acc, new))
 
-# Intersect two DIFFERENT TYPES of sigmoid parameters (apply after reducing same type ones)
+# Intersect two sigmoid parameters (apply after reducing same type ones); a list of intervals (possibly empty) is returned unless there is exactly one
 def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of (sigmoid_str, parameters)
-    pair = {b_ips1[0]: [b_ips1[1], b_ips2[1]]} if b_ips1[0] == b_ips2[0] else dict([b_ips1, b_ips2])
-    res = []
-    if len(pair) == 2: # Always when called directly
-        if 'SIr' in pair:
-            for interval in pair['SIr']:
-                new_interval = simplify_sigmoidal_interval_pair([(x, pair[x]) for x in pair if x != 'SIr'][0], identify_interval_type(interval))
-                if new_interval != []: res.append(new_interval)
-        elif 'SI' in pair:
-            new_interval = intersect_segment_semiline(pair['SI'], pair['S' if 'S' in pair else 'Sr'])
-            if new_interval is not None: res.append(new_interval)
-        elif pair['S']['start'] < pair['Sr']['end']: res.append({**pair['S'], **pair['Sr']})
-    else: # Only happens when called by itself for SIr case
-        if 'SI' in pair: res = SI_overlap(pair['SI'])
-        elif 'S' in pair: res = S_overlap(pair['S'])
-        else: res = (Sr_overlap(pair['Sr']))
-    return res[0] if isinstance(res, list) and len(res) == 1 else res
+    res = intersect_interval_lists(*[ips if isinstance(ips, list) else [ips] for b, ips in (b_ips1, b_ips2)])
+    return res[0] if len(res) == 1 else res
 
 
 def identify_interval_type(interval):
-- 
2.43.0


From 83c3954c90d154eaf8ec09730b3209d867d3dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 08/20] fix: bounded intervals' change slopes are described
 only when they are fit parameters

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0960297..0c8c6c3 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -81,7 +81,7 @@ def postmodifier_interpretation(bps):
                 else: interval_ress.append('from {:.2f} (with change slope {:.2f})'.format(interval['start'], interval['start_slope']))
             else:
                 interval_ress.append('between {:.2f} and {:.2f}'.format(interval['start'], interval['end']))
-                if __FIX_SIGMOIDAL_KERNELS_SLOPE:
+                if not __FIX_SIGMOIDAL_KERNELS_SLOPE:
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-- 
2.43.0


From bee0ff099de61364c68f8c8b52966d19f4f653ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 09/20] fix: verbose searches no longer crash on empty model
 lists or 0 rounds

---
 GPy_ABCD/Models/modelSearch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..4d37ba4 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
@@ -96,13 +96,14 @@ def explore_model_space(X, Y,
     elif isinstance(beam, int): beam = [beam] * rounds
     else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
 
-    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
+    shown = beam[0] if beam else len(sorted_models) # No beam values are left for 0 rounds
+    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {shown if beam else 0} moving forward]: {print_k_list(not_expanded[:shown])}')
 
     sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = model_search_rounds(X, Y,
                         sorted_models, tested_models, tested_k_exprs, expanded, not_expanded,
                         model_list_fitter, p_rules, utility_function, rounds, beam, restarts, optimiser, max_retries, verbose)
 
-    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:beam[0]])}\n')
+    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:shown])}\n')
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
 
-- 
2.43.0


From ffb532a523a8e2e5905caf82306eaf84c797908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 10/20] fix: continued searches accept the same beam arguments
 as new ones and run all the requested rounds

---
 GPy_ABCD/Models/modelSearch.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 4d37ba4..07f256c 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -45,6 +45,14 @@ def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_opt
     with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
 
 
+def beam_per_round(beam, rounds):
+    '''Ensure the beam argument is a list of integers of length rounds (repeating the last value if required)'''
+    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
+        return beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
+    elif isinstance(beam, int): return [beam] * rounds
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def explore_model_space(X, Y,
                         start_kernels: List[Union[str, KernelExpression]] = start_kernels['Default'], p_rules: List[Callable] = production_rules['Default'],
                         utility_function: Callable = BIC, rounds: int = 2, beam: Union[int, List[int]] = [3, 2, 1], restarts: int = 5,
@@ -90,12 +98,7 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
-
+    beam = beam_per_round(beam, rounds)
     shown = beam[0] if beam else len(sorted_models) # No beam values are left for 0 rounds
     if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {shown if beam else 0} moving forward]: {print_k_list(not_expanded[:shown])}')
 
@@ -117,6 +120,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
     def score(m): return m.compute_utility(utility_function)
+    beam = beam_per_round(beam, rounds)
 
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
-- 
2.43.0


From 28a3147cec7ebb44db0bfefafb9e2274ae2cdfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 11/20] fix: continuing a search neither modifies the previous
 search's result lists nor reports on its rounds

---
 GPy_ABCD/Models/modelSearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 07f256c..afa8fe0 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -121,6 +121,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     '''
     def score(m): return m.compute_utility(utility_function)
     beam = beam_per_round(beam, rounds)
+    tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded) # Do not modify the given search's own lists
 
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
@@ -131,7 +132,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
         not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list
         tested_k_exprs += new_k_exprs
 
-        if verbose: print(f'Round-{r} models [{len(tested_models[r])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[r][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
+        if verbose: print(f'Round-{r} models [{len(tested_models[-1])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[-1][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
 
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
-- 
2.43.0


From 351ed350e3b19dc85519f36e16abecdba42bc0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 12/20] fix: refitting a model discards the canonical form of
 its previous fit

---
 GPy_ABCD/Models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..3d67f2d 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -25,6 +25,7 @@ class GPModel():
         if restarts is None:
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
+        self._sum_of_prods_kex = None # Any previous one is of the previous fit
         self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-- 
2.43.0


From 7665855d6c07d90029ca823e11e3a00e96f04fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 13/20] fix: list difference does not stop at the first absent
 element

---
 GPy_ABCD/Util/genericUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Util/genericUtil.py b/GPy_ABCD/Util/genericUtil.py
index ac999f0..1d31ede 100644
--- a/GPy_ABCD/Util/genericUtil.py
+++ b/GPy_ABCD/Util/genericUtil.py
@@ -108,9 +108,9 @@ def eq_elems_h(xs: Iterable[_a], ys: Iterable[_a]) -> bool: return set(xs) == se
 
 def diff(xs: Iterable[_a], ys: Iterable[_a]) -> List[_a]:
     cxs = list(xs) # make a mutable copy
-    try:
-        for y in ys: cxs.remove(y)
-    except ValueError: pass
+    for y in ys:
+        try: cxs.remove(y)
+        except ValueError: pass
     return cxs
 def diff_h(xs: Iterable[_a], ys: Iterable[_a]) -> Set[_a]: return set(xs) - set(ys)
 
-- 
2.43.0


From aaf34daa42965b9888a720a16d5e7f81526f0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 14/20] fix: synthetic data is not truncated to integers when
 its first value is one

---
 GPy_ABCD/Util/dataAndPlottingUtil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Util/dataAndPlottingUtil.py b/GPy_ABCD/Util/dataAndPlottingUtil.py
index fcd0c0b..7db4fad 100644
--- a/GPy_ABCD/Util/dataAndPlottingUtil.py
+++ b/GPy_ABCD/Util/dataAndPlottingUtil.py
@@ -12,7 +12,7 @@ def gg_plot(X, Y, colour = 'blue'):
 
 def gg_f_plot(f, X, colour = 'blue'):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X)
+    Y = np.vectorize(f, otypes = [float])(X)
     df = pd.DataFrame({'X': X[:, 0], 'Y': Y[:, 0]})
     return ggplot(df) + geom_line(aes('X', 'Y'), color = colour)
 # print(gg_f_plot(lambda x: x**2, range(20)))
@@ -25,7 +25,7 @@ def cp_f_maker(f1, f2, cp, line_up = False):
     def cp_f_lined_up(x):
         if x < cp: return f1(x)
         else: return (f1(cp) - f2(cp)) + f2(x)
-    return np.vectorize(cp_f_lined_up if line_up else cp_f)
+    return np.vectorize(cp_f_lined_up if line_up else cp_f, otypes = [float])
 
 def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
     def cw_f(x):
@@ -35,12 +35,12 @@ def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
         if x < cw_start: return f1(x)
         elif x > cw_end: return (cw_f_lined_up(cw_end) - f1(cw_end)) + f1(x)
         else: return (f1(cw_start) - f2(cw_start)) + f2(x)
-    return np.vectorize(cw_f_lined_up if line_up else cw_f)
+    return np.vectorize(cw_f_lined_up if line_up else cw_f, otypes = [float])
 
 
 def generate_data(f, X, Y_weight = 1, noise_weight = 1):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
+    Y = np.vectorize(f, otypes = [float])(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
     return X, Y
 # X, Y = generate_data(lambda x: x**2, range(20))
 # print(gg_plot(X, Y))
-- 
2.43.0


From 9411d080bb0c311ee13562eeb65d2576b3cc6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 15/20] fix: parameter gradients of linear and sigmoidal
 kernels between two different sets of inputs

---
 GPy_ABCD/Kernels/linearOffsetKernel.py |  2 +-
 GPy_ABCD/Kernels/sigmoidalKernels.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GPy_ABCD/Kernels/linearOffsetKernel.py b/GPy_ABCD/Kernels/linearOffsetKernel.py
index 7eece4e..311ddbc 100644
--- a/GPy_ABCD/Kernels/linearOffsetKernel.py
+++ b/GPy_ABCD/Kernels/linearOffsetKernel.py
@@ -67,7 +67,7 @@ class LinearWithOffset(Kern):
     def update_gradients_full(self, dL_dK, X, X2=None):
         if X2 is None: X2 = X
         dK_dV = (X - self.offset) * (X2 - self.offset).T
-        dK_do = self.variance * (2 * self.offset - X - X2)
+        dK_do = self.variance * (2 * self.offset - X - X2.T)
 
         self.variance.gradient = np.sum(dL_dK * dK_dV)
         self.offset.gradient   = np.sum(dL_dK * dK_do)
diff --git a/GPy_ABCD/Kernels/sigmoidalKernels.py b/GPy_ABCD/Kernels/sigmoidalKernels.py
index feb5ae0..7fca4ec 100644
--- a/GPy_ABCD/Kernels/sigmoidalKernels.py
+++ b/GPy_ABCD/Kernels/sigmoidalKernels.py
@@ -126,13 +126,13 @@ def _update_gradients_full_S_2(variance, location, slope, _fixed_slope, phi1, ph
     sig_d, sig_d2 = _sigmoid_function_d(arg), _sigmoid_function_d(arg2)
 
     dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = sig_d * (-arg / slope)
         dphi2_ds = sig_d2 * (-arg2 / slope)
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
@@ -207,19 +207,19 @@ def _update_gradients_full_SI(variance, location, slope, width, reverse, _fixed_
 
     dphi1_dl = ((- sig_d + sig_dW) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
     dphi2_dl = ((- sig_d2 + sig_dW2) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = ((sig_d * arg + sig_dW * argW) / (-slope)) * inv_height + numerator1 * dinvheight_ds
         dphi2_ds = ((sig_d2 * arg2 + sig_dW2 * argW2) / (-slope)) * inv_height + numerator2 * dinvheight_ds
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
     dphi1_dw = (sig_dW / slope) * inv_height + numerator1 * dinvheight_dw # d(asc)_dw = 0
     dphi2_dw = (sig_dW2 / slope) * inv_height + numerator2 * dinvheight_dw # d(asc)_dw = 0
-    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + phi2.dot(dphi1_dw.T))).sum()
+    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + dphi1_dw.dot(phi2.T))).sum()
     if np.isnan(width_gradient): width_gradient = 0.0
 
     if reverse: # Works this simply (a single sign flip per product above)
-- 
2.43.0


From 394c707fc4d8a8a74151fbd7234d2d61bd5a4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 16/20] fix: alternative change-window kernels evaluate and
 differentiate their linked sub-kernels rather than the unlinked originals

---
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..2212956 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # The linked copies, i.e. the ones whose parameters are the fit ones
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..26162b2 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # The linked copies, i.e. the ones whose parameters are the fit ones
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From ef044a42022ec48801aba8498f467c850fc77c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 17/20] fix: swapping a base kernel for itself no longer adds a
 copy of it

---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..ae66871 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B] # With bt == B the Counter would only add B
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From 73086943a8de3cd790487970472232859d2fedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 18/20] fix: composite terms given as the same object, or one
 within the other, are copied separately

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index ebd9464..387f49c 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -12,7 +12,7 @@ class SumOrProductKE(KernelExpression): # Abstract
     def __init__(self, base_terms, composite_terms = [], root: KernelExpression = None, parent: KernelExpression = None, symbol = None, GPy_name = None):
         super().__init__(root, parent, GPy_name)
         self.base_terms = deepcopy(base_terms) if isinstance(base_terms, Counter) else Counter(base_terms)
-        self.composite_terms = deepcopy(composite_terms)
+        self.composite_terms = [deepcopy(ct) for ct in composite_terms] # One at a time in order not to share any node between terms
         self.symbol = symbol
         # self.simplify_base_terms() # Activate only this instead of full simplify for some testing
         self.simplify()
-- 
2.43.0


From c5550f48a725ce67cb865c53cef718af0ab43920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 19/20] fix: plots of sample curves left out the last of the
 requested curves

---
 GPy_ABCD/Util/kernelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index be7f07b..5888aeb 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -18,7 +18,7 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
-    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(Z.shape[1]))[1:])) +\
+    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(1, Z.shape[1] + 1)))) +\
             geom_line(aes('X', 'value', color = 'variable'), show_legend = False)
 
 
-- 
2.43.0


From 0b707e3ce62569c79acb9e33df65dea58c64244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 20/20] fix: saving sample curves always failed and ignored the
 given path

---
 GPy_ABCD/Util/kernelUtil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index 5888aeb..38782dc 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -1,3 +1,4 @@
+import os
 import numpy as np
 import pandas as pd
 from plotnine import ggplot, geom_line, aes
@@ -23,6 +24,6 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
 
 
 def saveKernelSamples(ks, names, path, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
-    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).savefig(f'{n}.png')
+    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).save(os.path.join(path, f'{n}.png'))
 
 
-- 
2.43.0

