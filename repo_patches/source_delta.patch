From 2e157cf098dcad1c4a1fc1c1108263c1bab2a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 1/7] fix: keep the species label when a pole is substituted
 into a line

update_G_pole built a fresh g_struct and left species_ at its default, so
species labels were lost after the first Matsubara sum although they are
documented to propagate to the final expression.
---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c15bc74 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From 6c20b367b584e910bee014f36a236eb80bf08b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 2/7] fix: find_poles on an empty product

R[0] was read before checking that the product has any lines; residues of
products whose lines all share one pole are empty.
---
 src/ami_base_construct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c15bc74..1234664 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -195,6 +195,11 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  // an empty product has no poles
+  if (R.size() == 0) {
+    return pole_array;
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0


From a6b6696e709e67eeb420afaccc7dd356c88f3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 3/7] fix: factorize_Rn keeps the position of products without
 lines

Skipping them shifted the indices in Eval_list, which are used as positions
in the coefficient list.
---
 src/ami_base_optimize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..3ad8621 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,9 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    // a product without lines keeps its (empty) entry, since Eval_list refers
+    // to products by their position in Rn
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From 649372c0d369fbeeed575d2d33b774332efa1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 4/7] fix: g_struct_equiv for lines without non-zero
 coefficients

signs.back() was called on an empty vector.
---
 src/ami_base_optimize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 3ad8621..d13f872 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -430,7 +430,8 @@ bool AmiBase::g_struct_equiv(g_struct &g1, g_struct &g2, int &sign) {
 
   if (std::adjacent_find(signs.begin(), signs.end(),
                          std::not_equal_to<int>()) == signs.end()) {
-    sign = signs.back();
+    // lines without any coefficient have no sign to compare
+    sign = signs.empty() ? 1 : signs.back();
   } else {
     return false;
   }
-- 
2.43.0


From 9f40fa56a5fa3dd094d839b3166ffd674352ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 5/7] fix: accumulate the spectral frequency shift over all
 frequencies

Only the last term of the linear combination was kept.
---
 src/ami_base_evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..ec67d22 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -419,7 +419,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
   std::complex<double> freq_shift(0, 0);
   if (pole.x_alpha_.size() != 0) {
     for (int i = 0; i < pole.x_alpha_.size(); i++) {
-      freq_shift = external.frequency_[i] * (double)pole.x_alpha_[i];
+      freq_shift += external.frequency_[i] * (double)pole.x_alpha_[i];
     }
   }
 
-- 
2.43.0


From 64a91bd9b9e5f073f567795f1edc4a52df4ef920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 6/7] fix: initialise the problem levels in detect_otf_trigger

If only one kind of problem is found the other level was compared
uninitialised with the problem level.
---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index ec67d22..926d4a0 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -968,8 +968,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From ceca7a980c453698c2af08677ed06164f684c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 7/7] fix: apply the overall prefactor once per term in
 optimised evaluation

Every unique line was multiplied by the prefactor squared (once inside
eval_gprod and once again), so optimised and plain evaluation only agreed for
prefactors of modulus one.
---
 src/ami_base_evaluate.cpp       | 12 ++++++++----
 src/ami_base_terms_evaluate.cpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 926d4a0..0da9b68 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -88,6 +88,10 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
   
 
+  // the overall prefactor enters once per term, not once per unique G
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -96,7 +100,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +109,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -114,8 +118,8 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for
-                                  // each g. we then add that back later
+    unique_vals.push_back(gprod); // Without the overall prefactor, which is
+                                  // added below for each term
   }
 
 
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..d850c84 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,10 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // the overall prefactor enters once per term, not once per unique G
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -43,7 +47,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +56,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -61,7 +65,8 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for each g. we then add that back later
+    unique_vals.push_back(gprod); // Without the overall prefactor, which is
+                                  // added below for each term
   }
 
   // now evaluate each term in list
-- 
2.43.0

