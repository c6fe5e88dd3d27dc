From f6755804a26096aecce76b55f2556b7ab1744513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 01/18] fix: assigning a DuoVector to itself no longer destroys
 its elements

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..9b4a25c 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -64,6 +64,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
@@ -98,6 +99,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
-- 
2.43.0


From d1a26922af634ffa66a03d635290810fd08fae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 02/18] fix: CoefRepr::ToString prints every label of a sum

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From 6761f4904d1a25ad4c2c6d5596e3cbe89ec7c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 03/18] fix: CoefRepr ordering agrees with its equality

---
 .../one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index e017a1c..4f9c1d5 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -77,19 +77,19 @@ class CoefRepr {
   }
 
   bool operator<(const CoefRepr &rhs) const {
-    return coef_label_list_ < rhs.coef_label_list_;
+    return SortedLabels_() < rhs.SortedLabels_();
   }
 
   bool operator<=(const CoefRepr &rhs) const {
-    return coef_label_list_ <= rhs.coef_label_list_;
+    return SortedLabels_() <= rhs.SortedLabels_();
   }
 
   bool operator>(const CoefRepr &rhs) const {
-    return coef_label_list_ > rhs.coef_label_list_;
+    return SortedLabels_() > rhs.SortedLabels_();
   }
 
   bool operator>=(const CoefRepr &rhs) const {
-    return coef_label_list_ >= rhs.coef_label_list_;
+    return SortedLabels_() >= rhs.SortedLabels_();
   }
 
   CoefRepr &operator+=(const CoefRepr &rhs) {
@@ -152,6 +152,13 @@ class CoefRepr {
   }
 
  private:
+  // Equality ignores the order in which labels were added, so must the ordering.
+  std::vector<CNumberLabel> SortedLabels_(void) const {
+    std::vector<CNumberLabel> labels(coef_label_list_);
+    std::sort(labels.begin(), labels.end());
+    return labels;
+  }
+
   std::vector<CNumberLabel> coef_label_list_;
 };
 
-- 
2.43.0


From b83525667aa57631aeb377b0032a56d707809f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 04/18] fix: FSMNode::Site returns the site

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..42c33f2 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 435dc12f0e4f3df301186c90b0b30ed83ba6bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 05/18] fix: adding the same on-site term twice counts it twice

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 42c33f2..bebbe4e 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,12 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx
+        || fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // Identity shared by all paths that stay in the ready or final state
     }
   }
 }
-- 
2.43.0


From 0d27a916efb34abdca278e9e3ae41bd8b3ac08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 06/18] fix: storing the null element in a SparMat cell empties
 the cell

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
index 62f108d..4a4559d 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
@@ -67,8 +67,11 @@ class SparMat {
   }
 
   void SetElem(const size_t x, const size_t y, const ElemType &elem) {
-    if (elem == nullelem) { return; }
     auto offset = CalcOffset(x, y);
+    if (elem == nullelem) {
+      indexes[offset] = -1;
+      return;
+    }
     if (indexes[offset] == -1) {
       data.push_back(elem);
       long idx = data.size() - 1;
-- 
2.43.0


From 78f5ea3a2c827fc5fded7c63e12fba85031802f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 07/18] fix: ParseSizeTVec rejects negative and non-integer
 entries

---
 include/qlmps/case_params_parser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..6b9da2e 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -109,7 +109,11 @@ class CaseParamsParserBasic {
   std::vector<size_t> ParseSizeTVec(
       const std::string &item
   ) {
-    return StrictParse<std::vector<size_t>>(item, "array(unsigned integer)");
+    std::vector<size_t> parsed;
+    if (TryParseSizeTVec(item, parsed)) return parsed;
+    if (!Has(item)) ReportAndExitMissing(item, "array(unsigned integer)");
+    ReportAndExitMissingOrInvalid(item, "array(unsigned integer)", case_params_.at(item).type_name());
+    return parsed;
   }
 
   /// Parse a std::vector<double> parameter.
-- 
2.43.0


From c479a6ee99799348d641cdbb4c9933caaec2a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 08/18] fix: iFSM links of the last site lead back into the
 unit cell

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index c201426..7509a8c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -31,14 +31,14 @@ class iFSM {
     for (size_t site = 0; site < unit_cell_site_num; site++) {
       auto &fsm_nn_links = fsm_nn_links_set_[site];
       FSMNode ready_node = FSMNode(site, kFSMReadyStatIdx);
-      FSMNode next_ready_node = FSMNode(site + 1, kFSMReadyStatIdx);
+      FSMNode next_ready_node = FSMNode((site + 1) % unit_cell_site_num, kFSMReadyStatIdx);
 
       std::map < OpRepr, FSMNode > link_from_ready_to_ready;
       link_from_ready_to_ready.insert(std::make_pair(id_ops[site], next_ready_node));
       fsm_nn_links[ready_node] = link_from_ready_to_ready;
 
       FSMNode final_node = FSMNode(site, kFSMFinalStatIdx);
-      FSMNode next_final_node = FSMNode(site + 1, kFSMFinalStatIdx);
+      FSMNode next_final_node = FSMNode((site + 1) % unit_cell_site_num, kFSMFinalStatIdx);
 
       std::map < OpRepr, FSMNode > link_from_final_to_final;
       link_from_final_to_final.insert(std::make_pair(id_ops[site], next_final_node));
-- 
2.43.0


From bb747a0d8fca4c22268aa149d572cc0111f3326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 09/18] fix: iFSM::AddPath creates the links of new nodes
 instead of throwing

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index 7509a8c..c79c852 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -109,8 +109,8 @@ inline void iFSM::AddPath(const size_t head_site,
     size_t target_site = (last_site + 1) % unit_cell_site_num_;
     auto &fsm_nn_links = fsm_nn_links_set_[last_site];
     if (!open_new_path) { //still go along the old path
-      auto link_op2node_iter = fsm_nn_links.at(last_node).find(opr);
-      if (link_op2node_iter != fsm_nn_links.at(last_node).cend()
+      auto link_op2node_iter = fsm_nn_links[last_node].find(opr);
+      if (link_op2node_iter != fsm_nn_links[last_node].cend()
           && (link_op2node_iter->second.Stat() != kFSMFinalStatIdx)) {
         //found, still go along the old way
         FSMNode next_node = link_op2node_iter->second;
@@ -120,14 +120,14 @@ inline void iFSM::AddPath(const size_t head_site,
         mid_stat_nums_[target_site]++;
         FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
         fsm_path.AddNode(i + 1, new_node);
-        fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+        fsm_nn_links[last_node].insert(std::make_pair(opr, new_node));
         open_new_path = true;
       }
     } else {
       mid_stat_nums_[target_site]++;
       FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
       fsm_path.AddNode(i + 1, new_node);
-      fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+      fsm_nn_links[last_node].insert(std::make_pair(opr, new_node));
     }
   }
   //the last operator
@@ -138,7 +138,7 @@ inline void iFSM::AddPath(const size_t head_site,
   fsm_path.AddNode(phys_site_num, end_node);
   if (open_new_path) {
     auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
-    fsm_nn_links.at(penultimate_node).insert(std::make_pair(ntrvl_ops.back(), end_node));
+    fsm_nn_links[penultimate_node].insert(std::make_pair(ntrvl_ops.back(), end_node));
   } else {
     std::cout << "Same Operator Terms!" << std::endl;
     exit(1);
-- 
2.43.0


From ab19ed368da6aa060e0fcb5bea1b48dab2964284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 10/18] fix: iFSM adds up the operators that link the same two
 states

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index c79c852..166242b 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -187,7 +187,7 @@ inline SparOpReprMat iFSM::CastToMatRepr_(const size_t site) const {
       if (col == kFSMFinalStatIdx) {
         col = mat_cols - 1;
       }
-      mat.SetElem(row, col, opr);
+      mat.SetElem(row, col, mat(row, col) + opr);
     }
   }
   return mat;
-- 
2.43.0


From 22e3f040dd5f6ad3aa15cca49b1b2a761345f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 11/18] fix: MPOGenerator::AddTerm put the trailing insertion
 operator also on the last physical site

With an insertion operator behind the last physical operator and no explicit
insertion sites, the tail string started at the last physical site itself.
The duplicate was ignored when the term was laid out, but its sign was still
moved into the coefficient, so the sign of the term could be wrong.
---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From daf6fbe8cc41e54e6aa9ea4c6a330968e7efe609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:40 +0000
Subject: [PATCH 12/18] fix: tJOperators::bdnc_multi_bupa and bupc_multi_bdna
 held each other's matrix

c^dagger_dn c_up maps |up> to |dn>; the element stored was <up|.|dn>, which is c^dagger_up c_dn, and the other way round.
---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From 955d556c3bf658f2b63828e878e7ce62ce9e4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:17 +0000
Subject: [PATCH 13/18] fix: Lanczos solvers wrote past their Krylov buffers
 when max_iterations is 1

---
 include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 2 +-
 include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h       | 2 +-
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h      | 2 +-
 include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 2 +-
 include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h     | 2 +-
 include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..ad30558 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..e139725 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..1633eea 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..4c039ff 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..9222b69 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..b5f68c3 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m == params.max_iterations) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From bf1f4726cf34d6c58692da27a3ae0d6da21407d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:17 +0000
Subject: [PATCH 14/18] fix: MasterLanczosSolver reported one Krylov vector
 less than it used

---
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 1633eea..6c1a57d 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -219,7 +219,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #ifdef QLMPS_TIMING_MODE
       Timer lancozs_post_precessing("lancz_post_processing");
 #endif
-      lancz_res.iters = m;
+      lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
       LanczosFree(eigvec, bases, last_mat_mul_vec_res);
-- 
2.43.0


From 665b80970c41638c44b3431e410f172ef0aa2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:17 +0000
Subject: [PATCH 15/18] fix: MasterLanczosExpmvSolver dropped the norm of the
 state it evolves, unlike the serial solver

---
 include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index e139725..ad7062e 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -64,7 +64,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
 #ifdef QLMPS_TIMING_MODE
   Timer normalize_timer("lancz_normlize");
 #endif
-  pinit_state->Normalize();
+  QLTEN_Double initial_norm = pinit_state->Normalize();
   bases[0] = pinit_state;
 #ifdef QLMPS_TIMING_MODE
   normalize_timer.PrintElapsed();
@@ -118,7 +118,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
         QLTEN_Complex evolution_phase_factor{0.0, -step_length * a[0]};
-        (*expmv_res.expmv) = (qlmps::complex_exp(evolution_phase_factor)) * (*bases[0]);
+        (*expmv_res.expmv) = (initial_norm * qlmps::complex_exp(evolution_phase_factor)) * (*bases[0]);
       } else {
 #ifdef QLMPS_TIMING_MODE
         trigssolver.Restart();
@@ -129,6 +129,9 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
         Timer final_linear_combine_timer("lancz_finial_linear_combine");
 #endif
         expmv_res.expmv = new TenT(bases[0]->GetIndexes());
+        for (size_t i = 0; i < m; i++) {
+          combination_factor[i] *= initial_norm;
+        }
         LinearCombine(m, combination_factor, bases, QLTEN_Complex(0.0), expmv_res.expmv);
 #ifdef QLMPS_TIMING_MODE
         final_linear_combine_timer.PrintElapsed();
@@ -180,6 +183,9 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
 #endif
       expmv_res.iters = m + 1;
       expmv_res.expmv = new TenT(bases[0]->GetIndexes());
+      for (size_t i = 0; i < m + 1; i++) {
+        combination_factor[i] *= initial_norm;
+      }
       LinearCombine(m + 1, combination_factor, bases, QLTEN_Complex(0.0), expmv_res.expmv);
 #ifdef QLMPS_TIMING_MODE
       final_linear_combine_timer.PrintElapsed();
-- 
2.43.0


From d1975a3311136789414bd615a2f3073e3a2b2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:17 +0000
Subject: [PATCH 16/18] fix: two-site VMPS with an empty noise list ran the
 noise-free algorithm and then a second, noised one

---
 .../algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h | 2 +-
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..f382b03 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -67,7 +67,7 @@ inline QLTEN_Double TwoSiteFiniteVMPSWithNoise_(
       std::cerr << "noise parameters setting conflict" << std::endl;
       exit(-1);
     }
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
   }
   int rank;
   MPI_Comm_rank(comm, &rank);
diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From ad819a34e7bec2e5367b8f5ceab89ac674fdc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:19 +0000
Subject: [PATCH 17/18] fix: iFSM exited with 'Same Operator Terms!' for
 single-site terms and for terms sharing all but the last operator

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index 166242b..99c34e7 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -136,10 +136,8 @@ inline void iFSM::AddPath(const size_t head_site,
   assert(tail_site == (penultimate_node.Site() + 1) % unit_cell_site_num_);
   FSMNode end_node(tail_site, kFSMFinalStatIdx);
   fsm_path.AddNode(phys_site_num, end_node);
-  if (open_new_path) {
-    auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
-    fsm_nn_links[penultimate_node].insert(std::make_pair(ntrvl_ops.back(), end_node));
-  } else {
+  auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
+  if (!fsm_nn_links[penultimate_node].insert(std::make_pair(ntrvl_ops.back(), end_node)).second) {
     std::cout << "Same Operator Terms!" << std::endl;
     exit(1);
   }
-- 
2.43.0


From f6c2599621ffc72e075f79c76a966b77c5315faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:31 +0000
Subject: [PATCH 18/18] fix: FiniteMPO::Load of an uncentralized operator kept
 the canonical forms of the old tensors

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..9b5cf39 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -315,6 +315,8 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
       for (size_t i = center_ + 1; i < this->size(); i++) {
         tens_cano_type_[i] = MPOTenCanoType::RIGHT;
       }
+    } else {
+      tens_cano_type_ = std::vector<MPOTenCanoType>(this->size(), MPOTenCanoType::NONE);
     }
   }
 
-- 
2.43.0

