// Laws: each function states one fact about the library for ALL values of its arguments.  They are never compiled into
// a program or run: the front end reads them together with the current headers, the abstract interpreter derives the
// normal form of the result, and a law holds when that form is `true` (a law returns true where its premise fails).
#include <vector>
#include <map>
#include <string>
#include <iostream>
#include <algorithm>
#include <cmath>
#include <complex>
#include "qlmps/one_dim_tn/framework/duovector.h"
#include "qlmps/case_params_parser.h"
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
#include "qlmps/algorithm/lanczos_params.h"
using qlmps::DuoVector; using std::size_t;
namespace laws {
struct Val { int x; Val() : x(0) {} };
typedef DuoVector<Val> Duo;

// ------------------------------------------------------------------ C02
bool C02_copy_has_same_length(const Duo &a) { Duo b(a); return b.size() == a.size(); }
bool C02_copy_keeps_exactly_the_empty_slots(const Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo b(a); return (b(i) == nullptr) == (a(i) == nullptr);
}
bool C02_copy_owns_its_elements(const Duo &a, size_t i) {
  if (i >= a.size() || a(i) == nullptr) return true;
  const Duo b(a); return b(i) != a(i) && b[i].x == a[i].x;
}
bool C02_copy_is_independent(const Duo &a, size_t i, int v) {
  if (i >= a.size() || a(i) == nullptr) return true;
  const int old = a[i].x;
  Duo b(a); b[i].x = v; return a[i].x == old;
}
bool C02_assigned_has_same_length(const Duo &a, Duo &b) { if (&a == &b) return true; b = a; return b.size() == a.size(); }
bool C02_assigned_keeps_exactly_the_empty_slots(const Duo &a, size_t i) {
  if (i >= a.size()) return true;
  Duo b(3); b = a; const Duo &c = b; return (c(i) == nullptr) == (a(i) == nullptr);
}
bool C02_assigned_owns_its_elements(const Duo &a, size_t i) {
  if (i >= a.size() || a(i) == nullptr) return true;
  Duo b(3); b = a; const Duo &c = b; return c(i) != a(i) && c[i].x == a[i].x;
}
bool C02_self_assignment_changes_nothing(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const Val *p = c(i); const size_t n = a.size(); a = c; return c.size() == n && c(i) == p;
}
bool C02_move_transfers_every_element(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const Val *p = c(i); const Duo b(static_cast<Duo &&>(a)); return b(i) == p;
}
bool C02_moved_from_owns_nothing(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const Duo b(static_cast<Duo &&>(a)); return i >= c.size() || c(i) == nullptr;
}
bool C02_move_assignment_transfers_every_element(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const Val *p = c(i); Duo b(2); b = static_cast<Duo &&>(a); const Duo &d = b; return d(i) == p && (i >= c.size() || c(i) == nullptr);
}
bool C02_alloc_yields_a_fresh_default_element(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const Val *p = c(i); a.alloc(i); return c(i) != nullptr && c(i) != p && c[i].x == 0;
}
bool C02_alloc_leaves_other_slots(Duo &a, size_t i, size_t j) {
  if (i >= a.size() || j >= a.size() || i == j) return true;
  const Duo &c = a; const Val *p = c(j); a.alloc(i); return c(j) == p;
}
bool C02_dealloc_empties_the_slot(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; a.dealloc(i); return c(i) == nullptr;
}
bool C02_dealloc_leaves_other_slots(Duo &a, size_t i, size_t j) {
  if (i >= a.size() || j >= a.size() || i == j) return true;
  const Duo &c = a; const Val *p = c(j); a.dealloc(i); return c(j) == p;
}
bool C02_clear_empties_every_slot(Duo &a, size_t i) {
  if (i >= a.size()) return true;
  const Duo &c = a; const size_t n = a.size(); a.clear(); return c.size() == n && c(i) == nullptr;
}
bool C02_element_access_stores(Duo &a, size_t i, int v) {
  if (i >= a.size()) return true;
  a[i].x = v; const Duo &c = a; return c(i) != nullptr && c[i].x == v;
}
bool C02_element_access_leaves_other_slots(Duo &a, size_t i, size_t j, int v) {
  if (i >= a.size() || j >= a.size() || i == j) return true;
  const Duo &c = a; const Val *p = c(j); a[i].x = v; return c(j) == p;
}
bool C02_new_container_is_empty(size_t n, size_t i) { if (i >= n) return true; const Duo a(n); return a.size() == n && a(i) == nullptr; }

// ------------------------------------------------------------------ C04
template <typename T> bool eq_reflexive(const T &a) { return a == a; }
template <typename T> bool eq_symmetric(const T &a, const T &b) { return (a == b) == (b == a); }
template <typename T> bool ne_negates(const T &a, const T &b) { return (a != b) == !(a == b); }
template <typename T> bool eq_transitive(const T &a, const T &b, const T &c) { return !(a == b && b == c) || a == c; }
template <typename T> bool lt_irreflexive(const T &a) { return !(a < a); }
template <typename T> bool lt_asymmetric(const T &a, const T &b) { return !(a < b && b < a); }
template <typename T> bool lt_transitive(const T &a, const T &b, const T &c) { return !(a < b && b < c) || a < c; }
template <typename T> bool lt_total(const T &a, const T &b) { return a == b || a < b || b < a; }
template <typename T> bool lt_not_eq(const T &a, const T &b) { return !(a == b && a < b); }
bool C04_coef_eq_reflexive(const CoefRepr &a) { return eq_reflexive(a); }
bool C04_coef_eq_symmetric(const CoefRepr &a, const CoefRepr &b) { return eq_symmetric(a, b); }
bool C04_coef_eq_transitive(const CoefRepr &a, const CoefRepr &b, const CoefRepr &c) { return eq_transitive(a, b, c); }
bool C04_coef_ne_negates(const CoefRepr &a, const CoefRepr &b) { return ne_negates(a, b); }
bool C04_coef_lt_irreflexive(const CoefRepr &a) { return lt_irreflexive(a); }
bool C04_coef_lt_asymmetric(const CoefRepr &a, const CoefRepr &b) { return lt_asymmetric(a, b); }
bool C04_coef_lt_transitive(const CoefRepr &a, const CoefRepr &b, const CoefRepr &c) { return lt_transitive(a, b, c); }
bool C04_coef_lt_total(const CoefRepr &a, const CoefRepr &b) { return lt_total(a, b); }
bool C04_coef_lt_excludes_eq(const CoefRepr &a, const CoefRepr &b) { return lt_not_eq(a, b); }
bool C04_coef_gt_mirrors_lt(const CoefRepr &a, const CoefRepr &b) { return (a > b) == (b < a); }
bool C04_coef_le_is_lt_or_eq(const CoefRepr &a, const CoefRepr &b) { return (a <= b) == (a < b || a == b); }
bool C04_coef_ge_is_gt_or_eq(const CoefRepr &a, const CoefRepr &b) { return (a >= b) == (a > b || a == b); }
bool C04_op_eq_reflexive(const OpRepr &a) { return eq_reflexive(a); }
bool C04_op_eq_symmetric(const OpRepr &a, const OpRepr &b) { return eq_symmetric(a, b); }
bool C04_op_eq_transitive(const OpRepr &a, const OpRepr &b, const OpRepr &c) { return eq_transitive(a, b, c); }
bool C04_op_ne_negates(const OpRepr &a, const OpRepr &b) { return ne_negates(a, b); }
bool C04_op_lt_irreflexive(const OpRepr &a) { return lt_irreflexive(a); }
bool C04_op_lt_asymmetric(const OpRepr &a, const OpRepr &b) { return lt_asymmetric(a, b); }
bool C04_op_lt_excludes_eq(const OpRepr &a, const OpRepr &b) { return lt_not_eq(a, b); }
bool C04_op_lt_total(const OpRepr &a, const OpRepr &b) { return lt_total(a, b); }
bool C04_op_lt_transitive(const OpRepr &a, const OpRepr &b, const OpRepr &c) { return lt_transitive(a, b, c); }
bool C04_node_eq_reflexive(const FSMNode &a) { return eq_reflexive(a); }
bool C04_node_eq_symmetric(const FSMNode &a, const FSMNode &b) { return eq_symmetric(a, b); }
bool C04_node_lt_irreflexive(const FSMNode &a) { return lt_irreflexive(a); }
bool C04_node_lt_asymmetric(const FSMNode &a, const FSMNode &b) { return lt_asymmetric(a, b); }
bool C04_node_lt_total(const FSMNode &a, const FSMNode &b) { return lt_total(a, b); }
bool C04_node_lt_transitive(const FSMNode &a, const FSMNode &b, const FSMNode &c) { return lt_transitive(a, b, c); }
bool C04_node_gt_mirrors_lt(const FSMNode &a, const FSMNode &b) { return (a > b) == (b < a); }

// ------------------------------------------------------------------ C03
bool C03_coef_sum_realises_to_sum(const CoefRepr &a, const CoefRepr &b, const std::vector<double> &v) { return (a + b).Realize(v) == a.Realize(v) + b.Realize(v); }
bool C03_coef_add_assign_is_sum(const CoefRepr &a, const CoefRepr &b) { CoefRepr c(a); c += b; return c == a + b; }
bool C03_coef_sum_commutes(const CoefRepr &a, const CoefRepr &b) { return a + b == b + a; }
bool C03_coef_sum_associates(const CoefRepr &a, const CoefRepr &b, const CoefRepr &c) { return (a + b) + c == a + (b + c); }
bool C03_coef_null_is_neutral(const CoefRepr &a) { return a + CoefRepr() == a && CoefRepr() + a == a; }
bool C03_coef_copy_equals(const CoefRepr &a) { CoefRepr b(a); CoefRepr c; c = a; return b == a && c == a; }
bool C03_coef_sum_leaves_operands(CoefRepr &a, CoefRepr &b) { const CoefRepr a0(a), b0(b); a + b; return a == a0 && b == b0; }
bool C03_coef_doubling(const CoefRepr &a, const std::vector<double> &v) { CoefRepr c(a); c += c; return c.Realize(v) == 2.0 * a.Realize(v); }
bool C03_single_label_realises_to_its_coefficient(const std::vector<double> &v, long l) { if (l < 0 || static_cast<size_t>(l) >= v.size()) return true; return CoefRepr(l).Realize(v) == v[l]; }
bool C03_null_realises_to_zero(const std::vector<double> &v) { return CoefRepr().Realize(v) == 0.0; }
bool C03_op_sum_commutes(const OpRepr &a, const OpRepr &b) { return a + b == b + a; }
bool C03_op_null_is_neutral(const OpRepr &a) { return a + OpRepr() == a && OpRepr() + a == a; }
bool C03_op_add_assign_is_sum(const OpRepr &a, const OpRepr &b) { OpRepr c(a); c += b; return c == a + b; }
bool C03_op_copy_equals(const OpRepr &a) { OpRepr b(a); OpRepr c; c = a; return b == a && c == a; }
bool C03_op_sum_leaves_operands(OpRepr &a, OpRepr &b) { const OpRepr a0(a), b0(b); a + b; return a == a0 && b == b0; }
bool C03_separated_coefficient_times_base_is_the_operator(const OpRepr &a) {
  if (a == OpRepr()) return true;
  auto cb = SeparateCoefAndBase(a); return CoefReprOpReprIncompleteMulti(cb.first, cb.second) == a;
}
bool C03_common_coefficient_is_the_separated_one(const OpRepr &a) { return GetOpReprCoef(a) == SeparateCoefAndBase(a).first; }
bool C03_membership_is_equality_with_an_entry(const CoefRepr &a, const std::vector<CoefRepr> &v) {
  long pos = 0; if (!ElemInVec(a, v, pos)) return pos == -1;
  return pos >= 0 && static_cast<size_t>(pos) < v.size() && v[pos] == a;
}
bool C03_non_membership(const CoefRepr &a, const std::vector<CoefRepr> &v, size_t i) { long pos = 0; return i >= v.size() || ElemInVec(a, v, pos) || !(v[i] == a); }

// ------------------------------------------------------------------ C05
typedef SparMat<CoefRepr> M;
bool C05_stored_element_is_read_back(M &m, size_t r, size_t c, const CoefRepr &e) { if (r >= m.rows || c >= m.cols || e == CoefRepr()) return true; m.SetElem(r, c, e); return m(r, c) == e && !m.IsNull(r, c); }
bool C05_store_leaves_other_places(M &m, size_t r, size_t c, const CoefRepr &e, size_t r2, size_t c2) {
  if (r >= m.rows || c >= m.cols || r2 >= m.rows || c2 >= m.cols || (r == r2 && c == c2)) return true;
  const CoefRepr old(m(r2, c2)); m.SetElem(r, c, e); return m(r2, c2) == old;
}
bool C05_null_places_read_as_null(const M &m, size_t r, size_t c) { if (r >= m.rows || c >= m.cols) return true; return !m.IsNull(r, c) || m(r, c) == CoefRepr(); }
bool C05_new_matrix_is_null(size_t R, size_t C, size_t r, size_t c) { if (r >= R || c >= C) return true; const M m(R, C); return m.rows == R && m.cols == C && m.IsNull(r, c); }
bool C05_row_swap(M &m, size_t a, size_t b, size_t c) {
  if (a >= m.rows || b >= m.rows || c >= m.cols) return true;
  const CoefRepr x(m(a, c)), y(m(b, c)); m.SwapTwoRows(a, b); return m(a, c) == y && m(b, c) == x;
}
bool C05_row_swap_leaves_others(M &m, size_t a, size_t b, size_t r, size_t c) {
  if (a >= m.rows || b >= m.rows || c >= m.cols || r >= m.rows || r == a || r == b) return true;
  const CoefRepr x(m(r, c)); m.SwapTwoRows(a, b); return m(r, c) == x;
}
bool C05_col_swap(M &m, size_t a, size_t b, size_t r) {
  if (a >= m.cols || b >= m.cols || r >= m.rows) return true;
  const CoefRepr x(m(r, a)), y(m(r, b)); m.SwapTwoCols(a, b); return m(r, a) == y && m(r, b) == x;
}
bool C05_col_swap_leaves_others(M &m, size_t a, size_t b, size_t r, size_t c) {
  if (a >= m.cols || b >= m.cols || c >= m.cols || r >= m.rows || c == a || c == b) return true;
  const CoefRepr x(m(r, c)); m.SwapTwoCols(a, b); return m(r, c) == x;
}
bool C05_removed_row_is_gone(M &m, size_t d, size_t r, size_t c) {
  if (d >= m.rows || m.rows < 2 || r + 1 >= m.rows || c >= m.cols) return true;
  const CoefRepr x(r < d ? m(r, c) : m(r + 1, c)); const size_t R = m.rows, C = m.cols; m.RemoveRow(d); return m.rows + 1 == R && m.cols == C && m(r, c) == x;
}
bool C05_removed_col_is_gone(M &m, size_t d, size_t r, size_t c) {
  if (d >= m.cols || m.cols < 2 || c + 1 >= m.cols || r >= m.rows) return true;
  const CoefRepr x(c < d ? m(r, c) : m(r, c + 1)); const size_t R = m.rows, C = m.cols; m.RemoveCol(d); return m.cols + 1 == C && m.rows == R && m(r, c) == x;
}
bool C05_row_reads_all_columns(const M &m, size_t r, size_t c) { if (r >= m.rows || c >= m.cols) return true; return m.GetRow(r).size() == m.cols && m.GetRow(r)[c] == m(r, c); }
bool C05_col_reads_all_rows(const M &m, size_t r, size_t c) { if (r >= m.rows || c >= m.cols) return true; return m.GetCol(c).size() == m.rows && m.GetCol(c)[r] == m(r, c); }
bool C05_copy_is_elementwise_equal(const M &m, size_t r, size_t c) { if (r >= m.rows || c >= m.cols) return true; M n(m); M k; k = m; return n.rows == m.rows && n.cols == m.cols && n(r, c) == m(r, c) && k.rows == m.rows && k.cols == m.cols && k(r, c) == m(r, c); }
bool C05_eq_reflexive(const M &m) { return m == m; }
bool C05_eq_symmetric(const M &m, const M &n) { return (m == n) == (n == m); }
bool C05_equal_matrices_agree_everywhere(const M &m, const M &n, size_t r, size_t c) { if (r >= m.rows || c >= m.cols || !(m == n)) return true; return m.rows == n.rows && m.cols == n.cols && m(r, c) == n(r, c); }

// ------------------------------------------------------------------ C06: a common coefficient of a row or column is really common
bool C06_row_coefficient_times_rest_is_the_row(SparOpReprMat &m, size_t r, size_t c) {
  if (r >= m.rows || c >= m.cols || m.IsNull(r, c)) return true;
  const OpRepr old(m(r, c)); const CoefRepr k = m.TryCatchRowCommonDivisorCoef(r); if (k == CoefRepr()) return true;
  m.RemoveRowCoef(r); return CoefReprOpReprIncompleteMulti(k, m(r, c)) == old || k == kIdCoefRepr;
}
bool C06_col_coefficient_times_rest_is_the_column(SparOpReprMat &m, size_t r, size_t c) {
  if (r >= m.rows || c >= m.cols || m.IsNull(r, c)) return true;
  const OpRepr old(m(r, c)); const CoefRepr k = m.TryCatchColCommonDivisorCoef(c); if (k == CoefRepr()) return true;
  m.RemoveColCoef(c); return CoefReprOpReprIncompleteMulti(k, m(r, c)) == old || k == kIdCoefRepr;
}
bool C06_row_sort_permutes_rows(SparOpReprMat &m, size_t r, size_t c) {
  if (r >= m.rows || c >= m.cols) return true;
  const SparOpReprMat old(m); const auto p = m.SortRows(); return p.size() == old.rows && m(r, c) == old(p[r], c);
}
bool C06_col_sort_permutes_cols(SparOpReprMat &m, size_t r, size_t c) {
  if (r >= m.rows || c >= m.cols) return true;
  const SparOpReprMat old(m); const auto p = m.SortCols(); return p.size() == old.cols && m(r, c) == old(r, p[c]);
}

// ------------------------------------------------------------------ C07
bool C07_one_matrix_per_site(size_t n, size_t head, const OpReprVec &ops) {
  if (n == 0 || ops.empty() || head + ops.size() > n) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); return f.GetFSMPaths().size() == 1 && f.phys_size() == n && f.fsm_size() == n + 1;
}
bool C07_path_carries_the_operators(size_t n, size_t head, const OpReprVec &ops, size_t i) {
  if (n == 0 || ops.empty() || head + ops.size() > n || i >= ops.size()) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); return f.GetFSMPaths()[0].op_reprs[head + i] == ops[i];
}
bool C07_path_is_identity_elsewhere(size_t n, size_t head, const OpReprVec &ops, const OpReprVec &ids, size_t i) {
  if (n == 0 || ids.size() != n || ops.empty() || head + ops.size() > n || i >= n || (i >= head && i < head + ops.size())) return true;
  FSM f(n, ids); f.AddPath(head, head + ops.size() - 1, ops); return f.GetFSMPaths()[0].op_reprs[i] == ids[i];
}
bool C07_path_starts_ready(size_t n, size_t head, const OpReprVec &ops, size_t i) {
  if (n == 0 || ops.empty() || head + ops.size() > n || i > head) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); return f.GetFSMPaths()[0].fsm_nodes[i].fsm_stat_idx == kFSMReadyStatIdx;
}
bool C07_path_ends_final(size_t n, size_t head, const OpReprVec &ops, size_t i) {
  if (n == 0 || ops.empty() || head + ops.size() > n || i > n || i < head + ops.size()) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); return f.GetFSMPaths()[0].fsm_nodes[i].fsm_stat_idx == kFSMFinalStatIdx;
}
bool C07_inner_states_are_new(size_t n, size_t head, const OpReprVec &ops, size_t i) {
  if (n == 0 || ops.empty() || head + ops.size() > n || i <= head || i >= head + ops.size()) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); const long s = f.GetFSMPaths()[0].fsm_nodes[i].fsm_stat_idx; return s != kFSMReadyStatIdx && s != kFSMFinalStatIdx;
}
bool C07_inner_states_are_not_shared(size_t n, size_t head, const OpReprVec &ops, size_t i) {
  if (n == 0 || ops.empty() || head + ops.size() > n || i <= head || i >= head + ops.size()) return true;
  FSM f(n); f.AddPath(head, head + ops.size() - 1, ops); f.AddPath(head, head + ops.size() - 1, ops);
  return f.GetFSMPaths()[0].fsm_nodes[i].fsm_stat_idx != f.GetFSMPaths()[1].fsm_nodes[i].fsm_stat_idx;
}
bool C07_node_keeps_its_site(FSMNode &a, size_t s, long t) { a.SetSite(s); a.SetStat(t); FSMNode b; b = a; return a.fsm_site_idx == s && a.fsm_stat_idx == t && b == a; }

// ------------------------------------------------------------------ C09
typedef LabelConvertor<long> L;
bool C09_label_names_the_object(L &l, long x) { const size_t k = l.Convert(x); return k < l.GetLabelObjMapping().size() && l.GetLabelObjMapping()[k] == x; }
bool C09_label_is_stable(L &l, long x, long y) { const size_t k = l.Convert(x); l.Convert(y); return l.Convert(x) == k; }
bool C09_known_objects_are_not_added(L &l, long x) { l.Convert(x); const size_t n = l.GetLabelObjMapping().size(); l.Convert(x); return l.GetLabelObjMapping().size() == n; }
bool C09_earlier_labels_keep_their_object(L &l, long x, size_t i) { const size_t n = l.GetLabelObjMapping().size(); if (i >= n) return true; const long o = l.GetLabelObjMapping()[i]; l.Convert(x); return l.GetLabelObjMapping()[i] == o; }
bool C09_distinct_objects_distinct_labels(L &l, long x, long y) { const size_t a = l.Convert(x), b = l.Convert(y); return x == y || a != b; }
bool C09_identity_has_label_zero(long id) { L l(id); return l.Convert(id) == 0 && l.GetLabelObjMapping().size() == 1; }

// ------------------------------------------------------------------ C13
bool C13_lanczos_arguments_arrive(double e, size_t n) { qlmps::LanczosParams p(e, n); return p.error == e && p.max_iterations == n; }
bool C13_lanczos_error_only(double e) { qlmps::LanczosParams p(e); return p.error == e && p.max_iterations == 200; }
bool C13_lanczos_defaults() { qlmps::LanczosParams p; return p.error == 1.0E-7 && p.max_iterations == 200; }
bool C13_lanczos_copy(const qlmps::LanczosParams &a) { qlmps::LanczosParams b(a); qlmps::LanczosParams c; c = a; return b.error == a.error && b.max_iterations == a.max_iterations && c.error == a.error && c.max_iterations == a.max_iterations; }

// ------------------------------------------------------------------ C01
typedef qlmps::CaseParamsParserBasic Ps;
bool C01_failed_try_leaves_int(Ps &p, const std::string &k, int x) { int y = x; return p.TryParseInt(k, y) || y == x; }
bool C01_failed_try_leaves_double(Ps &p, const std::string &k, double x) { double y = x; return p.TryParseDouble(k, y) || y == x; }
bool C01_failed_try_leaves_bool(Ps &p, const std::string &k, bool x) { bool y = x; return p.TryParseBool(k, y) || y == x; }
bool C01_failed_try_leaves_string(Ps &p, const std::string &k, const std::string &x) { std::string y = x; return p.TryParseStr(k, y) || y == x; }
bool C01_missing_try_fails(Ps &p, const std::string &k) { int y = 0; return p.Has(k) || !p.TryParseInt(k, y); }
bool C01_or_takes_default_when_missing_int(Ps &p, const std::string &k, int d) { return p.Has(k) || p.ParseIntOr(k, d) == d; }
bool C01_or_takes_default_when_missing_double(Ps &p, const std::string &k, double d) { return p.Has(k) || p.ParseDoubleOr(k, d) == d; }
bool C01_or_takes_default_when_missing_bool(Ps &p, const std::string &k, bool d) { return p.Has(k) || p.ParseBoolOr(k, d) == d; }
bool C01_or_takes_default_when_missing_string(Ps &p, const std::string &k, const std::string &d) { return p.Has(k) || p.ParseStrOr(k, d) == d; }
bool C01_or_takes_value_when_present_int(Ps &p, const std::string &k, int d) { return !p.Has(k) || p.ParseIntOr(k, d) == p.ParseInt(k); }
bool C01_or_takes_value_when_present_double(Ps &p, const std::string &k, double d) { return !p.Has(k) || p.ParseDoubleOr(k, d) == p.ParseDouble(k); }
bool C01_try_agrees_with_parse_int(Ps &p, const std::string &k) { int y = 0; return !p.TryParseInt(k, y) || y == p.ParseInt(k); }
bool C01_try_agrees_with_parse_double(Ps &p, const std::string &k) { double y = 0; return !p.TryParseDouble(k, y) || y == p.ParseDouble(k); }
}
