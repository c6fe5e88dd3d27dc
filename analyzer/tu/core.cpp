// Instantiates every template of the headers that do not need TensorToolkit.
#include <vector>
#include <map>
#include <string>
#include <iostream>
#include <algorithm>
#include <cmath>
#include <complex>
#include "qlmps/one_dim_tn/framework/duovector.h"
#include "qlmps/case_params_parser.h"
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
#include "qlmps/memory_monitor.h"
#include "qlmps/algorithm/lanczos_params.h"

struct AnElem { AnElem(); AnElem(const AnElem &); AnElem(AnElem &&); AnElem &operator=(const AnElem &); ~AnElem(); int x; };
template class qlmps::DuoVector<AnElem>;

std::ostream &operator<<(std::ostream &, const CoefRepr &);
struct LabObj { bool operator==(const LabObj &) const; LabObj operator-() const; };
std::ostream &operator<<(std::ostream &, const LabObj &);
template class LabelConvertor<LabObj>;
template class SparMat<CoefRepr>;
template class SparMat<OpRepr>;

struct OpObj { OpObj(); OpObj(const OpObj &); OpObj &operator=(const OpObj &); OpObj &operator+=(const OpObj &); };
OpObj operator*(const double, const OpObj &);
OpObj operator*(const OpObj &, const double);
double use_core(CoefRepr &c, OpRepr &o, std::vector<double> &cv, std::vector<OpObj> &ov, std::vector<CoefRepr> &crv) {
  o.Realize(cv, ov);
  o.ToString(cv);
  c.ToString(cv);
  long pos; ElemInVec(c, crv, pos);
  return c.Realize(cv);
}
// every special member is needed, so that a tree in which one is no longer user-defined shows the implicit one
template <typename T> void specials(const T &a, T &b, T &&c) { T x(a); T y(static_cast<T &&>(b)); b = a; b = static_cast<T &&>(c); }
void use_specials(qlmps::DuoVector<AnElem> &d, CoefRepr &c, OpRepr &o, SparMat<CoefRepr> &m, SparMat<OpRepr> &n, SparOpReprMat &s, FSMPath &p, FSMNode &q, LabelConvertor<LabObj> &l) {
  specials(d, d, static_cast<qlmps::DuoVector<AnElem> &&>(d)); specials(c, c, static_cast<CoefRepr &&>(c)); specials(o, o, static_cast<OpRepr &&>(o));
  specials(m, m, static_cast<SparMat<CoefRepr> &&>(m)); specials(n, n, static_cast<SparMat<OpRepr> &&>(n)); specials(s, s, static_cast<SparOpReprMat &&>(s));
  specials(p, p, static_cast<FSMPath &&>(p)); specials(q, q, static_cast<FSMNode &&>(q)); specials(l, l, static_cast<LabelConvertor<LabObj> &&>(l));
}
