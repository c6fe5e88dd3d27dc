// Type-checks the whole library against declaration-only stand-ins of TensorToolkit and instantiates every template.
#include <vector>
#include <map>
#include <string>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <cmath>
#include <complex>
#include "qlmps/qlmps.h"
using namespace qlmps;
std::ostream &operator<<(std::ostream &, const CoefRepr &);
using namespace qlten;
namespace astdump_inst {
using TenElemT = QLTEN_Double;
using ElemT = QLTEN_Double;
using QNT = special_qn::U1QN;
using Tensor_ = QLTensor<TenElemT, QNT>;
using TenT = Tensor_;
using DTenT = QLTensor<QLTEN_Double, QNT>;
using LocalTenT = Tensor_;
using AvgT = QLTEN_Double;
using ElemType = Tensor_;
using Distance__ElemType = QLTEN_Double;
using T = size_t;
using LanczosFree__T = double;
using CoefT = double;
using OpT = Tensor_;
using VecT = std::vector<size_t>;
using TenElemT2 = QLTEN_Double;
using QNT2 = special_qn::U1QN;
using CTen_ = QLTensor<QLTEN_Complex, QNT>;
using LanczosExpmvSolver__TenT = CTen_; using MasterLanczosExpmvSolver__TenT = CTen_;
using ActMpoOnMps__TenElemT = QLTEN_Complex;
using ActOperatorOnMps__TenElemT = QLTEN_Complex;
using CalPsi1OpPsi2__TenElemT = QLTEN_Complex;
using MasterSingleSiteFiniteTDVPBackwardEvolution__TenElemT = QLTEN_Complex;
using MasterTwoSiteFiniteTDVP__TenElemT = QLTEN_Complex;
using MasterTwoSiteFiniteTDVPEvolution__TenElemT = QLTEN_Complex;
using MasterTwoSiteFiniteTDVPSweep__TenElemT = QLTEN_Complex;
using SingleSiteFiniteTDVPBackwardEvolution__TenElemT = QLTEN_Complex;
using SlaveTwoSiteFiniteTDVP__TenElemT = QLTEN_Complex;
using TwoSiteFiniteTDVP__TenElemT = QLTEN_Complex;
using TwoSiteFiniteTDVPEvolution__TenElemT = QLTEN_Complex;
using TwoSiteFiniteTDVPSweep__TenElemT = QLTEN_Complex;
using OperatorT = SpinOneHalfOperators<QLTEN_Double, special_qn::U1QN>;
}
using E_ = QLTEN_Double;
using C_ = QLTEN_Complex;
using Q_ = special_qn::U1QN;
using TQ_ = special_qn::TrivialRepQN;
using UU_ = special_qn::U1U1QN;
using Ten_ = QLTensor<E_, Q_>;
template class qlmps::DuoVector<Ten_>;
template class qlmps::TenVec<Ten_>;
template class qlmps::MPS<E_, Q_>;
template class qlmps::FiniteMPS<E_, Q_>;
template class qlmps::FiniteMPO<E_, Q_>;
template class qlmps::SiteVec<E_, Q_>;
template class qlmps::MPOGenerator<E_, Q_>;
template class SparMat<CoefRepr>;
template class SparMat<OpRepr>;
template class LabelConvertor<Ten_>;
template class qlmps::DMRGExecutor<E_, Q_>;
template class qlmps::DMRGMPIMasterExecutor<E_, Q_>;
template class qlmps::DMRGMPISlaveExecutor<E_, Q_>;
template class qlmps::EffectiveHamiltonian<Ten_>;
template class qlmps::sites::SpinOneHalfSite<Q_>; template class qlmps::sites::SpinOneHalfSite<TQ_>;
template class qlmps::sites::tJSite<Q_>; template class qlmps::sites::tJSite<TQ_>; template class qlmps::sites::tJSite<UU_>;
template class qlmps::sites::HubbardSite<Q_>; template class qlmps::sites::HubbardSite<TQ_>; template class qlmps::sites::HubbardSite<UU_>;
template class qlmps::SpinOneHalfOperators<E_, Q_>; template class qlmps::SpinOneHalfOperators<C_, TQ_>;
template class qlmps::tJOperators<E_, Q_>; template class qlmps::tJOperators<E_, TQ_>; template class qlmps::tJOperators<E_, UU_>;
template class qlmps::HubbardOperators<E_, Q_>; template class qlmps::HubbardOperators<C_, TQ_>; template class qlmps::HubbardOperators<E_, UU_>;
inline void force_builtins_(void *a, void *b) { __builtin_memcpy(a, b, 1); __builtin_memmove(a, b, 1); }

inline void instantiate_model_terms_(MPOGenerator<C_, Q_> &g, C_ t, size_t i, size_t j, const tJOperators<C_, Q_> &tj, const HubbardOperators<C_, Q_> &hb) {
  AddTJHoppingTerms(g, t, i, j, tj); AddHeisenbergCoupling(g, 1.0, i, j, tj); AddHubbardHoppingTerms(g, 1.0, i, j, hb);
}
