// Declaration-only stand-in for TensorToolkit (qlten), used only to type-check /repo's headers.
// Nothing here is ever linked or executed.
#ifndef QLTEN_STUB_H
#define QLTEN_STUB_H
#include <vector>
#include <string>
#include <complex>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <cmath>
#include <cstring>
#include <cassert>
#include <chrono>
#include <thread>
#include <algorithm>
#include <numeric>
#include <initializer_list>
#include <utility>
#include <type_traits>
#include <mpi.h>
#include <omp.h>
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using std::vector; using std::string;
using std::sqrt; using std::abs; using std::norm; using std::conj; using std::exp; using std::real; using std::imag;
using CoorsT = std::vector<size_t>;
using ShapeT = std::vector<size_t>;
enum TenIndexDirType { NDIR, IN, OUT };
const std::string kQLTenFileSuffix = "qlten";
const size_t kMPIMasterRank = 0;
class QNVal { public: virtual ~QNVal(); };
class U1QNVal : public QNVal { public: U1QNVal(int); };
class QNCard { public: QNCard(const std::string &, const U1QNVal &); QNCard(const std::string &, int); };
namespace special_qn {
class U1QN { public: U1QN(); U1QN(int); U1QN(const std::vector<QNCard> &); U1QN(std::initializer_list<QNCard>);
  U1QN operator-() const; U1QN &operator+=(const U1QN &); U1QN operator+(const U1QN &) const; U1QN operator-(const U1QN &) const; bool operator==(const U1QN &) const; bool operator!=(const U1QN &) const; size_t Hash() const; size_t dim() const; };
class TrivialRepQN { public: TrivialRepQN(); TrivialRepQN(const std::vector<QNCard> &);
  TrivialRepQN operator-() const; TrivialRepQN &operator+=(const TrivialRepQN &); TrivialRepQN operator+(const TrivialRepQN &) const; TrivialRepQN operator-(const TrivialRepQN &) const; bool operator==(const TrivialRepQN &) const; bool operator!=(const TrivialRepQN &) const; size_t Hash() const; size_t dim() const; };
class U1U1QN { public: U1U1QN(); U1U1QN(int, int); U1U1QN(const std::vector<QNCard> &); U1U1QN(std::initializer_list<QNCard>);
  U1U1QN operator-() const; U1U1QN &operator+=(const U1U1QN &); U1U1QN operator+(const U1U1QN &) const; U1U1QN operator-(const U1U1QN &) const; bool operator==(const U1U1QN &) const; bool operator!=(const U1U1QN &) const; size_t Hash() const; size_t dim() const; };
class fZ2QN;
class U1U1ZnQN_;
}
template<typename QNT> class QNSector { public: QNSector(); QNSector(const QNT &, size_t); size_t GetDegeneracy() const; size_t dim() const; const QNT &GetQn() const; size_t Hash() const; bool operator==(const QNSector &) const; bool operator!=(const QNSector &) const; };
template<typename QNT> class Index {
 public:
  Index(); Index(const std::vector<QNSector<QNT>> &, TenIndexDirType); Index(std::vector<QNSector<QNT>> &&, TenIndexDirType);
  size_t dim() const; TenIndexDirType GetDir() const; size_t GetQNSctNum() const; const QNSector<QNT> &GetQNSct(size_t) const; const std::vector<QNSector<QNT>> &GetQNScts() const;
  QNSector<QNT> GetQNSctFromActualCoor(size_t) const; std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t) const;
  void Inverse(); size_t Hash() const; bool operator==(const Index &) const; bool operator!=(const Index &) const;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &);
struct QNSctsOffsetInfo { size_t a, b, c, d; QNSctsOffsetInfo(); QNSctsOffsetInfo(size_t, size_t, size_t, size_t); };
template<typename ElemT, typename QNT> struct BlockSparseDataTensor { size_t GetActualRawDataSize() const; size_t DataSizeGet() const; void Clear(); void MPI_Send(const MPI_Comm &, size_t, int) const; MPI_Status MPI_Recv(const MPI_Comm &, int, int); void CollectiveLinearCombine(const std::vector<const BlockSparseDataTensor *> &); };
template<typename ElemT, typename QNT> class QLTensor {
 public:
  QLTensor(); QLTensor(const std::vector<Index<QNT>> &); QLTensor(std::vector<Index<QNT>> &&); QLTensor(const std::initializer_list<Index<QNT>> &);
  QLTensor(const QLTensor &); QLTensor(QLTensor &&) noexcept; ~QLTensor(); QLTensor &operator=(const QLTensor &); QLTensor &operator=(QLTensor &&) noexcept;
  size_t Rank() const; size_t size() const; const std::vector<Index<QNT>> &GetIndexes() const; const Index<QNT> &GetIndex(size_t) const; const ShapeT &GetShape() const; bool IsScalar() const; bool IsDefault() const;
  size_t GetQNBlkNum() const; const BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen() const; BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen();
  using Ref = ElemT &;
  ElemT GetElem(const std::vector<size_t> &) const; void SetElem(const std::vector<size_t> &, const ElemT);
  ElemT operator()(const std::vector<size_t> &) const; Ref operator()(const std::vector<size_t> &);
  ElemT operator()() const; Ref operator()();
  ElemT operator()(size_t, size_t) const; Ref operator()(size_t, size_t);
  template<typename... A> ElemT operator()(size_t, size_t, size_t, A...) const; template<typename... A> Ref operator()(size_t, size_t, size_t, A...);
  void Random(const QNT &); void Random(); void Fill(const QNT &, const ElemT); void Transpose(const std::vector<size_t> &); void Dag(); QLTEN_Double Normalize(); QLTEN_Double QuasiNormalize(); QLTEN_Double Get2Norm() const; QLTEN_Double GetQuasi2Norm() const; QLTEN_Double GetMaxAbs() const; QNT Div() const;
  void ActFermionPOps(); void FuseIndex(size_t, size_t); void ElementWiseInv(double); void ElementWiseSqrt();
  bool operator==(const QLTensor &) const; bool operator!=(const QLTensor &) const; QLTensor operator-() const; QLTensor operator+(const QLTensor &) const; QLTensor operator-(const QLTensor &) const;
  QLTensor &operator+=(const QLTensor &); QLTensor operator*(const ElemT) const; QLTensor &operator*=(const ElemT);
  void StreamRead(std::istream &); void StreamWrite(std::ostream &) const;
  void Show(size_t = 0) const; void ConciseShow(size_t = 0) const; std::vector<double> GetRawDataPtr() const;
  size_t GetActualDataSize() const; ElemT GetFirstNonZeroElement() const; double GetRawDataMemUsage() const; void MPI_Bcast(const size_t, const MPI_Comm &); void MPI_Send(int, int, const MPI_Comm &) const; MPI_Status MPI_Recv(int, int, const MPI_Comm &);
  void GetIndexMut(); size_t GetActualRawDataSize() const;
  static constexpr bool IsFermionic() { return false; }
};
template<typename E, typename Q> QLTensor<E, Q> operator*(const E &, const QLTensor<E, Q> &);
template<typename Q> QLTensor<QLTEN_Complex, Q> operator*(const double, const QLTensor<QLTEN_Complex, Q> &);
template<typename E, typename Q> std::ostream &operator<<(std::ostream &, const QLTensor<E, Q> &);
template<typename E, typename Q> std::istream &operator>>(std::istream &, QLTensor<E, Q> &);
template<typename Q> std::ostream &operator<<(std::ostream &, const Index<Q> &);
template<typename Q> std::istream &operator>>(std::istream &, Index<Q> &);
template<typename E, typename Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &);
template<typename E, typename Q> Q Div(const QLTensor<E, Q> &);
template<typename E, typename Q> QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<E, Q> &);
template<typename A, typename B, typename C, typename Q> void Contract(const QLTensor<A, Q> *, const QLTensor<B, Q> *, const std::vector<std::vector<size_t>> &, QLTensor<C, Q> *);
template<typename A, typename B, typename C, typename Q> void Contract(const QLTensor<A, Q> *, const std::vector<size_t> &, const QLTensor<B, Q> *, const std::vector<size_t> &, QLTensor<C, Q> *);
template<typename E, typename Q> void Contract(const QLTensor<E, Q> &, const std::vector<size_t> &, const QLTensor<E, Q> &, const std::vector<size_t> &, QLTensor<E, Q> &);
template<typename E, typename Q, bool a = true, bool b = true> void Contract(const QLTensor<E, Q> &, const QLTensor<E, Q> &, size_t, size_t, size_t, QLTensor<E, Q> &);
template<typename E, typename Q> void SVD(const QLTensor<E, Q> *, const size_t, const Q &, const QLTEN_Double, const size_t, const size_t, QLTensor<E, Q> *, QLTensor<QLTEN_Double, Q> *, QLTensor<E, Q> *, QLTEN_Double *, size_t *);
template<typename E, typename Q> void QR(const QLTensor<E, Q> *, const size_t, const Q &, QLTensor<E, Q> *, QLTensor<E, Q> *);
template<typename E, typename Q> void LinearCombine(const std::vector<double> &, const std::vector<QLTensor<E, Q> *> &, const double, QLTensor<E, Q> *);
template<typename E, typename Q> void LinearCombine(const size_t, const E *, const std::vector<QLTensor<E, Q> *> &, const E, QLTensor<E, Q> *);
template<typename Q> void LinearCombine(const size_t, const double *, const std::vector<QLTensor<QLTEN_Complex, Q> *> &, const QLTEN_Complex, QLTensor<QLTEN_Complex, Q> *);
template<typename E, typename Q> void LinearCombine(const E, const QLTensor<E, Q> &, const E, const QLTensor<E, Q> &, QLTensor<E, Q> *);
template<typename E, typename Q> void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>> &, QLTensor<E, Q> &);
template<typename E, typename Q> void CollectiveLinearCombine(const std::vector<QLTensor<E, Q> *> &, QLTensor<E, Q> &);
template<typename E, typename Q> void Expand(const QLTensor<E, Q> *, const QLTensor<E, Q> *, const std::vector<size_t> &, QLTensor<E, Q> *);
template<typename E, typename Q> void ExpandMC(const QLTensor<E, Q> *, const QLTensor<E, Q> *, const std::vector<size_t> &, QLTensor<E, Q> *);
template<typename Q> Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q> &, const Index<Q> &, std::map<size_t, int> &);
template<typename Q> Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q> &, const Index<Q> &, std::vector<QNSctsOffsetInfo> &);
template<typename E, typename Q> void ExpandQNBlocks(const QLTensor<E, Q> *, const QLTensor<E, Q> *, const std::vector<size_t> &, QLTensor<E, Q> *);
inline double CalcConj(double d) { return d; }
inline QLTEN_Complex CalcConj(QLTEN_Complex z) { return std::conj(z); }
template<typename Q> Index<Q> FuseTwoIndex(const Index<Q> &, const Index<Q> &, TenIndexDirType);
template<typename E, typename Q> QLTensor<E, Q> Eye(const Index<Q> &);
template<typename E, typename Q> QLTensor<E, Q> IndexCombine(const Index<Q> &, const Index<Q> &, TenIndexDirType);
std::istream &bfread(std::istream &, void *, size_t);
std::ostream &bfwrite(std::ostream &, const void *, size_t);
template<typename E, typename Q> void MPI_Send(const QLTensor<E, Q> &, int, int, const MPI_Comm &);
template<typename E, typename Q> MPI_Status MPI_Recv(QLTensor<E, Q> &, int, int, const MPI_Comm &);
template<typename E, typename Q> void MPI_Bcast(QLTensor<E, Q> *, const size_t, const MPI_Comm &);
template<typename E, typename Q> void MPI_Bcast(QLTensor<E, Q> &, const int, const MPI_Comm &);
template<typename Q> void MPI_Send(const Index<Q> &, int, int, const MPI_Comm &);
template<typename Q> MPI_Status MPI_Recv(Index<Q> &, int, int, const MPI_Comm &);
void HANDLE_MPI_ERROR(int);
enum ExecutorStatus { INITED, EXEING, FINISH };
class Executor { public: Executor(); virtual ~Executor(); virtual void Execute() = 0; ExecutorStatus GetStatus() const; void SetStatus(const ExecutorStatus &); };
template<typename E, typename Q> class TensorContraction1SectorExecutor : public Executor { public:
  TensorContraction1SectorExecutor(const QLTensor<E, Q> *, size_t, size_t, const QLTensor<E, Q> *, const std::vector<std::vector<size_t>> &, QLTensor<E, Q> *);
  TensorContraction1SectorExecutor(const QLTensor<E, Q> *, const size_t, const size_t, const QLTensor<E, Q> *, const std::vector<size_t> &, const std::vector<size_t> &, QLTensor<E, Q> *);
  void SetSelectedQNSect(size_t); void Execute() override; };
void SetTensorManipulationThreads(unsigned);
unsigned GetTensorManipulationThreads();
void SetTensorTransposeNumThreads(unsigned);
inline namespace hp { namespace hp_numeric { void SetTensorManipulationThreads(unsigned); void SetTensorTransposeNumThreads(unsigned); unsigned GetTensorManipulationThreads(); extern int tensor_manipulation_num_threads;
  template<typename E, typename = std::enable_if_t<std::is_arithmetic_v<E>>> void MPI_Send(const E, int, int, const MPI_Comm &);
  template<typename E, typename = std::enable_if_t<std::is_arithmetic_v<E>>> MPI_Status MPI_Recv(E &, int, int, const MPI_Comm &);
  template<typename E, typename = std::enable_if_t<std::is_arithmetic_v<E>>> void MPI_Bcast(E *, const size_t, const MPI_Comm &);
  template<typename E, typename F> void VectorScale(E *, const size_t, const F);
  template<typename E> void VectorAddTo(const E *, const size_t, E *, const double); template<typename E> double Vector2Norm(const E *, const size_t); template<typename E> double VectorSumSquares(const E *, const size_t); } }
template<typename T> std::vector<T> InverseVec(const std::vector<T> &);
void VecPrint();
template<typename E, typename Q> void MPISVDMaster(const QLTensor<E, Q> *, const size_t, const Q &, const QLTEN_Double, const size_t, const size_t, QLTensor<E, Q> *, QLTensor<QLTEN_Double, Q> *, QLTensor<E, Q> *, QLTEN_Double *, size_t *, const MPI_Comm &);
template<typename E> void MPISVDSlave(const MPI_Comm &);
const double kDoubleEpsilon = 1.0E-15;
struct IndentPrinter { IndentPrinter(size_t); };
std::ostream &operator<<(std::ostream &, const IndentPrinter &);
}
#include "qlten/utility/timer.h"
#endif
