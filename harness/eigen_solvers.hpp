// Contract for Eigen's dense decompositions (forced include, symbolic build only).
// Factorisation and substitution are replaced by the solver contract `vf_solve`: the result x of solve(b)
// satisfies A x = b whenever A has full row rank (decided by the engine), and is arbitrary otherwise.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <cassert>

extern "C" void vf_solve(const double* a, int rows, int cols, int rowStride, int colStride, const double* b, int bStride,
                         double* x, int mode);
extern "C" int vf_rank(const double* a, int rows, int cols, int rowStride, int colStride);

namespace vf {
template <int R, int C, int O, int MR, int MC>
class Dec {
 public:
  typedef Eigen::Matrix<double, R, C, O, MR, MC> MatrixType;
  typedef Eigen::Matrix<double, R, C, O, MR, MC> _MatrixType;
  typedef double Scalar;
  typedef double RealScalar;
  typedef Eigen::Index Index;
  Dec() : init_(false) {}
  Dec(Index r, Index c) : a_(r, c), init_(false) {}
  explicit Dec(Index r) : a_(r, r), init_(false) {}
  template <class D>
  explicit Dec(const Eigen::EigenBase<D>& m) : a_(m.derived()), init_(true) {}
  template <class D>
  void assign(const Eigen::EigenBase<D>& m) { a_ = m.derived(); init_ = true; }
  template <class Rhs>
  Eigen::Matrix<double, C, Rhs::ColsAtCompileTime> solve(const Eigen::MatrixBase<Rhs>& rhs) const {
    assert(init_ && "decomposition is not initialized");
    assert(rhs.rows() == a_.rows() && "wrong number of rows of the right hand side");
    const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> b = rhs;
    Eigen::Matrix<double, C, Rhs::ColsAtCompileTime> x(a_.cols(), b.cols());
    Eigen::Matrix<double, Eigen::Dynamic, 1> xi(a_.cols());
    for (Index k = 0; k < b.cols(); ++k) {
      vf_solve(a_.data(), (int)a_.rows(), (int)a_.cols(), (int)a_.rowStride(), (int)a_.colStride(), b.data() + k * b.rows(), 1,
               xi.data(), 0);
      for (Index j = 0; j < a_.cols(); ++j) x(j, k) = xi(j);
    }
    return x;
  }
  Eigen::Matrix<double, C, R> inverse() const {
    return solve(Eigen::Matrix<double, R, R>::Identity(a_.rows(), a_.rows()));
  }
  Index rows() const { return a_.rows(); }
  Index cols() const { return a_.cols(); }
  Index rank() const { return vf_rank(a_.data(), (int)a_.rows(), (int)a_.cols(), (int)a_.rowStride(), (int)a_.colStride()); }
  Index dimensionOfKernel() const { return a_.cols() - rank(); }
  bool isInvertible() const { return a_.rows() == a_.cols() && rank() == a_.rows(); }
  bool isSurjective() const { return rank() == a_.rows(); }
  bool isInjective() const { return rank() == a_.cols(); }
  Eigen::ComputationInfo info() const { return Eigen::Success; }
 protected:
  MatrixType a_;
  bool init_;
};
}  // namespace vf

#define VF_DEC(NAME)                                                                                 \
  template <int R, int C, int O, int MR, int MC>                                                     \
  class NAME<Matrix<double, R, C, O, MR, MC> > : public vf::Dec<R, C, O, MR, MC> {                   \
   public:                                                                                           \
    using vf::Dec<R, C, O, MR, MC>::Dec;                                                             \
    NAME() {}                                                                                        \
    template <class D>                                                                               \
    NAME& compute(const EigenBase<D>& m) { this->assign(m); return *this; }                          \
    NAME& setThreshold(double) { return *this; }                                                     \
    NAME& setThreshold(Default_t) { return *this; }                                                  \
  };
#define VF_DEC2(NAME)                                                                                \
  template <int R, int C, int O, int MR, int MC, int P>                                              \
  class NAME<Matrix<double, R, C, O, MR, MC>, P> : public vf::Dec<R, C, O, MR, MC> {                 \
   public:                                                                                           \
    using vf::Dec<R, C, O, MR, MC>::Dec;                                                             \
    NAME() {}                                                                                        \
    template <class D>                                                                               \
    NAME(const EigenBase<D>& m, unsigned int) { this->assign(m); }                                   \
    template <class D>                                                                               \
    NAME& compute(const EigenBase<D>& m, unsigned int = 0) { this->assign(m); return *this; }        \
    NAME& setThreshold(double) { return *this; }                                                     \
  };
namespace Eigen {
VF_DEC(ColPivHouseholderQR)
VF_DEC(FullPivHouseholderQR)
VF_DEC(HouseholderQR)
VF_DEC(PartialPivLU)
VF_DEC(FullPivLU)
VF_DEC(CompleteOrthogonalDecomposition)
VF_DEC2(LLT)
VF_DEC2(LDLT)
VF_DEC2(JacobiSVD)
}  // namespace Eigen
