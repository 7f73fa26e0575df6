// Replacements for Eigen's iterative and pivoting decompositions (only where the harness is built
// with SYMI_STUBS). Each records the matrix it was given and answers with values constrained only
// by the harness, in the replay build too.
#pragma once
#include "symi.h"
#include <vector>
#include <string>
namespace symistub {
using M = Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic>;
struct Rec { int kind; M A, B, X, V; };           // 1 solve, 2 svd, 3 self-adjoint eigen, 4 QR
inline std::vector<Rec> &log() { static std::vector<Rec> l; return l; }
// the harness decides what each decomposition answers
using Fn = M (*)(int index, const M &A, const M &B);
inline Fn &solveFn() { static Fn f = nullptr; return f; }     // X of A X = B
inline Fn &svdVFn() { static Fn f = nullptr; return f; }      // V of A = U S V'
inline Fn &eigVFn() { static Fn f = nullptr; return f; }      // eigenvectors
inline Fn &eigLFn() { static Fn f = nullptr; return f; }      // eigenvalues (n x 1)
inline Fn &qrQFn() { static Fn f = nullptr; return f; }       // full Q
inline bool &genuine() { static bool g = false; return g; }    // Eigen's own solver, eigen and QR decomposition (not the SVD)
}
namespace Eigen {
template <typename MT, int Extra = 0> struct SymiSolve {
  using M = symistub::M; M A_;
  SymiSolve() {} template <typename D> explicit SymiSolve(const EigenBase<D> &m) : A_(m.derived()) {}
  template <typename D> SymiSolve &compute(const EigenBase<D> &m) { A_ = m.derived(); return *this; }
  ComputationInfo info() const { return Success; } bool isPositive() const { return true; } bool isInvertible() const { return true; } Index rank() const { return A_.rows(); }
  template <typename D> Matrix<float, Dynamic, D::ColsAtCompileTime> solve(const MatrixBase<D> &b) const {
    M B = b, X; int k = (int)symistub::log().size();
    if (symistub::genuine()) X = M(A_).ldlt().solve(B); else if (symistub::solveFn()) X = symistub::solveFn()(k, A_, B); else X = M::Zero(A_.cols(), B.cols());
    symistub::log().push_back({1, A_, B, X, M()});
    return X;
  }
};
template <typename MT, int Q = 2> struct SymiSVD {
  using M = symistub::M; M V_, A_;
  SymiSVD() {} template <typename D> explicit SymiSVD(const EigenBase<D> &m, unsigned = 0) { compute(m, 0); }
  template <typename D> SymiSVD &compute(const EigenBase<D> &m, unsigned = 0) {
    A_ = m.derived(); int k = (int)symistub::log().size();
    V_ = symistub::svdVFn() ? symistub::svdVFn()(k, A_, M()) : M(M::Identity(A_.cols(), A_.cols()));
    symistub::log().push_back({2, A_, M(), M(), V_}); return *this;
  }
  const M &matrixV() const { return V_; }
};
template <typename MT> struct SymiSAES {
  using M = symistub::M; M V_, A_; Matrix<float, Dynamic, 1> L_;
  SymiSAES() {} template <typename D> explicit SymiSAES(const EigenBase<D> &m, int = 0) { compute(m); }
  template <typename D> SymiSAES &compute(const EigenBase<D> &m, int = 0) {
    A_ = m.derived(); int k = (int)symistub::log().size(); int n = A_.rows();
    if (symistub::genuine()) { SelfAdjointEigenSolver<M> g(A_); V_ = g.eigenvectors(); L_ = g.eigenvalues(); symistub::log().push_back({3, A_, M(), M(L_), V_}); return *this; }
    V_ = symistub::eigVFn() ? symistub::eigVFn()(k, A_, M()) : M(M::Identity(n, n)); M L = symistub::eigLFn() ? symistub::eigLFn()(k, A_, M()) : M(M::Ones(n, 1)); L_ = L.col(0);
    symistub::log().push_back({3, A_, M(), L, V_}); return *this;
  }
  ComputationInfo info() const { return Success; }
  const M &eigenvectors() const { return V_; } const Matrix<float, Dynamic, 1> &eigenvalues() const { return L_; }
};
template <typename MT> struct SymiQR {
  using M = symistub::M; M Q_, A_;
  SymiQR() {} template <typename D> explicit SymiQR(const EigenBase<D> &m) { compute(m); }
  template <typename D> SymiQR &compute(const EigenBase<D> &m) {
    A_ = m.derived(); int k = (int)symistub::log().size(), n = A_.rows();
    if (symistub::genuine()) { HouseholderQR<M> g(A_); Q_ = M(g.householderQ() * M::Identity(n, n)); } else Q_ = symistub::qrQFn() ? symistub::qrQFn()(k, A_, M()) : M(M::Identity(n, n));
    symistub::log().push_back({4, A_, M(), M(), Q_}); return *this;
  }
  const M &householderQ() const { return Q_; } const M &matrixQ() const { return Q_; } M matrixQR() const { return Q_.transpose() * A_; }
};
template <typename Derived> inline auto MatrixBase<Derived>::symi_solver() const { return SymiSolve<Matrix<float, Dynamic, Dynamic>>(derived()); }
template <typename Derived> inline auto MatrixBase<Derived>::symi_svd(unsigned) const { return SymiSVD<Matrix<float, Dynamic, Dynamic>>(derived()); }
}
#define LDLT SymiSolve
#define LLT SymiSolve
#define PartialPivLU SymiSolve
#define FullPivLU SymiSolve
#define ldlt symi_solver
#define llt symi_solver
#define partialPivLu symi_solver
#define fullPivLu symi_solver
#define colPivHouseholderQr symi_solver
#define jacobiSvd symi_svd
#define bdcSvd symi_svd
#define JacobiSVD SymiSVD
#define BDCSVD SymiSVD
#define SelfAdjointEigenSolver SymiSAES
#define HouseholderQR SymiQR
