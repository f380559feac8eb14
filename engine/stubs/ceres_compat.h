// Declarations of the Ceres API that the installed Ceres 2.2 no longer has, so
// that the five translation units that still use it can be type-checked.
// They are only parsed, never compiled into anything that runs.
#ifndef VERIF_CERES_COMPAT_H_
#define VERIF_CERES_COMPAT_H_
#include "ceres/ceres.h"
namespace ceres {
class LocalParameterization : public Manifold {
 public:
  int AmbientSize() const override;
  int TangentSize() const override;
  bool Plus(const double*, const double*, double*) const override;
  bool PlusJacobian(const double*, double*) const override;
  bool Minus(const double*, const double*, double*) const override;
  bool MinusJacobian(const double*, double*) const override;
};
class QuaternionParameterization : public LocalParameterization {
 public:
  QuaternionParameterization();
};
class SubsetParameterization : public LocalParameterization {
 public:
  SubsetParameterization(int size, const std::vector<int>& constant_parameters);
};
template <typename F, int A, int B>
class AutoDiffLocalParameterization : public LocalParameterization {
 public:
  AutoDiffLocalParameterization() {}
  explicit AutoDiffLocalParameterization(F*) {}
};
}  // namespace ceres
#endif
