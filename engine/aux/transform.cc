// Instantiations of the transform templates.
#include "cartographer/transform/transform.h"
namespace cartographer {
namespace transform {
template class Rigid2<double>;
template class Rigid3<double>;
template class Rigid2<float>;
template class Rigid3<float>;
template Rigid2<double> operator*(const Rigid2<double>&, const Rigid2<double>&);
template Rigid3<double> operator*(const Rigid3<double>&, const Rigid3<double>&);
template Rigid3<float> operator*(const Rigid3<float>&, const Rigid3<float>&);
template Rigid2<double>::Vector operator*(const Rigid2<double>&, const Rigid2<double>::Vector&);
template Rigid3<double>::Vector operator*(const Rigid3<double>&, const Rigid3<double>::Vector&);
template Rigid3<float>::Vector operator*(const Rigid3<float>&, const Rigid3<float>::Vector&);
template Rigid3<float> Rigid3<double>::cast<float>() const;
template Rigid3<double> Rigid3<float>::cast<double>() const;
template Rigid2<float> Rigid2<double>::cast<float>() const;
template double GetAngle(const Rigid3<double>&);
template double GetYaw(const Eigen::Quaternion<double>&);
template double GetYaw(const Rigid3<double>&);
template Eigen::Matrix<double, 3, 1> RotationQuaternionToAngleAxisVector(const Eigen::Quaternion<double>&);
template Eigen::Quaternion<double> AngleAxisVectorToRotationQuaternion(const Eigen::Matrix<double, 3, 1>&);
template Rigid2<double> Project2D(const Rigid3<double>&);
template Rigid3<double> Embed3D(const Rigid2<double>&);
}  // namespace transform
}  // namespace cartographer
