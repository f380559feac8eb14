// Instantiations of the time-indexed container.
#include "cartographer/sensor/map_by_time.h"
namespace aux_instances {
struct Data {
  cartographer::common::Time time;
  int payload;
};
struct Node {
  cartographer::common::Time time;
};
}  // namespace aux_instances
template class cartographer::sensor::MapByTime<aux_instances::Data>;
template void cartographer::sensor::MapByTime<aux_instances::Data>::Trim(
    const cartographer::mapping::MapById<cartographer::mapping::NodeId, aux_instances::Node>&, const cartographer::mapping::NodeId&);
