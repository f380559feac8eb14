// Instantiations of the id-indexed container.
#include "cartographer/mapping/id.h"
namespace aux_instances {
struct Payload {
  cartographer::common::Time time;
  int payload;
};
}  // namespace aux_instances
template class cartographer::mapping::MapById<cartographer::mapping::NodeId, aux_instances::Payload>;
template class cartographer::mapping::MapById<cartographer::mapping::SubmapId, aux_instances::Payload>;
