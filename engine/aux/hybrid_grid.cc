#include "cartographer/mapping/3d/hybrid_grid.h"
namespace cartographer {
namespace mapping {
template class FlatGrid<uint16, 3>;
template class NestedGrid<FlatGrid<uint16, 3>, 3>;
template class DynamicGrid<NestedGrid<FlatGrid<uint16, 3>, 3>>;
template class HybridGridBase<uint16>;
}  // namespace mapping
}  // namespace cartographer
