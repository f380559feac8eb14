// Explicit instantiations so that every member of the header-only containers is analysed.
#include <memory>
#include "cartographer/common/internal/blocking_queue.h"
template class cartographer::common::BlockingQueue<std::unique_ptr<int>>;
int* AuxPeek(cartographer::common::BlockingQueue<std::unique_ptr<int>>* q) {
  q->Peek<int>();
  return q->PeekWithTimeout<int>(cartographer::common::Duration());
}
