// Instantiates the ring buffers so that the analysis sees their bodies.
#include "plain/basic/ring.h"
#include <cstddef>
#include <mutex>
#include <vector>
template class plain::Ring<std::byte, false>;
template class plain::DynamicRing<std::byte, 128, false>;
template class plain::FixedRing<int, 64, false>;
