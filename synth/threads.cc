// Instantiates ThreadPool::Queue so that its body is analysed with types in place.
#include <functional>
#include <future>

#include "maliput/utility/thread_pool.h"

namespace maliput {
namespace utility {

std::future<int> VerifQueue(ThreadPool* pool, std::function<int()> task) { return pool->Queue(std::move(task)); }

}  // namespace utility
}  // namespace maliput
