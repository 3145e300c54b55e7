// Instantiates the header-only templates, so that all their members are
// analysed.
#include <atomic>
#include <memory>
#include <string>

#include "src/buildtool/execution_engine/dag/dag.hpp"
#include "src/buildtool/execution_engine/traverser/traverser.hpp"
#include "src/buildtool/multithreading/async_map_consumer.hpp"
#include "src/buildtool/multithreading/async_map_utils.hpp"
#include "src/buildtool/multithreading/atomic_value.hpp"
#include "src/utils/cpp/atomic.hpp"

namespace {
struct Runner {
    auto Process(DependencyGraph::ActionNode const* a) const -> bool {
        return a != nullptr;
    }
    auto Process(DependencyGraph::ArtifactNode const* a) const -> bool {
        return a != nullptr;
    }
};
}  // namespace

template class Traverser<Runner>;
template class atomic<int>;
template class atomic<bool>;
template class atomic_shared_ptr<std::string>;
template class AtomicValue<int>;
template class AsyncMap<std::string, int>;
template class AsyncMapNode<std::string, int>;
template class AsyncMapConsumer<std::string, int>;

auto UseTasks(TaskSystem* ts, AsyncMapNode<std::string, int>* n) -> bool;
auto UseTasks(TaskSystem* ts, AsyncMapNode<std::string, int>* n) -> bool {
    ts->QueueTask([] {});
    n->QueueOnceProcessingTask(ts, [] {});
    n->QueueOnFailure(ts, [] {});
    return n->AddOrQueueAwaitingTask(ts, [] {});
}
auto UseAtomic(atomic<int>* a) -> int;
auto UseAtomic(atomic<int>* a) -> int {
    ++*a;
    --*a;
    return (*a)++ + (*a)--;
}
