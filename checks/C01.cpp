#include "atomic_types.hpp"

namespace SIM_NS {
void run_values() {
    with_value([]<typename O>(O) { shared_object_run<O>(run_config{}); });
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_values();
}
namespace {
sim::scenario const scenarios[] = {
    {"natural_storage", 2, nat::run_values},
    {"widened_storage", 1, wide::run_values},
};
}
sim::property_def const sim::the_property = {
    "C01",
    "Each run draws 2-4 threads or nested interrupts with 1-4 operations each "
    "on one shared atomic value (type, platform, memory order and schedule "
    "drawn from the seed) and checks the history with a linearizability "
    "search. Non-trivial: at least one preemption inside an operation or one "
    "injected fault. Distinct: hash of all choices, switches and results.",
    "stdx::atomic<T> for 15 natural and 7 widened value types",
    "platform atomic layer, threads, interrupts, scheduler, memory model",
    scenarios,
    2,
    16000000,
    48000000,
};
#endif
