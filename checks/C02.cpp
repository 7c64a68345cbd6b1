#include "atomic_types.hpp"

namespace SIM_NS {
void run_bits() {
    with_bits([]<typename O>(O) { shared_object_run<O>(run_config{}); });
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_bits();
}
namespace {
sim::scenario const scenarios[] = {
    {"natural_storage", 2, nat::run_bits},
    {"widened_storage", 1, wide::run_bits},
};
}
sim::property_def const sim::the_property = {
    "C02",
    "Each run draws 2-4 threads or nested interrupts with 1-4 operations each "
    "on one shared atomic bitset (size, storage, platform, memory order and "
    "schedule drawn from the seed) and checks the history with a "
    "linearizability search against a set model. Non-trivial: at least one "
    "preemption inside an operation or one injected fault. Distinct: hash of "
    "all choices, switches and results.",
    "stdx::atomic_bitset (12 natural and 8 widened configurations), "
    "stdx::bitset as its value type",
    "platform atomic layer, threads, interrupts, scheduler, memory model",
    scenarios,
    2,
    16000000,
    48000000,
};
#endif
