#include "atomic_types.hpp"

namespace SIM_NS {
void run_masking() {
    run_config rc{};
    rc.only_critical = true;
    rc.watch = true;
    if (sim::choose(2) == 0) {
        with_value([&]<typename O>(O) { shared_object_run<O>(rc); });
    } else {
        with_bits([&]<typename O>(O) { shared_object_run<O>(rc); });
    }
}
void run_watched() {
    run_config rc{};
    rc.allow_critical = false;
    rc.watch = true;
    if (sim::choose(2) == 0) {
        with_value([&]<typename O>(O) { shared_object_run<O>(rc); });
    } else {
        with_bits([&]<typename O>(O) { shared_object_run<O>(rc); });
    }
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_masking();
void run_watched();
} // namespace wide
namespace {
sim::scenario const scenarios[] = {
    {"masking_platform_natural_storage", 3, nat::run_masking},
    {"masking_platform_widened_storage", 3, wide::run_masking},
    {"lock_free_platform_natural_storage", 1, nat::run_watched},
    {"lock_free_platform_widened_storage", 1, wide::run_watched},
};
}
sim::property_def const sim::the_property = {
    "C05",
    "Each run draws 2-4 threads or nested interrupts with 1-4 operations each "
    "on one shared atomic value or bitset on a platform that masks interrupts "
    "and works in plain steps (or a one-step platform); every access of a "
    "shared cell outside the platform layer is a violation, and the history "
    "must be linearizable. Non-trivial: at least one preemption inside an "
    "operation. Distinct: hash of all choices, switches and results.",
    "stdx::atomic<T>, stdx::atomic_bitset",
    "platform atomic layer (masking and one-step), threads, interrupts, "
    "scheduler, memory model",
    scenarios,
    4,
    16000000,
    48000000,
};
#endif
