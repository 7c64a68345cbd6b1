#include "atomic_types.hpp"

namespace SIM_NS {
// Two objects of the same type; threads stop for ever at any step.
template <typename O> void two_objects_run() {
    run_config rc{};
    rc.kill = true;
    rc.max_threads = 4;
    auto sc = draw_sched(rc);
    sc.max_steps = 4000;
    struct step {
        u32 which;
        plan_op o;
    };
    std::vector<std::vector<step>> plan{};
    std::array<u64, 2> const init{O::draw_init(), O::draw_init()};
    do {
        auto &ops = plan.emplace_back();
        do {
            step s{};
            s.which = sim::choose(2);
            s.o = O::draw();
            ops.push_back(s);
        } while (sim::more(static_cast<u32>(ops.size()), 3));
    } while (plan.size() < 2 or
             sim::more(static_cast<u32>(plan.size()), rc.max_threads));
    auto a = O::create(init[0]);
    auto b = O::create(init[1]);
    sim::configure(sc);
    sim::event("initial values %x %x, %d threads", init[0], init[1],
               plan.size());
    std::array<lin::history, 2> h{};
    h[0].ops.reserve(32);
    h[1].ops.reserve(32);
    auto one = [&](step const s) {
        sim::yield();
        auto &hist = h[s.which];
        auto &obj = s.which == 0 ? *a : *b;
        auto const i =
            hist.begin(s.o.k, s.o.a, s.o.b | (s.o.v ? u64{} : u64{1} << 63));
        u64 r{};
        {
            sim::sut_scope const sc2{};
            r = O::run(obj, s.o);
        }
        hist.end(i, r);
        sim::event("obj%d %s(%x,%d) %s -> %x", s.which, kind_names[s.o.k],
                   s.o.a, s.o.b, s.o.v ? "" : "false", r);
    };
    for (std::size_t t = 0; t < plan.size(); ++t) {
        sim::spawn(
            [&one, &p = plan[t]] {
                for (auto const &s : p) {
                    one(s);
                }
            },
            {.priority = 0, .killable = t + 1 < plan.size()});
    }
    sim::run_threads();
    one({0, O::final_op()});
    one({1, O::final_op()});
    for (u32 w = 0; w < 2; ++w) {
        for (auto const &o : h[w].ops) {
            if (o.res == 0) {
                sim::probe("operation_never_returned");
            }
        }
        if (not lin::linearizable(h[w].ops, init[w], O::step)) {
            sim::fail("not-linearizable",
                      "object %d: no order of the %d calls explains their "
                      "results",
                      w, h[w].ops.size());
        }
    }
}
void run_killed() {
    if (sim::choose(2) == 0) {
        with_value([]<typename O>(O) { two_objects_run<O>(); });
    } else {
        with_bits([]<typename O>(O) { two_objects_run<O>(); });
    }
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_killed();
}
namespace {
sim::scenario const scenarios[] = {
    {"natural_storage", 2, nat::run_killed},
    {"widened_storage", 1, wide::run_killed},
};
}
sim::property_def const sim::the_property = {
    "C06",
    "Each run draws 2-4 threads with 1-3 operations each on two shared atomic "
    "objects; all but one thread may be stopped for ever at any memory "
    "access. Survivors must finish within 4000 scheduler steps and both "
    "histories (unfinished calls optional) must be linearizable. Non-trivial: "
    "a preemption inside an operation or a stopped thread. Distinct: hash of "
    "all choices, switches and results.",
    "stdx::atomic<T>, stdx::atomic_bitset",
    "platform atomic layer, threads, scheduler, memory model",
    scenarios,
    2,
    16000000,
    48000000,
};
#endif
