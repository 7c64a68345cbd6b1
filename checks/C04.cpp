#include "atomic_types.hpp"

#include <set>

namespace SIM_NS {
// Three shared objects; only default orderings; loads may be stale wherever
// the ordering that really reaches the platform permits it.
template <typename A, typename B> void litmus_run() {
    sim::sched_config sc{};
    constexpr u32 gaps[] = {2, 1, 3, 6};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.stale_reads = true;
    sc.max_steps = 4000;
    constexpr u64 lim = 0xffff;
    struct step {
        u32 which;
        plan_op o;
    };
    auto draw_step = [] {
        step s{};
        s.which = sim::choose(3);
        s.o = s.which == 2 ? B::draw() : A::draw();
        s.o.use_mo = false;
        return s;
    };
    std::array<u64, 3> const init{A::draw_init() & lim, A::draw_init() & lim,
                                  B::draw_init() & lim};
    std::vector<std::vector<step>> plan{};
    // template: a classic shape, or random
    switch (sim::choose(4)) {
    case 1: // store buffering
        for (u32 t = 0; t < 2; ++t) {
            auto &ops = plan.emplace_back();
            step w = draw_step();
            w.which = t;
            w.o = A::draw();
            w.o.use_mo = false;
            step r = draw_step();
            r.which = 1 - t;
            r.o = A::final_op();
            if (sim::choose(2) == 1) {
                r.o = A::draw();
                r.o.use_mo = false;
            }
            ops = {w, r};
        }
        break;
    case 2: // independent reads of independent writes
        for (u32 t = 0; t < 2; ++t) {
            auto &ops = plan.emplace_back();
            step w = draw_step();
            w.which = t;
            w.o = A::draw();
            w.o.use_mo = false;
            ops = {w};
        }
        for (u32 t = 0; t < 2; ++t) {
            auto &ops = plan.emplace_back();
            step r0{t, A::final_op()};
            step r1{1 - t, A::final_op()};
            ops = {r0, r1};
        }
        break;
    default:
        do {
            auto &ops = plan.emplace_back();
            do {
                ops.push_back(draw_step());
            } while (sim::more(static_cast<u32>(ops.size()), 3));
        } while (plan.size() < 2 or
                 sim::more(static_cast<u32>(plan.size()), 4));
        break;
    }
    auto a = A::create(init[0]);
    auto b = A::create(init[1]);
    auto c = B::create(init[2]);
    sim::configure(sc);
    std::vector<std::vector<lin::op>> done(plan.size());
    auto call = [&](step const s) -> u64 {
        sim::sut_scope const sc2{};
        return s.which == 0   ? A::run(*a, s.o)
               : s.which == 1 ? A::run(*b, s.o)
                              : B::run(*c, s.o);
    };
    for (std::size_t t = 0; t < plan.size(); ++t) {
        done[t].reserve(8);
        sim::spawn([&, t] {
            for (auto const s : plan[t]) {
                sim::yield();
                u64 const r = call(s);
                lin::op o{static_cast<int>(s.which), s.o.k, s.o.a,
                          s.o.b | (s.o.v ? u64{} : u64{1} << 63), r, 0, 1};
                done[t].push_back(o);
                sim::event("obj%d %s(%x,%d) %s -> %x", s.which,
                           kind_names[s.o.k], s.o.a, s.o.b,
                           s.o.v ? "" : "false", r);
            }
        });
    }
    sim::run_threads();
    // final values are read by the root after everybody has finished
    std::array<u64, 3> fin{};
    fin[0] = call({0, A::final_op()});
    fin[1] = call({1, A::final_op()});
    fin[2] = call({2, B::final_op()});

    // search for one order of all calls that respects each thread's order
    using state = std::array<u64, 3>;
    using key = std::pair<u64, state>;
    std::set<key> seen{};
    std::vector<key> stack{{0, init}};
    auto pos = [](u64 p, std::size_t t) { return (p >> (8 * t)) & 0xff; };
    bool found = false;
    while (not stack.empty() and not found) {
        auto const k = stack.back();
        stack.pop_back();
        if (not seen.insert(k).second) {
            continue;
        }
        bool complete = true;
        for (std::size_t t = 0; t < done.size(); ++t) {
            auto const i = pos(k.first, t);
            if (i >= done[t].size()) {
                continue;
            }
            complete = false;
            auto const &o = done[t][i];
            auto const w = static_cast<std::size_t>(o.thread);
            auto const [st, r] =
                w == 2 ? B::step(k.second[w], o) : A::step(k.second[w], o);
            if (r == o.result) {
                auto n = k;
                n.first += u64{1} << (8 * t);
                n.second[w] = st;
                stack.push_back(n);
            }
        }
        if (complete and k.second == fin) {
            found = true;
        }
    }
    if (not found) {
        sim::fail("no-global-order",
                  "no single order of all calls explains their results");
    }
}
void run_litmus() {
#ifdef SIM_WIDE_STORAGE
    switch (sim::choose(6)) {
    case 3:
        return litmus_run<value_object<u32>, bits_object<20>>();
    case 4:
        return litmus_run<bits_object<32>, value_object<colour>>();
    case 5:
        return litmus_run<value_object<std::int16_t>,
                          value_object<std::int8_t>>();
    case 0:
        return litmus_run<value_object<u8>, bits_object<5>>();
    case 1:
        return litmus_run<bits_object<8>, value_object<bool>>();
    default:
        return litmus_run<value_object<bool>, bits_object<13>>();
    }
#else
    switch (sim::choose(12)) {
    case 5:
        return litmus_run<value_object<u32>, bits_object<64>>();
    case 6:
        return litmus_run<bits_object<64>, value_object<u64>>();
    case 7:
        return litmus_run<bits_object<33>, value_object<colour>>();
    case 8:
        return litmus_run<value_object<u32 *>, value_object<std::int64_t>>();
    case 9:
        return litmus_run<bits_object<32>, value_object<std::int32_t>>();
    case 10:
        return litmus_run<value_object<triple>, value_object<float>>();
    case 11:
        return litmus_run<value_object<u64>, bits_object<1>>();
    case 0:
        return litmus_run<value_object<u16>, bits_object<13>>();
    case 1:
        return litmus_run<bits_object<8>, value_object<std::int16_t>>();
    case 2:
        return litmus_run<value_object<bool>, bits_object<5>>();
    case 3:
        return litmus_run<value_object<std::int8_t>, value_object<u8>>();
    default:
        return litmus_run<bits_object<16>, bits_object<3>>();
    }
#endif
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_litmus();
}
namespace {
sim::scenario const scenarios[] = {
    {"natural_storage", 3, nat::run_litmus},
    {"widened_storage", 1, wide::run_litmus},
};
}
sim::property_def const sim::the_property = {
    "C04",
    "Each run draws a litmus program: 2-4 threads, 1-3 default-ordered "
    "operations each on three shared atomic objects (store buffering, "
    "independent reads, random), runs it under a weak memory model that "
    "returns stale values wherever the ordering reaching the platform permits "
    "it, and searches for one global order of all calls that respects each "
    "thread's order. Non-trivial: a preemption inside an operation or a stale "
    "read. Distinct: hash of all choices, switches and results.",
    "stdx::atomic<T>, stdx::atomic_bitset",
    "platform atomic layer, threads, scheduler, weak memory model",
    scenarios,
    2,
    16000000,
    48000000,
};
#endif
