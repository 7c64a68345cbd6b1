#include "atomic_types.hpp"

namespace SIM_NS {
// An observing operation: one that does not change the value (or whose effect
// on the answer is known), with the prior value recoverable from its result.
struct observer {
    plan_op o{};
    bool single{}; // changes the value: use it only once
    int bias{};    // result minus prior value
};

void release_order(plan_op &o) {
    o.use_mo = takes_order(o.k) and sim::choose(2) == 1;
    if (not o.use_mo) {
        return;
    }
    if (is_store_kind(o.k)) {
        o.mo = sim::choose(2) == 0 ? 3 : 5;
    } else {
        constexpr int mos[] = {3, 4, 5};
        o.mo = mos[sim::choose(3)];
    }
}
void acquire_order(plan_op &o) {
    o.use_mo = takes_order(o.k) and sim::choose(2) == 1;
    if (not o.use_mo) {
        return;
    }
    if (is_load_kind(o.k)) {
        o.mo = sim::choose(2) == 0 ? 2 : 5;
    } else {
        constexpr int mos[] = {2, 4, 5};
        o.mo = mos[sim::choose(3)];
    }
}

template <typename T>
auto draw_observer(value_object<T>, u64 init) -> observer {
    observer r{};
    u32 const n = arith<T>          ? k_end_value
                  : logic<T>        ? k_fetch_add
                  : exchangeable<T> ? k_exchange + 1
                                    : k_conv + 1;
    do {
        r.o.k = static_cast<int>(sim::choose(n));
    } while (r.o.k == k_store or r.o.k == k_assign);
    switch (r.o.k) {
    case k_exchange:
        r.o.a = init;
        break;
    case k_fetch_and:
    case k_and_eq:
        r.o.a = value_mask<T>();
        break;
    case k_pre_inc:
        r.bias = 1;
        r.single = true;
        break;
    case k_pre_dec:
        r.bias = -1;
        r.single = true;
        break;
    case k_post_inc:
    case k_post_dec:
        r.single = true;
        break;
    default:
        r.o.a = 0;
        break;
    }
    acquire_order(r.o);
    return r;
}
template <auto S, typename... E>
auto draw_observer(bits_object<S, E...>, u64 init) -> observer {
    constexpr auto N = static_cast<u32>(S);
    observer r{};
    do {
        r.o.k = b_load + static_cast<int>(sim::choose(b_end - b_load));
    } while (is_store_kind(r.o.k));
    r.o.a = sim::choose(N);
    r.o.v = ((init >> r.o.a) & 1u) != 0; // write back the value it has
    switch (r.o.k) {
    case b_set_msb:
    case b_reset_msb:
    case b_flip_msb:
        r.o.b = r.o.a;
        break;
    case b_set_len:
    case b_reset_len:
    case b_flip_len:
        r.o.b = 1;
        break;
    default:
        break;
    }
    r.single = not is_load_kind(r.o.k) and r.o.k != b_set and
               r.o.k != b_set_msb and r.o.k != b_set_len;
    acquire_order(r.o);
    return r;
}

// identity read-modify-write with any ordering: continues a release sequence
template <typename T> auto draw_relay(value_object<T>) -> plan_op {
    plan_op o{};
    constexpr int ks[] = {k_fetch_or, k_fetch_xor, k_or_eq, k_xor_eq};
    o.k = ks[sim::choose(4)];
    draw_order(o);
    return o;
}

// message passing: data, then publish / observe, then data
template <typename O> void message_run(bool relay) {
    sim::sched_config sc{};
    constexpr u32 gaps[] = {3, 1, 2, 6};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.stale_reads = true;
    sc.max_steps = 4000;
    sim::configure(sc);
    u64 const init = O::draw_init();
    plan_op pub{};
    lin::op as_op{};
    auto publishes = [&] {
        return not is_load_kind(pub.k) and O::step(init, as_op).first != init;
    };
    for (int tries = 0; tries < 8; ++tries) {
        pub = O::draw();
        as_op.kind = pub.k;
        as_op.a = pub.a;
        as_op.b = pub.b | (pub.v ? u64{} : u64{1} << 63);
        if (publishes()) {
            break;
        }
    }
    if (not publishes()) {
        return;
    }
    release_order(pub);
    struct reader {
        observer ob;
        u32 attempts;
    };
    std::vector<reader> readers{};
    do {
        auto ob = draw_observer(O{}, init);
        if (ob.single and (relay or not readers.empty())) {
            ob.o = O::final_op();
            ob.single = false;
            ob.bias = 0;
            acquire_order(ob.o);
        }
        bool const single = ob.single;
        readers.push_back({ob, single ? 1 : 1 + sim::choose(3)});
        if (single) {
            break;
        }
    } while (sim::more(static_cast<u32>(readers.size()), 2));
    plan_op relay_op{};
    if constexpr (requires { draw_relay(O{}); }) {
        if (relay) {
            relay_op = draw_relay(O{});
        }
    } else {
        relay = false;
    }

    auto flag = O::create(init);
    auto data = sim::make<std::array<u32, 4>>();
    u32 const len = 1 + sim::choose(4);
    sim::event("initial %x; publish with %s(%x,%d) %s mo=%d; %d data words",
               init, kind_names[pub.k], pub.a, pub.b, pub.v ? "" : "false",
               pub.use_mo ? pub.mo : -1, len);
    sim::spawn([&] {
        auto const p = pub;
        auto const n = len;
        auto *d = data.get();
        auto *f = flag.get();
        sim::sut_scope const s{};
        for (u32 i = 0; i < n; ++i) {
            (*d)[i] = 1000 + i;
        }
        O::run(*f, p);
    });
    if (relay) {
        sim::spawn([&] {
            auto const p = relay_op;
            auto *f = flag.get();
            sim::sut_scope const s{};
            O::run(*f, p);
        });
    }
    for (auto const &rd : readers) {
        sim::spawn([&, rd] {
            auto const o = rd.ob.o;
            auto *f = flag.get();
            auto *d = data.get();
            auto const n = len;
            // what the observation gives before anything is published
            lin::op q{};
            q.kind = o.k;
            q.a = o.a;
            q.b = o.b | (o.v ? u64{} : u64{1} << 63);
            u64 const before = O::step(init, q).second;
            for (u32 i = 0; i < rd.attempts; ++i) {
                sim::yield();
                u64 r{};
                {
                    sim::sut_scope const s{};
                    r = O::run(*f, o);
                }
                sim::event("%s(%x,%d) mo=%d -> %x", kind_names[o.k], o.a, o.b,
                           o.use_mo ? o.mo : -1, r);
                if (r == before) {
                    continue;
                }
                sim::probe("publication_observed");
                for (u32 w = 0; w < n; ++w) {
                    u32 v{};
                    {
                        sim::sut_scope const s{};
                        v = (*d)[w];
                    }
                    sim::require(v == 1000 + w, "stale-data",
                                 "word %d of the published data is %d", w, v);
                }
                return;
            }
        });
    }
    sim::run_threads();
}

// mutual exclusion built on acquire / release operations
template <typename O, typename Lock, typename Unlock>
void lock_run(Lock lock, Unlock unlock) {
    sim::sched_config sc{};
    constexpr u32 gaps[] = {3, 2, 6, 10};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.stale_reads = true;
    sc.max_steps = 20000;
    sim::configure(sc);
    auto obj = O::create(0);
    auto data = sim::make<std::array<u32, 2>>();
    u32 const nt = 2 + sim::choose(2);
    u32 const rounds = 1 + sim::choose(3);
    u32 entered = 0;
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn([&] {
            auto *o = obj.get();
            auto *d = data.get();
            for (u32 r = 0; r < rounds; ++r) {
                bool got = false;
                for (u32 spin = 0; spin < 6 and not got; ++spin) {
                    {
                        sim::sut_scope const s{};
                        got = lock(*o);
                    }
                    sim::yield();
                }
                if (not got) {
                    continue;
                }
                ++entered;
                {
                    sim::sut_scope const s{};
                    (*d)[0] = (*d)[0] + 1;
                    (*d)[1] = (*d)[1] + 1;
                    unlock(*o);
                }
            }
        });
    }
    sim::run_threads();
    sim::event("%d critical sections, counters %d %d", entered, (*data)[0],
               (*data)[1]);
    sim::require((*data)[0] == entered and (*data)[1] == entered,
                 "lost-update", "%d sections entered, counters %d %d", entered,
                 (*data)[0], (*data)[1]);
}

// Two threads each announce themselves, pass through a read-modify-write of
// the same object, and look for the other's announcement: whichever passes
// second must see the first, even when the operation changes nothing.
template <typename O> void rendezvous_run() {
    sim::sched_config sc{};
    constexpr u32 gaps[] = {3, 1, 2, 6};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.stale_reads = true;
    sc.max_steps = 4000;
    sim::configure(sc);
    u64 const init = O::draw_init();
    bool const idle = sim::flip(2, 3);
    std::array<plan_op, 2> ops{};
    for (auto &o : ops) {
        bool found = false;
        for (int tries = 0; tries < 8 and not found; ++tries) {
            o = idle ? draw_observer(O{}, init).o : O::draw();
            found = not is_load_kind(o.k) and not is_store_kind(o.k);
        }
        if (not found) {
            return;
        }
        o.use_mo = takes_order(o.k) and sim::choose(2) == 1;
        o.mo = o.use_mo and sim::choose(2) == 0 ? 4 : 5;
    }
    auto obj = O::create(init);
    using flag_t = stdx::atomic<u64>;
    auto first = sim::make<flag_t>();
    auto second = sim::make<flag_t>();
    std::array<u64, 2> seen{};
    for (u32 t = 0; t < 2; ++t) {
        sim::spawn([&, t] {
            auto const o = ops[t];
            auto *x = obj.get();
            auto *mine = t == 0 ? first.get() : second.get();
            auto *other = t == 0 ? second.get() : first.get();
            u64 r{};
            {
                sim::sut_scope const s{};
                mine->store(1, std::memory_order_relaxed);
                O::run(*x, o);
                r = other->load(std::memory_order_relaxed);
            }
            seen[t] = r;
        });
    }
    sim::run_threads();
    sim::event("initial %x; %s(%x,%d) mo=%d and %s(%x,%d) mo=%d: %d %d", init,
               kind_names[ops[0].k], ops[0].a, ops[0].b,
               ops[0].use_mo ? ops[0].mo : -1, kind_names[ops[1].k], ops[1].a,
               ops[1].b, ops[1].use_mo ? ops[1].mo : -1, seen[0], seen[1]);
    sim::require(seen[0] == 1 or seen[1] == 1, "unordered-operations",
                 "of two operations on one object neither saw what the other "
                 "thread did before");
}

void run_rendezvous() {
    if (sim::choose(2) == 0) {
        with_value([&]<typename O>(O) { rendezvous_run<O>(); });
    } else {
        with_bits([&]<typename O>(O) { rendezvous_run<O>(); });
    }
}
void run_messages() {
    bool const relay = sim::choose(4) == 3;
    if (sim::choose(2) == 0) {
        with_value([&]<typename O>(O) { message_run<O>(relay); });
    } else {
        with_bits([&]<typename O>(O) { message_run<O>(false); });
    }
}
void run_locks() {
    constexpr auto acq = std::memory_order_acquire;
    constexpr auto rel = std::memory_order_release;
    switch (sim::choose(6)) {
    case 0:
        return lock_run<value_object<bool>>(
            [](auto &x) { return not x.exchange(true, acq); },
            [](auto &x) { x.store(false, rel); });
    case 1:
        return lock_run<value_object<u8>>(
            [](auto &x) { return (x.fetch_or(1, acq) & 1) == 0; },
            [](auto &x) { x.fetch_and(0xfe, rel); });
    case 2:
        return lock_run<value_object<u16>>(
            [](auto &x) { return x.exchange(1) == 0; },
            [](auto &x) { x = 0; });
    case 3:
        return lock_run<bits_object<8>>(
            [](auto &x) { return not x.set(3, true, acq)[3]; },
            [](auto &x) { x.reset(3, rel); });
    case 4:
        return lock_run<bits_object<13>>(
            [](auto &x) {
                using namespace stdx::literals;
                return x.set(3_lsb, 7_msb, true, acq)[5] == false;
            },
            [](auto &x) {
                using namespace stdx::literals;
                x.set(3_lsb, 5_len, false, rel);
            });
    default:
        return lock_run<bits_object<5>>(
            [](auto &x) { return not x.set(0, true, acq)[0]; },
            [](auto &x) { x.reset(rel); });
    }
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void run_messages();
void run_locks();
void run_rendezvous();
} // namespace wide
namespace {
sim::scenario const scenarios[] = {
    {"messages_natural_storage", 4, nat::run_messages},
    {"messages_widened_storage", 2, wide::run_messages},
    {"locks_natural_storage", 1, nat::run_locks},
    {"locks_widened_storage", 1, wide::run_locks},
    {"rendezvous_natural_storage", 1, nat::run_rendezvous},
    {"rendezvous_widened_storage", 1, wide::run_rendezvous},
};
}
sim::property_def const sim::the_property = {
    "C03",
    "Each run draws a program in which one thread writes plain data and "
    "publishes with a releasing operation (kind, ordering or default drawn), "
    "others observe with acquiring operations, optionally through a relaying "
    "thread, or threads guard plain counters with acquire/release operations, "
    "or two threads pass through (possibly idle) read-modify-writes of one "
    "object and look for what the other did before; "
    "a weak memory model returns stale values and reports races wherever the "
    "ordering that really reached the platform permits it. Non-trivial: a "
    "preemption inside an operation or a stale read. Distinct: hash of all "
    "choices, switches and results.",
    "stdx::atomic<T>, stdx::atomic_bitset",
    "platform atomic layer, threads, scheduler, weak memory model",
    scenarios,
    6,
    24000000,
    72000000,
};
#endif
