// Operations on atomic values and atomic bitsets as data: a plan of
// operations is drawn first, performed by simulated threads, and compared
// with a sequential model.
#pragma once

#include "../sim/lin.hpp"
#include "../sim/rt.hpp"

#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>

#include <array>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>

#ifndef SIM_NS
#define SIM_NS nat
#endif

namespace SIM_NS {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <typename T> auto to_bits(T t) -> u64 {
    u64 v{};
    std::memcpy(&v, &t, sizeof(T));
    return v;
}
template <typename T> auto from_bits(u64 v) -> T {
    if constexpr (std::is_same_v<T, bool>) {
        return (v & 1u) != 0;
    } else {
        T t{};
        std::memcpy(&t, &v, sizeof(T));
        return t;
    }
}

enum kind : int {
    k_load,
    k_conv,
    k_store,
    k_assign,
    k_exchange,
    k_fetch_and,
    k_fetch_or,
    k_fetch_xor,
    k_and_eq,
    k_or_eq,
    k_xor_eq,
    k_fetch_add,
    k_fetch_sub,
    k_add_eq,
    k_sub_eq,
    k_pre_inc,
    k_post_inc,
    k_pre_dec,
    k_post_dec,
    k_end_value,
    // bitset
    b_load = 32,
    b_conv,
    b_store,
    b_index,
    b_set,
    b_set_msb,
    b_set_len,
    b_set_all,
    b_reset,
    b_reset_msb,
    b_reset_len,
    b_reset_all,
    b_flip,
    b_flip_msb,
    b_flip_len,
    b_flip_all,
    b_all,
    b_any,
    b_none,
    b_count,
    b_to,
    b_to_natural,
    b_end,
};
inline char const *const kind_names[] = {
    "load",         "convert",      "store",       "assign",
    "exchange",     "fetch_and",    "fetch_or",    "fetch_xor",
    "&=",           "|=",           "^=",          "fetch_add",
    "fetch_sub",    "+=",           "-=",          "++x",
    "x++",          "--x",          "x--",         "",
    "",             "",             "",            "",
    "",             "",             "",            "",
    "",             "",             "",            "",
    "bs.load",      "bs.convert",   "bs.store",    "bs[i]",
    "bs.set(i,v)",  "bs.set(l,m)",  "bs.set(l,n)", "bs.set()",
    "bs.reset(i)",  "bs.reset(l,m)", "bs.reset(l,n)", "bs.reset()",
    "bs.flip(i)",   "bs.flip(l,m)", "bs.flip(l,n)", "bs.flip()",
    "bs.all",       "bs.any",       "bs.none",     "bs.count",
    "bs.to",        "bs.to_natural"};

struct plan_op {
    int k{};
    u64 a{};      // value, or first bit position
    u64 b{};      // last bit position / length
    bool v{true}; // value for set
    int mo{5};
    bool use_mo{false}; // pass mo explicitly (otherwise the default is used)
};

inline auto mo_of(plan_op const &o) -> std::memory_order {
    return static_cast<std::memory_order>(o.mo);
}

inline auto is_load_kind(int k) -> bool {
    return k == k_load or k == k_conv or k == b_load or k == b_conv or
           k == b_index or k >= b_all;
}
inline auto is_store_kind(int k) -> bool {
    return k == k_store or k == k_assign or k == b_store or k == b_set_all or
           k == b_reset_all;
}
inline auto takes_order(int k) -> bool {
    return k == k_load or k == k_store or
           (k >= k_exchange and k <= k_fetch_xor) or k == k_fetch_add or
           k == k_fetch_sub or
           (k >= b_load and k < b_end and k != b_conv and k != b_index);
}

inline void draw_order(plan_op &o) {
    if (not takes_order(o.k)) {
        return;
    }
    o.use_mo = sim::flip(1, 2);
    if (not o.use_mo) {
        return;
    }
    if (is_load_kind(o.k)) {
        constexpr int mos[] = {5, 2, 0};
        o.mo = mos[sim::choose(3)];
    } else if (is_store_kind(o.k)) {
        constexpr int mos[] = {5, 3, 0};
        o.mo = mos[sim::choose(3)];
    } else {
        constexpr int mos[] = {5, 4, 3, 2, 0};
        o.mo = mos[sim::choose(5)];
    }
}

// ------------------------------------------------------------ atomic value
struct triple {
    u16 x;
    u16 y;
    u32 z;
    friend auto operator==(triple const &, triple const &) -> bool = default;
};
enum class colour : u8 { red, green, blue };

template <typename T>
constexpr bool arith = std::is_integral_v<T> and not std::is_same_v<T, bool>;
template <typename T> constexpr bool logic = std::is_integral_v<T>;
#ifdef SIM_WIDE_STORAGE
template <typename T> constexpr bool exchangeable = not std::is_enum_v<T>;
#else
template <typename T> constexpr bool exchangeable = true;
#endif

template <typename T> constexpr auto value_mask() -> u64 {
    if constexpr (std::is_same_v<T, bool>) {
        return 1;
    } else if constexpr (sizeof(T) == 8) {
        return ~u64{};
    } else {
        return (u64{1} << (8 * sizeof(T))) - 1;
    }
}

template <typename T> auto draw_value() -> u64 {
    if constexpr (std::is_floating_point_v<T>) {
        return to_bits(static_cast<T>(sim::choose(64)) / T{4});
    } else if constexpr (std::is_enum_v<T>) {
        return sim::choose(3);
    } else {
        return sim::value64() & value_mask<T>();
    }
}

template <typename T> auto draw_op() -> plan_op {
    plan_op o{};
    u32 const n = arith<T> ? k_end_value : logic<T> ? k_fetch_add
                  : exchangeable<T> ? k_exchange + 1 : k_exchange;
    o.k = static_cast<int>(sim::choose(n));
    o.a = draw_value<T>();
    draw_order(o);
    return o;
}

template <typename T> auto perform(stdx::atomic<T> &x, plan_op const &o) -> u64 {
    T const a = from_bits<T>(o.a);
    auto const mo = mo_of(o);
    switch (o.k) {
    case k_load:
        return to_bits(o.use_mo ? x.load(mo) : x.load());
    case k_conv:
        return to_bits(static_cast<T>(x));
    case k_store:
        o.use_mo ? x.store(a, mo) : x.store(a);
        return 0;
    case k_assign:
        return to_bits<T>(x = a);
    default:
        break;
    }
    if constexpr (exchangeable<T>) {
        if (o.k == k_exchange) {
            return to_bits(o.use_mo ? x.exchange(a, mo) : x.exchange(a));
        }
    }
    if constexpr (logic<T>) {
        switch (o.k) {
        case k_fetch_and:
            return to_bits(o.use_mo ? x.fetch_and(a, mo) : x.fetch_and(a));
        case k_fetch_or:
            return to_bits(o.use_mo ? x.fetch_or(a, mo) : x.fetch_or(a));
        case k_fetch_xor:
            return to_bits(o.use_mo ? x.fetch_xor(a, mo) : x.fetch_xor(a));
        case k_and_eq:
            return to_bits<T>(x &= a);
        case k_or_eq:
            return to_bits<T>(x |= a);
        case k_xor_eq:
            return to_bits<T>(x ^= a);
        default:
            break;
        }
    }
    if constexpr (arith<T>) {
        switch (o.k) {
        case k_fetch_add:
            return to_bits(o.use_mo ? x.fetch_add(a, mo) : x.fetch_add(a));
        case k_fetch_sub:
            return to_bits(o.use_mo ? x.fetch_sub(a, mo) : x.fetch_sub(a));
        case k_add_eq:
            return to_bits<T>(x += a);
        case k_sub_eq:
            return to_bits<T>(x -= a);
        case k_pre_inc:
            return to_bits<T>(++x);
        case k_post_inc:
            return to_bits<T>(x++);
        case k_pre_dec:
            return to_bits<T>(--x);
        case k_post_dec:
            return to_bits<T>(x--);
        default:
            break;
        }
    }
    return 0;
}

inline auto value_step(u64 s, int k, u64 a, u64 m) -> std::pair<u64, u64> {
    switch (k) {
    case k_load:
    case k_conv:
        return {s, s};
    case k_store:
        return {a, 0};
    case k_assign:
        return {a, a};
    case k_exchange:
        return {a, s};
    case k_fetch_and:
        return {s & a, s};
    case k_fetch_or:
        return {s | a, s};
    case k_fetch_xor:
        return {s ^ a, s};
    case k_and_eq:
        return {s & a, s & a};
    case k_or_eq:
        return {s | a, s | a};
    case k_xor_eq:
        return {s ^ a, s ^ a};
    case k_fetch_add:
        return {(s + a) & m, s};
    case k_fetch_sub:
        return {(s - a) & m, s};
    case k_add_eq:
        return {(s + a) & m, (s + a) & m};
    case k_sub_eq:
        return {(s - a) & m, (s - a) & m};
    case k_pre_inc:
        return {(s + 1) & m, (s + 1) & m};
    case k_post_inc:
        return {(s + 1) & m, s};
    case k_pre_dec:
        return {(s - 1) & m, (s - 1) & m};
    case k_post_dec:
        return {(s - 1) & m, s};
    default:
        return {s, 0};
    }
}

template <typename T> struct value_object {
    using obj_t = stdx::atomic<T>;
    static auto draw() -> plan_op { return draw_op<T>(); }
    static auto draw_init() -> u64 { return draw_value<T>(); }
    static auto create(u64 init) { return sim::make<obj_t>(from_bits<T>(init)); }
    static auto run(obj_t &x, plan_op const &o) -> u64 { return perform(x, o); }
    static auto final_op() -> plan_op { return plan_op{k_load}; }
    static auto step(u64 s, lin::op const &o) -> std::pair<u64, u64> {
        return value_step(s, o.kind, o.a, value_mask<T>());
    }
};

// ------------------------------------------------------------ atomic bitset
enum class slot : u32 { first, second, MAX = 11 };

template <std::size_t N> constexpr auto set_mask() -> u64 {
    return N == 64 ? ~u64{} : (u64{1} << N) - 1;
}
inline auto range_mask(u64 l, u64 m) -> u64 {
    u64 const n = m - l + 1;
    u64 const r = n == 64 ? ~u64{} : (u64{1} << n) - 1;
    return r << l;
}

template <std::size_t N> auto draw_bit_op() -> plan_op {
    plan_op o{};
    o.k = b_load + static_cast<int>(sim::choose(b_end - b_load));
    switch (o.k) {
    case b_store:
        o.a = sim::value64() & set_mask<N>();
        break;
    case b_set:
    case b_index:
    case b_reset:
    case b_flip:
        o.a = sim::choose(N);
        break;
    case b_set_msb:
    case b_reset_msb:
    case b_flip_msb:
        o.a = sim::choose(N);
        o.b = o.a + sim::choose(static_cast<u32>(N - o.a));
        break;
    case b_set_len:
    case b_reset_len:
    case b_flip_len:
        o.a = sim::choose(N);
        o.b = (1 + sim::choose(static_cast<u32>(N - o.a + 1))) % (N - o.a + 1);
        break;
    case b_to:
        o.b = sim::choose(3);
        break;
    default:
        break;
    }
    if (o.k == b_set or o.k == b_set_msb or o.k == b_set_len) {
        o.v = sim::choose(2) == 0;
    }
    draw_order(o);
    return o;
}

enum class set_number : u64 {};
// whole-set updates hand back the object itself, for chaining
template <typename BS> auto is_self(BS &x, BS &r) -> u64 {
    return &x == &r ? 0 : 1;
}
template <typename Idx, typename BS>
auto perform_bits(BS &x, plan_op const &o) -> u64 {
    using bits_t = decltype(x.load());
    auto const mo = mo_of(o);
    auto const l = static_cast<stdx::lsb_t>(o.a);
    auto const m = static_cast<stdx::msb_t>(o.b);
    auto const n = static_cast<stdx::length_t>(o.b);
    auto num = [](auto const &bs) -> u64 { return bs.template to<u64>(); };
    auto by_index = [&](auto f) -> u64 {
        return f(static_cast<Idx>(o.a));
    };
    switch (o.k) {
    case b_load:
        return num(o.use_mo ? x.load(mo) : x.load());
    case b_conv:
        return num(static_cast<bits_t>(x));
    case b_store: {
        bits_t const v{o.a};
        o.use_mo ? x.store(v, mo) : x.store(v);
        return 0;
    }
    case b_index:
        return by_index([&](auto i) -> u64 { return x[i] ? 1 : 0; });
    case b_set:
        return by_index([&](auto i) -> u64 {
            if (o.use_mo) {
                return num(x.set(i, o.v, mo));
            }
            return num(o.v ? x.set(i) : x.set(i, false));
        });
    case b_set_msb:
        if (o.use_mo) {
            return num(x.set(l, m, o.v, mo));
        }
        return num(o.v ? x.set(l, m) : x.set(l, m, false));
    case b_set_len:
        if (o.use_mo) {
            return num(x.set(l, n, o.v, mo));
        }
        return num(o.v ? x.set(l, n) : x.set(l, n, false));
    case b_set_all:
        return is_self(x, o.use_mo ? x.set(mo) : x.set());
    case b_reset:
        return by_index([&](auto i) -> u64 {
            return num(o.use_mo ? x.reset(i, mo) : x.reset(i));
        });
    case b_reset_msb:
        return num(o.use_mo ? x.reset(l, m, mo) : x.reset(l, m));
    case b_reset_len:
        return num(o.use_mo ? x.reset(l, n, mo) : x.reset(l, n));
    case b_reset_all:
        return is_self(x, o.use_mo ? x.reset(mo) : x.reset());
    case b_flip:
        return by_index([&](auto i) -> u64 {
            return num(o.use_mo ? x.flip(i, mo) : x.flip(i));
        });
    case b_flip_msb:
        return num(o.use_mo ? x.flip(l, m, mo) : x.flip(l, m));
    case b_flip_len:
        return num(o.use_mo ? x.flip(l, n, mo) : x.flip(l, n));
    case b_flip_all:
        return num(o.use_mo ? x.flip(mo) : x.flip());
    case b_all:
        return (o.use_mo ? x.all(mo) : x.all()) ? 1 : 0;
    case b_any:
        return (o.use_mo ? x.any(mo) : x.any()) ? 1 : 0;
    case b_none:
        return (o.use_mo ? x.none(mo) : x.none()) ? 1 : 0;
    case b_count:
        return o.use_mo ? x.count(mo) : x.count();
    case b_to:
        if (o.b == 1) {
            using small_t = stdx::smallest_uint_t<BS::size()>;
            return o.use_mo ? x.template to<small_t>(mo)
                            : x.template to<small_t>();
        }
        if (o.b == 2) {
            return static_cast<u64>(o.use_mo ? x.template to<set_number>(mo)
                                             : x.template to<set_number>());
        }
        return o.use_mo ? x.template to<u64>(mo) : x.template to<u64>();
    case b_to_natural:
        return static_cast<u64>(o.use_mo ? x.to_natural(mo) : x.to_natural());
    default:
        return 0;
    }
}

template <std::size_t N>
auto bits_step(u64 s, int k, u64 a, u64 b, bool v) -> std::pair<u64, u64> {
    constexpr u64 m = set_mask<N>();
    switch (k) {
    case b_load:
    case b_conv:
    case b_to:
    case b_to_natural:
        return {s, s};
    case b_store:
        return {a, 0};
    case b_index:
        return {s, (s >> a) & 1u};
    case b_set:
        return {v ? s | (u64{1} << a) : s & ~(u64{1} << a), s};
    case b_set_msb:
        return {v ? s | range_mask(a, b) : s & ~range_mask(a, b), s};
    case b_set_len:
        return {v ? s | range_mask(a, a + b - 1) : s & ~range_mask(a, a + b - 1),
                s};
    case b_set_all:
        return {m, 0};
    case b_reset:
        return {s & ~(u64{1} << a), s};
    case b_reset_msb:
        return {s & ~range_mask(a, b), s};
    case b_reset_len:
        return {s & ~range_mask(a, a + b - 1), s};
    case b_reset_all:
        return {0, 0};
    case b_flip:
        return {s ^ (u64{1} << a), s};
    case b_flip_msb:
        return {s ^ range_mask(a, b), s};
    case b_flip_len:
        return {s ^ range_mask(a, a + b - 1), s};
    case b_flip_all:
        return {s ^ m, s};
    case b_all:
        return {s, s == m ? 1 : 0};
    case b_any:
        return {s, s != 0 ? 1 : 0};
    case b_none:
        return {s, s == 0 ? 1 : 0};
    case b_count:
        return {s, static_cast<u64>(__builtin_popcountll(s))};
    default:
        return {s, 0};
    }
}

template <auto Size, typename... E> struct bits_object {
    constexpr static auto N = static_cast<std::size_t>(Size);
    using idx_t = std::conditional_t<std::is_enum_v<decltype(Size)>,
                                     decltype(Size), std::size_t>;
    using obj_t = stdx::atomic_bitset<Size, E...>;
    static auto draw() -> plan_op { return draw_bit_op<N>(); }
    static auto draw_init() -> u64 {
        switch (sim::choose(8)) {
        case 6:
            return 0;
        case 7:
            return set_mask<N>();
        default:
            return sim::value64() & set_mask<N>();
        }
    }
    // the same initial set, made in one of the ways there are
    static auto create(u64 init) -> sim::box<obj_t> {
        switch (sim::choose(7)) {
        case 6: {
            stdx::ct_string<N + 1> text{};
            for (u64 i = 0; i < N; ++i) {
                text.begin()[N - 1 - i] = ((init >> i) & 1u) != 0 ? '1' : '0';
            }
            return sim::make<obj_t>(text);
        }
        case 1:
            if (init == 0) {
                return sim::make<obj_t>();
            }
            break;
        case 2:
            if (init == set_mask<N>()) {
                return sim::make<obj_t>(stdx::all_bits);
            }
            break;
        case 3:
            if (u64 const b = init & (init - 1), c = b & (b - 1);
                init != 0 and (c & (c - 1)) == 0) {
                auto const at = [](u64 v, u64 other) {
                    return static_cast<idx_t>(
                        std::countr_zero(v == 0 ? other : v));
                };
                return sim::make<obj_t>(stdx::place_bits, at(init, init),
                                        at(b, init), at(c, init));
            }
            break;
        case 4:
        case 5: {
            std::string text{};
            u64 const skip = sim::choose(3);
            char const one = sim::flip(1, 2) ? '1' : 'x';
            text.append(skip, one);
            u64 const digits = init == 0 or sim::flip(1, 2)
                                   ? N
                                   : static_cast<u64>(std::bit_width(init));
            for (u64 i = digits; i-- != 0;) {
                text += ((init >> i) & 1u) != 0 ? one : '.';
            }
            u64 const more = digits == N ? sim::choose(2) : 0;
            text.append(more, one);
            return one == '1' and skip == 0 and more == 0
                       ? sim::make<obj_t>(std::string_view{text})
                       : sim::make<obj_t>(std::string_view{text}, skip, N, one);
        }
        default:
            break;
        }
        return sim::make<obj_t>(init);
    }
    static auto run(obj_t &x, plan_op const &o) -> u64 {
        return perform_bits<idx_t>(x, o);
    }
    static auto final_op() -> plan_op { return plan_op{b_load}; }
    static auto step(u64 s, lin::op const &o) -> std::pair<u64, u64> {
        // the value argument of set travels in the top bit of b
        return bits_step<N>(s, o.kind, o.a, o.b & 0xff, (o.b >> 63) == 0);
    }
};

// ------------------------------------------------------------ threads
struct run_config {
    bool allow_critical = true;
    bool only_critical = false;
    bool watch = false;
    bool kill = false;
    bool stale = false;      // stale reads (only with default orderings)
    bool default_mo = false; // never pass an explicit ordering
    u32 max_threads = 4;
    u32 max_ops = 4;
};

inline auto draw_sched(run_config const &rc) -> sim::sched_config {
    sim::sched_config sc{};
    constexpr u32 gaps[] = {2, 1, 3, 6};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.mode = rc.kill or sim::choose(3) != 2 ? sim::sched::threads
                                             : sim::sched::interrupts;
    sc.kill = rc.kill;
    sc.stale_reads = rc.stale;
    sc.max_steps = 4000;
    if (rc.only_critical or (rc.allow_critical and sim::choose(3) == 2)) {
        sim::set_platform(sim::platform::critical);
    }
    return sc;
}

// Several threads or interrupts use one shared object; the recorded history
// must be linearizable.
template <typename O> void shared_object_run(run_config const &rc) {
    auto const sc = draw_sched(rc);
    u64 const init = O::draw_init();
    std::vector<std::vector<plan_op>> plan{};
    std::vector<int> prio{};
    do {
        auto &ops = plan.emplace_back();
        do {
            auto o = O::draw();
            if (rc.default_mo) {
                o.use_mo = false;
            }
            ops.push_back(o);
        } while (sim::more(static_cast<u32>(ops.size()), rc.max_ops));
        prio.push_back(sc.mode == sim::sched::interrupts and plan.size() > 1
                           ? 1 + static_cast<int>(sim::choose(3))
                           : 0);
    } while (plan.size() < 2 or
             sim::more(static_cast<u32>(plan.size()), rc.max_threads));
    auto const nt = static_cast<u32>(plan.size());
    auto obj = O::create(init);
    if (rc.watch) {
        sim::watch_cell(obj.get(), sizeof(typename O::obj_t));
    }
    sim::configure(sc);
    sim::event("initial value %x, %d threads, %s, %s", init, nt,
               sc.mode == sim::sched::interrupts ? "interrupts" : "threads",
               sim::get_platform() == sim::platform::critical
                   ? "interrupt-masking platform"
                   : "lock-free platform");
    lin::history h{};
    h.ops.reserve(32);
    auto one = [&](plan_op const o) {
        sim::yield();
        auto const i =
            h.begin(o.k, o.a, o.b | (o.v ? u64{} : u64{1} << 63));
        u64 r{};
        {
            sim::sut_scope const s{};
            r = O::run(*obj, o);
        }
        h.end(i, r);
        sim::event("%s(%x,%d) %s mo=%d -> %x", kind_names[o.k], o.a, o.b,
                   o.v ? "" : "false", o.use_mo ? o.mo : -1, r);
    };
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn(
            [&one, &p = plan[t]] {
                for (auto const &o : p) {
                    one(o);
                }
            },
            {.priority = prio[t], .killable = rc.kill and t + 1 < nt});
    }
    sim::run_threads();
    one(O::final_op());
    for (auto const &o : h.ops) {
        sim::probe(kind_names[o.kind]);
    }
    if (not lin::linearizable(h.ops, init, O::step)) {
        sim::fail("not-linearizable",
                  "no order of the %d calls explains their results",
                  h.ops.size());
    }
}
} // namespace SIM_NS
