// Simulated platform layer: stands in for the bare-metal concurrency library
// the code under test is written against.  Same interface, but every call
// goes to the deterministic scheduler and memory model.
#pragma once

#include "../rt.hpp"

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <type_traits>

// The inline namespace lets one program contain two platform configurations:
// the second one is compiled with -Dv1=<other name>.
namespace atomic {
inline namespace v1 {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;

#ifdef SIM_WIDE_STORAGE
constexpr inline std::size_t strictness = 2; // stricter than the type's own
#else
constexpr inline std::size_t strictness = 1;
#endif
template <typename T>
constexpr inline auto alignment_of =
    std::alignment_of_v<atomic_type_t<T>> * strictness;
} // namespace v1
} // namespace atomic

#ifdef SIM_WIDE_STORAGE
// the same kind of configuration header a platform would supply
template <> struct atomic::atomic_type<std::uint8_t> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<bool> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::uint32_t> {
    using type = std::uint64_t;
};
template <> struct atomic::atomic_type<std::int8_t> {
    using type = std::int32_t;
};
template <> struct atomic::atomic_type<std::int16_t> {
    using type = std::int64_t;
};
template <typename T> struct atomic::atomic_type<T *> {
    using type = std::uintptr_t;
};
template <typename T>
    requires(std::is_enum_v<T>)
struct atomic::atomic_type<T> : atomic::atomic_type<std::underlying_type_t<T>> {
};
#endif

namespace atomic {
inline namespace v1 {
namespace sim_detail {
template <typename T> auto bits(T const &t) -> std::uint64_t {
    std::uint64_t v{};
    __builtin_memcpy(&v, &t, sizeof(T));
    return v;
}
template <typename T> auto unbits(std::uint64_t v) -> T {
    T t{};
    __builtin_memcpy(&t, &v, sizeof(T));
    return t;
}

struct entered {
    template <typename T> explicit entered(T const &t) {
        sim::platform_enter();
        sim::cell_aligned(std::addressof(t), alignof(T) * strictness);
    }
    ~entered() { sim::platform_leave(); }
};
struct section {
    section() { sim::irq_disable(); }
    ~section() { sim::irq_enable(); }
};

template <typename T, typename F>
auto rmw(T &t, sim::rmw op, T v, std::memory_order mo, F f) -> T {
    entered const e{t};
    if (sim::get_platform() == sim::platform::critical) {
        section const s{};
        T const old = t;
        t = static_cast<T>(f(old, v));
        return old;
    }
    return unbits<T>(sim::cell_rmw(std::addressof(t), sizeof(T), op, bits(v),
                                   static_cast<int>(mo)));
}
} // namespace sim_detail

template <typename T>
[[nodiscard]] auto load(T const &t,
                        std::memory_order mo = std::memory_order_seq_cst) -> T {
    sim_detail::entered const e{t};
    if (sim::get_platform() == sim::platform::critical) {
        sim_detail::section const s{};
        return t;
    }
    return sim_detail::unbits<T>(
        sim::cell_load(std::addressof(t), sizeof(T), static_cast<int>(mo)));
}
template <typename T>
auto store(T &t, std::type_identity_t<T> value,
           std::memory_order mo = std::memory_order_seq_cst) -> void {
    sim_detail::entered const e{t};
    if (sim::get_platform() == sim::platform::critical) {
        sim_detail::section const s{};
        t = value;
        return;
    }
    sim::cell_store(std::addressof(t), sizeof(T), sim_detail::bits(value),
                    static_cast<int>(mo));
}
template <typename T>
[[nodiscard]] auto exchange(T &t, std::type_identity_t<T> value,
                            std::memory_order mo = std::memory_order_seq_cst)
    -> T {
    return sim_detail::rmw(t, sim::rmw::xchg, value, mo,
                           [](T, T v) { return v; });
}
template <typename T>
auto fetch_add(T &t, std::type_identity_t<T> value,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return sim_detail::rmw(t, sim::rmw::add, value, mo,
                           [](T a, T v) { return a + v; });
}
template <typename T>
auto fetch_sub(T &t, std::type_identity_t<T> value,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return sim_detail::rmw(t, sim::rmw::sub, value, mo,
                           [](T a, T v) { return a - v; });
}
template <typename T>
auto fetch_and(T &t, std::type_identity_t<T> value,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return sim_detail::rmw(t, sim::rmw::and_, value, mo,
                           [](T a, T v) { return a & v; });
}
template <typename T>
auto fetch_or(T &t, std::type_identity_t<T> value,
              std::memory_order mo = std::memory_order_seq_cst) -> T {
    return sim_detail::rmw(t, sim::rmw::or_, value, mo,
                           [](T a, T v) { return a | v; });
}
template <typename T>
auto fetch_xor(T &t, std::type_identity_t<T> value,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return sim_detail::rmw(t, sim::rmw::xor_, value, mo,
                           [](T a, T v) { return a ^ v; });
}
} // namespace v1
} // namespace atomic
