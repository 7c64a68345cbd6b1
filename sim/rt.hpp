// Deterministic simulation runtime: public interface used by the scenarios.
//
// Everything a run does is a function of one stream of "choices".  In search
// mode the choices come from a PRNG seeded with (VERIF_SEED, property, run
// number); in replay mode they come from a recorded list.  Value 0 always is
// the simplest alternative (no preemption, no fault, first operation ...), so
// a recorded list can be minimised by deleting and zeroing entries.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace sim {

// ---------------------------------------------------------------- choices
// Uniform choice in [0, n).  n == 0 is treated as 1.
auto choose(std::uint32_t n) -> std::uint32_t;
// true with probability num/den (false is the simple alternative)
auto flip(std::uint32_t num, std::uint32_t den) -> bool;
// 0 with probability (1 - num/den), otherwise uniform in [1, n]
auto maybe(std::uint32_t num, std::uint32_t den, std::uint32_t n)
    -> std::uint32_t;
// "one more?" - true until the count drawn uniformly from [0, max] is reached.
// One choice per item, so that items can be deleted from a recorded list.
inline auto more(std::uint32_t done, std::uint32_t max) -> bool {
    return done < max and flip(max - done, max - done + 1);
}
// The longest history of a run: usually n, rarely long enough to pass what a
// small counter can hold.
inline auto lengthy(std::uint32_t n) -> std::uint32_t {
    return flip(1, 512) ? 1500 : n;
}
// raw 64 random bits made of two choices (values are mixed: small, boundary)
auto value64() -> std::uint64_t;

// ---------------------------------------------------------------- logging
// Events go into the run's hash; text is produced only in trace mode.
// Accepted conversions: %d %u %x (64-bit arguments), %s (C strings).
void event(char const *fmt);
void event_args(char const *fmt, std::uint64_t const *args, unsigned nargs,
                unsigned strmask);

namespace detail {
inline auto as_arg(char const *s) -> std::uint64_t {
    return reinterpret_cast<std::uint64_t>(s);
}
template <typename T>
    requires(std::is_integral_v<T> or std::is_enum_v<T>)
auto as_arg(T t) -> std::uint64_t {
    if constexpr (std::is_enum_v<T>) {
        return static_cast<std::uint64_t>(
            static_cast<std::underlying_type_t<T>>(t));
    } else {
        return static_cast<std::uint64_t>(t);
    }
}
template <typename T>
constexpr bool is_str = std::is_convertible_v<T, char const *>;
} // namespace detail

template <typename... Ts> void event(char const *fmt, Ts... ts) {
    std::uint64_t const args[] = {detail::as_arg(ts)...};
    unsigned mask = 0;
    unsigned i = 0;
    ((mask |= (detail::is_str<Ts> ? 1u : 0u) << i++), ...);
    event_args(fmt, args, sizeof...(Ts), mask);
}

// Ends the run with a violation.  cls is a stable class name (used to decide
// that a minimised run shows "the same" violation).
[[noreturn]] void fail_args(char const *cls, char const *fmt,
                            std::uint64_t const *args, unsigned nargs,
                            unsigned strmask);
template <typename... Ts>
[[noreturn]] void fail(char const *cls, char const *fmt, Ts... ts) {
    std::uint64_t const args[] = {std::uint64_t{}, detail::as_arg(ts)...};
    unsigned mask = 0;
    unsigned i = 0;
    ((mask |= (detail::is_str<Ts> ? 1u : 0u) << i++), ...);
    fail_args(cls, fmt, args + 1, sizeof...(Ts), mask);
}
template <typename... Ts>
void require(bool ok, char const *cls, char const *fmt, Ts... ts) {
    if (not ok) {
        fail(cls, fmt, ts...);
    }
}

// Counters reported in the evidence.
void fault(char const *kind);       // a fault was injected
void probe(char const *name);       // a state of interest was reached
void sim_time(std::uint64_t ticks); // simulated clock ticks that elapsed
void nontrivial();                  // mark this run as non-trivial
void mix(std::uint64_t v);          // add a value to the run's hash

// ---------------------------------------------------------------- threads
struct thread_opts {
    int priority = 0; // only used in interrupt mode: higher preempts lower
    bool killable = false;
};
auto spawn(std::function<void()> f, thread_opts o = {}) -> int;
// Runs all spawned threads until each has finished, been killed, or the step
// budget is exhausted (which is a violation unless nobody is left running).
void run_threads();
auto self() -> int;       // 0 is the root thread
auto now() -> std::uint64_t; // scheduler step counter
void yield();             // explicit preemption point
auto alive_threads() -> int;
auto was_killed(int tid) -> bool;

enum class sched : std::uint8_t {
    threads,    // any runnable thread may run at any preemption point
    interrupts, // strict nesting: a higher priority thread runs to completion
};
struct sched_config {
    sched mode = sched::threads;
    // mean number of preemption points between forced switches; 0: never
    std::uint32_t mean_gap = 0;
    bool stale_reads = false; // loads may return older permitted values
    bool kill = false;        // killable threads may be stopped forever
    bool detect_races = true;
    std::uint64_t max_steps = 200000; // preemption points
};
void configure(sched_config const &c);

// Interrupt masking (used by the simulated platform).
void irq_disable();
void irq_enable();

// Code under test runs inside a scope: memory accesses of the current thread
// are preemption points and are checked for races and bounds.
struct sut_scope {
    sut_scope();
    ~sut_scope();
    sut_scope(sut_scope const &) = delete;
    auto operator=(sut_scope const &) -> sut_scope & = delete;
};
// User callbacks called from code under test leave that scope temporarily.
struct host_scope {
    host_scope();
    ~host_scope();
    host_scope(host_scope const &) = delete;
    auto operator=(host_scope const &) -> host_scope & = delete;

  private:
    int saved;
};
template <typename F> auto sut(F &&f) -> decltype(auto) {
    sut_scope const s{};
    return std::forward<F>(f)();
}
auto in_sut() -> bool;

// ---------------------------------------------------------------- memory
// Objects under test live in an arena with guard zones; any access of code
// under test to arena bytes outside a live object is a violation.
auto arena_alloc(std::size_t size, std::size_t align) -> void *;
void arena_free(void *p);

template <typename T> struct arena_delete {
    void operator()(T *p) const {
        p->~T();
        arena_free(p);
    }
};
template <typename T> using box = std::unique_ptr<T, arena_delete<T>>;
template <typename T, typename... Args> auto make(Args &&...args) -> box<T> {
    void *p = arena_alloc(sizeof(T), alignof(T));
    return box<T>{::new (p) T(std::forward<Args>(args)...)};
}
template <typename T> auto make_default() -> box<T> {
    void *p = arena_alloc(sizeof(T), alignof(T));
    return box<T>{::new (p) T{}};
}

// ------------------------------------------------- simulated atomic cells
enum class rmw : std::uint8_t { xchg, add, sub, and_, or_, xor_ };
auto cell_load(void const *addr, unsigned size, int mo) -> std::uint64_t;
void cell_store(void *addr, unsigned size, std::uint64_t v, int mo);
auto cell_rmw(void *addr, unsigned size, rmw op, std::uint64_t v, int mo)
    -> std::uint64_t;

// How the simulated platform implements atomic access.
enum class platform : std::uint8_t {
    lock_free, // one indivisible instruction
    critical,  // mask interrupts / take the platform lock, then plain steps
};
void set_platform(platform p);
auto get_platform() -> platform;
void platform_enter();
void platform_leave();
// Registers [p, p+n) as shared cells: any access by code under test from
// outside the platform layer is a violation.
void cell_aligned(void const *p, std::size_t n);
void watch_cell(void const *p, std::size_t n);

// ---------------------------------------------------------------- scenarios
struct scenario {
    char const *name;
    unsigned weight;
    void (*fn)();
};
struct property_def {
    char const *id;
    char const *rule;      // how cases are made, what makes one non-trivial
    char const *real;      // components that ran as real code
    char const *stub;      // components that are simulated
    scenario const *scenarios;
    unsigned nscenarios;
    std::uint64_t quick_runs;
    std::uint64_t thorough_runs;
};
// Provided by each check.
extern property_def const the_property;

// RAII fault arming: within one operation the k-th fault point fails.
// 0 means none.  fault_point() is called from user callbacks/elements.
struct fault_t {
    int id;
};
void arm(std::uint32_t kth);
auto disarm() -> bool; // returns whether an armed fault fired
auto fault_fired() -> bool;
auto fault_points_seen() -> std::uint32_t;
// returns true when the caller must fail now
auto fault_point(char const *kind) -> bool;

} // namespace sim
