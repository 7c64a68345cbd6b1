// Element types whose lifetime is tracked and whose copies (and moves) are
// fault points.
#pragma once

#include "rt.hpp"

#include <array>
#include <cstdint>
#include <type_traits>

namespace elem {
struct ledger_t {
    std::int64_t live{};
    std::uint64_t made{};
    std::uint64_t copies{};
    std::uint64_t moves{};
};
inline ledger_t ledger{};
inline void reset_ledger() { ledger = {}; }

constexpr int blank = -1;      // value of a default constructed element
constexpr int moved_out = -77; // value left behind by a move

constexpr std::uint64_t alive_mark = 0xA11CE5A11CE5ull;
constexpr std::uint64_t dead_mark = 0xDEADDEADDEADull;

// makes an element large; a few of its words follow the element's value
template <std::size_t N> struct ballast {
    std::array<int, N> words{};
    ballast() { set(blank); }
    void set(int v) {
        words[0] = v;
        words[N / 2] = v + 1;
        words[N - 1] = v + 2;
    }
    [[nodiscard]] auto is(int v) const -> bool {
        return words[0] == v and words[N / 2] == v + 1 and
               words[N - 1] == v + 2;
    }
};
template <> struct ballast<0> {
    static void set(int) {}
    static auto is(int) -> bool { return true; }
};

template <bool MoveFails, std::size_t Ballast = 0> class basic_item {
    int val{blank};
    std::uint64_t mark{};
    [[no_unique_address]] ballast<Ballast> load{};

    auto self_mark() const -> std::uint64_t {
        return alive_mark ^ reinterpret_cast<std::uint64_t>(this);
    }
    void born() {
        mark = self_mark();
        ++ledger.live;
        ++ledger.made;
    }
    void put(int v) {
        val = v;
        load.set(v);
    }
    static void maybe_fail(char const *kind) {
        sim::host_scope const h{};
        if (sim::fault_point(kind)) {
            throw sim::fault_t{1};
        }
    }

  public:
    basic_item() { born(); }
    explicit(false) basic_item(int v) : val{v} {
        load.set(v);
        born();
    }
    basic_item(basic_item const &o) : val{o.get()} {
        maybe_fail("copy_construct");
        ++ledger.copies;
        load = o.load;
        born();
    }
    basic_item(basic_item &&o) noexcept(not MoveFails) : val{o.get()} {
        if constexpr (MoveFails) {
            maybe_fail("move_construct");
        }
        ++ledger.moves;
        load = o.load;
        o.put(moved_out);
        born();
    }
    auto operator=(basic_item const &o) -> basic_item & {
        check();
        int const v = o.get();
        maybe_fail("copy_assign");
        ++ledger.copies;
        put(v);
        return *this;
    }
    auto operator=(basic_item &&o) noexcept(not MoveFails) -> basic_item & {
        check();
        int const v = o.get();
        if constexpr (MoveFails) {
            maybe_fail("move_assign");
        }
        ++ledger.moves;
        if (&o != this) {
            o.put(moved_out);
        }
        put(v);
        return *this;
    }
    ~basic_item() {
        check();
        mark = dead_mark;
        --ledger.live;
    }

    void check() const {
        if (mark != self_mark()) {
            sim::fail("dead-object",
                      mark == dead_mark
                          ? "an element was used after its destruction"
                          : "an element was used that was never constructed "
                            "(or was copied bytewise)");
        }
    }
    [[nodiscard]] auto get() const -> int {
        check();
        sim::require(load.is(val), "torn-element",
                     "the words of an element do not agree");
        return val;
    }
    void set(int v) {
        check();
        put(v);
    }

    friend auto operator==(basic_item const &a, basic_item const &b) -> bool {
        return a.get() == b.get();
    }
    friend auto operator<(basic_item const &a, basic_item const &b) -> bool {
        return a.get() < b.get();
    }
};

using item = basic_item<false>;  // copies may fail
using fragile = basic_item<true>; // copies and moves may fail
using heavy = basic_item<false, 70>;      // the same, large
using heavy_fragile = basic_item<true, 70>;

// can be moved only
struct exclusive : item {
    using item::item;
    exclusive() = default;
    exclusive(exclusive &&) = default;
    auto operator=(exclusive &&) -> exclusive & = default;
};
template <typename T> constexpr bool copyable = std::is_copy_constructible_v<T>;

// trivially copyable and several words long; the words must agree
class record {
    int val{blank};
    std::uint32_t low{mix(blank)};
    std::uint64_t high{mix(blank) * 3ull};
    std::uint32_t last{~mix(blank)};

    constexpr static auto mix(int v) -> std::uint32_t {
        return static_cast<std::uint32_t>(v) * 2654435761u + 17u;
    }

  public:
    record() = default;
    explicit(false) record(int v) { set(v); }
    [[nodiscard]] auto get() const -> int {
        sim::require(low == mix(val) and high == mix(val) * 3ull and
                         last == ~mix(val),
                     "torn-element", "the words of an element do not agree");
        return val;
    }
    void set(int v) {
        val = v;
        low = mix(v);
        high = mix(v) * 3ull;
        last = ~mix(v);
    }
    friend auto operator==(record const &a, record const &b) -> bool {
        return a.get() == b.get();
    }
    friend auto operator<(record const &a, record const &b) -> bool {
        return a.get() < b.get();
    }
};

// trivially copyable and large
class block {
    int val{blank};
    ballast<66> load{};

  public:
    block() = default;
    explicit(false) block(int v) { set(v); }
    [[nodiscard]] auto get() const -> int {
        sim::require(load.is(val), "torn-element",
                     "the words of an element do not agree");
        return val;
    }
    void set(int v) {
        val = v;
        load.set(v);
    }
    friend auto operator==(block const &a, block const &b) -> bool {
        return a.get() == b.get();
    }
    friend auto operator<(block const &a, block const &b) -> bool {
        return a.get() < b.get();
    }
};

// equal to every other one with its number, yet told apart by its label
struct labelled {
    int number{blank};
    int label{};
    friend auto operator==(labelled const &a, labelled const &b) -> bool {
        return a.number == b.number;
    }
};

struct panicked {}; // thrown by the checks' panic handlers

enum class outcome : std::uint8_t { ok, failed, panicked };
inline auto name_of(outcome o) -> char const * {
    return o == outcome::ok       ? "ok"
           : o == outcome::failed ? "failed"
                                  : "panicked";
}

// Runs one call of the code under test with the k-th fault point armed.
template <typename F> auto attempt(std::uint32_t kth, F &&f) -> outcome {
    sim::arm(kth);
    outcome r = outcome::ok;
    try {
        sim::sut_scope const s{};
        f();
    } catch (sim::fault_t const &) {
        r = outcome::failed;
    } catch (panicked const &) {
        r = outcome::panicked;
    }
    bool const fired = sim::disarm();
    if (fired and r != outcome::failed) {
        sim::fail("swallowed-failure",
                  "an element's failure did not reach the caller");
    }
    if (not fired and r == outcome::failed) {
        sim::fail("invented-failure", "a failure nobody raised");
    }
    return r;
}
// arguments and oracles must not trip armed faults
inline auto draw_fault(std::uint32_t max) -> std::uint32_t {
    return sim::maybe(1, 4, max);
}

inline void all_destroyed() {
    sim::require(ledger.live == 0, "leak",
                 "%d elements still alive after everything was destroyed",
                 ledger.live);
}
} // namespace elem
