#include "../sim/elem.hpp"

#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/iterator.hpp>
#include <stdx/numeric.hpp>

#include <algorithm>
#include <array>
#include <utility>
#include <vector>

namespace {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

enum class how : std::uint8_t { lvalue, const_lvalue, rvalue };
template <typename T, typename F> decltype(auto) with(how h, T &t, F &&f) {
    switch (h) {
    case how::lvalue:
        return f(t);
    case how::const_lvalue:
        return f(std::as_const(t));
    default:
        return f(std::move(t));
    }
}
// of many, only the first ones are passed in any way
constexpr auto anyhow = static_cast<how>(9);
template <std::size_t N> constexpr auto fixed_how(std::size_t i) -> how {
    return N > 4 and i > 1 ? static_cast<how>(i % 3) : anyhow;
}
template <typename B, std::size_t N, typename F, typename... Done>
void spread(std::array<B, N> &a, std::array<how, N> const &h, F &&f,
            Done &&...done) {
    if constexpr (sizeof...(Done) == N) {
        f(std::forward<Done>(done)...);
    } else {
        constexpr auto i = sizeof...(Done);
        auto const on = [&](auto &&x) {
            spread(a, h, f, std::forward<Done>(done)...,
                   std::forward<decltype(x)>(x));
        };
        if constexpr (fixed_how<N>(i) == how::lvalue) {
            on(a[i]);
        } else if constexpr (fixed_how<N>(i) == how::const_lvalue) {
            on(std::as_const(a[i]));
        } else if constexpr (fixed_how<N>(i) == how::rvalue) {
            on(std::move(a[i]));
        } else {
            with(h[i], a[i], on);
        }
    }
}

void point(char const *kind) {
    sim::host_scope const hs{};
    if (sim::fault_point(kind)) {
        throw sim::fault_t{1};
    }
}

// something an element can be made from, where the making may fail
std::vector<int> conversions;
struct raw {
    int v{};
    template <bool M> explicit(false) operator elem::basic_item<M>() const {
        {
            sim::host_scope const hs{};
            conversions.push_back(v);
        }
        point("conversion");
        return elem::basic_item<M>{v};
    }
};

// ------------------------------------------------------ from given values
template <typename B, typename S, std::size_t N, bool Named> struct values {
    static void go() {
        elem::reset_ledger();
        {
            u32 const base = 10 * sim::choose(5);
            std::array<int, N> want{};
            std::array<how, N> h{};
            for (u32 i = 0; i < N; ++i) {
                want[i] = static_cast<int>(base + sim::choose(7));
                h[i] = fixed_how<N>(i) == anyhow
                           ? static_cast<how>(sim::choose(3))
                           : fixed_how<N>(i);
            }
            auto source = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                return std::array<S, N>{S{want[Is]}...};
            }(std::make_index_sequence<N>{});
            constexpr bool elements = not std::is_same_v<S, raw>;
            i64 const kept = elements ? N : 0;
            conversions.clear();
            u64 const copies_before = elem::ledger.copies;
            u32 const k = elem::draw_fault(N + 2);
            u64 copied = 0;
            auto const o = elem::attempt(k, [&] {
                spread(source, h, [&](auto &&...x) {
                    auto const made = [&] {
                        if constexpr (Named) {
                            return stdx::make_array<B>(
                                std::forward<decltype(x)>(x)...);
                        } else {
                            return stdx::make_array(
                                std::forward<decltype(x)>(x)...);
                        }
                    }();
                    sim::host_scope const hs{};
                    copied = elem::ledger.copies - copies_before;
                    if constexpr (N == 0) {
                        sim::require(made.empty(), "wrong-size",
                                     "an array of nothing has elements");
                    } else {
                        static_assert(
                            std::is_same_v<std::remove_const_t<decltype(made)>,
                                           std::array<B, N>>);
                        for (u32 i = 0; i < N; ++i) {
                            sim::require(made[i].get() == want[i],
                                         "wrong-element",
                                         "element %d is %d, expected %d", i,
                                         made[i].get(), want[i]);
                        }
                    }
                    sim::require(elem::ledger.live ==
                                     kept + static_cast<i64>(N),
                                 "leak", "%d elements alive, %d expected",
                                 elem::ledger.live, kept + N);
                });
            });
            sim::event("array of %d: %s", N, elem::name_of(o));
            u64 may_copy = 0;
            for (auto const x : h) {
                may_copy += x == how::rvalue ? 0 : 1;
            }
            sim::require(copied <= (elements ? may_copy : 0u), "extra-copy",
                         "%d copies made", copied);
            if constexpr (elements) {
                for (u32 i = 0; i < N; ++i) {
                    sim::require(h[i] == how::rvalue or
                                     source[i].get() == want[i],
                                 "source-changed", "kept value %d became %d",
                                 want[i], source[i].get());
                }
            } else {
                // converted once each, in order, up to the failing one
                bool const ok = o == elem::outcome::ok;
                sim::require(ok ? conversions.size() == N
                                : conversions.size() <= N,
                             "conversions", "%d conversions for %d elements",
                             conversions.size(), N);
                for (u32 i = 0; i < conversions.size(); ++i) {
                    sim::require(conversions[i] == want[i], "conversions",
                                 "conversion %d of %d, expected %d", i,
                                 conversions[i], want[i]);
                }
            }
            sim::require(elem::ledger.live == kept, "leak",
                         "%d elements alive, %d expected", elem::ledger.live,
                         kept);
            if (o == elem::outcome::ok) {
                sim::nontrivial();
            } else {
                sim::probe("building failed");
            }
        }
        elem::all_destroyed();
        conversions.clear();
    }
};

// ------------------------------------------------------- from a generator
struct gen_call {
    char self; // l or c
    i64 at;
    int state;
    void const *where;
};
std::vector<gen_call> gen_calls;

template <typename B> struct generator {
    B state{100}; // copying a generator may fail
    template <auto I> auto run(char self) const -> B {
        {
            sim::host_scope const hs{};
            gen_calls.push_back({self, static_cast<i64>(I), state.get(), this});
        }
        point("generator");
        return B{state.get() * 1000 + static_cast<int>(I)};
    }
    template <auto I> auto operator()() -> B {
        auto r = run<I>('l');
        state.set(state.get() + 1);
        return r;
    }
    template <auto I> auto operator()() const -> B { return run<I>('c'); }
};
template <typename T> struct list_of;
template <typename T, T... Is> struct list_of<std::integer_sequence<T, Is...>> {
    static auto get() -> std::vector<i64> { return {static_cast<i64>(Is)...}; }
};

template <typename B, typename Seq, auto Extent> struct generated {
    static void go() {
        auto const at = list_of<Seq>::get();
        u32 const n = static_cast<u32>(at.size());
        elem::reset_ledger();
        {
            generator<B> g{};
            u32 rounds = 0;
            do {
                bool const by_extent =
                    Extent != decltype(Extent){} and sim::flip(1, 2);
                how const h = static_cast<how>(sim::choose(3));
                int const state = g.state.get();
                gen_calls.clear();
                u64 const copies_before = elem::ledger.copies;
                u32 const k = elem::draw_fault(n < 8 ? n + 2 : n);
                auto const o = elem::attempt(k, [&] {
                    with(h, g, [&](auto &&f) {
                        auto const check = [&](auto const &made) {
                            sim::host_scope const hs{};
                            sim::require(made.size() == n, "wrong-size",
                                         "%d elements instead of %d",
                                         made.size(), n);
                            for (u32 i = 0; i < n; ++i) {
                                int const now =
                                    h == how::const_lvalue
                                        ? state
                                        : state + static_cast<int>(i);
                                int const want =
                                    now * 1000 + static_cast<int>(at[i]);
                                sim::require(made[i].get() == want,
                                             "wrong-element",
                                             "element %d is %d, expected %d", i,
                                             made[i].get(), want);
                            }
                            sim::require(elem::ledger.copies == copies_before,
                                         "extra-copy", "%d copies made",
                                         elem::ledger.copies - copies_before);
                            sim::require(
                                elem::ledger.live == 1 + static_cast<i64>(n),
                                "leak", "%d elements alive", elem::ledger.live);
                        };
                        if (by_extent) {
                            check(stdx::make_array<Extent>(
                                std::forward<decltype(f)>(f)));
                        } else {
                            check(stdx::make_array(
                                Seq{}, std::forward<decltype(f)>(f)));
                        }
                    });
                });
                bool const ok = o == elem::outcome::ok;
                sim::event("generate %d as %d: %s", n, static_cast<u32>(h),
                           elem::name_of(o));
                sim::require(ok ? gen_calls.size() == n : gen_calls.size() <= n,
                             "not-called-once", "%d calls for %d elements",
                             gen_calls.size(), n);
                for (u32 i = 0; i < gen_calls.size(); ++i) {
                    auto const &c = gen_calls[i];
                    sim::require(c.at == at[i], "wrong-call",
                                 "call %d was for %d, expected %d", i, c.at,
                                 at[i]);
                    sim::require(c.where == &g, "copied-generator",
                                 "a copy of the generator was called");
                }
                int const moved =
                    h == how::const_lvalue
                        ? 0
                        : static_cast<int>(gen_calls.size()) - (ok ? 0 : 1);
                // the call that failed may or may not have counted
                sim::require(g.state.get() == state + moved or
                                 (not ok and h != how::const_lvalue and
                                  g.state.get() == state + moved + 1),
                             "source-changed", "generator state %d, was %d",
                             g.state.get(), state);
                sim::require(elem::ledger.live == 1, "leak",
                             "%d elements alive", elem::ledger.live - 1);
                if (ok) {
                    sim::nontrivial();
                } else {
                    sim::probe("generating failed");
                }
                ++rounds;
            } while (sim::more(rounds, 3));
        }
        elem::all_destroyed();
        gen_calls.clear();
    }
};

template <auto V> struct tripled {
    constexpr static int value = static_cast<int>(V) * 3 + 1;
};
void constants() {
    auto const check = [](auto const &a, auto const &want) {
        sim::require(std::equal(a.begin(), a.end(), want.begin(), want.end()),
                     "wrong-element", "an array of constants is wrong");
    };
    u32 const which = sim::choose(8);
    sim::event("constants %d", which);
    using v = std::vector<int>;
    switch (which) {
    case 0:
        check(sim::sut([] { return stdx::make_array<tripled, 6>(); }),
              v{1, 4, 7, 10, 13, 16});
        break;
    case 1:
        check(sim::sut([] {
                  return stdx::make_array<tripled>(
                      std::integer_sequence<int, 9, 2, 2, 7>{});
              }),
              v{28, 7, 7, 22});
        break;
    case 2:
        check(sim::sut([] { return stdx::make_array<tripled, 0>(); }), v{});
        break;
    case 5:
    case 6: {
        v want{};
        int const n = which == 5 ? 33 : 300;
        for (int i = 0; i < n; ++i) {
            want.push_back(i * 3 + 1);
        }
        if (which == 5) {
            check(sim::sut([] { return stdx::make_array<tripled, 33>(); }),
                  want);
        } else {
            check(sim::sut([] { return stdx::make_array<tripled, 300>(); }),
                  want);
        }
        break;
    }
    case 3: {
        // of mixed types: nothing may be lost by converting
        i64 const big = static_cast<i64>(sim::value64() >> 1);
        auto const a =
            sim::sut([&] { return stdx::make_array(u8{3}, big, 5); });
        static_assert(std::is_same_v<decltype(a), std::array<i64, 3> const>);
        check(a, std::vector<i64>{3, big, 5});
        break;
    }
    case 4: {
        double const half = 0.5 + sim::choose(9);
        auto const a =
            sim::sut([&] { return stdx::make_array<double>(1.5f, half); });
        check(a, std::vector<double>{1.5, half});
        break;
    }
    default:
        check(sim::sut(
                  [] { return stdx::make_array<tripled, std::size_t{3}>(); }),
              v{1, 4, 7});
        break;
    }
    sim::nontrivial();
}

template <typename T, T... Is> using seq = std::integer_sequence<T, Is...>;
using case_t = void (*)();
template <typename B> auto value_cases() -> std::vector<case_t> {
    std::vector<case_t> v;
    auto const add = [&]<std::size_t N>() {
        v.push_back(&values<B, B, N, false>::go);
        v.push_back(&values<B, B, N, true>::go);
        v.push_back(&values<B, raw, N, true>::go);
    };
    add.template operator()<3>();
    add.template operator()<1>();
    add.template operator()<2>();
    add.template operator()<4>();
    add.template operator()<9>();
    add.template operator()<18>();
    v.push_back(&values<B, B, 0, true>::go);
    v.push_back(&values<B, B, 0, false>::go);
    return v;
}
template <typename B> auto generator_cases() -> std::vector<case_t> {
    return {
        &generated<B, seq<int, 0, 1, 2>, 3>::go,
        &generated<B, seq<int, 0>, 1>::go,
        &generated<B, seq<u8, 0, 1>, u8{2}>::go,
        &generated<B, std::make_index_sequence<6>, std::size_t{6}>::go,
        &generated<B, seq<int, 7, 3, 3, 12>, 0>::go,
        &generated<B, seq<u32, 200, 100>, 0u>::go,
        &generated<B, std::make_integer_sequence<int, 17>, 17>::go,
        &generated<B, std::make_integer_sequence<u16, 65>, u16{65}>::go,
        &generated<B, std::make_integer_sequence<int, 130>, 130>::go,
    };
}
void from_values() {
    static auto const plain = value_cases<elem::item>();
    static auto const fragile = value_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? plain : fragile;
    v[sim::choose(static_cast<u32>(v.size()))]();
}
void from_generator() {
    static auto const plain = generator_cases<elem::item>();
    static auto const fragile = generator_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? plain : fragile;
    u32 const n = static_cast<u32>(v.size());
    // the long ones now and then
    u32 const i = sim::choose(sim::flip(1, 8) ? n : n - 3);
    v[i]();
}

// ------------------------------------------------------- counting cursors
template <typename T> struct cursors {
    using it = stdx::counting_iterator<T>;
    using diff = typename it::difference_type;
    static constexpr u64 mask =
        sizeof(T) == 8 ? ~u64{} : (u64{1} << 8 * sizeof(T)) - 1;

    static auto same(T got, u64 want) -> bool {
        return (static_cast<u64>(got) & mask) == (want & mask);
    }

    static void go() {
        // signed numbers must not overflow, unsigned ones wrap
        constexpr bool wraps = std::is_unsigned_v<T>;
        auto const start = [&]() -> u64 {
            if (wraps) {
                return sim::value64() & mask;
            }
            return sim::choose(40) - 20ull;
        };
        u64 model[2] = {start(), start()};
        std::array<sim::box<it>, 2> c{
            sim::make<it>(it{static_cast<T>(model[0])}),
            sim::make<it>(it{static_cast<T>(model[1])})};
        u32 done = 0;
        while (sim::more(done, 10)) {
            ++done;
            u32 const w = sim::choose(2);
            u32 const op = sim::choose(15);
            // the wide ones also jump far, without ever overflowing
            i64 const far = sizeof(diff) == 8 and sim::flip(1, 4)
                                ? i64{1} << (31 + sim::choose(20))
                                : 0;
            i64 const d = static_cast<i64>(sim::choose(11)) - 5 +
                          (sim::flip(1, 2) ? far : -far);
            it &x = *c[w];
            it &y = *c[1 - w];
            u64 &m = model[w];
            u64 const n = model[1 - w];
            bool ok = true;
            sim::sut([&] {
                switch (op) {
                case 0:
                    ok = &++x == &x;
                    ++m;
                    break;
                case 1:
                    ok = same(*x++, m);
                    ++m;
                    break;
                case 2:
                    ok = &--x == &x;
                    --m;
                    break;
                case 3:
                    ok = same(*x--, m);
                    --m;
                    break;
                case 4:
                    ok = &(x += static_cast<diff>(d)) == &x;
                    m += static_cast<u64>(d);
                    break;
                case 5:
                    ok = &(x -= static_cast<diff>(d)) == &x;
                    m -= static_cast<u64>(d);
                    break;
                case 6:
                    ok = &x.advance(static_cast<diff>(d)) == &x;
                    m += static_cast<u64>(d);
                    break;
                case 7:
                    ok = same(*(x + static_cast<diff>(d)),
                              m + static_cast<u64>(d));
                    break;
                case 8:
                    ok = same(*(static_cast<diff>(d) + x),
                              m + static_cast<u64>(d));
                    break;
                case 9:
                    ok = same(*(x - static_cast<diff>(d)),
                              m - static_cast<u64>(d));
                    break;
                case 10:
                    ok = same(static_cast<T>(x - y), m - n);
                    break;
                case 11: {
                    auto const a = static_cast<T>(m);
                    auto const b = static_cast<T>(n);
                    ok = (x == y) == (a == b) and (x != y) == (a != b) and
                         (x < y) == (a < b) and (x <= y) == (a <= b) and
                         (x > y) == (a > b) and (x >= y) == (a >= b);
                    break;
                }
                case 12:
                    x = y;
                    m = n;
                    break;
                case 13:
                    *x = static_cast<T>(n + 1);
                    m = n + 1;
                    break;
                default: {
                    auto const k = x;
                    ok = same(*k, m) and x == k;
                    break;
                }
                }
            });
            sim::event("cursor %d op %d by %d", w, op, static_cast<u32>(d));
            sim::require(ok, "wrong-answer", "operation %d by %d at %x", op,
                         static_cast<u32>(d), m);
            for (u32 i = 0; i < 2; ++i) {
                T const now = *std::as_const(*c[i]);
                sim::require(same(now, model[i]), "wrong-position",
                             "cursor %d at %x, expected %x", i,
                             static_cast<u64>(now), model[i] & mask);
            }
        }
        sim::nontrivial();
    }
};
void counting() {
    static constexpr case_t fs[] = {
        cursors<int>::go, cursors<u8>::go,          cursors<u32>::go,
        cursors<i64>::go, cursors<u64>::go,         cursors<short>::go,
        cursors<u16>::go, cursors<signed char>::go,
    };
    fs[sim::choose(std::size(fs))]();
}

// ---------------------------------------- algorithms driven by a counter
template <typename T> struct driven {
    static void go() {
        using it = stdx::counting_iterator<T>;
        u32 const from = sim::choose(20);
        u32 const n = sim::flip(1, 10) ? sim::choose(100) : sim::choose(7);
        u32 const which = sim::choose(5);
        std::vector<u32> seen;
        std::vector<u32> out(n, 0xffffu);
        auto const number = [&](u32 i) {
            return static_cast<u32>(static_cast<T>(from + i));
        };
        auto const look = [&](T x) {
            {
                sim::host_scope const hs{};
                seen.push_back(static_cast<u32>(x));
            }
            point("function");
            return static_cast<u32>(x) * 2 + 1;
        };
        auto const first = it{static_cast<T>(from)};
        auto const last = it{static_cast<T>(from + n)};
        auto buf = sim::make<std::array<u32, 100>>(std::array<u32, 100>{});
        u32 sum = 0;
        u32 const k = elem::draw_fault(n + 2);
        auto const o = elem::attempt(k, [&] {
            switch (which) {
            case 0:
                stdx::for_each(first, last, look);
                break;
            case 1:
                stdx::for_each_n(first, n, look);
                break;
            case 2:
                stdx::transform(first, last, buf->begin(), look);
                break;
            case 3:
                stdx::transform_n(first, n, buf->begin(), look);
                break;
            default:
                sum = stdx::transform_reduce(
                    first, last, 0u, [](u32 a, u32 b) { return a + b; }, look);
                break;
            }
        });
        bool const ok = o == elem::outcome::ok;
        sim::event("algorithm %d over %d from %d: %s", which, n, from,
                   elem::name_of(o));
        sim::require(seen.size() == (ok ? n : k), "wrong-visits",
                     "%d numbers seen, %d expected", seen.size(), ok ? n : k);
        u32 total = 0;
        for (u32 i = 0; i < seen.size(); ++i) {
            sim::require(seen[i] == number(i), "wrong-visits",
                         "number %d was %d, expected %d", i, seen[i],
                         number(i));
            total += number(i) * 2 + 1;
        }
        if (which == 2 or which == 3) {
            for (u32 i = 0; i < 100; ++i) {
                u32 const want = i < (ok ? n : k - 1) ? number(i) * 2 + 1 : 0;
                sim::require((*buf)[i] == want, "wrong-output",
                             "output %d is %d, expected %d", i, (*buf)[i],
                             want);
            }
        }
        sim::require(which < 4 or not ok or sum == total, "wrong-sum",
                     "sum %d, expected %d", sum, total);
        if (ok) {
            sim::nontrivial();
        }
    }
};
void counted() {
    static constexpr case_t fs[] = {driven<int>::go, driven<u8>::go,
                                    driven<u64>::go, driven<i64>::go,
                                    driven<u16>::go};
    fs[sim::choose(std::size(fs))]();
}

sim::scenario const scenarios[] = {
    {"from_values", 3, from_values}, {"from_generator", 3, from_generator},
    {"constants", 1, constants},     {"counting", 3, counting},
    {"driven", 2, counted},
};
} // namespace

sim::property_def const sim::the_property = {
    "C27",
    "Each run builds arrays of up to 18 given values (each kept, constant or "
    "given up, or converted) or of up to 130 generated ones, with at most one "
    "copy, move, conversion or generator call failing; or moves two counting "
    "cursors through up to 10 steps; or drives an algorithm by a counting "
    "cursor whose function may fail. Compared with the listed values, the "
    "exact call log and the object ledger. Non-trivial: an array was built, "
    "or the history ended. Distinct: hash of all choices and results.",
    "stdx::make_array, counting_iterator, range algorithms driven by it",
    "elements, generators and functions that fail",
    scenarios,
    5,
    12000000,
    72000000,
};
