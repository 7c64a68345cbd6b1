#include "../sim/elem.hpp"

#include <stdx/cx_vector.hpp>

#include <array>
#include <limits>
#include <vector>

namespace {
using elem::outcome;
using u32 = std::uint32_t;
using model = std::vector<int>;

// equality looks at the value only; every object carries a different note
u32 notes = 0;
struct noted {
    std::uint8_t val{};
    u32 note{};
    noted() = default;
    explicit noted(int v) : val{static_cast<std::uint8_t>(v)}, note{++notes} {}
    [[nodiscard]] auto get() const -> int { return val; }
    friend auto operator==(noted const &a, noted const &b) -> bool {
        return a.val == b.val;
    }
};

template <typename T> auto num(T const &t) -> int {
    if constexpr (std::is_arithmetic_v<T>) {
        return static_cast<int>(t);
    } else {
        return t.get();
    }
}

template <typename It, typename MIt>
void same_walk(It b, It e, MIt mb, MIt me, char const *how) {
    u32 i = 0;
    for (; b != e; ++b, ++i) {
        sim::require(mb != me, "wrong-content", "%s: more elements than %d",
                     how, i);
        sim::require(num(*b) == *mb, "wrong-content",
                     "%s: element %d is %d, expected %d", how, i, num(*b), *mb);
        ++mb;
    }
    sim::require(mb == me, "wrong-content", "%s: only %d elements", how, i);
}

template <std::size_t I, typename V> void compare_place(V &v, model const &m) {
    V const &c = v;
    if (I < m.size()) {
        sim::require(
            num(stdx::get<I>(v)) == m[I] and num(stdx::get<I>(c)) == m[I] and
                num(v.template get<I>()) == m[I] and
                num(c.template get<I>()) == m[I] and
                &stdx::get<I>(v) == &v[I] and &c.template get<I>() == &c[I],
            "wrong-content", "wrong element %d by fixed index", I);
    }
}
template <typename V> void compare(V &v, model const &m) {
    V const &c = v;
    auto const n = m.size();
    sim::require(c.size() == n and c.empty() == m.empty() and
                     c.full() == (n == V::capacity()),
                 "wrong-size", "size is %d, expected %d", c.size(), n);
    same_walk(v.begin(), v.end(), m.begin(), m.end(), "forward");
    same_walk(c.begin(), c.end(), m.begin(), m.end(), "const forward");
    same_walk(v.cbegin(), v.cend(), m.begin(), m.end(), "cbegin");
    same_walk(v.rbegin(), v.rend(), m.rbegin(), m.rend(), "reverse");
    same_walk(c.rbegin(), c.rend(), m.rbegin(), m.rend(), "const reverse");
    same_walk(v.crbegin(), v.crend(), m.rbegin(), m.rend(), "crbegin");
    for (std::size_t i = 0; i < n; ++i) {
        sim::require(num(v[i]) == m[i] and num(c[i]) == m[i], "wrong-content",
                     "element %d is %d by index, expected %d", i, num(c[i]),
                     m[i]);
    }
    if (n != 0) {
        sim::require(
            num(v.front()) == m.front() and num(c.front()) == m.front() and
                num(v.back()) == m.back() and num(c.back()) == m.back(),
            "wrong-content", "wrong front or back");
    }
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (compare_place<Is>(v, m), ...);
    }(std::make_index_sequence<(V::capacity() < 8 ? V::capacity() : 8)>{});
    if constexpr (V::capacity() > 8) {
        compare_place<V::capacity() - 1>(v, m);
    }
}
template <typename V> void compare_in(V &v, model const &m) {
    sim::sut_scope const s{};
    compare(v, m);
}

template <typename T, std::size_t N> void vector_run() {
    using V = stdx::cx_vector<T, N>;
    elem::reset_ledger();
    {
        auto v = sim::make_default<V>();
        auto w = sim::make_default<V>();
        model mv{}, mw{};
        int next = 0;
        auto fresh = [&] { return next = (next + 1) % 100; };
        for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(N + 1);
            outcome o = outcome::ok;
            switch (sim::choose(14)) {
            case 0:
            case 1:
            case 2: { // append a copy
                if (mv.size() == N) {
                    break;
                }
                T const x{static_cast<T>(fresh())};
                T *r = nullptr;
                o = elem::attempt(k, [&] {
                    if constexpr (elem::copyable<T>) {
                        r = &v->push_back(x);
                    } else {
                        r = &v->push_back(static_cast<T>(next));
                    }
                });
                sim::event("append copy %d: %s", next, elem::name_of(o));
                if (o == outcome::ok) {
                    mv.push_back(next);
                    sim::require(r == &v->back(), "wrong-reference",
                                 "append did not return the new element");
                }
                sim::require(num(x) == next, "source-changed",
                             "an appended copy changed its source");
                break;
            }
            case 3:
            case 4: { // append by move
                if (mv.size() == N) {
                    break;
                }
                T x{static_cast<T>(fresh())};
                T *r = nullptr;
                o = elem::attempt(k, [&] { r = &v->push_back(std::move(x)); });
                sim::event("append move %d: %s", next, elem::name_of(o));
                if (o == outcome::ok) {
                    mv.push_back(next);
                    sim::require(r == &v->back(), "wrong-reference",
                                 "append did not return the new element");
                }
                break;
            }
            case 5:
            case 6: { // pop
                if (mv.empty()) {
                    break;
                }
                int got = elem::blank;
                o = elem::attempt(k, [&] {
                    auto x = v->pop_back();
                    got = num(x);
                });
                sim::event("pop: %s %d", elem::name_of(o), got);
                if (o == outcome::ok) {
                    sim::require(got == mv.back(), "wrong-content",
                                 "popped %d, expected %d", got, mv.back());
                    mv.pop_back();
                }
                break;
            }
            case 7: { // write one element
                if (mv.empty()) {
                    break;
                }
                auto const at = sim::choose(static_cast<u32>(mv.size()));
                auto const how = sim::choose(4);
                T x{static_cast<T>(fresh())};
                bool const first = how == 2 and at == 0;
                bool const last = how == 3 and at + 1 == mv.size();
                o = elem::attempt(k, [&] {
                    T &to = first      ? v->front()
                            : last     ? v->back()
                            : how == 1 ? *(v->begin() + at)
                                       : (*v)[at];
                    if constexpr (elem::copyable<T>) {
                        to = x;
                    } else {
                        to = std::move(x);
                    }
                });
                sim::event("write %d at %d: %s", next, at, elem::name_of(o));
                if (o == outcome::ok) {
                    mv[at] = next;
                }
                break;
            }
            case 8: // clear
                o = elem::attempt(0, [&] { v->clear(); });
                mv.clear();
                sim::event("clear");
                break;
            case 9: { // copy construction
                if constexpr (elem::copyable<T>) {
                    o = elem::attempt(k, [&] {
                        V c{*v};
                        sim::host_scope const h{};
                        sim::arm(0);
                        compare(c, mv);
                        if constexpr (requires { c == *v; }) {
                            sim::require(c == *v, "wrong-comparison",
                                         "a copy differs from its original");
                        }
                    });
                    sim::event("copy: %s", elem::name_of(o));
                }
                break;
            }
            case 10: { // assignment (without failures) and comparison
                auto const how =
                    elem::copyable<T> ? sim::choose(5) : 1 + sim::choose(2);
                elem::attempt(0, [&] {
                    if (how == 1) {
                        std::swap(*v, *w);
                    } else if (how == 2) {
                        V t{};
                        t = std::move(*w);
                        *w = std::move(t);
                    } else if constexpr (elem::copyable<T>) {
                        if (how == 4) {
                            V &self = *v;
                            *v = self;
                        } else if (how == 0) {
                            *w = *v;
                        } else {
                            *v = *w;
                        }
                    }
                });
                if (how == 0) {
                    mw = mv;
                } else if (how == 1) {
                    std::swap(mw, mv);
                } else if (how == 3) {
                    mv = mw;
                }
                sim::event("assign %d", how);
                break;
            }
            case 12: { // append a copy of an own element
                if (mv.empty() or mv.size() == N or not elem::copyable<T>) {
                    break;
                }
                auto const at = sim::choose(static_cast<u32>(mv.size()));
                o = elem::attempt(k, [&] {
                    if constexpr (elem::copyable<T>) {
                        v->push_back((*v)[at]);
                    }
                });
                sim::event("append own element %d: %s", at, elem::name_of(o));
                if (o == outcome::ok) {
                    mv.push_back(mv[at]);
                }
                break;
            }
            case 11: { // bulk overwrite by a user function that may fail
                u32 const to = sim::choose(N + 1);
                u32 const fail_at = sim::maybe(1, 3, to + 1);
                model after = mv;
                std::size_t cap{};
                o = elem::attempt(0, [&] {
                    resize_and_overwrite(
                        *v, [&](T *p, std::size_t n) -> std::size_t {
                            cap = n;
                            for (u32 j = 0; j < to; ++j) {
                                if (fail_at == j + 1) {
                                    sim::host_scope const h{};
                                    sim::arm(1);
                                    if (sim::fault_point("user_function")) {
                                        throw sim::fault_t{2};
                                    }
                                }
                                p[j] = static_cast<T>(fresh());
                                if (j < after.size()) {
                                    after[j] = next;
                                } else {
                                    after.push_back(next);
                                }
                            }
                            if (fail_at == to + 1) {
                                sim::host_scope const h{};
                                sim::arm(1);
                                if (sim::fault_point("user_function")) {
                                    throw sim::fault_t{2};
                                }
                            }
                            return to;
                        });
                });
                sim::event("overwrite %d elements: %s", to, elem::name_of(o));
                sim::require(cap == N, "wrong-capacity",
                             "the user function was told %d", cap);
                after.resize(o == outcome::ok ? to : mv.size());
                mv = after;
                break;
            }
            default: { // comparison with the other vector
                if constexpr (requires { *v == *w; }) {
                    bool eq{}, ne{};
                    elem::attempt(0, [&] {
                        eq = *v == *w;
                        ne = *v != *w;
                    });
                    sim::require(eq == (mv == mw) and ne != eq,
                                 "wrong-comparison", "vectors of %d and %d",
                                 mv.size(), mw.size());
                    if constexpr (elem::copyable<T>) {
                        V t{*v};
                        if (not mv.empty()) {
                            auto const at =
                                sim::choose(static_cast<u32>(mv.size()));
                            if constexpr (std::is_floating_point_v<T>) {
                                V z{*v};
                                t[at] = T{0};
                                z[at] = -T{0};
                                sim::require(t == z and not(t != z),
                                             "wrong-comparison",
                                             "zeros of both signs differ");
                                t[at] = std::numeric_limits<T>::quiet_NaN();
                                z = t;
                                sim::require(not(t == z) and t != z and
                                                 not(t == t),
                                             "wrong-comparison",
                                             "a value unequal to itself");
                            }
                            t[at] = static_cast<T>(101);
                            sim::require(not(t == *v), "wrong-comparison",
                                         "difference at %d not seen", at);
                            t[at] = (*v)[at];
                            (void)t.pop_back();
                            sim::require(not(t == *v) and not(*v == t),
                                         "wrong-comparison",
                                         "a prefix compares equal");
                        }
                    }
                }
                break;
            }
            }
            compare_in(*v, mv);
            compare_in(*w, mw);
            if (mv.size() == N) {
                sim::probe("full");
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// construction from values, where each conversion may fail
template <typename T> void construct_run() {
    elem::reset_ledger();
    {
        u32 const k = sim::maybe(1, 2, 5);
        T const a{static_cast<T>(7)}, b{static_cast<T>(8)},
            c{static_cast<T>(9)};
        auto const o = elem::attempt(k, [&] {
            stdx::cx_vector<T, 5> v{a, b, c};
            sim::host_scope const h{};
            sim::arm(0);
            compare(v, model{7, 8, 9});
        });
        sim::event("construct from three values: %s", elem::name_of(o));
        auto const o2 = elem::attempt(k, [&] {
            stdx::cx_vector v{a, b};
            sim::host_scope const h{};
            sim::arm(0);
            compare(v, model{7, 8});
            sim::require(v.full(), "wrong-size", "deduced capacity");
        });
        sim::event("construct from two values: %s", elem::name_of(o2));
        sim::require(num(a) == 7 and num(b) == 8 and num(c) == 9,
                     "source-changed", "construction changed its arguments");
        sim::nontrivial();
    }
    elem::all_destroyed();
}

template <typename T> void sizes() {
    switch (sim::choose(6)) {
    case 0:
        return vector_run<T, 3>();
    case 1:
        return vector_run<T, 1>();
    case 2:
        return vector_run<T, 2>();
    case 3:
        return vector_run<T, 5>();
    case 4:
        return construct_run<T>();
    default:
        return vector_run<T, 8>();
    }
}

template <typename T, std::size_t N> void bulk_run() {
    auto v = sim::make_default<stdx::cx_vector<T, N>>();
    model m{};
    u32 next = 0;
    for (u32 i = 0; sim::more(i, N > 1000 ? 2 : 8); ++i) {
        bool const push = sim::choose(5) < 3;
        u32 n = sim::choose(4) == 0 ? N : 1 + sim::choose(N);
        sim::event("%s up to %d", push ? "append" : "pop", n);
        while (n-- > 0) {
            if (push and m.size() < N) {
                T const x = static_cast<T>(++next * 7919u);
                {
                    sim::sut_scope const s{};
                    v->push_back(x);
                }
                m.push_back(static_cast<int>(x));
            } else if (not push and not m.empty()) {
                T x{};
                {
                    sim::sut_scope const s{};
                    x = v->pop_back();
                }
                sim::require(static_cast<int>(x) == m.back(), "wrong-content",
                             "popped %d, expected %d", x, m.back());
                m.pop_back();
            } else {
                break;
            }
            sim::require(v->size() == m.size(), "wrong-size",
                         "size is %d, expected %d", v->size(), m.size());
        }
        compare(*v, m);
        auto const c = *v;
        sim::require(c == *v, "wrong-comparison", "a copy differs");
        if (not m.empty()) { // one element differs, wherever it is
            auto d = c;
            u32 const at = sim::choose(2) == 0
                               ? (sim::choose(2) == 0 ? 0 : m.size() - 1)
                               : sim::choose(static_cast<u32>(m.size()));
            d[at] = static_cast<T>(d[at] ^ (T{1} << sim::choose(8)));
            sim::require(not(d == c) and d != c, "wrong-comparison",
                         "difference at %d of %d not seen", at, m.size());
        }
    }
    sim::nontrivial();
}
void run_bulk() {
    switch (sim::choose(8)) {
    case 0:
        return bulk_run<std::uint32_t, 300>();
    case 1:
        return bulk_run<std::uint8_t, 256>();
    case 2:
        if (sim::choose(128) == 0) {
            return sim::choose(2) == 0 ? bulk_run<std::uint8_t, 65600>()
                                       : bulk_run<std::uint8_t, 65536>();
        }
        [[fallthrough]];
    default:
        return bulk_run<std::uint16_t, 16>();
    }
}
// large elements, and more than a few of them
void run_heavy() {
    switch (sim::choose(5)) {
    case 0:
        return vector_run<elem::heavy, 2>();
    case 1:
        return vector_run<elem::heavy_fragile, 3>();
    case 2:
        return vector_run<elem::block, 3>();
    case 3:
        return vector_run<elem::item, 20>();
    default:
        return vector_run<elem::fragile, 33>();
    }
}
#ifndef SIM_WITHOUT_MOVE_ONLY
void run_exclusive() {
    switch (sim::choose(3)) {
    case 0:
        return vector_run<elem::exclusive, 3>();
    case 1:
        return vector_run<elem::exclusive, 1>();
    default:
        return vector_run<elem::exclusive, 6>();
    }
}
#endif
void run_noted() {
    notes = 0;
    sizes<noted>();
}
sim::scenario const scenarios[] = {
    {"values_with_their_own_equality", 1, run_noted},
    {"floating_point", 1, sizes<float>},
    {"failing_copies", 3, sizes<elem::item>},
    {"failing_copies_and_moves", 3, sizes<elem::fragile>},
    {"integers", 1, sizes<int>},
    {"plain_records", 1, sizes<elem::record>},
    {"large_capacities", 1, run_bulk},
    {"large_elements", 1, run_heavy},
#ifndef SIM_WITHOUT_MOVE_ONLY
    {"moved_only", 1, run_exclusive},
#endif
};
} // namespace

sim::property_def const sim::the_property = {
    "C13",
    "Each run draws a vector (capacity 1-8, in blocks up to 65600, several "
    "element types) and a "
    "history of up to 24 (rarely 1500) appends, pops, writes, clears, copies, "
    "assignments, "
    "bulk overwrites and comparisons; in a quarter of the calls the k-th "
    "element copy or move fails, and the user's overwrite function may fail "
    "at any element. After every call all views of the vector are compared "
    "with a reference sequence. Non-trivial: the history ran to its end. "
    "Distinct: hash of all choices and results.",
    "stdx::cx_vector",
    "element type with failing copies/moves and lifetime ledger, user "
    "function",
    scenarios,
    std::size(scenarios),
    4500000,
    13500000,
};
