#include "../sim/elem.hpp"

#include <stdx/tuple.hpp>
#include <stdx/tuple_destructure.hpp>

#include <algorithm>
#include <array>
#include <compare>
#include <string>
#include <utility>
#include <vector>

namespace {
using u32 = std::uint32_t;
using i64 = std::int64_t;

// ------------------------------------------------- elements
// Every comparison is noted, and may fail.
struct meeting {
    void const *a;
    void const *b;
};
std::vector<meeting> met;
void meet(void const *a, void const *b) {
    sim::host_scope const h{};
    met.push_back({a, b});
    if (sim::fault_point("compare")) {
        throw sim::fault_t{2};
    }
}

constexpr int strange = 9; // cannot be ordered, equals nothing
enum class verdict : std::uint8_t { equal, less, greater, unordered };
auto judge(bool partial, int a, int b) -> verdict {
    if (partial and (a == strange or b == strange)) {
        return verdict::unordered;
    }
    return a == b ? verdict::equal : a < b ? verdict::less : verdict::greater;
}
template <typename O> auto as(verdict v) -> O {
    if constexpr (std::is_same_v<O, std::partial_ordering>) {
        if (v == verdict::unordered) {
            return O::unordered;
        }
    }
    return v == verdict::equal  ? O::equivalent
           : v == verdict::less ? O::less
                                : O::greater;
}

template <int K, typename O = std::strong_ordering, typename B = elem::fragile>
struct elt : B {
    using B::B;
    using B::get;
    constexpr static int kind = K;
    constexpr static bool partial = std::is_same_v<O, std::partial_ordering>;

    friend auto operator==(elt const &a, elt const &b) -> bool {
        meet(&a, &b);
        return judge(partial, a.get(), b.get()) == verdict::equal;
    }
    friend auto operator<=>(elt const &a, elt const &b) -> O {
        meet(&a, &b);
        return as<O>(judge(partial, a.get(), b.get()));
    }
    friend auto operator==(elt const &a, int const &b) -> bool {
        meet(&a, &b);
        return judge(partial, a.get(), b) == verdict::equal;
    }
    friend auto operator<=>(elt const &a, int const &b) -> O {
        meet(&a, &b);
        return as<O>(judge(partial, a.get(), b));
    }
};
template <int K> using strong = elt<K>;
template <int K> using weak = elt<K, std::weak_ordering>;
template <int K> using part = elt<K, std::partial_ordering>;
template <int K> using calm = elt<K, std::strong_ordering, elem::item>;
#ifndef SIM_WITHOUT_MOVE_ONLY
// can be moved but not copied
struct unique_item : elem::fragile {
    using elem::fragile::fragile;
    unique_item() = default;
    unique_item(unique_item &&) = default;
    auto operator=(unique_item &&) -> unique_item & = default;
};
template <int K> using only = elt<K, std::strong_ordering, unique_item>;
template <int K>
using part_only = elt<K, std::partial_ordering, unique_item>;
#endif

struct leaf_t {
    void const *at;
    int value;
    bool partial;
    bool noted; // whether comparing it is
};
using leaves = std::vector<leaf_t>;
template <typename T> void flatten(T const &t, leaves &o) {
    if constexpr (std::is_same_v<T, int>) {
        o.push_back({&t, t, false, false});
    } else if constexpr (requires { T::kind; }) {
        o.push_back({&t, t.get(), T::partial, true});
    } else {
        t.apply([&](auto const &...e) { (flatten(e, o), ...); });
    }
}
template <typename T> auto leaves_of(T const &t) -> leaves {
    sim::host_scope const h{};
    leaves o;
    flatten(t, o);
    return o;
}
template <typename T> auto values_of(T const &t) -> std::vector<int> {
    sim::host_scope const h{};
    std::vector<int> v;
    for (auto const &l : leaves_of(t)) {
        v.push_back(l.value);
    }
    return v;
}
auto text(std::vector<int> const &v) -> std::string {
    std::string s = "(";
    for (auto x : v) {
        s += " " + std::to_string(x);
    }
    return s + " )";
}
template <typename T, typename F> void each(T &t, F const &f) {
    if constexpr (std::is_same_v<T, int> or requires { T::kind; }) {
        f(t);
    } else {
        t.apply([&](auto &...e) { (each(e, f), ...); });
    }
}

// Elements stand in one of the two compared tuples, at the same place.
auto place(leaves const &l, void const *p) -> u32 {
    for (u32 i = 0; i < l.size(); ++i) {
        if (l[i].at == p) {
            return i;
        }
    }
    return 1000;
}
void inspect_meetings(leaves const &l, leaves const &r, bool same, u32 last,
                      bool all) {
    u32 next = 0;
    auto const skip = [&] {
        while (next < l.size() and not l[next].noted and not r[next].noted) {
            ++next;
        }
    };
    for (auto const &m : met) {
        skip();
        u32 i = place(l, m.a);
        u32 j = place(r, m.b);
        if (i == 1000 or j == 1000) {
            i = place(l, m.b);
            j = place(r, m.a);
        }
        sim::require(i != 1000 and j != 1000, "wrong-partner",
                     "a comparison involved something that is not an element "
                     "of the two tuples");
        sim::require(i == j or same, "wrong-partner",
                     "element %d was compared with element %d", i, j);
        sim::require(i <= next, "wrong-order",
                     "element %d was compared before element %d", i, next);
        sim::require(i <= last, "compared-too-much",
                     "element %d was compared although %d decides", i, last);
        next = i == next ? next + 1 : next;
    }
    skip();
    sim::require(not all or next > last or next == l.size(),
                 "compared-too-little", "only %d elements were compared", next);
}

// ------------------------------------------------- comparing
template <typename L, typename R> void compare(L const &lhs, R const &rhs) {
    auto const l = leaves_of(lhs);
    auto const r = leaves_of(rhs);
    u32 const n = static_cast<u32>(l.size());
    // both sides decide whether a pair can be ordered
    u32 last = 0;
    verdict v = verdict::equal;
    for (; last < n; ++last) {
        v = judge(l[last].partial or r[last].partial, l[last].value,
                  r[last].value);
        if (v != verdict::equal) {
            break;
        }
    }
    u32 const which = sim::choose(7);
    u32 const kth = elem::draw_fault(n + 2);
    bool answer{};
    verdict order = verdict::equal;
    met.clear();
    auto const made = elem::ledger.made;
    auto const o = elem::attempt(kth, [&] {
        switch (which) {
        case 0:
            answer = lhs == rhs;
            break;
        case 1:
            answer = lhs != rhs;
            break;
        case 2:
            answer = lhs < rhs;
            break;
        case 3:
            answer = lhs <= rhs;
            break;
        case 4:
            answer = lhs > rhs;
            break;
        case 5:
            answer = lhs >= rhs;
            break;
        default:
            auto const c = lhs <=> rhs;
            order = c == 0   ? verdict::equal
                    : c < 0  ? verdict::less
                    : c > 0  ? verdict::greater
                             : verdict::unordered;
            break;
        }
    });
    sim::event("compare %d of %d elements, decided at %d: %s", which, n, last,
               elem::name_of(o));
    bool const done = o == elem::outcome::ok;
    sim::require(elem::ledger.made == made, "extra-copies",
                 "comparing made %d elements", elem::ledger.made - made);
    inspect_meetings(l, r, static_cast<void const *>(&lhs) == &rhs, last, done);
    if (done) {
        bool const want = which == 0   ? v == verdict::equal
                          : which == 1 ? v != verdict::equal
                          : which == 2 ? v == verdict::less
                          : which == 3 ? v == verdict::less or
                                             v == verdict::equal
                          : which == 4 ? v == verdict::greater
                                       : v == verdict::greater or
                                             v == verdict::equal;
        if (which < 6) {
            sim::require(answer == want, "wrong-answer",
                         "comparison %d of %s and %s gave %d", which,
                         text(values_of(lhs)).c_str(),
                         text(values_of(rhs)).c_str(), answer);
        } else {
            sim::require(order == v, "wrong-answer",
                         "three-way comparison of %s and %s gave %d",
                         text(values_of(lhs)).c_str(),
                         text(values_of(rhs)).c_str(),
                         static_cast<u32>(order));
        }
        sim::nontrivial();
        if (last + 1 < n) {
            sim::probe("decided early");
        }
        if (v == verdict::unordered) {
            sim::probe("cannot be ordered");
        }
    } else {
        u32 const failed = std::min(place(l, met.back().a),
                                    place(l, met.back().b));
        sim::probe(failed > 0 ? "failed at a later element"
                              : "failed at the first element");
    }
    for (u32 i = 0; i < n; ++i) {
        sim::require(leaves_of(lhs)[i].value == l[i].value and
                         leaves_of(rhs)[i].value == r[i].value,
                     "changed-input", "comparing changed element %d", i);
    }
}

// the same values up to a chosen place, mostly
template <typename L, typename R> void fill(L &lhs, R &rhs) {
    std::vector<int> vs;
    each(lhs, [&](auto &e) {
        int const v = static_cast<int>(sim::maybe(3, 4, strange));
        if constexpr (std::is_same_v<decltype(e), int &>) {
            e = v;
        } else {
            e.set(v);
        }
        vs.push_back(v);
    });
    u32 i = 0;
    u32 const differ = sim::choose(static_cast<u32>(vs.size()) + 2);
    u32 const again = sim::choose(static_cast<u32>(vs.size()) + 2);
    each(rhs, [&](auto &e) {
        int v = i < vs.size() ? vs[i] : 0;
        if (i == differ or i == again) {
            v = static_cast<int>(sim::choose(strange + 1));
        }
        ++i;
        if constexpr (std::is_same_v<decltype(e), int &>) {
            e = v;
        } else {
            e.set(v);
        }
    });
}
template <typename L, typename R = L> void compared() {
    elem::reset_ledger();
    {
        auto const a = sim::make_default<L>();
        auto const b = sim::make_default<R>();
        for (u32 i = 0; i == 0 or sim::more(i, 4); ++i) {
            fill(*a, *b);
            if constexpr (std::is_same_v<L, R>) {
                if (sim::flip(1, 8)) {
                    compare(*a, *a);
                    continue;
                }
            }
            compare(*a, *b);
        }
        met.clear();
    }
    elem::all_destroyed();
}
template <int K> struct key {};
template <typename T> using key_for = key<T::kind>;
template <typename... Ts>
using keyed =
    decltype(stdx::make_indexed_tuple<key_for>(std::declval<Ts>()...));

template <typename... Ts> using tup = stdx::tuple<Ts...>;
// tuples of references to the elements of other tuples
template <typename T> void by_reference() {
    elem::reset_ledger();
    {
        auto const a = sim::make_default<T>();
        auto const b = sim::make_default<T>();
        fill(*a, *b);
        a->apply([&](auto &...x) {
            b->apply([&](auto &...y) {
                compare(stdx::tuple<decltype(x)...>{x...},
                        stdx::tuple<decltype(y)...>{y...});
                compare(stdx::forward_as_tuple(x...),
                        stdx::forward_as_tuple(y...));
                compare(*a, stdx::tuple<decltype(y)...>{y...});
                compare(stdx::forward_as_tuple(std::as_const(x)...), *b);
            });
        });
        met.clear();
    }
    elem::all_destroyed();
}
using case_t = void (*)();
void comparing() {
    static constexpr case_t fs[] = {
        compared<tup<>>,
        compared<tup<strong<0>>>,
        compared<tup<part<0>>>,
        compared<tup<strong<0>, strong<1>>>,
        compared<tup<strong<0>, strong<0>, strong<0>>>,
        compared<tup<part<0>, part<1>, part<2>, part<3>>>,
        compared<tup<strong<0>, weak<1>, part<2>>>,
        compared<tup<part<0>, strong<1>, strong<1>, weak<3>, weak<4>>>,
        compared<tup<strong<0>, strong<1>, strong<2>, strong<3>, strong<4>,
                     strong<5>, strong<6>, strong<7>>>,
        compared<tup<weak<0>, weak<0>, weak<0>, weak<0>, weak<0>, weak<0>,
                     weak<0>, weak<0>, weak<0>, weak<0>, weak<0>, weak<0>,
                     part<1>>>,
        compared<tup<strong<0>, strong<1>, strong<2>>, tup<int, int, int>>,
        compared<tup<int, int>, tup<strong<0>, strong<1>>>,
        compared<tup<strong<0>, int, strong<2>, int>,
                 tup<int, strong<0>, strong<2>, int>>,
        compared<tup<tup<strong<0>, strong<1>>, tup<part<2>>, strong<3>>>,
        compared<tup<tup<>, strong<0>, tup<strong<1>, tup<strong<2>>>>>,
        compared<tup<calm<0>, calm<1>, strong<2>>>,
        compared<keyed<strong<0>, strong<1>, strong<2>>>,
        compared<keyed<strong<0>, part<1>>, tup<strong<0>, part<1>>>,
        compared<tup<part<0>, strong<1>, strong<2>>,
                 keyed<part<0>, strong<1>, strong<2>>>,
#ifndef SIM_WITHOUT_MOVE_ONLY
        compared<tup<only<0>, only<1>>>,
        compared<tup<only<0>, strong<1>, part_only<2>, only<3>>>,
        compared<keyed<only<0>, only<1>, only<2>>>,
        by_reference<tup<only<0>, strong<1>, only<2>>>,
#endif
        by_reference<tup<strong<0>, strong<1>, part<2>>>,
        by_reference<tup<weak<0>, weak<0>>>,
    };
    fs[sim::choose(std::size(fs))]();
}

// ------------------------------------------------- one of several
template <typename T> void one_of_several() {
    elem::reset_ledger();
    {
        auto const a = sim::make_default<T>();
        for (u32 i = 0; i == 0 or sim::more(i, 3); ++i) {
            each(*a, [&](auto &e) {
                e.set(static_cast<int>(sim::choose(strange + 1)));
            });
            auto const l = leaves_of(*a);
            strong<0> const x{static_cast<int>(sim::choose(strange + 1))};
            int const y = x.get();
            bool const plain = sim::flip(1, 2);
            u32 const n = static_cast<u32>(l.size());
            u32 last = 0;
            while (last < n and l[last].value != y) {
                ++last;
            }
            bool const denied = sim::flip(1, 2);
            met.clear();
            bool answer{};
            auto const o = elem::attempt(elem::draw_fault(n + 1), [&] {
                if (plain) {
                    answer = denied ? *a != y : *a == y;
                } else {
                    answer = denied ? *a != x : *a == x;
                }
            });
            bool const done = o == elem::outcome::ok;
            sim::event("one of %d, at %d: %s", n, last, elem::name_of(o));
            void const *const to = plain ? static_cast<void const *>(&y) : &x;
            u32 next = 0;
            for (auto const &m : met) {
                auto const p = place(l, m.b == to ? m.a : m.b);
                sim::require((m.a == to or m.b == to) and p == next and
                                 p <= last,
                             "wrong-order",
                             "alternative %d was compared, expected %d of %d",
                             p, next, last);
                ++next;
            }
            if (done) {
                sim::require(next == std::min(last + 1, n),
                             "compared-too-little", "%d of %d compared", next,
                             n);
                sim::require((answer != denied) == (last < n), "wrong-answer",
                             "one of %s is %d: %d", text(values_of(*a)).c_str(),
                             y, answer);
                sim::nontrivial();
            }
        }
        met.clear();
    }
    elem::all_destroyed();
}
void choosing() {
    static constexpr case_t fs[] = {
        one_of_several<stdx::one_of<strong<0>>>,
        one_of_several<stdx::one_of<strong<0>, strong<0>>>,
        one_of_several<stdx::one_of<strong<0>, strong<0>, strong<0>, strong<0>,
                                    strong<0>>>,
        one_of_several<stdx::one_of<strong<0>, strong<0>, strong<0>, strong<0>,
                                    strong<0>, strong<0>, strong<0>, strong<0>,
                                    strong<0>>>,
    };
    fs[sim::choose(std::size(fs))]();
}

// ------------------------------------------------- reaching an element
enum class cat : std::uint8_t { lvalue, const_lvalue, rvalue, const_rvalue };
template <typename T> constexpr auto cat_of() -> cat {
    constexpr bool c = std::is_const_v<std::remove_reference_t<T>>;
    if constexpr (std::is_lvalue_reference_v<T>) {
        return c ? cat::const_lvalue : cat::lvalue;
    } else {
        return c ? cat::const_rvalue : cat::rvalue;
    }
}
struct reached {
    void const *at{};
    int value{};
    cat c{};
};
template <typename T> auto look(T &&t) -> reached {
    return {&t, t.get(), cat_of<T &&>()};
}
template <typename T> auto copy_of(reached &r, T &&t) -> void {
    // takes the value, as a caller that gives up the tuple does
    std::remove_cvref_t<T> const taken{std::forward<T>(t)};
    r.value = taken.get();
}

template <typename T, std::size_t I, typename Key>
void reach(T &t, u32 n) {
    auto const before = leaves_of(t);
    u32 const way = sim::choose(4);
    u32 const c = sim::choose(3);
    bool const take = sim::flip(1, 3);
    u32 const kth = take ? elem::draw_fault(2) : 0;
    reached got{};
    auto const on = [&](auto &&x) {
        constexpr auto use = [](bool tk, reached &g, auto &&e) {
            g = look(std::forward<decltype(e)>(e));
            if (tk) {
                copy_of(g, std::forward<decltype(e)>(e));
            }
        };
        using X = decltype(x);
        switch (way) {
        case 0:
            use(take, got, stdx::get<I>(std::forward<X>(x)));
            break;
        case 1:
            use(take, got, std::forward<X>(x)[stdx::index<I>]);
            break;
        case 2:
            use(take, got, stdx::get<Key>(std::forward<X>(x)));
            break;
        default:
            use(take, got, std::forward<X>(x).get(stdx::tag<Key>));
            break;
        }
    };
    auto const made = elem::ledger.made;
    auto const o = elem::attempt(kth, [&] {
        if (c == 0) {
            on(t);
        } else if (c == 1) {
            on(std::as_const(t));
        } else {
            on(std::move(t));
        }
    });
    bool const done = o == elem::outcome::ok;
    sim::event("reach %d of %d by %d as %d: %s", I, n, way, c,
               elem::name_of(o));
    auto const after = leaves_of(t);
    sim::require(got.at == before[I].at, "wrong-element",
                 "access to element %d reached another object", I);
    sim::require(got.value == before[I].value, "wrong-element",
                 "element %d is %d, read %d", I, before[I].value, got.value);
    sim::require(got.c == static_cast<cat>(c), "wrong-category",
                 "element %d was reached with category %d, the tuple's is %d",
                 I, static_cast<u32>(got.c), c);
    sim::require(elem::ledger.made == made + (take and done), "extra-copies",
                 "%d elements were made", elem::ledger.made - made);
    for (u32 i = 0; i < n; ++i) {
        bool const gone = i == I and take and c == 2 and done;
        sim::require(after[i].value ==
                         (gone ? elem::moved_out : before[i].value),
                     "changed-neighbour",
                     "element %d became %d by an access to element %d", i,
                     after[i].value, I);
    }
    // write through it
    int const v = static_cast<int>(100 + sim::choose(50));
    sim::sut([&] {
        switch (way) {
        case 0:
            stdx::get<I>(t).set(v);
            break;
        case 1:
            t[stdx::index<I>].set(v);
            break;
        case 2:
            stdx::get<Key>(t).set(v);
            break;
        default:
            t.get(stdx::tag<Key>).set(v);
            break;
        }
    });
    auto const now = leaves_of(t);
    for (u32 i = 0; i < n; ++i) {
        sim::require(now[i].value == (i == I ? v : after[i].value),
                     "changed-neighbour",
                     "element %d became %d by a write to element %d", i,
                     now[i].value, I);
    }
    if (done) {
        sim::nontrivial();
    }
}
template <bool Named, typename T, std::size_t... Is>
void reach_any(T &t, std::index_sequence<Is...>) {
    using fn = void (*)(T &, u32);
    static constexpr fn fs[] = {
        reach<T, Is,
              std::conditional_t<
                  Named, key_for<stdx::tuple_element_t<Is, T>>,
                  stdx::tuple_element_t<Is, T>>>...};
    fs[sim::choose(sizeof...(Is))](t, sizeof...(Is));
}
template <typename T> void names(T &t) {
    auto const l = leaves_of(t);
    std::vector<void const *> at;
    constexpr auto n = stdx::tuple_size_v<T>;
    sim::sut([&] {
        if constexpr (n == 1) {
            auto &[a] = t;
            at = {&a};
        } else if constexpr (n == 2) {
            auto &[a, b] = t;
            at = {&a, &b};
        } else if constexpr (n == 3) {
            auto const &[a, b, c] = t;
            at = {&a, &b, &c};
        } else if constexpr (n == 5) {
            auto &&[a, b, c, d, e] = std::move(t);
            at = {&a, &b, &c, &d, &e};
        }
    });
    for (u32 i = 0; i < at.size(); ++i) {
        sim::require(at[i] == l[i].at, "wrong-element",
                     "name %d stands for another element", i);
    }
}
template <typename T, bool Named = false> void reaching_in() {
    elem::reset_ledger();
    {
        auto const t = sim::make_default<T>();
        int v = 10;
        each(*t, [&](auto &e) { e.set(v++); });
        for (u32 i = 0; i == 0 or sim::more(i, 6); ++i) {
            reach_any<Named>(*t, std::make_index_sequence<stdx::tuple_size_v<T>>{});
            sim::host_scope const h{};
            names(*t);
        }
    }
    elem::all_destroyed();
}
void reaching() {
    static constexpr case_t fs[] = {
        reaching_in<tup<strong<0>>>,
        reaching_in<tup<strong<0>, strong<1>>>,
        reaching_in<tup<strong<1>, strong<0>, calm<2>>>,
        reaching_in<tup<strong<3>, calm<1>, part<0>, weak<4>, strong<2>>>,
        reaching_in<tup<strong<0>, strong<1>, strong<2>, strong<3>, strong<4>,
                        strong<5>, strong<6>, strong<7>, strong<8>, strong<9>>>,
        reaching_in<keyed<strong<0>, strong<1>>, true>,
        reaching_in<keyed<strong<2>, calm<0>, strong<1>>, true>,
        reaching_in<keyed<strong<0>, strong<1>, strong<2>, calm<3>, part<4>>, true>,
    };
    fs[sim::choose(std::size(fs))]();
}

// ------------------------------------------------- whole tuples
template <typename T> void whole_history() {
    constexpr u32 n = stdx::tuple_size_v<T>;
    elem::reset_ledger();
    {
        constexpr u32 many = 3;
        std::array<sim::box<T>, many> ts{};
        std::array<std::vector<int>, many> model{};
        int fresh = 10;
        for (u32 i = 0; i < many; ++i) {
            ts[i] = sim::make_default<T>();
            each(*ts[i], [&](auto &e) {
                e.set(fresh);
                model[i].push_back(fresh++);
            });
        }
        u32 const longest = sim::lengthy(12);
        for (u32 step = 0; step == 0 or sim::more(step, longest); ++step) {
            u32 const x = sim::choose(many);
            u32 const y = sim::choose(many);
            u32 const what = sim::choose(5);
            u32 const kth = elem::draw_fault(what == 3 ? 3 * n : n);
            auto const live = elem::ledger.live;
            std::vector<int> copied;
            auto const o = elem::attempt(kth, [&] {
                switch (what) {
                case 0:
                    *ts[x] = std::as_const(*ts[y]);
                    break;
                case 1:
                    if (x != y) {
                        *ts[x] = std::move(*ts[y]);
                    }
                    break;
                case 2: {
                    T const t{std::as_const(*ts[y])};
                    copied = values_of(t);
                    break;
                }
                case 3: {
                    T t{std::move(*ts[x])};
                    *ts[x] = std::move(*ts[y]);
                    *ts[y] = std::move(t);
                    break;
                }
                default: {
                    T t{std::move(*ts[y])};
                    copied = values_of(t);
                    break;
                }
                }
            });
            bool const done = o == elem::outcome::ok;
            sim::event("whole %d: %d from %d: %s", what, x, y,
                       elem::name_of(o));
            sim::require(elem::ledger.live == live, "leak",
                         "%d elements alive, %d before", elem::ledger.live,
                         live);
            std::array<std::vector<int>, many> now{};
            for (u32 i = 0; i < many; ++i) {
                now[i] = values_of(*ts[i]);
            }
            auto want = model;
            std::vector<int> const gone(n, elem::moved_out);
            switch (what) {
            case 0:
                want[x] = model[y];
                break;
            case 1:
                if (x != y) {
                    want[x] = model[y];
                    want[y] = gone;
                }
                break;
            case 3:
                if (x != y) {
                    std::swap(want[x], want[y]);
                }
                break;
            case 4:
                want[y] = gone;
                break;
            default:
                break;
            }
            if (done) {
                for (u32 i = 0; i < many; ++i) {
                    sim::require(now[i] == want[i], "wrong-elements",
                                 "tuple %d is %s, expected %s", i,
                                 text(now[i]).c_str(), text(want[i]).c_str());
                }
                sim::require((what != 2 and what != 4) or copied == model[y],
                             "wrong-elements", "made %s from %s",
                             text(copied).c_str(), text(model[y]).c_str());
                sim::nontrivial();
            } else {
                sim::probe("failed part-way");
                for (u32 i = 0; i < many and what != 3; ++i) {
                    for (u32 k = 0; k < n; ++k) {
                        sim::require(now[i][k] == model[i][k] or
                                         now[i][k] == want[i][k],
                                     "wrong-elements",
                                     "element %d of tuple %d is %d: neither "
                                     "old nor new",
                                     k, i, now[i][k]);
                    }
                }
                for (u32 k = 0; k < n and what == 1; ++k) {
                    sim::require(now[x][k] == model[y][k] or
                                     now[y][k] == model[y][k],
                                 "lost-element", "element %d is in neither", k);
                }
            }
            model = now;
            // start again from something that is not given up
            if (sim::flip(1, 3)) {
                u32 const z = sim::choose(many);
                u32 k = 0;
                each(*ts[z], [&](auto &e) {
                    e.set(fresh);
                    model[z][k++] = fresh++;
                });
            }
        }
    }
    elem::all_destroyed();
}
void wholes() {
    static constexpr case_t fs[] = {
        whole_history<tup<strong<0>>>,
        whole_history<tup<strong<0>, strong<0>>>,
        whole_history<tup<strong<0>, calm<1>, strong<2>>>,
        whole_history<tup<calm<0>, calm<1>, calm<2>, calm<3>>>,
        whole_history<tup<strong<0>, strong<0>, strong<1>, strong<1>, strong<2>,
                          strong<2>, strong<3>>>,
        whole_history<keyed<strong<0>, strong<1>, strong<2>>>,
    };
    fs[sim::choose(std::size(fs))]();
}

// ------------------------------------------------- making
template <u32 N, typename How> void making_by(How const &how) {
    elem::reset_ledger();
    {
        auto const in = sim::make_default<std::array<strong<0>, N>>();
        std::array<u32, N> cats{};
        std::vector<int> want;
        for (u32 i = 0; i < N; ++i) {
            (*in)[i].set(static_cast<int>(i) + 5);
            cats[i] = sim::choose(2);
            want.push_back(static_cast<int>(i) + 5);
        }
        auto const live = elem::ledger.live;
        auto const copies = elem::ledger.copies;
        std::vector<int> got;
        auto const o = elem::attempt(elem::draw_fault(2 * N), [&] {
            [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                // every other one is given up, starting anywhere
                if (cats[0] == 0) {
                    got = how([&]() -> decltype(auto) {
                        auto &e = (*in)[Is];
                        if constexpr (Is % 2 == 0) {
                            return std::as_const(e);
                        } else {
                            return std::move(e);
                        }
                    }...);
                } else {
                    got = how([&]() -> decltype(auto) {
                        auto &e = (*in)[Is];
                        if constexpr (Is % 2 == 1) {
                            return static_cast<strong<0> &>(e);
                        } else {
                            return std::move(e);
                        }
                    }...);
                }
            }(std::make_index_sequence<N>{});
        });
        bool const done = o == elem::outcome::ok;
        sim::event("make %d: %s", N, elem::name_of(o));
        sim::require(elem::ledger.live == live, "leak",
                     "%d elements alive, %d before", elem::ledger.live, live);
        if (done) {
            sim::require(got == want, "wrong-elements", "made %s from %s",
                         text(got).c_str(), text(want).c_str());
            u32 const keep = (N + (cats[0] == 0)) / 2;
            sim::require(elem::ledger.copies - copies <= keep, "extra-copies",
                         "%d copies made of %d values the caller keeps",
                         elem::ledger.copies - copies, keep);
            sim::nontrivial();
        }
        for (u32 i = 0; i < N; ++i) {
            bool const kept = (i % 2 == 0) == (cats[0] == 0);
            sim::require((*in)[i].get() == want[i] or not kept,
                         "changed-input", "kept value %d became %d", i,
                         (*in)[i].get());
        }
    }
    elem::all_destroyed();
}
template <u32 N> void made() {
    switch (sim::choose(4)) {
    case 0:
        making_by<N>([](auto... f) {
            return values_of(stdx::make_tuple(f()...));
        });
        break;
    case 1:
        making_by<N>([](auto... f) { return values_of(stdx::tuple{f()...}); });
        break;
    case 2:
        making_by<N>([](auto... f) {
            return values_of(stdx::make_indexed_tuple<key_for>(f()...));
        });
        break;
    default:
        making_by<N>([](auto... f) {
            return values_of(
                stdx::apply_indices<key_for>(stdx::tuple<decltype(f())...>{
                    f()...}));
        });
        break;
    }
}
void making() {
    static constexpr case_t fs[] = {made<1>, made<2>, made<3>, made<6>};
    fs[sim::choose(std::size(fs))]();
}

sim::scenario const scenarios[] = {
    {"comparing", 5, comparing}, {"one_of", 1, choosing},
    {"reaching", 2, reaching},   {"wholes", 2, wholes},
    {"making", 1, making},
};
} // namespace

sim::property_def const sim::the_property = {
    "C28",
    "Each run compares two tuples of 0-13 elements (strongly, weakly or "
    "partially ordered, nested, references, named, or of different types) "
    "that agree up to a drawn place, compares a value with several "
    "alternatives, reaches elements by position, type or name, or runs a "
    "history of whole-tuple copies, moves and exchanges. In a quarter of the "
    "calls the k-th comparison, copy or move fails. Answers, the log of "
    "compared pairs, element addresses, values and live elements are compared "
    "with a reference list. Non-trivial: a call completed and was compared. "
    "Distinct: hash of all choices and results.",
    "stdx::tuple, indexed_tuple, one_of and their comparisons and accessors",
    "element comparisons, copies, moves and destructions",
    scenarios,
    5,
    12000000,
    36000000,
};
