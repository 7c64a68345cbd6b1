#include "../sim/elem.hpp"

#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <algorithm>
#include <array>
#include <functional>
#include <utility>
#include <vector>

namespace {
using u32 = std::uint32_t;
using i64 = std::int64_t;

// element types: the same tracked element under different names
template <int K, typename Base> struct it : Base {
    using Base::Base;
    constexpr static int kind = K;
};
template <typename T>
concept leaf = requires { T::kind; };

struct cell {
    int kind;
    int value;
    friend auto operator==(cell const &, cell const &) -> bool = default;
    friend auto operator<(cell const &a, cell const &b) -> bool {
        return a.kind != b.kind ? a.kind < b.kind : a.value < b.value;
    }
};
using row = std::vector<cell>;
using table = std::vector<row>;

template <typename T> void flatten(T const &t, row &r) {
    if constexpr (leaf<T>) {
        r.push_back({T::kind, t.get()});
    } else {
        t.apply([&](auto const &...e) { (flatten(e, r), ...); });
    }
}
// one row for a flat tuple, one row per member for a tuple of tuples
template <typename T> auto rows_of(T const &t) -> table {
    sim::host_scope const h{};
    table o;
    t.apply([&]<typename... E>(E const &...e) {
        if constexpr ((... or leaf<E>)) {
            row r;
            (flatten(e, r), ...);
            o.push_back(r);
        } else {
            (
                [&] {
                    row r;
                    flatten(e, r);
                    o.push_back(r);
                }(),
                ...);
        }
    });
    return o;
}

auto text(table const &t) -> std::string {
    std::string s = "{";
    for (auto const &r : t) {
        s += " (";
        for (auto const &c : r) {
            s += " " + std::to_string(c.kind) + ":" + std::to_string(c.value);
        }
        s += " )";
    }
    return s + " }";
}
auto no_rows(table const &t) -> bool {
    return std::all_of(t.begin(), t.end(),
                       [](row const &r) { return r.empty(); });
}
void expect(table const &got, table const &want) {
    sim::require(got == want or (no_rows(got) and no_rows(want)),
                 "wrong-elements", "result %s, expected %s", text(got).c_str(),
                 text(want).c_str());
}
auto sorted(row r) -> row {
    std::sort(r.begin(), r.end());
    return r;
}
auto runs(row const &in) -> table {
    table o;
    for (auto const &c : in) {
        if (o.empty() or o.back().back().kind != c.kind) {
            o.push_back({});
        }
        o.back().push_back(c);
    }
    return o;
}
auto group_parity(int k) -> int { return k % 2; }
template <typename T> using parity = std::integral_constant<int, T::kind % 2>;
template <typename T> using even = std::bool_constant<T::kind % 2 == 0>;
template <typename T> using first_kind = std::bool_constant<T::kind == 0>;
template <typename T> using never = std::bool_constant<(T::kind < 0)>;
template <int K> struct key {};
template <typename T> using key_for = key<T::kind>;

// ------------------------------------------------- one input tuple
// each operation: what to call, and what the result has to be
#define FWD(X) std::forward<decltype(X)>(X)
struct op_sort {
    constexpr static auto name = "sort";
    auto operator()(auto &&t) const { return stdx::sort(FWD(t)); }
    static void judge(row const &in, table const &out) {
        // not stable: only kinds are in order
        sim::require(out.size() == 1, "wrong-elements", "shape");
        sim::require(
            std::is_sorted(out[0].begin(), out[0].end(),
                           [](cell a, cell b) { return a.kind < b.kind; }),
            "wrong-order", "%s", text(out).c_str());
        expect({sorted(out[0])}, {sorted(in)});
    }
};
struct op_chunk {
    constexpr static auto name = "chunk";
    auto operator()(auto &&t) const { return stdx::chunk(FWD(t)); }
    static void judge(row const &in, table const &out) {
        expect(out, runs(in));
    }
};
struct op_chunk_by {
    constexpr static auto name = "chunk_by";
    auto operator()(auto &&t) const { return stdx::chunk_by<parity>(FWD(t)); }
    static void judge(row const &in, table const &out) {
        table want;
        for (auto const &c : in) {
            if (want.empty() or
                group_parity(want.back().back().kind) != group_parity(c.kind)) {
                want.push_back({});
            }
            want.back().push_back(c);
        }
        expect(out, want);
    }
};
struct op_gather {
    constexpr static auto name = "gather";
    auto operator()(auto &&t) const { return stdx::gather(FWD(t)); }
    static void judge(row const &in, table const &out) {
        table got = out;
        for (auto &r : got) {
            r = sorted(r);
        }
        expect(got, runs(sorted(in)));
    }
};
struct op_gather_by {
    constexpr static auto name = "gather_by";
    auto operator()(auto &&t) const { return stdx::gather_by<parity>(FWD(t)); }
    static void judge(row const &in, table const &out) {
        std::array<row, 2> half{};
        for (auto const &c : in) {
            half[static_cast<u32>(group_parity(c.kind))].push_back(c);
        }
        table want;
        for (auto const &h : half) {
            if (not h.empty()) {
                want.push_back(sorted(h));
            }
        }
        table got = out;
        for (auto &r : got) {
            r = sorted(r);
        }
        expect(got, want);
    }
};
struct op_unique {
    constexpr static auto name = "unique";
    auto operator()(auto &&t) const { return stdx::unique(FWD(t)); }
    static void judge(row const &in, table const &out) {
        row want;
        for (auto const &r : runs(in)) {
            want.push_back(r.front());
        }
        expect(out, {want});
    }
};
struct op_sorted_set {
    constexpr static auto name = "to_sorted_set";
    auto operator()(auto &&t) const { return stdx::to_sorted_set(FWD(t)); }
    static void judge(row const &in, table const &out) {
        auto const groups = runs(sorted(in));
        sim::require(out.size() == 1 and out[0].size() == groups.size(),
                     "wrong-elements", "%s", text(out).c_str());
        for (std::size_t i = 0; i < groups.size(); ++i) {
            sim::require(
                std::count(groups[i].begin(), groups[i].end(), out[0][i]) > 0,
                "wrong-elements", "%s", text(out).c_str());
        }
    }
};
struct op_unsorted_set {
    constexpr static auto name = "to_unsorted_set";
    auto operator()(auto &&t) const { return stdx::to_unsorted_set(FWD(t)); }
    static void judge(row const &in, table const &out) {
        row want;
        for (auto const &c : in) {
            if (std::none_of(want.begin(), want.end(),
                             [&](cell w) { return w.kind == c.kind; })) {
                want.push_back(c);
            }
        }
        expect(out, {want});
    }
};
template <template <typename> typename P, int Step> struct op_filter {
    constexpr static auto name = "filter";
    auto operator()(auto &&t) const { return stdx::filter<P>(FWD(t)); }
    static void judge(row const &in, table const &out) {
        row want;
        for (auto const &c : in) {
            bool const keep = Step != 0 and c.kind % Step == 0;
            if (keep) {
                want.push_back(c);
            }
        }
        expect(out, {want});
    }
};
struct op_tail {
    constexpr static auto name = "tail";
    auto operator()(auto &&t) const { return FWD(t).tail(); }
    static void judge(row const &in, table const &out) {
        expect(out, {in.empty() ? in : row(in.begin() + 1, in.end())});
    }
};
struct same_elements {
    static void judge(row const &in, table const &out) { expect(out, {in}); }
};
struct op_copy : same_elements {
    constexpr static auto name = "copy or move";
    template <typename T> auto operator()(T &&t) const {
        return std::remove_cvref_t<T>{std::forward<T>(t)};
    }
};
struct op_cat1 : same_elements {
    constexpr static auto name = "tuple_cat of one";
    auto operator()(auto &&t) const { return stdx::tuple_cat(FWD(t)); }
};
struct op_apply : same_elements {
    constexpr static auto name = "apply";
    auto operator()(auto &&t) const {
        return stdx::apply(
            [](auto &&...e) { return stdx::make_tuple(FWD(e)...); }, FWD(t));
    }
};
struct op_transform : same_elements {
    constexpr static auto name = "transform";
    auto operator()(auto &&t) const {
        return stdx::transform(
            []<typename E>(E &&e) {
                return std::remove_cvref_t<E>{std::forward<E>(e)};
            },
            FWD(t));
    }
};
struct op_indexed : same_elements {
    constexpr static auto name = "apply_indices";
    auto operator()(auto &&t) const {
        return stdx::apply_indices<key_for>(FWD(t));
    }
};
struct op_fold_left : same_elements {
    constexpr static auto name = "fold_left";
    template <typename T> auto operator()(T &&t) const {
        if constexpr (std::is_lvalue_reference_v<T>) {
            return t.fold_left(stdx::tuple{}, [](auto &&acc, auto const &e) {
                return stdx::tuple_snoc(FWD(acc), e);
            });
        } else {
            return std::move(t).fold_left(
                stdx::tuple{}, [](auto &&acc, auto &&e) {
                    return stdx::tuple_snoc(FWD(acc), FWD(e));
                });
        }
    }
};
struct op_fold_right : same_elements {
    constexpr static auto name = "fold_right";
    template <typename T> auto operator()(T &&t) const {
        if constexpr (std::is_lvalue_reference_v<T>) {
            return t.fold_right(stdx::tuple{}, [](auto const &e, auto &&acc) {
                return stdx::tuple_cons(e, FWD(acc));
            });
        } else {
            return std::move(t).fold_right(
                stdx::tuple{}, [](auto &&e, auto &&acc) {
                    return stdx::tuple_cons(FWD(e), FWD(acc));
                });
        }
    }
};

enum class how : std::uint8_t { lvalue, const_lvalue, rvalue };
auto draw_how() -> how { return static_cast<how>(sim::choose(3)); }
auto name_of(how h) -> char const * {
    return h == how::lvalue         ? "lvalue"
           : h == how::const_lvalue ? "const lvalue"
                                    : "rvalue";
}

// a tuple with drawn values and what it holds
template <typename B, int... Ks> struct input {
    using tuple_t = stdx::tuple<it<Ks, B>...>;
    row in{};
    how cat{draw_how()};
    int n{}; // before t: numbers its elements
    tuple_t t;

    explicit input(int b) : t{it<Ks, B>{b + static_cast<int>(index())}...} {
        sim::host_scope const h{};
        flatten(t, in);
    }
    auto index() -> int { return n++; }

    template <typename F> auto with(F &&f) {
        switch (cat) {
        case how::lvalue:
            return f(t);
        case how::const_lvalue:
            return f(std::as_const(t));
        default:
            return f(std::move(t));
        }
    }
    void unchanged() const {
        if (cat != how::rvalue) {
            row now;
            flatten(t, now);
            expect({now}, {in});
        }
    }
    [[nodiscard]] static auto size() -> i64 { return sizeof...(Ks); }
};
template <typename B, int... Ks>
input(stdx::tuple<it<Ks, B>...>) -> input<B, Ks...>;

template <typename B, int... Ks> struct shape {};

void no_leak(i64 expected) {
    sim::require(elem::ledger.live == expected, "leak",
                 "%d elements alive, %d expected", elem::ledger.live, expected);
}

template <typename Op, typename B, int... Ks> void unary_case() {
    elem::reset_ledger();
    {
        input<B, Ks...> x{static_cast<int>(10 + sim::choose(3) * 100)};
        u32 const k = elem::draw_fault(x.size() > 8 ? 80 : 24);
        sim::event("%s of a %s: %s", Op::name, name_of(x.cat),
                   text({x.in}).c_str());
        table out;
        auto const o = elem::attempt(k, [&] {
            x.with([&](auto &&t) {
                auto const r = Op{}(FWD(t));
                out = rows_of(r);
            });
        });
        sim::event("%s %s", elem::name_of(o), text(out).c_str());
        x.unchanged();
        no_leak(x.size());
        if (o == elem::outcome::ok) {
            Op::judge(x.in, out);
            sim::nontrivial();
        } else {
            sim::probe("failed part-way");
        }
    }
    elem::all_destroyed();
}

using case_t = void (*)();

template <typename B, typename... Ops> struct on_shape {
    template <int... Ks> static void add(std::vector<case_t> &v) {
        (v.push_back(&unary_case<Ops, B, Ks...>), ...);
    }
};
template <typename B> auto unary_cases() -> std::vector<case_t> {
    std::vector<case_t> v;
    using S = on_shape<B, op_sort, op_chunk, op_chunk_by, op_gather,
                       op_gather_by, op_unique, op_sorted_set, op_unsorted_set,
                       op_filter<even, 2>, op_filter<first_kind, 100>,
                       op_filter<never, 0>, op_tail, op_copy, op_cat1, op_apply,
                       op_transform, op_indexed, op_fold_left, op_fold_right>;
    S::template add<1, 0>(v);
    S::template add<0>(v);
    S::template add<0, 0>(v);
    S::template add<2, 0, 1, 0>(v);
    S::template add<0, 0, 1, 1, 3>(v);
    S::template add<3, 2, 1, 0, 2, 2, 0>(v);
    if constexpr (std::is_same_v<B, elem::item>) {
        S::template add<2, 0, 0, 3, 1, 1, 2, 0, 3, 3, 0, 2, 1>(v);
        S::template add<5, 0, 4, 4, 1, 3, 2, 6, 0, 7>(v);
        S::template add<0, 1, 2, 3, 3, 2, 1, 0, 0, 0, 1, 1, 2, 2, 3, 3, 0, 2,
                        1>(v);
    }
    return v;
}
void unary() {
    static auto const plain = unary_cases<elem::item>();
    static auto const fragile = unary_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? fragile : plain;
    v[sim::choose(static_cast<u32>(v.size()))]();
}

// ------------------------------------------------- several inputs
template <typename Op, typename X, typename Y> void pair_case(X &x, Y &y) {
    u32 const k = elem::draw_fault(x.size() + y.size() > 7 ? 150 : 40);
    sim::event("%s of a %s and a %s: %s", Op::name, name_of(x.cat),
               name_of(y.cat), text({x.in, y.in}).c_str());
    table out;
    auto const o = elem::attempt(k, [&] {
        x.with([&](auto &&t) {
            y.with([&](auto &&u) {
                auto const r = Op{}(FWD(t), FWD(u));
                out = rows_of(r);
            });
        });
    });
    sim::event("%s %s", elem::name_of(o), text(out).c_str());
    x.unchanged();
    y.unchanged();
    no_leak(x.size() + y.size());
    if (o == elem::outcome::ok) {
        expect(out, Op::model(x.in, y.in));
        sim::nontrivial();
    } else {
        sim::probe("failed part-way");
    }
}
struct op_cat {
    constexpr static auto name = "tuple_cat";
    auto operator()(auto &&t, auto &&u) const {
        return stdx::tuple_cat(FWD(t), FWD(u));
    }
    static auto model(row a, row const &b) -> table {
        a.insert(a.end(), b.begin(), b.end());
        return {a};
    }
};
struct op_apply2 : op_cat {
    constexpr static auto name = "apply of two";
    auto operator()(auto &&t, auto &&u) const {
        return stdx::apply(
            [](auto &&...e) { return stdx::make_tuple(FWD(e)...); }, FWD(t),
            FWD(u));
    }
};
struct op_product {
    constexpr static auto name = "cartesian_product_copy";
    auto operator()(auto &&t, auto &&u) const {
        return stdx::cartesian_product_copy(FWD(t), FWD(u));
    }
    static auto model(row const &a, row const &b) -> table {
        table o;
        for (auto const &x : a) {
            for (auto const &y : b) {
                o.push_back({x, y});
            }
        }
        return o;
    }
};
struct op_cat_self {
    constexpr static auto name = "tuple_cat of three";
    auto operator()(auto &&t, auto &&u) const {
        auto const &again = t; // copied before or after t is used up
        return stdx::tuple_cat(std::as_const(again), stdx::tuple{}, FWD(u));
    }
    static auto model(row const &a, row const &b) -> table {
        return op_cat::model(a, b);
    }
};
struct op_zip {
    constexpr static auto name = "transform of two";
    auto operator()(auto &&t, auto &&u) const {
        return stdx::transform(
            [](auto &&a, auto &&b) { return stdx::make_tuple(FWD(a), FWD(b)); },
            FWD(t), FWD(u));
    }
    static auto model(row const &a, row const &b) -> table {
        table o;
        for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
            o.push_back({a[i], b[i]});
        }
        return o;
    }
};

template <typename B, typename X, typename Y> struct two_shapes;
template <typename B, int... Ks, int... Ls>
struct two_shapes<B, shape<B, Ks...>, shape<B, Ls...>> {
    template <typename Op> static void go() {
        elem::reset_ledger();
        {
            input<B, Ks...> x{static_cast<int>(10 + sim::choose(3) * 100)};
            input<B, Ls...> y{static_cast<int>(50 + sim::choose(3) * 100)};
            pair_case<Op>(x, y);
        }
        elem::all_destroyed();
    }
};
template <typename B> auto pair_cases() -> std::vector<case_t> {
    std::vector<case_t> v;
    auto const add = [&]<typename X, typename Y>() {
        using T = two_shapes<B, X, Y>;
        v.push_back(&T::template go<op_cat>);
        v.push_back(&T::template go<op_apply2>);
        v.push_back(&T::template go<op_product>);
        v.push_back(&T::template go<op_cat_self>);
        v.push_back(&T::template go<op_zip>);
    };
    using A = shape<B, 0>;
    using C = shape<B, 1, 0>;
    using D = shape<B, 0, 0, 2>;
    add.template operator()<A, C>();
    add.template operator()<C, A>();
    add.template operator()<D, C>();
    add.template operator()<C, D>();
    add.template operator()<D, A>();
    if constexpr (std::is_same_v<B, elem::item>) {
        using E = shape<B, 3, 0, 1, 0, 2, 2, 1, 0, 3>;
        using F = shape<B, 1, 1, 0, 2>;
        add.template operator()<E, F>();
        add.template operator()<F, E>();
        add.template operator()<F, F>();
        using G = shape<B, 2, 2, 2, 1, 1, 1>; // neighbours of one kind
        add.template operator()<G, F>();
        add.template operator()<F, G>();
    }
    return v;
}
void pairs() {
    static auto const plain = pair_cases<elem::item>();
    static auto const fragile = pair_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? fragile : plain;
    v[sim::choose(static_cast<u32>(v.size()))]();
}

// ------------------------------------------------- adding one element
struct op_cons {
    constexpr static auto name = "tuple_cons";
    auto operator()(auto &&e, auto &&t) const {
        return stdx::tuple_cons(FWD(e), FWD(t));
    }
    constexpr static bool front = true;
};
struct op_push_front : op_cons {
    constexpr static auto name = "tuple_push_front";
    auto operator()(auto &&e, auto &&t) const {
        return stdx::tuple_push_front(FWD(e), FWD(t));
    }
};
struct op_snoc {
    constexpr static auto name = "tuple_snoc";
    auto operator()(auto &&e, auto &&t) const {
        return stdx::tuple_snoc(FWD(t), FWD(e));
    }
    constexpr static bool front = false;
};
struct op_push_back : op_snoc {
    constexpr static auto name = "tuple_push_back";
    auto operator()(auto &&e, auto &&t) const {
        return stdx::tuple_push_back(FWD(t), FWD(e));
    }
};
template <typename Op, typename B, int K, int... Ks> void grow_case() {
    elem::reset_ledger();
    {
        input<B, Ks...> x{static_cast<int>(10 + sim::choose(3) * 100)};
        it<K, B> e{7};
        how const ecat = draw_how();
        u32 const k = elem::draw_fault(16);
        sim::event("%s of a %s and a %s: %s", Op::name, name_of(ecat),
                   name_of(x.cat), text({x.in}).c_str());
        table out;
        auto const o = elem::attempt(k, [&] {
            x.with([&](auto &&t) {
                auto const go = [&](auto &&el) {
                    auto const r = Op{}(FWD(el), FWD(t));
                    out = rows_of(r);
                };
                switch (ecat) {
                case how::lvalue:
                    go(e);
                    break;
                case how::const_lvalue:
                    go(std::as_const(e));
                    break;
                default:
                    go(std::move(e));
                    break;
                }
            });
        });
        sim::event("%s %s", elem::name_of(o), text(out).c_str());
        x.unchanged();
        sim::require(ecat == how::rvalue or e.get() == 7, "wrong-elements",
                     "the added element changed to %d", e.get());
        no_leak(x.size() + 1);
        if (o == elem::outcome::ok) {
            row want = x.in;
            want.insert(Op::front ? want.begin() : want.end(), cell{K, 7});
            expect(out, {want});
            sim::nontrivial();
        } else {
            sim::probe("failed part-way");
        }
    }
    elem::all_destroyed();
}
template <typename B> auto grow_cases() -> std::vector<case_t> {
    std::vector<case_t> v;
    auto const add = [&]<int K, int... Ks>() {
        v.push_back(&grow_case<op_cons, B, K, Ks...>);
        v.push_back(&grow_case<op_push_front, B, K, Ks...>);
        v.push_back(&grow_case<op_snoc, B, K, Ks...>);
        v.push_back(&grow_case<op_push_back, B, K, Ks...>);
    };
    add.template operator()<5, 1>();
    add.template operator()<5>();
    add.template operator()<5, 2, 1, 2>();
    add.template operator()<5, 0, 1, 1, 2, 0, 3, 2, 2, 1, 0>();
    // of the kind of its neighbours
    add.template operator()<1, 1>();
    add.template operator()<2, 2, 2, 1, 2, 2>();
    add.template operator()<0, 0, 0, 0, 0, 0, 0, 0, 0>();
    return v;
}
void grow() {
    static auto const plain = grow_cases<elem::item>();
    static auto const fragile = grow_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? fragile : plain;
    v[sim::choose(static_cast<u32>(v.size()))]();
}

// --------------------------------- more than two inputs at once
template <typename B> void many_case() {
    elem::reset_ledger();
    {
        input<B, 0, 1> x{10};
        input<B, 1, 1, 3> y{20};
        input<B> none{0};
        input<B, 3, 2> z{30};
        input<B, 2, 2, 0, 0> v{40};
        u32 const which = sim::choose(4);
        u32 const k = elem::draw_fault(60);
        sim::event("%s of a %s, a %s, a %s and a %s",
                   which == 0   ? "tuple_cat"
                   : which == 1 ? "apply"
                   : which == 2 ? "transform"
                                : "cartesian_product_copy",
                   name_of(x.cat), name_of(y.cat), name_of(z.cat),
                   name_of(v.cat));
        table out;
        auto const o = elem::attempt(k, [&] {
            // one of four is drawn to be passed in each category
            x.with([&](auto &&a) {
                z.with([&](auto &&c) {
                    auto const go = [&](auto &&b, auto &&d) {
                        if (which == 0) {
                            auto const r = stdx::tuple_cat(
                                FWD(a), FWD(b), std::as_const(none.t), FWD(c),
                                FWD(d));
                            out = rows_of(r);
                        } else if (which == 1) {
                            auto const r = stdx::apply(
                                [](auto &&...e) {
                                    return stdx::make_tuple(FWD(e)...);
                                },
                                FWD(a), FWD(b), none.t, FWD(c), FWD(d));
                            out = rows_of(r);
                        } else if (which == 2) {
                            auto const r = stdx::transform(
                                [](auto &&...e) {
                                    return stdx::make_tuple(FWD(e)...);
                                },
                                FWD(a), FWD(b), FWD(c), FWD(d));
                            out = rows_of(r);
                        } else {
                            auto const r = stdx::cartesian_product_copy(
                                FWD(a), FWD(c), std::as_const(x.t),
                                stdx::make_tuple(it<3, B>{77}));
                            out = rows_of(r);
                        }
                    };
                    if (v.cat == how::rvalue) {
                        y.cat = how::const_lvalue;
                        go(std::as_const(y.t), std::move(v.t));
                    } else if (y.cat == how::rvalue) {
                        go(std::move(y.t), v.t);
                    } else {
                        go(y.t, std::as_const(v.t));
                    }
                });
            });
        });
        sim::event("%s %s", elem::name_of(o), text(out).c_str());
        x.unchanged();
        y.unchanged();
        z.unchanged();
        v.unchanged();
        no_leak(x.size() + y.size() + z.size() + v.size());
        if (o != elem::outcome::ok) {
            sim::probe("failed part-way");
        } else if (which == 3 and x.cat == how::rvalue) {
            // x is read after it was given up
            sim::require(out.size() == 8, "wrong-elements", "%s",
                         text(out).c_str());
        } else {
            table want;
            if (which < 2) {
                want.push_back(x.in);
                for (auto const *r : {&y.in, &z.in, &v.in}) {
                    want[0].insert(want[0].end(), r->begin(), r->end());
                }
            } else if (which == 2) {
                for (std::size_t i = 0; i < 2; ++i) {
                    want.push_back({x.in[i], y.in[i], z.in[i], v.in[i]});
                }
            } else {
                for (auto const &a : x.in) {
                    for (auto const &b : z.in) {
                        for (auto const &c : x.in) {
                            want.push_back({a, b, c, cell{3, 77}});
                        }
                    }
                }
            }
            expect(out, want);
            sim::nontrivial();
        }
    }
    elem::all_destroyed();
}
void many() {
    return sim::flip(1, 2) ? many_case<elem::item>()
                           : many_case<elem::fragile>();
}

// --------------------------------- products of three; products of references
template <typename B> void product3() {
    elem::reset_ledger();
    {
        input<B, 0, 1> x{10};
        input<B, 2> y{20};
        input<B, 1, 1, 3> z{30};
        u32 const k = elem::draw_fault(120);
        sim::event("product of a %s, a %s and a %s", name_of(x.cat),
                   name_of(y.cat), name_of(z.cat));
        table out;
        auto const o = elem::attempt(k, [&] {
            x.with([&](auto &&t) {
                y.with([&](auto &&u) {
                    z.with([&](auto &&w) {
                        auto const r = stdx::cartesian_product_copy(
                            FWD(t), FWD(u), FWD(w));
                        out = rows_of(r);
                    });
                });
            });
        });
        sim::event("%s %s", elem::name_of(o), text(out).c_str());
        x.unchanged();
        y.unchanged();
        z.unchanged();
        no_leak(x.size() + y.size() + z.size());
        if (o == elem::outcome::ok) {
            table want;
            for (auto const &a : x.in) {
                for (auto const &b : y.in) {
                    for (auto const &c : z.in) {
                        want.push_back({a, b, c});
                    }
                }
            }
            expect(out, want);
            sim::nontrivial();
        } else {
            sim::probe("failed part-way");
        }
    }
    elem::all_destroyed();
}
// a product of references copies nothing and refers to the inputs' elements
template <typename B> void product_refs() {
    elem::reset_ledger();
    {
        input<B, 0, 1> x{10};
        input<B, 2, 0, 2> y{20};
        x.cat = x.cat == how::rvalue ? how::lvalue : x.cat;
        y.cat = y.cat == how::rvalue ? how::lvalue : y.cat;
        auto const before = elem::ledger.made;
        u32 const k = elem::draw_fault(4);
        u32 wrong = 0, n = 0;
        auto const o = elem::attempt(k, [&] {
            x.with([&](auto &&t) {
                y.with([&](auto &&u) {
                    auto const r = stdx::cartesian_product(t, u);
                    sim::host_scope const h{};
                    auto const addr = [](auto const &tup) {
                        return tup.apply([](auto const &...e) {
                            return std::vector<void const *>{
                                std::addressof(e)...};
                        });
                    };
                    auto const xs = addr(t);
                    auto const ys = addr(u);
                    r.apply([&](auto const &...p) {
                        (
                            [&] {
                                wrong +=
                                    addr(p) == std::vector{xs[n / ys.size()],
                                                           ys[n % ys.size()]}
                                        ? 0
                                        : 1;
                                ++n;
                            }(),
                            ...);
                    });
                });
            });
        });
        sim::require(o == elem::outcome::ok, "invented-failure",
                     "building references failed");
        sim::require(n == 6 and wrong == 0, "wrong-elements",
                     "%d of %d pairs refer elsewhere", wrong, n);
        sim::require(elem::ledger.made == before, "extra-copies",
                     "elements were copied");
        x.unchanged();
        y.unchanged();
        sim::nontrivial();
    }
    elem::all_destroyed();
}
void products() {
    switch (sim::choose(4)) {
    case 0:
        return product3<elem::item>();
    case 1:
        return product3<elem::fragile>();
    case 2:
        return product_refs<elem::item>();
    default:
        return product_refs<elem::fragile>();
    }
}

// ------------------- a history: one tuple value rearranged again and again
// All steps keep the type, so the steps can be chained in any order.
template <typename A, typename T> void rotate(A &again, T &t) {
    t = T{std::move(stdx::get<0>(again)), std::move(stdx::get<1>(again)),
          std::move(stdx::get<2>(again)), std::move(stdx::get<3>(again))};
}
template <typename B> void history() {
    elem::reset_ledger();
    {
        using T = stdx::tuple<it<0, B>, it<1, B>, it<0, B>, it<2, B>>;
        T t{it<0, B>{1}, it<1, B>{2}, it<0, B>{3}, it<2, B>{4}};
        T other{it<0, B>{11}, it<1, B>{12}, it<0, B>{13}, it<2, B>{14}};
        row model;
        row omodel;
        flatten(t, model);
        flatten(other, omodel);
        u32 done = 0;
        bool known = true; // false: a failed assignment left a mixture
        while (known and sim::more(done, 8)) {
            ++done;
            u32 const what = sim::choose(5);
            u32 const k = elem::draw_fault(14);
            bool const move = sim::flip(1, 2);
            auto const o = elem::attempt(k, [&] {
                switch (what) {
                case 0: { // split off the first and put it back
                    auto rest = move ? T{t}.tail() : t.tail();
                    auto again = stdx::tuple_cat(
                        stdx::make_tuple(stdx::get<0>(t)), std::move(rest));
                    static_assert(stdx::tuple_size_v<decltype(again)> == 4);
                    rotate(again, t);
                    break;
                }
                case 1: { // sort and unsort
                    auto s = move ? stdx::sort(T{t}) : stdx::sort(t);
                    T r{std::move(stdx::get<0>(s)), std::move(stdx::get<2>(s)),
                        std::move(stdx::get<1>(s)), std::move(stdx::get<3>(s))};
                    t = std::move(r);
                    break;
                }
                case 2: { // chunk and concatenate again
                    auto c = stdx::chunk(t);
                    T r = std::move(c).apply([](auto &&...cs) {
                        return stdx::tuple_cat(FWD(cs)...);
                    });
                    t = std::move(r);
                    break;
                }
                case 3:
                    std::swap(t, other);
                    break;
                default:
                    t = other;
                    break;
                }
            });
            sim::event("step %d %s: %s", what, move ? "moving" : "copying",
                       elem::name_of(o));
            if (o == elem::outcome::ok) {
                if (what == 3) {
                    std::swap(model, omodel);
                } else if (what == 4) {
                    model = omodel;
                }
                row now;
                row onow;
                flatten(t, now);
                flatten(other, onow);
                if (what == 1) { // not stable between equal types
                    if (now[0] == model[2] and now[2] == model[0]) {
                        std::swap(model[0], model[2]);
                    }
                }
                expect({now, onow}, {model, omodel});
                sim::nontrivial();
            } else {
                // only the final move or copy into t can leave it mixed
                row now;
                flatten(t, now);
                known = now == model and what != 3;
                sim::probe("failed part-way");
            }
            no_leak(8);
        }
    }
    elem::all_destroyed();
}
void histories() {
    if (sim::flip(1, 2)) {
        history<elem::fragile>();
    } else {
        history<elem::item>();
    }
}

sim::scenario const scenarios[] = {
    {"one_tuple", 5, unary},   {"two_tuples", 3, pairs},
    {"growing", 2, grow},      {"many_tuples", 1, many},
    {"products", 1, products}, {"histories", 2, histories},
};
} // namespace

sim::property_def const sim::the_property = {
    "C24",
    "Each run draws an operation (sort, chunk, gather, unique, sets, filter, "
    "tail, apply, transform, folds, concatenation, cons/snoc, products), "
    "tuple shapes of 0-19 elements of up to 8 types, the value category of "
    "every input and, in a quarter of the runs, the element copy or move that "
    "fails. Result, inputs and live elements are compared with a reference "
    "list. Non-trivial: an operation completed and its result was compared. "
    "Distinct: hash of all choices and results.",
    "stdx::tuple and the tuple algorithms",
    "element copies, moves and destructions",
    scenarios,
    6,
    6000000,
    36000000,
};
