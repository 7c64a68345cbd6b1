#include "../sim/elem.hpp"

#include <stdx/call_by_need.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace {
using u32 = std::uint32_t;

// an element that can only be moved
#ifndef SIM_WITHOUT_MOVE_ONLY
constexpr bool only_moves = true;
struct mono : elem::item {
    using elem::item::item;
    mono(mono const &) = delete;
    mono(mono &&) = default;
    auto operator=(mono const &) -> mono & = delete;
    auto operator=(mono &&) -> mono & = default;
    ~mono() = default;
};
using mono_parameter = mono &&;
#else
// if such elements are not accepted: are others handled as they should be?
constexpr bool only_moves = false;
struct mono : elem::item {
    using elem::item::item;
};
using mono_parameter = mono;
#endif

template <typename E> auto value_of(E const &e) -> int { return e.get(); }

constexpr int stdx_of = 0;
constexpr int arrays_of = 1;
constexpr int std_of = 2;

struct call {
    std::vector<int> args{};
    std::vector<void const *> where{};
    int index{-1}; // compile-time index given by enumerate
    auto operator==(call const &o) const -> bool {
        return args == o.args and index == o.index;
    }
};

struct journal {
    std::vector<call> calls{};
    std::vector<mono> taken{}; // what visitors moved out of elements
    bool consume{};
    bool in_call{};  // the injected failure came from a call
    bool given_up{}; // elements are expected as rvalues
};

// one call of a user function
template <typename... Es> void visit(journal &j, int index, Es &&...es) {
    sim::host_scope const h{};
    call c{{value_of(es)...}, {static_cast<void const *>(&es)...}, index};
    j.calls.push_back(std::move(c));
    bool const offered = (... and std::is_rvalue_reference_v<Es &&>);
    sim::require(sizeof...(Es) == 0 or offered == j.given_up, "wrong-category",
                 "call %d is given %s", j.calls.size() - 1,
                 offered ? "elements to take that the caller keeps"
                         : "elements to keep that the caller gives up");
    if (sim::fault_point("call")) {
        j.in_call = true;
        throw sim::fault_t{5};
    }
    if (j.consume) {
        auto const take = [&]<typename E>(E &&e) {
            if constexpr (std::is_rvalue_reference_v<E &&> and
                          not std::is_const_v<std::remove_reference_t<E>>) {
                auto const v = e.get();
                auto const gone = std::move(e);
                static_cast<void>(gone);
                j.taken.emplace_back(v);
            }
        };
        (take(std::forward<Es>(es)), ...);
    }
}
template <typename... Es> auto mixed(Es const &...es) -> int {
    int v = 7;
    ((v = (v * 31 + value_of(es)) & 0xffff), ...);
    return v;
}

// ------------------------------------------------------------------ tuples
enum class hold { value, only_move, reference };
enum class form { lvalue, const_lvalue, rvalue };
auto name_of(form f) -> char const * {
    return f == form::lvalue         ? "lvalue"
           : f == form::const_lvalue ? "const lvalue"
                                     : "rvalue";
}

template <hold H>
using elem_for = std::conditional_t<H == hold::only_move, mono, elem::item>;

// a tuple-like object of N elements with values base, base+1 ...
template <template <typename...> typename Tup, hold H, std::size_t N>
struct bundle {
    using E = elem_for<H>;
    template <std::size_t>
    using member = std::conditional_t<H == hold::reference, E &, E>;
    template <std::size_t... Is>
    static auto tuple_of(std::index_sequence<Is...>) -> Tup<member<Is>...>;
    using tuple_t = decltype(tuple_of(std::make_index_sequence<N>{}));

    int base{};
    std::vector<std::unique_ptr<E>> outside{};
    sim::box<tuple_t> t{};

    explicit bundle(int b) : base{b} {
        for (u32 i = 0; i < N; ++i) {
            outside.push_back(std::make_unique<E>(b + static_cast<int>(i)));
        }
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            void *p = sim::arena_alloc(sizeof(tuple_t), alignof(tuple_t));
            if constexpr (H == hold::reference) {
                t.reset(::new (p) tuple_t{*outside[Is]...});
            } else {
                t.reset(::new (p) tuple_t{E{b + static_cast<int>(Is)}...});
            }
        }(std::make_index_sequence<N>{});
    }
    template <std::size_t I> auto at() -> E & {
        using std::get;
        return get<I>(*t);
    }
    // value of element i now
    auto now(u32 i) -> int {
        int r = -5;
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            ((Is == i ? static_cast<void>(r = at<Is>().get())
                      : static_cast<void>(0)),
             ...);
        }(std::make_index_sequence<N>{});
        return r;
    }
    auto place(u32 i) -> void const * {
        void const *r{};
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            ((Is == i ? static_cast<void>(r = static_cast<void const *>(
                                              std::addressof(at<Is>())))
                      : static_cast<void>(0)),
             ...);
        }(std::make_index_sequence<N>{});
        return r;
    }
    auto want(u32 i) const -> int { return base + static_cast<int>(i); }
};

// std::array has the same interface
template <hold H, std::size_t N> struct array_bundle {
    using E = elem_for<H>;
    using tuple_t = std::array<E, N>;
    int base{};
    sim::box<tuple_t> t{};
    explicit array_bundle(int b) : base{b} {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            void *p = sim::arena_alloc(sizeof(tuple_t), alignof(tuple_t));
            t.reset(::new (p) tuple_t{E{b + static_cast<int>(Is)}...});
        }(std::make_index_sequence<N>{});
    }
    auto now(u32 i) -> int { return (*t)[i].get(); }
    auto place(u32 i) -> void const * { return &(*t)[i]; }
    auto want(u32 i) const -> int { return base + static_cast<int>(i); }
};

template <form F, typename B> auto pass(B &b) -> decltype(auto) {
    if constexpr (F == form::lvalue) {
        return (*b.t);
    } else if constexpr (F == form::const_lvalue) {
        return std::as_const(*b.t);
    } else {
        return std::move(*b.t);
    }
}

// the calls that a complete visit of the bundles consists of
template <typename... Bs> auto full_visit(u32 n, bool indexed, Bs &...bs) {
    std::vector<call> r{};
    for (u32 i = 0; i < n; ++i) {
        r.push_back({{bs.want(i)...},
                     {bs.place(i)...},
                     indexed ? static_cast<int>(i) : -1});
    }
    return r;
}

void judge_calls(journal const &j, std::vector<call> const &want,
                 elem::outcome o, bool same_objects) {
    for (u32 i = 0; i < j.calls.size(); ++i) {
        sim::require(i < want.size(), "extra-call",
                     "call %d is made, only %d are due", i, want.size());
        auto const &c = j.calls[i];
        sim::require(c.args.size() == want[i].args.size(), "wrong-arguments",
                     "call %d has %d arguments", i, c.args.size());
        for (u32 a = 0; a < c.args.size(); ++a) {
            sim::require(c.args[a] == want[i].args[a], "wrong-arguments",
                         "call %d: argument %d is %d, expected %d", i, a,
                         c.args[a], want[i].args[a]);
            if (same_objects) {
                sim::require(c.where[a] == want[i].where[a], "not-the-element",
                             "call %d: argument %d is not the element itself",
                             i, a);
            }
        }
        sim::require(c.index == want[i].index, "wrong-index",
                     "call %d is given index %d", i, c.index);
    }
    if (o == elem::outcome::ok) {
        sim::require(j.calls.size() == want.size(), "missing-call",
                     "%d calls are made, %d are due", j.calls.size(),
                     want.size());
    }
}

// elements that were not given to a visitor as rvalues must be untouched
template <typename B>
void judge_elements(B &b, journal const &j, bool consumed, u32 size) {
    u32 const gone =
        not consumed ? 0u
                     : static_cast<u32>(j.calls.size()) - (j.in_call ? 1u : 0u);
    for (u32 i = gone; i < size; ++i) {
        sim::require(b.now(i) == b.want(i), "element-changed",
                     "element %d is %d afterwards, was %d", i, b.now(i),
                     b.want(i));
    }
    if (consumed) {
        for (u32 i = 0; i < std::min(gone, size); ++i) {
            sim::require(b.now(i) == elem::moved_out, "element-kept",
                         "element %d was handed over but is still %d", i,
                         b.now(i));
        }
    }
}

auto fault_at(u32 n) -> u32 {
    u32 const k = sim::maybe(1, 2, n + 1);
    if (k != 0) {
        sim::event("failure armed at point %d", k);
    }
    return k;
}

// visitor with state, so that the returned function object can be compared
template <bool Indexed> struct walker {
    journal *j;
    u32 calls{};
    template <typename... Es>
        requires(not Indexed)
    void operator()(Es &&...es) {
        ++calls;
        visit(*j, -1, std::forward<Es>(es)...);
    }
    template <std::size_t I, typename... Es>
        requires Indexed
    void operator()(Es &&...es) {
        ++calls;
        visit(*j, static_cast<int>(I), std::forward<Es>(es)...);
    }
};

// a function whose state is lost if it is copied between calls
template <typename F> struct counting {
    F f;
    u32 calls{};
    template <typename... Es> auto operator()(Es &&...es) -> decltype(auto) {
        ++calls;
        return f(std::forward<Es>(es)...);
    }
};
template <typename F> counting(F) -> counting<F>;
void judge_state(u32 calls, journal const &j) {
    sim::require(calls == j.calls.size(), "wrong-state",
                 "%d calls are made, the caller's function saw %d",
                 j.calls.size(), calls);
}

constexpr auto shortest(std::initializer_list<std::size_t> l) -> u32 {
    return static_cast<u32>(std::min(l));
}

template <form F, hold H, int Kind, std::size_t N0, std::size_t... Ns>
struct visits {
    template <std::size_t N>
    using b_t = std::conditional_t<
        Kind == arrays_of, array_bundle<H, N>,
        std::conditional_t<Kind == std_of, bundle<std::tuple, H, N>,
                           bundle<stdx::tuple, H, N>>>;
    static constexpr bool Array = Kind == arrays_of;
    static constexpr u32 n = shortest({N0, Ns...});
    static constexpr bool consuming =
        F == form::rvalue and H != hold::reference;

    static void any() {
        journal j{};
        j.consume = true; // whatever is offered for taking is taken
        j.given_up = consuming;
        int base = 100;
        b_t<N0> b0{base};
        auto rest = std::tuple<b_t<Ns>...>{b_t<Ns>{(base += 100)}...};
        std::apply([&](auto &...bs) { run(j, b0, bs...); }, rest);
    }
    template <typename... Bs>
    static void check_elements(journal const &j, Bs &...bs) {
        u32 const sizes[] = {N0, Ns...};
        u32 i = 0;
        (judge_elements(bs, j, consuming, sizes[i++]), ...);
    }
    template <typename... Bs> static void run(journal &j, Bs &...bs) {
        u32 const pick = sim::choose(Array ? 5 : 6);
        sim::event("%d tuples, shortest %d, %s", sizeof...(Bs), n, name_of(F));
        u32 const k = fault_at(n);
        switch (pick) {
        case 0: {
            sim::event("for_each");
            u32 seen{};
            auto const want = full_visit(n, false, bs...);
            auto const o = elem::attempt(k, [&] {
                auto r = [&] {
                    if constexpr (Array) {
                        return stdx::unrolled_for_each(walker<false>{&j},
                                                       pass<F>(bs)...);
                    } else {
                        return stdx::for_each(walker<false>{&j},
                                              pass<F>(bs)...);
                    }
                }();
                seen = r.calls;
            });
            judge_calls(j, want, o, true);
            sim::require(o != elem::outcome::ok or seen == n, "wrong-state",
                         "the returned function saw %d calls", seen);
            check_elements(j, bs...);
            break;
        }
        case 1: {
            sim::event("enumerate");
            u32 seen{};
            auto const want = full_visit(n, true, bs...);
            auto const o = elem::attempt(k, [&] {
                auto r = [&] {
                    if constexpr (Array) {
                        return stdx::unrolled_enumerate(walker<true>{&j},
                                                        pass<F>(bs)...);
                    } else {
                        return stdx::enumerate(walker<true>{&j},
                                               pass<F>(bs)...);
                    }
                }();
                seen = r.calls;
            });
            judge_calls(j, want, o, true);
            sim::require(o != elem::outcome::ok or seen == n, "wrong-state",
                         "the returned function saw %d calls", seen);
            check_elements(j, bs...);
            break;
        }
        case 2:
        case 3:
        case 4:
            queries(pick - 2, k, j, bs...);
            break;
        default:
            if constexpr (not Array) {
                transforms(k, j, bs...);
            }
            break;
        }
        sim::nontrivial();
    }
    template <typename... Bs>
    static void queries(u32 which, u32 k, journal &j, Bs &...bs) {
        // the answer is known at position stop (n: never)
        u32 const stop = sim::choose(n + 1);
        char const *const names[] = {"all_of", "any_of", "none_of"};
        sim::event("%s decided at %d", names[which], stop);
        counting pred{[&](auto &&...es) -> bool {
            visit(j, -1, std::forward<decltype(es)>(es)...);
            bool const special = j.calls.size() == stop + 1;
            return which == 0 ? not special : special;
        }};
        auto want = full_visit(std::min(stop + 1, n), false, bs...);
        bool r{};
        auto const o = elem::attempt(k, [&] {
            if constexpr (Array) {
                r = which == 0   ? stdx::unrolled_all_of(pred, pass<F>(bs)...)
                    : which == 1 ? stdx::unrolled_any_of(pred, pass<F>(bs)...)
                                 : stdx::unrolled_none_of(pred, pass<F>(bs)...);
            } else {
                r = which == 0   ? stdx::all_of(pred, pass<F>(bs)...)
                    : which == 1 ? stdx::any_of(pred, pass<F>(bs)...)
                                 : stdx::none_of(pred, pass<F>(bs)...);
            }
        });
        judge_calls(j, want, o, true);
        judge_state(pred.calls, j);
        if (o == elem::outcome::ok) {
            bool const expected = which == 1 ? stop < n : stop >= n;
            sim::require(r == expected, "wrong-answer", "%s is %d",
                         names[which], static_cast<int>(r));
        }
        check_elements(j, bs...);
    }
    template <typename... Bs>
    static void transforms(u32 k, journal &j, Bs &...bs) {
        auto const want = full_visit(n, false, bs...);
        std::vector<int> results{};
        u32 const kind = sim::choose(3);
        sim::event("transform (%s)", kind == 0   ? "values"
                                     : kind == 1 ? "move-only results"
                                                 : "references");
        auto const first = [](auto &&e0, auto &&...) -> auto & { return e0; };
        bool aliases = true;
        auto const o = elem::attempt(k, [&] {
            auto const read = [&](auto const &r, bool ref) {
                sim::host_scope const h{};
                [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                    (results.push_back(get<Is>(r).get()), ...);
                    if (ref) {
                        ((aliases = aliases and
                                    static_cast<void const *>(&get<Is>(r)) ==
                                        want[Is].where[0]),
                         ...);
                    }
                }(std::make_index_sequence<n>{});
            };
            if (kind == 0) {
                counting op{[&](auto &&...es) {
                    int const v = mixed(es...);
                    visit(j, -1, std::forward<decltype(es)>(es)...);
                    return elem::item{v};
                }};
                auto r = stdx::transform(op, pass<F>(bs)...);
                static_assert(stdx::tuple_size_v<decltype(r)> == n);
                judge_state(op.calls, j);
                read(r, false);
            } else if (kind == 1) {
                auto r = stdx::transform(
                    [&](auto &&...es) {
                        int const v = mixed(es...);
                        visit(j, -1, std::forward<decltype(es)>(es)...);
                        return mono{v};
                    },
                    pass<F>(bs)...);
                read(r, false);
            } else {
                j.consume = false;
                auto r = stdx::transform(
                    [&](auto &&...es) -> auto const & {
                        auto &e = first(es...);
                        visit(j, -1, std::forward<decltype(es)>(es)...);
                        return e;
                    },
                    pass<F>(bs)...);
                read(r, true);
            }
        });
        judge_calls(j, want, o, true);
        if (o == elem::outcome::ok) {
            sim::require(results.size() == n, "lost-result", "%d results",
                         results.size());
            for (u32 i = 0; i < n; ++i) {
                int v = 7;
                for (auto a : want[i].args) {
                    v = (v * 31 + a) & 0xffff;
                }
                int const w = kind == 2 ? want[i].args[0] : v;
                sim::require(results[i] == w, "wrong-result",
                             "result %d is %d, expected %d", i, results[i], w);
            }
            sim::require(aliases, "wrong-result",
                         "a returned reference is not the one the function "
                         "returned");
        }
        if (kind != 2) {
            check_elements(j, bs...);
        }
    }
};

// ---------------------------------------------------- fold, join and apply
// Acc: what is accumulated, a value that moves only or one that copies
template <form F, hold H, std::size_t N, typename Acc> void fold_run_with() {
    bundle<stdx::tuple, H, N> b{100};
    journal j{};
    int const init = 1;
    constexpr bool consuming = F == form::rvalue and H != hold::reference;
    // fold over lvalues is a const operation
    constexpr form G = F == form::lvalue ? form::const_lvalue : F;
    u32 const which = sim::choose(5);
    u32 const k = fault_at(N);
    std::vector<int> want{};
    auto const step = [](int acc, int v) { return (acc * 17 + v) & 0xffff; };
    std::vector<int> order{};
    // calls are recorded as (accumulated, element)
    auto const op_values = [&](auto const &acc, auto const &e) -> int {
        sim::host_scope const h{};
        j.calls.push_back({{value_of(acc), value_of(e)}, {&acc, &e}, -1});
        if (sim::fault_point("call")) {
            j.in_call = true;
            throw sim::fault_t{5};
        }
        return step(value_of(acc), value_of(e));
    };
    std::vector<call> calls{};
    int result{};
    elem::outcome o{};
    int acc = init;
    bool same = false;
    sim::event("%s over %d elements, %s",
               which == 0   ? "fold_left"
               : which == 1 ? "fold_right"
               : which == 2 ? "join"
               : which == 3 ? "join with default"
                            : "apply",
               N, name_of(F));
    switch (which) {
    case 0:
        for (u32 i = 0; i < N; ++i) {
            calls.push_back({{acc, b.want(i)}, {}, -1});
            acc = step(acc, b.want(i));
        }
        o = elem::attempt(k, [&] {
            auto r =
                pass<G>(b).fold_left(Acc{init}, [&](auto &&a, auto &&e) -> Acc {
                    return Acc{op_values(a, e)};
                });
            result = r.get();
        });
        break;
    case 1:
        for (u32 i = N; i-- > 0;) {
            calls.push_back({{acc, b.want(i)}, {}, -1});
            acc = step(acc, b.want(i));
        }
        o = elem::attempt(k, [&] {
            auto r = pass<G>(b).fold_right(Acc{init},
                                           [&](auto &&e, auto &&a) -> Acc {
                                               return Acc{op_values(a, e)};
                                           });
            result = r.get();
        });
        break;
    case 2:
    case 3:
        if (N > 0) {
            acc = b.want(0);
            for (u32 i = 1; i < N; ++i) {
                calls.push_back({{acc, b.want(i)}, {}, -1});
                acc = step(acc, b.want(i));
            }
        }
        if constexpr (H != hold::only_move or F == form::rvalue) {
            using E = elem_for<H>;
            auto const op = [&](auto &&a, auto &&e) -> E {
                return E{op_values(a, e)};
            };
            o = elem::attempt(k, [&] {
                if constexpr (N > 0) {
                    if (which == 2) {
                        auto r = pass<G>(b).join(op);
                        result = r.get();
                        return;
                    }
                }
                auto r = pass<G>(b).join(E{init}, op);
                result = r.get();
            });
        } else {
            return; // a join of lvalues copies
        }
        break;
    default: {
        int got{};
        call all{};
        for (u32 i = 0; i < N; ++i) {
            all.args.push_back(b.want(i));
            all.where.push_back(b.place(i));
        }
        calls.push_back(all);
        acc = 41;
        same = true;
        j.consume = true;
        j.given_up = consuming;
        o = elem::attempt(k, [&] {
            result = pass<F>(b).apply([&](auto &&...es) -> int {
                visit(j, -1, std::forward<decltype(es)>(es)...);
                ++got;
                return 41;
            });
        });
        break;
    }
    }
    judge_calls(j, calls, o, same);
    if (o == elem::outcome::ok) {
        sim::require(result == acc, "wrong-result", "result is %d, not %d",
                     result, acc);
    }
    if (not consuming) {
        judge_elements(b, j, false, N);
    }
    sim::nontrivial();
}

template <form F, hold H, std::size_t N> void fold_run() {
    return sim::flip(1, 2) ? fold_run_with<F, H, N, elem::item>()
                           : fold_run_with<F, H, N, mono>();
}

// --------------------------------------------- apply over several tuples
template <form F, hold H, std::size_t N0, std::size_t N1> void apply_run() {
    bundle<stdx::tuple, H, N0> a{100};
    bundle<stdx::tuple, H, N1> b{200};
    journal j{};
    constexpr bool consuming = F == form::rvalue and H != hold::reference;
    j.consume = true;
    j.given_up = consuming;
    u32 const k = fault_at(1);
    call all{};
    for (u32 i = 0; i < N0; ++i) {
        all.args.push_back(a.want(i));
        all.where.push_back(a.place(i));
    }
    for (u32 i = 0; i < N1; ++i) {
        all.args.push_back(b.want(i));
        all.where.push_back(b.place(i));
    }
    sim::event("apply over tuples of %d and %d, %s", N0, N1, name_of(F));
    int result{};
    auto const o = elem::attempt(k, [&] {
        result = stdx::apply(
            [&](auto &&...es) -> int {
                visit(j, -1, std::forward<decltype(es)>(es)...);
                return 43;
            },
            pass<F>(a), pass<F>(b));
    });
    judge_calls(j, {all}, o, true);
    sim::require(o != elem::outcome::ok or result == 43, "wrong-result",
                 "result is %d", result);
    if (not consuming) {
        judge_elements(a, j, false, N0);
        judge_elements(b, j, false, N1);
    }
    sim::nontrivial();
}

// ------------------------------------------------------------- batch calls
// takes as many arguments as make a batch
template <std::size_t Batch, bool Deduce, typename F>
struct batcher : counting<F> {};
template <typename F> struct batcher<1, true, F> : counting<F> {
    void operator()(mono_parameter a) {
        ++this->calls;
        this->f(std::move(a));
    }
};
template <typename F> struct batcher<2, true, F> : counting<F> {
    void operator()(mono_parameter a, mono_parameter b) {
        ++this->calls;
        this->f(std::move(a), std::move(b));
    }
};
template <typename F> struct batcher<3, true, F> : counting<F> {
    void operator()(mono_parameter a, mono_parameter b, mono_parameter c) {
        ++this->calls;
        this->f(std::move(a), std::move(b), std::move(c));
    }
};

template <std::size_t Batch, std::size_t Batches, bool Deduce>
void batch_run() {
    constexpr std::size_t total = Batch * Batches;
    journal j{};
    bool const rvalues = Deduce or sim::flip(1, 2);
    j.consume = true;
    j.given_up = rvalues;
    std::vector<std::unique_ptr<mono>> es{};
    for (u32 i = 0; i < total; ++i) {
        es.push_back(std::make_unique<mono>(static_cast<int>(i) + 100));
    }
    u32 const k = fault_at(Batches);
    std::vector<call> want{};
    for (u32 r = 0; r < Batches; ++r) {
        call c{};
        for (u32 i = 0; i < Batch; ++i) {
            c.args.push_back(static_cast<int>(r * Batch + i) + 100);
            c.where.push_back(es[r * Batch + i].get());
        }
        want.push_back(c);
    }
    sim::event("for_each_n_args %d batches of %d%s", Batches, Batch,
               Deduce ? " (by arity)" : "");
    auto const walk = [&](auto &&...as) {
        visit(j, -1, std::forward<decltype(as)>(as)...);
    };
    batcher<Batch, Deduce, decltype(walk)> f{{walk}};
    auto const o = elem::attempt(k, [&] {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            if constexpr (Deduce) {
                stdx::for_each_n_args(f, std::move(*es[Is])...);
            } else if (rvalues) {
                stdx::for_each_n_args<Batch>(f, std::move(*es[Is])...);
            } else {
                stdx::for_each_n_args<Batch>(f, *es[Is]...);
            }
        }(std::make_index_sequence<total>{});
    });
    judge_calls(j, want, o, only_moves or not Deduce);
    judge_state(f.calls, j);
    // parameters taken by value are taken before the call can fail
    bool const kept = j.in_call and (only_moves or not Deduce);
    u32 const gone =
        rvalues ? static_cast<u32>(Batch * (j.calls.size() - (kept ? 1 : 0)))
                : 0;
    for (u32 i = 0; i < total; ++i) {
        int const w = i < gone ? elem::moved_out : static_cast<int>(i) + 100;
        sim::require(es[i]->get() == w, "element-changed",
                     "argument %d is %d afterwards, expected %d", i,
                     es[i]->get(), w);
    }
    sim::nontrivial();
}

// ------------------------------------------------------------ call by need
template <int K> struct arg : elem::item {
    using elem::item::item;
};
template <int K> struct mono_arg : mono {
    using mono::mono;
};

struct need_log {
    std::vector<int> calls{}; // function numbers in call order
    bool in_call{};
};
template <typename... As>
auto need_call(need_log &l, int fn, std::vector<int> const &want,
               As &...as) -> int {
    sim::host_scope const h{};
    l.calls.push_back(fn);
    std::vector<int> const got{value_of(as)...};
    sim::require(got == want, "wrong-arguments",
                 "function %d is given the wrong arguments", fn);
    if (sim::fault_point("call")) {
        l.in_call = true;
        throw sim::fault_t{5};
    }
    return 1000 + fn;
}
void judge_need(need_log const &l, u32 nfns, elem::outcome o) {
    for (u32 i = 0; i < l.calls.size(); ++i) {
        sim::require(l.calls[i] == static_cast<int>(i),
                     i > 0 and l.calls[i] < static_cast<int>(i)
                         ? "extra-call"
                         : "missing-call",
                     "call %d is of function %d", i, l.calls[i]);
    }
    if (o == elem::outcome::ok) {
        sim::require(l.calls.size() == nfns, "missing-call",
                     "%d of %d functions are called", l.calls.size(), nfns);
    }
    sim::nontrivial();
}
template <typename R>
void same_results(R const &r, std::vector<int> const &want) {
    sim::host_scope const h{};
    std::vector<int> got{};
    r.apply([&](auto const &...es) {
        auto const read = [](auto const &e) {
            if constexpr (requires { e.get(); }) {
                return e.get();
            } else {
                return static_cast<int>(e);
            }
        };
        (got.push_back(read(es)), ...);
    });
    sim::require(got.size() == want.size(), "lost-result",
                 "%d results, expected %d", got.size(), want.size());
    for (u32 i = 0; i < want.size(); ++i) {
        sim::require(got[i] == want[i], "wrong-result",
                     "result %d is %d, expected %d", i, got[i], want[i]);
    }
}

#ifndef SIM_WITHOUT_LVALUE_PARAMETERS
template <int K> using parameter = arg<K> &;
#else
template <int K> using parameter = arg<K>;
#endif

// many arguments, few of them used
void need_few() {
    need_log l{};
    using args_t = stdx::tuple<arg<0>, arg<1>, arg<2>, arg<3>, arg<4>, arg<5>,
                               arg<6>, arg<7>, arg<8>>;
    auto args = sim::make<args_t>(args_t{arg<0>{10}, arg<1>{11}, arg<2>{12},
                                         arg<3>{13}, arg<4>{14}, arg<5>{15},
                                         arg<6>{16}, arg<7>{17}, arg<8>{18}});
    u32 const which = sim::choose(3);
    u32 const k = fault_at(8);
    elem::outcome o{};
    u32 nfns{};
    sim::event("call_by_need on nine arguments, shape %d", which);
    switch (which) {
    case 0:
        nfns = 2;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{
                    [&](arg<7> const &a) { return need_call(l, 0, {17}, a); },
                    [&](arg<2> const &a, arg<3> const &b, arg<4> const &c) {
                        return need_call(l, 1, {12, 13, 14}, a, b, c);
                    }},
                *args);
            same_results(r, {1000, 1001, 10, 11, 15, 16, 18});
        });
        break;
    case 1: // more functions than arguments used
        nfns = 6;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{
                    [&]() { return need_call(l, 0, {}); },
                    [&](arg<8> const &a) { return need_call(l, 1, {18}, a); },
                    [&](arg<8> const &a) { need_call(l, 2, {18}, a); },
                    [&](arg<0> const &a) { return need_call(l, 3, {10}, a); },
                    [&](arg<5> a, arg<6> b) {
                        return need_call(l, 4, {15, 16}, a, b);
                    },
                    [&]() { need_call(l, 5, {}); }},
                *args);
            same_results(r, {1000, 1001, 1003, 1004, 11, 12, 13, 14, 17});
        });
        break;
    default: // all at once
        nfns = 1;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{[&](auto const &...as) {
                    return need_call(l, 0, {10, 11, 12, 13, 14, 15, 16, 17, 18},
                                     as...);
                }},
                *args);
            same_results(r, {1000});
        });
        break;
    }
    judge_need(l, nfns, o);
    args->apply([](auto const &...as) {
        int v = 10;
        bool const ok = (... and (as.get() == v++));
        sim::require(ok, "element-changed", "an argument changed");
    });
}

void need_lvalues() {
    need_log l{};
    auto args = sim::make<stdx::tuple<arg<0>, arg<1>, arg<2>, arg<3>>>(
        stdx::tuple<arg<0>, arg<1>, arg<2>, arg<3>>{arg<0>{10}, arg<1>{11},
                                                    arg<2>{12}, arg<3>{13}});
    u32 const which = sim::choose(4);
    u32 const k = fault_at(6);
    elem::outcome o{};
    u32 nfns{};
    sim::event("call_by_need on lvalues, shape %d", which);
    switch (which) {
    case 0: // out of order, one argument unused
        nfns = 2;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{
                    [&](parameter<2> a) { return need_call(l, 0, {12}, a); },
                    [&](parameter<0> a, parameter<1> b) {
                        return need_call(l, 1, {10, 11}, a, b);
                    }},
                *args);
            same_results(r, {1000, 1001, 13});
#ifndef SIM_WITHOUT_LVALUE_PARAMETERS
            static_assert(std::is_same_v<stdx::tuple_element_t<2, decltype(r)>,
                                         arg<3> &>);
#endif
        });
        break;
    case 1: // overlapping arguments, a function without result
        nfns = 4;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{
                    [&](arg<0> const &a, arg<1> const &b) {
                        return need_call(l, 0, {10, 11}, a, b);
                    },
                    [&](arg<1> const &a, arg<2> const &b) {
                        need_call(l, 1, {11, 12}, a, b);
                    },
                    [&](arg<1> const &a, arg<2> const &b, arg<3> const &c) {
                        return need_call(l, 2, {11, 12, 13}, a, b, c);
                    },
                    [&]() { return need_call(l, 3, {}); }},
                *args);
            same_results(r, {1000, 1002, 1003});
        });
        break;
    case 2: // by value: arguments are copied, copies may fail
        nfns = 3;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{[&](arg<3> a) { need_call(l, 0, {13}, a); },
                            [&](arg<3> a) { return need_call(l, 1, {13}, a); },
                            [&](arg<1> a) { need_call(l, 2, {11}, a); }},
                *args);
            same_results(r, {1001, 10, 12});
        });
        break;
    default: // no function at all
        nfns = 0;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(stdx::tuple<>{}, *args);
            same_results(r, {10, 11, 12, 13});
        });
        break;
    }
    judge_need(l, nfns, o);
    bool const ok = get<0>(*args).get() == 10 and get<1>(*args).get() == 11 and
                    get<2>(*args).get() == 12 and get<3>(*args).get() == 13;
    sim::require(ok, "element-changed", "an argument changed");
}
void need_rvalues() {
    need_log l{};
    using args_t = stdx::tuple<mono_arg<0>, mono_arg<1>, mono_arg<2>>;
    auto args = sim::make<args_t>(
        args_t{mono_arg<0>{10}, mono_arg<1>{11}, mono_arg<2>{12}});
    u32 const which = sim::choose(only_moves ? 3 : 2);
    u32 const k = fault_at(4);
    elem::outcome o{};
    u32 nfns{};
    sim::event("call_by_need on rvalues, shape %d", which);
    switch (which) {
    case 0:
        nfns = 2;
        o = elem::attempt(k, [&] {
            auto r =
                stdx::call_by_need(stdx::tuple{[&](mono_arg<1> a) {
                                                   need_call(l, 0, {11}, a);
                                                   return a;
                                               },
                                               [&](mono_arg<0> a) {
                                                   need_call(l, 1, {10}, a);
                                                   return a;
                                               }},
                                   std::move(*args));
            same_results(r, {11, 10, 12});
        });
        break;
    case 1:
        nfns = 1;
        o = elem::attempt(k, [&] {
            auto r = stdx::call_by_need(
                stdx::tuple{[&](mono_arg<1> &&a, mono_arg<2> &&b) {
                    return need_call(l, 0, {11, 12}, a, b);
                }},
                std::move(*args));
            same_results(r, {1000, 10});
        });
        break;
    default:
#ifndef SIM_WITHOUT_MOVE_ONLY
        nfns = 2;
        o = elem::attempt(k, [&] {
            // move-only function objects
            auto token = std::make_unique<mono>(5);
            auto r = stdx::call_by_need(
                stdx::tuple{[&, t = std::move(token)](mono_arg<2> const &a,
                                                      int dflt = 17) {
                                need_call(l, 0, {12}, a);
                                return dflt + t->get();
                            },
                            [&](mono_arg<0> a, mono_arg<1> const &b) {
                                need_call(l, 1, {10, 11}, a, b);
                            }},
                std::move(*args));
            same_results(r, {22});
        });
#endif
        break;
    }
    judge_need(l, nfns, o);
}

// --------------------------------------------------------------- dispatch
using fn = void (*)();
template <std::size_t N> auto pick(std::array<fn, N> const &fs) -> void {
    fs[sim::choose(N)]();
}
template <form F, hold H, int A> void one_tuple() {
    static constexpr std::array<fn, 7> fs{
        visits<F, H, A, 0>::any, visits<F, H, A, 1>::any,
        visits<F, H, A, 2>::any, visits<F, H, A, 3>::any,
        visits<F, H, A, 4>::any, visits<F, H, A, 5>::any,
        visits<F, H, A, 10>::any};
    pick(fs);
}
template <form F, hold H, int A> void more_tuples() {
    static constexpr std::array<fn, 6> fs{
        visits<F, H, A, 2, 2>::any,    visits<F, H, A, 3, 2>::any,
        visits<F, H, A, 1, 4>::any,    visits<F, H, A, 3, 3, 3>::any,
        visits<F, H, A, 4, 2, 3>::any, visits<F, H, A, 2, 0>::any};
    pick(fs);
}
template <form F, hold H> void tuples() {
    if (sim::flip(1, 2)) {
        more_tuples<F, H, stdx_of>();
    } else {
        one_tuple<F, H, stdx_of>();
    }
}
template <hold H> void arrays() {
    static constexpr std::array<fn, 6> fs{
        one_tuple<form::lvalue, H, arrays_of>,
        one_tuple<form::const_lvalue, H, arrays_of>,
        one_tuple<form::rvalue, H, arrays_of>,
        more_tuples<form::lvalue, H, arrays_of>,
        more_tuples<form::const_lvalue, H, arrays_of>,
        more_tuples<form::rvalue, H, arrays_of>};
    pick(fs);
}
template <typename F> void tracked(F f) {
    sim::configure({});
    elem::reset_ledger();
    f();
    elem::all_destroyed();
}

// long ones, and more of them at once
void long_tuples() {
    static constexpr std::array<fn, 9> fs{
        visits<form::lvalue, hold::value, stdx_of, 20>::any,
        visits<form::rvalue, hold::value, stdx_of, 20>::any,
        visits<form::const_lvalue, hold::reference, stdx_of, 34>::any,
        visits<form::rvalue, hold::only_move, stdx_of, 34>::any,
        visits<form::lvalue, hold::value, stdx_of, 18, 17>::any,
        visits<form::rvalue, hold::only_move, stdx_of, 9, 12, 10>::any,
        visits<form::const_lvalue, hold::value, stdx_of, 2, 3, 2, 4>::any,
        visits<form::rvalue, hold::value, stdx_of, 3, 2, 5, 2>::any,
        visits<form::lvalue, hold::value, std_of, 20>::any};
    pick(fs);
}
void long_arrays() {
    static constexpr std::array<fn, 6> fs{
        visits<form::lvalue, hold::value, arrays_of, 20>::any,
        visits<form::rvalue, hold::only_move, arrays_of, 36>::any,
        visits<form::const_lvalue, hold::value, arrays_of, 70>::any,
        visits<form::lvalue, hold::only_move, arrays_of, 70>::any,
        visits<form::rvalue, hold::value, arrays_of, 18, 17>::any,
        visits<form::lvalue, hold::value, arrays_of, 3, 4, 2, 3>::any};
    pick(fs);
}

void visit_tuples() {
    tracked([] {
        if (sim::flip(1, 4)) {
            long_tuples();
            return;
        }
        static constexpr std::array<fn, 11> fs{
            one_tuple<form::rvalue, hold::value, std_of>,
            more_tuples<form::const_lvalue, hold::value, std_of>,
            tuples<form::lvalue, hold::value>,
            tuples<form::const_lvalue, hold::value>,
            tuples<form::rvalue, hold::value>,
            tuples<form::lvalue, hold::only_move>,
            tuples<form::const_lvalue, hold::only_move>,
            tuples<form::rvalue, hold::only_move>,
            tuples<form::lvalue, hold::reference>,
            tuples<form::const_lvalue, hold::reference>,
            tuples<form::rvalue, hold::reference>};
        pick(fs);
    });
}
void visit_arrays() {
    tracked([] {
        if (sim::flip(1, 4)) {
            long_arrays();
            return;
        }
        if (sim::flip(1, 2)) {
            arrays<hold::only_move>();
        } else {
            arrays<hold::value>();
        }
    });
}
template <form F, hold H> void fold_any() {
    static constexpr std::array<fn, 8> fs{
        fold_run<F, H, 0>,  fold_run<F, H, 1>, fold_run<F, H, 2>,
        fold_run<F, H, 3>,  fold_run<F, H, 4>, fold_run<F, H, 5>,
        fold_run<F, H, 10>, fold_run<F, H, 20>};
    pick(fs);
}
template <form F, hold H> void apply_any() {
    static constexpr std::array<fn, 6> fs{
        apply_run<F, H, 0, 2>, apply_run<F, H, 2, 1>, apply_run<F, H, 3, 3>,
        apply_run<F, H, 2, 0>, apply_run<F, H, 1, 9>, apply_run<F, H, 10, 8>};
    pick(fs);
}
void folds() {
    tracked([] {
        static constexpr std::array<fn, 12> fs{
            fold_any<form::const_lvalue, hold::value>,
            fold_any<form::rvalue, hold::value>,
            fold_any<form::const_lvalue, hold::only_move>,
            fold_any<form::rvalue, hold::only_move>,
            fold_any<form::const_lvalue, hold::reference>,
            fold_any<form::rvalue, hold::reference>,
            fold_any<form::lvalue, hold::value>,
            fold_any<form::lvalue, hold::only_move>,
            apply_any<form::lvalue, hold::value>,
            apply_any<form::rvalue, hold::value>,
            apply_any<form::rvalue, hold::only_move>,
            apply_any<form::const_lvalue, hold::reference>};
        pick(fs);
    });
}
void batches() {
    tracked([] {
        static constexpr std::array<fn, 20> fs{
            batch_run<4, 5, false>, batch_run<1, 36, false>,
            batch_run<9, 2, false>, batch_run<2, 17, true>,
            batch_run<1, 7, false>, batch_run<2, 9, false>,
            batch_run<3, 5, true>,  batch_run<5, 2, false>,
            batch_run<1, 1, false>, batch_run<1, 4, false>,
            batch_run<2, 1, false>, batch_run<2, 2, false>,
            batch_run<2, 3, false>, batch_run<3, 2, false>,
            batch_run<3, 3, false>, batch_run<2, 0, false>,
            batch_run<1, 3, true>,  batch_run<2, 2, true>,
            batch_run<3, 2, true>,  batch_run<2, 4, true>};
        pick(fs);
    });
}
void needs() {
    tracked([] {
        static constexpr std::array<fn, 3> fs{need_rvalues, need_lvalues,
                                              need_few};
        pick(fs);
    });
}

sim::scenario const scenarios[] = {
    {"visit_tuples", 4, visit_tuples}, {"visit_arrays", 2, visit_arrays},
    {"fold_join_apply", 2, folds},     {"batch_calls", 1, batches},
    {"call_by_need", 1, needs},
};
} // namespace

sim::property_def const sim::the_property = {
    "C19",
    "Each run draws a visitor, 1-4 tuples, arrays or an argument pack of up "
    "to 70 elements, an element kind (value, move-only, reference), how it is "
    "passed (lvalue, const lvalue, rvalue) and, in half of the runs, the call "
    "or element copy that fails. The calls with their arguments and element "
    "identities, the state of the returned function object, results and all "
    "elements afterwards are compared with the definition, and element "
    "lifetimes are tracked. Non-trivial: the visit completed or failed by "
    "injection. Distinct: hash of all choices and results.",
    "stdx::for_each, enumerate, transform, all_of, any_of, none_of and their "
    "unrolled_ forms, apply, tuple fold_left/fold_right/join/apply, "
    "for_each_n_args, call_by_need",
    "elements and user functions (all may fail)",
    scenarios,
    5,
    6000000,
    36000000,
};
