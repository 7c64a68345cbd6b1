#include "../sim/elem.hpp"

#include <stdx/functional.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <functional>
#include <optional>
#include <utility>
#include <vector>

namespace {
using u32 = std::uint32_t;
using i64 = std::int64_t;

// ------------------------------------------------ what the targets record
struct seen {
    char cat; // l: lvalue, c: const lvalue, r: rvalue, k: const rvalue
    int value;
    friend auto operator==(seen const &, seen const &) -> bool = default;
};
using args_seen = std::vector<seen>;
struct call_seen {
    char self; // category the target itself was called with
    args_seen args;
    friend auto operator==(call_seen const &,
                           call_seen const &) -> bool = default;
};
std::vector<call_seen> calls;
enum struct deed : std::uint8_t { look, take, change };
deed todo{};

auto text(call_seen const &c) -> std::string {
    std::string s{c.self};
    s += "(";
    for (auto const &a : c.args) {
        s += " ";
        s += a.cat;
        s += std::to_string(a.value);
    }
    return s + " )";
}

template <typename T> constexpr auto cat_of() -> char {
    constexpr bool is_const = std::is_const_v<std::remove_reference_t<T>>;
    if constexpr (std::is_lvalue_reference_v<T>) {
        return is_const ? 'c' : 'l';
    } else {
        return is_const ? 'k' : 'r';
    }
}
constexpr int change_by = 1000;

template <typename B, typename... A> auto body(char self, A &&...a) -> B {
    {
        sim::host_scope const h{};
        calls.push_back({self, {{cat_of<A &&>(), a.get()}...}});
        if (sim::fault_point("target")) {
            throw sim::fault_t{1};
        }
    }
    if (todo == deed::take) {
        // copies lvalues, moves from rvalues
        std::array<B, sizeof...(A)> const mine{B{std::forward<A>(a)}...};
        (void)mine;
    } else if (todo == deed::change) {
        (
            [&] {
                if constexpr (cat_of<A &&>() == 'l') {
                    a.set(a.get() + change_by);
                }
            }(),
            ...);
    }
    return B{static_cast<int>(calls.size())};
}

// a target with state of its own, whose copies may fail
template <typename B> struct target {
    B tag{500};
    template <typename... A> auto operator()(A &&...a) & -> B {
        tag.set(tag.get() + 1);
        return body<B>('l', std::forward<A>(a)...);
    }
    template <typename... A> auto operator()(A &&...a) const & -> B {
        (void)tag.get();
        return body<B>('c', std::forward<A>(a)...);
    }
    template <typename... A> auto operator()(A &&...a) && -> B {
        tag.set(tag.get() + 1);
        return body<B>('r', std::forward<A>(a)...);
    }
};
template <typename B> struct fixed_target {
    template <typename... A> auto operator()(A &&...a) const -> B {
        return body<B>('f', std::forward<A>(a)...);
    }
};

enum class how : std::uint8_t { lvalue, const_lvalue, rvalue };
constexpr char letters[] = {'l', 'c', 'r'};
auto draw_how() -> how { return static_cast<how>(sim::choose(3)); }
template <typename T, typename F> decltype(auto) with(how h, T &t, F &&f) {
    switch (h) {
    case how::lvalue:
        return f(t);
    case how::const_lvalue:
        return f(std::as_const(t));
    default:
        return f(std::move(t));
    }
}

// of many, only the first ones are passed in any way
template <std::size_t N, std::size_t I>
constexpr auto fixed_how = static_cast<how>(N > 3 and I > 1 ? I % 3 : 9);
template <typename B, std::size_t N> auto hows() -> std::array<how, N> {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return std::array<how, N>{(fixed_how<N, Is> == static_cast<how>(9)
                                       ? draw_how()
                                       : fixed_how<N, Is>)...};
    }(std::make_index_sequence<N>{});
}
// calls f with the elements of a, each in its drawn category
template <typename B, std::size_t N, typename F, typename... Done>
void spread(std::array<B, N> &a, std::array<how, N> const &h, F &&f,
            Done &&...done) {
    if constexpr (sizeof...(Done) == N) {
        f(std::forward<Done>(done)...);
    } else {
        constexpr auto i = sizeof...(Done);
        auto const on = [&](auto &&x) {
            spread(a, h, f, std::forward<Done>(done)...,
                   std::forward<decltype(x)>(x));
        };
        if constexpr (fixed_how<N, i> == how::lvalue) {
            on(a[i]);
        } else if constexpr (fixed_how<N, i> == how::const_lvalue) {
            on(std::as_const(a[i]));
        } else if constexpr (fixed_how<N, i> == how::rvalue) {
            on(std::move(a[i]));
        } else {
            with(h[i], a[i], on);
        }
    }
}
template <typename B, std::size_t N> auto fresh(int base) -> std::array<B, N> {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return std::array<B, N>{B{base + static_cast<int>(Is)}...};
    }(std::make_index_sequence<N>{});
}

// --------------------------------------------------- what a bound object is
struct model {
    bool has_state{};
    int tag{500};
    std::vector<int> bound{};
    bool exact{true}; // false once a failed take by rvalue moved some of it
};

template <bool Front, bool Fixed, std::size_t NB, typename B> struct maker {
    template <typename T, typename... A> static auto make(T &&t, A &&...a) {
        if constexpr (Front and Fixed) {
            return stdx::bind_front<fixed_target<B>{}>(std::forward<A>(a)...);
        } else if constexpr (Front) {
            return stdx::bind_front(std::forward<T>(t), std::forward<A>(a)...);
        } else if constexpr (Fixed) {
            return stdx::bind_back<fixed_target<B>{}>(std::forward<A>(a)...);
        } else {
            return stdx::bind_back(std::forward<T>(t), std::forward<A>(a)...);
        }
    }
    template <std::size_t> using item = B;
    template <std::size_t... Is>
    static auto type(std::index_sequence<Is...>)
        -> decltype(make(std::declval<target<B> const &>(),
                         std::declval<item<Is>>()...));
    using bound_t = decltype(type(std::make_index_sequence<NB>{}));
};

#ifndef SIM_WITHOUT_ONE_TYPE // however it is bound, the type is the same
template <typename B, bool Front, bool Fixed, std::size_t NB> struct world {
    using bound_t = typename maker<Front, Fixed, NB, B>::bound_t;
    constexpr static i64 weight = NB + (Fixed ? 0 : 1);

    struct slot {
        std::optional<bound_t> fn{};
        model m{};
    };
    slot a{};
    slot b{};
    target<B> source{};
    std::array<B, NB> originals{fresh<B, NB>(10)};

    void live_is(i64 extra = 0) {
        i64 const want = 1 + static_cast<i64>(NB) + (a.fn ? weight : 0) +
                         (b.fn ? weight : 0) + extra;
        sim::require(elem::ledger.live == want, "leak",
                     "%d elements alive, %d expected", elem::ledger.live, want);
    }

    void bind(slot &s) {
        auto const h = hows<B, NB>();
        for (std::size_t i = 0; i < NB; ++i) {
            originals[i].set(10 + static_cast<int>(i) +
                             100 * static_cast<int>(sim::choose(3)));
        }
        model m{};
        m.has_state = not Fixed;
        m.tag = source.tag.get();
        for (auto const &o : originals) {
            m.bound.push_back(o.get());
        }
        s.fn.reset();
        calls.clear();
        bool const give_target = not Fixed and sim::flip(1, 3);
        target<B> given{};
        given.tag.set(m.tag);
        i64 const copies_before = elem::ledger.copies;
        u32 const k = elem::draw_fault(NB + 4);
        auto const o = elem::attempt(k, [&] {
            spread(originals, h, [&](auto &&...x) {
                // built in place: no copy of the result may be needed
                s.fn.emplace(stdx::with_result_of{[&] {
                    if (give_target) {
                        return maker<Front, Fixed, NB, B>::make(
                            std::move(given), std::forward<decltype(x)>(x)...);
                    }
                    return maker<Front, Fixed, NB, B>::make(
                        std::as_const(source), std::forward<decltype(x)>(x)...);
                }});
            });
        });
        sim::event("bind %d%s: %s", NB, give_target ? " giving the target" : "",
                   elem::name_of(o));
        // only what the caller keeps is copied
        i64 may_copy = (Fixed or give_target) ? 0 : 1;
        for (auto const x : h) {
            may_copy += x == how::rvalue ? 0 : 1;
        }
        sim::require(elem::ledger.copies - copies_before <= may_copy,
                     "extra-copy", "%d copies made, %d needed",
                     elem::ledger.copies - copies_before, may_copy);
        sim::require(calls.empty(), "called-early",
                     "binding called the target");
        for (std::size_t i = 0; i < NB; ++i) {
            sim::require(h[i] == how::rvalue or
                             originals[i].get() == m.bound[i],
                         "source-changed", "bound lvalue %d changed to %d",
                         m.bound[i], originals[i].get());
        }
        sim::require(source.tag.get() == m.tag, "source-changed",
                     "the target bound from changed");
        if (o == elem::outcome::ok) {
            s.m = m;
            // later changes of the originals must not matter
            for (auto &x : originals) {
                x.set(9999);
            }
        } else {
            s.fn.reset();
            sim::probe("binding failed");
        }
        live_is(1);
    }

    template <std::size_t NA> void call(slot &s) {
        if (not s.fn) {
            return;
        }
        auto args = fresh<B, NA>(50 + 10 * static_cast<int>(sim::choose(3)));
        auto const h = hows<B, NA>();
        how const self = draw_how();
        todo = static_cast<deed>(sim::choose(3));
        std::vector<int> given;
        for (auto const &x : args) {
            given.push_back(x.get());
        }
        calls.clear();
        u32 const k = elem::draw_fault(NB + NA + 3);
        int result = 0;
        auto const o = elem::attempt(k, [&] {
            spread(args, h, [&](auto &&...x) {
                with(self, *s.fn, [&](auto &&f) {
                    auto const r = std::forward<decltype(f)>(f)(
                        std::forward<decltype(x)>(x)...);
                    result = r.get();
                });
            });
        });
        sim::event("call as %d, %d bound, %d given, deed %d: %s",
                   static_cast<u32>(self), NB, NA, static_cast<u32>(todo),
                   elem::name_of(o));
        // exactly one call, with everything in its place
        char const own = letters[static_cast<u32>(self)];
        call_seen want{Fixed ? 'f' : own, {}};
        args_seen bound_part;
        for (auto const v : s.m.bound) {
            bound_part.push_back({own, v});
        }
        args_seen given_part;
        for (std::size_t i = 0; i < NA; ++i) {
            given_part.push_back({letters[static_cast<u32>(h[i])], given[i]});
        }
        auto const &first = Front ? bound_part : given_part;
        auto const &second = Front ? given_part : bound_part;
        want.args.insert(want.args.end(), first.begin(), first.end());
        want.args.insert(want.args.end(), second.begin(), second.end());
        sim::require(calls.size() == 1, "not-called-once",
                     "the target ran %d times", calls.size());
        sim::require(calls[0] == want, "wrong-call", "got %s, expected %s",
                     text(calls[0]).c_str(), text(want).c_str());
        bool const ok = o == elem::outcome::ok;
        sim::require(not ok or result == 1, "wrong-result",
                     "the target's result was changed to %d", result);
        if (ok) {
            sim::nontrivial();
        } else {
            sim::probe("call failed");
        }
        // what the target did to what it was given
        if (self != how::const_lvalue and s.m.has_state) {
            ++s.m.tag;
        }
        bool const body_ran = ok or (todo != deed::change);
        if (self == how::lvalue and todo == deed::change and body_ran and ok) {
            for (auto &v : s.m.bound) {
                v += change_by;
            }
        }
        if (self == how::rvalue and todo == deed::take) {
            if (ok) {
                for (auto &v : s.m.bound) {
                    v = elem::moved_out;
                }
            } else {
                s.m.exact = false;
            }
        }
        for (std::size_t i = 0; i < NA; ++i) {
            int const now = args[i].get();
            int const changed = h[i] == how::lvalue and todo == deed::change
                                    ? given[i] + change_by
                                    : given[i];
            bool const fine =
                h[i] == how::rvalue and todo == deed::take
                    ? (now == elem::moved_out or (not ok and now == given[i]))
                    : now == (ok ? changed : given[i]);
            sim::require(fine, "argument-changed", "argument %d became %d",
                         given[i], now);
        }
        live_is(NA);
        if (not s.m.exact) {
            s.fn.reset(); // partly used up: nothing more to say about it
            s.m = {};
        }
    }

    void copy(bool move) {
        if (not a.fn) {
            return;
        }
        b.fn.reset();
        calls.clear();
        u32 const k = elem::draw_fault(NB + 2);
        auto const o = elem::attempt(k, [&] {
            if (move) {
                b.fn.emplace(std::move(*a.fn));
            } else {
                b.fn.emplace(std::as_const(*a.fn));
            }
        });
        sim::event("%s: %s", move ? "move" : "copy", elem::name_of(o));
        sim::require(calls.empty(), "called-early",
                     "copying called the target");
        if (o == elem::outcome::ok) {
            b.m = a.m;
        }
        if (move) {
            a.fn.reset();
        }
        live_is();
    }

    static void go() {
        elem::reset_ledger();
        {
            world w{};
            w.bind(w.a);
            u32 done = 0;
            u32 const most = sim::lengthy(8);
            while (sim::more(done, most)) {
                ++done;
                slot &s = sim::flip(1, 3) ? w.b : w.a;
                switch (sim::choose(8)) {
                case 0:
                    w.bind(s);
                    break;
                case 1:
                    w.copy(false);
                    break;
                case 2:
                    w.copy(true);
                    break;
                case 3:
                    w.template call<0>(s);
                    break;
                case 4:
                case 5:
                    w.template call<1>(s);
                    break;
                default:
                    if (NB > 3 and sim::flip(1, 2)) {
                        w.template call<NB>(s);
                    } else {
                        w.template call<2>(s);
                    }
                    break;
                }
            }
        }
        elem::all_destroyed();
        calls.clear();
    }
};

using case_t = void (*)();
template <typename B> auto bind_cases() -> std::vector<case_t> {
    std::vector<case_t> v;
    auto const add = [&]<std::size_t NB>() {
        v.push_back(&world<B, true, false, NB>::go);
        v.push_back(&world<B, false, false, NB>::go);
        v.push_back(&world<B, true, true, NB>::go);
        v.push_back(&world<B, false, true, NB>::go);
    };
    add.template operator()<1>();
    add.template operator()<2>();
    add.template operator()<0>();
    add.template operator()<3>();
    if constexpr (std::is_same_v<B, elem::item>) {
        add.template operator()<5>();
        add.template operator()<9>();
    }
    return v;
}
void bindings() {
    static auto const plain = bind_cases<elem::item>();
    static auto const fragile = bind_cases<elem::fragile>();
    auto const &v = sim::flip(1, 2) ? fragile : plain;
    v[sim::choose(static_cast<u32>(v.size()))]();
}

#endif

// ------------- what was bound may change or end before the call, unnoticed
template <typename B, bool Front, bool Fixed> void bound_apart() {
    elem::reset_ledger();
    calls.clear();
    {
        auto x = sim::make<B>(10);
        auto y = sim::make<B>(11);
        auto t = sim::make<target<B>>();
        auto const go = [&](auto &&tt, auto &&...bs) {
            auto f = sim::sut([&] {
                return maker<Front, Fixed, sizeof...(bs), B>::make(
                    std::forward<decltype(tt)>(tt),
                    std::forward<decltype(bs)>(bs)...);
            });
            u32 const fate = sim::choose(3);
            sim::event("bound apart: %d values, fate %d", sizeof...(bs), fate);
            if (fate == 1) {
                x->set(900);
                y->set(901);
                t->tag.set(902);
            } else if (fate == 2) {
                x.reset();
                y.reset();
                t.reset();
            }
            u32 const times = 1 + sim::choose(2);
            for (u32 i = 0; i < times; ++i) {
                calls.clear();
                todo = sim::flip(1, 2) ? deed::look : deed::take;
                bool const as_const = sim::flip(1, 2);
                B arg{50};
                int result = 0;
                sim::sut([&] {
                    auto const r = as_const ? std::as_const(f)(arg) : f(arg);
                    result = r.get();
                });
                char const own = as_const ? 'c' : 'l';
                args_seen bound{{own, 10}, {own, 11}};
                bound.resize(sizeof...(bs));
                call_seen want{Fixed ? 'f' : own, {}};
                if (Front) {
                    want.args = bound;
                    want.args.push_back({'l', 50});
                } else {
                    want.args.push_back({'l', 50});
                    want.args.insert(want.args.end(), bound.begin(),
                                     bound.end());
                }
                sim::require(calls.size() == 1, "not-called-once",
                             "the target ran %d times", calls.size());
                sim::require(calls[0] == want, "wrong-call",
                             "got %s, expected %s", text(calls[0]).c_str(),
                             text(want).c_str());
                sim::require(result == 1, "wrong-result", "result %d", result);
                sim::require(arg.get() == 50, "argument-changed",
                             "the argument became %d", arg.get());
            }
            if (fate == 0) {
                sim::require(x->get() == 10 and y->get() == 11 and
                                 t->tag.get() == 500,
                             "source-changed",
                             "calling changed what was bound: %d, %d, %d",
                             x->get(), y->get(), t->tag.get());
            }
            sim::nontrivial();
        };
        switch (sim::choose(4)) {
        case 0:
            go(*t, *x, *y);
            break;
        case 1:
            go(std::as_const(*t), std::as_const(*x), *y);
            break;
        case 2:
            go(*t, *x);
            break;
        default:
            go(std::as_const(*t), std::as_const(*x), std::as_const(*y));
            break;
        }
    }
    elem::all_destroyed();
    calls.clear();
}
void bindings_apart() {
    static constexpr std::array<void (*)(), 4> fs{
        bound_apart<elem::item, true, false>,
        bound_apart<elem::item, false, false>,
        bound_apart<elem::item, true, true>,
        bound_apart<elem::item, false, true>};
    fs[sim::choose(4)]();
}

// ------------------------------- one bound object called by several threads
struct summing {
    int base;
    auto operator()(int const &x, int const &y, int z, int w) const -> int {
        return base + 2 * x + 3 * y + 5 * z + 7 * w;
    }
};
auto sum_of(int const &x, int const &y, int z, int w) -> int {
    return 2 * x + 3 * y + 5 * z + 7 * w;
}
template <typename F> void call_together(F const &f, int base, bool front) {
    u32 const nt = 2 + sim::choose(2);
    std::vector<std::vector<std::array<int, 3>>> jobs(nt);
    for (auto &j : jobs) {
        u32 n = 0;
        do {
            j.push_back({static_cast<int>(sim::choose(9)),
                         static_cast<int>(sim::choose(9)), -1});
            ++n;
        } while (sim::more(n, 3));
    }
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn([&, t] {
            for (auto &j : jobs[t]) {
                int const r = sim::sut([&] { return f(j[0], j[1]); });
                sim::host_scope const h{};
                j[2] = r;
            }
        });
    }
    sim::run_threads();
    for (auto const &job : jobs) {
        for (auto const &j : job) {
            int const want = front
                                 ? base + 2 * 40 + 3 * 41 + 5 * j[0] + 7 * j[1]
                                 : base + 2 * j[0] + 3 * j[1] + 5 * 40 + 7 * 41;
            sim::require(j[2] == want, "wrong-result", "got %d, expected %d",
                         j[2], want);
        }
    }
    sim::nontrivial();
}
void together() {
    sim::sched_config sc{};
    u32 const gaps[] = {0, 2, 5, 12};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.mode = sim::flip(1, 4) ? sim::sched::interrupts : sim::sched::threads;
    sim::configure(sc);
    switch (sim::choose(4)) {
    case 0: {
        using T = decltype(stdx::bind_front(summing{1}, 40, 41));
        auto const f = sim::make<T>(stdx::bind_front(summing{1}, 40, 41));
        return call_together(std::as_const(*f), 1, true);
    }
    case 1: {
        using T = decltype(stdx::bind_back(summing{2}, 40, 41));
        auto const f = sim::make<T>(stdx::bind_back(summing{2}, 40, 41));
        return call_together(std::as_const(*f), 2, false);
    }
    case 2: {
        using T = decltype(stdx::bind_front<sum_of>(40, 41));
        auto const f = sim::make<T>(stdx::bind_front<sum_of>(40, 41));
        return call_together(std::as_const(*f), 0, true);
    }
    default: {
        using T = decltype(stdx::bind_back<sum_of>(40, 41));
        auto const f = sim::make<T>(stdx::bind_back<sum_of>(40, 41));
        return call_together(std::as_const(*f), 0, false);
    }
    }
}

// --------------------------------------------------- deferred construction
// converting runs the function once; nothing else does; nothing is copied
struct pinned { // can be neither copied nor moved
    elem::item x;
    explicit pinned(int v) : x{v} {}
    pinned(pinned &&) = delete;
};
struct pin_map_value {
    std::optional<pinned> p{};
};
void deferred() {
    elem::reset_ledger();
    calls.clear();
    {
        u32 runs = 0;
        int next = 1;
        auto make = [&]() -> pinned {
            {
                sim::host_scope const h{};
                ++runs;
                if (sim::fault_point("function")) {
                    throw sim::fault_t{1};
                }
            }
            return pinned{next};
        };
        auto w = sim::sut([&] { return stdx::with_result_of{make}; });
        sim::require(runs == 0, "called-early", "wrapping ran the function");
        std::optional<pinned> slot{};
        u32 done = 0;
        u32 const most = sim::lengthy(6);
        while (sim::more(done, most)) {
            ++done;
            runs = 0;
            next = 10 + static_cast<int>(done);
            u32 const what = sim::choose(6);
            u32 const k = elem::draw_fault(2);
            int got = 0;
            u32 want_runs = 1;
            if (what < 3) {
                slot.reset();
            }
            auto const o = elem::attempt(k, [&] {
                switch (what) {
                case 0:
                    slot.emplace(w);
                    got = slot->x.get();
                    break;
                case 1:
                    slot.emplace(std::as_const(w));
                    got = slot->x.get();
                    break;
                case 2:
                    slot.emplace(stdx::with_result_of{make});
                    got = slot->x.get();
                    break;
                case 3: {
                    pinned p = w;
                    got = p.x.get();
                    break;
                }
                case 4: { // a copy of the wrapper runs nothing by itself
                    auto const w2 = w;
                    pinned p = w2;
                    got = p.x.get();
                    break;
                }
                default: {
                    auto w2 = w;
                    (void)w2;
                    want_runs = 0;
                    got = next;
                    break;
                }
                }
            });
            sim::event("conversion %d: %s", what, elem::name_of(o));
            sim::require(runs == want_runs, "not-called-once",
                         "the function ran %d times for one conversion", runs);
            if (o == elem::outcome::ok) {
                sim::require(got == next, "wrong-result", "got %d for %d", got,
                             next);
                sim::nontrivial();
            } else {
                sim::probe("function failed");
            }
            sim::require(elem::ledger.live == (slot ? 1 : 0), "leak",
                         "%d elements alive", elem::ledger.live);
            sim::require(elem::ledger.copies + elem::ledger.moves == 0,
                         "extra-copies", "the result was copied");
        }
    }
    elem::all_destroyed();
}

// A function with state of its own: converting never copies it, and what it
// does to its state stays.
template <typename B> struct counting {
    B state{700};
    auto operator()() -> int {
        step();
        state.set(state.get() + 1);
        return state.get();
    }
    auto operator()() const -> int {
        step();
        return -state.get();
    }
    static void step() {
        sim::host_scope const h{};
        calls.push_back({});
        if (sim::fault_point("function")) {
            throw sim::fault_t{1};
        }
    }
};
template <typename B> void deferred_state() {
    elem::reset_ledger();
    calls.clear();
    {
        using W = stdx::with_result_of<counting<B>>;
        W w{counting<B>{}};
        W other{counting<B>{}};
        int want = 700;
        int want_other = 700;
        u32 done = 0;
        u32 const most = sim::lengthy(6);
        while (sim::more(done, most)) {
            ++done;
            calls.clear();
            u32 const what = sim::choose(5);
            u32 const k = elem::draw_fault(3);
            auto const copies = elem::ledger.copies;
            auto const moves = elem::ledger.moves;
            int got = 0;
            auto const o = elem::attempt(k, [&] {
                switch (what) {
                case 0:
                    got = w;
                    break;
                case 1:
                    got = std::as_const(w);
                    break;
                case 2:
                    got = std::move(w);
                    break;
                case 3:
                    got = static_cast<int>(std::as_const(other));
                    break;
                default:
                    other = w;
                    break;
                }
            });
            bool const ok = o == elem::outcome::ok;
            sim::event("stateful conversion %d: %s", what, elem::name_of(o));
            sim::require(calls.size() == (what == 4 ? 0 : 1), "not-called-once",
                         "the function ran %d times", calls.size());
            if (what == 4) {
                want_other = ok ? want : want_other;
            } else {
                sim::require(elem::ledger.copies == copies and
                                 elem::ledger.moves == moves,
                             "extra-copies", "converting copied the function");
                sim::require(not ok or got == (what == 1   ? -want
                                               : what == 3 ? -want_other
                                                           : want + 1),
                             "wrong-result", "got %d, state %d", got, want);
                want += ok and (what == 0 or what == 2) ? 1 : 0;
                sim::nontrivial();
            }
            sim::require(w.state.get() == want and
                             other.state.get() == want_other,
                         "wrong-state", "states %d and %d, expected %d and %d",
                         w.state.get(), other.state.get(), want, want_other);
            sim::require(elem::ledger.live == 2, "leak", "%d elements alive",
                         elem::ledger.live);
        }
    }
    elem::all_destroyed();
}
void deferred_states() {
    if (sim::flip(1, 2)) {
        deferred_state<elem::fragile>();
    } else {
        deferred_state<elem::item>();
    }
}

// ------------------------------------- identity: same object, or a value
template <typename B> void identity() {
    elem::reset_ledger();
    {
        B x{5};
        B const y{6};
        u32 const k = elem::draw_fault(2);
        u32 const what = sim::choose(3);
        bool good = false;
        auto const o = elem::attempt(k, [&] {
            switch (what) {
            case 0:
                good =
                    std::addressof(stdx::safe_identity(x)) == std::addressof(x);
                break;
            case 1:
                good =
                    std::addressof(stdx::safe_identity(y)) == std::addressof(y);
                break;
            default: {
                auto &&r = stdx::safe_identity(B{7});
                good = r.get() == 7; // still alive here
                break;
            }
            }
        });
        sim::event("identity %d: %s", what, elem::name_of(o));
        sim::require(o != elem::outcome::ok or good, "wrong-result",
                     "identity gave something else");
        sim::require(x.get() == 5 and y.get() == 6, "argument-changed",
                     "identity changed its argument");
        sim::require(elem::ledger.live == 2, "leak", "%d elements alive",
                     elem::ledger.live);
        sim::nontrivial();
    }
    elem::all_destroyed();
}
void identities() {
    if (sim::flip(1, 2)) {
        identity<elem::fragile>();
    } else {
        identity<elem::item>();
    }
}

// ------------------- wrapped expressions: evaluated once, when they are used
template <typename B> void wrapped() {
    elem::reset_ledger();
    {
        B x{5};
        int evaluated = 0;
        auto const make = [&](int v) -> B {
            {
                sim::host_scope const h{};
                ++evaluated;
                if (sim::fault_point("evaluation")) {
                    throw sim::fault_t{1};
                }
            }
            return B{v};
        };
        u32 const what = sim::choose(6);
        u32 const k = elem::draw_fault(4);
        auto const copies = elem::ledger.copies;
        int got{};
        auto const o = elem::attempt(k, [&] {
            switch (what) {
            case 0: {
                auto const r = CX_WRAP(make(7));
                got = r.get();
                break;
            }
            case 1: {
                auto const r = CT_WRAP(make(7));
                got = r.get();
                break;
            }
            case 2: {
                auto const r = CX_WRAP(x);
                got = r.get() + 2;
                break;
            }
            case 3: {
                auto const r = CT_WRAP(x);
                got = r.get() + 2;
                break;
            }
            case 4: {
                auto const r = CX_WRAP(std::move(x));
                got = r.get() + 2;
                break;
            }
            default: {
                auto const r = CT_WRAP(std::move(x));
                got = r.get() + 2;
                break;
            }
            }
        });
        sim::event("wrapped %d: %s %d", what, elem::name_of(o), got);
        sim::require(what > 1 or evaluated == 1, "wrong-call",
                     "the expression was evaluated %d times", evaluated);
        sim::require(o != elem::outcome::ok or got == 7, "wrong-result",
                     "the wrapped value is %d", got);
        sim::require(what > 3 or x.get() == 5, "argument-changed",
                     "wrapping changed its argument");
        sim::require(what == 2 or what == 3 or elem::ledger.copies == copies,
                     "extra-copies", "wrapping copied a temporary");
        sim::require(elem::ledger.live == 1, "leak", "%d elements alive",
                     elem::ledger.live);
        sim::nontrivial();
    }
    elem::all_destroyed();
}
// an expression passed on like another one is the same object
template <typename B> void passed_like() {
    elem::reset_ledger();
    {
        B x{5};
        B y{6};
        B const &cy = y;
        bool same = true;
        auto const is = [&](auto &&r, char cat) {
            same = same and std::addressof(r) == std::addressof(y) and
                   cat_of<decltype(r)>() == cat;
        };
        auto const made = elem::ledger.made;
        auto const o = elem::attempt(elem::draw_fault(2), [&] {
            is(stdx::forward_like<B &>(y), 'l');
            is(stdx::forward_like<B const &>(y), 'c');
            is(stdx::forward_like<B>(std::move(y)), 'r');
            is(stdx::forward_like<B const>(y), 'k');
            is(stdx::forward_like<B &>(cy), 'c');
        });
        sim::event("passed like: %s", elem::name_of(o));
        sim::require(o == elem::outcome::ok and same, "wrong-result",
                     "the expression is another one");
        sim::require(y.get() == 6 and elem::ledger.made == made,
                     "argument-changed", "passing on changed its argument");
        sim::nontrivial();
    }
    elem::all_destroyed();
}
void expressions() {
    switch (sim::choose(3)) {
    case 0:
        return wrapped<elem::fragile>();
    case 1:
        return wrapped<elem::item>();
    default:
        return passed_like<elem::fragile>();
    }
}

sim::scenario const scenarios[] = {
#ifndef SIM_WITHOUT_ONE_TYPE
    {"bindings", 8, bindings},
#endif
    {"bindings_apart", 1, bindings_apart},
    {"together", 3, together},
    {"deferred", 2, deferred},
    {"deferred_states", 1, deferred_states},
    {"identities", 1, identities},
    {"expressions", 1, expressions},
};
} // namespace

sim::property_def const sim::the_property = {
    "C25",
    "Each run draws a way of binding (leading/trailing arguments, stored or "
    "fixed target), 0-9 bound arguments with their value categories, then up "
    "to 8 rebinds, copies, moves and calls with 0-9 arguments on plain, const "
    "and expiring objects, with targets that look, take or change, and an "
    "element copy or target that fails; or several threads call one bound "
    "object; or deferred constructions and wrapped expressions that fail. "
    "Non-trivial: a call "
    "completed and was compared. Distinct: hash of all choices and results.",
    "stdx::bind_front, bind_back, with_result_of, safe_identity, "
    "forward_like, CX_WRAP, CT_WRAP",
    "element copies, moves, target functions, thread schedule",
    scenarios,
    sizeof(scenarios) / sizeof(scenarios[0]),
    15000000,
    45000000,
};
