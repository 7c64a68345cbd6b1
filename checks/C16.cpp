#include "../sim/elem.hpp"

#include <stdx/optional.hpp>

#include <cmath>
#include <optional>
#include <tuple>

namespace {
using elem::outcome;
using u32 = std::uint32_t;
constexpr int empty_mark = -1000;

// a value whose construction may fail; building the empty marker never does
template <bool MoveFails, std::size_t Ballast = 0>
struct thing : elem::basic_item<MoveFails, Ballast> {
    using base = elem::basic_item<MoveFails, Ballast>;
    explicit(false) thing(int v) : base{v} {
        sim::host_scope const h{};
        if (v != empty_mark and sim::fault_point("construct")) {
            throw sim::fault_t{5};
        }
    }
    thing(int a, int b) : thing{a + b} {}
    thing(thing const &) = default;
    thing(thing &&) = default;
    auto operator=(thing const &) -> thing & = default;
    auto operator=(thing &&) -> thing & = default;
    ~thing() = default;
};

// the function handed to chained calls
struct calls_t {
    u32 n{};
    int arg{};
};
calls_t calls{};
void called(int arg) {
    sim::host_scope const h{};
    ++calls.n;
    calls.arg = arg;
    if (sim::fault_point("user_function")) {
        throw sim::fault_t{6};
    }
}
} // namespace

template <bool B, std::size_t S> struct stdx::tombstone_traits<thing<B, S>> {
    auto operator()() const { return thing<B, S>{empty_mark}; }
};

namespace {
template <typename O> void must_be(O &o, bool has, int val, char const *what) {
    O const &c = o;
    sim::require(c.has_value() == has and static_cast<bool>(o) == has,
                 "wrong-state", "%s: has_value=%d, expected %d", what,
                 c.has_value(), has);
    if (has) {
        sim::require(o.value().get() == val and c.value().get() == val and
                         (*o).get() == val and (*c).get() == val and
                         o->get() == val and c->get() == val,
                     "wrong-value", "%s: holds %d, expected %d", what,
                     c.value().get(), val);
    }
}

template <bool MoveFails, std::size_t Ballast = 0> void object_history() {
    using T = thing<MoveFails, Ballast>;
    using O = stdx::optional<T>;
    struct slot {
        sim::box<O> o{};
        bool has{};
        int val{};
    };
    elem::reset_ledger();
    {
        slot s[2]{};
        s[0].o = sim::make_default<O>();
        s[1].o = sim::make_default<O>();
        int next = 0;
        auto mark = [&](slot &x, bool has, int val) {
            x.has = has;
            x.val = val;
        };
        // after a failed call: unchanged, or empty where that is allowed
        auto unchanged_or_empty = [&](slot &x) {
            bool const now = x.o->has_value();
            if (not now) {
                x.has = false;
            }
        };
        for (u32 i = 0, most = sim::lengthy(20); sim::more(i, most); ++i) {
            u32 const k = sim::maybe(1, 3, 3);
            u32 const which = sim::choose(2);
            slot &a = s[which];
            slot &b = s[1 - which];
            outcome o{};
            calls = {};
            u32 expect_calls = 0;
            bool calls_known = true;
            next = (next + 1) % 500 + 1;
            // values on both sides of the one that stands for "empty"
            int const v = sim::flip(1, 4) ? -30000 - next : next;
            switch (sim::choose(21)) {
            case 0:
                o = elem::attempt(k, [&] {
                    auto &r = a.o->emplace(v);
                    sim::require(&r == &a.o->value(), "wrong-reference",
                                 "emplace returned another object");
                });
                sim::event("emplace %d: %s", v, elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, true, v);
                } else {
                    unchanged_or_empty(a);
                }
                break;
            case 1:
                o = elem::attempt(k, [&] { a.o->emplace(v, 1000); });
                sim::event("emplace pair %d: %s", v, elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, true, v + 1000);
                } else {
                    unchanged_or_empty(a);
                }
                break;
            case 2: {
                T const x = [&] { return T{v}; }();
                o = elem::attempt(k, [&] { a.o->emplace(x); });
                sim::event("emplace copy %d: %s", v, elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, true, v);
                } else {
                    unchanged_or_empty(a);
                }
                break;
            }
            case 3:
                o = elem::attempt(k, [&] { *a.o = v; });
                sim::event("assign value %d: %s", v, elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, true, v);
                } else {
                    unchanged_or_empty(a);
                }
                break;
            case 4: {
                bool const how = sim::choose(2) == 1;
                elem::attempt(0, [&] {
                    if (how) {
                        *a.o = std::nullopt;
                    } else {
                        a.o->reset();
                    }
                });
                sim::event("reset");
                mark(a, false, 0);
                break;
            }
            case 5:
                o = elem::attempt(k, [&] { *a.o = *b.o; });
                sim::event("assign copy: %s", elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, b.has, b.val);
                }
                break;
            case 6:
                o = elem::attempt(k, [&] { *a.o = std::move(*b.o); });
                sim::event("assign move: %s", elem::name_of(o));
                if (o == outcome::ok) {
                    mark(a, b.has, b.val);
                    sim::sut([&] { b.o->reset(); });
                    mark(b, false, 0);
                }
                break;
            case 7: {
                o = elem::attempt(k, [&] {
                    O c{*a.o};
                    sim::host_scope const h{};
                    sim::arm(0);
                    must_be(c, a.has, a.val, "copy");
                });
                sim::event("copy: %s", elem::name_of(o));
                break;
            }
            case 8: {
                auto const how = sim::choose(4);
                o = elem::attempt(k, [&] {
                    if (how == 0) {
                        O c{v};
                        sim::arm(0);
                        must_be(c, true, v, "constructed");
                    } else if (how == 1) {
                        O c{std::in_place, v, 3};
                        sim::arm(0);
                        must_be(c, true, v + 3, "constructed");
                    } else if (how == 2) {
                        O c{std::nullopt};
                        must_be(c, false, 0, "constructed");
                    } else {
                        T x{v};
                        O c{std::move(x)};
                        sim::arm(0);
                        must_be(c, true, v, "constructed");
                    }
                });
                sim::event("construct: %s", elem::name_of(o));
                break;
            }
            case 9: {
                int got{};
                bool const rv = sim::choose(2) == 1;
                o = elem::attempt(k, [&] {
                    T x = rv ? std::move(*a.o).value_or(v) : a.o->value_or(v);
                    got = x.get();
                });
                sim::event("value_or: %s %d", elem::name_of(o), got);
                if (o == outcome::ok) {
                    sim::require(got == (a.has ? a.val : v), "wrong-value",
                                 "value_or gave %d", got);
                    if (rv and a.has) {
                        sim::sut([&] { a.o->reset(); });
                        mark(a, false, 0);
                    }
                }
                break;
            }
            case 10: {
                auto const how = sim::choose(3);
                int got{};
                bool gh{};
                o = elem::attempt(k, [&] {
                    auto f = [](auto const &x) {
                        called(x.get());
                        return T{x.get() + 1};
                    };
                    O const &c = *a.o;
                    auto r = how == 0   ? a.o->transform(f)
                             : how == 1 ? c.transform(f)
                                        : std::move(c).transform(f);
                    gh = r.has_value();
                    got = r.value().get();
                });
                sim::event("transform: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 1 : 0;
                if (o == outcome::ok) {
                    sim::require(gh == a.has and (not gh or got == a.val + 1),
                                 "wrong-value", "transform gave %d/%d", gh,
                                 got);
                }
                break;
            }
            case 11: {
                auto const how = sim::choose(4);
                int got{};
                bool gh{};
                o = elem::attempt(k, [&] {
                    auto f = [&](auto const &x) {
                        called(x.get());
                        return x.get() % 2 == 0 ? O{x.get() + 1} : O{};
                    };
                    O const &c = *a.o;
                    auto r = how == 0   ? a.o->and_then(f)
                             : how == 1 ? c.and_then(f)
                             : how == 2 ? (*a.o | f)
                                        : (c | f);
                    gh = r.has_value();
                    got = r.value().get();
                });
                sim::event("and_then: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 1 : 0;
                if (o == outcome::ok) {
                    bool const eh = a.has and a.val % 2 == 0;
                    sim::require(gh == eh and (not gh or got == a.val + 1),
                                 "wrong-value", "and_then gave %d/%d", gh, got);
                }
                break;
            }
            case 12: {
                bool const rv = sim::choose(2) == 1;
                int got{};
                bool gh{};
                bool const give = sim::choose(2) == 0;
                o = elem::attempt(k, [&] {
                    auto f = [&] {
                        called(0);
                        return give ? O{v} : O{};
                    };
                    auto r = rv ? std::move(*a.o).or_else(f) : a.o->or_else(f);
                    gh = r.has_value();
                    got = r.value().get();
                });
                sim::event("or_else: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 0 : 1;
                calls_known = true;
                if (o == outcome::ok) {
                    sim::require(gh == (a.has or give) and
                                     (not gh or got == (a.has ? a.val : v)),
                                 "wrong-value", "or_else gave %d/%d", gh, got);
                    if (rv and a.has) {
                        sim::sut([&] { a.o->reset(); });
                        mark(a, false, 0);
                    }
                }
                break;
            }
            case 13: {
                int got{};
                bool gh{};
                o = elem::attempt(k, [&] {
                    auto r = stdx::transform(
                        [](T const &x, T const &y) {
                            called(x.get() + y.get());
                            return T{x.get() + y.get()};
                        },
                        *a.o, *b.o);
                    gh = r.has_value();
                    got = r.value().get();
                });
                sim::event("transform both: %s %d", elem::name_of(o), got);
                expect_calls = a.has and b.has ? 1 : 0;
                if (o == outcome::ok) {
                    sim::require(gh == (a.has and b.has) and
                                     (not gh or got == a.val + b.val),
                                 "wrong-value", "transform gave %d/%d", gh,
                                 got);
                }
                break;
            }
            case 14: {
                bool eq{}, lt{}, le{}, gt{}, ge{}, ne{};
                elem::attempt(0, [&] {
                    O const &x = *a.o;
                    O const &y = *b.o;
                    eq = x == y;
                    ne = x != y;
                    lt = x < y;
                    le = x <= y;
                    gt = x > y;
                    ge = x >= y;
                });
                std::optional<int> const x =
                    a.has ? std::optional{a.val} : std::nullopt;
                std::optional<int> const y =
                    b.has ? std::optional{b.val} : std::nullopt;
                sim::require(eq == (x == y) and ne == (x != y) and
                                 lt == (x < y) and le == (x <= y) and
                                 gt == (x > y) and ge == (x >= y),
                             "wrong-comparison", "comparison of %d and %d",
                             a.val, b.val);
                break;
            }
            case 15: { // a function that takes the value away
                int got{};
                o = elem::attempt(k, [&] {
                    auto r = std::move(*a.o).transform([](T &&x) {
                        called(x.get());
                        return T{std::move(x)};
                    });
                    got = r.value().get();
                });
                sim::event("transform rvalue: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 1 : 0;
                if (o == outcome::ok and a.has) {
                    sim::require(got == a.val, "wrong-value",
                                 "transform gave %d", got);
                    sim::sut([&] { a.o->reset(); });
                    mark(a, false, 0);
                }
                break;
            }
            case 16: { // several at once, given up or kept
                auto const how = sim::choose(3);
                int got{};
                bool gh{};
                o = elem::attempt(k, [&] {
                    auto f = [](auto &&x, auto &&y) {
                        called(x.get() + y.get());
                        T const mine{std::forward<decltype(x)>(x)};
                        return T{mine.get() + y.get()};
                    };
                    auto r = how == 0 ? stdx::transform(f, *a.o, *b.o)
                             : how == 1
                                 ? stdx::transform(f, std::move(*a.o), *b.o)
                                 : stdx::transform(f, std::as_const(*a.o),
                                                   std::move(*b.o));
                    gh = r.has_value();
                    got = r.value().get();
                });
                sim::event("transform two: %s %d", elem::name_of(o), got);
                expect_calls = a.has and b.has ? 1 : 0;
                if (o == outcome::ok) {
                    sim::require(gh == (a.has and b.has) and
                                     (not gh or got == a.val + b.val),
                                 "wrong-value", "transform gave %d/%d", gh,
                                 got);
                }
                if (how == 1 and a.has and b.has) {
                    // given up: moved from or still there
                    int const now = a.o->value().get();
                    sim::require(now == a.val or now == elem::moved_out,
                                 "wrong-value", "given up value is %d", now);
                    sim::sut([&] { a.o->reset(); });
                    mark(a, false, 0);
                }
                break;
            }
            case 17: { // the same over standard optionals
                std::optional<T> x{};
                std::optional<T> y{};
                bool const hx = sim::flip(2, 3);
                bool const hy = sim::flip(2, 3);
                if (hx) {
                    x.emplace(v);
                }
                if (hy) {
                    y.emplace(v + 5);
                }
                int got{};
                bool gh{};
                o = elem::attempt(k, [&] {
                    std::optional<T> r = stdx::transform(
                        [](T const &p, T const &q) {
                            called(p.get() + q.get());
                            return T{p.get() - 2 * q.get()};
                        },
                        x, std::as_const(y));
                    gh = r.has_value();
                    got = gh ? r->get() : 0;
                });
                sim::event("transform standard: %s %d", elem::name_of(o), got);
                expect_calls = hx and hy ? 1 : 0;
                if (o == outcome::ok) {
                    sim::require(gh == (hx and hy) and
                                     (not gh or got == v - 2 * (v + 5)),
                                 "wrong-value", "transform gave %d/%d", gh,
                                 got);
                }
                sim::require(x.has_value() == hx and y.has_value() == hy and
                                 (not hx or x->get() == v) and
                                 (not hy or y->get() == v + 5),
                             "wrong-value", "an input changed");
                break;
            }
            case 18: { // piped, given up
                auto const how = sim::choose(3);
                int got{};
                o = elem::attempt(k, [&] {
                    auto f = [](auto &&x) {
                        called(x.get());
                        return O{std::in_place, std::forward<decltype(x)>(x)};
                    };
                    O const &c = *a.o;
                    auto r = how == 0   ? std::move(*a.o) | f
                             : how == 1 ? std::move(c) | f
                                        : std::move(c).and_then(f);
                    got = r.value().get();
                });
                sim::event("pipe rvalue: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 1 : 0;
                sim::require(o != outcome::ok or not a.has or got == a.val,
                             "wrong-value", "pipe gave %d", got);
                if (how == 0 and a.has) {
                    int const now = a.o->value().get();
                    sim::require(now == a.val or now == elem::moved_out,
                                 "wrong-value", "given up value is %d", now);
                    sim::sut([&] { a.o->reset(); });
                    mark(a, false, 0);
                }
                break;
            }
            case 19: { // references to the value itself
                bool const up = sim::choose(2) == 1;
                O const &c = *a.o;
                bool same{};
                elem::attempt(0, [&] {
                    T &&x = up ? std::move(*a.o).value() : *std::move(*a.o);
                    T const &&y = up ? std::move(c).value() : *std::move(c);
                    same = &x == &y and &x == &c.value() and
                           &c.value() == c.operator->();
                });
                sim::require(same, "wrong-reference",
                             "the value is in two places");
                break;
            }
            default: { // and_then on an rvalue
                int got{};
                o = elem::attempt(k, [&] {
                    auto r = std::move(*a.o).and_then([](T &&x) {
                        called(x.get());
                        return O{std::in_place, std::move(x)};
                    });
                    got = r.value().get();
                });
                sim::event("and_then rvalue: %s %d", elem::name_of(o), got);
                expect_calls = a.has ? 1 : 0;
                if (o == outcome::ok and a.has) {
                    sim::require(got == a.val, "wrong-value",
                                 "and_then gave %d", got);
                    sim::sut([&] { a.o->reset(); });
                    mark(a, false, 0);
                }
                break;
            }
            }
            if (calls_known) {
                sim::require(calls.n == expect_calls, "wrong-calls",
                             "the function ran %d times, expected %d", calls.n,
                             expect_calls);
            }
            sim::sut([&] {
                must_be(*s[0].o, s[0].has, s[0].val, "first");
                must_be(*s[1].o, s[1].has, s[1].val, "second");
            });
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

enum class E : std::uint8_t { zero, one, two, none = 255 };
int cells[4]{};

template <typename T> struct scalar_kind;
template <> struct scalar_kind<float> {
    using opt = stdx::optional<float>;
    static auto val(u32 i) -> float {
        return static_cast<float>(i) * 1.5f - 100.0f;
    }
};
template <> struct scalar_kind<int> {
    using opt = stdx::optional<int, stdx::tombstone_value<-1>>;
    static auto val(u32 i) -> int { return static_cast<int>(i) * 7; }
};
template <> struct scalar_kind<int *> {
    using opt = stdx::optional<int *>;
    static auto val(u32 i) -> int * { return &cells[i % 4]; }
};
struct missing_cell { // here the null pointer is a value like any other
    auto operator()() const -> int * { return &cells[3]; }
};
template <> struct scalar_kind<int **> {
    using opt = stdx::optional<int *, missing_cell>;
    static auto val(u32 i) -> int * {
        return i % 3 == 0 ? nullptr : &cells[i % 3];
    }
};
struct missing_number {
    auto operator()() const -> double { return -1.0; }
};
template <> struct scalar_kind<double> {
    using opt = stdx::optional<double, missing_number>;
    static auto val(u32 i) -> double { return i * 0.25; }
};
template <> struct scalar_kind<bool> { // a small type with one value to spare
    using opt = stdx::optional<unsigned char, stdx::tombstone_value<2>>;
    static auto val(u32 i) -> unsigned char {
        return static_cast<unsigned char>(i % 2);
    }
};
template <> struct scalar_kind<E> {
    using opt = stdx::optional<E, stdx::tombstone_value<E::none>>;
    static auto val(u32 i) -> E { return static_cast<E>(i % 3); }
};

template <typename Kind> void scalar_history() {
    using K = scalar_kind<Kind>;
    using O = typename K::opt;
    using T = typename O::value_type;
    auto o = sim::make_default<O>();
    std::optional<T> m{};
    for (u32 i = 0, most = sim::lengthy(12); sim::more(i, most); ++i) {
        T const v = K::val(sim::choose(9));
        calls = {};
        u32 expect_calls = 0;
        outcome r{};
        u32 const k = sim::maybe(1, 4, 1);
        switch (sim::choose(6)) {
        case 0:
            sim::sut([&] { *o = v; });
            m = v;
            break;
        case 1:
            sim::sut([&] { o->emplace(v); });
            m = v;
            break;
        case 2:
            if (sim::choose(2) == 0) {
                sim::sut([&] { o->reset(); });
            } else {
                sim::sut([&] { *o = std::nullopt; });
            }
            m.reset();
            break;
        case 3: {
            T got{};
            sim::sut([&] { got = o->value_or(v); });
            sim::require(got == m.value_or(v), "wrong-value", "value_or");
            break;
        }
        case 4: {
            expect_calls = m.has_value() ? 1 : 0;
            bool gh{};
            r = elem::attempt(k, [&] {
                auto x = o->and_then([&](T const &t) {
                    called(0);
                    return O{t};
                });
                gh = x == *o;
            });
            sim::require(r != outcome::ok or gh, "wrong-value", "and_then");
            break;
        }
        default: {
            expect_calls = m.has_value() ? 0 : 1;
            bool gh{};
            r = elem::attempt(k, [&] {
                auto x = o->or_else([&] {
                    called(0);
                    return O{v};
                });
                gh = x.has_value() and *x == (m ? *m : v);
            });
            sim::require(r != outcome::ok or gh, "wrong-value", "or_else");
            break;
        }
        }
        sim::event("step");
        sim::require(calls.n == expect_calls, "wrong-calls",
                     "the function ran %d times, expected %d", calls.n,
                     expect_calls);
        bool ok{};
        sim::sut([&] {
            ok = o->has_value() == m.has_value() and (not m or **o == *m);
        });
        sim::require(ok, "wrong-value", "state differs");
    }
    sim::nontrivial();
}

void scalars() {
    switch (sim::choose(7)) {
    case 4:
        return scalar_history<int **>();
    case 5:
        return scalar_history<double>();
    case 6:
        return scalar_history<bool>();
    case 0:
        return scalar_history<int>();
    case 1:
        return scalar_history<float>();
    case 2:
        return scalar_history<int *>();
    default:
        return scalar_history<E>();
    }
}

// -------------------------- a tuple of values, handed over piece by piece
// (moves do not fail here: the empty state itself is made by moving)
void pieces() {
    using T = thing<false>;
    using P = std::tuple<T, T>;
    using O = stdx::optional<P>;
    elem::reset_ledger();
    {
        auto o = sim::make_default<O>();
        bool has = false;
        int x = 0;
        int y = 0;
        int next = 0;
        for (u32 i = 0, most = sim::lengthy(8); sim::more(i, most); ++i) {
            u32 const k = sim::maybe(1, 3, 4);
            calls = {};
            u32 expect_calls = 0;
            next = (next + 1) % 500 + 1;
            u32 const what = sim::choose(6);
            outcome r{};
            int gx{};
            int gy{};
            bool gh{};
            auto const given = [&](auto const &p, auto const &q) {
                gx = p.get();
                gy = q.get();
                called(gx);
            };
            switch (what) {
            case 0:
            case 1:
                r = elem::attempt(k, [&] {
                    if (what == 0) {
                        o->emplace(T{next}, T{next + 1});
                    } else {
                        *o = O{P{T{next}, T{next + 1}}};
                    }
                });
                if (r == outcome::ok) {
                    has = true;
                    x = next;
                    y = next + 1;
                } else if (what == 1) {
                    // a whole assignment may fail between the pieces
                    sim::sut([&] { o->reset(); });
                    has = false;
                } else {
                    has = has and o->has_value();
                }
                break;
            case 2:
                sim::sut([&] { o->reset(); });
                has = false;
                break;
            case 3:
                r = elem::attempt(k, [&] {
                    auto t = std::as_const(*o).transform([&](auto &&...e) {
                        given(e...);
                        return T{gx + gy};
                    });
                    gh = t.has_value();
                });
                expect_calls = has ? 1 : 0;
                sim::require(r != outcome::ok or gh == has, "wrong-state",
                             "transform of pieces gave %d", gh);
                break;
            case 4:
                r = elem::attempt(k, [&] {
                    auto t = o->and_then([&](auto &&...e) {
                        given(e...);
                        return stdx::optional<T>{std::in_place, gx + gy};
                    });
                    gh = t.has_value();
                });
                expect_calls = has ? 1 : 0;
                sim::require(r != outcome::ok or gh == has, "wrong-state",
                             "and_then of pieces gave %d", gh);
                break;
            default:
                r = elem::attempt(k, [&] {
                    auto t = std::move(*o).transform([&](auto &&p, auto &&q) {
                        given(p, q);
                        return P{std::forward<decltype(p)>(p),
                                 std::forward<decltype(q)>(q)};
                    });
                    gh = t.has_value();
                });
                expect_calls = has ? 1 : 0;
                if (has) {
                    sim::require(calls.n != 1 or (gx == x and gy == y),
                                 "wrong-value", "pieces %d, %d", gx, gy);
                    sim::sut([&] { o->reset(); });
                    has = false;
                    gx = x;
                    gy = y;
                }
                break;
            }
            sim::event("pieces %d: %s", what, elem::name_of(r));
            sim::require(calls.n == expect_calls, "wrong-calls",
                         "the function ran %d times, expected %d", calls.n,
                         expect_calls);
            sim::require(calls.n == 0 or (gx == x and gy == y), "wrong-value",
                         "the function got %d, %d", gx, gy);
            sim::require(o->has_value() == has, "wrong-state",
                         "has_value is %d, expected %d", o->has_value(), has);
            if (has) {
                auto const &t = o->value();
                sim::require(std::get<0>(t).get() == x and
                                 std::get<1>(t).get() == y,
                             "wrong-value", "holds %d, %d",
                             std::get<0>(t).get(), std::get<1>(t).get());
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}
// ------------------------------- what the caller keeps and what it gives up
// l, L: kept (L: and promised not to change); r, R: given up
template <typename X> constexpr auto cat_of() -> char {
    constexpr bool c = std::is_const_v<std::remove_reference_t<X>>;
    return std::is_lvalue_reference_v<X> ? (c ? 'L' : 'l') : (c ? 'R' : 'r');
}
// something a value can be made from, or be assigned from
struct source {
    int n{};
    bool taken{};
};
struct made_from : elem::item {
    explicit(false) made_from(int v) : elem::item{v} {}
    explicit(false) made_from(source const &s) : elem::item{s.n} {}
    explicit(false) made_from(source &&s) : elem::item{s.n} { s.taken = true; }
    made_from(made_from const &) = default;
    made_from(made_from &&) = default;
    auto operator=(made_from const &) -> made_from & = default;
    auto operator=(made_from &&) -> made_from & = default;
    auto operator=(source const &s) -> made_from & {
        set(s.n);
        return *this;
    }
    auto operator=(source &&s) -> made_from & {
        set(s.n);
        s.taken = true;
        return *this;
    }
    ~made_from() = default;
};
} // namespace

template <> struct stdx::tombstone_traits<made_from> {
    auto operator()() const { return made_from{empty_mark}; }
};

namespace {
void given_up() {
    using T = made_from;
    using O = stdx::optional<T>;
    using P = std::tuple<T, T>;
    using OP = stdx::optional<P>;
    elem::reset_ledger();
    {
        for (u32 i = 0, most = sim::lengthy(8); sim::more(i, most); ++i) {
            u32 const k = sim::maybe(1, 6, 2);
            int const v = 1 + static_cast<int>(sim::choose(400));
            bool const has = sim::flip(3, 4);
            u32 const how = sim::choose(4); // l, L, r, R
            char const want = "lLrR"[how];
            u32 const what = sim::choose(9);
            auto o = sim::make_default<O>();
            auto op = sim::make_default<OP>();
            if (has) {
                sim::sut([&] {
                    o->emplace(v);
                    op->emplace(v, v + 1);
                });
            }
            T x{v + 2};
            source s{v + 3};
            char seen = '-';
            char seen2 = '-';
            int got = 0;
            bool result = false;
            outcome r{};
            bool copies_ok = false; // the call may copy
            auto const before = elem::ledger.copies;
            // calls f with the given object in the drawn category
            auto const with = [&](auto &&obj, auto &&f) {
                switch (how) {
                case 0:
                    return f(obj);
                case 1:
                    return f(std::as_const(obj));
                case 2:
                    return f(std::move(obj));
                default:
                    return f(std::move(std::as_const(obj)));
                }
            };
            auto const note = [&]<typename A>(A &&a) {
                seen = cat_of<A &&>();
                got = a.get();
            };
            switch (what) {
            case 0: // construction from a value
                copies_ok = how != 2;
                r = elem::attempt(k, [&] {
                    with(x, [&]<typename X>(X &&t) {
                        O c{std::forward<X>(t)};
                        got = c.value().get();
                        result = c.has_value();
                    });
                });
                sim::require(
                    r != outcome::ok or
                        (result and got == v + 2 and
                         x.get() == (how == 2 ? elem::moved_out : v + 2)),
                    "wrong-value", "constructed %d from %d", got, x.get());
                break;
            case 1: // in place, from something a value can be made from
            case 2: {
                bool const assign = what == 2;
                r = elem::attempt(k, [&] {
                    with(s, [&]<typename X>(X &&t) {
                        if (assign) {
                            *o = std::forward<X>(t);
                            got = o->value().get();
                        } else {
                            O c{std::in_place, std::forward<X>(t)};
                            got = c.value().get();
                            o->emplace(std::forward<X>(t));
                        }
                    });
                });
                sim::require(r == outcome::ok and got == v + 3 and
                                 o->value().get() == v + 3 and s.n == v + 3 and
                                 s.taken == (how == 2),
                             "wrong-value", "made %d, source taken: %d", got,
                             s.taken);
                break;
            }
            case 3: { // in place, from a value
                copies_ok = how != 2;
                bool const fresh = sim::flip(1, 2);
                r = elem::attempt(k, [&] {
                    with(x, [&]<typename X>(X &&t) {
                        if (fresh) {
                            O const c{std::in_place, std::forward<X>(t)};
                            got = c.value().get();
                        } else {
                            o->emplace(std::forward<X>(t));
                            got = o->value().get();
                        }
                    });
                });
                sim::require(
                    r != outcome::ok or
                        (got == v + 2 and
                         x.get() == (how == 2 ? elem::moved_out : v + 2)),
                    "wrong-value", "emplaced %d from %d", got, x.get());
                break;
            }
            case 4: { // the fallback value, given up or kept, of an optional
                      // given up or kept
                bool const up = sim::choose(2) == 1;
                copies_ok = has ? not up : how != 2;
                r = elem::attempt(k, [&] {
                    with(x, [&]<typename X>(X &&t) {
                        T y = up ? std::move(*o).value_or(std::forward<X>(t))
                                 : o->value_or(std::forward<X>(t));
                        got = y.get();
                    });
                });
                sim::require(
                    r != outcome::ok or
                        (got == (has ? v : v + 2) and
                         x.get() ==
                             (has or how != 2 ? v + 2 : elem::moved_out) and
                         (not has or
                          o->value().get() == (up ? elem::moved_out : v))),
                    "wrong-value", "value_or gave %d", got);
                break;
            }
            case 5: // chained calls see the value as the caller offered it
            case 6: {
                u32 const form = sim::choose(4);
                r = elem::attempt(k, [&] {
                    with(*o, [&]<typename X>(X &&t) {
                        auto const f = [&]<typename A>(A &&a) {
                            note(std::forward<A>(a));
                            return O{1};
                        };
                        auto const g = [&]<typename A>(A &&a) {
                            note(std::forward<A>(a));
                            return T{1};
                        };
                        if (form == 0) {
                            result =
                                std::forward<X>(t).transform(g).has_value();
                        } else if (form == 1) {
                            result = std::forward<X>(t).and_then(f).has_value();
                        } else if (form == 2) {
                            result = (std::forward<X>(t) | f).has_value();
                        } else {
                            result = stdx::transform(g, std::forward<X>(t))
                                         .has_value();
                        }
                    });
                });
                sim::require(
                    r == outcome::ok and result == has and
                        (has ? seen == want and got == v : seen == '-') and
                        o->has_value() == has,
                    "wrong-category", "the function saw %c, expected %c", seen,
                    want);
                break;
            }
            case 7: { // the fallback form
                copies_ok = how != 2;
                r = elem::attempt(k, [&] {
                    with(*o, [&]<typename X>(X &&t) {
                        auto c = std::forward<X>(t).or_else([&] {
                            seen = 'f';
                            return O{v + 5};
                        });
                        got = c.value().get();
                    });
                });
                sim::require(
                    r != outcome::ok or
                        (got == (has ? v : v + 5) and
                         seen == (has ? '-' : 'f') and
                         (not has or o->value().get() ==
                                         (how == 2 ? elem::moved_out : v))),
                    "wrong-value", "or_else gave %d", got);
                break;
            }
            default: { // pieces are offered as their whole was
                u32 const form = sim::choose(3);
                r = elem::attempt(k, [&] {
                    with(*op, [&]<typename X>(X &&t) {
                        auto const f = [&]<typename A, typename B>(A &&a,
                                                                   B &&b) {
                            note(std::forward<A>(a));
                            seen2 = cat_of<B &&>();
                            sim::require(b.get() == v + 1, "wrong-value",
                                         "second piece is %d", b.get());
                            return O{1};
                        };
                        auto const g = [&]<typename A, typename B>(A &&a,
                                                                   B &&b) {
                            return f(std::forward<A>(a), std::forward<B>(b))
                                .value();
                        };
                        if (form == 0) {
                            result =
                                std::forward<X>(t).transform(g).has_value();
                        } else if (form == 1) {
                            result = std::forward<X>(t).and_then(f).has_value();
                        } else {
                            result = (std::forward<X>(t) | f).has_value();
                        }
                    });
                });
                sim::require(
                    r != outcome::ok or
                        (result == has and
                         (has ? seen == want and seen2 == want and got == v
                              : seen == '-')),
                    "wrong-category", "the function saw %c and %c, expected %c",
                    seen, seen2, want);
                break;
            }
            }
            sim::event("given %c, %d: %s", want, what, elem::name_of(r));
            sim::require(copies_ok or elem::ledger.copies == before,
                         "needless-copy",
                         "%d copies of values that were given up",
                         static_cast<int>(elem::ledger.copies - before));
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}
sim::scenario const scenarios[] = {
    {"objects", 4, object_history<false>},
    {"objects_failing_moves", 4, object_history<true>},
    {"large_objects", 1, object_history<false, 70>},
    {"large_objects_failing_moves", 1, object_history<true, 70>},
    {"scalars", 1, scalars},
    {"pieces", 2, pieces},
    {"given_up", 2, given_up},
};
} // namespace

sim::property_def const sim::the_property = {
    "C16",
    "Each run draws an element kind and a history of up to 20 (rarely 1500) "
    "constructions, "
    "emplacements, assignments, resets, copies, moves, comparisons and chained "
    "calls over two optionals; in a third of the calls the k-th constructor, "
    "copy, move or user function fails. After every call both optionals are "
    "compared with a model (after a failed replacement: unchanged or empty), "
    "user function calls are counted, and object lifetimes are tracked by "
    "address. Non-trivial: the history ran to its end. Distinct: hash of all "
    "choices and results.",
    "stdx::optional, stdx::transform for optionals, stdx::with_result_of",
    "value type with failing operations and lifetime ledger, user functions",
    scenarios,
    7,
    15000000,
    45000000,
};
