#include "../sim/elem.hpp"

#include <stdx/cached.hpp>
#include <stdx/latched.hpp>

#include <functional>

namespace {
using elem::outcome;
using u32 = std::uint32_t;

// a value that can be neither copied nor moved
class pinned {
    elem::item i;

  public:
    explicit pinned(int v) : i{v} {}
    pinned(pinned &&) = delete;
    [[nodiscard]] auto get() const -> int { return i.get(); }
};

struct computer {
    u32 calls{};
    int last{};
    std::function<bool()> visible{}; // does the holder show a value?
};
computer *cur{};

template <typename T> struct build {
    auto operator()() const -> T {
        int v{};
        {
            sim::host_scope const h{};
            ++cur->calls;
            if (cur->visible) {
                sim::require(not cur->visible(), "early-value",
                             "a value is visible before it was computed");
            }
            if (sim::fault_point("computation")) {
                throw sim::fault_t{3};
            }
            v = ++cur->last;
        }
        return T{v};
    }
};
// fails after the value object has been built
template <typename T> struct late_build {
    struct wrap {
        T t;
        explicit wrap(int v) : t{v} {
            sim::host_scope const h{};
            if (sim::fault_point("late_computation")) {
                throw sim::fault_t{4};
            }
        }
        wrap(wrap const &) = default;
        wrap(wrap &&) = default;
        [[nodiscard]] auto get() const -> int { return t.get(); }
    };
    auto operator()() const -> wrap {
        int v{};
        {
            sim::host_scope const h{};
            ++cur->calls;
            if (cur->visible) {
                sim::require(not cur->visible(), "early-value",
                             "a value is visible before it was computed");
            }
            v = ++cur->last;
        }
        return wrap{v};
    }
};

template <typename H>
constexpr bool refreshable = requires(H h) { h.refresh(); };

template <typename H, bool Copyable> void history() {
    elem::reset_ledger();
    computer comp{};
    cur = &comp;
    {
        using F = std::remove_cvref_t<decltype(std::declval<H>())>;
        auto h = sim::make<F>(typename F::func_type{});
        bool has = false;
        int val = 0;
        void const *where = nullptr;
        auto show = [&] {
            sim::require(h->has_value() == has and static_cast<bool>(*h) == has,
                         "wrong-state", "holder has_value=%d, expected %d",
                         h->has_value(), has);
        };
        bool const often = sim::flip(1, 8);
        for (u32 i = 0, most = sim::lengthy(20); sim::more(i, most); ++i) {
            u32 const k = often ? sim::maybe(15, 16, 1) : sim::maybe(1, 3, 1);
            u32 const calls = comp.calls;
            outcome o{};
            u32 expect = 0;
            switch (sim::choose(Copyable ? 9 : 7)) {
            case 0:
            case 1:
            case 2:
            case 3: { // read
                auto const how = sim::choose(6);
                int got{};
                void const *at = nullptr;
                comp.visible = [&] { return h->has_value(); };
                o = elem::attempt(has ? 0 : k, [&] {
                    F const &c = *h;
                    switch (how) {
                    case 0: {
                        auto const &v = h->value();
                        at = &v;
                        got = v.get();
                        break;
                    }
                    case 1: {
                        auto const &v = **h;
                        at = &v;
                        got = v.get();
                        break;
                    }
                    case 2:
                        at = c.operator->();
                        got = c->get();
                        break;
                    case 3: {
                        auto const &&v = std::move(c).value();
                        at = &v;
                        got = v.get();
                        break;
                    }
                    case 4: {
                        auto const &&v = *std::move(*h);
                        at = &v;
                        got = v.get();
                        break;
                    }
                    default: {
                        auto const &v = c.value();
                        at = &v;
                        got = v.get();
                        break;
                    }
                    }
                });
                comp.visible = nullptr;
                expect = has ? 0 : 1;
                sim::event("read: %s %d", elem::name_of(o), got);
                if (o == outcome::ok) {
                    if (has) {
                        sim::require(got == val and at == where,
                                     "unstable-value",
                                     "read %d, expected %d (same object: %d)",
                                     got, val, at == where);
                    } else {
                        sim::require(got == comp.last, "wrong-value",
                                     "read %d, computed %d", got, comp.last);
                        has = true;
                        val = got;
                        where = at;
                    }
                }
                break;
            }
            case 4: // query only
                elem::attempt(0, [&] { show(); });
                sim::event("query");
                break;
            case 5:
                if constexpr (refreshable<F>) {
                    elem::attempt(0, [&] { h->reset(); });
                    sim::event("reset");
                    has = false;
                }
                break;
            case 6:
                if constexpr (refreshable<F>) {
                    int got{};
                    void const *at = nullptr;
                    o = elem::attempt(k, [&] {
                        auto &v = h->refresh();
                        at = &v;
                        got = v.get();
                    });
                    expect = 1;
                    sim::event("refresh: %s %d", elem::name_of(o), got);
                    has = o == outcome::ok;
                    if (has) {
                        sim::require(got == comp.last, "wrong-value",
                                     "refreshed to %d, computed %d", got,
                                     comp.last);
                        val = got;
                        where = at;
                    }
                }
                break;
            case 7:
                if constexpr (Copyable) { // continue with a copy
                    sim::box<F> c{};
                    o = elem::attempt(k, [&] { c = sim::make<F>(*h); });
                    sim::event("copy: %s", elem::name_of(o));
                    sim::require(comp.calls == calls, "extra-computation",
                                 "copying ran the computation");
                    show();
                    if (o == outcome::ok) {
                        sim::require(c->has_value() == has, "wrong-state",
                                     "copy has_value=%d, expected %d",
                                     c->has_value(), has);
                        if (has) {
                            sim::require(c->value().get() == val, "wrong-value",
                                         "copy differs");
                            where = &c->value();
                        }
                        h = std::move(c);
                    }
                }
                break;
            default:
                if constexpr (Copyable) { // continue with what it moved to
                    sim::box<F> c{};
                    o = elem::attempt(0,
                                      [&] { c = sim::make<F>(std::move(*h)); });
                    sim::event("move");
                    h = std::move(c);
                    if (has) {
                        sim::require(h->has_value() and h->value().get() == val,
                                     "wrong-value", "move changed the value");
                        where = &h->value();
                    }
                }
                break;
            }
            sim::require(comp.calls - calls == expect,
                         comp.calls - calls > expect ? "extra-computation"
                                                     : "missing-computation",
                         "computation ran %d times, expected %d",
                         comp.calls - calls, expect);
            show();
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// values that are plain data, among them those that look like nothing
template <typename T> struct plain_build {
    auto operator()() const -> T {
        sim::host_scope const h{};
        ++cur->calls;
        if (sim::fault_point("computation")) {
            throw sim::fault_t{3};
        }
        cur->last = static_cast<int>(sim::choose(3));
        return value(cur->last);
    }
    static auto value(int v) -> T {
        if constexpr (std::is_pointer_v<T>) {
            static std::remove_pointer_t<T> places[2]{};
            return v == 0 ? nullptr : &places[v - 1];
        } else if constexpr (std::is_same_v<T, bool>) {
            return v == 2;
        } else {
            return static_cast<T>(v);
        }
    }
};
template <template <typename> typename H, typename T> void plain_history() {
    computer comp{};
    cur = &comp;
    using F = plain_build<T>;
    auto h = sim::make<H<F>>(F{});
    bool has = false;
    T val{};
    bool const often = sim::flip(1, 8);
    for (u32 i = 0, most = sim::lengthy(20); sim::more(i, most); ++i) {
        u32 const k = often ? sim::maybe(15, 16, 1) : sim::maybe(1, 3, 1);
        u32 const calls = comp.calls;
        u32 expect = 0;
        T got{};
        switch (sim::choose(6)) {
        case 0:
        case 1:
        case 2: {
            u32 const how = sim::choose(3);
            auto const o = elem::attempt(has ? 0 : k, [&] {
                auto const &c = *h;
                got = how == 0 ? h->value() : how == 1 ? *c : *c.operator->();
            });
            expect = has ? 0 : 1;
            sim::event("read: %s", elem::name_of(o));
            if (o == outcome::ok) {
                val = has ? val : F::value(comp.last);
                has = true;
                sim::require(got == val, "wrong-value",
                             "a value was read that was not computed");
            }
            break;
        }
        case 3:
            if constexpr (refreshable<H<F>>) {
                sim::sut([&] { h->reset(); });
                sim::event("reset");
                has = false;
            }
            break;
        case 4:
            if constexpr (refreshable<H<F>>) {
                auto const o = elem::attempt(k, [&] { got = h->refresh(); });
                sim::event("refresh: %s", elem::name_of(o));
                expect = 1;
                has = o == outcome::ok;
                if (has) {
                    val = F::value(comp.last);
                    sim::require(got == val, "wrong-value",
                                 "refreshed to another value");
                }
            }
            break;
        default: {
            auto c = sim::make<H<F>>(*h);
            sim::event("copy");
            h = std::move(c);
            break;
        }
        }
        sim::require(comp.calls - calls == expect,
                     comp.calls - calls > expect ? "extra-computation"
                                                 : "missing-computation",
                     "computation ran %d times, expected %d",
                     comp.calls - calls, expect);
        sim::require(h->has_value() == has and static_cast<bool>(*h) == has,
                     "wrong-state", "holder has_value=%d, expected %d",
                     h->has_value(), has);
    }
    sim::nontrivial();
}
template <template <typename> typename H> void plain_values() {
    switch (sim::choose(7)) {
    case 0:
        return plain_history<H, bool>();
    case 1:
        return plain_history<H, int>();
    case 2:
        return plain_history<H, std::uint8_t>();
    case 3:
        return plain_history<H, double>();
    case 4:
        return plain_history<H, int *>();
    case 5:
        return plain_history<H, elem::block>();
    default:
        return plain_history<H, elem::record>();
    }
}

template <typename F> struct lat : stdx::latched<F> {
    using func_type = F;
    using stdx::latched<F>::latched;
};
template <typename F> struct cac : stdx::cached<F> {
    using func_type = F;
    using stdx::cached<F>::cached;
};
sim::scenario const scenarios[] = {
    {"latched", 2, history<lat<build<elem::item>>, true>},
    {"cached", 3, history<cac<build<elem::item>>, true>},
#ifndef SIM_WITHOUT_IMMOVABLE
    {"latched_pinned", 1, history<lat<build<pinned>>, false>},
    {"cached_pinned", 2, history<cac<build<pinned>>, false>},
#endif
    {"latched_plain_values", 1, plain_values<stdx::latched>},
    {"cached_plain_values", 1, plain_values<stdx::cached>},
    {"latched_large", 1, history<lat<build<elem::heavy>>, true>},
    {"cached_large", 1, history<cac<build<elem::heavy>>, true>},
    {"latched_late_failure", 1, history<lat<late_build<elem::item>>, true>},
    {"cached_late_failure", 2, history<cac<late_build<elem::item>>, true>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C07",
    "Each run draws a holder (one-shot or resettable; copyable, large, "
    "pinned or plain value) and a history of up to 20 (rarely 1500) reads (six "
    "ways), queries, resets, "
    "refreshes, copies and moves; in a third of the computations the user's "
    "function fails, before or after building its result. Calls of the "
    "computation, the identity and value of the object and the lifetime "
    "ledger are checked after every step. Non-trivial: the history ran to its "
    "end. Distinct: hash of all choices and results.",
    "stdx::latched, stdx::cached, stdx::with_result_of",
    "the computation (may fail), value types with lifetime ledger",
    scenarios,
    sizeof(scenarios) / sizeof(scenarios[0]),
    24000000,
    72000000,
};
