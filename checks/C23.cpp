#include "../sim/elem.hpp"

#include <stdx/cx_queue.hpp>
#include <stdx/panic.hpp>

#include <algorithm>
#include <array>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace {
using u32 = std::uint32_t;
using elem::item;

struct key_a;
struct key_b;
struct key_c;
struct no_handler; // nobody installs a handler for this one

struct thrown { // what a failing handler throws
    u32 id;
};

struct arg {
    void const *where{};
    bool lvalue{};
    bool constant{};
    long value{};
};
struct call {
    int key{};    // handler key: 0, 1 (a), 2 (a, b), 3 (b, a, c, a)
    bool fixed{}; // reason known when compiled
    std::string why{};
    std::vector<arg> args{};
};
struct pending_call { // a panic that was raised and what became of it
    call expected;
    u32 handled{};
    u32 id{};    // what the handler threw
    bool take{}; // the handler moves from its last argument
    bool must_throw{};
    bool place{}; // whether the places of the arguments are known
};

struct world {
    std::array<std::vector<pending_call *>, 8> stack{}; // per thread
    std::array<u32, 4> calls{};
    u32 ids{};
    u32 raised{};
    u32 budget{};    // panics that may still be raised
    u32 nesting{5};  // of 16: handlers that panic themselves
    u32 throwing{5}; // of 16: handlers that fail
    u32 evaluated{};
    int *cell{};
};
world *w{};

void raise_one(bool nested);

template <typename T> auto describe(T &&t) -> arg {
    arg a{};
    using B = std::remove_cvref_t<T>;
    a.lvalue = std::is_lvalue_reference_v<T>;
    a.constant = std::is_const_v<std::remove_reference_t<T>>;
    a.where = static_cast<void const *>(std::addressof(t));
    if constexpr (std::is_same_v<B, item>) {
        a.value = t.get();
    } else if constexpr (std::is_arithmetic_v<B>) {
        a.value = static_cast<long>(t);
    }
    return a;
}
template <typename T> void take_from(T &&t) {
    if constexpr (std::is_same_v<T, item>) { // a non-const rvalue
        item const stolen{std::move(t)};
        (void)stolen;
    }
}

// what every installed handler does
template <typename... Ts>
void handle(int key, bool fixed, std::string_view why, Ts &&...ts) {
    pending_call *p{};
    {
        sim::host_scope const h{};
        ++w->calls[static_cast<std::size_t>(key)];
        auto &st = w->stack[static_cast<std::size_t>(sim::self())];
        sim::require(not st.empty() and st.back() != nullptr, "invented-panic",
                     "a handler ran and nobody panicked");
        p = st.back();
        auto const &e = p->expected;
        sim::event("T%d handler %d called, %d arguments", sim::self(), key,
                   sizeof...(Ts));
        sim::require(++p->handled == 1, "repeated-panic",
                     "the handler ran %d times for one panic", p->handled);
        sim::require(key == e.key, "wrong-handler",
                     "handler %d ran, handler %d is installed", key, e.key);
        sim::require(fixed == e.fixed and why == e.why, "wrong-reason",
                     "the handler was given another reason");
        sim::require(sizeof...(Ts) == e.args.size(), "wrong-arguments",
                     "%d arguments instead of %d", sizeof...(Ts),
                     e.args.size());
        std::size_t i = 0;
        [[maybe_unused]] auto const one = [&](arg const &a) {
            auto const &x = e.args[i++];
            sim::require(a.value == x.value, "wrong-arguments",
                         "argument %d is %d instead of %d", i - 1, a.value,
                         x.value);
            sim::require(
                not p->place or (a.where == x.where and a.lvalue == x.lvalue and
                                 a.constant == x.constant),
                "wrong-arguments", "argument %d is not what was passed", i - 1);
        };
        (one(describe<Ts>(static_cast<Ts &&>(ts))), ...);
    }
    sim::yield();
    if (w->stack[static_cast<std::size_t>(sim::self())].size() < 60 and
        sim::flip(w->nesting, 16)) {
        sim::probe("panic in a handler");
        raise_one(true);
    }
    sim::yield();
    sim::host_scope const h{};
    if (p->take) {
        (take_from<Ts>(static_cast<Ts &&>(ts)), ...);
    }
    if (p->must_throw or sim::flip(w->throwing, 16)) {
        p->id = ++w->ids;
        sim::fault("handler_failure");
        sim::event("FAULT handler throws %d", p->id);
        throw thrown{p->id};
    }
}

template <int Key> struct handler {
    u32 calls{}; // its own state

    void count() {
        sim::host_scope const h{}; // not a preemption point
        ++calls;
    }

    template <typename Why, typename... Ts>
        requires std::is_convertible_v<Why, std::string_view>
    auto panic(Why &&why, Ts &&...ts) -> void {
        count();
        handle(Key, false, std::string_view{why}, static_cast<Ts &&>(ts)...);
    }
    template <typename... Ts> auto panic(Ts &&...) -> void {
        sim::fail("wrong-reason", "the handler was given no reason");
    }
    template <stdx::ct_string Why, typename... Ts>
    auto panic(Ts &&...ts) -> void {
        count();
        handle(Key, true, std::string_view{Why}, static_cast<Ts &&>(ts)...);
    }
};
} // namespace

template <> inline auto stdx::panic_handler<> = handler<0>{};
template <> inline auto stdx::panic_handler<key_a> = handler<1>{};
template <> inline auto stdx::panic_handler<key_a, key_b> = handler<2>{};
template <>
inline auto stdx::panic_handler<key_b, key_a, key_c, key_a> = handler<3>{};

namespace {
// Raises the panic with the expectation in place and checks its outcome.
template <typename F>
void raise_with(pending_call &p, F &&f, u32 expected_calls = 1) {
    auto &st = w->stack[static_cast<std::size_t>(sim::self())];
    st.push_back(&p);
    ++w->raised;
    bool failed = false;
    u32 id{};
    try {
        sim::sut_scope const s{};
        f();
    } catch (thrown const &t) {
        failed = true;
        id = t.id;
    }
    sim::require(st.back() == &p, "corrupt-nesting", "panics came unnested");
    st.pop_back();
    sim::require(p.handled == expected_calls, "missing-panic",
                 "the handler ran %d times, expected %d", p.handled,
                 expected_calls);
    sim::require(failed == (p.id != 0) and id == p.id, "swallowed-failure",
                 "the handler threw %d, the caller saw %d", p.id, id);
}

template <typename T> auto as_lvalue(T &t) -> arg {
    return {std::addressof(t), true, std::is_const_v<T>, describe(t).value};
}
template <typename T> auto as_rvalue(T &t) -> arg {
    return {std::addressof(t), false, std::is_const_v<T>, describe(t).value};
}

void raise_one(bool nested) {
    sim::host_scope const host{};
    if (w->budget == 0) {
        return;
    }
    --w->budget;
    using namespace stdx::ct_string_literals;
    pending_call p{};
    p.take = sim::flip(1, 3);
    p.place = true;
    u32 const kind = sim::choose(25);
    sim::event("T%d panics, kind %d%s", sim::self(), kind,
               nested ? " (nested)" : "");
    item x{static_cast<int>(10 + sim::choose(50))};
    item const c{static_cast<int>(100 + sim::choose(50))};
    int n = static_cast<int>(sim::choose(1000));
    auto const xv = x.get();
    bool rvalue_item = false;
    auto const expect = [&](int key, bool fixed, char const *why,
                            std::vector<arg> args = {}) {
        p.expected = {key, fixed, why, std::move(args)};
    };
    switch (kind) {
    case 0:
        expect(0, true, "plain");
        raise_with(p, [] { STDX_PANIC("plain"); });
        break;
    case 1:
        expect(0, false, "run time");
        raise_with(p, [] { stdx::panic("run time"); });
        break;
    case 2:
        expect(0, false, "lvalues", {as_lvalue(x), as_lvalue(c)});
        raise_with(p, [&] { stdx::panic("lvalues", x, c); });
        break;
    case 3:
        rvalue_item = true;
        expect(0, false, "rvalue", {as_lvalue(n), as_rvalue(x)});
        raise_with(p, [&] { stdx::panic("rvalue", n, std::move(x)); });
        break;
    case 4:
        expect(0, true, "fixed");
        raise_with(p, [] { stdx::panic<"fixed"_cts>(); });
        break;
    case 5:
        expect(0, true, "fixed args", {as_lvalue(x), as_lvalue(n)});
        raise_with(p, [&] { stdx::panic<"fixed args"_cts>(x, n); });
        break;
    case 6:
        rvalue_item = true;
        expect(0, true, "fixed rvalue", {as_rvalue(x)});
        raise_with(p, [&] { stdx::panic<"fixed rvalue"_cts>(std::move(x)); });
        break;
    case 7:
        expect(1, false, "keyed", {as_lvalue(c)});
        raise_with(p, [&] { stdx::panic<key_a>("keyed", c); });
        break;
    case 8:
        rvalue_item = true;
        expect(1, true, "keyed fixed", {as_rvalue(x), as_rvalue(c)});
        raise_with(p, [&] {
            stdx::panic<"keyed fixed"_cts, key_a>(std::move(x), std::move(c));
        });
        break;
    case 9:
        expect(2, false, "two keys", {as_lvalue(n)});
        raise_with(p, [&] { stdx::panic<key_a, key_b>("two keys", n); });
        break;
    case 10:
        expect(2, true, "two keys fixed");
        raise_with(p,
                   [] { stdx::panic<"two keys fixed"_cts, key_a, key_b>(); });
        break;
    case 11: // a temporary made for the call
        rvalue_item = true;
        expect(1, false, "temporary", {as_rvalue(x)});
        raise_with(p, [&] {
            stdx::panic<key_a>(std::string_view{"temporary"},
                               static_cast<item &&>(x));
        });
        break;
    case 12: { // through the macro, with an argument that has a side effect
        if (w->cell == nullptr) {
            int mine = n;
            w->cell = &mine;
            w->evaluated = 0;
            p.place = false;
            expect(0, true, "macro", {arg{nullptr, false, false, n}});
            raise_with(p, [] {
                STDX_PANIC("macro", (++w->evaluated, int{*w->cell}));
            });
            w->cell = nullptr;
            sim::require(w->evaluated == 1, "wrong-arguments",
                         "an argument was evaluated %d times", w->evaluated);
        }
        break;
    }
    case 13: { // a program that never installed one
        auto const calls = w->calls;
        auto const raised = w->raised;
        raise_with(
            p, [&] { stdx::panic<no_handler>("nobody", std::move(x)); }, 0);
        raise_with(p, [&] { stdx::panic<"nobody"_cts, no_handler>(n, c); }, 0);
        sim::require(w->raised != raised + 2 or w->calls == calls,
                     "wrong-handler",
                     "a handler ran for a panic that has none");
        sim::require(x.get() == xv, "wrong-arguments",
                     "an unhandled panic consumed its argument");
        break;
    }
    case 16: // no reason, and a long one
        expect(0, true, "", {as_lvalue(x)});
        raise_with(p, [&] { stdx::panic<""_cts>(x); });
        break;
    case 17:
        expect(0, true, "");
        raise_with(p, [] { STDX_PANIC(""); });
        break;
    case 18: {
        constexpr auto why = stdx::ct_string{
            "a reason that is much longer than any of the others, so long that "
            "it does not fit where short ones would: 0123456789 0123456789 "
            "0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 "
            "0123456789 0123456789 0123456789 0123456789 0123456789 "
            "0123456789"};
        expect(1, true, why.value.data(), {as_lvalue(n), as_lvalue(c)});
        raise_with(p, [&] { stdx::panic<why, key_a>(n, c); });
        break;
    }
    case 19: { // many arguments
        rvalue_item = true;
        long const l = n * 3;
        bool const b = n % 2 == 0;
        expect(2, true, "many",
               {as_lvalue(n), as_lvalue(c), as_lvalue(l), as_lvalue(b),
                as_rvalue(x), as_lvalue(n), as_rvalue(c), as_lvalue(l),
                as_lvalue(n)});
        raise_with(p, [&] {
            stdx::panic<"many"_cts, key_a, key_b>(n, c, l, b, std::move(x), n,
                                                  std::move(c), l, n);
        });
        break;
    }
    case 20: {
        rvalue_item = true;
        long const l = n * 5;
        expect(0, false, "",
               {as_rvalue(x), as_lvalue(c), as_lvalue(l), as_lvalue(n),
                as_lvalue(n), as_lvalue(c)});
        raise_with(p, [&] { stdx::panic("", std::move(x), c, l, n, n, c); });
        break;
    }
    case 21:
        expect(3, false, "four keys", {as_lvalue(c), as_lvalue(n)});
        raise_with(p, [&] {
            stdx::panic<key_b, key_a, key_c, key_a>("four keys", c, n);
        });
        break;
    case 22:
        rvalue_item = true;
        expect(3, true, "four keys fixed", {as_rvalue(x)});
        raise_with(p, [&] {
            stdx::panic<"four keys fixed"_cts, key_b, key_a, key_c, key_a>(
                std::move(x));
        });
        break;
    case 23: // run-time text that is neither terminated nor constant
        rvalue_item = true;
        {
            char text[] = {'o', 'n', 'e', ' ', static_cast<char>('0' + n % 10)};
            auto const why = std::string_view{text, 5};
            expect(2, false, std::string{why}.c_str(), {as_rvalue(x)});
            raise_with(p,
                       [&] { stdx::panic<key_a, key_b>(why, std::move(x)); });
        }
        break;
    case 24: // the same object several times
        expect(1, true, "again", {as_lvalue(x), as_lvalue(x), as_lvalue(x)});
        raise_with(p, [&] { stdx::panic<"again"_cts, key_a>(x, x, x); });
        break;
    case 14: { // panics of the library itself
        p.must_throw = true;
        auto q = sim::make_default<stdx::cx_queue<int, 2>>();
        u32 const k = sim::choose(3);
        expect(0, true, "cx_queue underflow!");
        raise_with(p, [&] {
            k == 0   ? (void)q->pop()
            : k == 1 ? (void)q->front()
                     : (void)q->back();
        });
        sim::require(q->empty(), "corrupt-object",
                     "a refused pop changed the queue");
        break;
    }
    default: {
        p.must_throw = true;
        auto q = sim::make_default<stdx::cx_queue<int, 2>>();
        sim::sut([&] {
            q->push(1);
            q->push(2);
        });
        expect(0, true, "cx_queue overflow!");
        raise_with(p, [&] { q->push(n); });
        sim::require(q->size() == 2 and q->front() == 1 and q->back() == 2,
                     "corrupt-object", "a refused push changed the queue");
        break;
    }
    }
    sim::require(c.get() >= 100, "wrong-arguments",
                 "a constant argument was changed");
    bool const gone = rvalue_item and p.take;
    sim::require(x.get() == (gone ? elem::moved_out : xv), "wrong-arguments",
                 "an argument was consumed by the panic itself");
    sim::mix(p.id);
}

void run_panics() {
    world here{};
    w = &here;
    elem::reset_ledger();
    stdx::panic_handler<>.calls = 0;
    stdx::panic_handler<key_a>.calls = 0;
    stdx::panic_handler<key_a, key_b>.calls = 0;
    stdx::panic_handler<key_b, key_a, key_c, key_a>.calls = 0;
    u32 most = 6;
    here.budget = 30;
    if (sim::flip(1, 128)) { // after any number of earlier panics
        most = sim::flip(1, 16) ? 2000 : 300;
        here.budget = 2 * most;
    }
    if (sim::flip(1, 8)) {
        here.nesting = 15;
        here.budget = std::max(here.budget, 60u);
        sim::probe("deep nesting");
    }
    if (sim::flip(1, 8)) {
        here.throwing = sim::flip(1, 2) ? 15 : 1;
    }
    sim::sched_config cfg{};
    bool const irq = sim::flip(1, 2);
    cfg.mode = irq ? sim::sched::interrupts : sim::sched::threads;
    u32 const gaps[] = {6, 2, 15, 40, 0};
    cfg.mean_gap = gaps[sim::choose(5)];
    // the handlers' own counters are plain data of this check
    cfg.detect_races = false;
    sim::configure(cfg);
    u32 const threads = 1 + sim::choose(3);
    for (u32 t = 0; t < threads; ++t) {
        sim::spawn(
            [&] {
                u32 k = 1;
                do {
                    raise_one(false);
                } while (sim::more(k++, most));
            },
            {static_cast<int>(t + 1), false});
    }
    sim::run_threads();
    sim::require(elem::ledger.live == 0, "leaked-object",
                 "%d arguments are still alive", elem::ledger.live);
    sim::require(elem::ledger.copies == 0, "copied-argument",
                 "%d arguments were copied on their way", elem::ledger.copies);
    // each handler kept its own state
    std::array<u32, 4> const own{
        stdx::panic_handler<>.calls, stdx::panic_handler<key_a>.calls,
        stdx::panic_handler<key_a, key_b>.calls,
        stdx::panic_handler<key_b, key_a, key_c, key_a>.calls};
    for (std::size_t i = 0; i < own.size(); ++i) {
        sim::require(own[i] == here.calls[i], "lost-handler-state",
                     "handler %d counted %d of its %d calls", i, own[i],
                     here.calls[i]);
    }
    sim::nontrivial();
    w = nullptr;
}

sim::scenario const scenarios[] = {{"panics", 1, run_panics}};
} // namespace

sim::property_def const sim::the_property = {
    "C23",
    "Each run draws 1-3 tasks (threads or nesting interrupts) that raise up "
    "to 30 (rarely 4000) panics of 25 kinds, up to 60 inside one another: "
    "fixed "
    "and run-time reasons (also none and long ones), four handler keys, no "
    "handler, lvalue, const and rvalue arguments, the macro, and misuse of a "
    "queue. Each handler draws whether to return, throw, consume "
    "its argument or panic again. Every call is compared with what was "
    "raised. Non-trivial: every run. Distinct: hash of all choices, switches "
    "and outcomes.",
    "stdx::panic, STDX_PANIC, panic_handler dispatch, cx_queue refusals",
    "panic handlers, tasks, interrupts, scheduler",
    scenarios,
    1,
    3000000,
    18000000,
};
