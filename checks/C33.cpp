#define STDX_FREESTANDING // needs no formatting library
#include "../sim/elem.hpp"

#include <stdx/ct_format.hpp>
#include <stdx/cx_queue.hpp>

#include <string_view>
#include <tuple>
#include <vector>

namespace {
using elem::outcome;
using u32 = std::uint32_t;
using model = std::vector<int>;
using namespace stdx::literals;

template <typename T> auto num(T const &t) -> int {
    if constexpr (std::is_arithmetic_v<T>) {
        return static_cast<int>(t);
    } else {
        return t.get();
    }
}
int drawn = 0;
auto draw() -> int { return drawn += 1 + static_cast<int>(sim::choose(7)); }

// ------------------------------------------------- what a caller may pass
// Each kind makes its object, passes it, lists the run-time arguments that it
// stands for, and says what must still be true afterwards.
template <typename T> struct kept { // an lvalue
    T obj{static_cast<T>(draw())};
    int const was{num(obj)};
    constexpr static u32 copies = std::is_class_v<T> ? 1 : 0;
    auto pass() -> T & { return obj; }
    void list(model &m) const { m.push_back(was); }
    void after() const {
        sim::require(num(obj) == was, "source-changed",
                     "a kept argument changed from %d to %d", was, num(obj));
    }
};
template <typename T> struct looked_at : kept<T> { // a constant lvalue
    auto pass() -> T const & { return this->obj; }
};
template <typename T> struct given : kept<T> { // an rvalue
    constexpr static u32 copies = 0;
    auto pass() -> T && { return std::move(this->obj); }
    void after() const {}
};
struct nothing { // compile-time arguments leave no run-time argument
    constexpr static u32 copies = 0;
    void list(model &) const {}
    void after() const {}
};
struct ct_number : nothing {
    auto pass() { return CX_VALUE(42); }
};
struct ct_word : nothing {
    auto pass() { return "word"_ctst; }
};
struct ct_type : nothing {
    auto pass() { return CX_VALUE(int); }
};
// a message that is a compile-time constant but keeps an argument
struct constant_message : nothing {
    constexpr static auto said = stdx::ct_format<"<{} of {}>">(CX_VALUE(3), 17);
    auto pass() { return CX_VALUE(said); }
    void list(model &m) const { m.push_back(17); }
};
// a message made earlier, with arguments of its own
template <typename M, bool Kept> struct message {
    std::tuple<M> maker{};
    decltype(M{}.make()) obj{std::get<0>(maker).make()};
    constexpr static u32 copies = Kept ? M::args : 0;
    auto pass() -> decltype(auto) {
        if constexpr (Kept) {
            return (obj);
        } else {
            return std::move(obj);
        }
    }
    void list(model &m) const { std::get<0>(maker).list(m); }
    void after() const {
        if constexpr (Kept) {
            model want{}, got{};
            list(want);
            obj.args.apply(
                [&](auto const &...as) { (got.push_back(num(as)), ...); });
            sim::require(want == got, "source-changed",
                         "a kept message changed");
        }
    }
};
struct one_item {
    constexpr static u32 args = 1;
    int v{draw()};
    auto make() const { return stdx::ct_format<"<{}>">(elem::item{v}); }
    void list(model &m) const { m.push_back(v); }
};
struct two_items {
    constexpr static u32 args = 2;
    int v{draw()}, w{draw()};
    auto make() const {
        return stdx::ct_format<"<{a}+{}/{b}>">(elem::fragile{v}, CX_VALUE(7),
                                               elem::item{w});
    }
    void list(model &m) const {
        m.push_back(v);
        m.push_back(w);
    }
};
struct no_items {
    constexpr static u32 args = 0;
    auto make() const { return stdx::ct_format<"<{}>">(CX_VALUE(3)); }
    void list(model &) const {}
};
struct one_in_one {
    constexpr static u32 args = 2;
    one_item inner{};
    int v{draw()};
    auto make() const {
        return stdx::ct_format<"[{}|{}]">(inner.make(), elem::item{v});
    }
    void list(model &m) const {
        inner.list(m);
        m.push_back(v);
    }
};
struct four_deep {
    constexpr static u32 args = 4;
    int v[4]{draw(), draw(), draw(), draw()};
    auto make() const {
        auto a = stdx::ct_format<"1[{}]">(elem::item{v[0]});
        auto b = stdx::ct_format<"2[{}{}]">(std::move(a), elem::item{v[1]});
        auto c = stdx::ct_format<"3[{}{}]">(std::move(b), elem::fragile{v[2]});
        return stdx::ct_format<"4[{}{}]">(std::move(c), v[3]);
    }
    void list(model &m) const { m.insert(m.end(), v, v + 4); }
};
struct seven_items {
    constexpr static u32 args = 7;
    int v[7]{draw(), draw(), draw(), draw(), draw(), draw(), draw()};
    auto make() const {
        return stdx::ct_format<"<{} {} {} {} {} {} {}>">(
            elem::item{v[0]}, v[1], elem::item{v[2]}, elem::item{v[3]}, v[4],
            elem::fragile{v[5]}, elem::item{v[6]});
    }
    void list(model &m) const { m.insert(m.end(), v, v + 7); }
};
// an object that says itself how it is to be formatted
u32 conversions = 0;
template <bool Fails> struct custom {
    int a{draw()}, b{draw()};
    friend auto ct_format_as(custom const &c) {
        {
            sim::host_scope const h{};
            ++conversions;
            if (Fails and sim::fault_point("conversion")) {
                throw sim::fault_t{3};
            }
        }
        return stdx::ct_format<"({}:{})">(elem::item{c.a}, c.b);
    }
};
template <bool Fails, bool Kept> struct by_itself {
    custom<Fails> obj{};
    constexpr static u32 copies = 0;
    auto pass() -> decltype(auto) {
        if constexpr (Kept) {
            return (obj);
        } else {
            return std::move(obj);
        }
    }
    void list(model &m) const {
        m.push_back(obj.a);
        m.push_back(obj.b);
    }
    void after() const {}
};
template <typename K> constexpr u32 converts = 0;
template <bool F, bool K> constexpr u32 converts<by_itself<F, K>> = 1;

// ------------------------------------------------------------ one message
template <typename R> auto text_of(R const &r) -> std::string_view {
    return std::string_view{decltype(r.str)::value};
}
template <typename R> void judge(R const &r, model const &want) {
    model got{};
    r.args.apply([&](auto const &...as) { (got.push_back(num(as)), ...); });
    sim::require(got.size() == want.size(), "wrong-arguments",
                 "%d run-time arguments, expected %d", got.size(), want.size());
    for (std::size_t i = 0; i < want.size(); ++i) {
        sim::require(got[i] == want[i], "wrong-arguments",
                     "run-time argument %d is %d, expected %d", i, got[i],
                     want[i]);
    }
}
// named run-time arguments know their place
template <typename R, stdx::ct_string Name, typename T, int B, int E>
void judge_name(R const &r, stdx::named_arg<Name, T, B, E>, model const &want,
                std::string_view name, u32 at, bool &found) {
    if constexpr (E < B) {
        if (std::string_view{Name} == name) {
            found = true;
            sim::require(num(r.args[stdx::index<B>]) == want[at], "wrong-name",
                         "the named argument %d is %d", at,
                         num(r.args[stdx::index<B>]));
        }
    }
}
template <typename R, typename... Ns>
void judge_names(R const &r, stdx::type_list<Ns...>, model const &want,
                 std::string_view name, u32 at) {
    bool found = false;
    (judge_name(r, Ns{}, want, name, at, found), ...);
    sim::require(found, "wrong-name", "a named argument is not known");
}

struct name_at {
    std::string_view name;
    u32 at;
};

template <stdx::ct_string Fmt, typename... Ks>
void shape(std::string_view text, std::initializer_list<name_at> names = {}) {
    elem::reset_ledger();
    {
        // objects under test: the arguments
        using sources = std::tuple<Ks...>;
        auto src = sim::make_default<sources>();
        model want{};
        std::apply([&](auto &...s) { (s.list(want), ...); }, *src);
        auto const before = elem::ledger;
        u32 const k = sim::maybe(1, 2, 3 * (1 + sizeof...(Ks)));
        conversions = 0;
        auto const o = elem::attempt(k, [&] {
            auto const r = std::apply(
                [](auto &...s) { return stdx::ct_format<Fmt>(s.pass()...); },
                *src);
            sim::host_scope const h{};
            sim::arm(0);
            u32 const copies =
                static_cast<u32>(elem::ledger.copies - before.copies);
            sim::require(copies <= (0u + ... + Ks::copies), "needless-copy",
                         "%d copies, where %d values are kept", copies,
                         (0u + ... + Ks::copies));
            sim::require(conversions == (0u + ... + converts<Ks>),
                         "wrong-conversions", "%d conversions", conversions);
            sim::require(text_of(r) == text, "wrong-text",
                         "the text is not the expected one");
            judge(r, want);
            for (auto const &n : names) {
                judge_names(r, typename decltype(r)::named_args_t{}, want,
                            n.name, n.at);
            }
        });
        sim::event("%d arguments: %s", want.size(), elem::name_of(o));
        std::apply([](auto const &...s) { (s.after(), ...); }, *src);
        sim::nontrivial();
    }
    elem::all_destroyed();
}

using item = elem::item;
using fragile = elem::fragile;
#ifndef SIM_WITHOUT_MOVE_ONLY
using exclusive = elem::exclusive;
#else
using exclusive = elem::fragile;
#endif

void plain() {
    switch (sim::choose(16)) {
    case 0:
        return shape<"a {} b", kept<item>>("a {} b");
    case 1:
        return shape<"{}{}", kept<fragile>, given<fragile>>("{}{}");
    case 2:
        return shape<"{} {} {}", given<item>, looked_at<item>, kept<int>>(
            "{} {} {}");
    case 3:
        return shape<"x{}y{}z", given<exclusive>, kept<item>>("x{}y{}z");
    case 4:
        return shape<"{} {} {}", ct_number, kept<fragile>, ct_word>(
            "42 {} word");
    case 5:
        return shape<"{} {} {}", given<fragile>, ct_type, given<exclusive>>(
            "{} int {}");
    case 6:
        return shape<"{:x} {:>4} {:x}", kept<int>, kept<item>, ct_number>(
            "{:x} {:>4} 2a");
    case 7:
        return shape<"{} {} {} {} {} {}", kept<int>, given<item>, kept<item>,
                     kept<elem::record>, given<fragile>, looked_at<fragile>>(
            "{} {} {} {} {} {}");
    case 8:
        return shape<"{{{}}} {}", kept<item>, kept<int>>("{{{}}} {}");
    case 9:
        return shape<"nothing">("nothing");
    case 10:
        return shape<"{}", given<elem::heavy_fragile>>("{}");
    case 11:
        return shape<"{}{}{}{}{}{}{}{}{}", kept<item>, kept<int>, kept<item>,
                     kept<int>, given<item>, kept<int>, kept<item>, kept<int>,
                     given<item>>("{}{}{}{}{}{}{}{}{}");
    case 12:
        return shape<"{first} {second}", kept<fragile>, given<item>>(
            "{} {}", {{"first", 0}, {"second", 1}});
    case 13:
        return shape<"{n} {one} {} {two:x}", ct_number, given<item>, kept<item>,
                     kept<int>>("42 {} {} {:x}", {{"one", 0}, {"two", 2}});
    case 14:
        return shape<"{}, {}", looked_at<elem::heavy>, given<elem::block>>(
            "{}, {}");
    default:
        return shape<"{} {} {} {}", given<exclusive>, given<exclusive>,
                     given<fragile>, given<exclusive>>("{} {} {} {}");
    }
}
void nested() {
    switch (sim::choose(27)) {
    case 24:
        return shape<"{} {}", message<seven_items, true>, given<item>>(
            "<{} {} {} {} {} {} {}> {}");
    case 25:
        return shape<"{} {} {}", kept<item>, message<seven_items, false>,
                     message<seven_items, true>>(
            "{} <{} {} {} {} {} {} {}> <{} {} {} {} {} {} {}>");
    case 26:
        return shape<"{} {}", message<four_deep, true>,
                     message<four_deep, false>>(
            "4[3[2[1[{}]{}]{}]{}] 4[3[2[1[{}]{}]{}]{}]");
    case 17:
        return shape<"{} {}", message<one_in_one, false>, kept<item>>(
            "[<{}>|{}] {}");
    case 18:
        return shape<"{} {}", message<two_items, true>, given<item>>(
            "<{}+7/{}> {}", {{"a", 0}, {"b", 1}});
    case 19:
        return shape<"{} {}", given<item>, message<one_in_one, true>>(
            "{} [<{}>|{}]");
    case 20:
        return shape<"{} {}", message<one_item, false>,
                     message<one_item, false>>("<{}> <{}>");
    case 21:
        return shape<"{u} {} {} {v}", given<item>, message<two_items, true>,
                     by_itself<true, true>, kept<int>>(
            "{} <{}+7/{}> ({}:{}) {}",
            {{"u", 0}, {"a", 1}, {"b", 2}, {"v", 5}});
    case 22:
        return shape<"{}-{}", message<four_deep, true>, kept<fragile>>(
            "4[3[2[1[{}]{}]{}]{}]-{}");
    case 23:
        return shape<"{}{}", kept<item>, message<four_deep, false>>(
            "{}4[3[2[1[{}]{}]{}]{}]");
    case 14:
        return shape<"{} {}", constant_message, kept<item>>("<3 of {}> {}");
    case 15:
        return shape<"{} {} {}", given<fragile>, constant_message,
                     message<one_item, false>>("{} <3 of {}> <{}>");
    case 16:
        return shape<"{} {} {} {}", by_itself<true, true>,
                     by_itself<true, false>, by_itself<true, true>,
                     given<exclusive>>("({}:{}) ({}:{}) ({}:{}) {}");
    case 0:
        return shape<"a {} b", message<one_item, true>>("a <{}> b");
    case 1:
        return shape<"a {} b", message<one_item, false>>("a <{}> b");
    case 2:
        return shape<"{} {}", kept<fragile>, message<two_items, true>>(
            "{} <{}+7/{}>", {{"a", 1}, {"b", 2}});
    case 3:
        return shape<"{} {} {}", message<two_items, false>, kept<item>,
                     message<one_item, true>>("<{}+7/{}> {} <{}>",
                                              {{"a", 0}, {"b", 1}});
    case 4:
        return shape<"{}", message<one_in_one, true>>("[<{}>|{}]");
    case 5:
        return shape<"{}{}", message<one_in_one, false>,
                     message<one_in_one, true>>("[<{}>|{}][<{}>|{}]");
    case 6:
        return shape<"{} {} {}", message<no_items, true>, given<exclusive>,
                     message<no_items, false>>("<3> {} <3>");
    case 7:
        return shape<"{} {x} {}", kept<item>, given<item>,
                     message<two_items, false>>("{} {} <{}+7/{}>",
                                                {{"x", 1}, {"a", 2}, {"b", 3}});
    case 8:
        return shape<"{} {}", by_itself<true, true>, kept<item>>("({}:{}) {}");
    case 9:
        return shape<"{} {} {}", kept<int>, by_itself<true, false>,
                     by_itself<false, true>>("{} ({}:{}) ({}:{})");
    case 10:
        return shape<"{} {} {}", by_itself<false, true>, ct_word,
                     message<one_item, false>>("({}:{}) word <{}>");
    case 11:
        return shape<"{} {} {} {}", message<one_item, true>,
                     message<one_item, false>, message<two_items, true>,
                     message<no_items, true>>("<{}> <{}> <{}+7/{}> <3>");
    case 12:
        return shape<"{} {}", ct_type, message<one_in_one, false>>(
            "int [<{}>|{}]");
    default:
        return shape<"{} {} {}", given<fragile>, message<one_in_one, true>,
                     given<exclusive>>("{} [<{}>|{}] {}");
    }
}

// ------------------------------------------ the macro evaluates its arguments
u32 evaluations = 0;
auto counted(item &i) -> item & {
    sim::host_scope const h{};
    ++evaluations;
    return i;
}
auto fresh(int v) -> item {
    {
        sim::host_scope const h{};
        ++evaluations;
        if (sim::fault_point("argument")) {
            throw sim::fault_t{4};
        }
    }
    return item{v};
}
void by_macro() {
    elem::reset_ledger();
    {
        auto a = sim::make<item>(draw());
        auto b = sim::make<fragile>(draw());
        int const va = a->get(), vb = b->get(), vc = draw();
        int n = draw();
        model want{};
        evaluations = 0;
        u32 expected = 0;
        u32 const k = sim::maybe(1, 2, 8);
        u32 const which = sim::choose(5);
        std::string_view text{};
        auto see = [&](auto const &r) {
            sim::host_scope const h{};
            sim::arm(0);
            sim::require(text_of(r) == text, "wrong-text",
                         "the text is not the expected one");
            sim::require(evaluations == expected, "wrong-evaluations",
                         "arguments were evaluated %d times, expected %d",
                         evaluations, expected);
            judge(r, want);
        };
        auto const o = elem::attempt(k, [&] {
            switch (which) {
            case 0:
                text = "{} 5 {}";
                want = {va, n};
                see(STDX_CT_FORMAT("{} {} {}", *a, 5, n));
                break;
            case 1:
                text = "{} int {}";
                want = {va, vc};
                expected = 2;
                see(STDX_CT_FORMAT("{} {} {}", counted(*a), int, fresh(vc)));
                break;
            case 2:
                text = "{} {}";
                want = {vb, va};
                expected = 1;
                see(STDX_CT_FORMAT("{} {}", *b, counted(*a)));
                break;
            case 3:
                text = "{} {}!";
                want = {n + 1, vc};
                expected = 1;
                see(STDX_CT_FORMAT("{} {}!", ++n, fresh(vc)));
                break;
            default:
                text = "{} <{}>";
                want = {vb, va};
                expected = 1;
                see(STDX_CT_FORMAT("{} {}", *b,
                                   stdx::ct_format<"<{}>">(counted(*a))));
                break;
            }
        });
        sim::event("macro %d: %s", which, elem::name_of(o));
        sim::require(a->get() == va and b->get() == vb, "source-changed",
                     "a kept argument changed");
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// -------------------------------------------------- messages kept in a queue
auto report(item const &a, fragile b, int c) {
    return stdx::ct_format<"{} of {who} at {}">(a, std::move(b), c);
}
void logbook() {
    elem::reset_ledger();
    {
        using entry = decltype(report(item{1}, fragile{2}, 3));
        auto q = sim::make_default<std::vector<entry>>();
        std::vector<std::array<int, 3>> m{};
        auto see = [](entry const &e, std::array<int, 3> const &w) {
            sim::host_scope const h{};
            judge(e, model{w[0], w[1], w[2]});
        };
        for (u32 i = 0; sim::more(i, 12); ++i) {
            u32 const k = sim::maybe(1, 3, 8);
            switch (sim::choose(5)) {
            case 0:
            case 1: {
                std::array<int, 3> const w{draw(), draw(), draw()};
                item const a{w[0]};
                fragile b{w[1]};
                // room first: what is simulated is the message
                q->reserve(m.size() + 1);
                auto const o = elem::attempt(
                    k, [&] { q->push_back(report(a, std::move(b), w[2])); });
                sim::event("report %d %d %d: %s", w[0], w[1], w[2],
                           elem::name_of(o));
                if (o == outcome::ok) {
                    m.push_back(w);
                }
                sim::require(a.get() == w[0], "source-changed",
                             "a kept argument changed");
                break;
            }
            case 2: { // read: the same text and arguments
                if (m.empty()) {
                    break;
                }
                auto const at = sim::choose(static_cast<u32>(m.size()));
                auto const o = elem::attempt(k, [&] {
                    auto const e = (*q)[at];
                    see(e, m[at]);
                });
                sim::event("copy %d: %s", at, elem::name_of(o));
                break;
            }
            case 3: { // wrap into a larger message and hand it on
                if (m.empty()) {
                    break;
                }
                auto const at = sim::choose(static_cast<u32>(m.size()));
                auto const by = sim::choose(static_cast<u32>(m.size()));
                auto const o = elem::attempt(k, [&] {
                    auto const e = stdx::ct_format<"({}) after ({})">(
                        (*q)[at], std::as_const((*q)[by]));
                    sim::host_scope const h{};
                    sim::arm(0);
                    sim::require(text_of(e) == "({} of {} at {}) after ({} of "
                                               "{} at {})",
                                 "wrong-text", "wrong text");
                    judge(e, model{m[at][0], m[at][1], m[at][2], m[by][0],
                                   m[by][1], m[by][2]});
                });
                sim::event("combine %d and %d: %s", at, by, elem::name_of(o));
                break;
            }
            default: { // compare
                if (m.empty()) {
                    break;
                }
                auto const at = sim::choose(static_cast<u32>(m.size()));
                auto const by = sim::choose(static_cast<u32>(m.size()));
                bool eq{};
                elem::attempt(0, [&] { eq = (*q)[at] == (*q)[by]; });
                sim::require(eq == (m[at] == m[by]), "wrong-comparison",
                             "messages %d and %d compare as %d", at, by, eq);
                auto other = m[at];
                other[sim::choose(3)] += 1;
                elem::attempt(0, [&] {
                    eq = (*q)[at] ==
                         report(item{other[0]}, fragile{other[1]}, other[2]);
                });
                sim::require(not eq, "wrong-comparison",
                             "different messages compare equal");
                sim::event("compare %d and %d", at, by);
                break;
            }
            }
            for (u32 j = 0; j < m.size(); ++j) {
                see((*q)[j], m[j]);
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// ---------------------------------------------- formatting in several threads
void together() {
    sim::sched_config sc{};
    u32 const gaps[] = {2, 0, 5, 12};
    sc.mean_gap = gaps[sim::choose(4)];
    sc.mode = sim::flip(1, 4) ? sim::sched::interrupts : sim::sched::threads;
    sim::configure(sc);
    u32 const nt = 2 + sim::choose(2);
    struct job {
        u32 how;
        int a, b, c;
        model got{};
    };
    std::vector<std::vector<job>> jobs(nt);
    for (auto &js : jobs) {
        u32 n = 0;
        do {
            js.push_back({sim::choose(4), draw(), draw(), draw()});
        } while (sim::more(++n, 3));
    }
    auto const shared = sim::make<elem::record>(77);
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn(
            [&, t] {
                for (auto &j : jobs[t]) {
                    sim::sut_scope const s{};
                    auto put = [&](auto const &r) {
                        r.args.apply([&](auto const &...as) {
                            int const v[] = {num(as)...};
                            sim::host_scope const h{};
                            j.got.assign(std::begin(v), std::end(v));
                        });
                    };
                    switch (j.how) {
                    case 0:
                        put(stdx::ct_format<"{} {} {}">(j.a, j.b, j.c));
                        break;
                    case 1:
                        put(stdx::ct_format<"{} {} {}">(elem::record{j.a},
                                                        *shared, long{j.b}));
                        break;
                    case 2:
                        put(stdx::ct_format<"{} {}">(
                            stdx::ct_format<"<{}>">(j.a),
                            stdx::ct_format<"<{} {}>">(j.b, *shared)));
                        break;
                    default:
                        put(STDX_CT_FORMAT("{} {} {}", j.a, 4, j.c));
                        break;
                    }
                }
            },
            {.priority = static_cast<int>(t)});
    }
    sim::run_threads();
    for (auto const &js : jobs) {
        for (auto const &j : js) {
            model const want = j.how == 0   ? model{j.a, j.b, j.c}
                               : j.how == 1 ? model{j.a, 77, j.b}
                               : j.how == 2 ? model{j.a, j.b, 77}
                                            : model{j.a, j.c};
            sim::require(j.got == want, "wrong-arguments",
                         "a message has another one's arguments");
        }
    }
    sim::nontrivial();
}

template <void (*F)()> void from_start() {
    drawn = 0;
    F();
}
sim::scenario const scenarios[] = {
    {"one_message", 5, from_start<plain>},
    {"nested_messages", 5, from_start<nested>},
    {"by_macro", 2, from_start<by_macro>},
    {"logbook", 3, from_start<logbook>},
    {"several_threads", 2, from_start<together>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C33",
    "Each run formats one message of 43 shapes (0-9 arguments: kept, given up, "
    "constant, move-only, large, compile-time, named, messages made earlier "
    "and objects that convert themselves), through the function or the macro, "
    "or keeps a history of up to 12 messages that are copied, combined and "
    "compared, or formats from 2-3 threads at once; in half of the calls the "
    "k-th copy, move, conversion or argument fails. Text, run-time arguments "
    "and their order, names, copies, conversions and lifetimes are compared "
    "with a model. Non-trivial: every run. Distinct: hash of all choices and "
    "results.",
    "stdx::ct_format, STDX_CT_FORMAT, format_result",
    "argument types with failing copies, moves and conversions, lifetime "
    "ledger; threads",
    scenarios,
    std::size(scenarios),
    15000000,
    45000000,
};
