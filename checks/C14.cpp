#include "../sim/elem.hpp"

#include <stdx/cx_map.hpp>
#include <stdx/cx_set.hpp>

#include <limits>
#include <map>
#include <set>
#include <vector>

namespace {
using elem::outcome;
using u32 = std::uint32_t;

// integers are shown to the containers in disguise, so that keys and values
// are not only small positive numbers
int twist = 0;
void draw_twist() {
    constexpr int masks[] = {0,
                             0,
                             -1,
                             std::numeric_limits<int>::min(),
                             std::numeric_limits<int>::max(),
                             0x10100};
    twist = masks[sim::choose(6)];
}

template <typename T> auto num(T const &t) -> int {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<int>(static_cast<T>(t ^ static_cast<T>(twist)));
    } else {
        return t.get();
    }
}
template <typename T> auto mk(int v) -> T {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(static_cast<T>(v) ^ static_cast<T>(twist));
    } else {
        return static_cast<T>(v);
    }
}

// callers may pass what the container itself holds
template <typename T> auto own(T const &x, T const *held) -> T const & {
    return held != nullptr and sim::flip(1, 3) ? *held : x;
}
template <typename S, typename T>
auto own_key(S const &s, T const &x) -> T const & {
    for (auto const &k : s) {
        if (k == x) {
            return own(x, &k);
        }
    }
    return x;
}
template <typename M, typename T>
auto own_map_key(M const &s, T const &x) -> T const & {
    for (auto const &e : s) {
        if (e.key == x) {
            return own(x, &e.key);
        }
    }
    return x;
}

// ------------------------------------------------------------------- sets
template <typename S, typename T>
void compare(S &s, std::set<int> const &m, int range) {
    S const &c = s;
    sim::require(c.size() == m.size() and c.empty() == m.empty(), "wrong-size",
                 "size is %d, expected %d", c.size(), m.size());
    std::set<int> seen{};
    for (auto const &x : c) {
        sim::require(m.count(num(x)) == 1, "wrong-content",
                     "key %d should not be there", num(x));
        sim::require(seen.insert(num(x)).second, "duplicate-key",
                     "key %d is held twice", num(x));
    }
    sim::require(seen.size() == m.size(), "wrong-content", "keys are missing");
    std::size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        ++n;
    }
    for (auto it = s.cbegin(); it != s.cend(); ++it) {
        ++n;
    }
    sim::require(n == 2 * m.size(), "wrong-content", "iteration is short");
    for (int k = 0; k < range; ++k) {
        sim::require(c.contains(mk<T>(k)) == (m.count(k) == 1), "wrong-content",
                     "contains is wrong for key %d", k);
    }
}

template <typename T, std::size_t N> void set_run() {
    using S = stdx::cx_set<T, N>;
    elem::reset_ledger();
    int const range = static_cast<int>(N) + 3;
    auto cmp = [&](S &s, std::set<int> const &m) {
        sim::sut_scope const g{};
        compare<S, T>(s, m, range);
    };
    {
        auto s = sim::make_default<S>();
        auto w = sim::make_default<S>();
        std::set<int> ms{}, mw{};
        for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(3);
            int const key = static_cast<int>(sim::choose(N + 3));
            outcome o{};
            switch (sim::choose(11)) {
            case 0:
            case 1:
            case 2: {
                if (ms.size() == N and ms.count(key) == 0) {
                    break;
                }
                T const x{mk<T>(key)};
                T const &arg = own_key(*s, x);
                bool r{};
                if constexpr (elem::copyable<T>) {
                    o = elem::attempt(k, [&] { r = s->insert(arg); });
                } else { // a copy made by the caller
                    o = elem::attempt(k, [&] { r = s->insert(mk<T>(key)); });
                }
                sim::event("insert copy of %d: %s %d", key, elem::name_of(o),
                           r);
                if (o == outcome::ok) {
                    sim::require(r == ms.insert(key).second, "wrong-answer",
                                 "insert said %d", r);
                }
                sim::require(num(x) == key, "source-changed",
                             "an inserted copy changed its source");
                break;
            }
            case 3: {
                if (ms.size() == N and ms.count(key) == 0) {
                    break;
                }
                T x{mk<T>(key)};
                bool r{};
                o = elem::attempt(k, [&] { r = s->insert(std::move(x)); });
                sim::event("insert move of %d: %s %d", key, elem::name_of(o),
                           r);
                if (o == outcome::ok) {
                    sim::require(r == ms.insert(key).second, "wrong-answer",
                                 "insert said %d", r);
                }
                break;
            }
            case 4:
            case 5:
            case 6: {
                T const x{mk<T>(key)};
                T const &arg = own_key(*s, x);
                std::size_t r{};
                o = elem::attempt(k, [&] { r = s->erase(arg); });
                sim::event("erase %d: %s %d", key, elem::name_of(o), r);
                if (o == outcome::ok) {
                    sim::require(r == ms.erase(key), "wrong-answer",
                                 "erase said %d", r);
                }
                break;
            }
            case 7: {
                if (ms.empty()) {
                    break;
                }
                int last{};
                for (auto const &x : *s) {
                    last = num(x);
                }
                int got = elem::blank;
                o = elem::attempt(k, [&] {
                    auto x = s->pop_back();
                    got = num(x);
                });
                sim::event("pop: %s %d", elem::name_of(o), got);
                if (o == outcome::ok) {
                    sim::require(got == last, "wrong-content",
                                 "popped %d, expected %d", got, last);
                    ms.erase(got);
                }
                break;
            }
            case 8: {
                std::set<int> u = ms;
                u.insert(mw.begin(), mw.end());
                if (u.size() > N) {
                    break;
                }
                if constexpr (elem::copyable<T>) {
                    std::vector<int> order{};
                    for (auto const &x : *w) {
                        order.push_back(num(x));
                    }
                    auto const k2 = elem::draw_fault(2 * N + 2);
                    u32 const from = sim::choose(5);
                    if (from == 1) {
                        std::vector<T> v{};
                        v.reserve(order.size());
                        for (auto x : order) {
                            v.emplace_back(mk<T>(x));
                        }
                        o = elem::attempt(k2, [&] { s->merge(v); });
                    } else if (from == 2) {
                        stdx::cx_set<T, N + 2> v{};
                        for (auto x : order) {
                            v.insert(mk<T>(x));
                        }
                        o = elem::attempt(k2, [&] { s->merge(v); });
                    } else if (from == 3) {
                        o = elem::attempt(k2, [&] { s->merge(*s); });
                        u = ms;
                    } else {
                        o = elem::attempt(k2, [&] { s->merge(*w); });
                    }
                    sim::event("merge: %s", elem::name_of(o));
                    if (o == outcome::ok) {
                        ms = u;
                    } else { // as before plus a prefix
                        std::set<int> p = ms;
                        for (auto x : order) {
                            if (p.size() == s->size()) {
                                break;
                            }
                            p.insert(x);
                        }
                        ms = p;
                    }
                }
                break;
            }
            case 9: {
                if constexpr (elem::copyable<T>) {
                    o = elem::attempt(k, [&] {
                        S c{*s};
                        sim::host_scope const h{};
                        sim::arm(0);
                        compare<S, T>(c, ms, range);
                    });
                }
                sim::event("copy: %s", elem::name_of(o));
                break;
            }
            default: {
                auto const how = sim::choose(elem::copyable<T> ? 4 : 2);
                elem::attempt(0, [&] {
                    if (how == 0) {
                        s->clear();
                    } else if (how == 1) {
                        std::swap(*s, *w);
                    } else if constexpr (elem::copyable<T>) {
                        if (how == 2) {
                            *w = *s;
                        } else {
                            *s = *w;
                        }
                    }
                });
                sim::event("clear/assign %d", how);
                if (how == 0) {
                    ms.clear();
                } else if (how == 1) {
                    std::swap(ms, mw);
                } else if (how == 2) {
                    mw = ms;
                } else {
                    ms = mw;
                }
                break;
            }
            }
            cmp(*s, ms);
            cmp(*w, mw);
            if (ms.size() == N) {
                sim::probe("set_full");
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// ------------------------------------------------------------------- maps
template <typename M, typename T>
void compare_map(M &s, std::map<int, int> const &m, int range) {
    M const &c = s;
    sim::require(c.size() == m.size() and c.empty() == m.empty() and
                     c.full() == (m.size() == M::capacity()),
                 "wrong-size", "size is %d, expected %d", c.size(), m.size());
    std::set<int> seen{};
    for (auto const &[k, v] : c) {
        auto const it = m.find(num(k));
        sim::require(it != m.end(), "wrong-content",
                     "key %d should not be there", num(k));
        sim::require(it->second == num(v), "wrong-value",
                     "key %d has value %d, expected %d", num(k), num(v),
                     it->second);
        sim::require(seen.insert(num(k)).second, "duplicate-key",
                     "key %d is held twice", num(k));
    }
    sim::require(seen.size() == m.size(), "wrong-content", "keys are missing");
    std::size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        ++n;
    }
    for (auto it = s.cbegin(); it != s.cend(); ++it) {
        ++n;
    }
    sim::require(n == 2 * m.size(), "wrong-content", "iteration is short");
    for (int k = 0; k < range; ++k) {
        auto const it = m.find(k);
        T const key{mk<T>(k)};
        sim::require(c.contains(key) == (it != m.end()), "wrong-content",
                     "contains is wrong for key %d", k);
        if (it != m.end()) {
            sim::require(num(s.get(key)) == it->second and
                             num(c.get(key)) == it->second,
                         "wrong-value", "get(%d) is %d, expected %d", k,
                         num(c.get(key)), it->second);
        }
    }
}

template <typename T, typename U, std::size_t N> void map_run() {
    using M = stdx::cx_map<T, U, N>;
    elem::reset_ledger();
    int const range = static_cast<int>(N) + 3;
    auto cmp = [&](M &s, std::map<int, int> const &m) {
        sim::sut_scope const g{};
        compare_map<M, T>(s, m, range);
    };
    {
        auto s = sim::make_default<M>();
        auto w = sim::make_default<M>();
        std::map<int, int> ms{}, mw{};
        int next = 0;
        for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(5);
            int const key = static_cast<int>(sim::choose(N + 3));
            outcome o{};
            switch (sim::choose(11)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                if (ms.size() == N and ms.count(key) == 0) {
                    break;
                }
                next = (next + 1) % 100;
                T const x{mk<T>(key)};
                U const *held{};
                for (auto const &e : *s) {
                    if (num(e.value) % 3 == key % 3) {
                        held = &e.value;
                    }
                }
                U const fresh{mk<U>(next)};
                T const &arg = own_map_key(*s, x);
                U const &v = own(fresh, held);
                next = num(v);
                bool r{};
                bool const put = sim::choose(2) == 1;
                o = elem::attempt(k, [&] {
                    r = put ? s->put(arg, v) : s->insert_or_assign(arg, v);
                });
                sim::event("put %d=%d: %s %d", key, next, elem::name_of(o), r);
                if (o == outcome::ok) {
                    sim::require(r == (ms.count(key) == 0), "wrong-answer",
                                 "insertion said %d", r);
                    ms[key] = next;
                } else if (ms.count(key) == 1) {
                    // the old or the new value
                    int const now = num(s->get(x));
                    sim::require(now == ms[key] or now == next, "wrong-value",
                                 "a failed assignment left %d", now);
                    ms[key] = now;
                }
                sim::require(num(x) == key and num(v) == next, "source-changed",
                             "insertion changed its arguments");
                break;
            }
            case 4:
            case 5:
            case 6: {
                T const x{mk<T>(key)};
                T const &arg = own_map_key(*s, x);
                std::size_t r{};
                o = elem::attempt(k, [&] { r = s->erase(arg); });
                sim::event("erase %d: %s %d", key, elem::name_of(o), r);
                if (o == outcome::ok) {
                    sim::require(r == ms.erase(key), "wrong-answer",
                                 "erase said %d", r);
                }
                break;
            }
            case 7: {
                if (ms.empty()) {
                    break;
                }
                int last{};
                for (auto const &[a, b] : *s) {
                    last = num(a);
                }
                int got = elem::blank, gotv = elem::blank;
                o = elem::attempt(k, [&] {
                    auto x = s->pop_back();
                    got = num(x.key);
                    gotv = num(x.value);
                });
                sim::event("pop: %s %d", elem::name_of(o), got);
                if (o == outcome::ok) {
                    sim::require(got == last and gotv == ms[last],
                                 "wrong-content",
                                 "popped %d=%d, expected %d=%d", got, gotv,
                                 last, ms[last]);
                    ms.erase(got);
                }
                break;
            }
            case 8: { // write through get
                if (ms.count(key) == 0) {
                    break;
                }
                next = (next + 1) % 100;
                T const x{mk<T>(key)};
                U const v{mk<U>(next)};
                o = elem::attempt(k, [&] { s->get(x) = v; });
                sim::event("get(%d)=%d: %s", key, next, elem::name_of(o));
                if (o == outcome::ok) {
                    ms[key] = next;
                }
                break;
            }
            case 9: {
                o = elem::attempt(k, [&] {
                    M c{*s};
                    sim::host_scope const h{};
                    sim::arm(0);
                    compare_map<M, T>(c, ms, range);
                });
                sim::event("copy: %s", elem::name_of(o));
                break;
            }
            default: {
                auto const how = sim::choose(4);
                elem::attempt(0, [&] {
                    if (how == 0) {
                        s->clear();
                    } else if (how == 1) {
                        std::swap(*s, *w);
                    } else if (how == 2) {
                        *w = *s;
                    } else {
                        *s = *w;
                    }
                });
                sim::event("clear/assign %d", how);
                if (how == 0) {
                    ms.clear();
                } else if (how == 1) {
                    std::swap(ms, mw);
                } else if (how == 2) {
                    mw = ms;
                } else {
                    ms = mw;
                }
                break;
            }
            }
            cmp(*s, ms);
            cmp(*w, mw);
            if (ms.size() == N) {
                sim::probe("map_full");
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

// construction from a list of entries, where each copy may fail
void construct_run() {
    elem::reset_ledger();
    {
        using entry = stdx::cx_map_value<elem::item, elem::item>;
        elem::item const a{1}, b{2}, c{3};
        entry const e1{1, 11}, e2{2, 12};
        u32 const k = sim::maybe(1, 2, 9);
        auto const o1 = elem::attempt(k, [&] {
            stdx::cx_set<elem::item, 4> s{a, b, c};
            sim::host_scope const h{};
            sim::arm(0);
            compare<decltype(s), elem::item>(s, {1, 2, 3}, 5);
        });
        auto const o2 = elem::attempt(k, [&] {
            stdx::cx_map<elem::item, elem::item, 3> m{e1, e2};
            sim::host_scope const h{};
            sim::arm(0);
            compare_map<decltype(m), elem::item>(m, {{1, 11}, {2, 12}}, 5);
        });
        sim::event("construct: %s %s", elem::name_of(o1), elem::name_of(o2));
        sim::nontrivial();
    }
    elem::all_destroyed();
}

template <typename T> void set_sizes() {
    draw_twist();
    switch (sim::choose(5)) {
    case 0:
        return set_run<T, 3>();
    case 1:
        return set_run<T, 1>();
    case 2:
        return set_run<T, 2>();
    case 3:
        return set_run<T, 4>();
    default:
        return set_run<T, 6>();
    }
}
template <typename T, typename U> void map_sizes() {
    draw_twist();
    switch (sim::choose(5)) {
    case 0:
        return map_run<T, U, 3>();
    case 1:
        return map_run<T, U, 1>();
    case 2:
        return map_run<T, U, 2>();
    case 3:
        return map_run<T, U, 4>();
    default:
        return map_run<T, U, 6>();
    }
}

// capacities beyond a handful, with failures
void more_objects() {
    twist = 0;
    switch (sim::choose(2)) {
    case 0:
        return set_run<elem::item, 18>();
    default:
        return map_run<elem::item, elem::item, 17>();
    }
}

// a set and a map of more than 256 entries
void big_run() {
    constexpr std::size_t n = 270;
    auto s = sim::make_default<stdx::cx_set<u32, n>>();
    auto m = sim::make_default<stdx::cx_map<u32, u32, n>>();
    std::set<u32> r{};
    for (u32 i = 0; sim::more(i, 6); ++i) {
        u32 const from = sim::choose(n), len = sim::choose(n);
        bool const add = sim::choose(3) < 2;
        sim::event("%s %d from %d", add ? "add" : "erase", len, from);
        for (u32 j = 0; j < len; ++j) {
            u32 const key = (from + j) % n;
            sim::sut_scope const g{};
            if (add) {
                bool const fresh = r.insert(key).second;
                sim::require(s->insert(key) == fresh and
                                 m->put(key, key * 3) == fresh,
                             "wrong-answer", "insertion of %d", key);
            } else {
                auto const had = r.erase(key);
                sim::require(s->erase(key) == had and m->erase(key) == had,
                             "wrong-answer", "erasure of %d", key);
            }
        }
        sim::require(s->size() == r.size() and m->size() == r.size() and
                         m->full() == (r.size() == n),
                     "wrong-size", "sizes are %d and %d, expected %d",
                     s->size(), m->size(), r.size());
        for (auto x : *s) {
            sim::require(r.count(x) == 1, "wrong-content", "key %d", x);
        }
        for (auto const &[x, y] : *m) {
            sim::require(r.count(x) == 1 and y == 3 * x, "wrong-content",
                         "key %d has value %d", x, y);
        }
    }
    sim::nontrivial();
}

// Equal keys that can be told apart: the entry that is there already stays.
template <std::size_t N> void labelled_run() {
    using elem::labelled;
    auto s = sim::make_default<stdx::cx_set<labelled, N>>();
    auto m = sim::make_default<stdx::cx_map<labelled, labelled, N>>();
    std::map<int, int> keys{}; // number to label, the same in both
    std::map<int, std::pair<int, int>> values{};
    for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
        labelled const k{static_cast<int>(sim::choose(N + 1)),
                         static_cast<int>(i + 1)};
        labelled const v{static_cast<int>(sim::choose(3)),
                         static_cast<int>(i + 1000)};
        bool const had = keys.count(k.number) != 0;
        u32 const what = sim::choose(6);
        if (what < 3 and (had or keys.size() < N)) {
            sim::event("add %d:%d with %d:%d", k.number, k.label, v.number,
                       v.label);
            bool in{}, put{};
            sim::sut([&] {
                if (what == 0) {
                    in = s->insert(k);
                } else if (what == 1) {
                    auto moved = k;
                    in = s->insert(std::move(moved));
                } else {
                    stdx::cx_set<labelled, 2> const one{k};
                    in = not s->contains(k);
                    s->merge(one);
                }
                put = what == 2 ? m->insert_or_assign(k, v) : m->put(k, v);
            });
            sim::require(in != had and put != had, "wrong-answer",
                         "the addition reports %d and %d", in, put);
            keys.insert({k.number, k.label});
            values[k.number] = {v.number, v.label};
        } else if (what < 5) {
            sim::event("erase %d:%d", k.number, k.label);
            std::size_t a{}, b{};
            sim::sut([&] {
                a = s->erase(k);
                b = m->erase(k);
            });
            sim::require(a == (had ? 1 : 0) and b == a, "wrong-answer",
                         "the erasure reports %d and %d", a, b);
            keys.erase(k.number);
            values.erase(k.number);
        } else if (had) {
            sim::event("look up %d:%d", k.number, k.label);
            labelled got{}, was{};
            sim::sut([&] {
                auto &r = m->get(k);
                was = r;
                r = v;
                got = std::as_const(*m).get(k);
            });
            auto &w = values[k.number];
            sim::require(was.number == w.first and was.label == w.second and
                             got.number == v.number and got.label == v.label,
                         "wrong-content", "the value of %d is %d:%d", k.number,
                         got.number, got.label);
            w = {v.number, v.label};
        }
        sim::require(s->size() == keys.size() and m->size() == keys.size(),
                     "wrong-size", "sizes are %d and %d, expected %d",
                     s->size(), m->size(), keys.size());
        for (auto const &[n, l] : *s) {
            auto const it = keys.find(n);
            sim::require(it != keys.end() and it->second == l, "wrong-content",
                         "the set holds %d:%d", n, l);
        }
        for (auto const &[k2, v2] : *m) {
            auto const it = keys.find(k2.number);
            sim::require(it != keys.end() and it->second == k2.label,
                         "wrong-content", "the map holds key %d:%d", k2.number,
                         k2.label);
            auto const &w = values[k2.number];
            sim::require(v2.number == w.first and v2.label == w.second,
                         "wrong-content", "key %d has value %d:%d", k2.number,
                         v2.number, v2.label);
        }
    }
    sim::nontrivial();
}
void equal_keys() {
    return sim::flip(1, 2) ? labelled_run<4>() : labelled_run<9>();
}

sim::scenario const scenarios[] = {
    {"set_of_objects", 30, set_sizes<elem::item>},
    {"map_of_objects", 40, map_sizes<elem::item, elem::item>},
    {"set_of_integers", 10, set_sizes<int>},
    {"map_of_integers", 10, map_sizes<int, unsigned short>},
    {"map_int_to_object", 10, map_sizes<int, elem::item>},
    {"set_of_records", 10, set_sizes<elem::record>},
    {"map_of_records", 10, map_sizes<elem::record, elem::record>},
    {"map_of_bytes", 5, map_sizes<std::uint8_t, std::uint64_t>},
    {"set_of_large_objects", 3, set_sizes<elem::heavy>},
    {"map_of_large_objects", 3, map_sizes<elem::heavy, elem::heavy>},
    {"map_of_large_records", 3, map_sizes<elem::item, elem::block>},
    {"more_objects", 3, more_objects},
    {"equal_keys", 6, equal_keys},
#ifndef SIM_WITHOUT_MOVE_ONLY
    {"set_of_exclusive_objects", 5, set_sizes<elem::exclusive>},
#endif
    {"construction", 2, construct_run},
    {"large", 1, big_run},
};
} // namespace

sim::property_def const sim::the_property = {
    "C14",
    "Each run draws a set or map (capacity 1-270, several element types) and "
    "a history of up to 24 (rarely 1500) insertions, assignments, erasures, "
    "merges, pops, "
    "copies and clears over a key range slightly larger than the capacity; in "
    "a quarter of the calls the k-th element copy fails. After every call all "
    "keys, values, queries and iteration are compared with a reference "
    "container. Non-trivial: the history ran to its end. Distinct: hash of "
    "all choices and results.",
    "stdx::cx_set, stdx::cx_map",
    "element type with failing copies and lifetime ledger",
    scenarios,
    std::size(scenarios),
    3000000,
    9000000,
};
