#include "../sim/elem.hpp"

#include <stdx/bitset.hpp>
#include <stdx/cached.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/latched.hpp>
#include <stdx/optional.hpp>
#include <stdx/panic.hpp>
#include <stdx/tuple.hpp>

#include <algorithm>
#include <array>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace {
using u32 = std::uint32_t;
using elem::item;
using elem::outcome;
using shown = std::vector<int>; // what an inner value holds

auto text(shown const &v) -> std::string {
    std::string s = "(";
    for (auto x : v) {
        s += " " + std::to_string(x);
    }
    return s + " )";
}

// ------------------------------------------------- inner values
// Each shows what it holds, grows by a number (which may fail) and shrinks, and
// knows what it has to show afterwards.
struct vector_in {
    using type = stdx::cx_vector<item, 4>;
    static void show(type const &t, shown &o) {
        for (auto const &e : t) {
            o.push_back(e.get());
        }
    }
    static void rebuild(type &t, shown const &s) {
        for (auto v : s) {
            grow(t, v);
        }
    }
    static void grow(type &t, int v) {
        if (not t.full()) {
            t.push_back(item{v});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            (void)t.pop_back();
        }
    }
    static void grown(shown &s, int v) {
        if (s.size() < 4) {
            s.push_back(v);
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.pop_back();
        }
    }
};
struct queue_in {
    using type = stdx::cx_queue<item, 3>;
    static void show(type const &t, shown &o) {
        auto c = t;
        while (not c.empty()) {
            o.push_back(c.pop().get());
        }
    }
    static void grow(type &t, int v) {
        if (not t.full()) {
            t.push(item{v});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            (void)t.pop();
        }
    }
    static void grown(shown &s, int v) {
        if (s.size() < 3) {
            s.push_back(v);
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.erase(s.begin());
        }
    }
};
struct set_in {
    using type = stdx::cx_set<item, 4>;
    static void show(type const &t, shown &o) {
        for (auto const &e : t) {
            o.push_back(e.get());
        }
        std::sort(o.begin(), o.end());
    }
    static void grow(type &t, int v) {
        if (t.size() < t.capacity()) {
            t.insert(item{v});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            t.erase(*std::min_element(t.begin(), t.end()));
        }
    }
    static void grown(shown &s, int v) {
        if (s.size() < 4 and std::find(s.begin(), s.end(), v) == s.end()) {
            s.push_back(v);
            std::sort(s.begin(), s.end());
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.erase(s.begin());
        }
    }
};
struct map_in {
    using type = stdx::cx_map<item, item, 3>;
    static void show(type const &t, shown &o) {
        std::vector<std::pair<int, int>> ps;
        for (auto const &[k, v] : t) {
            ps.emplace_back(k.get(), v.get());
        }
        std::sort(ps.begin(), ps.end());
        for (auto const &[k, v] : ps) {
            o.push_back(k);
            o.push_back(v);
        }
    }
    static void grow(type &t, int v) {
        if (not t.full()) {
            t.put(item{v}, item{v + 1000});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            auto const *least = t.begin();
            for (auto const &e : t) {
                least = e.key < least->key ? &e : least;
            }
            t.erase(least->key);
        }
    }
    static void grown(shown &s, int v) {
        for (std::size_t i = 0; i < s.size(); i += 2) {
            if (s[i] == v) {
                return;
            }
        }
        if (s.size() < 6) {
            std::size_t i = 0;
            while (i < s.size() and s[i] < v) {
                i += 2;
            }
            s.insert(s.begin() + static_cast<int>(i), {v, v + 1000});
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.erase(s.begin(), s.begin() + 2);
        }
    }
};
struct multimap_in {
    using type = stdx::cx_multimap<item, item, 2, 3>;
    static void show(type const &t, shown &o) {
        for (int k = 0; k < 2; ++k) {
            if (t.contains(item{k})) {
                shown vs;
                for (auto const &v : t.get(item{k})) {
                    vs.push_back(v.get());
                }
                std::sort(vs.begin(), vs.end());
                for (auto v : vs) {
                    o.push_back(k);
                    o.push_back(v);
                }
            }
        }
    }
    static auto room(shown const &s, int v) -> bool {
        int n = 0;
        for (std::size_t i = 0; i < s.size(); i += 2) {
            n += s[i] == v % 2;
            if (s[i] == v % 2 and s[i + 1] == v) {
                return false;
            }
        }
        return n < 3;
    }
    static void grow(type &t, int v) {
        bool fits = true;
        {
            sim::host_scope const h{};
            shown s;
            show(t, s);
            fits = room(s, v);
        }
        if (fits) {
            t.insert(item{v % 2}, item{v});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            shown s;
            {
                sim::host_scope const h{};
                show(t, s);
            }
            t.erase(item{s[0]}, item{s[1]});
        }
    }
    static void grown(shown &s, int v) {
        if (room(s, v)) {
            std::size_t i = 0;
            while (i < s.size() and
                   std::pair{s[i], s[i + 1]} < std::pair{v % 2, v}) {
                i += 2;
            }
            s.insert(s.begin() + static_cast<int>(i), {v % 2, v});
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.erase(s.begin(), s.begin() + 2);
        }
    }
};
struct no_item {
    auto operator()() const -> item { return item{-5}; }
};
struct optional_in {
    using type = stdx::optional<item, no_item>;
    static void show(type const &t, shown &o) {
        if (t.has_value()) {
            o.push_back(t->get());
        }
    }
    static void grow(type &t, int v) { t.emplace(v); }
    static void shrink(type &t) { t.reset(); }
    static void grown(shown &s, int v) { s = {v}; }
    static void shrunk(shown &s) { s.clear(); }
};
struct tuple_in {
    using type = stdx::tuple<item, vector_in::type, item>;
    static void show(type const &t, shown &o) {
        o.push_back(stdx::get<0>(t).get());
        vector_in::show(stdx::get<1>(t), o);
        o.push_back(stdx::get<2>(t).get());
    }
    static void rebuild(type &t, shown const &s) {
        for (std::size_t i = 1; i + 1 < s.size(); ++i) {
            grow(t, s[i]);
        }
    }
    static void grow(type &t, int v) { vector_in::grow(stdx::get<1>(t), v); }
    static void shrink(type &t) { vector_in::shrink(stdx::get<1>(t)); }
    static void grown(shown &s, int v) {
        if (s.size() < 6) {
            s.insert(s.end() - 1, v);
        }
    }
    static void shrunk(shown &s) {
        if (s.size() > 2) {
            s.erase(s.end() - 2);
        }
    }
};
// vectors in a vector: new numbers go into the last one that has room
struct deep_in {
    using row = stdx::cx_vector<item, 2>;
    using type = stdx::cx_vector<row, 3>;
    static void show(type const &t, shown &o) {
        for (auto const &r : t) {
            o.push_back(static_cast<int>(r.size()));
            for (auto const &e : r) {
                o.push_back(e.get());
            }
        }
    }
    static void rebuild(type &t, shown const &s) {
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (i % 3 != 0) {
                grow(t, s[i]);
            }
        }
    }
    static void grow(type &t, int v) {
        if (not t.empty() and not t.back().full()) {
            t.back().push_back(item{v});
        } else if (not t.full()) {
            t.push_back(row{item{v}});
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            (void)t.back().pop_back();
            if (t.back().empty()) {
                (void)t.pop_back();
            }
        }
    }
    static void grown(shown &s, int v) {
        if (s.size() % 3 == 2) {
            s[s.size() - 2] = 2;
            s.push_back(v);
        } else if (s.size() < 9) {
            s.push_back(1);
            s.push_back(v);
        }
    }
    static void shrunk(shown &s) {
        if (s.empty()) {
            return;
        }
        s.pop_back();
        if (s.size() % 3 == 2) {
            s[s.size() - 2] = 1;
        } else {
            s.pop_back();
        }
    }
};
// a queue of maps
struct rings_in {
    using type = stdx::cx_queue<map_in::type, 2>;
    static void show(type const &t, shown &o) {
        auto c = t;
        while (not c.empty()) {
            shown s;
            map_in::show(c.pop(), s);
            o.push_back(static_cast<int>(s.size()));
            o.insert(o.end(), s.begin(), s.end());
        }
    }
    static void grow(type &t, int v) {
        if (not t.full()) {
            map_in::type m{};
            map_in::grow(m, v);
            t.push(m);
        } else {
            map_in::grow(t.front(), v);
        }
    }
    static void shrink(type &t) {
        if (not t.empty()) {
            (void)t.pop();
        }
    }
    static auto count(shown const &s) -> int {
        int n = 0;
        for (std::size_t i = 0; i < s.size(); i += static_cast<u32>(s[i]) + 1) {
            ++n;
        }
        return n;
    }
    static void grown(shown &s, int v) {
        if (count(s) < 2) {
            s.insert(s.end(), {2, v, v + 1000});
        } else {
            shown first(s.begin() + 1, s.begin() + 1 + s[0]);
            shown rest(s.begin() + 1 + s[0], s.end());
            map_in::grown(first, v);
            s = {static_cast<int>(first.size())};
            s.insert(s.end(), first.begin(), first.end());
            s.insert(s.end(), rest.begin(), rest.end());
        }
    }
    static void shrunk(shown &s) {
        if (not s.empty()) {
            s.erase(s.begin(), s.begin() + 1 + s[0]);
        }
    }
};

template <typename In> auto show(typename In::type const &t) -> shown {
    sim::host_scope const h{};
    sim::arm(0);
    shown s;
    In::show(t, s);
    return s;
}
template <typename In> auto drawn(shown &s) -> typename In::type {
    typename In::type t{};
    s = show<In>(t);
    for (u32 i = 0; sim::more(i, 5); ++i) {
        int const v = static_cast<int>(sim::choose(8));
        if (sim::flip(1, 5)) {
            In::shrink(t);
            In::shrunk(s);
        } else {
            In::grow(t, v);
            In::grown(s, v);
        }
    }
    return t;
}

// one inner value changes in place
template <typename In>
auto change(typename In::type &t, shown &s, char const *where) -> bool {
    int const v = static_cast<int>(sim::choose(8));
    bool const shrinks = sim::flip(1, 3);
    u32 const k = elem::draw_fault(4);
    auto const o = elem::attempt(k, [&] {
        if (shrinks) {
            In::shrink(t);
        } else {
            In::grow(t, v);
        }
    });
    sim::event("%s %s %d: %s", where, shrinks ? "shrinks" : "grows", v,
               elem::name_of(o));
    if (o == outcome::ok) {
        if (shrinks) {
            In::shrunk(s);
        } else {
            In::grown(s, v);
        }
    }
    return o == outcome::ok;
}

void same(shown const &got, shown const &want, char const *where, u32 i) {
    sim::require(got == want, "wrong-inner", "%s %d holds %s, expected %s",
                 where, i, text(got).c_str(), text(want).c_str());
}

// ------------------------------------------------- outer ones
constexpr u32 cost = 16; // copies an inner value may take

template <typename In> struct in_vector {
    using I = typename In::type;
    using type = stdx::cx_vector<I, 4>;
    std::vector<shown> model{};

    void inspect(type const &t) {
        sim::require(t.size() == model.size() and
                         t.full() == (model.size() == 4) and
                         t.empty() == model.empty(),
                     "wrong-size", "size %d, expected %d", t.size(),
                     model.size());
        for (u32 i = 0; i < model.size(); ++i) {
            same(show<In>(t[i]), model[i], "place", i);
            same(show<In>(t.begin()[i]), model[i], "iterated place", i);
        }
    }
    void step(type &t) {
        u32 const n = static_cast<u32>(model.size());
        switch (sim::choose(7)) {
        case 0:
        case 1: {
            if (n == 4) {
                break;
            }
            shown s;
            I x = drawn<In>(s);
            bool const gives = sim::flip(1, 2);
            auto const o =
                elem::attempt(gives ? 0 : elem::draw_fault(cost), [&] {
                    if (gives) {
                        t.push_back(std::move(x));
                    } else {
                        t.push_back(x);
                    }
                });
            sim::event("append: %s", elem::name_of(o));
            if (o == outcome::ok) {
                model.push_back(s);
            }
            if (not gives) {
                same(show<In>(x), s, "argument", 0);
            }
            break;
        }
        case 2:
            if (n > 0) {
                shown got;
                elem::attempt(0, [&] { got = show<In>(t.pop_back()); });
                sim::event("pop");
                same(got, model.back(), "popped", n - 1);
                model.pop_back();
            }
            break;
        case 3:
        case 4:
            if (n > 0) {
                u32 const i = sim::choose(n);
                change<In>(t[i], model[i], "place");
            }
            break;
        case 5:
            if (n > 0 and n < 4) {
                u32 const i = sim::choose(n);
                auto const o = elem::attempt(elem::draw_fault(cost),
                                             [&] { t.push_back(t[i]); });
                sim::event("append own %d: %s", i, elem::name_of(o));
                if (o == outcome::ok) {
                    model.push_back(model[i]);
                }
            }
            break;
        default:
            if (n > 1) {
                u32 const i = sim::choose(n);
                u32 const j = sim::choose(n);
                auto const o = elem::attempt(elem::draw_fault(cost), [&] {
                    t[i] = std::as_const(t[j]);
                });
                sim::event("assign %d from %d: %s", i, j, elem::name_of(o));
                // when this failed it may be between old and new: try again
                if (o != outcome::ok) {
                    (void)show<In>(t[i]);
                    sim::sut([&] { t[i] = std::as_const(t[j]); });
                }
                model[i] = shown{model[j]};
            } else if (sim::flip(1, 4)) {
                sim::sut([&] { t.clear(); });
                model.clear();
            }
            break;
        }
    }
};

template <typename In> struct in_queue {
    using I = typename In::type;
    using type = stdx::cx_queue<I, 3>;
    std::vector<shown> model{};

    void inspect(type const &t) {
        u32 const n = static_cast<u32>(model.size());
        sim::require(t.size() == n and t.full() == (n == 3) and
                         t.empty() == (n == 0),
                     "wrong-size", "size %d, expected %d", t.size(), n);
        if (n > 0) {
            same(show<In>(t.front()), model.front(), "front", 0);
            same(show<In>(t.back()), model.back(), "back", n - 1);
        }
        sim::host_scope const h{};
        type c{t};
        for (u32 i = 0; i < n; ++i) {
            same(show<In>(c.pop()), model[i], "copy's place", i);
        }
    }
    void step(type &t) {
        u32 const n = static_cast<u32>(model.size());
        switch (sim::choose(6)) {
        case 0:
        case 1: {
            if (n == 3) {
                break;
            }
            shown s;
            I x = drawn<In>(s);
            bool const gives = sim::flip(1, 2);
            bool const own = n > 0 and sim::flip(1, 4);
            auto const o =
                elem::attempt(gives ? 0 : elem::draw_fault(cost), [&] {
                    if (gives) {
                        t.push(std::move(x));
                    } else if (own) {
                        t.push(t.front());
                    } else {
                        t.push(x);
                    }
                });
            sim::event("push: %s", elem::name_of(o));
            if (o == outcome::ok) {
                model.push_back(own and not gives ? shown{model.front()} : s);
            }
            break;
        }
        case 2:
        case 3:
            if (n > 0) {
                shown got;
                elem::attempt(0, [&] { got = show<In>(t.pop()); });
                sim::event("pop");
                same(got, model.front(), "popped", 0);
                model.erase(model.begin());
            }
            break;
        case 4:
            if (n > 0) {
                if (sim::flip(1, 2)) {
                    change<In>(t.front(), model.front(), "front");
                } else {
                    change<In>(t.back(), model.back(), "back");
                }
            }
            break;
        default:
            if (sim::flip(1, 6)) {
                sim::sut([&] { t.clear(); });
                model.clear();
            }
            break;
        }
    }
};

template <typename In> struct in_map {
    using I = typename In::type;
    using type = stdx::cx_map<item, I, 3>;
    std::array<std::optional<shown>, 4> model{};

    auto count() const -> u32 {
        return static_cast<u32>(
            std::count_if(model.begin(), model.end(),
                          [](auto const &m) { return m.has_value(); }));
    }
    void inspect(type const &t) {
        sim::require(t.size() == count(), "wrong-size",
                     "%d keys, expected %d", t.size(), count());
        for (u32 k = 0; k < 4; ++k) {
            item const key{static_cast<int>(k)};
            sim::require(t.contains(key) == model[k].has_value(),
                         "wrong-content", "contains is wrong for key %d", k);
            if (model[k]) {
                same(show<In>(t.get(key)), *model[k], "key", k);
            }
        }
    }
    void step(type &t) {
        u32 const k = sim::choose(4);
        item const key{static_cast<int>(k)};
        switch (sim::choose(6)) {
        case 0:
        case 1:
        case 2: {
            if (not model[k] and count() == 3) {
                break;
            }
            shown s;
            I const x = drawn<In>(s);
            bool fresh{};
            auto const o = elem::attempt(elem::draw_fault(cost + 2), [&] {
                fresh = t.insert_or_assign(key, x);
            });
            sim::event("put %d: %s", k, elem::name_of(o));
            if (o == outcome::ok) {
                sim::require(fresh == not model[k], "wrong-answer",
                             "put said %d", fresh);
                model[k] = s;
            } else if (model[k]) {
                // only this value may be between old and new
                (void)show<In>(t.get(key));
                sim::sut([&] { t.insert_or_assign(key, x); });
                model[k] = s;
            }
            same(show<In>(x), s, "argument", 0);
            break;
        }
        case 3: {
            std::size_t r{};
            elem::attempt(0, [&] { r = t.erase(key); });
            sim::event("erase %d: %d", k, r);
            sim::require(r == (model[k] ? 1 : 0), "wrong-answer",
                         "erase said %d", r);
            model[k].reset();
            break;
        }
        case 4:
            if (model[k]) {
                change<In>(t.get(key), *model[k], "value");
            }
            break;
        default:
            if (count() > 0 and sim::flip(1, 3)) {
                int got{};
                shown s;
                elem::attempt(0, [&] {
                    auto const e = t.pop_back();
                    got = e.key.get();
                    s = show<In>(e.value);
                });
                sim::event("pop %d", got);
                sim::require(got >= 0 and got < 4 and
                                 model[static_cast<u32>(got)].has_value(),
                             "wrong-content", "popped key %d", got);
                same(s, *model[static_cast<u32>(got)], "popped", 0);
                model[static_cast<u32>(got)].reset();
            }
            break;
        }
    }
};

template <typename In> struct in_tuple {
    using I = typename In::type;
    using type = stdx::tuple<I, item, I>;
    std::array<shown, 2> model{show<In>(I{}), show<In>(I{})};

    void inspect(type const &t) {
        same(show<In>(stdx::get<0>(t)), model[0], "element", 0);
        same(show<In>(stdx::get<2>(t)), model[1], "element", 2);
        sim::require(stdx::get<1>(t).get() == elem::blank, "wrong-content",
                     "element 1 changed");
    }
    void step(type &t) {
        switch (sim::choose(4)) {
        case 0:
            change<In>(stdx::get<0>(t), model[0], "element 0");
            break;
        case 1:
            change<In>(t[stdx::index<2>], model[1], "element 2");
            break;
        case 2: {
            elem::attempt(0, [&] {
                std::swap(stdx::get<0>(t), stdx::get<2>(t));
            });
            std::swap(model[0], model[1]);
            sim::event("exchange");
            break;
        }
        default: {
            shown s;
            I const x = drawn<In>(s);
            auto const o = elem::attempt(elem::draw_fault(cost),
                                         [&] { stdx::get<0>(t) = x; });
            sim::event("assign: %s", elem::name_of(o));
            if (o != outcome::ok) {
                (void)show<In>(stdx::get<0>(t));
                sim::sut([&] { stdx::get<0>(t) = x; });
            }
            model[0] = s;
            break;
        }
        }
    }
};

// two nodes that carry inner values, in one list or none
template <typename In, bool Double> struct in_list {
    using I = typename In::type;
    struct node {
        I value{};
        node *prev{};
        node *next{};
    };
    struct single {
        I value{};
        single *next{};
    };
    using N = std::conditional_t<Double, node, single>;
    using L = std::conditional_t<Double, stdx::intrusive_list<N>,
                                 stdx::intrusive_forward_list<N>>;
    struct type {
        std::array<N, 3> nodes{};
        L list{};
    };
    std::array<shown, 3> held{show<In>(I{}), show<In>(I{}), show<In>(I{})};
    std::vector<u32> order{};

    void inspect(type const &t) {
        u32 i = 0;
        for (auto const &n : t.list) {
            sim::require(i < order.size() and &n == &t.nodes[order[i]],
                         "wrong-order", "node at place %d", i);
            same(show<In>(n.value), held[order[i]], "node", order[i]);
            ++i;
        }
        sim::require(i == order.size(), "wrong-size", "%d nodes, expected %d",
                     i, order.size());
        for (u32 k = 0; k < 3; ++k) {
            same(show<In>(t.nodes[k].value), held[k], "node", k);
        }
    }
    void step(type &t) {
        u32 const k = sim::choose(3);
        bool const in = std::find(order.begin(), order.end(), k) != order.end();
        switch (sim::choose(4)) {
        case 0:
            if (not in) {
                bool const front = sim::flip(1, 2);
                elem::attempt(0, [&] {
                    if (front) {
                        t.list.push_front(&t.nodes[k]);
                    } else {
                        t.list.push_back(&t.nodes[k]);
                    }
                });
                order.insert(front ? order.begin() : order.end(), k);
            }
            break;
        case 1:
            if (not order.empty()) {
                N *n{};
                elem::attempt(0, [&] { n = t.list.pop_front(); });
                sim::require(n == &t.nodes[order.front()], "wrong-order",
                             "popped another node");
                order.erase(order.begin());
            }
            break;
        case 2:
            change<In>(t.nodes[k].value, held[k], "node");
            break;
        default: {
            shown s;
            I const x = drawn<In>(s);
            auto const o = elem::attempt(elem::draw_fault(cost),
                                         [&] { t.nodes[k].value = x; });
            if (o != outcome::ok) {
                (void)show<In>(t.nodes[k].value);
                sim::sut([&] { t.nodes[k].value = x; });
            }
            held[k] = s;
            break;
        }
        }
        sim::event("list step at %d", k);
    }
};

// a lazily computed inner value
template <typename In> struct in_lazy {
    using I = typename In::type;
    struct source {
        shown *says;
        u32 *calls;
        auto operator()() const -> I {
            sim::host_scope const h{};
            ++*calls;
            if (sim::fault_point("compute")) {
                throw sim::fault_t{3};
            }
            I t = drawn<In>(*says);
            return t;
        }
    };
    struct type {
        shown says{};
        u32 calls{};
        stdx::cached<source> lazy{source{&says, &calls}};
    };
    std::optional<shown> model{};
    u32 calls{};

    void inspect(type const &t) {
        sim::require(t.lazy.has_value() == model.has_value(), "wrong-content",
                     "has_value is wrong");
        sim::require(t.calls == calls, "wrong-calls",
                     "%d computations, expected %d", t.calls, calls);
        if (model) {
            same(show<In>(t.lazy.value()), *model, "value", 0);
        }
    }
    void step(type &t) {
        u32 const what = sim::choose(4);
        if (what == 3 and model) {
            change<In>(const_cast<I &>(*t.lazy), *model, "value");
            return;
        }
        auto const o = elem::attempt(elem::draw_fault(1), [&] {
            if (what == 0) {
                t.lazy.reset();
            } else if (what == 1) {
                (void)t.lazy.refresh();
            } else {
                (void)*t.lazy;
            }
        });
        sim::event("lazy %d: %s", what, elem::name_of(o));
        if (what == 0) {
            model.reset();
        } else if (what == 1 or not model) {
            ++calls;
            if (o == outcome::ok) {
                model = t.says;
            } else {
                model.reset();
            }
        }
    }
};

// the value of an optional
template <typename In> struct in_optional {
    using I = typename In::type;
    struct nothing {
        auto operator()() const -> I {
            I t{};
            In::grow(t, -9);
            return t;
        }
    };
    using type = stdx::optional<I, nothing>;
    std::optional<shown> model{};

    void inspect(type const &t) {
        sim::require(t.has_value() == model.has_value(), "wrong-content",
                     "has_value is wrong");
        if (model) {
            same(show<In>(t.value()), *model, "value", 0);
            same(show<In>(*t), *model, "value", 1);
        }
    }
    void step(type &t) {
        u32 const what = sim::choose(6);
        if (what < 2) {
            if (model) {
                change<In>(*t, *model, "value");
            }
            return;
        }
        shown s;
        I const x = drawn<In>(s);
        auto const o =
            elem::attempt(what == 2 ? 0 : elem::draw_fault(cost), [&] {
                if (what == 2) {
                    t.reset();
                } else if (what < 5) {
                    t.emplace(x);
                } else {
                    t = type{std::in_place, x};
                }
            });
        sim::event("optional %d: %s", what, elem::name_of(o));
        if (what == 2) {
            model.reset();
        } else if (o == outcome::ok) {
            model = s;
        } else if (what < 5) {
            model.reset();
        }
    }
};

// members of a set
template <typename In> struct in_set {
    using I = typename In::type;
    using type = stdx::cx_set<I, 4>;
    std::vector<shown> model{};

    auto at(shown const &s) const -> u32 {
        return static_cast<u32>(std::find(model.begin(), model.end(), s) -
                                model.begin());
    }
    void inspect(type const &t) {
        sim::require(t.size() == model.size(), "wrong-size",
                     "%d members, expected %d", t.size(), model.size());
        std::vector<bool> seen(model.size());
        for (auto const &e : t) {
            auto const i = at(show<In>(e));
            sim::require(i < model.size() and not seen[i], "wrong-content",
                         "member %s", text(show<In>(e)).c_str());
            seen[i] = true;
        }
    }
    void step(type &t) {
        shown s;
        I x = drawn<In>(s);
        auto const i = at(s);
        bool const has = i < model.size();
        switch (sim::choose(6)) {
        case 0:
        case 1:
        case 2: {
            if (not has and model.size() == 4) {
                break;
            }
            bool const gives = sim::flip(1, 2);
            bool fresh{};
            auto const o =
                elem::attempt(gives ? 0 : elem::draw_fault(cost), [&] {
                    fresh = gives ? t.insert(std::move(x))
                                  : t.insert(std::as_const(x));
                });
            sim::event("insert: %s", elem::name_of(o));
            if (o == outcome::ok) {
                sim::require(fresh != has, "wrong-answer", "insert said %d",
                             fresh);
                if (fresh) {
                    model.push_back(s);
                }
            }
            break;
        }
        case 3:
        case 4: {
            std::size_t r{};
            bool const own = not model.empty() and sim::flip(1, 2);
            shown gone = s;
            elem::attempt(0, [&] {
                if (own) {
                    auto const &e = *t.begin();
                    gone = show<In>(e);
                    r = t.erase(e);
                } else {
                    r = t.erase(x);
                }
            });
            sim::event("erase: %d", r);
            sim::require(r == (own or has ? 1 : 0), "wrong-answer",
                         "erase said %d", r);
            if (r == 1) {
                model.erase(model.begin() + at(gone));
            }
            break;
        }
        default:
            if (not model.empty() and sim::flip(1, 3)) {
                shown got;
                elem::attempt(0, [&] { got = show<In>(t.pop_back()); });
                sim::event("pop");
                sim::require(at(got) < model.size(), "wrong-content",
                             "popped %s", text(got).c_str());
                model.erase(model.begin() + at(got));
            }
            break;
        }
        bool answer{};
        sim::sut([&] { answer = t.contains(drawn_again(x, s)); });
        sim::require(answer == (at(s) < model.size()), "wrong-answer",
                     "contains said %d", answer);
    }
    // x may have been given up
    static auto drawn_again(I const &x, shown const &s) -> I {
        sim::host_scope const h{};
        if (show<In>(x) == s) {
            return x;
        }
        I t{};
        In::rebuild(t, s);
        return t;
    }
};

template <typename Out> void history() {
    elem::reset_ledger();
    {
        auto const t = sim::make_default<typename Out::type>();
        Out model{};
        for (u32 i = 0, most = sim::lengthy(14); i == 0 or sim::more(i, most);
             ++i) {
            model.step(*t);
            {
                sim::sut_scope const s{};
                model.inspect(*t);
            }
            // as a whole
            if constexpr (std::is_copy_constructible_v<typename Out::type> and
                          not requires { t->list; } and
                          not requires { t->lazy; }) {
                if (sim::flip(1, 6)) {
                    auto const o = elem::attempt(
                        elem::draw_fault(4 * cost), [&] {
                            typename Out::type const c{*t};
                            sim::host_scope const h{};
                            sim::arm(0);
                            model.inspect(c);
                        });
                    sim::event("copy: %s", elem::name_of(o));
                    sim::sut_scope const s{};
                    model.inspect(*t);
                }
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}
using case_t = void (*)();
template <template <typename> typename Out> void any_inner() {
    static constexpr case_t fs[] = {
        history<Out<vector_in>>,   history<Out<queue_in>>,
        history<Out<set_in>>,      history<Out<map_in>>,
        history<Out<multimap_in>>, history<Out<optional_in>>,
        history<Out<tuple_in>>,    history<Out<deep_in>>,
        history<Out<rings_in>>,
    };
    fs[sim::choose(std::size(fs))]();
}
void any_set() {
    static constexpr case_t fs[] = {
        history<in_set<vector_in>>,
        history<in_set<deep_in>>,
        history<in_set<tuple_in>>,
    };
    fs[sim::choose(std::size(fs))]();
}
void any_optional() {
    static constexpr case_t fs[] = {
        history<in_optional<vector_in>>,
        history<in_optional<deep_in>>,
    };
    fs[sim::choose(std::size(fs))]();
}
template <typename In> using in_double_list = in_list<In, true>;
template <typename In> using in_single_list = in_list<In, false>;

sim::scenario const scenarios[] = {
    {"in_vector", 3, any_inner<in_vector>},
    {"in_queue", 3, any_inner<in_queue>},
    {"in_map", 3, any_inner<in_map>},
    {"in_tuple", 1, any_inner<in_tuple>},
    {"in_list", 1, any_inner<in_double_list>},
    {"in_forward_list", 1, any_inner<in_single_list>},
    {"in_lazy", 2, any_inner<in_lazy>},
    {"in_optional", 1, any_optional},
    {"in_set", 1, any_set},
};
} // namespace

sim::property_def const sim::the_property = {
    "C29",
    "Each run nests one of 9 kinds of value (containers, optional, tuple, also "
    "two deep) in one of 9 kinds of holder (vector, queue, map, set, tuple, lists, "
    "lazy value, optional) and runs a history of up to 14 calls (rarely 1500) on the "
    "holder and on the values in place; in a quarter of the calls the k-th "
    "innermost copy or computation fails. After every call all values are "
    "compared with a reference. Non-trivial: the history ended. Distinct: "
    "hash of all choices and results.",
    "stdx containers, optional, tuple, lists and lazy values in one another",
    "innermost elements and computations that fail",
    scenarios,
    9,
    4000000,
    12000000,
};
