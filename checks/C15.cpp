#include "../sim/elem.hpp"

#include <stdx/cx_multimap.hpp>

#include <algorithm>
#include <limits>
#include <map>
#include <set>

namespace {
using elem::outcome;
using u32 = std::uint32_t;
using model = std::map<int, std::set<int>>;

// integers are shown to the containers in disguise, so that keys and values
// are not only small positive numbers
int twist = 0;
void draw_twist() {
    constexpr int masks[] = {0,
                             0,
                             -1,
                             std::numeric_limits<int>::min(),
                             std::numeric_limits<int>::max(),
                             0x10100};
    twist = masks[sim::choose(6)];
}

template <typename T> auto num(T const &t) -> int {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<int>(static_cast<T>(t ^ static_cast<T>(twist)));
    } else {
        return t.get();
    }
}
template <typename T> auto mk(int v) -> T {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(static_cast<T>(v) ^ static_cast<T>(twist));
    } else {
        return static_cast<T>(v);
    }
}

template <typename M, typename K, typename V>
void compare(M &s, model const &m, int keys, int values) {
    M const &c = s;
    sim::require(c.size() == m.size() and c.empty() == m.empty(), "wrong-size",
                 "%d keys, expected %d", c.size(), m.size());
    std::set<int> seen{};
    for (auto const &[k, vs] : c) {
        auto const it = m.find(num(k));
        sim::require(it != m.end(), "wrong-content",
                     "key %d should not be there", num(k));
        sim::require(seen.insert(num(k)).second, "duplicate-key",
                     "key %d is held twice", num(k));
        std::set<int> vals{};
        for (auto const &v : vs) {
            sim::require(it->second.count(num(v)) == 1, "wrong-value",
                         "key %d should not have value %d", num(k), num(v));
            sim::require(vals.insert(num(v)).second, "duplicate-value",
                         "key %d has value %d twice", num(k), num(v));
        }
        sim::require(vals.size() == it->second.size() and
                         vs.size() == vals.size(),
                     "wrong-value", "key %d has %d values, expected %d", num(k),
                     vals.size(), it->second.size());
    }
    sim::require(seen.size() == m.size(), "wrong-content", "keys are missing");
    std::size_t n = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        ++n;
    }
    for (auto it = s.cbegin(); it != s.cend(); ++it) {
        ++n;
    }
    sim::require(n == 2 * m.size(), "wrong-content", "iteration is short");
    for (int k = 0; k < keys; ++k) {
        auto const it = m.find(k);
        K const key{mk<K>(k)};
        sim::require(c.contains(key) == (it != m.end()), "wrong-content",
                     "contains is wrong for key %d", k);
        if (it != m.end()) {
            sim::require(s.get(key).size() == it->second.size() and
                             c.get(key).size() == it->second.size(),
                         "wrong-value", "get(%d) has %d values, expected %d", k,
                         c.get(key).size(), it->second.size());
        }
        for (int v = 0; v < values; ++v) {
            V const val{mk<V>(v)};
            bool const want = it != m.end() and it->second.count(v) == 1;
            sim::require(c.contains(key, val) == want, "wrong-content",
                         "contains is wrong for %d=%d", k, v);
        }
    }
}

template <typename K, typename V, std::size_t KN, std::size_t VN>
void multimap_run() {
    using M = stdx::cx_multimap<K, V, KN, VN>;
    constexpr int keys = static_cast<int>(KN) + 1;
    constexpr int values = static_cast<int>(VN) + 1;
    elem::reset_ledger();
    auto cmp = [&](M &s, model const &m) {
        sim::sut_scope const g{};
        compare<M, K, V>(s, m, keys, values);
    };
    {
        auto s = sim::make_default<M>();
        auto w = sim::make_default<M>();
        model ms{}, mw{};
        u32 most = sim::lengthy(20);
        if (KN * VN > 16) { // each comparison takes long
            most = std::min(most, 300u);
        }
        for (u32 i = 0; sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(2 + 2 * VN);
            int const ki = static_cast<int>(sim::choose(keys));
            int const vi = static_cast<int>(sim::choose(values));
            K const fresh_key{mk<K>(ki)};
            V const fresh_val{mk<V>(vi)};
            outcome o{};
            auto const it = ms.find(ki);
            bool const has = it != ms.end();
            // callers may pass what the container itself holds
            K const *own_key = &fresh_key;
            V const *own_val = &fresh_val;
            bool const take_key = sim::flip(1, 4);
            bool const take_val = sim::flip(1, 4);
            for (auto const &e : *s) {
                if (take_key and e.key == fresh_key) {
                    own_key = &e.key;
                }
                for (auto const &v : e.value) {
                    if (take_val and v == fresh_val and own_val == &fresh_val) {
                        own_val = &v;
                    }
                }
            }
            K const &key = *own_key;
            V const &val = *own_val;
            switch (sim::choose(11)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                if (has ? (it->second.size() == VN and
                           it->second.count(vi) == 0)
                        : (ms.size() == KN)) {
                    break;
                }
                bool const put = sim::choose(2) == 1;
                o = elem::attempt(k, [&] {
                    if (put) {
                        s->put(key, val);
                    } else {
                        s->insert(key, val);
                    }
                });
                sim::event("insert %d=%d: %s", ki, vi, elem::name_of(o));
                if (o == outcome::ok) {
                    ms[ki].insert(vi);
                }
                break;
            }
            case 4: {
                if (not has and ms.size() == KN) {
                    break;
                }
                bool const put = sim::choose(2) == 1;
                o = elem::attempt(k, [&] {
                    if (put) {
                        s->put(key);
                    } else {
                        s->insert(key);
                    }
                });
                sim::event("insert key %d: %s", ki, elem::name_of(o));
                if (o == outcome::ok) {
                    ms[ki];
                }
                break;
            }
            case 5:
            case 6:
            case 7: {
                std::size_t r{};
                o = elem::attempt(k, [&] { r = s->erase(key, val); });
                sim::event("erase %d=%d: %s %d", ki, vi, elem::name_of(o), r);
                if (o == outcome::ok) {
                    std::size_t want{};
                    if (has) {
                        want = it->second.erase(vi);
                        if (it->second.empty()) {
                            // a key without values may or may not go away
                            // when a value it does not have is erased
                            if (want == 1 or not s->contains(fresh_key)) {
                                ms.erase(it);
                            }
                        }
                    }
                    sim::require(r == want, "wrong-answer", "erase said %d", r);
                }
                break;
            }
            case 8: {
                std::size_t r{};
                o = elem::attempt(k, [&] { r = s->erase(key); });
                sim::event("erase key %d: %s %d", ki, elem::name_of(o), r);
                if (o == outcome::ok) {
                    sim::require(r == ms.erase(ki), "wrong-answer",
                                 "erase said %d", r);
                }
                break;
            }
            case 9: {
                o = elem::attempt(k, [&] {
                    M c{*s};
                    sim::host_scope const h{};
                    sim::arm(0);
                    compare<M, K, V>(c, ms, keys, values);
                });
                sim::event("copy: %s", elem::name_of(o));
                break;
            }
            default: {
                auto const how = sim::choose(5);
                elem::attempt(0, [&] {
                    if (how == 0) {
                        s->clear();
                    } else if (how == 1) {
                        std::swap(*s, *w);
                    } else if (how == 2) {
                        *w = *s;
                    } else if (how == 3) {
                        *s = *w;
                    } else if (has and it->second.size() < VN) {
                        s->get(key).insert(val);
                    }
                });
                sim::event("clear/assign %d", how);
                if (how == 0) {
                    ms.clear();
                } else if (how == 1) {
                    std::swap(ms, mw);
                } else if (how == 2) {
                    mw = ms;
                } else if (how == 3) {
                    ms = mw;
                } else if (has and it->second.size() < VN) {
                    it->second.insert(vi);
                }
                break;
            }
            }
            cmp(*s, ms);
            cmp(*w, mw);
            if (ms.size() == KN) {
                sim::probe("keys_full");
            }
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

template <typename K, typename V> void sizes() {
    draw_twist();
    switch (sim::choose(5)) {
    case 0:
        return multimap_run<K, V, 2, 2>();
    case 1:
        return multimap_run<K, V, 3, 3>();
    case 2:
        return multimap_run<K, V, 1, 3>();
    case 3:
        return multimap_run<K, V, 4, 1>();
    default:
        return multimap_run<K, V, 3, 4>();
    }
}
// more than 256 keys, or more than 256 values of a key
template <std::size_t KN, std::size_t VN> void big_run() {
    auto s = sim::make_default<stdx::cx_multimap<int, int, KN, VN>>();
    model m{};
    for (u32 i = 0; sim::more(i, 6); ++i) {
        u32 const kf = sim::choose(KN), kl = 1 + sim::choose(KN);
        u32 const vf = sim::choose(VN), vl = 1 + sim::choose(VN);
        u32 const how = sim::choose(4);
        sim::event("block %d: %d keys from %d, %d values from %d", how, kl, kf,
                   vl, vf);
        for (u32 a = 0; a < kl; ++a) {
            int const k = static_cast<int>((kf + a) % KN);
            sim::sut_scope const g{};
            if (how == 3) {
                sim::require(s->erase(k) == m.erase(k), "wrong-answer",
                             "erasure of key %d", k);
                continue;
            }
            for (u32 b = 0; b < vl; ++b) {
                int const v = static_cast<int>((vf + b) % VN);
                if (how < 2) {
                    s->insert(k, v);
                    m[k].insert(v);
                } else {
                    auto const it = m.find(k);
                    std::size_t const had =
                        it == m.end() ? 0 : it->second.erase(v);
                    if (had != 0 and it->second.empty()) {
                        m.erase(it);
                    }
                    sim::require(s->erase(k, v) == had, "wrong-answer",
                                 "erasure of %d=%d", k, v);
                }
            }
        }
        sim::sut_scope const g{};
        sim::require(s->size() == m.size() and s->empty() == m.empty(),
                     "wrong-size", "%d keys, expected %d", s->size(), m.size());
        for (auto const &[k, vs] : *s) {
            auto const it = m.find(k);
            sim::require(it != m.end() and vs.size() == it->second.size(),
                         "wrong-value", "key %d has %d values", k, vs.size());
            for (auto v : vs) {
                sim::require(it->second.count(v) == 1, "wrong-value",
                             "key %d has value %d", k, v);
            }
        }
    }
    sim::nontrivial();
}

// capacities beyond a handful, with failures
void more_objects() {
    twist = 0;
    return sim::flip(1, 2) ? multimap_run<elem::item, elem::item, 17, 2>()
                           : multimap_run<elem::item, elem::item, 2, 18>();
}

// Equal keys and values that can be told apart: what is there already stays.
void equal_keys() {
    using elem::labelled;
    constexpr u32 kn = 4, vn = 3;
    auto s = sim::make_default<stdx::cx_multimap<labelled, labelled, kn, vn>>();
    struct entry {
        int label{};
        std::map<int, int> values{};
    };
    std::map<int, entry> r{};
    for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
        labelled const k{static_cast<int>(sim::choose(kn + 1)),
                         static_cast<int>(i + 1)};
        labelled const v{static_cast<int>(sim::choose(vn + 1)),
                         static_cast<int>(i + 1000)};
        auto const it = r.find(k.number);
        bool const had = it != r.end();
        bool const full = not had ? r.size() == kn
                                  : it->second.values.size() == vn and
                                        it->second.values.count(v.number) == 0;
        u32 const what = sim::choose(5);
        sim::event("%s %d:%d with %d:%d",
                   what < 2    ? "add"
                   : what == 2 ? "add bare"
                   : what == 3 ? "erase"
                               : "erase all of",
                   k.number, k.label, v.number, v.label);
        if (what < 3) {
            if (full) {
                continue;
            }
            sim::sut([&] {
                what == 0   ? s->insert(k, v)
                : what == 1 ? s->put(k, v)
                            : s->insert(k);
            });
            auto &e = r.insert({k.number, {k.label, {}}}).first->second;
            if (what < 2) {
                e.values.insert({v.number, v.label});
            }
        } else {
            std::size_t n{}, want{};
            sim::sut([&] { n = what == 3 ? s->erase(k, v) : s->erase(k); });
            if (had and what == 3) {
                want = it->second.values.erase(v.number);
                if (it->second.values.empty() and
                    (want == 1 or not s->contains(k))) {
                    r.erase(it);
                }
            } else if (had) {
                want = 1;
                r.erase(it);
            }
            sim::require(n == want, "wrong-answer",
                         "the erasure reports %d, expected %d", n, want);
        }
        sim::require(s->size() == r.size(), "wrong-size",
                     "size is %d, expected %d", s->size(), r.size());
        for (auto const &[key, vals] : *s) {
            auto const at = r.find(key.number);
            sim::require(at != r.end() and at->second.label == key.label and
                             vals.size() == at->second.values.size(),
                         "wrong-content", "key %d:%d has %d values", key.number,
                         key.label, vals.size());
            for (auto const &x : vals) {
                auto const w = at->second.values.find(x.number);
                sim::require(w != at->second.values.end() and
                                 w->second == x.label,
                             "wrong-content", "key %d has value %d:%d",
                             key.number, x.number, x.label);
            }
        }
    }
    sim::nontrivial();
}

sim::scenario const scenarios[] = {
    {"objects", 400, sizes<elem::item, elem::item>},
    {"integer_keys", 100, sizes<int, elem::item>},
    {"integers", 100, sizes<int, int>},
    {"records", 60, sizes<elem::record, elem::record>},
    {"mixed_integers", 60, sizes<std::uint64_t, std::uint8_t>},
    {"large_objects", 20, sizes<elem::heavy, elem::item>},
    {"large_records", 20, sizes<elem::item, elem::block>},
    {"more_objects", 10, more_objects},
    {"equal_keys", 40, equal_keys},
    {"many_keys", 1, big_run<270, 2>},
    {"many_values", 1, big_run<2, 270>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C15",
    "Each run draws a multimap (1-4, rarely 18 or 270, keys and values per "
    "key, eight "
    "element kinds) and a history of up to 20 (rarely 1500) insertions, "
    "erasures, "
    "copies and clears "
    "over one key and one value more than fit; in a quarter of the calls the "
    "k-th element copy fails. After every call all associations are compared "
    "with a reference multimap. Non-trivial: the history ran to its end. "
    "Distinct: hash of all choices and results.",
    "stdx::cx_multimap, stdx::cx_map, stdx::cx_set",
    "element type with failing copies and lifetime ledger",
    scenarios,
    std::size(scenarios),
    1800000,
    5400000,
};
