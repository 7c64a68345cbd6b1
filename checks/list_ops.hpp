// Histories over several intrusive lists and a pool of nodes.
#pragma once

#include "../sim/panicseam.hpp"

#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>

#include <vector>

namespace lists {
using u32 = std::uint32_t;
using elem::outcome;

struct dnode {
    dnode *prev{};
    dnode *next{};
    int id{};
};
struct snode {
    int id{};
    snode *next{};
};
// links are not the first members and the node is bigger
struct payload {
    int id{};
    std::uint64_t data[3]{};
};
struct big_dnode : payload {
    big_dnode *next{};
    big_dnode *prev{};
};

template <typename L>
constexpr bool has_insert = requires(L l, typename L::pointer n) {
    l.insert(l.begin(), n);
};

template <typename L, typename Node, bool Checked> struct world {
    constexpr static bool dbl = requires(Node n) { n.prev; };
    constexpr static bool list_dbl = has_insert<L>;

    std::vector<sim::box<L>> l{};
    std::vector<sim::box<Node>> n{};
    std::vector<std::vector<u32>> m{}; // reference: node numbers per list
    std::vector<int> where{};          // list number or -1

    world(u32 nl, u32 nn) : m(nl), where(nn, -1) {
        for (u32 i = 0; i < nl; ++i) {
            l.push_back(sim::make_default<L>());
        }
        for (u32 i = 0; i < nn; ++i) {
            n.push_back(sim::make_default<Node>());
            n.back()->id = static_cast<int>(i);
        }
    }

    void check_list(u32 j) const {
        auto &lst = *l[j];
        L const &c = lst;
        auto const &ref = m[j];
        sim::require(c.empty() == ref.empty(), "wrong-emptiness",
                     "list %d says empty=%d with %d nodes", j, c.empty(),
                     ref.size());
        std::size_t i = 0;
        for (auto it = lst.begin(); it != lst.end(); ++it, ++i) {
            sim::require(i < ref.size(), "extra-node",
                         "walk of list %d does not end after %d nodes", j, i);
            sim::require(&*it == n[ref[i]].get(), "wrong-node",
                         "place %d of list %d holds the wrong node", i, j);
        }
        sim::require(i == ref.size(), "lost-node",
                     "walk of list %d visits %d nodes, expected %d", j, i,
                     ref.size());
        i = 0;
        for (auto it = c.begin(); it != c.end(); ++i) {
            sim::require(i < ref.size() and it->id == n[ref[i]]->id,
                         "wrong-node", "const walk differs at %d", i);
            auto const old = it++;
            sim::require(&*old == n[ref[i]].get(), "wrong-node",
                         "post-increment at %d left the wrong place", i);
        }
        sim::require(i == ref.size(), "lost-node", "const walk differs");
        i = 0;
        for (auto it = lst.begin(); it != lst.end(); ++i) {
            sim::require(i < ref.size(), "extra-node",
                         "walk of list %d does not end after %d nodes", j, i);
            auto const old = it++;
            sim::require(&*old == n[ref[i]].get() and
                             old->id == n[ref[i]]->id and not(old == it),
                         "wrong-node",
                         "post-increment at %d left the wrong place", i);
        }
        i = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) {
            sim::require(i < ref.size() and &*it == n[ref[i]].get(),
                         "wrong-node", "cbegin walk differs at %d", i);
        }
        sim::require(i == ref.size(), "lost-node", "cbegin walk differs");
        if (not ref.empty()) {
            sim::require(&c.front() == n[ref.front()].get(), "wrong-node",
                         "front of list %d is wrong", j);
            sim::require(&c.back() == n[ref.back()].get(), "wrong-node",
                         "back of list %d is wrong", j);
        }
        if constexpr (dbl and list_dbl) {
            Node const *p = nullptr;
            for (auto x : ref) {
                sim::require(n[x]->prev == p, "bad-back-link",
                             "backward link of node %d is wrong", x);
                p = n[x].get();
            }
        }
    }
    void check() const {
        sim::sut_scope const s{};
        for (u32 j = 0; j < l.size(); ++j) {
            check_list(j);
        }
    }

    auto pick_free() const -> int {
        std::vector<int> f{};
        for (u32 i = 0; i < n.size(); ++i) {
            if (where[i] < 0) {
                f.push_back(static_cast<int>(i));
            }
        }
        return f.empty() ? -1 : f[sim::choose(static_cast<u32>(f.size()))];
    }
    // a node that is out of every list may hold any old pointers
    void scribble(u32 x) {
        switch (sim::choose(4)) {
        case 0:
            break;
        case 1:
            n[x]->next = n[sim::choose(static_cast<u32>(n.size()))].get();
            if constexpr (dbl) {
                n[x]->prev = n[sim::choose(static_cast<u32>(n.size()))].get();
            }
            sim::fault("stale_links");
            break;
        default:
            n[x]->next = reinterpret_cast<Node *>(0x5a5a5a5a5a50);
            if constexpr (dbl) {
                n[x]->prev = reinterpret_cast<Node *>(0x5b5b5b5b5b50);
            }
            sim::fault("stale_links");
            break;
        }
    }
    // put node x into list j at place `at` using one of the ways of adding
    auto add(u32 j, u32 x, u32 at, u32 how) -> outcome {
        return elem::attempt(0, [&] {
            auto &lst = *l[j];
            auto *p = n[x].get();
            if (how == 0) {
                lst.push_back(p);
            } else if (how == 1) {
                lst.push_front(p);
            } else if constexpr (list_dbl) {
                auto it = lst.begin();
                for (u32 i = 0; i < at; ++i) {
                    ++it;
                }
                lst.insert(it, p);
            }
        });
    }
    void model_add(u32 j, u32 x, u32 at, u32 how) {
        auto &ref = m[j];
        auto const place = how == 0   ? ref.size()
                           : how == 1 ? 0
                                      : static_cast<std::size_t>(at);
        ref.insert(ref.begin() + static_cast<std::ptrdiff_t>(place), x);
        where[x] = static_cast<int>(j);
    }
    void model_out(u32 j, std::size_t place) {
        where[m[j][place]] = -1;
        m[j].erase(m[j].begin() + static_cast<std::ptrdiff_t>(place));
    }

    // many nodes at once
    void add_block() {
        u32 const j = sim::choose(static_cast<u32>(l.size()));
        u32 const how = sim::choose(2);
        u32 count = 1 + sim::choose(static_cast<u32>(n.size()));
        sim::event("add up to %d nodes to list %d by %s", count, j,
                   how == 0 ? "push_back" : "push_front");
        auto const before = seam::count();
        for (u32 x = 0; x < n.size() and count > 0; ++x) {
            if (where[x] >= 0) {
                continue;
            }
            auto const o = add(j, x, 0, how);
            seam::expect_panics(o, before, nullptr);
            model_add(j, x, 0, how);
            --count;
        }
    }

    // one node in and out again, many times
    void churn() {
        int const free = pick_free();
        if (free < 0) {
            return;
        }
        auto const x = static_cast<u32>(free);
        u32 const j = sim::choose(static_cast<u32>(l.size()));
        auto &lst = *l[j];
        u32 how = sim::choose(list_dbl ? 3 : 2);
        if (not list_dbl and not m[j].empty()) {
            how = 1;
        }
        u32 const at =
            how == 2 ? sim::choose(static_cast<u32>(m[j].size()) + 1) : 0;
        bool const remove = list_dbl and (how == 2 or sim::flip(1, 2));
        u32 k = sim::flip(1, 512) ? 65500 + sim::choose(100)
                                  : 200 + sim::choose(400);
        sim::event("node %d in and out of list %d %d times", x, j, k);
        auto const before = seam::count();
        while (k-- > 0) {
            seam::expect_panics(add(j, x, at, how), before, nullptr);
            typename L::pointer p = n[x].get();
            auto const o = elem::attempt(0, [&] {
                if constexpr (list_dbl) {
                    if (remove) {
                        lst.remove(p);
                        return;
                    }
                    if (how == 0) {
                        p = lst.pop_back();
                        return;
                    }
                }
                p = lst.pop_front();
            });
            seam::expect_panics(o, before, nullptr);
            sim::require(p == n[x].get(), "wrong-node",
                         "another node came out than went in");
        }
    }

    // one legal call
    void legal_step() {
        u32 const j = sim::choose(static_cast<u32>(l.size()));
        auto &lst = *l[j];
        auto &ref = m[j];
        auto const before = seam::count();
        outcome o = outcome::ok;
        u32 const kinds = list_dbl ? 9 : 7;
        u32 const kind = sim::choose(kinds);
        switch (kind) {
        case 0:
        case 1:
        case 2: {
            int const x = pick_free();
            if (x < 0) {
                break;
            }
            if constexpr (not Checked) {
                scribble(static_cast<u32>(x));
            }
            u32 const how = sim::choose(list_dbl ? 3 : 2);
            u32 const at =
                how == 2 ? sim::choose(static_cast<u32>(ref.size()) + 1) : 0;
            sim::event("add node %d to list %d by %s at %d", x, j,
                       how == 0   ? "push_back"
                       : how == 1 ? "push_front"
                                  : "insert",
                       at);
            o = add(j, static_cast<u32>(x), at, how);
            seam::expect_panics(o, before, nullptr);
            model_add(j, static_cast<u32>(x), at, how);
            break;
        }
        case 3:
        case 4: {
            if (ref.empty()) {
                break;
            }
            sim::event("pop_front from list %d", j);
            typename L::pointer p = nullptr;
            o = elem::attempt(0, [&] { p = lst.pop_front(); });
            sim::require(p == n[ref.front()].get(), "wrong-node",
                         "pop_front returned the wrong node");
            model_out(j, 0);
            break;
        }
        case 5: {
            if (sim::choose(3) == 0) {
                sim::event("clear list %d", j);
                o = elem::attempt(0, [&] { lst.clear(); });
                while (not ref.empty()) {
                    model_out(j, 0);
                }
            }
            break;
        }
        case 6: { // move everything to another list, one by one
            u32 const to = sim::choose(static_cast<u32>(l.size()));
            if (to == j) {
                break;
            }
            sim::event("move all of list %d to list %d", j, to);
            while (not ref.empty()) {
                typename L::pointer p = nullptr;
                o = elem::attempt(0, [&] {
                    p = lst.pop_front();
                    l[to]->push_back(p);
                });
                auto const x = ref.front();
                sim::require(p == n[x].get(), "wrong-node",
                             "pop_front returned the wrong node");
                seam::expect_panics(o, before, nullptr);
                model_out(j, 0);
                model_add(to, x, 0, 0);
            }
            break;
        }
        default:
            if constexpr (list_dbl) {
                if (ref.empty()) {
                    break;
                }
                if (kind == 7) {
                    sim::event("pop_back from list %d", j);
                    typename L::pointer p = nullptr;
                    o = elem::attempt(0, [&] { p = lst.pop_back(); });
                    sim::require(p == n[ref.back()].get(), "wrong-node",
                                 "pop_back returned the wrong node");
                    model_out(j, ref.size() - 1);
                } else {
                    u32 const at = sim::choose(static_cast<u32>(ref.size()));
                    sim::event("remove place %d of list %d", at, j);
                    o = elem::attempt(0,
                                      [&] { lst.remove(n[ref[at]].get()); });
                    model_out(j, at);
                }
            }
            break;
        }
        seam::expect_panics(o, before, nullptr);
    }
};

template <typename L, typename Node, bool Checked> void history() {
    seam::reset();
    bool const many = sim::choose(256) == 255;
    world<L, Node, Checked> w{1 + sim::choose(3),
                              many ? 100 + sim::choose(200)
                                   : 1 + sim::choose(7)};
    for (u32 i = 0, most = sim::lengthy(30); sim::more(i, most); ++i) {
        if (many and sim::flip(1, 4)) {
            w.add_block();
        }
        if (sim::flip(1, 1024)) {
            w.churn();
        }
        w.legal_step();
        w.check();
    }
    sim::nontrivial();
}
} // namespace lists
