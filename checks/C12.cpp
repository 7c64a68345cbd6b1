#include "list_ops.hpp"

namespace {
using namespace lists;

template <typename W> struct snapshot {
    std::vector<void const *> links{};
    explicit snapshot(W const &w) {
        for (auto const &x : w.n) {
            links.push_back(x->next);
            if constexpr (W::dbl) {
                links.push_back(x->prev);
            }
        }
    }
    auto operator==(snapshot const &) const -> bool = default;
};

// Tries to add a node whose link fields are populated.
template <typename W> void misuse_step(W &w) {
    u32 const nn = static_cast<u32>(w.n.size());
    u32 const x = sim::choose(nn);
    auto &node = *w.n[x];
    bool const linked = w.where[x] >= 0;
    bool planted = false;
    if (not linked) { // give an unlinked node populated fields
        auto *junk = w.n[sim::choose(nn)].get();
        planted = true;
        if constexpr (W::dbl) {
            u32 const how = sim::choose(3);
            if (how != 1) {
                node.next = junk;
            }
            if (how != 0) {
                node.prev = junk;
            }
        } else {
            node.next = junk;
        }
    }
    bool populated = node.next != nullptr;
    if constexpr (W::dbl) {
        populated = populated or node.prev != nullptr;
    }
    if (not populated) { // the only node of a list, or the last of a singly
        return;          // linked one: cannot be told from an unlinked node
    }
    u32 const j = sim::choose(static_cast<u32>(w.l.size()));
    u32 const how = sim::choose(W::list_dbl ? 3 : 2);
    u32 const at =
        how == 2 ? sim::choose(static_cast<u32>(w.m[j].size()) + 1) : 0;
    snapshot<W> const before{w};
    auto const count = seam::count();
    seam::state.observer = [&] {
        sim::require(before == snapshot<W>{w}, "changed-before-refusal",
                     "links changed before the panic was raised");
        for (u32 i = 0; i < w.l.size(); ++i) {
            w.check_list(i);
        }
    };
    sim::event("try to add %s node %d to list %d by %s",
               linked ? "linked" : "scribbled", x, j,
               how == 0   ? "push_back"
               : how == 1 ? "push_front"
                          : "insert");
    sim::fault(linked ? "add_linked_node" : "add_scribbled_node");
    outcome o{};
    if (W::list_dbl and sim::choose(6) == 5) { // a list of the other kind
        stdx::intrusive_forward_list<std::remove_cvref_t<decltype(node)>>
            other{};
        sim::event("  (a list of the other kind)");
        o = elem::attempt(0, [&] {
            if (how == 0) {
                other.push_back(&node);
            } else {
                other.push_front(&node);
            }
        });
        sim::require(other.empty() and other.begin() == other.end(),
                     "changed-by-refusal", "a refused node was added");
    } else {
        o = w.add(j, x, at, how);
    }
    seam::state.observer = nullptr;
    seam::expect_panics(o, count, "node");
    sim::require(before == snapshot<W>{w}, "changed-by-refusal",
                 "a refused node or its list changed");
    if (planted) {
        node.next = nullptr;
        if constexpr (W::dbl) {
            node.prev = nullptr;
        }
    }
}

template <typename L, typename Node> void misuse() {
    seam::reset();
    bool const many = sim::choose(32) == 31;
    world<L, Node, true> w{
        1 + sim::choose(3),
        many ? (sim::flip(1, 16) ? 250 + sim::choose(150) : 9 + sim::choose(60))
             : 1 + sim::choose(7)};
    for (u32 i = 0, most = sim::lengthy(30); sim::more(i, most); ++i) {
        if (many and sim::flip(1, 4)) {
            w.add_block();
        }
        if (sim::flip(1, 1024)) {
            w.churn();
        }
        if (sim::choose(3) == 0) {
            misuse_step(w);
        } else {
            w.legal_step();
        }
        w.check();
    }
    // every node that left a list is accepted again
    for (u32 j = 0; j < w.l.size(); ++j) {
        auto const n = w.m[j].size();
        u32 const how = sim::choose(3);
        if (how == 0) {
            sim::sut([&] { w.l[j]->clear(); });
        } else {
            for (std::size_t k = 0; k < n; ++k) {
                sim::sut([&] {
                    if constexpr (world<L, Node, true>::list_dbl) {
                        if (how == 1) {
                            w.l[j]->pop_back();
                            return;
                        }
                    }
                    w.l[j]->pop_front();
                });
            }
        }
        while (not w.m[j].empty()) {
            w.model_out(j, 0);
        }
    }
    for (u32 x = 0; x < w.n.size(); ++x) {
        auto const before = seam::count();
        auto const o = w.add(0, x, 0, 0);
        seam::expect_panics(o, before, nullptr);
        w.model_add(0, x, 0, 0);
    }
    w.check();
    sim::nontrivial();
}

template <typename N> using list = stdx::intrusive_list<N>;
template <typename N> using flist = stdx::intrusive_forward_list<N>;

sim::scenario const scenarios[] = {
    {"doubly_linked", 3, misuse<list<dnode>, dnode>},
    {"doubly_linked_large_nodes", 1, misuse<list<big_dnode>, big_dnode>},
    {"singly_linked", 2, misuse<flist<snode>, snode>},
    {"singly_linked_doubly_linkable_nodes", 1, misuse<flist<dnode>, dnode>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C12",
    "Each run draws 1-3 checked lists of one kind, 1-7 (rarely up to 399) "
    "nodes and a history of "
    "up to 30 (rarely 1500) steps, a third of which try to add a node whose "
    "link fields are "
    "populated (because it is in a list, or scribbled on); the installed "
    "handler throws. Panics are counted per call; all links are compared with "
    "their state before the call, inside the handler and after it. At the end "
    "all nodes are taken out and must be accepted again. Non-trivial: the "
    "history ran to its end. Distinct: hash of all choices and results.",
    "stdx::intrusive_list, stdx::intrusive_forward_list, checked node policy, "
    "stdx::panic",
    "list nodes, panic handler (throws)",
    scenarios,
    4,
    3000000,
    9000000,
};
