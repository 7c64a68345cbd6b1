#include "list_ops.hpp"

namespace {
using namespace lists;
template <typename N>
using checked = stdx::intrusive_list<N, stdx::node_policy::checked>;
template <typename N>
using unchecked = stdx::intrusive_list<N, stdx::node_policy::unchecked>;

sim::scenario const scenarios[] = {
    {"checked", 2, history<checked<dnode>, dnode, true>},
    {"unchecked_stale_links", 2, history<unchecked<dnode>, dnode, false>},
    {"checked_large_nodes", 1, history<checked<big_dnode>, big_dnode, true>},
    {"unchecked_large_nodes", 1,
     history<unchecked<big_dnode>, big_dnode, false>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C10",
    "Each run draws 1-3 doubly linked lists of one kind, 1-7 nodes (rarely 100-299) and a "
    "history of up to 30 (rarely 1500) pushes, insertions at any place, pops, removals, "
    "moves between lists and clears; with checking off, the link fields of a "
    "node that is out of every list are overwritten with stale or wild "
    "pointers before it is added. After every call both link directions of "
    "all lists are compared with reference sequences. Non-trivial: the "
    "history ran to its end. Distinct: hash of all choices and results.",
    "stdx::intrusive_list with both node policies",
    "list nodes, panic handler",
    scenarios,
    4,
    6000000,
    18000000,
};
