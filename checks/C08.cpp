#include "../sim/elem.hpp"

#include <stdx/cx_queue.hpp>

#include <deque>

namespace {
using elem::outcome;
using u32 = std::uint32_t;

template <typename Q> void compare(Q &q, std::deque<int> const &m) {
    constexpr std::size_t cap = Q::capacity();
    bool ok{};
    {
        sim::sut_scope const s{};
        Q const &cq = q;
        ok = cq.size() == m.size() and cq.empty() == m.empty() and
             cq.full() == (m.size() == cap);
    }
    sim::require(ok, "wrong-size", "size is %d, expected %d", q.size(),
                 m.size());
    if (not m.empty()) {
        int f{}, b{}, cf{}, cb{};
        {
            sim::sut_scope const s{};
            Q const &cq = q;
            f = q.front().get();
            b = q.back().get();
            cf = cq.front().get();
            cb = cq.back().get();
        }
        sim::require(f == m.front() and cf == m.front(), "wrong-front",
                     "front is %d, expected %d", f, m.front());
        sim::require(b == m.back() and cb == m.back(), "wrong-back",
                     "back is %d, expected %d", b, m.back());
    }
}
// the complete content, looked at on a copy that is emptied
template <typename Q> void drain_copy(Q const &q, std::deque<int> m) {
    if constexpr (elem::copyable<typename Q::value_type>) {
        Q c{q};
        while (not m.empty()) {
            int v{};
            {
                sim::sut_scope const s{};
                v = c.pop().get();
            }
            sim::require(v == m.front(), "wrong-order",
                         "popped %d, expected %d", v, m.front());
            m.pop_front();
        }
        sim::require(c.empty(), "wrong-size", "extra elements");
    }
}

template <typename T, std::size_t N, typename P> void queue_run() {
    using Q = stdx::cx_queue<T, N, P>;
    elem::reset_ledger();
    {
        auto q = sim::make<Q>();
        std::deque<int> m{};
        int next = 100;
        for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(3);
            switch (sim::choose(11)) {
            case 9: { // push a copy of an own element
                if (m.empty() or m.size() == N or not elem::copyable<T>) {
                    break;
                }
                bool const front = sim::flip(1, 2);
                auto const o = elem::attempt(k, [&] {
                    if constexpr (elem::copyable<T>) {
                        q->push(front ? q->front() : q->back());
                    }
                });
                if (o == outcome::ok) {
                    m.push_back(front ? m.front() : m.back());
                }
                sim::event("push own %s: %s", front ? "front" : "back",
                           elem::name_of(o));
                break;
            }
            case 0:
            case 1:
            case 2: { // push a copy
                if (m.size() == N or not elem::copyable<T>) {
                    break;
                }
                T v{++next};
                int r{};
                T *where{};
                auto const o = elem::attempt(k, [&] {
                    if constexpr (elem::copyable<T>) {
                        auto &ref = q->push(v);
                        where = &ref;
                    }
                });
                if (o == outcome::ok) {
                    m.push_back(next);
                    r = where->get();
                    sim::require(where == &q->back(), "wrong-reference",
                                 "push did not return the new element");
                    sim::require(r == next, "wrong-reference",
                                 "push returned %d, expected %d", r, next);
                }
                sim::require(v.get() == next, "source-changed",
                             "a pushed copy changed its source");
                sim::event("push copy %d: %s", next, elem::name_of(o));
                break;
            }
            case 3:
            case 4: { // push by move
                if (m.size() == N) {
                    break;
                }
                T v{++next};
                T *where{};
                auto const o =
                    elem::attempt(k, [&] { where = &q->push(std::move(v)); });
                if (o == outcome::ok) {
                    m.push_back(next);
                    sim::require(where == &q->back() and where->get() == next,
                                 "wrong-reference",
                                 "push did not return the new element");
                }
                sim::event("push move %d: %s", next, elem::name_of(o));
                break;
            }
            case 5:
            case 6:
            case 7: { // pop
                if (m.empty()) {
                    break;
                }
                int got = elem::blank;
                auto const o = elem::attempt(k, [&] {
                    auto v = q->pop();
                    got = v.get();
                });
                if (o == outcome::ok) {
                    sim::require(got == m.front(), "wrong-order",
                                 "popped %d, expected %d", got, m.front());
                    m.pop_front();
                }
                sim::event("pop: %s %d", elem::name_of(o), got);
                break;
            }
            case 8: // write through front/back
                if (not m.empty()) {
                    ++next;
                    {
                        sim::sut_scope const s{};
                        q->front().set(next);
                    }
                    m.front() = next;
                    ++next;
                    {
                        sim::sut_scope const s{};
                        q->back().set(next);
                    }
                    m.back() = next;
                    sim::event("write front and back");
                }
                break;
            default:
                if (sim::choose(3) == 0) {
                    {
                        sim::sut_scope const s{};
                        q->clear();
                    }
                    m.clear();
                    sim::event("clear");
                } else { // fill up: reaches full and wrap-around
                    while (m.size() < N) {
                        T v{++next};
                        sim::sut_scope const s{};
                        if constexpr (elem::copyable<T>) {
                            q->push(v);
                        } else {
                            q->push(std::move(v));
                        }
                        m.push_back(next);
                    }
                    sim::event("fill up");
                }
                break;
            }
            compare(*q, m);
            if (m.size() == N) {
                sim::probe("full");
            }
            drain_copy(*q, m);
        }
        while (not m.empty()) {
            int v{};
            {
                sim::sut_scope const s{};
                v = q->pop().get();
            }
            sim::require(v == m.front(), "wrong-order",
                         "finally popped %d, expected %d", v, m.front());
            m.pop_front();
            compare(*q, m);
        }
        sim::nontrivial();
    }
    elem::all_destroyed();
}

template <typename T, typename P> void sizes() {
    switch (sim::choose(5)) {
    case 0:
        return queue_run<T, 3, P>();
    case 1:
        return queue_run<T, 1, P>();
    case 2:
        return queue_run<T, 2, P>();
    case 3:
        return queue_run<T, 4, P>();
    default:
        return queue_run<T, 8, P>();
    }
}
void run_items() {
    if (sim::choose(2) == 0) {
        sizes<elem::item, stdx::safe_overflow_policy>();
    } else {
        sizes<elem::item, stdx::unsafe_overflow_policy>();
    }
}
void run_fragile() {
    if (sim::choose(2) == 0) {
        sizes<elem::fragile, stdx::safe_overflow_policy>();
    } else {
        sizes<elem::fragile, stdx::unsafe_overflow_policy>();
    }
}
void run_records() {
    if (sim::choose(2) == 0) {
        sizes<elem::record, stdx::safe_overflow_policy>();
    } else {
        sizes<elem::record, stdx::unsafe_overflow_policy>();
    }
}
void run_exclusive() {
    if (sim::choose(2) == 0) {
        sizes<elem::exclusive, stdx::safe_overflow_policy>();
    } else {
        sizes<elem::exclusive, stdx::unsafe_overflow_policy>();
    }
}
// large elements, and more than a few of them
void run_heavy() {
    switch (sim::choose(6)) {
    case 0:
        return queue_run<elem::heavy, 2, stdx::safe_overflow_policy>();
    case 1:
        return queue_run<elem::heavy_fragile, 3,
                         stdx::unsafe_overflow_policy>();
    case 2:
        return queue_run<elem::block, 3, stdx::safe_overflow_policy>();
    case 3:
        return queue_run<elem::item, 20, stdx::unsafe_overflow_policy>();
    case 4:
        return queue_run<elem::fragile, 33, stdx::safe_overflow_policy>();
    default:
        return queue_run<elem::heavy_fragile, 2, stdx::safe_overflow_policy>();
    }
}
// large capacities: whole blocks are pushed and popped
template <typename T, std::size_t N> void bulk_run() {
    auto q = sim::make_default<stdx::cx_queue<T, N>>();
    std::deque<T> m{};
    u32 next = 0;
    for (u32 i = 0; sim::more(i, N > 1000 ? 2 : 8); ++i) {
        bool const push = sim::choose(5) < 3;
        u32 n = sim::choose(4) == 0 ? N : 1 + sim::choose(N);
        sim::event("%s up to %d", push ? "push" : "pop", n);
        while (n-- > 0) {
            if (push and m.size() < N) {
                T const v = static_cast<T>(++next * 7919u);
                {
                    sim::sut_scope const s{};
                    q->push(v);
                }
                m.push_back(v);
                sim::require(q->back() == v, "wrong-back", "back is %d",
                             q->back());
            } else if (not push and not m.empty()) {
                T v{};
                {
                    sim::sut_scope const s{};
                    v = q->pop();
                }
                sim::require(v == m.front(), "wrong-order",
                             "popped %d, expected %d", v, m.front());
                m.pop_front();
            } else {
                break;
            }
            sim::require(q->size() == m.size() and q->empty() == m.empty() and
                             q->full() == (m.size() == N),
                         "wrong-size", "size is %d, expected %d", q->size(),
                         m.size());
            if (not m.empty()) {
                sim::require(q->front() == m.front(), "wrong-front",
                             "front is %d, expected %d", q->front(), m.front());
            }
        }
        if (sim::flip(1, 32) and not m.empty()) { // once round, many times
            u32 k = sim::flip(1, 256) ? 65500 + sim::choose(100)
                                      : 200 + sim::choose(400);
            sim::event("pass %d through", k);
            while (k-- > 0) {
                T v{};
                T const t = static_cast<T>(++next * 7919u);
                sim::sut([&] {
                    v = q->pop();
                    q->push(t);
                });
                sim::require(v == m.front(), "wrong-order",
                             "popped %d, expected %d", v, m.front());
                m.pop_front();
                m.push_back(t);
            }
        }
        auto const copy = *q;
        auto again = copy;
        for (auto v : m) {
            sim::require(again.pop() == v, "wrong-order",
                         "a copy lost an element");
        }
        if (m.size() == N) {
            sim::probe("full");
        }
    }
    sim::nontrivial();
}
void run_bulk() {
    switch (sim::choose(16)) {
    case 0:
        return bulk_run<u32, 300>();
    case 1:
        return bulk_run<std::uint8_t, 256>();
    case 2:
        return bulk_run<std::uint16_t, 129>();
    case 3:
        if (sim::choose(48) == 0) {
            return sim::choose(2) == 0 ? bulk_run<std::uint8_t, 65600>()
                                       : bulk_run<std::uint8_t, 65536>();
        }
        [[fallthrough]];
    case 4:
        return bulk_run<std::uint16_t, 3>();
    case 5:
        return bulk_run<u32, 5>();
    default:
        return bulk_run<std::uint16_t, 16>();
    }
}
sim::scenario const scenarios[] = {
    {"failing_copies", 4, run_items},
    {"failing_copies_and_moves", 8, run_fragile},
    {"plain_records", 3, run_records},
    {"large_capacities", 4, run_bulk},
    {"moved_only", 2, run_exclusive},
    {"large_elements", 1, run_heavy},
};
} // namespace

sim::property_def const sim::the_property = {
    "C08",
    "Each run draws a queue (capacity 1-8, rarely 33, checked or unchecked, "
    "seven "
    "element types, large and move-only ones among them) and a history of up "
    "to 24 (rarely 1500) pushes, pops, writes, clears and "
    "fill-ups; in a quarter of the calls the k-th element copy or move fails. "
    "After every call size, front, back and the full content are compared "
    "with a reference queue. Another scenario moves whole blocks "
    "through capacities of 3 to 65600, round and round up to 65600 times. "
    "Non-trivial: the history ran to its end or a "
    "fault was injected. Distinct: hash of all choices and results.",
    "stdx::cx_queue with both overflow policies",
    "element type with failing copies/moves and lifetime ledger",
    scenarios,
    6,
    9000000,
    27000000,
};
