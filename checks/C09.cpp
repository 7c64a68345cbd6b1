#include "../sim/panicseam.hpp"

#include <stdx/cx_queue.hpp>

#include <deque>

namespace {
using elem::outcome;
using u32 = std::uint32_t;

template <typename T> auto num(T const &t) -> int {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<int>(t);
    } else {
        return t.get();
    }
}

template <typename Q> void compare(Q &q, std::deque<int> const &m) {
    sim::require(q.size() == m.size() and q.empty() == m.empty() and
                     q.full() == (m.size() == Q::capacity()),
                 "wrong-size", "size is %d, expected %d", q.size(), m.size());
    if (not m.empty()) {
        auto const n = seam::count();
        Q const &cq = q;
        sim::require(num(q.front()) == m.front() and
                         num(cq.front()) == m.front(),
                     "wrong-front", "front is %d, expected %d", num(q.front()),
                     m.front());
        sim::require(num(q.back()) == m.back() and num(cq.back()) == m.back(),
                     "wrong-back", "back is %d, expected %d", num(q.back()),
                     m.back());
        sim::require(seam::count() == n, "unexpected-panic",
                     "reading a non-empty queue raised a panic");
    }
}
template <typename Q> void drain_copy(Q const &q, std::deque<int> m) {
    Q c{q};
    while (not m.empty()) {
        auto const v = num(c.pop());
        sim::require(v == m.front(), "wrong-order", "popped %d, expected %d", v,
                     m.front());
        m.pop_front();
    }
    sim::require(c.empty(), "wrong-size", "extra elements");
}

template <typename T, std::size_t N> void queue_run() {
    using Q = stdx::cx_queue<T, N>;
    elem::reset_ledger();
    seam::reset();
    {
        auto q = sim::make_default<Q>();
        std::deque<int> m{};
        int next = 0;
        seam::state.observer = [&] { compare(*q, m); };
        for (u32 i = 0, most = sim::lengthy(24); sim::more(i, most); ++i) {
            u32 const k = elem::draw_fault(2);
            auto const before = seam::count();
            bool const full = m.size() == N;
            bool const empty = m.empty();
            char const *word = nullptr;
            outcome o{};
            switch (sim::choose(9)) {
            case 0:
            case 1: {
                next = (next + 1) % 100;
                T v{static_cast<T>(next)};
                word = full ? "overflow" : nullptr;
                o = elem::attempt(k, [&] { q->push(v); });
                sim::event("push copy %d (size %d): %s", next, m.size(),
                           elem::name_of(o));
                sim::require(num(v) == next, "source-changed",
                             "a pushed copy changed its source");
                if (o == outcome::ok and not full) {
                    m.push_back(next);
                }
                break;
            }
            case 2: {
                next = (next + 1) % 100;
                T v{static_cast<T>(next)};
                word = full ? "overflow" : nullptr;
                o = elem::attempt(k, [&] { q->push(std::move(v)); });
                sim::event("push move %d (size %d): %s", next, m.size(),
                           elem::name_of(o));
                if (full) {
                    sim::require(num(v) == next, "source-changed",
                                 "a refused push took its argument");
                }
                if (o == outcome::ok and not full) {
                    m.push_back(next);
                }
                break;
            }
            case 3:
            case 4: {
                int got = -1;
                word = empty ? "underflow" : nullptr;
                o = elem::attempt(k, [&] {
                    auto v = q->pop();
                    got = num(v);
                });
                sim::event("pop (size %d): %s", m.size(), elem::name_of(o));
                if (o == outcome::ok and not empty) {
                    sim::require(got == m.front(), "wrong-order",
                                 "popped %d, expected %d", got, m.front());
                    m.pop_front();
                }
                break;
            }
            case 5:
            case 6: {
                word = empty ? "underflow" : nullptr;
                auto const which = sim::choose(4);
                int got = -1;
                o = elem::attempt(0, [&] {
                    Q const &cq = *q;
                    switch (which) {
                    case 0:
                        got = num(q->front());
                        break;
                    case 1:
                        got = num(cq.front());
                        break;
                    case 2:
                        got = num(q->back());
                        break;
                    default:
                        got = num(cq.back());
                        break;
                    }
                });
                sim::event("%s (size %d): %s", which < 2 ? "front" : "back",
                           m.size(), elem::name_of(o));
                if (o == outcome::ok and not empty) {
                    sim::require(got == (which < 2 ? m.front() : m.back()),
                                 "wrong-order", "read %d", got);
                }
                break;
            }
            case 7:
                o = elem::attempt(0, [&] { q->clear(); });
                m.clear();
                sim::event("clear");
                break;
            default:
                o = elem::attempt(0, [&] {
                    while (m.size() < N) {
                        next = (next + 1) % 100;
                        q->push(static_cast<T>(next));
                        m.push_back(next);
                    }
                });
                sim::event("fill up");
                break;
            }
            if (word != nullptr) {
                sim::fault(full ? "overflow_attempt" : "underflow_attempt");
            }
            seam::expect_panics(o, before, word);
            compare(*q, m);
            drain_copy(*q, m);
        }
        sim::nontrivial();
    }
    seam::reset();
    elem::all_destroyed();
}

template <typename T> void sizes() {
    switch (sim::choose(5)) {
    case 0:
        return queue_run<T, 2>();
    case 1:
        return queue_run<T, 1>();
    case 2:
        return queue_run<T, 3>();
    case 3:
        return queue_run<T, 4>();
    default:
        return queue_run<T, 7>();
    }
}
// large capacities: only the push past the last place is refused
template <std::size_t N> void large() {
    seam::reset();
    auto q = sim::make_default<stdx::cx_queue<int, N>>();
    std::deque<int> m{};
    int next = 0;
    for (u32 i = 0; sim::more(i, 6); ++i) {
        bool const push = sim::choose(5) < 3;
        u32 const n = sim::choose(2) == 0 ? N + 1 : 1 + sim::choose(N + 2);
        sim::event("%s %d at size %d", push ? "push" : "pop", n, m.size());
        for (u32 j = 0; j < n; ++j) {
            auto const before = seam::count();
            bool const refused = push ? m.size() == N : m.empty();
            int got{};
            auto const o = elem::attempt(0, [&] {
                if (push) {
                    q->push(++next);
                } else {
                    got = q->pop();
                }
            });
            seam::expect_panics(o, before,
                                not refused ? nullptr
                                : push      ? "overflow"
                                            : "underflow");
            if (refused) {
                sim::fault("refused");
            } else if (push) {
                m.push_back(next);
            } else {
                sim::require(got == m.front(), "wrong-order",
                             "popped %d, expected %d", got, m.front());
                m.pop_front();
            }
            sim::require(q->size() == m.size(), "wrong-size",
                         "size is %d, expected %d", q->size(), m.size());
            if (refused) {
                break;
            }
        }
        compare(*q, m);
        drain_copy(*q, m);
    }
    seam::reset();
    sim::nontrivial();
}

sim::scenario const scenarios[] = {
    {"objects", 600, sizes<elem::item>},
    {"fragile_objects", 200, sizes<elem::fragile>},
    {"integers", 200, sizes<int>},
    {"bytes", 200, sizes<unsigned char>},
    {"plain_records", 100, sizes<elem::record>},
    {"large_objects", 20, sizes<elem::heavy_fragile>},
    {"large_records", 20, sizes<elem::block>},
    {"large", 2, large<270>},
    {"powers_of_two", 2, large<256>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C09",
    "Each run draws a checked queue (capacity 1-7, rarely 256 or 270, seven "
    "element types) and a "
    "history of up to 24 (rarely 1500) calls that mixes legal use with pushes "
    "to a full "
    "queue and pops/front/back on an empty one, while element copies and "
    "moves may fail; the installed handler throws. Panics are counted per "
    "call, the queue is compared with a reference inside the handler and "
    "after every call. Non-trivial: the history ran to its end. Distinct: "
    "hash of all choices and results.",
    "stdx::cx_queue with the default (checked) policy, stdx::panic",
    "panic handler (throws), element type with failing copies/moves",
    scenarios,
    9,
    6000000,
    18000000,
};
