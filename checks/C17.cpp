#include "../sim/rt.hpp"

#include <stdx/rollover.hpp>

#include <algorithm>
#include <chrono>
#include <ratio>
#include <vector>

namespace {
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using truth = unsigned __int128; // unbounded time
using sim::sut;

struct sim_clock {};

template <typename T> struct timer {
    truth when{};
    stdx::rollover_t<T> at{};
    u32 id{};
    bool done{};
};

template <typename T> struct rig {
    using R = stdx::rollover_t<T>;
    using D = std::chrono::duration<R, std::milli>;
    using DS = std::chrono::duration<R>;
    using TP = std::chrono::time_point<sim_clock, D>;
    constexpr static u64 half = u64{1} << (sizeof(T) * 8 - 1);

    truth now;
    R counter;                   // the hardware counter, wraps
    std::vector<timer<T>> q{};   // ordered by the wrapping comparison
    std::vector<timer<T>> live{}; // reference: all pending timers
    u32 ids{};
    truth last_fired{};

    explicit rig(T start) : now{start}, counter{start} {
        // keep differences to instants before the start meaningful
        now += truth{1} << 66;
        last_fired = now;
    }

    static auto wrap(truth t) -> T { return static_cast<T>(t); }

    // how far the newest instant may move without leaving half the range
    auto room() const -> u64 {
        truth lo = now;
        for (auto const &t : live) {
            lo = std::min(lo, t.when);
        }
        return half - 1 - static_cast<u64>(now - lo);
    }
    auto newest() const -> truth {
        truth hi = now;
        for (auto const &t : live) {
            hi = std::max(hi, t.when);
        }
        return hi;
    }
    auto pick(u64 max) -> u64 {
        switch (sim::choose(6)) {
        case 0:
            return std::min<u64>(max, sim::choose(4));
        case 1:
            return max;
        case 2:
            return max - std::min<u64>(max, sim::choose(3));
        case 3:
            return max / 2;
        default:
            return max == 0 ? 0 : sim::value64() % (max + 1);
        }
    }

    void compare_all() {
        std::vector<std::pair<truth, R>> p{{now, counter}};
        for (auto const &t : live) {
            p.emplace_back(t.when, t.at);
        }
        for (auto const &[ta, a] : p) {
            for (auto const &[tb, b] : p) {
                bool less{}, eq{}, ne{};
                T diff{};
                sut([&] {
                    less = cmp_less(a, b);
                    eq = a == b;
                    ne = a != b;
                    diff = (b - a).as_underlying();
                });
                sim::require(less == (ta < tb), "wrong-order",
                             "%d before %d: said %d, truth %d",
                             a.as_underlying(), b.as_underlying(), less,
                             ta < tb);
                sim::require(eq == (ta == tb) and ne != eq, "wrong-equality",
                             "%d equals %d: said %d", a.as_underlying(),
                             b.as_underlying(), eq);
                sim::require(diff == wrap(tb - ta), "wrong-difference",
                             "%d - %d gave %d", b.as_underlying(),
                             a.as_underlying(), diff);
            }
        }
    }

    void schedule() {
        if (live.size() >= 6) {
            return;
        }
        // at most half - 1 from the oldest pending instant
        u64 const d = pick(room());
        truth const when = now + d;
        R at{};
        u32 const how = sim::choose(5);
        R const n = counter;
        T const dt = static_cast<T>(d);
        sut([&] {
            switch (how) {
            case 0:
                at = n + R{dt};
                break;
            case 1:
                at = n;
                at += R{dt};
                break;
            case 2:
                at = R{static_cast<T>(dt + 1u)} + n;
                --at;
                break;
            case 3:
                at = n - (-R{dt});
                break;
            default:
                at = (TP{D{n}} + D{R{dt}}).time_since_epoch().count();
                break;
            }
        });
        sim::event("schedule %d in %u by %d", ids, d, how);
        sim::require(at.as_underlying() == wrap(when), "wrong-sum",
                     "%d + %d gave %d", n.as_underlying(), dt,
                     at.as_underlying());
        timer<T> const t{when, at, ids++, false};
        live.push_back(t);
        auto it = q.begin();
        while (it != q.end() and
               not sut([&] { return cmp_less(at, it->at); })) {
            ++it;
        }
        q.insert(it, t);
    }
    void cancel() {
        if (live.empty()) {
            return;
        }
        u32 const i = sim::choose(static_cast<u32>(live.size()));
        u32 const id = live[i].id;
        sim::event("cancel %d", id);
        live.erase(live.begin() + i);
        std::erase_if(q, [&](auto const &t) { return t.id == id; });
    }
    void advance() {
        u64 const max = room();
        u64 d{};
        u32 const how = sim::choose(4);
        if (how == 0 and not live.empty()) { // exactly to some deadline
            auto const &t = live[sim::choose(static_cast<u32>(live.size()))];
            d = t.when > now ? static_cast<u64>(t.when - now) : 0;
            // a clock sampled one tick early or late
            u32 const off = sim::choose(3);
            d = off == 1 and d > 0 ? d - 1 : off == 2 ? d + 1 : d;
            d = std::min(d, max);
        } else {
            d = pick(max);
            if (d > half / 2) {
                sim::fault("clock_jump");
            }
        }
        R const before = counter;
        T const dt = static_cast<T>(d);
        u32 const step = sim::choose(3);
        sut([&] {
            if (step == 0 or d > 40) {
                counter += R{dt};
            } else if (step == 1) {
                for (u64 i = 0; i < d; ++i) {
                    ++counter;
                }
            } else {
                for (u64 i = 0; i < d; ++i) {
                    counter++;
                }
            }
        });
        now += d;
        sim::sim_time(d);
        sim::event("clock advances by %u", d);
        if (wrap(now) < before.as_underlying()) {
            sim::probe("rollover");
        }
        sim::require(counter.as_underlying() == wrap(now), "wrong-sum",
                     "%d + %d gave %d", before.as_underlying(), dt,
                     counter.as_underlying());
        sim::require((counter - before).as_underlying() == dt,
                     "wrong-difference", "elapsed time is wrong");
    }
    void process() {
        sim::event("run due timers");
        R const n = counter;
        while (not q.empty()) {
            auto const t = q.front();
            bool const due = sut([&] { return not cmp_less(n, t.at); });
            if (not due) {
                break;
            }
            q.erase(q.begin());
            sim::event("  timer %d fires", t.id);
            sim::require(t.when <= now, "fired-early", "timer %d fired early",
                         t.id);
            auto const it =
                std::find_if(live.begin(), live.end(),
                             [&](auto const &x) { return x.id == t.id; });
            sim::require(it != live.end(), "fired-twice",
                         "timer %d is not pending", t.id);
            live.erase(it);
            for (auto const &x : live) {
                sim::require(x.when >= t.when, "fired-out-of-order",
                             "timer %d fired before timer %d", t.id, x.id);
            }
        }
        for (auto const &x : live) {
            sim::require(x.when > now, "fired-late", "timer %d was not fired",
                         x.id);
        }
    }
    // ticks as a clock: elapsed time between two samples, in two units
    void clock_types() {
        u64 const d = pick(half - 1);
        R const n = counter;
        T const dt = static_cast<T>(d);
        bool eq{}, neq{};
        T el{}, ms{}, el2{}, back{};
        sut([&] {
            TP const a{D{n}};
            TP b = a;
            b += D{R{dt}};
            el = (b - a).count().as_underlying();
            el2 = (a - b).count().as_underlying();
            back = (b - D{R{dt}}).time_since_epoch().count().as_underlying();
            eq = a == b;
            neq = a != b;
            DS const s{R{dt}};
            ms = D{s}.count().as_underlying();
        });
        sim::event("clock types with %u", d);
        sim::require(el == dt and el2 == static_cast<T>(-dt) and
                         back == n.as_underlying(),
                     "wrong-difference",
                     "time points %d apart: %d and %d, back at %d", dt, el,
                     el2, back);
        sim::require(eq == (dt == 0) and neq == (dt != 0), "wrong-equality",
                     "time points %d apart compare equal: %d", dt, eq);
        sim::require(ms == static_cast<T>(dt * u64{1000}), "wrong-unit",
                     "%d s gave %d ms", dt, ms);
    }
    void conversions() {
        u64 const x = sim::value64();
        u64 wide{};
        T same{};
        T post{}, after{};
        sut([&] {
            same = static_cast<T>(R{x});
            wide = stdx::rollover_t<u64>{R{x}}.as_underlying();
            R r{x};
            post = (r++).as_underlying();
            r--;
            r--;
            ++r;
            after = (+r--).as_underlying();
        });
        // splitting a counter value into whole periods and the rest
        T const per = static_cast<T>(1 + sim::choose(200));
        T const v = static_cast<T>(x);
        T q{}, m{}, whole{}, q2{}, m2{}, w2{};
        sut([&] {
            q = (R{v} / R{per}).as_underlying();
            m = (R{v} % R{per}).as_underlying();
            whole = (R{q} * R{per} + R{m}).as_underlying();
            R a{v};
            a /= R{per};
            q2 = a.as_underlying();
            a *= R{per};
            w2 = a.as_underlying();
            a = R{v};
            a %= R{per};
            m2 = a.as_underlying();
        });
        sim::require(q == static_cast<T>(v / per) and q2 == q and
                         m == static_cast<T>(v % per) and m2 == m and
                         whole == v and w2 == static_cast<T>(q * per),
                     "wrong-period", "%u in periods of %u: %u and %u", v, per,
                     q, m);
        sim::require(same == static_cast<T>(x) and wide == static_cast<T>(x) and
                         post == static_cast<T>(x) and
                         after == static_cast<T>(x),
                     "wrong-value", "conversion of %u", x);
    }
};

template <typename T> void timers() {
    T start{};
    switch (sim::choose(4)) {
    case 0:
        start = 0;
        break;
    case 1:
        start = static_cast<T>(~T{} - sim::choose(5));
        break;
    case 2:
        start = static_cast<T>((~T{} >> 1) + sim::choose(3) - 1);
        break;
    default:
        start = static_cast<T>(sim::value64());
        break;
    }
    rig<T> r{start};
    for (u32 i = 0, most = sim::lengthy(30); sim::more(i, most); ++i) {
        switch (sim::choose(9)) {
        case 0:
        case 1:
        case 2:
            r.schedule();
            break;
        case 3:
        case 4:
            r.advance();
            break;
        case 5:
        case 6:
            r.process();
            break;
        case 7:
            if (sim::choose(2) == 0) {
                r.cancel();
            } else {
                r.conversions();
            }
            break;
        default:
            r.clock_types();
            break;
        }
        r.compare_all();
    }
    // drain: every remaining timer fires within bounded time
    while (not r.live.empty()) {
        truth next = r.newest();
        for (auto const &t : r.live) {
            next = std::min(next, t.when);
        }
        if (next > r.now) {
            auto const d = static_cast<u64>(next - r.now);
            r.counter += stdx::rollover_t<T>{static_cast<T>(d)};
            r.now = next;
            sim::sim_time(d);
        }
        auto const n = r.live.size();
        r.process();
        sim::require(r.live.size() < n, "fired-late", "a due timer is stuck");
    }
    sim::nontrivial();
}

sim::scenario const scenarios[] = {
    {"ticks8", 3, timers<std::uint8_t>},
    {"ticks16", 2, timers<std::uint16_t>},
    {"ticks32", 2, timers<std::uint32_t>},
    {"ticks64", 1, timers<std::uint64_t>},
};
} // namespace

sim::property_def const sim::the_property = {
    "C17",
    "Each run draws a counter width (8-64 bits), a start value (biased to the "
    "wrap) and a history of up to 30 (rarely 1500) schedulings, cancellations, clock "
    "advances (biased to exact, one-off and half-range distances), late "
    "samplings and timer-queue runs; then the queue is drained. True time is "
    "kept in 128 bits; all pairwise comparisons, sums and differences are "
    "compared with it after each step. Non-trivial: the history ran to its "
    "end. Distinct: hash of all choices and results.",
    "stdx::rollover_t, its use as std::chrono tick type",
    "clock, timer queue",
    scenarios,
    4,
    15000000,
    45000000,
};
