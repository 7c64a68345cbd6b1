#include "../sim/elem.hpp"
#include "../sim/panicseam.hpp"

#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>
#include <stdx/bitset.hpp>
#include <stdx/cached.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <algorithm>
#include <array>
#include <vector>

#ifndef SIM_WIDE_STORAGE
#define SIM_NS nat
#endif

namespace SIM_NS {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using tick = stdx::rollover_t<u8>;

constexpr u32 sources = 3;
constexpr u32 max_events = 6;
constexpr u32 slots = 5;
constexpr u32 common = 2; // the source that several producers feed

struct work {
    u8 source{};
    u8 number{};
    u8 slot{};
    u32 value{};
    tick deadline{};
    work *prev{};
    work *next{};
};

// what the sources share with the tasks
struct shared {
    stdx::atomic_bitset<8> pending{};
    stdx::atomic_bitset<3> locks{};
    stdx::atomic<bool> busy{};
    std::array<stdx::atomic<u8>, sources> sent{};
    stdx::atomic<u8> ticket{};                // places in the common mailbox
    stdx::atomic_bitset<max_events> filled{}; // places that hold a letter
    std::array<std::array<u32, max_events>, sources> mail{}; // plain data
};

struct done {
    u8 source;
    u8 number;
    u32 value;
};

struct limit {
    u32 *calls;
    u32 value;
    auto operator()() const -> u32 {
        ++*calls;
        return value;
    }
};

// the program under simulation: owned by whoever holds lock 0
struct engine {
    shared &sh;
    stdx::bitset<slots> used{};
    std::array<work, slots> pool{};
    stdx::cx_queue<work *, 2> inbox{};
    stdx::intrusive_list<work> ready{};
    stdx::intrusive_list<work> waiting{};
    stdx::cx_map<u8, u8, sources> accepted{};
    stdx::bitset<sources> paused{};
    tick now;
    u32 limit_calls{};
    stdx::cached<limit> budget;
    stdx::cx_vector<u8, 4> recent{}; // sources of the last completions
    std::vector<done> *log;

    engine(shared &s, u8 start, u32 per_step, std::vector<done> *l)
        : sh{s}, now{start}, budget{limit{&limit_calls, per_step}}, log{l} {}

    auto accepted_of(u8 s) -> u8 {
        return accepted.contains(s) ? accepted.get(s) : u8{};
    }
    // how far the common mailbox is filled without a gap
    auto letters() -> u8 {
        auto const in = sh.filled.load();
        return static_cast<u8>(in.lowest_unset());
    }
    // take over new work of a source; false when it has to be tried again
    auto collect(u8 s, bool careful) -> bool {
        u8 const want = s == common ? letters()
                        : careful   ? sh.sent[s].load(std::memory_order_acquire)
                                    : static_cast<u8>(sh.sent[s]);
        while (accepted_of(s) != want) {
            auto const i = used.lowest_unset();
            if (i >= used.capacity()) {
                note("no slot");
                return false;
            }
            if (careful and inbox.full()) {
                note("full inbox");
                return false;
            }
            u8 const n = accepted_of(s);
            work &w = pool[i];
            w.source = s;
            w.number = n;
            w.slot = static_cast<u8>(i);
            w.value = sh.mail[s][n];
            used.set(i);
            try {
                inbox.push(&w);
            } catch (elem::panicked const &) {
                note("overflow");
                used.reset(i);
                return false;
            }
            accepted.insert_or_assign(s, static_cast<u8>(n + 1));
        }
        return true;
    }
    static void note(char const *what) {
        sim::host_scope const h{};
        sim::probe(what);
    }
    // user code: may fail
    void handle(work const &w, bool calm) {
        sim::host_scope const h{};
        if (not calm and sim::flip(1, 4)) {
            sim::fault("handler_failure");
            sim::event("FAULT handler of %d.%d", w.source, w.number);
            throw sim::fault_t{9};
        }
        sim::event("completed %d.%d", w.source, w.number);
        log->push_back({w.source, w.number, w.value});
    }
    void dispatch(work &w, bool calm, u8 delay) {
        ready.remove(&w);
        try {
            handle(w, calm);
        } catch (sim::fault_t const &) {
            w.deadline = now + tick{delay};
            paused.set(w.source);
            waiting.push_back(&w);
            return;
        }
        used.reset(w.slot);
        if (recent.full()) {
            recent.clear();
        }
        recent.push_back(w.source);
    }
    // the raised events, which are then no longer raised
    auto take(u32 how) -> stdx::bitset<8, ::atomic::atomic_type_t<u8>> {
        using namespace stdx;
        switch (how) {
        case 0:
            return sh.pending.reset(lsb_t{0}, msb_t{sources - 1});
        case 1:
            return sh.pending.reset(lsb_t{0}, length_t{sources},
                                    std::memory_order_acq_rel);
        case 2:
            return sh.pending.set(lsb_t{0}, msb_t{sources - 1}, false);
        default: {
            bitset<8, ::atomic::atomic_type_t<u8>> r{};
            for (u32 i = 0; i < sources; ++i) {
                if (sh.pending[i] and sh.pending.reset(i)[i]) {
                    r.set(i);
                }
            }
            return r;
        }
        }
    }
    // one round of work; jump: time since the last one
    void step(u8 jump, u8 delay, bool calm, bool careful, u32 how) {
        now += tick{jump};
        auto const events = take(how);
        stdx::for_each(
            [&](auto s) {
                if (s < sources and not collect(static_cast<u8>(s), careful)) {
                    sh.pending.set(s);
                }
            },
            events);
        while (not inbox.empty()) {
            ready.push_back(inbox.pop());
        }
        // retries whose time has come, oldest first
        for (auto it = waiting.begin(); it != waiting.end();) {
            work &w = *it;
            ++it;
            if (not cmp_less(now, w.deadline)) {
                waiting.remove(&w);
                paused.reset(w.source);
                ready.push_front(&w);
            }
        }
        u32 left = *budget;
        for (auto it = ready.begin(); it != ready.end() and left > 0;) {
            work &w = *it;
            ++it;
            if (not paused[w.source]) {
                --left;
                dispatch(w, calm, delay);
            }
        }
    }
    [[nodiscard]] auto outstanding() const -> u64 { return used.count(); }
    // every occupied slot is in exactly one place
    void consistent() {
        u64 n = inbox.size();
        std::array<u32, slots> seen{};
        auto const walk = [&](auto const &l) {
            u32 guard = 0;
            for (auto const &w : l) {
                ++n;
                ++seen[w.slot];
                sim::require(++guard <= slots, "broken-list",
                             "a work list has no end");
            }
        };
        walk(ready);
        walk(waiting);
        for (auto s : seen) {
            sim::require(s <= 1, "duplicated-work", "a slot is queued twice");
        }
        sim::require(n == used.count(), "lost-work",
                     "%d items queued, %d slots occupied", n, used.count());
    }
};

struct scene {
    sim::box<shared> sh{sim::make_default<shared>()};
    std::vector<done> log{};
    sim::box<engine> e{};
    std::array<u32, sources> raise{};
    std::array<bool, max_events> given{};
    bool kick{};   // sources run the engine themselves when it is free
    bool flag_lock{};
    u32 blocked{}; // rounds skipped because the engine was busy

    auto value(u32 s, u32 n) const -> u32 { return 1000 * (s + 1) + n * 7; }

    // a round, unless somebody else is at it
    void round(bool calm) {
        u8 const jump =
            static_cast<u8>(sim::flip(1, 8) ? 100 : sim::choose(12));
        u8 const delay = static_cast<u8>(1 + sim::choose(20));
        bool const careful = sim::flip(1, 2);
        u32 const how = sim::choose(4);
        sim::sut([&] {
            if (flag_lock ? sh->busy.exchange(true,
                                              std::memory_order_acq_rel)
                          : sh->locks.set(0)[0]) {
                ++blocked;
                return;
            }
            e->step(jump, delay, calm, careful, how);
            {
                sim::host_scope const h{};
                e->consistent();
            }
            if (flag_lock) {
                sh->busy.store(false, std::memory_order_release);
            } else {
                sh->locks.reset(0);
            }
        });
    }
    void source(u32 s) {
        for (u32 n = 0; n < raise[s]; ++n) {
            u32 const how = sim::choose(6);
            u32 const say = sim::choose(4);
            bool const disturb = sim::flip(1, 4);
            sim::event("T%d raises %d.%d", sim::self(), s, n);
            sim::sut([&] {
                sh->mail[s][n] = value(s, n);
                switch (how) {
                case 0:
                    ++sh->sent[s];
                    break;
                case 1:
                    sh->sent[s].fetch_add(1, std::memory_order_release);
                    break;
                case 2:
                    sh->sent[s].store(static_cast<u8>(n + 1));
                    break;
                case 3:
                    sh->sent[s] += 1;
                    break;
                case 4:
                    (void)sh->sent[s].exchange(static_cast<u8>(n + 1));
                    break;
                default:
                    sh->sent[s] = static_cast<u8>(n + 1);
                    break;
                }
                if (disturb) {
                    sh->pending.flip(6);
                }
                announce(s, say);
                if (disturb) {
                    sh->pending.flip(6);
                }
            });
            if (kick and sim::flip(1, 2)) {
                round(false);
            }
        }
    }
    void announce(u32 s, u32 say) {
        using namespace stdx;
        switch (say) {
        case 0:
            sh->pending.set(s);
            break;
        case 1:
            sh->pending.set(s, true, std::memory_order_release);
            break;
        case 2:
            sh->pending.set(lsb_t{s}, msb_t{s});
            break;
        default:
            sh->pending.set(lsb_t{s}, length_t{1}, true,
                            std::memory_order_acq_rel);
            break;
        }
    }
    // one of several producers of the common source
    void letter_writer(u32 letters) {
        for (u32 n = 0; n < letters; ++n) {
            u32 const how = sim::choose(4);
            u32 const say = sim::choose(4);
            u8 const place = sim::sut([&]() -> u8 {
                switch (how) {
                case 0:
                    return sh->ticket++;
                case 1:
                    return sh->ticket.fetch_add(1);
                case 2:
                    return static_cast<u8>(++sh->ticket - 1);
                default:
                    return static_cast<u8>((sh->ticket += 1) - 1);
                }
            });
            sim::event("T%d has place %d", sim::self(), place);
            sim::require(place < max_events, "invented-place",
                         "place %d of %d", place, max_events);
            sim::require(not given[place], "place-given-twice",
                         "place %d was already given", place);
            given[place] = true;
            sim::sut([&] {
                sh->mail[common][place] = value(common, place);
                sh->filled.set(place);
                announce(common, say);
            });
            if (kick and sim::flip(1, 2)) {
                round(false);
            }
        }
    }
    template <typename S>
    static void judge(std::vector<done> const &log, std::array<u32, 3> raise,
                      S const &sc, bool complete) {
        std::array<u32, sources> next{};
        for (auto const &d : log) {
            sim::require(d.source < sources, "invented-work",
                         "work of source %d", d.source);
            sim::require(d.number == next[d.source],
                         d.number < next[d.source] ? "repeated-work"
                                                   : "reordered-work",
                         "item %d.%d completes when %d is next", d.source,
                         d.number, next[d.source]);
            sim::require(d.number < raise[d.source], "invented-work",
                         "item %d.%d was never submitted", d.source, d.number);
            sim::require(d.value == sc.value(d.source, d.number),
                         "wrong-payload", "item %d.%d carries %d", d.source,
                         d.number, d.value);
            ++next[d.source];
        }
        if (complete) {
            for (u32 s = 0; s < sources; ++s) {
                sim::require(next[s] == raise[s], "lost-work",
                             "%d of %d items of source %d completed", next[s],
                             raise[s], s);
            }
        }
    }
};

void system_run() {
    seam::reset();
    sim::sched_config cfg{};
    bool const irq = sim::flip(1, 2);
    cfg.mode = irq ? sim::sched::interrupts : sim::sched::threads;
    u32 const gaps[] = {15, 6, 40, 120, 0};
    cfg.mean_gap = gaps[sim::choose(5)];
    cfg.stale_reads = not irq and sim::flip(1, 2);
    cfg.max_steps = 60000;
    sim::set_platform(sim::flip(1, 2) ? sim::platform::critical
                                      : sim::platform::lock_free);
    scene sc{};
    sc.e = sim::make<engine>(*sc.sh, static_cast<u8>(240 + sim::choose(16)),
                             1 + sim::choose(4), &sc.log);
    sc.kick = sim::flip(1, 2);
    sc.flag_lock = sim::flip(1, 2);
    u32 const n = 1 + sim::choose(sources);
    std::array<u32, 3> letters{};
    for (u32 s = 0; s < n; ++s) {
        u32 k = 1;
        while (sim::more(k, max_events)) {
            ++k;
        }
        sc.raise[s] = k;
        if (s == common) { // the letters are spread over up to 3 writers
            for (u32 i = 0; i < k; ++i) {
                ++letters[sim::choose(3)];
            }
        }
    }
    u32 const rounds = sim::choose(8);
    sim::configure(cfg);
    sim::event("%d sources, %s%s%s", n, irq ? "interrupts" : "threads",
               cfg.stale_reads ? ", stale reads" : "",
               sc.kick ? ", sources kick" : "");
    sim::watch_cell(&sc.sh->pending, sizeof(sc.sh->pending));
    sim::spawn(
        [&] {
            for (u32 i = 0; i < rounds; ++i) {
                sc.round(false);
            }
        },
        {1, false});
    for (u32 s = 0; s < n; ++s) {
        if (s == common) {
            for (u32 i = 0; i < 3; ++i) {
                if (letters[i] > 0) {
                    sim::spawn([&, i] { sc.letter_writer(letters[i]); },
                               {static_cast<int>(s + 2 + i), false});
                }
            }
            continue;
        }
        sim::spawn([&, s] { sc.source(s); }, {static_cast<int>(s + 2), false});
    }
    sim::run_threads();
    scene::judge(sc.log, sc.raise, sc, false);
    // faults stop: everything must complete
    sim::event("faults stop, %d outstanding", sc.e->outstanding());
    auto const total = sc.raise[0] + sc.raise[1] + sc.raise[2];
    constexpr u32 bound = 120;
    u32 i = 0;
    while (sc.log.size() < total) {
        sim::require(i++ < bound, "no-progress",
                     "%d of %d items completed after %d calm rounds",
                     sc.log.size(), total, bound);
        sc.round(true);
    }
    sc.round(true);
    scene::judge(sc.log, sc.raise, sc, true);
    sim::require(sc.e->outstanding() == 0, "leaked-slot",
                 "%d slots occupied at the end", sc.e->outstanding());
    u64 const left = sim::sut([&] { return sc.sh->pending.count(); });
    sim::require(left == 0, "stuck-event", "%d events pending at the end",
                 left);
    sim::require(sc.e->limit_calls <= 1, "recomputed",
                 "the budget was computed %d times", sc.e->limit_calls);
    sim::nontrivial();
}
// ---------------------------------------------------------- the depot
// A second program: every item has an event of its own, the worker sleeps
// when nothing is raised and is woken by whoever raises something, retries are
// kept in order of their time, and work items come from a list of free ones.
template <std::size_t Events, typename Seq, typename Tick, std::size_t Inbox,
          template <typename> typename Policy>
struct depot {
    using clock = stdx::rollover_t<Tick>;
    using time = unsigned __int128; // never wraps
    constexpr static u32 each = Events / sources;
    constexpr static u32 items = std::min<u32>(each, 6);
    constexpr static u32 nodes = 7;
    constexpr static u32 trays = 21;
    constexpr static Tick half = Tick{1} << (sizeof(Tick) * 8 - 1);

    struct job {
        u8 source{};
        u8 number{};
        u8 tray{};
        u32 value{};
        clock deadline{};
        time due{};
        job *prev{};
        job *next{};
    };
    struct common_t {
        stdx::atomic_bitset<Events> raised{};
        stdx::atomic<bool> asleep{};
        stdx::atomic<Seq> numbers{};
        stdx::atomic<Seq> credits{};
        stdx::atomic<Seq> active{};
        stdx::atomic<u8> locked{};
        std::array<u32, Events> mail{}; // plain data
        u32 ledger{};                   // plain data
    };
    // owned by the worker
    struct worker_t {
        std::array<job, nodes> pool{};
        stdx::intrusive_forward_list<job, Policy> idle{};
        stdx::bitset<trays, u8> taken{};
        stdx::cx_queue<job *, Inbox> inbox{};
        stdx::intrusive_list<job, Policy> ready{};
        stdx::intrusive_list<job, Policy> waiting{};
        stdx::bitset<sources> paused{};
        clock now{};
    };

    sim::box<common_t> sh{sim::make_default<common_t>()};
    sim::box<worker_t> w{sim::make_default<worker_t>()};
    std::vector<done> log{};
    std::array<u32, sources> raise{};
    std::array<u32, sources> base{};
    std::array<bool, trays> in_use{};
    time truth{};
    Seq first_number{};
    Seq first_credit{};
    std::vector<Seq> numbers{};
    std::vector<Seq> credits{};
    u32 entries{};
    i64 first_in{};
    i64 last_out{};
    u32 reserved{};
    bool sleeping{};
    bool woken{};

    auto value(u32 s, u32 n) const -> u32 { return 1000 * (s + 1) + n * 7; }
    auto position(u32 s, u32 n) const -> u32 { return base[s] + n; }

    // ------------------------------------------------- the worker's side
    using events_t = decltype(std::declval<common_t &>().raised.load());
    auto take(u32 how) -> events_t {
        using namespace stdx;
        auto &r = sh->raised;
        switch (how) {
        case 0:
            return r.reset(lsb_t{0}, msb_t{Events - 1});
        case 1:
            return r.reset(lsb_t{0}, length_t{Events},
                           std::memory_order_acquire);
        case 2:
            return r.set(lsb_t{0}, msb_t{Events - 1}, false);
        case 3:
            return r.set(lsb_t{0}, length_t{Events}, false,
                         std::memory_order_acq_rel);
        case 4: { // one source after the other
            events_t all{};
            for (u32 s = 0; s < sources; ++s) {
                auto const before =
                    r.reset(lsb_t{base[s]}, length_t{items});
                for (u32 n = 0; n < items; ++n) {
                    if (before[position(s, n)]) {
                        all.set(position(s, n));
                    }
                }
            }
            return all;
        }
        default: { // what is there now, one by one
            events_t const seen =
                how == 5   ? r.load(std::memory_order_acquire)
                : how == 6 ? static_cast<events_t>(r)
                : how == 7 ? events_t{r.to_natural()}
                           : events_t{r.template to<u64>()};
            stdx::for_each(
                [&](auto p) {
                    events_t const before = how % 2 == 0 ? r.reset(p)
                                            : how == 5   ? r.flip(p)
                                                         : r.set(p, false);
                    sim::require(before[p], "vanished-event",
                                 "event %d was taken by nobody", p);
                },
                seen);
            return seen;
        }
        }
    }
    static void note(char const *what) {
        sim::host_scope const h{};
        sim::probe(what);
    }
    void drain(u32 how) {
        while (not w->inbox.empty()) {
            if (how == 0) {
                job *const front = w->inbox.front();
                job *const back = w->inbox.back();
                bool const one = w->inbox.size() == 1;
                sim::require(one == (front == back), "wrong-ends",
                             "a queue of %d has the same ends: %d",
                             w->inbox.size(), front == back);
            }
            w->ready.push_back(w->inbox.pop());
        }
        if (how == 1) {
            w->inbox.clear();
        }
    }
    // false: to be tried again
    auto collect(u32 s, u32 n, u32 how) -> bool {
        if (w->idle.empty()) {
            note("no free item");
            return false;
        }
        auto const tray = w->taken.lowest_unset();
        if (tray >= trays) {
            note("no free tray");
            return false;
        }
        job &j = *w->idle.pop_front();
        w->taken.set(tray);
        {
            sim::host_scope const h{};
            sim::require(not in_use[tray], "handed-out-twice",
                         "tray %d is in use", tray);
            in_use[tray] = true;
        }
        j.source = static_cast<u8>(s);
        j.number = static_cast<u8>(n);
        j.tray = static_cast<u8>(tray);
        j.value = sh->mail[position(s, n)];
        if (how == 0 and w->inbox.full()) {
            drain(how);
        }
        try {
            w->inbox.push(&j);
        } catch (elem::panicked const &) {
            note("overflow");
            drain(how);
            w->inbox.push(&j);
        }
        return true;
    }
    void wait(job &j, Tick delay) {
        j.deadline = w->now + clock{delay};
        j.due = truth + delay;
        auto it = w->waiting.begin();
        while (it != w->waiting.end() and
               not cmp_less(j.deadline, it->deadline)) {
            ++it;
        }
        w->waiting.insert(it, &j);
    }
    void fire() {
        time last = 0;
        while (not w->waiting.empty() and
               not cmp_less(w->now, w->waiting.front().deadline)) {
            job *const j = w->waiting.pop_front();
            w->paused.reset(j->source);
            w->ready.push_front(j);
            sim::host_scope const h{};
            sim::require(j->due <= truth, "early-retry",
                         "%d.%d is tried again before its time", j->source,
                         j->number);
            sim::require(j->due >= last, "reordered-retry",
                         "%d.%d is tried again after a later one", j->source,
                         j->number);
            last = j->due;
        }
        for (auto const &j : w->waiting) {
            sim::require(j.due > truth, "late-retry",
                         "%d.%d is not tried again at its time", j.source,
                         j.number);
        }
    }
    // moves a list elsewhere and back: it stays the same
    template <typename L> void shake(L &from, u32 how) {
        std::remove_reference_t<L> to{};
        std::array<job *, nodes> kept{};
        u32 n = 0;
        for (auto &j : from) {
            kept[n++] = &j;
            sim::require(n <= nodes, "broken-list", "a list has no end");
        }
        switch (how) {
        case 0:
            for (u32 i = 0; i < n; ++i) {
                from.remove(kept[(i + 1) % n]);
            }
            break;
        case 1:
            while (not from.empty()) {
                to.push_front(from.pop_back());
            }
            while (not to.empty()) {
                from.push_back(to.pop_front());
            }
            return;
        case 2:
            for (u32 i = 0; i < (n + 1) / 2; ++i) {
                job *const j = kept[(i + n / 2) % n];
                from.remove(j);
                to.push_front(j);
            }
            for (auto *const l : {&to, &from}) {
                u32 const size = l == &to ? (n + 1) / 2 : n / 2;
                for (u32 i = 0; not l->empty(); ++i) {
                    sim::require(i < size, "broken-list",
                                 "a list of %d has no end", size);
                    (void)l->pop_back();
                }
            }
            break;
        default:
            from.clear();
            break;
        }
        for (u32 i = 0; i < n; ++i) {
            if (how == 0) {
                from.insert(from.end(), kept[i]);
            } else {
                from.push_back(kept[i]);
            }
        }
    }
    // an item that is in a list already is handed over once more
    void again(u32 how, bool last) {
        if constexpr (std::is_same_v<Policy<job>,
                                     stdx::node_policy::checked<job>>) {
            auto &from = last ? w->waiting : w->ready;
            if (from.empty() or &from.front() == &from.back()) {
                return; // a single item looks like a free one
            }
            job *const j = last ? &from.back() : &from.front();
            try {
                switch (how) {
                case 0:
                    w->ready.push_front(j);
                    break;
                case 1:
                    w->ready.push_back(j);
                    break;
                default:
                    w->ready.insert(last ? w->ready.end() : w->ready.begin(),
                                    j);
                    break;
                }
                sim::require(false, "accepted-twice",
                             "%d.%d is in two places", j->source, j->number);
            } catch (elem::panicked const &) {
                sim::host_scope const h{};
                sim::fault("handed_over_twice");
            }
        }
    }
    void dispatch(job &j, bool fail, Tick delay, bool behind) {
        w->ready.remove(&j);
        if (fail) {
            w->paused.set(j.source);
            wait(j, delay);
            return;
        }
        w->taken.reset(j.tray);
        {
            sim::host_scope const h{};
            sim::event("completed %d.%d", j.source, j.number);
            log.push_back({j.source, j.number, j.value});
            in_use[j.tray] = false;
        }
        if (behind) {
            w->idle.push_back(&j);
        } else {
            w->idle.push_front(&j);
        }
    }
    struct plan {
        Tick jump{};
        Tick delay{};
        u32 how{};
        u32 draining{};
        u32 shaking{};
        u32 failing{}; // one bit per dispatch
        u32 budget{};
        bool behind{};
    };
    auto draw_plan(bool calm) -> plan {
        plan p{};
        auto const span = [&](u32 small) {
            u32 const k = sim::choose(8);
            return static_cast<Tick>(
                k == 0   ? static_cast<Tick>(half - 1)
                : k == 1 ? static_cast<Tick>(half - 1 - sim::choose(9))
                : k == 2 ? static_cast<Tick>(half / 2 + sim::choose(9))
                         : static_cast<Tick>(sim::choose(small)));
        };
        p.jump = calm ? static_cast<Tick>(half - 1) : span(12);
        p.delay = std::max<Tick>(span(20), 1);
        p.how = sim::choose(9);
        p.draining = sim::choose(3);
        p.shaking = sim::choose(12);
        p.failing = calm ? 0 : sim::choose(16) & sim::choose(16);
        p.budget = 1 + sim::choose(4);
        p.behind = sim::flip(1, 2);
        return p;
    }
    void step(plan const &p) {
        w->now += clock{p.jump};
        truth += p.jump;
        auto const events = take(p.how);
        std::array<bool, sources> held{};
        stdx::for_each(
            [&](auto at) {
                for (u32 s = 0; s < sources; ++s) {
                    if (at < base[s] or at >= base[s] + items) {
                        continue;
                    }
                    if (held[s] or not collect(s, at - base[s], p.draining)) {
                        held[s] = true; // and so are the later ones
                        sh->raised.set(at);
                    }
                }
            },
            events);
        drain(p.draining);
        fire();
        if (p.shaking < 4) {
            shake(w->ready, p.shaking);
        } else if (p.shaking < 8) {
            shake(w->waiting, p.shaking - 4);
        } else if (p.shaking < 10) {
            again(p.draining, p.shaking % 2 == 0);
        }
        u32 left = p.budget;
        u32 i = 0;
        for (auto it = w->ready.begin(); it != w->ready.end() and left > 0;) {
            job &j = *it;
            ++it;
            if (not w->paused[j.source]) {
                --left;
                bool const fail = ((p.failing >> i++) & 1) != 0;
                if (fail) {
                    sim::host_scope const h{};
                    sim::fault("handler_failure");
                }
                dispatch(j, fail, p.delay, p.behind);
            }
        }
    }
    void round(bool calm) {
        auto const p = draw_plan(calm);
        sim::sut([&] { step(p); });
        consistent();
    }
    void consistent() {
        std::array<u32, nodes> seen{};
        u64 held = 0;
        auto const walk = [&](auto const &l, bool counted) {
            u32 guard = 0;
            for (auto const &j : l) {
                auto const i = static_cast<u64>(&j - w->pool.data());
                sim::require(i < nodes, "invented-item", "an unknown item");
                sim::require(++guard <= nodes, "broken-list",
                             "a list has no end");
                ++seen[i];
                held += counted ? 1 : 0;
            }
        };
        walk(w->idle, false);
        walk(w->ready, true);
        walk(w->waiting, true);
        for (auto const n : seen) {
            sim::require(n == 1, n == 0 ? "lost-item" : "duplicated-item",
                         "an item is in %d lists", n);
        }
        sim::require(w->taken.count() == held + reserved, "lost-tray",
                     "%d trays are taken, %d in use", w->taken.count(),
                     held + reserved);
    }
    void doze(u32 how, u32 ask) {
        woken = false;
        bool const quiet = sim::sut([&]() -> bool {
            switch (how) {
            case 0:
                sh->asleep = true;
                break;
            case 1:
                sh->asleep.store(true);
                break;
            default:
                (void)sh->asleep.exchange(true);
                break;
            }
            switch (ask) {
            case 0:
                return sh->raised.none();
            case 1:
                return not sh->raised.any();
            case 2:
                return sh->raised.count() == 0;
            case 3:
                return sh->raised.load().none();
            case 4:
                return sh->raised.to_natural() == 0;
            case 5: {
                for (u32 s = 0; s < sources; ++s) {
                    for (u32 n = 0; n < items; ++n) {
                        if (sh->raised[position(s, n)]) {
                            return false;
                        }
                    }
                }
                return true;
            }
            default:
                return static_cast<events_t>(sh->raised) == events_t{};
            }
        });
        if (quiet) {
            sim::event("asleep");
            sleeping = true;
        } else {
            sim::sut([&] { sh->asleep = false; });
        }
    }
    void work(u32 rounds) {
        for (u32 i = 0; i < rounds; ++i) {
            if (sleeping) {
                if (not woken) {
                    sim::sut([&] { (void)sh->raised.any(); });
                    continue;
                }
                sleeping = false;
                sim::event("woken");
            }
            round(false);
            if (sim::flip(1, 2)) {
                doze(sim::choose(3), sim::choose(7));
            }
        }
    }

    // ------------------------------------------------ the sources' side
    void draw_number(bool up, u32 how, Seq k) {
        Seq const got = sim::sut([&]() -> Seq {
            auto &a = up ? sh->numbers : sh->credits;
            switch (how) {
            case 0:
                return static_cast<Seq>(up ? a.fetch_add(k) : a.fetch_sub(k));
            case 1:
                return static_cast<Seq>(up ? (a += k) - k : (a -= k) + k);
            case 2:
                return static_cast<Seq>(up ? a++ : a--);
            default:
                return static_cast<Seq>(up ? ++a - 1 : --a + 1);
            }
        });
        Seq const n = how < 2 ? k : Seq{1};
        auto &given = up ? numbers : credits;
        for (Seq i = 0; i < n; ++i) {
            Seq const one =
                static_cast<Seq>(up ? got + i - first_number
                                    : first_credit - got + i);
            sim::require(std::find(given.begin(), given.end(), one) ==
                             given.end(),
                         "number-given-twice", "%d was given before", one);
            given.push_back(one);
        }
    }
    void enter(u32 s, u32 how) {
        Seq const mine = static_cast<Seq>(Seq{1} << s);
        Seq const after = sim::sut([&]() -> Seq {
            auto &a = sh->active;
            switch (how) {
            case 0:
                return static_cast<Seq>(a |= mine);
            case 1:
                return static_cast<Seq>(a.fetch_or(mine) | mine);
            case 2:
                return static_cast<Seq>(a ^= mine);
            default:
                return static_cast<Seq>(a.fetch_xor(mine) ^ mine);
            }
        });
        sim::require((after & mine) != 0 and after < (1u << sources),
                     "wrong-mask", "source %d is not among %d", s, after);
        first_in += after == mine ? 1 : 0;
    }
    void leave(u32 s, u32 how) {
        Seq const mine = static_cast<Seq>(Seq{1} << s);
        Seq const rest = static_cast<Seq>(~mine);
        Seq const after = sim::sut([&]() -> Seq {
            auto &a = sh->active;
            switch (how) {
            case 0:
                return static_cast<Seq>(a &= rest);
            case 1:
                return static_cast<Seq>(a.fetch_and(rest) & rest);
            case 2:
                return static_cast<Seq>(a ^= mine);
            default:
                return static_cast<Seq>(a.fetch_xor(mine) ^ mine);
            }
        });
        sim::require((after & mine) == 0 and after < (1u << sources),
                     "wrong-mask", "source %d is still among %d", s, after);
        last_out += after == 0 ? 1 : 0;
    }
    // plain data changed by whoever finds it unlocked
    void record(u32 how) {
        entries += sim::sut([&]() -> u32 {
            auto &l = sh->locked;
            auto const order =
                how == 0 ? std::memory_order_acquire : std::memory_order_acq_rel;
            if (l.exchange(1, order) != 0) {
                return 0;
            }
            sh->ledger += 1;
            switch (how) {
            case 0:
                l.store(0, std::memory_order_release);
                break;
            case 1:
                (void)l.exchange(0, std::memory_order_acq_rel);
                break;
            default:
                (void)l.fetch_sub(1, std::memory_order_release);
                break;
            }
            return 1;
        });
    }
    void announce(u32 p, u32 n, u32 how) {
        using namespace stdx;
        auto &r = sh->raised;
        auto const lsb = lsb_t{p};
        auto const msb = static_cast<msb_t>(p + n - 1);
        auto const len = static_cast<length_t>(n);
        events_t before{};
        bool each_one = false;
        switch (how) {
        case 0:
            before = r.set(lsb, msb);
            break;
        case 1:
            before = r.set(lsb, len);
            break;
        case 2:
            before = r.flip(lsb, msb);
            break;
        case 3:
            before = r.flip(lsb, len);
            break;
        default:
            each_one = true;
            for (u32 i = 0; i < n; ++i) {
                before = how == 4 ? r.set(p + i) : r.flip(p + i);
                sim::require(not before[p + i], "invented-event",
                             "event %d was raised by nobody", p + i);
            }
            break;
        }
        for (u32 i = 0; i < n and not each_one; ++i) {
            sim::require(not before[p + i], "invented-event",
                         "event %d was raised by nobody", p + i);
        }
    }
    void source(u32 s) {
        for (u32 n = 0; n < raise[s];) {
            u32 const batch =
                std::min<u32>(raise[s] - n, 1 + (sim::flip(1, 3) ? 2 : 0));
            u32 const in = sim::choose(4);
            u32 const out = sim::choose(4);
            u32 const say = sim::choose(6);
            u32 const ask = sim::choose(2);
            if (sim::flip(1, 2)) {
                draw_number(true, sim::choose(4),
                            static_cast<Seq>(1 + sim::choose(3)));
                draw_number(false, sim::choose(4),
                            static_cast<Seq>(1 + sim::choose(3)));
            }
            enter(s, in);
            sim::event("T%d raises %d.%d and %d more", sim::self(), s, n,
                       batch - 1);
            bool const wake = sim::sut([&] {
                for (u32 i = 0; i < batch; ++i) {
                    sh->mail[position(s, n + i)] = value(s, n + i);
                }
                announce(position(s, n), batch, say);
                bool const asleep = ask == 0 ? sh->asleep.load()
                                             : static_cast<bool>(sh->asleep);
                return asleep and sh->asleep.exchange(false);
            });
            woken = woken or wake;
            if (sim::flip(1, 2)) {
                record(sim::choose(3));
            }
            leave(s, out);
            n += batch;
        }
    }

    static void go() {
        seam::reset();
        sim::sched_config cfg{};
        bool const irq = sim::flip(1, 2);
        cfg.mode = irq ? sim::sched::interrupts : sim::sched::threads;
        u32 const gaps[] = {15, 6, 40, 120, 0};
        cfg.mean_gap = gaps[sim::choose(5)];
        cfg.stale_reads = not irq and sim::flip(1, 2);
        cfg.max_steps = 120000;
        sim::set_platform(sim::flip(1, 2) ? sim::platform::critical
                                          : sim::platform::lock_free);
        depot d{};
        u32 const n = 1 + sim::choose(sources);
        u32 total = 0;
        for (u32 s = 0; s < sources; ++s) {
            d.base[s] = s * each + sim::choose(each - items + 1);
            if (s < n) {
                u32 k = 1;
                while (sim::more(k, items)) {
                    ++k;
                }
                d.raise[s] = k;
                total += k;
            }
        }
        d.first_number = static_cast<Seq>(sim::choose(8) - 4);
        d.first_credit = static_cast<Seq>(sim::choose(8));
        u32 const from = sim::choose(trays - 2);
        u32 const to = from + sim::choose(trays - 2 - from + 1);
        d.reserved = to - from + 1;
        Tick const start = static_cast<Tick>(
            static_cast<Tick>(sim::choose(3) == 0 ? half : Tick{}) -
            static_cast<Tick>(sim::choose(20)));
        sim::sut([&] {
            d.sh->numbers = d.first_number;
            d.sh->credits = d.first_credit;
            for (auto &j : d.w->pool) {
                d.w->idle.push_back(&j);
            }
            d.w->taken.set(static_cast<stdx::lsb_t>(from),
                           static_cast<stdx::msb_t>(to));
            d.w->now = clock{start};
        });
        for (u32 i = from; i <= to; ++i) {
            d.in_use[i] = true;
        }
        u32 const rounds = sim::choose(8);
        sim::configure(cfg);
        sim::event("%d sources, %s%s", n, irq ? "interrupts" : "threads",
                   cfg.stale_reads ? ", stale reads" : "");
        sim::spawn([&] { d.work(rounds); }, {1, false});
        for (u32 s = 0; s < n; ++s) {
            sim::spawn([&, s] { d.source(s); },
                       {static_cast<int>(s + 2), false});
        }
        sim::run_threads();
        u64 const left = sim::sut([&] { return d.sh->raised.count(); });
        sim::require(not d.sleeping or d.woken or left == 0, "lost-wakeup",
                     "the worker sleeps while %d events are raised", left);
        sim::require(d.first_in == d.last_out, "wrong-mask",
                     "%d times the first to come, %d times the last to go",
                     d.first_in, d.last_out);
        sim::sut([&] {
            auto const up = static_cast<Seq>(d.sh->numbers.load() -
                                             d.first_number);
            auto const down = static_cast<Seq>(d.first_credit -
                                               d.sh->credits.load());
            sim::require(up == static_cast<Seq>(d.numbers.size()) and
                             down == static_cast<Seq>(d.credits.size()),
                         "lost-number", "%d numbers, %d credits used", up,
                         down);
        });
        sim::require(d.sh->ledger == d.entries, "lost-entry",
                     "%d entries made, %d found", d.entries, d.sh->ledger);
        constexpr u32 bound = 120;
        u32 i = 0;
        while (d.log.size() < total) {
            sim::require(i++ < bound, "no-progress",
                         "%d of %d items completed after %d calm rounds",
                         d.log.size(), total, bound);
            d.round(true);
        }
        d.round(true);
        scene::judge(d.log, d.raise, d, true);
        sim::require(
            sim::sut([&] { return d.sh->raised.none(); }), "stuck-event",
            "events are raised at the end");
        sim::nontrivial();
    }
};
void depot_run() {
    using namespace stdx;
    static constexpr std::array<void (*)(), 6> fs{
        depot<18, u8, u8, 1, node_policy::checked>::go,
        depot<33, std::uint16_t, std::uint16_t, 3,
              node_policy::unchecked>::go,
        depot<64, u32, u32, 2, node_policy::checked>::go,
        depot<24, u64, u64, 7, node_policy::unchecked>::go,
        depot<6, u8, u32, 5, node_policy::checked>::go,
        depot<48, u32, u8, 2, node_policy::unchecked>::go};
    fs[sim::choose(fs.size())]();
}
} // namespace SIM_NS

#ifndef SIM_WIDE_STORAGE
namespace wide {
void system_run();
void depot_run();
}
namespace {
sim::scenario const scenarios[] = {
    {"natural_storage", 2, nat::system_run},
    {"widened_storage", 1, wide::system_run},
    {"depot_natural_storage", 2, nat::depot_run},
    {"depot_widened_storage", 1, wide::depot_run},
};
}
sim::property_def const sim::the_property = {
    "C22",
    "Each run is one of two event-driven programs built from the library's "
    "parts. First: up to 3 sources (interrupts or threads, one fed by up to 3 "
    "producers that draw numbered places) submit 1-6 items each through plain "
    "mailboxes, atomic counters and an atomic event set; a worker collects "
    "them into slots of a bitset, a queue of 2, and ready and retry lists on "
    "an 8-bit clock. Second: every item has its own event in a set of 6-64, "
    "the worker sleeps when nothing is raised, items come from a list of free "
    "ones, retries are sorted by time on clocks of 8-64 bits, queues hold "
    "1-7. Injected: preemption at any access, stale reads, failing handlers, "
    "items handed over twice, queue, slot and item shortage, clock jumps up "
    "to half the range. Completed work is compared with submitted work; after "
    "the faults stop everything must complete within 120 rounds. Non-trivial: "
    "the program ended with all work done. Distinct: hash of all choices, "
    "switches and results.",
    "stdx::atomic, atomic_bitset, bitset, cx_queue, cx_map, cx_vector, "
    "intrusive_list, rollover_t, cached, panic",
    "platform atomic layer, threads, interrupts, scheduler, clock, user "
    "handlers",
    scenarios,
    4,
    5000000,
    30000000,
};
#endif
