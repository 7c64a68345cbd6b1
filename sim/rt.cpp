// Deterministic simulation runtime: fibers, scheduler, C++ memory model,
// race and bounds detection, search / minimise / replay driver.
//
// The code under test is compiled with -fsanitize=thread and
// -fsanitize-coverage=trace-pc, but linked against THIS file instead of the
// sanitizer runtime: every memory access of the code under test calls into
// the scheduler below.  There is exactly one OS thread per process.
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>

#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr int MAXT = 12;
constexpr std::size_t STACK = 256 * 1024;

// ------------------------------------------------------------------ PRNG
struct Rng {
    u64 s[4];
    static auto splitmix(u64 &x) -> u64 {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(u64 a, u64 b, u64 c) {
        u64 x = a * 0x9e3779b97f4a7c15ull + 0x1234567;
        x ^= splitmix(x) + b;
        x ^= splitmix(x) + c;
        for (auto &v : s) {
            v = splitmix(x);
        }
    }
    static auto rotl(u64 x, int k) -> u64 { return (x << k) | (x >> (64 - k)); }
    auto next() -> u64 {
        u64 const r = rotl(s[1] * 5, 7) * 9;
        u64 const t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
};

// ------------------------------------------------------------------ fibers
extern "C" void sim_swap(void **save_sp, void *new_sp);
#if defined(__x86_64__)
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
)");
#else
#error "fiber switch is implemented for x86-64 only"
#endif

struct VC {
    u32 c[MAXT]{};
    void join(VC const &o) {
        for (int i = 0; i < MAXT; ++i) {
            c[i] = std::max(c[i], o.c[i]);
        }
    }
};

enum class St : u8 { unused, unstarted, runnable, waiting, finished, killed };

struct EhGlobals {
    void *caught;
    unsigned uncaught;
};

struct Fiber {
    void *sp = nullptr;
    St st = St::unused;
    std::function<void()> fn;
    sim::thread_opts opts;
    int sut = 0;
    int platform = 0;
    EhGlobals eh{};
    VC vc;
    int preempted_by = -1;
    int preempts = -1; // thread to resume when this one finishes (interrupts)
};

// ------------------------------------------------------------------ cells
struct Store {
    u64 value;
    int tid;
    u32 clk;
    bool sc;
    bool has_sync;
    VC sync;
};
struct Cell {
    u64 addr;
    unsigned size;
    std::vector<Store> h;
    int sc_floor = 0;
    int seen[MAXT]{};
};

struct Acc {
    u32 clk = 0;
    u8 mask = 0;
};
struct Granule {
    u64 addr;
    Acc a[MAXT][4]; // kind: 0 plain read, 1 plain write, 2 atomic rd, 3 at. wr
};

struct Named {
    char name[48];
    u64 n;
};

struct Stats {
    u64 runs, steps, edges, switches, preempt_in_sut, stale, irq_nest, kills;
    u64 faults_total, ticks, nontrivial, cells_ops;
    Named faults[32];
    Named probes[96];
    Named scen[32];
};

struct RT {
    Rng rng;
    bool replaying = false;
    std::vector<u32> in;   // replay choices
    std::size_t in_pos = 0;
    std::vector<u32> out;  // recorded choices
    u64 hash = 0;
    u64 sched_hash = 0;
    bool trace = false;
    std::string text;
    bool failed = false;
    std::string cls, msg;
    bool nontriv = false;

    Fiber f[MAXT];
    int nf = 0;
    int cur = 0;
    void *main_sp = nullptr;
    EhGlobals main_eh{};
    sim::sched_config cfg;
    u64 steps = 0;
    u64 gap = 0; // 0: no forced switch pending
    bool mt = false;
    int masked = 0;
    VC lock_vc;
    VC all_lock;
    sim::platform plat = sim::platform::lock_free;

    std::vector<Cell> cells;
    std::vector<std::pair<u64, u64>> watches;

    u32 arm = 0;
    bool fired = false;
    u32 fpoints = 0;

    u64 faults_run = 0;
    u64 preempt_run = 0;
    Stats st{};
} g;

char *g_stacks = nullptr; // contiguous region of all fiber stacks
constexpr std::size_t STACK_REGION = STACK * MAXT;

int g_hook = 0; // >0: accesses of the current thread are intercepted
u64 g_edges = 0;
u64 g_edge_on = 0;
u64 g_edge_limit = 0;

// shadow granules
constexpr u32 GTAB = 1u << 13;
u32 g_gen = 1;
struct GSlot {
    u64 addr;
    u32 gen;
    u32 idx;
};
GSlot g_gtab[GTAB];
std::vector<Granule> g_gran;

// arena
constexpr std::size_t ARENA = 1u << 20;
alignas(64) char g_arena[ARENA];
u8 g_avalid[ARENA];
std::size_t g_apos = 0;
std::size_t g_ahigh = 0;

auto on_stack(u64 a) -> bool {
    auto const lo = reinterpret_cast<u64>(g_stacks);
    return a >= lo and a < lo + STACK_REGION;
}

void mixh(u64 v) {
    g.hash ^= v + 0x9e3779b97f4a7c15ull + (g.hash << 6) + (g.hash >> 2);
    g.hash *= 0x100000001b3ull;
}
void mixs(u64 v) {
    g.sched_hash ^= v + 0x9e3779b97f4a7c15ull + (g.sched_hash << 6) +
                    (g.sched_hash >> 2);
    g.sched_hash *= 0x100000001b3ull;
}

// Inside the runtime neither accesses nor basic blocks are counted (template
// code shared with the instrumented objects may be the instrumented copy).
struct RtGuard {
    int saved;
    u64 saved_edge;
    RtGuard() : saved{g_hook}, saved_edge{g_edge_on} {
        g_hook = 0;
        g_edge_on = 0;
    }
    ~RtGuard() {
        g_hook = saved;
        g_edge_on = saved_edge;
    }
};

void named_add(Named *tab, int n, char const *name, u64 by = 1) {
    for (int i = 0; i < n; ++i) {
        if (tab[i].name[0] == 0) {
            std::strncpy(tab[i].name, name, sizeof(tab[i].name) - 1);
            tab[i].n += by;
            return;
        }
        if (std::strncmp(tab[i].name, name, sizeof(tab[i].name) - 1) == 0) {
            tab[i].n += by;
            return;
        }
    }
}

// ------------------------------------------------------------ fiber switch
void save_eh(EhGlobals &e) {
    std::memcpy(&e, abi::__cxa_get_globals(), sizeof(void *) + sizeof(unsigned));
}
void load_eh(EhGlobals const &e) {
    std::memcpy(abi::__cxa_get_globals(), &e, sizeof(void *) + sizeof(unsigned));
}

void switch_to(int t) {
    int const from = g.cur;
    Fiber &a = g.f[from];
    Fiber &b = g.f[t];
    save_eh(a.eh);
    g.cur = t;
    load_eh(b.eh);
    sim_swap(&a.sp, b.sp);
}
[[noreturn]] void to_main() {
    load_eh(g.main_eh);
    void *dummy;
    g_hook = 0;
    g_edge_on = 0;
    g_edge_limit = ~u64{};
    sim_swap(&dummy, g.main_sp);
    __builtin_unreachable();
}

void thread_exit_switch();

[[gnu::noinline]] void fiber_body() {
    Fiber &me = g.f[g.cur];
    try {
        me.fn();
    } catch (sim::fault_t const &) {
        g_hook = 0;
        sim::fail("escaped-fault", "an injected failure escaped from thread %d",
                  g.cur);
    } catch (...) {
        g_hook = 0;
        sim::fail("unexpected-exception",
                  "an unexpected exception escaped from thread %d", g.cur);
    }
    g_hook = 0;
}

void fiber_entry() {
    g_hook = 0;
    g_edge_on = 1;
    fiber_body();
    g.f[g.cur].st = St::finished;
    if (g.cur == 0) {
        to_main();
    }
    thread_exit_switch();
    __builtin_unreachable();
}

void prepare(int t) {
    Fiber &f = g.f[t];
    char *top = g_stacks + STACK * static_cast<std::size_t>(t + 1);
    auto sp = reinterpret_cast<u64>(top) & ~u64{15};
    auto *p = reinterpret_cast<void **>(sp);
    *--p = nullptr; // fake return address of fiber_entry, keeps alignment
    *--p = reinterpret_cast<void *>(&fiber_entry);
    for (int i = 0; i < 6; ++i) {
        *--p = nullptr;
    }
    f.sp = p;
    f.eh = {};
    f.sut = 0;
    f.platform = 0;
    f.preempts = -1;
    f.preempted_by = -1;
}

void draw_gap() {
    if (g.cfg.mean_gap == 0) {
        g.gap = 0;
        return;
    }
    g.gap = sim::choose(2 * g.cfg.mean_gap + 1);
}

auto runnable(int t) -> bool {
    return g.f[t].st == St::runnable or g.f[t].st == St::unstarted;
}

void note_switch(int t) {
    ++g.st.switches;
    mixs(static_cast<u64>(t) * 1000003u + g.steps);
    mixh(0xABCD0000u + static_cast<u64>(t));
    if (g.trace) {
        sim::event("  -- run T%d", t);
    }
}

void enter_thread(int t) {
    g.f[t].st = St::runnable;
    draw_gap();
    note_switch(t);
    switch_to(t);
}

// the current thread cannot continue: pick another one (or wake the root)
void thread_exit_switch() {
    Fiber &me = g.f[g.cur];
    if (g.cfg.mode == sim::sched::interrupts and me.preempts >= 0 and
        me.st == St::finished) {
        int const t = me.preempts;
        draw_gap();
        note_switch(t);
        switch_to(t);
        return;
    }
    int cand[MAXT];
    u32 n = 0;
    for (int i = 1; i < g.nf; ++i) {
        if (runnable(i)) {
            cand[n++] = i;
        }
    }
    if (n == 0) {
        g.f[0].st = St::runnable;
        g.mt = false;
        switch_to(0);
        return;
    }
    enter_thread(cand[sim::choose(n)]);
}

// A preemption point.
void preempt_point() {
    if (not g.mt) {
        return;
    }
    ++g.steps;
    if (g.steps > g.cfg.max_steps) {
        sim::fail("no-progress",
                  "threads still running after %u scheduling steps", g.steps);
    }
    if (g.masked > 0 or g.gap == 0 or --g.gap != 0) {
        return;
    }
    int const cur = g.cur;
    if (g.cfg.mode == sim::sched::interrupts) {
        int cand[MAXT];
        u32 n = 0;
        for (int i = 1; i < g.nf; ++i) {
            if (g.f[i].st == St::unstarted and
                g.f[i].opts.priority > g.f[cur].opts.priority) {
                cand[n++] = i;
            }
        }
        if (n == 0) {
            draw_gap();
            return;
        }
        int const t = cand[sim::choose(n)];
        g.f[t].preempts = cur;
        ++g.st.irq_nest;
        if (g.f[cur].sut > 0) {
            ++g.st.preempt_in_sut;
            ++g.preempt_run;
        }
        enter_thread(t);
        return;
    }
    int cand[MAXT];
    u32 n = 0;
    for (int i = 1; i < g.nf; ++i) {
        if (i != cur and runnable(i)) {
            cand[n++] = i;
        }
    }
    if (g.cfg.kill and g.f[cur].opts.killable and sim::flip(1, 4)) {
        sim::event("FAULT kill T%d", cur);
        sim::fault("thread_killed");
        ++g.st.kills;
        g.f[cur].st = St::killed;
        if (n == 0) {
            thread_exit_switch();
        } else {
            enter_thread(cand[sim::choose(n)]);
        }
        __builtin_unreachable();
    }
    if (n == 0) {
        draw_gap();
        return;
    }
    if (g.f[cur].sut > 0) {
        ++g.st.preempt_in_sut;
        ++g.preempt_run;
    }
    enter_thread(cand[sim::choose(n)]);
}

// ------------------------------------------------------------------ races
auto granule(u64 addr) -> Granule & {
    u64 const key = addr >> 3;
    u32 h = static_cast<u32>((key * 0x9e3779b97f4a7c15ull) >> 51);
    for (;;) {
        GSlot &s = g_gtab[h & (GTAB - 1)];
        if (s.gen != g_gen) {
            s.gen = g_gen;
            s.addr = key;
            s.idx = static_cast<u32>(g_gran.size());
            g_gran.emplace_back();
            g_gran.back().addr = key;
            if (g_gran.size() > GTAB / 2) {
                sim::fail("harness-limit", "too many shared locations");
            }
        }
        if (s.addr == key) {
            return g_gran[s.idx];
        }
        ++h;
    }
}

char const *const kind_name[4] = {"plain read", "plain write", "atomic read",
                                  "atomic write"};

void race_check_1(u64 addr, unsigned size, int kind) {
    // within one granule
    Granule &gr = granule(addr);
    auto const off = static_cast<unsigned>(addr & 7);
    auto const mask = static_cast<u8>(((1u << size) - 1u) << off);
    int const me = g.cur;
    VC const &vc = g.f[me].vc;
    for (int t = 0; t < g.nf; ++t) {
        if (t == me) {
            continue;
        }
        for (int k = 0; k < 4; ++k) {
            bool const w = (kind & 1) != 0 or (k & 1) != 0;
            bool const both_atomic = kind >= 2 and k >= 2;
            if (not w or both_atomic) {
                continue;
            }
            Acc const &a = gr.a[t][k];
            if ((a.mask & mask) != 0 and a.clk > vc.c[t]) {
                sim::fail("data-race",
                          "unsynchronised %s by T%d conflicts with %s by T%d",
                          kind_name[kind], me, kind_name[k], t);
            }
        }
    }
    Acc &mine = gr.a[me][kind];
    u32 const clk = vc.c[me];
    if (mine.clk == clk) {
        mine.mask |= mask;
    } else {
        mine.clk = clk;
        mine.mask = mask;
    }
}
void race_check(u64 addr, u64 size, int kind) {
    if (not g.mt or not g.cfg.detect_races) {
        return;
    }
    while (size != 0) {
        u64 const n = std::min<u64>(size, 8 - (addr & 7));
        race_check_1(addr, static_cast<unsigned>(n), kind);
        addr += n;
        size -= n;
    }
}

void access_checks(u64 addr, u64 size, bool write) {
    auto const lo = reinterpret_cast<u64>(g_arena);
    if (addr >= lo - 64 and addr < lo + ARENA) {
        for (u64 i = 0; i < size; ++i) {
            if (addr + i < lo or addr + i >= lo + ARENA or
                g_avalid[addr + i - lo] == 0) {
                sim::fail("out-of-bounds",
                          "%s of %u bytes outside the object under test",
                          write ? "write" : "read", size);
            }
        }
    }
    if (not g.watches.empty() and g.f[g.cur].platform == 0) {
        for (auto const &[b, e] : g.watches) {
            if (addr < e and addr + size > b) {
                sim::fail("bypass",
                          "%s of a shared cell outside the platform layer",
                          write ? "write" : "read");
            }
        }
    }
}

void access(void const *p, u64 size, bool write) {
    auto const addr = reinterpret_cast<u64>(p);
    if (on_stack(addr)) {
        return;
    }
    RtGuard const guard{};
    access_checks(addr, size, write);
    if (g.mt) {
        preempt_point();
        race_check(addr, size, write ? 1 : 0);
    }
}
// an access that the compiler takes to be aligned (to eight bytes at most)
void aligned(void const *p, u64 size) {
    auto const addr = reinterpret_cast<u64>(p);
    size = std::min<u64>(size, 8);
    if (addr % size != 0) {
        RtGuard const guard{};
        sim::fail("misaligned-access", "%u bytes at an address %u past a "
                  "multiple of them", size, addr % size);
    }
}

// ------------------------------------------------------------------ cells
auto read_mem(u64 addr, unsigned size) -> u64 {
    u64 v = 0;
    std::memcpy(&v, reinterpret_cast<void const *>(addr), size);
    return v;
}
void write_mem(u64 addr, unsigned size, u64 v) {
    std::memcpy(reinterpret_cast<void *>(addr), &v, size);
}
auto trunc(u64 v, unsigned size) -> u64 {
    return size == 8 ? v : v & ((u64{1} << (8 * size)) - 1);
}

auto cell_at(u64 addr, unsigned size) -> Cell & {
    Cell *c = nullptr;
    for (auto &x : g.cells) {
        if (x.addr == addr and x.size == size) {
            c = &x;
            break;
        }
    }
    if (c == nullptr) {
        g.cells.push_back(Cell{addr, size, {}, 0, {}});
        c = &g.cells.back();
    }
    u64 const m = read_mem(addr, size);
    if (c->h.empty()) {
        // value from construction, before the object was shared
        c->h.push_back(Store{m, 0, 0, true, false, {}});
    } else if (c->h.back().value != m) {
        // changed by code outside the simulation (e.g. the guard variable of
        // a function-local static): treated as synchronised with everybody
        c->h.clear();
        Store s{m, 0, 0, true, true, {}};
        for (int i = 0; i < g.nf; ++i) {
            s.sync.join(g.f[i].vc);
        }
        c->h.push_back(s);
        c->sc_floor = 0;
        std::fill(std::begin(c->seen), std::end(c->seen), 0);
    }
    return *c;
}

auto is_acq(int mo) -> bool { return mo == 1 or mo == 2 or mo == 4 or mo == 5; }
auto is_rel(int mo) -> bool { return mo == 3 or mo == 4 or mo == 5; }

void cell_prologue(u64 addr, unsigned size, bool write) {
    ++g.st.cells_ops;
    access_checks(addr, size, write);
    if (g.mt) {
        preempt_point();
    }
}

auto do_load(u64 addr, unsigned size, int mo) -> u64 {
    cell_prologue(addr, size, false);
    race_check(addr, size, 2);
    Cell &c = cell_at(addr, size);
    Fiber &me = g.f[g.cur];
    int const last = static_cast<int>(c.h.size()) - 1;
    int lo = 0;
    for (int i = last; i > 0; --i) {
        auto const &s = c.h[static_cast<std::size_t>(i)];
        if (s.clk <= me.vc.c[s.tid] or i == c.seen[g.cur]) {
            lo = i;
            break;
        }
    }
    lo = std::max(lo, c.seen[g.cur]);
    if (mo == 5) {
        lo = std::max(lo, c.sc_floor);
    }
    int idx = last;
    if (g.cfg.stale_reads and g.mt and lo < last) {
        auto const back = sim::choose(static_cast<u32>(last - lo + 1));
        idx = last - static_cast<int>(back);
        if (back != 0) {
            ++g.st.stale;
            sim::fault("stale_read");
            sim::event("FAULT stale read by T%d (%d stores back)", g.cur, back);
        }
    }
    auto const &s = c.h[static_cast<std::size_t>(idx)];
    c.seen[g.cur] = std::max(c.seen[g.cur], idx);
    if (mo == 5) {
        c.sc_floor = std::max(c.sc_floor, idx);
    }
    if (is_acq(mo) and s.has_sync) {
        me.vc.join(s.sync);
    }
    return s.value;
}

void push_store(Cell &c, u64 v, int mo, VC const *chain) {
    Fiber &me = g.f[g.cur];
    Store s{v, g.cur, me.vc.c[g.cur], mo == 5, false, {}};
    if (chain != nullptr) {
        s.sync = *chain;
        s.has_sync = true;
    }
    if (is_rel(mo)) {
        s.sync.join(me.vc);
        s.has_sync = true;
    }
    c.h.push_back(s);
    int const idx = static_cast<int>(c.h.size()) - 1;
    c.seen[g.cur] = idx;
    if (mo == 5) {
        c.sc_floor = idx;
    }
    ++me.vc.c[g.cur];
    write_mem(c.addr, c.size, v);
}

void do_store(u64 addr, unsigned size, u64 v, int mo) {
    cell_prologue(addr, size, true);
    race_check(addr, size, 3);
    Cell &c = cell_at(addr, size);
    push_store(c, trunc(v, size), mo, nullptr);
}

template <typename F>
auto do_rmw(u64 addr, unsigned size, int mo, F f) -> u64 {
    cell_prologue(addr, size, true);
    race_check(addr, size, 3);
    Cell &c = cell_at(addr, size);
    Store const prev = c.h.back();
    Fiber &me = g.f[g.cur];
    if (is_acq(mo) and prev.has_sync) {
        me.vc.join(prev.sync);
    }
    push_store(c, trunc(f(prev.value), size), mo,
               prev.has_sync ? &prev.sync : nullptr);
    return prev.value;
}

auto apply_rmw(sim::rmw op, u64 a, u64 b) -> u64 {
    switch (op) {
    case sim::rmw::xchg:
        return b;
    case sim::rmw::add:
        return a + b;
    case sim::rmw::sub:
        return a - b;
    case sim::rmw::and_:
        return a & b;
    case sim::rmw::or_:
        return a | b;
    case sim::rmw::xor_:
        return a ^ b;
    }
    return b;
}

} // namespace

// ==================================================================== API
namespace sim {

auto choose(u32 n) -> u32 {
    if (n <= 1) {
        return 0;
    }
    RtGuard const guard{};
    u32 v;
    if (g.replaying) {
        v = g.in_pos < g.in.size() ? g.in[g.in_pos] : 0;
        ++g.in_pos;
        if (v >= n) {
            v %= n;
        }
    } else {
        v = static_cast<u32>((static_cast<unsigned __int128>(g.rng.next()) * n) >> 64);
    }
    g.out.push_back(v);
    mixh(v);
    return v;
}
auto flip(u32 num, u32 den) -> bool {
    if (num == 0) {
        return false;
    }
    if (g.replaying) {
        return choose(2) != 0;
    }
    RtGuard const guard{};
    u32 const v = (g.rng.next() >> 32) * den >> 32 < num ? 1 : 0;
    g.out.push_back(v);
    mixh(v);
    return v != 0;
}
auto maybe(u32 num, u32 den, u32 n) -> u32 {
    if (n == 0) {
        return 0;
    }
    if (g.replaying) {
        return choose(n + 1);
    }
    RtGuard const guard{};
    u32 v = 0;
    if ((g.rng.next() >> 32) * den >> 32 < num) {
        v = 1 + static_cast<u32>((static_cast<unsigned __int128>(g.rng.next()) * n) >> 64);
    }
    g.out.push_back(v);
    mixh(v);
    return v;
}
auto value64() -> u64 {
    switch (choose(8)) {
    case 0:
        return choose(4);
    case 1:
        return choose(256);
    case 2:
        return ~u64{} - choose(4);
    case 3:
        return u64{1} << choose(64);
    case 4:
        return (u64{1} << choose(64)) - 1;
    case 5:
        return ~(u64{1} << choose(64));
    default: {
        u64 const hi = choose(0xffffffffu);
        return (hi << 32) | choose(0xffffffffu);
    }
    }
}

static auto format(char const *fmt, u64 const *args, unsigned nargs,
                   unsigned strmask) -> std::string {
    std::string out;
    unsigned i = 0;
    for (char const *p = fmt; *p != 0; ++p) {
        if (*p == '%' and p[1] != 0 and i < nargs) {
            ++p;
            char b[32];
            if ((strmask >> i) & 1u) {
                out += reinterpret_cast<char const *>(args[i]);
            } else if (*p == 'x') {
                std::snprintf(b, sizeof b, "%llx",
                              static_cast<unsigned long long>(args[i]));
                out += b;
            } else if (*p == 'u') {
                std::snprintf(b, sizeof b, "%llu",
                              static_cast<unsigned long long>(args[i]));
                out += b;
            } else {
                std::snprintf(b, sizeof b, "%lld",
                              static_cast<long long>(args[i]));
                out += b;
            }
            ++i;
        } else {
            out += *p;
        }
    }
    return out;
}

void event_args(char const *fmt, u64 const *args, unsigned nargs,
                unsigned strmask) {
    RtGuard const guard{};
    u64 fh = 14695981039346656037ull;
    for (char const *p = fmt; *p != 0; ++p) {
        fh = (fh ^ static_cast<u8>(*p)) * 1099511628211ull;
    }
    if (not(fmt[0] == ' ' and fmt[1] == ' ')) { // indented: trace only
        mixh(fh);
        for (unsigned i = 0; i < nargs; ++i) {
            if ((strmask >> i) & 1u) {
                for (auto p = reinterpret_cast<char const *>(args[i]); *p != 0; ++p) {
                    mixh(static_cast<u8>(*p));
                }
            } else {
                mixh(args[i]);
            }
        }
    }
    if (g.trace and g.text.size() < 60000) {
        char b[48];
        std::snprintf(b, sizeof b, "%llu T%d: ",
                      static_cast<unsigned long long>(g.steps), g.cur);
        g.text += b;
        g.text += format(fmt, args, nargs, strmask);
        g.text += '\n';
    }
}
void event(char const *fmt) { event_args(fmt, nullptr, 0, 0); }

void fail_args(char const *cls, char const *fmt, u64 const *args,
               unsigned nargs, unsigned strmask) {
    g_hook = 0;
    g.failed = true;
    g.cls = cls;
    g.msg = format(fmt, args, nargs, strmask);
    for (char const *p = cls; *p != 0; ++p) {
        mixh(static_cast<u8>(*p));
    }
    if (g.trace) {
        g.text += "VIOLATION " + g.cls + ": " + g.msg + "\n";
    }
    to_main();
}

void fault(char const *kind) {
    RtGuard const guard{};
    ++g.faults_run;
    ++g.st.faults_total;
    named_add(g.st.faults, 32, kind);
}
void probe(char const *name) {
    RtGuard const guard{};
    named_add(g.st.probes, 96, name);
}
void sim_time(u64 t) { g.st.ticks += t; }
void nontrivial() { g.nontriv = true; }
void mix(u64 v) { mixh(v); }

auto spawn(std::function<void()> f, thread_opts o) -> int {
    RtGuard const guard{};
    if (g.nf >= MAXT) {
        fail("harness-limit", "too many threads");
    }
    int const t = g.nf++;
    Fiber &x = g.f[t];
    x.fn = std::move(f);
    x.opts = o;
    x.st = St::unstarted;
    x.vc = g.f[g.cur].vc;
    x.vc.c[t] = 1;
    prepare(t);
    return t;
}
void run_threads() {
    RtGuard const guard{};
    if (g.nf <= 1) {
        return;
    }
    ++g.f[0].vc.c[0];
    g.mt = true;
    g.f[0].st = St::waiting;
    int cand[MAXT];
    u32 n = 0;
    for (int i = 1; i < g.nf; ++i) {
        if (runnable(i)) {
            cand[n++] = i;
        }
    }
    if (n != 0) {
        if (g.cfg.mode == sched::interrupts) {
            // start with the lowest priority (the main program)
            int best = cand[0];
            for (u32 i = 1; i < n; ++i) {
                if (g.f[cand[i]].opts.priority < g.f[best].opts.priority) {
                    best = cand[i];
                }
            }
            enter_thread(best);
        } else {
            enter_thread(cand[choose(n)]);
        }
    }
    g.mt = false;
    for (int i = 1; i < g.nf; ++i) {
        g.f[0].vc.join(g.f[i].vc);
    }
}
auto self() -> int { return g.cur; }
auto now() -> u64 { return g.steps; }
void yield() {
    RtGuard const guard{};
    preempt_point();
}
auto alive_threads() -> int {
    int n = 0;
    for (int i = 1; i < g.nf; ++i) {
        n += runnable(i) ? 1 : 0;
    }
    return n;
}
auto was_killed(int t) -> bool { return g.f[t].st == St::killed; }
void configure(sched_config const &c) { g.cfg = c; }

void irq_disable() {
    RtGuard const guard{};
    if (g.masked == 0 and g.mt) {
        preempt_point();
    }
    if (g.masked++ == 0) {
        g.f[g.cur].vc.join(g.lock_vc);
    }
}
void irq_enable() {
    RtGuard const guard{};
    if (g.masked == 1) {
        g.lock_vc.join(g.f[g.cur].vc);
        ++g.f[g.cur].vc.c[g.cur];
    }
    --g.masked;
}

sut_scope::sut_scope() {
    ++g.f[g.cur].sut;
    g_hook = g.f[g.cur].sut;
}
sut_scope::~sut_scope() {
    --g.f[g.cur].sut;
    g_hook = g.f[g.cur].sut;
}
host_scope::host_scope() : saved{g.f[g.cur].sut} {
    g.f[g.cur].sut = 0;
    g_hook = 0;
}
host_scope::~host_scope() {
    g.f[g.cur].sut = saved;
    g_hook = saved;
}
auto in_sut() -> bool { return g.f[g.cur].sut > 0; }

auto arena_alloc(std::size_t size, std::size_t align) -> void * {
    RtGuard const guard{};
    constexpr std::size_t zone = 64;
    std::size_t p = g_apos + zone;
    // never better aligned than asked for
    p = (p + 2 * align - 1) / (2 * align) * (2 * align) + align;
    if (p + size + 2 * zone > ARENA) {
        fail("harness-limit", "arena exhausted");
    }
    std::memset(g_arena + p, 0xA5, size);
    std::memset(g_avalid + p, 1, size);
    g_apos = p + size + zone;
    g_ahigh = std::max(g_ahigh, g_apos);
    return g_arena + p;
}
void arena_free(void *q) {
    RtGuard const guard{};
    // objects are separated by invalid bytes: clear until the guard zone
    auto i = static_cast<std::size_t>(static_cast<char *>(q) - g_arena);
    while (i < ARENA and g_avalid[i] != 0) {
        g_avalid[i++] = 0;
    }
}

auto cell_load(void const *a, unsigned size, int mo) -> u64 {
    RtGuard const guard{};
    return do_load(reinterpret_cast<u64>(a), size, mo);
}
void cell_store(void *a, unsigned size, u64 v, int mo) {
    RtGuard const guard{};
    do_store(reinterpret_cast<u64>(a), size, v, mo);
}
auto cell_rmw(void *a, unsigned size, rmw op, u64 v, int mo) -> u64 {
    RtGuard const guard{};
    return do_rmw(reinterpret_cast<u64>(a), size, mo,
                  [&](u64 old) { return apply_rmw(op, old, v); });
}
void set_platform(platform p) { g.plat = p; }
auto get_platform() -> platform { return g.plat; }
void platform_enter() { ++g.f[g.cur].platform; }
void platform_leave() { --g.f[g.cur].platform; }
void cell_aligned(void const *p, std::size_t n) {
    if (reinterpret_cast<u64>(p) % n != 0) {
        fail("misaligned-cell", "a cell is not on the platform's boundary of "
             "%u bytes", n);
    }
}
void watch_cell(void const *p, std::size_t n) {
    RtGuard const guard{};
    auto const a = reinterpret_cast<u64>(p);
    g.watches.emplace_back(a, a + n);
}

void arm(u32 k) {
    g.arm = k;
    g.fired = false;
    g.fpoints = 0;
}
auto disarm() -> bool {
    g.arm = 0;
    return g.fired;
}
auto fault_fired() -> bool { return g.fired; }
auto fault_points_seen() -> u32 { return g.fpoints; }
auto fault_point(char const *kind) -> bool {
    ++g.fpoints;
    if (g.arm == 0 or --g.arm != 0) {
        return false;
    }
    g.fired = true;
    RtGuard const guard{};
    fault(kind);
    event("FAULT %s", kind);
    return true;
}

} // namespace sim

// ============================================================ tsan hooks
extern "C" {
void __sanitizer_cov_trace_pc() {
    g_edges += g_edge_on;
    if (g_edges > g_edge_limit) {
        g_edge_limit = ~u64{};
        g_hook = 0;
        sim::fail("no-progress", "no end after %u basic blocks", g_edges);
    }
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}

#define ACC(N)                                                                 \
    void __tsan_read##N(void *a) {                                             \
        if (g_hook) {                                                          \
            aligned(a, N);                                                     \
            access(a, N, false);                                               \
        }                                                                      \
    }                                                                          \
    void __tsan_write##N(void *a) {                                            \
        if (g_hook) {                                                          \
            aligned(a, N);                                                     \
            access(a, N, true);                                                \
        }                                                                      \
    }                                                                          \
    void __tsan_unaligned_read##N(void *a) {                                   \
        if (g_hook) {                                                          \
            access(a, N, false);                                               \
        }                                                                      \
    }                                                                          \
    void __tsan_unaligned_write##N(void *a) {                                  \
        if (g_hook) {                                                          \
            access(a, N, true);                                                \
        }                                                                      \
    }                                                                          \
    void __tsan_volatile_read##N(void *a) {                                    \
        if (g_hook) {                                                          \
            access(a, N, false);                                               \
        }                                                                      \
    }                                                                          \
    void __tsan_volatile_write##N(void *a) {                                   \
        if (g_hook) {                                                          \
            access(a, N, true);                                                \
        }                                                                      \
    }                                                                          \
    void __tsan_read_write##N(void *a) {                                       \
        if (g_hook) {                                                          \
            access(a, N, false);                                               \
            access(a, N, true);                                                \
        }                                                                      \
    }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *a, unsigned long n) {
    if (g_hook and n) {
        access(a, n, false);
    }
}
void __tsan_write_range(void *a, unsigned long n) {
    if (g_hook and n) {
        access(a, n, true);
    }
}
void __tsan_vptr_update(void **a, void *) {
    if (g_hook) {
        access(a, 8, true);
    }
}
void __tsan_vptr_read(void **a) {
    if (g_hook) {
        access(a, 8, false);
    }
}

void *__real_memcpy(void *, void const *, std::size_t);
void *__real_memmove(void *, void const *, std::size_t);
void *__real_memset(void *, int, std::size_t);
int __real_memcmp(void const *, void const *, std::size_t);
void *__wrap_memcpy(void *d, void const *s, std::size_t n) {
    if (g_hook and n) {
        access(s, n, false);
        access(d, n, true);
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, void const *s, std::size_t n) {
    if (g_hook and n) {
        access(s, n, false);
        access(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, std::size_t n) {
    if (g_hook and n) {
        access(d, n, true);
    }
    return __real_memset(d, c, n);
}
int __wrap_memcmp(void const *a, void const *b, std::size_t n) {
    if (g_hook and n) {
        access(a, n, false);
        access(b, n, false);
    }
    return __real_memcmp(a, b, n);
}

// function-local statics: initialisation is one indivisible, synchronising
// step (the real implementation would block the OS thread)
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *p) {
    int const r = __real___cxa_guard_acquire(p);
    if (r != 0) {
        sim::irq_disable();
    } else {
        g.f[g.cur].vc.join(g.lock_vc);
    }
    return r;
}
void __wrap___cxa_guard_release(void *p) {
    __real___cxa_guard_release(p);
    sim::irq_enable();
}
void __wrap___cxa_guard_abort(void *p) {
    __real___cxa_guard_abort(p);
    sim::irq_enable();
}

#define ATOMIC(BITS, T)                                                        \
    T __tsan_atomic##BITS##_load(T const volatile *a, int mo) {                \
        if (g_hook) {                                                          \
            RtGuard const gd{};                                                \
            return static_cast<T>(                                             \
                do_load(reinterpret_cast<u64>(a), sizeof(T), mo));             \
        }                                                                      \
        return *a;                                                             \
    }                                                                          \
    void __tsan_atomic##BITS##_store(T volatile *a, T v, int mo) {             \
        if (g_hook) {                                                          \
            RtGuard const gd{};                                                \
            do_store(reinterpret_cast<u64>(a), sizeof(T), v, mo);              \
            return;                                                            \
        }                                                                      \
        *a = v;                                                                \
    }                                                                          \
    T __tsan_atomic##BITS##_exchange(T volatile *a, T v, int mo) {             \
        if (g_hook) {                                                          \
            RtGuard const gd{};                                                \
            return static_cast<T>(do_rmw(reinterpret_cast<u64>(a), sizeof(T), \
                                         mo, [&](u64) { return u64{v}; }));    \
        }                                                                      \
        T const o = *a;                                                        \
        *a = v;                                                                \
        return o;                                                              \
    }
#define ATOMIC_OP(BITS, T, NAME, EXPR)                                         \
    T __tsan_atomic##BITS##_##NAME(T volatile *a, T v, int mo) {               \
        if (g_hook) {                                                          \
            RtGuard const gd{};                                                \
            return static_cast<T>(                                             \
                do_rmw(reinterpret_cast<u64>(a), sizeof(T), mo, [&](u64 x) {   \
                    auto const o = static_cast<T>(x);                          \
                    return static_cast<u64>(static_cast<T>(EXPR));             \
                }));                                                           \
        }                                                                      \
        T const o = *a;                                                        \
        *a = static_cast<T>(EXPR);                                             \
        return o;                                                              \
    }
#define ATOMIC_CAS(BITS, T)                                                    \
    int __tsan_atomic##BITS##_compare_exchange_strong(                         \
        T volatile *a, T *e, T v, int mo, int fmo) {                           \
        if (g_hook) {                                                          \
            RtGuard const gd{};                                                \
            auto const ad = reinterpret_cast<u64>(a);                          \
            cell_prologue(ad, sizeof(T), true);                                \
            Cell &c = cell_at(ad, sizeof(T));                                  \
            Store const prev = c.h.back();                                     \
            auto &me = g.f[g.cur];                                             \
            if (static_cast<T>(prev.value) == *e) {                            \
                race_check(ad, sizeof(T), 3);                                  \
                if (is_acq(mo) and prev.has_sync) {                            \
                    me.vc.join(prev.sync);                                     \
                }                                                              \
                push_store(c, v, mo, prev.has_sync ? &prev.sync : nullptr);    \
                return 1;                                                      \
            }                                                                  \
            race_check(ad, sizeof(T), 2);                                      \
            if (is_acq(fmo) and prev.has_sync) {                               \
                me.vc.join(prev.sync);                                         \
            }                                                                  \
            *e = static_cast<T>(prev.value);                                   \
            return 0;                                                          \
        }                                                                      \
        if (*a == *e) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *e = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    int __tsan_atomic##BITS##_compare_exchange_weak(                           \
        T volatile *a, T *e, T v, int mo, int fmo) {                           \
        return __tsan_atomic##BITS##_compare_exchange_strong(a, e, v, mo,      \
                                                             fmo);             \
    }                                                                          \
    T __tsan_atomic##BITS##_compare_exchange_val(T volatile *a, T e, T v,      \
                                                 int mo, int fmo) {            \
        T x = e;                                                               \
        __tsan_atomic##BITS##_compare_exchange_strong(a, &x, v, mo, fmo);      \
        return x;                                                              \
    }
#define ATOMICS(BITS, T)                                                       \
    ATOMIC(BITS, T)                                                            \
    ATOMIC_OP(BITS, T, fetch_add, o + v)                                       \
    ATOMIC_OP(BITS, T, fetch_sub, o - v)                                       \
    ATOMIC_OP(BITS, T, fetch_and, o & v)                                       \
    ATOMIC_OP(BITS, T, fetch_or, o | v)                                        \
    ATOMIC_OP(BITS, T, fetch_xor, o ^ v)                                       \
    ATOMIC_OP(BITS, T, fetch_nand, ~(o & v))                                   \
    ATOMIC_CAS(BITS, T)
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (g_hook) {
        RtGuard const gd{};
        preempt_point();
        // conservatively modelled as a global lock acquire/release
        g.f[g.cur].vc.join(g.all_lock);
        g.all_lock.join(g.f[g.cur].vc);
        ++g.f[g.cur].vc.c[g.cur];
    }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ==================================================================== driver
namespace {

auto wall() -> double {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

auto prop_hash() -> u64 {
    u64 h = 14695981039346656037ull;
    for (char const *p = sim::the_property.id; *p != 0; ++p) {
        h = (h ^ static_cast<u8>(*p)) * 1099511628211ull;
    }
    return h;
}

u64 g_edge_budget = 30000000;

void scenario_main() {
    auto const &P = sim::the_property;
    u32 total = 0;
    for (unsigned i = 0; i < P.nscenarios; ++i) {
        total += P.scenarios[i].weight;
    }
    u32 r = sim::choose(total);
    unsigned i = 0;
    while (r >= P.scenarios[i].weight) {
        r -= P.scenarios[i].weight;
        ++i;
    }
    named_add(g.st.scen, 32, P.scenarios[i].name);
    sim::event("scenario %s", P.scenarios[i].name);
    P.scenarios[i].fn();
}

// One run.  seed mode: replaying=false and rng seeded by the caller.
void execute() {
    g.in_pos = 0;
    g.out.clear();
    g.hash = 0x5eed;
    g.sched_hash = 0x5eed;
    g.text.clear();
    g.failed = false;
    g.cls.clear();
    g.msg.clear();
    g.nontriv = false;
    g.nf = 1;
    g.cur = 0;
    g.cfg = {};
    g.steps = 0;
    g.gap = 0;
    g.mt = false;
    g.masked = 0;
    g.lock_vc = {};
    g.all_lock = {};
    g.plat = sim::platform::lock_free;
    g.cells.clear();
    g.watches.clear();
    g.arm = 0;
    g.fired = false;
    g.fpoints = 0;
    g.faults_run = 0;
    g.preempt_run = 0;
    ++g_gen;
    g_gran.clear();
    std::memset(g_avalid, 0, g_ahigh + 64 < ARENA ? g_ahigh + 64 : ARENA);
    g_apos = 0;
    g_ahigh = 0;
    for (auto &f : g.f) {
        f.st = St::unused;
        f.vc = {};
        f.fn = nullptr;
    }
    g.f[0].fn = scenario_main;
    g.f[0].st = St::runnable;
    g.f[0].vc.c[0] = 1;
    prepare(0);
    g_hook = 0;
    g_edges = 0;
    g_edge_limit = g_edge_budget;
    save_eh(g.main_eh);
    load_eh(g.f[0].eh);
    sim_swap(&g.main_sp, g.f[0].sp);
    g_edge_limit = ~u64{};
    g_hook = 0;
    for (auto &f : g.f) {
        f.fn = nullptr;
    }
    ++g.st.runs;
    g.st.steps += g.steps;
    g.st.edges += g_edges;
    if (g.preempt_run + g.faults_run > 0) {
        g.nontriv = true;
    }
    if (g.nontriv) {
        ++g.st.nontrivial;
    }
}
void execute_seed(u64 seed, u64 idx) {
    g.replaying = false;
    g.rng.seed(seed, prop_hash(), idx);
    execute();
}
void execute_choices(std::vector<u32> const &c) {
    g.replaying = true;
    g.in = c;
    execute();
}

// ---------------------------------------------------------------- sharing
constexpr int MAXW = 64;
constexpr int MAXV = 8;
constexpr int NHASH = 512;
struct Viol {
    u64 idx;
    char cls[48];
    char msg[200];
};
struct Slot {
    volatile u64 cur;
    volatile int done;
    Stats st;
    int nv;
    Viol v[MAXV];
    u64 known;
    u64 max_steps, max_edges;
};
struct HashSet {
    u64 mask;
    u64 limit;
    std::uint64_t count;
    u64 *tab;
    void insert(u64 h) {
        if (h == 0) {
            h = 1;
        }
        if (__atomic_load_n(&count, __ATOMIC_RELAXED) >= limit) {
            return;
        }
        u64 i = (h * 0x9e3779b97f4a7c15ull) >> 20;
        for (;;) {
            u64 *p = &tab[i & mask];
            u64 cur = __atomic_load_n(p, __ATOMIC_RELAXED);
            if (cur == h) {
                return;
            }
            if (cur == 0) {
                if (__atomic_compare_exchange_n(p, &cur, h, false,
                                                __ATOMIC_RELAXED,
                                                __ATOMIC_RELAXED)) {
                    __atomic_fetch_add(&count, 1, __ATOMIC_RELAXED);
                    return;
                }
                continue;
            }
            ++i;
        }
    }
};
struct Shared {
    volatile u64 best; // smallest violating run index
    u64 first_hash[NHASH];
    u8 first_done[NHASH];
    HashSet runs, scheds;
    Slot w[MAXW];
    // result area for isolated executions
    volatile int r_state; // 0 none, 1 running, 2 ok, 3 violation
    char r_cls[48];
    char r_msg[400];
    u64 r_hash;
    volatile u64 r_n;
    u32 r_choices[1u << 20];
};
Shared *S = nullptr;

auto shmap(std::size_t n) -> void * {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::_Exit(3);
    }
    return p;
}
void hs_init(HashSet &h, unsigned bits) {
    h.tab = static_cast<u64 *>(shmap((u64{1} << bits) * 8));
    h.mask = (u64{1} << bits) - 1;
    h.limit = (u64{1} << bits) / 4 * 3;
    h.count = 0;
}

std::vector<std::string> g_known; // classes of known findings

auto is_known(std::string const &cls) -> bool {
    return std::find(g_known.begin(), g_known.end(), cls) != g_known.end();
}

[[noreturn]] void terminate_hook() {
    g_hook = 0;
    sim::fail("terminate", "std::terminate was called");
}

void set_limits() {
    std::set_terminate(terminate_hook);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) {
        std::signal(s, SIG_DFL);
    }
}

// watchdog for loops that touch neither memory nor basic-block counters
void arm_watchdog(unsigned sec) {
    itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// one run inside a worker; false: stop
void run_one(Slot &sl, u64 seed, u64 idx) {
    sl.cur = idx;
    execute_seed(seed, idx);
    sl.max_steps = std::max(sl.max_steps, g.steps);
    sl.max_edges = std::max(sl.max_edges, g_edges);
    if (idx < NHASH) {
        S->first_hash[idx] = g.hash;
        S->first_done[idx] = 1;
    }
    S->scheds.insert(g.sched_hash);
    if (g.nontriv) {
        S->runs.insert(g.hash);
    }
    if (not g.failed) {
        return;
    }
    if (is_known(g.cls)) {
        ++sl.known;
        return;
    }
    if (sl.nv < MAXV) {
        Viol &v = sl.v[sl.nv++];
        v.idx = idx;
        std::strncpy(v.cls, g.cls.c_str(), sizeof v.cls - 1);
        std::strncpy(v.msg, g.msg.c_str(), sizeof v.msg - 1);
    }
    u64 cur = S->best;
    while (idx < cur and
           not __atomic_compare_exchange_n(&S->best, &cur, idx, false,
                                           __ATOMIC_SEQ_CST,
                                           __ATOMIC_SEQ_CST)) {
    }
}

bool g_forkmode = false; // every run in its own process

void worker(int w, int W, u64 seed, u64 first, u64 runs, double deadline) {
    set_limits();
    Slot &sl = S->w[w];
    g.st = sl.st;
    u64 n = 0;
    for (u64 idx = first; idx < runs; idx += static_cast<u64>(W)) {
        if (idx > S->best or ((n & 15) == 0 and wall() > deadline)) {
            break;
        }
        ++n;
        if (g_forkmode) {
            pid_t const p = fork();
            if (p == 0) {
                arm_watchdog(15);
                g.st = sl.st;
                run_one(sl, seed, idx);
                sl.st = g.st;
                std::_Exit(0);
            }
            int status = 0;
            while (waitpid(p, &status, 0) < 0 and errno == EINTR) {
            }
            if (WIFSIGNALED(status)) {
                sl.cur = idx;
                std::signal(WTERMSIG(status), SIG_DFL);
                raise(WTERMSIG(status)); // reported like a crash of a worker
            }
            continue;
        }
        if ((n & 63) == 1) {
            arm_watchdog(15);
        }
        run_one(sl, seed, idx);
        if ((n & 63) == 0) {
            sl.st = g.st;
        }
    }
    if (not g_forkmode) {
        sl.st = g.st;
    }
    sl.done = 1;
    std::_Exit(0);
}

// Isolated execution of a choice list (or of a seed) in a forked child.
struct Result {
    bool violation = false;
    std::string cls, msg;
    u64 hash = 0;
    std::vector<u32> choices;
    std::string text;
};

auto isolated(std::vector<u32> const *choices, u64 seed, u64 idx, bool trace)
    -> Result {
    S->r_state = 1;
    S->r_n = 0;
    int fds[2] = {-1, -1};
    if (trace and pipe(fds) != 0) {
        std::perror("pipe");
        std::_Exit(3);
    }
    pid_t const pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::_Exit(3);
    }
    if (pid == 0) {
        set_limits();
        arm_watchdog(5);
        g.trace = trace;
        if (choices != nullptr) {
            execute_choices(*choices);
        } else {
            execute_seed(seed, idx);
        }
        std::strncpy(S->r_cls, g.cls.c_str(), sizeof S->r_cls - 1);
        S->r_cls[sizeof S->r_cls - 1] = 0;
        std::strncpy(S->r_msg, g.msg.c_str(), sizeof S->r_msg - 1);
        S->r_msg[sizeof S->r_msg - 1] = 0;
        S->r_hash = g.hash;
        u64 const n = std::min<u64>(g.out.size(), 1u << 20);
        std::memcpy(S->r_choices, g.out.data(), n * 4);
        S->r_n = n;
        S->r_state = g.failed ? 3 : 2;
        if (trace) {
            close(fds[0]);
            std::size_t off = 0;
            while (off < g.text.size()) {
                auto const k =
                    write(fds[1], g.text.data() + off, g.text.size() - off);
                if (k <= 0) {
                    break;
                }
                off += static_cast<std::size_t>(k);
            }
            close(fds[1]);
        }
        std::_Exit(0);
    }
    Result r;
    if (trace) {
        close(fds[1]);
        char b[4096];
        ssize_t k;
        while ((k = read(fds[0], b, sizeof b)) > 0) {
            r.text.append(b, static_cast<std::size_t>(k));
        }
        close(fds[0]);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 and errno == EINTR) {
    }
    if (S->r_state == 2 or S->r_state == 3) {
        r.violation = S->r_state == 3;
        r.cls = S->r_cls;
        r.msg = S->r_msg;
        r.hash = S->r_hash;
        r.choices.assign(S->r_choices, S->r_choices + S->r_n);
    } else {
        r.violation = true;
        int const sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
        if (sig == SIGVTALRM) {
            r.cls = "no-progress";
            r.msg = "the run did not end";
        } else {
            r.cls = "crash-" + std::to_string(sig);
            r.msg = "the process was killed by signal " + std::to_string(sig);
        }
        r.hash = 0;
        if (choices != nullptr) {
            r.choices = *choices;
        }
    }
    return r;
}

// For a crashing seed: recover the choice list by recording it live.
auto choices_of_crash(u64 seed, u64 idx) -> std::vector<u32> {
    S->r_n = 0;
    pid_t const pid = fork();
    if (pid == 0) {
        set_limits();
        arm_watchdog(5);
        auto handler = +[](int s) {
            u64 const n = std::min<u64>(g.out.size(), 1u << 20);
            std::memcpy(S->r_choices, g.out.data(), n * 4);
            S->r_n = n;
            std::signal(s, SIG_DFL);
            std::_Exit(42);
        };
        stack_t ss{};
        ss.ss_size = 65536;
        ss.ss_sp = std::malloc(ss.ss_size);
        sigaltstack(&ss, nullptr);
        struct sigaction sa {};
        sa.sa_handler = handler;
        sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM}) {
            sigaction(s, &sa, nullptr);
        }
        execute_seed(seed, idx);
        std::_Exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 and errno == EINTR) {
    }
    return {S->r_choices, S->r_choices + S->r_n};
}

auto same(Result const &r, std::string const &cls) -> bool {
    return r.violation and r.cls == cls;
}

// Minimise a choice list while the same violation class is shown.
auto shrink(std::vector<u32> best, std::string const &cls, double deadline,
            u64 &tried) -> std::vector<u32> {
    auto attempt = [&](std::vector<u32> const &c) -> bool {
        if (wall() > deadline) {
            return false;
        }
        ++tried;
        Result r = isolated(&c, 0, 0, false);
        if (not same(r, cls)) {
            return false;
        }
        auto cand = r.cls.rfind("crash", 0) == 0 or r.hash == 0 ? c : r.choices;
        while (not cand.empty() and cand.back() == 0) {
            cand.pop_back();
        }
        if (cand.size() < best.size() or
            (cand.size() == best.size() and cand < best)) {
            best = cand;
            return true;
        }
        return false;
    };
    bool progress = true;
    int rounds = 0;
    while (progress and wall() < deadline and rounds++ < 12) {
        progress = false;
        for (std::size_t chunk = std::max<std::size_t>(best.size() / 2, 1);
             chunk >= 1; chunk /= 2) {
            for (std::size_t i = 0; i + chunk <= best.size();) {
                auto c = best;
                c.erase(c.begin() + static_cast<std::ptrdiff_t>(i),
                        c.begin() + static_cast<std::ptrdiff_t>(i + chunk));
                if (attempt(c)) {
                    progress = true;
                } else {
                    i += chunk;
                }
                if (wall() > deadline) {
                    return best;
                }
            }
            if (chunk == 1) {
                break;
            }
        }
        for (std::size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0 or wall() > deadline) {
                continue;
            }
            auto c = best;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            for (u32 v : {u32{1}, best[i] / 2, best[i] - 1}) {
                if (i < best.size() and v < best[i]) {
                    c = best;
                    c[i] = v;
                    if (attempt(c)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    return best;
}

auto json_str(std::string const &s) -> std::string {
    std::string o = "\"";
    for (char c : s) {
        switch (c) {
        case '"':
            o += "\\\"";
            break;
        case '\\':
            o += "\\\\";
            break;
        case '\n':
            o += "\\n";
            break;
        default:
            if (static_cast<u8>(c) < 32) {
                o += ' ';
            } else {
                o += c;
            }
        }
    }
    return o + "\"";
}

void write_replay(std::string const &path, u64 seed, u64 idx, Result const &r,
                  std::size_t original, u64 tried) {
    FILE *f = std::fopen(path.c_str(), "w");
    if (f == nullptr) {
        std::perror(path.c_str());
        std::exit(3);
    }
    std::fprintf(f, "{\n \"property\": \"%s\",\n \"seed\": %llu,\n \"run\": %llu,\n",
                 sim::the_property.id, static_cast<unsigned long long>(seed),
                 static_cast<unsigned long long>(idx));
    std::fprintf(f, " \"class\": %s,\n \"message\": %s,\n \"hash\": \"%016llx\",\n",
                 json_str(r.cls).c_str(), json_str(r.msg).c_str(),
                 static_cast<unsigned long long>(r.hash));
    std::fprintf(f, " \"choices_before_minimising\": %zu,\n \"minimiser_runs\": %llu,\n",
                 original, static_cast<unsigned long long>(tried));
    std::fprintf(f, " \"choices\": [");
    for (std::size_t i = 0; i < r.choices.size(); ++i) {
        std::fprintf(f, "%s%u", i != 0 ? "," : "", r.choices[i]);
    }
    std::fprintf(f, "],\n \"trace\": [\n");
    std::size_t p = 0;
    bool first = true;
    while (p < r.text.size()) {
        auto const e = r.text.find('\n', p);
        auto const line = r.text.substr(p, e - p);
        std::fprintf(f, "%s  %s", first ? "" : ",\n", json_str(line).c_str());
        first = false;
        p = e == std::string::npos ? r.text.size() : e + 1;
    }
    std::fprintf(f, "\n ]\n}\n");
    std::fclose(f);
}

auto read_file(std::string const &p) -> std::string {
    FILE *f = std::fopen(p.c_str(), "r");
    if (f == nullptr) {
        return {};
    }
    std::string s;
    char b[4096];
    std::size_t k;
    while ((k = std::fread(b, 1, sizeof b, f)) > 0) {
        s.append(b, k);
    }
    std::fclose(f);
    return s;
}

auto parse_choices(std::string const &s) -> std::vector<u32> {
    std::vector<u32> r;
    auto p = s.find("\"choices\": [");
    if (p == std::string::npos) {
        return r;
    }
    p += 12;
    while (p < s.size() and s[p] != ']') {
        if (s[p] >= '0' and s[p] <= '9') {
            char *e = nullptr;
            r.push_back(static_cast<u32>(std::strtoul(s.c_str() + p, &e, 10)));
            p = static_cast<std::size_t>(e - s.c_str());
        } else {
            ++p;
        }
    }
    return r;
}
auto arg(int argc, char **argv, char const *name, char const *def)
    -> std::string {
    for (int i = 1; i + 1 < argc; ++i) {
        if (std::strcmp(argv[i], name) == 0) {
            return argv[i + 1];
        }
    }
    return def;
}

// runs a fresh copy of this program; returns its stdout
auto fresh(char const *self, std::vector<std::string> const &args, int &code)
    -> std::string {
    int fds[2];
    if (pipe(fds) != 0) {
        std::perror("pipe");
        std::exit(3);
    }
    pid_t const pid = fork();
    if (pid == 0) {
        dup2(fds[1], 1);
        close(fds[0]);
        close(fds[1]);
        std::vector<char *> av;
        av.push_back(const_cast<char *>(self));
        for (auto const &a : args) {
            av.push_back(const_cast<char *>(a.c_str()));
        }
        av.push_back(nullptr);
        execv(self, av.data());
        std::_Exit(127);
    }
    close(fds[1]);
    std::string out;
    char b[4096];
    ssize_t k;
    while ((k = read(fds[0], b, sizeof b)) > 0) {
        out.append(b, static_cast<std::size_t>(k));
    }
    close(fds[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {
    }
    code = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
    return out;
}

void json_named(FILE *f, char const *key, Named const *t, int n) {
    std::fprintf(f, "  \"%s\": {", key);
    bool first = true;
    for (int i = 0; i < n and t[i].name[0] != 0; ++i) {
        std::fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(t[i].name).c_str(),
                     static_cast<unsigned long long>(t[i].n));
        first = false;
    }
    std::fprintf(f, "},\n");
}

void add_named(Named *a, Named const *b, int n) {
    for (int i = 0; i < n and b[i].name[0] != 0; ++i) {
        named_add(a, n, b[i].name, b[i].n);
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string const mode = argc > 1 ? argv[1] : "run";
    g_stacks = static_cast<char *>(mmap(reinterpret_cast<void *>(0x200000000000), STACK_REGION, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    // (an address hint keeps stack addresses the same in every process)
    S = static_cast<Shared *>(shmap(sizeof(Shared)));
    S->best = ~u64{};
    u64 const seed = std::strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    auto const &P = sim::the_property;

    if (mode == "hashes") { // print hashes of runs, last first
        u64 const n = std::strtoull(arg(argc, argv, "--n", "64").c_str(), nullptr, 10);
        set_limits();
        for (u64 i = n; i-- > 0;) {
            u64 h = 0;
            if (arg(argc, argv, "--fork", "0") == "1") {
                h = isolated(nullptr, seed, i, false).hash;
            } else {
                execute_seed(seed, i);
                h = g.hash;
            }
            std::printf("%llu %016llx\n", static_cast<unsigned long long>(i),
                        static_cast<unsigned long long>(h));
        }
        return 0;
    }
    if (mode == "one") { // trace one seeded run
        u64 const i = std::strtoull(arg(argc, argv, "--run", "0").c_str(), nullptr, 10);
        Result r = isolated(nullptr, seed, i, true);
        std::fputs(r.text.c_str(), stdout);
        std::printf("%s %s %s hash=%016llx choices=%zu\n",
                    r.violation ? "VIOLATION" : "ok", r.cls.c_str(), r.msg.c_str(),
                    static_cast<unsigned long long>(r.hash), r.choices.size());
        return r.violation ? 1 : 0;
    }
    if (mode == "replay") {
        auto const file = arg(argc, argv, "--file", "");
        auto const s = read_file(file);
        auto const c = parse_choices(s);
        Result a = isolated(&c, 0, 0, false);
        Result b = isolated(&c, 0, 0, true);
        std::string const quiet = arg(argc, argv, "--quiet", "0");
        if (quiet == "0") {
            std::fputs(b.text.c_str(), stdout);
        }
        bool const stable = a.violation == b.violation and a.cls == b.cls and
                            a.hash == b.hash;
        std::printf("RESULT violation=%d class=%s hash=%016llx stable=%d\n",
                    b.violation ? 1 : 0, b.cls.c_str(),
                    static_cast<unsigned long long>(b.hash), stable ? 1 : 0);
        if (not stable) {
            return 4;
        }
        if (b.violation) {
            std::printf("VIOLATION property=%s replay=%s\n", P.id, file.c_str());
        }
        return b.violation ? 1 : 0;
    }

    // ------------------------------------------------------------ search
    std::string const tier = arg(argc, argv, "--tier", "quick");
    bool const thorough = tier == "thorough";
    g_forkmode = arg(argc, argv, "--fork", "0") == "1";
    // When runs turn out to influence each other through static state of the
    // code under test, the search is repeated with one process per run.
    auto restart_forked = [&] {
        std::printf("NOTE runs influence each other through static state: "
                    "repeating with one process per run\n");
        std::fflush(stdout);
        std::vector<char *> av(argv, argv + argc);
        static char a1[] = "--fork";
        static char a2[] = "1";
        av.push_back(a1);
        av.push_back(a2);
        av.push_back(nullptr);
        execv("/proc/self/exe", av.data());
        std::_Exit(3);
    };
    int W = std::atoi(arg(argc, argv, "--workers", "8").c_str());
    W = std::clamp(W, 1, MAXW);
    u64 runs = thorough ? P.thorough_runs : P.quick_runs;
    if (auto r = arg(argc, argv, "--runs", ""); not r.empty()) {
        runs = std::strtoull(r.c_str(), nullptr, 10);
    }
    double const cap = std::atof(arg(argc, argv, "--cap", g_forkmode ? (thorough ? "200" : "60") : (thorough ? "420" : "90")).c_str());
    std::string const evidence = arg(argc, argv, "--evidence", "");
    std::string const replay_dir = arg(argc, argv, "--replay-dir", ".");
    { // known classes: comma separated
        std::string k = arg(argc, argv, "--known", "");
        std::size_t p = 0;
        while (p < k.size()) {
            auto e = k.find(',', p);
            if (e == std::string::npos) {
                e = k.size();
            }
            g_known.push_back(k.substr(p, e - p));
            p = e + 1;
        }
    }
    hs_init(S->runs, thorough ? 25 : 23);
    hs_init(S->scheds, thorough ? 25 : 23);

    double const t0 = wall();
    double const deadline = t0 + cap;
    std::vector<pid_t> pid(static_cast<std::size_t>(W), -1);
    std::vector<Viol> crashes;
    auto start = [&](int w, u64 first) {
        std::fflush(stdout);
        pid_t const p = fork();
        if (p < 0) {
            std::perror("fork");
            std::exit(3);
        }
        if (p == 0) {
            worker(w, W, seed, first, runs, deadline);
        }
        pid[static_cast<std::size_t>(w)] = p;
    };
    for (int w = 0; w < W; ++w) {
        start(w, static_cast<u64>(w));
    }
    int live = W;
    while (live > 0) {
        int status = 0;
        pid_t const p = wait(&status);
        if (p < 0) {
            if (errno == EINTR) {
                continue;
            }
            break;
        }
        int w = -1;
        for (int i = 0; i < W; ++i) {
            if (pid[static_cast<std::size_t>(i)] == p) {
                w = i;
            }
        }
        if (w < 0) {
            continue;
        }
        --live;
        Slot &sl = S->w[w];
        if (not sl.done) {
            // the run at sl.cur crashed the process
            int const sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
            u64 const idx = sl.cur;
            Viol v{};
            v.idx = idx;
            if (sig == SIGVTALRM) {
                std::strcpy(v.cls, "no-progress");
                std::strcpy(v.msg, "the run did not end");
            } else {
                std::snprintf(v.cls, sizeof v.cls, "crash-%d", sig);
                std::snprintf(v.msg, sizeof v.msg, "killed by signal %d", sig);
            }
            if (is_known(v.cls)) {
                ++sl.known;
            } else {
                crashes.push_back(v);
                if (idx < S->best) {
                    S->best = idx;
                }
            }
            if (crashes.size() < 32) {
                start(w, idx + static_cast<u64>(W));
                ++live;
            }
        }
    }
    double const t1 = wall();

    // ------------------------------------------------- collect violations
    std::vector<Viol> all = crashes;
    Stats tot{};
    u64 known = 0, max_steps = 0, max_edges = 0;
    for (int w = 0; w < W; ++w) {
        Slot &sl = S->w[w];
        for (int i = 0; i < sl.nv; ++i) {
            all.push_back(sl.v[i]);
        }
        known += sl.known;
        max_steps = std::max(max_steps, sl.max_steps);
        max_edges = std::max(max_edges, sl.max_edges);
        Stats const &s = sl.st;
        tot.runs += s.runs;
        tot.steps += s.steps;
        tot.edges += s.edges;
        tot.switches += s.switches;
        tot.preempt_in_sut += s.preempt_in_sut;
        tot.stale += s.stale;
        tot.irq_nest += s.irq_nest;
        tot.kills += s.kills;
        tot.faults_total += s.faults_total;
        tot.ticks += s.ticks;
        tot.nontrivial += s.nontrivial;
        tot.cells_ops += s.cells_ops;
        add_named(tot.faults, s.faults, 32);
        add_named(tot.probes, s.probes, 96);
        add_named(tot.scen, s.scen, 32);
    }
    std::sort(all.begin(), all.end(),
              [](Viol const &a, Viol const &b) { return a.idx < b.idx; });

    char self[4096];
    ssize_t const sn = readlink("/proc/self/exe", self, sizeof self - 1);
    self[sn > 0 ? sn : 0] = 0;

    // ------------------------------------------------- determinism audit
    u64 audited = 0, mismatches = 0;
    if (all.empty()) {
        u64 n = 0;
        u64 const want = thorough ? NHASH : NHASH / 2;
        while (n < want and n < runs and S->first_done[n] != 0) {
            ++n;
        }
        int code = 0;
        auto const out = fresh(self, {"hashes", "--n", std::to_string(n), "--seed",
                                      std::to_string(seed), "--fork",
                                      g_forkmode ? "1" : "0"}, code);
        std::size_t p = 0;
        while (p < out.size()) {
            char *e = nullptr;
            u64 const i = std::strtoull(out.c_str() + p, &e, 10);
            u64 const h = std::strtoull(e, &e, 16);
            if (i < NHASH) {
                ++audited;
                mismatches += h != S->first_hash[i] ? 1 : 0;
            }
            p = out.find('\n', p);
            if (p == std::string::npos) {
                break;
            }
            ++p;
        }
        if (code != 0 or audited != n or mismatches != 0) {
            if (not g_forkmode) {
                restart_forked();
            }
            std::printf("ERROR property=%s determinism audit failed: code=%d "
                        "audited=%llu of %llu mismatches=%llu\n",
                        P.id, code, static_cast<unsigned long long>(audited),
                        static_cast<unsigned long long>(n),
                        static_cast<unsigned long long>(mismatches));
            return 3;
        }
    }

    // ------------------------------------------------- confirm + minimise
    int exit_code = 0;
    u64 confirmed = 0;
    std::string replay_path;
    int unreproduced = 0;
    std::vector<Result> samples;
    for (auto const &v : all) {
        if (confirmed != 0 or unreproduced >= 4) {
            break;
        }
        bool const crash = std::strncmp(v.cls, "crash", 5) == 0;
        std::vector<u32> c0;
        if (crash or std::strcmp(v.msg, "the run did not end") == 0) {
            c0 = choices_of_crash(seed, v.idx);
        } else {
            Result r1 = isolated(nullptr, seed, v.idx, false);
            Result r2 = isolated(nullptr, seed, v.idx, false);
            if (not same(r1, v.cls) or r1.hash != r2.hash) {
                std::printf("NOTE run %llu: class %s not repeatable from its seed\n",
                            static_cast<unsigned long long>(v.idx), v.cls);
                ++unreproduced;
                continue;
            }
            c0 = r1.choices;
        }
        u64 tried = 0;
        auto const best = shrink(c0, v.cls, wall() + 25, tried);
        bool ok = false;
        for (auto const *cand : {&best, const_cast<std::vector<u32> const *>(&c0)}) {
            Result fin = isolated(cand, 0, 0, true);
            if (not same(fin, v.cls)) {
                continue;
            }
            fin.choices = *cand;
            replay_path = replay_dir + "/" + P.id + "-seed" +
                          std::to_string(seed) + "-run" + std::to_string(v.idx) +
                          ".json";
            write_replay(replay_path, seed, v.idx, fin, c0.size(), tried);
            int code = 0;
            auto const out = fresh(self, {"replay", "--file", replay_path, "--quiet", "1"}, code);
            char expect[160];
            std::snprintf(expect, sizeof expect, "RESULT violation=1 class=%s hash=%016llx stable=1",
                          v.cls, static_cast<unsigned long long>(fin.hash));
            if (code == 1 and out.find(expect) != std::string::npos) {
                ok = true;
                std::printf("run %llu (seed %llu): %s: %s\n",
                            static_cast<unsigned long long>(v.idx),
                            static_cast<unsigned long long>(seed), fin.cls.c_str(),
                            fin.msg.c_str());
                std::printf("minimised from %zu to %zu choices in %llu runs\n",
                            c0.size(), cand->size(),
                            static_cast<unsigned long long>(tried));
                std::fputs(fin.text.substr(0, 4000).c_str(), stdout);
                break;
            }
        }
        if (not ok) {
            std::printf("NOTE run %llu: class %s did not replay in a fresh process\n",
                        static_cast<unsigned long long>(v.idx), v.cls);
            ++unreproduced;
            continue;
        }
        ++confirmed;
    }
    if (confirmed != 0) {
        exit_code = 1;
    } else if (unreproduced != 0) {
        if (not g_forkmode) {
            restart_forked();
        }
        std::printf("ERROR property=%s violation seen but not reproducible\n", P.id);
        exit_code = 3;
    }
    if (tot.runs == 0 and exit_code == 0) {
        std::printf("ERROR property=%s no runs executed\n", P.id);
        exit_code = 3;
    }

    // ------------------------------------------------- evidence
    if (not evidence.empty()) {
        for (u64 i = 0; i < 3; ++i) {
            Result r = isolated(nullptr, seed, i, true);
            if (r.text.size() > 3000) {
                r.text.resize(3000);
                r.text += " ...";
            }
            samples.push_back(r);
        }
        FILE *f = std::fopen(evidence.c_str(), "w");
        if (f == nullptr) {
            std::perror(evidence.c_str());
            return 3;
        }
        double const secs = std::max(t1 - t0, 1e-6);
        auto ull = [](u64 v) { return static_cast<unsigned long long>(v); };
        std::fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n"
                        " \"level\": \"exploration\",\n \"coverage\": {\n",
                     P.id, tier.c_str(), ull(seed));
        std::fprintf(f, "  \"evaluations\": %llu,\n", ull(tot.runs));
        std::fprintf(f, "  \"distinct_nontrivial\": %llu,\n", ull(S->runs.count));
        std::fprintf(f, "  \"rule\": %s,\n", json_str(P.rule).c_str());
        std::fprintf(f, "  \"distinct_counter_saturated\": %s,\n",
                     S->runs.count >= S->runs.limit ? "true" : "false");
        std::fprintf(f, "  \"distinct_schedules\": %llu,\n", ull(S->scheds.count));
        std::fprintf(f, "  \"runs_per_hour\": %.0f,\n",
                     static_cast<double>(tot.runs) / secs * 3600.0);
        std::fprintf(f, "  \"scheduler_steps\": %llu,\n  \"basic_blocks\": %llu,\n",
                     ull(tot.steps), ull(tot.edges));
        std::fprintf(f, "  \"context_switches\": %llu,\n  \"preemptions_inside_operations\": %llu,\n"
                        "  \"nested_interrupts\": %llu,\n  \"simulated_ticks\": %llu,\n",
                     ull(tot.switches), ull(tot.preempt_in_sut), ull(tot.irq_nest), ull(tot.ticks));
        std::fprintf(f, "  \"shared_cell_operations\": %llu,\n", ull(tot.cells_ops));
        std::fprintf(f, "  \"faults_injected\": %llu,\n", ull(tot.faults_total));
        json_named(f, "fault_kinds", tot.faults, 32);
        json_named(f, "reach_probes", tot.probes, 96);
        json_named(f, "scenarios", tot.scen, 32);
        std::fprintf(f, "  \"longest_run_steps\": %llu,\n  \"longest_run_blocks\": %llu,\n",
                     ull(max_steps), ull(max_edges));
        std::fprintf(f, "  \"determinism_audit\": {\"runs_repeated_in_fresh_process\": %llu, \"hash_mismatches\": %llu},\n",
                     ull(audited), ull(mismatches));
        std::fprintf(f, "  \"process_per_run\": %s,\n", g_forkmode ? "true" : "false");
        std::fprintf(f, "  \"known_findings_seen\": %llu,\n", ull(known));
        std::fprintf(f, "  \"search_seconds\": %.2f,\n  \"workers\": %d,\n", secs, W);
        std::fprintf(f, "  \"real_components\": %s,\n  \"simulated_components\": %s,\n",
                     json_str(P.real).c_str(), json_str(P.stub).c_str());
        std::fprintf(f, "  \"samples\": [");
        for (std::size_t i = 0; i < samples.size(); ++i) {
            std::fprintf(f, "%s\n   {\"run\": %zu, \"hash\": \"%016llx\", \"trace\": %s}",
                         i != 0 ? "," : "", i, ull(samples[i].hash),
                         json_str(samples[i].text).c_str());
        }
        std::fprintf(f, "\n  ]\n },\n");
        std::fprintf(f, " \"assumptions\": [\"exploration: only the sampled schedules, histories and faults were run\"],\n");
        std::fprintf(f, " \"wall_s\": %.2f,\n \"violations\": %llu\n}\n", wall() - t0,
                     ull(confirmed));
        std::fclose(f);
    }
    if (known != 0) {
        std::printf("known-finding runs: %llu\n", static_cast<unsigned long long>(known));
    }
    std::printf("%s: %llu runs, %llu distinct non-trivial, %llu faults, %.1f s\n", P.id,
                static_cast<unsigned long long>(tot.runs),
                static_cast<unsigned long long>(S->runs.count),
                static_cast<unsigned long long>(tot.faults_total), t1 - t0);
    if (exit_code == 1) {
        std::printf("VIOLATION property=%s replay=%s\n", P.id, replay_path.c_str());
    }
    return exit_code;
}
