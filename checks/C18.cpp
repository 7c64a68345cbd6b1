#include "../sim/rt.hpp"

#include <stdx/algorithm.hpp>
#include <stdx/numeric.hpp>

#include <algorithm>
#include <compare>
#include <functional>
#include <iterator>
#include <vector>

namespace {
using u32 = std::uint32_t;
using u64 = std::uint64_t;

enum class where : std::uint8_t { none, read, call, reduce, write };

struct incident {
    where kind{};
    u32 pos{};
};
incident failed{};

void step(where w, u32 pos, char const *kind) {
    if (sim::fault_point(kind)) {
        failed = {w, pos};
        throw sim::fault_t{7};
    }
}

// an input: counts how often each position is read
struct stream {
    u32 base{};
    u32 len{};
    u32 pos{}; // shared position for single-pass iteration
    std::vector<u32> reads{};
    u32 *raw{}; // plain memory, when iterated by pointer

    stream() = default;
    stream(stream const &) = delete;
    ~stream() {
        if (raw != nullptr) {
            sim::arena_free(raw);
        }
    }
    void plain() {
        raw = static_cast<u32 *>(
            sim::arena_alloc(std::max(len, 1u) * sizeof(u32), alignof(u32)));
        for (u32 p = 0; p < len; ++p) {
            raw[p] = base + p;
        }
    }

    auto read(u32 p) -> u32 {
        sim::host_scope const h{};
        sim::require(p < len, "read-past-end", "position %d of %d is read", p,
                     len);
        sim::require(++reads[p] == 1, "read-twice", "position %d is read twice",
                     p);
        step(where::read, p, "read");
        return base + p;
    }
};

// single pass: all copies share the stream's position
struct once_it {
    using iterator_category = std::input_iterator_tag;
    using value_type = u32;
    using difference_type = std::ptrdiff_t;
    using pointer = u32 const *;
    using reference = u32;
    stream *s{};
    bool end{};

    auto operator*() const -> u32 { return s->read(s->pos); }
    auto operator++() -> once_it & {
        sim::host_scope const h{};
        ++s->pos;
        return *this;
    }
    struct passed { // what *it++ refers to
        stream *s;
        u32 p;
        auto operator*() const -> u32 { return s->read(p); }
    };
    auto operator++(int) -> passed {
        passed const t{s, s->pos};
        ++*this;
        return t;
    }
    [[nodiscard]] auto where_now() const -> u32 { return s->pos; }
    friend auto operator==(once_it const &a, once_it const &b) -> bool {
        auto const at_end = [](once_it const &x) {
            return x.end or x.s->pos >= x.s->len;
        };
        return at_end(a) == at_end(b);
    }
};
// multi pass
template <typename Tag> struct multi_it {
    using iterator_category = Tag;
    using value_type = u32;
    using difference_type = std::ptrdiff_t;
    using pointer = u32 const *;
    using reference = u32;
    stream *s{};
    u32 p{};

    auto operator*() const -> u32 { return s->read(p); }
    auto operator++() -> multi_it & {
        ++p;
        return *this;
    }
    auto operator++(int) -> multi_it {
        auto t = *this;
        ++p;
        return t;
    }
    auto operator--() -> multi_it & {
        --p;
        return *this;
    }
    auto operator+=(std::ptrdiff_t d) -> multi_it & {
        p = static_cast<u32>(p + d);
        return *this;
    }
    auto operator-=(std::ptrdiff_t d) -> multi_it & { return *this += -d; }
    auto operator[](std::ptrdiff_t d) const -> u32 {
        return s->read(static_cast<u32>(p + d));
    }
    [[nodiscard]] auto where_now() const -> u32 { return p; }
    friend auto operator+(multi_it a, std::ptrdiff_t d) -> multi_it {
        return a += d;
    }
    friend auto operator-(multi_it a, std::ptrdiff_t d) -> multi_it {
        return a -= d;
    }
    friend auto operator-(multi_it const &a, multi_it const &b)
        -> std::ptrdiff_t {
        return static_cast<std::ptrdiff_t>(a.p) -
               static_cast<std::ptrdiff_t>(b.p);
    }
    friend auto operator==(multi_it const &a, multi_it const &b) -> bool {
        return a.p == b.p;
    }
    friend auto operator<=>(multi_it const &a, multi_it const &b) {
        return a.p <=> b.p;
    }
};
using fwd_it = multi_it<std::forward_iterator_tag>;
using rnd_it = multi_it<std::random_access_iterator_tag>;

// the output: a single-pass sink
struct sink {
    std::vector<u64> got{};
};
struct out_it {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    sink *s{};
    u32 p{};
    struct slot {
        sink *s;
        u32 p;
        auto operator=(u64 v) const -> slot const & {
            sim::host_scope const h{};
            sim::require(s->got.size() == p, "wrong-write",
                         "output %d is written out of turn", p);
            step(where::write, p, "write");
            s->got.push_back(v);
            return *this;
        }
    };
    auto operator*() const -> slot { return {s, p}; }
    auto operator++() -> out_it & {
        ++p;
        return *this;
    }
    auto operator++(int) -> out_it {
        auto t = *this;
        ++p;
        return t;
    }
};

auto hash(u64 a, u64 b) -> u64 {
    return (a ^ (b + 0x9e3779b97f4a7c15ull)) * 0x100000001b3ull;
}

// the user's function: logs its calls, carries a copy count of them
struct record {
    std::vector<u64> calls{};
};
struct func {
    record *r{};
    u32 n{}; // state that must come back from the algorithm
    template <typename... Ts> auto operator()(Ts... ts) -> u64 {
        sim::host_scope const h{};
        u64 v = 17;
        ((v = hash(v, ts)), ...);
        step(where::call, static_cast<u32>(r->calls.size()), "call");
        r->calls.push_back(v);
        ++n;
        return v;
    }
};

// mostly short ranges, sometimes past one or another unrolling or counter
auto length() -> u32 {
    u32 const kind = sim::choose(32);
    return kind < 26 ? sim::choose(7)
           : kind < 31 ? sim::choose(40)
                       : 250 + sim::choose(20);
}

struct bench {
    stream in[5]{};
    u32 n{};      // positions the algorithm should process
    u32 nin{};    // inputs
    sink out{};
    record rec{};

    bench(u32 len, u32 work, u32 inputs) : n{work}, nin{inputs} {
        for (u32 i = 0; i < nin; ++i) {
            // other inputs may be longer
            u32 const extra = i == 0 ? 0 : sim::choose(3);
            in[i].base = 1000 * (i + 1);
            in[i].len = len + extra;
            in[i].reads.resize(len + extra);
        }
    }
    auto expect(u32 p) const -> u64 {
        u64 v = 17;
        for (u32 i = 0; i < nin; ++i) {
            v = hash(v, in[i].base + p);
        }
        return v;
    }
    // what must hold afterwards; done = positions completed
    void judge(bool ok, bool writes) {
        u32 const stop = ok ? n : failed.pos;
        u32 const calls =
            ok ? n
               : (failed.kind == where::write or failed.kind == where::reduce)
                     ? stop + 1
                     : stop;
        sim::require(stop <= n, "touched-too-much",
                     "the failing position %d is past the range", stop);
        sim::require(rec.calls.size() == calls, "wrong-calls",
                     "the function completed %d calls, expected %d",
                     rec.calls.size(), calls);
        for (u32 p = 0; p < calls; ++p) {
            sim::require(rec.calls[p] == expect(p), "wrong-arguments",
                         "call %d got the wrong elements", p);
        }
        if (writes) {
            sim::require(out.got.size() == stop, "wrong-write",
                         "%d outputs were written, expected %d",
                         out.got.size(), stop);
            for (u32 p = 0; p < stop; ++p) {
                sim::require(out.got[p] == expect(p), "wrong-write",
                             "output %d has the wrong value", p);
            }
        } else {
            sim::require(out.got.empty(), "wrong-write", "unexpected output");
        }
        for (u32 i = 0; i < nin; ++i) {
            if (in[i].raw != nullptr) { // the memory itself says nothing
                for (u32 p = 0; p < in[i].len; ++p) {
                    sim::require(in[i].raw[p] == in[i].base + p,
                                 "input-changed", "input %d position %d", i,
                                 p);
                }
                continue;
            }
            for (u32 p = 0; p < in[i].len; ++p) {
                u32 const r = in[i].reads[p];
                if (p < stop) {
                    sim::require(r == 1, "wrong-read",
                                 "input %d position %d was read %d times", i,
                                 p, r);
                } else if (p > stop or ok) {
                    sim::require(r == 0, "touched-too-much",
                                 "input %d position %d was read", i, p);
                }
            }
        }
    }
};

template <typename It> auto begin_of(stream &s) -> It {
    if constexpr (std::is_pointer_v<It>) {
        sim::host_scope const h{};
        if (s.raw == nullptr) {
            s.plain();
        }
        return s.raw;
    } else {
        return It{&s, {}};
    }
}
template <typename It> auto end_of(stream &s) -> It {
    if constexpr (std::is_pointer_v<It>) {
        return begin_of<It>(s) + s.len;
    } else if constexpr (std::is_same_v<It, once_it>) {
        return It{&s, true};
    } else {
        return It{&s, s.len};
    }
}

template <typename It> auto place_of(It const &it, stream const &s) -> u32 {
    if constexpr (std::is_pointer_v<It>) {
        return static_cast<u32>(it - s.raw);
    } else {
        return it.where_now();
    }
}

// Runs one algorithm call; returns whether it completed.
template <typename F> auto guarded(F &&f) -> bool {
    failed = {};
    u32 const spans[] = {6, 30, 6, 30, 6, 30, 6, 600};
    sim::arm(sim::maybe(2, 3, spans[sim::choose(8)]));
    bool ok = true;
    try {
        sim::sut_scope const s{};
        f();
    } catch (sim::fault_t const &) {
        ok = false;
    }
    bool const fired = sim::disarm();
    sim::require(fired != ok, "swallowed-failure",
                 "the failure did not reach the caller");
    sim::event("call %s", ok ? "completed" : "failed");
    return ok;
}
void same_pos(u32 got, u32 want, char const *what) {
    sim::require(got == want, "wrong-position",
                 "returned %s position is %d, expected %d", what, got, want);
}

template <typename It, std::size_t Extra> struct runs {
    template <std::size_t... Is>
    static void for_each(std::index_sequence<Is...>) {
        u32 const len = length();
        bench b{len, len, 1 + Extra};
        u32 state{};
        std::vector<u32> pos{};
        bool const ok = guarded([&] {
            auto r = stdx::for_each(begin_of<It>(b.in[0]), end_of<It>(b.in[0]),
                                    func{&b.rec},
                                    begin_of<It>(b.in[Is + 1])...);
            sim::host_scope const h{};
            state = get<0>(r).n;
            (pos.push_back(place_of(get<Is + 1>(r), b.in[Is + 1])), ...);
        });
        sim::event("for_each over %d", len);
        b.judge(ok, false);
        if (ok) {
            sim::require(state == len, "wrong-state",
                         "returned function saw %d calls, expected %d", state,
                         len);
            for (auto p : pos) {
                same_pos(p, len, "input");
            }
        }
    }
    template <std::size_t... Is>
    static void for_each_n(std::index_sequence<Is...>) {
        u32 const len = length();
        u32 const n = sim::choose(len + 1);
        bench b{len, n, 1 + Extra};
        u32 state{};
        std::vector<u32> pos{};
        u32 const kind = sim::choose(3);
        bool const ok = guarded([&] {
            auto go = [&](auto count) {
                auto r = stdx::for_each_n(begin_of<It>(b.in[0]), count,
                                          func{&b.rec},
                                          begin_of<It>(b.in[Is + 1])...);
                sim::host_scope const h{};
                state = get<0>(r).n;
                pos.push_back(place_of(get<1>(r), b.in[0]));
                (pos.push_back(place_of(get<Is + 2>(r), b.in[Is + 1])), ...);
            };
            if (kind == 0) {
                go(static_cast<int>(n));
            } else if (kind == 1 or n > 255) {
                go(static_cast<std::size_t>(n));
            } else {
                go(static_cast<std::uint8_t>(n));
            }
        });
        sim::event("for_each_n %d of %d", n, len);
        b.judge(ok, false);
        if (ok) {
            sim::require(state == n, "wrong-state",
                         "returned function saw %d calls, expected %d", state,
                         n);
            for (auto p : pos) {
                same_pos(p, n, "input");
            }
        }
    }
    template <std::size_t... Is>
    static void transform(std::index_sequence<Is...>) {
        u32 const len = length();
        bench b{len, len, 1 + Extra};
        std::vector<u32> pos{};
        bool const ok = guarded([&] {
            auto r = stdx::transform(begin_of<It>(b.in[0]),
                                     end_of<It>(b.in[0]), out_it{&b.out},
                                     func{&b.rec},
                                     begin_of<It>(b.in[Is + 1])...);
            sim::host_scope const h{};
            pos.push_back(get<0>(r).p);
            pos.push_back(place_of(get<1>(r), b.in[0]));
            (pos.push_back(place_of(get<Is + 2>(r), b.in[Is + 1])), ...);
        });
        sim::event("transform %d", len);
        b.judge(ok, true);
        if (ok) {
            for (auto p : pos) {
                same_pos(p, len, "input or output");
            }
        }
    }
    template <std::size_t... Is>
    static void transform_n(std::index_sequence<Is...>) {
        u32 const len = length();
        u32 const n = sim::choose(len + 1);
        bench b{len, n, 1 + Extra};
        std::vector<u32> pos{};
        u32 const kind = sim::choose(2);
        bool const ok = guarded([&] {
            auto go = [&](auto count) {
                auto r = stdx::transform_n(begin_of<It>(b.in[0]), count,
                                           out_it{&b.out}, func{&b.rec},
                                           begin_of<It>(b.in[Is + 1])...);
                sim::host_scope const h{};
                pos.push_back(get<0>(r).p);
                pos.push_back(place_of(get<1>(r), b.in[0]));
                (pos.push_back(place_of(get<Is + 2>(r), b.in[Is + 1])), ...);
            };
            if (kind == 0) {
                go(static_cast<int>(n));
            } else {
                go(static_cast<std::size_t>(n));
            }
        });
        sim::event("transform_n %d of %d", n, len);
        b.judge(ok, true);
        if (ok) {
            for (auto p : pos) {
                same_pos(p, n, "input or output");
            }
        }
    }
    template <std::size_t... Is>
    static void reduce(std::index_sequence<Is...>) {
        u32 const len = length();
        bool const counted = sim::choose(2) == 1;
        u32 const n = counted ? sim::choose(len + 1) : len;
        bench b{len, n, 1 + Extra};
        u32 reduced = 0;
        u64 result{};
        u64 acc = 99;
        bool const ok = guarded([&] {
            auto rop = [&](u64 a, u64 x) {
                sim::host_scope const h{};
                sim::require(a == acc, "wrong-arguments",
                             "reduction %d got a wrong accumulator", reduced);
                sim::require(reduced < n and x == b.expect(reduced),
                             "wrong-arguments",
                             "reduction %d got a wrong value", reduced);
                step(where::reduce, reduced, "reduce");
                ++reduced;
                return acc = hash(a, x);
            };
            if (counted) {
                result = stdx::transform_reduce_n(
                    begin_of<It>(b.in[0]), n, u64{99}, rop, func{&b.rec},
                    begin_of<It>(b.in[Is + 1])...);
            } else {
                result = stdx::transform_reduce(
                    begin_of<It>(b.in[0]), end_of<It>(b.in[0]), u64{99}, rop,
                    func{&b.rec}, begin_of<It>(b.in[Is + 1])...);
            }
        });
        sim::event("transform_reduce %d", n);
        b.judge(ok, false);
        sim::require(reduced == (ok ? n : failed.pos), "wrong-calls",
                     "the reduction completed %d calls", reduced);
        if (ok) {
            sim::require(result == acc, "wrong-result",
                         "the reduction's result is not the last one");
        }
    }
    template <std::size_t... Is>
    static void butlast(std::index_sequence<Is...>) {
        if constexpr (not std::is_same_v<It, once_it>) {
            u32 const len = length();
            u32 const drop = sim::choose(9);
            u32 const kind = sim::choose(3);
            u32 const d = kind == 0 ? 1 : drop;
            u32 const n = len > d ? len - d : 0;
            bench b{len, n, 1 + Extra};
            u32 state{};
            std::vector<u32> pos{};
            bool const ok = guarded([&] {
                auto take = [&](auto r) {
                    sim::host_scope const h{};
                    state = get<0>(r).n;
                    pos.push_back(place_of(get<1>(r), b.in[0]));
                    (pos.push_back(place_of(get<Is + 2>(r), b.in[Is + 1])), ...);
                };
                if (kind == 0) {
                    take(stdx::for_each_butlast(
                        begin_of<It>(b.in[0]), end_of<It>(b.in[0]),
                        func{&b.rec}, begin_of<It>(b.in[Is + 1])...));
                } else if (kind == 1) {
                    take(stdx::for_each_butlastn(
                        begin_of<It>(b.in[0]), end_of<It>(b.in[0]),
                        static_cast<int>(d), func{&b.rec},
                        begin_of<It>(b.in[Is + 1])...));
                } else {
                    take(stdx::for_each_butlastn(
                        begin_of<It>(b.in[0]), end_of<It>(b.in[0]),
                        static_cast<std::size_t>(d), func{&b.rec},
                        begin_of<It>(b.in[Is + 1])...));
                }
            });
            sim::event("for_each_butlastn %d of %d", d, len);
            b.judge(ok, false);
            if (ok) {
                sim::require(state == n, "wrong-state",
                             "returned function saw %d calls, expected %d",
                             state, n);
                for (auto p : pos) {
                    same_pos(p, n, "input");
                }
            }
        }
    }
    static void imf() {
        if constexpr (not std::is_same_v<It, once_it> and Extra == 0) {
            u32 const len = length();
            bench b{len, len, 1};
            std::vector<int> role{};
            struct part {
                bench *b;
                std::vector<int> *role;
                int me;
                u32 n{};
                void operator()(u32 x) {
                    func f{&b->rec};
                    f(x);
                    sim::host_scope const h{};
                    role->push_back(me);
                    ++n;
                }
            };
            u32 ni{}, nm{}, nf{};
            bool const ok = guarded([&] {
                auto r = stdx::initial_medial_final(
                    begin_of<It>(b.in[0]), end_of<It>(b.in[0]),
                    part{&b, &role, 0}, part{&b, &role, 1},
                    part{&b, &role, 2});
                sim::host_scope const h{};
                ni = get<0>(r).n;
                nm = get<1>(r).n;
                nf = get<2>(r).n;
            });
            sim::event("initial_medial_final %d", len);
            b.judge(ok, false);
            for (u32 p = 0; p < role.size(); ++p) {
                int const want = p == 0 ? 0 : p + 1 == len ? 2 : 1;
                sim::require(role[p] == want, "wrong-function",
                             "position %d was given to function %d", p,
                             role[p]);
            }
            if (ok) {
                sim::require(ni == (len > 0 ? 1u : 0u) and
                                 nf == (len > 1 ? 1u : 0u) and
                                 nm == (len > 2 ? len - 2 : 0u),
                             "wrong-state",
                             "returned functions saw %d, %d and %d calls", ni,
                             nm, nf);
            }
        }
    }

    static void any() {
        auto const s = std::make_index_sequence<Extra>{};
        switch (sim::choose(7)) {
        case 0:
            for_each(s);
            break;
        case 1:
            for_each_n(s);
            break;
        case 2:
            transform(s);
            break;
        case 3:
            transform_n(s);
            break;
        case 4:
            reduce(s);
            break;
        case 5:
            butlast(s);
            break;
        default:
            imf();
            break;
        }
        sim::nontrivial();
    }
};

template <typename It> void inputs() {
    switch (sim::choose(4)) {
    case 3:
        return runs<It, 4>::any();
    case 0:
        return runs<It, 0>::any();
    case 1:
        return runs<It, 1>::any();
    default:
        return runs<It, 2>::any();
    }
}
// memory transformed in place, or shifted down by some positions
void in_place() {
    u32 const len = length();
    u32 const shift = len == 0 ? 0 : sim::choose(std::min(len, 3u) + 1);
    u32 const work = len - shift;
    u32 const kind = sim::choose(4);
    stream a{}, other{};
    a.base = 1000;
    a.len = other.len = len;
    other.base = 2000;
    a.plain();
    other.plain();
    std::vector<u32> want(a.raw, a.raw + len);
    u32 calls = 0;
    auto const f = [&](auto... xs) -> u32 {
        sim::host_scope const h{};
        step(where::call, calls, "call");
        ++calls;
        u64 v = 5;
        ((v = hash(v, xs)), ...);
        return static_cast<u32>(v >> 20);
    };
    u32 *end_out{};
    u32 *end_in{};
    bool const ok = guarded([&] {
        u32 *const from = a.raw + shift;
        auto take = [&](auto r) {
            end_out = get<0>(r);
            end_in = get<1>(r);
        };
        switch (kind) {
        case 0:
            return take(stdx::transform(from, a.raw + len, a.raw, f));
        case 1:
            return take(stdx::transform_n(from, work, a.raw, f));
        case 2:
            return take(
                stdx::transform(from, a.raw + len, a.raw, f, other.raw));
        default:
            return take(stdx::transform_n(from, work, a.raw, f, other.raw));
        }
    });
    sim::event("in place %d: %d by %d", kind, work, shift);
    u32 const done = calls;
    sim::require(ok ? done == work : done <= work, "wrong-calls",
                 "%d calls for %d positions", done, work);
    for (u32 p = 0; p < done; ++p) {
        u64 v = hash(5, want[p + shift]);
        v = kind >= 2 ? hash(v, 2000 + p) : v;
        want[p] = static_cast<u32>(v >> 20);
    }
    for (u32 p = 0; p < len; ++p) {
        sim::require(a.raw[p] == want[p] and other.raw[p] == 2000 + p,
                     "wrong-write", "position %d holds %d, expected %d", p,
                     a.raw[p], want[p]);
    }
    sim::require(not ok or (end_out == a.raw + work and
                            end_in == a.raw + len),
                 "wrong-position", "the returned positions are off by %d, %d",
                 end_out - a.raw, end_in - a.raw);
    sim::nontrivial();
}

// elements changed in place by the user's function
void updates() {
    u32 const len = length();
    u32 const kind = sim::choose(7);
    u32 const count = sim::choose(len + 1);
    stream a{}, other{};
    a.base = 1000;
    a.len = other.len = len;
    other.base = 2000;
    a.plain();
    other.plain();
    u32 calls = 0;
    auto const f = [&](u32 &x, auto const &...xs) {
        sim::host_scope const h{};
        step(where::call, calls, "call");
        u64 v = hash(5, x);
        ((v = hash(v, xs)), ...);
        x = static_cast<u32>(v >> 20);
        ++calls;
    };
    u32 want_calls = len;
    bool const ok = guarded([&] {
        u32 *const b = a.raw;
        u32 *const e = a.raw + len;
        switch (kind) {
        case 0:
            return (void)stdx::for_each(b, e, f);
        case 1:
            return (void)stdx::for_each(b, e, f, other.raw);
        case 2:
            want_calls = count;
            return (void)stdx::for_each_n(b, count, f);
        case 3:
            want_calls = count;
            return (void)stdx::for_each_n(b, count, f, other.raw);
        case 4:
            want_calls = len > 0 ? len - 1 : 0;
            return (void)stdx::for_each_butlast(b, e, f, other.raw);
        case 5:
            want_calls = len > count ? len - count : 0;
            return (void)stdx::for_each_butlastn(b, e, count, f);
        default:
            return (void)stdx::initial_medial_final(b, e, f, f, f);
        }
    });
    sim::event("update %d: %d of %d", kind, calls, len);
    bool const two = kind == 1 or kind == 3 or kind == 4;
    sim::require(ok ? calls == want_calls : calls < want_calls, "wrong-calls",
                 "%d calls for %d positions", calls, want_calls);
    for (u32 p = 0; p < len; ++p) {
        u64 v = hash(5, 1000 + p);
        v = two ? hash(v, 2000 + p) : v;
        u32 const want = p < calls ? static_cast<u32>(v >> 20) : 1000 + p;
        sim::require(a.raw[p] == want and other.raw[p] == 2000 + p,
                     "wrong-write", "position %d holds %d, expected %d", p,
                     a.raw[p], want);
    }
    sim::nontrivial();
}

// counts larger than any range: the work ends with the first failure
struct endless_it {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = u64;
    using difference_type = std::ptrdiff_t;
    using pointer = u64 const *;
    using reference = u64;
    u64 p{};
    auto operator*() const -> u64 { return p; }
    auto operator++() -> endless_it & {
        ++p;
        return *this;
    }
    auto operator++(int) -> endless_it { return {p++}; }
    auto operator+=(std::ptrdiff_t d) -> endless_it & {
        p += static_cast<u64>(d);
        return *this;
    }
    auto operator[](std::ptrdiff_t d) const -> u64 {
        return p + static_cast<u64>(d);
    }
    friend auto operator+(endless_it a, std::ptrdiff_t d) -> endless_it {
        return a += d;
    }
    friend auto operator-(endless_it a, endless_it b) -> std::ptrdiff_t {
        return static_cast<std::ptrdiff_t>(a.p - b.p);
    }
    friend auto operator==(endless_it, endless_it) -> bool = default;
    friend auto operator<=>(endless_it, endless_it) = default;
};
void huge_counts() {
    constexpr u64 counts[] = {u64{1} << 31,       (u64{1} << 32) - 1,
                              u64{1} << 32,       (u64{1} << 32) + 3,
                              (u64{1} << 63) - 1, (u64{1} << 40) + 1};
    u64 const n = counts[sim::choose(6)];
    u32 const kind = sim::choose(8);
    u32 const type = n < (u64{1} << 32) ? sim::choose(3) : sim::choose(2);
    u32 const stop = sim::choose(12);
    u32 calls = 0;
    u32 written = 0;
    auto const f = [&](auto... xs) -> u64 {
        sim::host_scope const h{};
        sim::require((... and (xs == calls)), "wrong-arguments",
                     "call %d got the wrong elements", calls);
        if (calls == stop) {
            sim::arm(1);
            step(where::call, calls, "call");
        }
        return calls++;
    };
    struct counting_out {
        using iterator_category = std::output_iterator_tag;
        using value_type = void;
        using difference_type = std::ptrdiff_t;
        using pointer = void;
        using reference = void;
        u32 *n;
        auto operator*() -> counting_out & { return *this; }
        auto operator=(u64) -> counting_out & {
            sim::host_scope const h{};
            ++*n;
            return *this;
        }
        auto operator++() -> counting_out & { return *this; }
        auto operator++(int) -> counting_out & { return *this; }
    };
    auto go = [&](auto count) {
        switch (kind) {
        case 0:
            return (void)stdx::for_each_n(endless_it{}, count, f);
        case 1:
            return (void)stdx::for_each_n(endless_it{}, count, f,
                                          endless_it{});
        case 2:
            return (void)stdx::transform_n(endless_it{}, count,
                                           counting_out{&written}, f);
        case 3:
            return (void)stdx::transform_n(
                endless_it{}, count, counting_out{&written}, f, endless_it{});
        case 4:
            return (void)stdx::transform_reduce_n(
                endless_it{}, count, u64{}, std::plus<>{}, f);
        case 5:
            return (void)stdx::for_each(
                endless_it{}, endless_it{static_cast<u64>(count)}, f);
        case 6:
            return (void)stdx::for_each_butlast(
                endless_it{}, endless_it{static_cast<u64>(count)}, f);
        default:
            return (void)stdx::transform_reduce_n(
                endless_it{}, count, u64{}, std::plus<>{}, f, endless_it{});
        }
    };
    sim::disarm();
    bool ok = true;
    try {
        sim::sut_scope const s{};
        if (type == 0) {
            go(n);
        } else if (type == 1) {
            go(static_cast<std::int64_t>(n));
        } else {
            go(static_cast<u32>(n));
        }
    } catch (sim::fault_t const &) {
        ok = false;
    }
    sim::disarm();
    sim::event("count %x as type %d: stopped after %d", n, type, calls);
    sim::require(not ok and calls == stop, "wrong-calls",
                 "%d calls before the failure at %d", calls, stop);
    sim::require(written == (kind == 2 or kind == 3 ? stop : 0),
                 "wrong-write", "%d outputs before the failure at %d", written,
                 stop);
    sim::nontrivial();
}

sim::scenario const scenarios[] = {
    {"single_pass_streams", 1, inputs<once_it>},
    {"forward_ranges", 1, inputs<fwd_it>},
    {"random_access_ranges", 1, inputs<rnd_it>},
    {"plain_memory", 1, inputs<u32 *>},
    {"constant_memory", 1, inputs<u32 const *>},
    {"in_place", 1, in_place},
    {"updates_through_references", 1, updates},
    {"huge_counts", 1, huge_counts},
};
} // namespace

sim::property_def const sim::the_property = {
    "C18",
    "Each run draws an algorithm, 1-5 inputs of one iterator kind (single "
    "pass, forward, random access, pointers), a length 0-6 (sometimes up to "
    "39 or 269) and a count; in half of the "
    "runs the k-th read, call, reduction or write fails. Reads per position, "
    "calls and their arguments, writes, returned positions and returned "
    "function state are compared with the definition, up to and including "
    "the failing position. Further scenarios update elements in place and use "
    "counts up to 2^63-1 that end with a failure. Non-trivial: the call completed or failed by "
    "injection. Distinct: hash of all choices and results.",
    "stdx::for_each, for_each_n, for_each_butlast(n), initial_medial_final, "
    "transform, transform_n, transform_reduce, transform_reduce_n",
    "input streams, output sink, user functions (all may fail)",
    scenarios,
    8,
    30000000,
    72000000,
};
