#include "../sim/rt.hpp"

#include <stdx/byterator.hpp>
#include <stdx/span.hpp>

#include <array>
#include <bit>
#include <compare>
#include <cstring>
#include <utility>
#include <vector>

namespace {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i32 = std::int32_t;

void draw_schedule(bool races = true) {
    sim::sched_config sc{};
    u32 const gaps[] = {0, 2, 4, 9, 25};
    sc.mean_gap = gaps[sim::choose(5)];
    sc.mode = sim::flip(1, 4) ? sim::sched::interrupts : sim::sched::threads;
    sc.detect_races = races;
    if (not races) {
        sc.max_steps = 100000000;
    }
    sim::configure(sc);
}

// Values wider than eight bytes are made from a seed and compared by digest.
auto byte_of(u64 v, u32 i) -> u8 {
    return static_cast<u8>((v >> 8 * (i % 8)) + 0x35 * (i / 8));
}
auto digest(u8 const *b, u32 n) -> u64 {
    u64 h = 0xcbf29ce484222325;
    for (u32 i = 0; i < n; ++i) {
        h = (h ^ b[i]) * 0x100000001b3;
    }
    return h;
}

// The bytes as they must be. Each byte belongs to one context; only that
// context reads or writes it, so the model needs no order between contexts.
struct memory {
    std::vector<u8> want{};
    u32 size{};

    [[nodiscard]] auto get(u32 at, u32 width) const -> u64 {
        if (width > 8) {
            return digest(want.data() + at, width);
        }
        u64 v = 0;
        for (u32 i = 0; i < width; ++i) {
            v |= u64{want[at + i]} << 8 * i;
        }
        return v;
    }
    void put(u32 at, u32 width, u64 v) {
        for (u32 i = 0; i < width; ++i) {
            want[at + i] = byte_of(v, i);
        }
    }
};

auto cut(u64 v, u32 width) -> u64 {
    return width >= 8 ? v : v & ((u64{1} << 8 * width) - 1);
}

template <u32 N> struct record {
    u8 b[N];
};
template <u32 N> auto to_record(u64 v) -> record<N> {
    record<N> r{};
    for (u32 i = 0; i < N; ++i) {
        r.b[i] = byte_of(v, i);
    }
    return r;
}
template <u32 N> auto from(record<N> const &r) -> u64 {
    if constexpr (N > 8) {
        return digest(r.b, N);
    } else {
        u64 v = 0;
        for (u32 i = 0; i < N; ++i) {
            v |= u64{r.b[i]} << 8 * i;
        }
        return v;
    }
}
enum struct small_tag : u8 {};
enum struct wide_tag : u32 {};
struct alignas(16) quad {
    u8 b[16];
};

constexpr u32 widths[] = {1, 2, 4, 8, 3, 1, 2, 4, 8, 6, 7, 12, 16, 21, 40};

// ------------------------------------------------------- reads and writes
template <typename It> auto peek_at(It &it, u32 width, u32 style) -> u64 {
    switch (width) {
    case 1:
        return style == 0   ? it.peeku8()
               : style == 1 ? it.template peek<u8>()
               : style == 2 ? it.peek()
               : style == 3 ? it.template peek<u8, u32>()
               : style == 4 ? static_cast<u64>(it.template peek<u8, wide_tag>())
               : style == 5 ? static_cast<u64>(it.template peek<small_tag>())
               : style == 6 ? static_cast<u64>(it.template peeku8<wide_tag>())
                            : static_cast<u64>(*it);
    case 2:
        return style % 4 == 0   ? it.peeku16()
               : style % 4 == 1 ? it.template peek<u16>()
               : style % 4 == 2 ? it.template peek<u16, u64>()
                                : it.template peeku16<u32>();
    case 4:
        return style % 4 == 0   ? it.peeku32()
               : style % 4 == 1 ? it.template peek<u32>()
               : style % 4 == 2 ? static_cast<u64>(it.template peek<wide_tag>())
                                : it.template peeku32<u64>();
    case 8:
        return style % 2 == 0 ? it.peeku64() : it.template peek<u64>();
    case 6:
        return from(it.template peek<record<6>>());
    case 7:
        return from(it.template peek<record<7>>());
    case 12:
        return from(it.template peek<record<12>>());
    case 16:
        return from(it.template peek<record<16>>());
    case 21:
        return from(it.template peek<record<21>>());
    case 40:
        return from(it.template peek<record<40>>());
    default:
        return from(it.template peek<record<3>>());
    }
}
template <typename It> auto read_at(It &it, u32 width, u32 style) -> u64 {
    switch (width) {
    case 1:
        return style == 0   ? it.readu8()
               : style == 1 ? it.template read<u8>()
               : style == 2 ? it.read()
               : style == 3 ? it.template read<u8, u32>()
               : style == 4 ? static_cast<u64>(it.template read<u8, wide_tag>())
               : style == 5 ? static_cast<u64>(it.template read<small_tag>())
               : style == 6 ? static_cast<u64>(it.template readu8<wide_tag>())
                            : static_cast<u64>(*it++);
    case 2:
        return style % 4 == 0   ? it.readu16()
               : style % 4 == 1 ? it.template read<u16>()
               : style % 4 == 2 ? it.template read<u16, u64>()
                                : it.template readu16<u32>();
    case 4:
        return style % 4 == 0   ? it.readu32()
               : style % 4 == 1 ? it.template read<u32>()
               : style % 4 == 2 ? static_cast<u64>(it.template read<wide_tag>())
                                : it.template readu32<u64>();
    case 8:
        return style % 2 == 0 ? it.readu64() : it.template read<u64>();
    case 6:
        return from(it.template read<record<6>>());
    case 7:
        return from(it.template read<record<7>>());
    case 12:
        return from(it.template read<record<12>>());
    case 16:
        return from(it.template read<record<16>>());
    case 21:
        return from(it.template read<record<21>>());
    case 40:
        return from(it.template read<record<40>>());
    default:
        return from(it.template read<record<3>>());
    }
}
template <typename It> void write_at(It &it, u32 width, u32 style, u64 v) {
    switch (width) {
    case 1:
        switch (style) {
        case 0:
            return it.writeu8(v);
        case 1:
            return it.write(static_cast<u8>(v));
        case 2:
            return it.write(static_cast<small_tag>(v));
        case 3: {
            u8 const lvalue = static_cast<u8>(v);
            return it.write(lvalue);
        }
        case 4:
            return it.writeu8(static_cast<small_tag>(v));
        default:
            *it++ = static_cast<std::byte>(v);
            return;
        }
    case 2: {
        u16 lvalue = static_cast<u16>(v);
        return style % 3 == 0   ? it.writeu16(v)
               : style % 3 == 1 ? it.write(static_cast<u16>(v))
                                : it.write(lvalue);
    }
    case 4: {
        u32 const lvalue = static_cast<u32>(v);
        return style % 4 == 0   ? it.writeu32(v)
               : style % 4 == 1 ? it.write(static_cast<wide_tag>(v))
               : style % 4 == 2 ? it.write(lvalue)
                                : it.writeu32(static_cast<i32>(v));
    }
    case 8:
        return style % 2 == 0 ? it.writeu64(v) : it.write(u64{v});
    case 6:
        return it.write(to_record<6>(v));
    case 7:
        return it.write(to_record<7>(v));
    case 12:
        return it.write(to_record<12>(v));
    case 16:
        return it.write(to_record<16>(v));
    case 21:
        return it.write(to_record<21>(v));
    case 40:
        return it.write(to_record<40>(v));
    default:
        return it.write(to_record<3>(v));
    }
}
template <typename It> auto skip(It &it, u32 width, u32 style) -> It & {
    switch (width) {
    case 1:
        return style == 0   ? it.advanceu8()
               : style == 1 ? it.advance()
               : style == 2 ? it.template advance<u8>()
               : style == 3 ? ++it
                            : (it += 1);
    case 2:
        return style % 3 == 0   ? it.advanceu16()
               : style % 3 == 1 ? it.template advance<u16>()
                                : it.advance(2);
    case 4:
        return style % 3 == 0   ? it.advanceu32()
               : style % 3 == 1 ? it.template advance<u32>()
                                : it.advance(4);
    case 8:
        return style % 2 == 0 ? it.advanceu64() : it.template advance<u64>();
    case 6:
        return it.template advance<record<6>>();
    case 7:
        return it.template advance<record<7>>();
    case 12:
        return it.template advance<record<12>>();
    case 16:
        return it.template advance<record<16>>();
    case 21:
        return it.template advance<record<21>>();
    case 40:
        return it.template advance<record<40>>();
    default:
        return it.template advance<record<3>>();
    }
}
template <typename It> auto align(It &it, u32 width, i32 n) -> It & {
    switch (width) {
    case 1:
        return n == 0 ? it.template advance_to_alignment<u8>()
                      : it.template advance_to_alignment<u8>(n);
    case 2:
        return n == 0 ? it.template advance_to_alignment<u16>()
                      : it.template advance_to_alignment<u16>(n);
    case 4:
        return n == 0 ? it.template advance_to_alignment<u32>()
                      : it.template advance_to_alignment<u32>(n);
    case 16:
        return n == 0 ? it.template advance_to_alignment<quad>()
                      : it.template advance_to_alignment<quad>(n);
    default:
        return n == 0 ? it.template advance_to_alignment<u64>()
                      : it.template advance_to_alignment<u64>(n);
    }
}

// one context: walks the buffer with its own cursor, uses only its own bytes
struct step {
    u32 op;
    u32 width;
    u32 style;
    i32 n;
    u64 value;
};
struct context {
    u32 lo{};
    u32 hi{}; // its own bytes
    u32 at{}; // where its cursor has to be
    std::vector<step> steps{};
};

template <typename T> void walk(T *first, T *last, memory &m, context &c) {
    using It = stdx::byterator<T>;
    constexpr bool writable = not std::is_const_v<T>;
    auto const base = reinterpret_cast<std::uintptr_t>(first);
    It begin = sim::sut([&] { return It{first}; });
    It it = sim::sut([&] { return begin + static_cast<i32>(c.at); });
    for (auto const &s : c.steps) {
        bool const mine = c.at >= c.lo and c.at + s.width <= c.hi;
        bool const room = c.at + s.width <= m.size;
        bool done = true;
        switch (s.op) {
        case 0: // read
            done = mine;
            if (mine) {
                u64 const v =
                    sim::sut([&] { return read_at(it, s.width, s.style); });
                sim::require(v == m.get(c.at, s.width), "wrong-value",
                             "read %x at %d, expected %x", v, c.at,
                             m.get(c.at, s.width));
                c.at += s.width;
            }
            break;
        case 1: // look
            done = mine;
            if (mine) {
                u64 const v =
                    sim::sut([&] { return peek_at(it, s.width, s.style); });
                sim::require(v == m.get(c.at, s.width), "wrong-value",
                             "peeked %x at %d, expected %x", v, c.at,
                             m.get(c.at, s.width));
            }
            break;
        case 2: // write
        case 3:
            done = writable and mine;
            if constexpr (writable) {
                if (mine) {
                    u64 const v = cut(s.value, s.width);
                    sim::sut([&] { write_at(it, s.width, s.style, v); });
                    m.put(c.at, s.width, v);
                    c.at += s.width;
                }
            }
            break;
        case 4: // skip forwards
            done = room;
            if (room) {
                It &r = sim::sut(
                    [&]() -> It & { return skip(it, s.width, s.style); });
                sim::require(&r == &it, "wrong-cursor",
                             "advancing returned another cursor");
                c.at += s.width;
            }
            break;
        case 5: { // back
            done = c.at >= s.width;
            if (done) {
                auto const d = static_cast<i32>(s.width);
                bool in_place = true;
                sim::sut([&] {
                    switch (s.style % 5) {
                    case 0:
                        it -= d;
                        break;
                    case 1:
                        it = it - d;
                        break;
                    case 2:
                        for (i32 i = 0; i < d; ++i) {
                            --it;
                        }
                        break;
                    case 3:
                        for (i32 i = 0; i < d; ++i) {
                            auto const old = it--;
                            in_place = in_place and old - it == 1;
                        }
                        break;
                    default:
                        it.advance(-d);
                        break;
                    }
                });
                sim::require(in_place, "wrong-cursor",
                             "stepping back left the wrong place behind");
                c.at -= s.width;
            }
            break;
        }
        case 6: { // anywhere else
            i32 const to = static_cast<i32>(s.value % (m.size + 1));
            i32 const d = to - static_cast<i32>(c.at);
            sim::sut([&] {
                switch (s.style) {
                case 0:
                case 7:
                    it += d;
                    break;
                case 4:
                    it -= -d;
                    break;
                case 5:
                    it = it - -d;
                    break;
                case 6:
                    it.advance(d);
                    break;
                case 1:
                    it = d + it;
                    break;
                case 2:
                    it = it + d;
                    break;
                default:
                    it = begin;
                    it.advance(to);
                    break;
                }
            });
            c.at = static_cast<u32>(to);
            break;
        }
        case 7: { // to an alignment boundary
            u32 const w =
                std::has_single_bit(s.width) and s.width <= 16 ? s.width : 1;
            auto const p = base + c.at;
            auto const up = (p + w - 1) / w * w;
            auto const q = static_cast<std::intptr_t>(up) +
                           s.n * static_cast<std::intptr_t>(w);
            auto const off = q - static_cast<std::intptr_t>(base);
            done = off >= 0 and off <= static_cast<i32>(m.size);
            if (done) {
                It &r = sim::sut([&]() -> It & { return align(it, w, s.n); });
                sim::require(&r == &it, "wrong-cursor",
                             "aligning returned another cursor");
                c.at = static_cast<u32>(off);
            }
            break;
        }
        case 8: { // index from here
            u32 const to = c.lo + static_cast<u32>(s.value % (c.hi - c.lo));
            auto const d = static_cast<i32>(to) - static_cast<i32>(c.at);
            if (s.style % 2 == 0) {
                u64 const v = sim::sut([&] {
                    return s.style == 0
                               ? static_cast<u64>(it[d])
                               : static_cast<u64>(std::as_const(it)[d]);
                });
                sim::require(v == m.get(to, 1), "wrong-value",
                             "index %d from %d gave %x, expected %x", d, c.at,
                             v, m.get(to, 1));
            } else if constexpr (writable) {
                auto const v = static_cast<u8>(s.value >> 8);
                sim::sut([&] { it[d] = std::byte{v}; });
                m.put(to, 1, v);
            }
            break;
        }
        default: { // compare with another cursor and with plain positions
            u32 const to = static_cast<u32>(s.value % (m.size + 1));
            struct answers {
                bool eq, ne, lt, le, gt, ge;
                std::ptrdiff_t diff;
                bool at_end, before_end, at_begin;
            };
            auto const a = sim::sut([&] {
                It const other = begin + static_cast<i32>(to);
                return answers{it == other,
                               it != other,
                               it<other, it <= other, it>
                                   other,
                               it >= other,
                               it - other,
                               it == last,
                               it < last,
                               it == first and it.operator->() == &*it};
            });
            auto const d = static_cast<std::ptrdiff_t>(c.at) - to;
            u32 const bytes =
                static_cast<u32>(reinterpret_cast<std::uintptr_t>(last) - base);
            bool const fine =
                a.eq == (d == 0) and a.ne == (d != 0) and a.lt == (d < 0) and
                a.le == (d <= 0) and a.gt == (d > 0) and a.ge == (d >= 0) and
                a.diff == d and a.at_end == (c.at == bytes) and
                a.before_end == (c.at < bytes) and a.at_begin == (c.at == 0);
            sim::require(fine, "wrong-comparison", "cursor at %d against %d",
                         c.at, to);
            break;
        }
        }
        sim::event("op %d width %d: now at %d", s.op, s.width, c.at);
        auto const real = sim::sut([&] { return it - begin; });
        sim::require(real == static_cast<std::ptrdiff_t>(c.at), "wrong-cursor",
                     "the cursor is at %d, expected %d", static_cast<i32>(real),
                     c.at);
        if (done) {
            sim::nontrivial();
        }
    }
}

template <typename E, bool Const> void cursors() {
    draw_schedule();
    u32 const nc = 1 + sim::choose(3);
    // the buffer starts at any byte when its elements are bytes
    u32 const shift = sizeof(E) == 1 ? sim::choose(8) : 0;
    u32 const size = sim::choose(64) != 63   ? 16 + sim::choose(5) * 8
                     : sim::choose(16) != 15 ? 512
                                             : 66000;
    auto *raw =
        static_cast<unsigned char *>(sim::arena_alloc(size + shift, 16));
    auto *first = reinterpret_cast<E *>(raw + shift);
    auto *last = first + size / sizeof(E);
    memory m{};
    m.size = size;
    m.want.resize(size);
    for (u32 i = 0; i < size; ++i) {
        m.want[i] = static_cast<u8>(0x41 + 37 * i);
        raw[shift + i] = m.want[i];
    }
    std::vector<context> cs(nc);
    // neighbouring regions of any width, none aligned to anything
    u32 at = 0;
    for (u32 i = 0; i < nc; ++i) {
        cs[i].lo = at;
        u32 const left = size - at - (nc - i - 1);
        at = i + 1 == nc ? size : at + 1 + sim::choose(left);
        cs[i].hi = at;
        cs[i].at = cs[i].lo;
        do {
            step s{};
            s.op = sim::choose(10);
            s.width = widths[sim::choose(std::size(widths))];
            s.style = sim::choose(8);
            s.n = static_cast<i32>(sim::choose(5)) - 2;
            s.value = sim::value64();
            cs[i].steps.push_back(s);
        } while (sim::more(static_cast<u32>(cs[i].steps.size()), 10));
    }
    for (u32 i = 0; i < nc; ++i) {
        sim::spawn(
            [&, i] {
                if constexpr (Const) {
                    walk<E const>(first, last, m, cs[i]);
                } else {
                    walk<E>(first, last, m, cs[i]);
                }
            },
            {static_cast<int>(i + 1), false});
    }
    sim::run_threads();
    for (u32 i = 0; i < size; ++i) {
        sim::require(raw[shift + i] == m.want[i], "wrong-bytes",
                     "byte %d is %x, expected %x", i, raw[shift + i],
                     m.want[i]);
    }
    sim::arena_free(raw);
}
void cursor_histories() {
    switch (sim::choose(6)) {
    case 0:
        return cursors<u8, false>();
    case 1:
        return cursors<std::byte, false>();
    case 2:
        return cursors<u8, true>();
    case 3:
        return cursors<u16, false>();
    case 4:
        return cursors<u32, false>();
    default:
        return cursors<u32, true>();
    }
}

// ------------------------------------------------------------------ views
// A view is described by where it starts and how long it is; narrowing it in
// any way and using it in any way must agree with that.
struct extent {
    u32 lo;
    u32 n;
};
template <typename E> struct table {
    constexpr static u32 small = 12;
    constexpr static u32 large = 300;
    u32 size{};
    std::vector<E> want{};
    E *data{};
};
auto made(u32 i) -> u32 { return 0x1000003u * (i + 1); }

template <typename E, std::size_t N>
void inspect(stdx::span<E, N> s, table<std::remove_const_t<E>> const &t,
             extent x) {
    struct answers {
        std::size_t size, bytes;
        bool empty;
        E *data;
        u32 forward, backward, cforward, cbackward, wrong;
    };
    auto const a = sim::sut([&] {
        answers r{s.size(), s.size_bytes(), s.empty(), s.data(), 0, 0, 0, 0, 0};
        u32 i = 0;
        for (auto const &e : s) {
            r.wrong += e == t.want[x.lo + i] ? 0 : 1;
            ++i;
            ++r.forward;
        }
        for (auto it = s.rbegin(); it != s.rend(); ++it) {
            --i;
            r.wrong += *it == t.want[x.lo + i] ? 0 : 1;
            ++r.backward;
        }
        for (auto it = s.cbegin(); it != s.cend(); ++it) {
            r.wrong += *it == t.want[x.lo + i] ? 0 : 1;
            ++i;
            ++r.cforward;
        }
        for (auto it = s.crbegin(); it != s.crend(); ++it) {
            --i;
            r.wrong += *it == t.want[x.lo + i] ? 0 : 1;
            ++r.cbackward;
        }
        if (x.n != 0) {
            r.wrong += s.front() == t.want[x.lo] ? 0 : 1;
            r.wrong += s.back() == t.want[x.lo + x.n - 1] ? 0 : 1;
            for (u32 k = 0; k < x.n; ++k) {
                r.wrong += s[k] == t.want[x.lo + k] ? 0 : 1;
            }
        }
        return r;
    });
    sim::require(a.size == x.n and a.bytes == x.n * sizeof(E) and
                     a.empty == (x.n == 0) and a.forward == x.n and
                     a.backward == x.n and a.cforward == x.n and
                     a.cbackward == x.n,
                 "wrong-size", "a view of %d elements says %d", x.n,
                 static_cast<u32>(a.size));
    sim::require(a.data == t.data + x.lo, "wrong-place",
                 "a view starting at %d starts elsewhere", x.lo);
    sim::require(a.wrong == 0, "wrong-value", "%d elements read wrongly",
                 a.wrong);
}
template <typename E, std::size_t N>
void scribble(stdx::span<E, N> s, table<E> &t, extent x, u32 v, u32 style) {
    if (x.n == 0) {
        return;
    }
    u32 const k = v % x.n;
    auto const e = static_cast<E>(v >> 3);
    switch (style) {
    case 0:
        sim::sut([&] { s[k] = e; });
        t.want[x.lo + k] = e;
        break;
    case 1:
        sim::sut([&] { s.front() = e; });
        t.want[x.lo] = e;
        break;
    case 2:
        sim::sut([&] { s.back() = e; });
        t.want[x.lo + x.n - 1] = e;
        break;
    case 3:
        sim::sut([&] {
            for (auto &y : s) {
                y = e;
            }
        });
        for (u32 i = 0; i < x.n; ++i) {
            t.want[x.lo + i] = e;
        }
        break;
    case 4:
        sim::sut([&] { *(s.rbegin() + k) = e; });
        t.want[x.lo + x.n - 1 - k] = e;
        break;
    default: { // byte by byte
        sim::sut([&] {
            auto b = stdx::as_writable_bytes(s);
            for (u32 i = 0; i < sizeof(E); ++i) {
                b[k * sizeof(E) + i] =
                    static_cast<std::byte>(static_cast<u64>(e) >> 8 * i);
            }
        });
        t.want[x.lo + k] = e;
        break;
    }
    }
}
template <typename E, std::size_t N>
void bytes_of(stdx::span<E, N> s, table<std::remove_const_t<E>> const &t,
              extent x) {
    struct answers {
        std::size_t size;
        std::byte const *data;
    };
    auto const a = sim::sut([&] {
        auto b = stdx::as_bytes(s);
        return answers{b.size(), b.data()};
    });
    auto const *const at = reinterpret_cast<std::byte const *>(t.data + x.lo);
    sim::require(a.size == x.n * sizeof(E) and a.data == at, "wrong-place",
                 "the bytes of a view of %d elements", x.n);
    if constexpr (not std::is_const_v<E>) {
        auto const w = sim::sut([&] {
            auto b = stdx::as_writable_bytes(s);
            return answers{b.size(), b.data()};
        });
        sim::require(w.size == x.n * sizeof(E) and w.data == at, "wrong-place",
                     "the bytes of a view of %d elements", x.n);
    }
}

struct vstep {
    u32 op;
    u32 a;
    u32 b;
    u32 style;
};
template <typename E> struct viewer {
    struct range {
        E *b;
        E *e;
        auto begin() const -> E * { return b; }
        auto end() const -> E * { return e; }
    };
    table<E> &t;
    std::vector<vstep> const &steps;
    std::size_t next{};

    template <std::size_t N> void go(stdx::span<E, N> s, extent x) {
        if (next == steps.size()) {
            return;
        }
        auto const st = steps[next++];
        sim::event("view of %d from %d, step %d", x.n, x.lo, st.op);
        switch (st.op) {
        case 0:
            inspect(s, t, x);
            return go(s, x);
        case 1:
            scribble(s, t, x, st.a * 64 + st.b, st.style);
            return go(s, x);
        case 2: { // read-only view of the same
            stdx::span<E const, N> const c =
                sim::sut([&]() -> stdx::span<E const, N> {
                    if (st.style % 3 == 0) {
                        return stdx::span<E const, N>{s};
                    }
                    if (st.style % 3 == 1) {
                        return stdx::span<E const, N>{std::as_const(s)};
                    }
                    return s;
                });
            inspect(c, t, x);
            return go(s, x);
        }
        case 3:
            bytes_of(s, t, x);
            return go(s, x);
        case 4: { // a prefix
            u32 const n = st.a % (x.n + 1);
            return go(sim::sut([&] { return s.first(n); }), {x.lo, n});
        }
        case 5: { // a suffix
            u32 const n = st.a % (x.n + 1);
            return go(sim::sut([&] { return s.last(n); }), {x.lo + x.n - n, n});
        }
        case 6: { // a middle
            u32 const o = st.a % (x.n + 1);
            u32 const n = st.b % (x.n - o + 1);
            return go(sim::sut([&] { return s.subspan(o, n); }), {x.lo + o, n});
        }
        case 7: { // the rest
            u32 const o = st.a % (x.n + 1);
            return go(sim::sut([&] { return s.subspan(o); }),
                      {x.lo + o, x.n - o});
        }
        case 8: // more than there is: up to the end
        {
            u32 const o = st.a % (x.n + 1);
            return go(sim::sut([&] { return s.subspan(o, x.n - o + st.b); }),
                      {x.lo + o, x.n - o});
        }
        case 9: // sizes known at compile time
            if constexpr (N == stdx::dynamic_extent) {
                if (x.n >= 6) {
                    switch (st.style % 3) {
                    case 0:
                        return go(
                            sim::sut([&] { return s.template first<6>(); }),
                            {x.lo, 6});
                    case 1:
                        return go(
                            sim::sut([&] { return s.template last<6>(); }),
                            {x.lo + x.n - 6, 6});
                    default:
                        return go(sim::sut([&] {
                                      return s.template subspan<1, 5>();
                                  }),
                                  {x.lo + 1, 5});
                    }
                }
                if (x.n >= 2) {
                    return go(sim::sut([&] { return s.template subspan<2>(); }),
                              {x.lo + 2, x.n - 2});
                }
            } else if constexpr (N >= 4) {
                switch (st.style % 4) {
                case 0:
                    return go(
                        sim::sut([&] { return s.template first<N - 2>(); }),
                        {x.lo, N - 2});
                case 1:
                    return go(
                        sim::sut([&] { return s.template last<N - 2>(); }),
                        {x.lo + 2, N - 2});
                case 2:
                    return go(sim::sut([&] {
                                  return s.template subspan<1, N - 3>();
                              }),
                              {x.lo + 1, N - 3});
                default:
                    return go(sim::sut([&] { return s.template subspan<3>(); }),
                              {x.lo + 3, N - 3});
                }
            }
            return go(s, x);
        case 10: // forget the static size
            return go(sim::sut([&]() -> stdx::span<E> {
                          if (st.style % 2 == 0) {
                              return stdx::span<E>{s};
                          }
                          return s;
                      }),
                      x);
        default: // made anew from its parts
            switch (st.style) {
            case 4: // from any contiguous range
                return go(sim::sut([&] {
                              return stdx::span<E>{range{s.begin(), s.end()}};
                          }),
                          x);
            case 5: // given a fixed size after the fact
                if constexpr (N == stdx::dynamic_extent) {
                    if (x.n >= 4) {
                        return go(
                            sim::sut([&] {
                                return st.b % 3 == 0 ? stdx::span<E, 4>{s}
                                       : st.b % 3 == 1
                                           ? stdx::span<E, 4>{range{s.begin(),
                                                                    s.end()}}
                                       : st.b % 3 == 2 and st.a % 2 == 0
                                           ? stdx::span<E, 4>{std::as_const(s)}
                                           : stdx::span<E, 4>{s.begin(), 4};
                            }),
                            {x.lo, 4});
                    }
                }
                return go(s, x);
            case 0:
                return go(
                    sim::sut([&] { return stdx::span<E>{t.data + x.lo, x.n}; }),
                    x);
            case 1:
                return go(sim::sut([&] {
                              return stdx::span<E>{t.data + x.lo,
                                                   t.data + x.lo + x.n};
                          }),
                          x);
            case 2:
                return go(
                    sim::sut([&] { return stdx::span<E>{s.begin(), s.end()}; }),
                    x);
            default: {
                // what the index says a structured access has to say too
                if constexpr (N >= 2) {
                    bool const same = x.n < 2 or sim::sut([&] {
                                          return &stdx::get<1>(s) == &s[1] and
                                                 &stdx::get<0>(s) == &s.front();
                                      });
                    sim::require(same, "wrong-place", "get<1> of a view");
                }
                return go(s, x);
            }
            }
        }
    }
};

template <typename E> void views() {
    table<E> t{};
    bool const large = sim::choose(64) == 63;
    bool const huge = large and sim::choose(16) == 15; // one context only
    draw_schedule(not huge);
    t.size = huge ? 66000 / sizeof(E) + 1000 : large ? t.large : t.small;
    t.want.resize(t.size);
    using array = std::array<E, table<E>::small>;
    sim::box<array> small{};
    sim::box<std::array<E, table<E>::large>> big{};
    E *endless{};
    if (huge) {
        endless =
            static_cast<E *>(sim::arena_alloc(t.size * sizeof(E), alignof(E)));
        t.data = endless;
    } else if (large) {
        big = sim::make_default<std::array<E, table<E>::large>>();
        t.data = big->data();
    } else {
        small = sim::make_default<array>();
        t.data = small->data();
    }
    for (u32 i = 0; i < t.size; ++i) {
        t.want[i] = static_cast<E>(made(i));
        t.data[i] = t.want[i];
    }
    u32 const nc = huge ? 1 : 1 + sim::choose(2);
    u32 const start = sim::choose(5);
    u32 const most = huge ? t.size + 5 : large ? 320 : 16;
    std::vector<std::vector<vstep>> steps(nc);
    for (auto &v : steps) {
        do {
            v.push_back({sim::choose(12), sim::choose(most), sim::choose(most),
                         sim::choose(6)});
        } while (sim::more(static_cast<u32>(v.size()), 8));
    }
    u32 const split = nc == 1 ? t.size : 1 + sim::choose(t.size - 1);
    for (u32 i = 0; i < nc; ++i) {
        sim::spawn(
            [&, i] {
                viewer<E> w{t, steps[i]};
                auto const all = [&] {
                    return huge    ? stdx::span<E>{endless, t.size}
                           : large ? stdx::span<E>{*big}
                                   : stdx::span<E>{*small};
                };
                extent const whole{0, t.size};
                if (nc == 1 and not large) {
                    using plain = E[table<E>::small];
                    auto &c = *reinterpret_cast<plain *>(t.data);
                    switch (start) {
                    case 0:
                        return w.go(
                            sim::sut([&] { return stdx::span{*small}; }),
                            whole);
                    case 1:
                        return w.go(sim::sut([&] { return stdx::span{c}; }),
                                    whole);
                    case 2:
                        return w.go(sim::sut([&] { return stdx::span<E>{c}; }),
                                    whole);
                    case 3: {
                        inspect(sim::sut([&] {
                                    return stdx::span{std::as_const(*small)};
                                }),
                                t, whole);
                        inspect(sim::sut([&] {
                                    return stdx::span<E const>{*small};
                                }),
                                t, whole);
                        return w.go(
                            sim::sut([&] { return stdx::span<E, 9>{*small}; }),
                            {0, 9});
                    }
                    default:
                        break;
                    }
                }
                if (nc == 1) {
                    w.go(sim::sut(all), whole);
                } else if (i == 0) {
                    w.go(sim::sut([&] { return all().first(split); }),
                         {0, split});
                } else {
                    w.go(sim::sut([&] { return all().subspan(split); }),
                         {split, t.size - split});
                }
            },
            {static_cast<int>(i + 1), false});
    }
    sim::run_threads();
    for (u32 i = 0; i < t.size; ++i) {
        sim::require(t.data[i] == t.want[i], "wrong-bytes",
                     "element %d is %x, expected %x", i,
                     static_cast<u64>(t.data[i]), static_cast<u64>(t.want[i]));
    }
    if (huge) {
        sim::arena_free(endless);
    }
    sim::nontrivial();
}
void view_histories() {
    switch (sim::choose(4)) {
    case 2:
        return views<u16>();
    case 0:
        return views<u8>();
    case 1:
        return views<u32>();
    default:
        return views<u64>();
    }
}

sim::scenario const scenarios[] = {
    {"cursors", 3, cursor_histories},
    {"views", 2, view_histories},
};
} // namespace

sim::property_def const sim::the_property = {
    "C26",
    "Each run draws a buffer (16-48, rarely 512 or 66000 bytes, any alignment, "
    "byte to word "
    "elements) divided between 1-3 contexts, and for each a history of up to "
    "10 reads, writes, jumps, alignments, indexings and comparisons with its "
    "own cursor, or up to 8 narrowings, conversions, readings and writings of "
    "views, interleaved at every memory access. Every value, position and "
    "finally every byte is compared with a byte model; touching another "
    "context's bytes is a race. Non-trivial: a step completed and was "
    "compared. Distinct: hash of all choices and results.",
    "stdx::byterator, stdx::span",
    "thread and interrupt schedule, buffer memory with guard zones",
    scenarios,
    2,
    18000000,
    48000000,
};
