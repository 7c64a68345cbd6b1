#include "../sim/elem.hpp"

#include <stdx/bitset.hpp>

#include <array>
#include <string>
#include <string_view>
#include <vector>

namespace {
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// reference model: one flag per position
using model = std::vector<bool>;

auto shifted(model const &m, u64 by, bool up) -> model {
    model r(m.size());
    for (u64 i = 0; i < m.size(); ++i) {
        if (up ? i >= by : i + by < m.size() and by < m.size()) {
            r[i] = up ? m[i - by] : m[i + by];
        }
    }
    return r;
}

template <typename T> auto as_index(T t) -> u64 {
    if constexpr (std::is_enum_v<T>) {
        return static_cast<u64>(static_cast<std::underlying_type_t<T>>(t));
    } else {
        return static_cast<u64>(t);
    }
}

constexpr u32 walk_faults = 12;

template <auto Size, typename... Elem> struct world {
    using B = stdx::bitset<Size, Elem...>;
    static constexpr u32 N = static_cast<u32>(stdx::to_underlying(Size));
    using idx_t =
        std::conditional_t<std::is_enum_v<decltype(Size)>, decltype(Size), u32>;
    static auto idx(u32 i) -> idx_t { return static_cast<idx_t>(i); }

    struct slot {
        sim::box<B> b{};
        model m{};
    };
    std::array<slot, 2> s{};

    world() {
        for (auto &x : s) {
            x.b = sim::make_default<B>();
            x.m.assign(N, false);
        }
    }

    // a position, preferring the ends and storage boundaries
    static auto pos() -> u32 {
        switch (sim::choose(4)) {
        case 0:
            return sim::choose(std::max(N, 1u));
        case 1:
            return N - 1;
        case 2:
            return std::min(N - 1, 8 * sim::choose(N / 8 + 1));
        default:
            return std::min(N - 1, 8 * sim::choose(N / 8 + 1) + 7);
        }
    }
    static auto distance() -> u32 {
        switch (sim::choose(4)) {
        case 0:
            return sim::choose(N + 1);
        case 1:
            return 8 * sim::choose(N / 8 + 3);
        case 2:
            return N + sim::choose(80);
        default:
            return sim::choose(9);
        }
    }

    // ------------------------------------------------------------ changes
    void build(slot &x) {
        switch (sim::choose(6)) {
        case 5: {
            stdx::ct_string<N + 1> s{};
            for (u32 i = 0; i < N; ++i) {
                bool const one = sim::flip(1, 2);
                s.begin()[i] = one ? '1' : '0';
                x.m[N - 1 - i] = one;
            }
            sim::event("= fixed string");
            sim::sut([&] { *x.b = B{s}; });
            break;
        }
        case 0: {
            u64 const v = sim::value64();
            sim::event("= value %x", v);
            sim::sut([&] { *x.b = B{v}; });
            for (u32 i = 0; i < N; ++i) {
                x.m[i] = i < 64 and ((v >> i) & 1u) != 0;
            }
            break;
        }
        case 1:
            sim::event("= all bits");
            sim::sut([&] { *x.b = B{stdx::all_bits}; });
            x.m.assign(N, true);
            break;
        case 2:
            if constexpr (N > 0) {
                u32 const a = pos(), b = pos(), c = pos();
                sim::event("= places %d %d %d", a, b, c);
                sim::sut([&] {
                    *x.b = B{stdx::place_bits, idx(a), idx(b), idx(c)};
                });
                x.m.assign(N, false);
                x.m[a] = x.m[b] = x.m[c] = true;
            }
            break;
        case 3: {
            u32 const len = sim::choose(N + 4);
            u32 const skip = len == 0 ? 0 : sim::choose(len);
            u32 const take = sim::flip(1, 2) ? sim::choose(len + 3) : ~0u;
            bool const letters = sim::flip(1, 2);
            std::string t{};
            for (u32 i = 0; i < len; ++i) {
                bool const one = sim::flip(1, 2);
                t += letters ? (one ? 'A' : 'B') : (one ? '1' : '0');
            }
            sim::event("= string of %d from %d, %d characters", len, skip,
                       take == ~0u ? 999 : take);
            auto const sv = std::string_view{t};
            sim::sut([&] {
                if (letters) {
                    *x.b = B{sv, skip,
                             take == ~0u ? std::string_view::npos : take, 'A'};
                } else if (take == ~0u) {
                    *x.b = skip == 0 ? B{sv} : B{sv, skip};
                } else {
                    *x.b = B{sv, skip, take};
                }
            });
            auto const part =
                sv.substr(skip, take == ~0u ? std::string_view::npos : take);
            auto const used = part.substr(0, N);
            x.m.assign(N, false);
            for (u32 i = 0; i < used.size(); ++i) {
                char const c = used[used.size() - 1 - i];
                x.m[i] = c == '1' or c == 'A';
            }
            break;
        }
        default:
            sim::event("= empty");
            sim::sut([&] { *x.b = B{}; });
            x.m.assign(N, false);
            break;
        }
    }
    void change_one(slot &x) {
        if constexpr (N > 0) {
            u32 const p = pos();
            switch (sim::choose(5)) {
            case 0:
                sim::event("set %d", p);
                sim::sut([&] { x.b->set(idx(p)); });
                x.m[p] = true;
                break;
            case 1:
                sim::event("reset %d", p);
                sim::sut([&] { x.b->reset(idx(p)); });
                x.m[p] = false;
                break;
            case 2:
                sim::event("flip %d", p);
                sim::sut([&] { x.b->flip(idx(p)); });
                x.m[p] = not x.m[p];
                break;
            case 3: {
                bool const v = sim::flip(1, 2);
                sim::event("set %d to %d", p, v);
                sim::sut([&] { x.b->set(idx(p), v); });
                x.m[p] = v;
                break;
            }
            default:
                sim::event("clear %d", p);
                sim::sut([&] { x.b->clear(idx(p)); });
                x.m[p] = false;
                break;
            }
        }
    }
    void change_range(slot &x) {
        if constexpr (N > 0) {
            u32 l = pos(), m = pos();
            if (l > m) {
                std::swap(l, m);
            }
            bool const by_length = sim::flip(1, 2);
            u32 const how = sim::choose(4);
            bool const v = how == 0 ? true : how == 1 ? false : sim::flip(1, 2);
            u32 n = m - l + 1;
            if (by_length and sim::flip(1, 8)) {
                n = 0;
            }
            sim::event("%s [%d, %d) to %d", by_length ? "length" : "range", l,
                       l + n, v);
            auto const lsb = static_cast<stdx::lsb_t>(l);
            auto const msb = static_cast<stdx::msb_t>(m);
            auto const len = static_cast<stdx::length_t>(n);
            sim::sut([&] {
                if (by_length) {
                    how == 0   ? x.b->set(lsb, len)
                    : how == 1 ? x.b->reset(lsb, len)
                    : v        ? x.b->set(lsb, len, v)
                               : x.b->clear(lsb, len);
                } else {
                    how == 0   ? x.b->set(lsb, msb)
                    : how == 1 ? x.b->reset(lsb, msb)
                    : v        ? x.b->set(lsb, msb, v)
                               : x.b->clear(lsb, msb);
                }
            });
            for (u32 i = l; i < l + n; ++i) {
                x.m[i] = v;
            }
        }
    }
    void change_all(slot &x) {
        switch (sim::choose(4)) {
        case 0:
            sim::event("set all");
            sim::sut([&] { x.b->set(); });
            x.m.assign(N, true);
            break;
        case 1:
            sim::event("reset all");
            sim::sut([&] { x.b->reset(); });
            x.m.assign(N, false);
            break;
        case 2:
            sim::event("flip all");
            sim::sut([&] { x.b->flip(); });
            x.m.flip();
            break;
        default:
            sim::event("complement");
            sim::sut([&] { *x.b = ~*x.b; });
            x.m.flip();
            break;
        }
    }
    void shift(slot &x) {
        u32 const d = distance();
        u32 const how = sim::choose(4);
        sim::event("%s by %d", how % 2 == 0 ? "shift up" : "shift down", d);
        sim::sut([&] {
            switch (how) {
            case 0:
                *x.b <<= d;
                break;
            case 1:
                *x.b >>= d;
                break;
            case 2:
                *x.b = *x.b << d;
                break;
            default:
                *x.b = *x.b >> d;
                break;
            }
        });
        x.m = shifted(x.m, d, how % 2 == 0);
    }
    void combine(slot &x, slot &y) {
        u32 const how = sim::choose(7);
        char const *const names[] = {"|=", "&=", "^=", "|", "&", "^", "-"};
        sim::event("combine %s", names[how]);
        sim::sut([&] {
            switch (how) {
            case 0:
                *x.b |= *y.b;
                break;
            case 1:
                *x.b &= *y.b;
                break;
            case 2:
                *x.b ^= *y.b;
                break;
            case 3:
                *x.b = *x.b | *y.b;
                break;
            case 4:
                *x.b = *x.b & *y.b;
                break;
            case 5:
                *x.b = *x.b ^ *y.b;
                break;
            default:
                *x.b = *x.b - *y.b;
                break;
            }
        });
        model const other = y.m;
        for (u32 i = 0; i < N; ++i) {
            bool const p = x.m[i], q = other[i];
            x.m[i] = how == 6       ? p and not q
                     : how % 3 == 0 ? p or q
                     : how % 3 == 1 ? p and q
                                    : p != q;
        }
    }

    // ---------------------------------------------------------- questions
    void same(slot &x) {
        u64 members = 0;
        u64 v = 0;
        u32 lowest = N;
        for (u32 i = N; i-- > 0;) {
            bool const got = sim::sut([&] {
                return static_cast<bool>((*std::as_const(x.b))[idx(i)]);
            });
            sim::require(got == x.m[i], "wrong-member",
                         "position %d is %d, expected %d", i, got,
                         static_cast<bool>(x.m[i]));
            members += x.m[i] ? 1 : 0;
            v = (v << 1) | (x.m[i] ? 1 : 0);
            if (not x.m[i]) {
                lowest = i;
            }
        }
        auto const &b = *x.b;
        auto const c = sim::sut([&] { return b.count(); });
        sim::require(c == members and sim::sut([&] { return b.size(); }) == c,
                     "wrong-count", "count is %d, expected %d", c, members);
        bool const flags = sim::sut([&] {
            return b.all() == (members == N) and b.any() == (members != 0) and
                   b.none() == (members == 0) and b.empty() == (members == 0);
        });
        sim::require(flags, "wrong-answer", "all/any/none/empty is wrong");
        if constexpr (N > 0 and N <= 64) {
            auto const n = sim::sut([&] { return b.template to<u64>(); });
            sim::require(n == v, "wrong-value", "value is %x, expected %x", n,
                         v);
            auto const nat =
                static_cast<u64>(sim::sut([&] { return b.to_natural(); }));
            sim::require(nat == v, "wrong-value",
                         "natural value is %x, expected %x", nat, v);
        }
        auto const low = as_index(sim::sut([&] { return b.lowest_unset(); }));
        sim::require(low == lowest, "wrong-lowest",
                     "lowest free position is %d, expected %d", low, lowest);
    }
    void equality() {
        bool const got = sim::sut([&] { return *s[0].b == *s[1].b; });
        bool const want = s[0].m == s[1].m;
        sim::require(got == want, "wrong-equality",
                     "comparison says %d, members say %d", got, want);
        bool const ne = sim::sut([&] { return *s[0].b != *s[1].b; });
        sim::require(ne != want, "wrong-equality", "!= says %d", ne);
    }

    // ---------------------------------------------------------------- walks
    struct trail {
        std::vector<u64> at{};
        std::vector<bool> value{};
    };
    struct walker {
        trail *t;
        u32 calls{};
        template <typename I> void operator()(I i) { note(i); }
        template <typename I> void operator()(I i, bool b) {
            {
                sim::host_scope const h{};
                t->value.push_back(b);
            }
            note(i);
        }
        template <typename I> void note(I i) {
            static_assert(not std::is_enum_v<decltype(Size)> or
                          std::is_same_v<I, decltype(Size)>);
            sim::host_scope const h{};
            ++calls;
            t->at.push_back(as_index(i));
            sim::require(t->at.size() <= N + 2, "too-many-visits",
                         "more visits than positions");
            if (sim::fault_point("visit")) {
                throw sim::fault_t{3};
            }
        }
    };
    void walk(slot &x) {
        u32 const how = sim::choose(5);
        u32 const k = elem::draw_fault(walk_faults);
        char const *const names[] = {"members", "members (default)",
                                     "non-members", "every position",
                                     "reduction"};
        sim::event("walk %s, failure at %d", names[how], k);
        trail t{};
        u64 seen = 0;
        u64 folded = 0;
        auto const &b = *x.b;
        auto const o = elem::attempt(k, [&] {
            walker w{&t};
            switch (how) {
            case 0:
                seen = for_each<stdx::set_bit>(w, b).calls;
                break;
            case 1:
                seen = for_each(w, b).calls;
                break;
            case 2:
                seen = stdx::for_each<stdx::unset_bit>(w, b).calls;
                break;
            case 3:
                seen = stdx::for_each<stdx::bit>(w, b).calls;
                break;
            default:
                folded = transform_reduce(
                    [&](auto i) -> u64 {
                        w(i);
                        return as_index(i) + 1;
                    },
                    [](u64 a, u64 v) -> u64 { return a * 131 + v; }, u64{7}, b);
                seen = w.calls;
                break;
            }
        });
        std::vector<u64> want{};
        u64 fold = 7;
        for (u32 i = 0; i < N; ++i) {
            if (how == 3 or x.m[i] == (how != 2)) {
                want.push_back(i);
                fold = fold * 131 + i + 1;
            }
        }
        for (u32 i = 0; i < t.at.size(); ++i) {
            sim::require(t.at[i] < N, "beyond-capacity",
                         "visit %d is of position %d, capacity %d", i, t.at[i],
                         N);
            sim::require(i < want.size(), "extra-visit",
                         "visit %d of position %d is not due", i, t.at[i]);
            sim::require(t.at[i] == want[i], "wrong-visit",
                         "visit %d is of position %d, expected %d", i, t.at[i],
                         want[i]);
            if (how == 3) {
                sim::require(t.value[i] == x.m[i], "wrong-visit",
                             "position %d is reported as %d", i,
                             static_cast<bool>(t.value[i]));
            }
        }
        if (o == elem::outcome::ok) {
            sim::require(t.at.size() == want.size(), "missing-visit",
                         "%d positions visited, expected %d", t.at.size(),
                         want.size());
            sim::require(how == 4 or seen == want.size(), "wrong-state",
                         "the returned function saw %d calls", seen);
            sim::require(how != 4 or folded == fold, "wrong-result",
                         "reduction gives %x, expected %x", folded, fold);
        } else {
            sim::require(t.at.size() == k, "wrong-failure",
                         "failure at visit %d", t.at.size());
        }
        sim::nontrivial();
    }
    // hand out slots until none is left, give some back
    void slots() {
        auto &x = s[0];
        u32 const rounds = 1 + sim::choose(N + 8);
        std::vector<bool> held = x.m;
        for (u32 r = 0; r < rounds; ++r) {
            if (sim::flip(3, 4)) {
                auto const p = sim::sut([&] { return x.b->lowest_unset(); });
                u64 const i = as_index(p);
                bool full = true;
                for (auto f : held) {
                    full = full and f;
                }
                sim::require(full ? i == N : i < N, "wrong-lowest",
                             "free slot %d of %d, %s", i, N,
                             full ? "none is free" : "some are free");
                if (full) {
                    continue;
                }
                sim::require(not held[i], "handed-out-twice",
                             "slot %d is handed out twice", i);
                held[i] = true;
                sim::sut([&] { x.b->set(p); });
                x.m[i] = true;
            } else if constexpr (N > 0) {
                u32 const i = pos();
                held[i] = false;
                x.m[i] = false;
                sim::sut([&] { x.b->reset(idx(i)); });
            }
        }
        same(x);
        sim::nontrivial();
    }

    void change() {
        u32 const who = sim::choose(2);
        auto &x = s[who];
        switch (sim::choose(7)) {
        case 0:
        case 1:
            change_one(x);
            break;
        case 2:
            change_range(x);
            break;
        case 3:
            change_all(x);
            break;
        case 4:
            shift(x);
            break;
        case 5:
            combine(x, s[sim::choose(2)]);
            break;
        default:
            build(x);
            break;
        }
    }
    static void history() {
        sim::configure({});
        elem::reset_ledger();
        world w{};
        sim::event("capacity %d, storage %d bytes", N, sizeof(B));
        for (u32 i = 0; sim::more(i, 10); ++i) {
            switch (sim::choose(6)) {
            case 0:
                w.walk(w.s[sim::choose(2)]);
                break;
            case 1:
                w.equality();
                break;
            default:
                w.change();
                break;
            }
        }
        w.walk(w.s[0]);
        w.equality();
        w.same(w.s[0]);
        w.same(w.s[1]);
    }
    static void allocator() {
        sim::configure({});
        world w{};
        for (u32 i = 0; sim::more(i, 4); ++i) {
            w.change();
        }
        w.slots();
    }
};

// ------------------------------------------------------- sets of types
template <int> struct tag {};

template <typename... Ts> struct types_world {
    using B = stdx::type_bitset<Ts...>;
    using list = boost::mp11::mp_unique<stdx::type_list<Ts...>>;
    static constexpr u32 N = boost::mp11::mp_size<list>::value;
    struct slot {
        sim::box<B> b{sim::make_default<B>()};
        model m = model(N);
    };
    template <u32 I> using at = boost::mp11::mp_at_c<list, I>;

    template <typename F> static void nth(u32 i, F f) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            ((Is == i ? f.template operator()<at<Is>>() : void()), ...);
        }(std::make_index_sequence<N>{});
    }
    // a type and the one after it, in either order
    template <typename F> static void pair(u32 p, F f) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            ((Is == p ? (f.template operator()<at<Is>, at<(Is + 1) % N>>())
                      : void()),
             ...);
        }(std::make_index_sequence<N>{});
    }
    struct visitor {
        std::vector<u32> *t;
        u32 calls{};
        template <typename T, std::size_t I> void operator()() {
            sim::host_scope const h{};
            static_assert(std::is_same_v<T, at<I>>);
            ++calls;
            t->push_back(static_cast<u32>(I));
            if (sim::fault_point("visit")) {
                throw sim::fault_t{3};
            }
        }
    };

    static void change(slot &x, slot &y) {
        u32 const how = sim::choose(21);
        u32 const p = sim::choose(N);
        u32 const q = (p + 1) % N;
        bool const v = sim::flip(1, 2);
        sim::event("types: change %d at %d", how, p);
        switch (how) {
        case 0:
            sim::sut(
                [&] { nth(p, [&]<typename T> { x.b->template set<T>(); }); });
            x.m[p] = true;
            break;
        case 1:
            sim::sut(
                [&] { nth(p, [&]<typename T> { x.b->template reset<T>(); }); });
            x.m[p] = false;
            break;
        case 2:
            sim::sut(
                [&] { nth(p, [&]<typename T> { x.b->template flip<T>(); }); });
            x.m[p] = not x.m[p];
            break;
        case 3:
            sim::sut([&] { x.b->set(); });
            x.m.assign(N, true);
            break;
        case 4:
            sim::sut([&] { x.b->reset(); });
            x.m.assign(N, false);
            break;
        case 5:
            sim::sut([&] { x.b->flip(); });
            x.m.flip();
            break;
        case 6:
            sim::sut([&] { *x.b = ~*x.b; });
            x.m.flip();
            break;
        case 7: {
            u64 const v = sim::value64();
            sim::sut([&] { *x.b = B{v}; });
            for (u32 i = 0; i < N; ++i) {
                x.m[i] = ((v >> i) & 1u) != 0;
            }
            break;
        }
        case 8:
            sim::sut([&] { *x.b = B{stdx::all_bits}; });
            x.m.assign(N, true);
            break;
        case 9:
            sim::sut([&] {
                nth(p, [&]<typename T> { *x.b = B{stdx::type_list<T>{}}; });
            });
            x.m.assign(N, false);
            x.m[p] = true;
            break;
        case 10:
            sim::sut(
                [&] { nth(p, [&]<typename T> { x.b->template set<T>(v); }); });
            x.m[p] = v;
            break;
        case 11:
        case 12:
        case 13:
            if (N > 1) {
                pair(p, [&]<typename T, typename U> {
                    sim::sut([&] {
                        how == 11   ? x.b->template set<T, U>(v)
                        : how == 12 ? x.b->template reset<T, U>()
                                    : x.b->template flip<T, U>();
                    });
                });
                x.m[p] = how == 11 ? v : how == 12 ? false : not x.m[p];
                x.m[q] = how == 11 ? v : how == 12 ? false : not x.m[q];
            }
            break;
        default: {
            sim::sut([&] {
                how == 14   ? *x.b = *x.b | *y.b
                : how == 15 ? *x.b = *x.b &*y.b
                : how == 16 ? *x.b = *x.b ^ *y.b
                : how == 17 ? *x.b |= *y.b
                : how == 18 ? *x.b &= *y.b
                : how == 19 ? *x.b ^= *y.b
                            : *x.b = *x.b - *y.b;
            });
            model const o = y.m;
            for (u32 i = 0; i < N; ++i) {
                bool const a = x.m[i], b = o[i];
                x.m[i] = how == 14 or how == 17   ? a or b
                         : how == 15 or how == 18 ? a and b
                         : how == 16 or how == 19 ? a != b
                                                  : a and not b;
            }
            break;
        }
        }
    }
    static void look(slot &x) {
        u64 members{};
        for (u32 i = 0; i < N; ++i) {
            bool got{};
            sim::sut([&] {
                nth(i, [&]<typename T> {
                    got = (*std::as_const(x.b))[stdx::type_identity_v<T>];
                });
            });
            sim::require(got == x.m[i], "wrong-member",
                         "type %d is %d, expected %d", i, got,
                         static_cast<bool>(x.m[i]));
            members += x.m[i] ? 1 : 0;
        }
        auto const c = sim::sut([&] { return x.b->count(); });
        sim::require(c == members, "wrong-count", "count is %d, expected %d", c,
                     members);
        u64 value{};
        for (u32 i = 0; i < N; ++i) {
            value |= static_cast<u64>(x.m[i]) << i;
        }
        sim::sut([&] {
            auto const &b = std::as_const(*x.b);
            sim::require(b.size() == members and b.empty() == (members == 0) and
                             b.none() == (members == 0) and
                             b.any() == (members != 0) and
                             b.all() == (members == N) and b.capacity() == N,
                         "wrong-count",
                         "%d members of %d, but size %d empty %d any %d all %d",
                         members, N, b.size(), b.empty(), b.any(), b.all());
            sim::require(b.to_natural() == value and
                             b.template to<u64>() == value,
                         "wrong-conversion", "converts to %x, expected %x",
                         b.template to<u64>(), value);
        });
    }
    static void walk(slot &x) {
        u32 const how = sim::choose(2);
        u32 const k = elem::draw_fault(N + 1);
        sim::event("types: walk %s, failure at %d",
                   how == 0 ? "members" : "non-members", k);
        std::vector<u32> t{};
        u32 seen{};
        auto const o = elem::attempt(k, [&] {
            seen = how == 0
                       ? x.b->for_each(visitor{&t}).calls
                       : x.b->template for_each<stdx::unset_bit>(visitor{&t})
                             .calls;
        });
        std::vector<u32> want{};
        for (u32 i = 0; i < N; ++i) {
            if (x.m[i] == (how == 0)) {
                want.push_back(i);
            }
        }
        if (o == elem::outcome::failed) {
            sim::require(k <= want.size(), "extra-visit", "visit %d", k);
            want.resize(k);
        } else {
            sim::require(seen == want.size(), "wrong-state",
                         "the returned function saw %d calls, expected %d",
                         seen, want.size());
        }
        sim::require(t == want, "wrong-visit",
                     "%d types visited, expected %d (or others)", t.size(),
                     want.size());
        sim::nontrivial();
    }
    static void history() {
        sim::configure({});
        slot a{};
        slot b{};
        for (u32 i = 0; sim::more(i, 8); ++i) {
            if (sim::flip(1, 2)) {
                change(a, b);
            } else {
                change(b, a);
            }
            if (sim::flip(1, 3)) {
                walk(a);
            }
        }
        walk(a);
        look(a);
        look(b);
        bool const eq = sim::sut([&] { return *a.b == *b.b; });
        sim::require(eq == (a.m == b.m), "wrong-equality", "comparison says %d",
                     eq);
    }
};

// -------------------------------------------------------------- dispatch
enum struct small_enum : std::uint8_t { a, b, c, d, MAX = 4 };
enum struct big_enum : std::uint16_t { a, b, MAX = 77 };

using fn = void (*)();
using u8 = std::uint8_t;
using u16 = std::uint16_t;
#define ALL_WORLDS(f)                                                          \
    world<std::size_t{5}>::f, world<std::size_t{0}>::f,                        \
        world<std::size_t{1}>::f, world<std::size_t{8}>::f,                    \
        world<std::size_t{13}, u8>::f, world<std::size_t{16}, u8>::f,          \
        world<std::size_t{17}, u8>::f, world<std::size_t{40}, u8>::f,          \
        world<std::size_t{12}, u16>::f, world<std::size_t{33}, u16>::f,        \
        world<std::size_t{64}, u16>::f, world<std::size_t{31}>::f,             \
        world<std::size_t{32}>::f, world<std::size_t{63}>::f,                  \
        world<std::size_t{64}>::f, world<std::size_t{65}>::f,                  \
        world<std::size_t{100}, u32>::f, world<std::size_t{128}>::f,           \
        world<std::size_t{130}, u64>::f, world<std::size_t{20}, u64>::f,       \
        world<std::size_t{7}, u32>::f, world<small_enum::MAX>::f,              \
        world<big_enum::MAX, u8>::f, world<big_enum::MAX>::f,                  \
        world<std::size_t{600}>::f, world<std::size_t{275}, u8>::f,            \
        world<std::size_t{257}, u16>::f

constexpr fn histories[] = {ALL_WORLDS(history)};
constexpr fn allocators[] = {ALL_WORLDS(allocator)};

void history() { histories[sim::choose(std::size(histories))](); }
void allocator() { allocators[sim::choose(std::size(allocators))](); }
void types() {
    switch (sim::choose(4)) {
    case 0:
        return types_world<tag<0>, tag<1>, tag<2>>::history();
    case 1:
        return types_world<tag<0>>::history();
    case 2:
        return types_world<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>,
                           tag<6>, tag<7>, tag<8>, tag<9>>::history();
    default:
        return types_world<tag<0>, tag<0>, tag<1>, tag<2>, tag<1>,
                           tag<3>>::history();
    }
}

sim::scenario const scenarios[] = {
    {"histories", 6, history},
    {"slot_allocator", 1, allocator},
    {"type_sets", 1, types},
};
} // namespace

sim::property_def const sim::the_property = {
    "C20",
    "Each run draws one of 27 capacity/storage combinations (or a set of "
    "types), a history of up to 10 construct, set, reset, flip, range, "
    "whole-set, shift, complement and combination steps on two bitsets, and "
    "walks of members, non-members or all positions and reductions in "
    "between, a quarter of them with a visitor failing at the k-th visit; "
    "slot allocators hand out the lowest free position until full. Visits, "
    "membership, counts, conversions, equality and lowest free position are "
    "compared with one flag per position. Non-trivial: at least one walk or "
    "allocation round. Distinct: hash of all choices and results.",
    "stdx::bitset, stdx::type_bitset, for_each, transform_reduce",
    "visitors (may fail)",
    scenarios,
    3,
    8000000,
    36000000,
};
