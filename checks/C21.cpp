#include "../sim/rt.hpp"

#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/bitset.hpp>
#include <stdx/byterator.hpp>
#include <stdx/cached.hpp>
#include <stdx/call_by_need.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/iterator.hpp>
#include <stdx/latched.hpp>
#include <stdx/numeric.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/span.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <array>
#include <functional>
#include <memory>
#include <vector>

namespace {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

enum struct tok : u8 { none = 255 };
} // namespace

template <> struct stdx::tombstone_traits<tok> {
    constexpr auto operator()() const { return tok::none; }
};

namespace {
constexpr auto fold(u64 h, u64 v) -> u64 {
    return (h ^ v) * 0x100000001b3ull + (h >> 29);
}

void draw_schedule() {
    sim::sched_config sc{};
    u32 const gaps[] = {0, 2, 5, 12, 40};
    sc.mean_gap = gaps[sim::choose(5)];
    sc.mode = sim::flip(1, 4) ? sim::sched::interrupts : sim::sched::threads;
    sim::configure(sc);
}

// --------------------------------------------------------- shared readers
struct node {
    int value{};
    node *prev{};
    node *next{};
};

struct compute {
    u64 seed;
    auto operator()() const -> u64 { return seed * 3 + 1; }
};

// a large number
struct large {
    int v{};
    std::array<u8, 92> load{};
    large() = default;
    explicit(false) large(int x) : v{x} { load[91] = static_cast<u8>(x); }
    auto operator==(large const &o) const -> bool {
        return v == o.v and load[91] == o.load[91];
    }
};
auto raw(large const &x) -> u64 { return static_cast<u64>(x.v); }
auto raw(u64 x) -> u64 { return x; }
struct compute_large {
    int seed;
    auto operator()() const -> large { return large{seed + 7}; }
};

struct shared_world {
    using vec = stdx::cx_vector<int, 8>;
    using map = stdx::cx_map<int, int, 6>;
    using set = stdx::cx_set<int, 6>;
    using multi = stdx::cx_multimap<int, int, 4, 3>;
    using que = stdx::cx_queue<int, 5>;
    using bits = stdx::bitset<21, u8>;
    using types = stdx::type_bitset<int, char, long, bool>;
    using tup = stdx::tuple<int, u64, vec>;
    using opt = stdx::optional<tok>;
    using roll = stdx::rollover_t<u8>;

    sim::box<vec> v{sim::make_default<vec>()};
    sim::box<map> m{sim::make_default<map>()};
    sim::box<set> s{sim::make_default<set>()};
    sim::box<multi> mm{sim::make_default<multi>()};
    sim::box<que> q{sim::make_default<que>()};
    sim::box<bits> b{};
    sim::box<types> tb{};
    sim::box<tup> t{};
    sim::box<opt> o{};
    sim::box<stdx::latched<compute>> la{};
    sim::box<stdx::cached<compute>> ca{};
    sim::box<roll> r{};
    sim::box<std::array<int, 8>> data{sim::make_default<std::array<int, 8>>()};
    sim::box<stdx::span<int const>> view{};
    sim::box<stdx::span<int, 8>> fixed_view{};
    sim::box<stdx::byterator<int const>> bytes{};
    sim::box<stdx::counting_iterator<u32>> counter{};
    std::vector<sim::box<node>> nodes{};
    sim::box<stdx::intrusive_list<node>> list{
        sim::make_default<stdx::intrusive_list<node>>()};
    std::vector<sim::box<node>> fnodes{};
    sim::box<stdx::intrusive_forward_list<node>> flist{
        sim::make_default<stdx::intrusive_forward_list<node>>()};

    shared_world() {
        u32 const seed = sim::choose(97);
        u32 const n = sim::choose(7);
        sim::event("contents from %d, %d items", seed, n);
        b = sim::make<bits>(u64{seed} * 0x10301 + n);
        tb = sim::make<types>(u64{seed} & 15u);
        o = sim::make<opt>(static_cast<tok>(seed));
        la = sim::make<stdx::latched<compute>>(compute{seed});
        ca = sim::make<stdx::cached<compute>>(compute{seed + 1});
        static_cast<void>(la->value());
        static_cast<void>(ca->value());
        r = sim::make<roll>(static_cast<u8>(seed * 5));
        for (u32 i = 0; i < n; ++i) {
            int const x = static_cast<int>((seed + i * 7) % 11);
            v->push_back(x);
            if (i < 6) {
                m->put(x, x * 2);
                s->insert(x);
            }
            if (i < 5) {
                q->push(x);
            }
            if (i < 4) {
                mm->put(static_cast<int>(i % 2), x);
            }
            nodes.push_back(sim::make<node>(node{x}));
            list->push_back(nodes.back().get());
            fnodes.push_back(sim::make<node>(node{x + 1}));
            flist->push_back(fnodes.back().get());
        }
        for (u32 i = 0; i < 8; ++i) {
            (*data)[i] = static_cast<int>(seed + i * i);
        }
        view = sim::make<stdx::span<int const>>(data->data(), n);
        fixed_view = sim::make<stdx::span<int, 8>>(*data);
        bytes = sim::make<stdx::byterator<int const>>(
            static_cast<int const *>(data->data()));
        counter = sim::make<stdx::counting_iterator<u32>>(
            stdx::counting_iterator<u32>{seed});
        t = sim::make<tup>(tup{static_cast<int>(seed), u64{n}, *v});
    }

    // Calls beyond the everyday ones: they read the shared objects, and
    // modify only copies of their own.
    struct hands_on {
        shared_world const &w;
        static constexpr u32 questions = 24;
        auto ask(u32 which, u32 arg) const -> u64;
    };

    static constexpr u32 questions = 26 + hands_on::questions;

    // one non-modifying call (or a few related ones) on a shared object
    auto ask(u32 which, u32 arg) const -> u64 {
        u64 h = which;
        int const key = static_cast<int>(arg % 11);
        auto const put = [&](u64 x) { h = fold(h, x); };
        auto const &cv = *v;
        auto const &cm = *m;
        auto const &cs = *s;
        auto const &cmm = *mm;
        auto const &cq = *q;
        auto const &cb = *b;
        auto const &ct = *t;
        auto const &co = *o;
        if (which >= 26) {
            return hands_on{*this}.ask(which - 26, arg);
        }
        switch (which) {
        case 0:
            put(cv.size());
            put(cv.empty());
            put(cv.full());
            break;
        case 1:
            for (auto const &x : cv) {
                put(static_cast<u64>(x));
            }
            break;
        case 2:
            for (auto i = cv.rbegin(); i != cv.rend(); ++i) {
                put(static_cast<u64>(*i));
            }
            break;
        case 3:
            if (not cv.empty()) {
                put(static_cast<u64>(cv[arg % cv.size()]));
                put(static_cast<u64>(cv.front()));
                put(static_cast<u64>(cv.back()));
            }
            break;
        case 4:
            put(cm.contains(key));
            put(cm.contains(key) ? static_cast<u64>(cm.get(key)) : 0u);
            put(cm.size());
            break;
        case 5:
            for (auto const &e : cm) {
                put(static_cast<u64>(e.key));
                put(static_cast<u64>(e.value));
            }
            break;
        case 6:
            put(cs.contains(key));
            put(cs.size());
            put(cs.empty());
            break;
        case 7:
            for (auto const &x : cs) {
                put(static_cast<u64>(x));
            }
            break;
        case 8:
            put(cmm.contains(key % 3));
            put(cmm.contains(key % 3, key));
            put(cmm.size());
            if (cmm.contains(key % 3)) {
                for (auto const &x : cmm.get(key % 3)) {
                    put(static_cast<u64>(x));
                }
            }
            break;
        case 9:
            put(cq.size());
            put(cq.full());
            if (not cq.empty()) {
                put(static_cast<u64>(cq.front()));
                put(static_cast<u64>(cq.back()));
            }
            break;
        case 10:
            put(cb.count());
            put(cb.any());
            put(cb[arg % 21]);
            put(cb.template to<u32>());
            break;
        case 11:
            put(stdx::to_underlying(cb.lowest_unset()));
            stdx::for_each<stdx::set_bit>([&](auto i) { put(i); }, cb);
            stdx::for_each<stdx::unset_bit>([&](auto i) { put(i); }, cb);
            break;
        case 12:
            put((cb | (cb << 3)).count());
            put((~cb).template to<u32>());
            put(cb == cb);
            put(transform_reduce([](auto i) { return u64{i}; },
                                 [](u64 x, u64 y) { return x + y; }, u64{},
                                 cb));
            break;
        case 13:
            put((*std::as_const(tb))[stdx::type_identity_v<char>]);
            tb->for_each([&]<typename T, auto I>() { put(I); });
            break;
        case 14:
            put(static_cast<u64>(get<0>(ct)));
            put(get<1>(ct));
            put(get<2>(ct).size());
            break;
        case 15:
            stdx::for_each(
                [&](auto const &e) {
                    if constexpr (requires { e.size(); }) {
                        put(e.size());
                    } else {
                        put(static_cast<u64>(e));
                    }
                },
                ct);
            break;
        case 16: {
            auto const copy = ct;
            put(get<2>(copy) == get<2>(ct));
            put(ct.apply([](auto const &...es) { return sizeof...(es); }));
            break;
        }
        case 17:
            put(co.has_value());
            put(static_cast<u64>(*co));
            put(static_cast<u64>(
                co.transform([](tok) { return tok{17}; }).value()));
            put(co == co);
            break;
        case 18:
            put(*std::as_const(*la));
            put(la->has_value());
            put(std::as_const(*ca).value());
            break;
        case 19: {
            auto const x = *std::as_const(r);
            put(x.as_underlying());
            put((x + shared_world::roll{static_cast<u8>(arg)}).as_underlying());
            put(cmp_less(x, shared_world::roll{static_cast<u8>(arg)}));
            break;
        }
        case 20: {
            auto const sp = stdx::span<int const, 8>{*data};
            put(static_cast<u64>(sp[arg % 8]));
            for (auto x : sp.subspan(arg % 8)) {
                put(static_cast<u64>(x));
            }
            put(static_cast<u64>(sp.last<2>().front()));
            break;
        }
        case 21: {
            auto it = stdx::byterator{std::as_const(*data).data()};
            it += arg % 20;
            put(it.peek<u32>());
            put(it.read<u16>());
            put(it.readu8());
            put(static_cast<u64>(*it));
            break;
        }
        case 22:
            for (auto const &x : std::as_const(*list)) {
                put(static_cast<u64>(x.value));
            }
            put(list->empty());
            break;
        case 23:
            for (auto const &x : std::as_const(*flist)) {
                put(static_cast<u64>(x.value));
            }
            if (not flist->empty()) {
                put(static_cast<u64>(std::as_const(*flist).front().value));
                put(static_cast<u64>(std::as_const(*list).back().value));
            }
            break;
        case 24: {
            auto const &d = *data;
            stdx::for_each(d.begin(), d.end(),
                           [&](int x) { put(static_cast<u64>(x)); });
            put(static_cast<u64>(stdx::transform_reduce_n(
                d.begin(), 1 + arg % 7, 0, [](int x, int y) { return x + y; },
                [](int x) { return 2 * x; })));
            break;
        }
        default: {
            vec copy{cv};
            copy.push_back(1);
            put(copy.size());
            put(copy == cv);
            set const sc{cs};
            put(sc.size());
            map const mc{cm};
            put(mc.size());
            break;
        }
        }
        return h;
    }
};

constexpr auto weigh = [](u32 x, u32 y, u32 z) -> u32 {
    return x * 10007 + y * 101 + z;
};
struct weigh_any {
    auto operator()(u32 x, u32 y, u32 z) const -> u32 { return weigh(x, y, z); }
};
template <typename T> using kind_of = std::remove_cvref_t<T>;
template <typename T> using is_small = std::bool_constant<(sizeof(T) < 4)>;

auto shared_world::hands_on::ask(u32 which, u32 arg) const -> u64 {
    u64 h = which;
    auto const put = [&](auto x) { h = fold(h, static_cast<u64>(x)); };
    auto const &cv = *std::as_const(w.v);
    auto const &cs = *std::as_const(w.s);
    auto const &cm = *std::as_const(w.m);
    auto const &cmm = *std::as_const(w.mm);
    auto const &cb = *std::as_const(w.b);
    auto const &ct = *std::as_const(w.t);
    auto const &co = *std::as_const(w.o);
    auto const &cl = *std::as_const(w.list);
    auto const &cf = *std::as_const(w.flist);
    auto const &cd = *std::as_const(w.data);
    switch (which) {
    case 22: { // looking through access that would allow changes
        auto &nv = const_cast<vec &>(cv);
        for (auto &x : nv) {
            put(x);
        }
        for (auto i = nv.rbegin(); i != nv.rend(); ++i) {
            put(*i);
        }
        if (nv.size() > 1) {
            put(nv.front());
            put(nv.back());
            put(nv[arg % nv.size()]);
            put(get<1>(nv));
        }
        for (auto &x : const_cast<set &>(cs)) {
            put(x);
        }
        auto &nm = const_cast<map &>(cm);
        for (auto &e : nm) {
            put(e.value);
            put(nm.get(e.key));
        }
        auto &nmm = const_cast<multi &>(cmm);
        for (auto &e : nmm) {
            put(nmm.get(e.key).size());
        }
        auto &nq = const_cast<que &>(*std::as_const(w.q));
        if (not nq.empty()) {
            put(nq.front());
            put(nq.back());
        }
        auto &nl = const_cast<stdx::intrusive_list<node> &>(cl);
        for (auto &x : nl) {
            put(x.value);
        }
        auto &nf = const_cast<stdx::intrusive_forward_list<node> &>(cf);
        for (auto &x : nf) {
            put(x.value);
        }
        put(get<1>(const_cast<tup &>(ct)));
        put(*const_cast<opt &>(co));
        break;
    }
    case 23: { // shared views and cursors
        auto const &sp = *std::as_const(w.view);
        auto const &fx = *std::as_const(w.fixed_view);
        put(sp.size());
        put(sp.size_bytes());
        put(sp.data() == fx.data());
        if (not sp.empty()) {
            put(sp.front());
            put(sp.back());
            put(sp[arg % sp.size()]);
            put(sp.last(1).front());
            put(sp.first(1).back());
            put(sp.subspan(arg % sp.size()).size());
            put(*sp.rbegin());
            put(*sp.crbegin());
        }
        for (auto x : sp) {
            put(x);
        }
        for (auto i = fx.rbegin(); i != fx.rend(); ++i) {
            put(*i);
        }
        put(fx.front());
        put(fx.back());
        put(fx[arg % 8]);
        put(get<3>(fx));
        put(fx.subspan<2, 3>().size());
        put(fx.last<2>().front());
        put(std::to_integer<u8>(stdx::as_bytes(fx)[arg % 32]));
        stdx::span<int const> const taken{fx};
        put(taken.back());
        auto const &b = *std::as_const(w.bytes);
        put(std::to_integer<u8>(*b));
        put(std::to_integer<u8>(b[static_cast<std::ptrdiff_t>(arg % 32)]));
        put(*std::to_address(b.operator->()) == std::byte{});
        auto c = b + static_cast<std::ptrdiff_t>(arg % 24);
        put(c - b);
        put(c == b);
        put(c < b);
        put(c.read<u32>());
        auto const &n = *std::as_const(w.counter);
        put(*n);
        put(*(n + 5u));
        put((n + 5u) - n);
        put(n == n + 1u);
        put(n < n + 1u);
        break;
    }
    case 0: { // vector
        for (auto i = cv.cbegin(); i != cv.cend(); ++i) {
            put(*i);
        }
        for (auto i = cv.crbegin(); i != cv.crend(); ++i) {
            put(*i);
        }
        auto c = cv;
        if (c.size() > 1) {
            put(cv.get<0>());
            put(get<1>(cv));
            c.get<1>() = static_cast<int>(arg);
            get<0>(c) = 2;
            c.front() += 1;
            c.back() += 2;
            c.rbegin()[1] += 3;
            put(c.rend() - c.rbegin());
            for (auto &x : c) {
                x *= 2;
            }
        }
        if (not c.full()) {
            int const y = 3;
            c.push_back(y);
        }
        for (auto i = c.begin(); i != c.end(); ++i) {
            put(*i);
        }
        put(vec{1, 2, static_cast<int>(arg)} == c);
        break;
    }
    case 1: { // sets and maps
        for (auto i = cs.cbegin(); i != cs.cend(); ++i) {
            put(*i);
        }
        for (auto i = cm.cbegin(); i != cm.cend(); ++i) {
            put(i->key);
        }
        auto c = cs;
        if (c.size() < 5) {
            put(c.insert(static_cast<int>(arg)));
            c.merge(set{static_cast<int>(arg)});
        }
        for (auto &x : c) {
            put(x);
        }
        auto d = cm;
        if (not d.full()) {
            int const k = static_cast<int>(arg);
            int const y = 5;
            put(d.put(k, y));
            d.get(k) += 1;
        }
        for (auto &e : d) {
            put(e.value);
        }
        put(d.empty());
        break;
    }
    case 2: { // multimaps
        for (auto i = cmm.cbegin(); i != cmm.cend(); ++i) {
            put(i->key);
        }
        for (auto const &e : cmm) {
            put(e.value.size());
        }
        put(cmm.empty());
        auto c = cmm;
        c.insert(static_cast<int>(arg % 3));
        c.put(static_cast<int>(arg % 2));
        for (auto &e : c) {
            put(e.key);
        }
        if (c.contains(0)) {
            put(c.get(0).size());
        }
        break;
    }
    case 3: { // queues
        stdx::cx_queue<u8, 3, stdx::unsafe_overflow_policy> q{};
        u8 const x = static_cast<u8>(arg);
        q.push(x);
        q.push(u8{7});
        put(q.pop());
        q.front() = 9;
        q.push(x);
        std::as_const(q).back() == x ? put(1) : put(0);
        put(q.pop());
        put(q.size());
        auto c = *std::as_const(w.q);
        if (not c.full()) {
            int const y = 5;
            c.push(y);
        }
        put(c.back());
        break;
    }
    case 4: { // lists
        auto const e = cl.cend();
        for (auto i = cl.cbegin(); i != e; i++) {
            auto const j = i;
            put(j->value);
            put((*j).value);
            put(i->value);
        }
        if (not cl.empty()) {
            put(cl.front().value);
        }
        auto const fe = cf.cend();
        for (auto i = cf.cbegin(); i != fe; i++) {
            auto const j = i;
            put(j->value);
            put((*j).value);
            put(i->value);
        }
        if (not cf.empty()) {
            put(cf.back().value);
        }
        break;
    }
    case 5: { // lists of one's own
        std::array<node, 4> ns{};
        for (u32 i = 0; i < 4; ++i) {
            ns[i].value = static_cast<int>(arg + i);
        }
        stdx::intrusive_list<node> l{};
        l.push_back(&ns[0]);
        l.insert(l.begin(), &ns[1]);
        l.insert(l.end(), &ns[2]);
        l.insert(++l.begin(), &ns[3]);
        for (auto i = l.begin(); i != l.end(); i++) {
            put(i->value);
        }
        put(l.pop_back()->value);
        l.clear();
        stdx::intrusive_list<node, stdx::node_policy::unchecked> ul{};
        for (auto &n : ns) {
            n = {n.value};
        }
        ul.push_back(&ns[0]);
        ul.push_front(&ns[1]);
        ul.insert(++ul.begin(), &ns[2]);
        put(ul.pop_front()->value);
        put(ul.pop_back()->value);
        ul.clear();
        stdx::intrusive_forward_list<node, stdx::node_policy::unchecked> uf{};
        for (auto &n : ns) {
            n = {n.value};
        }
        uf.push_back(&ns[0]);
        uf.push_front(&ns[1]);
        put(uf.pop_front()->value);
        put(uf.back().value);
        for (auto i = uf.begin(); i != uf.end(); i++) {
            put(i->value);
        }
        uf.clear();
        put(uf.empty());
        break;
    }
    case 6: { // bit sets
        bits const other{stdx::place_bits, 1, 4, arg % 21};
        bits const full{stdx::all_bits};
        bits const text{"10110", 1, 3};
        put((cb & other).to_natural());
        put((cb ^ full).to_natural());
        put((cb - other).to_natural());
        put((cb >> arg % 21).to_natural());
        put(text.size());
        put(cb.empty());
        put(cb.all());
        put(cb.none());
        auto c = cb;
        c.set();
        c.reset(arg % 21);
        c.reset(stdx::lsb_t{2}, stdx::msb_t{5});
        c.reset(stdx::lsb_t{6}, stdx::length_t{3});
        c.set(stdx::lsb_t{3}, stdx::length_t{2});
        c.flip(arg % 7);
        c &= full;
        c |= text;
        c = c - other;
        put(c.count());
        c.clear();
        c.set(arg % 21, false);
        put(c.to<u32>());
        break;
    }
    case 7: { // bits: summed, named
        bits const other{u64{arg} * 0x1111};
        put(transform_reduce([](auto i) { return u64{i} * 3; },
                             [](u64 x, u64 y) { return x + y; }, u64{}, other));
        enum struct flag : u8 { a, b, c, MAX };
        stdx::bitset<flag::MAX> f{};
        f.set(flag::b);
        f.flip(flag::c);
        f.reset(flag::b);
        put(f[flag::c]);
        put(f.to_natural());
        break;
    }
    case 8: { // sets of types
        auto const &c = *std::as_const(w.tb);
        types x{stdx::type_list<int, bool>{}};
        types const y{stdx::all_bits};
        put(c == x);
        put((c | x).to_natural());
        put((c & x).to<u8>());
        put((c ^ y).count());
        put((y - x).size());
        put((~c).any());
        put(c.all());
        put(c.none());
        put(c.empty());
        x.set<char>();
        x.set<long>(false);
        x.reset<int>();
        x.flip<bool>();
        put(x.to_natural());
        x.flip();
        x |= c;
        x &= y;
        x ^= c;
        put(x.to_natural());
        x.set();
        x.reset();
        x.set();
        x.clear();
        put(x.to_natural());
        break;
    }
    case 9: { // optional: reading
        opt const none{};
        opt const other{static_cast<tok>(arg)};
        put(co.operator->() == &*co);
        put(co.value_or(tok{3}));
        put(none.value_or(tok{3}));
        put(opt{other}.value_or(tok{4}));
        put(std::move(co).value());
        put(*std::move(co));
        put(*opt{other});
        put(opt{other}.value());
        put(co < other);
        put(co <= other);
        put(co > other);
        put(co >= other);
        put(none == opt{std::nullopt});
        put(static_cast<bool>(none));
        auto const next = [](tok t) { return opt{tok(u8(t) / 2)}; };
        put(*co.and_then(next));
        put(*std::move(co).and_then(next));
        put(*opt{other}.and_then(next));
        put(*(co | next));
        put(*(std::move(co) | next));
        put(*(opt{other} | next));
        put(*none.or_else([&] { return other; }));
        put(*opt{}.or_else([&] { return other; }));
        put(stdx::transform([](tok a, tok b) { return tok(u8(a) ^ u8(b)); }, co,
                            other)
                .has_value());
        break;
    }
    case 10: { // optional: other types, one's own
        auto const half = [](auto x) { return x / 2; };
        stdx::optional<float> f{static_cast<float>(arg)};
        put(*f.transform(half));
        put(*stdx::optional<float>{3.f}.transform(half));
        auto const fc = f;
        put(*fc.transform(half));
        put(*std::move(fc).transform(half));
        f.reset();
        put(f.has_value());
        stdx::optional<int const *> p{};
        put(p.has_value());
        p = cd.data();
        put(**p);
        stdx::optional<int, stdx::tombstone_value<-1>> i{};
        put(i.has_value());
        i = 5;
        i.emplace(6);
        put(*i);
        put(i.value());
        stdx::optional<std::pair<float, double>> t{};
        put(t.has_value());
        t.emplace(1.f, 2.);
        put(*t.transform([](float a, double b) { return a + b; }));
        put(t->second);
        stdx::optional<tok> o{tok{3}};
        auto const same = [](tok x) { return opt{x}; };
        put(*o.and_then(same));
        put(*(o | same));
        *o.operator->() = tok{4};
        o.value() = tok(u8(*o) + 1);
        put(*o);
        o = std::nullopt;
        put(o.has_value());
        break;
    }
    case 11: { // counters
        auto x = *std::as_const(w.r);
        roll const y{static_cast<u8>(arg + 1)};
        put(static_cast<u8>(x));
        put((+x).as_underlying());
        put((-x).as_underlying());
        put((x++).as_underlying());
        put((x--).as_underlying());
        put((--x).as_underlying());
        put((++x).as_underlying());
        put((x - y).as_underlying());
        put((x * y).as_underlying());
        put((x / y).as_underlying());
        put((x % y).as_underlying());
        x *= y;
        x -= y;
        x += y;
        x /= y;
        x %= y;
        put(x == y);
        put(x != y);
        put(stdx::rollover_t<u32>{y}.as_underlying());
        break;
    }
    case 12: { // values computed once
        auto const &l = *std::as_const(w.la);
        put(static_cast<bool>(l));
        put(*l.operator->());
        put(*std::move(l));
        put(std::move(l).value());
        stdx::latched<compute> const mine{compute{arg}};
        put(mine.has_value());
        put(*mine);
        stdx::cached<compute> again{compute{arg}};
        put(*again);
        again.reset();
        put(again.refresh());
        compute const kept{arg + 1};
        put(stdx::latched<compute>{kept}.value());
        break;
    }
    case 13: { // views
        stdx::span<int const> const sp{cd};
        stdx::span<int const, 8> const fx{cd};
        put(sp.size_bytes());
        put(fx.size_bytes());
        put(sp.empty());
        for (auto i = sp.cbegin(); i != sp.cend(); ++i) {
            put(*i);
        }
        for (auto i = sp.rbegin(); i != sp.rend(); ++i) {
            put(*i);
        }
        for (auto i = fx.crbegin(); i != fx.crend(); ++i) {
            put(*i);
        }
        put(sp.back());
        put(fx.first<3>().back());
        put(sp.first(1 + arg % 8).back());
        put(sp.last(1 + arg % 8).front());
        put(fx.subspan<2>().front());
        put(fx.subspan<2, 3>().back());
        put(sp.subspan<1>().size());
        put(get<3>(fx));
        put(std::to_integer<u8>(stdx::as_bytes(fx)[arg % 32]));
        put(std::to_integer<u8>(stdx::as_bytes(sp)[arg % 32]));
        std::array<int, 3> mine{1, 2, 3};
        stdx::span<int, 3> ms{mine};
        stdx::as_writable_bytes(ms)[0] = std::byte{5};
        stdx::as_writable_bytes(stdx::span<int>{ms})[4] = std::byte{6};
        put(mine[0] + mine[1]);
        int arr[4] = {1, 2, 3, 4};
        put(stdx::span<int, 4>{arr}.back());
        put(stdx::span<int const>{ms}.back());
        put(stdx::span{cd.data(), arg % 8}.size());
        put(stdx::span<int const>{cv}.size());
        break;
    }
    case 14: { // byte iterators
        auto const b = stdx::byterator{cd.data()};
        auto i = b + 3;
        auto const j = 2 + b;
        put(i == j);
        put(i != j);
        put(i < j);
        put(i <= j);
        put(i > j);
        put(i >= j);
        put(i - j);
        put(std::to_integer<u8>(i[1]));
        put(std::to_integer<u8>(j[1]));
        put(std::to_integer<u8>(*j.operator->()));
        ++i;
        put(std::to_integer<u8>(*i++));
        --i;
        put(std::to_integer<u8>(*i--));
        i -= 1;
        put(std::to_integer<u8>(*(i - 1)));
        put(i.peeku8());
        i.advanceu8();
        put(i.readu8());
        put(i.peeku16());
        i.advanceu16();
        put(i.readu16());
        put(i.peeku32());
        i.advanceu32();
        put(i.readu32());
        i.advance_to_alignment<u32>();
        put(i.peeku64());
        i = b;
        i.advanceu64();
        put(i.readu64());
        put(i - b);
        u32 cell[2] = {arg, 1};
        auto wr = stdx::byterator{cell};
        wr.writeu8(3);
        wr.writeu8(4);
        wr.writeu16(5);
        wr.writeu32(6);
        put(cell[0]);
        wr = stdx::byterator{cell};
        wr.writeu64(arg);
        wr -= 4;
        wr.write(u16{7});
        wr.write(u8{7});
        *wr = std::byte{1};
        put(cell[1]);
        break;
    }
    case 15: { // bound callables
        u32 const a = arg;
        auto f = stdx::bind_front(weigh_any{}, a);
        auto g = stdx::bind_back(weigh_any{}, a, 3u);
        auto k = stdx::bind_front<weigh>(a, 2u);
        auto l = stdx::bind_back<weigh>(a);
        put(std::as_const(f)(1u, 2u));
        put(f(2u, 3u));
        put(std::as_const(g)(1u));
        put(g(2u));
        put(std::as_const(k)(1u));
        put(k(2u));
        put(std::as_const(l)(1u, 2u));
        put(l(2u, 3u));
        put(std::move(f)(3u, 4u));
        put(std::move(g)(3u));
        put(std::move(k)(3u));
        put(std::move(l)(3u, 4u));
        stdx::with_result_of const d{[&] { return a + 1; }};
        u32 const made = d;
        put(made);
        stdx::with_result_of e{[&] { return a + 2; }};
        u32 const again = e;
        put(again);
        put(stdx::unary_plus<>{}(a));
        put(stdx::unary_plus<u32>{}(a));
        put(stdx::safe_identity(a));
        put(stdx::dereference<>{}(&a));
        put(stdx::dereference<u32 const *>{}(&a));
        break;
    }
    case 16: { // algorithms
        std::array<int, 8> out{};
        auto const plus = [](int x, int y) { return x + y; };
        stdx::transform_n(cd.begin(), arg % 9, out.begin(), plus, cd.begin());
        stdx::transform(cd.begin(), cd.end(), out.begin(), plus, out.begin());
        for (auto x : out) {
            put(x);
        }
        stdx::for_each_butlastn(cl.begin(), cl.end(), 2,
                                [&](auto const &n) { put(n.value); });
        stdx::for_each_butlastn(cd.begin(), cd.end(), arg % 9,
                                [&](int x) { put(x); });
        stdx::for_each_n(cd.begin(), arg % 9, [&](int x) { put(x); });
        stdx::initial_medial_final(
            cd.begin(), cd.begin() + arg % 9, [&](int x) { put(x + 1); },
            [&](int x) { put(x + 2); }, [&](int x) { put(x + 3); });
        put(stdx::transform_reduce(
            cd.begin(), cd.end(), 0, plus, [](int x, int y) { return x * y; },
            out.begin()));
        put(stdx::transform_reduce_n(
            cd.begin(), 3, 0, plus, [](int x, int y) { return x * y; },
            out.begin()));
        put(stdx::saturate_cast<u8>(cd[arg % 8] * 3));
        put(stdx::saturate_cast<std::int8_t>(cd[arg % 8] - 20));
        stdx::for_each_n_args<3>(
            [&](int x, int y, int z) { put(x * 100 + y * 10 + z); }, 1, 2, 3,
            cd[0], cd[1], cd[2]);
        stdx::for_each_n_args([&](int x, int y) { put(x * 10 + y); }, cd[0],
                              cd[1], cd[2], cd[3]);
        break;
    }
    case 17: { // tuples
        auto const plus = [](auto x, auto y) { return u64{x} + u64{y}; };
        stdx::tuple<u8, u16, u32> const t{u8{1}, u16{2}, arg};
        auto c = t;
        put(t.fold_left(u64{}, plus));
        put(stdx::tuple{c}.fold_left(u64{}, plus));
        put(t.fold_right(u64{}, plus));
        put(stdx::tuple{c}.fold_right(u64{}, plus));
        stdx::tuple<u32, u32> const same{arg, 7u};
        auto const cat = [](u32 x, u32 y) -> u32 { return x * 3 + y; };
        put(same.join(cat));
        put(same.join(0u, cat));
        put(stdx::tuple{same}.join(cat));
        put(stdx::tuple{same}.join(0u, cat));
        put(get<0>(t.tail()));
        put(get<1>(stdx::tuple{c}.tail()));
        put(get<u16>(t));
        get<u16>(c) = 9;
        put(get<u16>(stdx::tuple{c}));
        put(t == c);
        put(t < c);
        put(t >= c);
        put(get<0>(stdx::tuple{c}));
        put(stdx::make_tuple(arg, u8{3}) == stdx::tuple{arg, u8{3}});
        put(get<1>(stdx::forward_as_tuple(t, arg)));
        put(stdx::apply(weigh, t));
        put(stdx::apply(weigh, c));
        put(stdx::apply(weigh, stdx::tuple{c}));
        put(stdx::one_of{1u, 5u, 9u} == arg);
        auto const ix = stdx::make_indexed_tuple<kind_of>(u8{4}, arg);
        put(get<u32>(ix));
        put(get<u16>(stdx::apply_indices<kind_of>(t)));
        put(get<0>(stdx::transform<kind_of>([](auto x) { return x; }, ix)));
        put(ct == ct);
        break;
    }
    case 18: { // tuples: algorithms over several
        stdx::tuple<u8, u16, u32> const t{u8{1}, u16{2}, arg};
        stdx::tuple<u8, u8, u8> const s{u8{3}, u8{4}, u8{5}};
        std::array<u8, 3> const a{1, 2, static_cast<u8>(arg)};
        auto const two = [&](auto x, auto y) { put(x * 3u + y); };
        stdx::for_each(two, t, s);
        stdx::unrolled_for_each([&](auto x) { put(x); }, t);
        stdx::unrolled_for_each(two, a, a);
        stdx::enumerate([&]<auto I>(auto x) { put(x + I); }, t);
        stdx::unrolled_enumerate([&]<auto I>(auto x) { put(x + I); }, a);
        auto const big = [](auto x, auto y) { return x > 2u and y > 0u; };
        put(stdx::all_of(big, t, s));
        put(stdx::any_of(big, t, s));
        put(stdx::none_of(big, t, s));
        put(stdx::unrolled_all_of(big, a, a));
        put(stdx::unrolled_any_of(big, a, a));
        put(stdx::unrolled_none_of(big, a, a));
        put(get<2>(
            stdx::transform([](auto x, auto y) { return u32{x} * y; }, t, s)));
        put(stdx::apply([](auto... x) { return (0u + ... + x); }, t, s));
        put(stdx::apply([](auto... x) { return (0u + ... + x); }, t, a, s));
        break;
    }
    case 19: { // tuples: building and rearranging
        stdx::tuple<u8, u16, u32> const t{u8{1}, u16{2}, arg};
        stdx::tuple<u8, u8, u32> const s{u8{3}, u8{4}, 5u};
        auto const digest = [&](auto const &x) {
            stdx::for_each([&](auto y) { put(y); }, x);
        };
        digest(stdx::tuple_cat(t, s));
        digest(stdx::tuple_cat(stdx::tuple{t}, s, t));
        digest(stdx::tuple_cons(u8{7}, t));
        digest(stdx::tuple_snoc(t, u8{7}));
        digest(stdx::tuple_push_front(u8{8}, t));
        digest(stdx::tuple_push_back(t, u8{8}));
        digest(stdx::filter<is_small>(t));
        digest(stdx::sort(stdx::tuple_cat(t, s)));
        digest(stdx::unique(s));
        digest(stdx::to_sorted_set(stdx::tuple_cat(t, s)));
        digest(stdx::to_unsorted_set(stdx::tuple_cat(t, s)));
        stdx::for_each(digest, stdx::chunk(s));
        stdx::for_each(digest, stdx::chunk_by(stdx::tuple_cat(t, s)));
        stdx::for_each(digest, stdx::gather(stdx::tuple_cat(t, s)));
        stdx::for_each(digest, stdx::gather_by(stdx::tuple_cat(s, t)));
        stdx::for_each(digest, stdx::cartesian_product_copy(t, s));
        stdx::for_each(digest, stdx::cartesian_product(t, s));
        break;
    }
    case 20: { // picking arguments, building arrays, counting
        auto const r =
            stdx::call_by_need(stdx::tuple{[](u8 x) { return u32{x} + 1; },
                                           [](u16 x, u32 y) { return x * y; }},
                               stdx::tuple{u8{3}, u16{5}, arg});
        stdx::for_each([&](auto x) { put(x); }, r);
        for (auto x : stdx::make_array(arg, 2u, 3u)) {
            put(x);
        }
        for (auto x : stdx::make_array<3>([&]<auto I>() { return arg + I; })) {
            put(x);
        }
        auto i = stdx::counting_iterator{arg};
        auto const e = i + 3;
        for (; i != e; ++i) {
            put(*i);
        }
        put(i - e);
        put(*--i);
        put(*i++);
        put(*i--);
        i += 2;
        i -= 1;
        i.advance(3);
        put(*(2 + i) > *(i - 1));
        put(i < e);
        break;
    }
    default: { // copying and assigning whole objects
        bits b{};
        b = cb;
        put(b == cb);
        put(bits{b}.count());
        opt o{};
        o = co;
        put(o == co);
        set s{};
        s = cs;
        map m{};
        m = cm;
        multi mm{};
        mm = cmm;
        vec v{};
        v = cv;
        v = vec{v};
        que q{};
        q = *std::as_const(w.q);
        put(s.size() + m.size() + mm.size() + v.size() + q.size());
        tup t{};
        t = ct;
        t = tup{t};
        put(t == ct);
        std::swap(v, get<2>(t));
        put(v.size());
        break;
    }
    }
    return h;
}

// Larger objects of the same kinds, with large elements.
struct wide_world {
    using vec = stdx::cx_vector<large, 40>;
    using map = stdx::cx_map<large, large, 20>;
    using set = stdx::cx_set<large, 36>;
    using multi = stdx::cx_multimap<large, large, 18, 5>;
    using que = stdx::cx_queue<large, 33>;
    using bits = stdx::bitset<150>;
    using bytes = stdx::bitset<75, u8>;
    using types = stdx::type_bitset<int, char, long, bool, u8, u16, u32, float,
                                    double, large>;
    using tup =
        stdx::tuple<int, large, u64, u8, large, u16, u32, large, char, u64>;

    sim::box<vec> v{sim::make_default<vec>()};
    sim::box<map> m{sim::make_default<map>()};
    sim::box<set> s{sim::make_default<set>()};
    sim::box<multi> mm{sim::make_default<multi>()};
    sim::box<que> q{sim::make_default<que>()};
    sim::box<bits> b{sim::make_default<bits>()};
    sim::box<bytes> b8{sim::make_default<bytes>()};
    sim::box<types> tb{};
    sim::box<tup> t{};
    sim::box<stdx::latched<compute_large>> la{};
    sim::box<stdx::cached<compute_large>> ca{};
    sim::box<stdx::rollover_t<u64>> r{};
    std::vector<sim::box<node>> nodes{};
    sim::box<stdx::intrusive_list<node>> list{
        sim::make_default<stdx::intrusive_list<node>>()};
    std::vector<sim::box<node>> fnodes{};
    sim::box<stdx::intrusive_forward_list<node>> flist{
        sim::make_default<stdx::intrusive_forward_list<node>>()};

    wide_world() {
        u32 const seed = sim::choose(97);
        u32 const n = sim::choose(36);
        sim::event("large contents from %d, %d items", seed, n);
        int const base = static_cast<int>(seed);
        tb = sim::make<types>(u64{seed} * 9 & 1023u);
        la = sim::make<stdx::latched<compute_large>>(compute_large{base});
        ca = sim::make<stdx::cached<compute_large>>(compute_large{base + 1});
        static_cast<void>(la->value());
        static_cast<void>(ca->value());
        r = sim::make<stdx::rollover_t<u64>>(u64{seed} << 50);
        for (u32 i = 0; i < n; ++i) {
            int const x = (base + static_cast<int>(i) * 7) % 41;
            v->push_back(x);
            s->insert(x);
            b->set((seed * 3 + i * 11) % 150);
            b8->set((seed + i * 7) % 75);
            if (i < 20) {
                m->put(x, x * 2);
            }
            if (i < 33) {
                q->push(x);
            }
            mm->put(static_cast<int>(i % 17), x % 5);
            nodes.push_back(sim::make<node>(node{x}));
            list->push_back(nodes.back().get());
            fnodes.push_back(sim::make<node>(node{x + 1}));
            flist->push_back(fnodes.back().get());
        }
        t = sim::make<tup>(tup{base, large{base + 1}, u64{n}, u8{3},
                               large{base + 2}, u16{4}, u32{5}, large{base + 3},
                               'c', u64{6}});
    }

    static constexpr u32 questions = 16;

    auto ask(u32 which, u32 arg) const -> u64 {
        u64 h = which;
        large const key{static_cast<int>(arg % 41)};
        auto const put = [&](auto const &x) {
            if constexpr (std::is_same_v<decltype(x), large const &>) {
                h = fold(h, raw(x));
            } else {
                h = fold(h, static_cast<u64>(x));
            }
        };
        auto const &cv = *v;
        auto const &cm = *m;
        auto const &cs = *s;
        auto const &cmm = *mm;
        auto const &cq = *q;
        auto const &cb = *b;
        auto const &c8 = *b8;
        auto const &ct = *t;
        switch (which) {
        case 0:
            put(cv.size());
            put(cv.full());
            if (not cv.empty()) {
                put(cv[arg % cv.size()]);
                put(cv.front());
                put(cv.back());
            }
            for (auto const &x : cv) {
                put(x);
            }
            break;
        case 1: {
            auto c = cv;
            put(c == cv);
            if (not c.empty()) {
                put(c.pop_back());
            }
            c.push_back(key);
            put(c == cv);
            put(c.back());
            break;
        }
        case 2:
            put(cm.contains(key));
            if (cm.contains(key)) {
                put(cm.get(key));
            }
            put(cm.size());
            put(cm.full());
            break;
        case 3: {
            auto c = cm;
            if (c.contains(key) or not c.full()) {
                put(c.put(key, 5));
                put(c.get(key));
            }
            put(c.erase(key));
            for (auto const &e : c) {
                put(e.key);
                put(e.value);
            }
            break;
        }
        case 4:
            put(cs.contains(key));
            put(cs.size());
            for (auto const &x : cs) {
                put(x);
            }
            break;
        case 5: {
            auto c = cs;
            put(c.erase(key));
            put(c.insert(key));
            c.merge(set{large{1}, key});
            put(c.size());
            break;
        }
        case 6: {
            large const k{static_cast<int>(arg % 18)};
            put(cmm.contains(k));
            put(cmm.contains(k, large{static_cast<int>(arg % 5)}));
            if (cmm.contains(k)) {
                for (auto const &x : cmm.get(k)) {
                    put(x);
                }
            }
            put(cmm.size());
            break;
        }
        case 7: {
            auto c = cq;
            put(cq.size());
            if (not c.empty()) {
                put(cq.front());
                put(cq.back());
                put(c.pop());
            }
            c.push(key);
            put(c.back());
            break;
        }
        case 8:
            put(cb.count());
            put(cb[arg % 150]);
            put(cb.lowest_unset());
            put(cb.any());
            put(cb.all());
            put(cb == cb);
            stdx::for_each([&](auto i) { put(i); }, cb);
            break;
        case 9: {
            auto c = cb << arg;
            put((c | cb).count());
            put((~c & cb).count());
            c.set(stdx::lsb_t{arg}, stdx::msb_t{arg + 80});
            c.flip(arg + 1);
            put((c >> 70).count());
            put((c - cb).count());
            put(transform_reduce([](auto i) { return u64{i}; },
                                 [](u64 x, u64 y) { return x + y; }, u64{},
                                 cb));
            break;
        }
        case 10: {
            put(c8.count());
            put(c8[arg % 75]);
            put(c8.lowest_unset());
            stdx::for_each<stdx::unset_bit>([&](auto i) { put(i); }, c8);
            auto c = c8;
            c.reset(stdx::lsb_t{arg % 20}, stdx::msb_t{arg % 20 + 40});
            put((c ^ c8).count());
            break;
        }
        case 11:
            put((*std::as_const(tb))[stdx::type_identity_v<float>]);
            put(tb->count());
            tb->for_each([&]<typename T, auto I>() { put(I); });
            put((~*std::as_const(tb)).to_natural());
            break;
        case 12: {
            stdx::for_each(put, ct);
            put(ct == ct);
            auto const c = ct;
            put(get<7>(c));
            put(get<1>(c) == get<1>(ct));
            put(ct.fold_left(u64{}, [](u64 x, auto const &y) {
                if constexpr (requires { y.v; }) {
                    return x * 3 + raw(y);
                } else {
                    return x * 3 + static_cast<u64>(y);
                }
            }));
            stdx::for_each(put, stdx::tuple_cat(ct, ct));
            put(stdx::transform([](auto const &x) { return sizeof(x); }, ct)
                    .apply([](auto... n) { return (n + ...); }));
            break;
        }
        case 13: {
            put(*std::as_const(*la));
            put(std::as_const(*ca).value());
            stdx::cached<compute_large> mine{compute_large{3}};
            put(*mine);
            put(mine.refresh());
            break;
        }
        case 14: {
            auto const x = *std::as_const(r);
            stdx::rollover_t<u64> const y{u64{arg} << 58};
            put((x + y).as_underlying());
            put((x - y).as_underlying());
            put(cmp_less(x, y));
            stdx::rollover_t<u32> z{arg};
            z -= stdx::rollover_t<u32>{70u};
            put((z++).as_underlying());
            put(z.as_underlying());
            break;
        }
        default:
            for (auto const &x : std::as_const(*list)) {
                put(x.value);
            }
            for (auto const &x : std::as_const(*flist)) {
                put(x.value);
            }
            if (not list->empty()) {
                put(std::as_const(*list).front().value);
                put(std::as_const(*list).back().value);
                put(std::as_const(*flist).front().value);
                put(std::as_const(*flist).back().value);
            }
            break;
        }
        return h;
    }
};

template <typename World> void readers() {
    draw_schedule();
    World const w{};
    u32 const nt = 2 + sim::choose(2);
    struct job {
        u32 which;
        u32 arg;
        u64 want;
        u64 got;
    };
    std::vector<std::vector<job>> jobs(nt);
    // threads mostly work on the same few questions
    u32 const focus = sim::choose(World::questions);
    for (auto &js : jobs) {
        for (u32 i = 0; sim::more(i, 3); ++i) {
            u32 const which =
                sim::flip(1, 3) ? sim::choose(World::questions) : focus;
            u32 const arg = sim::choose(64);
            js.push_back({which, arg, 0, 0});
        }
    }
    for (auto &js : jobs) {
        for (auto &j : js) {
            j.want = sim::sut([&] { return w.ask(j.which, j.arg); });
            sim::event("question %d(%d): %x", j.which, j.arg, j.want);
        }
    }
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn(
            [&, t] {
                for (auto &j : jobs[t]) {
                    j.got = sim::sut([&] { return w.ask(j.which, j.arg); });
                    sim::event("T%d question %d(%d): %x", sim::self(), j.which,
                               j.arg, j.got);
                }
            },
            {static_cast<int>(t + 1), false});
    }
    sim::run_threads();
    for (auto &js : jobs) {
        for (auto &j : js) {
            sim::require(j.got == j.want, "wrong-answer",
                         "question %d(%d) gives %x when shared, %x alone",
                         j.which, j.arg, j.got, j.want);
        }
    }
    sim::nontrivial();
}

// ------------------------------------------------------- disjoint writers
using script = std::vector<std::pair<u32, u32>>; // (operation, argument)

auto draw_script(u32 max) -> script {
    script s{};
    for (u32 i = 0; sim::more(i, max); ++i) {
        u32 const op = sim::choose(8);
        u32 const arg = sim::choose(32);
        s.push_back({op, arg});
    }
    return s;
}

template <typename T> auto contents(T const &c) -> u64 {
    u64 h = c.size();
    for (auto const &x : c) {
        h = fold(h, raw(x));
    }
    return h;
}

// Each worker type runs a script on its own object; the digest must be what
// the script gives when it runs alone.
template <typename E, u32 N> struct on_vector {
    using T = stdx::cx_vector<E, N>;
    static auto run(T &v, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            switch (op) {
            case 0:
                v.clear();
                break;
            case 1:
                if (not v.empty()) {
                    h = fold(h, raw(v.pop_back()));
                }
                break;
            case 2:
                if (not v.empty()) {
                    v[arg % v.size()] = E(static_cast<u8>(arg));
                }
                break;
            case 3: {
                T const c{v};
                v = c;
                break;
            }
            case 4:
                resize_and_overwrite(v, [&](auto *p, auto n) {
                    for (u32 i = 0; i < 2; ++i) {
                        p[i] = E(static_cast<u8>(arg + i));
                    }
                    return n * 0 + 2;
                });
                break;
            default:
                if (not v.full()) {
                    v.push_back(E(static_cast<u8>(arg)));
                }
                break;
            }
            h = fold(h, contents(v));
        }
        return h;
    }
};
template <typename E, u32 N> struct on_map {
    using T = stdx::cx_map<E, E, N>;
    static auto run(T &m, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const k = E(static_cast<u8>(arg % (N + 2)));
            if (op == 0) {
                m.clear();
            } else if (op < 3) {
                h = fold(h, m.erase(k));
            } else if (op == 3 and not m.empty()) {
                h = fold(h, raw(m.pop_back().key));
            } else if (m.contains(k) or not m.full()) {
                h = fold(h, m.insert_or_assign(k, E(static_cast<u8>(arg))));
            }
            for (auto const &e : m) {
                h = fold(h, raw(e.key) * 256u + raw(e.value));
            }
        }
        return h;
    }
};
template <typename E, u32 N> struct on_set {
    using T = stdx::cx_set<E, N>;
    static auto run(T &m, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const k = E(static_cast<u8>(arg % (N + 2)));
            if (op == 0) {
                m.clear();
            } else if (op < 3) {
                h = fold(h, m.erase(k));
            } else if (op == 3 and not m.empty()) {
                h = fold(h, raw(m.pop_back()));
            } else if (m.contains(k) or m.size() < N) {
                h = fold(h, m.insert(k));
            }
            h = fold(h, contents(m));
        }
        return h;
    }
};
template <typename E, u32 N> struct on_multimap {
    using T = stdx::cx_multimap<E, E, N, 3>;
    static auto run(T &m, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const k = E(static_cast<u8>(arg % N));
            if (op == 0) {
                m.clear();
            } else if (op == 1) {
                h = fold(h, m.erase(k));
            } else if (op == 2) {
                h = fold(h, m.erase(k, E(static_cast<u8>(arg % 3))));
            } else {
                m.put(k, E(static_cast<u8>(arg % 3)));
            }
            h = fold(h, m.size());
            for (u8 i = 0; i < N; ++i) {
                if (m.contains(E(i))) {
                    h = fold(h, contents(m.get(E(i))));
                }
            }
        }
        return h;
    }
};
template <typename E, u32 N> struct on_queue {
    using T = stdx::cx_queue<E, N>;
    static auto run(T &q, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            if (op == 0) {
                q.clear();
            } else if (op < 4) {
                if (not q.empty()) {
                    h = fold(h, raw(q.front()));
                    h = fold(h, raw(q.pop()));
                }
            } else if (not q.full()) {
                q.push(E(static_cast<u8>(arg)));
                h = fold(h, raw(q.back()));
            }
            h = fold(h, q.size());
        }
        return h;
    }
};
template <std::size_t N, typename E> struct on_bits {
    using T = stdx::bitset<N, E>;
    static auto run(T &b, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const p = arg * 7 % N;
            switch (op) {
            case 0:
                b.reset();
                break;
            case 1:
                b.flip();
                break;
            case 2:
                b <<= p;
                break;
            case 3:
                b >>= p;
                break;
            case 4:
                b.set(stdx::lsb_t{p / 2}, stdx::msb_t{p});
                break;
            case 5:
                b ^= T{u64{arg}};
                break;
            default:
                b.set(p);
                break;
            }
            h = fold(h, b.count());
            h = fold(h, b.lowest_unset());
            stdx::for_each([&](auto i) { h = fold(h, i); }, b);
        }
        return h;
    }
};
struct on_optional {
    using T = stdx::optional<tok>;
    static auto run(T &o, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            switch (op) {
            case 0:
                o.reset();
                break;
            case 1:
                o = std::nullopt;
                break;
            case 2:
                o.emplace(static_cast<tok>(arg));
                break;
            case 3:
                if (o) {
                    *o = static_cast<tok>(static_cast<u8>(*o) + 1);
                }
                break;
            case 4:
                o = o.transform([](tok x) {
                    return static_cast<tok>(static_cast<u8>(x) / 2);
                });
                break;
            default:
                o = static_cast<tok>(arg);
                break;
            }
            h = fold(h, o.has_value() ? 1u + static_cast<u8>(*o) : 0u);
        }
        return h;
    }
};
struct cheap {
    u32 *calls;
    auto operator()() const -> u8 { return static_cast<u8>(++*calls); }
};
struct on_cached {
    struct T {
        u32 calls{};
        stdx::cached<cheap> c{cheap{&calls}};
    };
    static auto run(T &t, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            if (op == 0) {
                t.c.reset();
            } else if (op == 1) {
                h = fold(h, t.c.refresh());
            } else {
                h = fold(h, *t.c);
            }
            h = fold(h, t.c.has_value());
        }
        return h;
    }
};
struct on_list {
    struct T {
        std::array<node, 3> nodes{};
        std::array<bool, 3> in{};
        stdx::intrusive_list<node> l{};
    };
    static auto run(T &t, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const i = arg % 3;
            if (op == 0) {
                t.l.clear();
                t.in = {};
            } else if (not t.in[i]) {
                t.nodes[i].value = static_cast<int>(arg);
                op % 2 == 0 ? t.l.push_back(&t.nodes[i])
                            : t.l.push_front(&t.nodes[i]);
                t.in[i] = true;
            } else if (op < 4) {
                t.l.remove(&t.nodes[i]);
                t.in[i] = false;
            } else {
                auto *n = op % 2 == 0 ? t.l.pop_front() : t.l.pop_back();
                t.in[static_cast<std::size_t>(n - t.nodes.data())] = false;
            }
            for (auto const &x : t.l) {
                h = fold(h, static_cast<u64>(x.value));
            }
        }
        return h;
    }
};
struct on_forward_list {
    struct T {
        std::array<node, 3> nodes{};
        std::array<bool, 3> in{};
        stdx::intrusive_forward_list<node> l{};
    };
    static auto run(T &t, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const i = arg % 3;
            if (op == 0) {
                t.l.clear();
                t.in = {};
            } else if (not t.in[i]) {
                t.nodes[i].value = static_cast<int>(arg);
                op % 2 == 0 ? t.l.push_back(&t.nodes[i])
                            : t.l.push_front(&t.nodes[i]);
                t.in[i] = true;
            } else {
                auto *n = t.l.pop_front();
                t.in[static_cast<std::size_t>(n - t.nodes.data())] = false;
            }
            for (auto const &x : t.l) {
                h = fold(h, static_cast<u64>(x.value));
            }
        }
        return h;
    }
};
struct on_tuple {
    using T = stdx::tuple<u8, u8, stdx::rollover_t<u8>>;
    static auto run(T &t, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            switch (op) {
            case 0:
                t = T{};
                break;
            case 1:
                get<0>(t) = static_cast<u8>(arg);
                break;
            case 2:
                get<1>(t) = static_cast<u8>(arg);
                break;
            case 3:
                ++get<2>(t);
                break;
            case 4:
                get<2>(t) -= stdx::rollover_t<u8>{static_cast<u8>(arg)};
                break;
            case 5:
                stdx::for_each([](auto &e) { ++e; }, t);
                break;
            default: {
                auto u = stdx::transform([](auto e) { return ++e; }, t);
                t = u;
                break;
            }
            }
            h = fold(h, get<0>(t) * 65536u + get<1>(t) * 256u +
                            get<2>(t).as_underlying());
        }
        return h;
    }
};
struct on_algorithms {
    using T = std::array<u8, 5>;
    static auto run(T &a, script const &s) -> u64 {
        u64 h = 0;
        for (auto [op, arg] : s) {
            auto const by = static_cast<u8>(arg);
            switch (op) {
            case 0:
                stdx::for_each(a.begin(), a.end(), [&](u8 &x) { x = by; });
                break;
            case 1:
                stdx::for_each_n(a.begin(), arg % 6, [&](u8 &x) { x ^= by; });
                break;
            case 2:
                stdx::transform(a.begin(), a.end(), a.begin(),
                                [](u8 x) -> u8 { return x * 3; });
                break;
            case 3:
                stdx::for_each_butlast(a.begin(), a.end(), [](u8 &x) { ++x; });
                break;
            case 4:
                stdx::for_each_n_args<2>([](u8 &x, u8 &y) { std::swap(x, y); },
                                         a[0], a[1], a[2], a[3]);
                break;
            default: {
                auto const f = stdx::bind_front(
                    [](u8 p, u8 &x) { x = static_cast<u8>(x + p); }, by);
                stdx::unrolled_for_each(f, a);
                break;
            }
            }
            for (auto x : a) {
                h = fold(h, x);
            }
        }
        return h;
    }
};

template <typename W> void writers() {
    using T = typename W::T;
    draw_schedule();
    u32 const nt = 2 + sim::choose(2);
    std::array<script, 3> scripts{};
    std::array<u64, 3> want{};
    std::array<u64, 3> got{};
    {
        auto alone = sim::make_default<std::array<T, 3>>();
        for (u32 t = 0; t < nt; ++t) {
            scripts[t] = draw_script(6);
            want[t] = sim::sut([&] { return W::run((*alone)[t], scripts[t]); });
            sim::event("script %d of %d steps: %x", t, scripts[t].size(),
                       want[t]);
        }
    }
    // neighbours in memory
    auto objects = sim::make_default<std::array<T, 3>>();
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn(
            [&, t] {
                got[t] =
                    sim::sut([&] { return W::run((*objects)[t], scripts[t]); });
                sim::event("T%d done: %x", sim::self(), got[t]);
            },
            {static_cast<int>(t + 1), false});
    }
    sim::run_threads();
    for (u32 t = 0; t < nt; ++t) {
        sim::require(got[t] == want[t], "interference",
                     "object %d: %x with others at work, %x alone", t, got[t],
                     want[t]);
    }
    sim::nontrivial();
}

// ------------------------------------------- byte iterators on one buffer
struct field {
    u32 at;
    u32 width; // 1, 2, 4, 8 or 3 (three bytes)
    u32 owner;
    u64 value;
};
struct three {
    u8 a, b, c;
};
void put_field(stdx::byterator<std::byte> it, field const &f) {
    it += static_cast<std::ptrdiff_t>(f.at);
    switch (f.width) {
    case 1:
        it.writeu8(f.value);
        break;
    case 2:
        it.writeu16(f.value);
        break;
    case 4:
        it.writeu32(f.value);
        break;
    case 8:
        it.writeu64(f.value);
        break;
    default:
        it.write(three{static_cast<u8>(f.value), static_cast<u8>(f.value >> 8),
                       static_cast<u8>(f.value >> 16)});
        break;
    }
}
auto get_field(stdx::byterator<std::byte> it, field const &f) -> u64 {
    it += static_cast<std::ptrdiff_t>(f.at);
    switch (f.width) {
    case 1:
        return it.readu8();
    case 2:
        return it.peeku16();
    case 4:
        return it.readu32();
    case 8:
        return it.peeku64();
    default: {
        auto const t = it.read<three>();
        return u64{t.a} | u64{t.b} << 8 | u64{t.c} << 16;
    }
    }
}
void bytes() {
    draw_schedule();
    constexpr u32 size = 32;
    auto buf = sim::make_default<std::array<std::byte, size>>();
    u32 const nt = 2 + sim::choose(2);
    std::vector<field> fields{};
    std::array<u8, size> want{};
    for (u32 i = 0; i < size; ++i) {
        want[i] = static_cast<u8>(0x40 + i);
        (*buf)[i] = std::byte{want[i]};
    }
    // consecutive fields of varying width owned by varying threads
    u32 at = 0;
    while (fields.size() < 9) {
        u32 const widths[] = {1, 2, 4, 8, 3};
        u32 const w = widths[sim::choose(5)];
        if (at + w > size) {
            break;
        }
        u32 const owner = sim::choose(nt);
        u64 const v =
            sim::value64() & (w == 8 ? ~u64{} : (u64{1} << 8 * w) - 1);
        fields.push_back({at, w, owner, v});
        sim::event("field at %d, %d bytes, thread %d", at, w, owner);
        for (u32 i = 0; i < w; ++i) {
            want[at + i] = static_cast<u8>(v >> 8 * i);
        }
        at += w;
        if (not sim::flip(7, 8)) {
            break;
        }
    }
    for (u32 t = 0; t < nt; ++t) {
        sim::spawn(
            [&, t] {
                for (auto const &f : fields) {
                    if (f.owner != t) {
                        continue;
                    }
                    u64 const back = sim::sut([&] {
                        auto const it = stdx::byterator<std::byte>{buf->data()};
                        put_field(it, f);
                        return get_field(it, f);
                    });
                    sim::require(back == f.value, "lost-write",
                                 "read back %x after writing %x", back,
                                 f.value);
                }
            },
            {static_cast<int>(t + 1), false});
    }
    sim::run_threads();
    for (u32 i = 0; i < size; ++i) {
        sim::require(static_cast<u8>((*buf)[i]) == want[i], "interference",
                     "byte %d is %x, expected %x", i,
                     static_cast<u8>((*buf)[i]), want[i]);
    }
    sim::nontrivial();
}

// ----------------------------------------- elements of one shared object
void elements() {
    draw_schedule();
    using vec = stdx::cx_vector<u8, 6>;
    auto v = sim::make_default<vec>();
    for (u8 i = 0; i < 6; ++i) {
        v->push_back(i);
    }
    using tup = stdx::tuple<u8, u8, u8>;
    auto t = sim::make<tup>(tup{u8{}, u8{}, u8{}});
    u32 const nt = 2 + sim::choose(2);
    std::array<std::array<u32, 3>, 3> adds{};
    for (auto &a : adds) {
        for (auto &x : a) {
            x = sim::choose(9);
        }
    }
    for (u32 k = 0; k < nt; ++k) {
        sim::spawn(
            [&, k] {
                for (auto x : adds[k]) {
                    sim::sut([&] {
                        auto const add = [&](u8 &e) {
                            e = static_cast<u8>(e + x);
                        };
                        add(v->begin()[k]);
                        add(v->begin()[k + 3]);
                        k == 0   ? add(get<0>(*t))
                        : k == 1 ? add(get<1>(*t))
                                 : add(get<2>(*t));
                    });
                }
            },
            {static_cast<int>(k + 1), false});
    }
    sim::run_threads();
    auto const total = [&](u32 k) {
        return k < nt ? adds[k][0] + adds[k][1] + adds[k][2] : 0;
    };
    u8 const got[] = {get<0>(*t), get<1>(*t), get<2>(*t)};
    for (u32 k = 0; k < 3; ++k) {
        sim::require((*v)[k] == static_cast<u8>(k + total(k)) and
                         (*v)[k + 3] == static_cast<u8>(k + 3 + total(k)) and
                         got[k] == static_cast<u8>(total(k)),
                     "interference", "element %d has the wrong value", k);
    }
    sim::nontrivial();
}

void any_writers() {
    using fn = void (*)();
    static constexpr fn fs[] = {
        writers<on_vector<u8, 3>>,
        writers<on_map<u8, 3>>,
        writers<on_set<u8, 3>>,
        writers<on_multimap<u8, 2>>,
        writers<on_queue<u8, 3>>,
        writers<on_bits<13, u8>>,
        writers<on_vector<large, 20>>,
        writers<on_map<large, 18>>,
        writers<on_set<large, 20>>,
        writers<on_multimap<large, 17>>,
        writers<on_queue<large, 17>>,
        writers<on_bits<140, u64>>,
        writers<on_optional>,
        writers<on_cached>,
        writers<on_list>,
        writers<on_forward_list>,
        writers<on_tuple>,
        writers<on_algorithms>,
        elements,
    };
    fs[sim::choose(std::size(fs))]();
}

sim::scenario const scenarios[] = {
    {"shared_readers", 3, readers<shared_world>},
    {"shared_readers_of_large_objects", 1, readers<wide_world>},
    {"disjoint_writers", 4, any_writers},
    {"shared_buffer", 1, bytes},
};
} // namespace

sim::property_def const sim::the_property = {
    "C21",
    "Each run draws contents, 2-3 threads (or nested interrupts) and their "
    "calls: non-modifying questions to shared objects of every kind (small, or "
    "large with large elements), "
    "modifying scripts of up to 6 steps on neighbouring objects of one kind, "
    "or writes of 1-8 byte fields of one buffer through byte iterators. The "
    "scheduler may switch at every memory access. Each thread's answers are "
    "compared with those of the same calls made alone, conflicting "
    "unsynchronised accesses are detected. Non-trivial: all threads ran to "
    "completion. Distinct: hash of all choices and results.",
    "stdx::cx_vector, cx_map, cx_set, cx_multimap, cx_queue, bitset, "
    "type_bitset, tuple, optional, latched, cached, rollover_t, span, "
    "byterator, intrusive_list, intrusive_forward_list, algorithms, bind_front",
    "threads, scheduler",
    scenarios,
    4,
    16000000,
    60000000,
};
