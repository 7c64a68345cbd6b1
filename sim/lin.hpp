// Linearizability check of a recorded history against a sequential model
// (depth-first search over linearization orders, memoised on the set of
// operations already placed and the model state).
#pragma once

#include "rt.hpp"

#include <cstdint>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace lin {

struct op {
    int thread{};
    int kind{};
    std::uint64_t a{};
    std::uint64_t b{};
    std::uint64_t result{};
    std::uint64_t inv{};
    std::uint64_t res{}; // 0: never returned (the thread was stopped)
};

struct history {
    std::vector<op> ops{};
    std::uint64_t clock{};

    auto begin(int kind, std::uint64_t a = 0, std::uint64_t b = 0)
        -> std::size_t {
        ops.push_back(op{sim::self(), kind, a, b, 0, ++clock, 0});
        return ops.size() - 1;
    }
    void end(std::size_t i, std::uint64_t result) {
        ops[i].result = result;
        ops[i].res = ++clock;
    }
};

// Model: State must be a std::uint64_t; step(state, op) returns the pair
// {new state, result}; results are compared only for finished operations.
template <typename Step>
auto linearizable(std::vector<op> const &ops, std::uint64_t init, Step step,
                  std::uint64_t const *final_state = nullptr) -> bool {
    using key = std::pair<std::uint32_t, std::uint64_t>;
    std::set<key> seen{};
    auto const n = ops.size();
    auto const all = static_cast<std::uint32_t>((std::uint64_t{1} << n) - 1);
    struct frame {
        std::uint32_t done;
        std::uint64_t state;
    };
    std::vector<frame> stack{{0, init}};
    while (not stack.empty()) {
        auto const f = stack.back();
        stack.pop_back();
        if (not seen.insert({f.done, f.state}).second) {
            continue;
        }
        // all finished operations placed?
        bool complete = true;
        std::uint64_t min_res = ~std::uint64_t{};
        for (std::size_t i = 0; i < n; ++i) {
            if (((f.done >> i) & 1u) == 0 and ops[i].res != 0) {
                complete = false;
                if (ops[i].res < min_res) {
                    min_res = ops[i].res;
                }
            }
        }
        if (complete and (final_state == nullptr or *final_state == f.state)) {
            return true;
        }
        if (f.done == all) {
            continue;
        }
        for (std::size_t i = 0; i < n; ++i) {
            if (((f.done >> i) & 1u) != 0 or ops[i].inv > min_res) {
                continue;
            }
            auto const [st, r] = step(f.state, ops[i]);
            if (ops[i].res == 0 or r == ops[i].result) {
                stack.push_back({f.done | (1u << i), st});
            }
        }
    }
    return false;
}
} // namespace lin
