// The program-wide panic handler installed by the checks.
#pragma once

#include "elem.hpp"

#include <stdx/panic.hpp>

#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace seam {
struct record {
    std::string why{};
    std::size_t nargs{};
};
struct state_t {
    std::vector<record> seen{};
    std::function<void()> observer{}; // runs inside the handler
};
inline state_t state{};
inline void reset() {
    state.seen.clear();
    state.observer = nullptr;
}
inline auto count() -> std::size_t { return state.seen.size(); }

struct handler {
    [[noreturn]] static void raise(std::string_view why, std::size_t n) {
        {
            sim::host_scope const h{};
            state.seen.push_back({std::string{why}, n});
            if (state.observer) {
                state.observer();
            }
        }
        throw elem::panicked{};
    }
    template <typename... Ts> static auto panic(Ts &&...) -> void {
        raise("(run-time reason)", sizeof...(Ts));
    }
    template <stdx::ct_string Why, typename... Ts>
    static auto panic(Ts &&...) -> void {
        raise(std::string_view{Why}, sizeof...(Ts));
    }
};

// Checks what a call of outcome o must have raised.
inline void expect_panics(elem::outcome o, std::size_t before,
                          char const *word) {
    std::size_t const raised = count() - before;
    if (word == nullptr) {
        sim::require(raised == 0 and o != elem::outcome::panicked,
                     "unexpected-panic", "a legal call raised %d panics",
                     raised);
        return;
    }
    sim::require(raised != 0, "missing-panic", "misuse raised no panic");
    sim::require(raised == 1, "repeated-panic", "misuse raised %d panics",
                 raised);
    sim::require(o == elem::outcome::panicked, "missing-panic",
                 "the handler's failure did not reach the caller");
    sim::require(state.seen.back().why.find(word) != std::string::npos,
                 "wrong-reason", "panic reason lacks the word %s", word);
}
} // namespace seam

template <> inline auto stdx::panic_handler<> = seam::handler{};
