// The list of shared objects used by the atomic checks.
#pragma once
#include "atomic_ops.hpp"

namespace SIM_NS {
// calls f with a value_object / bits_object type drawn from the list
template <typename F> void with_value(F f) {
#ifdef SIM_WIDE_STORAGE
    switch (sim::choose(8)) {
    case 0:
        return f(value_object<u8>{});
    case 4:
        return f(value_object<u32>{});
    case 5:
        return f(value_object<std::int8_t>{});
    case 6:
        return f(value_object<std::int16_t>{});
    case 1:
        return f(value_object<bool>{});
    case 2:
        return f(value_object<u16>{});
    case 3:
        return f(value_object<colour>{});
    default:
        return f(value_object<u8>{});
    }
#else
    switch (sim::choose(15)) {
    case 13:
        return f(value_object<double>{});
    case 14:
        return f(value_object<std::byte>{});
    case 11:
        return f(value_object<u32 *>{});
    case 0:
        return f(value_object<u32>{});
    case 1:
        return f(value_object<u8>{});
    case 2:
        return f(value_object<u16>{});
    case 3:
        return f(value_object<u64>{});
    case 4:
        return f(value_object<std::int32_t>{});
    case 5:
        return f(value_object<std::int8_t>{});
    case 6:
        return f(value_object<std::int64_t>{});
    case 7:
        return f(value_object<bool>{});
    case 8:
        return f(value_object<colour>{});
    case 9:
        return f(value_object<triple>{});
    case 10:
        return f(value_object<float>{});
    default:
        return f(value_object<std::int16_t>{});
    }
#endif
}
template <typename F> void with_bits(F f) {
#ifdef SIM_WIDE_STORAGE
    switch (sim::choose(8)) {
    case 6:
        return f(bits_object<27>{});
    case 0:
        return f(bits_object<8>{});
    case 4:
        return f(bits_object<20>{});
    case 5:
        return f(bits_object<32>{});
    case 3:
        return f(bits_object<slot::MAX>{});
    case 1:
        return f(bits_object<5>{});
    case 2:
        return f(bits_object<3, u8>{});
    default:
        return f(bits_object<13>{});
    }
#else
    switch (sim::choose(12)) {
    case 10:
        return f(bits_object<48>{});
    case 11:
        return f(bits_object<63>{});
    case 0:
        return f(bits_object<8>{});
    case 9:
        return f(bits_object<slot::MAX>{});
    case 1:
        return f(bits_object<5>{});
    case 2:
        return f(bits_object<13>{});
    case 3:
        return f(bits_object<16>{});
    case 4:
        return f(bits_object<32>{});
    case 5:
        return f(bits_object<33>{});
    case 6:
        return f(bits_object<64>{});
    case 7:
        return f(bits_object<7, u32>{});
    default:
        return f(bits_object<1>{});
    }
#endif
}
} // namespace SIM_NS
