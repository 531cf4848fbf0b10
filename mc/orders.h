#pragma once
#include "dsl.h"
// y and z take the storage orders following x's, so every (storage, domain) pair occurs for each operand
#ifndef PART
#define PART 0
#define PARTS 1
#endif
template <class OS, size_t I, class F> static void orders(F f)
{
    constexpr size_t n = std::tuple_size_v<OS>;
    using PX = std::tuple_element_t<I, OS>;
    using PY = std::tuple_element_t<(I + 1) % n, OS>;
    using PZ = std::tuple_element_t<(I + n / 2) % n, OS>;
    if constexpr (I % PARTS == PART) f(PX{}, PY{}, PZ{});
    if constexpr (I + 1 < n) orders<OS, I + 1>(f);
}
template <class OS, size_t I, class F> static void domorders(F f)
{
    f(std::tuple_element_t<I, OS>{});
    if constexpr (I + 1 < std::tuple_size_v<OS>) domorders<OS, I + 1>(f);
}
