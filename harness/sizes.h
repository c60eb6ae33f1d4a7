// Lengths around which something of limited width or capacity would change its behaviour.
#pragma once
#include <algorithm>
#include <cstddef>
#include <vector>
namespace sizes {
inline std::vector<size_t> upTo(size_t max) {
    std::vector<size_t> r;
    for (size_t p = 1; p <= max * 2; p *= 2) for (size_t x : {p - 1, p, p + 1}) r.push_back(x);
    for (size_t p = 10; p <= max; p *= 10) for (size_t x : {p - 1, p, p + 1, 3 * p, 5 * p}) r.push_back(x);
    r.push_back(max);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    while (r.back() > max) r.pop_back();
    return r;
}
}
