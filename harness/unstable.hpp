// std::sort makes no promise about the order of equal elements: stand-in that lets the solver pick it.
// (libstdc++'s is stable below 17 elements only, which a bounded check would otherwise take for granted.)
#pragma once
#include <algorithm>
#include <vector>
#include <numeric>
#include <cassert>
#include <cstdio>
#include <functional>
#include <iterator>
#include <type_traits>
#include "vp.h"
namespace std {
template <class It, class C> void vp_any_sort(It a, It b, C comp) {
    std::stable_sort(a, b, comp);
    if (b - a < 2) return;
    for (It i = a; i + 1 != b; ++i)
        if (vp_choose("equal elements in any order", 0, 1) && !comp(*i, *(i + 1)) && !comp(*(i + 1), *i)) { auto t = *i; *i = *(i + 1); *(i + 1) = t; }
}
template <class It> void vp_any_sort(It a, It b) { vp_any_sort(a, b, std::less<typename std::iterator_traits<It>::value_type>()); }
}
#define sort vp_any_sort
