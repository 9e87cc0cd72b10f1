#pragma once
// console output is not part of what is checked
#include <iostream>
#include <iomanip>
namespace std {
struct vp_nostream {
    template <class T> vp_nostream &operator<<(const T &) { return *this; }
    vp_nostream &operator<<(ostream &(*)(ostream &)) { return *this; }
    vp_nostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
    template <class T> vp_nostream &precision(T) { return *this; }
    vp_nostream &flush() { return *this; }
};
static vp_nostream vp_cout;
} // namespace std
