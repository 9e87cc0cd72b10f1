// U10: serialisation buffer
#include "vp.h"
#include <cassert>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include "Util/Buffer.hpp"
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool same(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
template <class T> struct has_double { static const bool v = false; };
template <> struct has_double<double> { static const bool v = true; };
template <class T> struct has_double<std::vector<T>> : has_double<T> {};
template <class T, size_t N> struct has_double<std::array<T, N>> : has_double<T> {};
template <size_t N> static bool same(const std::array<double, N> &a, const std::array<double, N> &b) { for (size_t i = 0; i < N; i++) if (!same(a[i], b[i])) return false; return true; }
static double any_real(const char *n) { double x = vp_double(n); vp_assume(x == x); return x; }
// two values of arbitrary content, packed one after the other
template <class A, class B> static void two(const A &a, const B &b) {
    std::vector<char> c;
    Buffer w(c);
    w.pack(a); size_t n1 = c.size();
    w.pack(b); size_t n2 = c.size();
    std::vector<char> keep = c;
    vp_assert(w.getSize() == n2 && w.getPtr() == c.data() && w.getReadPos() == 0, "packing does not move the read position");
    Buffer r;
    A x{}; B y{};
    r.unpack(x, c);
    vp_assert(same(x, a), "first value returned unchanged");
    vp_assert_eqi(r.getReadPos(), n1, "exactly the bytes of the first value consumed");
    r.unpack(y, c);
    vp_assert(same(y, b), "second value returned unchanged");
    vp_assert_eqi(r.getReadPos(), n2, "exactly the bytes of the second value consumed");
    if (!has_double<A>::v && !has_double<B>::v) for (size_t i = 0; i < n2; i++) vp_assert(c[i] == keep[i], "content unchanged");
    r.setReadPos(0); A z{}; r.unpack(z, c);
    vp_assert(same(z, a), "reading again from the start");
    vp_reach("two");
}
template <class T> static std::vector<T> vec(int mx, T (*f)(const char *)) { std::vector<T> v; int n = vp_choose("n", 0, mx); for (int i = 0; i < n; i++) v.push_back(f("v")); return v; }
VP_ENTRY(u10_int_double) { int a = vp_i32("a"); double b = any_real("b"); two(a, b); }
VP_ENTRY(u10_int64) { two<int64_t, uint32_t>(vp_i64("a"), vp_u32("b")); }
VP_ENTRY(u10_bool_u8) { two<bool, uint8_t>(vp_bool("a"), vp_u8("b")); }
VP_ENTRY(u10_vec_int) { two<std::vector<int>, int>(vec<int>(2, vp_i32), 7); }
VP_ENTRY(u10_vec_double) { two<std::vector<double>, std::vector<double>>(vec<double>(3, any_real), vec<double>(1, any_real)); }
VP_ENTRY(u10_array) { std::array<double, 3> a{any_real("a"), any_real("a"), any_real("a")}; two<std::array<double, 3>, bool>(a, vp_bool("b")); }
static char any_char(const char *n) { return (char)vp_u8(n); }
VP_ENTRY(u10_string) { auto v = vec<char>(3, any_char); two<std::string, double>(std::string(v.begin(), v.end()), any_real("b")); }
VP_ENTRY(u10_nested) { std::vector<std::vector<int>> v; int n = vp_choose("rows", 0, 2); for (int i = 0; i < n; i++) v.push_back(vec<int>(1, vp_i32)); two<std::vector<std::vector<int>>, std::string>(v, ""); }
// reading through the buffer that was written, interleaved with further packing
VP_ENTRY(u10_mixed) {
    std::vector<char> c; Buffer b(c);
    int x = vp_i32("x"), y = vp_i32("y"), o = 0; double d = any_real("d"), e = 0;
    b.pack(x); b.pack(d);
    b.unpack(o, c); vp_assert(o == x, "first value");
    b.pack(y);
    b.unpack(e, c); vp_assert(same(e, d), "second value");
    b.unpack(o, c); vp_assert(o == y, "value packed after reading began");
    vp_assert(b.getReadPos() == c.size() && b.getSize() == c.size(), "everything consumed");
    vp_reach("mixed");
}
