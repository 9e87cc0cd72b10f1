// Stand-in for msgpack: a value is written through the stream's write() as a tag and its elements, unpack parses one
// value at the given offset of the data, advances the offset and reports malformed or truncated data.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <cassert>
#include <ostream>
#include <string>
#include <vector>
#include "vp.h"
namespace msgpack {
template <class S> inline void vp_scalar(S &s, char tag, const void *p, size_t n) { s.write(&tag, 1); s.write((const char *)p, n); }
template <class S> inline void pack(S &s, const bool &v) { char c = v; vp_scalar(s, 'b', &c, 1); }
template <class S> inline void pack(S &s, const char &v) { vp_scalar(s, '1', &v, 1); }
template <class S> inline void pack(S &s, const uint8_t &v) { vp_scalar(s, '1', &v, 1); }
template <class S> inline void pack(S &s, const int8_t &v) { vp_scalar(s, '1', &v, 1); }
template <class S> inline void pack(S &s, const int32_t &v) { vp_scalar(s, '4', &v, 4); }
template <class S> inline void pack(S &s, const uint32_t &v) { vp_scalar(s, '4', &v, 4); }
template <class S> inline void pack(S &s, const int64_t &v) { vp_scalar(s, '8', &v, 8); }
template <class S> inline void pack(S &s, const uint64_t &v) { vp_scalar(s, '8', &v, 8); }
template <class S> inline void pack(S &s, const float &v) { vp_scalar(s, 'f', &v, 4); }
template <class S> inline void pack(S &s, const double &v) { vp_scalar(s, 'd', &v, 8); }
template <class S> inline void pack(S &s, const std::string &v) { uint32_t n = v.size(); vp_scalar(s, 's', &n, 4); if (n) s.write(v.data(), n); }
template <class S, class T> inline void pack(S &s, const std::vector<T> &v) { uint32_t n = v.size(); vp_scalar(s, 'a', &n, 4); for (const auto &x : v) { const T y = x; pack(s, y); } }
template <class S, class T, size_t N> inline void pack(S &s, const std::array<T, N> &v) { uint32_t n = N; vp_scalar(s, 'a', &n, 4); for (const auto &x : v) pack(s, x); }
struct vp_reader {
    const char *p; size_t n, at;
    void bytes(void *o, size_t k) { vp_assert(at <= n && k <= n - at, "a complete value is stored at the read position"); memcpy(o, p + at, k); at += k; }
    void tag(char t) { char c; bytes(&c, 1); vp_assert(c == t, "a value of the packed type starts at the read position"); }
};
inline void get(vp_reader &r, bool &v) { r.tag('b'); char c; r.bytes(&c, 1); v = c != 0; }
inline void get(vp_reader &r, char &v) { r.tag('1'); r.bytes(&v, 1); }
inline void get(vp_reader &r, uint8_t &v) { r.tag('1'); r.bytes(&v, 1); }
inline void get(vp_reader &r, int8_t &v) { r.tag('1'); r.bytes(&v, 1); }
inline void get(vp_reader &r, int32_t &v) { r.tag('4'); r.bytes(&v, 4); }
inline void get(vp_reader &r, uint32_t &v) { r.tag('4'); r.bytes(&v, 4); }
inline void get(vp_reader &r, int64_t &v) { r.tag('8'); r.bytes(&v, 8); }
inline void get(vp_reader &r, uint64_t &v) { r.tag('8'); r.bytes(&v, 8); }
inline void get(vp_reader &r, float &v) { r.tag('f'); r.bytes(&v, 4); }
inline void get(vp_reader &r, double &v) { r.tag('d'); r.bytes(&v, 8); }
inline void get(vp_reader &r, std::string &v) { r.tag('s'); uint32_t n; r.bytes(&n, 4); v.resize(n); if (n) r.bytes(&v[0], n); }
template <class T> inline void get(vp_reader &r, std::vector<T> &v) { r.tag('a'); uint32_t n; r.bytes(&n, 4); v.clear(); for (uint32_t i = 0; i < n; i++) { T x{}; get(r, x); v.push_back(x); } }
template <class T, size_t N> inline void get(vp_reader &r, std::array<T, N> &v) { r.tag('a'); uint32_t n; r.bytes(&n, 4); vp_assert(n == N, "array length"); for (auto &x : v) get(r, x); }
inline void skip(vp_reader &r) {
    char c; r.bytes(&c, 1); char b[8]; uint32_t n;
    if (c == 'b' || c == '1') r.bytes(b, 1);
    else if (c == '4' || c == 'f') r.bytes(b, 4);
    else if (c == '8' || c == 'd') r.bytes(b, 8);
    else if (c == 's') { r.bytes(&n, 4); vp_assert(n <= r.n - r.at, "a complete value is stored at the read position"); r.at += n; }
    else { vp_assert(c == 'a', "a packed value starts at the read position"); r.bytes(&n, 4); for (uint32_t i = 0; i < n; i++) skip(r); }
}
struct object {
    std::vector<char> d;
    template <class T> T &convert(T &v) const { vp_reader r{d.data(), d.size(), 0}; get(r, v); return v; }
    template <class T> T as() const { T v{}; convert(v); return v; }
};
inline std::ostream &operator<<(std::ostream &o, const object &) { return o; }
struct object_handle { object o; const object &get() const { return o; } };
inline object_handle unpack(const char *p, size_t n, size_t &off) {
    vp_reader r{p, n, off}; skip(r);
    object_handle h; h.o.d.assign(p + off, p + r.at); off = r.at;
    return h;
}
inline object_handle unpack(const char *p, size_t n) { size_t o = 0; return unpack(p, n, o); }
}
