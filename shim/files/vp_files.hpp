// Stand-in for files and text streams: files live in memory, and every number in a text is a reference \1<index>\2 to its
// value, so that numbers may be symbolic.  A number printed with any format is read back exactly (rounding to the printed
// digits is not modelled).  Included after the standard headers and before the code under test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>
#include "vp.h"
struct VpNum { bool integer; double d; long long i; int digits; };
inline std::vector<VpNum> vp_nums;
struct VpFile { std::string name, text; };
inline std::vector<VpFile *> vp_disk;
inline std::vector<std::string> vp_dirs;
inline VpFile *vp_file(const std::string &name) { for (auto *f : vp_disk) if (f->name == name) return f; return nullptr; }
inline VpFile *vp_create(const std::string &name) {
    VpFile *f = nullptr;
#pragma omp critical(vp_files)
    { f = vp_file(name); if (!f) { f = new VpFile{name, ""}; vp_disk.push_back(f); } }
    return f;
}
inline std::string vp_ref(const VpNum &n) {
    size_t k = 0;
#pragma omp critical(vp_files)
    { k = vp_nums.size(); vp_nums.push_back(n); }
    return "\1" + std::to_string(k) + "\2";
}
inline std::string vp_text(long long v) { return vp_ref(VpNum{true, 0, v, 0}); }
inline std::string vp_text(double v, int digits = 6) { return vp_ref(VpNum{false, v, 0, digits}); }
// a reader over a text
struct VpReader {
    std::string s; size_t p = 0; bool ok = true, eof = false;
    void skip() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++; }
    bool begin() { if (!ok || eof) { ok = false; return false; } skip(); if (p >= s.size()) { ok = false; eof = true; return false; } return true; }
    bool get(char &c) { if (!begin()) return false; c = s[p++]; return true; }
    bool get(std::string &w) { if (!begin()) return false; w.clear(); while (p < s.size() && s[p] != ' ' && s[p] != '\n' && s[p] != '\t') w += s[p++]; if (p >= s.size()) eof = true; return true; }
    const VpNum *num() {
        if (!begin()) return nullptr;
        if (s[p] != '\1') { ok = false; return nullptr; }
        size_t k = 0;
        for (p++; s[p] != '\2'; p++) k = 10 * k + (s[p] - '0');
        p++;
        if (p >= s.size()) eof = true;
        return &vp_nums[k];
    }
    template <class T> bool getnum(T &v) {
        auto *n = num();
        if (!n) return false;
        if constexpr (std::is_floating_point_v<T>) { if (n->integer) v = (T)n->i; else v = (T)n->d; }
        else { vp_assert(n->integer, "an integer field holds a real number"); v = (T)n->i; }
        return true;
    }
    bool get(double &v) { return getnum(v); }
    bool get(float &v) { return getnum(v); }
    bool get(int &v) { return getnum(v); }
    bool get(unsigned &v) { return getnum(v); }
    bool get(long &v) { return getnum(v); }
    bool get(unsigned long &v) { return getnum(v); }
    bool line(std::string &w) {
        w.clear();
        if (!ok || p >= s.size()) { ok = false; eof = true; return false; }
        while (p < s.size() && s[p] != '\n') w += s[p++];
        if (p < s.size()) p++; else eof = true;
        return true;
    }
};
namespace std {
class vp_ofstream {
    VpFile *f_ = nullptr;
  public:
    vp_ofstream() {}
    template <class... M> explicit vp_ofstream(const std::string &n, M...) { open(n); }
    template <class... M> void open(const std::string &n, M...) { f_ = vp_create(n); f_->text.clear(); }
    ~vp_ofstream() {}
    void close() { f_ = nullptr; }
    void flush() {}
    bool is_open() const { return f_; }
    bool good() const { return f_; }
    explicit operator bool() const { return f_; }
    void put(const std::string &s) { vp_assert(f_ != nullptr, "writing to a file that is not open"); f_->text += s; }
    vp_ofstream &operator<<(const std::string &s) { put(s); return *this; }
    vp_ofstream &operator<<(const char *s) { put(s); return *this; }
    vp_ofstream &operator<<(char c) { put(std::string(1, c)); return *this; }
    vp_ofstream &operator<<(int v) { put(vp_text((long long)v)); return *this; }
    vp_ofstream &operator<<(unsigned v) { put(vp_text((long long)v)); return *this; }
    vp_ofstream &operator<<(long v) { put(vp_text((long long)v)); return *this; }
    vp_ofstream &operator<<(unsigned long v) { put(vp_text((long long)v)); return *this; }
    vp_ofstream &operator<<(double v) { put(vp_text(v)); return *this; }
    vp_ofstream &operator<<(float v) { put(vp_text((double)v)); return *this; }
    vp_ofstream &operator<<(std::ostream &(*)(std::ostream &)) { put("\n"); return *this; }
};
class vp_ifstream : public VpReader {
    bool open_ = false;
  public:
    vp_ifstream() { ok = false; }
    template <class... M> explicit vp_ifstream(const std::string &n, M...) { open(n); }
    template <class... M> void open(const std::string &n, M...) { auto *f = vp_file(n); ok = open_ = f; if (f) s = f->text; }
    void close() { open_ = false; }
    bool is_open() const { return open_; }
    bool good() const { return ok && !eof; }
    explicit operator bool() const { return ok; }
    bool operator!() const { return !ok; }
    template <class T> vp_ifstream &operator>>(T &v) { get(v); return *this; }
};
class vp_stringstream : public VpReader {
  public:
    vp_stringstream() {}
    explicit vp_stringstream(const std::string &t) { s = t; }
    bool good() const { return ok && !eof; }
    explicit operator bool() const { return ok; }
    bool operator!() const { return !ok; }
    std::string str() const { return s; }
    template <class T> vp_stringstream &operator>>(T &v) { get(v); return *this; }
    vp_stringstream &operator<<(const std::string &t) { s += t; return *this; }
    vp_stringstream &operator<<(const char *t) { s += t; return *this; }
    vp_stringstream &operator<<(char c) { s += c; return *this; }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> vp_stringstream &operator<<(T v) { s += vp_text((long long)v); return *this; }
    vp_stringstream &operator<<(double v) { s += vp_text(v); return *this; }
    vp_stringstream &operator<<(std::ostream &(*)(std::ostream &)) { s += "\n"; return *this; }
};
inline vp_ifstream &getline(vp_ifstream &f, std::string &w) { f.line(w); return f; }
inline vp_stringstream &getline(vp_stringstream &f, std::string &w) { f.line(w); return f; }
} // namespace std
inline FILE *vp_fopen(const char *name, const char *mode) {
    VpFile *f = mode[0] == 'r' ? vp_file(name) : vp_create(name);
    if (f && mode[0] == 'w') f->text.clear();
    return reinterpret_cast<FILE *>(f);
}
inline int vp_fclose(FILE *) { return 0; }
inline std::string vp_arg(char conv, int, int v) { vp_assert(conv == 'd' || conv == 'i' || conv == 'u' || conv == 'c', "format does not fit an integer"); return conv == 'c' ? std::string(1, (char)v) : vp_text((long long)v); }
inline std::string vp_arg(char conv, int, unsigned v) { vp_assert(conv == 'd' || conv == 'i' || conv == 'u', "format does not fit an integer"); return vp_text((long long)v); }
inline std::string vp_arg(char conv, int, long v) { vp_assert(conv == 'd' || conv == 'i' || conv == 'u', "format does not fit an integer"); return vp_text((long long)v); }
inline std::string vp_arg(char conv, int, unsigned long v) { vp_assert(conv == 'd' || conv == 'i' || conv == 'u', "format does not fit an integer"); return vp_text((long long)v); }
inline std::string vp_arg(char conv, int digits, double v) { vp_assert(conv == 'f' || conv == 'g' || conv == 'e', "format does not fit a real number"); return vp_text(v, digits); }
inline std::string vp_arg(char conv, int, const char *v) { vp_assert(conv == 's', "format does not fit a string"); return v; }
inline std::string vp_arg(char conv, int d, char v) { return vp_arg(conv, d, (int)v); }
inline std::string vp_arg(char conv, int d, bool v) { return vp_arg(conv, d, (int)v); }
template <class... A> inline int vp_fprintf(FILE *fp, const char *fmt, const A &...a) {
    VpFile *f = reinterpret_cast<VpFile *>(fp);
    vp_assert(f != nullptr, "writing to a file that is not open");
    std::string convs, out; // first pass: the conversions
    std::vector<int> digits;
    for (const char *c = fmt; *c; c++) if (*c == '%') {
        c++;
        if (*c == '%') continue;
        int d = 6;
        while ((*c >= '0' && *c <= '9') || *c == '-' || *c == '+' || *c == ' ') c++;
        if (*c == '.') { c++; d = 0; while (*c >= '0' && *c <= '9') d = 10 * d + (*c++ - '0'); }
        while (*c == 'l' || *c == 'h' || *c == 'z') c++;
        convs += *c; digits.push_back(d);
    }
    vp_assert(convs.size() == sizeof...(A), "as many conversions as arguments");
    std::vector<std::string> v;
    size_t k = 0;
    (void)std::initializer_list<int>{(v.push_back(vp_arg(convs[k], digits[k], a)), k++, 0)...};
    k = 0;
    for (const char *c = fmt; *c; c++) {
        if (*c != '%') { out += *c; continue; }
        c++;
        if (*c == '%') { out += '%'; continue; }
        while (*c != convs[k] || c[0] == 'l') c++;
        out += v[k++];
    }
    f->text += out;
    return (int)out.size();
}
inline int vp_errno = 0;
inline int vp_mkdir(const char *name, int) {
    std::string d(name);
    if (!d.empty() && d.back() == '/') d.pop_back();
#pragma omp critical(vp_files)
    { bool known = false; for (auto &e : vp_dirs) known |= e == d; if (!known) vp_dirs.push_back(d); }
    vp_errno = 0;
    return 0;
}
#define ofstream vp_ofstream
#define ifstream vp_ifstream
#define stringstream vp_stringstream
#define istringstream vp_stringstream
#define ostringstream vp_stringstream
#define fopen vp_fopen
#define fclose vp_fclose
#define fprintf vp_fprintf
#define mkdir vp_mkdir
#undef errno
#define errno vp_errno
