// native side of the harness API: replays one counterexample or witness
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#ifdef _OPENMP
#include <omp.h>
#endif
static std::map<std::string, void (*)()> &regs() { static std::map<std::string, void (*)()> r; return r; }
vp_reg::vp_reg(const char *n, void (*f)()) { regs()[n] = f; }
static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;
static int allow = 0;
static std::string get(const char *name) {
    int k;
    k = cnt[name]++;
    std::string key = std::string(name) + "#" + std::to_string(k);
    auto it = vals.find(key);
    if (it == vals.end()) return "0";
    return it->second;
}
static double tol(double a, double b) { return 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
static double ineqtol(double a, double b) { return 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
#ifdef VP_FP
static const bool exact = true;
#else
static const bool exact = false;
#endif
static void fail(const char *msg, const char *extra) {
    printf("VP_FAIL %s %s\n", msg, extra); fflush(stdout); _Exit(3);
}
extern "C" {
double vp_double(const char *n) { return strtod(get(n).c_str(), nullptr); }
uint8_t vp_u8(const char *n) { return (uint8_t)strtoull(get(n).c_str(), nullptr, 10); }
uint32_t vp_u32(const char *n) { return (uint32_t)strtoull(get(n).c_str(), nullptr, 10); }
uint64_t vp_u64(const char *n) { return strtoull(get(n).c_str(), nullptr, 10); }
int32_t vp_i32(const char *n) { return (int32_t)strtoll(get(n).c_str(), nullptr, 10); }
int64_t vp_i64(const char *n) { return strtoll(get(n).c_str(), nullptr, 10); }
bool vp_bool(const char *n) { return strtoll(get(n).c_str(), nullptr, 10) != 0; }
int64_t vp_choose(const char *n, int64_t lo, int64_t hi) {
    int64_t v = strtoll(get(n).c_str(), nullptr, 10);
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return v;
}
int64_t vp_concretize(int64_t v) { return v; }
void vp_assume(bool c) { if (!c) { printf("VP_ASSUME\n"); fflush(stdout); _Exit(4); } }
void vp_assume_product(double a, double b, double c) { vp_assume_eq(a * b, c); }
void vp_assume_eq(double a, double b) { vp_assume(exact ? a == b : std::fabs(a - b) <= tol(a, b)); }
void vp_assert(bool c, const char *msg) { if (!c) fail(msg, ""); }
static void num(double a, double b, bool ok, const char *msg) {
    if (!ok) { char buf[128]; snprintf(buf, sizeof buf, "(%.17g vs %.17g)", a, b); fail(msg, buf); }
}
void vp_assert_eq(double a, double b, const char *msg) { num(a, b, exact ? a == b : (a == b || std::fabs(a - b) <= tol(a, b)), msg); }
void vp_assert_le(double a, double b, const char *msg) { num(a, b, exact ? a <= b : a <= b + ineqtol(a, b), msg); }
void vp_assert_lt(double a, double b, const char *msg) { num(a, b, exact ? a < b : a < b + ineqtol(a, b), msg); }
void vp_assert_eqi(int64_t a, int64_t b, const char *msg) { num((double)a, (double)b, a == b, msg); }
void vp_observe(const char *n, double v) { printf("VP_OBS %s %.17g\n", n, v); }
void vp_observe_i(const char *n, int64_t v) { printf("VP_OBS %s %lld\n", n, (long long)v); }
void vp_reach(const char *n) { printf("VP_REACH %s\n", n); }
int vp_is_symbolic() { return 0; }
void vp_allow_exit(int h) { allow = h; }
void vp_threads(int n) {
#ifdef _OPENMP
    omp_set_num_threads(n);
#endif
}
void vp_ignore() { printf("VP_IGNORE\n"); fflush(stdout); _Exit(4); }
bool vp_is_nan(double x) { return x != x; }
bool vp_identical(double a, double b) { return a == b || std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a)); }
}
static bool finished = false;
static void onexit() {
    if (!finished) {
        if (allow) { printf("VP_DONE exit\n"); fflush(stdout); _Exit(0); }
        printf("VP_FAIL program exited\n"); fflush(stdout); _Exit(3);
    }
}
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        char *p = strrchr(line, '=');
        if (!p || line[0] == '@') continue;
        *p = 0; char *v = p + 1; v[strcspn(v, "\r\n")] = 0;
        vals[line] = v;
    }
    fclose(f);
    std::atexit(onexit);
    auto it = regs().find(argv[1]);
    if (it == regs().end()) { printf("VP_NOENTRY\n"); finished = true; return 2; }
    try { it->second(); } catch (...) { if (allow != 2) fail("C++ exception", ""); }
    finished = true;
    printf("VP_DONE\n"); fflush(stdout);
    _Exit(0);
}
