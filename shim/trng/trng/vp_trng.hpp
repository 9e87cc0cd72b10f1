// Stand-in for TRNG: an engine is the arithmetic sub-sequence first, first+step, ... of the master sequence of a seed
// (the documented meaning of split); every draw reports the element it consumed.
#pragma once
#include <cstdint>
#include <cmath>
#include "vp.h"
#include <omp.h>
namespace trng { class vp_engine; }
struct VpDraw { unsigned long seed; uint64_t index; trng::vp_engine *engine; int kind; };
inline VpDraw vp_draws[8] = {}; // last draw of each OpenMP thread
inline double (*vp_draw_hook)(const VpDraw &) = nullptr; // value of a draw
namespace trng {
class vp_engine {
  public:
    using result_type = uint32_t;
    unsigned long s = 0; uint64_t first = 0, step = 1;
    vp_engine() = default;
    explicit vp_engine(unsigned long s_) : s(s_) {}
    void seed() { s = 0; first = 0; step = 1; }
    void seed(unsigned long s_) { s = s_; first = 0; step = 1; }
    void split(unsigned n, unsigned k) {
        vp_assert(n >= 1 && k < n, "split(n,k) needs k < n");
        first += step * k; step *= n;
    }
    void discard(unsigned long long n) { first += step * n; }
    void jump(unsigned long long n) { first += step * n; }
    uint64_t next() { uint64_t i = first; first += step; return i; }
};
class mrg5 : public vp_engine { using vp_engine::vp_engine; };
class lcg64_shift : public vp_engine { using vp_engine::vp_engine; };
class yarn5 : public vp_engine { using vp_engine::vp_engine; };
template <class E> double vp_draw(E &e, int kind) { VpDraw d{e.s, e.next(), &e, kind}; vp_draws[omp_get_thread_num() & 7] = d; return vp_draw_hook ? vp_draw_hook(d) : 0.5; }
template <class T = double> class uniform01_dist { public: template <class E> T operator()(E &e) { return vp_draw(e, 0); } };
template <class T = double> class normal_dist {
    T m, s;
  public:
    normal_dist(T mu, T sigma) : m(mu), s(sigma) {}
    template <class E> T operator()(E &e) { return m + s * vp_draw(e, 1); }
};
template <class T = double> class lognormal_dist {
    T m, s;
  public:
    lognormal_dist(T mu, T sigma) : m(mu), s(sigma) {}
    template <class E> T operator()(E &e) { return std::exp(m + s * vp_draw(e, 1)); }
};
}
