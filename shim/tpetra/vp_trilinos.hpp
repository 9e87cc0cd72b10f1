// Stand-in for the parts of Trilinos (Teuchos, Kokkos, Tpetra, Belos, Ifpack2) used by this code base.  It has the
// documented meaning of each call: distributed maps, vectors, sparse matrices and linear algebra over the ranks of mpi.h.
#pragma once
#include <mpi.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#ifndef VP_TRI_STOP
#define VP_TRI_STOP(ok, msg) vp_assert(ok, msg)
#endif
#define TEUCHOS_TEST_FOR_EXCEPTION(test, Exc, msg) { if (test) throw Exc("check failed"); }
#define TEUCHOS_ASSERT(test) VP_TRI_STOP(static_cast<bool>(test), "TEUCHOS_ASSERT(" #test ")")
namespace Teuchos {
enum ETransp { NO_TRANS, TRANS, CONJ_TRANS };
enum DataAccess { Copy, View };
template <class T> struct ScalarTraits { static T one() { return T(1); } static T zero() { return T(0); } };
template <class T> struct OrdinalTraits { static T invalid() { return T(-1); } };
template <class T> class RCP {
    T *p = nullptr;
  public:
    typedef T element_type;
    RCP() {}
    RCP(std::nullptr_t) {}
    explicit RCP(T *q) : p(q) {}
    RCP(const RCP &) = default;
    template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> RCP(const RCP<U> &o) : p(o.get()) {}
    RCP &operator=(const RCP &) = default;
    T *get() const { return p; }
    T *getRawPtr() const { return p; }
    T *operator->() const { VP_TRI_STOP(p != nullptr, "a null RCP is dereferenced"); return p; }
    T &operator*() const { VP_TRI_STOP(p != nullptr, "a null RCP is dereferenced"); return *p; }
    bool is_null() const { return p == nullptr; }
    bool is_valid_ptr() const { return p != nullptr; }
    void reset() { p = nullptr; }
    void reset(T *q) { p = q; }
    void swap(RCP &o) { T *t = p; p = o.p; o.p = t; }
    RCP<const T> getConst() const { return RCP<const T>(p); }
    explicit operator bool() const { return p != nullptr; }
};
template <class T, class U> bool operator==(const RCP<T> &a, const RCP<U> &b) { return a.get() == b.get(); }
template <class T, class U> bool operator!=(const RCP<T> &a, const RCP<U> &b) { return a.get() != b.get(); }
template <class T> bool operator==(const RCP<T> &a, std::nullptr_t) { return a.is_null(); }
template <class T> bool operator!=(const RCP<T> &a, std::nullptr_t) { return !a.is_null(); }
template <class T> RCP<T> rcp(T *p) { return RCP<T>(p); }
template <class T> RCP<T> rcp(T *p, bool) { return RCP<T>(p); }
template <class T> RCP<T> rcpFromRef(T &r) { return RCP<T>(&r); }
template <class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U> &a, bool thr = false) {
    T *p = dynamic_cast<T *>(a.get());
    if (!p && thr) throw std::bad_cast();
    return RCP<T>(p);
}
template <class T, class U> RCP<T> rcp_const_cast(const RCP<U> &a) { return RCP<T>(const_cast<T *>(a.get())); }
template <class T, class U> RCP<T> rcp_static_cast(const RCP<U> &a) { return RCP<T>(static_cast<T *>(a.get())); }
template <class T> class ArrayView {
    T *p; int n;
  public:
    ArrayView() : p(nullptr), n(0) {}
    ArrayView(T *q, int m) : p(q), n(m) {}
    T &operator[](int i) const { VP_TRI_STOP(i >= 0 && i < n, "array view index in range"); return p[i]; }
    int size() const { return n; }
    T *begin() const { return p; }
    T *end() const { return p + n; }
    T *getRawPtr() const { return p; }
};
template <class O> class Comm {
  public:
    virtual ~Comm() {}
    int getRank() const { return vp_rank(); }
    int getSize() const { return vp_nranks(); }
    void barrier() const { MPI_Barrier(MPI_COMM_WORLD); }
};
template <class O> class MpiComm : public Comm<O> {
  public:
    MpiComm(MPI_Comm) {}
    MPI_Comm getRawMpiComm() const { return MPI_COMM_WORLD; }
};
template <class O> class SerialComm : public Comm<O> {};
template <class O, class T> struct SumValueReductionOp { enum { op = MPI_SUM }; };
template <class O, class T> struct MaxValueReductionOp { enum { op = MPI_MAX }; };
template <class O, class T> struct MinValueReductionOp { enum { op = MPI_MIN }; };
enum EReductionType { REDUCE_SUM = MPI_SUM, REDUCE_MIN = MPI_MIN, REDUCE_MAX = MPI_MAX };
template <class T> inline MPI_Datatype vp_type() { return std::is_floating_point<T>::value ? (int)(sizeof(T) | 256) : std::is_signed<T>::value ? (int)(sizeof(T) | 512) : (int)(sizeof(T) | 1024); }
template <class O, class T, class Op> void reduceAll(const Comm<O> &, const Op &, int n, const T *in, T *out) { MPI_Allreduce(in, out, n, vp_type<T>(), (MPI_Op)Op::op, MPI_COMM_WORLD); }
template <class O, class T> void reduceAll(const Comm<O> &, EReductionType op, int n, const T *in, T *out) { MPI_Allreduce(in, out, n, vp_type<T>(), (MPI_Op)op, MPI_COMM_WORLD); }
class Time { public: void enable() {} void disable() {} void reset() {} double totalElapsedTime(bool = false) const { return 0; } std::string name() const { return ""; } };
class TimeMonitor {
  public:
    TimeMonitor(Time &, bool = false) {}
    ~TimeMonitor() {}
    static RCP<Time> getNewCounter(const std::string &) { return RCP<Time>(new Time); }
    static RCP<Time> getNewTimer(const std::string &) { return RCP<Time>(new Time); }
    static void summarize() {}
    static void zeroOutTimers() {}
};
class GlobalMPISession { public: GlobalMPISession(int *, char ***) {} };
class ParameterList { public: template <class T> ParameterList &set(const std::string &, const T &) { return *this; } };
inline RCP<ParameterList> parameterList() { return RCP<ParameterList>(new ParameterList); }
inline RCP<ParameterList> parameterList(const std::string &) { return parameterList(); }
template <class O, class T> class SerialDenseMatrix {
    O r, c; T *d;
  public:
    SerialDenseMatrix(O a, O b, bool = true) : r(a), c(b), d(new T[a * b > 0 ? a * b : 1]()) {}
    T &operator()(O i, O j) { VP_TRI_STOP(i >= 0 && i < r && j >= 0 && j < c, "dense matrix index"); return d[i + j * r]; }
    const T &operator()(O i, O j) const { VP_TRI_STOP(i >= 0 && i < r && j >= 0 && j < c, "dense matrix index"); return d[i + j * r]; }
    O numRows() const { return r; }
    O numCols() const { return c; }
    int multiply(ETransp ta, ETransp tb, T al, const SerialDenseMatrix &A, const SerialDenseMatrix &B, T be) {
        O K = ta == NO_TRANS ? A.c : A.r;
        for (O i = 0; i < r; i++)
            for (O j = 0; j < c; j++) {
                T s = 0;
                for (O k = 0; k < K; k++) s += (ta == NO_TRANS ? A(i, k) : A(k, i)) * (tb == NO_TRANS ? B(k, j) : B(j, k));
                (*this)(i, j) = be * (*this)(i, j) + al * s;
            }
        return 0;
    }
};
class oblackholestream {};
} // namespace Teuchos
namespace Kokkos {
struct HostSpace {};
struct OpenMP {};
struct Serial {};
template <class D, class... P> class View;
template <class T, class... P> class View<T *, P...> {
    T *d = nullptr; size_t n = 0;
  public:
    View() {}
    View(const std::string &, size_t m) : d(new T[m ? m : 1]()), n(m) {}
    T &operator[](size_t i) const { VP_TRI_STOP(i < n, "view index in range"); return d[i]; }
    T &operator()(size_t i) const { VP_TRI_STOP(i < n, "view index in range"); return d[i]; }
    size_t dimension_0() const { return n; }
    size_t extent(int) const { return n; }
    size_t size() const { return n; }
    T *data() const { return d; }
};
// two-dimensional view of a vector's local rows, column-major
template <class T> class VpView2 {
    T *d; size_t n, m, ld;
  public:
    typedef T value_type;
    VpView2() : d(nullptr), n(0), m(0), ld(0) {}
    VpView2(T *p, size_t a, size_t b, size_t l) : d(p), n(a), m(b), ld(l) {}
    T &operator()(size_t i, size_t j) const { VP_TRI_STOP(i < n && j < m, "vector view index in range"); return d[i + j * ld]; }
    size_t dimension_0() const { return n; }
    size_t dimension_1() const { return m; }
    size_t extent(int k) const { return k == 0 ? n : m; }
    T *data() const { return d; }
};
} // namespace Kokkos
namespace Tpetra {
typedef size_t global_size_t;
enum CombineMode { ADD, INSERT, REPLACE, ABSMAX, ZERO };
enum LocalGlobal { LocallyReplicated, GloballyDistributed };
inline std::string version() { return "stand-in"; }
struct VpNode {};
template <class LO = int, class GO = int, class NT = VpNode> class Map {
    std::vector<GO> gid;
    global_size_t nglob = 0;
    GO base = 0, minAll = 0;
    bool contig = true;
    Teuchos::RCP<const Teuchos::Comm<int>> comm;
    void contiguous(size_t local) {
        contig = true;
        GO off = base;
        nglob = local;
        if (vp_nranks() > 1) {
            int all[8]; int mine = (int)local;
            MPI_Allgather(&mine, 1, MPI_INT, all, 1, MPI_INT, MPI_COMM_WORLD);
            nglob = 0;
            for (int r = 0; r < vp_nranks(); r++) { if (r < vp_rank()) off += all[r]; nglob += all[r]; }
        }
        gid.resize(local);
        for (size_t i = 0; i < local; i++) gid[i] = off + (GO)i;
        minAll = off;
    }
  public:
    typedef LO local_ordinal_type;
    typedef GO global_ordinal_type;
    typedef NT node_type;
    Map(global_size_t g, size_t local, GO b, const Teuchos::RCP<const Teuchos::Comm<int>> &c) : base(b), comm(c) {
        contiguous(local);
        VP_TRI_STOP(g == (global_size_t)-1 || g == nglob, "global map size is the sum of local sizes");
    }
    Map(global_size_t g, GO b, const Teuchos::RCP<const Teuchos::Comm<int>> &c, LocalGlobal lg = GloballyDistributed) : base(b), comm(c) {
        if (lg == LocallyReplicated) { gid.resize(g); for (size_t i = 0; i < g; i++) gid[i] = b + (GO)i; nglob = g; minAll = b; return; }
        size_t n = g / vp_nranks();
        if ((size_t)vp_rank() < g % vp_nranks()) n++;
        contiguous(n);
    }
    Map(global_size_t g, const GO *p, LO n, GO b, const Teuchos::RCP<const Teuchos::Comm<int>> &c) : gid(p, p + n), base(b), comm(c) {
        int mine = n, tot = n;
        if (vp_nranks() > 1) MPI_Allreduce(&mine, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        nglob = tot;
        VP_TRI_STOP((g == (global_size_t)-1) | (g == nglob), "global map size is the sum of local sizes");
        contig = vp_nranks() == 1;
        for (LO i = 0; i < n && contig; i++) contig = gid[i] == b + i;
    }
    bool isContiguous() const { return contig; }
    size_t getNodeNumElements() const { return gid.size(); }
    size_t getLocalNumElements() const { return gid.size(); }
    global_size_t getGlobalNumElements() const { return nglob; }
    GO getIndexBase() const { return base; }
    GO getMinGlobalIndex() const { GO m = contig ? minAll : std::numeric_limits<GO>::max(); for (size_t i = 0; i < gid.size(); i++) if (i == 0 || gid[i] < m) m = gid[i]; return m; }
    GO getMaxGlobalIndex() const { GO m = contig ? minAll - 1 : std::numeric_limits<GO>::lowest(); for (size_t i = 0; i < gid.size(); i++) if (i == 0 || gid[i] > m) m = gid[i]; return m; }
    LO getLocalElement(GO g) const { for (size_t i = 0; i < gid.size(); i++) if (gid[i] == g) return (LO)i; return (LO)-1; }
    GO getGlobalElement(LO l) const { return l >= 0 && (size_t)l < gid.size() ? gid[l] : (GO)-1; }
    Teuchos::ArrayView<const GO> getMyGlobalIndices() const { return Teuchos::ArrayView<const GO>(gid.data(), (int)gid.size()); }
    Teuchos::ArrayView<const GO> getNodeElementList() const { return getMyGlobalIndices(); }
    Teuchos::RCP<const Teuchos::Comm<int>> getComm() const { return comm; }
    std::string description() const { return "map"; }
    bool isSameAs(const Map &o) const {
        if (this == &o) return true;
        int same = gid.size() == o.gid.size() && nglob == o.nglob;
        for (size_t i = 0; same && i < gid.size(); i++) same = gid[i] == o.gid[i];
        int all = same;
        if (vp_nranks() > 1) MPI_Allreduce(&same, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        return all;
    }
    bool isCompatible(const Map &o) const { return gid.size() == o.gid.size(); }
    LO vp_size() const { return (LO)gid.size(); }
    const GO *vp_gid() const { return gid.data(); }
};
template <class LO, class GO, class NT> class Import {
  public:
    Teuchos::RCP<const Map<LO, GO, NT>> src, tgt;
    Import(const Teuchos::RCP<const Map<LO, GO, NT>> &a, const Teuchos::RCP<const Map<LO, GO, NT>> &b) : src(a), tgt(b) {}
};
// gather a distributed column on every rank as (gid, value) pairs
struct VpGlobal { std::vector<int> g; std::vector<double> v; };
inline void vp_allgather_pairs(const int *gid, const double *val, int n, VpGlobal &o) {
    if (vp_nranks() == 1) { o.g.assign(gid, gid + n); o.v.assign(val, val + n); return; }
    int cnt[8], off[9];
    MPI_Allgather(&n, 1, MPI_INT, cnt, 1, MPI_INT, MPI_COMM_WORLD);
    off[0] = 0;
    for (int r = 0; r < vp_nranks(); r++) off[r + 1] = off[r] + cnt[r];
    o.g.resize(off[vp_nranks()]); o.v.resize(off[vp_nranks()]);
    MPI_Allgatherv(gid, n, MPI_INT, o.g.data(), cnt, off, MPI_INT, MPI_COMM_WORLD);
    MPI_Allgatherv(val, n, MPI_DOUBLE, o.v.data(), cnt, off, MPI_DOUBLE, MPI_COMM_WORLD);
}
template <class S, class LO, class GO, class NT> class Vector;
template <class S = double, class LO = int, class GO = int, class NT = VpNode> class MultiVector {
  protected:
    Teuchos::RCP<const Map<LO, GO, NT>> map;
    S *d = nullptr; size_t n = 0, m = 1, ld = 0;
    struct ViewTag {};
    MultiVector(ViewTag, const Teuchos::RCP<const Map<LO, GO, NT>> &mp, S *p, size_t cols, size_t l) : map(mp), d(p), n(mp->getNodeNumElements()), m(cols), ld(l) {}
    S reduce(S x, MPI_Op op) const {
        if (vp_nranks() == 1) return x;
        S o;
        MPI_Allreduce(&x, &o, 1, MPI_DOUBLE, op, MPI_COMM_WORLD);
        return o;
    }
    void alike(const MultiVector &o) const { VP_TRI_STOP(n == o.n && m == o.m, "vectors of equal length"); }
  public:
    typedef S scalar_type;
    typedef S impl_scalar_type;
    typedef S dot_type;
    typedef LO local_ordinal_type;
    typedef GO global_ordinal_type;
    typedef NT node_type;
    typedef Map<LO, GO, NT> map_type;
    MultiVector(const Teuchos::RCP<const map_type> &mp, size_t cols, bool = true) : map(mp), n(mp->getNodeNumElements()), m(cols), ld(n) { d = new S[n * m ? n * m : 1](); }
    MultiVector(const MultiVector &o, Teuchos::DataAccess a) : map(o.map), d(o.d), n(o.n), m(o.m), ld(o.ld) {
        if (a == Teuchos::Copy) { ld = n; d = new S[n * m ? n * m : 1]; for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = o.d[i + c * o.ld]; }
    }
    MultiVector(const MultiVector &) = default;
    MultiVector &operator=(const MultiVector &) = default;
    virtual ~MultiVector() {}
    Teuchos::RCP<const map_type> getMap() const { return map; }
    size_t getLocalLength() const { return n; }
    global_size_t getGlobalLength() const { return map->getGlobalNumElements(); }
    size_t getNumVectors() const { return m; }
    template <class Sp> Kokkos::VpView2<S> getLocalView() const { return Kokkos::VpView2<S>(d, n, m, ld); }
    template <class Sp> void modify() {}
    template <class Sp> void sync() {}
    Teuchos::RCP<const Vector<S, LO, GO, NT>> getVector(size_t c) const;
    Teuchos::RCP<Vector<S, LO, GO, NT>> getVectorNonConst(size_t c);
    void putScalar(const S &a) { for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = a; }
    void scale(const S &a) { for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = a * d[i + c * ld]; }
    void scale(const S &a, const MultiVector &A) { alike(A); for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = a * A.d[i + c * A.ld]; }
    void update(const S &al, const MultiVector &A, const S &be) {
        alike(A);
        bool z = be == S(0);
        for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = z ? al * A.d[i + c * A.ld] : be * d[i + c * ld] + al * A.d[i + c * A.ld];
    }
    void update(const S &al, const MultiVector &A, const S &be, const MultiVector &B, const S &ga) {
        alike(A); alike(B);
        bool z = ga == S(0);
        for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) {
            S v = al * A.d[i + c * A.ld] + be * B.d[i + c * B.ld];
            d[i + c * ld] = z ? v : ga * d[i + c * ld] + v;
        }
    }
    void elementWiseMultiply(S ab, const MultiVector &A, const MultiVector &B, S th) {
        alike(A); alike(B);
        bool z = th == S(0);
        for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = z ? ab * (A.d[i + c * A.ld] * B.d[i + c * B.ld]) : th * d[i + c * ld] + ab * (A.d[i + c * A.ld] * B.d[i + c * B.ld]);
    }
    void abs(const MultiVector &A) { alike(A); for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) d[i + c * ld] = std::fabs(A.d[i + c * A.ld]); }
    void randomize() { randomize(-1, 1); }
    void randomize(const S &a, const S &b) {
        for (size_t c = 0; c < m; c++) for (size_t i = 0; i < n; i++) { double u = vp_double("vec_random"); vp_assume((u >= a) & (u <= b)); d[i + c * ld] = u; }
    }
    template <class I> void doImport(const MultiVector &src, const I &, CombineMode) {
        VpGlobal g;
        for (size_t c = 0; c < m; c++) {
            vp_allgather_pairs(src.map->vp_gid(), src.d + c * src.ld, (int)src.n, g);
            for (size_t i = 0; i < n; i++)
                for (size_t k = 0; k < g.g.size(); k++) if (g.g[k] == map->vp_gid()[i]) d[i + c * ld] = g.v[k];
        }
    }
    std::string description() const { return "vector"; }
};
template <class S = double, class LO = int, class GO = int, class NT = VpNode> class Vector : public MultiVector<S, LO, GO, NT> {
    typedef MultiVector<S, LO, GO, NT> B;
    friend class MultiVector<S, LO, GO, NT>;
    Vector(typename B::ViewTag t, const Teuchos::RCP<const Map<LO, GO, NT>> &mp, S *p, size_t l) : B(t, mp, p, 1, l) {}
  public:
    using B::update; using B::scale;
    Vector(const Teuchos::RCP<const Map<LO, GO, NT>> &mp, bool = true) : B(mp, 1) {}
    Vector(const Vector &o, Teuchos::DataAccess a) : B(o, a) {}
    Vector(const Vector &) = default;
    Teuchos::RCP<Vector> offsetViewNonConst(const Teuchos::RCP<const Map<LO, GO, NT>> &mp, size_t off) {
        VP_TRI_STOP(off + mp->getNodeNumElements() <= this->n, "sub-vector view within the vector");
        return Teuchos::RCP<Vector>(new Vector(typename B::ViewTag(), mp, this->d + off, this->ld));
    }
    Teuchos::RCP<const Vector> offsetView(const Teuchos::RCP<const Map<LO, GO, NT>> &mp, size_t off) const { return const_cast<Vector *>(this)->offsetViewNonConst(mp, off); }
    S dot(const Vector &o) const { this->alike(o); S s = 0; for (size_t i = 0; i < this->n; i++) s += this->d[i] * o.d[i]; return this->reduce(s, MPI_SUM); }
    S norm2() const { S s = 0; for (size_t i = 0; i < this->n; i++) s += this->d[i] * this->d[i]; return std::sqrt(this->reduce(s, MPI_SUM)); }
    S norm1() const { S s = 0; for (size_t i = 0; i < this->n; i++) s += std::fabs(this->d[i]); return this->reduce(s, MPI_SUM); }
    S normInf() const { S s = 0; for (size_t i = 0; i < this->n; i++) s = std::max(s, std::fabs(this->d[i])); return this->reduce(s, MPI_MAX); }
    void replaceLocalValue(LO i, const S &v) { this->d[i] = v; }
    void sumIntoLocalValue(LO i, const S &v) { this->d[i] += v; }
};
template <class S, class LO, class GO, class NT> Teuchos::RCP<const Vector<S, LO, GO, NT>> MultiVector<S, LO, GO, NT>::getVector(size_t c) const {
    VP_TRI_STOP(c < m, "column of a multivector");
    return Teuchos::RCP<const Vector<S, LO, GO, NT>>(new Vector<S, LO, GO, NT>(ViewTag(), map, d + c * ld, ld));
}
template <class S, class LO, class GO, class NT> Teuchos::RCP<Vector<S, LO, GO, NT>> MultiVector<S, LO, GO, NT>::getVectorNonConst(size_t c) {
    VP_TRI_STOP(c < m, "column of a multivector");
    return Teuchos::RCP<Vector<S, LO, GO, NT>>(new Vector<S, LO, GO, NT>(ViewTag(), map, d + c * ld, ld));
}
template <class S = double, class LO = int, class GO = int, class NT = VpNode> class Operator {
  public:
    typedef S scalar_type;
    typedef LO local_ordinal_type;
    typedef GO global_ordinal_type;
    typedef NT node_type;
    virtual ~Operator() {}
    virtual Teuchos::RCP<const Map<LO, GO, NT>> getDomainMap() const = 0;
    virtual Teuchos::RCP<const Map<LO, GO, NT>> getRangeMap() const = 0;
    virtual void apply(const MultiVector<S, LO, GO, NT> &X, MultiVector<S, LO, GO, NT> &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, S alpha = S(1), S beta = S(0)) const = 0;
    virtual bool hasTransposeApply() const { return false; }
    std::string description() const { return "operator"; }
};
template <class S = double, class LO = int, class GO = int, class NT = VpNode> class RowMatrix : public Operator<S, LO, GO, NT> {};
template <class S = double, class LO = int, class GO = int, class NT = VpNode> class CrsMatrix : public RowMatrix<S, LO, GO, NT> {
    typedef Map<LO, GO, NT> map_type;
    typedef Teuchos::RCP<const map_type> Mp;
    Mp row, col, dom, ran;
  public:
    std::vector<size_t> vp_ptr; std::vector<LO> vp_ind; std::vector<S> vp_val;
    CrsMatrix() {}
    template <class A, class I, class V> CrsMatrix(const Mp &r, const Mp &c, const A &p, const I &ind, const V &val) : row(r), col(c), dom(r), ran(r) {
        size_t nr = r->getNodeNumElements();
        VP_TRI_STOP(p.dimension_0() == nr + 1 || (nr == 0 && p.dimension_0() <= 1), "row pointer array has one entry per row plus one");
        vp_ptr.resize(nr + 1);
        for (size_t i = 0; i <= nr; i++) vp_ptr[i] = p.dimension_0() ? p[i] : 0;
        VP_TRI_STOP(vp_ptr[nr] == ind.dimension_0() && vp_ptr[nr] == val.dimension_0(), "row pointers agree with the number of entries");
        vp_ind.resize(vp_ptr[nr]); vp_val.resize(vp_ptr[nr]);
        for (size_t k = 0; k < vp_ptr[nr]; k++) {
            vp_ind[k] = ind[k]; vp_val[k] = val[k];
            VP_TRI_STOP(ind[k] >= 0 && (size_t)ind[k] < c->getNodeNumElements(), "column index is in the column map");
        }
    }
    void vp_set(const Mp &r, const Mp &c, const Mp &d_, const Mp &rg) { row = r; col = c; dom = d_; ran = rg; }
    void fillComplete(const Mp &d_, const Mp &r_) { dom = d_; ran = r_; }
    void fillComplete() {}
    Mp getRowMap() const { return row; }
    Mp getColMap() const { return col; }
    Mp getDomainMap() const { return dom; }
    Mp getRangeMap() const { return ran; }
    size_t getNodeNumRows() const { return row->getNodeNumElements(); }
    size_t getNodeNumEntries() const { return vp_val.size(); }
    bool hasTransposeApply() const { return true; }
    void apply(const MultiVector<S, LO, GO, NT> &X, MultiVector<S, LO, GO, NT> &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, S alpha = S(1), S beta = S(0)) const {
        const bool t = mode != Teuchos::NO_TRANS;
        auto x = X.template getLocalView<Kokkos::HostSpace>(); auto y = Y.template getLocalView<Kokkos::HostSpace>();
        VP_TRI_STOP(x.dimension_0() == (t ? ran : dom)->getNodeNumElements() && y.dimension_0() == (t ? dom : ran)->getNodeNumElements() && x.dimension_1() == y.dimension_1(), "matrix and vector sizes agree");
        const LO nr = row->vp_size();
        for (size_t c = 0; c < x.dimension_1(); c++) {
            std::vector<S> acc(y.dimension_0(), S(0));
            if (!t) {
                VpGlobal g;
                // the operand on the column map
                std::vector<S> xc(col->vp_size());
                const Map<LO, GO, NT> &D = *dom;
                if (vp_nranks() > 1) {
                    std::vector<double> v(x.dimension_0());
                    for (size_t i = 0; i < v.size(); i++) v[i] = x(i, c);
                    vp_allgather_pairs(D.vp_gid(), v.data(), (int)v.size(), g);
                    for (LO k = 0; k < col->vp_size(); k++) {
                        bool f = false;
                        for (size_t j = 0; j < g.g.size(); j++) if (g.g[j] == col->vp_gid()[k]) { xc[k] = g.v[j]; f = true; }
                        VP_TRI_STOP(f, "column is in the domain map");
                    }
                } else
                    for (LO k = 0; k < col->vp_size(); k++) {
                        GO gg = col->vp_gid()[k];
                        LO l = k < D.vp_size() && D.vp_gid()[k] == gg ? k : D.getLocalElement(gg);
                        VP_TRI_STOP(l >= 0, "column is in the domain map");
                        xc[k] = x(l, c);
                    }
                for (LO i = 0; i < nr; i++) {
                    S s = 0;
                    for (size_t k = vp_ptr[i]; k < vp_ptr[i + 1]; k++) s += vp_val[k] * xc[vp_ind[k]];
                    LO l = ran->vp_size() == nr && ran->vp_gid()[i] == row->vp_gid()[i] ? i : ran->getLocalElement(row->vp_gid()[i]);
                    VP_TRI_STOP(l >= 0, "row is in the range map of its rank");
                    acc[l] += s;
                }
            } else {
                std::vector<S> yc(col->vp_size(), S(0));
                for (LO i = 0; i < nr; i++)
                    for (size_t k = vp_ptr[i]; k < vp_ptr[i + 1]; k++) yc[vp_ind[k]] += vp_val[k] * x(i, c);
                VpGlobal g;
                vp_allgather_pairs(col->vp_gid(), yc.data(), (int)yc.size(), g);
                for (size_t k = 0; k < g.g.size(); k++) { LO l = dom->getLocalElement(g.g[k]); if (l >= 0) acc[l] += g.v[k]; }
            }
            bool z = beta == S(0);
            for (size_t i = 0; i < acc.size(); i++) y(i, c) = z ? alpha * acc[i] : alpha * acc[i] + beta * y(i, c);
        }
    }
    std::string description() const { return "matrix"; }
};
template <class S, class LO, class GO, class NT = VpNode> class RowMatrixTransposer {
    Teuchos::RCP<const CrsMatrix<S, LO, GO, NT>> A;
  public:
    template <class M> RowMatrixTransposer(const Teuchos::RCP<M> &a) : A(a) {}
    Teuchos::RCP<CrsMatrix<S, LO, GO, NT>> createTranspose() {
        typedef Map<LO, GO, NT> map_type;
        auto dom = A->getDomainMap(); auto ran = A->getRangeMap(); auto row = A->getRowMap(); auto col = A->getColMap();
        // every entry of A as (global column, global row, value), on every rank
        std::vector<int> c, r; std::vector<double> v;
        for (LO i = 0; i < row->vp_size(); i++)
            for (size_t k = A->vp_ptr[i]; k < A->vp_ptr[i + 1]; k++) { c.push_back(col->vp_gid()[A->vp_ind[k]]); r.push_back(row->vp_gid()[i]); v.push_back(A->vp_val[k]); }
        VpGlobal gc, gr;
        vp_allgather_pairs(c.data(), v.data(), (int)c.size(), gc);
        vp_allgather_pairs(r.data(), v.data(), (int)r.size(), gr);
        std::vector<int> cols;
        const int n = dom->vp_size();
        std::vector<size_t> ptr(n + 1, 0); std::vector<LO> ind; std::vector<S> val;
        for (int i = 0; i < n; i++) {
            for (size_t k = 0; k < gc.g.size(); k++) if (gc.g[k] == dom->vp_gid()[i]) {
                int j = -1;
                for (size_t q = 0; q < cols.size(); q++) if (cols[q] == gr.g[k]) j = (int)q;
                if (j < 0) { j = (int)cols.size(); cols.push_back(gr.g[k]); }
                bool dup = false;
                for (size_t q = ptr[i]; q < ind.size(); q++) if (ind[q] == j) { val[q] += gc.v[k]; dup = true; }
                if (!dup) { ind.push_back(j); val.push_back(gc.v[k]); }
            }
            ptr[i + 1] = ind.size();
        }
        auto *T = new CrsMatrix<S, LO, GO, NT>;
        T->vp_ptr = ptr; T->vp_ind = ind; T->vp_val = val;
        Teuchos::RCP<const map_type> cm(new map_type((global_size_t)-1, cols.data(), (LO)cols.size(), 0, dom->getComm()));
        T->vp_set(dom, cm, ran, dom);
        return Teuchos::RCP<CrsMatrix<S, LO, GO, NT>>(T);
    }
};
namespace MatrixMarket {
template <class M> class Writer {
  public:
    template <class... A> void writeSparseFile(A &&...) {}
    template <class... A> void writeDenseFile(A &&...) {}
    template <class... A> void writeMapFile(A &&...) {}
};
template <class M> class Reader {};
} // namespace MatrixMarket
} // namespace Tpetra
namespace Belos {
enum ETrans { NOTRANS = 'N', TRANS = 'T', CONJTRANS = 'C' };
enum ReturnType { Converged, Unconverged };
enum MsgType { Errors = 0, Warnings = 1, FinalSummary = 8, TimingDetails = 16, StatusTestDetails = 32, IterationDetails = 4 };
template <class S, class MV, class OP> class OperatorTraits;
template <class S, class MV, class OP> class LinearProblem {
  public:
    Teuchos::RCP<const OP> op; Teuchos::RCP<MV> x; Teuchos::RCP<const MV> b;
    LinearProblem(const Teuchos::RCP<const OP> &a, const Teuchos::RCP<MV> &x_, const Teuchos::RCP<const MV> &b_) : op(a), x(x_), b(b_) {}
    bool setProblem() { return true; }
    void setRightPrec(const Teuchos::RCP<const OP> &) {}
    void setLeftPrec(const Teuchos::RCP<const OP> &) {}
};
// an iterative solver promises nothing about its result here: every vector is possible
template <class S, class MV, class OP> class SolverManager {
    Teuchos::RCP<LinearProblem<S, MV, OP>> p;
  public:
    void setProblem(const Teuchos::RCP<LinearProblem<S, MV, OP>> &q) { p = q; }
    void setParameters(const Teuchos::RCP<Teuchos::ParameterList> &) {}
    ReturnType solve() {
        auto v = p->x->template getLocalView<Kokkos::HostSpace>();
        for (size_t i = 0; i < v.dimension_0(); i++) v(i, 0) = vp_double("linear_solution");
        return Converged;
    }
    int getNumIters() const { return 1; }
};
template <class S, class MV, class OP> class SolverFactory {
  public:
    Teuchos::RCP<SolverManager<S, MV, OP>> create(const std::string &, const Teuchos::RCP<Teuchos::ParameterList> &) { return Teuchos::RCP<SolverManager<S, MV, OP>>(new SolverManager<S, MV, OP>); }
};
} // namespace Belos
namespace Ifpack2 { class Factory {}; }
