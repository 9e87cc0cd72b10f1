// Stand-in for MPI: ranks are the threads of an enclosing parallel region (vp_world.n ranks), collectives are barriers
// around a published pointer table.  Outside of such a region there is exactly one rank.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#ifdef _OPENMP
#include <omp.h>
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype; // positive: size in bytes of a plain datatype; see vp_mpi_size
typedef int MPI_Op;
typedef int MPI_Status;
typedef int MPI_Request;
typedef int MPI_Group;
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL (-1)
#define MPI_SUCCESS 0
#define MPI_DATATYPE_NULL (-1)
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_UNSIGNED_CHAR 1
#define MPI_FLOAT (4 | 256)
#define MPI_DOUBLE (8 | 256)
#define MPI_INT (4 | 512)
#define MPI_UNSIGNED (4 | 1024)
#define MPI_LONG (8 | 512)
#define MPI_LONG_LONG (8 | 512)
#define MPI_LONG_LONG_INT (8 | 512)
#define MPI_UNSIGNED_LONG (8 | 1024)
#define MPI_CXX_BOOL (1 | 1024)
#define MPI_C_BOOL (1 | 1024)
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_PROD 6
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_THREAD_FUNNELED 1
struct VpWorld {
    int n = 1; // number of ranks
    const void *s[8]; void *r[8];
    const int *sc[8], *sd[8], *rc[8], *rd[8];
    size_t cnt[8]; int root[8]; int kind[8]; size_t esz[8];
};
inline VpWorld vp_world{};
inline size_t vp_mpi_size(MPI_Datatype t) { return t >= 65536 ? (size_t)(t / 65536) : (size_t)(t & 255); }
inline int vp_rank() {
#ifdef _OPENMP
    if (vp_world.n > 1 && omp_get_level() >= 1) return omp_get_ancestor_thread_num(1);
#endif
    return 0;
}
inline int vp_nranks() { return vp_world.n; }
inline void vp_mpi_barrier() {
#ifdef _OPENMP
    if (vp_world.n > 1) {
#pragma omp barrier
    }
#endif
}
extern "C" void vp_assert(bool c, const char *msg);
// all ranks enter with the same collective; checked because a mismatch is a deadlock in real MPI
inline void vp_mpi_enter(int kind) {
    vp_world.kind[vp_rank()] = kind;
    vp_mpi_barrier();
    for (int i = 0; i < vp_world.n; i++) vp_assert(vp_world.kind[i] == kind, "all ranks call the same collective");
}
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = 1; return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalized(int *f) { *f = 0; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = vp_rank(); return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = vp_world.n; return 0; }
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { *d = c; return 0; }
inline int MPI_Comm_free(MPI_Comm *) { return 0; }
inline int MPI_Abort(MPI_Comm, int) { std::exit(1); return 0; }
inline int MPI_Barrier(MPI_Comm) { vp_mpi_enter(1); vp_mpi_barrier(); return 0; }
inline double MPI_Wtime() { return 0; }
inline int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *nt) { *nt = (int)(n * vp_mpi_size(t)) * 65536; return 0; }
inline int MPI_Type_commit(MPI_Datatype *) { return 0; }
inline int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)vp_mpi_size(t); return 0; }
inline int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm) {
    int me = vp_rank();
    vp_world.s[me] = buf; vp_world.cnt[me] = (size_t)n * vp_mpi_size(t); vp_world.root[me] = root;
    vp_mpi_enter(2);
    for (int i = 0; i < vp_world.n; i++) vp_assert(vp_world.root[i] == root && vp_world.cnt[i] == vp_world.cnt[me], "broadcast arguments agree");
    if (me != root && vp_world.cnt[me]) memcpy(buf, vp_world.s[root], vp_world.cnt[me]);
    vp_mpi_barrier();
    return 0;
}
template <class T> inline void vp_red(T &a, const T &b, MPI_Op op) {
    if (op == MPI_MAX) a = a < b ? b : a; else if (op == MPI_MIN) a = b < a ? b : a; else if (op == MPI_SUM) a = a + b; else if (op == MPI_PROD) a = a * b;
    else if (op == MPI_LOR) a = (T)(a != (T)0 || b != (T)0); else a = (T)(a != (T)0 && b != (T)0);
}
template <class T> inline void vp_reduce(void *out, int n, MPI_Op op) {
    T *o = (T *)out;
    for (int k = 0; k < n; k++) {
        T a = ((const T *)vp_world.s[0])[k];
        for (int r = 1; r < vp_world.n; r++) vp_red(a, ((const T *)vp_world.s[r])[k], op);
        o[k] = a;
    }
}
inline int vp_reduce_any(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root) {
    int me = vp_rank();
    size_t bytes = (size_t)n * vp_mpi_size(t);
    bool mine = root < 0 || me == root;
    const void *src = (sb == MPI_IN_PLACE) ? rb : sb;
    vp_world.s[me] = src; vp_world.cnt[me] = bytes; vp_world.root[me] = root;
    vp_mpi_enter(3);
    for (int i = 0; i < vp_world.n; i++) vp_assert(vp_world.root[i] == root && vp_world.cnt[i] == bytes, "reduction arguments agree");
    char *tmp = (char *)malloc(bytes ? bytes : 1);
    if (mine) {
        if (t == MPI_DOUBLE) vp_reduce<double>(tmp, n, op);
        else if (t == MPI_FLOAT) vp_reduce<float>(tmp, n, op);
        else if (t == MPI_INT) vp_reduce<int>(tmp, n, op);
        else if (t == MPI_UNSIGNED) vp_reduce<unsigned>(tmp, n, op);
        else if (t == MPI_LONG) vp_reduce<long>(tmp, n, op);
        else if (t == MPI_UNSIGNED_LONG) vp_reduce<unsigned long>(tmp, n, op);
        else if (t == MPI_CXX_BOOL) vp_reduce<unsigned char>(tmp, n, op);
        else vp_assert(false, "reduction of an unknown datatype");
    }
    vp_mpi_barrier();
    if (mine && bytes) memcpy(rb, tmp, bytes);
    free(tmp);
    return 0;
}
inline int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { return vp_reduce_any(sb, rb, n, t, op, root); }
inline int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { return vp_reduce_any(sb, rb, n, t, op, -1); }
inline int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    int me = vp_rank();
    size_t bytes = (size_t)sn * vp_mpi_size(st);
    vp_world.s[me] = sb; vp_world.cnt[me] = bytes; vp_world.root[me] = root;
    vp_mpi_enter(4);
    if (me == root) {
        for (int i = 0; i < vp_world.n; i++) {
            vp_assert(vp_world.root[i] == root, "gather roots agree");
            vp_assert((vp_world.s[i] == MPI_IN_PLACE && i == me) || vp_world.cnt[i] == (size_t)rn * vp_mpi_size(rt), "gather sizes agree");
            if (vp_world.s[i] != MPI_IN_PLACE && rn > 0) memcpy((char *)rb + i * rn * vp_mpi_size(rt), vp_world.s[i], rn * vp_mpi_size(rt));
        }
    }
    vp_mpi_barrier();
    return 0;
}
inline int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm) {
    int me = vp_rank();
    size_t bytes = (size_t)rn * vp_mpi_size(rt);
    vp_world.s[me] = sb == MPI_IN_PLACE ? (const void *)((char *)rb + me * bytes) : sb; vp_world.cnt[me] = sb == MPI_IN_PLACE ? bytes : (size_t)sn * vp_mpi_size(st);
    vp_mpi_enter(5);
    for (int i = 0; i < vp_world.n; i++) {
        vp_assert(vp_world.cnt[i] == bytes, "allgather sizes agree");
        if (bytes && vp_world.s[i] != (char *)rb + i * bytes) memcpy((char *)rb + i * bytes, vp_world.s[i], bytes);
    }
    vp_mpi_barrier();
    return 0;
}
inline int vp_gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root) {
    int me = vp_rank();
    vp_world.s[me] = sb; vp_world.cnt[me] = (size_t)sn * vp_mpi_size(st); vp_world.root[me] = root;
    vp_mpi_enter(6);
    for (int i = 0; i < vp_world.n; i++) vp_assert(vp_world.root[i] == root, "gatherv roots agree");
    if (root < 0 || me == root) {
        size_t e = vp_mpi_size(rt);
        for (int i = 0; i < vp_world.n; i++) {
            if (vp_world.s[i] == MPI_IN_PLACE) continue;
            vp_assert(vp_world.cnt[i] == rc[i] * e, "gatherv counts match what each rank sends");
            if (rc[i] > 0) memcpy((char *)rb + rd[i] * e, vp_world.s[i], rc[i] * e);
        }
    }
    vp_mpi_barrier();
    return 0;
}
inline int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm) { return vp_gatherv(sb, sn, st, rb, rc, rd, rt, root); }
inline int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm) { return vp_gatherv(sb, sn, st, rb, rc, rd, rt, -1); }
inline int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm) {
    int me = vp_rank();
    vp_world.s[me] = sb; vp_world.sc[me] = sc; vp_world.sd[me] = sd; vp_world.root[me] = root; vp_world.esz[me] = vp_mpi_size(st);
    vp_mpi_enter(7);
    vp_assert(vp_world.root[0] == root, "scatterv roots agree");
    size_t e = vp_world.esz[root], n = (size_t)vp_world.sc[root][me] * e;
    vp_assert(n == (size_t)rn * vp_mpi_size(rt), "scatterv counts match what each rank receives");
    if (n && rb != MPI_IN_PLACE) memcpy(rb, (const char *)vp_world.s[root] + vp_world.sd[root][me] * e, n);
    vp_mpi_barrier();
    return 0;
}
inline int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm) {
    int me = vp_rank();
    size_t b = (size_t)sn * vp_mpi_size(st);
    vp_world.s[me] = sb; vp_world.cnt[me] = b;
    vp_mpi_enter(8);
    vp_assert(b == (size_t)rn * vp_mpi_size(rt), "alltoall sizes agree");
    for (int i = 0; i < vp_world.n; i++) { vp_assert(vp_world.cnt[i] == b, "alltoall sizes agree"); if (b) memcpy((char *)rb + i * b, (const char *)vp_world.s[i] + me * b, b); }
    vp_mpi_barrier();
    return 0;
}
inline int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm) {
    int me = vp_rank();
    vp_world.s[me] = sb; vp_world.sc[me] = sc; vp_world.sd[me] = sd; vp_world.esz[me] = vp_mpi_size(st);
    vp_mpi_enter(9);
    for (int i = 0; i < vp_world.n; i++) {
        size_t e = vp_mpi_size(rt), n = rc[i] * e;
        vp_assert(n == (size_t)vp_world.sc[i][me] * vp_world.esz[i], "alltoallv receive count matches the sender");
        if (n) memcpy((char *)rb + rd[i] * e, (const char *)vp_world.s[i] + (size_t)vp_world.sd[i][me] * vp_world.esz[i], n);
    }
    vp_mpi_barrier();
    return 0;
}
#ifdef _OPENMP
template <class F> inline void vp_run_ranks(int n, F f) {
    vp_world.n = n;
    if (n == 1) f(0);
    else {
#pragma omp parallel num_threads(n)
        f(omp_get_thread_num());
    }
    vp_world.n = 1;
}
#endif
