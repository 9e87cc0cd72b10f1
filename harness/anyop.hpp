#pragma once
static const double BIG = 1e6;
static double num(const char *s) { double x = vp_double(s); vp_assume((x >= -BIG) & (x <= BIG)); return x; }
// an operator about which nothing is assumed but that it is a function
struct AnyOp : public TOP {
    Teuchos::RCP<const TMAP> map; int limit; const double (*A)[3] = nullptr; mutable int calls = 0; mutable std::vector<std::vector<double>> in, out;
    AnyOp(const Teuchos::RCP<const TMAP> &m, int l = 100) : map(m), limit(l) {}
    Teuchos::RCP<const TMAP> getDomainMap() const { return map; }
    Teuchos::RCP<const TMAP> getRangeMap() const { return map; }
    bool hasTransposeApply() const { return false; }
    std::vector<double> eval(const std::vector<double> &x) const {
        if (++calls > limit) vp_ignore();
        if (A) { std::vector<double> r(x.size()); for (size_t i = 0; i < x.size(); i++) { r[i] = 0; for (size_t j = 0; j < x.size(); j++) r[i] += A[i][j] * x[j]; } return r; }
        for (int k = (int)in.size() - 1; k >= 0; k--) {
            bool same = true;
            for (size_t i = 0; i < x.size(); i++) same = same & (in[k][i] == x[i]);
            if (same) return out[k];
        }
        std::vector<double> y(x.size());
        for (auto &v : y) v = num("Ax");
        in.push_back(x); out.push_back(y);
        return y;
    }
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, scalar_type alpha = Teuchos::ScalarTraits<scalar_type>::one(), scalar_type beta = Teuchos::ScalarTraits<scalar_type>::zero()) const {
        auto x = X.getLocalView<Kokkos::HostSpace>(); auto y = Y.getLocalView<Kokkos::HostSpace>();
        Y.modify<Kokkos::HostSpace>();
        for (int c = 0; c < (int)x.dimension_1(); c++) {
            std::vector<double> v(x.dimension_0());
            for (size_t i = 0; i < v.size(); i++) v[i] = x(i, c);
            v = eval(v);
            for (size_t i = 0; i < v.size(); i++) y(i, c) = beta == 0 ? alpha * v[i] : alpha * v[i] + beta * y(i, c);
        }
    }
};
static Teuchos::RCP<TV> vec(const double *x, int n) { Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); return getTVFromVector(std::vector<double>(x, x + n), comm); }
