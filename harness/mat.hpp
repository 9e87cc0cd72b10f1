#pragma once
// sparse matrix with the given dense contents
template <class F> static Teuchos::RCP<TCMAT> dense_matrix(const Teuchos::RCP<const TMAP> &row, const Teuchos::RCP<const TMAP> &dom, F f) {
    int nr = row->getNodeNumElements(), ng = dom->getGlobalNumElements();
    std::vector<int> cols(ng);
    for (int j = 0; j < ng; j++) cols[j] = j;
    Teuchos::RCP<TMAP> col(new TMAP(Teuchos::OrdinalTraits<int>::invalid(), cols.data(), ng, 0, row->getComm()));
    Kokkos::View<size_t *> p("p", nr + 1); Kokkos::View<int *> ind("i", nr * ng); Kokkos::View<double *> val("v", nr * ng);
    for (int i = 0; i < nr; i++) { p[i] = i * ng; for (int j = 0; j < ng; j++) { ind[i * ng + j] = j; val[i * ng + j] = f(row->getMyGlobalIndices()[i], j); } }
    p[nr] = nr * ng;
    Teuchos::RCP<TCMAT> A(new TCMAT(row, col, p, ind, val));
    A->fillComplete(dom, row);
    return A;
}
