// U07: sorting data with tags
#include "vp.h"
#include "unstable.hpp"
#include "Util/SortUtil.hpp"
template <class T> static void run(int n, T (*in)(const char *), bool dbl) {
    std::vector<T> tag(n), t0; std::vector<int> data(n);
    for (int i = 0; i < n; i++) { tag[i] = in("tag"); data[i] = 100 + i; }
    t0 = tag;
    sortDataWithTag(tag, data);
    vp_assert_eqi(tag.size(), n, "number of tags kept"); vp_assert_eqi(data.size(), n, "number of data kept");
    bool seen[8] = {0};
    for (int i = 0; i < n; i++) {
        int64_t k = data[i] - 100;
        vp_assert(k >= 0 && k < n, "data item is one of the inputs");
        k = vp_concretize(k);
        vp_assert(!seen[k], "no data item is duplicated"); seen[k] = true;
        vp_assert(tag[i] == t0[k], "tag and data stay together");
        if (i > 0) {
            vp_assert(tag[i - 1] <= tag[i], "tags ascend");
            vp_assert(data[i - 1] < data[i] || tag[i - 1] < tag[i], "equal tags keep their order");
        }
    }
    vp_reach(n == 0 ? "empty" : "sorted");
}
VP_ENTRY(u07_int) { run<int>(vp_choose("n", 0, VP_N), vp_i32, false); }
VP_ENTRY(u07_double) { run<double>(vp_choose("n", 0, VP_N), vp_double, true); }
VP_ENTRY(u07_threads) { vp_threads(3); run<int>(vp_choose("n", 0, 3), vp_i32, false); }
