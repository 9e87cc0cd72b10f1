// Stand-in for the Zoltan data directory: update publishes (id, user data) pairs of all ranks, replacing earlier data
// of the same id, find copies the data of each listed id (data of unknown ids is left alone).  Both are collective.
#pragma once
#include "zoltan_types.h"
#include <mpi.h>
#include <cstring>
#include <vector>
class Zoltan_DD {
    std::vector<ZOLTAN_ID_TYPE> ids; std::vector<char> user; int len = -1, ng = 1;
  public:
    Zoltan_DD() = default;
    int Create(const MPI_Comm &, const int &num_gid, const int &num_lid, const int &user_length, const int &, const int &) {
        vp_assert(num_gid >= 1 && num_lid >= 0 && user_length >= 0, "directory dimensions");
        vp_mpi_enter(20); vp_mpi_barrier();
        len = user_length; ng = num_gid; ids.clear(); user.clear();
        return ZOLTAN_OK;
    }
    int Update(ZOLTAN_ID_PTR gid, ZOLTAN_ID_PTR, char *data, int *, const int &count) {
        vp_assert(len >= 0, "directory was created"); vp_assert(ng == 1, "single word ids");
        int me = vp_rank();
        vp_world.s[me] = gid; vp_world.r[me] = data; vp_world.cnt[me] = count;
        vp_mpi_enter(21);
        for (int r = 0; r < vp_world.n; r++)
            for (size_t i = 0; i < vp_world.cnt[r]; i++) {
                ZOLTAN_ID_TYPE g = ((const ZOLTAN_ID_TYPE *)vp_world.s[r])[i];
                size_t k = 0;
                while (k < ids.size() && ids[k] != g) k++;
                if (k == ids.size()) { ids.push_back(g); user.resize(user.size() + len); }
                if (vp_world.r[r] && len) memcpy(user.data() + k * len, (const char *)vp_world.r[r] + i * len, len);
            }
        vp_mpi_barrier();
        return ZOLTAN_OK;
    }
    int Find(ZOLTAN_ID_PTR gid, ZOLTAN_ID_PTR, char *data, int *, const int &count, int *owner) const {
        vp_assert(len >= 0, "directory was created");
        vp_mpi_enter(22); vp_mpi_barrier();
        int rc = ZOLTAN_OK;
        for (int i = 0; i < count; i++) {
            size_t k = 0;
            while (k < ids.size() && ids[k] != gid[i]) k++;
            if (k == ids.size()) { rc = ZOLTAN_WARN; continue; }
            if (data && len) memcpy(data + (size_t)i * len, user.data() + k * len, len);
        }
        return rc;
    }
    int Remove(ZOLTAN_ID_PTR, const int &) { return ZOLTAN_OK; }
    void Stats() const {}
    int Print() const { return ZOLTAN_OK; }
};
