#pragma once
#include "h.h"
template <class T> void shuffle(Rng &r, std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
template <class T> void shuffle2(Rng &r, std::vector<T> &a, std::vector<T> &b) { for (size_t i = a.size(); i > 1; i--) { size_t j = r.below(i); std::swap(a[i - 1], a[j]); std::swap(b[i - 1], b[j]); } }
inline std::vector<int> range_vec(int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; return v; }
inline std::vector<int> subset(Rng &r, int n) { std::vector<int> v = range_vec(n); shuffle(r, v); v.resize(1 + r.below(n)); if (r.chance(50)) std::sort(v.begin(), v.end()); return v; }

// MPI traffic of the application itself, on the communicator it gave to the library: it must neither see nor disturb the library's messages.
struct UserTraffic {
  int mode = 0, me = 0, n = 0, src = -1, dst = -1, tag = 0; MPI_Comm cm = MPI_COMM_NULL; MPI_Request rq[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL}; long in = -1, out = 0;
  void start(uint64_t seed, int me_, int n_, MPI_Comm c, int s = -1, int d = -1, int t = 0) {
    Rng r{sim_mix(seed, 7171)}; mode = r.chance(55) ? 0 : 1 + (int)r.below(2); if (!mode) return; me = me_; n = n_; cm = c; src = s; dst = d; tag = t; if (src < 0) { src = (int)r.below(n); dst = (int)r.below(n); tag = (int)r.pick({0, 1, 42, 100, 101, 102}); } out = 0x5EED0000l + src;
    if (mode == 1) MPI_Irecv(&in, 8, MPI_BYTE, MPI_ANY_SOURCE, MPI_ANY_TAG, cm, &rq[0]);      // a receive for anything, answered only at the end
    else if (me == src) MPI_Isend(&out, 8, MPI_BYTE, dst, tag, cm, &rq[1]);                     // a message sent early, received only at the end
  }
  void finish() {
    if (!mode) return; long exp = mode == 1 ? 0x5EED0000l + (me + n - 1) % n : out; MPI_Status st; int len = 0;
    if (mode == 1) { out = 0x5EED0000l + me; MPI_Isend(&out, 8, MPI_BYTE, (me + 1) % n, 5, cm, &rq[1]); MPI_Wait(&rq[0], &st); MPI_Get_count(&st, MPI_BYTE, &len); CHECK(in == exp && len == 8 && st.MPI_TAG == 5, "user-traffic", "a receive posted by the application got %ld (%d bytes, tag %d) instead of the application's own message %ld", in, len, st.MPI_TAG, exp); }
    else if (me == dst) { MPI_Recv(&in, 8, MPI_BYTE, src, tag, cm, &st); MPI_Get_count(&st, MPI_BYTE, &len); CHECK(in == exp && len == 8, "user-traffic", "the application's own message from %d arrived as %ld (%d bytes) instead of %ld", src, in, len, exp); }
    if (rq[1] != MPI_REQUEST_NULL) MPI_Wait(&rq[1], MPI_STATUS_IGNORE); cnt(CN_MSG);
  }
};
