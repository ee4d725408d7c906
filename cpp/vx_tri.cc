// Tridiagonal solvers: serial, and the pipelined one run by a real OpenMP team.
#include <omp.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <mutex>
#include <unistd.h>

#include "vmecpp/common/util/util.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"

namespace py = pybind11;
using namespace vmecpp;
using V = std::vector<double>;
using VV = std::vector<V>;

PYBIND11_MODULE(vx_tri, m) {
  m.def("serial", [](V a, V d, V b, VV c, int stride, int jmin, int jmax) {
    V flat(c.size() * stride, -77.0);
    for (size_t k = 0; k < c.size(); ++k)
      for (size_t j = 0; j < c[k].size(); ++j) flat[k * stride + j] = c[k][j];
    TridiagonalSolveSerial(a, d, b, flat.data(), stride, jmin, jmax, (int)c.size());
    VV out(c.size());
    for (size_t k = 0; k < c.size(); ++k) out[k].assign(flat.begin() + k * stride, flat.begin() + (k + 1) * stride);
    return out;
  });
  // a/d/b: [mn][ns]; c: [k][mn][ns]; returns (xr, xz) with the same layout as c
  m.def("openmp", [](VV ar, VV dr, VV br, std::vector<VV> cr, VV az, VV dz, VV bz, std::vector<VV> cz,
                     std::vector<int> jmin, int jmax, int ns, bool lfreeb, int nthreads, std::vector<int> delays,
                     int repeats) {
    const int mnmax = (int)ar.size(), nrhs = (int)cr.size();
    std::vector<VV> xr, xz;
    std::vector<std::mutex> mut(nthreads);
    V har(mnmax), haz(mnmax);
    VV hcr(nrhs, V(mnmax)), hcz(nrhs, V(mnmax));
    bool same = true;
    for (int rep = 0; rep < repeats; ++rep) {
      std::vector<VV> or_(nrhs, VV(mnmax, V(ns, 0.0))), oz_(or_);
      {
        py::gil_scoped_release rel;
        omp_set_dynamic(0);
#pragma omp parallel num_threads(nthreads)
        {
          const int id = omp_get_thread_num();
          RadialPartitioning r;
          r.adjustRadialPartitioning(nthreads, id, ns, lfreeb, false);
          const int lo = r.nsMinF, hi = r.nsMaxF, n = (hi - lo) * mnmax;
          V a1(n), d1(n), b1(n), a2(n), d2(n), b2(n);
          VV c1(nrhs, V(n)), c2(nrhs, V(n));
          for (int j = lo; j < hi; ++j)
            for (int mn = 0; mn < mnmax; ++mn) {
              const int i = (j - lo) * mnmax + mn;
              a1[i] = ar[mn][j]; d1[i] = dr[mn][j]; b1[i] = br[mn][j];
              a2[i] = az[mn][j]; d2[i] = dz[mn][j]; b2[i] = bz[mn][j];
              for (int k = 0; k < nrhs; ++k) { c1[k][i] = cr[k][mn][j]; c2[k][i] = cz[k][mn][j]; }
            }
          std::vector<std::span<double>> s1, s2;
          for (int k = 0; k < nrhs; ++k) { s1.emplace_back(c1[k]); s2.emplace_back(c2[k]); }
          if (id < (int)delays.size() && delays[id] > 0) usleep(delays[id]);
#pragma omp barrier
          TridiagonalSolveOpenMP(a1, d1, b1, s1, a2, d2, b2, s2, jmin, jmax, mnmax, nrhs, mut, nthreads, id, lo, hi,
                                 har, hcr, haz, hcz);
          for (int j = lo; j < hi; ++j)
            for (int mn = 0; mn < mnmax; ++mn)
              for (int k = 0; k < nrhs; ++k) {
                or_[k][mn][j] = c1[k][(j - lo) * mnmax + mn];
                oz_[k][mn][j] = c2[k][(j - lo) * mnmax + mn];
              }
        }
      }
      if (rep == 0) { xr = or_; xz = oz_; } else same = same && xr == or_ && xz == oz_;
    }
    return py::make_tuple(xr, xz, same);
  });
}
