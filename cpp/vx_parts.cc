// Sizes, radial and tangential partitioning, thread-count adjustment.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/util/util.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"

namespace py = pybind11;
using namespace vmecpp;

PYBIND11_MODULE(vx_parts, m) {
  m.def("sizes", [](bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int mg, int ng) {
    Sizes s(lasym, nfp, mpol, ntor, ntheta, nzeta, mg, ng);
    py::dict d;
#define F(x) d[#x] = s.x;
    F(lasym) F(nfp) F(mpol) F(ntor) F(mpolGeometry) F(ntorGeometry) F(ntheta) F(nZeta) F(lthreed) F(num_basis)
    F(nThetaEven) F(nThetaReduced) F(nThetaEff) F(nZnT) F(wInt) F(mnsize) F(mnmax) F(mnyq2) F(nnyq2) F(mnyq) F(nnyq)
    F(mnmax_nyq)
#undef F
    return d;
  });
  m.def("radial", [](int nthreads, int ns, bool lfreeb) {
    py::list out;
    for (int t = 0; t < nthreads; ++t) {
      RadialPartitioning r;
      r.adjustRadialPartitioning(nthreads, t, ns, lfreeb, false);
      py::dict d;
#define F(x) d[#x] = r.x;
      F(nsMinF1) F(nsMaxF1) F(nsMinH) F(nsMaxH) F(nsMinFi) F(nsMaxFi) F(nsMinF) F(nsMaxF) F(nsMaxFIncludingLcfs)
#undef F
      d["num_threads"] = r.get_num_threads();
      d["thread_id"] = r.get_thread_id();
      d["has_boundary"] = r.has_boundary();
      out.append(d);
    }
    return out;
  });
  // a history: the same object is re-partitioned step after step
  m.def("radial_history", [](const std::vector<std::tuple<int, int, int, bool>>& steps) {
    py::list out;
    RadialPartitioning r;
    for (auto [nt, id, ns, lf] : steps) {
      r.adjustRadialPartitioning(nt, id, ns, lf, false);
      out.append(py::make_tuple(r.nsMinF1, r.nsMaxF1, r.nsMinH, r.nsMaxH, r.nsMinFi, r.nsMaxFi, r.nsMinF, r.nsMaxF,
                                r.nsMaxFIncludingLcfs, r.has_boundary()));
    }
    return out;
  });
  m.def("tangential", [](int nznt, int nthreads) {
    py::list out;
    for (int t = 0; t < nthreads; ++t) {
      TangentialPartitioning p(nznt, nthreads, t);
      out.append(py::make_tuple(p.ztMin, p.ztMax));
    }
    return out;
  });
  m.def("adjust", [](int mt, int n) { return vmec_adjust_num_threads(mt, n); });
  m.def("adjust_vac", [](int mt, int n) { return vmec_adjust_vacuum_num_threads(mt, n); });
  m.def("signum", [](int x) { return signum(x); });
}
