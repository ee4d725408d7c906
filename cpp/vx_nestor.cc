// The vacuum solvers (NESTOR, only-coils) on given surfaces and external fields.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <memory>
#include <stdexcept>
#ifdef _OPENMP
#include <omp.h>
#endif

#include "vmecpp/common/fourier_basis_fast_toroidal/fourier_basis_fast_toroidal.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
#include "vmecpp/free_boundary/nestor/nestor.h"
#include "vmecpp/free_boundary/only_coils/only_coils.h"
#include "vmecpp/free_boundary/singular_integrals/singular_integrals.h"
#include "vmecpp/free_boundary/surface_geometry/surface_geometry.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"

namespace py = pybind11;
using namespace vmecpp;
using VD = Eigen::VectorXd;

static std::span<const double> sp(const VD& v) { return {v.data(), static_cast<size_t>(v.size())}; }
static std::span<double> ms(VD& v) { return {v.data(), static_cast<size_t>(v.size())}; }

struct Solver {
  Sizes s;
  int threads;
  MGridProvider mg;
  VD matrix, bvec, bsq, br, bp, bz;
  std::vector<int> piv;
  std::vector<std::unique_ptr<TangentialPartitioning>> tp;
  std::vector<std::unique_ptr<FreeBoundaryBase>> fb;
  double bsubu = 0, bsubv = 0;

  Solver(bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int threads, bool nestor)
      : s(lasym, nfp, mpol, ntor, ntheta, nzeta), threads(threads) {
    int mnpd = (2 * s.ntor + 1) * (s.mpol + 2);
    if (s.lasym) mnpd *= 2;
    matrix.setZero(mnpd * mnpd);
    bvec.setZero(mnpd);
    piv.assign(mnpd, 0);
    for (VD* v : {&bsq, &br, &bp, &bz}) v->setZero(s.nZnT);
    for (int t = 0; t < threads; ++t) {
      tp.push_back(std::make_unique<TangentialPartitioning>(s.nZnT, threads, t));
      if (nestor) {
        fb.push_back(std::make_unique<Nestor>(&s, tp[t].get(), &mg, ms(matrix), ms(bvec), ms(bsq), std::span<int>(piv.data(), piv.size()), ms(br), ms(bp), ms(bz)));
      } else {
        fb.push_back(std::make_unique<OnlyCoils>(&s, tp[t].get(), &mg, ms(bsq), ms(br), ms(bp), ms(bz)));
      }
    }
  }
  // coefficients with respect to cos/sin (no internal scale factors), index n * mpol + m
  std::vector<VD> internal(const std::vector<VD>& c) const {
    FourierBasisFastToroidal b(&s);
    std::vector<VD> o = c;
    for (auto& v : o)
      for (int n = 0; n <= s.ntor; ++n)
        for (int m = 0; m < s.mpol; ++m) v[n * s.mpol + m] /= b.mscale[m] * b.nscale[n];
    return o;
  }
  py::dict update(const std::vector<VD>& coeffs, const VD& rax, const VD& zax, double current, const VD& fr, const VD& fp, const VD& fz, int skip, int sign) {
    for (const auto& c : coeffs)
      if (c.size() != s.mpol * (s.ntor + 1)) throw std::invalid_argument("coefficients");
    if (coeffs.size() != 8 || fr.size() != s.nZnT || fp.size() != s.nZnT || fz.size() != s.nZnT || rax.size() != s.nZeta || zax.size() != s.nZeta) throw std::invalid_argument("sizes");
    mg.SetFixedMagneticField(fr, fp, fz);
    const std::vector<VD> c = internal(coeffs);
    int granted = 0;
#ifdef _OPENMP
#pragma omp parallel num_threads(threads)
    {
#pragma omp single
      granted = omp_get_num_threads();
      if (granted == threads)
        fb[omp_get_thread_num()]->update(sp(c[0]), sp(c[1]), sp(c[2]), sp(c[3]), sp(c[4]), sp(c[5]), sp(c[6]), sp(c[7]), sign, sp(rax), sp(zax), &bsubu, &bsubv, current, skip);
    }
#else
    granted = 1;
    fb[0]->update(sp(c[0]), sp(c[1]), sp(c[2]), sp(c[3]), sp(c[4]), sp(c[5]), sp(c[6]), sp(c[7]), sign, sp(rax), sp(zax), &bsubu, &bsubv, current, skip);
#endif
    py::dict d;
    d["granted"] = granted;
    d["bsq"] = bsq;
    d["br"] = br;
    d["bp"] = bp;
    d["bz"] = bz;
    d["bsubu"] = bsubu;
    d["bsubv"] = bsubv;
    d["potential"] = bvec;
    return d;
  }
};

// The one-dimensional integrals of the singular part for given metric coefficients on the grid points.
static py::dict integrals(bool lasym, int mpol, int ntor, int ntheta, int nzeta, const std::vector<VD>& metric, int offset, int threads) {
  Sizes s(lasym, 1, mpol, ntor, ntheta, nzeta);
  FourierBasisFastToroidal b(&s);
  TangentialPartitioning tp(s.nZnT, threads, offset);
  SurfaceGeometry sg(&s, &b, &tp);
  const int n = tp.ztMax - tp.ztMin;
  if (metric.size() != 6 || metric[0].size() < n) throw std::invalid_argument("metric");
  VD* const dst[6] = {&sg.guu, &sg.guv, &sg.gvv, &sg.auu, &sg.auv, &sg.avv};
  for (int i = 0; i < 6; ++i) *dst[i] = metric[i].head(n);
  SingularIntegrals si(&s, &b, &tp, &sg, s.ntor, s.mpol + 1);
  const VD one = VD::Ones(n);
  si.update(one, true);
  py::dict d;
  d["n"] = n;
  d["Tp"] = si.Tlp;
  d["Tm"] = si.Tlm;
  d["Sp"] = si.Slp;
  d["Sm"] = si.Slm;
  return d;
}

PYBIND11_MODULE(vx_nestor, m) {
  m.def("integrals", &integrals);
  py::class_<Solver>(m, "Solver")
      .def(py::init<bool, int, int, int, int, int, int, bool>())
      .def("update", &Solver::update)
      .def_property_readonly("nZnT", [](const Solver& s) { return s.s.nZnT; })
      .def_property_readonly("nZeta", [](const Solver& s) { return s.s.nZeta; })
      .def_property_readonly("nThetaEff", [](const Solver& s) { return s.s.nThetaEff; })
      .def_property_readonly("nThetaEven", [](const Solver& s) { return s.s.nThetaEven; });
}
