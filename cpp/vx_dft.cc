// Toroidal/poloidal transforms between Fourier space and real space, per thread.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <map>
#include <memory>

#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include "vmecpp/vmec/fourier_geometry/fourier_geometry.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/ideal_mhd_model/dft_data.h"
#include "vmecpp/vmec/ideal_mhd_model/dft_toroidal.h"
#include "vmecpp/vmec/ideal_mhd_model/fft_toroidal.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"

namespace py = pybind11;
using namespace vmecpp;
using Map = std::map<std::string, Eigen::VectorXd>;

static const char* kGeo[] = {"r1_e", "r1_o", "ru_e", "ru_o", "rv_e", "rv_o", "z1_e", "z1_o", "zu_e",
                             "zu_o", "zv_e", "zv_o", "lu_e", "lu_o", "lv_e", "lv_o", "rCon", "zCon"};

struct T {
  Sizes s;
  RadialPartitioning r;
  VmecINDATA id;
  FlowControl fc;
  HandoverStorage h;
  FourierBasisFastPoloidal fb;
  std::unique_ptr<RadialProfiles> p;
  std::unique_ptr<ToroidalFftPlans> plans;
  int ns;
  T(bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int ns_, int nt, int tid, bool fb_)
      : s(lasym, nfp, mpol, ntor, ntheta, nzeta), fc(fb_, 0.9, 1), h(&s), fb(&s), ns(ns_) {
    r.adjustRadialPartitioning(nt, tid, ns, fb_, false);
    fc.ns = ns;
    p = std::make_unique<RadialProfiles>(&r, &h, &id, &fc, -1, 0.05);
    p->sqrtSF.resize(r.nsMaxF1 - r.nsMinF1);
    for (int j = r.nsMinF1; j < r.nsMaxF1; ++j) p->sqrtSF[j - r.nsMinF1] = std::sqrt(j / (ns - 1.0));
    plans = std::make_unique<ToroidalFftPlans>(s.nZeta, s.nfp, s.mpol);
  }
  static void put(std::span<double> d, const Map& m, const char* k) {
    auto it = m.find(k);
    if (it == m.end()) return;
    if ((size_t)it->second.size() != d.size()) throw std::invalid_argument(std::string("size of ") + k);
    for (size_t i = 0; i < d.size(); ++i) d[i] = it->second[i];
  }
  Map to_real(const std::string& how, const Map& x, const Eigen::VectorXd& xmpq) {
    FourierGeometry g(&s, &r, ns);
#define F(k) put(g.k, x, #k);
    F(rmncc) F(zmnsc) F(lmnsc) F(rmnss) F(zmncs) F(lmncs)
    if (s.lasym) { F(rmnsc) F(zmncc) F(lmncc) F(rmncs) F(zmnss) F(lmnss) }
#undef F
    Map o;
    int n1 = s.nZnT * (r.nsMaxF1 - r.nsMinF1), nc = s.nZnT * (r.nsMaxFIncludingLcfs - r.nsMinF);
    for (auto k : kGeo) o[k] = Eigen::VectorXd::Constant(k[0] != 0 && k[1] == 'C' ? nc : n1, 4.25);
    auto S = [&](const char* k) { return std::span<double>(o[k].data(), o[k].size()); };
    RealSpaceGeometry geo{S("r1_e"), S("r1_o"), S("ru_e"), S("ru_o"), S("rv_e"), S("rv_o"), S("z1_e"), S("z1_o"), S("zu_e"),
                          S("zu_o"), S("zv_e"), S("zv_o"), S("lu_e"), S("lu_o"), S("lv_e"), S("lv_o"), S("rCon"), S("zCon")};
    if (how == "dft") FourierToReal3DSymmFastPoloidal(g, xmpq, r, s, *p, fb, geo);
    else if (how == "fft") FourierToReal3DSymmFastPoloidalFft(g, xmpq, r, s, *p, fb, *plans, geo);
    else FourierToReal3DAsymFastPoloidal(g, xmpq, r, s, *p, fb, geo);
    return o;
  }
  Map to_fourier(const std::string& how, const Map& f, const Eigen::VectorXd& xmpq, int vac) {
    auto S = [&](const char* k) {
      const auto& v = f.at(k);
      if (v.size() < s.nZnT * (r.nsMaxFIncludingLcfs - r.nsMinF)) throw std::invalid_argument(k);
      return std::span<const double>(v.data(), v.size());
    };
    RealSpaceForces d{S("armn_e"), S("armn_o"), S("azmn_e"), S("azmn_o"), S("blmn_e"), S("blmn_o"), S("brmn_e"), S("brmn_o"),
                      S("bzmn_e"), S("bzmn_o"), S("clmn_e"), S("clmn_o"), S("crmn_e"), S("crmn_o"), S("czmn_e"), S("czmn_o"),
                      S("frcon_e"), S("frcon_o"), S("fzcon_e"), S("fzcon_o")};
    FourierForces g(&s, &r, ns);
    g.setZero();
    auto st = (VacuumPressureState)vac;
    if (how == "dft" || how == "fft") {
      for (double& v : g.frcc) v = 3.5;  // the symmetric transform starts from zero itself
      if (how == "dft") ForcesToFourier3DSymmFastPoloidal(d, xmpq, r, fc, s, fb, st, g);
      else ForcesToFourier3DSymmFastPoloidalFft(d, xmpq, r, fc, s, fb, *plans, st, g);
    } else {
      ForcesToFourier3DAsymFastPoloidal(d, xmpq, r, fc, s, fb, st, g);
    }
    Map o;
#define F(k) o[#k] = Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(g.k.data(), g.k.size()));
    F(frcc) F(fzsc) F(flsc) F(frss) F(fzcs) F(flcs)
    if (s.lasym) { F(frsc) F(fzcc) F(flcc) F(frcs) F(fzss) F(flss) }
#undef F
    return o;
  }
};

PYBIND11_MODULE(vx_dft, m) {
  py::class_<T>(m, "T")
      .def(py::init<bool, int, int, int, int, int, int, int, int, bool>())
      .def("to_real", &T::to_real)
      .def("to_fourier", &T::to_fourier)
      .def("fft_available", [](T& t) { return t.plans->kernels_available(); })
      .def("sizes", [](T& t) {
        py::dict d;
#define F(x) d[#x] = t.s.x;
        F(nThetaEven) F(nThetaReduced) F(nThetaEff) F(nZeta) F(nZnT) F(mpol) F(ntor) F(lthreed)
#undef F
#define F(x) d[#x] = t.r.x;
        F(nsMinF) F(nsMaxF) F(nsMinF1) F(nsMaxF1) F(nsMaxFIncludingLcfs)
#undef F
        return d;
      });
  py::dict v;

  v["off"] = (int)VacuumPressureState::kOff;
  v["initializing"] = (int)VacuumPressureState::kInitializing;
  v["initialized"] = (int)VacuumPressureState::kInitialized;
  v["active"] = (int)VacuumPressureState::kActive;
  m.attr("vac") = v;
}
