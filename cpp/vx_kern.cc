// The local kernels of the force chain, over flat buffers.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <algorithm>
#include <map>

#include "vmecpp/vmec/ideal_mhd_model/bco_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/bcontra_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/constraint_force_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.h"
#include "vmecpp/vmec/ideal_mhd_model/jacobian_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/lambda_force_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/metric_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/mhdforce_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/pressure_kernel.h"

namespace py = pybind11;
using namespace vmecpp;
using V = Eigen::VectorXd;
using Map = std::map<std::string, V>;

// every output buffer starts with garbage and ends with a guard
struct Out {
  Map o;
  double* operator()(const char* k, int n) {
    V v = V::Constant(n + 4, -77.125);
    o[k] = v;
    return o[k].data();
  }
  Map take() {
    for (auto& [k, v] : o) {
      for (int i = v.size() - 4; i < v.size(); ++i)
        if (v[i] != -77.125) throw std::runtime_error("GUARD: " + k + " was written beyond its end");
      v.conservativeResize(v.size() - 4);
    }
    return o;
  }
};

PYBIND11_MODULE(vx_kern, m) {
  m.def("jacobian", [](Map& x, double ds, double dsi, int nZnT, int nsMinF1, int nsMinH, int nsMaxH) {
    int n = nZnT * (nsMaxH - nsMinH);
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeHalfGridJacobian(I("r1_e"), I("r1_o"), I("z1_e"), I("z1_o"), I("ru_e"), I("ru_o"), I("zu_e"), I("zu_o"), I("sqrtSH"), ds, dsi,
                            nZnT, nsMinF1, nsMinH, nsMaxH, o("r12", n), o("ru12", n), o("zu12", n), o("rs", n), o("zs", n), o("tau", n));
    return o.take();
  });
  m.def("metric", [](Map& x, bool lthreed, int nZnT, int nsMinF1, int nsMinH, int nsMaxH) {
    int n = nZnT * (nsMaxH - nsMinH);
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeMetricElements(I("r1_e"), I("r1_o"), I("ru_e"), I("ru_o"), I("zu_e"), I("zu_o"), I("rv_e"), I("rv_o"), I("zv_e"), I("zv_o"),
                          I("tau"), I("r12"), I("sqrtSF"), I("sqrtSH"), lthreed, nZnT, nsMinF1, nsMinH, nsMaxH, o("gsqrt", n), o("guu", n),
                          o("guv", n), o("gvv", n));
    return o.take();
  });
  m.def("bcontra", [](Map& x, bool lthreed, int nZnT, int nsMinF1, int nsMinH, int nsMaxH) {
    int n = nZnT * (nsMaxH - nsMinH);
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeBsupContra(I("lu_e"), I("lu_o"), I("lv_e"), I("lv_o"), I("gsqrt"), I("sqrtSH"), lthreed, nZnT, nsMinF1, nsMinH, nsMaxH,
                      o("bsupu", n), o("bsupv", n));
    return o.take();
  });
  m.def("bco", [](Map& x, bool lthreed) {
    int n = x.at("guu").size();
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeBCo(I("guu"), lthreed ? I("guv") : nullptr, I("gvv"), I("bsupu"), I("bsupv"), lthreed, n, o("bsubu", n), o("bsubv", n));
    return o.take();
  });
  m.def("pressure", [](Map& x) {
    int n = x.at("bsupu").size();
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeMagneticPressure(I("bsupu"), I("bsubu"), I("bsupv"), I("bsubv"), n, o("p", n));
    return o.take();
  });
  m.def("lambda_force", [](Map& x, double lamscale, bool lthreed, int nZnT, int nsMinF, int nsMinF1, int nsMinH, int nsMaxH, int nsMaxFL) {
    int n = nZnT * (nsMaxFL - nsMinF);
    Out o;
    V a = V::Constant(nZnT, 9e9), b = a, c = a, d = a;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeHybridLambdaForce(I("bsubu"), I("bsubv"), I("gvv"), I("gsqrt"), I("guv"), I("bsupu"), I("lu_e"), I("lu_o"), I("sqrtSH"),
                             I("sqrtSF"), I("radialBlending"), lamscale, lthreed, nZnT, nsMinF, nsMinF1, nsMinH, nsMaxH, nsMaxFL,
                             a.data(), b.data(), c.data(), d.data(), o("blmn_e", n), o("blmn_o", n), o("clmn_e", n), o("clmn_o", n));
    return o.take();
  });
  m.def("mhd_force", [](Map& x, double ds, int nZnT, int nsMinF, int nsMinF1, int nsMinH, int nsMaxH, int jMaxRZ, bool lthreed) {
    int n = nZnT * (jMaxRZ - nsMinF);
    Out o;
    std::vector<V> s(26, V::Constant(nZnT, 9e9));
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeMHDForceDensity(I("r1_e"), I("r1_o"), I("ru_e"), I("ru_o"), I("zu_e"), I("zu_o"), I("z1_o"), I("rv_e"), I("rv_o"), I("zv_e"),
                           I("zv_o"), I("r12"), I("ru12"), I("zu12"), I("rs"), I("zs"), I("tau"), I("totalPressure"), I("gsqrt"),
                           I("bsupu"), I("bsupv"), I("sqrtSF"), I("sqrtSH"), s[0].data(), s[1].data(), s[2].data(), s[3].data(),
                           s[4].data(), s[5].data(), s[6].data(), s[7].data(), s[8].data(), s[9].data(), s[10].data(), s[11].data(),
                           s[12].data(), s[13].data(), s[14].data(), s[15].data(), s[16].data(), s[17].data(), s[18].data(),
                           s[19].data(), s[20].data(), s[21].data(), s[22].data(), s[23].data(), s[24].data(), s[25].data(), ds, nZnT,
                           nsMinF, nsMinF1, nsMinH, nsMaxH, jMaxRZ, lthreed, o("armn_e", n), o("armn_o", n), o("azmn_e", n),
                           o("azmn_o", n), o("brmn_e", n), o("brmn_o", n), o("bzmn_e", n), o("bzmn_o", n), o("crmn_e", n),
                           o("crmn_o", n), o("czmn_e", n), o("czmn_o", n));
    return o.take();
  });
  m.def("constraint_eff", [](Map& x, int nZnT, int nsMinF, int nsMaxFL) {
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    ComputeEffectiveConstraintForce(I("rCon"), I("rCon0"), I("zCon"), I("zCon0"), I("ruFull"), I("zuFull"), nZnT, nsMinF, nsMaxFL,
                                    o("gConEff", nZnT * (nsMaxFL - nsMinF)));
    return o.take();
  });
  m.def("constraint_add", [](Map& x, int nZnT, int nsMinF, int nsMinF1, int nsMaxF) {
    int n = nZnT * (nsMaxF - nsMinF);
    Out o;
    auto I = [&](const char* k) { return x.at(k).data(); };
    auto Z = [&](const char* k) { double* p = o(k, n); std::fill(p, p + n, 0.5); return p; };
    AddConstraintForces(I("rCon"), I("rCon0"), I("zCon"), I("zCon0"), I("ruFull"), I("zuFull"), I("gCon"), I("sqrtSF"), nZnT, nsMinF,
                        nsMinF1, nsMaxF, Z("brmn_e"), Z("brmn_o"), Z("bzmn_e"), Z("bzmn_o"), o("frcon_e", n), o("frcon_o", n),
                        o("fzcon_e", n), o("fzcon_o", n));
    return o.take();
  });
  m.def("dealias", [](bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int ns, int nt, int tid, bool lfreeb, const V& faccon,
                      const V& tcon, const V& gConEff) {
    Sizes s(lasym, nfp, mpol, ntor, ntheta, nzeta);
    RadialPartitioning r;
    r.adjustRadialPartitioning(nt, tid, ns, lfreeb, false);
    FourierBasisFastPoloidal fb(&s);
    V gsc = V::Constant(s.ntor + 1, 3.0), gcs = gsc, out = V::Constant((r.nsMaxF - r.nsMinF) * s.nZnT, 5.0);
    deAliasConstraintForce(r, fb, s, faccon, tcon, gConEff, gsc, gcs, out);
    return out;
  });
  m.def("sizes", [](bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int ns, int nt, int tid, bool lfreeb) {
    Sizes s(lasym, nfp, mpol, ntor, ntheta, nzeta);
    RadialPartitioning r;
    r.adjustRadialPartitioning(nt, tid, ns, lfreeb, false);
    py::dict d;
#define F(x) d[#x] = s.x;
    F(nThetaEven) F(nThetaReduced) F(nThetaEff) F(nZeta) F(nZnT)
#undef F
#define F(x) d[#x] = r.x;
    F(nsMinF) F(nsMaxF) F(nsMinF1) F(nsMaxF1) F(nsMinH) F(nsMaxH) F(nsMaxFIncludingLcfs)
#undef F
    return d;
  });
}
