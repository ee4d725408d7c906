// The intermediate parts of OutputQuantities that the Python API does not show: fill with given numbers, dump, save and load.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <functional>
#include <limits>
#include <random>

#include "util/hdf5_io/hdf5_io.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"

namespace py = pybind11;
using namespace vmecpp;

namespace {
struct Dump {
  py::dict d;
  std::string pre;
  void operator()(const char* n, Eigen::VectorXd& v) { d[(pre + n).c_str()] = v; }
  void operator()(const char* n, RowMatrixXd& v) { d[(pre + n).c_str()] = v; }
  void operator()(const char* n, double& v) { d[(pre + n).c_str()] = v; }
  void operator()(const char* n, int& v) { d[(pre + n).c_str()] = v; }
};
struct Fill {
  std::mt19937_64 g;
  double num() {
    switch (g() % 12) {
      case 0: return 0.0;
      case 1: return -0.0;
      case 2: return std::numeric_limits<double>::quiet_NaN();
      case 3: return std::numeric_limits<double>::infinity();
      case 4: return 5e-324;
      default: return std::ldexp((double)(int64_t)g(), (int)(g() % 200) - 150);
    }
  }
  void operator()(const char*, Eigen::VectorXd& v) {
    v.resize(g() % 7);
    for (auto& x : v) x = num();
  }
  void operator()(const char*, RowMatrixXd& v) {
    v.resize(g() % 6, g() % 6);
    for (int i = 0; i < v.size(); ++i) v.data()[i] = num();
  }
  void operator()(const char*, double& v) { v = num(); }
  void operator()(const char*, int& v) { v = (int)g(); }
};
#define F(x) f(#x, o.x);
template <class T>
void parts(OutputQuantities& q, T& f, std::function<void(const char*)> at) {
  {
    at("vmec_internal_results.");
    auto& o = q.vmec_internal_results;
    F(sign_of_jacobian) F(num_full) F(num_half) F(nZnT_reduced) F(sqrtSH) F(sqrtSF) F(sm) F(sp) F(phipF) F(chipF) F(phipH) F(chipH) F(currH) F(phiF) F(iotaF) F(spectral_width)
    F(bvcoH) F(dVdsH) F(massH) F(presH) F(iotaH) F(rmncc) F(rmnss) F(rmnsc) F(rmncs) F(zmnsc) F(zmncs) F(zmncc) F(zmnss) F(lmnsc) F(lmncs) F(lmncc) F(lmnss) F(r_e) F(r_o) F(z_e) F(z_o)
    F(ru_e) F(ru_o) F(zu_e) F(zu_o) F(rv_e) F(rv_o) F(zv_e) F(zv_o) F(ruFull) F(zuFull) F(r12) F(ru12) F(zu12) F(rs) F(zs) F(gsqrt) F(guu) F(guv) F(gvv) F(bsupu) F(bsupv) F(bsubu) F(bsubv)
    F(bsubvF) F(total_pressure) F(currv)
  }
  {
    at("remaining_metric.");
    auto& o = q.remaining_metric;
    F(rv12) F(zv12) F(rs12) F(zs12) F(gsu) F(gsv)
  }
  {
    at("b_cylindrical.");
    auto& o = q.b_cylindrical;
    F(b_r) F(b_phi) F(b_z)
  }
  {
    at("bsubs_half.");
    auto& o = q.bsubs_half;
    F(bsubs_half)
  }
  {
    at("bsubs_full.");
    auto& o = q.bsubs_full;
    F(bsubs_full)
  }
  {
    at("covariant_b_derivatives.");
    auto& o = q.covariant_b_derivatives;
    F(bsubsu) F(bsubsv) F(bsubuv) F(bsubvu)
  }
  {
    at("jxbout.");
    auto& o = q.jxbout;
    F(itheta) F(izeta) F(bdotk) F(amaxfor) F(aminfor) F(avforce) F(pprim) F(jdotb) F(bdotb) F(bdotgradv) F(jpar2) F(jperp2) F(phin) F(jsupu3) F(jsupv3) F(jsups3) F(bsupu3) F(bsupv3) F(jcrossb) F(jxb_gradp) F(jdotb_sqrtg) F(sqrtg3) F(bsubu3) F(bsubv3) F(bsubs3)
  }
  {
    at("mercier_intermediate.");
    auto& o = q.mercier_intermediate;
    F(s) F(shear) F(vpp) F(d_pressure_d_s) F(d_toroidal_current_d_s) F(phip_realH) F(phip_realF) F(vp_real) F(torcur) F(gsqrt_full) F(bdotj) F(gpp) F(b2) F(tpp) F(tbb) F(tjb) F(tjj)
  }
  {
    at("mercier.");
    auto& o = q.mercier;
    F(s) F(toroidal_flux) F(iota) F(shear) F(d_volume_d_s) F(well) F(toroidal_current) F(d_toroidal_current_d_s) F(pressure) F(d_pressure_d_s) F(DMerc) F(Dshear) F(Dwell) F(Dcurr) F(Dgeod)
  }
  {
    at("threed1_first_table_intermediate.");
    auto& o = q.threed1_first_table_intermediate;
    F(tau) F(beta_vol) F(overr) F(beta_axis) F(presf) F(phipf_loc) F(phi1) F(chi1) F(chi) F(bvcoH) F(bucoH) F(jcurv) F(jcuru) F(presgrad) F(vpphi) F(equif) F(bucof) F(bvcof)
  }
  {
    at("threed1_first_table.");
    auto& o = q.threed1_first_table;
    F(s) F(radial_force) F(toroidal_flux) F(iota) F(avg_jsupu) F(avg_jsupv) F(d_volume_d_phi) F(d_pressure_d_phi) F(spectral_width) F(pressure) F(buco_full) F(bvco_full) F(j_dot_b) F(b_dot_b)
  }
  {
    at("threed1_geometric_magnetic_intermediate.");
    auto& o = q.threed1_geometric_magnetic_intermediate;
    F(anorm) F(vnorm) F(surf_area) F(circumference_sum) F(rcenin) F(aminr2in) F(bminz2in) F(bminz2) F(sump) F(btor_vac) F(btor1) F(dbtor) F(phat) F(redge) F(delphid_exact) F(musubi) F(rshaf1) F(rshaf2) F(rshaf) F(fpsi0) F(sumbtot) F(sumbtor) F(sumbpol) F(sump20) F(sump2) F(jPS2) F(jpar_perp_sum) F(jparPS_perp_sum) F(s2) F(fac) F(r3v)
  }
  {
    at("threed1_geometric_magnetic.");
    auto& o = q.threed1_geometric_magnetic;
    F(toroidal_flux) F(circum_p) F(surf_area_p) F(cross_area_p) F(volume_p) F(Rmajor_p) F(Aminor_p) F(aspect) F(kappa_p) F(rcen) F(aminr1) F(pavg) F(factor) F(b0) F(rmax_surf) F(rmin_surf) F(zmax_surf) F(bmin) F(bmax) F(waist) F(height) F(betapol) F(betatot) F(betator) F(VolAvgB) F(IonLarmor) F(jpar_perp) F(jparPS_perp) F(toroidal_current) F(rbtor) F(rbtor0) F(psi) F(ygeo) F(yinden) F(yellip) F(ytrian) F(yshift) F(loc_jpar_perp) F(loc_jparPS_perp)
  }
  {
    at("threed1_volumetrics.");
    auto& o = q.threed1_volumetrics;
    F(int_p) F(avg_p) F(int_bpol) F(avg_bpol) F(int_btor) F(avg_btor) F(int_modb) F(avg_modb) F(int_ekin) F(avg_ekin)
  }
  {
    at("threed1_axis.");
    auto& o = q.threed1_axis;
    F(raxis_symm) F(zaxis_symm) F(raxis_asym) F(zaxis_asym)
  }
  {
    at("threed1_betas.");
    auto& o = q.threed1_betas;
    F(betatot) F(betapol) F(betator) F(rbtor) F(betaxis) F(betstr)
  }
  {
    at("threed1_shafranov_integrals.");
    auto& o = q.threed1_shafranov_integrals;
    F(scaling_ratio) F(r_lao) F(f_lao) F(f_geo) F(smaleli) F(betai) F(musubi) F(lambda) F(s11) F(s12) F(s13) F(s2) F(s3) F(delta1) F(delta2) F(delta3)
  }
}
}  // namespace

PYBIND11_MODULE(vx_oq, m) {
  // fill all intermediate parts from a seed, save, load, and return (before, after)
  m.def("roundtrip", [](std::string path, unsigned long seed) {
    OutputQuantities q{};
    Fill f{std::mt19937_64(seed)};
    parts(q, f, [](const char*) {});
    q.indata.rbc.resize(q.indata.mpol, 2 * q.indata.ntor + 1);
    auto dump = [](OutputQuantities& o) {
      Dump d;
      parts(o, d, [&](const char* p) { d.pre = p; });
      return d.d;
    };
    absl::Status s = q.Save(path);
    if (!s.ok()) throw std::runtime_error(std::string(s.message()));
    auto r = OutputQuantities::Load(path);
    if (!r.ok()) throw std::runtime_error(std::string(r.status().message()));
    return py::make_tuple(dump(q), dump(*r));
  });
  // rewrite a results file: names to remove, to rename, and datasets to write
  m.def("edit", [](std::string path, std::vector<std::string> remove, std::vector<std::pair<std::string, std::string>> rename, std::map<std::string, Eigen::VectorXd> vectors,
                   std::map<std::string, RowMatrixXd> tables, std::map<std::string, std::string> strings) {
    H5::H5File f(path, H5F_ACC_RDWR);
    for (auto& n : remove) f.unlink(n);
    for (auto& [a, b] : rename) f.move(a, b);
    for (auto& [n, v] : vectors) hdf5_io::WriteH5Dataset(v, n, f);
    for (auto& [n, v] : tables) hdf5_io::WriteH5Dataset(v, n, f);
    for (auto& [n, v] : strings) hdf5_io::WriteH5Dataset(v, n, f);
  });
}
