// VmecINDATA with raw field access: the oracle looks at the fields themselves, not at ToJson().
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <nlohmann/json.hpp>

#include "vmecpp/common/vmec_indata/boundary_from_json.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"

namespace py = pybind11;
using std::string;
using vmecpp::VmecINDATA;

#define SCALARS(X)                                                                                  \
  X(lasym) X(nfp) X(mpol) X(ntor) X(mpol_geometry) X(ntor_geometry) X(ntheta) X(nzeta) X(phiedge)   \
  X(ncurr) X(pmass_type) X(pres_scale) X(gamma) X(spres_ped) X(piota_type) X(pcurr_type) X(curtor)  \
  X(bloat) X(lfreeb) X(mgrid_file) X(nvacskip) X(nstep) X(delt) X(tcon0) X(lforbal)                 \
  X(return_outputs_even_if_not_converged)
#define ARRAYS(X)                                                                                   \
  X(ns_array) X(ftol_array) X(niter_array) X(am) X(am_aux_s) X(am_aux_f) X(ai) X(ai_aux_s)          \
  X(ai_aux_f) X(ac) X(ac_aux_s) X(ac_aux_f) X(extcur) X(aphi) X(raxis_c) X(zaxis_s) X(raxis_s)      \
  X(zaxis_c) X(rbc) X(zbs) X(rbs) X(zbc)

static py::dict Fields(const VmecINDATA& v) {
  py::dict d;
#define X(f) d[#f] = py::cast(v.f, py::return_value_policy::copy);
  SCALARS(X) ARRAYS(X)
#undef X
  d["free_boundary_method"] = ToString(v.free_boundary_method);
  d["iteration_style"] = ToString(v.iteration_style);
  return d;
}

static VmecINDATA Make(const py::dict& d) {
  VmecINDATA v;
#define X(f) if (d.contains(#f)) v.f = d[#f].cast<decltype(v.f)>();
  SCALARS(X) ARRAYS(X)
#undef X
  if (d.contains("free_boundary_method"))
    v.free_boundary_method = *vmecpp::FreeBoundaryMethodFromString(d["free_boundary_method"].cast<string>());
  if (d.contains("iteration_style"))
    v.iteration_style = *vmecpp::IterationStyleFromString(d["iteration_style"].cast<string>());
  return v;
}

PYBIND11_MODULE(vx_indata, m) {
  m.def("from_json", [](const string& t) -> py::tuple {
    auto r = VmecINDATA::FromJson(t);
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    return py::make_tuple(true, Fields(*r));
  });
  m.def("from_file", [](const string& t) { return Fields(VmecINDATA::FromFile(t)); });
  m.def("to_json", [](const py::dict& d) -> py::tuple {
    auto r = Make(d).ToJson();
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    return py::make_tuple(true, *r);
  });
  m.def("consistent", [](const py::dict& d, bool info) -> py::tuple {
    auto s = IsConsistent(Make(d), info);
    return py::make_tuple(s.ok(), string(s.message()));
  });
  m.def("fields", [](const py::dict& d) { return Fields(Make(d)); });
  m.def("copy", [](const py::dict& d) { return Fields(Make(d).Copy()); });
  m.def("equal", [](const py::dict& a, const py::dict& b) { return Make(a) == Make(b); });
  m.def("h5_write", [](const py::dict& d, const string& f) -> py::tuple {
    H5::H5File h(f, H5F_ACC_TRUNC);
    auto s = Make(d).WriteTo(h);
    return py::make_tuple(s.ok(), string(s.message()));
  });
  m.def("h5_load", [](const string& f) -> py::tuple {
    H5::H5File h(f, H5F_ACC_RDONLY);
    VmecINDATA v;
    auto s = VmecINDATA::LoadInto(v, h);
    if (!s.ok()) return py::make_tuple(false, string(s.message()));
    return py::make_tuple(true, Fields(v));
  });
  // a history of resizes
  m.def("resize", [](const py::dict& d, const std::vector<std::pair<int, int>>& to) {
    VmecINDATA v = Make(d);
    std::vector<py::dict> out;
    for (auto& [a, b] : to) { v.SetMpolNtor(a, b); out.push_back(Fields(v)); }
    return out;
  });
  m.def("boundary_entries", [](const string& t, const string& key) -> py::tuple {
    auto r = vmecpp::BoundaryCoefficient::FromJson(nlohmann::json::parse(t), key);
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    if (!r->has_value()) return py::make_tuple(true, py::none());
    std::vector<std::tuple<int, int, double>> e;
    for (auto& c : **r) e.emplace_back(c.m, c.n, c.value);
    return py::make_tuple(true, e);
  });
  m.def("boundary_dense", [](const string& t, const string& key, int mpol, int ntor) {
    return vmecpp::BoundaryFromJson(nlohmann::json::parse(t), key, mpol, ntor);
  });
}
