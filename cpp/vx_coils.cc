// Coil sets, their field, response tables and the mgrid provider.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <sstream>

#include "vmecpp/common/composed_types_lib/composed_types_lib.h"
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
#include "vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"

namespace py = pybind11;
using namespace magnetics;
using composed_types::Vector3d;
using V3 = std::vector<std::vector<double>>;
using RM = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
static void ok(const absl::Status& s) {
  if (!s.ok()) throw std::invalid_argument(std::string(s.message()));
}
template <class T> static T val(absl::StatusOr<T> s) { ok(s.status()); return *s; }
static void setv(Vector3d* v, py::handle h) {  // entries may be None = not populated
  auto t = h.cast<std::vector<py::object>>();
  if (!t[0].is_none()) v->set_x(t[0].cast<double>());
  if (!t[1].is_none()) v->set_y(t[1].cast<double>());
  if (!t[2].is_none()) v->set_z(t[2].cast<double>());
}
static py::list getv(const Vector3d& v) {
  py::list l;
  l.append(v.has_x() ? py::object(py::float_(v.x())) : py::none());
  l.append(v.has_y() ? py::object(py::float_(v.y())) : py::none());
  l.append(v.has_z() ? py::object(py::float_(v.z())) : py::none());
  return l;
}
static bool has(py::dict d, const char* k) { return d.contains(k) && !d[k].is_none(); }

static void set_carrier(CurrentCarrier* cc, py::dict d) {
  std::string t = d["type"].cast<std::string>();
  if (t == "line") {
    auto* f = cc->mutable_infinite_straight_filament();
    if (has(d, "name")) f->set_name(d["name"].cast<std::string>());
    if (has(d, "origin")) setv(f->mutable_origin(), d["origin"]);
    if (has(d, "direction")) setv(f->mutable_direction(), d["direction"]);
  } else if (t == "circle") {
    auto* f = cc->mutable_circular_filament();
    if (has(d, "name")) f->set_name(d["name"].cast<std::string>());
    if (has(d, "center")) setv(f->mutable_center(), d["center"]);
    if (has(d, "normal")) setv(f->mutable_normal(), d["normal"]);
    if (has(d, "radius")) f->set_radius(d["radius"].cast<double>());
  } else if (t == "polygon") {
    auto* f = cc->mutable_polygon_filament();
    if (has(d, "name")) f->set_name(d["name"].cast<std::string>());
    for (auto v : d["vertices"].cast<py::list>()) setv(f->add_vertices(), v);
  }
}
static MagneticConfiguration build(py::dict d) {
  MagneticConfiguration m;
  if (has(d, "name")) m.set_name(d["name"].cast<std::string>());
  if (has(d, "nfp")) m.set_num_field_periods(d["nfp"].cast<int>());
  for (auto c_ : d["circuits"].cast<py::list>()) {
    auto c = c_.cast<py::dict>();
    auto* s = m.add_serial_circuits();
    if (has(c, "name")) s->set_name(c["name"].cast<std::string>());
    if (has(c, "current")) s->set_current(c["current"].cast<double>());
    for (auto k_ : c["coils"].cast<py::list>()) {
      auto k = k_.cast<py::dict>();
      auto* o = s->add_coils();
      if (has(k, "name")) o->set_name(k["name"].cast<std::string>());
      if (has(k, "windings")) o->set_num_windings(k["windings"].cast<double>());
      for (auto x : k["carriers"].cast<py::list>()) set_carrier(o->add_current_carriers(), x.cast<py::dict>());
    }
  }
  return m;
}
#define NAME(o, d) d["name"] = (o).has_name() ? py::object(py::str((o).name())) : py::none()
static py::dict dump(const MagneticConfiguration& m) {
  py::dict d;
  NAME(m, d);
  d["nfp"] = m.has_num_field_periods() ? py::object(py::int_(m.num_field_periods())) : py::none();
  py::list cs;
  for (int a = 0; a < m.serial_circuits_size(); ++a) {
    const auto& s = m.serial_circuits(a);
    py::dict c;
    NAME(s, c);
    c["current"] = s.has_current() ? py::object(py::float_(s.current())) : py::none();
    py::list ks;
    for (int b = 0; b < s.coils_size(); ++b) {
      const auto& o = s.coils(b);
      py::dict k;
      NAME(o, k);
      k["windings"] = o.has_num_windings() ? py::object(py::float_(o.num_windings())) : py::none();
      py::list xs;
      for (int e = 0; e < o.current_carriers_size(); ++e) {
        const auto& x = o.current_carriers(e);
        py::dict q;
        if (x.has_infinite_straight_filament()) {
          const auto& f = x.infinite_straight_filament();
          q["type"] = "line"; NAME(f, q);
          q["origin"] = f.has_origin() ? py::object(getv(f.origin())) : py::none();
          q["direction"] = f.has_direction() ? py::object(getv(f.direction())) : py::none();
        } else if (x.has_circular_filament()) {
          const auto& f = x.circular_filament();
          q["type"] = "circle"; NAME(f, q);
          q["center"] = f.has_center() ? py::object(getv(f.center())) : py::none();
          q["normal"] = f.has_normal() ? py::object(getv(f.normal())) : py::none();
          q["radius"] = f.has_radius() ? py::object(py::float_(f.radius())) : py::none();
        } else if (x.has_polygon_filament()) {
          const auto& f = x.polygon_filament();
          q["type"] = "polygon"; NAME(f, q);
          py::list vs;
          for (const auto& v : f.vertices()) vs.append(getv(v));
          q["vertices"] = vs;
        } else q["type"] = "none";
        xs.append(q);
      }
      k["carriers"] = xs;
      ks.append(k);
    }
    c["coils"] = ks;
    cs.append(c);
  }
  d["circuits"] = cs;
  return d;
}
static makegrid::MakegridParameters params(py::dict d) {
  makegrid::MakegridParameters p;
  p.normalize_by_currents = d["normalize_by_currents"].cast<bool>();
  p.assume_stellarator_symmetry = d["assume_stellarator_symmetry"].cast<bool>();
#define I(k) p.k = d[#k].cast<int>();
#define D(k) p.k = d[#k].cast<double>();
  I(number_of_field_periods) D(r_grid_minimum) D(r_grid_maximum) I(number_of_r_grid_points) D(z_grid_minimum)
  D(z_grid_maximum) I(number_of_z_grid_points) I(number_of_phi_grid_points)
#undef I
#undef D
  return p;
}
static py::dict unparams(const makegrid::MakegridParameters& p) {
  py::dict d;
#define F(k) d[#k] = p.k;
  F(normalize_by_currents) F(assume_stellarator_symmetry) F(number_of_field_periods) F(r_grid_minimum) F(r_grid_maximum)
  F(number_of_r_grid_points) F(z_grid_minimum) F(z_grid_maximum) F(number_of_z_grid_points) F(number_of_phi_grid_points)
  return d;
}
static makegrid::MagneticFieldResponseTable table(py::dict d, const RM& r, const RM& p, const RM& z) {
  makegrid::MagneticFieldResponseTable t;
  t.parameters = params(d); t.b_r = r; t.b_p = p; t.b_z = z;
  return t;
}
static Vector3d vec(const std::vector<double>& v) { Vector3d x; x.set_x(v[0]); x.set_y(v[1]); x.set_z(v[2]); return x; }
static std::vector<double> unvec(const Vector3d& v) { return {v.x(), v.y(), v.z()}; }

PYBIND11_MODULE(vx_coils, m) {
  m.def("roundtrip", [](py::dict d) { return dump(build(d)); });
  m.def("parse", [](const std::string& s) { return dump(val(ImportMagneticConfigurationFromMakegrid(s))); });
  m.def("parse_file", [](const std::string& s) { return dump(val(ImportMagneticConfigurationFromCoilsFile(s))); });
  m.def("populated", [](py::dict d) { return IsMagneticConfigurationFullyPopulated(build(d)).ok(); });
  // a history of operations on a set of configurations; returns the state (or the error) after each operation
  m.def("history", [](py::list start, py::list ops) {
    std::vector<MagneticConfiguration> c;
    for (auto d : start) c.push_back(build(d.cast<py::dict>()));
    py::list out;
    for (auto o : ops) {
      auto t = o.cast<py::tuple>();
      std::string k = t[0].cast<std::string>();
      int i = t[1].cast<int>();
      py::object r = py::none();
      absl::Status s;
      if (k == "copy") { MagneticConfiguration x(c[t[2].cast<int>()]); c[i] = x; }
      else if (k == "move") { MagneticConfiguration x = c[t[2].cast<int>()]; c[i] = std::move(x); }
      else if (k == "self") { auto& x = c[i]; x = *&x; }
      else if (k == "windings") s = NumWindingsToCircuitCurrents(c[i]);
      else if (k == "currents") s = SetCircuitCurrents(t[2].cast<Eigen::VectorXd>(), c[i]);
      else if (k == "get") { auto g = GetCircuitCurrents(c[i]); s = g.status(); if (g.ok()) r = py::cast(*g); }
      else if (k == "radial") s = MoveRadially(t[2].cast<double>(), c[i]);
      else if (k == "clear") c[i].Clear();
      else if (k == "carrier") {  // replace one current carrier by another kind
        auto* co = c[i].mutable_serial_circuits(t[2].cast<int>())->mutable_coils(t[3].cast<int>());
        set_carrier(co->mutable_current_carriers(t[4].cast<int>()), t[5].cast<py::dict>());
      } else if (k == "assign") {  // carrier copy or move assignment between coils of the same configuration
        auto at = [&](int a) { return c[i].mutable_serial_circuits(t[a].cast<int>())->mutable_coils(t[a + 1].cast<int>())->mutable_current_carriers(t[a + 2].cast<int>()); };
        CurrentCarrier *x = at(2), *y = at(5);
        if (t[8].cast<bool>()) { CurrentCarrier z(*y); *x = std::move(z); } else *x = *y;
      }
      py::list all;
      for (auto& x : c) all.append(dump(x));
      out.append(py::make_tuple(s.ok(), r, all));
    }
    return out;
  });
  m.def("print", [](py::dict d, int ind) {
    std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf());
    PrintMagneticConfiguration(build(d), ind);
    std::cout.rdbuf(b);
    return o.str();
  });
  m.def("field", [](py::dict d, const V3& x, V3 b) { ok(MagneticField(build(d), x, b)); return b; });
  m.def("potential", [](py::dict d, const V3& x, V3 a) { ok(VectorPotential(build(d), x, a)); return a; });
  m.def("field_status", [](py::dict d, const V3& x, V3 b) { bool r = MagneticField(build(d), x, b).ok(); return py::make_tuple(r, b); });
  m.def("potential_status", [](py::dict d, const V3& x, V3 b) { bool r = VectorPotential(build(d), x, b).ok(); return py::make_tuple(r, b); });
  m.def("linking", [](py::dict d, const std::string& csv) { return val(LinkingCurrent(build(d), val(composed_types::CurveRZFourierFromCsv(csv)))); });
  m.def("carrier_field", [](py::dict q, double I, const V3& x, V3 b, bool pot) {
    CurrentCarrier c; set_carrier(&c, q);
    absl::Status s;
    if (pot) s = c.has_circular_filament() ? VectorPotential(c.circular_filament(), I, x, b) : VectorPotential(c.polygon_filament(), I, x, b);
    else s = c.has_circular_filament() ? MagneticField(c.circular_filament(), I, x, b) : c.has_polygon_filament() ? MagneticField(c.polygon_filament(), I, x, b) : MagneticField(c.infinite_straight_filament(), I, x, b);
    return py::make_tuple(s.ok(), b);
  });
  m.def("valid", [](py::dict d) { return makegrid::IsValidMakegridParameters(params(d)).ok(); });
  m.def("params_json", [](const std::string& s) { return unparams(val(makegrid::ImportMakegridParametersFromJson(s))); });
  m.def("params_file", [](const std::string& s) { return unparams(val(makegrid::ImportMakegridParametersFromFile(s))); });
  m.def("grid", [](py::dict d) { RM g = val(makegrid::MakeCylindricalGrid(params(d))); return g; });
  m.def("response", [](py::dict p, py::dict c) {
    auto t = val(makegrid::ComputeMagneticFieldResponseTable(params(p), build(c)));
    return py::make_tuple(RM(t.b_r), RM(t.b_p), RM(t.b_z), unparams(t.parameters));
  });
  m.def("vector_potential", [](py::dict p, py::dict c) {
    auto t = val(makegrid::ComputeVectorPotentialCache(params(p), build(c)));
    return py::make_tuple(RM(t.a_r), RM(t.a_p), RM(t.a_z), unparams(t.parameters));
  });
  m.def("write", [](const std::string& f, py::dict p, const Eigen::VectorXd& cur, const RM& r, const RM& b, const RM& z, py::object a) {
    std::optional<makegrid::MakegridCachedVectorPotential> va;
    if (!a.is_none()) {
      auto t = a.cast<py::tuple>();
      va.emplace();
      va->parameters = params(p);
      va->a_r = t[0].cast<RM>(); va->a_p = t[1].cast<RM>(); va->a_z = t[2].cast<RM>();
    }
    ok(makegrid::WriteMakegridNetCDFFile(f, params(p), cur, table(p, r, b, z), va));
  });
  using MG = vmecpp::MGridProvider;
  py::class_<MG>(m, "MGrid").def(py::init<>())
      .def("load_file", [](MG& g, const std::string& f, const Eigen::VectorXd& c) { ok(g.LoadFile(f, c)); })
      .def("load_fields", [](MG& g, py::dict p, const RM& r, const RM& b, const RM& z, const Eigen::VectorXd& c) { ok(g.LoadFields(table(p, r, b, z), c)); })
      .def("fixed", [](MG& g, const Eigen::VectorXd& r, const Eigen::VectorXd& p, const Eigen::VectorXd& z) { g.SetFixedMagneticField(r, p, z); })
      .def("interpolate", [](MG& g, int a, int b, int nz, const Eigen::VectorXd& r, const Eigen::VectorXd& z) {
        Eigen::VectorXd x(b - a), y(b - a), w(b - a);
        std::ostringstream o; auto* s1 = std::cout.rdbuf(o.rdbuf()); auto* s2 = std::cerr.rdbuf(o.rdbuf());
        g.interpolate(a, b, nz, r, z, x, y, w);
        std::cout.rdbuf(s1); std::cerr.rdbuf(s2);
        return py::make_tuple(x, y, w, o.str());
      })
      .def("loaded", &MG::IsLoaded)
      .def("state", [](MG& g) {
        py::dict d;
        d["nfp"] = g.nfp; d["numR"] = g.numR; d["minR"] = g.minR; d["maxR"] = g.maxR; d["deltaR"] = g.deltaR; d["numZ"] = g.numZ;
        d["minZ"] = g.minZ; d["maxZ"] = g.maxZ; d["deltaZ"] = g.deltaZ; d["numPhi"] = g.numPhi; d["nextcur"] = g.nextcur; d["mode"] = g.mgrid_mode;
        d["bR"] = g.bR; d["bP"] = g.bP; d["bZ"] = g.bZ;
        return d;
      });
  // composed types
  using Vd = std::vector<double>;
  m.def("length", [](const Vd& a) { return composed_types::Length(vec(a)); });
  m.def("scale_to", [](const Vd& a, double l) { return unvec(composed_types::ScaleTo(vec(a), l)); });
  m.def("normalize", [](const Vd& a) { return unvec(composed_types::Normalize(vec(a))); });
  m.def("add", [](const Vd& a, const Vd& b) { return unvec(composed_types::Add(vec(a), vec(b))); });
  m.def("subtract", [](const Vd& a, const Vd& b) { return unvec(composed_types::Subtract(vec(a), vec(b))); });
  m.def("dot", [](const Vd& a, const Vd& b) { return composed_types::DotProduct(vec(a), vec(b)); });
  m.def("cross", [](const Vd& a, const Vd& b) { return unvec(composed_types::CrossProduct(vec(a), vec(b))); });
  m.def("perp", [](const Vd& a) { return unvec(composed_types::MostPerpendicularCoordinateAxis(vec(a))); });
  m.def("frame", [](const Vd& a) { std::vector<Vd> r; for (auto& v : composed_types::OrthonormalFrameAroundAxis(vec(a))) r.push_back(unvec(v)); return r; });
  m.def("csv_curve", [](const std::string& s) {
    auto c = val(composed_types::CurveRZFourierFromCsv(s));
    return py::make_tuple(val(composed_types::ModeNumbers(c)), val(composed_types::CoefficientsRCos(c)), val(composed_types::CoefficientsZSin(c)),
                          val(composed_types::CoefficientsRSin(c)), val(composed_types::CoefficientsZCos(c)), val(composed_types::CurveRZFourierToCsv(c)));
  });
  m.def("csv_surface", [](const std::string& s) {
    auto c = val(composed_types::SurfaceRZFourierFromCsv(s));
    return py::make_tuple(val(composed_types::ToroidalModeNumbers(c)), val(composed_types::PoloidalModeNumbers(c)), val(composed_types::CoefficientsRCos(c)), val(composed_types::CoefficientsZSin(c)),
                          val(composed_types::CoefficientsRSin(c)), val(composed_types::CoefficientsZCos(c)), val(composed_types::SurfaceRZFourierToCsv(c)));
  });
  // curves and surfaces with missing parts: rows are [m or None, n or None, cos or None, sin or None]; returns whether they count as complete and as which table they are written
  m.def("fourier", [](bool surface, const std::vector<std::vector<py::object>>& r, const std::vector<std::vector<py::object>>& z) {
    auto fill1 = [](composed_types::FourierCoefficient1D* c, const std::vector<py::object>& q) {
      if (!q[1].is_none()) c->set_mode_number(q[1].cast<int>());
      if (!q[2].is_none()) c->set_fc_cos(q[2].cast<double>());
      if (!q[3].is_none()) c->set_fc_sin(q[3].cast<double>());
    };
    auto fill2 = [](composed_types::FourierCoefficient2D* c, const std::vector<py::object>& q) {
      if (!q[0].is_none()) c->set_poloidal_mode_number(q[0].cast<int>());
      if (!q[1].is_none()) c->set_toroidal_mode_number(q[1].cast<int>());
      if (!q[2].is_none()) c->set_fc_cos(q[2].cast<double>());
      if (!q[3].is_none()) c->set_fc_sin(q[3].cast<double>());
    };
    if (surface) {
      composed_types::SurfaceRZFourier s;
      for (auto& q : r) fill2(s.add_r(), q);
      for (auto& q : z) fill2(s.add_z(), q);
      auto t = composed_types::SurfaceRZFourierToCsv(s);
      auto a = composed_types::CoefficientsRCos(s), b = composed_types::CoefficientsZSin(s), c = composed_types::CoefficientsRSin(s), d = composed_types::CoefficientsZCos(s);
      auto e = composed_types::PoloidalModeNumbers(s), f = composed_types::ToroidalModeNumbers(s);
      return py::make_tuple(composed_types::IsSurfaceRZFourierFullyPopulated(s).ok(), t.ok(), a.ok() && b.ok() && c.ok() && d.ok() && e.ok() && f.ok(), a.ok() || b.ok() || c.ok() || d.ok() || e.ok() || f.ok(), t.ok() ? *t : std::string());
    }
    composed_types::CurveRZFourier s;
    for (auto& q : r) fill1(s.add_r(), q);
    for (auto& q : z) fill1(s.add_z(), q);
    auto t = composed_types::CurveRZFourierToCsv(s);
    auto a = composed_types::CoefficientsRCos(s), b = composed_types::CoefficientsZSin(s), c = composed_types::CoefficientsRSin(s), d = composed_types::CoefficientsZCos(s);
    auto e = composed_types::ModeNumbers(s);
    return py::make_tuple(composed_types::IsCurveRZFourierFullyPopulated(s).ok(), t.ok(), a.ok() && b.ok() && c.ok() && d.ok() && e.ok(), a.ok() || b.ok() || c.ok() || d.ok() || e.ok(), t.ok() ? *t : std::string());
  });
}
