// Radial profiles: dispatch, evaluators and the arrays each thread gets.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <memory>

#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"

namespace py = pybind11;
using namespace vmecpp;

struct Ctx {
  VmecINDATA id;
  std::unique_ptr<Sizes> s;
  std::unique_ptr<FlowControl> fc;
  std::unique_ptr<HandoverStorage> h;
  std::vector<std::unique_ptr<RadialPartitioning>> r;
  std::vector<std::unique_ptr<RadialProfiles>> p;
  VmecConstants vc;
  Ctx(const std::string& json, int ns, int nthreads, int sign, double pdamp) {
    auto v = VmecINDATA::FromJson(json);
    if (!v.ok()) throw std::invalid_argument(std::string(v.status().message()));
    id = *v;
    s = std::make_unique<Sizes>(id);
    fc = std::make_unique<FlowControl>(id.lfreeb, id.delt, 1, 1);
    fc->ns = ns;
    fc->deltaS = 1.0 / (ns - 1.0);
    h = std::make_unique<HandoverStorage>(s.get());
    for (int t = 0; t < nthreads; ++t) {
      r.push_back(std::make_unique<RadialPartitioning>());
      r.back()->adjustRadialPartitioning(nthreads, t, ns, id.lfreeb, false);
      p.push_back(std::make_unique<RadialProfiles>(r.back().get(), h.get(), &id, fc.get(), sign, pdamp));
    }
  }
};

PYBIND11_MODULE(vx_prof, m) {
  py::class_<Ctx>(m, "Ctx")
      .def(py::init<const std::string&, int, int, int, double>())
      .def("setup", [](Ctx& c) { for (auto& p : c.p) p->setupInputProfiles(); })
      .def("types", [](Ctx& c) {
        return py::make_tuple((int)c.p[0]->pmassType, (int)c.p[0]->piotaType, (int)c.p[0]->pcurrType);
      })
      .def("find", [](Ctx& c, const std::string& n, int t) {
        return (int)c.p[0]->findParameterization(n, t == 0 ? ProfileType::PRESSURE : t == 1 ? ProfileType::CURRENT : ProfileType::IOTA);
      })
      .def("values", [](Ctx& c, const std::string& what, const std::vector<double>& x) {
        std::vector<double> out;
        auto& p = *c.p[0];
        for (double v : x)
          out.push_back(what == "mass" ? p.evalMassProfile(v) : what == "iota" ? p.evalIotaProfile(v)
                        : what == "curr" ? p.evalCurrProfile(v) : what == "torflux" ? p.torflux(v)
                        : what == "torfluxDeriv" ? p.torfluxDeriv(v) : what == "polflux" ? p.polflux(v)
                        : p.polfluxDeriv(v));
        return out;
      })
      .def("evaluate", [](Ctx& c, bool flip) {
        c.vc.reset();
        for (auto& p : c.p) p->evalRadialProfiles(flip, c.vc);
        py::list out;
        for (size_t t = 0; t < c.p.size(); ++t) {
          auto& p = *c.p[t];
          auto& r = *c.r[t];
          py::dict d;
#define F(x) d[#x] = p.x;
          F(phipH) F(chipH) F(iotaH) F(currH) F(massH) F(sqrtSH) F(phipF) F(chipF) F(iotaF) F(sqrtSF) F(radialBlending)
          F(currv) F(Itor) F(maxToroidalFlux) F(maxPoloidalFlux) F(pressureScalingFactor) F(sm) F(sp) F(scalxc)
#undef F
          d["nsMinH"] = r.nsMinH; d["nsMaxH"] = r.nsMaxH; d["nsMinF1"] = r.nsMinF1; d["nsMaxF1"] = r.nsMaxF1;
          out.append(d);
        }
        return py::make_tuple(out, c.vc.rmsPhiP);
      });
}
