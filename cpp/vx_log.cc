// Replays a history of logger calls and returns the text after each of them.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <sstream>

#include "vmecpp/vmec/iteration_logger/iteration_logger.h"

namespace py = pybind11;
using namespace vmecpp;

PYBIND11_MODULE(vx_log, m) {
  m.def("replay", [](int mode, py::list ops) {
    std::ostringstream o;
    IterationLogger l(o, (OutputMode)mode);
    std::vector<py::bytes> out;
    for (auto op : ops) {
      py::tuple t = op.cast<py::tuple>();
      std::string k = t[0].cast<std::string>();
      auto D = [&](int i) { return t[i].cast<double>(); };
      auto I = [&](int i) { return t[i].cast<int>(); };
      if (k == "begin") l.BeginStage(I(1), I(2), I(3), I(4), D(5), I(6), t[7].cast<bool>());
      else if (k == "log") l.LogIteration(I(1), D(2), D(3), D(4), D(5), D(6), D(7), D(8), D(9), D(10), D(11), D(12), D(13));
      else if (k == "end") l.EndStage(D(1));
      else {
        RunSummary s;
        s.converged = t[1].cast<bool>();
        s.total_iterations = I(2); s.num_jacobian_resets = I(3);
        s.fsqr = D(4); s.fsqz = D(5); s.fsql = D(6); s.ftolv = D(7); s.betatot = D(8); s.betapol = D(9); s.betator = D(10);
        s.w_mhd = D(11); s.rax = D(12); s.aminor = D(13); s.rmajor = D(14); s.b0 = D(15);
        l.EndRun(s);
      }
      out.push_back(py::bytes(o.str()));
    }
    return out;
  });
}
