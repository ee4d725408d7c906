// The command-line programs as functions; the check calls each in a process of
// its own. The exit status is that of the program.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <cstdio>
#include <unistd.h>

#define main vmec_standalone_main
#include "vmecpp/vmec/vmec_standalone/vmec_standalone.cc"
#undef main
#define main makegrid_main
#include "makegrid/makegrid/makegrid.cc"
#undef main

namespace py = pybind11;

static void call(int (*f)(int, char**), std::vector<std::string> args) {
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  int rc = f(static_cast<int>(args.size()), argv.data());
  std::cout.flush();
  fflush(stdout);
  _exit(rc & 255);
}

PYBIND11_MODULE(vx_mains, m) {
  m.def("vmec_standalone", [](std::vector<std::string> a) { call(vmec_standalone_main, a); });
  m.def("makegrid", [](std::vector<std::string> a) { call(makegrid_main, a); });
}
