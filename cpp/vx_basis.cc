// Fourier basis tables and conversions, both layouts.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "vmecpp/common/fourier_basis/fourier_basis.h"
#include "vmecpp/common/sizes/sizes.h"

namespace py = pybind11;
using namespace vmecpp;
using V = std::vector<double>;

template <class B>
struct W {
  Sizes s;
  B b;
  W(bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta)
      : s(lasym, nfp, mpol, ntor, ntheta, nzeta), b(&s) {}
};

template <class B, class L>
void Def(py::module_& m, const char* name) {
  using T = W<B>;
  py::class_<T> c(m, name);
  c.def(py::init<bool, int, int, int, int, int>());
  c.def("tables", [](const T& w) {
    py::dict d;
#define F(x) d[#x] = w.b.x;
    F(mscale) F(nscale) F(cosmu) F(sinmu) F(cosmum) F(sinmum) F(cosmui) F(sinmui) F(cosmumi) F(sinmumi)
    F(cosnv) F(sinnv) F(cosnvn) F(sinnvn) F(xm) F(xn) F(xm_nyq) F(xn_nyq)
#undef F
#define F(x) d[#x] = w.s.x;
    F(nThetaEven) F(nThetaReduced) F(nZeta) F(mnyq2) F(nnyq2) F(mnyq) F(nnyq) F(mnmax) F(mnmax_nyq) F(mpol) F(ntor)
#undef F
    return d;
  });
  c.def_static("pol", &L::PoloidalBasisIndex);
  c.def_static("tor", &L::ToroidalBasisIndex);
  c.def_static("prod", &L::ProductIndex);
  c.def("mnIdx", [](const T& w, int a, int b) { return w.b.mnIdx(a, b); });
  c.def("mnMax", [](const T& w, int a, int b) { return w.b.mnMax(a, b); });
  // the outputs are pre-filled with garbage and have guard cells behind them
  c.def("cos_to_cc_ss", [](const T& w, const V& f, int n, int ms) {
    V a(ms * (n + 1), 7.5), b(ms * (n + 1), -3.25);
    int r = w.b.cos_to_cc_ss(f, a, b, n, ms);
    return py::make_tuple(r, a, b);
  });
  c.def("sin_to_sc_cs", [](const T& w, const V& f, int n, int ms) {
    V a(ms * (n + 1), 7.5), b(ms * (n + 1), -3.25);
    int r = w.b.sin_to_sc_cs(f, a, b, n, ms);
    return py::make_tuple(r, a, b);
  });
  c.def("cc_ss_to_cos", [](const T& w, const V& a, const V& b, int n, int ms) {
    V f((n + 1) + (ms - 1) * (2 * n + 1), 9.5);
    int r = w.b.cc_ss_to_cos(a, b, f, n, ms);
    return py::make_tuple(r, f);
  });
  c.def("sc_cs_to_sin", [](const T& w, const V& a, const V& b, int n, int ms) {
    V f((n + 1) + (ms - 1) * (2 * n + 1), 9.5);
    int r = w.b.sc_cs_to_sin(a, b, f, n, ms);
    return py::make_tuple(r, f);
  });
}

PYBIND11_MODULE(vx_basis, m) {
  Def<FourierBasisFastPoloidal, FourierBasisFastPoloidalLayout>(m, "FastPoloidal");
  Def<FourierBasisFastToroidal, FourierBasisFastToroidalLayout>(m, "FastToroidal");
}
