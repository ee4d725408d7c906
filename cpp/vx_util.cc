// Access to util/{file_io,json_io,netcdf_io,hdf5_io,testing} for generated checks.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <nlohmann/json.hpp>

#include "netcdf.h"
#include "util/file_io/file_io.h"
#include "util/hdf5_io/hdf5_io.h"
#include "util/json_io/json_io.h"
#include "util/netcdf_io/netcdf_io.h"
#include "util/testing/numerical_comparison_lib.h"

namespace py = pybind11;
using std::string;

// (ok, value-or-None | error text)
template <typename T>
py::tuple Out(const absl::StatusOr<T>& v) {
  if (!v.ok()) return py::make_tuple(false, string(v.status().message()));
  return py::make_tuple(true, *v);
}

struct Nc {
  int id = -1;
  explicit Nc(const string& p) {
    if (nc_open(p.c_str(), NC_NOWRITE, &id) != NC_NOERR) throw std::runtime_error("nc_open");
  }
  ~Nc() { nc_close(id); }
};

PYBIND11_MODULE(vx_util, m) {
  m.def("read_file", [](const string& f) -> py::tuple {
    auto r = file_io::ReadFile(f);
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    return py::make_tuple(true, py::bytes(*r));
  });
  m.def("write_file", [](const string& f, const py::bytes& c) {
    return file_io::WriteFile(f, string(c)).ok();
  });
  m.def("json_bool", [](const string& d, const string& n) {
    return Out(json_io::JsonReadBool(nlohmann::json::parse(d), n));
  });
  m.def("json_int", [](const string& d, const string& n) {
    return Out(json_io::JsonReadInt(nlohmann::json::parse(d), n));
  });
  m.def("json_double", [](const string& d, const string& n) {
    return Out(json_io::JsonReadDouble(nlohmann::json::parse(d), n));
  });
  m.def("json_string", [](const string& d, const string& n) {
    return Out(json_io::JsonReadString(nlohmann::json::parse(d), n));
  });
  m.def("json_vint", [](const string& d, const string& n) {
    return Out(json_io::JsonReadVectorInt(nlohmann::json::parse(d), n));
  });
  m.def("json_vdouble", [](const string& d, const string& n) {
    return Out(json_io::JsonReadVectorDouble(nlohmann::json::parse(d), n));
  });
  m.def("nc_bool", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadBool(f.id, n)); });
  m.def("nc_char", [](const string& p, const string& n) -> py::tuple {
    Nc f(p);
    auto r = netcdf_io::NetcdfReadChar(f.id, n);
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    return py::make_tuple(true, static_cast<int>(static_cast<unsigned char>(*r)));
  });
  m.def("nc_int", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadInt(f.id, n)); });
  m.def("nc_double", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadDouble(f.id, n)); });
  m.def("nc_string", [](const string& p, const string& n) -> py::tuple {
    Nc f(p);
    auto r = netcdf_io::NetcdfReadString(f.id, n);
    if (!r.ok()) return py::make_tuple(false, string(r.status().message()));
    return py::make_tuple(true, py::bytes(*r));
  });
  m.def("nc_1d", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadArray1D(f.id, n)); });
  m.def("nc_2d", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadArray2D(f.id, n)); });
  m.def("nc_3d", [](const string& p, const string& n) { Nc f(p); return Out(netcdf_io::NetcdfReadArray3D(f.id, n)); });

  // HDF5: write one dataset of each kind, read it back
  m.def("h5_matrix", [](const string& p, const hdf5_io::RowMatrixXd& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    hdf5_io::RowMatrixXd y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_vd", [](const string& p, const Eigen::VectorXd& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    Eigen::VectorXd y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_vi", [](const string& p, const Eigen::VectorXi& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    Eigen::VectorXi y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_svd", [](const string& p, const std::vector<double>& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    std::vector<double> y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_svi", [](const string& p, const std::vector<int>& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    std::vector<int> y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_vs", [](const string& p, const std::vector<string>& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    std::vector<string> y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_s", [](const string& p, const string& x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    string y; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_d", [](const string& p, double x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    double y = -1; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_i", [](const string& p, int x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    int y = -1; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_b", [](const string& p, bool x) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    bool y = !x; hdf5_io::ReadH5Dataset(y, "x", f); return y;
  });
  m.def("h5_nd", [](const string& p, const std::vector<double>& x, const std::vector<hsize_t>& dims) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, dims, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    std::vector<double> y; std::vector<hsize_t> d; hdf5_io::ReadH5Dataset(y, d, "x", f);
    return py::make_tuple(y, d, hdf5_io::GetRank(f.openDataSet("x")));
  });
  m.def("h5_ndi", [](const string& p, const std::vector<int>& x, const std::vector<hsize_t>& dims) {
    { H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, dims, "x", f); }
    H5::H5File f(p, H5F_ACC_RDONLY);
    std::vector<int> y; std::vector<hsize_t> d; hdf5_io::ReadH5Dataset(y, d, "x", f);
    return py::make_tuple(y, d, hdf5_io::GetRank(f.openDataSet("x")));
  });
  // read-only access, for files written elsewhere (h5py-less environment: netCDF4 writes HDF5)
  m.def("h5_read_matrix", [](const string& p, const string& n) {
    H5::H5File f(p, H5F_ACC_RDONLY);
    hdf5_io::RowMatrixXd y; hdf5_io::ReadH5Dataset(y, n, f); return y;
  });
  m.def("h5_read_vd", [](const string& p, const string& n) {
    H5::H5File f(p, H5F_ACC_RDONLY);
    Eigen::VectorXd y; hdf5_io::ReadH5Dataset(y, n, f); return y;
  });
  m.def("h5_write_matrix", [](const string& p, const hdf5_io::RowMatrixXd& x) {
    H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f);
  });
  m.def("h5_write_vd", [](const string& p, const Eigen::VectorXd& x) {
    H5::H5File f(p, H5F_ACC_TRUNC); hdf5_io::WriteH5Dataset(x, "x", f);
  });
  m.def("is_close", &testing::IsCloseRelAbs);
  m.def("is_vclose", [](const std::vector<double>& a, const std::vector<double>& b, double t) {
    return testing::IsVectorCloseRelAbs(a, b, t);
  });
  m.def("is_evclose", [](const Eigen::VectorXd& a, const Eigen::VectorXd& b, double t) {
    return testing::IsVectorCloseRelAbs(a, b, t);
  });
}
