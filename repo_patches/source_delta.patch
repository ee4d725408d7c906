From 81dcad65ea4fb85ba60b5e709078d9f52a936248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:17 +0000
Subject: [PATCH 01/51] fix: reject JSON integers that do not fit into an int
 instead of wrapping them

---
 src/vmecpp/cpp/util/json_io/json_io.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..3038b4e 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -4,6 +4,8 @@
 // SPDX-License-Identifier: MIT
 #include "util/json_io/json_io.h"
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -11,7 +13,19 @@
 
 namespace {
 using nlohmann::json;
+
+// Whether the (integer) JSON number is representable as an `int`; converting
+// any other one would silently wrap around.
+bool FitsIntoInt(const json& number) {
+  if (number.is_number_unsigned()) {
+    return number.get<std::uint64_t>() <=
+           static_cast<std::uint64_t>(std::numeric_limits<int>::max());
+  }
+  const std::int64_t value = number.get<std::int64_t>();
+  return value >= std::numeric_limits<int>::min() &&
+         value <= std::numeric_limits<int>::max();
 }
+}  // namespace
 
 namespace json_io {
 
@@ -42,6 +56,11 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
 
+  if (!FitsIntoInt(j[name])) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("JSON element '%s' is out of range", name));
+  }
+
   return j[name];
 }  // JsonReadInt
 
@@ -90,6 +109,10 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   std::vector<int> entries;
   int i = 0;
   for (const auto& entry : j[name]) {
+    if (entry.is_number_integer() && !FitsIntoInt(entry)) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("JSON entry '%s'[%d] is out of range", name, i));
+    }
     if (entry.is_number_integer()) {
       entries.push_back(entry);
     } else {
-- 
2.43.0


From 5abf81f049fa2ffe31ef1252cf19e0fb2453f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 02/51] fix: let netCDF convert or reject variables of another
 type instead of reading raw bytes

---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..196e507 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -121,8 +121,8 @@ absl::StatusOr<char> NetcdfReadChar(int ncid,
   // actually read data
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<char> variable_data(1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -209,8 +209,8 @@ absl::StatusOr<std::string> NetcdfReadString(int ncid,
   // one extra element that stays at 0 in order to properly zero-terminate the
   // string
   std::vector<char> variable_data(total_element_count + 1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -247,8 +247,8 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +283,8 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +327,8 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From 658ebcf9258cc7f9f9a2d670464bf8dad169a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 03/51] fix: write and read HDF5 string arrays as C strings,
 not as std::string objects

---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..27b7fb4 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -32,7 +32,13 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+  // HDF5 expects an array of C strings for variable-length string types
+  std::vector<const char*> c_strings;
+  c_strings.reserve(vs.size());
+  for (const std::string& str : vs) {
+    c_strings.push_back(str.c_str());
+  }
+  dataset.write(c_strings.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -64,9 +70,17 @@ void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
   hsize_t size;
   space.getSimpleExtentDims(&size);
 
-  vs.resize(size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  // HDF5 allocates the C strings it puts into this array
+  std::vector<char*> c_strings(size, nullptr);
+  ds.read(c_strings.data(), str_type);
+  vs.resize(size);
+  for (hsize_t i = 0; i < size; ++i) {
+    vs[i] = c_strings[i] != nullptr ? c_strings[i] : "";
+  }
+  if (size > 0) {
+    H5::DataSet::vlenReclaim(c_strings.data(), str_type, space);
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
-- 
2.43.0


From 668c11a3f2527e7b448276a41cd6470b73eec3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 04/51] fix: write the whole asymmetric axis and boundary
 arrays to HDF5

raxis_s, zaxis_c, rbs and zbc are std::optional<Eigen array>; ->value() is
Eigen's 1x1 coefficient, so WriteTo stored a scalar (and LoadInto could not
read it back) for every lasym=true input.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..8c13880 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
-- 
2.43.0


From 139c0613989f2270a3fdeee446c7e69b7164a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 05/51] fix: write the whole asymmetric axis arrays to JSON

As in WriteTo: raxis_s->value() is a single coefficient, not the array, so
ToJson produced a document FromJson refuses.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 8c13880..79f60f4 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = *raxis_s;
+    output["zaxis_c"] = *zaxis_c;
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From 4f46c8a3260af23431bfd01b09a9cee63be77571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 06/51] fix: default raxis_s and zaxis_c to zero in lasym=true
 JSON inputs

They are optional in the input, like raxis_c and zaxis_s, but FromJson
accessed the empty std::optional (std::bad_optional_access).
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 79f60f4..bbc1859 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -947,6 +947,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (!maybe_raxis_s.ok()) {
       return maybe_raxis_s.status();
     }
+    vmec_indata.raxis_s.emplace();
     if (maybe_raxis_s->has_value()) {
       vmec_indata.raxis_s = maybe_raxis_s->value();
     }
@@ -961,6 +962,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (!maybe_zaxis_c.ok()) {
       return maybe_zaxis_c.status();
     }
+    vmec_indata.zaxis_c.emplace();
     if (maybe_zaxis_c->has_value()) {
       vmec_indata.zaxis_c = maybe_zaxis_c->value();
     }
-- 
2.43.0


From c1b1c3ce6ce0314379b00f287f1e4ae1314b48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 07/51] fix: ignore boundary entries with m < 0 instead of
 writing out of bounds

Also compare n with -ntor and ntor: std::abs(INT_MIN) is negative.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index bbc1859..3eb893a 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -984,14 +984,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
+            "Ignoring rbc entry with m = %d, since m is not in 0 ... (mpol - 1) "
             "= %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1014,14 +1014,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
+            "Ignoring zbs entry with m = %d, since m is not in 0 ... (mpol - 1) "
             "= %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1051,14 +1051,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
+              "Ignoring rbs entry with m = %d, since m is not in 0 ... (mpol - "
               "1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with n = %d, since |n| is larger than ntor = "
               "%d",
@@ -1081,14 +1081,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
+              "Ignoring zbc entry with m = %d, since m is not in 0 ... (mpol - "
               "1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with n = %d, since |n| is larger than ntor = "
               "%d",
-- 
2.43.0


From 007768d93da88fb65d409a3a9b39ad1d878427c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 08/51] fix: check mpol and ntor before sizing arrays with them
 in FromJson

A negative mpol or ntor reached Eigen's setZero before IsConsistent could
reject it.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 3eb893a..16cfa07 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -895,6 +895,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
 
   // -----------------------------------------------
 
+  // The array sizes below are computed from mpol and ntor.
+  if (vmec_indata.mpol < 2 || vmec_indata.ntor < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' need to be >= 2 and >= 0, but are "
+        "%d and %d\n",
+        vmec_indata.mpol, vmec_indata.ntor));
+  }
+
   // Axis Fourier coefficient arrays must have length ntor+1. Arrays that are
   // too short are silently zero-padded (a shorter array simply omits trailing
   // zero coefficients). Arrays that are too long are rejected, because
-- 
2.43.0


From 6e3a6d28e66356dcd778401e9cf6fa368726b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 09/51] fix: reject missing or too short arrays in IsConsistent
 instead of reading them

An object assembled field by field (Python bindings) could have ftol_array or
niter_array shorter than ns_array, or lasym without the asymmetric arrays.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 16cfa07..fb7f842 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1330,6 +1330,16 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
                         vmec_indata.ns_array.size()));
   }
 
+  // ftol_array and niter_array need to have as many entries as ns_array
+  if (vmec_indata.ftol_array.size() != vmec_indata.ns_array.size() ||
+      vmec_indata.niter_array.size() != vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "lengths of ftol_array (%ld) and niter_array (%ld) need to match "
+        "length of ns_array (%ld)\n",
+        vmec_indata.ftol_array.size(), vmec_indata.niter_array.size(),
+        vmec_indata.ns_array.size()));
+  }
+
   // ftol_array
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
@@ -1533,6 +1543,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value() ||
+        !vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s', 'zaxis_c', 'rbs' and 'zbc' need to be "
+          "set when 'lasym' is true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 68f10f001866491bb59990e14434c9025bed27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:58 +0000
Subject: [PATCH 10/51] fix: accept an empty sparse list of boundary
 coefficients in VmecInput

An all-zero boundary array (e.g. rbs or zbc) is serialized as []. On the way
back BaseModelWithNumpy turns the empty list into a 1D array before the sparse
validator sees it, so the model could not be read back from its own JSON.
---
 src/vmecpp/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..643d6cc 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -403,6 +403,10 @@ def sparse_to_dense_coefficients_implicit(
     (mpol, 2*ntor+1) shape from the maximum mode numbers OR return the original array if
     the input representation is already dense."""
     if isinstance(maybe_sparse_list, np.ndarray):
+        if maybe_sparse_list.shape == (0,):
+            # An empty sparse list (all coefficients are zero) that was already
+            # turned into an array by BaseModelWithNumpy.
+            return np.zeros((1, 1))
         return maybe_sparse_list
 
     mpol = 0
-- 
2.43.0


From 31e92a58d04c3247b6469d871128aa8467545bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:28 +0000
Subject: [PATCH 11/51] fix: return a VmecINDATA from the VmecINDATA.from_json
 Python binding

FromJson returns an absl::StatusOr, which is not a registered type, so every
call failed with a TypeError.
---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index b011b5b..7f80048 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -558,7 +558,12 @@ PYBIND11_MODULE(_vmecpp, m) {
           .def("_set_mpol_ntor", &VmecINDATA::SetMpolNtor, py::arg("new_mpol"),
                py::arg("new_ntor"))
           .def("from_file", &VmecINDATA::FromFile)
-          .def("from_json", &VmecINDATA::FromJson)
+          .def("from_json",
+               [](const std::string &indata_json) {
+                 absl::StatusOr<VmecINDATA> maybe_indata =
+                     VmecINDATA::FromJson(indata_json);
+                 return GetValueOrThrow(maybe_indata);
+               })
           .def("to_json", &VmecINDATA::ToJsonOrException)
           .def("copy", &VmecINDATA::Copy)
 
-- 
2.43.0


From 1ede82209bc8c8dcc0ba4272855668c8f36c5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:40 +0000
Subject: [PATCH 12/51] fix: carry the magnetic axis over from VMEC++ JSON to
 INDATA

The arrays are called raxis_c, zaxis_s, raxis_s, zaxis_c in VMEC++ JSON inputs
and raxis_cc, zaxis_cs, raxis_cs, zaxis_cc in INDATA files; the conversion
looked up the INDATA names in the JSON and silently dropped the axis.
---
 src/vmecpp/_util.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 643d6cc..243d927 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,10 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    indata += _float_array_to_namelist("raxis_cc", vmecpp_json, json_name="raxis_c")
+    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json, json_name="zaxis_s")
+    indata += _float_array_to_namelist("raxis_cs", vmecpp_json, json_name="raxis_s")
+    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json, json_name="zaxis_c")
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
@@ -284,13 +284,13 @@ def _int_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     return ""
 
 
-def _float_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-    if (
-        varname in vmecpp_json
-        and vmecpp_json[varname] is not None
-        and len(vmecpp_json[varname]) > 0
-    ):
-        elements = ", ".join([f"{x:.20e}" for x in vmecpp_json[varname]])
+def _float_array_to_namelist(
+    varname: str, vmecpp_json: dict[str, Any], json_name: str | None = None
+) -> str:
+    # the name in the JSON file, if it differs from the name in the namelist
+    key = varname if json_name is None else json_name
+    if key in vmecpp_json and vmecpp_json[key] is not None and len(vmecpp_json[key]) > 0:
+        elements = ", ".join([f"{x:.20e}" for x in vmecpp_json[key]])
         return f"  {varname} = {elements}\n"
     return ""
 
-- 
2.43.0


From c35e5a721f968340839163b9b9073507ee8e617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:40 +0000
Subject: [PATCH 13/51] fix: escape apostrophes in strings written to INDATA
 files

---
 src/vmecpp/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 243d927..15edf0e 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -256,7 +256,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # an apostrophe inside a Fortran character constant is written twice
+    value = str(vmecpp_json[varname]).replace("'", "''")
+    return f"  {varname} = '{value}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-- 
2.43.0


From ee617a4efc40e1e814cf6a3c1c88b8c507912f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:37 +0000
Subject: [PATCH 14/51] fix: hand over the first active row in
 TridiagonalSolveOpenMP when a rank ends on it

---
 src/vmecpp/cpp/vmecpp/common/util/util.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/util/util.cc b/src/vmecpp/cpp/vmecpp/common/util/util.cc
index 37cb90f..543dff8 100644
--- a/src/vmecpp/cpp/vmecpp/common/util/util.cc
+++ b/src/vmecpp/cpp/vmecpp/common/util/util.cc
@@ -174,13 +174,23 @@ void TridiagonalSolveOpenMP(
 
   for (int j = nsMinF; j < std::min(jMax, nsMaxF); ++j) {
     for (int mn = 0; mn < mnmax; ++mn) {
+      int idx_mn_0 = (j - nsMinF) * mnmax + mn;      //  0
+      int idx_mn_m = (j - 1 - nsMinF) * mnmax + mn;  // -1
+
       if (j < jMin[mn] + 1) {
+        if (j == nsMaxF - 1) {
+          // rank myid+1 starts right behind jMin
+          // and also needs the handover data in this case
+          m_handover_ar[mn] = m_ar[idx_mn_0];
+          m_handover_az[mn] = m_az[idx_mn_0];
+          for (int k = 0; k < nRHS; ++k) {
+            m_handover_cr[k][mn] = m_cr[k][idx_mn_0];
+            m_handover_cz[k][mn] = m_cz[k][idx_mn_0];
+          }  // k
+        }
         continue;
       }  // TODO(jons)
 
-      int idx_mn_0 = (j - nsMinF) * mnmax + mn;      //  0
-      int idx_mn_m = (j - 1 - nsMinF) * mnmax + mn;  // -1
-
       double prev_m_ar;
       double prev_az;
       std::vector<std::span<double>> prev_cr(m_handover_cr.size());
-- 
2.43.0


From 345708b63f20ad893c6990d2e080feeaf927d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 15/51] fix: interpolate line_segment profiles in the segment
 that contains the evaluation point

---
 .../vmec/radial_profiles/radial_profiles.cc      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..e896ddd 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,20 +1055,22 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
+  // first knot at or above x
   auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
+  if (it == splineKnots.end()) {
+    // x is above the last knot
     return splineValues[n - 1];
   }
   if (it == splineKnots.begin()) {
-    // x is below the first knot
+    // x is at or below the first knot
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const int ihigh = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const int ilow = ihigh - 1;
+  const double x0 = splineKnots[ilow];
+  const double x1 = splineKnots[ihigh];
   const double y0 = splineValues[ilow];
-  const double y1 = splineValues[ilow + 1];
+  const double y1 = splineValues[ihigh];
   const double t = (x - x0) / (x1 - x0);
   return (1.0 - t) * y0 + t * y1;
 }
-- 
2.43.0


From d236b66338a93ce86de2803089ff8ddc09cc7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 16/51] fix: integrate line_segment_ip profiles from the axis
 and within the range of knots

---
 .../vmec/radial_profiles/radial_profiles.cc   | 52 +++++++------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index e896ddd..40ea183 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1083,40 +1083,28 @@ double RadialProfiles::evalLineSegmentIntegrated(
     return 0.0;
   }
 
-  auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
-  };
-
-  double xi = x;
-  double result = 0.0;
-
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
+  // Integral of the line-segment profile from the first knot to xi.
+  // The profile is constant outside the range of knots (see evalLineSegment).
+  auto integrate_from_first_knot = [&](double xi) {
+    if (xi <= splineKnots[0]) {
+      return splineValues[0] * (xi - splineKnots[0]);
+    }
+    double result = 0.0;
+    for (int i = 0; i < n - 1 && xi > splineKnots[i]; ++i) {
+      const double x0 = splineKnots[i];
+      const double x1 = std::min(xi, splineKnots[i + 1]);
+      result += 0.5 * (x1 - x0) *
+                (splineValues[i] +
+                 evalLineSegment(splineKnots, splineValues, x1));
+    }
+    if (xi > splineKnots[n - 1]) {
+      result += splineValues[n - 1] * (xi - splineKnots[n - 1]);
+    }
     return result;
-  }
-
-  int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
-    result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
-                                splineValues[idx], splineValues[idx + 1]);
-    ++idx;
-  }
-
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
-  }
+  };
 
-  return result;
+  // enclosed current: integral from the magnetic axis to x
+  return integrate_from_first_knot(x) - integrate_from_first_knot(0.0);
 }
 
 double RadialProfiles::evalNiceQuadratic(const Eigen::VectorXd& coeffs,
-- 
2.43.0


From e9ea43e36dfbb976368792230768632bfcd67871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:40 +0000
Subject: [PATCH 17/51] fix: normalize the atan terms of sum_atan profiles by
 2/pi

---
 .../vmecpp/vmec/radial_profiles/radial_profiles.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 40ea183..4170be2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -669,6 +669,10 @@ double RadialProfiles::evalGaussTrunc(const Eigen::VectorXd& coeffs, double x,
 }
 
 double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
+  // Every atan term is normalized to reach its amplitude at x == 1,
+  // as in Fortran VMEC and consistent with the x >= 1.0 branch below.
+  static constexpr double kTwoOverPi = 2.0 / M_PI;
+
   double ret = 0.0;
 
   if (coeffs.size() > 0) {
@@ -693,23 +697,23 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
     }
   } else {
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+      ret += kTwoOverPi * coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
                                    std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+      ret += kTwoOverPi * coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
                                    std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+      ret += kTwoOverPi * coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
                                    std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+      ret += kTwoOverPi * coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
                                     std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+      ret += kTwoOverPi * coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
                                     std::pow(1 - x, coeffs[20]));
     }
   }
-- 
2.43.0


From ecc9a07e89d3709adeaafb7dbeebc36956bd2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 18/51] fix: coils file parser accepted malformed numbers and
 dropped unterminated filaments

---
 .../magnetic_configuration_lib.cc             | 50 ++++++++++++++++---
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..7f065fe 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -6,7 +6,9 @@
 
 #include <Eigen/Dense>
 #include <algorithm>
+#include <array>
 #include <cctype>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -20,7 +22,9 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/ascii.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/str_split.h"
 #include "util/file_io/file_io.h"
 #include "vmecpp/common/composed_types_definition/composed_types.h"
@@ -32,6 +36,18 @@ using composed_types::FourierCoefficient1D;
 using composed_types::OrthonormalFrameAroundAxis;
 using composed_types::Vector3d;
 
+// Parse all of `text` as a finite number. Fortran-style exponents, e.g. 1.0D+03,
+// are allowed as well.
+static absl::Status ParseNumber(const std::string& text, double& m_value) {
+  const std::string c_style =
+      absl::StrReplaceAll(text, {{"D", "E"}, {"d", "e"}});
+  if (!absl::SimpleAtod(c_style, &m_value) || !std::isfinite(m_value)) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("cannot parse number: '", text, "'"));
+  }
+  return absl::OkStatus();
+}  // ParseNumber
+
 // Read all current carriers, starting from the line below "begin filament"
 // until "end" is found or the stream ends.
 absl::Status ParseCurrentCarriers(
@@ -60,6 +76,10 @@ absl::Status ParseCurrentCarriers(
       continue;
     } else if (absl::StartsWith(stripped_line, "end")) {
       // current carrier geometry ended on this line
+      if (!x.empty()) {
+        return absl::InvalidArgumentError(
+            "last filament is not terminated by a line with 6 parts");
+      }
       return absl::OkStatus();
     }
 
@@ -70,16 +90,27 @@ absl::Status ParseCurrentCarriers(
 
     if (num_line_parts == 4 || num_line_parts == 6) {
       // handle first four columns: x, y, z, w
-      x.push_back(std::stod(line_parts[0]));  // x or r
-      y.push_back(std::stod(line_parts[1]));  // y or 0.0
-      z.push_back(std::stod(line_parts[2]));  // z
-      w.push_back(std::stod(line_parts[3]));  // num_windings or 0.0 or current
-                                              // or any product of those
+      std::array<double, 4> columns;
+      for (int i = 0; i < 4; ++i) {
+        absl::Status status = ParseNumber(line_parts[i], columns[i]);
+        if (!status.ok()) {
+          return status;
+        }
+      }
+      x.push_back(columns[0]);  // x or r
+      y.push_back(columns[1]);  // y or 0.0
+      z.push_back(columns[2]);  // z
+      w.push_back(columns[3]);  // num_windings or 0.0 or current
+                                // or any product of those
 
       if (num_line_parts == 6) {
         // handle six columns: x, y, z, 0.0, serial_circuit_id,
         // current_carrier_name
-        int serial_circuit_id = std::stoi(line_parts[4]);
+        int serial_circuit_id = 0;
+        if (!absl::SimpleAtoi(line_parts[4], &serial_circuit_id)) {
+          return absl::InvalidArgumentError(absl::StrCat(
+              "cannot parse serial circuit id: '", line_parts[4], "'"));
+        }
         std::string current_carrier_name = line_parts[5];
 
         // find or create target serial circuit based on circuit ID
@@ -183,7 +214,12 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
                       << stripped_line << "'";
         return absl::NotFoundError(error_message.str());
       } else {
-        magnetic_configuration.set_num_field_periods(std::stoi(line_parts[1]));
+        int num_field_periods = 0;
+        if (!absl::SimpleAtoi(line_parts[1], &num_field_periods)) {
+          return absl::InvalidArgumentError(absl::StrCat(
+              "cannot parse number of field periods: '", line_parts[1], "'"));
+        }
+        magnetic_configuration.set_num_field_periods(num_field_periods);
       }
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
-- 
2.43.0


From 2014634f8bf1b01abd604ec602773bb6d550fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 19/51] fix: NumWindingsToCircuitCurrents with unset or zero
 windings and with empty circuits

---
 .../magnetic_configuration_lib.cc             | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 7f065fe..2a83d5c 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -297,13 +297,27 @@ absl::Status NumWindingsToCircuitCurrents(
     SerialCircuit* m_serial_circuit =
         m_magnetic_configuration.mutable_serial_circuits(idx_circuit);
     const int num_coils = m_serial_circuit->coils_size();
+    if (num_coils == 0) {
+      // no coils -> nothing to migrate
+      continue;
+    }
+
+    // num_windings = 1 is assumed, if not provided
+    const auto num_windings_or_one = [](const Coil& coil) {
+      return coil.has_num_windings() ? coil.num_windings() : 1.0;
+    };
 
     // Use the first coil's num_windings as the reference for normalization.
     // Fortran MAKEGRID normalizes by the first coil's num_windings even when
     // coils within a circuit have different magnitudes (e.g., a TF coil at
     // 96 turns and PF coils at -16 turns) but share the same current
     const double reference_num_windings =
-        m_serial_circuit->coils(0).num_windings();
+        num_windings_or_one(m_serial_circuit->coils(0));
+    if (reference_num_windings == 0.0) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("first coil of serial circuit ", idx_circuit,
+                       " has zero windings, cannot normalize by it"));
+    }
 
     // step 1: migrate num_windings into circuit current using the reference
     const double current_times_num_windings =
@@ -317,7 +331,8 @@ absl::Status NumWindingsToCircuitCurrents(
     // output: field_scaled = sum_i(w_i/w_ref * B_i).
     for (int idx_coil = 0; idx_coil < num_coils; ++idx_coil) {
       Coil* m_coil = m_serial_circuit->mutable_coils(idx_coil);
-      m_coil->set_num_windings(m_coil->num_windings() / reference_num_windings);
+      m_coil->set_num_windings(num_windings_or_one(*m_coil) /
+                               reference_num_windings);
     }
   }
 
-- 
2.43.0


From 79aa27af6ee057dca60ec61a996006efa5927a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 20/51] fix: MoveRadially aborted the process on a coil that
 cannot be moved radially

---
 .../magnetic_configuration_lib.cc                  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 2a83d5c..4764dc2 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -391,19 +391,20 @@ absl::Status MoveRadially(double radial_step,
            idx_current_carrier < num_current_carriers; ++idx_current_carrier) {
         CurrentCarrier* m_current_carrier =
             m_coil->mutable_current_carriers(idx_current_carrier);
+        absl::Status status;
         switch (m_current_carrier->type_case()) {
           case CurrentCarrier::TypeCase::kInfiniteStraightFilament:
             return absl::InvalidArgumentError(
                 "Cannot perform radial movement if an InfiniteStraightFilament "
                 "is present in the MagneticConfiguration");
           case CurrentCarrier::TypeCase::kCircularFilament:
-            CHECK_OK(MoveRadially(
-                radial_step,
-                *(m_current_carrier->mutable_circular_filament())));
+            status =
+                MoveRadially(radial_step,
+                             *(m_current_carrier->mutable_circular_filament()));
             break;
           case CurrentCarrier::TypeCase::kPolygonFilament:
-            CHECK_OK(MoveRadially(
-                radial_step, *(m_current_carrier->mutable_polygon_filament())));
+            status = MoveRadially(
+                radial_step, *(m_current_carrier->mutable_polygon_filament()));
             break;
           case CurrentCarrier::TypeCase::kFourierFilament:
             return absl::InvalidArgumentError(
@@ -419,6 +420,9 @@ absl::Status MoveRadially(double radial_step,
             error_message << " not implemented yet.";
             return absl::InvalidArgumentError(error_message.str());
         }
+        if (!status.ok()) {
+          return status;
+        }
       }  // CurrentCarrier
     }  // Coil
   }  // SerialCircuit
-- 
2.43.0


From 05750dfd54e65409a2f9d898d133e18be180ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 21/51] fix: reading MakegridParameters aborted or threw on a
 missing or malformed file

---
 .../cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..b5673c7 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -93,7 +93,12 @@ absl::Status IsValidMakegridParameters(
 
 absl::StatusOr<MakegridParameters> ImportMakegridParametersFromJson(
     const std::string& makegrid_parameters_json) {
-  json j = json::parse(makegrid_parameters_json);
+  const json j = json::parse(makegrid_parameters_json, /*cb=*/nullptr,
+                             /*allow_exceptions=*/false);
+  if (!j.is_object()) {
+    return absl::InvalidArgumentError(
+        "MakegridParameters must be given as a valid JSON object");
+  }
 
   MakegridParameters makegrid_parameters;
 
@@ -274,7 +279,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
-- 
2.43.0


From 92bba8409f6167320b8cede3b42149e1ad1d2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:45 +0000
Subject: [PATCH 22/51] fix: WriteMakegridNetCDFFile aborted or read out of
 bounds on tables that do not fit the grid

---
 .../common/makegrid_lib/makegrid_lib.cc       | 38 +++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index b5673c7..4377d84 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -794,17 +794,41 @@ absl::Status WriteMakegridNetCDFFile(
 
   // number of response tables in this mgrid file
   const int n_serial_circuits = static_cast<int>(response_table_b.b_r.rows());
-  CHECK_GT(n_serial_circuits, 0)
-      << "No magnetic field cache present to be written.";
+  if (n_serial_circuits <= 0) {
+    return absl::InvalidArgumentError(
+        "No magnetic field cache present to be written.");
+  }
 
   const int n_circuit_currents = static_cast<int>(circuit_currents.size());
-  CHECK_EQ(n_circuit_currents, n_serial_circuits) << absl::StrFormat(
-      "number of provided circuit currents (%d) has to equal number of serial "
-      "circuits(%d)",
-      n_circuit_currents, n_serial_circuits);
+  if (n_circuit_currents != n_serial_circuits) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "number of provided circuit currents (%d) has to equal number of "
+        "serial circuits (%d)",
+        n_circuit_currents, n_serial_circuits));
+  }
+
+  // all tables must cover exactly the grid which is going to be written
+  const Eigen::Index n_grid_points =
+      static_cast<Eigen::Index>(makegrid_parameters.number_of_phi_grid_points) *
+      makegrid_parameters.number_of_z_grid_points *
+      makegrid_parameters.number_of_r_grid_points;
+  const auto fits_grid = [&](const RowMatrixXd& table) {
+    return table.rows() == n_serial_circuits && table.cols() == n_grid_points;
+  };
+  if (!fits_grid(response_table_b.b_r) || !fits_grid(response_table_b.b_p) ||
+      !fits_grid(response_table_b.b_z) ||
+      (response_table_a.has_value() && (!fits_grid(response_table_a->a_r) ||
+                                        !fits_grid(response_table_a->a_p) ||
+                                        !fits_grid(response_table_a->a_z)))) {
+    return absl::InvalidArgumentError(
+        "shape of the response tables does not match the makegrid parameters");
+  }
 
   int ncid = 0;
-  CHECK_EQ(nc_create(makegrid_filename.c_str(), NC_CLOBBER, &ncid), NC_NOERR);
+  if (nc_create(makegrid_filename.c_str(), NC_CLOBBER, &ncid) != NC_NOERR) {
+    return absl::InternalError(absl::StrFormat(
+        "Could not create mgrid file '%s'.", makegrid_filename));
+  }
 
   // create dimensions
   int id_dimension_stringsize = 0;
-- 
2.43.0


From 167bd902f60b6556cd568b2b5c6dc866bd9ee759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:07 +0000
Subject: [PATCH 23/51] fix: MGridProvider read out of bounds on response
 tables or files whose shape does not fit

---
 .../mgrid_provider/mgrid_provider.cc          | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index b1291d8..2c93afe 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -148,6 +148,14 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     return with_context(read_status);
   }
 
+  // same requirements as for MakegridParameters
+  if (*num_r_or < 2 || *num_z_or < 2 || *num_phi_or < 1 ||
+      !(*max_r_or > *min_r_or) || !(*max_z_or > *min_z_or)) {
+    nc_close(ncid);
+    return with_context(
+        absl::InvalidArgumentError("invalid grid extent or resolution"));
+  }
+
   nfp = *nfp_or;
 
   numR = *num_r_or;
@@ -263,6 +271,29 @@ absl::Status MGridProvider::LoadFields(
         coil_currents.size(), magnetic_response_table.b_p.rows()));
   }
 
+  const absl::Status parameters_status =
+      makegrid::IsValidMakegridParameters(mgrid_params);
+  if (!parameters_status.ok()) {
+    return parameters_status;
+  }
+
+  const Eigen::Index expected_grid_points =
+      static_cast<Eigen::Index>(mgrid_params.number_of_phi_grid_points) *
+      mgrid_params.number_of_z_grid_points *
+      mgrid_params.number_of_r_grid_points;
+  for (const RowMatrixXd* table :
+       {&magnetic_response_table.b_r, &magnetic_response_table.b_p,
+        &magnetic_response_table.b_z}) {
+    if (table->rows() != coil_currents.size() ||
+        table->cols() != expected_grid_points) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Response table has shape (%d, %d), but its parameters and the coil "
+          "currents require (%d, %d).",
+          table->rows(), table->cols(), coil_currents.size(),
+          expected_grid_points));
+    }
+  }
+
   nfp = mgrid_params.number_of_field_periods;
 
   numR = mgrid_params.number_of_r_grid_points;
-- 
2.43.0


From b2aab6e6ad5ef608225e3bb1f1b309dda0015ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:07 +0000
Subject: [PATCH 24/51] fix: OrthonormalFrameAroundAxis returned vectors that
 are not of unit length

---
 .../vmecpp/common/composed_types_lib/composed_types_lib.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
index de1abee..cc3c831 100644
--- a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
@@ -132,8 +132,8 @@ std::array<Vector3d, 3> OrthonormalFrameAroundAxis(const Vector3d& axis) {
   const double axis_dot_most_perp =
       DotProduct(orthonormal_frame[0], most_perpendicular_axis);
   orthonormal_frame[1] =
-      Add(most_perpendicular_axis,
-          ScaleTo(orthonormal_frame[0], -axis_dot_most_perp));
+      Normalize(Add(most_perpendicular_axis,
+                    ScaleTo(orthonormal_frame[0], -axis_dot_most_perp)));
 
   // third axis is found from cross product of other two axes
   orthonormal_frame[2] =
-- 
2.43.0


From f1694c636cd978a26f0e0d717307bf6d8f51f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:07 +0000
Subject: [PATCH 25/51] fix: CSV output of axis and boundary coefficients lost
 the last digit

---
 .../composed_types_lib/composed_types_lib.cc     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
index cc3c831..ff94705 100644
--- a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
@@ -304,10 +304,10 @@ absl::StatusOr<std::string> CurveRZFourierToCsv(const CurveRZFourier& axis) {
     FourierCoefficient1D z = axis.z(i);
     const int n = r.mode_number();
     ss << n << ",";
-    ss << std::setprecision(16) << r.fc_cos() << ",";
-    ss << std::setprecision(16) << z.fc_sin() << ",";
-    ss << std::setprecision(16) << r.fc_sin() << ",";
-    ss << std::setprecision(16) << z.fc_cos() << "\n";
+    ss << std::setprecision(17) << r.fc_cos() << ",";
+    ss << std::setprecision(17) << z.fc_sin() << ",";
+    ss << std::setprecision(17) << r.fc_sin() << ",";
+    ss << std::setprecision(17) << z.fc_cos() << "\n";
   }
 
   return ss.str();
@@ -514,10 +514,10 @@ absl::StatusOr<std::string> SurfaceRZFourierToCsv(
     const int n = r.toroidal_mode_number();
 
     ss << n << "," << m << ",";
-    ss << std::setprecision(16) << r.fc_cos() << ",";
-    ss << std::setprecision(16) << z.fc_sin() << ",";
-    ss << std::setprecision(16) << r.fc_sin() << ",";
-    ss << std::setprecision(16) << z.fc_cos() << "\n";
+    ss << std::setprecision(17) << r.fc_cos() << ",";
+    ss << std::setprecision(17) << z.fc_sin() << ",";
+    ss << std::setprecision(17) << r.fc_sin() << ",";
+    ss << std::setprecision(17) << z.fc_cos() << "\n";
   }
 
   return ss.str();
-- 
2.43.0


From 37e986417942a3639ffaa17f09c7153ad14ceb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:15 +0000
Subject: [PATCH 26/51] fix: CSV readers of axis and boundary coefficients
 threw on malformed and on tiny numbers

---
 .../composed_types_lib/composed_types_lib.cc  | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
index ff94705..8a459d3 100644
--- a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
@@ -5,6 +5,7 @@
 #include "vmecpp/common/composed_types_lib/composed_types_lib.h"
 
 #include <algorithm>  // min
+#include <array>
 #include <cmath>      // hypot
 #include <sstream>
 #include <string>
@@ -12,6 +13,8 @@
 
 #include "absl/log/check.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/numbers.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 
 namespace composed_types {
@@ -260,7 +263,16 @@ absl::StatusOr<CurveRZFourier> CurveRZFourierFromCsv(
     std::vector<std::string> line_parts = absl::StrSplit(
         stripped_line, absl::ByAnyChar(","), absl::SkipWhitespace());
     if (line_parts.size() == 5) {
-      const int n = std::stoi(line_parts[0]);
+      int n = 0;
+      std::array<double, 4> values;
+      if (!absl::SimpleAtoi(line_parts[0], &n) ||
+          !absl::SimpleAtod(line_parts[1], &values[0]) ||
+          !absl::SimpleAtod(line_parts[2], &values[1]) ||
+          !absl::SimpleAtod(line_parts[3], &values[2]) ||
+          !absl::SimpleAtod(line_parts[4], &values[3])) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("cannot parse numbers in line: '", stripped_line, "'"));
+      }
 
       FourierCoefficient1D* raxis = axis_coefficients.add_r();
       raxis->set_mode_number(n);
@@ -268,10 +280,10 @@ absl::StatusOr<CurveRZFourier> CurveRZFourierFromCsv(
       FourierCoefficient1D* zaxis = axis_coefficients.add_z();
       zaxis->set_mode_number(n);
 
-      raxis->set_fc_cos(std::stod(line_parts[1]));
-      zaxis->set_fc_sin(std::stod(line_parts[2]));
-      raxis->set_fc_sin(std::stod(line_parts[3]));
-      zaxis->set_fc_cos(std::stod(line_parts[4]));
+      raxis->set_fc_cos(values[0]);
+      zaxis->set_fc_sin(values[1]);
+      raxis->set_fc_sin(values[2]);
+      zaxis->set_fc_cos(values[3]);
     } else {
       std::stringstream error_message;
       error_message
@@ -464,8 +476,18 @@ absl::StatusOr<SurfaceRZFourier> SurfaceRZFourierFromCsv(
     std::vector<std::string> line_parts = absl::StrSplit(
         stripped_line, absl::ByAnyChar(","), absl::SkipWhitespace());
     if (line_parts.size() == 6) {
-      const int n = std::stoi(line_parts[0]);
-      const int m = std::stoi(line_parts[1]);
+      int n = 0;
+      int m = 0;
+      std::array<double, 4> values;
+      if (!absl::SimpleAtoi(line_parts[0], &n) ||
+          !absl::SimpleAtoi(line_parts[1], &m) ||
+          !absl::SimpleAtod(line_parts[2], &values[0]) ||
+          !absl::SimpleAtod(line_parts[3], &values[1]) ||
+          !absl::SimpleAtod(line_parts[4], &values[2]) ||
+          !absl::SimpleAtod(line_parts[5], &values[3])) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("cannot parse numbers in line: '", stripped_line, "'"));
+      }
 
       FourierCoefficient2D* rbc_rbs = boundary_coefficients.add_r();
       rbc_rbs->set_poloidal_mode_number(m);
@@ -475,10 +497,10 @@ absl::StatusOr<SurfaceRZFourier> SurfaceRZFourierFromCsv(
       zbs_zbc->set_poloidal_mode_number(m);
       zbs_zbc->set_toroidal_mode_number(n);
 
-      rbc_rbs->set_fc_cos(std::stod(line_parts[2]));
-      zbs_zbc->set_fc_sin(std::stod(line_parts[3]));
-      rbc_rbs->set_fc_sin(std::stod(line_parts[4]));
-      zbs_zbc->set_fc_cos(std::stod(line_parts[5]));
+      rbc_rbs->set_fc_cos(values[0]);
+      zbs_zbc->set_fc_sin(values[1]);
+      rbc_rbs->set_fc_sin(values[2]);
+      zbs_zbc->set_fc_cos(values[3]);
     } else {
       std::stringstream error_message;
       error_message << "cannot parse line: '" << stripped_line << "': has "
-- 
2.43.0


From d26185caa382fddd4df1563c49d9f8fa42122876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:23 +0000
Subject: [PATCH 27/51] fix: a response table handed to the solver ignored
 changed parameters and swapped components

---
 src/vmecpp/_free_boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/_free_boundary.py b/src/vmecpp/_free_boundary.py
index 690554c..38c6ac7 100644
--- a/src/vmecpp/_free_boundary.py
+++ b/src/vmecpp/_free_boundary.py
@@ -129,6 +129,12 @@ class MagneticFieldResponseTable(BaseModelWithNumpy):
             isinstance(underlying, _vmecpp.MagneticFieldResponseTable)
             and underlying == self.b_p.base
             and underlying == self.b_z.base
+            # the user may have swapped components or changed the parameters since
+            and np.may_share_memory(self.b_r, underlying.b_r)
+            and np.may_share_memory(self.b_p, underlying.b_p)
+            and np.may_share_memory(self.b_z, underlying.b_z)
+            and self.parameters
+            == MakegridParameters._from_cpp_makegrid_parameters(underlying.parameters)
         ):
             return underlying
         # Otherwise, create a new C++ object
-- 
2.43.0


From f57ba19ab4acfffa07f69409a09847fdc1eaee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:49 +0000
Subject: [PATCH 28/51] fix: axisymmetric runs with nzeta > 1 used
 uninitialised toroidal planes

---
 src/vmecpp/cpp/vmecpp/common/sizes/sizes.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/sizes/sizes.cc b/src/vmecpp/cpp/vmecpp/common/sizes/sizes.cc
index 8f812a2..62d7e4a 100644
--- a/src/vmecpp/cpp/vmecpp/common/sizes/sizes.cc
+++ b/src/vmecpp/cpp/vmecpp/common/sizes/sizes.cc
@@ -63,10 +63,9 @@ void Sizes::computeDerivedSizes() {
   }
 
   // nzeta
-  if (ntor == 0 && nZeta < 1) {
-    // Tokamak (ntor=0) needs (at least) nzeta=1
-    // I think this implies that (in principle, not reasonable) one could do an
-    // axisymmetric run with nzeta > 1 ...
+  if (ntor == 0) {
+    // Tokamak (ntor=0): there is no toroidal variation, and the axisymmetric
+    // Fourier transforms only handle a single toroidal grid point.
     nZeta = 1;
   }
 
-- 
2.43.0


From d7ca6be9ea424fb3b3164491f25b123de0d60fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:49 +0000
Subject: [PATCH 29/51] fix: axis guess ignored half of the geometry of
 asymmetric runs and mishandled odd nzeta

---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 128 ++++++++++--------
 1 file changed, 70 insertions(+), 58 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..4fc017f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -228,7 +228,15 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    // the non-stellarator-symmetric case needs the full poloidal range
+    for (int l = 0; l < s.nThetaEff; ++l) {
+      // The basis functions are only tabulated for theta in [0, pi]:
+      // evaluate theta in ]pi, 2 pi[ at 2 pi - theta, where the sine changes
+      // its sign.
+      const bool in_reduced_range = l < s.nThetaReduced;
+      const int l_basis = in_reduced_range ? l : s.nThetaEven - l;
+      const double sin_sign = in_reduced_range ? 1.0 : -1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +250,86 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_basis;
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
 
-          w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-          w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+          const double cosmu = t.cosmu[idx_ml];
+          const double sinmu = sin_sign * t.sinmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmum = sin_sign * t.sinmum[idx_ml];
+
+          w.r_lcfs[k][l] += basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
+          w.z_lcfs[k][l] += basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
-            w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * sinmu * t.sinnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rss_half[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcs_half[m][n] * sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
-            w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * sinmu * t.cosnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rsc_half[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcc_half[m][n] * sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
-              w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
-
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_lcfs[k][l] +=
+                  basis_norm * rbcs[idx_mn] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_lcfs[k][l] +=
+                  basis_norm * zbss[idx_mn] * cosmum * t.sinnv[idx_kn];
+
+              w.r_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+              w.z_half[k][l] +=
+                  basis_norm * zss_half[m][n] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_half[k][l] +=
+                  basis_norm * zss_half[m][n] * cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +390,8 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
@@ -414,7 +426,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
       double z_grid = min_z + index_z * delta_z;
 
       // early exit in some cases(?)
-      if (!s.lasym && (k == 0 || k == s.nZeta / 2)) {
+      if (!s.lasym && (k == 0 || 2 * k == s.nZeta)) {
         z_grid = 0.0;
         if (index_z > 0) {
           break;
@@ -454,7 +466,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // in order to always have a full toroidal module for the Fourier transform
   // below
   if (!s.lasym) {
-    for (int k = 1; k < s.nZeta / 2; ++k) {
+    for (int k = 1; k < (s.nZeta + 1) / 2; ++k) {
       const int k_reversed = (s.nZeta - k) % s.nZeta;
       w.new_r_axis[k_reversed] = w.new_r_axis[k];
       w.new_z_axis[k_reversed] = -w.new_z_axis[k];
-- 
2.43.0


From f91063bfe0956c87de7ff4e68963c9f0e4522a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 30/51] fix: repeating a number of surfaces in ns_array ran the
 stage without its normalisations

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 27067a2..b2b92f4 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -296,8 +296,6 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
 
     const int max_grids = std::min(fc_.multi_ns_grid, maximum_multi_grid_step);
     for (int igrid = -jacob_off_; igrid < max_grids; igrid++) {
-      constants_.reset();
-
       // retrieve settings for (ns, ftol, niter) for current multi-grid
       // iteration
       if (igrid < 0) {
@@ -329,6 +327,11 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
         fc_.niterv = indata_.niter_array[igrid];
       }
 
+      if (fc_.nsval != fc_.ns_old) {
+        // InitializeRadial re-computes these only when the grid changes
+        constants_.reset();
+      }
+
       // Reserve the per-iteration convergence-history vectors for this stage so
       // the push_backs in Evolve do not reallocate inside the hot loop.
       {
-- 
2.43.0


From 88706d99585b2dce09009c3ae8244ed7fc46b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 31/51] fix: current density of asymmetric 3D runs read B_s at
 wrong grid points

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..904288f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2064,11 +2064,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
-- 
2.43.0


From d1ee8d0f473b5c95b7bfb174b7cbbd52ef86f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 32/51] fix: radial current density of asymmetric runs used a
 wrong layout and half of its terms

---
 .../output_quantities/output_quantities.cc    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 904288f..5f9bf7c 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2165,6 +2165,15 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
     bsubsv_a.resize(m_vmec_internal_results.num_full * s.nZnT);
   }
 
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_a;
+  std::vector<double> bsubvu_a;
+  if (s.lasym) {
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+  }
+
   std::vector<double> bsubu_filtered_s(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubv_filtered_s(
@@ -2353,12 +2362,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
+            bsubvu_s[target_index] +=
                 tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
+            bsubuv_s[target_index] +=
                 tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
@@ -2371,12 +2380,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
+              bsubvu_a[target_index] +=
                   tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
+              bsubuv_a[target_index] +=
                   tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
@@ -2404,6 +2413,10 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2417,6 +2430,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+          // derivatives change sign under (theta, zeta) -> (-theta, -zeta)
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_a[source_index_reversed] - bsubuv_s[source_index_reversed];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_a[source_index_reversed] - bsubvu_s[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2427,6 +2445,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From 419a15a02b2ac8b6b4fce30723451aabb7c59dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 33/51] fix: waist of asymmetric runs mixed points of different
 surfaces

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 5f9bf7c..f115963 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3925,7 +3925,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From b043d8f89f82aa0918e1268388cea42c88db147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:55 +0000
Subject: [PATCH 34/51] fix: highest toroidal harmonics of the field tables
 were halved for odd nzeta

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index f115963..96fa05f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4583,7 +4583,8 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   for (int kn = 0; kn < (s.nnyq2 + 1) * s.nZeta; ++kn) {
     cosnv[kn] = t.cosnv[kn];
   }
-  if (s.nnyq != 0) {
+  // an odd number of toroidal grid points does not resolve the Nyquist frequency
+  if (s.nnyq != 0 && s.nZeta % 2 == 0) {
     for (int k = 0; k < s.nZeta; ++k) {
       // FIXME(eguiraud) slow loop
       const int kn = k * (s.nnyq2 + 1) + s.nnyq;
-- 
2.43.0


From f4a687d5be2755e646bab968be7648de1c68dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:18 +0000
Subject: [PATCH 35/51] fix: toroidal flux profile in the outputs missed
 phiedge for non-uniform aphi

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 96fa05f..0fbfa4b 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1890,7 +1890,7 @@ void vmecpp::RecomputeToroidalFlux(
   m_vmec_internal_results.phiF[0] = 0.0;
   for (int jF = 1; jF < fc.ns; ++jF) {
     m_vmec_internal_results.phiF[jF] = m_vmec_internal_results.phiF[jF - 1] +
-                                       m_vmec_internal_results.phipF[jF - 1];
+                                       m_vmec_internal_results.phipH[jF - 1];
   }  // jF
 
   // now apply scaling
-- 
2.43.0


From 66d24113536e2ada8d8fd5f3396f79dc98d07806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:48 +0000
Subject: [PATCH 36/51] fix: zmax_surf and height were 0 and waist negative for
 boundaries given with a reversed poloidal angle

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 0fbfa4b..060c79e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3880,7 +3880,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
         vmec_internal_results.z_e(lcfs_kl) + vmec_internal_results.z_o(lcfs_kl);
     result.rmax_surf = std::max(result.rmax_surf, r);
     result.rmin_surf = std::min(result.rmin_surf, r);
-    result.zmax_surf = std::max(result.zmax_surf, z);
+    result.zmax_surf = std::max(result.zmax_surf, std::abs(z));
   }  // kl
 
   result.bmin = RowMatrixXd::Ones(fc.ns - 1, s.nThetaReduced) * DBL_MAX;
@@ -3929,7 +3929,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-    result.waist[symmetry_plane_index] = r_outboard - r_inboard;
+    result.waist[symmetry_plane_index] = std::abs(r_outboard - r_inboard);
 
     result.height[symmetry_plane_index] = 0.0;
     for (int l = 0; l < s.nThetaEff; ++l) {
@@ -3937,7 +3937,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
       const double z = vmec_internal_results.z_e(index_zeta) +
                        vmec_internal_results.z_o(index_zeta);
       result.height[symmetry_plane_index] =
-          std::max(result.height[symmetry_plane_index], z);
+          std::max(result.height[symmetry_plane_index], std::abs(z));
     }  // l
     result.height[symmetry_plane_index] *= 2.0;
 
-- 
2.43.0


From 692f9c04ee0cdd9fd4b5b24eeb88643325c9886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:34 +0000
Subject: [PATCH 37/51] fix: wdot mixed energies with decay rates (aliasing
 assignment)

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 060c79e..6de4e67 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4486,7 +4486,8 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
     wout.wdot.tail(wout.wdot.size() - 1) =
         (wout.wdot.tail(wout.wdot.size() - 1) -
          wout.wdot.head(wout.wdot.size() - 1))
-            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
+            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1))
+            .eval();
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From e4e45c212dce097e87238cd9c0dbb55612cfcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:52 +0000
Subject: [PATCH 38/51] fix: m = 0 lambda of asymmetric runs was not
 extrapolated to the axis in lmnc_full

---
 .../vmec/output_quantities/output_quantities.cc       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 6de4e67..9a73f6c 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -5251,6 +5251,17 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
         // since sin(m * theta) == 0 for m = 0 and sin(n * zeta) == 0 for n = 0
       }  // n
 
+      // extrapolate to axis, as done above for the symmetric part
+      if (jF == 0) {
+        for (int n = 0; n <= s.ntor; ++n) {
+          const int idx_ns_1 = (1 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const int idx_ns_2 = (2 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const double t1 = t.mscale[m_0] * t.nscale[n];
+          lmnc1[n] = t1 * (2.0 * m_vmec_internal_results.lmncc(idx_ns_1) -
+                           m_vmec_internal_results.lmncc(idx_ns_2));
+        }  // n
+      }
+
       // now come the m>0, n=-ntor, ..., ntor entries
       for (int m = 1; m < s.mpol; ++m) {
         for (int n = -s.ntor; n <= s.ntor; ++n) {
-- 
2.43.0


From c65f019116bb17be35ae3d3b7fc17f3ccca03a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:36 +0000
Subject: [PATCH 39/51] fix: wout files with more than 21 profile coefficients
 held wrong values or could not be written

---
 src/vmecpp/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 409569e..2a16260 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1574,6 +1574,18 @@ class VmecWOut(BaseModelWithNumpy):
                             )
                         shape_string = tuple(inferred_shape)
 
+                    # Arrays that share a dimension name can differ in length,
+                    # e.g. profiles with more coefficients than the default.
+                    shape_string = tuple(
+                        f"dim_{dim_size:05d}"
+                        if dim_name in fnc.dimensions
+                        and len(fnc.dimensions[dim_name]) != dim_size
+                        else dim_name
+                        for dim_name, dim_size in zip(
+                            shape_string, value_array.shape, strict=True
+                        )
+                    )
+
                     for dim_name, dim_size in zip(
                         shape_string, value_array.shape, strict=True
                     ):
-- 
2.43.0


From ec4b1dd2de9f9497b75f1191a77a7d59175706f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:25 +0000
Subject: [PATCH 40/51] fix: results files with as many surfaces as modes were
 loaded with transposed tables

---
 .../vmec/output_quantities/output_quantities.cc     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 9a73f6c..90b51f0 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1068,6 +1068,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   // new format uses (mnmax, ns). Detect by checking if dimensions match.
   // Also handle half-grid arrays that changed from (ns-1, mnmax) to (mnmax,
   // ns).
+  // For square arrays the dimensions do not tell; the names introduced together
+  // with the new layout do.
+  const bool is_new_format =
+      from_file.nameExists(absl::StrFormat("%s/%s", H5key, "iotas"));
   auto ReadAndTranspose2D = [&](RowMatrixXd& dest, const std::string& name) {
     RowMatrixXd tmp;
     ReadH5Dataset(tmp, absl::StrFormat("%s/%s", H5key, name), from_file);
@@ -1075,8 +1079,12 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // New layout is (mnmax, ns) where mnmax < ns is not guaranteed,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
+    const bool ambiguous =
+        tmp.cols() == m_obj.ns &&
+        (tmp.rows() == m_obj.mnmax || tmp.rows() == m_obj.mnmax_nyq);
     if (tmp.rows() == m_obj.ns &&
-        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
+        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq) &&
+        !(ambiguous && is_new_format)) {
       dest = tmp.transpose();
     } else {
       dest = tmp;
@@ -1090,7 +1098,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize &&
+                   !(mnsize == m_obj.ns && is_new_format)) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
-- 
2.43.0


From 2a64096deca6897f468a5c3219efa44c675d06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:00 +0000
Subject: [PATCH 41/51] fix: hot restart of asymmetric equilibria discarded the
 asymmetric half of the state

---
 .../vmec/fourier_geometry/fourier_geometry.cc | 76 ++++++++++++++++++-
 .../vmec/fourier_geometry/fourier_geometry.h  |  6 +-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       |  8 +-
 3 files changed, 86 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
index 02c8ebf..884aee2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
@@ -176,7 +176,10 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
                                     const RowMatrixXd& lmns_full,
                                     const RadialProfiles& p,
                                     const VmecConstants& constants,
-                                    const Boundaries* b) {
+                                    const Boundaries* b,
+                                    const RowMatrixXd* rmns,
+                                    const RowMatrixXd* zmnc,
+                                    const RowMatrixXd* lmnc_full) {
   // b == nullptr -> free-boundary -> we also initialize the last surface;
   // otherwise skip the last surface here and grab it from b later
   const int max_ns_to_set_rz_on_from_state = (b == nullptr) ? ns : ns - 1;
@@ -211,6 +214,30 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym && rmns != nullptr && zmnc != nullptr) {
+      const Eigen::VectorXd rmns_col = rmns->col(jF);
+      std::vector<double> rmnsc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> rmncs_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.sin_to_sc_cs({rmns_col.data(), static_cast<size_t>(rmns_col.size())},
+                      rmnsc_at_jF, rmncs_at_jF, s_.ntor, s_.mpol);
+
+      const Eigen::VectorXd zmnc_col = zmnc->col(jF);
+      std::vector<double> zmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> zmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss({zmnc_col.data(), static_cast<size_t>(zmnc_col.size())},
+                      zmncc_at_jF, zmnss_at_jF, s_.ntor, s_.mpol);
+
+      for (int idx_mn = 0; idx_mn < s_.mpol * (s_.ntor + 1); ++idx_mn) {
+        const int idx_jmn = (jF - nsMin_) * s_.mpol * (s_.ntor + 1) + idx_mn;
+        rmnsc[idx_jmn] = rmnsc_at_jF[idx_mn];
+        zmncc[idx_jmn] = zmncc_at_jF[idx_mn];
+        if (s_.lthreed) {
+          rmncs[idx_jmn] = rmncs_at_jF[idx_mn];
+          zmnss[idx_jmn] = zmnss_at_jF[idx_mn];
+        }
+      }
+    }
   }
 
   // This loop always need to go over the full radial range
@@ -242,6 +269,24 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym && lmnc_full != nullptr) {
+      const Eigen::VectorXd lmnc_col = lmnc_full->col(jF);
+      std::vector<double> lmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> lmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss({lmnc_col.data(), static_cast<size_t>(lmnc_col.size())},
+                      lmncc_at_jF, lmnss_at_jF, s_.ntor, s_.mpol);
+
+      const double lambda_unscaling =
+          constants.lamscale / p.phipF[jF - r_.nsMinF1];
+      for (int idx_mn = 0; idx_mn < s_.mpol * (s_.ntor + 1); ++idx_mn) {
+        const int idx_jmn = (jF - nsMin_) * s_.mpol * (s_.ntor + 1) + idx_mn;
+        lmncc[idx_jmn] = lmncc_at_jF[idx_mn] / lambda_unscaling;
+        if (s_.lthreed) {
+          lmnss[idx_jmn] = lmnss_at_jF[idx_mn] / lambda_unscaling;
+        }
+      }
+    }
   }
 
   // boundary from b, if present
@@ -264,6 +309,20 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       std::copy(b->zbcs.begin(), b->zbcs.begin() + mnsize, zmncs_begin);
     }
 
+    if (s_.lasym) {
+      const int offset = (jF - nsMin_) * mnsize;
+      std::copy(b->rbsc.begin(), b->rbsc.begin() + mnsize,
+                rmnsc.begin() + offset);
+      std::copy(b->zbcc.begin(), b->zbcc.begin() + mnsize,
+                zmncc.begin() + offset);
+      if (s_.lthreed) {
+        std::copy(b->rbcs.begin(), b->rbcs.begin() + mnsize,
+                  rmncs.begin() + offset);
+        std::copy(b->zbss.begin(), b->zbss.begin() + mnsize,
+                  zmnss.begin() + offset);
+      }
+    }
+
     for (int m = 0; m < s_.mpol; ++m) {
       for (int n = 0; n < s_.ntor + 1; ++n) {
         int idx_fc = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
@@ -277,6 +336,15 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
           rmnss[idx_fc] *= basis_norm;
           zmncs[idx_fc] *= basis_norm;
         }
+
+        if (s_.lasym) {
+          rmnsc[idx_fc] *= basis_norm;
+          zmncc[idx_fc] *= basis_norm;
+          if (s_.lthreed) {
+            rmncs[idx_fc] *= basis_norm;
+            zmnss[idx_fc] *= basis_norm;
+          }
+        }
       }
     }
   }
@@ -301,6 +369,12 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       if (s_.lthreed) {
         lmncs[idx_fc] = 0.0;
       }
+      if (s_.lasym) {
+        lmncc[idx_fc] = 0.0;
+        if (s_.lthreed) {
+          lmnss[idx_fc] = 0.0;
+        }
+      }
     }
   }
 }  // InitFromState
diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
index fa65a02..ff636f0 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
@@ -33,11 +33,15 @@ class FourierGeometry : public FourierCoeffs {
   // instead of from the Fourier coefficient matrices.
   // This latter use case applies to fixed-boundary hot-restart operation of
   // VMEC++.
+  // The non-stellarator-symmetric coefficients are only used if lasym.
   void InitFromState(const FourierBasisFastPoloidal &fb,
                      const RowMatrixXd &rmnc, const RowMatrixXd &zmns,
                      const RowMatrixXd &lmns_full, const RadialProfiles &p,
                      const VmecConstants &constants,
-                     const Boundaries *b = nullptr);
+                     const Boundaries *b = nullptr,
+                     const RowMatrixXd *rmns = nullptr,
+                     const RowMatrixXd *zmnc = nullptr,
+                     const RowMatrixXd *lmnc_full = nullptr);
 
   void extrapolateTowardsAxis();
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index b2b92f4..d34354e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -716,13 +716,17 @@ bool Vmec::InitializeRadial(
           // free-boundary hot restart: use all flux surfaces from initial state
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_,
+              /*b=*/nullptr, &initial_state->wout.rmns,
+              &initial_state->wout.zmnc, &initial_state->wout.lmnc_full);
         } else {
           // fixed-boundary hot restart: use inner flux surfaces from initial
           // state, and LCFS geometry from Boundaries (from INDATA)
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_,
+              &initial_state->wout.rmns, &initial_state->wout.zmnc,
+              &initial_state->wout.lmnc_full);
         }
       }
     } else {
-- 
2.43.0


From 923569efae43b7360ce86883facc6fd1e9a2bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:56 +0000
Subject: [PATCH 42/51] fix: hot restart read past the end of states with fewer
 surfaces or modes than declared

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index d34354e..77eec27 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -83,12 +83,32 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
   }
 
   // check for matching `ns`
-  if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
-      indata.ns_array[0]) {
+  if (initial_state.indata.ns_array.size() == 0 ||
+      initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
+          indata.ns_array[0]) {
     return absl::InvalidArgumentError(
         absl::StrCat(msg_start, "ns_array", msg_end));
   }
 
+  // check that the coefficients to be read are actually there: a run that gave
+  // up early returns fewer surfaces than the last entry of its ns_array
+  const vmecpp::WOutFileContents& wout = initial_state.wout;
+  const int mnmax = (indata.ntor + 1) + (indata.mpol - 1) * (2 * indata.ntor + 1);
+  const int ns = indata.ns_array[0];
+  const auto has_expected_shape = [mnmax, ns](const auto& coefficients) {
+    return coefficients.rows() == mnmax && coefficients.cols() == ns;
+  };
+  if (!has_expected_shape(wout.rmnc) || !has_expected_shape(wout.zmns) ||
+      !has_expected_shape(wout.lmns_full) ||
+      (indata.lasym &&
+       (!has_expected_shape(wout.rmns) || !has_expected_shape(wout.zmnc) ||
+        !has_expected_shape(wout.lmnc_full)))) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "The Fourier coefficients in the hot restart initial state need to "
+        "have shape (mnmax, ns) = (",
+        mnmax, ", ", ns, ")."));
+  }
+
   return absl::OkStatus();
 }
 }  // namespace
-- 
2.43.0


From a9bec995fc55dffeb7eaa4719d83a034fa4d6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:45 +0000
Subject: [PATCH 43/51] fix: VmecModel.hessian_vector_product read out of
 bounds for vectors of wrong length

---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 7f80048..1263185 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -419,6 +419,12 @@ class VmecModel {
                                        double eps_rel = 1e-7) {
     const Eigen::VectorXd x =
         FlattenActive(*vmec_->decomposed_x_[0], vmec_->s_);
+    if (v.size() != x.size()) {
+      throw std::runtime_error(
+          "VmecModel.hessian_vector_product: vector has wrong length (got " +
+          std::to_string(v.size()) + ", expected " + std::to_string(x.size()) +
+          ")");
+    }
     const double vnorm = v.norm();
     if (vnorm == 0.0) {
       return Eigen::VectorXd::Zero(x.size());
-- 
2.43.0


From d6c39a64730db6500b07f31147ef0c1c4cbe3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:45 +0000
Subject: [PATCH 44/51] fix: VmecModel.create accepted fewer than 3 surfaces
 and states of another resolution

---
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 1263185..e7657d9 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -169,6 +169,10 @@ class VmecModel {
   static std::unique_ptr<VmecModel> Create(
       const VmecINDATA &indata, int ns,
       const std::optional<vmecpp::HotRestartState> &initial_state) {
+    if (ns < 3) {
+      throw std::runtime_error("VmecModel.create: ns must be at least 3, got " +
+                               std::to_string(ns));
+    }
     auto vmec_or = vmecpp::Vmec::FromIndata(
         indata, /*magnetic_response_table=*/nullptr, /*max_threads=*/1,
         vmecpp::OutputMode::kSilent);
@@ -178,6 +182,21 @@ class VmecModel {
     auto model = std::make_unique<VmecModel>(std::move(vmec_or.value()));
     vmecpp::Vmec &v = *model->vmec_;
 
+    if (initial_state.has_value()) {
+      const vmecpp::WOutFileContents &wout = initial_state->wout;
+      const auto fits = [&v, ns](const auto &coefficients) {
+        return coefficients.rows() == v.s_.mnmax && coefficients.cols() == ns;
+      };
+      if (!fits(wout.rmnc) || !fits(wout.zmns) || !fits(wout.lmns_full) ||
+          (v.s_.lasym &&
+           (!fits(wout.rmns) || !fits(wout.zmnc) || !fits(wout.lmnc_full)))) {
+        throw std::runtime_error(
+            "VmecModel.create: the Fourier coefficients in initial_state need "
+            "to have shape (mnmax, ns) = (" +
+            std::to_string(v.s_.mnmax) + ", " + std::to_string(ns) + ")");
+      }
+    }
+
     // Mirror the per-multi-grid-step setup that Vmec::run performs before
     // SolveEquilibrium (vmec.cc), for a single ns value.
     v.fc_.ns_old = 0;
-- 
2.43.0


From 7fc155a8de4750fee2d184b7b5e713678f3710a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:45 +0000
Subject: [PATCH 45/51] fix: VmecModel.force_eval_count was lost in
 reinitialize and refine_to

---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index e7657d9..874d5f7 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -293,9 +293,10 @@ class VmecModel {
   // reset. Counts every Evaluate, including those inside hessian_vector_product
   // and preconditioner assembly, for a fair cross-optimizer cost comparison.
   std::int64_t force_eval_count() const {
-    return vmec_->m_[0]->forceEvaluationCount();
+    return earlier_force_evals_ + vmec_->m_[0]->forceEvaluationCount();
   }
-  void reset_force_eval_count() const {
+  void reset_force_eval_count() {
+    earlier_force_evals_ = 0;
     vmec_->m_[0]->resetForceEvaluationCount();
   }
 
@@ -345,6 +346,7 @@ class VmecModel {
     // InitializeRadial doubles rmsPhiP and rescales the entire lambda
     // sector by sqrt(2).
     vmec_->constants_.reset();
+    earlier_force_evals_ = force_eval_count();
     vmec_->InitializeRadial(vmecpp::VmecCheckpoint::NONE, INT_MAX,
                             vmec_->fc_.nsval, /*ns_old=*/0, delt0,
                             std::nullopt);
@@ -402,6 +404,7 @@ class VmecModel {
     // Same per-multi-grid-step constants reset Vmec::run performs before
     // InitializeRadial (rmsPhiP accumulates in evalRadialProfiles).
     v.constants_.reset();
+    earlier_force_evals_ = force_eval_count();
     v.InitializeRadial(vmecpp::VmecCheckpoint::NONE, INT_MAX, new_ns, ns_old,
                        delt0, std::nullopt, interpolation);
     last_preconditioner_update_ = 0;
@@ -555,6 +558,10 @@ class VmecModel {
   int last_preconditioner_update_ = 0;
   int last_full_update_nestor_ = 0;
   bool last_need_restart_ = false;
+
+  // InitializeRadial replaces the IdealMhdModel that counts the force
+  // evaluations; this keeps the evaluations done before.
+  std::int64_t earlier_force_evals_ = 0;
 };
 
 }  // anonymous namespace
-- 
2.43.0


From 8f5af9cd966b94fd7ad1c30e7c264bd6c2408537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:12 +0000
Subject: [PATCH 46/51] fix: VmecModel.hessian_vector_product did not restore
 the state when an evaluation failed

---
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 874d5f7..2867cd2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -452,14 +452,19 @@ class VmecModel {
       return Eigen::VectorXd::Zero(x.size());
     }
     const double eps = eps_rel * (1.0 + x.norm()) / vnorm;
-    UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x + eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
-    const Eigen::VectorXd fp =
-        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
-    UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x - eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
-    const Eigen::VectorXd fm =
-        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
+    Eigen::VectorXd fp;
+    Eigen::VectorXd fm;
+    try {
+      UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x + eps * v);
+      Evaluate(2, 2, /*precondition=*/false);
+      fp = FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
+      UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x - eps * v);
+      Evaluate(2, 2, /*precondition=*/false);
+      fm = FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
+    } catch (...) {
+      UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
+      throw;
+    }
     UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
     return (fp - fm) / (2.0 * eps);
   }
-- 
2.43.0


From 0695a431433dee5acd2c844d33398deb451f48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:00 +0000
Subject: [PATCH 47/51] fix: asymmetric free-boundary vacuum solve projected
 half of the response matrix on half of the poloidal range only

---
 .../laplace_solver/laplace_solver.cc          | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
index 16aa7bd..2d7c935 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
@@ -420,41 +420,45 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
   // assembled into amatsq in BuildMatrix.
   for (int mn = 0; mn < mnpd; ++mn) {
     for (int all_n = 0; all_n < 2 * nf + 1; ++all_n) {
-      Eigen::VectorXd actemp_l(s_.nThetaReduced);
-      Eigen::VectorXd astemp_l(s_.nThetaReduced);
-
       const int base_idx = (mn * (2 * nf + 1) + all_n) * s_.nThetaEff;
-      for (int l = 0; l < s_.nThetaReduced; ++l) {
-        actemp_l[l] = actemp[base_idx + l];
-        astemp_l[l] = astemp[base_idx + l];
-      }
 
-      Eigen::VectorXd result_ss = sinmui_scaled.transpose() * actemp_l -
-                                  cosmui_scaled.transpose() * astemp_l;
+      if (!s_.lasym) {
+        Eigen::VectorXd actemp_l(s_.nThetaReduced);
+        Eigen::VectorXd astemp_l(s_.nThetaReduced);
+        for (int l = 0; l < s_.nThetaReduced; ++l) {
+          actemp_l[l] = actemp[base_idx + l];
+          astemp_l[l] = astemp[base_idx + l];
+        }
 
-      for (int m = 0; m < mf + 1; ++m) {
-        const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
-        amat_sin_sin[idx_amat] = result_ss[m];
-      }
+        Eigen::VectorXd result_ss = sinmui_scaled.transpose() * actemp_l -
+                                    cosmui_scaled.transpose() * astemp_l;
 
-      if (s_.lasym) {
-        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * actemp_l +
-                                    sinmui_scaled.transpose() * astemp_l;
         for (int m = 0; m < mf + 1; ++m) {
           const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
-          amat_sin_cos[idx_amat] = result_sc[m];
+          amat_sin_sin[idx_amat] = result_ss[m];
         }
-
-        // The cos-source kernel grpmn_cos is evaluated on the full theta range.
-        // Its poloidal projection must cover that range, so fold actemp_cos /
-        // astemp_cos about theta -> -theta into the reduced-range parts the
+      } else {
+        // The kernels grpmn_sin and grpmn_cos are evaluated on the full theta
+        // range and have no definite parity for an asymmetric surface.
+        // Their poloidal projection must cover that range, so fold actemp /
+        // astemp about theta -> -theta into the reduced-range parts the
         // reduced-range weights expect (sin-observation <- antisymmetric fold,
         // cos-observation <- symmetric fold; actemp transforms even under the
         // reflection, astemp odd).
+        Eigen::VectorXd sac_so(s_.nThetaReduced), sas_so(s_.nThetaReduced);
+        Eigen::VectorXd sac_co(s_.nThetaReduced), sas_co(s_.nThetaReduced);
         Eigen::VectorXd cac_so(s_.nThetaReduced), cas_so(s_.nThetaReduced);
         Eigen::VectorXd cac_co(s_.nThetaReduced), cas_co(s_.nThetaReduced);
         for (int l = 0; l < s_.nThetaReduced; ++l) {
           const int rl = (s_.nThetaEven - l) % s_.nThetaEven;
+          const double sa = actemp[base_idx + l];
+          const double sar = actemp[base_idx + rl];
+          const double sb = astemp[base_idx + l];
+          const double sbr = astemp[base_idx + rl];
+          sac_so[l] = 0.5 * (sa - sar);
+          sas_so[l] = 0.5 * (sb + sbr);
+          sac_co[l] = 0.5 * (sa + sar);
+          sas_co[l] = 0.5 * (sb - sbr);
           const double ca = actemp_cos[base_idx + l];
           const double car = actemp_cos[base_idx + rl];
           const double cb = astemp_cos[base_idx + l];
@@ -465,12 +469,18 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
           cas_co[l] = 0.5 * (cb - cbr);
         }
 
+        Eigen::VectorXd result_ss = sinmui_scaled.transpose() * sac_so -
+                                    cosmui_scaled.transpose() * sas_so;
+        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * sac_co +
+                                    sinmui_scaled.transpose() * sas_co;
         Eigen::VectorXd result_cs = sinmui_scaled.transpose() * cac_so -
                                     cosmui_scaled.transpose() * cas_so;
         Eigen::VectorXd result_cc = cosmui_scaled.transpose() * cac_co +
                                     sinmui_scaled.transpose() * cas_co;
         for (int m = 0; m < mf + 1; ++m) {
           const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
+          amat_sin_sin[idx_amat] = result_ss[m];
+          amat_sin_cos[idx_amat] = result_sc[m];
           amat_cos_sin[idx_amat] = result_cs[m];
           amat_cos_cos[idx_amat] = result_cc[m];
         }
-- 
2.43.0


From 0025e82e4afd29638d143eedda223bdc0c3d39b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:52 +0000
Subject: [PATCH 48/51] fix: axisymmetric free-boundary runs with nfp > 1 mixed
 whole-torus and one-period integrals in the vacuum solver

---
 .../free_boundary/laplace_solver/laplace_solver.cc  |  4 ++--
 .../cpp/vmecpp/free_boundary/nestor/nestor.cc       |  8 +++++---
 .../surface_geometry/surface_geometry.cc            | 13 +++++++++----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
index 2d7c935..ed9ac03 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
@@ -231,7 +231,7 @@ void LaplaceSolver::AccumulateFullGrpmn(
     const Eigen::VectorXd& grpmn_sin_singular,
     const Eigen::VectorXd& grpmn_cos_singular) {
   const int mnpd = (mf + 1) * (2 * nf + 1);
-  const double inv_nfp = 1.0 / s_.nfp;
+  const double inv_nfp = (s_.nZeta == 1) ? 1.0 : 1.0 / s_.nfp;
 
   // Use Eigen Map to view std::vector as Eigen vector and vectorize
   Eigen::Map<const Eigen::VectorXd> sin_singular(grpmn_sin_singular.data(),
@@ -617,7 +617,7 @@ void LaplaceSolver::SolveForPotential(
     const Eigen::VectorXd& bvec_cos_singular) {
   const int mnpd = (mf + 1) * (2 * nf + 1);
   const int mnpd_dim = s_.lasym ? 2 * mnpd : mnpd;
-  const double inv_nfp = 1.0 / s_.nfp;
+  const double inv_nfp = (s_.nZeta == 1) ? 1.0 : 1.0 / s_.nfp;
 
 #ifdef _OPENMP
 #pragma omp single
diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc b/src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc
index 26afc08..86bdc37 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/nestor/nestor.cc
@@ -213,12 +213,14 @@ bool Nestor::update(
 #pragma omp barrier
 #endif  // _OPENMP
 
-  // compute magnetic pressure from co- and contravariant B_vac components
+  // compute magnetic pressure from co- and contravariant B_vac components;
+  // number of field periods as used in SurfaceGeometry
+  const int nfp = (s_.nZeta == 1) ? 1 : s_.nfp;
   for (int kl = tp_.ztMin; kl < tp_.ztMax; ++kl) {
     // metric elements, without the Nestors-specific normalizations
     double guu = sg_.guu[kl - tp_.ztMin];
-    double guv = sg_.guv[kl - tp_.ztMin] * s_.nfp * 0.5;
-    double gvv = sg_.gvv[kl - tp_.ztMin] * s_.nfp * s_.nfp;
+    double guv = sg_.guv[kl - tp_.ztMin] * nfp * 0.5;
+    double gvv = sg_.gvv[kl - tp_.ztMin] * nfp * nfp;
 
     double det = guu * gvv - guv * guv;
 
diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/surface_geometry/surface_geometry.cc b/src/vmecpp/cpp/vmecpp/free_boundary/surface_geometry/surface_geometry.cc
index 73ef7ac..b1c998a 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/surface_geometry/surface_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/surface_geometry/surface_geometry.cc
@@ -412,6 +412,11 @@ void SurfaceGeometry::derivedSurfaceQuantities(int signOfJacobian,
   // Derivatives are full-range (offset 0) for lasym and thread-local for the
   // symmetric case; the derived per-slice outputs stay thread-local.
   const int derivOffset = s_.lasym ? 0 : tp_.ztMin;
+
+  // The toroidal integral of an axisymmetric (nZeta == 1) plasma is done over
+  // the whole torus, as if nfp were 1.
+  const int nfp = (s_.nZeta == 1) ? 1 : s_.nfp;
+
   for (int kl = tp_.ztMin; kl < tp_.ztMax; ++kl) {
     const int o = kl - tp_.ztMin;    // thread-local output index
     const int d = kl - derivOffset;  // derivative index (full-range for lasym)
@@ -423,17 +428,17 @@ void SurfaceGeometry::derivedSurfaceQuantities(int signOfJacobian,
 
     // metric elements; used in Imn and Kmn
     guu[o] = rub[d] * rub[d] + zub[d] * zub[d];
-    guv[o] = 2.0 * (rub[d] * rvb[d] + zub[d] * zvb[d]) / s_.nfp;
+    guv[o] = 2.0 * (rub[d] * rvb[d] + zub[d] * zvb[d]) / nfp;
     gvv[o] = (rvb[d] * rvb[d] + r1b[kl] * r1b[kl] + zvb[d] * zvb[d]) /
-             (s_.nfp * s_.nfp);
+             (nfp * nfp);
 
     if (fullUpdate) {
       // d^2X/d(ij) . N (used in Kmn)
       auu[o] = (ruu[d] * snr[o] + zuu[d] * snz[o]) / 2;
-      auv[o] = (ruv[d] * snr[o] + rub[d] * snv[o] + zuv[d] * snz[o]) / s_.nfp;
+      auv[o] = (ruv[d] * snr[o] + rub[d] * snv[o] + zuv[d] * snz[o]) / nfp;
       avv[o] = (rvb[d] * snv[o] +
                 ((rvv[d] - r1b[kl]) * snr[o] + zvv[d] * snz[o]) / 2) /
-               (s_.nfp * s_.nfp);
+               (nfp * nfp);
 
       // -(R N^R + Z N^Z)
       drv[o] = -(r1b[kl] * snr[o] + z1b[kl] * snz[o]);
-- 
2.43.0


From f890cddfb014dd08358be22c762d502ae142abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 49/51] fix: revert on a bad Jacobian in the Python parvmec and
 robust iteration styles

---
 src/vmecpp/_iteration.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..703f559 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -378,17 +378,25 @@ def solve_equilibrium(
                 # whenever both improve; revert (gently, /1.03, without counting
                 # toward the give-up escalation) only when either grows past 1e4x
                 # its minimum after more than 10 steps since the last restart.
+                # A forward-model bad Jacobian leaves the residuals of the last
+                # valid geometry in place and always reverts (delt0r *= 0.9,
+                # ijacob++), as RestartIteration does in the C++ loop.
                 fsq0 = fsqr + fsqz + fsql
                 if iter2 == iter1 or res0 == -1.0:
                     res0 = fsq1
                     res1 = fsq0
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
+                improved = fsq1 <= res0 and fsq0 <= res1
+                if improved and rr != RestartReason.BAD_JACOBIAN:
                     model.save_backup()
                     saved_backup = True
-                elif (iter2 - iter1) > 10 and (
-                    fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
+                elif (
+                    not improved
+                    and (iter2 - iter1) > 10
+                    and (
+                        fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
+                    )
                 ):
                     model.restore_backup()
                     delt0r /= 1.03
@@ -396,6 +404,15 @@ def solve_equilibrium(
                     bad_resets += 1
                     n_restarts += 1
                     restarted = True
+                elif rr == RestartReason.BAD_JACOBIAN:
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    if not improved:
+                        bad_resets += 1
+                    n_restarts += 1
+                    restarted = True
             elif robust:
                 # Common-ground control: PARVMEC's dual-residual permissive leash
                 # (revert gently, without counting toward the give-up escalation)
@@ -407,7 +424,17 @@ def solve_equilibrium(
                     res1 = fsq0
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
+                if rr == RestartReason.BAD_JACOBIAN:
+                    # overlapping surfaces: the residuals are those of the last
+                    # valid geometry, only a smaller step from it can help
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    bad_resets += 1
+                    n_restarts += 1
+                    restarted = True
+                elif fsq1 <= res0 and fsq0 <= res1:
                     model.save_backup()
                     saved_backup = True
                 elif (
-- 
2.43.0


From 70720173050f636c01e9fde52124de6e83a126a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:30 +0000
Subject: [PATCH 50/51] fix: name the output of input.json wout_input.nc, as
 documented

---
 src/vmecpp/simsopt_compat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/simsopt_compat.py b/src/vmecpp/simsopt_compat.py
index 9778c83..9a9cb31 100644
--- a/src/vmecpp/simsopt_compat.py
+++ b/src/vmecpp/simsopt_compat.py
@@ -585,8 +585,10 @@ def _make_wout_filename(input_file: str | Path) -> str:
     # - input.foo.json -> wout_foo.nc
     # - input.foo.bar.json -> wout_foo.bar.nc
     input_file_basename = Path(input_file).name
-    if input_file_basename.startswith("input.") and input_file_basename.endswith(
-        ".json"
+    if (
+        input_file_basename.startswith("input.")
+        and input_file_basename.endswith(".json")
+        and input_file_basename != "input.json"
     ):
         out = ".".join(input_file_basename.split(".")[1:-1])
     elif input_file_basename.endswith(".json"):
-- 
2.43.0


From b252c80258567bbcbbe0e3b0b85322a438376d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 51/51] fix: VmecModel.restart_reason refuses numbers that are
 no restart reason

---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 2867cd2..7e021ea 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -505,6 +505,9 @@ class VmecModel {
     return static_cast<int>(vmec_->fc_.restart_reason);
   }
   void set_restart_reason(int reason) const {
+    if (reason < 1 || reason > 4) {
+      throw std::invalid_argument("restart_reason must be between 1 and 4");
+    }
     vmec_->fc_.restart_reason = vmecpp::RestartReasonFromInt(reason);
   }
   int status() const { return static_cast<int>(vmec_->get_status()); }
-- 
2.43.0

