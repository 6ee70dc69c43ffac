From 32e44761e05cfb5f90419b3fff8ec5d40d932bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 01/43] fix: stay inside the data vector when adding full-form
 bispectrum shot noise

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 3600497deac7e40e5cc0ffdd637e0ee1586ed560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 02/43] fix: wrap interlaced TSC assignment indices like the
 unshifted ones

---
 src/triumvirate/src/field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..af8c608 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -944,8 +944,8 @@ OMP_ATOMIC
         } else {
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
-            ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+            ? 0 : idx_grid + 1;
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From bec862a864fab2d4175537e9a90173add2ad8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 03/43] fix: assign particles rounded to the upper box edge to
 the first grid cell

---
 src/triumvirate/src/field.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index af8c608..cfa82a8 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,10 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -689,7 +693,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -753,6 +757,10 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -800,7 +808,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -864,6 +872,10 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -929,7 +941,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1012,6 +1024,10 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
@@ -1067,7 +1083,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From cccc2841324d5c3e0504131d0b7b0fb066460478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 04/43] fix: record binned vectors in an order independent of
 thread scheduling

---
 src/triumvirate/src/field.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index cfa82a8..af2b06f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2424,6 +2424,8 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
 
   binned_vectors.num_bins = binning.num_bins;
 
+  std::vector<long long> mesh_indices;  // mesh grid indices of the vectors
+
 #ifdef TRV_USE_OMP
 #pragma omp parallel for collapse(3)
 #endif  // TRV_USE_OMP
@@ -2452,6 +2454,7 @@ OMP_CRITICAL
             binned_vectors.vecy.push_back(vy);
             binned_vectors.vecz.push_back(vz);
             binned_vectors.count++;
+            mesh_indices.push_back(this->ret_grid_index(i, j, k));
             break;
           }
         }
@@ -2482,6 +2485,17 @@ OMP_CRITICAL
   std::vector<int> indices_sorted =
     trv::array::get_sorted_indices(binned_vectors.indices);
 
+  // Order vectors in the same bin by mesh grid index, as the recording
+  // order varies with thread scheduling.
+  std::sort(
+    indices_sorted.begin(), indices_sorted.end(),
+    [&](int a, int b) {
+      return (binned_vectors.indices[a] != binned_vectors.indices[b])
+        ? binned_vectors.indices[a] < binned_vectors.indices[b]
+        : mesh_indices[a] < mesh_indices[b];
+    }
+  );
+
   trvs::gbytesMem += trvs::size_in_gb<int>(binned_vectors.count);
   trvs::update_maxmem();
 
-- 
2.43.0


From 3524e47a26a102a625633d268d02a2bd8752c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 05/43] fix: do not re-initialise paths when validating the
 mixed-mesh normalisation parameters

The copied parameter set has been initialised already, so that validating
it as new turned a disabled FFTW wisdom directory into '/': the
'estimate' planner scheme was then rejected and otherwise wisdom files
were read from and written to the root directory.
---
 src/triumvirate/src/twopt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index f840a86..daeb9b6 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -253,7 +253,7 @@ double calc_powspec_normalisation_from_meshes(
 
   params_norm.assignment = assignment;
 
-  params_norm.validate(true);
+  params_norm.validate(false);  // already initialised
 
   // Reuse existing overloaded method.
   double norm_factor = calc_powspec_normalisation_from_meshes(
-- 
2.43.0


From 5d2d85cdcb208c0fd9d98512b32910145205d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 06/43] fix: load parameter files exactly or fail

Parameter names were matched anywhere in a line, so that e.g. the printed
'assignment_order = 2' set the assignment scheme to '2' and a path
containing a parameter name set that parameter.  Long values overflowed
16-character buffers, malformed or out-of-range numbers were ignored,
unset box sizes and grid numbers were uninitialised, and open and read
failures were taken for the end of the file.
---
 src/triumvirate/include/parameters.hpp |   1 +
 src/triumvirate/src/parameters.cpp     | 311 ++++++++++---------------
 2 files changed, 124 insertions(+), 188 deletions(-)

diff --git a/src/triumvirate/include/parameters.hpp b/src/triumvirate/include/parameters.hpp
index 4c90db7..6cb4e30 100644
--- a/src/triumvirate/include/parameters.hpp
+++ b/src/triumvirate/include/parameters.hpp
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <sstream>
 #include <string>
 
 #include "monitor.hpp"
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..9cd1f27 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -100,229 +100,164 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   std::string param_filepath = parameter_filepath;
 
   std::ifstream fin(param_filepath.c_str());
+  if (!fin.is_open()) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Failed to open parameter file: %s", param_filepath.c_str()
+      );
+    }
+    throw trvs::IOError(
+      "Failed to open parameter file: %s", param_filepath.c_str()
+    );
+  }
 
   // Initialise temporary variables to hold the extracted parameters.
-  // NOTE: Assume file systems allow path character lengths up to 4096,
-  // and up to 64 files of this maximum lengths are stored in the
-  // char arrays.
-  char catalogue_dir_[1024] = "";
-  char measurement_dir_[1024] = "";
-  char data_catalogue_file_[262144] = "";
-  char rand_catalogue_file_[262144] = "";
-  char catalogue_columns_[1024] = "";
-  char catalogue_dataset_[1024] = "";
-  char output_tag_[1024] = "";
-
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
-
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
-
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
-
-  char fftw_scheme_[16] = "";
-  char use_fftw_wisdom_[1024] = "";
-  char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  std::string catalogue_dir_;
+  std::string measurement_dir_;
+  std::string data_catalogue_file_;
+  std::string rand_catalogue_file_;
+  std::string catalogue_columns_;
+  std::string catalogue_dataset_;
+  std::string output_tag_;
+
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
+
+  std::string alignment_;
+  std::string padscale_;
+  std::string assignment_;
+  std::string interlace_;
+
+  std::string catalogue_type_;
+  std::string statistic_type_;
+  std::string form_;
+  std::string norm_convention_;
+  std::string binning_;
+
+  std::string fftw_scheme_;
+  std::string use_fftw_wisdom_;
+  std::string save_binned_vectors_;
+  std::string progbar_;
 
   // ---------------------------------------------------------------------
   // Extraction
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
       continue;
     }  // skip comment lines
-    if (
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
-      ) != 3
-    ) {
+    std::istringstream line_stream(line_str);
+    line_stream.exceptions(std::ios::badbit);
+    std::string par_name_, par_equal_, par_value_;
+    if (!(line_stream >> par_name_ >> par_equal_ >> par_value_)) {
       continue;
     }  // skip non-relation lines
-    if (std::strcmp(dummy_equal, "=") != 0) {
+    if (par_equal_ != "=") {
       continue;
     }  // skip non-assignment lines
 
-    // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    // Define convenience functions for scanning parameters.
+    auto scan_par_str = [&par_name_, &par_value_](
+      const char* par_name, std::string& par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
-        std::sscanf(
-          line_str.data(), fmt, dummy_str, dummy_equal, par_value
-        );
+      if (par_name_ == par_name) {
+        par_value = par_value_;
+      }
+    };
+    auto scan_par_num = [&par_name_, &par_value_](
+      const char* par_name, auto& par_value
+    ) {
+      if (par_name_ == par_name) {
+        std::istringstream value_stream(par_value_);
+        if (!(value_stream >> par_value) || !value_stream.eof()) {
+          if (trvs::currTask == 0) {
+            trvs::logger.error(
+              "Parameter value is not a valid number: `%s` = '%s'.",
+              par_name, par_value_.c_str()
+            );
+          }
+          throw trvs::InvalidParameterError(
+            "Parameter value is not a valid number: `%s` = '%s'.",
+            par_name, par_value_.c_str()
+          );
+        }
       }
     };
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", catalogue_dir_);
+    scan_par_str("measurement_dir", measurement_dir_);
+    scan_par_str("data_catalogue_file", data_catalogue_file_);
+    scan_par_str("rand_catalogue_file", rand_catalogue_file_);
+    scan_par_str("catalogue_columns", catalogue_columns_);
+    scan_par_str("catalogue_dataset", catalogue_dataset_);
+    scan_par_str("output_tag", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_x
-      );
-    }
-    if (line_str.find("boxsize_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_y
-      );
-    }
-    if (line_str.find("boxsize_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_z
-      );
-    }
+    scan_par_num("boxsize_x", boxsize_x);
+    scan_par_num("boxsize_y", boxsize_y);
+    scan_par_num("boxsize_z", boxsize_z);
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_x
-      );
-    }
-    if (line_str.find("ngrid_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_y
-      );
-    }
-    if (line_str.find("ngrid_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
-      );
-    }
+    scan_par_num("ngrid_x", ngrid_x);
+    scan_par_num("ngrid_y", ngrid_y);
+    scan_par_num("ngrid_z", ngrid_z);
 
-    if (line_str.find("expand") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->expand
-      );
-    }
+    scan_par_num("expand", this->expand);
 
-    scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
-    scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
+    scan_par_str("alignment", alignment_);
+    scan_par_str("padscale", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->padfactor
-      );
-    }
+    scan_par_num("padfactor", this->padfactor);
 
-    scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
-    scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
+    scan_par_str("assignment", assignment_);
+    scan_par_str("interlace", interlace_);
 
     // -- Measurement ----------------------------------------------------
 
-    scan_par_str("catalogue_type", "%1023s %1023s %1023s", catalogue_type_);
-    scan_par_str("statistic_type", "%1023s %1023s %1023s", statistic_type_);
-    scan_par_str("form", "%1023s %1023s %1023s", form_);
-    scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
-    scan_par_str("binning", "%1023s %1023s %1023s", binning_);
+    scan_par_str("catalogue_type", catalogue_type_);
+    scan_par_str("statistic_type", statistic_type_);
+    scan_par_str("form", form_);
+    scan_par_str("norm_convention", norm_convention_);
+    scan_par_str("binning", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell1
-      );
-    }
-    if (line_str.find("ell2") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell2
-      );
-    }
-    if (line_str.find("ELL") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ELL
-      );
-    }
+    scan_par_num("ell1", this->ell1);
+    scan_par_num("ell2", this->ell2);
+    scan_par_num("ELL", this->ELL);
 
-    if (line_str.find("i_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->i_wa
-      );
-    }
-    if (line_str.find("j_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->j_wa
-      );
-    }
+    scan_par_num("i_wa", this->i_wa);
+    scan_par_num("j_wa", this->j_wa);
 
-    if (line_str.find("bin_min") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_min
-      );
-    }
-    if (line_str.find("bin_max") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_max
-      );
-    }
+    scan_par_num("bin_min", this->bin_min);
+    scan_par_num("bin_max", this->bin_max);
 
-    if (line_str.find("num_bins") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->num_bins
-      );
-    }
-    if (line_str.find("idx_bin") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->idx_bin
-      );
-    }
+    scan_par_num("num_bins", this->num_bins);
+    scan_par_num("idx_bin", this->idx_bin);
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->cutoff_nyq
-      );
-    }
+    scan_par_num("cutoff_nyq", this->cutoff_nyq);
 
     // -- Misc -------------------------------------------------------------
 
-    scan_par_str("fftw_scheme", "%1023s %1023s %1023s", fftw_scheme_);
-    scan_par_str("use_fftw_wisdom", "%1023s %1023s %1023s", use_fftw_wisdom_);
-    scan_par_str(
-      "save_binned_vectors", "%1023s %1023s %1023s", save_binned_vectors_
-    );
-    scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
+    scan_par_str("fftw_scheme", fftw_scheme_);
+    scan_par_str("use_fftw_wisdom", use_fftw_wisdom_);
+    scan_par_str("save_binned_vectors", save_binned_vectors_);
+    scan_par_str("progbar", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->verbose
+    scan_par_num("verbose", this->verbose);
+  }
+  if (fin.bad()) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Failed to read parameter file: %s", param_filepath.c_str()
       );
     }
+    throw trvs::IOError(
+      "Failed to read parameter file: %s", param_filepath.c_str()
+    );
   }
 
   // ---------------------------------------------------------------------
@@ -340,41 +275,41 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->catalogue_dataset = catalogue_dataset_;
   this->output_tag = output_tag_;
 
-  if (strlen(alignment_) > 0) {
+  if (!alignment_.empty()) {
     this->alignment = alignment_;
   }
-  if (strlen(padscale_) > 0) {
+  if (!padscale_.empty()) {
     this->padscale = padscale_;
   }
-  if (strlen(assignment_) > 0) {
+  if (!assignment_.empty()) {
     this->assignment = assignment_;
   }
-  if (strlen(interlace_) > 0) {
+  if (!interlace_.empty()) {
     this->interlace = interlace_;
   }
 
   this->catalogue_type = catalogue_type_;
   this->statistic_type = statistic_type_;
-  if (strlen(form_) > 0) {
+  if (!form_.empty()) {
     this->form = form_;
   }
-  if (strlen(norm_convention_) > 0) {
+  if (!norm_convention_.empty()) {
     this->norm_convention = norm_convention_;
   }
-  if (strlen(binning_) > 0) {
+  if (!binning_.empty()) {
     this->binning = binning_;
   }
 
-  if (strlen(fftw_scheme_) > 0) {
+  if (!fftw_scheme_.empty()) {
     this->fftw_scheme = fftw_scheme_;
   }
-  if (strlen(use_fftw_wisdom_) > 0) {
+  if (!use_fftw_wisdom_.empty()) {
     this->use_fftw_wisdom = use_fftw_wisdom_;
   }
-  if (strlen(save_binned_vectors_) > 0) {
+  if (!save_binned_vectors_.empty()) {
     this->save_binned_vectors = save_binned_vectors_;
   }
-  if (strlen(progbar_) > 0) {
+  if (!progbar_.empty()) {
     this->progbar = progbar_;
   }
 
-- 
2.43.0


From 4bce9f69e36e4e7751411328e33bcc6fb62ace86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 07/43] fix: reject a non-positive Nyquist cutoff when the grid
 number is unset

It led to unbounded recursion between the validation of the parameters
and the setting of the grid number.
---
 src/triumvirate/src/parameters.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 9cd1f27..0336702 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1367,6 +1367,21 @@ void set_boxsize_from_expand(
 }
 
 void set_ngrid_from_cutoff(trv::ParameterSet& params) {
+  if (params.cutoff_nyq <= 0.) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "The Nyquist cutoff must be positive when the grid cell number "
+        "is unset: `cutoff_nyq` = %lg",
+        params.cutoff_nyq
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "The Nyquist cutoff must be positive when the grid cell number "
+      "is unset: `cutoff_nyq` = %lg",
+      params.cutoff_nyq
+    );
+  }
+
   for (int iaxis = 0; iaxis < 3; iaxis++) {
     int ngrid_;
     if (params.space == "fourier") {
-- 
2.43.0


From 3ec8be63d18f83df2a61cc83746e2406ba5b3beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 08/43] fix: print the used parameters so that they load as the
 same values

Numbers were rounded to a few decimal places, the Nyquist cutoff was
omitted, the mesh number was passed as a truncated integer, and relative
file paths were printed with the directory that is prepended to them
again when loaded.  Write failures were ignored.
---
 src/triumvirate/src/parameters.cpp | 72 ++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 0336702..3484c85 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1229,33 +1229,64 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
-  auto print_par_double = [ofileptr](const char* fmt, double par_val) {
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_double = [ofileptr](const char* fmt, double par_val) {
+    // Use the shortest representation that is loaded as the same value.
+    char val_str[32];
+    for (int ndigit = 6; ndigit <= 17; ndigit++) {
+      std::snprintf(val_str, sizeof(val_str), "%.*g", ndigit, par_val);
+      if (std::strtod(val_str, nullptr) == par_val) {break;}
+    }
+    std::fprintf(ofileptr, fmt, val_str);
+  };
+
+  // Define convenience function for removing the directory which
+  // is prepended when a relative path is loaded.
+  auto remove_dir = [](const std::string& path, const std::string& dir) {
+    return (path.rfind("/", 0) != 0 && path.rfind(dir, 0) == 0)
+      ? path.substr(dir.length()) : path;
+  };
+
+  std::vector<std::string> data_files_, rand_files_;
+  for (const std::string& file_ : this->data_catalogue_files) {
+    data_files_.push_back(remove_dir(file_, this->catalogue_dir));
+  }
+  for (const std::string& file_ : this->rand_catalogue_files) {
+    rand_files_.push_back(remove_dir(file_, this->catalogue_dir));
+  }
 
   // Print parameters to file.
   print_par_str("catalogue_dir = %s\n", this->catalogue_dir);
   print_par_str("measurement_dir = %s\n", this->measurement_dir);
-  print_par_str("data_catalogue_file = %s\n", this->data_catalogue_file);
-  print_par_str("rand_catalogue_file = %s\n", this->rand_catalogue_file);
+  print_par_str(
+    "data_catalogue_file = %s\n",
+    trvs::join_strings(data_files_, trvs::fn_delimiter)
+  );
+  print_par_str(
+    "rand_catalogue_file = %s\n",
+    trvs::join_strings(rand_files_, trvs::fn_delimiter)
+  );
   print_par_str("catalogue_columns = %s\n", this->catalogue_columns);
   print_par_str("catalogue_dataset = %s\n", this->catalogue_dataset);
   print_par_str("output_tag = %s\n", this->output_tag);
 
-  print_par_double("boxsize_x = %.3f\n", this->boxsize[0]);
-  print_par_double("boxsize_y = %.3f\n", this->boxsize[1]);
-  print_par_double("boxsize_z = %.3f\n", this->boxsize[2]);
+  print_par_double("boxsize_x = %s\n", this->boxsize[0]);
+  print_par_double("boxsize_y = %s\n", this->boxsize[1]);
+  print_par_double("boxsize_z = %s\n", this->boxsize[2]);
   print_par_int("ngrid_x = %d\n", this->ngrid[0]);
   print_par_int("ngrid_y = %d\n", this->ngrid[1]);
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
-  print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_double("volume = %s\n", this->volume);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
-  print_par_double("expand = %.4f\n", this->expand);
+  print_par_double("cutoff_nyq = %s\n", this->cutoff_nyq);
+  print_par_double("expand = %s\n", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
   print_par_str("padscale = %s\n", this->padscale);
-  print_par_double("padfactor = %.4f\n", this->padfactor);
+  print_par_double("padfactor = %s\n", this->padfactor);
 
   print_par_str("assignment = %s\n", this->assignment);
   print_par_str("interlace = %s\n", this->interlace);
@@ -1278,8 +1309,8 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("binning = %s\n", this->binning);
   print_par_str("shape = %s\n", this->shape);
 
-  print_par_double("bin_min = %.4f\n", this->bin_min);
-  print_par_double("bin_max = %.4f\n", this->bin_max);
+  print_par_double("bin_min = %s\n", this->bin_min);
+  print_par_double("bin_max = %s\n", this->bin_max);
   print_par_int("num_bins = %d\n", this->num_bins);
   print_par_int("idx_bin = %d\n", this->idx_bin);
 
@@ -1287,12 +1318,25 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("use_fftw_wisdom = %s\n", this->use_fftw_wisdom.c_str());
   print_par_str("fftw_wisdom_file_f = %s\n", this->fftw_wisdom_file_f.c_str());
   print_par_str("fftw_wisdom_file_b = %s\n", this->fftw_wisdom_file_b.c_str());
-  print_par_str("save_binned_vectors = %s\n", this->save_binned_vectors);
+  print_par_str(
+    "save_binned_vectors = %s\n",
+    remove_dir(this->save_binned_vectors, this->measurement_dir)
+  );
   print_par_str("progbar = %s\n", this->progbar);
   print_par_int("verbose = %d\n", this->verbose);
   print_par_int("fftw_planner_flag = %d\n", this->fftw_planner_flag);
 
-  std::fclose(ofileptr);
+  bool failed = std::ferror(ofileptr);
+  if (std::fclose(ofileptr) || failed) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Failed to write used-parameter file: %s", out_parameter_filepath
+      );
+    }
+    throw trvs::IOError(
+      "Failed to write used-parameter file: %s", out_parameter_filepath
+    );
+  }
 
   if (trvs::currTask == 0) {
     trvs::logger.info(
-- 
2.43.0


From 1b3136453f545ee4f4b33c2ac9bcb09f30eb82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 09/43] fix: raise an exception when a mesh array cannot be
 allocated

The null pointer returned was written to.
---
 src/triumvirate/include/arrayops.hpp | 19 +++++++++++++++++++
 src/triumvirate/src/arrayops.cpp     | 16 ++++++++++++++++
 src/triumvirate/src/fftlog.cpp       |  4 ++--
 src/triumvirate/src/field.cpp        | 26 +++++++++++++-------------
 src/triumvirate/src/twopt.cpp        |  4 ++--
 5 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/triumvirate/include/arrayops.hpp b/src/triumvirate/include/arrayops.hpp
index de111d5..c5e0c5c 100644
--- a/src/triumvirate/include/arrayops.hpp
+++ b/src/triumvirate/include/arrayops.hpp
@@ -44,6 +44,8 @@
 #include <cfenv>
 #include <cmath>
 #include <cstdarg>
+#include <cstddef>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -61,6 +63,23 @@ using libXtDesc = cudaLibXtDesc;
 
 namespace trv {
 
+// ***********************************************************************
+// Allocation
+// ***********************************************************************
+
+namespace array {
+
+/**
+ * @brief Allocate a complex array to be freed with `fftw_free`.
+ *
+ * @param size Number of array elements.
+ * @returns Allocated (uninitialised) array.
+ * @throws std::bad_alloc When the allocation fails.
+ */
+fftw_complex* alloc_complex_array(std::size_t size);
+
+}  // namespace trv::array
+
 // ***********************************************************************
 // Extrapolation
 // ***********************************************************************
diff --git a/src/triumvirate/src/arrayops.cpp b/src/triumvirate/src/arrayops.cpp
index 3c13753..47359b7 100644
--- a/src/triumvirate/src/arrayops.cpp
+++ b/src/triumvirate/src/arrayops.cpp
@@ -32,6 +32,22 @@ namespace trvs = trv::sys;
 
 namespace trv {
 
+// ***********************************************************************
+// Allocation
+// ***********************************************************************
+
+namespace array {
+
+fftw_complex* alloc_complex_array(std::size_t size) {
+  fftw_complex* arr = fftw_alloc_complex(size);
+  if (arr == nullptr && size > 0) {
+    throw std::bad_alloc();
+  }
+  return arr;
+}
+
+}  // namespace trv::array
+
 // ***********************************************************************
 // Extrapolation
 // ***********************************************************************
diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..5450cac 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -195,7 +195,7 @@ void HankelTransform::initialise(
 #endif  // _CUDA_STREAM
   }
 
-  this->pre_buffer = fftw_alloc_complex(this->nsamp_trans);
+  this->pre_buffer = trv::array::alloc_complex_array(this->nsamp_trans);
 
   if (trvs::is_gpu_enabled()) {
 #if defined(TRV_USE_HIP)
@@ -230,7 +230,7 @@ void HankelTransform::initialise(
     );
   }
 
-  this->post_buffer = fftw_alloc_complex(this->nsamp_trans);
+  this->post_buffer = trv::array::alloc_complex_array(this->nsamp_trans);
 
   if (trvs::is_gpu_enabled()) {
   } else {
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index af2b06f..6102a58 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -53,7 +53,7 @@ MeshField::MeshField(
 
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
-  this->field = fftw_alloc_complex(this->params.nmesh);
+  this->field = trv::array::alloc_complex_array(this->params.nmesh);
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -62,7 +62,7 @@ MeshField::MeshField(
   trvs::update_maxmem();
 
   if (this->params.interlace == "true") {
-    this->field_s = fftw_alloc_complex(this->params.nmesh);
+    this->field_s = trv::array::alloc_complex_array(this->params.nmesh);
 // #ifdef TRV_USE_HIP
 //     if (trvs::is_gpu_enabled()) {
 //       HIP_EXEC(hipMalloc(
@@ -388,7 +388,7 @@ MeshField::MeshField(
 
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
-  this->field = fftw_alloc_complex(this->params.nmesh);
+  this->field = trv::array::alloc_complex_array(this->params.nmesh);
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -397,7 +397,7 @@ MeshField::MeshField(
   trvs::update_maxmem();
 
   if (this->params.interlace == "true") {
-    this->field_s = fftw_alloc_complex(this->params.nmesh);
+    this->field_s = trv::array::alloc_complex_array(this->params.nmesh);
 
     trvs::count_cgrid += 1;
     trvs::count_grid += 1;
@@ -1222,7 +1222,7 @@ void MeshField::compute_assignment_window_in_fourier(int order) {
 // -----------------------------------------------------------------------
 
 void MeshField::compute_unweighted_field(ParticleCatalogue& particles) {
-  fftw_complex* unit_weight = fftw_alloc_complex(particles.ntotal);
+  fftw_complex* unit_weight = trv::array::alloc_complex_array(particles.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles.ntotal);
   trvs::update_maxmem();
@@ -1264,7 +1264,7 @@ void MeshField::compute_ylm_wgtd_field(
   LineOfSight* los_data, LineOfSight* los_rand,
   double alpha, int ell, int m
 ) {
-  fftw_complex* weight_kern = fftw_alloc_complex(particles_data.ntotal);
+  fftw_complex* weight_kern = trv::array::alloc_complex_array(particles_data.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_data.ntotal);
   trvs::update_maxmem();
@@ -1291,7 +1291,7 @@ void MeshField::compute_ylm_wgtd_field(
   trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(particles_data.ntotal);
 
   // Compute the weighted random-source field.
-  weight_kern = fftw_alloc_complex(particles_rand.ntotal);
+  weight_kern = trv::array::alloc_complex_array(particles_rand.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_rand.ntotal);
   trvs::update_maxmem();
@@ -1343,7 +1343,7 @@ void MeshField::compute_ylm_wgtd_field(
   double alpha, int ell, int m
 ) {
   // Compute the weighted field.
-  fftw_complex* weight_kern = fftw_alloc_complex(particles.ntotal);
+  fftw_complex* weight_kern = trv::array::alloc_complex_array(particles.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles.ntotal);
   trvs::update_maxmem();
@@ -1384,7 +1384,7 @@ void MeshField::compute_ylm_wgtd_quad_field(
   int ell, int m
 ) {
   // Compute the quadratic weighted data-source field.
-  fftw_complex* weight_kern = fftw_alloc_complex(particles_data.ntotal);
+  fftw_complex* weight_kern = trv::array::alloc_complex_array(particles_data.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_data.ntotal);
   trvs::update_maxmem();
@@ -1413,7 +1413,7 @@ void MeshField::compute_ylm_wgtd_quad_field(
   trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(particles_data.ntotal);
 
   // Compute the quadratic weighted random-source field.
-  weight_kern = fftw_alloc_complex(particles_rand.ntotal);
+  weight_kern = trv::array::alloc_complex_array(particles_rand.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_rand.ntotal);
   trvs::update_maxmem();
@@ -1467,7 +1467,7 @@ void MeshField::compute_ylm_wgtd_quad_field(
   double alpha, int ell, int m
 ) {
   // Compute the quadratic weighted field.
-  fftw_complex* weight_kern = fftw_alloc_complex(particles.ntotal);
+  fftw_complex* weight_kern = trv::array::alloc_complex_array(particles.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles.ntotal);
   trvs::update_maxmem();
@@ -2034,7 +2034,7 @@ double MeshField::calc_grid_based_powlaw_norm(
   ParticleCatalogue& particles, int order
 ) {
   // Initialise the weight field.
-  fftw_complex* weight = fftw_alloc_complex(particles.ntotal);
+  fftw_complex* weight = trv::array::alloc_complex_array(particles.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles.ntotal);
   trvs::update_maxmem();
@@ -2110,7 +2110,7 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
 
   // Set up FFTW plans.
   if (plan_ini) {
-    this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+    this->twopt_3d = trv::array::alloc_complex_array(this->params.nmesh);
 #ifdef TRV_USE_HIP
     if (trvs::is_gpu_enabled()) {
       HIP_EXEC(hipMalloc(
diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index daeb9b6..3f63d34 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -160,10 +160,10 @@ double calc_powspec_normalisation_from_meshes(
   trv::MeshField mesh_rand(params, false, "`mesh_rand`");
 
   fftw_complex* weight_data = nullptr;
-  weight_data = fftw_alloc_complex(particles_data.ntotal);
+  weight_data = trv::array::alloc_complex_array(particles_data.ntotal);
 
   fftw_complex* weight_rand = nullptr;
-  weight_rand = fftw_alloc_complex(particles_rand.ntotal);
+  weight_rand = trv::array::alloc_complex_array(particles_rand.ntotal);
 
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_data.ntotal);
   trvs::gbytesMem += trvs::size_in_gb<fftw_complex>(particles_rand.ntotal);
-- 
2.43.0


From e0f27a439851e45aecda24f2242f72a1e256a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 10/43] fix: report failures to write the binned-vectors file

A file that could not be opened crashed the program; failed writes were
ignored.
---
 src/triumvirate/src/field.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6102a58..a8da5d5 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2515,10 +2515,26 @@ OMP_CRITICAL
   // Save the binned vectors.
   if (save_file != "") {
     std::FILE* save_fileptr = std::fopen(save_file.c_str(), "w");
-    trv::io::print_binned_vectors_to_file(
-      save_fileptr, this->params, binned_vectors_sorted
-    );
-    std::fclose(save_fileptr);
+    bool saved = save_fileptr != nullptr;
+    if (saved) {
+      trv::io::print_binned_vectors_to_file(
+        save_fileptr, this->params, binned_vectors_sorted
+      );
+      saved = !std::ferror(save_fileptr);
+      saved = !std::fclose(save_fileptr) && saved;
+    }
+    if (!saved) {
+      trvs::gbytesMem -= trvs::size_in_gb<double>(2*6*binned_vectors.count);
+      trvs::gbytesMem -= trvs::size_in_gb<int>(binned_vectors.count);
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Failed to write binned-vectors file: %s", save_file.c_str()
+        );
+      }
+      throw trvs::IOError(
+        "Failed to write binned-vectors file: %s", save_file.c_str()
+      );
+    }
 
     if (trvs::currTask == 0) {
       trvs::logger.info(
-- 
2.43.0


From 22642c4bde7e41aff0b40a24cd83805ad249d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 11/43] fix: end the program with an error when an output
 cannot be written

Measurement files that could not be opened crashed the program, failed
writes were ignored, and exceptions were not caught.
---
 src/triumvirate/main/triumvirate.cpp | 93 +++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..bb93575 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -28,6 +28,8 @@
  */
 
 #include <cstdio>
+#include <cstdlib>
+#include <exception>
 #include <stdexcept>
 #include <string>
 
@@ -99,14 +101,46 @@ void _set_custom_bins(trv::Binning& _binning) {
 }
 
 /**
- * @brief A 'black-box' program for measuring two- and three-point
- *        clustering statistics.
+ * @brief Open a measurement file for writing.
+ *
+ * @param save_filepath Measurement file path.
+ * @returns Measurement file pointer.
+ * @throws trv::sys::IOError When the file cannot be opened.
+ */
+std::FILE* _open_save_file(const char* save_filepath) {
+  std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+  if (save_fileptr == nullptr) {
+    throw trv::sys::IOError(
+      "Failed to open measurement file: %s", save_filepath
+    );
+  }
+  return save_fileptr;
+}
+
+/**
+ * @brief Close a written measurement file.
+ *
+ * @param save_fileptr Measurement file pointer.
+ * @param save_filepath Measurement file path.
+ * @throws trv::sys::IOError When the file is not completely written.
+ */
+void _close_save_file(std::FILE* save_fileptr, const char* save_filepath) {
+  bool failed = std::ferror(save_fileptr);
+  if (std::fclose(save_fileptr) || failed) {
+    throw trv::sys::IOError(
+      "Failed to write measurement file: %s", save_filepath
+    );
+  }
+}
+
+/**
+ * @brief Run the measurement program.
  *
  * @param argc Number of command-line arguments.
  * @param argv Command-line arguments.
  * @returns Exit status.
  */
-int main(int argc, char* argv[]) {
+int _run(int argc, char* argv[]) {
 
   for (int idx_arg = 1; idx_arg < argc; idx_arg++) {
     std::string arg = argv[idx_arg];
@@ -607,7 +641,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -617,7 +651,7 @@ int main(int argc, char* argv[]) {
       meas_powspec = trv::compute_powspec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -626,7 +660,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_powspec
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf") {
     std::snprintf(
@@ -640,7 +674,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -650,7 +684,7 @@ int main(int argc, char* argv[]) {
       meas_2pcf = trv::compute_corrfunc_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -659,7 +693,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf-win") {
     std::snprintf(
@@ -670,7 +704,7 @@ int main(int argc, char* argv[]) {
     trv::TwoPCFWindowMeasurements meas_2pcf_win = trv::compute_corrfunc_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor
     );  // two-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -678,7 +712,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf_win
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "bispec") {
     if (params.form == "full" || params.form == "diag") {
@@ -713,7 +747,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -723,7 +757,7 @@ int main(int argc, char* argv[]) {
       meas_bispec = trv::compute_bispec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -732,7 +766,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_bispec
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf") {
     if (params.form == "full" || params.form == "diag") {
@@ -767,7 +801,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -777,7 +811,7 @@ int main(int argc, char* argv[]) {
       meas_3pcf = trv::compute_3pcf_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_save_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -786,7 +820,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win") {
     if (params.form == "full" || params.form == "diag") {
@@ -819,7 +853,7 @@ int main(int argc, char* argv[]) {
     trv::ThreePCFWindowMeasurements meas_3pcf_win = trv::compute_3pcf_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
     );  // three-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -827,7 +861,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win-wa") {
     if (params.form == "full" || params.form == "diag") {
@@ -865,7 +899,7 @@ int main(int argc, char* argv[]) {
       trv::compute_3pcf_window(
         catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
       );  // three-point correlation function window wide-angle corrections
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_save_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -873,7 +907,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win_wa
     );
-    std::fclose(save_fileptr);
+    _close_save_file(save_fileptr, save_filepath);
   }
 
   if (params.save_binned_vectors != "") {
@@ -982,3 +1016,20 @@ int main(int argc, char* argv[]) {
 
   return 0;
 }
+
+/**
+ * @brief A 'black-box' program for measuring two- and three-point
+ *        clustering statistics.
+ *
+ * @param argc Number of command-line arguments.
+ * @param argv Command-line arguments.
+ * @returns Exit status.
+ */
+int main(int argc, char* argv[]) {
+  try {
+    return _run(argc, argv);
+  } catch (const std::exception& err) {
+    std::fprintf(stderr, "\nFATAL: %s\n", err.what());
+    return EXIT_FAILURE;
+  }
+}
-- 
2.43.0


From 4edd192f9778eefc7e32b9b5cd919beb4def7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 12/43] fix: load text catalogues exactly or fail

Rows with too few or malformed entries and missing coordinate columns led
to reads outside the row, read errors were taken for the end of the file,
a failure to reopen the file left the particles uninitialised, and a file
that changed after its lines were counted overran or underfilled the
particle data.
---
 src/triumvirate/src/particles.cpp | 76 +++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..3d6a937 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -381,6 +381,37 @@ int ParticleCatalogue::load_catalogue_file(
     }
 #endif  // TRV_USE_H5
   } else {
+    // Check for mandatory columns.
+    int num_cols = *std::max_element(
+      name_indices.begin(), name_indices.end()
+    ) + 1;  // minimum number of columns in each row
+    for (int iname = 0; iname < 3; iname++) {
+      if (name_indices[iname] == -1) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Catalogue '%s' field is unavailable (source=%s).",
+            names_ordered[iname].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Catalogue '%s' field is unavailable (source=%s).",
+          names_ordered[iname].c_str(), this->source.c_str()
+        );
+      }
+    }
+
+    // Define convenience functions for reading lines.
+    auto is_entry = [](const std::string& line) {
+      std::size_t pos_char = line.find_first_not_of(" \t\n\r\v\f");
+      return pos_char != std::string::npos && line[pos_char] != '#';
+    };  // neither empty nor a comment
+    auto throw_read_error = [](const std::string& filepath) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error("Failed to read file: %s", filepath.c_str());
+      }
+      throw trvs::IOError("Failed to read file: %s", filepath.c_str());
+    };
+
     int nentry = 0;
     for (const auto& ctlg_subfilepath : catalogue_subfilepaths) {
       std::ifstream fin;
@@ -407,11 +438,12 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (line_str.empty() || line_str[0] == '#') {continue;}
+        if (!is_entry(line_str)) {continue;}
 
         // Count the line as valid otherwise.
         num_lines++;
       }
+      if (fin.bad()) {throw_read_error(ctlg_subfilepath);}
 
       fin.close();
 
@@ -442,24 +474,50 @@ int ParticleCatalogue::load_catalogue_file(
     for (const auto& ctlg_subfilepath : catalogue_subfilepaths) {
       std::ifstream fin;
       fin.open(ctlg_subfilepath.c_str(), std::ios::in);
+      if (fin.fail()) {throw_read_error(ctlg_subfilepath);}
 
       double nz, ws, wc;  // placeholder variables
-      double entry;       // data entry (per column per row)
       while (std::getline(fin, entry_str)) {
         // Terminate at the end of file.
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (entry_str.empty() || entry_str[0] == '#') {continue;}
+        if (!is_entry(entry_str)) {continue;}
+
+        // Check that the file has not changed since its lines were counted.
+        if (idx_entry >= nentry) {throw_read_error(ctlg_subfilepath);}
 
         // Extract row entries.
         std::vector<double> row;
 
-        std::stringstream ss(
-          entry_str,
-          std::ios_base::out | std::ios_base::in | std::ios_base::binary
-        );
-        while (ss >> entry) {row.push_back(entry);}
+        std::istringstream ss(entry_str);
+        std::string entry;  // data entry (per column per row)
+        while (static_cast<int>(row.size()) < num_cols && ss >> entry) {
+          char* entry_end = nullptr;
+          row.push_back(std::strtod(entry.c_str(), &entry_end));
+          if (*entry_end != '\0') {row.back() = NAN;}
+        }
+
+        // Check that all required entries are present and numerical.
+        for (int col_idx : name_indices) {
+          if (
+            col_idx != -1 && !(
+              col_idx < static_cast<int>(row.size())
+              && std::isfinite(row[col_idx])
+            )
+          ) {
+            if (trvs::currTask == 0) {
+              trvs::logger.error(
+                "Invalid catalogue row in file: %s: '%s'",
+                ctlg_subfilepath.c_str(), entry_str.c_str()
+              );
+            }
+            throw trvs::InvalidDataError(
+              "Invalid catalogue row in file: %s: '%s'",
+              ctlg_subfilepath.c_str(), entry_str.c_str()
+            );
+          }
+        }
 
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
@@ -491,9 +549,11 @@ int ParticleCatalogue::load_catalogue_file(
 
         idx_entry++;
       }
+      if (fin.bad()) {throw_read_error(ctlg_subfilepath);}
 
       fin.close();
     }
+    if (idx_entry != nentry) {throw_read_error(catalogue_filepath);}
   }
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From 104e692d8a2f448ce635b9f7cbe2d06225565b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 13/43] fix: reject catalogue entries containing null
 characters

---
 src/triumvirate/src/particles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 3d6a937..5e29885 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -495,7 +495,7 @@ int ParticleCatalogue::load_catalogue_file(
         while (static_cast<int>(row.size()) < num_cols && ss >> entry) {
           char* entry_end = nullptr;
           row.push_back(std::strtod(entry.c_str(), &entry_end));
-          if (*entry_end != '\0') {row.back() = NAN;}
+          if (entry_end != entry.c_str() + entry.size()) {row.back() = NAN;}
         }
 
         // Check that all required entries are present and numerical.
-- 
2.43.0


From c7e8256c5371ae0834959e2cdcf06d19d157fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 14/43] fix: copy the derived shape parameter of a parameter
 set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 3484c85..4c3496d 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -69,6 +69,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->j_wa = other.j_wa;
   this->form = other.form;
   this->norm_convention = other.norm_convention;
+  this->shape = other.shape;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
   this->bin_max = other.bin_max;
-- 
2.43.0


From 0c8ef470a04c9510b38145502ce446bcec53545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 15/43] fix: print relative paths which load as relative paths
 again

---
 src/triumvirate/src/parameters.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 4c3496d..9f93f21 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1246,8 +1246,9 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   // Define convenience function for removing the directory which
   // is prepended when a relative path is loaded.
   auto remove_dir = [](const std::string& path, const std::string& dir) {
-    return (path.rfind("/", 0) != 0 && path.rfind(dir, 0) == 0)
-      ? path.substr(dir.length()) : path;
+    if (path.rfind("/", 0) == 0 || path.rfind(dir, 0) != 0) {return path;}
+    std::size_t pos = path.find_first_not_of("/", dir.length());
+    return (pos != std::string::npos) ? path.substr(pos) : std::string();
   };
 
   std::vector<std::string> data_files_, rand_files_;
-- 
2.43.0


From 302ea8f24faf0717c10a50b5e0a36d61cbf25865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 16/43] fix: reject mesh grid numbers derived out of range
 instead of recursing without end

---
 src/triumvirate/include/parameters.hpp |  1 +
 src/triumvirate/src/parameters.cpp     | 28 +++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/triumvirate/include/parameters.hpp b/src/triumvirate/include/parameters.hpp
index 6cb4e30..62a3da7 100644
--- a/src/triumvirate/include/parameters.hpp
+++ b/src/triumvirate/include/parameters.hpp
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 9f93f21..76f2071 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1428,23 +1428,37 @@ void set_ngrid_from_cutoff(trv::ParameterSet& params) {
     );
   }
 
+  double nmesh_ = 1.;
   for (int iaxis = 0; iaxis < 3; iaxis++) {
-    int ngrid_;
+    double ngrid_f;
     if (params.space == "fourier") {
-      ngrid_ = static_cast<int>(std::ceil(
-        params.boxsize[iaxis] * params.cutoff_nyq / M_PI
-      ));
+      ngrid_f = std::ceil(params.boxsize[iaxis] * params.cutoff_nyq / M_PI);
     } else
     if (params.space == "config") {
-      ngrid_ = static_cast<int>(std::ceil(
-        2. * params.boxsize[iaxis] / params.cutoff_nyq
-      ));
+      ngrid_f = std::ceil(2. * params.boxsize[iaxis] / params.cutoff_nyq);
     } else {
       throw trvs::InvalidParameterError(
         "Space must be 'fourier' or 'config': `space` = '%s'.",
         params.space.c_str()
       );
     }
+    nmesh_ *= ngrid_f + 1.;
+    if (!(
+      ngrid_f > 0. && ngrid_f < std::numeric_limits<int>::max()
+      && nmesh_ < static_cast<double>(std::numeric_limits<long long>::max())
+    )) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Mesh grid numbers derived from the Nyquist cutoff and box size "
+          "are out of range: `cutoff_nyq` = %lg", params.cutoff_nyq
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "Mesh grid numbers derived from the Nyquist cutoff and box size "
+        "are out of range: `cutoff_nyq` = %lg", params.cutoff_nyq
+      );
+    }
+    int ngrid_ = static_cast<int>(ngrid_f);
     params.ngrid[iaxis] = ngrid_ + (ngrid_ % 2);
   }
 
-- 
2.43.0


From 99f55a88e50d18ed99677af46e31a2f31400c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 17/43] fix: compute extended post-transform sample points from
 the extended pre-transform ones

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 5450cac..da06dc6 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From a05ae38217a422a1734f86f8e0f491cc0a9cdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 18/43] fix: resize the spherical Bessel transform output when
 its size differs

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index da06dc6..3b14538 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From 2ca49fd5586c971302edb9055bded5015710b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 19/43] fix: make a Hankel transform unusable after a failed
 re-initialisation

---
 src/triumvirate/src/fftlog.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3b14538..e136690 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -103,6 +103,10 @@ void HankelTransform::initialise(
   std::vector<double> sample_pts, double kr_c, bool lowring,
   trva::ExtrapOption extrap, double extrap_exp
 ) {
+  // Discard any previous initialisation, so that the transform is not
+  // usable if the initialisation fails part-way.
+  this->reset();
+
   // Initialise pre-sample points.
   if (sample_pts.size() < 2) {
     throw trvs::InvalidParameterError(
@@ -186,8 +190,6 @@ void HankelTransform::initialise(
   // ----<
 
   // Initialise FFT(W) plans.
-  this->reset();
-
   std::vector<int> gpus = trvs::get_gpu_ids();
   if (trvs::is_gpu_enabled()) {
 #ifdef _CUDA_STREAM
@@ -350,7 +352,7 @@ void HankelTransform::biased_transform(
   int N = this->nsamp;
   int N_trans = this->nsamp_trans;
 
-  if (this->kernel.empty() || N <= 2 || N_trans <= 2) {
+  if (!this->plan_init || this->kernel.empty() || N <= 2 || N_trans <= 2) {
     throw std::runtime_error(
       "This instance of trv::maths::HankelTransform has not been "
       "initialised with `initialise`."
-- 
2.43.0


From 60cc8f6659fa23225d423fd13553f4f1bfb0bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 20/43] fix: check the number of samples in the Python Hankel
 transform

---
 src/triumvirate/_fftlog.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..3098b85 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -142,4 +142,10 @@ cdef class HankelTransform:
             Post-transform samples.
 
         """
+        if fx.shape[0] != self._nsamp or gy.shape[0] != self._nsamp:
+            raise ValueError(
+                "The number of samples must be equal to "
+                "the number of sample points."
+            )
+
         self.thisptr.biased_transform(&fx[0], &gy[0])
-- 
2.43.0


From 288d5704474bf424f053aef295ebac2eac6f89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 21/43] fix: account for the released memory of a reloaded
 catalogue

---
 src/triumvirate/src/particles.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 5e29885..3cd161c 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
-  // Renew particle data.
+  // Renew particle data (the memory released is that of the old total).
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0


From 85d128cc333d6f4fc37f3ce9669aa74b216ef9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 22/43] fix: turn C++ exceptions in measurement calls into
 Python exceptions

---
 src/triumvirate/_fftlog.pxd    |  4 +++-
 src/triumvirate/_field.pxd     |  2 +-
 src/triumvirate/_particles.pxd |  2 +-
 src/triumvirate/_threept.pyx   | 12 ++++++------
 src/triumvirate/_twopt.pyx     | 16 ++++++++--------
 5 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/triumvirate/_fftlog.pxd b/src/triumvirate/_fftlog.pxd
index 355e9d2..1467355 100644
--- a/src/triumvirate/_fftlog.pxd
+++ b/src/triumvirate/_fftlog.pxd
@@ -18,7 +18,9 @@ cdef extern from "include/fftlog.hpp":
         vector[double] pre_sampts
         vector[double] post_sampts
 
-        CppHankelTransform(double mu, double q, bool_t threaded)
+        CppHankelTransform(
+            double mu, double q, bool_t threaded
+        ) except +
 
         void initialise(
             vector[double] sample_pts, double kr_c, bool_t lowring,
diff --git a/src/triumvirate/_field.pxd b/src/triumvirate/_field.pxd
index e25f7b9..ccc7311 100644
--- a/src/triumvirate/_field.pxd
+++ b/src/triumvirate/_field.pxd
@@ -10,7 +10,7 @@ from .parameters cimport CppParameterSet
 
 cdef extern from "include/field.hpp":
     cdef cppclass CppFieldStats "trv::FieldStats":
-        CppFieldStats(CppParameterSet& params, bool_t plan_ini)
+        CppFieldStats(CppParameterSet& params, bool_t plan_ini) except +
 
         BinnedVectors record_binned_vectors(
             CppBinning& binning,
diff --git a/src/triumvirate/_particles.pxd b/src/triumvirate/_particles.pxd
index 2a4bb53..adc7a1f 100644
--- a/src/triumvirate/_particles.pxd
+++ b/src/triumvirate/_particles.pxd
@@ -6,7 +6,7 @@ from libcpp.vector cimport vector
 
 cdef extern from "include/particles.hpp":
     cdef cppclass CppParticleCatalogue "trv::ParticleCatalogue":
-        CppParticleCatalogue(int verbose)
+        CppParticleCatalogue(int verbose) except +
 
         int load_particle_data(
             vector[double] x, vector[double] y, vector[double] z,
diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..34cbd65 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..e9522f6 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
-- 
2.43.0


From 0e42c21087b6c11d99ddaf3d1eb9c009e4fd1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 23/43] fix: check the number of lines of sight passed to
 measurement calls

---
 src/triumvirate/catalogue.py | 28 ++++++++++++++++++++++++++++
 src/triumvirate/threept.py   |  6 +++---
 src/triumvirate/twopt.py     |  6 +++---
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..a5bc1ca 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -457,6 +457,34 @@ class ParticleCatalogue:
 
         return self._compute(los)
 
+    def _check_los(self, los):
+        """Check that there is a line of sight for each particle.
+
+        Parameters
+        ----------
+        los : (N, 3) array of float
+            Lines of sight.
+
+        Returns
+        -------
+        los : (N, 3) :class:`numpy.ndarray`
+            Lines of sight as a contiguous array.
+
+        Raises
+        ------
+        ValueError
+            When the shape of `los` does not match the catalogue.
+
+        """
+        los = np.ascontiguousarray(los)
+        if los.shape != (len(self), 3):
+            raise ValueError(
+                "The lines of sight must be an array of shape "
+                f"{(len(self), 3)}: got {los.shape}."
+            )
+
+        return los
+
     def compute_mean_density(self, volume=None, boxsize=None):
         """Compute the mean density over a volume.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..75fc1b2 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -527,8 +527,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
 
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._check_los(los_data)
+    los_rand = catalogue_rand._check_los(los_rand)
 
     if logger:
         try:
@@ -1969,7 +1969,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
     # Set up lines of sight.
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._check_los(los_rand)
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..289ffd8 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -450,8 +450,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
 
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._check_los(los_data)
+    los_rand = catalogue_rand._check_los(los_rand)
 
     if logger:
         try:
@@ -1453,7 +1453,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
     # Set up lines of sight.
     if los_rand is None:
         los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._check_los(los_rand)
 
     if logger:
         try:
-- 
2.43.0


From a7157986a236c755eb5b481dbb8ba6175edde320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 24/43] fix: copy the dictionary a parameter set is created
 from

---
 src/triumvirate/parameters.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..d80af74 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -131,7 +132,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
-- 
2.43.0


From 3bb4391558f753c54b9205b9362f025761cd293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 25/43] fix: leave the parameter set passed to a measurement
 call unmodified

---
 src/triumvirate/fieldmesh.py   |  6 ++++++
 src/triumvirate/parameters.pyx | 18 ++++++++++++++++++
 src/triumvirate/threept.py     |  5 ++++-
 src/triumvirate/twopt.py       |  5 ++++-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/fieldmesh.py b/src/triumvirate/fieldmesh.py
index bc34d2e..9db7ca0 100644
--- a/src/triumvirate/fieldmesh.py
+++ b/src/triumvirate/fieldmesh.py
@@ -11,6 +11,8 @@ Handle fields and mesh grids.
     record_binned_vectors
 
 """  # numpydoc ignore=SS01
+from copy import deepcopy
+
 import numpy as np
 
 from ._field import _record_binned_vectors
@@ -69,6 +71,10 @@ def record_binned_vectors(binning, paramset=None, boxsize=None, ngrid=None):
                 "Either `paramset` or both `boxsize` and `ngrid` "
                 "must be provided."
             )
+    else:
+        # Leave the input parameter set unmodified.
+        paramset = paramset._copy() if isinstance(paramset, ParameterSet) \
+            else deepcopy(paramset)
 
     params_sampling = {}
     if boxsize is not None:
diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index d80af74..b32d6a1 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -263,6 +263,24 @@ cdef class ParameterSet:
         self._parse_params()  # validate
         self._original = False
 
+    def _copy(self):
+        """Return an independent copy of the parameter set.
+
+        Returns
+        -------
+        :class:`~triumvirate.parameters.ParameterSet`
+            Copied parameter set.
+
+        """
+        cdef ParameterSet paramset = ParameterSet(
+            param_dict=self._params, logger=self._logger
+        )
+
+        paramset._source = self._source
+        paramset._original = self._original
+
+        return paramset
+
     def print(self):
         """Print the parameters as a dictionary
         with :func:`pprint.pprint`.
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 75fc1b2..b9fdcfd 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -143,7 +144,9 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the input parameter set unmodified.
+        paramset = paramset._copy() if isinstance(paramset, ParameterSet) \
+            else deepcopy(paramset)
         defaults = None
 
     if params_sampling is not None:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 289ffd8..fbab65e 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -117,7 +118,9 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the input parameter set unmodified.
+        paramset = paramset._copy() if isinstance(paramset, ParameterSet) \
+            else deepcopy(paramset)
         defaults = None
 
     if params_sampling is not None:
-- 
2.43.0


From 97395564cff6221822a93ea2b9745cde18b2d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 26/43] fix: leave the catalogues passed to a measurement call
 unmodified

---
 src/triumvirate/catalogue.py | 15 +++++++++++++++
 src/triumvirate/threept.py   | 10 ++++++++++
 src/triumvirate/twopt.py     | 10 ++++++++++
 3 files changed, 35 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index a5bc1ca..779a5be 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -11,6 +11,7 @@ Handle catalogue I/O and processing.
 
 """  # numpydoc ignore=SS01
 import warnings
+from copy import copy
 
 import numpy as np
 from astropy.table import Table
@@ -434,6 +435,20 @@ class ParticleCatalogue:
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
+    def _copy(self):
+        """Return an independent copy of the catalogue.
+
+        Returns
+        -------
+        :class:`~triumvirate.catalogue.ParticleCatalogue`
+            Copied catalogue.
+
+        """
+        catalogue = copy(self)
+        catalogue._pdata = self._pdata.copy()
+
+        return catalogue
+
     def compute_los(self):
         """Compute the line of sight to each particle.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b9fdcfd..6955c28 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -539,6 +539,10 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the input catalogues unmodified.
+    catalogue_data = catalogue_data._copy()
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1440,6 +1444,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
         except AttributeError:
             logger.info("Binning has been initialised.")
 
+    # Leave the input catalogue unmodified.
+    catalogue_data = catalogue_data._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1980,6 +1987,9 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the input catalogue unmodified.
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index fbab65e..b94f7d4 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -462,6 +462,10 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the input catalogues unmodified.
+    catalogue_data = catalogue_data._copy()
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -996,6 +1000,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
         except AttributeError:
             logger.info("Binning has been initialised.")
 
+    # Leave the input catalogue unmodified.
+    catalogue_data = catalogue_data._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1464,6 +1471,9 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the input catalogue unmodified.
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-- 
2.43.0


From d547da786f75ad2cc5ce10dc0a6ac192950aeeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 27/43] fix: pass box sizes and mesh numbers derived in
 measurement calls on to the backend

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 6955c28..6e09139 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -547,8 +547,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -560,7 +560,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1451,8 +1451,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1464,7 +1464,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index b94f7d4..9d9db1c 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -470,8 +470,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -483,7 +483,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1007,8 +1007,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1020,7 +1020,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 4bcae6b5cf1d14aed207c9851ae5af3f61d0dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 28/43] fix: emit each captured warning once when unique ones
 are requested

---
 src/triumvirate/_mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..0246a65 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -131,7 +131,8 @@ def restore_warnings(captured_warnings, unique=True, show=True,
         seen_warnings = set()
         for record in captured_warnings:
             record_tuple = (
-                record.message, record.category, record.filename, record.lineno
+                str(record.message), record.category,
+                record.filename, record.lineno
             )
             if record_tuple not in seen_warnings:
                 restored_warnings.append(record)
-- 
2.43.0


From 7df9b7daf3f725e1e444f8ba9bcc055027aba650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 29/43] fix: generate window convolution matrices without MPI
 and concatenated ones

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..8c21179 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2850,7 +2850,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2875,7 +2875,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 67f99bde9fbafd7df8579ab3ec3a95c8a0235e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 30/43] fix: gather window convolution matrices when some
 processes have no tasks

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 8c21179..6683056 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -3032,10 +3032,11 @@ class BispecWinConv(WinConvBase):
             multipole: [] for multipole in self._formulae.multipoles
         }
         for key in wc_matrices:
+            # Specify the data type as the list may be empty.
             sendbuf = np.asarray([
                 wc_basis_vectors[key]
                 for wc_basis_vectors in wc_basis_vectors_sublist
-            ])
+            ], dtype=np.complex128)
             sendsizes = sendbuf.size
             recvsizes = self.comm.gather(sendsizes, root=self.comm_root)
             if self.comm.rank == self.comm_root:
-- 
2.43.0


From e4551a061e84adce8df178cd7a682333a290bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 31/43] fix: subselect window function samples without
 modifying the object in place

---
 src/triumvirate/winconv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 6683056..cdeee9d 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1182,7 +1182,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1200,7 +1200,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From 26f9488476a8b8e955287507d3dd10debe003a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 32/43] fix: restore the lists of multipoles and sources of a
 saved window function

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index cdeee9d..8252ac8 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1094,8 +1094,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = win_obj['multipoles'].tolist()
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From 5a69e13c88caa96c57ad0ecdffca489618ae2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 33/43] fix: save parameter sets in a form which can be loaded
 again

---
 src/triumvirate/parameters.pyx | 37 +++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index b32d6a1..416c915 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -304,12 +304,14 @@ cdef class ParameterSet:
                 "parameters_used{}.yml".format(self._params['tags']['output'])
             )
 
+        printout = yaml.safe_dump(
+            _convert_to_builtin(self._params),
+            sort_keys=False,
+            default_flow_style=False  # CAVEAT: discretionary
+        )
+
         with open(filepath, 'w') as printout_file:
-            yaml.dump(
-                self._params, printout_file,
-                sort_keys=False,
-                default_flow_style=False  # CAVEAT: discretionary
-            )
+            printout_file.write(printout)
 
         if self._logger:
             self._logger.info("Saved parameters to %s.", filepath)
@@ -628,6 +630,31 @@ cdef class ParameterSet:
             pass
 
 
+def _convert_to_builtin(val):
+    """Convert a parameter value to built-in types which can be saved
+    to a YAML file and loaded again.
+
+    Parameters
+    ----------
+    val
+        Parameter value.
+
+    Returns
+    -------
+    Parameter value in built-in types.
+
+    """  # numpydoc ignore=PR04,RT03
+    if isinstance(val, dict):
+        return {key_: _convert_to_builtin(val_) for key_, val_ in val.items()}
+    if isinstance(val, (list, tuple)):
+        return [_convert_to_builtin(val_) for val_ in val]
+    if isinstance(val, (np.generic, np.ndarray)):
+        return val.tolist()
+    if isinstance(val, Path):
+        return str(val)
+    return val
+
+
 def fetch_paramset_template(format, ret_defaults=False):
     """Fetch a parameter set template, either as a YAML file
     (with explanatory text) or as a dictionary.
-- 
2.43.0


From 2b60ba14e7b20d98b86e3aff125ee0e829669a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 34/43] fix: keep the whole output tag in the name of saved
 measurements

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 6e09139..8f38374 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -727,14 +727,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1611,14 +1611,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2098,14 +2098,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 9d9db1c..e8dd603 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -652,14 +652,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1166,14 +1166,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1580,14 +1580,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 720dd599c31ae675f654469529545ad932832847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 35/43] fix: leave keyword argument dictionaries passed by the
 caller unmodified

---
 src/triumvirate/catalogue.py | 2 +-
 src/triumvirate/winconv.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 779a5be..d52aebe 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -335,7 +335,7 @@ class ParticleCatalogue:
             if table_kwargs is None:
                 table_kwargs = {}
             if format.startswith('ascii'):
-                table_kwargs.update(names=names)
+                table_kwargs = {**table_kwargs, 'names': names}
 
             self._pdata = Table.read(
                 filepath, format=format, **table_kwargs
diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 8252ac8..df96be7 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1969,7 +1969,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2478,7 +2478,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From 4da83e0ff90e1e77df456499418589aa3866a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 36/43] fix: release the field statistics used to record binned
 vectors in Python

---
 src/triumvirate/_field.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/_field.pyx b/src/triumvirate/_field.pyx
index 8b070ce..cf030f4 100644
--- a/src/triumvirate/_field.pyx
+++ b/src/triumvirate/_field.pyx
@@ -44,9 +44,12 @@ def _record_binned_vectors(Binning binning not None,
     """
     fieldstats_ptr = new CppFieldStats(deref(paramset.thisptr), False)
 
-    binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
-        deref(binning.thisptr), ''.encode('utf-8')
-    )
+    try:
+        binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
+            deref(binning.thisptr), ''.encode('utf-8')
+        )
+    finally:
+        del fieldstats_ptr
 
     binned_vectors = np.empty(
         binned_vectors_struct.count,
-- 
2.43.0


From c1b35c0d6cadf967d0c0f603acb38a030d346e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 37/43] fix: derive mesh numbers from the Nyquist cutoff when a
 parameter set is created

---
 src/triumvirate/parameters.pyx | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 416c915..bb0104f 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -64,6 +64,19 @@ _TMPL_PARAM_DICT = {
     'progbar': False,
 }
 
+# Space in which each statistic is measured.
+_STATISTIC_SPACES = {
+    'powspec': 'fourier',
+    'bispec': 'fourier',
+    'modes': 'fourier',
+    '2pcf': 'config',
+    '2pcf-win': 'config',
+    '3pcf': 'config',
+    '3pcf-win': 'config',
+    '3pcf-win-wa': 'config',
+    'pairs': 'config',
+}
+
 
 class NonParameterError(ValueError):
     """:exc:`ValueError` raised when a program parameter is non-existent.
@@ -500,7 +513,13 @@ cdef class ParameterSet:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
                 if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
+                    # The space has not been derived by validation yet.
+                    self._params['space'] = _STATISTIC_SPACES.get(
+                        str(self._params.get('statistic_type')).lower(),
+                        self._params.get('space', '')
+                    )
+                    if self._params['space'] in {'fourier', 'config'}:
+                        self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
-- 
2.43.0


From 8750f7799c3f8f78b138272466b73a94e6944431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 38/43] fix: return the pivot of spherical Bessel transforms

---
 src/triumvirate/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..43ee5b2 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -177,7 +177,7 @@ class SphericalBesselTransform:
         float
 
         """  # numpydoc ignore=RT03
-        return self._fbht._pivot
+        return self._fbht.pivot
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From 7766f754b3ad25097041aaf8d7c1e5fc9f5e2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 39/43] fix: reject negative multipole degrees instead of
 aborting in GSL

---
 src/triumvirate/src/parameters.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 76f2071..fb7988f 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1121,6 +1121,21 @@ int ParameterSet::validate(bool init) {
     }
   }
 
+  if (this->ell1 < 0 || this->ell2 < 0 || this->ELL < 0) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Multipole degrees must be non-negative: "
+        "`ell1`, `ell2`, `ELL` = %d, %d, %d.",
+        this->ell1, this->ell2, this->ELL
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Multipole degrees must be non-negative: "
+      "`ell1`, `ell2`, `ELL` = %d, %d, %d.",
+      this->ell1, this->ell2, this->ELL
+    );
+  }
+
   if (this->num_bins < 2) {
     if (trvs::currTask == 0) {
       trvs::logger.error("Number of bins `num_bins` must be >= 2.");
-- 
2.43.0


From 98d2e3391e55ba4946515fc6e723686fa34f1e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 40/43] fix: keep the number of samples when a window function
 is made log-linear

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index df96be7..1fab80f 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,7 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if isinstance(make_loglin, bool) else make_loglin
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From b89fe323317dce9369a60f77e0838fc510917032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 41/43] fix: name saved wide-angle window measurements by their
 wide-angle orders

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 8f38374..36af947 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1952,7 +1952,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From 8fdf8d9d8617f3da721268fac3a715cba05cb14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 42/43] fix: leave the samples passed to spherical Bessel
 transforms unmodified

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 43ee5b2..7dab8a4 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = pre_samples * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From 7a185bc9983173ac6906a7313c401a8182311bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 43/43] fix: update the derived mesh when mesh numbers come
 from the Nyquist cutoff

---
 src/triumvirate/parameters.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index bb0104f..4f673a5 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -520,6 +520,15 @@ cdef class ParameterSet:
                     )
                     if self._params['space'] in {'fourier', 'config'}:
                         self._params = _set_ngrid_from_cutoff(self._params)
+                        self._params['nmesh'] = np.prod(list(
+                            self._params['ngrid'].values()
+                        ))
+                        self.thisptr.ngrid = [
+                            self._params['ngrid']['x'],
+                            self._params['ngrid']['y'],
+                            self._params['ngrid']['z'],
+                        ]
+                        self.thisptr.nmesh = self._params['nmesh']
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
-- 
2.43.0

