From e40db7acd9d16ca43181b2ab6c529970cb893524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 01/22] fix: read 0x-prefixed integers of the configuration as
 hexadecimal

INIReader.hpp promises that GetInteger understands hexadecimal integers such as
"0x4d2"; the base-10 conversions returned 0 for them.
---
 vendor/inih/src/INIReader.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..07e757e 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>  // for transform
 #include <cctype>     // for tolower
+#include <cstddef>
 #include <stdexcept>
 #include <limits>
 #include <string>
@@ -14,6 +15,13 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+// Base of an integer literal: 16 if it has a "0x" prefix, 10 otherwise
+static int IntegerBase(const std::string& str)
+{
+    const std::size_t pos = (!str.empty() && (str[0] == '-' || str[0] == '+')) ? 1 : 0;
+    return (str.size() > pos + 1 && str[pos] == '0' && (str[pos + 1] == 'x' || str[pos + 1] == 'X')) ? 16 : 10;
+}
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +47,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +59,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From eeff05660bf76d775dc3321858aff5cf56383d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 02/22] fix: refuse negative values for unsigned integer
 lookups

GetInteger for unsigned types wrapped "-1" to a huge positive number
instead of reporting that it does not fit.
---
 vendor/inih/src/INIReader.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index 07e757e..4a7c977 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -22,6 +22,17 @@ static int IntegerBase(const std::string& str)
     return (str.size() > pos + 1 && str[pos] == '0' && (str[pos + 1] == 'x' || str[pos + 1] == 'X')) ? 16 : 10;
 }
 
+// Refuse a negative literal that std::sto(u)l(l) wrapped to a large unsigned value
+template <class T>
+static T CheckNotWrapped(T value, const std::string& str)
+{
+    if (value != 0 && !str.empty() && str[0] == '-')
+    {
+        throw std::out_of_range("stou");
+    }
+    return value;
+}
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -47,7 +58,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
+    unsigned long result = valstr.empty() ? default_value : CheckNotWrapped(std::stoul(valstr, nullptr, IntegerBase(valstr)), valstr);
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -59,14 +70,14 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
+    return valstr.empty() ? default_value : CheckNotWrapped(std::stoul(valstr, nullptr, IntegerBase(valstr)), valstr);
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
+    return valstr.empty() ? default_value : CheckNotWrapped(std::stoull(valstr, nullptr, IntegerBase(valstr)), valstr);
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
-- 
2.43.0


From 5182a7b790e12c3a14cdc60c74118ddd49cc6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 03/22] fix: apply the boundary priority list in the order it
 is written

The list was inverted as a permutation: bc_order[face] received the rank
of the face while it is used as the sequence of faces, so any list whose
permutation is not its own inverse filled edges and corners from the wrong
face. Lists naming a face twice left another face unset and are refused.
---
 src/boundary_distribute.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..bb1661d 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,27 +45,29 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
+    std::array<int, nfaces> all_faces;
+    std::iota(all_faces.begin(), all_faces.end(), 0);
+    if (counter != nfaces || !std::ranges::is_permutation(bc_order, all_faces)) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
 }
-- 
2.43.0


From 3a384a8efd4916360b073324bca8623bd1a66b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 04/22] fix: name the faces of the shipped priority lists as
 the solver does

X0_right and the like are unknown names, so both inputs stopped at startup
with 'boundary priority not fully defined'.
---
 inputs/gresho_vortex.ini    | 2 +-
 inputs/kelvin_helmholtz.ini | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gresho_vortex.ini b/inputs/gresho_vortex.ini
index 8a4c486..c86621c 100644
--- a/inputs/gresho_vortex.ini
+++ b/inputs/gresho_vortex.ini
@@ -26,7 +26,7 @@ riemann_solver = Low Mach
 
 [Boundary Condition]
 BC = NullGradient
-Priority = X0_right X0_left X1_left X1_right
+Priority = X_right X_left Y_left Y_right
 
 [Perfect Gas]
 gamma = 1.4
diff --git a/inputs/kelvin_helmholtz.ini b/inputs/kelvin_helmholtz.ini
index 8088f6d..352627c 100644
--- a/inputs/kelvin_helmholtz.ini
+++ b/inputs/kelvin_helmholtz.ini
@@ -27,7 +27,7 @@ riemann_solver = HLLC
 
 [Boundary Condition]
 BC = Periodic
-Priority = X0_right X0_left X1_left X1_right
+Priority = X_right X_left Y_left Y_right
 
 [Perfect Gas]
 gamma = 1.4
-- 
2.43.0


From 0191cf7df845e49af08e1bec795d5b75fc5948fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 05/22] fix: stop the run when an internal energy is NaN

The minimum reductions discard NaN operands, so the test of the main loop
for a NaN minimum could not trigger unless every cell was NaN.
---
 src/analysis/internal_energy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..5e01948 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -33,7 +33,10 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
                 }
                 cons.E = E(i, j, k);
 
-                double const cell_evol = compute_evol(cons);
+                double cell_evol = compute_evol(cons);
+                if (Kokkos::isnan(cell_evol)) {
+                    cell_evol = -Kokkos::Experimental::infinity_v<double>; // min would discard a NaN
+                }
 
                 local_evol = Kokkos::min(local_evol, cell_evol);
             },
-- 
2.43.0


From f4c97d6ecc3bb5285ac02993b0c6f13955a639d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 06/22] fix: use the exact area of the phi faces in 3D
 spherical geometry

The area of the annular sector is (r1^2-r0^2)/2 dtheta; r0 dr dtheta is
smaller by dr^2/2 dtheta, and zero for a cell touching the origin.
---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..95a4b81 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); // phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 0acf02e235db78595e41f9b8bdd17fc043801956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 07/22] fix: release the horizontal communicator of the grid

---
 src/mesh/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..aabe259 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -77,6 +77,9 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
 
 Grid::~Grid() noexcept
 {
+    if (comm_cart_horizontal != MPI_COMM_NULL) {
+        MPI_Comm_free(&comm_cart_horizontal);
+    }
     if (comm_cart != MPI_COMM_NULL) {
         MPI_Comm_free(&comm_cart);
     }
-- 
2.43.0


From 76466aff3f79e45bec991e619d54d15a9df6ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 08/22] fix: compare the extents in the assertion of the 1d
 broadcast

The misplaced parenthesis added a boolean to an extent, so the assertion
could not fail.
---
 src/broadcast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadcast.cpp b/src/broadcast.cpp
index 17edbae..046bc18 100644
--- a/src/broadcast.cpp
+++ b/src/broadcast.cpp
@@ -30,7 +30,7 @@ void broadcast(Range const& range, double const in, KV_double_4d const& out)
 void broadcast(Range const& range, KV_cdouble_1d const& in, KV_double_3d const& out)
 {
     assert(range.NgEff == 0);
-    assert(in.extent_int(0) + (2 * range.Nghost[0] == out.extent_int(0)));
+    assert(in.extent_int(0) + (2 * range.Nghost[0]) == out.extent_int(0));
     int const ghost_x = range.Nghost[0];
 
     Kokkos::parallel_for(
-- 
2.43.0


From 97b31523d54094e80ce445d574558aaef3f7e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 09/22] fix: refuse to step backwards when the run starts at or
 after its end time

Restarting from the final output, or an initial time not below t_end, did
one step of zero or negative length instead of reporting an error as the
same situation does for timed outputs.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..d3502ff 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -376,6 +376,9 @@ void main(int argc, char** argv)
 
         if ((t + dt) >= param.t_end) {
             dt = param.t_end - t;
+            if (dt <= 0) {
+                throw std::runtime_error("Error: the time step is negative");
+            }
             make_output = true;
             should_exit = true;
         }
-- 
2.43.0


From 1aa428d38d9bbdda27cd5b0baece63d001c2cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 10/22] fix: offset the scalar of the Rayleigh-Taylor setup by
 its lower value

fx went from 0 to fx0-fx1 instead of from fx1 to fx0, unlike the density.
---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From 1c573fcd6d59135c615df4851cb208b22b6275d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 11/22] fix: inject the 3D Sedov energy in the central cell of
 the global mesh

The central global indices were compared with local indices that include
the ghosts: the energy went to the wrong cell, to none or to several,
depending on the decomposition.
---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..bb4effa 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // Local indices of the central cell, out of the range of the ranks that do not own it
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - grid.range.Corner_min[1] + grid.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - grid.range.Corner_min[2] + grid.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From ae9a7e6438b5594f6a3af7ee3d0b3975e48e643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 12/22] fix: measure the 1D Sedov blast with the first cell of
 the whole mesh

Every rank divided the energies by the volume of its own cell of local index
2, so on a spherical mesh the ambient pressure jumped between ranks, and the
blast missed the first cell unless there were two ghosts.
---
 src/setups/sedov1d/setup.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..bd3e4e2 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -64,7 +66,18 @@ public:
         assert(u.extent_int(3) == ndim);
         assert(fx.extent_int(3) == 0);
 
-        int const mpi_rank = grid.mpi_rank;
+        auto const dv = grid.dv;
+
+        // Volume of the first cell of the domain, owned by rank 0, whatever the decomposition
+        bool const has_first_cell = grid.range.Corner_min[0] == 0;
+        int const i_first = grid.Nghost[0];
+        double dv_beg = 0;
+        Kokkos::parallel_reduce(
+                "Sedov_1D_first_volume",
+                Kokkos::RangePolicy<int>(0, 1),
+                KOKKOS_LAMBDA(int, double& volume) { volume += dv(i_first, 0, 0); },
+                dv_beg);
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, 0, grid.comm_cart);
 
         double alpha = -1;
 
@@ -78,13 +91,11 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +105,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (has_first_cell && i == i_first) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From 5cf4d453f2bf3600233123688e61d1229a34a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 13/22] fix: count each direction once in the pressure fix and
 use the new kinetic energy

The divergences were accumulated over all pairs of directions, mixing the
velocity of one direction with the faces of another (2D and 3D), and the old
kinetic energy was added to the new internal energy, so that the blend did
not give back the conservative update for alpha = 1.
---
 src/hydro/pressure_fix.hpp | 127 +++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 68 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..ba432e7 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -67,7 +67,6 @@ void pressure_fix(
                 double const de_god = evol_new - evol;
 
                 if (evol < eps * ekin) {
-                    E_new(i, j, k) = E(i, j, k);
                     double divU = 0;
                     double divUE = 0;
                     double einL = 0;
@@ -82,91 +81,83 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
-
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
-
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            //--------------------------------------------//
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        //--------------------------------------------//
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
+                    }
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                    double const de_pf = dt * ((-prim.P * divU) - divUE);
+                    double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
-                        }
-                    }
+                    E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                 }
             });
 }
-- 
2.43.0


From 44d8578a51c2972b041d70fce890b5e8da5f485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 14/22] fix: write the output times of the index file with all
 their digits

With six significant digits, close outputs had equal times in the index.
---
 src/io/io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 44272f1..5ec8cd8 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <ostream>
 #include <sstream>
 #include <stdexcept>
@@ -460,6 +461,8 @@ void XmlWriter::operator()(
 
     std::ofstream xdmfFile(m_directory + '/' + m_prefix + ".xmf", std::ofstream::trunc);
 
+    xdmfFile << std::setprecision(std::numeric_limits<double>::max_digits10);
+
     xdmfFile << indent << "<?xml version=\"1.0\"?>\n";
     xdmfFile << indent << "<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" []>\n";
     xdmfFile << indent << "<Xdmf Version=\"2.0\">\n";
-- 
2.43.0


From 8580ff8887c70f5d00500ede288611ca7de6defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 15/22] fix: refuse fewer ghost cells than the scheme reads

The slopes of the first ghost cell read the second one, so Nghost = 1 read
outside of the arrays.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d3502ff..fed6233 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -137,6 +137,9 @@ void main(int argc, char** argv)
 
     Param const param(reader);
     ParamSetup const param_setup(reader);
+    if (param.Ng < 2) {
+        throw std::runtime_error("The numerical scheme needs at least 2 ghost cells");
+    }
     Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
 
     if (grid.mpi_rank == 0) {
-- 
2.43.0


From 0c857d80e519a60bd812297c1b81719d5edcba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 16/22] fix: start the temperature iteration of the radiative
 gas at the smaller bound

The larger bound can be so far from the solution that the iteration ends
before converging, which returned wrong temperatures when the radiation
pressure exceeds the gas pressure by many orders of magnitude.
---
 src/thermodynamics/rad_gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamics/rad_gas.hpp b/src/thermodynamics/rad_gas.hpp
index 3e27619..cfb2d13 100644
--- a/src/thermodynamics/rad_gas.hpp
+++ b/src/thermodynamics/rad_gas.hpp
@@ -77,7 +77,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp);
         double const Tg = P / C1;
         double const Tr = Kokkos::pow(3 * P / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // both bound the root from above
         double T = T0;
         int itr = 0;
         double delta_T = 0;
@@ -107,7 +107,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);
         double const Tg = evol / C1;
         double const Tr = Kokkos::pow(evol / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // both bound the root from above
         double T = T0;
         int itr = 0;
         double delta_T = 0;
-- 
2.43.0


From 4aaf80ed5adca1dd43089ab2371557154cf09141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 17/22] fix: weight of the centrifugal term along theta in 3D
 spherical geometry

The difference of the theta face areas divided by the cell volume already is
cot(theta) / r, the extra factor cot(theta) / 2 made a straight uniform motion
turn.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 6 +++---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..e1da0c3 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,10 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    // The difference of the theta face areas over the volume already is cot(th) / r
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 17e941b4edce7e0c2b73cad13fde780d897237e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 18/22] fix: refuse nickel heating without a passive scalar

The heating kernel reads the first scalar, which lies outside of the array
when the run has none.
---
 src/user_step/user_step.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/user_step/user_step.cpp b/src/user_step/user_step.cpp
index a2ce640..d3cb06a 100644
--- a/src/user_step/user_step.cpp
+++ b/src/user_step/user_step.cpp
@@ -6,6 +6,7 @@
 //! @file user_step.cpp
 //!
 
+#include <stdexcept>
 #include <string>
 
 #include <Kokkos_Core.hpp>
@@ -47,6 +48,10 @@ void HeatNickelStep::execute(
         KV_double_3d const& E,
         KV_double_4d const& fx) const
 {
+    if (fx.extent(3) == 0) {
+        throw std::runtime_error("Heat_nickel requires at least one passive scalar");
+    }
+
     double const tau_ni56 = 8.8 * units::day; // s
     double const tau_co56 = 111.3 * units::day;
     double const m_ni56 = 55.9421278 * units::atomic_mass_unit; // kg
-- 
2.43.0


From 7dd01967bf72980577a59c97415a927911f6c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 19/22] fix: refuse a restart file with another number of cells

---
 src/io/io.cpp | 10 +++++++++-
 src/io/io.hpp |  1 +
 src/main.cpp  |  1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 5ec8cd8..5257ddc 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -326,6 +326,7 @@ void write_pdi(
 
 void read_pdi(
         std::string const& restart_file,
+        Grid const& grid,
         int& output_id,
         int& iter_output_id,
         int& time_output_id,
@@ -342,7 +343,14 @@ void read_pdi(
     assert(span_is_contiguous(rho, u, P, fx));
 
     RaiiH5Hid const file_id(::H5Fopen(restart_file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
-    // check_extent_dset(file_id, "/rho", std::array {rho.extent(2), rho.extent(1), rho.extent(0)});
+    // the extents of the nodes alone cannot tell cells from ghosts
+    check_extent_dset(
+            file_id,
+            "/rho",
+            std::array {
+                    int_cast<std::size_t>(grid.Nx_glob_ng[2]),
+                    int_cast<std::size_t>(grid.Nx_glob_ng[1]),
+                    int_cast<std::size_t>(grid.Nx_glob_ng[0])});
     // check_extent_dset(file_id, "/u_x0", std::array {u.extent(2), u.extent(1), u.extent(0)});
     // if (ndim > 1)
     // {
diff --git a/src/io/io.hpp b/src/io/io.hpp
index 93e2161..9e992af 100644
--- a/src/io/io.hpp
+++ b/src/io/io.hpp
@@ -47,6 +47,7 @@ void write_pdi(
 
 void read_pdi(
         std::string const& restart_file,
+        Grid const& grid,
         int& output_id,
         int& iter_output_id,
         int& time_output_id,
diff --git a/src/main.cpp b/src/main.cpp
index fed6233..7dccba2 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -227,6 +227,7 @@ void main(int argc, char** argv)
     {
         read_pdi(
                 param.restart_file,
+                grid,
                 output_id,
                 iter_output_id,
                 time_output_id,
-- 
2.43.0


From 2803173a7107dc8631f82a4697925b0dfcc58502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 20/22] fix: name the nodes of the shipped 1D profile x0 as the
 v1d setup reads them

The dataset was still called x, so both shipped v1d inputs stopped at startup
with 'creating h5 id failed'.
---
 src/setups/v1d/v1d_1d_start.h5 | Bin 78160 -> 78160 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/src/setups/v1d/v1d_1d_start.h5 b/src/setups/v1d/v1d_1d_start.h5
index 54d7e592c1b13dab7bd100fd6edc9c9e6f07fe03..4b262f8cc2c26e017c5fb93cf3de115f60cf7a7f 100644
GIT binary patch
delta 46
ucmccch~>f~mJK_Y7!x+{WSX8KSYf~b28<AjAz*W2HoFpI#OBQ2=ZgVjMh)Wt

delta 42
ucmccch~>f~mJK_Y7$Y|CWSXAA$;bc!5tA=6C2ro8y-tzQVsmEi^ThyE^bgqp

-- 
2.43.0


From 7d39f8f02f9ea61110e80ae3f96e8c878f0abfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 21/22] fix: no passive scalar in the shipped 1D spherical
 shock tube

The setup does not fill any and asserts that there is none, so the run aborted.
---
 inputs/shock_tube1d_sph.ini | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/inputs/shock_tube1d_sph.ini b/inputs/shock_tube1d_sph.ini
index 92643b5..5f93917 100644
--- a/inputs/shock_tube1d_sph.ini
+++ b/inputs/shock_tube1d_sph.ini
@@ -14,9 +14,6 @@ x0max = 2
 [Perfect Gas]
 gamma = 1.4
 
-[Passive Scalar]
-nfx = 1
-
 [Run]
 timeout = 0.2
 cfl = 0.4
-- 
2.43.0


From 5683bbb67c29372c82eea3f6b4f3d77a16efa7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 22/22] fix: count only the iterations of this run in the mean
 performance

After a restart the iterations made before it were divided by the duration of
this run alone.
---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 7dccba2..d63373f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -354,6 +354,8 @@ void main(int argc, char** argv)
     std::chrono::steady_clock::time_point const start = std::chrono::steady_clock::now();
     Kokkos::Profiling::pushRegion("HERACLES++: main time loop");
 
+    int const first_iter = iter;
+
     // Main timestep loop
     while (!should_exit) {
         double dt = param.cfl * time_step(grid.range.all_ghosts(), eos, grid, rho(device, read_only), u(device, read_only), P(device, read_only));
@@ -579,7 +581,7 @@ void main(int argc, char** argv)
         double const ny_glob_ng = grid.Nx_glob_ng[1];
         double const nz_glob_ng = grid.Nx_glob_ng[2];
         double const nb_cells = nx_glob_ng * ny_glob_ng * nz_glob_ng;
-        double const nb_iter = iter;
+        double const nb_iter = iter - first_iter;
         double const duration = std::chrono::duration<double>(end - start).count();
         double const nb_cell_updates_per_sec = nb_iter * nb_cells / duration;
         double const mega = 1E-6;
-- 
2.43.0

