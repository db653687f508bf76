From 3155183ecc9cc09bd8fad64f980c04a88549e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:28 +0000
Subject: [PATCH 01/24] Add guarded run-time monitoring hooks (MATTER_MONITOR)

---
 src/simulation/simulation.cpp | 15 +++++++++++++++
 src/simulation/simulation.hpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..de861fe 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -213,6 +213,11 @@ void Simulation::simulate(){
 void Simulation::advanceStep(){
     updateDt();
 
+#ifdef MATTER_MONITOR
+    if (monitor)
+        monitor(MonitorStage::StepBegin);
+#endif
+
     if (pbc){
         if (current_time_step == 0)
             remeshFixed(4);
@@ -244,6 +249,11 @@ void Simulation::advanceStep(){
 
     // addExternalParticleGravity();
 
+#ifdef MATTER_MONITOR
+    if (monitor)
+        monitor(MonitorStage::GridDone);
+#endif
+
     if (pbc){
         PBCDelParticles();
     }
@@ -265,6 +275,11 @@ void Simulation::advanceStep(){
 
     moveObjects();
 
+#ifdef MATTER_MONITOR
+    if (monitor)
+        monitor(MonitorStage::StepEnd);
+#endif
+
 } // end advanceStep
 
 
diff --git a/src/simulation/simulation.hpp b/src/simulation/simulation.hpp
index bdbd093..a77d57e 100644
--- a/src/simulation/simulation.hpp
+++ b/src/simulation/simulation.hpp
@@ -20,6 +20,10 @@
 #include "../objects/object_general.hpp"
 #include "../objects/object_plate.hpp"
 
+#ifdef MATTER_MONITOR
+#include <functional>
+#endif
+
 class Simulation{
 public:
   Simulation();
@@ -150,6 +154,17 @@ public:
   TM NeoHookeanPiola(TM & Fe);
   TM HenckyPiola(TM & Fe);
 
+#ifdef MATTER_MONITOR
+  // Run-time monitoring: called at fixed points of a time step, see advanceStep()
+  enum class MonitorStage { StepBegin, GridDone, StepEnd };
+  std::function<void(MonitorStage)> monitor;
+  T monitorDt() const { return dt; }
+  T monitorTime() const { return time; }
+  unsigned int monitorFrame() const { return frame; }
+  unsigned int monitorStep() const { return current_time_step; }
+  const Grid& monitorGrid() const { return grid; }
+#endif
+
 private:
 
   unsigned int current_time_step = 0;
-- 
2.43.0


From 8cb8ad5b13fca404d1a98a0b5761e685a92ff496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:02 +0000
Subject: [PATCH 02/24] fix: 3D plate friction scales both tangential
 components

The second tangential component was computed from the already reduced
first one (and 0/0 if a component was zero), so Coulomb friction on a 3D
plate removed the wrong amount of sliding velocity and rotated its direction.
---
 src/simulation/boundary_collision.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..55ebfa5 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +136,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +158,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +189,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +210,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +231,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From 9bd79593ad84811514ddc4d6e5b2dc5aae86af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:02 +0000
Subject: [PATCH 03/24] fix: include periodic images in the MUSL velocity
 projection

With pbc and use_musl the re-projected grid velocity near the periodic
boundary was divided by a mass that includes the periodic images while
the momentum did not, giving wrong velocity gradients there.
---
 src/simulation/musl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..9e82b3a 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -27,6 +27,10 @@ void Simulation::MUSL(){
 
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
+    // grid.mass includes the periodic images, so the projected momentum must too
+    if (pbc)
+        PBCAddParticles(4);
+
     #pragma omp parallel num_threads(n_threads)
     {
         std::vector<TV> grid_v_local(grid_nodes, TV::Zero() );
@@ -87,6 +91,8 @@ void Simulation::MUSL(){
 
     } // end omp parallel
 
+    if (pbc)
+        PBCDelParticles();
 
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
-- 
2.43.0


From 317c148a586e8276284804076cc0a8957120231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 04/24] fix: data race on the plastic particle count in G2P

---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..2bca78a 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -19,7 +19,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for nowait reduction(+:plastic_count)
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From 687163b2266ee5599e7f838b541f0d1082038642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 05/24] fix: data race and use-after-free when adding periodic
 images

Threads read the particle arrays while another thread appended to (and
possibly reallocated) them inside the critical section.
---
 src/simulation/pbc.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..51a3c19 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -40,7 +40,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
+    // Serial: appending may reallocate the arrays that are being read
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -49,14 +49,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff > 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -64,14 +61,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From 7161d4211ec165fb40c02c33f9088711a7824ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 06/24] fix: periodic images carry muI

With pbc and use_mibf, P2G read muI of the periodic images past the end
of the array.
---
 src/simulation/pbc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 51a3c19..2450bcb 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -54,6 +54,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -66,6 +67,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -91,6 +93,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From 0bdab1cebb28f9f6bec51510b33ce4dbfb5ace06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 07/24] fix: a particle exactly at x = Lx has a periodic image

---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 2450bcb..b82641a 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -47,7 +47,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             particles.x.push_back(part_x);
             particles.v.push_back(particles.v[p]);
-- 
2.43.0


From 0dbe88a458e0968680f3614fa02b64f6f5dca96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 08/24] fix: grid covers particles that moved a whole number of
 cells

When the outermost particle was displaced by n*dx beyond its initial
position the expansion was rounded down to n-1, and the particle's stencil
reached outside the grid (out-of-bounds access, or a skipped stencil and
hence zero velocity on the low side).
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..026c8f3 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(max_x-max_x_init)/dx) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(min_x_init-min_x)/dx) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(max_y-max_y_init)/dx) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(min_y_init-min_y)/dx) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(max_z-max_z_init)/dx) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::ceil( std::max(0.0,(min_z_init-min_z)/dx) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From bbd7c32891b826c13b463a9f31594036d51f33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 09/24] fix: uninitialised z-component of the ground normal in
 3D

---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..97d3c76 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero();
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From 9b296e8e1be82845f0f1cb2b9093915389eb79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 10/24] fix: uninitialised preconsolidation pressure and
 return-mapping flag

MCC with no hardening and use_mibf read an uninitialised p_c, and an
invalid hardening law an uninitialised flag.
---
 src/simulation/plasticity.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..7fc5d62 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -467,8 +467,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_trial = q_stress;
 
             //////////////////////////////////////////////////////////////////////
-            bool perform_rma;
-            T p_c;
+            bool perform_rma = false;
+            T p_c = p0;
             if (hardening_law == HardeningLaw::ExpoExpl){ // Exponential Explicit Hardening
                 p_c = std::max(stress_tolerance, p0 * std::exp(-xi*particles.eps_pl_vol[p]));
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, mu_1, p_c, beta, mu, K, f_mu_prefac);
@@ -551,8 +551,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (use_mibf)
                 particles.muI[p] = M;
             
-            bool perform_rma;
-            T p_c;
+            bool perform_rma = false;
+            T p_c = p0;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
-- 
2.43.0


From 47f26d93d418961414b9606a20319b916c90a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 11/24] fix: implicit MCC return mapping respects q_prefac

The implicit return mappings used mu where q_trial - q is f_mu_prefac
times the plastic multiplier; these agree only for the default q_prefac.
---
 src/simulation/plasticity.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 7fc5d62..2dc112e 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -480,11 +480,11 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, mu_1, p_c, beta, mu, K);
             }
             else if (hardening_law == HardeningLaw::ExpoImpl){ // Exponential Implicit Hardening
-                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, mu_1, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma =       MCCRMAImplicitExponential(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, f_mu_prefac, particles.eps_pl_vol[p]);
             }
             else if (hardening_law == HardeningLaw::SinhImpl) {
-                   perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, mu_1, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, mu_1, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma = <no alternative at the moment>
             }
             else{
@@ -568,11 +568,11 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p_c, beta, mu, K);
             }
             else if (hardening_law == HardeningLaw::ExpoImpl){ // Exponential Implicit Hardening
-                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                   perform_rma = MCCRMAImplicitExponentialOnevar(p_stress, q_stress, exit, M, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
                 // perform_rma =       MCCRMAImplicitExponential(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, f_mu_prefac, particles.eps_pl_vol[p]);
             }
             else if (hardening_law == HardeningLaw::SinhImpl) {
-                perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K, xi, particles.eps_pl_vol[p]);
+                perform_rma = MCCRMAImplicitSinhOnevar(p_stress, q_stress, exit, M, p0, beta, f_mu_prefac, K, xi, particles.eps_pl_vol[p]);
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
-- 
2.43.0


From 16d15c920ebd26ad84b3754e34828ac2e4419803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 12/24] fix: particles that are elastic in a USL step report
 zero plastic shear rate

delta_gamma kept the value of the last plastic step; the MUSL branch
already resets it.
---
 src/simulation/g2p.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 2bca78a..5174587 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -15,6 +15,8 @@ void Simulation::G2P(){
     std::fill( particles.pic.begin(),  particles.pic.end(),  TV::Zero() );
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
+    if (!use_musl)
+        std::fill( particles.delta_gamma.begin(), particles.delta_gamma.end(), 0.0 );
 
     #pragma omp parallel num_threads(n_threads)
     {
-- 
2.43.0


From 6750e3f1bd6a9e2ba6f2a3a74af428785fbcdc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 13/24] fix: NaN friction at empty grid nodes

---
 src/simulation/p2g.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/p2g.cpp b/src/simulation/p2g.cpp
index c06ff3f..1d724d2 100644
--- a/src/simulation/p2g.cpp
+++ b/src/simulation/p2g.cpp
@@ -126,7 +126,7 @@ void Simulation::P2G(){
         else
             grid.v[l].setZero();
         //grid.v[l] = (mi > 0) ? grid.v[l]/mi : TV::Zero(); // condition ? result_if_true : result_if_false
-        if (use_mibf)
+        if (use_mibf && mi > 0)
             grid.friction[l] /= mi;
     }
 
-- 
2.43.0


From f03a7b46e4ffa203f54e2d5ae9048e0676e207ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:38 +0000
Subject: [PATCH 14/24] fix: capped Von Mises returns a stress consistent with
 its deformation gradient

Beyond the tensile cap F is set to a pure rotation, but the stress was
still computed from the trial Hencky strain.
---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 2dc112e..4c40c3d 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky = TV::Zero(); // the stress below must be that of the returned F
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From 5a35256e49e65b4ff7cb8c6e6e7f6f914ef6f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:38 +0000
Subject: [PATCH 15/24] fix: DPMui reports the plastic shear rate, not the
 increment, at the tip

---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 4c40c3d..ecbfd5b 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -417,7 +417,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 plastic_count++;
                 hencky = -p_tip/(K*dim) * TV::Ones();
                 particles.F[p] = svd.matrixU() * hencky.array().exp().matrix().asDiagonal() * svd.matrixV().transpose();
-                particles.delta_gamma[p]          = delta_gamma;               // NB!
+                particles.delta_gamma[p]          = delta_gamma / dt;
                 particles.eps_pl_dev[p]          += (1.0/d_prefac) * delta_gamma;
                 particles.eps_pl_vol[p]          += eps_pl_vol_inst;
                 particles.eps_pl_vol_pradhana[p] += eps_pl_vol_inst; // can be negative!
-- 
2.43.0


From c4fbe2529c7917f98278bdead43dffe68e59205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 16/24] fix: plates treat negative material-induced friction as
 frictionless

A negative muI (tensile DPVisc states) accelerated the tangential motion
at plates; objects already ignore non-positive friction.
---
 src/simulation/boundary_collision.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 55ebfa5..dfb9336 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -106,7 +106,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vy_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -128,7 +128,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vy_rel*vy_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vx_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -150,7 +150,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vy_rel*vy_rel);
                     T fric_vel_n = friction * std::abs(vz_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -181,7 +181,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vy_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -202,7 +202,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vy_rel*vy_rel + vz_rel*vz_rel);
                     T fric_vel_n = friction * std::abs(vx_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -223,7 +223,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                     T vel_t      = std::sqrt(vx_rel*vx_rel + vy_rel*vy_rel);
                     T fric_vel_n = friction * std::abs(vz_rel);
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( vel_t <= fric_vel_n ){
@@ -283,7 +283,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
                 if (obj->plate_type == PlateType::top || obj->plate_type == PlateType::bottom){
                     // tangential velocity is the (x) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vx_rel) < friction * std::abs(vy_rel) ){
@@ -303,7 +303,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                 else if (obj->plate_type == PlateType::left || obj->plate_type == PlateType::right){
                     // tangential velocity is the (y) component and must be changed
 
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vy_rel) < friction * std::abs(vx_rel) ){
@@ -333,7 +333,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
                 if ((obj->plate_type == PlateType::top && vy_rel > 0) || (obj->plate_type == PlateType::bottom && vy_rel < 0)){
                     // tangential velocity is the (x) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vx_rel) < friction * std::abs(vy_rel) ){
@@ -352,7 +352,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                 } // end PlateType::top and PlateType::bottom plate
                 else if ((obj->plate_type == PlateType::left && vx_rel < 0) || (obj->plate_type == PlateType::right && vx_rel > 0)){
                     // tangential velocity is the (y) component and must be changed
-                    if (friction == 0){
+                    if (friction <= 0){
                         // Do nothing
                     }
                     else if ( std::abs(vy_rel) < friction * std::abs(vx_rel) ){
-- 
2.43.0


From c06f5a61937d53335ffe84661b3316b92fac20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:15 +0000
Subject: [PATCH 17/24] fix: implicit MCC return mappings no longer return NaN
 for a nearly vanished yield surface

The early exit near the centre of the ellipse took the square root of a
negative number when the softened ellipse was smaller than its tolerance.
---
 src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..43f8fcb 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,6 +68,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // p may lie outside a nearly vanished surface
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
             
             // rescale values
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..7654cf9 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,6 +63,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // p may lie outside a nearly vanished surface
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
 
             // rescale values
-- 
2.43.0


From 5427622fbfa4918bb66a58a34611afc90c3d1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 18/24] fix: DPMui rate-dependent stress uses the pressure
 above the tip

With cohesion (or a volume correction) the mu(I) contribution was taken
proportional to the trial pressure, which is negative in tension: the
shear stress fell below the static yield stress and could even reverse.
The viscosity and the inertial number already use p_special.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index ecbfd5b..7cad72c 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -437,7 +437,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T p_special = p_trial+p_shift - p_tip + stress_tolerance; // p_special is positive.
 
                 T fac_a = f_mu_prefac * dt; // always positive
-                T fac_b = p_trial*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
+                T fac_b = p_special*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-- 
2.43.0


From 779cbcb92394607d94818a00a19949b2094c30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:37 +0000
Subject: [PATCH 19/24] fix: slowed-down plates act on the material with the
 velocity they move with

During the loading period the contact used the unscaled velocity in the
first step, and the velocity of the previous step ever after.
---
 src/objects/object_plate.hpp  | 8 +++++++-
 src/simulation/simulation.cpp | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/objects/object_plate.hpp b/src/objects/object_plate.hpp
index a01b414..098edcd 100644
--- a/src/objects/object_plate.hpp
+++ b/src/objects/object_plate.hpp
@@ -133,7 +133,7 @@ public:
 #endif
 
 
-  void move(T dt, T frame_dt, T time){
+  void updateVelocity(T frame_dt, T time){
 
       T factor = (time < load_factor * frame_dt) ? (1.0 / vmin_factor) : 1.0;
       vx_object = vx_object_original * factor;
@@ -142,6 +142,12 @@ public:
       vz_object = vz_object_original * factor;
     #endif
 
+  } // end updateVelocity(frame_dt, time)
+
+  void move(T dt, T frame_dt, T time){
+
+      updateVelocity(frame_dt, time);
+
       if (plate_type == PlateType::left || plate_type == PlateType::right){
           pos_object += dt * vx_object;
           pos_upper  += dt * vy_object;
diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index de861fe..669d3d8 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -213,6 +213,10 @@ void Simulation::simulate(){
 void Simulation::advanceStep(){
     updateDt();
 
+    // the material must see the velocity the plates move with in this step
+    for (auto& obj : plates)
+        obj->updateVelocity(frame_dt, time);
+
 #ifdef MATTER_MONITOR
     if (monitor)
         monitor(MonitorStage::StepBegin);
-- 
2.43.0


From 060f9995164d6a3b4b8e6c61acc7b54a6a3b3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 20/24] fix: regular sampling no longer loses a layer of
 particles to rounding

---
 src/sampling/regular_sampling_particles.hpp     | 12 +++++++-----
 src/sampling/regular_sampling_particles_vdb.hpp | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/sampling/regular_sampling_particles.hpp b/src/sampling/regular_sampling_particles.hpp
index 1266692..834e90b 100644
--- a/src/sampling/regular_sampling_particles.hpp
+++ b/src/sampling/regular_sampling_particles.hpp
@@ -27,9 +27,10 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
-    const int nz = int(Lz / pSpacing);
+    // small tolerance: do not lose a layer to rounding when the side is a whole number of spacings
+    const int nx = int(Lx / pSpacing + T(1e-9));
+    const int ny = int(Ly / pSpacing + T(1e-9));
+    const int nz = int(Lz / pSpacing + T(1e-9));
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
@@ -92,8 +93,9 @@ void regularSampleParticles(S& sim, T ppc = 4, unsigned int crop_to_shape = 0)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(Lx / pSpacing);
-    const int ny = int(Ly / pSpacing);
+    // small tolerance: do not lose a layer to rounding when the side is a whole number of spacings
+    const int nx = int(Lx / pSpacing + T(1e-9));
+    const int ny = int(Ly / pSpacing + T(1e-9));
 
     std::vector<TV> square_samples;
     std::vector<TV> samples;
diff --git a/src/sampling/regular_sampling_particles_vdb.hpp b/src/sampling/regular_sampling_particles_vdb.hpp
index 53182df..1019d1d 100644
--- a/src/sampling/regular_sampling_particles_vdb.hpp
+++ b/src/sampling/regular_sampling_particles_vdb.hpp
@@ -27,9 +27,10 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::cbrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
-    const int nz = int(L(2) / pSpacing);
+    // small tolerance: do not lose a layer to rounding when the side is a whole number of spacings
+    const int nx = int(L(0) / pSpacing + T(1e-9));
+    const int ny = int(L(1) / pSpacing + T(1e-9));
+    const int nz = int(L(2) / pSpacing + T(1e-9));
 
     std::vector<TV> samples;
 
@@ -61,8 +62,9 @@ void regularSampleParticlesFromVdb(S& sim, ObjectVdb& obj, T ppc = 4)
 
     const T pSpacing = sim.dx / std::sqrt(ppc);
 
-    const int nx = int(L(0) / pSpacing);
-    const int ny = int(L(1) / pSpacing);
+    // small tolerance: do not lose a layer to rounding when the side is a whole number of spacings
+    const int nx = int(L(0) / pSpacing + T(1e-9));
+    const int ny = int(L(1) / pSpacing + T(1e-9));
 
     std::vector<TV> samples;
 
-- 
2.43.0


From 44c4db2313ff84d8ece251a23ecad9d9dc85440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 21/24] fix: failure flag is set atomically by concurrent
 threads

---
 src/plasticity_helpers/mcc_rma_explicit_onevar.hpp       | 1 +
 .../mcc_rma_implicit_exponential_onevar.hpp              | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp  | 2 ++
 src/simulation/boundary_collision.cpp                    | 3 +++
 src/simulation/plasticity.cpp                            | 9 +++++++++
 5 files changed, 16 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_explicit_onevar.hpp b/src/plasticity_helpers/mcc_rma_explicit_onevar.hpp
index 7133e3f..ec48342 100644
--- a/src/plasticity_helpers/mcc_rma_explicit_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_explicit_onevar.hpp
@@ -57,6 +57,7 @@ bool MCCRMAExplicitOnevar(T& p, T& q, int& exit, T M, T p0, T beta, T mu, T K)
             debug(iter, ":  qt   = ", qt);
             debug(iter, ":  p    = ", p);
             debug(iter, ":  q    = ", q);
+            #pragma omp atomic write // set by several threads
             exit = 1;
             break;
         }
diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 43f8fcb..8dce04d 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -146,6 +146,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
             debug("q    = ", q);
             debug("p0_t = ", p0_t);
             debug("scale factor = ", scale_factor); 
+            #pragma omp atomic write // set by several threads
             exit = 1;
             break;
         }
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 7654cf9..1194bbf 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -109,6 +109,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
                 debug("q    = ", q);
                 debug("p0_t = ", p0_t);
                 debug("scale factor = ", scale_factor); 
+                #pragma omp atomic write // set by several threads
                 exit = 1;
             }
         }
@@ -151,6 +152,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
             debug(iter, ":  q    = ", q);
             debug(iter, ":  K    = ", K);
             debug(iter, ":  mu    = ", mu);
+            #pragma omp atomic write // set by several threads
             exit = 1;
             break;
         }
diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index dfb9336..0f385c8 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -65,6 +65,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write // set by several threads
                 exit = 1;
                 return;
             }
@@ -245,6 +246,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write // set by several threads
                 exit = 1;
                 return;
             }
@@ -375,6 +377,7 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
 
             else {
                 debug("INVALID BOUNDARY CONDITION!!!");
+                #pragma omp atomic write // set by several threads
                 exit = 1;
                 return;
             }
diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 7cad72c..60cf2e3 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -209,6 +209,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     if (delta_gamma < 0){
                         debug("VMVisc: FATAL negative delta_gamma = ", delta_gamma);
+                        #pragma omp atomic write // set by several threads
                         exit = 1;
                     }
                 }
@@ -221,6 +222,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     for (int iter = 0; iter < max_iter; iter++) {
                         if (iter == max_iter - 1){ // did not break loop
                             debug("VMVisc: FATAL did not exit loop at iter = ", iter);
+                            #pragma omp atomic write // set by several threads
                             exit = 1;
                         }
 
@@ -326,6 +328,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     if (delta_gamma < 0){
                         debug("DPVisc: FATAL negative delta_gamma = ", delta_gamma);
+                        #pragma omp atomic write // set by several threads
                         exit = 1;
                     }
                 }
@@ -337,6 +340,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     for (int iter = 0; iter < max_iter; iter++) {
                         if (iter == max_iter - 1){ // did not break loop
                             debug("DPVisc: FATAL did not exit loop at iter = ", iter);
+                            #pragma omp atomic write // set by several threads
                             exit = 1;
                         }
 
@@ -490,6 +494,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
+                #pragma omp atomic write // set by several threads
                 exit = 1;
             }
             //////////////////////////////////////////////////////////////////////
@@ -577,6 +582,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             }
             else{
                 debug("You specified an invalid HARDENING LAW!");
+                #pragma omp atomic write // set by several threads
                 exit = 1;
             }
 
@@ -591,6 +597,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                         b = 1.0 / (1.0 + visc_time / dt); // b defined such that "stress = (1-b) * strain_trial + b * stress_yield"
                         if (visc_exponent != 1){
                             debug("MCCVisc: FATAL viscous exponent must be 1 when use_duvaut_lions_formulation = true");
+                            #pragma omp atomic write // set by several threads
                             exit = 1;
                         }
                     }
@@ -606,6 +613,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                                 }
                                 else{
                                     debug("MCCVisc: FATAL negative delta_gamma = ", delta_gamma);
+                                    #pragma omp atomic write // set by several threads
                                     exit = 1;
                                 }
                             }
@@ -618,6 +626,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                             for (int iter = 0; iter < max_iter; iter++) {
                                 if (iter == max_iter - 1){ // did not break loop
                                     debug("MCCVisc: FATAL did not exit loop at iter = ", iter);
+                                    #pragma omp atomic write // set by several threads
                                     exit = 1;
                                 }
 
-- 
2.43.0


From f6003756cc9b4358eaaca7e96a304896d47be708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:44 +0000
Subject: [PATCH 22/24] fix: MCCMui no longer reports NaN friction and
 viscosity beyond the tip

With the implicit hardening laws the returned pressure can lie below
-beta*p_c by more than stress_tolerance, and the square root of the
(negative) p_special is NaN.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 60cf2e3..cee70df 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -516,7 +516,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     else if (hardening_law == HardeningLaw::SinhImpl){
                         p_c = std::max( K * std::sinh(-xi*particles.eps_pl_vol[p] + std::asinh(p0/K)) , p_stress + stress_tolerance );
                     }
-                    T p_special = p_stress + beta * p_c + stress_tolerance; // always larger than 0
+                    T p_special = std::max(T(0), p_stress + beta * p_c) + stress_tolerance; // always larger than 0, also if the return mapping stopped short of the tip
 
                     T fac_a = f_mu_prefac * dt; // always positive
 
-- 
2.43.0


From d2e374ac2246b63aee327762aea3fb71ed95e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 23/24] fix: P2G read past the grid for a periodic image
 rounded to exactly four cells beyond Lx

---
 src/simulation/remesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index 026c8f3..3105ac3 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -14,7 +14,8 @@ void Simulation::resizeGrid(){
 // A fixed grid - must hard-coded for every simulation
 void Simulation::remeshFixed(unsigned int extra_nodes){
 
-    grid.x = arange(-dx*(1+extra_nodes), Lx+(2+extra_nodes)*dx, dx);
+    // one node more at the end: a periodic image may be rounded up to Lx + extra_nodes*dx, whose stencil needs it
+    grid.x = arange(-dx*(1+extra_nodes), Lx+(3+extra_nodes)*dx, dx);
     grid.y = arange(-dx,                 Ly+(2+extra_nodes)*dx, dx);
     #ifdef THREEDIM
         grid.z = arange(-dx*(1+extra_nodes), Lz+(2+extra_nodes)*dx, dx);
-- 
2.43.0


From 24256cf10567feb97292127e30bb42184378b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:12 +0000
Subject: [PATCH 24/24] fix: viscous and mu(I) Drucker-Prager left the shear
 stress of a trial state exactly at the tip unreturned

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index cee70df..8c3bc16 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -294,7 +294,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             // if left of shifted tip,
             // => project to the original tip given by cohesion only (i.e., not the shifted tip)
-            if ((p_trial+p_shift) < p_tip){
+            if ((p_trial+p_shift) <= p_tip){
                 T delta_gamma     = d_prefac * hencky_deviatoric_norm;
                 T p_proj          = p_tip; // > p_trial
                 T eps_pl_vol_inst = (p_proj-p_trial)/K; // this can be both positive and negative when using Pradhana!
@@ -415,7 +415,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
 
             // if left of shifted tip,
             // => project to the original tip given by cohesion only (i.e., not the shifted tip)
-            if ((p_trial+p_shift) < p_tip){
+            if ((p_trial+p_shift) <= p_tip){
                 T delta_gamma     = d_prefac * hencky_deviatoric_norm;
                 T eps_pl_vol_inst = (p_tip-p_trial)/K;
                 plastic_count++;
-- 
2.43.0

