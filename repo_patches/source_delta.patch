From bbbfb7c44a8ffb953b172d4647315b2cf142c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 01/57] fix: pass noise back through MagicPD from po_Fr.o to
 po_Bk.i

---
 phasor/optics/photodiode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..d50bc99 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -153,6 +153,8 @@ class MagicPD(
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
         for kto in ports_algorithm.port_update_get(self.po_Bk.o):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for kto in ports_algorithm.port_update_get(self.po_Fr.o):
+            ports_algorithm.port_coupling_needed(pmap[self.po_Fr.o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 3a57504f82d7364f687ac893bccf74ddee61e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 02/57] fix: mirror backscatter uses its own phase

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..a926f8c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 6d2fe6f70dc6b9d10b8cae04663c1af738bd7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 03/57] fix: optical selectors are selective in the reverse
 direction too

---
 phasor/optics/selectors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..5028194 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -101,7 +101,9 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
             assert(N_selections == 1)
         for pname, (port, key) in list(self.port_map.items()):
             for kfrom in ports_algorithm.port_update_get(port.i):
-                ports_algorithm.port_coupling_needed(self.po_Fr.o, kfrom)
+                #the selected port only passes its own selection, in both directions
+                if key & kfrom:
+                    ports_algorithm.port_coupling_needed(self.po_Fr.o, kfrom)
 
         for kto in ports_algorithm.port_update_get(self.po_Fr.o):
             N_selections = 0
@@ -113,7 +115,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
                         break
         for pname, (port, key) in list(self.port_map.items()):
             for kto in ports_algorithm.port_update_get(port.o):
-                ports_algorithm.port_coupling_needed(self.po_Fr.i, kto)
+                if key & kto:
+                    ports_algorithm.port_coupling_needed(self.po_Fr.i, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
@@ -128,7 +131,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
             assert(N_selections == 1)
         for pname, (port, key) in list(self.port_map.items()):
             for kfrom in matrix_algorithm.port_set_get(port.i):
-                matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
+                if key & kfrom:
+                    matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 34d65d4ec0b6b917deada6184c59044f1548c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 04/57] fix: a mirror's position phase has opposite sign seen
 from the back

---
 phasor/optics/mirror.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index a926f8c..2d0b0e8 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -426,8 +426,8 @@ class Mirror(
                 R_cplgC  = R_cplg
 
                 if np.any(self.phase_rad.val != 0):
-                    R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                    R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                    R_cplg   = R_cplg * self.symbols.math.exp(mod_sign * self.symbols.i * self.phase_rad.val)
+                    R_cplgC  = R_cplgC * self.symbols.math.exp(-mod_sign * self.symbols.i * self.phase_rad.val)
 
                 #everything scales with Stdcplg, so don't run if there are no reflections
                 if R_nonzero:
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(mod_sign * self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-mod_sign * self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 332dbb27e84cca16fb80690bedc20282d47dff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 05/57] fix: balanced current and force sources push into one
 port what they pull from the other

---
 phasor/electronics/sources.py | 4 ++--
 phasor/mechanical/sources.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index 94bd3a1..f1fc6bc 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -293,7 +293,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pe_B.o,
             self.fkey,
-            self.Ze_termination * self.I_DC,
+            -self.Ze_termination * self.I_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.ps_In.i):
@@ -309,7 +309,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pe_B.o,
                 kfrom,
-                self.Ze_termination,
+                -self.Ze_termination,
             )
 
 
diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index 3e60096..e09d0e2 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -293,7 +293,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pm_B.o,
             self.fkey,
-            self.Zm_termination * self.F_DC,
+            -self.Zm_termination * self.F_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.F.i):
@@ -309,7 +309,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pm_B.o,
                 kfrom,
-                self.Zm_termination,
+                -self.Zm_termination,
             )
 
 
-- 
2.43.0


From 432f720e95c7c956f456ea3643d18ac7205feb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 06/57] fix: electrical Cable delay (missing math namespace,
 nanoseconds)

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..1b25c1e 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From b252a80a681c961542a4dc640feecf5b58da8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 07/57] fix: current and differential voltage readouts include
 the noise source at their terminal

---
 phasor/electronics/multimeter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index ed3aa11..a3e46bd 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,8 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class CurrentReadout(readouts.DCReadout, elements.ElectricalElementBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
         pcplgs = {
-            self.terminal.i :  1 / self.Ze_termination,
-            self.terminal.o : -1 / self.Ze_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Ze_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Ze_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From 2df380d225a7af50e36044c1321bbd1c66763394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 08/57] fix: force and differential displacement readouts
 include what is attached at their terminal

---
 phasor/mechanical/multimeter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..6d70b82 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,8 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -76,6 +76,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
 
     @decl.dproperty
     def terminal(self, port):
+        self.system.own_port_virtual(self, port.i)
+        self.system.own_port_virtual(self, port.o)
         return port
 
     @decl.dproperty
@@ -91,8 +93,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
         #this linear port into the readout ports
         ports = [self.terminal.i, self.terminal.o]
         for port1 in ports:
-            #for kfrom in ports_algorithm.port_update_get(port1):
-            #    ports_algorithm.port_coupling_needed(self.d.o, kfrom)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(self.F.o, kfrom)
             for kto in ports_algorithm.port_update_get(self.F.o):
                 ports_algorithm.port_coupling_needed(port1, kto)
         return
@@ -100,8 +102,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
     def system_setup_coupling(self, matrix_algorithm):
         #TODO, not sure about the 1/2 everywhere
         pcplgs = {
-            self.terminal.i :  1 / self.Zm_termination,
-            self.terminal.o : -1 / self.Zm_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Zm_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Zm_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From a24414d34ea6aff99caf5925988906a2ae84a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 09/57] fix: spring loss angle is odd in frequency, so lossy
 springs have a real response and a real noise spectrum

---
 phasor/mechanical/passive.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..2674cfc 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -59,15 +59,19 @@ class SpringBase(object):
                 #this formula is the conversion of loss angle to equivalent viscous damping
                 return noise.DisplacementFluctuation(
                     port = self.pm_A,
-                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(F)  / ((2 * self.symbols.pi * F) * self.elasticity_N_m),
+                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_odd(F) / ((2 * self.symbols.pi * F) * self.elasticity_N_m * (1 + self.loss_angle_odd(F)**2)),
                     sided = 'one-sided',
                 )
         return None
 
+    def loss_angle_odd(self, F):
+        #the response is real in time, so the loss angle is odd in frequency and zero at DC
+        return np.sign(F) * self.loss_angle_by_freq(abs(F))
+
     def mobility_by_freq(self, F):
         #TODO
         if self.loss_angle_by_freq is not None:
-            return self.elasticity_N_m * (1 + self.symbols.i * self.loss_angle_by_freq(F))
+            return self.elasticity_N_m * (1 + self.symbols.i * self.loss_angle_odd(F))
         else:
             return self.elasticity_N_m
 
-- 
2.43.0


From 9ccb9178055d4d6a8434dc3a7987d4afcd1e0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 10/57] fix: mechanical String joins its velocity mobility to
 the displacement waves of its ports

---
 phasor/mechanical/string.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/phasor/mechanical/string.py b/phasor/mechanical/string.py
index 0749be0..5e330e0 100644
--- a/phasor/mechanical/string.py
+++ b/phasor/mechanical/string.py
@@ -28,6 +28,8 @@ from ..base.bases import (
     CouplerBase,
 )
 
+import numpy as np
+
 import declarative
 
 from . import elements
@@ -100,23 +102,27 @@ class ZConverter(smatrix.SMatrix2PortBase):
     def mobility_Ns_m(self, val):
         return val
 
+    def mobilities_by_freq(self, F):
+        #the waves outside refer force to displacement, the line has a velocity mobility
+        Y1 = 1 / self.Zm_termination
+        if np.all(F == 0):
+            #a static load passes straight through
+            return Y1, Y1
+        return Y1, self.symbols.i2pi * F * self.mobility_Ns_m
+
     def S11_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
-        Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
+        Y1, Y2 = self.mobilities_by_freq(F)
         return (Y1 - Y2) / (Y1 + Y2)
 
     def S12_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
-        Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
+        Y1, Y2 = self.mobilities_by_freq(F)
         return 2 * Y1/(Y1 + Y2)
 
     def S21_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
-        Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
+        Y1, Y2 = self.mobilities_by_freq(F)
         return 2 * Y2/(Y1 + Y2)
 
     def S22_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
-        Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
+        Y1, Y2 = self.mobilities_by_freq(F)
         return (Y2 - Y1) / (Y1 + Y2)
 
-- 
2.43.0


From 0a02503619aadf6703ecafa7bddbc832740ebe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 11/57] fix: product of two signals is weighted correctly when
 one of them is DC

---
 phasor/signals/mixer.py | 94 +++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 56 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index c228f24..356afba 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -12,6 +12,18 @@ from . import ports
 from . import standard_attrs
 
 
+def product_factor(f1, f2):
+    """
+    Coupling for the product of the two signals at frequencies f1 and f2. Oscillating signals are carried
+    as the a of Re(a * exp(i w t)), but DC signals are carried by value.
+    """
+    if f1.DC_is() or f2.DC_is():
+        return 1
+    if (f1 + f2).DC_is():
+        return 1 / 4
+    return 1 / 2
+
+
 class Mixer(bases.SignalElementBase):
 
     @declarative.dproperty
@@ -71,34 +83,20 @@ class Mixer(bases.SignalElementBase):
                 freq_LO = self.system.classical_frequency_extract(kfrom1)
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    #TODO add inhomogenous term
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_I.o, kto),
-                        1 / 2,
-                    )
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 2,
-                    )
-                else:
-                    #TODO add inhomogenous term
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_I.o, kto),
-                        1 / 4,
-                    )
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.LO.i,  kfrom1),
-                        (self.ps_In.i,   kfrom2),
-                        (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 4,
-                    )
+                #TODO add inhomogenous term
+                factor = product_factor(f1, f2)
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.LO.i,  kfrom1),
+                    (self.ps_In.i,   kfrom2),
+                    (self.ps_R_I.o, kto),
+                    factor,
+                )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.LO.i,  kfrom1),
+                    (self.ps_In.i,   kfrom2),
+                    (self.ps_R_Q.o, kto),
+                    self.symbols.i * np.sign(freq_LO) * factor,
+                )
         return
 
 
@@ -194,20 +192,12 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_amp.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg / 2,
-                    )
-                else:
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_amp.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg / 4,
-                    )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.ps_In.i,  kfrom1),
+                    (self.Mod_amp.i,   kfrom2),
+                    (self.ps_Out.o, kto),
+                    cplg * product_factor(f1, f2),
+                )
             for kfrom2 in matrix_algorithm.port_set_get(self.Mod_phase.i):
                 f1 = kfrom1[ports.ClassicalFreqKey]
                 f2 = kfrom2[ports.ClassicalFreqKey]
@@ -217,20 +207,12 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_phase.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 2,
-                    )
-                else:
-                    matrix_algorithm.nonlinear_triplet_insert(
-                        (self.ps_In.i,  kfrom1),
-                        (self.Mod_phase.i,   kfrom2),
-                        (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 4,
-                    )
+                matrix_algorithm.nonlinear_triplet_insert(
+                    (self.ps_In.i,  kfrom1),
+                    (self.Mod_phase.i,   kfrom2),
+                    (self.ps_Out.o, kto),
+                    cplg * self.symbols.i * np.sign(freq_In) * product_factor(f1, f2),
+                )
         return
 
 
-- 
2.43.0


From a9cf4e16a65ca299c9e98b896ade842fade54b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 12/57] fix: max_freq of signal blocks applies to frequency
 values of either sign

---
 phasor/system/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..068b68f 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,8 +291,8 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
-        if np.any(freq_Hz < max_freq):
+            freq_Hz += n * F.F_Hz.val
+        if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
 
-- 
2.43.0


From 7a6eade48fc940ab94535686ba38fa43a92894a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 13/57] fix: StateSpaceModel feedthrough D goes to the outputs,
 not the states

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From 54596ea6af588bbc091ca59837c80156304186be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 14/57] fix: MIMO transfer functions and matrix amplifiers
 build their ports, outputs under their own names

---
 phasor/signals/amplifiers.py  | 8 ++++++--
 phasor/signals/mimo_filter.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..5821ede 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -101,9 +101,13 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_gains.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                pname = 'ps_In_{0}'.format(iname)
+                self.insert(ports.SignalInPort(), pname)
+                self.ps_In[iname] = getattr(self, pname)
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                pname = 'ps_Out_{0}'.format(oname)
+                self.insert(ports.SignalOutPort(), pname)
+                self.O[oname] = getattr(self, pname)
         return
 
     def system_setup_ports(self, ports_algorithm):
diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..c8ce8a9 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -35,9 +35,13 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_xfers.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                pname = 'ps_In_{0}'.format(iname)
+                self.insert(ports.SignalInPort(), pname)
+                self.ps_In[iname] = getattr(self, pname)
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                pname = 'ps_Out_{0}'.format(oname)
+                self.insert(ports.SignalOutPort(), pname)
+                self.O[oname] = getattr(self, pname)
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 63c09f7e118b3b817e1062c703f281f9bb26c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 15/57] fix: TransferFunctionSISO uses the function it is
 given, Gain its default

---
 phasor/signals/siso_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From 238b8750a79fd59724a5697408a1ef3dc85b1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 16/57] fix: Integrator has the sign of the e^{+iwt}
 convention, so a positive frequency drive raises the frequency

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 1c9ab57..78d2946 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -115,7 +115,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
 class Integrator(TransferFunctionSISOBase):
     def filter_func(self, freq):
         freq = np.asarray(freq)
-        return 1/(-1j * freq)
+        return 1/(1j * freq)
 
     @declarative.dproperty
     def no_DC(self, val = True):
-- 
2.43.0


From fe4d47aa2a2e7523e13c405fd6216bd44413d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 17/57] fix: Harmonic2Generator requests frequencies
 symmetrically, DC has no sign

---
 phasor/signals/mixer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index 356afba..67c2bcd 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -235,10 +235,12 @@ class Harmonic2Generator(bases.SignalElementBase):
                 freq_center_f2 = self.system.classical_frequency_extract_center(f2)
                 #make sure the frequencies have the same sign
                 if freq_center_f1 > 0:
-                    if freq_center_f2 < 0:
+                    if freq_center_f2 <= 0:
                         continue
+                elif freq_center_f1 == 0:
+                    continue
                 else:
-                    if freq_center_f2 > 0:
+                    if freq_center_f2 >= 0:
                         continue
                 f_new = f1 + f2
 
@@ -256,10 +258,12 @@ class Harmonic2Generator(bases.SignalElementBase):
                 freq_center_f2 = self.system.classical_frequency_extract_center(f_new)
 
                 if freq_center_f1 > 0:
-                    if freq_center_f2 < 0:
+                    if freq_center_f2 <= 0:
                         continue
+                elif freq_center_f1 == 0:
+                    continue
                 else:
-                    if freq_center_f2 > 0:
+                    if freq_center_f2 >= 0:
                         continue
 
                 if self.system.reject_classical_frequency_order(f_new):
-- 
2.43.0


From 8e5ea3aa79cb3c4c105dc1e51ce7ec1f8e1c0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 18/57] fix: no_DC filters accept scalar gains with swept
 frequencies

---
 phasor/signals/siso_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 78d2946..fd11b20 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -50,10 +50,7 @@ class TransferFunctionSISOBase(SignalElementBase):
     def filter_func_run(self, freq):
         xfer = self.filter_func(freq)
         if self.no_DC:
-            xfer = np.asarray(xfer)
-            freq = np.asarray(freq)
-            zfreq = (freq == 0)
-            xfer[zfreq] = 0
+            xfer = np.where(np.asarray(freq) == 0, 0, xfer)
         return xfer
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From afcb2c086c1d430ab7e827f7e61c74b3c8e877e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 19/57] fix: noise sums may turn complex part way

---
 phasor/readouts/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/noise.py b/phasor/readouts/noise.py
index b170aaa..8493e0c 100644
--- a/phasor/readouts/noise.py
+++ b/phasor/readouts/noise.py
@@ -141,7 +141,7 @@ class NoiseReadout(base.SystemElementBase):
                             if not np.all(np.isfinite(pspec_tot)):
                                 print("BADNESS: ", nobj.name_system, pspec_tot)
                             else:
-                                nsum += pspec_tot
+                                nsum = nsum + pspec_tot
                                 ncollect[nobj][pnameP, pnameN] = ncollect[nobj][pnameP, pnameN] + pspec_tot
                 nsums[pnameP, pnameN] = nsum
         return declarative.Bunch(
-- 
2.43.0


From 41bbaf7ec5a6a2fd33c19cd615d350aa6603cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 20/57] fix: scisparse solvers accept systems whose outputs no
 input reaches

---
 phasor/matrix/scisparse_algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 46e59ed..19daa68 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -119,6 +119,11 @@ def mgraph_simplify_inplace(
     for node, rset in req_alpha.items():
         keys_alpha.update(rset)
 
+    #nothing connects the inputs to the outputs, so there is no matrix to invert
+    if not keys or not keys_alpha:
+        edge_map.clear()
+        return
+
     edge_map_beta = dict()
     for node, sset in seq_beta.items():
         for snode in sset:
-- 
2.43.0


From 2ddb34b614f7abc9ee4464d5dbd450bde328e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 21/57] fix: junctions made for a build are not carried into
 regenerated systems

---
 phasor/electronics/ports.py | 12 +++++++-----
 phasor/mechanical/ports.py  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/phasor/electronics/ports.py b/phasor/electronics/ports.py
index 768b33f..6033bb8 100644
--- a/phasor/electronics/ports.py
+++ b/phasor/electronics/ports.py
@@ -78,11 +78,13 @@ class ElectricalPort(ElectricalPortRaw, bases.SystemElementBase):
         else:
             from .elements import Connection
             b_p_set = set(self._bond_partners)
-            self.own.connection = Connection(
-                N_ports = 1 + len(b_p_set)
-            )
-            self.system._include(self.connection)
-            self.connection.pe_0.bond_inform(self)
+            #the junction belongs to this build, so it must not be remembered for regeneration
+            with self.building:
+                self.own.connection = Connection(
+                    N_ports = 1 + len(b_p_set)
+                )
+                self.system._include(self.connection)
+                self.connection.pe_0.bond_inform(self)
             self.system.bond_completion_raw(self, self.connection.pe_0, self)
             self.connection.pe_0.bond_completion()
             for idx, partner in enumerate(b_p_set):
diff --git a/phasor/mechanical/ports.py b/phasor/mechanical/ports.py
index 8efc2a4..911c5c5 100644
--- a/phasor/mechanical/ports.py
+++ b/phasor/mechanical/ports.py
@@ -81,11 +81,13 @@ class MechanicalPort(MechanicalPortRaw, bases.SystemElementBase):
         else:
             from .elements import Connection
             b_p_set = set(self._bond_partners)
-            self.own.connection = Connection(
-                N_ports = 1 + len(b_p_set)
-            )
-            self.system._include(self.connection)
-            self.connection.pm_0.bond_inform(self)
+            #the junction belongs to this build, so it must not be remembered for regeneration
+            with self.building:
+                self.own.connection = Connection(
+                    N_ports = 1 + len(b_p_set)
+                )
+                self.system._include(self.connection)
+                self.connection.pm_0.bond_inform(self)
             self.system.bond_completion_raw(self, self.connection.pm_0, self)
             self.connection.pm_0.bond_completion()
             for idx, partner in enumerate(b_p_set):
-- 
2.43.0


From 48ca096ef3f5678b8beb0d78268c9fb288518b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 22/57] fix: bonds survive a second regeneration

---
 phasor/optics/ports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/ports.py b/phasor/optics/ports.py
index 05e2a65..bd1922c 100644
--- a/phasor/optics/ports.py
+++ b/phasor/optics/ports.py
@@ -68,6 +68,8 @@ class OpticalPort(OpticalPortRaw, bases.SystemElementBase):
                     #auto-insert bond partner as it was inserted during building
                     getnew = self.root[prein._bond_partner.name_system]
                     self._bond_partner = getnew
+                    #a further regeneration has to carry the bond as well
+                    self._building_bonded = False
                     assert(self.root is getnew.root)
         return
 
-- 
2.43.0


From 4e323f215b7e133a514156200b761a9e2c2d9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 23/57] fix: parameters accept pint quantities

---
 phasor/base/multi_unit_args.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index 207f4aa..ff7d4a4 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -77,8 +77,6 @@ def generate_refval_attribute(
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Quantity):
                         ooa.setdefault("val",   v.magnitude)
-                        if v.val is not v.ref:
-                            ooa.setdefault("ref",   v.ref)
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Unit):
                         ooa.setdefault("units", pint.mag1_units(v))
-- 
2.43.0


From 341c1d8b1746a9f7ec3b7db36b836edfa7aaefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 24/57] fix: Householder reflection where a swept pivot
 vanishes at one point

---
 phasor/matrix/DAG_algorithm_impl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 69ab2f3..0217bf2 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -369,7 +369,10 @@ def householderREFL_ROW_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    edge_abs = abs(edge)
+    #a swept edge may vanish at some of the points, any phase works for the reflection there
+    edge_phase = np.where(edge_abs == 0, 1, edge / np.where(edge_abs == 0, 1, edge_abs))
+    u_mod_edge = edge + norm_orig * edge_phase
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -1055,7 +1058,10 @@ def householderREFL_COL_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    edge_abs = abs(edge)
+    #a swept edge may vanish at some of the points, any phase works for the reflection there
+    edge_phase = np.where(edge_abs == 0, 1, edge / np.where(edge_abs == 0, 1, edge_abs))
+    u_mod_edge = edge + norm_orig * edge_phase
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
-- 
2.43.0


From cb41a8869ba6f3f03413a8e446fff2e922ea83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 25/57] fix: homodyne readout of ports whose cross spectrum
 vanishes over a sweep

---
 phasor/readouts/homodyne_AC.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index e08b0f5..400a622 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -86,10 +86,13 @@ class HomodyneACReadoutBase(base.SystemElementBase):
     def AC_PSD_by_source(self):
         eachCSD = dict()
         for nobj, subCSD in list(self.noise.CSD_by_source.items()):
-            II = subCSD['ps_In', 'ps_In']
-            IQ = subCSD['ps_In', 'Q']
-            QI = subCSD['Q', 'ps_In']
-            QQ = subCSD['Q', 'Q']
+            #sources need not reach both ports, so some may be bare zeros
+            II, IQ, QI, QQ = np.broadcast_arrays(
+                subCSD['ps_In', 'ps_In'],
+                subCSD['ps_In', 'Q'],
+                subCSD['Q', 'ps_In'],
+                subCSD['Q', 'Q'],
+            )
             arr = np_roll_2D_mat_back(
                 np.array(
                     [[II, IQ], [QI, QQ]]
@@ -117,10 +120,13 @@ class HomodyneACReadoutBase(base.SystemElementBase):
 
     @declarative.mproperty
     def AC_CSD_IQ_back(self):
-        II = self.noise.CSD['ps_In', 'ps_In']
-        IQ = self.noise.CSD['ps_In', 'Q']
-        QI = self.noise.CSD['Q', 'ps_In']
-        QQ = self.noise.CSD['Q', 'Q']
+        #uncorrelated ports have bare zeros for their cross spectra
+        II, IQ, QI, QQ = np.broadcast_arrays(
+            self.noise.CSD['ps_In', 'ps_In'],
+            self.noise.CSD['ps_In', 'Q'],
+            self.noise.CSD['Q', 'ps_In'],
+            self.noise.CSD['Q', 'Q'],
+        )
         arr = np_roll_2D_mat_back(
             np.array(
                 [[II, IQ], [QI, QQ]]
-- 
2.43.0


From 1d698db92386c372331b013102f0ae399696a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 26/57] fix: DC sources and lossy parts accept swept values

---
 phasor/electronics/passive.py     | 10 +++++-----
 phasor/electronics/sources.py     | 15 ++++++++-------
 phasor/mechanical/elements.py     |  3 ++-
 phasor/mechanical/ports_driven.py |  5 +++--
 phasor/mechanical/sources.py      | 15 ++++++++-------
 phasor/mechanical/xyz.py          |  7 ++++---
 6 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/phasor/electronics/passive.py b/phasor/electronics/passive.py
index f6e5700..3e757b7 100644
--- a/phasor/electronics/passive.py
+++ b/phasor/electronics/passive.py
@@ -54,7 +54,7 @@ class InductorBase(object):
 
     @decl.dproperty
     def johnson_noise(self):
-        if self.system.include_johnson_noise and self.resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -251,7 +251,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -265,7 +265,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -309,7 +309,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -323,7 +323,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index f1fc6bc..6eec226 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -3,6 +3,7 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative as decl
 
 from ..utilities.future_from_2 import super
@@ -30,7 +31,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -46,7 +47,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -84,7 +85,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -100,7 +101,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -157,7 +158,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0 or self.V_DC != 0:
+        if np.any(self.I_DC != 0) or np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pe_B.o, self.fkey)
         return
@@ -181,7 +182,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -194,7 +195,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.V_DC / _2,
             )
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
diff --git a/phasor/mechanical/elements.py b/phasor/mechanical/elements.py
index cf7f87a..d9b0e4f 100644
--- a/phasor/mechanical/elements.py
+++ b/phasor/mechanical/elements.py
@@ -29,6 +29,7 @@ from ..base.bases import (
     CouplerBase,
 )
 
+import numpy as np
 import declarative as decl
 
 from . import ports
@@ -204,7 +205,7 @@ class Cable(Mechanical2PortBase):
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-        if self.Loss != 0:
+        if np.any(self.Loss != 0):
             loss_coeff = (1 - self.Loss)**.5
         else:
             loss_coeff = 1
diff --git a/phasor/mechanical/ports_driven.py b/phasor/mechanical/ports_driven.py
index d94a847..8a75a2c 100644
--- a/phasor/mechanical/ports_driven.py
+++ b/phasor/mechanical/ports_driven.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative
 
 from ..utilities.future_from_2 import super
@@ -34,7 +35,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self._port.o, self.fkey)
         return
 
@@ -57,7 +58,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self._port.o,
                 self.fkey,
diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index e09d0e2..0afd910 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -3,6 +3,7 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative
 
 from ..utilities.future_from_2 import str, super
@@ -30,7 +31,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -46,7 +47,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -84,7 +85,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -100,7 +101,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -157,7 +158,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0 or self.F_DC != 0:
+        if np.any(self.d_DC != 0) or np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pm_B.o, self.fkey)
         return
@@ -181,7 +182,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -194,7 +195,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.d_DC / _2,
             )
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
diff --git a/phasor/mechanical/xyz.py b/phasor/mechanical/xyz.py
index d1cbc55..b7244db 100644
--- a/phasor/mechanical/xyz.py
+++ b/phasor/mechanical/xyz.py
@@ -523,17 +523,18 @@ class Moment1D(elements.Mechanical1PortBase):
         d = self.displacement
         ports = [self.pm_A, self.pm_B, self.L]
         den = d**2 + 2
-        matrix = 1/den * np.array([
+        #the displacement may be swept, so the entries need not be scalar
+        matrix = [
             [d**2, 2   , +2*d],
             [2   , d**2, -2*d],
             [2*d , -2*d, -d**2 + 2],
-        ])
+        ]
 
         def matrix_inject(ports1, ports2, matrix):
             for idx1, port1 in enumerate(ports1):
                 for idx2, port2 in enumerate(ports2):
                     for kfrom in matrix_algorithm.port_set_get(port1.i):
-                        cplg = matrix[idx1, idx2]
+                        cplg = matrix[idx1][idx2] / den
                         if np.any(cplg != 0):
                             matrix_algorithm.port_coupling_insert(
                                 port1.i,
-- 
2.43.0


From a3a74aeef1c705a6020bef5e2dcc8bf2ad2bcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 27/57] fix: rotators and wave plates accept swept angles

---
 phasor/optics/polarization.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/phasor/optics/polarization.py b/phasor/optics/polarization.py
index dc86ada..96f0a93 100644
--- a/phasor/optics/polarization.py
+++ b/phasor/optics/polarization.py
@@ -2,6 +2,7 @@
 """
 """
 from __future__ import division, print_function, unicode_literals
+import numpy as np
 import declarative as decl
 
 from ..utilities.future_from_2 import super
@@ -14,6 +15,13 @@ from .selective_mirrors import PolarizingMirror
 from . import standard_attrs
 
 
+def rotates_by(rotate_deg, angles_deg):
+    """
+    Only a fixed rotation has the shortcuts, a swept one has to use the general couplings
+    """
+    return np.ndim(rotate_deg) == 0 and rotate_deg in angles_deg
+
+
 class BaseRotator(
         bases.OpticalCouplerBase,
         bases.SystemElementBase
@@ -44,13 +52,13 @@ class BaseRotator(
         }
 
     def system_setup_ports(self, ports_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if rotates_by(self.rotate_deg.val, (0, 180, -180)):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     ports_algorithm.port_coupling_needed(self.pmap[port].o, kfrom)
                 for kto in ports_algorithm.port_update_get(port.o):
                     ports_algorithm.port_coupling_needed(self.pmap[port].i, kto)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif rotates_by(self.rotate_deg.val, (90, -90, 270, -270)):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     if kfrom & ports.PolS:
@@ -73,7 +81,7 @@ class BaseRotator(
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if rotates_by(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -81,7 +89,7 @@ class BaseRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif rotates_by(self.rotate_deg.val, (90, -90, 270, -270)):
             if self.rotate_deg.val in (90, -270):
                 cplg_O = 1
             elif self.rotate_deg.val in (-90, 270):
@@ -154,7 +162,7 @@ class PolarizationRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if rotates_by(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -162,7 +170,7 @@ class PolarizationRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif rotates_by(self.rotate_deg.val, (90, -90, 270, -270)):
             if self.rotate_deg.val in (90, -270):
                 cplg_O = 1
             elif self.rotate_deg.val in (-90, 270):
@@ -235,7 +243,7 @@ class FaradayRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if rotates_by(self.rotate_deg.val, (0, 180, -180)):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -243,7 +251,7 @@ class FaradayRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif rotates_by(self.rotate_deg.val, (90, -90, 270, -270)):
             if self.rotate_deg.val in (90, -270):
                 cplg = 1
             elif self.rotate_deg.val in (-90, 270):
-- 
2.43.0


From 24f644cc063a8d445f79b7301a874d3fd1947d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 28/57] fix: filters accept swept normalisation and linewidth

---
 phasor/signals/ZPSOS.py       | 4 ++--
 phasor/signals/siso_filter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/phasor/signals/ZPSOS.py b/phasor/signals/ZPSOS.py
index 155634a..d776b13 100644
--- a/phasor/signals/ZPSOS.py
+++ b/phasor/signals/ZPSOS.py
@@ -2,7 +2,7 @@
 """
 """
 from __future__ import division, print_function, unicode_literals
-#import numpy as np
+import numpy as np
 import declarative
 import collections
 
@@ -238,7 +238,7 @@ class SRationalFilter(SZPCascade):
             pre = pre * self.symbols.math.exp(-self.symbols.i2pi * freq * self.delay_s.val)
         xfer = super().filter_func(freq) * pre
 
-        if self.gain_F_Hz != 0:
+        if np.any(self.gain_F_Hz != 0):
             xfer = xfer / abs(super().filter_func(self.gain_F_Hz))
 
         return xfer
diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index fd11b20..6dee2b8 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -156,7 +156,7 @@ class TransferFunctionSISOMechSingleResonance(TransferFunctionSISOBase):
             raise RuntimeError("Must specify at least q_factor or FWHM_Hz")
 
         _FWHM = self.center_Hz / self.q_factor
-        assert(((_FWHM / self.FWHM_Hz) - 1) < 1e-8)
+        assert(np.all(((_FWHM / self.FWHM_Hz) - 1) < 1e-8))
 
         return
 
-- 
2.43.0


From d395dd09b03cef1dec75f325e10c247e404eb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 29/57] fix: sums of swept frequencies broadcast

---
 phasor/system/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index 068b68f..29354d7 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -215,7 +215,7 @@ class BGSystem(RootElement):
         iwavelen_m = 0
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         for F, n in list(key[OpticalFreqKey].F_dict.items()):
             iwavelen_m += n * F.iwavelen_m
         return iwavelen_m, freq_Hz
@@ -273,7 +273,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         return freq_Hz
 
     def classical_frequency_extract_center(self, ekey):
@@ -291,7 +291,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
-- 
2.43.0


From 129dcfe20664db9c3cac8c8b15c8ee7b9f7edf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 30/57] fix: alm.Space uses the geometric length, as the
 surfaces around it do

---
 phasor/alm/space.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/phasor/alm/space.py b/phasor/alm/space.py
index 0a0ffa2..011e999 100644
--- a/phasor/alm/space.py
+++ b/phasor/alm/space.py
@@ -40,17 +40,15 @@ class Space(bases.MatrixAtsBase, declarative.OverridableObject):
 
     @declarative.mproperty
     def matrix(self):
-        n = self.substrate.n(self)
         return np.matrix([
-            [1, self.L_m.val / n],
+            [1, self.L_m.val],
             [0, 1],
         ])
 
     @declarative.mproperty
     def matrix_inv(self):
-        n = self.substrate.n(self)
         return np.matrix([
-            [1, -self.L_m.val / n],
+            [1, -self.L_m.val],
             [0, 1],
         ])
 
@@ -64,15 +62,14 @@ class Space(bases.MatrixAtsBase, declarative.OverridableObject):
         if tidx1 == TargetRight:
             invert = not invert
 
-        n = self.substrate.n(self)
         if not invert:
             return np.matrix([
-                [1, z_m / n],
+                [1, z_m],
                 [0, 1],
             ])
         else:
             return np.matrix([
-                [1, (z_m - self.L_m.val) / n],
+                [1, z_m - self.L_m.val],
                 [0, 1],
             ])
 
@@ -87,14 +84,13 @@ class Space(bases.MatrixAtsBase, declarative.OverridableObject):
         if tidx1 == TargetRight:
             invert = not invert
 
-        n = self.root.env_substrate.n(self)
         fill[0, 0, ...] = 1
         fill[1, 1, ...] = 1
         fill[1, 0, ...] = 0
         if not invert:
-            fill[0, 1, ...] = z_m / n
+            fill[0, 1, ...] = z_m
         else:
-            fill[0, 1, ...] = (z_m - self.L_m.val) / n
+            fill[0, 1, ...] = z_m - self.L_m.val
         return
 
     def target_pos(self, tidx1):
@@ -112,9 +108,7 @@ class Space(bases.MatrixAtsBase, declarative.OverridableObject):
 
     def waist_description(self, z, q, from_target):
         has_waist = False
-        n = self.substrate.n(self)
-        #print("N: ", n)
-        qZ = q.Z * n
+        qZ = q.Z
         zw = z - qZ
         if from_target == TargetLeft:
             if -qZ > -1e-16 and -qZ < self.L_m.val:
-- 
2.43.0


From 21ad105e31adba5ef918ce2ba2f490f5c88d97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 31/57] fix: a reversed alm.ABCDGeneric swaps A and D

---
 phasor/alm/bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..df222e9 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -403,5 +403,8 @@ class ABCDGeneric(ThinBase):
 
     @declarative.mproperty
     def matrix(self):
-        return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        if not self.env_reversed:
+            return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        else:
+            return np.matrix([[self.D, self.B.val], [self.C.val, self.A.val]])
 
-- 
2.43.0


From 2edb097e9bb071ca02b0a0105b755a282de04d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 32/57] fix: beam matrices to unsorted, multi-dimensional and
 single positions

---
 phasor/alm/bases.py        | 19 +++----------------
 phasor/alm/measurements.py |  6 +++++-
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index df222e9..fccfa43 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -22,7 +22,6 @@ from .utils import (
     TargetRight,
     TargetIdx,
     matrix_focus,
-    np_check_sorted,
     str_m,
 )
 
@@ -101,26 +100,14 @@ class MatrixAtsBase(Element):
     def matrix_target_to_z(self, tidx1, z_m, fill, invert = False):
         z_m = np.asarray(z_m)
         if len(z_m.shape) > 0:
-            if len(z_m.shape) == 1 and np_check_sorted(z_m):
-                return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
-
-            fill_reshape = fill.reshape(2, 2, -1)
-            idx_remux = np.indices(z_m.shape)
-            idx_remux = idx_remux.reshape(len(z_m.shape), -1)
-            z_m = z_m.reshape(-1)
-            sidx = np.argsort(z_m)
-            z_m = z_m[sidx]
-            idx_remux = idx_remux[:, sidx]
-            self.matrix_target_to_z_linsorted(tidx1, z_m, fill_reshape, invert = invert)
-            fill = fill_reshape[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))]
-            return
+            return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
         else:
-            return self.matrix_target_to_z_single(z_m)
+            return self.matrix_target_to_z_single(tidx1, z_m, invert = invert)
 
     def matrix_target_to_z_linsorted(self, tidx1, z_m, fill, invert = False):
         it = np.nditer(z_m, flags = ['multi_index'])
         while not it.finished:
-            fill[(slice(None), slice(None)) + it.multi_index] = self.matrix_target_to_z_single(tidx1, it.value)
+            fill[(slice(None), slice(None)) + it.multi_index] = self.matrix_target_to_z_single(tidx1, it.value, invert = invert)
             it.iternext()
         return fill
 
diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 7ab75bd..15d7d77 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -182,7 +182,8 @@ class Measurements(Element):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx_beam, z_m, fill)
         else:
-            mat = self.matrix_at(z_m)
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx_beam, z_m, fill)
         target_obj = self.layout.target_obj(tidx_beam)
         q_in = target_obj.beam_q
         q = q_in.propagate_matrix(mat)
@@ -196,6 +197,9 @@ class Measurements(Element):
         elif np_check_sorted(z_m):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx, z_m, fill)
+        else:
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx, z_m, fill)
         return mat
 
     def mat_target_between(self, tname1, tname2):
-- 
2.43.0


From 71abead81e6068700f2f882857eb176fec73b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 33/57] fix: alm elements may share a location

---
 phasor/alm/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..0c07109 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -78,7 +78,8 @@ class System(
             if isinstance(ch, bases.MatrixAtsBase):
                 if ch.loc_m.ref is not None:
                     loc_ch_list.append((ch.loc_m.ref, ch))
-        loc_ch_list.sort()
+        #elements may share a location
+        loc_ch_list.sort(key = lambda loc_ch : (loc_ch[0], loc_ch[1].width_m, loc_ch[1].name_child))
         #print(loc_ch_list)
         clist = [ch for loc, ch in loc_ch_list]
         return clist
-- 
2.43.0


From 9b6f7015a2fafdc286b2382d898eb1fdf197d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 34/57] fix: alm filling spaces follow the current layout, not
 an earlier one

---
 phasor/alm/system.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 0c07109..ae98b49 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -12,6 +12,8 @@ import declarative
 from ..base.autograft import (
     invalidate_auto,
     Element,
+    ShadowBunchN,
+    DeepBunchSingleAssign,
 )
 
 from .utils import (
@@ -33,6 +35,11 @@ class System(
     def _internal(self):
         return Element()
 
+    def _auto_ctree(self):
+        #the filling spaces follow from the locations, so their parameters must not be
+        #carried over from earlier layouts
+        return ShadowBunchN([DeepBunchSingleAssign(), DeepBunchSingleAssign()])
+
     _loc_default = ('loc_m', None)
     loc_m = attrs.generate_loc_m()
 
@@ -88,10 +95,6 @@ class System(
     @invalidate_auto
     def component_pos_pairings(self):
         with self.building:
-            try:
-                del self.ctree['_internal']
-            except KeyError:
-                pass
             components_pos = []
             components_filled = []
             loc_m = 0
@@ -154,7 +157,7 @@ class System(
                                 obj = space.Space(
                                     L_m = loc_m - loc_m_prev,
                                     loc_m = loc_m,
-                                    #ctree = self.ctree['internal'][name],
+                                    ctree = self._auto_ctree(),
                                 ),
                                 name = name,
                                 invalidate = False,
@@ -176,7 +179,7 @@ class System(
                                 obj = space.Space(
                                     L_m = loc_m - loc_m_prev,
                                     loc_m = loc_m,
-                                    #ctree = self.ctree['internal'][name],
+                                    ctree = self._auto_ctree(),
                                 ),
                                 name = name,
                                 invalidate = False,
@@ -210,7 +213,7 @@ class System(
                         obj = space.Space(
                             L_m = loc_m - loc_m_prev,
                             loc_m = loc_m,
-                            #ctree = self.ctree['internal'][name],
+                            ctree = self._auto_ctree(),
                         ),
                         name = name,
                         invalidate = False,
-- 
2.43.0


From 7bf41cb00eb92550d2e9ac3532da42a1d4597a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 35/57] fix: frequency keys with zero multiples equal those
 without them

---
 phasor/base/dictionary_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index c173af6..6d32004 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -146,7 +146,8 @@ class DictKey(MappingABC):
 class FrequencyKey(object):
     __slots__ = ('F_dict', 'prev_hash', 'prev_tup')
     def __init__(self, F_dict):
-        self.F_dict = F_dict
+        #zero multiples are the same as absent ones
+        self.F_dict = dict((F, n) for F, n in list(F_dict.items()) if n != 0)
 
     def DC_is(self):
         return not self.F_dict
-- 
2.43.0


From b97e04bbeea555360dd67249ad451b83cf0e43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 36/57] fix: AOM passes the light which it does not diffract

---
 phasor/optics/AOM.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/phasor/optics/AOM.py b/phasor/optics/AOM.py
index 9a363e0..767742c 100644
--- a/phasor/optics/AOM.py
+++ b/phasor/optics/AOM.py
@@ -269,6 +269,16 @@ class AOM(
                             out_map[(self.Drv.i, kfrom2)] = None
                             #print("JOIN: ", kfrom, kfrom2, kto)
 
+            #fields which are not diffracted are passed through
+            coupled = set(dLt.keys())
+            for lt_list in dLt.values():
+                for lt in lt_list:
+                    coupled.update(lt[1:])
+            for port in portset:
+                for kfrom in matrix_algorithm.port_set_get(port.i):
+                    if (port.i, kfrom) not in coupled:
+                        matrix_algorithm.port_coupling_insert(port.i, kfrom, omap[port].o, kfrom, 1)
+
             #pprint(dLt)
             matrix_algorithm.injection_insert(
                 ODE_solver.ExpMatCoupling(
-- 
2.43.0


From 9615745cc77d4e40bb073805e5177d729f6d1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 37/57] fix: NonlinearCrystal default length is usable

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index cdef936..27b6ed8 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -49,7 +49,7 @@ class NonlinearCrystal(
     #    val = self.ctree.setdefault('length_mm', val)
     #    return val
 
-    _length_default = '10mm'
+    _length_default = ('length_mm', 10)
     length = standard_attrs.generate_length()
 
     @declarative.dproperty
-- 
2.43.0


From b90286fa96405698946cd8dbd3c1ced4f4ae6119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 38/57] fix: NonlinearCrystal counts each sum-frequency pair
 once, so energy is conserved

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index 27b6ed8..a44ce39 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -203,7 +203,7 @@ class NonlinearCrystal(
                             raise RuntimeError("Can't Currently do nonlinear optics on multiply composite wavelengths")
                         F, n = F_list[0]
                         #factor of two since this injects twice
-                        if kfrom == kfrom2:
+                        if qkey == qkey2:
                             dLt[(port.i, kto)].append(
                                 (n * G / 2, (port.i, kfrom2), (port.i, kfrom))
                             )
-- 
2.43.0


From 658b9c021697f3302f75c195cce57e397654dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 39/57] fix: NonlinearCrystal passes fields which take part in
 no conversion

---
 phasor/optics/nonlinear_crystal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index a44ce39..98305c2 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -240,6 +240,15 @@ class NonlinearCrystal(
                     #        out_map[(port.i, kto)] = (portO.o, kto)
                     #        #print("JOIN2: ", kfrom, kfrom2, kto)
 
+            #fields which take part in no conversion are passed through
+            coupled = set(dLt.keys())
+            for lt_list in dLt.values():
+                for lt in lt_list:
+                    coupled.update(lt[1:])
+            for kfrom in matrix_algorithm.port_set_get(port.i):
+                if (port.i, kfrom) not in coupled:
+                    matrix_algorithm.port_coupling_insert(port.i, kfrom, portO.o, kfrom, 1)
+
             #pprint(dLt)
             matrix_algorithm.injection_insert(
                 ODE_solver.ExpMatCoupling(
-- 
2.43.0


From a02fdd1738c9ed769187ed3687f2d0fa9dcb63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 40/57] fix: elements can be inserted by item, own['name'] =
 element

---
 phasor/base/autograft.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index ca1e63a..a8bc924 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -560,12 +560,7 @@ class SubElementBridge(object):
         self._parent = parent
 
     def __setitem__(self, name, item):
-        try:
-            item = self._dict.setdefault(name, item)
-            setattr(self._parent, name, item)
-            return item
-        except TypeError:
-            raise TypeError("Can't insert {0} into {1} at name {2}".format(item, self._dict, name))
+        return self._parent.insert(obj = item, name = name)
 
     def __setattr__(self, name, item):
         if not (isinstance(name, (str, unicode))):
-- 
2.43.0


From f08add5914d5a8c373a22e55a35ba5f13eb0650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 41/57] fix: Complex compares equal to the number it holds

---
 phasor/math/complex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 8f79300..75cfbe0 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -188,8 +188,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real == other.real) and
-            (self.imag == other.imag)
+            (self.real == o_real) and
+            (self.imag == o_imag)
         )
 
     def __ne__(self, other):
@@ -200,8 +200,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real != other.real) or
-            (self.imag != other.imag)
+            (self.real != o_real) or
+            (self.imag != o_imag)
         )
 
     def __pow__(self, other):
-- 
2.43.0


From c51e3b48b99293893d27787f01b3338f2289ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 42/57] fix: integer powers of Complex

---
 phasor/math/complex.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 75cfbe0..c629a30 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -213,14 +213,19 @@ class Complex(ReprMixin):
             o_imag = None
         #print o_real, o_imag
         if o_imag is None or o_imag == 0:
-            val = self
             if isinstance(o_real, int) or (isinstance(o_real, float) and (int(o_real) == o_real)):
                 o_real = int(o_real)
-                while o_real % 2 == 0:
-                    o_real = (o_real / 2)
-                    val = val * val
-                for _ in range(o_real - 1):
-                    val = val * self
+                #square and multiply
+                val = self.__class__(1.)
+                square = self
+                n = abs(o_real)
+                while n:
+                    if n % 2:
+                        val = val * square
+                    square = square * square
+                    n = n // 2
+                if o_real < 0:
+                    val = 1 / val
                 return val
             if isinstance(o_real, float) and o_real == .5:
                 aval = abs(self)
-- 
2.43.0


From 5e8ead3c4cfe58506f29384a54215ac41dc410e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 43/57] fix: real powers of Complex have the sign of the phase

---
 phasor/math/complex.py    | 4 ++--
 phasor/math/dispatched.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index c629a30..7782c72 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -257,8 +257,8 @@ class Complex(ReprMixin):
 
         aval = aval ** o_real
         phase = phase * o_real
-        if o_imag is None:
-            return Complex(aval * cos(phase), -aval * sin(phase))
+        if o_imag is None or o_imag == 0:
+            return Complex(aval * cos(phase), aval * sin(phase))
         return NotImplemented
 
     def __rpow__(self, other):
diff --git a/phasor/math/dispatched.py b/phasor/math/dispatched.py
index a3691fc..697b95e 100644
--- a/phasor/math/dispatched.py
+++ b/phasor/math/dispatched.py
@@ -9,7 +9,7 @@ import numpy as np
 import scipy.special
 from . import dispatch_defaults
 
-npmath = [np, scipy.special]
+npmath = [np, scipy.special, math]
 
 module_by_type = {
     int           : [math, cmath, scipy.special],
-- 
2.43.0


From 3eb323ea6d31251250770ecdbcab458483ca7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 44/57] fix: keyed containers keep testing shapes while they
 hold arrays

---
 phasor/math/key_matrix/keymatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index ccdfabd..32a5ffd 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -146,8 +146,8 @@ class KeyLinearBase(object):
                 maxshape[expand_idx] = shape[expand_idx]
                 if any(shape != maxshape_reduced):
                     raise RuntimeError("Matrix contains unbroadcastable shapes! {0} !=> {1}".format(shape, maxshape))
-                if len(maxshape) == 0:
-                    self._must_test_shape = False
+            if len(maxshape) == 0:
+                self._must_test_shape = False
         return tuple(maxshape)
 
 
-- 
2.43.0


From 7631aaa730695165aeda8f67c087af65812d646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 45/57] fix: KeyMatrix.index_map calls the key maps

---
 phasor/math/key_matrix/keymatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 32a5ffd..58d3a41 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -395,8 +395,8 @@ class KeyMatrix(KeyMatrixBase):
         return self.mat.T
 
     def index_map(self, key_from, key_to):
-        idx_from = self.vspace_from.key_map[key_from]
-        idx_to = self.vspace_to.key_map[key_to]
+        idx_from = self.vspace_from.key_map(key_from)
+        idx_to = self.vspace_to.key_map(key_to)
         return idx_from, idx_to
 
     def backmap_array(self, array):
-- 
2.43.0


From f56b19ee6f0fc89b335266a61ddcbd8e3e6fb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 46/57] fix: KeyMatrix maps arrays back along the axes of its
 array

---
 phasor/math/key_matrix/keymatrix.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 58d3a41..5a705a6 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -408,16 +408,16 @@ class KeyMatrix(KeyMatrixBase):
             array_2d = np.any(array, axis = 0)
             while len(array_2d.shape) > 2:
                 array_2d = np.any(array_2d, axis = 0)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
@@ -430,18 +430,20 @@ class KeyMatrix(KeyMatrixBase):
         vspace_from = self.vspace_to
         vspace_to   = self.vspace_from
         array = np.asarray(array)
-        if len(array.shape) == 3:
-            array_2d = np.any(array, axis = 2)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+        if len(array.shape) > 2:
+            array_2d = np.any(array, axis = 0)
+            while len(array_2d.shape) > 2:
+                array_2d = np.any(array_2d, axis = 0)
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
-- 
2.43.0


From ac9732f08c551b00c7d46596d10832508f57899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 47/57] fix: KeyMatrix addition of entries present only on the
 right

---
 phasor/math/key_matrix/keymatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 5a705a6..cb23414 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -465,7 +465,7 @@ class KeyMatrix(KeyMatrixBase):
                 v = premap[key_pair]
                 premap[key_pair] = v + value
             except KeyError:
-                premap = value
+                premap[key_pair] = value
         return KeyMatrix(self.vspace_from, self.vspace_to, _premap = premap)
 
     def __sub__(self, other):
-- 
2.43.0


From 21c7073ec0c0d3b50f02d816bbfaf88e82199e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 48/57] fix: optimum_poly stays in exact integers, roots of
 high orders converge

---
 phasor/signals/filters/legendre_filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/filters/legendre_filters.py b/phasor/signals/filters/legendre_filters.py
index b28e2c2..43bd965 100644
--- a/phasor/signals/filters/legendre_filters.py
+++ b/phasor/signals/filters/legendre_filters.py
@@ -71,7 +71,7 @@ def optimum_poly(N):
             a[1::2] = 0
 
     # Use Fraction objects to generate exact sum of Legendre polynomials
-    a = [F(i) for i in a]
+    a = [F(int(i)) for i in a]
     domain = [F(-1), F(1)]
     v = polynomial.Legendre(a, domain)  # v(x) = a0 + a1P1(x) + ... + akPk(x)
 
@@ -114,7 +114,7 @@ def _roots(a):
         TODO: How many digits are necessary for float equivalence?  Does it
         vary with order?
         """
-        p = mp.polyroots(a, maxsteps=1000, error=False)
+        p = mp.polyroots(a, maxsteps=1000, error=False, extraprec=mp.prec)
         #p, err = mp.polyroots(a, maxsteps=1000, error=True)
         #if err > 1e-32:
         #    raise ValueError("Legendre filter cannot be accurately computed "
-- 
2.43.0


From cdaba8796b72036850920b0881337ac15a8f6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 49/57] fix: continuous_phase indexes with integers

---
 phasor/utilities/np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index b216500..93b31fa 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -89,7 +89,7 @@ def continuous_phase(data, op_idx= 0, sep = (1.01) * np.pi, deg = False, shiftmo
     while raw_angle[op_idx] > np.pi:
         raw_angle -= 2*np.pi
 
-    median = np.sort(raw_angle)[len(raw_angle)/2]
+    median = np.sort(raw_angle)[len(raw_angle)//2]
     if median < -np.pi/4:
         raw_angle += np.pi * 2
 
-- 
2.43.0


From 35154f09b4bb7f7513ecca40d509d62f38b5113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 50/57] fix: first_non_NaN finds the first number

---
 phasor/utilities/np.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index 93b31fa..893193d 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -141,22 +141,10 @@ def group_delay(F, data, mult = 3e8):
     return F[-len(dang):], mult * dang/dF
 
 def first_non_NaN(arr):
-    idx_lower = 0
-    idx_upper = len(arr)
-    N = 1
-    if not cmath.isnan(arr[0]):
-        return 0
-    while idx_lower + N < idx_upper:
-        if not cmath.isnan(arr[idx_lower + N]):
-            if N == 1:
-                return idx_lower + 1
-            else:
-                idx_lower = idx_lower + N/2
-                idx_upper = idx_lower + N
-                N = 1
-        else:
-            N *= 2
-    return idx_upper
+    for idx, val in enumerate(arr):
+        if not cmath.isnan(val):
+            return idx
+    return len(arr)
 
 
 def search_local_sorted_orig(arr_x, arr_y, val_x_start, val_y):
-- 
2.43.0


From d350b64b41b8fae27c0013f076335867797ea4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 51/57] fix: generate_sections includes the last point

---
 phasor/utilities/np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index 893193d..6a47e82 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -232,7 +232,7 @@ def generate_sections(
         pargs.append([0])
     pargs.append(args)
     if barray[-1]:
-        pargs.append([len(barray)-1])
+        pargs.append([len(barray)])
     if len(pargs) > 1:
         args = np.concatenate(pargs)
     assert(len(args) % 2 == 0)
-- 
2.43.0


From 4ae4d91a94d62ce277a429a24f0ecf86af8bdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 52/57] fix: threadsafe pushpop

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index b04d654..077fd1e 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -178,6 +178,6 @@ class HeapPriorityQueueThreadsafe(object):
         add item into the Queue then return the smallest
         """
         with self.lock:
-            return heapq.pushpop(self.heap, item)
+            return heapq.heappushpop(self.heap, item)
 
 
-- 
2.43.0


From 42e1a1c9a2d7d4e085200c60ab4b07092967f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 53/57] fix: piezo transducer scattering for a mechanical
 termination given as a compliance

---
 phasor/transducers/PZT.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/phasor/transducers/PZT.py b/phasor/transducers/PZT.py
index 773431f..7527dc8 100644
--- a/phasor/transducers/PZT.py
+++ b/phasor/transducers/PZT.py
@@ -69,36 +69,19 @@ class PZTMountedGrounded(
         Z_m = self.Zm_termination
         def See_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((C*Z_e*Z_m*s + C*Z_e*k*s - Z_e*Z_m*d**2*k*s - Z_m - k)/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return ((C*Z_e*Z_m*k*s + C*Z_e*s - Z_e*d**2*k*s - Z_m*k - 1)/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
 
         def Smm_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((Z_e*Z_m*d**2*k*s - (Z_m - k)*(C*Z_e*s + 1))/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
+            return (-(Z_e*d**2*k*s + (Z_m*k - 1)*(C*Z_e*s + 1))/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
 
         def Sem_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_m*d*k/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return (2*Z_m*d*k/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
 
         def Sme_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_e*d*k*s/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
-
-        #computed in sympy
-        #def See_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return ((C*Z_e*Z_m*k*s + C*Z_e*s - Z_e*d**2*k*s - Z_m*k - 1)/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
-
-        #def Smm_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (-(Z_e*d**2*k*s + (Z_m*k - 1)*(C*Z_e*s + 1))/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
-
-        #def Sem_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (2*Z_m*d*k/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
-
-        #def Sme_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (2*Z_e*d*k*s/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
+            return (2*Z_e*d*k*s/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
 
         for port1, port2, func in [
             (self.pe_A, self.pe_A, See_by_freq),
-- 
2.43.0


From dc28cd23bcb1e634c2d2bc6a239fd8c5705ea0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 54/57] fix: VAmp port needs and output impedance

---
 phasor/electronics/opamps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..0e4049e 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
@@ -134,7 +134,8 @@ class VAmp(elements.ElectricalElementBase):
                 #if self.system.classical_frequency_test_max(kfrom, self.max_freq):
                 #    continue
                 freq = self.system.classical_frequency_extract(kfrom)
-                pgain = self.gain_by_freq(freq)
+                #the voltage divides between the output impedance and the line
+                pgain = self.gain_by_freq(freq) * self.Ze_termination / (self.Z_output + self.Ze_termination)
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
-- 
2.43.0


From 1129faaa37f65d60bae646f13b9eb04a622b2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 55/57] fix: mirrors with a swept backscatter

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 2d0b0e8..bd0f878 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -282,7 +282,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].o, kfrom)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].o, kfrom)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].o, kfrom)
             for kto in ports_algorithm.port_update_get(port.o):
                 ports_algorithm.port_coupling_needed(port.i, kto)
@@ -292,7 +292,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].i, kto)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].i, kto)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].i, kto)
 
         if self._has_loss:
-- 
2.43.0


From 3398f5e3e47859742c528c83121d558a5e17b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:01 +0000
Subject: [PATCH 56/57] fix: squeezers could only be given by both variances

---
 phasor/optics/EZSqz.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/phasor/optics/EZSqz.py b/phasor/optics/EZSqz.py
index 97562a7..bd03215 100644
--- a/phasor/optics/EZSqz.py
+++ b/phasor/optics/EZSqz.py
@@ -103,17 +103,16 @@ class EZSqz(
             nonlinear_field_gain_2 = np.sqrt(nonlinear_power_gain - 1)
         elif self.use_parameter == 'rel_variance':
             subtype = 'variance'
-            if self.rel_variance_2 is None:
+            rel_variance_1 = self.rel_variance_1
+            rel_variance_2 = self.rel_variance_2
+            if rel_variance_2 is None:
                 if loss is None:
-                    self.rel_variance_2 = 1/self.rel_variance_1
-                    loss = 0
+                    rel_variance_2 = 1/rel_variance_1
                 else:
-                    self.rel_variance_2 = 1/(self.rel_variance_1 - self.loss)
-            else:
-                loss = (1 - self.rel_variance_1 * self.rel_variance_2) / (2 - self.rel_variance_1 - self.rel_variance_2)
+                    rel_variance_2 = (1 - loss)**2/(rel_variance_1 - loss) + loss
 
-            sqzDB     = -10 * np.log(self.rel_variance_1) / np.log(10)
-            antisqzDB = +10 * np.log(self.rel_variance_2) / np.log(10)
+            sqzDB     = -10 * np.log(rel_variance_1) / np.log(10)
+            antisqzDB = +10 * np.log(rel_variance_2) / np.log(10)
         elif self.use_parameter == 'sqzDB':
             subtype = 'variance'
             bases.PTREE_ASSIGN(self).sqzDB = sqzDB
@@ -126,8 +125,8 @@ class EZSqz(
             raise RuntimeError("Must specify some squeezing parameter")
 
         if subtype == 'gain':
-            rel_variance_1 = (1 - self.loss) * (self.nonlinear_field_gain_1 - self.nonlinear_field_gain_2)**2 + self.loss
-            rel_variance_2 = (1 - self.loss) * (self.nonlinear_field_gain_1 + self.nonlinear_field_gain_2)**2 + self.loss
+            rel_variance_1 = (1 - self.loss) * (nonlinear_field_gain_1 - nonlinear_field_gain_2)**2 + self.loss
+            rel_variance_2 = (1 - self.loss) * (nonlinear_field_gain_1 + nonlinear_field_gain_2)**2 + self.loss
             sqzDB     = -10 * np.log(rel_variance_1) / np.log(10)
             antisqzDB = +10 * np.log(rel_variance_2) / np.log(10)
             #Xloss = (1 - rel_variance_1 * rel_variance_2) / (2 - rel_variance_1 - rel_variance_2)
@@ -136,15 +135,19 @@ class EZSqz(
             #Xnonlinear_power_gain = (2 + np.sqrt(4 + V_d**2))/4
             #print('Power Check', self.nonlinear_power_gain, Xnonlinear_power_gain)
         elif subtype == 'variance':
-            if self.rel_variance_1 == 1:
+            if rel_variance_1 == 1:
                 V_d = 0
             else:
-                V_d = (self.rel_variance_1 - 1) / (self.rel_variance_2 - 1) - (self.rel_variance_2 - 1) / (self.rel_variance_1 - 1)
+                V_d = (rel_variance_1 - 1) / (rel_variance_2 - 1) - (rel_variance_2 - 1) / (rel_variance_1 - 1)
             nonlinear_power_gain = (2 + np.sqrt(4 + V_d**2))/4
             nonlinear_field_gain_1 = np.sqrt(nonlinear_power_gain)
             nonlinear_field_gain_2 = np.sqrt(nonlinear_power_gain - 1)
             normalized_nonlinear_field_gain = 1 - 1/nonlinear_field_gain_1
-            loss = (1 - self.rel_variance_1 * self.rel_variance_2) / (2 - self.rel_variance_1 - self.rel_variance_2)
+            if rel_variance_1 == 1:
+                loss = 0
+            else:
+                #rounding must not make a lossless squeezer one with gain
+                loss = max(0, (1 - rel_variance_1 * rel_variance_2) / (2 - rel_variance_1 - rel_variance_2))
             #Xrel_variance_1 = (1 - loss) * (nonlinear_field_gain_1 - nonlinear_field_gain_2)**2 + loss
             #Xrel_variance_2 = (1 - loss) * (nonlinear_field_gain_1 + nonlinear_field_gain_2)**2 + loss
             #print(rel_variance_1 , Xrel_variance_1)
-- 
2.43.0


From 05c741f01ff0af7a65683f33b56597bbe09646bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:01 +0000
Subject: [PATCH 57/57] fix: squeezers squeeze the first quadrature, as
 documented

---
 phasor/optics/EZSqz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/EZSqz.py b/phasor/optics/EZSqz.py
index bd03215..4a088bb 100644
--- a/phasor/optics/EZSqz.py
+++ b/phasor/optics/EZSqz.py
@@ -280,7 +280,7 @@ class EZSqz(
 
                 pto = tmap[port]
                 cplg1 = self.used_nonlinear_field_gain_1 * self.symbols.math.sqrt(1 - self.used_loss)
-                cplg2 = phi_cplC * self.used_nonlinear_field_gain_2 * self.symbols.math.sqrt(1 - self.used_loss)
+                cplg2 = -phi_cplC * self.used_nonlinear_field_gain_2 * self.symbols.math.sqrt(1 - self.used_loss)
                 matrix_algorithm.port_coupling_insert(
                     port.i,
                     kfrom,
-- 
2.43.0

