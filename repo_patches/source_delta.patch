From 733bca51403b72e9d078f5b1e0a98140f76c5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 1/9] fix: clear mcause interrupt bit on synchronous exceptions

The mcause latch's interrupt bit was set when the first interrupt was taken
and never cleared afterwards, so every later synchronous exception reported
mcause with bit 31 set.
---
 src/sentinel/exception.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..0d522ec 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -229,6 +229,11 @@ class ExceptionRouter(Component):
             self.out.mcause.eq(mcause_latch)
         ]
 
+        # Don't let the interrupt bit from a previous interrupt leak into the
+        # cause of a synchronous exception. Overridden below for interrupts.
+        with m.If(exception):
+            m.d.sync += mcause_latch.interrupt.eq(0)
+
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-- 
2.43.0


From 2f5f20de4a279d19d24418d4816263813aa2d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 2/9] fix: report illegal instruction for truncated ECALL
 encodings

Words 0x70, 0x71 and 0x72 match ECALL except for the low two bits. They are
illegal instructions, but raised an environment call exception.
---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..edb8ed5 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.valid.eq(1),
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From 64fcdd81da811086b3475fdca9913e698b2f2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 3/9] fix: report no destination register for trapped
 instructions over RVFI

---
 src/sentinel/formal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..b9eeb33 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,12 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps does not write its rd register.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0),
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From 77d41ec04f93cc75a691f9d015a4246f8d23e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 4/9] fix: raise ValueError for microcode enum names missing
 from field_map

Enumerator names present on only one side raised a bare KeyError (and a
non-enum field_map entry a TypeError) instead of the documented ValueError.
---
 src/sentinel/ucoderom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..c1ca283 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -297,9 +297,11 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
+        members = getattr(se_class, "__members__", {})
+        if not (all(k.upper() in members and
+                    members[k.upper()].value == field.enum[k]
                     for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
+                all(field.enum.get(k.name.lower()) == k.value
                     for k in se_class)):
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
-- 
2.43.0


From 63e7f53cce2bdb40c38bfe8b14087e0344771500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 5/9] fix: place microcode fields at their origin when the word
 has several gaps

Every gap was recorded under the same layout key, so fields after a second
gap (or after a gap in front of the first field) were read from the wrong
bits of the microcode word.
---
 src/sentinel/ucoderom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index c1ca283..240439f 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -259,6 +259,11 @@ class UCodeROM(Component):
         next(n, None)
         curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
 
+        first_f = next(iter(space.fields.values()), None)
+        if first_f and first_f.origin != 0:
+            layout[f"_padding_{padding_id}"] = unsigned(first_f.origin)
+            padding_id += 1
+
         for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
@@ -271,6 +276,7 @@ class UCodeROM(Component):
             if next_f and curr_f.origin + curr_f.width != next_f.origin:
                 layout[f"_padding_{padding_id}"] = \
                     unsigned(next_f.origin - (curr_f.origin + curr_f.width))
+                padding_id += 1
 
         self.field_layout = StructLayout(layout)
 
-- 
2.43.0


From 893b2638233459a19882b6196d1cbc49c5c037d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 6/9] fix: allow register writes to x1 while zero writes are
 allowed

---
 src/sentinel/datapath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/datapath.py b/src/sentinel/datapath.py
index d7faf5e..b47fdce 100644
--- a/src/sentinel/datapath.py
+++ b/src/sentinel/datapath.py
@@ -409,7 +409,7 @@ class RegFile(Component):
                 m.d.comb += [
                     r_port.en.eq(self.pub.ctrl.reg_read),
                     w_port.en.eq(self.pub.ctrl.reg_write &
-                                 (self.pub.adr_w != 0 |
+                                 ((self.pub.adr_w != 0) |
                                   self.pub.ctrl.allow_zero_wr))
                 ]
             with m.Case(CSROp.READ_CSR):
-- 
2.43.0


From 48a058362f0e628feda1af9616ba000c77e2284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 7/9] fix: take the ALU comparison result from the borrow bit
 at every width

---
 src/sentinel/alu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/alu.py b/src/sentinel/alu.py
index 1783669..079285a 100644
--- a/src/sentinel/alu.py
+++ b/src/sentinel/alu.py
@@ -377,7 +377,7 @@ class ALU(Component):
             with m.Case(OpType.SRA):
                 m.d.comb += self.o_mux.eq(self.sar.o)
             with m.Case(OpType.CMP_LTU):
-                m.d.comb += self.o_mux.eq(self.sub.o[32])
+                m.d.comb += self.o_mux.eq(self.sub.o[self.width])
 
         m.d.sync += self.o.eq(self.o_mux)
         with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
-- 
2.43.0


From b9a669205605b0091db8a351ba6e69471da4b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 8/9] fix: make the ucode task runnable

The source file name was misspelled, and the command was not an f-string, so
doit tried to substitute sys.executable itself and failed with KeyError.
---
 dodo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dodo.py b/dodo.py
index ddd87c4..6f3e856 100644
--- a/dodo.py
+++ b/dodo.py
@@ -157,12 +157,12 @@ def task_luts():  # noqa: D103
 
 def task_ucode():
     """assemble microcode and copy non-bin artifacts to root"""
-    ucode = Path("./src/sentinel/icrocode.asm")
+    ucode = Path("./src/sentinel/microcode.asm")
     hex_ = ucode.with_suffix(".asm_block_ram.hex")
     fdef = ucode.with_suffix(".asm_block_ram.fdef")
 
     return {
-        "actions": ["{sys.executable} -m m5meta {ucodefile}",
+        "actions": [f"{sys.executable} -m m5meta {{ucodefile}}",
                     (move_, (hex_, Path(".") / hex_.name)),
                     (move_, (fdef, Path(".") / fdef.name))
                     ],
-- 
2.43.0


From d46932e93c251b90239b6e0fa8988a60fb06d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 9/9] fix: report formal checks as passed only if they passed

SBY also writes ERROR, UNKNOWN and TIMEOUT to its status file, all of which
were reported as PASS.
---
 dodo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dodo.py b/dodo.py
index 6f3e856..230e791 100644
--- a/dodo.py
+++ b/dodo.py
@@ -548,10 +548,10 @@ def echo_sby_status(checks_dir, c):  # noqa: D103
     with open(checks_dir / c / "status", "r") as fp:
         res = fp.read()
 
-    if "FAIL" in res:
-        print(f"{c}... FAIL")
-    else:
+    if "PASS" in res:
         print(f"{c}... PASS")
+    else:
+        print(f"{c}... FAIL")
 
 
 def task_list_sby_status():
-- 
2.43.0

