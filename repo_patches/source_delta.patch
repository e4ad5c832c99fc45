From 260aff3dc5fd584f8be53227ad1556f0e093eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 01/11] fix: keep pending Ry when a queued Rx of an odd
 multiple of pi is flushed

---
 sparsesim/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..b4e9216 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,11 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Like the other branches this acts on the state as it is without
+            // regard to rotations still queued on the target, so enqueue it directly instead of going through
+            // the gate functions, which would commute it with those rotations.
+            let op = if sign_flip { OpCode::Y } else { OpCode::X };
+            self.enqueue_op(target, ctls.into(), op);
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From aaac08579aaab9f1e03caf5865473b959488bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 02/11] fix: apply a matrix when a released qubit left a gap in
 the state locations

---
 sparsesim/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index b4e9216..0fc54c9 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1239,14 +1239,16 @@ impl QuantumSim {
                     .id_map
                     .get(*target)
                     .unwrap_or_else(|| panic!("Unable to find qubit with id {target}"));
+                // After a release there may be no qubit at this location, in which case there is none to move.
                 let swap_id = self
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(id, _)| id);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 28017850913827495b455e4bb0f13bc39925d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 03/11] fix: reject the release of an identifier that is not
 allocated when one qubit is left

---
 sparsesim/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 0fc54c9..95c40f3 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,10 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
-- 
2.43.0


From 018c52a1c16346296c149870e0cd5e308a93a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 04/11] fix: release the storage of a qubit array together with
 its qubits

__quantum__rt__qubit_release_array decremented the alias count of the array
instead of its reference count, so the array was never freed.
---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From b734da046a241bb365767c99d7cf2d8d75270422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 05/11] fix: refuse array and tuple sizes that overflow

The byte count wrapped around in release builds, so a small block was
allocated for a value that claims to be larger.
---
 stdlib/src/arrays.rs | 7 +++++--
 stdlib/src/tuples.rs | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index edc4953..f63e2e4 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -21,13 +21,16 @@ pub struct QirArray {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__rt__array_create_1d(elem_size: u32, count: u64) -> *const QirArray {
-    let elem_size = elem_size
+    let elem_size: usize = elem_size
         .try_into()
         .expect("The `elem_size` argument should fit in the `usize` type for this platform.");
     let count: usize = count
         .try_into()
         .expect("The `count` argument should fit in the `usize` type for this platform.");
-    let data = vec![0_u8; elem_size * count];
+    let size = elem_size
+        .checked_mul(count)
+        .expect("Array size should fit in the `usize` type for this platform.");
+    let data = vec![0_u8; size];
     Rc::into_raw(Rc::new(QirArray { elem_size, data }))
 }
 
diff --git a/stdlib/src/tuples.rs b/stdlib/src/tuples.rs
index 9f5a48f..3765972 100644
--- a/stdlib/src/tuples.rs
+++ b/stdlib/src/tuples.rs
@@ -13,8 +13,9 @@ pub extern "C" fn __quantum__rt__tuple_create(size: u64) -> *mut *const Vec<u8>
     let mut mem = vec![
         0_u8;
         <usize as std::convert::TryFrom<u64>>::try_from(size)
+            .ok()
+            .and_then(|size| size.checked_add(size_of::<*const Vec<u8>>()))
             .expect("Tuple size too large for `usize` type on this platform.")
-            + size_of::<*const Vec<u8>>()
     ];
 
     unsafe {
-- 
2.43.0


From f9b0abd8b912da1c131cfa3e6346a0e05d037159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 06/11] fix: round the quotient of ieeeremainder to even on
 ties

---
 stdlib/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..e6d7912 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,7 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    x - y * (x / y).round_ties_even()
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From e5fd03f9bc311b8549544486f984db5057500742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 07/11] fix: slice arrays by element index

The byte offsets of a range were computed with wrapping arithmetic, so a
range outside the array could select elements, and the most negative step
and the largest bounds were mishandled.
---
 stdlib/src/range_support.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/stdlib/src/range_support.rs b/stdlib/src/range_support.rs
index 77ffea7..ff7d078 100644
--- a/stdlib/src/range_support.rs
+++ b/stdlib/src/range_support.rs
@@ -30,26 +30,25 @@ pub unsafe extern "C" fn quantum__rt__array_slice_1d(
     range: Range,
 ) -> *const QirArray {
     let array = unsafe { &*arr };
-    let item_size: i64 = array
-        .elem_size
-        .try_into()
-        .expect("Array element size too large for `usize` type on this platform.");
     let mut slice = QirArray {
         elem_size: array.elem_size,
         data: Vec::new(),
     };
     let iter: Box<dyn Iterator<Item = i64>> = if range.step > 0 {
-        Box::new(range.start * item_size..=range.end * item_size)
+        Box::new(range.start..=range.end)
     } else {
-        Box::new((range.end * item_size..=range.start * item_size).rev())
+        Box::new((range.end..=range.start).rev())
     };
 
-    let step: i64 = range.step.abs();
-    for i in iter.step_by((step * item_size).try_into().expect(
-        "Range step multiplied by item size is too large for `usize` type on this platform",
-    )) {
-        let index = i
-            .try_into()
+    let step: usize = range
+        .step
+        .unsigned_abs()
+        .try_into()
+        .expect("Range step is too large for `usize` type on this platform");
+    for i in iter.step_by(step) {
+        let index = usize::try_from(i)
+            .ok()
+            .and_then(|i| i.checked_mul(array.elem_size))
             .expect("Item index too large for `usize` type on this platform.");
         let mut copy = vec![0; array.elem_size];
         copy.copy_from_slice(&array.data[index..index + array.elem_size]);
-- 
2.43.0


From 85de4347a3e6683d7af4175ad32fdf2f83e74e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 08/11] fix: link assertmeasurementprobability__ctl with its
 two parameters

The runner accepted only declarations with six parameters, although the
implementation takes the control array and the argument tuple, so a program
that declares the function correctly was refused and one that declares it
wrongly was linked.
---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From d18233c5a20845a29f7aac0eca7a1132889c0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 09/11] fix: refuse output recording declarations with a wrong
 parameter count

A program that declared one of the output recording functions with too few
or too many parameters was linked with an implementation that takes another
number of them, and then read registers that were never set.
---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..c2e4a7d 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if func.get_params().len() != 0 {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -502,13 +515,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From 3f8eb69d1790a927aefae425e20bce76362ea576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 10/11] fix: callable_invoke decides before the call whether
 the arguments start with a control list

---
 stdlib/src/callables.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/callables.rs b/stdlib/src/callables.rs
index 5ac7ab7..c8c18f2 100644
--- a/stdlib/src/callables.rs
+++ b/stdlib/src/callables.rs
@@ -89,6 +89,9 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
             }
         }
 
+        // The invoked function may itself apply functors to this callable, so whether the arguments start
+        // with a control list has to be determined before the call.
+        let is_ctl = *call.ctls_count.borrow() > 0;
         (*call
             .func_table
             .wrapping_add(index)
@@ -97,7 +100,7 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
             args_copy.cast::<u8>(),
             res_tup,
         );
-        if *call.ctls_count.borrow() > 0 {
+        if is_ctl {
             __quantum__rt__array_update_reference_count(*args_copy.cast::<*const QirArray>(), -1);
         }
         if !args_copy.is_null() {
-- 
2.43.0


From b03847e9a392b0921ae512a2fe1067e5364965d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 11/11] fix: reading recorded output takes it out of the buffer

---
 stdlib/src/output_recording.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 8a00ef9..a4e5815 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -41,7 +41,10 @@ impl Write for OutputRecorder {
 
 impl Read for OutputRecorder {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        self.buffer.as_slice().read(buf)
+        let count = self.buffer.as_slice().read(buf)?;
+        // What has been read is gone from the buffer, otherwise the end of it is never reached.
+        self.buffer.drain(..count);
+        Ok(count)
     }
 }
 
-- 
2.43.0

