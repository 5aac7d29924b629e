From b1c780f45e74559a1444dbeb7a3c69b38b5b53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 01/39] fix: do not fold an operand across a unary consumer

---
 src/parser.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..798e6c3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -152,7 +152,7 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +181,7 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +210,7 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +239,7 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -583,6 +583,39 @@ fn is_f64_foldable_consumer(op: &wasmparser::Operator) -> bool {
     )
 }
 
+/// Check if a foldable consumer takes a single operand.
+///
+/// A unary consumer two instructions ahead only consumes the operand pushed in
+/// between, so the current operand must not be folded across it.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Control block information tracked during instruction decoding.
 ///
 /// Each control structure (block, loop, if) pushes an entry onto the control
-- 
2.43.0


From c099ecc98ba404b0dbff38c25dc6b903b73d1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 02/39] fix: take the right source registers for mixed-type
 multi-value branches

---
 src/parser.rs | 57 ++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 798e6c3..c34f175 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5514,6 +5514,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        module,
                     );
 
                     let instr = ProcessedInstr::BrReg {
@@ -5544,6 +5545,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        module,
                     );
 
                     let instr = ProcessedInstr::BrIfReg {
@@ -5581,6 +5583,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                             &control_info_stack,
                             *depth as usize,
                             reg_allocator.as_ref(),
+                            module,
                         );
                         table_targets.push((
                             *depth,
@@ -5595,6 +5598,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
+                        module,
                     );
                     let default_target = (
                         targets.default(),
@@ -7343,6 +7347,7 @@ fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
+    module: &Module,
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
@@ -7360,51 +7365,15 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
-    let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
+    // Source registers are the stack top values of the label types
+    let label_types = if target_block.is_loop {
+        get_block_param_types(&target_block.block_type, module)
     } else {
-        Vec::new()
+        get_block_result_types(&target_block.block_type, module)
+    };
+    let source_regs = match reg_allocator {
+        Some(allocator) => allocator.peek_regs_for_types(&label_types),
+        None => Vec::new(),
     };
 
     (source_regs, target_result_regs)
-- 
2.43.0


From de10a2c3011e12ff608b4909d71d1be91e7fde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 03/39] fix: pass loop parameters when branching to a loop

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c34f175..3714627 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5242,9 +5242,10 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Push params back - they're still on the stack inside the block
-                    for vtype in param_types.iter() {
-                        allocator.push(*vtype);
-                    }
+                    let param_regs: Vec<Reg> = param_types
+                        .iter()
+                        .map(|vtype| allocator.push(*vtype))
+                        .collect();
 
                     let arity = result_types.len();
                     let param_count = param_types.len();
@@ -5254,7 +5255,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From cab430006544bc9bf1b57a125e35034b37b8e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 04/39] fix: branches to the function level return the results

---
 src/parser.rs | 53 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3714627..68057c3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1372,8 +1372,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // Set target_ip to the End of the function, which returns the results
+            let function_end_ip = processed.len() - 1;
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1495,6 +1495,9 @@ fn preprocess_instructions(
     // Reuse control stack simulation logic, including runtime index tracking
     let mut current_control_stack_pass3: Vec<(usize, bool, wasmparser::BlockType)> = Vec::new();
 
+    // A branch to function level goes to the End of the function
+    let function_end_ip = processed.len().saturating_sub(1);
+
     for pc in 0..processed.len() {
         if let Some(instr) = processed.get(pc) {
             match instr.handler_index() {
@@ -1545,7 +1548,11 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                function_end_ip,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1563,7 +1570,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        function_end_ip
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1922,6 +1929,15 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers holding the function results at the End of the function
+    let function_result_regs: Vec<Reg> = {
+        let mut state = RegAllocator::new(locals).save_state();
+        result_types
+            .iter()
+            .map(|vtype| state.next_reg_for_type(vtype))
+            .collect()
+    };
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5180,8 +5196,14 @@ fn decode_processed_instrs_and_fixups<'a>(
                         result_types.to_vec()
                     };
 
-                    // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
+                    // Get the top N registers based on result types. The End of the
+                    // function may also be reached by branches, so its registers do not
+                    // depend on the state the code before it falls through with.
+                    let source_regs = if control_info_stack.is_empty() {
+                        function_result_regs.clone()
+                    } else {
+                        allocator.peek_regs_for_types(&result_type_vec)
+                    };
 
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
@@ -5516,6 +5538,8 @@ fn decode_processed_instrs_and_fixups<'a>(
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                         module,
+                        result_types,
+                        &function_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrReg {
@@ -5547,6 +5571,8 @@ fn decode_processed_instrs_and_fixups<'a>(
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                         module,
+                        result_types,
+                        &function_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrIfReg {
@@ -5585,6 +5611,8 @@ fn decode_processed_instrs_and_fixups<'a>(
                             *depth as usize,
                             reg_allocator.as_ref(),
                             module,
+                            result_types,
+                            &function_result_regs,
                         );
                         table_targets.push((
                             *depth,
@@ -5600,6 +5628,8 @@ fn decode_processed_instrs_and_fixups<'a>(
                         targets.default() as usize,
                         reg_allocator.as_ref(),
                         module,
+                        result_types,
+                        &function_result_regs,
                     );
                     let default_target = (
                         targets.default(),
@@ -7349,11 +7379,18 @@ fn compute_branch_regs(
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
     module: &Module,
+    function_result_types: &[ValueType],
+    function_result_regs: &[Reg],
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
+    if relative_depth >= stack_len {
+        // Branch to function level: the function results go to the registers its End returns
+        let source_regs = match reg_allocator {
+            Some(allocator) => allocator.peek_regs_for_types(function_result_types),
+            None => Vec::new(),
+        };
+        return (source_regs, function_result_regs.to_vec());
     }
 
     let target_idx = stack_len - 1 - relative_depth;
-- 
2.43.0


From 5089d59a82494ea24764da7f6ad10b58c04aedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 05/39] fix: memory.grow by an unsatisfiable amount returns -1

---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..02c0786 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1997,14 +1997,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta as u32);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..c81df4c 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -88,28 +88,36 @@ impl MemAddr {
     }
 
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
-    pub fn mem_grow(&self, size: i32) -> i32 {
+    /// The size is an unsigned page count.
+    pub fn mem_grow(&self, size: u32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        let new = prev_size as u64 + size as u64;
 
         // Safety: Single-threaded access
         let mem = unsafe { &*self.mem_inst.get() };
         let max_pages = mem._type_.0.max;
 
         if let Some(max) = max_pages {
-            if new > max as i32 {
+            if new > max as u64 {
                 return -1;
             }
         }
 
         if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+            return -1;
         }
+        // 65536 pages do not fit the address space of a 32-bit host
+        let Ok(new_len) = usize::try_from(new * 65536) else {
+            return -1;
+        };
+        // Safety: Single-threaded access, no overlapping borrows
+        let mem = unsafe { &mut *self.mem_inst.get() };
+        let additional = new_len - mem.data.len();
+        if mem.data.try_reserve_exact(additional).is_err() {
+            return -1;
+        }
+        mem.data.resize(new_len, 0);
+        prev_size
     }
 
     /// Returns a copy of all memory contents.
-- 
2.43.0


From 01a1c1609646fad15041c0cc330231a9cbff6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 06/39] fix: out-of-bounds table.fill writes nothing

---
 src/execution/table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..516cb49 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,8 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        // Slicing first checks the whole range before anything is written
+        inst.elem[i..][..n].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From 880207e66900f0ad086fdcdd87a0a7ba3659658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 07/39] fix: out-of-bounds memory accesses trap

---
 src/error.rs              |  2 ++
 src/execution/handlers.rs | 42 +++++++++++++++++++++++++++++----------
 src/execution/mem.rs      | 20 ++++++++++++-------
 src/execution/runtime.rs  |  2 ++
 src/execution/state.rs    | 12 +++++++++++
 5 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 836764d..1a53c20 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -20,6 +20,8 @@ pub enum RuntimeError {
     StackError(&'static str),
     #[error("Invalid Handler Index")]
     InvalidHandlerIndex,
+    #[error("Out of Bounds Memory Access")]
+    MemoryOutOfBounds,
     #[error("Memory Instance Not Found")]
     MemoryNotFound,
     #[error("Invalid Wasm Binary: {0}")]
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 02c0786..af41843 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1291,10 +1291,11 @@ macro_rules! mem_load {
                 _ => unsafe { std::hint::unreachable_unchecked() },
             };
             let p = operand::read_i32(state, &addr);
-            let v: $ty = unsafe {
-                let raw_ptr = state.mem_ptr.add((p as usize) + (offset as usize)) as *const $ty;
-                std::ptr::read_unaligned(raw_ptr)
+            let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$ty>()) else {
+                state.trap = Some(RuntimeError::MemoryOutOfBounds);
+                return trap(state);
             };
+            let v: $ty = unsafe { std::ptr::read_unaligned(raw_ptr as *const $ty) };
             let result: $cast_to = $convert(v);
             operand::$write(state, &dst, result);
             state.pc += 1;
@@ -1336,9 +1337,12 @@ macro_rules! mem_store {
             };
             let p = operand::read_i32(state, &addr);
             let v = operand::$read(state, &value);
+            let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$store_ty>()) else {
+                state.trap = Some(RuntimeError::MemoryOutOfBounds);
+                return trap(state);
+            };
             unsafe {
-                let raw_ptr = state.mem_ptr.add((p as usize) + (offset as usize)) as *mut $store_ty;
-                std::ptr::write_unaligned(raw_ptr, $cast(v));
+                std::ptr::write_unaligned(raw_ptr as *mut $store_ty, $cast(v));
             }
             state.pc += 1;
             advance!(state)
@@ -2002,6 +2006,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
     state.mem_ptr = mem_addr.data_ptr();
+    state.mem_len = mem_addr.data_len();
     state.pc += 1;
     advance!(state)
 }
@@ -2022,6 +2027,10 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index());
     let src = regs.get_i32(args[1].index());
     let len = regs.get_i32(args[2].index());
+    if !mem_addr.in_bounds(dest, len) || !mem_addr.in_bounds(src, len) {
+        state.trap = Some(RuntimeError::MemoryOutOfBounds);
+        return trap(state);
+    }
     mem_addr.memory_copy(dest, src, len);
     state.pc += 1;
     advance!(state)
@@ -2049,11 +2058,20 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     }
     let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
     let regs = state.reg_file();
-    let dest = regs.get_i32(args[0].index()) as usize;
-    let offset = regs.get_i32(args[1].index()) as usize;
-    let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
+    let dest = regs.get_i32(args[0].index());
+    let offset = regs.get_i32(args[1].index()) as u32 as usize;
+    let len = regs.get_i32(args[2].index());
+    let source = data_bytes
+        .get(offset..)
+        .and_then(|rest| rest.get(..len as u32 as usize));
+    match source {
+        Some(bytes) if mem_addr.in_bounds(dest, len) => {
+            mem_addr.init(dest as u32 as usize, bytes);
+        }
+        _ => {
+            state.trap = Some(RuntimeError::MemoryOutOfBounds);
+            return trap(state);
+        }
     }
     state.pc += 1;
     advance!(state)
@@ -2075,6 +2093,10 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index());
     let val = regs.get_i32(args[1].index()) as u8;
     let size = regs.get_i32(args[2].index());
+    if !mem_addr.in_bounds(dest, size) {
+        state.trap = Some(RuntimeError::MemoryOutOfBounds);
+        return trap(state);
+    }
     mem_addr.memory_fill(dest, val, size);
     state.pc += 1;
     advance!(state)
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index c81df4c..3a24b6b 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -153,13 +153,19 @@ impl MemAddr {
         mem.data = data;
     }
 
+    /// Whether the len bytes at ptr are inside the memory (both are unsigned).
+    #[inline]
+    pub fn in_bounds(&self, ptr: i32, len: i32) -> bool {
+        ptr as u32 as u64 + len as u32 as u64 <= self.data_len() as u64
+    }
+
     /// Copies len bytes from src to dest within memory.
-    /// No bounds checking - relies on host runtime for memory safety.
+    /// No bounds checking - the caller checks both ranges.
     #[inline]
     pub fn memory_copy(&self, dest: i32, src: i32, len: i32) {
-        let dest_pos = dest as usize;
-        let src_pos = src as usize;
-        let len_usize = len as usize;
+        let dest_pos = dest as u32 as usize;
+        let src_pos = src as u32 as usize;
+        let len_usize = len as u32 as usize;
         // Safety: Single-threaded access, no overlapping borrows
         let mem = unsafe { &mut *self.mem_inst.get() };
 
@@ -171,11 +177,11 @@ impl MemAddr {
     }
 
     /// Fills len bytes starting at dest with val.
-    /// No bounds checking - relies on host runtime for memory safety.
+    /// No bounds checking - the caller checks the range.
     #[inline]
     pub fn memory_fill(&self, dest: i32, val: u8, len: i32) {
-        let dest_pos = dest as usize;
-        let len_usize = len as usize;
+        let dest_pos = dest as u32 as usize;
+        let len_usize = len as u32 as usize;
         // Safety: Single-threaded access, no overlapping borrows
         let mem = unsafe { &mut *self.mem_inst.get() };
 
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..5b38637 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -147,6 +147,7 @@ impl Runtime {
         };
         let handlers_ptr = frame_stack.handlers.as_ptr();
         let mem_ptr = frame_stack.cached_mem_ptr.unwrap_or(std::ptr::null_mut());
+        let mem_len = frame_stack.primary_mem.as_ref().map_or(0, |m| m.data_len());
         let locals_ptr = frame_stack.frame.locals.as_mut_ptr();
         let label_stack_ptr: *mut Vec<LabelStack> =
             &mut frame_stack.label_stack as *mut Vec<LabelStack>;
@@ -164,6 +165,7 @@ impl Runtime {
             label_stack: label_stack_ptr,
             current_label_idx,
             mem_ptr,
+            mem_len,
             module: module_ptr,
             trap: None,
             yielded: None,
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..6a47b83 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -39,6 +39,7 @@ pub struct VmState {
 
     // Memory fast path (load/store)
     pub mem_ptr: *mut u8,
+    pub mem_len: usize,
 
     // Module (call/call_indirect/global access)
     pub module: *const ModuleInst,
@@ -105,6 +106,17 @@ impl VmState {
         unsafe { &mut *self.label_stack }
     }
 
+    /// Pointer to the `size` bytes of linear memory at `ptr + offset`, or `None`
+    /// if they are not all inside the memory.
+    #[inline(always)]
+    pub fn mem_at(&self, ptr: i32, offset: u64, size: usize) -> Option<*mut u8> {
+        let start = (ptr as u32 as u64).saturating_add(offset);
+        if start.saturating_add(size as u64) > self.mem_len as u64 {
+            return None;
+        }
+        Some(unsafe { self.mem_ptr.add(start as usize) })
+    }
+
     /// Reference to the module instance.
     #[inline(always)]
     pub fn module(&self) -> &ModuleInst {
-- 
2.43.0


From 5037deaad7b21a47098f08e263be3fa7bff97ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 08/39] fix: i32 truncation of 2^31 and 2^32 traps

---
 src/execution/handlers.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index af41843..6c7b3cc 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1136,6 +1136,7 @@ conv!(
 );
 
 // Trapping float→int converters — branch + trap sentinel tail-call.
+// `$max` is exclusive: the greatest integer is not always a float, one more is.
 macro_rules! conv_trap {
     ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
@@ -1149,7 +1150,7 @@ macro_rules! conv_trap {
                 return trap(state);
             }
             let t = v.trunc();
-            if t < $min || t > $max {
+            if t < $min || t >= $max {
                 state.trap = Some(RuntimeError::IntegerOverflow);
                 return trap(state);
             }
@@ -1166,7 +1167,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483648.0_f32,
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1176,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967296.0_f32,
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
@@ -1184,7 +1185,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     i32::MIN as f64,
-    i32::MAX as f64,
+    2147483648.0_f64,
     |t: f64| t as i32
 );
 conv_trap!(
@@ -1193,7 +1194,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     0.0_f64,
-    u32::MAX as f64,
+    4294967296.0_f64,
     |t: f64| (t as u32) as i32
 );
 
-- 
2.43.0


From cce1f2a3e630cacd4a9b28955b8dd196d5b4677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 09/39] fix: select on references

---
 src/execution/handlers.rs | 4 ++++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 6c7b3cc..36d211f 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -290,6 +290,8 @@ pub const HANDLER_IDX_TABLE_FILL: usize = 0x100;
 pub const HANDLER_IDX_REF_LOCAL_GET: usize = 0x101;
 pub const HANDLER_IDX_REF_LOCAL_SET: usize = 0x102;
 
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
+
 // WASI call handler constant
 pub const HANDLER_IDX_CALL_WASI: usize = 0x103;
 
@@ -1396,6 +1398,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2314,6 +2317,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index 68057c3..e116efe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7110,7 +7110,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From 49b4dcdcc116942380cc135da1899360f1f1cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 10/39] fix: every handler of the tail-call dispatcher ends in
 a tail call

---
 src/execution/handlers.rs | 320 ++++++++++++++++++++++++--------------
 1 file changed, 200 insertions(+), 120 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 36d211f..b591843 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -319,6 +319,37 @@ macro_rules! advance {
     }};
 }
 
+/// Tail-calls the next handler if `$step` returns `Outcome::Continue`, the trap
+/// sentinel otherwise. A handler needs a single call as its only return path, and
+/// no value with a destructor may be alive at that call: otherwise it is not a
+/// tail call, and every executed instruction uses up host stack.
+#[cfg(feature = "tco")]
+macro_rules! advance_after {
+    ($state:expr, $step:expr) => {{
+        let h = match $step($state) {
+            Outcome::Continue => unsafe { crate::execution::handlers::next_handler($state) },
+            _ => trap,
+        };
+        h($state)
+    }};
+}
+
+#[cfg(not(feature = "tco"))]
+macro_rules! advance_after {
+    ($state:expr, $step:expr) => {
+        $step($state)
+    };
+}
+
+/// Defines handler `$name` with the body `$step`, which stops by returning `trap`.
+macro_rules! handler {
+    ($name:ident, $step:ident) => {
+        pub fn $name(state: &mut VmState) -> Outcome {
+            advance_after!(state, $step)
+        }
+    };
+}
+
 // ============================================================================
 // Sentinel handlers — chain terminators
 // ============================================================================
@@ -1142,23 +1173,27 @@ conv!(
 macro_rules! conv_trap {
     ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, dst) = match state.current_instr() {
-                ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = operand::$read(state, &src);
-            if v.is_nan() {
-                state.trap = Some(RuntimeError::InvalidConversionToInt);
-                return trap(state);
-            }
-            let t = v.trunc();
-            if t < $min || t >= $max {
-                state.trap = Some(RuntimeError::IntegerOverflow);
-                return trap(state);
+            #[inline]
+            fn step(state: &mut VmState) -> Outcome {
+                let (src, dst) = match state.current_instr() {
+                    ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = operand::$read(state, &src);
+                if v.is_nan() {
+                    state.trap = Some(RuntimeError::InvalidConversionToInt);
+                    return trap(state);
+                }
+                let t = v.trunc();
+                if t < $min || t >= $max {
+                    state.trap = Some(RuntimeError::IntegerOverflow);
+                    return trap(state);
+                }
+                operand::$write(state, &dst, $cast(t));
+                state.pc += 1;
+                Outcome::Continue
             }
-            operand::$write(state, &dst, $cast(t));
-            state.pc += 1;
-            advance!(state)
+            advance_after!(state, step)
         }
     };
 }
@@ -1201,7 +1236,9 @@ conv_trap!(
 );
 
 // i64 trunc has different bound check (>= for max), so write explicit functions
-pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
+handler!(conv_i64_trunc_f32_s, conv_i64_trunc_f32_s_step);
+#[inline]
+fn conv_i64_trunc_f32_s_step(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1218,9 +1255,11 @@ pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
-pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
+handler!(conv_i64_trunc_f32_u, conv_i64_trunc_f32_u_step);
+#[inline]
+fn conv_i64_trunc_f32_u_step(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1237,9 +1276,11 @@ pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
-pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
+handler!(conv_i64_trunc_f64_s, conv_i64_trunc_f64_s_step);
+#[inline]
+fn conv_i64_trunc_f64_s_step(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1256,9 +1297,11 @@ pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, t as i64);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
-pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
+handler!(conv_i64_trunc_f64_u, conv_i64_trunc_f64_u_step);
+#[inline]
+fn conv_i64_trunc_f64_u_step(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
         ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1275,7 +1318,7 @@ pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
     }
     operand::write_dst_i64(state, &dst, (t as u64) as i64);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
 // ============================================================================
@@ -1287,22 +1330,26 @@ pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
 macro_rules! mem_load {
     ($name:ident, $ty:ty, $cast_to:ty, $write:ident, $convert:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (addr, dst, offset) = match state.current_instr() {
-                ProcessedInstr::MemoryLoadReg {
-                    addr, dst, offset, ..
-                } => (*addr, *dst, *offset),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let p = operand::read_i32(state, &addr);
-            let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$ty>()) else {
-                state.trap = Some(RuntimeError::MemoryOutOfBounds);
-                return trap(state);
-            };
-            let v: $ty = unsafe { std::ptr::read_unaligned(raw_ptr as *const $ty) };
-            let result: $cast_to = $convert(v);
-            operand::$write(state, &dst, result);
-            state.pc += 1;
-            advance!(state)
+            #[inline]
+            fn step(state: &mut VmState) -> Outcome {
+                let (addr, dst, offset) = match state.current_instr() {
+                    ProcessedInstr::MemoryLoadReg {
+                        addr, dst, offset, ..
+                    } => (*addr, *dst, *offset),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let p = operand::read_i32(state, &addr);
+                let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$ty>()) else {
+                    state.trap = Some(RuntimeError::MemoryOutOfBounds);
+                    return trap(state);
+                };
+                let v: $ty = unsafe { std::ptr::read_unaligned(raw_ptr as *const $ty) };
+                let result: $cast_to = $convert(v);
+                operand::$write(state, &dst, result);
+                state.pc += 1;
+                Outcome::Continue
+            }
+            advance_after!(state, step)
         }
     };
 }
@@ -1329,26 +1376,30 @@ mem_load!(mem_load_i64_32u, u32, i64, write_dst_i64, |v: u32| v as i64);
 macro_rules! mem_store {
     ($name:ident, $read:ident, $store_ty:ty, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (addr, value, offset) = match state.current_instr() {
-                ProcessedInstr::MemoryStoreReg {
-                    addr,
-                    value,
-                    offset,
-                    ..
-                } => (*addr, *value, *offset),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let p = operand::read_i32(state, &addr);
-            let v = operand::$read(state, &value);
-            let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$store_ty>()) else {
-                state.trap = Some(RuntimeError::MemoryOutOfBounds);
-                return trap(state);
-            };
-            unsafe {
-                std::ptr::write_unaligned(raw_ptr as *mut $store_ty, $cast(v));
+            #[inline]
+            fn step(state: &mut VmState) -> Outcome {
+                let (addr, value, offset) = match state.current_instr() {
+                    ProcessedInstr::MemoryStoreReg {
+                        addr,
+                        value,
+                        offset,
+                        ..
+                    } => (*addr, *value, *offset),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let p = operand::read_i32(state, &addr);
+                let v = operand::$read(state, &value);
+                let Some(raw_ptr) = state.mem_at(p, offset, size_of::<$store_ty>()) else {
+                    state.trap = Some(RuntimeError::MemoryOutOfBounds);
+                    return trap(state);
+                };
+                unsafe {
+                    std::ptr::write_unaligned(raw_ptr as *mut $store_ty, $cast(v));
+                }
+                state.pc += 1;
+                Outcome::Continue
             }
-            state.pc += 1;
-            advance!(state)
+            advance_after!(state, step)
         }
     };
 }
@@ -1599,8 +1650,9 @@ pub fn end(state: &mut VmState) -> Outcome {
         state
             .reg_file_mut()
             .copy_regs(source_regs, target_result_regs);
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
+        let labels = state.label_stack().len() - 1;
+        state.label_stack_mut().truncate(labels);
+        state.current_label_idx = labels - 1;
         let next_ip = state.pc + 1;
         if next_ip >= state.instrs_len && state.current_label_idx == 0 {
             halt = true;
@@ -1625,8 +1677,9 @@ pub fn jump(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     if state.label_stack().len() > 1 {
-        state.label_stack_mut().pop();
-        state.current_label_idx = state.label_stack().len() - 1;
+        let labels = state.label_stack().len() - 1;
+        state.label_stack_mut().truncate(labels);
+        state.current_label_idx = labels - 1;
     }
     state.pc = target_ip;
     advance!(state)
@@ -1756,22 +1809,26 @@ pub fn r#return(state: &mut VmState) -> Outcome {
 macro_rules! global_get {
     ($name:ident, $to:ident, $write:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (dst, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalGetReg {
-                    dst, global_index, ..
-                } => (*dst, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            let val = global_addr.get();
-            let v = val.$to().unwrap_or(Default::default());
-            operand::$write(state, &dst, v);
-            state.pc += 1;
-            advance!(state)
+            #[inline(never)]
+            fn step(state: &mut VmState) -> Outcome {
+                let (dst, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalGetReg {
+                        dst, global_index, ..
+                    } => (*dst, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                let val = global_addr.get();
+                let v = val.$to().unwrap_or(Default::default());
+                operand::$write(state, &dst, v);
+                state.pc += 1;
+                Outcome::Continue
+            }
+            advance_after!(state, step)
         }
     };
 }
@@ -1784,30 +1841,35 @@ global_get!(global_get_f64, to_f64, write_dst_f64, F64);
 macro_rules! global_set {
     ($name:ident, $get:ident, $variant:ident) => {
         pub fn $name(state: &mut VmState) -> Outcome {
-            let (src, global_index) = match state.current_instr() {
-                ProcessedInstr::GlobalSetReg {
-                    src, global_index, ..
-                } => (*src, *global_index),
-                _ => unsafe { std::hint::unreachable_unchecked() },
-            };
-            let v = match src {
-                RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
-                RegOrLocal::Local(idx) => match state.local(idx as usize) {
-                    Val::Num(crate::execution::value::Num::$variant(v)) => *v,
-                    _ => Default::default(),
-                },
-            };
-            let global_addr = state
-                .module()
-                .global_addrs
-                .get_by_idx(crate::structure::types::GlobalIdx(global_index))
-                .clone();
-            if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v))) {
-                state.trap = Some(e);
-                return trap(state);
+            #[inline(never)]
+            fn step(state: &mut VmState) -> Outcome {
+                let (src, global_index) = match state.current_instr() {
+                    ProcessedInstr::GlobalSetReg {
+                        src, global_index, ..
+                    } => (*src, *global_index),
+                    _ => unsafe { std::hint::unreachable_unchecked() },
+                };
+                let v = match src {
+                    RegOrLocal::Reg(idx) => state.reg_file().$get(idx),
+                    RegOrLocal::Local(idx) => match state.local(idx as usize) {
+                        Val::Num(crate::execution::value::Num::$variant(v)) => *v,
+                        _ => Default::default(),
+                    },
+                };
+                let global_addr = state
+                    .module()
+                    .global_addrs
+                    .get_by_idx(crate::structure::types::GlobalIdx(global_index))
+                    .clone();
+                if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v)))
+                {
+                    state.trap = Some(e);
+                    return trap(state);
+                }
+                state.pc += 1;
+                Outcome::Continue
             }
-            state.pc += 1;
-            advance!(state)
+            advance_after!(state, step)
         }
     };
 }
@@ -1881,7 +1943,9 @@ pub fn ref_null(state: &mut VmState) -> Outcome {
     advance!(state)
 }
 
-pub fn ref_is_null(state: &mut VmState) -> Outcome {
+handler!(ref_is_null, ref_is_null_step);
+#[inline(never)]
+fn ref_is_null_step(state: &mut VmState) -> Outcome {
     let regs = match state.current_instr() {
         ProcessedInstr::TableRefReg { regs, .. } => *regs,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1891,10 +1955,12 @@ pub fn ref_is_null(state: &mut VmState) -> Outcome {
     let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
     rf.set_i32(regs[0], is_null);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn table_get(state: &mut VmState) -> Outcome {
+handler!(table_get, table_get_step);
+#[inline(never)]
+fn table_get_step(state: &mut VmState) -> Outcome {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1914,7 +1980,7 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Val::Ref(r) => {
             state.reg_file_mut().set_ref(regs[0], r);
             state.pc += 1;
-            advance!(state)
+            Outcome::Continue
         }
         _ => {
             state.trap = Some(RuntimeError::TypeMismatch);
@@ -1923,7 +1989,9 @@ pub fn table_get(state: &mut VmState) -> Outcome {
     }
 }
 
-pub fn table_set(state: &mut VmState) -> Outcome {
+handler!(table_set, table_set_step);
+#[inline(never)]
+fn table_set_step(state: &mut VmState) -> Outcome {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1942,10 +2010,12 @@ pub fn table_set(state: &mut VmState) -> Outcome {
     let ref_val = rf.get_ref(regs[1]);
     table_addr.set(index, Val::Ref(ref_val));
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn table_fill(state: &mut VmState) -> Outcome {
+handler!(table_fill, table_fill_step);
+#[inline(never)]
+fn table_fill_step(state: &mut VmState) -> Outcome {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1965,14 +2035,16 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
     let n = rf.get_i32(regs[2]) as usize;
     table_addr.fill(i, Val::Ref(ref_val), n);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
 // ============================================================================
 // Memory ops (memory.size / grow / copy / init / fill)
 // ============================================================================
 
-pub fn mem_size(state: &mut VmState) -> Outcome {
+handler!(mem_size, mem_size_step);
+#[inline(never)]
+fn mem_size_step(state: &mut VmState) -> Outcome {
     let dst = match state.current_instr() {
         ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1989,10 +2061,12 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_i32(d.index(), size);
     }
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn mem_grow(state: &mut VmState) -> Outcome {
+handler!(mem_grow, mem_grow_step);
+#[inline(never)]
+fn mem_grow_step(state: &mut VmState) -> Outcome {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2012,10 +2086,12 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
     state.mem_ptr = mem_addr.data_ptr();
     state.mem_len = mem_addr.data_len();
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn mem_copy(state: &mut VmState) -> Outcome {
+handler!(mem_copy, mem_copy_step);
+#[inline(never)]
+fn mem_copy_step(state: &mut VmState) -> Outcome {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2037,10 +2113,12 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
     }
     mem_addr.memory_copy(dest, src, len);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn mem_init(state: &mut VmState) -> Outcome {
+handler!(mem_init, mem_init_step);
+#[inline(never)]
+fn mem_init_step(state: &mut VmState) -> Outcome {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg {
         args, data_index, ..
@@ -2078,10 +2156,12 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
         }
     }
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
-pub fn mem_fill(state: &mut VmState) -> Outcome {
+handler!(mem_fill, mem_fill_step);
+#[inline(never)]
+fn mem_fill_step(state: &mut VmState) -> Outcome {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2103,7 +2183,7 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
     }
     mem_addr.memory_fill(dest, val, size);
     state.pc += 1;
-    advance!(state)
+    Outcome::Continue
 }
 
 // ============================================================================
-- 
2.43.0


From f109bf3e5c3ccd318962685a7e7fffdabdc50b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 11/39] fix: WASI calls only touch guest memory

---
 src/wasi/passthrough.rs | 504 ++++++++++------------------------------
 1 file changed, 127 insertions(+), 377 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..f1776d8 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -137,6 +137,48 @@ extern "C" {
     fn __wasi_sock_shutdown(fd: u32, how: u32) -> u16;
 }
 
+/// Pointer to the `len` bytes of guest memory at `ptr`, which must all be inside it.
+fn guest_range(memory: &MemAddr, ptr: Ptr, len: u64) -> WasiResult<*mut u8> {
+    if ptr as u64 + len > memory.data_len() as u64 {
+        return Err(WasiError::Fault);
+    }
+    Ok(unsafe { memory.get_data_mut_ptr().add(ptr as usize) })
+}
+
+/// Writes `data` to guest memory at `ptr`.
+fn write_guest(memory: &MemAddr, ptr: Ptr, data: &[u8]) -> WasiResult<()> {
+    let dst = guest_range(memory, ptr, data.len() as u64)?;
+    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), dst, data.len()) };
+    Ok(())
+}
+
+/// Null-terminated copy of a guest path.
+fn guest_path(memory: &MemAddr, ptr: Ptr, len: Size) -> WasiResult<Vec<u8>> {
+    let src = guest_range(memory, ptr, len as u64)?;
+    let mut path = unsafe { std::slice::from_raw_parts(src, len as usize) }.to_vec();
+    path.push(0);
+    Ok(path)
+}
+
+/// Translates a guest iovec array; every buffer must be inside guest memory.
+fn guest_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
+    let iovs = guest_range(memory, iovs_ptr, iovs_len as u64 * 8)?;
+    // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
+    let iovs = unsafe { std::slice::from_raw_parts(iovs, iovs_len as usize * 8) };
+    iovs.chunks_exact(8)
+        .map(|iov| {
+            let buf_ptr = u32::from_le_bytes([iov[0], iov[1], iov[2], iov[3]]);
+            let buf_len = u32::from_le_bytes([iov[4], iov[5], iov[6], iov[7]]);
+            let buf = if buf_len == 0 {
+                std::ptr::null()
+            } else {
+                guest_range(memory, buf_ptr, buf_len as u64)? as *const u8
+            };
+            Ok(WasiIovec { buf, buf_len })
+        })
+        .collect()
+}
+
 /// Passthrough WASI implementation that delegates to host runtime via wasi-libc.
 ///
 /// This struct holds state needed for WASI operations (such as command-line arguments)
@@ -183,51 +225,8 @@ impl PassthroughWasiImpl {
         iovs_len: Size,
         nwritten_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-        let memory_len = memory_guard.data.len();
-
-        let mut iovecs = Vec::with_capacity(iovs_len as usize);
-
-        for i in 0..iovs_len {
-            // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
-            let iovec_offset = iovs_ptr as usize + (i as usize * 8);
-
-            if iovec_offset + 8 > memory_len {
-                return Err(WasiError::Fault);
-            }
-
-            let buf_ptr = u32::from_le_bytes([
-                memory_guard.data[iovec_offset],
-                memory_guard.data[iovec_offset + 1],
-                memory_guard.data[iovec_offset + 2],
-                memory_guard.data[iovec_offset + 3],
-            ]);
-
-            let buf_len = u32::from_le_bytes([
-                memory_guard.data[iovec_offset + 4],
-                memory_guard.data[iovec_offset + 5],
-                memory_guard.data[iovec_offset + 6],
-                memory_guard.data[iovec_offset + 7],
-            ]);
-
-            if buf_len == 0 {
-                iovecs.push(WasiIovec {
-                    buf: std::ptr::null(),
-                    buf_len: 0,
-                });
-                continue;
-            }
-
-            if buf_ptr as usize + buf_len as usize > memory_len {
-                return Err(WasiError::Fault);
-            }
-
-            iovecs.push(WasiIovec {
-                buf: unsafe { memory_base.add(buf_ptr as usize) },
-                buf_len,
-            });
-        }
+        let iovecs = guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        guest_range(memory, nwritten_ptr, 4)?;
 
         // Call wasi-libc fd_write function
         let mut nwritten: u32 = 0;
@@ -241,7 +240,7 @@ impl PassthroughWasiImpl {
         };
 
         if wasi_errno == 0 {
-            memory.store(0, nwritten_ptr as i32, nwritten);
+            write_guest(memory, nwritten_ptr, &nwritten.to_le_bytes())?;
         }
 
         Ok(wasi_errno as i32)
@@ -255,47 +254,15 @@ impl PassthroughWasiImpl {
         iovs_len: Size,
         nread_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let mut iovecs = Vec::with_capacity(iovs_len as usize);
-
-        for i in 0..iovs_len {
-            let iovec_offset = iovs_ptr as usize + (i as usize * 8);
-
-            let buf_ptr = u32::from_le_bytes([
-                memory_guard.data[iovec_offset],
-                memory_guard.data[iovec_offset + 1],
-                memory_guard.data[iovec_offset + 2],
-                memory_guard.data[iovec_offset + 3],
-            ]);
-
-            let buf_len = u32::from_le_bytes([
-                memory_guard.data[iovec_offset + 4],
-                memory_guard.data[iovec_offset + 5],
-                memory_guard.data[iovec_offset + 6],
-                memory_guard.data[iovec_offset + 7],
-            ]);
-
-            if buf_len == 0 {
-                iovecs.push(WasiIovec {
-                    buf: std::ptr::null(),
-                    buf_len: 0,
-                });
-            } else {
-                iovecs.push(WasiIovec {
-                    buf: unsafe { memory_base.add(buf_ptr as usize) },
-                    buf_len,
-                });
-            }
-        }
+        let iovecs = guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        guest_range(memory, nread_ptr, 4)?;
 
         let mut nread: u32 = 0;
         let wasi_errno =
             unsafe { __wasi_fd_read(fd as u32, iovecs.as_ptr(), iovs_len, &mut nread as *mut u32) };
 
         if wasi_errno == 0 {
-            memory.store(0, nread_ptr as i32, nread);
+            write_guest(memory, nread_ptr, &nread.to_le_bytes())?;
         }
 
         Ok(wasi_errno as i32)
@@ -313,11 +280,8 @@ impl PassthroughWasiImpl {
             return Ok(0);
         }
 
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno =
-            unsafe { __wasi_random_get(memory_base.add(buf_ptr as usize) as *mut u8, buf_len) };
+            unsafe { __wasi_random_get(guest_range(memory, buf_ptr, buf_len as u64)?, buf_len) };
 
         Ok(wasi_errno as i32)
     }
@@ -355,6 +319,8 @@ impl PassthroughWasiImpl {
             return Ok(wasi_errno as i32);
         }
 
+        guest_range(memory, environ_buf_ptr, environ_buf_size as u64)?;
+
         // Calculate pointer offsets relative to environ_buf_ptr
         let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
         for i in 0..environ_count as usize {
@@ -371,10 +337,10 @@ impl PassthroughWasiImpl {
         ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
         // Write pointer array to WebAssembly memory
-        memory.store_bytes(environ_ptr as i32, &ptr_data);
+        write_guest(memory, environ_ptr, &ptr_data)?;
 
         // Write environment strings to WebAssembly memory
-        memory.store_bytes(environ_buf_ptr as i32, &environ_buf);
+        write_guest(memory, environ_buf_ptr, &environ_buf)?;
 
         Ok(0)
     }
@@ -385,6 +351,8 @@ impl PassthroughWasiImpl {
         environ_count_ptr: Ptr,
         environ_buf_size_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_range(memory, environ_count_ptr, 4)?;
+        guest_range(memory, environ_buf_size_ptr, 4)?;
         let mut environ_count: u32 = 0;
         let mut environ_buf_size: u32 = 0;
 
@@ -396,10 +364,14 @@ impl PassthroughWasiImpl {
         }
 
         // Write environment variable count
-        memory.store(0, environ_count_ptr as i32, environ_count);
+        write_guest(memory, environ_count_ptr, &environ_count.to_le_bytes())?;
 
         // Write total buffer size needed
-        memory.store(0, environ_buf_size_ptr as i32, environ_buf_size);
+        write_guest(
+            memory,
+            environ_buf_size_ptr,
+            &environ_buf_size.to_le_bytes(),
+        )?;
 
         Ok(0)
     }
@@ -427,11 +399,13 @@ impl PassthroughWasiImpl {
         // Add null terminator for the argv array
         ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
+        guest_range(memory, argv_buf_ptr, argv_buf.len() as u64)?;
+
         // Write pointer array to WebAssembly memory
-        memory.store_bytes(argv_ptr as i32, &ptr_data);
+        write_guest(memory, argv_ptr, &ptr_data)?;
 
         // Write argument strings to WebAssembly memory
-        memory.store_bytes(argv_buf_ptr as i32, &argv_buf);
+        write_guest(memory, argv_buf_ptr, &argv_buf)?;
 
         Ok(0)
     }
@@ -442,6 +416,7 @@ impl PassthroughWasiImpl {
         argc_ptr: Ptr,
         argv_buf_size_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_range(memory, argv_buf_size_ptr, 4)?;
         let args = &self.argv;
 
         // Calculate argument count
@@ -451,10 +426,10 @@ impl PassthroughWasiImpl {
         let argv_buf_size: u32 = args.iter().map(|arg| arg.len() + 1).sum::<usize>() as u32;
 
         // Write argument count to WebAssembly memory
-        memory.store(0, argc_ptr as i32, argc);
+        write_guest(memory, argc_ptr, &argc.to_le_bytes())?;
 
         // Write total buffer size needed to WebAssembly memory
-        memory.store(0, argv_buf_size_ptr as i32, argv_buf_size);
+        write_guest(memory, argv_buf_size_ptr, &argv_buf_size.to_le_bytes())?;
 
         Ok(0)
     }
@@ -466,6 +441,7 @@ impl PassthroughWasiImpl {
         precision: i64,
         time_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_range(memory, time_ptr, 8)?;
         let mut time: u64 = 0;
 
         let wasi_errno =
@@ -476,7 +452,7 @@ impl PassthroughWasiImpl {
         }
 
         // Write timestamp (64-bit nanoseconds) to memory using store_bytes
-        memory.store_bytes(time_ptr as i32, &time.to_le_bytes());
+        write_guest(memory, time_ptr, &time.to_le_bytes())?;
 
         Ok(wasi_errno as i32)
     }
@@ -487,6 +463,7 @@ impl PassthroughWasiImpl {
         clock_id: i32,
         resolution_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_range(memory, resolution_ptr, 8)?;
         let mut resolution: u64 = 0;
 
         let wasi_errno = unsafe { __wasi_clock_res_get(clock_id as u32, &mut resolution) };
@@ -496,18 +473,14 @@ impl PassthroughWasiImpl {
         }
 
         // Write resolution (64-bit nanoseconds) to memory using store_bytes
-        memory.store_bytes(resolution_ptr as i32, &resolution.to_le_bytes());
+        write_guest(memory, resolution_ptr, &resolution.to_le_bytes())?;
 
         Ok(wasi_errno as i32)
     }
 
     pub fn fd_prestat_get(&self, memory: &MemAddr, fd: Fd, prestat_ptr: Ptr) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let wasi_errno = unsafe {
-            __wasi_fd_prestat_get(fd as u32, memory_base.add(prestat_ptr as usize) as *mut u8)
-        };
+        let wasi_errno =
+            unsafe { __wasi_fd_prestat_get(fd as u32, guest_range(memory, prestat_ptr, 8)?) };
 
         Ok(wasi_errno as i32)
     }
@@ -519,13 +492,10 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_fd_prestat_dir_name(
                 fd as u32,
-                memory_base.add(path_ptr as usize) as *mut u8,
+                guest_range(memory, path_ptr, path_len as u64)?,
                 path_len,
             )
         };
@@ -540,12 +510,8 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_fdstat_get(&self, memory: &MemAddr, fd: Fd, stat_ptr: Ptr) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let wasi_errno = unsafe {
-            __wasi_fd_fdstat_get(fd as u32, memory_base.add(stat_ptr as usize) as *mut u8)
-        };
+        let wasi_errno =
+            unsafe { __wasi_fd_fdstat_get(fd as u32, guest_range(memory, stat_ptr, 24)?) };
 
         Ok(wasi_errno as i32)
     }
@@ -563,26 +529,18 @@ impl PassthroughWasiImpl {
         fdflags: u32,
         opened_fd_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
+        let path = guest_path(memory, path_ptr, path_len)?;
 
         let wasi_errno = unsafe {
             __wasi_path_open(
                 fd as u32,
                 dirflags,
-                path_vec.as_ptr(),
+                path.as_ptr(),
                 oflags as u16,
                 fs_rights_base,
                 fs_rights_inheriting,
                 fdflags as u16,
-                memory_base.add(opened_fd_ptr as usize) as *mut u32,
+                guest_range(memory, opened_fd_ptr, 4)? as *mut u32,
             )
         };
 
@@ -597,15 +555,12 @@ impl PassthroughWasiImpl {
         whence: u32,
         newoffset_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_fd_seek(
                 fd as u32,
                 offset,
                 whence,
-                memory_base.add(newoffset_ptr as usize) as *mut u64,
+                guest_range(memory, newoffset_ptr, 8)? as *mut u64,
             )
         };
 
@@ -613,11 +568,8 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_tell(&self, memory: &MemAddr, fd: Fd, offset_ptr: Ptr) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno =
-            unsafe { __wasi_fd_tell(fd as u32, memory_base.add(offset_ptr as usize) as *mut u64) };
+            unsafe { __wasi_fd_tell(fd as u32, guest_range(memory, offset_ptr, 8)? as *mut u64) };
 
         Ok(wasi_errno as i32)
     }
@@ -629,12 +581,8 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_filestat_get(&self, memory: &MemAddr, fd: Fd, filestat_ptr: Ptr) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let wasi_errno = unsafe {
-            __wasi_fd_filestat_get(fd as u32, memory_base.add(filestat_ptr as usize) as *mut u8)
-        };
+        let wasi_errno =
+            unsafe { __wasi_fd_filestat_get(fd as u32, guest_range(memory, filestat_ptr, 64)?) };
 
         Ok(wasi_errno as i32)
     }
@@ -648,16 +596,13 @@ impl PassthroughWasiImpl {
         cookie: u64,
         buf_used_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_fd_readdir(
                 fd as u32,
-                memory_base.add(buf_ptr as usize) as *mut u8,
+                guest_range(memory, buf_ptr, buf_len as u64)?,
                 buf_len,
                 cookie,
-                memory_base.add(buf_used_ptr as usize) as *mut u32,
+                guest_range(memory, buf_used_ptr, 4)? as *mut u32,
             )
         };
 
@@ -673,41 +618,8 @@ impl PassthroughWasiImpl {
         offset: u64,
         nread_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let mut iovecs = Vec::with_capacity(iovs_len as usize);
-
-        for i in 0..iovs_len {
-            // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
-            let iovec_offset = iovs_ptr as usize + (i as usize * 8);
-
-            let buf_ptr = u32::from_le_bytes([
-                memory_guard.data[iovec_offset],
-                memory_guard.data[iovec_offset + 1],
-                memory_guard.data[iovec_offset + 2],
-                memory_guard.data[iovec_offset + 3],
-            ]);
-
-            let buf_len = u32::from_le_bytes([
-                memory_guard.data[iovec_offset + 4],
-                memory_guard.data[iovec_offset + 5],
-                memory_guard.data[iovec_offset + 6],
-                memory_guard.data[iovec_offset + 7],
-            ]);
-
-            if buf_len == 0 {
-                iovecs.push(WasiIovec {
-                    buf: std::ptr::null(),
-                    buf_len: 0,
-                });
-            } else {
-                iovecs.push(WasiIovec {
-                    buf: unsafe { memory_base.add(buf_ptr as usize) },
-                    buf_len,
-                });
-            }
-        }
+        let iovecs = guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        guest_range(memory, nread_ptr, 4)?;
 
         let mut nread: u32 = 0;
         let wasi_errno = unsafe {
@@ -724,7 +636,7 @@ impl PassthroughWasiImpl {
             return Ok(wasi_errno as i32);
         }
 
-        memory.store(0, nread_ptr as i32, nread);
+        write_guest(memory, nread_ptr, &nread.to_le_bytes())?;
 
         Ok(0)
     }
@@ -756,41 +668,8 @@ impl PassthroughWasiImpl {
         offset: u64,
         nwritten_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let mut iovecs = Vec::with_capacity(iovs_len as usize);
-
-        for i in 0..iovs_len {
-            // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
-            let iovec_offset = iovs_ptr as usize + (i as usize * 8);
-
-            let buf_ptr = u32::from_le_bytes([
-                memory_guard.data[iovec_offset],
-                memory_guard.data[iovec_offset + 1],
-                memory_guard.data[iovec_offset + 2],
-                memory_guard.data[iovec_offset + 3],
-            ]);
-
-            let buf_len = u32::from_le_bytes([
-                memory_guard.data[iovec_offset + 4],
-                memory_guard.data[iovec_offset + 5],
-                memory_guard.data[iovec_offset + 6],
-                memory_guard.data[iovec_offset + 7],
-            ]);
-
-            if buf_len == 0 {
-                iovecs.push(WasiIovec {
-                    buf: std::ptr::null(),
-                    buf_len: 0,
-                });
-            } else {
-                iovecs.push(WasiIovec {
-                    buf: unsafe { memory_base.add(buf_ptr as usize) },
-                    buf_len,
-                });
-            }
-        }
+        let iovecs = guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        guest_range(memory, nwritten_ptr, 4)?;
 
         let mut nwritten: u32 = 0;
         let wasi_errno = unsafe {
@@ -807,7 +686,7 @@ impl PassthroughWasiImpl {
             return Ok(wasi_errno as i32);
         }
 
-        memory.store(0, nwritten_ptr as i32, nwritten);
+        write_guest(memory, nwritten_ptr, &nwritten.to_le_bytes())?;
 
         Ok(0)
     }
@@ -819,17 +698,9 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
+        let path = guest_path(memory, path_ptr, path_len)?;
 
-        let wasi_errno = unsafe { __wasi_path_create_directory(fd as u32, path_vec.as_ptr()) };
+        let wasi_errno = unsafe { __wasi_path_create_directory(fd as u32, path.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -843,22 +714,14 @@ impl PassthroughWasiImpl {
         path_len: Size,
         filestat_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // null terminate
+        let path = guest_path(memory, path_ptr, path_len)?;
 
         let wasi_errno = unsafe {
             __wasi_path_filestat_get(
                 fd as u32,
                 flags,
-                path_vec.as_ptr(),
-                memory_base.add(filestat_ptr as usize) as *mut u8,
+                path.as_ptr(),
+                guest_range(memory, filestat_ptr, 64)?,
             )
         };
 
@@ -876,25 +739,10 @@ impl PassthroughWasiImpl {
         mtim: u64,
         fst_flags: u32,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
+        let path = guest_path(memory, path_ptr, path_len)?;
 
         let wasi_errno = unsafe {
-            __wasi_path_filestat_set_times(
-                fd as u32,
-                flags,
-                path_vec.as_ptr(),
-                atim,
-                mtim,
-                fst_flags,
-            )
+            __wasi_path_filestat_set_times(fd as u32, flags, path.as_ptr(), atim, mtim, fst_flags)
         };
 
         Ok(wasi_errno as i32)
@@ -910,23 +758,15 @@ impl PassthroughWasiImpl {
         buf_len: Size,
         buf_used_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
+        let path = guest_path(memory, path_ptr, path_len)?;
 
         let wasi_errno = unsafe {
             __wasi_path_readlink(
                 fd as u32,
-                path_vec.as_ptr(),
-                memory_base.add(buf_ptr as usize) as *mut u8,
+                path.as_ptr(),
+                guest_range(memory, buf_ptr, buf_len as u64)?,
                 buf_len,
-                memory_base.add(buf_used_ptr as usize) as *mut u32,
+                guest_range(memory, buf_used_ptr, 4)? as *mut u32,
             )
         };
 
@@ -940,17 +780,9 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated string from path
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0); // Add null terminator
+        let path = guest_path(memory, path_ptr, path_len)?;
 
-        let wasi_errno = unsafe { __wasi_path_remove_directory(fd as u32, path_vec.as_ptr()) };
+        let wasi_errno = unsafe { __wasi_path_remove_directory(fd as u32, path.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -962,16 +794,9 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let path_slice = unsafe {
-            std::slice::from_raw_parts(memory_base.add(path_ptr as usize), path_len as usize)
-        };
-        let mut path_vec = path_slice.to_vec();
-        path_vec.push(0);
+        let path = guest_path(memory, path_ptr, path_len)?;
 
-        let wasi_errno = unsafe { __wasi_path_unlink_file(fd as u32, path_vec.as_ptr()) };
+        let wasi_errno = unsafe { __wasi_path_unlink_file(fd as u32, path.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -984,15 +809,12 @@ impl PassthroughWasiImpl {
         nsubscriptions: Size,
         nevents_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_poll_oneoff(
-                memory_base.add(in_ptr as usize),
-                memory_base.add(out_ptr as usize) as *mut u8,
+                guest_range(memory, in_ptr, nsubscriptions as u64 * 48)?,
+                guest_range(memory, out_ptr, nsubscriptions as u64 * 32)?,
                 nsubscriptions,
-                memory_base.add(nevents_ptr as usize) as *mut u32,
+                guest_range(memory, nevents_ptr, 4)? as *mut u32,
             )
         };
 
@@ -1073,35 +895,17 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated strings from paths
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let mut old_path_vec = old_path_slice.to_vec();
-        old_path_vec.push(0); // Add null terminator
+        let old_path = guest_path(memory, old_path_ptr, old_path_len)?;
 
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
-            )
-        };
-        let mut new_path_vec = new_path_slice.to_vec();
-        new_path_vec.push(0); // Add null terminator
+        let new_path = guest_path(memory, new_path_ptr, new_path_len)?;
 
         let wasi_errno = unsafe {
             __wasi_path_link(
                 old_fd,
                 old_flags,
-                old_path_vec.as_ptr(),
+                old_path.as_ptr(),
                 new_fd,
-                new_path_vec.as_ptr(),
+                new_path.as_ptr(),
             )
         };
 
@@ -1118,36 +922,11 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        // Create null-terminated strings for old and new paths
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
-            )
-        };
-
-        let mut old_path_cstr = old_path_slice.to_vec();
-        old_path_cstr.push(0);
-        let mut new_path_cstr = new_path_slice.to_vec();
-        new_path_cstr.push(0);
+        let old_path = guest_path(memory, old_path_ptr, old_path_len)?;
+        let new_path = guest_path(memory, new_path_ptr, new_path_len)?;
 
-        let wasi_errno = unsafe {
-            __wasi_path_rename(
-                old_fd,
-                old_path_cstr.as_ptr(),
-                new_fd,
-                new_path_cstr.as_ptr(),
-            )
-        };
+        let wasi_errno =
+            unsafe { __wasi_path_rename(old_fd, old_path.as_ptr(), new_fd, new_path.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -1161,30 +940,10 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
-        let old_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(old_path_ptr as usize),
-                old_path_len as usize,
-            )
-        };
-        let new_path_slice = unsafe {
-            std::slice::from_raw_parts(
-                memory_base.add(new_path_ptr as usize),
-                new_path_len as usize,
-            )
-        };
-
-        // null terminate
-        let mut old_path_vec = old_path_slice.to_vec();
-        old_path_vec.push(0);
-        let mut new_path_vec = new_path_slice.to_vec();
-        new_path_vec.push(0);
+        let old_path = guest_path(memory, old_path_ptr, old_path_len)?;
+        let new_path = guest_path(memory, new_path_ptr, new_path_len)?;
 
-        let wasi_errno =
-            unsafe { __wasi_path_symlink(old_path_vec.as_ptr(), fd, new_path_vec.as_ptr()) };
+        let wasi_errno = unsafe { __wasi_path_symlink(old_path.as_ptr(), fd, new_path.as_ptr()) };
 
         Ok(wasi_errno as i32)
     }
@@ -1196,11 +955,8 @@ impl PassthroughWasiImpl {
         flags: u32,
         fd_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno =
-            unsafe { __wasi_sock_accept(fd, flags, memory_base.add(fd_ptr as usize) as *mut u32) };
+            unsafe { __wasi_sock_accept(fd, flags, guest_range(memory, fd_ptr, 4)? as *mut u32) };
 
         Ok(wasi_errno as i32)
     }
@@ -1215,17 +971,14 @@ impl PassthroughWasiImpl {
         ro_datalen_ptr: Ptr,
         ro_flags_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                guest_range(memory, ri_data_ptr, ri_data_len as u64 * 8)? as *const WasiIovec,
                 ri_data_len,
                 ri_flags,
-                memory_base.add(ro_datalen_ptr as usize) as *mut u32,
-                memory_base.add(ro_flags_ptr as usize) as *mut u32,
+                guest_range(memory, ro_datalen_ptr, 4)? as *mut u32,
+                guest_range(memory, ro_flags_ptr, 2)? as *mut u32,
             )
         };
 
@@ -1241,16 +994,13 @@ impl PassthroughWasiImpl {
         si_flags: u32,
         so_datalen_ptr: Ptr,
     ) -> WasiResult<i32> {
-        let memory_guard = memory.get_memory_direct_access();
-        let memory_base = memory_guard.data.as_ptr();
-
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                guest_range(memory, si_data_ptr, si_data_len as u64 * 8)? as *const WasiIovec,
                 si_data_len,
                 si_flags,
-                memory_base.add(so_datalen_ptr as usize) as *mut u32,
+                guest_range(memory, so_datalen_ptr, 4)? as *mut u32,
             )
         };
 
-- 
2.43.0


From e903e6229182830421de7d7fca1a4a4adc2978fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 12/39] fix: args_get and environ_get write only the announced
 pointers

---
 src/wasi/passthrough.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index f1776d8..439fa42 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -322,7 +322,7 @@ impl PassthroughWasiImpl {
         guest_range(memory, environ_buf_ptr, environ_buf_size as u64)?;
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -333,9 +333,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         write_guest(memory, environ_ptr, &ptr_data)?;
 
@@ -384,7 +381,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -396,9 +393,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         guest_range(memory, argv_buf_ptr, argv_buf.len() as u64)?;
 
         // Write pointer array to WebAssembly memory
-- 
2.43.0


From 1ad81f8e9b2bd1f1362ebbc867a1d4277eafd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 13/39] fix: sock_recv and sock_send translate their iovecs

---
 src/wasi/passthrough.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 439fa42..8a87570 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -965,10 +965,12 @@ impl PassthroughWasiImpl {
         ro_datalen_ptr: Ptr,
         ro_flags_ptr: Ptr,
     ) -> WasiResult<i32> {
+        let iovecs = guest_iovecs(memory, ri_data_ptr, ri_data_len)?;
+
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                guest_range(memory, ri_data_ptr, ri_data_len as u64 * 8)? as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 guest_range(memory, ro_datalen_ptr, 4)? as *mut u32,
@@ -988,10 +990,12 @@ impl PassthroughWasiImpl {
         si_flags: u32,
         so_datalen_ptr: Ptr,
     ) -> WasiResult<i32> {
+        let iovecs = guest_iovecs(memory, si_data_ptr, si_data_len)?;
+
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                guest_range(memory, si_data_ptr, si_data_len as u64 * 8)? as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 guest_range(memory, so_datalen_ptr, 4)? as *mut u32,
-- 
2.43.0


From b486bf69924341b457a429aabbf98cf4f47c5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 14/39] fix: every restored frame can be checkpointed again

---
 src/execution/runtime.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 5b38637..a563558 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -221,8 +221,9 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the frames that exist already: the
+        // initial one, or all those restored from a checkpoint
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From 57fe30eb47f355747d81daaa531dc53074c2e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 15/39] fix: count instructions between checkpoint polls across
 calls

---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index a563558..9a14d23 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Instructions since the run started, carried from one `VmState` to the next.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -171,10 +175,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From 8ad509fec4d3daec8153a521798e1e5061e16c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 16/39] fix: poll for checkpoints without WASI imports too

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..0f59bc0 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -125,13 +125,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let requested = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            // A guest without WASI imports can be checkpointed as well
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if requested {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        requested
     }
 }
 
-- 
2.43.0


From 3797e08693bcd2946fafbcae372923275956a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 17/39] fix: reference-typed locals of callees start as null

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 9a14d23..088dda4 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1053,7 +1053,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From b40d7fcd7266aa84fc0b2450146a0b7da6c76180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 18/39] fix: checkpoint images carry tables, references and
 dropped segments

---
 src/execution/data.rs      |  5 +++
 src/execution/migration.rs | 92 ++++++++++++++++++++++++++++++++++----
 src/execution/table.rs     | 18 +++-----
 src/execution/trace.rs     |  4 +-
 src/execution/value.rs     |  9 +++-
 5 files changed, 107 insertions(+), 21 deletions(-)

diff --git a/src/execution/data.rs b/src/execution/data.rs
index 2a4fc85..4c08e1b 100644
--- a/src/execution/data.rs
+++ b/src/execution/data.rs
@@ -26,6 +26,11 @@ impl DataAddr {
         self.0.borrow()._data.clone()
     }
 
+    /// Whether the segment is empty, for instance because it was dropped.
+    pub fn is_empty(&self) -> bool {
+        self.0.borrow()._data.is_empty()
+    }
+
     /// Clears the data (for data.drop instruction).
     pub fn drop_data(&self) {
         self.0.borrow_mut()._data.clear();
diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0f59bc0..0f19cad 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,13 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table elements and which data segments are dropped
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`. Function references
+//! are stored as function indices.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -42,7 +42,7 @@ use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -146,15 +146,68 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table elements and dropped data segments
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    pub table_elements: Vec<Vec<Val>>,
+    pub dropped_data: Vec<bool>,
+}
+
+impl SerializableState {
+    /// Applies `f` to every reference in the state.
+    fn map_refs(
+        &mut self,
+        f: impl Fn(&Ref) -> Result<Ref, RuntimeError>,
+    ) -> Result<(), RuntimeError> {
+        for r in self.stacks.reg_file.ref_regs.iter_mut() {
+            *r = f(r)?;
+        }
+        let locals = self
+            .stacks
+            .activation_frame_stack
+            .iter_mut()
+            .flat_map(|f| f.frame.locals.iter_mut());
+        let elements = self.table_elements.iter_mut().flatten();
+        for val in locals.chain(elements).chain(self.global_values.iter_mut()) {
+            if let Val::Ref(r) = val {
+                *r = f(r)?;
+            }
+        }
+        Ok(())
+    }
+}
+
+/// The form of a reference that is stored in an image.
+fn export_ref(module_inst: &ModuleInst, r: &Ref) -> Result<Ref, RuntimeError> {
+    match r {
+        Ref::FuncAddr(func) => module_inst
+            .func_addrs
+            .iter()
+            .position(|f| Rc::ptr_eq(f.get_rc(), func.get_rc()))
+            .map(|idx| Ref::FuncIdx(idx as u32))
+            .ok_or_else(|| {
+                RuntimeError::SerializationError("Reference to a foreign function".to_string())
+            }),
+        _ => Ok(r.clone()),
+    }
+}
+
+/// The reference stored in an image as `r`.
+fn import_ref(module_inst: &ModuleInst, r: &Ref) -> Result<Ref, RuntimeError> {
+    match r {
+        Ref::FuncIdx(idx) => module_inst
+            .func_addrs
+            .get(*idx as usize)
+            .map(|func| Ref::FuncAddr(func.clone()))
+            .ok_or_else(|| {
+                RuntimeError::DeserializationError("Function index out of range".to_string())
+            }),
+        _ => Ok(r.clone()),
+    }
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -210,12 +263,23 @@ pub fn checkpoint<P: AsRef<Path>>(
     // 4. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
-    let state = SerializableState {
+    let mut state = SerializableState {
         stacks: stacks.clone(),
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        table_elements: module_inst
+            .table_addrs
+            .iter()
+            .map(|table| table.get_elements())
+            .collect(),
+        dropped_data: module_inst
+            .data_addrs
+            .iter()
+            .map(|data| data.is_empty())
+            .collect(),
     };
+    state.map_refs(|r| export_ref(module_inst, r))?;
 
     // 6. Serialize and write (with per-component size diagnostics)
     let reg_file_size = bincode::serialize(&state.stacks.reg_file)
@@ -294,6 +358,8 @@ pub fn restore<P: AsRef<Path>>(
     let mut state: SerializableState = bincode::deserialize(&encoded[..])
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
+    state.map_refs(|r| import_ref(&module_inst, r))?;
+
     // 3. Restore memory state (LZ4 decompress)
     if let Some(mem_addr) = module_inst.mem_addrs.get(0) {
         let memory_data = lz4_flex::decompress_size_prepended(&state.memory_data_compressed)
@@ -320,6 +386,16 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
+    for (table, elements) in module_inst.table_addrs.iter().zip(state.table_elements) {
+        table.set_elements(elements);
+    }
+    for (data, dropped) in module_inst.data_addrs.iter().zip(state.dropped_data) {
+        if dropped {
+            data.drop_data();
+        }
+    }
+    println!("Tables and data segments restored into module instance.");
+
     // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
diff --git a/src/execution/table.rs b/src/execution/table.rs
index 516cb49..63dd179 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -5,7 +5,6 @@ use super::{
     module::*,
     value::{self, Val},
 };
-use crate::error::RuntimeError;
 use crate::structure::types::*;
 use std::cell::{Ref, RefCell};
 use std::rc::Rc;
@@ -72,17 +71,14 @@ impl TableAddr {
         }
     }
 
+    /// Returns a copy of all elements (used during checkpoint).
+    pub fn get_elements(&self) -> Vec<Val> {
+        self.0.borrow().elem.clone()
+    }
+
     /// Replaces all elements (used during restore).
-    pub fn set_elements(&self, elems: Vec<Option<FuncAddr>>) -> Result<(), RuntimeError> {
-        let mut guard = self.0.borrow_mut();
-        guard.elem = elems
-            .into_iter()
-            .map(|opt_func| match opt_func {
-                Some(func_addr) => Val::Ref(value::Ref::FuncAddr(func_addr)),
-                None => Val::Ref(value::Ref::RefNull),
-            })
-            .collect();
-        Ok(())
+    pub fn set_elements(&self, elems: Vec<Val>) {
+        self.0.borrow_mut().elem = elems;
     }
 
     /// Returns a borrow of the underlying table instance.
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index fdc0328..0c3abbd 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -298,7 +298,9 @@ impl Tracer {
             },
             Val::Ref(r) => match r {
                 super::value::Ref::RefNull => "RefNull".to_string(),
-                super::value::Ref::FuncAddr(_) => "FuncAddr".to_string(),
+                super::value::Ref::FuncAddr(_) | super::value::Ref::FuncIdx(_) => {
+                    "FuncAddr".to_string()
+                }
                 super::value::Ref::RefExtern(_) => "RefExtern".to_string(),
             },
         }
diff --git a/src/execution/value.rs b/src/execution/value.rs
index afeab3b..018a7b0 100644
--- a/src/execution/value.rs
+++ b/src/execution/value.rs
@@ -54,7 +54,7 @@ impl Val {
             Val::Num(Num::F64(_)) => ValueType::NumType(NumType::F64),
             Val::Vec_(Vec_::V128(_)) => ValueType::VecType(VecType::V128),
             Val::Ref(Ref::RefNull) => ValueType::RefType(RefType::FuncRef),
-            Val::Ref(Ref::FuncAddr(_)) => ValueType::RefType(RefType::FuncRef),
+            Val::Ref(Ref::FuncAddr(_) | Ref::FuncIdx(_)) => ValueType::RefType(RefType::FuncRef),
             Val::Ref(Ref::RefExtern(_)) => ValueType::RefType(RefType::ExternalRef),
         }
     }
@@ -109,6 +109,8 @@ pub enum Ref {
     /// External reference.
     #[serde(skip)]
     RefExtern(ExternAddr),
+    /// Function reference by index; only inside a checkpoint image.
+    FuncIdx(u32),
 }
 
 use std::hash::{Hash, Hasher};
@@ -122,6 +124,10 @@ impl Hash for Ref {
                 // Hash the pointer address for FuncAddr
                 (addr as *const _ as usize).hash(state);
             }
+            Ref::FuncIdx(idx) => {
+                3.hash(state);
+                idx.hash(state);
+            }
             Ref::RefExtern(addr) => {
                 2.hash(state);
                 // Hash the Rc pointer address for ExternAddr
@@ -140,6 +146,7 @@ impl PartialEq for Ref {
                 std::ptr::eq(a as *const _, b as *const _)
             }
             (Ref::RefExtern(a), Ref::RefExtern(b)) => Rc::ptr_eq(&a.0, &b.0),
+            (Ref::FuncIdx(a), Ref::FuncIdx(b)) => a == b,
             _ => false,
         }
     }
-- 
2.43.0


From b22bb2f37354fc0ce7ae97b39d829c88efae6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 19/39] fix: refuse checkpoint images that are damaged or of
 another module

---
 src/execution/migration.rs | 49 ++++++++++++++++++++++++++++++++++----
 src/execution/module.rs    |  3 +++
 src/parser.rs              |  2 ++
 src/structure/module.rs    |  3 +++
 4 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0f19cad..a28f87a 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -140,6 +140,46 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
 /// Throttle interval for non-atomics file polling (= every 1024 instructions).
 const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 
+/// First bytes of every image; the last one is the version of the format.
+const IMAGE_MAGIC: [u8; 8] = *b"CHIWAWA\x01";
+
+/// Magic, module fingerprint and checksum of the state that follows.
+const IMAGE_HEADER_LEN: usize = 24;
+
+/// 64-bit FNV-1a hash.
+pub fn fnv1a(bytes: &[u8]) -> u64 {
+    bytes.iter().fold(0xcbf29ce484222325, |hash, byte| {
+        (hash ^ *byte as u64).wrapping_mul(0x100000001b3)
+    })
+}
+
+/// Wraps the serialized state for `read_image`.
+fn write_image(module_inst: &ModuleInst, encoded: &[u8]) -> Vec<u8> {
+    let mut image = Vec::with_capacity(IMAGE_HEADER_LEN + encoded.len());
+    image.extend_from_slice(&IMAGE_MAGIC);
+    image.extend_from_slice(&module_inst.fingerprint.to_le_bytes());
+    image.extend_from_slice(&fnv1a(encoded).to_le_bytes());
+    image.extend_from_slice(encoded);
+    image
+}
+
+/// Returns the serialized state in an image, which must be complete, intact
+/// and taken with the same module.
+fn read_image<'a>(module_inst: &ModuleInst, image: &'a [u8]) -> Result<&'a [u8], RuntimeError> {
+    let refuse = |why: &str| Err(RuntimeError::CheckpointLoadError(why.to_string()));
+    if image.len() < IMAGE_HEADER_LEN || image[..8] != IMAGE_MAGIC {
+        return refuse("not a checkpoint image");
+    }
+    if image[8..16] != module_inst.fingerprint.to_le_bytes() {
+        return refuse("taken with a different module");
+    }
+    let encoded = &image[IMAGE_HEADER_LEN..];
+    if image[16..24] != fnv1a(encoded).to_le_bytes() {
+        return refuse("truncated or corrupted image");
+    }
+    Ok(encoded)
+}
+
 /// Complete runtime state for checkpoint serialization.
 ///
 /// Contains all information needed to restore execution:
@@ -331,7 +371,7 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     let mut file =
         File::create(output_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
-    file.write_all(&encoded)
+    file.write_all(&write_image(module_inst, &encoded))
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
@@ -350,12 +390,13 @@ pub fn restore<P: AsRef<Path>>(
     // 1. Read from file
     let mut file =
         File::open(input_path).map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
-    let mut encoded = Vec::new();
-    file.read_to_end(&mut encoded)
+    let mut image = Vec::new();
+    file.read_to_end(&mut image)
         .map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
+    let encoded = read_image(&module_inst, &image)?;
 
     // 2. Deserialize the state using bincode
-    let mut state: SerializableState = bincode::deserialize(&encoded[..])
+    let mut state: SerializableState = bincode::deserialize(encoded)
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
     state.map_refs(|r| import_ref(&module_inst, r))?;
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..cf7a4ab 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -24,6 +24,8 @@ pub struct ModuleInst {
     pub exports: Vec<ExportInst>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
+    /// Identifies the module in checkpoint images.
+    pub fingerprint: u64,
 }
 
 /// Trait for indexed access to instance vectors.
@@ -65,6 +67,7 @@ impl ModuleInst {
             exports: Vec::new(),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
+            fingerprint: module.fingerprint,
         };
 
         // Check if we need WASI support
diff --git a/src/parser.rs b/src/parser.rs
index e116efe..6d61038 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -47,6 +47,7 @@ use wasmparser::{
 use crate::error::{ParserError, RuntimeError};
 use crate::execution::handlers::*;
 use crate::execution::ir::*;
+use crate::execution::migration;
 use crate::execution::regs::{Reg, RegAllocator};
 use crate::structure::{instructions::*, module::*, types::*};
 use itertools::Itertools;
@@ -7439,6 +7440,7 @@ pub fn parse_bytecode(
 
     let mut file = File::open(path)?;
     file.read_to_end(&mut buf)?;
+    module.fingerprint = migration::fnv1a(&buf);
 
     for payload in parser.parse_all(&buf) {
         match payload? {
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 7174bf2..064a5d1 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -592,6 +592,8 @@ pub struct Module {
     pub code_index: usize,
     /// Export declarations.
     pub exports: Vec<Export>,
+    /// Hash of the binary this module was parsed from.
+    pub fingerprint: u64,
 }
 
 impl Module {
@@ -610,6 +612,7 @@ impl Module {
             num_imported_funcs: 0,
             code_index: 0,
             exports: Vec::new(),
+            fingerprint: 0,
         }
     }
 }
-- 
2.43.0


From cd1f27145f76e5e78a9dffcd54e9aad01cb77364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 20/39] fix: refuse invalid modules instead of running them

---
 src/error.rs            |  2 ++
 src/execution/module.rs |  4 ++++
 src/main.rs             |  5 +++--
 src/parser.rs           | 40 +++++++++++++++++++++++++++++-----------
 src/structure/module.rs |  3 +++
 5 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1a53c20..ce2c613 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -26,6 +26,8 @@ pub enum RuntimeError {
     MemoryNotFound,
     #[error("Invalid Wasm Binary: {0}")]
     InvalidWasm(&'static str),
+    #[error("Invalid Module: {0}")]
+    InvalidModule(String),
     #[error("Type Mismatch")]
     TypeMismatch,
     #[error("Invalid Parameter Count for Function Call")]
diff --git a/src/execution/module.rs b/src/execution/module.rs
index cf7a4ab..0f01b0d 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -56,6 +56,10 @@ impl ModuleInst {
         imports: ImportObjects,
         argv: Vec<String>,
     ) -> Result<Rc<ModuleInst>, RuntimeError> {
+        if let Some(reason) = &module.validation_error {
+            return Err(RuntimeError::InvalidModule(reason.clone()));
+        }
+
         let mut module_inst = ModuleInst {
             types: module.types.clone(),
             func_addrs: Vec::new(),
diff --git a/src/main.rs b/src/main.rs
index 163dc3f..02e41f0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,8 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    parser::parse_bytecode(&mut module, &cli.wasm_file)
+        .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
@@ -155,7 +156,7 @@ fn main() -> Result<()> {
         wasm_argv.extend(additional_args);
     }
 
-    let inst = ModuleInst::new(&module, imports, wasm_argv).unwrap();
+    let inst = ModuleInst::new(&module, imports, wasm_argv)?;
 
     // Create trace configuration if trace is enabled
     #[cfg(feature = "trace")]
diff --git a/src/parser.rs b/src/parser.rs
index 6d61038..a908acc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -41,7 +41,8 @@
 use std::fs::File;
 use std::io::Read;
 use wasmparser::{
-    ExternalKind, FunctionBody, Parser, Payload::*, SectionLimited, TypeRef, ValType,
+    ExternalKind, FunctionBody, Parser, Payload::*, SectionLimited, TypeRef, ValType, Validator,
+    WasmFeatures,
 };
 
 use crate::error::{ParserError, RuntimeError};
@@ -928,11 +929,11 @@ fn decode_import_section(
             }
             TypeRef::Table(table_type) => {
                 let max = match table_type.maximum {
-                    Some(m) => Some(TryFrom::try_from(m).unwrap()),
+                    Some(m) => Some(TryFrom::try_from(m)?),
                     None => None,
                 };
                 let limits = Limits {
-                    min: TryFrom::try_from(table_type.initial).unwrap(),
+                    min: TryFrom::try_from(table_type.initial)?,
                     max,
                 };
                 let reftype = if table_type.element_type.is_func_ref() {
@@ -945,11 +946,11 @@ fn decode_import_section(
             }
             TypeRef::Memory(memory) => {
                 let max = match memory.maximum {
-                    Some(m) => Some(TryFrom::try_from(m).unwrap()),
+                    Some(m) => Some(TryFrom::try_from(m)?),
                     None => None,
                 };
                 let limits = Limits {
-                    min: TryFrom::try_from(memory.initial).unwrap(),
+                    min: TryFrom::try_from(memory.initial)?,
                     max,
                 };
                 ImportDesc::Mem(MemType(limits))
@@ -959,7 +960,7 @@ fn decode_import_section(
                 let value_type = match_value_type(global.content_type);
                 ImportDesc::Global(GlobalType(mut_, value_type))
             }
-            TypeRef::Tag(_) => todo!(),
+            TypeRef::Tag(_) => return Err(Box::new(ParserError::InvalidWasm("tag import"))),
         };
         module.imports.push(Import {
             module: Name(import.module.to_string()),
@@ -988,7 +989,7 @@ fn decode_export_section(
             ExternalKind::Table => ExportDesc::Table(TableIdx(index)),
             ExternalKind::Memory => ExportDesc::Mem(MemIdx(index)),
             ExternalKind::Global => ExportDesc::Global(GlobalIdx(index)),
-            ExternalKind::Tag => todo!(),
+            ExternalKind::Tag => return Err(Box::new(ParserError::InvalidWasm("tag export"))),
         };
         module.exports.push(Export {
             name: Name(export.name.to_string()),
@@ -1006,11 +1007,11 @@ fn decode_mem_section(
     for memory in body {
         let memory = memory?;
         let max = match memory.maximum {
-            Some(m) => Some(TryFrom::try_from(m).unwrap()),
+            Some(m) => Some(TryFrom::try_from(m)?),
             None => None,
         };
         let limits = Limits {
-            min: TryFrom::try_from(memory.initial).unwrap(),
+            min: TryFrom::try_from(memory.initial)?,
             max,
         };
         module.mems.push(Mem {
@@ -1030,11 +1031,11 @@ fn decode_table_section(
         let table_type = table.ty;
 
         let max = match table_type.maximum {
-            Some(m) => Some(TryFrom::try_from(m).unwrap()),
+            Some(m) => Some(TryFrom::try_from(m)?),
             None => None,
         };
         let limits = Limits {
-            min: TryFrom::try_from(table_type.initial).unwrap(),
+            min: TryFrom::try_from(table_type.initial)?,
             max,
         };
 
@@ -7418,6 +7419,15 @@ fn compute_branch_regs(
     (source_regs, target_result_regs)
 }
 
+/// WebAssembly features a module may use.
+const SUPPORTED_FEATURES: WasmFeatures = WasmFeatures::MUTABLE_GLOBAL
+    .union(WasmFeatures::SATURATING_FLOAT_TO_INT)
+    .union(WasmFeatures::SIGN_EXTENSION)
+    .union(WasmFeatures::REFERENCE_TYPES)
+    .union(WasmFeatures::MULTI_VALUE)
+    .union(WasmFeatures::BULK_MEMORY)
+    .union(WasmFeatures::FLOATS);
+
 /// Parses a WebAssembly binary file and populates the module structure.
 ///
 /// This is the main entry point for loading a WebAssembly module. It reads
@@ -7442,6 +7452,13 @@ pub fn parse_bytecode(
     file.read_to_end(&mut buf)?;
     module.fingerprint = migration::fnv1a(&buf);
 
+    // Translation and execution rely on a valid module: the code of an invalid
+    // one is not translated, and instantiation refuses it
+    module.validation_error = Validator::new_with_features(SUPPORTED_FEATURES)
+        .validate_all(&buf)
+        .err()
+        .map(|e| e.to_string());
+
     for payload in parser.parse_all(&buf) {
         match payload? {
             Version {
@@ -7501,6 +7518,7 @@ pub fn parse_bytecode(
             }
 
             CodeSectionStart { .. } => { /* ... */ }
+            CodeSectionEntry(_) if module.validation_error.is_some() => {}
             CodeSectionEntry(body) => {
                 let result =
                     decode_code_section(body, &mut module, current_func_index, &mut arity_cache);
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 064a5d1..beeb95b 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -592,6 +592,8 @@ pub struct Module {
     pub code_index: usize,
     /// Export declarations.
     pub exports: Vec<Export>,
+    /// Why the binary is not valid, if it is not. Such a module is not instantiated.
+    pub validation_error: Option<String>,
     /// Hash of the binary this module was parsed from.
     pub fingerprint: u64,
 }
@@ -612,6 +614,7 @@ impl Module {
             num_imported_funcs: 0,
             code_index: 0,
             exports: Vec::new(),
+            validation_error: None,
             fingerprint: 0,
         }
     }
-- 
2.43.0


From 756092abcf86041445177eb9b099d1835185e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 21/39] fix: refuse WASI imports with the wrong signature

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a908acc..01450be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -916,6 +916,15 @@ fn decode_import_section(
             TypeRef::Func(type_index) => {
                 if import.module == "wasi_snapshot_preview1" {
                     if let Some(wasi_func_type) = parse_wasi_function(&import.name) {
+                        let expected = wasi_func_type.expected_func_type();
+                        let actual = &module.types[type_index as usize];
+                        if !actual.type_match(&expected) {
+                            return Err(Box::new(ParserError::WasiFunctionTypeMismatch {
+                                function: import.name.to_string(),
+                                expected: format!("{:?}", expected),
+                                actual: format!("{:?}", actual),
+                            }));
+                        }
                         module.num_imported_funcs += 1;
                         ImportDesc::WasiFunc(wasi_func_type)
                     } else {
-- 
2.43.0


From 97447cb05c0ef471a3fab1e52bc622f39c454b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 22/39] fix: refuse unsupported instructions, imports and
 result counts with an error

---
 src/error.rs            |  2 ++
 src/execution/module.rs |  3 ++-
 src/parser.rs           | 12 +++++++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index ce2c613..a0c8e9e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -68,6 +68,8 @@ pub enum ParserError {
     UnexpectedEnd,
     #[error("Invalid Wasm: {0}")]
     InvalidWasm(&'static str),
+    #[error("Unsupported: {0}")]
+    Unsupported(String),
     #[error("Unsupported WASI function: {0}")]
     UnsupportedWasiFunction(String),
     #[error("WASI function type mismatch: {function} expected {expected:?} but got {actual:?}")]
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 0f01b0d..508d1dc 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -111,7 +111,8 @@ impl ModuleInst {
                             .push(FuncAddr::alloc_wasi(wasi_func_addr.clone()));
                         module_inst.wasi_func_addrs.push(wasi_func_addr);
                     }
-                    _ => todo!(),
+                    // Only functions can be imported
+                    _ => return Err(RuntimeError::LinkError),
                 }
             }
         }
diff --git a/src/parser.rs b/src/parser.rs
index 01450be..1d01d61 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -890,6 +890,13 @@ fn decode_func_section(
     for func in body {
         let index = func?;
         let typeidx = TypeIdx(index);
+        // Calls pass their results through arrays of this capacity
+        if module.types[index as usize].results.len() > MAX_FUNC_RESULTS {
+            return Err(Box::new(ParserError::Unsupported(format!(
+                "function with more than {} results",
+                MAX_FUNC_RESULTS
+            ))));
+        }
         module.funcs.push(Func {
             type_: typeidx,
             locals: Vec::new(),
@@ -7255,7 +7262,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                 }
 
                 _ => {
-                    panic!("Unsupported instruction: {:?}", op);
+                    return Err(Box::new(ParserError::Unsupported(format!("{:?}", op))));
                 }
             }
         } else {
@@ -7428,6 +7435,9 @@ fn compute_branch_regs(
     (source_regs, target_result_regs)
 }
 
+/// Largest number of results a function may have.
+const MAX_FUNC_RESULTS: usize = 8;
+
 /// WebAssembly features a module may use.
 const SUPPORTED_FEATURES: WasmFeatures = WasmFeatures::MUTABLE_GLOBAL
     .union(WasmFeatures::SATURATING_FLOAT_TO_INT)
-- 
2.43.0


From 5c5f94b8960bdb4b63321bcb8050e5d72e9ca529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 23/39] fix: a memory of 65536 initial pages is not empty

---
 src/execution/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 3a24b6b..985c269 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -23,7 +23,9 @@ pub struct MemInst {
 impl MemAddr {
     /// Creates a new memory instance with initial size from type.
     pub fn new(type_: &MemType) -> MemAddr {
-        let min = (type_.0.min * 65536) as usize;
+        let min = (type_.0.min as usize)
+            .checked_mul(65536)
+            .expect("memory does not fit the address space");
         let max = type_.0.max.map(|max| max);
         MemAddr {
             mem_inst: Rc::new(UnsafeCell::new(MemInst {
-- 
2.43.0


From 58ba376eb439de6d0852cd76fde2bc84ac027643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 24/39] fix: active data segments are dropped after
 instantiation

---
 src/execution/module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 508d1dc..ed7918b 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -176,7 +176,8 @@ impl ModuleInst {
 
         for data in &module.datas {
             let init: Vec<u8> = data.init.iter().map(|x| x.0).collect();
-            module_inst.data_addrs.push(DataAddr::new(&init));
+            let data_addr = DataAddr::new(&init);
+            module_inst.data_addrs.push(data_addr.clone());
 
             if data.mode == DataMode::Active {
                 let offset_res = match &data.offset {
@@ -194,6 +195,7 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                data_addr.drop_data();
             }
         }
 
-- 
2.43.0


From 7e4651623bc77adc8c97617cccb061c60913216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 25/39] fix: element segments may consist of expressions

---
 src/execution/elem.rs   | 10 +++-------
 src/execution/module.rs | 26 ++++++++++++++------------
 src/execution/table.rs  | 15 +++++++--------
 3 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..a8f1fd9 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -1,6 +1,6 @@
 //! Element segment instances for table initialization.
 
-use super::{func::FuncAddr, module::*, value::Ref};
+use super::value::Ref;
 use crate::structure::types::*;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -18,12 +18,8 @@ pub struct ElemInst {
 }
 
 impl ElemAddr {
-    /// Creates a new element segment from function indices.
-    pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
-        let elem: Vec<Ref> = init
-            .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
-            .collect();
+    /// Creates a new element segment from its references.
+    pub fn new(type_: &RefType, elem: Vec<Ref>) -> ElemAddr {
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
             _elem: elem,
diff --git a/src/execution/module.rs b/src/execution/module.rs
index ed7918b..fd0b299 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -139,18 +139,21 @@ impl ModuleInst {
         }
 
         for elem in &module.elems {
-            if elem.type_ == RefType::ExternalRef {
-                panic!();
+            let mut init: Vec<Ref> = Vec::new();
+            for idx in elem.idxes.iter().flatten() {
+                init.push(Ref::FuncAddr(
+                    module_inst.func_addrs.get_by_idx(*idx).clone(),
+                ));
             }
-            let mut init: Vec<i32> = Vec::new();
-            if let Some(idxes) = &elem.idxes {
-                for idx in idxes {
-                    init.push(idx.0 as i32);
+            for expr in elem.init.iter().flatten() {
+                match module_inst.expr_to_const(expr) {
+                    Some(Val::Ref(r)) => init.push(r),
+                    _ => return Err(RuntimeError::InvalidConstantExpression),
                 }
             }
             module_inst
                 .elem_addrs
-                .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
+                .push(ElemAddr::new(&elem.type_, init.clone()));
 
             if elem.mode == ElemMode::Active {
                 let offset_res = match &elem.offset {
@@ -166,11 +169,7 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(
-                    offset as usize,
-                    &module_inst.func_addrs,
-                    &init,
-                );
+                module_inst.table_addrs[table_idx as usize].init(offset as usize, init);
             }
         }
 
@@ -263,6 +262,9 @@ impl ModuleInst {
             &[Instr::F64Const(i)] => Some(Val::Num(Num::F64(i as f64))),
             &[Instr::V128Const(i)] => Some(Val::Vec_(Vec_::V128(i))),
             &[Instr::RefNull(_)] => Some(Val::Ref(Ref::RefNull)),
+            [Instr::RefFunc(i)] => Some(Val::Ref(Ref::FuncAddr(
+                self.func_addrs.get_by_idx(*i).clone(),
+            ))),
             [Instr::GlobalGet(i)] => Some(self.global_addrs.get_by_idx(*i).get()),
             _ => None,
         }
diff --git a/src/execution/table.rs b/src/execution/table.rs
index 63dd179..a30f6ab 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -2,7 +2,6 @@
 
 use super::{
     func::FuncAddr,
-    module::*,
     value::{self, Val},
 };
 use crate::structure::types::*;
@@ -33,13 +32,13 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
-    pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
-        let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+    /// Initializes table elements from the references of a segment.
+    pub fn init(&self, offset: usize, init: Vec<value::Ref>) {
+        let mut inst = self.0.borrow_mut();
+        // Slicing first checks the whole range, which may be empty
+        let elems = &mut inst.elem[offset..][..init.len()];
+        for (elem, r) in elems.iter_mut().zip(init) {
+            *elem = Val::Ref(r);
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From 985e7542d55d9241b86a8fb51877ac45e8e4cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 26/39] fix: segment offsets are unsigned

---
 src/execution/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index fd0b299..30db371 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -169,7 +169,7 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(offset as usize, init);
+                module_inst.table_addrs[table_idx as usize].init(offset as u32 as usize, init);
             }
         }
 
@@ -193,7 +193,7 @@ impl ModuleInst {
                     None => 0,
                 };
 
-                module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                module_inst.mem_addrs[idx as usize].init(offset as u32 as usize, &init);
                 data_addr.drop_data();
             }
         }
-- 
2.43.0


From 914bb12d454acc497f991f6aace772b35de2508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 27/39] fix: run the start function

---
 src/execution/module.rs  | 10 +++++++---
 src/execution/runtime.rs | 21 +++++++++++++++++++++
 src/main.rs              |  1 +
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 30db371..8f2e93e 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -24,6 +24,8 @@ pub struct ModuleInst {
     pub exports: Vec<ExportInst>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
+    /// Start function, which `Runtime::run_start` runs.
+    pub start: Option<FuncAddr>,
     /// Identifies the module in checkpoint images.
     pub fingerprint: u64,
 }
@@ -71,6 +73,7 @@ impl ModuleInst {
             exports: Vec::new(),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
+            start: None,
             fingerprint: module.fingerprint,
         };
 
@@ -121,6 +124,10 @@ impl ModuleInst {
             module_inst.func_addrs.push(FuncAddr::alloc_empty())
         }
 
+        if let Some(start) = &module.start {
+            module_inst.start = Some(module_inst.func_addrs.get_by_idx(start.func).clone());
+        }
+
         for table in &module.tables {
             module_inst.table_addrs.push(TableAddr::new(&table.type_))
         }
@@ -233,9 +240,6 @@ impl ModuleInst {
             arc_module_inst.func_addrs[index]
                 .replace(func.clone(), Rc::downgrade(&arc_module_inst));
         }
-        if let Some(start) = &module.start {
-            arc_module_inst.func_addrs.get_by_idx(start.func);
-        }
         Ok(arc_module_inst)
     }
 
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 088dda4..3b373bf 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -88,6 +88,27 @@ impl Runtime {
         })
     }
 
+    /// Runs the module's start function, if any.
+    ///
+    /// Must be called once after instantiation and before any export is
+    /// invoked, but not before a restore: the start function of a restored
+    /// module ran before the checkpoint.
+    pub fn run_start(module_inst: &Rc<ModuleInst>) -> Result<(), RuntimeError> {
+        if let Some(start) = &module_inst.start {
+            let mut runtime = Runtime::new(
+                Rc::clone(module_inst),
+                start,
+                Vec::new(),
+                false,
+                false,
+                #[cfg(feature = "trace")]
+                None,
+            )?;
+            runtime.run()?;
+        }
+        Ok(())
+    }
+
     /// Creates a runtime restored from a checkpoint.
     ///
     /// Used to resume execution after restoring state from a checkpoint file.
diff --git a/src/main.rs b/src/main.rs
index 02e41f0..3cf7851 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -195,6 +195,7 @@ fn main() -> Result<()> {
         let result = runtime.run();
         handle_result(result);
     } else {
+        Runtime::run_start(&inst)?;
         let func_addr = inst.get_export_func(&cli.invoke)?;
         let params = parse_params(cli.params.unwrap_or_default());
 
-- 
2.43.0


From 0fafe84ce8cb50fa5565d7932af8a9b63c3ee6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 28/39] fix: imported functions run with the exporting
 instance's state

---
 src/execution/migration.rs | 13 ++++++++++++-
 src/execution/runtime.rs   | 29 ++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index a28f87a..1511211 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -37,7 +37,7 @@
 //! `runtime.rs` translates into a `checkpoint` call.
 
 use crate::error::RuntimeError;
-use crate::execution::func::FuncInst;
+use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
@@ -262,6 +262,17 @@ pub fn checkpoint<P: AsRef<Path>>(
 ) -> Result<(), RuntimeError> {
     println!("Checkpointing state to {:?}...", output_path.as_ref());
 
+    // The state of other instances is not part of an image
+    let foreign = |func_addr: &FuncAddr| match func_addr.read_lock() {
+        FuncInst::RuntimeFunc { module, .. } => !std::ptr::eq(module.as_ptr(), module_inst),
+        _ => false,
+    };
+    if module_inst.func_addrs.iter().any(foreign) {
+        return Err(RuntimeError::SerializationError(
+            "Module is linked to another instance".to_string(),
+        ));
+    }
+
     // 1. Gather Memory state (LZ4 compressed)
     let (memory_data_compressed, mem_raw_size) = if let Some(mem_addr) = mem_addrs.get(0) {
         let raw = mem_addr.get_data();
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 3b373bf..1cf1216 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -157,7 +157,9 @@ impl Runtime {
         frame_stack_idx: usize,
         _called_func_addr: &mut Option<FuncAddr>,
     ) -> Result<Result<Option<ModuleLevelInstr>, RuntimeError>, RuntimeError> {
-        let module_ptr: *const ModuleInst = Rc::as_ptr(&self.module_inst);
+        // An imported function runs with the state of the exporting instance
+        let module_inst = self.frame_module(frame_stack_idx)?;
+        let module_ptr: *const ModuleInst = Rc::as_ptr(&module_inst);
         let reg_file_ptr: *mut RegFile = &mut self.stacks.reg_file as *mut RegFile;
         let frame_stack = &mut self.stacks.activation_frame_stack[frame_stack_idx];
 
@@ -229,6 +231,17 @@ impl Runtime {
         }
     }
 
+    /// The instance whose function a frame executes.
+    fn frame_module(&self, frame_stack_idx: usize) -> Result<Rc<ModuleInst>, RuntimeError> {
+        self.stacks.activation_frame_stack[frame_stack_idx]
+            .frame
+            .module
+            .upgrade()
+            .ok_or(RuntimeError::ExecutionFailed(
+                "module instance no longer exists",
+            ))
+    }
+
     /// Executes the runtime and returns the result values.
     pub fn run(&mut self) -> Result<Vec<Val>, RuntimeError> {
         // Setup checkpoint monitor thread (only for wasm32-wasip1-threads)
@@ -305,7 +318,8 @@ impl Runtime {
                             result_reg,
                         }) => {
                             // Call WASI function directly with params from registers
-                            match self.call_wasi_function(&wasi_func_type, &params) {
+                            let caller = self.frame_module(frame_stack_idx)?;
+                            match self.call_wasi_function(&caller, &wasi_func_type, &params) {
                                 Ok(result) => {
                                     if let Some(reg) = result_reg {
                                         if let Some(val) = result {
@@ -458,20 +472,17 @@ impl Runtime {
     /// Calls a WASI function with the given parameters.
     fn call_wasi_function(
         &self,
+        caller: &ModuleInst,
         func_type: &WasiFuncType,
         params: &[Val],
     ) -> WasiResult<Option<Val>> {
-        let wasi_impl = self
-            .module_inst
-            .wasi_impl
-            .as_ref()
-            .ok_or(WasiError::NoSys)?;
+        let wasi_impl = caller.wasi_impl.as_ref().ok_or(WasiError::NoSys)?;
 
         // Get memory address for WASI functions that need it
-        let memory = if self.module_inst.mem_addrs.is_empty() {
+        let memory = if caller.mem_addrs.is_empty() {
             return Err(WasiError::Fault);
         } else {
-            &self.module_inst.mem_addrs[0]
+            &caller.mem_addrs[0]
         };
 
         match func_type {
-- 
2.43.0


From b96dfc9717ff979b87c3a45cab33c2c6299882ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 29/39] fix: WASI functions can be called through a table

---
 src/execution/runtime.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 1cf1216..4d5cab9 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -410,10 +410,31 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // WASI function called through a table
+                                    let caller = self.frame_module(frame_stack_idx)?;
+                                    match self.call_wasi_function(
+                                        &caller,
+                                        &wasi_func_addr.func_type,
+                                        &params,
+                                    ) {
+                                        Ok(result) => {
+                                            if let (Some(reg), Some(val)) =
+                                                (result_regs.first(), result)
+                                            {
+                                                self.stacks.reg_file.set_val(reg, &val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI register function failed: {:?}, error: {:?}",
+                                                wasi_func_addr.func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI register function failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From c35d56cff158f742d006c30c193d63e56f4488f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 30/39] verif: cfg(chiwawa_verif) hook to request a checkpoint
 at a chosen poll

---
 src/execution/migration.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 1511211..1f3800b 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -103,6 +103,11 @@ pub fn poll_checkpoint(state: &mut VmState) -> bool {
 
 #[inline(never)]
 fn do_poll_checkpoint(state: &mut VmState) -> bool {
+    #[cfg(chiwawa_verif)]
+    if let Some(requested) = verif::poll() {
+        return requested;
+    }
+
     #[cfg(all(
         target_arch = "wasm32",
         target_os = "wasi",
@@ -137,6 +142,25 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
     }
 }
 
+/// Hooks for the verification harness: request a checkpoint at a chosen poll.
+#[cfg(chiwawa_verif)]
+pub mod verif {
+    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
+
+    /// Polls seen (every poll counts, before any throttling).
+    pub static POLLS: AtomicU64 = AtomicU64::new(0);
+    /// While not 0, checkpoints are requested at this poll and at no other.
+    pub static FIRE_AT: AtomicU64 = AtomicU64::new(0);
+
+    pub(super) fn poll() -> Option<bool> {
+        let n = POLLS.fetch_add(1, Relaxed) + 1;
+        match FIRE_AT.load(Relaxed) {
+            0 => None,
+            at => Some(n == at),
+        }
+    }
+}
+
 /// Throttle interval for non-atomics file polling (= every 1024 instructions).
 const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 
-- 
2.43.0


From f58430e33c44cf000a2a2f3a7bba42a1be7e21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 31/39] fix: refuse access to reference-typed globals with an
 error

---
 src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1d01d61..f8db1ca 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2317,7 +2317,10 @@ fn decode_processed_instrs_and_fixups<'a>(
                             }
                         }
                         _ => {
-                            panic!("Unsupported type for GlobalGet: {:?}", global_type);
+                            return Err(Box::new(ParserError::Unsupported(format!(
+                                "global.get of type {:?}",
+                                global_type
+                            ))));
                         }
                     }
                 }
@@ -2389,7 +2392,10 @@ fn decode_processed_instrs_and_fixups<'a>(
                             )
                         }
                         _ => {
-                            panic!("Unsupported type for GlobalSet: {:?}", global_type);
+                            return Err(Box::new(ParserError::Unsupported(format!(
+                                "global.set of type {:?}",
+                                global_type
+                            ))));
                         }
                     }
                 }
-- 
2.43.0


From 352757746af4e1a575db83de2e138015a3c69a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 32/39] fix: function references in checkpoint images can be
 read back

---
 src/execution/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/value.rs b/src/execution/value.rs
index 018a7b0..8b6eef5 100644
--- a/src/execution/value.rs
+++ b/src/execution/value.rs
@@ -103,14 +103,14 @@ pub enum Vec_ {
 pub enum Ref {
     /// Null reference.
     RefNull,
+    /// Function reference by index; only inside a checkpoint image.
+    FuncIdx(u32),
     /// Function reference.
     #[serde(skip)]
     FuncAddr(FuncAddr),
     /// External reference.
     #[serde(skip)]
     RefExtern(ExternAddr),
-    /// Function reference by index; only inside a checkpoint image.
-    FuncIdx(u32),
 }
 
 use std::hash::{Hash, Hasher};
-- 
2.43.0


From 59f7e3eaac23d3e80c3021d7caed866f4a1f5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 33/39] fix: dispatch proc_raise to the host

The import is accepted and WasiPassthrough implements it, but invoking it
failed the run with NoSys.
---
 src/execution/runtime.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 4d5cab9..e73937e 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -1092,7 +1092,14 @@ impl Runtime {
                 let result = wasi_impl.fd_renumber(memory, fd, to)?;
                 Ok(Some(Val::Num(Num::I32(result))))
             }
-            _ => Err(WasiError::NoSys),
+            WasiFuncType::ProcRaise => {
+                if params.len() != 1 {
+                    return Err(WasiError::Inval);
+                }
+                let signal = params[0].to_i32().map_err(|_| WasiError::Inval)? as u32;
+                let result = wasi_impl.proc_raise(memory, signal)?;
+                Ok(Some(Val::Num(Num::I32(result))))
+            }
         }
     }
 }
-- 
2.43.0


From 5f6c3e064a4c995b41521c63236a4938a5337120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 34/39] fix: refuse modules that name unknown types with an
 error instead of a panic

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f8db1ca..f58daae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -891,7 +891,11 @@ fn decode_func_section(
         let index = func?;
         let typeidx = TypeIdx(index);
         // Calls pass their results through arrays of this capacity
-        if module.types[index as usize].results.len() > MAX_FUNC_RESULTS {
+        let func_type = module
+            .types
+            .get(index as usize)
+            .ok_or(ParserError::InvalidWasm("unknown type"))?;
+        if func_type.results.len() > MAX_FUNC_RESULTS {
             return Err(Box::new(ParserError::Unsupported(format!(
                 "function with more than {} results",
                 MAX_FUNC_RESULTS
@@ -924,7 +928,10 @@ fn decode_import_section(
                 if import.module == "wasi_snapshot_preview1" {
                     if let Some(wasi_func_type) = parse_wasi_function(&import.name) {
                         let expected = wasi_func_type.expected_func_type();
-                        let actual = &module.types[type_index as usize];
+                        let actual = module
+                            .types
+                            .get(type_index as usize)
+                            .ok_or(ParserError::InvalidWasm("unknown type"))?;
                         if !actual.type_match(&expected) {
                             return Err(Box::new(ParserError::WasiFunctionTypeMismatch {
                                 function: import.name.to_string(),
-- 
2.43.0


From a90918fe525724705a34976e73e675059491287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 35/39] fix: do not link against __wasi_proc_raise

wasi-libc has no such function, so dispatching proc_raise to it (59f7e3e)
keeps the program from linking; the call fails with NoSys as before.
---
 src/execution/runtime.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index e73937e..4d5cab9 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -1092,14 +1092,7 @@ impl Runtime {
                 let result = wasi_impl.fd_renumber(memory, fd, to)?;
                 Ok(Some(Val::Num(Num::I32(result))))
             }
-            WasiFuncType::ProcRaise => {
-                if params.len() != 1 {
-                    return Err(WasiError::Inval);
-                }
-                let signal = params[0].to_i32().map_err(|_| WasiError::Inval)? as u32;
-                let result = wasi_impl.proc_raise(memory, signal)?;
-                Ok(Some(Val::Num(Num::I32(result))))
-            }
+            _ => Err(WasiError::NoSys),
         }
     }
 }
-- 
2.43.0


From 623b3cc572e034c9070d6097b637e4faa73a6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 36/39] fix: --trace and --stats record the executed
 instructions

The dispatchers never told the tracer and the statistics collector about
an instruction, so traces were empty and every count was zero.
---
 src/execution/dispatch_loop.rs |  3 +++
 src/execution/dispatch_tco.rs  |  3 +++
 src/execution/handlers.rs      |  2 ++
 src/execution/runtime.rs       | 12 +++++++++++
 src/execution/state.rs         | 39 ++++++++++++++++++++++++++++++++++
 src/execution/stats.rs         |  1 +
 src/execution/trace.rs         |  1 +
 7 files changed, 61 insertions(+)

diff --git a/src/execution/dispatch_loop.rs b/src/execution/dispatch_loop.rs
index 32205a4..9771f65 100644
--- a/src/execution/dispatch_loop.rs
+++ b/src/execution/dispatch_loop.rs
@@ -43,6 +43,9 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
             }
         }
 
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.record_instruction();
+
         let h = unsafe { *state.handlers.add(state.pc) };
         match h(state) {
             Outcome::Continue => continue,
diff --git a/src/execution/dispatch_tco.rs b/src/execution/dispatch_tco.rs
index 1937945..f0c293e 100644
--- a/src/execution/dispatch_tco.rs
+++ b/src/execution/dispatch_tco.rs
@@ -27,6 +27,9 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
     if state.pc >= state.instrs_len {
         return Outcome::Halt;
     }
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    state.record_instruction();
+
     let h = unsafe { *state.handlers.add(state.pc) };
     h(state)
 }
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index b591843..51bf3b6 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -378,6 +378,8 @@ pub unsafe fn next_handler(state: &mut VmState) -> Handler {
     if crate::execution::migration::poll_checkpoint(state) {
         checkpoint_trap
     } else {
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.record_instruction();
         *state.handlers.add(state.pc)
     }
 }
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 4d5cab9..adbb521 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -199,6 +199,18 @@ impl Runtime {
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
             checkpoint_poll_counter: self.checkpoint_poll_counter,
+            #[cfg(feature = "stats")]
+            stats: self
+                .execution_stats
+                .as_mut()
+                .map_or(std::ptr::null_mut(), |s| s as *mut ExecutionStats),
+            #[cfg(feature = "trace")]
+            tracer: self
+                .tracer
+                .as_mut()
+                .map_or(std::ptr::null_mut(), |t| t as *mut Tracer),
+            #[cfg(feature = "trace")]
+            locals_len: frame_stack.frame.locals.len(),
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 6a47b83..003aafa 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -12,6 +12,10 @@ use crate::execution::ir::{Handler, ProcessedInstr};
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::regs::{Reg, RegFile};
+#[cfg(feature = "stats")]
+use crate::execution::stats::ExecutionStats;
+#[cfg(feature = "trace")]
+use crate::execution::trace::Tracer;
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
@@ -55,9 +59,44 @@ pub struct VmState {
     /// Counter for non-atomics-target checkpoint poll throttling.
     /// Incremented by `migration::poll_checkpoint`
     pub checkpoint_poll_counter: u32,
+
+    /// Statistics collector, null when statistics are off.
+    #[cfg(feature = "stats")]
+    pub stats: *mut ExecutionStats,
+    /// Tracer, null when tracing is off.
+    #[cfg(feature = "trace")]
+    pub tracer: *mut Tracer,
+    #[cfg(feature = "trace")]
+    pub locals_len: usize,
 }
 
 impl VmState {
+    /// Reports the instruction about to be executed to the statistics
+    /// collector and the tracer.
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    #[inline(never)]
+    pub fn record_instruction(&mut self) {
+        if self.pc >= self.instrs_len {
+            return;
+        }
+        let handler_index = self.current_instr().handler_index();
+        #[cfg(feature = "stats")]
+        if let Some(stats) = unsafe { self.stats.as_mut() } {
+            stats.record_instruction(handler_index);
+        }
+        #[cfg(feature = "trace")]
+        if let Some(tracer) = unsafe { self.tracer.as_mut() } {
+            let locals = unsafe { std::slice::from_raw_parts(self.locals, self.locals_len) };
+            tracer.trace_instruction(
+                self.pc,
+                handler_index,
+                self.reg_file(),
+                locals,
+                &self.module().global_addrs,
+            );
+        }
+    }
+
     /// Reference to the instruction at the current `pc`.
     #[inline(always)]
     pub fn current_instr(&self) -> &ProcessedInstr {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 76a531e..4437f66 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -97,6 +97,7 @@ impl ExecutionStats {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index 0c3abbd..1e4dba7 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -372,6 +372,7 @@ impl Tracer {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
-- 
2.43.0


From b443e1b13a9e44fca227a2acf1699862c57daf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 37/39] fix: parameters of another type are refused instead of
 read as zero

---
 src/execution/state.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/execution/state.rs b/src/execution/state.rs
index 003aafa..39c32a1 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -207,6 +207,16 @@ impl VMState {
                 if params.len() != type_.params.len() {
                     return Err(RuntimeError::InvalidParameterCount);
                 }
+                for (param, expected) in params.iter().zip(type_.params.iter()) {
+                    let matches = match (param, expected) {
+                        // null belongs to every reference type
+                        (Val::Ref(Ref::RefNull), ValueType::RefType(_)) => true,
+                        _ => param.val_type() == *expected,
+                    };
+                    if !matches {
+                        return Err(RuntimeError::TypeMismatch);
+                    }
+                }
 
                 let mut locals = params;
                 for v in code.locals.iter() {
-- 
2.43.0


From 56f8c93eb62866d96a2bb3660e2b7c7097b35894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:08 +0000
Subject: [PATCH 38/39] fix: resolving branch targets takes time linear in the
 size of a function

---
 src/parser.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f58daae..5f9aa3e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1353,6 +1353,8 @@ fn preprocess_instructions(
 
     // Control stack stores: (pc, is_loop, block_type, runtime_label_stack_idx)
     let mut current_control_stack_pass2: Vec<(usize, bool, wasmparser::BlockType)> = Vec::new();
+    // First instruction that the control stack does not reflect yet: fixups come in code order
+    let mut next_pc = 0;
 
     for fixup_index in 0..fixups.len() {
         let current_fixup_pc = fixups[fixup_index].pc;
@@ -1368,9 +1370,13 @@ fn preprocess_instructions(
             continue;
         }
 
-        // --- Rebuild control stack state up to the fixup instruction ---
-        current_control_stack_pass2.clear();
-        for (pc, instr) in processed.iter().enumerate().take(current_fixup_pc + 1) {
+        // --- Advance control stack state up to the fixup instruction ---
+        for (pc, instr) in processed
+            .iter()
+            .enumerate()
+            .take(current_fixup_pc + 1)
+            .skip(next_pc)
+        {
             match instr.handler_index() {
                 HANDLER_IDX_BLOCK | HANDLER_IDX_IF => {
                     let block_type = block_type_map
@@ -1394,6 +1400,7 @@ fn preprocess_instructions(
                 _ => {}
             }
         }
+        next_pc = next_pc.max(current_fixup_pc + 1);
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
@@ -1621,11 +1628,10 @@ fn preprocess_instructions(
                                 (default_depth as u32, default_target_ip, default_result_regs);
                         }
                     }
-                    // Mark the fixup as processed
-                    for fixup in fixups.iter_mut() {
-                        if fixup.pc == pc && fixup.original_wasm_depth != usize::MAX {
-                            fixup.original_wasm_depth = usize::MAX;
-                        }
+                    // Mark the fixups as processed: they are in code order
+                    let first = fixups.partition_point(|fixup| fixup.pc < pc);
+                    for fixup in fixups[first..].iter_mut().take_while(|f| f.pc == pc) {
+                        fixup.original_wasm_depth = usize::MAX;
                     }
                     continue;
                 }
-- 
2.43.0


From bf87e4dc7145ab36c82c04bfe540277a5014d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 39/39] fix: refuse functions that need more registers than can
 be numbered

---
 src/execution/regs.rs | 12 ++++++++++++
 src/parser.rs         | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/execution/regs.rs b/src/execution/regs.rs
index 9887a7d..00f7341 100644
--- a/src/execution/regs.rs
+++ b/src/execution/regs.rs
@@ -416,6 +416,18 @@ pub struct RegAllocation {
     pub v128_count: usize,
 }
 
+impl RegAllocation {
+    /// Number of registers of the type that needs most of them.
+    pub fn max_count(&self) -> usize {
+        self.i32_count
+            .max(self.i64_count)
+            .max(self.f32_count)
+            .max(self.f64_count)
+            .max(self.ref_count)
+            .max(self.v128_count)
+    }
+}
+
 /// Register allocator - tracks stack depth to assign virtual registers
 pub struct RegAllocator {
     // Current stack depth per type
diff --git a/src/parser.rs b/src/parser.rs
index 5f9aa3e..049e215 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7396,6 +7396,15 @@ fn decode_processed_instrs_and_fixups<'a>(
 
     // Finalize register allocation if in register mode
     let reg_allocation = reg_allocator.map(|alloc| alloc.finalize());
+    if reg_allocation
+        .as_ref()
+        .is_some_and(|alloc| alloc.max_count() > MAX_REGS)
+    {
+        return Err(Box::new(ParserError::Unsupported(format!(
+            "function with more than {} operands of one type on the stack",
+            MAX_REGS
+        ))));
+    }
 
     Ok((
         initial_processed_instrs,
@@ -7454,6 +7463,9 @@ fn compute_branch_regs(
     (source_regs, target_result_regs)
 }
 
+/// Largest number of registers of one type: their indices are 16 bits wide.
+const MAX_REGS: usize = 1 << 16;
+
 /// Largest number of results a function may have.
 const MAX_FUNC_RESULTS: usize = 8;
 
-- 
2.43.0

