From 38a3c02992066189371ee138a03356399e82e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 01/12] fix: compare all eight bits of each version byte

---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..794008a 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 8d14a2ab1983015a50ae73cd93aa66ae1dae4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 02/12] fix: reject instructions with a word count of zero

---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 794008a..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From 8825e53728c25d59a5af156cf83cf2de00fd72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:33 +0000
Subject: [PATCH 03/12] fix: reject every undefined bit of bitmask operands

---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..0112300 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -290,6 +290,7 @@ pub enum ReadError {
     UnknownStorageClass(u32),
     UnknownFunctionParameterAttribute(u32),
     UnknownMemoryAccess(u32),
+    UnknownFunctionControl(u32),
     UnknownDim(u32),
     UnknownDepthStatus(u32),
     UnknownArrayed(u32),
@@ -341,6 +342,7 @@ impl Error for ReadError {
             UnknownStorageClass(_) => "unknown storage class",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
             UnknownMemoryAccess(_) => "unknown memory access",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownDim(_) => "unknown image dimension",
             UnknownDepthStatus(_) => "unknown image depth hint",
             UnknownArrayed(_) => "unknown image arrayed status",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From 0763a4fb729b91608a9177b767042d6b8656ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:34 +0000
Subject: [PATCH 04/12] fix: read the alignment literal of an Aligned memory
 access

---
 src/spv/raw/mod.rs |  8 +++++++-
 src/spv/types.rs   | 11 ++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 0112300..17843d0 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -849,9 +849,15 @@ impl MemoryBlockRead for MemoryAccess {
         if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
+        let (block, aligned) = if (memory_access_word & 0x2) != 0 {
+            let (block, alignment) = try!(block.read_word());
+            (block, Some(alignment))
+        } else {
+            (block, None)
+        };
         let memory_access = MemoryAccess {
             volatile: (memory_access_word & 0x1) != 0,
-            aligned: (memory_access_word & 0x2) != 0,
+            aligned: aligned,
             non_temporal: (memory_access_word & 0x4) != 0,
         };
         Ok((block, memory_access))
diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..8a38a0d 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -1106,7 +1106,8 @@ pub struct ImageOperands {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct MemoryAccess {
     pub volatile: bool,
-    pub aligned: bool,
+    /// Alignment in bytes
+    pub aligned: Option<u32>,
     pub non_temporal: bool,
 }
 
@@ -1114,13 +1115,13 @@ impl Display for MemoryAccess {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut parts = Vec::new();
         if self.volatile {
-            parts.push("Volatile");
+            parts.push("Volatile".to_string());
         }
-        if self.aligned {
-            parts.push("Aligned");
+        if let Some(alignment) = self.aligned {
+            parts.push(format!("Aligned({})", alignment));
         }
         if self.non_temporal {
-            parts.push("Nontemporal");
+            parts.push("Nontemporal".to_string());
         }
         if parts.len() == 0 {
             write!(f, "None")
-- 
2.43.0


From 1783a524a1bde49e12e0772feec3c598489b1774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/12] fix: disassemble enumerants with their standard names

---
 src/spv/types.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 8a38a0d..8c0e810 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -236,10 +236,10 @@ impl Display for Decoration {
             Decoration::XfbStride(ref n) => return write!(f, "XfbStride {}", n),
             Decoration::FuncParamAttr(ref foa) => return write!(f, "FuncParamAttr {}", foa),
             Decoration::FpRoundingMode(ref rounding_mode) => {
-                return write!(f, "FpRoundingMode {}", rounding_mode)
+                return write!(f, "FPRoundingMode {}", rounding_mode)
             }
             Decoration::FpFastMathMode(ref fast_math_mode) => {
-                return write!(f, "FpFastMathMode {}", fast_math_mode)
+                return write!(f, "FPFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
                 return write!(f, "LinkageAttributes {} {}", name, lt)
@@ -318,7 +318,7 @@ impl Display for BuiltIn {
             BuiltIn::TessLevelOuter => "TessLevelOuter",
             BuiltIn::TessLevelInner => "TessLevelInner",
             BuiltIn::TessCoord => "TessCoord",
-            BuiltIn::PatchVerticies => "PatchVerticies",
+            BuiltIn::PatchVerticies => "PatchVertices",
             BuiltIn::FragCoord => "FragCoord",
             BuiltIn::PointCoord => "PointCoord",
             BuiltIn::FrontFacing => "FrontFacing",
@@ -423,8 +423,8 @@ impl Display for ExecutionModel {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let name = match *self {
             ExecutionModel::Vertex => "Vertex",
-            ExecutionModel::TesselationControl => "TesselationControl",
-            ExecutionModel::TesselationEvaluation => "TesselationEvaluation",
+            ExecutionModel::TesselationControl => "TessellationControl",
+            ExecutionModel::TesselationEvaluation => "TessellationEvaluation",
             ExecutionModel::Geometry => "Geometry",
             ExecutionModel::Fragment => "Fragment",
             ExecutionModel::GlCompute => "GLCompute",
@@ -503,7 +503,7 @@ impl Display for ExecutionMode {
             ExecutionMode::InputTrianglesAdjacency => "InputTrianglesAdjacency",
             ExecutionMode::Quads => "Quads",
             ExecutionMode::Isolines => "Isolines",
-            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVerticies {}", n),
+            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVertices {}", n),
             ExecutionMode::OutputPoints => "OutputPoints",
             ExecutionMode::OutputLineStrip => "OutputLineStrip",
             ExecutionMode::OutputTriangleStrip => "OutputTriangleStrip",
-- 
2.43.0


From e5cc39c8f9638ad894a74edd9e5f0f62eaf0a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 06/12] fix: quote the name of a LinkageAttributes decoration

---
 src/spv/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 8c0e810..5644661 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FPFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From 4e541662f5c7de3ac808d8a4e21019371bbecaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:38 +0000
Subject: [PATCH 07/12] fix: validate long modules without recursing per
 instruction

---
 src/spv/logical/parser/parser.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..f813ce8 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -93,23 +93,20 @@ enum PhaseResult<'a, T> {
     Err(ValidationError),
 }
 
-fn read_many<T>(insts: OpSlice,
+fn read_many<T>(mut insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From 81880a00650e76143efefce79b88240f329de81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:40 +0000
Subject: [PATCH 08/12] fix: report unsupported merge and branch pairs as
 errors

---
 src/spv/logical/control_flow.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..e2d925f 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,9 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                Some(GroupMerge::OpSelectionMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +370,9 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From b6400457edd85c6437d38cfbd4b4753ba6a0c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:44 +0000
Subject: [PATCH 09/12] fix: stop control-flow recovery on cycles without a
 loop construct

---
 src/spv/logical/control_flow.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index e2d925f..778e72c 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -176,7 +176,7 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, 0));
 
     match next {
         Continue::Return => Ok(chain),
@@ -271,7 +271,8 @@ impl FlowList {
 
 fn search_block(id: BlockId,
                 flow_list: &FlowList,
-                block_map: &BlockMap)
+                block_map: &BlockMap,
+                depth: usize)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
     if flow_list.merges(&id) {
@@ -283,6 +284,12 @@ fn search_block(id: BlockId,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
+    // More blocks on the current path than in the function means that the
+    // branches form a cycle outside of any loop construct
+    if depth >= block_map.len() {
+        return Err(ControlFlowError::CouldNotPredictConverge(id));
+    }
+
     match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
@@ -302,7 +309,7 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, block_map, depth + 1));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
@@ -310,7 +317,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
                         let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                            try!(search_block(after, flow_list, block_map, depth + 1));
 
                         let chain = ControlFlowChain::block(vec![ctc, after_chain]);
 
@@ -320,7 +327,7 @@ fn search_block(id: BlockId,
                     }
                 }
                 None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
+                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth + 1));
 
                     let chain = ControlFlowChain::block(vec![current, next_chain]);
 
@@ -348,9 +355,9 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, block_map, depth + 1));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, block_map, depth + 1));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -360,7 +367,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
                         let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
+                            try!(search_block(merge, flow_list, block_map, depth + 1));
 
                         let chain = ControlFlowChain::block(vec![ctc, next_chain]);
 
@@ -383,7 +390,7 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner = try!(search_block(true_block, &flow_list, block_map, depth + 1));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
-- 
2.43.0


From e105adea3687192b8a16de80c8d3b73c68c45504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 10/12] fix: report every SPIR-V 1.0 opcode left out as
 unimplemented

---
 src/spv/raw/reader.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index f1c0cd6..0d87ec6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -170,6 +170,12 @@ fn read_instruction(stream: &mut Stream,
         31 => OpTypeOpaque::read_core,
         32 => OpTypePointer::read_core,
         33 => OpTypeFunction::read_core,
+        34 => return Err(ReadError::UnimplementedOp("OpTypeEvent")),
+        35 => return Err(ReadError::UnimplementedOp("OpTypeDeviceEvent")),
+        36 => return Err(ReadError::UnimplementedOp("OpTypeReserveId")),
+        37 => return Err(ReadError::UnimplementedOp("OpTypeQueue")),
+        38 => return Err(ReadError::UnimplementedOp("OpTypePipe")),
+        39 => return Err(ReadError::UnimplementedOp("OpTypeForwardPointer")),
         41 => return Err(ReadError::UnimplementedOp("OpConstantTrue")),
         42 => return Err(ReadError::UnimplementedOp("OpConstantFalse")),
         43 => OpConstant::read_core,
@@ -199,6 +205,9 @@ fn read_instruction(stream: &mut Stream,
         70 => return Err(ReadError::UnimplementedOp("OpInBoundsPtrAccessChain")),
         71 => OpDecorate::read_core,
         72 => OpMemberDecorate::read_core,
+        73 => return Err(ReadError::UnimplementedOp("OpDecorationGroup")),
+        74 => return Err(ReadError::UnimplementedOp("OpGroupDecorate")),
+        75 => return Err(ReadError::UnimplementedOp("OpGroupMemberDecorate")),
         77 => return Err(ReadError::UnimplementedOp("OpVectorExtractDynamic")),
         78 => return Err(ReadError::UnimplementedOp("OpVectorInsertDynamic")),
         79 => return Err(ReadError::UnimplementedOp("OpVectorShuffle")),
-- 
2.43.0


From 21d0b24a1d7f905531cfe42d55ff0cc7fc04456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 11/12] fix: report a merge instruction before a return as an
 error

---
 src/spv/logical/control_flow.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 778e72c..72fba86 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -418,8 +418,12 @@ fn search_block(id: BlockId,
             }
         }
         GroupBranch::OpReturn(_) => {
-            // Return block
-            Ok((ControlFlowChain::Atom(id), Continue::Return))
+            match block.merge {
+                // Return block
+                None => Ok((ControlFlowChain::Atom(id), Continue::Return)),
+                // There is nothing to merge after a return
+                Some(_) => Err(ControlFlowError::CouldNotPredictConverge(id)),
+            }
         }
     }
 }
-- 
2.43.0


From 35bc3ba451bbe217603df16403f9a64e0bf74bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:47 +0000
Subject: [PATCH 12/12] fix: constituents of OpCompositeConstruct are ids

---
 src/spv/op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/op.rs b/src/spv/op.rs
index d7ca114..8b341cc 100644
--- a/src/spv/op.rs
+++ b/src/spv/op.rs
@@ -1011,7 +1011,7 @@ def_op_display!(OpVectorShuffle; result_id = result_type | operand1 | operand2 |
 pub struct OpCompositeConstruct {
     pub result_type: OpId,
     pub result_id: ResultId,
-    pub constituents: Vec<MemberIndex>,
+    pub constituents: Vec<OpId>,
 }
 
 def_op_display!(OpCompositeConstruct; result_id = result_type | constituents);
-- 
2.43.0

