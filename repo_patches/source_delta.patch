From 11fb47c961da91163b2623659a496ace720d9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 01/26] fix: link static data up to the end of the address
 space, ignore empty ranges

A range ending at or just below 4 GiB was dropped, the limit computation
overflowed where usize has 32 bits, and an empty range replaced a real one
registered at the same address.
---
 ir/ir.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..b4de92c 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -9,6 +9,7 @@ use frozen::Frozen;
 use std::cmp;
 use std::collections::btree_map;
 use std::collections::{BTreeMap, BTreeSet};
+use std::convert::TryFrom;
 use std::ops;
 use std::slice;
 use std::u32;
@@ -79,9 +80,14 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
-        {
-            self.data.insert(offset as u64, (id, len as u64));
+        let (offset, len) = match (u64::try_from(offset), len as u64) {
+            (Ok(offset), len) if len > 0 => (offset, len),
+            _ => return,
+        };
+        // The whole range must lie within a 32-bit address space.
+        let limit = u64::from(u32::MAX) + 1;
+        if offset < limit && len <= limit - offset {
+            self.data.insert(offset, (id, len));
         }
     }
 
-- 
2.43.0


From 3ce0a91b22c4312d990af44e798eb5e6359fa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 02/26] fix: treat constant addresses in wasm code and data
 segments as unsigned

A load from (or a data segment at) an address above 2 GiB was sign-extended;
adding the load offset then overflowed, and such segments were never linked.
---
 parser/wasm_parse/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..a562ddd 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,12 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // Addresses are unsigned.
+                            let base = u64::from(value as u32);
+                            let data_id = base
+                                .checked_add(memarg.offset)
+                                .and_then(|addr| items.get_data(addr));
+                            if let Some(data_id) = data_id {
                                 edges.push((body_id, data_id));
                             }
                         }
@@ -972,7 +977,8 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    // Addresses are unsigned.
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From a4d844bb2b913499e18144c19e50750020cdca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 03/26] fix: reject malformed wasm modules instead of panicking

Out-of-range function, type, table, memory and global indices, function and
code sections of different lengths, a code section that extends past the end
of the file, and overlapping size claims are errors, not panics.
---
 parser/wasm_parse/mod.rs | 73 ++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index a562ddd..781807d 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Vec<Id>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -15,6 +15,14 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+/// Get the item at the given position of an index space.
+fn lookup(space: &[Id], index: u32, what: &str) -> anyhow::Result<Id> {
+    space
+        .get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("{} index {} is out of bounds", what, index))
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -70,12 +78,13 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        let section_data = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("code section extends past the end of the file"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(section_data, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
@@ -214,8 +223,10 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let size = sizes
                 .get(&idx)
                 .ok_or_else(|| anyhow!("Could not find section size"))?;
-            assert!(added <= *size);
-            items.add_root(ir::Item::new(id, name, size - added, ir::Misc::new()));
+            let header_size = size
+                .checked_sub(added)
+                .ok_or_else(|| anyhow!("entries of a section are larger than the section"))?;
+            items.add_root(ir::Item::new(id, name, header_size, ir::Misc::new()));
         }
 
         Ok(())
@@ -256,8 +267,14 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        indices.types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Id::entry(*idx, i),
+                            // Other types have no item of their own.
+                            _ => Id::section(*idx),
+                        });
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -500,6 +517,10 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
 
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            Err(anyhow!("function and code sections have different lengths"))?;
+        }
+
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
             .enumerate()
@@ -539,8 +560,10 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         let func_section_size = func_section.byte_size as u32;
         let size = code_section_size + func_section_size;
 
-        assert!(added <= size);
-        items.add_root(ir::Item::new(id, name, size - added, ir::Misc::new()));
+        let header_size = size
+            .checked_sub(added)
+            .ok_or_else(|| anyhow!("functions are larger than their sections"))?;
+        items.add_root(ir::Item::new(id, name, header_size, ir::Misc::new()));
 
         Ok(())
     }
@@ -561,12 +584,10 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
-                if let Some(code_idx) = indices.code {
-                    let body_id = Id::entry(code_idx, func_i);
-                    edges.push((body_id, type_id));
-                }
+            let type_id = lookup(&indices.types, type_ref, "type")?;
+            if let Some(code_idx) = indices.code {
+                let body_id = Id::entry(code_idx, func_i);
+                edges.push((body_id, type_id));
             }
         }
 
@@ -580,7 +601,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index, "function")?;
                         edges.push((body_id, f_id));
                     }
 
@@ -590,7 +611,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index, "global")?;
                         edges.push((body_id, g_id));
                     }
 
@@ -860,16 +881,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index, "function")?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index, "table")?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index, "memory")?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index, "global")?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -903,7 +924,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index, "function")?,
         );
         Ok(())
     }
@@ -935,7 +956,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index, "table")?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -944,7 +965,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx, "function")?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From 58cec0979d457d4cddae7d053fb7efa9d39de04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 04/26] fix: record references made by tail calls, ref.func,
 bulk operations and initializers

Functions only used through return_call, ref.func or an initializer, and
passive segments used by memory.init and table.init, had no incoming
references, so they were reported as garbage and missing from paths.
---
 parser/wasm_parse/mod.rs | 87 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 8 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 781807d..4892522 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -13,6 +13,8 @@ pub struct SectionIndices {
     tables: Vec<Id>,
     memories: Vec<Id>,
     globals: Vec<Id>,
+    elements: Vec<Id>,
+    datas: Vec<Id>,
 }
 
 /// Get the item at the given position of an index space.
@@ -23,6 +25,27 @@ fn lookup(space: &[Id], index: u32, what: &str) -> anyhow::Result<Id> {
         .ok_or_else(|| anyhow!("{} index {} is out of bounds", what, index))
 }
 
+/// Add edges from the item to everything its initialization expression uses.
+fn add_init_expr_edges(
+    items: &mut ir::ItemsBuilder,
+    id: Id,
+    init_expr: &wasmparser::InitExpr<'_>,
+    indices: &SectionIndices,
+) -> anyhow::Result<()> {
+    for op in init_expr.get_operators_reader() {
+        match op? {
+            Operator::GlobalGet { global_index } => {
+                items.add_edge(id, lookup(&indices.globals, global_index, "global")?);
+            }
+            Operator::RefFunc { function_index } => {
+                items.add_edge(id, lookup(&indices.functions, function_index, "function")?);
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -316,6 +339,18 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                         indices.tables.push(id);
                     }
                 }
+                wasmparser::Payload::ElementSection(reader) => {
+                    for i in 0..reader.get_count() {
+                        let id = Id::entry(*idx, i as usize);
+                        indices.elements.push(id);
+                    }
+                }
+                wasmparser::Payload::DataSection(reader) => {
+                    for i in 0..reader.get_count() {
+                        let id = Id::entry(*idx, i as usize);
+                        indices.datas.push(id);
+                    }
+                }
                 wasmparser::Payload::CodeSectionStart { .. } => {
                     Err(anyhow!("unexpected code section"))?
                 }
@@ -369,7 +404,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                     reader.parse_edges(items, ())?;
                 }
                 wasmparser::Payload::GlobalSection(mut reader) => {
-                    reader.parse_edges(items, ())?;
+                    reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::ExportSection(mut reader) => {
                     reader.parse_edges(items, (&indices, idx))?;
@@ -385,7 +420,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                     reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::DataSection(mut reader) => {
-                    reader.parse_edges(items, ())?;
+                    reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::CodeSectionStart { .. }
                 | wasmparser::Payload::FunctionSection { .. } => {
@@ -600,7 +635,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             for op in body.get_operators_reader()? {
                 let prev = cache.take();
                 match op? {
-                    Operator::Call { function_index } => {
+                    Operator::Call { function_index }
+                    | Operator::ReturnCall { function_index }
+                    | Operator::RefFunc { function_index } => {
                         let f_id = lookup(&indices.functions, function_index, "function")?;
                         edges.push((body_id, f_id));
                     }
@@ -615,6 +652,16 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                         edges.push((body_id, g_id));
                     }
 
+                    Operator::MemoryInit { segment, .. } => {
+                        let data_id = lookup(&indices.datas, segment, "data segment")?;
+                        edges.push((body_id, data_id));
+                    }
+
+                    Operator::TableInit { segment, .. } => {
+                        let elem_id = lookup(&indices.elements, segment, "element segment")?;
+                        edges.push((body_id, elem_id));
+                    }
+
                     Operator::I32Load { memarg }
                     | Operator::I32Load8S { memarg }
                     | Operator::I32Load8U { memarg }
@@ -849,9 +896,18 @@ impl<'a> Parse<'a> for wasmparser::GlobalSectionReader<'a> {
         Ok(())
     }
 
-    type EdgesExtra = ();
+    type EdgesExtra = (&'a SectionIndices, usize);
+
+    fn parse_edges(
+        &mut self,
+        items: &mut ir::ItemsBuilder,
+        (indices, idx): Self::EdgesExtra,
+    ) -> anyhow::Result<()> {
+        for (i, g) in iterate_with_size(self).enumerate() {
+            let (g, _size) = g?;
+            add_init_expr_edges(items, Id::entry(idx, i), &g.init_expr, indices)?;
+        }
 
-    fn parse_edges(&mut self, _: &mut ir::ItemsBuilder, _: ()) -> anyhow::Result<()> {
         Ok(())
     }
 }
@@ -955,8 +1011,12 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
             let elem_id = Id::entry(idx, i);
 
             match elem.kind {
-                wasmparser::ElementKind::Active { table_index, .. } => {
+                wasmparser::ElementKind::Active {
+                    table_index,
+                    init_expr,
+                } => {
                     items.add_edge(lookup(&indices.tables, table_index, "table")?, elem_id);
+                    add_init_expr_edges(items, elem_id, &init_expr, indices)?;
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -1013,9 +1073,20 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
         Ok(())
     }
 
-    type EdgesExtra = ();
+    type EdgesExtra = (&'a SectionIndices, usize);
+
+    fn parse_edges(
+        &mut self,
+        items: &mut ir::ItemsBuilder,
+        (indices, idx): Self::EdgesExtra,
+    ) -> anyhow::Result<()> {
+        for (i, d) in iterate_with_size(self).enumerate() {
+            let (d, _size) = d?;
+            if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
+                add_init_expr_edges(items, Id::entry(idx, i), &init_expr, indices)?;
+            }
+        }
 
-    fn parse_edges(&mut self, _: &mut ir::ItemsBuilder, _: ()) -> anyhow::Result<()> {
         Ok(())
     }
 }
-- 
2.43.0


From 87c6fdb97b9d755283c6e97faeaa3c77cf68e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 05/26] fix: escape backslashes and control characters in JSON
 strings

Names containing them made the JSON reports invalid or changed the names.
---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..6b32231 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", c as u32)?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 0dfecb5544d98fb59221a19a64030681b9c79aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 06/26] fix: do not repeat a self-referencing item in its own
 paths

An item was only marked as being on the current path after its callers had
been listed, so a recursive function appeared as its own caller, and was
unmarked too early, so that it could appear again further up.
---
 analyze/analyses/paths/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..5e08ff5 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // neither its children nor their descendants repeat it.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +131,7 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child. Collect these into a `children` vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0


From cef84180844353e6dc01dec7abf3a7516160dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 07/26] fix: only follow the paths that will be shown

The paths analysis enumerated every simple path regardless of the depth and
path limits, which is exponential: a module with forty mutually recursive
functions never finished.
---
 analyze/analyses/paths/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 5e08ff5..61017d3 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -102,6 +102,7 @@ fn create_entry(
     id: ir::Id,
     items: &ir::Items,
     opts: &opt::Paths,
+    depth: u32,
     seen: &mut BTreeSet<ir::Id>,
 ) -> PathsEntry {
     // Determine the item's name and size.
@@ -132,9 +133,22 @@ fn create_entry(
     };
 
     // Create an entry for each child. Collect these into a `children` vector.
+    // Only the paths that will be emitted are followed further, because the
+    // number of all paths can be exponential in the number of items.
     let children = children_ids
         .into_iter()
-        .map(|id| create_entry(id, items, opts, seen))
+        .enumerate()
+        .map(|(i, id)| {
+            if depth < opts.max_depth() && i < opts.max_paths() as usize {
+                create_entry(id, items, opts, depth + 1, seen)
+            } else {
+                PathsEntry {
+                    name: items[id].name().to_string(),
+                    size: items[id].size(),
+                    children: vec![],
+                }
+            }
+        })
         .collect();
     seen.remove(&id);
 
-- 
2.43.0


From 82a501e82174586c1b53e8a72baec01b6a6de8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 08/26] fix: compare the total sizes of items that share a name
 in diff

Of several items with one name only the last was compared, so changes were
missed or misreported and the rows did not add up to the total.
---
 analyze/analyses/diff.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..6f1ac84 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -101,11 +101,12 @@ pub fn diff(
     let max_items = opts.max_items() as usize;
 
     // Given a set of items, create a HashMap of the items' names and sizes.
+    // Several items can have the same name; their sizes are added up.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        items.iter().fold(HashMap::new(), |mut sizes, item| {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+            sizes
+        })
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From 586b555deb89a175b611ada5c54b7b29eab1fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 09/26] fix: count every instantiation in monos

Instantiations with the same name and size were collapsed into one, so the
totals and the bloat of their generic were too small.
---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..21503b2 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: MonosMap<'a> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 4cc3af70f19573f5f1228756599cd23fcb10cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 10/26] fix: do not read exact names as regular expressions in
 monos

Without --regex, a generic whose name is not a valid expression (such as
operator* or f[]) made monos fail.
---
 analyze/analyses/monos/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 21503b2..9b586e9 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,12 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    // Exact names need not be valid regular expressions.
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::empty()
+    };
 
     let unsorted_monos: MonosMap<'a> = items
         .iter()
-- 
2.43.0


From 12056e9e67aa07d7f22b4d7d0e476ae473e0fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 11/26] fix: do not overflow when summing up retained sizes in
 top

The sum over all items counts shared bytes many times and can exceed 32 bits.
---
 analyze/analyses/top.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..e7aec00 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,8 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        // Retained sizes overlap, so their total need not fit into 32 bits.
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +54,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From 2a1b12a347a88d86dea1c36b6fd99daf8f14086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 12/26] fix: write the garbage report as CSV instead of
 panicking

The command line offers -f csv for garbage, but it was unimplemented!().
---
 analyze/analyses/garbage.rs | 48 +++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..5e52bd3 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -1,7 +1,9 @@
 use std::collections::BTreeSet;
 use std::io;
 
+use csv;
 use petgraph::visit::Walker;
+use serde_derive::Serialize;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
@@ -137,8 +139,50 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        let mut wtr = csv::Writer::from_writer(dest);
+
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let total = |ids: &[ir::Id]| -> u32 { ids.iter().map(|&id| items[id].size()).sum() };
+        let shown = self.items.len().min(self.limit);
+        let remaining = &self.items[shown..];
+
+        // These are the same rows as in the other formats.
+        let mut rows: Vec<(String, u32)> = self.items[..shown]
+            .iter()
+            .map(|&id| (items[id].name().to_string(), items[id].size()))
+            .collect();
+        if !remaining.is_empty() {
+            let name = format!("... and {} more", remaining.len());
+            rows.push((name, total(remaining)));
+        }
+        let name = format!("Σ [{} Total Rows]", self.items.len());
+        rows.push((name, total(&self.items)));
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            rows.push((name, total(&self.data_segments)));
+        }
+
+        for (name, bytes) in rows {
+            wtr.serialize(CsvRecord {
+                name,
+                bytes,
+                size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+            })?;
+            wtr.flush()?;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 402cc082c6e0e87a0ce45bf54d0518b3f07ac910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 13/26] fix: apply selection, depth and row limits in every
 format of dominators

The CSV report ignored the item arguments, the JSON and CSV reports ignored
both limits, and in the text report items hidden by the depth limit used up
the row limit, which was also off by one when items were given. Deep trees
overflowed the stack.
---
 analyze/analyses/dominators/emit.rs | 152 ++++++++++------------------
 analyze/formats/json.rs             |  37 +++++++
 2 files changed, 92 insertions(+), 97 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..070d17e 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -1,11 +1,9 @@
-use std::collections::BTreeMap;
 use std::io;
 
 use csv;
 use serde_derive::Serialize;
 
 use twiggy_ir as ir;
-use twiggy_opt as opt;
 use twiggy_traits as traits;
 
 use super::UnreachableItemsSummary;
@@ -13,6 +11,47 @@ use crate::analyses::dominators::DominatorTree;
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
 
+impl DominatorTree {
+    /// The rows of the report, in order: the item at the top of the subtree that
+    /// the row belongs to, the level of the row below that item, and the row's
+    /// own item. Siblings are ordered by retained size.
+    ///
+    /// The depth limit hides the items below it, and the row limit keeps the
+    /// first of the remaining ones. The meta root stands for the whole binary,
+    /// and does not count as a row.
+    fn rows(&self, items: &ir::Items) -> Vec<(ir::Id, u32, ir::Id)> {
+        let max_rows = self.opts.max_rows() as usize;
+        let mut rows = vec![];
+        let mut counted = 0;
+
+        for &start in &self.items {
+            let start_depth = if start == items.meta_root() { 0 } else { 1 };
+            let mut stack = vec![(0, start)];
+
+            while let Some((level, id)) = stack.pop() {
+                if start_depth + level > self.opts.max_depth() {
+                    continue;
+                }
+                if id != items.meta_root() {
+                    if counted == max_rows {
+                        return rows;
+                    }
+                    counted += 1;
+                }
+                rows.push((start, level, id));
+
+                if let Some(children) = self.tree.get(&id) {
+                    let mut children = children.to_vec();
+                    children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
+                    stack.extend(children.into_iter().rev().map(|child| (level + 1, child)));
+                }
+            }
+        }
+
+        rows
+    }
+}
+
 impl traits::Emit for DominatorTree {
     #[cfg(feature = "emit_text")]
     fn emit_text(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
@@ -22,59 +61,15 @@ impl traits::Emit for DominatorTree {
             (Align::Left, "Dominator Tree".to_string()),
         ]);
 
-        let opts = &self.opts;
-        let mut row = 0 as u32;
-
-        fn recursive_add_rows(
-            table: &mut Table,
-            items: &ir::Items,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            mut row: &mut u32,
-            opts: &opt::Dominators,
-            id: ir::Id,
-        ) {
-            assert_eq!(id == items.meta_root(), depth == 0);
-
-            if *row > opts.max_rows() || depth > opts.max_depth() {
-                return;
-            }
-
+        for (start, level, id) in self.rows(items) {
+            // The meta root is not shown, and its children are not indented.
+            let start_depth = if start == items.meta_root() { 0 } else { 1 };
+            let depth = start_depth + level;
             if depth > 0 {
-                add_text_item(items, depth, id, table);
-            }
-
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    *row += 1;
-                    recursive_add_rows(
-                        table,
-                        items,
-                        dominator_tree,
-                        depth + 1,
-                        &mut row,
-                        &opts,
-                        child,
-                    );
-                }
+                add_text_item(items, depth, id, &mut table);
             }
         }
 
-        for id in &self.items {
-            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
-            recursive_add_rows(
-                &mut table,
-                items,
-                &self.tree,
-                start_depth,
-                &mut row,
-                &opts,
-                *id,
-            );
-        }
-
         if let Some(UnreachableItemsSummary {
             count,
             size,
@@ -94,37 +89,16 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            id: ir::Id,
-            obj: &mut json::Object,
-        ) -> anyhow::Result<()> {
-            add_json_item(items, id, obj)?;
-
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-
-                let mut arr = obj.array("children")?;
-                for child in children {
-                    let mut obj = arr.object()?;
-                    recursive_add_children(items, opts, dominator_tree, child, &mut obj)?;
-                }
-            }
-
-            Ok(())
-        }
-
         // Scoping the borrow of `arr` so we can get another object in the next block
         let mut obj = json::object(dest)?;
         {
             let mut arr = obj.array("items")?;
-            for curr_id in &self.items {
-                let mut item = arr.object()?;
-                recursive_add_children(items, &self.opts, &self.tree, *curr_id, &mut item)?;
-            }
+            arr.tree(
+                self.rows(items)
+                    .into_iter()
+                    .map(|(_, level, id)| (level, id)),
+                |id, item| add_json_item(items, id, item),
+            )?;
         }
 
         if let Some(UnreachableItemsSummary {
@@ -146,26 +120,10 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_csv")]
     fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            id: ir::Id,
-            wtr: &mut csv::Writer<&mut dyn io::Write>,
-        ) -> anyhow::Result<()> {
-            add_csv_item(items, id, wtr)?;
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    recursive_add_children(items, opts, dominator_tree, child, wtr)?;
-                }
-            }
-            Ok(())
-        }
-
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for (_, _, id) in self.rows(items) {
+            add_csv_item(items, id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index 6b32231..f8c8d4c 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -82,6 +82,43 @@ impl<'a> Array<'a> {
         array(&mut *self.w)
     }
 
+    /// Add a forest of objects, given in preorder with their levels. Objects
+    /// below another one are put into its `children` array.
+    pub fn tree<T>(
+        &mut self,
+        nodes: impl Iterator<Item = (u32, T)>,
+        mut add_fields: impl FnMut(T, &mut Object) -> anyhow::Result<()>,
+    ) -> anyhow::Result<()> {
+        // The objects that are still open. Trees can be too deep for recursion.
+        let mut open = 0;
+        for (level, node) in nodes {
+            if level > 0 && level == open {
+                write!(self.w, ",\"children\":[")?;
+            } else {
+                self.close_tree(&mut open, level)?;
+                self.comma()?;
+            }
+            let mut obj = object(&mut *self.w)?;
+            add_fields(node, &mut obj)?;
+            // The object's closing brace is written by `close_tree`.
+            std::mem::forget(obj);
+            open = level + 1;
+        }
+        self.close_tree(&mut open, 0)
+    }
+
+    /// Close the objects of a tree down to, and including, the given level.
+    fn close_tree(&mut self, open: &mut u32, level: u32) -> anyhow::Result<()> {
+        while *open > level {
+            write!(self.w, "}}")?;
+            *open -= 1;
+            if *open > level {
+                write!(self.w, "]")?;
+            }
+        }
+        Ok(())
+    }
+
     pub fn elem<P>(&mut self, elem: P) -> io::Result<()>
     where
         P: JsonPrimitive,
-- 
2.43.0


From 8057e7b26474b4f41914635a0729e654914ad838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 14/26] fix: compute retained sizes without recursion

A chain of some ten thousand functions, each only used by the previous one,
overflowed the stack.
---
 ir/ir.rs | 52 ++++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index b4de92c..9f5c4d2 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -295,44 +295,28 @@ impl Items {
         }
         self.compute_dominator_tree();
 
-        fn recursive_retained_size(
-            retained_sizes: &mut BTreeMap<Id, u32>,
-            items: &Items,
-            item: &Item,
-            dominator_tree: &BTreeMap<Id, Vec<Id>>,
-        ) -> u32 {
-            // Although the dominator tree cannot have cycles, because we
-            // compute retained sizes in item iteration order, rather than from
-            // the bottom of the dominator tree up, it is possible we have
-            // already computed the retained sizes for subtrees.
-            if let Some(rsize) = retained_sizes.get(&item.id()) {
-                return *rsize;
-            }
+        let mut retained_sizes: BTreeMap<Id, u32> =
+            self.iter().map(|item| (item.id(), item.size())).collect();
+        {
+            let dominator_tree = self.dominator_tree.as_ref().unwrap();
 
-            let mut rsize = item.size();
-            if let Some(children) = dominator_tree.get(&item.id()) {
-                for child in children {
-                    rsize += recursive_retained_size(
-                        retained_sizes,
-                        items,
-                        &items[*child],
-                        dominator_tree,
-                    );
+            // Every item of the dominator tree after its parent. The tree can be
+            // as deep as the binary has items, so this does not use recursion.
+            let mut order = vec![(None, self.meta_root)];
+            let mut next = 0;
+            while let Some(&(_, id)) = order.get(next) {
+                if let Some(children) = dominator_tree.get(&id) {
+                    order.extend(children.iter().map(|&child| (Some(id), child)));
                 }
+                next += 1;
             }
 
-            let old_value = retained_sizes.insert(item.id(), rsize);
-            // The dominator tree is a proper tree, so there shouldn't be
-            // any cycles.
-            assert!(old_value.is_none());
-            rsize
-        }
-
-        let mut retained_sizes = BTreeMap::new();
-        {
-            let dominator_tree = self.dominator_tree.as_ref().unwrap();
-            for item in self.iter() {
-                recursive_retained_size(&mut retained_sizes, self, item, dominator_tree);
+            // Add each item's retained size to its parent's, bottom up.
+            for (parent, id) in order.into_iter().rev() {
+                if let Some(parent) = parent {
+                    let rsize = retained_sizes[&id];
+                    *retained_sizes.get_mut(&parent).unwrap() += rsize;
+                }
             }
         }
         self.retained_sizes = Some(retained_sizes);
-- 
2.43.0


From 715d2bbd385ec973bc69c474bad65f016bcda9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 15/26] fix: keep C++ symbols that cannot be written out
 instead of panicking

---
 ir/ir.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 9f5c4d2..e19d365 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -10,6 +10,7 @@ use std::cmp;
 use std::collections::btree_map;
 use std::collections::{BTreeMap, BTreeSet};
 use std::convert::TryFrom;
+use std::fmt;
 use std::ops;
 use std::slice;
 use std::u32;
@@ -606,11 +607,13 @@ impl Code {
             return Some(s.to_string());
         }
 
-        if let Ok(sym) = cpp_demangle::Symbol::new(s) {
-            return Some(sym.to_string());
-        }
-
-        None
+        // Not every symbol that can be parsed can also be written out, and the
+        // substitutions in a short one can stand for gigabytes of text.
+        let sym = cpp_demangle::Symbol::new(s).ok()?;
+        let mut demangled = BoundedString(String::new());
+        sym.structured_demangle(&mut demangled, &Default::default())
+            .ok()?;
+        Some(demangled.0)
     }
 
     fn extract_generic_function(demangled: &str) -> Option<String> {
@@ -664,6 +667,24 @@ impl Code {
     }
 }
 
+/// A string that does not grow beyond a limit.
+struct BoundedString(String);
+
+impl BoundedString {
+    // The limit that `rustc_demangle` uses, too.
+    const MAX_LEN: usize = 1_000_000;
+}
+
+impl fmt::Write for BoundedString {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        if s.len() > Self::MAX_LEN - self.0.len() {
+            return Err(fmt::Error);
+        }
+        self.0.push_str(s);
+        Ok(())
+    }
+}
+
 /// Data inside the binary that may or may not end up loaded into memory
 /// with the executable code.
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From 091cdc4d3c45e63345a072c09286e7152d79c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 16/26] fix: reject object files with unreadable sections
 instead of panicking

---
 parser/object_parse/mod.rs | 86 +++++++++++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 15 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 96800f1..58e1d5b 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -1,31 +1,83 @@
 use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
-use object::{self, Object};
+use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
 use twiggy_ir as ir;
 use typed_arena::Arena;
 
+// The flag of compressed sections in ELF files.
+const SHF_COMPRESSED: u64 = 1 << 11;
+
+// No deflate stream expands by more than this factor.
+const MAX_COMPRESSION: u64 = 1032;
+
 mod compilation_unit_parse;
 mod die_parse;
 
+// Check that the contents of a section can be read: the object crate panics if
+// they lie outside of the file, and it allocates whatever size a compressed
+// section claims to have.
+fn check_section(
+    file: &object::File,
+    section: &object::Section,
+    data: &[u8],
+) -> anyhow::Result<()> {
+    if let Some((offset, size)) = section.file_range() {
+        match offset.checked_add(size) {
+            Some(end) if end <= data.len() as u64 => {}
+            _ => return Err(anyhow!("A section lies outside of the file")),
+        }
+    }
+    match section.flags() {
+        object::SectionFlags::Elf { sh_flags } if sh_flags & SHF_COMPRESSED != 0 => {
+            let contents = section.data();
+            let size = uncompressed_size(file, &contents)
+                .ok_or_else(|| anyhow!("A compressed section has no header"))?;
+            if size / MAX_COMPRESSION > contents.len() as u64 {
+                return Err(anyhow!("A compressed section has an impossible size"));
+            }
+        }
+        _ => {}
+    }
+    Ok(())
+}
+
+// Read the size in the header of a compressed ELF section.
+fn uncompressed_size(file: &object::File, contents: &[u8]) -> Option<u64> {
+    let field = match file.is_64() {
+        true => contents.get(8..16)?,
+        false => contents.get(4..8)?,
+    };
+    let push = |size: u64, byte: &u8| size << 8 | u64::from(*byte);
+    Some(match file.is_little_endian() {
+        true => field.iter().rev().fold(0, push),
+        false => field.iter().fold(0, push),
+    })
+}
+
 // Helper function used to load a given section of the file.
 fn load_section<'a, 'file, 'input, Sect, Endian>(
     arena: &'a Arena<Cow<'file, [u8]>>,
     file: &'file object::File<'input>,
+    file_data: &[u8],
     endian: Endian,
-) -> Sect
+) -> anyhow::Result<Sect>
 where
     Sect: gimli::Section<gimli::EndianSlice<'a, Endian>>,
     Endian: gimli::Endianity,
     'file: 'input,
     'a: 'file,
 {
-    let data = file
-        .section_data_by_name(Sect::section_name())
-        .unwrap_or(Cow::Borrowed(&[]));
+    let data = match file.section_by_name(Sect::section_name()) {
+        Some(section) => {
+            check_section(file, &section, file_data)?;
+            section.uncompressed_data()
+        }
+        None => Cow::Borrowed(&[][..]),
+    };
     let data_ref = (*arena.alloc(data)).borrow();
-    Sect::from(gimli::EndianSlice::new(data_ref, endian))
+    Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
@@ -41,15 +93,15 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     };
 
     // Load the sections of the file containing debugging information.
-    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, endian);
-    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, endian);
-    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, endian);
-    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, endian);
-    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, endian);
-    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, endian);
-    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, endian);
-    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, endian);
-    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, endian);
+    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data, endian)?;
+    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data, endian)?;
+    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data, endian)?;
+    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data, endian)?;
+    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, data, endian)?;
+    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data, endian)?;
+    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data, endian)?;
     let ranges = gimli::RangeLists::new(debug_ranges, debug_rnglists);
     let dwarf = gimli::Dwarf {
         debug_abbrev,
@@ -75,6 +127,10 @@ fn parse_items<R: gimli::Reader>(
     // Parse the items in each compilation unit.
     let mut headers = dwarf.units().enumerate();
     while let Some((unit_id, header)) = headers.next()? {
+        let address_size = header.address_size();
+        if ![1, 2, 4, 8].contains(&address_size) {
+            return Err(anyhow!("Unsupported address size: {}", address_size));
+        }
         let unit = dwarf.unit(header)?;
         compilation_unit_parse::parse_items(items, dwarf, &unit, unit_id)?
     }
-- 
2.43.0


From 7e4ac7340cef1c21aba68f8dfd35327688093e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 17/26] fix: read indexed addresses and range lists, reject
 impossible function sizes

---
 .../object_parse/die_parse/location_attrs.rs  | 84 +++++++++----------
 parser/object_parse/die_parse/mod.rs          |  9 +-
 2 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..2a33367 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -1,6 +1,5 @@
 use super::FallilbleOption;
 use anyhow::anyhow;
-use fallible_iterator::FallibleIterator;
 use gimli;
 
 /// This struct holds the values for DWARF attributes related to an object's
@@ -36,7 +35,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -47,22 +46,35 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
-        match (dw_at_low_pc, &self.dw_at_high_pc) {
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let low_pc = match &self.dw_at_low_pc {
+            Some(low_pc) => dwarf
+                .attr_address(unit, low_pc.clone())?
+                .ok_or_else(|| anyhow!("Unexpected base address attribute value"))?,
+            None => return Ok(None),
+        };
+        match &self.dw_at_high_pc {
+            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
+            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
+            Some(gimli::AttributeValue::Udata(offset)) => Ok(Some(*offset)),
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
-            (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+            Some(high_pc) => {
+                let high_pc = dwarf
+                    .attr_address(unit, high_pc.clone())?
+                    .ok_or_else(|| anyhow!("Unexpected DW_AT_high_pc attribute value"))?;
+                let size = high_pc
+                    .checked_sub(low_pc)
+                    .ok_or_else(|| anyhow!("DW_AT_high_pc is below DW_AT_low_pc"))?;
+                Ok(Some(size))
             }
-            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
-            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
-            (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
-            // Return an error if DW_AT_high_pc is not encoded as expected.
-            (Some(_), Some(_)) => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
-            // If none of the above conditions were met, this is either a
-            // noncontiguous entity, or the DIE does not represent a definition.
-            _ => Ok(None),
+            // If there is no DW_AT_high_pc, this is either a noncontiguous
+            // entity, or the DIE does not represent a definition.
+            None => Ok(None),
         }
     }
 
@@ -73,36 +85,18 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
-            let ranges = dwarf.ranges(unit, offset)?;
-            let size = ranges
-                .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
-            Ok(Some(size))
-        } else {
-            Ok(None)
-        }
-    }
-
-    /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
-        match &self.dw_at_low_pc {
-            Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
-            Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
-            None => Ok(None),
-        }
-    }
-
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
-    fn dw_at_ranges(
-        &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
-        match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
-            Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
-            None => Ok(None),
+        let mut ranges = match &self.dw_at_ranges {
+            Some(ranges) => dwarf
+                .attr_ranges(unit, ranges.clone())?
+                .ok_or_else(|| anyhow!("Unexpected DW_AT_ranges value"))?,
+            None => return Ok(None),
+        };
+        let mut size: u64 = 0;
+        while let Some(range) = ranges.next()? {
+            size = size
+                .checked_add(range.end - range.begin)
+                .ok_or_else(|| anyhow!("The address ranges of a subprogram are too large"))?;
         }
+        Ok(Some(size))
     }
 }
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..5ccf295 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -21,11 +23,16 @@ pub(super) fn parse_items<R: gimli::Reader>(
     let item: ir::Item = match entry.tag() {
         gimli::DW_TAG_subprogram => {
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
+                // All sizes together must fit, too.
+                let size = u32::try_from(size)
+                    .ok()
+                    .filter(|size| items.size_added().checked_add(*size).is_some())
+                    .ok_or_else(|| anyhow!("The size of a subprogram is too large"))?;
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From 4eca793d0eb3e6d73a42cfb078a4a2cd53cd40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 18/26] fix: select every item of a given name, and never the
 meta root

---
 analyze/analyses/dominators/mod.rs | 4 +++-
 analyze/analyses/paths/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/mod.rs b/analyze/analyses/dominators/mod.rs
index 79d99e1..1900214 100644
--- a/analyze/analyses/dominators/mod.rs
+++ b/analyze/analyses/dominators/mod.rs
@@ -40,6 +40,7 @@ pub fn dominators(
         let regexps = regex::RegexSet::new(arguments)?;
         let mut sorted_items: Vec<_> = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(&item.name()))
             .map(|item| item.id())
             .collect();
@@ -48,8 +49,9 @@ pub fn dominators(
     } else {
         arguments
             .iter()
-            .filter_map(|name| items.get_item_by_name(name))
+            .flat_map(|name| items.iter().filter(move |item| item.name() == name))
             .map(|item| item.id())
+            .filter(|&id| id != items.meta_root())
             .collect()
     };
 
diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 61017d3..e663107 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -65,6 +65,7 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
         let regexps = regex::RegexSet::new(opts.functions())?;
         let matches = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(item.name()))
             .map(|item| item.id())
             .collect();
@@ -75,8 +76,9 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     let get_exact_matches = || -> Vec<ir::Id> {
         opts.functions()
             .iter()
-            .filter_map(|s| items.get_item_by_name(s))
+            .flat_map(|s| items.iter().filter(move |item| item.name() == s))
             .map(|item| item.id())
+            .filter(|&id| id != items.meta_root())
             .collect()
     };
 
-- 
2.43.0


From 7c1387bf0dd056212ac5aaaf3d5b022d30a8ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 19/26] fix: only take 16-digit hashes for the hash of a Rust
 symbol

A function such as `core::hash` or `a::hello` was taken for an instantiation
of a generic function `core` or `a`.
---
 ir/ir.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index e19d365..8b95a0d 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -631,10 +631,14 @@ impl Code {
         // with than we have with C++ demangled symbols. It would sure be nice
         // if we could tell the user more about the monomorphization, but
         // alas... :(
-        if let Some(idx) = demangled.rfind("::h") {
-            let idx2 = demangled.rfind("::").unwrap();
-            assert!(idx2 >= idx);
-            if idx2 == idx {
+        // The hash always has 16 digits, and LLVM can append a suffix such as
+        // ".123" to it. Other names that begin with an "h" are not hashes.
+        if let Some(idx) = demangled.rfind("::") {
+            let last = demangled[idx + "::".len()..].split('.').next().unwrap();
+            if last.len() == 17
+                && last.starts_with('h')
+                && last.bytes().skip(1).all(|b| b.is_ascii_hexdigit())
+            {
                 let generic = demangled[..idx].to_string();
                 return Some(generic);
             }
-- 
2.43.0


From d1fac1218bbc7f2752bf20311d3365b8f2197f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 20/26] fix: find Mach-O sections whose names are cut off

---
 parser/object_parse/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 58e1d5b..62a4185 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -69,7 +69,13 @@ where
     'file: 'input,
     'a: 'file,
 {
-    let data = match file.section_by_name(Sect::section_name()) {
+    // Mach-O has no room for names of more than 16 bytes, in which `__` stands
+    // for the dot.
+    let name = Sect::section_name();
+    let section = file
+        .section_by_name(name)
+        .or_else(|| file.section_by_name(name.get(..15)?));
+    let data = match section {
         Some(section) => {
             check_section(file, &section, file_data)?;
             section.uncompressed_data()
-- 
2.43.0


From e3fea19fbd791c96e267dd0eb4b409f8b45c9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 21/26] fix: reject object files that count more headers than
 they hold

---
 parser/object_parse/mod.rs | 63 +++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 62a4185..ac7445f 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -3,6 +3,7 @@ use fallible_iterator::FallibleIterator;
 use gimli;
 use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 use typed_arena::Arena;
 
@@ -45,15 +46,11 @@ fn check_section(
 
 // Read the size in the header of a compressed ELF section.
 fn uncompressed_size(file: &object::File, contents: &[u8]) -> Option<u64> {
-    let field = match file.is_64() {
-        true => contents.get(8..16)?,
-        false => contents.get(4..8)?,
+    let (offset, size) = match file.is_64() {
+        true => (8, 8),
+        false => (4, 4),
     };
-    let push = |size: u64, byte: &u8| size << 8 | u64::from(*byte);
-    Some(match file.is_little_endian() {
-        true => field.iter().rev().fold(0, push),
-        false => field.iter().fold(0, push),
-    })
+    field(contents, offset, size, file.is_little_endian())
 }
 
 // Helper function used to load a given section of the file.
@@ -86,7 +83,57 @@ where
     Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
 
+// Read a field of the given size.
+fn field(data: &[u8], offset: u64, size: usize, little_endian: bool) -> Option<u64> {
+    let start = usize::try_from(offset).ok()?;
+    let field = data.get(start..start.checked_add(size)?)?;
+    let push = |value: u64, byte: &u8| value << 8 | u64::from(*byte);
+    Some(match little_endian {
+        true => field.iter().rev().fold(0, push),
+        false => field.iter().fold(0, push),
+    })
+}
+
+// Check that the file can hold as many entries as its header claims: the object
+// crate makes room for that many ELF section headers and Mach-O load commands
+// before it reads them.
+fn check_header(data: &[u8]) -> anyhow::Result<()> {
+    match header_count(data) {
+        Some((count, entry_size)) if count > data.len() as u64 / entry_size => Err(anyhow!(
+            "The header counts more entries than the file can hold"
+        )),
+        _ => Ok(()),
+    }
+}
+
+// Read the number of ELF section headers or Mach-O load commands, and get the
+// least size each of them has.
+fn header_count(data: &[u8]) -> Option<(u64, u64)> {
+    match data.get(..4)? {
+        b"\x7fELF" => {
+            let is_64 = *data.get(4)? == 2;
+            let le = *data.get(5)? != 2;
+            let (offset, count, entry_size) = match is_64 {
+                true => (field(data, 40, 8, le)?, field(data, 60, 2, le)?, 64),
+                false => (field(data, 32, 4, le)?, field(data, 48, 2, le)?, 40),
+            };
+            // A count that does not fit is in the size of the first section.
+            let count = match (offset, count, is_64) {
+                (0, _, _) => 0,
+                (_, 0, true) => field(data, offset.checked_add(32)?, 8, le)?,
+                (_, 0, false) => field(data, offset.checked_add(20)?, 4, le)?,
+                _ => count,
+            };
+            Some((count, entry_size))
+        }
+        b"\xce\xfa\xed\xfe" | b"\xcf\xfa\xed\xfe" => Some((field(data, 16, 4, true)?, 8)),
+        b"\xfe\xed\xfa\xce" | b"\xfe\xed\xfa\xcf" => Some((field(data, 16, 4, false)?, 8)),
+        _ => None,
+    }
+}
+
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
+    check_header(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0


From 842b7e0c94fd6574b4f545ff4142806101c1d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 22/26] fix: reject COFF files that do not hold their string
 table

---
 parser/object_parse/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index ac7445f..495b830 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -13,6 +13,9 @@ const SHF_COMPRESSED: u64 = 1 << 11;
 // No deflate stream expands by more than this factor.
 const MAX_COMPRESSION: u64 = 1032;
 
+// The size of an entry of a COFF symbol table.
+const COFF_SYMBOL_SIZE: u64 = 18;
+
 mod compilation_unit_parse;
 mod die_parse;
 
@@ -132,8 +135,27 @@ fn header_count(data: &[u8]) -> Option<(u64, u64)> {
     }
 }
 
+// Check that a COFF file contains its string table, which the object crate takes
+// for granted.
+fn check_string_table(data: &[u8]) -> anyhow::Result<()> {
+    match data.get(..2) {
+        Some([0x4c, 0x01]) | Some([0x64, 0x86]) => {}
+        _ => return Ok(()),
+    }
+    let end = || {
+        let symbols = field(data, 8, 4, true)?;
+        let offset = symbols + field(data, 12, 4, true)? * COFF_SYMBOL_SIZE;
+        Some(offset + field(data, offset, 4, true)?)
+    };
+    match end() {
+        Some(end) if end <= data.len() as u64 => Ok(()),
+        _ => Err(anyhow!("The string table lies outside of the file")),
+    }
+}
+
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     check_header(data)?;
+    check_string_table(data)?;
     let file: object::File = object::File::parse(data)
         .map_err(|err| anyhow!("Failed to parse data with err: {:?}", err))?;
 
-- 
2.43.0


From 0d4951892458431cd7d3fd4efd425bd4bdea21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 23/26] fix: report errors of the last write to the destination

---
 twiggy/twiggy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..cab83c2 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -34,5 +35,10 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
 
     let mut dest = opts.output_destination().open()?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    data.emit(&items, &mut *dest, opts.output_format())?;
+
+    // What is still buffered would be written when `dest` is dropped or the
+    // program ends, where an error goes unnoticed.
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From f0b1b9b11175011dd0f46b5b24939e8655a3f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 24/26] fix: let the web API construct options for diff

Items::diff takes a Diff, but nothing exported to the web could make one.
---
 opt/definitions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opt/definitions.rs b/opt/definitions.rs
index 5a3bbe3..0bf0efc 100644
--- a/opt/definitions.rs
+++ b/opt/definitions.rs
@@ -601,6 +601,11 @@ impl Diff {
 
 #[wasm_bindgen]
 impl Diff {
+    /// Construct a new, default `Diff`.
+    pub fn new() -> Diff {
+        Diff::default()
+    }
+
     /// The maximum number of items to display.
     pub fn max_items(&self) -> u32 {
         if self.all_items {
-- 
2.43.0


From 2b28134e2d4741e82c36ed258ca5d8fc4f7e1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 25/26] fix: report errors of writing the end of a JSON report

---
 traits/traits.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/traits/traits.rs b/traits/traits.rs
index 2be06a0..70aac93 100644
--- a/traits/traits.rs
+++ b/traits/traits.rs
@@ -112,7 +112,16 @@ pub trait Emit {
             #[cfg(feature = "emit_csv")]
             OutputFormat::Csv => self.emit_csv(items, destination),
             #[cfg(feature = "emit_json")]
-            OutputFormat::Json => self.emit_json(items, destination),
+            OutputFormat::Json => {
+                // The JSON writer closes arrays and objects when they are
+                // dropped, where it cannot return errors.
+                let mut destination = KeepError {
+                    destination,
+                    error: None,
+                };
+                self.emit_json(items, &mut destination)?;
+                destination.error.map_or(Ok(()), |e| Err(e.into()))
+            }
         }
     }
 
@@ -134,3 +143,43 @@ pub trait Emit {
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, destination: &mut dyn io::Write) -> anyhow::Result<()>;
 }
+
+/// A destination that keeps the first error of writing to it, and that is not
+/// written to after that.
+#[cfg(feature = "emit_json")]
+struct KeepError<'a> {
+    destination: &'a mut dyn io::Write,
+    error: Option<io::Error>,
+}
+
+#[cfg(feature = "emit_json")]
+impl<'a> KeepError<'a> {
+    fn try_io<T>(&mut self, f: impl FnOnce(&mut dyn io::Write) -> io::Result<T>) -> io::Result<T> {
+        if let Some(e) = &self.error {
+            return Err(io::Error::new(e.kind(), "could not be written before"));
+        }
+        f(self.destination).map_err(|e| {
+            // Interrupted writes are tried again.
+            if e.kind() == io::ErrorKind::Interrupted {
+                return e;
+            }
+            let copy = io::Error::new(e.kind(), e.to_string());
+            self.error = Some(e);
+            copy
+        })
+    }
+}
+
+#[cfg(feature = "emit_json")]
+impl<'a> io::Write for KeepError<'a> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.try_io(|d| match d.write(buf)? {
+            0 if !buf.is_empty() => Err(io::ErrorKind::WriteZero.into()),
+            n => Ok(n),
+        })
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.try_io(|d| d.flush())
+    }
+}
-- 
2.43.0


From a6cfc68ea5f43dc29d9da624c11e73399fb88170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 26/26] fix: take the linkage names of DWARF 2 and 3

---
 parser/object_parse/die_parse/item_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/die_parse/item_name.rs b/parser/object_parse/die_parse/item_name.rs
index 341e191..7504211 100644
--- a/parser/object_parse/die_parse/item_name.rs
+++ b/parser/object_parse/die_parse/item_name.rs
@@ -30,7 +30,11 @@ where
     let attr: Option<gimli::read::AttributeValue<R>> =
         match die.attr_value(gimli::DW_AT_linkage_name)? {
             x @ Some(_) => x,
-            None => die.attr_value(gimli::DW_AT_name)?,
+            // What compilers use before DWARF 4.
+            None => match die.attr_value(gimli::DW_AT_MIPS_linkage_name)? {
+                x @ Some(_) => x,
+                None => die.attr_value(gimli::DW_AT_name)?,
+            },
         };
     attr.map(|attr| -> anyhow::Result<String> {
         Ok(
-- 
2.43.0

