From 6c6ef0fc6f7ca3de27de9cf96e97b98209d7c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 01/14] fix: slice mip levels 1-3 by start and length

Mip levels above 0 were sliced as [start..length], so reading a texture with
more than one mip level panicked.
---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..350c082 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size0 + size1 + size2 + size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From d071f6760abfd872eff3e705027b743033556fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 02/14] fix: report a corrupt WAD as an error instead of
 panicking

Directory and mip offsets and the mip size were computed in u32 and could
overflow, a wrong magic panicked, and an absurd entry count or texture size
exhausted memory before the first read error was reported.
---
 src/wad/mod.rs | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 350c082..e951216 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
@@ -149,11 +149,10 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64 + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -183,20 +182,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
+    let entries = entries?.into_iter().flatten().collect();
 
     Ok(entries)
 }
@@ -261,13 +247,26 @@ fn read_mip_data(
                 Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
             };
 
+            let file_size = match wad_file.metadata() {
+                Ok(metadata) => metadata.len(),
+                Err(err) => return Err(format!("Error reading WAD file size: {:?}", err)),
+            };
+
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let size0 = miptex.width as u64 * miptex.height as u64;
+            if size0 > file_size {
+                return Err(format!(
+                    "Mipdata for texture {:?} does not fit in the WAD file",
+                    miptex
+                ));
+            }
+
+            let size0 = size0 as usize;
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +336,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From a7da749b085129e78aa6e2bc7569a5640d249cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 03/14] fix: remap a duplicate mesh vertex to an identical
 vertex

A removed duplicate was remapped to the first vertex at the same position,
which may carry another face's normal, tangent, UV or color.
---
 src/scene_tree/mod.rs               | 12 ++++++++++--
 src/scene_tree/predicates/vertex.rs | 16 +++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..16f3879 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -794,9 +794,17 @@ fn filter_vertices<'a>(
             new_indices.push(i);
             new_vertices.push(vertex);
         } else {
-            let position = vertices
+            // Remap to the kept vertex that this one duplicates: an identical
+            // one if there is one, otherwise the one at the same position
+            let position = new_vertices
                 .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
+                .position(|comp| predicates::vertex::same(comp, vertex))
+                .or_else(|| {
+                    new_vertices
+                        .iter()
+                        .position(|comp| comp.vertex == vertex.vertex)
+                })
+                .map(|position| new_indices[position])
                 .unwrap();
 
             indices = indices
diff --git a/src/scene_tree/predicates/vertex.rs b/src/scene_tree/predicates/vertex.rs
index f3594fa..bb69964 100644
--- a/src/scene_tree/predicates/vertex.rs
+++ b/src/scene_tree/predicates/vertex.rs
@@ -1,13 +1,15 @@
 use crate::Vertex;
 
+pub fn same(a: &Vertex, b: &Vertex) -> bool {
+    a.vertex == b.vertex
+        && a.normal == b.normal
+        && a.tangent == b.tangent
+        && a.uv == b.uv
+        && a.color == b.color
+}
+
 pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices.iter().position(|comp| {
-        comp.vertex == vertex.vertex
-            && comp.normal == vertex.normal
-            && comp.tangent == vertex.tangent
-            && comp.uv == vertex.uv
-            && comp.color == vertex.color
-    });
+    let position = vertices.iter().position(|comp| same(comp, vertex));
 
     position.is_none() || position.unwrap() >= i
 }
-- 
2.43.0


From ee325f4dbacafc5f0584de3b1cf792f7b134d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 04/14] fix: give a flags property the Flags type, not Choices

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 16f3879..6570223 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -385,7 +385,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From dbe27284ce4c1f3a2810ec4103ed44631acdf99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 05/14] fix: build no vertices from degenerate brush planes

A plane through three collinear points has a NaN normal; its NaN determinant
passed the parallel test, so every face of the brush got NaN vertices.
---
 src/geo_builder/brush_plane/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..085b79d 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // A degenerate plane has no normal and makes this NaN or infinite
+    if !(denom >= CMP_EPSILON && denom.is_finite()) {
         return None;
     }
 
-- 
2.43.0


From e669567455f000c597677e15647446a670316fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 06/14] fix: diff token lists by position and up to the last
 token

The last token of each file was never compared (a file differed from itself),
an empty file panicked, and a changed token went unreported whenever an equal
token survived anywhere else in the file.
---
 src/map/quake/tokenizer.rs | 45 +++++++++++++-------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..3253b1f 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -85,8 +85,8 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
+    for index_x in 0..size_x + 1 {
+        for index_y in 0..size_y + 1 {
             if index_x == 0 || index_y == 0 {
                 l[index_x][index_y] = 0;
             }
@@ -99,45 +99,30 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    // Walk back through the table: a token is kept where both files match,
+    // otherwise it was removed from a or added in b
+    let mut removed: Vec<&Token> = Vec::new();
+    let mut added: Vec<&Token> = Vec::new();
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
-    while i > 0 && j > 0 {
-        if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+    let mut i = size_x;
+    let mut j = size_y;
+    while i > 0 || j > 0 {
+        if i > 0 && j > 0 && tokens_a[i-1] == tokens_b[j-1] {
             i -= 1;
             j -= 1;
-            index -= 1;
         }
-        else if l[i-1][j] > l[i][j-1] {
+        else if j == 0 || (i > 0 && l[i-1][j] > l[i][j-1]) {
+            removed.push(&tokens_a[i-1]);
             i -= 1;
         }
         else {
+            added.push(&tokens_b[j-1]);
             j -= 1;
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
-    let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            removed.push(token);
-        }
-    }
-
-    let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            added.push(token);
-        }
-    }
+    removed.reverse();
+    added.reverse();
 
     Diff::new(added, removed)
 }
\ No newline at end of file
-- 
2.43.0


From 3ec2683393bba0f5b2352abd2eb24163f7b9d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/14] fix: emit worldspawn layers in a fixed order

The layers were kept in a HashMap, so the order of their nodes in the scene
tree changed from run to run.
---
 src/layer_filter/mod.rs | 6 +++---
 src/scene_tree/mod.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..73c2547 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,14 +1,14 @@
 use crate::geo_builder;
 use crate::map;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> (
     Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
 ) {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: BTreeMap<String, Vec<geo_builder::brush::Geometry>> = BTreeMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 6570223..05b5f0f 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 pub use types::{
     Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &BTreeMap<String, Vec<brush::Geometry>>,
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
-- 
2.43.0


From d946e6484d6a59f6a51c5f62310259f7dbf58ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 08/14] fix: report malformed plane lines as errors and
 tolerate malformed property lines

---
 src/map/quake/tokenizer.rs         |  9 +++--
 src/map/quake/types/brush_plane.rs | 59 +++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 3253b1f..a26679a 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -50,10 +50,13 @@ pub fn run(file_string: String) -> Vec<Token> {
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
+                let key = comps.next();
                 comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let value = comps.next();
+                match (key, value) {
+                    (Some(key), Some(value)) => Token::property(key, value),
+                    _ => Token::unrecognized(line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..e5cc085 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -31,6 +31,13 @@ pub enum ExtraData {
 }
 
 impl ExtraData {
+    pub fn hexen_2(comps: Vec<&str>) -> Result<ExtraData, QuarchitectError> {
+        match comps[0].parse() {
+            Ok(extra) => Ok(ExtraData::Hexen2(extra)),
+            Err(_err) => Err(QuarchitectError("Failed to parse Hexen 2 extra data")),
+        }
+    }
+
     pub fn quake_2(comps: Vec<&str>) -> Result<ExtraData, QuarchitectError> {
         let surface_contents: i32 = match comps[0].parse() {
             Ok(surface_contents) => surface_contents,
@@ -92,6 +99,22 @@ pub struct BrushPlane {
     pub extra: ExtraData,
 }
 
+fn next_comp<'a>(
+    comps: &mut std::str::SplitWhitespace<'a>,
+) -> Result<&'a str, QuarchitectError> {
+    match comps.next() {
+        Some(comp) => Ok(comp),
+        None => Err(QuarchitectError("Unexpected end of brush plane")),
+    }
+}
+
+fn parse_number(comps: &mut std::str::SplitWhitespace) -> Result<f32, QuarchitectError> {
+    match next_comp(comps)?.parse() {
+        Ok(number) => Ok(number),
+        Err(_err) => Err(QuarchitectError("Failed to parse brush plane number")),
+    }
+}
+
 impl BrushPlane {
     pub fn new(source: &str) -> Result<BrushPlane, QuarchitectError> {
         let mut comps = source.split_whitespace();
@@ -102,9 +125,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = parse_number(&mut comps)?;
+            let y: f32 = parse_number(&mut comps)?;
+            let z: f32 = parse_number(&mut comps)?;
             comps.next();
 
             let v = match i {
@@ -119,26 +142,26 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = next_comp(&mut comps)?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match next_comp(&mut comps)?.parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = parse_number(&mut comps)?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = parse_number(&mut comps)?;
+                let uy: f32 = parse_number(&mut comps)?;
+                let uz: f32 = parse_number(&mut comps)?;
+                let uo: f32 = parse_number(&mut comps)?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = parse_number(&mut comps)?;
+                let vy: f32 = parse_number(&mut comps)?;
+                let vz: f32 = parse_number(&mut comps)?;
+                let vo: f32 = parse_number(&mut comps)?;
                 
                 comps.next();
 
@@ -146,16 +169,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = parse_number(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = parse_number(&mut comps)?;
+        let y: f32 = parse_number(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::hexen_2(extra_comps)?,
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From e6dee2a33d080910167c306bf09cf3400c5b9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 09/14] fix: report a missing or repeated worldspawn as an
 error

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 73c2547..51f2e0a 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::BTreeMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: BTreeMap<String, Vec<geo_builder::brush::Geometry>> = BTreeMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..782fd1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From 9fcc22e8d4bef994fad3c6a4e4b3133374eee1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 10/14] fix: build an entity without a classname as a
 placeholder

---
 src/scene_tree/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 05b5f0f..6e67380 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -112,7 +112,7 @@ fn build_entity<'a>(
         children.append(&mut child_entities);
 
         Some(SceneTreeNode::entity(
-            entity.properties.get("classname").unwrap().clone(),
+            entity.properties.get("classname").cloned().unwrap_or_default(),
             origin + entity_geometry.center,
             get_entity_type(quarchitect_game_data, &entity),
             get_entity_component_class(quarchitect_game_data, &entity),
@@ -475,7 +475,7 @@ fn get_entity_visual_geometry(
                 }
             }
         }
-        None => panic!("No classname in entity"),
+        None => return VisualGeometry::None,
     };
 
     get_brush_entity_visual_geometry(entity, entity_geometry, brush_data, texture_blacklist)
@@ -620,7 +620,7 @@ fn get_entity_collision_geometry(
                 }
             }
         }
-        None => panic!("No classname in entity"),
+        None => return CollisionGeometry::None,
     };
 
     match brush_data.collision_type {
-- 
2.43.0


From 8b324cdc37bb8ceac6fa542adb2854d2d0994dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 11/14] fix: skip a group id property that is not an integer

---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 6e67380..923713e 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From b321f8257edbd46f2c6a3b51e12224f7a18c545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 12/14] fix: keep an entity whose group does not exist

---
 src/scene_tree/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 923713e..199004e 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -55,7 +55,15 @@ pub fn run(
             entity_data
                 .iter()
                 .skip(1)
-                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
+                .filter(|(entity, _geometry)| {
+                    // An entity whose group does not exist has no parent to build it
+                    match entity.properties.get("_tb_group") {
+                        Some(group) => !entity_data
+                            .iter()
+                            .any(|(parent, _geometry)| parent.properties.get("_tb_id") == Some(group)),
+                        None => true,
+                    }
+                })
                 .flat_map(build_entity(
                     quarchitect_game_data,
                     forge_game_data,
-- 
2.43.0


From d091ad404f12f35132f662231e3e6feaaf1f47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 13/14] fix: print the 32nd flag of a flags property

---
 src/game_data/forge/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_data/forge/property.rs b/src/game_data/forge/property.rs
index ec488e9..565b8b9 100644
--- a/src/game_data/forge/property.rs
+++ b/src/game_data/forge/property.rs
@@ -106,12 +106,12 @@ impl ToString for Property {
                         .iter()
                         .enumerate()
                         .fold(String::new(), |acc, (i, next)| {
-                            let bit = 2_i32.pow(i as u32);
+                            let bit = 2_u32.pow(i as u32);
                             acc + &format!(
                                 "\t\t{} : \"{}\" : {}\n",
                                 bit,
                                 next,
-                                if *default & bit > 0 { 1 } else { 0 }
+                                if *default as u32 & bit > 0 { 1 } else { 0 }
                             )
                         });
                 format!("{}(flags) =\n\t[\n{}\t]", self.name, flags_string)
-- 
2.43.0


From 30d9cb6e1d01092b46fd1e395061b5194ffecac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 14/14] Add a quarchitect_verif cfg that exposes private stages
 to the verification harness

---
 src/lib.rs     | 15 +++++++++++++++
 src/wad/mod.rs |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 782fd1b..98c65d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,11 +1,26 @@
+#![allow(unexpected_cfgs)]
+
 pub mod game_data;
 pub mod scene_tree;
 pub mod wad;
 
+// The verification harness (--cfg quarchitect_verif) reaches the private stages
+#[cfg(not(quarchitect_verif))]
 mod geo_builder;
+#[cfg(quarchitect_verif)]
+pub mod geo_builder;
+#[cfg(not(quarchitect_verif))]
 mod layer_filter;
+#[cfg(quarchitect_verif)]
+pub mod layer_filter;
+#[cfg(not(quarchitect_verif))]
 mod map;
+#[cfg(quarchitect_verif)]
+pub mod map;
+#[cfg(not(quarchitect_verif))]
 mod types;
+#[cfg(quarchitect_verif)]
+pub mod types;
 
 pub use types::{
     Color, Mat2, Quat, Texture, TextureBlacklist, TextureInfo, Vector2, Vector3, Vertex,
diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index e951216..cd73fa9 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -4,10 +4,19 @@ mod color;
 pub mod mip_level;
 pub mod palette;
 
+#[cfg(not(quarchitect_verif))]
 mod entry;
+#[cfg(quarchitect_verif)]
+pub mod entry;
+#[cfg(not(quarchitect_verif))]
 mod header;
+#[cfg(quarchitect_verif)]
+pub mod header;
 mod mip_data;
+#[cfg(not(quarchitect_verif))]
 mod mip_texture;
+#[cfg(quarchitect_verif)]
+pub mod mip_texture;
 
 pub use color::Color;
 pub use mip_data::{MipDataIndexed, MipDataRGB};
-- 
2.43.0

