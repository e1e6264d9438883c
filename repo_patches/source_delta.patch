From 795b76861258a31948fee1b4dfde8d79adf292e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 1/9] fix: write length-prefixed strings completely

Write::write may accept only part of the data (compressing writers do for
large strings), which corrupted the mapblock.
---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From 41445c3ad057184dd223d77122d05ebcbebf9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 2/9] fix: read the param2 argument by its actual name

setparam2 always panicked because the value was never found.
---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 2fcd80923ffe71f80f3eabd298e3cf4856d47823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 3/9] fix: count the nodes actually filled in inverted partial
 mapblocks

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..a434ab3 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -55,7 +55,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 811f06a8525dc5cd3fb634dcdec3aa40bc792065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 4/9] fix: do not fill mapblocks that are not yet generated

The manual promises that these are not affected.
---
 src/commands/fill.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index a434ab3..972e2e2 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -45,6 +45,10 @@ fn fill(inst: &mut InstBundle) {
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
 
+		if block.flags & 0x08 != 0 {
+			continue; // Block is not generated yet.
+		}
+
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
 			let block_part = area.rel_block_overlap(pos).unwrap();
-- 
2.43.0


From abe75861994dfd5b98afaf985fe8272416a2bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 5/9] fix: do not overlay parts of source mapblocks that are
 not yet generated

Whole mapblocks and offset overlays already skip them.
---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..8c4c1d8 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -72,6 +72,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
+					if src_block.flags & 0x08 != 0 {
+						return Ok(()); // Source is not generated yet.
+					}
 
 					let block_part = area.rel_block_overlap(pos).unwrap();
 					if invert {
-- 
2.43.0


From ff6a57ab717fb342052913d8d0b139345c953748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 6/9] fix: avoid overflow when rounding extreme object
 positions

---
 src/commands/delete_objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..59d5297 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -68,7 +68,7 @@ fn can_delete(
 	if let Some(a) = area {
 		const DIV_FAC: i32 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC));
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0


From c7512ca098f9dab9e50f3071248103e4d8f459c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 7/9] fix: treat inconsistent mapblocks as invalid instead of
 crashing

Unnamed node IDs, or metadata/timers outside the block, made commands
panic (aborting the whole run) or silently rename nodes.
---
 src/map_block/map_block.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..d86db08 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -115,7 +115,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		Ok(Self {
+		let block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -127,7 +127,32 @@ impl MapBlock {
 			timestamp,
 			nimap: nimap.unwrap(),
 			node_timers
-		})
+		};
+		if !block.is_consistent() {
+			return Err(MapBlockError::BadData);
+		}
+		Ok(block)
+	}
+
+	/// Check that every node ID has a name and that metadata and node timers
+	/// are within the block. Commands rely on this to avoid indexing errors.
+	fn is_consistent(&self) -> bool {
+		for id in &self.node_data.nodes {
+			if !self.nimap.0.contains_key(id) {
+				return false;
+			}
+		}
+		for (&pos, _) in &self.metadata {
+			if pos as usize >= self.node_data.nodes.len() {
+				return false;
+			}
+		}
+		for timer in &self.node_timers {
+			if timer.pos as usize >= self.node_data.nodes.len() {
+				return false;
+			}
+		}
+		true
 	}
 
 	pub fn serialize(&self) -> Vec<u8> {
-- 
2.43.0


From 8a6d2702703318891c10d3efc87ca09c390b3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 8/9] fix: remember that a new transaction was begun

After a commit or vacuum, the second operation failed and nothing would
have been committed.
---
 src/map_database.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..83b641b 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -85,9 +85,10 @@ impl<'a> MapDatabase<'a> {
 	}
 
 	#[inline]
-	fn begin_if_needed(&self) -> Result<(), DBError> {
+	fn begin_if_needed(&mut self) -> Result<(), DBError> {
 		if !self.in_transaction {
 			self.conn.execute("BEGIN")?;
+			self.in_transaction = true;
 		}
 		Ok(())
 	}
@@ -100,7 +101,7 @@ impl<'a> MapDatabase<'a> {
 		Ok(())
 	}
 
-	pub fn iter_rows(&self) -> MapDatabaseRows {
+	pub fn iter_rows(&mut self) -> MapDatabaseRows {
 		self.begin_if_needed().unwrap();
 		let stmt = self.conn.prepare("SELECT pos, data FROM blocks").unwrap();
 		MapDatabaseRows {stmt_get: stmt}
-- 
2.43.0


From 8fe5e18c13bf915e1c681ebc20c875a93ae40b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 9/9] fix: an item name ending in EndInventory no longer cuts
 off the inventory

---
 src/map_block/metadata.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 84c5aac..0de3ef0 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -10,6 +10,7 @@ use flate2::Compression;
 
 
 const END_STR: &[u8; 13] = b"EndInventory\n";
+const END_LINE: &[u8; 14] = b"\nEndInventory\n";
 
 
 #[derive(Clone, Debug)]
@@ -35,12 +36,16 @@ impl NodeMetadata {
 			vars.insert(name.clone(), (val, private));
 		}
 
-		let end_finder = TwoWaySearcher::new(END_STR);
 		// This should be safe; EndInventory\n cannot appear in item metadata
-		// since newlines are escaped.
-		let end = end_finder
-			.search_in(&src.get_ref()[src.position() as usize ..])
-			.ok_or(MapBlockError::BadData)?;
+		// since newlines are escaped. It must be a line of its own, since an
+		// item name can end the same way.
+		let rest = &src.get_ref()[src.position() as usize ..];
+		let end = if rest.starts_with(END_STR) {
+			0
+		} else {
+			TwoWaySearcher::new(END_LINE).search_in(rest)
+				.ok_or(MapBlockError::BadData)? + 1
+		};
 
 		let mut inv = vec_with_len(end + END_STR.len());
 		src.read_exact(&mut inv)?;
-- 
2.43.0

