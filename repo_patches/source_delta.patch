From 631f5b67c8de5d640a90d20e6a73b9e106bd57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 01/26] fix: write the record length when serializing a REL
 directory entry

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 3ccc898..0252f93 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -282,6 +282,7 @@ impl RelativeExtra {
         assert_eq!(bytes.len(), EXTRA_SIZE);
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET] = self.first_side_sector.0;
         bytes[Self::FIRST_SIDE_SECTOR_OFFSET + 1] = self.first_side_sector.1;
+        bytes[Self::RECORD_LENGTH_OFFSET] = self.record_length;
         (&mut bytes[Self::UNUSED_OFFSET..EXTRA_SIZE]).copy_from_slice(&self.unused);
     }
 }
-- 
2.43.0


From ae945d1cb8f7114816ff5f35929827aa0f3d5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 02/26] fix: serialize the GEOS info description into the
 description field

---
 src/disk/geos/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/geos/mod.rs b/src/disk/geos/mod.rs
index 924f454..09cd212 100644
--- a/src/disk/geos/mod.rs
+++ b/src/disk/geos/mod.rs
@@ -331,7 +331,7 @@ impl GEOSInfo {
             .slice_mut(Self::RESERVED_OFFSET, Self::RESERVED_SIZE)
             .copy_from_slice(&self.reserved);
         self.description
-            .to_bytes(bytes.slice_mut(Self::APPLICATION_OFFSET, Self::APPLICATION_SIZE));
+            .to_bytes(bytes.slice_mut(Self::DESCRIPTION_OFFSET, Self::DESCRIPTION_SIZE));
     }
 }
 
-- 
2.43.0


From fc6434e60c82565ed4423b03dd5870f8ff8af58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 03/26] fix: consume the bytes returned by GEOSReader when the
 output buffer fills

---
 src/disk/geos/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disk/geos/reader.rs b/src/disk/geos/reader.rs
index dfa2a1c..347adb0 100644
--- a/src/disk/geos/reader.rs
+++ b/src/disk/geos/reader.rs
@@ -213,6 +213,9 @@ impl Read for GEOSReader {
             let _ = &mut buf[..bytes].copy_from_slice(&self.buffer[..bytes]);
             bytes_written += bytes;
 
+            // Reduce the input buffer
+            self.buffer.drain(0..bytes);
+
             if bytes == buf.len() {
                 // Output buffer filled -- nothing more to do for now.
                 break;
@@ -223,9 +226,6 @@ impl Read for GEOSReader {
             let value: &mut [u8] = std::mem::take(buf_ref);
             *buf_ref = &mut value[bytes..];
 
-            // Reduce the input buffer
-            self.buffer.drain(0..bytes);
-
             // Input buffer drained -- transition to next step
             if self.buffer.is_empty() {
                 // State transition
-- 
2.43.0


From 8958e1ff0cf77376ccd7bd71f683a915d36ee742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 04/26] fix: do not treat the VLIR index block link as a record

---
 src/disk/geos/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index 7970c11..bff659c 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -28,7 +28,8 @@ impl GEOSFile {
         let vlir = if entry.is_vlir()? {
             let blocks = blocks.borrow();
             let index_block = blocks.sector(entry.first_sector)?;
-            let records: Vec<Option<Location>> = index_block
+            // The first two bytes of the index block are the (unused) link.
+            let records: Vec<Option<Location>> = index_block[2..]
                 .chunks(2)
                 .take_while(|chunk| chunk[0] != 0x00 || chunk[1] != 0x00)
                 .map(|chunk| {
-- 
2.43.0


From c3da76d2eb7bf3a3271f485e1628908962fb54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 05/26] fix: detect chain loops when provisioning a writer

---
 src/disk/chain.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 03e3365..bb61900 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -220,7 +220,12 @@ impl ChainWriter {
 
             let mut block = blocks.sector(start)?;
             tail_location = start;
+            let mut visited_sectors = HashSet::new();
             while let ChainLink::Next(location) = ChainLink::new(block)? {
+                // Loop detection.
+                if !visited_sectors.insert(tail_location) {
+                    return Err(DiskError::ChainLoop.into());
+                }
                 block = blocks.sector(location)?;
                 tail_location = location;
             }
-- 
2.43.0


From 0d0467bcd0725c85580165a62f9612f48faad385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:49 +0000
Subject: [PATCH 06/26] fix: report malformed REL side sectors and record
 lengths instead of panicking

---
 src/disk/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disk/file.rs b/src/disk/file.rs
index 35b6c9c..2ea9ee8 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -340,6 +340,9 @@ impl RelativeFile {
             Extra::Relative(ref e) => (e.record_length as usize, e.first_side_sector),
             _ => return Err(DiskError::InvalidRelativeFile.into()),
         };
+        if record_size == 0 {
+            return Err(DiskError::InvalidRelativeFile.into());
+        }
 
         // Find side sectors.  Side sector locations are stored redundantly -- once as
         // a linked chain of sectors, and also as a list within each side
@@ -353,6 +356,9 @@ impl RelativeFile {
         for sector in chain {
             let sector = sector?;
             side_sectors.push(sector.location);
+            if sector.data.len() < SIDE_SECTOR_DATA_OFFSET {
+                return Err(DiskError::InvalidRelativeFile.into());
+            }
 
             // Process the list of side sectors which is contained within each side sector.
             let list_bytes = &sector.data
-- 
2.43.0


From e00ac6f2ba4f6e7fba1aa2bed9a7e6df570bf30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:49 +0000
Subject: [PATCH 07/26] fix: ignore a partial trailing slot when looking for a
 free directory entry

---
 src/disk/directory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 0252f93..868e528 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -717,7 +717,7 @@ where
             let ChainSector { data, location } = chain_block?;
             last_sector = location;
             let mut offset: u8 = 0;
-            for chunk in data.chunks(ENTRY_SIZE) {
+            for chunk in data.chunks_exact(ENTRY_SIZE) {
                 let entry = DirectoryEntry::from_positioned_bytes(
                     chunk,
                     Position {
-- 
2.43.0


From cdb6a4f9ada735896a09fbca6f77cf31673d0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:49 +0000
Subject: [PATCH 08/26] fix: reject locations not represented in the BAM
 instead of panicking

---
 src/disk/bam.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/disk/bam.rs b/src/disk/bam.rs
index ef90a2f..5dd08c9 100644
--- a/src/disk/bam.rs
+++ b/src/disk/bam.rs
@@ -275,22 +275,43 @@ impl Bam {
 
     pub fn entry(&self, track: u8) -> io::Result<&BamEntry> {
         self.check_validity()?;
+        self.check_track(track)?;
         Ok(&self.entries[(track - 1) as usize])
     }
 
     pub fn entry_mut(&mut self, track: u8) -> io::Result<&mut BamEntry> {
         self.check_validity()?;
+        self.check_track(track)?;
         Ok(&mut self.entries[(track - 1) as usize])
     }
 
+    /// Confirm that the BAM has an entry for the specified track.
+    fn check_track(&self, track: u8) -> io::Result<()> {
+        if track < 1 || track as usize > self.entries.len() {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
+    /// Confirm that the BAM can represent the specified location.
+    pub fn check_location(&self, location: Location) -> io::Result<()> {
+        self.check_track(location.0)?;
+        if location.1 >= self.format.sectors_in_track(location.0) {
+            return Err(DiskError::InvalidLocation.into());
+        }
+        Ok(())
+    }
+
     pub fn allocate(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.allocate(location.1);
         Ok(())
     }
 
     pub fn free(&mut self, location: Location) -> io::Result<()> {
         self.check_validity()?;
+        self.check_location(location)?;
         self.entry_mut(location.0)?.free(location.1);
         Ok(())
     }
-- 
2.43.0


From 10043ffa266702ae80eca5b003d08c91da461bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:50 +0000
Subject: [PATCH 09/26] fix: make deletion all-or-nothing and write the BAM
 after freeing every block

---
 src/disk/chain.rs     | 22 ++++++++++++++++------
 src/disk/file.rs      | 16 +++++-----------
 src/disk/geos/file.rs | 23 +++++------------------
 3 files changed, 26 insertions(+), 35 deletions(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index bb61900..820bb44 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -371,14 +371,24 @@ impl io::Write for ChainWriter {
 pub fn remove_chain(blocks: BlockDeviceRef, bam: BamRef, start: Location) -> io::Result<()> {
     // Read the whole chain first to be sure we can visit every block with no
     // errors.
-    let locations = ChainIterator::new(blocks, start).locations()?;
+    let locations = ChainIterator::new(blocks.clone(), start).locations()?;
+    free_locations(blocks, bam, &locations)
+}
 
-    // Deallocate
+/// Deallocate the provided blocks and write the updated BAM.  If any of the
+/// blocks cannot be deallocated, none of them are.
+pub fn free_locations(
+    blocks: BlockDeviceRef,
+    bam: BamRef,
+    locations: &[Location],
+) -> io::Result<()> {
+    blocks.borrow().check_writability()?;
     let mut bam = bam.borrow_mut();
     for location in locations {
-        bam.free(location)?;
+        bam.check_location(*location)?;
     }
-    bam.flush()?;
-
-    Ok(())
+    for location in locations {
+        bam.free(*location)?;
+    }
+    bam.flush()
 }
diff --git a/src/disk/file.rs b/src/disk/file.rs
index 2ea9ee8..ec57b93 100644
--- a/src/disk/file.rs
+++ b/src/disk/file.rs
@@ -475,17 +475,11 @@ impl FileOps for RelativeFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the chain.
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate side sectors
-        for side_sector in self.side_sectors.iter() {
-            self.bam.borrow_mut().free(*side_sector)?
-        }
+        // Deallocate the chain and the side sectors.
+        let mut locations =
+            ChainIterator::new(self.blocks.clone(), self.entry.first_sector).locations()?;
+        locations.extend(self.side_sectors.iter());
+        chain::free_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
 
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
diff --git a/src/disk/geos/file.rs b/src/disk/geos/file.rs
index bff659c..d320168 100644
--- a/src/disk/geos/file.rs
+++ b/src/disk/geos/file.rs
@@ -89,24 +89,11 @@ impl FileOps for GEOSFile {
     }
 
     fn delete(&mut self) -> io::Result<()> {
-        // Deallocate the main chain (Sequential) or index block (VLIR).
-        chain::remove_chain(
-            self.blocks.clone(),
-            self.bam.clone(),
-            self.entry.first_sector,
-        )?;
-
-        // Deallocate the info block, if present.
-        if let Some(info_location) = self.entry.info_location()? {
-            self.bam.borrow_mut().free(info_location)?
-        }
-
-        // If this is a VLIR file, deallocate the VLIR records.
-        if let Some(ref records) = self.vlir {
-            for record in records.iter().flatten() {
-                chain::remove_chain(self.blocks.clone(), self.bam.clone(), *record)?;
-            }
-        }
+        // Deallocate the main chain (Sequential) or index block (VLIR), the info block
+        // (if present), and the VLIR records (if this is a VLIR file).  All of the
+        // chains are read first to be sure we can visit every block with no errors.
+        let locations = self.occupied_sectors()?;
+        chain::free_locations(self.blocks.clone(), self.bam.clone(), &locations)?;
         // Mark the file as "DEL" and "open" (*DEL) in the directory.
         self.entry.file_attributes.file_type = FileType::DEL;
         self.entry.file_attributes.closed_flag = false;
-- 
2.43.0


From 00abb302fdc8eaa6ceac652c3a0ced8c73ff4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:32 +0000
Subject: [PATCH 10/26] fix: write the BAM to the image when a file is created
 or the directory grows

---
 src/disk/directory.rs | 1 +
 src/disk/mod.rs       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index 868e528..c69a3d5 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -772,6 +772,7 @@ where
     {
         let mut bam = bam.borrow_mut();
         bam.allocate(new_sector)?;
+        bam.flush()?;
     }
 
     // Link to the new sector from the old sector
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 856d63f..45c7086 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -465,6 +465,10 @@ pub trait Disk {
                 return Err(e);
             }
         }
+        drop(blocks);
+
+        // Write the BAM, so the disk image reflects the allocation.
+        bam.flush()?;
 
         // Return the file handle
         Ok(File::Linear(LinearFile::new(
-- 
2.43.0


From baf0799eebae3baa87aba967d46c079571102749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 11/26] fix: do not allocate blocks when creating a file on a
 read-only image

---
 src/disk/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 45c7086..fb99b05 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -423,6 +423,9 @@ pub trait Disk {
         // Only Scheme::Linear files allow writing at present.
         assert_eq!(scheme, Scheme::Linear);
 
+        // Don't touch the in-memory BAM if the image cannot be written.
+        self.blocks_ref().check_writability()?;
+
         // Assure the filename is valid and available.
         directory::check_filename_validity(filename)?;
         self.check_filename_availability(filename)?;
-- 
2.43.0


From 30fcd4303494e5cc02f7863d88567788919c327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 12/26] fix: reject an oversized disk name before erasing the
 disk

---
 src/disk/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index fb99b05..a237fd2 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -285,6 +285,11 @@ pub trait Disk {
     fn write_format(&mut self, name: &Petscii, id: &Id) -> io::Result<()> {
         let disk_format = self.native_disk_format();
 
+        // Confirm that the name fits before touching the disk.
+        if name.len() > DISK_NAME_SIZE {
+            return Err(DiskError::FilenameTooLong.into());
+        }
+
         // Zero all sectors
         let track_count = self.blocks_ref().geometry().tracks;
         for track in disk_format.first_track..=track_count {
-- 
2.43.0


From 061b3880605c10e36264d95cbef074e7d163d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 13/26] fix: ignore trailing padding bytes when looking up
 filenames

---
 src/disk/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index a237fd2..642fbf0 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -351,10 +351,12 @@ pub trait Disk {
 
     /// Locate a directory entry based on its filename.
     fn find_directory_entry(&self, filename: &Petscii) -> io::Result<DirectoryEntry> {
+        // Filenames are stored with padding, so trailing padding is insignificant.
+        let filename = Petscii::from_padded_bytes(filename.as_bytes(), PADDING_BYTE);
         self.iter()
             .find(|x| match x {
                 Err(_) => true,
-                Ok(ref entry) => entry.filename == *filename,
+                Ok(ref entry) => entry.filename == filename,
             })
             .unwrap_or_else(|| Err(DiskError::NotFound.into()))
     }
-- 
2.43.0


From 72202c6ce3753b192ce1346a20854fba6949c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 14/26] fix: reset the storage scheme when a directory slot is
 reused

---
 src/disk/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/directory.rs b/src/disk/directory.rs
index c69a3d5..83ebcfa 100644
--- a/src/disk/directory.rs
+++ b/src/disk/directory.rs
@@ -457,6 +457,7 @@ impl DirectoryEntry {
         self.first_sector = Location::new(0, 0);
         self.filename = Petscii::from_bytes(&[0u8; ENTRY_FILENAME_LENGTH]);
         self.extra = Extra::default();
+        self.scheme = Scheme::Linear;
         self.file_size = 0;
         // The position field must be left untouched.
     }
-- 
2.43.0


From ef583ee338e387723811490d93456d57e40cfc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 15/26] fix: create or overwrite the image file when create_new
 is false

---
 src/disk/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disk/image.rs b/src/disk/image.rs
index ccad6ed..136f11b 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -34,6 +34,8 @@ impl Image {
         let file = OpenOptions::new()
             .read(true)
             .write(true)
+            .create(true)
+            .truncate(true)
             .create_new(create_new)
             .open(path)?;
         file.set_len(length as u64)?;
-- 
2.43.0


From f3f46bfad463cb56a09cb86b6cb24a08d771b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 16/26] fix: do not overflow the directory entry block count

---
 src/disk/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index 820bb44..b33b59c 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -245,7 +245,7 @@ impl ChainWriter {
     fn increment_entry_blocks(&mut self) -> io::Result<()> {
         let mut blocks = self.blocks.borrow_mut();
         blocks.positioned_read(&mut self.entry)?;
-        self.entry.file_size += 1;
+        self.entry.file_size = self.entry.file_size.saturating_add(1);
         blocks.positioned_write(&self.entry)?;
         Ok(())
     }
-- 
2.43.0


From dde3e69eb643beb1dcffaf40e95349feb278ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 17/26] fix: report the bytes accepted by a write that runs out
 of space

---
 src/disk/chain.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disk/chain.rs b/src/disk/chain.rs
index b33b59c..d008263 100644
--- a/src/disk/chain.rs
+++ b/src/disk/chain.rs
@@ -329,7 +329,13 @@ impl io::Write for ChainWriter {
                 ChainLink::Next(_) => unreachable!(), // The stored buffer is always a tail block.
                 ChainLink::Tail(nbytes) if nbytes == BLOCK_SIZE => {
                     // Allocate a new block
-                    let remaining = self.allocate_next_block()?;
+                    let remaining = match self.allocate_next_block() {
+                        Ok(remaining) => remaining,
+                        // Report the bytes already accepted; the error (if persistent) will
+                        // be returned by the next write.
+                        Err(_) if total_nbytes > 0 => return Ok(total_nbytes),
+                        Err(e) => return Err(e),
+                    };
                     (BLOCK_SIZE - remaining, remaining)
                 }
                 ChainLink::Tail(nbytes) => (nbytes, BLOCK_SIZE - nbytes),
-- 
2.43.0


From 7d054ec5cbfac977bffcd4d90eebdf671b77e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 18/26] fix: cdisk exits with a failure status when a command
 fails

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 9551127..31bff5f 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -200,6 +200,7 @@ fn main() {
     };
     if let Err(e) = result {
         eprintln!("Error: {}", e);
+        process::exit(EXIT_FAILURE);
     }
 }
 
-- 
2.43.0


From 7ed398bf1af6ea7e9d082519aff371267be314dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 19/26] fix: cdisk append opens the disk image for writing

---
 src/bin/cdisk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 31bff5f..7b21394 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -320,7 +320,9 @@ fn open_cbm_reader(diskimage: &str, filename: &str) -> io::Result<Box<dyn Read>>
 
 /// Open a file on a CBM disk image for appending.
 fn open_cbm_appender(diskimage: &str, filename: &str) -> io::Result<Box<dyn Write>> {
-    Ok(Box::new(open_cbm_file(diskimage, filename)?.writer()?))
+    let disk = disk::open(diskimage, true)?;
+    let file = disk.open_file(&filename.into())?;
+    Ok(Box::new(file.writer()?))
 }
 
 /// Open an existing GEOS file from the specified disk image for reading.
-- 
2.43.0


From 5e6f06f4a261ef2f42d8bb0141034811f9296900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:36 +0000
Subject: [PATCH 20/26] fix: cdisk geosread reports non-GEOS files instead of
 panicking

---
 src/bin/cdisk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 7b21394..4b6664d 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -333,7 +333,12 @@ fn open_geos_file(diskimage: &str, filename: &str) -> io::Result<GEOSFile> {
     let file = match file {
         File::GEOSVLIR(f) => f,
         File::GEOSSequential(f) => f,
-        _ => unreachable!(),
+        _ => {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "Not a GEOS file.",
+            ))
+        }
     };
     Ok(file)
 }
-- 
2.43.0


From 79e46935c969290973abb8f17e44c8f77d6986a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:00 +0000
Subject: [PATCH 21/26] fix: cdisk bam edits cover every track of the disk and
 reject invalid sectors

---
 src/bin/cdisk.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 4b6664d..7b6d175 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -6,7 +6,7 @@ use std::process;
 use cbm::disk::directory::FileType;
 use cbm::disk::file::{File, FileOps, Scheme};
 use cbm::disk::geos::GEOSFile;
-use cbm::disk::{self, D64, D71, D81, DiskType};
+use cbm::disk::{self, D64, D71, D81, DiskError, DiskType};
 use cbm::Petscii;
 
 // Possible exit codes
@@ -225,22 +225,22 @@ fn optional_u8_validator(v: String, min: u8, max: u8) -> Result<(), String> {
     }
 }
 
-/// Require a track argument to be a number in the range 1-40 or "all".
+/// Require a track argument to be a number in the range 1-80 or "all".
 fn optional_track_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 1, 40)
+    optional_u8_validator(v, 1, 80)
 }
 
 fn optional_track_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 1, 40).unwrap()
+    optional_u8_parser(v, 1, 80).unwrap()
 }
 
-/// Require a sector argument to be a number in the range 0-20 or "all".
+/// Require a sector argument to be a number in the range 0-39 or "all".
 fn optional_sector_validator(v: String) -> Result<(), String> {
-    optional_u8_validator(v, 0, 20)
+    optional_u8_validator(v, 0, 39)
 }
 
 fn optional_sector_parser(v: String) -> Option<u8> {
-    optional_u8_parser(v, 0, 20).unwrap()
+    optional_u8_parser(v, 0, 39).unwrap()
 }
 
 /// A FillReader is simply a reader that supplies a certain number of the
@@ -284,9 +284,10 @@ fn cmd_bam_edit(
     let format = disk.disk_format()?.clone();
     let bam = disk.bam()?;
     let mut bam = bam.borrow_mut();
+    let all_tracks = track.is_none();
     let track_range = match track {
         Some(t) => t..=t,
-        None => 1..=35,
+        None => format.first_track..=format.last_track,
     };
     for track in track_range {
         let entry = bam.entry_mut(track)?;
@@ -295,6 +296,13 @@ fn cmd_bam_edit(
             None => 0..=(format.sectors_in_track(track) - 1),
         };
         for sector in sector_range {
+            if sector >= format.sectors_in_track(track) {
+                if all_tracks {
+                    // Skip the tracks that don't have the specified sector.
+                    continue;
+                }
+                return Err(DiskError::InvalidLocation.into());
+            }
             if allocate {
                 entry.allocate(sector);
             } else {
-- 
2.43.0


From 249f39d79ff46228b1e9f2fb74ddb0cad335075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:41 +0000
Subject: [PATCH 22/26] fix: reject an oversized filename when writing a
 directory entry

---
 src/disk/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 642fbf0..6407508 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -372,6 +372,7 @@ pub trait Disk {
     /// Write the provided directory entry to disk, using the same slot as it was
     /// originally read from.
     fn write_directory_entry(&mut self, entry: &DirectoryEntry) -> io::Result<()> {
+        directory::check_filename_validity(&entry.filename)?;
         let mut blocks = self.blocks_ref_mut();
         blocks.positioned_write(entry)?;
         Ok(())
-- 
2.43.0


From 3e4135b3cd3582c2703279837aa26c09365b4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:22 +0000
Subject: [PATCH 23/26] fix: do not place the first block of a file on a
 reserved track

---
 src/disk/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disk/format.rs b/src/disk/format.rs
index 314d58f..f9f2068 100644
--- a/src/disk/format.rs
+++ b/src/disk/format.rs
@@ -157,7 +157,7 @@ impl DiskFormat {
             // Check bottom half
             if distance <= self.directory_track {
                 let track = self.directory_track - distance;
-                if track >= self.first_track {
+                if track >= self.first_track && !self.is_reserved_track(track) {
                     let entry = bam.entry(track)?;
                     if entry.has_availability() {
                         return Ok((track, entry));
@@ -166,7 +166,7 @@ impl DiskFormat {
             }
             // Check top half
             let track = self.directory_track + distance;
-            if track <= self.last_track {
+            if track <= self.last_track && !self.is_reserved_track(track) {
                 let entry = bam.entry(track)?;
                 if entry.has_availability() {
                     return Ok((track, entry));
-- 
2.43.0


From f7842d77431cbbd64bee8f3a0d495bc29a9eba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:20 +0000
Subject: [PATCH 24/26] fix: cdisk: report arguments that are not valid UTF-8
 instead of panicking

---
 src/bin/cdisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 7b6d175..13b6e18 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -23,6 +23,7 @@ fn main() {
         .version(clap::crate_version!())
         .about("Read, write, and understand D64/D71/D81 disk images.")
         .setting(AppSettings::SubcommandRequiredElseHelp)
+        .global_setting(AppSettings::StrictUtf8)
         .arg(Arg::with_name("diskimage").required(true))
         .subcommand(
             SubCommand::with_name("bam")
-- 
2.43.0


From 0cdb071b163a34de1e5eb242fffd3fac1a7a40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:20 +0000
Subject: [PATCH 25/26] fix: cdisk: read the whole source file before changing
 the disk image

---
 src/bin/cdisk.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdisk.rs b/src/bin/cdisk.rs
index 13b6e18..840b6c4 100644
--- a/src/bin/cdisk.rs
+++ b/src/bin/cdisk.rs
@@ -406,9 +406,12 @@ fn cmd_write(
     file_type: FileType,
 ) -> io::Result<()> {
     let destination_filename = destination_filename.unwrap_or(source_filename);
-    let mut reader = open_fs_reader(source_filename)?;
+    // Read all of the source first, so an unreadable source leaves the disk image
+    // unchanged.
+    let mut data = Vec::new();
+    open_fs_reader(source_filename)?.read_to_end(&mut data)?;
     let mut writer = open_cbm_writer(diskimage, destination_filename, file_type)?;
-    io::copy(&mut reader, &mut writer)?;
+    writer.write_all(&data)?;
     writer.flush()
 }
 
@@ -418,9 +421,12 @@ fn cmd_append(
     destination_filename: Option<&str>,
 ) -> io::Result<()> {
     let destination_filename = destination_filename.unwrap_or(source_filename);
-    let mut reader = open_fs_reader(source_filename)?;
+    // Read all of the source first, so an unreadable source leaves the disk image
+    // unchanged.
+    let mut data = Vec::new();
+    open_fs_reader(source_filename)?.read_to_end(&mut data)?;
     let mut writer = open_cbm_appender(diskimage, destination_filename)?;
-    io::copy(&mut reader, &mut writer)?;
+    writer.write_all(&data)?;
     writer.flush()
 }
 
-- 
2.43.0


From 793d9dca451dd3f21c974f7f080241f0a3d5f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 26/26] hook: observe image writes when built with --cfg
 cbm_verif

---
 src/disk/image.rs |  2 ++
 src/disk/mod.rs   |  2 ++
 src/disk/verif.rs | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+)
 create mode 100644 src/disk/verif.rs

diff --git a/src/disk/image.rs b/src/disk/image.rs
index 136f11b..ab833d2 100644
--- a/src/disk/image.rs
+++ b/src/disk/image.rs
@@ -78,6 +78,8 @@ impl Image {
 
     pub fn slice_mut(&mut self, offset: usize, length: usize) -> io::Result<&mut [u8]> {
         self.check_bounds(offset + length)?;
+        #[cfg(cbm_verif)]
+        crate::disk::verif::before_write(self.slice(0, self.len())?);
         match self {
             Image::ReadOnlyMap(_) => Err(DiskError::ReadOnly.into()),
             Image::ReadWriteMap(mmap) => Ok(&mut mmap[offset..offset + length]),
diff --git a/src/disk/mod.rs b/src/disk/mod.rs
index 6407508..179fdc2 100644
--- a/src/disk/mod.rs
+++ b/src/disk/mod.rs
@@ -101,6 +101,8 @@ mod format;
 mod header;
 mod image;
 mod validation;
+#[cfg(cbm_verif)]
+pub mod verif;
 
 pub mod directory;
 pub mod file;
diff --git a/src/disk/verif.rs b/src/disk/verif.rs
new file mode 100644
index 0000000..ed8d940
--- /dev/null
+++ b/src/disk/verif.rs
@@ -0,0 +1,24 @@
+//! Observation of image writes for verification, compiled only with
+//! `--cfg cbm_verif`.
+
+use std::cell::RefCell;
+
+type Observer = Box<dyn FnMut(&[u8])>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Observer>> = RefCell::new(None);
+}
+
+/// Install (or remove) the observer of this thread.  It is given the whole
+/// image as it stands before each write.
+pub fn set_observer(observer: Option<Observer>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+pub(crate) fn before_write(image: &[u8]) {
+    OBSERVER.with(|o| {
+        if let Some(ref mut f) = *o.borrow_mut() {
+            f(image)
+        }
+    });
+}
-- 
2.43.0

