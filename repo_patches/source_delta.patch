From 9f44e48aa96309832be60548687019d1a20afd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 01/15] fix: report the length of utf-16 data in bytes instead
 of code units

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..f933dad 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => 2 * s.encode_utf16().count(),
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From a0597956ed1068918be64d9a42a5d7ba9f98e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 02/15] fix: reject extended atom lengths that are out of range

---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From f57fc3b3aa9c2b5e4dd948c5d89067a5525a3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 03/15] fix: underflow when seeking to the end of an atom
 shorter than its parsed content

---
 src/atom/head.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..b8abcfb 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -222,8 +222,6 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 }
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
-    let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
-    reader.seek(SeekFrom::Current(diff as i64))?;
+    reader.seek(SeekFrom::Start(bounds.end()))?;
     Ok(())
 }
-- 
2.43.0


From 66bc5c09324d6cbc809c6ca5588037a0d50c5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 04/15] fix: don't allocate buffers of a length that the reader
 may not provide

---
 src/atom/data.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index f933dad..89cec0f 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -434,7 +434,7 @@ impl Data {
     }
 }
 
-pub trait ReadData: Read {
+pub trait ReadData: Read + Sized {
     /// Attempts to read an unsigned 8 bit integer from the reader.
     fn read_u8(&mut self) -> io::Result<u8> {
         let mut buf = [0u8];
@@ -465,8 +465,11 @@ pub trait ReadData: Read {
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
     fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        self.by_ref().take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
         Ok(buf)
     }
 
@@ -479,9 +482,7 @@ pub trait ReadData: Read {
 
     /// Attempts to read a utf-16 string from the reader.
     fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
-- 
2.43.0


From 742405c62b8971e51b7afd34a80631c4ce81655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 05/15] fix: underflow when parsing data, mean or name atoms
 that are too short

---
 src/atom/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..8d7f668 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -197,6 +197,13 @@ impl AtomData {
 
             match head.fourcc() {
                 DATA => {
+                    if head.content_len() < 8 {
+                        return Err(crate::Error::new(
+                            crate::ErrorKind::Parsing,
+                            "Data atom (data) is too short".to_owned(),
+                        ));
+                    }
+
                     let (version, flags) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
@@ -213,6 +220,13 @@ impl AtomData {
                     data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
                 }
                 MEAN => {
+                    if head.content_len() < 4 {
+                        return Err(crate::Error::new(
+                            crate::ErrorKind::Parsing,
+                            "Freeform atom (mean) is too short".to_owned(),
+                        ));
+                    }
+
                     let (version, _) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
@@ -224,6 +238,13 @@ impl AtomData {
                     mean = Some(reader.read_utf8(head.content_len() - 4)?);
                 }
                 NAME => {
+                    if head.content_len() < 4 {
+                        return Err(crate::Error::new(
+                            crate::ErrorKind::Parsing,
+                            "Freeform atom (name) is too short".to_owned(),
+                        ));
+                    }
+
                     let (version, _) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
-- 
2.43.0


From 02283dc386c90a1c79f43b4df09072ae534e4cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 06/15] fix: division by zero and overflow when computing the
 movie duration

---
 src/atom/mvhd.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..5f406b4 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(timescale, duration)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(timescale, duration)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,17 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Converts a duration measured in units of the timescale.
+fn scale_duration(timescale: u64, duration: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Time scale of the movie header (mvhd) is 0".to_owned(),
+        ));
+    }
+
+    let secs = duration / timescale;
+    let nanos = (duration % timescale) * 1_000_000_000 / timescale;
+    Ok(Duration::new(secs, nanos as u32))
+}
-- 
2.43.0


From 7ab9bbcc9ba0c76702f734d8c75f0adc286bd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 07/15] fix: underflow when parsing descriptors that are too
 short

---
 src/atom/mp4a.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..01511bd 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,7 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().saturating_sub(4 + head_len);
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -221,7 +221,7 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
     let channel_config = ((num >> 3) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current(len as i64 - 2))?;
     Ok(())
 }
 
-- 
2.43.0


From c3fadde84ffe761fcd9453897b397830b697f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 08/15] fix: don't allocate chunk offset tables of a size that
 the file may not provide

---
 src/atom/co64.rs | 2 +-
 src/atom/stco.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From 8f8fd808d3cfeb1fc5977311729cc48489a6bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 09/15] fix: don't keep items without any data, they can't be
 read back

---
 src/tag/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..3395f0c 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1278,6 +1278,7 @@ impl Tag {
                 self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
             }
         }
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// If an atom corresponding to the identifier exists, the new data will be added to it,
@@ -1335,6 +1336,7 @@ impl Tag {
             Some(a) => a.data.extend(data),
             None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
         }
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// Returns true if this tag contains any metadata atoms, false otherwise.
-- 
2.43.0


From 4b1da0701141b43b7aa71fa7acbfbda0da887344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 10/15] fix: validate all chunk offset tables before modifying
 the file

---
 src/atom/mod.rs | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 8d7f668..9137308 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -474,9 +474,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
 
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // reading sample table chunk offsets
+    let mut stco_tables = Vec::new();
+    let mut co64_tables = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -485,29 +485,35 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         for stbl in stbl_atoms {
             if let Some(a) = &stbl.stco {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Stco::parse(reader, a.size())?;
-
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
-                }
-                writer.flush()?;
+                stco_tables.push(Stco::parse(reader, a.size())?);
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Co64::parse(reader, a.size())?;
-
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
-                }
-                writer.flush()?;
+                co64_tables.push(Co64::parse(reader, a.size())?);
             }
         }
     }
 
+    let mut writer = BufWriter::new(file);
+
+    // adjusting sample table chunk offsets
+    for chunk_offset in stco_tables.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u32;
+            writer.write_all(&u32::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+    for chunk_offset in co64_tables.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u64;
+            writer.write_all(&u64::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From 88204b1c4db1e52c695688fca27806d354e5158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 11/15] fix: keep adjusted chunk offsets of tracks located
 behind the metadata

---
 src/atom/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 9137308..0ba5571 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -467,12 +467,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     };
     len_diff += new_atom_len as i64;
 
-    // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
-    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
-    reader.seek(SeekFrom::Start(moved_data_start))?;
-    reader.read_to_end(&mut moved_data)?;
 
     // reading sample table chunk offsets
     let mut stco_tables = Vec::new();
@@ -514,6 +509,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         writer.flush()?;
     }
 
+    // reading moved data, which may contain adjusted sample table chunk offsets
+    let moved_data_len = old_file_len - moved_data_start;
+    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
+    reader.seek(SeekFrom::Start(moved_data_start))?;
+    reader.read_to_end(&mut moved_data)?;
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From 493ec988680fd8d04309c2cd77c5a16a333a8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 12/15] fix: only adjust chunk offsets that refer to moved data

---
 src/atom/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 0ba5571..249148d 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -495,7 +495,10 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     for chunk_offset in stco_tables.iter() {
         writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u32;
+            let new_offset = match *co as u64 >= moved_data_start {
+                true => (*co as i64 + len_diff) as u32,
+                false => *co,
+            };
             writer.write_all(&u32::to_be_bytes(new_offset))?;
         }
         writer.flush()?;
@@ -503,7 +506,10 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     for chunk_offset in co64_tables.iter() {
         writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u64;
+            let new_offset = match *co >= moved_data_start {
+                true => (*co as i64 + len_diff) as u64,
+                false => *co,
+            };
             writer.write_all(&u64::to_be_bytes(new_offset))?;
         }
         writer.flush()?;
-- 
2.43.0


From f52c4097fba03a19c793060e3163261a7c5bc1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 13/15] fix: reject atoms that exceed the file length when
 writing

---
 src/atom/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 249148d..4e24768 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -468,6 +468,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     len_diff += new_atom_len as i64;
 
     let old_file_len = reader.seek(SeekFrom::End(0))?;
+    if moved_data_start > old_file_len || update_atoms.iter().any(|a| a.end() > old_file_len) {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Length of an atom exceeds the file length".to_owned(),
+        ));
+    }
 
     // reading sample table chunk offsets
     let mut stco_tables = Vec::new();
@@ -507,7 +513,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
         for co in chunk_offset.offsets.iter() {
             let new_offset = match *co >= moved_data_start {
-                true => (*co as i64 + len_diff) as u64,
+                true => (*co as i64).wrapping_add(len_diff) as u64,
                 false => *co,
             };
             writer.write_all(&u64::to_be_bytes(new_offset))?;
-- 
2.43.0


From ac6d3242238e89112d67d0c4c000f407e69192a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 14/15] fix: take_genre removes the custom genres also when a
 standard genre is returned

---
 src/tag/genre.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..6f09cda 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -168,11 +168,9 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        let standard = self.standard_genre().and_then(stanard_genre);
+        let custom = self.take_custom_genre();
+        standard.map(str::to_owned).or(custom)
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 6d24389fcac5bf48fd67da2015c0156f95ff7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 15/15] fix: genre and take_genre skip unknown standard genre
 codes like genres

---
 src/tag/genre.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 6f09cda..f98842e 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,7 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        let standard = self.standard_genre().and_then(stanard_genre);
+        let standard = self.standard_genres().find_map(stanard_genre);
         let custom = self.take_custom_genre();
         standard.map(str::to_owned).or(custom)
     }
-- 
2.43.0

