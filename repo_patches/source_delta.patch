From 691b332a757931bc193b2fde4cc6569d2a3feb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 01/21] fix: end strings parsed from JSON at the first null
 byte

Text containing null bytes produced a string that was longer than the string
read back from the written file.
---
 ssbh_lib/src/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..909dae1 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,8 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // Null bytes can't be stored in a null terminated string.
+    Ok(CString::<1>::from_bytes(string.as_bytes()).0)
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0


From 4f5aab2b0effb3832765d78c4b75dd27a838b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 02/21] fix: don't truncate an existing file when writing to a
 path fails

The file was created before the data was written to the buffer, so saving a
MeshEx with inconsistent counts destroyed the file at that path.
---
 ssbh_lib/src/lib.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..410f83c 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,8 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
+        write_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))?;
         Ok(())
     }
 }
@@ -251,8 +250,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
+                write_buffered(path, |c| write_ssbh_file(c, self, $magic))?;
                 Ok(())
             }
         }
@@ -289,8 +287,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
+                write_buffered(path, |c| self.write(c))?;
                 Ok(())
             }
         }
@@ -772,10 +769,10 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
 }
 
 pub(crate) fn write_buffered<
-    W: Write + Seek,
+    P: AsRef<Path>,
     F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
 >(
-    writer: &mut W,
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,7 +780,9 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
+    // Only create the file once writing succeeds to avoid truncating existing files on error.
+    let mut file = fs::File::create(path)?;
+    file.write_all(cursor.get_mut())?;
     Ok(())
 }
 
-- 
2.43.0


From f05f106ad9381ce07d286a1c16e35dd84b0a4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 03/21] fix: don't write padding for empty byte buffers

Writing zero bytes past the end of a cursor extends it with zeros, so files
ending with an empty byte buffer had a different size depending on the writer
(see the align_v20 test).
---
 ssbh_lib/src/arrays.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_lib/src/arrays.rs b/ssbh_lib/src/arrays.rs
index 6159d5c..e9cfb25 100644
--- a/ssbh_lib/src/arrays.rs
+++ b/ssbh_lib/src/arrays.rs
@@ -325,7 +325,10 @@ impl SsbhWrite for SsbhByteBuffer {
         writer.seek(SeekFrom::Start(*data_ptr))?;
         // Use a custom implementation to avoid writing bytes individually.
         // Pointers in array elements should point past the end of the array.
-        writer.write_all(&self.elements)?;
+        // Empty writes past the end may still extend the writer with padding.
+        if !self.elements.is_empty() {
+            writer.write_all(&self.elements)?;
+        }
         *data_ptr += self.elements.len() as u64;
 
         writer.seek(SeekFrom::Start(current_pos))?;
-- 
2.43.0


From 68e6b15c50ff4e6a3048e424868b54d5f16934dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 04/21] fix: return errors instead of panicking for malformed
 shader binaries

---
 ssbh_data/src/shdr_data.rs | 82 ++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..a587c32 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<Vec<_>>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<Vec<_>>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<Vec<_>>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<Vec<_>>>()?,
+        })
     }
 }
 
@@ -85,17 +84,20 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &BufferEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +113,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +138,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +158,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Ok(Self::new(&mut reader, &shader)?)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Ok(Self::new(reader, &shader)?)
     }
 }
 
@@ -374,14 +382,19 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    // Don't allocate based on the length since the data may not actually be present.
+    let length = (s.length as u64).saturating_sub(1);
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+    if (bytes.len() as u64) < length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +402,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +413,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<Vec<_>>>()?,
             },
         })
     }
-- 
2.43.0


From b6627c0c393fa84e3bd3a787587e0647da96e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 05/21] fix: return errors instead of panicking for malformed
 compressed tracks

---
 ssbh_data/src/anim_data/bitutils.rs    | 4 ++++
 ssbh_data/src/anim_data/compression.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..19772ec 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -44,6 +44,10 @@ impl BitReader {
         Ok(value)
     }
 
+    pub fn has_remaining_bits(&self) -> bool {
+        self.index < self.bits.len()
+    }
+
     pub fn read_bit(&mut self) -> Result<bool, BitReadError> {
         let value = self
             .bits
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..d0b0380 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -369,7 +369,7 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    // TODO: Possible to read past end of stream?
+    // The caller checks that the sign bit is present.
     let flip_w = reader.read_bit().unwrap();
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
@@ -461,6 +461,9 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
+            if !reader.has_remaining_bits() {
+                return Err(BitReadError::NotEnoughBits);
+            }
             calculate_rotation_w(reader, rotation_xyz)
         } else {
             default.rotation.w
@@ -765,7 +768,9 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From 7799e763d8d4b5c70aca6acfed117b119250bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 06/21] fix: don't allocate memory for missing shader binary
 code

---
 ssbh_data/src/lib.rs       | 15 +++++++++++++++
 ssbh_data/src/shdr_data.rs | 11 +++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ssbh_data/src/lib.rs b/ssbh_data/src/lib.rs
index 0cda803..3d981e9 100644
--- a/ssbh_data/src/lib.rs
+++ b/ssbh_data/src/lib.rs
@@ -238,6 +238,21 @@ ssbh_data_infallible_impl!(hlpb_data::HlpbData, Hlpb, std::io::Error);
 ssbh_data_impl!(skel_data::SkelData, Skel, skel_data::error::Error);
 // TODO: ShdrData.
 
+/// Reads exactly `count` bytes.
+/// The count may be corrupted, so only allocate memory for the bytes that are actually present.
+pub(crate) fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _: binrw::Endian,
+    (count,): (u32,),
+) -> binrw::BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(count as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < count as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 #[cfg(test)]
 pub(crate) fn group_hex(a: &str, words_per_line: usize) -> String {
     use itertools::Itertools;
diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index a587c32..4aec19d 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -187,7 +187,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = crate::read_bytes, args(code_length))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -382,13 +382,8 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    // Don't allocate based on the length since the data may not actually be present.
-    let length = (s.length as u64).saturating_sub(1);
-    let mut bytes = Vec::new();
-    reader.take(length).read_to_end(&mut bytes)?;
-    if (bytes.len() as u64) < length {
-        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
-    }
+    let length = s.length.saturating_sub(1);
+    let bytes = crate::read_bytes(reader, binrw::Endian::Little, (length,))?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
-- 
2.43.0


From 1484f242e96dbd7bf798aae6af4710f744f7dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 07/21] fix: return errors instead of panicking for malformed
 anim 1.2 buffers

---
 ssbh_data/src/anim_data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..65d833c 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -466,18 +466,18 @@ fn create_track_data_v12(
             0x3409 => {
                 println!("{:?}", reader.read_le::<V12Test1>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(52 + 4));
             }
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(72 + 4));
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
                 println!("{test:?}");
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(64 + 4));
             }
             x => println!("Unrecognized header: {x:?}"),
         }
@@ -816,7 +816,7 @@ struct V12Test2 {
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    #[br(parse_with = crate::read_bytes, args(frame_count), align_after = 4)] // align to float boundary
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
-- 
2.43.0


From be229251aaa820c19f2e3a74195192965f693852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 08/21] fix: preserve the group order when reading anim 1.2

---
 ssbh_data/src/anim_data.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 65d833c..178b18f 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -393,18 +392,19 @@ fn read_groups_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
     // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Preserve the order of the tracks to always return the same groups for the same file.
+    let mut tracks_by_type: Vec<(GroupType, Vec<_>)> = Vec::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
+        let track_data = create_track_data_v12(track, buffers)?;
+        let track = (track.name.to_string_lossy(), track_data);
+        match tracks_by_type.iter_mut().find(|(g, _)| *g == group_type) {
+            Some((_, tracks)) => tracks.push(track),
+            None => tracks_by_type.push((group_type, vec![track])),
+        }
     }
 
     // Use the grouping conventions for version 2.0+ anims.
-- 
2.43.0


From eba24334c590ea5ead4f65c517fb538853ea3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/21] fix: don't lose compressed float values when the value
 range overflows

---
 ssbh_data/src/anim_data/compression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index d0b0380..37427fe 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -402,9 +402,9 @@ fn compress_f32(value: f32, min: f32, max: f32, bit_count: NonZeroU64) -> Compre
 
     // TODO: There could be large errors due to cancellations when the absolute difference of max and min is small.
     // This is likely rare in practice.
-    // TODO: Investigate if this works better with f64 as an intermediate representation.
-    let ratio = (value - min) / (max - min);
-    let compressed = ratio * scale as f32;
+    // Double precision prevents max - min from overflowing to infinity.
+    let ratio = (value as f64 - min as f64) / (max as f64 - min as f64);
+    let compressed = ratio as f32 * scale as f32;
     // TODO: Should this truncate or round for best accuracy?
     compressed as CompressedBits
 }
-- 
2.43.0


From 25b2c9bb7ef28d6d29ecff9d59fb0befcce3e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 10/21] fix: don't drop the upper bits of compressed pattern
 indices

---
 ssbh_data/src/anim_data/compression.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 37427fe..f45c3bd 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -790,12 +790,20 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                // TODO: How should this work for u32?
+                // Use additional bits if the range is too large to avoid losing the upper bits.
+                bit_count: if u64::from(max - min) >> DEFAULT_F32_BIT_COUNT == 0 {
+                    DEFAULT_F32_BIT_COUNT
+                } else {
+                    u32::BITS as u64
+                },
             },
         )
     }
-- 
2.43.0


From 0355f1feedb219c47080a63a63b856aad5d5acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 11/21] fix: saturate the maximum number of influences per
 vertex instead of wrapping

A vertex with 256 influences was recorded as having none.
---
 ssbh_data/src/mesh_data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..ee595b8 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -785,7 +785,8 @@ fn create_rigging_buffers<W: Weight>(
             max_influences: calculate_max_influences(
                 &mesh_object.bone_influences,
                 mesh_object.vertex_indices.len(),
-            ) as u8,
+            )
+            .min(u8::MAX as usize) as u8,
             unk1: 1,
         };
 
-- 
2.43.0


From 7260656471ca86b87def785aad366182c9c8e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 12/21] fix: report parent indices that a skel file can't store
 instead of wrapping them

---
 ssbh_data/src/skel_data.rs | 43 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..6aa371c 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -80,6 +80,13 @@ pub mod error {
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
 
+        /// The index of the parent bone is too large to be stored in a [Skel] file.
+        #[error("the parent index {} of bone {:?} is too large", parent_index, bone_name)]
+        ParentIndexTooLarge {
+            bone_name: String,
+            parent_index: usize,
+        },
+
         /// An error occurred while writing data to a buffer.
         #[error(transparent)]
         Io(#[from] std::io::Error),
@@ -163,20 +170,30 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index: match b.parent_index {
+                            Some(index) => {
+                                index
+                                    .try_into()
+                                    .map_err(|_| error::Error::ParentIndexTooLarge {
+                                        bone_name: b.name.clone(),
+                                        parent_index: index,
+                                    })?
+                            }
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<Vec<_>, Self::Error>>()?
+                .into(),
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From 85aefacdf12d5acad37de979fe44d56deb17901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 13/21] fix: write the magic of tuple structs and enums

---
 ssbh_write_derive/src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..db35732 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -240,15 +240,7 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
-
     let write_fields = quote! {
-        #write_magic
         #(#write_fields)*;
     };
 
@@ -308,6 +300,12 @@ fn generate_ssbh_write(
 
     let write_pad_after = write_pad_after(write_options);
 
+    // The magic comes before the fields for all kinds of types.
+    let write_magic = match &write_options.magic {
+        Some(magic) => quote! { #magic.ssbh_write(writer, data_ptr)?; },
+        None => quote! {},
+    };
+
     // Alignment can be user specified or determined by the type.
     let calculate_alignment = match write_options.alignment {
         Some(alignment) => quote! { #alignment as u64 },
@@ -330,6 +328,7 @@ fn generate_ssbh_write(
                     *data_ptr = current_pos + self.size_in_bytes();
                 }
 
+                #write_magic
                 #write_data
 
                 #write_pad_after
-- 
2.43.0


From 2c2fe08656e384d748fd5a5392c91798b7e89cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 14/21] fix: include the padding and magic in the size of types
 with a repr

---
 ssbh_write_derive/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index db35732..b3cadb3 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -85,9 +85,13 @@ pub fn ssbh_write_derive(input: TokenStream) -> TokenStream {
             quote! {
                 (*self as #repr).ssbh_write(writer, data_ptr)?;
             },
-            quote! {
-                (*self as #repr).size_in_bytes()
-            },
+            generate_size_calculation(
+                quote! {
+                    size += (*self as #repr).size_in_bytes()
+                },
+                write_options.pad_after,
+                write_options.magic.clone(),
+            ),
         ),
         None => match &input.data {
             Data::Struct(DataStruct {
-- 
2.43.0


From 4ab39d1cb908a2e774f2ab50dd55145166ce1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 15/21] fix: add up the sizes of all elements for the size of
 collections

---
 ssbh_write/src/lib.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 9db1125..5d3a29c 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -123,11 +123,8 @@ impl<T: SsbhWrite> SsbhWrite for &[T] {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // TODO: This won't work for Vec<Option<T>> since only the first element is checked.
-        match self.first() {
-            Some(element) => self.len() as u64 * element.size_in_bytes(),
-            None => 0,
-        }
+        // Elements like options or enums can have different sizes.
+        self.iter().map(|e| e.size_in_bytes()).sum()
     }
 
     fn alignment_in_bytes() -> u64 {
@@ -277,11 +274,7 @@ impl<T: SsbhWrite> SsbhWrite for Vec<T> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // Assume each element has the same size.
-        match self.first() {
-            Some(first) => self.len() as u64 * first.size_in_bytes(),
-            None => 0,
-        }
+        self.as_slice().size_in_bytes()
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From 5da0de0d77ba00b17e1c93dde220c09c4c9465c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 16/21] fix: use the declared alignment of the elements for
 arrays

---
 ssbh_write/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 5d3a29c..cb30984 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -100,6 +100,11 @@ impl<T: SsbhWrite, const N: usize> SsbhWrite for [T; N] {
     fn size_in_bytes(&self) -> u64 {
         self.as_slice().size_in_bytes()
     }
+
+    fn alignment_in_bytes() -> u64 {
+        // Use the underlying type's alignment.
+        T::alignment_in_bytes()
+    }
 }
 
 impl<T: SsbhWrite> SsbhWrite for &[T] {
-- 
2.43.0


From eceecd273eb6468fd90df97b3bd9f7e7d858e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 17/21] fix: count the terminator of a null terminated string
 in its size

---
 ssbh_lib/src/strings.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 909dae1..5e3d2b0 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -147,7 +147,12 @@ impl<const N: usize> crate::SsbhWrite for CString<N> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        self.0.size_in_bytes()
+        if self.0.is_empty() {
+            N as u64
+        } else {
+            // Include the null terminator.
+            self.0.len() as u64 + 1
+        }
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From f919fd906112d5e5014138d8f5174cdf552744db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 18/21] fix: don't let compressed animation values drift each
 time they are saved

---
 ssbh_data/src/anim_data/compression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index f45c3bd..97ca0f4 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -404,9 +404,8 @@ fn compress_f32(value: f32, min: f32, max: f32, bit_count: NonZeroU64) -> Compre
     // This is likely rare in practice.
     // Double precision prevents max - min from overflowing to infinity.
     let ratio = (value as f64 - min as f64) / (max as f64 - min as f64);
-    let compressed = ratio as f32 * scale as f32;
-    // TODO: Should this truncate or round for best accuracy?
-    compressed as CompressedBits
+    // Round to the nearest value since truncating changes the values again each time they are saved.
+    (ratio * scale as f64).round() as CompressedBits
 }
 
 fn decompress_f32(value: CompressedBits, min: f32, max: f32, bit_count: NonZeroU64) -> Option<f32> {
-- 
2.43.0


From f53134c0a7702b95720d34e07d8b60c4e9a0458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 19/21] fix: use the documented extension for Nufx files
 created from JSON

---
 ssbh_lib_json/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 2a7b223..5ea4a72 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -68,7 +68,7 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             Ssbh::Anim(_) => "nuanmb",
             Ssbh::Nlst(_) => "nulstb",
             Ssbh::Nrpd(_) => "nurpdb",
-            Ssbh::Nufx(_) => "nuflxb",
+            Ssbh::Nufx(_) => "nufxlb",
             Ssbh::Shdr(_) => "nushdb",
         });
 
-- 
2.43.0


From fcbe57f93749a545bc69ce558184c3455010b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 20/21] fix: write the length of MeshEx files to their own
 start

---
 ssbh_lib/src/formats/meshex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/formats/meshex.rs b/ssbh_lib/src/formats/meshex.rs
index 02da1e8..43a71eb 100644
--- a/ssbh_lib/src/formats/meshex.rs
+++ b/ssbh_lib/src/formats/meshex.rs
@@ -159,8 +159,9 @@ impl SsbhWrite for MeshEx {
         writer.write_all(&vec![0u8; (new_size - size) as usize])?;
 
         // Write the file length.
-        writer.rewind()?;
-        new_size.ssbh_write(writer, data_ptr)?;
+        // The file may not start at the beginning of the writer.
+        writer.seek(SeekFrom::Start(current_pos))?;
+        (new_size - current_pos).ssbh_write(writer, data_ptr)?;
         Ok(())
     }
 
-- 
2.43.0


From 56d9290083e8cd9984ff9c58c63c35b615e2ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 21/21] fix: refuse to create skel files of unsupported
 versions

SkelData documents version 1.0 as the only supported version, and its error
type has UnsupportedVersion, but every version was accepted and written as 1.0.
---
 ssbh_data/src/skel_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index 6aa371c..3eed6ac 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -159,6 +159,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
-- 
2.43.0

