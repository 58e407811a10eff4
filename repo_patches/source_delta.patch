From 834d1bae8abfe97c1e76d5a7b501bb4f2b596864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 01/32] fix: bencode decoder: report truncated input instead of
 panicking

---
 src/bencode/decode.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..17a2b7a 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -20,6 +20,8 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected end of input at position: {0}")]
+    UnexpectedEnd(usize),
 }
 
 impl Decoder {
@@ -35,13 +37,16 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::UnexpectedEnd(self.current))
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -85,16 +90,21 @@ impl Decoder {
         // TODO: Mettere check semicolon
         self.advance();
 
-        let b = &self.contents[self.current..self.current + integer];
+        let b = self
+            .current
+            .checked_add(integer)
+            .and_then(|end| self.contents.get(self.current..end))
+            .ok_or(DecoderError::UnexpectedEnd(self.current))?
+            .to_vec();
         self.current += integer;
-        Ok(Metainfo::String(b.to_vec()))
+        Ok(Metainfo::String(b))
     }
 
     fn parse_list(&mut self) -> Result<Metainfo, DecoderError> {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             list.push(self.decode()?);
         }
 
@@ -106,7 +116,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
-- 
2.43.0


From 3aef0a136e18226fcccf1b9c4b2be28e5599c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 02/32] fix: bencode decoder: reject an unknown byte inside a
 list or dictionary

It was decoded as Nothing without advancing, so decoding never ended.
---
 src/bencode/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 17a2b7a..131d1f5 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -22,6 +22,8 @@ pub enum DecoderError {
     BadStringFromBytes(usize),
     #[error("Unexpected end of input at position: {0}")]
     UnexpectedEnd(usize),
+    #[error("Unexpected byte at position: {0}")]
+    UnexpectedByte(usize),
 }
 
 impl Decoder {
@@ -105,7 +107,7 @@ impl Decoder {
         let mut list: Vec<Metainfo> = Vec::new();
 
         while self.get_current_byte()? != b'e' {
-            list.push(self.decode()?);
+            list.push(self.decode_element()?);
         }
 
         self.advance();
@@ -124,7 +126,7 @@ impl Decoder {
             } else {
                 return Err(DecoderError::NoStringFound(self.current));
             };
-            let value = self.decode()?;
+            let value = self.decode_element()?;
             dictionary.insert(key, value);
         }
 
@@ -132,6 +134,13 @@ impl Decoder {
         Ok(Metainfo::Dictionary(dictionary))
     }
 
+    fn decode_element(&mut self) -> Result<Metainfo, DecoderError> {
+        match self.decode()? {
+            Metainfo::Nothing() => Err(DecoderError::UnexpectedByte(self.current)),
+            element => Ok(element),
+        }
+    }
+
     pub fn decode(&mut self) -> Result<Metainfo, DecoderError> {
         let result = match self.contents.get(self.current) {
             None => Metainfo::Nothing(),
-- 
2.43.0


From f1726b90907f72f681f33f7a8cf2835e4e7605d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 03/32] fix: bencode decoder: check the delimiters after
 integers and string lengths

---
 src/bencode/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 131d1f5..9e3e36c 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -82,14 +82,16 @@ impl Decoder {
 
         match self.contents.get(self.current) {
             Some(b'e') => self.advance(),
-            _ => self.advance(),
+            _ => return Err(DecoderError::UnexpectedByte(self.current)),
         };
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
+        if self.get_current_byte()? != b':' {
+            return Err(DecoderError::UnexpectedByte(self.current));
+        }
         self.advance();
 
         let b = self
-- 
2.43.0


From d9124ed37ece770bee93ef03963eea274839441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 04/32] fix: bencode decoder: decode the empty string

---
 src/bencode/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 9e3e36c..f6f1d82 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -149,7 +149,7 @@ impl Decoder {
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
+            Some(b'0'..=b'9') => self.parse_string()?,
             Some(_) => Metainfo::Nothing(),
         };
 
-- 
2.43.0


From 4e307be5f9ab7ea728b48593b3d7d55b8612acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 05/32] fix: bencode decoder: bound the nesting depth

---
 src/bencode/decode.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index f6f1d82..bbe710b 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,11 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+const MAX_DEPTH: usize = 64;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -24,12 +27,15 @@ pub enum DecoderError {
     UnexpectedEnd(usize),
     #[error("Unexpected byte at position: {0}")]
     UnexpectedByte(usize),
+    #[error("Values nested too deeply at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -137,7 +143,14 @@ impl Decoder {
     }
 
     fn decode_element(&mut self) -> Result<Metainfo, DecoderError> {
-        match self.decode()? {
+        if self.depth == MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+        self.depth += 1;
+        let element = self.decode();
+        self.depth -= 1;
+
+        match element? {
             Metainfo::Nothing() => Err(DecoderError::UnexpectedByte(self.current)),
             element => Ok(element),
         }
-- 
2.43.0


From 71f3ec3bd9090f9d60d3a1be0c84bf58f29a8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 06/32] fix: bencode encoder: string lengths count bytes, not
 characters

---
 src/bencode/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..26ad7e8 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,7 +6,7 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
@@ -14,7 +14,7 @@ impl Encode for String {
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
-- 
2.43.0


From 5ab83e452005a2aac0145bd99b1a8eb770141e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 07/32] fix: refuse torrent info with a malformed file entry

Such entries were dropped, which shifted all the files after them.
---
 src/torrent/info.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..1a0f7c6 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,7 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -25,6 +25,8 @@ pub enum InfoError {
     MetainfoError(#[from] MetainfoError),
     #[error("Error during metainfo decoding")]
     DecoderError(#[from] DecoderError),
+    #[error("Error handling a file entry")]
+    FileError(#[from] FileError),
     #[error("No file length specified")]
     NoFileLenght(),
     #[error("No info file found at {0}")]
@@ -46,7 +48,8 @@ impl Info {
         let files = a
             .get_list_from_dict("files")
             .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+            .map(|elements| elements.iter().map(File::from_metainfo).collect())
+            .transpose()?;
 
         Ok(Info {
             name,
-- 
2.43.0


From 2bb2cb95216ae55f83b2ce9c79dbc6bfc3d53407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 08/32] fix: refuse torrent info no download could use

A zero piece length, missing or overflowing lengths or a wrong number of
piece hashes made later steps panic.
---
 src/torrent/info.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 1a0f7c6..6149b73 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -29,6 +29,8 @@ pub enum InfoError {
     FileError(#[from] FileError),
     #[error("No file length specified")]
     NoFileLenght(),
+    #[error("Torrent info not usable: {0}")]
+    NotUsable(&'static str),
     #[error("No info file found at {0}")]
     NoInfoFile(String),
 }
@@ -51,13 +53,34 @@ impl Info {
             .map(|elements| elements.iter().map(File::from_metainfo).collect())
             .transpose()?;
 
-        Ok(Info {
+        let info = Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        };
+        info.check_usable()?;
+        Ok(info)
+    }
+
+    fn check_usable(&self) -> Result<(), InfoError> {
+        if self.piece_length == 0 || u32::try_from(self.piece_length).is_err() {
+            return Err(InfoError::NotUsable("piece length out of range"));
+        }
+
+        let total_length = self
+            .get_files()?
+            .iter()
+            .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
+            .ok_or(InfoError::NotUsable("total length too large"))?;
+
+        let piece_count = (0..total_length).step_by(self.piece_length).len();
+        if self.pieces.len() % 20 != 0 || self.pieces.len() / 20 != piece_count {
+            return Err(InfoError::NotUsable("wrong number of piece hashes"));
+        }
+
+        Ok(())
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-- 
2.43.0


From d22215a4e1624aa08e28ed356dc7393592758e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 09/32] fix: a corrupted stored info file is an error, not a
 panic

---
 src/torrent/info.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 6149b73..2ccfa19 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -95,7 +95,9 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+            let info: Info = serde_json::from_str(&info_buffer)
+                .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
+            info.check_usable()?;
 
             return Ok(info);
         }
-- 
2.43.0


From ab03ed203a5b1692ad24dac093473a091614a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 10/32] fix: report that the info file cannot be created
 instead of panicking

---
 src/torrent/info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 2ccfa19..7db5d72 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -106,7 +106,10 @@ impl Info {
     }
 
     pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+        let saved = std::fs::File::create(file_path)
+            .map_err(serde_json::Error::io)
+            .and_then(|file| serde_json::to_writer(&file, self));
+        if let Err(err) = saved {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
-- 
2.43.0


From a35dd5592b3d4f09a0d462357455405b079aaedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 11/32] fix: refuse torrent info whose file paths leave the
 download directory

---
 src/torrent/file.rs | 15 +++++++++++++++
 src/torrent/info.rs |  6 ++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/torrent/file.rs b/src/torrent/file.rs
index 03e8855..deb2a19 100644
--- a/src/torrent/file.rs
+++ b/src/torrent/file.rs
@@ -13,6 +13,8 @@ pub struct File {
 pub enum FileError {
     #[error("Error handling metainfo")]
     MetainfoError(#[from] MetainfoError),
+    #[error("Path not confined to the download directory")]
+    UnsafePath(),
 }
 
 impl File {
@@ -33,6 +35,19 @@ impl File {
         File { path, length }
     }
 
+    // Every component has to be a plain name, otherwise the file could end up outside the
+    // download directory.
+    pub fn check_path(&self) -> Result<(), FileError> {
+        let is_plain = |name: &String| {
+            !matches!(name.as_str(), "" | "." | "..") && !name.contains(['/', '\\', '\0'])
+        };
+
+        if self.path.is_empty() || !self.path.iter().all(is_plain) {
+            return Err(FileError::UnsafePath());
+        }
+        Ok(())
+    }
+
     pub fn get_length(&self) -> usize {
         self.length
     }
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 7db5d72..c039702 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -69,8 +69,10 @@ impl Info {
             return Err(InfoError::NotUsable("piece length out of range"));
         }
 
-        let total_length = self
-            .get_files()?
+        let files = self.get_files()?;
+        files.iter().try_for_each(File::check_path)?;
+
+        let total_length = files
             .iter()
             .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
             .ok_or(InfoError::NotUsable("total length too large"))?;
-- 
2.43.0


From 1bbcabb11a81d91e3f46167066f25e568838f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 12/32] fix: writer: write the whole piece when the system
 writes less than asked

---
 src/torrent/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..f2433ce 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -58,7 +58,7 @@ impl FileWriter {
             .unwrap();
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64).unwrap();
 
         #[cfg(target_family = "windows")]
         file.seek_write(&self.piece, self.start as u64).unwrap();
-- 
2.43.0


From 6c15992c9d44a1ab238a21a8297761f1c9dd421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 13/32] fix: writer: report a failed write instead of panicking

The panic ended the only writer thread, so every later piece was lost.
---
 src/actors/writer.rs  |  4 +++-
 src/torrent/writer.rs | 24 +++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/actors/writer.rs b/src/actors/writer.rs
index 233f060..3a5cefd 100644
--- a/src/actors/writer.rs
+++ b/src/actors/writer.rs
@@ -19,7 +19,9 @@ impl Handler<PieceReady> for WriterActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceReady, _ctx: &mut Self::Context) -> Self::Result {
-        let _ = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length);
+        if let Err(err) = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length) {
+            log::error!("{err}");
+        }
 
         Ok(true)
     }
diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index f2433ce..7551612 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -10,7 +10,10 @@ use std::os::windows::prelude::FileExt;
 use crate::torrent::file::File;
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
-pub enum WriterError {}
+pub enum WriterError {
+    #[error("Error writing piece {0}: {1}")]
+    Io(usize, String),
+}
 
 pub fn write(
     piece: Vec<u8>,
@@ -20,7 +23,8 @@ pub fn write(
 ) -> Result<(), WriterError> {
     get_file_writers(files, piece, idx, piece_length)
         .iter()
-        .for_each(|writer| writer.write_to_filesystem());
+        .try_for_each(|writer| writer.write_to_filesystem())
+        .map_err(|err| WriterError::Io(idx, err.to_string()))?;
 
     log::info!("Completed write to filesystem for piece {:?}", idx);
     Ok(())
@@ -45,23 +49,25 @@ impl FileWriter {
     }
 
     // TODO: Add optional folder where to save output
-    pub fn write_to_filesystem(&self) {
+    pub fn write_to_filesystem(&self) -> std::io::Result<()> {
         let path_string = &self.path.join("/");
         let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
+        if let Some(prefix) = path.parent() {
+            std::fs::create_dir_all(prefix)?;
+        }
 
         let file = fs::OpenOptions::new()
             .write(true)
             .create(true)
-            .open(path)
-            .unwrap();
+            .open(path)?;
 
         #[cfg(target_family = "unix")]
-        file.write_all_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64)?;
 
         #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+        file.seek_write(&self.piece, self.start as u64)?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From a78128467d2f1f845f3858e1dfcc86b2bf29897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 14/32] fix: magnet: refuse links without a well-formed info
 hash instead of panicking

This also accepts links that end right after the info hash.
---
 src/torrent/magnet.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..bc064ce 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -16,7 +16,7 @@ impl Magnet {
 }
 
 fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
+    magnet_uri.len() < 52 || &magnet_uri[..20] != "magnet:?xt=urn:btih:".as_bytes()
 }
 
 // Given a string representation of an hex character we obtain the hex byte representation.
@@ -48,11 +48,19 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
+fn is_base32(byte: &u8) -> bool {
+    byte.is_ascii_alphabetic() || (b'2'..=b'7').contains(byte)
+}
+
+fn parse_info_hash(magnet_uri: &[u8]) -> Option<Vec<u8>> {
+    let encoded = magnet_uri[20..].split(|byte| *byte == b'&').next()?;
+
+    if encoded.len() == 40 && encoded.iter().all(u8::is_ascii_hexdigit) {
+        Some(hex_decode(encoded))
+    } else if encoded.len() == 32 && encoded.iter().all(is_base32) {
+        Some(encoded.to_vec())
     } else {
-        magnet_uri[20..52].to_vec()
+        None
     }
 }
 
@@ -61,7 +69,7 @@ pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
         return Err(MagnetError::NoMagnet());
     }
 
-    let info_hash = parse_info_hash(&magnet_uri);
+    let info_hash = parse_info_hash(&magnet_uri).ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From 7148621899277cc7fc9c29ab94dbbe728351f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 15/32] fix: magnet: decode base32 info hashes

The undecoded 32 characters went into trackers announces and handshakes.
---
 src/torrent/magnet.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index bc064ce..59c811e 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -11,7 +11,10 @@ pub enum MagnetError {
 
 impl Magnet {
     pub fn get_info_hash(&self) -> Vec<u8> {
-        self.info_hash.to_vec()
+        match self.info_hash.len() {
+            32 => base32_decode(&self.info_hash),
+            _ => self.info_hash.to_vec(),
+        }
     }
 }
 
@@ -52,6 +55,22 @@ fn is_base32(byte: &u8) -> bool {
     byte.is_ascii_alphabetic() || (b'2'..=b'7').contains(byte)
 }
 
+fn base32_decode(encoded: &[u8]) -> Vec<u8> {
+    encoded
+        .chunks_exact(8)
+        .flat_map(|chunk| {
+            let bits = chunk.iter().fold(0_u64, |bits, byte| {
+                let value = match byte {
+                    b'2'..=b'7' => byte - b'2' + 26,
+                    _ => byte.to_ascii_uppercase() - b'A',
+                };
+                bits << 5 | u64::from(value)
+            });
+            bits.to_be_bytes()[3..].to_vec()
+        })
+        .collect()
+}
+
 fn parse_info_hash(magnet_uri: &[u8]) -> Option<Vec<u8>> {
     let encoded = magnet_uri[20..].split(|byte| *byte == b'&').next()?;
 
-- 
2.43.0


From a623596d83f52517513bb880c5fe9a7dc6fb7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 16/32] fix: answer an invalid magnet link with a client error
 instead of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..c0f625a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
-- 
2.43.0


From b80f689fe46c90e20369160ea65849688742e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 17/32] fix: do not drop registrations when a mailbox is full

---
 src/actors/trackers_interface.rs | 2 +-
 src/main.rs                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
diff --git a/src/main.rs b/src/main.rs
index c0f625a..ed1bd85 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0


From 9a2523f9ca07e16a41cbbe03b8a2e1d201f5dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 18/32] fix: reject peer messages too short for their type
 instead of panicking

---
 src/messages/extension.rs | 7 ++++---
 src/messages/mod.rs       | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 995950b..25c9e73 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -30,7 +30,8 @@ impl ExtensionMessage {
     }
 
     pub fn from_bytes(bytes: &[u8]) -> Result<ExtensionMessage, &'static str> {
-        let mut decoder = Decoder::init(bytes[1..].to_vec());
+        let (id, payload) = bytes.split_first().ok_or("Empty extension message")?;
+        let mut decoder = Decoder::init(payload.to_vec());
         let content = match decoder.decode() {
             Ok(value) => value,
             Err(err) => {
@@ -50,8 +51,8 @@ impl ExtensionMessage {
             .map_or(HashMap::new(), build_extensions_map);
 
         Ok(ExtensionMessage {
-            id: bytes[0],
-            data: bytes[decoder.get_total_parsed_bytes() + 1..].to_vec(),
+            id: *id,
+            data: payload[decoder.get_total_parsed_bytes()..].to_vec(),
             msg_type: content.get_integer_from_dict("msg_type").ok(),
             metadata_size: content.get_integer_from_dict("metadata_size").ok(),
             piece: content.get_integer_from_dict("piece").ok(),
diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..de7baf9 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -37,8 +37,12 @@ impl Message {
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
+            7 | 6 if body.len() < 8 => return Err("Request or piece message too short"),
             7 | 6 => ContentType::Request(RequestMessage::from_bytes(&body)),
             20 => ContentType::Extension(ExtensionMessage::from_bytes(&body)?),
+            19 if body.len() != 68 || &body[..20] != b"\x13BitTorrent protocol" => {
+                return Err("Not a handshake message")
+            }
             19 => ContentType::Handshake(HandshakeMessage::from_bytes(&body)),
             _ => ContentType::Nothing(),
         };
-- 
2.43.0


From 0eae0e9e6dc9ab74f5a808ed2b2e49fa71a11458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 19/32] fix: reject extension messages whose payload is not a
 dictionary

---
 src/messages/extension.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 25c9e73..4237a9a 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -42,6 +42,10 @@ impl ExtensionMessage {
             }
         };
 
+        if content.get_dict_content().is_err() {
+            return Err("Extension message without a dictionary");
+        }
+
         let default = HashMap::new();
         let extensions = content
             .get_value_from_dict("m")
-- 
2.43.0


From 0c657aaaa7a2f2a7da38c2a91fde6a06df3d8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 20/32] fix: ignore extension ids that do not fit a byte

They were cut down to the id of another extension.
---
 src/messages/extension.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 4237a9a..0c0fbb9 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -102,8 +102,9 @@ impl ExtensionMessage {
 fn build_extensions_map(metainfo_map: &HashMap<String, Metainfo>) -> HashMap<String, u8> {
     let mut extension: HashMap<String, u8> = HashMap::new();
     for (key, metainfo_value) in metainfo_map {
-        if let Ok(value) = metainfo_value.get_integer_content() {
-            extension.insert(key.to_owned(), value as u8);
+        let value = metainfo_value.get_integer_content().ok();
+        if let Some(value) = value.and_then(|value| u8::try_from(value).ok()) {
+            extension.insert(key.to_owned(), value);
         } else {
             info!("No extension value found from {:?}", metainfo_value);
         }
-- 
2.43.0


From 6d096a1cf836c1c83a06d166f0b3993f72854b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 21/32] fix: peer stream: take messages off the stream only
 when complete

A message that arrived slowly, a keep-alive or a handshake split across
reads left the stream out of step, and a huge length prefix reserved
that much memory.
---
 src/peer/stream.rs | 66 +++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..abb2e21 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -82,6 +82,9 @@ impl StreamInterface {
     }
 }
 
+// The largest messages are blocks of 16384 bytes and bitfields, with one bit for each piece.
+const MAX_MESSAGE_LENGTH: u32 = 1 << 17;
+
 fn has_messages(stream: &mut StreamInterface) -> bool {
     let mut buffer: [u8; 1] = [0x00; 1];
 
@@ -93,7 +96,7 @@ fn has_messages(stream: &mut StreamInterface) -> bool {
 }
 
 fn peek_and_read(stream: &mut StreamInterface, body: &mut [u8], length: usize) -> bool {
-    stream.peek(body).unwrap_or(0) == length && stream.read(body).unwrap_or(0) == length
+    stream.peek(body).unwrap_or(0) == length && stream.read_exact(body).is_ok()
 }
 
 // Here we should try to return a Result to signal the presence of errors
@@ -105,42 +108,39 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    if !has_messages(stream) {
-        return None;
-    }
-
-    let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
+    // Nothing is taken off the stream before all of a message is there: when it does not
+    // arrive in time, the next call starts again from its first byte.
+    let mut retry = 1;
+    while has_messages(stream) && retry < 40 {
+        let mut header: [u8; 5] = [0x00; 5];
+        let available = stream.peek(&mut header).unwrap_or(0);
+        let length = u32::from_be_bytes([header[0], header[1], header[2], header[3]]);
+
+        if available > 0 && header[0] == 0x13 {
+            let mut buffer = vec![0x00; 68];
+            if peek_and_read(stream, &mut buffer, 68) {
+                return Some((buffer, 19, 68));
+            }
+        } else if available >= 4 && length == 0 {
+            // Keep-alive
+            if stream.read_exact(&mut header[..4]).is_err() {
+                return None;
+            }
+            retry += 1;
+            continue;
+        } else if available >= 4 && length > MAX_MESSAGE_LENGTH {
+            error!("Message of {length} bytes refused");
             return None;
+        } else if available == 5 {
+            let size = length as usize + 4;
+            let mut message = vec![0x00; size];
+            if peek_and_read(stream, &mut message, size) {
+                return Some((message[5..].to_vec(), header[4], length - 1));
+            }
         }
-        return Some((buffer.to_vec(), 19, 68));
-    }
-
-    let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let mut length = u32::from_be_bytes(buffer);
 
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let id = buffer[0];
-
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
-    }
-
-    let mut body = vec![0; length as usize];
-    for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
-        }
         thread::sleep(time::Duration::from_millis(5 * retry));
+        retry += 1;
     }
     None
 }
-- 
2.43.0


From 02fd2a9c1d25d9b4c9093675dd0adfeaecd7a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 22/32] fix: an endpoint that is no socket address is an error,
 not a panic

---
 src/peer/stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index abb2e21..2bb4764 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -57,8 +57,9 @@ impl StreamInterface {
             return Ok(StreamInterface::Mocked(MockStream::new()));
         }
 
-        let server: std::net::SocketAddr =
-            endpoint.parse().expect("Unable to parse socket address");
+        let server: std::net::SocketAddr = endpoint
+            .parse()
+            .map_err(|_| StreamError::EstablishConnection())?;
         let connect_timeout = Duration::from_secs(1);
         let stream = TcpStream::connect_timeout(&server, connect_timeout)
             .map_err(|_| StreamError::EstablishConnection())?;
-- 
2.43.0


From 25b302ea2406b86070bad7217f7c9779afc95147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 23/32] fix: do not request blocks past the end of the piece

---
 src/peer/download/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..d713fe4 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -17,7 +17,7 @@ pub fn next_block(
             block_offset,
             total_length,
             piece_index * piece_length,
-            block_size,
+            cmp::min(block_size, piece_length - block_offset),
         );
         peer.send_message(new_request(
             piece_index as u32,
-- 
2.43.0


From eee3cd3c82ad45aefcb7209740c762e01fb8f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 24/32] fix: a peer without the metadata extension is an error,
 not a panic

---
 src/peer/download/info.rs | 4 +++-
 src/peer/mod.rs           | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..4751f0a 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -6,7 +6,9 @@ use crate::{
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
         let metadata_id = peer.get_extension_id_by_name("ut_metadata");
-        peer.send_message(new_metadata(metadata_id, piece_index))
+        if metadata_id != 0 {
+            peer.send_message(new_metadata(metadata_id, piece_index))
+        }
     }
 }
 
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..58b05ac 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -70,7 +70,8 @@ impl Peer {
     }
 
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
-        *self.extensions.get(name).unwrap()
+        // Id 0 means that the peer does not support the extension
+        self.extensions.get(name).copied().unwrap_or(0)
     }
 
     fn apply_message(&mut self, message: &Message) {
-- 
2.43.0


From 01ad00552598f46344104ae554546ced2d30827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 25/32] fix: accept metadata from a peer only if it has the
 requested info hash

---
 src/peer/manager.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..b8af6cd 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -19,6 +20,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull info verification")]
+    InfoVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -34,6 +37,11 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
 
+
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::InfoVerificationFailure());
+    }
+
     let info = Info::from_bytes(info)?;
     Ok(info)
 }
-- 
2.43.0


From 574e1abc923ddffa93c482ed597a95e298bdfe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 26/32] fix: a downloads directory that cannot be created does
 not stop the torrent

---
 src/actors/torrent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..87d5ebe 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -156,7 +156,7 @@ impl Handler<PeerFound> for TorrentActor {
 fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     let filename = urlencoding::encode_binary(info_hash).into_owned();
     let file_path = format!("./downloads/{filename}");
-    std::fs::create_dir_all("./downloads").unwrap();
+    let _ = std::fs::create_dir_all("./downloads");
 
     if let Ok(info) = Info::from_file(&file_path) {
         return Some(info);
-- 
2.43.0


From fea65f3cb9c4be4e2615c8536395f0c6feaa0923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 27/32] fix: UDP tracker: accept a reply with a single peer

---
 src/tracker/udp_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..56cf1ab 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -52,7 +52,7 @@ pub async fn call(
 
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
     let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
+    if resp_size >= 26 {
         return Ok(annouce_buf[20..resp_size].to_vec());
     }
 
-- 
2.43.0


From 7630e8b09ff6d94fb69b990905f5976d850d4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 28/32] fix: UDP tracker: socket errors are errors, not panics

---
 src/tracker/udp_tracker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 56cf1ab..5c2aedf 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -25,7 +25,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +37,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
-- 
2.43.0


From 6ddd64320ea6e26d2bc03d41460d68abf46dd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 29/32] fix: UDP tracker: do not wait forever for a lost reply

---
 src/tracker/udp_tracker.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 5c2aedf..7cef9d4 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,7 +1,11 @@
-use tokio::net::UdpSocket;
+use std::time::Duration;
 
+use tokio::net::UdpSocket;
+use tokio::time::timeout;
 use url::Url;
 
+const RECEIVE_TIMEOUT: Duration = Duration::from_secs(3);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum UdpTrackerError {
     #[error("Tracker missing post")]
@@ -81,9 +85,9 @@ async fn connect_to_tracker(
 }
 
 async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
-    let (resp_size, _) = socket
-        .recv_from(buffer)
+    let (resp_size, _) = timeout(RECEIVE_TIMEOUT, socket.recv_from(buffer))
         .await
+        .map_err(|_| UdpTrackerError::RecieveError())?
         .map_err(|_| UdpTrackerError::RecieveError())?;
 
     Ok(resp_size)
-- 
2.43.0


From 8300968f44854834c6bcdd2984296088821d0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 30/32] fix: UDP tracker: check size, action and transaction id
 of replies

Peers were taken from error replies and connection ids from bytes that
were not received.
---
 src/tracker/udp_tracker.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 7cef9d4..7a8a845 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -14,6 +14,8 @@ pub enum UdpTrackerError {
     HostnameMissing(),
     #[error("Wrong response size less than 26 bytes")]
     WrongResponseSize(),
+    #[error("Response to something else than the request")]
+    WrongResponse(),
     #[error("No connection established with udp tracker")]
     NoConnectionEstablished(),
     #[error("Error in recieving packet through socket")]
@@ -56,6 +58,10 @@ pub async fn call(
 
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
     let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
+    if annouce_buf[..4] != 1_u32.to_be_bytes() || &annouce_buf[4..8] != transaction_id {
+        return Err(UdpTrackerError::WrongResponse());
+    }
+
     if resp_size >= 26 {
         return Ok(annouce_buf[20..resp_size].to_vec());
     }
@@ -76,7 +82,10 @@ async fn connect_to_tracker(
             log::error!("Send udp connect packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
+        if read_upd_packet(socket, &mut buf).await == Ok(16)
+            && buf[..4] == 0_u32.to_be_bytes()
+            && &buf[4..8] == transaction_id
+        {
             return Ok(buf[8..].to_vec());
         }
     }
-- 
2.43.0


From b70f8ebe0fe6f252ff4efb155de8ec1bbd2898b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 31/32] fix: HTTP tracker: keep the query of the tracker url
 intact

---
 src/tracker/tcp_tracker.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a628db4..fd6eaa3 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -5,7 +5,7 @@ use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::metainfo::MetainfoError;
 
 use log::error;
-use url::Url;
+use url::{Position, Url};
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum TcpTrackerError {
@@ -23,8 +23,9 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
     let url = format!(
-        "{}?info_hash={}&peer_id={}",
-        tracker.as_str(),
+        "{}{}info_hash={}&peer_id={}",
+        &tracker[..Position::AfterQuery],
+        if tracker.query().is_some() { '&' } else { '?' },
         url_encoded_info_hash,
         peer_id
     );
-- 
2.43.0


From c64c9231008a88d68ca19d31b185c96150e5ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 32/32] fix: udp tracker: peers beyond the 663rd of a reply are
 not dropped

---
 src/tracker/udp_tracker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 7a8a845..5576d69 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -56,7 +56,8 @@ pub async fn call(
     );
     send_upd_packet(&socket, message).await?;
 
-    let mut annouce_buf: [u8; 4000] = [0x00; 4000];
+    // large enough for any datagram
+    let mut annouce_buf = vec![0x00; 65535];
     let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
     if annouce_buf[..4] != 1_u32.to_be_bytes() || &annouce_buf[4..8] != transaction_id {
         return Err(UdpTrackerError::WrongResponse());
-- 
2.43.0

