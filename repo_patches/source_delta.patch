From 2beaf60e2f8674872e5dec6d04d40da420e77ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 01/30] verif hook: build storage entries out of tree (cfg
 volaris_verif)

---
 crates/volaris-tools/src/storage.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..e86ce54 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -453,6 +453,20 @@ where
     }
 }
 
+/// Lets an out-of-tree `Storage` implementation build file entries (verification builds only).
+#[cfg(volaris_verif)]
+impl<RW> Entry<RW>
+where
+    RW: Read + Write + Seek,
+{
+    pub fn verif_file(path: PathBuf, stream: RW) -> Self {
+        Entry::File(FileData {
+            path,
+            stream: RefCell::new(stream),
+        })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 51b19b9d7511061473144774b41851f83e258cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 02/30] fix: treat a short read as a short read, not as the end
 of the input

---
 crates/volaris-crypto/src/stream.rs | 23 +++++++++++++++++++----
 crates/volaris-tools/src/hash.rs    | 15 +++++++--------
 crates/volaris-tools/src/pack.rs    | 11 +++++++----
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..7cbf734 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,22 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Reads until the buffer is full or the reader is exhausted.
+///
+/// A single `read()` may return fewer bytes than requested without having reached the end of the input.
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        match reader.read(&mut buffer[filled..]) {
+            Ok(0) => break,
+            Ok(n) => filled += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,9 +208,8 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
-                .context("Unable to read from the reader")?;
+            let read_count =
+                read_block(reader, &mut read_buffer).context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
                 // create_aad returns empty bytes if the header isn't V3+
@@ -360,7 +375,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..f2dcf0b 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -39,15 +39,14 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
     let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
 
     loop {
-        let read_count = req
-            .reader
-            .borrow_mut()
-            .read(&mut buffer)
-            .map_err(|_| Error::ReadData)?;
+        // a read may be short without having reached the end of the input
+        let read_count = match req.reader.borrow_mut().read(&mut buffer) {
+            Ok(0) => break,
+            Ok(n) => n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(_) => return Err(Error::ReadData),
+        };
         hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
-            break;
-        }
     }
 
     Ok(hasher.finish())
diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..0b9c03f 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -90,13 +90,16 @@ where
                 let mut reader = f.try_reader().map_err(|_| Error::ReadData)?.borrow_mut();
                 let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
                 loop {
-                    let read_count = reader.read(&mut buffer).map_err(|_| Error::ReadData)?;
+                    // a read may be short without having reached the end of the file
+                    let read_count = match reader.read(&mut buffer) {
+                        Ok(0) => break,
+                        Ok(n) => n,
+                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => return Err(Error::ReadData),
+                    };
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
-                        break;
-                    }
                 }
             }
 
-- 
2.43.0


From 60e98853b38f7abcfaf66b98949551a9b047c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 03/30] fix: decrypt detached content that is shorter than its
 header

---
 crates/volaris-tools/src/decrypt.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..ec969e3 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,14 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
-                .borrow_mut()
-                .read_exact(&mut header_bytes)
-                .or_else(|e| {
-                    if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
-                    } else {
-                        Err(e)
-                    }
-                })
-                .map_err(|_| Error::ReadEncryptedData)?;
+            // The content of a detached file may be shorter than the header.
+            let has_empty_header = match req.reader.borrow_mut().read_exact(&mut header_bytes) {
+                Ok(()) => header_bytes.into_iter().all(|b| b == 0),
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => false,
+                Err(_) => return Err(Error::ReadEncryptedData),
+            };
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !has_empty_header {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From 5e3cf7e92258d4567a11a9cc55e9d787359bbdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 04/30] fix: overwrite passes write random bytes instead of
 nothing

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From d633968eb2f34f3e88fe791af373138778bb0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 05/30] fix: never index past the end of the passphrase word
 list

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From 00b50eb21bf870979ed7dbd893f4c0bc9fea135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 06/30] fix: erase overwrites the file's content instead of
 truncating it first

---
 crates/volaris-tools/src/erase.rs   |  3 ++-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..176bdad 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -37,7 +37,8 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    // the content must still be there, otherwise there is nothing left to overwrite
+    let file = stor.overwrite_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index e86ce54..0f480a8 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for writing, keeping its current content so that it can be overwritten in place.
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         file.try_writer()?
             .borrow_mut()
-- 
2.43.0


From 01fe9e6e48b7cc73b0fc8146d7043c981613b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 07/30] fix: erasing a directory leaves the targets of its
 symlinks alone

---
 crates/volaris-tools/src/erase_dir.rs |  3 ++-
 crates/volaris-tools/src/storage.rs   | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index b8f3e3b..932ddd7 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -51,7 +51,8 @@ where
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        .filter(|f| !f.is_dir())
+        // a symlink goes away with the directory; what it points to may lie outside of it
+        .filter(|f| !f.is_dir() && !stor.is_symlink(f.path()))
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 0f480a8..3bd2f24 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -77,6 +77,10 @@ where
     fn remove_dir_all(&self, file: Entry<RW>) -> Result<(), Error>;
     // TODO(pleshevskiy): return iterator instead of Vector
     fn read_dir(&self, file: &Entry<RW>) -> Result<Vec<Entry<RW>>, Error>;
+    /// Whether the path itself is a symbolic link.
+    fn is_symlink<P: AsRef<Path>>(&self, _path: P) -> bool {
+        false
+    }
 }
 
 pub struct FileStorage;
@@ -190,6 +194,12 @@ impl Storage<fs::File> for FileStorage {
             .map(|path| path.and_then(|path| self.read_file(path)))
             .collect()
     }
+
+    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> bool {
+        fs::symlink_metadata(path)
+            .map(|meta| meta.file_type().is_symlink())
+            .unwrap_or(false)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 01200b2bd6da75c5ae24b3617a407d66da67b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 08/30] fix: wipe and remove the temporary archive also when
 packing or unpacking fails

---
 crates/volaris-tools/src/pack.rs   | 43 +++++++++++++++++++-----------
 crates/volaris-tools/src/unpack.rs | 36 +++++++++++++++----------
 2 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 0b9c03f..f422048 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -62,6 +62,31 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
+
+    let res = pack_and_encrypt(&tmp_file, req);
+
+    // 5. Finally erase zip archive with zeros, whether or not it could be packed and encrypted.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        crate::overwrite::execute(crate::overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 2,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    res
+}
+
+fn pack_and_encrypt<RW>(
+    tmp_file: &crate::storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
     {
         let mut tmp_writer = tmp_file
             .try_writer()
@@ -110,10 +135,8 @@ where
         zip_writer.finish().map_err(|_| Error::FinishArchive)?;
     }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
+    crate::encrypt::execute(crate::encrypt::Request {
         reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
         writer: req.writer,
         header_writer: req.header_writer,
@@ -121,19 +144,7 @@ where
         header_type: req.header_type,
         hashing_algorithm: req.hashing_algorithm,
     })
-    .map_err(Error::Encrypt);
-
-    // 5. Finally erase zip archive with zeros.
-    crate::overwrite::execute(crate::overwrite::Request {
-        buf_capacity,
-        writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
-        passes: 2,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
-    encrypt_res
+    .map_err(Error::Encrypt)
 }
 
 #[cfg(test)]
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..3837a45 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -59,6 +59,28 @@ pub fn execute<RW: Read + Write + Seek>(
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
 
+    let res = decrypt_and_unpack(&stor, &tmp_file, req);
+
+    // 7. Finally eraze temp zip archive with zeros, whether or not it could be decrypted and unpacked.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        overwrite::execute(overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 1,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    res
+}
+
+fn decrypt_and_unpack<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    tmp_file: &storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -71,8 +93,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -152,18 +172,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From 24f8164dfef5007881dc0896fb9557da25e0e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 09/30] fix: report a failure to write the end of the temporary
 archive

---
 crates/volaris-tools/src/pack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index f422048..2a960ff 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -132,7 +132,11 @@ where
         })?;
 
         // 3. Close archive and switch writer to reader.
-        zip_writer.finish().map_err(|_| Error::FinishArchive)?;
+        zip_writer
+            .finish()
+            .map_err(|_| Error::FinishArchive)?
+            .flush()
+            .map_err(|_| Error::FinishArchive)?;
     }
 
     // 4. Encrypt zip archive
-- 
2.43.0


From ccf73180aeb97c893b1cadf6a7c44990ac5e9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 10/30] fix: unpack fails when an archived file cannot be
 opened instead of skipping it

---
 crates/volaris-tools/src/unpack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 3837a45..56f0150 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -109,7 +109,10 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
         // 4. prepare phase
         let entities = (0..archive.len())
             .filter_map(|i| {
-                let zip_file = archive.by_index(i).ok()?;
+                let zip_file = match archive.by_index(i) {
+                    Ok(zip_file) => zip_file,
+                    Err(_) => return Some(Err(Error::OpenArchivedFile)),
+                };
                 let mut full_path = output_dir.clone();
 
                 // Prevent zip slip attack
@@ -118,9 +121,11 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    (full_path, i, zip_file.is_dir())
+                    Ok((full_path, i, zip_file.is_dir()))
                 })
             })
+            .collect::<Result<Vec<_>, _>>()?
+            .into_iter()
             .filter(|(full_path, ..)| {
                 if let Some(on_zip_file) = req.on_zip_file.as_ref() {
                     on_zip_file(full_path.clone())
-- 
2.43.0


From d0bb20a3629f704f5fe514c8a805b9fa861d68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 11/30] fix: unpack files whose directory is not an entry of
 the archive

---
 crates/volaris-tools/src/unpack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 56f0150..668b9a7 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -164,6 +164,10 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
             .filter(|(_, _, is_dir)| !*is_dir)
             .try_for_each(|(full_path, i, _)| {
                 let mut zip_file = archive.by_index(*i).map_err(|_| Error::OpenArchivedFile)?;
+                // the directory of a file isn't necessarily an entry of the archive
+                if let Some(parent) = full_path.parent() {
+                    stor.create_dir_all(parent).map_err(Error::Storage)?;
+                }
                 let file = stor
                     .create_file(full_path)
                     .or_else(|_| stor.write_file(full_path))
-- 
2.43.0


From 75de605ecda19e9a5c3e1c19d6838c4747625d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 12/30] fix: pack absolute and parent paths under names that
 can be unpacked

---
 crates/volaris-tools/src/pack.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 2a960ff..e0c97b2 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::path::{Component, Path};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -80,6 +81,23 @@ where
     res
 }
 
+/// The name of an entry in the archive, relative to the directory it's going to be unpacked to.
+///
+/// Unpacking refuses absolute paths, and paths that lead out of that directory.
+fn archive_path(path: &Path) -> Option<String> {
+    let mut names = Vec::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(name) => names.push(name.to_str()?),
+            Component::ParentDir => {
+                names.pop();
+            }
+            Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
+        }
+    }
+    Some(names.join("/"))
+}
+
 fn pack_and_encrypt<RW>(
     tmp_file: &crate::storage::Entry<RW>,
     req: Request<'_, RW>,
@@ -102,7 +120,11 @@ where
 
         // 2. Add files to the archive.
         req.compress_files.into_iter().try_for_each(|f| {
-            let file_path = f.path().to_str().ok_or(Error::ReadData)?;
+            let file_path = archive_path(f.path()).ok_or(Error::ReadData)?;
+            if file_path.is_empty() {
+                // the current or the root directory itself, which exists wherever it is unpacked
+                return Ok(());
+            }
             if f.is_dir() {
                 zip_writer
                     .add_directory(file_path, options)
-- 
2.43.0


From c9719705c80627c84a8a94e98b918313e6541bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 13/30] fix: write the whole header even if the writer accepts
 it in pieces

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From dc9bd673ad1fc06e265f6f2621088a81698a2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 14/30] fix: refuse to restore a header onto a file too short
 to have held it

---
 crates/volaris-tools/src/header/restore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..f26f9ab 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,8 +32,12 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
-        .map_err(|_| Error::Read)?;
+        .read_exact(&mut header_bytes)
+        .map_err(|e| match e.kind() {
+            // the file is too short to hold an empty header
+            std::io::ErrorKind::UnexpectedEof => Error::UnsupportedRestore,
+            _ => Error::Read,
+        })?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
         return Err(Error::UnsupportedRestore);
-- 
2.43.0


From 3b1af61a45c077e97bab638547c320c20bebf197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 15/30] fix: command line flags need no value, and erasing and
 generating a passphrase only happen on request

---
 crates/volaris-cli/src/cli.rs               | 71 ++++++++++++++-------
 crates/volaris-cli/src/global/parameters.rs | 23 ++++---
 crates/volaris-cli/src/global/states.rs     |  4 +-
 3 files changed, 64 insertions(+), 34 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..8c7e1cf 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -1,4 +1,4 @@
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 
 pub mod prompt;
 
@@ -32,25 +32,29 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
-                .help("Return a BLAKE3 hash of the encrypted file"),
+                .help("Return a BLAKE3 hash of the encrypted file")
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
-                .help("Use argon2id for password hashing"),
+                .help("Use argon2id for password hashing")
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("autogenerate")
                 .long("auto")
                 .value_name("# of words")
                 .require_equals(true)
-                .default_value("7")
+                .num_args(0..=1)
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -64,12 +68,14 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
-                .help("Force all actions"),
+                .help("Force all actions")
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
-                .help("Use AES-256-GCM for encryption"),
+                .help("Use AES-256-GCM for encryption")
+                .action(ArgAction::SetTrue),
         );
 
     let decrypt = Command::new("decrypt")
@@ -106,19 +112,22 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
-                .help("Return a BLAKE3 hash of the encrypted file"),
+                .help("Return a BLAKE3 hash of the encrypted file")
+                .action(ArgAction::SetTrue),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
-                .help("Force all actions"),
+                .help("Force all actions")
+                .action(ArgAction::SetTrue),
         );
 
     Command::new("volaris")
@@ -142,7 +151,8 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
-                        .help("Force all actions"),
+                        .help("Force all actions")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("passes")
@@ -184,25 +194,29 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
-                        .help("Securely erase every file from the source directory, before deleting the directory"),
+                        .help("Securely erase every file from the source directory, before deleting the directory")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
-                        .help("Use argon2id for password hashing"),
+                        .help("Use argon2id for password hashing")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
-                        .help("Show a detailed output"),
+                        .help("Show a detailed output")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("autogenerate")
                         .long("auto")
                         .value_name("# of words")
                         .require_equals(true)
-                        .default_value("7")
+                        .num_args(0..=1)
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -216,13 +230,15 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
-                        .help("Use ZSTD compression"),
+                        .help("Use ZSTD compression")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
-                        .help("Index files and folders within other folders (index recursively)"),
+                        .help("Index files and folders within other folders (index recursively)")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("keyfile")
@@ -235,18 +251,21 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
-                        .help("Return a BLAKE3 hash of the encrypted file"),
+                        .help("Return a BLAKE3 hash of the encrypted file")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
-                        .help("Force all actions"),
+                        .help("Force all actions")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
-                        .help("Use AES-256-GCM for encryption"),
+                        .help("Use AES-256-GCM for encryption")
+                        .action(ArgAction::SetTrue),
                 ),
         )
         .subcommand(
@@ -284,25 +303,29 @@ pub fn get_matches() -> clap::ArgMatches {
                         .value_name("# of passes")
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .num_args(0..=1)
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
-                        .help("Show a detailed output"),
+                        .help("Show a detailed output")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
-                        .help("Return a BLAKE3 hash of the encrypted file"),
+                        .help("Return a BLAKE3 hash of the encrypted file")
+                        .action(ArgAction::SetTrue),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
-                        .help("Force all actions"),
+                        .help("Force all actions")
+                        .action(ArgAction::SetTrue),
                 ),
         )
         .get_matches()
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..083ecae 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// not every subcommand has every flag
+pub fn get_flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if get_flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if get_flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if get_flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if get_flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if get_flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if get_flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..b2ad5bd 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,9 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if params.autogenerate
+            && matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
+        {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
-- 
2.43.0


From 9671a20fecdf9f0aa4d873f7b24e6046a2b21d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 16/30] fix: ask about overwriting the header before the output
 file is touched

---
 crates/volaris-cli/src/subcommands/encrypt.rs | 10 ++++++----
 crates/volaris-cli/src/subcommands/pack.rs    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 87a0164..ad8ded7 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -32,6 +32,12 @@ pub fn stream_mode(
         exit(0);
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if !overwrite_check(path, params.force)? {
+            exit(0);
+        }
+    }
+
     let input_file = stor.read_file(input)?;
     let raw_key = params.key.get_secret(&PasswordState::Validate)?;
     let output_file = stor
@@ -41,10 +47,6 @@ pub fn stream_mode(
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 594079b..19d44cb 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -50,6 +50,12 @@ pub fn execute(req: &Request) -> Result<()> {
         exit(0);
     }
 
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if !overwrite_check(path, req.crypto_params.force)? {
+            exit(0);
+        }
+    }
+
     let input_files = req
         .input_file
         .iter()
@@ -63,10 +69,6 @@ pub fn execute(req: &Request) -> Result<()> {
     let header_file = match &req.crypto_params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, req.crypto_params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
-- 
2.43.0


From eb7912f168a1579a46c23618cc0b22c0ef8294ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 17/30] fix: recognise input, output and header files that are
 the same under different names

---
 crates/volaris-cli/src/subcommands.rs         | 34 +++++++++++++++++++
 crates/volaris-cli/src/subcommands/decrypt.rs | 10 +++++-
 crates/volaris-cli/src/subcommands/encrypt.rs | 10 +++++-
 crates/volaris-cli/src/subcommands/pack.rs    | 14 +++++++-
 4 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 57f3431..f296ff3 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -1,5 +1,6 @@
 use anyhow::Result;
 use clap::ArgMatches;
+use std::path::{Path, PathBuf};
 
 // This is called from main.rs
 // It gets params and sends them to the appropriate functions
@@ -21,6 +22,39 @@ pub mod key;
 pub mod pack;
 pub mod unpack;
 
+// the path with symlinks and relative parts resolved, also if the file itself doesn't exist (yet)
+fn resolve(path: &Path) -> Option<PathBuf> {
+    std::fs::canonicalize(path).ok().or_else(|| {
+        let parent = path
+            .parent()
+            .filter(|p| !p.as_os_str().is_empty())
+            .unwrap_or_else(|| Path::new("."));
+        Some(std::fs::canonicalize(parent).ok()?.join(path.file_name()?))
+    })
+}
+
+// whether both paths lead to the same file, no matter how they are spelled
+pub fn is_same_file(a: &str, b: &str) -> bool {
+    if a == b {
+        return true;
+    }
+
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (std::fs::metadata(a), std::fs::metadata(b)) {
+            if (a.dev(), a.ino()) == (b.dev(), b.ino()) {
+                return true;
+            }
+        }
+    }
+
+    match (resolve(Path::new(a)), resolve(Path::new(b))) {
+        (Some(a), Some(b)) => a == b,
+        _ => false,
+    }
+}
+
 pub fn encrypt(sub_matches: &ArgMatches) -> Result<()> {
     let params = parameter_handler(sub_matches)?;
     let algorithm = algorithm(sub_matches);
diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..68da129 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -19,12 +19,20 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
+    if super::is_same_file(input, output) {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if super::is_same_file(path, output) {
+            return Err(anyhow::anyhow!(
+                "Header and output files cannot have the same name."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index ad8ded7..4caa778 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -22,12 +22,20 @@ pub fn stream_mode(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
+    if super::is_same_file(input, output) {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if super::is_same_file(path, input) || super::is_same_file(path, output) {
+            return Err(anyhow::anyhow!(
+                "The header cannot be stored in the input or output file."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 19d44cb..c4c6d8c 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -36,12 +36,24 @@ pub fn execute(req: &Request) -> Result<()> {
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if req.input_file.iter().any(|f| f == req.output_file) {
+    if req
+        .input_file
+        .iter()
+        .any(|f| super::is_same_file(f, req.output_file))
+    {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if super::is_same_file(path, req.output_file) {
+            return Err(anyhow::anyhow!(
+                "The header cannot be stored in the output file."
+            ));
+        }
+    }
+
     if req.input_file.iter().any(|f| PathBuf::from(f).is_file()) {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
-- 
2.43.0


From 2e184deb2d14a7e2cf2e0400b2442077895e000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 18/30] fix: pack refuses to erase the directory its output is
 stored in

---
 crates/volaris-cli/src/subcommands.rs      |  8 ++++++++
 crates/volaris-cli/src/subcommands/pack.rs | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index f296ff3..b144965 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -55,6 +55,14 @@ pub fn is_same_file(a: &str, b: &str) -> bool {
     }
 }
 
+// whether the path leads to something within the directory
+pub fn is_inside(path: &str, dir: &str) -> bool {
+    match (resolve(Path::new(path)), resolve(Path::new(dir))) {
+        (Some(path), Some(dir)) => path.starts_with(dir),
+        _ => false,
+    }
+}
+
 pub fn encrypt(sub_matches: &ArgMatches) -> Result<()> {
     let params = parameter_handler(sub_matches)?;
     let algorithm = algorithm(sub_matches);
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index c4c6d8c..e29976e 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -58,6 +58,19 @@ pub fn execute(req: &Request) -> Result<()> {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
 
+    if req.pack_params.erase_source == EraseSourceDir::Erase {
+        let header_path = match &req.crypto_params.header_location {
+            HeaderLocation::Embedded => None,
+            HeaderLocation::Detached(path) => Some(path.as_str()),
+        };
+        let mut created = [Some(req.output_file), header_path].into_iter().flatten();
+        if created.any(|path| req.input_file.iter().any(|dir| super::is_inside(path, dir))) {
+            return Err(anyhow::anyhow!(
+                "The source directory cannot be erased if the output is stored in it."
+            ));
+        }
+    }
+
     if !overwrite_check(req.output_file, req.crypto_params.force)? {
         exit(0);
     }
-- 
2.43.0


From 2ada86819efe78dea7755690330b74ee82b1e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 19/30] fix: unpack erases its input when it is asked to

---
 crates/volaris-cli/src/subcommands/unpack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..239555a 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -6,7 +6,7 @@ use anyhow::Result;
 use tools::storage::Storage;
 
 use crate::global::{
-    states::{HeaderLocation, PasswordState, PrintMode},
+    states::{EraseMode, HeaderLocation, PasswordState, PrintMode},
     structs::CryptoParams,
 };
 use crate::{info, warn};
@@ -77,5 +77,9 @@ pub fn unpack(
         super::hashing::hash_stream(&[input.to_string()])?;
     }
 
+    if let EraseMode::EraseFile(passes) = params.erase {
+        super::erase::secure_erase(input, passes, params.force)?;
+    }
+
     Ok(())
 }
-- 
2.43.0


From d8b06c540ee8e27ed20f7242fd85f2abc0f4514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 20/30] fix: unpack does not panic on an entry without a file
 name

---
 crates/volaris-cli/src/subcommands/unpack.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index 239555a..c56e7bb 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -44,14 +44,14 @@ pub fn unpack(
             on_decrypted_header: None,
             on_archive_info: None,
             on_zip_file: Some(Box::new(move |file_path| {
+                // there's no file name if the entry is the output directory itself
                 let file_name = file_path
                     .file_name()
-                    .expect("Unable to convert file name to OsStr")
-                    .to_str()
-                    .expect("Unable to convert file name's OsStr to &str")
+                    .unwrap_or(file_path.as_os_str())
+                    .to_string_lossy()
                     .to_string();
 
-                if std::fs::metadata(file_path).is_ok() {
+                if std::fs::metadata(&file_path).is_ok() {
                     let answer = get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
-- 
2.43.0


From efe9e45625ec218735225327e2399e4acb63ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 21/30] fix: unpack reports an unanswered overwrite question
 instead of panicking, so that the temporary archive is wiped

---
 crates/volaris-cli/src/subcommands/unpack.rs | 30 ++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index c56e7bb..b614a38 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,6 @@
 use crate::{cli::prompt::get_answer, global::states::HashMode};
+use std::cell::RefCell;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use anyhow::Result;
@@ -34,6 +36,10 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
+    // if a question cannot be answered nothing more is unpacked
+    let prompt_error = Rc::new(RefCell::new(None));
+    let on_prompt_error = prompt_error.clone();
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -44,6 +50,10 @@ pub fn unpack(
             on_decrypted_header: None,
             on_archive_info: None,
             on_zip_file: Some(Box::new(move |file_path| {
+                if on_prompt_error.borrow().is_some() {
+                    return false;
+                }
+
                 // there's no file name if the entry is the output directory itself
                 let file_name = file_path
                     .file_name()
@@ -56,11 +66,17 @@ pub fn unpack(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
                         params.force,
-                    )
-                    .expect("Unable to read answer");
-                    if !answer {
-                        warn!("Skipping {}", file_name);
-                        return false;
+                    );
+                    match answer {
+                        Ok(true) => {}
+                        Ok(false) => {
+                            warn!("Skipping {}", file_name);
+                            return false;
+                        }
+                        Err(err) => {
+                            *on_prompt_error.borrow_mut() = Some(err);
+                            return false;
+                        }
                     }
                 }
 
@@ -73,6 +89,10 @@ pub fn unpack(
         },
     )?;
 
+    if let Some(err) = prompt_error.take() {
+        return Err(err);
+    }
+
     if params.hash_mode == HashMode::CalculateHash {
         super::hashing::hash_stream(&[input.to_string()])?;
     }
-- 
2.43.0


From d4271b926acc54462f47ea00e1a3a423314aee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 22/30] fix: report an error if unpack cannot start a thread,
 and remove its temporary archive

---
 crates/volaris-tools/src/unpack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 668b9a7..dbbc6c3 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -150,9 +150,12 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
             .map(|full_path| {
                 let stor = stor.clone();
                 let full_path = full_path.clone();
-                std::thread::spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                // the system may refuse another thread
+                std::thread::Builder::new()
+                    .spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                    .map_err(|_| Error::Storage(storage::Error::CreateDir))
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>, _>>()?;
 
         create_dirs_jobs
             .into_iter()
-- 
2.43.0


From f6ed7965b30fde5dd7fbc9582f53d7c84fdf5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 23/30] fix: report an error if a thread to erase a file cannot
 be started

---
 crates/volaris-tools/src/erase_dir.rs | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index 932ddd7..908f4da 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -13,6 +13,7 @@ pub enum Error {
     EraseFile(crate::erase::Error),
     ReadDirEntries,
     RemoveDir,
+    SpawnThread,
 }
 
 impl std::fmt::Display for Error {
@@ -22,6 +23,7 @@ impl std::fmt::Display for Error {
             Error::EraseFile(inner) => write!(f, "Unable to erase file: {inner}"),
             Error::ReadDirEntries => f.write_str("Unable to get all dir entries"),
             Error::RemoveDir => f.write_str("Unable to remove directory recursively"),
+            Error::SpawnThread => f.write_str("Unable to start a thread"),
         }
     }
 }
@@ -56,19 +58,22 @@ where
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
-            std::thread::spawn(move || -> Result<(), Error> {
-                crate::erase::execute(
-                    stor,
-                    crate::erase::Request {
-                        path: file_path,
-                        passes: req.passes,
-                    },
-                )
-                .map_err(Error::EraseFile)?;
-                Ok(())
-            })
+            // the system may refuse another thread
+            std::thread::Builder::new()
+                .spawn(move || -> Result<(), Error> {
+                    crate::erase::execute(
+                        stor,
+                        crate::erase::Request {
+                            path: file_path,
+                            passes: req.passes,
+                        },
+                    )
+                    .map_err(Error::EraseFile)?;
+                    Ok(())
+                })
+                .map_err(|_| Error::SpawnThread)
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, _>>()?;
 
     handlers.into_iter().try_for_each(|h| h.join().unwrap())?;
 
-- 
2.43.0


From c1ff4d5d13933d166600be3c6a141ee08817f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 24/30] fix: accept a master key of zeros when keys are added,
 changed, verified or deleted

---
 crates/volaris-tools/src/key.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/volaris-tools/src/key.rs b/crates/volaris-tools/src/key.rs
index d59ac7d..9490011 100644
--- a/crates/volaris-tools/src/key.rs
+++ b/crates/volaris-tools/src/key.rs
@@ -51,7 +51,7 @@ pub fn decrypt_v5_master_key_with_index(
     raw_key_old: Protected<Vec<u8>>,
     algorithm: &Algorithm,
 ) -> Result<(Protected<[u8; MASTER_KEY_LEN]>, usize), Error> {
-    let mut index = 0;
+    let mut index = None;
     let mut master_key = [0u8; MASTER_KEY_LEN];
 
     // we need the index, so we can't use `decrypt_master_key()`
@@ -73,7 +73,7 @@ pub fn decrypt_v5_master_key_with_index(
         master_key[..len].copy_from_slice(&master_key_decrypted[..len]);
         master_key_decrypted.zeroize();
 
-        index = i;
+        index = Some(i);
 
         drop(cipher);
         break;
@@ -81,11 +81,10 @@ pub fn decrypt_v5_master_key_with_index(
 
     drop(raw_key_old);
 
-    if master_key == [0u8; MASTER_KEY_LEN] {
-        return Err(Error::IncorrectKey);
+    match index {
+        Some(index) => Ok((Protected::new(master_key), index)),
+        None => Err(Error::IncorrectKey),
     }
-
-    Ok((Protected::new(master_key), index))
 }
 
 impl std::error::Error for Error {}
-- 
2.43.0


From 1268ade6fa25843be584773d147738ee62a6cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 25/30] fix: overwrite a file in blocks, so that erasing does
 not take as much memory as the file

---
 crates/volaris-tools/src/overwrite.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 6725ea0..091c940 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -5,7 +5,7 @@
 use rand::RngCore;
 use std::cell::RefCell;
 use std::fmt;
-use std::io::{Seek, Write};
+use std::io::{self, Read, Seek, Write};
 
 const BLOCK_SIZE: usize = 512;
 
@@ -41,10 +41,11 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     for _ in 0..req.passes {
         writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
 
-        let mut blocks = [BLOCK_SIZE].repeat(req.buf_capacity / BLOCK_SIZE);
-        blocks.push(req.buf_capacity % BLOCK_SIZE);
+        let blocks = std::iter::repeat(BLOCK_SIZE)
+            .take(req.buf_capacity / BLOCK_SIZE)
+            .chain([req.buf_capacity % BLOCK_SIZE]);
 
-        for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
+        for block_size in blocks.take_while(|bs| *bs > 0) {
             let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
@@ -56,9 +57,12 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     }
 
     writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
-    writer
-        .write_all(&[0].repeat(req.buf_capacity))
-        .map_err(|_| Error::OverwriteWithZeros)?;
+    // the file may be larger than the memory
+    io::copy(
+        &mut io::repeat(0).take(req.buf_capacity as u64),
+        &mut *writer,
+    )
+    .map_err(|_| Error::OverwriteWithZeros)?;
     writer.flush().map_err(|_| Error::FlushFile)
 }
 
-- 
2.43.0


From 325788ae224d5f79274d3b9d192862c75c2d8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 26/30] fix: refuse a VOLARIS_KEY that is not UTF-8 instead of
 taking the key from elsewhere

---
 crates/volaris-cli/src/global/states.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index b2ad5bd..e6cb830 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -132,7 +132,7 @@ impl Key {
                     .context("No keyfile/invalid text provided")?
                     .to_string(),
             )
-        } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
+        } else if std::env::var_os("VOLARIS_KEY").is_some() && params.env {
             Key::Env
         } else if params.autogenerate
             && matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
-- 
2.43.0


From 03dde06a0410e7c4432e9e3bcb3843c49a8ea238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 27/30] fix: encrypt and decrypt refuse a directory as input or
 header before the output is touched

---
 crates/volaris-cli/src/subcommands/decrypt.rs | 6 ++++--
 crates/volaris-cli/src/subcommands/encrypt.rs | 3 ++-
 crates/volaris-cli/src/subcommands/unpack.rs  | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 68da129..4f62d54 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -38,10 +38,12 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
     }
 
     let input_file = stor.read_file(input)?;
+    let reader = input_file.try_reader()?;
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => Some(stor.read_file(path)?),
     };
+    let header_reader = header_file.as_ref().map(|h| h.try_reader()).transpose()?;
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
     let output_file = stor
@@ -50,8 +52,8 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
 
     // 2. decrypt file
     tools::decrypt::execute(tools::decrypt::Request {
-        header_reader: header_file.as_ref().and_then(|h| h.try_reader().ok()),
-        reader: input_file.try_reader()?,
+        header_reader,
+        reader,
         writer: output_file.try_writer()?,
         raw_key,
         on_decrypted_header: None,
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 4caa778..793678e 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -47,6 +47,7 @@ pub fn stream_mode(
     }
 
     let input_file = stor.read_file(input)?;
+    let reader = input_file.try_reader()?;
     let raw_key = params.key.get_secret(&PasswordState::Validate)?;
     let output_file = stor
         .create_file(output)
@@ -61,7 +62,7 @@ pub fn stream_mode(
 
     // 2. encrypt file
     let req = tools::encrypt::Request {
-        reader: input_file.try_reader()?,
+        reader,
         writer: output_file.try_writer()?,
         header_writer: header_file.as_ref().and_then(|f| f.try_writer().ok()),
         raw_key,
diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index b614a38..3768583 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -33,6 +33,7 @@ pub fn unpack(
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => Some(stor.read_file(path)?),
     };
+    let header_reader = header_file.as_ref().map(|h| h.try_reader()).transpose()?;
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
@@ -43,7 +44,7 @@ pub fn unpack(
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
-            header_reader: header_file.as_ref().and_then(|h| h.try_reader().ok()),
+            header_reader,
             reader: input_file.try_reader()?,
             output_dir_path: PathBuf::from(output),
             raw_key,
-- 
2.43.0


From 8668fb52504e472a48eca80a4b25e7403299d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 28/30] fix: pack leaves its own output and header out of the
 archive

---
 crates/volaris-cli/src/subcommands/pack.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index e29976e..762faa2 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -1,4 +1,4 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::process::exit;
 use std::sync::Arc;
 
@@ -98,13 +98,25 @@ pub fn execute(req: &Request) -> Result<()> {
         }
     };
 
+    // the archive cannot contain itself
+    let is_created = |path: &Path| {
+        path.to_str().is_some_and(|path| {
+            super::is_same_file(path, req.output_file)
+                || matches!(&req.crypto_params.header_location, HeaderLocation::Detached(header) if super::is_same_file(path, header))
+        })
+    };
+
     let compress_files = input_files
         .into_iter()
         .flat_map(|file| {
             if file.is_dir() {
                 // TODO(pleshevskiy): use iterator instead of vec!
                 match stor.read_dir(&file) {
-                    Ok(files) => files.into_iter().map(Ok).collect(),
+                    Ok(files) => files
+                        .into_iter()
+                        .filter(|f| f.is_dir() || !is_created(f.path()))
+                        .map(Ok)
+                        .collect(),
                     Err(err) => vec![Err(err)],
                 }
             } else {
-- 
2.43.0


From ed88b164057ef5db0e61c4ada7ad09f1a3fb82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 29/30] fix: leave no parts of a generated passphrase in freed
 memory

---
 crates/volaris-crypto/src/key.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index ec04b29..ba2afed 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -206,7 +206,10 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let collection = include_str!("wordlist.lst");
     let words = collection.lines().collect::<Vec<_>>();
 
-    let mut passphrase = String::new();
+    // a string that has to grow leaves copies of its beginning in memory
+    let longest = words.iter().map(|word| word.len()).max().unwrap_or(0);
+    let count = usize::try_from(*total_words).unwrap_or(0);
+    let mut passphrase = String::with_capacity((longest + 1).saturating_mul(count));
 
     for i in 0..*total_words {
         let index = StdRng::from_entropy().gen_range(0..words.len());
-- 
2.43.0


From ee7a8c5faa60442a8d3d93117b8c0dbe64ab3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 30/30] fix: refuse to unpack an archive over itself or its
 header

---
 crates/volaris-cli/src/subcommands/unpack.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index 3768583..a034ac7 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -41,6 +41,12 @@ pub fn unpack(
     let prompt_error = Rc::new(RefCell::new(None));
     let on_prompt_error = prompt_error.clone();
 
+    // what is being read cannot be replaced with what is in the archive
+    let read_paths = match &params.header_location {
+        HeaderLocation::Embedded => vec![input.to_string()],
+        HeaderLocation::Detached(path) => vec![input.to_string(), path.clone()],
+    };
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -62,6 +68,14 @@ pub fn unpack(
                     .to_string_lossy()
                     .to_string();
 
+                let is_read = |path: &str| read_paths.iter().any(|p| super::is_same_file(path, p));
+                if file_path.to_str().is_some_and(is_read) {
+                    *on_prompt_error.borrow_mut() = Some(anyhow::anyhow!(
+                        "The archive cannot be unpacked over itself or its header."
+                    ));
+                    return false;
+                }
+
                 if std::fs::metadata(&file_path).is_ok() {
                     let answer = get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
-- 
2.43.0

