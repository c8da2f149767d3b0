From 4872577fc79e98b8ddcd0c72698ab4e74e457fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:45 +0000
Subject: [PATCH 01/18] fix: find the end of a command without inventing or
 losing bytes

Reader::end() takes an empty leftover for unread data, counts the byte it
peeks at twice, and turns an i/o error into a zero byte. A command whose
last action ends in a multi-byte length was rejected, the bit count (and
with it the rest of from_bytes) was off, and a failing source was decoded
as a NOP.
---
 dash7/src/app/command.rs |  4 ++--
 dash7/src/utils.rs       | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..d2a4674 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -12,7 +12,7 @@ use deku::{
 
 use crate::{
     session::InterfaceStatus,
-    utils::{from_bytes, from_reader},
+    utils::{at_end, from_bytes, from_reader},
 };
 
 use super::{
@@ -50,7 +50,7 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? && !at_end(reader)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..4ed877c 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -5,10 +5,11 @@ use core::{
 };
 use std::borrow::Cow;
 use std::fmt::Debug;
+use std::io::ErrorKind;
 
 use deku::{
     ctx::{ByteSize, Limit},
-    no_std_io::{Cursor, Read, Seek, Write},
+    no_std_io::{Cursor, Read, Seek, SeekFrom, Write},
     prelude::*,
 };
 
@@ -44,6 +45,29 @@ pub fn pad_rest<'a>(rest: (&'a [u8], usize), bits_read: usize) -> (&'a [u8], usi
     (&rest.0[idx..], bits_read % 8)
 }
 
+/// Whether the reader has no more bits to offer.
+///
+/// Contrary to [Reader::end], this leaves the position and the bit count of the reader untouched,
+/// does not mistake an empty leftover for unread bits, and reports i/o errors.
+pub fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
+where
+    R: Read + Seek,
+{
+    if !reader.rest().is_empty() {
+        return Ok(false);
+    }
+
+    let inner = reader.as_mut();
+    match inner.read_exact(&mut [0u8; 1]) {
+        Ok(()) => inner
+            .seek(SeekFrom::Current(-1))
+            .map(|_| false)
+            .map_err(|err| DekuError::Io(err.kind())),
+        Err(err) if err.kind() == ErrorKind::UnexpectedEof => Ok(true),
+        Err(err) => Err(DekuError::Io(err.kind())),
+    }
+}
+
 pub fn from_reader<'a, R, T, Ctx>(
     input: (&'a mut R, usize),
     ctx: Ctx,
-- 
2.43.0


From 513a4d6c1d557e648d2307c1a87f373e5015a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 02/18] fix: report a failing rewind to the opcode and do not
 count its byte twice

Action::from_bytes and Command::from_bytes lost one byte of their rest per
action, and try_from accepted trailing bytes.
---
 dash7/src/app/action.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..e704411 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -168,7 +168,10 @@ impl<'a> DekuReader<'a, ()> for Action {
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
         // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        reader.bits_read -= u8::BITS as usize;
 
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
-- 
2.43.0


From b9c0a107425d48d7b620b2d4ba619ed8ee54e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 03/18] fix: do not write to stdout while decoding

A leftover debug print panics when stdout is closed or full, and corrupts
the output of programs that use it.
---
 dash7/src/utils.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 4ed877c..aaf69eb 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -4,7 +4,6 @@ use core::{
     ptr, slice,
 };
 use std::borrow::Cow;
-use std::fmt::Debug;
 use std::io::ErrorKind;
 
 use deku::{
@@ -89,7 +88,7 @@ pub fn from_bytes<'a, T, Ctx>(
     ctx: Ctx,
 ) -> Result<((&'a [u8], usize), T), DekuError>
 where
-    T: DekuReader<'a, Ctx> + Debug,
+    T: DekuReader<'a, Ctx>,
 {
     let mut cursor = Cursor::new(input.0);
     let mut reader = &mut Reader::new(&mut cursor);
@@ -97,11 +96,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From fe19d54171dabf0d2e22c9398135350947c12dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 04/18] fix: drop the elements that were read when an array
 ends early

The transient dropper moved its base pointer along, and so dropped
uninitialised elements instead of the ones read so far.
---
 dash7/src/utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index aaf69eb..2a3e60c 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -207,7 +207,6 @@ where
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0


From 68d55141b3fc5f7d3890d6c14c712ac3e9f8b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 05/18] fix: only expect a mask in a string token search that
 announces one

---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From bef714920895d55c8ecec600dd521bc1c9e0bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 06/18] fix: do not reserve memory for a length that the data
 does not back

A count attribute allocates the announced number of elements up front: a
corrupted length of a few bytes asked for up to 1 GiB.
---
 dash7/src/app/query.rs               | 14 +++++++-------
 dash7/src/file/mod.rs                |  2 +-
 dash7/src/session/interface_final.rs |  4 ++--
 dash7/src/session/mod.rs             |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index 7f84175..c064ddf 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -86,7 +86,7 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +114,10 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +149,7 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +189,7 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +228,10 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/mod.rs b/dash7/src/file/mod.rs
index 23bee7a..a36f0fb 100644
--- a/dash7/src/file/mod.rs
+++ b/dash7/src/file/mod.rs
@@ -202,7 +202,7 @@ pub enum File {
     NwlSecurityKey(SecurityKey),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 impl Default for File {
diff --git a/dash7/src/session/interface_final.rs b/dash7/src/session/interface_final.rs
index fd7d57f..2d972b2 100644
--- a/dash7/src/session/interface_final.rs
+++ b/dash7/src/session/interface_final.rs
@@ -9,7 +9,7 @@ pub enum InterfaceFinalStatus {
     Dash7(InterfaceFinalStatusCode),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
@@ -70,7 +70,7 @@ pub enum InterfaceTxStatus {
     Dash7(Dash7InterfaceTxStatus),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
diff --git a/dash7/src/session/mod.rs b/dash7/src/session/mod.rs
index 348b6f3..f618c67 100644
--- a/dash7/src/session/mod.rs
+++ b/dash7/src/session/mod.rs
@@ -160,7 +160,7 @@ pub enum InterfaceStatus {
     Dash7(Dash7InterfaceStatus),
 
     #[deku(id = "InterfaceType::Unknown")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 247e6eb4f395c9a4c794bc501780eed516bb9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:03 +0000
Subject: [PATCH 07/18] fix: put the opcode of a tx status right after its type

6 padding bits pushed the opcode out of the first byte: a tx status was
written as a NOP and could not be read.
---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 6dda1eeda7792527a5429cd8e928bd36203e2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:56 +0000
Subject: [PATCH 08/18] fix: keep to the announced length when reading file
 data and statuses

The length in front of a system file or of an interface status was ignored:
part of a system file, or a status of another size, made the decoder take
the following bytes for it, or the other way around.
---
 dash7/src/app/interface_final.rs | 15 +++-----------
 dash7/src/app/operation/mod.rs   | 26 ++++++++++++------------
 dash7/src/utils.rs               | 34 ++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 6c45ed1..2471264 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -4,16 +4,7 @@ use deku::prelude::*;
 use super::action::OpCode;
 use super::operation::{Length, Status};
 use crate::session::{InterfaceFinalStatus, InterfaceTxStatus};
-
-fn read_length_prefixed<'a, R, T, L, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
-where
-    T: DekuReader<'a, (C, L)>,
-    Length: Into<L>,
-    R: Read + Seek,
-{
-    let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-    T::from_reader_with_ctx(reader, (ctx, length.into()))
-}
+use crate::utils::read_length_prefixed;
 
 fn write_length_prefixed<W, T, C>(writer: &mut Writer<W>, item: &T, ctx: C) -> Result<(), DekuError>
 where
@@ -71,7 +62,7 @@ impl InterfaceFinalStatus {
     where
         R: Read + Seek,
     {
-        read_length_prefixed(reader, interface_id)
+        read_length_prefixed(reader, |length| (interface_id, length))
     }
 
     pub fn write<W: Write + Seek>(
@@ -142,7 +133,7 @@ impl InterfaceTxStatus {
     where
         R: Read + Seek,
     {
-        return read_length_prefixed(reader, interface_id);
+        return read_length_prefixed(reader, |length| (interface_id, length));
     }
 
     pub fn write<W: Write + Seek>(
diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..9736995 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,8 +5,12 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
-use crate::utils::write_length_prefixed;
-use crate::{data::FileHeader, file::File, session::InterfaceStatus};
+use crate::utils::{from_exact_bytes, read_bytes, read_length_prefixed, write_length_prefixed};
+use crate::{
+    data::FileHeader,
+    file::{self, File},
+    session::InterfaceStatus,
+};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
 
 mod file_offset;
@@ -166,8 +170,12 @@ impl FileData {
         R: no_std_io::Read + no_std_io::Seek,
     {
         let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-        let file_id = offset.file_id.try_into()?;
-        File::from_reader_with_ctx(reader, (file_id, Into::<u32>::into(length)))
+        let file_id: file::FileId = offset.file_id.try_into()?;
+        let data = read_bytes(reader, length)?;
+
+        // part of a system file cannot be interpreted
+        let file = from_exact_bytes(&data, (file_id, Into::<u32>::into(length)))?;
+        Ok(file.unwrap_or(File::Other(data)))
     }
 
     fn write<W>(writer: &mut Writer<W>, data: &File, offset: &FileOffset) -> Result<(), DekuError>
@@ -353,15 +361,7 @@ impl InterfaceStatusOperation {
         R: no_std_io::Read + no_std_io::Seek,
     {
         // Subiot v0.0 was missing the length field
-        #[allow(unused_assignments)]
-        let mut length = Length(0);
-
-        #[cfg(not(feature = "subiot_v0_0"))]
-        {
-            length = Length::from_reader_with_ctx(reader, ())?;
-        }
-
-        InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
+        read_length_prefixed(reader, |length| (interface_type, length))
     }
 
     #[cfg(not(feature = "subiot_v0_0"))]
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 2a3e60c..7aa1ef3 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -99,6 +99,40 @@ where
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
+pub fn read_bytes<R>(reader: &mut Reader<R>, length: Length) -> Result<Vec<u8>, DekuError>
+where
+    R: Read + Seek,
+{
+    Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(length.into())))
+}
+
+/// Decode an item that has to fill all of `data`. None if it does not fit exactly.
+pub fn from_exact_bytes<'a, T, Ctx>(data: &'a [u8], ctx: Ctx) -> Result<Option<T>, DekuError>
+where
+    T: DekuReader<'a, Ctx>,
+{
+    match from_bytes((data, 0), ctx) {
+        Ok(((&[], _), item)) => Ok(Some(item)),
+        Ok(_) | Err(DekuError::Incomplete(_)) => Ok(None),
+        Err(err) => Err(err),
+    }
+}
+
+/// Read an item and the length that precedes it. It has to be of exactly that length.
+pub fn read_length_prefixed<R, T, Ctx>(
+    reader: &mut Reader<R>,
+    ctx: impl FnOnce(u32) -> Ctx,
+) -> Result<T, DekuError>
+where
+    T: for<'a> DekuReader<'a, Ctx>,
+    R: Read + Seek,
+{
+    let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
+    let data = read_bytes(reader, length)?;
+    from_exact_bytes(&data, ctx(length.into()))?
+        .ok_or_else(|| DekuError::Parse("length does not match the data".into()))
+}
+
 pub fn write_length_prefixed<W, T, Ctx>(
     writer: &mut Writer<W>,
     item: &T,
-- 
2.43.0


From c503cf2fa74dd3515d682f58f12546c8e257873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 09/18] fix: show the content of files that have no known
 layout

The cli asked for 0 bytes of them, whatever the input.
---
 dash7-cli/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..cd37019 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
-- 
2.43.0


From 3daba39565d42372dc70141ae36b13e4778c2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 10/18] Add a guarded hook (cfg dash7_verif) to read arrays of
 any element type

---
 dash7/src/lib.rs   |  6 ++++++
 dash7/src/utils.rs | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/dash7/src/lib.rs b/dash7/src/lib.rs
index c125a42..7b89f7a 100644
--- a/dash7/src/lib.rs
+++ b/dash7/src/lib.rs
@@ -23,6 +23,9 @@
 // //! are composed between them (OR, XOR, NOR, NAND). Without any Logical action, the
 // //! queries are AND'ed.
 
+// cfg(dash7_verif) gives a verification harness access to internals. Off by default.
+#![allow(unexpected_cfgs)]
+
 use mutually_exclusive_features::{exactly_one_of, none_or_one_of};
 exactly_one_of!("_spec", "_subiot", "_wizzilab");
 
@@ -53,6 +56,9 @@ pub mod link;
 /// Utility functions
 pub(crate) mod utils;
 
+#[cfg(dash7_verif)]
+pub use utils::verif;
+
 /// Reusable types
 pub mod types;
 
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 7aa1ef3..3ef53b3 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -262,3 +262,19 @@ where
     }
     Ok(())
 }
+
+#[cfg(dash7_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Reads an array of any element type, the way access profiles read theirs
+    pub fn array_from_reader<'a, R, T, const N: usize>(
+        reader: &mut Reader<R>,
+    ) -> Result<[T; N], DekuError>
+    where
+        T: DekuReader<'a>,
+        R: Read + Seek,
+    {
+        read_array::<R, T, N>(reader)
+    }
+}
-- 
2.43.0


From ceaaaa674c5138e78de1dc0f4a0f5aa85e56fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:29 +0000
Subject: [PATCH 11/18] fix: do not interpret file data at an offset as the
 whole file

Part of a system file that starts at an offset was taken for the start of that
file, and refused whenever its bytes did not make sense there.
---
 dash7/src/app/operation/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 9736995..6eadb8d 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -174,6 +174,9 @@ impl FileData {
         let data = read_bytes(reader, length)?;
 
         // part of a system file cannot be interpreted
+        if Into::<u32>::into(offset.offset) > 0 {
+            return Ok(File::Other(data));
+        }
         let file = from_exact_bytes(&data, (file_id, Into::<u32>::into(length)))?;
         Ok(file.unwrap_or(File::Other(data)))
     }
-- 
2.43.0


From dc264e13ad408d32a951e3f9202a8c4661fa41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 12/18] fix: count the length of a frame from where it starts,
 not from the start of the stream

---
 dash7/src/app/command.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index d2a4674..66fb559 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -6,7 +6,7 @@ use std::fmt::{self, Display};
 use alloc::fmt;
 
 use deku::{
-    no_std_io::{self, Cursor, Seek},
+    no_std_io::{self, Cursor},
     prelude::*,
 };
 
@@ -39,18 +39,13 @@ impl<'a> DekuReader<'a, u32> for Command {
     {
         let mut command = Command { actions: vec![] };
 
-        let valid_length = |r: &mut Reader<R>, l: u32| -> Result<bool, DekuError> {
-            Ok(match l {
-                0 => true,
-                _ => {
-                    r.stream_position()
-                        .map_err(|err| DekuError::Io(err.kind()))?
-                        < (l as u64)
-                }
-            })
+        // the length counts from where the reader started, which need not be the start of the stream
+        let valid_length = |r: &Reader<R>, l: u32| match l {
+            0 => true,
+            _ => (r.bits_read.div_ceil(u8::BITS as usize) as u64) < (l as u64),
         };
 
-        while valid_length(reader, length)? && !at_end(reader)? {
+        while valid_length(reader, length) && !at_end(reader)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
-- 
2.43.0


From f21e9aa286b16023012937c79fd67972bd4cc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 13/18] fix: do not cut a text in the middle of a character
 when it is too long for its field

---
 dash7/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 3ef53b3..bdd8565 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -212,7 +212,11 @@ where
 {
     let mut bytes = [0u8; N];
 
-    let max_index = cmp::min(value.len(), N);
+    // Cut what does not fit, but not in the middle of a character
+    let mut max_index = cmp::min(value.len(), N);
+    while !value.is_char_boundary(max_index) {
+        max_index -= 1;
+    }
     bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
 
     DekuWriter::to_writer(&bytes.as_slice(), writer, ())
-- 
2.43.0


From d7aed555eabbd6c4d1e8e5ae85937052f0ac0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 14/18] fix: refuse to write lists, masks and keys that do not
 have the length that is announced

---
 dash7/src/app/interface.rs   | 10 ++++----
 dash7/src/app/query.rs       | 46 ++++++++++++++++++++++++++++++------
 dash7/src/file/phy_status.rs |  5 +++-
 3 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index def32e8..83dd0ed 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -49,13 +49,13 @@ pub struct LoRaWANInterfaceConfiguration {
 pub struct LoRaWANOTAAInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "device_eui.len() == 8")]
     pub device_eui: Vec<u8>,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "app_eui.len() == 8")]
     pub app_eui: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_key.len() == 16")]
     pub app_key: Vec<u8>,
 }
 
@@ -63,10 +63,10 @@ pub struct LoRaWANOTAAInterfaceConfiguration {
 pub struct LoRaWANABPInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "network_session_key.len() == 16")]
     pub network_session_key: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_session_key.len() == 16")]
     pub app_session_key: Vec<u8>,
 
     pub device_address: u32,
diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index c064ddf..74ab658 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -86,7 +86,12 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "mask.len() == if *mask_present { length.0 as usize } else { 0 }"
+    )]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +119,19 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "mask.len() == if *mask_present { length.0 as usize } else { 0 }"
+    )]
     pub mask: Vec<u8>,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "value.len() == length.0 as usize"
+    )]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +163,12 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "mask.len() == if *mask_present { length.0 as usize } else { 0 }"
+    )]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +208,11 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "mask.len() == length.0 as usize"
+    )]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +251,19 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "mask.len() == if *mask_present { length.0 as usize } else { 0 }"
+    )]
     pub mask: Vec<u8>,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "value.len() == length.0 as usize"
+    )]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/phy_status.rs b/dash7/src/file/phy_status.rs
index 1609071..6410b14 100644
--- a/dash7/src/file/phy_status.rs
+++ b/dash7/src/file/phy_status.rs
@@ -16,7 +16,10 @@ pub struct PhyStatus {
     #[deku(update = "self.channel_status.len()")]
     channel_status_list_length: u8,
 
-    #[deku(count = "*channel_status_list_length")]
+    #[deku(
+        count = "*channel_status_list_length",
+        assert = "channel_status.len() == *channel_status_list_length as usize"
+    )]
     pub channel_status: Vec<ChannelStatus>,
 }
 
-- 
2.43.0


From bfdfa157323d96c1ad5bfc9ea11511bdc46597f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 15/18] fix: refuse to write an address or overload that
 contradicts its header

---
 dash7/src/app/operation/mod.rs | 5 ++++-
 dash7/src/network/addressee.rs | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 6eadb8d..e9e4af3 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -535,7 +535,10 @@ pub struct IndirectForward {
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
     pub opcode: OpCode,
 
-    #[deku(cond = "header.overloaded")]
+    #[deku(
+        cond = "header.overloaded",
+        assert = "configuration.is_some() == header.overloaded"
+    )]
     pub configuration: Option<IndirectInterface>,
 }
 
diff --git a/dash7/src/network/addressee.rs b/dash7/src/network/addressee.rs
index e628064..7017aa0 100644
--- a/dash7/src/network/addressee.rs
+++ b/dash7/src/network/addressee.rs
@@ -27,10 +27,13 @@ pub struct Addressee {
 
     pub access_class: AccessClass,
 
-    #[deku(ctx = "*address_type")]
+    #[deku(
+        ctx = "*address_type",
+        assert = "address.deku_id() == Ok(*address_type)"
+    )]
     pub address: Address,
 
-    #[deku(ctx = "*nls_method")]
+    #[deku(ctx = "*nls_method", assert = "nls_state.deku_id() == Ok(*nls_method)")]
     pub nls_state: NlsState,
 }
 
-- 
2.43.0


From 863c4c03b46b461f4537f071e528006fec5faa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 16/18] fix: count the length of a frame from its own start,
 also when its reader has read something before

---
 dash7/src/link/frame.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dash7/src/link/frame.rs b/dash7/src/link/frame.rs
index 51d246a..c50ab7f 100644
--- a/dash7/src/link/frame.rs
+++ b/dash7/src/link/frame.rs
@@ -29,8 +29,26 @@ pub struct ForegroundFrameControl {
     eirp_index: u8,
 }
 
-#[derive(DekuRead, DekuWrite, Default, Debug, Clone, PartialEq)]
+/// What a length that counts from `start` is when it counts from the start of the reader
+fn length_from(start: usize, length: Length) -> u32 {
+    match length.into() {
+        0 => 0,
+        length => (start as u32).saturating_add(length),
+    }
+}
+
+#[deku_derive(DekuRead, DekuWrite)]
+#[derive(Default, Debug, Clone, PartialEq)]
 pub struct ForegroundFrame {
+    /// Where the frame starts in its reader
+    #[deku(
+        temp,
+        temp_value = "0",
+        reader = "Ok::<_, DekuError>(deku::reader.bits_read / 8)",
+        writer = "Ok::<_, DekuError>(())"
+    )]
+    start: usize,
+
     length: Length,
     subnet: u8,
     control: ForegroundFrameControl,
@@ -38,7 +56,10 @@ pub struct ForegroundFrame {
     #[deku(ctx = "control.address_type")]
     target_address: Address,
 
-    #[deku(ctx = "Into::<u32>::into(*length)")]
+    #[deku(
+        reader = "network::Frame::from_reader_with_ctx(deku::reader, length_from(*start, *length))",
+        ctx = "Into::<u32>::into(*length)"
+    )]
     frame: network::Frame,
     crc16: u16,
 }
-- 
2.43.0


From d0a44cd6b0482212de9912e4e53cb18971617979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 17/18] fix: an unknown error is an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index e9e4af3..e315484 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -51,7 +51,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= Self::UNKNOWN_ERROR
     }
 }
 
-- 
2.43.0


From 8bf593179c6fbd02acb4f08540cadeddc39032fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 18/18] fix: show every interface status of a command

---
 dash7/src/app/command.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 66fb559..3fa529a 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -220,12 +220,18 @@ impl Display for Command {
             }
         }
 
-        if let Some(interface_status) = self.interface_status() {
-            if actions.len() > 0 {
-                f.write_str("\n")?;
-            }
+        let mut first = true;
+        for action in self.actions.iter() {
+            if let Action::Status(status) = &action {
+                if let Status::Interface(iface_status) = &status.status {
+                    if first && actions.len() > 0 {
+                        f.write_str("\n")?;
+                    }
+                    first = false;
 
-            f.write_str(&format!("\tinterface status: {}\n", interface_status))?;
+                    f.write_str(&format!("\tinterface status: {}\n", iface_status.status))?;
+                }
+            }
         }
 
         Ok(())
-- 
2.43.0

