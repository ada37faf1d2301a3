From 6d2cca312451ac61880c95bec273b3dff4f51351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 01/21] fix: decoding from bytes must not print to standard
 output

---
 dash7/src/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..4bb7a54 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,11 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From 874f3dca0f470d51e612a5b5916964e3139f08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 02/21] fix: account for every byte exactly once when reading
 actions and commands

Peeking at the opcode and at the end of input counted bytes twice, so
trailing bytes were silently accepted, the reported remainder was wrong,
frames carrying a command could never be parsed, a byte was lost after an
indirect forward and read failures were taken for data.
---
 dash7/src/app/action.rs  |  6 +++++-
 dash7/src/app/command.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..35b3624 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -168,7 +168,11 @@ impl<'a> DekuReader<'a, ()> for Action {
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
         // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        // that byte will be read, and accounted for, a second time
+        reader.bits_read -= 8;
 
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..2f4cf68 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -31,6 +31,26 @@ pub struct Command {
     pub actions: Vec<Action>,
 }
 
+/// Returns whether there is nothing left to read, without consuming anything.
+///
+/// Unlike [Reader::end], this leaves the number of bits read untouched and reports read failures.
+fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
+where
+    R: no_std_io::Read + no_std_io::Seek,
+{
+    let inner: &mut R = reader.as_mut();
+    match inner.read_exact(&mut [0u8; 1]) {
+        Ok(()) => {
+            inner
+                .seek(no_std_io::SeekFrom::Current(-1))
+                .map_err(|err| DekuError::Io(err.kind()))?;
+            Ok(false)
+        }
+        Err(err) if err.kind() == std::io::ErrorKind::UnexpectedEof => Ok(true),
+        Err(err) => Err(DekuError::Io(err.kind())),
+    }
+}
+
 impl<'a> DekuReader<'a, u32> for Command {
     fn from_reader_with_ctx<R>(reader: &mut Reader<R>, length: u32) -> Result<Self, DekuError>
     where
@@ -50,10 +70,13 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
+            if at_end(reader)? {
+                return Ok(command);
+            }
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
         }
-- 
2.43.0


From 78910c7a39bc258524727b3c24be1481b561fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 03/21] fix: a frame's command length is counted from the start
 of the frame

It was compared with the position in the underlying stream, so only a frame
at the very beginning of a stream could be parsed.
---
 dash7/src/app/command.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 2f4cf68..9738be7 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -63,9 +63,8 @@ impl<'a> DekuReader<'a, u32> for Command {
             Ok(match l {
                 0 => true,
                 _ => {
-                    r.stream_position()
-                        .map_err(|err| DekuError::Io(err.kind()))?
-                        < (l as u64)
+                    // relative to where this reader started, not to the underlying stream
+                    (r.bits_read as u64) < (l as u64) * 8
                 }
             })
         };
-- 
2.43.0


From c41231ceaa1297f5fb0966fadee16819f1e5d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:40 +0000
Subject: [PATCH 04/21] fix: a string token search only carries a mask when it
 says so

---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 1d03c3c9d70587d1ec4b10347d7e86284b6acf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 05/21] fix: the transport control field takes a whole byte

It was 7 bits wide, which left everything behind it misaligned.
---
 dash7/src/transport/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/transport/mod.rs b/dash7/src/transport/mod.rs
index e278220..df27146 100644
--- a/dash7/src/transport/mod.rs
+++ b/dash7/src/transport/mod.rs
@@ -29,7 +29,8 @@ pub struct Control {
     pub has_listen_timeout: bool,
     #[deku(bits = 1)]
     pub has_execution_delay_timeout: bool,
-    #[deku(bits = 1)]
+    // one bit is reserved here, the control field takes a whole byte
+    #[deku(bits = 1, pad_bits_before = "1")]
     pub is_ack_requested: bool,
     #[deku(bits = 1)]
     pub is_ack_not_void: bool,
-- 
2.43.0


From 2980b329386dbe7d8eece5174abcb6a3fcecf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 06/21] fix: the network control field takes a whole byte

It was 9 bits wide unless built for wizzilab, which left everything behind
it misaligned.
---
 dash7/src/network/network.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/network/network.rs b/dash7/src/network/network.rs
index 67a00cd..e6a69f4 100644
--- a/dash7/src/network/network.rs
+++ b/dash7/src/network/network.rs
@@ -13,7 +13,8 @@ pub struct Control {
 
     origin_address_type: AddressType,
 
-    #[deku(pad_bits_before = "1")]
+    // the nls method is only 3 bits wide for wizzilab
+    #[cfg_attr(feature = "_wizzilab", deku(pad_bits_before = "1"))]
     nls_method: NlsMethod,
 }
 
-- 
2.43.0


From 36d39d5b96903533bcd89243660b1af1ca7c9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 07/21] fix: file data takes exactly the announced number of
 bytes

The length was ignored for the system files whose layout is known, so a
partial read or write of one of those swallowed the actions behind it.
---
 dash7/src/app/operation/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..20ad4cb 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -1,4 +1,4 @@
-use deku::{no_std_io, prelude::*};
+use deku::{ctx::Limit, no_std_io, prelude::*};
 
 pub use super::query::Query;
 use super::{
@@ -165,9 +165,19 @@ impl FileData {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
+        let length: u32 =
+            <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?.into();
         let file_id = offset.file_id.try_into()?;
-        File::from_reader_with_ctx(reader, (file_id, Into::<u32>::into(length)))
+
+        // the data takes exactly the announced number of bytes, whatever the file it belongs to
+        let limit = Limit::<u8, fn(&u8) -> bool>::new_count(length as usize);
+        let data = Vec::<u8>::from_reader_with_ctx(reader, limit)?;
+
+        // it need not be a whole, well-formed system file: it may well be only a part of one
+        match File::from_bytes((&data, 0), file_id, length) {
+            Ok(((rest, _), file)) if rest.is_empty() => Ok(file),
+            _ => Ok(File::Other(data)),
+        }
     }
 
     fn write<W>(writer: &mut Writer<W>, data: &File, offset: &FileOffset) -> Result<(), DekuError>
-- 
2.43.0


From 7c0b447836b8281e30b2e11f21a3056dfa6b95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 08/21] fix: the opcode of a tx status follows its type right
 away

Six bits too many were skipped, so no tx status action could be read or
written.
---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 45ad12bc91175ccbfaf81d9aa2f09a11e3053c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 09/21] fix: an interface status takes exactly the announced
 number of bytes

The announced length was ignored for all but unknown interfaces, so a
status of another size was silently misread together with whatever
follows it.
---
 dash7/src/app/interface_final.rs |  8 ++++----
 dash7/src/app/operation/mod.rs   | 14 +++-----------
 dash7/src/utils.rs               | 20 ++++++++++++++++++++
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 6c45ed1..2980c5c 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -4,15 +4,15 @@ use deku::prelude::*;
 use super::action::OpCode;
 use super::operation::{Length, Status};
 use crate::session::{InterfaceFinalStatus, InterfaceTxStatus};
+use crate::utils::read_exact_length;
 
-fn read_length_prefixed<'a, R, T, L, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
+fn read_length_prefixed<'a, R, T, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
 where
-    T: DekuReader<'a, (C, L)>,
-    Length: Into<L>,
+    T: DekuReader<'a, (C, u32)>,
     R: Read + Seek,
 {
     let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-    T::from_reader_with_ctx(reader, (ctx, length.into()))
+    read_exact_length(reader, ctx, length.into())
 }
 
 fn write_length_prefixed<W, T, C>(writer: &mut Writer<W>, item: &T, ctx: C) -> Result<(), DekuError>
diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 20ad4cb..14e9e37 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,7 +5,7 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
-use crate::utils::write_length_prefixed;
+use crate::utils::{read_exact_length, write_length_prefixed};
 use crate::{data::FileHeader, file::File, session::InterfaceStatus};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
 
@@ -362,16 +362,8 @@ impl InterfaceStatusOperation {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        // Subiot v0.0 was missing the length field
-        #[allow(unused_assignments)]
-        let mut length = Length(0);
-
-        #[cfg(not(feature = "subiot_v0_0"))]
-        {
-            length = Length::from_reader_with_ctx(reader, ())?;
-        }
-
-        InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
+        let length = Length::from_reader_with_ctx(reader, ())?;
+        read_exact_length(reader, interface_type, length.into())
     }
 
     #[cfg(not(feature = "subiot_v0_0"))]
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 4bb7a54..3283dde 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -76,6 +76,26 @@ where
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
+/// Read an item that has to take exactly the announced number of bytes
+pub fn read_exact_length<'a, R, T, Ctx>(
+    reader: &mut Reader<R>,
+    ctx: Ctx,
+    length: u32,
+) -> Result<T, DekuError>
+where
+    T: DekuReader<'a, (Ctx, u32)>,
+    R: Read + Seek,
+{
+    let start = reader.bits_read;
+    let item = T::from_reader_with_ctx(reader, (ctx, length))?;
+    if reader.bits_read - start != length as usize * 8 {
+        return Err(DekuError::Parse(Cow::Borrowed(
+            "Length does not match the data",
+        )));
+    }
+    Ok(item)
+}
+
 pub fn write_length_prefixed<W, T, Ctx>(
     writer: &mut Writer<W>,
     item: &T,
-- 
2.43.0


From 887b442f5b659f0602ca3411a0d3792bef003a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 10/21] fix: drop an import the frame length repair no longer
 uses

---
 dash7/src/app/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 9738be7..356cd25 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -6,7 +6,7 @@ use std::fmt::{self, Display};
 use alloc::fmt;
 
 use deku::{
-    no_std_io::{self, Cursor, Seek},
+    no_std_io::{self, Cursor},
     prelude::*,
 };
 
-- 
2.43.0


From 04e49ccbcf93ae98f7464a99c5718ffff60abba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 11/21] fix: make the Sub-IoT v0.0 flavour compile

---
 dash7/src/app/operation/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 14e9e37..91b0c07 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,6 +5,7 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
+#[cfg(not(feature = "subiot_v0_0"))]
 use crate::utils::{read_exact_length, write_length_prefixed};
 use crate::{data::FileHeader, file::File, session::InterfaceStatus};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
@@ -354,7 +355,6 @@ impl Into<Status> for InterfaceStatusOperation {
 }
 
 impl InterfaceStatusOperation {
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn read<'a, R>(
         reader: &mut Reader<'a, R>,
         interface_type: InterfaceType,
@@ -362,11 +362,17 @@ impl InterfaceStatusOperation {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        let length = Length::from_reader_with_ctx(reader, ())?;
-        read_exact_length(reader, interface_type, length.into())
+        // Subiot v0.0 was missing the length field
+        #[cfg(feature = "subiot_v0_0")]
+        return InterfaceStatus::from_reader_with_ctx(reader, (interface_type, 0));
+
+        #[cfg(not(feature = "subiot_v0_0"))]
+        {
+            let length = Length::from_reader_with_ctx(reader, ())?;
+            read_exact_length(reader, interface_type, length.into())
+        }
     }
 
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn write<W>(writer: &mut Writer<W>, status: &InterfaceStatus) -> Result<(), DekuError>
     where
         W: no_std_io::Write + no_std_io::Seek,
@@ -378,7 +384,7 @@ impl InterfaceStatusOperation {
 
         // Subiot v0.0 was missing the length field
         #[cfg(feature = "subiot_v0_0")]
-        return DekuWriter::to_writer(status, writer, (interface_type.try_into()?, vec_size));
+        return DekuWriter::to_writer(status, writer, (status.deku_id()?, vec_size));
 
         #[cfg(not(feature = "subiot_v0_0"))]
         return write_length_prefixed(writer, status, (status.deku_id().unwrap(), vec_size));
-- 
2.43.0


From 0734516132461e538d870a04dd1532b8dc6d36ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 12/21] fix: an unknown error is an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 91b0c07..04cda53 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -48,7 +48,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode::UNKNOWN_ERROR
     }
 }
 
-- 
2.43.0


From 69220ad63783ab24f4fafd15f64dd89d3d81dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 13/21] fix: report a mantissa that is too large as such

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From 8381b829c9beccd15a267849c6189f990528b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 14/21] fix: remove the padding of fixed size strings when
 reading them

Names shorter than their field did not survive a round trip.
---
 dash7/src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 3283dde..8cce164 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -159,7 +159,12 @@ pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String,
 where
     R: Read + Seek,
 {
-    let value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+    let mut value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+
+    // shorter strings are padded with NUL, see write_string
+    while value.last() == Some(&0) {
+        value.pop();
+    }
 
     String::from_utf8(value).map_err(|err| {
         DekuError::Parse(Cow::Owned(
-- 
2.43.0


From d33d26667b3fce214add4252293cc5855c381707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:27 +0000
Subject: [PATCH 15/21] fix: refuse to encode more channel statuses than their
 count can hold

---
 dash7/src/file/phy_status.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dash7/src/file/phy_status.rs b/dash7/src/file/phy_status.rs
index 1609071..fd473ea 100644
--- a/dash7/src/file/phy_status.rs
+++ b/dash7/src/file/phy_status.rs
@@ -16,7 +16,11 @@ pub struct PhyStatus {
     #[deku(update = "self.channel_status.len()")]
     channel_status_list_length: u8,
 
-    #[deku(count = "*channel_status_list_length")]
+    // the list length is a single byte
+    #[deku(
+        count = "*channel_status_list_length",
+        assert = "channel_status.len() <= u8::MAX as usize"
+    )]
     pub channel_status: Vec<ChannelStatus>,
 }
 
-- 
2.43.0


From de295a1c55cf18387829a963c44dcec18fd27b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 16/21] fix: parse the contents of opaque files on the command
 line

---
 dash7-cli/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..cd37019 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
-- 
2.43.0


From 4a7c96987202c9a7fb679ff5af979d96935206a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 17/21] fix: a length of 2^32 or more must not wrap around

---
 dash7/src/app/operation/length.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/length.rs b/dash7/src/app/operation/length.rs
index 29ca822..f8c96a6 100644
--- a/dash7/src/app/operation/length.rs
+++ b/dash7/src/app/operation/length.rs
@@ -33,7 +33,8 @@ impl Into<usize> for Length {
 
 impl From<usize> for Length {
     fn from(value: usize) -> Self {
-        Self(value as u32)
+        // what does not fit in 32 bits is not encodable either: do not let it wrap around
+        Self(u32::try_from(value).unwrap_or(u32::MAX))
     }
 }
 
-- 
2.43.0


From e06725d303ff8dd9cfc57a3e24b2fbd49b786770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:59 +0000
Subject: [PATCH 18/21] fix: refuse to encode strings that do not fit their
 field

---
 dash7/src/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 8cce164..6527dd7 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -1,4 +1,3 @@
-use core::cmp;
 use core::{
     mem::{self, MaybeUninit},
     ptr, slice,
@@ -178,10 +177,15 @@ pub fn write_string<W, const N: usize>(writer: &mut Writer<W>, value: &str) -> R
 where
     W: Write + Seek,
 {
-    let mut bytes = [0u8; N];
+    if value.len() > N {
+        return Err(DekuError::InvalidParam(Cow::Owned(format!(
+            "String {:?} does not fit in {} bytes",
+            value, N
+        ))));
+    }
 
-    let max_index = cmp::min(value.len(), N);
-    bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
+    let mut bytes = [0u8; N];
+    bytes[0..value.len()].clone_from_slice(value.as_bytes());
 
     DekuWriter::to_writer(&bytes.as_slice(), writer, ())
 }
-- 
2.43.0


From 7c4fe4cd59588ca3777bcd084af2a37b65a8a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 19/21] fix: refuse to encode LoRaWAN keys and identifiers of
 the wrong size

---
 dash7/src/app/interface.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index def32e8..83dd0ed 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -49,13 +49,13 @@ pub struct LoRaWANInterfaceConfiguration {
 pub struct LoRaWANOTAAInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "device_eui.len() == 8")]
     pub device_eui: Vec<u8>,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "app_eui.len() == 8")]
     pub app_eui: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_key.len() == 16")]
     pub app_key: Vec<u8>,
 }
 
@@ -63,10 +63,10 @@ pub struct LoRaWANOTAAInterfaceConfiguration {
 pub struct LoRaWANABPInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "network_session_key.len() == 16")]
     pub network_session_key: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_session_key.len() == 16")]
     pub app_session_key: Vec<u8>,
 
     pub device_address: u32,
-- 
2.43.0


From 31f311a5a525f616458f509dddda48f84d5cfec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:52 +0000
Subject: [PATCH 20/21] fix: updating a query keeps its length in step with its
 mask

---
 dash7/src/app/query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index 7f84175..467e51e 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -148,6 +148,8 @@ pub struct ComparisonWithOtherFile {
     mask_present: bool,
     pub params: ArithmeticQueryParams,
 
+    // without a mask, the length is not known from the content
+    #[deku(update = "if self.mask.len() > 0 { self.mask.len().into() } else { self.length }")]
     pub length: Length,
     #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
@@ -180,6 +182,7 @@ pub struct BitmapRangeComparison {
     #[deku(bits = 1, update = "self.mask.len() > 0")]
     mask_present: bool,
     pub params: RangeQueryParams,
+    #[deku(update = "self.mask.len()")]
     pub length: Length,
     // ALP SPEC: In theory, start and stop can be huge array thus impossible to cast into any trivial
     // number. How do we deal with this.
-- 
2.43.0


From 3b2960fd70779115041b365c0938cc0fe90d2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:37 +0000
Subject: [PATCH 21/21] fix: a foreground frame that does not start the stream
 ends its command in the right place

---
 dash7/src/link/frame.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dash7/src/link/frame.rs b/dash7/src/link/frame.rs
index 51d246a..9ed2bf1 100644
--- a/dash7/src/link/frame.rs
+++ b/dash7/src/link/frame.rs
@@ -29,8 +29,21 @@ pub struct ForegroundFrameControl {
     eirp_index: u8,
 }
 
-#[derive(DekuRead, DekuWrite, Default, Debug, Clone, PartialEq)]
+/// Where a frame of some length ends, if its length is known
+fn end(length: Length, start: usize) -> u32 {
+    match Into::<u32>::into(length) {
+        0 => 0,
+        length => length.saturating_add(start.try_into().unwrap_or(u32::MAX)),
+    }
+}
+
+#[deku_derive(DekuRead, DekuWrite)]
+#[derive(Default, Debug, Clone, PartialEq)]
 pub struct ForegroundFrame {
+    // the length is counted from here, wherever that is in the stream
+    #[deku(temp, skip, default = "deku::reader.bits_read / 8")]
+    start: usize,
+
     length: Length,
     subnet: u8,
     control: ForegroundFrameControl,
@@ -38,7 +51,10 @@ pub struct ForegroundFrame {
     #[deku(ctx = "control.address_type")]
     target_address: Address,
 
-    #[deku(ctx = "Into::<u32>::into(*length)")]
+    #[deku(
+        reader = "network::Frame::from_reader_with_ctx(deku::reader, end(*length, *start))",
+        writer = "frame.to_writer(deku::writer, Into::<u32>::into(*length))"
+    )]
     frame: network::Frame,
     crc16: u16,
 }
-- 
2.43.0

