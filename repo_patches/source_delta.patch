From 56a5ebd78c0ed2611b5d39efd51682656bfc84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 01/43] fix: zero-length byte read after end() no longer
 indexes an empty buffer

---
 src/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..2a92124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -529,6 +529,11 @@ impl<R: Read + Seek> Reader<R> {
         byte: u8,
         amt: usize,
     ) -> Result<ReaderRet, DekuError> {
+        if amt == 0 {
+            // Nothing requested, keep the byte for the next read
+            return Ok(ReaderRet::Bytes);
+        }
+
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
@@ -667,6 +672,11 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        if N == 0 {
+            // Nothing requested, keep the byte for the next read
+            return Ok(());
+        }
+
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From e741318f26236efd429fe8fb4941ec658f6d8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/43] fix: skip_bits accounts for a byte buffered by end()
 and for streams not starting at zero

---
 src/reader.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 2a92124..6298aee 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -184,6 +184,11 @@ impl<R: Read + Seek> Reader<R> {
             #[cfg(feature = "logging")]
             log::trace!("skip_bits: {amt}");
 
+            // A byte buffered by `end()` is the next input to skip
+            if let Some(Leftover::Byte(byte)) = self.leftover {
+                self.leftover = Some(Leftover::Bits(BitArray::from([byte]).into()));
+            }
+
             if let Some(Leftover::Bits(bits)) = &self.leftover {
                 let mut buf = bitarr!(u8, Msb0; 0; 8);
                 let needed = core::cmp::min(amt, bits.len());
@@ -196,11 +201,13 @@ impl<R: Read + Seek> Reader<R> {
 
             // first, seek with bytes
             if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+                debug_assert!(self.leftover.is_none());
+                let offset = i64::try_from(bytes_amt)
+                    .map_err(|_| DekuError::Incomplete(NeedSize::new(amt)))?;
+                self.inner
+                    .seek(SeekFrom::Current(offset))
+                    .map_err(|e| DekuError::Io(e.kind()))?;
+                self.bits_read = self.bits_read.saturating_add(bytes_amt * 8);
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From 24127a13f25244d60cd979d2cf996202f342fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/43] fix: relative seek after end() starts from the byte
 end() buffered

---
 src/reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 6298aee..40e0679 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,21 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        // A whole byte in leftover was buffered by `end()` and is not consumed yet, while
+        // `inner` is already past it
+        let unread_byte = match &self.leftover {
+            Some(Leftover::Byte(_)) => true,
+            #[cfg(feature = "bits")]
+            Some(Leftover::Bits(bits)) => bits.len() == 8,
+            None => false,
+        };
+        let pos = match pos {
+            SeekFrom::Current(offset) if unread_byte => {
+                SeekFrom::Current(offset.saturating_sub(1))
+            }
+            pos => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From cb7c8c333c335c4807745ebb600d0159f34aada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 04/43] fix: bits written on a byte boundary do not depend on
 the bit order of earlier writes

---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..be1ec70 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -346,6 +346,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // On a byte boundary there is nothing pending to be combined with
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 76234c985047fdfe518ceeeeb98fe246aeca1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 05/43] fix: bytes written after pending Lsb0 bits continue in
 that order

---
 src/writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index be1ec70..e42a7aa 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -384,7 +384,18 @@ impl<W: Write + Seek> Writer<W> {
 
             // TODO: we could check here and only send the required bits to finish the byte?
             // (instead of sending the entire thing)
-            self.write_bits(BitSlice::from_slice(buf))?;
+            match self.leftover.1 {
+                Order::Msb0 => self.write_bits(BitSlice::from_slice(buf))?,
+                // Continue in the order of the pending bits, one byte after the other
+                Order::Lsb0 => {
+                    for byte in buf {
+                        self.write_bits_order(
+                            BitSlice::from_slice(core::slice::from_ref(byte)),
+                            Order::Lsb0,
+                        )?;
+                    }
+                }
+            }
         } else {
             if let Err(e) = self.inner.write_all(buf) {
                 return Err(DekuError::Io(e.kind()));
-- 
2.43.0


From 72887c48569018f0b41c25d7cc251d56da83d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 06/43] fix: sign-extend integers read with a size in bytes, as
 with the same size in bits

---
 src/impls/primitive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..80252c7 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -653,7 +653,7 @@ macro_rules! ImplDekuReadSignExtend {
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
                     ReaderRet::Bytes => {
-                        if endian.is_le() {
+                        let value = if endian.is_le() {
                             <$typ>::from_le_bytes(buf.try_into().unwrap())
                         } else {
                             if size.0 != core::mem::size_of::<$typ>() {
@@ -662,6 +662,11 @@ macro_rules! ImplDekuReadSignExtend {
                                 buf[..padding].fill(0x00);
                             }
                             <$typ>::from_be_bytes(buf.try_into().unwrap())
+                        };
+                        // Extend the sign of the bytes read, as for a size in bits
+                        match (MAX_TYPE_BYTES - size.0) * 8 {
+                            shift if size.0 != 0 => value << shift >> shift,
+                            _ => value,
                         }
                     }
                     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From 489483ebd6afd651d61360b19ff3fed902b0ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 07/43] fix: u8 honours a size in bytes as the other integers
 do

---
 src/impls/primitive.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 80252c7..9a0be9c 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -51,9 +51,21 @@ impl DekuReader<'_, (Endian, ByteSize, Order)> for u8 {
     #[inline(always)]
     fn from_reader_with_ctx<R: Read + Seek>(
         reader: &mut Reader<R>,
-        (_endian, _size, order): (Endian, ByteSize, Order),
+        (_endian, size, order): (Endian, ByteSize, Order),
     ) -> Result<u8, DekuError> {
         const MAX_TYPE_BYTES: usize = core::mem::size_of::<u8>();
+        if size.0 > MAX_TYPE_BYTES {
+            return Err(deku_error!(
+                DekuError::Parse,
+                "too much data",
+                "container of {} bytes cannot hold {} bytes",
+                MAX_TYPE_BYTES,
+                size.0
+            ));
+        }
+        if size.0 == 0 {
+            return Ok(0);
+        }
         let mut buf = [0; MAX_TYPE_BYTES];
         reader.read_bytes_const_into::<MAX_TYPE_BYTES>(&mut buf, order)?;
         Ok(<u8>::from_be_bytes(buf))
@@ -135,29 +147,28 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
 }
 
 impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian and order, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (endian, size, _): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
-        let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
-        Ok(())
+        <u8>::to_writer(self, writer, (endian, size))
     }
 }
 
 impl DekuWriter<(Endian, ByteSize)> for u8 {
-    /// Ignore endian and byte_size, as this is a `u8`
+    /// Ignore endian, as this is a `u8`
     #[inline(always)]
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _): (Endian, ByteSize),
+        (_, size): (Endian, ByteSize),
     ) -> Result<(), DekuError> {
+        // NOTE: a larger size is accepted, `CString` passes its own length on to its bytes
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes(&input[..size.0.min(input.len())])?;
         Ok(())
     }
 }
-- 
2.43.0


From acc551cc552e6142ac7fef1b15cd1252525e6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 08/43] fix: reading a number of zero bits gives zero instead
 of panicking

---
 src/impls/primitive.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 9a0be9c..dc633a5 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -408,6 +408,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; core::mem::size_of::<$typ>()]));
+                }
                 // Fast path: big-endian, and `Order::default()` is Msb0. Reads the
                 // field straight into an integer, with no `BitSlice` in between.
                 if !endian.is_le() && size.0 > 0 && size.0 <= 64 {
@@ -440,6 +443,9 @@ macro_rules! ImplDekuReadBits {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; core::mem::size_of::<$typ>()]));
+                }
                 // Fast path: big-endian, Msb0. See the `(Endian, BitSize)` impl above.
                 if !endian.is_le() && order == Order::Msb0 && size.0 > 0 && size.0 <= 64 {
                     let value = reader.read_bits_uint_msb0(size.0)? as $inner;
@@ -502,6 +508,9 @@ macro_rules! ImplDekuReadBytes {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; core::mem::size_of::<$typ>()]));
+                }
                 let mut buf = [0; MAX_TYPE_BYTES];
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
@@ -634,6 +643,9 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; core::mem::size_of::<$typ>()]));
+                }
                 let mut bits = ::bitvec::array::BitArray::<[u8; { MAX_TYPE_BITS / 8 }], Msb0>::new(
                     [0; { MAX_TYPE_BITS / 8 }],
                 );
@@ -660,6 +672,9 @@ macro_rules! ImplDekuReadSignExtend {
                         size.0
                     ));
                 }
+                if size.0 == 0 {
+                    return Ok(<$typ>::from_le_bytes([0; core::mem::size_of::<$typ>()]));
+                }
                 let mut buf = [0; MAX_TYPE_BYTES];
                 let ret = reader.read_bytes(size.0, &mut buf, order)?;
                 let a = match ret {
-- 
2.43.0


From bbfa71960e32e96ddb84bbdde7673f435573bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 09/43] fix: negative integers can be written with a bit size
 and a bit order

---
 src/impls/primitive.rs | 47 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index dc633a5..f58cdf8 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -825,8 +825,8 @@ macro_rules! ForwardDekuRead {
     };
 }
 
-macro_rules! ImplDekuWrite {
-    ($typ:ty, $signed_type:ident) => {
+macro_rules! ImplDekuWriteBitsOrder {
+    ($typ:ty) => {
         #[cfg(feature = "bits")]
         impl DekuWriter<(Endian, BitSize, Order)> for $typ {
             #[inline]
@@ -983,6 +983,46 @@ macro_rules! ImplDekuWrite {
             }
         }
 
+    };
+    // Write the two's complement bits as the unsigned integer of the same size
+    ($typ:ty, $inner:ty) => {
+        #[cfg(feature = "bits")]
+        impl DekuWriter<(Endian, BitSize, Order)> for $typ {
+            #[inline]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, BitSize, Order),
+            ) -> Result<(), DekuError> {
+                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+                let bit_size: usize = size.0;
+
+                let mut value = *self as $inner;
+                if bit_size < MAX_TYPE_BITS {
+                    let shift = MAX_TYPE_BITS - bit_size;
+                    let fits = match bit_size {
+                        0 => *self == 0,
+                        _ => (*self << shift >> shift) == *self,
+                    };
+                    if !fits {
+                        return Err(deku_error!(
+                            DekuError::InvalidParam,
+                            "bit size of input is larger than requested size",
+                            "{} does not fit {}",
+                            self,
+                            bit_size
+                        ));
+                    }
+                    value &= !(<$inner>::MAX << bit_size);
+                }
+                <$inner>::to_writer(&value, writer, (endian, size, order))
+            }
+        }
+    };
+}
+
+macro_rules! ImplDekuWrite {
+    ($typ:ty, $signed_type:ident) => {
         ImplDekuWriteDetails!($typ, $signed_type);
 
         impl DekuWriter<(Endian, ByteSize)> for $typ {
@@ -1325,6 +1365,7 @@ macro_rules! ForwardDekuWrite {
 macro_rules! ImplDekuTraitsBytesUnsigned {
     ($typ:ty) => {
         ImplDekuReadBytes!($typ, $typ);
+        ImplDekuWriteBitsOrder!($typ);
         ImplDekuWrite!($typ, Unsigned);
     };
     ($typ:ty, $inner:ty) => {
@@ -1344,6 +1385,7 @@ macro_rules! ImplDekuTraitsUnsigned {
         ImplDekuReadBits!($typ, $inner);
         ForwardDekuRead!($typ);
 
+        ImplDekuWriteBitsOrder!($typ);
         ImplDekuWrite!($typ, Unsigned);
         ImplDekuWriteOnlyEndian!($typ);
         ForwardDekuWrite!($typ);
@@ -1355,6 +1397,7 @@ macro_rules! ImplDekuTraitsSigned {
         ImplDekuReadSignExtend!($typ, $inner);
         ForwardDekuRead!($typ);
 
+        ImplDekuWriteBitsOrder!($typ, $inner);
         ImplDekuWrite!($typ, Signed);
         ImplDekuWriteOnlyEndian!($typ);
         ForwardDekuWrite!($typ);
-- 
2.43.0


From 8f84930c1cdab5ddd504a2176cd63f89a8c08b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 10/43] fix: a negative integer does not fit in zero bits

---
 src/impls/primitive.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index f58cdf8..3099ce2 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -1183,6 +1183,16 @@ macro_rules! ImplDekuWriteDetails {
                     ));
                 }
 
+                // No value but zero fits in no bits
+                if bit_size == 0 && *self != 0 {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than bit requested size",
+                        "{} does not fit 0",
+                        self
+                    ));
+                }
+
                 if matches!(endian, Endian::Little) {
                     // Check if this is a value that will fit inside the required bits, if
                     // not, throw an error
-- 
2.43.0


From 1e4a69838a1597a4da34b381809a00d1bf3776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 11/43] fix: writing a number in zero bits writes nothing
 instead of asserting

---
 src/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index e42a7aa..d526e0c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -73,6 +73,9 @@ impl<W: Write + Seek> Writer<W> {
     #[inline]
     #[cfg(feature = "bits")]
     pub(crate) fn write_bits_uint_msb0(&mut self, value: u64, amt: usize) -> Result<(), DekuError> {
+        if amt == 0 {
+            return Ok(());
+        }
         debug_assert!((1..=64).contains(&amt));
         debug_assert_eq!(self.leftover.1, Order::Msb0);
 
-- 
2.43.0


From dc4dc29d7a31f85ba71a7e3291c5f3062c517078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 12/43] fix: big-endian least-significant-first numbers are
 written in the groups they are read in

---
 src/impls/primitive.rs | 54 +++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 3099ce2..f94211c 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -887,38 +887,32 @@ macro_rules! ImplDekuWriteBitsOrder {
                     }
                     (Endian::Big, Order::Lsb0) => {
                         const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+                        // The bits are read in groups of eight, each of them a byte of the
+                        // big-endian value; what is left over is its last byte
+                        let byte_size = bit_size.div_ceil(8);
+                        let last_bits = bit_size - 8 * byte_size.saturating_sub(1);
+                        let (unused, bytes) = input_bits.split_at(MAX_TYPE_BITS - 8 * byte_size);
+                        let unused_last = match bytes.chunks_exact(8).last() {
+                            Some(last) => &last[..8 - last_bits],
+                            None => bytes,
+                        };
+                        if unused.any() || unused_last.any() {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested size",
+                                "{} exceeds {}",
+                                MAX_TYPE_BITS - input_bits.leading_zeros(),
+                                bit_size
+                            ));
                         }
 
-                        if bit_size <= 8 {
-                            writer.write_bits_order(
-                                &input_bits[input_bits.len() - bit_size..],
-                                order,
-                            )?;
-                        } else {
-                            let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
-                                if chunk.len() > remaining_bits {
-                                    writer.write_bits_order(
-                                        &chunk[chunk.len() - remaining_bits..],
-                                        order,
-                                    )?;
-                                    break;
-                                } else {
-                                    writer.write_bits_order(&chunk, order)?;
-                                }
-                                remaining_bits -= chunk.len();
-                            }
+                        let mut chunks = bytes.chunks_exact(8).peekable();
+                        while let Some(chunk) = chunks.next() {
+                            let used = match chunks.peek() {
+                                Some(_) => chunk,
+                                None => &chunk[8 - last_bits..],
+                            };
+                            writer.write_bits_order(used, order)?;
                         }
                     }
                     (Endian::Big, Order::Msb0) => {
-- 
2.43.0


From ceceb575091a48cd5980487574a64932045f0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 13/43] fix: stream errors while reading whole bytes of a bit
 field are reported

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 40e0679..c5e58b0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -335,6 +335,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -348,6 +349,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From 2856e4a11887d7546317bca4125af34a0236247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 14/43] fix: end() does not invent a byte when the stream fails

---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index c5e58b0..fe880fe 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -177,6 +177,8 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+                // Not at the end, the next read will report the error
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From 967da4a7da86b3631231ba48b3204ba04fdbea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 15/43] fix: skipping or padding past the end of the input is
 incomplete

---
 src/reader.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index fe880fe..8daf2d5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -213,18 +213,20 @@ impl<R: Read + Seek> Reader<R> {
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
 
-            let bytes_amt = amt / 8;
+            let mut bytes_amt = amt / 8;
             let bits_amt = amt % 8;
 
-            // first, seek with bytes
-            if bytes_amt != 0 {
-                debug_assert!(self.leftover.is_none());
-                let offset = i64::try_from(bytes_amt)
-                    .map_err(|_| DekuError::Incomplete(NeedSize::new(amt)))?;
-                self.inner
-                    .seek(SeekFrom::Current(offset))
-                    .map_err(|e| DekuError::Io(e.kind()))?;
-                self.bits_read = self.bits_read.saturating_add(bytes_amt * 8);
+            // first, the whole bytes. These are read instead of seeked over, as a seek would
+            // succeed past the end of the input
+            let mut buf = [0u8; 64];
+            while bytes_amt != 0 {
+                let chunk = core::cmp::min(bytes_amt, buf.len());
+                self.read_bytes(chunk, &mut buf, _order)
+                    .map_err(|e| match e {
+                        DekuError::Incomplete(_) => DekuError::Incomplete(NeedSize::new(8)),
+                        e => e,
+                    })?;
+                bytes_amt -= chunk;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From 1b6c509df06f2fa9e57dfab6f6edcab3818de9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 16/43] fix: reading an exact number of bytes counts pending
 input and works mid-byte and unseekable

---
 src/impls/vec.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..41c9301 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -5,7 +5,7 @@ use no_std_io::io::{Read, Seek, SeekFrom, Write};
 use alloc::vec::Vec;
 
 use crate::error::NeedSize;
-use crate::reader::Reader;
+use crate::reader::{Leftover, Reader};
 use crate::writer::Writer;
 use crate::{ctx::*, DekuReader};
 use crate::{DekuError, DekuWriter};
@@ -25,19 +25,39 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
         let pos = inner
             .stream_position()
             .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
+        let Ok(end) = inner.seek(SeekFrom::End(0)) else {
+            // The end of the stream isn't known, grow with the bytes that are really there
+            let mut bytes = Vec::new();
+            while bytes.len() < exact.0 {
+                let have = bytes.len();
+                let chunk = core::cmp::min(exact.0 - have, core::cmp::max(have, 4096));
+                bytes.resize(have + chunk, 0x00);
+                reader.read_bytes(chunk, &mut bytes[have..], Order::default())?;
+            }
+            return Ok(bytes);
+        };
         inner
             .seek(SeekFrom::Start(pos))
             .map_err(|e| DekuError::Io(e.kind()))?;
 
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
+        let pending_bits = match &reader.leftover {
+            Some(Leftover::Byte(_)) => 8,
+            #[cfg(feature = "bits")]
+            Some(Leftover::Bits(bits)) => bits.len() as u64,
+            None => 0,
+        };
+        let available_bits = end
+            .saturating_sub(pos)
+            .saturating_mul(8)
+            .saturating_add(pending_bits);
+        if available_bits < (exact.0 as u64).saturating_mul(8) {
+            return Err(DekuError::Incomplete(NeedSize::new(
+                exact.0.saturating_mul(8),
+            )));
         }
 
         let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        let _ = reader.read_bytes(exact.0, &mut bytes, Order::default())?;
         Ok(bytes)
     }
 }
-- 
2.43.0


From a051268d16ec4c9162e31b818c6bcc1f0bb87f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 17/43] fix: size, order, context and map attributes of a
 counted Vec<u8> are honoured

---
 deku-derive/src/macros/deku_read.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..ca6f176 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -832,7 +832,15 @@ fn emit_field_read(
                     }
                 }
             }
-            if is_vec_u8 {
+            // Anything which changes how an element is read goes through the element reader
+            let plain_elements = f.bytes.is_none()
+                && f.ctx.is_none()
+                && f.map.is_none()
+                && field_bit_order.is_none();
+            #[cfg(feature = "bits")]
+            let plain_elements = plain_elements && f.bits.is_none();
+
+            if is_vec_u8 && plain_elements {
                 quote! {
                     {
                         use core::borrow::Borrow;
-- 
2.43.0


From 2d1511ef5a1b4499ae10ee5ec5714fefc621d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 18/43] fix: claimed element counts do not preallocate without
 bound

---
 src/impls/hashmap.rs | 10 ++++++++--
 src/impls/hashset.rs | 10 ++++++++--
 src/impls/mod.rs     |  9 +++++++++
 src/impls/vec.rs     |  8 ++++++--
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..5c08b06 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -28,7 +28,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        super::preallocate::<(K, V)>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +56,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashMap::with_capacity_and_hasher(
+        super::preallocate::<(K, V)>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     loop {
         if reader.end() {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..ca24a3e 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -27,7 +27,10 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        super::preallocate::<T>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +54,10 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let mut res = HashSet::with_capacity_and_hasher(
+        super::preallocate::<T>(capacity.unwrap_or(0)),
+        S::default(),
+    );
 
     loop {
         if reader.end() {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..3cae7e4 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,12 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Amount of elements to allocate upfront for a container of `count` elements
+///
+/// The count usually comes from the input, so allocate for it only as far as that stays small
+#[cfg(feature = "alloc")]
+fn preallocate<T>(count: usize) -> usize {
+    const MAX_BYTES: usize = 64 * 1024;
+    core::cmp::min(count, MAX_BYTES / core::mem::size_of::<T>().max(1))
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 41c9301..15ea684 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -85,7 +85,9 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = capacity.map_or_else(Vec::new, |c| {
+        Vec::with_capacity(super::preallocate::<T>(c))
+    });
 
     let start_read = reader.bits_read;
 
@@ -117,7 +119,9 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = capacity.map_or_else(Vec::new, |c| {
+        Vec::with_capacity(super::preallocate::<T>(c))
+    });
     loop {
         if reader.end() {
             break;
-- 
2.43.0


From cdd831786f43137fd1cb3e7854ccc5c102c1328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 19/43] fix: a size limit in bytes that overflows in bits is
 never reached instead of wrapping

---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 5c08b06..37e7edf 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -161,7 +161,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index ca24a3e..212601c 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -146,7 +146,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 15ea684..91f1ded 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -182,7 +182,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From 106143b1238bd51c5f0f9e430a85917a2f77ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 20/43] fix: the stored id of an id_pat variant is written as
 it is read

---
 deku-derive/src/macros/deku_write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..f182708 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -327,7 +327,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // a supplied `id` is not stored in the first field
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
@@ -616,7 +617,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 56afffab0f0fca3e21fd821ca1728f5fc51f0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 21/43] fix: padding in bytes does not overflow the type of its
 expression

---
 deku-derive/src/macros/deku_read.rs  | 10 +++++---
 deku-derive/src/macros/deku_write.rs | 10 +++++---
 deku-derive/src/macros/mod.rs        | 37 +++++++++++++++++++++++++---
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index ca6f176..ac5cb2b 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -601,14 +601,18 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    amount: &TokenStream,
+    bit_size: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(bit_order) = bit_order {
         let order = gen_bit_order_from_str(bit_order).unwrap();
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
+                let __deku_pad = (#amount).ok_or_else(||
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#bit_size))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, #order)?;
@@ -618,7 +622,7 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
+                let __deku_pad = (#amount).ok_or_else(||
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, ::#crate_::ctx::Order::default())?;
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index f182708..60b38cd 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -543,7 +543,11 @@ fn emit_bit_byte_offsets(
 }
 
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    amount: &TokenStream,
+    bit_size: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     const PAD: usize = crate::PAD_ARRAY_SIZE * 8;
     if let Some(bit_order) = bit_order {
@@ -551,7 +555,7 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
+                let mut __deku_pad = (#amount).ok_or_else(||
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
@@ -566,7 +570,7 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
+                let mut __deku_pad = (#amount).ok_or_else(||
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..16a7ac4 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -377,19 +377,48 @@ fn token_contains_string(tok: &Option<TokenStream>, s: &str) -> bool {
         .unwrap_or(false)
 }
 
+/// Emit padding of `Option<usize>` bits, which is `None` if the amount is not a valid one
+#[cfg(feature = "bits")]
+type EmitPadding =
+    fn(amount: &TokenStream, bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream;
+
 #[cfg(feature = "bits")]
 fn pad_bits(
     bits: Option<&TokenStream>,
     bytes: Option<&TokenStream>,
     bit_order: Option<&LitStr>,
-    emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
+    emit_padding: EmitPadding,
 ) -> TokenStream {
+    // the amount in bits may not fit in the type of the expressions
+    let to_wide = |v: &TokenStream| quote! { i128::try_from(#v).ok() };
+    let to_amount = quote! { and_then(|__deku_pad| usize::try_from(__deku_pad).ok()) };
     match (bits, bytes) {
         (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
+            let (wide_bits, wide_bytes) = (to_wide(pad_bits), to_wide(pad_bytes));
+            emit_padding(
+                &quote! {
+                    #wide_bits
+                        .zip(#wide_bytes.and_then(|__deku_pad| __deku_pad.checked_mul(8)))
+                        .and_then(|(__deku_bits, __deku_bytes)| __deku_bits.checked_add(__deku_bytes))
+                        .#to_amount
+                },
+                &quote! { (#pad_bits) + ((#pad_bytes) * 8) },
+                bit_order,
+            )
+        }
+        (Some(pad_bits), None) => emit_padding(
+            &quote! { usize::try_from(#pad_bits).ok() },
+            pad_bits,
+            bit_order,
+        ),
+        (None, Some(pad_bytes)) => {
+            let wide_bytes = to_wide(pad_bytes);
+            emit_padding(
+                &quote! { #wide_bytes.and_then(|__deku_pad| __deku_pad.checked_mul(8)).#to_amount },
+                &quote! {((#pad_bytes) * 8)},
+                bit_order,
+            )
         }
-        (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From 28d8702117ad2574d7799645577b8aff9eda2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 22/43] fix: a seek to an amount that is out of range is an
 error instead of a panic

---
 deku-derive/src/macros/deku_read.rs  | 12 ++++++------
 deku-derive/src/macros/deku_write.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index ac5cb2b..f2bc320 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,7 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -59,7 +59,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -70,7 +70,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -689,7 +689,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -699,7 +699,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -709,7 +709,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 60b38cd..f8a6b18 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,7 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -49,7 +49,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
+                let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -60,7 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
+                let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -658,7 +658,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -668,7 +668,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -678,7 +678,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From c13b159a63a3cb9c25633afc541ce4001dc5d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 23/43] fix: offsets on write include the bits of an incomplete
 byte

---
 deku-derive/src/macros/deku_write.rs |  4 ++--
 src/writer.rs                        | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index f8a6b18..9f06d39 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -521,7 +521,7 @@ fn emit_bit_byte_offsets(
         .any(|v| token_contains_string(v, "__deku_byte_offset"))
     {
         Some(quote! {
-            let __deku_byte_offset = __deku_writer.bits_written / 8;
+            let __deku_byte_offset = __deku_writer.bit_offset() / 8;
         })
     } else {
         None
@@ -533,7 +533,7 @@ fn emit_bit_byte_offsets(
         || byte_offset.is_some()
     {
         Some(quote! {
-            let __deku_bit_offset = __deku_writer.bits_written;
+            let __deku_bit_offset = __deku_writer.bit_offset();
         })
     } else {
         None
diff --git a/src/writer.rs b/src/writer.rs
index d526e0c..c6a23d4 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -55,6 +55,16 @@ impl<W: Write + Seek> Writer<W> {
         }
     }
 
+    /// Bits written so far, including those that do not make up a byte yet
+    #[inline]
+    pub fn bit_offset(&self) -> usize {
+        #[cfg(feature = "bits")]
+        return self.bits_written + self.leftover.0.len();
+
+        #[cfg(not(feature = "bits"))]
+        return self.bits_written;
+    }
+
     /// Return the unused bits
     #[inline]
     #[cfg(all(feature = "bits", feature = "alloc"))]
-- 
2.43.0


From ca955d884c68a0dddbfeabe90011e2fccb2b9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 24/43] fix: enum variants left without fields by temporary
 fields compile

---
 deku-derive/src/macros/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 16a7ac4..4e6977a 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -35,7 +35,7 @@ fn get_crate_name() -> Ident {
 
 /// Generate enum initialization TokenStream
 /// Cases:
-/// - No fields: `MyEnum`
+/// - No fields: `MyEnum {}`
 /// - Named: `MyEnum { field_idents }`
 /// - Unnamed:  `MyEnum ( field_idents )`
 fn gen_enum_init<V: ToTokens, I: ToTokens>(
@@ -45,7 +45,8 @@ fn gen_enum_init<V: ToTokens, I: ToTokens>(
 ) -> TokenStream {
     let mut field_idents = field_idents.peekable();
     if field_idents.peek().is_none() {
-        return quote! { #enum_variant };
+        // valid for unit variants and for variants whose fields are all temporary
+        return quote! { #enum_variant {} };
     }
 
     if is_named {
-- 
2.43.0


From 1559ea0f1164e46128502b48fea0f087035a7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 25/43] fix: writing no bits keeps the order of pending bits

---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index c6a23d4..89cb7f4 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -359,6 +359,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // Nothing to write, pending bits keep their order
+        if bits.is_empty() {
+            return Ok(());
+        }
+
         // On a byte boundary there is nothing pending to be combined with
         if self.leftover.0.is_empty() {
             self.leftover.1 = order;
-- 
2.43.0


From 2059bb6f5391835c968fdb865bbd340d37858489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 26/43] fix: updated fields after a temporary field of a tuple
 struct are found

---
 deku-derive/src/macros/deku_write.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 9f06d39..f183218 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -486,7 +486,14 @@ fn emit_field_updates(
     fields
         .iter()
         .enumerate()
-        .filter_map(|(i, f)| emit_field_update(i, f, &object_prefix))
+        .filter_map(|(i, f)| {
+            // Temporary fields are removed from the struct, shifting the index of those after them
+            let removed = match object_prefix {
+                Some(_) => fields.iter().take(i).filter(|f| f.temp).count(),
+                None => 0,
+            };
+            emit_field_update(i - removed, f, &object_prefix)
+        })
         .collect()
 }
 
-- 
2.43.0


From 5d3fdee000baf1db4e1aaed89d844940a7aaf56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 27/43] fix: the static size of an array or tuple counts its
 size attribute for every element

---
 deku-derive/src/macros/deku_size.rs | 42 ++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..3ac39eb 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -60,20 +60,18 @@ fn calculate_fields_size<'a>(
 
         let field_type = &f.ty;
         #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
-        } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
-        } else {
-            components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
-        }
-
+        let given = match (&f.bits, &f.bytes) {
+            (Some(bits), _) => Some(quote! { (#bits) }),
+            (None, Some(bytes)) => Some(quote! { ((#bytes) * 8) }),
+            (None, None) => None,
+        };
         #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
-        } else {
-            components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
-        }
+        let given = f.bytes.as_ref().map(|bytes| quote! { ((#bytes) * 8) });
+
+        components.push(match given {
+            Some(given) => calculate_given_size(field_type, &given),
+            None => quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS },
+        });
 
         #[cfg(feature = "bits")]
         {
@@ -100,6 +98,24 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Calculate the size of a type of which every element is read and written with the given size
+fn calculate_given_size(ty: &syn::Type, given: &TokenStream) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let elem = calculate_given_size(&array.elem, given);
+            let len = &array.len;
+            quote! { ((#elem) * (#len)) }
+        }
+        syn::Type::Tuple(tuple) => {
+            let elems = tuple.elems.iter().map(|e| calculate_given_size(e, given));
+            quote! { (0 #(+ #elems)*) }
+        }
+        syn::Type::Paren(paren) => calculate_given_size(&paren.elem, given),
+        syn::Type::Group(group) => calculate_given_size(&group.elem, given),
+        _ => given.clone(),
+    }
+}
+
 /// Check if struct/enum has seek attributes
 fn has_seek_attributes(input: &DekuData) -> bool {
     input.seek_rewind
-- 
2.43.0


From bf48d9f65549705fbf24a78fc4bae0eaddc6763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 28/43] fix: a field that is always skipped adds nothing to the
 static size

---
 deku-derive/src/macros/deku_size.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index 3ac39eb..d7f33be 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::spanned::Spanned;
 
-use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData};
+use crate::{DekuData, DekuDataEnum, DekuDataStruct, FieldData, SkipMode};
 
 pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error> {
     // NOTE: This is overkill, but keeps the same validating requirements of DekuRead. This ensures
@@ -68,10 +68,12 @@ fn calculate_fields_size<'a>(
         #[cfg(not(feature = "bits"))]
         let given = f.bytes.as_ref().map(|bytes| quote! { ((#bytes) * 8) });
 
-        components.push(match given {
-            Some(given) => calculate_given_size(field_type, &given),
-            None => quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS },
-        });
+        if !never_encoded(f) {
+            components.push(match given {
+                Some(given) => calculate_given_size(field_type, &given),
+                None => quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS },
+            });
+        }
 
         #[cfg(feature = "bits")]
         {
@@ -98,6 +100,11 @@ fn calculate_fields_size<'a>(
     quote! { 0 #(+ (#field_components))* }
 }
 
+/// Check if the value of a field is neither read nor written
+fn never_encoded(field: &FieldData) -> bool {
+    field.skip == Some(SkipMode::All) && field.cond.is_none()
+}
+
 /// Calculate the size of a type of which every element is read and written with the given size
 fn calculate_given_size(ty: &syn::Type, given: &TokenStream) -> TokenStream {
     match ty {
@@ -178,11 +185,11 @@ fn add_field_bounds<'a>(
         if !field.temp {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
-            let needs_bound = field.bits.is_none() && field.bytes.is_none();
+            let has_size = field.bits.is_some() || field.bytes.is_some();
             #[cfg(not(feature = "bits"))]
-            let needs_bound = field.bytes.is_none();
+            let has_size = field.bytes.is_some();
 
-            if needs_bound {
+            if !has_size && !never_encoded(field) {
                 let where_clause = where_clause.get_or_insert_with(|| syn::parse_quote! { where });
                 where_clause.predicates.push(syn::parse_quote! {
                     #field_type: ::#crate_::DekuSize
-- 
2.43.0


From 70f21e30b08a96764a6c826104b63b5b11083563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 29/43] fix: a temporary field that is written counts towards
 the static size

---
 deku-derive/src/macros/deku_size.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index d7f33be..8129e1b 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -32,7 +32,8 @@ fn calculate_fields_size<'a>(
             return None;
         }
 
-        if f.temp {
+        // Without a value a temporary field is not written
+        if f.temp && f.temp_value.is_none() {
             return None;
         }
 
@@ -182,7 +183,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !field.temp || field.temp_value.is_some() {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let has_size = field.bits.is_some() || field.bytes.is_some();
-- 
2.43.0


From 508bdc8138865337e91ce0604463d2e03d2b3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 30/43] fix: DekuSize derived beside deku_derive sees the
 attributes of the type

---
 deku-derive/src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index a45b315..26a0dc9 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -1319,6 +1319,29 @@ fn is_not_deku(attr: &syn::Attribute) -> bool {
         .unwrap_or(true)
 }
 
+/// Remove `DekuSize` from the derives of an item, returning whether it was there
+fn take_deku_size(attrs: &mut [syn::Attribute]) -> bool {
+    let mut found = false;
+    for attr in attrs {
+        if !attr.path().is_ident("derive") {
+            continue;
+        }
+        let Ok(derives) = attr.parse_args_with(
+            syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated,
+        ) else {
+            continue;
+        };
+        let is_size =
+            |path: &syn::Path| path.segments.last().is_some_and(|s| s.ident == "DekuSize");
+        if derives.iter().any(is_size) {
+            found = true;
+            let rest = derives.iter().filter(|path| !is_size(path));
+            *attr = syn::parse_quote!(#[derive(#(#rest),*)]);
+        }
+    }
+    found
+}
+
 fn is_temp(field: &syn::Field) -> bool {
     DekuFieldReceiver::from_field(field)
         .map(|attrs| attrs.temp)
@@ -1418,6 +1441,13 @@ pub fn deku_derive(
         TokenStream::new()
     };
 
+    // Generate `DekuSize` impl, which would no longer see the attributes removed below
+    let size_impl = if take_deku_size(&mut input.attrs) {
+        data.emit_size()
+    } else {
+        TokenStream::new()
+    };
+
     // Remove attributes
     match input.data {
         syn::Data::Struct(ref mut input_struct) => {
@@ -1440,6 +1470,8 @@ pub fn deku_derive(
 
         #write_impl
 
+        #size_impl
+
         #input
     )
     .into()
-- 
2.43.0


From ccdb9196f4c2012da336c0597fa0b6462eb6ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 31/43] fix: a seek on a NoSeek stream is an error without std
 too

---
 src/noseek.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/noseek.rs b/src/noseek.rs
index 84e222f..16831f1 100644
--- a/src/noseek.rs
+++ b/src/noseek.rs
@@ -47,7 +47,10 @@ impl<T> Seek for NoSeek<T> {
             #[cfg(feature = "std")]
             _ => Err(std::io::Error::other("seek on unseekable file")),
             #[cfg(not(feature = "std"))]
-            _ => panic!("seek on unseekable file"),
+            _ => Err(crate::no_std_io::Error::new(
+                crate::no_std_io::ErrorKind::Other,
+                "seek on unseekable file",
+            )),
         }
     }
 
-- 
2.43.0


From 924a3b56bbaf2852922569972d0cf3d50d5c1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 32/43] fix: enums can be written to a slice without alloc too

---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index f183218..3f8fb01 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -388,7 +388,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0


From 6bc524ef107b1ff890388e470022d235034a7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 33/43] fix: generated readers name the crate under a renamed
 dependency

---
 deku-derive/src/macros/deku_read.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index f2bc320..620c951 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -115,7 +115,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -128,8 +128,8 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_bytes_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_cursor = ::#crate_::no_std_io::Cursor::new(__deku_input.0);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -142,7 +142,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
@@ -404,7 +404,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -417,8 +417,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_bytes_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_cursor = ::#crate_::no_std_io::Cursor::new(__deku_input.0);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -431,7 +431,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
-- 
2.43.0


From a02796613a9be590d6d397928dddea8acd3691d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 34/43] fix: refuse several seeks at the top of a struct, as on
 a field

---
 deku-derive/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index 26a0dc9..c0ec315 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -444,6 +444,20 @@ impl DekuData {
                     return Err(cerror(data.bits.span(), "`bits` only supported on enum"));
                 }
 
+                // Validate usage of seek_*
+                if ret.is_ok()
+                    && (data.seek_from_current.is_some() as u8
+                        + data.seek_from_end.is_some() as u8
+                        + data.seek_from_start.is_some() as u8
+                        + data.seek_rewind as u8)
+                        > 1
+                {
+                    return Err(cerror(
+                        data.ident.span(),
+                        "conflicting: only one `seek` attribute can be used at one time",
+                    ));
+                }
+
                 ret
             }
             ast::Data::Enum(_) => {
-- 
2.43.0


From ab2246a2953f8ea4b52a0e04390775941330874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 35/43] fix: refuse until with another limit, and read_all's
 conflicts without bits too

---
 deku-derive/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/lib.rs b/deku-derive/src/lib.rs
index c0ec315..089292e 100644
--- a/deku-derive/src/lib.rs
+++ b/deku-derive/src/lib.rs
@@ -885,12 +885,25 @@ impl FieldData {
             ));
         }
 
-        // Validate usage of read_all
+        // Validate `until` isn't used with another limit
         #[cfg(feature = "bits")]
+        let bits_read = data.bits_read.is_some();
+        #[cfg(not(feature = "bits"))]
+        let bits_read = false;
+        if data.until.is_some() && (data.count.is_some() || bits_read || data.bytes_read.is_some())
+        {
+            return Err(cerror(
+                data.until.span(),
+                "conflicting: `until` cannot be used with `count`, `bits_read`, or `bytes_read`",
+            ));
+        }
+
+        // Validate usage of read_all
         if data.read_all
             && (data.until.is_some()
                 || data.count.is_some()
-                || (data.bits_read.is_some() || data.bytes_read.is_some()))
+                || bits_read
+                || data.bytes_read.is_some())
         {
             return Err(cerror(
                 data.read_all.span(),
-- 
2.43.0


From 15b3049c0fa605ebd10972bf826dbdd566c726ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 36/43] fix: declarations with type parameters named R or W or
 a lifetime 'a did not compile

---
 deku-derive/src/macros/deku_read.rs  | 10 +++++-----
 deku-derive/src/macros/deku_write.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 620c951..beb2656 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -178,7 +178,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -191,7 +191,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -465,7 +465,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -479,7 +479,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -1037,7 +1037,7 @@ pub fn emit_container_read(
         impl #imp ::#crate_::DekuContainerRead<#lifetime> for #ident #wher {
             #[allow(non_snake_case)]
             #[inline]
-            fn from_reader<'a, R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'a mut R, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
+            fn from_reader<'__deku_input, __DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'__deku_input mut __DekuR, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
                 #from_reader_body
             }
 
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 3f8fb01..2ad4d73 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -170,7 +170,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -184,7 +184,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
@@ -430,7 +430,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -444,7 +444,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
-- 
2.43.0


From 522aa7cfd74a040bbf44c21e0fe08bbfe8fac471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 37/43] fix: DekuRead could not be derived for types with a
 lifetime

---
 deku-derive/src/macros/deku_read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index beb2656..69be9c9 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1067,7 +1067,10 @@ pub fn emit_try_from(
             fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, Self::Error> {
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
-                let (bits_read, res) = <Self as ::#crate_::DekuContainerRead>::from_reader((&mut cursor, 0))?;
+                // not by `DekuContainerRead::from_reader`, which borrows for as long as the value may live
+                let mut reader = ::#crate_::reader::Reader::new(&mut cursor);
+                let res = <Self as ::#crate_::DekuReader<'_, ()>>::from_reader_with_ctx(&mut reader, ())?;
+                let bits_read = reader.bits_read;
                 let bytes_read = bits_read / 8;
                 if bytes_read < total_len {
                     return Err(::#crate_::deku_error!(::#crate_::DekuError::Parse, "Too much data", "Read {} but total length was {}", {bits_read / 8}, total_len));
-- 
2.43.0


From 6b1ff6714cdcfa944f253f5d3d3a8ab561c62013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 38/43] fix: an enum whose supplied id is a raw identifier
 could not be derived

---
 deku-derive/src/macros/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 4e6977a..b63755d 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -214,13 +214,11 @@ fn gen_type_from_ctx_id(
     };
     let mut matching_types = quote! {};
     for s in s {
-        let id = syn::Ident::new(&s.to_string(), id.span());
-
         let types = ctx.iter().find_map(|arg| {
             let mut t = None;
             if let syn::FnArg::Typed(pat_type) = arg {
                 if let syn::Pat::Ident(ident) = &*pat_type.pat {
-                    if id == ident.ident {
+                    if s == ident.ident {
                         let mut pat_type = pat_type.clone();
                         if let syn::Type::Reference(r) = pat_type.ty.as_mut() {
                             r.lifetime = Some(Lifetime::new("'__deku", Span::call_site()));
-- 
2.43.0


From 58570f98a5a0c6314d36bbf5540d5b113387ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 39/43] fix: a skipped temporary field could not be derived,
 its default had no type

---
 deku-derive/src/macros/deku_read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 69be9c9..ff12c00 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1008,7 +1008,7 @@ fn emit_field_read(
         #byte_offset
 
         #trace_field_log
-        let #internal_field_ident = {
+        let #internal_field_ident: #field_type = {
             #field_read_tokens
         };
         let #field_ident = &#internal_field_ident;
-- 
2.43.0


From a8dbb0571e0435e5aeb5f715581c115e4eee022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 40/43] fix: the assertion of a temporary field could not be
 derived for writing

---
 deku-derive/src/macros/deku_write.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 2ad4d73..d435a28 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -721,7 +721,10 @@ fn emit_field_write(
     let field_ident = f.get_ident(i, object_prefix.is_none());
     let field_ident_str = field_ident.to_string();
 
-    let field_assert = f.assert.as_ref().map(|v| {
+    // Without a value a temporary field is not written, there is nothing to be asserted
+    let has_value = !f.temp || f.temp_value.is_some();
+
+    let field_assert = f.assert.as_ref().filter(|_| has_value).map(|v| {
         let return_error = assertion_failed(v, ident, &field_ident_str, None);
         quote! {
             if (!(#v)) {
@@ -732,7 +735,7 @@ fn emit_field_write(
         }
     });
 
-    let field_assert_eq = f.assert_eq.as_ref().map(|v| {
+    let field_assert_eq = f.assert_eq.as_ref().filter(|_| has_value).map(|v| {
         let return_error = assertion_failed(v, ident, &field_ident_str, Some(&field_ident));
         quote! {
             if (!(*(#field_ident) == (#v))) {
@@ -830,7 +833,6 @@ fn emit_field_write(
         | (Some(crate::SkipMode::Write), Some(field_cond)) => {
             // #[deku(skip, cond = "...")] or #[deku(skip(write), cond = "...")] ==> `skip` if `cond`
             quote! {
-                #temp_decl
                 if (#field_cond) {
                     #skipping_log
                    // skipping, no write
@@ -849,7 +851,6 @@ fn emit_field_write(
         (Some(crate::SkipMode::Read), _) | (None, _) => {
             // #[deku(skip(read))] or no skip ==> write normally
             quote! {
-                #temp_decl
                 #field_write_normal
             }
         }
@@ -864,6 +865,7 @@ fn emit_field_write(
         #byte_offset
 
         #trace_field_log
+        #temp_decl
         #field_assert
         #field_assert_eq
 
-- 
2.43.0


From f144a3c662776bbcd54a73b7d5a1a90534a1f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 41/43] fix: the reader of an enum variant did not yield its
 value

---
 deku-derive/src/macros/deku_read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index ff12c00..5a56efe 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -305,7 +305,12 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let variant_has_default = variant.default.unwrap_or(false);
 
         let variant_read_func = if variant_reader.is_some() {
-            quote! { #variant_reader; }
+            quote! {
+                {
+                    let __deku_variant: core::result::Result<Self, ::#crate_::DekuError> = { #variant_reader };
+                    __deku_variant?
+                }
+            }
         } else {
             let (field_idents, field_reads) =
                 emit_field_reads(input, &variant.fields.as_ref(), &ident, pad_id)?;
-- 
2.43.0


From 5ccceb8f38c4b527fea8c52dfe2053c01890b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 42/43] fix: deku_id did not know the variants that have a
 reader

---
 deku-derive/src/macros/deku_read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 5a56efe..a4f7015 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -324,18 +324,6 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let initialize_enum =
                 super::gen_enum_init(variant_is_named, variant_ident, internal_fields);
 
-            if let Some(variant_id) = &variant.id {
-                let deref = match variant_id {
-                    Id::TokenStream(_) => quote! {},
-                    Id::Int(_) => quote! {},
-                    Id::Bool(_) => quote! {},
-                    Id::LitByteStr(_) => quote! {*},
-                };
-
-                let deku_id = quote! { Self :: #initialize_enum => Ok(#deref #variant_id)};
-                deku_ids.push(deku_id);
-            }
-
             quote! {
                 {
                     #(#field_reads)*
@@ -344,6 +332,18 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             }
         };
 
+        if let Some(variant_id) = &variant.id {
+            let deref = match variant_id {
+                Id::TokenStream(_) => quote! {},
+                Id::Int(_) => quote! {},
+                Id::Bool(_) => quote! {},
+                Id::LitByteStr(_) => quote! {*},
+            };
+
+            let deku_id = quote! { Self :: #variant_ident { .. } => Ok(#deref #variant_id)};
+            deku_ids.push(deku_id);
+        }
+
         // register `default`
         if default_reader.is_some() && variant_has_default {
             return Err(syn::Error::new(
-- 
2.43.0


From 41de9306f259e94ca33e8b1c4e97110e415a339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:32 +0000
Subject: [PATCH 43/43] fix: seek attributes compile in crates of the 2018
 edition

---
 deku-derive/src/macros/deku_read.rs  | 6 ++++++
 deku-derive/src/macros/deku_write.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index a4f7015..0a6e8c5 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,6 +48,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -59,6 +60,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -70,6 +72,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -694,6 +697,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -704,6 +708,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -714,6 +719,7 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index d435a28..667d557 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,6 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -49,6 +50,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -60,6 +62,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let seek_amt = u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
@@ -667,6 +670,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -677,6 +681,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
@@ -687,6 +692,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).map_err(|_| ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num)))?)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
-- 
2.43.0

