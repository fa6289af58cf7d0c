From 055be69dde54923d394f179c29d110d510fe8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 01/64] fix: only the exact octets 00 00 terminate an
 indefinite-length object

---
 src/ber/appendable.rs |  8 ++++----
 src/ber/parser.rs     | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..43feace 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -1,10 +1,9 @@
 use nom::{Err, IResult, Input as _};
 
-use crate::{
-    Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input, Tag,
-};
+use crate::{Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input};
 
 use super::ber_get_content;
+use super::parser::is_end_of_content;
 
 pub trait Appendable {
     fn append(&mut self, other: &mut Self);
@@ -42,7 +41,8 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            // End-Of-Content is only a terminator if length is indefinite (else, not a valid segment)
+            if !header.length.is_definite() && is_end_of_content(&obj.header) {
                 break;
             }
             let Any {
diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..71b317a 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -82,6 +82,18 @@ pub fn der_get_content<'i>(
     DerMode::get_object_content(header, input, MAX_RECURSION)
 }
 
+/// Return true if header is the End-Of-Contents marker
+///
+/// The marker is exactly the two octets `00 00` (X.690: 8.1.5): an empty object of another class,
+/// a constructed object, or a different encoding of tag or length is not an End-Of-Contents
+pub(super) fn is_end_of_content(hdr: &Header) -> bool {
+    hdr.length == Length::Definite(0)
+        && hdr.tag == Tag::EndOfContent
+        && hdr.is_universal()
+        && hdr.is_primitive()
+        && hdr.raw_header().map_or(true, |raw| raw.len() == 2)
+}
+
 /// Skip object content, and return true if object was End-Of-Content
 fn ber_skip_object_content<'a>(
     i: Input<'a>,
@@ -93,7 +105,7 @@ fn ber_skip_object_content<'a>(
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
+            if is_end_of_content(hdr) {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From 05d3c8ff63246fa605e0ef2461f9d1c9ba105faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 02/64] fix: reject long-form tag numbers that overflow u32

---
 src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..1ae4050 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -522,6 +522,11 @@ pub(crate) fn parse_header(
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
+            // reject tag numbers that do not fit in u32
+            if c > u32::MAX >> 7 {
+                return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+            }
+
             c = (c << 7) | (u32::from(b) & 0x7f);
             let done = b & 0x80 == 0;
             tag_byte_count += 1;
-- 
2.43.0


From a9bd444a69766fbf5715385f33a3d2a438f7111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 03/64] fix: ber_length_length returns 5 for lengths using 4
 length octets

---
 src/to_ber.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..ef51fe0 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -174,7 +174,8 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
             0..=0x7f => Ok(1),
             0x80..=0xff => Ok(2),
             0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
+            0x1_0000..=0xff_ffff => Ok(4),
+            0x100_0000..=0xffff_ffff => Ok(5),
             _ => Err(InnerError::InvalidLength),
         },
     }
-- 
2.43.0


From dcafc82655ba21d1a860cd9d3d48d3b2d274c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 04/64] fix: reject INTEGER and ENUMERATED with empty content
 when decoding to primitive types

---
 src/asn1_types/integer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..179aa36 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -41,6 +41,10 @@ fn trim_slice(bytes: &[u8]) -> &[u8] {
 /// Decode an unsigned integer into a byte array of the requested size
 /// containing a big endian integer.
 fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if is_highest_bit_set(bytes) {
         return Err(Error::IntegerNegative);
     }
-- 
2.43.0


From 44abbb14b75024f0902fc41ff1c7d7dad4409b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 05/64] fix: accept non-minimal BER encoding of negative
 integers (as for positive)

---
 src/asn1_types/integer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index 179aa36..4029262 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -65,14 +65,16 @@ fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
-    if bytes.len() > N {
+    let input = trim_slice(bytes);
+
+    if input.len() > N {
         return Err(Error::IntegerTooLarge);
     }
 
     // any.tag().assert_eq(Tag::Integer)?;
     let mut output = [0xFFu8; N];
-    let offset = N.saturating_sub(bytes.len());
-    output[offset..].copy_from_slice(bytes);
+    let offset = N.saturating_sub(input.len());
+    output[offset..].copy_from_slice(input);
     Ok(output)
 }
 
-- 
2.43.0


From d7a1e6567dab59671a0daecddebb4e58643700ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 06/64] fix: do not panic when checking DER constraints of a
 BOOLEAN with empty content

---
 src/asn1_types/boolean.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..382787e 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,7 +74,7 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = *any.data.as_bytes().first().ok_or(Error::InvalidLength)?;
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
@@ -135,7 +135,7 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
+        let c = *any.data.as_bytes().first().ok_or(Error::InvalidLength)?;
         // X.690 section 11.1
         if !(c == 0 || c == 0xff) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
-- 
2.43.0


From 28c046b6c27a7cd0af182ddfdc751a8110647315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 07/64] fix: parsing a RELATIVE-OID object returns a relative
 Oid

---
 src/asn1_types/oid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..1725faa 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -59,7 +59,11 @@ impl<'i> BerParser<'i> for Oid<'i> {
         }
 
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        if header.is_universal() && header.tag == Tag::RelativeOid {
+            return Ok((rem, Oid::new_relative(asn1)));
+        }
+        Ok((rem, Oid::new(asn1)))
     }
 }
 
-- 
2.43.0


From 1f5eb87b1f2e2861a2b5261302349aa04d78e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 08/64] fix: reject OID if last sub-identifier is truncated

---
 src/asn1_types/oid.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 1725faa..e73a2c7 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -54,9 +54,8 @@ impl<'i> BerParser<'i> for Oid<'i> {
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
         // Each sub-identifier is represented as a series of (one or more) octets (X.690: 8.19.2)
-        if input.is_empty() {
-            return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-        }
+        check_subidentifiers(input.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&input, e))?;
 
         let (rem, data) = input.take_split(input.len());
         let asn1 = Cow::Borrowed(data.as_bytes2());
@@ -127,6 +126,14 @@ const _: () = {
     impl_toder_from_tober!(LFT 'a, Oid<'a>);
 };
 
+/// Check that content has at least one sub-identifier, and that the last one is complete
+fn check_subidentifiers(bytes: &[u8]) -> core::result::Result<(), InnerError> {
+    match bytes.last() {
+        Some(b) if b & 0x80 == 0 => Ok(()),
+        _ => Err(InnerError::InvalidLength),
+    }
+}
+
 fn encode_relative(ids: &'_ [u64]) -> impl Iterator<Item = u8> + '_ {
     ids.iter().flat_map(|id| {
         let bit_count = 64 - id.leading_zeros();
@@ -306,6 +313,7 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_ber(bytes)?;
         any.header.assert_primitive()?;
         any.header.assert_tag(Tag::RelativeOid)?;
+        check_subidentifiers(any.data.as_bytes2()).map_err(Error::from)?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
@@ -314,6 +322,7 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_der(bytes)?;
         any.header.assert_tag(Tag::RelativeOid)?;
         Self::check_constraints(&any)?;
+        check_subidentifiers(any.data.as_bytes2()).map_err(Error::from)?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
-- 
2.43.0


From a3c136cca263ef891e3c47993dde41f60a16dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 09/64] fix: Oid::from does not truncate first components
 silently

---
 src/asn1_types/oid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index e73a2c7..234bdba 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -176,7 +176,7 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        if s[0] >= 7 || s[1] >= 40 || s[0] * 40 + s[1] > u64::from(u8::MAX) {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
         let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-- 
2.43.0


From 88a15fb78f42e57e2d47b4342c1c253f37722bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 10/64] fix: Oid::iter returns arcs using all the 64 bits of a
 u64

---
 src/asn1_types/oid.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 234bdba..361b099 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -286,20 +286,17 @@ impl<'a> Oid<'a> {
         } else {
             &self.asn1[1..]
         };
-        let max_bits = bytes
-            .iter()
-            .fold((0usize, 0usize), |(max, cur), c| {
-                let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
-                } else {
-                    (max, cur + 7)
-                }
+        bytes.iter().try_fold(0u64, |cur, c| {
+            if cur > u64::MAX >> 7 {
+                return None;
+            }
+            let is_end = (c >> 7) == 0u8;
+            Some(if is_end {
+                0
+            } else {
+                (cur << 7) | u64::from(c & 0x7f)
             })
-            .0;
-        if max_bits > 64 {
-            return None;
-        }
+        })?;
 
         Some(SubIdentifierIterator {
             oid: self,
-- 
2.43.0


From 99964c01588e8e4803bea0b3777d0ce6266ad306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 11/64] fix: exact size_hint/len for OID arcs iterator

---
 src/asn1_types/oid.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 361b099..7f2cfdc 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -374,30 +374,27 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
         }
         Some(res)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let asn1 = self.oid.asn1.as_ref();
+        // number of arcs not yet returned from the first byte (if not relative), and following bytes
+        let (first, bytes) = match (self.oid.relative, self.pos, asn1) {
+            (true, pos, _) => (0, &asn1[pos..]),
+            (false, 0, []) => (0, asn1),
+            (false, 0, [0]) => (usize::from(!self.first), &asn1[1..]),
+            (false, 0, [_, rest @ ..]) => (if self.first { 1 } else { 2 }, rest),
+            (false, pos, _) => (0, &asn1[pos..]),
+        };
+        let complete = bytes.iter().filter(|b| (*b >> 7) == 0u8).count();
+        let partial = usize::from(bytes.last().map_or(false, |b| (b >> 7) != 0u8));
+        let len = first + complete + partial;
+        (len, Some(len))
+    }
 }
 
 impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
 
-impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
-    fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
-            0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
-        } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
-        }
-    }
-}
+impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {}
 
 impl fmt::Display for Oid<'_> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From d22499d7e8a183aa90d463a4ffdb1cab5fbf77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 12/64] fix: int! encodes 0 as one octet, and positive values
 with highest bit unset

---
 impl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..3b89908 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -114,7 +114,11 @@ fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
     let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    let mut v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    // integer has at least one octet, and a positive value has highest bit unset
+    if v.first().map_or(true, |&b| *b >= 0x80) {
+        v.insert(0, &0);
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
-- 
2.43.0


From cc43f228faeb13aa2a051b7f27d1502e415cce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 13/64] fix: accept empty constructed strings and empty
 BmpString/UniversalString

---
 src/ber/appendable.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 43feace..2e9f678 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -27,10 +27,6 @@ where
         return Err(BerError::nom_err_input(&input, InnerError::BerMaxDepth));
     }
 
-    if input.is_empty() {
-        return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-    }
-
     if header.constructed() {
         let (rem, data) = if header.length.is_definite() {
             ber_get_content(header, input)?
@@ -52,11 +48,10 @@ where
             if !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
-            // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
-            if !data2.is_empty() {
-                let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
-                v.append(&mut part_v);
-            }
+            // Note: whether an empty segment is allowed (for ex: OctetStrings) or not (BitString)
+            // depends on T
+            let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
+            v.append(&mut part_v);
         }
         Ok((rem, v))
     } else {
-- 
2.43.0


From 52b5a36ff67dfdbf293158515350918c4da44737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 14/64] fix: check that unused bits are zero in BitString DER
 parser

---
 src/asn1_types/bitstring.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..2e7e55b 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -136,6 +136,16 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Check that padding bits are all 0 (X.690 section 11.2.1)
+        if let [unused_bits, .., last_byte] = input.as_bytes2() {
+            if last_byte.trailing_zeros() < u32::from(*unused_bits) {
+                return Err(BerError::nom_err_input(
+                    &input,
+                    InnerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero),
+                ));
+            }
+        }
+
         <BitString>::from_ber_content(header, input)
     }
 }
-- 
2.43.0


From 254ec405b3e9dc0dfbe42a20dda923921d8f7b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 15/64] fix: BitString raw data is aligned, and unused bits are
 zero

---
 src/asn1_types/bitstring.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 2e7e55b..635b315 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -28,6 +28,8 @@ impl BitString {
         let mut bitvec = BitVec::from_slice(s);
         assert!(unused_bits < 8 && unused_bits < bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
+        // unused bits must be zero when encoding
+        bitvec.set_uninitialized(false);
 
         BitString { bitvec }
     }
@@ -78,7 +80,10 @@ impl_tryfrom_any!(BitString);
 
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
-        let bitvec = BitVec::from_bitslice(slice);
+        let mut bitvec = BitVec::from_bitslice(slice);
+        // slice can start (or end) anywhere in a byte
+        bitvec.force_align();
+        bitvec.set_uninitialized(false);
         Self { bitvec }
     }
 }
@@ -112,6 +117,8 @@ impl<'i> BerParser<'i> for BitString {
                         .checked_sub(usize::from(ignored))
                         .ok_or(BerError::nom_err_input(&data, InnerError::InvalidLength))?;
                     bitvec.truncate(new_len);
+                    // unused bits must be zero when encoding
+                    bitvec.set_uninitialized(false);
                     Ok((rem, Self { bitvec }))
                 }
                 _ => Err(BerError::nom_err_input(
-- 
2.43.0


From f78091feccc3e425058f11cdf4bf452e779b3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 16/64] fix: handle primitive and constructed forms of
 BmpString and UniversalString

---
 src/asn1_types/strings/bmpstring.rs       | 2 +-
 src/asn1_types/strings/universalstring.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..7b7b76f 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..ce40d2c 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if !header.is_constructed() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
-- 
2.43.0


From 36e9427719f07e96ca9e01a662108966f4c2d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 17/64] fix: reject BmpString with an odd number of bytes

---
 src/asn1_types/strings/bmpstring.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index 7b7b76f..3c387b3 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -70,13 +70,19 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
             .chunks(2)
             .map(|s| match s {
                 [a, b] => ((*a as u16) << 8) | (*b as u16),
-                [a] => *a as u16,
                 _ => unreachable!(),
             })
             .collect::<Vec<_>>();
-- 
2.43.0


From ad941a3243ad0f0fe09a19d9165f838200fbad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 18/64] fix: UniversalString content length is 4 bytes per
 character

---
 src/asn1_types/strings/universalstring.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index ce40d2c..88d7280 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -137,7 +137,7 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
@@ -145,7 +145,7 @@ const _: () = {
             self.data
                 .chars()
                 .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            Ok(self.data.chars().count() * 4)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From 93f8b6d8ae1ab9e4f5f8a16ccf5a64e485baf9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 19/64] fix: accept times without seconds and with a time
 differential

---
 src/asn1_types/generalizedtime.rs | 2 ++
 src/asn1_types/utctime.rs         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..e62971b 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -45,6 +45,8 @@ impl GeneralizedTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, only time differential
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..ab62e42 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,6 +41,8 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
+            // no seconds, only time differential
+            [b'+' | b'-', ..] => (0, rem),
             [sec1, sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
-- 
2.43.0


From 54ebf508deb60acedf2041d14086c92063040736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 20/64] fix: reject month and day 0 in UtcTime and
 GeneralizedTime

---
 src/asn1_types/generalizedtime.rs | 7 ++++++-
 src/asn1_types/oid.rs             | 3 +--
 src/asn1_types/utctime.rs         | 7 ++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index e62971b..80ce20e 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -53,7 +53,12 @@ impl GeneralizedTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 7f2cfdc..e4637a4 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -54,8 +54,7 @@ impl<'i> BerParser<'i> for Oid<'i> {
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
         // Each sub-identifier is represented as a series of (one or more) octets (X.690: 8.19.2)
-        check_subidentifiers(input.as_bytes2())
-            .map_err(|e| BerError::nom_err_input(&input, e))?;
+        check_subidentifiers(input.as_bytes2()).map_err(|e| BerError::nom_err_input(&input, e))?;
 
         let (rem, data) = input.take_split(input.len());
         let asn1 = Cow::Borrowed(data.as_bytes2());
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index ab62e42..298ed81 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -49,7 +49,12 @@ impl UtcTime {
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
-- 
2.43.0


From 654cb4b746787bfc5515fba4c7710a07cf19af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 21/64] fix: fractional seconds have 1 to 3 digits in
 GeneralizedTime

---
 src/asn1_types/generalizedtime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 80ce20e..fb098fd 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -103,11 +103,11 @@ impl GeneralizedTime {
                         );
                     }
                     match rem[0] {
-                        b'0'..=b'9' => {
-                            // cannot overflow, max 4 digits will be read
+                        b'0'..=b'9' if idx < 3 => {
+                            // cannot overflow, max 3 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
-                        b'Z' | b'+' | b'-' => {
+                        b'Z' | b'+' | b'-' if idx > 0 => {
                             digits = idx;
                             break;
                         }
-- 
2.43.0


From 30ab9970cf1f3b3b4b97ff3cd5588dbe658bebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 22/64] fix: keep and display sign of time differentials less
 than one hour

---
 src/asn1_types/generalizedtime.rs | 7 +++++--
 src/asn1_types/utctime.rs         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index fb098fd..762f9f0 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -154,7 +154,9 @@ impl GeneralizedTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                // minutes hold the sign if there are no hours
+                let mm = if hh == 0 { -(mm as i8) } else { mm as i8 };
+                ASN1TimeZone::Offset(-(hh as i8), mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -274,7 +276,8 @@ impl fmt::Display for GeneralizedTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index 298ed81..d05f938 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -70,7 +70,9 @@ impl UtcTime {
             [b'-', h1, h2, m1, m2] => {
                 let hh = decode_decimal(Self::TAG, *h1, *h2)?;
                 let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
+                // minutes hold the sign if there are no hours
+                let mm = if hh == 0 { -(mm as i8) } else { mm as i8 };
+                ASN1TimeZone::Offset(-(hh as i8), mm)
             }
             _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
         };
@@ -207,7 +209,8 @@ impl fmt::Display for UtcTime {
                 dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
             ),
             ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
+                let s = if hh < 0 || mm < 0 { '-' } else { '+' };
+                let (hh, mm) = (hh.unsigned_abs(), mm.unsigned_abs());
                 write!(
                     f,
                     "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
-- 
2.43.0


From f4ca071f031e7a19e4cfa20c1114bcd59a263f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 23/64] fix: milliseconds are written as a fraction of seconds
 in GeneralizedTime

---
 src/asn1_types/generalizedtime.rs | 14 +++-----------
 src/datetime.rs                   | 10 +++++++++-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 762f9f0..733f832 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -261,7 +261,7 @@ impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
         let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
             None => String::new(),
         };
         match dt.tz {
@@ -324,19 +324,11 @@ const _: () = {
             // - (variable) the fractional part, without trailing zeros, with a point "."
             // - 1 for the character Z in DER (X.690 section 11.7.1)
             // data length: 15 + fractional part
-            let num_digits = match self.0.millisecond {
-                None => 0,
-                Some(v) => 1 + v.to_string().len(),
-            };
-
-            Length::Definite(15 + num_digits)
+            Length::Definite(15 + self.0.fractional_der().len())
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
+            let fractional = self.0.fractional_der();
             let num_digits = fractional.len();
             write!(
                 target,
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..c2484b0 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -77,6 +77,14 @@ impl ASN1DateTime {
         Ok(primitive_date.assume_offset(offset))
     }
 
+    /// Return the fractional part of seconds, with the decimal point and without trailing zeros
+    /// (X.690: 11.7.3)
+    #[cfg(feature = "std")]
+    pub(crate) fn fractional_der(&self) -> String {
+        let s = format!(".{:03}", self.millisecond.unwrap_or(0));
+        s.trim_end_matches(['0', '.']).into()
+    }
+
     #[cfg(feature = "datetime")]
     pub fn to_datetime(&self) -> Result<OffsetDateTime> {
         use crate::Error;
@@ -89,7 +97,7 @@ impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let fractional = match self.millisecond {
             None => "".to_string(),
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
         };
         write!(
             f,
-- 
2.43.0


From 8f88e09f1688bd9ffaad5e2754c2675f00e2aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 24/64] fix: UtcTime is written with the two low-order digits
 of year

---
 src/asn1_types/utctime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index d05f938..9519f95 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -253,7 +253,12 @@ const _: () = {
             write!(
                 target,
                 "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
+                self.0.year % 100,
+                self.0.month,
+                self.0.day,
+                self.0.hour,
+                self.0.minute,
+                self.0.second,
             )?;
             // write_fmt returns (), see above for length value
             Ok(13)
-- 
2.43.0


From 8868183de72a68e224859fef31ec45c6c0a08288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 25/64] fix: Option<T> does not read object content twice
 (broken with indefinite length)

---
 src/asn1_types/optional.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..616cbea 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // input is already the object content
+        let (rem, obj) = T::from_ber_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -114,9 +113,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // input is already the object content
+        let (rem, obj) = T::from_der_content(header, input).map_err(Err::convert)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From ea3d71a17fbbade9012459a56117ebfcf6d09f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 26/64] fix: encoding of optional values (infinite recursion if
 present, header written if absent)

---
 derive/src/container.rs    | 15 +++++--
 src/asn1_types/optional.rs | 86 ++++++++++++++++++++++++++++++++++----
 2 files changed, 90 insertions(+), 11 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..e1f7254 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -528,8 +528,11 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                            + match #bi.#total_len() {
+                                // absent value (OPTIONAL): nothing is written
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                len => len + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), len).unwrap_or_default(),
+                            }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
@@ -539,8 +542,12 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                            + match #bi.#total_len() {
+                                // absent value (OPTIONAL): nothing is written
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                _ => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
+                                    + #bi.#content_len(),
+                            }
                     }
                 }
                 None => quote! {
diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 616cbea..d10e729 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -154,12 +154,16 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        self.as_ref().map_or(Class::Universal, |t| t.class())
+    }
+
+    fn constructed(&self) -> bool {
+        self.as_ref().map_or(false, |t| t.constructed())
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
-        }
+        self.as_ref().map_or(Tag(0), |t| t.tag())
     }
 
     fn accept_tag(tag: Tag) -> bool {
@@ -191,8 +195,18 @@ const _: () = {
             }
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.ber_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
         }
 
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -201,6 +215,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -223,8 +261,18 @@ const _: () = {
             }
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.der_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
         }
 
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -233,6 +281,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
-- 
2.43.0


From 3a65561ab51c08ba9beecb032da11196fd6f95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 27/64] fix: length of derived implicit tagged fields uses
 length of content

---
 derive/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e1f7254..3587900 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -545,7 +545,7 @@ impl Container {
                             + match #bi.#total_len() {
                                 // absent value (OPTIONAL): nothing is written
                                 asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
-                                _ => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
+                                _ => asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#content_len()).unwrap_or_default()
                                     + #bi.#content_len(),
                             }
                     }
-- 
2.43.0


From 6c80adbd4de2ccca26767328fe11d508cd14ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 28/64] fix: derived optional tagged fields test both class and
 tag number

---
 derive/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 3587900..cd0dc77 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -887,7 +887,7 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
                         (i, None)
                     } else {
                         let (_, header): (_, asn1_rs::Header) = #from(i)#map_err?;
-                        if header.tag().0 == #tag {
+                        if header.tag().0 == #tag && header.class() as u8 == #class {
                             let (i, t): (_, asn1_rs::TaggedValue::<_, _, #tag_kind, {#class}, #tag>) = #from(i)#map_err?;
                             (i, Some(t.into_inner()))
                         } else {
@@ -984,7 +984,7 @@ fn get_field_berparser(f: &FieldInfo, asn1_type: Asn1Type) -> TokenStream {
                         // clone rem, #map_err may consume it
                         let rem_copy = rem.clone();
                         let (_, obj_header): (_, asn1_rs::Header) = #from(rem_copy)#map_err?;
-                        if obj_header.tag().0 == #tag {
+                        if obj_header.tag().0 == #tag && obj_header.class() as u8 == #class {
                             let (rem, t): (_, asn1_rs::TaggedValue::<
                                 _,
                                 <#f_ty as asn1_rs::#parser>::Error,
-- 
2.43.0


From a0f4cfe5546aa6c69275f2d725d7cc217989c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 29/64] fix: encoding a reference is the same as encoding the
 value

---
 src/to_ber.rs | 30 ++++++++++++++++++++++++++++++
 src/to_der.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index ef51fe0..f379c90 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -136,6 +136,10 @@ where
         (*self).ber_content_len()
     }
 
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
     fn ber_tag_info(&self) -> (Class, bool, Tag) {
         (*self).ber_tag_info()
     }
@@ -143,6 +147,32 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..a75e446 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -170,6 +170,10 @@ where
         (*self).der_content_len()
     }
 
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
     fn der_tag_info(&self) -> (Class, bool, Tag) {
         (*self).der_tag_info()
     }
@@ -177,6 +181,32 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From edb2ce8489b6abe4ed03c25643368d745305ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 30/64] fix: DER encoding of SET OF writes elements in
 ascending order

---
 src/asn1_types/set/any_set.rs  |  6 ++----
 src/asn1_types/set/btreeset.rs |  5 +----
 src/asn1_types/set/set_of.rs   |  2 +-
 src/to_der.rs                  | 20 ++++++++++++++++++++
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..8027913 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -100,6 +100,7 @@ impl<'a, S: BuildHasher + Default> DerParser<'a> for AnySet<'a, S> {
 const _: () = {
     use std::io::Write;
 
+    use crate::to_der::der_write_set_items;
     use crate::{Class, Constructed, Length, SerializeResult, ToBer, ToDer};
 
     impl<S: BuildHasher> ToBer for AnySet<'_, S> {
@@ -129,10 +130,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index abf5084..e70cfed 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -154,10 +154,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..15bbb72 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -235,7 +235,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.items.der_write_content(target)
+            der_write_set_items(self.items.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_der.rs b/src/to_der.rs
index a75e446..18c7454 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -271,3 +271,23 @@ where
 {
     iter.map(|t| t.der_total_len()).sum()
 }
+
+/// Write all items of a set (DER)
+///
+/// The encodings of the component values of a set-of value shall appear in ascending
+/// order (X.690: 11.6)
+pub(crate) fn der_write_set_items<'a, T, IT, W>(iter: IT, target: &mut W) -> SerializeResult<usize>
+where
+    T: ToDer + 'a,
+    IT: Iterator<Item = &'a T>,
+    W: Write,
+{
+    let mut items = iter
+        .map(|t| t.to_der_vec())
+        .collect::<SerializeResult<Vec<_>>>()?;
+    items.sort_unstable();
+    items.iter().try_fold(0, |acc, item| {
+        target.write_all(item)?;
+        Ok(acc + item.len())
+    })
+}
-- 
2.43.0


From 00f0902c56025ca6e3840fd6e9ccacb85bc9a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 31/64] fix: SetOf, AnySet and AnySequence are constructed
 types

---
 src/asn1_types/sequence/any_sequence.rs | 1 +
 src/asn1_types/set/any_set.rs           | 1 +
 src/asn1_types/set/set_of.rs            | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..aec1f33 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -54,6 +54,7 @@ impl<'a> AnySequence<'a> {
 }
 
 impl Tagged for AnySequence<'_> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Sequence;
 }
 
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 8027913..261054a 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -59,6 +59,7 @@ impl<'a, S: BuildHasher> AnySet<'a, S> {
 }
 
 impl<S> Tagged for AnySet<'_, S> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 15bbb72..58f0331 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -198,6 +198,7 @@ where
 }
 
 impl<T> Tagged for SetOf<T> {
+    const CONSTRUCTED: bool = true;
     const TAG: Tag = Tag::Set;
 }
 
-- 
2.43.0


From 252b26aaa3dae0d200ca9062a41139c7e105d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 32/64] fix: SequenceIteratorInput checks tag of elements

---
 src/asn1_types/sequence/iterator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..3ba4c35 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -142,6 +142,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
@@ -173,6 +177,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
+            Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                let tag = any.tag();
+                Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
+            }
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
-- 
2.43.0


From 282d024ce410da294a572cd1a7d0d1f0873b6961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 33/64] fix: decode REAL exponents using the long form, and
 check for overflow

---
 src/asn1_types/real.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..fc7816b 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -213,7 +213,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            3 => {
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -227,7 +227,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
+        // in the long form, n is read from input: exponent must use at least one octet
+        if n == 0 {
+            return Err(InnerError::invalid_value(
+                header.tag,
+                "Invalid float value(exponent)",
+            ));
+        }
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
@@ -258,9 +264,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             // base 2
             0 => e,
             // base 8
-            1 => e * 3,
+            1 => e.checked_mul(3).ok_or_else(|| {
+                InnerError::invalid_value(header.tag, "Exponent too large (REAL)")
+            })?,
             // base 16
-            2 => e * 4,
+            2 => e.checked_mul(4).ok_or_else(|| {
+                InnerError::invalid_value(header.tag, "Exponent too large (REAL)")
+            })?,
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
         };
         if rem.len() > 8 {
-- 
2.43.0


From 0eaf5d162863cdb8b2f8a0c2ffe3cafdcb7cde43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 34/64] fix: mantissa of REAL is an unsigned value (8 octets
 mantissa)

---
 src/asn1_types/real.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index fc7816b..17db41b 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -279,20 +279,24 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
                 "Mantissa too large (REAL)",
             ));
         }
-        let mut p = 0;
+        let mut p = 0_u64;
         for b in rem {
-            p = (p << 8) | (*b as i64);
+            p = (p << 8) | (*b as u64);
         }
         // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
+        let p = if first & 0x40 != 0 {
+            -(p as f64)
+        } else {
+            p as f64
+        };
         // scale bits
         let sf = (first >> 2) & 0x03;
         let p = match sf {
-            0 => p as f64,
+            0 => p,
             sf => {
                 // 2^sf: cannot overflow, sf is between 0 and 3
                 let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
+                p * scale
             }
         };
         Ok(Real::Binary {
-- 
2.43.0


From 643d70d3e5c32cc6b0e9acfefc6a426a4c5f7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 35/64] fix: encode exponent of REAL as a signed value

---
 src/asn1_types/real.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 17db41b..40d57ca 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -437,10 +437,11 @@ const _: () = {
                     }
                     first |= sf << 2;
                     // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    // (exponent is a signed value: two's complement)
+                    let len_e = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
-- 
2.43.0


From 3af68e7143eb5c065bf0d1ec8cc25457f67a7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 36/64] fix: encode REAL using base 8 or 16 with a non-zero
 exponent

---
 src/asn1_types/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 40d57ca..36a2106 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -520,10 +520,10 @@ fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
     let mut e = e;
     //
     if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
+        m *= 2_f64.powi((e.abs() % 3) * es);
         e = (e.abs() / 3) * es;
     } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
+        m *= 2_f64.powi((e.abs() % 4) * es);
         e = (e.abs() / 4) * es;
     }
     //
-- 
2.43.0


From 6b8f17213d10b4273d98a80b1dac3d02a80c17db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 37/64] fix: do not panic when encoding REAL with a null, very
 small or very large mantissa

---
 src/asn1_types/real.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 36a2106..ab83a2a 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -396,12 +396,18 @@ const _: () = {
                     if *base != 2 {
                         return Err(Self::TAG.invalid_value("Invalid base for REAL").into());
                     }
+                    if !mantissa.is_finite() {
+                        return Err(Self::TAG.invalid_value("Invalid mantissa for REAL").into());
+                    }
                     let mut first: u8 = 0x80;
                     // choose encoding base
                     let enc_base = *_enc_base;
                     let (ms, mut m, enc_base, mut e) =
                         drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
+                    // plus zero or minus zero: no contents octets (X.690: 8.5.2)
+                    if m == 0 {
+                        return Ok(0);
+                    }
                     if ms < 0 {
                         first |= 0x40
                     };
@@ -527,13 +533,14 @@ fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
         e = (e.abs() / 4) * es;
     }
     //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
-        }
+    while m.fract() != 0.0 {
+        m *= b as f64;
+        e -= 1;
+    }
+    // keep the most significant bits if mantissa does not fit in an u64
+    while m >= u64::MAX as f64 {
+        m /= b as f64;
+        e += 1;
     }
     (ms, m as u64, b, e)
 }
-- 
2.43.0


From 47892617835ade4f046ef4fded139a2b3481594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 38/64] fix: avoid overflows when encoding REAL with large
 mantissa or exponent

---
 src/asn1_types/real.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index ab83a2a..eb83f02 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -443,6 +443,8 @@ const _: () = {
                     }
                     first |= sf << 2;
                     // exponent length and bytes
+                    let e: i32 = core::convert::TryFrom::try_from(e)
+                        .map_err(|_| Self::TAG.invalid_value("Exponent too large (REAL)"))?;
                     // (exponent is a signed value: two's complement)
                     let len_e = match e {
                         -0x80..=0x7f => 1,
@@ -519,25 +521,29 @@ impl From<Real> for f64 {
 }
 
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
+fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i64) {
     let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
     let mut m = m.abs();
-    let mut e = e;
+    // use a larger type for computations, so they cannot overflow
+    let mut e = i64::from(e);
+    // keep the most significant bits if mantissa does not fit in an u64
+    while m >= u64::MAX as f64 {
+        m /= 2.0;
+        e += 1;
+    }
     //
     if b == 8 {
-        m *= 2_f64.powi((e.abs() % 3) * es);
-        e = (e.abs() / 3) * es;
+        m *= 2_f64.powi((e % 3) as i32);
+        e /= 3;
     } else if b == 16 {
-        m *= 2_f64.powi((e.abs() % 4) * es);
-        e = (e.abs() / 4) * es;
+        m *= 2_f64.powi((e % 4) as i32);
+        e /= 4;
     }
     //
     while m.fract() != 0.0 {
         m *= b as f64;
         e -= 1;
     }
-    // keep the most significant bits if mantissa does not fit in an u64
     while m >= u64::MAX as f64 {
         m /= b as f64;
         e += 1;
-- 
2.43.0


From 28cd50732ef566a201740ea34c5a433b7f916202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 39/64] fix: accept signed values in REAL using NR1 form

---
 src/asn1_types/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index eb83f02..720d0f5 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -327,9 +327,9 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         match first & 0x03 {
             0x1 => {
                 // NR1
-                match s.parse::<u32>() {
+                match s.parse::<i64>() {
                     Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
+                    Ok(v) => Ok(Real::new(v as f64)),
                 }
             }
             0x2 /* NR2 */ | 0x3 /* NR3 */=> {
-- 
2.43.0


From 882678871e5c98be2ed0bf306f1698b7783e4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 40/64] fix: reject REAL using decimal encoding with invalid
 characters or reserved form

---
 src/asn1_types/real.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 720d0f5..e60350b 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -324,7 +324,14 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
     } else {
         // decimal encoding (X.690 section 8.5.7)
         let s = alloc::str::from_utf8(rem)?;
-        match first & 0x03 {
+        // only numeric representations are allowed (`str::parse` also accepts "inf" or "nan")
+        if rem.iter().any(|b| !b"0123456789+-.eE".contains(b)) {
+            return Err(InnerError::invalid_value(
+                header.tag,
+                "Invalid float string encoding",
+            ));
+        }
+        match first & 0x3f {
             0x1 => {
                 // NR1
                 match s.parse::<i64>() {
-- 
2.43.0


From 6afbecbd24d2fb0f4d58f651ab3847bf005b06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 41/64] fix: DEL is not a printable character, reject it in
 VisibleString

---
 src/asn1_types/strings/visiblestring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/strings/visiblestring.rs b/src/asn1_types/strings/visiblestring.rs
index 13c6ca8..cbb2659 100644
--- a/src/asn1_types/strings/visiblestring.rs
+++ b/src/asn1_types/strings/visiblestring.rs
@@ -9,7 +9,7 @@ impl TestValidCharset for VisibleString<'_> {
     fn test_valid_charset(i: &[u8]) -> Result<()> {
         #[allow(clippy::trivially_copy_pass_by_ref)]
         fn is_visible(b: &u8) -> bool {
-            0x20 <= *b && *b <= 0x7f
+            0x20 <= *b && *b < 0x7f
         }
         if !i.iter().all(is_visible) {
             return Err(Error::StringInvalidCharset);
-- 
2.43.0


From 913a9c4a0793a96a6e7b71542a9e7a1cd33646c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 42/64] fix: truncated object inside complete content is an
 error, not Incomplete

---
 src/asn1_types/optional.rs        |  6 ++++--
 src/asn1_types/tagged/explicit.rs | 15 ++++++++++++---
 src/error.rs                      | 13 +++++++++++++
 src/from_ber.rs                   |  7 ++++---
 src/from_der.rs                   |  7 ++++---
 5 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index d10e729..552afe1 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -57,7 +57,8 @@ where
             // NOTE: end
             let (rem, data) =
                 BerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
-            let (_, obj) = Self::from_ber_content(&header, data).map_err(Err::convert)?;
+            let (_, obj) = Self::from_ber_content(&header, data.clone())
+                .map_err(|e| BerError::content_error(data, e))?;
             Ok((rem, obj))
         })(input)
     }
@@ -100,7 +101,8 @@ where
             // NOTE: end
             let (rem, data) =
                 BerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
-            let (_, obj) = Self::from_der_content(&header, data).map_err(Err::convert)?;
+            let (_, obj) = Self::from_der_content(&header, data.clone())
+                .map_err(|e| BerError::content_error(data, e))?;
             Ok((rem, obj))
         })(input)
     }
diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..e0b889c 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -2,6 +2,15 @@ use crate::*;
 use core::convert::TryFrom;
 use core::marker::PhantomData;
 
+// The content of the object is complete: if inner object is truncated, adding bytes after the object
+// would not help, so this is an error (and not `Incomplete`)
+fn content_error<E: From<Error>>(e: Err<E>) -> Err<E> {
+    match e {
+        Err::Incomplete(n) => Err::Error(Error::Incomplete(n).into()),
+        e => e,
+    }
+}
+
 impl<T, E, const CLASS: u8, const TAG: u32> Tagged for TaggedValue<T, E, Explicit, CLASS, TAG> {
     const CLASS: Class = Class::new_unwrap(CLASS);
     const CONSTRUCTED: bool = true;
@@ -151,7 +160,7 @@ where
                 Error::unexpected_class(class, any.class()).into(),
             ));
         }
-        let (_, inner) = T::from_der(any.data.as_bytes2())?;
+        let (_, inner) = T::from_der(any.data.as_bytes2()).map_err(content_error)?;
         Ok((rem, TaggedValue::explicit(inner)))
     }
 }
@@ -300,7 +309,7 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
-        let (_, inner) = T::from_ber(any.data.as_bytes2())?;
+        let (_, inner) = T::from_ber(any.data.as_bytes2()).map_err(content_error)?;
         let tagged = TaggedParser {
             header,
             inner,
@@ -319,7 +328,7 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
-        let (_, inner) = T::from_der(any.data.as_bytes2())?;
+        let (_, inner) = T::from_der(any.data.as_bytes2()).map_err(content_error)?;
         let tagged = TaggedParser {
             header,
             inner,
diff --git a/src/error.rs b/src/error.rs
index 5031c28..552c7e5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -202,6 +202,19 @@ impl<'i> BerError<crate::Input<'i>> {
         nom::Err::Error(BerError::new(input.const_clone(), inner))
     }
 
+    /// Convert an error found in the content of an object, changing `Incomplete` to an error
+    ///
+    /// The content of the object is complete: adding bytes after the object would not help.
+    pub(crate) fn content_error<E>(input: crate::Input<'i>, e: nom::Err<E>) -> nom::Err<E>
+    where
+        E: From<Self>,
+    {
+        match e {
+            nom::Err::Incomplete(n) => nom::Err::Error(BerError::incomplete(input, n).into()),
+            e => e,
+        }
+    }
+
     /// Consume the error and return error location and inner error
     pub fn consume(self) -> (crate::Input<'i>, InnerError) {
         (self.input, self.inner_error)
diff --git a/src/from_ber.rs b/src/from_ber.rs
index 3cadefd..b9055e0 100644
--- a/src/from_ber.rs
+++ b/src/from_ber.rs
@@ -109,8 +109,8 @@ where
             let (_, obj) = trace_input("BerParser::from_ber_content", |i| {
                 // wrap from_ber_content function to display better errors, if any
                 Self::from_ber_content(&header, i)
-            })(data)
-            .map_err(Err::convert)?;
+            })(data.clone())
+            .map_err(|e| BerError::content_error(data, e))?;
             Ok((rem, obj))
         })(input)
     }
@@ -136,7 +136,8 @@ where
         }
         let (rem, data) =
             BerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = Self::from_ber_content(&header, data).map_err(Err::convert)?;
+        let (_, obj) = Self::from_ber_content(&header, data.clone())
+            .map_err(|e| BerError::content_error(data, e))?;
         Ok((rem, Some(obj)))
     }
 
diff --git a/src/from_der.rs b/src/from_der.rs
index c98c2ca..e0a280e 100644
--- a/src/from_der.rs
+++ b/src/from_der.rs
@@ -155,8 +155,8 @@ where
             let (_, obj) = trace_input("DerParser::from_der_content", |i| {
                 // wrap from_der_content function to display better errors, if any
                 Self::from_der_content(&header, i)
-            })(data)
-            .map_err(Err::convert)?;
+            })(data.clone())
+            .map_err(|e| BerError::content_error(data, e))?;
             Ok((rem, obj))
         })(input)
     }
@@ -192,7 +192,8 @@ where
             .definite_inner()
             .map_err(BerError::convert_into(input.clone()))?;
         let (rem, data) = take(length)(rem)?;
-        let (_, obj) = Self::from_der_content(&header, data).map_err(Err::convert)?;
+        let (_, obj) = Self::from_der_content(&header, data.clone())
+            .map_err(|e| BerError::content_error(data, e))?;
         Ok((rem, Some(obj)))
     }
 
-- 
2.43.0


From 37bf43a8e520047f084fca36310beaf6b160bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 43/64] fix: REAL with a small exponent is not zero when
 converted to a float

---
 src/asn1_types/real.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index e60350b..43955be 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -137,8 +137,15 @@ impl Real {
                 ..
             } => {
                 let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
+                let base = f64::from(*base);
+                let exp = base.powi(*exponent);
+                if exp.is_normal() {
+                    f * exp
+                } else {
+                    // base^exponent cannot be represented, but the result may be: use 2 steps
+                    let half = *exponent / 2;
+                    f * base.powi(half) * base.powi(*exponent - half)
+                }
             }
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
-- 
2.43.0


From fba83a4ec33c8e64530cfcc6eb65aa72334b070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 44/64] fix: do not encode REAL with an exponent which cannot
 be decoded

---
 src/asn1_types/real.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index 43955be..c78925c 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -459,6 +459,15 @@ const _: () = {
                     // exponent length and bytes
                     let e: i32 = core::convert::TryFrom::try_from(e)
                         .map_err(|_| Self::TAG.invalid_value("Exponent too large (REAL)"))?;
+                    // the exponent is decoded as a power of 2
+                    let log2_base = match enc_base {
+                        2 => 1,
+                        8 => 3,
+                        _ /* 16 */ => 4,
+                    };
+                    if e.checked_mul(log2_base).is_none() {
+                        return Err(Self::TAG.invalid_value("Exponent too large (REAL)").into());
+                    }
                     // (exponent is a signed value: two's complement)
                     let len_e = match e {
                         -0x80..=0x7f => 1,
-- 
2.43.0


From 7267aae8618f5794886f39977fd320f36b0beece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 45/64] fix: REAL with mantissa 0 is 0 whatever its exponent

---
 src/asn1_types/real.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index c78925c..8abf8a1 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -137,6 +137,9 @@ impl Real {
                 ..
             } => {
                 let f = mantissa;
+                if *f == 0.0 {
+                    return *f;
+                }
                 let base = f64::from(*base);
                 let exp = base.powi(*exponent);
                 if exp.is_normal() {
-- 
2.43.0


From 1536fdb23f703712811475e97288e0ffd52ae562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 46/64] fix: an absent OPTIONAL has no header

---
 src/asn1_types/optional.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 552afe1..35e4659 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -211,6 +211,13 @@ const _: () = {
             }
         }
 
+        fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.ber_encode(target),
@@ -277,6 +284,13 @@ const _: () = {
             }
         }
 
+        fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_write_header(target),
+                None => Ok(0),
+            }
+        }
+
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
             match self {
                 Some(t) => t.der_encode(target),
-- 
2.43.0


From 517b2066e3fdbe0c0fb10f8d37d59646938e19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 47/64] fix: TaggedParser EXPLICIT requires a constructed
 object

---
 src/asn1_types/tagged/explicit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index e0b889c..b83c211 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -309,6 +309,9 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_ber(any.data.as_bytes2()).map_err(content_error)?;
         let tagged = TaggedParser {
             header,
@@ -328,6 +331,9 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, inner) = T::from_der(any.data.as_bytes2()).map_err(content_error)?;
         let tagged = TaggedParser {
             header,
-- 
2.43.0


From f120c6f5144d31790004d30e373b172dd6c6bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 48/64] fix: conversions from Any check the tag

---
 src/asn1_types/any.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..58537f3 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -246,6 +246,9 @@ macro_rules! impl_any_into {
         #[doc = $asn1]
         #[doc = "`)."]
         pub fn $fn_name(self) -> Result<$ty> {
+            if !<$ty as DynTagged>::accept_tag(self.header.tag) {
+                return Err(Error::unexpected_tag(None, self.header.tag));
+            }
             let (_, obj) =
                 <$ty>::from_ber_content(&self.header, self.data).map_err(Error::from_nom_berr)?;
             Ok(obj)
@@ -266,6 +269,9 @@ macro_rules! impl_any_as {
         #[doc = "\n\nNote: this method makes shallow copies of `header` and `data`."]
         #[inline]
         pub fn $fn_name(&self) -> Result<$ty> {
+            if !<$ty as DynTagged>::accept_tag(self.header.tag) {
+                return Err(Error::unexpected_tag(None, self.header.tag));
+            }
             // This clone is cheap
             let data = self.data.clone();
             let (_, obj) =
-- 
2.43.0


From 92a2396c577c72674d711b9d4ba0d8a0b9f94f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 49/64] fix: Any::relative_oid and as_relative_oid check the
 content

---
 src/asn1_types/any.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 58537f3..464a629 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -2,7 +2,6 @@ use crate::ber::*;
 use crate::debug::trace_input;
 use crate::Input;
 use crate::*;
-use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
 use core::convert::TryFrom;
@@ -313,8 +312,7 @@ impl<'a> Any<'a> {
     /// Attempt to convert object to `Oid` (ASN.1 type: `RELATIVE-OID`).
     pub fn relative_oid(self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
-        let asn1 = Cow::Borrowed(self.data.into_bytes());
-        Ok(Oid::new_relative(asn1))
+        self.oid()
     }
     impl_any_into!(printablestring => PrintableString<'a>, "PrintableString");
     // XXX REAL
@@ -361,8 +359,7 @@ impl<'a> Any<'a> {
     /// Attempt to create ASN.1 type `RELATIVE-OID` from this object.
     pub fn as_relative_oid(&'a self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
-        let asn1 = Cow::Borrowed(self.data.as_bytes2());
-        Ok(Oid::new_relative(asn1))
+        self.as_oid()
     }
     impl_any_as!(as_printablestring => PrintableString<'_>, "PrintableString");
     impl_any_as!(as_sequence => Sequence<'_>, "SEQUENCE");
-- 
2.43.0


From aedf7211fa73707a05e0e6e17812c24d212daee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 50/64] fix: as_any_str and as_any_string do not return the
 encoding of string segments

---
 src/asn1_types/any.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 464a629..83005d1 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -430,6 +430,7 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res)
             }
@@ -451,6 +452,7 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res.to_string())
             }
-- 
2.43.0


From da3392a63d1c61c6bf98227652715f993ddf76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 51/64] fix: SequenceIteratorInput stops after an element that
 does not decode

It went on with the next element after an unexpected tag or a malformed
content, unlike SequenceIterator and AnyIterator.
---
 src/asn1_types/iterator.rs          | 2 +-
 src/asn1_types/sequence/iterator.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/iterator.rs b/src/asn1_types/iterator.rs
index fe9ae98..11d0a01 100644
--- a/src/asn1_types/iterator.rs
+++ b/src/asn1_types/iterator.rs
@@ -29,7 +29,7 @@ where
     Mode: ASN1Mode,
 {
     input: Input<'a>,
-    has_error: bool,
+    pub(crate) has_error: bool,
     _mode: PhantomData<*const Mode>,
 }
 
diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 3ba4c35..c624cd6 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -143,12 +143,14 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
             Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                self.iter.has_error = true;
                 let tag = any.tag();
                 Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
             }
             Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
+                    self.iter.has_error = true;
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
                         nom::Err::Incomplete(n) => {
@@ -178,12 +180,14 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
             Some(Ok((_, any))) if !T::accept_tag(any.tag()) => {
+                self.iter.has_error = true;
                 let tag = any.tag();
                 Some(Err(BerError::unexpected_tag(any.data, None, tag).into()))
             }
             Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
                 Ok((_, obj)) => Some(Ok(obj)),
                 Err(e) => {
+                    self.iter.has_error = true;
                     let e = match e {
                         nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
                         nom::Err::Incomplete(n) => {
-- 
2.43.0


From 7874e1aaabf11bdad047fd1c0526ea34dacef742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 52/64] fix: parse_ber_and_then and parse_der_and_then reject
 primitive sequences and sets

from_ber_and_then and from_der_and_then already did.
---
 src/asn1_types/sequence.rs | 6 ++++++
 src/asn1_types/set.rs      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/asn1_types/sequence.rs b/src/asn1_types/sequence.rs
index c18d522..e4687a3 100644
--- a/src/asn1_types/sequence.rs
+++ b/src/asn1_types/sequence.rs
@@ -190,6 +190,9 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -227,6 +230,9 @@ impl<'a> Sequence<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Sequence), any.tag()).into(),
             ))?;
         }
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 47d445e..835b03e 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -187,6 +187,9 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
@@ -224,6 +227,9 @@ impl<'a> Set<'a> {
                 BerError::unexpected_tag(orig_input, Some(Tag::Set), any.tag()).into(),
             ))?;
         }
+        any.header
+            .assert_constructed_input(&any.data)
+            .map_err(|e| Err::Error(e.into()))?;
         let (_, res) = op(any.header, any.data)?;
         Ok((rem, res))
     }
-- 
2.43.0


From 21e80f811902d266dc16e709e10d2cca6f1e0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:43 +0000
Subject: [PATCH 53/64] fix: Set::from_iter_to_der writes elements in ascending
 order

---
 src/asn1_types/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 835b03e..fff0667 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -489,13 +489,13 @@ impl Set<'_> {
         T: ToDer,
         T: Tagged,
     {
-        let mut v = Vec::new();
-        for item in it {
-            let item_v = <T as ToDer>::to_der_vec(&item)?;
-            v.extend_from_slice(&item_v);
-        }
+        // DER: the encodings of the elements appear in ascending order (X.690 section 11.6)
+        let mut items = it
+            .map(|item| <T as ToDer>::to_der_vec(&item))
+            .collect::<SerializeResult<Vec<_>>>()?;
+        items.sort();
         Ok(Set {
-            content: Cow::Owned(v),
+            content: Cow::Owned(items.concat()),
         })
     }
 }
-- 
2.43.0


From dcd1ba7fe12d0c222c3ffef1bea4c16b8bb87cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:22 +0000
Subject: [PATCH 54/64] fix: iterating over optional elements ends when nothing
 is consumed

---
 src/asn1_types/sequence/iterator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index c624cd6..f689fcd 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -62,6 +62,11 @@ where
             return None;
         }
         match T::from_ber(self.data) {
+            // nothing was consumed (absent OPTIONAL): stop here, or iteration would never end
+            Ok((rem, _)) if rem.len() == self.data.len() => {
+                self.has_error = true;
+                Some(Err(Error::InvalidTag.into()))
+            }
             Ok((rem, obj)) => {
                 self.data = rem;
                 Some(Ok(obj))
@@ -91,6 +96,11 @@ where
             return None;
         }
         match T::from_der(self.data) {
+            // nothing was consumed (absent OPTIONAL): stop here, or iteration would never end
+            Ok((rem, _)) if rem.len() == self.data.len() => {
+                self.has_error = true;
+                Some(Err(Error::InvalidTag.into()))
+            }
             Ok((rem, obj)) => {
                 self.data = rem;
                 Some(Ok(obj))
-- 
2.43.0


From 8d5eca1b97fc41b9cc02087f2785d6a18ea3a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:53 +0000
Subject: [PATCH 55/64] fix: to_der_len includes the header

---
 src/to_der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/to_der.rs b/src/to_der.rs
index 18c7454..bb1857e 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -145,7 +145,7 @@ pub trait ToDer {
     // Since we are using DER, length cannot be Indefinite
     #[deprecated(since = "0.8.0", note = "Use `der_total_len()` instead.")]
     fn to_der_len(&self) -> crate::Result<usize> {
-        match self.der_content_len() {
+        match self.der_total_len() {
             Length::Definite(sz) => Ok(sz),
             Length::Indefinite => Err(crate::Error::IndefiniteLengthUnexpected),
         }
-- 
2.43.0


From 0e595db6356b7f4892a9456988d23583a90b678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:35 +0000
Subject: [PATCH 56/64] fix: Any::iter_elements uses the encoding rules it is
 asked for

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 83005d1..1e0fef0 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -136,8 +136,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From 9769b6e0f61fa90f955c59e106dfbb1903119c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:41 +0000
Subject: [PATCH 57/64] fix: derived tagged CHOICE checks the class of its tags

---
 derive/src/choice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..db48edb 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -263,6 +263,12 @@ impl<'s> DeriveChoice<'s> {
                     type Error = #error;
                     fn #from_ber_content(header: &'_ asn1_rs::Header<#lft>, input: asn1_rs::Input<#lft>) -> asn1_rs::nom::IResult<asn1_rs::Input<#lft>, Self, Self::Error> {
                         #assert_constructed
+                        // tags of variants are always CONTEXT-SPECIFIC
+                        if header.class() != asn1_rs::Class::ContextSpecific {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::unexpected_class(input, Some(asn1_rs::Class::ContextSpecific), header.class()).into()
+                            ));
+                        }
                         let rem = input.clone();
                         match header.tag().0 {
                             #(#parse_branches)*
-- 
2.43.0


From 10d666c799a0c49b0f33d831fe58eb35a4d03de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:52 +0000
Subject: [PATCH 58/64] fix: derived DerAlias from_der checks the DER
 constraints of its type

---
 derive/src/container.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index cd0dc77..264c4c2 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -473,6 +473,7 @@ impl Container {
                 quote! {
                     let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                     any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                    <Self as asn1_rs::CheckDerConstraints>::check_constraints(&any).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                     let res = TryFrom::try_from(any)?;
                     Ok((rem,Self(res)))
                 }
-- 
2.43.0


From ab00a03d415bd6c7f74e7d83ba45b0814ced9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:52 +0000
Subject: [PATCH 59/64] fix: derived from_der reports missing bytes inside a
 complete container as an error

---
 derive/src/container.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 264c4c2..b00e5c8 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -483,11 +483,17 @@ impl Container {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
-                //
-                #parse_content
-                //
-                // let _ = i; // XXX check if empty?
-                Ok((rem,Self{#(#field_names),*}))
+                let parse_fields = |i: &#lifetime [u8]| -> asn1_rs::ParseResult<#lifetime, Self, #error> {
+                    #parse_content
+                    Ok((i, Self{#(#field_names),*}))
+                };
+                // the content is complete: missing bytes in a field are an error
+                let (_, res) = parse_fields(i).map_err(|e| match e {
+                    asn1_rs::nom::Err::Incomplete(n) => asn1_rs::nom::Err::Error(asn1_rs::Error::Incomplete(n).into()),
+                    e => e,
+                })?;
+                // XXX check if remaining content is empty?
+                Ok((rem, res))
             }
         };
         // note: `gen impl` in synstructure takes care of appending extra where clauses if any, and removing
-- 
2.43.0


From dd914ffb2a844b74973521d9df42e42ac843e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:18 +0000
Subject: [PATCH 60/64] fix: long relative identifiers in the oid macro

---
 impl/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 3b89908..d9733ee 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -5,10 +5,10 @@ use syn::{parse_macro_input, Error, LitInt};
 #[proc_macro]
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let token_stream = input.to_string();
-    let (s, relative) = if token_stream.starts_with("rel ") {
-        (&token_stream[4..], true)
-    } else {
-        (token_stream.as_ref(), false)
+    // the text of a long token stream is broken into lines: any white space may follow `rel`
+    let (s, relative) = match token_stream.strip_prefix("rel") {
+        Some(s) if s.starts_with(char::is_whitespace) => (s, true),
+        _ => (token_stream.as_ref(), false),
     };
     let items: Result<Vec<_>, _> = s.split('.').map(|x| x.trim().parse::<u128>()).collect();
     let mut items: &[_] = match items.as_ref() {
-- 
2.43.0


From 6b62308b3958924d90b8e433aa714bf2ed7582b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:13 +0000
Subject: [PATCH 61/64] fix: class and form of a TaggedParser as a DynTagged
 value

---
 src/asn1_types/tagged/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/asn1_types/tagged/parser.rs b/src/asn1_types/tagged/parser.rs
index 922f0eb..e5e59a7 100644
--- a/src/asn1_types/tagged/parser.rs
+++ b/src/asn1_types/tagged/parser.rs
@@ -72,6 +72,14 @@ where
 }
 
 impl<TagKind, T, E> DynTagged for TaggedParser<'_, TagKind, T, E> {
+    fn class(&self) -> Class {
+        self.header.class
+    }
+
+    fn constructed(&self) -> bool {
+        self.header.constructed
+    }
+
     fn tag(&self) -> Tag {
         self.tag()
     }
-- 
2.43.0


From 950199aa62a93b53bc6a2bfffadd1936bb506386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:05 +0000
Subject: [PATCH 62/64] fix: BitString::new accepts an empty bit string

The documentation says that it panics if there are more unused bits than
bits, or more than 7; it also did for an empty slice without unused bits.
---
 src/asn1_types/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index 635b315..7dcadd8 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -26,7 +26,7 @@ impl BitString {
     pub fn new(unused_bits: u8, s: &[u8]) -> Self {
         let unused_bits = usize::from(unused_bits);
         let mut bitvec = BitVec::from_slice(s);
-        assert!(unused_bits < 8 && unused_bits < bitvec.len());
+        assert!(unused_bits < 8 && unused_bits <= bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
         // unused bits must be zero when encoding
         bitvec.set_uninitialized(false);
-- 
2.43.0


From acdd2f58663839d80f3214dd9519359a875aba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 63/64] fix: EMBEDDED PDV identification is a CHOICE, so its
 tag is explicit

The identification was decoded with an implicit [0], and then matched on
that same tag: every alternative but 'syntaxes' (with a missing level) was
unreachable, and correct encodings were rejected.
---
 src/asn1_types/embedded_pdv.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..86039e2 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -43,16 +43,27 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
     type Error = BerError<Input<'i>>;
 
     fn from_ber_content(
-        _header: &'_ Header<'i>,
+        header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
+        header
+            .assert_constructed_input(&input)
+            .map_err(Err::Error)?;
+
+        // AUTOMATIC TAGS means all values will be tagged (IMPLICIT, except if value is a CHOICE)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
-        // this is a [0 IMPLICIT] SEQUENCE, so we can just parse it as Any and take the content
-        let (rem, t0) = TaggedImplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        // this is a CHOICE, so tag is EXPLICIT (X.680: 31.2.9)
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
         let inner0 = t0.into_inner();
+        if inner0.class() != Class::ContextSpecific {
+            return Err(Err::Error(BerError::unexpected_class(
+                inner0.data,
+                Some(Class::ContextSpecific),
+                inner0.header.class(),
+            )));
+        }
         let identification = match inner0.tag() {
             Tag(0) => {
                 // syntaxes SEQUENCE {
@@ -60,6 +71,10 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                 //     transfer OBJECT IDENTIFIER
                 // },
                 let inner_data = inner0.data;
+                inner0
+                    .header
+                    .assert_constructed_input(&inner_data)
+                    .map_err(Err::Error)?;
                 let (rem, t_abstract) =
                     TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
                 let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
@@ -84,6 +99,10 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                 //     transfer-syntax OBJECT IDENTIFIER
                 // },
                 let inner_data = inner0.data;
+                inner0
+                    .header
+                    .assert_constructed_input(&inner_data)
+                    .map_err(Err::Error)?;
                 let (rem, t_presentation_context_id) =
                     TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
                 let (_, t_presentation_syntax) =
@@ -103,6 +122,7 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(5) => {
                 // fixed NULL
+                let _ = Null::from_ber_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
-- 
2.43.0


From 74feac930fde83d8db88efc0194014895c818498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 64/64] fix: members of an EMBEDDED PDV in DER follow the DER
 rules

from_der_content (and from_der) accepted BER encodings of the members.
---
 src/asn1_types/embedded_pdv.rs | 53 +++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 86039e2..19aedab 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -39,23 +39,16 @@ impl Tagged for EmbeddedPdv<'_> {
 
 impl_tryfrom_any!('i @ EmbeddedPdv<'i>);
 
-impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
-    type Error = BerError<Input<'i>>;
-
-    fn from_ber_content(
-        header: &'_ Header<'i>,
-        input: Input<'i>,
-    ) -> IResult<Input<'i>, Self, Self::Error> {
-        header
-            .assert_constructed_input(&input)
-            .map_err(Err::Error)?;
+macro_rules! pdv_from_content {
+    ($header:ident, $input:ident, $parse:ident, $from_content:ident) => {{
+        $header.assert_constructed_input(&$input).map_err(Err::Error)?;
 
         // AUTOMATIC TAGS means all values will be tagged (IMPLICIT, except if value is a CHOICE)
         // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
         // [0] -> identification
         // this is a CHOICE, so tag is EXPLICIT (X.680: 31.2.9)
-        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::parse_ber(input)?;
+        let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::$parse($input)?;
         let inner0 = t0.into_inner();
         if inner0.class() != Class::ContextSpecific {
             return Err(Err::Error(BerError::unexpected_class(
@@ -75,9 +68,8 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                     .header
                     .assert_constructed_input(&inner_data)
                     .map_err(Err::Error)?;
-                let (rem, t_abstract) =
-                    TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                let (rem, t_abstract) = TaggedImplicit::<Oid, Self::Error, 0>::$parse(inner_data)?;
+                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
                 PdvIdentification::Syntaxes {
                     s_abstract: t_abstract.into_inner(),
                     s_transfer: t_transfer.into_inner(),
@@ -85,12 +77,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(1) => {
                 // syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Syntax(oid)
             }
             Tag(2) => {
                 // presentation-context-id INTEGER
-                let (_, i) = Integer::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, i) = Integer::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::PresentationContextId(i)
             }
             Tag(3) => {
@@ -104,9 +96,8 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
                     .assert_constructed_input(&inner_data)
                     .map_err(Err::Error)?;
                 let (rem, t_presentation_context_id) =
-                    TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_presentation_syntax) =
-                    TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                    TaggedImplicit::<Integer, Self::Error, 0>::$parse(inner_data)?;
+                let (_, t_presentation_syntax) = TaggedImplicit::<Oid, Self::Error, 1>::$parse(rem)?;
 
                 let presentation_context_id = t_presentation_context_id.into_inner();
                 let presentation_syntax = t_presentation_syntax.into_inner();
@@ -117,12 +108,12 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             }
             Tag(4) => {
                 // transfer-syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
+                let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::TransferSyntax(oid)
             }
             Tag(5) => {
                 // fixed NULL
-                let _ = Null::from_ber_content(&inner0.header, inner0.data)?;
+                let _ = Null::$from_content(&inner0.header, inner0.data)?;
                 PdvIdentification::Fixed
             }
             _ => {
@@ -135,10 +126,10 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
         };
         // [1] -> data-value-descriptor ObjectDescriptor OPTIONAL
         // *BUT* WITH COMPONENTS data-value-descriptor ABSENT
-        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::parse_ber(rem)?;
+        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::$parse(rem)?;
         let data_value_descriptor = t1.map(|o| o.into_inner());
         // [2] -> data-value OCTET STRING
-        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::parse_ber(rem)?;
+        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::$parse(rem)?;
         let data_value = t2.into_inner();
 
         let obj = EmbeddedPdv {
@@ -147,6 +138,17 @@ impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
             data_value,
         };
         Ok((rem, obj))
+    }};
+}
+
+impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
+    type Error = BerError<Input<'i>>;
+
+    fn from_ber_content(
+        header: &'_ Header<'i>,
+        input: Input<'i>,
+    ) -> IResult<Input<'i>, Self, Self::Error> {
+        pdv_from_content!(header, input, parse_ber, from_ber_content)
     }
 }
 
@@ -157,7 +159,7 @@ impl<'i> DerParser<'i> for EmbeddedPdv<'i> {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
-        Self::from_ber_content(header, input)
+        pdv_from_content!(header, input, parse_der, from_der_content)
     }
 }
 
@@ -165,6 +167,9 @@ impl CheckDerConstraints for EmbeddedPdv<'_> {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length().assert_definite()?;
         any.header.assert_constructed()?;
+        // members must also follow the DER constraints
+        let _ = EmbeddedPdv::from_der_content(&any.header, any.data.clone())
+            .map_err(Error::from_nom_berr)?;
         Ok(())
     }
 }
-- 
2.43.0

