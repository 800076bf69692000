From 9e6815f3492afda9f07ebe8e467ed6d65584475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:34 +0000
Subject: [PATCH 01/15] fix: client notes the key length of every reply, not
 only when it differs from the one at call start

---
 source/postcard-rpc/src/host_client/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..ab5f5c3 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -410,16 +410,12 @@ where
             _c = cancel_fut => Err(HostErr::Closed),
             o = ok_resp => {
                 let (hdr, resp) = o?;
-                if hdr.key.kind() != kkind {
-                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
-                }
+                *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                 Ok(RpcFrame { header: hdr, body: resp })
             },
             e = err_resp => {
                 let (hdr, resp) = e?;
-                if hdr.key.kind() != kkind {
-                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
-                }
+                *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                 let r = postcard::from_bytes::<WireErr>(&resp)?;
                 Err(HostErr::Wire(r))
             },
-- 
2.43.0


From 4f4940d60cb7cb6d71f6c63c7f95dce79679d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:25 +0000
Subject: [PATCH 02/15] fix: send_resp_raw applies the configured sequence
 number width

---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index ab5f5c3..2ca2630 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 292865054263b9c76d5254a03e5713d79efe93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:33 +0000
Subject: [PATCH 03/15] fix: key length calculation accounts for the error
 reply's key

---
 source/postcard-rpc/src/server/dispatch_macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..db70091 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,8 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                // Error replies are sent with this key, and share the wire with the above
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 251b089eeb28d9036bfbb0a20d57321c98891016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:59 +0000
Subject: [PATCH 04/15] fix: type lists include the types nested in enum
 newtype variants

type_chewer_dmt recorded the type of a newtype variant but, unlike every
other arm, did not look into it, so types only reachable through such a
variant were missing from unique_types!(), the endpoint/topic lists and
the device map.
---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..91a7e3a 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this variant
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this variant...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 3d31b1307c4f489241b7f188b7961ebcd1d2b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:12 +0000
Subject: [PATCH 05/15] fix: repeated schema messages no longer hide lost ones

get_schema_report compared the number of received endpoint and topic
messages with the announced totals. A message received twice (for example
because a clone requested the schemas at the same time) made up for one
that was lost, and an incomplete report was returned as complete.
---
 source/postcard-rpc/src/host_client/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 2ca2630..a499aac 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -280,8 +280,11 @@ where
                 OwnedSchemaData::Type(d) => {
                     rpt.add_type(d);
                 }
-                e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
-                t @ OwnedSchemaData::Topic { .. } => e_and_t.push(t),
+                // NOTE: the same item can be received more than once, for example
+                // when a clone of this client also requested the schemas. Don't
+                // count repeats, they would hide lost items below.
+                et if e_and_t.contains(&et) => {}
+                et => e_and_t.push(et),
             }
         }
 
-- 
2.43.0


From 4977ffbcafd69306c7dd396b2bb95b715d527ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:19 +0000
Subject: [PATCH 06/15] fix: USB receive keeps to frame boundaries whatever the
 length of its buffer

With less than a packet of room left (a buffer that is not a multiple of 64 bytes),
the endpoint reports an overflow in the middle of a frame: receive returned without
reading the rest, which then came up as frames of its own. A frame that exactly fills
a buffer was reported as too large.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 27 ++++++++++++++++---
 .../src/server/impls/embassy_usb_v0_4.rs      | 27 ++++++++++++++++---
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..8fb5c72 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -543,8 +543,18 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
-        while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+        let mut scratch = [0u8; 64];
+        loop {
+            // The endpoint may hand us a full packet at any time. If the rest of the buffer
+            // is not certain to hold it, take it in through the scratch space, so that we
+            // neither lose track of where this frame ends nor refuse one that does fit.
+            let direct = window.len() >= scratch.len();
+            let dest = if direct {
+                &mut *window
+            } else {
+                &mut scratch[..]
+            };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -552,7 +562,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+            let (now, later) = window.split_at_mut(n);
+            if !direct {
+                now.copy_from_slice(&scratch[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -567,7 +586,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut scratch).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..826a8ee 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -591,8 +591,18 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
         let buflen = buf.len();
         let mut window = &mut buf[..];
-        while !window.is_empty() {
-            let n = match self.ep_out.read(window).await {
+        let mut scratch = [0u8; 64];
+        loop {
+            // The endpoint may hand us a full packet at any time. If the rest of the buffer
+            // is not certain to hold it, take it in through the scratch space, so that we
+            // neither lose track of where this frame ends nor refuse one that does fit.
+            let direct = window.len() >= scratch.len();
+            let dest = if direct {
+                &mut *window
+            } else {
+                &mut scratch[..]
+            };
+            let n = match self.ep_out.read(dest).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
@@ -600,7 +610,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
+            if n > window.len() {
+                if n != 64 {
+                    return Err(WireRxErrorKind::ReceivedMessageTooLarge);
+                }
+                break;
+            }
+            let (now, later) = window.split_at_mut(n);
+            if !direct {
+                now.copy_from_slice(&scratch[..n]);
+            }
             window = later;
             if n != 64 {
                 // We now have a full frame! Great!
@@ -615,7 +634,7 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
         // If we got here, we've run out of space. That's disappointing. Accumulate to the
         // end of this packet
         loop {
-            match self.ep_out.read(buf).await {
+            match self.ep_out.read(&mut scratch).await {
                 Ok(64) => {}
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
-- 
2.43.0


From 8bce2a90e651240a0e6a0d3fb272363ab2647954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:42 +0000
Subject: [PATCH 07/15] fix: USB log formatting no longer panics when a piece
 of text does not fit

A piece of formatted text longer than the rest of the transmit buffer was copied
whole into the part that was left.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 8fb5c72..ee4b207 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 826a8ee..b040e0d 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From b5bbaa08193356255036b8944578b995f09ee7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:42 +0000
Subject: [PATCH 08/15] fix: USB log formatting reserves enough room for the
 length of the text

With 128 to 255 bytes (or 16384 to 32767, ...) left for the text, one byte too few was
reserved for its length, and a text that needed it panicked.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index ee4b207..df7daa9 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index b040e0d..d6242c3 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From ee8991e59e615eca87e3d4531e266986f226be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:29 +0000
Subject: [PATCH 09/15] fix: USB log formatting cuts a text that does not fit
 between characters

Cutting through a character made the whole message undecodable.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 24 ++++++++++++-------
 .../src/server/impls/embassy_usb_v0_4.rs      | 24 ++++++++++++-------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index df7daa9..6c168ff 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -376,14 +376,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // bytes, then replace those with '.'s like ..., making sure
+        // that we don't leave a part of a character before them
+        if res.is_err() && remain <= 3 && (body.len() >= 3) {
+            let mut start = used.min(body.len() - 3);
+            while start < used && start > 0 && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +407,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -465,9 +470,12 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let sli = core::mem::take(&mut self.0);
 
         // If this write would overflow us, note that, but still take
-        // as much as we possibly can here
+        // as much as we possibly can here, up to the last whole character
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index d6242c3..d37ab4c 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -423,14 +423,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
         // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // bytes, then replace those with '.'s like ..., making sure
+        // that we don't leave a part of a character before them
+        if res.is_err() && remain <= 3 && (body.len() >= 3) {
+            let mut start = used.min(body.len() - 3);
+            while start < used && start > 0 && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +454,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -513,9 +518,12 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let sli = core::mem::take(&mut self.0);
 
         // If this write would overflow us, note that, but still take
-        // as much as we possibly can here
+        // as much as we possibly can here, up to the last whole character
         let bad = s.len() > sli.len();
-        let to_write = s.len().min(sli.len());
+        let mut to_write = s.len().min(sli.len());
+        while !s.is_char_boundary(to_write) {
+            to_write -= 1;
+        }
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
-- 
2.43.0


From cd6b1cd0d04d275e178b7354c7e12f71b7bda39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:07 +0000
Subject: [PATCH 10/15] fix: discard the rest of an oversized COBS message

After an overflow, the remainder of the oversized message was treated as
the start of the next one, so its tail could come up as a frame of its own.
---
 source/postcard-rpc/src/accumulator.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..e74f9cd 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -13,6 +13,8 @@ pub mod raw {
     pub struct CobsAccumulator<const N: usize> {
         buf: [u8; N],
         idx: usize,
+        /// The current message did not fit: ignore the rest of it
+        overflowed: bool,
     }
 
     /// The result of feeding the accumulator.
@@ -43,6 +45,7 @@ pub mod raw {
             CobsAccumulator {
                 buf: [0; N],
                 idx: 0,
+                overflowed: false,
             }
         }
 
@@ -59,7 +62,16 @@ pub mod raw {
         /// This differs from feed, as it allows the `T` to reference data within the internal buffer, but
         /// mutably borrows the accumulator for the lifetime of the deserialization.
         /// If `T` does not require the reference, the borrow of `self` ends at the end of the function.
-        pub fn feed_ref<'a, 'b>(&'b mut self, input: &'a [u8]) -> FeedResult<'a, 'b> {
+        pub fn feed_ref<'a, 'b>(&'b mut self, mut input: &'a [u8]) -> FeedResult<'a, 'b> {
+            // Are we still in the middle of a message that did not fit?
+            if self.overflowed {
+                let Some(n) = input.iter().position(|&i| i == 0) else {
+                    return FeedResult::Consumed;
+                };
+                self.overflowed = false;
+                input = &input[n + 1..];
+            }
+
             if input.is_empty() {
                 return FeedResult::Consumed;
             }
@@ -93,10 +105,10 @@ pub mod raw {
             } else {
                 // Does it fit?
                 if (self.idx + input.len()) > N {
-                    // nope
-                    let new_start = N - self.idx;
+                    // nope, and neither does the rest of this message
                     self.idx = 0;
-                    FeedResult::OverFull(&input[new_start..])
+                    self.overflowed = true;
+                    FeedResult::OverFull(&[])
                 } else {
                     // yup!
                     self.extend_unchecked(input);
-- 
2.43.0


From bc758bad84b525342b62712ab9162dabf2bdc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:11 +0000
Subject: [PATCH 11/15] fix: accept short frames on the serial line

The length check was from before variable length headers: replies of a
server using short keys and sequence numbers were dropped.
---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..33f467f 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes,
+                        // one each for the discriminant, the (shortest) key, and the
+                        // seq_no. Discard any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From a149c2453d0ac5cf300acb334d6a2a5eba7ac266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:11 +0000
Subject: [PATCH 12/15] fix: stop the serial client when its port reports end
 of file

A zero length read was retried for ever, so that the client neither
received anything nor noticed that the port was gone.
---
 source/postcard-rpc/src/host_client/serial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 33f467f..4e91666 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -191,6 +191,10 @@ impl SerialWireRx {
             // Nothing in the pending queue, do a read to see if we can pull more
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
+            if used == 0 {
+                // The port is gone, there won't be any more data
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             let mut window = &self.buf[..used];
 
-- 
2.43.0


From 5053e2f5e8ed1a292a347252f065d579672d7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:17 +0000
Subject: [PATCH 13/15] fix: know all types that are never announced when
 building a schema report

uniques::is_prim treats usize, isize and byte arrays as built-in, so a server
never announces them, but SchemaReport::default() did not contain them: schema
discovery of a device with an endpoint or topic of such a type always failed.
---
 source/postcard-rpc/src/host_client/mod.rs | 23 +++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index a499aac..ee45385 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -18,7 +18,10 @@ use maitake_sync::{
     wait_map::{WaitError, WakeOutcome},
     WaitMap,
 };
-use postcard_schema::{schema::owned::OwnedNamedType, Schema};
+use postcard_schema::{
+    schema::owned::{OwnedDataModelType, OwnedNamedType},
+    Schema,
+};
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use tokio::{
     select,
@@ -1016,10 +1019,16 @@ impl Default for SchemaReport {
         me.add_type(OwnedNamedType::from(<u64 as Schema>::SCHEMA));
         // DataModelType::U128
         me.add_type(OwnedNamedType::from(<u128 as Schema>::SCHEMA));
-        // // DataModelType::Usize
-        // me.add_type(OwnedNamedType::from(<usize as Schema>::SCHEMA));
-        // // DataModelType::Isize
-        // me.add_type(OwnedNamedType::from(<isize as Schema>::SCHEMA));
+        // DataModelType::Usize
+        me.add_type(OwnedNamedType {
+            name: "usize".into(),
+            ty: OwnedDataModelType::Usize,
+        });
+        // DataModelType::Isize
+        me.add_type(OwnedNamedType {
+            name: "isize".into(),
+            ty: OwnedDataModelType::Isize,
+        });
         // DataModelType::F32
         me.add_type(OwnedNamedType::from(<f32 as Schema>::SCHEMA));
         // DataModelType::F64
@@ -1029,6 +1038,10 @@ impl Default for SchemaReport {
         // DataModelType::String
         me.add_type(OwnedNamedType::from(<String as Schema>::SCHEMA));
         // DataModelType::ByteArray
+        me.add_type(OwnedNamedType {
+            name: "ByteArray".into(),
+            ty: OwnedDataModelType::ByteArray,
+        });
         me.add_type(OwnedNamedType::from(<Vec<u8> as Schema>::SCHEMA));
         // DataModelType::Unit
         me.add_type(OwnedNamedType::from(<() as Schema>::SCHEMA));
-- 
2.43.0


From 0acb1cff2cff87ceaaf8d28420b631e195ef63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:17 +0000
Subject: [PATCH 14/15] fix: accept a trailing comma in endpoint! and topic!

The arms for a trailing comma expanded to a macro call without a semicolon,
which does not compile in item position.
---
 source/postcard-rpc/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/macros.rs b/source/postcard-rpc/src/macros.rs
index 284dc88..5e61100 100644
--- a/source/postcard-rpc/src/macros.rs
+++ b/source/postcard-rpc/src/macros.rs
@@ -32,7 +32,7 @@ macro_rules! endpoint {
         endpoint!($tyname, $req, $resp, stringify!($tyname));
     };
     ($tyname:ident, $req:ty, $resp:ty, $path:expr,) => {
-        endpoint!($tyname, $req, $resp, $path)
+        endpoint!($tyname, $req, $resp, $path);
     };
     ($tyname:ident, $req:ty, $resp:ty, $path:expr) => {
         pub struct $tyname;
@@ -224,7 +224,7 @@ macro_rules! topic {
         topic!($tyname, $msg, stringify!($tyname));
     };
     ($tyname:ident, $msg:ty, $path:expr,) => {
-        topic!($tyname, $msg, $path)
+        topic!($tyname, $msg, $path);
     };
     ($tyname:ident, $msg:ty, $path:expr) => {
         /// $tyname - A Topic definition type
-- 
2.43.0


From b7131b257f5813479115054eeec8d8f4c3aa4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 15/15] fix: claim the USB interface by its number, not its
 position

An interface's number need not be its position in the list of interfaces; with
gaps in the numbers the client claimed another interface, or none.
---
 source/postcard-rpc/src/host_client/raw_nusb.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/raw_nusb.rs b/source/postcard-rpc/src/host_client/raw_nusb.rs
index b88f4b5..7035eba 100644
--- a/source/postcard-rpc/src/host_client/raw_nusb.rs
+++ b/source/postcard-rpc/src/host_client/raw_nusb.rs
@@ -94,7 +94,8 @@ where
         #[cfg(not(target_os = "windows"))]
         let interface_id = x
             .interfaces()
-            .position(|i| i.class() == 0xFF)
+            .find(|i| i.class() == 0xFF)
+            .map(|i| i.interface_number() as usize)
             .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
 
         #[cfg(target_os = "windows")]
@@ -160,7 +161,7 @@ where
         F2: FnMut(&InterfaceInfo) -> bool,
     >(
         device_func: F1,
-        interface_func: F2,
+        mut interface_func: F2,
         err_uri_path: &str,
         outgoing_depth: usize,
         seq_no_kind: VarSeqKind,
@@ -171,7 +172,8 @@ where
             .ok_or_else(|| String::from("Failed to find matching nusb device!"))?;
         let interface_id = x
             .interfaces()
-            .position(interface_func)
+            .find(|i| interface_func(i))
+            .map(|i| i.interface_number() as usize)
             .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
 
         Self::try_from_nusb_and_interface(
-- 
2.43.0

