From f26bdbdba887c7d72b651bed77ef44f6700d6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 01/41] fix: '+' and '-' on empty byte strings panicked with an
 index underflow

---
 crates/abe/src/scope/uint.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..46fe37d 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,30 +16,24 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    let mut idx = bytes.len();
+    while idx > 0 {
+        idx -= 1;
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
-    loop {
+    let mut idx = bytes.len();
+    while idx > 0 {
+        idx -= 1;
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
         carry = nc;
-        if idx == 0 {
-            break;
-        }
-        idx -= 1;
     }
     carry
 }
-- 
2.43.0


From 47137c186974d3fb0699a0ca39a3e46bda6d8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 02/41] fix: replace with an empty pattern never terminated

---
 crates/abe/src/scope/bytes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..20ddfc6 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -124,7 +124,10 @@ impl EvalScopeImpl for BytesFE {
         ])
     }
 }
-fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
+fn replace([mut b, from, to]: [&[u8]; 3]) -> Result<Vec<u8>, ApplyErr> {
+    if from.is_empty() {
+        return Err(anyhow!("can't replace an empty pattern"));
+    }
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
@@ -138,7 +141,7 @@ fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
             }
         }
     }
-    r
+    Ok(r)
 }
 
 /// python like slice indexing
-- 
2.43.0


From e45c344fc24db628c1ef511f44acb9f014fae8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 03/41] fix: slice overflowed on start, stop and step values
 beyond isize

---
 crates/abe/src/scope/bytes.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 20ddfc6..3989044 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -180,15 +180,10 @@ pub fn slice<'o, F>(
     let (sb, eb) = if step >= 0 { (0, len) } else { (len - 1, -1) };
 
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
-        match v {
-            Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
-            }
-            Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
-            }
-            None => None,
-        }
+        let SignedInt { neg, val } = v?;
+        let val = val.min(isize::MAX as usize) as isize;
+        let idx = if neg { len - val } else { val };
+        Some(idx.clamp(sb.min(eb), sb.max(eb)))
     };
     let mut i = to_bound(start).unwrap_or(sb);
     let end = to_bound(end).unwrap_or(eb);
@@ -199,7 +194,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From 120498d3c2f44b5fcc7bcd7cc5ca40dd2da4e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 04/41] fix: b2 and b16 encoded bytes into expressions that do
 not evaluate back to them

---
 crates/abe/src/scope/base.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/abe/src/scope/base.rs b/crates/abe/src/scope/base.rs
index 88ba3a4..b7c0da8 100644
--- a/crates/abe/src/scope/base.rs
+++ b/crates/abe/src/scope/base.rs
@@ -31,6 +31,10 @@ fn enc_bin(bytes: &[u8], opts: &[ABE], radix: u32) -> ApplyResult<String> {
     if !len_set.is_empty() && !len_set.contains(&bytes.len()) {
         return ApplyResult::NoValue;
     }
+    // decoding drops leading zero bytes and is limited to 128 bits
+    if bytes.is_empty() || bytes.len() > 16 || (bytes[0] == 0 && bytes.len() > 1) {
+        return ApplyResult::NoValue;
+    }
     use std::fmt::Write;
     match radix {
         2 => {
-- 
2.43.0


From 57a5249166d01da9c25de49241495e5ab80988a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 05/41] fix: replace_abe panicked on an empty pattern

---
 crates/abe/src/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 3b33bbd..b71ce9e 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -629,6 +629,9 @@ pub fn print_abe<B: std::borrow::Borrow<ABE>>(v: impl IntoIterator<Item = B>) ->
 
 /// replace occurances of pattern with new. Checked depth first with no overlap
 pub fn replace_abe(inp: &mut Vec<ABE>, pattern: &[ABE], new: &[ABE]) {
+    if pattern.is_empty() {
+        return;
+    }
     for el in inp.iter_mut() {
         if let ABE::Expr(Expr::Lst(ref mut lst)) = el {
             replace_abe(lst, pattern, new)
-- 
2.43.0


From 460365dbb80edc078e16704f96b2a96b0e59b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 06/41] fix: options without a value (':name') were never
 found, and values of plain entries were misread

---
 crates/abe/src/abconf.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..2644fe5 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,11 +57,15 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
-                [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
-                [] => Some(Ok(None)),
-                _ => Some(Err(lst)),
-            },
+            Ok(lst) => {
+                // an entry starting with a delimiter has an empty first component
+                let leading = matches!(lst.first(), Some((Some(_), _))) as usize;
+                match &lst[starts_with.len().saturating_sub(leading)..] {
+                    [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
+                    [] => Some(Ok(None)),
+                    _ => Some(Err(lst)),
+                }
+            }
             Err(v) => Some(Err(v)),
         }
     }
@@ -86,7 +90,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.iter_bytes().count() < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From d8572b3f5deca85b2358face5e3541bad7bf9246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 07/41] fix: ABList::pop_front panicked on an empty list

---
 crates/abe/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..837be34 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,7 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        (!self.0.is_empty()).then(|| self.0.remove(0))
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From 9834d7b024005b3bfbcc93375cdb5ae17998698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 08/41] fix: the expression tree of byte strings held escaped
 text instead of the bytes

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..5d2ba44 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 2fcf74abaad5ccc850264b0921b5bc1df5f2404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 09/41] fix: a malformed datagram panicked and so stopped the
 bus receiver thread

---
 crates/ipcbus/src/udp_procbus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..55e09bf 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -126,6 +126,10 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                if b.len() != 8 + 4 + 8 {
+                    tracing::warn!(len = b.len(), "Malformed bus message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From 43f8c90bc123aeb1979093ad54ba59cd82b4aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 10/41] fix: a torn last record in the port map gave a bus id
 another port on every request

---
 crates/ipcbus/src/udp_procbus.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 55e09bf..53e432d 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -43,6 +43,8 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
             return Ok(saved_port);
         };
     }
+    // the end of an interrupted write would shift every later record
+    bytes.truncate(bytes.len() / 10 * 10);
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-- 
2.43.0


From 23f80406a38959eefa12a6be3ed9939b07194af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 11/41] fix: SpaceBuf::components returns the components

It mapped over a copy of the iterator and then looked for leftovers in the
original, so every non-empty space was reported as TailLength.
---
 crates/pkt/src/space.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..29dce08 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -232,8 +232,8 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
+        let mut iter = self.iter();
+        let res = iter.by_ref().map(Vec::from).collect();
         if iter.space.inner_bytes.is_empty() {
             Ok(res)
         } else {
-- 
2.43.0


From 3674744a87fbeca5e5d290492a87a7857ac5023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 12/41] fix: spaces hold at most MAX_SPACE_DEPTH components

try_push, try_push_front, try_prepend and check_components did not look at
the depth, so a ninth component was accepted (and silently dropped when the
space was turned into a rooted space).
---
 crates/pkt/src/space.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index 29dce08..73a4878 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -252,6 +252,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +268,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +289,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.iter().count() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -333,6 +342,7 @@ impl Space {
             }
         }
     }
+    #[allow(clippy::as_conversions)]
     pub const fn check_components(&self) -> Result<u8, SpaceError> {
         match self.checked_iter() {
             Err(e) => Err(e),
@@ -344,6 +354,9 @@ impl Space {
                         Err(e) => return Err(e),
                     }
                     i += 1;
+                    if i > MAX_SPACE_DEPTH as u8 {
+                        return Err(SpaceError::MaxDepth);
+                    }
                 }
                 Ok(i)
             }
-- 
2.43.0


From 5b70830b0c908e5676b4067abe058d47284a676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 13/41] fix: check the depth byte of a rooted space with eight
 components

With eight components the loop never compared it, so bytes claiming any depth
were accepted and iterating them indexed out of bounds.
---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..39550a6 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        // every missing component added one: the depth is checked for a full index as well
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 66efc532b79750920d93050f911de255eaf10147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 14/41] fix: checked subtraction of native integers

---
 crates/core/src/predicate/uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/predicate/uint.rs b/crates/core/src/predicate/uint.rs
index 1b7572e..00a2510 100644
--- a/crates/core/src/predicate/uint.rs
+++ b/crates/core/src/predicate/uint.rs
@@ -75,8 +75,8 @@ macro_rules! impl_native_uint {
             fn checked_add(self, other: Self) -> Option<Self> {
                 self.checked_add(other)
             }
-            fn checked_sub(self, _other: Self) -> Option<Self> {
-                todo!()
+            fn checked_sub(self, other: Self) -> Option<Self> {
+                self.checked_sub(other)
             }
 
             fn inc(self) -> Option<Self> {
-- 
2.43.0


From 6166ec6ccf0d388410f89e4a246a00b3015ab981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 15/41] fix: checked stamp arithmetic refuses deltas beyond the
 range of a stamp

---
 crates/pkt/src/stamp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pkt/src/stamp.rs b/crates/pkt/src/stamp.rs
index 154170a..2b4d473 100644
--- a/crates/pkt/src/stamp.rs
+++ b/crates/pkt/src/stamp.rs
@@ -59,8 +59,7 @@ pub fn stamp_add(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_add(plus))
 }
 pub fn checked_stamp_add(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let plus = dur.as_micros().min(u64::MAX.into());
-    let plus = unsafe { u64::try_from(plus).unwrap_unchecked() };
+    let plus = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_add(plus).map(Stamp::new)
 }
 /// saturating sub
@@ -70,8 +69,7 @@ pub fn stamp_sub(stamp: Stamp, dur: Duration) -> Stamp {
     Stamp::new(stamp.get().saturating_sub(sub))
 }
 pub fn checked_stamp_sub(stamp: Stamp, dur: Duration) -> Option<Stamp> {
-    let sub = dur.as_micros().min(u64::MAX.into());
-    let sub = unsafe { u64::try_from(sub).unwrap_unchecked() };
+    let sub = u64::try_from(dur.as_micros()).ok()?;
     stamp.get().checked_sub(sub).map(Stamp::new)
 }
 #[cfg(target_arch = "wasm32")]
-- 
2.43.0


From 06498e3bcb6db618d2b2bf50c0b4ea24a0bfee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 16/41] fix: a range from a stamp on includes that stamp

---
 crates/core/src/stamp_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_range.rs b/crates/core/src/stamp_range.rs
index 2acf6c6..a991b3c 100644
--- a/crates/core/src/stamp_range.rs
+++ b/crates/core/src/stamp_range.rs
@@ -44,7 +44,7 @@ impl StampRange {
     /// Ascending range include start
     pub const fn asc_from(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get(),
             end: u64::MAX,
         }
     }
-- 
2.43.0


From d2e4d577f13047bcfd77d479fd49020f78d058a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 17/41] fix: the range after the last stamp does not overflow

---
 crates/core/src/stamp_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_range.rs b/crates/core/src/stamp_range.rs
index a991b3c..19285f2 100644
--- a/crates/core/src/stamp_range.rs
+++ b/crates/core/src/stamp_range.rs
@@ -36,7 +36,7 @@ impl StampRange {
     /// Ascending range excluding start
     pub const fn after(start: Stamp) -> StampRange {
         StampRange {
-            start: start.get() + 1,
+            start: start.get().saturating_add(1),
             end: u64::MAX,
         }
     }
-- 
2.43.0


From a2f87ebb7fc4e8c03f6aa2574f8bf4d54b68c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 18/41] fix: a duration that is not utf8 is an error

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index 62f0415..defeec5 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -79,7 +79,7 @@ pub fn parse_duration_str(st: impl AsRef<[u8]>) -> anyhow::Result<Duration> {
     let mut fmts = DELTA_FORMATS.iter();
     for segm in st.as_ref().split_inclusive(|a| a.is_ascii_alphabetic()) {
         let (unit, digits) = segm.split_last().unwrap();
-        let count = u32::from_str(std::str::from_utf8(digits).unwrap())?;
+        let count = u32::from_str(std::str::from_utf8(digits)?)?;
         loop {
             let (ch, val) = fmts.next().with_context(|| match char_as_dur(*unit) {
                 Some(_) => format!("Out of order '{}'", *unit as char),
-- 
2.43.0


From 722aadb4c1f0b2a270f424fe9a04c3288c1576e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 19/41] fix: printed durations are computed exactly

---
 crates/core/src/stamp_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/stamp_fmt.rs b/crates/core/src/stamp_fmt.rs
index defeec5..41fa9f2 100644
--- a/crates/core/src/stamp_fmt.rs
+++ b/crates/core/src/stamp_fmt.rs
@@ -138,7 +138,7 @@ pub fn duration_to_string(
         return format!("0{}", formats.last().unwrap().0);
     }
     for (unit, dur) in &parts {
-        let c = delta.div_duration_f64(*dur).floor() as u32;
+        let c = (delta.as_nanos() / dur.as_nanos()) as u32;
         delta = delta.saturating_sub(*dur * c);
         if zeros || c != 0 {
             st.push_str(&format!("{delim}{}{}", c as u64, unit));
-- 
2.43.0


From 573a6d790fd251c425e2b442e5eac3be07bc3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 20/41] fix: a point header smaller than itself is not valid
 (its content was cut from the wrong place)

---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..71500f1 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -71,6 +71,9 @@ impl PointHeader {
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
         }
+        if self.upoint_size() < size_of::<PointHeader>() as u16 {
+            return Err(Error::ContentLen);
+        }
         let ok = match self.point_type {
             PointTypeFlags::DATA_POINT => true,
             PointTypeFlags::LINK_POINT => len >= size_of::<LinkPointHeader>(),
-- 
2.43.0


From 0c8f02e95bfea3e51a5acbb4688c544bc92e3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 21/41] fix: a malformed space in a packet is an error, not a
 failed assertion

---
 crates/pkt/src/point_ptr.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..0914fab 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -254,7 +254,6 @@ impl PointThinPtr {
         let isp_bytes = core::slice::from_ptr_range(ptr.add(is_offset)..ptr.add(data_offset));
         let data = core::slice::from_ptr_range(ptr.add(data_offset)..ptr.add(size.into()));
         let rspace = RootedSpace::from_unchecked(isp_bytes);
-        debug_assert!(rspace.check_components().is_ok(), "{rspace:?}");
         Tail {
             rspace,
             data,
-- 
2.43.0


From 9f1cea1407fb1cff61dbc22ab361ee887163c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 22/41] fix: the most data a keypoint holds leaves room for its
 link header

---
 crates/pkt/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/consts.rs b/crates/pkt/src/consts.rs
index 278179c..dd6940c 100644
--- a/crates/pkt/src/consts.rs
+++ b/crates/pkt/src/consts.rs
@@ -17,7 +17,7 @@ pub const MAX_CONTENT_SIZE: usize = MAX_POINT_SIZE - size_of::<PointHeader>();
 
 pub const MAX_DATA_SIZE: usize = MAX_CONTENT_SIZE;
 pub const MAX_LINKPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<LinkPointHeader>();
-pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_CONTENT_SIZE - size_of::<Signed>();
+pub const MAX_KEYPOINT_DATA_SIZE: usize = MAX_LINKPOINT_DATA_SIZE - size_of::<Signed>();
 pub const MAX_LINKS_LEN: usize = (MAX_POINT_SIZE - MAX_SPACENAME_SIZE) / size_of::<Link>();
 pub const MAX_SPACENAME_SIZE: usize = 242;
 pub const MAX_ROOTED_SPACENAME_SIZE: usize = MAX_SPACENAME_SIZE + 8;
-- 
2.43.0


From 8e56af73d53cca19b298ff868508ac3ed097168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 23/41] fix: a boxed packet is freed with the layout it was
 allocated with

---
 crates/pkt/src/netpkt/netpkt_ptr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/netpkt/netpkt_ptr.rs b/crates/pkt/src/netpkt/netpkt_ptr.rs
index 7483735..f60e54c 100644
--- a/crates/pkt/src/netpkt/netpkt_ptr.rs
+++ b/crates/pkt/src/netpkt/netpkt_ptr.rs
@@ -213,9 +213,10 @@ pub fn netpktbox_layout(
     pkt_header: &PointHeader,
 ) -> (std::alloc::Layout, <NetPktFatPtr as ptr::Pointee>::Metadata) {
     use std::alloc::Layout;
-    let clen: usize = pkt_header.padded_content_size().div_ceil(8).into();
+    // The layout of a NetPktFatPtr with this many content bytes, as used when a NetPktBox is dropped.
+    let clen: usize = pkt_header.padded_content_size().into();
     let layout = Layout::new::<PartialNetHeader>()
-        .extend(Layout::new::<u64>().repeat(clen).unwrap().0)
+        .extend(Layout::array::<u8>(clen).unwrap())
         .unwrap()
         .0
         .pad_to_align();
-- 
2.43.0


From ba6eeb8a847b025c1fb55c20e9033f608790dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 24/41] fix: a rerouted keypoint keeps all its segments

---
 crates/pkt/src/netpkt/netpkt_parts.rs | 9 +++++----
 crates/pkt/src/netpkt/reroute.rs      | 5 +++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/pkt/src/netpkt/netpkt_parts.rs b/crates/pkt/src/netpkt/netpkt_parts.rs
index 82f2f1c..2b9fc3f 100644
--- a/crates/pkt/src/netpkt/netpkt_parts.rs
+++ b/crates/pkt/src/netpkt/netpkt_parts.rs
@@ -54,12 +54,13 @@ impl<'a> NetPkt for NetPktParts<'a> {
     }
     #[inline(always)]
     fn byte_segments(&self) -> ByteSegments {
-        let segments = self.point_parts.pkt_segments();
-        let head = unsafe {
+        let mut segments = self.point_parts.pkt_segments();
+        // net header, hash, and point header lie next to each other. One segment for them leaves room to reroute a keypoint.
+        segments.0[0] = unsafe {
             let ptr: *const u8 = ptr::from_ref(self).cast();
-            core::slice::from_raw_parts(ptr, size_of::<NetPktHeader>() + size_of::<LkHash>())
+            core::slice::from_raw_parts(ptr, size_of::<PartialNetHeader>())
         };
-        segments.push_front(head)
+        segments
     }
 
     fn as_point(&self) -> &dyn Point {
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..a544894 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -44,6 +44,11 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     }
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
+        if segm.0[0].len() == size_of::<NetPktHeader>() {
+            // the header of another ReroutePkt
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
         segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
         segm.push_front(self.net_header.as_bytes())
     }
-- 
2.43.0


From d47ccc53642147f65fc1962131e6bed11de6ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 25/41] fix: a tree key without a public key is not valid

---
 crates/pkt/src/netpkt/tree_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pkt/src/netpkt/tree_order.rs b/crates/pkt/src/netpkt/tree_order.rs
index 9478d1d..f07d4de 100644
--- a/crates/pkt/src/netpkt/tree_order.rs
+++ b/crates/pkt/src/netpkt/tree_order.rs
@@ -132,7 +132,7 @@ pub struct KeyFixedHead {
 }
 impl TreeKey {
     pub fn from(b: &[u8]) -> Option<Self> {
-        const MIN_LEN: usize = size_of::<KeyFixedHead>() + 1;
+        const MIN_LEN: usize = size_of::<KeyFixedHead>() + size_of::<PubKey>();
         if b.len() < MIN_LEN {
             println!("Invalid treekey? {:?} {} <  {}", b, b.len(), MIN_LEN);
             None
-- 
2.43.0


From 948a63b9aab144b8475b900baec7c23031dd0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 26/41] fix: mutating a routing header does not depend on where
 it lies

---
 crates/core/src/mut_header.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index a0cba6f..837b646 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -28,14 +28,12 @@ impl NetHeaderMutate {
         set: NetPktHeader::cfrom([0; 32]),
     };
     pub fn mutate(&self, h: &mut NetPktHeader) {
-        let b: &mut [u128; 2] = unsafe { &mut *(h as *mut NetPktHeader as *mut [u128; 2]) };
-        let clear: &[u128; 2] =
-            unsafe { &*(&self.clear as *const NetPktHeader as *const [u128; 2]) };
-        let set: &[u128; 2] = unsafe { &*(&self.set as *const NetPktHeader as *const [u128; 2]) };
-        b[0] &= clear[0];
-        b[0] |= set[0];
-        b[1] &= clear[1];
-        b[1] |= set[1];
+        let mut b = h.cinto();
+        let (clear, set) = (self.clear.as_bytes(), self.set.as_bytes());
+        for (i, b) in b.iter_mut().enumerate() {
+            *b = (*b & clear[i]) | set[i];
+        }
+        *h = NetPktHeader::cfrom(b);
     }
     pub fn from_lst(lst: &[MutFieldExpr], scope: &dyn Scope) -> anyhow::Result<Self> {
         let mut m = NetHeaderMutate::DEFAULT;
-- 
2.43.0


From f70958e7d91fcf863018c3d803cd73888abebafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 27/41] fix: a routing field set to a value loses its old bits

---
 crates/core/src/mut_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/mut_header.rs b/crates/core/src/mut_header.rs
index 837b646..22f5ba0 100644
--- a/crates/core/src/mut_header.rs
+++ b/crates/core/src/mut_header.rs
@@ -81,7 +81,7 @@ pub fn mutate(op: TestOp, val: ABList, clear: &mut [u8], set: &mut [u8]) -> anyh
                 .into_exact_bytes()
                 .map_err(|_| anyhow::anyhow!("Eq expects exact bytes"))?;
             anyhow::ensure!(v.len() == clear.len());
-            clear.iter_mut().for_each(|v| *v = 255);
+            clear.iter_mut().for_each(|v| *v = 0);
             set.iter_mut().zip(v).for_each(|(set, val)| *set = val);
         }
         e => anyhow::bail!("op not yet supported {}", e),
-- 
2.43.0


From 8f6c1a69f03d6b5379608f00a6ee1b3ac3f690fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 28/41] fix: >= and <= on a short value, an empty one or the
 text of a key compare with that value

---
 crates/core/src/predicate/exprs.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index f6f2992..1bd7ff1 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -106,9 +106,10 @@ impl ExtPredicate {
         let ExtPredicate { kind, op, mut val } = self;
         let once_op: Option<TestOp> = match op {
             ExtendedTestOp::GreaterEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't >= this value"));
-                }
+                val = kind
+                    .exact_value(&val)
+                    .ok_or(TestEvalErr::Err("Can't >= this value"))?
+                    .into();
                 if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
                     Some(TestOp::Greater)
                 } else {
@@ -116,9 +117,10 @@ impl ExtPredicate {
                 }
             }
             ExtendedTestOp::LessEq => {
-                if val.len() != 1 {
-                    return Err(TestEvalErr::Err("Can't <= this value"));
-                }
+                val = kind
+                    .exact_value(&val)
+                    .ok_or(TestEvalErr::Err("Can't <= this value"))?
+                    .into();
                 if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
                     Some(TestOp::Less)
                 } else {
@@ -216,7 +218,7 @@ impl ToABE for Predicate {
 }
 
 use crate::eval::*;
-use linkspace_pkt::{FieldEnum, SpaceBuf, AB};
+use linkspace_pkt::{Domain, FieldEnum, LkHash, SpaceBuf, AB};
 use parse_display::{Display, FromStr};
 
 use crate::predicate::TestOp;
@@ -267,6 +269,17 @@ impl RuleType {
         self.try_canonical(abl.clone())
             .unwrap_or_else(|_| abl.clone().into())
     }
+    /// The bytes a value has in a field of fixed size.
+    fn exact_value(self, abl: &ABList) -> Option<Vec<u8>> {
+        let bytes = match self {
+            RuleType::Field(FieldEnum::DomainF) => Domain::try_from(abl.clone()).ok()?.0.to_vec(),
+            RuleType::Field(FieldEnum::GroupIDF | FieldEnum::PubKeyF | FieldEnum::PktHashF) => {
+                LkHash::try_from(abl.clone()).ok()?.0.to_vec()
+            }
+            _ => abl.as_exact_bytes().ok()?.to_vec(),
+        };
+        (self.fixed_size() == Some(bytes.len())).then_some(bytes)
+    }
     pub fn fixed_size(self) -> Option<usize> {
         match self {
             RuleType::Field(f) => f.fixed_size(),
-- 
2.43.0


From 30feda38207ab941545425e8033441a3ab3ed55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 29/41] fix: a mask on the receive stamp is refused instead of
 ignored

---
 crates/core/src/predicate/pkt_predicates.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..63a321b 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -316,7 +316,13 @@ impl PktPredicates {
                     }
                 }
             }
-            RuleType::RecvStamp => self.recv_stamp.try_add(op, U64::try_from(val)?.get())?,
+            RuleType::RecvStamp => {
+                ensure!(
+                    !matches!(op, TestOp::Mask0 | TestOp::Mask1),
+                    "recv does not support masks"
+                );
+                self.recv_stamp.try_add(op, U64::try_from(val)?.get())?
+            }
             RuleType::SpacePrefix => {
                 ensure!(op == TestOp::Equal, "prefix only supports equallity ");
                 let sp = SpaceBuf::try_from(val)?;
-- 
2.43.0


From c14439874abe79ac4fb1cac5c0b9cae3ed72b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 30/41] fix: a predicate on a field without an index is an
 error, not a panic

---
 crates/core/src/predicate/pkt_predicates.rs | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 63a321b..4ff1459 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -12,7 +12,7 @@ use crate::{
     predicate::{bitset_test::BitTestSet, exprs::RuleType},
     prelude::ExtPredicate,
 };
-use anyhow::{ensure, Context};
+use anyhow::{bail, ensure, Context};
 
 use super::{
     exprs::{Predicate, QScope},
@@ -280,8 +280,6 @@ impl PktPredicates {
                     FieldEnum::PubKeyF => {
                         self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
                     }
-                    FieldEnum::SignatureF => todo!(),
-                    FieldEnum::DataF => todo!(),
                     FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
                     FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
                     FieldEnum::VarStampF => {
@@ -299,15 +297,17 @@ impl PktPredicates {
                     FieldEnum::VarUBits3F => {
                         self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
                     }
-                    FieldEnum::RSpaceNameF => todo!(),
-                    FieldEnum::SpaceComp0F => todo!(),
-                    FieldEnum::SpaceComp1F => todo!(),
-                    FieldEnum::SpaceComp2F => todo!(),
-                    FieldEnum::SpaceComp3F => todo!(),
-                    FieldEnum::SpaceComp4F => todo!(),
-                    FieldEnum::SpaceComp5F => todo!(),
-                    FieldEnum::SpaceComp6F => todo!(),
-                    FieldEnum::SpaceComp7F => todo!(),
+                    FieldEnum::SignatureF
+                    | FieldEnum::DataF
+                    | FieldEnum::RSpaceNameF
+                    | FieldEnum::SpaceComp0F
+                    | FieldEnum::SpaceComp1F
+                    | FieldEnum::SpaceComp2F
+                    | FieldEnum::SpaceComp3F
+                    | FieldEnum::SpaceComp4F
+                    | FieldEnum::SpaceComp5F
+                    | FieldEnum::SpaceComp6F
+                    | FieldEnum::SpaceComp7F => bail!("predicates on '{f}' are not supported"),
                     FieldEnum::DataSizeF => {
                         self.data_size.try_add(op, U16::try_from(val)?.get())?
                     }
-- 
2.43.0


From b76df837438d9c51bfb94e380c57ad5bfcd83e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 31/41] fix: >= the least and <= the largest value of a field
 still require that field

---
 crates/core/src/predicate/exprs.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/predicate/exprs.rs b/crates/core/src/predicate/exprs.rs
index 1bd7ff1..f110e61 100644
--- a/crates/core/src/predicate/exprs.rs
+++ b/crates/core/src/predicate/exprs.rs
@@ -104,16 +104,16 @@ impl From<Predicate> for ExtPredicate {
 impl ExtPredicate {
     pub fn try_iter(self) -> Result<impl Iterator<Item = Predicate>, TestEvalErr> {
         let ExtPredicate { kind, op, mut val } = self;
-        let once_op: Option<TestOp> = match op {
+        let op = match op {
             ExtendedTestOp::GreaterEq => {
                 val = kind
                     .exact_value(&val)
                     .ok_or(TestEvalErr::Err("Can't >= this value"))?
                     .into();
                 if super::uint::u8_be::sub_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Greater)
+                    TestOp::Greater
                 } else {
-                    None
+                    TestOp::Nop // every value of the field
                 }
             }
             ExtendedTestOp::LessEq => {
@@ -122,12 +122,12 @@ impl ExtPredicate {
                     .ok_or(TestEvalErr::Err("Can't <= this value"))?
                     .into();
                 if super::uint::u8_be::add_one(&mut val.get_mut()[0].1).is_some() {
-                    Some(TestOp::Less)
+                    TestOp::Less
                 } else {
-                    None
+                    TestOp::Nop
                 }
             }
-            ExtendedTestOp::Op(op) => Some(op),
+            ExtendedTestOp::Op(op) => op,
             ExtendedTestOp::TailMask | ExtendedTestOp::HeadMask => {
                 let e = || TestEvalErr::Err("head/tail mask can only apply to fixed len fields");
                 let size = kind.fixed_size().ok_or(e())?;
@@ -166,9 +166,7 @@ impl ExtPredicate {
                 ));
             }
         };
-        Ok(Either::Left(
-            once_op.map(|op| Predicate { kind, op, val }).into_iter(),
-        ))
+        Ok(Either::Left(std::iter::once(Predicate { kind, op, val })))
     }
 }
 
-- 
2.43.0


From e37e9e9cd24c290a97138fec679f924d37867d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 32/41] fix: predicates made by functions also require the
 field they name

---
 crates/core/src/predicate/builder.rs        | 11 +++++++++++
 crates/core/src/predicate/pkt_predicates.rs |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/predicate/builder.rs b/crates/core/src/predicate/builder.rs
index 994d7f9..339876a 100644
--- a/crates/core/src/predicate/builder.rs
+++ b/crates/core/src/predicate/builder.rs
@@ -14,6 +14,7 @@ impl PktPredicates {
         let mut r = Self::DEFAULT.group(group).unwrap().domain(domain).unwrap();
         r.prefix(space).unwrap();
         if exact {
+            r.require(FieldEnum::DepthF).unwrap();
             r.depth
                 .try_add(TestOp::Equal, *r.rspace_prefix.space_depth())
                 .unwrap();
@@ -26,6 +27,7 @@ impl PktPredicates {
     }
     pub fn space(mut self, space: impl AsRef<Space>) -> anyhow::Result<Self> {
         self.prefix(space)?;
+        self.require(FieldEnum::DepthF)?;
         self.depth
             .try_add(TestOp::Equal, *self.rspace_prefix.space_depth())?;
         Ok(self)
@@ -45,20 +47,29 @@ impl PktPredicates {
         Ok(())
     }
     pub fn key(mut self, k: PubKey) -> anyhow::Result<Self> {
+        self.require(FieldEnum::PubKeyF)?;
         self.pubkey.try_add(TestOp::Equal, k.into())?;
         Ok(self)
     }
     pub fn group(mut self, g: GroupID) -> anyhow::Result<Self> {
+        self.require(FieldEnum::GroupIDF)?;
         self.group.try_add(TestOp::Equal, g.into())?;
         Ok(self)
     }
     pub fn domain(mut self, domain: impl AsRef<[u8]>) -> anyhow::Result<Self> {
         let domain = Domain::try_fit_byte_slice(domain.as_ref())?.uint().get();
+        self.require(FieldEnum::DomainF)?;
         self.domain.try_add(TestOp::Equal, domain)?;
         Ok(self)
     }
     pub fn create_before(mut self, create: Stamp) -> anyhow::Result<Self> {
+        self.require(FieldEnum::CreateF)?;
         self.create.try_add(TestOp::Less, create.get())?;
         Ok(self)
     }
+    /// only packets that have the field
+    pub(crate) fn require(&mut self, field: FieldEnum) -> anyhow::Result<()> {
+        self.pkt_types
+            .try_add(TestOp::Mask1, field.info().pkts.bits())
+    }
 }
diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 4ff1459..5d91a64 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -243,8 +243,7 @@ impl PktPredicates {
         let op = *op;
         match kind {
             RuleType::Field(f) => {
-                self.pkt_types
-                    .try_add(TestOp::Mask1, f.info().pkts.bits())
+                self.require(*f)
                     .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 match f {
                     FieldEnum::PktTypeF => self.pkt_types.try_add(op, U8::try_from(val)?.0)?,
-- 
2.43.0


From b013a3401aa7ed1f72f908fdf94a2a261d9bad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 33/41] fix: watch counters stay at their last value

---
 crates/core/src/matcher/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 84046c6..bf5257d 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -158,8 +158,8 @@ impl<C> WatchEntry<C> {
         }
         let accepted_nth = self.i_new.test(self.nth_new) && self.i_query.test(self.nth_query);
         tracing::trace!(accepted_nth, "accepted");
-        self.nth_new += 1;
-        self.nth_query += 1;
+        self.nth_new = self.nth_new.saturating_add(1);
+        self.nth_query = self.nth_query.saturating_add(1);
         (
             accepted_nth,
             if self.nth_new > self.i_new.bound.high || self.nth_query > self.i_query.bound.high {
-- 
2.43.0


From 952cac1e543a2de4e65f1391fce45f284a35358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 34/41] fix: closing watches by a prefix that no watch is named
 exactly

---
 crates/core/src/matcher/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index bf5257d..f46d080 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -215,23 +215,23 @@ impl<C> Matcher<C> {
             .watch_entries
             .binary_search_by_key(&id, |e| &e.query_id)
         {
-            Ok(i) => {
-                if !range {
-                    let w = self.watch_entries.remove(i);
-                    on_drop(w);
-                    1
-                } else {
-                    let c = self.watch_entries[i..]
-                        .iter()
-                        .take_while(|v| v.query_id.starts_with(id))
-                        .count();
-                    for w in self.watch_entries.drain(i..c + i) {
-                        on_drop(w)
-                    }
-                    c
+            Ok(i) if !range => {
+                let w = self.watch_entries.remove(i);
+                on_drop(w);
+                1
+            }
+            Err(_) if !range => 0,
+            // no watch needs to be named exactly as the prefix
+            Ok(i) | Err(i) => {
+                let c = self.watch_entries[i..]
+                    .iter()
+                    .take_while(|v| v.query_id.starts_with(id))
+                    .count();
+                for w in self.watch_entries.drain(i..c + i) {
+                    on_drop(w)
                 }
+                c
             }
-            Err(_) => 0,
         }
     }
     pub fn trigger(
-- 
2.43.0


From 942395801a5d0bc1b562bfed71a33b5da3bb40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 35/41] fix: a save in the microsecond of the last stamp takes
 the next stamp

---
 crates/core/src/env/lmdb/save.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..708cd7c 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -29,9 +29,8 @@ impl LMDBEnv {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
                 if last > start {
                     eprintln!("db log saved entries from the future? - this could become undefined behavior");
-
-                    start = last + 1;
                 }
+                start = start.max(last + 1);
             }
             Ok((None, _)) => unreachable!(),
             Err(Error::NotFound) => {}
-- 
2.43.0


From afaef0bfc7d601fa2b20924594918e16db89d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 36/41] fix: tree queries do not skip branches of the wanted
 depth

---
 crates/core/src/env/lmdb/tree_iter.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..a21369d 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -91,12 +91,14 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
+                        }
+                        (true, false, _)
+                            if at.btree_key.space().space_bytes()
+                                < self.req.rspace.space_bytes() =>
+                        {
+                            tracing::trace!("Prefix still ahead at this depth");
+                            jump.push(depth.val.unwrap_or(255));
                         }
                         (true, false, _) => {
                             jump.push(
-- 
2.43.0


From 4681bda499f11a8291d07a469fba49cf62cb2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 37/41] fix: log queries keep to the bounds on the receive
 stamp

---
 crates/core/src/env/lmdb/queries.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..c037fd4 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -157,7 +157,10 @@ impl<'txn> ReadTxn<'txn> {
         let (it, recv) = compile_predicates(rules);
         let tests = it.map(|(t, _)| t).collect::<Vec<_>>().into_boxed_slice();
         let log_range = recv.stamp_range(ord.is_asc());
-        let it = self.log_range(log_range);
+        // the range only says where to start and in what direction
+        let it = self
+            .log_range(log_range)
+            .filter(move |pkt| recv.test(pkt.recv.get()));
 
         let nth_find_set = rules.state.i_branch.iter(0);
         let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
-- 
2.43.0


From fa8a4b70fc6e37133309aca35e70ac87ba54ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 38/41] fix: a tree query that no depth can match gives nothing

---
 crates/core/src/env/lmdb/queries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index c037fd4..b393714 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,8 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        // without a bound there is no position that matches
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From c98466a64f5dfce65c6e888d06cc6f0d2c20aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 39/41] fix: a tree query ends after the last branch it may
 look at

---
 crates/core/src/env/lmdb/queries.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index b393714..f9d23da 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -117,6 +117,8 @@ impl<'txn> ReadTxn<'txn> {
                         None => {
                             key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
                             yields = nth_find_set.iter(0);
+                            // without a next branch the cursor is at one that does not match
+                            cnt = key_ptr.is_some();
                         }
                     }
                 }
-- 
2.43.0


From 090dc20990bb3d89c697a28ceb219e5eac9a376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:50 +0000
Subject: [PATCH 40/41] fix: a tree query for a key missed the points deeper
 than its prefix (the key bounded the wrong part of a position)

---
 crates/core/src/predicate/treekey.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..6766e8c 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -29,7 +29,12 @@ pub struct TreeKeys {
 impl TreeKeys {
     pub fn lower_bound(&self) -> anyhow::Result<Vec<u8>> {
         let mut btree_key = vec![];
-        let (group, domain, depth, rspace, pubkey) = (
+        // a key's public key comes after its whole space, which may go on after the prefix: it bounds nothing
+        self.pubkey
+            .info(UInt::MIN)
+            .val
+            .context("Empty pubkey set")?;
+        let (group, domain, depth, rspace) = (
             self.group.info(UInt::MIN).val.context("Empty group set")?,
             self.domain
                 .info(UInt::MIN)
@@ -37,17 +42,12 @@ impl TreeKeys {
                 .context("Empty domain set")?,
             self.depth.info(0).val.context("Empty depthset")?,
             &self.rspace,
-            self.pubkey
-                .info(UInt::MIN)
-                .val
-                .context("Empty pubkey set")?,
         );
-        tracing::trace!(?group,?domain,?depth,%rspace,?pubkey, "lowerbounds");
+        tracing::trace!(?group,?domain,?depth,%rspace, "lowerbounds");
         btree_key.extend_from_slice(&group.to_be_bytes::<32>());
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
         Ok(btree_key)
     }
 }
-- 
2.43.0


From 5c737190afd9ae693aa03a62c8cbd466ba171400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:05 +0000
Subject: [PATCH 41/41] fix: a tree query for one create stamp in descending
 order missed it behind later ones

---
 crates/core/src/env/lmdb/db.rs        |  2 +-
 crates/core/src/env/lmdb/tree_iter.rs | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..822db9a 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -284,7 +284,7 @@ impl<'txn> HashCursor<'txn> {
 
 pub struct IterDup<'txn> {
     cur: RoCursor<'txn>,
-    value_asc: bool,
+    pub(super) value_asc: bool,
 }
 impl<'o> Debug for IterDup<'o> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index a21369d..522232d 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -26,11 +26,24 @@ impl<'txn> TreeKeysIter<'txn> {
             .map(spd)
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
+    fn stamp_cmp(&self, at: &TreeEntryRef<'txn>) -> IterCmp {
+        let range = self.req.cstamp;
+        let cmp = range.iter_cmp(at.create());
+        // a range of one stamp counts as ascending, whatever the order of the entries
+        if range.start != range.end || self.iter_dup.value_asc {
+            return cmp;
+        }
+        match cmp {
+            IterCmp::Pre => IterCmp::Post,
+            IterCmp::In => IterCmp::In,
+            IterCmp::Post => IterCmp::Pre,
+        }
+    }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
+        let mut cmp = self.stamp_cmp(at);
         while cmp == IterCmp::Pre {
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
+            cmp = self.stamp_cmp(at);
         }
         if cmp == IterCmp::In {
             Ok(())
-- 
2.43.0

