From 3985a662782ca8cfbeb47d8697f8d7b39037f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 1/3] fix: check range and char boundaries when inserting or
 replacing with an empty text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

replace_range returned Ok before validating anything when the range and the
replacement were both empty, so e.g. try_insert_str(1, "") on "🤔" or
replace_range(100..100, "") succeeded instead of reporting Utf8/OutOfBounds.
---
 src/arraystring.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..77d9f60 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,9 +861,6 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
-- 
2.43.0


From 117bf587ccaa679ddfd3d5171317d2ee8e9ded41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 2/3] fix: deserialize strings that the deserializer does not
 lend

Deserialize went through <&str>, which only accepts borrowed strings, so
anything containing an escape (or any reader-based input) failed and a
serialized string with a quote or newline could not be read back.
---
 src/integration.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..79b0e82 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -78,10 +78,38 @@ mod diesel_impl {
 #[cfg(feature = "serde-traits")]
 mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
+    use core::{fmt, marker::PhantomData, str};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use serde::de::{Error, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
+    /// Accepts every form of string a `Deserializer` may supply, not only the borrowed one
+    struct ArrayStringVisitor<const N: usize>(PhantomData<ArrayString<N>>)
+    where
+        ArrayString<N>: ValidCapacity;
+
+    impl<'a, const N: usize> Visitor<'a> for ArrayStringVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(v))
+        }
+
+        fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+            str::from_utf8(v)
+                .map(ArrayString::from_str_truncate)
+                .map_err(|_| E::invalid_value(Unexpected::Bytes(v), &self))
+        }
+    }
+
     impl<const N: usize> Serialize for ArrayString<N>
     where
         Self: ValidCapacity,
@@ -100,7 +128,7 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(ArrayStringVisitor(PhantomData))
         }
     }
 
-- 
2.43.0


From 0911e9f4046de8a6dfb84bd683c2260a5f394841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 3/3] fix: SmallString has the documented size of three words

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2750339..f2687ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ pub use crate::error::Error;
 /// 24 bytes in 64 bits architecture
 ///
 /// 12 bytes in 32 bits architecture
-pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 }>;
+pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 - 1 }>;
 
 /// Biggest `ArrayString<N>` supported (255 bytes of text)
 pub type MaxString = ArrayString<255>;
-- 
2.43.0

