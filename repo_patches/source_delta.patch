From f9e92b4d24bd06896aad3a19bdc07a52fc1de391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 1/8] fix: only match the path `*` with the route `*`

The generated regex was not anchored, so `#[options("*")]` accepted every
path containing an asterisk, and tripped the overlapping-regexes assertion
when another route accepted the path, too.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From faa37a897c17bec46ea284fc231fae5b38342d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 2/8] fix: allow declaring the route `*` after other routes

Looking for an overlap of a regular path with `*` panicked.
---
 derive/src/from_request/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..972ca57 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -506,6 +506,10 @@ impl RoutePath {
                 return None;
             }
         }
+        if other.segments.is_empty() {
+            // only other is "*"
+            return None;
+        }
 
         let mut overlap = String::new();
         let mut saw_rest = false;
-- 
2.43.0


From 8ae63673d0e68898a41a874b75655125475b7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 3/8] fix: do not report an overlap of placeholders with empty
 segments

A placeholder matches at least one character, so `/users/{id}` and
`/users/` do not overlap and may both be declared.
---
 derive/src/from_request/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 972ca57..34ecc52 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -535,6 +535,10 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // placeholders do not match empty segments
+                        return None;
+                    }
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From 8621a6219efd41a5a6eeaf6b5244f76c16cb6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 4/8] fix: support optional query parameters as documented

A `#[query_params]` field of type `Option<T>` is documented to be `None`
when there are no query parameters, but serde_urlencoded does not support
options as the outermost type, so every request to such a route was
rejected as 400 Bad Request.
---
 derive/src/from_request/mod.rs |   2 +-
 src/lib.rs                     |   2 +
 src/query.rs                   | 103 +++++++++++++++++++++++++++++++++
 3 files changed, 106 insertions(+), 1 deletion(-)
 create mode 100644 src/query.rs

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..12bd528 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -725,7 +725,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match hyperdrive::query::from_str::<#ty>(raw_query) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..08ea3e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,6 +153,8 @@ TODO:
 
 pub mod body;
 mod error;
+#[doc(hidden)]
+pub mod query; // only used by the generated code internally
 mod readme;
 pub mod service;
 
diff --git a/src/query.rs b/src/query.rs
new file mode 100644
index 0000000..3784022
--- /dev/null
+++ b/src/query.rs
@@ -0,0 +1,103 @@
+//! Deserialization of query parameters (used by the generated code).
+
+use serde::de::{Deserialize, Deserializer, Visitor};
+use std::marker::PhantomData;
+
+/// Deserializes `T` from the query part of a request URI.
+///
+/// This is `serde_urlencoded::from_str`, except that it knows about optional
+/// query parameters: An `Option<T>` is `None` if there are no query parameters,
+/// while `serde_urlencoded` does not support `Option` as the outermost type.
+pub fn from_str<'de, T>(query: &'de str) -> Result<T, serde_urlencoded::de::Error>
+where
+    T: Deserialize<'de>,
+{
+    if query.is_empty() {
+        serde_urlencoded::from_str::<Wrapper<T, Absent>>(query).map(|w| w.0)
+    } else {
+        serde_urlencoded::from_str::<Wrapper<T, Present>>(query).map(|w| w.0)
+    }
+}
+
+/// Whether there are any query parameters.
+trait Presence {
+    const PRESENT: bool;
+}
+
+enum Absent {}
+
+impl Presence for Absent {
+    const PRESENT: bool = false;
+}
+
+enum Present {}
+
+impl Presence for Present {
+    const PRESENT: bool = true;
+}
+
+/// Deserializes `T` by passing it an `OptionDeserializer`.
+struct Wrapper<T, P>(T, PhantomData<P>);
+
+impl<'de, T: Deserialize<'de>, P: Presence> Deserialize<'de> for Wrapper<T, P> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        T::deserialize(OptionDeserializer(deserializer, PhantomData::<P>))
+            .map(|t| Wrapper(t, PhantomData))
+    }
+}
+
+/// Forwards everything but `deserialize_option` to the inner deserializer.
+struct OptionDeserializer<D, P>(D, PhantomData<P>);
+
+macro_rules! forward {
+    ($( $method:ident ( $($arg:ident: $ty:ty),* ), )+) => {$(
+        fn $method<V: Visitor<'de>>(self, $($arg: $ty,)* visitor: V) -> Result<V::Value, D::Error> {
+            self.0.$method($($arg,)* visitor)
+        }
+    )+};
+}
+
+impl<'de, D: Deserializer<'de>, P: Presence> Deserializer<'de> for OptionDeserializer<D, P> {
+    type Error = D::Error;
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        if P::PRESENT {
+            visitor.visit_some(self.0)
+        } else {
+            visitor.visit_none()
+        }
+    }
+
+    forward! {
+        deserialize_any(),
+        deserialize_bool(),
+        deserialize_i8(),
+        deserialize_i16(),
+        deserialize_i32(),
+        deserialize_i64(),
+        deserialize_i128(),
+        deserialize_u8(),
+        deserialize_u16(),
+        deserialize_u32(),
+        deserialize_u64(),
+        deserialize_u128(),
+        deserialize_f32(),
+        deserialize_f64(),
+        deserialize_char(),
+        deserialize_str(),
+        deserialize_string(),
+        deserialize_bytes(),
+        deserialize_byte_buf(),
+        deserialize_unit(),
+        deserialize_unit_struct(name: &'static str),
+        deserialize_newtype_struct(name: &'static str),
+        deserialize_seq(),
+        deserialize_tuple(len: usize),
+        deserialize_tuple_struct(name: &'static str, len: usize),
+        deserialize_map(),
+        deserialize_struct(name: &'static str, fields: &'static [&'static str]),
+        deserialize_enum(name: &'static str, variants: &'static [&'static str]),
+        deserialize_identifier(),
+        deserialize_ignored_any(),
+    }
+}
-- 
2.43.0


From 58d91d897d88875dc53dbea063143ab83abe1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 5/8] fix: support generic types in #[derive(RequestContext)]

The derived impls demanded that the types of all fields that mention a type
parameter implement the same traits, so a context like `Ctx<T> { db: T }`
was unusable.
---
 derive/src/request_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..0ed3be5 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,13 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // The generated impls only hand out references, so they hold for all type
+    // parameters.
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From a28b6f11870339edb0d1fce380a988a73e5c5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 6/8] fix: derive(FromRequest): ignore attributes of other
 tools, and accept any type in #[context]

Every attribute was parsed as a Meta item before it was known whether it is one of ours, so
`#[allow(clippy::all)]` or `#[rustfmt::skip]` anywhere in the item, and `#[context(path::Type<T>)]`,
made the derive panic.
---
 derive/src/from_request/parse.rs | 64 +++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 34ecc52..7abd4fd 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -20,17 +20,30 @@ fn our_attrs() -> impl Iterator<Item = &'static str> {
         .cloned()
 }
 
-/// Returns whether `name` is an attribute used by this custom derive.
-fn known_attr(name: &Ident) -> bool {
-    our_attrs().find(|s| name == s).is_some()
-}
-
 /// Returns whether `name` names an HTTP method attribute (lowercase only).
 fn is_method(name: &Ident) -> bool {
     let name = name.to_string().to_lowercase();
     METHOD_ATTRS.iter().cloned().find(|a| name == *a).is_some()
 }
 
+/// If `attr` is an attribute used by this custom derive, returns its name.
+///
+/// All other attributes belong to the compiler or to other tools. They must be ignored, and don't
+/// have to be parseable as a `Meta` (eg. `#[allow(clippy::all)]`).
+fn our_attr(attr: &Attribute) -> Option<Ident> {
+    our_attrs()
+        .find(|name| attr.path.is_ident(*name))
+        .map(|name| Ident::new(name, Span::call_site()))
+}
+
+/// Parses an attribute used by this custom derive.
+fn parse_our_meta(name: &Ident, attr: &Attribute) -> Meta {
+    match attr.parse_meta() {
+        Ok(meta) => meta,
+        Err(e) => panic!("invalid `#[{}]` attribute: {}", name, e),
+    }
+}
+
 /// Parsed attributes attached to the item that does `#[derive(FromRequest)]`.
 pub struct ItemData {
     name: Ident,
@@ -42,11 +55,14 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
+            let name = match our_attr(attr) {
+                Some(name) => name,
+                None => continue,
+            };
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
-            } else if known_attr(&name) && !is_struct {
+            } else if !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
                     name
@@ -105,18 +121,21 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
-            let meta = attr.parse_meta().unwrap();
-            match &meta {
-                Meta::List(list) if is_method(&meta.name()) => {
-                    routes.push(Route::parse(
-                        meta.name(),
+            let name = match our_attr(attr) {
+                Some(name) => name,
+                None => continue,
+            };
+            if is_method(&name) {
+                match parse_our_meta(&name, attr) {
+                    Meta::List(list) => routes.push(Route::parse(
+                        name,
                         &list.nested.iter().collect::<Vec<_>>(),
-                    ));
-                }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
+                    )),
+                    _ if !is_struct => panic!("`#[{}]` is not valid on enum variants", name),
+                    _ => {}
                 }
-                _ => {}
+            } else if !is_struct {
+                panic!("`#[{}]` is not valid on enum variants", name)
             }
         }
 
@@ -184,7 +203,11 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
-                let meta = attr.parse_meta().unwrap();
+                let name = match our_attr(attr) {
+                    Some(name) => name,
+                    None => continue,
+                };
+                let meta = parse_our_meta(&name, attr);
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
                         if let Some(ident) = &field.ident {
@@ -225,10 +248,7 @@ impl VariantData {
                             FieldKind::Forward,
                         );
                     }
-                    _ if known_attr(&meta.name()) => {
-                        panic!("#[{}] is not valid on fields", meta.name());
-                    }
-                    _ => {}
+                    _ => panic!("#[{}] is not valid on fields", name),
                 }
             }
 
-- 
2.43.0


From 75cc841b515927ea177dfc7064a93fddb37d7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 7/8] fix: derive(FromRequest): reject malformed route
 attributes on structs

`#[get]` and `#[get = "/"]` were rejected on enum variants, but silently ignored on structs.
---
 derive/src/from_request/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 7abd4fd..b91a014 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -131,8 +131,7 @@ impl VariantData {
                         name,
                         &list.nested.iter().collect::<Vec<_>>(),
                     )),
-                    _ if !is_struct => panic!("`#[{}]` is not valid on enum variants", name),
-                    _ => {}
+                    _ => Route::invalid_syntax(),
                 }
             } else if !is_struct {
                 panic!("`#[{}]` is not valid on enum variants", name)
@@ -393,12 +392,14 @@ impl Route {
                     path: RoutePath::parse(path),
                 }
             }
-            _ => {
-                panic!("route attributes must be of the form `#[method(\"/path/to/match\")]`");
-            }
+            _ => Self::invalid_syntax(),
         }
     }
 
+    fn invalid_syntax() -> ! {
+        panic!("route attributes must be of the form `#[method(\"/path/to/match\")]`");
+    }
+
     pub fn placeholders(&self) -> &[Ident] {
         &self.path.placeholders
     }
-- 
2.43.0


From 2051bff23904391d7afa607f28683c03f3d6376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 8/8] fix: CatchUnwind: pass on the readiness of the inner
 service

The default `poll_ready` is always ready, so an inner service that applies backpressure was called
although it was not ready, and errors of its `poll_ready` were lost.
---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0

