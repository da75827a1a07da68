From 32c0d0c27fa0ba5ade3d2494b9c436f249de0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 01/71] Expose private parts to the conformance driver under
 cfg(tailcall_verif)

---
 src/core/auth/mod.rs          | 10 ++++++++++
 src/core/data_loader/cache.rs |  7 +++++++
 src/core/data_loader/mod.rs   |  8 ++++++++
 src/core/http/mod.rs          |  6 ++++++
 src/core/mod.rs               |  7 +++++++
 src/core/rest/mod.rs          | 10 ++++++++++
 6 files changed, 48 insertions(+)

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 0f0ec36..7affa33 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -3,3 +3,13 @@ pub mod error;
 pub mod jwt;
 mod verification;
 pub mod verify;
+
+/// Private parts, exposed to the conformance driver only.
+#[cfg(tailcall_verif)]
+pub mod verif {
+    pub use super::basic::*;
+    pub use super::error::*;
+    pub use super::jwt::*;
+    pub use super::verification::*;
+    pub use super::verify::*;
+}
diff --git a/src/core/data_loader/cache.rs b/src/core/data_loader/cache.rs
index 30d00d6..f2053b0 100644
--- a/src/core/data_loader/cache.rs
+++ b/src/core/data_loader/cache.rs
@@ -132,6 +132,13 @@ where
     }
 }
 
+#[cfg(tailcall_verif)]
+impl LruCache {
+    pub fn with_capacity(cap: usize) -> Self {
+        Self { cap }
+    }
+}
+
 pub struct LruCacheImpl<K, V>(lru::LruCache<K, V>);
 
 impl<K, V> CacheStorage for LruCacheImpl<K, V>
diff --git a/src/core/data_loader/mod.rs b/src/core/data_loader/mod.rs
index 56af74d..11516c7 100644
--- a/src/core/data_loader/mod.rs
+++ b/src/core/data_loader/mod.rs
@@ -10,3 +10,11 @@ pub use cache::LruCache;
 pub use data_loader::DataLoader;
 pub use dedupe::DedupeResult;
 pub use loader::Loader;
+
+/// Private parts, exposed to the conformance driver only.
+#[cfg(tailcall_verif)]
+pub mod verif {
+    pub use super::cache::{HashMapCache, NoCache};
+    pub use super::factory::CacheFactory;
+    pub use super::storage::CacheStorage;
+}
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 816f0fc..f06c7d4 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -24,3 +24,9 @@ mod transformations;
 
 pub static TAILCALL_HTTPS_ORIGIN: HeaderValue = HeaderValue::from_static("https://tailcall.run");
 pub static TAILCALL_HTTP_ORIGIN: HeaderValue = HeaderValue::from_static("http://tailcall.run");
+
+/// Private parts, exposed to the conformance driver only.
+#[cfg(tailcall_verif)]
+pub mod verif {
+    pub use super::transformations::{BodyBatching, QueryBatching};
+}
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 702d5a0..8993ac9 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -60,6 +60,13 @@ pub use tailcall_macros as macros;
 pub use transform::Transform;
 pub use wrapping_type::Type;
 
+/// Private parts, exposed to the conformance driver only.
+#[cfg(tailcall_verif)]
+pub mod verif {
+    pub use super::auth::verif as auth;
+    pub use super::serde_value_ext::*;
+}
+
 const DEFAULT_VERIFY_SSL: bool = true;
 pub const fn default_verify_ssl() -> Option<bool> {
     Some(DEFAULT_VERIFY_SSL)
diff --git a/src/core/rest/mod.rs b/src/core/rest/mod.rs
index 2a086d5..fa1989d 100644
--- a/src/core/rest/mod.rs
+++ b/src/core/rest/mod.rs
@@ -13,3 +13,13 @@ pub use endpoint_set::{Checked, EndpointSet, Unchecked};
 
 type Request = http::Request<hyper::Body>;
 pub use error::{Error, Result};
+
+/// Private parts, exposed to the conformance driver only.
+#[cfg(tailcall_verif)]
+pub mod verif {
+    pub use super::endpoint::Endpoint;
+    pub use super::path::Path;
+    pub use super::query_params::QueryParams;
+    pub use super::type_map::TypeMap;
+    pub use super::typed_variables::TypedVariable;
+}
-- 
2.43.0


From 2ba9a9b4b35dd236d6211c7719ed0de50648facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 02/71] fix: group records by exact integer keys

Grouping a batched answer converted numeric keys to f64, so ids beyond
2^53 were rounded and records were handed to the wrong request (or to
none).
---
 src/core/json/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..91ac6e0 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -44,6 +44,9 @@ fn group_by_key<'json, J: JsonLike<'json>>(
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            // integers are compared exactly: an f64 can't represent those beyond 2^53
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From 29f061680b7d0e91ae68a0cf8d068b59d89188ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 03/71] fix: REST paths match only requests with all of their
 segments

---
 src/core/rest/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..998a89f 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,8 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From bbbbdd58fb74692e0dbe9cc6d450cc09c9bdda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 04/71] fix: REST query parameters have the type of the
 variable they are bound to

---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..b6a2c0c 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From 7bb91c0a9713638624471169548d6f2fc51be279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 05/71] fix: REST endpoints of a document are matched in the
 order of declaration

---
 src/core/rest/endpoint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/endpoint.rs b/src/core/rest/endpoint.rs
index 2234a9f..82716db 100644
--- a/src/core/rest/endpoint.rs
+++ b/src/core/rest/endpoint.rs
@@ -41,7 +41,11 @@ impl Endpoint {
         let doc = async_graphql::parser::parse_query(operations)?;
         let mut endpoints = Vec::new();
 
-        for (_, op) in doc.operations.iter() {
+        // operations of a document are kept in a hash map, restore their order
+        let mut operations: Vec<_> = doc.operations.iter().map(|(_, op)| op).collect();
+        operations.sort_by_key(|op| op.pos);
+
+        for op in operations {
             let type_map = TypeMap::new(
                 op.node
                     .variable_definitions
-- 
2.43.0


From 22b9f5c91505c65d3076bc736ed587dd69cfe86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 06/71] fix: REST requests keep their query and lose only the
 leading /api

---
 src/core/http/request_handler.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..5d46259 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -251,7 +251,18 @@ async fn handle_rest_apis(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    // drop only the leading prefix and keep the query
+    let uri = request
+        .uri()
+        .path_and_query()
+        .map(|uri| uri.as_str())
+        .unwrap_or_default();
+    let uri = match uri.strip_prefix(API_URL_PREFIX) {
+        Some(uri) if uri.starts_with('/') => uri.to_string(),
+        Some(uri) if uri.is_empty() || uri.starts_with('?') => format!("/{uri}"),
+        _ => return not_found(),
+    };
+    *request.uri_mut() = uri.parse()?;
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
-- 
2.43.0


From 6ecb0f2425064088f4f7c7ca849a4397a444e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 07/71] fix: malformed bodies of REST requests are answered
 with an error

---
 src/core/http/request_handler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 5d46259..d00ff93 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -275,7 +275,15 @@ async fn handle_rest_apis(
             { HTTP_ROUTE } = http_route
         );
         return async {
-            let graphql_request = p_request.into_request(request).await?;
+            let graphql_request = match p_request.into_request(request).await {
+                Ok(graphql_request) => graphql_request,
+                Err(err) => {
+                    let server_error =
+                        ServerError::new(format!("Unexpected REST Request: {}", err), None);
+                    let response = async_graphql::Response::from_errors(vec![server_error]);
+                    return Ok(GraphQLResponse::from(response).into_rest_response()?);
+                }
+            };
             let mut response = graphql_request
                 .data(req_ctx.clone())
                 .execute(&app_ctx.schema)
-- 
2.43.0


From 1253b544cb1cb52df791615e63dbf00b3daf4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 08/71] fix: a request body that is not UTF-8 is answered with
 an error

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index d00ff93..aa10143 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -113,7 +113,7 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
         Err(err) => {
             tracing::error!(
                 "Failed to parse request: {}",
-                String::from_utf8(bytes.to_vec()).unwrap()
+                String::from_utf8_lossy(&bytes)
             );
 
             let mut response = async_graphql::Response::default();
-- 
2.43.0


From c9b0993d33e8f4685f4131db28c4d55852ca733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 09/71] Expose verification to the conformance driver under
 cfg(tailcall_verif)

---
 src/core/auth/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 7affa33..82fcb1c 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -12,4 +12,11 @@ pub mod verif {
     pub use super::jwt::*;
     pub use super::verification::*;
     pub use super::verify::*;
+
+    pub async fn verify(
+        verifier: &AuthVerifier,
+        ctx: &crate::core::http::RequestContext,
+    ) -> Verification {
+        Verify::verify(verifier, ctx).await
+    }
 }
-- 
2.43.0


From 25e421d2897811ff98581515bcad9899df233de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 10/71] fix: plans and constant answers are kept per operation
 name and variables

A document with several operations, or one whose fields are skipped or
included by variables, was answered with the plan or the constant answer of
an earlier request with the same text. Requests of one batch shared the
identity under which identical requests are coalesced.
---
 src/core/async_graphql_hyper.rs  | 10 ++++++++
 src/core/jit/graphql_executor.rs | 39 ++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..f4b3577 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,16 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// The id of one request among those the operation consists of.
+    pub fn with_request(&self, request: &impl Hash) -> OperationId {
+        let mut hasher = TailcallHasher::default();
+        self.hash(&mut hasher);
+        request.hash(&mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..941e0a8 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -46,11 +46,12 @@ impl JITExecutor {
         &self,
         exec: ConstValueExecutor,
         jit_request: jit::Request<ConstValue>,
+        operation_id: &OperationId,
     ) -> AnyResponse<Vec<u8>> {
         let out = self
             .app_ctx
             .dedupe_operation_handler
-            .dedupe(&self.operation_id, || {
+            .dedupe(operation_id, || {
                 Box::pin(async move {
                     let resp = self.exec(exec, jit_request).await;
                     Ok(resp)
@@ -61,10 +62,27 @@ impl JITExecutor {
         out.unwrap_or_default()
     }
 
+    /// Identifies the plan of a request: the query and the operation selected
+    /// in it.
     #[inline(always)]
-    fn req_hash(request: &async_graphql::Request) -> OPHash {
+    fn plan_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+
+        OPHash::new(hasher.finish())
+    }
+
+    /// Identifies the answer of a request as far as it depends on the request
+    /// itself: the plan and the variables it is executed with.
+    #[inline(always)]
+    fn req_hash(plan_hash: &OPHash, request: &async_graphql::Request) -> OPHash {
+        let mut hasher = TailcallHasher::default();
+        plan_hash.hash(&mut hasher);
+        for (name, value) in request.variables.iter() {
+            name.hash(&mut hasher);
+            value.to_string().hash(&mut hasher);
+        }
 
         OPHash::new(hasher.finish())
     }
@@ -75,17 +93,16 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
-        let hash = Self::req_hash(&request);
+        let plan_hash = Self::plan_hash(&request);
+        let req_hash = Self::req_hash(&plan_hash, &request);
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+            if let Some(response) = self.app_ctx.const_execution_cache.get(&req_hash) {
                 return response.clone();
             }
 
             let jit_request = jit::Request::from(request);
-            let exec = if let Some(op) = self.app_ctx.operation_plans.get(&hash) {
+            let exec = if let Some(op) = self.app_ctx.operation_plans.get(&plan_hash) {
                 ConstValueExecutor::from(op.value().clone())
             } else {
                 let exec = match ConstValueExecutor::try_new(&jit_request, &self.app_ctx) {
@@ -98,7 +115,7 @@ impl JITExecutor {
                 };
                 self.app_ctx
                     .operation_plans
-                    .insert(hash.clone(), exec.plan.clone());
+                    .insert(plan_hash.clone(), exec.plan.clone());
                 exec
             };
 
@@ -106,7 +123,9 @@ impl JITExecutor {
             let is_protected = exec.plan.is_protected;
 
             let response = if exec.plan.can_dedupe() {
-                self.dedupe_and_exec(exec, jit_request).await
+                // requests of a batch share the id of the batch
+                let operation_id = self.operation_id.with_request(&req_hash);
+                self.dedupe_and_exec(exec, jit_request, &operation_id).await
             } else {
                 self.exec(exec, jit_request).await
             };
@@ -115,7 +134,7 @@ impl JITExecutor {
             if is_const && !is_protected {
                 self.app_ctx
                     .const_execution_cache
-                    .insert(hash, response.clone());
+                    .insert(req_hash, response.clone());
             }
 
             response
-- 
2.43.0


From 91e29f784c01056136f6cf1a0006c9cd7dd91436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 11/71] fix: constant answers with protected fields are not
 kept for other clients

An operation selecting protected fields next to unprotected constant ones
was answered from the constant answers, without authorization, once a
client with valid credentials had sent it.
---
 src/core/jit/transform/check_protected.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..725b195 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if evaluating the IR may require authorization
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,10 +37,9 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
-            Some(ref ir) => is_protected(ir),
-            None => true,
-        });
+        plan.is_protected = plan
+            .iter_dfs()
+            .any(|field| field.ir.as_ref().is_some_and(is_protected));
 
         Valid::succeed(plan)
     }
-- 
2.43.0


From db4492fc5dd60b9a87c3c86223b71cb58eabeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 12/71] fix: authorization is required for protected fields
 below plain fields

Protected fields selected below a field without a resolver were not part of
the authorization of the operation: they were only checked when reached, so
that a null or empty parent was answered without credentials and other
upstream calls, mutations included, had been made before the refusal.
---
 src/core/jit/transform/auth_planner.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/transform/auth_planner.rs b/src/core/jit/transform/auth_planner.rs
index ba725aa..311cd09 100644
--- a/src/core/jit/transform/auth_planner.rs
+++ b/src/core/jit/transform/auth_planner.rs
@@ -42,12 +42,12 @@ impl<A: Debug> Transform for AuthPlanner<A> {
 fn update_field<A>(auth: &mut Vec<Auth>, field: &mut Field<A>) {
     if let Some(ref mut ir) = field.ir {
         update_ir(ir, auth);
-
-        field
-            .selection
-            .iter_mut()
-            .for_each(|field| update_field(auth, field));
     }
+
+    field
+        .selection
+        .iter_mut()
+        .for_each(|field| update_field(auth, field));
 }
 
 /// This function modifies an IR pipe chain by detecting and removing any
-- 
2.43.0


From 4f14311d95e35d50c59fb9b8d2d6b0d28e54e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 13/71] fix: flags and selections reach every resolver of a
 field

Fields with several resolvers (IR::Merge) were skipped when deduplication
flags and the selection of GraphQL upstreams are set on their IO.
---
 src/core/ir/model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index f4fbfdb..6f4b6a1 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -149,7 +149,12 @@ impl IR {
                 }
             }
             IR::Map(map) => map.input.modify_io(io_modifier),
-            _ => {}
+            IR::Merge(irs) => {
+                for ir in irs {
+                    ir.modify_io(io_modifier);
+                }
+            }
+            IR::Dynamic(_) | IR::ContextPath(_) | IR::Service(_) => {}
         }
     }
 
-- 
2.43.0


From a5ed197c8c8a0b12f746f14bba0de76e9a9492db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 14/71] fix: root fields of a mutation are executed one after
 another

They were executed concurrently: a mutation field did not wait for the
effects of the fields before it.
---
 src/core/jit/exec.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..dd32049 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::mem;
 use std::sync::{Arc, Mutex};
 
+use async_graphql::parser::types::OperationType;
 use derive_getters::Getters;
 use futures_util::future::join_all;
 
@@ -74,13 +75,24 @@ where
     }
 
     async fn init(&mut self) {
-        join_all(self.request.plan().selection.iter().map(|field| async {
-            let ctx = Context::new(field, self.request);
+        let this = &*self;
+        let plan = this.request.plan();
+        let execute = |field| async move {
             // TODO: with_args should be called on inside iter_field on any level, not only
             // for root fields
-            self.execute(&ctx).await
-        }))
-        .await;
+            let ctx = Context::new(field, this.request);
+            this.execute(&ctx).await
+        };
+
+        if plan.operation_type() == OperationType::Mutation {
+            // root fields of a mutation are executed serially
+            for field in plan.selection.iter() {
+                // the outcome of a field is kept in the store
+                let _ = execute(field).await;
+            }
+        } else {
+            join_all(plan.selection.iter().map(execute)).await;
+        }
     }
 
     async fn iter_field<'b>(
-- 
2.43.0


From 3373742f41c469dcc2fd36a433d430d1e1fa5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 15/71] fix: resolvers below an aliased plain field get its
 value

The value of a field without a resolver was looked up under its alias, so
that resolvers of the fields below it were not executed.
---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index dd32049..d83e79e 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -129,7 +129,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From 89ad295ab0d0e62409fbb72024c4dcaa223c92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 16/71] fix: fields that are both to be skipped and not to be
 included are left out

@skip(if: true) with @include(if: false), both by variables, selected the field.
---
 src/core/jit/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..5f2ad5c 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -79,7 +79,7 @@ impl<Input> Field<Input> {
         let skip = eval(self.skip.as_ref(), variables, false);
         let include = eval(self.include.as_ref(), variables, true);
 
-        skip == include
+        skip || !include
     }
 
     /// Returns the __typename of the value related to this field
-- 
2.43.0


From eb57ec9b1b90c57dd8eafd1d62067c2bf121a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 17/71] fix: subgraphs sharing a type that implements an
 interface can be merged

---
 src/core/config/config_module/merge.rs | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 6d0e3e1..6221603 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use indexmap::IndexMap;
 use tailcall_valid::{Valid, Validator};
@@ -201,6 +201,20 @@ impl Invariant for RootSchema {
     }
 }
 
+/// interfaces and the types implementing them are always used as output, even
+/// if they are not referenced directly by any field
+fn is_output(
+    type_name: &str,
+    output_types: &HashSet<String>,
+    interfaces_types_map: &BTreeMap<String, BTreeSet<String>>,
+) -> bool {
+    output_types.contains(type_name)
+        || interfaces_types_map.contains_key(type_name)
+        || interfaces_types_map
+            .values()
+            .any(|types| types.contains(type_name))
+}
+
 impl Invariant for Cache {
     fn unify(self, other: Self) -> Valid<Self, String> {
         let mut types = self.config.types;
@@ -212,10 +226,13 @@ impl Invariant for Cache {
                 Some(ty) => {
                     let is_self_input = self.input_types.contains(&type_name);
                     let is_other_input = other.input_types.contains(&type_name);
-                    let is_self_output = self.output_types.contains(&type_name)
-                        || self.interfaces_types_map.contains_key(&type_name);
-                    let is_other_output = other.output_types.contains(&type_name)
-                        || other.interfaces_types_map.contains_key(&type_name);
+                    let is_self_output =
+                        is_output(&type_name, &self.output_types, &self.interfaces_types_map);
+                    let is_other_output = is_output(
+                        &type_name,
+                        &other.output_types,
+                        &other.interfaces_types_map,
+                    );
 
                     match (
                         is_self_input,
-- 
2.43.0


From bee891dd8b4660ad5d8e87a9eb16e8ea4d9ec881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 18/71] fix: subgraphs sharing a custom scalar can be merged

---
 src/core/config/config_module/merge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 6221603..2c0348f 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -256,6 +256,10 @@ impl Invariant for Cache {
                         (true, true, _, _) | (_, _, true, true) => Valid::fail("Type is used both as input and output type that couldn't be merged for federation".to_string()),
                         // type is used differently on both sides
                         (true, false, false, true) | (false, true, true, false) => Valid::fail("Type is used as input type in one subgraph and output type in another".to_string()),
+                        // custom scalars are the same in any position
+                        (false, false, false, false) if ty.scalar() && other_type.scalar() => {
+                            ty.expand(other_type)
+                        }
                         (false, false, false, false) => Valid::fail("Cannot infer the usage of type and therefore merge it from the subgraph".to_string()),
                     }
                 }
-- 
2.43.0


From 2be8eda51119b8ee63619293b42d0a893ac8ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 19/71] fix: keep words of a multi-line description apart when
 printing

---
 src/core/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..38abe30 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -68,7 +68,7 @@ fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     }
     let mut formatted_docs = String::new();
     if let Some(docs) = docs {
-        let docs: String = docs.chars().filter(|ch| ch != &'\n').collect();
+        let docs = docs.replace('\n', " ");
         let line_breaker = LineBreaker::new(&docs, 80);
         formatted_docs.push_str(format!("{}\"\"\"", indent_str).as_str());
         for line in line_breaker {
-- 
2.43.0


From 11e8f8522aaf94b1e7f52e825b630f347fb30816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 20/71] fix: print the schema when it has no query and no
 mutation

---
 src/core/document.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 38abe30..2003abc 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -115,8 +115,17 @@ fn print_schema(schema: &SchemaDefinition) -> String {
         .subscription
         .as_ref()
         .map_or(String::new(), |s| format!("  subscription: {}\n", s.node));
-    if mutation.is_empty() && query.is_empty() {
-        return String::new();
+    if mutation.is_empty() && query.is_empty() && subscription.is_empty() {
+        // without root operations the settings can only be given by an extension
+        return if schema
+            .directives
+            .iter()
+            .any(|d| !d.node.arguments.is_empty())
+        {
+            format!("extend schema {}\n", directives)
+        } else {
+            String::new()
+        };
     }
     format!(
         "schema {}{{\n{}{}{}}}\n",
-- 
2.43.0


From eee08258169b3ed2ad00505a9334dcbb08633f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 21/71] fix: print default values of input fields before their
 directives

---
 src/core/document.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 2003abc..dc1580d 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -309,15 +309,18 @@ fn print_default_value(value: Option<&Positioned<ConstValue>>) -> String {
 }
 
 fn print_input_value(field: &async_graphql::parser::types::InputValueDefinition) -> String {
-    let directives_str = print_pos_directives(&field.directives);
+    let mut directives_str = print_directives(field.directives.iter().map(|d| &d.node));
+    if !directives_str.is_empty() {
+        directives_str.insert(0, ' ');
+    }
     let doc = get_formatted_docs(field.description.as_ref().map(|d| d.node.clone()), 2);
     format!(
         "{}  {}: {}{}{}",
         doc,
         field.name.node,
         field.ty.node,
-        directives_str,
-        print_default_value(field.default_value.as_ref())
+        print_default_value(field.default_value.as_ref()),
+        directives_str
     )
 }
 
-- 
2.43.0


From e0f876d346331e13323910f11c44ee6e195d0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 22/71] fix: print descriptions of unions

---
 src/core/config/into_document.rs | 2 +-
 src/core/document.rs             | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 5df4f03..861e5e4 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -162,7 +162,7 @@ fn config_document(config: &Config) -> ServiceDocument {
     for (name, union) in config.unions.iter() {
         definitions.push(TypeSystemDefinition::Type(pos(TypeDefinition {
             extend: false,
-            description: None,
+            description: union.doc.clone().map(pos),
             name: pos(Name::new(name)),
             directives: Vec::new(),
             kind: TypeKind::Union(UnionType {
diff --git a/src/core/document.rs b/src/core/document.rs
index dc1580d..c1e213a 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -141,8 +141,10 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::Union(union) => {
             let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "union {}{} = {}\n",
+                "{}union {} {}= {}\n",
+                doc,
                 type_def.name.node,
                 directives,
                 union
-- 
2.43.0


From 588f9109e18a693428994aebdca236bb97c1b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 23/71] fix: print @telemetry

---
 src/core/config/into_document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 861e5e4..161cfe7 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -4,7 +4,7 @@ use async_graphql_value::{ConstValue, Name};
 use tailcall_valid::Validator;
 
 use super::directive::to_const_directive;
-use super::Config;
+use super::{Config, Telemetry};
 use crate::core::directive::DirectiveCodec;
 use crate::core::pos;
 
@@ -40,6 +40,10 @@ fn config_document(config: &Config) -> ServiceDocument {
         pos(directive)
     }));
 
+    if config.telemetry != Telemetry::default() {
+        directives.push(pos(config.telemetry.to_directive()));
+    }
+
     let schema_definition = SchemaDefinition {
         extend: false,
         directives,
-- 
2.43.0


From 2e95b39a149761ab0a308659ff4446fe4656505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 24/71] fix: print descriptions, directives and field arguments
 of interfaces, and directives of arguments

---
 src/core/config/into_document.rs | 79 ++++++++++++++------------------
 src/core/document.rs             | 24 +++++++---
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 161cfe7..eba9e12 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -12,6 +12,34 @@ fn transform_default_value(value: Option<serde_json::Value>) -> Option<ConstValu
     value.map(ConstValue::from_json).and_then(Result::ok)
 }
 
+fn argument_definition(name: &str, arg: &super::Arg) -> Positioned<InputValueDefinition> {
+    pos(InputValueDefinition {
+        description: arg.doc.clone().map(pos),
+        name: pos(Name::new(name)),
+        ty: pos((&arg.type_of).into()),
+        default_value: transform_default_value(arg.default_value.clone()).map(pos),
+        directives: arg
+            .modify
+            .iter()
+            .map(|modify| pos(modify.to_directive()))
+            .collect(),
+    })
+}
+
+fn field_definition(name: &str, field: &super::Field) -> Positioned<FieldDefinition> {
+    pos(FieldDefinition {
+        description: field.doc.clone().map(pos),
+        name: pos(Name::new(name)),
+        arguments: field
+            .args
+            .iter()
+            .map(|(name, arg)| argument_definition(name, arg))
+            .collect(),
+        ty: pos((&field.type_of).into()),
+        directives: field_directives(field),
+    })
+}
+
 fn config_document(config: &Config) -> ServiceDocument {
     let mut definitions = Vec::new();
     let mut directives = vec![
@@ -72,22 +100,14 @@ fn config_document(config: &Config) -> ServiceDocument {
                     .collect(),
                 fields: type_def
                     .fields
-                    .clone()
                     .iter()
-                    .map(|(name, field)| {
-                        let type_of = &field.type_of;
-                        let directives = field_directives(field);
-                        pos(FieldDefinition {
-                            description: field.doc.clone().map(pos),
-                            name: pos(Name::new(name.clone())),
-                            arguments: vec![],
-                            ty: pos(type_of.into()),
-                            directives,
-                        })
-                    })
+                    .map(|(name, field)| field_definition(name, field))
                     .collect::<Vec<Positioned<FieldDefinition>>>(),
             })
-        } else if input_types.contains(type_name) {
+        } else if input_types.contains(type_name)
+            // only the fields of input types have default values
+            || type_def.fields.values().any(|field| field.default_value.is_some())
+        {
             TypeKind::InputObject(InputObjectType {
                 fields: type_def
                     .fields
@@ -96,7 +116,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                         let type_of = &field.type_of;
                         let directives = field_directives(field);
 
-                        pos(async_graphql::parser::types::InputValueDefinition {
+                        pos(InputValueDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
                             ty: pos(type_of.into()),
@@ -119,36 +139,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                 fields: type_def
                     .fields
                     .iter()
-                    .map(|(name, field)| {
-                        let type_of = &field.type_of;
-                        let directives = field_directives(field);
-
-                        let args_map = field.args.clone();
-                        let args = args_map
-                            .iter()
-                            .map(|(name, arg)| {
-                                pos(async_graphql::parser::types::InputValueDefinition {
-                                    description: arg.doc.clone().map(pos),
-                                    name: pos(Name::new(name.clone())),
-                                    ty: pos((&arg.type_of).into()),
-
-                                    default_value: transform_default_value(
-                                        arg.default_value.clone(),
-                                    )
-                                    .map(pos),
-                                    directives: Vec::new(),
-                                })
-                            })
-                            .collect::<Vec<Positioned<InputValueDefinition>>>();
-
-                        pos(async_graphql::parser::types::FieldDefinition {
-                            description: field.doc.clone().map(pos),
-                            name: pos(Name::new(name.clone())),
-                            arguments: args,
-                            ty: pos(type_of.into()),
-                            directives,
-                        })
-                    })
+                    .map(|(name, field)| field_definition(name, field))
                     .collect::<Vec<Positioned<FieldDefinition>>>(),
             })
         };
diff --git a/src/core/document.rs b/src/core/document.rs
index c1e213a..eab24d9 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -185,10 +185,14 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             } else {
                 String::new()
             };
+            let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "interface {} {}{{\n{}\n}}\n",
+                "{}interface {} {}{}{{\n{}\n}}\n",
+                doc,
                 type_def.name.node,
                 implements,
+                directives,
                 interface
                     .fields
                     .iter()
@@ -278,14 +282,20 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
             .arguments
             .iter()
             .map(|arg| {
-                let nullable = if arg.node.ty.node.nullable { "" } else { "!" };
+                let doc = arg.node.description.as_ref().map_or(String::new(), |d| {
+                    format!("{} ", ConstValue::String(d.node.clone()))
+                });
+                let directives = print_directives(arg.node.directives.iter().map(|d| &d.node));
                 format!(
-                    "{}: {}{}{}",
-                    arg.node.name,
-                    arg.node.ty.node.base,
-                    nullable,
-                    print_default_value(arg.node.default_value.as_ref())
+                    "{}{}: {}{} {}",
+                    doc,
+                    arg.node.name.node,
+                    arg.node.ty.node,
+                    print_default_value(arg.node.default_value.as_ref()),
+                    directives
                 )
+                .trim_end()
+                .to_string()
             })
             .collect::<Vec<String>>()
             .join(", ");
-- 
2.43.0


From e0d13a8965319218d0737304fbe76bf560ae445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 25/71] fix: an empty cors.vary survives printing

---
 src/core/config/cors.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/config/cors.rs b/src/core/config/cors.rs
index f68678e..72ac20e 100644
--- a/src/core/config/cors.rs
+++ b/src/core/config/cors.rs
@@ -54,10 +54,7 @@ pub struct Cors {
 
     /// A list of header names that indicate the values of which might cause the
     /// server's response to vary, potentially affecting caching.
-    #[serde(
-        default = "preflight_request_headers",
-        skip_serializing_if = "is_default"
-    )]
+    #[serde(default = "preflight_request_headers")]
     pub vary: Vec<String>,
 }
 
-- 
2.43.0


From 5713bc93ee74fa2edbaf7b06d5818a4852f7f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 26/71] fix: apply skip and include of fragments, merge
 selections of the same field

---
 src/core/jit/builder.rs | 485 ++++++++++++++++++++++++++--------------
 src/core/jit/model.rs   |  20 ++
 2 files changed, 337 insertions(+), 168 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..2f9fd2a 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,10 +1,10 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::Arc;
 
 use async_graphql::parser::types::{
-    Directive, DocumentOperations, ExecutableDocument, FragmentDefinition, OperationDefinition,
-    OperationType, Selection, SelectionSet,
+    Directive, DocumentOperations, ExecutableDocument, Field as GraphQLField, FragmentDefinition,
+    OperationDefinition, OperationType, Selection, SelectionSet,
 };
 use async_graphql::Positioned;
 use async_graphql_value::Value;
@@ -16,13 +16,14 @@ use crate::core::counter::{Count, Counter};
 use crate::core::jit::model::OperationPlan;
 use crate::core::{scalar, Type};
 
-#[derive(PartialEq, strum_macros::Display)]
+#[derive(Clone, PartialEq, strum_macros::Display)]
 enum Condition {
     True,
     False,
     Variable(Variable),
 }
 
+#[derive(Clone, PartialEq)]
 struct Conditions {
     skip: Condition,
     include: Condition,
@@ -62,6 +63,100 @@ impl Conditions {
 
         (include, skip)
     }
+
+    /// The conditions as those of everything inside of a fragment
+    fn into_fragment_conditions(self) -> Vec<FragmentCondition> {
+        let (include, skip) = self.into_variable_tuple();
+
+        skip.map(FragmentCondition::Skip)
+            .into_iter()
+            .chain(include.map(FragmentCondition::Include))
+            .collect()
+    }
+}
+
+/// A selection set together with what applies to everything selected in it
+#[derive(Clone)]
+struct Source<'a> {
+    selection: &'a SelectionSet,
+    parent_fragment: Option<&'a str>,
+    type_condition: &'a str,
+    conditions: Vec<FragmentCondition>,
+}
+
+/// A field as it's selected at one place of the document
+struct Selected<'a> {
+    field: &'a GraphQLField,
+    pos: Pos,
+    conditions: Conditions,
+    fragment_conditions: Vec<FragmentCondition>,
+}
+
+impl Selected<'_> {
+    fn is_unconditional(&self) -> bool {
+        self.conditions.skip == Condition::False
+            && self.conditions.include == Condition::True
+            && self.fragment_conditions.is_empty()
+    }
+
+    fn same_conditions(&self, other: &Self) -> bool {
+        self.conditions == other.conditions && self.fragment_conditions == other.fragment_conditions
+    }
+}
+
+/// All the places of a selection set that select the same field for the same
+/// output name. Such selections are merged into single field.
+/// See [spec](https://spec.graphql.org/October2021/#sec-Field-Selection-Merging)
+struct FieldGroup<'a> {
+    output_name: &'a str,
+    parent_fragment: Option<&'a str>,
+    type_condition: &'a str,
+    selected: Vec<Selected<'a>>,
+}
+
+impl<'a> FieldGroup<'a> {
+    fn is_unconditional(&self) -> bool {
+        self.selected.iter().any(Selected::is_unconditional)
+    }
+
+    /// Checks that the field is always selected with the fields of this group
+    /// or is selected regardless of any conditions
+    fn accepts(&self, output_name: &str, type_condition: &str, selected: &Selected) -> bool {
+        self.output_name == output_name
+            && self.type_condition == type_condition
+            && (self.is_unconditional()
+                || selected.is_unconditional()
+                || self
+                    .selected
+                    .iter()
+                    .all(|other| other.same_conditions(selected)))
+    }
+
+    /// The selection sets of the group
+    fn children(&self, type_condition: &'a str) -> Vec<Source<'a>> {
+        let is_unconditional = self.is_unconditional();
+
+        self.selected
+            .iter()
+            .map(|selected| {
+                // the field itself is there anyway, but what is selected in it may be not
+                let conditions = if is_unconditional {
+                    let mut conditions = selected.fragment_conditions.clone();
+                    conditions.extend(selected.conditions.clone().into_fragment_conditions());
+                    conditions
+                } else {
+                    Vec::new()
+                };
+
+                Source {
+                    selection: &selected.field.selection_set.node,
+                    parent_fragment: None,
+                    type_condition,
+                    conditions,
+                }
+            })
+            .collect()
+    }
 }
 
 pub struct Builder<'a> {
@@ -125,167 +220,78 @@ impl<'a> Builder<'a> {
         }
     }
 
-    #[allow(clippy::too_many_arguments)]
-    #[inline(always)]
-    fn iter(
+    /// Collects fields of the selection set and of the fragments inside of it,
+    /// in the order they appear in the document
+    fn collect<'b>(
         &self,
-        parent_fragment: Option<&str>,
-        selection: &SelectionSet,
-        type_condition: &str,
-        fragments: &HashMap<&str, &FragmentDefinition>,
-    ) -> Vec<Field<Value>> {
-        let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
+        source: &Source<'b>,
+        fragments: &HashMap<&str, &'b FragmentDefinition>,
+        groups: &mut Vec<FieldGroup<'b>>,
+    ) {
+        for selection in &source.selection.items {
+            let directives = match &selection.node {
+                Selection::Field(field) => &field.node.directives,
+                Selection::FragmentSpread(spread) => &spread.node.directives,
+                Selection::InlineFragment(fragment) => &fragment.node.directives,
+            };
+            let conditions = self.include(directives);
+
+            // Skip fields and fragments based on GraphQL's skip/include conditions
+            if conditions.is_const_skip() || conditions.include == Condition::False {
+                continue;
+            }
+
+            let inside_fragment =
+                |selection: &'b SelectionSet, type_condition: &'b str, conditions: Conditions| {
+                    let mut fragment_conditions = source.conditions.clone();
+                    fragment_conditions.extend(conditions.into_fragment_conditions());
+
+                    Source {
+                        selection,
+                        parent_fragment: Some(type_condition),
+                        type_condition,
+                        conditions: fragment_conditions,
+                    }
+                };
 
-        for selection in &selection.items {
             match &selection.node {
-                Selection::Field(Positioned { node: gql_field, .. }) => {
-                    let field_name = gql_field.name.node.as_str();
-                    let output_name = gql_field
+                Selection::Field(Positioned { node: field, .. }) => {
+                    let output_name = field
                         .alias
                         .as_ref()
                         .map(|a| a.node.as_str())
-                        .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-                    let conditions = self.include(&gql_field.directives);
-
-                    // Skip fields based on GraphQL's skip/include conditions
-                    if conditions.is_const_skip() {
-                        continue;
-                    }
-
-                    let mut directives = Vec::with_capacity(gql_field.directives.len());
-                    for directive in &gql_field.directives {
-                        let directive = &directive.node;
-                        if directive.name.node == "skip" || directive.name.node == "include" {
-                            continue;
-                        }
-                        let arguments = directive
-                            .arguments
-                            .iter()
-                            .map(|(k, v)| (k.node.to_string(), v.node.clone()))
-                            .collect::<Vec<_>>();
-
-                        directives
-                            .push(JitDirective { name: directive.name.to_string(), arguments });
-                    }
-
-                    let (include, skip) = conditions.into_variable_tuple();
-                    let request_args = gql_field
-                        .arguments
-                        .iter()
-                        .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
-                        .collect::<HashMap<_, _>>();
-
-                    let parent_fragment = parent_fragment.map(|s| s.to_owned());
-                    // Check if the field is present in the schema index
-                    if let Some(field_def) = self.index.get_field(type_condition, field_name) {
-                        let mut args = Vec::with_capacity(request_args.len());
-                        if let QueryField::Field((_, schema_args)) = field_def {
-                            for (arg_name, arg_value) in schema_args {
-                                let type_of = arg_value.of_type.clone();
-                                let id = ArgId::new(self.arg_id.next());
-                                let name = arg_name.clone();
-                                let default_value = arg_value
-                                    .default_value
-                                    .as_ref()
-                                    .and_then(|v| v.to_owned().try_into().ok());
-                                args.push(Arg {
-                                    id,
-                                    name,
-                                    type_of,
-                                    value: request_args.get(arg_name).cloned(),
-                                    default_value,
-                                });
-                            }
-                        }
-
-                        let type_of = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.of_type.clone(),
-                            QueryField::InputField(field_def) => field_def.of_type.clone(),
-                        };
-
-                        let id = FieldId::new(self.field_id.next());
-
-                        // Recursively gather child fields for the selection set
-                        let child_fields = self.iter(
-                            None,
-                            &gql_field.selection_set.node,
-                            type_of.name(),
-                            fragments,
-                        );
-
-                        let ir = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.resolver.clone(),
-                            _ => None,
-                        };
-
-                        let scalar = if self.index.type_is_scalar(type_of.name()) {
-                            Some(
-                                scalar::Scalar::find(type_of.name())
-                                    .cloned()
-                                    .unwrap_or(scalar::Scalar::Empty),
-                            )
-                        } else {
-                            None
-                        };
-
-                        // Create the field with its child fields in `selection`
-                        let field = Field {
-                            id,
-                            selection: child_fields,
-                            parent_fragment,
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir,
-                            is_enum: self.index.type_is_enum(type_of.name()),
-                            type_of,
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args,
-                            pos: selection.pos.into(),
-                            directives,
-                            scalar,
-                        };
-
-                        fields.push(field);
-                    } else if field_name == "__typename" {
-                        let typename_field = Field {
-                            id: FieldId::new(self.field_id.next()),
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir: None,
-                            type_of: Type::Named { name: "String".to_owned(), non_null: true },
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args: Vec::new(),
-                            pos: selection.pos.into(),
-                            selection: vec![], // __typename has no child selection
-                            parent_fragment,
-                            directives,
-                            is_enum: false,
-                            scalar: Some(scalar::Scalar::Empty),
-                        };
-
-                        fields.push(typename_field);
+                        .unwrap_or(field.name.node.as_str());
+                    let selected = Selected {
+                        field,
+                        pos: selection.pos.into(),
+                        conditions,
+                        fragment_conditions: source.conditions.clone(),
+                    };
+                    let type_condition = source.type_condition;
+
+                    if let Some(group) = groups
+                        .iter_mut()
+                        .find(|group| group.accepts(output_name, type_condition, &selected))
+                    {
+                        group.parent_fragment = group.parent_fragment.and(source.parent_fragment);
+                        group.selected.push(selected);
+                    } else {
+                        groups.push(FieldGroup {
+                            output_name,
+                            parent_fragment: source.parent_fragment,
+                            type_condition,
+                            selected: vec![selected],
+                        });
                     }
                 }
-                Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
-                    if let Some(fragment) =
-                        fragments.get(fragment_spread.fragment_name.node.as_str())
-                    {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
+                Selection::FragmentSpread(Positioned { node: spread, .. }) => {
+                    if let Some(fragment) = fragments.get(spread.fragment_name.node.as_str()) {
+                        let source = inside_fragment(
                             &fragment.selection_set.node,
                             fragment.type_condition.node.on.node.as_str(),
-                            fragments,
-                        ));
+                            conditions,
+                        );
+                        self.collect(&source, fragments, groups);
                     }
                 }
                 Selection::InlineFragment(Positioned { node: fragment, .. }) => {
@@ -293,25 +299,162 @@ impl<'a> Builder<'a> {
                         .type_condition
                         .as_ref()
                         .map(|cond| cond.node.on.node.as_str())
-                        .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
-                        Some(type_of),
-                        &fragment.selection_set.node,
-                        type_of,
-                        fragments,
-                    ));
+                        .unwrap_or(source.type_condition);
+                    let source = inside_fragment(&fragment.selection_set.node, type_of, conditions);
+                    self.collect(&source, fragments, groups);
                 }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
+    }
+
+    fn iter<'b>(
+        &'b self,
+        sources: &[Source<'b>],
+        fragments: &HashMap<&str, &'b FragmentDefinition>,
+    ) -> Vec<Field<Value>> {
+        let mut groups = Vec::new();
+
+        for source in sources {
+            self.collect(source, fragments, &mut groups);
+        }
+
+        groups
+            .iter()
+            .filter_map(|group| self.field(group, fragments))
+            .collect()
+    }
+
+    fn field<'b>(
+        &'b self,
+        group: &FieldGroup<'b>,
+        fragments: &HashMap<&str, &'b FragmentDefinition>,
+    ) -> Option<Field<Value>> {
+        let selected = group.selected.first()?;
+        let gql_field = selected.field;
+        let field_name = gql_field.name.node.as_str();
+        let type_condition = group.type_condition;
+        let parent_fragment = group.parent_fragment.map(|s| s.to_owned());
+
+        let mut directives = Vec::with_capacity(gql_field.directives.len());
+        for directive in &gql_field.directives {
+            let directive = &directive.node;
+            if directive.name.node == "skip" || directive.name.node == "include" {
                 continue;
             }
-            fields.push(field);
+            let arguments = directive
+                .arguments
+                .iter()
+                .map(|(k, v)| (k.node.to_string(), v.node.clone()))
+                .collect::<Vec<_>>();
+
+            directives.push(JitDirective { name: directive.name.to_string(), arguments });
+        }
+
+        let ((include, skip), fragment_conditions) = if group.is_unconditional() {
+            ((None, None), Vec::new())
+        } else {
+            (
+                selected.conditions.clone().into_variable_tuple(),
+                selected.fragment_conditions.clone(),
+            )
+        };
+        let request_args = gql_field
+            .arguments
+            .iter()
+            .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
+            .collect::<HashMap<_, _>>();
+
+        // Check if the field is present in the schema index
+        if let Some(field_def) = self.index.get_field(type_condition, field_name) {
+            let mut args = Vec::with_capacity(request_args.len());
+            if let QueryField::Field((_, schema_args)) = field_def {
+                for (arg_name, arg_value) in schema_args {
+                    let type_of = arg_value.of_type.clone();
+                    let id = ArgId::new(self.arg_id.next());
+                    let name = arg_name.clone();
+                    let default_value = arg_value
+                        .default_value
+                        .as_ref()
+                        .and_then(|v| v.to_owned().try_into().ok());
+                    args.push(Arg {
+                        id,
+                        name,
+                        type_of,
+                        value: request_args.get(arg_name).cloned(),
+                        default_value,
+                    });
+                }
+            }
+
+            let field_type = match field_def {
+                QueryField::Field((field_def, _)) => &field_def.of_type,
+                QueryField::InputField(field_def) => &field_def.of_type,
+            };
+            let type_of = field_type.clone();
+
+            let id = FieldId::new(self.field_id.next());
+
+            // Recursively gather child fields for the selection set
+            let child_fields = self.iter(&group.children(field_type.name()), fragments);
+
+            let ir = match field_def {
+                QueryField::Field((field_def, _)) => field_def.resolver.clone(),
+                _ => None,
+            };
+
+            let scalar = if self.index.type_is_scalar(type_of.name()) {
+                Some(
+                    scalar::Scalar::find(type_of.name())
+                        .cloned()
+                        .unwrap_or(scalar::Scalar::Empty),
+                )
+            } else {
+                None
+            };
+
+            // Create the field with its child fields in `selection`
+            Some(Field {
+                id,
+                selection: child_fields,
+                parent_fragment,
+                name: field_name.to_string(),
+                output_name: group.output_name.to_string(),
+                ir,
+                is_enum: self.index.type_is_enum(type_of.name()),
+                type_of,
+                type_condition: Some(type_condition.to_string()),
+                skip,
+                include,
+                fragment_conditions,
+                args,
+                pos: selected.pos,
+                directives,
+                scalar,
+            })
+        } else if field_name == "__typename" {
+            Some(Field {
+                id: FieldId::new(self.field_id.next()),
+                name: field_name.to_string(),
+                output_name: group.output_name.to_string(),
+                ir: None,
+                type_of: Type::Named { name: "String".to_owned(), non_null: true },
+                type_condition: Some(type_condition.to_string()),
+                skip,
+                include,
+                fragment_conditions,
+                args: Vec::new(),
+                pos: selected.pos,
+                selection: vec![], // __typename has no child selection
+                parent_fragment,
+                directives,
+                is_enum: false,
+                scalar: Some(scalar::Scalar::Empty),
+            })
+        } else {
+            None
         }
-        fields.sort_by(|a, b| a.id.cmp(&b.id));
-        fields
     }
+
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
         match ty {
@@ -361,7 +504,13 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        let source = Source {
+            selection: &operation.selection_set.node,
+            parent_fragment: None,
+            type_condition: name,
+            conditions: Vec::new(),
+        };
+        let fields = self.iter(&[source], &fragments);
 
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 5f2ad5c..df4226c 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -80,6 +80,13 @@ impl<Input> Field<Input> {
         let include = eval(self.include.as_ref(), variables, true);
 
         skip || !include
+            || self
+                .fragment_conditions
+                .iter()
+                .any(|condition| match condition {
+                    FragmentCondition::Skip(variable) => eval(Some(variable), variables, false),
+                    FragmentCondition::Include(variable) => !eval(Some(variable), variables, true),
+                })
     }
 
     /// Returns the __typename of the value related to this field
@@ -185,6 +192,8 @@ pub struct Field<Input> {
     pub type_condition: Option<String>,
     pub skip: Option<Variable>,
     pub include: Option<Variable>,
+    /// Conditions of the fragments this field is selected through
+    pub fragment_conditions: Vec<FragmentCondition>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -229,6 +238,13 @@ impl Variable {
     }
 }
 
+/// Condition of a fragment that applies to every field inside of it
+#[derive(Clone, Debug, PartialEq)]
+pub enum FragmentCondition {
+    Skip(Variable),
+    Include(Variable),
+}
+
 impl<Input> Field<Input> {
     pub fn try_map<Output, Error>(
         self,
@@ -249,6 +265,7 @@ impl<Input> Field<Input> {
             parent_fragment: None,
             skip: self.skip,
             include: self.include,
+            fragment_conditions: self.fragment_conditions,
             pos: self.pos,
             args: self
                 .args
@@ -289,6 +306,9 @@ impl<Input: Debug> Debug for Field<Input> {
         if self.include.is_some() {
             debug_struct.field("include", &self.include);
         }
+        if !self.fragment_conditions.is_empty() {
+            debug_struct.field("fragment_conditions", &self.fragment_conditions);
+        }
         debug_struct.field("directives", &self.directives);
 
         debug_struct.finish()
-- 
2.43.0


From c7db65f4cf2b0cb64b7aa668a9a765a29519e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 27/71] fix: use default values of the operation's variables

---
 src/core/jit/builder.rs                  | 14 +++++++++++++-
 src/core/jit/exec_const.rs               | 11 +++++++----
 src/core/jit/model.rs                    |  4 ++++
 src/core/jit/transform/input_resolver.rs |  1 +
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 2f9fd2a..be930ef 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -521,7 +521,7 @@ impl<'a> Builder<'a> {
             }
         });
 
-        let plan = OperationPlan::new(
+        let mut plan = OperationPlan::new(
             name,
             fields,
             operation.ty,
@@ -529,6 +529,18 @@ impl<'a> Builder<'a> {
             is_introspection_query,
             Some(self.index.get_interfaces()),
         );
+        plan.default_variables = operation
+            .variable_definitions
+            .iter()
+            .filter_map(|definition| {
+                let default_value = definition.node.default_value.as_ref()?;
+                Some((
+                    definition.node.name.node.to_string(),
+                    default_value.node.clone(),
+                ))
+            })
+            .collect();
+
         Ok(plan)
     }
 }
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..3756b60 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -38,8 +38,14 @@ impl ConstValueExecutor {
         self,
         app_ctx: &Arc<AppContext>,
         req_ctx: &RequestContext,
-        request: Request<ConstValue>,
+        mut request: Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
+        for (name, value) in &self.plan.default_variables {
+            if request.variables.get(name).is_none() {
+                request.variables.insert(name.clone(), value.clone());
+            }
+        }
+
         // Run all the IRs in the before chain
         if let Some(ir) = &self.plan.before {
             let mut eval_context = EvalContext::new(req_ctx, &EmptyResolverContext {});
@@ -71,9 +77,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index df4226c..29745be 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -338,6 +338,8 @@ pub struct OperationPlan<Input> {
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
     pub interfaces: Option<HashSet<String>>,
+    /// Values that the operation declares for variables missing in the request
+    pub default_variables: Vec<(String, ConstValue)>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -363,6 +365,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
             interfaces: None,
+            default_variables: self.default_variables,
         })
     }
 }
@@ -392,6 +395,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: None,
             before: Default::default(),
             interfaces,
+            default_variables: Vec::new(),
         }
     }
 
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..781d3e5 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -87,6 +87,7 @@ where
             interfaces: None,
             selection,
             before: self.plan.before,
+            default_variables: self.plan.default_variables,
         })
     }
 
-- 
2.43.0


From dbf006b32f39afd4df6d1a95dcd6abc43c6d8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 28/71] fix: do not execute resolvers of fragments on other
 types

---
 src/core/jit/exec_const.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 3756b60..2d2e04b 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -190,6 +190,10 @@ impl IRExecutor for ConstValueExec<'_> {
                     }
                 })?)
             }
+            // do not execute the resolver for fields of the fragments on other types
+            Some(value) if !self.plan.field_is_part_of_value(field, value) => {
+                Ok(Self::Output::default())
+            }
             _ => Ok(self.call(ctx, ir).await?),
         }
     }
-- 
2.43.0


From 680dc0745d128bd57f0190d0d210d64e5a9807f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 29/71] fix: check nullability and kind of values at every list
 level

---
 src/core/jit/synth/synth.rs | 116 ++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 57 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..0f2b7b6 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,7 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -82,13 +83,14 @@ where
                     }
                 }
 
-                if node.type_of.is_list() != value.as_array().is_some() {
+                if value.as_array().is_some() && !node.type_of.is_list() && !is_custom_scalar(node)
+                {
                     return self.node_nullable_guard(node, path, None);
                 }
-                self.iter_inner(node, value, data_path, path)
+                self.iter_inner(node, &node.type_of, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
+                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
         };
@@ -127,6 +129,7 @@ where
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &'a Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -139,17 +142,30 @@ where
             return Ok(Output::null());
         }
 
-        let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
-            };
-            if is_nullable {
+        let is_kind_valid = match type_of {
+            Type::List { .. } => value.as_array().is_some(),
+            // the value of a scalar may be a list by itself
+            Type::Named { .. } if node.scalar.is_some() => true,
+            Type::Named { .. } if node.is_enum => value.as_array().is_none(),
+            Type::Named { .. } => value.as_object().is_some(),
+        };
+
+        let eval_result = if value.is_null() || !is_kind_valid {
+            if type_of.is_nullable() {
                 Ok(Output::null())
             } else {
                 Err(ValidationError::ValueRequired.into())
             }
+        } else if let (Type::List { of_type, .. }, Some(arr)) = (type_of, value.as_array()) {
+            let mut ans = Vec::with_capacity(arr.len());
+            for (i, val) in arr.iter().enumerate() {
+                path.push(PathSegment::Index(i));
+                let data_path = data_path.clone().with_index(i);
+                let val = self.iter_inner(node, of_type, val, &data_path, path)?;
+                path.pop();
+                ans.push(val);
+            }
+            Ok(Output::array(ans))
         } else if node.scalar.is_some() {
             let scalar = node.scalar.as_ref().unwrap();
 
@@ -165,18 +181,10 @@ where
                 )
             }
         } else if node.is_enum {
-            let check_valid_enum = |value: &Value| -> bool {
-                value
-                    .as_str()
-                    .map(|v| self.plan.field_validate_enum_value(node, v))
-                    .unwrap_or(false)
-            };
-
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
+            let is_valid_enum = value
+                .as_str()
+                .map(|v| self.plan.field_validate_enum_value(node, v))
+                .unwrap_or(false);
 
             if is_valid_enum {
                 Ok(Output::clone_from(value))
@@ -186,43 +194,29 @@ where
                         .into(),
                 )
             }
-        } else {
-            match (value.as_array(), value.as_object()) {
-                (_, Some(obj)) => {
-                    let mut fields = Vec::with_capacity(node.selection.len());
-
-                    for child in node
-                        .iter()
-                        .filter(|field| self.plan.field_is_part_of_value(field, value))
-                    {
-                        // all checks for skip must occur in `iter_inner`
-                        // and include be checked before calling `iter` or recursing.
-                        if self.include(child) {
-                            let value = if child.name == "__typename" {
-                                Output::string(node.value_type(value).into())
-                            } else {
-                                let val = obj.get_key(child.name.as_str());
-                                self.iter(child, val, data_path, path, None)?
-                            };
-                            fields.push((child.output_name.as_str(), value));
-                        }
-                    }
-
-                    Ok(Output::object(Output::JsonObject::from_vec(fields)))
-                }
-                (Some(arr), _) => {
-                    let mut ans = Vec::with_capacity(arr.len());
-                    for (i, val) in arr.iter().enumerate() {
-                        path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
-                        path.pop();
-                        ans.push(val);
-                    }
-                    Ok(Output::array(ans))
+        } else if let Some(obj) = value.as_object() {
+            let mut fields = Vec::with_capacity(node.selection.len());
+
+            for child in node
+                .iter()
+                .filter(|field| self.plan.field_is_part_of_value(field, value))
+            {
+                // all checks for skip must occur in `iter_inner`
+                // and include be checked before calling `iter` or recursing.
+                if self.include(child) {
+                    let value = if child.name == "__typename" {
+                        Output::string(node.value_type(value).into())
+                    } else {
+                        let val = obj.get_key(child.name.as_str());
+                        self.iter(child, val, data_path, path, None)?
+                    };
+                    fields.push((child.output_name.as_str(), value));
                 }
-                _ => Ok(Output::clone_from(value)),
             }
+
+            Ok(Output::object(Output::JsonObject::from_vec(fields)))
+        } else {
+            Ok(Output::clone_from(value))
         };
 
         eval_result.map_err(|e| self.to_location_error(e, node, path))
@@ -247,6 +241,14 @@ where
     }
 }
 
+fn is_custom_scalar<Value>(node: &Field<Value>) -> bool {
+    node.scalar.is_some()
+        && !matches!(
+            node.type_of.name().as_str(),
+            "Int" | "Float" | "String" | "Boolean" | "ID"
+        )
+}
+
 #[cfg(test)]
 mod tests {
     use async_graphql_value::ConstValue;
-- 
2.43.0


From a0a7b9c36ac9b2330c97ff88c5e91d61186e466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 30/71] fix: optional variables may be missing

---
 src/core/jit/builder.rs                  |  6 +++
 src/core/jit/model.rs                    |  4 ++
 src/core/jit/transform/input_resolver.rs | 65 ++++++++++++++++++++++++
 3 files changed, 75 insertions(+)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index be930ef..c37fda1 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -540,6 +540,12 @@ impl<'a> Builder<'a> {
                 ))
             })
             .collect();
+        plan.optional_variables = operation
+            .variable_definitions
+            .iter()
+            .filter(|definition| definition.node.var_type.node.nullable)
+            .map(|definition| definition.node.name.node.to_string())
+            .collect();
 
         Ok(plan)
     }
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 29745be..1613f6f 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -340,6 +340,8 @@ pub struct OperationPlan<Input> {
     pub interfaces: Option<HashSet<String>>,
     /// Values that the operation declares for variables missing in the request
     pub default_variables: Vec<(String, ConstValue)>,
+    /// Variables of the operation that may be missing in the request
+    pub optional_variables: HashSet<String>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -366,6 +368,7 @@ impl<Input> OperationPlan<Input> {
             before: self.before,
             interfaces: None,
             default_variables: self.default_variables,
+            optional_variables: self.optional_variables,
         })
     }
 }
@@ -396,6 +399,7 @@ impl<Input> OperationPlan<Input> {
             before: Default::default(),
             interfaces,
             default_variables: Vec::new(),
+            optional_variables: HashSet::new(),
         }
     }
 
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 781d3e5..380576c 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use async_graphql_value::{ConstValue, Value};
@@ -19,6 +20,16 @@ pub trait InputResolvable {
         self,
         variables: &Variables<Self::Output>,
     ) -> Result<Self::Output, ResolveInputError>;
+
+    /// Leaves out the parts of the value that are given by a variable which is
+    /// allowed to be missing and is missing
+    fn without_missing(
+        self,
+        variables: &Variables<Self::Output>,
+        optional: &HashSet<String>,
+    ) -> Option<Self>
+    where
+        Self: Sized;
 }
 
 impl InputResolvable for Value {
@@ -32,6 +43,38 @@ impl InputResolvable for Value {
                 .ok_or_else(|| ResolveInputError::VariableIsNotFound(name.to_string()))
         })
     }
+
+    fn without_missing(
+        self,
+        variables: &Variables<ConstValue>,
+        optional: &HashSet<String>,
+    ) -> Option<Self> {
+        match self {
+            Value::Variable(name)
+                if optional.contains(name.as_str()) && variables.get(&name).is_none() =>
+            {
+                None
+            }
+            Value::List(items) => Some(Value::List(
+                items
+                    .into_iter()
+                    .map(|item| {
+                        item.without_missing(variables, optional)
+                            .unwrap_or(Value::Null)
+                    })
+                    .collect(),
+            )),
+            Value::Object(fields) => Some(Value::Object(
+                fields
+                    .into_iter()
+                    .filter_map(|(name, value)| {
+                        Some((name, value.without_missing(variables, optional)?))
+                    })
+                    .collect(),
+            )),
+            value => Some(value),
+        }
+    }
 }
 
 /// Transforms [OperationPlan] values the way that all the input values
@@ -58,10 +101,12 @@ where
         variables: &Variables<Output>,
     ) -> Result<OperationPlan<Output>, ResolveInputError> {
         let index = self.plan.index;
+        let optional = &self.plan.optional_variables;
         let mut selection = self
             .plan
             .selection
             .into_iter()
+            .map(|field| Self::without_missing(field, variables, optional))
             .map(|field| field.try_map(&|value| value.resolve(variables)))
             // Call `resolve_field` to verify/populate defaults for args
             // because the previous map will just try convert values based on
@@ -88,9 +133,29 @@ where
             selection,
             before: self.plan.before,
             default_variables: self.plan.default_variables,
+            optional_variables: self.plan.optional_variables,
         })
     }
 
+    fn without_missing(
+        mut field: Field<Input>,
+        variables: &Variables<Output>,
+        optional: &HashSet<String>,
+    ) -> Field<Input> {
+        for arg in field.args.iter_mut() {
+            arg.value = arg
+                .value
+                .take()
+                .and_then(|value| value.without_missing(variables, optional));
+        }
+        field.selection = field
+            .selection
+            .into_iter()
+            .map(|field| Self::without_missing(field, variables, optional))
+            .collect();
+        field
+    }
+
     // resolves the variables in selection set mustache template for graphql query.
     fn resolve_graphql_selection_set(
         base_field: &mut [Field<Output>],
-- 
2.43.0


From 77a2a190efaad28740ced1d9fd5797c71d9253d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 31/71] fix: do not cache what mutations do

---
 src/core/ir/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval.rs b/src/core/ir/eval.rs
index e7b0a8c..c6a752c 100644
--- a/src/core/ir/eval.rs
+++ b/src/core/ir/eval.rs
@@ -46,7 +46,12 @@ impl IR {
                 IR::IO(io) => eval_io(io, ctx).await,
                 IR::Cache(Cache { max_age, io }) => {
                     let io = io.deref();
-                    let key = io.cache_key(ctx);
+                    // only what queries read can be reused, mutations have to take effect
+                    let key = if ctx.is_query() {
+                        io.cache_key(ctx)
+                    } else {
+                        None
+                    };
                     if let Some(key) = key {
                         if let Some(val) = ctx.request_ctx.runtime.cache.get(&key).await? {
                             Ok(val)
-- 
2.43.0


From d6292942dbe80c9cf203e841fae54e24f287e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 32/71] fix: do not share upstream calls of mutations

---
 src/core/ir/eval_io.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval_io.rs b/src/core/ir/eval_io.rs
index f9ef59b..92d8e70 100644
--- a/src/core/ir/eval_io.rs
+++ b/src/core/ir/eval_io.rs
@@ -45,9 +45,16 @@ where
     Ctx: ResolverContextLike + Sync,
 {
     match io {
-        IO::Http { req_template, dl_id, hook, .. } => {
+        IO::Http { req_template, dl_id, hook, group_by, .. } => {
             let event_worker = &ctx.request_ctx.runtime.cmd_worker;
             let js_worker = &ctx.request_ctx.runtime.worker;
+            // mutations have to take effect each time, they can't share the calls as data
+            // loaders do
+            let dl_id = if ctx.is_query() || group_by.is_some() {
+                dl_id
+            } else {
+                &None
+            };
             let eval_http = EvalHttp::new(ctx, req_template, dl_id);
             let request = eval_http.init_request()?;
             let response = match (&event_worker, js_worker, hook) {
-- 
2.43.0


From 50c6e7606b5685efb8ff58189fa55f22c249cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 33/71] fix: require only the providers of a protected output
 type

---
 src/core/blueprint/operators/protected.rs | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/blueprint/operators/protected.rs b/src/core/blueprint/operators/protected.rs
index 6f80a44..53b6179 100644
--- a/src/core/blueprint/operators/protected.rs
+++ b/src/core/blueprint/operators/protected.rs
@@ -15,12 +15,14 @@ pub fn update_protected<'a>(
 > {
     TryFold::<(&ConfigModule, &Field, &config::Type, &'a str), FieldDefinition, BlueprintError>::new(
         |(config, field, type_, _), mut b_field| {
+            // check that output type of the field is protected
+            let output_protected = config
+                .find_type(field.type_of.name())
+                .and_then(|type_| type_.protected.as_ref());
+
             if field.protected.is_some() // check the field itself has marked as protected
                 || type_.protected.is_some() // check the type that contains current field
-                || config // check that output type of the field is protected
-                    .find_type(field.type_of.name())
-                    .and_then(|type_| type_.protected.as_ref())
-                    .is_some()
+                || output_protected.is_some()
             {
                 if config.input_types().contains(type_name) {
                     return Valid::fail(BlueprintError::InputTypesCannotBeProtected);
@@ -56,6 +58,21 @@ pub fn update_protected<'a>(
                         .unwrap_or_default(),
                 );
 
+                // without ids all of the providers are required, that includes those of the
+                // output type
+                if !protection.is_empty()
+                    || (field.protected.is_none() && type_.protected.is_none())
+                {
+                    protection.extend(
+                        output_protected
+                            .and_then(|protect| protect.id.clone())
+                            .unwrap_or_default()
+                            .into_iter()
+                            // unknown ones are reported for the type itself
+                            .filter(|id| providers.contains_key(id)),
+                    );
+                }
+
                 Valid::from_iter(protection.iter(), |id| {
                     if let Some(provider) = providers.get(id) {
                         Valid::succeed(Auth::Provider(provider.clone()))
-- 
2.43.0


From 923417230ab11237b7c1a38b3e688eceed697398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 34/71] fix: definitions of added fields

---
 src/core/blueprint/definitions.rs | 278 ++++++++----------------------
 1 file changed, 76 insertions(+), 202 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index a38b498..74aff06 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -3,7 +3,6 @@ use std::collections::HashSet;
 use async_graphql_value::ConstValue;
 use directive::Directive;
 use interface_resolver::update_interface_resolver;
-use regex::Regex;
 use tailcall_valid::{Valid, Validator};
 use union_resolver::update_union_resolver;
 
@@ -73,172 +72,76 @@ pub fn to_interface_type_definition(
 type InvalidPathHandler = dyn Fn(&str, &[String], &[String]) -> Valid<Type, BlueprintError>;
 type PathResolverErrorHandler = dyn Fn(&str, &str, &str, &[String]) -> Valid<Type, BlueprintError>;
 
-struct ProcessFieldWithinTypeContext<'a> {
-    field: &'a config::Field,
-    field_name: &'a str,
-    remaining_path: &'a [String],
-    type_info: &'a config::Type,
-    is_required: bool,
-    config_module: &'a ConfigModule,
-    invalid_path_handler: &'a InvalidPathHandler,
-    path_resolver_error_handler: &'a PathResolverErrorHandler,
-    original_path: &'a [String],
-}
-
 #[derive(Clone)]
 struct ProcessPathContext<'a> {
     path: &'a [String],
-    field: &'a config::Field,
-    type_info: &'a config::Type,
-    // TODO: does it even used other than as false?
-    is_required: bool,
+    type_of: &'a Type,
+    // number of lists on the way that no index of the path has led into
+    lists: usize,
     config_module: &'a ConfigModule,
     invalid_path_handler: &'a InvalidPathHandler,
     path_resolver_error_handler: &'a PathResolverErrorHandler,
     original_path: &'a [String],
 }
 
-fn process_field_within_type(
-    context: ProcessFieldWithinTypeContext,
-) -> Valid<Type, BlueprintError> {
-    let field = context.field;
-    let field_name = context.field_name;
-    let remaining_path = context.remaining_path;
-    let type_info = context.type_info;
-    let is_required = context.is_required;
-    let config_module = context.config_module;
-    let invalid_path_handler = context.invalid_path_handler;
-    let path_resolver_error_handler = context.path_resolver_error_handler;
-
-    if let Some(next_field) = type_info.fields.get(field_name) {
-        if !next_field.resolvers.is_empty() {
-            let mut valid = Valid::succeed(field.type_of.clone());
-
-            for resolver in next_field.resolvers.iter() {
-                valid = valid.and(path_resolver_error_handler(
-                    &resolver.directive_name(),
-                    field.type_of.name(),
-                    field_name,
-                    context.original_path,
-                ));
-            }
-
-            return valid.and(process_path(ProcessPathContext {
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: next_field,
-                original_path: context.original_path,
-            }));
-        }
+// Helper function to recursively process the path and return the corresponding
+// type
+fn process_path(context: ProcessPathContext) -> Valid<Type, BlueprintError> {
+    let Some((segment, remaining_path)) = context.path.split_first() else {
+        let type_of = context.type_of.clone().into_nullable();
+        return Valid::succeed((0..context.lists).fold(type_of, |type_of, _| Type::List {
+            of_type: Box::new(type_of),
+            non_null: false,
+        }));
+    };
 
-        let next_is_required = is_required && !next_field.type_of.is_nullable();
-        if scalar::Scalar::is_predefined(next_field.type_of.name()) {
-            return process_path(ProcessPathContext {
-                type_info,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: next_field,
-                is_required: next_is_required,
-                original_path: context.original_path,
-            });
+    match context.type_of {
+        Type::List { of_type, .. } if segment.parse::<usize>().is_ok() => {
+            process_path(ProcessPathContext { path: remaining_path, type_of: of_type, ..context })
         }
-
-        if let Some(next_type_info) = config_module.find_type(next_field.type_of.name()) {
-            return process_path(ProcessPathContext {
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
+        Type::List { of_type, .. } => process_path(ProcessPathContext {
+            type_of: of_type,
+            lists: context.lists + 1,
+            ..context
+        }),
+        Type::Named { .. } if segment.parse::<usize>().is_ok() => {
+            process_path(ProcessPathContext {
                 path: remaining_path,
-                field: next_field,
-                type_info: next_type_info,
-                is_required: next_is_required,
-                original_path: context.original_path,
+                lists: context.lists.saturating_sub(1),
+                ..context
             })
-            .and_then(|of_type| {
-                if next_field.type_of.is_list() {
-                    Valid::succeed(Type::List { of_type: Box::new(of_type), non_null: is_required })
-                } else {
-                    Valid::succeed(of_type)
-                }
-            });
-        }
-    } else if let Some((head, tail)) = remaining_path.split_first() {
-        if let Some(field) = type_info.fields.get(head) {
-            return process_path(ProcessPathContext {
-                path: tail,
-                field,
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                original_path: context.original_path,
-            });
         }
-    }
+        Type::Named { name, .. } => {
+            let Some(field) = context
+                .config_module
+                .find_type(name)
+                .and_then(|type_info| type_info.fields.get(segment))
+            else {
+                return (context.invalid_path_handler)(
+                    segment,
+                    remaining_path,
+                    context.original_path,
+                );
+            };
 
-    invalid_path_handler(field_name, remaining_path, context.original_path)
-}
+            let mut valid = Valid::succeed(field.type_of.clone());
 
-// Helper function to recursively process the path and return the corresponding
-// type
-fn process_path(context: ProcessPathContext) -> Valid<Type, BlueprintError> {
-    let path = context.path;
-    let field = context.field;
-    let type_info = context.type_info;
-    let is_required = context.is_required;
-    let config_module = context.config_module;
-    let invalid_path_handler = context.invalid_path_handler;
-    let path_resolver_error_handler = context.path_resolver_error_handler;
-    if let Some((field_name, remaining_path)) = path.split_first() {
-        if field_name.parse::<usize>().is_ok() {
-            let mut modified_field = field.clone();
-            // TODO: does it required?
-            modified_field.type_of = modified_field.type_of.into_single();
-            return process_path(ProcessPathContext {
-                config_module,
-                type_info,
-                invalid_path_handler,
-                path_resolver_error_handler,
+            for resolver in field.resolvers.iter() {
+                valid = valid.and((context.path_resolver_error_handler)(
+                    &resolver.directive_name(),
+                    name,
+                    segment,
+                    context.original_path,
+                ));
+            }
+
+            valid.and(process_path(ProcessPathContext {
                 path: remaining_path,
-                field: &modified_field,
-                is_required: false,
-                original_path: context.original_path,
-            });
-        }
-        let target_type_info = type_info
-            .fields
-            .get(field_name)
-            .map(|_| type_info)
-            .or_else(|| config_module.find_type(field.type_of.name()));
-
-        if let Some(type_info) = target_type_info {
-            return process_field_within_type(ProcessFieldWithinTypeContext {
-                field,
-                field_name,
-                remaining_path,
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                original_path: context.original_path,
-            });
+                type_of: &field.type_of,
+                ..context
+            }))
         }
-        return invalid_path_handler(field_name, path, context.original_path);
     }
-
-    Valid::succeed(if is_required {
-        field.type_of.clone().into_required()
-    } else {
-        field.type_of.clone().into_nullable()
-    })
 }
 
 fn to_enum_type_definition((name, eu): (&String, &Enum)) -> Definition {
@@ -305,36 +208,6 @@ fn update_args<'a>() -> TryFold<
     )
 }
 
-fn item_is_numeric(list: &[String]) -> bool {
-    list.iter().any(|s| {
-        let re = Regex::new(r"^\d+$").unwrap();
-        re.is_match(s)
-    })
-}
-
-fn update_resolver_from_path(
-    context: &ProcessPathContext,
-    base_field: blueprint::FieldDefinition,
-) -> Valid<blueprint::FieldDefinition, BlueprintError> {
-    let has_index = item_is_numeric(context.path);
-
-    process_path(context.clone()).and_then(|of_type| {
-        let mut updated_base_field = base_field;
-        let resolver = IR::ContextPath(context.path.to_owned());
-        if has_index {
-            updated_base_field.of_type =
-                Type::Named { name: of_type.name().to_string(), non_null: false }
-        } else {
-            updated_base_field.of_type = of_type;
-        }
-        let resolver = match updated_base_field.resolver.clone() {
-            None => resolver,
-            Some(resolver) => IR::Path(Box::new(resolver), context.path.to_owned()),
-        };
-        Valid::succeed(updated_base_field.resolver(Some(resolver)))
-    })
-}
-
 /// This function iterates over all types and their fields identifying paths to
 /// fields with dangling resolvers and fixes them. Dangling resolvers are those
 /// resolvers that cannot be resolved from the root of the schema. This function
@@ -460,23 +333,16 @@ fn to_fields(
             .iter()
             .find(|&(field_name, _)| *field_name == add_field.path[0]);
         match source_field {
-            Some((_, source_field)) => to_field_definition(
-                source_field,
+            // the definition is that of the source field, under another name
+            Some((source_name, source_field)) => to_field_definition(
+                &Field { modify: None, ..source_field.clone() },
                 &operation_type,
                 object_name,
                 config_module,
                 type_of,
-                &add_field.name,
+                source_name,
             )
             .and_then(|field_definition| {
-                let added_field_path = if source_field.resolvers.is_empty() {
-                    add_field.path.clone()
-                } else {
-                    add_field.path[1..]
-                        .iter()
-                        .map(|s| s.to_owned())
-                        .collect::<Vec<_>>()
-                };
                 let invalid_path_handler = |field_name: &str,
                                             _added_field_path: &[String],
                                             original_path: &[String]|
@@ -502,19 +368,27 @@ fn to_fields(
                         ),
                     )
                 };
-                update_resolver_from_path(
-                    &ProcessPathContext {
-                        path: &added_field_path,
-                        field: source_field,
-                        type_info: type_of,
-                        is_required: false,
-                        config_module,
-                        invalid_path_handler: &invalid_path_handler,
-                        path_resolver_error_handler: &path_resolver_error_handler,
-                        original_path: &add_field.path,
-                    },
-                    field_definition,
-                )
+                process_path(ProcessPathContext {
+                    path: &add_field.path[1..],
+                    type_of: &source_field.type_of,
+                    lists: 0,
+                    config_module,
+                    invalid_path_handler: &invalid_path_handler,
+                    path_resolver_error_handler: &path_resolver_error_handler,
+                    original_path: &add_field.path,
+                })
+                .map(|of_type| {
+                    let resolver = match field_definition.resolver.clone() {
+                        None => IR::ContextPath(add_field.path.clone()),
+                        Some(resolver) => {
+                            IR::Path(Box::new(resolver), add_field.path[1..].to_owned())
+                        }
+                    };
+
+                    FieldDefinition { of_type, ..field_definition }
+                        .name(add_field.name.clone())
+                        .resolver(Some(resolver))
+                })
             })
             .trace(config::AddField::trace_name().as_str()),
             None => Valid::fail(BlueprintError::FieldNotFoundInPath(
-- 
2.43.0


From 5791ba5d9ef04bc016a989a7d18997c6205c5021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 35/71] fix: read added fields across lists

---
 src/core/ir/eval.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/core/ir/eval.rs b/src/core/ir/eval.rs
index c6a752c..ae57f72 100644
--- a/src/core/ir/eval.rs
+++ b/src/core/ir/eval.rs
@@ -26,15 +26,12 @@ impl IR {
         Box::pin(async move {
             match self {
                 IR::ContextPath(path) => Ok(ctx
-                    .path_value(path)
-                    .map(|a| a.into_owned())
-                    .unwrap_or(async_graphql::Value::Null)),
+                    .path_value::<&str>(&[])
+                    .map(|value| value_at_path(&value, path))
+                    .unwrap_or_default()),
                 IR::Path(input, path) => {
                     let inp = input.eval(ctx).await?;
-                    Ok(inp
-                        .get_path(path)
-                        .unwrap_or(&async_graphql::Value::Null)
-                        .clone())
+                    Ok(value_at_path(&inp, path))
                 }
                 IR::Dynamic(value) => Ok(value.render_value(ctx)),
                 IR::Protect(auth, expr) => {
@@ -175,6 +172,32 @@ impl IR {
     }
 }
 
+/// Value at the path, a list that is not indexed by the path is mapped over
+fn value_at_path(value: &ConstValue, path: &[String]) -> ConstValue {
+    let Some((segment, remaining)) = path.split_first() else {
+        return value.clone();
+    };
+
+    match value {
+        ConstValue::List(list) => match segment.parse::<usize>() {
+            Ok(index) => list
+                .get(index)
+                .map(|value| value_at_path(value, remaining))
+                .unwrap_or_default(),
+            Err(_) => ConstValue::List(
+                list.iter()
+                    .map(|value| value_at_path(value, path))
+                    .collect(),
+            ),
+        },
+        ConstValue::Object(map) => map
+            .get(segment.as_str())
+            .map(|value| value_at_path(value, remaining))
+            .unwrap_or_default(),
+        _ => ConstValue::Null,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From cbedd3540a626937b03e0560ad46df0064903d13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 36/71] fix: fragments that spread themselves ended the process

---
 src/core/jit/builder.rs | 53 +++++++++++++++++++++++++++++++++++++++++
 src/core/jit/error.rs   |  2 ++
 2 files changed, 55 insertions(+)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index c37fda1..595029c 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -159,6 +159,19 @@ impl<'a> FieldGroup<'a> {
     }
 }
 
+/// Names of the fragments that are spread inside of the selection set
+fn collect_spreads<'a>(selection_set: &'a SelectionSet, spreads: &mut Vec<&'a str>) {
+    for selection in &selection_set.items {
+        match &selection.node {
+            Selection::Field(field) => collect_spreads(&field.node.selection_set.node, spreads),
+            Selection::FragmentSpread(spread) => spreads.push(&spread.node.fragment_name.node),
+            Selection::InlineFragment(fragment) => {
+                collect_spreads(&fragment.node.selection_set.node, spreads)
+            }
+        }
+    }
+}
+
 pub struct Builder<'a> {
     pub index: Arc<Index>,
     pub arg_id: Counter<usize>,
@@ -491,6 +504,45 @@ impl<'a> Builder<'a> {
         }
     }
 
+    /// Checks that no fragment spreads itself, directly or through others,
+    /// based on [spec](https://spec.graphql.org/October2021/#sec-Fragment-spreads-must-not-form-cycles)
+    fn check_fragment_cycles(
+        &self,
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> Result<(), BuildError> {
+        let mut spreads = HashMap::with_capacity(fragments.len());
+        for (name, fragment) in fragments {
+            let mut names = Vec::new();
+            collect_spreads(&fragment.selection_set.node, &mut names);
+            spreads.insert(*name, names);
+        }
+
+        // `true` for the fragments that are completely checked
+        let mut visited: HashMap<&str, bool> = HashMap::with_capacity(fragments.len());
+        for name in fragments.keys() {
+            let mut path = vec![*name];
+
+            while let Some(name) = path.last().copied() {
+                visited.entry(name).or_insert(false);
+                let next = spreads.get_mut(name).and_then(|names| names.pop());
+
+                match next.map(|name| (name, visited.get(name))) {
+                    Some((name, Some(false))) => {
+                        return Err(BuildError::FragmentCycle(name.to_string()))
+                    }
+                    Some((_, Some(true))) => {}
+                    Some((name, None)) => path.push(name),
+                    None => {
+                        visited.insert(name, true);
+                        path.pop();
+                    }
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     #[inline(always)]
     pub fn build(&self, operation_name: Option<&str>) -> Result<OperationPlan<Value>, BuildError> {
         let mut fragments: HashMap<&str, &FragmentDefinition> = HashMap::new();
@@ -498,6 +550,7 @@ impl<'a> Builder<'a> {
         for (name, fragment) in self.document.fragments.iter() {
             fragments.insert(name.as_str(), &fragment.node);
         }
+        self.check_fragment_cycles(&fragments)?;
 
         let operation = self.get_operation(operation_name)?;
 
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 086b604..463d1ff 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -14,6 +14,8 @@ pub enum BuildError {
     OperationNotFound(String),
     #[error("Operation name required in request")]
     OperationNameRequired,
+    #[error(r#"Cannot spread fragment "{0}" within itself"#)]
+    FragmentCycle(String),
 }
 
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From 91376c6d3397b1e70438ff0ac296afa811142c8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 37/71] fix: a constant of a type that refers to itself ended
 the process

---
 src/core/blueprint/from_config.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/core/blueprint/from_config.rs b/src/core/blueprint/from_config.rs
index fb95066..a121c96 100644
--- a/src/core/blueprint/from_config.rs
+++ b/src/core/blueprint/from_config.rs
@@ -80,18 +80,36 @@ pub fn to_json_schema_for_args(args: &IndexMap<String, Arg>, config: &Config) ->
     JsonSchema::Obj(schema_fields)
 }
 pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
+    nested_json_schema(type_of, config, &mut Vec::new())
+}
+
+/// `parents` are the types that are being described already. Where one of them
+/// is met again, i.e. the type refers to itself, any value is allowed as such a
+/// schema has no end.
+fn nested_json_schema<'a>(
+    type_of: &'a Type,
+    config: &'a Config,
+    parents: &mut Vec<&'a str>,
+) -> JsonSchema {
     let json_schema = match type_of {
         Type::Named { name, .. } => {
             let type_ = config.find_type(name);
             let type_enum_ = config.find_enum(name);
 
-            if let Some(type_) = type_ {
+            if parents.contains(&name.as_str()) {
+                JsonSchema::Any
+            } else if let Some(type_) = type_ {
                 let mut schema_fields = BTreeMap::new();
+                parents.push(name);
                 for (name, field) in type_.fields.iter() {
                     if field.resolvers.is_empty() {
-                        schema_fields.insert(name.clone(), to_json_schema(&field.type_of, config));
+                        schema_fields.insert(
+                            name.clone(),
+                            nested_json_schema(&field.type_of, config, parents),
+                        );
                     }
                 }
+                parents.pop();
                 JsonSchema::Obj(schema_fields)
             } else if let Some(type_enum_) = type_enum_ {
                 JsonSchema::Enum(
@@ -105,7 +123,9 @@ pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
                 JsonSchema::from_scalar_type(name)
             }
         }
-        Type::List { of_type, .. } => JsonSchema::Arr(Box::new(to_json_schema(of_type, config))),
+        Type::List { of_type, .. } => {
+            JsonSchema::Arr(Box::new(nested_json_schema(of_type, config, parents)))
+        }
     };
 
     if type_of.is_nullable() {
-- 
2.43.0


From ea71032b9c6b62287d27c4c0444c3060427f2457 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 38/71] fix: bodies of application/graphql requests were quoted
 as Rust text

---
 src/core/http/request_handler.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index aa10143..07491af 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -94,13 +94,10 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
     let bytes = if req.headers.get("content-type")
         == Some(&HeaderValue::from_str("application/graphql")?)
     {
-        let decoded_str = String::from_utf8_lossy(&bytes).clone();
-        let enriched_str = if decoded_str.contains("\\") {
-            format!(r#"{{"query": {} }}"#, decoded_str)
-        } else {
-            format!(r#"{{"query": {:?} }}"#, decoded_str)
-        };
-        hyper::body::to_bytes(enriched_str).await?
+        // the body is the query itself, either as it is or as a json string
+        let query = serde_json::from_slice::<String>(&bytes)
+            .unwrap_or_else(|_| String::from_utf8_lossy(&bytes).into_owned());
+        serde_json::to_vec(&serde_json::json!({ "query": query }))?.into()
     } else {
         bytes
     };
-- 
2.43.0


From a505164a92863abf52ca574d3daef0f334f7d5db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 39/71] fix: routes and metrics paths below /api were not found

---
 src/core/http/request_handler.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 07491af..49e7494 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -306,10 +306,6 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    if req.uri().path().starts_with(API_URL_PREFIX) {
-        return handle_rest_apis(req, app_ctx, req_counter).await;
-    }
-
     let health_check_endpoint = app_ctx.blueprint.server.routes.status();
     let graphql_endpoint = app_ctx.blueprint.server.routes.graphql();
 
@@ -347,9 +343,9 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
                     return prometheus_metrics(prometheus);
                 }
             };
-            not_found()
+            handle_rest_apis(req, app_ctx, req_counter).await
         }
-        _ => not_found(),
+        _ => handle_rest_apis(req, app_ctx, req_counter).await,
     }
 }
 
-- 
2.43.0


From d53d07cf2c40c487287b4b82ab6f4ece0d8c2a15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 40/71] fix: values changed the structure of upstream URLs

---
 src/core/http/query_encoder.rs    |  6 +-
 src/core/http/request_template.rs | 99 +++++++++++++++++++++----------
 2 files changed, 71 insertions(+), 34 deletions(-)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 208c7a9..23cbb84 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -16,7 +16,7 @@ impl QueryEncoder {
         if let Some(value) = raw_value {
             match &value {
                 ValueString::Value(val) => self.encode_const_value(key, val),
-                ValueString::String(val) => format!("{}={}", key, val),
+                ValueString::String(val) => format!("{}={}", key, urlencoding::encode(val)),
             }
         } else {
             key.to_owned()
@@ -59,9 +59,11 @@ impl QueryEncoder {
     }
 }
 
+/// Converts the value to text that is part of a query parameter's value
+/// whatever characters it consists of
 pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     match value {
-        async_graphql::Value::String(s) => Some(s.to_string()),
+        async_graphql::Value::String(s) => Some(urlencoding::encode(s).into_owned()),
         async_graphql::Value::Number(n) => Some(n.to_string()),
         async_graphql::Value::Boolean(b) => Some(b.to_string()),
         async_graphql::Value::Enum(e) => Some(e.to_string()),
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..58f81e4 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -1,4 +1,3 @@
-use std::borrow::Cow;
 use std::hash::{Hash, Hasher};
 
 use derive_setters::Setters;
@@ -14,7 +13,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::DynamicRequest;
 use crate::core::mustache::{Eval, Mustache, Segment};
-use crate::core::path::{PathString, PathValue, ValueString};
+use crate::core::path::{PathString, PathValue};
 
 /// RequestTemplate is an extension of a Mustache template.
 /// Various parts of the template can be written as a mustache template.
@@ -43,33 +42,30 @@ impl RequestTemplate {
     /// Creates a URL for the context
     /// Fills in all the mustache templates with required values.
     fn create_url<C: PathString + PathValue>(&self, ctx: &C) -> anyhow::Result<Url> {
-        let mut url = url::Url::parse(self.root_url.render(ctx).as_str())?;
+        let mut url = url::Url::parse(&RootUrlEval::default().eval(&self.root_url, ctx))?;
         if self.query.is_empty() && self.root_url.is_const() {
             return Ok(url);
         }
 
-        // evaluates mustache template and returns the values evaluated by mustache
-        // template.
-        let mustache_eval = ValueStringEval::default();
-
         let extra_qp = self.query.iter().filter_map(|query| {
             let key = &query.key;
-            let value = &query.value;
-            let skip = query.skip_empty;
-            let parsed_value = mustache_eval.eval(value, ctx);
-            if skip && parsed_value.is_none() {
+            let value = self.encode_query(key, &query.value, ctx);
+            if query.skip_empty && value == *key {
                 None
             } else {
-                Some(self.query_encoder.encode(key, parsed_value))
+                Some(value)
             }
         });
 
+        // the parameters are kept as they are, their values are already encoded
         let base_qp = url
-            .query_pairs()
-            .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
+            .query()
+            .unwrap_or_default()
+            .split('&')
+            .filter(|pair| pair.split_once('=').is_some_and(|(_, v)| !v.is_empty()))
+            .map(|pair| pair.to_string());
 
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
-        let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
+        let qp_string = base_qp.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
             } else if item.is_empty() {
@@ -88,6 +84,33 @@ impl RequestTemplate {
         }
     }
 
+    /// Renders a query parameter, or just its key if there is no value
+    fn encode_query<C: PathValue>(&self, key: &str, value: &Mustache, ctx: &C) -> String {
+        match value.segments().as_slice() {
+            [Segment::Expression(parts)] => self.query_encoder.encode(key, ctx.raw_value(parts)),
+            segments => {
+                let value: String = segments
+                    .iter()
+                    .filter_map(|segment| match segment {
+                        Segment::Literal(text) => Some(text.to_owned()),
+                        Segment::Expression(parts) => {
+                            // only the value, not the key nor the separators of lists
+                            let value =
+                                QueryEncoder::CommaSeparated.encode("", ctx.raw_value(parts));
+                            value.strip_prefix('=').map(|value| value.to_owned())
+                        }
+                    })
+                    .collect();
+
+                if value.is_empty() {
+                    key.to_string()
+                } else {
+                    format!("{}={}", key, value)
+                }
+            }
+        }
+    }
+
     /// Checks if the template has any mustache templates or not
     /// Returns true if there are not templates
     pub fn is_const(&self) -> bool {
@@ -279,30 +302,42 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
     }
 }
 
-/// ValueStringEval parses the mustache template and uses ctx to retrieve the
-/// values for templates.
-struct ValueStringEval<A>(std::marker::PhantomData<A>);
-impl<A> Default for ValueStringEval<A> {
+/// RootUrlEval renders the url. Values inside of the path and the query are
+/// encoded, so that none of them is able to change the structure of the url.
+struct RootUrlEval<A>(std::marker::PhantomData<A>);
+impl<A> Default for RootUrlEval<A> {
     fn default() -> Self {
         Self(std::marker::PhantomData)
     }
 }
 
-impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
+impl<'a, A: PathString> Eval<'a> for RootUrlEval<A> {
     type In = A;
-    type Out = Option<ValueString<'a>>;
+    type Out = String;
 
     fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        mustache
-            .segments()
-            .iter()
-            .filter_map(|segment| match segment {
-                Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
-                    async_graphql::Value::String(text.to_owned()),
-                ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
-            })
-            .next() // Return the first value that is found
+        let mut result = String::new();
+        for segment in mustache.segments() {
+            match segment {
+                Segment::Literal(text) => result.push_str(text),
+                Segment::Expression(parts) => {
+                    let value = in_value.path_string(parts).unwrap_or_default();
+                    let inside_path = result
+                        .split_once("://")
+                        .is_some_and(|(_, rest)| rest.contains(['/', '?']));
+                    // the server's own settings may contribute any part of the url
+                    let is_setting =
+                        matches!(parts.first().map(String::as_str), Some("env" | "vars"));
+
+                    if inside_path && !is_setting {
+                        result.push_str(&urlencoding::encode(&value));
+                    } else {
+                        result.push_str(&value);
+                    }
+                }
+            }
+        }
+        result
     }
 }
 
-- 
2.43.0


From 2aac231ab07ff80059efbb06dbe768bcbbf41e57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 41/71] fix: values inside of strings of upstream JSON bodies
 were not escaped

---
 src/core/http/request_template.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 58f81e4..2d0d389 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -162,7 +162,7 @@ impl RequestTemplate {
                 Encoding::ApplicationXWwwFormUrlencoded => {
                     // TODO: this is a performance bottleneck
                     // We first encode everything to string and then back to form-urlencoded
-                    let body = body_path.render(ctx);
+                    let (body, _) = ExpressionValueEval::default().eval(body_path, ctx);
                     let form_data = match serde_json::from_str::<serde_json::Value>(&body) {
                         Ok(deserialized_data) => serde_urlencoded::to_string(deserialized_data)?,
                         Err(_) => body,
@@ -292,7 +292,8 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
         }
 
         if let Some(body) = self.body_path.as_ref() {
-            body.render(ctx).hash(state)
+            let (body, _) = ExpressionValueEval::default().eval(body, ctx);
+            body.hash(state)
         }
 
         let url = self.create_url(ctx).unwrap();
@@ -368,12 +369,29 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
         // - This approach eliminates the need for repeated JSON parsing/serialization
         //   during the batching process, significantly improving performance
         let mut first_expression_value = None;
+        // Values inside of a json string have to be escaped, to not end the string
+        let mut inside_string = false;
         for segment in mustache.segments().iter() {
             match segment {
-                Segment::Literal(text) => result.push_str(text),
+                Segment::Literal(text) => {
+                    let mut escaped = false;
+                    for c in text.chars() {
+                        match c {
+                            '\\' => escaped = !escaped,
+                            '"' if !escaped => inside_string = !inside_string,
+                            _ => escaped = false,
+                        }
+                    }
+                    result.push_str(text)
+                }
                 Segment::Expression(parts) => {
                     if let Some(value) = in_value.path_string(parts) {
-                        result.push_str(value.as_ref());
+                        if inside_string {
+                            let json = serde_json::Value::from(value.as_ref()).to_string();
+                            result.push_str(&json[1..json.len() - 1]);
+                        } else {
+                            result.push_str(value.as_ref());
+                        }
                         if first_expression_value.is_none() {
                             first_expression_value = Some(value.into_owned());
                         }
-- 
2.43.0


From 7963cfb5804a9f91ba96aa3e170c36fa6e5cebcf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 42/71] fix: headers of shared upstream responses reached one
 request only

---
 src/core/app_context.rs          |  4 +--
 src/core/http/request_context.rs |  4 +--
 src/core/ir/eval_http.rs         |  6 ++---
 src/core/ir/eval_io.rs           | 45 ++++++++++++++++++++------------
 4 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/core/app_context.rs b/src/core/app_context.rs
index 537fa7f..fa9846b 100644
--- a/src/core/app_context.rs
+++ b/src/core/app_context.rs
@@ -11,7 +11,7 @@ use crate::core::data_loader::{DataLoader, DedupeResult};
 use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc;
 use crate::core::grpc::data_loader::GrpcDataLoader;
-use crate::core::http::{DataLoaderRequest, HttpDataLoader};
+use crate::core::http::{DataLoaderRequest, HttpDataLoader, Response};
 use crate::core::ir::model::{DataLoaderId, IoId, IO, IR};
 use crate::core::ir::Error;
 use crate::core::jit::{OPHash, OperationPlan};
@@ -26,7 +26,7 @@ pub struct AppContext {
     pub gql_data_loaders: Arc<Vec<DataLoader<DataLoaderRequest, GraphqlDataLoader>>>,
     pub grpc_data_loaders: Arc<Vec<DataLoader<grpc::DataLoaderRequest, GrpcDataLoader>>>,
     pub endpoints: EndpointSet<Checked>,
-    pub dedupe_handler: Arc<DedupeResult<IoId, ConstValue, Error>>,
+    pub dedupe_handler: Arc<DedupeResult<IoId, Response<ConstValue>, Error>>,
     pub dedupe_operation_handler: DedupeResult<OperationId, AnyResponse<Vec<u8>>, Error>,
     pub operation_plans: DashMap<OPHash, OperationPlan<async_graphql_value::Value>>,
     pub const_execution_cache: DashMap<OPHash, AnyResponse<Vec<u8>>>,
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..1f90640 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -12,7 +12,7 @@ use crate::core::blueprint::{Server, Upstream};
 use crate::core::data_loader::{DataLoader, DedupeResult};
 use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc::data_loader::GrpcDataLoader;
-use crate::core::http::{DataLoaderRequest, HttpDataLoader};
+use crate::core::http::{DataLoaderRequest, HttpDataLoader, Response};
 use crate::core::ir::model::IoId;
 use crate::core::ir::Error;
 use crate::core::runtime::TargetRuntime;
@@ -34,7 +34,7 @@ pub struct RequestContext {
     pub cache_public: Arc<Mutex<Option<bool>>>,
     pub runtime: TargetRuntime,
     pub cache: DedupeResult<IoId, ConstValue, Error>,
-    pub dedupe_handler: Arc<DedupeResult<IoId, ConstValue, Error>>,
+    pub dedupe_handler: Arc<DedupeResult<IoId, Response<ConstValue>, Error>>,
 }
 
 impl RequestContext {
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index d863472..0060195 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -95,8 +95,6 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                 .map_err(Error::from)?;
         }
 
-        set_headers(ctx, &response);
-
         Ok(response)
     }
 
@@ -266,11 +264,11 @@ pub async fn execute_grpc_request_with_dl<
 
 pub fn parse_graphql_response<Ctx: ResolverContextLike>(
     ctx: &EvalContext<'_, Ctx>,
-    res: Response<async_graphql::Value>,
+    body: async_graphql::Value,
     field_name: &str,
 ) -> Result<async_graphql::Value, Error> {
     let res: async_graphql::Response =
-        from_value(res.body).map_err(|err| Error::Deserialize(err.to_string()))?;
+        from_value(body).map_err(|err| Error::Deserialize(err.to_string()))?;
 
     for error in res.errors {
         ctx.add_error(error);
diff --git a/src/core/ir/eval_io.rs b/src/core/ir/eval_io.rs
index 92d8e70..2909cd7 100644
--- a/src/core/ir/eval_io.rs
+++ b/src/core/ir/eval_io.rs
@@ -11,7 +11,7 @@ use crate::core::data_loader::DataLoader;
 use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc;
 use crate::core::grpc::data_loader::GrpcDataLoader;
-use crate::core::http::DataLoaderRequest;
+use crate::core::http::{DataLoaderRequest, Response};
 use crate::core::ir::Error;
 
 pub async fn eval_io<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<ConstValue, Error>
@@ -22,25 +22,36 @@ where
     // key generation when it's not required
     let dedupe = io.dedupe();
 
-    if !dedupe || !ctx.is_query() {
-        return eval_io_inner(io, ctx).await;
-    }
-    if let Some(key) = io.cache_key(ctx) {
+    let key = if dedupe && ctx.is_query() {
+        io.cache_key(ctx)
+    } else {
+        None
+    };
+    if let Some(key) = key {
         ctx.request_ctx
             .cache
             .dedupe(&key, || async {
-                ctx.request_ctx
+                // the headers belong to every request that shares the response
+                let res = ctx
+                    .request_ctx
                     .dedupe_handler
                     .dedupe(&key, || eval_io_inner(io, ctx))
-                    .await
+                    .await?;
+                set_headers(ctx, &res);
+                Ok(res.body)
             })
             .await
     } else {
-        eval_io_inner(io, ctx).await
+        let res = eval_io_inner(io, ctx).await?;
+        set_headers(ctx, &res);
+        Ok(res.body)
     }
 }
 
-async fn eval_io_inner<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<ConstValue, Error>
+async fn eval_io_inner<Ctx>(
+    io: &IO,
+    ctx: &mut EvalContext<'_, Ctx>,
+) -> Result<Response<ConstValue>, Error>
 where
     Ctx: ResolverContextLike + Sync,
 {
@@ -65,7 +76,7 @@ where
                 _ => eval_http.execute(request).await?,
             };
 
-            Ok(response.body)
+            Ok(response)
         }
         IO::GraphQL { req_template, field_name, dl_id, .. } => {
             let req = req_template.to_request(ctx)?;
@@ -80,8 +91,10 @@ where
                 execute_raw_request(ctx, request).await?
             };
 
-            set_headers(ctx, &res);
-            parse_graphql_response(ctx, res, field_name)
+            let Response { status, headers, .. } = res;
+            let body = parse_graphql_response(ctx, res.body, field_name)?;
+
+            Ok(Response { status, headers, body })
         }
         IO::Grpc { req_template, dl_id, hook, .. } => {
             let rendered = req_template.render(ctx)?;
@@ -103,9 +116,7 @@ where
                 (Some(worker), Some(hook)) => hook.on_response(worker, res).await?,
                 _ => res,
             };
-            set_headers(ctx, &res);
-
-            Ok(res.body)
+            Ok(res)
         }
         IO::Js { name } => {
             if let Some((worker, value)) = ctx
@@ -116,9 +127,9 @@ where
                 .zip(ctx.value().cloned())
             {
                 let val = worker.call(name, value).await?;
-                Ok(val.unwrap_or_default())
+                Ok(Response::default().body(val.unwrap_or_default()))
             } else {
-                Ok(ConstValue::Null)
+                Ok(Response::default())
             }
         }
     }
-- 
2.43.0


From 6e93d06ff943ca188089373ee5d1e8f0b5f6223d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 43/71] fix: headers of shared operations reached one request
 only

---
 src/core/app_context.rs          |  7 +++++--
 src/core/http/request_context.rs | 17 +++++++++++++++++
 src/core/jit/graphql_executor.rs | 12 ++++++++++--
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/core/app_context.rs b/src/core/app_context.rs
index fa9846b..3c1ae6a 100644
--- a/src/core/app_context.rs
+++ b/src/core/app_context.rs
@@ -11,13 +11,16 @@ use crate::core::data_loader::{DataLoader, DedupeResult};
 use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc;
 use crate::core::grpc::data_loader::GrpcDataLoader;
-use crate::core::http::{DataLoaderRequest, HttpDataLoader, Response};
+use crate::core::http::{DataLoaderRequest, HttpDataLoader, RequestContext, Response};
 use crate::core::ir::model::{DataLoaderId, IoId, IO, IR};
 use crate::core::ir::Error;
 use crate::core::jit::{OPHash, OperationPlan};
 use crate::core::rest::{Checked, EndpointSet};
 use crate::core::runtime::TargetRuntime;
 
+/// The response together with the context it has been executed in
+type OperationResponse = (AnyResponse<Vec<u8>>, Arc<RequestContext>);
+
 pub struct AppContext {
     pub schema: dynamic::Schema,
     pub runtime: TargetRuntime,
@@ -27,7 +30,7 @@ pub struct AppContext {
     pub grpc_data_loaders: Arc<Vec<DataLoader<grpc::DataLoaderRequest, GrpcDataLoader>>>,
     pub endpoints: EndpointSet<Checked>,
     pub dedupe_handler: Arc<DedupeResult<IoId, Response<ConstValue>, Error>>,
-    pub dedupe_operation_handler: DedupeResult<OperationId, AnyResponse<Vec<u8>>, Error>,
+    pub dedupe_operation_handler: DedupeResult<OperationId, OperationResponse, Error>,
     pub operation_plans: DashMap<OPHash, OperationPlan<async_graphql_value::Value>>,
     pub const_execution_cache: DashMap<OPHash, AnyResponse<Vec<u8>>>,
 }
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 1f90640..d0fc815 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -134,6 +134,23 @@ impl RequestContext {
         }
     }
 
+    /// Takes over what the upstream responses of another context have to be
+    /// answered with
+    pub fn copy_response_headers(&self, other: &RequestContext) {
+        if let Some(max_age) = other.get_min_max_age() {
+            self.set_min_max_age(max_age);
+        }
+        if other.is_cache_public() == Some(false) {
+            self.set_cache_public_false();
+        }
+        if let Some(cookies) = &other.cookie_headers {
+            let cookies = cookies.lock().unwrap().clone();
+            self.set_cookie_headers(&cookies);
+        }
+        let x_headers = other.x_response_headers.lock().unwrap().clone();
+        self.add_x_headers(&x_headers);
+    }
+
     pub async fn cache_get(&self, key: &IoId) -> Result<Option<ConstValue>, cache::Error> {
         self.runtime.cache.get(key).await
     }
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index 941e0a8..e213946 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -54,12 +54,20 @@ impl JITExecutor {
             .dedupe(operation_id, || {
                 Box::pin(async move {
                     let resp = self.exec(exec, jit_request).await;
-                    Ok(resp)
+                    Ok((resp, self.req_ctx.clone()))
                 })
             })
             .await;
 
-        out.unwrap_or_default()
+        match out {
+            Ok((resp, req_ctx)) => {
+                if !Arc::ptr_eq(&req_ctx, &self.req_ctx) {
+                    self.req_ctx.copy_response_headers(&req_ctx);
+                }
+                resp
+            }
+            Err(_) => AnyResponse::default(),
+        }
     }
 
     /// Identifies the plan of a request: the query and the operation selected
-- 
2.43.0


From f25e4ac329723465499c1e22b25f6cd2e4bf872c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 44/71] fix: only the last of several client headers of a name
 was forwarded

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 49e7494..a89587c 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -152,7 +152,7 @@ fn create_allowed_headers(headers: &HeaderMap, allowed: &BTreeSet<String>) -> He
             .iter()
             .any(|allowed_key| allowed_key.eq_ignore_ascii_case(k.as_str()))
         {
-            new_headers.insert(k, v.clone());
+            new_headers.append(k, v.clone());
         }
     }
     new_headers
-- 
2.43.0


From 331f7ec63806368c30c43e8845151326e9be4116 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 45/71] fix: restrictions of upstream cache-control headers
 were lost

---
 src/core/http/cache.rs           | 13 +++++++++++++
 src/core/http/request_context.rs | 24 +++++++++++++++++++++++-
 src/core/http/request_handler.rs |  8 ++++++++
 src/core/ir/eval_http.rs         |  4 ++--
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/core/http/cache.rs b/src/core/http/cache.rs
index 6681fa4..a5c4828 100644
--- a/src/core/http/cache.rs
+++ b/src/core/http/cache.rs
@@ -9,6 +9,19 @@ pub fn cache_policy(res: &Response<async_graphql::Value>) -> Option<CacheControl
     CacheControl::from_value(value)
 }
 
+/// The policies of the response's directives, one by one, because a single
+/// policy is only one of public, private and no-cache
+pub fn cache_policies(
+    res: &Response<async_graphql::Value>,
+) -> impl Iterator<Item = CacheControl> + '_ {
+    res.headers
+        .get_all(http::header::CACHE_CONTROL)
+        .iter()
+        .filter_map(|header| header.to_str().ok())
+        .flat_map(|value| value.split(','))
+        .filter_map(|directive| CacheControl::from_value(&directive.trim().to_ascii_lowercase()))
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index d0fc815..7eaa6f3 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -32,6 +32,7 @@ pub struct RequestContext {
     pub grpc_data_loaders: Arc<Vec<DataLoader<grpc::DataLoaderRequest, GrpcDataLoader>>>,
     pub min_max_age: Arc<Mutex<Option<i32>>>,
     pub cache_public: Arc<Mutex<Option<bool>>>,
+    pub no_store: Arc<Mutex<bool>>,
     pub runtime: TargetRuntime,
     pub cache: DedupeResult<IoId, ConstValue, Error>,
     pub dedupe_handler: Arc<DedupeResult<IoId, Response<ConstValue>, Error>>,
@@ -49,6 +50,7 @@ impl RequestContext {
             grpc_data_loaders: Arc::new(vec![]),
             min_max_age: Arc::new(Mutex::new(None)),
             cache_public: Arc::new(Mutex::new(None)),
+            no_store: Arc::new(Mutex::new(false)),
             runtime: target_runtime,
             cache: DedupeResult::new(true),
             dedupe_handler: Arc::new(DedupeResult::new(false)),
@@ -70,6 +72,14 @@ impl RequestContext {
         *self.cache_public.lock().unwrap()
     }
 
+    pub fn set_no_store(&self) {
+        *self.no_store.lock().unwrap() = true;
+    }
+
+    pub fn is_no_store(&self) -> bool {
+        *self.no_store.lock().unwrap()
+    }
+
     pub fn set_min_max_age(&self, max_age: i32) {
         let min_max_age_lock = self.get_min_max_age();
         match min_max_age_lock {
@@ -91,7 +101,15 @@ impl RequestContext {
 
     pub fn set_cache_control(&self, cache_policy: CacheControl) {
         if let Some(max_age) = cache_policy.max_age {
-            self.set_min_max_age(max_age.as_secs() as i32);
+            // a response that's stale at once has to be requested again
+            self.set_min_max_age(match i32::try_from(max_age.as_secs()) {
+                Ok(0) => -1,
+                Ok(max_age) => max_age,
+                Err(_) => i32::MAX,
+            });
+        }
+        if cache_policy.no_store {
+            self.set_no_store();
         }
         self.set_cache_visibility(&cache_policy.cachability);
         if Some(Cachability::NoCache) == cache_policy.cachability {
@@ -143,6 +161,9 @@ impl RequestContext {
         if other.is_cache_public() == Some(false) {
             self.set_cache_public_false();
         }
+        if other.is_no_store() {
+            self.set_no_store();
+        }
         if let Some(cookies) = &other.cookie_headers {
             let cookies = cookies.lock().unwrap().clone();
             self.set_cookie_headers(&cookies);
@@ -215,6 +236,7 @@ impl From<&AppContext> for RequestContext {
             grpc_data_loaders: app_ctx.grpc_data_loaders.clone(),
             min_max_age: Arc::new(Mutex::new(None)),
             cache_public: Arc::new(Mutex::new(None)),
+            no_store: Arc::new(Mutex::new(false)),
             runtime: app_ctx.runtime.clone(),
             cache: DedupeResult::new(true),
             dedupe_handler: app_ctx.dedupe_handler.clone(),
diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index a89587c..684a975 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -65,6 +65,14 @@ pub fn update_response_headers(
     req_ctx: &RequestContext,
     app_ctx: &AppContext,
 ) {
+    // An upstream response that must not be stored
+    if req_ctx.is_no_store() {
+        resp.headers_mut().insert(
+            header::CACHE_CONTROL,
+            HeaderValue::from_static("no-store"),
+        );
+    }
+
     if !app_ctx.blueprint.server.response_headers.is_empty() {
         // Add static response headers
         resp.headers_mut()
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 0060195..7f60016 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -12,7 +12,7 @@ use crate::core::grpc::protobuf::ProtobufOperation;
 use crate::core::grpc::request::execute_grpc_request;
 use crate::core::grpc::request_template::RenderedRequestTemplate;
 use crate::core::http::{
-    cache_policy, DataLoaderRequest, HttpDataLoader, RequestTemplate, Response,
+    cache_policies, DataLoaderRequest, HttpDataLoader, RequestTemplate, Response,
 };
 use crate::core::ir::Error;
 use crate::core::json::JsonLike;
@@ -185,7 +185,7 @@ pub fn set_cache_control<Ctx: ResolverContextLike>(
     res: &Response<async_graphql::Value>,
 ) {
     if ctx.request_ctx.server.get_enable_cache_control() && res.status.is_success() {
-        if let Some(policy) = cache_policy(res) {
+        for policy in cache_policies(res) {
             ctx.request_ctx.set_cache_control(policy);
         }
     }
-- 
2.43.0


From 804d8b3a6c948eafdbed3c112dc3212fa292db57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 46/71] fix: requests were identified by the first value of
 repeated headers

---
 src/core/http/data_loader_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..937e2ad 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -46,7 +46,8 @@ impl Hash for DataLoaderRequest {
             body.as_bytes().hash(state);
         }
         for name in &self.headers {
-            if let Some(value) = self.request.headers().get(name) {
+            // a header can be given several times
+            for value in self.request.headers().get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
-- 
2.43.0


From a3aeed10e33199ff7f85e65fa3ff78ef05108254 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 47/71] fix: requests with invalid URLs panicked when shared

---
 src/core/grpc/request_template.rs | 2 +-
 src/core/http/request_template.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..627d112 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -120,7 +120,7 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
+        let rendered_req = self.render(ctx).ok()?;
         rendered_req.hash(&mut hasher);
         Some(IoId::new(hasher.finish()))
     }
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 2d0d389..0860827 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -296,7 +296,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 50a45623387b25d760e447f27ffad4f033d790ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 48/71] fix: answers were shared by GraphQL and gRPC calls to
 different upstreams

---
 src/core/graphql/request_template.rs | 7 +++++++
 src/core/grpc/request_template.rs    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..26e9933 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -195,6 +195,13 @@ impl RequestTemplate {
 impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
+        self.url.hash(&mut hasher);
+
+        for (name, value) in self.create_headers(ctx).iter().chain(ctx.headers().iter()) {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         let graphql_query = self.render_graphql_query(ctx);
         graphql_query.hash(&mut hasher);
         Some(IoId::new(hasher.finish()))
diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 627d112..c71c02c 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -53,6 +53,10 @@ pub struct RenderedRequestTemplate {
 impl Hash for RenderedRequestTemplate {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.url.hash(state);
+        for (name, value) in self.headers.iter() {
+            name.hash(state);
+            value.hash(state);
+        }
         self.body.hash(state);
     }
 }
-- 
2.43.0


From acadd976c723f4b4215303dd2cf3ab5fd72d18c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 49/71] fix: answers were shared by calls that process them
 differently

---
 src/core/config/group_by.rs |  2 +-
 src/core/ir/model.rs        | 21 +++++++++++++++++++--
 src/core/worker_hooks.rs    |  2 +-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/config/group_by.rs b/src/core/config/group_by.rs
index d9f6656..e824cda 100644
--- a/src/core/config/group_by.rs
+++ b/src/core/config/group_by.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::core::is_default;
 
 /// The `groupBy` parameter groups multiple data requests into a single call. For more details please refer out [n + 1 guide](https://tailcall.run/docs/guides/n+1#solving-using-batching).
-#[derive(Clone, Debug, Eq, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
+#[derive(Clone, Debug, Eq, Hash, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
 pub struct GroupBy {
     #[serde(default, skip_serializing_if = "is_default")]
     path: Vec<String>,
diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index 6f4b6a1..ed52005 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -1,9 +1,11 @@
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::num::NonZeroU64;
 
 use async_graphql::Value;
 use strum_macros::Display;
+use tailcall_hasher::TailcallHasher;
 
 use super::discriminator::Discriminator;
 use super::{EvalContext, ResolverContextLike};
@@ -105,6 +107,14 @@ impl IoId {
     pub fn as_u64(&self) -> u64 {
         self.0
     }
+
+    /// Distinguishes the id by what is done with the result of the same IO
+    pub fn with(&self, part: &impl Hash) -> Self {
+        let mut hasher = TailcallHasher::default();
+        self.hash(&mut hasher);
+        part.hash(&mut hasher);
+        Self(hasher.finish())
+    }
 }
 
 pub trait CacheKey<Ctx> {
@@ -216,8 +226,15 @@ impl IR {
 impl<'a, Ctx: ResolverContextLike + Sync> CacheKey<EvalContext<'a, Ctx>> for IO {
     fn cache_key(&self, ctx: &EvalContext<'a, Ctx>) -> Option<IoId> {
         match self {
-            IO::Http { req_template, .. } => req_template.cache_key(ctx),
-            IO::Grpc { req_template, .. } => req_template.cache_key(ctx),
+            IO::Http { req_template, group_by, is_list, hook, .. } => {
+                let is_list = group_by.is_some() && *is_list;
+                let id = req_template.cache_key(ctx)?;
+                Some(id.with(&(group_by, is_list, hook)))
+            }
+            IO::Grpc { req_template, group_by, hook, .. } => {
+                let id = req_template.cache_key(ctx)?;
+                Some(id.with(&(group_by, hook)))
+            }
             IO::GraphQL { req_template, .. } => req_template.cache_key(ctx),
             IO::Js { .. } => None,
         }
diff --git a/src/core/worker_hooks.rs b/src/core/worker_hooks.rs
index c3aa479..e77462e 100644
--- a/src/core/worker_hooks.rs
+++ b/src/core/worker_hooks.rs
@@ -7,7 +7,7 @@ use crate::core::http::Response;
 
 /// User can configure the hooks on directive
 /// for the requests.
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Hash)]
 pub struct WorkerHooks {
     pub on_request: Option<String>,
     pub on_response: Option<String>,
-- 
2.43.0


From 7cab33041295189865f5f73c901a07205c626a98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 50/71] fix: values were reused beyond the max age of the
 cached field

---
 src/core/ir/eval.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval.rs b/src/core/ir/eval.rs
index ae57f72..dd39d5e 100644
--- a/src/core/ir/eval.rs
+++ b/src/core/ir/eval.rs
@@ -44,8 +44,10 @@ impl IR {
                 IR::Cache(Cache { max_age, io }) => {
                     let io = io.deref();
                     // only what queries read can be reused, mutations have to take effect
+                    // values are kept as long as the one who stored them allows, that should not
+                    // affect those who accept them for a shorter time only
                     let key = if ctx.is_query() {
-                        io.cache_key(ctx)
+                        io.cache_key(ctx).map(|key| key.with(max_age))
                     } else {
                         None
                     };
-- 
2.43.0


From 6529da85c04ded91ce57d24d1bd9e9f991997ae0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 51/71] fix: linked files were read again for every link, and
 of several operation links only the last counted

---
 src/core/config/reader.rs   | 2 +-
 src/core/resource_reader.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/config/reader.rs b/src/core/config/reader.rs
index 5240e65..293e887 100644
--- a/src/core/config/reader.rs
+++ b/src/core/config/reader.rs
@@ -107,7 +107,7 @@ impl ConfigReader {
                     let source = self.resource_reader.read_file(path).await?;
                     let content = source.content;
 
-                    extensions.endpoint_set = EndpointSet::try_new(&content)?;
+                    extensions.endpoint_set.extend(EndpointSet::try_new(&content)?);
                 }
                 LinkType::Htpasswd => {
                     let source = self.resource_reader.read_file(path).await?;
diff --git a/src/core/resource_reader.rs b/src/core/resource_reader.rs
index 5d0aed4..219a329 100644
--- a/src/core/resource_reader.rs
+++ b/src/core/resource_reader.rs
@@ -183,7 +183,7 @@ impl Reader for Direct {
 #[derive(Clone)]
 pub struct Cached {
     direct: Direct,
-    // Cache file content, path -> content
+    // Cache file content, hash of the resource -> content
     cache: Arc<Mutex<HashMap<String, String>>>,
 }
 
@@ -200,12 +200,13 @@ impl Reader for Cached {
         // check cache
         let resource: Resource = file.into();
         let file_path = resource.to_string();
+        let key = resource.calculate_hash().to_string();
         let content = self
             .cache
             .as_ref()
             .lock()
             .unwrap()
-            .get(&resource.calculate_hash().to_string())
+            .get(&key)
             .map(|v| v.to_owned());
         let content = if let Some(content) = content {
             content.to_owned()
@@ -215,7 +216,7 @@ impl Reader for Cached {
                 .as_ref()
                 .lock()
                 .unwrap()
-                .insert(file_path.to_owned(), file_read.content.clone());
+                .insert(key, file_read.content.clone());
             file_read.content
         };
 
-- 
2.43.0


From 2af89322bb92dd5483c66402bca74cbf25449007 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 52/71] fix: the response hook ran twice after a request hook
 answered with a redirect

---
 src/core/ir/eval_http.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 7f60016..b6fe9a1 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -98,8 +98,7 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         Ok(response)
     }
 
-    #[async_recursion::async_recursion]
-    pub async fn execute_with_worker<'worker: 'async_recursion>(
+    pub async fn execute_with_worker<'worker>(
         &self,
         mut request: DynamicRequest<String>,
         worker_ctx: WorkerContext<'worker>,
@@ -109,13 +108,12 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         let worker = worker_ctx.worker;
         let js_worker = worker_ctx.js_worker;
 
-        let response = match js_hooks.on_request(worker, request.request()).await? {
-            Some(command) => match command {
-                worker::Command::Request(w_request) => {
-                    let response = self.execute(w_request.try_into()?).await?;
-                    Ok(response)
+        let response = loop {
+            match js_hooks.on_request(worker, request.request()).await? {
+                Some(worker::Command::Request(w_request)) => {
+                    break self.execute(w_request.try_into()?).await?;
                 }
-                worker::Command::Response(w_response) => {
+                Some(worker::Command::Response(w_response)) => {
                     // Check if the response is a redirect
                     if (w_response.status() == 301 || w_response.status() == 302)
                         && w_response.headers().contains_key("location")
@@ -124,21 +122,16 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                             .request_mut()
                             .url_mut()
                             .set_path(w_response.headers()["location"].as_str());
-                        self.execute_with_worker(request, worker_ctx).await
                     } else {
-                        Ok(w_response.try_into()?)
+                        break w_response.try_into()?;
                     }
                 }
-            },
-            None => self.execute(request).await,
+                None => break self.execute(request).await?,
+            }
         };
 
         // send the final response to JS script for futher evaluation.
-        if let Ok(resp) = response {
-            js_hooks.on_response(js_worker, resp).await
-        } else {
-            response
-        }
+        js_hooks.on_response(js_worker, response).await
     }
 }
 
-- 
2.43.0


From c97e12183f9731fdf2b80433562e2bdd65fa490e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 53/71] fix: a redirect of a request hook with a non-ASCII
 header made the request panic

---
 src/core/worker/worker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index 9b9ddd1..ac5eb73 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -56,7 +56,10 @@ impl WorkerResponse {
     pub fn headers(&self) -> BTreeMap<String, String> {
         let mut headers = BTreeMap::new();
         for (key, value) in self.0.headers.iter() {
-            headers.insert(key.to_string(), value.to_str().unwrap().to_string());
+            headers.insert(
+                key.to_string(),
+                String::from_utf8_lossy(value.as_bytes()).to_string(),
+            );
         }
         headers
     }
-- 
2.43.0


From 7eaf9f9baf10aba3ed5f1c0f22ff9d67a90d6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 54/71] fix: query values of requests returned by a script were
 sent without encoding

---
 src/core/worker/worker.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index ac5eb73..35c1be3 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -131,12 +131,9 @@ impl Display for Uri {
             _ => "http",
         };
         let path = self.path.as_str();
-        let query = self
-            .query
-            .iter()
-            .map(|(k, v)| format!("{}={}", k, v))
-            .collect::<Vec<String>>()
-            .join("&");
+        let query = url::form_urlencoded::Serializer::new(String::new())
+            .extend_pairs(&self.query)
+            .finish();
 
         write!(f, "{}://{}{}{}", scheme, host, port, path)?;
 
-- 
2.43.0


From 7416ef2c5d98ffba136f34d7ee4eb69c5e027640 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 55/71] fix: inferred type names could be those of scalars,
 enums or unions

---
 src/core/config/transformer/improve_type_names.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/config/transformer/improve_type_names.rs b/src/core/config/transformer/improve_type_names.rs
index a2cdfaa..b2e0ebd 100644
--- a/src/core/config/transformer/improve_type_names.rs
+++ b/src/core/config/transformer/improve_type_names.rs
@@ -43,6 +43,9 @@ impl<'a> CandidateConvergence<'a> {
                 let candidate_type_name = candidate_name.to_case(Case::Pascal);
                 !converged_candidate_set.contains(&candidate_type_name)
                     && !self.config.types.contains_key(&candidate_type_name)
+                    && !self.config.unions.contains_key(&candidate_type_name)
+                    && !self.config.enums.contains_key(&candidate_type_name)
+                    && !self.config.is_scalar(&candidate_type_name)
             });
 
             // Find the candidate with the highest frequency and priority
-- 
2.43.0


From 6e887704a1b7febbd4b5cac2ccda034c224b330e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 56/71] fix: query keys that are no GraphQL names, or give the
 same name, made generated configurations unreadable or incomplete

---
 .../json/http_directive_generator.rs          | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/core/generator/json/http_directive_generator.rs b/src/core/generator/json/http_directive_generator.rs
index 3ab63cd..2857db5 100644
--- a/src/core/generator/json/http_directive_generator.rs
+++ b/src/core/generator/json/http_directive_generator.rs
@@ -104,6 +104,28 @@ impl<'a> HttpDirectiveGenerator<'a> {
         self.http.url = decoded.to_string();
     }
 
+    /// Name of the argument for a query key. It's in camel case for better
+    /// readability, a valid GraphQL name even if the key isn't one and differs
+    /// from the names of the other arguments.
+    fn to_arg_name(query_key: &str, field: &Field) -> String {
+        let name = query_key
+            .replace(|c: char| !c.is_ascii_alphanumeric(), "_")
+            .to_case(Case::Camel);
+        let is_valid = name.starts_with(|c: char| c.is_ascii_alphabetic());
+
+        if is_valid && !field.args.contains_key(&name) {
+            return name;
+        }
+
+        let prefix = if is_valid { name.as_str() } else { PREFIX };
+        let mut index = 1;
+        while field.args.contains_key(&format!("{}{}", prefix, index)) {
+            index += 1;
+        }
+
+        format!("{}{}", prefix, index)
+    }
+
     fn add_query_variables(&mut self, field: &mut Field) {
         let url_utility = UrlUtility::new(self.url);
 
@@ -117,8 +139,7 @@ impl<'a> HttpDirectiveGenerator<'a> {
 
             let arg = Arg { type_of, ..Default::default() };
 
-            // Convert query key to camel case for better readability.
-            let query_key = query.key.to_case(Case::Camel);
+            let query_key = Self::to_arg_name(&query.key, field);
             let value: String = format!("{{{{.args.{}}}}}", query_key);
 
             self.http
-- 
2.43.0


From 9f4b5b48d95829eb4f1b3405dfeb353480a97b61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 57/71] fix: REST paths and queries accepted inf and NaN as
 floats and passed them on as null

---
 src/core/rest/error.rs           | 4 ++++
 src/core/rest/typed_variables.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/error.rs b/src/core/rest/error.rs
index f0fde34..0e955c1 100644
--- a/src/core/rest/error.rs
+++ b/src/core/rest/error.rs
@@ -31,6 +31,10 @@ pub enum Error {
     #[error("Parse Float Error: {}", _0)]
     ParseFloatingPoint(ParseFloatError),
 
+    #[error("Number is not finite: {}", _0)]
+    #[from(ignore)]
+    NotFinite(String),
+
     #[error("Parse Boolean Error: {}", _0)]
     ParseBoolean(ParseBoolError),
 
diff --git a/src/core/rest/typed_variables.rs b/src/core/rest/typed_variables.rs
index e488996..d7f7125 100644
--- a/src/core/rest/typed_variables.rs
+++ b/src/core/rest/typed_variables.rs
@@ -20,7 +20,14 @@ impl N {
     fn to_value(&self, value: &str) -> Result<ConstValue> {
         Ok(match self {
             Self::Int => ConstValue::from(value.parse::<i64>()?),
-            Self::Float => ConstValue::from(value.parse::<f64>()?),
+            Self::Float => {
+                let number = value.parse::<f64>()?;
+                if !number.is_finite() {
+                    // "inf", "NaN" and numbers out of range are no GraphQL floats
+                    return Err(Error::NotFinite(value.to_string()));
+                }
+                ConstValue::from(number)
+            }
         })
     }
 }
-- 
2.43.0


From 51b0106d196cb09804cb946fb97ded9f688be3b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 58/71] fix: lists of types of which all fields have resolvers
 were answered with null below other fields

---
 src/core/blueprint/definitions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 74aff06..cca04b7 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -223,6 +223,8 @@ pub fn fix_dangling_resolvers<'a>() -> TryFold<
         move |(config, field, _, name), mut b_field| {
             let mut set = HashSet::new();
             if !field.has_resolver()
+                // a list has to come from the parent's value
+                && !field.type_of.is_list()
                 && validate_field_has_resolver(name, field, &config.types, &mut set).is_succeed()
             {
                 b_field = b_field.resolver(Some(IR::Dynamic(DynamicValue::Value(
-- 
2.43.0


From b24453d07bf33fe032c4aedac633389508e8bbe6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 59/71] fix: tree shaking removed types that implement an
 interface in use

---
 src/core/config/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index 3cf91aa..35e83c8 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -594,6 +594,7 @@ impl Config {
     pub fn get_all_used_type_names(&self) -> HashSet<String> {
         let mut set = HashSet::new();
         let mut stack = Vec::new();
+        let implementors = self.interfaces_types_map();
         if let Some(query) = &self.schema.query {
             stack.push(query.clone());
         }
@@ -610,7 +611,7 @@ impl Config {
                     stack.push(type_.clone());
                 }
             } else if let Some(typ) = self.types.get(&type_name) {
-                set.insert(type_name);
+                set.insert(type_name.clone());
                 for field in typ.fields.values() {
                     stack.extend(field.args.values().map(|arg| arg.type_of.name().to_owned()));
                     stack.push(field.type_of.name().clone());
@@ -618,6 +619,10 @@ impl Config {
                 for interface in typ.implements.iter() {
                     stack.push(interface.clone())
                 }
+                // values of an interface are of the types that implement it
+                if let Some(types) = implementors.get(&type_name) {
+                    stack.extend(types.iter().cloned());
+                }
             }
         }
 
-- 
2.43.0


From 224fb550ca1401289884f8eff8e07d5f8598d4a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 60/71] fix: fields with resolvers and interfaces were taken
 for wrappers of a single field

---
 src/core/config/transformer/flatten_single_field.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/config/transformer/flatten_single_field.rs b/src/core/config/transformer/flatten_single_field.rs
index 1f8f53f..7c8379a 100644
--- a/src/core/config/transformer/flatten_single_field.rs
+++ b/src/core/config/transformer/flatten_single_field.rs
@@ -25,10 +25,22 @@ fn get_single_field_path(
     if config.is_scalar(type_name) || config.enums.contains_key(type_name) {
         return Some(path);
     }
+    if config
+        .types
+        .values()
+        .any(|ty| ty.implements.contains(type_name))
+    {
+        // types that implement the interface could have more fields
+        return None;
+    }
     let ty = config.types.get(type_name);
     if let Some(ty) = ty {
         if ty.fields.len() == 1 {
             if let Some((sub_field_name, sub_field)) = ty.fields.first_key_value() {
+                if sub_field.has_resolver() {
+                    // the path of an added field can't go through a resolver
+                    return None;
+                }
                 let sub_path = get_single_field_path(
                     config,
                     sub_field_name,
-- 
2.43.0


From 55a8d0dbf41ca029c17f22cb349f763bcb1e490f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 61/71] fix: a union used twice within others was reported as
 recursive

---
 src/core/config/transformer/nested_unions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/config/transformer/nested_unions.rs b/src/core/config/transformer/nested_unions.rs
index f7dea98..c2d20d0 100644
--- a/src/core/config/transformer/nested_unions.rs
+++ b/src/core/config/transformer/nested_unions.rs
@@ -54,12 +54,15 @@ impl<'cfg> Visitor<'cfg> {
     ) -> Valid<(), String> {
         Valid::from_iter(union_.types.iter(), |type_name| {
             if let Some(union_) = self.unions.get(type_name) {
-                if seen.contains(type_name) {
+                // only the unions on the way to this one are relevant, it's fine to use the
+                // same union several times
+                if !seen.insert(type_name) {
                     return Valid::fail(format!("Recursive type {type_name}"));
                 }
 
-                seen.insert(type_name);
-                self.walk_union(union_, union_types, seen)
+                let valid = self.walk_union(union_, union_types, seen);
+                seen.remove(type_name);
+                valid
             } else {
                 union_types.insert(type_name.clone());
                 Valid::succeed(())
-- 
2.43.0


From ef415b86ea22964f957b980581dc96b46a7c8fc0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 62/71] fix: renaming types overwrote types of the new name and
 broke swapped names

---
 src/core/config/transformer/rename_types.rs | 110 ++++++++++----------
 1 file changed, 53 insertions(+), 57 deletions(-)

diff --git a/src/core/config/transformer/rename_types.rs b/src/core/config/transformer/rename_types.rs
index 26d9b59..d08f373 100644
--- a/src/core/config/transformer/rename_types.rs
+++ b/src/core/config/transformer/rename_types.rs
@@ -1,9 +1,10 @@
-use std::collections::HashSet;
+use std::collections::BTreeMap;
 
 use indexmap::IndexMap;
 use tailcall_valid::{Valid, Validator};
 
 use crate::core::config::Config;
+use crate::core::scalar::Scalar;
 use crate::core::Transform;
 
 /// A transformer that renames existing types by replacing them with suggested
@@ -20,6 +21,17 @@ impl RenameTypes {
     }
 }
 
+fn rename_keys<T>(map: &mut BTreeMap<String, T>, lookup: &IndexMap<String, String>) {
+    let renamed = lookup
+        .iter()
+        .filter_map(|(existing_name, suggested_name)| {
+            Some((suggested_name.clone(), map.remove(existing_name)?))
+        })
+        .collect::<Vec<_>>();
+
+    map.extend(renamed);
+}
+
 impl Transform for RenameTypes {
     type Value = Config;
     type Error = String;
@@ -28,46 +40,52 @@ impl Transform for RenameTypes {
         let mut config = config;
         let mut lookup = IndexMap::new();
 
-        // Ensure all types exist in the configuration
-        Valid::from_iter(self.0.iter(), |(existing_name, suggested_name)| {
-            if config.types.contains_key(existing_name)
-                || config.enums.contains_key(existing_name)
-                || config.unions.contains_key(existing_name)
-            {
-                // handle for the types.
-                if let Some(type_info) = config.types.remove(existing_name) {
-                    config.types.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-
-                    // edge case where type is of operation type.
-                    if config.schema.query == Some(existing_name.clone()) {
-                        config.schema.query = Some(suggested_name.clone());
-                    } else if config.schema.mutation == Some(existing_name.clone()) {
-                        config.schema.mutation = Some(suggested_name.clone());
-                    }
-                }
+        let contains = |name: &String| {
+            config.types.contains_key(name)
+                || config.enums.contains_key(name)
+                || config.unions.contains_key(name)
+        };
 
-                // handle for the enums.
-                if let Some(type_info) = config.enums.remove(existing_name) {
-                    config.enums.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-                }
-
-                // handle for the union.
-                if let Some(type_info) = config.unions.remove(existing_name) {
-                    config.unions.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-                }
-
-                Valid::succeed(())
-            } else {
-                Valid::fail(format!(
+        // Ensure all types exist in the configuration and the new names are free
+        Valid::from_iter(self.0.iter(), |(existing_name, suggested_name)| {
+            if !contains(existing_name) {
+                return Valid::fail(format!(
                     "Type '{}' not found in configuration.",
                     existing_name
-                ))
+                ));
+            }
+
+            let is_taken = lookup.values().any(|name| name == suggested_name)
+                || Scalar::is_predefined(suggested_name)
+                || (contains(suggested_name) && !self.0.contains_key(suggested_name));
+
+            if is_taken && existing_name != suggested_name {
+                return Valid::fail(format!(
+                    "Type '{}' can't be renamed to '{}', the name is already in use.",
+                    existing_name, suggested_name
+                ));
             }
+
+            lookup.insert(existing_name.clone(), suggested_name.clone());
+            Valid::succeed(())
         })
         .map(|_| {
+            // names could be swapped so everything has to be taken out before it's put back
+            rename_keys(&mut config.types, &lookup);
+            rename_keys(&mut config.enums, &lookup);
+            rename_keys(&mut config.unions, &lookup);
+
+            // edge case where type is of operation type.
+            for operation in [
+                &mut config.schema.query,
+                &mut config.schema.mutation,
+                &mut config.schema.subscription,
+            ] {
+                if let Some(suggested_name) = operation.as_ref().and_then(|name| lookup.get(name)) {
+                    *operation = Some(suggested_name.clone());
+                }
+            }
+
             for type_ in config.types.values_mut() {
                 for field_ in type_.fields.values_mut() {
                     // replace type of field.
@@ -97,28 +115,6 @@ impl Transform for RenameTypes {
                     .collect();
             }
 
-            // replace in the union as well.
-            for union_type_ in config.unions.values_mut() {
-                // Collect changes to be made
-                let mut types_to_remove = HashSet::new();
-                let mut types_to_add = HashSet::new();
-
-                for type_name in union_type_.types.iter() {
-                    if let Some(new_type_name) = lookup.get(type_name) {
-                        types_to_remove.insert(type_name.clone());
-                        types_to_add.insert(new_type_name.clone());
-                    }
-                }
-                // Apply changes
-                for type_name in types_to_remove {
-                    union_type_.types.remove(&type_name);
-                }
-
-                for type_name in types_to_add {
-                    union_type_.types.insert(type_name);
-                }
-            }
-
             // replace in union as well.
             for union_type_ in config.unions.values_mut() {
                 union_type_.types = union_type_
-- 
2.43.0


From 0d1d3c0a33fbd6a0ba4f1cab1890e3e79deff436 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 63/71] fix: types of different shape were merged

---
 .../transformer/merge_types/similarity.rs     | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/core/config/transformer/merge_types/similarity.rs b/src/core/config/transformer/merge_types/similarity.rs
index f0ca65d..c702d18 100644
--- a/src/core/config/transformer/merge_types/similarity.rs
+++ b/src/core/config/transformer/merge_types/similarity.rs
@@ -62,6 +62,10 @@ impl<'a> Similarity<'a> {
                     let field_1_type_of = field_1.type_of.name();
                     let field_2_type_of = field_2.type_of.name();
 
+                    if field_1.resolvers != field_2.resolvers || field_1.args != field_2.args {
+                        return Valid::fail("Type merge failed: same field names but different resolvers or arguments.".to_string());
+                    }
+
                     if config.is_scalar(field_1_type_of) && config.is_scalar(field_2_type_of) {
                         // if field type_of is scalar and they don't match then we can't merge
                         // types.
@@ -93,9 +97,15 @@ impl<'a> Similarity<'a> {
                         }
                     } else if let Some(type_1) = config.types.get(field_1_type_of) {
                         if let Some(type_2) = config.types.get(field_2_type_of) {
+                            if field_1.type_of.is_list() != field_2.type_of.is_list() {
+                                return Valid::fail("Type merge failed: The fields have different list types and cannot be merged.".to_string());
+                            }
+
                             if visited_type.contains(field_1_type_of, field_2_type_of) {
-                                // it's cyclic type, return true as they're the same.
-                                return Valid::succeed(true);
+                                // it's cyclic type, the fields are of the same type as far as they
+                                // are known.
+                                same_field_count += 1;
+                                continue;
                             }
                             visited_type
                                 .insert(field_1_type_of.to_owned(), field_2_type_of.to_owned());
@@ -110,12 +120,26 @@ impl<'a> Similarity<'a> {
                             let is_nested_type_similar =
                                 self.similarity_inner(type_info, visited_type, threshold);
 
-                            if let Ok(result) = is_nested_type_similar.clone().to_result() {
-                                same_field_count += if result { 1 } else { 0 };
-                            } else {
-                                return is_nested_type_similar;
+                            match is_nested_type_similar.to_result() {
+                                Ok(true) => same_field_count += 1,
+                                Ok(false) => {
+                                    return Valid::fail(
+                                        "Type merge failed: same field names but different types."
+                                            .to_string(),
+                                    )
+                                }
+                                Err(err) => return Valid::from_validation_err(err),
                             }
+                        } else {
+                            return Valid::fail(
+                                "Type merge failed: same field names but different types."
+                                    .to_string(),
+                            );
                         }
+                    } else {
+                        return Valid::fail(
+                            "Type merge failed: same field names but different types.".to_string(),
+                        );
                     }
                 }
             }
-- 
2.43.0


From a6d8f6544e8ef597862b5bb6c5b415da29055844 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 64/71] fix: protobuf messages that refer to themselves ended
 the process

---
 src/core/json/json_schema.rs | 77 ++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index d07d5f2..972dbf8 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -4,7 +4,7 @@ use std::fmt::Display;
 use convert_case::{Case, Casing};
 use prost_reflect::{EnumDescriptor, FieldDescriptor, Kind, MessageDescriptor};
 use serde::{Deserialize, Serialize};
-use tailcall_valid::{Valid, Validator};
+use tailcall_valid::{Valid, ValidationError, Validator};
 
 #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, schemars::JsonSchema)]
 #[serde(rename = "schema")]
@@ -239,20 +239,30 @@ impl JsonSchema {
     }
 }
 
-impl TryFrom<&MessageDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
+impl JsonSchema {
+    /// `parents` are the messages that are being described already. Where one
+    /// of them is met again, i.e. the message refers to itself, any value is
+    /// allowed as such a schema has no end.
+    fn from_message(
+        value: &MessageDescriptor,
+        parents: &mut Vec<String>,
+    ) -> Result<Self, ValidationError<String>> {
         if value.is_map_entry() {
             // we encode protobuf's map as JSON scalar
             return Ok(JsonSchema::Any);
         }
 
+        if parents.iter().any(|name| name == value.full_name()) {
+            return Ok(JsonSchema::Any);
+        }
+
+        parents.push(value.full_name().to_string());
+
         let mut map = BTreeMap::new();
         let fields = value.fields();
 
         for field in fields {
-            let field_schema = JsonSchema::try_from(&field)?;
+            let field_schema = JsonSchema::from_field(&field, parents)?;
 
             // the snake_case for field names is automatically converted to camelCase
             // by prost on serde serialize/deserealize and in graphql type name should be in
@@ -260,30 +270,19 @@ impl TryFrom<&MessageDescriptor> for JsonSchema {
             map.insert(field.name().to_case(Case::Camel), field_schema);
         }
 
+        parents.pop();
+
         if map.is_empty() {
             Ok(JsonSchema::Empty)
         } else {
             Ok(JsonSchema::Obj(map))
         }
     }
-}
-
-impl TryFrom<&EnumDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
-        let mut set = BTreeSet::new();
-        for value in value.values() {
-            set.insert(value.name().to_string());
-        }
-        Ok(JsonSchema::Enum(set))
-    }
-}
 
-impl TryFrom<&FieldDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+    fn from_field(
+        value: &FieldDescriptor,
+        parents: &mut Vec<String>,
+    ) -> Result<Self, ValidationError<String>> {
         let field_schema = match value.kind() {
             Kind::Double => JsonSchema::Num,
             Kind::Float => JsonSchema::Num,
@@ -300,7 +299,7 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
             Kind::Bool => JsonSchema::Bool,
             Kind::String => JsonSchema::Str,
             Kind::Bytes => JsonSchema::Str,
-            Kind::Message(msg) => JsonSchema::try_from(&msg)?,
+            Kind::Message(msg) => JsonSchema::from_message(&msg, parents)?,
             Kind::Enum(enm) => JsonSchema::try_from(&enm)?,
         };
         let field_schema = if value
@@ -322,6 +321,34 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
     }
 }
 
+impl TryFrom<&MessageDescriptor> for JsonSchema {
+    type Error = ValidationError<String>;
+
+    fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
+        JsonSchema::from_message(value, &mut Vec::new())
+    }
+}
+
+impl TryFrom<&EnumDescriptor> for JsonSchema {
+    type Error = ValidationError<String>;
+
+    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
+        let mut set = BTreeSet::new();
+        for value in value.values() {
+            set.insert(value.name().to_string());
+        }
+        Ok(JsonSchema::Enum(set))
+    }
+}
+
+impl TryFrom<&FieldDescriptor> for JsonSchema {
+    type Error = ValidationError<String>;
+
+    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+        JsonSchema::from_field(value, &mut Vec::new())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::{BTreeMap, BTreeSet};
@@ -330,7 +357,7 @@ mod tests {
     use indexmap::IndexMap;
     use pretty_assertions::assert_eq;
     use tailcall_fixtures::protobuf;
-    use tailcall_valid::{Valid, Validator};
+    use tailcall_valid::{Valid, ValidationError, Validator};
 
     use crate::core::blueprint::GrpcMethod;
     use crate::core::grpc::protobuf::tests::get_proto_file;
-- 
2.43.0


From e9ae38d57b595b091b62ad5c60b4f79dca59d681 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 65/71] fix: values inside of strings of gRPC bodies were not
 escaped

---
 src/core/grpc/request_template.rs | 9 ++++++---
 src/core/http/mod.rs              | 1 +
 src/core/http/request_template.rs | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index c71c02c..c42fae6 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -12,7 +12,8 @@ use crate::core::grpc::protobuf::ProtobufOperation;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
-use crate::core::mustache::Mustache;
+use crate::core::http::ExpressionValueEval;
+use crate::core::mustache::{Eval, Mustache};
 use crate::core::path::PathString;
 
 static GRPC_MIME_TYPE: HeaderValue = HeaderValue::from_static("application/grpc");
@@ -35,7 +36,8 @@ pub struct RequestBody {
 impl RequestBody {
     pub fn render<C: PathString>(&self, ctx: &C) -> String {
         if let Some(mustache) = &self.mustache {
-            mustache.render(ctx)
+            let (body, _) = ExpressionValueEval::default().eval(mustache, ctx);
+            body
         } else {
             self.value.to_string()
         }
@@ -149,7 +151,8 @@ mod tests {
     };
     use crate::core::grpc::protobuf::{ProtobufOperation, ProtobufSet};
     use crate::core::ir::model::CacheKey;
-    use crate::core::mustache::Mustache;
+    use crate::core::http::ExpressionValueEval;
+use crate::core::mustache::{Eval, Mustache};
 
     async fn get_protobuf_op() -> ProtobufOperation {
         let test_file = protobuf::GREETINGS;
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index f06c7d4..fb3a7cd 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -6,6 +6,7 @@ pub use method::Method;
 pub use query_encoder::QueryEncoder;
 pub use request_context::RequestContext;
 pub use request_handler::{handle_request, API_URL_PREFIX};
+pub(crate) use request_template::ExpressionValueEval;
 pub use request_template::RequestTemplate;
 pub use response::*;
 
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 0860827..fd36d6b 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -342,7 +342,8 @@ impl<'a, A: PathString> Eval<'a> for RootUrlEval<A> {
     }
 }
 
-struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
+/// Renders bodies: values inside of strings of a json text are escaped
+pub(crate) struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
 impl<A> Default for ExpressionValueEval<A> {
     fn default() -> Self {
         Self(std::marker::PhantomData)
-- 
2.43.0


From 21e43a798e7b0ad29edb7eebf5fee2d69f6a7638 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 66/71] fix: batched gRPC fields had to be non-null and of
 exactly the message's fields

---
 src/core/blueprint/operators/grpc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/operators/grpc.rs b/src/core/blueprint/operators/grpc.rs
index cc4b85f..41f1b53 100644
--- a/src/core/blueprint/operators/grpc.rs
+++ b/src/core/blueprint/operators/grpc.rs
@@ -129,8 +129,8 @@ fn validate_group_by(
             let fields = &field_schema.field;
             // we're treating List types for gRPC as optional.
             let fields = JsonSchema::Opt(Box::new(JsonSchema::Arr(Box::new(fields.to_owned()))));
-            match fields
-                .is_a(&output_schema, group_by[0].as_str())
+            match output_schema
+                .is_a(&fields, group_by[0].as_str())
                 .to_result()
             {
                 Ok(res) => Valid::succeed(res),
-- 
2.43.0


From c91f7338574ed1d40927546ddcb41a71527e4f28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 67/71] fix: introspection fields inside of fragments were not
 answered

---
 src/core/jit/builder.rs | 48 +++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 595029c..9b4d995 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -543,6 +543,42 @@ impl<'a> Builder<'a> {
         Ok(())
     }
 
+    /// Checks if the selection has introspection fields at the root, in inline
+    /// fragments and fragment spreads as well.
+    fn asks_for_introspection(
+        selection: &SelectionSet,
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> bool {
+        let mut visited = HashSet::new();
+        let mut selections = vec![selection];
+
+        while let Some(selection) = selections.pop() {
+            for item in &selection.items {
+                match &item.node {
+                    Selection::Field(field) => {
+                        let name = field.node.name.node.as_str();
+                        if name.contains("__schema") || name.contains("__type") {
+                            return true;
+                        }
+                    }
+                    Selection::InlineFragment(fragment) => {
+                        selections.push(&fragment.node.selection_set.node);
+                    }
+                    Selection::FragmentSpread(spread) => {
+                        let name = spread.node.fragment_name.node.as_str();
+                        if let Some(fragment) = fragments.get(name) {
+                            if visited.insert(name) {
+                                selections.push(&fragment.selection_set.node);
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        false
+    }
+
     #[inline(always)]
     pub fn build(&self, operation_name: Option<&str>) -> Result<OperationPlan<Value>, BuildError> {
         let mut fragments: HashMap<&str, &FragmentDefinition> = HashMap::new();
@@ -565,14 +601,8 @@ impl<'a> Builder<'a> {
         };
         let fields = self.iter(&[source], &fragments);
 
-        let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
-            if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
-                let query = gql_field.name.node.as_str();
-                query.contains("__schema") || query.contains("__type")
-            } else {
-                false
-            }
-        });
+        let is_introspection_query =
+            Self::asks_for_introspection(&operation.selection_set.node, &fragments);
 
         let mut plan = OperationPlan::new(
             name,
-- 
2.43.0


From 060a936b148d6d6281b28e21aec7782f1db18209 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 68/71] fix: predefined scalars that only arguments use made
 the schema invalid

---
 src/core/blueprint/into_schema.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index 3428d0e..e87b720 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -5,7 +5,7 @@ use async_graphql_value::ConstValue;
 use futures_util::TryFutureExt;
 use tracing::Instrument;
 
-use crate::core::blueprint::{Blueprint, Definition};
+use crate::core::blueprint::{Blueprint, Definition, FieldDefinition};
 use crate::core::http::RequestContext;
 use crate::core::ir::{EvalContext, ResolverContext, TypedValue};
 use crate::core::jit::graphql_error::ErrorExtensions;
@@ -220,18 +220,24 @@ fn inject_custom_scalars(mut schema: SchemaBuilder, blueprint: &Blueprint) -> Sc
         }
     }
 
+    fn inject_field_scalars(mut schema: SchemaBuilder, field: &FieldDefinition) -> SchemaBuilder {
+        schema = inject_scalar(schema, field.of_type.name());
+        for arg in &field.args {
+            schema = inject_scalar(schema, arg.of_type.name());
+        }
+        schema
+    }
+
     for ty in blueprint.definitions.clone() {
         match ty {
             Definition::Interface(interface_type_definition) => {
                 for field in interface_type_definition.fields {
-                    let type_name = field.of_type.name();
-                    schema = inject_scalar(schema, type_name);
+                    schema = inject_field_scalars(schema, &field);
                 }
             }
             Definition::Object(object_type_definition) => {
                 for field in object_type_definition.fields {
-                    let type_name = field.of_type.name();
-                    schema = inject_scalar(schema, type_name);
+                    schema = inject_field_scalars(schema, &field);
                 }
             }
             Definition::InputObject(input_object_type_definition) => {
-- 
2.43.0


From 5dfe42c22f7d695c6e3dd93d8ccbec4ce313a70f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 69/71] fix: default values of enums were described as strings

---
 src/core/blueprint/into_schema.rs | 63 ++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index e87b720..0adc007 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_graphql::dynamic::{self, FieldFuture, FieldValue, SchemaBuilder, TypeRef};
-use async_graphql_value::ConstValue;
+use async_graphql_value::{ConstValue, Name};
 use futures_util::TryFutureExt;
 use tracing::Instrument;
 
@@ -10,6 +10,7 @@ use crate::core::http::RequestContext;
 use crate::core::ir::{EvalContext, ResolverContext, TypedValue};
 use crate::core::jit::graphql_error::ErrorExtensions;
 use crate::core::scalar::Scalar;
+use crate::core::Type;
 
 /// We set the default value for an `InputValue` by reading it from the
 /// blueprint and assigning it to the provided `InputValue` during the
@@ -20,9 +21,11 @@ use crate::core::scalar::Scalar;
 fn set_default_value(
     input_value: dynamic::InputValue,
     value: Option<serde_json::Value>,
+    of_type: &Type,
+    blueprint: &Blueprint,
 ) -> dynamic::InputValue {
     if let Some(value) = value {
-        match ConstValue::from_json(value) {
+        match to_default_value(value, of_type, blueprint) {
             Ok(const_value) => input_value.default_value(const_value),
             Err(err) => {
                 tracing::warn!("conversion from serde_json::Value to ConstValue failed for default_value with error {err:?}");
@@ -34,6 +37,49 @@ fn set_default_value(
     }
 }
 
+/// Converts a default value to the literal of its type: values of enums are
+/// written without quotes.
+fn to_default_value(
+    value: serde_json::Value,
+    of_type: &Type,
+    blueprint: &Blueprint,
+) -> serde_json::Result<ConstValue> {
+    let name = match of_type {
+        Type::List { of_type, .. } => {
+            return match value {
+                serde_json::Value::Array(values) => values
+                    .into_iter()
+                    .map(|value| to_default_value(value, of_type, blueprint))
+                    .collect::<serde_json::Result<_>>()
+                    .map(ConstValue::List),
+                value => to_default_value(value, of_type, blueprint),
+            }
+        }
+        Type::Named { name, .. } => name,
+    };
+
+    match (
+        value,
+        blueprint.definitions.iter().find(|def| def.name() == name),
+    ) {
+        (serde_json::Value::String(value), Some(Definition::Enum(_))) => {
+            Ok(ConstValue::Enum(Name::new(value)))
+        }
+        (serde_json::Value::Object(values), Some(Definition::InputObject(def))) => values
+            .into_iter()
+            .map(|(key, value)| {
+                let value = match def.fields.iter().find(|field| field.name == key) {
+                    Some(field) => to_default_value(value, &field.of_type, blueprint),
+                    None => ConstValue::from_json(value),
+                }?;
+                Ok((Name::new(key), value))
+            })
+            .collect::<serde_json::Result<_>>()
+            .map(ConstValue::Object),
+        (value, _) => ConstValue::from_json(value),
+    }
+}
+
 fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     match value {
         ConstValue::List(vec) => FieldValue::list(vec.into_iter().map(to_field_value)),
@@ -51,7 +97,7 @@ fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     }
 }
 
-fn to_type(def: &Definition) -> dynamic::Type {
+fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
     match def {
         Definition::Object(def) => {
             let mut object = dynamic::Object::new(def.name.clone());
@@ -122,6 +168,8 @@ fn to_type(def: &Definition) -> dynamic::Type {
                     dyn_schema_field = dyn_schema_field.argument(set_default_value(
                         dynamic::InputValue::new(arg.name.clone(), TypeRef::from(&arg.of_type)),
                         arg.default_value.clone(),
+                        &arg.of_type,
+                        blueprint,
                     ));
                 }
                 object = object.field(dyn_schema_field);
@@ -154,7 +202,12 @@ fn to_type(def: &Definition) -> dynamic::Type {
                 if let Some(description) = &field.description {
                     input_field = input_field.description(description);
                 }
-                let input_field = set_default_value(input_field, field.default_value.clone());
+                let input_field = set_default_value(
+                    input_field,
+                    field.default_value.clone(),
+                    &field.of_type,
+                    blueprint,
+                );
                 input_object = input_object.field(input_field);
             }
             if let Some(description) = &def.description {
@@ -201,7 +254,7 @@ impl From<&Blueprint> for SchemaBuilder {
         schema = inject_custom_scalars(schema, blueprint);
 
         for def in blueprint.definitions.iter() {
-            schema = schema.register(to_type(def));
+            schema = schema.register(to_type(def, blueprint));
         }
 
         schema
-- 
2.43.0


From 7bde43a6180a630535e41081fbb7de8b8ca8333d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 70/71] fix: arguments and descriptions of interfaces and other
 definitions were missing in introspection

---
 src/core/blueprint/into_schema.rs | 61 ++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index 0adc007..567cdb2 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -5,7 +5,7 @@ use async_graphql_value::{ConstValue, Name};
 use futures_util::TryFutureExt;
 use tracing::Instrument;
 
-use crate::core::blueprint::{Blueprint, Definition, FieldDefinition};
+use crate::core::blueprint::{Blueprint, Definition, FieldDefinition, InputFieldDefinition};
 use crate::core::http::RequestContext;
 use crate::core::ir::{EvalContext, ResolverContext, TypedValue};
 use crate::core::jit::graphql_error::ErrorExtensions;
@@ -97,6 +97,19 @@ fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     }
 }
 
+fn to_input_value(def: &InputFieldDefinition, blueprint: &Blueprint) -> dynamic::InputValue {
+    let mut input_value = dynamic::InputValue::new(def.name.clone(), TypeRef::from(&def.of_type));
+    if let Some(description) = &def.description {
+        input_value = input_value.description(description);
+    }
+    set_default_value(
+        input_value,
+        def.default_value.clone(),
+        &def.of_type,
+        blueprint,
+    )
+}
+
 fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
     match def {
         Definition::Object(def) => {
@@ -165,12 +178,7 @@ fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
                     dyn_schema_field = dyn_schema_field.description(description);
                 }
                 for arg in field.args.iter() {
-                    dyn_schema_field = dyn_schema_field.argument(set_default_value(
-                        dynamic::InputValue::new(arg.name.clone(), TypeRef::from(&arg.of_type)),
-                        arg.default_value.clone(),
-                        &arg.of_type,
-                        blueprint,
-                    ));
+                    dyn_schema_field = dyn_schema_field.argument(to_input_value(arg, blueprint));
                 }
                 object = object.field(dyn_schema_field);
             }
@@ -186,10 +194,23 @@ fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
         Definition::Interface(def) => {
             let mut interface = dynamic::Interface::new(def.name.clone());
             for field in def.fields.iter() {
-                interface = interface.field(dynamic::InterfaceField::new(
+                let mut interface_field = dynamic::InterfaceField::new(
                     field.name.clone(),
                     TypeRef::from(&field.of_type),
-                ));
+                );
+                if let Some(description) = &field.description {
+                    interface_field = interface_field.description(description);
+                }
+                for arg in field.args.iter() {
+                    interface_field = interface_field.argument(to_input_value(arg, blueprint));
+                }
+                interface = interface.field(interface_field);
+            }
+            if let Some(description) = &def.description {
+                interface = interface.description(description);
+            }
+            for implemented in def.implements.iter() {
+                interface = interface.implement(implemented.clone());
             }
 
             dynamic::Type::Interface(interface)
@@ -197,18 +218,7 @@ fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
         Definition::InputObject(def) => {
             let mut input_object = dynamic::InputObject::new(def.name.clone());
             for field in def.fields.iter() {
-                let mut input_field =
-                    dynamic::InputValue::new(field.name.clone(), TypeRef::from(&field.of_type));
-                if let Some(description) = &field.description {
-                    input_field = input_field.description(description);
-                }
-                let input_field = set_default_value(
-                    input_field,
-                    field.default_value.clone(),
-                    &field.of_type,
-                    blueprint,
-                );
-                input_object = input_object.field(input_field);
+                input_object = input_object.field(to_input_value(field, blueprint));
             }
             if let Some(description) = &def.description {
                 input_object = input_object.description(description);
@@ -228,7 +238,11 @@ fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
         Definition::Enum(def) => {
             let mut enum_type = dynamic::Enum::new(def.name.clone());
             for value in def.enum_values.iter() {
-                enum_type = enum_type.item(dynamic::EnumItem::new(value.name.clone()));
+                let mut item = dynamic::EnumItem::new(value.name.clone());
+                if let Some(description) = &value.description {
+                    item = item.description(description);
+                }
+                enum_type = enum_type.item(item);
             }
             if let Some(desc) = def.description.clone() {
                 enum_type = enum_type.description(desc);
@@ -240,6 +254,9 @@ fn to_type(def: &Definition, blueprint: &Blueprint) -> dynamic::Type {
             for type_ in def.types.iter() {
                 union = union.possible_type(type_.clone());
             }
+            if let Some(description) = &def.description {
+                union = union.description(description);
+            }
             dynamic::Type::Union(union)
         }
     }
-- 
2.43.0


From 393d6f8dfdbc24c51da8b6e9acbd3ac54c5c1e7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:38:22 +0000
Subject: [PATCH 71/71] fix: descriptions of custom scalars were dropped

---
 src/core/blueprint/definitions.rs | 9 ++++++---
 src/core/config/from_document.rs  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index cca04b7..b901ba8 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -13,14 +13,17 @@ use crate::core::ir::model::{Cache, IR};
 use crate::core::try_fold::TryFold;
 use crate::core::{config, scalar, Type};
 
-pub fn to_scalar_type_definition(name: &str) -> Valid<Definition, BlueprintError> {
+pub fn to_scalar_type_definition(
+    name: &str,
+    type_of: &config::Type,
+) -> Valid<Definition, BlueprintError> {
     if scalar::Scalar::is_predefined(name) {
         Valid::fail(BlueprintError::ScalarTypeIsPredefined(name.to_string()))
     } else {
         Valid::succeed(Definition::Scalar(ScalarTypeDefinition {
             name: name.to_string(),
             directives: Vec::new(),
-            description: None,
+            description: type_of.doc.clone(),
             scalar: scalar::Scalar::find(name)
                 .unwrap_or(&scalar::Scalar::Empty)
                 .clone(),
@@ -437,7 +440,7 @@ pub fn to_definitions<'a>() -> TryFold<'a, ConfigModule, Vec<Definition>, Bluepr
     TryFold::<ConfigModule, Vec<Definition>, BlueprintError>::new(|config_module, _| {
         Valid::from_iter(config_module.types.iter(), |(name, type_)| {
             if type_.scalar() {
-                to_scalar_type_definition(name).trace(name)
+                to_scalar_type_definition(name, type_).trace(name)
             } else {
                 to_object_type_definition(name, type_, config_module)
                     .trace(name)
diff --git a/src/core/config/from_document.rs b/src/core/config/from_document.rs
index 2009693..ace227b 100644
--- a/src/core/config/from_document.rs
+++ b/src/core/config/from_document.rs
@@ -167,7 +167,9 @@ fn to_types(
             .trace(&type_name)
             .some(),
             TypeKind::Union(_) => Valid::none(),
-            TypeKind::Scalar => Valid::succeed(Some(to_scalar_type())),
+            TypeKind::Scalar => Valid::succeed(Some(to_scalar_type(
+                &type_definition.node.description,
+            ))),
         }
         .map(|option| (type_name, option))
     })
@@ -178,8 +180,9 @@ fn to_types(
         )
     })
 }
-fn to_scalar_type() -> config::Type {
-    config::Type { ..Default::default() }
+fn to_scalar_type(description: &Option<Positioned<String>>) -> config::Type {
+    let doc = description.to_owned().map(|pos| pos.node);
+    config::Type { doc, ..Default::default() }
 }
 fn to_union_types(
     type_definitions: &[&Positioned<TypeDefinition>],
-- 
2.43.0

