From 61a4bd1221fb894f56f6e1377e4b90b8d6549721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 01/18] fix: forward is_guard through failure-mode and tracing
 wrappers

The pipeline records a guard only when the Task it holds reports is_guard();
FailureModeTask and TracingDecoratorTask fell back to the default (false), so
terminating a pipeline with a wrapped guard in flight replaced it with a
no-op response processor that never lowered the barrier.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..ed8088e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -46,4 +46,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From 416c16093a2eaab813966bf885e654f3a6112fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 02/18] fix: fail or retry actions waiting for a body by the
 values still missing

Service and fail actions failed as soon as one of the bodies they depend on had
ended, even when its values were there and only the other body was awaited;
reply, header and store actions were requeued forever (or failed right away for
a reply expression). All of them now wait until a body ended without the values.
---
 crates/kuadrant-filter/src/data/cel.rs        | 24 +++++++++----------
 crates/kuadrant-filter/src/kuadrant/mod.rs    |  1 +
 .../src/kuadrant/pipeline/tasks/dynamic.rs    | 12 ++--------
 .../src/kuadrant/pipeline/tasks/fail.rs       |  5 +---
 .../src/kuadrant/pipeline/tasks/headers.rs    | 12 ++++++++--
 .../src/kuadrant/pipeline/tasks/send_reply.rs | 13 +++++++---
 .../src/kuadrant/pipeline/tasks/store.rs      | 12 ++++++++--
 7 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..18b617f 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -4,7 +4,7 @@ use crate::data::grpc::{is_grpc_content_type, parse_grpc_path};
 use crate::data::Headers;
 #[cfg(feature = "debug-host-behaviour")]
 use crate::kuadrant::resolver::AttributeResolver;
-use crate::kuadrant::ReqRespCtx;
+use crate::kuadrant::{BodyContext, ReqRespCtx};
 use cel::common::ast::{EntryExpr, Expr, IdedExpr, LiteralValue};
 use cel::extractors::{Arguments, This};
 use cel::objects::{Key, Map, ValueType};
@@ -326,12 +326,14 @@ impl Expression {
         &self.response_body_values
     }
 
-    pub fn has_request_body_deps(&self) -> bool {
-        !self.request_body_values.is_empty()
-    }
-
-    pub fn has_response_body_deps(&self) -> bool {
-        !self.response_body_values.is_empty()
+    /// Whether a body this expression depends on has been received entirely, without providing all
+    /// the values the expression needs from it: waiting any longer will not make them available.
+    pub fn is_missing_body_values(&self, req_ctx: &ReqRespCtx) -> bool {
+        let missing = |body: &BodyContext, fields: &[String]| {
+            body.is_end_of_stream() && fields.iter().any(|field| body.get_value(field).is_none())
+        };
+        missing(&req_ctx.request_body, &self.request_body_values)
+            || missing(&req_ctx.response_body, &self.response_body_values)
     }
 
     // todo(@adam-cattermole): Temporary method for legacy config translation, remove when legacy support is dropped
@@ -569,12 +571,8 @@ impl Predicate {
         self.expression.response_body_values()
     }
 
-    pub fn has_request_body_deps(&self) -> bool {
-        self.expression.has_request_body_deps()
-    }
-
-    pub fn has_response_body_deps(&self) -> bool {
-        self.expression.has_response_body_deps()
+    pub fn is_missing_body_values(&self, req_ctx: &ReqRespCtx) -> bool {
+        self.expression.is_missing_body_values(req_ctx)
     }
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/mod.rs b/crates/kuadrant-filter/src/kuadrant/mod.rs
index cf2d3ae..742f6cd 100644
--- a/crates/kuadrant-filter/src/kuadrant/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/mod.rs
@@ -7,5 +7,6 @@ pub mod resolver;
 pub use resolver::MockWasmHost;
 
 pub(crate) use cache::CachedValue;
+pub(crate) use context::BodyContext;
 pub use context::{PathReservation, ReqRespCtx};
 pub use pipeline::{Pipeline, PipelineFactory, PipelineState};
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
index 13555e1..c660cca 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
@@ -87,11 +87,7 @@ impl Task for DynamicTask {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return if (self.predicate.has_request_body_deps()
-                    && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                return if self.predicate.is_missing_body_values(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
@@ -118,11 +114,7 @@ impl Task for DynamicTask {
             let mut cel_ctx = ctx.cel.new_ctx(&*self);
             let cel_value = match self.message_builder.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    return if (self.message_builder.has_request_body_deps()
-                        && ctx.request_body.is_end_of_stream())
-                        || (self.message_builder.has_response_body_deps()
-                            && ctx.response_body.is_end_of_stream())
-                    {
+                    return if self.message_builder.is_missing_body_values(ctx) {
                         TaskOutcome::Failed
                     } else {
                         TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
index 8d04c28..a512b9c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
@@ -43,10 +43,7 @@ impl Task for FailTask {
             }
             Ok(AttributeState::Available(false)) => TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                if (self.predicate.has_request_body_deps() && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                if self.predicate.is_missing_body_values(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..48c510b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -67,7 +67,11 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -77,7 +81,11 @@ impl Task for ModifyHeadersTask {
 
         let operation = match self.headers_expr.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.headers_expr.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..4245fe9 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -64,7 +64,11 @@ impl Task for SendReplyTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -78,8 +82,11 @@ impl Task for SendReplyTask {
         let (status_code, headers, body) = {
             match self.deny_with.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    error!("Unexpected pending state in deny expression");
-                    return TaskOutcome::Failed;
+                    return if self.deny_with.is_missing_body_values(ctx) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..da7bb81 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -216,7 +216,11 @@ impl Task for StoreTask {
                 Ok(AttributeState::Available(true)) => {}
                 Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
                 Ok(AttributeState::Pending) => {
-                    return TaskOutcome::Requeued(vec![self]);
+                    return if predicate.is_missing_body_values(ctx) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Err(e) => {
                     error!("Failed to evaluate predicate: {e:?}");
@@ -229,7 +233,11 @@ impl Task for StoreTask {
 
         let value = match self.expression.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.expression.is_missing_body_values(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(val)) => val,
             Err(e) => {
-- 
2.43.0


From 1e4e1bb09eec65fe3158fd85031b45c8831c04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 03/18] fix: wait for reserved values stored under a plain
 variable name

---
 crates/kuadrant-filter/src/data/cel.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 18b617f..d347c4a 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -232,6 +232,17 @@ impl Expression {
             AttributeState::Available(m) => m,
         };
 
+        // Values stored under a plain variable name are no attributes (see below), wait for them too
+        if self
+            .expression
+            .references()
+            .variables()
+            .iter()
+            .any(|name| req_ctx.values.is_pending(name))
+        {
+            return Ok(AttributeState::Pending);
+        }
+
         let request_key: Key = "request".into();
         let mut request_value = map.get(&request_key).cloned().unwrap_or(Value::Null);
         if self.needs_grpc {
-- 
2.43.0


From cd95276f750da8b30d940282b5b56cca894c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 04/18] fix: escape backslashes in the text of an attribute
 path

The text is the cache key: the paths [a\, b] and [a.b] shared one.
---
 crates/kuadrant-filter/src/data/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/attribute.rs b/crates/kuadrant-filter/src/data/attribute.rs
index 17bd539..34019ca 100644
--- a/crates/kuadrant-filter/src/data/attribute.rs
+++ b/crates/kuadrant-filter/src/data/attribute.rs
@@ -179,7 +179,7 @@ impl Display for Path {
             "{}",
             self.tokens
                 .iter()
-                .map(|t| t.replace('.', "\\."))
+                .map(|t| t.replace('\\', "\\\\").replace('.', "\\."))
                 .collect::<Vec<String>>()
                 .join(".")
         )
-- 
2.43.0


From 9824c77337ff8037401f01a4839a9933bf76550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 05/18] fix: never parse the request identifier as an
 expression

The identifier a client sends in x-request-id was spliced into CEL source for
the response header: a quote in it made the filter panic, and a crafted one
could set arbitrary response headers. Build the header pair as literals.
---
 crates/kuadrant-filter/src/data/cel.rs        | 20 ++++++++++++++++++-
 .../src/kuadrant/pipeline/blueprint.rs        |  5 +----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index d347c4a..6084a33 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -5,7 +5,7 @@ use crate::data::Headers;
 #[cfg(feature = "debug-host-behaviour")]
 use crate::kuadrant::resolver::AttributeResolver;
 use crate::kuadrant::{BodyContext, ReqRespCtx};
-use cel::common::ast::{EntryExpr, Expr, IdedExpr, LiteralValue};
+use cel::common::ast::{EntryExpr, Expr, IdedExpr, ListExpr, LiteralValue};
 use cel::extractors::{Arguments, This};
 use cel::objects::{Key, Map, ValueType};
 use cel::parser::{Expression as CelExpression, ParseErrors, Parser};
@@ -202,6 +202,24 @@ impl Expression {
         Self::new_expression(expression, false)
     }
 
+    /// An expression that yields the single header pair `[[name, value]]`.
+    /// Both texts are data: they are never parsed as CEL, whatever they contain.
+    pub fn header_pair(name: &str, value: &str) -> Self {
+        let ided = |expr| IdedExpr { id: 0, expr };
+        let text = |s: &str| ided(Expr::Literal(LiteralValue::String(s.into())));
+        let pair = ided(Expr::List(ListExpr::new(vec![text(name), text(value)])));
+
+        Self {
+            attributes: Vec::default(),
+            request_body_values: Vec::default(),
+            response_body_values: Vec::default(),
+            expression: ided(Expr::List(ListExpr::new(vec![pair]))),
+            extended: false,
+            needs_grpc: false,
+            source: String::default(),
+        }
+    }
+
     #[cfg(test)]
     pub fn new_extended(expression: &str) -> Result<Self, ParseErrors> {
         Self::new_expression(expression, true)
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..bc9f13a 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -97,10 +97,7 @@ impl Action {
                         ctx.set_public_tracker_id(var.clone());
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
-                        #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::header_pair(var, ctx.request_id());
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From daa48db0022f94238eee84e7c70ef4eccef4f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 06/18] fix: indexOf and lastIndexOf no longer panic on an
 offset inside a character

---
 crates/kuadrant-filter/src/data/cel/strings.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..00fe82b 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -39,9 +39,11 @@ pub fn index_of(
             if base >= this.len() {
                 return Ok((-1).into());
             }
-            match this[base..].find(&*arg) {
+            // the offset may lie within a multi-byte character: search from the next one
+            let tail = (base..this.len()).find_map(|start| Some((start, this.get(start..)?)));
+            match tail.and_then(|(start, tail)| Some(start + tail.find(&*arg)?)) {
                 None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
+                Some(idx) => Ok(Value::UInt(idx as u64)),
             }
         }
         _ => Err(ExecutionError::FunctionError {
@@ -78,7 +80,9 @@ pub fn last_index_of(
             if base >= this.len() {
                 return Ok((-1).into());
             }
-            match this[base..].rfind(&*arg) {
+            // the offset may lie within a multi-byte character: search from the next one
+            let tail = (base..this.len()).find_map(|start| this.get(start..));
+            match tail.and_then(|tail| tail.rfind(&*arg)) {
                 None => Ok((-1).into()),
                 Some(idx) => Ok(Value::UInt(idx as u64)),
             }
-- 
2.43.0


From fd2133fbce77c94e8f1124f6e744a4dff99986f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:32 +0000
Subject: [PATCH 07/18] fix: reject deny reply status codes that do not fit
 instead of truncating them

---
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 4245fe9..21bdd8c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -97,7 +97,7 @@ impl Task for SendReplyTask {
                     let status = deny_response
                         .field_value("status")
                         .and_then(|v| v.downcast_ref::<CelUInt>())
-                        .map(|v| *v.inner() as u32);
+                        .and_then(|v| u32::try_from(*v.inner()).ok());
 
                     let body = deny_response
                         .field_value("body")
-- 
2.43.0


From 70825749a7fca0cf47c6ffcb685ab1dd28fd5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 08/18] fix: reject integers that do not fit the protobuf field
 instead of truncating them

---
 .../src/services/dynamic/converters.rs        | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..ff690b4 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -486,7 +486,13 @@ impl MessageConverter {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        let key =
+                            i32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+                                field: key_field.name().to_string(),
+                                expected: "int32 value".to_string(),
+                                got: format!("{}", value),
+                            })?;
+                        Ok(MapKey::I32(key))
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -501,7 +507,15 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        let key =
+                            u32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+                                field: key_field.name().to_string(),
+                                expected: "uint32 value".to_string(),
+                                got: format!("{}", value),
+                            })?;
+                        Ok(MapKey::U32(key))
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -539,7 +553,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                let i32_value =
+                    i32::try_from(*i.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "int32 value".to_string(),
+                        got: format!("{}", i.inner()),
+                    })?;
+                Ok(ProtoValue::I32(i32_value))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -559,7 +579,13 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                let u32_value =
+                    u32::try_from(*u.inner()).map_err(|_| ConversionError::TypeMismatch {
+                        field: field_name.to_string(),
+                        expected: "uint32 value".to_string(),
+                        got: format!("{}", u.inner()),
+                    })?;
+                Ok(ProtoValue::U32(u32_value))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 0785bf2289dd23171c9024d26fe086456d001149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 09/18] fix: reject map keys of the wrong type instead of
 panicking

---
 .../src/services/dynamic/converters.rs         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index ff690b4..2fd8738 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -481,7 +481,14 @@ impl MessageConverter {
         use cel::common::types::CelMapKey;
 
         match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
+            CelMapKey::Bool(b) => match key_field.kind() {
+                ProtoKind::Bool => Ok(MapKey::Bool(*b.inner())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "bool".to_string(),
+                    got: format!("{:?}", key_field.kind()),
+                }),
+            },
             CelMapKey::Int(i) => {
                 let value = *i.inner();
                 match key_field.kind() {
@@ -524,7 +531,14 @@ impl MessageConverter {
                     }),
                 }
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            CelMapKey::String(s) => match key_field.kind() {
+                ProtoKind::String => Ok(MapKey::String(s.inner().to_string())),
+                _ => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: "string".to_string(),
+                    got: format!("{:?}", key_field.kind()),
+                }),
+            },
         }
     }
 
-- 
2.43.0


From 1bc9d06c85e2089ff196e3b052c1d2c93c6b1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:23 +0000
Subject: [PATCH 10/18] fix: reject a configuration whose requestData has an
 invalid expression

---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..a8719c6 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -83,10 +83,8 @@ impl PipelineFactory {
 
         let mut request_data: Vec<((String, String), Expression)> = request_data_raw
             .into_iter()
-            .filter_map(|((domain, field), v)| {
-                Expression::new(&v).ok().map(|expr| ((domain, field), expr))
-            })
-            .collect();
+            .map(|((domain, field), v)| Ok(((domain, field), Expression::new(&v)?)))
+            .collect::<Result<_, CompileError>>()?;
         request_data.sort_by(|a, b| a.0.cmp(&b.0));
 
         //todo(@adam-cattermole): lets clean this up
-- 
2.43.0


From 17218e96a2207074d84a3ed293302500873d3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 11/18] fix: reject a configuration that names an unknown
 tracing service

---
 .../src/kuadrant/pipeline/factory.rs               | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index a8719c6..0061341 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -64,13 +64,13 @@ impl PipelineFactory {
             })
             .collect::<Result<_, CompileError>>()?;
 
-        let tracing_service = config
-            .observability
-            .tracing
-            .as_ref()
-            .and_then(|tracing| services.get(&tracing.service))
-            .cloned()
-            .unwrap_or(ServiceInstance::Tracing(None));
+        let tracing_service = match &config.observability.tracing {
+            Some(tracing) => services
+                .get(&tracing.service)
+                .cloned()
+                .ok_or_else(|| CompileError::UnknownService(tracing.service.clone()))?,
+            None => ServiceInstance::Tracing(None),
+        };
 
         let request_data_raw: Vec<((String, String), String)> = config
             .request_data
-- 
2.43.0


From efc1d7956121e4ccd95f3e81312ee4de061e5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 12/18] fix: failureMode of a service defaults to deny, as
 documented

---
 crates/kuadrant-filter/src/configuration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..78d7c5d 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -242,6 +242,7 @@ pub struct Service {
     pub service_type: ServiceType,
     pub endpoint: String,
     // Deny/Allow request when faced with an irrecoverable failure.
+    #[serde(default)]
     pub failure_mode: FailureMode,
     #[serde(default)]
     pub timeout: Timeout,
-- 
2.43.0


From 52c862554dcdbe67fc065511c2eb83c6465c1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:09 +0000
Subject: [PATCH 13/18] fix: a selection from a map, list or call result is no
 attribute path

---
 crates/kuadrant-filter/src/data/cel.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 6084a33..b2df688 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -865,6 +865,11 @@ fn properties<'e>(
     response_props: &mut Vec<String>,
     path: &mut Vec<&'e str>,
 ) {
+    // Fields selected from anything but a variable are no attribute path
+    if !matches!(ided_exp.expr, Expr::Select(_) | Expr::Ident(_)) {
+        path.clear();
+    }
+
     match &ided_exp.expr {
         Expr::Call(call) => {
             if call.target.is_none()
@@ -884,8 +889,6 @@ fn properties<'e>(
             }
             if let Some(target) = &call.target {
                 properties(target, all, request_props, response_props, path);
-            } else {
-                path.clear();
             }
             for arg in &call.args {
                 properties(arg, all, request_props, response_props, path);
-- 
2.43.0


From 8c0f93959b7927271004c7dfb47946ce5be8507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 14/18] fix: bind every host attribute root an expression uses,
 not only some

---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index b2df688..9735aac 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -282,7 +282,7 @@ impl Expression {
 
         for (key, value) in map.iter() {
             if let Key::String(name) = key {
-                if *key != request_key && !is_host_property_root(name) {
+                if *key != request_key {
                     cel_ctx.add_variable_from_value(name.as_str(), value.clone());
                 }
             }
-- 
2.43.0


From 8d4b784d18bf7f77dcfe027fe3216cd276183ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 15/18] fix: the execution order applies to every kind of
 action, not only service calls

---
 .../src/kuadrant/pipeline/blueprint.rs        | 49 +++++++++++--------
 .../src/kuadrant/pipeline/tasks/fail.rs       | 12 +++++
 .../src/kuadrant/pipeline/tasks/headers.rs    | 12 +++++
 .../src/kuadrant/pipeline/tasks/send_reply.rs | 13 +++++
 .../src/kuadrant/pipeline/tasks/store.rs      | 12 +++++
 5 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index bc9f13a..557c8f5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -110,23 +110,29 @@ impl Action {
             }
             Operation::Deny { deny_with } => {
                 use crate::kuadrant::pipeline::tasks::SendReplyTask;
-                Some(Box::new(SendReplyTask::new(
-                    self.id.clone(),
-                    self.predicate.clone(),
-                    deny_with.clone(),
-                    self.terminal,
-                )))
+                Some(Box::new(
+                    SendReplyTask::new(
+                        self.id.clone(),
+                        self.predicate.clone(),
+                        deny_with.clone(),
+                        self.terminal,
+                    )
+                    .after(self.dependencies.clone()),
+                ))
             }
             Operation::Headers {
                 target,
                 headers: headers_expr,
-            } => Some(Box::new(ModifyHeadersTask::new(
-                self.id.clone(),
-                self.predicate.clone(),
-                headers_expr.clone(),
-                target.clone(),
-                self.terminal,
-            ))),
+            } => Some(Box::new(
+                ModifyHeadersTask::new(
+                    self.id.clone(),
+                    self.predicate.clone(),
+                    headers_expr.clone(),
+                    target.clone(),
+                    self.terminal,
+                )
+                .after(self.dependencies.clone()),
+            )),
             Operation::Store {
                 path,
                 expression,
@@ -142,7 +148,7 @@ impl Action {
                     *export_to_host,
                     self.terminal,
                 ) {
-                    Ok(task) => Some(Box::new(task)),
+                    Ok(task) => Some(Box::new(task.after(self.dependencies.clone()))),
                     Err(e) => {
                         tracing::error!(
                             "Failed to create StoreTask for path '{}': {}. Action {} will be skipped.",
@@ -156,12 +162,15 @@ impl Action {
             }
             Operation::Fail { log_message } => {
                 use crate::kuadrant::pipeline::tasks::FailTask;
-                Some(Box::new(FailTask::new(
-                    self.id.clone(),
-                    self.predicate.clone(),
-                    log_message.clone(),
-                    self.terminal,
-                )))
+                Some(Box::new(
+                    FailTask::new(
+                        self.id.clone(),
+                        self.predicate.clone(),
+                        log_message.clone(),
+                        self.terminal,
+                    )
+                    .after(self.dependencies.clone()),
+                ))
             }
         }
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
index a512b9c..366944f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
@@ -11,6 +11,7 @@ pub struct FailTask {
     predicate: Predicate,
     log_message: String,
     terminal: bool,
+    dependencies: Vec<String>,
 }
 
 impl FailTask {
@@ -20,8 +21,15 @@ impl FailTask {
             predicate,
             log_message,
             terminal,
+            dependencies: vec![],
         }
     }
+
+    /// Runs the task once the actions with these identifiers are completed only
+    pub fn after(mut self, dependencies: Vec<String>) -> Self {
+        self.dependencies = dependencies;
+        self
+    }
 }
 
 impl Task for FailTask {
@@ -29,6 +37,10 @@ impl Task for FailTask {
         &self.task_id
     }
 
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 48c510b..ac3e3a3 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -36,6 +36,7 @@ pub struct ModifyHeadersTask {
     headers_expr: Expression,
     target: HeadersType,
     terminal: bool,
+    dependencies: Vec<String>,
 }
 
 impl ModifyHeadersTask {
@@ -52,8 +53,15 @@ impl ModifyHeadersTask {
             headers_expr,
             target,
             terminal,
+            dependencies: vec![],
         }
     }
+
+    /// Runs the task once the actions with these identifiers are completed only
+    pub fn after(mut self, dependencies: Vec<String>) -> Self {
+        self.dependencies = dependencies;
+        self
+    }
 }
 
 impl Task for ModifyHeadersTask {
@@ -61,6 +69,10 @@ impl Task for ModifyHeadersTask {
         &self.task_id
     }
 
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 21bdd8c..7fb4c8b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -15,6 +15,7 @@ pub struct SendReplyTask {
     predicate: Predicate,
     deny_with: Expression,
     terminal: bool,
+    dependencies: Vec<String>,
 }
 
 impl SendReplyTask {
@@ -29,9 +30,16 @@ impl SendReplyTask {
             predicate,
             deny_with,
             terminal,
+            dependencies: vec![],
         }
     }
 
+    /// Runs the task once the actions with these identifiers are completed only
+    pub fn after(mut self, dependencies: Vec<String>) -> Self {
+        self.dependencies = dependencies;
+        self
+    }
+
     pub fn default() -> Self {
         #[allow(clippy::expect_used)]
         let deny_with = Expression::new(
@@ -45,6 +53,7 @@ impl SendReplyTask {
             predicate,
             deny_with,
             terminal: false,
+            dependencies: vec![],
         }
     }
 }
@@ -54,6 +63,10 @@ impl Task for SendReplyTask {
         &self.task_id
     }
 
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
     fn cel_types(&self) -> Vec<cel::StructDef> {
         vec![deny_response_struct_def()]
     }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index da7bb81..0aabb57 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    dependencies: Vec<String>,
     _reservation: PathReservation,
 }
 
@@ -58,10 +59,17 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            dependencies: vec![],
             _reservation: reservation,
         })
     }
 
+    /// Runs the task once the actions with these identifiers are completed only
+    pub fn after(mut self, dependencies: Vec<String>) -> Self {
+        self.dependencies = dependencies;
+        self
+    }
+
     fn initial_body_state(predicate: &Predicate, expression: &Expression) -> BodyParseState {
         let mut request_fields: Vec<String> = Vec::new();
         let mut response_fields: Vec<String> = Vec::new();
@@ -128,6 +136,10 @@ impl Task for StoreTask {
         &self.task_id
     }
 
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
     fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         if let BodyParseState::Pending(source, ref fields) = self.body_parse_state {
             let result = Self::create_parser(ctx, source, fields);
-- 
2.43.0


From 1247e26b1319f87d250b1e9cd4b56893ae8c4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 16/18] fix: a failed action no longer blocks the actions that
 wait for it forever

---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..f9a0563 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,8 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    // it is over, what waits for it must not wait forever
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +195,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From eece19d96db1b1cd80c068e4cab6ae5afdabbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:00 +0000
Subject: [PATCH 17/18] fix: an alternative of a legacy action's conditional
 data keeps its meaning when it is a conditional expression

---
 .../src/configuration/legacy_translation.rs            | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index c7e5dbe..33878b9 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -190,12 +190,10 @@ pub(super) mod ratelimit {
 
         let block_predicates: Vec<String> = conditional_data
             .iter()
-            .map(|cd| {
-                if cd.predicates.len() == 1 {
-                    cd.predicates[0].clone()
-                } else {
-                    format!("({})", join_predicates(&cd.predicates, "&&"))
-                }
+            .map(|cd| match cd.predicates.as_slice() {
+                // only the conditional operator binds looser than `||`
+                [predicate] if !predicate.contains('?') => predicate.clone(),
+                predicates => format!("({})", join_predicates(predicates, "&&")),
             })
             .collect();
 
-- 
2.43.0


From 8fe8a8162ed5f188b00815bae7a32613c877751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 18/18] fix: an event stream cut within a character is not
 misread

---
 .../pipeline/tasks/store/sse_body_parser.rs        | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..9aabe41 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -23,17 +23,29 @@ pub struct Event {
 
 #[derive(Default)]
 pub struct EventParser {
+    /// The bytes of a last character the stream was cut within
+    partial_char: Vec<u8>,
     buffer: String,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend_from_slice(&chunk_bytes);
+        let complete = match core::str::from_utf8(&bytes) {
+            Ok(_) => bytes.len(),
+            // only the end of the last character is missing, it comes with the next chunk
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(e.to_string()),
+        };
+        self.partial_char = bytes.split_off(complete);
+
         // taking advantage by the automatic deref coercion.
         // Because String implements Deref<Target=str>,
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
         self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+            .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
 
         let mut events = Vec::default();
 
-- 
2.43.0

