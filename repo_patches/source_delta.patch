From 5c601eacfc80bdd4a499baccbc90946990748448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 01/83] fix: keep Time32Millisecond scalars as milliseconds
 when (de)serializing filter values

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From 780074830b31d5f8fc5657abc61d3cf5a32e883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 02/83] fix: map event and user properties of an event onto
 themselves in API conversions

---
 src/platform/src/events.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/platform/src/events.rs b/src/platform/src/events.rs
index b58a8d5..12a2a69 100644
--- a/src/platform/src/events.rs
+++ b/src/platform/src/events.rs
@@ -220,9 +220,9 @@ impl Into<metadata::events::Event> for Event {
             description: self.description,
             status: self.status.into(),
             is_system: self.is_system,
-            event_properties: None,
-            custom_properties: self.user_properties,
-            user_properties: None,
+            event_properties: self.event_properties,
+            custom_properties: None,
+            user_properties: self.user_properties,
         }
     }
 }
@@ -244,7 +244,7 @@ impl Into<Event> for metadata::events::Event {
             status: self.status.into(),
             is_system: self.is_system,
             event_properties: self.event_properties,
-            user_properties: self.custom_properties,
+            user_properties: self.user_properties,
         }
     }
 }
-- 
2.43.0


From aea94139da5dfe66002de075228c07cb6f80a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 03/83] fix: accept account updates that supply only some of
 the fields

---
 src/platform/src/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..9e83618 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -162,13 +162,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From a490af3341da64012950a051a4b192c3dfcff428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 04/83] fix: write a new custom event inside its transaction

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From a79003a6de4b75085458fbfae8865fbad45b1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 05/83] fix: do not commit a failed event creation

---
 src/metadata/src/events.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..722300e 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -209,9 +209,9 @@ impl Events {
 
     pub fn create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
@@ -222,9 +222,9 @@ impl Events {
             other => return other,
         }
 
-        let ret = self.create_(&tx, project_id, req);
+        let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
-        ret
+        Ok(ret)
     }
 
     pub fn get_by_id(&self, project_id: u64, id: u64) -> Result<Event> {
-- 
2.43.0


From 72542a466046c45630cc87d515f1f680fb18a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 06/83] fix: apply the role of an account update

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..707c462 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -145,6 +145,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From b35f8f98e02a683806a343e120ecf7ee16283f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 07/83] fix: apply the type of a report update

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..d2fed42 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -137,6 +137,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From e0ebc1585419dfa378b79b0edb1b6309a465377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 08/83] fix: store the start hour of the backup schedule

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From abed3bbd959569339d7d58997aa1b2e669c2d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 09/83] fix: list every team of an organization

---
 src/metadata/src/teams.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..f3ab54a 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -121,7 +121,6 @@ impl Teams {
                 continue;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 326b68d8e116e0d11ac8d4f04931517bf64f6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 10/83] fix: merge an anonymous group inside one transaction
 and keep the id sequence intact

---
 src/metadata/src/groups.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..5085c90 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -80,11 +80,7 @@ impl Groups {
         let res = match tx.get(user_key.as_bytes())? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From eaa604b74de329abb837eb2d46dc7b062af0ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 11/83] fix: lock the id sequence and unique index entries a
 transaction decides on

---
 src/metadata/src/index.rs      | 8 ++++----
 src/metadata/src/properties.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..d8a636a 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -9,7 +9,7 @@ pub fn check_insert_constraints(
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +36,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +90,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +101,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..8381f66 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -225,7 +225,7 @@ impl Properties {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
         for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
+            if tx.get_for_update(key, true)?.is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key.to_owned(),
                 )?));
-- 
2.43.0


From 812d7c1d2cac692a858174317248c42dcf5bf0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 12/83] fix: store the properties attached to an event

---
 src/metadata/src/events.rs      | 21 ++++++++++++++++++---
 src/metadata/src/pb/event.proto |  3 +++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 722300e..eb1d59d 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -489,6 +489,9 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
@@ -520,9 +523,21 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: if from.event_properties.is_empty() {
+            None
+        } else {
+            Some(from.event_properties)
+        },
+        user_properties: if from.user_properties.is_empty() {
+            None
+        } else {
+            Some(from.user_properties)
+        },
+        custom_properties: if from.custom_properties.is_empty() {
+            None
+        } else {
+            Some(from.custom_properties)
+        },
     })
 }
 
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From faaadbda944b94b52e634e6c0f05b719478ac92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 13/83] fix: events by name: extract both path parameters with
 one tuple extractor

---
 src/platform/src/http/events.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
-- 
2.43.0


From 1aeeb84b8f01b3b444766c793db359d2db3c6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 14/83] fix: group property by id: take the path parameters in
 the order of the route

---
 src/platform/src/http/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..8ad8c1e 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,7 +29,7 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
         provider.groups[group_id]
-- 
2.43.0


From 4ae2364290e5e6b6b94a0bdf56b5adc20660058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 15/83] fix: nest only their own routes under custom-events and
 group-properties

---
 src/platform/src/http/custom_events.rs | 12 +++++++-----
 src/platform/src/http/properties.rs    |  6 +++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/platform/src/http/custom_events.rs b/src/platform/src/http/custom_events.rs
index f5bbdfb..b0f4397 100644
--- a/src/platform/src/http/custom_events.rs
+++ b/src/platform/src/http/custom_events.rs
@@ -63,11 +63,13 @@ async fn delete(
 }
 
 pub fn attach_routes(router: Router) -> Router {
-    router.clone().nest(
+    router.nest(
         "/api/v1/projects/:project_id/schema/custom-events",
-        router.route("/", routing::post(create).get(list)).route(
-            "/:event_id",
-            routing::get(get_by_id).delete(delete).put(update),
-        ),
+        Router::new()
+            .route("/", routing::post(create).get(list))
+            .route(
+                "/:event_id",
+                routing::get(get_by_id).delete(delete).put(update),
+            ),
     )
 }
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index 8ad8c1e..a01eb3b 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -140,16 +140,16 @@ async fn list_values(
 }
 
 pub fn attach_routes(router: Router) -> Router {
-    router.clone().nest(
+    router.nest(
         "/api/v1/projects/:project_id",
         Router::new().route("/property-values", routing::post(list_values)),
     )
 }
 
 pub fn attach_group_routes(router: Router) -> Router {
-    router.clone().nest(
+    router.nest(
         "/api/v1/projects/:project_id/schema/group-properties/:group_id",
-        router
+        Router::new()
             .route("/", routing::get(list_group))
             .route(
                 "/:prop_id",
-- 
2.43.0


From e443b073e82615a45ee93f358e9d33699b3fecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 16/83] fix: an unknown group number in a group property route
 is an error, not a panic

---
 src/platform/src/http/mod.rs        | 10 ++++++++++
 src/platform/src/http/properties.rs | 10 +++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 101ac02..7ef537e 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -31,8 +31,10 @@ use tower_http::services::ServeDir;
 use tower_http::services::ServeFile;
 use tower_http::trace::TraceLayer;
 
+use crate::error::PlatformError;
 use crate::properties::Properties;
 use crate::PlatformProvider;
+use crate::Result;
 
 pub struct Service {}
 
@@ -42,6 +44,14 @@ pub struct PropertiesLayer {
     groups: Vec<Arc<Properties>>,
 }
 
+impl PropertiesLayer {
+    fn group(&self, group_id: usize) -> Result<&Arc<Properties>> {
+        self.groups
+            .get(group_id)
+            .ok_or_else(|| PlatformError::NotFound(format!("group {group_id} not found")))
+    }
+}
+
 pub fn attach_routes(
     mut router: Router,
     md: &Arc<MetadataProvider>,
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index a01eb3b..ff6e5d1 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -32,7 +32,7 @@ async fn get_group_by_id(
     Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .get_by_id(ctx, project_id, property_id)
             .await?,
     ))
@@ -57,7 +57,7 @@ async fn get_group_by_name(
     Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .get_by_name(ctx, project_id, &prop_name)
             .await?,
     ))
@@ -76,7 +76,7 @@ async fn list_group(
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id)): Path<(u64, usize)>,
 ) -> Result<Json<ListResponse<Property>>> {
-    Ok(Json(provider.groups[group_id].list(ctx, project_id).await?))
+    Ok(Json(provider.group(group_id)?.list(ctx, project_id).await?))
 }
 
 async fn update_event(
@@ -100,7 +100,7 @@ async fn update_group(
     Json(request): Json<UpdatePropertyRequest>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .update(ctx, project_id, prop_id, request)
             .await?,
     ))
@@ -122,7 +122,7 @@ async fn delete_group(
     Path((project_id, group_id, prop_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        provider.group(group_id)?
             .delete(ctx, project_id, prop_id)
             .await?,
     ))
-- 
2.43.0


From 8810c81a39e376b32be7e9476d854a53ac869d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 17/83] fix: account update passes on forceUpdatePassword

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 9e83618..cdf4662 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -71,6 +71,7 @@ impl Accounts {
             updated_by: ctx.account_id,
             email: req.email,
             name: req.name,
+            force_update_password: req.force_update_password,
             role: req.role,
             organizations: req.organizations,
             projects: req.projects,
-- 
2.43.0


From c100c8ec5ce93dbbf981d8d646640651810783bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 18/83] fix: settings update applies every field of the request

---
 src/platform/src/settings.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..07dde79 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -27,6 +27,9 @@ impl SettingsProvider {
         if let Some(v) = req.auth_refresh_token {
             settings.auth_refresh_token = v;
         }
+        if let Some(v) = req.auth_admin_default_password {
+            settings.auth_admin_default_password = v;
+        }
         if let Some(v) = req.backup_enabled {
             settings.backup_enabled = v;
         }
@@ -73,6 +76,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            };
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0


From a87aa421859810f32113bcfd429f294d56b9d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 19/83] fix: event search applies the filters of the request

---
 src/query/src/event_records.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..565f586 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -298,6 +298,12 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(&ctx, &metadata, filters)?);
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
-- 
2.43.0


From 6356ad121ebc4141d2616f10d568a3dd752b52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 20/83] fix: event search keeps events that carry no filters

---
 src/query/src/event_records.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 565f586..783d629 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -590,12 +590,12 @@ pub fn fix_search_request(
                         of.push(f);
                     }
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
-- 
2.43.0


From 0259cb8967eed366ac836f49e3181135ceb987e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 21/83] fix: event search reads the columns its event filters
 need

---
 src/query/src/event_records.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 783d629..6e3a8c5 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -548,6 +548,19 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
+    if let Some(events) = &req.events {
+        for event in events {
+            if let Some(filters) = &event.filters {
+                for filter in filters {
+                    match filter {
+                        PropValueFilter::Property { property, .. } => {
+                            fields.push(col_name(ctx, property, md)?)
+                        }
+                    }
+                }
+            }
+        }
+    }
     if let Some(filters) = &req.filters {
         for filter in filters {
             match filter {
-- 
2.43.0


From f30e04270c12a92f5aec660df3cd0c1e4bb8e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 22/83] fix: event search returns exactly the requested columns

---
 src/query/src/event_records.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 6e3a8c5..8af27a0 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -309,6 +309,7 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
+    let requested = exprs.clone();
     let input = if exprs.is_empty() {
         input
     } else {
@@ -342,10 +343,10 @@ pub fn build_search_plan(
         })
     };
 
-    let input = if exprs.is_empty() {
+    let input = if requested.is_empty() {
         input
     } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
+        LogicalPlan::Projection(Projection::try_new(requested, Arc::new(input))?)
     };
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
-- 
2.43.0


From 5cafe99d042e3e08e0565e1bf9fb2db7952ebd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 23/83] fix: group search filters do not replace its time range

---
 src/query/src/group_records.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..8f180b4 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -27,7 +27,6 @@ use common::DECIMAL_PRECISION;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
-use datafusion_expr::and;
 use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::expr;
@@ -266,7 +265,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, filters)?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
-- 
2.43.0


From fa4cb695718c991ebadca47d70035496f811869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 24/83] fix: funnel only reads events of its own project

---
 src/query/src/funnel.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..33d0e8b 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -32,11 +32,15 @@ use common::types::ROUND_DIGITS;
 use common::types::TABLE_EVENTS;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
+use datafusion_common::ScalarValue;
 use datafusion_expr::and;
+use datafusion_expr::binary_expr;
 use datafusion_expr::col;
+use datafusion_expr::lit;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter as PlanFilter;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -257,7 +261,14 @@ pub fn build(
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
-    let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
+    let mut expr = and(
+        binary_expr(
+            col(COLUMN_PROJECT_ID),
+            Operator::Eq,
+            lit(ScalarValue::from(ctx.project_id as i64)),
+        ),
+        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
+    );
     if let Some(filters) = &req.filters {
         expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
     }
-- 
2.43.0


From dd042fd3b4e390e83872f70f947065d17c20be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 25/83] fix: funnel requests get their step and exclude filters
 converted like the global ones

---
 src/query/src/funnel.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 33d0e8b..9d5dfeb 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -576,6 +576,12 @@ pub fn fix_request(
             if let Some(filters) = &event.filters {
                 if filters.is_empty() {
                     out.steps[step_id].events[event_id].filters = None;
+                } else {
+                    let mut of = vec![];
+                    for filter in filters.iter() {
+                        of.push(fix_filter(md, project_id, filter)?);
+                    }
+                    out.steps[step_id].events[event_id].filters = Some(of);
                 }
             }
         }
@@ -590,6 +596,12 @@ pub fn fix_request(
                 if let Some(filters) = &exclude.filters {
                     if filters.is_empty() {
                         out_exclude[exclude_id].filters = None;
+                    } else {
+                        let mut of = vec![];
+                        for filter in filters.iter() {
+                            of.push(fix_filter(md, project_id, filter)?);
+                        }
+                        out_exclude[exclude_id].filters = Some(of);
                     }
                 }
             }
-- 
2.43.0


From e7c2f8b0566713584d50ed4b652f327251f0127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 26/83] fix: funnel decodes the dictionaries its exclude
 filters match on

---
 src/query/src/funnel.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 9d5dfeb..1f2e4f2 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -461,6 +461,22 @@ fn decode_filter_dictionaries(
         }
     }
 
+    if let Some(exclude) = &funnel.exclude {
+        for e in exclude {
+            if let Some(filters) = &e.filters {
+                for filter in filters {
+                    decode_filter_single_dictionary(
+                        ctx,
+                        metadata,
+                        cols_hash,
+                        &mut decode_cols,
+                        filter,
+                    )?;
+                }
+            }
+        }
+    }
+
     if let Some(filters) = &funnel.filters {
         for filter in filters {
             decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
-- 
2.43.0


From c11a631421dc087e5f529fc58a9e9ef16776451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 27/83] fix: a dictionary column two filters match on is
 decoded once

---
 src/query/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..0e54f89 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -481,6 +481,9 @@ pub fn decode_filter_single_dictionary(
                     return Ok(());
                 }
                 let col_name = prop.column_name();
+                if cols_hash.contains_key(col_name.as_str()) {
+                    return Ok(());
+                }
                 let dict = SingleDictionaryProvider::new(
                     ctx.project_id,
                     tbl,
@@ -490,9 +493,6 @@ pub fn decode_filter_single_dictionary(
                 let col = datafusion_common::Column::from_name(col_name);
                 decode_cols.push((col, Arc::new(dict)));
 
-                if cols_hash.contains_key(prop.column_name().as_str()) {
-                    return Ok(());
-                }
                 cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
-- 
2.43.0


From dbb740a8938bf7e0259d4589051499a34a21f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 28/83] fix: an event referenced by id is matched with the type
 of the event column

---
 src/query/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..3d00b8a 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -75,7 +75,7 @@ pub fn event_expression(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
-- 
2.43.0


From 27f6c46b6fac15bb0db54f0ca0b702b7e98efc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 29/83] fix: a filter without a value stays without a value

---
 src/query/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 0e54f89..d74195f 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -614,7 +614,7 @@ pub fn fix_filter(
             let filter = common::query::PropValueFilter::Property {
                 property: property.to_owned(),
                 operation: operation.to_owned(),
-                value: Some(ev),
+                value: value.as_ref().map(|_| ev),
             };
             Ok(filter)
         }
-- 
2.43.0


From 53b0d6dc8269ae71a67638c29a2130f5dc2f24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 30/83] fix: property values filter compares with the decoded
 column

---
 src/query/src/properties.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..36b1ae6 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -41,7 +41,7 @@ use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
 use crate::expr::event_expression;
-use crate::expr::property_expression;
+use crate::expr::named_property_expression;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::Context;
@@ -163,11 +163,8 @@ impl LogicalPlanBuilder {
 
         let input = match &req.filter {
             Some(filter) => LogicalPlan::Filter(PlanFilter::try_new(
-                property_expression(
-                    &ctx,
-                    &metadata,
-                    TABLE_EVENTS,
-                    &req.property,
+                named_property_expression(
+                    col(col_name.as_str()),
                     &filter.operation,
                     filter.value.clone(),
                 )?,
-- 
2.43.0


From 0804eec275ade7e55ef1c2674e3a03306bf6448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 31/83] fix: query projections read each column once

---
 src/query/src/event_segmentation.rs | 4 +++-
 src/query/src/funnel.rs             | 4 +++-
 src/query/src/lib.rs                | 4 +++-
 src/query/src/properties.rs         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..70270ee 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -231,7 +232,8 @@ fn projection(
         }
     }
 
-    fields.dedup();
+    let mut seen = HashSet::new();
+    fields.retain(|field| seen.insert(field.clone()));
 
     Ok(fields)
 }
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 1f2e4f2..c96c740 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -576,7 +577,8 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
         }
     }
 
-    fields.dedup();
+    let mut seen = HashSet::new();
+    fields.retain(|field| seen.insert(field.clone()));
     Ok(fields)
 }
 
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index d74195f..8a741ff 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -3,6 +3,7 @@ extern crate core;
 
 pub use std::cmp::Ordering;
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use arrow::array::Array;
@@ -540,7 +541,8 @@ fn segment_projection(
             }
         }
     }
-    fields.dedup();
+    let mut seen = HashSet::new();
+    fields.retain(|field| seen.insert(field.clone()));
 
     Ok(fields)
 }
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 36b1ae6..9d6782f 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -212,6 +213,7 @@ fn projection(
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
     fields.push(col_name(ctx, &req.property, md)?);
-    fields.dedup();
+    let mut seen = HashSet::new();
+    fields.retain(|field| seen.insert(field.clone()));
     Ok(fields)
 }
-- 
2.43.0


From 641352789cddf4aa7b150acc48a2ca8a724019dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 32/83] fix: a request with an empty list of filter groups is
 rejected, not a panic

---
 src/platform/src/event_records.rs      | 10 +++++-----
 src/platform/src/event_segmentation.rs | 10 +++++-----
 src/platform/src/funnel.rs             | 10 +++++-----
 src/platform/src/group_records.rs      | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..95bd589 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -241,12 +241,12 @@ pub(crate) fn validate_search_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..9fde056 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -593,12 +593,12 @@ pub(crate) fn validate_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..a7d843c 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -273,12 +273,12 @@ pub(crate) fn validate_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 for (filter_id, filter) in filter_group.filters.iter().enumerate() {
                     validate_event_filter(md, project_id, filter, filter_id, "".to_string())?;
                 }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..dfe60bf 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -156,12 +156,12 @@ pub(crate) fn validate_search_request(
     match &req.filters {
         None => {}
         Some(filters) => {
+            if filters.groups.is_empty() {
+                return Err(PlatformError::BadRequest(
+                    "filter_group field can't be empty".to_string(),
+                ));
+            }
             for filter_group in &filters.groups {
-                if filters.groups.is_empty() {
-                    return Err(PlatformError::BadRequest(
-                        "filter_group field can't be empty".to_string(),
-                    ));
-                }
                 if filter_group.filters.is_empty() {
                     return Err(PlatformError::BadRequest(
                         "filters field can't be empty".to_string(),
-- 
2.43.0


From 5686993fd7c994556700110f9e5fcffcadee5d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 33/83] fix: a query timestamp out of range is rejected, not a
 panic

---
 src/platform/src/event_records.rs      | 3 ++-
 src/platform/src/event_segmentation.rs | 3 ++-
 src/platform/src/funnel.rs             | 3 ++-
 src/platform/src/group_records.rs      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 95bd589..5e3bd17 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -69,7 +69,8 @@ impl EventRecords {
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
+                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 9fde056..bb71f63 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -61,7 +61,8 @@ impl EventSegmentation {
 
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
+                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index a7d843c..7fd22e0 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -59,7 +59,8 @@ impl Funnel {
 
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
+                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index dfe60bf..f4ac2d1 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -75,7 +75,8 @@ impl GroupRecords {
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
+                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?,
         };
         let ctx = query::Context {
             project_id,
-- 
2.43.0


From 84fe380af5a26624da7124b3ca89117ed7bf0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 34/83] fix: a property of a group that does not exist is
 rejected, not a panic

---
 src/platform/src/event_records.rs |  3 ++-
 src/platform/src/group_records.rs |  3 ++-
 src/platform/src/lib.rs           | 14 ++++++++++++--
 src/platform/src/properties.rs    |  3 ++-
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 5e3bd17..bdfa871 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -10,6 +10,7 @@ use query::event_records::fix_search_request;
 use serde::Deserialize;
 use serde::Serialize;
 
+use crate::group_properties;
 use crate::scalar_to_json;
 use crate::validate_event;
 use crate::validate_event_filter;
@@ -268,7 +269,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index f4ac2d1..636bfc4 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -13,6 +13,7 @@ use serde::Deserialize;
 use serde::Serialize;
 use serde_json::Value;
 
+use crate::group_properties;
 use crate::validate_event_filter;
 use crate::Context;
 use crate::EventGroupedFilters;
@@ -188,7 +189,7 @@ pub(crate) fn validate_search_request(
                     PropertyRef::Group {
                         property_name,
                         group,
-                    } => md.group_properties[*group]
+                    } => group_properties(md, *group)?
                         .get_by_name(project_id, property_name)
                         .map_err(|err| {
                             PlatformError::BadRequest(format!("property {idx}: {err}"))
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..8b1d389 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1396,6 +1396,16 @@ pub struct PropertyAndValue {
     value: Value,
 }
 
+/// properties of a group that comes with a request
+pub(crate) fn group_properties(
+    md: &Arc<MetadataProvider>,
+    group: usize,
+) -> crate::Result<&Arc<metadata::properties::Properties>> {
+    md.group_properties
+        .get(group)
+        .ok_or_else(|| PlatformError::BadRequest("group id is out of range".to_string()))
+}
+
 pub fn validate_event_property(
     md: &Arc<MetadataProvider>,
     project_id: u64,
@@ -1407,7 +1417,7 @@ pub fn validate_event_property(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
         }
@@ -1437,7 +1447,7 @@ pub fn validate_event_filter_property(
         PropertyRef::Group {
             property_name,
             group,
-        } => md.group_properties[*group]
+        } => group_properties(md, *group)?
             .get_by_name(project_id, property_name)
             .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?,
         PropertyRef::Event { property_name } => md
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 4b56e2f..c243dec 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -15,6 +15,7 @@ use serde::Serialize;
 use serde_json::Value;
 
 use crate::array_ref_to_json_values;
+use crate::group_properties;
 use crate::json_value_to_scalar;
 use crate::validate_event_filter_property;
 use crate::Context;
@@ -398,7 +399,7 @@ pub(crate) fn validate_request(
             property_name,
             group,
         } => {
-            md.group_properties[*group]
+            group_properties(md, *group)?
                 .get_by_name(project_id, property_name)
                 .map_err(|err| PlatformError::BadRequest(format!("{err}")))?;
         }
-- 
2.43.0


From f78ac371f166b693fc7db7e2b1c9d7003a708b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 35/83] fix: int32 properties can be compared with greater and
 less than

---
 src/platform/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 8b1d389..f39d49f 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1466,7 +1466,12 @@ pub fn validate_event_filter_property(
         | PropValueOperation::Gte
         | PropValueOperation::Lt
         | PropValueOperation::Lte => match prop.data_type {
-            DType::Int8 | DType::Int16 | DType::Int64 | DType::Decimal | DType::Timestamp => {}
+            DType::Int8
+            | DType::Int16
+            | DType::Int32
+            | DType::Int64
+            | DType::Decimal
+            | DType::Timestamp => {}
             _ => {
                 return Err(PlatformError::BadRequest(format!(
                     "{err_prefix}property \"{}\" is not numeric, but operation is \"{:?}\"",
-- 
2.43.0


From 31f632f86ac0875141f875f0ad9e564746945645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 36/83] fix: funnel exclude filters are validated like the
 other filters

---
 src/platform/src/funnel.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 7fd22e0..f514ffe 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -198,6 +198,17 @@ pub(crate) fn validate_request(
                 exclude_id,
                 format!("exclude #{exclude_id}, "),
             )?;
+            if let Some(filters) = &exclude.filters {
+                for (filter_id, filter) in filters.iter().enumerate() {
+                    validate_event_filter(
+                        md,
+                        project_id,
+                        filter,
+                        filter_id,
+                        format!("exclude #{exclude_id}, "),
+                    )?;
+                }
+            }
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-- 
2.43.0


From 7a7868b00e2b61484d6ef9a44e371bfd20ce11c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 37/83] fix: event segmentation validates the properties of its
 queries and event breakdowns

---
 src/platform/src/event_segmentation.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index bb71f63..ae98d9c 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -589,6 +589,28 @@ pub(crate) fn validate_request(
                 format!("event #{event_id}, \"queries\" field can't be empty").to_string(),
             ));
         }
+        for (query_id, query) in event.queries.iter().enumerate() {
+            match query {
+                Query::AggregatePropertyPerGroup { property, .. }
+                | Query::AggregateProperty { property, .. } => validate_event_property(
+                    md,
+                    project_id,
+                    property,
+                    format!("event #{event_id}, query {query_id}"),
+                )?,
+                _ => {}
+            }
+        }
+        for (idx, breakdown) in event.breakdowns.iter().flatten().enumerate() {
+            match breakdown {
+                Breakdown::Property { property } => validate_event_property(
+                    md,
+                    project_id,
+                    property,
+                    format!("event #{event_id}, breakdown {idx}"),
+                )?,
+            }
+        }
     }
 
     match &req.filters {
-- 
2.43.0


From 1d557e93184a10de57c44f40bd0cab57613a4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 38/83] fix: several values of a negative filter exclude all of
 them

---
 src/query/src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 3d00b8a..85876a4 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -336,7 +336,10 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    match operation {
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -378,7 +381,7 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From 98383559bbab18ee2c188a401ab034b41e7d1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 39/83] fix: segments only look at events of their own project

---
 src/query/src/event_segmentation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 70270ee..bb89598 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -279,8 +279,16 @@ impl LogicalPlanBuilder {
                     };
                 }
 
+                let own_events = LogicalPlan::Filter(Filter::try_new(
+                    binary_expr(
+                        col(COLUMN_PROJECT_ID),
+                        Operator::Eq,
+                        lit(ScalarValue::from(ctx.project_id as i64)),
+                    ),
+                    Arc::new(input.clone()),
+                )?);
                 let node = SegmentNode::try_new(
-                    input.clone(),
+                    own_events,
                     or.unwrap(),
                     Column::from_qualified_name(group_col(es.group_id)),
                 )?;
-- 
2.43.0


From b509bf491883d6545201284520feb1828b3cca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 40/83] fix: a records request for a group that does not exist
 is a bad request

---
 src/platform/src/group_records.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 636bfc4..b2970aa 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -49,6 +49,7 @@ impl GroupRecords {
             project_id,
             ProjectPermission::ExploreReports,
         )?;
+        group_properties(&self.md, group_id)?;
         let ctx = query::Context {
             project_id,
             format: Format::Regular,
@@ -147,6 +148,8 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
+    group_properties(md, req.group)?;
+
     if let Some(QueryTime::Between { from, to }) = &req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
-- 
2.43.0


From 0b8177716eaa60a880e26c78d77784270d5ed2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 41/83] fix: a null filter value is refused instead of
 panicking

---
 src/platform/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index f39d49f..4e8814c 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1534,6 +1534,9 @@ pub fn validate_event_filter_property(
                                 prop.name
                             )));
                         }
+                        return Err(PlatformError::Unimplemented(
+                            "null value is unimplemented".to_string(),
+                        ));
                     }
                     Value::Bool(_) => {
                         if prop.data_type != DType::Boolean {
-- 
2.43.0


From 7f880d0c0993779e6ebf40e9ba3715141c63a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 42/83] fix: ingested numbers are stored with the scale of the
 decimal columns

---
 src/ingester/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..b8cf9b9 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -123,7 +124,18 @@ fn property_to_value(
             (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
             (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => {
+                let mut v = *v;
+                v.rescale(DECIMAL_SCALE as u32);
+                // rescale stops short when the number has too many digits
+                if v.scale() != DECIMAL_SCALE as u32 {
+                    return Err(IngesterError::BadRequest(format!(
+                        "property {} is out of range",
+                        prop.property.name
+                    )));
+                }
+                Value::Decimal(Some(v.mantissa()))
+            }
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
             _ => {
-- 
2.43.0


From 499be774e97803c74942148bdaf8a200392e5d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 43/83] fix: an ingested date is stored as a timestamp instead
 of failing

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..218a95c 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index b8cf9b9..accc0c1 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -137,7 +137,7 @@ fn property_to_value(
                 Value::Decimal(Some(v.mantissa()))
             }
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From 32ab32cc4d5f3dece42500a908824b171d1df7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 44/83] fix: an ingested number that does not fit its integer
 property is a bad request, not a panic

---
 src/ingester/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index accc0c1..5bf3438 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -92,6 +92,10 @@ pub enum PropValue {
     Bool(bool),
 }
 
+fn out_of_range(prop: &PropertyAndValue) -> IngesterError {
+    IngesterError::BadRequest(format!("property {} is out of range", prop.property.name))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -120,19 +124,25 @@ fn property_to_value(
     } else {
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
+            // todo change to mantissa
+            (DType::Int8, PropValue::Number(v)) => {
+                Value::Int8(Some(v.to_i8().ok_or_else(|| out_of_range(prop))?))
+            }
+            (DType::Int16, PropValue::Number(v)) => {
+                Value::Int16(Some(v.to_i16().ok_or_else(|| out_of_range(prop))?))
+            }
+            (DType::Int32, PropValue::Number(v)) => {
+                Value::Int32(Some(v.to_i32().ok_or_else(|| out_of_range(prop))?))
+            }
+            (DType::Int64, PropValue::Number(v)) => {
+                Value::Int64(Some(v.to_i64().ok_or_else(|| out_of_range(prop))?))
+            }
             (DType::Decimal, PropValue::Number(v)) => {
                 let mut v = *v;
                 v.rescale(DECIMAL_SCALE as u32);
                 // rescale stops short when the number has too many digits
                 if v.scale() != DECIMAL_SCALE as u32 {
-                    return Err(IngesterError::BadRequest(format!(
-                        "property {} is out of range",
-                        prop.property.name
-                    )));
+                    return Err(out_of_range(prop));
                 }
                 Value::Decimal(Some(v.mantissa()))
             }
-- 
2.43.0


From 90caf665995d12db67c731c702cb36b7c8648813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 45/83] fix: an event with both ids merges the anonymous id
 into the user, not the reverse

---
 src/ingester/src/executor.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 218a95c..38754ff 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,14 +167,22 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(user_id), Some(anonymous_id)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
-                    aid.as_str(),
-                    uid.as_str(),
+                    anonymous_id.as_str(),
+                    user_id.as_str(),
                     vec![],
                 )?;
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    user_id.as_str(),
+                )?;
+
                 (group.id, None)
             }
             _ => {
-- 
2.43.0


From 54ed1e863d8ff3046f2230ecffc8499ae3144034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 46/83] fix: the session begin event is stored with its time in
 milliseconds

---
 src/ingester/src/destinations/local/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From f3fe2ccb22cfe3841d2994aa1a789ebeb7b40b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 47/83] fix: profile properties use the dictionary of their own
 group

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 38754ff..b9092d0 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -315,7 +315,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From 386c04573f97a34066297959e03fdc64c5edd157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 48/83] fix: the session end event is stored with its time in
 milliseconds

---
 src/cmd/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/src/lib.rs b/src/cmd/src/lib.rs
index 1ada380..2ebe804 100644
--- a/src/cmd/src/lib.rs
+++ b/src/cmd/src/lib.rs
@@ -397,7 +397,7 @@ fn init_session_cleaner(
                             vec![
                                 NamedValue::new(
                                     COLUMN_CREATED_AT.to_string(),
-                                    Value::Timestamp(Some(now.timestamp())),
+                                    Value::Timestamp(Some(now.timestamp_millis())),
                                 ),
                                 NamedValue::new(
                                     COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 6ac18e9706be8873e85a4f3129316c745799f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 49/83] fix: a backup that could not be written is failed, not
 completed

---
 src/cmd/src/backup.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 6213e2d..76eedc2 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -203,20 +203,9 @@ async fn run_backup(
                 .expect("update status error");
         };
 
-        match backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress) {
-            Ok(_) => {}
-            Err(e) => {
-                md_cloned
-                    .backups
-                    .update_status(
-                        backup_cloned.id,
-                        metadata::backups::Status::Failed(e.to_string()),
-                    )
-                    .expect("update status error");
-            }
-        }
+        backup_to_tmp(&db, &backup_cloned, tmp_path_cloned, progress)
     });
-    hnd.await.unwrap();
+    hnd.await.unwrap()?;
     if matches!(backup.provider, Provider::Local(_)) {
         backup_local(&backup, &cfg, &tmp_path)?;
     } else if matches!(backup.provider, Provider::GCP(_)) {
-- 
2.43.0


From 29277d17826b8521cb10d75f2fc3ba3f7cc19b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 50/83] fix: a backup to S3, which is not supported, is failed,
 not completed and does not stop the schedule

---
 src/cmd/src/backup.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 76eedc2..37032d1 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -19,7 +19,6 @@ use metadata::backups;
 use metadata::backups::Backup;
 use metadata::backups::CreateBackupRequest;
 use metadata::backups::Provider;
-use metadata::settings::BackupProvider;
 use metadata::settings::BackupScheduleInterval;
 use metadata::settings::Settings;
 use metadata::MetadataProvider;
@@ -34,6 +33,7 @@ use tracing::error;
 use zip::write::SimpleFileOptions;
 use zip::AesMode;
 
+use crate::error::Error;
 use crate::error::Result;
 
 fn truncate_to_minute(dt: &NaiveDateTime) -> NaiveDateTime {
@@ -187,6 +187,12 @@ async fn run_backup(
     cfg: Config,
     settings: &Settings,
 ) -> Result<Backup> {
+    if matches!(backup.provider, Provider::S3(_)) {
+        return Err(Error::BackupError(
+            "S3 backups are not supported".to_string(),
+        ));
+    }
+
     let md_cloned = md.clone();
     let tmp_path = cfg
         .data
@@ -219,12 +225,6 @@ async fn run_backup(
 
 fn create_backup(md: Arc<MetadataProvider>) -> Result<Backup> {
     let settings = md.settings.load()?;
-    match settings.backup_provider {
-        BackupProvider::Local => {}
-        BackupProvider::GCP => {}
-        _ => panic!("invalid backup provider"),
-    }
-
     let req = CreateBackupRequest::from_settings(&settings);
     Ok(md.backups.create(req)?)
 }
-- 
2.43.0


From bb6226b3f70e53b85185399176ec1da093d8771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 51/83] fix: the schedule takes one backup per due minute,
 whatever the order of the list

---
 src/cmd/src/backup.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index 37032d1..d3e1dec 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -143,12 +143,12 @@ pub async fn init(md: Arc<MetadataProvider>, db: Arc<OptiDBImpl>, cfg: Config) -
             }
 
             let backups = md.backups.list().expect("list backups error");
-            if let Some(last) = backups.data.last() {
-                let cur_time = last.created_at.naive_utc();
-                let cur_time = truncate_to_minute(&cur_time);
-                if cur_time == next_time {
-                    continue;
-                }
+            let taken = backups
+                .data
+                .iter()
+                .any(|b| truncate_to_minute(&b.created_at.naive_utc()) == next_time);
+            if taken {
+                continue;
             }
 
             let backup = create_backup(md.clone()).expect("create backup error");
-- 
2.43.0


From 17ed07b0573ccebc56d4e58e67fe282f083bfb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 52/83] fix: a failed upload fails the backup instead of
 stopping the schedule

---
 src/cmd/src/backup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/src/backup.rs b/src/cmd/src/backup.rs
index d3e1dec..edb0d0b 100644
--- a/src/cmd/src/backup.rs
+++ b/src/cmd/src/backup.rs
@@ -302,7 +302,7 @@ async fn backup_gcp(backup: &Backup, settings: &Settings, tmp_path: &PathBuf) ->
         }
         w.write(&buf[..n]);
     }
-    w.finish().await.unwrap();
+    w.finish().await?;
     fs::remove_file(tmp_path)?;
 
     Ok(())
-- 
2.43.0


From d25b4d70a773725485cb52a8bc265d50e79b1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 53/83] fix: plan every partition input of a partitioned
 aggregate and of a funnel

---
 src/query/src/physical_plan/planner/funnel.rs | 2 +-
 src/query/src/physical_plan/planner/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 5a15531..90ffe7c 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -31,7 +31,7 @@ pub(crate) fn build_funnel(
     let partition_inputs = node
         .partition_inputs
         .clone()
-        .map(|c| physical_inputs[1..c.len()].to_vec());
+        .map(|c| physical_inputs[1..=c.len()].to_vec());
 
     let partition_col = Column::new(
         node.partition_col.name.as_str(),
diff --git a/src/query/src/physical_plan/planner/mod.rs b/src/query/src/physical_plan/planner/mod.rs
index fc205ef..0948e1b 100644
--- a/src/query/src/physical_plan/planner/mod.rs
+++ b/src/query/src/physical_plan/planner/mod.rs
@@ -220,7 +220,7 @@ impl DFExtensionPlanner for ExtensionPlanner {
             let partition_inputs = node
                 .partition_inputs
                 .clone()
-                .map(|c| physical_inputs[1..c.len()].to_vec());
+                .map(|c| physical_inputs[1..=c.len()].to_vec());
 
             let partition_col = Column::new(
                 node.partition_col.name.as_str(),
-- 
2.43.0


From 638d8eaa09a08d5dae98e26f2d254c4ef7560bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 54/83] fix: a funnel node names its partition inputs

---
 src/query/src/logical_plan/funnel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/src/logical_plan/funnel.rs b/src/query/src/logical_plan/funnel.rs
index d463e8e..5911a17 100644
--- a/src/query/src/logical_plan/funnel.rs
+++ b/src/query/src/logical_plan/funnel.rs
@@ -211,7 +211,12 @@ impl UserDefinedLogicalNode for FunnelNode {
     }
 
     fn inputs(&self) -> Vec<&LogicalPlan> {
-        vec![&self.input]
+        let mut inputs = vec![&self.input];
+        if let Some(pi) = &self.partition_inputs {
+            inputs.extend(pi.iter());
+        }
+
+        inputs
     }
 
     fn schema(&self) -> &DFSchemaRef {
-- 
2.43.0


From 8b58386d954f87e22e9697b308d27d7949df80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 55/83] fix: a funnel reads the segments it is restricted to

---
 src/query/src/physical_plan/funnel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..79f59f4 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -407,7 +407,7 @@ impl ExecutionPlan for FunnelPartialExec {
         let segment_partitions = vec![HashMap::default(); segment_streams.len()];
         Ok(Box::pin(PartialFunnelStream {
             stream: self.input.execute(partition, context.clone())?,
-            segment_streams: RefCell::new(vec![]),
+            segment_streams: RefCell::new(segment_streams),
             schema: self.schema.clone(),
             partition_col: self.partition_col.clone(),
             expr: self.expr.clone(),
-- 
2.43.0


From d706e739b6a5c2b84f51d377a4129ce919d3bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 56/83] fix: scale the result of an ungrouped partitioned
 aggregate as that of a grouped one

---
 .../expressions/aggregate/partitioned/aggregate.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..7398f03 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -283,7 +283,7 @@ macro_rules! agg {
                     let mut res_col_b = $b::with_capacity(1);
                     self.single_group
                         .outer_fn
-                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty);
+                        .accumulate(self.single_group.inner_fn.result() as $outer_acc_ty * $mul);
                     res_col_b.append_value(self.single_group.outer_fn.result());
                     let res_col = res_col_b.finish();
                     let res_col = Arc::new(res_col) as ArrayRef;
-- 
2.43.0


From 5c60aabcd211a61d36941b48a56b0517c62479f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 57/83] fix: hold the table's metadata from logging a row to
 storing it

---
 src/storage/src/db.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..9c193bb 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -709,9 +709,8 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // held until the row is in the memtable: a flush or a new field in between would lose or misplace it
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -769,7 +768,6 @@ impl OptiDBImpl {
             log.get_mut(),
         )?;
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
         let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
-- 
2.43.0


From e6c002afc0233ed90252e7185ec6fef57d8a68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 58/83] fix: keep a flush recoverable at every point

---
 src/storage/src/db.rs | 47 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 9c193bb..43180e3 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -508,9 +508,6 @@ fn flush_log_(
     // !@#trace!("writing to parquet");
     // !@#trace!("part id: {}", md.levels[0].part_id);
 
-    let empty_memtable = memtable.create_empty();
-    let memtable = mem::replace(memtable, empty_memtable);
-
     let ppath = part_path(
         path,
         metadata.table_name.as_str(),
@@ -518,39 +515,49 @@ fn flush_log_(
         metadata.levels[0].part_id,
     );
     fs.open(&ppath)?;
+    let part = write_level0(metadata, memtable, path);
+    fs.close(&ppath)?;
+    let part = part?;
 
-    let part = write_level0(metadata, &memtable, path)?;
-    metadata.levels[0].parts.push(part.clone());
+    // memory changes only when everything is on disk
+    let mut new_metadata = metadata.clone();
+    new_metadata.levels[0].parts.push(part.clone());
     // increment table id
-    metadata.levels[0].part_id += 1;
-    metadata.stats.written_bytes += part.size_bytes;
+    new_metadata.levels[0].part_id += 1;
+    new_metadata.stats.written_bytes += part.size_bytes;
 
-    metadata.stats.logged_bytes = 0;
+    new_metadata.stats.logged_bytes = 0;
     // increment log id
-    metadata.log_id += 1;
-
-    fs.close(&ppath)?;
+    new_metadata.log_id += 1;
 
-    // create new log
-    trace!("creating new log file {:?}", log_name(metadata.log_id));
+    // create new log before the metadata names it
+    trace!("creating new log file {:?}", log_name(new_metadata.log_id));
+    let log = OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .read(true)
+        .open(log_path(path, &metadata.table_name, new_metadata.log_id))?;
 
     let mut manifest = OpenOptions::new()
         .write(true)
         .read(true)
         .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
 
-    write_metadata(&mut manifest, metadata)?;
+    write_metadata(&mut manifest, &mut new_metadata)?;
+    *metadata = new_metadata;
+    *memtable = memtable.create_empty();
 
     trace!(
         "removing previous log file {:?}",
         log_name(metadata.log_id - 1)
     );
-    fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
-    let log = OpenOptions::new()
-        .create_new(true)
-        .write(true)
-        .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
+    // gc removes the log if this fails
+    if let Err(err) =
+        fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))
+    {
+        error!("remove failed: {}", err);
+    }
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
-- 
2.43.0


From 610442cb9200be5482011304b92b65a322a2d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 59/83] fix: recover the log that the metadata names

---
 src/storage/src/db.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 43180e3..b36d9a3 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -321,28 +319,8 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
+    // a flush creates the next log before the metadata names it, so the newest log may not be the current one
+    let log_path = path.join(log_name(md.log_id));
     // todo make a buffered read. Currently something odd happens with reading the length of the record
     let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
 
-- 
2.43.0


From 32ea41f14da17edc24c93478bde9dcbfeb440f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 60/83] fix: recover rows logged before a field was added

---
 src/storage/src/db.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index b36d9a3..577caa9 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -267,9 +267,14 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
             let vv = [kv, v].concat();
+            let len = vv.len();
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
             }
+            // the fields added since the row was logged
+            for idx in len..memtable.cols_len() {
+                memtable.push_value(idx, Value::Null);
+            }
         }
     }
 
-- 
2.43.0


From b3b50826a8ab7ad59f40acc341aca74eda25b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 61/83] fix: drop the record that a crash left unfinished at
 the end of a log

---
 src/storage/src/db.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 577caa9..5846b02 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -6,6 +6,7 @@ use std::io::BufReader;
 use std::io::BufWriter;
 use std::io::Read;
 use std::io::Seek;
+use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
@@ -105,6 +106,8 @@ use crate::Value;
 
 // todo make semver
 const VERSION: u64 = 1;
+// checksum and length of a log record
+const LOG_HEADER_LEN: u64 = 4 + 8;
 const BACKUP_MAGIC: [u8; 8] = [0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x7, 0x8];
 
 pub(crate) fn part_path(path: &Path, table_name: &str, level_id: usize, part_id: usize) -> PathBuf {
@@ -334,21 +337,24 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
+    let log_len = log.metadata()?.len();
+    let mut log_pos = 0;
     loop {
-        let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
+        let mut header_b = [0u8; LOG_HEADER_LEN as usize];
+        if log_len - log_pos < LOG_HEADER_LEN {
             break;
         }
-        let crc32 = u32::from_le_bytes(crc_b);
+        log.read_exact(&mut header_b)?;
+        let crc32 = u32::from_le_bytes(header_b[..4].try_into().unwrap());
         // !@#trace!("crc32: {}", crc32);
 
-        let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
-        let len = u64::from_le_bytes(len_b);
+        let len = u64::from_le_bytes(header_b[4..].try_into().unwrap());
         // !@#trace!("len: {}", len);
+        if log_len - log_pos - LOG_HEADER_LEN < len {
+            break;
+        }
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
+        log.read_exact(&mut data_b)?;
         // todo recover from this case
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
@@ -360,10 +366,14 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        log_pos += LOG_HEADER_LEN + len;
     }
+    // cut off the record that a crash left unfinished
+    log.set_len(log_pos)?;
+    log.seek(SeekFrom::Start(log_pos))?;
     // !@#trace!("operations recovered: {}", ops);
 
-    md.stats.logged_bytes = log_path.metadata().unwrap().len();
+    md.stats.logged_bytes = log_pos;
 
     let log = BufWriter::new(log);
     // if trigger_compact {
-- 
2.43.0


From d335895bfbfc725955ab0373afa38f14605c60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 62/83] fix: scan one state of a table

---
 src/storage/src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 5846b02..a052891 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -626,9 +626,9 @@ impl OptiDBImpl {
         };
 
         drop(tables);
+        // held until the parts are opened: rows move between memtable and parts, parts are replaced
         let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
@@ -665,6 +665,8 @@ impl OptiDBImpl {
                 rdrs.push(rdr);
             }
         }
+        drop(memtable);
+        drop(md);
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
         let iter = if rdrs.is_empty() {
             Box::new(MemChunkIterator::new(maybe_chunk))
-- 
2.43.0


From 5e2819eb6bdb4e85cd2f083e97c577a87349689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 63/83] fix: look for a key in every part that may hold it

---
 src/storage/src/db.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a052891..2c1c25d 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -927,7 +927,7 @@ impl OptiDBImpl {
                     }
 
                     if found.is_none() {
-                        return Ok(None);
+                        continue;
                     }
 
                     let chunks = read::FileReader::new(
@@ -1153,7 +1153,6 @@ impl OptiDBImpl {
                             return Ok(Some(vals));
                         }
                     }
-                    return Ok(None);
                 }
             }
         }
-- 
2.43.0


From c553e0ba37f8634fd4d78d21a51ac64e2edf5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 64/83] fix: do not lock the database twice to replace a row

---
 src/storage/src/db.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 2c1c25d..15042d2 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -831,7 +831,6 @@ impl OptiDBImpl {
     }
 
     pub fn replace(&self, tbl_name: &str, values: Vec<NamedValue>) -> Result<()> {
-        let _g = self.global_lock.read();
         let tables = self.tables.read();
         let tbl = tables.iter().find(|t| t.name == tbl_name);
         let tbl = match tbl {
-- 
2.43.0


From 7ed18182a2656ee6078475337294558dea9d6ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 65/83] fix: a file that someone else has removed is removed

---
 src/storage/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..e04a168 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -18,6 +18,7 @@ pub mod test_util;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs;
+use std::io;
 use std::path::Path;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -172,7 +173,11 @@ impl Fs {
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+            return match fs::remove_file(path) {
+                // the compactor and the garbage collector may remove the same file
+                Err(err) if err.kind() == io::ErrorKind::NotFound => Ok(()),
+                res => Ok(res?),
+            };
         }
         Ok(())
     }
-- 
2.43.0


From 0c077d1fe86c504b5cae4ef2563055fac9e84c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 66/83] fix: back up one state of the database

---
 src/storage/src/db.rs    | 22 +++++++++++++---------
 src/storage/src/table.rs |  7 -------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 15042d2..d25e1b1 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -10,7 +10,6 @@ use std::io::SeekFrom;
 use std::io::Write;
 use std::mem;
 use std::num::NonZeroUsize;
-use std::os::unix::fs::MetadataExt;
 use std::path::Path;
 use std::path::PathBuf;
 use std::pin::Pin;
@@ -1349,6 +1348,7 @@ impl OptiDBImpl {
         let lock = self.global_lock.write();
         let tables = self.tables.read();
         let mut mds = vec![];
+        let mut log_lens = vec![];
         for tbl in tables.iter() {
             let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
             self.fs.open(&log_path)?;
@@ -1361,17 +1361,21 @@ impl OptiDBImpl {
                     self.fs.open(&path)?;
                 }
             }
+            log_lens.push(fs::metadata(&log_path)?.len());
             mds.push(md);
         }
-        let tables = tables.clone();
+        drop(tables);
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
+        let tbls = mds
             .iter()
-            .map(table::serialize_table)
+            .map(|md| SerializableTable {
+                name: md.table_name.clone(),
+                metadata: md.clone(),
+            })
             .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
@@ -1389,7 +1393,7 @@ impl OptiDBImpl {
         writer.write_all(data.as_slice())?;
 
         // table
-        for tbl in tbls {
+        for (tbl, log_len) in tbls.into_iter().zip(log_lens) {
             // log
             let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
             let log_bak_path = format!(
@@ -1398,10 +1402,10 @@ impl OptiDBImpl {
             );
             fs::copy(&log_path, &log_bak_path)?;
             self.fs.close(&log_path)?;
-            let mut log = OpenOptions::new().read(true).open(&log_bak_path).unwrap();
-            writer.write_all(log.metadata()?.size().to_le_bytes().as_slice())?;
-            io::copy(&mut log, writer)?;
-            drop(log);
+            // what was logged since belongs to a later state
+            let log = OpenOptions::new().read(true).open(&log_bak_path)?;
+            writer.write_all(log_len.to_le_bytes().as_slice())?;
+            io::copy(&mut log.take(log_len), writer)?;
             fs::remove_file(&log_bak_path)?;
 
             // parts
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..11a15b0 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -133,13 +133,6 @@ pub(crate) struct SerializableTable {
     pub(crate) metadata: Metadata,
 }
 
-pub(crate) fn serialize_table(tbl: &Table) -> SerializableTable {
-    SerializableTable {
-        name: tbl.name.clone(),
-        metadata: tbl.metadata.lock().clone(),
-    }
-}
-
 pub(crate) fn serialize_md(md: &Metadata) -> Result<Vec<u8>> {
     let schema = metadata::Schema {
         fields: md
-- 
2.43.0


From 93e7ccfc9a44bf4f4ed3faa5b9ada3144702981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 67/83] fix: keep the tables if a backup cannot be read

---
 src/storage/src/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index d25e1b1..88eb59e 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1448,7 +1448,6 @@ impl OptiDBImpl {
     pub fn full_restore<R: Read>(&self, reader: &mut R) -> Result<()> {
         let _g = self.backup_lock.lock();
         let _g = self.global_lock.write();
-        self.truncate_all().unwrap();
         let path = self.path.clone();
         // version
         let mut version_b = [0u8; mem::size_of::<u64>()];
@@ -1461,6 +1460,7 @@ impl OptiDBImpl {
         let mut tbl_buf = vec![0; tbl_len as usize];
         reader.read_exact(&mut tbl_buf)?;
         let tables: Vec<SerializableTable> = deserialize(&tbl_buf)?;
+        self.truncate_all()?;
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-- 
2.43.0


From 808587d4125b81d1dabfca83f074277a234b8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 68/83] fix: merge each part once, and with every part that
 shares a key

---
 src/storage/src/compaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..d33a966 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -234,6 +234,9 @@ pub(crate) fn determine_compaction(
     if to_compact.is_empty() {
         return Ok(None);
     }
+    // the same part may be over both limits
+    to_compact.sort();
+    to_compact.dedup();
     let min = to_compact
         .iter()
         .map(|tc| level.get_part(tc.part).min)
@@ -245,7 +248,7 @@ pub(crate) fn determine_compaction(
         .max()
         .unwrap();
     for part in &next_level.parts {
-        if cmp::max(part.min.clone(), min.clone()) < cmp::min(part.max.clone(), max.clone()) {
+        if cmp::max(part.min.clone(), min.clone()) <= cmp::min(part.max.clone(), max.clone()) {
             to_compact.push(ToCompact::new(level_id + 1, part.id));
         }
     }
-- 
2.43.0


From 79f1ffd94a5480689186f02524cb9d43d1f27fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 69/83] fix: move a part to the next level without losing it

---
 src/storage/src/compaction.rs | 16 +++++++++-------
 src/storage/src/lib.rs        |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index d33a966..7237520 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -159,12 +159,8 @@ impl Compactor {
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
                                 match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
-                                        self.fs.close(&from).expect("close failed");
-                                        self.fs.close(&to).expect("close failed");
+                                    FsOp::Close(path) => {
+                                        self.fs.close(&path).expect("close failed");
                                     }
                                     FsOp::Delete(path) => {
                                         trace!("deleting {:?}", &path);
@@ -299,9 +295,15 @@ fn compact(
 
                     let from = part_path(path, tbl_name, level_id, to_compact[0].part);
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
+                    // the copy exists before the metadata names it, the original goes afterwards
                     fs.open(&from)?;
                     fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    std::fs::copy(&from, &to)?;
+                    if to_compact[0].level == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
+                    fs_ops.push(FsOp::Close(to));
+                    fs_ops.push(FsOp::Delete(from));
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e04a168..b892580 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -201,6 +201,6 @@ impl Fs {
 
 #[derive(Debug, Clone)]
 pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
+    Close(PathBuf),
     Delete(PathBuf),
 }
-- 
2.43.0


From 5fe6d540c932ec4d49d308747b17be5320fcefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 70/83] fix: let the files of merged parts be removed later

---
 src/storage/src/compaction.rs             | 3 ++-
 src/storage/src/parquet/parquet_merger.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 7237520..b5cce79 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -356,7 +356,8 @@ fn compact(
                 counter!(METRIC_STORE_MERGES_TOTAL,"table"=>tbl_name.to_string()).increment(1);
                 histogram!(METRIC_STORE_MERGE_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
                 for f in merge_result {
-                    fs.open(&f.path)?;
+                    // opened by the merger, until the metadata names it
+                    fs_ops.push(FsOp::Close(f.path.clone()));
                     let final_part = {
                         Part {
                             id: tmp_levels[level_id + 1].part_id + 1,
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..fe6d945 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -1022,6 +1022,7 @@ where R: Read + Seek
             } else {
                 // delete empty file. We can do this safely because we write to temp file and then rename it
                 fs::remove_file(path)?;
+                self.fs.close(path)?;
             }
             break;
         }
-- 
2.43.0


From 5bba616ca1a20c1182ac3f8f03c77b1036423156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 71/83] fix: report the error that ends a scan

---
 src/storage/src/parquet/arrow_merger.rs | 32 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..f100b07 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -426,9 +426,10 @@ impl Iterator for MergingIterator {
         }
         let mut merge_queue: Vec<ArrowChunk> = vec![];
         if let Some(chunk) = self.sorter.pop() {
-            if let Some(chunk) = self.next_stream_chunk(chunk.stream).ok()? {
-                // return Some(Ok(chunk.chunk.clone()));
-                self.sorter.push(chunk);
+            match self.next_stream_chunk(chunk.stream) {
+                Ok(Some(chunk)) => self.sorter.push(chunk),
+                Ok(None) => {}
+                Err(err) => return Some(Err(err)),
             }
             merge_queue.push(chunk);
         } else {
@@ -444,8 +445,10 @@ impl Iterator for MergingIterator {
             // in case of intersection, take chunk and add it to merge queue
             let next = self.sorter.pop().unwrap();
             // try to take next chunk of stream and add it to sorter
-            if let Some(chunk) = self.next_stream_chunk(next.stream).ok()? {
-                self.sorter.push(chunk);
+            match self.next_stream_chunk(next.stream) {
+                Ok(Some(chunk)) => self.sorter.push(chunk),
+                Ok(None) => {}
+                Err(err) => return Some(Err(err)),
             }
             // push chunk to merge queue
             merge_queue.push(next);
@@ -453,16 +456,17 @@ impl Iterator for MergingIterator {
         // check queue len. Queue len may be 1 if there is no intersection
         if merge_queue.len() > 1 {
             // in case of intersection, merge queue
-            let res = self
-                .merge_queue(
-                    &merge_queue
-                        .iter()
-                        .map(|chunk| &chunk.chunk)
-                        .collect::<Vec<_>>(),
-                )
-                .ok()?;
+            let res = self.merge_queue(
+                &merge_queue
+                    .iter()
+                    .map(|chunk| &chunk.chunk)
+                    .collect::<Vec<_>>(),
+            );
             // todo split arrays
-            self.merge_result_buffer = VecDeque::from(res);
+            self.merge_result_buffer = match res {
+                Ok(res) => VecDeque::from(res),
+                Err(err) => return Some(Err(err)),
+            };
 
             self.next()
         } else {
-- 
2.43.0


From cb43443ff811a52986738a582ed920c40d83ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 72/83] fix: replace the metadata of a table at once

---
 src/storage/src/compaction.rs |  5 +++--
 src/storage/src/db.rs         | 42 +++++++++++++----------------------
 src/storage/src/table.rs      |  1 -
 3 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index b5cce79..59dbfb1 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -23,6 +23,7 @@ use metrics::counter;
 use metrics::histogram;
 use parking_lot::RwLock;
 
+use crate::db::metadata_path;
 use crate::db::part_path;
 use crate::db::write_metadata;
 use crate::error::Result;
@@ -153,8 +154,8 @@ impl Compactor {
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
                                 metadata.levels[idx] = l.clone();
                             }
-                            let mut manifest = table.metadata_f.lock();
-                            write_metadata(manifest.get_mut(), &mut metadata).unwrap();
+                            write_metadata(&metadata_path(&self.path, &table.name), &metadata)
+                                .unwrap();
                             drop(metadata);
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 88eb59e..cf2cfac 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -116,6 +116,10 @@ pub(crate) fn part_path(path: &Path, table_name: &str, level_id: usize, part_id:
     ))
 }
 
+pub(crate) fn metadata_path(path: &Path, tbl_name: &str) -> PathBuf {
+    path.join(format!("tables/{}/metadata", tbl_name))
+}
+
 pub(crate) fn log_name(log_id: u64) -> String {
     format!("{:016}.log", log_id)
 }
@@ -283,7 +287,8 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     Ok(())
 }
 
-pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Result<usize> {
+// a crash leaves either the previous metadata or this one
+pub(crate) fn write_metadata(path: &Path, metadata: &Metadata) -> Result<usize> {
     let data = serialize_md(metadata)?;
     let mut a = Vec::with_capacity(1024 * 10);
     let crc = hash_crc32(&data);
@@ -292,8 +297,11 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    manifest.rewind()?;
+    let tmp_path = path.with_extension("tmp");
+    let mut manifest = File::create(&tmp_path)?;
     manifest.write_all(a.concat().as_slice())?;
+    drop(manifest);
+    fs::rename(&tmp_path, path)?;
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -302,10 +310,7 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
 
 fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
-    let mut mdf = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .open(path.join("metadata"))?;
+    let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
     let read_bytes = mdf.read(&mut crc_b)?;
     if read_bytes == 0 {
@@ -383,7 +388,6 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         name,
         memtable: Arc::new(Mutex::new(memtable)),
         metadata: Arc::new(Mutex::new(md)),
-        metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
         log: Arc::new(Mutex::new(log)),
         cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
     })
@@ -531,12 +535,7 @@ fn flush_log_(
         .read(true)
         .open(log_path(path, &metadata.table_name, new_metadata.log_id))?;
 
-    let mut manifest = OpenOptions::new()
-        .write(true)
-        .read(true)
-        .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
-
-    write_metadata(&mut manifest, &mut new_metadata)?;
+    write_metadata(&metadata_path(path, &metadata.table_name), &new_metadata)?;
     *metadata = new_metadata;
     *memtable = memtable.create_empty();
 
@@ -1255,8 +1254,7 @@ impl OptiDBImpl {
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
         metadata.schema.fields.push(field.clone());
-        let mut mdf = tbl.metadata_f.lock();
-        write_metadata(mdf.get_mut(), &mut metadata)?;
+        write_metadata(&metadata_path(&self.path, tbl_name), &metadata)?;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
@@ -1285,7 +1283,7 @@ impl OptiDBImpl {
             fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
         }
 
-        let mut metadata = Metadata {
+        let metadata = Metadata {
             version: 0,
             log_id: 0,
             table_name: table_name.clone(),
@@ -1301,17 +1299,11 @@ impl OptiDBImpl {
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
-        let mut mdf = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join("metadata"))?;
-        write_metadata(&mut mdf, &mut metadata)?;
+        write_metadata(&path.join("metadata"), &metadata)?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
             metadata: Arc::new(Mutex::new(metadata)),
-            metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
             log: Arc::new(Mutex::new(BufWriter::new(log))),
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
@@ -1464,12 +1456,10 @@ impl OptiDBImpl {
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-            let md_path = path.join(format!("tables/{}/metadata", tbl.name));
-            let mut md_w = File::create(md_path)?;
             let mut md = tbl.metadata.clone();
             md.log_id = 0;
             md.version = version;
-            write_metadata(&mut md_w, &mut md)?;
+            write_metadata(&metadata_path(&path, &tbl.name), &md)?;
 
             // log
             let mut log_len_b = [0u8; mem::size_of::<u64>()];
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 11a15b0..83c0173 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -112,7 +112,6 @@ pub(crate) struct Table {
     pub(crate) name: String,
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
-    pub(crate) metadata_f: Arc<Mutex<BufWriter<File>>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
     pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
 }
-- 
2.43.0


From e1f31169d9a276d497efe358d31d127016c6ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 73/83] fix: add a field in memory only when its metadata is
 written

---
 src/storage/src/db.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index cf2cfac..6ea7232 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1253,8 +1253,10 @@ impl OptiDBImpl {
         }
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
-        metadata.schema.fields.push(field.clone());
-        write_metadata(&metadata_path(&self.path, tbl_name), &metadata)?;
+        let mut new_metadata = metadata.clone();
+        new_metadata.schema.fields.push(field.clone());
+        write_metadata(&metadata_path(&self.path, tbl_name), &new_metadata)?;
+        *metadata = new_metadata;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
-- 
2.43.0


From a3d366d94cd45ca5a3b32af90af8dae4f3c70f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 74/83] fix: read strings and timestamps of stored rows

---
 src/storage/src/db.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 6ea7232..2ec1d55 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -31,6 +31,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -38,8 +39,6 @@ use arrow2::datatypes::Schema;
 use arrow2::io::parquet;
 use arrow2::io::parquet::read;
 use arrow2::io::parquet::write::transverse;
-use arrow_array::StringArray;
-use arrow_array::TimestampNanosecondArray;
 use bincode::deserialize;
 use bincode::serialize;
 use common::types::DType;
@@ -1049,14 +1048,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1124,7 +1123,7 @@ impl OptiDBImpl {
                                                 DataType::Timestamp(_, _) => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<TimestampNanosecondArray>()
+                                                        .downcast_ref::<Int64Array>()
                                                         .unwrap();
                                                     vals.push(Value::Timestamp(Some(
                                                         arr.value(row_id),
@@ -1133,7 +1132,7 @@ impl OptiDBImpl {
                                                 DataType::Utf8 => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<StringArray>()
+                                                        .downcast_ref::<Utf8Array<i32>>()
                                                         .unwrap();
                                                     vals.push(Value::String(Some(
                                                         arr.value(row_id).to_string(),
-- 
2.43.0


From 7a4fa53107ee45b580fd179f604c4ac4c456fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 75/83] fix: close the files of a scan that is not read to its
 end

---
 src/storage/src/db.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 2ec1d55..f9933d1 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -589,13 +589,6 @@ impl Stream for ScanStream {
     fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         match self.iter.next() {
             None => {
-                for (level_id, level) in self.md.levels.iter().enumerate() {
-                    for part in &level.parts {
-                        let path = part_path(&self.path, &self.table_name, level_id, part.id);
-                        self.fs.close(&path)?;
-                    }
-                }
-
                 histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                     .record(self.start_time.elapsed());
                 Poll::Ready(None)
@@ -608,6 +601,19 @@ impl Stream for ScanStream {
     }
 }
 
+impl Drop for ScanStream {
+    fn drop(&mut self) {
+        for (level_id, level) in self.md.levels.iter().enumerate() {
+            for part in &level.parts {
+                let path = part_path(&self.path, &self.table_name, level_id, part.id);
+                if let Err(err) = self.fs.close(&path) {
+                    error!("close failed: {}", err);
+                }
+            }
+        }
+    }
+}
+
 impl OptiDBImpl {
     // #[instrument(level = "trace")]
     pub fn open(path: PathBuf, opts: Options) -> Result<Self> {
-- 
2.43.0


From 7daa23fbe2665f3515c1325cfa28b57446fc78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 76/83] fix: let a table be created again after a crash in the
 middle of it

---
 src/storage/src/db.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index f9933d1..34b1866 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -400,6 +400,10 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        // the metadata is written last: without it the table was never created
+        if !f.path().join("metadata").exists() {
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -1302,7 +1306,8 @@ impl OptiDBImpl {
 
         let memtable = Memtable::new();
         let log = OpenOptions::new()
-            .create_new(true)
+            .create(true)
+            .truncate(true)
             .write(true)
             .read(true)
             .open(path.join(log_name(0)))?;
-- 
2.43.0


From 864b9b02b50527d874b996705ad749ac3c0a06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 77/83] fix: create a table once when two threads ask for it

---
 src/storage/src/db.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 34b1866..dd7ad36 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1280,14 +1280,14 @@ impl OptiDBImpl {
 
     pub fn create_table(&self, table_name: String, opts: table::Options) -> Result<()> {
         let _g = self.global_lock.read();
-        let tbl = self.tables.read();
-        if tbl.iter().any(|t| t.name == table_name) {
+        // held until the table is there
+        let mut tables = self.tables.write();
+        if tables.iter().any(|t| t.name == table_name) {
             return Err(StoreError::AlreadyExists(format!(
                 "Table with name {} already exists",
                 table_name
             )));
         }
-        drop(tbl);
         let path = self.path.join("tables").join(table_name.clone());
         fs::create_dir_all(&path)?;
         for lid in 0..opts.levels {
@@ -1320,7 +1320,6 @@ impl OptiDBImpl {
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
 
-        let mut tables = self.tables.write();
         tables.push(tbl);
         Ok(())
     }
-- 
2.43.0


From cee59706954c7fb55a1b51c61df31ecaa9718920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 78/83] fix: do not leave a second garbage collector behind
 after a restore

---
 src/storage/src/db.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index dd7ad36..5493f82 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -393,8 +393,7 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
 }
 
 // #[instrument(level = "trace")]
-fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
-    let path = path.as_ref();
+fn recover_tables(path: &Path) -> Result<Vec<Table>> {
     fs::create_dir_all(path.join("tables"))?;
     let mut tables = vec![];
     let dir = fs::read_dir(path.join("tables"))?;
@@ -409,6 +408,12 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
             f.file_name().to_os_string().into_string().unwrap(),
         )?);
     }
+    Ok(tables)
+}
+
+fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
+    let path = path.as_ref();
+    let tables = recover_tables(path)?;
     // let trigger_compact = if metadata.partitions[0].parts.len() > 0
     //     && metadata.partitions[0].parts.len() > opts.l0_max_parts
     // {
@@ -1500,9 +1505,8 @@ impl OptiDBImpl {
             return Err(StoreError::InvalidBackupMagicNumber);
         }
 
-        let db = recover(path, Options {})?;
-        // todo prevent the start of gc/compaction before tables are copied
-        let from = db.tables.read().clone();
+        // the workers of this store go on with the restored tables
+        let from = recover_tables(&path)?;
         let mut to = self.tables.write();
         *to = from;
         Ok(())
-- 
2.43.0


From 098c14ce11c963f8e38a7c52101c7f80362d32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 79/83] fix: do not collect garbage while a backup is restored

---
 src/storage/src/db.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 5493f82..298ede9 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -163,9 +163,11 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
     }
 }
 
-fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
+fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>, lock: Arc<RwLock<()>>) {
     loop {
         thread::sleep(Duration::from_secs(1));
+        // the directories of the tables are replaced during a restore
+        let _g = lock.read();
         let tbl = tables.read().clone();
         for tbl in tbl {
             let md = tbl.metadata.lock();
@@ -433,7 +435,8 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let tables_cloned = tables.clone();
     let fs_cloned = fs.clone();
     let path_cloned = path.to_owned();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    let lock_cloned = lock.clone();
+    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned, lock_cloned));
     Ok(OptiDBImpl {
         opts,
         tables,
-- 
2.43.0


From 620b85713077708f99d7260f97c329d06f0bb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 80/83] fix: detaching a property that is not attached answers
 not found

---
 src/metadata/src/events.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index eb1d59d..7b12890 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -98,8 +98,8 @@ macro_rules! detach_property {
             }
             Some(props) => match props.iter().find(|x| $prop_id == **x) {
                 None => {
-                    return Err(MetadataError::AlreadyExists(
-                        "property already exist".to_string(),
+                    return Err(MetadataError::NotFound(
+                        format!("property {} not found", $prop_id).to_string(),
                     ));
                 }
                 Some(_) => Some(props.into_iter().filter(|x| $prop_id != *x).collect()),
-- 
2.43.0


From ef0a99351294c84781165d045e50b47239c50b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 81/83] fix: listing backups answers a failed read instead of
 panicking

---
 src/metadata/src/backups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 1fe5bd1..ea097bd 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -171,7 +171,7 @@ impl Backups {
 
     pub fn list(&self) -> Result<ListResponse<Backup>> {
         let tx = self.db.transaction();
-        Ok(self.list_(&tx).unwrap())
+        self.list_(&tx)
     }
 
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
-- 
2.43.0


From 3636c9bd327422e79eb4d8a775747a247ce2c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 82/83] fix: keep a property in memory only once it is
 committed

---
 src/metadata/src/properties.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 8381f66..6b06110 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -216,6 +216,17 @@ impl Properties {
         }
     }
 
+    fn cache_(&self, project_id: u64, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((project_id, prop.id), prop.clone());
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -276,16 +287,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -351,6 +352,7 @@ impl Properties {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
         tx.commit()?;
+        self.cache_(project_id, &ret);
 
         Ok(ret)
     }
@@ -365,6 +367,7 @@ impl Properties {
         let ret = self.create_(&tx, project_id, req)?;
 
         tx.commit()?;
+        self.cache_(project_id, &ret);
 
         Ok(ret)
     }
@@ -498,20 +501,12 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
         update_index(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref(), property_id)?;
         tx.commit()?;
+        self.cache_(project_id, &prop);
         Ok(prop)
     }
 
-- 
2.43.0


From f4195c355d1d672ca0480c6c2dc48a29b41b74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 83/83] fix: deleting an organization removes it from its
 members' accounts

---
 src/metadata/src/organizations.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..f0b31c1 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -223,6 +223,14 @@ impl Organizations {
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
         delete_index(&tx, index_keys(&org.name).as_ref())?;
+
+        for (member_id, _) in org.members.iter() {
+            match self.accs.remove_organization_(&tx, *member_id, id) {
+                // the account may be deleted or may have left already
+                Ok(()) | Err(MetadataError::NotFound(_)) => {}
+                Err(err) => return Err(err),
+            }
+        }
         tx.commit()?;
         Ok(org)
     }
-- 
2.43.0

