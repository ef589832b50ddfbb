From a53c27d7f21d5e976769d5d3bbb39d292ddd560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 01/15] fix: do not serialize a missing version model as null

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..96f021d 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 4ac2f90f9327451343664eb5fba39315d744514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 02/15] fix: use the minItems and maxItems names of the array
 schema vocabulary

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 96f021d..68a5127 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -780,6 +780,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 #[serde(bound(
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-- 
2.43.0


From ffdbfb5b1ec9111d4355b556cbe9bda0a257f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 03/15] fix: accept an HTTP response without htv:headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..5ce8f77 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -32,7 +32,7 @@ pub struct MessageHeader {
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
     #[serde(rename = "htv:headers")]
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
     pub status_code_value: Option<usize>,
-- 
2.43.0


From a60221427d01a9ad0fc9c810a280d587a089258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 04/15] fix: default the qop of a digest security scheme to
 auth

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 68a5127..df6cd5f 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1271,6 +1271,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From b3cc9f52dbc88e5de960f3031b1a785c39386688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 05/15] fix: keep null const and default values when
 deserializing a data schema

---
 src/thing.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index df6cd5f..1e72e69 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -691,10 +691,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "some_value")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "some_value")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -1731,6 +1732,14 @@ pub struct AdditionalExpectedResponse {
     pub schema: Option<String>,
 }
 
+/// Deserializes a value that is present, keeping an explicit `null` as `Some(Value::Null)`.
+fn some_value<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 const fn bool_false() -> bool {
     false
 }
-- 
2.43.0


From 49d180170d3ba40e565d3de90f134499b5257e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 06/15] fix: serialize an empty set of form operations as an
 empty array

---
 src/thing.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 1e72e69..42df225 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1676,7 +1676,6 @@ impl Serialize for DefaultedFormOperations {
     {
         match self {
             Self::Default => serializer.serialize_none(),
-            Self::Custom(ops) if ops.is_empty() => serializer.serialize_none(),
             Self::Custom(ops) => ops.serialize(serializer),
         }
     }
-- 
2.43.0


From e6db9ae817ff60080aca22406fbf9d36df813c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 07/15] fix: recognize a combo security scheme that has
 extension members

---
 src/thing.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 42df225..5f80364 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1201,7 +1201,7 @@ impl Default for SecuritySchemeSubtype {
 /// A combination of security schemes.
 #[serde_as]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", try_from = "ComboSecuritySchemeMembers")]
 pub enum ComboSecurityScheme {
     /// Two or more strings identifying other named security scheme definitions, any one of which,
     /// when satisfied, will allow access.
@@ -1212,6 +1212,34 @@ pub enum ComboSecurityScheme {
     AllOf(#[serde_as(as = "OneOrMany<_>")] Vec<String>),
 }
 
+/// The members of a combo security scheme, which can appear together with extension members.
+#[serde_as]
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct ComboSecuritySchemeMembers {
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    one_of: Option<Vec<String>>,
+
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    all_of: Option<Vec<String>>,
+}
+
+impl TryFrom<ComboSecuritySchemeMembers> for ComboSecurityScheme {
+    type Error = &'static str;
+
+    fn try_from(members: ComboSecuritySchemeMembers) -> Result<Self, Self::Error> {
+        let ComboSecuritySchemeMembers { one_of, all_of } = members;
+
+        match (one_of, all_of) {
+            (Some(names), None) => Ok(Self::OneOf(names)),
+            (None, Some(names)) => Ok(Self::AllOf(names)),
+            _ => Err("a combo security scheme must have either oneOf or allOf"),
+        }
+    }
+}
+
 /// Basic Authentication ([RFC7617](https://httpwg.org/specs/rfc7617.html)) security configuration
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-- 
2.43.0


From 5d6bb0c104307f03047875dff6bd4b4ad59e4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/15] fix: check the data response schema of events when
 building a thing

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..9fe971b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -921,6 +921,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 [
                     event.subscription.as_ref(),
                     event.data.as_ref(),
+                    event.data_response.as_ref(),
                     event.cancellation.as_ref(),
                 ]
             },
-- 
2.43.0


From 5d15534505ac08a2623ec61297fcdc0297c551d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 09/15] fix: check the data schemas of schema definitions and
 URI variables when building a thing

---
 src/builder.rs            |  7 +++++++
 src/builder/affordance.rs | 21 +++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9fe971b..7359aea 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -873,6 +876,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             return Err(Error::InvalidUriVariables);
         }
 
+        uri_variables
+            .iter()
+            .flat_map(HashMap::values)
+            .try_for_each(CheckableDataSchema::check)?;
         let uri_variables = uri_variables
             .map(|uri_variables| {
                 uri_variables
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..5d67ad5 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2460,7 +2460,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
@@ -2486,7 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
-- 
2.43.0


From e455fdfb768863e7b00e55c36a2685ed2ab97ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 10/15] fix: accept a data schema with an inclusive and an
 exclusive bound

---
 src/builder/data_schema.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..ec65650 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3849,9 +3849,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_invalid_range(min, max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3863,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_invalid_range(min, max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
@@ -3893,6 +3889,23 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// Whether the minimum is not compatible with the maximum.
+fn is_invalid_range<T>(min: Minimum<T>, max: Maximum<T>) -> bool
+where
+    T: PartialOrd,
+{
+    match (min, max) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max))
+        | (Minimum::Exclusive(min), Maximum::Exclusive(max)) => {
+            matches!(min.partial_cmp(&max), None | Some(Ordering::Greater))
+        }
+        (Minimum::Inclusive(min), Maximum::Exclusive(max))
+        | (Minimum::Exclusive(min), Maximum::Inclusive(max)) => {
+            min.partial_cmp(&max) != Some(Ordering::Less)
+        }
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From 9708cb7c82ec30902c79d585e77a03024f6bc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 11/15] fix: refuse a multipleOf that is not a number

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index ec65650..59eb7cb 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3856,7 +3856,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 9331fc905e99127f2d8ba2007766f2f23fb4d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 12/15] fix: check the schema of the additional responses in
 the forms of the affordances

---
 src/builder.rs            | 18 +++++++++++-------
 src/builder/affordance.rs | 24 ++++++++++++++++++++----
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7359aea..fbabb50 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -823,7 +823,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         schema_definitions
             .values()
             .try_for_each(CheckableDataSchema::check)?;
-        let schema_definitions = schema_definitions
+        let schema_definitions: HashMap<String, DataSchemaFromOther<Other>> = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
             .collect::<Result<_, _>>()?;
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -904,6 +899,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +915,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,7 +936,12 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1688,13 +1690,14 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+fn try_build_affordance<A, F, IA, G, DS, T, H, D, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, D>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1718,6 +1721,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 5d67ad5..c97e469 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -2428,9 +2428,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, D>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, D>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2442,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, D>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, D>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2455,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2469,9 +2472,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, D>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, D>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2481,6 +2485,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2495,9 +2500,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, D>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, D>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2528,6 +2534,16 @@ where
                 })
             })
             .transpose()?;
+
+        form.additional_responses
+            .iter()
+            .flat_map(|additional_response| additional_response.schema.as_ref())
+            .try_for_each(|schema| {
+                schema_definitions
+                    .contains_key(schema)
+                    .then_some(())
+                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+            })?;
     }
 
     Ok(())
-- 
2.43.0


From d9c8f6aa619c13082ba0e842e4aac9728ba041f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 13/15] fix: serialize the shared members of a property
 affordance just once

---
 src/thing.rs | 87 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 5f80364..20abae2 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -415,6 +414,90 @@ pub struct PropertyAffordance<Other: ExtendableThing> {
     pub other: Other::PropertyAffordance,
 }
 
+/// The members of a serialized [`PropertyAffordance`].
+///
+/// The interaction affordance and the data schema of a property share their human-readable members
+/// and their types, each of them must be serialized just once.
+#[serde_as]
+#[skip_serializing_none]
+#[derive(Serialize)]
+#[serde(rename_all = "camelCase")]
+struct PropertyAffordanceMembers<'a, Other: ExtendableThing> {
+    #[serde(flatten)]
+    interaction: &'a InteractionAffordance<Other>,
+
+    #[serde(rename = "@type")]
+    #[serde_as(as = "Option<&OneOrMany<_>>")]
+    attype: Option<&'a Vec<String>>,
+    title: Option<&'a String>,
+    titles: Option<&'a MultiLanguage>,
+    description: Option<&'a String>,
+    descriptions: Option<&'a MultiLanguage>,
+    #[serde(rename = "const")]
+    constant: Option<&'a Value>,
+    default: Option<&'a Value>,
+    unit: Option<&'a String>,
+    one_of: Option<&'a Vec<DataSchemaFromOther<Other>>>,
+    #[serde(rename = "enum")]
+    enumeration: Option<&'a Vec<Value>>,
+    read_only: bool,
+    write_only: bool,
+    format: Option<&'a String>,
+    #[serde(flatten)]
+    subtype:
+        Option<&'a DataSchemaSubtype<Other::DataSchema, Other::ArraySchema, Other::ObjectSchema>>,
+    #[serde(flatten)]
+    data_schema_other: &'a Other::DataSchema,
+
+    observable: Option<bool>,
+
+    #[serde(flatten)]
+    other: &'a Other::PropertyAffordance,
+}
+
+impl<Other> Serialize for PropertyAffordance<Other>
+where
+    Other: ExtendableThing + Serialize,
+{
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        fn unless_set<'a, T>(data_schema: &'a Option<T>, interaction: &Option<T>) -> Option<&'a T> {
+            data_schema.as_ref().filter(|_| interaction.is_none())
+        }
+
+        let Self {
+            interaction,
+            data_schema,
+            observable,
+            other,
+        } = self;
+
+        PropertyAffordanceMembers {
+            interaction,
+            attype: unless_set(&data_schema.attype, &interaction.attype),
+            title: unless_set(&data_schema.title, &interaction.title),
+            titles: unless_set(&data_schema.titles, &interaction.titles),
+            description: unless_set(&data_schema.description, &interaction.description),
+            descriptions: unless_set(&data_schema.descriptions, &interaction.descriptions),
+            constant: data_schema.constant.as_ref(),
+            default: data_schema.default.as_ref(),
+            unit: data_schema.unit.as_ref(),
+            one_of: data_schema.one_of.as_ref(),
+            enumeration: data_schema.enumeration.as_ref(),
+            read_only: data_schema.read_only,
+            write_only: data_schema.write_only,
+            format: data_schema.format.as_ref(),
+            subtype: data_schema.subtype.as_ref(),
+            data_schema_other: &data_schema.other,
+            observable: *observable,
+            other,
+        }
+        .serialize(serializer)
+    }
+}
+
 impl<Other> fmt::Debug for PropertyAffordance<Other>
 where
     Other: ExtendableThing,
-- 
2.43.0


From 4ea29f548c094c6e3fccb20076b657361351d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 14/15] fix: give a language that is added twice its last value

---
 src/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index fbabb50..0e633f3 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1787,7 +1787,14 @@ impl<T> MultiLanguageBuilder<T> {
     ///
     /// NOTE: The language key is currently free-form
     pub fn add(&mut self, language: impl Into<String>, value: impl Into<T>) -> &mut Self {
-        self.values.insert(language.into(), value.into());
+        let language = language.into();
+        // The case of a tag does not matter, the last value of a language must replace the others.
+        let language = match language.parse::<LanguageTag<String>>() {
+            Ok(tag) => tag.into_inner(),
+            Err(_) => language,
+        };
+
+        self.values.insert(language, value.into());
         self
     }
 
-- 
2.43.0


From dd44e5f7d4005534a051d19e7c8da09b556d3fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 15/15] fix: refuse a string schema whose minLength is greater
 than its maxLength

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 59eb7cb..4099dac 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3868,11 +3868,15 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                     _ => {}
                 },
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
                 Object(UncheckedObjectSchema {
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0

