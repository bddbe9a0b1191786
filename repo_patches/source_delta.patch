From 8907aed69ad2a3fc53de120fefd55f2fed1e0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 01/19] fix: (de)serialize array item bounds as
 minItems/maxItems

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..2ccb969 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -779,6 +779,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 #[serde(bound(
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
-- 
2.43.0


From 71cea3564069f40b1c5cb3f43d04a8676e1f71e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 02/19] fix: do not serialize a missing Thing Model version as
 null

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 2ccb969..68a5127 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 0b6417aeb2bd28fcc64d6496f04010b0d1f30e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 03/19] fix: parse the dataResponse member of an event
 affordance

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 68a5127..ab02f94 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -578,6 +578,7 @@ pub struct EventAffordance<Other: ExtendableThing> {
     pub data: Option<DataSchemaFromOther<Other>>,
 
     /// Data schema of the responsed messages sent by the consumer in a response to a data message.
+    #[serde(alias = "dataResponse")]
     pub data_response: Option<DataSchemaFromOther<Other>>,
 
     /// Data that needs to be passed to cancel a subscription.
-- 
2.43.0


From 43c16ab7c7376f7398cb2f8a1dbc1652d1cc0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 04/19] fix: parse HTTP responses without htv:headers

---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..7e02eba 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -31,7 +31,7 @@ pub struct MessageHeader {
 #[skip_serializing_none]
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
-    #[serde(rename = "htv:headers")]
+    #[serde(rename = "htv:headers", default)]
     #[serde(skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
-- 
2.43.0


From 34e57cdf03e707554e74ae9fc7ad05c474ca06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 05/19] fix: default the quality of protection of a digest
 security scheme

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index ab02f94..5790022 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1272,6 +1272,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From 7a087ae74802c85a8e615fe33cc1ab4664101164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 06/19] fix: serialize an empty set of form operations as an
 array instead of null

---
 src/thing.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 5790022..5fadd5a 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1676,7 +1676,6 @@ impl Serialize for DefaultedFormOperations {
     {
         match self {
             Self::Default => serializer.serialize_none(),
-            Self::Custom(ops) if ops.is_empty() => serializer.serialize_none(),
             Self::Custom(ops) => ops.serialize(serializer),
         }
     }
-- 
2.43.0


From 73c26634c78b20895351a388f0278b4698e46d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 07/19] fix: reject a NaN multipleOf in number data schemas

---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..6c635f4 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3858,7 +3858,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 59ddc1ea29b5b85f84e7ef93e9b2bc3dd57998d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 08/19] fix: accept data schemas mixing inclusive and exclusive
 bounds

A minimum compared to a maximum of the other kind is unordered even when the
range is valid (e.g. minimum 0 and exclusiveMaximum 10), and it was rejected.
Two equal exclusive bounds, which admit no number, were accepted.
---
 src/builder/data_schema.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 6c635f4..3b4fa81 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3849,9 +3849,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_empty_range(min, max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3863,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_empty_range(min, max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
@@ -3893,6 +3889,17 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// Returns `true` if no number can satisfy both the bounds.
+fn is_empty_range<T: PartialOrd>(minimum: Minimum<T>, maximum: Maximum<T>) -> bool {
+    match (minimum, maximum) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => min > max,
+        (
+            Minimum::Inclusive(min) | Minimum::Exclusive(min),
+            Maximum::Inclusive(max) | Maximum::Exclusive(max),
+        ) => min >= max,
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From 7fc9329c3a48d6965aea8c61646bbd7ef7f8c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 09/19] fix: reject string data schemas with minLength greater
 than maxLength

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 3b4fa81..6bae7d2 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3872,7 +3872,11 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0


From 81e17ae131d46b7130c297930788d11ff7091bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 10/19] fix: check the data response schema of an event
 affordance

---
 src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..9fe971b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -921,6 +921,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 [
                     event.subscription.as_ref(),
                     event.data.as_ref(),
+                    event.data_response.as_ref(),
                     event.cancellation.as_ref(),
                 ]
             },
-- 
2.43.0


From 928bc556e0e665fade35c69f9f20f7231a5dd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 11/19] fix: check the data schemas of URI variables and schema
 definitions

---
 src/builder.rs            |  7 +++++++
 src/builder/affordance.rs | 21 +++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9fe971b..0118fb8 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -873,6 +876,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             return Err(Error::InvalidUriVariables);
         }
 
+        uri_variables
+            .iter()
+            .flat_map(|uri_variables| uri_variables.values())
+            .try_for_each(CheckableDataSchema::check)?;
         let uri_variables = uri_variables
             .map(|uri_variables| {
                 uri_variables
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..5d67ad5 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2460,7 +2460,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
@@ -2486,7 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
             return Err(Error::InvalidUriVariables);
         }
 
-        Ok(())
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)
     }
 }
 
-- 
2.43.0


From b7113093863f142facee8e8e7ac24455b7ba2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 12/19] fix: check the schemas of additional responses in
 affordance forms

---
 src/builder.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 0118fb8..940c3aa 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -940,6 +940,30 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             },
             &security_definitions,
         )?;
+
+        let properties_interactions = properties
+            .iter()
+            .flat_map(|properties| properties.values().map(|property| &property.interaction));
+        let actions_interactions = actions
+            .iter()
+            .flat_map(|actions| actions.values().map(|action| &action.interaction));
+        let events_interactions = events
+            .iter()
+            .flat_map(|events| events.values().map(|event| &event.interaction));
+        properties_interactions
+            .chain(actions_interactions)
+            .chain(events_interactions)
+            .flat_map(|interaction| &interaction.forms)
+            .flat_map(|form| form.additional_responses.iter().flatten())
+            .flat_map(|additional_response| additional_response.schema.as_ref())
+            .try_for_each(|schema| {
+                schema_definitions
+                    .as_ref()
+                    .is_some_and(|schema_definitions| schema_definitions.contains_key(schema))
+                    .then_some(())
+                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+            })?;
+
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
-- 
2.43.0


From 08ba9a2ed22691b7cb15eee566be6c94fe08ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/19] fix: serialize the members shared by a property and its
 data schema only once

---
 src/thing.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 5fadd5a..a70823a 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -391,8 +391,7 @@ where
 }
 
 /// An affordance that exposes the state of a `Thing`
-#[skip_serializing_none]
-#[derive(Deserialize, Serialize)]
+#[derive(Deserialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
     #[serde(flatten)]
@@ -464,6 +463,69 @@ where
     }
 }
 
+impl<Other: ExtendableThing> Serialize for PropertyAffordance<Other> {
+    /// The human-readable members are shared between the interaction affordance and the data
+    /// schema, but they must appear only once in the resulting object.
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        #[serde_as]
+        #[skip_serializing_none]
+        #[derive(Serialize)]
+        #[serde(rename_all = "camelCase", bound(serialize = "Other: ExtendableThing"))]
+        struct Flattened<'a, Other: ExtendableThing> {
+            #[serde(rename = "@type")]
+            #[serde_as(as = "Option<OneOrMany<_>>")]
+            attype: Option<Vec<&'a str>>,
+            title: Option<&'a str>,
+            titles: Option<&'a MultiLanguage>,
+            description: Option<&'a str>,
+            descriptions: Option<&'a MultiLanguage>,
+            forms: &'a [Form<Other>],
+            uri_variables: Option<&'a DataSchemaMap<Other>>,
+            #[serde(flatten)]
+            interaction_other: &'a Other::InteractionAffordance,
+            #[serde(flatten)]
+            data_schema: &'a DataSchemaFromOther<Other>,
+            observable: Option<bool>,
+            #[serde(flatten)]
+            other: &'a Other::PropertyAffordance,
+        }
+
+        /// Takes the value from the interaction only if it is not in the data schema.
+        fn unshared<T: ?Sized>(interaction: Option<&T>, in_data_schema: bool) -> Option<&T> {
+            interaction.filter(|_| !in_data_schema)
+        }
+
+        let Self {
+            interaction,
+            data_schema,
+            observable,
+            other,
+        } = self;
+
+        Flattened::<Other> {
+            attype: unshared(interaction.attype.as_deref(), data_schema.attype.is_some())
+                .map(|attype| attype.iter().map(String::as_str).collect()),
+            title: unshared(interaction.title.as_deref(), data_schema.title.is_some()),
+            titles: unshared(interaction.titles.as_ref(), data_schema.titles.is_some()),
+            description: unshared(
+                interaction.description.as_deref(),
+                data_schema.description.is_some(),
+            ),
+            descriptions: unshared(
+                interaction.descriptions.as_ref(),
+                data_schema.descriptions.is_some(),
+            ),
+            forms: &interaction.forms,
+            uri_variables: interaction.uri_variables.as_ref(),
+            interaction_other: &interaction.other,
+            data_schema,
+            observable: *observable,
+            other,
+        }
+        .serialize(serializer)
+    }
+}
+
 /// An affordance that allows to inkvoke a function of the `Thing`.
 #[skip_serializing_none]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From 13fade9cdf35f04da7336f8e32aef86e8d5291e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 14/19] fix: make the last translation win for language tags
 differing only by case

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 940c3aa..269894b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1807,7 +1807,11 @@ impl<T> MultiLanguageBuilder<T> {
     ///
     /// NOTE: The language key is currently free-form
     pub fn add(&mut self, language: impl Into<String>, value: impl Into<T>) -> &mut Self {
-        self.values.insert(language.into(), value.into());
+        let language = language.into();
+        // Language tags are case-insensitive
+        self.values
+            .retain(|other, _| !other.eq_ignore_ascii_case(&language));
+        self.values.insert(language, value.into());
         self
     }
 
-- 
2.43.0


From 1e357978e94f66dd0060c2bb2d0739ba96ea5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 15/19] fix: keep a single required entry for an object
 property declared twice

---
 src/builder/data_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 6bae7d2..7b7b41c 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -1923,6 +1923,7 @@ where
         let data_schema = f(DataSchemaBuilder::<DS, _, _, _>::empty()).into();
         let name = name.into();
 
+        self.required.retain(|other| *other != name);
         if required {
             self.required.push(name.clone());
         }
-- 
2.43.0


From 8af4e49ec95d1352ce2d126b36f0d956cbea3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 16/19] fix: default the data of a custom security scheme to an
 empty object

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 269894b..98dede7 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2170,7 +2170,7 @@ pub mod security {
                 name,
                 subtype: UnknownSecuritySchemeSubtype {
                     scheme,
-                    data: Value::Null,
+                    data: Value::Object(Default::default()),
                 },
                 required,
             }
-- 
2.43.0


From 0ebdb733f9e45299d1be994b1a0abb913da2da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:50 +0000
Subject: [PATCH 17/19] fix: keep null const and default values of a data
 schema

---
 src/thing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index a70823a..1bef963 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -754,10 +754,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(rename = "const", default, deserialize_with = "some_value")]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "some_value")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -790,6 +791,11 @@ pub struct DataSchema<DS, AS, OS> {
     pub other: DS,
 }
 
+/// Deserializes a value that is present, without considering `null` as a missing value.
+fn some_value<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Option<Value>, D::Error> {
+    Value::deserialize(deserializer).map(Some)
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From 6ff38f9c3851a19bc776e53f9f8e9935c8128e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 18/19] fix: parse combo security schemes with members besides
 oneOf / allOf

---
 src/thing.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 1bef963..a74a927 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1268,7 +1268,7 @@ impl Default for SecuritySchemeSubtype {
 
 /// A combination of security schemes.
 #[serde_as]
-#[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub enum ComboSecurityScheme {
     /// Two or more strings identifying other named security scheme definitions, any one of which,
@@ -1280,6 +1280,41 @@ pub enum ComboSecurityScheme {
     AllOf(#[serde_as(as = "OneOrMany<_>")] Vec<String>),
 }
 
+// A derived implementation would refuse any other member beside `oneOf` or `allOf`.
+impl<'de> Deserialize<'de> for ComboSecurityScheme {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[serde_as]
+        #[derive(Deserialize)]
+        #[serde(rename_all = "camelCase")]
+        struct Members {
+            #[serde(default)]
+            #[serde_as(as = "Option<OneOrMany<_>>")]
+            one_of: Option<Vec<String>>,
+
+            #[serde(default)]
+            #[serde_as(as = "Option<OneOrMany<_>>")]
+            all_of: Option<Vec<String>>,
+        }
+
+        match Members::deserialize(deserializer)? {
+            Members {
+                one_of: Some(names),
+                all_of: None,
+            } => Ok(Self::OneOf(names)),
+            Members {
+                one_of: None,
+                all_of: Some(names),
+            } => Ok(Self::AllOf(names)),
+            _ => Err(serde::de::Error::custom(
+                "expected exactly one of `oneOf` and `allOf`",
+            )),
+        }
+    }
+}
+
 /// Basic Authentication ([RFC7617](https://httpwg.org/specs/rfc7617.html)) security configuration
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-- 
2.43.0


From 50e11557d2fe87d0d91814b7fb8bc0f77a5e571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:55 +0000
Subject: [PATCH 19/19] fix: reject integer schemas whose exclusive bounds
 leave no integer

An integer schema with consecutive exclusive bounds (1 < x < 2) cannot be
satisfied, but was accepted.
---
 src/builder/data_schema.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 7b7b41c..1b1abc2 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3867,6 +3867,12 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     (Some(min), Some(max)) if is_empty_range(min, max) => {
                         return Err(Error::InvalidMinMax)
                     }
+                    // No integer lies between two consecutive ones
+                    (Some(Minimum::Exclusive(min)), Some(Maximum::Exclusive(max)))
+                        if min.checked_add(1) == Some(max) =>
+                    {
+                        return Err(Error::InvalidMinMax)
+                    }
                     _ => {}
                 },
                 Object(UncheckedObjectSchema {
-- 
2.43.0

