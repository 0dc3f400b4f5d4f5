From 062f6aa5f10762664bbeaa2bcfc7ac74188e3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 01/56] fix: make registry resolution independent of file load
 order

Spec files are parsed in parallel and were resolved in whatever order the
workers finished, and an attribute inherited through `extends` could register
itself as the definition of that attribute. A group referencing the attribute
then picked up either the definition or the overridden copy, depending on
scheduling and on the layout of the files.
---
 crates/weaver_resolver/src/attribute.rs |  7 +++++--
 crates/weaver_resolver/src/loader.rs    | 27 ++++++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 153fb3e..d7207b7 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -486,8 +486,11 @@ impl AttributeCatalog {
                     source,
                     // An `Id` spec carrying an origin is an attribute inherited
                     // from a dependency through a refinement, not a definition
-                    // this registry owns.
-                    is_definition: origin.is_none(),
+                    // this registry owns. Likewise, an `Id` spec inherited from
+                    // a local group is an instance of the definition owned by
+                    // that group.
+                    is_definition: origin.is_none()
+                        && !lineage.is_some_and(|lineage| lineage.has_attribute(id)),
                 };
                 let root_attr = match self.root_attributes.get(id) {
                     Some(existing) => resolve_conflict(id, root_attr, existing.clone())?,
diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index e8a3a72..4713d6f 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -446,13 +446,16 @@ fn load_definition_repository(
 
     // Loads the semantic convention specifications from the git repo.
     // All yaml files are recursively loaded and parsed in parallel from
-    // the given path.
-    let result = walkdir::WalkDir::new(local_path.clone())
+    // the given path. The files are numbered in a stable order because the
+    // parallel processing returns them in an arbitrary one.
+    let mut result = walkdir::WalkDir::new(local_path.clone())
         .follow_links(follow_symlinks)
+        .sort_by_file_name()
         .into_iter()
         .filter_entry(|e| !is_hidden(e))
+        .enumerate()
         .par_bridge()
-        .flat_map(|entry| {
+        .flat_map(|(index, entry)| {
             match entry {
                 Ok(entry) => {
                     if !is_semantic_convention_file(&entry) {
@@ -460,7 +463,7 @@ fn load_definition_repository(
                     }
 
                     // TODO - less confusing way to load semconv specs.
-                    vec![SemConvRegistry::semconv_spec_from_file(
+                    let spec = SemConvRegistry::semconv_spec_from_file(
                         registry_repo.schema_url().clone(),
                         entry.path(),
                         |path| {
@@ -478,16 +481,20 @@ fn load_definition_repository(
                                 format!("{registry_path_repr}/{relative_path}")
                             }
                         },
-                    )]
-                    .into_par_iter()
+                    );
+                    vec![(index, spec)].into_par_iter()
                 }
-                Err(e) => vec![WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
-                    error: e.to_string(),
-                })]
+                Err(e) => vec![(
+                    index,
+                    WResult::FatalErr(weaver_semconv::Error::SemConvSpecError {
+                        error: e.to_string(),
+                    }),
+                )]
                 .into_par_iter(),
             }
         })
         .collect::<Vec<_>>();
+    result.sort_by_key(|(index, _)| *index);
 
     let mut non_fatal_errors = vec![];
     let mut specs = vec![];
@@ -496,7 +503,7 @@ fn load_definition_repository(
     // The first fatal error will stop the processing and return the error.
     // Otherwise, all non-fatal errors will be collected and returned along
     // with the result.
-    for r in result {
+    for (_, r) in result {
         match r {
             WResult::Ok(t) => specs.push(t),
             WResult::OkWithNFEs(t, nfes) => {
-- 
2.43.0


From b62dc682e79a37fcddc96ae4dd6aade3e28cfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 02/56] fix: load a registry whose root folder is hidden or
 named `.`

---
 crates/weaver_resolver/src/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index 4713d6f..1518f4f 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -425,6 +425,10 @@ fn load_definition_repository(
 ) -> WResult<LoadedSemconvRegistry, Error> {
     // Define helper functions for filtering files.
     fn is_hidden(entry: &DirEntry) -> bool {
+        // The root is the registry itself, however it is named (e.g. `.`).
+        if entry.depth() == 0 {
+            return false;
+        }
         entry
             .file_name()
             .to_str()
-- 
2.43.0


From d10695493dea22c12a41548715f369d36a20fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 03/56] fix: report a metric without its mandatory fields
 instead of panicking in the v2 conversion

---
 crates/weaver_resolved_schema/src/error.rs  | 12 +++++++++++-
 crates/weaver_resolved_schema/src/v2/mod.rs | 17 +++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/error.rs b/crates/weaver_resolved_schema/src/error.rs
index aec2894..74c64d7 100644
--- a/crates/weaver_resolved_schema/src/error.rs
+++ b/crates/weaver_resolved_schema/src/error.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::attribute::AttributeRef;
 use crate::error::Error::{
     AttributeNotFound, CompoundError, EntityAssociationNotFound, EventNameNotFound,
-    InvalidSchemaUrl, RefinementBaseNotFound,
+    InvalidSchemaUrl, MetricFieldNotFound, RefinementBaseNotFound,
 };
 
 /// Errors emitted by this crate.
@@ -29,6 +29,15 @@ pub enum Error {
         group_id: String,
     },
 
+    /// A mandatory field does not exist on a metric group in V1 schema.
+    #[error("Metric {field} not found on group: {group_id}.  This is not supported in V2 schema!")]
+    MetricFieldNotFound {
+        /// Group id.
+        group_id: String,
+        /// The missing field.
+        field: String,
+    },
+
     /// A refinement group does not reference the base group it extends.
     #[error("Refinement group {group_id} does not reference a base group to extend. This is not supported in V2 schema!")]
     RefinementBaseNotFound {
@@ -82,6 +91,7 @@ impl Error {
                     CompoundError(errors) => errors,
                     e @ AttributeNotFound { .. } => vec![e],
                     e @ EventNameNotFound { .. } => vec![e],
+                    e @ MetricFieldNotFound { .. } => vec![e],
                     e @ RefinementBaseNotFound { .. } => vec![e],
                     e @ EntityAssociationNotFound { .. } => vec![e],
                     e @ InvalidSchemaUrl { .. } => vec![e],
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index cb3e391..c7be0d5 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -662,21 +662,18 @@ pub fn convert_v1_to_v2(
                         log::info!("Logic failure - unable to convert attribute {attr:?}");
                     }
                 }
-                // TODO - deal with unwrap errors.
+                let missing = |field: &str| crate::error::Error::MetricFieldNotFound {
+                    group_id: g.id.clone(),
+                    field: field.to_owned(),
+                };
                 let metric = Metric {
                     name: g
                         .metric_name
                         .clone()
-                        .expect("metric_name must exist on metrics prior to translation to v2")
+                        .ok_or_else(|| missing("metric_name"))?
                         .into(),
-                    instrument: g
-                        .instrument
-                        .clone()
-                        .expect("instrument must exist on metrics prior to translation to v2"),
-                    unit: g
-                        .unit
-                        .clone()
-                        .expect("unit must exist on metrics prior to translation to v2"),
+                    instrument: g.instrument.clone().ok_or_else(|| missing("instrument"))?,
+                    unit: g.unit.clone().ok_or_else(|| missing("unit"))?,
                     attributes: metric_attributes,
                     entity_associations: convert_entity_associations(
                         &g.entity_associations,
-- 
2.43.0


From 28b14f8f5bc1de65b763bc4528d4b80542540499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:11 +0000
Subject: [PATCH 04/56] fix: importing a signal no longer drops it when a
 refinement of it is imported too

---
 crates/weaver_resolver/src/imports.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 5df18a8..f81d1ea 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -24,7 +24,7 @@ use weaver_resolved_schema::v2::entity::{
     to_named_associations, EntityAssociation as V2EntityAssociation,
 };
 use weaver_resolved_schema::v2::ResolvedTelemetrySchema as V2Schema;
-use weaver_resolved_schema::v2::Signal;
+use weaver_resolved_schema::v2::{v2_namespace_id, Signal};
 use weaver_resolved_schema::ResolvedTelemetrySchema as V1Schema;
 use weaver_semconv::attribute::{AttributeRole, RequirementLevel};
 use weaver_semconv::group::{GroupType, GroupWildcard, ImportsWithProvenance};
@@ -482,11 +482,13 @@ fn is_same_imported_group(group: &Group, candidate: &Group) -> bool {
     if group.r#type != candidate.r#type {
         return false;
     }
+    // A refinement repeats the signal name of its base, but is not its base.
+    let same_id = || v2_namespace_id(group) == v2_namespace_id(candidate);
     if group.metric_name.is_some() || candidate.metric_name.is_some() {
-        return group.metric_name == candidate.metric_name;
+        return group.metric_name == candidate.metric_name && same_id();
     }
     if group.name.is_some() || candidate.name.is_some() {
-        return group.name == candidate.name;
+        return group.name == candidate.name && same_id();
     }
     strip_group_type_prefix(&group.id) == strip_group_type_prefix(&candidate.id)
 }
-- 
2.43.0


From 9f520472cc1320cffceea3853fbb0cd617d40952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:11 +0000
Subject: [PATCH 05/56] fix: keep the requirement level of signals imported
 from a published v2 registry

---
 crates/weaver_resolver/src/imports.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index f81d1ea..8f6803e 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -790,6 +790,7 @@ impl ImportableDependency for V2Schema {
             group.metric_name = Some(m.name.to_string());
             group.instrument = Some(m.instrument.clone());
             group.unit = Some(m.unit.clone());
+            group.requirement_level = m.requirement_level.clone();
             group.entity_associations = to_named_associations(&m.entity_associations);
             _ = origins.insert(
                 group.id.clone(),
@@ -820,6 +821,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
             group.name = Some(e.name.to_string());
+            group.requirement_level = e.requirement_level.clone();
             group.entity_associations = to_named_associations(&e.entity_associations);
             _ = origins.insert(
                 group.id.clone(),
@@ -858,6 +860,7 @@ impl ImportableDependency for V2Schema {
                 Some(GroupLineage::new(v2_provenance(self, &deps, &e.provenance))),
             );
             group.name = Some(e.r#type.to_string());
+            group.requirement_level = e.requirement_level.clone();
             result.push(group);
         }
 
@@ -886,6 +889,7 @@ impl ImportableDependency for V2Schema {
             group.span_kind = Some(s.kind.clone());
             group.span_name = Some(s.name.clone());
             group.name = Some(s.r#type.to_string());
+            group.requirement_level = s.requirement_level.clone();
             group.entity_associations = to_named_associations(&s.entity_associations);
             _ = origins.insert(
                 group.id.clone(),
-- 
2.43.0


From 4819e7347fc22502ac85cc73f0d43f726841d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 06/56] fix: references never resolve against the overridden
 copy of an attribute that an imported signal carries

---
 crates/weaver_resolver/src/imports.rs | 44 +++++++++++++++++++++------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 8f6803e..e9ce59c 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -376,13 +376,13 @@ impl ImportableDependency for V1Schema {
                     .iter()
                     .filter_map(|ar| self.catalog().attribute(ar))
                 {
-                    let source = find_attribute_source(self, &a.name, &my_schema_url);
-                    let ar = attribute_catalog.attribute_ref_with_provenance(
-                        a.clone(),
-                        source,
+                    attributes.push(import_v1_attribute(
+                        self,
+                        a,
+                        &my_schema_url,
+                        attribute_catalog,
                         cache_lookup,
-                    )?;
-                    attributes.push(ar);
+                    )?);
                 }
                 g.attributes = attributes;
                 g
@@ -411,6 +411,29 @@ impl ImportableDependency for V1Schema {
     }
 }
 
+/// Imports an attribute of a v1 group into the importing registry's catalog.
+///
+/// The group's copy may override properties of the attribute. A reference must
+/// not resolve against such a copy, so the definition is registered first, if
+/// the dependency knows it.
+fn import_v1_attribute<C: crate::SchemaCacheLookup>(
+    schema: &V1Schema,
+    attr: &Attribute,
+    schema_url: &SchemaUrl,
+    attribute_catalog: &mut AttributeCatalog,
+    cache_lookup: &C,
+) -> Result<AttributeRef, Error> {
+    let source = find_attribute_source(schema, &attr.name, schema_url);
+    if let Some((definition, _)) = schema.catalog().root_attribute_definition(&attr.name) {
+        _ = attribute_catalog.attribute_ref_with_provenance(
+            definition.clone(),
+            source.clone(),
+            cache_lookup,
+        )?;
+    }
+    attribute_catalog.attribute_ref_with_provenance(attr.clone(), source, cache_lookup)
+}
+
 /// If an imported group's origin registry (recorded in its lineage
 /// provenance, which may point at a transitive dependency rather than the
 /// immediate one) was upgraded to a newer compatible version by graph-wide
@@ -463,10 +486,11 @@ fn upgrade_imported_group<C: crate::SchemaCacheLookup>(
         .iter()
         .filter_map(|ar| chosen_v1.catalog().attribute(ar))
     {
-        let source = find_attribute_source(chosen_v1, &a.name, chosen_url);
-        attributes.push(attribute_catalog.attribute_ref_with_provenance(
-            a.clone(),
-            source,
+        attributes.push(import_v1_attribute(
+            chosen_v1,
+            a,
+            chosen_url,
+            attribute_catalog,
             cache_lookup,
         )?);
     }
-- 
2.43.0


From 0130dc9d0a36d0f9576c59f3efea496c8bc8f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:05 +0000
Subject: [PATCH 07/56] fix: report a package that could not be written
 completely

---
 src/registry/package.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/registry/package.rs b/src/registry/package.rs
index f5df930..0843fbe 100644
--- a/src/registry/package.rs
+++ b/src/registry/package.rs
@@ -3,7 +3,7 @@
 //! Package a semantic convention registry.
 
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
 
 use clap::Args;
@@ -57,7 +57,13 @@ fn write_yaml(path: &Path, data: &impl serde::Serialize) -> Result<(), Diagnosti
         path: path.to_path_buf(),
         error: e.to_string(),
     })?;
-    serde_yaml::to_writer(BufWriter::new(file), data).map_err(|e| Error::OutputWrite {
+    let mut writer = BufWriter::new(file);
+    serde_yaml::to_writer(&mut writer, data).map_err(|e| Error::OutputWrite {
+        path: path.to_path_buf(),
+        error: e.to_string(),
+    })?;
+    // Dropping the writer would flush it too, but would ignore a failure.
+    writer.flush().map_err(|e| Error::OutputWrite {
         path: path.to_path_buf(),
         error: e.to_string(),
     })?;
-- 
2.43.0


From 01cf3a9667242e1cc5016817b7fc21db2b93e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 08/56] fix: describe schema URLs as strings in the published
 JSON schemas

---
 crates/weaver_semconv/src/schema_url.rs |  1 +
 schemas/definition-manifest.v2.json     | 11 +----------
 schemas/publication-manifest.v2.json    | 11 +----------
 schemas/semconv.diff.v2.json            | 11 +----------
 schemas/semconv.materialized.v2.json    | 11 +----------
 schemas/semconv.resolved.v2.json        | 11 +----------
 6 files changed, 6 insertions(+), 50 deletions(-)

diff --git a/crates/weaver_semconv/src/schema_url.rs b/crates/weaver_semconv/src/schema_url.rs
index 7d3cb4c..d4e6a94 100644
--- a/crates/weaver_semconv/src/schema_url.rs
+++ b/crates/weaver_semconv/src/schema_url.rs
@@ -8,6 +8,7 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// Represents the schema URL of a registry, which serves as a unique identifier for the registry
 /// along with its version.
 #[derive(Debug, Clone, JsonSchema)]
+#[schemars(transparent)]
 #[cfg_attr(feature = "openapi", derive(utoipa::ToSchema))]
 pub struct SchemaUrl {
     /// The schema URL string.
diff --git a/schemas/definition-manifest.v2.json b/schemas/definition-manifest.v2.json
index 8c0c1f1..2f3d5eb 100644
--- a/schemas/definition-manifest.v2.json
+++ b/schemas/definition-manifest.v2.json
@@ -58,16 +58,7 @@
     },
     "SchemaUrl": {
       "description": "Represents the schema URL of a registry, which serves as a unique identifier for the registry\nalong with its version.",
-      "type": "object",
-      "properties": {
-        "url": {
-          "description": "The schema URL string.",
-          "type": "string"
-        }
-      },
-      "required": [
-        "url"
-      ]
+      "type": "string"
     },
     "Stability": {
       "description": "The level of stability for a definition. Defined in [OTEP-232](https://github.com/open-telemetry/oteps/blob/main/text/0232-maturity-of-otel.md)",
diff --git a/schemas/publication-manifest.v2.json b/schemas/publication-manifest.v2.json
index 5bfd333..1684cce 100644
--- a/schemas/publication-manifest.v2.json
+++ b/schemas/publication-manifest.v2.json
@@ -69,16 +69,7 @@
     },
     "SchemaUrl": {
       "description": "Represents the schema URL of a registry, which serves as a unique identifier for the registry\nalong with its version.",
-      "type": "object",
-      "properties": {
-        "url": {
-          "description": "The schema URL string.",
-          "type": "string"
-        }
-      },
-      "required": [
-        "url"
-      ]
+      "type": "string"
     },
     "Stability": {
       "description": "The level of stability for a definition. Defined in [OTEP-232](https://github.com/open-telemetry/oteps/blob/main/text/0232-maturity-of-otel.md)",
diff --git a/schemas/semconv.diff.v2.json b/schemas/semconv.diff.v2.json
index 9e0f0df..9715752 100644
--- a/schemas/semconv.diff.v2.json
+++ b/schemas/semconv.diff.v2.json
@@ -209,16 +209,7 @@
     },
     "SchemaUrl": {
       "description": "Represents the schema URL of a registry, which serves as a unique identifier for the registry\nalong with its version.",
-      "type": "object",
-      "properties": {
-        "url": {
-          "description": "The schema URL string.",
-          "type": "string"
-        }
-      },
-      "required": [
-        "url"
-      ]
+      "type": "string"
     }
   }
 }
\ No newline at end of file
diff --git a/schemas/semconv.materialized.v2.json b/schemas/semconv.materialized.v2.json
index a788c58..373ccc3 100644
--- a/schemas/semconv.materialized.v2.json
+++ b/schemas/semconv.materialized.v2.json
@@ -1537,16 +1537,7 @@
     },
     "SchemaUrl": {
       "description": "Represents the schema URL of a registry, which serves as a unique identifier for the registry\nalong with its version.",
-      "type": "object",
-      "properties": {
-        "url": {
-          "description": "The schema URL string.",
-          "type": "string"
-        }
-      },
-      "required": [
-        "url"
-      ]
+      "type": "string"
     },
     "SignalId": {
       "description": "An identifier for a signal.  Should be `.` separated namespaces and names.",
diff --git a/schemas/semconv.resolved.v2.json b/schemas/semconv.resolved.v2.json
index d42eab2..c12c7c1 100644
--- a/schemas/semconv.resolved.v2.json
+++ b/schemas/semconv.resolved.v2.json
@@ -1351,16 +1351,7 @@
     },
     "SchemaUrl": {
       "description": "Represents the schema URL of a registry, which serves as a unique identifier for the registry\nalong with its version.",
-      "type": "object",
-      "properties": {
-        "url": {
-          "description": "The schema URL string.",
-          "type": "string"
-        }
-      },
-      "required": [
-        "url"
-      ]
+      "type": "string"
     },
     "SignalId": {
       "description": "An identifier for a signal.  Should be `.` separated namespaces and names.",
-- 
2.43.0


From f4314f3d5d1f6e6478d6dbfe89497e7edfa9afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 09/56] fix: a rename without a note is not a change against
 its published form

---
 crates/weaver_resolved_schema/src/lib.rs    |  4 ++--
 crates/weaver_resolved_schema/src/v2/mod.rs |  2 +-
 crates/weaver_semconv/src/deprecated.rs     | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index a72318f..4076657 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -382,7 +382,7 @@ impl ResolvedTelemetrySchema {
                 if let Some(deprecated) = attr.deprecated.as_ref() {
                     // is this a change from the baseline?
                     if let Some(baseline_deprecated) = baseline_attr.deprecated.as_ref() {
-                        if deprecated == baseline_deprecated {
+                        if deprecated.is_equivalent(baseline_deprecated) {
                             // This attribute was already deprecated in the baseline.
                             // We can skip it.
                             continue;
@@ -465,7 +465,7 @@ impl ResolvedTelemetrySchema {
                 if let Some(deprecated) = group.deprecated.as_ref() {
                     // is this a change from the baseline?
                     if let Some(baseline_deprecated) = baseline_group.deprecated.as_ref() {
-                        if deprecated == baseline_deprecated {
+                        if deprecated.is_equivalent(baseline_deprecated) {
                             continue;
                         }
                     }
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index c7be0d5..ac9a65f 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -813,7 +813,7 @@ fn diff_signals_by_hash<T: Signal>(
             if let Some(deprecated) = latest_signal.common().deprecated.as_ref() {
                 // is this a change from the baseline?
                 if let Some(baseline_deprecated) = baseline_signal.common().deprecated.as_ref() {
-                    if deprecated == baseline_deprecated {
+                    if deprecated.is_equivalent(baseline_deprecated) {
                         continue;
                     }
                 }
diff --git a/crates/weaver_semconv/src/deprecated.rs b/crates/weaver_semconv/src/deprecated.rs
index 51c86d9..250e691 100644
--- a/crates/weaver_semconv/src/deprecated.rs
+++ b/crates/weaver_semconv/src/deprecated.rs
@@ -198,6 +198,20 @@ impl Deprecated {
         }
     }
 
+    /// Whether both deprecations say the same. A `renamed` deprecation without
+    /// a note says the same as one with the note that is inferred for it, which
+    /// is what a definition becomes once it has been serialized.
+    #[must_use]
+    pub fn is_equivalent(&self, other: &Deprecated) -> bool {
+        match (self, other) {
+            (
+                Deprecated::Renamed { renamed_to: a, .. },
+                Deprecated::Renamed { renamed_to: b, .. },
+            ) => a == b && self.note() == other.note(),
+            _ => self == other,
+        }
+    }
+
     /// The deprecation reason, as it appears in the `reason` field.
     #[must_use]
     pub fn reason(&self) -> &'static str {
-- 
2.43.0


From 7f32223fa8fcc4809a38d01a1684d0fdc1d15526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:05 +0000
Subject: [PATCH 10/56] fix: list schema changes in the same order on every run

---
 crates/weaver_resolved_schema/src/lib.rs    |  2 ++
 crates/weaver_resolved_schema/src/v2/mod.rs |  2 ++
 crates/weaver_version/src/schema_changes.rs | 19 ++++++++++++++-----
 src/weaver.rs                               |  4 ++--
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index 4076657..d7d20ca 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -360,6 +360,8 @@ impl ResolvedTelemetrySchema {
             &mut changes,
         );
 
+        // The signals and attributes were compared in the order of a hash map.
+        changes.sort();
         changes
     }
 
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index ac9a65f..2770178 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -860,6 +860,8 @@ fn diff_signals_by_hash<T: Signal>(
             });
         }
     }
+    // The maps have no order of their own.
+    changes.sort();
     changes
 }
 
diff --git a/crates/weaver_version/src/schema_changes.rs b/crates/weaver_version/src/schema_changes.rs
index 9b0c60f..0b31d91 100644
--- a/crates/weaver_version/src/schema_changes.rs
+++ b/crates/weaver_version/src/schema_changes.rs
@@ -4,10 +4,12 @@
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// The type of schema item.
-#[derive(Debug, Serialize, Deserialize, Hash, Eq, PartialEq, Copy, Clone, JsonSchema)]
+#[derive(
+    Debug, Serialize, Deserialize, Hash, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, JsonSchema,
+)]
 #[serde(rename_all = "snake_case")]
 pub enum SchemaItemType {
     /// Registry attributes
@@ -35,7 +37,7 @@ pub struct SchemaChanges {
     /// A map where the key is the type of schema item (e.g., "attributes", "metrics",
     /// "events, "spans", "resources"), and the value is a list of changes associated
     /// with that item type.
-    changes: HashMap<SchemaItemType, Vec<SchemaItemChange>>,
+    changes: BTreeMap<SchemaItemType, Vec<SchemaItemChange>>,
 }
 
 /// Represents the information of a semantic convention registry manifest.
@@ -49,7 +51,7 @@ pub struct RegistryManifest {
 /// Represents the different types of changes that can occur between
 /// two versions of a schema. This covers changes such as adding, removing,
 /// renaming, and deprecating telemetry objects (attributes, metrics, etc.).
-#[derive(Debug, PartialEq, Serialize, Deserialize, JsonSchema)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, JsonSchema)]
 #[serde(rename_all = "snake_case")]
 #[serde(tag = "type")]
 pub enum SchemaItemChange {
@@ -101,7 +103,7 @@ impl SchemaChanges {
         let mut schema_changes = SchemaChanges {
             head: RegistryManifest::default(),
             baseline: RegistryManifest::default(),
-            changes: HashMap::new(),
+            changes: BTreeMap::new(),
         };
         let _ = schema_changes
             .changes
@@ -266,6 +268,13 @@ impl SchemaChanges {
             .push(change);
     }
 
+    /// Put the changes of each schema item type in a fixed order.
+    pub fn sort(&mut self) {
+        for changes in self.changes.values_mut() {
+            changes.sort();
+        }
+    }
+
     /// Set the baseline manifest for the schema changes.
     pub fn set_head_manifest(&mut self, head: RegistryManifest) {
         self.head = head;
diff --git a/src/weaver.rs b/src/weaver.rs
index 8ac8402..18755a3 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -496,7 +496,7 @@ impl Diff {
 
 #[derive(serde::Serialize)]
 pub struct DiffV2Context<'a> {
-    pub changes: std::collections::HashMap<String, &'a Vec<weaver_version::v2::SchemaItemChange>>,
+    pub changes: std::collections::BTreeMap<String, &'a Vec<weaver_version::v2::SchemaItemChange>>,
     pub head: DiffManifest,
     pub baseline: DiffManifest,
 }
@@ -516,7 +516,7 @@ pub struct DiffV2 {
 impl DiffV2 {
     /// Returns the context we'll use to render diffs.
     pub fn as_template_context(&self) -> DiffV2Context<'_> {
-        let mut changes_map = std::collections::HashMap::new();
+        let mut changes_map = std::collections::BTreeMap::new();
         let _ = changes_map.insert(
             "registry_attributes".to_owned(),
             &self.changes.registry.attribute_changes,
-- 
2.43.0


From 300ffd8c410eba200c3cac36cec0cf91a05bbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:58 +0000
Subject: [PATCH 11/56] fix: diff reports list the changes of entities and
 attribute groups

---
 defaults/diff_templates/ansi-stats/diff.txt.j2 | 4 ++--
 defaults/diff_templates/ansi/diff.txt.j2       | 2 +-
 defaults/diff_templates/markdown/diff.md.j2    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/defaults/diff_templates/ansi-stats/diff.txt.j2 b/defaults/diff_templates/ansi-stats/diff.txt.j2
index fa5f772..aa7a0cf 100644
--- a/defaults/diff_templates/ansi-stats/diff.txt.j2
+++ b/defaults/diff_templates/ansi-stats/diff.txt.j2
@@ -1,8 +1,8 @@
 
 {{ ("Summary of Schema Changes between " ~ ctx.head.semconv_version ~ " and " ~ ctx.baseline.semconv_version) | ansi_red | ansi_bold }}
 
-{% set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
-{% for item_type in item_types %}
+{% set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] %}
+{% for item_type in item_types if item_type in ctx.changes %}
 {% set added_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'added') | count %}
 {% set renamed_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'renamed') | count %}
 {% set obsoleted_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'obsoleted') | count %}
diff --git a/defaults/diff_templates/ansi/diff.txt.j2 b/defaults/diff_templates/ansi/diff.txt.j2
index 23ca056..e64fafd 100644
--- a/defaults/diff_templates/ansi/diff.txt.j2
+++ b/defaults/diff_templates/ansi/diff.txt.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
+{%- set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] %}
 
 {{ ("Schema Changes between `" ~ ctx.head.semconv_version ~ "` and `" ~ ctx.baseline.semconv_version ~ "`") | ansi_red | ansi_bold }}
 
diff --git a/defaults/diff_templates/markdown/diff.md.j2 b/defaults/diff_templates/markdown/diff.md.j2
index d2988ee..1bde6c1 100644
--- a/defaults/diff_templates/markdown/diff.md.j2
+++ b/defaults/diff_templates/markdown/diff.md.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] -%}
+{%- set item_types = ["registry_attributes", "attribute_groups", "metrics", "events", "spans", "resources", "entities"] -%}
 # Summary of Schema Changes
 ## Registry versions
 Baseline: {{ ctx.baseline.semconv_version }}
-- 
2.43.0


From e32669152bb9d4a865c80c1b3a68cdbb4bf44b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 12/56] fix: live check looks for the required attributes of
 exponential histogram data points

---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..a833deb 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -699,6 +699,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From bdbc1dfd43cd77290f7246cdc9dccfa531611377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:31 +0000
Subject: [PATCH 13/56] fix: telemetry sent without a resource is not checked
 against another sender's resource

---
 src/registry/live_check.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..069d5f6 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -392,13 +392,16 @@ pub(crate) fn command(
     for mut sample in ingester {
         // Track the most-recently-seen resource and attach it to signals that carry one.
         // This mirrors what the OTLP ingester does when building metrics/logs/spans from
-        // OTLP protocol buffers, and allows JSON file inputs to associate a resource.
-        match &mut sample {
-            Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
-            Sample::Metric(m) => m.resource = current_resource.clone(),
-            Sample::Log(l) => l.resource = current_resource.clone(),
-            Sample::Span(s) => s.resource = current_resource.clone(),
-            _ => {}
+        // OTLP protocol buffers, and allows JSON file inputs to associate a resource. OTLP
+        // signals already hold the resource they were sent with, if any.
+        if !matches!(input_source, InputSource::Otlp) {
+            match &mut sample {
+                Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
+                Sample::Metric(m) => m.resource = current_resource.clone(),
+                Sample::Log(l) => l.resource = current_resource.clone(),
+                Sample::Span(s) => s.resource = current_resource.clone(),
+                _ => {}
+            }
         }
         sample.run_live_check(&mut live_checker, &mut stats, None, &sample.clone())?;
         //TODO: Check for violations and set exit_code here for no-stats mode
-- 
2.43.0


From e960b4d5ca3e6cff1b3d0747af44d83650f4c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:51 +0000
Subject: [PATCH 14/56] fix: a template attribute counts towards coverage when
 its finding is filtered out

---
 .../weaver_live_check/src/sample_attribute.rs | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/crates/weaver_live_check/src/sample_attribute.rs b/crates/weaver_live_check/src/sample_attribute.rs
index 15105c4..8399e71 100644
--- a/crates/weaver_live_check/src/sample_attribute.rs
+++ b/crates/weaver_live_check/src/sample_attribute.rs
@@ -12,7 +12,7 @@ use weaver_semconv::attribute::{AttributeType, PrimitiveOrArrayTypeSpec};
 
 use crate::{
     advice::FindingBuilder, live_checker::LiveChecker, Error, FindingId, LiveCheckResult,
-    LiveCheckRunner, LiveCheckStatistics, Sample, SampleRef, VersionedSignal,
+    LiveCheckRunner, LiveCheckStatistics, Sample, SampleRef, VersionedAttribute, VersionedSignal,
     ATTRIBUTE_KEY_ADVICE_CONTEXT_KEY,
 };
 
@@ -147,24 +147,20 @@ impl SampleAttribute {
         }
     }
 
-    fn update_stats(&mut self, stats: &mut LiveCheckStatistics) {
+    fn update_stats(
+        &mut self,
+        stats: &mut LiveCheckStatistics,
+        registry_attribute: Option<&VersionedAttribute>,
+    ) {
         stats.inc_entity_count("attribute");
         stats.maybe_add_live_check_result(self.live_check_result.as_ref());
-        let mut seen_attribute_name = self.name.clone();
-        if let Some(result) = &mut self.live_check_result {
-            for advice in &mut result.all_advice {
-                // If the advice is a template, adjust the name
-                if advice.id.parse::<FindingId>() == Ok(FindingId::TemplateAttribute) {
-                    if let Some(template_name) = advice
-                        .context
-                        .as_ref()
-                        .and_then(|c| c["template_name"].as_str())
-                    {
-                        seen_attribute_name = template_name.to_owned();
-                    }
-                }
+        // An instance of a template covers the template
+        let seen_attribute_name = match registry_attribute {
+            Some(attribute) if matches!(attribute.r#type(), AttributeType::Template(_)) => {
+                attribute.name().to_owned()
             }
-        }
+            _ => self.name.clone(),
+        };
         stats.add_attribute_name_to_coverage(seen_attribute_name);
     }
 }
@@ -241,7 +237,7 @@ impl LiveCheckRunner for SampleAttribute {
             );
         }
         self.live_check_result = Some(result);
-        self.update_stats(stats);
+        self.update_stats(stats, semconv_attribute.as_deref());
         Ok(())
     }
 }
-- 
2.43.0


From fad45208a16dbe049c94a1a70e453e6208e2f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:48 +0000
Subject: [PATCH 15/56] fix: findings emitted as OTLP logs follow the filters
 and level overrides of the report

---
 crates/weaver_live_check/src/otlp_logger.rs | 29 +++++++++++++++++++--
 src/registry/live_check.rs                  |  4 +++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_live_check/src/otlp_logger.rs b/crates/weaver_live_check/src/otlp_logger.rs
index 63bee75..e725016 100644
--- a/crates/weaver_live_check/src/otlp_logger.rs
+++ b/crates/weaver_live_check/src/otlp_logger.rs
@@ -11,6 +11,7 @@ use opentelemetry_sdk::Resource;
 use serde_json::Value as JsonValue;
 use weaver_checker::{FindingLevel, PolicyFinding};
 
+use crate::finding_modifier::FindingModifier;
 use crate::generated::attributes::{FindingId, FindingLevel as GeneratedFindingLevel, SignalType};
 use crate::generated::entities::{
     ServiceCriticality, SERVICE_CRITICALITY, SERVICE_NAME, SERVICE_VERSION,
@@ -61,6 +62,8 @@ fn build_resource() -> Resource {
 /// OTLP emitter for policy findings
 pub struct OtlpEmitter {
     provider: SdkLoggerProvider,
+    /// Level overrides and filters, applied to findings before they are emitted
+    finding_modifier: Option<FindingModifier>,
 }
 
 impl OtlpEmitter {
@@ -82,7 +85,10 @@ impl OtlpEmitter {
             .with_batch_exporter(exporter)
             .build();
 
-        Ok(OtlpEmitter { provider })
+        Ok(OtlpEmitter {
+            provider,
+            finding_modifier: None,
+        })
     }
 
     /// Create a new OTLP emitter with stdout export (for debugging)
@@ -95,7 +101,18 @@ impl OtlpEmitter {
             .with_simple_exporter(exporter)
             .build();
 
-        OtlpEmitter { provider }
+        OtlpEmitter {
+            provider,
+            finding_modifier: None,
+        }
+    }
+
+    /// Apply level overrides and filters to the findings before emitting them, as
+    /// the report does.
+    #[must_use]
+    pub fn with_finding_modifier(mut self, finding_modifier: Option<FindingModifier>) -> Self {
+        self.finding_modifier = finding_modifier;
+        self
     }
 
     /// Emit a policy finding as an OTLP log record
@@ -105,6 +122,14 @@ impl OtlpEmitter {
         sample_ref: &SampleRef<'_>,
         parent_signal: &Sample,
     ) {
+        let modified = match &self.finding_modifier {
+            Some(modifier) => match modifier.apply(finding.clone(), sample_ref) {
+                Some(kept) => Some(kept),
+                None => return, // Excluded by filter
+            },
+            None => None,
+        };
+        let finding = modified.as_ref().unwrap_or(finding);
         log::debug!("Emitting finding: {} - {}", finding.id, finding.message);
         let logger = self.provider.logger("weaver.live_check");
         let mut log_record = logger.create_log_record();
diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 069d5f6..991b79a 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -369,6 +369,10 @@ pub(crate) fn command(
         } else {
             weaver_live_check::otlp_logger::OtlpEmitter::new_grpc(&config.emit.otlp_logs_endpoint)?
         };
+        let emitter = emitter.with_finding_modifier(FindingModifier::from_rules(
+            &config.finding_filters,
+            &config.finding_level_overrides,
+        )?);
         live_checker.otlp_emitter = Some(std::rc::Rc::new(emitter));
     }
 
-- 
2.43.0


From 1da932b295d4a4d0621e1f5bf79f80e9a6381fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:25 +0000
Subject: [PATCH 16/56] fix: emit every span and event of a large registry

The batch processors were used with the SDK's default queue of 2048 entries, and drop what does not fit: a registry with more spans lost some of them, with exit status 0. Size the queues from the registry, and lift the 128-attribute limit per span.
---
 crates/weaver_emit/src/lib.rs | 82 +++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 8 deletions(-)

diff --git a/crates/weaver_emit/src/lib.rs b/crates/weaver_emit/src/lib.rs
index 6500cd9..a8b767a 100644
--- a/crates/weaver_emit/src/lib.rs
+++ b/crates/weaver_emit/src/lib.rs
@@ -8,12 +8,17 @@ use opentelemetry::global;
 use opentelemetry_otlp::{ExporterBuildError, MetricExporter, WithExportConfig};
 use opentelemetry_sdk::metrics::SdkMeterProvider;
 use opentelemetry_sdk::Resource;
-use opentelemetry_sdk::{metrics::PeriodicReader, trace::SdkTracerProvider};
+use opentelemetry_sdk::{
+    logs::BatchLogProcessor,
+    metrics::PeriodicReader,
+    trace::{BatchSpanProcessor, SdkTracerProvider},
+};
 use serde::Serialize;
 use spans::emit_trace_for_registry;
 use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 use weaver_forge::registry::ResolvedRegistry;
 use weaver_forge::v2::registry::ForgeResolvedRegistry;
+use weaver_semconv::group::GroupType;
 
 use crate::logs::{emit_logs_for_registry, emit_logs_for_registry_v2};
 use crate::metrics::emit_metrics_for_registry_v2;
@@ -29,6 +34,9 @@ pub const DEFAULT_OTLP_ENDPOINT: &str = "http://localhost:4317";
 
 const WEAVER_SERVICE_NAME: &str = "weaver";
 
+/// The smallest queue of the batch processors (the default of the OTel SDK).
+const DEFAULT_QUEUE_SIZE: usize = 2048;
+
 /// An error that can occur while emitting a semantic convention registry.
 #[derive(thiserror::Error, Debug, Clone, PartialEq, Serialize, Diagnostic)]
 #[non_exhaustive]
@@ -67,7 +75,13 @@ impl From<Error> for DiagnosticMessages {
 
 /// Initialise a grpc OTLP exporter, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
-fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, ExporterBuildError> {
+///
+/// `span_count` is the number of spans that will be emitted: the queue holds them all, so that none
+/// is dropped however fast they are produced.
+fn init_tracer_provider(
+    endpoint: &String,
+    span_count: usize,
+) -> Result<SdkTracerProvider, ExporterBuildError> {
     let exporter = opentelemetry_otlp::SpanExporter::builder()
         .with_tonic()
         .with_endpoint(endpoint)
@@ -78,7 +92,16 @@ fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, Exporter
                 .with_service_name(WEAVER_SERVICE_NAME)
                 .build(),
         )
-        .with_batch_exporter(exporter)
+        .with_max_attributes_per_span(u32::MAX)
+        .with_span_processor(
+            BatchSpanProcessor::builder(exporter)
+                .with_batch_config(
+                    opentelemetry_sdk::trace::BatchConfigBuilder::default()
+                        .with_max_queue_size(span_count.max(DEFAULT_QUEUE_SIZE))
+                        .build(),
+                )
+                .build(),
+        )
         .build())
 }
 
@@ -90,6 +113,7 @@ fn init_stdout_tracer_provider() -> SdkTracerProvider {
                 .with_service_name(WEAVER_SERVICE_NAME)
                 .build(),
         )
+        .with_max_attributes_per_span(u32::MAX)
         .with_simple_exporter(opentelemetry_stdout::SpanExporter::default())
         .build()
 }
@@ -131,8 +155,12 @@ fn init_stdout_meter_provider() -> SdkMeterProvider {
 
 /// Initialise a grpc OTLP exporter for logs, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
+///
+/// `record_count` is the number of log records that will be emitted: the queue holds them all, so
+/// that none is dropped however fast they are produced.
 fn init_logger_provider(
     endpoint: &String,
+    record_count: usize,
 ) -> Result<opentelemetry_sdk::logs::SdkLoggerProvider, ExporterBuildError> {
     let resource = Resource::builder()
         .with_service_name(WEAVER_SERVICE_NAME)
@@ -145,7 +173,15 @@ fn init_logger_provider(
 
     Ok(opentelemetry_sdk::logs::SdkLoggerProvider::builder()
         .with_resource(resource)
-        .with_batch_exporter(exporter)
+        .with_log_processor(
+            BatchLogProcessor::builder(exporter)
+                .with_batch_config(
+                    opentelemetry_sdk::logs::BatchConfigBuilder::default()
+                        .with_max_queue_size(record_count.max(DEFAULT_QUEUE_SIZE))
+                        .build(),
+                )
+                .build(),
+        )
         .build())
 }
 
@@ -182,6 +218,32 @@ pub enum RegistryVersion<'a> {
     V2(&'a ForgeResolvedRegistry),
 }
 
+impl RegistryVersion<'_> {
+    /// The number of spans in the registry.
+    fn span_count(&self) -> usize {
+        match self {
+            RegistryVersion::V1(reg) => count_groups(reg, GroupType::Span),
+            RegistryVersion::V2(reg) => reg.registry.spans.len(),
+        }
+    }
+
+    /// The number of events in the registry.
+    fn event_count(&self) -> usize {
+        match self {
+            RegistryVersion::V1(reg) => count_groups(reg, GroupType::Event),
+            RegistryVersion::V2(reg) => reg.registry.events.len(),
+        }
+    }
+}
+
+fn count_groups(registry: &ResolvedRegistry, group_type: GroupType) -> usize {
+    registry
+        .groups
+        .iter()
+        .filter(|group| group.r#type == group_type)
+        .count()
+}
+
 /// Emit the signals from the registry to the configured exporter.
 pub fn emit(
     registry: RegistryVersion<'_>,
@@ -196,8 +258,10 @@ pub fn emit(
         let tracer_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_tracer_provider(),
             ExporterConfig::Otlp { endpoint } => {
-                init_tracer_provider(endpoint).map_err(|e| Error::TracerProviderError {
-                    error: e.to_string(),
+                init_tracer_provider(endpoint, registry.span_count() + 1).map_err(|e| {
+                    Error::TracerProviderError {
+                        error: e.to_string(),
+                    }
                 })?
             }
         };
@@ -240,8 +304,10 @@ pub fn emit(
         let logger_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_logger_provider(),
             ExporterConfig::Otlp { endpoint } => {
-                init_logger_provider(endpoint).map_err(|e| Error::LogProviderError {
-                    error: e.to_string(),
+                init_logger_provider(endpoint, registry.event_count()).map_err(|e| {
+                    Error::LogProviderError {
+                        error: e.to_string(),
+                    }
                 })?
             }
         };
-- 
2.43.0


From dea7f1df097fad137ea665652711bc5c17298b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:22 +0000
Subject: [PATCH 17/56] fix: emit fails when the collector refuses the log
 records

---
 crates/weaver_emit/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/weaver_emit/src/lib.rs b/crates/weaver_emit/src/lib.rs
index a8b767a..dd4500b 100644
--- a/crates/weaver_emit/src/lib.rs
+++ b/crates/weaver_emit/src/lib.rs
@@ -317,6 +317,13 @@ pub fn emit(
             RegistryVersion::V2(reg) => emit_logs_for_registry_v2(reg, &logger_provider),
         }
 
+        // The shutdown of the logger provider does not report a failed export.
+        logger_provider
+            .force_flush()
+            .map_err(|e| Error::LogProviderError {
+                error: e.to_string(),
+            })?;
+
         logger_provider
             .shutdown()
             .map_err(|e| Error::LogProviderError {
-- 
2.43.0


From 6f5a85250bcb8fb8f9344775b6cbf0ab3ae1e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:33 +0000
Subject: [PATCH 18/56] fix: infer the type of an attribute first seen without
 a value

---
 crates/weaver_infer/src/lib.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 2498313..8ab8552 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -362,20 +362,38 @@ fn attribute_spec_from_sample(sample: &SampleAttribute) -> AttributeSpec {
     }
 }
 
-/// Update an `AttributeSpec` examples field with a new value.
-fn update_attribute_example(attr: &mut AttributeSpec, value: &Option<Value>) {
-    if let Some(v) = value {
-        if let AttributeSpec::Id { examples, .. } = attr {
-            *examples = add_example(examples.take(), v);
+/// Update an `AttributeSpec` with a new sample: its value becomes an example when it has the type
+/// of the attribute. An attribute whose samples had no type so far takes the type of the sample.
+fn update_attribute_spec(attr: &mut AttributeSpec, sample: &SampleAttribute) {
+    let Some(sample_type) = &sample.r#type else {
+        return;
+    };
+    let sample_type = AttributeType::PrimitiveOrArray(sample_type.clone());
+    if let AttributeSpec::Id {
+        r#type, examples, ..
+    } = attr
+    {
+        if is_placeholder(r#type, examples) {
+            *r#type = sample_type.clone();
+        }
+        if let (true, Some(value)) = (*r#type == sample_type, &sample.value) {
+            *examples = add_example(examples.take(), value);
         }
     }
 }
 
+/// Returns true when no sample told the type of the attribute so far: it is a string by default
+/// (see `attribute_spec_from_sample`), and has no example, which a string always has.
+fn is_placeholder(r#type: &AttributeType, examples: &Option<Examples>) -> bool {
+    examples.is_none()
+        && *r#type == AttributeType::PrimitiveOrArray(PrimitiveOrArrayTypeSpec::String)
+}
+
 /// Get or create an attribute in a map, updating examples if it already exists.
 fn accumulate_attribute(attributes: &mut HashMap<String, AttributeSpec>, sample: SampleAttribute) {
     match attributes.entry(sample.name.clone()) {
         std::collections::hash_map::Entry::Occupied(mut entry) => {
-            update_attribute_example(entry.get_mut(), &sample.value);
+            update_attribute_spec(entry.get_mut(), &sample);
         }
         std::collections::hash_map::Entry::Vacant(entry) => {
             let _ = entry.insert(attribute_spec_from_sample(&sample));
-- 
2.43.0


From d290a48da146162b52b1f3cb67adca137b4a4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 19/56] fix: infer gathers the examples of an attribute from
 all the signals that use it

---
 crates/weaver_infer/src/lib.rs | 59 +++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 8ab8552..df9089f 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -31,7 +31,7 @@ struct AccumulatedSpan {
     name: String,
     kind: SpanKindSpec,
     attributes: HashMap<String, AttributeSpec>,
-    events: HashMap<String, AccumulatedEvent>,
+    events: BTreeMap<String, AccumulatedEvent>,
 }
 
 impl AccumulatedSpan {
@@ -40,7 +40,7 @@ impl AccumulatedSpan {
             name,
             kind,
             attributes: HashMap::new(),
-            events: HashMap::new(),
+            events: BTreeMap::new(),
         }
     }
 }
@@ -81,9 +81,9 @@ impl AccumulatedEvent {
 #[derive(Default)]
 pub struct AccumulatedSamples {
     resources: HashMap<String, AttributeSpec>,
-    spans: HashMap<String, AccumulatedSpan>,
-    metrics: HashMap<String, AccumulatedMetric>,
-    events: HashMap<String, AccumulatedEvent>,
+    spans: BTreeMap<String, AccumulatedSpan>,
+    metrics: BTreeMap<String, AccumulatedMetric>,
+    events: BTreeMap<String, AccumulatedEvent>,
 }
 
 impl AccumulatedSamples {
@@ -568,24 +568,45 @@ fn collect_attribute_defs<'a>(
             ..
         } = attribute
         {
-            let _ = attribute_defs
-                .entry(id.clone())
-                .or_insert_with(|| AttributeDef {
-                    key: id.clone(),
-                    r#type: r#type.clone(),
-                    examples: examples.clone(),
-                    common: CommonFields {
-                        brief: brief.clone().unwrap_or_default(),
-                        note: note.clone(),
-                        stability: stability.clone().unwrap_or(Stability::Development),
-                        deprecated: deprecated.clone(),
-                        annotations: annotations.clone().unwrap_or_default(),
-                    },
-                });
+            match attribute_defs.entry(id.clone()) {
+                std::collections::hash_map::Entry::Occupied(mut entry) => {
+                    let def = entry.get_mut();
+                    if is_placeholder(&def.r#type, &def.examples) {
+                        def.r#type = r#type.clone();
+                    }
+                    if def.r#type == *r#type {
+                        def.examples = merge_examples(def.examples.take(), examples.as_ref());
+                    }
+                }
+                std::collections::hash_map::Entry::Vacant(entry) => {
+                    let _ = entry.insert(AttributeDef {
+                        key: id.clone(),
+                        r#type: r#type.clone(),
+                        examples: examples.clone(),
+                        common: CommonFields {
+                            brief: brief.clone().unwrap_or_default(),
+                            note: note.clone(),
+                            stability: stability.clone().unwrap_or(Stability::Development),
+                            deprecated: deprecated.clone(),
+                            annotations: annotations.clone().unwrap_or_default(),
+                        },
+                    });
+                }
+            }
         }
     }
 }
 
+/// Adds the examples an attribute has in one signal to those it has in the others.
+fn merge_examples(current: Option<Examples>, other: Option<&Examples>) -> Option<Examples> {
+    let values = match other.map(serde_json::to_value) {
+        Some(Ok(Value::Array(values))) => values,
+        Some(Ok(value)) => vec![value],
+        Some(Err(_)) | None => vec![],
+    };
+    values.iter().fold(current, add_example)
+}
+
 fn span_attribute_ref_name(attribute: &SpanAttributeOrGroupRef) -> &str {
     match attribute {
         SpanAttributeOrGroupRef::Attribute(attribute) => &attribute.base.r#ref,
-- 
2.43.0


From 97aa7ace0f55b468874c0c8c69320b0f48e7a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 20/56] fix: auto_escape does not apply to the name of the
 generated file

---
 crates/weaver_forge/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/weaver_forge/src/lib.rs b/crates/weaver_forge/src/lib.rs
index 45911b8..57b3177 100644
--- a/crates/weaver_forge/src/lib.rs
+++ b/crates/weaver_forge/src/lib.rs
@@ -73,6 +73,9 @@ pub const COMMENT_START: &str = "{#";
 /// Constant defining the end of a Jinja comment.
 pub const COMMEND_END: &str = "#}";
 
+/// Name of the template made of a `file_name` expression.
+const FILE_NAME_EXPR: &str = "<file_name>";
+
 /// Enumeration defining where the output of program execution should be directed.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub(crate) enum OutputDirective {
@@ -689,14 +692,12 @@ impl TemplateEngine {
         // Pre-determine the file path for the generated file based on the template file path
         // if defined, otherwise use the default file path based on the template file name.
         let file_path = match file_path_config {
-            Some(file_path) => {
-                engine
-                    .render_str(file_path, ctx.clone())
-                    .map_err(|e| InvalidFilePath {
-                        file_path: file_path.clone(),
-                        error: e.to_string(),
-                    })?
-            }
+            Some(file_path) => engine
+                .render_named_str(FILE_NAME_EXPR, file_path, ctx.clone())
+                .map_err(|e| InvalidFilePath {
+                    file_path: file_path.clone(),
+                    error: e.to_string(),
+                })?,
             None => {
                 // By default, the file name is the template file name without
                 // the extension ".j2"
@@ -778,7 +779,11 @@ impl TemplateEngine {
         // Within a template, `{% autoescape false %}` blocks can selectively
         // disable escaping for sections.
         let auto_escape_mode = minijinja::AutoEscape::from(auto_escape);
-        env.set_auto_escape_callback(move |_| auto_escape_mode);
+        // The mode applies to the output of the template, not to the name of the generated file.
+        env.set_auto_escape_callback(move |name| match name {
+            FILE_NAME_EXPR => minijinja::AutoEscape::None,
+            _ => auto_escape_mode,
+        });
         let template_syntax = self.target_config.template_syntax.clone();
 
         let syntax = SyntaxConfig::builder()
-- 
2.43.0


From 95e870e56c017060aa363e9d9846830397efe4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 21/56] fix: a markdown snippet without an end marker is an
 error, and the file is kept

---
 crates/weaver_semconv_gen/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..471e434 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -72,6 +72,12 @@ pub enum Error {
         /// Markdown snipper identifier:  <!-- semconv {id} -->
         id: String,
     },
+    /// Thrown when a snippet has no end marker.
+    #[error("Could not find the end marker of snippet: [{header}]")]
+    UnterminatedSnippet {
+        /// The line that starts the snippet.
+        header: String,
+    },
     /// Errors from using std io library.
     #[error("{0}")]
     StdIoError(String),
@@ -149,6 +155,7 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        let mut snippet_header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -174,12 +181,14 @@ pub trait MarkdownSnippetGenerator {
                     // If so, generate the snippet and continue.
                     if parser::is_markdown_snippet_directive(line) {
                         snippet_context = Some(SnippetType::Semconv);
+                        snippet_header = line;
                         let arg = parser::parse_markdown_snippet_directive(line)?;
                         let snippet =
                             self.generate_markdown_snippet(arg, attribute_registry_base_url)?;
                         result.push_str(&snippet);
                     } else if parser::is_weaver_directive(line) {
                         snippet_context = Some(SnippetType::Weaver);
+                        snippet_header = line;
                         let arg = parser::parse_weaver_snippet_directive(line)?;
                         let snippet = self.generate_weaver_snippet(arg)?;
                         result.push_str(&snippet);
@@ -187,6 +196,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        if snippet_context.is_some() {
+            // Everything up to the end of the document would be lost.
+            return Err(Error::UnterminatedSnippet {
+                header: snippet_header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 4baa7d5b1cc5df8850b4e2940a6d5336d9cfdc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 22/56] fix: set_file_name renders as nothing under the json
 auto_escape mode

---
 crates/weaver_forge/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/lib.rs b/crates/weaver_forge/src/lib.rs
index 57b3177..4634317 100644
--- a/crates/weaver_forge/src/lib.rs
+++ b/crates/weaver_forge/src/lib.rs
@@ -110,7 +110,8 @@ impl Object for TemplateObject {
         if name == "set_file_name" {
             let (file_name,): (&str,) = from_args(args)?;
             file_name.clone_into(&mut self.file_name.lock().expect("Lock poisoned"));
-            Ok(Value::from(""))
+            // Renders as nothing, whatever the auto-escape mode.
+            Ok(Value::from_safe_string(String::new()))
         } else {
             Err(minijinja::Error::new(
                 ErrorKind::UnknownMethod,
-- 
2.43.0


From 3d9f0d903ae2dc5c7530ecc87678c80e171581b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 23/56] fix: a refinement of a refinement refers to the
 definition in the v2 view

---
 crates/weaver_resolved_schema/src/v2/mod.rs | 28 +++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index 2770178..0260891 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -260,6 +260,27 @@ fn is_refinement_of(group: &crate::registry::Group) -> bool {
         .is_some_and(|l| l.extends_group_type.as_ref() == Some(&group.r#type))
 }
 
+/// The id of the definition that this group refines.
+///
+/// A v1 group may extend a group that extends another one. All of them refine
+/// the definition at the end of the chain.
+fn refined_group_id<'a>(
+    group: &'a crate::registry::Group,
+    groups: &'a [crate::registry::Group],
+) -> Option<&'a String> {
+    let extends = |g: &'a crate::registry::Group| g.lineage.as_ref()?.extends_group.as_ref();
+    let mut id = extends(group)?;
+    while let Some(next) = groups
+        .iter()
+        .find(|g| &g.id == id)
+        .filter(|g| is_refinement_of(g))
+        .and_then(extends)
+    {
+        id = next;
+    }
+    Some(id)
+}
+
 /// The entity type that a v1 entity group declares.
 ///
 /// A v1 entity holds its type in `name`, and its id is free of it: the legacy
@@ -439,8 +460,7 @@ pub fn convert_v1_to_v2(
             }
         }
         let entity_type = if is_refinement {
-            let Some(extends_group) = g.lineage.as_ref().and_then(|l| l.extends_group.as_ref())
-            else {
+            let Some(extends_group) = refined_group_id(g, &r.groups) else {
                 return Err(crate::error::Error::RefinementBaseNotFound {
                     group_id: g.id.clone(),
                 });
@@ -555,9 +575,7 @@ pub fn convert_v1_to_v2(
                         span,
                     });
                 } else {
-                    let Some(extends_group) =
-                        g.lineage.as_ref().and_then(|l| l.extends_group.as_ref())
-                    else {
+                    let Some(extends_group) = refined_group_id(g, &r.groups) else {
                         return Err(crate::error::Error::RefinementBaseNotFound {
                             group_id: g.id.clone(),
                         });
-- 
2.43.0


From f317c52dc8af619c6a3c0c5223022eaa81c31ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 24/56] fix: an archive entry never leads outside the directory
 it is unpacked to

---
 crates/weaver_common/src/vdir.rs | 128 ++++++++++++++++++++++++-------
 1 file changed, 99 insertions(+), 29 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..c62cc67 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -868,31 +868,52 @@ impl VirtualDirectory {
     ) -> Result<(), Error> {
         let tar_file = flate2::read::GzDecoder::new(archive_file);
         let mut archive = tar::Archive::new(tar_file);
-
-        for entry in archive.entries().map_err(|e| InvalidRegistryArchive {
+        let err = |e: io::Error| InvalidRegistryArchive {
             archive: archive_filename.to_owned(),
             error: e.to_string(),
-        })? {
-            let mut entry = entry.map_err(|e| InvalidRegistryArchive {
-                archive: archive_filename.to_owned(),
-                error: e.to_string(),
-            })?;
-
-            let path = entry.path().map_err(|e| InvalidRegistryArchive {
-                archive: archive_filename.to_owned(),
-                error: e.to_string(),
-            })?;
-
-            if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
-                Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
+        };
+        let mut symlinks = Vec::new();
+
+        for entry in archive.entries().map_err(err)? {
+            let mut entry = entry.map_err(err)?;
+            let path = entry.path().map_err(err)?;
+
+            if let Some(valid_entry_path) =
+                Self::path_to_unpack(&path, sub_folder, target_path, archive_filename)?
+            {
+                Self::create_parent_dirs(&valid_entry_path, target_path, archive_filename)?;
+                let entry_type = entry.header().entry_type();
+                if entry_type.is_hard_link() {
+                    // The source of a hard link is the path of another entry of the archive.
+                    let source = entry.link_name().map_err(err)?.unwrap_or_default();
+                    let source =
+                        Self::path_to_unpack(&source, sub_folder, target_path, archive_filename)?
+                            .filter(|source| Self::is_inside(source, target_path))
+                            .ok_or_else(|| InvalidRegistryArchive {
+                                archive: archive_filename.to_owned(),
+                                error: format!(
+                                    "The source of the hard link `{}` is not in the archive",
+                                    path.display()
+                                ),
+                            })?;
+                    // Copy to a new file, never through an existing link.
+                    _ = std::fs::remove_file(&valid_entry_path);
+                    _ = std::fs::copy(source, valid_entry_path).map_err(err)?;
+                    continue;
+                }
+                if entry_type.is_symlink() {
+                    symlinks.push(valid_entry_path.clone());
+                }
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
-                _ = entry
-                    .unpack(valid_entry_path)
-                    .map_err(|e| InvalidRegistryArchive {
-                        archive: archive_filename.to_owned(),
-                        error: e.to_string(),
-                    })?;
+                _ = entry.unpack(valid_entry_path).map_err(err)?;
+            }
+        }
+
+        // A symbolic link leading outside the unpacked archive is not followed, nor kept.
+        for symlink in symlinks {
+            if symlink.is_symlink() && symlink.exists() && !Self::is_inside(&symlink, target_path) {
+                std::fs::remove_file(symlink).map_err(err)?;
             }
         }
         Ok(())
@@ -925,8 +946,10 @@ impl VirtualDirectory {
             })?;
 
             if let Some(path) = entry.enclosed_name() {
-                if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, tmp_path) {
-                    Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
+                if let Some(valid_entry_path) =
+                    Self::path_to_unpack(&path, sub_folder, tmp_path, archive_filename)?
+                {
+                    Self::create_parent_dirs(&valid_entry_path, tmp_path, archive_filename)?;
 
                     if entry.is_dir() {
                         create_dir_all(&valid_entry_path).map_err(|e| InvalidRegistryArchive {
@@ -968,16 +991,22 @@ impl VirtualDirectory {
     /// Returns `Some(PathBuf)` with the calculated target path if the entry should be unpacked,
     /// or `None` if the entry should be skipped (e.g. outside the `sub_folder`).
     ///
+    /// # Errors
+    ///
+    /// Returns [`Error::InvalidRegistryArchive`] if the entry leads outside the archive.
+    ///
     /// # Arguments
     ///
     /// * `entry_path` - The path of the entry *inside* the archive.
     /// * `sub_folder` - Optional sub-folder filter.
     /// * `target_path` - The base directory where content is being unpacked.
+    /// * `archive_filename` - The archive being unpacked (for error reporting).
     fn path_to_unpack(
         entry_path: &Path,
         sub_folder: Option<&String>,
         target_path: &Path,
-    ) -> Option<PathBuf> {
+        archive_filename: &str,
+    ) -> Result<Option<PathBuf>, Error> {
         let mut components = entry_path.components();
 
         // Skip the first component, i.e. the top-level directory in the archive that
@@ -992,17 +1021,58 @@ impl VirtualDirectory {
                 let component = components.next();
                 if let Some(component) = component {
                     if component.as_os_str() != sub_folder.as_str() {
-                        return None; // Skip entries not in the sub-folder
+                        return Ok(None); // Skip entries not in the sub-folder
                     }
                 }
             }
         }
-        Some(target_path.join(components.collect::<PathBuf>()))
+        let relative_path = components.collect::<PathBuf>();
+        if relative_path
+            .components()
+            .any(|component| component == Component::ParentDir)
+        {
+            return Err(InvalidRegistryArchive {
+                archive: archive_filename.to_owned(),
+                error: format!(
+                    "The entry `{}` leads outside the archive",
+                    entry_path.display()
+                ),
+            });
+        }
+        Ok(Some(target_path.join(relative_path)))
     }
 
-    /// Creates parent directories for the given path.
-    fn create_parent_dirs(new_path: &Path, archive_filename: &str) -> Result<(), Error> {
+    /// Returns true if `path` exists and lies in `target_path` once the symbolic links are
+    /// resolved.
+    fn is_inside(path: &Path, target_path: &Path) -> bool {
+        match (path.canonicalize(), target_path.canonicalize()) {
+            (Ok(path), Ok(target_path)) => path.starts_with(target_path),
+            _ => false,
+        }
+    }
+
+    /// Creates parent directories for the given path. Fails if a symbolic link of the archive
+    /// places them outside `target_path`.
+    fn create_parent_dirs(
+        new_path: &Path,
+        target_path: &Path,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        // The entry of the archive's root folder is the target path itself.
+        if new_path == target_path {
+            return Ok(());
+        }
         if let Some(parent) = new_path.parent() {
+            let existing = parent.ancestors().find(|ancestor| ancestor.exists());
+            if !existing.is_some_and(|existing| Self::is_inside(existing, target_path)) {
+                return Err(InvalidRegistryArchive {
+                    archive: archive_filename.to_owned(),
+                    error: format!(
+                        "The entry `{}` leads outside the archive",
+                        new_path.display()
+                    ),
+                });
+            }
             create_dir_all(parent).map_err(|e| InvalidRegistryArchive {
                 archive: archive_filename.to_owned(),
                 error: e.to_string(),
-- 
2.43.0


From 9ae649dbbd00fbfebb45bfd43652d33821504468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 25/56] fix: a nested archive sub-folder is found, and a
 missing one is an error

---
 crates/weaver_common/src/vdir.rs | 35 ++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index c62cc67..a170b8e 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -873,6 +873,7 @@ impl VirtualDirectory {
             error: e.to_string(),
         };
         let mut symlinks = Vec::new();
+        let mut sub_folder_found = false;
 
         for entry in archive.entries().map_err(err)? {
             let mut entry = entry.map_err(err)?;
@@ -881,6 +882,7 @@ impl VirtualDirectory {
             if let Some(valid_entry_path) =
                 Self::path_to_unpack(&path, sub_folder, target_path, archive_filename)?
             {
+                sub_folder_found = true;
                 Self::create_parent_dirs(&valid_entry_path, target_path, archive_filename)?;
                 let entry_type = entry.header().entry_type();
                 if entry_type.is_hard_link() {
@@ -916,7 +918,7 @@ impl VirtualDirectory {
                 std::fs::remove_file(symlink).map_err(err)?;
             }
         }
-        Ok(())
+        Self::check_sub_folder(sub_folder, sub_folder_found, archive_filename)
     }
 
     /// Extracts the contents of a `.zip` archive into the specified directory.
@@ -939,6 +941,7 @@ impl VirtualDirectory {
                 error: e.to_string(),
             })?;
 
+        let mut sub_folder_found = false;
         for i in 0..archive.len() {
             let mut entry = archive.by_index(i).map_err(|e| InvalidRegistryArchive {
                 archive: archive_filename.to_owned(),
@@ -949,6 +952,7 @@ impl VirtualDirectory {
                 if let Some(valid_entry_path) =
                     Self::path_to_unpack(&path, sub_folder, tmp_path, archive_filename)?
                 {
+                    sub_folder_found = true;
                     Self::create_parent_dirs(&valid_entry_path, tmp_path, archive_filename)?;
 
                     if entry.is_dir() {
@@ -976,7 +980,24 @@ impl VirtualDirectory {
                 }
             }
         }
-        Ok(())
+        Self::check_sub_folder(sub_folder, sub_folder_found, archive_filename)
+    }
+
+    /// Returns an error if a sub-folder is requested and the archive does not contain it.
+    fn check_sub_folder(
+        sub_folder: Option<&String>,
+        found: bool,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        match sub_folder {
+            Some(sub_folder) if !found && !sub_folder.trim().is_empty() => {
+                Err(InvalidRegistryArchive {
+                    archive: archive_filename.to_owned(),
+                    error: format!("Path `{sub_folder}` not found in the archive"),
+                })
+            }
+            _ => Ok(()),
+        }
     }
 
     /// Calculates the final destination path for an archive entry based on filtering rules.
@@ -1017,10 +1038,12 @@ impl VirtualDirectory {
         if let Some(sub_folder) = sub_folder {
             if !sub_folder.trim().is_empty() {
                 // Skip any entry that is not in the sub-folder.
-                // If the entry is in the sub-folder, the sub-folder component is skipped.
-                let component = components.next();
-                if let Some(component) = component {
-                    if component.as_os_str() != sub_folder.as_str() {
+                // If the entry is in the sub-folder, the sub-folder components are skipped.
+                for expected in Path::new(sub_folder).components() {
+                    if expected == Component::CurDir {
+                        continue;
+                    }
+                    if components.next() != Some(expected) {
                         return Ok(None); // Skip entries not in the sub-folder
                     }
                 }
-- 
2.43.0


From 4578ca296a5edd0b2183db804eb6fec93aab0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 26/56] fix: a local registry path is not cut at a @ or a
 bracket

---
 crates/weaver_common/src/vdir.rs | 71 ++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index a170b8e..10e02bb 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -409,6 +409,32 @@ impl VirtualDirectoryPath {
             RemoteFile { url } => RemoteFile { url: f(url) },
         }
     }
+
+    /// Interprets a path of the local filesystem. A `@` has no special meaning in a local path,
+    /// nor do the characters `[` and `]` unless they enclose the sub-folder of an archive.
+    fn from_local_path(path: &str) -> VirtualDirectoryPath {
+        let is_archive = |path: &str| path.ends_with(ZIP_EXT) || path.ends_with(TAR_GZ_EXT);
+        let with_sub_folder = path
+            .strip_suffix(']')
+            .and_then(|path| path.rsplit_once('['))
+            .filter(|(path, sub_folder)| is_archive(path) && !sub_folder.is_empty());
+
+        if let Some((path, sub_folder)) = with_sub_folder {
+            LocalArchive {
+                path: path.to_owned(),
+                sub_folder: Some(sub_folder.to_owned()),
+            }
+        } else if is_archive(path) {
+            LocalArchive {
+                path: path.to_owned(),
+                sub_folder: None,
+            }
+        } else {
+            LocalFolder {
+                path: path.to_owned(),
+            }
+        }
+    }
 }
 
 /// Enables parsing a [`VirtualDirectoryPath`] from a string representation.
@@ -463,6 +489,10 @@ impl FromStr for VirtualDirectoryPath {
     /// Returns `Error::InvalidRegistryPath` if the string does not conform to the expected
     /// format `source[@refspec][\[sub_folder]]`.
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if !s.is_empty() && !s.starts_with("http://") && !s.starts_with("https://") {
+            return Ok(Self::from_local_path(s));
+        }
+
         let captures = REGISTRY_REGEX
             .captures(s)
             .ok_or(Error::InvalidRegistryPath {
@@ -479,35 +509,24 @@ impl FromStr for VirtualDirectoryPath {
         let refspec = captures.name("refspec").map(|m| m.as_str().to_owned());
         let sub_folder = captures.name("sub_folder").map(|m| m.as_str().to_owned());
 
-        if source.starts_with("http://") || source.starts_with("https://") {
-            if source.ends_with(".zip") || source.ends_with(".tar.gz") {
-                Ok(Self::RemoteArchive {
-                    url: source.to_owned(),
-                    sub_folder,
-                })
-            } else if source.ends_with(".git") || refspec.is_some() || sub_folder.is_some() {
-                // Archives (`.zip` / `.tar.gz`) are already handled above. Of the
-                // remaining HTTP(S) sources, only a Git repo can meaningfully carry
-                // a `@refspec` or a `[sub_folder]`, so their presence classifies the
-                // URL as `GitRepo` even when the `.git` suffix is omitted.
-                Ok(Self::GitRepo {
-                    url: source.to_owned(),
-                    refspec,
-                    sub_folder,
-                })
-            } else {
-                Ok(Self::RemoteFile {
-                    url: source.to_owned(),
-                })
-            }
-        } else if source.ends_with(".zip") || source.ends_with(".tar.gz") {
-            Ok(Self::LocalArchive {
-                path: source.to_owned(),
+        if source.ends_with(ZIP_EXT) || source.ends_with(TAR_GZ_EXT) {
+            Ok(Self::RemoteArchive {
+                url: source.to_owned(),
+                sub_folder,
+            })
+        } else if source.ends_with(".git") || refspec.is_some() || sub_folder.is_some() {
+            // Archives (`.zip` / `.tar.gz`) are already handled above. Of the
+            // remaining HTTP(S) sources, only a Git repo can meaningfully carry
+            // a `@refspec` or a `[sub_folder]`, so their presence classifies the
+            // URL as `GitRepo` even when the `.git` suffix is omitted.
+            Ok(Self::GitRepo {
+                url: source.to_owned(),
+                refspec,
                 sub_folder,
             })
         } else {
-            Ok(Self::LocalFolder {
-                path: source.to_owned(),
+            Ok(Self::RemoteFile {
+                url: source.to_owned(),
             })
         }
     }
-- 
2.43.0


From 39ce6d69bf9bd6d93cdeab55bb5229dbb21bda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 27/56] fix: a read-only directory of an archive does not
 prevent its unpacking

---
 crates/weaver_common/src/vdir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 10e02bb..9368516 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -922,6 +922,12 @@ impl VirtualDirectory {
                     _ = std::fs::copy(source, valid_entry_path).map_err(err)?;
                     continue;
                 }
+                if entry_type.is_dir() {
+                    // The permissions of the directory are not applied: the entries below it
+                    // have yet to be unpacked, and deleted in the end.
+                    create_dir_all(valid_entry_path).map_err(err)?;
+                    continue;
+                }
                 if entry_type.is_symlink() {
                     symlinks.push(valid_entry_path.clone());
                 }
-- 
2.43.0


From 67a86553e644f74a8e9c44101705ccf1f75f01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:50 +0000
Subject: [PATCH 28/56] fix: show the diagnostics that are not policy
 violations in the gh_workflow_command format

---
 defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
index 81d6f1a..43f735e 100644
--- a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
+++ b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
@@ -11,7 +11,7 @@
 
 {%- if other_diagnostics %}
 ::group::Diagnostic report
-{% for item in policy_violations %}
+{% for item in other_diagnostics %}
 {{ item.diagnostic.ansi_message }}
 {% endfor %}
 ::endgroup::
-- 
2.43.0


From d91fae23219ec5219515837dce8ca0b03b053f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:50 +0000
Subject: [PATCH 29/56] fix: report an invalid .weaver.toml in the requested
 diagnostic format

---
 src/diagnostic/mod.rs | 11 ++++++++++-
 src/main.rs           | 15 +++++++++++----
 src/registry/mod.rs   | 21 +++++++++++++++++++++
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/mod.rs b/src/diagnostic/mod.rs
index 1022935..63a346e 100644
--- a/src/diagnostic/mod.rs
+++ b/src/diagnostic/mod.rs
@@ -4,7 +4,7 @@
 
 mod init;
 
-use crate::CmdResult;
+use crate::{CmdResult, DiagnosticArgs};
 use clap::{Args, Subcommand};
 use include_dir::{include_dir, Dir};
 use miette::Diagnostic;
@@ -48,6 +48,15 @@ pub enum DiagnosticSubCommand {
     Init(init::DiagnosticInitArgs),
 }
 
+impl DiagnosticSubCommand {
+    /// Returns the diagnostic parameters of the sub-command.
+    pub(crate) fn diagnostic_args(&self) -> &DiagnosticArgs {
+        match self {
+            DiagnosticSubCommand::Init(args) => &args.diagnostic,
+        }
+    }
+}
+
 /// Manage diagnostic messages.
 pub fn diagnostic(command: &DiagnosticCommand) -> CmdResult {
     match &command.command {
diff --git a/src/main.rs b/src/main.rs
index bb4d567..01055cf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -167,10 +167,17 @@ fn run_command(cli: &Cli) -> ExitDirectives {
     let weaver_config = match resolve_weaver_config(cli.config.as_deref()) {
         Ok(wc) => wc,
         Err(diag) => {
-            return process_diagnostics(CmdResult::new(
-                Err(diag),
-                DiagnosticArgs::default().to_effective(None),
-            ));
+            let diagnostics = match &cli.command {
+                Some(Commands::Registry(params)) => {
+                    params.command.diagnostic_args().to_effective(None)
+                }
+                Some(Commands::Diagnostic(params)) => {
+                    params.command.diagnostic_args().to_effective(None)
+                }
+                Some(Commands::Serve(params)) => params.diagnostic.to_effective(None),
+                _ => DiagnosticArgs::default().to_effective(None),
+            };
+            return process_diagnostics(CmdResult::new(Err(diag), diagnostics));
         }
     };
     let cfg = weaver_config.as_ref();
diff --git a/src/registry/mod.rs b/src/registry/mod.rs
index 14934e0..4e1852d 100644
--- a/src/registry/mod.rs
+++ b/src/registry/mod.rs
@@ -388,6 +388,27 @@ pub(crate) fn apply_template_config(
     }
 }
 
+impl RegistrySubCommand {
+    /// Returns the diagnostic parameters of the sub-command.
+    pub(crate) fn diagnostic_args(&self) -> &crate::DiagnosticArgs {
+        match self {
+            RegistrySubCommand::Check(args) => &args.diagnostic,
+            RegistrySubCommand::Generate(args) => &args.diagnostic,
+            RegistrySubCommand::Resolve(args) => &args.diagnostic,
+            RegistrySubCommand::Search(args) => &args.diagnostic,
+            RegistrySubCommand::Stats(args) => &args.diagnostic,
+            RegistrySubCommand::UpdateMarkdown(args) => &args.diagnostic,
+            RegistrySubCommand::JsonSchema(args) => &args.diagnostic,
+            RegistrySubCommand::Diff(args) => &args.diagnostic,
+            RegistrySubCommand::Emit(args) => &args.diagnostic,
+            RegistrySubCommand::LiveCheck(args) => &args.diagnostic,
+            RegistrySubCommand::Mcp(args) => &args.diagnostic,
+            RegistrySubCommand::Infer(args) => &args.diagnostic,
+            RegistrySubCommand::Package(args) => &args.diagnostic,
+        }
+    }
+}
+
 /// Manage a semantic convention registry and return the exit code.
 ///
 /// The dispatcher in `main.rs` loads `.weaver.toml` (via the global
-- 
2.43.0


From b3b215528cc5fc08bf27d7a1d0d8bcd63aa8c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:51 +0000
Subject: [PATCH 30/56] fix: report several invalid policy files without a
 panic

---
 src/weaver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weaver.rs b/src/weaver.rs
index 18755a3..4212f11 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -570,7 +570,11 @@ pub enum Error {
 // TODO - transparently convert to diagnostic messages.
 impl From<Error> for DiagnosticMessages {
     fn from(value: Error) -> Self {
-        DiagnosticMessages::new(vec![DiagnosticMessage::new(value)])
+        match value {
+            // One diagnostic per policy error.
+            Error::Checker(error @ weaver_checker::Error::CompoundError(_)) => error.into(),
+            value => DiagnosticMessages::new(vec![DiagnosticMessage::new(value)]),
+        }
     }
 }
 
-- 
2.43.0


From 5f8f4465300b4e739be5eee9ed81e81560235f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 31/56] fix: count deprecations, stability levels and notes of
 attribute groups in the v2 statistics

---
 .../weaver_resolved_schema/src/v2/registry.rs | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/v2/registry.rs b/crates/weaver_resolved_schema/src/v2/registry.rs
index bf022c4..6b6a100 100644
--- a/crates/weaver_resolved_schema/src/v2/registry.rs
+++ b/crates/weaver_resolved_schema/src/v2/registry.rs
@@ -213,12 +213,26 @@ impl Registry {
         };
 
         let attribute_groups = {
+            let mut stability_breakdown = HashMap::new();
+            let mut deprecated_count = 0;
+            let mut total_with_note = 0;
+            for group in &self.attribute_groups {
+                if group.common.deprecated.is_some() {
+                    deprecated_count += 1;
+                }
+                if !group.common.note.is_empty() {
+                    total_with_note += 1;
+                }
+                *stability_breakdown
+                    .entry(group.common.stability.clone())
+                    .or_default() += 1;
+            }
             AttributeGroupStats {
                 common: CommonSignalStats {
                     count: self.attribute_groups.len(),
-                    stability_breakdown: HashMap::new(),
-                    deprecated_count: 0,
-                    total_with_note: 0,
+                    stability_breakdown,
+                    deprecated_count,
+                    total_with_note,
                 },
             }
         };
-- 
2.43.0


From a26d839fb643efa23c90d1406ef03700572b1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 32/56] fix: report an invalid CORS origin instead of a panic

---
 src/serve/server.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/serve/server.rs b/src/serve/server.rs
index 19440e4..ed99d20 100644
--- a/src/serve/server.rs
+++ b/src/serve/server.rs
@@ -8,7 +8,7 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 
 use axum::{
-    http::{header, StatusCode},
+    http::{header, HeaderValue, StatusCode},
     response::{Html, IntoResponse},
     routing::get,
     Json, Router,
@@ -47,6 +47,12 @@ pub enum Error {
         /// The error message.
         error: String,
     },
+    /// Invalid CORS origin
+    #[error("Invalid CORS origin: `{origin}`")]
+    InvalidCorsOrigin {
+        /// The origin that cannot be allowed.
+        origin: String,
+    },
     /// JSON serialization error
     #[error("Serialization error: {error}")]
     Serialization {
@@ -203,10 +209,20 @@ pub async fn run_server(
                 .allow_headers(Any)
         } else {
             // Parse comma-separated origins
-            let origin_list: Vec<_> = origins
+            let origin_list = origins
                 .split(',')
-                .map(|s| s.trim().parse().expect("Invalid origin URL"))
-                .collect();
+                .map(|s| {
+                    s.trim().parse().map_err(|_| Error::InvalidCorsOrigin {
+                        origin: s.trim().to_owned(),
+                    })
+                })
+                .collect::<Result<Vec<_>, _>>()?;
+
+            if origin_list.iter().any(|o: &HeaderValue| o == "*") {
+                return Err(Error::InvalidCorsOrigin {
+                    origin: "*".to_owned(),
+                });
+            }
 
             CorsLayer::new()
                 .allow_origin(AllowOrigin::list(origin_list))
-- 
2.43.0


From e9915fe75ee5ec43956ab62c917736b9c13e5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 33/56] fix: keep every finding in the findings_only output of
 the MCP live_check tool

---
 crates/weaver_mcp/src/service.rs | 198 +++++++++++++++++++------------
 1 file changed, 122 insertions(+), 76 deletions(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..612e492 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -19,6 +19,8 @@ use weaver_live_check::advice::{
     Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor,
 };
 use weaver_live_check::live_checker::LiveChecker;
+use weaver_live_check::sample_attribute::SampleAttribute;
+use weaver_live_check::sample_metric::{DataPoints, SampleExemplar, SampleMetric};
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -122,9 +124,7 @@ fn extract_findings(result: &Option<LiveCheckResult>) -> Vec<serde_json::Value>
 }
 
 /// Extract actionable findings from all attributes in a slice.
-fn extract_attr_findings(
-    attrs: &[weaver_live_check::sample_attribute::SampleAttribute],
-) -> Vec<serde_json::Value> {
+fn extract_attr_findings(attrs: &[SampleAttribute]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for a in attrs {
         let findings = extract_findings(&a.live_check_result);
@@ -138,84 +138,124 @@ fn extract_attr_findings(
     out
 }
 
-/// Collect compact findings from all samples. Returns one entry per sample that has findings.
-fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
-    let mut out = Vec::new();
-    for sample in samples {
-        match sample {
-            Sample::Attribute(a) => {
-                let findings = extract_findings(&a.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": a.name, "findings": findings}));
-                }
-            }
-            Sample::Span(s) => {
-                let mut parts = extract_findings(&s.live_check_result);
-                let attr_findings = extract_attr_findings(&s.attributes);
-                if !parts.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "type": "span",
-                        "findings": parts,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-                // Check nested span events/links attributes
-                for evt in &s.span_events {
-                    parts = extract_attr_findings(&evt.attributes);
-                    if !parts.is_empty() {
-                        out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                    }
-                }
-            }
-            Sample::SpanEvent(e) => {
-                let parts = extract_attr_findings(&e.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                }
-            }
-            Sample::SpanLink(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_link", "attribute_findings": parts}));
-                }
+/// Appends the compact entry of one element of a sample, if it or its attributes have findings.
+fn push_compact_entry(
+    out: &mut Vec<serde_json::Value>,
+    kind: &str,
+    name: Option<&str>,
+    result: &Option<LiveCheckResult>,
+    attributes: &[SampleAttribute],
+) {
+    let findings = extract_findings(result);
+    let attribute_findings = extract_attr_findings(attributes);
+    if findings.is_empty() && attribute_findings.is_empty() {
+        return;
+    }
+    let mut entry = json!({
+        "type": kind,
+        "findings": findings,
+        "attribute_findings": attribute_findings,
+    });
+    if let Some(name) = name {
+        entry["name"] = json!(name);
+    }
+    out.push(entry);
+}
+
+/// Appends the compact entries of the exemplars of a data point.
+fn push_exemplar_entries(
+    out: &mut Vec<serde_json::Value>,
+    metric: &str,
+    exemplars: &[SampleExemplar],
+) {
+    for e in exemplars {
+        push_compact_entry(
+            out,
+            "exemplar",
+            Some(metric),
+            &e.live_check_result,
+            &e.filtered_attributes,
+        );
+    }
+}
+
+/// Appends the compact entries of the data points of a metric.
+fn push_data_point_entries(out: &mut Vec<serde_json::Value>, m: &SampleMetric) {
+    match &m.data_points {
+        Some(DataPoints::Number(points)) => {
+            for p in points {
+                let result = &p.live_check_result;
+                push_compact_entry(out, "data_point", Some(&m.name), result, &p.attributes);
+                push_exemplar_entries(out, &m.name, &p.exemplars);
             }
-            Sample::Resource(r) => {
-                let parts = extract_attr_findings(&r.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "resource", "attribute_findings": parts}));
-                }
+        }
+        Some(DataPoints::Histogram(points)) => {
+            for p in points {
+                let result = &p.live_check_result;
+                push_compact_entry(out, "data_point", Some(&m.name), result, &p.attributes);
+                push_exemplar_entries(out, &m.name, &p.exemplars);
             }
-            Sample::InstrumentationScope(scope) => {
-                let findings = extract_findings(&scope.live_check_result);
-                let attr_findings = extract_attr_findings(&scope.attributes);
-                if !findings.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "name": scope.name,
-                        "type": "instrumentation_scope",
-                        "findings": findings,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
+        }
+        Some(DataPoints::ExponentialHistogram(points)) => {
+            for p in points {
+                let result = &p.live_check_result;
+                push_compact_entry(out, "data_point", Some(&m.name), result, &p.attributes);
+                push_exemplar_entries(out, &m.name, &p.exemplars);
             }
-            Sample::Metric(m) => {
-                let findings = extract_findings(&m.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
-                }
+        }
+        None => {}
+    }
+}
+
+/// Collect the compact findings of a sample: one entry per element of the sample that has findings.
+fn collect_compact_findings(sample: &Sample) -> Vec<serde_json::Value> {
+    let mut out = Vec::new();
+    match sample {
+        Sample::Attribute(a) => {
+            let findings = extract_findings(&a.live_check_result);
+            if !findings.is_empty() {
+                out.push(json!({"name": a.name, "findings": findings}));
             }
-            Sample::Log(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "log", "attribute_findings": parts}));
-                }
+        }
+        Sample::Span(s) => {
+            push_compact_entry(&mut out, "span", None, &s.live_check_result, &s.attributes);
+            for e in &s.span_events {
+                let result = &e.live_check_result;
+                push_compact_entry(&mut out, "span_event", None, result, &e.attributes);
             }
-            Sample::Profile(p) => {
-                let parts = extract_attr_findings(&p.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "profile", "attribute_findings": parts}));
-                }
+            for l in &s.span_links {
+                let result = &l.live_check_result;
+                push_compact_entry(&mut out, "span_link", None, result, &l.attributes);
             }
         }
+        Sample::SpanEvent(e) => {
+            let result = &e.live_check_result;
+            push_compact_entry(&mut out, "span_event", None, result, &e.attributes);
+        }
+        Sample::SpanLink(l) => {
+            let result = &l.live_check_result;
+            push_compact_entry(&mut out, "span_link", None, result, &l.attributes);
+        }
+        Sample::Resource(r) => {
+            let result = &r.live_check_result;
+            push_compact_entry(&mut out, "resource", None, result, &r.attributes);
+        }
+        Sample::InstrumentationScope(s) => {
+            let kind = "instrumentation_scope";
+            let result = &s.live_check_result;
+            push_compact_entry(&mut out, kind, Some(&s.name), result, &s.attributes);
+        }
+        Sample::Metric(m) => {
+            push_compact_entry(&mut out, "metric", Some(&m.name), &m.live_check_result, &[]);
+            push_data_point_entries(&mut out, m);
+        }
+        Sample::Log(l) => {
+            push_compact_entry(&mut out, "log", None, &l.live_check_result, &l.attributes);
+        }
+        Sample::Profile(p) => {
+            let result = &p.live_check_result;
+            push_compact_entry(&mut out, "profile", None, result, &p.attributes);
+        }
     }
     out
 }
@@ -521,12 +561,18 @@ impl WeaverMcpService {
                 serde_json::to_string_pretty(&samples).unwrap_or_else(|e| format!("Error: {e}"))
             }
             LiveCheckOutput::FindingsOnly => {
-                let findings = collect_compact_findings(&samples);
+                let per_sample: Vec<_> = samples
+                    .iter()
+                    .map(collect_compact_findings)
+                    .filter(|findings| !findings.is_empty())
+                    .collect();
+                let samples_with_findings = per_sample.len();
+                let findings = per_sample.concat();
                 let total = samples.len();
                 let result_json = json!({
                     "findings": findings,
                     "total_samples_checked": total,
-                    "samples_with_findings": findings.len(),
+                    "samples_with_findings": samples_with_findings,
                 });
                 serde_json::to_string_pretty(&result_json).unwrap_or_else(|e| format!("Error: {e}"))
             }
-- 
2.43.0


From 9f4e60c50460e359094255d2fa51047bbaa0a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 34/56] fix: let the MCP get_attribute tool find template
 attributes

---
 crates/weaver_mcp/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 612e492..b8aa531 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -458,7 +458,11 @@ impl WeaverMcpService {
                        full documentation."
     )]
     fn get_attribute(&self, Parameters(params): Parameters<GetAttributeParams>) -> String {
-        match self.search_context.get_attribute(&params.key) {
+        match self
+            .search_context
+            .get_attribute(&params.key)
+            .or_else(|| self.search_context.get_template(&params.key))
+        {
             Some(attr) => serde_json::to_string_pretty(attr.as_ref())
                 .unwrap_or_else(|e| format!("Error: {e}")),
             None => format!("Attribute '{}' not found in registry", params.key),
-- 
2.43.0


From f2fb6960b3f63517179c0a764b8337e100b89caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:27 +0000
Subject: [PATCH 35/56] fix: attach a resource given to the MCP live_check tool
 to the signals after it

---
 crates/weaver_mcp/src/service.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index b8aa531..ebbeba3 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -6,6 +6,7 @@
 //! for querying, debugging and validating against the semantic convention registry.
 
 use std::path::PathBuf;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use rmcp::handler::server::wrapper::Parameters;
@@ -21,6 +22,7 @@ use weaver_live_check::advice::{
 use weaver_live_check::live_checker::LiveChecker;
 use weaver_live_check::sample_attribute::SampleAttribute;
 use weaver_live_check::sample_metric::{DataPoints, SampleExemplar, SampleMetric};
+use weaver_live_check::sample_resource::SampleResource;
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -551,7 +553,17 @@ impl WeaverMcpService {
         };
 
         // Run live check on each sample (mutates samples in place)
+        let mut current_resource: Option<Rc<SampleResource>> = None;
         for sample in &mut samples {
+            // As with the JSON input of `registry live-check`, a resource belongs to the
+            // signals that follow it.
+            match sample {
+                Sample::Resource(r) => current_resource = Some(Rc::new(r.clone())),
+                Sample::Metric(m) => m.resource = current_resource.clone(),
+                Sample::Log(l) => l.resource = current_resource.clone(),
+                Sample::Span(s) => s.resource = current_resource.clone(),
+                _ => {}
+            }
             let sample_clone: Sample = sample.clone();
             if let Err(e) =
                 sample.run_live_check(&mut live_checker, &mut stats, None, &sample_clone)
-- 
2.43.0


From c1853e1808f0bd199990de0ea1c9f90f3c49d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:30 +0000
Subject: [PATCH 36/56] fix: emit an enum attribute without members instead of
 crashing

---
 crates/weaver_emit/src/attributes.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_emit/src/attributes.rs b/crates/weaver_emit/src/attributes.rs
index 439aca9..475a6d2 100644
--- a/crates/weaver_emit/src/attributes.rs
+++ b/crates/weaver_emit/src/attributes.rs
@@ -167,11 +167,13 @@ fn internal_get_attribute_name_value(
             KeyValue::new(name, value)
         }
         AttributeType::Enum { members, .. } => {
-            let value = match &members[0].value {
-                ValueSpec::String(s) => Value::String(s.clone().into()),
-                ValueSpec::Int(i) => Value::I64(*i),
-                ValueSpec::Double(d) => Value::F64(f64::from(*d)),
-                ValueSpec::Bool(b) => Value::Bool(*b),
+            let value = match members.first().map(|m| &m.value) {
+                Some(ValueSpec::String(s)) => Value::String(s.clone().into()),
+                Some(ValueSpec::Int(i)) => Value::I64(*i),
+                Some(ValueSpec::Double(d)) => Value::F64(f64::from(*d)),
+                Some(ValueSpec::Bool(b)) => Value::Bool(*b),
+                // Fallback to a default value
+                None => Value::String("value".into()),
             };
             KeyValue::new(name, value)
         }
-- 
2.43.0


From 862207d3154e105acb6b22a65cd8f0ff74ab9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 37/56] fix: report an invalid command section of .weaver.toml
 instead of ignoring it

---
 crates/weaver_config/src/lib.rs            | 32 ++++++++++++++++++++--
 crates/weaver_config/src/overrides.rs      |  8 ++++--
 crates/weaver_macros/src/weaver_command.rs |  6 ++--
 src/registry/check.rs                      |  2 +-
 src/registry/diff.rs                       |  2 +-
 src/registry/emit.rs                       |  2 +-
 src/registry/generate.rs                   |  2 +-
 src/registry/infer.rs                      |  2 +-
 src/registry/live_check.rs                 |  2 +-
 src/registry/mcp.rs                        |  2 +-
 src/registry/mod.rs                        | 15 ++++++----
 src/registry/package.rs                    |  2 +-
 src/registry/stats.rs                      |  2 +-
 src/registry/update_markdown.rs            |  2 +-
 src/serve/mod.rs                           |  2 +-
 15 files changed, 61 insertions(+), 22 deletions(-)

diff --git a/crates/weaver_config/src/lib.rs b/crates/weaver_config/src/lib.rs
index 5a4c930..9f74946 100644
--- a/crates/weaver_config/src/lib.rs
+++ b/crates/weaver_config/src/lib.rs
@@ -72,10 +72,30 @@ impl WeaverConfig {
     /// Returns `C::default()` when the section is absent or fails to deserialize.
     #[must_use]
     pub fn command_config<C: serde::de::DeserializeOwned + Default>(&self, section: &str) -> C {
+        self.try_command_config(section).unwrap_or_default()
+    }
+
+    /// Deserialize a per-command config section from the raw TOML table.
+    ///
+    /// Returns `C::default()` when the section is absent.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the section fails to deserialize.
+    pub fn try_command_config<C: serde::de::DeserializeOwned + Default>(
+        &self,
+        section: &str,
+    ) -> Result<C, ConfigError> {
         let Some(value) = self.commands.get(section) else {
-            return C::default();
+            return Ok(C::default());
         };
-        value.clone().try_into::<C>().unwrap_or_default()
+        value
+            .clone()
+            .try_into::<C>()
+            .map_err(|e| ConfigError::Section {
+                section: section.to_owned(),
+                reason: e.to_string(),
+            })
     }
 }
 
@@ -141,6 +161,14 @@ pub enum ConfigError {
         /// The error message.
         reason: String,
     },
+    /// Invalid per-command section in the config.
+    #[error("Invalid section [{section}] in the project config: {reason}")]
+    Section {
+        /// The name of the section.
+        section: String,
+        /// The error message.
+        reason: String,
+    },
     /// Parse error in the TOML config.
     #[error("Failed to parse config '{}': {reason}", path.display())]
     Parse {
diff --git a/crates/weaver_config/src/overrides.rs b/crates/weaver_config/src/overrides.rs
index 5d533d8..0081042 100644
--- a/crates/weaver_config/src/overrides.rs
+++ b/crates/weaver_config/src/overrides.rs
@@ -12,7 +12,7 @@ use crate::effective::{
     EffectiveDiagnosticConfig, EffectivePolicyConfig, EffectiveRegistryConfig,
     EffectiveResolveConfig,
 };
-use crate::WeaverConfig;
+use crate::{ConfigError, WeaverConfig};
 
 /// The unified result of loading all configuration for a command.
 ///
@@ -56,7 +56,11 @@ pub trait CliOverrides {
     const SUBCOMMAND: &'static str;
 
     /// Extract the relevant section from a loaded `WeaverConfig`.
-    fn extract_config(weaver_config: &WeaverConfig) -> Self::Config;
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the section is invalid.
+    fn extract_config(weaver_config: &WeaverConfig) -> Result<Self::Config, ConfigError>;
 
     /// Apply CLI arg overrides onto the config. Only `Some` values overwrite.
     fn apply_overrides(&self, config: &mut Self::Config);
diff --git a/crates/weaver_macros/src/weaver_command.rs b/crates/weaver_macros/src/weaver_command.rs
index cc73d65..f69bcc1 100644
--- a/crates/weaver_macros/src/weaver_command.rs
+++ b/crates/weaver_macros/src/weaver_command.rs
@@ -654,8 +654,10 @@ fn gen_cli_overrides_impl(
             type Config = #config_ty;
             const SUBCOMMAND: &'static str = #section_lit;
 
-            fn extract_config(wc: &::weaver_config::WeaverConfig) -> #config_ty {
-                wc.command_config(#section_lit)
+            fn extract_config(
+                wc: &::weaver_config::WeaverConfig,
+            ) -> Result<#config_ty, ::weaver_config::ConfigError> {
+                wc.try_command_config(#section_lit)
             }
 
             #excluded
diff --git a/src/registry/check.rs b/src/registry/check.rs
index d575ee1..1a81bb1 100644
--- a/src/registry/check.rs
+++ b/src/registry/check.rs
@@ -44,7 +44,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let mut diag_msgs = DiagnosticMessages::empty();
     info!("Weaver Registry Check");
     info!("Checking registry `{}`", cmd_config.registry.registry);
diff --git a/src/registry/diff.rs b/src/registry/diff.rs
index 865c2a0..0fffd4d 100644
--- a/src/registry/diff.rs
+++ b/src/registry/diff.rs
@@ -62,7 +62,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let mut diag_msgs = DiagnosticMessages::empty();
     let weaver = WeaverEngine::new(
         &cmd_config.registry,
diff --git a/src/registry/emit.rs b/src/registry/emit.rs
index 7a0f6ba..179d9d3 100644
--- a/src/registry/emit.rs
+++ b/src/registry/emit.rs
@@ -52,7 +52,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     info!("Weaver Registry Emit");
     info!("Resolving registry `{}`", cmd_config.registry.registry);
 
diff --git a/src/registry/generate.rs b/src/registry/generate.rs
index f8ee0a8..b8024b6 100644
--- a/src/registry/generate.rs
+++ b/src/registry/generate.rs
@@ -96,7 +96,7 @@ pub(crate) fn command(
     cfg: Option<&ProjectWeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     info!(
         "Generating artifacts for the registry `{}`",
         cmd_config.registry.registry
diff --git a/src/registry/infer.rs b/src/registry/infer.rs
index 241338a..3ad6c93 100644
--- a/src/registry/infer.rs
+++ b/src/registry/infer.rs
@@ -180,7 +180,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     _auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let config = cmd_config.config;
     log::warn!(
         "The `registry infer` command is experimental and not yet stable. \
diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 991b79a..3b56155 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -236,7 +236,7 @@ pub(crate) fn command(
 ) -> Result<ExitDirectives, DiagnosticMessages> {
     let mut exit_code = 0;
 
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let config = cmd_config.config;
     let registry_args = cmd_config.registry;
     let policy_args = cmd_config.policy;
diff --git a/src/registry/mcp.rs b/src/registry/mcp.rs
index 0d5c6f2..c57cd66 100644
--- a/src/registry/mcp.rs
+++ b/src/registry/mcp.rs
@@ -62,7 +62,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     info!("Loading semantic convention registry for MCP server");
 
     let mut diag_msgs = DiagnosticMessages::empty();
diff --git a/src/registry/mod.rs b/src/registry/mod.rs
index 4e1852d..b2f3dd6 100644
--- a/src/registry/mod.rs
+++ b/src/registry/mod.rs
@@ -330,14 +330,19 @@ pub fn resolve_weaver_config(
 ///
 /// Returns a [`CommandConfig`] with command-specific config plus effective registry,
 /// policy, and diagnostic settings. The `.weaver.toml` has already been loaded by
-/// the dispatcher (via the global `--config` flag or discovery), so this is infallible.
+/// the dispatcher (via the global `--config` flag or discovery), so this only fails if
+/// the section of the command is invalid.
 pub fn load_config<A: CliOverrides>(
     args: &A,
     weaver_config: Option<&weaver_config::WeaverConfig>,
-) -> CommandConfig<A::Config> {
+) -> Result<CommandConfig<A::Config>, DiagnosticMessages> {
     // Command-specific config section
     let mut config = match weaver_config {
-        Some(wc) => A::extract_config(wc),
+        Some(wc) => A::extract_config(wc).map_err(|e| {
+            DiagnosticMessages::from(Error::Config {
+                error: e.to_string(),
+            })
+        })?,
         None => A::Config::default(),
     };
     args.apply_overrides(&mut config);
@@ -367,12 +372,12 @@ pub fn load_config<A: CliOverrides>(
         resolve.layer_config(&wc.resolve);
     }
 
-    CommandConfig {
+    Ok(CommandConfig {
         config,
         registry,
         policy,
         resolve,
-    }
+    })
 }
 
 /// Merge the project-level `[template]` settings from `.weaver.toml` into a
diff --git a/src/registry/package.rs b/src/registry/package.rs
index 0843fbe..0a879ac 100644
--- a/src/registry/package.rs
+++ b/src/registry/package.rs
@@ -76,7 +76,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let output = cmd_config.config.output;
     if std::env::args()
         .any(|a| a == "--resolved-schema-uri" || a.starts_with("--resolved-schema-uri="))
diff --git a/src/registry/stats.rs b/src/registry/stats.rs
index ae815b2..517aca0 100644
--- a/src/registry/stats.rs
+++ b/src/registry/stats.rs
@@ -66,7 +66,7 @@ pub(crate) fn command(
     cfg: Option<&WeaverConfig>,
     auth: &HttpAuthResolver,
 ) -> Result<ExitDirectives, DiagnosticMessages> {
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     info!("Weaver Registry Stats");
     info!(
         "Computing stats for registry `{}`",
diff --git a/src/registry/update_markdown.rs b/src/registry/update_markdown.rs
index 12c7c0e..1ec0aba 100644
--- a/src/registry/update_markdown.rs
+++ b/src/registry/update_markdown.rs
@@ -103,7 +103,7 @@ pub(crate) fn command(
         path.is_file() && extension == "md"
     }
 
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     let config = cmd_config.config;
 
     let markdown_dir = config.markdown_dir.ok_or_else(|| {
diff --git a/src/serve/mod.rs b/src/serve/mod.rs
index 7a416a4..ac83274 100644
--- a/src/serve/mod.rs
+++ b/src/serve/mod.rs
@@ -74,7 +74,7 @@ fn run_serve(
     // a new registry, and then the server would update its internal state to use the new registry.
     // A UI could be built to allow selecting a registry file, or specifying a git repo/branch.
 
-    let cmd_config = load_config(args, cfg);
+    let cmd_config = load_config(args, cfg)?;
     info!("Loading registry from `{}`", cmd_config.registry.registry);
 
     let mut diag_msgs = DiagnosticMessages::empty();
-- 
2.43.0


From 0b21ebf38a8f6d50ea765681b9122dc58c2b376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 38/56] fix: write registry statistics in a reproducible order

---
 crates/weaver_resolved_schema/src/catalog.rs  |  4 +--
 crates/weaver_resolved_schema/src/registry.rs | 24 ++++++++--------
 .../weaver_resolved_schema/src/v2/registry.rs | 28 +++++++++----------
 crates/weaver_resolved_schema/src/v2/stats.rs | 20 ++++++-------
 crates/weaver_semconv/src/group.rs            | 12 ++++++--
 5 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/catalog.rs b/crates/weaver_resolved_schema/src/catalog.rs
index c05cbbe..e46308b 100644
--- a/crates/weaver_resolved_schema/src/catalog.rs
+++ b/crates/weaver_resolved_schema/src/catalog.rs
@@ -52,7 +52,7 @@ pub struct Stats {
     /// Breakdown of requirement levels.
     pub requirement_level_breakdown: BTreeMap<String, usize>,
     /// Breakdown of stability levels.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated attributes.
     pub deprecated_count: usize,
 }
@@ -149,7 +149,7 @@ impl Catalog {
                 .iter()
                 .filter_map(|attr| attr.stability.as_ref())
                 .map(|stability| (stability.clone(), 1))
-                .fold(HashMap::new(), |mut acc, (k, v)| {
+                .fold(BTreeMap::new(), |mut acc, (k, v)| {
                     *acc.entry(k).or_insert(0) += v;
                     acc
                 }),
diff --git a/crates/weaver_resolved_schema/src/registry.rs b/crates/weaver_resolved_schema/src/registry.rs
index c3f2030..278e8de 100644
--- a/crates/weaver_resolved_schema/src/registry.rs
+++ b/crates/weaver_resolved_schema/src/registry.rs
@@ -5,7 +5,7 @@
 //! A semantic convention registry.
 
 use schemars::JsonSchema;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 use weaver_semconv::any_value::AnyValueSpec;
 
 use crate::attribute::{Attribute, AttributeRef};
@@ -72,7 +72,7 @@ pub struct Stats {
     /// Total number of groups.
     pub group_count: usize,
     /// Breakdown of group statistics by type.
-    pub group_breakdown: HashMap<GroupType, GroupStats>,
+    pub group_breakdown: BTreeMap<GroupType, GroupStats>,
 }
 
 /// Group specification.
@@ -251,7 +251,7 @@ pub struct CommonGroupStats {
     /// Total number of groups with a note.
     pub total_with_note: usize,
     /// Stability breakdown.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated groups.
     pub deprecated_count: usize,
     /// Attribute cardinality breakdown.
@@ -271,11 +271,11 @@ pub enum GroupStats {
         /// Common statistics for this type of group.
         common_stats: CommonGroupStats,
         /// Metric names.
-        metric_names: HashSet<String>,
+        metric_names: BTreeSet<String>,
         /// Instrument breakdown.
-        instrument_breakdown: HashMap<InstrumentSpec, usize>,
+        instrument_breakdown: BTreeMap<InstrumentSpec, usize>,
         /// Unit breakdown.
-        unit_breakdown: HashMap<String, usize>,
+        unit_breakdown: BTreeMap<String, usize>,
     },
     /// Statistics for a metric group.
     MetricGroup {
@@ -302,7 +302,7 @@ pub enum GroupStats {
         /// Common statistics for this type of group.
         common_stats: CommonGroupStats,
         /// Span kind breakdown.
-        span_kind_breakdown: HashMap<SpanKindSpec, usize>,
+        span_kind_breakdown: BTreeMap<SpanKindSpec, usize>,
     },
     /// Statistics for an undefined group.
     Undefined {
@@ -359,7 +359,7 @@ impl Registry {
         Stats {
             url: self.registry_url.clone(),
             group_count: self.groups.len(),
-            group_breakdown: self.groups.iter().fold(HashMap::new(), |mut acc, group| {
+            group_breakdown: self.groups.iter().fold(BTreeMap::new(), |mut acc, group| {
                 let group_type = group.r#type.clone();
 
                 // Ensure we have an initialized entry
@@ -371,9 +371,9 @@ impl Registry {
                         },
                         GroupType::Metric => Metric {
                             common_stats: CommonGroupStats::default(),
-                            metric_names: HashSet::new(),
-                            instrument_breakdown: HashMap::new(),
-                            unit_breakdown: HashMap::new(),
+                            metric_names: BTreeSet::new(),
+                            instrument_breakdown: BTreeMap::new(),
+                            unit_breakdown: BTreeMap::new(),
                         },
                         GroupType::MetricGroup => MetricGroup {
                             common_stats: CommonGroupStats::default(),
@@ -389,7 +389,7 @@ impl Registry {
                         },
                         GroupType::Span => Span {
                             common_stats: CommonGroupStats::default(),
-                            span_kind_breakdown: HashMap::new(),
+                            span_kind_breakdown: BTreeMap::new(),
                         },
                         GroupType::Undefined => Undefined {
                             common_stats: CommonGroupStats::default(),
diff --git a/crates/weaver_resolved_schema/src/v2/registry.rs b/crates/weaver_resolved_schema/src/v2/registry.rs
index 6b6a100..a475f9e 100644
--- a/crates/weaver_resolved_schema/src/v2/registry.rs
+++ b/crates/weaver_resolved_schema/src/v2/registry.rs
@@ -1,6 +1,6 @@
 //! A semantic convention registry.
 
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
@@ -55,7 +55,7 @@ impl Registry {
     pub fn stats<T: AttributeCatalog>(&self, catalog: &T) -> RegistryStats {
         let attributes = {
             let mut attribute_type_breakdown = BTreeMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             for attribute in self
                 .attributes
@@ -87,12 +87,12 @@ impl Registry {
         };
 
         let metrics = {
-            let mut stability_breakdown = HashMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
-            let mut metric_names = HashSet::new();
-            let mut instrument_breakdown = HashMap::new();
-            let mut unit_breakdown = HashMap::new();
+            let mut metric_names = BTreeSet::new();
+            let mut instrument_breakdown = BTreeMap::new();
+            let mut unit_breakdown = BTreeMap::new();
             for metric in &self.metrics {
                 if metric.common.deprecated.is_some() {
                     deprecated_count += 1;
@@ -124,8 +124,8 @@ impl Registry {
         };
 
         let spans = {
-            let mut span_kind_breakdown = HashMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut span_kind_breakdown = BTreeMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for span in &self.spans {
@@ -152,8 +152,8 @@ impl Registry {
         };
 
         let events = {
-            let mut event_names = HashSet::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut event_names = BTreeSet::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for event in &self.events {
@@ -180,9 +180,9 @@ impl Registry {
         };
 
         let entities = {
-            let mut entity_types = HashSet::new();
-            let mut entity_identity_length_distribution = HashMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut entity_types = BTreeSet::new();
+            let mut entity_identity_length_distribution = BTreeMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for entity in &self.entities {
@@ -213,7 +213,7 @@ impl Registry {
         };
 
         let attribute_groups = {
-            let mut stability_breakdown = HashMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for group in &self.attribute_groups {
diff --git a/crates/weaver_resolved_schema/src/v2/stats.rs b/crates/weaver_resolved_schema/src/v2/stats.rs
index 78a876d..866e447 100644
--- a/crates/weaver_resolved_schema/src/v2/stats.rs
+++ b/crates/weaver_resolved_schema/src/v2/stats.rs
@@ -1,6 +1,6 @@
 //! Version 2 of semantic convention schema stats
 
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use serde::Serialize;
 use weaver_semconv::{
@@ -44,7 +44,7 @@ pub struct AttributeStats {
     /// Breakdown of attribute types.
     pub attribute_type_breakdown: BTreeMap<String, usize>,
     /// Breakdown of stability levels.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated attributes.
     pub deprecated_count: usize,
 }
@@ -54,7 +54,7 @@ pub struct CommonSignalStats {
     /// Number of instances in this type of group.
     pub count: usize,
     /// Stability breakdown.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated signals.
     pub deprecated_count: usize,
     /// Total number of groups with a note.
@@ -74,11 +74,11 @@ pub struct MetricStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Metric names.
-    pub metric_names: HashSet<String>,
+    pub metric_names: BTreeSet<String>,
     /// Instrument breakdown.
-    pub instrument_breakdown: HashMap<InstrumentSpec, usize>,
+    pub instrument_breakdown: BTreeMap<InstrumentSpec, usize>,
     /// Unit breakdown.
-    pub unit_breakdown: HashMap<String, usize>,
+    pub unit_breakdown: BTreeMap<String, usize>,
 }
 
 /// Statistics about Spans.
@@ -87,7 +87,7 @@ pub struct SpanStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Span kind breakdown.
-    pub span_kind_breakdown: HashMap<SpanKindSpec, usize>,
+    pub span_kind_breakdown: BTreeMap<SpanKindSpec, usize>,
 }
 
 /// Statistics about events.
@@ -96,7 +96,7 @@ pub struct EventStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Event names.
-    pub event_names: HashSet<String>,
+    pub event_names: BTreeSet<String>,
 }
 
 /// Statistics about entities.
@@ -105,10 +105,10 @@ pub struct EntityStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Entity types.
-    pub entity_types: HashSet<String>,
+    pub entity_types: BTreeSet<String>,
     /// A map of the "length" of identity (number of attributes)
     /// to the number of entities with that length.
-    pub entity_identity_length_distribution: HashMap<usize, usize>,
+    pub entity_identity_length_distribution: BTreeMap<usize, usize>,
 }
 
 /// Statistics about V2 refinements.
diff --git a/crates/weaver_semconv/src/group.rs b/crates/weaver_semconv/src/group.rs
index 0fa62f6..604217c 100644
--- a/crates/weaver_semconv/src/group.rs
+++ b/crates/weaver_semconv/src/group.rs
@@ -632,7 +632,9 @@ fn validate_any_value(
 /// The different types of groups: `attribute_group`, `span`, `event`, `metric`, `entity`, `scope`.
 ///
 /// Note: The `resource` type is no longer used and is an alias for `entity`.
-#[derive(Serialize, Deserialize, Debug, Eq, PartialEq, Hash, Clone, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Eq, PartialEq, Hash, PartialOrd, Ord, Clone, JsonSchema,
+)]
 #[serde(rename_all = "snake_case")]
 pub enum GroupType {
     /// Attribute group (attribute_group type) defines a set of attributes that
@@ -683,7 +685,9 @@ impl Display for GroupType {
 }
 
 /// The span kind.
-#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, JsonSchema,
+)]
 #[cfg_attr(feature = "openapi", derive(utoipa::ToSchema))]
 #[serde(rename_all = "snake_case")]
 pub enum SpanKindSpec {
@@ -700,7 +704,9 @@ pub enum SpanKindSpec {
 }
 
 /// The type of the metric.
-#[derive(Serialize, Deserialize, Debug, Clone, Eq, PartialEq, Hash, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Clone, Eq, PartialEq, Hash, PartialOrd, Ord, JsonSchema,
+)]
 #[cfg_attr(feature = "openapi", derive(utoipa::ToSchema))]
 #[serde(rename_all = "snake_case")]
 pub enum InstrumentSpec {
-- 
2.43.0


From e7ac1a15f407d860454b8e6d240b2a34bfb5e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 39/56] fix: write live-check statistics in a reproducible
 order

---
 crates/weaver_live_check/src/stats.rs | 52 +++++++++++++--------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/crates/weaver_live_check/src/stats.rs b/crates/weaver_live_check/src/stats.rs
index 06bb8fa..9478a5f 100644
--- a/crates/weaver_live_check/src/stats.rs
+++ b/crates/weaver_live_check/src/stats.rs
@@ -7,7 +7,7 @@
 //! - `Disabled`: No-op mode for long-running sessions to prevent memory growth
 
 use serde::Serialize;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::{FindingLevel, LiveCheckResult, PolicyFinding, VersionedRegistry};
 use weaver_semconv::group::GroupType;
@@ -18,31 +18,31 @@ pub struct CumulativeStatistics {
     /// The total number of sample entities
     pub(crate) total_entities: usize,
     /// The total number of sample entities by type
-    pub(crate) total_entities_by_type: HashMap<String, usize>,
+    pub(crate) total_entities_by_type: BTreeMap<String, usize>,
     /// The total number of advisories
     pub(crate) total_advisories: usize,
     /// The number of each advice level
-    pub(crate) advice_level_counts: HashMap<FindingLevel, usize>,
+    pub(crate) advice_level_counts: BTreeMap<FindingLevel, usize>,
     /// The number of entities with each highest advice level
-    pub(crate) highest_advice_level_counts: HashMap<FindingLevel, usize>,
+    pub(crate) highest_advice_level_counts: BTreeMap<FindingLevel, usize>,
     /// The number of entities with no advice
     pub(crate) no_advice_count: usize,
     /// The number of entities with each advice type
-    pub(crate) advice_type_counts: HashMap<String, usize>,
+    pub(crate) advice_type_counts: BTreeMap<String, usize>,
     /// The number of entities with each advice message
-    pub(crate) advice_message_counts: HashMap<String, usize>,
+    pub(crate) advice_message_counts: BTreeMap<String, usize>,
     /// The number of each attribute seen from the registry
-    pub(crate) seen_registry_attributes: HashMap<String, usize>,
+    pub(crate) seen_registry_attributes: BTreeMap<String, usize>,
     /// The number of each non-registry attribute seen
-    pub(crate) seen_non_registry_attributes: HashMap<String, usize>,
+    pub(crate) seen_non_registry_attributes: BTreeMap<String, usize>,
     /// The number of each metric seen from the registry
-    pub(crate) seen_registry_metrics: HashMap<String, usize>,
+    pub(crate) seen_registry_metrics: BTreeMap<String, usize>,
     /// The number of each non-registry metric seen
-    pub(crate) seen_non_registry_metrics: HashMap<String, usize>,
+    pub(crate) seen_non_registry_metrics: BTreeMap<String, usize>,
     /// The number of each event seen from the registry
-    pub(crate) seen_registry_events: HashMap<String, usize>,
+    pub(crate) seen_registry_events: BTreeMap<String, usize>,
     /// The number of each non-registry event seen
-    pub(crate) seen_non_registry_events: HashMap<String, usize>,
+    pub(crate) seen_non_registry_events: BTreeMap<String, usize>,
     /// Fraction of the registry covered by the attributes, metrics, and events
     pub(crate) registry_coverage: f32,
 }
@@ -55,19 +55,19 @@ impl CumulativeStatistics {
 
         CumulativeStatistics {
             total_entities: 0,
-            total_entities_by_type: HashMap::new(),
+            total_entities_by_type: BTreeMap::new(),
             total_advisories: 0,
-            advice_level_counts: HashMap::new(),
-            highest_advice_level_counts: HashMap::new(),
+            advice_level_counts: BTreeMap::new(),
+            highest_advice_level_counts: BTreeMap::new(),
             no_advice_count: 0,
-            advice_type_counts: HashMap::new(),
-            advice_message_counts: HashMap::new(),
+            advice_type_counts: BTreeMap::new(),
+            advice_message_counts: BTreeMap::new(),
             seen_registry_attributes: seen_attributes,
-            seen_non_registry_attributes: HashMap::new(),
+            seen_non_registry_attributes: BTreeMap::new(),
             seen_registry_metrics: seen_metrics,
-            seen_non_registry_metrics: HashMap::new(),
+            seen_non_registry_metrics: BTreeMap::new(),
             seen_registry_events: seen_events,
-            seen_non_registry_events: HashMap::new(),
+            seen_non_registry_events: BTreeMap::new(),
             registry_coverage: 0.0,
         }
     }
@@ -76,13 +76,13 @@ impl CumulativeStatistics {
     fn extract_registry_items(
         registry: &VersionedRegistry,
     ) -> (
-        HashMap<String, usize>,
-        HashMap<String, usize>,
-        HashMap<String, usize>,
+        BTreeMap<String, usize>,
+        BTreeMap<String, usize>,
+        BTreeMap<String, usize>,
     ) {
-        let mut seen_attributes = HashMap::new();
-        let mut seen_metrics = HashMap::new();
-        let mut seen_events = HashMap::new();
+        let mut seen_attributes = BTreeMap::new();
+        let mut seen_metrics = BTreeMap::new();
+        let mut seen_events = BTreeMap::new();
 
         match registry {
             VersionedRegistry::V1(reg) => {
-- 
2.43.0


From 45ee6f13a47e9a45d47c109388493ff620acb7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:49 +0000
Subject: [PATCH 40/56] fix: load an overridden dependency from its override
 only

---
 crates/weaver_resolver/src/lib.rs    | 21 +---------
 crates/weaver_resolver/src/loader.rs | 60 +++++++++++++++++++++++++---
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index 8b4451b..79c12c7 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -175,6 +175,7 @@ impl WeaverResolver {
             Some(&self.cache),
             registry_repo,
             self.config.follow_symlinks,
+            &self.config.schema_url_overrides,
             &self.config.auth,
         )
     }
@@ -211,26 +212,6 @@ impl WeaverResolver {
             }
         }
 
-        let loaded = if let Some(override_path) = self.config.schema_url_overrides.get(&schema_url)
-        {
-            let mut nfes = vec![];
-            match RegistryRepo::try_new_with_auth(
-                Some(schema_url.clone()),
-                override_path,
-                &mut nfes,
-                &self.config.auth,
-            ) {
-                Ok(repo) => match self.load_repository(repo) {
-                    WResult::Ok(l) => l,
-                    WResult::OkWithNFEs(l, _) => l,
-                    WResult::FatalErr(e) => return WResult::FatalErr(e),
-                },
-                Err(e) => return WResult::FatalErr(Error::FailToResolveDefinition(e)),
-            }
-        } else {
-            loaded
-        };
-
         match self.resolve_loaded(loaded) {
             WResult::Ok(arc) => match &*arc {
                 WeaverResolvedSchema::V1(s) => WResult::Ok(s.clone().into()),
diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index 1518f4f..4810945 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -21,6 +21,9 @@ use weaver_semconv::{group::ImportsWithProvenance, semconv::SemConvSpecWithProve
 use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
 use crate::Error;
 
+/// Locations to load dependencies from, by schema URL, instead of their default location.
+type SchemaUrlOverrides = std::collections::BTreeMap<SchemaUrl, VirtualDirectoryPath>;
+
 /// Maximum allowed depth for registry dependency chains.
 const MAX_DEPENDENCY_DEPTH: u32 = 10;
 
@@ -169,13 +172,20 @@ pub(crate) fn load_semconv_repository(
     follow_symlinks: bool,
     auth: &HttpAuthResolver,
 ) -> WResult<LoadedSemconvRegistry, Error> {
-    load_semconv_repository_with_cache(None, registry_repo, follow_symlinks, auth)
+    load_semconv_repository_with_cache(
+        None,
+        registry_repo,
+        follow_symlinks,
+        &SchemaUrlOverrides::new(),
+        auth,
+    )
 }
 
 pub(crate) fn load_semconv_repository_with_cache(
     cache: Option<&lru::LruCache<SchemaUrl, std::sync::Arc<crate::WeaverResolvedSchema>>>,
     registry_repo: RegistryRepo,
     follow_symlinks: bool,
+    schema_url_overrides: &SchemaUrlOverrides,
     auth: &HttpAuthResolver,
 ) -> WResult<LoadedSemconvRegistry, Error> {
     // This method simply sets up the resolution state and delegates to the actual work.
@@ -191,10 +201,11 @@ pub(crate) fn load_semconv_repository_with_cache(
         }
     }
 
-    let mut result = load_semconv_repository_recursive(
+    let mut result = load_semconv_repository_with_overrides(
         cache,
         registry_repo,
         follow_symlinks,
+        schema_url_overrides,
         MAX_DEPENDENCY_DEPTH,
         &mut visited_registries,
         &mut chosen_versions,
@@ -229,12 +240,41 @@ pub(crate) fn find_pre_resolved(
     cache.peek(schema_url).cloned()
 }
 
+/// Recursively iterates over semconv dependencies and loads their definition,
+/// each one from its default location.
+#[cfg(test)]
+fn load_semconv_repository_recursive(
+    cache: Option<&lru::LruCache<SchemaUrl, std::sync::Arc<crate::WeaverResolvedSchema>>>,
+    registry_repo: RegistryRepo,
+    follow_symlinks: bool,
+    max_dependency_depth: u32,
+    visited_registries: &mut std::collections::HashSet<String>,
+    chosen_versions: &mut std::collections::HashMap<String, SchemaUrl>,
+    dependency_chain: &mut Vec<String>,
+    auth: &HttpAuthResolver,
+) -> WResult<LoadedSemconvRegistry, Error> {
+    load_semconv_repository_with_overrides(
+        cache,
+        registry_repo,
+        follow_symlinks,
+        &SchemaUrlOverrides::new(),
+        max_dependency_depth,
+        visited_registries,
+        chosen_versions,
+        dependency_chain,
+        auth,
+    )
+}
+
 /// Recursively iterates over semconv dependencies and loads their definition.
+/// A dependency whose schema URL is overridden is loaded from the override only.
 /// Note: Prevents circular dependencies.
-fn load_semconv_repository_recursive(
+#[allow(clippy::too_many_arguments)]
+fn load_semconv_repository_with_overrides(
     cache: Option<&lru::LruCache<SchemaUrl, std::sync::Arc<crate::WeaverResolvedSchema>>>,
     registry_repo: RegistryRepo,
     follow_symlinks: bool,
+    schema_url_overrides: &SchemaUrlOverrides,
     max_dependency_depth: u32,
     visited_registries: &mut std::collections::HashSet<String>,
     chosen_versions: &mut std::collections::HashMap<String, SchemaUrl>,
@@ -338,15 +378,25 @@ fn load_semconv_repository_recursive(
                     let _ = seen_dependencies.insert(dep_name, d);
                 }
                 let mut semconv_nfes: Vec<weaver_semconv::Error> = vec![];
-                match RegistryRepo::try_new_dependency_with_auth(d, &mut semconv_nfes, auth) {
+                let d_repo = match schema_url_overrides.get(&d.schema_url) {
+                    Some(override_path) => RegistryRepo::try_new_with_auth(
+                        Some(d.schema_url.clone()),
+                        override_path,
+                        &mut semconv_nfes,
+                        auth,
+                    ),
+                    None => RegistryRepo::try_new_dependency_with_auth(d, &mut semconv_nfes, auth),
+                };
+                match d_repo {
                     Ok(d_repo) => {
                         non_fatal_errors
                             .extend(semconv_nfes.into_iter().map(Error::FailToResolveDefinition));
                         // so we need to make sure the dependency chain only include direct dependencies of each other.
-                        match load_semconv_repository_recursive(
+                        match load_semconv_repository_with_overrides(
                             cache,
                             d_repo,
                             follow_symlinks,
+                            schema_url_overrides,
                             max_dependency_depth - 1,
                             visited_registries,
                             chosen_versions,
-- 
2.43.0


From b9572c5205f73058b40896fd2a7e313033327b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 41/56] fix: do not panic on comments narrower than their
 indent and prefix

---
 crates/weaver_forge/src/extensions/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/code.rs b/crates/weaver_forge/src/extensions/code.rs
index f7fff69..d5d9806 100644
--- a/crates/weaver_forge/src/extensions/code.rs
+++ b/crates/weaver_forge/src/extensions/code.rs
@@ -157,7 +157,7 @@ pub(crate) fn comment(
 
             // TODO - reduce line limit by tabs.
             let actual_length_limit =
-                line_length_limit.map(|limit| limit - (indent.len() + prefix.len()));
+                line_length_limit.map(|limit| limit.saturating_sub(indent.len() + prefix.len()));
             comment = match &comment_format.format {
                 RenderFormat::Markdown(..) => markdown_snippet_renderer
                     .render(&comment, &comment_format_name, actual_length_limit)
-- 
2.43.0


From 3ef85431d63a6690d82d7e21b3a3a5fe976d016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 42/56] fix: replace non-ASCII letters in sanitized Prometheus
 names everywhere

---
 crates/weaver_forge/src/extensions/prom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/extensions/prom.rs b/crates/weaver_forge/src/extensions/prom.rs
index 18edcc1..8841472 100644
--- a/crates/weaver_forge/src/extensions/prom.rs
+++ b/crates/weaver_forge/src/extensions/prom.rs
@@ -226,7 +226,7 @@ pub(crate) fn sanitize_name<'a>(s: &Cow<'a, str>) -> Cow<'a, str> {
             true
         } else {
             // keep checking
-            !c.is_alphanumeric() && *c != '_' && *c != ':'
+            !c.is_ascii_alphanumeric() && *c != '_' && *c != ':'
         }
     }) {
         // up to `replace_idx` have been validated, convert the rest
-- 
2.43.0


From e2443eb462db732eecd0893293a45d4311eed30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 43/56] fix: accept the documented spelling of comment indent
 types

---
 crates/weaver_forge/src/config.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/weaver_forge/src/config.rs b/crates/weaver_forge/src/config.rs
index 7d6db58..2db3f2f 100644
--- a/crates/weaver_forge/src/config.rs
+++ b/crates/weaver_forge/src/config.rs
@@ -372,11 +372,14 @@ pub struct CommentFormat {
 
 /// The type of indentation to use for the comment.
 #[derive(Deserialize, Serialize, Debug, Clone, Default)]
+#[serde(rename_all = "snake_case")]
 pub enum IndentType {
     /// Use spaces for indentation.
     #[default]
+    #[serde(alias = "Space")]
     Space,
     /// Use tabs for indentation.
+    #[serde(alias = "Tab")]
     Tab,
 }
 
-- 
2.43.0


From 8d3346a5d779e8a2af2b744d74535ff77c042cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 44/56] fix: number the items of nested ordered lists in
 comments independently

---
 crates/weaver_forge/src/formats/markdown.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index adf4301..27316d7 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -54,8 +54,6 @@ struct RenderContext {
     markdown: String,
     // List level
     list_level: usize,
-    // List item number
-    list_item_number: usize,
     // The shortcut reference links.
     shortcut_reference_links: Vec<ShortcutReferenceLink>,
     // The rendering process traverses the AST tree in a depth-first manner.
@@ -79,7 +77,6 @@ impl RenderContext {
         Self {
             markdown: Default::default(),
             list_level: Default::default(),
-            list_item_number: Default::default(),
             shortcut_reference_links: Default::default(),
             leftover_newlines: Default::default(),
             line_prefix: Default::default(),
@@ -372,7 +369,7 @@ impl MarkdownRenderer {
                     format!("{indent}  ")
                 };
                 ctx.add_blank_line();
-                for item in &list.children {
+                for (i, item) in list.children.iter().enumerate() {
                     let leftover_newlines = ctx.take_leftover_newlines();
                     if leftover_newlines > 0 {
                         ctx.set_line_prefix("");
@@ -380,9 +377,8 @@ impl MarkdownRenderer {
                             ctx.add_blank_line();
                         }
                     }
-                    ctx.list_item_number += 1;
                     let line_prefix = if list.ordered {
-                        format!("{}{}. ", indent, ctx.list_item_number)
+                        format!("{}{}. ", indent, i + 1)
                     } else {
                         format!("{indent}- ")
                     };
@@ -394,7 +390,6 @@ impl MarkdownRenderer {
                     ctx.add_leftover_newlines(1);
                 }
                 ctx.list_level -= 1;
-                ctx.list_item_number = 0;
                 ctx.reset_line_prefix();
                 ctx.add_leftover_newlines(1);
             }
-- 
2.43.0


From 0ab4fbcf86020b59c20762d4c99b88ddd34ce768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 45/56] fix: write the quote marker once per line in rendered
 comments

---
 crates/weaver_forge/src/formats/markdown.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index 27316d7..6f75885 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -428,6 +428,10 @@ impl MarkdownRenderer {
             Node::Blockquote(block_quote) => {
                 // Somehow we're getting  end of lines from the block quote.
                 ctx.add_cond_blank_line();
+                // The prefix of the first line is written once, the following
+                // lines get theirs from the line prefix.
+                ctx.add_unbreakable_text("> ");
+                ctx.skip_line_prefix_on_first_line();
                 ctx.set_line_prefix("> ");
                 for child in &block_quote.children {
                     match child {
-- 
2.43.0


From 2c94ce0ef20140c55d4c758b0fe70131f9af19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 46/56] fix: keep words around a hard line break apart in
 rendered comments

---
 crates/weaver_forge/src/formats/html.rs     |  2 +-
 crates/weaver_forge/src/formats/markdown.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_forge/src/formats/html.rs b/crates/weaver_forge/src/formats/html.rs
index 5f1f3b4..82c23a0 100644
--- a/crates/weaver_forge/src/formats/html.rs
+++ b/crates/weaver_forge/src/formats/html.rs
@@ -385,10 +385,10 @@ impl<'source> HtmlRenderer<'source> {
                 }
                 ctx.push_unbroken(&format!("</h{}>\n", heading.depth), indent)?;
             }
+            Node::Break(_) => ctx.pushln(indent)?,
             // Not supported markdown node types.
             Node::Toml(_) => {}
             Node::Yaml(_) => {}
-            Node::Break(_) => {}
             Node::Image(_) => {}
             Node::ImageReference(_) => {}
             Node::LinkReference(_) => {}
diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index 6f75885..e6409d5 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -115,6 +115,15 @@ impl RenderContext {
             .write_ln(&mut self.markdown, &self.line_prefix);
     }
 
+    /// Add a line break inside a paragraph.
+    fn add_line_break(&mut self) {
+        if let Some(buf) = self.unbreakable_buffer.as_mut() {
+            buf.push(' ');
+        } else {
+            self.add_blank_line();
+        }
+    }
+
     /// Set the line prefix to add in front of each new line.
     fn set_line_prefix(&mut self, prefix: &str) {
         prefix.clone_into(&mut self.line_prefix);
@@ -505,10 +514,10 @@ impl MarkdownRenderer {
                 ctx.add_blank_line();
                 ctx.add_leftover_newlines(1);
             }
+            Node::Break(_) => ctx.add_line_break(),
             // Not supported markdown node types.
             Node::Toml(_) => {}
             Node::Yaml(_) => {}
-            Node::Break(_) => {}
             Node::Image(_) => {}
             Node::ImageReference(_) => {}
             Node::LinkReference(_) => {}
-- 
2.43.0


From 0a45a2cc8fb1e0c0841fe64dc3bf4bc03e304884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 47/56] fix: keep the blocks of a list item or quote apart in
 rendered comments

---
 crates/weaver_forge/src/formats/html.rs     | 12 ++++++++-
 crates/weaver_forge/src/formats/markdown.rs | 27 ++++++++++++++++++---
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_forge/src/formats/html.rs b/crates/weaver_forge/src/formats/html.rs
index 82c23a0..dbc9dc9 100644
--- a/crates/weaver_forge/src/formats/html.rs
+++ b/crates/weaver_forge/src/formats/html.rs
@@ -309,12 +309,22 @@ impl<'source> HtmlRenderer<'source> {
                 }
             }
             Node::ListItem(item) => {
-                for child in &item.children {
+                for (i, child) in item.children.iter().enumerate() {
                     match child {
                         Node::Paragraph(paragraph) => {
+                            if i > 0 {
+                                // Keep the paragraphs of an item apart.
+                                ctx.add_newline = false;
+                                ctx.add_old_style_paragraph = false;
+                                ctx.pushln(indent)?;
+                                ctx.push_unbroken("<p>", indent)?;
+                            }
                             for child in &paragraph.children {
                                 self.write_html_to(ctx, indent, child, format, options)?;
                             }
+                            if i > 0 && !options.old_style_paragraph {
+                                ctx.push_unbroken("</p>", indent)?;
+                            }
                         }
                         _ => {
                             self.write_html_to(ctx, indent, child, format, options)?;
diff --git a/crates/weaver_forge/src/formats/markdown.rs b/crates/weaver_forge/src/formats/markdown.rs
index e6409d5..4ed0784 100644
--- a/crates/weaver_forge/src/formats/markdown.rs
+++ b/crates/weaver_forge/src/formats/markdown.rs
@@ -124,6 +124,12 @@ impl RenderContext {
         }
     }
 
+    /// Separate two blocks of the same container (e.g. paragraphs of a list item).
+    fn add_block_separator(&mut self) {
+        self.add_blank_line();
+        self.add_blank_line();
+    }
+
     /// Set the line prefix to add in front of each new line.
     fn set_line_prefix(&mut self, prefix: &str) {
         prefix.clone_into(&mut self.line_prefix);
@@ -403,14 +409,20 @@ impl MarkdownRenderer {
                 ctx.add_leftover_newlines(1);
             }
             Node::ListItem(item) => {
-                for child in &item.children {
+                for (i, child) in item.children.iter().enumerate() {
                     match child {
                         Node::Paragraph(paragraph) => {
+                            if i > 0 {
+                                ctx.add_block_separator();
+                            }
                             for child in &paragraph.children {
                                 Self::write_markdown_to(ctx, indent, child, options)?;
                             }
                         }
                         _ => {
+                            if i > 0 && matches!(child, Node::Code(_)) {
+                                ctx.add_block_separator();
+                            }
                             Self::write_markdown_to(ctx, indent, child, options)?;
                         }
                     }
@@ -431,7 +443,10 @@ impl MarkdownRenderer {
                     .or(options.default_block_code_language.as_deref())
                     .unwrap_or("");
 
-                ctx.add_unbreakable_text(&format!("```{}\n{}\n```", lang, code.value));
+                // Every line of the block belongs to the enclosing list item or quote.
+                let block = format!("```{}\n{}\n```", lang, code.value)
+                    .replace('\n', &format!("\n{}", ctx.line_prefix));
+                ctx.add_unbreakable_text(&block);
                 ctx.add_blank_line();
             }
             Node::Blockquote(block_quote) => {
@@ -442,14 +457,20 @@ impl MarkdownRenderer {
                 ctx.add_unbreakable_text("> ");
                 ctx.skip_line_prefix_on_first_line();
                 ctx.set_line_prefix("> ");
-                for child in &block_quote.children {
+                for (i, child) in block_quote.children.iter().enumerate() {
                     match child {
                         Node::Paragraph(paragraph) => {
+                            if i > 0 {
+                                ctx.add_block_separator();
+                            }
                             for child in &paragraph.children {
                                 Self::write_markdown_to(ctx, indent, child, options)?;
                             }
                         }
                         _ => {
+                            if i > 0 && matches!(child, Node::Code(_)) {
+                                ctx.add_block_separator();
+                            }
                             Self::write_markdown_to(ctx, indent, child, options)?;
                         }
                     }
-- 
2.43.0


From 1283f055d737add4ad5ea86e3f881b3f6fc08566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 48/56] fix: report internal attribute groups that share an id

---
 crates/weaver_resolver/src/registry.rs | 32 ++++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..df0f011 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -175,17 +175,10 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
 
     // Now we do validations.
 
-    // Note: this will remove all the `groups` from UnresolvedRegistry and create
-    // a complete `Registry` that is returned.
-    //
-    // This will also "taint" that attribute catalog so it cannot be used for creating new attribute refs.
-    let result = cleanup_and_stabilize_catalog_and_registry(attr_catalog, ureg);
-    let attr_name_index = attr_catalog.attribute_name_index();
-
-    // Other complementary checks.
-    // Check for duplicate group IDs.
+    // Check for duplicate group IDs. The internal groups take part in the
+    // resolution but not in its result, so this comes before the cleanup.
     check_uniqueness(
-        &result,
+        ureg.groups.iter().map(|g| &g.group),
         &mut errors,
         |group| Some(group.id.clone()),
         |group_id, provenances| DuplicateGroupId {
@@ -193,9 +186,18 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
             provenances,
         },
     );
+
+    // Note: this will remove all the `groups` from UnresolvedRegistry and create
+    // a complete `Registry` that is returned.
+    //
+    // This will also "taint" that attribute catalog so it cannot be used for creating new attribute refs.
+    let result = cleanup_and_stabilize_catalog_and_registry(attr_catalog, ureg);
+    let attr_name_index = attr_catalog.attribute_name_index();
+
+    // Other complementary checks.
     // Check for duplicate metric names.
     check_uniqueness(
-        &result,
+        &result.groups,
         &mut errors,
         |group| {
             // Ignore refinement duplicates, as they namespace differently.
@@ -212,7 +214,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
     );
     // Check for duplicate group names.
     check_uniqueness(
-        &result,
+        &result.groups,
         &mut errors,
         |group| {
             // Ignore refinement duplicates, as they namespace differently.
@@ -276,8 +278,8 @@ fn check_v2_signal_id_collisions(registry: &Registry, errors: &mut Vec<Error>) {
 ///
 /// A key can be a group ID, a metric name, an event name, or any other key that is used
 /// to identify a group.
-fn check_uniqueness<K, KF, EF>(
-    registry: &Registry,
+fn check_uniqueness<'a, K, KF, EF>(
+    groups: impl IntoIterator<Item = &'a Group>,
     errors: &mut Vec<Error>,
     key_fn: KF,
     error_fn: EF,
@@ -288,7 +290,7 @@ fn check_uniqueness<K, KF, EF>(
 {
     let mut keys: HashMap<K, Vec<Provenance>> = HashMap::new();
 
-    for group in registry.groups.iter() {
+    for group in groups {
         if let Some(key) = key_fn(group) {
             let provenances = keys.entry(key).or_default();
             if let Some(p) = group.provenance() {
-- 
2.43.0


From a50537db5fe1826c5265bf420ab426b9775f3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 49/56] fix: settle that /stop answers with the report before
 the receiver accepts requests

---
 src/registry/live_check.rs         |  4 +---
 src/registry/otlp/mod.rs           | 14 ++++++++++++++
 src/registry/otlp/otlp_ingester.rs |  7 +++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 3b56155..2cc4529 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -330,11 +330,9 @@ pub(crate) fn command(
                 otlp_grpc_port: config.otlp.grpc_port,
                 admin_port: config.otlp.admin_port,
                 inactivity_timeout: config.otlp.inactivity_timeout,
+                expect_report: is_http_output,
             };
             let (iter, coordinator) = otlp.ingest_otlp()?;
-            if is_http_output {
-                coordinator.set_expect_report(true);
-            }
             shutdown_coordinator = Some(coordinator);
             iter
         }
diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 7962910..f5b1873 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -320,6 +320,19 @@ pub fn listen_otlp_requests(
     grpc_port: u16,
     admin_port: u16,
     inactivity_timeout: Duration,
+) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
+    listen_otlp_requests_for_report(grpc_addr, grpc_port, admin_port, inactivity_timeout, false)
+}
+
+/// Same as [`listen_otlp_requests`], where `expect_report` says whether `/stop`
+/// waits for the report. It is settled before the admin server accepts its first
+/// request, so that a `/stop` that comes at once gets the report too.
+pub fn listen_otlp_requests_for_report(
+    grpc_addr: &str,
+    grpc_port: u16,
+    admin_port: u16,
+    inactivity_timeout: Duration,
+    expect_report: bool,
 ) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
     let addr: SocketAddr =
         format!("{grpc_addr}:{grpc_port}")
@@ -342,6 +355,7 @@ pub fn listen_otlp_requests(
     // Create a watch channel for the last activity timestamp
     let (activity_tx, activity_rx) = watch::channel(Instant::now());
     let (coordinator, admin_shutdown_rx) = ShutdownCoordinator::new();
+    coordinator.set_expect_report(expect_report);
     let logs_service = LogsServiceImpl {
         tx: tx.clone(),
         activity_tx: activity_tx.clone(),
diff --git a/src/registry/otlp/otlp_ingester.rs b/src/registry/otlp/otlp_ingester.rs
index 2bfe1b6..77258a6 100644
--- a/src/registry/otlp/otlp_ingester.rs
+++ b/src/registry/otlp/otlp_ingester.rs
@@ -18,7 +18,7 @@ use super::{
         otlp_profile_to_sample, sample_attribute_from_key_value, span_kind_from_otlp_kind,
         status_from_otlp_status,
     },
-    listen_otlp_requests, OtlpRequest, ShutdownCoordinator,
+    listen_otlp_requests_for_report, OtlpRequest, ShutdownCoordinator,
 };
 
 /// An ingester for OTLP data
@@ -31,6 +31,8 @@ pub struct OtlpIngester {
     pub admin_port: u16,
     /// The inactivity timeout
     pub inactivity_timeout: u64,
+    /// Whether `/stop` answers with the report
+    pub expect_report: bool,
 }
 
 /// Iterator for OTLP samples
@@ -282,11 +284,12 @@ impl OtlpIngester {
     pub fn ingest_otlp(
         &self,
     ) -> Result<(Box<dyn Iterator<Item = Sample>>, ShutdownCoordinator), Error> {
-        let (otlp_requests, coordinator) = listen_otlp_requests(
+        let (otlp_requests, coordinator) = listen_otlp_requests_for_report(
             self.otlp_grpc_address.as_str(),
             self.otlp_grpc_port,
             self.admin_port,
             Duration::from_secs(self.inactivity_timeout),
+            self.expect_report,
         )
         .map_err(|e| Error::IngestError {
             error: format!("Failed to listen to OTLP requests: {e}"),
-- 
2.43.0


From 588907dba7aec7c2aa9014208d2a625a7ccd5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 50/56] fix: order the attribute catalog independently of where
 the registry lies

---
 crates/weaver_resolved_schema/src/v2/catalog.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolved_schema/src/v2/catalog.rs b/crates/weaver_resolved_schema/src/v2/catalog.rs
index 45b0d24..853e45a 100644
--- a/crates/weaver_resolved_schema/src/v2/catalog.rs
+++ b/crates/weaver_resolved_schema/src/v2/catalog.rs
@@ -36,8 +36,12 @@ impl Catalog {
     pub(crate) fn from_attributes(mut attributes: Vec<Attribute>) -> Self {
         attributes.sort_by_cached_key(|attr| {
             (attr.key.clone(), {
+                // The provenance is left out: it holds the path the attribute
+                // was read from, and the order must not depend on that.
                 let mut s = DefaultHasher::new();
-                attr.hash(&mut s);
+                attr.r#type.hash(&mut s);
+                attr.examples.hash(&mut s);
+                attr.common.hash(&mut s);
                 s.finish()
             })
         });
-- 
2.43.0


From 7afdf77dcc28ff4a7f39faabb26b81fb4752c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 51/56] fix: keep a group's own overrides when its attribute is
 upgraded to the chosen version

---
 crates/weaver_resolver/src/attribute.rs | 80 +++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index d7207b7..9385c95 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -143,19 +143,41 @@ impl AttributeCatalog {
         cache_lookup: &C,
     ) -> Result<AttributeRef, Error> {
         let attr_name = attr.name.clone();
+        let own_source = source.clone();
         let mut new_attr = AttributeWithSource {
-            attribute: attr,
+            attribute: attr.clone(),
             source,
             is_definition: true,
         };
         // Make sure we pick the attribute from the *correct* version of a transitive dependency.
         new_attr = Self::upgrade_attribute_with_source(new_attr, cache_lookup)?;
 
+        // The upgrade replaces the definition. What this group says about its
+        // own use of the attribute is not part of that definition.
+        let own_attr = if new_attr.source == own_source {
+            attr
+        } else {
+            let previous = match &own_source {
+                AttributeSource::Dependency { schema_url } => {
+                    match cache_lookup.lookup_schema(schema_url) {
+                        Some(schema) => schema.lookup_attribute(&attr_name)?,
+                        None => None,
+                    }
+                }
+                AttributeSource::Local { .. } => None,
+            };
+            rebase_attribute(
+                attr,
+                previous.as_ref().map(|previous| &previous.attribute),
+                &new_attr.attribute,
+            )
+        };
+
         // Return a ref to this group's own copy of the attribute. Different
         // groups may reference the same attribute with different
         // `requirement_level` or `role`, so we must not return a variant
         // registered earlier by another group.
-        let attr_ref = self.attribute_ref(new_attr.attribute.clone());
+        let attr_ref = self.attribute_ref(own_attr);
 
         // Separately, keep `root_attributes` (one entry per attribute name,
         // used for provenance lookups) up to date. If the name was already
@@ -181,6 +203,56 @@ impl AttributeCatalog {
     }
 }
 
+/// Moves a group's copy of an attribute from the definition it was resolved
+/// against to a newer version of that definition.
+///
+/// The requirement level, the sampling relevance and the role belong to the
+/// reference and always stay. The other properties stay where the group
+/// overrides them, which shows in a value that differs from the previous
+/// definition. Without the previous definition there is no telling, and they
+/// follow the newer one.
+fn rebase_attribute(
+    own: attribute::Attribute,
+    previous: Option<&attribute::Attribute>,
+    upgraded: &attribute::Attribute,
+) -> attribute::Attribute {
+    fn rebased<T: PartialEq + Clone>(own: T, previous: Option<&T>, upgraded: &T) -> T {
+        match previous {
+            Some(previous) if own != *previous => own,
+            _ => upgraded.clone(),
+        }
+    }
+    attribute::Attribute {
+        brief: rebased(own.brief, previous.map(|p| &p.brief), &upgraded.brief),
+        examples: rebased(
+            own.examples,
+            previous.map(|p| &p.examples),
+            &upgraded.examples,
+        ),
+        tag: rebased(own.tag, previous.map(|p| &p.tag), &upgraded.tag),
+        note: rebased(own.note, previous.map(|p| &p.note), &upgraded.note),
+        stability: rebased(
+            own.stability,
+            previous.map(|p| &p.stability),
+            &upgraded.stability,
+        ),
+        deprecated: rebased(
+            own.deprecated,
+            previous.map(|p| &p.deprecated),
+            &upgraded.deprecated,
+        ),
+        annotations: rebased(
+            own.annotations,
+            previous.map(|p| &p.annotations),
+            &upgraded.annotations,
+        ),
+        requirement_level: own.requirement_level,
+        sampling_relevant: own.sampling_relevant,
+        role: own.role,
+        ..upgraded.clone()
+    }
+}
+
 /// Resolves conflicts between two attributes based on provenance.
 ///
 /// Note: When an attribute imported from a dependency is referenced in a local group,
@@ -615,9 +687,7 @@ impl AttributeLookup for V1Schema {
                 // referenced), so recover the full schema URL from the
                 // dependency list first and only fall back to the provenance
                 // of an imported group.
-                self.dependencies
-                    .iter()
-                    .find(|url| url.name() == schema_name)
+                SchemaUrl::newest_named(&self.dependencies, schema_name)
                     .cloned()
                     .or_else(|| {
                         self.registry.groups.iter().find_map(|g| {
-- 
2.43.0


From a4b5163f263e65521b892ce87c71a81585055853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 52/56] fix: record the newest version of a registry as where
 its attributes come from

---
 crates/weaver_resolved_schema/src/v2/mod.rs |  3 ++-
 crates/weaver_resolver/src/dependency.rs    |  5 +----
 crates/weaver_semconv/src/schema_url.rs     | 13 +++++++++++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index 0260891..22dd82d 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -392,7 +392,8 @@ pub fn convert_v1_to_v2(
             // workaround for V2 -> V1 -> V2.
             if let Some(dep_name) = source_group_id.strip_prefix("v2_dependency.") {
                 let mut prov = provenance::Provenance::default();
-                if let Some(idx) = deps_list.iter().position(|u| u.name() == dep_name) {
+                let newest = SchemaUrl::newest_named(&deps_list, dep_name);
+                if let Some(idx) = deps_list.iter().position(|u| Some(u) == newest) {
                     prov.source = Some(provenance::DependencyRef(idx as u32));
                 }
                 return prov;
diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index 1e73f22..a466824 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -283,10 +283,7 @@ pub(crate) fn find_attribute_source(
             // `schema` (e.g. only an attribute was referenced), so recover
             // the full schema URL from the dependency list first and only
             // fall back to the provenance of an imported group.
-            schema
-                .dependencies
-                .iter()
-                .find(|url| url.name() == schema_name)
+            SchemaUrl::newest_named(&schema.dependencies, schema_name)
                 .cloned()
                 .or_else(|| {
                     schema.registry.groups.iter().find_map(|g| {
diff --git a/crates/weaver_semconv/src/schema_url.rs b/crates/weaver_semconv/src/schema_url.rs
index d4e6a94..2b8414c 100644
--- a/crates/weaver_semconv/src/schema_url.rs
+++ b/crates/weaver_semconv/src/schema_url.rs
@@ -118,6 +118,19 @@ impl SchemaUrl {
         })
     }
 
+    /// Returns the newest of the schema URLs with the given registry name.
+    ///
+    /// Several versions of one registry can take part in a dependency graph.
+    /// Its newest compatible version is the one that definitions come from.
+    pub fn newest_named<'a>(
+        urls: impl IntoIterator<Item = &'a SchemaUrl>,
+        name: &str,
+    ) -> Option<&'a SchemaUrl> {
+        urls.into_iter()
+            .filter(|url| url.name() == name)
+            .max_by_key(|url| url.semver().ok())
+    }
+
     /// Returns a default unknown schema URL.
     #[must_use]
     pub fn new_unknown() -> Self {
-- 
2.43.0


From 288ffc77f7affe747579951b091dce035eec651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 53/56] fix: keep the entity associations of a group upgraded
 to the chosen version

---
 crates/weaver_resolver/src/imports.rs | 37 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index e9ce59c..c121eac 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -364,7 +364,7 @@ impl ImportableDependency for V1Schema {
                     continue;
                 }
             }
-            let g = if let Some(upgraded) =
+            let (g, association_origins) = if let Some(upgraded) =
                 upgrade_imported_group(g, &my_schema_url, attribute_catalog, cache_lookup)?
             {
                 upgraded
@@ -385,7 +385,8 @@ impl ImportableDependency for V1Schema {
                     )?);
                 }
                 g.attributes = attributes;
-                g
+                let association_origins = v1_association_origins(self, &g);
+                (g, association_origins)
             };
             let mut g_url = my_schema_url.clone();
             if let Some(chosen_url) = cache_lookup.chosen_version(g_url.name()) {
@@ -397,7 +398,6 @@ impl ImportableDependency for V1Schema {
                     }
                 }
             }
-            let association_origins = v1_association_origins(self, &g);
             result.push(GroupWithProvenance {
                 group: g,
                 schema_url: g_url,
@@ -440,7 +440,8 @@ fn import_v1_attribute<C: crate::SchemaCacheLookup>(
 /// version conflict resolution, returns the group's definition from the
 /// chosen registry so its body, lineage, and attributes stay consistent
 /// with the upgraded attribute catalog — mirroring what
-/// `upgrade_attribute_with_source` does for attributes.
+/// `upgrade_attribute_with_source` does for attributes. Where the chosen
+/// registry resolved the entity associations of that definition comes with it.
 ///
 /// Returns `None` when no upgrade applies, or when the chosen registry does
 /// not define the group; the caller then keeps the copy it has.
@@ -449,7 +450,7 @@ fn upgrade_imported_group<C: crate::SchemaCacheLookup>(
     fallback_url: &SchemaUrl,
     attribute_catalog: &mut AttributeCatalog,
     cache_lookup: &C,
-) -> Result<Option<Group>, Error> {
+) -> Result<Option<(Group, BTreeMap<String, SchemaUrl>)>, Error> {
     let origin_url = origin_url(group, fallback_url);
     let Some(chosen_url) = cache_lookup.chosen_version(origin_url.name()) else {
         return Ok(None);
@@ -479,6 +480,7 @@ fn upgrade_imported_group<C: crate::SchemaCacheLookup>(
     else {
         return Ok(None);
     };
+    let association_origins = v1_association_origins(chosen_v1, upgraded);
     let mut upgraded = upgraded.clone();
     let mut attributes = vec![];
     for a in upgraded
@@ -495,7 +497,7 @@ fn upgrade_imported_group<C: crate::SchemaCacheLookup>(
         )?);
     }
     upgraded.attributes = attributes;
-    Ok(Some(upgraded))
+    Ok(Some((upgraded, association_origins)))
 }
 
 /// Whether `candidate` (a group in a chosen upgraded registry) defines the
@@ -953,12 +955,17 @@ impl ImportableDependency for V2Schema {
         // The imported groups may originate in transitive dependencies that
         // graph-wide version conflict resolution upgraded; substitute the
         // chosen version's definition where that applies.
-        for group in result.iter_mut() {
-            if let Some(upgraded) =
-                upgrade_imported_group(group, &self.schema_url, attribute_catalog, cache_lookup)?
-            {
-                *group = upgraded;
-            }
+        let mut imported = vec![];
+        for group in result {
+            let upgraded =
+                upgrade_imported_group(&group, &self.schema_url, attribute_catalog, cache_lookup)?;
+            imported.push(match upgraded {
+                Some(upgraded) => upgraded,
+                None => {
+                    let association_origins = origins.remove(&group.id).unwrap_or_default();
+                    (group, association_origins)
+                }
+            });
         }
 
         let mut g_url = self.schema_url.clone();
@@ -970,10 +977,10 @@ impl ImportableDependency for V2Schema {
                 }
             }
         }
-        Ok(result
+        Ok(imported
             .into_iter()
-            .map(|group| GroupWithProvenance {
-                association_origins: origins.remove(&group.id).unwrap_or_default(),
+            .map(|(group, association_origins)| GroupWithProvenance {
+                association_origins,
                 group,
                 schema_url: g_url.clone(),
             })
-- 
2.43.0


From 464b42fd3b268a78d84239c3104fc1de7e910051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 54/56] fix: associate with the newest of several compatible
 versions of an entity

---
 crates/weaver_resolver/src/dependency.rs | 12 ++++++++-
 crates/weaver_resolver/src/registry.rs   | 33 +++++++++++++++---------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index a466824..a01abb4 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -25,6 +25,7 @@ use weaver_semconv::signal_requirement_level::SignalRequirementLevel;
 use weaver_semconv::stability::Stability;
 
 use crate::attribute::AttributeSource;
+use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
 use crate::dependency_resolution::is_excluded;
 use crate::imports::import_match_keys;
 
@@ -202,7 +203,9 @@ pub(crate) enum EntityResolution {
 ///
 /// Candidates are counted by the registry that declared the entity, as importing
 /// does. One definition reached by two paths through the dependency graph is
-/// still one definition. Two definitions that merely share a name are not.
+/// still one definition. Two definitions that merely share a name are not. Two
+/// compatible versions of one registry hold one definition as well, which is
+/// the one of the newer version.
 pub(crate) fn resolve_entity(deps: &[ResolvedDependency], name: &str) -> EntityResolution {
     let mut origins: Vec<SchemaUrl> = vec![];
     let mut private = false;
@@ -210,6 +213,13 @@ pub(crate) fn resolve_entity(deps: &[ResolvedDependency], name: &str) -> EntityR
         if location.excluded {
             // A private entity is no part of the surface a dependency offers.
             private = true;
+        } else if let Some((known, newer)) = origins.iter_mut().find_map(|known| {
+            UseLatestMajorVersion
+                .resolve_conflict(known, &location.origin)
+                .ok()
+                .map(|newer| (known, newer))
+        }) {
+            *known = newer;
         } else if !origins.contains(&location.origin) {
             origins.push(location.origin);
         }
diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index df0f011..889df96 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -169,7 +169,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
 
     // After the imports, because a signal can arrive from a dependency with
     // associations of its own, and because an import satisfies an association.
-    if let Err(e) = resolve_entity_associations(&mut ureg) {
+    if let Err(e) = resolve_entity_associations(&mut ureg, cache_lookup) {
         return WResult::FatalErr(e);
     }
 
@@ -433,6 +433,15 @@ fn resolve_prefix_on_attributes(ureg: &mut UnresolvedRegistry) -> Result<(), Err
     Ok(())
 }
 
+/// The version of the registry behind `url` that takes part in this resolution,
+/// where version conflict resolution picked a newer one.
+fn chosen_url<C: crate::SchemaCacheLookup>(url: SchemaUrl, cache_lookup: &C) -> SchemaUrl {
+    cache_lookup
+        .chosen_version(url.name())
+        .and_then(|chosen| UseLatestMajorVersion.resolve_conflict(&url, chosen).ok())
+        .unwrap_or(url)
+}
+
 /// Resolves imports defined on dependencies.
 ///
 /// A pattern that named nothing is reported into `errors`.
@@ -457,25 +466,21 @@ fn resolve_dependency_imports<C: crate::SchemaCacheLookup>(
     {
         let is_v2 = group.is_v2();
         if !association_origins.is_empty() {
+            let association_origins = association_origins
+                .into_iter()
+                .map(|(name, origin)| (name, chosen_url(origin, cache_lookup)))
+                .collect();
             _ = ureg
                 .registry
                 .entity_association_origins
                 .insert(group.id.clone(), association_origins);
         }
-        let mut prov_url = if let Some(prov) = group.provenance() {
+        let prov_url = if let Some(prov) = group.provenance() {
             prov.schema_url.clone()
         } else {
             schema_url
         };
-        if let Some(chosen_url) = cache_lookup.chosen_version(prov_url.name()) {
-            if chosen_url != &prov_url {
-                if let Ok(winning_url) =
-                    UseLatestMajorVersion.resolve_conflict(&prov_url, chosen_url)
-                {
-                    prov_url = winning_url;
-                }
-            }
-        }
+        let prov_url = chosen_url(prov_url, cache_lookup);
         let path = group
             .provenance()
             .map(|p| p.path.clone())
@@ -516,7 +521,10 @@ fn resolve_dependency_imports<C: crate::SchemaCacheLookup>(
 /// that is private too. Otherwise the registry publishes a signal that names an
 /// entity no dependent can reach. This is the rule an attribute `ref` and an
 /// `extends` clause already follow, in [`excluded_parent_error`].
-fn resolve_entity_associations(ureg: &mut UnresolvedRegistry) -> Result<(), Error> {
+fn resolve_entity_associations<C: crate::SchemaCacheLookup>(
+    ureg: &mut UnresolvedRegistry,
+    cache_lookup: &C,
+) -> Result<(), Error> {
     // Most registries associate nothing, and then there is no name to look up.
     if ureg
         .groups
@@ -583,6 +591,7 @@ fn resolve_entity_associations(ureg: &mut UnresolvedRegistry) -> Result<(), Erro
             }
             match resolve_entity(&ureg.dependencies, name) {
                 EntityResolution::Found(origin) => {
+                    let origin = chosen_url(origin, cache_lookup);
                     _ = origins
                         .entry(g.group.id.clone())
                         .or_default()
-- 
2.43.0


From d1fd69d37e1056030d69c98189d992363bc6bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 55/56] fix: refine the chosen version of a re-exported signal,
 whichever dependency comes first

---
 crates/weaver_resolver/src/attribute.rs  | 119 +++++++++++++++++++----
 crates/weaver_resolver/src/dependency.rs |  27 ++++-
 crates/weaver_resolver/src/registry.rs   |  88 ++++++++++++-----
 3 files changed, 190 insertions(+), 44 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 9385c95..3f96a6c 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -6,8 +6,8 @@ use std::collections::{HashMap, HashSet};
 
 use serde::Deserialize;
 
-use weaver_resolved_schema::attribute::AttributeRef;
 use weaver_resolved_schema::attribute::{self};
+use weaver_resolved_schema::attribute::{AttributeRef, UnresolvedAttribute};
 use weaver_resolved_schema::catalog::{Catalog, RootAttribute};
 use weaver_resolved_schema::lineage::{AttributeLineage, GroupLineage};
 use weaver_resolved_schema::v2::ResolvedTelemetrySchema as V2Schema;
@@ -143,6 +143,36 @@ impl AttributeCatalog {
         cache_lookup: &C,
     ) -> Result<AttributeRef, Error> {
         let attr_name = attr.name.clone();
+        let (own_attr, new_attr) = Self::upgrade_with_overrides(attr, source, cache_lookup)?;
+
+        // Return a ref to this group's own copy of the attribute. Different
+        // groups may reference the same attribute with different
+        // `requirement_level` or `role`, so we must not return a variant
+        // registered earlier by another group.
+        let attr_ref = self.attribute_ref(own_attr);
+
+        // Separately, keep `root_attributes` (one entry per attribute name,
+        // used for provenance lookups) up to date. If the name was already
+        // registered, `resolve_conflict` decides which source wins.
+        let root_attr = if let Some(existing) = self.root_attributes.get(&attr_name) {
+            resolve_conflict(&attr_name, new_attr, existing.clone())?
+        } else {
+            new_attr
+        };
+        let _ = self.root_attributes.insert(attr_name, root_attr);
+
+        Ok(attr_ref)
+    }
+
+    /// Upgrades an attribute that a group of a dependency uses, if version
+    /// conflict resolution picked a newer version of the registry it comes from.
+    ///
+    /// Returns the group's own copy of the attribute, and the definition.
+    fn upgrade_with_overrides<C: crate::SchemaCacheLookup>(
+        attr: attribute::Attribute,
+        source: AttributeSource,
+        cache_lookup: &C,
+    ) -> Result<(attribute::Attribute, AttributeWithSource), Error> {
         let own_source = source.clone();
         let mut new_attr = AttributeWithSource {
             attribute: attr.clone(),
@@ -160,7 +190,7 @@ impl AttributeCatalog {
             let previous = match &own_source {
                 AttributeSource::Dependency { schema_url } => {
                     match cache_lookup.lookup_schema(schema_url) {
-                        Some(schema) => schema.lookup_attribute(&attr_name)?,
+                        Some(schema) => schema.lookup_attribute(&attr.name)?,
                         None => None,
                     }
                 }
@@ -172,24 +202,77 @@ impl AttributeCatalog {
                 &new_attr.attribute,
             )
         };
+        Ok((own_attr, new_attr))
+    }
 
-        // Return a ref to this group's own copy of the attribute. Different
-        // groups may reference the same attribute with different
-        // `requirement_level` or `role`, so we must not return a variant
-        // registered earlier by another group.
-        let attr_ref = self.attribute_ref(own_attr);
-
-        // Separately, keep `root_attributes` (one entry per attribute name,
-        // used for provenance lookups) up to date. If the name was already
-        // registered, `resolve_conflict` decides which source wins.
-        let root_attr = if let Some(existing) = self.root_attributes.get(&attr_name) {
-            resolve_conflict(&attr_name, new_attr, existing.clone())?
-        } else {
-            new_attr
+    /// Upgrades an attribute inherited from a group of a dependency, as
+    /// [`Self::attribute_ref_with_provenance`] does for an imported one.
+    pub(crate) fn upgrade_inherited<C: crate::SchemaCacheLookup>(
+        inherited: UnresolvedAttribute,
+        cache_lookup: &C,
+    ) -> Result<UnresolvedAttribute, Error> {
+        let UnresolvedAttribute {
+            spec:
+                AttributeSpec::Id {
+                    id,
+                    r#type,
+                    brief,
+                    examples,
+                    tag,
+                    requirement_level,
+                    sampling_relevant,
+                    note,
+                    stability,
+                    deprecated,
+                    annotations,
+                    role,
+                },
+            origin: Some(origin),
+        } = inherited
+        else {
+            return Ok(inherited);
         };
-        let _ = self.root_attributes.insert(attr_name, root_attr);
-
-        Ok(attr_ref)
+        let (own, definition) = Self::upgrade_with_overrides(
+            attribute::Attribute {
+                name: id,
+                r#type,
+                brief: brief.unwrap_or_default(),
+                examples,
+                tag,
+                requirement_level,
+                sampling_relevant,
+                note,
+                stability,
+                deprecated,
+                prefix: false,
+                tags: None,
+                annotations,
+                value: None,
+                role,
+            },
+            AttributeSource::Dependency { schema_url: origin },
+            cache_lookup,
+        )?;
+        Ok(UnresolvedAttribute {
+            origin: match definition.source {
+                AttributeSource::Dependency { schema_url } => Some(schema_url),
+                AttributeSource::Local { .. } => None,
+            },
+            spec: AttributeSpec::Id {
+                id: own.name,
+                r#type: own.r#type,
+                brief: Some(own.brief),
+                examples: own.examples,
+                tag: own.tag,
+                requirement_level: own.requirement_level,
+                sampling_relevant: own.sampling_relevant,
+                note: own.note,
+                stability: own.stability,
+                deprecated: own.deprecated,
+                annotations: own.annotations,
+                role: own.role,
+            },
+        })
     }
 
     /// Returns the attribute with its source provenance if available.
diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index a01abb4..55e87c0 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -28,6 +28,7 @@ use crate::attribute::AttributeSource;
 use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
 use crate::dependency_resolution::is_excluded;
 use crate::imports::import_match_keys;
+use crate::WeaverResolvedSchema;
 
 /// Where a group lookup landed: in the local registry or in a dependency.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -68,6 +69,8 @@ pub(crate) struct GroupSummary {
     pub annotations: Option<std::collections::BTreeMap<String, weaver_semconv::YamlValue>>,
     /// Where this summary was looked up from.
     pub source: GroupSource,
+    /// The registry that declared the group, when a dependency holds it.
+    pub origin: Option<SchemaUrl>,
 }
 
 impl GroupSummary {
@@ -90,6 +93,7 @@ impl GroupSummary {
             attributes: vec![], // Will be set during the dependency or registry loops.
             annotations: group.annotations.clone(),
             source,
+            origin: None,
         }
     }
 }
@@ -273,6 +277,7 @@ impl GroupRefinementLookup for V1Schema {
                 .collect();
             let mut summary = GroupSummary::from_without_attributes(g, GroupSource::Dependency);
             summary.attributes = attributes;
+            summary.origin = g.provenance().map(|prov| prov.schema_url).or(my_schema_url);
             summary
         })
     }
@@ -407,6 +412,7 @@ fn signal_summary(
         attributes,
         annotations: Some(common.annotations.clone()),
         source: GroupSource::Dependency,
+        origin: None,
     }
 }
 
@@ -461,7 +467,9 @@ impl GroupRefinementLookup for V2Schema {
         let deps: Vec<_> = self.dependencies.iter().cloned().collect();
 
         if let Some(e) = find(&self.registry.entities, id, "entity.") {
-            return Some(entity_group_summary(self, &deps, e));
+            let mut summary = entity_group_summary(self, &deps, e);
+            summary.origin = Some(v2_source_url(self, &deps, e.provenance.source));
+            return Some(summary);
         }
         if let Some(m) = find(&self.registry.metrics, id, "metric.") {
             let attributes = m
@@ -479,6 +487,7 @@ impl GroupRefinementLookup for V2Schema {
                 m.requirement_level.clone(),
                 attributes,
             );
+            summary.origin = Some(v2_source_url(self, &deps, m.provenance.source));
             summary.metric_name = Some(m.name.to_string());
             summary.instrument = Some(m.instrument.clone());
             summary.unit = Some(m.unit.clone());
@@ -494,12 +503,14 @@ impl GroupRefinementLookup for V2Schema {
                     })
                 })
                 .collect();
-            return Some(signal_summary(
+            let mut summary = signal_summary(
                 GroupType::Event,
                 &e.common,
                 e.requirement_level.clone(),
                 attributes,
-            ));
+            );
+            summary.origin = Some(v2_source_url(self, &deps, e.provenance.source));
+            return Some(summary);
         }
         if let Some(s) = find(&self.registry.spans, id, "span.") {
             let attributes = s
@@ -524,6 +535,7 @@ impl GroupRefinementLookup for V2Schema {
                 s.requirement_level.clone(),
                 attributes,
             );
+            summary.origin = Some(v2_source_url(self, &deps, s.provenance.source));
             summary.span_kind = Some(s.kind.clone());
             summary.span_name = Some(s.name.clone());
             return Some(summary);
@@ -538,6 +550,15 @@ impl GroupRefinementLookup for Vec<ResolvedDependency> {
     }
 }
 
+impl GroupRefinementLookup for WeaverResolvedSchema {
+    fn lookup_group_summary(&self, id: &str) -> Option<GroupSummary> {
+        match self {
+            WeaverResolvedSchema::V1(schema) => schema.lookup_group_summary(id),
+            WeaverResolvedSchema::V2(schema) => schema.lookup_group_summary(id),
+        }
+    }
+}
+
 impl From<V1Schema> for ResolvedDependency {
     fn from(value: V1Schema) -> Self {
         ResolvedDependency::V1(Box::new(value))
diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index 889df96..a6413ec 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -4,7 +4,9 @@
 
 use crate::attribute::AttributeCatalog;
 use crate::conflict_strategy::{DependencyVersionConflictStrategy, UseLatestMajorVersion};
-use crate::dependency::{resolve_entity, EntityResolution, ResolvedDependency};
+use crate::dependency::{
+    resolve_entity, EntityResolution, GroupRefinementLookup, ResolvedDependency,
+};
 use crate::dependency_resolution::{is_excluded, is_group_excluded};
 use crate::imports::ImportableDependency;
 use crate::Error;
@@ -154,7 +156,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
         return WResult::FatalErr(e);
     }
 
-    if let Err(e) = resolve_extends_references(&mut ureg) {
+    if let Err(e) = resolve_extends_references(&mut ureg, cache_lookup) {
         return WResult::FatalErr(e);
     }
 
@@ -830,31 +832,37 @@ fn collect_included_group_attrs<'a>(
 /// Resolves a group's parent (`extends`) signal, applies the fields a V2
 /// refinement inherits from it, and returns the parent's attributes.
 /// `Ok(None)` — with a recoverable error recorded; `Err` is fatal.
-fn resolve_refinement_parent(
+fn resolve_refinement_parent<C: crate::SchemaCacheLookup>(
     group: &mut UnresolvedGroup,
     extends: &str,
     group_index: &HashMap<String, GroupSummary>,
     dependencies: &[ResolvedDependency],
+    cache_lookup: &C,
     errors: &mut Vec<Error>,
 ) -> Result<Option<Vec<UnresolvedAttribute>>, Error> {
-    let parent =
-        match lookup_group_with_dependencies(dependencies, group_index, extends, &group.group.id) {
-            Ok(Some(s)) => s,
-            // TODO - first check imports.
-            Ok(None) => {
-                errors.push(Error::UnresolvedExtendsRef {
-                    group_id: group.group.id.clone(),
-                    extends_ref: extends.to_owned(),
-                    provenance: group.provenance.clone().map(Box::new),
-                });
-                return Ok(None);
-            }
-            Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
-                errors.push(e);
-                return Ok(None);
-            }
-            Err(e) => return Err(e),
-        };
+    let parent = match lookup_group_with_dependencies(
+        dependencies,
+        group_index,
+        extends,
+        &group.group.id,
+        cache_lookup,
+    ) {
+        Ok(Some(s)) => s,
+        // TODO - first check imports.
+        Ok(None) => {
+            errors.push(Error::UnresolvedExtendsRef {
+                group_id: group.group.id.clone(),
+                extends_ref: extends.to_owned(),
+                provenance: group.provenance.clone().map(Box::new),
+            });
+            return Ok(None);
+        }
+        Err(e @ Error::ExcludedFromDependencyResolution { .. }) => {
+            errors.push(e);
+            return Ok(None);
+        }
+        Err(e) => return Err(e),
+    };
     if let Some(err) = excluded_parent_error(group, extends, &parent) {
         errors.push(err);
         return Ok(None);
@@ -920,7 +928,10 @@ fn inherit_v2_refinement_fields(
 /// be resolved in an iteration.
 ///
 /// Returns true if all the `extends` references have been resolved.
-fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error> {
+fn resolve_extends_references<C: crate::SchemaCacheLookup>(
+    ureg: &mut UnresolvedRegistry,
+    cache_lookup: &C,
+) -> Result<(), Error> {
     let mut fatal_errors: Vec<Error> = vec![];
     loop {
         let mut errors = vec![];
@@ -969,6 +980,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                     &parent_ref,
                     &group_index,
                     dependencies,
+                    cache_lookup,
                     &mut errors,
                 )? {
                     Some(parent_attrs) => {
@@ -984,6 +996,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                                         &group_index,
                                         &parent_ref,
                                         &unresolved_group.group.id,
+                                        cache_lookup,
                                     )
                                     .ok()
                                     .flatten()
@@ -1313,11 +1326,12 @@ fn resolve_inheritance_attr(
 // Rust's type system is not advanced enough to know about partial mutable
 // borrowing of a reference.
 /// Hides excluded dep matches from dependents; raises if all dep matches are excluded.
-fn lookup_group_with_dependencies(
+fn lookup_group_with_dependencies<C: crate::SchemaCacheLookup>(
     dependencies: &[ResolvedDependency],
     local_index: &HashMap<String, GroupSummary>,
     id: &str,
     used_in: &str,
+    cache_lookup: &C,
 ) -> Result<Option<GroupSummary>, Error> {
     if let Some(summary) = local_index.get(id) {
         return Ok(Some(summary.clone()));
@@ -1325,6 +1339,7 @@ fn lookup_group_with_dependencies(
     let mut excluded_match: Option<GroupSummary> = None;
     for d in dependencies.iter() {
         if let Some(summary) = d.lookup_group_summary(id) {
+            let summary = upgrade_group_summary(summary, id, cache_lookup)?;
             if summary.annotations.as_ref().is_some_and(is_excluded) {
                 _ = excluded_match.get_or_insert(summary);
             } else {
@@ -1342,6 +1357,33 @@ fn lookup_group_with_dependencies(
     Ok(None)
 }
 
+/// If version conflict resolution picked a newer version of the registry that
+/// declared the group, returns the group of that version. The attributes come
+/// from the chosen versions of their registries in any case.
+fn upgrade_group_summary<C: crate::SchemaCacheLookup>(
+    summary: GroupSummary,
+    id: &str,
+    cache_lookup: &C,
+) -> Result<GroupSummary, Error> {
+    let upgraded = summary.origin.clone().and_then(|origin| {
+        let chosen = chosen_url(origin.clone(), cache_lookup);
+        if chosen == origin {
+            return None;
+        }
+        cache_lookup
+            .lookup_schema(&chosen)?
+            .lookup_group_summary(id)
+            .filter(|upgraded| upgraded.r#type == summary.r#type)
+    });
+    let mut summary = upgraded.unwrap_or(summary);
+    summary.attributes = summary
+        .attributes
+        .into_iter()
+        .map(|attr| AttributeCatalog::upgrade_inherited(attr, cache_lookup))
+        .collect::<Result<_, _>>()?;
+    Ok(summary)
+}
+
 fn excluded_parent_error(
     used_in: &UnresolvedGroup,
     target_id: &str,
-- 
2.43.0


From 73c5d35889a945ab72a54198eee526eefdb0f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 56/56] fix: refine a signal that a dependency imported from a
 packaged one

---
 crates/weaver_resolver/src/dependency.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index 55e87c0..0974104 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -247,7 +247,22 @@ pub(crate) trait GroupRefinementLookup {
 impl GroupRefinementLookup for V1Schema {
     fn lookup_group_summary(&self, id: &str) -> Option<GroupSummary> {
         let my_schema_url = SchemaUrl::try_from(self.schema_url.as_str()).ok();
-        self.group(id).map(|g| {
+        // A signal that this schema imported from a published registry has the
+        // id it has there, without the group-type prefix an `extends` clause of
+        // a v2 refinement carries.
+        let imported = || {
+            self.registry.groups.iter().find(|g| {
+                g.is_v2
+                    && match g.r#type {
+                        GroupType::Metric => id.strip_prefix("metric."),
+                        GroupType::Event => id.strip_prefix("event."),
+                        GroupType::Span => id.strip_prefix("span."),
+                        GroupType::Entity => id.strip_prefix("entity."),
+                        _ => None,
+                    } == Some(g.id.as_str())
+            })
+        };
+        self.group(id).or_else(imported).map(|g| {
             let attributes: Vec<UnresolvedAttribute> = g
                 .attributes
                 .iter()
-- 
2.43.0

