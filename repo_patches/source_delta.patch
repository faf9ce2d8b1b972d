From 13218220ad58a62a4b0c073cd05caa25fada7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:48 +0000
Subject: [PATCH 1/9] fix: do not unpack archive entries outside of the target
 directory

An entry such as `root/../../file` in a .tar.gz registry archive was joined
unchecked onto the target directory, so it was written outside of it.
---
 crates/weaver_common/src/vdir.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..54be3f5 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -963,7 +963,8 @@ impl VirtualDirectory {
     /// 2. If `sub_folder` is `Some` and non-empty:
     ///    - Filters out entries not starting with `sub_folder` (after stripping the root).
     ///    - Strips the `sub_folder` component itself from the path.
-    /// 3. Joins the remaining components onto the `target_path`.
+    /// 3. Filters out entries whose remaining components would leave the `target_path`.
+    /// 4. Joins the remaining components onto the `target_path`.
     ///
     /// Returns `Some(PathBuf)` with the calculated target path if the entry should be unpacked,
     /// or `None` if the entry should be skipped (e.g. outside the `sub_folder`).
@@ -997,7 +998,15 @@ impl VirtualDirectory {
                 }
             }
         }
-        Some(target_path.join(components.collect::<PathBuf>()))
+        let relative_path = components.collect::<PathBuf>();
+        // Never follow an entry out of the target directory (e.g. `root/../../file`).
+        if !relative_path
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)))
+        {
+            return None;
+        }
+        Some(target_path.join(relative_path))
     }
 
     /// Creates parent directories for the given path.
-- 
2.43.0


From 0524a8f4d4efcd7782c92f3b1c93dcac12c5fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 2/9] fix: do not unpack archive entries through symbolic links
 that leave the target directory

A .tar.gz registry archive holding a link `root/l -> /elsewhere` followed by
an entry `root/l/file` wrote that file to /elsewhere.
---
 crates/weaver_common/src/vdir.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 54be3f5..f86e447 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -884,6 +884,7 @@ impl VirtualDirectory {
             })?;
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
+                Self::check_parent_dirs(&valid_entry_path, target_path, archive_filename)?;
                 Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
@@ -1009,6 +1010,31 @@ impl VirtualDirectory {
         Some(target_path.join(relative_path))
     }
 
+    /// Checks that the parent directories of the given path stay inside the `target_path`
+    /// once the symbolic links unpacked so far are followed.
+    fn check_parent_dirs(
+        new_path: &Path,
+        target_path: &Path,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        let err = |error: String| InvalidRegistryArchive {
+            archive: archive_filename.to_owned(),
+            error,
+        };
+        let target = target_path.canonicalize().map_err(|e| err(e.to_string()))?;
+        let mut parents = new_path.ancestors().skip(1);
+        if let Some(parent) = parents.find(|p| p.exists()) {
+            let parent = parent.canonicalize().map_err(|e| err(e.to_string()))?;
+            if new_path != target_path && !parent.starts_with(&target) {
+                return Err(err(format!(
+                    "The entry `{}` is outside of the target directory",
+                    new_path.display()
+                )));
+            }
+        }
+        Ok(())
+    }
+
     /// Creates parent directories for the given path.
     fn create_parent_dirs(new_path: &Path, archive_filename: &str) -> Result<(), Error> {
         if let Some(parent) = new_path.parent() {
-- 
2.43.0


From 9015e1d5ba5b1efc532f1bd11d40a0f41caeaf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 3/9] fix: record inherited annotations and role in the
 attribute lineage

AttributeLineage::inherit_from listed every inherited field except
annotations and role.
---
 crates/weaver_resolved_schema/src/lineage.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/weaver_resolved_schema/src/lineage.rs b/crates/weaver_resolved_schema/src/lineage.rs
index 5f13ea4..b4a95f0 100644
--- a/crates/weaver_resolved_schema/src/lineage.rs
+++ b/crates/weaver_resolved_schema/src/lineage.rs
@@ -101,6 +101,8 @@ impl AttributeLineage {
                 stability,
                 deprecated,
                 prefix,
+                annotations,
+                role,
                 ..
             } => {
                 if brief.is_some() {
@@ -136,6 +138,14 @@ impl AttributeLineage {
                 if *prefix {
                     _ = attr_lineage.inherited_fields.insert("prefix".to_owned());
                 }
+                if annotations.is_some() {
+                    _ = attr_lineage
+                        .inherited_fields
+                        .insert("annotations".to_owned());
+                }
+                if role.is_some() {
+                    _ = attr_lineage.inherited_fields.insert("role".to_owned());
+                }
             }
             AttributeSpec::Id {
                 brief,
@@ -144,6 +154,8 @@ impl AttributeLineage {
                 sampling_relevant,
                 stability,
                 deprecated,
+                annotations,
+                role,
                 ..
             } => {
                 if brief.is_some() {
@@ -172,6 +184,14 @@ impl AttributeLineage {
                         .inherited_fields
                         .insert("deprecated".to_owned());
                 }
+                if annotations.is_some() {
+                    _ = attr_lineage
+                        .inherited_fields
+                        .insert("annotations".to_owned());
+                }
+                if role.is_some() {
+                    _ = attr_lineage.inherited_fields.insert("role".to_owned());
+                }
             }
         }
         attr_lineage
-- 
2.43.0


From 96097d7cfdcfb08b84d6812591eff6259b0748f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 4/9] fix: report a refinement whose base is of another signal
 type

inherit_v2_refinement_fields recorded InvalidRefinement among the errors of
the current iteration, but the group was finalised in that iteration, so the
error was dropped with it and resolution succeeded.
---
 crates/weaver_resolver/src/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..0b9c99f 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -825,6 +825,7 @@ fn resolve_refinement_parent(
     group_index: &HashMap<String, GroupSummary>,
     dependencies: &[ResolvedDependency],
     errors: &mut Vec<Error>,
+    fatal_errors: &mut Vec<Error>,
 ) -> Result<Option<Vec<UnresolvedAttribute>>, Error> {
     let parent =
         match lookup_group_with_dependencies(dependencies, group_index, extends, &group.group.id) {
@@ -852,7 +853,8 @@ fn resolve_refinement_parent(
         lineage.extends(extends, parent.r#type.clone());
     }
     if group.is_v2 {
-        inherit_v2_refinement_fields(group, extends, &parent, errors);
+        // The group is finalized by this iteration, so a mismatch must outlive it.
+        inherit_v2_refinement_fields(group, extends, &parent, fatal_errors);
     }
     Ok(Some(parent.attributes))
 }
@@ -959,6 +961,7 @@ fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> Result<(), Error
                     &group_index,
                     dependencies,
                     &mut errors,
+                    &mut fatal_errors,
                 )? {
                     Some(parent_attrs) => {
                         if unresolved_group.is_v2
-- 
2.43.0


From 8419de343caea779bb81a1853750f769ea3c98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 5/9] fix: do not record fields of an included group as locally
 overridden

When a group has a parent and an included group with the same attribute, the
fields of the included group were recorded as overridden by the group itself,
and could end up both in the inherited and in the overridden list.
---
 crates/weaver_resolver/src/registry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index 0b9c99f..2da72b0 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -1120,7 +1120,8 @@ fn resolve_inheritance_attrs_unified(
                     &existing.spec,
                     &mut existing.lineage,
                 );
-                existing.lineage.source_group = parent_group_id.to_owned();
+                // Nothing is local yet: what a later base overrides is still inherited.
+                existing.lineage = AttributeLineage::inherit_from(parent_group_id, &existing.spec);
                 existing.origin = parent_attr.origin.clone();
             } else {
                 let lineage = AttributeLineage::inherit_from(parent_group_id, &parent_attr.spec);
-- 
2.43.0


From 43c3d500e9dbf2e9759fd70d9b4e3d60c0801a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 6/9] fix: report missing attributes of exponential histogram
 data points

The type advisor compared the attributes of number and histogram data points
with the metric's definition but had no case for exponential histogram points,
so a missing required attribute there was never reported.
---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..7d241c0 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -699,6 +699,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_exponential_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From 7acd676c03caeb03ef53534226ed3f7b88c0d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:22 +0000
Subject: [PATCH 7/9] fix: let template attributes of an entity be satisfied by
 the resource

An entity that declares a template attribute was always reported as missing
it, as the check looked for a resource attribute with exactly the template's
name; a required one could never be satisfied. Match by prefix, as is done for
the attributes of signals.
---
 crates/weaver_live_check/src/advice/type_advisor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index 7d241c0..09de026 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -116,10 +116,17 @@ pub(crate) fn check_entity_resource_attributes(
     let mut advice_list = Vec::new();
 
     let check_attr = |key: &str,
+                      attribute_type: &AttributeType,
                       requirement_level: &RequirementLevel,
                       entity_type: &str,
                       advice_list: &mut Vec<PolicyFinding>| {
-        if attribute_set.contains(key) {
+        // A template attribute is present under any name that starts with its key.
+        let is_present = if matches!(attribute_type, AttributeType::Template(_)) {
+            resource_attributes.iter().any(|a| a.name.starts_with(key))
+        } else {
+            attribute_set.contains(key)
+        };
+        if is_present {
             return;
         }
         let (finding_id, advice_level, message) = match requirement_level {
@@ -165,6 +172,7 @@ pub(crate) fn check_entity_resource_attributes(
             for attr in &group.attributes {
                 check_attr(
                     &attr.name,
+                    &attr.r#type,
                     &attr.requirement_level,
                     entity_type,
                     &mut advice_list,
@@ -176,6 +184,7 @@ pub(crate) fn check_entity_resource_attributes(
             for attr in entity.identity.iter().chain(entity.description.iter()) {
                 check_attr(
                     &attr.base.key,
+                    &attr.base.r#type,
                     &attr.requirement_level,
                     &entity_type,
                     &mut advice_list,
-- 
2.43.0


From bc0e7f461784b3163a5aa464f40f770df223ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 8/9] fix: report a snippet that is never closed instead of
 dropping the text after it

A document whose last snippet had no end marker was rewritten without
anything that followed the opening marker.
---
 crates/weaver_semconv_gen/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..d86f74a 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -66,6 +66,13 @@ pub enum Error {
         header: String,
     },
 
+    /// Thrown when a snippet has no end marker.
+    #[error("Snippet is not closed by an end marker: [{header}]")]
+    UnterminatedSnippet {
+        /// The line that opens the snippet.
+        header: String,
+    },
+
     /// Thrown when a snippet lookup id is not valid.
     #[error("Could not parse snippet id: [{id}]")]
     InvalidSnippetId {
@@ -149,6 +156,7 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        let mut snippet_header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -174,12 +182,14 @@ pub trait MarkdownSnippetGenerator {
                     // If so, generate the snippet and continue.
                     if parser::is_markdown_snippet_directive(line) {
                         snippet_context = Some(SnippetType::Semconv);
+                        snippet_header = line;
                         let arg = parser::parse_markdown_snippet_directive(line)?;
                         let snippet =
                             self.generate_markdown_snippet(arg, attribute_registry_base_url)?;
                         result.push_str(&snippet);
                     } else if parser::is_weaver_directive(line) {
                         snippet_context = Some(SnippetType::Weaver);
+                        snippet_header = line;
                         let arg = parser::parse_weaver_snippet_directive(line)?;
                         let snippet = self.generate_weaver_snippet(arg)?;
                         result.push_str(&snippet);
@@ -187,6 +197,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        if snippet_context.is_some() {
+            // Everything after the header was skipped: never drop it silently.
+            return Err(Error::UnterminatedSnippet {
+                header: snippet_header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 0cc4a5aa72ea6758b874cb2dad5e3542991c06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 9/9] fix: apply every tag of a snippet's opening marker, not
 only the first

The grammar allows several tag=... parameters and the generator renders
groups that carry any of them, but only the first was passed on.
---
 crates/weaver_semconv_gen/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/weaver_semconv_gen/src/parser.rs b/crates/weaver_semconv_gen/src/parser.rs
index 58bbc53..31aecd6 100644
--- a/crates/weaver_semconv_gen/src/parser.rs
+++ b/crates/weaver_semconv_gen/src/parser.rs
@@ -46,11 +46,10 @@ impl GenerateMarkdownArgs {
     pub fn tag_filters(&self) -> Vec<&str> {
         self.args
             .iter()
-            .find_map(|arg| match arg {
+            .filter_map(|arg| match arg {
                 MarkdownGenParameters::Tag(value) => Some(value.as_str()),
                 _ => None,
             })
-            .into_iter()
             .collect()
     }
 }
-- 
2.43.0

