From 2197f0a04eb21f13a2fd17f548555c628baafe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 01/25] fix: report dangling references on load as an error
 instead of panicking

---
 ifc_rs/src/meta/datamap/mod.rs    | 11 +++++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..8d8f8fb 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -3,6 +3,8 @@ mod serialize;
 
 use std::{any::TypeId, collections::BTreeMap};
 
+use anyhow::{anyhow, Result};
+
 use crate::{
     id::{Id, TypedId},
     prelude::*,
@@ -55,6 +57,15 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// like [`DataMap::get_untyped`], but fails with an error if nothing is stored under the given id
+    pub fn try_get_untyped(&self, id: impl Into<Id>) -> Result<&dyn IfcType> {
+        let id = id.into();
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow!("reference to {id}, which isn't part of the data section"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..ac62678 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.try_get_untyped(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.try_get_untyped(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From 2db4a6ea152deb87ba92e28e7d5196e45122df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 02/25] fix: don't panic on owner history timestamps outside of
 the representable range

---
 ifc_rs/src/parser/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From 1bf83eca6056e9eb98e054ba4deb5d8136aaa16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 03/25] fix: reject an invalid file timestamp in the header
 instead of panicking

---
 ifc_rs/src/meta/header/deserialize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..b5183c9 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,18 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
-            let date_res = DateTime::parse_from_rfc3339(s.as_str())
-                .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
+            DateTime::parse_from_rfc3339(s.as_str())
+                .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()))
+                .ok()
+                .map(DateTime::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
-- 
2.43.0


From e98fd52cb1844c024269a5472f25c54ca34dff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 04/25] fix: keep unknown entities with a semicolon inside of a
 string or comment intact

---
 ifc_rs/src/parser/dummy.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..d8a21bc 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,21 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
-
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        use super::{p_comment, p_space_or_comment_surrounded, p_word_until};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::any,
+            Parser,
+        };
+
+        // a semicolon inside of a string or a comment doesn't end the instance
+        let p_part = alt((
+            ("'", p_word_until('\''), "'").take(),
+            p_comment().take(),
+            any.take(),
+        ));
+
+        repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 1327ce84b46109f17bbdb42a6176feb0702e89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 05/25] fix: escape quotes when writing strings

---
 ifc_rs/src/parser/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..545c383 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -18,8 +18,13 @@ const UMLAUTE_MAP: [(&str, &str); 7] = [
     ("ß", r#"\X2\00DF\X0\"#),
 ];
 
+/// a quote inside of a string is escaped by doubling it
+pub(crate) fn escape_quotes(inp: &str) -> String {
+    inp.replace('\'', "''")
+}
+
 fn translate_encode(inp: impl AsRef<str>) -> String {
-    let mut value = inp.as_ref().to_owned();
+    let mut value = escape_quotes(inp.as_ref());
     for (uft8, encoded) in UMLAUTE_MAP {
         value = value.replace(uft8, encoded);
     }
-- 
2.43.0


From 5cfc0fba44b5b27d48d98c839333b18532891bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 06/25] fix: read and write escaped quotes in header strings

---
 ifc_rs/src/meta/header/deserialize.rs | 22 ++++++++++++++--------
 ifc_rs/src/meta/header/serialize.rs   | 21 +++++++++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index b5183c9..3b41927 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Utc};
 use strum::VariantNames;
 use winnow::combinator::{alt, delimited, preceded, repeat, separated};
 use winnow::prelude::*;
-use winnow::token::none_of;
+use winnow::token::{none_of, take_while};
 
 use super::description::{FileDescription, ImplementationLevel, ViewDefinition};
 use super::details::{
@@ -50,6 +50,12 @@ impl Header {
         )
     }
 
+    fn p_string<'a>() -> impl IFCParser<'a, String> {
+        // a quote inside of a string is escaped by doubling it
+        let p_part = alt((take_while(1.., |c: char| c != '\''), "''".value("'")));
+        delimited("'", repeat(.., p_part), "'")
+    }
+
     fn p_description<'a>() -> impl IFCParser<'a, FileDescription> {
         winnow::seq! {
             FileDescription {
@@ -123,14 +129,14 @@ impl Header {
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
-            p_quote_word().map(FileName),
+            Self::p_string().map(FileName),
         ));
-        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
+        let mut p_time = Self::p_string().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Author),
+                p_space_or_comment_surrounded(Self::p_string()).map(Author),
                 ",",
             )
             .map(|v: Vec<_>| AuthorList(v)),
@@ -140,7 +146,7 @@ impl Header {
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Organization),
+                p_space_or_comment_surrounded(Self::p_string()).map(Organization),
                 ",",
             )
             .map(|v: Vec<_>| OrganizationList(v)),
@@ -157,11 +163,11 @@ impl Header {
                 _: Comma::parse(),
                 organization: p_org,
                 _: Comma::parse(),
-                preprocessor_version: p_quote_word().map(PreprocessorVersion),
+                preprocessor_version: Self::p_string().map(PreprocessorVersion),
                 _: Comma::parse(),
-                originating_system: p_quote_word().map(OriginatingSystem),
+                originating_system: Self::p_string().map(OriginatingSystem),
                 _: Comma::parse(),
-                authorization: p_quote_word().map(Authorization),
+                authorization: Self::p_string().map(Authorization),
                 _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..3a59066 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -8,6 +8,7 @@ use super::{
     schema::FileSchemas,
     Header,
 };
+use crate::parser::string::escape_quotes;
 
 impl Display for Header {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
@@ -54,7 +55,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "'{name}'", name = escape_quotes(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +69,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| format!("'{a}'", a = escape_quotes(&author.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +79,23 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| format!("'{o}'", o = escape_quotes(&org.0)))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        write!(
+            f,
+            "'{prep_v}'",
+            prep_v = escape_quotes(&self.preprocessor_version.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        write!(
+            f,
+            "'{sys}'",
+            sys = escape_quotes(&self.originating_system.0)
+        )?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        write!(f, "'{auth}'", auth = escape_quotes(&self.authorization.0))?;
         Ok(())
     }
 }
-- 
2.43.0


From a406a4faa6b07965df7a637d548e9fda5a157256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 07/25] fix: write reals with enough digits to read back the
 same number

---
 ifc_rs/src/parser/real.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/real.rs b/ifc_rs/src/parser/real.rs
index d34b0d5..8b59519 100644
--- a/ifc_rs/src/parser/real.rs
+++ b/ifc_rs/src/parser/real.rs
@@ -135,7 +135,14 @@ pub(crate) fn format_real_primitive(d: f64) -> String {
 }
 
 pub(crate) fn format_sci_double(d: f64) -> String {
-    format!("{0:.1$E}", d, 14)
+    let rounded = format!("{0:.1$E}", d, 14);
+    // 15 significant digits don't suffice for every number, so use the shortest exact
+    // representation for the remaining ones
+    if rounded.parse() == Ok(d) {
+        rounded
+    } else {
+        format!("{d:E}")
+    }
 }
 
 pub(crate) fn format_non_sci_double(d: f64) -> String {
-- 
2.43.0


From a5f44a16a926f66c63ce1acc1ed2b8fb8f452f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 08/25] fix: don't silently alter an invalid globally unique id
 on load

---
 ifc_rs/src/id/ifc_uuid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ifc_rs/src/id/ifc_uuid.rs b/ifc_rs/src/id/ifc_uuid.rs
index 8bbc6ef..4b5b0f3 100644
--- a/ifc_rs/src/id/ifc_uuid.rs
+++ b/ifc_rs/src/id/ifc_uuid.rs
@@ -80,6 +80,8 @@ impl IFCParse for IfcGloballyUniqueId {
         winnow::combinator::delimited(
             "'",
             take_while(22..=22, |c: char| ALPHABET.contains(c))
+                // only 2 of the 128 bits are left for the first character
+                .verify(|x: &str| x.starts_with(['0', '1', '2', '3']))
                 .map(|x: &str| {
                     x.chars()
                         .filter_map(|c| ALPHABET.find(c))
-- 
2.43.0


From a0f1eb3c9c86b50dec256ea488d806146cb26ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 09/25] fix: accept shading devices as part of a spatial
 structure

---
 .../relations/rel_contained_in_spatial_structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..6d0532e 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -23,7 +23,18 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
-- 
2.43.0


From b1c72dc176f9f35be8ccdd0741bb005488b81d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 10/25] fix: relate spaces to their space type

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..c504935 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -283,6 +283,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
                 spatial_relation.relate_structure(*shading_device, &mut self.project.ifc);
         }
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
-- 
2.43.0


From 090aa3f22be3fc83d2e9419813de92324ee9c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 11/25] fix: reject files which use an instance id more than
 once instead of dropping instances

---
 ifc_rs/src/meta/datamap/deserialize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/meta/datamap/deserialize.rs b/ifc_rs/src/meta/datamap/deserialize.rs
index 862ca8e..97f9eee 100644
--- a/ifc_rs/src/meta/datamap/deserialize.rs
+++ b/ifc_rs/src/meta/datamap/deserialize.rs
@@ -35,7 +35,12 @@ impl IFCParse for DataMap {
         let p_line = separated_pair(Id::parse(), p_space_or_comment_surrounded("="), p_obj);
         let p_line_spaced = p_space_or_comment_surrounded(p_line);
         let p_lines = repeat_till(.., p_line_spaced, p_space_or_comment_surrounded("ENDSEC;"))
-            .map(|(v, _): (BTreeMap<Id, Box<dyn IfcType>>, _)| v);
+            .verify_map(|(v, _): (Vec<(Id, Box<dyn IfcType>)>, _)| {
+                let len = v.len();
+                let map = BTreeMap::from_iter(v);
+                // an id which is used twice would silently drop one of the instances
+                (map.len() == len).then_some(map)
+            });
         let p_data_section = p_space_or_comment_surrounded(preceded("DATA;", p_lines));
         p_data_section.map(DataMap)
     }
-- 
2.43.0


From e7b1cdc71ec66806e2aab7a628e1c56b0365c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 12/25] fix: use the unit, prefix and role names of the IFC
 standard

---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/prefix.rs           |  4 ++++
 ifc_rs/src/units/unit_enum.rs        | 16 ++++++++++------
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/prefix.rs b/ifc_rs/src/units/prefix.rs
index 797bc5d..8d9a634 100644
--- a/ifc_rs/src/units/prefix.rs
+++ b/ifc_rs/src/units/prefix.rs
@@ -33,6 +33,10 @@ pub enum IfcPrefix {
     #[strum(to_string = ".KILO.")]
     Kilo,
 
+    /// 10^2
+    #[strum(to_string = ".HECTO.")]
+    Hecto,
+
     /// 10
     #[strum(to_string = ".DECA.")]
     Deca,
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..a2fac4f 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
@@ -59,6 +59,10 @@ pub enum IfcUnitEnum {
     #[strum(to_string = ".FORCEUNIT.")]
     ForceUnit,
 
+    /// Represents units of frequency, such as "Hertz"
+    #[strum(to_string = ".FREQUENCYUNIT.")]
+    FrequencyUnit,
+
     /// Represents units of illuminance, such as "Lux"
     #[strum(to_string = ".ILLUMINANCEUNIT.")]
     IlluminanceUnit,
-- 
2.43.0


From 6cc28dc6698746afd1266006b5bd15c9fb5df2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 13/25] fix: true north is a direction for contexts and sub
 contexts

---
 ifc_rs/src/geometry/representation_context/mod.rs    | 4 ++--
 ifc_rs/src/geometry/representation_subcontext/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..63089a9 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<Direction2D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/geometry/representation_subcontext/mod.rs b/ifc_rs/src/geometry/representation_subcontext/mod.rs
index 095b0ae..9dd69cf 100644
--- a/ifc_rs/src/geometry/representation_subcontext/mod.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/mod.rs
@@ -73,7 +73,7 @@ pub struct GeometricRepresentationSubContext {
     /// positive Y axis of the project coordinate system equals the geographic northing direction.
     ///
     /// NOTE  If a geographic placement is provided using IfcMapConversion then the true north is for information only. In case of inconsistency, the value provided with IfcMapConversion shall take precedence.
-    #[ifc_types(Axis2D, Axis3D)]
+    #[ifc_types(Direction2D, Direction3D)]
     pub true_north: OptionalParameter<Id>,
 
     /// Parent context from which the sub context derives its world coordinate
-- 
2.43.0


From a92d57d61c45c85af4ba035b393f6ebcfac4a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 14/25] fix: check the owner history reference of relations and
 property sets on load

---
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 9 files changed, 9 insertions(+)

diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 6d0532e..9ccb8db 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..1dc8dd2 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..3430394 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From 6b2462f2930aa41062867abf142b4334179e21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 15/25] fix: refuse files which were cut off inside of a string
 or comment of an unknown entity

---
 ifc_rs/src/parser/dummy.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index d8a21bc..e151414 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -20,16 +20,17 @@ impl IFCParse for Dummy {
     {
         use super::{p_comment, p_space_or_comment_surrounded, p_word_until};
         use winnow::{
-            combinator::{alt, repeat_till},
-            token::any,
+            combinator::{alt, not, preceded, repeat_till},
+            token::none_of,
             Parser,
         };
 
-        // a semicolon inside of a string or a comment doesn't end the instance
+        // a semicolon inside of a string or a comment doesn't end the instance and neither of them
+        // can be left open
         let p_part = alt((
             ("'", p_word_until('\''), "'").take(),
             p_comment().take(),
-            any.take(),
+            preceded(not("/*"), none_of('\'')).take(),
         ));
 
         repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
-- 
2.43.0


From d9173be71d42f1c5c6d5bfe7f8189f6c0a533bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 16/25] fix: don't split a string at an escaped quote when it
 is part of a list

---
 ifc_rs/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..e18770b 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -56,7 +56,8 @@ pub(crate) fn p_word_until<'a>(end: char) -> impl IFCParser<'a, String> {
 }
 
 pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
-    delimited("'", p_word_until('\''), "'")
+    // a doubled quote is an escaped quote and not the end of the word
+    delimited("'", p_word_until('\''), ("'", not("'")))
 }
 
 pub(crate) fn p_comment<'a>() -> impl IFCParser<'a, ()> {
-- 
2.43.0


From 1f8e938868dbb3e7fb5c6ec65952e9f405689f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 17/25] fix: axis of a wall with a vertical direction was not a
 number

---
 ifc_rs/src/ifc_builder/walls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/walls.rs b/ifc_rs/src/ifc_builder/walls.rs
index f56067b..4c26316 100644
--- a/ifc_rs/src/ifc_builder/walls.rs
+++ b/ifc_rs/src/ifc_builder/walls.rs
@@ -222,7 +222,11 @@ impl<'a> IfcStoreyBuilder<'a> {
     ) -> IfcWallBuilder<'a, 'b> {
         let wall_thickness = self.calculate_material_layer_set_thickness(material);
 
-        let curve_axis_dir = wall_information.direction.cross(DVec3::Z).normalize();
+        // a vertical direction has no horizontal normal
+        let curve_axis_dir = wall_information
+            .direction
+            .cross(DVec3::Z)
+            .normalize_or(DVec3::X);
         let curve_axis_representation = ShapeRepresentation::new(
             self.sub_context,
             RepresentationIdentifier::Axis,
-- 
2.43.0


From 3668c62ab4f2ebdecc13c38d4d6ac85a435ba4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 18/25] fix: relate the property set with the height of a
 storey to the storey

---
 ifc_rs/src/ifc_builder/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/building.rs b/ifc_rs/src/ifc_builder/building.rs
index efb07bc..bfbff8c 100644
--- a/ifc_rs/src/ifc_builder/building.rs
+++ b/ifc_rs/src/ifc_builder/building.rs
@@ -57,7 +57,8 @@ impl<'a> IfcBuildingBuilder<'a> {
             IfcValue::Real(elevation.into()),
             None,
         );
-        _ = property_builder.finish();
+        let property_set = property_builder.finish();
+        storey_builder.relate_properties_object(property_set, storey_id);
 
         storey_builder
     }
-- 
2.43.0


From f504c69ca8ee8caad5d4aae090442320802d201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 19/25] fix: read integers with a sign in front of a zero and
 numbers with leading zeros

---
 ifc_rs/src/id/plain.rs                    |  4 ++--
 ifc_rs/src/parser/integer.rs              | 13 ++++++++++---
 ifc_rs/src/parser/timestamp.rs            |  5 ++---
 ifc_rs/src/units/dimensional_exponents.rs | 16 ++++++++--------
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/ifc_rs/src/id/plain.rs b/ifc_rs/src/id/plain.rs
index ca251d9..97d7dbd 100644
--- a/ifc_rs/src/id/plain.rs
+++ b/ifc_rs/src/id/plain.rs
@@ -1,6 +1,6 @@
 use std::fmt::Display;
 
-use winnow::{ascii::dec_uint, combinator::preceded, Parser};
+use winnow::{ascii::digit1, combinator::preceded, Parser};
 
 use crate::{
     parser::{IFCParse, IFCParser},
@@ -18,7 +18,7 @@ impl IFCParse for Id {
     where
         Self: Sized,
     {
-        preceded("#", dec_uint).map(Self)
+        preceded("#", digit1.parse_to()).map(Self)
     }
 }
 
diff --git a/ifc_rs/src/parser/integer.rs b/ifc_rs/src/parser/integer.rs
index 9269bdf..ba7c273 100644
--- a/ifc_rs/src/parser/integer.rs
+++ b/ifc_rs/src/parser/integer.rs
@@ -1,10 +1,17 @@
-use std::fmt::Display;
+use std::{fmt::Display, str::FromStr};
 
-use winnow::ascii::dec_int;
+use winnow::ascii::digit1;
+use winnow::combinator::opt;
+use winnow::token::one_of;
 use winnow::Parser;
 
 use crate::parser::{IFCParse, IFCParser};
 
+/// digits with an optional sign, leading zeros are allowed
+pub(crate) fn p_integer<'a, T: FromStr>() -> impl IFCParser<'a, T> {
+    (opt(one_of(['+', '-'])), digit1).take().parse_to()
+}
+
 #[derive(Debug, Clone, PartialEq, PartialOrd)]
 pub struct IntegerPrimitive(pub i64);
 
@@ -13,7 +20,7 @@ impl IFCParse for IntegerPrimitive {
     where
         Self: Sized,
     {
-        dec_int.map(Self)
+        p_integer().map(Self)
     }
 }
 
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index c2a6c67..edcf5a5 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -1,10 +1,9 @@
 use std::fmt::Display;
 
 use chrono::Utc;
-use winnow::ascii::dec_int;
 use winnow::Parser;
 
-use crate::parser::{IFCParse, IFCParser};
+use crate::parser::{integer::p_integer, IFCParse, IFCParser};
 
 /// An indication of date and time by measuring the number of seconds which
 /// have elapsed since the beginning of the year 1970.
@@ -24,7 +23,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
+        p_integer().verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
diff --git a/ifc_rs/src/units/dimensional_exponents.rs b/ifc_rs/src/units/dimensional_exponents.rs
index b554f3c..7d8a0e5 100644
--- a/ifc_rs/src/units/dimensional_exponents.rs
+++ b/ifc_rs/src/units/dimensional_exponents.rs
@@ -1,9 +1,9 @@
 use std::fmt::Display;
 
 use ifc_rs_verify_derive::IfcVerify;
-use winnow::ascii::dec_int;
 
 use crate::{
+    parser::integer::p_integer,
     prelude::*,
     units::{comma::Comma, p_space_or_comment_surrounded},
 };
@@ -72,19 +72,19 @@ impl IFCParse for DimensionalExponents {
         winnow::seq! {
             DimensionalExponents {
                 _: p_space_or_comment_surrounded("IFCDIMENSIONALEXPONENTS("),
-                length: dec_int,
+                length: p_integer(),
                 _: Comma::parse(),
-                mass: dec_int,
+                mass: p_integer(),
                 _: Comma::parse(),
-                time: dec_int,
+                time: p_integer(),
                 _: Comma::parse(),
-                electric_current: dec_int,
+                electric_current: p_integer(),
                 _: Comma::parse(),
-                thermodynamic_temperature: dec_int,
+                thermodynamic_temperature: p_integer(),
                 _: Comma::parse(),
-                amount_of_substance: dec_int,
+                amount_of_substance: p_integer(),
                 _: Comma::parse(),
-                luminouse_intensity: dec_int,
+                luminouse_intensity: p_integer(),
                 _: p_space_or_comment_surrounded(");"),
             }
         }
-- 
2.43.0


From f7fb12b678709f51c5bb93157c1ffad32ca43d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 20/25] fix: keep the kind of representation when a storey
 transforms a product

---
 ifc_rs/src/ifc_builder/transforms.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..1f0ca47 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,20 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or_else(|| RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0


From c56ec8a29b797d96f398113c51f6ea930154a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 21/25] fix: accept spaces and comments inside of the
 parentheses of attributes, lists and values

---
 ifc_rs/src/geometry/axis/deserialize.rs             | 13 ++++++++-----
 .../src/geometry/indexed_poly_curve/deserialize.rs  |  9 ++++++---
 ifc_rs/src/geometry/point_list/deserialize.rs       | 13 ++++++++-----
 .../geometry/representation_context/deserialize.rs  |  9 ++++++---
 .../representation_subcontext/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/actor_role/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/address/deserialize.rs           | 13 ++++++++-----
 ifc_rs/src/objects/application/deserialize.rs       |  8 +++++---
 ifc_rs/src/objects/organization/deserialize.rs      |  7 ++++---
 ifc_rs/src/objects/owner_history/deserialize.rs     |  7 ++++---
 ifc_rs/src/objects/person/deserialize.rs            |  9 ++++++---
 ifc_rs/src/objects/person_and_org/deserialize.rs    |  9 ++++++---
 ifc_rs/src/parser/list.rs                           |  2 +-
 ifc_rs/src/values/bool.rs                           |  9 ++++++---
 ifc_rs/src/values/identifier.rs                     |  9 ++++++---
 ifc_rs/src/values/label.rs                          |  9 ++++++---
 ifc_rs/src/values/real.rs                           |  9 ++++++---
 ifc_rs/src/values/thermal_transmittance.rs          |  6 +++---
 18 files changed, 101 insertions(+), 58 deletions(-)

diff --git a/ifc_rs/src/geometry/axis/deserialize.rs b/ifc_rs/src/geometry/axis/deserialize.rs
index 48cecf4..e673d8b 100644
--- a/ifc_rs/src/geometry/axis/deserialize.rs
+++ b/ifc_rs/src/geometry/axis/deserialize.rs
@@ -6,15 +6,18 @@ use winnow::{
 use super::{Axis2D, Axis3D};
 use crate::{
     id::TypedId,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Axis2D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT2D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT2D("),
             separated_pair(TypedId::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, local_x)| Self { location, local_x })
     }
@@ -23,7 +26,7 @@ impl IFCParse for Axis2D {
 impl IFCParse for Axis3D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT3D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT3D("),
             (
                 TypedId::parse(),
                 Comma::parse(),
@@ -31,7 +34,7 @@ impl IFCParse for Axis3D {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, _, local_z, _, local_x)| Self {
             location,
diff --git a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
index 9082733..21cc0d2 100644
--- a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
+++ b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     geometry::indexed_poly_curve::IndexedPolyCurve,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for IndexedPolyCurve {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCINDEXEDPOLYCURVE(",
+            p_space_or_comment_surrounded("IFCINDEXEDPOLYCURVE("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for IndexedPolyCurve {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(points, _, segments, _, self_intersect)| Self {
             points,
diff --git a/ifc_rs/src/geometry/point_list/deserialize.rs b/ifc_rs/src/geometry/point_list/deserialize.rs
index 03b613d..e853344 100644
--- a/ifc_rs/src/geometry/point_list/deserialize.rs
+++ b/ifc_rs/src/geometry/point_list/deserialize.rs
@@ -2,7 +2,10 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     geometry::point_list::{PointList2D, PointList3D},
-    parser::{comma::Comma, list::IfcList, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
+        IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for PointList2D {
@@ -11,9 +14,9 @@ impl IFCParse for PointList2D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST2D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST2D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
@@ -28,9 +31,9 @@ impl IFCParse for PointList3D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST3D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST3D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
diff --git a/ifc_rs/src/geometry/representation_context/deserialize.rs b/ifc_rs/src/geometry/representation_context/deserialize.rs
index 1c3bde4..f24532c 100644
--- a/ifc_rs/src/geometry/representation_context/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_context/deserialize.rs
@@ -2,14 +2,17 @@ use super::GeometricRepresentationContext;
 use crate::{
     geometry::dimension_count::DimensionCount,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationContext {
-                _: "IFCGEOMETRICREPRESENTATIONCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -21,7 +24,7 @@ impl IFCParse for GeometricRepresentationContext {
                 world_coord_system: Id::parse(),
                 _: Comma::parse(),
                 true_north: OptionalParameter::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
index 33463a6..145ac19 100644
--- a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
@@ -6,14 +6,17 @@ use crate::{
         representation_subcontext::GeometricRepresentationSubContext,
     },
     id::{Id, TypedId},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationSubContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationSubContext {
-                _: "IFCGEOMETRICREPRESENTATIONSUBCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONSUBCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -33,7 +36,7 @@ impl IFCParse for GeometricRepresentationSubContext {
                 target_view: GeometricProjection::parse(),
                 _: Comma::parse(),
                 user_defined_target_view: OptionalParameter::parse(),
-                _: ");"
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/actor_role/deserialize.rs b/ifc_rs/src/objects/actor_role/deserialize.rs
index 6931a29..eda0d4c 100644
--- a/ifc_rs/src/objects/actor_role/deserialize.rs
+++ b/ifc_rs/src/objects/actor_role/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::actor_role::{ActorRole, Role},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for ActorRole {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCACTORROLE(",
+            p_space_or_comment_surrounded("IFCACTORROLE("),
             (
                 Role::parse(),
                 Comma::parse(),
@@ -16,7 +19,7 @@ impl IFCParse for ActorRole {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(role, _, user_defined_role, _, description)| Self {
             role,
diff --git a/ifc_rs/src/objects/address/deserialize.rs b/ifc_rs/src/objects/address/deserialize.rs
index 90d1a22..43f7335 100644
--- a/ifc_rs/src/objects/address/deserialize.rs
+++ b/ifc_rs/src/objects/address/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::address::{PostalAddress, TelecomAddress},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for TelecomAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCTELECOMADDRESS(",
+            p_space_or_comment_surrounded("IFCTELECOMADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for TelecomAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
@@ -62,7 +65,7 @@ impl IFCParse for TelecomAddress {
 impl IFCParse for PostalAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPOSTALADDRESS(",
+            p_space_or_comment_surrounded("IFCPOSTALADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -84,7 +87,7 @@ impl IFCParse for PostalAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/application/deserialize.rs b/ifc_rs/src/objects/application/deserialize.rs
index 596ee75..ce48ebf 100644
--- a/ifc_rs/src/objects/application/deserialize.rs
+++ b/ifc_rs/src/objects/application/deserialize.rs
@@ -1,14 +1,16 @@
 use crate::{
     id::TypedId,
     objects::application::Application,
-    parser::{comma::Comma, string::StringPrimitive, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for Application {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             Application {
-                _ : "IFCAPPLICATION(",
+                _ : p_space_or_comment_surrounded("IFCAPPLICATION("),
                 application_developer: TypedId::parse(),
                 _: Comma::parse(),
                 version: StringPrimitive::parse(),
@@ -16,7 +18,7 @@ impl IFCParse for Application {
                 application_full_name: StringPrimitive::parse(),
                 _: Comma::parse(),
                 application_identifier: StringPrimitive::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/organization/deserialize.rs b/ifc_rs/src/objects/organization/deserialize.rs
index b853465..fc35516 100644
--- a/ifc_rs/src/objects/organization/deserialize.rs
+++ b/ifc_rs/src/objects/organization/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::organization::Organization,
     parser::{
-        comma::Comma, optional::OptionalParameter, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for Organization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCORGANIZATION(",
+            p_space_or_comment_surrounded("IFCORGANIZATION("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -22,7 +23,7 @@ impl IFCParse for Organization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(id, _, name, _, description, _, roles, _, addresses)| Self {
diff --git a/ifc_rs/src/objects/owner_history/deserialize.rs b/ifc_rs/src/objects/owner_history/deserialize.rs
index ece44d9..0b43011 100644
--- a/ifc_rs/src/objects/owner_history/deserialize.rs
+++ b/ifc_rs/src/objects/owner_history/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::{change_action::ChangeAction, owner_history::OwnerHistory},
     parser::{
-        comma::Comma, optional::OptionalParameter, timestamp::IfcTimestamp, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        timestamp::IfcTimestamp, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for OwnerHistory {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCOWNERHISTORY(",
+            p_space_or_comment_surrounded("IFCOWNERHISTORY("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -28,7 +29,7 @@ impl IFCParse for OwnerHistory {
                 Comma::parse(),
                 IfcTimestamp::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person/deserialize.rs b/ifc_rs/src/objects/person/deserialize.rs
index c235276..c72f47d 100644
--- a/ifc_rs/src/objects/person/deserialize.rs
+++ b/ifc_rs/src/objects/person/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::person::Person,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Person {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSON(",
+            p_space_or_comment_surrounded("IFCPERSON("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for Person {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person_and_org/deserialize.rs b/ifc_rs/src/objects/person_and_org/deserialize.rs
index 860315c..33170d0 100644
--- a/ifc_rs/src/objects/person_and_org/deserialize.rs
+++ b/ifc_rs/src/objects/person_and_org/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     id::Id,
     objects::person_and_org::PersonAndOrganization,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for PersonAndOrganization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSONANDORGANIZATION(",
+            p_space_or_comment_surrounded("IFCPERSONANDORGANIZATION("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for PersonAndOrganization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(the_person, _, the_organization, _, roles)| Self {
             the_person: the_person.into(),
diff --git a/ifc_rs/src/parser/list.rs b/ifc_rs/src/parser/list.rs
index 972bb21..806a8af 100644
--- a/ifc_rs/src/parser/list.rs
+++ b/ifc_rs/src/parser/list.rs
@@ -30,7 +30,7 @@ impl<T: IFCParse> IFCParse for IfcList<T> {
     {
         let p_t_opt_comma = terminated(T::parse(), p_space_or_comment_surrounded(opt(",")));
         preceded(
-            "(",
+            p_space_or_comment_surrounded("("),
             repeat_till(.., p_t_opt_comma, ")").map(|(v, _): (Vec<_>, _)| v),
         )
         .map(Self)
diff --git a/ifc_rs/src/values/bool.rs b/ifc_rs/src/values/bool.rs
index 9d5a781..d4dce2f 100644
--- a/ifc_rs/src/values/bool.rs
+++ b/ifc_rs/src/values/bool.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 use winnow::{
-    combinator::{alt, delimited},
+    combinator::{alt, delimited, preceded},
     Parser,
 };
 
@@ -16,9 +16,12 @@ impl IFCParse for BoolValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCBOOLEAN", "IfcBoolean")), "("),
+            (
+                alt(("IFCBOOLEAN", "IfcBoolean")),
+                p_space_or_comment_surrounded("("),
+            ),
             BoolPrimitive::parse(),
-            ")",
+            preceded(p_space_or_comment(), ")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/identifier.rs b/ifc_rs/src/values/identifier.rs
index 70229fc..d63b233 100644
--- a/ifc_rs/src/values/identifier.rs
+++ b/ifc_rs/src/values/identifier.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 use winnow::{
-    combinator::{alt, delimited},
+    combinator::{alt, delimited, preceded},
     Parser,
 };
 
@@ -16,9 +16,12 @@ impl IFCParse for IdentifierValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCIDENTIFIER", "IfcIdentifier")), "("),
+            (
+                alt(("IFCIDENTIFIER", "IfcIdentifier")),
+                p_space_or_comment_surrounded("("),
+            ),
             StringPrimitive::parse(),
-            ")",
+            preceded(p_space_or_comment(), ")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/label.rs b/ifc_rs/src/values/label.rs
index c380be8..2cfad60 100644
--- a/ifc_rs/src/values/label.rs
+++ b/ifc_rs/src/values/label.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 use winnow::{
-    combinator::{alt, delimited},
+    combinator::{alt, delimited, preceded},
     Parser,
 };
 
@@ -16,9 +16,12 @@ impl IFCParse for LabelValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCLABEL", "IfcLabel")), "("),
+            (
+                alt(("IFCLABEL", "IfcLabel")),
+                p_space_or_comment_surrounded("("),
+            ),
             StringPrimitive::parse(),
-            ")",
+            preceded(p_space_or_comment(), ")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/real.rs b/ifc_rs/src/values/real.rs
index 990c66f..06fd687 100644
--- a/ifc_rs/src/values/real.rs
+++ b/ifc_rs/src/values/real.rs
@@ -2,7 +2,7 @@ use std::fmt::Display;
 
 use real::RealPrimitive;
 use winnow::{
-    combinator::{alt, delimited},
+    combinator::{alt, delimited, preceded},
     Parser,
 };
 
@@ -17,9 +17,12 @@ impl IFCParse for RealValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCREAL", "IfcReal")), "("),
+            (
+                alt(("IFCREAL", "IfcReal")),
+                p_space_or_comment_surrounded("("),
+            ),
             RealPrimitive::parse(),
-            ")",
+            preceded(p_space_or_comment(), ")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/thermal_transmittance.rs b/ifc_rs/src/values/thermal_transmittance.rs
index a8047d1..ce19e44 100644
--- a/ifc_rs/src/values/thermal_transmittance.rs
+++ b/ifc_rs/src/values/thermal_transmittance.rs
@@ -1,7 +1,7 @@
 use real::format_non_sci_double;
 use std::fmt::Display;
 use winnow::{
-    combinator::{alt, delimited},
+    combinator::{alt, delimited, preceded},
     Parser,
 };
 
@@ -21,10 +21,10 @@ impl IFCParse for ThermalTransmittanceValue {
                     "IFCTHERMALTRANSMITTANCEMEASURE",
                     "IfcThermaltransmittancemeasure",
                 )),
-                "(",
+                p_space_or_comment_surrounded("("),
             ),
             RealPrimitive::parse(),
-            ")",
+            preceded(p_space_or_comment(), ")"),
         )
         .map(Self)
     }
-- 
2.43.0


From b2831d7009505ecd7e62a1c1a7cd13656515c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 22/25] fix: read and write escaped quotes in the items of view
 definitions

---
 ifc_rs/src/meta/header/deserialize.rs | 3 ++-
 ifc_rs/src/meta/header/serialize.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 3b41927..793cb14 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -84,7 +84,8 @@ impl Header {
         //
         // so spaces, braces and anything is allowed, we just take anything and clean it up a bit
         // via trim
-        let p_item = repeat(.., none_of([',', ']'])).map(|s: String| s.trim().to_owned());
+        let p_char = alt((none_of([',', ']', '\'']), "''".value('\'')));
+        let p_item = repeat(.., p_char).map(|s: String| s.trim().to_owned());
         let p_items = delimited('[', separated(.., p_item, ','), ']');
         // apparently, some applications like archicad support lists with leading comma which
         // result in empty items. Since this doesn't provide any value, we filter it out
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index 3a59066..558c799 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -32,7 +32,7 @@ impl Display for FileDescription {
             } else {
                 self.descriptions
                     .iter()
-                    .map(|desc| format!("'{desc}'"))
+                    .map(|desc| format!("'{d}'", d = escape_quotes(&desc.to_string())))
                     .join(",")
             }
         )?;
-- 
2.43.0


From c8b01f3782bdcca2e397c959c93e4b1b44d0689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 23/25] fix: accept spaces and comments in front of the
 semicolons of section keywords and around an empty description

---
 ifc_rs/src/meta/datamap/deserialize.rs | 10 +++++++---
 ifc_rs/src/meta/footer/deserialize.rs  |  2 +-
 ifc_rs/src/meta/header/deserialize.rs  |  8 ++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/deserialize.rs b/ifc_rs/src/meta/datamap/deserialize.rs
index 97f9eee..2102206 100644
--- a/ifc_rs/src/meta/datamap/deserialize.rs
+++ b/ifc_rs/src/meta/datamap/deserialize.rs
@@ -11,7 +11,9 @@ use crate::{
     id::Id,
     materials::Materials,
     objects::Objects,
-    parser::{dummy::Dummy, p_space_or_comment_surrounded, IFCParse, IFCParser},
+    parser::{
+        dummy::Dummy, p_space_or_comment, p_space_or_comment_surrounded, IFCParse, IFCParser,
+    },
     prelude::*,
     properties::Properties,
     relations::Relation,
@@ -34,14 +36,16 @@ impl IFCParse for DataMap {
         )));
         let p_line = separated_pair(Id::parse(), p_space_or_comment_surrounded("="), p_obj);
         let p_line_spaced = p_space_or_comment_surrounded(p_line);
-        let p_lines = repeat_till(.., p_line_spaced, p_space_or_comment_surrounded("ENDSEC;"))
+        let p_end = ("ENDSEC", p_space_or_comment(), ";");
+        let p_lines = repeat_till(.., p_line_spaced, p_space_or_comment_surrounded(p_end))
             .verify_map(|(v, _): (Vec<(Id, Box<dyn IfcType>)>, _)| {
                 let len = v.len();
                 let map = BTreeMap::from_iter(v);
                 // an id which is used twice would silently drop one of the instances
                 (map.len() == len).then_some(map)
             });
-        let p_data_section = p_space_or_comment_surrounded(preceded("DATA;", p_lines));
+        let p_data_section =
+            p_space_or_comment_surrounded(preceded(("DATA", p_space_or_comment(), ";"), p_lines));
         p_data_section.map(DataMap)
     }
 }
diff --git a/ifc_rs/src/meta/footer/deserialize.rs b/ifc_rs/src/meta/footer/deserialize.rs
index 970e5da..92c96a4 100644
--- a/ifc_rs/src/meta/footer/deserialize.rs
+++ b/ifc_rs/src/meta/footer/deserialize.rs
@@ -32,7 +32,7 @@ fn p_footer_version<'a>() -> impl IFCParser<'a, Version> {
                 .map(|v| (v, Version::from_str(v).expect("valid version")))
                 .map(|(k, v)| k.map(move |_| v))),
         ),
-        (";", p_space_or_comment()),
+        p_space_or_comment_surrounded(";"),
     )
 }
 
diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 793cb14..7aab2a3 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -24,13 +24,13 @@ impl IFCParse for Header {
             Header {
                 _: p_space_or_comment(),
                 version: Self::p_version(),
-                _: p_space_or_comment_surrounded("HEADER;"),
+                _: p_space_or_comment_surrounded(("HEADER", p_space_or_comment(), ";")),
                 description: Self::p_description(),
                 _: p_space_or_comment(),
                 name: Self::p_name(),
                 _: p_space_or_comment(),
                 schema: Self::p_schema(),
-                _: p_space_or_comment_surrounded("ENDSEC;"),
+                _: p_space_or_comment_surrounded(("ENDSEC", p_space_or_comment(), ";")),
             }
         }
     }
@@ -46,7 +46,7 @@ impl Header {
             alt(variants
                 .map(|v| (v, Version::from_str(v).expect("valid version")))
                 .map(|(k, v)| k.map(move |_| v))),
-            (";", p_space_or_comment()),
+            p_space_or_comment_surrounded(";"),
         )
     }
 
@@ -72,7 +72,7 @@ impl Header {
         let p_view_def = Self::p_view_definition();
         let p_item = p_space_or_comment_surrounded(delimited("'", p_view_def, "'"));
         let p_any_items = separated(.., p_item, ",");
-        let p_no_items = ("''").map(|_| vec![]);
+        let p_no_items = p_space_or_comment_surrounded("''").map(|_| vec![]);
         delimited("(", alt((p_no_items, p_any_items)), ")")
     }
 
-- 
2.43.0


From 748bb39e8ee85d900f06657243636d0b2159d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 24/25] fix: refuse files in which the semicolon of an unknown
 entity is missing instead of swallowing the next instance

---
 ifc_rs/src/parser/dummy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index e151414..0e17c4e 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -30,7 +30,7 @@ impl IFCParse for Dummy {
         let p_part = alt((
             ("'", p_word_until('\''), "'").take(),
             p_comment().take(),
-            preceded(not("/*"), none_of('\'')).take(),
+            preceded(not("/*"), none_of(['\'', '='])).take(),
         ));
 
         repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
-- 
2.43.0


From 8d02ffc7dfb1745af715a684ff377eacc1a4773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:29 +0000
Subject: [PATCH 25/25] fix: don't panic in queries about entities of unknown
 kinds

---
 ifc_rs/src/ifc_extractor/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ifc_rs/src/ifc_extractor/mod.rs b/ifc_rs/src/ifc_extractor/mod.rs
index c90084c..dc92fad 100644
--- a/ifc_rs/src/ifc_extractor/mod.rs
+++ b/ifc_rs/src/ifc_extractor/mod.rs
@@ -13,6 +13,11 @@ pub struct IfcExtractor {
 }
 
 impl IfcExtractor {
+    /// references to entities of unknown kinds are part of valid files
+    fn known<T: IfcType>(&self, typed_id: TypedId<T>) -> Option<&T> {
+        self.ifc.data.get_untyped(typed_id.id()).downcast_ref()
+    }
+
     pub fn projects(&self) -> impl Iterator<Item = (TypedId<Project>, &Project)> {
         self.ifc.data.find_all_of_type::<Project>()
     }
@@ -77,7 +82,7 @@ impl IfcExtractor {
             .data
             .find_all_of_type::<RelVoidsElement>()
             .filter(move |&(_, rel_voids)| (rel_voids.relating_building_element == id.id()))
-            .map(|(_, rel_voids)| self.ifc.data.get(rel_voids.related_opening_element))
+            .filter_map(|(_, rel_voids)| self.known(rel_voids.related_opening_element))
     }
 
     pub fn related_materials<S>(&self, id: TypedId<S>) -> impl Iterator<Item = &MaterialLayer>
@@ -100,15 +105,9 @@ impl IfcExtractor {
                     .get_untyped(rel_material.relating_material)
                     .downcast_ref::<MaterialLayerSetUsage>()
             })
-            .flat_map(|set_usage| {
-                self.ifc
-                    .data
-                    .get(set_usage.spatial_element_structure)
-                    .material_layers
-                    .0
-                    .iter()
-            })
-            .map(|material_layer_id| self.ifc.data.get(*material_layer_id))
+            .filter_map(|set_usage| self.known(set_usage.spatial_element_structure))
+            .flat_map(|layer_set| layer_set.material_layers.0.iter())
+            .filter_map(|material_layer_id| self.known(*material_layer_id))
     }
 
     pub fn related_constiuents<S>(
@@ -135,7 +134,7 @@ impl IfcExtractor {
                     .downcast_ref::<MaterialConstituentSet>()
             })
             .flat_map(|constituent_set| constituent_set.material_constituents.0.iter())
-            .map(|constituent_id| self.ifc.data.get(*constituent_id))
+            .filter_map(|constituent_id| self.known(*constituent_id))
     }
 }
 
-- 
2.43.0

