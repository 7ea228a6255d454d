From 69dbb10ce70c05af9477da6d9282fbeaa4493242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 01/22] fix: do not panic on an empty number list format

---
 src/one/property_set/number_list_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..d533cfc 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+    decode_utf16(data.into_iter().skip(1))
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
         .collect()
 }
-- 
2.43.0


From 6faf23711216fae6f6aa9582483787e80ae148c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 02/22] fix: report embedded ink without a data object instead
 of panicking

---
 src/onenote/rich_text.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..22166bf 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,17 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let embedded_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteFileData(
+                                "embedded object has no data object".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(*embedded_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From c3d4eb09328cfb7d0b52979b43c9ac5539a4cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 03/22] fix: reject cyclic revision dependencies instead of
 looping forever

---
 src/onestore/object_space.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..d8ef8cc 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,15 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(
+                    ErrorKind::MalformedOneStoreData("cyclic revision dependency".into()).into(),
+                );
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From 9dac9a0fa8be587f780ab03d492e9588ac3d24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 04/22] fix: let the roots of newer revisions override those of
 their base revisions

---
 src/onestore/revision.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..b17851e 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,17 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        let root_declarations = revision_manifest
+            .root_declare
+            .iter()
+            .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
+            .collect::<Result<HashMap<_, _>>>()?;
+
+        // Revisions are visited from the newest to the oldest, so a root that is already known
+        // overrides the one from this (older) revision
+        for (role, object_id) in root_declarations {
+            roots.entry(role).or_insert(object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From df7656e0bfb96ddbf7ecfc32767d8aecd02ff666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 05/22] fix: read the page size as the 32 bit integer it is
 stored as

---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From 00c62862edad99e16a7c5a34ef3d4c6ad3a35cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 06/22] fix: use the vertical ink scaling for the vertical axis

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From ad72e69f9b7c63052f6e1c086322d70491b7d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 07/22] fix: consume the end of a data element fragment

---
 src/fsshttpb/data_element/data_element_fragment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..57a4300 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -43,6 +43,8 @@ impl DataElement {
 
         let data = reader.read(size as usize)?.to_vec();
 
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
+
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
             id,
-- 
2.43.0


From 804fd4f12e549b876ea2b5b456343eb96b1357c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 08/22] fix: count the references inside nested property sets

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..60a8182 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
-- 
2.43.0


From 0119cef4978039a994cee6545f7836ed737949ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 09/22] fix: resolve object space references by their position
 in the whole reference table

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 60a8182..25b4e4d 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From 0eb1c482676e4e9f9c3654ef42548d22b66426b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 10/22] fix: look up storage elements in a deterministic order

---
 src/fsshttpb/data/cell_id.rs               |  2 +-
 src/fsshttpb/data/exguid.rs                |  2 +-
 src/fsshttpb/data_element/mod.rs           |  6 +++---
 src/fsshttpb/data_element/storage_index.rs | 10 +++++-----
 src/shared/guid.rs                         |  2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fsshttpb/data/cell_id.rs b/src/fsshttpb/data/cell_id.rs
index d28883d..e9a2f1d 100644
--- a/src/fsshttpb/data/cell_id.rs
+++ b/src/fsshttpb/data/cell_id.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data::exguid::ExGuid;
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.10]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/75bf8297-ef9c-458a-95a3-ad6265bfa864
 /// [\[MS-FSSHTTPB\] 2.2.1.11]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/d3f4d22d-6fb4-4032-8587-f3eb9c256e45
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct CellId(pub ExGuid, pub ExGuid);
 
 impl CellId {
diff --git a/src/fsshttpb/data/exguid.rs b/src/fsshttpb/data/exguid.rs
index 2e19ce5..c1cb262 100644
--- a/src/fsshttpb/data/exguid.rs
+++ b/src/fsshttpb/data/exguid.rs
@@ -9,7 +9,7 @@ use std::fmt;
 /// See [\[MS-FSSHTTPB\] 2.2.1.7].
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.7]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/bff58e9f-8222-4fbb-b112-5826d5febedd
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct ExGuid {
     pub guid: Guid,
     pub value: u32,
diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..28c8934 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -11,7 +11,7 @@ use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
 use crate::fsshttpb::data_element::storage_index::StorageIndex;
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 
 pub(crate) mod cell_manifest;
@@ -29,8 +29,8 @@ pub(crate) mod storage_manifest;
 /// [\[MS-FSSHTTPB\] 2.2.1.12]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/99a25464-99b5-4262-a964-baabed2170eb
 #[derive(Debug)]
 pub(crate) struct DataElementPackage {
-    pub(crate) storage_indexes: HashMap<ExGuid, StorageIndex>,
-    pub(crate) storage_manifests: HashMap<ExGuid, StorageManifest>,
+    pub(crate) storage_indexes: BTreeMap<ExGuid, StorageIndex>,
+    pub(crate) storage_manifests: BTreeMap<ExGuid, StorageManifest>,
     pub(crate) cell_manifests: HashMap<ExGuid, ExGuid>,
     pub(crate) revision_manifests: HashMap<ExGuid, RevisionManifest>,
     pub(crate) object_groups: HashMap<ExGuid, ObjectGroup>,
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..70e2beb 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,7 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A storage index.
 ///
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 #[allow(dead_code)]
 pub(crate) struct StorageIndex {
     pub(crate) manifest_mappings: Vec<StorageIndexManifestMapping>,
-    pub(crate) cell_mappings: HashMap<CellId, StorageIndexCellMapping>,
-    pub(crate) revision_mappings: HashMap<ExGuid, StorageIndexRevisionMapping>,
+    pub(crate) cell_mappings: BTreeMap<CellId, StorageIndexCellMapping>,
+    pub(crate) revision_mappings: BTreeMap<ExGuid, StorageIndexRevisionMapping>,
 }
 
 impl StorageIndex {
@@ -70,8 +70,8 @@ pub(crate) struct StorageIndexRevisionMapping {
 impl DataElement {
     pub(crate) fn parse_storage_index(reader: Reader) -> Result<StorageIndex> {
         let mut manifest_mappings = vec![];
-        let mut cell_mappings = HashMap::new();
-        let mut revision_mappings = HashMap::new();
+        let mut cell_mappings = BTreeMap::new();
+        let mut revision_mappings = BTreeMap::new();
 
         loop {
             if ObjectHeader::has_end_8(reader, ObjectType::DataElement)? {
diff --git a/src/shared/guid.rs b/src/shared/guid.rs
index 4a2061a..cc4ba70 100644
--- a/src/shared/guid.rs
+++ b/src/shared/guid.rs
@@ -12,7 +12,7 @@ use uuid::Uuid;
 ///
 /// [\[1\]]: https://stackoverflow.com/questions/10190817/guid-byte-order-in-net
 /// [\[2\]]: https://docs.microsoft.com/en-us/dotnet/api/system.guid.tobytearray?view=net-5.0#remarks
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct Guid(pub Uuid);
 
 impl Guid {
-- 
2.43.0


From 1d769f0514e42a314dc96556ff8319812ee117cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 11/22] fix: recognize the 16 bit end of object group metadata

---
 src/fsshttpb/data/stream_object.rs        | 12 ++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..d0528e3 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,18 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = match reader.bytes() {
+            [first, second, ..] => u16::from_le_bytes([*first, *second]),
+            _ => return Err(ErrorKind::UnexpectedEof.into()),
+        };
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From b2faadf46d84296e6cf54d5501d3ce83c7238be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 12/22] fix: give every nested property set its own part of the
 reference tables

---
 src/one/property/mod.rs                    |  2 +-
 src/one/property/references.rs             | 69 ++++++++++++++++++++++
 src/one/property_set/note_tag_container.rs | 62 ++-----------------
 src/one/property_set/text_run_data.rs      | 62 +------------------
 src/onestore/mapping_table.rs              | 31 ++++++++++
 5 files changed, 107 insertions(+), 119 deletions(-)

diff --git a/src/one/property/mod.rs b/src/one/property/mod.rs
index 9b89f91..6a689a8 100644
--- a/src/one/property/mod.rs
+++ b/src/one/property/mod.rs
@@ -19,7 +19,7 @@ pub(crate) mod object_space_reference;
 pub(crate) mod outline_indent_distance;
 pub(crate) mod page_size;
 pub(crate) mod paragraph_alignment;
-mod references;
+pub(crate) mod references;
 pub(crate) mod simple;
 pub(crate) mod time;
 
diff --git a/src/one/property/references.rs b/src/one/property/references.rs
index 1df7c36..2b5808b 100644
--- a/src/one/property/references.rs
+++ b/src/one/property/references.rs
@@ -1,6 +1,12 @@
 use crate::errors::{ErrorKind, Result};
 use crate::one::property::PropertyType;
+use crate::one::property::object_reference::ObjectReference;
+use crate::one::property::object_space_reference::ObjectSpaceReference;
 use crate::onestore::object::Object;
+use crate::onestore::types::compact_id::CompactId;
+use crate::onestore::types::jcid::JcId;
+use crate::onestore::types::object_prop_set::ObjectPropSet;
+use crate::onestore::types::prop_set::PropertySet;
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 
 pub(crate) struct References;
@@ -29,4 +35,67 @@ impl References {
 
         Ok(predecessors)
     }
+
+    /// Turn the property sets of a property values list into objects of their own.
+    ///
+    /// The references of all property sets are stored one after another in the containing object's
+    /// ID tables, so every property set is assigned its own part of these tables.
+    pub(crate) fn parse_nested<'a>(
+        prop_type: PropertyType,
+        object: &'a Object,
+        prop_id: PropertyId,
+        prop_sets: &[PropertySet],
+    ) -> Result<Vec<Object<'a>>> {
+        let mut object_offset = ObjectReference::get_offset(prop_type, object)?;
+        let mut object_space_offset = ObjectSpaceReference::get_offset(prop_type, object)?;
+
+        prop_sets
+            .iter()
+            .map(|props| {
+                let object_ids = Self::get_ids(
+                    object.props().object_ids(),
+                    object_offset,
+                    ObjectReference::count_references(props.values()),
+                )?;
+                let object_space_ids = Self::get_ids(
+                    object.props().object_space_ids(),
+                    object_space_offset,
+                    ObjectSpaceReference::count_references(props.values()),
+                )?;
+
+                let mapping = object.mapping().slice(
+                    object_offset,
+                    object_ids,
+                    object_space_offset,
+                    object_space_ids,
+                );
+
+                object_offset += object_ids.len();
+                object_space_offset += object_space_ids.len();
+
+                Ok(Object {
+                    context_id: object.context_id,
+                    jc_id: JcId(prop_id.value()),
+                    props: ObjectPropSet {
+                        object_ids: object_ids.to_vec(),
+                        object_space_ids: object_space_ids.to_vec(),
+                        context_ids: vec![],
+                        properties: props.clone(),
+                    },
+                    file_data: None,
+                    mapping,
+                })
+            })
+            .collect()
+    }
+
+    /// Get the part of an ID table that belongs to a property.
+    pub(crate) fn get_ids(ids: &[CompactId], offset: usize, count: usize) -> Result<&[CompactId]> {
+        offset
+            .checked_add(count)
+            .and_then(|end| ids.get(offset..end))
+            .ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("reference array index corrupt".into()).into()
+            })
+    }
 }
diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..8fd3a36 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -3,14 +3,9 @@ use crate::fsshttpb::data::exguid::ExGuid;
 use crate::one::property::PropertyType;
 use crate::one::property::note_tag::ActionItemStatus;
 use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::one::property::time::Time;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
 /// A note tag state container.
 ///
@@ -37,14 +32,9 @@ impl Data {
             None => return Ok(None),
         };
 
-        let data = prop_sets
-            .iter()
-            .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
-                let data = Self::parse_data(object)?;
-
-                Ok(data)
-            })
+        let data = References::parse_nested(PropertyType::NoteTags, object, prop_id, prop_sets)?
+            .into_iter()
+            .map(Self::parse_data)
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Some(data))
@@ -70,48 +60,4 @@ impl Data {
             item_status,
         })
     }
-
-    fn parse_object<'a>(
-        object: &'a Object,
-        id: PropertyId,
-        props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
-            context_id: object.context_id,
-            jc_id: JcId(id.value()),
-            props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
-                context_ids: vec![],
-                properties: props.clone(),
-            },
-            file_data: None,
-            mapping: object.mapping.clone(),
-        })
-    }
-
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
-            .take(ObjectReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
-
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
-            .take(ObjectSpaceReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..022f07d 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -1,13 +1,7 @@
 use crate::errors::{ErrorKind, Result};
 use crate::one::property::PropertyType;
-use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
 pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
     let (prop_id, prop_sets) = match object.props().get(PropertyType::TextRunData) {
@@ -19,57 +13,5 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
         None => return Ok(None),
     };
 
-    let data = prop_sets
-        .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
-
-    Ok(Some(data))
-}
-
-fn parse_object<'a>(
-    object: &'a Object,
-    prop_id: PropertyId,
-    props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
-        context_id: object.context_id,
-        jc_id: JcId(prop_id.value()),
-        props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
-            context_ids: vec![],
-            properties: props.clone(),
-        },
-        file_data: None,
-        mapping: object.mapping.clone(),
-    })
-}
-
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectReference::count_references(props.values()))
-        .copied()
-        .collect())
-}
-
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectSpaceReference::count_references(props.values()))
-        .copied()
-        .collect())
+    References::parse_nested(PropertyType::TextRunData, object, prop_id, prop_sets).map(Some)
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..42871bc 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -52,6 +52,37 @@ impl MappingTable {
         self.get(index, cid, &self.object_spaces)
     }
 
+    /// Build the mapping table for a part of the object's IDs.
+    ///
+    /// The IDs are resolved by their index in this table. In the returned table they are indexed by
+    /// their position within the given IDs.
+    pub(crate) fn slice(
+        &self,
+        object_offset: usize,
+        object_ids: &[CompactId],
+        object_space_offset: usize,
+        object_space_ids: &[CompactId],
+    ) -> MappingTable {
+        let mut objects: HashMap<CompactId, Vec<(usize, ExGuid)>> = HashMap::new();
+        for (i, cid) in object_ids.iter().enumerate() {
+            if let Some(id) = self.get_object(object_offset + i, *cid) {
+                objects.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        let mut object_spaces: HashMap<CompactId, Vec<(usize, CellId)>> = HashMap::new();
+        for (i, cid) in object_space_ids.iter().enumerate() {
+            if let Some(id) = self.get_object_space(object_space_offset + i, *cid) {
+                object_spaces.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        MappingTable {
+            objects,
+            object_spaces,
+        }
+    }
+
     fn get<T: Copy>(
         &self,
         index: usize,
-- 
2.43.0


From 575c026bf58bdca5e8fc799bfe2d0db1a694ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:42 +0000
Subject: [PATCH 13/22] fix: report reference arrays that exceed the reference
 table

---
 src/one/property/object_reference.rs       | 4 +---
 src/one/property/object_space_reference.rs | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 3acf2f7..bba9db7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -50,13 +50,11 @@ impl ObjectReference {
         // Determine offset for the property for which we want to look up the object reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_ids();
+        let references = References::get_ids(object.props().object_ids(), offset, count as usize)?;
 
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
             .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 25b4e4d..9e9d014 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -31,13 +31,12 @@ impl ObjectSpaceReference {
         // reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_space_ids();
+        let references =
+            References::get_ids(object.props().object_space_ids(), offset, count as usize)?;
 
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
             .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
-- 
2.43.0


From 57251e01c8a0da6cefa39c933fa3bf53ac586f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:46 +0000
Subject: [PATCH 14/22] fix: report object space references that are not mapped
 instead of dropping them

---
 src/one/property/object_space_reference.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 9e9d014..e33e66e 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -38,8 +38,8 @@ impl ObjectSpaceReference {
         let object_space_ids = references
             .iter()
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
-            .collect();
+            .map(|(index, id)| Self::resolve_id(index + offset, id, object))
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_space_ids))
     }
-- 
2.43.0


From 354199513a99a527c29f02d240468f035a6c2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 15/22] fix: limit the nesting of property sets instead of
 overflowing the stack

---
 src/onestore/types/prop_set.rs | 24 ++++++++++++++++++++++--
 src/onestore/types/property.rs | 20 +++++++++++++++-----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..8f1c53c 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// How deeply property sets can be nested before they're considered to be malformed.
+const MAX_NESTING_DEPTH: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,18 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        Self::parse_nested(reader, 0)
+    }
+
+    /// Parse a property set that is contained in `depth` other property sets.
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_NESTING_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +39,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..aaf21a7 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,12 @@ impl PropertyValue {
     //     }
     // }
 
-    pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+    /// Parse the value of a property in a property set that is contained in `depth` other sets.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +139,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -148,6 +153,11 @@ impl PropertyValue {
         Ok(value)
     }
 
+    #[cfg(test)]
+    fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        Self::parse_nested(property_id, reader, 0)
+    }
+
     fn parse_vec(reader: Reader) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
         let data = reader.read(size as usize)?.to_vec();
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From c7c5899abee5dd10db54f593c328a0f9de570b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 16/22] fix: parse nested and cyclic tables of contents without
 recursion

---
 src/onenote/notebook.rs | 72 +++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..3e021a1 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -5,6 +5,7 @@ use crate::onenote::section::SectionEntry;
 use crate::onestore::object_space::ObjectSpace;
 use crate::property::common::Color;
 use itertools::Itertools;
+use std::collections::HashSet;
 
 /// A OneNote notebook.
 #[derive(Clone, Debug)]
@@ -25,57 +26,58 @@ impl Notebook {
     }
 }
 
-struct TocEntry {
-    entries: Vec<(u32, String)>,
-    color: Option<Color>,
-}
-
 pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Color>)> {
     let content_id = space
         .content_root()
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("notebook has no content root".into()))?;
 
-    let entry = parse_toc_entry(content_id, space)?;
-    let toc = entry
-        .entries
+    let color = parse_toc_container(content_id, space)?.color;
+    let toc = parse_toc_entries(content_id, space)?
         .into_iter()
         .sorted_by_key(|(ordering_id, _)| *ordering_id)
         .dedup_by(|(_, a), (_, b)| a == b)
         .map(|(_, name)| name)
         .collect();
 
-    Ok((toc, entry.color))
+    Ok((toc, color))
 }
 
-fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
-    let content = space.get_object(content_id).ok_or_else(|| {
-        ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
-    })?;
+fn parse_toc_entries(content_id: ExGuid, space: &ObjectSpace) -> Result<Vec<(u32, String)>> {
+    let mut entries = vec![];
+
+    // Containers can be nested arbitrarily deep, so keep track of the ones that are left to parse
+    // here and make sure every container is parsed only once
+    let mut pending = vec![content_id];
+    let mut visited = HashSet::new();
 
-    let toc = toc_container::parse(content)?;
+    while let Some(content_id) = pending.pop() {
+        let toc = parse_toc_container(content_id, space)?;
 
-    if let Some(name) = toc.filename {
-        let ordering_id = toc
-            .ordering_id
-            .ok_or_else(|| ErrorKind::MalformedOneNoteData("section has no order id".into()))?;
+        if let Some(name) = toc.filename {
+            let ordering_id = toc
+                .ordering_id
+                .ok_or_else(|| ErrorKind::MalformedOneNoteData("section has no order id".into()))?;
 
-        Ok(TocEntry {
-            entries: vec![(ordering_id, name)],
-            color: toc.color,
-        })
-    } else {
-        let children = toc
-            .children
-            .into_iter()
-            .map(|content_id| parse_toc_entry(content_id, space))
-            .collect::<Result<Vec<_>>>()?
-            .into_iter()
-            .flat_map(|entry| entry.entries)
-            .collect();
+            entries.push((ordering_id, name));
+        } else {
+            if !visited.insert(content_id) {
+                return Err(ErrorKind::MalformedOneNoteData(
+                    "table of contents container is referenced more than once".into(),
+                )
+                .into());
+            }
 
-        Ok(TocEntry {
-            entries: children,
-            color: toc.color,
-        })
+            pending.extend(toc.children.into_iter().rev());
+        }
     }
+
+    Ok(entries)
+}
+
+fn parse_toc_container(content_id: ExGuid, space: &ObjectSpace) -> Result<toc_container::Data> {
+    let content = space.get_object(content_id).ok_or_else(|| {
+        ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
+    })?;
+
+    toc_container::parse(content)
 }
-- 
2.43.0


From 7374c3a56d9870bba18c10e7db6cf3496d4f94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 17/22] fix: reject outline contents that are cyclic, shared or
 nested too deeply

---
 src/onenote/content.rs       | 11 +++++-
 src/onenote/outline.rs       | 77 ++++++++++++++++++++++++++++++++----
 src/onenote/table.rs         | 22 +++++++----
 src/onestore/object_space.rs |  4 ++
 4 files changed, 97 insertions(+), 17 deletions(-)

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..42ddfdd 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -4,6 +4,7 @@ use crate::one::property_set::PropertySetId;
 use crate::onenote::embedded_file::{EmbeddedFile, parse_embedded_file};
 use crate::onenote::image::{Image, parse_image};
 use crate::onenote::ink::{Ink, parse_ink};
+use crate::onenote::outline::Nesting;
 use crate::onenote::rich_text::{RichText, parse_rich_text};
 use crate::onenote::table::{Table, parse_table};
 use crate::onestore::object_space::ObjectSpace;
@@ -77,7 +78,13 @@ impl Content {
     }
 }
 
-pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+pub(crate) fn parse_content(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: Nesting,
+) -> Result<Content> {
+    let nesting = nesting.enter()?;
+
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
@@ -94,7 +101,7 @@ pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<C
             Content::EmbeddedFile(parse_embedded_file(content_id, space)?)
         }
         PropertySetId::RichTextNode => Content::RichText(parse_rich_text(content_id, space)?),
-        PropertySetId::TableNode => Content::Table(parse_table(content_id, space)?),
+        PropertySetId::TableNode => Content::Table(parse_table(content_id, space, nesting)?),
         PropertySetId::InkContainer => Content::Ink(parse_ink(content_id, space)?),
         _ => Content::Unknown,
     };
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..0ec538f 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -5,6 +5,7 @@ use crate::one::property_set::{PropertySetId, outline_element_node, outline_grou
 use crate::onenote::content::{Content, parse_content};
 use crate::onenote::list::{List, parse_list};
 use crate::onestore::object_space::ObjectSpace;
+use std::cell::Cell;
 
 /// A content outline.
 ///
@@ -256,16 +257,61 @@ impl OutlineElement {
     }
 }
 
+/// Keeps track of how the objects of an outline are nested.
+///
+/// Objects of an outline form a tree. A file can claim otherwise, so this makes sure that parsing
+/// them doesn't overflow the stack (objects that are nested too deeply or contain themselves) and
+/// doesn't repeat objects over and over again (objects that have multiple parents).
+#[derive(Clone, Copy)]
+pub(crate) struct Nesting<'a> {
+    depth: usize,
+    remaining: &'a Cell<usize>,
+}
+
+impl<'a> Nesting<'a> {
+    const MAX_DEPTH: usize = 128;
+
+    fn new(remaining: &'a Cell<usize>) -> Nesting<'a> {
+        Nesting {
+            depth: 0,
+            remaining,
+        }
+    }
+
+    /// Enter an object of the outline.
+    pub(crate) fn enter(self) -> Result<Nesting<'a>> {
+        if self.depth >= Nesting::MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneNoteData(
+                "outline contents are nested too deeply".into(),
+            )
+            .into());
+        }
+
+        let remaining = self.remaining.get().checked_sub(1).ok_or_else(|| {
+            ErrorKind::MalformedOneNoteData("outline contents are not a tree".into())
+        })?;
+        self.remaining.set(remaining);
+
+        Ok(Nesting {
+            depth: self.depth + 1,
+            remaining: self.remaining,
+        })
+    }
+}
+
 pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<Outline> {
     let outline_object = space
         .get_object(outline_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline node is missing".into()))?;
     let data = outline_node::parse(outline_object)?;
 
+    let remaining = Cell::new(space.object_count());
+    let nesting = Nesting::new(&remaining);
+
     let items = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let outline = Outline {
@@ -287,7 +333,11 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     Ok(outline)
 }
 
-fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineItem> {
+fn parse_outline_item(
+    item_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: Nesting,
+) -> Result<OutlineItem> {
     let content_type = space
         .get_object(item_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline item is missing".into()))?
@@ -299,9 +349,11 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     })?;
 
     let item = match id {
-        PropertySetId::OutlineGroup => OutlineItem::Group(parse_outline_group(item_id, space)?),
+        PropertySetId::OutlineGroup => {
+            OutlineItem::Group(parse_outline_group(item_id, space, nesting)?)
+        }
         PropertySetId::OutlineElementNode => {
-            OutlineItem::Element(parse_outline_element(item_id, space)?)
+            OutlineItem::Element(parse_outline_element(item_id, space, nesting)?)
         }
         _ => {
             return Err(ErrorKind::MalformedOneNoteData(
@@ -314,7 +366,13 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     Ok(item)
 }
 
-fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+fn parse_outline_group(
+    group_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: Nesting,
+) -> Result<OutlineGroup> {
+    let nesting = nesting.enter()?;
+
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -323,7 +381,7 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
     let outlines = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let group = OutlineGroup {
@@ -337,7 +395,10 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
 pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
+    nesting: Nesting,
 ) -> Result<OutlineElement> {
+    let nesting = nesting.enter()?;
+
     let element_object = space
         .get_object(element_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline element is missing".into()))?;
@@ -346,13 +407,13 @@ pub(crate) fn parse_outline_element(
     let children = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let contents = data
         .contents
         .into_iter()
-        .map(|content_id| parse_content(content_id, space))
+        .map(|content_id| parse_content(content_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let list_contents = data
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..30bb1c9 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -5,7 +5,7 @@ use crate::one::property::layout_alignment::LayoutAlignment;
 use crate::one::property::outline_indent_distance::OutlineIndentDistance;
 use crate::one::property_set::{table_cell_node, table_node, table_row_node};
 use crate::onenote::note_tag::{NoteTag, parse_note_tags};
-use crate::onenote::outline::{OutlineElement, parse_outline_element};
+use crate::onenote::outline::{Nesting, OutlineElement, parse_outline_element};
 use crate::onestore::object_space::ObjectSpace;
 
 /// A table.
@@ -164,7 +164,11 @@ impl TableCell {
     }
 }
 
-pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table> {
+pub(crate) fn parse_table(
+    table_id: ExGuid,
+    space: &ObjectSpace,
+    nesting: Nesting,
+) -> Result<Table> {
     let table_object = space
         .get_object(table_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("table object is missing".into()))?;
@@ -173,7 +177,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     let contents = data
         .rows
         .into_iter()
-        .map(|row_id| parse_row(row_id, space))
+        .map(|row_id| parse_row(row_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let table = Table {
@@ -191,7 +195,9 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     Ok(table)
 }
 
-fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+fn parse_row(row_id: ExGuid, space: &ObjectSpace, nesting: Nesting) -> Result<TableRow> {
+    let nesting = nesting.enter()?;
+
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -200,7 +206,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     let contents = data
         .cells
         .into_iter()
-        .map(|cell_id| parse_cell(cell_id, space))
+        .map(|cell_id| parse_cell(cell_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let row = TableRow { contents };
@@ -208,7 +214,9 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     Ok(row)
 }
 
-fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+fn parse_cell(cell_id: ExGuid, space: &ObjectSpace, nesting: Nesting) -> Result<TableCell> {
+    let nesting = nesting.enter()?;
+
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
@@ -217,7 +225,7 @@ fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
     let contents = data
         .contents
         .into_iter()
-        .map(|element_id| parse_outline_element(element_id, space))
+        .map(|element_id| parse_outline_element(element_id, space, nesting))
         .collect::<Result<_>>()?;
 
     let cell = TableCell {
diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index d8ef8cc..247afb2 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -32,6 +32,10 @@ impl<'a, 'b> ObjectSpace<'a> {
         self.objects.get(&id)
     }
 
+    pub(crate) fn object_count(&self) -> usize {
+        self.objects.len()
+    }
+
     pub(crate) fn content_root(&self) -> Option<ExGuid> {
         self.roots.get(&RevisionRole::DefaultContent).copied()
     }
-- 
2.43.0


From 8604a60eece053f73137311ef97adb1ddbbf202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 18/22] fix: parse a notebook given by a bare file name

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..8f52a6c 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -72,6 +72,12 @@ impl Parser {
         let base_dir = path.parent().ok_or_else(|| ErrorKind::InvalidPath {
             message: "path has no parent directory".into(),
         })?;
+        // The parent of a bare file name is the empty path
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let (entries, color) = notebook::parse_toc(store.data_root())?;
         let entries = entries
             .iter()
-- 
2.43.0


From 9588d0ecc272ac2a3633ca12e6286eb1f563fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 19/22] fix: do not follow links of section groups out of their
 directory

---
 src/onenote/mod.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 8f52a6c..805e964 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -173,6 +173,8 @@ impl Parser {
                 .unwrap_or_default();
 
             if is_toc {
+                check_inside(path, &entry.path())?;
+
                 return self
                     .parse_notebook(&entry.path())
                     .map(|group| SectionGroup {
@@ -244,27 +246,32 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if candidate.exists() {
-        let base_canon = base_dir
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve base directory: {err}").into(),
-            })?;
-        let candidate_canon = candidate
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve entry path: {err}").into(),
-            })?;
-        if !candidate_canon.starts_with(&base_canon) {
-            return Err(ErrorKind::InvalidPath {
-                message: "section entry escapes base directory".into(),
-            }
-            .into());
-        }
+        check_inside(base_dir, &candidate)?;
     }
 
     Ok(candidate)
 }
 
+/// Make sure that a path, once symbolic links are resolved, is located below the base directory.
+fn check_inside(base_dir: &Path, path: &Path) -> Result<()> {
+    let base_canon = base_dir
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve base directory: {err}").into(),
+        })?;
+    let path_canon = path.canonicalize().map_err(|err| ErrorKind::InvalidPath {
+        message: format!("failed to resolve entry path: {err}").into(),
+    })?;
+    if !path_canon.starts_with(&base_canon) || path_canon == base_canon {
+        return Err(ErrorKind::InvalidPath {
+            message: "section entry escapes base directory".into(),
+        }
+        .into());
+    }
+
+    Ok(())
+}
+
 impl Default for Parser {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 2ef7717a8cd4c9d7085d719ad6d50faf8ede9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:06 +0000
Subject: [PATCH 20/22] fix: limit the nesting of section groups instead of
 overflowing the stack

---
 src/onenote/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 805e964..cb9f5b9 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -40,6 +40,9 @@ pub(crate) mod table;
 pub struct Parser;
 
 impl Parser {
+    /// How deeply section groups can be nested.
+    const MAX_SECTION_GROUP_DEPTH: usize = 64;
+
     /// Create a new OneNote file parser.
     ///
     /// The parser holds no state; reuse a single instance across multiple
@@ -57,6 +60,10 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
+        self.parse_nested_notebook(path, 0)
+    }
+
+    fn parse_nested_notebook(&self, path: &Path, depth: usize) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
         let packaging = OneStorePackaging::parse(&mut Reader::new(data.as_slice()))?;
@@ -91,7 +98,7 @@ impl Parser {
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
-                    self.parse_section_group(&path)
+                    self.parse_section_group(&path, depth + 1)
                         .map(SectionEntry::SectionGroup)
                 }
             })
@@ -155,7 +162,14 @@ impl Parser {
         )
     }
 
-    fn parse_section_group(&self, path: &Path) -> Result<SectionGroup> {
+    fn parse_section_group(&self, path: &Path, depth: usize) -> Result<SectionGroup> {
+        if depth > Parser::MAX_SECTION_GROUP_DEPTH {
+            return Err(ErrorKind::InvalidPath {
+                message: "section groups are nested too deeply".into(),
+            }
+            .into());
+        }
+
         let display_name = path
             .file_name()
             .ok_or_else(|| ErrorKind::InvalidPath {
@@ -176,7 +190,7 @@ impl Parser {
                 check_inside(path, &entry.path())?;
 
                 return self
-                    .parse_notebook(&entry.path())
+                    .parse_nested_notebook(&entry.path(), depth)
                     .map(|group| SectionGroup {
                         display_name,
                         entries: group.entries,
-- 
2.43.0


From 1426006ed81d5d18ffef557ff111d906d3cc74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:03 +0000
Subject: [PATCH 21/22] fix: onenote-parse accepts file names that are not
 valid Unicode

---
 src/bin/onenote-parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/onenote-parse.rs b/src/bin/onenote-parse.rs
index e526428..06d7b2f 100644
--- a/src/bin/onenote-parse.rs
+++ b/src/bin/onenote-parse.rs
@@ -4,7 +4,7 @@ use std::ffi::OsString;
 use std::path::PathBuf;
 
 fn main() {
-    let path = env::args().nth(1).expect("usage: parse <file>");
+    let path = env::args_os().nth(1).expect("usage: parse <file>");
     let path = PathBuf::from(path);
 
     let parser = Parser::new();
-- 
2.43.0


From d6180341e47f74535905b7c7d05145704c97e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 22/22] fix: report the height and the width of ink strokes the
 right way round

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0

