// the property: which value a field takes, and what the lineage records about it
pub open spec fn pick<T>(l: Option<T>, p: Option<T>) -> Option<T> { if l is Some { l } else { p } }
pub open spec fn pick1<T>(l: Option<T>, p: T) -> T { match l { Some(x) => x, None => p } }
pub open spec fn recorded(pre: AttributeLineage, post: AttributeLineage, f: Seq<char>, local: bool, parent: bool) -> bool {
    &&& post.source_group == pre.source_group
    &&& forall|x: String| #[trigger] post.locally_overridden_fields@.contains(x) == (pre.locally_overridden_fields@.contains(x) || (local && x == S(f)))
    &&& forall|x: String| #[trigger] post.inherited_fields@.contains(x) == (if x == S(f) { !local && (parent || pre.inherited_fields@.contains(x)) } else { pre.inherited_fields@.contains(x) })
}

//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::new
    ensures r.source_group == *source_group, r.inherited_fields@ == Set::<String>::empty(), r.locally_overridden_fields@ == Set::<String>::empty()
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::is_empty
    ensures r == (self.inherited_fields@ == Set::<String>::empty() && self.locally_overridden_fields@ == Set::<String>::empty())
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::brief
    ensures r == pick1(*local_value, *parent_value), recorded(*old(self), *final(self), "brief"@, local_value is Some, true)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::optional_brief
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "brief"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::note
    ensures r == pick1(*local_value, *parent_value), recorded(*old(self), *final(self), "note"@, local_value is Some, true)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::optional_note
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "note"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::requirement_level
    ensures r == pick1(*local_value, *parent_value), recorded(*old(self), *final(self), "requirement_level"@, local_value is Some, true)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::optional_requirement_level
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "requirement_level"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::examples
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "examples"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::stability
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "stability"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::optional_role
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "role"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::deprecated
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "deprecated"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::tag
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "tag"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::annotations
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "annotations"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::sampling_relevant
    ensures r == pick(*local_value, *parent_value), recorded(*old(self), *final(self), "sampling_relevant"@, local_value is Some, parent_value is Some)
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::prefix
    ensures r == (*local_value || *parent_value), recorded(*old(self), *final(self), "prefix"@, *local_value, *parent_value)
//@end

