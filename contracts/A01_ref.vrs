//@include prelude.vrs
verus! {
//@include resolver.vrs
//@include resolve_ref.vrs
/// the attribute a reference denotes: what it writes itself, and otherwise what the definition says
pub open spec fn ref_value(a: AttributeSpec, d: Attribute, v: Attribute) -> bool { match a {
    AttributeSpec::Id { id, type_, brief, examples, tag, requirement_level, sampling_relevant, note, stability, deprecated, annotations, role } =>
        v.name == id && v.type_ == type_ && (brief is Some ==> v.brief == brief->0) && (brief is None ==> v.brief@.len() == 0) && v.examples == examples && v.tag == tag && v.requirement_level == requirement_level && v.sampling_relevant == sampling_relevant
        && v.note == note && v.stability == stability && v.deprecated == deprecated && v.annotations == annotations && v.role == role && v.tags is None && v.value is None && !v.prefix,
    AttributeSpec::Ref { ref_, brief, examples, tag, requirement_level, sampling_relevant, note, stability, deprecated, prefix, annotations, role } =>
        (!prefix ==> v.name == ref_) && v.type_ == d.type_ && v.brief == pick1(brief, d.brief) && v.examples == pick(examples, d.examples) && v.tag == pick(tag, d.tag) && v.requirement_level == pick1(requirement_level, d.requirement_level)
        && v.sampling_relevant == pick(sampling_relevant, d.sampling_relevant) && v.note == pick1(note, d.note) && v.stability == pick(stability, d.stability) && v.deprecated == pick(deprecated, d.deprecated)
        && v.annotations == pick(annotations, d.annotations) && v.role == pick(role, d.role) && v.tags == d.tags && v.value == d.value && v.prefix == prefix,
} }
pub open spec fn denotes(cat: AttributeCatalog, a: AttributeSpec, d: Attribute, r: AttributeRef) -> bool { exists|v: Attribute| #[trigger] listed(cat.attribute_refs, v, r) && ref_value(a, d, v) }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::resolve
    ensures (r matches Ok(Some(x)) && attr is Ref) ==> root_of(*old(self), dependencies@, cache_lookup.cache_id(), attr_key(*attr)) is Some,
        (r matches Ok(Some(x)) && attr is Ref) ==> denotes(*final(self), *attr, root_of(*old(self), dependencies@, cache_lookup.cache_id(), attr_key(*attr))->0.attribute, r->Ok_0->0),
        (r matches Ok(Some(x)) && attr is Id) ==> denotes(*final(self), *attr, arbitrary(), r->Ok_0->0)
//@at scope.attr_ref.end
    proof { assert(listed(self.attribute_refs, resolved_attr, attr_ref)); }
//@end
fn main() {}
} // verus!
