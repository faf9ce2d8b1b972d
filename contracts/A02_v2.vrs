//@include prelude.vrs
verus! {
//@opaque AttributeType Examples YamlValue Provenance RequirementLevel Tags Value AttributeRole
//@type crates/weaver_semconv/src/stability.rs Stability
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute as=V1Attribute
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_resolved_schema/src/v2/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/v2/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/v2/catalog.rs Catalog

pub open spec fn stab_default() -> Stability { Stability::Development }
//@fn crates/weaver_semconv/src/stability.rs Default for Stability::default
    ensures r == stab_default()
//@end
/// the catalog entry is the attribute, but for what the groups keep to themselves (requirement level, role, …)
pub open spec fn same_attribute(a: Attribute, v: V1Attribute) -> bool {
    &&& a.key == v.name &&& a.type_ == v.type_ &&& a.examples == v.examples &&& a.common.brief == v.brief &&& a.common.note == v.note
    &&& a.common.deprecated == v.deprecated &&& a.common.stability == (match v.stability { Some(s) => s, None => stab_default() })
    &&& (match v.annotations { Some(x) => a.common.annotations == x, None => a.common.annotations.m@ == Map::<String, YamlValue>::empty() }) }
pub open spec fn indexed(c: Catalog) -> bool {
    &&& forall|k: String, j: int| #[trigger] c.lookup.m@.contains_key(k) && 0 <= j < c.lookup.m@[k]@.len() ==> (#[trigger] c.lookup.m@[k]@[j]) < c.attributes@.len()
    &&& forall|i: int| 0 <= i < c.attributes@.len() ==> c.lookup.m@.contains_key((#[trigger] c.attributes@[i]).key) && idx_in(c.lookup.m@[c.attributes@[i].key], i) }
pub open spec fn idx_in(v: Vec<usize>, i: int) -> bool { exists|j: int| 0 <= j < v@.len() && #[trigger] v@[j] == i }
//@fn crates/weaver_resolved_schema/src/v2/catalog.rs Catalog::from_attributes
    ensures permuted(attributes@, r.attributes@), indexed(r)
//@loop 0
    refs_of(__s0@, attributes@),
    forall|k: String, j: int| #[trigger] lookup.m@.contains_key(k) && 0 <= j < lookup.m@[k]@.len() ==> (#[trigger] lookup.m@[k]@[j]) < __i0,
    forall|i: int| 0 <= i < __i0 ==> lookup.m@.contains_key((#[trigger] attributes@[i]).key) && idx_in(lookup.m@[attributes@[i].key], i),
//@at loop0.start
    let ghost l0 = lookup.m@;
//@at loop0.end
    proof { let k = attributes@[__i0 - 1].key; let v = lookup.m@[k]@; assert(v[v.len() - 1] == __i0 - 1);
        assert forall|i: int| 0 <= i < __i0 implies lookup.m@.contains_key((#[trigger] attributes@[i]).key) && idx_in(lookup.m@[attributes@[i].key], i) by {
            if i < __i0 - 1 && attributes@[i].key == k { let j = choose|j: int| 0 <= j < l0[k]@.len() && #[trigger] l0[k]@[j] == i; assert(v[j] == i); } } }
//@end
//@fn crates/weaver_resolved_schema/src/v2/catalog.rs Catalog::convert_ref
    requires indexed(*self), self.attributes@.len() <= u32::MAX
    ensures match r { Some(x) => x.0 < self.attributes@.len() && same_attribute(self.attributes@[x.0 as int], *attribute), None => forall|i: int| 0 <= i < self.attributes@.len() ==> !same_attribute(#[trigger] self.attributes@[i], *attribute) }
//@subst attribute: &Attribute) => attribute: &V1Attribute)
//@loop 0 acc=Option<AttributeRef>
    self.lookup.m@.contains_key(attribute.name), refs_of(__s0@, self.lookup.m@[attribute.name]@),
    match __a0 { Some(x) => x.0 < self.attributes@.len() && same_attribute(self.attributes@[x.0 as int], *attribute), None => forall|j: int| 0 <= j < __i0 ==> !same_attribute(self.attributes@[#[trigger] self.lookup.m@[attribute.name]@[j] as int], *attribute) },
//@at loop0.after
    proof { if __a0 is None { assert forall|i: int| 0 <= i < self.attributes@.len() implies !same_attribute(#[trigger] self.attributes@[i], *attribute) by { if self.attributes@[i].key == attribute.name { assert(idx_in(self.lookup.m@[attribute.name], i)); } } } }
//@end
} // verus!
fn main() {}
