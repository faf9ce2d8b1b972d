impl String { #[verifier::external_body] pub fn into_sid(self) -> (r: SignalId) ensures r == sid(self) { unimplemented!() } }
pub open spec fn sid(s: String) -> SignalId { SignalId(s) }
//@fn crates/weaver_semconv/src/v2/signal_id.rs From<String> for SignalId::from
    ensures r == sid(value)
//@end
//@fn crates/weaver_resolved_schema/src/registry.rs Group::provenance
    ensures match r { Some(p) => self.lineage is Some && p == self.lineage->0.provenance, None => self.lineage is None }
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::provenance
    ensures *r == self.provenance
//@end
// ------------------------------------------------------------------ ids
pub open spec fn stripped(prefix: Seq<char>, id: String) -> SignalId { if prefix.is_prefix_of(id@) { sid(S(id@.skip(prefix.len() as int))) } else { sid(id) } }
pub open spec fn refines(g: Group) -> bool { match g.lineage { Some(l) => l.extends_group_type == Some(g.type_), None => false } }
pub open spec fn extends_of(g: Group) -> Option<String> { match g.lineage { Some(l) => l.extends_group, None => None } }
pub open spec fn ent_type_of(g: Group) -> SignalId { match g.name { Some(n) => sid(n), None => stripped("entity."@, g.id) } }
/// the id a group takes in the v2 namespace of its signal type
pub open spec fn v2_id(g: Group) -> Option<SignalId> {
    match g.type_ {
        GroupType::Span => Some(stripped("span."@, g.id)),
        GroupType::AttributeGroup => Some(stripped("attribute_group."@, g.id)),
        GroupType::Entity => if refines(g) { Some(stripped("entity."@, g.id)) } else { Some(ent_type_of(g)) },
        GroupType::Event => if refines(g) { Some(stripped("event."@, g.id)) } else { match g.name { Some(n) => Some(sid(n)), None => None } },
        GroupType::Metric => if refines(g) { Some(stripped("metric."@, g.id)) } else { match g.metric_name { Some(n) => Some(sid(n)), None => None } },
        _ => None } }
//@fn crates/weaver_resolved_schema/src/v2/mod.rs is_refinement_of
    ensures r == refines(*group)
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs fix_group_id
    ensures r == stripped(prefix@, *group_id)
//@subst .into() => .into_sid()
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs entity_type_of
    ensures r == ent_type_of(*group)
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs v2_namespace_id
    ensures r == v2_id(*group)
//@end

