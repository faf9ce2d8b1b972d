//@include prelude.vrs
verus! {
//@opaque AttributeType Examples YamlValue RequirementLevel Tags Value InstrumentSpec AnyValueSpec SignalRequirementLevel SchemaUrl
//@source attributes
//@type crates/weaver_resolved_schema/src/lineage.rs AttributeLineage
//@path crate::attribute::Attribute => V1Attribute
//@path crate::attribute::AttributeRef => V1AttributeRef
//@path crate::catalog::Catalog => V1Catalog
//@path crate::registry::Registry => V1Registry
//@path crate::registry::EntityAssociationOrigins => EntityAssociationOrigins
//@path crates/weaver_resolved_schema/src/registry.rs EntityAssociation => SpecAssociation
//@path crates/weaver_resolved_schema/src/registry.rs AttributeRef => V1AttributeRef
//@path crates/weaver_resolved_schema/src/catalog.rs Attribute => V1Attribute
//@path crates/weaver_resolved_schema/src/catalog.rs AttributeRef => V1AttributeRef
//@path crates/weaver_resolved_schema/src/catalog.rs Catalog => V1Catalog
//@path crates/weaver_resolved_schema/src/registry.rs Provenance => SemProvenance
//@path crates/weaver_resolved_schema/src/error.rs AttributeRef => V1AttributeRef
//@path crates/weaver_resolved_schema/src/lineage.rs Provenance => SemProvenance
//@path crates/weaver_semconv/src/entity_association.rs EntityAssociation => SpecAssociation
//@path weaver_semconv::entity_association::EntityAssociation => SpecAssociation
//@path weaver_semconv::attribute::AttributeRole => AttributeRole
//@type crates/weaver_semconv/src/stability.rs Stability
//@type crates/weaver_semconv/src/group.rs SpanKindSpec
//@type crates/weaver_semconv/src/v2/span.rs SpanName
//@type crates/weaver_semconv/src/provenance.rs Provenance as=SemProvenance
//@type crates/weaver_resolved_schema/src/error.rs Error
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_semconv/src/attribute.rs AttributeRole
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroupVisibilitySpec
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_semconv/src/entity_association.rs EntityAssociation as=SpecAssociation
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute as=V1Attribute
//@type crates/weaver_resolved_schema/src/attribute.rs AttributeRef as=V1AttributeRef
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
//@type crates/weaver_resolved_schema/src/registry.rs Group
//@type crates/weaver_resolved_schema/src/registry.rs EntityAssociationOrigins
//@type crates/weaver_resolved_schema/src/registry.rs Registry as=V1Registry
//@type crates/weaver_resolved_schema/src/catalog.rs RootAttribute
//@type crates/weaver_resolved_schema/src/catalog.rs Catalog as=V1Catalog
//@type crates/weaver_resolved_schema/src/v2/provenance.rs DependencyRef
//@type crates/weaver_resolved_schema/src/v2/provenance.rs Provenance
//@type crates/weaver_resolved_schema/src/v2/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/v2/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/v2/catalog.rs Catalog
//@type crates/weaver_resolved_schema/src/v2/entity.rs EntityRef
//@type crates/weaver_resolved_schema/src/v2/entity.rs EntityAssociation
//@type crates/weaver_resolved_schema/src/v2/entity.rs EntityAttributeRef
//@type crates/weaver_resolved_schema/src/v2/entity.rs Entity
//@type crates/weaver_resolved_schema/src/v2/entity.rs EntityRefinement
//@type crates/weaver_resolved_schema/src/v2/span.rs SpanAttributeRef
//@type crates/weaver_resolved_schema/src/v2/span.rs Span
//@type crates/weaver_resolved_schema/src/v2/span.rs SpanRefinement
//@type crates/weaver_resolved_schema/src/v2/metric.rs MetricAttributeRef
//@type crates/weaver_resolved_schema/src/v2/metric.rs Metric
//@type crates/weaver_resolved_schema/src/v2/metric.rs MetricRefinement
//@type crates/weaver_resolved_schema/src/v2/event.rs EventAttributeRef
//@type crates/weaver_resolved_schema/src/v2/event.rs Event
//@type crates/weaver_resolved_schema/src/v2/event.rs EventRefinement
//@type crates/weaver_resolved_schema/src/v2/attribute_group.rs AttributeGroupAttributeRef
//@type crates/weaver_resolved_schema/src/v2/attribute_group.rs AttributeGroup
//@type crates/weaver_resolved_schema/src/v2/registry.rs Registry
//@type crates/weaver_resolved_schema/src/v2/refinements.rs Refinements
//@type crates/weaver_resolved_schema/src/v2/mod.rs EntityRefResolver

pub open spec fn stab_default() -> Stability { Stability::Development }
//@fn crates/weaver_semconv/src/stability.rs Default for Stability::default
    ensures r == stab_default()
//@end
impl VDefault for Stability { open spec fn vdef(s: Self) -> bool { s == stab_default() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
pub open spec fn prov_default(p: Provenance) -> bool { p.source is None && p.path@ == Seq::<char>::empty() }
impl Provenance { #[verifier::external_body] pub fn default() -> (r: Self) ensures prov_default(r) { unimplemented!() } }
impl VDefault for Provenance { open spec fn vdef(s: Self) -> bool { prov_default(s) } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl SchemaUrl {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == url_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures *r == url_name(*self) { unimplemented!() }
}
/// the catalog entry is the attribute, but for what the groups keep to themselves (requirement level, role, …)
pub open spec fn same_attribute(a: Attribute, v: V1Attribute) -> bool {
    &&& a.key == v.name &&& a.type_ == v.type_ &&& a.examples == v.examples &&& a.common.brief == v.brief &&& a.common.note == v.note
    &&& a.common.deprecated == v.deprecated &&& a.common.stability == (match v.stability { Some(s) => s, None => stab_default() })
    &&& (match v.annotations { Some(x) => a.common.annotations == x, None => a.common.annotations.m@ == Map::<String, YamlValue>::empty() }) }
pub open spec fn indexed(c: Catalog) -> bool {
    &&& forall|k: String, j: int| #[trigger] c.lookup.m@.contains_key(k) && 0 <= j < c.lookup.m@[k]@.len() ==> (#[trigger] c.lookup.m@[k]@[j]) < c.attributes@.len()
    &&& forall|i: int| 0 <= i < c.attributes@.len() ==> c.lookup.m@.contains_key((#[trigger] c.attributes@[i]).key) && idx_in(c.lookup.m@[c.attributes@[i].key], i) }
pub open spec fn idx_in(v: Vec<usize>, i: int) -> bool { exists|j: int| 0 <= j < v@.len() && #[trigger] v@[j] == i }
//@fn crates/weaver_resolved_schema/src/v2/catalog.rs Catalog::from_attributes
    ensures permuted(attributes@, r.attributes@), indexed(r)
//@loop 0
    refs_of(__s0@, attributes@),
    forall|k: String, j: int| #[trigger] lookup.m@.contains_key(k) && 0 <= j < lookup.m@[k]@.len() ==> (#[trigger] lookup.m@[k]@[j]) < __i0,
    forall|i: int| 0 <= i < __i0 ==> lookup.m@.contains_key((#[trigger] attributes@[i]).key) && idx_in(lookup.m@[attributes@[i].key], i),
//@at loop0.start
    let ghost l0 = lookup.m@;
//@at loop0.end
    proof { let k = attributes@[__i0 - 1].key; let v = lookup.m@[k]@; assert(v[v.len() - 1] == __i0 - 1);
        assert forall|i: int| 0 <= i < __i0 implies lookup.m@.contains_key((#[trigger] attributes@[i]).key) && idx_in(lookup.m@[attributes@[i].key], i) by {
            if i < __i0 - 1 && attributes@[i].key == k { let j = choose|j: int| 0 <= j < l0[k]@.len() && #[trigger] l0[k]@[j] == i; assert(v[j] == i); } } }
//@end
//@fn crates/weaver_resolved_schema/src/v2/catalog.rs Catalog::convert_ref
    requires indexed(*self), self.attributes@.len() <= u32::MAX
    ensures match r { Some(x) => x.0 < self.attributes@.len() && same_attribute(self.attributes@[x.0 as int], *attribute), None => forall|i: int| 0 <= i < self.attributes@.len() ==> !same_attribute(#[trigger] self.attributes@[i], *attribute) }
//@subst attribute: &Attribute) => attribute: &V1Attribute)
//@loop 0 acc=Option<AttributeRef>
    self.lookup.m@.contains_key(attribute.name), refs_of(__s0@, self.lookup.m@[attribute.name]@),
    match __a0 { Some(x) => x.0 < self.attributes@.len() && same_attribute(self.attributes@[x.0 as int], *attribute), None => forall|j: int| 0 <= j < __i0 ==> !same_attribute(self.attributes@[#[trigger] self.lookup.m@[attribute.name]@[j] as int], *attribute) },
//@at loop0.after
    proof { if __a0 is None { assert forall|i: int| 0 <= i < self.attributes@.len() implies !same_attribute(#[trigger] self.attributes@[i], *attribute) by { if self.attributes@[i].key == attribute.name { assert(idx_in(self.lookup.m@[attribute.name], i)); } } } }
//@end
//@fn crates/weaver_resolved_schema/src/v2/entity.rs EntityRef::local
    ensures r.type_ == type_, prov_default(r.provenance)
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::attribute
    ensures match r { Some(x) => attribute_ref.0 < self.attributes@.len() && *x == self.attributes@[attribute_ref.0 as int], None => attribute_ref.0 >= self.attributes@.len() }
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::attributes
    ensures refs_of(r@, self.attributes@)
//@end
impl Catalog { #[verifier::external_body] pub fn into(self) -> (r: Vec<Attribute>) ensures r == self.attributes { unimplemented!() } }
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::root_attribute
    ensures match r { Some(p) => self.root_attributes.m@.contains_key(*name) && *p.1 == self.root_attributes.m@[*name].source_group, None => !self.root_attributes.m@.contains_key(*name) }
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::attribute
    ensures match r { Some(x) => self.attributes.m@.contains_key(*attr_id) && *x == self.attributes.m@[*attr_id], None => !self.attributes.m@.contains_key(*attr_id) }
//@end

//@include v2_ids.vrs
// ------------------------------------------------------------------ what an association becomes
pub open spec fn origin_of(o: EntityAssociationOrigins, gid: String, name: String) -> Option<SchemaUrl> { if o.m@.contains_key(gid) && o.m@[gid].m@.contains_key(name) { Some(o.m@[gid].m@[name]) } else { None } }
pub open spec fn eref_conv(x: EntityRefResolver, gid: String, name: String, e: EntityRef) -> bool {
    &&& e.type_ == sid(name) &&& e.provenance.path@ == Seq::<char>::empty()
    &&& match origin_of(*x.origins, gid, name) {
        None => x.local.m@.contains_key(sid(name)) && e.provenance.source is None,
        Some(u) => { let s = if x.dep_index.m@.contains_key(&u) { Some(x.dep_index.m@[&u]) } else { None };
            e.provenance.source == (if x.local.m@.contains_key(sid(name)) && x.local.m@[sid(name)] == s { None } else { s }) } } }
/// nothing defines the name
pub open spec fn dangling(x: EntityRefResolver, gid: String, name: String) -> bool { origin_of(*x.origins, gid, name) is None && !x.local.m@.contains_key(sid(name)) }
pub open spec fn assoc_conv(x: EntityRefResolver, gid: String, a: SpecAssociation, b: EntityAssociation) -> bool decreases a {
    match (a, b) {
        (SpecAssociation::Ref(n), EntityAssociation::Ref(e)) => eref_conv(x, gid, n, e),
        (SpecAssociation::OneOf { one_of: p }, EntityAssociation::OneOf { one_of: q }) => p@.len() == q@.len() && forall|i: int| 0 <= i < p@.len() ==> assoc_conv(x, gid, #[trigger] p@[i], q@[i]),
        (SpecAssociation::AllOf { all_of: p }, EntityAssociation::AllOf { all_of: q }) => p@.len() == q@.len() && forall|i: int| 0 <= i < p@.len() ==> assoc_conv(x, gid, #[trigger] p@[i], q@[i]),
        _ => false } }
pub open spec fn assocs_conv(x: EntityRefResolver, gid: String, a: Seq<SpecAssociation>, b: Seq<EntityAssociation>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> assoc_conv(x, gid, #[trigger] a[i], b[i]) }
//@fn crates/weaver_resolved_schema/src/v2/mod.rs EntityRefResolver::resolve
    ensures match r { Some(e) => eref_conv(*self, *group_id, *name, e), None => dangling(*self, *group_id, *name) }
//@subst dep_index.get(origin) => dep_index.get(&origin)
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs convert_entity_associations
    ensures match r { Ok(v) => assocs_conv(*entity_refs, *group_id, associations@, v@), Err(_) => associations@.len() > 0 }
    decreases associations
//@loop 0 acc=Result<Vec<EntityAssociation>,Error>
    refs_of(__s0@, associations@), __z0 is None, __a0@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> assoc_conv(*entity_refs, *group_id, #[trigger] associations@[i], __a0@[i]),
//@at loop0.end
    proof { let a = associations@[__i0 - 1]; let b = __a0@[__i0 - 1]; assert(assoc_conv(*entity_refs, *group_id, a, b)) by {
        match (a, b) {
            (SpecAssociation::OneOf { one_of: p }, EntityAssociation::OneOf { one_of: q }) => { assert(assocs_conv(*entity_refs, *group_id, p@, q@)); assert(assoc_conv(*entity_refs, *group_id, a, b)); }
            (SpecAssociation::AllOf { all_of: p }, EntityAssociation::AllOf { all_of: q }) => { assert(assocs_conv(*entity_refs, *group_id, p@, q@)); assert(assoc_conv(*entity_refs, *group_id, a, b)); }
            (SpecAssociation::Ref(n), EntityAssociation::Ref(e)) => { assert(eref_conv(*entity_refs, *group_id, n, e)); assert(assoc_conv(*entity_refs, *group_id, a, b)); }
            _ => { assert(false); } } } }
//@end

// ------------------------------------------------------------------ what an attribute reference becomes
pub open spec fn in_cat(cat: Seq<Attribute>, v: V1Attribute) -> bool { exists|j: int| 0 <= j < cat.len() && same_attribute(#[trigger] cat[j], v) }
pub open spec fn complete(cat: Seq<Attribute>, c: V1Catalog) -> bool { forall|i: int| 0 <= i < c.attributes@.len() ==> in_cat(cat, #[trigger] c.attributes@[i]) }
pub open spec fn from_v1(c: V1Catalog, a: Attribute) -> bool { exists|i: int| 0 <= i < c.attributes@.len() && same_attribute(a, #[trigger] c.attributes@[i]) }
pub open spec fn ref_conv(cat: Seq<Attribute>, c: V1Catalog, a: V1AttributeRef, b: AttributeRef) -> bool { a.0 < c.attributes@.len() && b.0 < cat.len() && same_attribute(cat[b.0 as int], c.attributes@[a.0 as int]) }
//@fn crates/weaver_resolved_schema/src/v2/mod.rs convert_attribute_ref
    requires indexed(*v2_catalog), v2_catalog.attributes@.len() <= u32::MAX, complete(v2_catalog.attributes@, *c)
    ensures match r { Ok(p) => ref_conv(v2_catalog.attributes@, *c, *attr_ref, p.1) && *p.0 == c.attributes@[attr_ref.0 as int], Err(_) => attr_ref.0 >= c.attributes@.len() }
//@end

// ------------------------------------------------------------------ the conversion, group by group
pub ghost struct Ctx { pub cat: Seq<Attribute>, pub c: V1Catalog, pub gs: Seq<Group>, pub url: Seq<char>, pub deps: Seq<SchemaUrl> }
pub uninterp spec fn url_text(u: SchemaUrl) -> String;
pub uninterp spec fn url_name(u: SchemaUrl) -> String;
pub open spec fn first_at(deps: Seq<SchemaUrl>, u: SchemaUrl, i: int) -> bool { 0 <= i < deps.len() && deps[i] == u && forall|j: int| 0 <= j < i ==> #[trigger] deps[j] != u }
/// where the group comes from: its file, and the dependency that declared it (none: this registry)
pub open spec fn prov_of(deps: Seq<SchemaUrl>, url: Seq<char>, g: Group, p: Provenance) -> bool {
    match g.lineage {
        None => prov_default(p),
        Some(l) => p.path@ == l.provenance.path@ && (match p.source {
            None => url_text(l.provenance.schema_url)@ == url || !deps.contains(l.provenance.schema_url),
            Some(d) => url_text(l.provenance.schema_url)@ != url && exists|i: int| #[trigger] first_at(deps, l.provenance.schema_url, i) && d.0 == i as u32 }) } }
// where an attribute was first defined: the group whose lineage says so, else the root recorded in the catalog, which may be a group here or in a v2 dependency
pub open spec fn defs_here(g: Group, n: String) -> bool { match g.lineage { Some(l) => l.attributes.m@.contains_key(n) && l.attributes.m@[n].source_group == g.id, None => false } }
pub open spec fn first_def(gs: Seq<Group>, n: String, k: int) -> bool { 0 <= k < gs.len() && defs_here(gs[k], n) && forall|j: int| 0 <= j < k ==> !defs_here(#[trigger] gs[j], n) }
pub open spec fn first_dep(deps: Seq<SchemaUrl>, n: Seq<char>, i: int) -> bool { 0 <= i < deps.len() && url_name(deps[i])@ == n && forall|j: int| 0 <= j < i ==> url_name(#[trigger] deps[j])@ != n }
pub open spec fn root_prov(gs: Seq<Group>, deps: Seq<SchemaUrl>, url: Seq<char>, s: String, p: Provenance) -> bool {
    (exists|k: int| #[trigger] first_group(gs, s, k) && prov_of(deps, url, gs[k], p))
    || ((forall|k: int| 0 <= k < gs.len() ==> (#[trigger] gs[k]).id != s) && (if "v2_dependency."@.is_prefix_of(s@) { p.path@ == Seq::<char>::empty() && (match p.source {
            Some(d) => exists|i: int| #[trigger] first_dep(deps, s@.skip("v2_dependency."@.len() as int), i) && d.0 == i as u32,
            None => forall|i: int| 0 <= i < deps.len() ==> url_name(#[trigger] deps[i])@ != s@.skip("v2_dependency."@.len() as int) }) } else { prov_default(p) })) }
pub open spec fn attr_prov(roots: Map<String, RootAttribute>, gs: Seq<Group>, deps: Seq<SchemaUrl>, url: Seq<char>, n: String, p: Provenance) -> bool {
    (exists|k: int| #[trigger] first_def(gs, n, k) && prov_of(deps, url, gs[k], p))
    || ((forall|k: int| 0 <= k < gs.len() ==> !defs_here(#[trigger] gs[k], n)) && (if roots.contains_key(n) { root_prov(gs, deps, url, roots[n].source_group, p) } else { prov_default(p) })) }
pub open spec fn common_of(m: CommonFields, g: Group) -> bool {
    &&& m.brief == g.brief &&& m.note == g.note &&& m.deprecated == g.deprecated &&& m.stability == (match g.stability { Some(s) => s, None => stab_default() })
    &&& (match g.annotations { Some(x) => m.annotations == x, None => m.annotations.m@ == Map::<String, YamlValue>::empty() }) }
pub open spec fn refs_ok(c: V1Catalog, g: Group) -> bool { forall|i: int| 0 <= i < g.attributes@.len() ==> (#[trigger] g.attributes@[i]).0 < c.attributes@.len() }
pub open spec fn sref(x: Ctx, a: V1AttributeRef, o: SpanAttributeRef) -> bool { ref_conv(x.cat, x.c, a, o.base) && o.requirement_level == x.c.attributes@[a.0 as int].requirement_level && o.sampling_relevant == x.c.attributes@[a.0 as int].sampling_relevant }
pub open spec fn mref(x: Ctx, a: V1AttributeRef, o: MetricAttributeRef) -> bool { ref_conv(x.cat, x.c, a, o.base) && o.requirement_level == x.c.attributes@[a.0 as int].requirement_level }
pub open spec fn vref(x: Ctx, a: V1AttributeRef, o: EventAttributeRef) -> bool { ref_conv(x.cat, x.c, a, o.base) && o.requirement_level == x.c.attributes@[a.0 as int].requirement_level }
pub open spec fn gref(x: Ctx, a: V1AttributeRef, o: AttributeGroupAttributeRef) -> bool { ref_conv(x.cat, x.c, a, o.base) && o.requirement_level == x.c.attributes@[a.0 as int].requirement_level }
pub open spec fn eref(x: Ctx, a: V1AttributeRef, o: EntityAttributeRef) -> bool { ref_conv(x.cat, x.c, a, o.base) && o.requirement_level == x.c.attributes@[a.0 as int].requirement_level }
// every attribute of the group, in order: none lost, none added
pub open spec fn srefs(x: Ctx, a: Seq<V1AttributeRef>, o: Seq<SpanAttributeRef>) -> bool { a.len() == o.len() && forall|i: int| 0 <= i < a.len() ==> sref(x, #[trigger] a[i], o[i]) }
pub open spec fn mrefs(x: Ctx, a: Seq<V1AttributeRef>, o: Seq<MetricAttributeRef>) -> bool { a.len() == o.len() && forall|i: int| 0 <= i < a.len() ==> mref(x, #[trigger] a[i], o[i]) }
pub open spec fn vrefs(x: Ctx, a: Seq<V1AttributeRef>, o: Seq<EventAttributeRef>) -> bool { a.len() == o.len() && forall|i: int| 0 <= i < a.len() ==> vref(x, #[trigger] a[i], o[i]) }
pub open spec fn grefs(x: Ctx, a: Seq<V1AttributeRef>, o: Seq<AttributeGroupAttributeRef>) -> bool { a.len() == o.len() && forall|i: int| 0 <= i < a.len() ==> gref(x, #[trigger] a[i], o[i]) }
/// the identifying attributes and the others, each in order
pub open spec fn erefs(x: Ctx, a: Seq<V1AttributeRef>, ids: Seq<EntityAttributeRef>, ds: Seq<EntityAttributeRef>) -> bool decreases a.len() {
    if a.len() == 0 { ids.len() == 0 && ds.len() == 0 }
    else if a.last().0 < x.c.attributes@.len() && x.c.attributes@[a.last().0 as int].role == Some(AttributeRole::Identifying) { ids.len() > 0 && eref(x, a.last(), ids.last()) && erefs(x, a.drop_last(), ids.drop_last(), ds) }
    else { ds.len() > 0 && eref(x, a.last(), ds.last()) && erefs(x, a.drop_last(), ids, ds.drop_last()) } }
pub open spec fn kind_of(g: Group) -> SpanKindSpec { match g.span_kind { Some(k) => k, None => SpanKindSpec::Internal } }
pub open spec fn span_name_of(g: Group, n: SpanName) -> bool { match g.span_name { Some(m) => n == m, None => match g.name { Some(s) => n.note == s, None => n.note@.len() == 0 } } }
/// the span a group declares; `ty` is the span type it declares or refines
pub open spec fn span_one(x: Ctx, y: EntityRefResolver, g: Group, s: Span) -> bool {
    &&& s.type_ == (if refines(g) { stripped("span."@, extends_of(g)->0) } else { stripped("span."@, g.id) })
    &&& refines(g) ==> extends_of(g) is Some
    &&& s.kind == kind_of(g) &&& span_name_of(g, s.name) &&& srefs(x, g.attributes@, s.attributes@) &&& assocs_conv(y, g.id, g.entity_associations@, s.entity_associations@)
    &&& s.requirement_level == g.requirement_level &&& common_of(s.common, g) &&& prov_of(x.deps, x.url, g, s.provenance) }
pub open spec fn metric_one(x: Ctx, y: EntityRefResolver, g: Group, s: Metric) -> bool {
    &&& g.metric_name is Some && s.name == sid(g.metric_name->0) &&& g.instrument == Some(s.instrument) &&& g.unit == Some(s.unit)
    &&& mrefs(x, g.attributes@, s.attributes@) &&& assocs_conv(y, g.id, g.entity_associations@, s.entity_associations@)
    &&& s.requirement_level == g.requirement_level &&& common_of(s.common, g) &&& prov_of(x.deps, x.url, g, s.provenance) }
pub open spec fn event_one(x: Ctx, y: EntityRefResolver, g: Group, s: Event) -> bool {
    &&& g.name is Some && s.name == sid(g.name->0)
    &&& vrefs(x, g.attributes@, s.attributes@) &&& assocs_conv(y, g.id, g.entity_associations@, s.entity_associations@)
    &&& s.requirement_level == g.requirement_level &&& common_of(s.common, g) &&& prov_of(x.deps, x.url, g, s.provenance) }
pub open spec fn group_one(x: Ctx, g: Group, s: AttributeGroup) -> bool {
    &&& v2_id(g) == Some(s.id) &&& grefs(x, g.attributes@, s.attributes@) &&& common_of(s.common, g) &&& prov_of(x.deps, x.url, g, s.provenance) }
/// the type of the entity that a refinement extends: the base declares it
pub open spec fn base_type(gs: Seq<Group>, e: String, t: SignalId) -> bool {
    ((forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).id != e) && t == stripped("entity."@, e)) || exists|i: int| #[trigger] first_group(gs, e, i) && t == ent_type_of(gs[i]) }
pub open spec fn first_group(gs: Seq<Group>, e: String, i: int) -> bool { 0 <= i < gs.len() && gs[i].id == e && forall|j: int| 0 <= j < i ==> (#[trigger] gs[j]).id != e }
pub open spec fn entity_one(x: Ctx, g: Group, s: Entity) -> bool {
    &&& (if refines(g) { extends_of(g) is Some && base_type(x.gs, extends_of(g)->0, s.type_) } else { s.type_ == ent_type_of(g) })
    &&& erefs(x, g.attributes@, s.identity@, s.description@) &&& s.requirement_level == g.requirement_level &&& common_of(s.common, g) &&& prov_of(x.deps, x.url, g, s.provenance) }
// one refinement entry per group of the kind, in order, under the id of `v2_id`; the definitions are the groups that refine nothing
pub open spec fn spans_conv(x: Ctx, y: EntityRefResolver, gs: Seq<Group>, d: Seq<Span>, r: Seq<SpanRefinement>) -> bool decreases gs.len() {
    if gs.len() == 0 { d.len() == 0 && r.len() == 0 } else if gs.last().type_ != GroupType::Span { spans_conv(x, y, gs.drop_last(), d, r) }
    else { r.len() > 0 && v2_id(gs.last()) == Some(r.last().id) && span_one(x, y, gs.last(), r.last().span)
        && (if refines(gs.last()) { spans_conv(x, y, gs.drop_last(), d, r.drop_last()) } else { d.len() > 0 && d.last() == r.last().span && spans_conv(x, y, gs.drop_last(), d.drop_last(), r.drop_last()) }) } }
pub open spec fn metrics_conv(x: Ctx, y: EntityRefResolver, gs: Seq<Group>, d: Seq<Metric>, r: Seq<MetricRefinement>) -> bool decreases gs.len() {
    if gs.len() == 0 { d.len() == 0 && r.len() == 0 } else if gs.last().type_ != GroupType::Metric { metrics_conv(x, y, gs.drop_last(), d, r) }
    else { r.len() > 0 && v2_id(gs.last()) == Some(r.last().id) && metric_one(x, y, gs.last(), r.last().metric)
        && (if refines(gs.last()) { metrics_conv(x, y, gs.drop_last(), d, r.drop_last()) } else { d.len() > 0 && d.last() == r.last().metric && metrics_conv(x, y, gs.drop_last(), d.drop_last(), r.drop_last()) }) } }
pub open spec fn events_conv(x: Ctx, y: EntityRefResolver, gs: Seq<Group>, d: Seq<Event>, r: Seq<EventRefinement>) -> bool decreases gs.len() {
    if gs.len() == 0 { d.len() == 0 && r.len() == 0 } else if gs.last().type_ != GroupType::Event { events_conv(x, y, gs.drop_last(), d, r) }
    else { r.len() > 0 && v2_id(gs.last()) == Some(r.last().id) && event_one(x, y, gs.last(), r.last().event)
        && (if refines(gs.last()) { events_conv(x, y, gs.drop_last(), d, r.drop_last()) } else { d.len() > 0 && d.last() == r.last().event && events_conv(x, y, gs.drop_last(), d.drop_last(), r.drop_last()) }) } }
pub open spec fn entities_conv(x: Ctx, gs: Seq<Group>, d: Seq<Entity>, r: Seq<EntityRefinement>) -> bool decreases gs.len() {
    if gs.len() == 0 { d.len() == 0 && r.len() == 0 } else if gs.last().type_ != GroupType::Entity { entities_conv(x, gs.drop_last(), d, r) }
    else { r.len() > 0 && v2_id(gs.last()) == Some(r.last().id) && entity_one(x, gs.last(), r.last().entity)
        && (if refines(gs.last()) { entities_conv(x, gs.drop_last(), d, r.drop_last()) } else { d.len() > 0 && d.last() == r.last().entity && entities_conv(x, gs.drop_last(), d.drop_last(), r.drop_last()) }) } }
/// the attribute groups declared public, and only those
pub open spec fn groups_conv(x: Ctx, gs: Seq<Group>, d: Seq<AttributeGroup>) -> bool decreases gs.len() {
    if gs.len() == 0 { d.len() == 0 } else if gs.last().type_ == GroupType::AttributeGroup && gs.last().visibility == Some(AttributeGroupVisibilitySpec::Public) { d.len() > 0 && group_one(x, gs.last(), d.last()) && groups_conv(x, gs.drop_last(), d.drop_last()) }
    else { groups_conv(x, gs.drop_last(), d) } }
/// the entities an association may name, and where each was declared
pub open spec fn local_names(r: Seq<EntityRefinement>) -> Map<SignalId, Option<DependencyRef>> decreases r.len() {
    if r.len() == 0 { Map::empty() } else { local_names(r.drop_last()).insert(r.last().id, r.last().entity.provenance.source) } }
pub open spec fn dep_refs<'a>(m: Map<&'a SchemaUrl, DependencyRef>, deps: Seq<SchemaUrl>) -> bool {
    (forall|u: SchemaUrl| #![trigger deps.contains(u)] m.contains_key(&u) == deps.contains(u)) && forall|i: int| 0 <= i < deps.len() ==> m[&#[trigger] deps[i]] == DependencyRef(i as u32) }
/// the group defines the attribute (it has no lineage there)
pub open spec fn defines(c: V1Catalog, g: Group, i: int) -> bool { 0 <= i < g.attributes@.len() && (match g.lineage { Some(l) => !l.attributes.m@.contains_key(c.attributes@[g.attributes@[i].0 as int].name), None => true }) }
pub open spec fn listed(cat: Seq<Attribute>, c: V1Catalog, gs: Seq<Group>, b: AttributeRef) -> bool { exists|k: int, i: int| 0 <= k < gs.len() && #[trigger] defines(c, gs[k], i) && ref_conv(cat, c, gs[k].attributes@[i], b) }
pub open spec fn lists(cat: Seq<Attribute>, c: V1Catalog, a: V1AttributeRef, o: Seq<AttributeRef>) -> bool { exists|j: int| 0 <= j < o.len() && ref_conv(cat, c, a, #[trigger] o[j]) }
/// the registry's attributes: each definition, once, in catalog order
pub open spec fn attrs_conv(cat: Seq<Attribute>, c: V1Catalog, gs: Seq<Group>, o: Seq<AttributeRef>) -> bool {
    (forall|j: int| 0 <= j < o.len() ==> listed(cat, c, gs, #[trigger] o[j])) && (forall|k: int, i: int| 0 <= k < gs.len() && #[trigger] defines(c, gs[k], i) ==> lists(cat, c, gs[k].attributes@[i], o)) }
pub open spec fn increasing(o: Seq<AttributeRef>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 < (#[trigger] o[j]).0 }
/// a group the conversion may refuse
pub open spec fn refusable(g: Group) -> bool { (g.type_ == GroupType::Event && g.name is None) || (refines(g) && extends_of(g) is None) || g.entity_associations@.len() > 0 }
pub open spec fn v1_ok(c: V1Catalog, r: V1Registry) -> bool {
    &&& c.attributes@.len() <= u32::MAX
    &&& forall|k: int| 0 <= k < r.groups@.len() ==> refs_ok(c, #[trigger] r.groups@[k]) && (r.groups@[k].type_ == GroupType::Metric ==> r.groups@[k].metric_name is Some && r.groups@[k].instrument is Some && r.groups@[k].unit is Some) }
/// every catalog entry says where it was first defined
pub open spec fn provs(x: Ctx) -> bool { forall|j: int| 0 <= j < x.cat.len() ==> attr_prov(x.c.root_attributes@, x.gs, x.deps, x.url, (#[trigger] x.cat[j]).key, x.cat[j].provenance) }
pub open spec fn converted(x: Ctx, y: EntityRefResolver, reg: Registry, rf: Refinements) -> bool {
    &&& spans_conv(x, y, x.gs, reg.spans@, rf.spans@) &&& metrics_conv(x, y, x.gs, reg.metrics@, rf.metrics@) &&& events_conv(x, y, x.gs, reg.events@, rf.events@) &&& entities_conv(x, x.gs, reg.entities@, rf.entities@)
    &&& groups_conv(x, x.gs, reg.attribute_groups@)
    &&& attrs_conv(x.cat, x.c, x.gs, reg.attributes@) &&& increasing(reg.attributes@)
    &&& complete(x.cat, x.c) &&& all_v1(x.c, x.cat) &&& provs(x) &&& x.cat.no_duplicates() }

/// what the loops keep
pub open spec fn ctx_ok(x: Ctx, c: V1Catalog, r: V1Registry, v: Catalog, deps: Seq<SchemaUrl>, gs: Seq<Group>) -> bool {
    &&& x.c == c &&& x.cat == v.attributes@ &&& x.gs == gs &&& gs == r.groups@ &&& x.deps == deps &&& x.url == r.registry_url@ &&& indexed(v) &&& x.cat.len() <= u32::MAX &&& complete(x.cat, c) &&& v1_ok(c, r) }
pub open spec fn in_set(a: Set<Attribute>, v: V1Attribute) -> bool { exists|t: Attribute| #[trigger] a.contains(t) && same_attribute(t, v) }
pub open spec fn ar_le(a: AttributeRef, b: AttributeRef) -> bool { a.0 <= b.0 }
pub proof fn lemma_dedup(s: Seq<AttributeRef>) requires sorted_by(s, |a: AttributeRef, b: AttributeRef| ar_le(a, b))
    ensures increasing(deduped(s)), forall|b: AttributeRef| #[trigger] deduped(s).contains(b) == s.contains(b), deduped(s).len() > 0 <==> s.len() > 0, s.len() > 0 ==> deduped(s).last() == s.last() decreases s.len()
{
    let le = |a: AttributeRef, b: AttributeRef| ar_le(a, b);
    if s.len() > 1 {
        let p = s.drop_last(); let d = deduped(p); assert(sorted_by(p, le)); lemma_dedup(p);
        assert(p.last() == s[s.len() - 2]); assert(le(s[s.len() - 2], s[s.len() - 1]));
        assert forall|b: AttributeRef| #[trigger] deduped(s).contains(b) == s.contains(b) by {
            if s.contains(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; if i < p.len() { assert(p[i] == b); assert(p.contains(b)); } else if s.last() == p.last() { assert(p[p.len() - 1] == b); assert(p.contains(b)); }
                if s.last() != p.last() { if d.contains(b) { let j = choose|j: int| 0 <= j < d.len() && d[j] == b; assert(d.push(s.last())[j] == b); } else { assert(d.push(s.last())[d.len() as int] == s.last()); } } }
            if deduped(s).contains(b) { let j = choose|j: int| 0 <= j < deduped(s).len() && deduped(s)[j] == b;
                if s.last() == p.last() { assert(d.contains(b)); } else if j < d.len() { assert(d[j] == b); assert(d.contains(b)); } else { assert(s[s.len() - 1] == b); }
                if p.contains(b) { let i = choose|i: int| 0 <= i < p.len() && p[i] == b; assert(s[i] == b); } } }
        if s.last() != p.last() {
            assert forall|i: int, j: int| 0 <= i < j < deduped(s).len() implies (#[trigger] deduped(s)[i]).0 < (#[trigger] deduped(s)[j]).0 by {
                if j == d.len() { if i < d.len() - 1 { assert(d[i].0 < d[d.len() - 1].0); } assert(d[d.len() - 1] == p.last()); assert(s.last().0 != p.last().0); } } } } }
pub open spec fn all_v1(c: V1Catalog, cat: Seq<Attribute>) -> bool { forall|j: int| 0 <= j < cat.len() ==> from_v1(c, #[trigger] cat[j]) }
pub proof fn lemma_from_set(s: Seq<Attribute>, m: Set<Attribute>, c: V1Catalog)
    requires enumerates(s, m), forall|i: int| 0 <= i < c.attributes@.len() ==> in_set(m, #[trigger] c.attributes@[i]), forall|t: Attribute| #[trigger] m.contains(t) ==> from_v1(c, t)
    ensures complete(s, c), all_v1(c, s), s.len() == m.len()
{
    s.unique_seq_to_set();
    assert forall|i: int| 0 <= i < c.attributes@.len() implies in_cat(s, #[trigger] c.attributes@[i]) by { assert(in_set(m, c.attributes@[i])); let u = choose|u: Attribute| #[trigger] m.contains(u) && same_attribute(u, c.attributes@[i]); assert(s.to_set().contains(u)); let j = choose|j: int| 0 <= j < s.len() && s[j] == u; assert(same_attribute(s[j], c.attributes@[i])); }
    assert forall|j: int| 0 <= j < s.len() implies from_v1(c, #[trigger] s[j]) by { assert(s.to_set().contains(s[j])); }
}
pub proof fn lemma_perm_cat(a: Seq<Attribute>, b: Seq<Attribute>, c: V1Catalog) requires complete(a, c), all_v1(c, a), permuted(a, b), a.no_duplicates() ensures complete(b, c), all_v1(c, b), b.len() == a.len(), b.no_duplicates()
{
    assert forall|i: int| 0 <= i < c.attributes@.len() implies in_cat(b, #[trigger] c.attributes@[i]) by { assert(in_cat(a, c.attributes@[i])); let j = choose|j: int| 0 <= j < a.len() && same_attribute(#[trigger] a[j], c.attributes@[i]); assert(a.contains(a[j])); assert(b.contains(a[j])); let m = choose|m: int| 0 <= m < b.len() && b[m] == a[j]; assert(same_attribute(b[m], c.attributes@[i])); }
    assert forall|j: int| 0 <= j < b.len() implies from_v1(c, #[trigger] b[j]) by { assert(b.contains(b[j])); assert(a.contains(b[j])); }
}
pub proof fn lemma_attrs(cat: Seq<Attribute>, c: V1Catalog, gs: Seq<Group>, s0: Seq<AttributeRef>, s1: Seq<AttributeRef>) requires attrs_conv(cat, c, gs, s0), permuted(s0, s1), sorted_by(s1, |a: AttributeRef, b: AttributeRef| ar_le(a, b))
    ensures attrs_conv(cat, c, gs, deduped(s1)), increasing(deduped(s1))
{
    let f = deduped(s1); lemma_dedup(s1);
    assert forall|j: int| 0 <= j < f.len() implies listed(cat, c, gs, #[trigger] f[j]) by { assert(f.contains(f[j])); assert(s1.contains(f[j])); assert(s0.contains(f[j])); }
    assert forall|k: int, i: int| 0 <= k < gs.len() && #[trigger] defines(c, gs[k], i) implies lists(cat, c, gs[k].attributes@[i], f) by { let a = gs[k].attributes@[i]; assert(lists(cat, c, a, s0)); let j = choose|j: int| 0 <= j < s0.len() && ref_conv(cat, c, a, #[trigger] s0[j]);
        assert(s0.contains(s0[j])); assert(s1.contains(s0[j])); assert(f.contains(s0[j])); let m = choose|m: int| 0 <= m < f.len() && f[m] == s0[j]; assert(ref_conv(cat, c, a, f[m])); }
}
pub proof fn lemma_enum_refs<T>(s: Seq<&T>, m: Set<T>, v: Seq<T>) requires enumerates_r(s, m), v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] v[i] == *s[i] ensures enumerates(v, m) {
    assert forall|u: T| v.to_set().contains(u) == m.contains(u) by {
        if m.contains(u) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == u; assert(v[i] == u); }
        if v.contains(u) { let i = choose|i: int| 0 <= i < v.len() && v[i] == u; assert(*s[i] == u); } }
    assert(v.to_set() =~= m); }
pub proof fn lemma_other<T>(s: Seq<T>, j: int) requires s.no_duplicates(), 0 <= j < s.len() ensures forall|i: int| 0 <= i < s.len() && i != j ==> #[trigger] s[i] != s[j] {}
//@fn crates/weaver_resolved_schema/src/v2/mod.rs convert_v1_to_v2 ret=out rlimit=20 isolate
    requires v1_ok(c, r)
    ensures match out {
        Ok(o) => o.3 == dependencies && exists|x: Ctx, y: EntityRefResolver| #[trigger] converted(x, y, o.1, o.2) && x.cat == o.0@ && x.c == c && x.gs == r.groups@ && x.url == r.registry_url@ && enumerates(x.deps, dependencies.s@)
            && *y.origins == r.entity_association_origins && y.local.m@ == local_names(o.2.entities@) && dep_refs(y.dep_index.m@, x.deps),
        Err(_) => exists|k: int| 0 <= k < r.groups@.len() && refusable(#[trigger] r.groups@[k]) }
//@subst name.into() => name.into_sid()
//@subst vunwrap().into() => vunwrap().into_sid()
//@subst .dedup() => .vdedup()
//@sort 0 ar_le
//@at start
    hide(Seq::<SchemaUrl>::no_duplicates); hide(increasing);
    let ghost mut x0: Ctx; let ghost mut s0: Seq<AttributeRef> = Seq::empty(); let ghost mut s1: Seq<AttributeRef> = Seq::empty(); let ghost gs = r.groups@; let ghost mut a6: Seq<Attribute> = Seq::empty(); let ghost mut m6: Set<Attribute> = Set::empty();
    proof { x0 = Ctx { cat: Seq::empty(), c, gs, url: r.registry_url@, deps: Seq::empty() }; }
//@loop 0 acc=Vec<SchemaUrl>
    enumerates_r(__s0@, dependencies.s@), __a0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __a0@[i] == *__s0@[i],
//@at loop0.after
    proof { lemma_enum_refs(__s0@, dependencies.s@, __a0@); }
//@closure get_provenance
    ensures prov_of(deps_list@, r.registry_url@, *g, result)
//@loop 1 acc=Option<usize>
    refs_of(__s1@, deps_list@),
    except_break __a1 is None, forall|j: int| 0 <= j < __i1 ==> #[trigger] deps_list@[j] != p.schema_url,
    ensures (match __a1 { Some(i) => first_at(deps_list@, p.schema_url, i as int), None => !deps_list@.contains(p.schema_url) })
//@closure attr_provenance
    ensures attr_prov(c.root_attributes@, r.groups@, deps_list@, r.registry_url@, a.name, result)
//@loop 2
    forall|g: &Group| #[trigger] call_requires(get_provenance, (g,)), forall|g: &Group, p: Provenance| #[trigger] call_ensures(get_provenance, (g,), p) ==> prov_of(deps_list@, r.registry_url@, *g, p), refs_of(__s2@, r.groups@),
    forall|k: int| 0 <= k < __i2 ==> !defs_here(#[trigger] r.groups@[k], a.name),
//@at loop2.start
    proof { assert(defs_here(r.groups@[__i2 - 1], a.name) ==> first_def(r.groups@, a.name, __i2 - 1)); }
//@loop 3 acc=Option<&Group>
    refs_of(__s3@, r.groups@),
    except_break __a3 is None, forall|j: int| 0 <= j < __i3 ==> (#[trigger] r.groups@[j]).id != *source_group_id,
    ensures (match __a3 { Some(b) => exists|i: int| #[trigger] first_group(r.groups@, *source_group_id, i) && *b == r.groups@[i], None => forall|j: int| 0 <= j < r.groups@.len() ==> (#[trigger] r.groups@[j]).id != *source_group_id })
//@at loop3.start
    proof { assert(r.groups@[__i3 - 1].id == *source_group_id ==> first_group(r.groups@, *source_group_id, __i3 - 1)); }
//@loop 4 acc=Option<usize>
    refs_of(__s4@, deps_list@),
    except_break __a4 is None, forall|j: int| 0 <= j < __i4 ==> url_name(#[trigger] deps_list@[j])@ != dep_name@,
    ensures (match __a4 { Some(i) => first_dep(deps_list@, dep_name@, i as int), None => forall|j: int| 0 <= j < deps_list@.len() ==> url_name(#[trigger] deps_list@[j])@ != dep_name@ })
//@loop 5 acc=HashSet<Attribute>
    forall|a: &V1Attribute| #[trigger] call_requires(attr_provenance, (a,)), forall|a: &V1Attribute, p: Provenance| #[trigger] call_ensures(attr_provenance, (a,), p) ==> attr_prov(c.root_attributes@, r.groups@, deps_list@, r.registry_url@, a.name, p), forall|t: Attribute| #[trigger] __a5.s@.contains(t) ==> attr_prov(c.root_attributes@, r.groups@, deps_list@, r.registry_url@, t.key, t.provenance), refs_of(__s5@, c.attributes@), __a5.s@.len() <= __i5, forall|i: int| 0 <= i < __i5 ==> in_set(__a5.s@, #[trigger] c.attributes@[i]), forall|t: Attribute| #[trigger] __a5.s@.contains(t) ==> from_v1(c, t),
//@at loop5.start
    let ghost a0 = __a5.s@;
//@at loop5.end
    proof { let v = c.attributes@[__i5 - 1]; let t = choose|t: Attribute| __a5.s@ == a0.insert(t) && same_attribute(t, v); assert(__a5.s@.contains(t));
        assert forall|i: int| 0 <= i < __i5 implies in_set(__a5.s@, #[trigger] c.attributes@[i]) by { if i < __i5 - 1 { assert(in_set(a0, c.attributes@[i])); let u = choose|u: Attribute| #[trigger] a0.contains(u) && same_attribute(u, c.attributes@[i]); assert(__a5.s@.contains(u)); } } }
//@loop 6 acc=Vec<Attribute>
    enumerates(__s6@, attributes.s@), __a6@ =~= __s6@.take(__i6 as int),
//@at loop6.after
    proof { assert(__a6@ =~= __s6@); a6 = __a6@; m6 = attributes.s@; assert forall|t: Attribute| a6.contains(t) implies m6.contains(t) by { assert(__s6@.to_set().contains(t)); } lemma_from_set(__s6@, attributes.s@, c); }
//@at loop7.before
    proof { x0 = Ctx { cat: v2_catalog.attributes@, c, gs, url: r.registry_url@, deps: deps_list@ }; lemma_perm_cat(a6, x0.cat, c); assert(provs(x0)) by { assert forall|j: int| 0 <= j < x0.cat.len() implies attr_prov(c.root_attributes@, gs, deps_list@, r.registry_url@, (#[trigger] x0.cat[j]).key, x0.cat[j].provenance) by { assert(x0.cat.contains(x0.cat[j])); assert(a6.contains(x0.cat[j])); assert(m6.contains(x0.cat[j])); } } assert(gs.take(0).len() == 0); }
//@loop 7
    forall|g: &Group| #[trigger] call_requires(get_provenance, (g,)), forall|g: &Group, p: Provenance| #[trigger] call_ensures(get_provenance, (g,), p) ==> prov_of(x0.deps, x0.url, *g, p), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s7@, gs), entities_conv(x0, gs.take(__i7 as int), entities@, entity_refinements@),
//@at loop7.start
    let ghost (d0, r0) = (entities@, entity_refinements@);
    proof { assert(gs.take(__i7 as int).drop_last() =~= gs.take(__i7 - 1)); assert(refs_ok(c, gs[__i7 - 1])); }
//@at loop7.end
    proof { assert(entities@.drop_last() =~= d0 || entities@ == d0); assert(entity_refinements@.drop_last() =~= r0 || entity_refinements@ == r0); }
//@loop 8
    refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s8@, g.attributes@), erefs(x0, g.attributes@.take(__i8 as int), id_attrs@, desc_attrs@),
//@at loop8.start
    let ghost (i0, q0) = (id_attrs@, desc_attrs@); proof { assert(g.attributes@.take(__i8 as int).drop_last() =~= g.attributes@.take(__i8 - 1)); }
//@at loop8.end
    proof { assert(id_attrs@.drop_last() =~= i0 || id_attrs@ == i0); assert(desc_attrs@.drop_last() =~= q0 || desc_attrs@ == q0); }
//@at loop8.after
    proof { assert(g.attributes@.take(g.attributes@.len() as int) =~= g.attributes@); }
//@loop 9 acc=Option<&Group>
    refs_of(__s9@, gs),
    except_break __a9 is None, forall|j: int| 0 <= j < __i9 ==> (#[trigger] gs[j]).id != *extends_group,
    ensures (match __a9 { Some(b) => exists|i: int| #[trigger] first_group(gs, *extends_group, i) && *b == gs[i], None => forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).id != *extends_group })
//@at loop9.start
    proof { assert(gs[__i9 - 1].id == *extends_group ==> first_group(gs, *extends_group, __i9 - 1)); }
//@loop 10 acc=HashMap<SignalId,Option<DependencyRef>>
    refs_of(__s10@, entity_refinements@), __a10.m@ == local_names(entity_refinements@.take(__i10 as int)),
//@at loop10.start
    proof { assert(entity_refinements@.take(__i10 as int).drop_last() =~= entity_refinements@.take(__i10 - 1)); }
//@at loop10.after
    proof { assert(entity_refinements@.take(entity_refinements@.len() as int) =~= entity_refinements@); }
//@loop 11 acc=HashMap<&SchemaUrl,DependencyRef>
    deps_list@.no_duplicates(), refs_of(__s11@, deps_list@), forall|i: int| 0 <= i < __i11 ==> __a11.m@.contains_key(&#[trigger] deps_list@[i]) && __a11.m@[&deps_list@[i]] == DependencyRef(i as u32),
    forall|u: SchemaUrl| #[trigger] __a11.m@.contains_key(&u) ==> deps_list@.contains(u),
//@at loop11.start
    proof { lemma_other(deps_list@, __i11 - 1); }
//@at loop12.before
    proof { assert(gs.take(0).len() == 0); assert(gs.take(gs.len() as int) =~= gs); }
//@loop 12
    forall|g: &Group| #[trigger] call_requires(get_provenance, (g,)), forall|g: &Group, p: Provenance| #[trigger] call_ensures(get_provenance, (g,), p) ==> prov_of(x0.deps, x0.url, *g, p), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s12@, gs), spans_conv(x0, entity_refs, gs.take(__i12 as int), spans@, span_refinements@), metrics_conv(x0, entity_refs, gs.take(__i12 as int), metrics@, metric_refinements@),
    events_conv(x0, entity_refs, gs.take(__i12 as int), events@, event_refinements@), groups_conv(x0, gs.take(__i12 as int), attribute_groups@),
//@at loop12.start
    let ghost (d1, r1, d2, r2, d3, r3, d4) = (spans@, span_refinements@, metrics@, metric_refinements@, events@, event_refinements@, attribute_groups@);
    proof { assert(gs.take(__i12 as int).drop_last() =~= gs.take(__i12 - 1)); assert(refs_ok(c, gs[__i12 - 1])); assert(gs[__i12 - 1].attributes@.take(gs[__i12 - 1].attributes@.len() as int) =~= gs[__i12 - 1].attributes@); }
//@at loop12.end
    proof { assert(spans@.drop_last() =~= d1 || spans@ == d1); assert(span_refinements@.drop_last() =~= r1 || span_refinements@ == r1);
        assert(metrics@.drop_last() =~= d2 || metrics@ == d2); assert(metric_refinements@.drop_last() =~= r2 || metric_refinements@ == r2);
        assert(events@.drop_last() =~= d3 || events@ == d3); assert(event_refinements@.drop_last() =~= r3 || event_refinements@ == r3); assert(attribute_groups@.drop_last() =~= d4 || attribute_groups@ == d4); }
//@loop 13
    refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s13@, g.attributes@), srefs(x0, g.attributes@.take(__i13 as int), span_attributes@),
//@loop 14
    refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s14@, g.attributes@), vrefs(x0, g.attributes@.take(__i14 as int), event_attributes@),
//@loop 15
    refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s15@, g.attributes@), mrefs(x0, g.attributes@.take(__i15 as int), metric_attributes@),
//@loop 16
    refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s16@, g.attributes@), grefs(x0, g.attributes@.take(__i16 as int), attributes@),
//@loop 17
    ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s17@, gs), forall|j: int| 0 <= j < attributes@.len() ==> listed(x0.cat, c, gs, #[trigger] attributes@[j]),
    forall|k: int, i: int| 0 <= k < __i17 && #[trigger] defines(c, gs[k], i) ==> lists(x0.cat, c, gs[k].attributes@[i], attributes@),
//@at loop17.start
    proof { assert(refs_ok(c, gs[__i17 - 1])); }
//@loop 18
    0 < __i17 <= gs.len(), *g == gs[__i17 - 1], refs_ok(c, *g), ctx_ok(x0, c, r, v2_catalog, deps_list@, gs), refs_of(__s18@, g.attributes@), forall|j: int| 0 <= j < attributes@.len() ==> listed(x0.cat, c, gs, #[trigger] attributes@[j]),
    forall|k: int, i: int| 0 <= k < __i17 - 1 && #[trigger] defines(c, gs[k], i) ==> lists(x0.cat, c, gs[k].attributes@[i], attributes@),
    forall|i: int| 0 <= i < __i18 && #[trigger] defines(c, *g, i) ==> lists(x0.cat, c, g.attributes@[i], attributes@),
//@at loop18.start
    let ghost o0 = attributes@;
//@at loop18.end
    proof { assert forall|a: V1AttributeRef| #[trigger] lists(x0.cat, c, a, o0) implies lists(x0.cat, c, a, attributes@) by { let j = choose|j: int| 0 <= j < o0.len() && ref_conv(x0.cat, c, a, #[trigger] o0[j]); assert(attributes@[j] == o0[j]); }
        if attributes@.len() > o0.len() { assert(defines(c, gs[__i17 - 1], __i18 - 1)); assert(ref_conv(x0.cat, c, g.attributes@[__i18 - 1], attributes@[attributes@.len() - 1])); } }
//@at sort0.before
    proof { s0 = attributes@; }
//@at sort0.after
    proof { s1 = attributes@; }
//@at end
    proof { if __ret is Ok { let o = __ret->Ok_0; assert(o.1.attributes@ == deduped(s1)); lemma_attrs(x0.cat, c, gs, s0, s1); assert(converted(x0, entity_refs, o.1, o.2)); } }
//@end
} // verus!
fn main() {}
