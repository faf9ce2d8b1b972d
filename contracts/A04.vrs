//@include prelude.vrs
verus! {
//@opaque RegistryRepo SemConvSpecWithProvenance ImportsWithProvenance HttpAuthResolver VirtualDirectoryPath VdirError AttributeType Examples Stability Deprecated YamlValue Tags Value InstrumentSpec AnyValueSpec SignalRequirementLevel AttributeRole SemError RegistryManifest Resource InstrumentationLibrary Versions SpanKindSpec SpanName EntityAssociation EntityAssociationOrigins GroupType AttributeGroupVisibilitySpec V2AttributeGroup V2Span V2Metric V2Event V2Entity Refinements AttributeLineage
//@path weaver_semconv::Error => SemError
//@path weaver_common::Error => VdirError
//@path crates/weaver_resolver/src/error.rs weaver_semconv::Error => SemError
//@path crate::attribute::Attribute => Attribute
//@path crates/weaver_resolver/src/attribute.rs V1Schema => V1Schema
//@path crates/weaver_resolver/src/lib.rs ResolvedTelemetrySchema => V1Schema
//@path crates/weaver_resolved_schema/src/v2/catalog.rs Attribute => V2Attribute
//@path crates/weaver_resolved_schema/src/v2/catalog.rs AttributeRef => V2AttributeRef
//@path crates/weaver_resolved_schema/src/v2/mod.rs Attribute => V2Attribute
//@path crates/weaver_resolved_schema/src/v2/mod.rs Registry => V2Registry
//@path crates/weaver_resolved_schema/src/v2/attribute.rs Provenance => V2Provenance
//@path crates/weaver_resolved_schema/src/v2/registry.rs AttributeRef => V2AttributeRef
//@path crates/weaver_resolved_schema/src/v2/registry.rs Span => V2Span
//@path crates/weaver_resolved_schema/src/v2/registry.rs Metric => V2Metric
//@path crates/weaver_resolved_schema/src/v2/registry.rs Event => V2Event
//@path crates/weaver_resolved_schema/src/v2/registry.rs Entity => V2Entity
//@path crates/weaver_resolved_schema/src/v2/registry.rs AttributeGroup => V2AttributeGroup
pub struct SchemaUrl { pub url: String }
pub struct PathBuf { pub p: String }
//@type crates/weaver_semconv/src/provenance.rs Provenance
//@type crates/weaver_resolver/src/error.rs Error
//@type crates/weaver_semconv/src/attribute.rs BasicRequirementLevelSpec
//@type crates/weaver_semconv/src/attribute.rs RequirementLevel
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
//@type crates/weaver_resolved_schema/src/registry.rs Group
//@type crates/weaver_resolved_schema/src/registry.rs Registry
//@type crates/weaver_resolved_schema/src/catalog.rs RootAttribute
//@type crates/weaver_resolved_schema/src/catalog.rs Catalog
//@type crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema as=V1Schema
//@type crates/weaver_resolved_schema/src/v2/provenance.rs DependencyRef
//@type crates/weaver_resolved_schema/src/v2/provenance.rs Provenance as=V2Provenance
//@type crates/weaver_resolved_schema/src/v2/attribute.rs Attribute as=V2Attribute
//@type crates/weaver_resolved_schema/src/v2/attribute.rs AttributeRef as=V2AttributeRef
//@type crates/weaver_resolved_schema/src/v2/registry.rs Registry as=V2Registry
//@type crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema as=V2Schema
//@type crates/weaver_resolver/src/lib.rs WeaverResolvedSchema
//@type crates/weaver_resolver/src/dependency.rs ResolvedDependency
//@type crates/weaver_resolver/src/attribute.rs AttributeSource
//@type crates/weaver_resolver/src/attribute.rs AttributeWithSource
//@type crates/weaver_resolver/src/attribute.rs AttributeCatalog
//@type crates/weaver_resolver/src/conflict_strategy.rs UseLatestMajorVersion

// ---- versions: the precedence order of semver, uninterpreted but for being a total preorder
pub struct Version { pub major: u64, pub minor: u64, pub patch: u64, pub rest: Ghost<Seq<char>> }
pub uninterp spec fn ver_le(a: Version, b: Version) -> bool;
pub broadcast axiom fn axiom_ver_le(a: Version, b: Version, c: Version) ensures #![trigger ver_le(a, b), ver_le(b, c)] ver_le(a, b) && ver_le(b, c) ==> ver_le(a, c);
pub broadcast axiom fn axiom_ver_total(a: Version, b: Version) ensures #![trigger ver_le(a, b)] ver_le(a, a), ver_le(a, b) || ver_le(b, a);
impl PartialEqSpecImpl for Version { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Version { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Version { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
    if ver_le(*self, *o) && ver_le(*o, *self) { Some(core::cmp::Ordering::Equal) } else if ver_le(*self, *o) { Some(core::cmp::Ordering::Less) } else { Some(core::cmp::Ordering::Greater) } } }
impl PartialOrd for Version { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub uninterp spec fn url_name(u: SchemaUrl) -> String;
pub uninterp spec fn url_version(u: SchemaUrl) -> String;
pub uninterp spec fn semver_of(u: SchemaUrl) -> Option<Version>;
pub uninterp spec fn url_parse(s: String) -> Option<SchemaUrl>;
impl SchemaUrl {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == self.url { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures *r == url_name(*self) { unimplemented!() }
    #[verifier::external_body] pub fn version(&self) -> (r: &String) ensures *r == url_version(*self) { unimplemented!() }
    #[verifier::external_body] pub fn semver(&self) -> (r: Result<Version, SemError>) ensures (match r { Ok(v) => semver_of(*self) == Some(v), Err(_) => semver_of(*self) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn try_from(s: &String) -> (r: Result<SchemaUrl, String>) ensures (match r { Ok(u) => url_parse(*s) == Some(u), Err(_) => url_parse(*s) is None }) { unimplemented!() }
}
impl PartialEqSpecImpl for SchemaUrl { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for SchemaUrl { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl From<SemError> for Error { #[verifier::external_body] fn from(e: SemError) -> (r: Error) { unimplemented!() } }
pub uninterp spec fn excluded(a: BTreeMap<String, YamlValue>) -> bool;
#[verifier::external_body] pub fn is_excluded(a: &BTreeMap<String, YamlValue>) -> (r: bool) ensures r == excluded(*a) { unimplemented!() }

// ---- the property
/// two versions of one registry that can stand for each other
pub open spec fn compatible(a: SchemaUrl, b: SchemaUrl) -> bool { url_name(a) == url_name(b) && semver_of(a) is Some && semver_of(b) is Some && semver_of(a)->0.major == semver_of(b)->0.major }
/// a is no older than b
pub open spec fn no_older(a: SchemaUrl, b: SchemaUrl) -> bool { compatible(a, b) && ver_le(semver_of(b)->0, semver_of(a)->0) }
pub open spec fn newest_of(r: SchemaUrl, a: SchemaUrl, b: SchemaUrl) -> bool { (r == a || r == b) && no_older(r, a) && no_older(r, b) }
//@fn crates/weaver_resolver/src/conflict_strategy.rs DependencyVersionConflictStrategy for UseLatestMajorVersion::resolve_conflict
    ensures (match r { Ok(u) => newest_of(u, *url1, *url2), Err(_) => !compatible(*url1, *url2) })
//@at start
    broadcast use axiom_ver_total;
//@end

pub open spec fn hidden(a: AttributeWithSource) -> bool { a.attribute.annotations is Some && excluded(a.attribute.annotations->0) }
pub open spec fn dep_url(a: AttributeWithSource) -> Option<SchemaUrl> { match a.source { AttributeSource::Dependency { schema_url } => Some(schema_url), _ => None } }
/// which of two definitions of one attribute is kept
pub open spec fn kept(m: AttributeWithSource, e: AttributeWithSource, r: AttributeWithSource) -> bool {
    if hidden(m) != hidden(e) { r == (if hidden(m) { e } else { m }) }
    else if m.is_definition != e.is_definition { r == (if m.is_definition { m } else { e }) }
    else { match (dep_url(m), dep_url(e)) {
        (None, _) => r == e,
        (Some(_), None) => r == m,
        (Some(a), Some(b)) => (r == m || r == e) && no_older(dep_url(r)->0, a) && no_older(dep_url(r)->0, b) } } }
pub open spec fn irreconcilable(m: AttributeWithSource, e: AttributeWithSource) -> bool { hidden(m) == hidden(e) && m.is_definition == e.is_definition && dep_url(m) is Some && dep_url(e) is Some && !compatible(dep_url(m)->0, dep_url(e)->0) }
//@fn crates/weaver_resolver/src/attribute.rs resolve_conflict
    ensures (match r { Ok(x) => kept(m, existing, x), Err(_) => irreconcilable(m, existing) })
//@end

// ---- what a schema offers under a name
pub open spec fn prov_url(g: Group) -> Option<SchemaUrl> { match g.lineage { Some(l) => Some(l.provenance.schema_url), None => None } }
pub open spec fn first_group(gs: Seq<Group>, id: String, i: int) -> bool { 0 <= i < gs.len() && gs[i].id == id && forall|j: int| 0 <= j < i ==> (#[trigger] gs[j]).id != id }
pub open spec fn names_dep(gid: String, n: String) -> bool { "v2_dependency."@.is_prefix_of(gid@) && n == S(gid@.skip("v2_dependency."@.len() as int)) }
/// the registry an attribute comes from, as the schema recorded it
pub open spec fn v1_source(s: V1Schema, gid: String, src: AttributeSource) -> bool {
    let local = AttributeSource::Local { group_id: gid };
    if "v2_dependency."@.is_prefix_of(gid@) {
        let n = S(gid@.skip("v2_dependency."@.len() as int));
        if exists|u: SchemaUrl| s.dependencies.s@.contains(u) && url_name(u) == n { src matches AttributeSource::Dependency { schema_url: u } && s.dependencies.s@.contains(u) && url_name(u) == n }
        else if exists|i: int| 0 <= i < s.registry.groups@.len() && group_of(#[trigger] s.registry.groups@[i], n) { src matches AttributeSource::Dependency { schema_url: u } && url_name(u) == n && exists|i: int| 0 <= i < s.registry.groups@.len() && prov_url(#[trigger] s.registry.groups@[i]) == Some(u) }
        else { src == local }
    } else {
        if exists|i: int| first_group(s.registry.groups@, gid, i) && prov_url(s.registry.groups@[i]) is Some { exists|i: int| first_group(s.registry.groups@, gid, i) && src == (AttributeSource::Dependency { schema_url: #[trigger] prov_url(s.registry.groups@[i])->0 }) }
        else { src == local }
    } }
pub open spec fn group_of(g: Group, n: String) -> bool { prov_url(g) is Some && url_name(prov_url(g)->0) == n }
pub open spec fn holds_at(s: V1Schema, i: int, j: int, key: Seq<char>) -> bool { 0 <= i < s.registry.groups@.len() && 0 <= j < s.registry.groups@[i].attributes@.len() && s.registry.groups@[i].attributes@[j].0 < s.catalog.attributes@.len()
    && s.catalog.attributes@[s.registry.groups@[i].attributes@[j].0 as int].name@ == key }
pub open spec fn v1_finds(s: V1Schema, key: String, r: Option<AttributeWithSource>) -> bool {
    let roots = s.catalog.root_attributes.m@;
    if roots.contains_key(key) && roots[key].is_definition { r matches Some(a) && a.attribute == roots[key].attribute && a.is_definition && v1_source(s, roots[key].source_group, a.source) }
    else if roots.contains_key(key) { r is None }
    else { match r {
        None => forall|i: int, j: int| !#[trigger] holds_at(s, i, j, key@),
        Some(a) => a.is_definition && exists|i: int, j: int| #[trigger] holds_at(s, i, j, key@) && a.attribute == s.catalog.attributes@[s.registry.groups@[i].attributes@[j].0 as int]
            && a.source == (match prov_url(s.registry.groups@[i]) { Some(u) => AttributeSource::Dependency { schema_url: u }, None => AttributeSource::Local { group_id: s.registry.groups@[i].id } }) } } }
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::provenance
    ensures *r == self.provenance
//@end
//@fn crates/weaver_resolved_schema/src/registry.rs Group::provenance
    ensures (match r { Some(p) => self.lineage is Some && p == self.lineage->0.provenance, None => self.lineage is None })
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::attribute
    ensures match r { Some(x) => attribute_ref.0 < self.attributes@.len() && *x == self.attributes@[attribute_ref.0 as int], None => attribute_ref.0 >= self.attributes@.len() }
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::root_attribute
    ensures match r { Some(p) => self.root_attributes.m@.contains_key(*name) && *p.0 == self.root_attributes.m@[*name].attribute && *p.1 == self.root_attributes.m@[*name].source_group, None => !self.root_attributes.m@.contains_key(*name) }
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::root_attribute_definition
    ensures match r { Some(p) => self.root_attributes.m@.contains_key(*name) && self.root_attributes.m@[*name].is_definition && *p.0 == self.root_attributes.m@[*name].attribute && *p.1 == self.root_attributes.m@[*name].source_group,
        None => !(self.root_attributes.m@.contains_key(*name) && self.root_attributes.m@[*name].is_definition) }
//@end
//@fn crates/weaver_resolver/src/attribute.rs AttributeLookup for V1Schema::lookup_attribute
    ensures (match r { Ok(x) => v1_finds(*self, *key, x), Err(_) => false })
//@loop 0 acc=Option<&SchemaUrl>
    enumerates_r(__s0@, self.dependencies.s@),
    match __a0 { Some(u) => self.dependencies.s@.contains(*u) && url_name(*u) == *schema_name, None => forall|j: int| 0 <= j < __i0 ==> url_name(*(#[trigger] __s0@[j])) != *schema_name },
//@at loop0.after
    proof { if __a0 is None { assert forall|u: SchemaUrl| self.dependencies.s@.contains(u) implies url_name(u) != *schema_name by { let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]) == u; } } }
//@loop 1 acc=Option<SchemaUrl>
    refs_of(__s1@, self.registry.groups@),
    match __a1 { Some(u) => url_name(u) == *schema_name && exists|i: int| 0 <= i < self.registry.groups@.len() && prov_url(#[trigger] self.registry.groups@[i]) == Some(u),
        None => forall|j: int| 0 <= j < __i1 ==> !group_of(#[trigger] self.registry.groups@[j], *schema_name) },
//@loop 2 acc=Option<&Group>
    refs_of(__s2@, self.registry.groups@),
    __a2 is None, (forall|j: int| 0 <= j < __i2 ==> (#[trigger] self.registry.groups@[j]).id != *group_id),
//@at loop2.start
    proof { if __s2@[__i2 - 1].id == *group_id { assert(first_group(self.registry.groups@, *group_id, __i2 - 1)); } }
//@loop 3
    refs_of(__s3@, self.registry.groups@),
    forall|i: int, j: int| 0 <= i < __i3 ==> !#[trigger] holds_at(*self, i, j, key@),
//@loop 4
    refs_of(__s4@, group.attributes@), *group == self.registry.groups@[__i3 - 1], 0 < __i3 <= self.registry.groups@.len(), refs_of(__s3@, self.registry.groups@),
    forall|j: int| 0 <= j < __i4 ==> !#[trigger] holds_at(*self, __i3 - 1, j, key@),
//@at loop4.start
    proof { let c = self.catalog.attributes@; let ar = group.attributes@[__i4 - 1]; if ar.0 < c.len() && c[ar.0 as int].name@ == key@ { assert(holds_at(*self, __i3 - 1, __i4 - 1, key@)); } }
//@end

pub open spec fn v2_holds(s: V2Schema, i: int, key: Seq<char>) -> bool { 0 <= i < s.registry.attributes@.len() && s.registry.attributes@[i].0 < s.attribute_catalog@.len() && s.attribute_catalog@[s.registry.attributes@[i].0 as int].key@ == key }
/// the V1 form of a V2 definition
pub open spec fn as_definition(v: V2Attribute, a: Attribute) -> bool {
    &&& a.name == v.key &&& a.type_ == v.type_ &&& a.examples == v.examples &&& a.brief == v.common.brief &&& a.note == v.common.note
    &&& a.stability == Some(v.common.stability) &&& a.deprecated == v.common.deprecated &&& a.annotations == Some(v.common.annotations) }
pub open spec fn v2_finds(s: V2Schema, key: String, r: Option<AttributeWithSource>) -> bool { match r {
    None => forall|i: int| !#[trigger] v2_holds(s, i, key@),
    Some(a) => a.is_definition && exists|i: int| #[trigger] v2_holds(s, i, key@) && { let v = s.attribute_catalog@[s.registry.attributes@[i].0 as int];
        as_definition(v, a.attribute) && dep_url(a) is Some && (dep_url(a)->0 == s.schema_url || v.provenance.source is Some && s.dependencies.s@.contains(dep_url(a)->0)) } } }
pub trait V2Cat { spec fn vca(&self) -> Seq<V2Attribute>; fn attribute<'a>(&'a self, r: &V2AttributeRef) -> (x: Option<&'a V2Attribute>) ensures (match x { Some(a) => r.0 < self.vca().len() && *a == self.vca()[r.0 as int], None => r.0 >= self.vca().len() }); }
impl V2Cat for Vec<V2Attribute> { open spec fn vca(&self) -> Seq<V2Attribute> { self@ } #[verifier::external_body] fn attribute<'a>(&'a self, r: &V2AttributeRef) -> (x: Option<&'a V2Attribute>) { unimplemented!() } }
//@fn crates/weaver_resolver/src/attribute.rs AttributeLookup for V2Schema::lookup_attribute
    ensures (match r { Ok(x) => v2_finds(*self, *key, x), Err(_) => false })
//@loop 0 acc=Option<AttributeWithSource>
    refs_of(__s0@, self.registry.attributes@), __a0 is None, forall|i: int| 0 <= i < __i0 ==> !#[trigger] v2_holds(*self, i, key@),
//@at loop0.start
    proof { let ar = self.registry.attributes@[__i0 - 1]; if ar.0 < self.attribute_catalog@.len() && self.attribute_catalog@[ar.0 as int].key@ == key@ { assert(v2_holds(*self, __i0 - 1, key@)); } }
//@end
pub open spec fn schema_finds(s: WeaverResolvedSchema, key: String, r: Option<AttributeWithSource>) -> bool { match s { WeaverResolvedSchema::V1(s) => v1_finds(s, key, r), WeaverResolvedSchema::V2(s) => v2_finds(s, key, r) } }
//@fn crates/weaver_resolver/src/attribute.rs AttributeLookup for WeaverResolvedSchema::lookup_attribute
    ensures (match r { Ok(x) => schema_finds(*self, *key, x), Err(_) => false })
//@end
pub open spec fn as_dependency(s: V1Schema, a: AttributeWithSource) -> Option<AttributeWithSource> {
    if dep_url(a) is Some { Some(a) } else { match url_parse(s.schema_url) { Some(u) => Some(AttributeWithSource { source: AttributeSource::Dependency { schema_url: u }, ..a }), None => None } } }
pub open spec fn dep_finds(d: ResolvedDependency, key: String, r: Option<AttributeWithSource>) -> bool { match d {
    ResolvedDependency::V1(s) => exists|l: Option<AttributeWithSource>| #[trigger] v1_finds(*s, key, l) && made_dep(*s, l, r),
    ResolvedDependency::V2(s) => v2_finds(*s, key, r) } }
pub open spec fn made_dep(s: V1Schema, l: Option<AttributeWithSource>, r: Option<AttributeWithSource>) -> bool { match l { None => r is None, Some(a) => r is Some && r == as_dependency(s, a) } }
//@fn crates/weaver_resolver/src/attribute.rs AttributeLookup for ResolvedDependency::lookup_attribute
    ensures (match r { Ok(x) => dep_finds(*self, *key, x), Err(_) => self is V1 && url_parse(self->V1_0.schema_url) is None })
//@end

// ---- the version chosen for the whole graph
pub trait SchemaCacheLookup {
    spec fn chosen(&self, n: String) -> Option<SchemaUrl>;
    spec fn cached(&self, u: SchemaUrl) -> Option<Arc<WeaverResolvedSchema>>;
    fn chosen_version(&self, registry_name: &String) -> (r: Option<&SchemaUrl>) ensures (match r { Some(u) => self.chosen(*registry_name) == Some(*u), None => self.chosen(*registry_name) is None });
    fn lookup_schema(&self, schema_url: &SchemaUrl) -> (r: Option<Arc<WeaverResolvedSchema>>) ensures r == self.cached(*schema_url);
}
/// the graph's newer version of the registry this definition comes from
pub open spec fn newer_chosen<C: SchemaCacheLookup>(c: C, u: SchemaUrl) -> Option<SchemaUrl> { match c.chosen(url_name(u)) { Some(v) => if v != u && no_older(v, u) { Some(v) } else { None }, None => None } }
/// the definition as the chosen version of its registry has it
pub open spec fn upgraded<C: SchemaCacheLookup>(c: C, a: AttributeWithSource, r: AttributeWithSource) -> bool { match dep_url(a) {
    None => r == a,
    Some(u) => match c.chosen(url_name(u)) {
        None => r == a,
        Some(v) => if v == u { r == a } else { compatible(u, v) && (
            (no_older(u, v) && r == a)
            || (no_older(v, u) && match c.cached(v) { None => r == a, Some(s) => dep_url(r) == Some(v) && exists|x: AttributeWithSource| #[trigger] schema_finds(*s, a.attribute.name, Some(x)) && r.attribute == x.attribute && r.is_definition == x.is_definition })) } } } }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::upgrade_attribute_with_source
    ensures (match r { Ok(x) => upgraded(*cache_lookup, attr_with_source, x),
        Err(_) => dep_url(attr_with_source) matches Some(u) && cache_lookup.chosen(url_name(u)) matches Some(v) && v != u
            && (!compatible(u, v) || no_older(v, u) && (cache_lookup.cached(v) matches Some(s) && schema_finds(*s, attr_with_source.attribute.name, None))) })
//@end

// ---- a reference against all dependencies
pub open spec fn each_finds(ds: Seq<ResolvedDependency>, key: String, f: Seq<Option<AttributeWithSource>>) -> bool { f.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> dep_finds(ds[i], key, #[trigger] f[i]) }
/// of the definitions the dependencies offer: one that is not hidden if there is one, and no older than any other
pub open spec fn best_of(f: Seq<Option<AttributeWithSource>>, r: Option<AttributeWithSource>) -> bool { match r {
    None => forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) is None,
    Some(x) => (exists|i: int| 0 <= i < f.len() && #[trigger] f[i] == r) && forall|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Some && !hidden(f[i]->0) ==> !hidden(x) && no_older(dep_url(x)->0, dep_url(f[i]->0)->0) || f[i] == r } }
/// the same over the definitions found so far
pub open spec fn best_upto(ms: Seq<AttributeWithSource>, n: int, r: Option<AttributeWithSource>) -> bool { match r {
    None => n == 0,
    Some(x) => (exists|k: int| 0 <= k < n && #[trigger] ms[k] == x) && dep_url(x) is Some && x.is_definition && forall|k: int| 0 <= k < n && !hidden(#[trigger] ms[k]) ==> !hidden(x) && (no_older(dep_url(x)->0, dep_url(ms[k])->0) || ms[k] == x) } }
pub open spec fn found_are(f: Seq<Option<AttributeWithSource>>, ms: Seq<AttributeWithSource>) -> bool {
    &&& forall|k: int| 0 <= k < ms.len() ==> dep_url(#[trigger] ms[k]) is Some && ms[k].is_definition && exists|i: int| 0 <= i < f.len() && #[trigger] f[i] == Some(ms[k])
    &&& forall|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Some ==> exists|k: int| 0 <= k < ms.len() && #[trigger] ms[k] == f[i]->0 }
proof fn lemma_found_push(f: Seq<Option<AttributeWithSource>>, ms: Seq<AttributeWithSource>, x: Option<AttributeWithSource>)
    requires found_are(f, ms), x is Some ==> dep_url(x->0) is Some && x->0.is_definition
    ensures found_are(f.push(x), if x is Some { ms.push(x->0) } else { ms })
{
    let (g, ns) = (f.push(x), if x is Some { ms.push(x->0) } else { ms });
    assert forall|k: int| 0 <= k < ns.len() implies dep_url(#[trigger] ns[k]) is Some && ns[k].is_definition && exists|i: int| 0 <= i < g.len() && #[trigger] g[i] == Some(ns[k]) by {
        if k < ms.len() { assert(ns[k] == ms[k]); let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == Some(ms[k]); assert(g[i] == Some(ns[k])); } else { assert(g[f.len() as int] == Some(ns[k])); } }
    assert forall|i: int| 0 <= i < g.len() && (#[trigger] g[i]) is Some implies exists|k: int| 0 <= k < ns.len() && #[trigger] ns[k] == g[i]->0 by {
        if i < f.len() { assert(g[i] == f[i]); let k = choose|k: int| 0 <= k < ms.len() && #[trigger] ms[k] == f[i]->0; assert(ns[k] == g[i]->0); } else { assert(ns[ms.len() as int] == g[i]->0); } }
}
proof fn lemma_dep_found(d: ResolvedDependency, key: String, x: Option<AttributeWithSource>) requires dep_finds(d, key, x) ensures x is Some ==> dep_url(x->0) is Some && x->0.is_definition { }
proof fn lemma_best_step(ms: Seq<AttributeWithSource>, n: int, e: Option<AttributeWithSource>, r: AttributeWithSource)
    requires 0 <= n < ms.len(), forall|k: int| 0 <= k < ms.len() ==> dep_url(#[trigger] ms[k]) is Some && ms[k].is_definition, best_upto(ms, n, e), match e { None => r == ms[n], Some(x) => if hidden(ms[n]) { r == x } else if hidden(x) { r == ms[n] } else { kept(ms[n], x, r) } }
    ensures best_upto(ms, n + 1, Some(r))
{
    broadcast use axiom_ver_total, axiom_ver_le;
    assert(r == ms[n] || e == Some(r));
    if e is Some { let x = e->0;
        assert forall|k: int| 0 <= k < n + 1 && !hidden(#[trigger] ms[k]) implies !hidden(r) && (no_older(dep_url(r)->0, dep_url(ms[k])->0) || ms[k] == r) by {
            if k < n && !hidden(ms[n]) && !hidden(x) { assert(no_older(dep_url(r)->0, dep_url(x)->0)); } } }
}
proof fn lemma_best(f: Seq<Option<AttributeWithSource>>, ms: Seq<AttributeWithSource>, r: Option<AttributeWithSource>) requires found_are(f, ms), best_upto(ms, ms.len() as int, r) ensures best_of(f, r)
{
    if r is Some { let k = choose|k: int| 0 <= k < ms.len() && #[trigger] ms[k] == r->0; let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == Some(ms[k]); assert(f[i] == r);
        assert forall|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Some && !hidden(f[i]->0) implies !hidden(r->0) && no_older(dep_url(r->0)->0, dep_url(f[i]->0)->0) || f[i] == r by { let k = choose|k: int| 0 <= k < ms.len() && #[trigger] ms[k] == f[i]->0; } }
}
pub open spec fn bad_url(d: ResolvedDependency) -> bool { d is V1 && url_parse(d->V1_0.schema_url) is None }
/// two dependencies offer the definition in versions that cannot stand for each other
pub open spec fn clash(f: Seq<Option<AttributeWithSource>>) -> bool { exists|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && (#[trigger] f[i]) is Some && (#[trigger] f[j]) is Some && irreconcilable(f[i]->0, f[j]->0) }
proof fn lemma_clash(f: Seq<Option<AttributeWithSource>>, ms: Seq<AttributeWithSource>, n: int, e: AttributeWithSource) requires found_are(f, ms), 0 <= n < ms.len(), best_upto(ms, n, Some(e)), irreconcilable(ms[n], e) ensures clash(f)
{
    let k = choose|k: int| 0 <= k < n && #[trigger] ms[k] == e; let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == Some(ms[n]); let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j] == Some(ms[k]);
    assert(irreconcilable(f[i]->0, f[j]->0));
}
//@fn crates/weaver_resolver/src/attribute.rs AttributeLookup for Vec<ResolvedDependency>::lookup_attribute free as=lookup_in_dependencies
    ensures (match r { Ok(x) => exists|f: Seq<Option<AttributeWithSource>>| #[trigger] each_finds(self_@, *key, f) && best_of(f, x),
        Err(_) => (exists|i: int| 0 <= i < self_@.len() && bad_url(#[trigger] self_@[i])) || exists|f: Seq<Option<AttributeWithSource>>| #[trigger] each_finds(self_@, *key, f) && clash(f) })
//@at start
    hide(dep_finds); hide(best_of); hide(clash); hide(kept); hide(best_upto); hide(found_are); hide(irreconcilable);
    assert(found_are(seq![], seq![])) by { reveal(found_are); }
    let ghost mut f: Seq<Option<AttributeWithSource>> = Seq::empty();
    let ghost mut m0: Seq<AttributeWithSource> = Seq::empty();
    let ghost mut e0: Option<AttributeWithSource> = None;
//@loop 0
    refs_of(__s0@, self_@), each_finds(self_@.take(__i0 as int), *key, f), found_are(f, matches@),
//@at loop0.start
    proof { m0 = matches@; }
//@at loop0.end
    proof { let x = if matches@.len() == m0.len() { None } else { Some(matches@.last()) };
        assert(dep_finds(self_@[__i0 - 1], *key, x)); lemma_dep_found(self_@[__i0 - 1], *key, x); lemma_found_push(f, m0, x);
        f = f.push(x); assert(matches@ =~= (if x is Some { m0.push(x->0) } else { m0 }));
        assert forall|i: int| 0 <= i < __i0 implies dep_finds(self_@.take(__i0 as int)[i], *key, #[trigger] f[i]) by { if i < __i0 - 1 { assert(dep_finds(self_@.take(__i0 - 1)[i], *key, f[i])); } } }
//@at loop0.after
    proof { assert(self_@.take(__s0@.len() as int) =~= self_@); }
//@loop 1 acc=Result<Option<AttributeWithSource>,Error>
    __s1@ == matches@, __a1 is Ok, best_upto(matches@, __i1 as int, __a1->Ok_0),
//@at loop1.before
    proof { assert(best_upto(matches@, 0, None)) by { reveal(best_upto); } assert(forall|k: int| 0 <= k < matches@.len() ==> dep_url(#[trigger] matches@[k]) is Some && matches@[k].is_definition) by { reveal(found_are); } }
//@at loop1.start
    proof { e0 = __a1->Ok_0; }
//@at loop1.end
    proof { lemma_best_step(matches@, __i1 - 1, e0, __a1->Ok_0->0); }
//@at loop1.after
    proof { if __a1 is Ok { lemma_best(f, matches@, __a1->Ok_0); } else { assert(irreconcilable(matches@[__i1 - 1], e0->0)); lemma_clash(f, matches@, __i1 - 1, e0->0); } }
//@end

// ---- which version is chosen for each registry of the graph
pub type Chosen = Map<String, SchemaUrl>;
pub open spec fn by_name(m: Chosen) -> bool { forall|n: String| #[trigger] m.contains_key(n) ==> url_name(m[n]) == n }
/// the version chosen for u's registry is no older than u (unless the two cannot stand for each other, which a reference to it reports)
pub open spec fn covers(m: Chosen, u: SchemaUrl) -> bool { m.contains_key(url_name(u)) && (m[url_name(u)] == u || !compatible(m[url_name(u)], u) || no_older(m[url_name(u)], u)) }
pub open spec fn keeps_cover(pre: Chosen, post: Chosen) -> bool { forall|u: SchemaUrl| #[trigger] covers(pre, u) ==> covers(post, u) }
/// nothing is chosen that the graph does not have
pub open spec fn only_from(pre: Chosen, post: Chosen, us: Set<SchemaUrl>) -> bool { forall|n: String| #[trigger] post.contains_key(n) ==> pre.contains_key(n) && pre[n] == post[n] || us.contains(post[n]) }
//@fn crates/weaver_resolver/src/lib.rs collect_chosen_versions_from_url
    requires by_name(old(chosen).m@)
    ensures by_name(final(chosen).m@), covers(final(chosen).m@, *url), keeps_cover(old(chosen).m@, final(chosen).m@), only_from(old(chosen).m@, final(chosen).m@, set![*url])
//@at start
    broadcast use axiom_ver_total, axiom_ver_le;
//@end
pub open spec fn own_url(d: ResolvedDependency) -> Option<SchemaUrl> { match d { ResolvedDependency::V1(s) => url_parse(s.schema_url), ResolvedDependency::V2(s) => Some(s.schema_url) } }
pub open spec fn dep_urls(d: ResolvedDependency) -> Set<SchemaUrl> { match d { ResolvedDependency::V1(s) => s.dependencies.s@, ResolvedDependency::V2(s) => s.dependencies.s@ } }
pub open spec fn in_graph(d: ResolvedDependency, u: SchemaUrl) -> bool { own_url(d) == Some(u) || dep_urls(d).contains(u) }
pub open spec fn only_graph(pre: Chosen, post: Chosen, d: ResolvedDependency) -> bool { forall|n: String| #[trigger] post.contains_key(n) ==> pre.contains_key(n) && pre[n] == post[n] || in_graph(d, post[n]) }
//@fn crates/weaver_resolver/src/lib.rs collect_chosen_versions
    requires by_name(old(chosen).m@)
    ensures by_name(final(chosen).m@), keeps_cover(old(chosen).m@, final(chosen).m@), forall|u: SchemaUrl| in_graph(*dep, u) ==> #[trigger] covers(final(chosen).m@, u), only_graph(old(chosen).m@, final(chosen).m@, *dep)
//@loop 0
    enumerates_r(__s0@, dep_urls(*dep)), by_name(chosen.m@), keeps_cover(old(chosen).m@, chosen.m@), own_url(*dep) is Some ==> covers(chosen.m@, own_url(*dep)->0), forall|i: int| 0 <= i < __i0 ==> covers(chosen.m@, *(#[trigger] __s0@[i])), only_graph(old(chosen).m@, chosen.m@, *dep),
//@loop 1
    enumerates_r(__s1@, dep_urls(*dep)), by_name(chosen.m@), keeps_cover(old(chosen).m@, chosen.m@), own_url(*dep) is Some ==> covers(chosen.m@, own_url(*dep)->0), forall|i: int| 0 <= i < __i1 ==> covers(chosen.m@, *(#[trigger] __s1@[i])), only_graph(old(chosen).m@, chosen.m@, *dep),
//@end


// ---- an imported group and its attributes, in the version chosen for the graph
pub type Refs = Map<Attribute, AttributeRef>;
pub open spec fn cat_wf(m: Refs) -> bool { m.dom().len() <= u32::MAX ==> refs_wf(m) }
pub open spec fn refs_wf(m: Refs) -> bool {
    &&& forall|a: Attribute| #[trigger] m.contains_key(a) ==> m[a].0 < m.dom().len()
    &&& forall|a: Attribute, b: Attribute| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a] == m[b] ==> a == b }
pub open spec fn refs_kept(pre: Refs, post: Refs) -> bool { forall|a: Attribute| #[trigger] pre.contains_key(a) ==> post.contains_key(a) && post[a] == pre[a] }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::attribute_ref
    requires cat_wf(old(self).attribute_refs.m@)
    ensures cat_wf(final(self).attribute_refs.m@), refs_kept(old(self).attribute_refs.m@, final(self).attribute_refs.m@), final(self).root_attributes == old(self).root_attributes,
        final(self).attribute_refs.m@.contains_key(attr), final(self).attribute_refs.m@[attr] == r
//@at start
    assert(self.attribute_refs.m@.contains_key(attr) ==> self.attribute_refs.m@.insert(attr, self.attribute_refs.m@[attr]) =~= self.attribute_refs.m@);
//@end
/// the attribute is in the catalog as its chosen version has it, and its name keeps the winning source
pub open spec fn recorded_upgraded<C: SchemaCacheLookup>(c: C, attr: Attribute, source: AttributeSource, pre: AttributeCatalog, post: AttributeCatalog, r: AttributeRef) -> bool {
    exists|x: AttributeWithSource| #[trigger] upgraded(c, AttributeWithSource { attribute: attr, source, is_definition: true }, x) && post.attribute_refs.m@.contains_key(x.attribute) && post.attribute_refs.m@[x.attribute] == r
        && root_recorded(pre.root_attributes.m@, post.root_attributes.m@, attr.name, x) }
pub open spec fn root_recorded(pre: Map<String, AttributeWithSource>, post: Map<String, AttributeWithSource>, name: String, x: AttributeWithSource) -> bool {
    post.contains_key(name) && post =~= pre.insert(name, post[name]) && (if pre.contains_key(name) { kept(x, pre[name], post[name]) } else { post[name] == x }) }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::attribute_ref_with_provenance
    requires cat_wf(old(self).attribute_refs.m@)
    ensures cat_wf(final(self).attribute_refs.m@), refs_kept(old(self).attribute_refs.m@, final(self).attribute_refs.m@),
        r is Ok ==> recorded_upgraded(*cache_lookup, attr, source, *old(self), *final(self), r->Ok_0)
//@end
/// the registry an attribute of a V1 schema comes from; the schema itself when nothing says otherwise
pub open spec fn attr_source(s: V1Schema, name: String, my: SchemaUrl, src: AttributeSource) -> bool {
    let roots = s.catalog.root_attributes.m@;
    if roots.contains_key(name) { let gid = roots[name].source_group;
        src is Dependency && (v1_source(s, gid, src) || v1_source(s, gid, AttributeSource::Local { group_id: gid }) && src == (AttributeSource::Dependency { schema_url: my })) }
    else { (src == (AttributeSource::Dependency { schema_url: my }) && forall|i: int, j: int| !#[trigger] holds_at(s, i, j, name@))
        || exists|i: int, j: int| #[trigger] holds_at(s, i, j, name@) && src == (AttributeSource::Dependency { schema_url: match prov_url(s.registry.groups@[i]) { Some(u) => u, None => my } }) } }
impl V1Schema { #[verifier::external_body] pub fn catalog(&self) -> (r: &Catalog) ensures *r == self.catalog { unimplemented!() } }
//@fn crates/weaver_resolver/src/dependency.rs find_attribute_source
    ensures attr_source(*schema, *attr_name, *my_schema_url, r)
//@loop 0 acc=Option<&SchemaUrl>
    enumerates_r(__s0@, schema.dependencies.s@),
    match __a0 { Some(u) => schema.dependencies.s@.contains(*u) && url_name(*u) == *schema_name, None => forall|j: int| 0 <= j < __i0 ==> url_name(*(#[trigger] __s0@[j])) != *schema_name },
//@at loop0.after
    proof { if __a0 is None { assert forall|u: SchemaUrl| schema.dependencies.s@.contains(u) implies url_name(u) != *schema_name by { let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]) == u; } } }
//@loop 1 acc=Option<SchemaUrl>
    refs_of(__s1@, schema.registry.groups@),
    match __a1 { Some(u) => url_name(u) == *schema_name && exists|i: int| 0 <= i < schema.registry.groups@.len() && prov_url(#[trigger] schema.registry.groups@[i]) == Some(u),
        None => forall|j: int| 0 <= j < __i1 ==> !group_of(#[trigger] schema.registry.groups@[j], *schema_name) },
//@loop 2 acc=Option<&Group>
    refs_of(__s2@, schema.registry.groups@),
    __a2 is None, (forall|j: int| 0 <= j < __i2 ==> (#[trigger] schema.registry.groups@[j]).id != *source_group_id),
//@at loop2.start
    proof { if __s2@[__i2 - 1].id == *source_group_id { assert(first_group(schema.registry.groups@, *source_group_id, __i2 - 1)); } }
//@loop 3 acc=Option<&Group>
    refs_of(__s3@, schema.registry.groups@), __a3 is None,
    (forall|i: int, j: int| 0 <= i < __i3 ==> !#[trigger] holds_at(*schema, i, j, attr_name@)),
//@loop 4
    !__a4,
    refs_of(__s4@, group.attributes@), *group == schema.registry.groups@[__i3 - 1], 0 < __i3 <= schema.registry.groups@.len(), refs_of(__s3@, schema.registry.groups@),
    forall|j: int| 0 <= j < __i4 ==> !#[trigger] holds_at(*schema, __i3 - 1, j, attr_name@),
//@at loop4.start
    proof { let c = schema.catalog.attributes@; let ar = group.attributes@[__i4 - 1]; if ar.0 < c.len() && c[ar.0 as int].name@ == attr_name@ { assert(holds_at(*schema, __i3 - 1, __i4 - 1, attr_name@)); } }
//@at loop3.after
    proof { if __a3 is None { assert forall|i: int, j: int| !#[trigger] holds_at(*schema, i, j, attr_name@) by { } } else { assert(exists|i: int, j: int| #[trigger] holds_at(*schema, i, j, attr_name@) && *__a3->0 == schema.registry.groups@[i]); } }
//@at loop1.after
    proof { if __a1 is None { assert forall|i: int| 0 <= i < schema.registry.groups@.len() implies !group_of(#[trigger] schema.registry.groups@[i], *schema_name) by { } } }
//@at loop4.after
    proof { if __a4 { assert(holds_at(*schema, __i3 - 1, __i4 - 1, attr_name@)); } }
//@end
pub struct LruCache<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> LruCache<K, V> { #[verifier::external_body] pub fn peek<'b>(&'b self, k: &K) -> (r: Option<&'b V>) ensures (match r { Some(x) => self.m@.contains_key(*k) && *x == self.m@[*k], None => !self.m@.contains_key(*k) }) { unimplemented!() } }
//@type crates/weaver_resolver/src/lib.rs SchemaLookupContext
//@fn crates/weaver_resolver/src/lib.rs SchemaCacheLookup for SchemaLookupContext::chosen_version
    ensures (match r { Some(u) => self.chosen_versions.m@.contains_key(*registry_name) && *u == self.chosen_versions.m@[*registry_name], None => !self.chosen_versions.m@.contains_key(*registry_name) })
//@end
//@fn crates/weaver_resolver/src/lib.rs SchemaCacheLookup for SchemaLookupContext::lookup_schema
    ensures r == (if self.cache.m@.contains_key(*schema_url) { Some(self.cache.m@[*schema_url]) } else { None })
//@end
impl<'a> SchemaCacheLookup for SchemaLookupContext<'a> {
    open spec fn chosen(&self, n: String) -> Option<SchemaUrl> { if self.chosen_versions.m@.contains_key(n) { Some(self.chosen_versions.m@[n]) } else { None } }
    open spec fn cached(&self, u: SchemaUrl) -> Option<Arc<WeaverResolvedSchema>> { if self.cache.m@.contains_key(u) { Some(self.cache.m@[u]) } else { None } }
    fn chosen_version(&self, registry_name: &String) -> (r: Option<&SchemaUrl>) { SchemaLookupContext::chosen_version(self, registry_name) }
    fn lookup_schema(&self, schema_url: &SchemaUrl) -> (r: Option<Arc<WeaverResolvedSchema>>) { SchemaLookupContext::lookup_schema(self, schema_url) }
}
//@type crates/weaver_common/src/result.rs WResult
//@type crates/weaver_resolver/src/lib.rs WeaverResolver
//@type crates/weaver_resolver/src/lib.rs WeaverResolverConfig
//@type crates/weaver_resolver/src/loader.rs LoadedSemconvRegistry
pub struct NonZeroUsize { pub n: usize }
impl<T, E> WResult<T, E> { #[verifier::external_body] pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: WResult<U, E>) { unimplemented!() } }
pub uninterp spec fn repo_url(r: RegistryRepo) -> SchemaUrl;
impl RegistryRepo {
    #[verifier::external_body] pub fn manifest(&self) -> (r: Option<&RegistryManifest>) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures *r == url_name(repo_url(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn schema_url(&self) -> (r: &SchemaUrl) ensures *r == repo_url(*self) { unimplemented!() }
    #[verifier::external_body] pub fn registry_path_repr(&self) -> (r: &String) { unimplemented!() }
    #[verifier::external_body] pub fn resolved_registry_uri(&self) -> (r: Option<VirtualDirectoryPath>) { unimplemented!() }
    #[verifier::external_body] pub fn try_new_dependency_with_auth(d: &Dependency, nfes: &mut Vec<SemError>, auth: &HttpAuthResolver) -> (r: Result<RegistryRepo, SemError>) { unimplemented!() }
    #[verifier::external_body] pub fn version(&self) -> (r: &String) { unimplemented!() }
}
impl RegistryManifest { #[verifier::external_body] pub fn schema_url(&self) -> (r: &SchemaUrl) { unimplemented!() } }
impl SchemaUrl { #[verifier::external_body] pub fn try_from_name_version(n: &String, v: &String) -> (r: Result<SchemaUrl, String>) { unimplemented!() } #[verifier::external_body] pub fn as_str(&self) -> (r: &String) ensures *r == self.url { unimplemented!() } }
impl AttributeCatalog { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn into(self) -> (r: Catalog) { unimplemented!() } }
impl WeaverResolver { #[verifier::external_body] pub fn resolve_dependency(&mut self, loaded: LoadedSemconvRegistry) -> (r: WResult<ResolvedDependency, Error>) { unimplemented!() } }
pub open spec fn covered_by<C: SchemaCacheLookup>(c: C, u: SchemaUrl) -> bool { match c.chosen(url_name(u)) { Some(v) => v == u || !compatible(v, u) || no_older(v, u), None => false } }
pub open spec fn in_any(ds: Seq<ResolvedDependency>, n: int, u: SchemaUrl) -> bool { exists|i: int| 0 <= i < n && in_graph(#[trigger] ds[i], u) }
/// resolution of the registry itself: may count on every registry of the graph having its version chosen
#[verifier::external_body] pub fn resolve_registry_with_dependencies<C: SchemaCacheLookup>(attr_catalog: &mut AttributeCatalog, repo: RegistryRepo, specs: Vec<SemConvSpecWithProvenance>, imports: Vec<ImportsWithProvenance>, dependencies: Vec<ResolvedDependency>, include_unreferenced: bool, cache_lookup: &C) -> (r: WResult<Registry, Error>)
    requires forall|u: SchemaUrl| in_any(dependencies@, dependencies@.len() as int, u) ==> #[trigger] covered_by(*cache_lookup, u)
{ unimplemented!() }
//@fn crates/weaver_resolver/src/lib.rs WeaverResolver::resolve_registry_internal
//@keep map
//@at start
    let ghost mut c0: Chosen = Map::empty();
//@loop 3
    refs_of(__s3@, resolved_dependencies@), forall|u: SchemaUrl| #[trigger] dependencies.s@.contains(u) == in_any(resolved_dependencies@, __i3 as int, u),
//@at loop3.start
    proof { assert forall|u: SchemaUrl| in_any(resolved_dependencies@, __i3 as int, u) == (in_any(resolved_dependencies@, __i3 - 1, u) || in_graph(resolved_dependencies@[__i3 - 1], u)) by {
        if in_graph(resolved_dependencies@[__i3 - 1], u) { } else if in_any(resolved_dependencies@, __i3 as int, u) { let i = choose|i: int| 0 <= i < __i3 && in_graph(#[trigger] resolved_dependencies@[i], u); assert(i < __i3 - 1); } } }
//@loop 4
    0 < __i3 <= __s3@.len(), refs_of(__s3@, resolved_dependencies@), *d == resolved_dependencies@[__i3 - 1], enumerates_r(__s4@, dep_urls(*d)),
    forall|i: int| 0 <= i < __i4 ==> dependencies.s@.contains(*(#[trigger] __s4@[i])), own_url(*d) is Some ==> dependencies.s@.contains(own_url(*d)->0),
    forall|u: SchemaUrl| in_any(resolved_dependencies@, __i3 - 1, u) ==> #[trigger] dependencies.s@.contains(u), forall|u: SchemaUrl| #[trigger] dependencies.s@.contains(u) ==> in_any(resolved_dependencies@, __i3 as int, u),
//@loop 5
    0 < __i3 <= __s3@.len(), refs_of(__s3@, resolved_dependencies@), *d == resolved_dependencies@[__i3 - 1], enumerates_r(__s5@, dep_urls(*d)),
    forall|i: int| 0 <= i < __i5 ==> dependencies.s@.contains(*(#[trigger] __s5@[i])), own_url(*d) is Some ==> dependencies.s@.contains(own_url(*d)->0),
    forall|u: SchemaUrl| in_any(resolved_dependencies@, __i3 - 1, u) ==> #[trigger] dependencies.s@.contains(u), forall|u: SchemaUrl| #[trigger] dependencies.s@.contains(u) ==> in_any(resolved_dependencies@, __i3 as int, u),
//@loop 6
    refs_of(__s6@, resolved_dependencies@), by_name(chosen_versions.m@), forall|u: SchemaUrl| in_any(resolved_dependencies@, __i6 as int, u) ==> #[trigger] covers(chosen_versions.m@, u),
//@at loop6.end
    proof { assert forall|u: SchemaUrl| in_any(resolved_dependencies@, __i6 as int, u) implies #[trigger] covers(chosen_versions.m@, u) by { if in_any(resolved_dependencies@, __i6 - 1, u) { assert(covers(c0, u)); } } }
//@at loop6.start
    proof { c0 = chosen_versions.m@; }
    proof { assert forall|u: SchemaUrl| in_any(resolved_dependencies@, __i6 as int, u) implies in_any(resolved_dependencies@, __i6 - 1, u) || in_graph(resolved_dependencies@[__i6 - 1], u) by {
        let i = choose|i: int| 0 <= i < __i6 && in_graph(#[trigger] resolved_dependencies@[i], u); if i < __i6 - 1 { } } }
//@at loop6.after
    // every registry of the graph has its version chosen, and is recorded as a dependency of the result
    assert(forall|u: SchemaUrl| in_any(resolved_dependencies@, resolved_dependencies@.len() as int, u) ==> #[trigger] dependencies.s@.contains(u));
    assert(forall|u: SchemaUrl| #[trigger] dependencies.s@.contains(u) ==> in_any(resolved_dependencies@, resolved_dependencies@.len() as int, u));
    assert forall|u: SchemaUrl| in_any(resolved_dependencies@, resolved_dependencies@.len() as int, u) implies #[trigger] chosen_versions.m@.contains_key(url_name(u)) by { assert(covers(chosen_versions.m@, u)); }
    assert forall|u: SchemaUrl| #[trigger] in_any(resolved_dependencies@, resolved_dependencies@.len() as int, u) implies covers(chosen_versions.m@, u) by { }
//@end

// ---- an imported group moves with the version chosen for its registry
//@fn crates/weaver_resolver/src/lib.rs WeaverResolvedSchema::as_v1
    ensures (match r { Some(s) => *self == WeaverResolvedSchema::V1(*s), None => self is V2 })
//@end
pub open spec fn home(g: Group, fallback: SchemaUrl) -> SchemaUrl { match prov_url(g) { Some(u) => u, None => fallback } }
//@fn crates/weaver_resolver/src/imports.rs origin_url
    ensures r == home(*group, *fallback_url)
//@end
impl<T, const N: usize> VInto for [T; N] { type It = T; open spec fn vrel(self, s: Seq<T>) -> bool { s == self@ } #[verifier::external_body] fn vinto(self) -> (r: Vec<T>) { unimplemented!() } }
pub open spec fn unprefixed(id: String) -> String {
    if "metric."@.is_prefix_of(id@) { S(id@.skip("metric."@.len() as int)) } else if "event."@.is_prefix_of(id@) { S(id@.skip("event."@.len() as int)) }
    else if "entity."@.is_prefix_of(id@) { S(id@.skip("entity."@.len() as int)) } else if "span."@.is_prefix_of(id@) { S(id@.skip("span."@.len() as int)) }
    else if "attribute_group."@.is_prefix_of(id@) { S(id@.skip("attribute_group."@.len() as int)) } else if "registry."@.is_prefix_of(id@) { S(id@.skip("registry."@.len() as int)) }
    else { id } }
//@fn crates/weaver_resolver/src/imports.rs strip_group_type_prefix
    ensures *r == unprefixed(*id)
//@loop 0
    __s0@.len() == 6, __s0@[0]@ == "metric."@, __s0@[1]@ == "event."@, __s0@[2]@ == "entity."@, __s0@[3]@ == "span."@, __s0@[4]@ == "attribute_group."@, __s0@[5]@ == "registry."@,
    forall|j: int| 0 <= j < __i0 ==> !(#[trigger] __s0@[j])@.is_prefix_of(id@),
//@end
/// the same signal, by type and name; by id where it has no name
pub open spec fn same_signal(a: Group, b: Group) -> bool {
    a.type_ == b.type_ && (if a.metric_name is Some || b.metric_name is Some { a.metric_name == b.metric_name } else if a.name is Some || b.name is Some { a.name == b.name }
        else { unprefixed(a.id) == unprefixed(b.id) }) }
//@fn crates/weaver_resolver/src/imports.rs is_same_imported_group
    ensures r == same_signal(*group, *candidate)
//@end
/// the attributes of a group that the catalog has, in the order it lists them
pub open spec fn listed(c: Seq<Attribute>, rs: Seq<AttributeRef>) -> Seq<Attribute> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else { let p = listed(c, rs.drop_last()); if rs.last().0 < c.len() { p.push(c[rs.last().0 as int]) } else { p } } }
/// attribute a of schema s, whose url is u, is in the catalog under r as the graph's chosen version has it
pub open spec fn att_moved<C: SchemaCacheLookup>(c: C, s: V1Schema, u: SchemaUrl, m: Refs, a: Attribute, r: AttributeRef) -> bool {
    exists|src: AttributeSource, y: AttributeWithSource| #[trigger] upgraded(c, AttributeWithSource { attribute: a, source: src, is_definition: true }, y) && attr_source(s, a.name, u, src) && m.contains_key(y.attribute) && m[y.attribute] == r }
pub open spec fn atts_moved<C: SchemaCacheLookup>(c: C, s: V1Schema, u: SchemaUrl, m: Refs, from: Seq<Attribute>, to: Seq<AttributeRef>) -> bool {
    from.len() == to.len() && forall|k: int| 0 <= k < to.len() ==> #[trigger] att_moved(c, s, u, m, from[k], to[k]) }
pub open spec fn signal_in(s: V1Schema, g: Group, i: int) -> bool { 0 <= i < s.registry.groups@.len() && same_signal(g, s.registry.groups@[i]) }
/// what becomes of a group imported from a registry whose chosen version is another one
pub open spec fn group_upgraded<C: SchemaCacheLookup>(c: C, g: Group, fallback: SchemaUrl, m: Refs, r: Option<Group>) -> bool {
    let h = home(g, fallback);
    match c.chosen(url_name(h)) { None => r is None, Some(u) => if u == h || !no_older(u, h) { r is None } else { match c.cached(u) { None => r is None, Some(a) => match *a {
        WeaverResolvedSchema::V2(_) => r is None,
        WeaverResolvedSchema::V1(s) => match r {
            Some(x) => exists|i: int| #[trigger] signal_in(s, g, i) && x == (Group { attributes: x.attributes, ..s.registry.groups@[i] }) && atts_moved(c, s, u, m, listed(s.catalog.attributes@, s.registry.groups@[i].attributes@), x.attributes@),
            None => no_older(h, u) || forall|i: int| !#[trigger] signal_in(s, g, i) } } } } } }
proof fn lemma_moved_kept<C: SchemaCacheLookup>(c: C, s: V1Schema, u: SchemaUrl, m: Refs, n: Refs, from: Seq<Attribute>, to: Seq<AttributeRef>)
    requires atts_moved(c, s, u, m, from, to), refs_kept(m, n) ensures atts_moved(c, s, u, n, from, to)
{ assert forall|k: int| 0 <= k < to.len() implies #[trigger] att_moved(c, s, u, n, from[k], to[k]) by { assert(att_moved(c, s, u, m, from[k], to[k])); } }
//@fn crates/weaver_resolver/src/imports.rs upgrade_imported_group
    requires cat_wf(old(attribute_catalog).attribute_refs.m@)
    ensures cat_wf(final(attribute_catalog).attribute_refs.m@), refs_kept(old(attribute_catalog).attribute_refs.m@, final(attribute_catalog).attribute_refs.m@),
        r is Ok ==> group_upgraded(*cache_lookup, *group, *fallback_url, final(attribute_catalog).attribute_refs.m@, r->Ok_0)
//@at start
    broadcast use axiom_ver_total;
    let ghost mut m0: Refs = Map::empty();
    let ghost mut a0: Seq<AttributeRef> = Seq::empty();
//@loop 0 acc=Option<&Group>
    refs_of(__s0@, chosen_v1.registry.groups@), __a0 is None, (forall|j: int| 0 <= j < __i0 ==> !signal_in(*chosen_v1, *group, j)),
//@at loop0.start
    proof { if same_signal(*group, *__s0@[__i0 - 1]) { assert(signal_in(*chosen_v1, *group, __i0 - 1)); } }
//@loop 1
    refs_of(__s1@, upgraded.attributes@), cat_wf(attribute_catalog.attribute_refs.m@), refs_kept(old(attribute_catalog).attribute_refs.m@, attribute_catalog.attribute_refs.m@),
    atts_moved(*cache_lookup, *chosen_v1, *chosen_url, attribute_catalog.attribute_refs.m@, listed(chosen_v1.catalog.attributes@, upgraded.attributes@.take(__i1 as int)), attributes@),
//@at loop1.start
    proof { m0 = attribute_catalog.attribute_refs.m@; a0 = attributes@; }
//@at loop1.end
    proof {
        let c = chosen_v1.catalog.attributes@; let t = upgraded.attributes@.take(__i1 as int);
        assert(t.drop_last() =~= upgraded.attributes@.take(__i1 - 1)); assert(t.last() == upgraded.attributes@[__i1 - 1]);
        lemma_moved_kept(*cache_lookup, *chosen_v1, *chosen_url, m0, attribute_catalog.attribute_refs.m@, listed(c, t.drop_last()), a0);
        if attributes@.len() > a0.len() { assert(att_moved(*cache_lookup, *chosen_v1, *chosen_url, attribute_catalog.attribute_refs.m@, c[t.last().0 as int], attributes@.last())); assert(attributes@.drop_last() =~= a0); assert(attributes@ =~= a0.push(attributes@.last())); }
    }
//@at loop1.after
    proof { assert(upgraded.attributes@.take(__s1@.len() as int) =~= upgraded.attributes@); }
//@end

pub trait VJoin { fn join(&self, sep: &String) -> String; }
impl VJoin for Vec<String> { #[verifier::external_body] fn join(&self, sep: &String) -> String { unimplemented!() } }
// ---- loading the graph: every registry met is one the chosen version of its name can stand for
//@type crates/weaver_semconv/src/manifest.rs Dependency
impl RegistryManifest { #[verifier::external_body] pub fn dependencies(&self) -> (r: &Vec<Dependency>) { unimplemented!() } }
pub open spec fn wvalue<T, E>(r: WResult<T, E>) -> Option<T> { match r { WResult::Ok(x) => Some(x), WResult::OkWithNFEs(x, _) => Some(x), _ => None } }
impl<T, E> WResult<T, E> { #[verifier::external_body] pub fn extend_non_fatal_errors(self, e: Vec<E>) -> (r: WResult<T, E>) ensures self is FatalErr == r is FatalErr, wvalue(r) == wvalue(self) { unimplemented!() } }
pub uninterp spec fn versioned(d: Dependency) -> bool;
impl Dependency { #[verifier::external_body] pub fn is_versioned(&self) -> (r: bool) ensures r == versioned(*self) { unimplemented!() } }
#[verifier::external_body] pub fn load_definition_repository(repo: RegistryRepo, follow: bool, deps: Vec<LoadedSemconvRegistry>) -> (r: WResult<LoadedSemconvRegistry, Error>) ensures published(r) is None { unimplemented!() }
#[verifier::external_body] pub fn from_vdir(p: &VirtualDirectoryPath, auth: &HttpAuthResolver) -> (r: Result<V2Schema, Error>) { unimplemented!() }
//@fn crates/weaver_resolver/src/loader.rs check_version_compatibility
    ensures r is Ok == (versioned(*prev) && versioned(*dep) && compatible(prev.schema_url, dep.schema_url))
//@end
pub open spec fn stands_for(m: Chosen, u: SchemaUrl) -> bool { m.contains_key(url_name(u)) && (m[url_name(u)] == u || no_older(m[url_name(u)], u)) }
pub open spec fn keeps_standing(pre: Chosen, post: Chosen) -> bool { forall|u: SchemaUrl| #[trigger] stands_for(pre, u) ==> stands_for(post, u) }
pub open spec fn published(r: WResult<LoadedSemconvRegistry, Error>) -> Option<V2Schema> { match wvalue(r) { Some(LoadedSemconvRegistry::ResolvedV2(s)) => Some(s), _ => None } }
//@fn crates/weaver_resolver/src/loader.rs load_semconv_repository_recursive
    requires by_name(old(chosen_versions).m@)
    ensures by_name(final(chosen_versions).m@), !(r is FatalErr) ==> keeps_standing(old(chosen_versions).m@, final(chosen_versions).m@) && stands_for(final(chosen_versions).m@, repo_url(registry_repo)),
        cache is None && published(r) is Some ==> forall|u: SchemaUrl| published(r)->0.dependencies.s@.contains(u) ==> #[trigger] stands_for(final(chosen_versions).m@, u)
    decreases max_dependency_depth
//@at start
    broadcast use axiom_ver_total, axiom_ver_le;
//@loop 0
    enumerates_r(__s0@, schema.dependencies.s@), by_name(chosen_versions.m@), keeps_standing(old(chosen_versions).m@, chosen_versions.m@), stands_for(chosen_versions.m@, repo_url(registry_repo)),
    forall|i: int| 0 <= i < __i0 ==> stands_for(chosen_versions.m@, *(#[trigger] __s0@[i])),
//@at loop0.after
    proof { assert forall|u: SchemaUrl| schema.dependencies.s@.contains(u) implies #[trigger] stands_for(chosen_versions.m@, u) by { let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]) == u; assert(stands_for(chosen_versions.m@, *__s0@[j])); } }
//@loop 1
    by_name(chosen_versions.m@), keeps_standing(old(chosen_versions).m@, chosen_versions.m@), stands_for(chosen_versions.m@, repo_url(registry_repo)), max_dependency_depth > 0,
//@end
fn main() {}
} // verus!
