//@opaque RegistryRepo SemConvSpecWithProvenance HttpAuthResolver VirtualDirectoryPath VdirError AttributeType Examples Stability Deprecated Tags Value InstrumentSpec AnyValueSpec SignalRequirementLevel SemError RegistryManifest Resource InstrumentationLibrary Versions SpanKindSpec SpanName EntityAssociation YamlMapping
//@path weaver_semconv::Error => SemError
//@path weaver_common::Error => VdirError
//@path crates/weaver_resolver/src/error.rs weaver_semconv::Error => SemError
//@path crate::attribute::Attribute => Attribute
//@path attribute::Attribute => Attribute
//@path weaver_resolved_schema::registry::EntityAssociationOrigins => EntityAssociationOrigins
pub struct SchemaUrl { pub url: String }
pub struct PathBuf { pub p: String }
//@type crates/weaver_semconv/src/provenance.rs Provenance
pub struct Glob { pub g: Ghost<int> }
//@type crates/weaver_semconv/src/group.rs GroupWildcard
//@type crates/weaver_semconv/src/semconv.rs Imports
//@type crates/weaver_semconv/src/group.rs ImportsWithProvenance
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroupVisibilitySpec
//@type crates/weaver_resolver/src/error.rs Error
//@type crates/weaver_semconv/src/attribute.rs BasicRequirementLevelSpec
//@type crates/weaver_semconv/src/attribute.rs AttributeRole
//@type crates/weaver_semconv/src/attribute.rs RequirementLevel
//@type crates/weaver_semconv/src/attribute.rs AttributeSpec
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/attribute.rs UnresolvedAttribute
//@type crates/weaver_resolved_schema/src/lineage.rs AttributeLineage
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
//@type crates/weaver_resolved_schema/src/registry.rs Group
pub type EntityAssociationOrigins = BTreeMap<String, BTreeMap<String, SchemaUrl>>;
//@type crates/weaver_resolved_schema/src/registry.rs Registry
//@type crates/weaver_resolver/src/attribute.rs AttributeSource
//@type crates/weaver_resolver/src/attribute.rs AttributeWithSource
//@type crates/weaver_resolver/src/attribute.rs AttributeCatalog
//@type crates/weaver_resolver/src/dependency.rs GroupSource
//@type crates/weaver_resolver/src/dependency.rs GroupSummary
//@type crates/weaver_resolver/src/dependency.rs EntityLocation
//@type crates/weaver_resolver/src/dependency.rs EntityResolution
//@type crates/weaver_resolver/src/registry.rs UnresolvedGroup
//@type crates/weaver_resolver/src/registry.rs UnresolvedRegistry
pub struct ResolvedDependency { pub d: Ghost<int> }
pub uninterp spec fn type_text(t: GroupType) -> String;
impl GroupType { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == type_text(*self) { unimplemented!() } }

// ---- what is hidden
pub struct YamlAny { pub y: Ghost<int> }
pub struct YamlValue(pub YamlAny);
pub uninterp spec fn yaml_map(v: YamlAny) -> Option<Map<String, YamlAny>>;
pub uninterp spec fn yaml_bool(v: YamlAny) -> Option<bool>;
pub uninterp spec fn ymap(m: YamlMapping) -> Map<String, YamlAny>;
impl YamlAny {
    #[verifier::external_body] pub fn as_mapping(&self) -> (r: Option<&YamlMapping>) ensures (match r { Some(m) => yaml_map(*self) == Some(ymap(*m)), None => yaml_map(*self) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures r == yaml_bool(*self) { unimplemented!() }
}
pub struct YamlKey { pub k: String }
impl YamlMapping { #[verifier::external_body] pub fn get(&self, k: YamlKey) -> (r: Option<&YamlAny>) ensures (match r { Some(v) => ymap(*self).contains_key(k.k) && *v == ymap(*self)[k.k], None => !ymap(*self).contains_key(k.k) }) { unimplemented!() } }
#[verifier::external_body] pub fn yaml_string(s: String) -> (r: YamlKey) ensures r.k == s { unimplemented!() }
//@path serde_yaml::Value::String => yaml_string
//@const crates/weaver_resolver/src/dependency_resolution.rs DEPENDENCY_RESOLUTION_KEY
//@const crates/weaver_resolver/src/dependency_resolution.rs EXCLUDE_KEY
/// annotated `dependency_resolution: {exclude: true}`
pub open spec fn excluded(a: Map<String, YamlValue>) -> bool {
    let k = S("dependency_resolution"@); let e = S("exclude"@);
    a.contains_key(k) && yaml_map(a[k].0) is Some && yaml_map(a[k].0)->0.contains_key(e) && yaml_bool(yaml_map(a[k].0)->0[e]) == Some(true) }
pub open spec fn hidden(a: Option<BTreeMap<String, YamlValue>>) -> bool { a is Some && excluded(a->0.m@) }
//@fn crates/weaver_resolver/src/dependency_resolution.rs is_excluded
    ensures r == excluded(annotations.m@)
//@end
pub open spec fn closed(a: Option<BTreeMap<String, YamlValue>>, v: Option<AttributeGroupVisibilitySpec>, t: GroupType) -> bool { hidden(a) || (t is AttributeGroup && v != Some(AttributeGroupVisibilitySpec::Public)) }
pub open spec fn is_closed(g: UnresolvedGroup) -> bool { closed(g.group.annotations, g.visibility, g.group.type_) }
//@fn crates/weaver_resolver/src/dependency_resolution.rs is_group_excluded
    ensures r == closed(*annotations, (match visibility { Some(v) => Some(*v), None => None }), *group_type)
//@end
