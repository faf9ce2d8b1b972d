//@include lineage.vrs
pub open spec fn attr_key(a: AttributeSpec) -> String { match a { AttributeSpec::Ref { ref_, .. } => ref_, AttributeSpec::Id { id, .. } => id } }
pub trait SchemaCacheLookup: Sized { spec fn cache_id(&self) -> int; }
pub uninterp spec fn deps_attr(ds: Seq<ResolvedDependency>, key: String) -> Result<Option<AttributeWithSource>, Error>;
pub uninterp spec fn upgraded(at: AttributeWithSource, c: int) -> Result<AttributeWithSource, Error>;
pub uninterp spec fn stronger(key: String, a: AttributeWithSource, b: AttributeWithSource) -> Result<AttributeWithSource, Error>;
pub trait VLookup { spec fn vlook(&self, key: String) -> Result<Option<AttributeWithSource>, Error>; fn lookup_attribute(&self, key: &String) -> (r: Result<Option<AttributeWithSource>, Error>) ensures r == self.vlook(*key); }
impl VLookup for Vec<ResolvedDependency> { open spec fn vlook(&self, key: String) -> Result<Option<AttributeWithSource>, Error> { deps_attr(self@, key) } #[verifier::external_body] fn lookup_attribute(&self, key: &String) -> (r: Result<Option<AttributeWithSource>, Error>) { unimplemented!() } }
#[verifier::external_body] pub fn resolve_conflict(key: &String, m: AttributeWithSource, existing: AttributeWithSource) -> (r: Result<AttributeWithSource, Error>) ensures r == stronger(*key, m, existing) { unimplemented!() }
impl AttributeCatalog { #[verifier::external_body] pub fn upgrade_attribute_with_source<C: SchemaCacheLookup>(at: AttributeWithSource, cache: &C) -> (r: Result<AttributeWithSource, Error>) ensures r == upgraded(at, cache.cache_id()) { unimplemented!() } }
impl SchemaUrl { #[verifier::external_body] pub fn name(&self) -> (r: &String) { unimplemented!() } }
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::add_attribute_lineage
    ensures final(self).attributes.m@ == old(self).attributes.m@.insert(attr_id, attribute_lineage)
//@end
pub open spec fn listed(refs: HashMap<Attribute, AttributeRef>, v: Attribute, r: AttributeRef) -> bool { refs.m@.contains_key(v) && refs.m@[v] == r }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::attribute_ref
    ensures final(self).root_attributes == old(self).root_attributes, listed(final(self).attribute_refs, attr, r),
        final(self).attribute_refs.m@ =~= (if old(self).attribute_refs.m@.contains_key(attr) { old(self).attribute_refs.m@ } else { old(self).attribute_refs.m@.insert(attr, r) })
//@end
/// the definition a reference to `key` is bound to
pub open spec fn root_of(cat: AttributeCatalog, ds: Seq<ResolvedDependency>, c: int, key: String) -> Option<AttributeWithSource> {
    if cat.root_attributes.m@.contains_key(key) && cat.root_attributes.m@[key].is_definition { Some(cat.root_attributes.m@[key]) }
    else { match deps_attr(ds, key) { Ok(Some(at)) => (match upgraded(at, c) { Ok(x) => Some(x), Err(_) => None }), _ => None } } }
pub open spec fn lookup_fails(cat: AttributeCatalog, ds: Seq<ResolvedDependency>, c: int, key: String) -> bool {
    !(cat.root_attributes.m@.contains_key(key) && cat.root_attributes.m@[key].is_definition) && (deps_attr(ds, key) is Err || (deps_attr(ds, key)->Ok_0 is Some && upgraded(deps_attr(ds, key)->Ok_0->0, c) is Err)) }
/// a definition of a dependency must be visible; one of this registry may be hidden if the group that uses it is
pub open spec fn may_see(x: AttributeWithSource, group_excluded: bool) -> bool { !hidden(x.attribute.annotations) || (x.source is Local && group_excluded) }
