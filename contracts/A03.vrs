//@include prelude.vrs
verus! {
//@opaque AttributeType Examples RequirementLevel Stability AttributeRole YamlValue Provenance SchemaUrl SemManifest Resource InstrumentationLibrary Versions RootAttribute SpanKindSpec InstrumentSpec AnyValueSpec EntityAssociation AttributeGroupVisibilitySpec IncludeGroup EntityAssociationOrigins SignalRequirementLevel Tags Value MetricRequirementLevel SpanName
//@include diff_types.vrs
//@type crates/weaver_version/src/schema_changes.rs SchemaItemType
//@type crates/weaver_version/src/schema_changes.rs RegistryManifest
//@type crates/weaver_version/src/schema_changes.rs SchemaChanges
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_resolved_schema/src/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/lineage.rs AttributeLineage
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
//@type crates/weaver_resolved_schema/src/registry.rs Group
//@type crates/weaver_resolved_schema/src/registry.rs Registry
//@type crates/weaver_resolved_schema/src/catalog.rs Catalog
//@type crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema sub=RegistryManifest:SemManifest
impl SemManifest { #[verifier::external_body] pub fn version(&self) -> (r: &String) { unimplemented!() } }
impl VDefault for RegistryManifest { open spec fn vdef(s: Self) -> bool { s.semconv_version@ == Seq::<char>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl RegistryManifest { #[verifier::external_body] pub fn default() -> (r: RegistryManifest) { unimplemented!() } }

// ---- what a schema holds
/// every attribute reference of the schema is one of its catalog's
pub open spec fn wf(s: ResolvedTelemetrySchema) -> bool { forall|i: int, j: int| 0 <= i < s.registry.groups@.len() && 0 <= j < s.registry.groups@[i].attributes@.len() ==> (#[trigger] s.registry.groups@[i].attributes@[j]).0 < s.catalog.attributes@.len() }
pub open spec fn attr_at(s: ResolvedTelemetrySchema, i: int, j: int) -> Attribute { s.catalog.attributes@[s.registry.groups@[i].attributes@[j].0 as int] }
/// an attribute a group only refers to: its lineage names another group as the source
pub open spec fn refers(g: Group, a: Attribute) -> bool { g.lineage is Some && g.lineage->Some_0.attributes.m@.contains_key(a.name) && g.lineage->Some_0.attributes.m@[a.name].source_group != g.id }
/// the j-th attribute of the i-th group is a definition
pub open spec fn defines(s: ResolvedTelemetrySchema, i: int, j: int) -> bool { 0 <= i < s.registry.groups@.len() && 0 <= j < s.registry.groups@[i].attributes@.len() && !refers(s.registry.groups@[i], attr_at(s, i, j)) }
/// m holds, under its name, every attribute the registry defines (up to the j-th of the i-th group), and nothing else
pub open spec fn attr_map_upto(s: ResolvedTelemetrySchema, m: Map<&String, &Attribute>, gi: int, aj: int) -> bool {
    &&& forall|i: int, j: int| defines(s, i, j) && (i < gi || i == gi && j < aj) ==> m.contains_key(&(#[trigger] attr_at(s, i, j)).name)
    &&& forall|k: &String| #[trigger] m.contains_key(k) ==> m[k].name == *k && exists|i: int, j: int| defines(s, i, j) && #[trigger] attr_at(s, i, j) == *m[k]
}
pub open spec fn attr_map_of(s: ResolvedTelemetrySchema, m: Map<&String, &Attribute>) -> bool { attr_map_upto(s, m, s.registry.groups@.len() as int, 0) }
pub open spec fn sname(g: Group) -> Option<String> { match g.type_ {
    GroupType::AttributeGroup => Some(g.id), GroupType::Span => g.name, GroupType::Event => g.name, GroupType::Metric => g.metric_name, GroupType::Entity => g.name, _ => None } }
/// m holds, under its name, every group of type t (among the first n) that has a name, and nothing else
pub open spec fn group_map_upto(s: ResolvedTelemetrySchema, t: GroupType, m: Map<&String, &Group>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && (#[trigger] s.registry.groups@[i]).type_ == t && sname(s.registry.groups@[i]) is Some ==> m.contains_key(&sname(s.registry.groups@[i])->Some_0)
    &&& forall|k: &String| #[trigger] m.contains_key(k) ==> sname(*m[k]) == Some(*k) && m[k].type_ == t && s.registry.groups@.contains(*m[k])
}
pub open spec fn group_map_of(s: ResolvedTelemetrySchema, t: GroupType, m: Map<&String, &Group>) -> bool { group_map_upto(s, t, m, s.registry.groups@.len() as int) }
pub open spec fn attrs_held(m: Map<&String, &Attribute>) -> Held { |n: String| if m.contains_key(&n) { Some(m[&n].deprecated) } else { None } }
pub open spec fn groups_held(m: Map<&String, &Group>) -> Held { |n: String| if m.contains_key(&n) { Some(m[&n].deprecated) } else { None } }
pub open spec fn all_types(c: SchemaChanges) -> bool { forall|t: SchemaItemType| #[trigger] c.changes.m@.contains_key(t) }
pub open spec fn of_type(c: SchemaChanges, t: SchemaItemType) -> Seq<SchemaItemChange> { c.changes.m@[t]@ }
/// only the list of t may differ
pub open spec fn others_kept(pre: SchemaChanges, post: SchemaChanges, t: SchemaItemType) -> bool { all_types(post) && forall|u: SchemaItemType| u != t ==> #[trigger] of_type(post, u) == of_type(pre, u) }
pub open spec fn signals_diffed(l: ResolvedTelemetrySchema, b: ResolvedTelemetrySchema, g: GroupType, cs: Seq<SchemaItemChange>) -> bool {
    exists|lm: Map<&String, &Group>, bm: Map<&String, &Group>| group_map_of(l, g, lm) && group_map_of(b, g, bm) && #[trigger] exact_diff(seq![], cs, groups_held(lm), groups_held(bm)) }
pub open spec fn attributes_diffed(l: ResolvedTelemetrySchema, b: ResolvedTelemetrySchema, cs: Seq<SchemaItemChange>) -> bool {
    exists|lm: Map<&String, &Attribute>, bm: Map<&String, &Attribute>| attr_map_of(l, lm) && attr_map_of(b, bm) && #[trigger] exact_diff(seq![], cs, attrs_held(lm), attrs_held(bm)) }

//@fn crates/weaver_resolved_schema/src/registry.rs Group::signal_name
    ensures (match r { Some(x) => sname(*self) == Some(*x), None => sname(*self) is None })
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::attribute
    ensures (match r { Some(x) => self.attributes.m@.contains_key(*attr_id) && *x == self.attributes.m@[*attr_id], None => !self.attributes.m@.contains_key(*attr_id) })
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::attribute
    ensures (match r { Some(x) => attribute_ref.0 < self.attributes@.len() && *x == self.attributes@[attribute_ref.0 as int], None => attribute_ref.0 >= self.attributes@.len() })
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::new
    ensures all_types(r), forall|t: SchemaItemType| #[trigger] of_type(r, t) == Seq::<SchemaItemChange>::empty()
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::set_head_manifest
    ensures final(self).head == head, final(self).baseline == old(self).baseline, all_types(*old(self)) ==> all_types(*final(self)), forall|t: SchemaItemType| #[trigger] of_type(*final(self), t) == of_type(*old(self), t)
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::set_baseline_manifest
    ensures final(self).baseline == baseline, final(self).head == old(self).head, all_types(*old(self)) ==> all_types(*final(self)), forall|t: SchemaItemType| #[trigger] of_type(*final(self), t) == of_type(*old(self), t)
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::add_change
    requires all_types(*old(self))
    ensures others_kept(*old(self), *final(self), item_type), of_type(*final(self), item_type) == of_type(*old(self), item_type).push(change)
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::changes_by_type
    ensures all_types(*self) ==> r is Some && r->Some_0@ == of_type(*self, item_type)
//@end
//@fn crates/weaver_version/src/schema_changes.rs SchemaChanges::is_empty
    requires all_types(*self)
    ensures r == (forall|t: SchemaItemType| #[trigger] of_type(*self, t).len() == 0)
//@loop 0
    exists|e: Seq<(&SchemaItemType, &Vec<SchemaItemChange>)>| #[trigger] enumerates_mapr(e, self.changes.m@) && __s0@ == e.map_values(|p: (&SchemaItemType, &Vec<SchemaItemChange>)| p.1),
    __a0 ==> forall|j: int| 0 <= j < __i0 ==> (#[trigger] __s0@[j])@.len() == 0, !__a0 ==> exists|j: int| 0 <= j < __i0 && (#[trigger] __s0@[j])@.len() != 0,
//@at loop0.after
    proof { let e = choose|e: Seq<(&SchemaItemType, &Vec<SchemaItemChange>)>| #[trigger] enumerates_mapr(e, self.changes.m@) && __s0@ == e.map_values(|p: (&SchemaItemType, &Vec<SchemaItemChange>)| p.1);
        if __a0 { assert forall|t: SchemaItemType| #[trigger] of_type(*self, t).len() == 0 by { assert(self.changes.m@.contains_key(t)); let j = choose|j: int| 0 <= j < e.len() && *(#[trigger] e[j]).0 == t; assert(__s0@[j] == e[j].1); } }
        else { let j = choose|j: int| 0 <= j < __i0 && (#[trigger] __s0@[j])@.len() != 0; assert(__s0@[j] == e[j].1); assert(of_type(*self, *e[j].0).len() != 0); } }
//@end
//@fn crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema::registry_attribute_map
    requires wf(*self)
    ensures attr_map_of(*self, r.m@)
//@loop 0 acc=HashMap<&String,&Attribute>
    refs_of(__s0@, self.registry.groups@), attr_map_upto(*self, __a0.m@, __i0 as int, 0),
//@loop 1
    0 < __i0 <= __s0@.len(), refs_of(__s0@, self.registry.groups@), refs_of(__s1@, self.registry.groups@[__i0 - 1].attributes@), attr_map_upto(*self, __a0.m@, __i0 - 1, __i1 as int),
//@at loop1.start
    let ghost a1 = __a0.m@;
//@at loop1.end
    proof { let (gi, aj) = (__i0 - 1, __i1 - 1); let at = attr_at(*self, gi, aj); let g = self.registry.groups@[gi];
        assert(g.attributes@[aj].0 < self.catalog.attributes@.len());
        if refers(g, at) { assert(__a0.m@ == a1); } else { assert(__a0.m@ == a1.insert(&at.name, &at)); assert(defines(*self, gi, aj)); }
        assert forall|i: int, j: int| defines(*self, i, j) && (i < gi || i == gi && j < aj + 1) implies __a0.m@.contains_key(&(#[trigger] attr_at(*self, i, j)).name) by { if i == gi && j == aj {} else { assert(a1.contains_key(&attr_at(*self, i, j).name)); } }
    }
//@end
//@fn crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema::groups_by_name
    ensures group_map_of(*self, group_type, r.m@)
//@loop 0 acc=HashMap<&String,&Group>
    refs_of(__s0@, self.registry.groups@), group_map_upto(*self, group_type, __a0.m@, __i0 as int),
//@end
//@fn crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema::diff_attributes
    requires wf(*self), wf(*baseline_schema), all_types(*old(changes)), of_type(*old(changes), SchemaItemType::RegistryAttributes).len() == 0
    ensures others_kept(*old(changes), *final(changes), SchemaItemType::RegistryAttributes), attributes_diffed(*self, *baseline_schema, of_type(*final(changes), SchemaItemType::RegistryAttributes))
//@at start
    let ghost mut ns: Seq<String> = seq![]; let ghost c0 = of_type(*changes, SchemaItemType::RegistryAttributes);
//@loop 0
    enumerates_mapr(__s0@, latest_attributes.m@), others_kept(*old(changes), *changes, SchemaItemType::RegistryAttributes), lists(c0, of_type(*changes, SchemaItemType::RegistryAttributes), ns, attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@)),
    forall|j: int| 0 <= j < __i0 && changed(attrs_held(latest_attributes.m@)(**(#[trigger] __s0@[j]).0), attrs_held(baseline_attributes.m@)(**__s0@[j].0)) ==> ns.contains(**__s0@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> exists|j: int| 0 <= j < __i0 && **(#[trigger] __s0@[j]).0 == #[trigger] ns[i],
//@at loop0.start
    let ghost c1 = of_type(*changes, SchemaItemType::RegistryAttributes); let ghost n1 = ns;
    proof { let k = __i0 - 1; assert(latest_attributes.m@.contains_key(*__s0@[k].0)); if ns.contains(**__s0@[k].0) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == **__s0@[k].0; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s0@[j]).0 == ns[i]; assert(*__s0@[j].0 == *__s0@[k].0); assert(false); } }
//@at loop0.end
    proof { let c2 = of_type(*changes, SchemaItemType::RegistryAttributes); let n = **__s0@[__i0 - 1].0;
        if c2.len() > c1.len() { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@), c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|j: int| 0 <= j < __i0 && changed(attrs_held(latest_attributes.m@)(**(#[trigger] __s0@[j]).0), attrs_held(baseline_attributes.m@)(**__s0@[j].0)) implies ns.contains(**__s0@[j].0) by { if j < __i0 - 1 { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == **__s0@[j].0; assert(ns[i] == n1[i]); } } } }
//@loop 1
    enumerates_mapr(__s1@, baseline_attributes.m@), others_kept(*old(changes), *changes, SchemaItemType::RegistryAttributes), lists(c0, of_type(*changes, SchemaItemType::RegistryAttributes), ns, attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@)),
    forall|n: String| attrs_held(latest_attributes.m@)(n) is Some && changed(attrs_held(latest_attributes.m@)(n), attrs_held(baseline_attributes.m@)(n)) ==> #[trigger] ns.contains(n),
    forall|j: int| 0 <= j < __i1 && changed(attrs_held(latest_attributes.m@)(**(#[trigger] __s1@[j]).0), attrs_held(baseline_attributes.m@)(**__s1@[j].0)) ==> ns.contains(**__s1@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> attrs_held(latest_attributes.m@)(ns[i]) is Some || exists|j: int| 0 <= j < __i1 && **(#[trigger] __s1@[j]).0 == #[trigger] ns[i],
//@at loop0.after
    proof { assert forall|n: String| attrs_held(latest_attributes.m@)(n) is Some && changed(attrs_held(latest_attributes.m@)(n), attrs_held(baseline_attributes.m@)(n)) implies #[trigger] ns.contains(n) by { assert(latest_attributes.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]).0 == &n; assert(**__s0@[j].0 == n); } 
        assert forall|i: int| 0 <= i < ns.len() implies attrs_held(latest_attributes.m@)(#[trigger] ns[i]) is Some by { let j = choose|j: int| 0 <= j < __s0@.len() && **(#[trigger] __s0@[j]).0 == ns[i]; assert(latest_attributes.m@.contains_key(*__s0@[j].0)); } }
//@at loop1.start
    let ghost c1 = of_type(*changes, SchemaItemType::RegistryAttributes); let ghost n1 = ns;
    proof { let k = __i1 - 1; let n = **__s1@[k].0; assert(baseline_attributes.m@.contains_key(*__s1@[k].0)); if attrs_held(latest_attributes.m@)(n) is None && ns.contains(n) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == n; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s1@[j]).0 == ns[i]; assert(*__s1@[j].0 == *__s1@[k].0); assert(false); } }
//@at loop1.end
    proof { let c2 = of_type(*changes, SchemaItemType::RegistryAttributes); let n = **__s1@[__i1 - 1].0; assert(latest_attributes.m@.contains_key(*__s1@[__i1 - 1].0) == (attrs_held(latest_attributes.m@)(n) is Some));
        if attrs_held(latest_attributes.m@)(n) is None { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@), c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|m: String| n1.contains(m) implies ns.contains(m) by { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == m; assert(ns[i] == m); } } }
//@at loop1.after
    proof { assert forall|n: String| changed(attrs_held(latest_attributes.m@)(n), attrs_held(baseline_attributes.m@)(n)) implies #[trigger] ns.contains(n) by { if attrs_held(latest_attributes.m@)(n) is None { assert(baseline_attributes.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s1@.len() && *(#[trigger] __s1@[j]).0 == &n; assert(**__s1@[j].0 == n); } } }
//@at end
    proof { assert(c0 =~= seq![]); assert(lists(c0, of_type(*changes, SchemaItemType::RegistryAttributes), ns, attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@))); assert(exact_diff(seq![], of_type(*changes, SchemaItemType::RegistryAttributes), attrs_held(latest_attributes.m@), attrs_held(baseline_attributes.m@))); }
//@end
//@fn crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema::diff_signals
    requires all_types(*old(changes))
    ensures others_kept(*old(changes), *final(changes), schema_item_type), exact_diff(of_type(*old(changes), schema_item_type), of_type(*final(changes), schema_item_type), groups_held(latest_signals.m@), groups_held(baseline_signals.m@)),
        of_type(*old(changes), schema_item_type).len() == 0 ==> exact_diff(seq![], of_type(*final(changes), schema_item_type), groups_held(latest_signals.m@), groups_held(baseline_signals.m@))
//@at start
    let ghost mut ns: Seq<String> = seq![]; let ghost c0 = of_type(*changes, schema_item_type); let ghost l = groups_held(latest_signals.m@); let ghost b = groups_held(baseline_signals.m@);
//@loop 0
    enumerates_mapr(__s0@, latest_signals.m@), others_kept(*old(changes), *changes, schema_item_type), lists(c0, of_type(*changes, schema_item_type), ns, l, b),
    forall|j: int| 0 <= j < __i0 && changed(l(**(#[trigger] __s0@[j]).0), b(**__s0@[j].0)) ==> ns.contains(**__s0@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> exists|j: int| 0 <= j < __i0 && **(#[trigger] __s0@[j]).0 == #[trigger] ns[i],
//@at loop0.start
    let ghost c1 = of_type(*changes, schema_item_type); let ghost n1 = ns;
    proof { let k = __i0 - 1; assert(latest_signals.m@.contains_key(*__s0@[k].0)); if ns.contains(**__s0@[k].0) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == **__s0@[k].0; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s0@[j]).0 == ns[i]; assert(*__s0@[j].0 == *__s0@[k].0); assert(false); } }
//@at loop0.end
    proof { let c2 = of_type(*changes, schema_item_type); let n = **__s0@[__i0 - 1].0;
        if c2.len() > c1.len() { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, l, b, c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|j: int| 0 <= j < __i0 && changed(l(**(#[trigger] __s0@[j]).0), b(**__s0@[j].0)) implies ns.contains(**__s0@[j].0) by { if j < __i0 - 1 { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == **__s0@[j].0; assert(ns[i] == n1[i]); } } } }
//@loop 1
    enumerates_mapr(__s1@, baseline_signals.m@), others_kept(*old(changes), *changes, schema_item_type), lists(c0, of_type(*changes, schema_item_type), ns, l, b),
    forall|n: String| l(n) is Some && changed(l(n), b(n)) ==> #[trigger] ns.contains(n),
    forall|j: int| 0 <= j < __i1 && changed(l(**(#[trigger] __s1@[j]).0), b(**__s1@[j].0)) ==> ns.contains(**__s1@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> l(ns[i]) is Some || exists|j: int| 0 <= j < __i1 && **(#[trigger] __s1@[j]).0 == #[trigger] ns[i],
//@at loop0.after
    proof { assert forall|n: String| l(n) is Some && changed(l(n), b(n)) implies #[trigger] ns.contains(n) by { assert(latest_signals.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]).0 == &n; assert(**__s0@[j].0 == n); } 
        assert forall|i: int| 0 <= i < ns.len() implies l(#[trigger] ns[i]) is Some by { let j = choose|j: int| 0 <= j < __s0@.len() && **(#[trigger] __s0@[j]).0 == ns[i]; assert(latest_signals.m@.contains_key(*__s0@[j].0)); } }
//@at loop1.start
    let ghost c1 = of_type(*changes, schema_item_type); let ghost n1 = ns;
    proof { let k = __i1 - 1; let n = **__s1@[k].0; assert(baseline_signals.m@.contains_key(*__s1@[k].0)); if l(n) is None && ns.contains(n) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == n; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s1@[j]).0 == ns[i]; assert(*__s1@[j].0 == *__s1@[k].0); assert(false); } }
//@at loop1.end
    proof { let c2 = of_type(*changes, schema_item_type); let n = **__s1@[__i1 - 1].0; assert(latest_signals.m@.contains_key(*__s1@[__i1 - 1].0) == (l(n) is Some));
        if l(n) is None { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, l, b, c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|m: String| n1.contains(m) implies ns.contains(m) by { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == m; assert(ns[i] == m); } } }
//@at loop1.after
    proof { assert forall|n: String| changed(l(n), b(n)) implies #[trigger] ns.contains(n) by { if l(n) is None { assert(baseline_signals.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s1@.len() && *(#[trigger] __s1@[j]).0 == &n; assert(**__s1@[j].0 == n); } } }
//@at end
    proof { if c0.len() == 0 { assert(c0 =~= seq![]); } assert(lists(c0, of_type(*changes, schema_item_type), ns, l, b)); }
//@end
//@fn crates/weaver_resolved_schema/src/lib.rs ResolvedTelemetrySchema::diff
    requires wf(*self), wf(*baseline_schema)
    ensures all_types(r), attributes_diffed(*self, *baseline_schema, of_type(r, SchemaItemType::RegistryAttributes)),
        signals_diffed(*self, *baseline_schema, GroupType::Metric, of_type(r, SchemaItemType::Metrics)), signals_diffed(*self, *baseline_schema, GroupType::Event, of_type(r, SchemaItemType::Events)),
        signals_diffed(*self, *baseline_schema, GroupType::Span, of_type(r, SchemaItemType::Spans)), signals_diffed(*self, *baseline_schema, GroupType::Entity, of_type(r, SchemaItemType::Entities))
//@end
} // verus!
fn main() {}
