//@include prelude.vrs
verus! {
//@opaque AttributeType Examples Stability YamlValue SchemaUrl Refinements SpanKindSpec InstrumentSpec RequirementLevel SpanName EntityAssociation SignalRequirementLevel Provenance
//@include diff_types.vrs
pub type SignalId = String;
//@type crates/weaver_version/src/v2/mod.rs RegistryChanges
//@type crates/weaver_version/src/v2/mod.rs SchemaChanges
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_resolved_schema/src/v2/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/v2/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/v2/span.rs SpanAttributeRef
//@type crates/weaver_resolved_schema/src/v2/span.rs Span
//@type crates/weaver_resolved_schema/src/v2/metric.rs MetricAttributeRef
//@type crates/weaver_resolved_schema/src/v2/metric.rs Metric
//@type crates/weaver_resolved_schema/src/v2/event.rs EventAttributeRef
//@type crates/weaver_resolved_schema/src/v2/event.rs Event
//@type crates/weaver_resolved_schema/src/v2/entity.rs EntityAttributeRef
//@type crates/weaver_resolved_schema/src/v2/entity.rs Entity
//@type crates/weaver_resolved_schema/src/v2/attribute_group.rs AttributeGroupAttributeRef
//@type crates/weaver_resolved_schema/src/v2/attribute_group.rs AttributeGroup
//@type crates/weaver_resolved_schema/src/v2/registry.rs Registry
//@type crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema
//@fn crates/weaver_version/src/v2/mod.rs RegistryChanges::is_empty
    ensures r == (self.attribute_changes@.len() == 0 && self.attribute_group_changes@.len() == 0 && self.entity_changes@.len() == 0 && self.event_changes@.len() == 0 && self.metric_changes@.len() == 0 && self.span_changes@.len() == 0)
//@end
//@fn crates/weaver_version/src/v2/mod.rs SchemaChanges::is_empty
    ensures r == (self.registry.attribute_changes@.len() == 0 && self.registry.attribute_group_changes@.len() == 0 && self.registry.entity_changes@.len() == 0 && self.registry.event_changes@.len() == 0 && self.registry.metric_changes@.len() == 0 && self.registry.span_changes@.len() == 0)
//@end
pub trait Signal {
    spec fn sig_id(&self) -> String;
    spec fn sig_dep(&self) -> Option<Deprecated>;
    fn id(&self) -> (r: &String) ensures *r == self.sig_id();
    fn common(&self) -> (r: &CommonFields) ensures r.deprecated == self.sig_dep();
}
//@fn crates/weaver_resolved_schema/src/v2/span.rs Signal for Span::id free as=Span_id
    ensures *r == self_.type_
//@end
//@fn crates/weaver_resolved_schema/src/v2/span.rs Signal for Span::common free as=Span_common
    ensures *r == self_.common
//@end
impl Signal for Span { open spec fn sig_id(&self) -> String { self.type_ } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { Span_id(self) } fn common(&self) -> (r: &CommonFields) { Span_common(self) } }
//@fn crates/weaver_resolved_schema/src/v2/metric.rs Signal for Metric::id free as=Metric_id
    ensures *r == self_.name
//@end
//@fn crates/weaver_resolved_schema/src/v2/metric.rs Signal for Metric::common free as=Metric_common
    ensures *r == self_.common
//@end
impl Signal for Metric { open spec fn sig_id(&self) -> String { self.name } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { Metric_id(self) } fn common(&self) -> (r: &CommonFields) { Metric_common(self) } }
//@fn crates/weaver_resolved_schema/src/v2/event.rs Signal for Event::id free as=Event_id
    ensures *r == self_.name
//@end
//@fn crates/weaver_resolved_schema/src/v2/event.rs Signal for Event::common free as=Event_common
    ensures *r == self_.common
//@end
impl Signal for Event { open spec fn sig_id(&self) -> String { self.name } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { Event_id(self) } fn common(&self) -> (r: &CommonFields) { Event_common(self) } }
//@fn crates/weaver_resolved_schema/src/v2/entity.rs Signal for Entity::id free as=Entity_id
    ensures *r == self_.type_
//@end
//@fn crates/weaver_resolved_schema/src/v2/entity.rs Signal for Entity::common free as=Entity_common
    ensures *r == self_.common
//@end
impl Signal for Entity { open spec fn sig_id(&self) -> String { self.type_ } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { Entity_id(self) } fn common(&self) -> (r: &CommonFields) { Entity_common(self) } }
//@fn crates/weaver_resolved_schema/src/v2/attribute_group.rs Signal for AttributeGroup::id free as=AttributeGroup_id
    ensures *r == self_.id
//@end
//@fn crates/weaver_resolved_schema/src/v2/attribute_group.rs Signal for AttributeGroup::common free as=AttributeGroup_common
    ensures *r == self_.common
//@end
impl Signal for AttributeGroup { open spec fn sig_id(&self) -> String { self.id } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { AttributeGroup_id(self) } fn common(&self) -> (r: &CommonFields) { AttributeGroup_common(self) } }
//@fn crates/weaver_resolved_schema/src/v2/attribute.rs Signal for Attribute::id free as=Attribute_id
    ensures *r == self_.key
//@end
//@fn crates/weaver_resolved_schema/src/v2/attribute.rs Signal for Attribute::common free as=Attribute_common
    ensures *r == self_.common
//@end
impl Signal for Attribute { open spec fn sig_id(&self) -> String { self.key } open spec fn sig_dep(&self) -> Option<Deprecated> { self.common.deprecated }
    fn id(&self) -> (r: &String) { Attribute_id(self) } fn common(&self) -> (r: &CommonFields) { Attribute_common(self) } }
pub trait AttributeCatalog { spec fn cat(&self) -> Seq<Attribute>; fn attribute(&self, attribute_ref: &AttributeRef) -> (r: Option<&Attribute>)
    ensures (match r { Some(x) => attribute_ref.0 < self.cat().len() && *x == self.cat()[attribute_ref.0 as int], None => attribute_ref.0 >= self.cat().len() }); }
//@fn crates/weaver_resolved_schema/src/v2/catalog.rs AttributeCatalog for Vec::attribute free as=vec_attribute
    ensures (match r { Some(x) => attribute_ref.0 < self_@.len() && *x == self_@[attribute_ref.0 as int], None => attribute_ref.0 >= self_@.len() })
//@end
impl AttributeCatalog for Vec<Attribute> { open spec fn cat(&self) -> Seq<Attribute> { self@ } fn attribute(&self, attribute_ref: &AttributeRef) -> (r: Option<&Attribute>) { vec_attribute(self, attribute_ref) } }
// ---- what a schema holds
/// m holds, under its id, each of the first n signals, and nothing else
pub open spec fn sig_map_upto<T: Signal>(s: Seq<T>, m: Map<&String, &T>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(&(#[trigger] s[i]).sig_id())
    &&& forall|k: &String| #[trigger] m.contains_key(k) ==> m[k].sig_id() == *k && s.contains(*m[k]) }
pub open spec fn sig_map_of<T: Signal>(s: Seq<T>, m: Map<&String, &T>) -> bool { sig_map_upto(s, m, s.len() as int) }
/// what the change list of a kind of signal must be
pub open spec fn sig_diffed<T: Signal>(l: Seq<T>, b: Seq<T>, cs: Seq<SchemaItemChange>) -> bool {
    exists|lm: Map<&String, &T>, bm: Map<&String, &T>| sig_map_of(l, lm) && sig_map_of(b, bm) && #[trigger] exact_diff(seq![], cs, sig_held(lm), sig_held(bm)) }
/// every attribute of the registry is one of the catalog's
pub open spec fn wf(s: ResolvedTelemetrySchema) -> bool { forall|i: int| 0 <= i < s.registry.attributes@.len() ==> (#[trigger] s.registry.attributes@[i]).0 < s.attribute_catalog@.len() }
pub open spec fn attr_at(s: ResolvedTelemetrySchema, i: int) -> Attribute { s.attribute_catalog@[s.registry.attributes@[i].0 as int] }
pub open spec fn attr_map_upto(s: ResolvedTelemetrySchema, m: Map<&String, &Attribute>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(&(#[trigger] attr_at(s, i)).key)
    &&& forall|k: &String| #[trigger] m.contains_key(k) ==> m[k].key == *k && exists|i: int| 0 <= i < s.registry.attributes@.len() && #[trigger] attr_at(s, i) == *m[k] }
pub open spec fn attr_map_of(s: ResolvedTelemetrySchema, m: Map<&String, &Attribute>) -> bool { attr_map_upto(s, m, s.registry.attributes@.len() as int) }
pub open spec fn attributes_diffed(l: ResolvedTelemetrySchema, b: ResolvedTelemetrySchema, cs: Seq<SchemaItemChange>) -> bool {
    exists|lm: Map<&String, &Attribute>, bm: Map<&String, &Attribute>| attr_map_of(l, lm) && attr_map_of(b, bm) && #[trigger] exact_diff(seq![], cs, sig_held(lm), sig_held(bm)) }
pub open spec fn all_diffed(l: ResolvedTelemetrySchema, b: ResolvedTelemetrySchema, r: RegistryChanges) -> bool {
    &&& attributes_diffed(l, b, r.attribute_changes@) &&& sig_diffed(l.registry.attribute_groups@, b.registry.attribute_groups@, r.attribute_group_changes@)
    &&& sig_diffed(l.registry.entities@, b.registry.entities@, r.entity_changes@) &&& sig_diffed(l.registry.events@, b.registry.events@, r.event_changes@)
    &&& sig_diffed(l.registry.metrics@, b.registry.metrics@, r.metric_changes@) &&& sig_diffed(l.registry.spans@, b.registry.spans@, r.span_changes@) }
pub open spec fn sig_held<T: Signal>(m: Map<&String, &T>) -> Held { |n: String| if m.contains_key(&n) { Some(m[&n].sig_dep()) } else { None } }
//@fn crates/weaver_resolved_schema/src/v2/mod.rs diff_signals_by_hash
    ensures exact_diff(seq![], r@, sig_held(latest.m@), sig_held(baseline.m@))
//@subst baseline.get(signal_id) => baseline.get(&signal_id)
//@at start
    let ghost mut ns: Seq<String> = seq![]; let ghost c0 = Seq::<SchemaItemChange>::empty(); let ghost l = sig_held(latest.m@); let ghost b = sig_held(baseline.m@);
//@loop 0
    enumerates_mapr(__s0@, latest.m@), lists(c0, changes@, ns, l, b),
    forall|j: int| 0 <= j < __i0 && changed(l(**(#[trigger] __s0@[j]).0), b(**__s0@[j].0)) ==> ns.contains(**__s0@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> exists|j: int| 0 <= j < __i0 && **(#[trigger] __s0@[j]).0 == #[trigger] ns[i],
//@at loop0.start
    let ghost c1 = changes@; let ghost n1 = ns;
    proof { let k = __i0 - 1; assert(latest.m@.contains_key(*__s0@[k].0)); if ns.contains(**__s0@[k].0) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == **__s0@[k].0; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s0@[j]).0 == ns[i]; assert(*__s0@[j].0 == *__s0@[k].0); assert(false); } }
//@at loop0.end
    proof { let c2 = changes@; let n = **__s0@[__i0 - 1].0;
        if c2.len() > c1.len() { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, l, b, c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|j: int| 0 <= j < __i0 && changed(l(**(#[trigger] __s0@[j]).0), b(**__s0@[j].0)) implies ns.contains(**__s0@[j].0) by { if j < __i0 - 1 { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == **__s0@[j].0; assert(ns[i] == n1[i]); } } } }
//@loop 1
    enumerates_mapr(__s1@, baseline.m@), lists(c0, changes@, ns, l, b),
    forall|n: String| l(n) is Some && changed(l(n), b(n)) ==> #[trigger] ns.contains(n),
    forall|j: int| 0 <= j < __i1 && changed(l(**(#[trigger] __s1@[j]).0), b(**__s1@[j].0)) ==> ns.contains(**__s1@[j].0),
    forall|i: int| 0 <= i < ns.len() ==> l(ns[i]) is Some || exists|j: int| 0 <= j < __i1 && **(#[trigger] __s1@[j]).0 == #[trigger] ns[i],
//@at loop0.after
    proof { assert forall|n: String| l(n) is Some && changed(l(n), b(n)) implies #[trigger] ns.contains(n) by { assert(latest.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s0@.len() && *(#[trigger] __s0@[j]).0 == &n; assert(**__s0@[j].0 == n); } 
        assert forall|i: int| 0 <= i < ns.len() implies l(#[trigger] ns[i]) is Some by { let j = choose|j: int| 0 <= j < __s0@.len() && **(#[trigger] __s0@[j]).0 == ns[i]; assert(latest.m@.contains_key(*__s0@[j].0)); } }
//@at loop1.start
    let ghost c1 = changes@; let ghost n1 = ns;
    proof { let k = __i1 - 1; let n = **__s1@[k].0; assert(baseline.m@.contains_key(*__s1@[k].0)); if l(n) is None && ns.contains(n) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == n; let j = choose|j: int| 0 <= j < k && **(#[trigger] __s1@[j]).0 == ns[i]; assert(*__s1@[j].0 == *__s1@[k].0); assert(false); } }
//@at loop1.end
    proof { let c2 = changes@; let n = **__s1@[__i1 - 1].0; assert(latest.m@.contains_key(*__s1@[__i1 - 1].0) == (l(n) is Some));
        if l(n) is None { let c = c2.last(); assert(c2 == c1.push(c)); lemma_push(c0, c1, ns, l, b, c, n); ns = ns.push(n); assert(ns[n1.len() as int] == n); assert(forall|i: int| 0 <= i < n1.len() ==> ns[i] == n1[i]);
          assert forall|m: String| n1.contains(m) implies ns.contains(m) by { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == m; assert(ns[i] == m); } } }
//@at loop1.after
    proof { assert forall|n: String| changed(l(n), b(n)) implies #[trigger] ns.contains(n) by { if l(n) is None { assert(baseline.m@.contains_key(&n)); let j = choose|j: int| 0 <= j < __s1@.len() && *(#[trigger] __s1@[j]).0 == &n; assert(**__s1@[j].0 == n); } } }
//@at end
    proof { if c0.len() == 0 { assert(c0 =~= seq![]); } assert(lists(c0, changes@, ns, l, b)); }
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs diff_signals
    ensures sig_diffed(latest@, baseline@, r@)
//@loop 0 acc=HashMap<&String,&T>
    refs_of(__s0@, baseline@), sig_map_upto(baseline@, __a0.m@, __i0 as int),
//@loop 1 acc=HashMap<&String,&T>
    refs_of(__s1@, latest@), sig_map_upto(latest@, __a1.m@, __i1 as int),
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema::registry_attribute_map
    requires wf(*self)
    ensures attr_map_of(*self, r.m@)
//@loop 0 acc=HashMap<&String,&Attribute>
    refs_of(__s0@, self.registry.attributes@), attr_map_upto(*self, __a0.m@, __i0 as int),
//@at loop0.start
    let ghost a1 = __a0.m@;
//@at loop0.end
    proof { let at = attr_at(*self, __i0 - 1); assert(self.registry.attributes@[__i0 - 1].0 < self.attribute_catalog@.len()); assert(__a0.m@ == a1.insert(&at.key, &at));
        assert forall|k: &String| #[trigger] __a0.m@.contains_key(k) implies __a0.m@[k].key == *k && exists|i: int| 0 <= i < self.registry.attributes@.len() && #[trigger] attr_at(*self, i) == *__a0.m@[k] by { if *k != at.key { assert(a1.contains_key(k)); } } }
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema::registry_attribute_diff
    requires wf(*self), wf(*baseline_schema)
    ensures attributes_diffed(*self, *baseline_schema, r@)
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema::registry_diff
    requires wf(*self), wf(*baseline_schema)
    ensures all_diffed(*self, *baseline_schema, r)
//@end
//@fn crates/weaver_resolved_schema/src/v2/mod.rs ResolvedTelemetrySchema::diff
    requires wf(*self), wf(*baseline_schema)
    ensures all_diffed(*self, *baseline_schema, r.registry), r.head_schema_url == self.schema_url, r.baseline_schema_url == baseline_schema.schema_url
//@end
} // verus!
fn main() {}
