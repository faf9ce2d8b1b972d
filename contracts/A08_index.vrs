//@include prelude.vrs
verus! {
//@include live_model.vrs
//@include live_checker.vrs
//@path std::cmp::Reverse => Reverse
// ---- the model, looked up by name
pub open spec fn at<T>(m: Map<String, Rc<T>>, n: String) -> Option<T> { if m.contains_key(n) { Some(*m[n]) } else { None } }
pub open spec fn ent(m: Map<String, VersionedEntity>, n: String) -> Option<VersionedEntity> { if m.contains_key(n) { Some(m[n]) } else { None } }
pub broadcast proof fn lemma_at_insert<T>(m: Map<String, Rc<T>>, k: String, v: Rc<T>, n: String) ensures #[trigger] at(m.insert(k, v), n) == (if n == k { Some(*v) } else { at(m, n) }) { }
pub broadcast proof fn lemma_ent_insert(m: Map<String, VersionedEntity>, k: String, v: VersionedEntity, n: String) ensures #[trigger] ent(m.insert(k, v), n) == (if n == k { Some(v) } else { ent(m, n) }) { }
/// of the groups before k, the last that is a metric (event, entity) of that name
pub open spec fn metric1(g: Seq<ResolvedGroup>, n: String, k: int) -> Option<VersionedSignal> decreases k { if k <= 0 { None } else if g[k - 1].type_ is Metric && g[k - 1].metric_name == Some(n) { Some(VersionedSignal::Group(Box::new(g[k - 1]))) } else { metric1(g, n, k - 1) } }
pub open spec fn event1(g: Seq<ResolvedGroup>, n: String, k: int) -> Option<VersionedSignal> decreases k { if k <= 0 { None } else if g[k - 1].type_ is Event && g[k - 1].name == Some(n) { Some(VersionedSignal::Group(Box::new(g[k - 1]))) } else { event1(g, n, k - 1) } }
pub open spec fn entity1(g: Seq<ResolvedGroup>, n: String, k: int) -> Option<VersionedEntity> decreases k { if k <= 0 { None } else if g[k - 1].type_ is Entity && g[k - 1].name == Some(n) { Some(VersionedEntity::V1(Box::new(g[k - 1]))) } else { entity1(g, n, k - 1) } }
pub open spec fn metric2(g: Seq<Metric>, n: String, k: int) -> Option<VersionedSignal> decreases k { if k <= 0 { None } else if g[k - 1].name.0 == n { Some(VersionedSignal::Metric(g[k - 1])) } else { metric2(g, n, k - 1) } }
pub open spec fn event2(g: Seq<Event>, n: String, k: int) -> Option<VersionedSignal> decreases k { if k <= 0 { None } else if g[k - 1].name.0 == n { Some(VersionedSignal::Event(g[k - 1])) } else { event2(g, n, k - 1) } }
pub open spec fn entity2(g: Seq<V2Entity>, n: String, k: int) -> Option<VersionedEntity> decreases k { if k <= 0 { None } else if g[k - 1].type_.0 == n { Some(VersionedEntity::V2(Box::new(g[k - 1]))) } else { entity2(g, n, k - 1) } }
/// every attribute of the groups before k, and of group k those before j, in order
pub open spec fn attrs1(g: Seq<ResolvedGroup>, k: int) -> Seq<VersionedAttribute> decreases k { if k <= 0 { seq![] } else { attrs1(g, k - 1) + own1(g[k - 1].attributes@, g[k - 1].attributes@.len() as int) } }
pub open spec fn own1(a: Seq<Attribute>, j: int) -> Seq<VersionedAttribute> { a.take(j).map_values(|x: Attribute| VersionedAttribute::V1(x)) }
pub open spec fn own2(a: Seq<V2Attribute>, j: int) -> Seq<VersionedAttribute> { a.take(j).map_values(|x: V2Attribute| VersionedAttribute::V2(x)) }
pub open spec fn va_name(a: VersionedAttribute) -> String { match a { VersionedAttribute::V1(x) => x.name, VersionedAttribute::V2(x) => x.key } }
pub open spec fn va_type(a: VersionedAttribute) -> AttributeType { match a { VersionedAttribute::V1(x) => x.type_, VersionedAttribute::V2(x) => x.type_ } }
/// the last attribute of that name that is not a template
pub open spec fn plain_named(s: Seq<VersionedAttribute>, n: String) -> Option<VersionedAttribute> decreases s.len() { if s.len() == 0 { None } else if va_name(s.last()) == n && !(va_type(s.last()) is Template) { Some(s.last()) } else { plain_named(s.drop_last(), n) } }
pub open spec fn templates(s: Seq<VersionedAttribute>) -> Seq<VersionedAttribute> decreases s.len() { if s.len() == 0 { s } else if va_type(s.last()) is Template { templates(s.drop_last()).push(s.last()) } else { templates(s.drop_last()) } }
pub open spec fn all_attrs(r: VersionedRegistry) -> Seq<VersionedAttribute> { match r { VersionedRegistry::V1(r) => attrs1(r.groups@, r.groups@.len() as int), VersionedRegistry::V2(r) => own2(r.registry.attributes@, r.registry.attributes@.len() as int) } }
pub open spec fn the_metric(r: VersionedRegistry, n: String) -> Option<VersionedSignal> { match r { VersionedRegistry::V1(r) => metric1(r.groups@, n, r.groups@.len() as int), VersionedRegistry::V2(r) => metric2(r.registry.metrics@, n, r.registry.metrics@.len() as int) } }
pub open spec fn the_event(r: VersionedRegistry, n: String) -> Option<VersionedSignal> { match r { VersionedRegistry::V1(r) => event1(r.groups@, n, r.groups@.len() as int), VersionedRegistry::V2(r) => event2(r.registry.events@, n, r.registry.events@.len() as int) } }
pub open spec fn the_entity(r: VersionedRegistry, n: String) -> Option<VersionedEntity> { match r { VersionedRegistry::V1(r) => entity1(r.groups@, n, r.groups@.len() as int), VersionedRegistry::V2(r) => entity2(r.registry.entities@, n, r.registry.entities@.len() as int) } }
pub open spec fn shown_pair(p: (String, Rc<VersionedAttribute>)) -> VersionedAttribute { *p.1 }
pub open spec fn shown_pairs(s: Seq<(String, Rc<VersionedAttribute>)>) -> Seq<VersionedAttribute> { s.map_values(|p: (String, Rc<VersionedAttribute>)| *p.1) }
pub open spec fn longer_first(a: (String, Rc<VersionedAttribute>), b: (String, Rc<VersionedAttribute>)) -> bool { blen(a.0@) >= blen(b.0@) }
pub open spec fn keyed(s: Seq<(String, Rc<VersionedAttribute>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == va_name(*s[i].1) }
pub open spec fn same_members<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|x: T| #[trigger] a.contains(x) <==> b.contains(x) }
pub proof fn lemma_attr(s: Seq<VersionedAttribute>, a: VersionedAttribute)
    ensures templates(s.push(a)) == (if va_type(a) is Template { templates(s).push(a) } else { templates(s) }),
        forall|n: String| #[trigger] plain_named(s.push(a), n) == (if va_name(a) == n && !(va_type(a) is Template) { Some(a) } else { plain_named(s, n) }),
{ assert(s.push(a).drop_last() =~= s); assert(s.push(a).last() == a); }
pub proof fn lemma_own1(x: Seq<VersionedAttribute>, a: Seq<Attribute>, j: int)
    requires 0 < j <= a.len(), ensures x + own1(a, j) == (x + own1(a, j - 1)).push(VersionedAttribute::V1(a[j - 1])),
{ assert(x + own1(a, j) =~= (x + own1(a, j - 1)).push(VersionedAttribute::V1(a[j - 1]))); }
pub proof fn lemma_own2(a: Seq<V2Attribute>, j: int)
    requires 0 < j <= a.len(), ensures own2(a, j) == own2(a, j - 1).push(VersionedAttribute::V2(a[j - 1])),
{ assert(own2(a, j) =~= own2(a, j - 1).push(VersionedAttribute::V2(a[j - 1]))); }
pub proof fn lemma_sorted(pre: Seq<(String, Rc<VersionedAttribute>)>, post: Seq<(String, Rc<VersionedAttribute>)>)
    requires permuted(pre, post), keyed(pre), ensures keyed(post), same_members(shown_pairs(post), shown_pairs(pre)),
{
    assert forall|i: int| 0 <= i < post.len() implies (#[trigger] post[i]).0 == va_name(*post[i].1) by { assert(post.contains(post[i])); let j = pre.index_of(post[i]); assert(pre[j] == post[i]); }
    assert forall|x: VersionedAttribute| #[trigger] shown_pairs(post).contains(x) <==> shown_pairs(pre).contains(x) by {
        if shown_pairs(post).contains(x) { let j = shown_pairs(post).index_of(x); assert(post.contains(post[j])); let k = pre.index_of(post[j]); assert(shown_pairs(pre)[k] == x); }
        if shown_pairs(pre).contains(x) { let j = shown_pairs(pre).index_of(x); assert(pre.contains(pre[j])); assert(post.contains(pre[j])); let k = post.index_of(pre[j]); assert(shown_pairs(post)[k] == x); }
    }
}
/// the indices after some of the attributes
pub open spec fn attrs_in(m: HashMap<String, Rc<VersionedAttribute>>, t: Vec<(String, Rc<VersionedAttribute>)>, s: Seq<VersionedAttribute>) -> bool {
    (forall|n: String| #[trigger] at(m.m@, n) == plain_named(s, n)) && keyed(t@) && shown_pairs(t@) =~= templates(s) }
pub open spec fn metrics_in(m: HashMap<String, Rc<VersionedSignal>>, g: Seq<ResolvedGroup>, k: int) -> bool { forall|n: String| #[trigger] at(m.m@, n) == metric1(g, n, k) }
pub open spec fn events_in(m: HashMap<String, Rc<VersionedSignal>>, g: Seq<ResolvedGroup>, k: int) -> bool { forall|n: String| #[trigger] at(m.m@, n) == event1(g, n, k) }
pub open spec fn entities_in(m: HashMap<String, VersionedEntity>, g: Seq<ResolvedGroup>, k: int) -> bool { forall|n: String| #[trigger] ent(m.m@, n) == entity1(g, n, k) }
pub open spec fn metrics2_in(m: HashMap<String, Rc<VersionedSignal>>, g: Seq<Metric>, k: int) -> bool { forall|n: String| #[trigger] at(m.m@, n) == metric2(g, n, k) }
pub open spec fn events2_in(m: HashMap<String, Rc<VersionedSignal>>, g: Seq<Event>, k: int) -> bool { forall|n: String| #[trigger] at(m.m@, n) == event2(g, n, k) }
pub open spec fn entities2_in(m: HashMap<String, VersionedEntity>, g: Seq<V2Entity>, k: int) -> bool { forall|n: String| #[trigger] ent(m.m@, n) == entity2(g, n, k) }
/// the checker finds what its registry defines, and nothing else
pub open spec fn indexes(c: LiveChecker, r: VersionedRegistry) -> bool {
    &&& forall|n: String| #[trigger] at(c.semconv_metrics.m@, n) == the_metric(r, n)
    &&& forall|n: String| #[trigger] at(c.semconv_events.m@, n) == the_event(r, n)
    &&& forall|n: String| #[trigger] ent(c.semconv_entities.m@, n) == the_entity(r, n)
    &&& forall|n: String| #[trigger] at(c.semconv_attributes.m@, n) == plain_named(all_attrs(r), n)
    &&& keyed(c.templates_by_length@) && same_members(shown_pairs(c.templates_by_length@), templates(all_attrs(r)))
    &&& sorted_by(c.templates_by_length@, |a: (String, Rc<VersionedAttribute>), b: (String, Rc<VersionedAttribute>)| longer_first(a, b)) }
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::new
    ensures indexes(r, *registry), r.registry == registry, r.advisors@ == advisors@, r.otlp_emitter is None, r.finding_modifier is None
//@subst registry.as_ref() => (&*registry)
//@at start
    broadcast use {lemma_at_insert, lemma_ent_insert};
    let ghost reg = registry;
//@loop 0
    *reg == VersionedRegistry::V1(*registry), metrics_in(semconv_metrics, registry.groups@, __i0 as int), events_in(semconv_events, registry.groups@, __i0 as int), entities_in(semconv_entities, registry.groups@, __i0 as int), attrs_in(semconv_attributes, templates_by_length, attrs1(registry.groups@, __i0 as int)),
//@loop 1
    attrs_in(semconv_attributes, templates_by_length, attrs1(registry.groups@, __i0 - 1) + own1(group.attributes@, __i1 as int)),
//@at loop1.before
    proof { assert(attrs1(registry.groups@, __i0 - 1) + own1(group.attributes@, 0) =~= attrs1(registry.groups@, __i0 - 1)); }
//@at loop1.start
    let ghost tbl = templates_by_length@;
    proof { lemma_own1(attrs1(registry.groups@, __i0 - 1), group.attributes@, __i1 as int); lemma_attr(attrs1(registry.groups@, __i0 - 1) + own1(group.attributes@, __i1 - 1), VersionedAttribute::V1(group.attributes@[__i1 - 1])); }
//@loop 2
    *reg == VersionedRegistry::V2(*registry), metrics2_in(semconv_metrics, registry.registry.metrics@, __i2 as int),
//@loop 3
    *reg == VersionedRegistry::V2(*registry), events2_in(semconv_events, registry.registry.events@, __i3 as int),
//@loop 4
    *reg == VersionedRegistry::V2(*registry), entities2_in(semconv_entities, registry.registry.entities@, __i4 as int),
//@loop 5
    *reg == VersionedRegistry::V2(*registry), attrs_in(semconv_attributes, templates_by_length, own2(registry.registry.attributes@, __i5 as int)),
//@at loop5.start
    proof { lemma_own2(registry.registry.attributes@, __i5 as int); lemma_attr(own2(registry.registry.attributes@, __i5 - 1), VersionedAttribute::V2(registry.registry.attributes@[__i5 - 1])); }
//@sort 0 longer_first
//@at sort0.before
    let ghost pre = templates_by_length@;
//@at sort0.after
    proof { lemma_sorted(pre, templates_by_length@); }
//@end
pub open spec fn got<T>(r: Option<Rc<T>>) -> Option<T> { match r { Some(x) => Some(*x), None => None } }
/// the model's template for an attribute: one the attribute's name begins with, and none such has a longer name; none only if there is no such template
pub open spec fn template_for(n: String, ts: Seq<VersionedAttribute>, r: Option<VersionedAttribute>) -> bool { match r {
    Some(a) => ts.contains(a) && va_name(a)@.is_prefix_of(n@) && forall|t: VersionedAttribute| #[trigger] ts.contains(t) && va_name(t)@.is_prefix_of(n@) ==> blen(va_name(t)@) <= blen(va_name(a)@),
    None => forall|t: VersionedAttribute| #[trigger] ts.contains(t) ==> !va_name(t)@.is_prefix_of(n@) } }
pub open spec fn begins(t: Seq<(String, Rc<VersionedAttribute>)>, n: String, i: int) -> bool { t[i].0@.is_prefix_of(n@) }
pub open spec fn none_before(t: Seq<(String, Rc<VersionedAttribute>)>, n: String, k: int) -> bool { forall|i: int| 0 <= i < k ==> !#[trigger] begins(t, n, i) }
pub proof fn lemma_found(c: LiveChecker, g: VersionedRegistry, n: String, i: int)
    requires indexes(c, g), 0 <= i < c.templates_by_length@.len(), begins(c.templates_by_length@, n, i), none_before(c.templates_by_length@, n, i),
    ensures template_for(n, templates(all_attrs(g)), Some(*c.templates_by_length@[i].1)),
{
    let s = c.templates_by_length@; let ts = templates(all_attrs(g)); let a = *s[i].1;
    assert(shown_pairs(s)[i] == a); assert(shown_pairs(s).contains(a));
    assert forall|t: VersionedAttribute| #[trigger] ts.contains(t) && va_name(t)@.is_prefix_of(n@) implies blen(va_name(t)@) <= blen(va_name(a)@) by {
        assert(shown_pairs(s).contains(t)); let j = shown_pairs(s).index_of(t); assert(s[j].0 == va_name(*s[j].1)); assert(begins(s, n, j)); assert(j >= i); assert(longer_first(s[i], s[j])); }
}
pub proof fn lemma_not_found(c: LiveChecker, g: VersionedRegistry, n: String)
    requires indexes(c, g), none_before(c.templates_by_length@, n, c.templates_by_length@.len() as int),
    ensures template_for(n, templates(all_attrs(g)), None),
{
    let s = c.templates_by_length@; let ts = templates(all_attrs(g));
    assert forall|t: VersionedAttribute| #[trigger] ts.contains(t) implies !va_name(t)@.is_prefix_of(n@) by {
        assert(shown_pairs(s).contains(t)); let j = shown_pairs(s).index_of(t); assert(s[j].0 == va_name(*s[j].1)); assert(!begins(s, n, j)); }
}
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_attribute
    ensures got(r) == at(self.semconv_attributes.m@, *name), forall|g: VersionedRegistry| #[trigger] indexes(*self, g) ==> got(r) == plain_named(all_attrs(g), *name)
//@end
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_metric
    ensures got(r) == at(self.semconv_metrics.m@, *name), forall|g: VersionedRegistry| #[trigger] indexes(*self, g) ==> got(r) == the_metric(g, *name)
//@end
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_event
    ensures got(r) == at(self.semconv_events.m@, *name), forall|g: VersionedRegistry| #[trigger] indexes(*self, g) ==> got(r) == the_event(g, *name)
//@end
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_entity
    ensures (match r { Some(x) => Some(*x), None => None }) == ent(self.semconv_entities.m@, *entity_type), forall|g: VersionedRegistry| #[trigger] indexes(*self, g) ==> (match r { Some(x) => Some(*x), None => None }) == the_entity(g, *entity_type)
//@end
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_template
    ensures forall|g: VersionedRegistry| #[trigger] indexes(*self, g) ==> template_for(*attribute_name, templates(all_attrs(g)), got(r))
//@loop 0
    none_before(self.templates_by_length@, *attribute_name, __i0 as int),
//@at loop0.start
    proof { if begins(self.templates_by_length@, *attribute_name, __i0 - 1) { assert forall|g: VersionedRegistry| #[trigger] indexes(*self, g) implies template_for(*attribute_name, templates(all_attrs(g)), Some(*self.templates_by_length@[__i0 - 1].1)) by { lemma_found(*self, g, *attribute_name, __i0 - 1); } } }
//@at loop0.after
    proof { assert forall|g: VersionedRegistry| #[trigger] indexes(*self, g) implies template_for(*attribute_name, templates(all_attrs(g)), None) by { lemma_not_found(*self, g, *attribute_name); } }
//@end
} // verus!
fn main() {}
