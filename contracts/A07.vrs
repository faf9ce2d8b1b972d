//@include prelude.vrs
verus! {
//@include live_types.vrs
//@opaque Examples RequirementLevel Stability Deprecated AttributeRole AttributeType YamlValue Tags InstrumentSpec SignalRequirementLevel AnyValueSpec EntityAssociation GroupLineage Provenance SchemaUrl MetricAttribute EventAttribute AttributeGroup Span Entity Refinements FindingModifier
pub struct SignalId { pub s: String }
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == self.s { unimplemented!() } }
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_forge/src/registry.rs ResolvedGroup
//@type crates/weaver_forge/src/registry.rs ResolvedRegistry
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_forge/src/v2/attribute.rs Attribute as=AttributeV2
//@type crates/weaver_forge/src/v2/metric.rs Metric
//@type crates/weaver_forge/src/v2/event.rs Event
//@type crates/weaver_forge/src/v2/registry.rs Registry sub=Attribute:AttributeV2
//@type crates/weaver_forge/src/v2/registry.rs ForgeResolvedRegistry
//@type crates/weaver_live_check/src/lib.rs VersionedRegistry
//@type crates/weaver_config/src/live_check.rs FailOnLevel
//@type crates/weaver_live_check/src/stats.rs CumulativeStatistics
//@type crates/weaver_live_check/src/stats.rs DisabledStatistics
//@type crates/weaver_live_check/src/stats.rs LiveCheckStatistics
/// FindingModifier::apply: proved in A06 to be this function of its arguments
pub uninterp spec fn applied(m: FindingModifier, f: PolicyFinding, s: SampleRef) -> Option<PolicyFinding>;
impl FindingModifier { #[verifier::external_body] pub fn apply(&self, f: PolicyFinding, s: &SampleRef) -> (r: Option<PolicyFinding>) ensures r == applied(*self, f, *s) { unimplemented!() } }

// ---- the property
pub open spec fn kept(m: Option<&FindingModifier>, f: PolicyFinding, s: SampleRef) -> Option<PolicyFinding> { match m { Some(m) => applied(*m, f, s), None => Some(f) } }
/// the result's highest level is the highest of its findings (none iff there are none)
pub open spec fn wf_result(r: LiveCheckResult) -> bool {
    &&& r.highest_advice_level is None == (r.all_advice@.len() == 0)
    &&& r.highest_advice_level is Some ==> (forall|i: int| 0 <= i < r.all_advice@.len() ==> (#[trigger] r.all_advice@[i]).level.vkey() <= r.highest_advice_level->Some_0.vkey())
        && (exists|i: int| 0 <= i < r.all_advice@.len() && (#[trigger] r.all_advice@[i]).level == r.highest_advice_level->Some_0)
}
pub open spec fn kept_list(pre: Seq<PolicyFinding>, l: Seq<PolicyFinding>, m: Option<&FindingModifier>, s: SampleRef, n: int) -> Seq<PolicyFinding> decreases n {
    if n <= 0 { pre } else { match kept(m, l[n - 1], s) { Some(f) => kept_list(pre, l, m, s, n - 1).push(f), None => kept_list(pre, l, m, s, n - 1) } } }
/// some finding of the result is at or above the threshold
pub open spec fn reaches(r: LiveCheckResult, t: FindingLevel) -> bool { exists|i: int| 0 <= i < r.all_advice@.len() && (#[trigger] r.all_advice@[i]).level.vkey() >= t.vkey() }
pub open spec fn fails(s: CumulativeStatistics, t: FindingLevel) -> bool { exists|l: FindingLevel| #[trigger] s.highest_advice_level_counts.m@.contains_key(l) && l.vkey() >= t.vkey() }
pub open spec fn cnt<K>(m: HashMap<K, usize>, k: K) -> int { if m.m@.contains_key(k) { m.m@[k] as int } else { 0 } }
pub open spec fn inc_at<K>(pre: HashMap<K, usize>, post: HashMap<K, usize>, k: K) -> bool { post.m@ == pre.m@.insert(k, (cnt(pre, k) + 1) as usize) }
/// counts never exceed the total (so that no counter can overflow before the total does)
pub open spec fn bounded<K>(m: HashMap<K, usize>, t: usize) -> bool { forall|k: K| #[trigger] m.m@.contains_key(k) ==> m.m@[k] <= t }
pub open spec fn wf_stats(s: CumulativeStatistics) -> bool { bounded(s.advice_level_counts, s.total_advisories) && bounded(s.advice_type_counts, s.total_advisories) && bounded(s.advice_message_counts, s.total_advisories) && bounded(s.total_entities_by_type, s.total_entities) }
pub open spec fn room(s: CumulativeStatistics) -> bool { (forall|k: FindingLevel| #[trigger] s.highest_advice_level_counts.m@.contains_key(k) ==> s.highest_advice_level_counts.m@[k] < usize::MAX) && s.no_advice_count < usize::MAX && s.total_entities < usize::MAX }
pub open spec fn n_level(l: Seq<PolicyFinding>, x: FindingLevel, n: int) -> int decreases n { if n <= 0 { 0 } else { n_level(l, x, n - 1) + if l[n - 1].level == x { 1int } else { 0 } } }
pub open spec fn n_id(l: Seq<PolicyFinding>, x: String, n: int) -> int decreases n { if n <= 0 { 0 } else { n_id(l, x, n - 1) + if l[n - 1].id == x { 1int } else { 0 } } }
pub open spec fn n_msg(l: Seq<PolicyFinding>, x: String, n: int) -> int decreases n { if n <= 0 { 0 } else { n_msg(l, x, n - 1) + if l[n - 1].message == x { 1int } else { 0 } } }
/// every finding of l counted once by level, once by id, once by message
pub open spec fn counted(pre: CumulativeStatistics, post: CumulativeStatistics, l: Seq<PolicyFinding>, n: int) -> bool {
    &&& post.total_advisories == pre.total_advisories + n
    &&& forall|x: FindingLevel| #[trigger] cnt(post.advice_level_counts, x) == cnt(pre.advice_level_counts, x) + n_level(l, x, n)
    &&& forall|x: String| #[trigger] cnt(post.advice_type_counts, x) == cnt(pre.advice_type_counts, x) + n_id(l, x, n)
    &&& forall|x: String| #[trigger] cnt(post.advice_message_counts, x) == cnt(pre.advice_message_counts, x) + n_msg(l, x, n)
}
pub open spec fn same_rest(pre: CumulativeStatistics, post: CumulativeStatistics) -> bool {
    post.total_entities == pre.total_entities && post.total_entities_by_type == pre.total_entities_by_type
    && post.seen_registry_attributes == pre.seen_registry_attributes && post.seen_non_registry_attributes == pre.seen_non_registry_attributes
    && post.seen_registry_metrics == pre.seen_registry_metrics && post.seen_non_registry_metrics == pre.seen_non_registry_metrics
    && post.seen_registry_events == pre.seen_registry_events && post.seen_non_registry_events == pre.seen_non_registry_events }

pub proof fn lemma_step(pre: CumulativeStatistics, mid: CumulativeStatistics, post: CumulativeStatistics, l: Seq<PolicyFinding>, n: int)
    requires 0 <= n < l.len(), counted(pre, mid, l, n), wf_stats(mid), mid.total_advisories < usize::MAX, post.total_advisories == mid.total_advisories + 1, inc_at(mid.advice_level_counts, post.advice_level_counts, l[n].level), inc_at(mid.advice_type_counts, post.advice_type_counts, l[n].id), inc_at(mid.advice_message_counts, post.advice_message_counts, l[n].message)
    ensures counted(pre, post, l, n + 1)
{
    assert forall|x: FindingLevel| #[trigger] cnt(post.advice_level_counts, x) == cnt(pre.advice_level_counts, x) + n_level(l, x, n + 1) by { assert(cnt(mid.advice_level_counts, x) == cnt(pre.advice_level_counts, x) + n_level(l, x, n)); }
    assert forall|x: String| #[trigger] cnt(post.advice_type_counts, x) == cnt(pre.advice_type_counts, x) + n_id(l, x, n + 1) by { assert(cnt(mid.advice_type_counts, x) == cnt(pre.advice_type_counts, x) + n_id(l, x, n)); }
    assert forall|x: String| #[trigger] cnt(post.advice_message_counts, x) == cnt(pre.advice_message_counts, x) + n_msg(l, x, n + 1) by { assert(cnt(mid.advice_message_counts, x) == cnt(pre.advice_message_counts, x) + n_msg(l, x, n)); }
}
pub proof fn lemma_same(pre: CumulativeStatistics, post: CumulativeStatistics, t: FindingLevel) requires post.highest_advice_level_counts == pre.highest_advice_level_counts ensures fails(post, t) == fails(pre, t) {
    if fails(pre, t) { let l = choose|l: FindingLevel| #[trigger] pre.highest_advice_level_counts.m@.contains_key(l) && l.vkey() >= t.vkey(); assert(post.highest_advice_level_counts.m@.contains_key(l)); }
    if fails(post, t) { let l = choose|l: FindingLevel| #[trigger] post.highest_advice_level_counts.m@.contains_key(l) && l.vkey() >= t.vkey(); assert(pre.highest_advice_level_counts.m@.contains_key(l)); }
}
/// the verdict after a result is the verdict before, or some finding of the result reaches the threshold
pub proof fn theorem_verdict(pre: CumulativeStatistics, post: CumulativeStatistics, r: LiveCheckResult, t: FindingLevel)
    requires wf_result(r), (match r.highest_advice_level { Some(h) => inc_at(pre.highest_advice_level_counts, post.highest_advice_level_counts, h), None => post.highest_advice_level_counts == pre.highest_advice_level_counts })
    ensures fails(post, t) == (fails(pre, t) || reaches(r, t))
{
    let (a, b) = (pre.highest_advice_level_counts.m@, post.highest_advice_level_counts.m@);
    if r.highest_advice_level is Some {
        let h = r.highest_advice_level->Some_0;
        assert(forall|l: FindingLevel| #[trigger] b.contains_key(l) == (a.contains_key(l) || l == h));
        if fails(pre, t) { let l = choose|l: FindingLevel| #[trigger] a.contains_key(l) && l.vkey() >= t.vkey(); assert(b.contains_key(l)); }
        if reaches(r, t) { assert(b.contains_key(h)); }
        if fails(post, t) { let l = choose|l: FindingLevel| #[trigger] b.contains_key(l) && l.vkey() >= t.vkey(); if !a.contains_key(l) { assert(l == h); } }
    }
}
pub open spec fn is_c(s: LiveCheckStatistics) -> bool { s is Cumulative }
pub open spec fn c_of(s: LiveCheckStatistics) -> CumulativeStatistics { s->Cumulative_0 }
//@fn crates/weaver_live_check/src/lib.rs LiveCheckResult::new
    ensures r.all_advice@ == Seq::<PolicyFinding>::empty(), r.highest_advice_level is None, wf_result(r)
//@end
//@fn crates/weaver_live_check/src/lib.rs LiveCheckResult::add_advice
    requires wf_result(*old(self))
    ensures wf_result(*final(self)), final(self).all_advice@ == (match kept(modifier, advice, *sample) { Some(f) => old(self).all_advice@.push(f), None => old(self).all_advice@ })
//@at end
    proof { let a = self.all_advice@; let b = old(self).all_advice@; let h = self.highest_advice_level->Some_0;
      assert(a[a.len() - 1].level == level);
      assert(forall|i: int| 0 <= i < b.len() ==> b[i] == #[trigger] a[i]);
      if h != level { let j = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).level == old(self).highest_advice_level->Some_0; assert(a[j].level == h); } else { assert(a[a.len() - 1].level == h); } }
//@end
//@fn crates/weaver_live_check/src/lib.rs LiveCheckResult::add_advice_list
    requires wf_result(*old(self))
    ensures wf_result(*final(self)), final(self).all_advice@ == kept_list(old(self).all_advice@, advice@, modifier, *sample, advice@.len() as int)
//@at start
    let ghost l = advice@;
//@loop 0
    __s0@ == l, wf_result(*self), self.all_advice@ == kept_list(old(self).all_advice@, l, modifier, *sample, __i0 as int),
//@end

// ---- statistics
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::inc_entity_count
    requires wf_stats(*old(self)), old(self).total_entities < usize::MAX
    ensures wf_stats(*final(self)), final(self).total_entities == old(self).total_entities + 1, inc_at(old(self).total_entities_by_type, final(self).total_entities_by_type, *entity_type),
        final(self).advice_level_counts == old(self).advice_level_counts, final(self).highest_advice_level_counts == old(self).highest_advice_level_counts, final(self).total_advisories == old(self).total_advisories, final(self).no_advice_count == old(self).no_advice_count
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::add_advice
    requires wf_stats(*old(self)), old(self).total_advisories < usize::MAX
    ensures wf_stats(*final(self)), final(self).total_advisories == old(self).total_advisories + 1, inc_at(old(self).advice_level_counts, final(self).advice_level_counts, advice.level),
        inc_at(old(self).advice_type_counts, final(self).advice_type_counts, advice.id), inc_at(old(self).advice_message_counts, final(self).advice_message_counts, advice.message),
        final(self).highest_advice_level_counts == old(self).highest_advice_level_counts, final(self).no_advice_count == old(self).no_advice_count, same_rest(*old(self), *final(self))
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::add_highest_advice_level
    requires cnt(old(self).highest_advice_level_counts, *advice) < usize::MAX
    ensures inc_at(old(self).highest_advice_level_counts, final(self).highest_advice_level_counts, *advice),
        *final(self) == (CumulativeStatistics { highest_advice_level_counts: final(self).highest_advice_level_counts, ..*old(self) })
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::inc_no_advice_count
    requires old(self).no_advice_count < usize::MAX
    ensures *final(self) == (CumulativeStatistics { no_advice_count: (old(self).no_advice_count + 1) as usize, ..*old(self) })
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::add_attribute_name_to_coverage
    requires cnt(old(self).seen_registry_attributes, seen_attribute_name) < usize::MAX, cnt(old(self).seen_non_registry_attributes, seen_attribute_name) < usize::MAX
    ensures old(self).seen_registry_attributes.m@.contains_key(seen_attribute_name) ==> inc_at(old(self).seen_registry_attributes, final(self).seen_registry_attributes, seen_attribute_name) && final(self).seen_non_registry_attributes == old(self).seen_non_registry_attributes,
        !old(self).seen_registry_attributes.m@.contains_key(seen_attribute_name) ==> inc_at(old(self).seen_non_registry_attributes, final(self).seen_non_registry_attributes, seen_attribute_name) && final(self).seen_registry_attributes.m@ == old(self).seen_registry_attributes.m@,
        *final(self) == (CumulativeStatistics { seen_registry_attributes: final(self).seen_registry_attributes, seen_non_registry_attributes: final(self).seen_non_registry_attributes, ..*old(self) })
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::add_metric_name_to_coverage
    requires cnt(old(self).seen_registry_metrics, seen_metric_name) < usize::MAX, cnt(old(self).seen_non_registry_metrics, seen_metric_name) < usize::MAX
    ensures old(self).seen_registry_metrics.m@.contains_key(seen_metric_name) ==> inc_at(old(self).seen_registry_metrics, final(self).seen_registry_metrics, seen_metric_name) && final(self).seen_non_registry_metrics == old(self).seen_non_registry_metrics,
        !old(self).seen_registry_metrics.m@.contains_key(seen_metric_name) ==> inc_at(old(self).seen_non_registry_metrics, final(self).seen_non_registry_metrics, seen_metric_name) && final(self).seen_registry_metrics.m@ == old(self).seen_registry_metrics.m@,
        *final(self) == (CumulativeStatistics { seen_registry_metrics: final(self).seen_registry_metrics, seen_non_registry_metrics: final(self).seen_non_registry_metrics, ..*old(self) })
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::add_event_name_to_coverage
    requires cnt(old(self).seen_registry_events, seen_event_name) < usize::MAX, cnt(old(self).seen_non_registry_events, seen_event_name) < usize::MAX
    ensures seen_event_name@.len() == 0 ==> *final(self) == *old(self),
        seen_event_name@.len() > 0 && old(self).seen_registry_events.m@.contains_key(seen_event_name) ==> inc_at(old(self).seen_registry_events, final(self).seen_registry_events, seen_event_name) && final(self).seen_non_registry_events == old(self).seen_non_registry_events,
        seen_event_name@.len() > 0 && !old(self).seen_registry_events.m@.contains_key(seen_event_name) ==> inc_at(old(self).seen_non_registry_events, final(self).seen_non_registry_events, seen_event_name) && final(self).seen_registry_events.m@ == old(self).seen_registry_events.m@,
        *final(self) == (CumulativeStatistics { seen_registry_events: final(self).seen_registry_events, seen_non_registry_events: final(self).seen_non_registry_events, ..*old(self) })
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::max_level
    ensures r is None == (forall|l: FindingLevel| !self.highest_advice_level_counts.m@.contains_key(l)),
        r is Some ==> self.highest_advice_level_counts.m@.contains_key(r->Some_0) && forall|l: FindingLevel| #[trigger] self.highest_advice_level_counts.m@.contains_key(l) ==> l.vkey() <= r->Some_0.vkey()
//@loop 0 acc=Option<FindingLevel>
    enumerates_r(__s0@, self.highest_advice_level_counts.m@.dom()), __a0 is None == (__i0 == 0), __a0 is Some ==> self.highest_advice_level_counts.m@.contains_key(__a0->Some_0) && forall|j: int| 0 <= j < __i0 ==> (*#[trigger] __s0@[j]).vkey() <= __a0->Some_0.vkey(),
//@end
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::should_fail
    ensures r == fails(*self, threshold)
//@end
//@fn crates/weaver_live_check/src/stats.rs LiveCheckStatistics::should_fail
    ensures r == (match *self { LiveCheckStatistics::Cumulative(s) => fails(s, threshold), LiveCheckStatistics::Disabled(_) => false })
//@end
//@fn crates/weaver_live_check/src/stats.rs LiveCheckStatistics::maybe_add_live_check_result
    requires live_check_result is Some ==> wf_result(*live_check_result->Some_0),
        is_c(*old(self)) ==> wf_stats(c_of(*old(self))) && room(c_of(*old(self))) && (live_check_result is Some ==> c_of(*old(self)).total_advisories + live_check_result->Some_0.all_advice@.len() < usize::MAX)
    ensures !is_c(*old(self)) ==> *final(self) == *old(self),
        is_c(*old(self)) ==> is_c(*final(self)) && wf_stats(c_of(*final(self))) && same_rest(c_of(*old(self)), c_of(*final(self)))
            && (match live_check_result {
                None => c_of(*final(self)).no_advice_count == c_of(*old(self)).no_advice_count + 1 && c_of(*final(self)).highest_advice_level_counts == c_of(*old(self)).highest_advice_level_counts,
                Some(res) => counted(c_of(*old(self)), c_of(*final(self)), res.all_advice@, res.all_advice@.len() as int)
                    && c_of(*final(self)).no_advice_count == c_of(*old(self)).no_advice_count + (if res.all_advice@.len() == 0 { 1int } else { 0 })
                    && (match res.highest_advice_level { Some(h) => inc_at(c_of(*old(self)).highest_advice_level_counts, c_of(*final(self)).highest_advice_level_counts, h), None => c_of(*final(self)).highest_advice_level_counts == c_of(*old(self)).highest_advice_level_counts }) }),
        // the verdict after is the verdict before, or some finding of this result reaches the threshold
        is_c(*old(self)) ==> forall|t: FindingLevel| #[trigger] fails(c_of(*final(self)), t) == (fails(c_of(*old(self)), t) || (live_check_result is Some && reaches(*live_check_result->Some_0, t)))
//@loop 0
    live_check_result is Some, is_c(*old(self)), refs_of(__s0@, live_check_result->Some_0.all_advice@), wf_stats(*stats), same_rest(c_of(*old(self)), *stats), counted(c_of(*old(self)), *stats, live_check_result->Some_0.all_advice@, __i0 as int),
    live_check_result->Some_0.all_advice@.len() + c_of(*old(self)).total_advisories < usize::MAX, stats.no_advice_count == c_of(*old(self)).no_advice_count, stats.highest_advice_level_counts == c_of(*old(self)).highest_advice_level_counts,
//@at loop0.start
    let ghost mid = *stats;
//@at loop0.end
    proof { lemma_step(c_of(*old(self)), mid, *stats, live_check_result->Some_0.all_advice@, __i0 - 1); }
//@at end
    proof { if is_c(*old(self)) { assert forall|t: FindingLevel| #[trigger] fails(c_of(*self), t) == (fails(c_of(*old(self)), t) || (live_check_result is Some && reaches(*live_check_result->Some_0, t))) by { if live_check_result is Some { theorem_verdict(c_of(*old(self)), c_of(*self), *live_check_result->Some_0, t); } else { lemma_same(c_of(*old(self)), c_of(*self), t); } } } }
//@end
// ---- what counts as "in the registry" for coverage: exactly the non-deprecated items
pub open spec fn g_attr(a: Seq<Attribute>, n: int, x: String) -> bool decreases n { n > 0 && (g_attr(a, n - 1, x) || (a[n - 1].deprecated is None && a[n - 1].name == x)) }
pub open spec fn r_attr(g: Seq<ResolvedGroup>, n: int, x: String) -> bool decreases n { n > 0 && (r_attr(g, n - 1, x) || g_attr(g[n - 1].attributes@, g[n - 1].attributes@.len() as int, x)) }
pub open spec fn r_metric(g: Seq<ResolvedGroup>, n: int, x: String) -> bool decreases n { n > 0 && (r_metric(g, n - 1, x) || (g[n - 1].type_ == GroupType::Metric && g[n - 1].deprecated is None && g[n - 1].metric_name == Some(x))) }
pub open spec fn r_event(g: Seq<ResolvedGroup>, n: int, x: String) -> bool decreases n { n > 0 && (r_event(g, n - 1, x) || (g[n - 1].type_ == GroupType::Event && g[n - 1].deprecated is None && g[n - 1].name == Some(x))) }
pub open spec fn v2_attr(a: Seq<AttributeV2>, n: int, x: String) -> bool decreases n { n > 0 && (v2_attr(a, n - 1, x) || (a[n - 1].common.deprecated is None && a[n - 1].key == x)) }
pub open spec fn v2_metric(a: Seq<Metric>, n: int, x: String) -> bool decreases n { n > 0 && (v2_metric(a, n - 1, x) || (a[n - 1].common.deprecated is None && a[n - 1].name.s == x)) }
pub open spec fn v2_event(a: Seq<Event>, n: int, x: String) -> bool decreases n { n > 0 && (v2_event(a, n - 1, x) || (a[n - 1].common.deprecated is None && a[n - 1].name.s == x)) }
pub open spec fn zeros(m: HashMap<String, usize>) -> bool { forall|x: String| #[trigger] m.m@.contains_key(x) ==> m.m@[x] == 0 }
pub open spec fn is_attr(r: VersionedRegistry, x: String) -> bool { match r { VersionedRegistry::V1(r) => r_attr(r.groups@, r.groups@.len() as int, x), VersionedRegistry::V2(r) => v2_attr(r.registry.attributes@, r.registry.attributes@.len() as int, x) } }
pub open spec fn is_metric(r: VersionedRegistry, x: String) -> bool { match r { VersionedRegistry::V1(r) => r_metric(r.groups@, r.groups@.len() as int, x), VersionedRegistry::V2(r) => v2_metric(r.registry.metrics@, r.registry.metrics@.len() as int, x) } }
pub open spec fn is_event(r: VersionedRegistry, x: String) -> bool { match r { VersionedRegistry::V1(r) => r_event(r.groups@, r.groups@.len() as int, x), VersionedRegistry::V2(r) => v2_event(r.registry.events@, r.registry.events@.len() as int, x) } }
//@fn crates/weaver_live_check/src/stats.rs CumulativeStatistics::extract_registry_items
    ensures zeros(r.0), zeros(r.1), zeros(r.2), forall|x: String| #[trigger] r.0.m@.contains_key(x) == is_attr(*registry, x), forall|x: String| #[trigger] r.1.m@.contains_key(x) == is_metric(*registry, x), forall|x: String| #[trigger] r.2.m@.contains_key(x) == is_event(*registry, x)
//@loop 0
    refs_of(__s0@, registry->V1_0.groups@), zeros(seen_attributes), zeros(seen_metrics), zeros(seen_events),
    forall|x: String| #[trigger] seen_attributes.m@.contains_key(x) == r_attr(registry->V1_0.groups@, __i0 as int, x),
    forall|x: String| #[trigger] seen_metrics.m@.contains_key(x) == r_metric(registry->V1_0.groups@, __i0 as int, x),
    forall|x: String| #[trigger] seen_events.m@.contains_key(x) == r_event(registry->V1_0.groups@, __i0 as int, x),
//@loop 1
    __i0 > 0, refs_of(__s1@, registry->V1_0.groups@[__i0 - 1].attributes@), zeros(seen_attributes),
    forall|x: String| #[trigger] seen_attributes.m@.contains_key(x) == (r_attr(registry->V1_0.groups@, __i0 - 1, x) || g_attr(registry->V1_0.groups@[__i0 - 1].attributes@, __i1 as int, x)),
//@loop 2
    refs_of(__s2@, registry->V2_0.registry.attributes@), zeros(seen_attributes), forall|x: String| #[trigger] seen_attributes.m@.contains_key(x) == v2_attr(registry->V2_0.registry.attributes@, __i2 as int, x),
//@loop 3
    refs_of(__s3@, registry->V2_0.registry.metrics@), zeros(seen_metrics), forall|x: String| #[trigger] seen_metrics.m@.contains_key(x) == v2_metric(registry->V2_0.registry.metrics@, __i3 as int, x),
//@loop 4
    refs_of(__s4@, registry->V2_0.registry.events@), zeros(seen_events), forall|x: String| #[trigger] seen_events.m@.contains_key(x) == v2_event(registry->V2_0.registry.events@, __i4 as int, x),
//@end
//@fn crates/weaver_live_check/src/stats.rs LiveCheckStatistics::inc_entity_count
    requires is_c(*old(self)) ==> wf_stats(c_of(*old(self))) && c_of(*old(self)).total_entities < usize::MAX
    ensures !is_c(*old(self)) ==> *final(self) == *old(self), is_c(*old(self)) ==> is_c(*final(self)) && wf_stats(c_of(*final(self))) && c_of(*final(self)).total_entities == c_of(*old(self)).total_entities + 1
        && inc_at(c_of(*old(self)).total_entities_by_type, c_of(*final(self)).total_entities_by_type, *entity_type) && c_of(*final(self)).highest_advice_level_counts == c_of(*old(self)).highest_advice_level_counts
//@end
//@fn crates/weaver_config/src/live_check.rs FailOnLevel::as_finding_threshold
    ensures r == (match self { FailOnLevel::Violation => Some(FindingLevel::Violation), FailOnLevel::Improvement => Some(FindingLevel::Improvement), FailOnLevel::Information => Some(FindingLevel::Information), FailOnLevel::None => None })
//@end
} // verus!
fn main() {}
