//@include prelude.vrs
verus! {
//@opaque YamlValue SpanKindSpec InstrumentSpec GroupWildcard SignalRequirementLevel OrderedF64 Provenance
//@type crates/weaver_semconv/src/attribute.rs ValueSpec
//@type crates/weaver_semconv/src/stability.rs Stability
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_semconv/src/attribute.rs PrimitiveOrArrayTypeSpec
//@type crates/weaver_semconv/src/attribute.rs TemplateTypeSpec
//@type crates/weaver_semconv/src/attribute.rs EnumEntriesSpec
//@type crates/weaver_semconv/src/attribute.rs AttributeType
//@type crates/weaver_semconv/src/attribute.rs Examples
//@type crates/weaver_semconv/src/attribute.rs AttributeRole
//@type crates/weaver_semconv/src/attribute.rs BasicRequirementLevelSpec
//@type crates/weaver_semconv/src/attribute.rs RequirementLevel
//@type crates/weaver_semconv/src/attribute.rs AttributeSpec
//@type crates/weaver_semconv/src/any_value.rs AnyValueCommonSpec
//@type crates/weaver_semconv/src/any_value.rs AnyValueSpec
//@type crates/weaver_semconv/src/entity_association.rs EntityAssociation
//@type crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroupVisibilitySpec
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/v2/span.rs SpanName
//@type crates/weaver_semconv/src/group.rs GroupSpec
//@type crates/weaver_semconv/src/semconv.rs Imports
//@type crates/weaver_semconv/src/semconv.rs SemConvSpecV1
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeRef
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeDef
//@type crates/weaver_semconv/src/v2/attribute.rs GroupRef
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeOrGroupRef
//@type crates/weaver_semconv/src/v2/span.rs SpanAttributeRef
//@type crates/weaver_semconv/src/v2/span.rs SpanGroupRef
//@type crates/weaver_semconv/src/v2/span.rs SpanAttributeOrGroupRef
//@type crates/weaver_semconv/src/v2/attribute_group.rs InternalAttributeGroup
//@type crates/weaver_semconv/src/v2/attribute_group.rs PublicAttributeGroup
//@type crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroup
//@type crates/weaver_semconv/src/v2/entity.rs Entity
//@type crates/weaver_semconv/src/v2/entity.rs EntityRefinement
//@type crates/weaver_semconv/src/v2/event.rs Event
//@type crates/weaver_semconv/src/v2/event.rs EventRefinement
//@type crates/weaver_semconv/src/v2/metric.rs Metric
//@type crates/weaver_semconv/src/v2/metric.rs MetricRefinement
//@type crates/weaver_semconv/src/v2/span.rs Span
//@type crates/weaver_semconv/src/v2/span.rs SpanRefinement
//@type crates/weaver_semconv/src/v2/mod.rs SemConvSpecV2
//@type crates/weaver_semconv/src/semconv.rs Versioned
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body] pub fn vdisplay(&self) -> (r: String) ensures r == self.0 { unimplemented!() } }
//@fn crates/weaver_semconv/src/attribute.rs Default for RequirementLevel::default
    ensures r == RequirementLevel::Basic(BasicRequirementLevelSpec::Recommended)
//@end
impl VDefault for RequirementLevel { open spec fn vdef(s: Self) -> bool { s == RequirementLevel::Basic(BasicRequirementLevelSpec::Recommended) } fn vdefault() -> (r: Self) { RequirementLevel::default() } }
/// derived by the compiler: every field its own default
impl VDefault for GroupSpec { open spec fn vdef(s: Self) -> bool { s.note@.len() == 0 && s.prefix@.len() == 0 && s.extends is None && s.stability is None && s.deprecated is None && s.attributes@.len() == 0 && s.span_kind is None && s.events@.len() == 0 && s.metric_name is None && s.instrument is None && s.unit is None && s.name is None && s.display_name is None && s.body is None && s.annotations is None && s.entity_associations@.len() == 0 && s.include_groups@.len() == 0 && s.visibility is None && !s.is_v2 && s.span_name is None && s.requirement_level is None }
    #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }

// ------------------------------------------------------------------ what is said, in the older terms
pub type Notes = BTreeMap<String, YamlValue>;
pub open spec fn anns(m: Notes) -> Option<Notes> { if m.m@ == Map::<String, YamlValue>::empty() { None } else { Some(m) } }
pub open spec fn a_ref(a: AttributeRef, role: Option<AttributeRole>, sampling: Option<bool>) -> AttributeSpec { AttributeSpec::Ref { ref_: a.ref_, brief: a.brief, examples: a.examples, tag: None, requirement_level: a.requirement_level, sampling_relevant: sampling, note: a.note, stability: a.stability, deprecated: a.deprecated, prefix: false, annotations: anns(a.annotations), role } }
pub open spec fn a_def(a: AttributeDef) -> AttributeSpec { AttributeSpec::Id { id: a.key, type_: a.type_, brief: Some(a.common.brief), examples: a.examples, tag: None, requirement_level: RequirementLevel::Basic(BasicRequirementLevelSpec::Recommended), sampling_relevant: None, note: a.common.note, stability: Some(a.common.stability), deprecated: a.common.deprecated, annotations: anns(a.common.annotations), role: None } }
/// the attributes of a list, and the groups it includes: each in the order given
pub open spec fn own_attrs(s: Seq<AttributeOrGroupRef>) -> Seq<AttributeSpec> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = own_attrs(s.drop_last()); match s.last() { AttributeOrGroupRef::Attribute(a) => r.push(a_ref(a, None, None)), AttributeOrGroupRef::Group(_) => r } } }
pub open spec fn included(s: Seq<AttributeOrGroupRef>) -> Seq<String> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = included(s.drop_last()); match s.last() { AttributeOrGroupRef::Attribute(_) => r, AttributeOrGroupRef::Group(g) => r.push(g.ref_group.0) } } }
pub open spec fn span_attrs(s: Seq<SpanAttributeOrGroupRef>) -> Seq<AttributeSpec> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = span_attrs(s.drop_last()); match s.last() { SpanAttributeOrGroupRef::Attribute(a) => r.push(a_ref(a.base, None, a.sampling_relevant)), SpanAttributeOrGroupRef::Group(_) => r } } }
pub open spec fn span_included(s: Seq<SpanAttributeOrGroupRef>) -> Seq<String> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = span_included(s.drop_last()); match s.last() { SpanAttributeOrGroupRef::Attribute(_) => r, SpanAttributeOrGroupRef::Group(g) => r.push(g.ref_group) } } }
/// what identifies an entity, then what describes it
pub open spec fn with_roles(id: Seq<AttributeRef>, de: Seq<AttributeRef>) -> Seq<AttributeSpec> { id.map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Identifying), None)) + de.map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Descriptive), None)) }
pub open spec fn says(g: GroupSpec, c: CommonFields) -> bool { g.brief == c.brief && g.note == c.note && g.stability == Some(c.stability) && g.deprecated == c.deprecated && g.annotations == anns(c.annotations) }
pub open spec fn or_none(o: Option<String>, s: String) -> bool { match o { Some(x) => s == x, None => s@.len() == 0 } }
/// a group of the newer format, of a type, with an id, that refines another or does not, with a list of attributes
pub open spec fn is_a(g: GroupSpec, t: GroupType, id: Seq<char>, base: Option<Seq<char>>) -> bool { g.is_v2 && g.type_ == t && g.id@ == id && (match base { Some(b) => g.extends is Some && (g.extends->0)@ == b, None => g.extends is None })
    && g.prefix@.len() == 0 && g.events@.len() == 0 && g.display_name is None && g.body is None }
pub open spec fn no_metric(g: GroupSpec) -> bool { g.metric_name is None && g.instrument is None && g.unit is None }
pub open spec fn metric_is(m: Metric, g: GroupSpec) -> bool { is_a(g, GroupType::Metric, "metric."@ + m.name.0@, None) && says(g, m.common) && g.metric_name == Some(m.name.0) && g.instrument == Some(m.instrument) && g.unit == Some(m.unit) && g.name is None
    && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@) && g.entity_associations == m.entity_associations && g.requirement_level == m.requirement_level && g.span_kind is None && g.span_name is None && g.visibility is None }
pub open spec fn event_is(m: Event, g: GroupSpec) -> bool { is_a(g, GroupType::Event, "event."@ + m.name.0@, None) && says(g, m.common) && g.name == Some(m.name.0) && no_metric(g)
    && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@) && g.entity_associations == m.entity_associations && g.requirement_level == m.requirement_level && g.span_kind is None && g.span_name is None && g.visibility is None }
pub open spec fn span_is(m: Span, g: GroupSpec) -> bool { is_a(g, GroupType::Span, "span."@ + m.type_.0@, None) && says(g, m.common) && g.name is Some && (g.name->0)@ == m.type_.0@ && no_metric(g) && g.span_kind == Some(m.kind) && g.span_name == Some(m.name)
    && g.attributes@ == span_attrs(m.attributes@) && g.include_groups@ == span_included(m.attributes@) && g.entity_associations == m.entity_associations && g.requirement_level == m.requirement_level && g.visibility is None }
pub open spec fn entity_is(m: Entity, g: GroupSpec) -> bool { is_a(g, GroupType::Entity, "entity."@ + m.type_.0@, None) && says(g, m.common) && g.name == Some(m.type_.0) && no_metric(g)
    && g.attributes@ == with_roles(m.identity@, m.description@) && g.include_groups@.len() == 0 && g.entity_associations@.len() == 0 && g.requirement_level == m.requirement_level && g.span_kind is None && g.span_name is None && g.visibility is None }
/// a refinement leaves unsaid what it does not refine
pub open spec fn refines_to(g: GroupSpec, brief: Option<String>, note: Option<String>, stability: Option<Stability>, deprecated: Option<Deprecated>, a: Notes) -> bool { or_none(brief, g.brief) && or_none(note, g.note) && g.stability == stability && g.deprecated == deprecated && g.annotations == anns(a) && g.requirement_level is None && g.visibility is None && no_metric(g) && g.span_kind is None }
pub open spec fn metric_ref_is(m: MetricRefinement, g: GroupSpec) -> bool { is_a(g, GroupType::Metric, m.id.0@, Some("metric."@ + m.ref_.0@)) && refines_to(g, m.brief, m.note, m.stability, m.deprecated, m.annotations) && g.name is None && g.span_name is None
    && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@) && g.entity_associations == m.entity_associations }
pub open spec fn event_ref_is(m: EventRefinement, g: GroupSpec) -> bool { is_a(g, GroupType::Event, m.id.0@, Some("event."@ + m.ref_.0@)) && refines_to(g, m.brief, m.note, m.stability, m.deprecated, m.annotations) && g.name == Some(m.id.0) && g.span_name is None
    && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@) && g.entity_associations == m.entity_associations }
pub open spec fn span_ref_is(m: SpanRefinement, g: GroupSpec) -> bool { is_a(g, GroupType::Span, m.id.0@, Some("span."@ + m.ref_.0@)) && refines_to(g, m.brief, m.note, m.stability, m.deprecated, m.annotations) && g.name is Some && (g.name->0)@ == m.id.0@ && g.span_name == m.name
    && g.attributes@ == span_attrs(m.attributes@) && g.include_groups@ == span_included(m.attributes@) && g.entity_associations == m.entity_associations }
pub open spec fn entity_ref_is(m: EntityRefinement, g: GroupSpec) -> bool { is_a(g, GroupType::Entity, m.id.0@, Some("entity."@ + m.ref_.0@)) && refines_to(g, m.brief, m.note, m.stability, m.deprecated, m.annotations) && g.name == Some(m.id.0) && g.span_name is None
    && g.attributes@ == with_roles(m.identity@, m.description@) && g.include_groups@.len() == 0 && g.entity_associations@.len() == 0 }
pub open spec fn attr_group_is(m: AttributeGroup, g: GroupSpec) -> bool { no_metric(g) && g.span_kind is None && g.span_name is None && g.name is None && g.entity_associations@.len() == 0 && g.requirement_level is None && (match m {
    AttributeGroup::Internal(m) => is_a(g, GroupType::AttributeGroup, m.id.0@, None) && g.visibility == Some(AttributeGroupVisibilitySpec::Internal) && g.note@.len() == 0 && g.stability is None && g.deprecated is None && g.annotations is None && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@),
    AttributeGroup::Public(m) => is_a(g, GroupType::AttributeGroup, m.id.0@, None) && g.visibility == Some(AttributeGroupVisibilitySpec::Public) && says(g, m.common) && g.attributes@ == own_attrs(m.attributes@) && g.include_groups@ == included(m.attributes@) }) }
/// the attributes a file defines: one group of their own
pub open spec fn defs_are(f: SemConvSpecV2, file: String, g: GroupSpec) -> bool { is_a(g, GroupType::AttributeGroup, "registry."@ + file@, None) && no_metric(g) && g.stability is None && g.deprecated is None && g.annotations is None && g.include_groups@.len() == 0 && g.entity_associations@.len() == 0 && g.visibility is None && g.name is None && g.requirement_level is None
    && g.attributes@ == f.attributes@.map_values(|a: AttributeDef| a_def(a)) }
/// every definition of a file is one group, and there are no others
pub open spec fn groups_are(f: SemConvSpecV2, file: String, gs: Seq<GroupSpec>) -> bool {
    let o0 = if f.attributes@.len() > 0 { 1int } else { 0 }; let o1 = o0 + f.entities@.len(); let o2 = o1 + f.events@.len(); let o3 = o2 + f.metrics@.len(); let o4 = o3 + f.spans@.len(); let o5 = o4 + f.attribute_groups@.len();
    let o6 = o5 + f.entity_refinements@.len(); let o7 = o6 + f.event_refinements@.len(); let o8 = o7 + f.metric_refinements@.len();
    &&& gs.len() == o8 + f.span_refinements@.len()
    &&& o0 == 1 ==> defs_are(f, file, gs[0])
    &&& forall|i: int| 0 <= i < f.entities@.len() ==> entity_is(#[trigger] f.entities@[i], gs[o0 + i])
    &&& forall|i: int| 0 <= i < f.events@.len() ==> event_is(#[trigger] f.events@[i], gs[o1 + i])
    &&& forall|i: int| 0 <= i < f.metrics@.len() ==> metric_is(#[trigger] f.metrics@[i], gs[o2 + i])
    &&& forall|i: int| 0 <= i < f.spans@.len() ==> span_is(#[trigger] f.spans@[i], gs[o3 + i])
    &&& forall|i: int| 0 <= i < f.attribute_groups@.len() ==> attr_group_is(#[trigger] f.attribute_groups@[i], gs[o4 + i])
    &&& forall|i: int| 0 <= i < f.entity_refinements@.len() ==> entity_ref_is(#[trigger] f.entity_refinements@[i], gs[o5 + i])
    &&& forall|i: int| 0 <= i < f.event_refinements@.len() ==> event_ref_is(#[trigger] f.event_refinements@[i], gs[o6 + i])
    &&& forall|i: int| 0 <= i < f.metric_refinements@.len() ==> metric_ref_is(#[trigger] f.metric_refinements@[i], gs[o7 + i])
    &&& forall|i: int| 0 <= i < f.span_refinements@.len() ==> span_ref_is(#[trigger] f.span_refinements@[i], gs[o8 + i]) }

// ------------------------------------------------------------------ the code
//@fn crates/weaver_semconv/src/v2/signal_id.rs SignalId::into_v1
    ensures r == self.0
//@end
//@fn crates/weaver_semconv/src/v2/attribute.rs AttributeRef::into_v1_attribute
    ensures r == a_ref(self, None, None)
//@end
//@fn crates/weaver_semconv/src/v2/attribute.rs AttributeRef::into_v1_attribute_with_role
    ensures r == a_ref(self, Some(role), None)
//@end
//@fn crates/weaver_semconv/src/v2/attribute.rs AttributeDef::into_v1_attribute
    ensures r == a_def(self)
//@end
//@fn crates/weaver_semconv/src/v2/span.rs SpanAttributeRef::into_v1_attribute
    ensures r == a_ref(self.base, None, self.sampling_relevant)
//@end
//@fn crates/weaver_semconv/src/v2/attribute.rs split_attributes_and_groups
    ensures r.0@ == own_attrs(attributes_and_groups@), r.1@ == included(attributes_and_groups@)
//@loop 0
    attributes@ == own_attrs(__s0@.take(__i0 as int)), groups@ == included(__s0@.take(__i0 as int)),
//@at loop0.start
    proof { assert(__s0@.take(__i0 as int).drop_last() =~= __s0@.take(__i0 - 1)); }
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@end
//@fn crates/weaver_semconv/src/v2/span.rs split_span_attributes_and_groups
    ensures r.0@ == span_attrs(attributes@), r.1@ == span_included(attributes@)
//@loop 0
    attribute_refs@ == span_attrs(__s0@.take(__i0 as int)), groups@ == span_included(__s0@.take(__i0 as int)),
//@at loop0.start
    proof { assert(__s0@.take(__i0 as int).drop_last() =~= __s0@.take(__i0 - 1)); }
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@end
//@fn crates/weaver_semconv/src/v2/metric.rs Metric::into_v1_group fmt
    ensures metric_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/metric.rs MetricRefinement::into_v1_group fmt
    ensures metric_ref_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/event.rs Event::into_v1_group fmt
    ensures event_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/event.rs EventRefinement::into_v1_group fmt
    ensures event_ref_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/span.rs Span::into_v1_group fmt
    ensures span_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/span.rs SpanRefinement::into_v1_group fmt
    ensures span_ref_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroup::into_v1_group fmt
    ensures attr_group_is(self, r)
//@end
//@fn crates/weaver_semconv/src/v2/entity.rs Entity::into_v1_group fmt
    ensures entity_is(self, r)
//@loop 0
    __s0@ == self.identity@, __a0@ =~= self.identity@.take(__i0 as int).map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Identifying), None)),
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1
    __s1@ == self.description@, __c0@ =~= self.identity@.map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Identifying), None)) + self.description@.take(__i1 as int).map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Descriptive), None)),
//@at loop1.after
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
//@end
//@fn crates/weaver_semconv/src/v2/entity.rs EntityRefinement::into_v1_group fmt
    ensures entity_ref_is(self, r)
//@loop 0
    __s0@ == self.identity@, __a0@ =~= self.identity@.take(__i0 as int).map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Identifying), None)),
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1
    __s1@ == self.description@, __c0@ =~= self.identity@.map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Identifying), None)) + self.description@.take(__i1 as int).map_values(|a: AttributeRef| a_ref(a, Some(AttributeRole::Descriptive), None)),
//@at loop1.after
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
//@end
//@fn crates/weaver_semconv/src/v2/mod.rs SemConvSpecV2::into_v1_specification fmt isolate rlimit=60
    ensures groups_are(self, *file_name, r.groups@), r.imports == self.imports
//@at start
    let ghost mut g1 = Seq::<GroupSpec>::empty(); let ghost mut g2 = Seq::<GroupSpec>::empty(); let ghost mut g3 = Seq::<GroupSpec>::empty(); let ghost mut g4 = Seq::<GroupSpec>::empty(); let ghost mut g5 = Seq::<GroupSpec>::empty(); let ghost mut g6 = Seq::<GroupSpec>::empty(); let ghost mut g7 = Seq::<GroupSpec>::empty(); let ghost mut g8 = Seq::<GroupSpec>::empty(); let ghost mut g9 = Seq::<GroupSpec>::empty(); let ghost mut g10 = Seq::<GroupSpec>::empty();
//@loop 0
    __s0@ == self.attributes@, __a0@ =~= self.attributes@.take(__i0 as int).map_values(|a: AttributeDef| a_def(a)),
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1
    __s1@ == self.entities@, groups@.len() == g1.len() + __i1, forall|i: int| 0 <= i < g1.len() ==> #[trigger] groups@[i] == g1[i], forall|i: int| 0 <= i < __i1 ==> entity_is(#[trigger] self.entities@[i], groups@[g1.len() + i]),
//@at loop1.before
    proof { g1 = groups@; }
//@loop 2
    __s2@ == self.events@, groups@.len() == g2.len() + __i2, forall|i: int| 0 <= i < g2.len() ==> #[trigger] groups@[i] == g2[i], forall|i: int| 0 <= i < __i2 ==> event_is(#[trigger] self.events@[i], groups@[g2.len() + i]),
//@at loop2.before
    proof { g2 = groups@; }
//@loop 3
    __s3@ == self.metrics@, groups@.len() == g3.len() + __i3, forall|i: int| 0 <= i < g3.len() ==> #[trigger] groups@[i] == g3[i], forall|i: int| 0 <= i < __i3 ==> metric_is(#[trigger] self.metrics@[i], groups@[g3.len() + i]),
//@at loop3.before
    proof { g3 = groups@; }
//@loop 4
    __s4@ == self.spans@, groups@.len() == g4.len() + __i4, forall|i: int| 0 <= i < g4.len() ==> #[trigger] groups@[i] == g4[i], forall|i: int| 0 <= i < __i4 ==> span_is(#[trigger] self.spans@[i], groups@[g4.len() + i]),
//@at loop4.before
    proof { g4 = groups@; }
//@loop 5
    __s5@ == self.attribute_groups@, groups@.len() == g5.len() + __i5, forall|i: int| 0 <= i < g5.len() ==> #[trigger] groups@[i] == g5[i], forall|i: int| 0 <= i < __i5 ==> attr_group_is(#[trigger] self.attribute_groups@[i], groups@[g5.len() + i]),
//@at loop5.before
    proof { g5 = groups@; }
//@loop 6
    __s6@ == self.entity_refinements@, groups@.len() == g6.len() + __i6, forall|i: int| 0 <= i < g6.len() ==> #[trigger] groups@[i] == g6[i], forall|i: int| 0 <= i < __i6 ==> entity_ref_is(#[trigger] self.entity_refinements@[i], groups@[g6.len() + i]),
//@at loop6.before
    proof { g6 = groups@; }
//@loop 7
    __s7@ == self.event_refinements@, groups@.len() == g7.len() + __i7, forall|i: int| 0 <= i < g7.len() ==> #[trigger] groups@[i] == g7[i], forall|i: int| 0 <= i < __i7 ==> event_ref_is(#[trigger] self.event_refinements@[i], groups@[g7.len() + i]),
//@at loop7.before
    proof { g7 = groups@; }
//@loop 8
    __s8@ == self.metric_refinements@, groups@.len() == g8.len() + __i8, forall|i: int| 0 <= i < g8.len() ==> #[trigger] groups@[i] == g8[i], forall|i: int| 0 <= i < __i8 ==> metric_ref_is(#[trigger] self.metric_refinements@[i], groups@[g8.len() + i]),
//@at loop8.before
    proof { g8 = groups@; }
//@loop 9
    __s9@ == self.span_refinements@, groups@.len() == g9.len() + __i9, forall|i: int| 0 <= i < g9.len() ==> #[trigger] groups@[i] == g9[i], forall|i: int| 0 <= i < __i9 ==> span_ref_is(#[trigger] self.span_refinements@[i], groups@[g9.len() + i]),
//@at loop9.before
    proof { g9 = groups@; }
//@end
//@fn crates/weaver_semconv/src/semconv.rs Versioned::into_v1
    ensures match self { Versioned::V1(f) => r == f, Versioned::V2(f) => groups_are(f, *file_name, r.groups@) && r.imports == f.imports }
//@end
} // verus!
fn main() {}
