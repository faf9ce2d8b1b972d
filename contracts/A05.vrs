//@include prelude.vrs
verus! {
//@opaque RequirementLevel AttributeRole YamlValue SpanKindSpec InstrumentSpec GroupWildcard SpanName SignalRequirementLevel SpanAttributeOrGroupRef AttributeGroup EventRefinement MetricRefinement SpanRefinement AttributeGroupVisibilitySpec OrderedF64 PathBuf ValidationError VdirError Provenance InvalidSemConvSpecError
//@path weaver_common::Error => VdirError
//@type crates/weaver_semconv/src/attribute.rs ValueSpec
//@type crates/weaver_semconv/src/stability.rs Stability
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_semconv/src/attribute.rs PrimitiveOrArrayTypeSpec
//@type crates/weaver_semconv/src/attribute.rs TemplateTypeSpec
//@type crates/weaver_semconv/src/attribute.rs EnumEntriesSpec
//@type crates/weaver_semconv/src/attribute.rs AttributeType
//@type crates/weaver_semconv/src/attribute.rs Examples
//@type crates/weaver_semconv/src/attribute.rs AttributeSpec
//@type crates/weaver_semconv/src/any_value.rs AnyValueCommonSpec
//@type crates/weaver_semconv/src/any_value.rs AnyValueSpec
//@type crates/weaver_semconv/src/entity_association.rs EntityAssociation
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/group.rs GroupSpec
//@type crates/weaver_semconv/src/semconv.rs Imports
//@type crates/weaver_semconv/src/semconv.rs SemConvSpecV1
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeRef
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeDef
//@type crates/weaver_semconv/src/v2/attribute.rs GroupRef
//@type crates/weaver_semconv/src/v2/attribute.rs AttributeOrGroupRef
//@type crates/weaver_semconv/src/v2/entity.rs Entity
//@type crates/weaver_semconv/src/v2/entity.rs EntityRefinement
//@type crates/weaver_semconv/src/v2/event.rs Event
//@type crates/weaver_semconv/src/v2/metric.rs Metric
//@type crates/weaver_semconv/src/v2/span.rs Span
//@type crates/weaver_semconv/src/v2/mod.rs SemConvSpecV2
//@type crates/weaver_semconv/src/semconv.rs Versioned
//@type crates/weaver_semconv/src/lib.rs Error
//@type crates/weaver_common/src/result.rs WResult
pub use AttributeType::{PrimitiveOrArray, Template, Enum};
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
impl String { #[verifier::external_body] pub fn trim(&self) -> (r: &String) ensures r@ == trimmed(self@) { unimplemented!() } }

// ------------------------------------------------------------------ what is reported
pub enum Kind { Prefix, GroupStability, DupRef, NoContent, Group, NoType, NoSpanKind, Metric, Deprecated, Attribute, AttributeWarning, ExampleError, ExampleWarning, Value, ValueExample, NoLevel, BothRoles, NoIdentity, Other }
/// a problem: what is wrong, where
pub struct Prob { pub kind: Kind, pub path: String, pub group: String, pub item: String }
pub uninterp spec fn other(e: Error) -> Prob;
pub open spec fn none() -> String { S(Seq::empty()) }
pub open spec fn prob(e: Error) -> Prob { match e {
    Error::InvalidGroupUsesPrefix { path_or_url, group_id } => Prob { kind: Kind::Prefix, path: path_or_url, group: group_id, item: none() },
    Error::InvalidGroupStability { path_or_url, group_id, error } => Prob { kind: Kind::GroupStability, path: path_or_url, group: group_id, item: none() },
    Error::InvalidGroupDuplicateAttributeRef { path_or_url, group_id, attribute_ref } => Prob { kind: Kind::DupRef, path: path_or_url, group: group_id, item: attribute_ref },
    Error::InvalidGroupMissingExtendsOrAttributes { path_or_url, group_id, error } => Prob { kind: Kind::NoContent, path: path_or_url, group: group_id, item: none() },
    Error::InvalidGroup { path_or_url, group_id, error } => Prob { kind: Kind::Group, path: path_or_url, group: group_id, item: none() },
    Error::InvalidGroupMissingType { path_or_url, group_id, error } => Prob { kind: Kind::NoType, path: path_or_url, group: group_id, item: none() },
    Error::InvalidSpanMissingSpanKind { path_or_url, group_id, error } => Prob { kind: Kind::NoSpanKind, path: path_or_url, group: group_id, item: none() },
    Error::InvalidMetric { path_or_url, group_id, error } => Prob { kind: Kind::Metric, path: path_or_url, group: group_id, item: none() },
    Error::UnstructuredDeprecatedProperty { path_or_url, id, error } => Prob { kind: Kind::Deprecated, path: path_or_url, group: none(), item: id },
    Error::InvalidAttribute { path_or_url, group_id, attribute_id, error } => Prob { kind: Kind::Attribute, path: path_or_url, group: group_id, item: attribute_id },
    Error::InvalidAttributeWarning { path_or_url, group_id, attribute_id, error } => Prob { kind: Kind::AttributeWarning, path: path_or_url, group: group_id, item: attribute_id },
    Error::InvalidExampleError { path_or_url, group_id, attribute_id, error } => Prob { kind: Kind::ExampleError, path: path_or_url, group: group_id, item: attribute_id },
    Error::InvalidExampleWarning { path_or_url, group_id, attribute_id, error } => Prob { kind: Kind::ExampleWarning, path: path_or_url, group: group_id, item: attribute_id },
    Error::InvalidAnyValue { path_or_url, group_id, value_id, error } => Prob { kind: Kind::Value, path: path_or_url, group: group_id, item: value_id },
    Error::InvalidAnyValueExampleError { path_or_url, group_id, value_id, error } => Prob { kind: Kind::ValueExample, path: path_or_url, group: group_id, item: value_id },
    Error::MissingRequirementLevelWarning { path_or_url, group_id } => Prob { kind: Kind::NoLevel, path: path_or_url, group: group_id, item: none() },
    Error::AttributeInIdentityAndDescription { path_or_url, group_id, attribute_id } => Prob { kind: Kind::BothRoles, path: path_or_url, group: group_id, item: attribute_id },
    Error::EntityMissingIdentity { path_or_url, group_id } => Prob { kind: Kind::NoIdentity, path: path_or_url, group: group_id, item: none() },
    _ => other(e) } }
/// how often `p` is among the errors
pub open spec fn tally(es: Seq<Error>, p: Prob) -> int decreases es.len() { if es.len() == 0 { 0 } else { tally(es.drop_last(), p) + one(prob(es.last()), p) } }
pub open spec fn one(q: Prob, p: Prob) -> int { if q == p { 1 } else { 0 } }
pub open spec fn when(c: bool, q: Prob, p: Prob) -> int { if c { one(q, p) } else { 0 } }
pub broadcast proof fn lemma_tally_push(es: Seq<Error>, e: Error, p: Prob) ensures #[trigger] tally(es.push(e), p) == tally(es, p) + one(prob(e), p) { assert(es.push(e).drop_last() =~= es); }
pub broadcast proof fn lemma_tally_add(a: Seq<Error>, b: Seq<Error>, p: Prob) ensures #[trigger] tally(a + b, p) == tally(a, p) + tally(b, p) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_tally_add(a, b.drop_last(), p); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub broadcast proof fn lemma_tally_one(s: Seq<Error>, p: Prob) requires s.len() == 1 ensures #[trigger] tally(s, p) == one(prob(s[0]), p) { assert(s.drop_last().len() == 0); assert(tally(s.drop_last(), p) == 0); }
pub open spec fn werrs<T>(w: WResult<T, Error>) -> Seq<Error> { match w { WResult::Ok(_) => Seq::empty(), WResult::OkWithNFEs(_, v) => v@, WResult::FatalErr(e) => seq![e] } }
/// where problems are found
pub struct At { pub path: String, pub group: String }
pub open spec fn pb(a: At, k: Kind, item: String) -> Prob { Prob { kind: k, path: a.path, group: a.group, item } }

// ------------------------------------------------------------------ the rules
/// examples that fit the type; a type that is open or unknown takes any
pub open spec fn ex_fits(x: Examples, t: AttributeType) -> bool { match t {
    AttributeType::Enum { members } => true,
    AttributeType::PrimitiveOrArray(q) => match q {
        PrimitiveOrArrayTypeSpec::Any => true,
        PrimitiveOrArrayTypeSpec::Boolean => x is Bool || x is Bools, PrimitiveOrArrayTypeSpec::Int => x is Int || x is Ints, PrimitiveOrArrayTypeSpec::Double => x is Double || x is Doubles, PrimitiveOrArrayTypeSpec::String => x is String || x is Strings,
        PrimitiveOrArrayTypeSpec::Booleans => x is ListOfBools, PrimitiveOrArrayTypeSpec::Ints => x is ListOfInts, PrimitiveOrArrayTypeSpec::Doubles => x is ListOfDoubles, PrimitiveOrArrayTypeSpec::Strings => x is ListOfStrings },
    AttributeType::Template(q) => match q {
        TemplateTypeSpec::Any => true,
        TemplateTypeSpec::Boolean => x is Bool || x is Bools, TemplateTypeSpec::Int => x is Int || x is Ints, TemplateTypeSpec::Double => x is Double || x is Doubles, TemplateTypeSpec::String => x is String || x is Strings,
        TemplateTypeSpec::Booleans => x is ListOfBools, TemplateTypeSpec::Ints => x is ListOfInts, TemplateTypeSpec::Doubles => x is ListOfDoubles, TemplateTypeSpec::Strings => x is ListOfStrings } } }
/// examples of the element type where the type is an array: tolerated
pub open spec fn ex_old(x: Examples, t: AttributeType) -> bool { match t {
    AttributeType::PrimitiveOrArray(q) => match q { PrimitiveOrArrayTypeSpec::Booleans => x is Bools, PrimitiveOrArrayTypeSpec::Ints => x is Ints, PrimitiveOrArrayTypeSpec::Doubles => x is Doubles, PrimitiveOrArrayTypeSpec::Strings => x is Strings, _ => false },
    AttributeType::Template(q) => q is Strings && (x is String || x is Strings),
    _ => false } }
pub open spec fn ex_n(x: Examples, t: AttributeType, a: At, id: String, p: Prob) -> int { if ex_fits(x, t) { 0 } else { one(pb(a, if ex_old(x, t) { Kind::ExampleWarning } else { Kind::ExampleError }, id), p) } }
pub open spec fn vex_fits(x: Examples, v: AnyValueSpec) -> bool { match v {
    AnyValueSpec::Boolean { .. } => x is Bool || x is Bools, AnyValueSpec::Int { .. } => x is Int || x is Ints, AnyValueSpec::Double { .. } => x is Double || x is Doubles, AnyValueSpec::String { .. } => x is String || x is Strings,
    AnyValueSpec::Booleans { .. } => x is ListOfBools, AnyValueSpec::Ints { .. } => x is ListOfInts, AnyValueSpec::Doubles { .. } => x is ListOfDoubles, AnyValueSpec::Strings { .. } => x is ListOfStrings,
    AnyValueSpec::Map { .. } => x is String || x is Strings || x is ListOfStrings, AnyValueSpec::Maps { .. } => x is String || x is Strings || x is ListOfStrings,
    _ => true } }
pub open spec fn common(v: AnyValueSpec) -> AnyValueCommonSpec { match v {
    AnyValueSpec::Boolean { common } => common, AnyValueSpec::Int { common } => common, AnyValueSpec::Double { common } => common, AnyValueSpec::String { common } => common,
    AnyValueSpec::Strings { common } => common, AnyValueSpec::Ints { common } => common, AnyValueSpec::Doubles { common } => common, AnyValueSpec::Booleans { common } => common,
    AnyValueSpec::Map { common, fields } => common, AnyValueSpec::Maps { common, fields } => common, AnyValueSpec::Bytes { common } => common, AnyValueSpec::Undefined { common } => common, AnyValueSpec::Enum { common, members } => common } }
/// the examples of a body and, for a map, of the values in it
pub open spec fn vex_n(v: AnyValueSpec, a: At, p: Prob) -> int decreases v, 1nat + (if v is Map { v->Map_fields@.len() } else { 0 }) {
    (match common(v).examples { Some(x) => when(!vex_fits(x, v), pb(a, Kind::ValueExample, common(v).id), p), None => when(v is String || v is Strings, pb(a, Kind::ValueExample, common(v).id), p) })
        + (if v is Map { vex_fields(v, v->Map_fields@.len(), a, p) } else { 0 }) }
pub open spec fn vex_fields(v: AnyValueSpec, n: nat, a: At, p: Prob) -> int decreases v, n { if v is Map && 0 < n <= v->Map_fields@.len() { vex_fields(v, (n - 1) as nat, a, p) + vex_n(v->Map_fields@[n - 1], a, p) } else { 0 } }
/// the stability of a body, of its enum members and, for a map, of the values in it
pub open spec fn val_n(v: AnyValueSpec, a: At, p: Prob) -> int decreases v, 1nat + (if v is Map { v->Map_fields@.len() } else { 0 }) {
    when(common(v).stability is None, pb(a, Kind::Value, common(v).id), p)
        + (if v is Map { val_fields(v, v->Map_fields@.len(), a, p) } else if v is Enum { unstable(v->Enum_members@, pb(a, Kind::Value, common(v).id), p) } else { 0 }) }
pub open spec fn val_fields(v: AnyValueSpec, n: nat, a: At, p: Prob) -> int decreases v, n { if v is Map && 0 < n <= v->Map_fields@.len() { val_fields(v, (n - 1) as nat, a, p) + val_n(v->Map_fields@[n - 1], a, p) } else { 0 } }
pub open spec fn unstable(ms: Seq<EnumEntriesSpec>, q: Prob, p: Prob) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { unstable(ms.drop_last(), q, p) + when(ms.last().stability is None, q, p) } }
pub open spec fn old_note(d: Option<Deprecated>) -> bool { match d { Some(Deprecated::Unspecified { note }) => true, _ => false } }
pub open spec fn dep_pb(a: At, item: String) -> Prob { Prob { kind: Kind::Deprecated, path: a.path, group: none(), item } }
pub open spec fn member_n(m: EnumEntriesSpec, a: At, id: String, p: Prob) -> int {
    when(m.stability is None || m.stability == Some(Stability::Deprecated), pb(a, Kind::AttributeWarning, id), p) + when(old_note(m.deprecated), dep_pb(a, id), p) }
pub open spec fn members_n(ms: Seq<EnumEntriesSpec>, a: At, id: String, p: Prob) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { members_n(ms.drop_last(), a, id, p) + member_n(ms.last(), a, id, p) } }
/// an attribute that is defined here
pub open spec fn attr_n(s: AttributeSpec, a: At, p: Prob) -> int { match s {
    AttributeSpec::Ref { .. } => 0,
    AttributeSpec::Id { id, type_, brief, examples, stability, deprecated, .. } =>
        when(brief is None && deprecated is None, pb(a, Kind::Attribute, id), p)
        + when(stability is None || stability == Some(Stability::Deprecated), pb(a, Kind::AttributeWarning, id), p)
        + (match type_ { AttributeType::Enum { members } => members_n(members@, a, id, p), _ => 0 })
        + when(old_note(deprecated), dep_pb(a, id), p)
        + (match examples { Some(x) => ex_n(x, type_, a, id, p), None => when(type_ == AttributeType::PrimitiveOrArray(PrimitiveOrArrayTypeSpec::String) || type_ == AttributeType::PrimitiveOrArray(PrimitiveOrArrayTypeSpec::Strings), pb(a, Kind::ExampleWarning, id), p) }) } }
pub open spec fn attrs_n(s: Seq<AttributeSpec>, a: At, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { attrs_n(s.drop_last(), a, p) + attr_n(s.last(), a, p) } }
pub open spec fn refs_to(s: Seq<AttributeSpec>, r: String) -> bool { exists|i: int| 0 <= i < s.len() && ((#[trigger] s[i]) matches AttributeSpec::Ref { ref_, .. } && ref_ == r) }
/// each reference to an attribute that is referred to before
pub open spec fn dup_n(s: Seq<AttributeSpec>, a: At, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { dup_n(s.drop_last(), a, p) + (match s.last() { AttributeSpec::Ref { ref_, .. } => when(refs_to(s.drop_last(), ref_), pb(a, Kind::DupRef, ref_), p), _ => 0 }) } }
/// names are not blank, combinators not empty
pub open spec fn assoc_ok(e: EntityAssociation) -> bool decreases e { match e {
    EntityAssociation::Ref(n) => trimmed(n@).len() > 0,
    EntityAssociation::OneOf { one_of: v } => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> assoc_ok(#[trigger] v@[i]),
    EntityAssociation::AllOf { all_of: v } => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> assoc_ok(#[trigger] v@[i]) } }
pub open spec fn assocs_n(v: Seq<EntityAssociation>, a: At, p: Prob) -> int decreases v.len() { if v.len() == 0 { 0 } else { assocs_n(v.drop_last(), a, p) + when(!assoc_ok(v.last()), pb(a, Kind::Group, none()), p) } }
/// what the group as such must and must not have
pub open spec fn shape_n(g: GroupSpec, a: At, p: Prob) -> int {
    when(g.prefix@.len() > 0, pb(a, Kind::Prefix, none()), p)
    + when(g.type_ != GroupType::AttributeGroup && g.stability is None || g.stability == Some(Stability::Deprecated), pb(a, Kind::GroupStability, none()), p)
    + when(g.type_ != GroupType::Metric && g.type_ != GroupType::Event && g.extends is None && g.attributes@.len() == 0, pb(a, Kind::NoContent, none()), p)
    + when(g.type_ == GroupType::Undefined, pb(a, Kind::NoType, none()), p)
    + when(g.type_ == GroupType::Span && g.span_kind is None, pb(a, Kind::NoSpanKind, none()), p)
    + when(old_note(g.deprecated), dep_pb(a, g.id), p) }
pub open spec fn fields_n(g: GroupSpec, a: At, p: Prob) -> int {
    let q = pb(a, Kind::Group, none()); let m = pb(a, Kind::Metric, none());
    when(g.type_ != GroupType::Span && g.type_ != GroupType::Undefined && g.span_kind is Some, q, p)
    + when(g.type_ != GroupType::Span && g.type_ != GroupType::Undefined && g.events@.len() > 0, q, p)
    + when(g.type_ == GroupType::Event && g.name is None && (g.body is Some || g.prefix@.len() == 0), q, p)
    + when(g.type_ != GroupType::Event && g.body is Some, q, p)
    + when(g.type_ == GroupType::Metric && g.metric_name is None, m, p) + when(g.type_ == GroupType::Metric && g.instrument is None, m, p) + when(g.type_ == GroupType::Metric && g.unit is None, m, p) }
pub open spec fn body_n(g: GroupSpec, a: At, p: Prob) -> int { if g.type_ == GroupType::Event && g.body is Some { val_n(g.body->0, a, p) + vex_n(g.body->0, a, p) } else { 0 } }
pub open spec fn ents_n(g: GroupSpec, a: At, p: Prob) -> int {
    when(g.entity_associations@.len() > 0 && !(g.type_ == GroupType::Event || g.type_ == GroupType::Metric || g.type_ == GroupType::Span), pb(a, Kind::Group, none()), p) + assocs_n(g.entity_associations@, a, p) }
/// all that is wrong with a group
pub open spec fn group_n(g: GroupSpec, path: String, p: Prob) -> int { let a = At { path, group: g.id };
    shape_n(g, a, p) + fields_n(g, a, p) + body_n(g, a, p) + dup_n(g.attributes@, a, p) + attrs_n(g.attributes@, a, p) + ents_n(g, a, p) }
pub open spec fn groups_n(gs: Seq<GroupSpec>, path: String, p: Prob) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { groups_n(gs.drop_last(), path, p) + group_n(gs.last(), path, p) } }

// the newer format
pub open spec fn level_n<L>(l: Option<L>, kind: Seq<char>, name: SignalId, path: String, p: Prob) -> int { when(l is None, Prob { kind: Kind::NoLevel, path, group: S(kind + name.0@), item: none() }, p) }
pub open spec fn metrics_n(s: Seq<Metric>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { metrics_n(s.drop_last(), path, p) + level_n(s.last().requirement_level, "metric."@, s.last().name, path, p) } }
pub open spec fn spans_n(s: Seq<Span>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { spans_n(s.drop_last(), path, p) + level_n(s.last().requirement_level, "span."@, s.last().type_, path, p) } }
pub open spec fn events_n(s: Seq<Event>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { events_n(s.drop_last(), path, p) + level_n(s.last().requirement_level, "event."@, s.last().name, path, p) } }
pub open spec fn entities_n(s: Seq<Entity>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { entities_n(s.drop_last(), path, p) + level_n(s.last().requirement_level, "entity."@, s.last().type_, path, p) } }
/// attributes that identify and describe
pub open spec fn identifies(id: Seq<AttributeRef>, r: String) -> bool { exists|i: int| 0 <= i < id.len() && (#[trigger] id[i]).ref_ == r }
pub open spec fn both_n(id: Seq<AttributeRef>, de: Seq<AttributeRef>, gid: SignalId, path: String, p: Prob) -> int decreases de.len() { if de.len() == 0 { 0 } else { both_n(id, de.drop_last(), gid, path, p) + when(identifies(id, de.last().ref_), Prob { kind: Kind::BothRoles, path, group: gid.0, item: de.last().ref_ }, p) } }
pub open spec fn roles_n(s: Seq<Entity>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { let e = s.last(); roles_n(s.drop_last(), path, p) + both_n(e.identity@, e.description@, e.type_, path, p) + when(e.identity@.len() == 0, Prob { kind: Kind::NoIdentity, path, group: e.type_.0, item: none() }, p) } }
pub open spec fn refined_roles_n(s: Seq<EntityRefinement>, path: String, p: Prob) -> int decreases s.len() { if s.len() == 0 { 0 } else { let e = s.last(); refined_roles_n(s.drop_last(), path, p) + both_n(e.identity@, e.description@, e.id, path, p) } }
pub open spec fn missing_levels(f: SemConvSpecV2, path: String, p: Prob) -> int { metrics_n(f.metrics@, path, p) + spans_n(f.spans@, path, p) + events_n(f.events@, path, p) + entities_n(f.entities@, path, p) }
pub open spec fn bad_roles(f: SemConvSpecV2, path: String, p: Prob) -> int { roles_n(f.entities@, path, p) + refined_roles_n(f.entity_refinements@, path, p) }
/// what is reported of a file: bad roles stop the run, and then only they are
pub open spec fn v1_judged(f: SemConvSpecV1, path: String, r: WResult<SemConvSpecV1, Error>) -> bool { match r {
    WResult::Ok(f2) => f2 == f && forall|p: Prob| #[trigger] groups_n(f.groups@, path, p) == 0,
    WResult::OkWithNFEs(f2, es) => f2 == f && es@.len() > 0 && forall|p: Prob| #[trigger] tally(es@, p) == groups_n(f.groups@, path, p),
    WResult::FatalErr(_) => false } }
pub open spec fn v2_judged(f: SemConvSpecV2, path: String, r: WResult<SemConvSpecV2, Error>) -> bool { match r {
    WResult::Ok(f2) => f2 == f && (forall|p: Prob| #[trigger] missing_levels(f, path, p) == 0) && (forall|p: Prob| #[trigger] bad_roles(f, path, p) == 0),
    WResult::OkWithNFEs(f2, es) => f2 == f && es@.len() > 0 && (forall|p: Prob| #[trigger] tally(es@, p) == missing_levels(f, path, p)) && (forall|p: Prob| #[trigger] bad_roles(f, path, p) == 0),
    WResult::FatalErr(e) => e is CompoundError && e->CompoundError_0@.len() > 0 && forall|p: Prob| #[trigger] tally(e->CompoundError_0@, p) == bad_roles(f, path, p) } }
pub open spec fn file_judged(f: Versioned, path: String, r: WResult<Versioned, Error>) -> bool { match f {
    Versioned::V1(g) => match r {
        WResult::Ok(f2) => f2 == f && forall|p: Prob| #[trigger] groups_n(g.groups@, path, p) == 0,
        WResult::OkWithNFEs(f2, es) => f2 == f && es@.len() > 0 && forall|p: Prob| #[trigger] tally(es@, p) == groups_n(g.groups@, path, p),
        WResult::FatalErr(_) => false },
    Versioned::V2(g) => match r {
        WResult::Ok(f2) => f2 == f && (forall|p: Prob| #[trigger] missing_levels(g, path, p) == 0) && (forall|p: Prob| #[trigger] bad_roles(g, path, p) == 0),
        WResult::OkWithNFEs(f2, es) => f2 == f && es@.len() > 0 && (forall|p: Prob| #[trigger] tally(es@, p) == missing_levels(g, path, p)) && (forall|p: Prob| #[trigger] bad_roles(g, path, p) == 0),
        WResult::FatalErr(e) => e is CompoundError && e->CompoundError_0@.len() > 0 && forall|p: Prob| #[trigger] tally(e->CompoundError_0@, p) == bad_roles(g, path, p) } } }

// ------------------------------------------------------------------ the code
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body] pub fn vdisplay(&self) -> (r: String) ensures r == self.0 { unimplemented!() } }
impl<T, E> WResult<T, E> { #[verifier::external_body] pub fn map<U, F: FnOnce(T) -> U>(self, op: F) -> (r: WResult<U, E>)
    requires match self { WResult::Ok(t) => op.requires((t,)), WResult::OkWithNFEs(t, _) => op.requires((t,)), WResult::FatalErr(_) => true }
    ensures match self { WResult::Ok(t) => r is Ok && op.ensures((t,), r->Ok_0), WResult::OkWithNFEs(t, n) => r is OkWithNFEs && op.ensures((t,), r->OkWithNFEs_0) && r->OkWithNFEs_1 == n, WResult::FatalErr(e) => r is FatalErr && r->FatalErr_0 == e } { unimplemented!() } }
// A09 proves this contract of the code
impl<T, E> WResult<T, E> { #[verifier::external_body] pub fn with_non_fatal_errors(result: T, non_fatal_errors: Vec<E>) -> (r: WResult<T, E>)
    ensures match r { WResult::Ok(t) => t == result && non_fatal_errors@.len() == 0, WResult::OkWithNFEs(t, es) => t == result && es@ == non_fatal_errors@ && es@.len() > 0, WResult::FatalErr(_) => false } { unimplemented!() } }
//@fn crates/weaver_semconv/src/attribute.rs AttributeSpec::id
    ensures r == (match *self { AttributeSpec::Ref { ref_, .. } => ref_, AttributeSpec::Id { id, .. } => id })
//@end
//@fn crates/weaver_semconv/src/any_value.rs AnyValueSpec::common
    ensures *r == common(*self)
//@end
//@fn crates/weaver_semconv/src/any_value.rs AnyValueSpec::id
    ensures r == common(*self).id
//@end
//@fn crates/weaver_semconv/src/attribute.rs Examples::validate
    ensures match r { WResult::Ok(_) => ex_fits(*self, *attr_type), WResult::OkWithNFEs(_, es) => forall|p: Prob| #[trigger] tally(es@, p) == ex_n(*self, *attr_type, At { path: *path_or_url, group: *group_id }, *attr_id, p), WResult::FatalErr(_) => false }
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
//@end
//@fn crates/weaver_semconv/src/attribute.rs Examples::validate_any_value
    ensures match r { WResult::Ok(_) => vex_fits(*self, *any_value), WResult::OkWithNFEs(_, es) => forall|p: Prob| #[trigger] tally(es@, p) == when(!vex_fits(*self, *any_value), pb(At { path: *path_or_url, group: *group_id }, Kind::ValueExample, common(*any_value).id), p), WResult::FatalErr(_) => false }
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
//@end
//@fn crates/weaver_semconv/src/group.rs validate_duplicate_attribute_ref
    ensures forall|p: Prob| #[trigger] tally(final(errors)@, p) == tally(old(errors)@, p) + dup_n(attributes@, At { path: *path_or_url, group: *group_id }, p)
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one}; let ghost at = At { path: *path_or_url, group: *group_id };
//@loop 0
    refs_of(__s0@, attributes@), forall|r: String| #[trigger] seen.s@.contains(r) == refs_to(attributes@.take(__i0 as int), r),
    forall|p: Prob| #[trigger] tally(errors@, p) == tally(old(errors)@, p) + dup_n(attributes@.take(__i0 as int), at, p),
//@at loop0.start
    proof { assert(attributes@.take(__i0 as int).drop_last() =~= attributes@.take(__i0 - 1)); lemma_refs_step(attributes@, __i0 - 1); }
//@at loop0.after
    proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); }
//@end
//@fn crates/weaver_semconv/src/group.rs validate_entity_association
    ensures r is Ok == assoc_ok(*assoc)
    decreases assoc
//@loop 0
    refs_of(__s0@, children@), forall|i: int| 0 <= i < __i0 ==> assoc_ok(#[trigger] children@[i]),
//@loop 1
    refs_of(__s1@, children@), forall|i: int| 0 <= i < __i1 ==> assoc_ok(#[trigger] children@[i]),
//@end
//@fn crates/weaver_semconv/src/group.rs validate_any_value
    ensures forall|p: Prob| #[trigger] tally(final(errors)@, p) == tally(old(errors)@, p) + (match any_value { Some(v) => val_n(*v, At { path: *path_or_url, group: *group_id }, p), None => 0 })
    decreases any_value->0
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one}; let ghost at = At { path: *path_or_url, group: *group_id }; let ghost mut e0 = Seq::<Error>::empty();
//@loop 0
    refs_of(__s0@, members@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e0, p) + unstable(members@.take(__i0 as int), pb(at, Kind::Value, common(*value).id), p),
//@at loop0.before
    proof { e0 = errors@; }
//@at loop0.start
    proof { assert(members@.take(__i0 as int).drop_last() =~= members@.take(__i0 - 1)); }
//@at loop0.after
    proof { assert(members@.take(members@.len() as int) =~= members@); }
//@loop 1
    refs_of(__s1@, fields@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e0, p) + val_fields(*value, __i1 as nat, at, p),
//@at loop1.before
    proof { e0 = errors@; }
//@end
//@fn crates/weaver_semconv/src/group.rs validate_any_value_examples
    ensures r is Ok, forall|p: Prob| #[trigger] tally(final(errors)@, p) == tally(old(errors)@, p) + (match any_value { Some(v) => vex_n(*v, At { path: *path_or_url, group: *group_id }, p), None => 0 })
    decreases any_value->0
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one}; let ghost at = At { path: *path_or_url, group: *group_id }; let ghost mut e0 = Seq::<Error>::empty();
//@loop 0
    errors@ =~= e0 + __s0@.take(__i0 as int),
//@at loop0.before
    proof { e0 = errors@; }
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); assert(errors@ == e0 + __s0@);  }
//@loop 1
    refs_of(__s1@, fields@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e0, p) + vex_fields(*value, __i1 as nat, at, p),
//@at loop1.before
    proof { e0 = errors@; }
//@end
pub proof fn lemma_refs_step(s: Seq<AttributeSpec>, i: int) requires 0 <= i < s.len()
    ensures forall|r: String| #[trigger] refs_to(s.take(i + 1), r) == (refs_to(s.take(i), r) || (s[i] matches AttributeSpec::Ref { ref_, .. } && ref_ == r)) {
    let a = s.take(i); let b = s.take(i + 1);
    assert forall|r: String| #[trigger] refs_to(b, r) == (refs_to(a, r) || (s[i] matches AttributeSpec::Ref { ref_, .. } && ref_ == r)) by {
        if refs_to(a, r) { let j = choose|j: int| 0 <= j < a.len() && ((#[trigger] a[j]) matches AttributeSpec::Ref { ref_, .. } && ref_ == r); assert(b[j] == a[j]); }
        if s[i] matches AttributeSpec::Ref { ref_, .. } && ref_ == r { assert(b[i] == s[i]); }
        if refs_to(b, r) { let j = choose|j: int| 0 <= j < b.len() && ((#[trigger] b[j]) matches AttributeSpec::Ref { ref_, .. } && ref_ == r); if j < i { assert(a[j] == b[j]); } } } }
//@fn crates/weaver_semconv/src/group.rs GroupSpec::validate nolit isolate rlimit=100
    ensures match r { WResult::Ok(_) => forall|p: Prob| #[trigger] group_n(*self, *path_or_url, p) == 0, WResult::OkWithNFEs(_, es) => es@.len() > 0 && forall|p: Prob| #[trigger] tally(es@, p) == group_n(*self, *path_or_url, p), WResult::FatalErr(_) => false }
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one}; let ghost at = At { path: *path_or_url, group: self.id };
    let ghost mut e0 = Seq::<Error>::empty(); let ghost mut e1 = Seq::<Error>::empty(); let ghost mut e2 = Seq::<Error>::empty(); let ghost mut e3 = Seq::<Error>::empty(); let ghost mut e4 = Seq::<Error>::empty();
//@loop 0
    errors@ =~= e0 + __s0@.take(__i0 as int),
//@at loop0.before
    proof { e0 = errors@; }
//@at loop0.after
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1
    at == (At { path: *path_or_url, group: self.id }), refs_of(__s1@, self.attributes@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e1, p) + attrs_n(self.attributes@.take(__i1 as int), at, p),
//@at loop1.before
    proof { e1 = errors@; }
//@at loop1.start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
    proof { assert(self.attributes@.take(__i1 as int).drop_last() =~= self.attributes@.take(__i1 - 1)); }
//@at loop1.after
    proof { assert(self.attributes@.take(self.attributes@.len() as int) =~= self.attributes@); }
//@loop 2
    at == (At { path: *path_or_url, group: self.id }), attribute is Id, refs_of(__s2@, members@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e2, p) + members_n(members@.take(__i2 as int), at, attribute->Id_id, p),
//@at loop2.before
    proof { e2 = errors@; }
//@at loop2.start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
    proof { assert(members@.take(__i2 as int).drop_last() =~= members@.take(__i2 - 1)); }
//@at loop2.after
    proof { assert(members@.take(members@.len() as int) =~= members@); }
//@loop 3
    errors@ =~= e3 + __s3@.take(__i3 as int),
//@at loop3.before
    proof { e3 = errors@; }
//@at loop3.after
    proof { assert(__s3@.take(__s3@.len() as int) =~= __s3@); }
//@loop 4
    at == (At { path: *path_or_url, group: self.id }), refs_of(__s4@, self.entity_associations@), forall|p: Prob| #[trigger] tally(errors@, p) == tally(e4, p) + assocs_n(self.entity_associations@.take(__i4 as int), at, p),
//@at loop4.before
    proof { e4 = errors@; }
//@at loop4.start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
    proof { assert(self.entity_associations@.take(__i4 as int).drop_last() =~= self.entity_associations@.take(__i4 - 1)); }
//@at loop4.after
    proof { assert(self.entity_associations@.take(self.entity_associations@.len() as int) =~= self.entity_associations@); }
//@at end
    proof { assert forall|p: Prob| #[trigger] tally(errors@, p) == group_n(*self, *path_or_url, p) by {} assert forall|p: Prob| errors@.len() == 0 implies #[trigger] group_n(*self, *path_or_url, p) == 0 by { assert(tally(errors@, p) == 0); } }
//@end
//@fn crates/weaver_semconv/src/semconv.rs SemConvSpecV1::validate
    ensures v1_judged(self, *provenance, r)
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one}; let ghost mut e0 = Seq::<Error>::empty(); let ghost me = self;
//@loop 0
    me == self, refs_of(__s0@, self.groups@), forall|p: Prob| #[trigger] tally(errors@, p) == groups_n(self.groups@.take(__i0 as int), *provenance, p),
//@at loop0.start
    proof { e0 = errors@; assert(self.groups@.take(__i0 as int).drop_last() =~= self.groups@.take(__i0 - 1)); }
//@loop 1
    errors@ =~= e0 + __s1@.take(__i1 as int),
//@at loop1.after
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); assert(errors@ == e0 + __s1@); }
//@at loop0.after
    proof { assert(self.groups@.take(self.groups@.len() as int) =~= self.groups@); assert forall|p: Prob| errors@.len() == 0 implies #[trigger] groups_n(self.groups@, *provenance, p) == 0 by { assert(tally(errors@, p) == 0); } }
//@end
//@fn crates/weaver_semconv/src/v2/mod.rs SemConvSpecV2::validate fmt rlimit=100
    ensures v2_judged(self, *provenance, r)
//@closure check_identity_overlap -> Vec<Error>
    ensures forall|p: Prob| #[trigger] tally(result@, p) == both_n(identity@, description@, *group_id, *provenance, p)
//@at start
    broadcast use {lemma_tally_push, lemma_tally_add, lemma_tally_one};
    let ghost mut e0 = Seq::<Error>::empty(); let ghost mut e1 = Seq::<Error>::empty(); let ghost mut e2 = Seq::<Error>::empty(); let ghost mut e3 = Seq::<Error>::empty(); let ghost mut f0 = Seq::<Error>::empty(); let ghost mut f1 = Seq::<Error>::empty();
//@loop 0
    refs_of(__s0@, self.metrics@), fatal_errors@.len() == 0, forall|p: Prob| #[trigger] tally(errors@, p) == tally(e0, p) + metrics_n(self.metrics@.take(__i0 as int), *provenance, p),
//@at loop0.before
    proof { e0 = errors@; }
//@at loop0.start
    proof { assert(self.metrics@.take(__i0 as int).drop_last() =~= self.metrics@.take(__i0 - 1)); }
//@at loop0.after
    proof { assert(self.metrics@.take(self.metrics@.len() as int) =~= self.metrics@); }
//@loop 1
    refs_of(__s1@, self.spans@), fatal_errors@.len() == 0, forall|p: Prob| #[trigger] tally(errors@, p) == tally(e1, p) + spans_n(self.spans@.take(__i1 as int), *provenance, p),
//@at loop1.before
    proof { e1 = errors@; }
//@at loop1.start
    proof { assert(self.spans@.take(__i1 as int).drop_last() =~= self.spans@.take(__i1 - 1)); }
//@at loop1.after
    proof { assert(self.spans@.take(self.spans@.len() as int) =~= self.spans@); }
//@loop 2
    refs_of(__s2@, self.events@), fatal_errors@.len() == 0, forall|p: Prob| #[trigger] tally(errors@, p) == tally(e2, p) + events_n(self.events@.take(__i2 as int), *provenance, p),
//@at loop2.before
    proof { e2 = errors@; }
//@at loop2.start
    proof { assert(self.events@.take(__i2 as int).drop_last() =~= self.events@.take(__i2 - 1)); }
//@at loop2.after
    proof { assert(self.events@.take(self.events@.len() as int) =~= self.events@); }
//@loop 3
    refs_of(__s3@, self.entities@), fatal_errors@.len() == 0, forall|p: Prob| #[trigger] tally(errors@, p) == tally(e3, p) + entities_n(self.entities@.take(__i3 as int), *provenance, p),
//@at loop3.before
    proof { e3 = errors@; }
//@at loop3.start
    proof { assert(self.entities@.take(__i3 as int).drop_last() =~= self.entities@.take(__i3 - 1)); }
//@at loop3.after
    proof { assert(self.entities@.take(self.entities@.len() as int) =~= self.entities@); }
//@loop 4
    refs_of(__s4@, description@), forall|p: Prob| #[trigger] tally(overlaps@, p) == both_n(identity@, description@.take(__i4 as int), *group_id, *provenance, p),
//@at loop4.start
    proof { assert(description@.take(__i4 as int).drop_last() =~= description@.take(__i4 - 1)); }
//@at loop4.after
    proof { assert(description@.take(description@.len() as int) =~= description@); }
//@loop 5
    refs_of(__s5@, identity@), !__a5, forall|j: int| 0 <= j < __i5 ==> (#[trigger] identity@[j]).ref_ != attr.ref_,
//@at loop5.start
    assert(identity@[__i5 - 1] == __s5@[__i5 - 1]);
//@loop 6
    refs_of(__s6@, self.entities@), forall|p: Prob| #[trigger] tally(fatal_errors@, p) == roles_n(self.entities@.take(__i6 as int), *provenance, p),
//@at loop6.start
    proof { f0 = fatal_errors@; assert(self.entities@.take(__i6 as int).drop_last() =~= self.entities@.take(__i6 - 1)); }
//@loop 7
    fatal_errors@ =~= f0 + __s7@.take(__i7 as int), forall|p: Prob| #[trigger] tally(__s7@, p) == both_n(e.identity@, e.description@, e.type_, *provenance, p),
//@at loop7.after
    proof { assert(__s7@.take(__s7@.len() as int) =~= __s7@); assert(fatal_errors@ == f0 + __s7@); }
//@loop 8
    refs_of(__s8@, self.entity_refinements@), forall|p: Prob| #[trigger] tally(fatal_errors@, p) == tally(f1, p) + refined_roles_n(self.entity_refinements@.take(__i8 as int), *provenance, p),
//@at loop8.start
    proof { f0 = fatal_errors@; assert(self.entity_refinements@.take(__i8 as int).drop_last() =~= self.entity_refinements@.take(__i8 - 1)); }
//@loop 9
    fatal_errors@ =~= f0 + __s9@.take(__i9 as int), forall|p: Prob| #[trigger] tally(__s9@, p) == both_n(r.identity@, r.description@, r.id, *provenance, p),
//@at loop9.after
    proof { assert(__s9@.take(__s9@.len() as int) =~= __s9@); assert(fatal_errors@ == f0 + __s9@); }
//@at loop8.after
    proof { assert(self.entity_refinements@.take(self.entity_refinements@.len() as int) =~= self.entity_refinements@);
        assert forall|p: Prob| fatal_errors@.len() == 0 implies #[trigger] bad_roles(self, *provenance, p) == 0 by { assert(tally(fatal_errors@, p) == 0); }
        assert forall|p: Prob| errors@.len() == 0 implies #[trigger] missing_levels(self, *provenance, p) == 0 by { assert(tally(errors@, p) == 0); } }
//@at loop6.after
    proof { assert(self.entities@.take(self.entities@.len() as int) =~= self.entities@); f1 = fatal_errors@; }
//@end
//@fn crates/weaver_semconv/src/semconv.rs Versioned::validate
    ensures file_judged(self, *provenance, r)
//@keep map
//@closure map.0.0 -> Versioned
    ensures result == Versioned::V1(__c)
//@closure map.1.0 -> Versioned
    ensures result == Versioned::V2(__c)
//@end
} // verus!
fn main() {}
