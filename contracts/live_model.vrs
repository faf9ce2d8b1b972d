// samples, findings and the two registry formats, as live check sees them: extracted; leaf types are opaque
//@opaque Value SpanKindSpec Status OrderedF64 YamlValue Examples AttributeRole Tags SignalRequirementLevel AnyValueSpec GroupLineage SchemaUrl AttributeGroup SpanName OtlpEmitter SampleExponentialHistogramBuckets
//@path weaver_resolved_schema::attribute::Attribute => Attribute
//@path weaver_forge::v2::attribute::Attribute => V2Attribute
//@path weaver_forge::v2::metric::Metric => Metric
//@path weaver_forge::v2::span::Span => Span
//@path weaver_forge::v2::event::Event => Event
//@path weaver_forge::v2::entity::Entity => V2Entity
//@path crate::v2::attribute::Attribute => V2Attribute
//@type crates/weaver_checker/src/finding.rs FindingLevel
//@type crates/weaver_checker/src/finding.rs PolicyFinding
//@type crates/weaver_live_check/src/generated/attributes.rs FindingId
//@type crates/weaver_live_check/src/lib.rs LiveCheckResult
//@type crates/weaver_semconv/src/attribute.rs PrimitiveOrArrayTypeSpec
//@type crates/weaver_semconv/src/attribute.rs TemplateTypeSpec
//@type crates/weaver_semconv/src/attribute.rs ValueSpec
//@type crates/weaver_semconv/src/attribute.rs EnumEntriesSpec
//@type crates/weaver_semconv/src/attribute.rs AttributeType
//@type crates/weaver_semconv/src/attribute.rs BasicRequirementLevelSpec
//@type crates/weaver_semconv/src/attribute.rs RequirementLevel
//@type crates/weaver_semconv/src/stability.rs Stability
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_semconv/src/group.rs InstrumentSpec
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/entity_association.rs EntityAssociation
//@type crates/weaver_live_check/src/sample_attribute.rs SampleAttribute
//@type crates/weaver_live_check/src/sample_resource.rs SampleResource
//@type crates/weaver_live_check/src/sample_instrumentation_scope.rs SampleInstrumentationScope
//@type crates/weaver_live_check/src/sample_span.rs SampleSpanEvent
//@type crates/weaver_live_check/src/sample_span.rs SampleSpanLink
//@type crates/weaver_live_check/src/sample_span.rs SampleSpan
//@type crates/weaver_live_check/src/sample_metric.rs SampleExemplar
//@type crates/weaver_live_check/src/sample_metric.rs SampleNumberDataPoint
//@type crates/weaver_live_check/src/sample_metric.rs SampleHistogramDataPoint
//@type crates/weaver_live_check/src/sample_metric.rs SampleExponentialHistogramDataPoint
//@type crates/weaver_live_check/src/sample_metric.rs SampleInstrument
//@type crates/weaver_live_check/src/sample_metric.rs DataPoints
//@type crates/weaver_live_check/src/sample_metric.rs SampleMetric
//@type crates/weaver_live_check/src/sample_log.rs SampleLog
//@type crates/weaver_live_check/src/sample_profile.rs SampleProfile
//@type crates/weaver_live_check/src/lib.rs Sample
//@type crates/weaver_live_check/src/lib.rs SampleRef
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_forge/src/registry.rs ResolvedGroup
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@type crates/weaver_semconv/src/v2/mod.rs CommonFields
//@type crates/weaver_forge/src/v2/provenance.rs Provenance
//@type crates/weaver_forge/src/v2/attribute.rs Attribute as=V2Attribute
//@type crates/weaver_forge/src/v2/entity.rs EntityAttribute sub=Attribute:V2Attribute
//@type crates/weaver_forge/src/v2/entity.rs EntityRef
//@type crates/weaver_forge/src/v2/entity.rs EntityAssociation as=V2EntityAssociation
//@type crates/weaver_forge/src/v2/entity.rs Entity as=V2Entity
//@type crates/weaver_forge/src/v2/metric.rs MetricAttribute sub=Attribute:V2Attribute
//@type crates/weaver_forge/src/v2/metric.rs Metric sub=EntityAssociation:V2EntityAssociation
//@type crates/weaver_forge/src/v2/event.rs EventAttribute sub=Attribute:V2Attribute
//@type crates/weaver_forge/src/v2/event.rs Event sub=EntityAssociation:V2EntityAssociation
//@type crates/weaver_forge/src/v2/span.rs SpanAttribute sub=Attribute:V2Attribute
//@type crates/weaver_forge/src/v2/span.rs Span sub=EntityAssociation:V2EntityAssociation
//@type crates/weaver_live_check/src/lib.rs VersionedAttribute
//@type crates/weaver_live_check/src/lib.rs VersionedSignal
//@type crates/weaver_live_check/src/lib.rs VersionedEntity
//@const crates/weaver_live_check/src/lib.rs ATTRIBUTE_KEY_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs ATTRIBUTE_VALUE_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs ATTRIBUTE_TYPE_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs DEPRECATION_REASON_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs DEPRECATION_NOTE_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs STABILITY_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs UNIT_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs INSTRUMENT_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs EXPECTED_VALUE_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs EVENT_NAME_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs METRIC_NAME_ADVICE_CONTEXT_KEY
//@const crates/weaver_live_check/src/lib.rs ENTITY_TYPE_ADVICE_CONTEXT_KEY

pub type JsonValue = Value;
// ---- serde_json: an object is its map of keys to values; how a leaf is shown is a function of it
pub uninterp spec fn jobj(m: Map<String, Value>) -> Value;
pub uninterp spec fn jstr(s: Seq<char>) -> Value;
pub uninterp spec fn jstrs(s: Seq<Seq<char>>) -> Value;
pub uninterp spec fn jtype(t: PrimitiveOrArrayTypeSpec) -> Value;
pub uninterp spec fn jstab(t: Stability) -> Value;
pub uninterp spec fn jinstr(t: InstrumentSpec) -> Value;
pub struct JsonObj { pub m: Ghost<Map<String, Value>> }
#[verifier::external_body] pub fn vjson_new() -> (r: JsonObj) ensures r.m@ == Map::<String, Value>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vjson_put(o: JsonObj, k: &String, v: Value) -> (r: JsonObj) ensures r.m@ == o.m@.insert(*k, v) { unimplemented!() }
#[verifier::external_body] pub fn vjson_obj(o: JsonObj) -> (r: Value) ensures r == jobj(o.m@) { unimplemented!() }
pub trait VJson { spec fn vj(&self) -> Value; fn vjson(&self) -> (r: Value) ensures r == self.vj(); }
impl VJson for String { open spec fn vj(&self) -> Value { jstr(self@) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for Value { open spec fn vj(&self) -> Value { *self } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for PrimitiveOrArrayTypeSpec { open spec fn vj(&self) -> Value { jtype(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for Stability { open spec fn vj(&self) -> Value { jstab(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl VJson for InstrumentSpec { open spec fn vj(&self) -> Value { jinstr(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
impl<'a, T: VJson> VJson for &'a T { open spec fn vj(&self) -> Value { (**self).vj() } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
pub open spec fn strs_of(v: Seq<&String>) -> Seq<Seq<char>> { v.map_values(|x: &String| x@) }
impl<'a> VJson for Vec<&'a String> { open spec fn vj(&self) -> Value { jstrs(strs_of(self@)) } #[verifier::external_body] fn vjson(&self) -> (r: Value) { unimplemented!() } }
/// the text of a finding's id; FindingId::into is Display, left uninterpreted
pub uninterp spec fn fid(id: FindingId) -> String;
impl FindingId { #[verifier::external_body] pub fn into(self) -> (r: String) ensures r == fid(self) { unimplemented!() } }
pub trait VIntoString: Sized { spec fn vis(self) -> String; fn into(self) -> (r: String) ensures r == self.vis(); }
impl VIntoString for String { open spec fn vis(self) -> String { self } #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() } }
impl<'a> VIntoString for &'a String { open spec fn vis(self) -> String { *self } #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() } }
impl VIntoString for FindingId { open spec fn vis(self) -> String { fid(self) } #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn dep_text(d: Deprecated) -> Seq<char>;
impl Deprecated { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == dep_text(*self) { unimplemented!() } }
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == self.0 { unimplemented!() } }
#[derive(Clone, Copy)]
pub enum SignalType { Span, Resource, Metric, Log, Profile }
pub uninterp spec fn st_text(t: SignalType) -> String;
impl SignalType { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == st_text(*self) { unimplemented!() } }

// ---- what a finding says, without the wording of its message
pub struct FView { pub id: String, pub level: FindingLevel, pub context: Option<Value>, pub signal_type: Option<String>, pub signal_name: Option<String> }
pub open spec fn says(f: PolicyFinding) -> FView { FView { id: f.id, level: f.level, context: f.context, signal_type: f.signal_type, signal_name: f.signal_name } }
pub open spec fn all_say(s: Seq<PolicyFinding>) -> Seq<FView> { s.map_values(|f: PolicyFinding| says(f)) }
pub open spec fn type_of_signal(p: Sample) -> Option<String> { match p {
    Sample::Span(_) => Some(st_text(SignalType::Span)), Sample::Resource(_) => Some(st_text(SignalType::Resource)), Sample::Metric(_) => Some(st_text(SignalType::Metric)),
    Sample::Log(_) => Some(st_text(SignalType::Log)), Sample::Profile(_) => Some(st_text(SignalType::Profile)), _ => None } }
pub open spec fn name_of_signal(p: Sample) -> Option<String> { match p { Sample::Span(s) => Some(s.name), Sample::Metric(m) => Some(m.name), Sample::Log(l) => Some(l.event_name), _ => None } }
pub open spec fn finding(id: FindingId, level: FindingLevel, ctx: Option<Map<String, Value>>, p: Sample) -> FView {
    FView { id: fid(id), level, context: match ctx { Some(m) => Some(jobj(m)), None => None }, signal_type: type_of_signal(p), signal_name: name_of_signal(p) } }
pub open spec fn key(s: Seq<char>) -> String { S(s) }
pub open spec fn ctx1(k: Seq<char>, v: Value) -> Option<Map<String, Value>> { Some(Map::<String, Value>::empty().insert(key(k), v)) }
pub open spec fn ctx2(k: Seq<char>, v: Value, k2: Seq<char>, v2: Value) -> Option<Map<String, Value>> { Some(Map::<String, Value>::empty().insert(key(k), v).insert(key(k2), v2)) }
pub open spec fn ctx3(k: Seq<char>, v: Value, k2: Seq<char>, v2: Value, k3: Seq<char>, v3: Value) -> Option<Map<String, Value>> { Some(Map::<String, Value>::empty().insert(key(k), v).insert(key(k2), v2).insert(key(k3), v3)) }
//@fn crates/weaver_live_check/src/lib.rs Sample::signal_type
    ensures r == type_of_signal(*self)
//@end
//@fn crates/weaver_live_check/src/lib.rs Sample::signal_name
    ensures r == name_of_signal(*self)
//@end
