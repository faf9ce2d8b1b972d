//@include prelude.vrs
verus! {
//@include live_model.vrs
//@type crates/weaver_live_check/src/advice/mod.rs FindingBuilder
pub enum Error { Other }
pub struct DeprecatedAdvisor; pub struct StabilityAdvisor; pub struct EnumAdvisor; pub struct TypeAdvisor;
// ---- the registry's word on an attribute or signal, whatever the format
pub open spec fn va(a: Option<Rc<VersionedAttribute>>) -> Option<VersionedAttribute> { match a { Some(x) => Some(*x), None => None } }
pub open spec fn vs(a: Option<Rc<VersionedSignal>>) -> Option<VersionedSignal> { match a { Some(x) => Some(*x), None => None } }
pub open spec fn va_name(a: VersionedAttribute) -> String { match a { VersionedAttribute::V1(x) => x.name, VersionedAttribute::V2(x) => x.key } }
pub open spec fn va_type(a: VersionedAttribute) -> AttributeType { match a { VersionedAttribute::V1(x) => x.type_, VersionedAttribute::V2(x) => x.type_ } }
pub open spec fn va_deprecated(a: VersionedAttribute) -> Option<Deprecated> { match a { VersionedAttribute::V1(x) => x.deprecated, VersionedAttribute::V2(x) => x.common.deprecated } }
pub open spec fn va_stability(a: VersionedAttribute) -> Option<Stability> { match a { VersionedAttribute::V1(x) => x.stability, VersionedAttribute::V2(x) => Some(x.common.stability) } }
pub open spec fn vs_deprecated(a: VersionedSignal) -> Option<Deprecated> { match a { VersionedSignal::Group(x) => x.deprecated, VersionedSignal::Metric(x) => x.common.deprecated, VersionedSignal::Event(x) => x.common.deprecated, VersionedSignal::Span(x) => x.common.deprecated } }
pub open spec fn vs_stability(a: VersionedSignal) -> Option<Stability> { match a { VersionedSignal::Group(x) => x.stability, VersionedSignal::Metric(x) => Some(x.common.stability), VersionedSignal::Event(x) => Some(x.common.stability), VersionedSignal::Span(x) => Some(x.common.stability) } }
pub open spec fn vs_instrument(a: VersionedSignal) -> Option<InstrumentSpec> { match a { VersionedSignal::Group(x) => x.instrument, VersionedSignal::Metric(x) => Some(x.instrument), _ => None } }
pub open spec fn vs_unit(a: VersionedSignal) -> Option<String> { match a { VersionedSignal::Group(x) => x.unit, VersionedSignal::Metric(x) => Some(x.unit), _ => None } }
/// an observed type is what the model expects: the same, either of them unknown, or whole numbers where fractions are expected
pub open spec fn fits(seen: PrimitiveOrArrayTypeSpec, want: PrimitiveOrArrayTypeSpec) -> bool { seen == want || seen is Any || want is Any || (seen is Int && want is Double) || (seen is Ints && want is Doubles) }
pub open spec fn reason(d: Deprecated) -> Seq<char> { match d { Deprecated::Renamed { .. } => "renamed"@, Deprecated::Obsoleted { .. } => "obsoleted"@, _ => "uncategorized"@ } }
/// the sample's own name and the key under which a finding about it gives it
pub open spec fn named(s: SampleRef) -> Option<(Seq<char>, String)> { match s { SampleRef::Attribute(x) => Some(("attribute_key"@, x.name)), SampleRef::Metric(x) => Some(("metric_name"@, x.name)), SampleRef::Log(x) => Some(("event_name"@, x.event_name)), _ => None } }
pub open spec fn def_deprecated(s: SampleRef, a: Option<VersionedAttribute>, g: Option<VersionedSignal>) -> Option<Deprecated> {
    if s is Attribute { match a { Some(a) => va_deprecated(a), None => None } } else { match g { Some(g) => vs_deprecated(g), None => None } } }
pub open spec fn def_stability(s: SampleRef, a: Option<VersionedAttribute>, g: Option<VersionedSignal>) -> Option<Stability> {
    if s is Attribute { match a { Some(a) => va_stability(a), None => None } } else { match g { Some(g) => vs_stability(g), None => None } } }
/// a deprecated attribute, metric or event is reported as such, and nothing else is
pub open spec fn deprecated_says(s: SampleRef, p: Sample, a: Option<VersionedAttribute>, g: Option<VersionedSignal>) -> Seq<FView> {
    match (named(s), def_deprecated(s, a, g)) {
        (Some(n), Some(d)) => seq![finding(FindingId::Deprecated, FindingLevel::Violation, ctx3(n.0, jstr(n.1@), "deprecation_reason"@, jstr(reason(d)), "deprecation_note"@, jstr(dep_text(d))), p)],
        _ => seq![] } }
pub open spec fn stability_says(s: SampleRef, p: Sample, a: Option<VersionedAttribute>, g: Option<VersionedSignal>) -> Seq<FView> {
    match (named(s), def_stability(s, a, g)) {
        (Some(n), Some(t)) => if t is Stable { seq![] } else { seq![finding(FindingId::NotStable, FindingLevel::Improvement, ctx2(n.0, jstr(n.1@), "stability"@, jstab(t)), p)] },
        _ => seq![] } }
impl OtlpEmitter { #[verifier::external_body] pub fn emit_finding(&self, f: &PolicyFinding, s: &SampleRef, p: &Sample) { unimplemented!() } }

// ---- values of enums
pub uninterp spec fn int_of(v: Value) -> Option<i64>;
pub uninterp spec fn str_of(v: Value) -> Option<Seq<char>>;
impl Value { #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == int_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&String>) ensures (match r { Some(x) => str_of(*self) == Some(x@), None => str_of(*self) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
/// the value, read as the type it was seen as, is that of the member
pub open spec fn is_variant(m: EnumEntriesSpec, v: Value, t: PrimitiveOrArrayTypeSpec) -> bool {
    match t { PrimitiveOrArrayTypeSpec::Int => int_of(v) is Some && m.value == ValueSpec::Int(int_of(v)->0),
        PrimitiveOrArrayTypeSpec::String => str_of(v) is Some && m.value == ValueSpec::String(S(str_of(v)->0)), _ => false } }
pub open spec fn documented(ms: Seq<EnumEntriesSpec>, v: Value, t: PrimitiveOrArrayTypeSpec) -> bool { exists|i: int| 0 <= i < ms.len() && is_variant(#[trigger] ms[i], v, t) }
/// an int or string of an enum attribute that is none of its documented values is reported; a value of another type is the type check's affair
pub open spec fn enum_says(s: SampleRef, p: Sample, a: Option<VersionedAttribute>) -> Seq<FView> {
    if s is Attribute && a is Some { let x = s->Attribute_0; match (x.value, x.type_, va_type(a->0)) {
        (Some(v), Some(t), AttributeType::Enum { members }) => if documented(members@, v, t) || (!(t is Int) && !(t is String) && members@.len() > 0) { seq![] } else {
            seq![finding(FindingId::UndefinedEnumVariant, FindingLevel::Information, ctx2("attribute_key"@, jstr(x.name@), "attribute_value"@, v), p)] },
        _ => seq![] } } else { seq![] } }
pub open spec fn element(t: TemplateTypeSpec) -> PrimitiveOrArrayTypeSpec { match t { TemplateTypeSpec::Boolean => PrimitiveOrArrayTypeSpec::Boolean, TemplateTypeSpec::Int => PrimitiveOrArrayTypeSpec::Int, TemplateTypeSpec::Double => PrimitiveOrArrayTypeSpec::Double,
    TemplateTypeSpec::String => PrimitiveOrArrayTypeSpec::String, TemplateTypeSpec::Any => PrimitiveOrArrayTypeSpec::Any, TemplateTypeSpec::Strings => PrimitiveOrArrayTypeSpec::Strings, TemplateTypeSpec::Ints => PrimitiveOrArrayTypeSpec::Ints,
    TemplateTypeSpec::Doubles => PrimitiveOrArrayTypeSpec::Doubles, TemplateTypeSpec::Booleans => PrimitiveOrArrayTypeSpec::Booleans } }
/// an attribute whose value is not of the type the model gives it
pub open spec fn attribute_type_says(x: SampleAttribute, p: Sample, a: Option<VersionedAttribute>) -> Seq<FView> {
    match (x.type_, a) { (Some(t), Some(a)) => {
        let wrong = |w: PrimitiveOrArrayTypeSpec| finding(FindingId::TypeMismatch, FindingLevel::Violation, ctx3("attribute_key"@, jstr(x.name@), "attribute_type"@, jtype(t), "expected"@, jtype(w)), p);
        match va_type(a) {
            AttributeType::PrimitiveOrArray(w) => if fits(t, w) { seq![] } else { seq![wrong(w)] },
            AttributeType::Template(w) => if fits(t, element(w)) { seq![] } else { seq![wrong(element(w))] },
            AttributeType::Enum { .. } => if t is String || t is Int { seq![] } else { seq![finding(FindingId::TypeMismatch, FindingLevel::Violation, ctx2("attribute_key"@, jstr(x.name@), "attribute_type"@, jtype(t)), p)] } } },
        _ => seq![] } }
/// a metric that is recorded with another instrument, or in another unit, than the model says
pub open spec fn instrument_says(m: SampleMetric, p: Sample, g: VersionedSignal) -> Seq<FView> {
    match m.instrument { SampleInstrument::Unsupported(n) => seq![finding(FindingId::UnexpectedInstrument, FindingLevel::Violation, ctx1("instrument"@, jstr(n@)), p)],
        SampleInstrument::Supported(i) => match vs_instrument(g) { Some(w) => if w == i { seq![] } else { seq![finding(FindingId::UnexpectedInstrument, FindingLevel::Violation, ctx2("instrument"@, jinstr(i), "expected"@, jinstr(w)), p)] }, None => seq![] } } }
pub open spec fn unit_says(m: SampleMetric, p: Sample, g: VersionedSignal) -> Seq<FView> {
    match vs_unit(g) { Some(u) => if u == m.unit { seq![] } else { seq![finding(FindingId::UnitMismatch, FindingLevel::Violation, ctx2("unit"@, jstr(m.unit@), "expected"@, jstr(u@)), p)] }, None => seq![] } }
// ---- attributes a signal should have
pub trait CheckableAttribute { spec fn ckey(&self) -> String; spec fn clevel(&self) -> RequirementLevel; spec fn ctype(&self) -> AttributeType;
    fn key(&self) -> (r: &String) ensures *r == self.ckey(); fn requirement_level(&self) -> (r: &RequirementLevel) ensures *r == self.clevel(); fn attribute_type(&self) -> (r: &AttributeType) ensures *r == self.ctype(); }
/// the attribute is there: by its name or, where it is a template, by a name that begins with it
pub open spec fn has_attr(have: Seq<SampleAttribute>, k: String, template: bool) -> bool { exists|i: int| 0 <= i < have.len() && (if template { k@.is_prefix_of((#[trigger] have[i]).name@) } else { have[i].name == k }) }
pub open spec fn absent(l: RequirementLevel) -> (FindingId, FindingLevel) { match l {
    RequirementLevel::Basic(BasicRequirementLevelSpec::Required) => (FindingId::RequiredAttributeNotPresent, FindingLevel::Violation),
    RequirementLevel::Basic(BasicRequirementLevelSpec::Recommended) | RequirementLevel::Recommended { .. } => (FindingId::RecommendedAttributeNotPresent, FindingLevel::Improvement),
    RequirementLevel::Basic(BasicRequirementLevelSpec::OptIn) | RequirementLevel::OptIn { .. } => (FindingId::OptInAttributeNotPresent, FindingLevel::Information),
    RequirementLevel::ConditionallyRequired { .. } => (FindingId::ConditionallyRequiredAttributeNotPresent, FindingLevel::Information) } }
pub open spec fn missing<T: CheckableAttribute>(want: Seq<T>, have: Seq<SampleAttribute>, p: Sample, n: int) -> Seq<FView> decreases n {
    if n <= 0 { seq![] } else { let a = want[n - 1]; let r = missing(want, have, p, n - 1);
        if has_attr(have, a.ckey(), a.ctype() is Template) { r } else { r.push(finding(absent(a.clevel()).0, absent(a.clevel()).1, ctx1("attribute_key"@, jstr(a.ckey()@)), p)) } } }
pub open spec fn all_missing<T: CheckableAttribute>(want: Seq<T>, have: Seq<SampleAttribute>, p: Sample) -> Seq<FView> { missing(want, have, p, want.len() as int) }
pub open spec fn point_says(have: Seq<SampleAttribute>, p: Sample, g: Option<VersionedSignal>) -> Seq<FView> { match g {
    Some(VersionedSignal::Group(x)) => all_missing(x.attributes@, have, p), Some(VersionedSignal::Metric(x)) => all_missing(x.attributes@, have, p), _ => seq![] } }
pub open spec fn log_says(have: Seq<SampleAttribute>, p: Sample, g: Option<VersionedSignal>) -> Seq<FView> { match g {
    Some(VersionedSignal::Group(x)) => all_missing(x.attributes@, have, p), Some(VersionedSignal::Event(x)) => all_missing(x.attributes@, have, p), _ => seq![] } }
pub open spec fn type_says(s: SampleRef, p: Sample, a: Option<VersionedAttribute>, g: Option<VersionedSignal>) -> Seq<FView> { match s {
    SampleRef::Attribute(x) => attribute_type_says(*x, p, a),
    SampleRef::Metric(m) => match g { Some(g) => instrument_says(*m, p, g) + unit_says(*m, p, g), None => seq![] },
    SampleRef::NumberDataPoint(d) => point_says(d.attributes@, p, g), SampleRef::HistogramDataPoint(d) => point_says(d.attributes@, p, g),
    SampleRef::NumberDataPoint(d) => point_says(d.attributes@, p, g), SampleRef::ExponentialHistogramDataPoint(d) => point_says(d.attributes@, p, g),
    SampleRef::Log(l) => log_says(l.attributes@, p, g),
    _ => seq![] } }
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::new
    ensures r.id == id.vis(), r.context is None, r.level == FindingLevel::Information, r.signal_type is None, r.signal_name is None
//@subst impl Into<String> => impl VIntoString
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::message
    ensures r == (FindingBuilder { message: message.vis(), ..self })
//@subst impl Into<String> => impl VIntoString
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::context
    ensures r == (FindingBuilder { context: Some(context), ..self })
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::level
    ensures r == (FindingBuilder { level, ..self })
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::signal
    ensures r == (FindingBuilder { signal_type: type_of_signal(*signal), signal_name: name_of_signal(*signal), ..self })
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::build
    ensures r == (PolicyFinding { id: self.id, context: self.context, message: self.message, level: self.level, signal_type: self.signal_type, signal_name: self.signal_name })
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs FindingBuilder::build_and_emit
    ensures r == (PolicyFinding { id: self.id, context: self.context, message: self.message, level: self.level, signal_type: self.signal_type, signal_name: self.signal_name })
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedAttribute::name
    ensures *r == va_name(*self)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedAttribute::r#type
    ensures *r == va_type(*self)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedAttribute::deprecated
    ensures *r == va_deprecated(*self)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedAttribute::stability
    ensures (match r { Some(x) => va_stability(*self) == Some(*x), None => va_stability(*self) is None })
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedSignal::deprecated
    ensures *r == vs_deprecated(*self)
//@subst group.as_ref() => (&**group)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedSignal::stability
    ensures (match r { Some(x) => vs_stability(*self) == Some(*x), None => vs_stability(*self) is None })
//@subst group.as_ref() => (&**group)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedSignal::instrument
    ensures (match r { Some(x) => vs_instrument(*self) == Some(*x), None => vs_instrument(*self) is None })
//@subst group.as_ref() => (&**group)
//@end
//@fn crates/weaver_live_check/src/lib.rs VersionedSignal::unit
    ensures (match r { Some(x) => vs_unit(*self) == Some(*x), None => vs_unit(*self) is None })
//@subst group.as_ref() => (&**group)
//@end
//@fn crates/weaver_live_check/src/advice/mod.rs emit_findings
//@loop 0
    true,
//@end
//@fn crates/weaver_semconv/src/attribute.rs PrimitiveOrArrayTypeSpec::is_compatible
    ensures r == fits(*self, *other)
//@end
//@fn crates/weaver_live_check/src/advice/deprecated_advisor.rs deprecated_to_reason
    ensures r@ == reason(*deprecated)
//@end
//@fn crates/weaver_live_check/src/advice/deprecated_advisor.rs Advisor for DeprecatedAdvisor::advise free as=deprecated_advise
    ensures r is Ok, all_say(r->Ok_0@) =~= deprecated_says(sample, *signal, va(registry_attribute), vs(registry_group))
//@end
//@fn crates/weaver_live_check/src/advice/stability_advisor.rs Advisor for StabilityAdvisor::advise free as=stability_advise
    ensures r is Ok, all_say(r->Ok_0@) =~= stability_says(sample, *parent_signal, va(registry_attribute), vs(registry_group))
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for Attribute::key free as=Attribute_key
    ensures *r == self_.name
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for Attribute::requirement_level free as=Attribute_requirement_level
    ensures *r == self_.requirement_level
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for Attribute::attribute_type free as=Attribute_attribute_type
    ensures *r == self_.type_
//@end
impl CheckableAttribute for Attribute { open spec fn ckey(&self) -> String { self.name } open spec fn clevel(&self) -> RequirementLevel { self.requirement_level } open spec fn ctype(&self) -> AttributeType { self.type_ }
    fn key(&self) -> (r: &String) { Attribute_key(self) } fn requirement_level(&self) -> (r: &RequirementLevel) { Attribute_requirement_level(self) } fn attribute_type(&self) -> (r: &AttributeType) { Attribute_attribute_type(self) } }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for MetricAttribute::key free as=MetricAttribute_key
    ensures *r == self_.base.key
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for MetricAttribute::requirement_level free as=MetricAttribute_requirement_level
    ensures *r == self_.requirement_level
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for MetricAttribute::attribute_type free as=MetricAttribute_attribute_type
    ensures *r == self_.base.type_
//@end
impl CheckableAttribute for MetricAttribute { open spec fn ckey(&self) -> String { self.base.key } open spec fn clevel(&self) -> RequirementLevel { self.requirement_level } open spec fn ctype(&self) -> AttributeType { self.base.type_ }
    fn key(&self) -> (r: &String) { MetricAttribute_key(self) } fn requirement_level(&self) -> (r: &RequirementLevel) { MetricAttribute_requirement_level(self) } fn attribute_type(&self) -> (r: &AttributeType) { MetricAttribute_attribute_type(self) } }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for EventAttribute::key free as=EventAttribute_key
    ensures *r == self_.base.key
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for EventAttribute::requirement_level free as=EventAttribute_requirement_level
    ensures *r == self_.requirement_level
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs CheckableAttribute for EventAttribute::attribute_type free as=EventAttribute_attribute_type
    ensures *r == self_.base.type_
//@end
impl CheckableAttribute for EventAttribute { open spec fn ckey(&self) -> String { self.base.key } open spec fn clevel(&self) -> RequirementLevel { self.requirement_level } open spec fn ctype(&self) -> AttributeType { self.base.type_ }
    fn key(&self) -> (r: &String) { EventAttribute_key(self) } fn requirement_level(&self) -> (r: &RequirementLevel) { EventAttribute_requirement_level(self) } fn attribute_type(&self) -> (r: &AttributeType) { EventAttribute_attribute_type(self) } }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs check_attributes
    ensures all_say(r@) =~= all_missing(semconv_attributes@, sample_attributes@, *sample)
//@loop 0 acc=HashSet<&String>
    forall|x: &String| __a0.s@.contains(x) <==> exists|i: int| 0 <= i < __i0 && (#[trigger] sample_attributes@[i]).name == *x,
//@at loop0.start
    proof { assert(__s0@[__i0 - 1].name == sample_attributes@[__i0 - 1].name); }
//@loop 1
    all_say(advice_list@) =~= missing(semconv_attributes@, sample_attributes@, *sample, __i1 as int),
//@loop 2
    !__a2, forall|j: int| 0 <= j < __i2 ==> !key@.is_prefix_of((#[trigger] sample_attributes@[j]).name@),
//@at loop2.start
    proof { assert(__s2@[__i2 - 1].name == sample_attributes@[__i2 - 1].name); }
//@end
//@fn crates/weaver_live_check/src/advice/enum_advisor.rs Advisor for EnumAdvisor::advise free as=enum_advise
    ensures r is Ok, all_say(r->Ok_0@) =~= enum_says(sample, *signal, va(registry_attribute))
//@loop 0
    !is_found, __i0 > 0 ==> *attribute_type is Int || *attribute_type is String, forall|j: int| 0 <= j < __i0 ==> !is_variant(#[trigger] members@[j], *attribute_value, *attribute_type),
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs Advisor for TypeAdvisor::advise free as=type_advise
    ensures r is Ok, all_say(r->Ok_0@) =~= type_says(sample, *parent_signal, va(registry_attribute), vs(registry_group))
//@end
} // verus!
fn main() {}
