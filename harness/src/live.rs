//! Samples, findings and rules for the live-check suites.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::Arc;
use weaver_checker::{FindingLevel, PolicyFinding};
use weaver_config::{FindingFilter, FindingLevelOverride};
use weaver_live_check::advice::Advisor;
use weaver_live_check::otlp_logger::OtlpEmitter;
use weaver_live_check::sample_attribute::SampleAttribute;
use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
use weaver_live_check::{Error, LiveCheckResult, Sample, SampleRef, VersionedAttribute, VersionedRegistry, VersionedSignal};

pub const LEVELS: [FindingLevel; 3] = [FindingLevel::Information, FindingLevel::Improvement, FindingLevel::Violation];
pub const NAMES: [&str; 7] = ["http.method", "http.url", "db.system", "tpl.a", "tpl.a.b", "x", ""];
pub const PATTERNS: [&str; 8] = ["http.method", "http.*", "*.system", "*", "db.system", "tpl.a*", "x", "nope"];
pub const IDS: [&str; 5] = ["idA", "idB", "missing_attribute", "missing_metric", "template_attribute"];

/// the globs used here: literal, `prefix*`, `*suffix`, `*`
pub fn glob(p: &str, s: &str) -> bool {
    if p == "*" {
        true
    } else if let Some(x) = p.strip_suffix('*') {
        s.starts_with(x)
    } else if let Some(x) = p.strip_prefix('*') {
        s.ends_with(x)
    } else {
        p == s
    }
}
fn globs(ps: &[String], s: &str) -> bool {
    ps.iter().any(|p| glob(p, s))
}

pub fn filters(r: &mut Rng, n: usize) -> Vec<FindingFilter> {
    (0..n)
        .map(|_| FindingFilter {
            exclude: if r.flip() { Some((0..r.below(3)).map(|_| (*r.pick(&IDS)).to_owned()).collect()) } else { None },
            min_level: if r.flip() { Some(*r.pick(&LEVELS)) } else { None },
            signal_type: if r.chance(1, 3) { Some((*r.pick(&["span", "metric", "log", "resource"])).to_owned()) } else { None },
            exclude_samples: if r.chance(1, 3) { (0..r.range(1, 2)).map(|_| (*r.pick(&PATTERNS)).to_owned()).collect() } else { vec![] },
            sample_names: if r.chance(1, 3) { (0..r.range(1, 2)).map(|_| (*r.pick(&PATTERNS)).to_owned()).collect() } else { vec![] },
        })
        .collect()
}
pub fn overrides(r: &mut Rng, n: usize) -> Vec<FindingLevelOverride> {
    (0..n)
        .map(|_| FindingLevelOverride {
            ids: if r.chance(2, 3) { Some((0..r.below(3)).map(|_| (*r.pick(&IDS)).to_owned()).collect()) } else { None },
            level: *r.pick(&LEVELS),
            signal_type: if r.chance(1, 3) { Some((*r.pick(&["span", "metric", "log", "resource"])).to_owned()) } else { None },
            sample_names: if r.chance(1, 3) { (0..r.range(1, 2)).map(|_| (*r.pick(&PATTERNS)).to_owned()).collect() } else { vec![] },
        })
        .collect()
}
fn in_scope(st: &Option<String>, names: &[String], f: &PolicyFinding, name: Option<&str>) -> bool {
    st.as_ref().is_none_or(|s| f.signal_type.as_ref() == Some(s)) && (names.is_empty() || name.is_some_and(|n| globs(names, n)))
}
/// the documented meaning of the rules
pub fn modified(fs: &[FindingFilter], os: &[FindingLevelOverride], mut f: PolicyFinding, name: Option<&str>) -> Option<PolicyFinding> {
    if let Some(o) = os.iter().find(|o| in_scope(&o.signal_type, &o.sample_names, &f, name) && o.ids.as_ref().is_none_or(|i| i.contains(&f.id))) {
        f.level = o.level;
    }
    let drop = fs.iter().any(|x| {
        in_scope(&x.signal_type, &x.sample_names, &f, name)
            && (x.exclude.as_ref().is_some_and(|e| e.contains(&f.id))
                || x.min_level.is_some_and(|m| (f.level as u8) < (m as u8))
                || (!x.exclude_samples.is_empty() && name.is_some_and(|n| globs(&x.exclude_samples, n))))
    });
    if drop {
        None
    } else {
        Some(f)
    }
}

pub fn rank(l: FindingLevel) -> u8 {
    match l {
        FindingLevel::Information => 0,
        FindingLevel::Improvement => 1,
        FindingLevel::Violation => 2,
    }
}

fn attr(r: &mut Rng) -> Value {
    json!({"name": *r.pick(&NAMES), "value": (*r.pick(&[json!("v"), json!(3), json!(null), json!([true])]))})
}
fn attrs(r: &mut Rng) -> Value {
    Value::Array((0..r.below(4)).map(|_| attr(r)).collect())
}
fn exemplars(r: &mut Rng) -> Value {
    Value::Array((0..r.below(3)).map(|_| json!({"filtered_attributes": attrs(r), "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"})).collect())
}
fn event(r: &mut Rng) -> Value {
    json!({"name": *r.pick(&NAMES), "attributes": attrs(r)})
}
/// the sample a generated description stands for (the json form of a metric cannot name exponential histograms)
pub fn sample_of(j: &Value) -> Sample {
    let mut s: Sample = serde_json::from_value(j.clone()).expect("sample");
    if let Sample::Metric(m) = &mut s {
        let dp = &j["metric"]["data_points"];
        if dp.as_array().is_some_and(|a| a.iter().any(|d| d.get("scale").is_some())) {
            m.data_points = Some(DataPoints::ExponentialHistogram(serde_json::from_value(dp.clone()).expect("points")));
        }
    }
    s
}
pub fn sample_json(r: &mut Rng, kind: usize) -> Value {
    match kind % 9 {
        0 => json!({"attribute": attr(r)}),
        1 => {
            let ev: Vec<Value> = (0..r.below(3)).map(|_| event(r)).collect();
            let li: Vec<Value> = (0..r.below(3)).map(|_| json!({"attributes": attrs(r)})).collect();
            json!({"span": {"name": *r.pick(&NAMES), "kind": "client", "attributes": attrs(r), "span_events": ev, "span_links": li}})
        }
        2 => json!({"span_event": event(r)}),
        3 => json!({"span_link": {"attributes": attrs(r)}}),
        4 => json!({"resource": {"attributes": attrs(r)}}),
        5 => json!({"instrumentation_scope": {"name": *r.pick(&NAMES), "attributes": attrs(r)}}),
        6 => {
            let n = r.below(3);
            let dp: Value = match r.below(4) {
                0 => Value::Null,
                1 => (0..n).map(|_| json!({"attributes": attrs(r), "value": 3, "exemplars": exemplars(r)})).collect(),
                2 => (0..n).map(|_| json!({"attributes": attrs(r), "count": 3, "sum": 1.5, "bucket_counts": [1], "explicit_bounds": [1.0], "exemplars": exemplars(r)})).collect(),
                _ => (0..n).map(|_| json!({"attributes": attrs(r), "count": 3, "scale": 1, "zero_count": 0, "exemplars": exemplars(r)})).collect(),
            };
            json!({"metric": {"name": *r.pick(&NAMES), "instrument": "counter", "unit": "s", "data_points": dp}})
        }
        7 => json!({"log": {"event_name": *r.pick(&NAMES), "attributes": attrs(r)}}),
        _ => json!({"profile": {"original_payload_format": "pprof", "attributes": attrs(r)}}),
    }
}

/// one checked entity of a sample
#[derive(Debug)]
pub struct Node {
    /// the entity type of the statistics
    pub entity: &'static str,
    /// what an advisor is shown
    pub kind: &'static str,
    pub name: Option<String>,
    pub result: Option<LiveCheckResult>,
}
fn a_nodes(v: &[SampleAttribute], out: &mut Vec<Node>) {
    for a in v {
        out.push(Node { entity: "attribute", kind: "attribute", name: Some(a.name.clone()), result: a.live_check_result.clone() });
    }
}
fn e_nodes(v: &[SampleExemplar], out: &mut Vec<Node>) {
    for e in v {
        out.push(Node { entity: "exemplar", kind: "exemplar", name: None, result: e.live_check_result.clone() });
        a_nodes(&e.filtered_attributes, out);
    }
}
pub fn nodes(s: &Sample) -> Vec<Node> {
    let mut o = vec![];
    match s {
        Sample::Attribute(a) => a_nodes(std::slice::from_ref(a), &mut o),
        Sample::Span(s) => {
            o.push(Node { entity: "span", kind: "span", name: Some(s.name.clone()), result: s.live_check_result.clone() });
            a_nodes(&s.attributes, &mut o);
            for e in &s.span_events {
                o.push(Node { entity: "span_event", kind: "span_event", name: Some(e.name.clone()), result: e.live_check_result.clone() });
                a_nodes(&e.attributes, &mut o);
            }
            for l in &s.span_links {
                o.push(Node { entity: "span_link", kind: "span_link", name: None, result: l.live_check_result.clone() });
                a_nodes(&l.attributes, &mut o);
            }
        }
        Sample::SpanEvent(e) => {
            o.push(Node { entity: "span_event", kind: "span_event", name: Some(e.name.clone()), result: e.live_check_result.clone() });
            a_nodes(&e.attributes, &mut o);
        }
        Sample::SpanLink(l) => {
            o.push(Node { entity: "span_link", kind: "span_link", name: None, result: l.live_check_result.clone() });
            a_nodes(&l.attributes, &mut o);
        }
        Sample::Resource(l) => {
            o.push(Node { entity: "resource", kind: "resource", name: None, result: l.live_check_result.clone() });
            a_nodes(&l.attributes, &mut o);
        }
        Sample::InstrumentationScope(l) => {
            o.push(Node { entity: "instrumentation_scope", kind: "instrumentation_scope", name: Some(l.name.clone()), result: l.live_check_result.clone() });
            a_nodes(&l.attributes, &mut o);
        }
        Sample::Metric(m) => {
            o.push(Node { entity: "metric", kind: "metric", name: Some(m.name.clone()), result: m.live_check_result.clone() });
            match &m.data_points {
                None => {}
                Some(DataPoints::Number(v)) => {
                    for p in v {
                        o.push(Node { entity: "data_point", kind: "number_data_point", name: None, result: p.live_check_result.clone() });
                        a_nodes(&p.attributes, &mut o);
                        e_nodes(&p.exemplars, &mut o);
                    }
                }
                Some(DataPoints::Histogram(v)) => {
                    for p in v {
                        o.push(Node { entity: "data_point", kind: "histogram_data_point", name: None, result: p.live_check_result.clone() });
                        a_nodes(&p.attributes, &mut o);
                        e_nodes(&p.exemplars, &mut o);
                    }
                }
                Some(DataPoints::ExponentialHistogram(v)) => {
                    for p in v {
                        o.push(Node { entity: "data_point", kind: "exponential_histogram_data_point", name: None, result: p.live_check_result.clone() });
                        a_nodes(&p.attributes, &mut o);
                        e_nodes(&p.exemplars, &mut o);
                    }
                }
            }
        }
        Sample::Log(l) => {
            o.push(Node { entity: "log", kind: "log", name: Some(l.event_name.clone()), result: l.live_check_result.clone() });
            a_nodes(&l.attributes, &mut o);
        }
        Sample::Profile(p) => {
            o.push(Node { entity: "profile", kind: "profile", name: None, result: p.live_check_result.clone() });
            a_nodes(&p.attributes, &mut o);
        }
    }
    o
}
fn kind_of(s: &SampleRef<'_>) -> (&'static str, Option<String>) {
    match s {
        SampleRef::Attribute(a) => ("attribute", Some(a.name.clone())),
        SampleRef::Span(a) => ("span", Some(a.name.clone())),
        SampleRef::SpanEvent(a) => ("span_event", Some(a.name.clone())),
        SampleRef::SpanLink(_) => ("span_link", None),
        SampleRef::Resource(_) => ("resource", None),
        SampleRef::InstrumentationScope(a) => ("instrumentation_scope", Some(a.name.clone())),
        SampleRef::Metric(a) => ("metric", Some(a.name.clone())),
        SampleRef::NumberDataPoint(_) => ("number_data_point", None),
        SampleRef::HistogramDataPoint(_) => ("histogram_data_point", None),
        SampleRef::ExponentialHistogramDataPoint(_) => ("exponential_histogram_data_point", None),
        SampleRef::Exemplar(_) => ("exemplar", None),
        SampleRef::Log(a) => ("log", Some(a.event_name.clone())),
        SampleRef::Profile(_) => ("profile", None),
    }
}
/// what the test advisor `k` of a run with `salt` says about an entity
pub fn advice(salt: u64, k: usize, kind: &str, name: Option<&str>, signal_type: Option<String>) -> Vec<PolicyFinding> {
    let h = kind.bytes().chain(name.unwrap_or("-").bytes()).fold(salt ^ (k as u64) << 7, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    let mut r = Rng::new(h);
    (0..r.below(3))
        .map(|i| {
            let l = *r.pick(&LEVELS);
            PolicyFinding { id: (*r.pick(&["idA", "idB"])).to_owned(), context: None, message: format!("{kind}-{k}-{i}"), level: l, signal_type: signal_type.clone(), signal_name: None }
        })
        .collect()
}
pub struct TestAdvisor {
    pub salt: u64,
    pub k: usize,
}
impl Advisor for TestAdvisor {
    fn advise(&mut self, s: SampleRef<'_>, signal: &Sample, _: Option<Rc<VersionedAttribute>>, _: Option<Rc<VersionedSignal>>, _: Option<Rc<OtlpEmitter>>) -> Result<Vec<PolicyFinding>, Error> {
        let (k, n) = kind_of(&s);
        Ok(advice(self.salt, self.k, k, n.as_deref(), signal.signal_type()))
    }
}

/// a registry of either shape, with these plain attributes, templates, metrics and events; (name, deprecated)
pub fn registry(v2: bool, at: &[(&str, bool)], tpl: &[(&str, bool)], me: &[(&str, bool)], ev: &[(&str, bool)]) -> Arc<VersionedRegistry> {
    let dep = |d: bool| if d { json!({"reason": "obsoleted", "note": "n"}) } else { Value::Null };
    Arc::new(if v2 {
        let a = |n: &str, ty: &str, d: bool| json!({"key": n, "type": ty, "brief": "b", "note": "", "stability": "stable", "deprecated": dep(d)});
        let attrs: Vec<Value> = at.iter().map(|(n, d)| a(n, "string", *d)).chain(tpl.iter().map(|(n, d)| a(n, "template[string]", *d))).collect();
        let m: Vec<Value> = me.iter().map(|(n, d)| json!({"name": n, "instrument": "counter", "unit": "s", "attributes": [], "brief": "b", "note": "", "stability": "stable", "deprecated": dep(*d)})).collect();
        let e: Vec<Value> = ev.iter().map(|(n, d)| json!({"name": n, "attributes": [], "brief": "b", "note": "", "stability": "stable", "deprecated": dep(*d)})).collect();
        let v = json!({"schema_url": "https://example.com/1.0.0", "registry": {"attributes": attrs, "attribute_groups": [], "metrics": m, "spans": [], "events": e, "entities": []},
            "refinements": {"metrics": [], "spans": [], "events": [], "entities": []}, "dependencies": []});
        VersionedRegistry::V2(Box::new(serde_json::from_value(v).expect("v2 registry")))
    } else {
        let a = |n: &str, ty: &str, d: bool| json!({"name": n, "type": ty, "brief": "b", "requirement_level": "recommended", "stability": "stable", "deprecated": dep(d)});
        let attrs: Vec<Value> = at.iter().map(|(n, d)| a(n, "string", *d)).chain(tpl.iter().map(|(n, d)| a(n, "template[string]", *d))).collect();
        let g = |id: String, ty: &str, d: bool| json!({"id": id, "type": ty, "brief": "b", "note": "", "prefix": "", "stability": "stable", "deprecated": dep(d), "attributes": [], "events": [], "is_v2": false});
        let mut groups = vec![];
        let mut first = g("registry.a".into(), "attribute_group", false);
        first["attributes"] = Value::Array(attrs);
        groups.push(first);
        for (n, d) in me {
            let mut x = g(format!("metric.{n}"), "metric", *d);
            x["metric_name"] = json!(n);
            x["instrument"] = json!("counter");
            x["unit"] = json!("s");
            groups.push(x);
        }
        for (n, d) in ev {
            let mut x = g(format!("event.{n}"), "event", *d);
            x["name"] = json!(n);
            groups.push(x);
        }
        let v = json!({"registry_url": "https://example.com", "groups": groups});
        VersionedRegistry::V1(Box::new(serde_json::from_value(v).expect("v1 registry")))
    })
}
