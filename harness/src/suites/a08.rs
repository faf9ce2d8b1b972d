//! A08: live check reports exactly how a sample departs from the model.
//!
//! A model is described once and built as a registry of either format; what
//! live check stores on every part of a sample is compared with what the
//! description says about it.
use crate::live::{nodes, rank, sample_of};
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::Arc;
use weaver_live_check::advice::{Advisor, DeprecatedAdvisor, EnumAdvisor, StabilityAdvisor, TypeAdvisor};
use weaver_live_check::live_checker::LiveChecker;
use weaver_live_check::sample_resource::SampleResource;
use weaver_forge::v2::{attribute::Attribute as V2Attribute, entity::EntityAttribute, event::EventAttribute, metric::MetricAttribute, registry::ForgeResolvedRegistry};
use weaver_semconv::attribute::RequirementLevel;
use weaver_live_check::{DisabledStatistics, LiveCheckRunner, LiveCheckStatistics, Sample, VersionedRegistry};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "model", total: None, run: case }]
}

const STAB: [&str; 5] = ["stable", "development", "alpha", "beta", "release_candidate"];
const PRIM: [&str; 9] = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any"];
const PLAIN: [&str; 6] = ["a.one", "a.two", "b.three", "b.enum", "c.int", "tpl.a.b"];
const TPL: [&str; 3] = ["tpl", "tpl.a", "t"];
const WIRE: [&str; 9] = ["a.one", "a.two", "b.enum", "c.int", "tpl.x", "tpl.a.b", "tpl.a.c", "zzz", "t2"];

#[derive(Clone, Debug)]
struct At {
    name: String,
    /// a primitive type, or the members of an enumeration
    ty: String,
    members: Option<Vec<Value>>,
    template: bool,
    stab: Option<usize>,
    dep: Option<Value>,
}
#[derive(Clone, Debug)]
struct Use {
    at: usize,
    level: Value,
}
#[derive(Clone, Debug)]
enum Assoc {
    Ref(String),
    One(Vec<Assoc>),
    All(Vec<Assoc>),
}
#[derive(Clone, Debug)]
struct Signal {
    name: String,
    instrument: &'static str,
    unit: &'static str,
    stab: Option<usize>,
    dep: Option<Value>,
    uses: Vec<Use>,
    assoc: Vec<Assoc>,
}
#[derive(Clone, Debug)]
struct Entity {
    name: String,
    identity: Vec<Use>,
    description: Vec<Use>,
}
#[derive(Clone, Debug)]
struct Model {
    v2: bool,
    attrs: Vec<At>,
    metrics: Vec<Signal>,
    events: Vec<Signal>,
    entities: Vec<Entity>,
}

fn gen_dep(r: &mut Rng) -> Option<Value> {
    match r.below(6) {
        0 => Some(json!({"reason": "obsoleted", "note": "n"})),
        1 => Some(json!({"reason": "renamed", "renamed_to": "a.new", "note": "n"})),
        2 => Some(json!({"reason": "uncategorized", "note": "n"})),
        _ => None,
    }
}
fn gen_level(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!("required"),
        1 => json!("recommended"),
        2 => json!("opt_in"),
        3 => json!({"conditionally_required": "when"}),
        4 => json!({"recommended": "why"}),
        _ => json!({"opt_in": "why"}),
    }
}
fn gen_uses(r: &mut Rng, attrs: &[At], max: usize) -> Vec<Use> {
    let mut out: Vec<Use> = vec![];
    if attrs.is_empty() {
        return out;
    }
    for _ in 0..r.below(max + 1) {
        let at = r.below(attrs.len());
        if !out.iter().any(|u| u.at == at) {
            out.push(Use { at, level: gen_level(r) });
        }
    }
    out
}
fn gen_assoc(r: &mut Rng, d: usize) -> Assoc {
    if d == 0 || r.chance(3, 5) {
        return Assoc::Ref((*r.pick(&["host", "pod", "proc", "ghost"])).to_owned());
    }
    let n = r.below(4);
    let kids = (0..n).map(|_| gen_assoc(r, d - 1)).collect();
    if r.flip() {
        Assoc::One(kids)
    } else {
        Assoc::All(kids)
    }
}
fn gen_signal(r: &mut Rng, name: &str, attrs: &[At], v2: bool) -> Signal {
    Signal {
        name: name.to_owned(),
        instrument: r.pick(&["counter", "gauge", "updowncounter", "histogram"]),
        unit: r.pick(&["s", "1", "By"]),
        stab: if v2 || r.chance(4, 5) { Some(r.below(STAB.len())) } else { None },
        dep: gen_dep(r),
        uses: gen_uses(r, attrs, 4),
        assoc: (0..r.below(3)).map(|_| gen_assoc(r, 2)).collect(),
    }
}
fn gen_model(r: &mut Rng) -> Model {
    let v2 = r.flip();
    let mut attrs = vec![];
    for (n, template) in PLAIN.iter().map(|n| (*n, false)).chain(TPL.iter().map(|n| (*n, true))) {
        if !r.chance(2, 3) {
            continue;
        }
        let members = (!template && (n == "b.enum" || r.chance(1, 6))).then(|| {
            let ints = r.flip();
            (0..r.below(3)).map(|i| if ints { json!(i) } else { json!((*r.pick(&["v", "w", "u"])).to_owned()) }).collect::<Vec<_>>()
        });
        // an enumeration without members cannot be written
        let members = members.map(|m| if m.is_empty() { vec![json!("v")] } else { m });
        let ty = if n == "c.int" { "int" } else { PRIM[r.below(PRIM.len())] };
        attrs.push(At { name: n.to_owned(), ty: ty.to_owned(), members, template, stab: if v2 || r.chance(4, 5) { Some(r.below(STAB.len())) } else { None }, dep: gen_dep(r) });
    }
    let metrics = ["m.one", "m.two"].iter().filter_map(|n| if r.chance(3, 4) { Some(gen_signal(r, n, &attrs, v2)) } else { None }).collect();
    let events = ["e.one", "e.two"].iter().filter_map(|n| if r.chance(3, 4) { Some(gen_signal(r, n, &attrs, v2)) } else { None }).collect();
    let entities = ["host", "pod", "proc"]
        .iter()
        .filter_map(|n| {
            if !r.chance(4, 5) {
                return None;
            }
            let all = gen_uses(r, &attrs, 3);
            let k = r.below(all.len() + 1);
            Some(Entity { name: (*n).to_owned(), identity: all[..k].to_vec(), description: all[k..].to_vec() })
        })
        .collect();
    Model { v2, attrs, metrics, events, entities }
}

fn ty_json(a: &At) -> Value {
    match &a.members {
        Some(m) => json!({"members": m.iter().enumerate().map(|(i, v)| json!({"id": format!("m{i}"), "value": v, "brief": null, "note": null, "stability": "stable", "deprecated": null, "annotations": null})).collect::<Vec<_>>()}),
        None if a.template => json!(format!("template[{}]", a.ty)),
        None => json!(a.ty),
    }
}
fn assoc_json(a: &Assoc, v2: bool) -> Value {
    match a {
        Assoc::Ref(n) if v2 => json!({"type": n}),
        Assoc::Ref(n) => json!(n),
        Assoc::One(k) => json!({"one_of": k.iter().map(|x| assoc_json(x, v2)).collect::<Vec<_>>()}),
        Assoc::All(k) => json!({"all_of": k.iter().map(|x| assoc_json(x, v2)).collect::<Vec<_>>()}),
    }
}
fn build(m: &Model) -> Arc<VersionedRegistry> {
    let stab = |s: &Option<usize>| s.map(|i| STAB[i]);
    let a1 = |a: &At, level: &Value| {
        json!({"name": a.name, "type": ty_json(a), "brief": "b", "requirement_level": level, "stability": stab(&a.stab), "deprecated": a.dep})
    };
    let a2 = |a: &At| json!({"key": a.name, "type": ty_json(a), "brief": "b", "note": "", "stability": stab(&a.stab), "deprecated": a.dep});
    let use1 = |u: &[Use]| u.iter().map(|u| a1(&m.attrs[u.at], &u.level)).collect::<Vec<_>>();
    let assoc = |s: &Signal| s.assoc.iter().map(|a| assoc_json(a, m.v2)).collect::<Vec<_>>();
    Arc::new(if m.v2 {
        let me: Vec<Value> = m.metrics.iter().map(|s| json!({"name": s.name, "instrument": s.instrument, "unit": s.unit, "attributes": [], "entity_associations": assoc(s), "brief": "b", "note": "", "stability": stab(&s.stab), "deprecated": s.dep})).collect();
        let ev: Vec<Value> = m.events.iter().map(|s| json!({"name": s.name, "attributes": [], "entity_associations": assoc(s), "brief": "b", "note": "", "stability": stab(&s.stab), "deprecated": s.dep})).collect();
        let en: Vec<Value> = m.entities.iter().map(|e| json!({"type": e.name, "brief": "b", "note": "", "stability": "stable"})).collect();
        let v = json!({"schema_url": "https://example.com/1.0.0",
            "registry": {"attributes": m.attrs.iter().map(a2).collect::<Vec<_>>(), "attribute_groups": [], "metrics": me, "spans": [], "events": ev, "entities": en},
            "refinements": {"metrics": [], "spans": [], "events": [], "entities": []}, "dependencies": []});
        let mut reg: ForgeResolvedRegistry = serde_json::from_value(v).expect("v2 registry");
        let base = |u: &Use| -> (V2Attribute, RequirementLevel) { (serde_json::from_value(a2(&m.attrs[u.at])).expect("attribute"), serde_json::from_value(u.level.clone()).expect("level")) };
        for (x, s) in reg.registry.metrics.iter_mut().zip(&m.metrics) {
            x.attributes = s.uses.iter().map(|u| base(u)).map(|(base, requirement_level)| MetricAttribute { base, requirement_level }).collect();
        }
        for (x, s) in reg.registry.events.iter_mut().zip(&m.events) {
            x.attributes = s.uses.iter().map(|u| base(u)).map(|(base, requirement_level)| EventAttribute { base, requirement_level }).collect();
        }
        let ent = |u: &[Use]| u.iter().map(|u| base(u)).map(|(base, requirement_level)| EntityAttribute { base, requirement_level }).collect();
        for (x, e) in reg.registry.entities.iter_mut().zip(&m.entities) {
            x.identity = ent(&e.identity);
            x.description = ent(&e.description);
        }
        VersionedRegistry::V2(Box::new(reg))
    } else {
        let g = |id: String, ty: &str, st: Option<&str>, dep: &Option<Value>, attrs: Vec<Value>| json!({"id": id, "type": ty, "brief": "b", "note": "", "prefix": "", "stability": st, "deprecated": dep, "attributes": attrs, "events": [], "is_v2": false});
        let mut groups = vec![g("registry.a".into(), "attribute_group", None, &None, m.attrs.iter().map(|a| a1(a, &json!("recommended"))).collect())];
        for s in &m.metrics {
            let mut x = g(format!("metric.{}", s.name), "metric", stab(&s.stab), &s.dep, use1(&s.uses));
            x["metric_name"] = json!(s.name);
            x["instrument"] = json!(s.instrument);
            x["unit"] = json!(s.unit);
            x["entity_associations"] = json!(assoc(s));
            groups.push(x);
        }
        for s in &m.events {
            let mut x = g(format!("event.{}", s.name), "event", stab(&s.stab), &s.dep, use1(&s.uses));
            x["name"] = json!(s.name);
            x["entity_associations"] = json!(assoc(s));
            groups.push(x);
        }
        for e in &m.entities {
            let all: Vec<Use> = e.identity.iter().chain(&e.description).cloned().collect();
            let mut x = g(format!("entity.{}", e.name), "entity", Some("stable"), &None, use1(&all));
            x["name"] = json!(e.name);
            groups.push(x);
        }
        let v = json!({"registry_url": "https://example.com", "groups": groups});
        VersionedRegistry::V1(Box::new(serde_json::from_value(v).expect("v1 registry")))
    })
}

fn gen_value(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => json!("v"),
        1 => json!("other"),
        2 => json!(0),
        3 => json!(7),
        4 => json!(-1),
        5 => json!(1.5),
        6 => json!(true),
        7 => json!(["x", null, "y"]),
        8 => json!([1, 2]),
        9 => json!([1, 2.5]),
        10 => json!([null, true]),
        11 => Value::Null,
        12 => json!(u64::MAX),
        _ => json!("w"),
    }
}
fn gen_attrs(r: &mut Rng) -> Value {
    let mut seen: Vec<&str> = vec![];
    let mut out = vec![];
    for _ in 0..r.below(5) {
        let n = *r.pick(&WIRE);
        if !seen.contains(&n) {
            seen.push(n);
            out.push(json!({"name": n, "value": gen_value(r)}));
        }
    }
    Value::Array(out)
}

type Find = (String, u8, Option<String>);
fn f(id: &str, level: u8, key: Option<&str>) -> Find {
    (id.to_owned(), level, key.map(str::to_owned))
}
/// the type of a value on the wire
fn wire_type(v: &Value) -> Option<&'static str> {
    match v {
        Value::Null => None,
        Value::Bool(_) => Some("boolean"),
        Value::Number(n) => Some(if n.is_f64() { "double" } else { "int" }),
        Value::String(_) => Some("string"),
        Value::Array(a) => {
            let mut el: Vec<Option<&str>> = a.iter().filter(|x| !x.is_null()).map(wire_type).collect();
            el.sort();
            el.dedup();
            match el.as_slice() {
                [Some("string")] => Some("string[]"),
                [Some("boolean")] => Some("boolean[]"),
                [Some("int")] => Some("int[]"),
                [Some("double")] | [Some("double"), Some("int")] => Some("double[]"),
                _ => unreachable!(),
            }
        }
        Value::Object(_) => unreachable!(),
    }
}
fn of_attribute(m: &Model, a: &Value) -> Vec<Find> {
    let name = a["name"].as_str().unwrap_or("");
    let plain = m.attrs.iter().find(|x| !x.template && x.name == name);
    let tpl = m.attrs.iter().filter(|x| x.template && name.starts_with(&x.name)).max_by_key(|x| x.name.len());
    let key = Some(name);
    let mut out = vec![];
    let Some(at) = plain.or(tpl) else { return vec![f("missing_attribute", 2, key)] };
    if at.template {
        out.push(f("template_attribute", 0, key));
    }
    if at.dep.is_some() {
        out.push(f("deprecated", 2, key));
    }
    if at.stab.is_some_and(|s| s != 0) {
        out.push(f("not_stable", 1, key));
    }
    let Some(w) = wire_type(&a["value"]) else { return out };
    match &at.members {
        None => {
            let t = at.ty.as_str();
            if !(t == "any" || t == w || (t, w) == ("double", "int") || (t, w) == ("double[]", "int[]")) {
                out.push(f("type_mismatch", 2, key));
            }
        }
        Some(ms) => {
            if w != "string" && w != "int" {
                out.push(f("type_mismatch", 2, key));
            } else if !ms.contains(&a["value"]) {
                out.push(f("undefined_enum_variant", 0, key));
            }
        }
    }
    out
}
/// what is missing of `uses` among the given attributes
fn missing(m: &Model, uses: &[Use], have: &Value, entity: bool) -> Vec<Find> {
    let names: Vec<&str> = have.as_array().map(|v| v.iter().filter_map(|a| a["name"].as_str()).collect()).unwrap_or_default();
    let mut out = vec![];
    for u in uses {
        let at = &m.attrs[u.at];
        let present = names.iter().any(|n| if at.template { n.starts_with(&at.name) } else { *n == at.name });
        if present {
            continue;
        }
        let text = match &u.level {
            Value::String(s) => s.clone(),
            o => o.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default(),
        };
        let l = match text.as_str() {
            "required" => 2,
            "recommended" => 1,
            _ => 0,
        };
        let id = if entity { format!("entity_{text}_attribute_not_present") } else { format!("{text}_attribute_not_present") };
        out.push((id, l, Some(at.name.clone())));
    }
    out
}
fn eval(m: &Model, a: &Assoc, res: &Value) -> (bool, Vec<Find>) {
    match a {
        Assoc::Ref(n) => match m.entities.iter().find(|e| e.name == *n) {
            None => (true, vec![]),
            Some(e) => {
                let all: Vec<Use> = e.identity.iter().chain(&e.description).cloned().collect();
                let fs = missing(m, &all, res, true);
                (!fs.iter().any(|x| x.1 == 2), fs)
            }
        },
        Assoc::One(k) => one_of(m, k, res),
        Assoc::All(k) => {
            let e: Vec<_> = k.iter().map(|x| eval(m, x, res)).collect();
            (e.iter().all(|x| x.0), e.into_iter().flat_map(|x| x.1).collect())
        }
    }
}
fn one_of(m: &Model, k: &[Assoc], res: &Value) -> (bool, Vec<Find>) {
    let e: Vec<_> = k.iter().map(|x| eval(m, x, res)).filter(|x| x.0).collect();
    if e.is_empty() {
        (false, vec![f("entity_association_not_satisfied", 2, None)])
    } else {
        (true, e.into_iter().flat_map(|x| x.1).collect())
    }
}
fn of_assoc(m: &Model, s: &Signal, res: &Value) -> Vec<Find> {
    match s.assoc.as_slice() {
        [] => vec![],
        [x] => eval(m, x, res).1,
        many => one_of(m, many, res).1,
    }
}
fn of_signal(s: Option<&Signal>, missing_id: &str) -> Vec<Find> {
    let Some(s) = s else { return vec![f(missing_id, 2, None)] };
    let mut out = vec![];
    if s.dep.is_some() {
        out.push(f("deprecated", 2, None));
    }
    if s.stab.is_some_and(|x| x != 0) {
        out.push(f("not_stable", 1, None));
    }
    out
}

fn case(r: &mut Rng, _: u64) -> R {
    let m = gen_model(r);
    let res = gen_attrs(r);
    let with_res = r.chance(3, 4);
    let none = json!([]);
    let have = if with_res { &res } else { &none };
    let mut want: Vec<(String, Vec<Find>)> = vec![];
    let on_attrs = |v: &Value, want: &mut Vec<(String, Vec<Find>)>| {
        for a in v.as_array().expect("attributes") {
            want.push(("attribute".into(), of_attribute(&m, a)));
        }
    };
    let j = match r.below(5) {
        0 => {
            let a = json!({"name": *r.pick(&WIRE), "value": gen_value(r)});
            want.push(("attribute".into(), of_attribute(&m, &a)));
            json!({"attribute": a})
        }
        1 => {
            let a = gen_attrs(r);
            want.push(("span".into(), vec![]));
            on_attrs(&a, &mut want);
            json!({"span": {"name": "x", "kind": "client", "attributes": a, "span_events": [], "span_links": []}})
        }
        2 => {
            let n = *r.pick(&["e.one", "e.two", "e.three", ""]);
            let a = gen_attrs(r);
            let s = m.events.iter().find(|s| s.name == n);
            let mut fs = if n.is_empty() { vec![] } else { of_signal(s, "missing_event") };
            if let Some(s) = s {
                fs.extend(missing(&m, &s.uses, &a, false));
                fs.extend(of_assoc(&m, s, have));
            }
            want.push(("log".into(), fs));
            on_attrs(&a, &mut want);
            json!({"log": {"event_name": n, "attributes": a}})
        }
        _ => {
            let n = *r.pick(&["m.one", "m.two", "m.three"]);
            let (inst, unit) = (*r.pick(&["counter", "gauge", "updowncounter", "histogram", "summary"]), *r.pick(&["s", "1", "By", ""]));
            let s = m.metrics.iter().find(|s| s.name == n);
            let mut fs = of_signal(s, "missing_metric");
            if let Some(s) = s {
                if inst == "summary" || inst != s.instrument {
                    fs.push(f("unexpected_instrument", 2, None));
                }
                if unit != s.unit {
                    fs.push(f("unit_mismatch", 2, None));
                }
                fs.extend(of_assoc(&m, s, have));
            }
            want.push(("metric".into(), fs));
            let kind = r.below(4);
            let mut pts = vec![];
            for _ in 0..r.range(1, 2) {
                let a = gen_attrs(r);
                let fs = s.map(|s| missing(&m, &s.uses, &a, false)).unwrap_or_default();
                want.push(("data_point".into(), fs));
                on_attrs(&a, &mut want);
                let ex = gen_attrs(r);
                want.push(("exemplar".into(), vec![]));
                on_attrs(&ex, &mut want);
                let exs = json!([{"filtered_attributes": ex, "value": 1, "timestamp": "t", "span_id": "s", "trace_id": "t"}]);
                pts.push(match kind {
                    0 | 1 => json!({"attributes": a, "value": 3, "exemplars": exs}),
                    2 => json!({"attributes": a, "count": 3, "sum": 1.5, "bucket_counts": [1], "explicit_bounds": [1.0], "exemplars": exs}),
                    _ => json!({"attributes": a, "count": 3, "scale": 1, "zero_count": 0, "exemplars": exs}),
                });
            }
            json!({"metric": {"name": n, "instrument": inst, "unit": unit, "data_points": pts}})
        }
    };
    let input = json!({"model": format!("{m:?}"), "resource": if with_res { res.clone() } else { Value::Null }, "sample": j});
    let reg = build(&m);
    let advisors: Vec<Box<dyn Advisor>> = vec![Box::new(DeprecatedAdvisor), Box::new(StabilityAdvisor), Box::new(TypeAdvisor), Box::new(EnumAdvisor)];
    let mut lc = LiveChecker::new(reg, advisors);
    let mut st = LiveCheckStatistics::Disabled(DisabledStatistics);
    let mut s = sample_of(&j);
    if with_res {
        let rs: SampleResource = serde_json::from_value(json!({"attributes": res})).expect("resource");
        match &mut s {
            Sample::Metric(x) => x.resource = Some(Rc::new(rs)),
            Sample::Log(x) => x.resource = Some(Rc::new(rs)),
            _ => {}
        }
    }
    let parent = s.clone();
    s.run_live_check(&mut lc, &mut st, None, &parent).expect("run");
    let ns = nodes(&s);
    ensure!(ns.len() == want.len(), input, "{} parts were checked, expected {}", ns.len(), want.len());
    for (n, (kind, w)) in ns.iter().zip(&want) {
        ensure!(n.entity == kind, input, "part {} where {kind} was expected", n.entity);
        let Some(res) = &n.result else {
            ensure!(false, input, "a part was not checked: {n:?}");
            unreachable!()
        };
        let mut got: Vec<Find> = res
            .all_advice
            .iter()
            .map(|x| {
                let k = x.context.as_ref().and_then(|c| c.get("attribute_key")).and_then(Value::as_str).map(str::to_owned);
                (x.id.clone(), rank(x.level), k)
            })
            .collect();
        let mut w = w.clone();
        got.sort();
        w.sort();
        ensure!(got == w, input, "the findings on {kind} {:?} are {got:?}, expected {w:?}", n.name);
        let hi = w.iter().map(|x| x.1).max();
        ensure!(res.highest_advice_level.map(rank) == hi, input, "the highest level on {kind} {:?} is {:?}", n.name, res.highest_advice_level);
    }
    Ok(())
}
