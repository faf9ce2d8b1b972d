//! Conversion of a resolved registry to the second format: nothing lost, nothing invented.
use crate::ensure;
use crate::rng::Rng;
use crate::{Fail, Suite, R};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use weaver_resolved_schema::attribute::Attribute;
use weaver_resolved_schema::catalog::{Catalog, RootAttribute};
use weaver_resolved_schema::lineage::{AttributeLineage, GroupLineage};
use weaver_resolved_schema::registry::{Group, Registry};
use weaver_resolved_schema::v2::{self, convert_v1_to_v2, provenance::Provenance};
use weaver_semconv::group::GroupType;
use weaver_semconv::schema_url::SchemaUrl;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "v1-to-v2", total: None, run: convert }]
}

const ME: &str = "https://me.io/reg/1.0.0";
const URLS: [&str; 5] = ["https://a.io/x/1.0.0", "https://b.io/y/2.0.0", "https://c.io/z/1.2.0", ME, "https://d.io/unlisted/1.0.0"];
const NAMES: [&str; 4] = ["host", "svc", "entity.host", "db.client"];

struct Q<'a> {
    groups: &'a [Value],
    lin: &'a [Option<Lin>],
    roots: &'a BTreeMap<String, String>,
    deps: &'a [&'a str],
    attrs: &'a [Value],
}
#[derive(Clone)]
struct Lin {
    url: String,
    path: String,
    extends: Option<String>,
    ext_type: Option<String>,
    attrs: BTreeMap<String, String>,
}

fn s<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(|x| x.as_str())
}
fn strip(p: &str, id: &str) -> String {
    id.strip_prefix(p).unwrap_or(id).to_owned()
}

impl Q<'_> {
    /// (dependency number, path)
    fn prov(&self, k: usize) -> Value {
        match &self.lin[k] {
            None => json!([null, ""]),
            Some(l) => {
                let d = if l.url == ME { None } else { self.deps.iter().position(|d| *d == l.url) };
                json!([d, l.path])
            }
        }
    }
    fn attr_prov(&self, name: &str) -> Value {
        for (k, g) in self.groups.iter().enumerate() {
            if let Some(l) = &self.lin[k] {
                if l.attrs.get(name).map(String::as_str) == s(g, "id") {
                    return self.prov(k);
                }
            }
        }
        if let Some(src) = self.roots.get(name) {
            if let Some(k) = self.groups.iter().position(|g| s(g, "id") == Some(src)) {
                return self.prov(k);
            }
            if let Some(n) = src.strip_prefix("v2_dependency.") {
                let d = self.deps.iter().position(|d| d.strip_prefix("https://").unwrap().rsplit_once('/').unwrap().0 == n);
                return json!([d, ""]);
            }
        }
        json!([null, ""])
    }
    fn refines(&self, k: usize) -> bool {
        self.lin[k].as_ref().is_some_and(|l| l.ext_type.as_deref() == s(&self.groups[k], "type"))
    }
    fn etype(&self, k: usize) -> String {
        let g = &self.groups[k];
        s(g, "name").map(str::to_owned).unwrap_or_else(|| strip("entity.", s(g, "id").unwrap()))
    }
    /// the catalog entry of an attribute
    fn cat(&self, a: &Value) -> Value {
        json!({"key": a["name"], "type": a["type"], "brief": a.get("brief").cloned().unwrap_or(json!("")), "note": a.get("note").cloned().unwrap_or(json!("")), "examples": a.get("examples").cloned().unwrap_or(Value::Null),
            "stability": a.get("stability").cloned().unwrap_or(json!("development")), "deprecated": a.get("deprecated").cloned().unwrap_or(Value::Null), "annotations": a.get("annotations").cloned().unwrap_or(json!({})), "prov": self.attr_prov(s(a, "name").unwrap())})
    }
    fn list(&self, k: usize, keep: impl Fn(&Value) -> bool, sampling: bool) -> Value {
        let l: Vec<Value> = self.groups[k]["attributes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|r| &self.attrs[r.as_u64().unwrap() as usize])
            .filter(|a| keep(a))
            .map(|a| {
                let mut v = json!({"attr": self.cat(a), "level": a["requirement_level"]});
                if sampling {
                    v["sampling_relevant"] = a.get("sampling_relevant").cloned().unwrap_or(Value::Null);
                }
                v
            })
            .collect();
        json!(l)
    }
    fn common(&self, k: usize) -> Value {
        let g = &self.groups[k];
        json!({"brief": g["brief"], "note": g.get("note").cloned().unwrap_or(json!("")), "stability": g.get("stability").cloned().unwrap_or(json!("development")), "deprecated": g.get("deprecated").cloned().unwrap_or(Value::Null),
            "annotations": g.get("annotations").cloned().unwrap_or(json!({})), "prov": self.prov(k), "level": g.get("requirement_level").cloned().unwrap_or(Value::Null)})
    }
}

fn assoc(rng: &mut Rng, depth: usize) -> Value {
    if depth > 0 && rng.chance(1, 3) {
        let n = rng.below(3);
        let l: Vec<Value> = (0..n).map(|_| assoc(rng, depth - 1)).collect();
        if rng.flip() {
            json!({ "one_of": l })
        } else {
            json!({ "all_of": l })
        }
    } else {
        json!(*rng.pick(&NAMES))
    }
}

/// the association with its names resolved; `None` if a name is not defined anywhere
fn exp_assoc(a: &Value, f: &dyn Fn(&str) -> Option<Value>) -> Option<Value> {
    match a {
        Value::String(n) => f(n),
        Value::Array(l) => l.iter().map(|x| exp_assoc(x, f)).collect::<Option<Vec<_>>>().map(|x| json!(x)),
        Value::Object(m) => {
            let (k, v) = m.iter().next().unwrap();
            Some(json!({ k: exp_assoc(v, f)? }))
        }
        _ => None,
    }
}

fn prov_of(p: &Provenance) -> Value {
    json!([p.source.map(|d| d.0), p.path])
}
fn cf(c: &weaver_semconv::v2::CommonFields, p: &Provenance, level: Value) -> Value {
    let j = serde_json::to_value(&c.annotations).unwrap();
    json!({"brief": c.brief, "note": c.note, "stability": c.stability, "deprecated": c.deprecated, "annotations": j, "prov": prov_of(p), "level": level})
}
fn got_assoc(a: &[v2::entity::EntityAssociation]) -> Value {
    use v2::entity::EntityAssociation as E;
    json!(a
        .iter()
        .map(|x| match x {
            E::Ref(r) => json!([r.r#type.to_string(), prov_of(&r.provenance)]),
            E::OneOf { one_of } => json!({"one_of": got_assoc(one_of)}),
            E::AllOf { all_of } => json!({"all_of": got_assoc(all_of)}),
        })
        .collect::<Vec<_>>())
}
fn got_attr(a: &v2::attribute::Attribute) -> Value {
    json!({"key": a.key, "type": a.r#type, "brief": a.common.brief, "note": a.common.note, "examples": a.examples, "stability": a.common.stability, "deprecated": a.common.deprecated, "annotations": a.common.annotations, "prov": prov_of(&a.provenance)})
}

fn convert(rng: &mut Rng, _: u64) -> R {
    let mut deps: Vec<&str> = URLS[..3].iter().copied().filter(|_| rng.chance(2, 3)).collect();
    if rng.chance(1, 6) {
        deps.push(ME);
    }
    // attributes; some are equal but for what the second format drops
    let n_attr = rng.range(1, 6);
    let mut attrs: Vec<Value> = vec![];
    for _ in 0..n_attr {
        let mut a = json!({"name": format!("k.a{}", rng.below(3)), "type": *rng.pick(&["string", "int"]), "brief": *rng.pick(&["b0", "b0", "b1"]), "requirement_level": rng.pick(&[json!("required"), json!("recommended"), json!({"recommended": "x"})]).clone()});
        if rng.chance(1, 3) {
            a["note"] = json!(*rng.pick(&["n0", "n1"]));
        }
        if rng.chance(1, 3) {
            a["stability"] = json!(*rng.pick(&["stable", "development"]));
        }
        if rng.chance(1, 4) {
            a["deprecated"] = json!({"reason": "obsoleted", "note": "o"});
        }
        if rng.chance(1, 4) {
            a["annotations"] = rng.pick(&[json!({"a": 1}), json!({})]).clone();
        }
        if rng.chance(1, 4) {
            a["examples"] = json!(["e0"]);
        }
        if rng.flip() {
            a["role"] = json!(*rng.pick(&["identifying", "descriptive"]));
        }
        if rng.chance(1, 3) {
            a["sampling_relevant"] = json!(rng.flip());
        }
        attrs.push(a);
    }
    let types = ["span", "metric", "event", "entity", "entity", "attribute_group", "metric_group", "scope", "undefined"];
    let n = rng.range(1, 7);
    let mut groups: Vec<Value> = vec![];
    let mut lin: Vec<Option<Lin>> = vec![];
    for i in 0..n {
        let t = *rng.pick(&types);
        let id = match rng.below(5) {
            0 => format!("{t}.{}", rng.pick(&NAMES)),
            1 => format!("{t}.{t}.g{i}"),
            2 => format!("g{i}"),
            3 => format!("resource.{}", rng.pick(&NAMES)),
            _ => format!("{t}.g{i}"),
        };
        let k = rng.below(4);
        let refs: Vec<usize> = (0..k).map(|_| rng.below(n_attr)).collect();
        let mut g = json!({"id": id, "type": t, "brief": format!("b{i}"), "attributes": refs});
        for (f, vals) in [
            ("note", vec![json!("n"), json!("m")]),
            ("stability", vec![json!("stable"), json!("development"), json!("beta")]),
            ("deprecated", vec![json!({"reason": "obsoleted", "note": "o"}), json!({"reason": "renamed", "note": "r", "renamed_to": "x"})]),
            ("annotations", vec![json!({"a": 1}), json!({"b": [2]})]),
            ("requirement_level", vec![json!("recommended"), json!("opt_in")]),
            ("visibility", vec![json!("public"), json!("public"), json!("internal")]),
            ("span_kind", vec![json!("client"), json!("server")]),
            ("span_name", vec![json!({"note": "sn"})]),
        ] {
            if rng.chance(2, 5) {
                g[f] = rng.pick(&vals).clone();
            }
        }
        if rng.chance(4, 5) {
            g["name"] = json!(*rng.pick(&NAMES));
        }
        if t == "metric" {
            g["metric_name"] = json!(format!("m{}", rng.below(3)));
            g["instrument"] = json!(*rng.pick(&["counter", "gauge"]));
            g["unit"] = json!(*rng.pick(&["s", "1"]));
        }
        if rng.chance(1, 3) {
            g["entity_associations"] = json!((0..rng.range(1, 2)).map(|_| assoc(rng, 2)).collect::<Vec<_>>());
        }
        lin.push(if rng.chance(3, 4) {
            let ext = rng.chance(1, 3);
            Some(Lin {
                url: (*rng.pick(&URLS)).to_owned(),
                path: format!("p{}", rng.below(3)),
                extends: if ext && rng.chance(9, 10) { Some(if i > 0 && rng.chance(3, 4) { s(&groups[rng.below(i)], "id").unwrap().to_owned() } else { format!("{t}.gone") }) } else { None },
                ext_type: if ext { Some(if rng.chance(3, 4) { t.to_owned() } else { (*rng.pick(&types)).to_owned() }) } else { None },
                attrs: (0..3).filter_map(|j| if rng.chance(1, 3) { Some((format!("k.a{j}"), if rng.flip() { id.clone() } else { "g0".to_owned() })) } else { None }).collect(),
            })
        } else {
            None
        });
        groups.push(g);
    }
    let mut roots: BTreeMap<String, String> = BTreeMap::new();
    for j in 0..3 {
        if rng.chance(2, 3) {
            let _ = roots.insert(format!("k.a{j}"), match rng.below(3) {
                0 => s(rng.pick(&groups), "id").unwrap().to_owned(),
                1 => format!("v2_dependency.{}", rng.pick(&["a.io/x", "b.io/y", "q.io/q"])),
                _ => "nowhere".to_owned(),
            });
        }
    }
    let mut origins: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for g in &groups {
        for n in NAMES {
            if rng.chance(1, 3) {
                let _ = origins.entry(s(g, "id").unwrap().to_owned()).or_default().insert(n.to_owned(), (*rng.pick(&URLS)).to_owned());
            }
        }
    }
    let input = || {
        json!({"attributes": attrs, "groups": groups, "root_attributes": roots, "dependencies": deps, "origins": origins,
        "lineage": lin.iter().map(|l| l.as_ref().map(|l| json!({"from": [l.url, l.path], "extends": l.extends, "extends_type": l.ext_type, "attributes": l.attrs}))).collect::<Vec<_>>()})
    };
    let bad = |m: String| Fail { input: input(), msg: m };

    // the real thing
    let v1: Vec<Attribute> = attrs.iter().map(|a| {
        let mut m: Map<String, Value> = a.as_object().unwrap().clone();
        let _ = m.entry("note").or_insert(json!(""));
        serde_json::from_value(Value::Object(m)).expect("attribute")
    }).collect();
    let url = |u: &str| -> SchemaUrl { u.to_owned().try_into().expect("url") };
    let mut gs: Vec<Group> = vec![];
    for (g, l) in groups.iter().zip(&lin) {
        let mut x: Group = serde_json::from_value(g.clone()).map_err(|e| bad(format!("harness: {e}")))?;
        if let Some(l) = l {
            let mut y = GroupLineage::new(weaver_semconv::provenance::Provenance::new(url(&l.url), &l.path));
            y.extends_group = l.extends.clone();
            y.extends_group_type = l.ext_type.as_ref().map(|t| serde_json::from_value::<GroupType>(json!(t)).expect("type"));
            for (a, src) in &l.attrs {
                y.add_attribute_lineage(a.clone(), AttributeLineage::new(src));
            }
            x.lineage = Some(y);
        }
        gs.push(x);
    }
    let rootm: HashMap<String, RootAttribute> = roots.iter().map(|(k, v)| (k.clone(), RootAttribute { attribute: v1[0].clone(), source_group: v.clone(), is_definition: true })).collect();
    let reg = Registry { registry_url: ME.to_owned(), groups: gs.clone(), entity_association_origins: origins.iter().map(|(k, m)| (k.clone(), m.iter().map(|(n, u)| (n.clone(), url(u))).collect())).collect() };
    let depset: BTreeSet<SchemaUrl> = deps.iter().map(|d| url(d)).collect();
    let out = convert_v1_to_v2(Catalog::new(v1, rootm), reg, depset.clone());

    // what it should be
    let q = Q { groups: &groups, lin: &lin, roots: &roots, deps: &depset.iter().map(|d| d.as_str()).collect::<Vec<_>>(), attrs: &attrs };
    let mut locals: BTreeMap<String, Value> = BTreeMap::new();
    let mut want: BTreeMap<&str, (Vec<Value>, Vec<Value>)> = BTreeMap::new();
    let mut fail: Option<String> = None;
    let mut put = |t: &'static str, refines: bool, name: &str, id: String, mut v: Value| {
        v["name"] = json!(name);
        let e = want.entry(t).or_default();
        if !refines {
            e.0.push(v.clone());
        }
        v["id"] = json!(if refines { id } else { name.to_owned() });
        e.1.push(v);
    };
    for (k, g) in groups.iter().enumerate() {
        if s(g, "type") != Some("entity") {
            continue;
        }
        let (id, r) = (s(g, "id").unwrap(), q.refines(k));
        let ty = if r {
            match &lin[k].as_ref().unwrap().extends {
                None => {
                    fail = Some(format!("{id} extends no group"));
                    continue;
                }
                Some(b) => match groups.iter().position(|x| s(x, "id") == Some(b)) {
                    Some(j) => q.etype(j),
                    None => strip("entity.", b),
                },
            }
        } else {
            q.etype(k)
        };
        let own = if r { strip("entity.", id) } else { ty.clone() };
        let ident = |a: &Value| s(a, "role") == Some("identifying");
        put("entity", r, &ty, own.clone(), json!({"c": q.common(k), "identity": q.list(k, ident, false), "description": q.list(k, |a| !ident(a), false)}));
        let _ = locals.insert(own, q.prov(k)[0].clone());
    }
    for (k, g) in groups.iter().enumerate() {
        let (id, r) = (s(g, "id").unwrap(), q.refines(k));
        let name = |n: &str| -> Option<Value> {
            match origins.get(id).and_then(|m| m.get(n)) {
                None => locals.contains_key(n).then(|| json!([n, [null, ""]])),
                Some(u) => {
                    let d = json!(q.deps.iter().position(|d| d == u));
                    Some(if locals.get(n) == Some(&d) { json!([n, [null, ""]]) } else { json!([n, [d, ""]]) })
                }
            }
        };
        let t = s(g, "type").unwrap();
        if t == "attribute_group" {
            if s(g, "visibility") == Some("public") {
                let mut c = q.common(k);
                c["level"] = Value::Null;
                put("attribute_group", false, &strip("attribute_group.", id), String::new(), json!({"c": c, "attributes": q.list(k, |_| true, false)}));
            }
            continue;
        }
        if !["span", "metric", "event"].contains(&t) {
            continue;
        }
        let Some(ea) = exp_assoc(g.get("entity_associations").unwrap_or(&json!([])), &name) else {
            fail = Some(format!("{id} is associated with an unknown entity"));
            continue;
        };
        let mut v = json!({"c": q.common(k), "attributes": q.list(k, |_| true, t == "span"), "entities": ea});
        match t {
            "span" => {
                let ext = lin[k].as_ref().and_then(|l| l.extends.clone());
                if r && ext.is_none() {
                    fail = Some(format!("{id} extends no group"));
                    continue;
                }
                v["kind"] = g.get("span_kind").cloned().unwrap_or(json!("internal"));
                v["span_name"] = g.get("span_name").cloned().unwrap_or_else(|| json!({"note": s(g, "name").unwrap_or("")}));
                put("span", r, &strip("span.", if r { ext.as_deref().unwrap() } else { id }), strip("span.", id), v);
            }
            "metric" => {
                v["instrument"] = g["instrument"].clone();
                v["unit"] = g["unit"].clone();
                put("metric", r, s(g, "metric_name").unwrap(), strip("metric.", id), v);
            }
            _ => match s(g, "name") {
                None => fail = Some(format!("event {id} has no name")),
                Some(n) => put("event", r, n, strip("event.", id), v),
            },
        }
    }
    let (cat, reg2, refi, deps2) = match (out, fail) {
        (Ok(_), Some(m)) => return Err(bad(format!("converted, although {m}"))),
        (Err(e), None) => return Err(bad(format!("refused: {e}"))),
        (Err(_), Some(_)) => return Ok(()),
        (Ok(o), None) => o,
    };
    ensure!(deps2 == depset, input(), "dependencies are {deps2:?}");
    let mut cat_got: Vec<String> = cat.iter().map(|a| got_attr(a).to_string()).collect();
    let mut cat_want: Vec<String> = attrs.iter().map(|a| q.cat(a).to_string()).collect();
    cat_got.sort();
    cat_want.sort();
    cat_want.dedup();
    ensure!(cat_got == cat_want, input(), "catalog: {cat_got:?}, expected {cat_want:?}");
    let at = |r: &v2::attribute::AttributeRef| cat.get(r.0 as usize).map(got_attr).unwrap_or(Value::Null);
    let mut got: BTreeMap<&str, (Vec<Value>, Vec<Value>)> = BTreeMap::new();
    macro_rules! list { ($l:expr) => { $l.iter().map(|a| json!({"attr": at(&a.base), "level": a.requirement_level})).collect::<Vec<_>>() } }
    let with = |mut v: Value, id: Option<String>| { if let Some(id) = id { v["id"] = json!(id); } v };
    let span = |x: &v2::span::Span| json!({"name": x.r#type.to_string(), "kind": x.kind, "span_name": x.name, "entities": got_assoc(&x.entity_associations), "c": cf(&x.common, &x.provenance, json!(x.requirement_level)),
        "attributes": x.attributes.iter().map(|a| json!({"attr": at(&a.base), "level": a.requirement_level, "sampling_relevant": a.sampling_relevant})).collect::<Vec<_>>()});
    let metric = |x: &v2::metric::Metric| json!({"name": x.name.to_string(), "instrument": x.instrument, "unit": x.unit, "entities": got_assoc(&x.entity_associations), "c": cf(&x.common, &x.provenance, json!(x.requirement_level)), "attributes": list!(x.attributes)});
    let event = |x: &v2::event::Event| json!({"name": x.name.to_string(), "entities": got_assoc(&x.entity_associations), "c": cf(&x.common, &x.provenance, json!(x.requirement_level)), "attributes": list!(x.attributes)});
    let entity = |x: &v2::entity::Entity| json!({"name": x.r#type.to_string(), "c": cf(&x.common, &x.provenance, json!(x.requirement_level)), "identity": list!(x.identity), "description": list!(x.description)});
    for x in &reg2.spans { got.entry("span").or_default().0.push(span(x)); }
    for x in &refi.spans { got.entry("span").or_default().1.push(with(span(&x.span), Some(x.id.to_string()))); }
    for x in &reg2.metrics { got.entry("metric").or_default().0.push(metric(x)); }
    for x in &refi.metrics { got.entry("metric").or_default().1.push(with(metric(&x.metric), Some(x.id.to_string()))); }
    for x in &reg2.events { got.entry("event").or_default().0.push(event(x)); }
    for x in &refi.events { got.entry("event").or_default().1.push(with(event(&x.event), Some(x.id.to_string()))); }
    for x in &reg2.entities { got.entry("entity").or_default().0.push(entity(x)); }
    for x in &refi.entities { got.entry("entity").or_default().1.push(with(entity(&x.entity), Some(x.id.to_string()))); }
    for x in &reg2.attribute_groups {
        let v = json!({"name": x.id.to_string(), "c": cf(&x.common, &x.provenance, Value::Null), "attributes": list!(x.attributes)});
        let e = got.entry("attribute_group").or_default();
        e.0.push(v.clone());
        e.1.push(with(v, Some(x.id.to_string())));
    }
    for t in ["span", "metric", "event", "entity", "attribute_group"] {
        let (w, g) = (want.get(t).cloned().unwrap_or_default(), got.get(t).cloned().unwrap_or_default());
        for (what, w, g) in [("definitions", &w.0, &g.0), ("refinements", &w.1, &g.1)] {
            ensure!(w.len() == g.len(), input(), "{} {t} {what}, expected {}", g.len(), w.len());
            for (x, y) in w.iter().zip(g) {
                ensure!(x == y, input(), "{t} {what}: {y}, expected {x}");
            }
        }
    }
    // the attributes this registry defines: those some group lists without having them from elsewhere
    let mut defs: BTreeSet<String> = BTreeSet::new();
    for (k, g) in groups.iter().enumerate() {
        for r in g["attributes"].as_array().unwrap() {
            let a = &attrs[r.as_u64().unwrap() as usize];
            if !lin[k].as_ref().is_some_and(|l| l.attrs.contains_key(s(a, "name").unwrap())) {
                let _ = defs.insert(q.cat(a).to_string());
            }
        }
    }
    ensure!(reg2.attributes.windows(2).all(|w| w[0].0 < w[1].0), input(), "attributes not in order: {:?}", reg2.attributes);
    let g: BTreeSet<String> = reg2.attributes.iter().map(|r| at(r).to_string()).collect();
    ensure!(g == defs, input(), "defined attributes: {g:?}, expected {defs:?}");
    for (g, v) in gs.iter().zip(&groups) {
        let id = v2::v2_namespace_id(g).map(|x| x.to_string());
        let (r, t, id0) = (g.lineage.as_ref().is_some_and(|l| l.extends_group_type.as_ref() == Some(&g.r#type)), s(v, "type").unwrap(), s(v, "id").unwrap());
        let w = match t {
            "span" | "attribute_group" => Some(strip(&format!("{t}."), id0)),
            "entity" | "event" | "metric" if r => Some(strip(&format!("{t}."), id0)),
            "entity" => Some(s(v, "name").map(str::to_owned).unwrap_or_else(|| strip("entity.", id0))),
            "event" => s(v, "name").map(str::to_owned),
            "metric" => s(v, "metric_name").map(str::to_owned),
            _ => None,
        };
        ensure!(id == w, input(), "{id0}: namespace id {id:?}, expected {w:?}");
    }
    Ok(())
}
