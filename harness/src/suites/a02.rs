//! The catalog: every reference is valid and means the attribute its group declares; nothing is listed twice.
use crate::ensure;
use crate::gen::{canon, registry, FIELDS};
use crate::reg::{resolve, Scratch};
use crate::rng::Rng;
use crate::{Fail, Suite, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_resolved_schema::v2;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "resolved-catalog", total: None, run: catalog }]
}

fn catalog(rng: &mut Rng, _: u64) -> R {
    let reg = registry(rng, true);
    let input = || json!({"registry.yaml": reg.file});
    let sc = Scratch::new();
    sc.write("registry.yaml", &reg.file);
    let (schema, _) = match resolve(&sc.0, "https://example.com/reg/1.0.0") {
        Ok(x) => x,
        Err(e) => return Err(Fail { input: input(), msg: format!("a valid registry did not resolve: {e}") }),
    };
    let s = schema.as_v1().expect("v1").clone();
    let cat: Vec<_> = s.catalog.attributes().cloned().collect();
    for (i, a) in cat.iter().enumerate() {
        ensure!(!cat[..i].contains(a), input(), "attribute {} is listed twice in the catalog", a.name);
        ensure!(i == 0 || cat[i - 1] <= *a, input(), "the catalog is not sorted at {}", a.name);
    }
    let ids: Vec<&String> = s.registry.groups.iter().map(|g| &g.id).collect();
    ensure!(ids.windows(2).all(|w| w[0] <= w[1]), input(), "groups are not sorted by id: {ids:?}");
    let want: BTreeSet<&String> = reg.groups.iter().map(|g| &g.id).collect();
    let got: BTreeSet<&String> = ids.iter().copied().filter(|i| *i != "registry.defs").collect();
    ensure!(want == got && ids.len() == want.len() + 1, input(), "groups {ids:?}, expected {want:?}");
    let mut used = BTreeSet::new();
    for g in &s.registry.groups {
        let mut have: BTreeMap<String, Value> = BTreeMap::new();
        for r in &g.attributes {
            let Some(a) = s.catalog.attribute(r) else { return Err(Fail { input: input(), msg: format!("{}: reference {} is not in the catalog", g.id, r.0) }) };
            let _ = used.insert(r.0);
            ensure!(have.insert(a.name.clone(), serde_json::to_value(a).unwrap()).is_none(), input(), "{}: {} twice", g.id, a.name);
        }
        let exp = match reg.groups.iter().find(|x| x.id == g.id) {
            Some(x) => &x.attrs,
            None => &reg.roots,
        };
        ensure!(have.keys().collect::<Vec<_>>() == exp.keys().collect::<Vec<_>>(), input(), "{}: attributes {:?}, expected {:?}", g.id, have.keys(), exp.keys());
        for (id, spec) in exp {
            for f in FIELDS.iter().chain(&["type"]) {
                let (x, y) = (have[id].get(*f).cloned().unwrap_or(Value::Null), canon(f, spec.get(*f)));
                ensure!(x == y, input(), "{}: {id}: `{f}` is {x}, expected {y}", g.id);
            }
        }
    }
    ensure!(used.len() == cat.len(), input(), "{} of {} catalog attributes are used by some group", used.len(), cat.len());
    // the second format: the same attributes, without what belongs to the group
    let v: v2::ResolvedTelemetrySchema = match s.clone().try_into() {
        Ok(v) => v,
        Err(e) => return Err(Fail { input: input(), msg: format!("conversion failed: {e}") }),
    };
    let c2 = &v.attribute_catalog;
    for (i, a) in c2.iter().enumerate() {
        ensure!(!c2[..i].contains(a), input(), "attribute {} is listed twice in the v2 catalog", a.key);
    }
    let mut lists: Vec<(String, Vec<(u32, Value)>)> = vec![];
    let rl = |x: &dyn erased::Ser| x.val();
    for x in &v.refinements.spans {
        lists.push((format!("span.{}", x.id), x.span.attributes.iter().map(|a| (a.base.0, rl(&a.requirement_level))).collect()));
    }
    for x in &v.refinements.metrics {
        lists.push((x.id.to_string(), x.metric.attributes.iter().map(|a| (a.base.0, rl(&a.requirement_level))).collect()));
    }
    for x in &v.refinements.events {
        lists.push((x.id.to_string(), x.event.attributes.iter().map(|a| (a.base.0, rl(&a.requirement_level))).collect()));
    }
    for x in &v.refinements.entities {
        lists.push((x.id.to_string(), x.entity.identity.iter().chain(&x.entity.description).map(|a| (a.base.0, rl(&a.requirement_level))).collect()));
    }
    let mut seen = 0;
    for g in &reg.groups {
        let key = match (g.kind, g.parent) {
            ("attribute_group", _) => continue,
            ("span", _) => format!("span.{}", &g.id["span.".len()..]),
            ("metric", None) => g.spec["metric_name"].as_str().unwrap().to_owned(),
            (_, None) => g.spec["name"].as_str().unwrap().to_owned(),
            (k, _) => g.id[k.len() + 1..].to_owned(),
        };
        seen += 1;
        let Some((_, l)) = lists.iter().find(|(k, _)| *k == key) else { return Err(Fail { input: input(), msg: format!("{} is missing from the v2 refinements", g.id) }) };
        let mut have: BTreeMap<String, Value> = BTreeMap::new();
        for (r, level) in l {
            let Some(a) = c2.get(*r as usize) else { return Err(Fail { input: input(), msg: format!("{}: v2 reference {r} is not in the catalog", g.id) }) };
            let mut j = serde_json::to_value(a).unwrap();
            j["requirement_level"] = level.clone();
            ensure!(have.insert(a.key.clone(), j).is_none(), input(), "{}: {} twice", g.id, a.key);
        }
        ensure!(have.keys().collect::<Vec<_>>() == g.attrs.keys().collect::<Vec<_>>(), input(), "{}: v2 attributes {:?}, expected {:?}", g.id, have.keys(), g.attrs.keys());
        for (id, spec) in &g.attrs {
            for f in ["brief", "note", "requirement_level", "stability", "deprecated", "annotations", "examples", "type"] {
                let (mut x, mut y) = (have[id].get(f).cloned().unwrap_or(Value::Null), canon(f, spec.get(f)));
                if f == "stability" && y.is_null() {
                    y = json!("development");
                }
                if f == "annotations" {
                    for z in [&mut x, &mut y] {
                        if *z == json!({}) {
                            *z = Value::Null;
                        }
                    }
                }
                ensure!(x == y, input(), "{}: v2 {id}: `{f}` is {x}, expected {y}", g.id);
            }
        }
    }
    ensure!(seen == lists.len(), input(), "{} signals in v2, expected {seen}", lists.len());
    Ok(())
}

mod erased {
    pub trait Ser {
        fn val(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> Ser for T {
        fn val(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}
