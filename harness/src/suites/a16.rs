//! Uniqueness: names that two groups carry are reported, each once, and nothing else is.
use crate::ensure;
use crate::reg::{resolve, Scratch};
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_resolver::Error;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "duplicates", total: None, run: dups }]
}

/// what the reports are about: (kind, key) -> how many reports
type Reports = BTreeMap<(&'static str, String), usize>;

/// one group as declared
struct G {
    id: String,
    ty: &'static str,
    metric: Option<String>,
    name: Option<String>,
    /// attributes it defines
    defs: Vec<String>,
    /// a refinement of the newer format
    refines: bool,
    /// the id it takes in the v2 output
    v2: Option<String>,
}
fn strip(p: &str, id: &str) -> String {
    id.strip_prefix(p).unwrap_or(id).to_owned()
}

fn dups(r: &mut Rng, _: u64) -> R {
    let s = Scratch::new();
    let nf = r.range(1, 3);
    let mut gs: Vec<G> = vec![];
    let mut inputs: Vec<Value> = vec![];
    let wide = r.flip();
    let pool = if wide { 9 } else { 4 };
    let an = |r: &mut Rng| format!("at.k{}", r.below(if wide { 12 } else { 5 }));
    let mut v2_names: BTreeSet<String> = BTreeSet::new();
    for f in 0..nf {
        if r.chance(1, 3) {
            // newer format: names are the file's own, so that refinements find one base
            let mut o = json!({"file_format": "definition/2"});
            let mut push = |k: &str, v: Value| {
                if o[k].is_null() {
                    o[k] = json!([]);
                }
                o[k].as_array_mut().unwrap().push(v);
            };
            for _ in 0..r.below(4) {
                let n = format!("n{}", r.below(pool));
                let kind = *r.pick(&["span", "metric", "event"]);
                if !v2_names.insert(format!("{kind} {n}")) {
                    continue;
                }
                let refine = r.chance(1, 2).then(|| format!("ref{}", r.below(pool)));
                match kind {
                    "span" => {
                        push("spans", json!({"type": n, "kind": "client", "name": {"note": "n"}, "brief": "b", "stability": "stable", "attributes": []}));
                        gs.push(G { id: format!("span.{n}"), ty: kind, metric: None, name: Some(n.clone()), defs: vec![], refines: false, v2: Some(n.clone()) });
                        if let Some(i) = refine {
                            push("span_refinements", json!({"id": i, "ref": n, "brief": "b", "attributes": []}));
                            gs.push(G { id: i.clone(), ty: kind, metric: None, name: Some(i.clone()), defs: vec![], refines: true, v2: Some(strip("span.", &i)) });
                        }
                    }
                    "metric" => {
                        push("metrics", json!({"name": n, "brief": "b", "unit": "1", "instrument": "counter", "stability": "stable", "attributes": []}));
                        gs.push(G { id: format!("metric.{n}"), ty: kind, metric: Some(n.clone()), name: None, defs: vec![], refines: false, v2: Some(n.clone()) });
                        if let Some(i) = refine {
                            push("metric_refinements", json!({"id": i, "ref": n, "brief": "b", "attributes": []}));
                            gs.push(G { id: i.clone(), ty: kind, metric: Some(n.clone()), name: None, defs: vec![], refines: true, v2: Some(strip("metric.", &i)) });
                        }
                    }
                    _ => {
                        push("events", json!({"name": n, "brief": "b", "stability": "stable", "attributes": []}));
                        gs.push(G { id: format!("event.{n}"), ty: kind, metric: None, name: Some(n.clone()), defs: vec![], refines: false, v2: Some(n.clone()) });
                        if let Some(i) = refine {
                            push("event_refinements", json!({"id": i, "ref": n, "brief": "b", "attributes": []}));
                            gs.push(G { id: i.clone(), ty: kind, metric: None, name: Some(n.clone()), defs: vec![], refines: true, v2: Some(strip("event.", &i)) });
                        }
                    }
                }
            }
            s.write(&format!("f{f}.yaml"), &o);
            inputs.push(o);
            continue;
        }
        let mut out: Vec<Value> = vec![];
        for _ in 0..r.range(1, 5) {
            let ty = *r.pick(&["attribute_group", "attribute_group", "span", "metric", "event", "entity"]);
            let base = format!("n{}", r.below(pool));
            let id = if r.chance(1, 3) { format!("{ty}.{base}") } else { base.clone() };
            let mut at: Vec<Value> = vec![];
            let mut defs: Vec<String> = vec![];
            for _ in 0..r.below(3) {
                let n = an(r);
                if defs.contains(&n) {
                    continue;
                }
                at.push(json!({"id": n, "type": "string", "brief": "b", "stability": "stable", "examples": ["e"]}));
                defs.push(n);
            }
            let mut g = json!({"id": id, "type": ty, "brief": "b", "stability": "stable"});
            let (mut metric, mut name) = (None, None);
            match ty {
                "span" => g["span_kind"] = json!("client"),
                "metric" => {
                    let m = format!("n{}", r.below(pool));
                    g["metric_name"] = json!(m);
                    g["unit"] = json!("1");
                    g["instrument"] = json!("counter");
                    metric = Some(m);
                }
                "event" | "entity" => {
                    let m = format!("n{}", r.below(pool));
                    g["name"] = json!(m);
                    name = Some(m);
                }
                _ => {}
            }
            if ty == "entity" {
                for a in at.iter_mut() {
                    a["role"] = json!("identifying");
                }
            }
            g["attributes"] = json!(at);
            let v2 = match ty {
                "span" => Some(strip("span.", &id)),
                "attribute_group" => Some(strip("attribute_group.", &id)),
                "metric" => metric.clone(),
                _ => name.clone(),
            };
            gs.push(G { id, ty, metric, name, defs, refines: false, v2 });
            out.push(g);
        }
        let o = json!({"groups": out});
        s.write(&format!("f{f}.yaml"), &o);
        inputs.push(o);
    }
    // a last file refers to attributes without defining them
    let all: BTreeSet<String> = gs.iter().flat_map(|g| g.defs.iter().cloned()).collect();
    if !all.is_empty() && r.flip() {
        let refs: Vec<Value> = all.iter().filter(|_| r.flip()).map(|a| json!({"ref": a})).collect();
        let o = json!({"groups": [{"id": "refs", "type": "attribute_group", "brief": "b", "stability": "stable", "attributes": refs}]});
        gs.push(G { id: "refs".into(), ty: "attribute_group", metric: None, name: None, defs: vec![], refines: false, v2: Some("refs".into()) });
        s.write("z.yaml", &o);
        inputs.push(o);
    }
    let input = json!(inputs);
    let mut want: Reports = BTreeMap::new();
    let mut count: BTreeMap<(&'static str, String), usize> = BTreeMap::new();
    let mut slots: BTreeMap<(&str, String), BTreeSet<&str>> = BTreeMap::new();
    for g in &gs {
        *count.entry(("id", g.id.clone())).or_default() += 1;
        if !g.refines {
            for (k, v) in [("metric", &g.metric), ("name", &g.name)] {
                if let Some(v) = v {
                    *count.entry((k, v.clone())).or_default() += 1;
                }
            }
        }
        if g.ty == "attribute_group" {
            for d in &g.defs {
                *count.entry(("attribute", d.clone())).or_default() += 1;
            }
        }
        if let Some(v) = &g.v2 {
            let _ = slots.entry((g.ty, v.clone())).or_default().insert(&g.id);
        }
    }
    for (k, n) in count {
        if n > 1 {
            let _ = want.insert(k, 1);
        }
    }
    for ((_, v), ids) in &slots {
        if ids.len() > 1 {
            *want.entry(("v2", v.clone())).or_default() += 1;
        }
    }
    let (_, nfe) = match resolve(&s.0, "https://e.io/main/1.0.0") {
        Ok(x) => x,
        Err(e) => {
            ensure!(false, input, "a registry whose references all have definitions does not resolve: {e}");
            return Ok(());
        }
    };
    let mut got: Reports = BTreeMap::new();
    for e in &nfe {
        let k = match e {
            Error::DuplicateGroupId { group_id, .. } => ("id", group_id.clone()),
            Error::DuplicateMetricName { metric_name, .. } => ("metric", metric_name.clone()),
            Error::DuplicateGroupName { group_name, .. } => ("name", group_name.clone()),
            Error::DuplicateAttributeId { attribute_id, group_ids } => {
                let mut ids = group_ids.clone();
                ids.sort();
                let mut w: Vec<String> = gs.iter().filter(|g| g.ty == "attribute_group" && g.defs.contains(attribute_id)).map(|g| g.id.clone()).collect();
                w.sort();
                ensure!(ids == w, input, "{attribute_id} is defined in {w:?}, and the report names {ids:?}");
                ("attribute", attribute_id.clone())
            }
            Error::CollidingV2SignalId { signal_id, group_ids, .. } => {
                let set: BTreeSet<&str> = group_ids.iter().map(|s| s.as_str()).collect();
                ensure!(set.len() == group_ids.len() && slots.iter().any(|((_, v), ids)| v == signal_id && *ids == set), input, "the ids {group_ids:?} do not all take {signal_id} in the v2 output");
                ("v2", signal_id.clone())
            }
            _ => continue,
        };
        *got.entry(k).or_default() += 1;
    }
    ensure!(got == want, input, "the names that are not unique are {want:?}, and the reports are about {got:?}");
    Ok(())
}
