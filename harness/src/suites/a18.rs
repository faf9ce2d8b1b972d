//! A definition of the newer format becomes one group that says the same.
use crate::ensure;
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use weaver_semconv::group::GroupSpec;
use weaver_semconv::semconv::Versioned;
use weaver_semconv::v2::SemConvSpecV2;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "conversion", total: None, run }]
}

fn clean(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null() && *v != json!([]) && *v != json!("") && *v != json!({})).map(|(k, v)| (k, clean(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(clean).collect()),
        v => v,
    }
}
fn shown(g: &GroupSpec) -> Value {
    let mut v = serde_json::to_value(g).unwrap();
    v["v2"] = json!(g.is_v2);
    v["includes"] = json!(g.include_groups);
    v["visibility"] = json!(g.visibility);
    v["span_name"] = json!(g.span_name);
    v["level"] = json!(g.requirement_level);
    clean(v)
}

fn word(r: &mut Rng) -> String {
    r.pick(&["a", "b.c", "metric.x", "span.a", "d", "entity.e", "x_y"]).to_string()
}
/// fields every definition may have; those of a refinement are all optional
fn common(r: &mut Rng, o: &mut Value, must: bool) {
    if must || r.flip() { o["brief"] = json!(format!("brief {}", word(r))); }
    if r.flip() { o["note"] = json!(format!("note {}", word(r))); }
    if must || r.flip() { o["stability"] = json!(*r.pick(&["stable", "development", "alpha", "release_candidate"])); }
    if r.chance(1, 3) { o["deprecated"] = r.pick(&[json!({"reason": "obsoleted", "note": "gone"}), json!({"reason": "renamed", "renamed_to": "z", "note": "now z"})]).clone(); }
    if r.chance(1, 3) { o["annotations"] = json!({"k": word(r), "l": [1, {"m": true}]}); }
}
const COMMON: &[&str] = &["brief", "note", "stability", "deprecated", "annotations"];
fn copy(from: &Value, to: &mut Value, ks: &[&str]) {
    for k in ks {
        to[*k] = from[*k].clone();
    }
}
/// an attribute reference, and what it becomes
fn aref(r: &mut Rng, span: bool, role: Option<&str>) -> (Value, Value) {
    let mut o = json!({"ref": word(r)});
    common(r, &mut o, false);
    if r.chance(1, 3) { o["examples"] = r.pick(&[json!("x"), json!([1, 2]), json!(true)]).clone(); }
    if r.flip() { o["requirement_level"] = r.pick(&[json!("required"), json!("opt_in"), json!({"conditionally_required": "if so"})]).clone(); }
    let mut w = o.clone();
    if span && r.flip() {
        let b = r.flip();
        o["sampling_relevant"] = json!(b);
        w["sampling_relevant"] = json!(b);
    }
    if let Some(x) = role { w["role"] = json!(x); }
    (o, w)
}
/// a list of attributes and groups, the attributes of it, the groups of it
fn list(r: &mut Rng, span: bool) -> (Value, Value, Value) {
    let (mut l, mut a, mut g) = (vec![], vec![], vec![]);
    for _ in 0..r.below(4) {
        if r.chance(1, 3) {
            let w = word(r);
            l.push(json!({"ref_group": w}));
            g.push(json!(w));
        } else {
            let (x, y) = aref(r, span, None);
            l.push(x);
            a.push(y);
        }
    }
    (json!(l), json!(a), json!(g))
}

fn run(r: &mut Rng, _: u64) -> R {
    let mut o = json!({});
    let mut want: Vec<Value> = vec![];
    let mut defs = vec![];
    for _ in 0..r.below(3) {
        let mut a = json!({"key": word(r), "type": r.pick(&[json!("string"), json!("int[]"), json!("template[string]"), json!({"members": [{"id": "m", "value": "m", "stability": "stable"}]})]).clone()});
        common(r, &mut a, true);
        if r.flip() { a["examples"] = json!(["x"]); }
        let mut w = a.clone();
        w["id"] = w["key"].take();
        w["requirement_level"] = json!("recommended");
        defs.push(w);
        if o["attributes"].is_null() { o["attributes"] = json!([]); }
        o["attributes"].as_array_mut().unwrap().push(a);
    }
    if !defs.is_empty() {
        want.push(json!({"id": "registry.the_file", "type": "attribute_group", "brief": "<synthetic v2>", "attributes": defs, "v2": true}));
    }
    for _ in 0..r.below(6) {
        let kind = *r.pick(&["metric", "span", "event", "entity"]);
        let refine = r.chance(1, 3);
        let n = word(r);
        let mut g = json!({});
        common(r, &mut g, !refine);
        let mut w = json!({"type": kind, "v2": true});
        copy(&g, &mut w, COMMON);
        let name_key = if matches!(kind, "metric" | "event") { "name" } else { "type" };
        if refine {
            let b = word(r);
            g["id"] = json!(n);
            g["ref"] = json!(b);
            w["id"] = json!(n);
            w["extends"] = json!(format!("{kind}.{b}"));
            if kind != "metric" { w["name"] = json!(n); }
        } else {
            g[name_key] = json!(n);
            w["id"] = json!(format!("{kind}.{n}"));
            w[if kind == "metric" { "metric_name" } else { "name" }] = json!(n);
            if r.flip() {
                let l = r.pick(&[json!("recommended"), json!("opt_in")]).clone();
                g["requirement_level"] = l.clone();
                w["level"] = l;
            }
        }
        match kind {
            "metric" if !refine => {
                let (i, u) = (*r.pick(&["counter", "gauge", "histogram", "updowncounter"]), *r.pick(&["1", "By", "s"]));
                for x in [&mut g, &mut w] {
                    x["instrument"] = json!(i);
                    x["unit"] = json!(u);
                }
            }
            "span" => {
                if !refine {
                    let k = *r.pick(&["client", "server", "internal"]);
                    g["kind"] = json!(k);
                    w["span_kind"] = json!(k);
                }
                if !refine || r.flip() {
                    let s = json!({"note": word(r)});
                    g["name"] = s.clone();
                    w["span_name"] = s;
                }
            }
            _ => {}
        }
        if kind == "entity" {
            let (mut id, mut de, mut all) = (vec![], vec![], vec![]);
            for _ in 0..r.below(3) {
                let (x, y) = aref(r, false, Some("identifying"));
                id.push(x);
                all.push(y);
            }
            for _ in 0..r.below(3) {
                let (x, y) = aref(r, false, Some("descriptive"));
                de.push(x);
                all.push(y);
            }
            g["identity"] = json!(id);
            g["description"] = json!(de);
            w["attributes"] = json!(all);
        } else {
            let (l, a, i) = list(r, kind == "span");
            g["attributes"] = l;
            w["attributes"] = a;
            w["includes"] = i;
            if r.chance(1, 3) {
                let e = json!(["e", {"one_of": ["f", {"all_of": ["g"]}]}]);
                g["entity_associations"] = e.clone();
                w["entity_associations"] = e;
            }
        }
        let key = match (kind, refine) { ("entity", false) => "entities".to_owned(), (k, false) => format!("{k}s"), (k, true) => format!("{k}_refinements") };
        if o[&key].is_null() { o[&key] = json!([]); }
        o[&key].as_array_mut().unwrap().push(g);
        want.push(w);
    }
    for _ in 0..r.below(3) {
        let n = word(r);
        let (l, a, i) = list(r, false);
        let mut g = json!({"id": n, "attributes": l});
        let mut w = json!({"id": n, "type": "attribute_group", "attributes": a, "includes": i, "v2": true});
        if r.flip() {
            g["visibility"] = json!("internal");
            w["brief"] = json!(n);
        } else {
            g["visibility"] = json!("public");
            common(r, &mut g, true);
            copy(&g, &mut w, COMMON);
        }
        w["visibility"] = g["visibility"].clone();
        if o["attribute_groups"].is_null() { o["attribute_groups"] = json!([]); }
        o["attribute_groups"].as_array_mut().unwrap().push(g);
        want.push(w);
    }
    if r.flip() {
        o["imports"] = json!({"metrics": ["a.*"], "spans": ["b"]});
    }
    let spec: SemConvSpecV2 = match serde_json::from_value(o.clone()) {
        Ok(s) => s,
        Err(e) => { ensure!(false, json!({"input": o, "error": e.to_string()}), "the file is read"); return Ok(()); }
    };
    let v1 = Versioned::V2(spec).into_v1("the_file");
    let imports = clean(serde_json::to_value(v1.imports()).unwrap());
    ensure!(imports == clean(o["imports"].clone()), json!({"input": o, "imports": imports}), "the imports are those of the file");
    let mut got: Vec<String> = v1.groups().iter().map(|g| shown(g).to_string()).collect();
    let mut want: Vec<String> = want.into_iter().map(|w| clean(w).to_string()).collect();
    got.sort();
    want.sort();
    let extra: Vec<&String> = got.iter().filter(|g| !want.contains(g)).collect();
    let missing: Vec<&String> = want.iter().filter(|g| !got.contains(g)).collect();
    ensure!(got == want, json!({"input": o, "made": extra, "expected": missing}), "every definition is one group that says the same");
    Ok(())
}
