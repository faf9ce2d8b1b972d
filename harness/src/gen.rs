//! Random registries with signals of every kind, and what they should resolve to.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub type Spec = Map<String, Value>;
pub const KINDS: [&str; 5] = ["attribute_group", "span", "metric", "event", "entity"];

/// A group and the attributes it should have, each with all its fields.
pub struct GGroup {
    pub id: String,
    pub kind: &'static str,
    pub parent: Option<usize>,
    pub attrs: BTreeMap<String, Spec>,
    pub spec: Value,
}
pub struct GReg {
    pub file: Value,
    pub roots: BTreeMap<String, Spec>,
    pub groups: Vec<GGroup>,
}

pub fn canon(f: &str, v: Option<&Value>) -> Value {
    match (f, v) {
        ("requirement_level", None) => json!("recommended"),
        ("brief" | "note", Some(Value::String(x))) if x.is_empty() => Value::Null,
        (_, None) => Value::Null,
        (_, Some(v)) => v.clone(),
    }
}

pub const FIELDS: [&str; 8] = ["brief", "note", "requirement_level", "stability", "deprecated", "annotations", "examples", "role"];
/// few values, so that two attributes are often the same or almost the same
fn value(rng: &mut Rng, f: &str) -> Value {
    match f {
        "brief" => json!(*rng.pick(&["b0", "b1", "b2"])),
        "note" => json!(*rng.pick(&["n0", "n1"])),
        "requirement_level" => rng.pick(&[json!("required"), json!("recommended"), json!("opt_in"), json!({"recommended": "x"})]).clone(),
        "stability" => json!(*rng.pick(&["stable", "development", "alpha"])),
        "deprecated" => rng.pick(&[json!({"reason": "obsoleted", "note": "o"}), json!({"reason": "uncategorized", "note": "u"})]).clone(),
        "annotations" => rng.pick(&[json!({"a": 1}), json!({"a": 2}), json!({})]).clone(),
        "examples" => rng.pick(&[json!(["e0"]), json!(["e1", "e2"])]).clone(),
        _ => json!(*rng.pick(&["identifying", "descriptive"])),
    }
}

fn fields(rng: &mut Rng, p: (usize, usize)) -> Spec {
    let mut m = Map::new();
    for f in FIELDS {
        if rng.chance(p.0, p.1) {
            let _ = m.insert(f.to_owned(), value(rng, f));
        }
    }
    m
}

fn over(child: &Spec, parent: &Spec) -> Spec {
    let mut r = parent.clone();
    for (k, v) in child {
        let _ = r.insert(k.clone(), v.clone());
    }
    r
}

/// `refine`: groups may extend earlier groups of their kind
pub fn registry(rng: &mut Rng, refine: bool) -> GReg {
    let n_root = rng.range(1, 5);
    let mut roots: BTreeMap<String, Spec> = BTreeMap::new();
    for i in 0..n_root {
        let mut s = fields(rng, (1, 3));
        let _ = s.remove("requirement_level");
        let _ = s.remove("role");
        let _ = s.entry("brief").or_insert(json!("b0"));
        let _ = s.insert("type".into(), json!(*rng.pick(&["string", "int", "boolean", "string[]"])));
        if s["type"] != json!("string") {
            let _ = s.remove("examples");
        }
        let _ = roots.insert(format!("k{}.a{i}", rng.below(3)), s);
    }
    let defs: Vec<Value> = roots
        .iter()
        .map(|(id, s)| {
            let mut m = s.clone();
            let _ = m.insert("id".into(), json!(id));
            Value::Object(m)
        })
        .collect();
    let mut groups = vec![];
    let n = rng.range(1, 7);
    for i in 0..n {
        let kind = *rng.pick(&KINDS);
        let mut own: BTreeMap<String, Spec> = BTreeMap::new();
        for (id, root) in &roots {
            if rng.chance(1, 2) {
                let mut s = fields(rng, (1, 6));
                if root["type"] != json!("string") {
                    let _ = s.remove("examples");
                }
                if kind != "entity" {
                    let _ = s.remove("role");
                } else {
                    let _ = s.entry("role").or_insert(json!("identifying"));
                }
                let _ = own.insert(id.clone(), s);
            }
        }
        if kind == "entity" && own.is_empty() {
            let _ = own.insert(roots.keys().next().unwrap().clone(), json!({"role": "identifying"}).as_object().unwrap().clone());
        }
        let parent = if refine && rng.flip() { (0..i).filter(|j| { let g: &GGroup = &groups[*j]; g.kind_is(kind) }).max() } else { None };
        let id = format!("{kind}.x{}{i}", rng.below(10));
        let mut g = json!({"id": id, "type": kind, "brief": format!("{} brief", rng.below(3)), "stability": "stable"});
        match kind {
            "span" => g["span_kind"] = json!(*rng.pick(&["client", "server", "internal"])),
            "metric" => {
                g["metric_name"] = json!(format!("m.{i}"));
                g["instrument"] = json!(*rng.pick(&["counter", "gauge", "histogram"]));
                g["unit"] = json!("1");
            }
            "event" => g["name"] = json!(format!("ev.{i}")),
            "entity" => g["name"] = json!(format!("ent.{i}")),
            _ => {}
        }
        for f in ["note", "deprecated", "annotations"] {
            if rng.chance(1, 3) {
                g[f] = value(rng, f);
            }
        }
        let mut at: Vec<Value> = own
            .iter()
            .map(|(id, s)| {
                let mut m = s.clone();
                let _ = m.insert("ref".into(), json!(id));
                Value::Object(m)
            })
            .collect();
        rng.shuffle(&mut at);
        g["attributes"] = json!(at);
        let mut attrs: BTreeMap<String, Spec> = BTreeMap::new();
        if let Some(p) = parent {
            let p: &GGroup = &groups[p];
            g["extends"] = json!(p.id);
            attrs = p.attrs.clone();
        }
        for (id, s) in &own {
            let base = attrs.get(id).unwrap_or(&roots[id]);
            let v = over(s, base);
            let _ = attrs.insert(id.clone(), v);
        }
        groups.push(GGroup { id, kind, parent, attrs, spec: g });
    }
    let mut all = vec![json!({"id": "registry.defs", "type": "attribute_group", "brief": "d", "attributes": defs})];
    all.extend(groups.iter().map(|g| g.spec.clone()));
    rng.shuffle(&mut all);
    GReg { file: json!({"groups": all}), roots, groups }
}

impl GGroup {
    fn kind_is(&self, k: &str) -> bool {
        self.kind == k
    }
}
