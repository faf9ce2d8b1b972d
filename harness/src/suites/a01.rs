//! Attribute inheritance: local value first, parent value otherwise, lineage in step.
use crate::ensure;
use crate::reg::{resolve, Scratch};
use crate::rng::Rng;
use crate::{Fail, Suite, R};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_resolved_schema::lineage::AttributeLineage;
use weaver_semconv::attribute::{AttributeRole, BasicRequirementLevelSpec, Examples, RequirementLevel};
use weaver_semconv::deprecated::Deprecated;
use weaver_semconv::stability::Stability;

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { name: "lineage-setters", total: Some(13 * 4 * 64 * 2), run: setters },
        Suite { name: "extends-and-refs", total: None, run: pipeline },
    ]
}

pub const FIELDS: [&str; 10] = ["brief", "examples", "tag", "requirement_level", "sampling_relevant", "note", "stability", "deprecated", "annotations", "role"];

fn lineage(g: &str, inh: &BTreeSet<String>, loc: &BTreeSet<String>) -> AttributeLineage {
    let mut l = AttributeLineage::new(g);
    l.inherited_fields = inh.clone();
    l.locally_overridden_fields = loc.clone();
    l
}

fn setters(_: &mut Rng, idx: u64) -> R {
    let which = (idx % 13) as usize;
    let lp = (idx / 13) % 4;
    let pre = (idx / 52) % 64;
    // the local value is written, but empty
    let empty = idx / 52 >= 64;
    let (l, p) = (lp & 1 == 1, lp & 2 == 2);
    let names = ["brief", "brief", "note", "note", "requirement_level", "requirement_level", "examples", "stability", "role", "deprecated", "tag", "annotations", "sampling_relevant"];
    let always = matches!(which, 0 | 2 | 4);
    let f = names[which];
    let mut inh: BTreeSet<String> = BTreeSet::new();
    let mut loc: BTreeSet<String> = BTreeSet::new();
    if pre & 1 == 1 {
        let _ = inh.insert(f.to_owned());
    }
    if pre & 2 == 2 {
        let _ = loc.insert(f.to_owned());
    }
    for (k, o) in ["tag", "note", "role", "brief"].iter().enumerate() {
        if pre & (4 << k) != 0 && *o != f {
            let _ = if k % 2 == 0 { inh.insert((*o).to_owned()) } else { loc.insert((*o).to_owned()) };
        }
    }
    let mut ln = lineage("src", &inh, &loc);
    let s = |x: &str| Some(x.to_owned());
    let ltxt = if empty { "" } else { "L" };
    let lv = |c: bool| if c { s(ltxt) } else { None };
    let pv = |c: bool| if c { s("P") } else { None };
    let ok;
    let lvl = |x: &str| RequirementLevel::Recommended { text: x.to_owned() };
    let an = |x: &str| -> BTreeMap<String, weaver_semconv::YamlValue> { serde_json::from_value(if x.is_empty() { json!({}) } else { json!({"k": x}) }).unwrap() };
    let ex = |l: bool| l.then(|| if empty { Examples::Strings(vec![]) } else { Examples::Int(1) });
    fn chk<T: PartialEq>(got: Option<T>, l: Option<T>, p: Option<T>) -> bool {
        got == if l.is_some() { l } else { p }
    }
    match which {
        0 => ok = ln.brief(&lv(l), "P") == if l { ltxt } else { "P" },
        1 => ok = chk(ln.optional_brief(&lv(l), &pv(p)), lv(l), pv(p)),
        2 => ok = ln.note(&lv(l), "P") == if l { ltxt } else { "P" },
        3 => ok = chk(ln.optional_note(&lv(l), &pv(p)), lv(l), pv(p)),
        4 => ok = ln.requirement_level(&l.then(|| lvl(ltxt)), &lvl("P")) == if l { lvl(ltxt) } else { lvl("P") },
        5 => ok = chk(ln.optional_requirement_level(&l.then(|| RequirementLevel::Basic(BasicRequirementLevelSpec::Required)), &p.then(|| lvl("P"))), l.then(|| RequirementLevel::Basic(BasicRequirementLevelSpec::Required)), p.then(|| lvl("P"))),
        6 => ok = chk(ln.examples(&ex(l), &p.then_some(Examples::Int(2))), ex(l), p.then_some(Examples::Int(2))),
        7 => ok = chk(ln.stability(&l.then_some(Stability::Stable), &p.then_some(Stability::Development)), l.then_some(Stability::Stable), p.then_some(Stability::Development)),
        8 => ok = chk(ln.optional_role(&l.then_some(AttributeRole::Identifying), &p.then_some(AttributeRole::Descriptive)), l.then_some(AttributeRole::Identifying), p.then_some(AttributeRole::Descriptive)),
        9 => {
            let (a, b) = (l.then(|| Deprecated::Obsoleted { note: ltxt.into() }), p.then(|| Deprecated::Obsoleted { note: "P".into() }));
            ok = chk(ln.deprecated(&a, &b), a, b)
        }
        10 => ok = chk(ln.tag(&lv(l), &pv(p)), lv(l), pv(p)),
        11 => ok = chk(ln.annotations(&l.then(|| an(ltxt)), &p.then(|| an("P"))), l.then(|| an(ltxt)), p.then(|| an("P"))),
        _ => ok = chk(ln.sampling_relevant(&l.then_some(!empty), &p.then_some(empty)), l.then_some(!empty), p.then_some(empty)),
    }
    let input = json!({"setter": which, "field": f, "local": l, "parent": p || always, "inherited_before": inh, "overridden_before": loc});
    ensure!(ok, input, "field `{f}` did not take the local value or else the parent value");
    let (mut einh, mut eloc) = (inh, loc);
    if l {
        let _ = eloc.insert(f.to_owned());
        let _ = einh.remove(f);
    } else if p || always {
        let _ = einh.insert(f.to_owned());
    }
    ensure!(ln == lineage("src", &einh, &eloc), input, "lineage after `{f}`: {:?}, expected inherited {:?} overridden {:?}", ln, einh, eloc);
    Ok(())
}

// ---------------------------------------------------------------------------------------
pub fn field_value(rng: &mut Rng, f: &str, tag: &str) -> Value {
    match f {
        "brief" | "note" | "tag" if rng.chance(1, 8) && !tag.starts_with("root") && !tag.starts_with("def") => json!(""),
        "brief" | "note" | "tag" => json!(format!("{f} of {tag}")),
        "examples" => {
            if rng.flip() {
                json!([format!("x-{tag}"), "y"])
            } else {
                json!(format!("one-{tag}"))
            }
        }
        "requirement_level" => match rng.below(5) {
            0 => json!("required"),
            1 => json!("opt_in"),
            2 => json!({"recommended": format!("if {tag}")}),
            3 => json!({"conditionally_required": format!("when {tag}")}),
            _ => json!("recommended"),
        },
        "sampling_relevant" => json!(rng.flip()),
        "stability" => json!(*rng.pick(&["stable", "development", "beta", "alpha", "release_candidate"])),
        "deprecated" => match rng.below(3) {
            0 => json!({"reason": "obsoleted", "note": format!("dep {tag}")}),
            1 => json!({"reason": "renamed", "renamed_to": format!("n.{}", tag.replace(' ', "_")), "note": format!("ren {tag}")}),
            _ => json!({"reason": "uncategorized", "note": format!("unc {tag}")}),
        },
        "annotations" if rng.chance(1, 6) => json!({}),
        "annotations" => json!({"who": tag, "n": rng.below(9)}),
        "role" => json!(*rng.pick(&["identifying", "descriptive"])),
        _ => Value::Null,
    }
}

/// fields of an attribute spec, by name
type Spec = Map<String, Value>;

fn gen_fields(rng: &mut Rng, tag: &str, p: (usize, usize), fields: &[&str]) -> Spec {
    let mut m = Map::new();
    for f in fields {
        if rng.chance(p.0, p.1) {
            let _ = m.insert((*f).to_owned(), field_value(rng, f, tag));
        }
    }
    m
}

/// child over parent, field by field
fn over(child: &Spec, parent: &Spec) -> Spec {
    let mut r = parent.clone();
    for (k, v) in child {
        let _ = r.insert(k.clone(), v.clone());
    }
    r
}

fn canon(f: &str, v: Option<&Value>) -> Value {
    match (f, v) {
        ("requirement_level", None) => json!("recommended"),
        // the resolved form writes an empty text as no text
        ("brief" | "note", Some(Value::String(x))) if x.is_empty() => Value::Null,
        (_, None) => Value::Null,
        (_, Some(v)) => v.clone(),
    }
}

fn attr_field(a: &Value, f: &str) -> Value {
    a.get(f).cloned().unwrap_or(Value::Null)
}

pub fn pipeline(rng: &mut Rng, _: u64) -> R {
    let n_root = rng.range(1, 3);
    let mut roots: BTreeMap<String, Spec> = BTreeMap::new();
    for i in 0..n_root {
        let id = format!("root.a{i}");
        let mut s = gen_fields(rng, &format!("root {i}"), (1, 2), &FIELDS);
        let _ = s.entry("brief").or_insert(json!(format!("root brief {i}")));
        let _ = s.entry("stability").or_insert(json!("stable"));
        let _ = roots.insert(id, s);
    }
    let mut groups = vec![json!({
        "id": "registry.root", "type": "attribute_group", "brief": "r",
        "attributes": roots.iter().map(|(id, s)| { let mut m = s.clone(); let _ = m.insert("id".into(), json!(id)); let _ = m.insert("type".into(), json!("string")); Value::Object(m) }).collect::<Vec<_>>(),
    })];
    // a group that defines attributes and is extended
    let n = rng.range(1, 5);
    let ids: Vec<String> = (0..n).map(|i| format!("g{i}")).collect();
    let mut own: Vec<BTreeMap<String, (bool, Spec)>> = vec![];
    let mut parent: Vec<Option<usize>> = vec![];
    for i in 0..n {
        let ext = if i > 0 && rng.chance(3, 4) { Some(rng.below(i)) } else { None };
        parent.push(ext);
        let mut m: BTreeMap<String, (bool, Spec)> = BTreeMap::new();
        for id in roots.keys() {
            if rng.chance(2, 3) {
                let s = gen_fields(rng, &format!("g{i} {id}"), (1, 3), &FIELDS);
                let _ = m.insert(id.clone(), (true, s));
            }
        }
        if ext.is_none() && rng.flip() {
            // a definition, to be inherited through extends
            let mut s = gen_fields(rng, &format!("def g{i}"), (1, 2), &FIELDS);
            let _ = s.entry("brief").or_insert(json!("d"));
            let _ = m.insert(format!("def.g{i}"), (false, s));
        } else if let Some(p) = ext {
            // override an inherited definition
            let mut r = p;
            loop {
                match parent[r] {
                    Some(q) => r = q,
                    None => break,
                }
            }
            let d = format!("def.g{r}");
            if own[r].contains_key(&d) && rng.chance(2, 3) {
                let s = gen_fields(rng, &format!("over g{i}"), (1, 3), &FIELDS);
                let _ = m.insert(d, (true, s));
            }
        }
        own.push(m);
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for &i in &order {
        let mut at: Vec<Value> = own[i]
            .iter()
            .map(|(id, (is_ref, s))| {
                let mut m = s.clone();
                if *is_ref {
                    let _ = m.insert("ref".into(), json!(id));
                } else {
                    let _ = m.insert("id".into(), json!(id));
                    let _ = m.insert("type".into(), json!("string"));
                }
                Value::Object(m)
            })
            .collect();
        rng.shuffle(&mut at);
        let mut g = json!({"id": ids[i], "type": "attribute_group", "brief": format!("group {i}"), "attributes": at});
        if let Some(p) = parent[i] {
            g["extends"] = json!(ids[p]);
        }
        groups.push(g);
    }
    if rng.flip() {
        rng.shuffle(&mut groups);
    }
    let file = json!({"groups": groups});
    let input = || json!({"registry.yaml": file});
    let sc = Scratch::new();
    sc.write("registry.yaml", &file);
    let (schema, _) = match resolve(&sc.0, "https://example.com/reg/1.0.0") {
        Ok(x) => x,
        Err(e) => return Err(Fail { input: input(), msg: format!("a valid registry did not resolve: {e}") }),
    };
    let schema = schema.as_v1().expect("v1").clone();
    // expected effective specs: parent first, own on top
    let mut eff: Vec<BTreeMap<String, (bool, Spec)>> = vec![];
    for i in 0..n {
        let mut m = parent[i].map(|p| eff[p].clone()).unwrap_or_default();
        for (id, (is_ref, s)) in &own[i] {
            let v = match m.get(id) {
                Some((pr, ps)) if *is_ref => (*pr, over(s, ps)),
                _ => (*is_ref, s.clone()),
            };
            let _ = m.insert(id.clone(), v);
        }
        eff.push(m);
    }
    for i in 0..n {
        let Some(g) = schema.registry.groups.iter().find(|g| g.id == ids[i]) else {
            return Err(Fail { input: input(), msg: format!("group {} is missing from the resolved registry", ids[i]) });
        };
        let mut got: BTreeMap<String, Value> = BTreeMap::new();
        for r in &g.attributes {
            let Some(a) = schema.catalog.attribute(r) else {
                return Err(Fail { input: input(), msg: format!("dangling attribute reference in {}", g.id) });
            };
            let v = serde_json::to_value(a).unwrap();
            ensure!(got.insert(a.name.clone(), v).is_none(), input(), "attribute {} appears twice in {}", a.name, g.id);
        }
        let names: Vec<&String> = eff[i].keys().collect();
        ensure!(got.keys().collect::<Vec<_>>() == names, input(), "{}: attributes {:?}, expected {:?}", g.id, got.keys(), names);
        for (id, (is_ref, spec)) in &eff[i] {
            let a = &got[id];
            let full = if *is_ref { over(spec, &roots[id]) } else { spec.clone() };
            for f in FIELDS {
                let (x, y) = (attr_field(a, f), canon(f, full.get(f)));
                ensure!(x == y, input(), "{}: attribute {id}: field `{f}` is {x}, expected {y}", g.id);
            }
            let ln = g.lineage.as_ref().and_then(|l| l.attribute(id));
            if *is_ref {
                let Some(ln) = ln else { return Err(Fail { input: input(), msg: format!("{}: no lineage for {id}", g.id) }) };
                ensure!(ln.source_group == "registry.root", input(), "{}: {id}: lineage names {} as the source", g.id, ln.source_group);
                for f in FIELDS {
                    let local = spec.contains_key(f);
                    let inherited = !local && (roots[id].contains_key(f) || f == "requirement_level" || f == "note");
                    ensure!(ln.locally_overridden_fields.contains(f) == local, input(), "{}: {id}: lineage says `{f}` overridden={}, expected {local}", g.id, !local);
                    ensure!(ln.inherited_fields.contains(f) == inherited, input(), "{}: {id}: lineage says `{f}` inherited={}, expected {inherited}", g.id, !inherited);
                }
            } else if let (Some(p), true) = (parent[i], own[i].contains_key(id)) {
                // an inherited definition, overridden here
                let Some(ln) = ln else { return Err(Fail { input: input(), msg: format!("{}: no lineage for {id}", g.id) }) };
                ensure!(ln.source_group == ids[p], input(), "{}: {id}: lineage names {} as the source", g.id, ln.source_group);
                let (pspec, mine) = (&eff[p][id].1, &own[i][id].1);
                for f in FIELDS {
                    let local = mine.contains_key(f);
                    let inherited = !local && (pspec.contains_key(f) || f == "requirement_level" || f == "note");
                    ensure!(ln.locally_overridden_fields.contains(f) == local, input(), "{}: {id}: lineage says `{f}` overridden={}, expected {local}", g.id, !local);
                    ensure!(ln.inherited_fields.contains(f) == inherited, input(), "{}: {id}: lineage says `{f}` inherited={}, expected {inherited}", g.id, !inherited);
                }
            }
        }
    }
    Ok(())
}
