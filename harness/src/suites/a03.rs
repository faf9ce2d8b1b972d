//! Schema diff: exactly the names that differ are reported, each once, each as what happened to it.
use crate::ensure;
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use weaver_resolved_schema::attribute::{Attribute, AttributeRef};
use weaver_resolved_schema::catalog::Catalog;
use weaver_resolved_schema::lineage::{AttributeLineage, GroupLineage};
use weaver_resolved_schema::registry::Group;
use weaver_resolved_schema::{v2, ResolvedTelemetrySchema};
use weaver_semconv::deprecated::Deprecated;
use weaver_semconv::provenance::Provenance;
use weaver_version::schema_changes::{SchemaItemChange, SchemaItemType};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "v1-diff", total: None, run: v1 }, Suite { name: "v2-diff", total: None, run: v2_diff }]
}

type Side = BTreeMap<String, Option<Deprecated>>;

fn dep(k: usize) -> Option<Deprecated> {
    let s = |x: &str| x.to_owned();
    match k {
        0 | 1 | 2 => None,
        3 => Some(Deprecated::Renamed { renamed_to: s("n1"), note: Some(s("moved")) }),
        4 => Some(Deprecated::Renamed { renamed_to: s("n2"), note: Some(s("moved")) }),
        5 => Some(Deprecated::Obsoleted { note: s("gone") }),
        6 => Some(Deprecated::Obsoleted { note: s("moved") }),
        7 => Some(Deprecated::Uncategorized { note: s("moved") }),
        8 => Some(Deprecated::Unspecified { note: s("moved") }),
        _ => Some(Deprecated::Renamed { renamed_to: s("n1"), note: None }),
    }
}
fn side(r: &mut Rng, base: Option<&Side>) -> Side {
    let mut m = Side::new();
    for k in 0..5 {
        if r.chance(3, 4) {
            let n = format!("n{k}");
            let d = match base.and_then(|b| b.get(&n)) {
                Some(d) if r.chance(1, 3) => d.clone(),
                _ => dep(r.below(10)),
            };
            let _ = m.insert(n, d);
        }
    }
    m
}
/// (what, name, new name, note); a note inferred for a rename is not compared
fn expect(l: &Side, b: &Side) -> Vec<(String, String, String, Option<String>)> {
    let mut v = vec![];
    for (n, d) in l {
        let Some(bd) = b.get(n) else {
            v.push(("added".into(), n.clone(), String::new(), None));
            continue;
        };
        if d == bd {
            continue;
        }
        match d {
            None => {}
            Some(Deprecated::Renamed { renamed_to, note }) => v.push(("renamed".into(), n.clone(), renamed_to.clone(), note.clone())),
            Some(Deprecated::Obsoleted { note }) => v.push(("obsoleted".into(), n.clone(), String::new(), Some(note.clone()))),
            Some(Deprecated::Uncategorized { note } | Deprecated::Unspecified { note }) => v.push(("uncategorized".into(), n.clone(), String::new(), Some(note.clone()))),
        }
    }
    for n in b.keys().filter(|n| !l.contains_key(*n)) {
        v.push(("removed".into(), n.clone(), String::new(), None));
    }
    v.sort();
    v
}
fn got(cs: &[SchemaItemChange]) -> Vec<(String, String, String, Option<String>)> {
    let mut v: Vec<_> = cs
        .iter()
        .map(|c| match c {
            SchemaItemChange::Added { name } => ("added".to_owned(), name.clone(), String::new(), None),
            SchemaItemChange::Removed { name } => ("removed".to_owned(), name.clone(), String::new(), None),
            SchemaItemChange::Renamed { old_name, new_name, note } => ("renamed".to_owned(), old_name.clone(), new_name.clone(), Some(note.clone())),
            SchemaItemChange::Obsoleted { name, note } => ("obsoleted".to_owned(), name.clone(), String::new(), Some(note.clone())),
            SchemaItemChange::Uncategorized { name, note } => ("uncategorized".to_owned(), name.clone(), String::new(), Some(note.clone())),
            SchemaItemChange::Updated {} => ("updated".to_owned(), String::new(), String::new(), None),
        })
        .collect();
    v.sort();
    v
}
fn check(kind: &str, l: &Side, b: &Side, cs: &[SchemaItemChange]) -> R {
    let (e, g) = (expect(l, b), got(cs));
    let same = e.len() == g.len() && e.iter().zip(&g).all(|(e, g)| (&e.0, &e.1, &e.2) == (&g.0, &g.1, &g.2) && (e.3.is_none() || e.3 == g.3));
    ensure!(same, json!({"kind": kind, "latest": format!("{l:?}"), "baseline": format!("{b:?}")}), "{kind} changes are {g:?}, expected {e:?}");
    Ok(())
}

fn attr(n: &str, d: &Option<Deprecated>) -> Attribute {
    let mut a: Attribute = serde_json::from_value(json!({"name": n, "type": "string", "brief": "b", "requirement_level": "recommended"})).expect("attribute");
    a.deprecated = d.clone();
    a
}
fn group(id: &str, ty: &str, d: &Option<Deprecated>) -> Group {
    let mut g: Group = serde_json::from_value(json!({"id": id, "type": ty, "brief": "b"})).expect("group");
    g.deprecated = d.clone();
    g
}
/// the attributes (each defined once, referred to elsewhere, perhaps with another deprecation) and the signals of one registry
fn schema(r: &mut Rng, attrs: &Side, sig: &[(&str, &Side)]) -> ResolvedTelemetrySchema {
    let mut s = ResolvedTelemetrySchema::new("https://a.b/c/1.0.0", "id", "url");
    let mut cat: Vec<Attribute> = vec![attr("unused", &None)];
    let mut groups: Vec<Group> = vec![group("defs.a", "attribute_group", &None), group("defs.b", "attribute_group", &None)];
    for (ty, m) in sig {
        for (k, (n, d)) in m.iter().enumerate() {
            let mut g = group(&format!("{ty}.{k}"), ty, d);
            if *ty == "metric" {
                g.metric_name = Some(n.clone());
                g.name = r.flip().then(|| "other".to_owned());
            } else {
                g.name = Some(n.clone());
                g.metric_name = r.flip().then(|| "other".to_owned());
            }
            groups.push(g);
        }
        // one without a name is not comparable
        groups.push(group(&format!("{ty}.nameless"), ty, &dep(5)));
    }
    let prov = || serde_json::from_value::<Provenance>(json!({"schema_url": "https://a.b/c/1.0.0", "path": "f.yaml"})).expect("provenance");
    let with_lineage = r.flip();
    for g in &mut groups {
        g.lineage = with_lineage.then(|| GroupLineage::new(prov()));
    }
    for (n, d) in attrs {
        let home = r.below(2);
        cat.push(attr(n, d));
        groups[home].attributes.push(AttributeRef(cat.len() as u32 - 1));
        if with_lineage && r.flip() {
            let id = groups[home].id.clone();
            groups[home].lineage.as_mut().unwrap().add_attribute_lineage(n.clone(), AttributeLineage::new(&id));
        }
        let others: Vec<usize> = (0..groups.len()).filter(|k| *k != home && r.chance(1, 4)).collect();
        for k in others {
            if with_lineage {
                cat.push(attr(n, &dep(r.below(10))));
            }
            let at = cat.len() as u32 - 1;
            groups[k].attributes.push(AttributeRef(at));
            let src = groups[home].id.clone();
            if let Some(l) = groups[k].lineage.as_mut() {
                l.add_attribute_lineage(n.clone(), AttributeLineage::new(&src));
            }
        }
    }
    let mut order = groups;
    r.shuffle(&mut order);
    s.registry.groups = order;
    s.catalog = Catalog::new(cat, HashMap::new());
    s
}

fn v1(r: &mut Rng, _: u64) -> R {
    const T: [&str; 4] = ["metric", "event", "span", "entity"];
    let ba = side(r, None);
    let la = side(r, Some(&ba));
    let bs: Vec<Side> = T.iter().map(|_| side(r, None)).collect();
    let ls: Vec<Side> = bs.iter().map(|b| side(r, Some(b))).collect();
    let pair = |v: &[Side]| -> Vec<(&'static str, Side)> { T.iter().copied().zip(v.iter().cloned()).collect() };
    let mk = |r: &mut Rng, a: &Side, v: &[Side]| {
        let p = pair(v);
        let p: Vec<(&str, &Side)> = p.iter().map(|(t, s)| (*t, s)).collect();
        schema(r, a, &p)
    };
    let base = mk(r, &ba, &bs);
    let same = r.chance(1, 20);
    let latest = if same { base.clone() } else { mk(r, &la, &ls) };
    let (la, ls) = if same { (ba.clone(), bs.clone()) } else { (la, ls) };
    let c = latest.diff(&base);
    let none: Vec<SchemaItemChange> = vec![];
    let of = |t| c.changes_by_type(t).unwrap_or(&none);
    check("attribute", &la, &ba, of(SchemaItemType::RegistryAttributes))?;
    for (k, t) in [SchemaItemType::Metrics, SchemaItemType::Events, SchemaItemType::Spans, SchemaItemType::Entities].into_iter().enumerate() {
        check(T[k], &ls[k], &bs[k], of(t))?;
    }
    let none = expect(&la, &ba).is_empty() && ls.iter().zip(&bs).all(|(l, b)| expect(l, b).is_empty());
    ensure!(c.is_empty() == none, json!({"latest": format!("{la:?} {ls:?}"), "baseline": format!("{ba:?} {bs:?}")}), "is_empty is {} with changes {:?}", c.is_empty(), c.count_changes());
    Ok(())
}

fn v2_schema(r: &mut Rng, m: &[Side]) -> v2::ResolvedTelemetrySchema {
    let common = |v: &mut Value, d: &Option<Deprecated>| {
        let o = v.as_object_mut().unwrap();
        let _ = o.insert("brief".into(), json!("b"));
        let _ = o.insert("stability".into(), json!("stable"));
        let d = match d {
            None => return,
            Some(Deprecated::Renamed { renamed_to, note: Some(n) }) => json!({"reason": "renamed", "renamed_to": renamed_to, "note": n}),
            Some(Deprecated::Renamed { renamed_to, note: None }) => json!({"reason": "renamed", "renamed_to": renamed_to}),
            Some(Deprecated::Obsoleted { note }) => json!({"reason": "obsoleted", "note": note}),
            Some(Deprecated::Uncategorized { note }) => json!({"reason": "uncategorized", "note": note}),
            Some(Deprecated::Unspecified { note }) => json!({"reason": "unspecified", "note": note}),
        };
        let _ = o.insert("deprecated".into(), d);
    };
    let mut lists: Vec<Vec<Value>> = vec![];
    for (k, side) in m.iter().enumerate() {
        let mut l = vec![];
        for (n, d) in side {
            let mut v = match k {
                0 => json!({"key": n, "type": "string"}),
                1 => json!({"id": n, "attributes": []}),
                2 => json!({"type": n, "identity": []}),
                3 => json!({"name": n}),
                4 => json!({"name": n, "instrument": "gauge", "unit": "1"}),
                _ => json!({"type": n, "kind": "client", "name": {"note": "n"}}),
            };
            common(&mut v, d);
            l.push(v);
        }
        r.shuffle(&mut l);
        lists.push(l);
    }
    // the catalog also holds refinements of the same keys, which are not in the registry
    let mut cat: Vec<Value> = vec![];
    let mut refs = vec![];
    for a in &lists[0] {
        if r.flip() {
            let mut o = json!({"key": a["key"], "type": "int"});
            common(&mut o, &dep(r.below(10)));
            cat.push(o);
        }
        refs.push(json!(cat.len()));
        cat.push(a.clone());
    }
    r.shuffle(&mut refs);
    let v = json!({"file_format": "resolved/2.0", "schema_url": "https://a.b/c/1.0.0", "attribute_catalog": cat,
        "registry": {"attributes": refs, "attribute_groups": lists[1], "entities": lists[2], "events": lists[3], "metrics": lists[4], "spans": lists[5]},
        "refinements": {"spans": [], "metrics": [], "events": [], "entities": []}});
    match serde_json::from_value(v.clone()) {
        Ok(s) => s,
        Err(e) => panic!("harness: {e} in {v}"),
    }
}

fn v2_diff(r: &mut Rng, _: u64) -> R {
    const T: [&str; 6] = ["attribute", "attribute group", "entity", "event", "metric", "span"];
    let bs: Vec<Side> = T.iter().map(|_| side(r, None)).collect();
    let ls: Vec<Side> = bs.iter().map(|b| if r.chance(1, 10) { b.clone() } else { side(r, Some(b)) }).collect();
    let ls = if r.chance(1, 20) { bs.clone() } else { ls };
    let (b, l) = (v2_schema(r, &bs), v2_schema(r, &ls));
    let c = l.diff(&b);
    let lists = [&c.registry.attribute_changes, &c.registry.attribute_group_changes, &c.registry.entity_changes, &c.registry.event_changes, &c.registry.metric_changes, &c.registry.span_changes];
    for k in 0..6 {
        check(T[k], &ls[k], &bs[k], lists[k])?;
    }
    let none = ls.iter().zip(&bs).all(|(l, b)| expect(l, b).is_empty());
    ensure!(c.is_empty() == none, json!({"latest": format!("{ls:?}"), "baseline": format!("{bs:?}")}), "is_empty is {}", c.is_empty());
    Ok(())
}
