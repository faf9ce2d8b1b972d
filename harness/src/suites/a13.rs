//! References: every ref, extends, include, refinement and association is bound to something it may see, or resolution fails.
use crate::ensure;
use crate::reg::{resolve, Scratch};
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_resolver::WeaverResolvedSchema;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "extends-and-refs", total: None, run: local }, Suite { name: "across-registries", total: None, run: across }]
}
const HIDE: &str = r#"{"dependency_resolution": {"exclude": true}}"#;
fn hide() -> Value {
    serde_json::from_str(HIDE).unwrap()
}

/// One registry of the older format: a graph of groups, and references to attributes of other groups.
fn local(r: &mut Rng, _: u64) -> R {
    let n = r.range(1, 6);
    let names: Vec<String> = (0..6).map(|k| format!("at.k{k}")).collect();
    // which group defines which attribute
    let sane = r.chance(2, 3);
    let mut def: BTreeMap<usize, usize> = BTreeMap::new();
    for k in 0..names.len() {
        if sane || r.chance(3, 4) {
            let _ = def.insert(k, r.below(n));
        }
    }
    let hidden: Vec<bool> = (0..names.len()).map(|_| r.chance(1, 8)).collect();
    let kinds: Vec<&str> = (0..n).map(|_| *r.pick(&["attribute_group", "attribute_group", "span"])).collect();
    let ghide: Vec<bool> = (0..n).map(|_| r.chance(1, 8)).collect();
    // a group may extend one that comes later in the file
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut parent: Vec<Option<usize>> = vec![None; n];
    for i in 0..n {
        if r.flip() {
            parent[i] = if sane { (i > 0).then(|| r.below(i)) } else { Some(r.below(n + 1)) };
        }
    }
    let mut refs: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for i in 0..n {
        for k in 0..names.len() {
            if r.chance(1, 4) && def.get(&k) != Some(&i) && (!sane || def.contains_key(&k)) {
                let _ = refs[i].insert(k);
            }
        }
    }
    let groups: Vec<Value> = order
        .iter()
        .map(|&i| {
            let mut at: Vec<Value> = vec![];
            for (k, g) in &def {
                if *g == i {
                    let mut a = json!({"id": names[*k], "type": "string", "brief": format!("def {k}"), "stability": "stable", "examples": ["e"]});
                    if hidden[*k] {
                        a["annotations"] = hide();
                    }
                    at.push(a);
                }
            }
            at.extend(refs[i].iter().map(|k| json!({"ref": names[*k]})));
            r.shuffle(&mut at);
            let mut g = json!({"id": format!("g{i}"), "type": kinds[i], "brief": "b", "stability": "stable", "attributes": at});
            if kinds[i] == "span" {
                g["span_kind"] = json!("client");
            }
            if ghide[i] {
                g["annotations"] = hide();
            }
            if let Some(p) = parent[i] {
                g["extends"] = json!(format!("g{p}"));
            }
            g
        })
        .collect();
    let file = json!({"groups": groups});
    // the attributes a group ends with; None: its chain of parents does not end
    fn all(i: usize, fuel: usize, parent: &[Option<usize>], own: &dyn Fn(usize) -> BTreeSet<usize>) -> Option<BTreeSet<usize>> {
        if fuel == 0 || i >= parent.len() {
            return None;
        }
        let mut s = own(i);
        if let Some(p) = parent[i] {
            s.extend(all(p, fuel - 1, parent, own)?);
        }
        Some(s)
    }
    let own = |i: usize| -> BTreeSet<usize> { def.iter().filter(|(_, g)| **g == i).map(|(k, _)| *k).chain(refs[i].iter().copied()).collect() };
    let closed = |i: usize| ghide[i] || kinds[i] == "attribute_group";
    let mut expect: Option<Vec<BTreeSet<usize>>> = Some(vec![]);
    let mut why = String::new();
    for i in 0..n {
        match all(i, n + 1, &parent, &own) {
            None => {
                why = format!("g{i} extends a group that is missing or extends itself");
                expect = None;
            }
            Some(s) => {
                if let Some(k) = s.iter().find(|k| !def.contains_key(k)) {
                    why = format!("g{i} refers to {}, which is not defined", names[*k]);
                    expect = None;
                } else if let Some(k) = s.iter().find(|k| hidden[**k] && !closed(i)) {
                    why = format!("g{i} uses the excluded {}", names[*k]);
                    expect = None;
                } else if parent[i].is_some_and(|p| ghide[p] && !closed(i)) {
                    why = format!("g{i} extends an excluded group");
                    expect = None;
                }
                if let Some(e) = expect.as_mut() {
                    e.push(s);
                }
            }
        }
    }
    let s = Scratch::new();
    s.write("main.yaml", &file);
    let res = resolve(&s.0, "https://e.io/main/1.0.0");
    match (expect, res) {
        (None, Ok(_)) => ensure!(false, file, "{why}, and the registry resolves"),
        (Some(_), Err(e)) => ensure!(false, file, "every reference has a definition it may see, and resolution fails: {e}"),
        (None, Err(_)) => {}
        (Some(e), Ok((WeaverResolvedSchema::V1(sc), _))) => {
            for (i, want) in e.iter().enumerate() {
                let Some(g) = sc.registry.groups.iter().find(|g| g.id == format!("g{i}")) else {
                    ensure!(false, file, "group g{i} is gone");
                    continue;
                };
                let mut got: Vec<String> = g.attributes.iter().filter_map(|a| sc.catalog.attribute(a)).map(|a| a.name.clone()).collect();
                got.sort();
                let want: Vec<String> = want.iter().map(|k| names[*k].clone()).collect();
                ensure!(got == want && g.attributes.len() == want.len(), file, "g{i} has the attributes {got:?}, not {want:?}");
                for a in g.attributes.iter().filter_map(|a| sc.catalog.attribute(a)) {
                    ensure!(a.brief == format!("def {}", &a.name[4..]), file, "{} in g{i} is not bound to its definition: {:?}", a.name, a.brief);
                }
                ensure!(g.extends.is_none(), file, "g{i} still extends a group");
            }
        }
        (_, Ok(_)) => {}
    }
    Ok(())
}

const ENTS: [&str; 3] = ["e.one", "e.two", "e.three"];
const ATTRS: [&str; 4] = ["c.a", "c.b", "c.c", "c.d"];

/// what one registry declares
struct Decl {
    attrs: Vec<Option<bool>>,
    ents: Vec<Option<bool>>,
    /// span x, metric y
    span: Option<bool>,
    metric: Option<bool>,
}
fn decl(r: &mut Rng, p: (usize, usize)) -> Decl {
    let mut o = |r: &mut Rng| r.chance(p.0, p.1).then(|| r.chance(1, 4));
    let mut attrs: Vec<Option<bool>> = ATTRS.iter().map(|_| o(r)).collect();
    let ents: Vec<Option<bool>> = ENTS.iter().map(|_| o(r)).collect();
    // an entity needs an identity
    let need = ents.iter().any(|e| e.is_some());
    if need {
        attrs[3] = Some(false);
    }
    Decl { attrs, ents, span: o(r), metric: o(r) }
}
fn file(d: &Decl, who: &str) -> Value {
    let ann = |v: &mut Value, h: bool| {
        if h {
            v["annotations"] = hide();
        }
    };
    let mut f = json!({"file_format": "definition/2"});
    let mk = |l: Vec<Value>| if l.is_empty() { Value::Null } else { json!(l) };
    let attrs = d.attrs.iter().enumerate().filter_map(|(k, o)| o.map(|h| { let mut v = json!({"key": ATTRS[k], "type": "string", "brief": who, "stability": "stable"}); ann(&mut v, h); v })).collect();
    let ents = d.ents.iter().enumerate().filter_map(|(k, o)| o.map(|h| { let mut v = json!({"type": ENTS[k], "brief": who, "stability": "stable", "identity": [{"ref": ATTRS[3]}]}); ann(&mut v, h); v })).collect();
    let spans = d.span.iter().map(|h| { let mut v = json!({"type": "sp", "kind": "client", "name": {"note": "n"}, "brief": who, "stability": "stable", "attributes": []}); ann(&mut v, *h); v }).collect();
    let metrics = d.metric.iter().map(|h| { let mut v = json!({"name": "me", "brief": who, "unit": "1", "instrument": "counter", "stability": "stable", "attributes": []}); ann(&mut v, *h); v }).collect();
    for (k, l) in [("attributes", mk(attrs)), ("entities", mk(ents)), ("spans", mk(spans)), ("metrics", mk(metrics))] {
        if !l.is_null() {
            f[k] = l;
        }
    }
    f
}

/// A registry of the newer format that uses what two dependencies and it declare.
fn across(r: &mut Rng, _: u64) -> R {
    let s = Scratch::new();
    let nd = r.below(3);
    let sparse = (1, 4 + r.below(3));
    let deps: Vec<Decl> = (0..nd).map(|_| decl(r, if nd == 1 { (2, 3) } else { (1, 2) })).collect();
    let me = decl(r, sparse);
    let mut dv = vec![];
    for (i, d) in deps.iter().enumerate() {
        let who = ["p", "q"][i];
        s.write(&format!("{who}/manifest.yaml"), &json!({"description": who, "schema_url": format!("https://e.io/{who}/1.0.0")}));
        s.write(&format!("{who}/defs.yaml"), &file(d, who));
        dv.push(json!({"schema_url": format!("https://e.io/{who}/1.0.0"), "registry_path": s.0.join(who).to_string_lossy()}));
    }
    let mut f = file(&me, "m");
    // uses
    let shut = r.chance(1, 4);
    let mut refs: Vec<usize> = (0..3).filter(|_| r.chance(1, 4)).collect();
    r.shuffle(&mut refs);
    let assoc: Vec<usize> = (0..3).filter(|_| r.chance(1, 5)).collect();
    let refine_span = r.chance(1, 5);
    let refine_metric = r.chance(1, 5);
    let visible_ok = r.chance(1, 2);
    // attribute lookups: this registry, then whatever the dependencies say
    let mut why: Option<String> = None;
    let bad = |w: String, why: &mut Option<String>| if why.is_none() { *why = Some(w) };
    let used = |k: usize| -> Result<&'static str, &'static str> {
        if let Some(h) = me.attrs[k] {
            return if h && !shut { Err("excluded here") } else { Ok("m") };
        }
        let offers: Vec<usize> = (0..nd).filter(|i| deps[*i].attrs[k] == Some(false)).collect();
        match offers.len() {
            0 => Err("no dependency offers it"),
            1 => Ok(["p", "q"][offers[0]]),
            _ => Err("two unrelated definitions"),
        }
    };
    let ent = |k: usize| -> Result<Option<&'static str>, &'static str> {
        if let Some(h) = me.ents[k] {
            return if h && !shut { Err("excluded here") } else { Ok(None) };
        }
        let offers: Vec<usize> = (0..nd).filter(|i| deps[*i].ents[k] == Some(false)).collect();
        match offers.len() {
            0 => Err("no dependency offers it"),
            1 => Ok(Some(["p", "q"][offers[0]])),
            _ => Err("ambiguous"),
        }
    };
    if visible_ok {
        refs.retain(|k| used(*k).is_ok());
    }
    let assoc: Vec<usize> = if visible_ok { assoc.into_iter().filter(|k| ent(*k).is_ok()).collect() } else { assoc };
    let mut ev = json!({"name": "ev", "brief": "m", "stability": "stable", "attributes": refs.iter().map(|k| json!({"ref": ATTRS[*k]})).collect::<Vec<_>>()});
    if !assoc.is_empty() {
        ev["entity_associations"] = match r.below(3) {
            0 if assoc.len() > 1 => json!([{"one_of": assoc.iter().map(|k| ENTS[*k]).collect::<Vec<_>>()}]),
            _ => json!(assoc.iter().map(|k| ENTS[*k]).collect::<Vec<_>>()),
        };
    }
    if shut {
        ev["annotations"] = hide();
    }
    f["events"] = json!([ev]);
    let target = |pick: &dyn Fn(&Decl) -> Option<bool>| -> Result<&'static str, &'static str> {
        if let Some(h) = pick(&me) {
            return if h { Err("excluded here") } else { Ok("m") };
        }
        match (0..nd).find(|i| pick(&deps[*i]) == Some(false)) {
            Some(i) => Ok(["p", "q"][i]),
            None => Err("no dependency offers it"),
        }
    };
    let (ts, tm) = (target(&|d| d.span), target(&|d| d.metric));
    let refine_span = refine_span && (!visible_ok || ts.is_ok());
    let refine_metric = refine_metric && (!visible_ok || tm.is_ok());
    if refine_span {
        f["span_refinements"] = json!([{"id": "sp.mine", "ref": "sp", "attributes": []}]);
    }
    if refine_metric {
        f["metric_refinements"] = json!([{"id": "me.mine", "ref": "me", "attributes": []}]);
    }
    // attribute groups: one includes another
    let gk = r.chance(1, 3).then(|| (r.chance(1, 3), r.below(3), r.below(3)));
    if let Some((h, vis, order)) = gk {
        let mut base = json!({"id": "base.group", "visibility": "public", "brief": "b", "stability": "stable", "attributes": []});
        if h {
            base["annotations"] = hide();
        }
        let mut user = json!({"id": "user.group", "visibility": (if vis == 0 { "internal" } else { "public" }), "attributes": [{"ref_group": (if order == 2 { "no.group" } else { "base.group" })}]});
        if vis > 0 {
            user["brief"] = json!("b");
            user["stability"] = json!("stable");
        }
        if vis == 2 {
            user["annotations"] = hide();
        }
        f["attribute_groups"] = if order == 1 { json!([user, base]) } else { json!([base, user]) };
        if order == 2 {
            bad("user.group includes a group that does not exist".into(), &mut why);
        } else if h && vis == 1 {
            bad("user.group is public and includes an excluded group".into(), &mut why);
        }
    }
    s.write("main/manifest.yaml", &json!({"description": "m", "schema_url": "https://e.io/main/1.0.0", "dependencies": dv}));
    s.write("main/defs.yaml", &f);
    for k in &refs {
        if let Err(w) = used(*k) {
            bad(format!("ref {}: {w}", ATTRS[*k]), &mut why);
        }
    }
    for k in &assoc {
        if let Err(w) = ent(*k) {
            bad(format!("association {}: {w}", ENTS[*k]), &mut why);
        }
    }
    if let (true, Err(w)) = (refine_span, ts) {
        bad(format!("span refinement: {w}"), &mut why);
    }
    if let (true, Err(w)) = (refine_metric, tm) {
        bad(format!("metric refinement: {w}"), &mut why);
    }
    // excluded attributes defined here count as used by this registry's own identity attribute
    if me.ents.iter().any(|e| *e == Some(false)) && me.attrs[3] == Some(true) {
        bad("identity".into(), &mut why);
    }
    let input = json!({"main": f, "dependencies": deps.iter().enumerate().map(|(i, d)| file(d, ["p", "q"][i])).collect::<Vec<_>>()});
    let res = resolve(&s.0.join("main"), "https://e.io/main/1.0.0");
    let (sc, nfe) = match (&why, res) {
        (Some(w), Ok(_)) => {
            ensure!(false, input, "{w}, and the registry resolves");
            return Ok(());
        }
        (None, Err(e)) => {
            ensure!(false, input, "every reference has one definition it may see, and resolution fails: {e}");
            return Ok(());
        }
        (Some(_), Err(_)) => return Ok(()),
        (None, Ok(x)) => x,
    };
    let _ = nfe;
    let WeaverResolvedSchema::V1(sc) = sc else { return Ok(()) };
    let Some(g) = sc.registry.groups.iter().find(|g| g.name.as_deref() == Some("ev")) else {
        ensure!(false, input, "the event is gone");
        return Ok(());
    };
    let got: BTreeMap<String, String> = g.attributes.iter().filter_map(|a| sc.catalog.attribute(a)).map(|a| (a.name.clone(), a.brief.clone())).collect();
    let want: BTreeMap<String, String> = refs.iter().map(|k| (ATTRS[*k].to_owned(), used(*k).unwrap().to_owned())).collect();
    ensure!(got == want, input, "the event's attributes are bound to {got:?}, not {want:?}");
    let o = sc.registry.entity_association_origins.get(&g.id).cloned().unwrap_or_default();
    let got: BTreeMap<String, String> = o.iter().map(|(k, u)| (k.clone(), u.to_string())).collect();
    let want: BTreeMap<String, String> = assoc.iter().filter_map(|k| ent(*k).unwrap().map(|w| (ENTS[*k].to_owned(), format!("https://e.io/{w}/1.0.0")))).collect();
    ensure!(got == want, input, "the associations come from {got:?}, not {want:?}");
    for (on, id, t) in [(refine_span, "sp.mine", ts), (refine_metric, "me.mine", tm)] {
        if on {
            let Some(g) = sc.registry.groups.iter().find(|g| g.id.ends_with(id)) else {
                ensure!(false, input, "refinement {id} is gone");
                return Ok(());
            };
            ensure!(g.brief == t.unwrap(), input, "refinement {id} is built on {:?}, not {:?}", g.brief, t.unwrap());
        }
    }
    Ok(())
}
