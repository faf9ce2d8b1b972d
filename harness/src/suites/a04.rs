//! Version choice: what a reference to a dependency's definition resolves to when the dependency graph
//! holds several versions of one registry.
use crate::ensure;
use crate::reg::{resolve, Scratch};
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use weaver_resolver::WeaverResolvedSchema;
use weaver_semconv::group::GroupType;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "diamonds", total: None, run: diamonds }]
}
/// in semver order
const VERS: [&str; 6] = ["1.0.0", "1.2.0-rc.1", "1.2.0", "1.10.0", "2.0.0", "2.1.0"];
const ATTRS: [&str; 3] = ["c.x", "c.y", "c.z"];
const METRICS: [&str; 2] = ["c.m", "c.n"];
fn major(v: usize) -> usize {
    usize::from(v >= 4) + 1
}
fn url(name: &str, v: &str) -> String {
    format!("https://e.io/{name}/{v}")
}
fn node(r: &mut Rng, s: &Scratch, name: &str, deps: &[(String, String)], ver: &str, metrics: &[&str], refs: &[&str], extra: Value) -> (String, String) {
    let dir = format!("{name}_{ver}");
    let deps: Vec<Value> = deps.iter().map(|(u, d)| json!({"schema_url": u, "registry_path": s.0.join(d).to_string_lossy()})).collect();
    s.write(&format!("{dir}/manifest.yaml"), &json!({"description": name, "schema_url": url(name, ver), "dependencies": deps}));
    let mut f = json!({"file_format": "definition/2"});
    if !metrics.is_empty() {
        f["imports"] = json!({"metrics": metrics});
    }
    if !refs.is_empty() {
        f["events"] = json!([{"name": format!("{name}.ev"), "brief": "b", "stability": "stable",
            "attributes": refs.iter().map(|a| json!({"ref": a})).collect::<Vec<_>>()}]);
    }
    if let Some(o) = extra.as_object() {
        for (k, v) in o {
            f[k] = v.clone();
        }
    }
    // a registry may be several files
    let _ = r.flip();
    s.write(&format!("{dir}/defs.yaml"), &f);
    (url(name, ver), dir)
}

fn diamonds(r: &mut Rng, _: u64) -> R {
    let s = Scratch::new();
    // the versions of c: which attributes and metrics each has
    let full = r.flip();
    let mut has_a = [[true; 3]; 6];
    let mut has_m = [[true; 2]; 6];
    // the attributes of metric m in version v
    let mut of = vec![vec![vec![]; 2]; 6];
    for v in 0..6 {
        for k in 0..3 {
            has_a[v][k] = full || r.chance(4, 5);
        }
        for k in 0..2 {
            has_m[v][k] = full || r.chance(3, 4);
            of[v][k] = (0..3).filter(|a| has_a[v][*a] && r.flip()).collect::<Vec<usize>>();
        }
    }
    let c_node = |v: usize, r: &mut Rng| {
        let attrs: Vec<Value> = (0..3).filter(|k| has_a[v][*k]).map(|k| json!({"key": ATTRS[k], "type": "string", "brief": format!("{} at {}", ATTRS[k], VERS[v]), "stability": "stable"})).collect();
        let ms: Vec<Value> = (0..2)
            .filter(|k| has_m[v][*k])
            .map(|k| json!({"name": METRICS[k], "brief": format!("{} at {}", METRICS[k], VERS[v]), "unit": "1", "instrument": "counter", "stability": "stable",
                "attributes": of[v][k].iter().map(|a| json!({"ref": ATTRS[*a]})).collect::<Vec<_>>()}))
            .collect();
        node(r, &s, "c", &[], VERS[v], &[], &[], json!({"attributes": attrs, "metrics": ms}))
    };
    let n_mid = 1 + r.below(3);
    let two_majors = r.chance(1, 6);
    let pick_v = |r: &mut Rng| if two_majors { r.below(6) } else if r.chance(1, 5) { 4 + r.below(2) } else { r.below(4) };
    let base_major_two = r.chance(1, 5);
    let pick_v = |r: &mut Rng| if two_majors { pick_v(r) } else if base_major_two { 4 + r.below(2) } else { r.below(4) };
    let mut used: Vec<usize> = vec![];
    let mut deps = vec![];
    let mut visible: Vec<&str> = vec![];
    for i in 0..n_mid {
        let v = pick_v(r);
        used.push(v);
        let c = c_node(v, r);
        let ms: Vec<&str> = (0..2).filter(|k| has_m[v][*k] && r.chance(2, 3)).map(|k| METRICS[k]).collect();
        let rs: Vec<&str> = (0..3).filter(|k| has_a[v][*k] && r.flip()).map(|k| ATTRS[k]).collect();
        visible.extend(&rs);
        let mut d = node(r, &s, ["a", "b", "d"][i], &[c], "1.0.0", &ms, &rs, json!({}));
        if r.chance(1, 4) {
            // one more registry in between
            d = node(r, &s, ["a2", "b2", "d2"][i], &[d], "1.0.0", &ms, &rs, json!({}));
        }
        deps.push(d);
    }
    let direct = r.flip();
    if direct {
        let v = pick_v(r);
        used.push(v);
        deps.push(c_node(v, r));
        visible.extend((0..3).filter(|k| has_a[v][*k]).map(|k| ATTRS[k]));
    }
    r.shuffle(&mut deps);
    let refs: Vec<&str> = ATTRS.into_iter().filter(|a| visible.contains(a) && r.chance(2, 3)).collect();
    // patterns, so that a metric no dependency has is no error of its own
    let imports: Vec<&str> = if r.chance(3, 4) { vec!["c.*"] } else { vec![] };
    let (u, dir) = node(r, &s, "main", &deps, "1.0.0", &imports, &refs, json!({}));
    let input = json!({"versions_of_c_in_the_graph": used.iter().map(|v| VERS[*v]).collect::<Vec<_>>(), "dependencies": deps, "refs": refs, "imports": imports,
        "definitions": used.iter().map(|v| json!({"version": VERS[*v], "attributes": (0..3).filter(|k| has_a[*v][*k]).map(|k| ATTRS[k]).collect::<Vec<_>>(), "metrics": (0..2).filter(|k| has_m[*v][*k]).map(|k| METRICS[k]).collect::<Vec<_>>() })).collect::<Vec<_>>()});
    let clash = used.iter().any(|v| major(*v) != major(used[0]));
    let newest = *used.iter().max().unwrap();
    let res = resolve(&s.0.join(&dir), &u);
    if clash {
        ensure!(res.is_err(), input, "the graph holds two majors of one registry, and resolution succeeds");
        return Ok(());
    }
    let (schema, _) = match res {
        Ok(x) => x,
        Err(e) => {
            let m = e.to_string();
            // the import pattern may name nothing
            let nothing = m.contains("did not match") || m.contains("UnmatchedImport") || m.contains("matched no");
            ensure!(!full || nothing, input, "every version of c has every definition, all share a major, and resolution fails: {m}");
            return Ok(());
        }
    };
    let WeaverResolvedSchema::V1(t) = &schema else { panic!("v1") };
    for g in &t.registry.groups {
        let attrs: Vec<_> = g.attributes.iter().map(|a| t.catalog.attribute(a).expect("in the catalog")).collect();
        for a in &attrs {
            if let Some(k) = ATTRS.iter().position(|n| *n == a.name) {
                let want = format!("{} at {}", ATTRS[k], VERS[newest]);
                ensure!(a.brief == want, input, "group {} holds attribute `{}`, expected `{want}`", g.id, a.brief);
            }
        }
        if g.r#type == GroupType::Metric {
            let k = METRICS.iter().position(|n| Some(*n) == g.metric_name.as_deref()).expect("a metric of c");
            if has_m[newest][k] {
                let want = format!("{} at {}", METRICS[k], VERS[newest]);
                ensure!(g.brief == want, input, "imported metric `{}`, expected `{want}`", g.brief);
                let mut names: Vec<&str> = attrs.iter().map(|a| a.name.as_str()).collect();
                names.sort_unstable();
                let want: Vec<&str> = of[newest][k].iter().map(|a| ATTRS[*a]).collect();
                ensure!(names == want, input, "imported metric {} has attributes {names:?}, expected {want:?}", METRICS[k]);
            }
        }
    }
    let ev = t.registry.groups.iter().find(|g| g.id.ends_with("main.ev"));
    ensure!(refs.is_empty() || ev.is_some_and(|g| g.attributes.len() == refs.len()), input, "main.ev does not hold one attribute per reference");
    Ok(())
}
