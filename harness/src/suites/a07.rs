//! A07: live-check statistics and the verdict account for every entity and finding.
use crate::live::{advice, filters, modified, nodes, overrides, rank, registry, sample_json, sample_of, TestAdvisor, LEVELS, NAMES};
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_checker::PolicyFinding;
use weaver_config::live_check::FailOnLevel;
use weaver_live_check::advice::Advisor;
use weaver_live_check::finding_modifier::FindingModifier;
use weaver_live_check::live_checker::LiveChecker;
use weaver_live_check::{CumulativeStatistics, DisabledStatistics, LiveCheckRunner, LiveCheckStatistics, Sample};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "threshold", total: Some(4), run: threshold }, Suite { name: "session", total: None, run: case }]
}
fn threshold(_: &mut Rng, i: u64) -> R {
    let (l, w) = [(FailOnLevel::Violation, Some(2)), (FailOnLevel::Improvement, Some(1)), (FailOnLevel::Information, Some(0)), (FailOnLevel::None, None)][i as usize];
    let g = l.as_finding_threshold().map(rank);
    ensure!(g == w, json!(format!("{l:?}")), "threshold of {l:?} is {g:?}");
    Ok(())
}
fn pick_names<'a>(r: &mut Rng, from: &[&'a str]) -> Vec<(&'a str, bool)> {
    from.iter().filter(|n| !n.is_empty()).filter_map(|n| if r.flip() { Some((*n, r.chance(1, 4))) } else { None }).collect()
}
fn inc(m: &mut BTreeMap<String, u64>, k: &str) {
    *m.entry(k.to_owned()).or_insert(0) += 1;
}
fn case(r: &mut Rng, _: u64) -> R {
    let v2 = r.flip();
    let at = pick_names(r, &["http.method", "http.url", "db.system"]);
    let tpl = pick_names(r, &["tpl", "tpl.a"]);
    let me = pick_names(r, &NAMES[..3]);
    let ev = pick_names(r, &NAMES[1..6]);
    let reg = registry(v2, &at, &tpl, &me, &ev);
    let (nf, no) = if r.flip() { (0, 0) } else { (r.below(3), r.below(3)) };
    let (fs, os) = (filters(r, nf), overrides(r, no));
    let nadv = r.below(3);
    let salt = r.next();
    let mut js: Vec<Value> = vec![];
    for _ in 0..r.range(1, 4) {
        let k = r.below(9);
        js.push(sample_json(r, k));
    }
    let input = json!({"v2": v2, "attributes": at, "templates": tpl, "metrics": me, "events": ev, "filters": format!("{fs:?}"), "overrides": format!("{os:?}"), "advisors": nadv, "salt": salt, "samples": js});
    let advisors: Vec<Box<dyn Advisor>> = (0..nadv).map(|k| Box::new(TestAdvisor { salt, k }) as Box<dyn Advisor>).collect();
    let mut lc = LiveChecker::new(reg.clone(), advisors);
    lc.finding_modifier = FindingModifier::from_rules(&fs, &os).expect("rules");
    let mut st = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&reg));
    let mut off = LiveCheckStatistics::Disabled(DisabledStatistics);
    let mut samples: Vec<Sample> = js.iter().map(sample_of).collect();
    let mut again = samples.clone();
    for s in &mut samples {
        let p = s.clone();
        s.run_live_check(&mut lc, &mut st, None, &p).expect("run");
    }
    for s in &mut again {
        let p = s.clone();
        s.run_live_check(&mut lc, &mut off, None, &p).expect("run");
    }
    ensure!(samples == again, input, "the findings depend on whether statistics are kept");
    // what the session must have stored and counted
    let (mut entities, mut levels, mut types, mut msgs, mut highest) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let (mut no_advice, mut total, mut n_adv) = (0u64, 0u64, 0u64);
    let mut max: Option<u8> = None;
    let name_of = |l: u8| ["information", "improvement", "violation"][l as usize];
    let (mut seen_a, mut seen_m, mut seen_e): (Vec<BTreeSet<String>>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    for s in &samples {
        let sig = s.signal_type();
        for n in nodes(s) {
            total += 1;
            inc(&mut entities, n.entity);
            let name = n.name.as_deref();
            let mut all: Vec<(String, u8)> = vec![];
            let builtin = |id: &str, l: usize| PolicyFinding { id: id.into(), context: None, message: String::new(), level: LEVELS[l], signal_type: sig.clone(), signal_name: None };
            let mut raw = vec![];
            match n.kind {
                "attribute" => {
                    let nm = name.unwrap_or("");
                    let t = tpl.iter().filter(|t| nm.starts_with(t.0)).max_by_key(|t| t.0.len());
                    if !at.iter().any(|a| a.0 == nm) {
                        match t {
                            Some(_) => raw.push(builtin("template_attribute", 0)),
                            None => raw.push(builtin("missing_attribute", 2)),
                        }
                        let mut c = BTreeSet::new();
                        if let Some(t) = t {
                            let _ = c.insert(t.0.to_owned());
                            let kept = n.result.as_ref().is_some_and(|r| r.all_advice.iter().any(|f| f.id == "template_attribute"));
                            if !kept {
                                let _ = c.insert(nm.to_owned());
                            }
                        } else {
                            let _ = c.insert(nm.to_owned());
                        }
                        seen_a.push(c);
                    } else {
                        seen_a.push(BTreeSet::from([nm.to_owned()]));
                    }
                }
                "metric" => {
                    if !me.iter().any(|a| Some(a.0) == name) {
                        raw.push(builtin("missing_metric", 2));
                    }
                    seen_m.push(name.unwrap_or("").to_owned());
                }
                "log" => {
                    if name != Some("") {
                        if !ev.iter().any(|a| Some(a.0) == name) {
                            raw.push(builtin("missing_event", 2));
                        }
                        seen_e.push(name.unwrap_or("").to_owned());
                    }
                }
                _ => {}
            }
            for k in 0..nadv {
                raw.extend(advice(salt, k, n.kind, name, sig.clone()));
            }
            for f in raw {
                if let Some(f) = modified(&fs, &os, f, name) {
                    all.push((f.id, rank(f.level)));
                }
            }
            let Some(res) = &n.result else {
                ensure!(false, input, "an entity was not checked: {n:?}");
                unreachable!()
            };
            let got: Vec<(String, u8)> = res.all_advice.iter().map(|f| (f.id.clone(), rank(f.level))).collect();
            ensure!(got == all, input, "the findings stored on {} {name:?} are {got:?}, expected {all:?}", n.kind);
            let hi = all.iter().map(|x| x.1).max();
            ensure!(res.highest_advice_level.map(rank) == hi, input, "the highest level of {} {name:?} is {:?}", n.kind, res.highest_advice_level);
            max = max.max(hi);
            if let Some(h) = hi {
                inc(&mut highest, name_of(h));
            } else {
                no_advice += 1;
            }
            for f in &res.all_advice {
                n_adv += 1;
                inc(&mut levels, name_of(rank(f.level)));
                inc(&mut types, &f.id);
                inc(&mut msgs, &f.message);
            }
        }
    }
    for l in LEVELS {
        let w = max.is_some_and(|m| m >= rank(l));
        ensure!(st.should_fail(l) == w, input, "should_fail({l:?}) is {}, the highest stored level is {max:?}", st.should_fail(l));
        ensure!(!off.should_fail(l), input, "disabled statistics fail the session");
    }
    st.finalize();
    let j = serde_json::to_value(&st).unwrap();
    let map = |k: &str| -> BTreeMap<String, u64> { serde_json::from_value(j[k].clone()).unwrap() };
    ensure!(j["total_entities"] == json!(total), input, "total_entities {} of {total}", j["total_entities"]);
    ensure!(map("total_entities_by_type") == entities, input, "total_entities_by_type {:?}, entities {entities:?}", map("total_entities_by_type"));
    ensure!(j["total_advisories"] == json!(n_adv), input, "total_advisories {} of {n_adv}", j["total_advisories"]);
    ensure!(map("advice_level_counts") == levels, input, "advice_level_counts {:?}, findings {levels:?}", map("advice_level_counts"));
    ensure!(map("advice_type_counts") == types, input, "advice_type_counts {:?}, findings {types:?}", map("advice_type_counts"));
    ensure!(map("advice_message_counts") == msgs, input, "advice_message_counts {:?}, findings {msgs:?}", map("advice_message_counts"));
    ensure!(map("highest_advice_level_counts") == highest, input, "highest_advice_level_counts {:?}, entities {highest:?}", map("highest_advice_level_counts"));
    ensure!(j["no_advice_count"] == json!(no_advice), input, "no_advice_count {} of {no_advice}", j["no_advice_count"]);
    // coverage
    let keys = |v: &[(&str, bool)]| -> BTreeSet<String> { v.iter().filter(|x| !x.1).map(|x| x.0.to_owned()).collect() };
    let ak: BTreeSet<String> = keys(&at).union(&keys(&tpl)).cloned().collect();
    let (mk, ek) = (keys(&me), keys(&ev));
    let mut nz = 0;
    for (kind, keys, non) in [("metrics", &mk, &seen_m), ("events", &ek, &seen_e)] {
        let mut reg: BTreeMap<String, u64> = keys.iter().map(|k| (k.clone(), 0)).collect();
        let mut out: BTreeMap<String, u64> = BTreeMap::new();
        for s in non.iter() {
            match reg.get_mut(s) {
                Some(c) => *c += 1,
                None => inc(&mut out, s),
            }
        }
        ensure!(map(&format!("seen_registry_{kind}")) == reg, input, "seen_registry_{kind} {:?}, expected {reg:?}", map(&format!("seen_registry_{kind}")));
        ensure!(map(&format!("seen_non_registry_{kind}")) == out, input, "seen_non_registry_{kind} {:?}, expected {out:?}", map(&format!("seen_non_registry_{kind}")));
        nz += reg.values().filter(|c| **c > 0).count();
    }
    let (ra, na) = (map("seen_registry_attributes"), map("seen_non_registry_attributes"));
    ensure!(ra.keys().cloned().collect::<BTreeSet<_>>() == ak, input, "the tracked attributes are {ra:?}");
    ensure!(ra.values().sum::<u64>() + na.values().sum::<u64>() == seen_a.len() as u64, input, "{} attributes seen, counted {ra:?} {na:?}", seen_a.len());
    ensure!(na.keys().all(|k| !ak.contains(k)), input, "a registry attribute is counted as outside: {na:?}");
    if seen_a.iter().all(|s| s.len() == 1) {
        let mut w: BTreeMap<String, u64> = BTreeMap::new();
        for s in &seen_a {
            inc(&mut w, s.iter().next().unwrap());
        }
        let g: BTreeMap<String, u64> = ra.iter().chain(na.iter()).filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
        ensure!(g == w, input, "attributes counted {g:?}, seen {w:?}");
    }
    nz += ra.values().filter(|c| **c > 0).count();
    let tot = ak.len() + mk.len() + ek.len();
    let want = if tot == 0 { 0.0 } else { nz as f64 / tot as f64 };
    let got = j["registry_coverage"].as_f64().unwrap();
    ensure!((got - want).abs() < 1e-5, input, "registry_coverage is {got}, {nz} of {tot} items were seen");
    Ok(())
}
