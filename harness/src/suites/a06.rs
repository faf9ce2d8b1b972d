//! A06: filters and level overrides of findings.
use crate::live::{filters, modified, overrides, sample_json, sample_of, IDS, LEVELS};
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::json;
use weaver_checker::PolicyFinding;
use weaver_config::LiveCheckConfig;
use weaver_live_check::finding_modifier::FindingModifier;
use weaver_live_check::{LiveCheckResult, Sample, SampleRef};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "modifier", total: None, run: case }]
}
fn refs(s: &Sample) -> Vec<(SampleRef<'_>, Option<&str>)> {
    match s {
        Sample::Attribute(a) => vec![(SampleRef::Attribute(a), Some(&a.name))],
        Sample::Span(x) => {
            let mut v: Vec<(SampleRef<'_>, Option<&str>)> = vec![(SampleRef::Span(x), Some(&x.name))];
            v.extend(x.span_events.iter().map(|e| (SampleRef::SpanEvent(e), Some(e.name.as_str()))));
            v.extend(x.span_links.iter().map(|e| (SampleRef::SpanLink(e), None)));
            v
        }
        Sample::SpanEvent(x) => vec![(SampleRef::SpanEvent(x), Some(&x.name))],
        Sample::SpanLink(x) => vec![(SampleRef::SpanLink(x), None)],
        Sample::Resource(x) => vec![(SampleRef::Resource(x), None)],
        Sample::InstrumentationScope(x) => vec![(SampleRef::InstrumentationScope(x), Some(&x.name))],
        Sample::Metric(x) => vec![(SampleRef::Metric(x), Some(&x.name))],
        Sample::Log(x) => vec![(SampleRef::Log(x), Some(&x.event_name))],
        Sample::Profile(x) => vec![(SampleRef::Profile(x), None)],
    }
}
fn case(r: &mut Rng, _: u64) -> R {
    let (nf, no) = (r.below(4), r.below(4));
    let (fs, os) = (filters(r, nf), overrides(r, no));
    let k = r.below(9);
    let sj = sample_json(r, k);
    let s: Sample = sample_of(&sj);
    let f = PolicyFinding {
        id: (*r.pick(&IDS)).to_owned(),
        context: Some(json!({"k": 1})),
        message: "m".into(),
        level: *r.pick(&LEVELS),
        signal_type: if r.chance(1, 4) { None } else { Some((*r.pick(&["span", "metric", "log", "resource"])).to_owned()) },
        signal_name: Some("s".into()),
    };
    let input = json!({"filters": format!("{fs:?}"), "overrides": format!("{os:?}"), "sample": sj, "finding": serde_json::to_value(&f).unwrap()});
    let m = match FindingModifier::from_rules(&fs, &os) {
        Ok(m) => m,
        Err(e) => {
            ensure!(false, input, "from_rules fails: {e}");
            unreachable!()
        }
    };
    let cfg = LiveCheckConfig { finding_filters: fs.clone(), finding_level_overrides: os.clone(), ..Default::default() };
    let m2 = FindingModifier::from_config(&cfg).expect("config");
    ensure!(m.is_none() == (fs.is_empty() && os.is_empty()), input, "a modifier exists: {}", m.is_some());
    for (sr, name) in refs(&s) {
        let want = modified(&fs, &os, f.clone(), name);
        for m in [&m, &m2] {
            let got = match m {
                Some(m) => m.apply(f.clone(), &sr),
                None => Some(f.clone()),
            };
            ensure!(got == want, input, "sample {name:?}: finding becomes {got:?}, the rules say {want:?}");
            let mut res = LiveCheckResult::new();
            res.add_advice_list(vec![f.clone(), f.clone()], m.as_ref(), &sr);
            let w: Vec<PolicyFinding> = want.iter().chain(want.iter()).cloned().collect();
            ensure!(res.all_advice == w && res.highest_advice_level == want.as_ref().map(|f| f.level), input, "the stored findings are {res:?}");
        }
    }
    // an invalid pattern is refused
    if let Some(f0) = fs.first() {
        let mut bad = fs.clone();
        if r.flip() {
            bad[0].exclude_samples.push("a{b".into());
        } else {
            bad[0].sample_names.push("a{b".into());
        }
        ensure!(FindingModifier::from_rules(&bad, &os).is_err(), input, "an invalid pattern of a filter is accepted: {f0:?}");
    }
    if !os.is_empty() {
        let mut bad = os.clone();
        let i = r.below(bad.len());
        bad[i].sample_names.push("a{b".into());
        ensure!(FindingModifier::from_rules(&fs, &bad).is_err(), input, "an invalid pattern of an override is accepted");
    }
    Ok(())
}
