//! What is reported of a semantic-convention file is what the rules say is wrong with it.
use crate::ensure;
use crate::rng::Rng;
use crate::{Suite, R};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use weaver_common::result::WResult;
use weaver_semconv::semconv::{SemConvSpecV1, Versioned};
use weaver_semconv::v2::SemConvSpecV2;
use weaver_semconv::Error;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "groups", total: None, run: v1 }, Suite { name: "newer-format", total: None, run: v2 }]
}

/// problems -> how often
type Probs = BTreeMap<(&'static str, String, String), usize>;

fn of(e: &Error) -> (&'static str, String, String) {
    let n = String::new;
    match e.clone() {
        Error::InvalidGroupUsesPrefix { group_id, .. } => ("prefix", group_id, n()),
        Error::InvalidGroupStability { group_id, .. } => ("group stability", group_id, n()),
        Error::InvalidGroupDuplicateAttributeRef { group_id, attribute_ref, .. } => ("duplicate ref", group_id, attribute_ref),
        Error::InvalidGroupMissingExtendsOrAttributes { group_id, .. } => ("no content", group_id, n()),
        Error::InvalidGroup { group_id, .. } => ("group", group_id, n()),
        Error::InvalidGroupMissingType { group_id, .. } => ("no type", group_id, n()),
        Error::InvalidSpanMissingSpanKind { group_id, .. } => ("no span kind", group_id, n()),
        Error::InvalidMetric { group_id, .. } => ("metric", group_id, n()),
        Error::UnstructuredDeprecatedProperty { id, .. } => ("deprecated", n(), id),
        Error::InvalidAttribute { group_id, attribute_id, .. } => ("attribute", group_id, attribute_id),
        Error::InvalidAttributeWarning { group_id, attribute_id, .. } => ("attribute warning", group_id, attribute_id),
        Error::InvalidExampleError { group_id, attribute_id, .. } => ("example", group_id, attribute_id),
        Error::InvalidExampleWarning { group_id, attribute_id, .. } => ("example warning", group_id, attribute_id),
        Error::InvalidAnyValue { group_id, value_id, .. } => ("value", group_id, value_id),
        Error::InvalidAnyValueExampleError { group_id, value_id, .. } => ("value example", group_id, value_id),
        Error::MissingRequirementLevelWarning { group_id, .. } => ("no level", group_id, n()),
        Error::AttributeInIdentityAndDescription { group_id, attribute_id, .. } => ("both roles", group_id, attribute_id),
        Error::EntityMissingIdentity { group_id, .. } => ("no identity", group_id, n()),
        e => ("other", e.to_string(), n()),
    }
}
fn probs(es: &[Error]) -> Probs {
    let mut m = Probs::new();
    for e in es {
        *m.entry(of(e)).or_default() += 1;
    }
    m
}

/// examples as written, and what they are examples of
const EXAMPLES: &[(&str, &str)] = &[
    ("true", "boolean"), ("[true,false]", "booleans"), ("[[true],[false,true]]", "boolean[]"),
    ("7", "int"), ("[1,2,3]", "ints"), ("[[1],[2,3]]", "int[]"),
    ("1.5", "double"), ("[1.5,2.5]", "doubles"), ("[[1.5],[2.5]]", "double[]"),
    ("\"x\"", "string"), ("[\"x\",\"y\"]", "strings"), ("[[\"x\"],[\"y\"]]", "string[]"), ("[1,\"x\",true]", "mixed"),
];
const TYPES: &[&str] = &["boolean", "int", "double", "string", "boolean[]", "int[]", "double[]", "string[]"];
/// an array type takes lists of arrays; any other one example, or a list of them
fn fits(e: &str, t: &str) -> bool {
    e == t || (!t.ends_with("[]") && e.strip_suffix('s') == Some(t))
}
/// arrays where single arrays are given as examples
fn tolerated(e: &str, t: &str) -> bool {
    t.strip_suffix("[]").is_some_and(|b| e.strip_suffix('s') == Some(b))
}

struct Gen<'a> {
    r: &'a mut Rng,
    want: Probs,
    gid: String,
}
impl Gen<'_> {
    fn bad(&mut self, k: &'static str, item: &str) {
        let g = if k == "deprecated" { String::new() } else { self.gid.clone() };
        *self.want.entry((k, g, item.to_owned())).or_default() += 1;
    }
    fn stability(&mut self, o: &mut Value) -> Option<&'static str> {
        let s = *self.r.pick(&[None, Some("stable"), Some("development"), Some("deprecated"), Some("alpha"), Some("stable"), Some("stable")]);
        if let Some(s) = s {
            o["stability"] = json!(s);
        }
        s
    }
    /// returns whether there is one
    fn deprecated(&mut self, o: &mut Value, id: &str) -> bool {
        match self.r.below(5) {
            0 => {
                o["deprecated"] = json!("in words");
                self.bad("deprecated", id);
                true
            }
            1 => {
                o["deprecated"] = json!({"reason": "obsoleted", "note": "n"});
                true
            }
            _ => false,
        }
    }
    fn attr(&mut self) -> Value {
        let id = format!("a.k{}", self.r.below(4));
        let mut o = json!({"id": id});
        let brief = self.r.chance(3, 4);
        if brief {
            o["brief"] = json!("b");
        }
        if !self.deprecated(&mut o, &id) && !brief {
            self.bad("attribute", &id);
        }
        if matches!(self.stability(&mut o), None | Some("deprecated")) {
            self.bad("attribute warning", &id);
        }
        let form = self.r.below(5);
        let t = *self.r.pick(TYPES);
        match form {
            0 => {
                let mut ms = vec![];
                for i in 0..self.r.range(1, 3) {
                    let mut m = json!({"id": format!("m{i}"), "value": format!("v{i}"), "brief": "b"});
                    if matches!(self.stability(&mut m), None | Some("deprecated")) {
                        self.bad("attribute warning", &id);
                    }
                    let _ = self.deprecated(&mut m, &id);
                    ms.push(m);
                }
                o["type"] = json!({"members": ms});
            }
            1 => o["type"] = json!("any"),
            2 => o["type"] = json!(format!("template[{t}]")),
            _ => o["type"] = json!(t),
        }
        if self.r.chance(3, 4) {
            let (x, e) = *self.r.pick(EXAMPLES);
            let (x, e) = if form >= 2 && self.r.flip() { *EXAMPLES.iter().find(|(_, e)| fits(e, t)).unwrap() } else { (x, e) };
            o["examples"] = serde_json::from_str(x).unwrap();
            match form {
                0 | 1 => {}
                2 if fits(e, t) => {}
                // strings for a template of string arrays
                2 if t == "string[]" && matches!(e, "string" | "strings") => self.bad("example warning", &id),
                2 => self.bad("example", &id),
                _ if fits(e, t) => {}
                _ if tolerated(e, t) => self.bad("example warning", &id),
                _ => self.bad("example", &id),
            }
        } else if form > 2 && matches!(t, "string" | "string[]") {
            self.bad("example warning", &id);
        }
        o
    }
    fn value(&mut self, depth: u64) -> Value {
        let id = format!("v.k{}", self.r.below(5));
        let mut o = json!({"id": id, "requirement_level": "recommended"});
        if self.stability(&mut o).is_none() {
            self.bad("value", &id);
        }
        let t = match self.r.below(if depth > 0 { 7 } else { 4 }) {
            0 => "enum",
            1 => "bytes",
            2 => "undefined",
            3 => *self.r.pick(TYPES),
            4 => "map[]",
            _ => "map",
        };
        o["type"] = json!(t);
        match self.r.chance(2, 3).then(|| *self.r.pick(EXAMPLES)) {
            Some((x, e)) => {
                o["examples"] = serde_json::from_str(x).unwrap();
                let ok = match t {
                    "enum" | "bytes" | "undefined" => true,
                    "map" | "map[]" => matches!(e, "string" | "strings" | "string[]"),
                    t => fits(e, t),
                };
                if !ok {
                    self.bad("value example", &id);
                }
            }
            None if matches!(t, "string" | "string[]") => self.bad("value example", &id),
            None => {}
        }
        if t == "enum" {
            let mut ms = vec![];
            for i in 0..self.r.range(1, 3) {
                let mut m = json!({"id": format!("m{i}"), "value": i, "brief": "b"});
                if self.stability(&mut m).is_none() {
                    self.bad("value", &id);
                }
                ms.push(m);
            }
            o["members"] = json!(ms);
        }
        if t == "map" {
            let n = self.r.below(3);
            o["fields"] = (0..n).map(|_| self.value(depth - 1)).collect();
        }
        if t == "map[]" {
            // values of the maps of an array are not looked into
            let keep = self.want.clone();
            o["fields"] = json!([self.value(depth - 1)]);
            self.want = keep;
        }
        o
    }
    fn assoc(&mut self, depth: u64) -> (Value, bool) {
        if depth == 0 || self.r.flip() {
            let n = *self.r.pick(&["host", "", "  ", "a.b", "host"]);
            return (json!(n), !n.trim().is_empty());
        }
        let n = self.r.below(3);
        let (mut v, mut ok) = (vec![], n > 0);
        for _ in 0..n {
            let (x, o) = self.assoc(depth - 1);
            v.push(x);
            ok &= o;
        }
        (if self.r.flip() { json!({"one_of": v}) } else { json!({"all_of": v}) }, ok)
    }
    fn group(&mut self) -> Value {
        let id = self.gid.clone();
        let ty = *self.r.pick(&["attribute_group", "span", "event", "metric", "metric_group", "scope", "undefined", "entity"]);
        let mut o = json!({"id": id, "type": ty, "brief": "b"});
        let prefix = self.r.chance(1, 6);
        if prefix {
            o["prefix"] = json!("p");
            self.bad("prefix", "");
        }
        let st = self.stability(&mut o);
        if (ty != "attribute_group" && st.is_none()) || st == Some("deprecated") {
            self.bad("group stability", "");
        }
        let _ = self.deprecated(&mut o, &id);
        let ext = self.r.chance(1, 4);
        if ext {
            o["extends"] = json!("base");
        }
        let mut attrs = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..self.r.below(4) {
            if self.r.flip() {
                let n = format!("a.k{}", self.r.below(3));
                attrs.push(json!({"ref": n}));
                if !seen.insert(n.clone()) {
                    self.bad("duplicate ref", &n);
                }
            } else {
                let a = self.attr();
                attrs.push(a);
            }
        }
        if !matches!(ty, "metric" | "event") && !ext && attrs.is_empty() {
            self.bad("no content", "");
        }
        o["attributes"] = json!(attrs);
        if ty == "undefined" {
            self.bad("no type", "");
        }
        let kind = if ty == "span" { self.r.chance(3, 4) } else { self.r.chance(1, 5) };
        if kind {
            o["span_kind"] = json!("client");
        }
        let other = !matches!(ty, "span" | "undefined");
        if ty == "span" && !kind {
            self.bad("no span kind", "");
        }
        if other && kind {
            self.bad("group", "");
        }
        if self.r.chance(1, 5) {
            o["events"] = json!(["e"]);
            if other {
                self.bad("group", "");
            }
        }
        let named = self.r.flip();
        if named {
            o["name"] = json!("n");
        }
        let body = if ty == "event" { self.r.chance(2, 3) } else { self.r.chance(1, 6) };
        if body {
            let keep = self.want.clone();
            o["body"] = self.value(2);
            if ty != "event" {
                self.want = keep;
                self.bad("group", "");
            }
        }
        if ty == "event" && !named && (body || !prefix) {
            self.bad("group", "");
        }
        for k in ["metric_name", "instrument", "unit"] {
            if self.r.chance(2, 3) {
                o[k] = json!(if k == "instrument" { "counter" } else { "x" });
            } else if ty == "metric" {
                self.bad("metric", "");
            }
        }
        let n = self.r.below(3);
        let mut v = vec![];
        for _ in 0..n {
            let (x, ok) = self.assoc(2);
            v.push(x);
            if !ok {
                self.bad("group", "");
            }
        }
        if n > 0 {
            o["entity_associations"] = json!(v);
            if !matches!(ty, "span" | "event" | "metric") {
                self.bad("group", "");
            }
        }
        o
    }
}

fn v1(r: &mut Rng, _: u64) -> R {
    let n = r.range(1, 3);
    let mut g = Gen { r, want: Probs::new(), gid: String::new() };
    let mut gs = vec![];
    for i in 0..n {
        g.gid = format!("g{}", if g.r.chance(1, 8) { 0 } else { i });
        gs.push(g.group());
    }
    let want = g.want;
    let input = json!({"groups": gs});
    let spec: SemConvSpecV1 = match serde_json::from_value(input.clone()) {
        Ok(s) => s,
        Err(e) => { ensure!(false, json!({"input": input, "error": e.to_string()}), "the file is read"); return Ok(()); }
    };
    let got = match Versioned::V1(spec).validate("the-file") {
        WResult::Ok(_) => Probs::new(),
        WResult::OkWithNFEs(_, es) => {
            ensure!(!es.is_empty(), json!({"input": input}), "problems are none or some");
            probs(&es)
        }
        WResult::FatalErr(e) => { ensure!(false, json!({"input": input, "error": e.to_string()}), "a file of groups is never refused outright"); return Ok(()); }
    };
    ensure!(got == want, json!({"input": input, "reported": format!("{got:?}"), "expected": format!("{want:?}")}), "the problems reported are those of the file");
    Ok(())
}

fn v2(r: &mut Rng, _: u64) -> R {
    let (mut levels, mut roles) = (Probs::new(), Probs::new());
    let mut o = json!({});
    let name = |r: &mut Rng| format!("n{}", r.below(4));
    for (kind, key) in [("metric", "metrics"), ("span", "spans"), ("event", "events"), ("entity", "entities")] {
        let mut v = vec![];
        for _ in 0..r.below(3) {
            let n = name(r);
            let mut g = match kind {
                "metric" => json!({"name": n, "unit": "1", "instrument": "counter"}),
                "span" => json!({"type": n, "kind": "client", "name": {"note": "n"}}),
                "event" => json!({"name": n}),
                _ => json!({"type": n}),
            };
            g["brief"] = json!("b");
            g["stability"] = json!("stable");
            if r.flip() {
                g["requirement_level"] = json!("recommended");
            } else {
                *levels.entry(("no level", format!("{kind}.{n}"), String::new())).or_default() += 1;
            }
            if kind == "entity" {
                parts(r, &mut g, &n, &mut roles, true);
            }
            v.push(g);
        }
        o[key] = json!(v);
    }
    let mut v = vec![];
    for _ in 0..r.below(3) {
        let n = name(r);
        let mut g = json!({"id": n, "ref": "x"});
        parts(r, &mut g, &n, &mut roles, false);
        v.push(g);
    }
    o["entity_refinements"] = json!(v);
    let spec: SemConvSpecV2 = match serde_json::from_value(o.clone()) {
        Ok(s) => s,
        Err(e) => { ensure!(false, json!({"input": o, "error": e.to_string()}), "the file is read"); return Ok(()); }
    };
    let (got, fatal) = match Versioned::V2(spec).validate("the-file") {
        WResult::Ok(_) => (Probs::new(), false),
        WResult::OkWithNFEs(_, es) => (probs(&es), false),
        WResult::FatalErr(Error::CompoundError(es)) => (probs(&es), true),
        WResult::FatalErr(e) => { ensure!(false, json!({"input": o, "error": e.to_string()}), "refused with a list of problems"); return Ok(()); }
    };
    ensure!(fatal != roles.is_empty(), json!({"input": o, "refused": fatal}), "a file is refused exactly when identities and descriptions are mixed up");
    let want = if fatal { roles } else { levels };
    ensure!(got == want, json!({"input": o, "reported": format!("{got:?}"), "expected": format!("{want:?}")}), "the problems reported are those of the file");
    Ok(())
}
fn parts(r: &mut Rng, g: &mut Value, n: &str, roles: &mut Probs, base: bool) {
    let pick = |r: &mut Rng| (0..r.below(3)).map(|_| format!("a{}", r.below(6))).collect::<Vec<_>>();
    let mut id = pick(r);
    if base && id.is_empty() && r.flip() {
        id.push("a9".into());
    }
    let de = pick(r);
    for d in &de {
        if id.contains(d) {
            *roles.entry(("both roles", n.to_owned(), d.clone())).or_default() += 1;
        }
    }
    if base && id.is_empty() {
        *roles.entry(("no identity", n.to_owned(), String::new())).or_default() += 1;
    }
    g["identity"] = id.iter().map(|a| json!({"ref": a})).collect();
    g["description"] = de.iter().map(|a| json!({"ref": a})).collect();
}
