//! A10: each setting has the value of the most specific layer that gives one.
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use weaver_forge::config::WeaverConfig;

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "registry", total: None, run: registry }, Suite { name: "policy", total: None, run: policy }, Suite { name: "template", total: None, run: template }]
}
static N: AtomicU64 = AtomicU64::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("vharness-a10-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch");
        Dir(d)
    }
    fn write(&self, f: &str, t: &str) {
        let f = self.0.join(f);
        std::fs::create_dir_all(f.parent().expect("parent")).expect("scratch");
        std::fs::write(f, t).expect("scratch");
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn group(id: &str, n: usize) -> String {
    let mut t = format!("groups:\n  - id: registry.{id}\n    type: attribute_group\n    brief: b\n    visibility: public\n    attributes:\n");
    for i in 0..n {
        t += &format!("      - id: {id}.a{i}\n        type: string\n        brief: b\n        examples: [x]\n        stability: stable\n");
    }
    t
}
/// registries a (1 attribute) and b (2), each with a link to a folder (4) and a dependency (16, or 64 where it is redirected)
fn world() -> Dir {
    let d = Dir::new();
    for (dep, n) in [("dep", 16), ("dep2", 64)] {
        d.write(&format!("{dep}/d.yaml"), &group("dep", n));
        d.write(&format!("{dep}/manifest.yaml"), "schema_url: https://e.com/dep/1.0.0\n");
    }
    d.write("out/l.yaml", &group("link", 4));
    for (x, n) in [("a", 1), ("b", 2)] {
        d.write(&format!("{x}/{x}.yaml"), &group(x, n));
        d.write(&format!("{x}/manifest.yaml"), &format!("schema_url: https://e.com/{x}/1.0.0\ndependencies:\n  - schema_url: https://e.com/dep/1.0.0\n    registry_path: {}\n", d.0.join("dep").display()));
        std::os::unix::fs::symlink(d.0.join("out"), d.0.join(x).join("lnk")).expect("link");
    }
    for i in 0..3 {
        d.write(&format!("p{i}/p.rego"), &format!("package before_resolution\ndeny contains v if {{\n  some g in input.groups\n  v := {{\"id\": \"rule{i}\", \"type\": \"semconv_attribute\", \"category\": \"c\", \"group\": g.id, \"attr\": \"a\"}}\n}}\n"));
    }
    d
}
thread_local! { static WORLD: Dir = world(); }

struct Ran {
    code: i32,
    out: String,
    err: String,
}
fn weaver(cwd: &Path, args: &[String]) -> Ran {
    let exe = std::env::var("VHARNESS_WEAVER").unwrap_or("/repo/target/debug/weaver".to_owned());
    let o = Command::new(exe).args(args).current_dir(cwd).env("HOME", cwd).output().expect("weaver");
    Ran { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn maybe<T>(r: &mut Rng, v: T) -> Option<T> {
    if r.flip() {
        Some(v)
    } else {
        None
    }
}
/// a switch on the command line: bare, or with a value
fn switch(r: &mut Rng, name: &str, v: Option<bool>, args: &mut Vec<String>) {
    match v {
        Some(true) if r.flip() => args.push(format!("--{name}")),
        Some(v) => args.push(format!("--{name}={v}")),
        None => {}
    }
}
/// put the configuration where it is found, in a folder of the case; the folder to run in
fn place(r: &mut Rng, d: &Dir, toml: &str, args: &mut Vec<String>) -> PathBuf {
    let decoy = "[registry]\npath = \"nowhere\"\n[policy]\npaths = [\"nowhere\"]\n";
    let cwd = d.0.join("x/y/z");
    std::fs::create_dir_all(&cwd).expect("scratch");
    let at = r.below(4);
    if at < 3 {
        d.write(["x/y/z/.weaver.toml", "x/y/.weaver.toml", "x/.weaver.toml"][at], toml);
        d.write(".weaver.toml", decoy);
        if at == 1 && r.flip() {
            d.write("x/.weaver.toml", decoy);
        }
    } else {
        d.write("c.toml", toml);
        d.write("x/y/.weaver.toml", decoy);
        args.insert(0, format!("--config={}", d.0.join("c.toml").display()));
    }
    cwd
}
fn line(t: &mut String, k: &str, v: &Option<impl std::fmt::Debug>) {
    if let Some(v) = v {
        *t += &format!("{k} = {v:?}\n");
    }
}

/// what `registry stats` says of the registry settings
fn registry(r: &mut Rng, _: u64) -> R {
    WORLD.with(|w| {
        let dir = |n: &str| w.0.join(n).display().to_string();
        let d = Dir::new();
        let pick = |r: &mut Rng| { let v = *r.pick(&["a", "b"]); maybe(r, v) };
        let flag = |r: &mut Rng| { let v = r.flip(); maybe(r, v) };
        let (mut path, c_path) = (pick(r), pick(r));
        if path.is_none() && c_path.is_none() {
            path = Some("a");
        }
        let (follow, c_follow, incl, c_incl, v2, c_v2) = (flag(r), flag(r), flag(r), flag(r), flag(r), flag(r));
        let redirect = r.below(4);
        let form = |r: &mut Rng| { let v = *r.pick(&["json", "yaml", "text"]); maybe(r, v) };
        let (format, c_format) = (form(r), form(r));
        let mut t = String::new();
        t += "[registry]\n";
        line(&mut t, "path", &path.map(dir));
        line(&mut t, "follow_symlinks", &follow);
        line(&mut t, "include_unreferenced", &incl);
        line(&mut t, "v2", &v2);
        t += "[stats]\n";
        line(&mut t, "format", &format);
        match redirect {
            0 => t += &format!("[resolve.schema_url_overrides]\n\"https://e.com/dep/1.0.0\" = {:?}\n", dir("dep2")),
            1 => t += &format!("[resolve.schema_url_overrides]\n\"https://e.com/other/1.0.0\" = {:?}\n\"not a url\" = {:?}\n", dir("dep2"), dir("dep2")),
            _ => {}
        }
        let mut args: Vec<String> = vec!["registry".into(), "stats".into()];
        if let Some(p) = c_path {
            args.extend([if r.flip() { "-r".to_owned() } else { "--registry".to_owned() }, dir(p)]);
        }
        switch(r, "follow-symlinks", c_follow, &mut args);
        switch(r, "include-unreferenced", c_incl, &mut args);
        switch(r, "v2", c_v2, &mut args);
        if let Some(f) = c_format {
            args.push(format!("--format={f}"));
        }
        let cwd = place(r, &d, &t, &mut args);
        let got = weaver(&cwd, &args);
        let input = json!({"toml": t, "args": args});
        ensure!(got.code == 0, input, "weaver fails: {}", got.err);
        let form = c_format.or(format).unwrap_or("text");
        let is_json = got.out.starts_with('{');
        let is_yaml = got.out.starts_with("version: ");
        ensure!(is_json == (form == "json") && is_yaml == (form == "yaml"), input, "not in {form}: {}", got.out);
        if form == "text" {
            return Ok(());
        }
        let is_v2 = c_v2.or(v2).unwrap_or(false);
        let shown = got.out.lines().find_map(|l| l.trim().trim_start_matches('"').strip_prefix("version")).unwrap_or("").contains("v2");
        ensure!(shown == is_v2, input, "v2 should be {is_v2}: {}", got.out);
        // the number of attributes of the registry (of its catalog, in the first format)
        let n: u64 = got.out.lines().find_map(|l| l.trim().trim_start_matches('"').strip_prefix("attribute_count")).unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
        let dep = if redirect == 0 { 64 } else { 16 };
        let want = if c_path.or(path) == Some("a") { 1 } else { 2 } + if c_follow.or(follow).unwrap_or(false) { 4 } else { 0 } + if c_incl.or(incl).unwrap_or(false) { dep } else { 0 };
        ensure!(n == want, input, "{n} attributes, expected {want}");
        Ok(())
    })
}

/// what `registry check` says of the policy and diagnostic settings
fn policy(r: &mut Rng, _: u64) -> R {
    WORLD.with(|w| {
        let dir = |n: &str| w.0.join(n).display().to_string();
        let d = Dir::new();
        let paths = |r: &mut Rng, least: usize| { let mut v: Vec<usize> = (0..3).filter(|_| r.flip()).collect(); if v.len() < least { v.push(r.below(3)); } maybe(r, v) };
        let (files, c_files) = (paths(r, 0), paths(r, 1));
        let flag = |r: &mut Rng| { let v = r.flip(); maybe(r, v) };
        let (skip, c_skip, cover, c_cover, stdout, c_stdout) = (flag(r), flag(r), flag(r), flag(r), flag(r), flag(r));
        let form = |r: &mut Rng| { let v = *r.pick(&["ansi", "json", "gh_workflow_command"]); maybe(r, v) };
        let (format, c_format) = (form(r), form(r));
        let mut t = String::from("[policy]\n");
        line(&mut t, "paths", &files.as_ref().map(|f| f.iter().map(|i| dir(&format!("p{i}"))).collect::<Vec<_>>()));
        line(&mut t, "skip", &skip);
        line(&mut t, "display_policy_coverage", &cover);
        t += "[diagnostics]\n";
        line(&mut t, "format", &format);
        line(&mut t, "stdout", &stdout);
        let mut args: Vec<String> = vec!["registry".into(), "check".into(), "-r".into(), dir("a")];
        for i in c_files.iter().flatten() {
            args.extend(["-p".to_owned(), dir(&format!("p{i}"))]);
        }
        switch(r, "skip-policies", c_skip, &mut args);
        switch(r, "display-policy-coverage", c_cover, &mut args);
        switch(r, "diagnostic-stdout", c_stdout, &mut args);
        if let Some(f) = c_format {
            args.push(format!("--diagnostic-format={f}"));
        }
        let cwd = place(r, &d, &t, &mut args);
        let got = weaver(&cwd, &args);
        let input = json!({"toml": t, "args": args});
        let skipped = c_skip.or(skip).unwrap_or(false);
        let used: Vec<usize> = if skipped { vec![] } else { c_files.or(files).unwrap_or_default() };
        ensure!(got.code == if used.is_empty() { 0 } else { 1 }, input, "exit status {}: {}", got.code, got.err);
        let (to, other) = if c_stdout.or(stdout).unwrap_or(false) { (&got.out, &got.err) } else { (&got.err, &got.out) };
        for i in 0..3 {
            let rule = format!("rule{i}");
            ensure!(to.contains(&rule) == used.contains(&i), input, "diagnostics of policy {i}: {}", to.contains(&rule));
            ensure!(!other.contains(&rule), input, "diagnostics are in the wrong place");
        }
        if !used.is_empty() {
            let form = c_format.or(format).unwrap_or("ansi");
            let is = if to.contains("::error ") { "gh_workflow_command" } else if to.contains("\"diagnostic\"") { "json" } else { "ansi" };
            ensure!(is == form, input, "diagnostics are in {is}, expected {form}");
        }
        let covered = !skipped && c_cover.or(cover).unwrap_or(false);
        if !used.is_empty() {
            let is = got.out.contains("COVERAGE REPORT") || got.err.contains("COVERAGE REPORT");
            ensure!(is == covered, input, "coverage is shown: {is}, expected {covered}");
        }
        Ok(())
    })
}

/// a random configuration file, as far as it is a matter of layers
fn layer(r: &mut Rng) -> Value {
    let mut m = Map::new();
    let txt = |r: &mut Rng| json!(format!("t{}", r.below(50)));
    if r.flip() { let v = json!({"int": txt(r), "string": "S"}); m.insert("type_mapping".into(), v); }
    if r.flip() { let k = format!("m{}", r.below(3)); let v = json!({k: {"a": txt(r)}}); m.insert("text_maps".into(), v); }
    if r.flip() {
        let mut s = Map::new();
        for k in ["block_start", "block_end", "variable_start", "variable_end", "comment_start", "comment_end"] {
            if r.flip() { let v = txt(r); s.insert(k.into(), v); }
        }
        m.insert("template_syntax".into(), Value::Object(s));
    }
    if r.flip() {
        let mut s = Map::new();
        for k in ["trim_blocks", "lstrip_blocks", "keep_trailing_newline"] {
            if r.flip() { let v = json!(r.flip()); s.insert(k.into(), v); }
        }
        m.insert("whitespace_control".into(), Value::Object(s));
    }
    if r.flip() { let v = txt(r); m.insert("default_comment_format".into(), v); }
    if r.flip() { let v = json!({"f": {"format": "markdown", "header": txt(r)}}); m.insert("comment_formats".into(), v); }
    if r.chance(2, 3) {
        let mut s = Map::new();
        for k in ["p", "q", "r"] {
            match r.below(5) {
                0 => { s.insert(k.into(), Value::Null); }
                1 => { let v = txt(r); s.insert(k.into(), v); }
                2 => { let v = r.pick(&[json!(false), json!(0), json!([]), json!("")]).clone(); s.insert(k.into(), v); }
                _ => {}
            }
        }
        m.insert("params".into(), Value::Object(s));
    }
    if r.flip() { let v = if r.chance(1, 4) { json!([]) } else { json!([{"template": format!("{}.j2", r.below(9)), "filter": ".", "application_mode": "single"}]) }; m.insert("templates".into(), v); }
    if r.flip() { let v = json!((0..r.below(3)).map(|_| *r.pick(&["Api", "API", "Http", "iOS"])).collect::<Vec<_>>()); m.insert("acronyms".into(), v); }
    Value::Object(m)
}
fn merge(base: &mut Value, top: &Value) {
    for (k, v) in top.as_object().into_iter().flatten() {
        match k.as_str() {
            "template_syntax" | "whitespace_control" => for (a, b) in v.as_object().into_iter().flatten() { base[k][a] = b.clone(); },
            "params" => for (a, b) in v.as_object().into_iter().flatten() {
                if base[k].is_null() { base[k] = json!({}); }
                let o = base[k].as_object_mut().expect("map");
                if b.is_null() { let _ = o.remove(a); } else { o.insert(a.clone(), b.clone()); }
            },
            _ => base[k] = v.clone(),
        }
    }
}
fn template(r: &mut Rng, _: u64) -> R {
    let d = Dir::new();
    let layers: Vec<Value> = (0..r.below(4)).map(|_| layer(r)).collect();
    let mut files = vec![];
    let mut want = json!({"template_syntax": {"block_start": "{%", "block_end": "%}", "variable_start": "{{", "variable_end": "}}", "comment_start": "{#", "comment_end": "#}"}, "whitespace_control": {}, "params": {}});
    for (i, l) in layers.iter().enumerate() {
        d.write(&format!("{i}.yaml"), &l.to_string());
        files.push(d.0.join(format!("{i}.yaml")));
        merge(&mut want, l);
    }
    let acronyms: Option<Vec<String>> = if r.flip() { Some((0..r.below(4)).map(|_| (*r.pick(&["api", "API", "HTTP", "IOS", "sdk", "Sdk"])).to_owned()).collect()) } else { None };
    let maps: Option<std::collections::HashMap<String, std::collections::HashMap<String, String>>> = if r.flip() { Some((0..r.below(3)).map(|i| (format!("m{i}"), [("z".to_owned(), "project".to_owned())].into_iter().collect())).collect()) } else { None };
    let input = json!({"layers": layers, "acronyms": acronyms, "text_maps": maps});
    let mut c = match WeaverConfig::try_from_config_files(&files) {
        Ok(c) => c,
        Err(e) => { ensure!(false, input, "the files are not read: {e}"); return Ok(()) }
    };
    let shown = |c: &WeaverConfig| -> Value {
        let mut v = serde_json::to_value(c).expect("config");
        for k in ["template_syntax", "whitespace_control"] {
            let o = v[k].as_object_mut().expect("map");
            o.retain(|_, x| !x.is_null());
        }
        if v["params"].is_null() { v["params"] = json!({}); }
        for t in v["templates"].as_array_mut().into_iter().flatten() { *t = t["template"].clone(); }
        for (_, t) in v["comment_formats"].as_object_mut().into_iter().flatten() { *t = t["header"].clone(); }
        v.as_object_mut().expect("map").retain(|_, x| !x.is_null());
        v
    };
    for t in want.get_mut("templates").and_then(Value::as_array_mut).into_iter().flatten() { *t = t["template"].clone(); }
    if want.get("comment_formats").is_some() { let h = want["comment_formats"]["f"]["header"].clone(); want["comment_formats"]["f"] = h; }
    let now = shown(&c);
    ensure!(now == want, input, "the layers give {now}, expected {want}");
    // the project's settings, on top
    c.merge_acronyms(acronyms.clone());
    c.merge_text_maps(maps.clone());
    if let Some(a) = &acronyms {
        let mut l: Vec<String> = want.get("acronyms").and_then(Value::as_array).into_iter().flatten().map(|v| v.as_str().unwrap_or("").to_owned()).collect();
        for x in a {
            match l.iter().position(|y| y.to_lowercase() == x.to_lowercase()) {
                Some(i) => l[i] = x.clone(),
                None => l.push(x.clone()),
            }
        }
        want["acronyms"] = json!(l);
    }
    if let Some(m) = &maps {
        for (k, v) in m {
            want["text_maps"][k] = json!(v);
        }
        if want.get("text_maps").is_none_or(Value::is_null) { want["text_maps"] = json!({}); }
    }
    let now = shown(&c);
    ensure!(now == want, input, "with the project's settings it is {now}, expected {want}");
    Ok(())
}
