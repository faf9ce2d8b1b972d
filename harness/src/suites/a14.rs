//! A14: unpacking a registry archive. Runs as an unprivileged user, with every path inside a scratch directory.
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use weaver_common::vdir::{VirtualDirectory, VirtualDirectoryPath};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "archive", total: None, run: case }]
}
/// Re-run this program as `nobody` with a scratch directory it owns; returns its exit code.
pub fn confined(args: &[String]) -> i32 {
    let scratch = std::env::temp_dir().join(format!("vharness-a14-{}", std::process::id()));
    // deep enough that the generated `..` never climb out of it
    let home = scratch.join("d1/d2/d3/d4/d5/d6/home");
    std::fs::create_dir_all(&home).expect("scratch");
    let mut p = home.clone();
    while p.starts_with(&scratch) {
        std::os::unix::fs::chown(&p, Some(65534), Some(65534)).expect("chown");
        let _ = p.pop();
    }
    let out = scratch.join("out.json");
    let mut child: Vec<String> = args[1..].to_vec();
    let mut copy_to = None;
    if let Some(i) = child.iter().position(|a| a == "--out") {
        copy_to = Some(child[i + 1].clone());
        child[i + 1] = out.display().to_string();
    }
    if let Some(i) = child.iter().position(|a| a == "--replay") {
        let f = scratch.join("replay.json");
        let _ = std::fs::copy(&child[i + 1], &f).expect("replay");
        child[i + 1] = f.display().to_string();
    }
    let code = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(&child)
        .env("VH_SCRATCH", &scratch)
        .env("HOME", &home)
        .current_dir(&scratch)
        .gid(65534)
        .uid(65534)
        .status()
        .expect("run as nobody")
        .code()
        .unwrap_or(3);
    if let Some(t) = copy_to {
        let _ = std::fs::copy(&out, t);
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
static N: AtomicU64 = AtomicU64::new(0);

#[derive(Debug, Clone)]
enum Kind {
    File(String),
    Dir,
    Link(String),
}
fn walk(d: &Path, base: &Path, out: &mut BTreeMap<String, String>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        let ft = e.file_type().expect("type");
        if ft.is_dir() {
            walk(&p, base, out);
        } else if ft.is_file() {
            let _ = out.insert(p.strip_prefix(base).unwrap().display().to_string(), std::fs::read_to_string(&p).unwrap_or_default());
        }
    }
}
fn tar_gz(path: &Path, es: &[(String, Kind)]) {
    let f = std::fs::File::create(path).expect("archive");
    let mut b = tar::Builder::new(flate2::write::GzEncoder::new(f, flate2::Compression::fast()));
    for (n, k) in es {
        let mut h = tar::Header::new_gnu();
        h.set_mode(0o755);
        // names are written raw: the builder itself refuses `..`
        h.as_gnu_mut().unwrap().name[..n.len()].copy_from_slice(n.as_bytes());
        let data: &[u8] = match k {
            Kind::File(c) => {
                h.set_entry_type(tar::EntryType::Regular);
                c.as_bytes()
            }
            Kind::Dir => {
                h.set_entry_type(tar::EntryType::Directory);
                &[]
            }
            Kind::Link(t) => {
                h.set_entry_type(tar::EntryType::Symlink);
                h.as_gnu_mut().unwrap().linkname[..t.len()].copy_from_slice(t.as_bytes());
                &[]
            }
        };
        h.set_size(data.len() as u64);
        h.set_cksum();
        b.append(&h, data).expect("append");
    }
    let _ = b.into_inner().expect("tar").finish().expect("gz");
}
fn zip_file(path: &Path, es: &[(String, Kind)]) {
    let mut z = zip::ZipWriter::new(std::fs::File::create(path).expect("archive"));
    let o = zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Stored);
    for (n, k) in es {
        match k {
            Kind::File(c) => {
                if z.start_file(n.clone(), o).is_ok() {
                    z.write_all(c.as_bytes()).expect("write");
                }
            }
            Kind::Dir => {
                let _ = z.add_directory(n.clone(), o);
            }
            Kind::Link(_) => {}
        }
    }
    let _ = z.finish().expect("zip");
}
fn case(r: &mut Rng, _: u64) -> R {
    let home = PathBuf::from(std::env::var_os("HOME").expect("HOME"));
    let id = N.fetch_add(1, Ordering::Relaxed);
    let work = home.join(format!("w{id}"));
    std::fs::create_dir_all(work.join("outside")).expect("work");
    let zip = r.chance(1, 3);
    let arch = work.join(if zip { "a.zip" } else { "a.tar.gz" });
    let subs = ["sub", "model", "m"];
    let sub: Option<String> = match r.below(6) {
        0 | 1 => None,
        2 => Some((*r.pick(&["", " "])).to_owned()),
        _ => Some((*r.pick(&subs)).to_owned()),
    };
    let filtered = sub.as_ref().is_some_and(|s| !s.trim().is_empty());
    let n = 1 + r.below(6);
    let mut es: Vec<(String, Kind)> = vec![];
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let mut climbs: Vec<String> = vec![];
    let mut linked = false;
    for i in 0..n {
        let mut c: Vec<String> = vec![(*r.pick(&["root", ".", "root", "other", ".."])).to_owned()];
        if r.chance(3, 4) {
            c.push((*r.pick(&["sub", "model", "m", "subx", "Sub", ".."])).to_owned());
        }
        for _ in 0..r.below(3) {
            c.push((*r.pick(&["sub", "d0", "d1", "..", "root"])).to_owned());
        }
        let kind = match r.below(8) {
            0 if !zip && !linked => {
                linked = true;
                Kind::Link((*r.pick(&[work.join("outside").to_str().unwrap(), "..", "../..", "d0"])).to_owned())
            }
            1 => Kind::Dir,
            _ => Kind::File(format!("content {i} of w{id}.")),
        };
        c.push(match kind {
            Kind::Dir => "d2".to_owned(),
            Kind::Link(_) => "ln".to_owned(),
            Kind::File(_) => format!("f{i}.yaml"),
        });
        if linked && r.chance(1, 2) && !matches!(kind, Kind::Link(_)) {
            let at = c.len() - 1;
            c.insert(at, "ln".to_owned());
        }
        let absolute = r.chance(1, 12);
        let name = if absolute { format!("{}/{}", work.join("outside").display(), c.join("/")) } else { c.join("/") };
        if name.len() >= 95 {
            continue;
        }
        // what the user asked for: the entries of the sub-folder, below the archive's root folder
        let comps: Vec<String> = Path::new(&name).components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect();
        let selected = !filtered || comps.len() < 2 || Some(&comps[1]) == sub.as_ref();
        let rest: Vec<String> = comps.iter().skip(if filtered { 2 } else { 1 }).cloned().collect();
        if let Kind::File(t) = &kind {
            if absolute || rest.iter().any(|c| c == "..") || comps[0] == ".." || name.contains("..") {
                climbs.push(t.clone());
            } else if selected && !rest.is_empty() {
                if rest.iter().any(|c| c == "ln") {
                    climbs.push(t.clone());
                } else {
                    let _ = want.insert(rest.join("/"), t.clone());
                }
            }
        }
        es.push((name, kind));
    }
    if zip {
        zip_file(&arch, &es)
    } else {
        tar_gz(&arch, &es)
    }
    let input = json!({"archive": if zip { "zip" } else { "tar.gz" }, "sub_folder": sub, "entries": es.iter().map(|(n, k)| format!("{n} {k:?}")).collect::<Vec<_>>()});
    let vp = VirtualDirectoryPath::LocalArchive { path: arch.display().to_string(), sub_folder: sub.clone() };
    let vd = VirtualDirectory::try_new(&vp);
    let mut outside = BTreeMap::new();
    walk(&work, &work, &mut outside);
    let _ = outside.remove("a.zip");
    let _ = outside.remove("a.tar.gz");
    // files of this case in any folder above the target (other cases' folders lie beside it)
    let mut cache = BTreeMap::new();
    let scratch = std::env::var_os("VH_SCRATCH").expect("scratch");
    let top = home.join(".weaver/vdir_cache");
    for up in top.ancestors().take_while(|p| p.starts_with(&scratch)) {
        for e in std::fs::read_dir(up).into_iter().flatten().flatten().flat_map(|e| {
            let n = e.file_name().to_string_lossy().into_owned();
            let mut v: Vec<PathBuf> = vec![e.path()];
            if e.file_type().is_ok_and(|t| t.is_dir()) && ["d0", "d1", "sub", "root", "model", "m", "other", "outside"].contains(&n.as_str()) {
                let mut m = BTreeMap::new();
                if up.as_os_str() != scratch {
                    walk(&e.path(), &e.path(), &mut m);
                }
                v.extend(m.into_keys().map(|k| e.path().join(k)));
            }
            v
        }) {
            if e.is_file() && e.extension().is_some_and(|x| x == "yaml") {
                let t = std::fs::read_to_string(&e).unwrap_or_default();
                if t.ends_with(&format!(" of w{id}.")) {
                    let _ = std::fs::remove_file(&e);
                    let _ = cache.insert(e.display().to_string(), t);
                }
            }
        }
    }
    let escaped = json!({"in_work": outside, "in_cache": cache});
    let mut got = BTreeMap::new();
    let res = match &vd {
        Ok(v) => {
            walk(v.path(), v.path(), &mut got);
            Ok(())
        }
        Err(e) => Err(e.to_string()),
    };
    drop(vd);
    let _ = std::fs::remove_dir_all(&work);
    ensure!(outside.is_empty() && cache.is_empty(), input, "unpacking wrote outside its folder: {escaped}");
    match res {
        Ok(()) => {
            for (k, v) in &want {
                ensure!(got.get(k) == Some(v), input, "{k} should be unpacked with {v:?}, found {:?}", got.get(k));
            }
            for (k, v) in &got {
                ensure!(want.contains_key(k) || climbs.contains(v), input, "{k} ({v:?}) is unpacked but was not asked for");
            }
        }
        Err(e) => ensure!(linked, input, "a sound archive is refused: {e}"),
    }
    Ok(())
}
