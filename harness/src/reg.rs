//! Registries on disk, resolved through the public API.
use serde_json::Value;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use weaver_common::result::WResult;
use weaver_common::vdir::VirtualDirectoryPath;
use weaver_resolver::{DefaultSchemaVisitor, Error, WeaverResolvedSchema, WeaverResolver, WeaverResolverConfig};
use weaver_semconv::registry_repo::RegistryRepo;
use weaver_semconv::schema_url::SchemaUrl;

static N: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vharness-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn write(&self, name: &str, v: &Value) {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("dir");
        }
        std::fs::write(p, serde_json::to_string_pretty(v).unwrap()).expect("write");
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn resolver() -> WeaverResolver {
    WeaverResolver::new(WeaverResolverConfig::default())
}

/// resolves the registry in `dir`; `Ok((schema, non-fatal errors))`
pub fn resolve(dir: &Path, url: &str) -> Result<(WeaverResolvedSchema, Vec<Error>), Error> {
    resolve_with(&mut resolver(), dir, url)
}

pub fn resolve_with(r: &mut WeaverResolver, dir: &Path, url: &str) -> Result<(WeaverResolvedSchema, Vec<Error>), Error> {
    let path = VirtualDirectoryPath::LocalFolder { path: dir.to_string_lossy().into_owned() };
    let url: SchemaUrl = url.try_into().expect("url");
    let repo = RegistryRepo::try_new(Some(url), &path, &mut vec![]).map_err(Error::FailToResolveDefinition)?;
    match r.load_and_resolve_schema(repo, DefaultSchemaVisitor) {
        WResult::Ok(s) => Ok((s, vec![])),
        WResult::OkWithNFEs(s, e) => Ok((s, e)),
        WResult::FatalErr(e) => Err(e),
    }
}
