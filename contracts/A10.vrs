//@include prelude.vrs
verus! {
// ---- what a text parses to is a function of the text
pub trait VParse: Sized { spec fn parses(s: Seq<char>) -> Option<Self>; }
//@opaque VirtualDirectoryPath SchemaUrl ParseErr
pub type PathBuf = String;
pub uninterp spec fn path_of(s: Seq<char>) -> Option<VirtualDirectoryPath>;
pub uninterp spec fn url_of(s: Seq<char>) -> Option<SchemaUrl>;
impl VParse for VirtualDirectoryPath { open spec fn parses(s: Seq<char>) -> Option<Self> { path_of(s) } }
impl String { #[verifier::external_body] pub fn parse<T: VParse>(&self) -> (r: Result<T, ParseErr>) ensures r is Ok == T::parses(self@) is Some, r is Ok ==> T::parses(self@) == Some(r->Ok_0) { unimplemented!() } }
#[verifier::external_body] pub fn schema_url_from(s: &String) -> (r: Result<SchemaUrl, ParseErr>) ensures r is Ok == url_of(s@) is Some, r is Ok ==> url_of(s@) == Some(r->Ok_0) { unimplemented!() }
//@path SchemaUrl::try_from => schema_url_from
impl String { #[verifier::external_body] pub fn clone_from(&mut self, o: &String) ensures *final(self) == *o { unimplemented!() } }
//@type crates/weaver_config/src/registry.rs RegistryConfig
//@type crates/weaver_config/src/registry.rs PolicyConfig
//@type crates/weaver_config/src/registry.rs DiagnosticsConfig
//@type crates/weaver_config/src/resolve.rs ResolveConfig
//@type crates/weaver_config/src/effective.rs EffectiveRegistryConfig
//@type crates/weaver_config/src/effective.rs EffectivePolicyConfig
//@type crates/weaver_config/src/effective.rs EffectiveDiagnosticConfig
//@type crates/weaver_config/src/effective.rs EffectiveResolveConfig
//@type src/registry/mod.rs RegistryArgs
//@type src/registry/mod.rs PolicyArgs
//@type src/main.rs DiagnosticArgs
//@const crates/weaver_config/src/effective.rs DEFAULT_REGISTRY
//@const crates/weaver_config/src/effective.rs DEFAULT_DIAGNOSTIC_FORMAT
//@const crates/weaver_config/src/effective.rs DEFAULT_DIAGNOSTIC_TEMPLATE
//@path PathBuf::from => path_buf
#[verifier::external_body] pub fn path_buf(s: &String) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
pub open spec fn usual_registry() -> Seq<char> { "https://github.com/open-telemetry/semantic-conventions.git[model]"@ }
// (derived)
impl VDefault for EffectivePolicyConfig { open spec fn vdef(s: Self) -> bool { s.policies@.len() == 0 && !s.skip_policies && !s.display_policy_coverage } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl VDefault for EffectiveResolveConfig { open spec fn vdef(s: Self) -> bool { s.schema_url_overrides.m@ == Map::<SchemaUrl, VirtualDirectoryPath>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl EffectivePolicyConfig { pub fn default() -> (r: Self) ensures Self::vdef(r) { VDefault::vdefault() } }
impl EffectiveResolveConfig { pub fn default() -> (r: Self) ensures Self::vdef(r) { VDefault::vdefault() } }
/// (the constant is a path: unit tests of the crate)
pub axiom fn usual_registry_is_a_path() ensures path_of(usual_registry()) is Some;
//@fn crates/weaver_config/src/effective.rs Default for EffectiveRegistryConfig::default ret=r
    ensures Self::vdef(r)
//@at start
    proof { usual_registry_is_a_path(); }
//@end
//@fn crates/weaver_config/src/effective.rs Default for EffectiveDiagnosticConfig::default ret=r
    ensures Self::vdef(r)
//@end
impl VDefault for EffectiveRegistryConfig { open spec fn vdef(r: Self) -> bool { path_of(usual_registry()) == Some(r.registry) && !r.follow_symlinks && !r.include_unreferenced && !r.v2 } fn vdefault() -> (r: Self) { Self::default() } }
impl VDefault for EffectiveDiagnosticConfig { open spec fn vdef(r: Self) -> bool { r.diagnostic_format@ == "ansi"@ && r.diagnostic_template@ == "diagnostic_templates"@ && !r.diagnostic_stdout } fn vdefault() -> (r: Self) { Self::default() } }
/// the value of a setting: the layer's where it gives one, else what it was
pub open spec fn or<T>(layer: Option<T>, before: T) -> T { match layer { Some(v) => v, None => before } }
/// the same, where the layer gives text: text that is no path counts as not given
pub open spec fn or_path(layer: Option<String>, before: VirtualDirectoryPath) -> VirtualDirectoryPath {
    match layer { Some(t) => match path_of(t@) { Some(p) => p, None => before }, None => before } }
/// the paths among texts, in order
pub open spec fn paths_of(s: Seq<String>) -> Seq<VirtualDirectoryPath> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match path_of(s.last()@) { Some(p) => paths_of(s.drop_last()).push(p), None => paths_of(s.drop_last()) } } }
/// the file's [registry] section on top of what was there
pub open spec fn registry_file(b: EffectiveRegistryConfig, c: RegistryConfig) -> EffectiveRegistryConfig {
    EffectiveRegistryConfig { registry: or_path(c.path, b.registry), follow_symlinks: or(c.follow_symlinks, b.follow_symlinks), include_unreferenced: or(c.include_unreferenced, b.include_unreferenced), v2: or(c.v2, b.v2) } }
/// the command line on top of what was there
pub open spec fn registry_cli(b: EffectiveRegistryConfig, a: RegistryArgs) -> EffectiveRegistryConfig {
    EffectiveRegistryConfig { registry: or(a.registry, b.registry), follow_symlinks: or(a.follow_symlinks, b.follow_symlinks), include_unreferenced: or(a.include_unreferenced, b.include_unreferenced), v2: or(a.v2, b.v2) } }
pub open spec fn policy_is(p: EffectivePolicyConfig, paths: Seq<VirtualDirectoryPath>, skip: bool, coverage: bool) -> bool {
    p.policies@ == paths && p.skip_policies == skip && p.display_policy_coverage == coverage }
pub open spec fn policy_file(b: EffectivePolicyConfig, c: PolicyConfig, r: EffectivePolicyConfig) -> bool {
    policy_is(r, match c.paths { Some(ps) => paths_of(ps@), None => b.policies@ }, or(c.skip, b.skip_policies), or(c.display_policy_coverage, b.display_policy_coverage)) }
pub open spec fn policy_cli(b: EffectivePolicyConfig, a: PolicyArgs, r: EffectivePolicyConfig) -> bool {
    policy_is(r, match a.policies { Some(ps) => ps@, None => b.policies@ }, or(a.skip_policies, b.skip_policies), or(a.display_policy_coverage, b.display_policy_coverage)) }
pub open spec fn diagnostic_file(b: EffectiveDiagnosticConfig, c: DiagnosticsConfig) -> EffectiveDiagnosticConfig {
    EffectiveDiagnosticConfig { diagnostic_format: or(c.format, b.diagnostic_format), diagnostic_template: or(c.template, b.diagnostic_template), diagnostic_stdout: or(c.stdout, b.diagnostic_stdout) } }
pub open spec fn diagnostic_cli(b: EffectiveDiagnosticConfig, a: DiagnosticArgs) -> EffectiveDiagnosticConfig {
    EffectiveDiagnosticConfig { diagnostic_format: or(a.diagnostic_format, b.diagnostic_format), diagnostic_template: or(a.diagnostic_template, b.diagnostic_template), diagnostic_stdout: or(a.diagnostic_stdout, b.diagnostic_stdout) } }
//@fn crates/weaver_config/src/effective.rs EffectiveRegistryConfig::layer_config
    ensures *final(self) == registry_file(*old(self), *cfg)
//@end
//@fn src/registry/mod.rs RegistryArgs::apply_to
    ensures *final(effective) == registry_cli(*old(effective), *self)
//@end
//@fn crates/weaver_config/src/effective.rs EffectivePolicyConfig::skip_all ret=r
    ensures r.skip_policies, r.policies@.len() == 0, !r.display_policy_coverage
//@end
//@fn crates/weaver_config/src/effective.rs EffectivePolicyConfig::layer_config
    ensures policy_file(*old(self), *cfg, *final(self))
//@loop 0
    refs_of(__s0@, paths@), __a0@ == paths_of(paths@.take(__i0 as int)),
//@at loop0.start
    proof { assert(paths@.take(__i0 as int).drop_last() =~= paths@.take(__i0 - 1)); }
//@at loop0.after
    proof { assert(paths@.take(paths@.len() as int) =~= paths@); }
//@end
//@fn src/registry/mod.rs PolicyArgs::apply_to
    ensures policy_cli(*old(effective), *self, *final(effective))
//@end
//@fn crates/weaver_config/src/effective.rs EffectiveDiagnosticConfig::layer_config
    ensures *final(self) == diagnostic_file(*old(self), *cfg)
//@end
//@fn src/main.rs DiagnosticArgs::apply_to
    ensures *final(effective) == diagnostic_cli(*old(effective), *self)
//@end
/// the overrides written in the file: the ones that are a schema URL and a path; where two texts are the same URL, one of them
pub open spec fn overrides_file(b: Map<SchemaUrl, VirtualDirectoryPath>, c: Map<String, String>, r: Map<SchemaUrl, VirtualDirectoryPath>) -> bool {
    &&& forall|u: SchemaUrl| #[trigger] r.contains_key(u) <==> (b.contains_key(u) || exists|t: String| #[trigger] gives(c, t, u))
    &&& forall|u: SchemaUrl| #[trigger] r.contains_key(u) ==> (if exists|t: String| #[trigger] gives(c, t, u) { exists|t: String| #[trigger] gives(c, t, u) && path_of(c[t]@) == Some(r[u]) } else { r[u] == b[u] }) }
pub open spec fn gives(c: Map<String, String>, t: String, u: SchemaUrl) -> bool { c.contains_key(t) && url_of(t@) == Some(u) && path_of(c[t]@) is Some }
pub open spec fn hit(s: Seq<(&String, &String)>, i: int, u: SchemaUrl) -> bool { url_of(s[i].0@) == Some(u) && path_of(s[i].1@) is Some }
pub open spec fn upto(b: Map<SchemaUrl, VirtualDirectoryPath>, s: Seq<(&String, &String)>, n: int, r: Map<SchemaUrl, VirtualDirectoryPath>) -> bool {
    &&& forall|u: SchemaUrl| #[trigger] r.contains_key(u) <==> (b.contains_key(u) || exists|i: int| 0 <= i < n && #[trigger] hit(s, i, u))
    &&& forall|u: SchemaUrl| #[trigger] r.contains_key(u) ==> (if exists|i: int| 0 <= i < n && #[trigger] hit(s, i, u) { exists|i: int| 0 <= i < n && #[trigger] hit(s, i, u) && path_of(s[i].1@) == Some(r[u]) } else { r[u] == b[u] }) }
pub proof fn lemma_upto(b: Map<SchemaUrl, VirtualDirectoryPath>, s: Seq<(&String, &String)>, n: int, r: Map<SchemaUrl, VirtualDirectoryPath>) requires 0 <= n < s.len(), upto(b, s, n, r)
    ensures
        url_of(s[n].0@) is None || path_of(s[n].1@) is None ==> upto(b, s, n + 1, r),
        url_of(s[n].0@) is Some && path_of(s[n].1@) is Some ==> upto(b, s, n + 1, r.insert(url_of(s[n].0@)->Some_0, path_of(s[n].1@)->Some_0)) {
    if url_of(s[n].0@) is None || path_of(s[n].1@) is None {
        assert forall|u: SchemaUrl| !#[trigger] hit(s, n, u) by {}
    } else {
        let v = url_of(s[n].0@)->Some_0;
        assert(hit(s, n, v));
        assert forall|u: SchemaUrl| u != v implies !#[trigger] hit(s, n, u) by {}
    } }
pub proof fn lemma_all(b: Map<SchemaUrl, VirtualDirectoryPath>, c: Map<String, String>, s: Seq<(&String, &String)>, r: Map<SchemaUrl, VirtualDirectoryPath>) requires enumerates_mapr(s, c), upto(b, s, s.len() as int, r) ensures overrides_file(b, c, r) {
    assert forall|i: int, u: SchemaUrl| 0 <= i < s.len() && #[trigger] hit(s, i, u) implies gives(c, *s[i].0, u) by {}
    assert forall|t: String, u: SchemaUrl| #[trigger] gives(c, t, u) implies exists|i: int| 0 <= i < s.len() && #[trigger] hit(s, i, u) by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == t; assert(hit(s, i, u)); } }
//@fn crates/weaver_config/src/effective.rs EffectiveResolveConfig::layer_config
    ensures overrides_file(old(self).schema_url_overrides.m@, cfg.schema_url_overrides.m@, final(self).schema_url_overrides.m@)
//@loop 0
    enumerates_mapr(__s0@, cfg.schema_url_overrides.m@),
    upto(old(self).schema_url_overrides.m@, __s0@, __i0 as int, self.schema_url_overrides.m@),
//@at loop0.start
    proof { assert(__x0 == __s0@[__i0 - 1]); lemma_upto(old(self).schema_url_overrides.m@, __s0@, __i0 - 1, self.schema_url_overrides.m@); }
//@at loop0.after
    proof { lemma_all(old(self).schema_url_overrides.m@, cfg.schema_url_overrides.m@, __s0@, self.schema_url_overrides.m@); }
//@end
/// the whole file
pub struct WeaverConfig { pub registry: RegistryConfig, pub policy: PolicyConfig, pub diagnostics: DiagnosticsConfig, pub resolve: ResolveConfig, pub template: TemplateConfig, pub commands: Commands }
//@opaque Commands TemplateConfig
//@fn src/main.rs DiagnosticArgs::to_effective ret=r
    ensures exists|d: EffectiveDiagnosticConfig| #[trigger] EffectiveDiagnosticConfig::vdef(d) && r == diagnostic_cli(match cfg { Some(wc) => diagnostic_file(d, wc.diagnostics), None => d }, *self)
//@at let.effective
    let ghost d = effective;
//@end
// ---- a command: its own settings (generated code, weaver_macros) and the shared ones
pub trait VUsual: Sized { spec fn usual(c: Self) -> bool; fn default() -> (r: Self) ensures Self::usual(r); }
pub trait CliOverrides: Sized {
    type Config: VUsual;
    spec fn in_file(w: WeaverConfig, c: Self::Config) -> bool;
    spec fn overridden(self, b: Self::Config, c: Self::Config) -> bool;
    spec fn registry_args(self) -> RegistryArgs;
    spec fn policy_args(self) -> PolicyArgs;
    spec fn has_policy() -> bool;
    fn extract_config(w: &WeaverConfig) -> (r: Self::Config) ensures Self::in_file(*w, r);
    fn apply_overrides(&self, c: &mut Self::Config) ensures self.overridden(*old(c), *final(c));
    fn apply_registry_overrides(&self, c: &mut EffectiveRegistryConfig) ensures *final(c) == registry_cli(*old(c), self.registry_args());
    fn apply_policy_overrides(&self, c: &mut EffectivePolicyConfig) ensures policy_cli(*old(c), self.policy_args(), *final(c));
    fn uses_policy() -> (r: bool) ensures r == Self::has_policy();
}
//@type crates/weaver_config/src/overrides.rs CommandConfig
/// defaults, then the file, then the command line
pub open spec fn registry_settings(a: RegistryArgs, w: Option<&WeaverConfig>, r: EffectiveRegistryConfig) -> bool {
    exists|d: EffectiveRegistryConfig| #[trigger] EffectiveRegistryConfig::vdef(d) && r == registry_cli(match w { Some(c) => registry_file(d, c.registry), None => d }, a) }
pub open spec fn policy_settings(a: PolicyArgs, w: Option<&WeaverConfig>, r: EffectivePolicyConfig) -> bool {
    exists|d: EffectivePolicyConfig, f: EffectivePolicyConfig| #[trigger] EffectivePolicyConfig::vdef(d) && #[trigger] policy_cli(f, a, r) && (match w { Some(c) => policy_file(d, c.policy, f), None => f == d }) }
pub open spec fn command_settings<A: CliOverrides>(a: A, w: Option<&WeaverConfig>, r: A::Config) -> bool {
    exists|f: A::Config| #[trigger] a.overridden(f, r) && (match w { Some(c) => A::in_file(*c, f), None => A::Config::usual(f) }) }
//@fn src/registry/mod.rs load_config ret=r
    ensures
        command_settings(*args, weaver_config, r.config),
        registry_settings(args.registry_args(), weaver_config, r.registry),
        if A::has_policy() { policy_settings(args.policy_args(), weaver_config, r.policy) } else { r.policy.skip_policies },
        overrides_file(Map::empty(), match weaver_config { Some(c) => c.resolve.schema_url_overrides.m@, None => Map::empty() }, r.resolve.schema_url_overrides.m@),
//@end
} // verus!
fn main() {}
