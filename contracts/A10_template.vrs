//@include prelude.vrs
verus! {
// ---- the configuration of a template package: weaver.yaml files from the most general to the most specific, then the project's .weaver.toml
//@opaque CommentFormat TemplateConfig Value YamlErr
pub type PathBuf = String;
pub uninterp spec fn is_null(v: Value) -> bool;
impl Value { #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == is_null(*self) { unimplemented!() } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
impl String { #[verifier::external_body] pub fn to_lowercase(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() } }
impl YamlErr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
//@type crates/weaver_forge/src/config.rs TemplateSyntax
//@type crates/weaver_forge/src/config.rs WhitespaceControl
//@type crates/weaver_forge/src/config.rs WeaverConfig
pub struct FileContent { pub content: String, pub path: PathBuf }
pub enum Error { InvalidConfigFile { config_file: PathBuf, error: String }, Other(u64) }
pub use Error::InvalidConfigFile;
impl VDefault for WhitespaceControl { open spec fn vdef(s: Self) -> bool { s.trim_blocks is None && s.lstrip_blocks is None && s.keep_trailing_newline is None } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
/// what a file's text says
pub uninterp spec fn says(t: Seq<char>) -> Option<WeaverConfig>;
#[verifier::external_body] pub fn yaml_config(t: &String) -> (r: Result<WeaverConfig, YamlErr>) ensures r is Ok == says(t@) is Some, r is Ok ==> says(t@) == Some(r->Ok_0) { unimplemented!() }
//@path serde_yaml::from_str => yaml_config
/// the child's value where it has one, else the parent's
pub open spec fn or<T>(child: Option<T>, parent: Option<T>) -> Option<T> { match child { Some(_) => child, None => parent } }
pub open spec fn syntax_over(p: TemplateSyntax, c: TemplateSyntax) -> TemplateSyntax {
    TemplateSyntax { block_start: or(c.block_start, p.block_start), block_end: or(c.block_end, p.block_end), variable_start: or(c.variable_start, p.variable_start), variable_end: or(c.variable_end, p.variable_end), comment_start: or(c.comment_start, p.comment_start), comment_end: or(c.comment_end, p.comment_end) } }
pub open spec fn whitespace_over(p: WhitespaceControl, c: WhitespaceControl) -> WhitespaceControl {
    WhitespaceControl { trim_blocks: or(c.trim_blocks, p.trim_blocks), lstrip_blocks: or(c.lstrip_blocks, p.lstrip_blocks), keep_trailing_newline: or(c.keep_trailing_newline, p.keep_trailing_newline) } }
pub open spec fn map_or_none<K, V>(o: Option<BTreeMap<K, V>>) -> Map<K, V> { match o { Some(m) => m.m@, None => Map::empty() } }
/// parameters: those of both, the child's value for a common one, without those the child sets to null
pub open spec fn params_over(p: Map<String, Value>, c: Map<String, Value>, r: Map<String, Value>) -> bool {
    forall|k: String| #![trigger r.contains_key(k)] #![trigger c.contains_key(k)] if c.contains_key(k) { if is_null(c[k]) { !r.contains_key(k) } else { r.contains_key(k) && r[k] == c[k] } } else { r.contains_key(k) == p.contains_key(k) && (p.contains_key(k) ==> r[k] == p[k]) } }
pub open spec fn overridden(p: WeaverConfig, c: WeaverConfig, r: WeaverConfig) -> bool {
    &&& r.type_mapping == or(c.type_mapping, p.type_mapping)
    &&& r.text_maps == or(c.text_maps, p.text_maps)
    &&& r.template_syntax == syntax_over(p.template_syntax, c.template_syntax)
    &&& r.whitespace_control == whitespace_over(p.whitespace_control, c.whitespace_control)
    &&& r.comment_formats == or(c.comment_formats, p.comment_formats)
    &&& r.default_comment_format == or(c.default_comment_format, p.default_comment_format)
    &&& params_over(map_or_none(p.params), map_or_none(c.params), map_or_none(r.params))
    &&& r.templates == or(c.templates, p.templates)
    &&& r.acronyms == or(c.acronyms, p.acronyms)
}
pub open spec fn usual(r: WeaverConfig) -> bool {
    &&& r.type_mapping is None && r.text_maps is None && r.comment_formats is None && r.default_comment_format is None && r.params is None && r.templates is None && r.acronyms is None
    &&& WhitespaceControl::vdef(r.whitespace_control)
    &&& r.template_syntax.block_start is Some && r.template_syntax.block_start->Some_0@ == "{%"@
    &&& r.template_syntax.block_end is Some && r.template_syntax.block_end->Some_0@ == "%}"@
    &&& r.template_syntax.variable_start is Some && r.template_syntax.variable_start->Some_0@ == "{{"@
    &&& r.template_syntax.variable_end is Some && r.template_syntax.variable_end->Some_0@ == "}}"@
    &&& r.template_syntax.comment_start is Some && r.template_syntax.comment_start->Some_0@ == "{#"@
    &&& r.template_syntax.comment_end is Some && r.template_syntax.comment_end->Some_0@ == "#}"@
}
//@fn crates/weaver_forge/src/config.rs Default for WeaverConfig::default ret=r
    ensures usual(r)
//@end
//@fn crates/weaver_forge/src/config.rs TemplateSyntax::override_with
    ensures *final(self) == syntax_over(*old(self), other)
//@end
//@fn crates/weaver_forge/src/config.rs WhitespaceControl::override_with
    ensures *final(self) == whitespace_over(*old(self), other)
//@end
/// the first n of the child's parameters are merged
pub open spec fn params_upto(p: Map<String, Value>, s: Seq<(String, Value)>, n: int, r: Map<String, Value>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> (if is_null((#[trigger] s[i]).1) { !r.contains_key(s[i].0) } else { r.contains_key(s[i].0) && r[s[i].0] == s[i].1 })
    &&& forall|k: String| (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 != k) ==> (#[trigger] r.contains_key(k)) == p.contains_key(k) && (p.contains_key(k) ==> r[k] == p[k]) }
pub proof fn lemma_params(p: Map<String, Value>, c: Map<String, Value>, s: Seq<(String, Value)>, n: int, r: Map<String, Value>) requires enumerates_map(s, c), 0 <= n < s.len(), params_upto(p, s, n, r)
    ensures is_null(s[n].1) ==> params_upto(p, s, n + 1, r.remove(s[n].0)), !is_null(s[n].1) ==> params_upto(p, s, n + 1, r.insert(s[n].0, s[n].1)) {
    let q = if is_null(s[n].1) { r.remove(s[n].0) } else { r.insert(s[n].0, s[n].1) };
    assert forall|k: String| (forall|i: int| 0 <= i < n + 1 ==> (#[trigger] s[i]).0 != k) implies (#[trigger] q.contains_key(k)) == p.contains_key(k) && (p.contains_key(k) ==> q[k] == p[k]) by { assert(s[n].0 != k); assert(q.contains_key(k) == r.contains_key(k)); }
}
pub proof fn lemma_params_all(p: Map<String, Value>, c: Map<String, Value>, s: Seq<(String, Value)>, r: Map<String, Value>) requires enumerates_map(s, c), params_upto(p, s, s.len() as int, r) ensures params_over(p, c, r) {}
//@fn crates/weaver_forge/src/config.rs WeaverConfig::override_with
    ensures overridden(*old(self), child, *final(self))
//@at start
    let ghost before = map_or_none(self.params);
    let ghost given = map_or_none(child.params);
    proof { assert(params_over(before, Map::empty(), before)); }
//@at loop0.before
    let ghost kept = *self;
//@loop 0
    enumerates_map(__s0@, given), params_upto(before, __s0@, __i0 as int, map_or_none(self.params)),
    *self == (WeaverConfig { params: self.params, ..kept }),
//@at loop0.start
    proof { lemma_params(before, given, __s0@, __i0 - 1, map_or_none(self.params)); assert(__x0 == __s0@[__i0 - 1]); }
    let ghost m = map_or_none(self.params);
//@at loop0.end
    proof { assert(map_or_none(self.params) =~= (if is_null(__s0@[__i0 - 1].1) { m.remove(__s0@[__i0 - 1].0) } else { m.insert(__s0@[__i0 - 1].0, __s0@[__i0 - 1].1) })); }
//@at loop0.after
    proof { lemma_params_all(before, given, __s0@, map_or_none(self.params)); }
//@end
/// the first of the acronyms that is the given one in small letters
pub open spec fn first_like(l: Seq<String>, t: Seq<char>) -> Option<int> decreases l.len() {
    if l.len() == 0 { None } else { match first_like(l.drop_last(), t) { Some(i) => Some(i), None => if lower(l.last()@) == t { Some(l.len() - 1) } else { None } } } }
pub proof fn lemma_like(l: Seq<String>, t: Seq<char>, n: int) requires 0 <= n <= l.len() ensures first_like(l.take(n), t) is Some ==> first_like(l, t) == first_like(l.take(n), t), first_like(l, t) is Some ==> 0 <= first_like(l, t)->Some_0 < l.len() decreases l.len() {
    if n == l.len() { assert(l.take(n) =~= l); if l.len() > 0 { lemma_like(l.drop_last(), t, l.len() - 1); } } else { assert(l.drop_last().take(n) =~= l.take(n)); lemma_like(l.drop_last(), t, n); } }
/// an acronym takes the place of one that differs in case only, else it comes last
pub open spec fn with_acronym(l: Seq<String>, a: String) -> Seq<String> { match first_like(l, lower(a@)) { Some(i) => l.update(i, a), None => l.push(a) } }
pub open spec fn with_acronyms(l: Seq<String>, a: Seq<String>) -> Seq<String> decreases a.len() { if a.len() == 0 { l } else { with_acronym(with_acronyms(l, a.drop_last()), a.last()) } }
pub open spec fn list_or_none(o: Option<Vec<String>>) -> Seq<String> { match o { Some(l) => l@, None => Seq::empty() } }
pub open spec fn acronyms_merged(b: WeaverConfig, a: Option<Vec<String>>, r: WeaverConfig) -> bool {
    r == (WeaverConfig { acronyms: r.acronyms, ..b }) && (match a { None => r.acronyms == b.acronyms, Some(l) => r.acronyms is Some && r.acronyms->Some_0@ == with_acronyms(list_or_none(b.acronyms), l@) }) }
//@fn crates/weaver_forge/src/config.rs WeaverConfig::merge_acronyms
    ensures acronyms_merged(*old(self), acronyms, *final(self))
//@at start
    let ghost mut all: Seq<String> = list_or_none(acronyms);
//@at loop0.before
    proof { assert(merged@ =~= list_or_none(old(self).acronyms)); }
//@loop 0
    __s0@ == all, merged@ == with_acronyms(list_or_none(old(self).acronyms), all.take(__i0 as int)),
//@at loop0.start
    proof { assert(all.take(__i0 as int).drop_last() =~= all.take(__i0 - 1)); lemma_like(merged@, lower(__x0@), 0); }
    let ghost was = merged@;
//@loop 1
    __a1 is None, refs_of(__s1@, merged@), merged@ == was, first_like(was.take(__i1 as int), lower(__x0@)) is None,
//@at loop1.start
    proof { assert(was.take(__i1 as int).drop_last() =~= was.take(__i1 - 1)); lemma_like(was, lower(__x0@), __i1 as int); }
//@at loop1.after
    proof { assert(was.take(was.len() as int) =~= was); }
//@at loop0.end
    proof { assert(merged@ =~= with_acronym(was, __s0@[__i0 - 1])); }
//@at loop0.after
    proof { assert(all.take(all.len() as int) =~= all); }
//@end
pub open spec fn maps_or_none(o: Option<HashMap<String, HashMap<String, String>>>) -> Map<String, HashMap<String, String>> { match o { Some(m) => m.m@, None => Map::empty() } }
/// text maps: those of both, the project's for a common name
pub open spec fn text_maps_merged(b: WeaverConfig, t: Option<HashMap<String, HashMap<String, String>>>, r: WeaverConfig) -> bool {
    &&& r == (WeaverConfig { text_maps: r.text_maps, ..b })
    &&& t is None ==> r.text_maps == b.text_maps
    &&& maps_or_none(r.text_maps) == maps_or_none(b.text_maps).union_prefer_right(maps_or_none(t)) }
pub open spec fn maps_upto<V>(b: Map<String, V>, s: Seq<(String, V)>, n: int, r: Map<String, V>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> r.contains_key((#[trigger] s[i]).0) && r[s[i].0] == s[i].1
    &&& forall|k: String| (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 != k) ==> (#[trigger] r.contains_key(k)) == b.contains_key(k) && (b.contains_key(k) ==> r[k] == b[k]) }
pub proof fn lemma_maps<V>(b: Map<String, V>, c: Map<String, V>, s: Seq<(String, V)>, n: int, r: Map<String, V>) requires enumerates_map(s, c), 0 <= n < s.len(), maps_upto(b, s, n, r) ensures maps_upto(b, s, n + 1, r.insert(s[n].0, s[n].1)) {
    let q = r.insert(s[n].0, s[n].1);
    assert forall|k: String| (forall|i: int| 0 <= i < n + 1 ==> (#[trigger] s[i]).0 != k) implies (#[trigger] q.contains_key(k)) == b.contains_key(k) && (b.contains_key(k) ==> q[k] == b[k]) by { assert(s[n].0 != k); assert(q.contains_key(k) == r.contains_key(k)); } }
//@fn crates/weaver_forge/src/config.rs WeaverConfig::merge_text_maps
    ensures text_maps_merged(*old(self), text_maps, *final(self))
//@at start
    let ghost b = maps_or_none(self.text_maps);
    let ghost given = maps_or_none(text_maps);
    proof { assert(b.union_prefer_right(Map::empty()) =~= b); }
//@loop 0
    enumerates_map(__s0@, given), maps_upto(b, __s0@, __i0 as int, __r0.m@),
//@at loop0.start
    proof { lemma_maps(b, given, __s0@, __i0 - 1, __r0.m@); assert(__x0 == __s0@[__i0 - 1]); }
//@at loop0.after
    proof { assert(__r0.m@ =~= b.union_prefer_right(given)); }
//@end
/// the files on top of each other, the last one uppermost; None: one of them is no configuration
pub open spec fn layered(fs: Seq<FileContent>, r: WeaverConfig) -> bool decreases fs.len() {
    if fs.len() == 0 { usual(r) } else { says(fs.last().content@) is Some && exists|b: WeaverConfig| layered(fs.drop_last(), b) && #[trigger] overridden(b, says(fs.last().content@)->Some_0, r) } }
//@fn crates/weaver_forge/src/config.rs WeaverConfig::resolve_from ret=r
    ensures (match r { Ok(c) => layered(configs@, c), Err(_) => exists|i: int| 0 <= i < configs@.len() && says((#[trigger] configs@[i]).content@) is None })
//@loop 0
    refs_of(__s0@, configs@), layered(configs@.take(__i0 as int), config),
//@at loop0.start
    let ghost was = config;
    proof { assert(configs@.take(__i0 as int).drop_last() =~= configs@.take(__i0 - 1)); assert(__x0.content == configs@[__i0 - 1].content); }
//@at loop0.end
    proof { assert(overridden(was, says(configs@[__i0 - 1].content@)->Some_0, config)); assert(configs@.take(__i0 as int).last() == configs@[__i0 - 1]); }
//@at loop0.after
    proof { assert(configs@.take(configs@.len() as int) =~= configs@); }
//@end
/// the project's .weaver.toml (fields not used here left out)
pub struct ProjectConfig { pub template: ProjectTemplate }
//@type crates/weaver_config/src/template.rs TemplateConfig as=ProjectTemplate
//@path weaver_config::WeaverConfig => ProjectConfig
//@fn src/registry/mod.rs apply_template_config
    ensures match weaver_config {
        None => *final(config) == *old(config),
        Some(p) => exists|m: WeaverConfig| #[trigger] acronyms_merged(*old(config), p.template.acronyms, m) && text_maps_merged(m, p.template.text_maps, *final(config)) }
//@end
} // verus!
fn main() {}
