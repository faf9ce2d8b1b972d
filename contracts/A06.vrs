//@include prelude.vrs
verus! {
//@opaque GlobErr PathBuf LiveCheckOtlpConfig LiveCheckEmitConfig
// ---- globset (external crate): a set of patterns; `is_match` iff some pattern matches. What a pattern matches is left uninterpreted.
pub uninterp spec fn glob_match(p: Seq<char>, n: Seq<char>) -> bool;
pub uninterp spec fn glob_valid(p: Seq<char>) -> bool;
pub struct Glob { pub p: Ghost<Seq<char>> }
pub struct GlobSetBuilder { pub g: Ghost<Seq<Seq<char>>> }
pub struct GlobSet { pub g: Ghost<Seq<Seq<char>>> }
impl Glob { #[verifier::external_body] pub fn new(p: &String) -> (r: Result<Glob, GlobErr>) ensures r is Ok == glob_valid(p@), r is Ok ==> r->Ok_0.p@ == p@ { unimplemented!() } }
impl GlobSetBuilder {
    #[verifier::external_body] pub fn new() -> (r: GlobSetBuilder) ensures r.g@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, g: Glob) ensures final(self).g@ == old(self).g@.push(g.p@) { unimplemented!() }
    #[verifier::external_body] pub fn build(&self) -> (r: Result<GlobSet, GlobErr>) ensures r is Ok, r->Ok_0.g@ == self.g@ { unimplemented!() }
}
pub open spec fn any_glob(g: Seq<Seq<char>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < g.len() && glob_match(#[trigger] g[i], n) }
impl GlobSet { #[verifier::external_body] pub fn is_match(&self, n: &String) -> (r: bool) ensures r == any_glob(self.g@, n@) { unimplemented!() } }
pub enum Error { ConfigError { error: String } }
//@include live_types.vrs
//@type crates/weaver_config/src/live_check.rs FindingFilter
//@type crates/weaver_config/src/live_check.rs FindingLevelOverride
//@type crates/weaver_config/src/live_check.rs FailOnLevel
//@type crates/weaver_config/src/live_check.rs LiveCheckConfig
//@type crates/weaver_live_check/src/finding_modifier.rs CompiledFilter
//@type crates/weaver_live_check/src/finding_modifier.rs CompiledLevelOverride
//@type crates/weaver_live_check/src/finding_modifier.rs FindingModifier

// ---- the property, stated on the user's rules
/// the name of the sample a finding is about: attributes, spans, span events, scopes, metrics and logs have one; points, links and resources do not
pub open spec fn name_of(s: SampleRef) -> Option<Seq<char>> { match s {
    SampleRef::Attribute(x) => Some(x.name@), SampleRef::Span(x) => Some(x.name@), SampleRef::SpanEvent(x) => Some(x.name@), SampleRef::InstrumentationScope(x) => Some(x.name@),
    SampleRef::Metric(x) => Some(x.name@), SampleRef::Log(x) => Some(x.event_name@), _ => None } }
//@fn crates/weaver_live_check/src/lib.rs SampleRef::sample_name
    ensures (match r { Some(x) => name_of(*self) == Some(x@), None => name_of(*self) is None })
//@end

pub open spec fn lists_match(pats: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < pats.len() && glob_match((#[trigger] pats[i])@, n) }
pub open spec fn in_scope(signal_type: Option<String>, sample_names: Seq<String>, f: PolicyFinding, s: SampleRef) -> bool {
    &&& signal_type is Some ==> f.signal_type == signal_type
    &&& sample_names.len() > 0 ==> name_of(s) is Some && lists_match(sample_names, name_of(s)->Some_0)
}
pub open spec fn lists_id(ids: Seq<String>, id: String) -> bool { exists|i: int| 0 <= i < ids.len() && #[trigger] ids[i] == id }
pub open spec fn override_hits(o: FindingLevelOverride, f: PolicyFinding, s: SampleRef) -> bool {
    in_scope(o.signal_type, o.sample_names@, f, s) && (o.ids is Some ==> lists_id(o.ids->Some_0@, f.id)) }
/// the level after the overrides: that of the first override that hits, else the finding's own
pub open spec fn new_level(os: Seq<FindingLevelOverride>, f: PolicyFinding, s: SampleRef) -> FindingLevel decreases os.len() {
    if os.len() == 0 { f.level } else if override_hits(os[0], f, s) { os[0].level } else { new_level(os.drop_first(), f, s) } }
pub open spec fn filter_drops(x: FindingFilter, f: PolicyFinding, s: SampleRef) -> bool {
    in_scope(x.signal_type, x.sample_names@, f, s) && (
        (x.exclude is Some && lists_id(x.exclude->Some_0@, f.id))
        || (x.min_level is Some && f.level.vkey() < x.min_level->Some_0.vkey())
        || (x.exclude_samples@.len() > 0 && name_of(s) is Some && lists_match(x.exclude_samples@, name_of(s)->Some_0))) }
pub open spec fn modified(os: Seq<FindingLevelOverride>, fs: Seq<FindingFilter>, f: PolicyFinding, s: SampleRef) -> Option<PolicyFinding> {
    let g = PolicyFinding { level: new_level(os, f, s), ..f };
    if exists|i: int| 0 <= i < fs.len() && filter_drops(#[trigger] fs[i], g, s) { None } else { Some(g) } }

pub open spec fn compiled(m: Option<GlobSet>, pats: Seq<String>) -> bool {
    match m { None => pats.len() == 0, Some(g) => pats.len() > 0 && g.g@.len() == pats.len() && forall|i: int| 0 <= i < pats.len() ==> #[trigger] g.g@[i] == pats[i]@ } }
pub open spec fn c_filter(c: CompiledFilter) -> bool { compiled(c.sample_names_matcher, c.filter.sample_names@) && compiled(c.exclude_samples_matcher, c.filter.exclude_samples@) }
pub open spec fn c_over(c: CompiledLevelOverride) -> bool { compiled(c.sample_names_matcher, c.rule.sample_names@) }
pub open spec fn from_filters(c: Seq<CompiledFilter>, fs: Seq<FindingFilter>, n: int) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).filter == fs[i] && c_filter(c[i]) }
pub open spec fn from_overs(c: Seq<CompiledLevelOverride>, os: Seq<FindingLevelOverride>, n: int) -> bool { c.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).rule == os[i] && c_over(c[i]) }
/// m was built from these rules
pub open spec fn built(m: FindingModifier, fs: Seq<FindingFilter>, os: Seq<FindingLevelOverride>) -> bool { from_filters(m.filters@, fs, fs.len() as int) && from_overs(m.level_overrides@, os, os.len() as int) }
/// the rules a modifier carries
pub open spec fn fs_of(m: FindingModifier) -> Seq<FindingFilter> { Seq::new(m.filters@.len(), |i: int| m.filters@[i].filter) }
pub open spec fn os_of(m: FindingModifier) -> Seq<FindingLevelOverride> { Seq::new(m.level_overrides@.len(), |i: int| m.level_overrides@[i].rule) }
pub open spec fn wf(m: FindingModifier) -> bool { (forall|i: int| 0 <= i < m.filters@.len() ==> c_filter(#[trigger] m.filters@[i])) && (forall|i: int| 0 <= i < m.level_overrides@.len() ==> c_over(#[trigger] m.level_overrides@[i])) }
/// what from_rules builds is well formed and carries exactly the given rules, in order: with the postcondition of apply, the outcome is `modified` of the user's rules
pub proof fn theorem_modifier(m: FindingModifier, fs: Seq<FindingFilter>, os: Seq<FindingLevelOverride>) requires built(m, fs, os) ensures wf(m), fs_of(m) == fs, os_of(m) == os { assert(fs_of(m) =~= fs); assert(os_of(m) =~= os); }
pub proof fn lemma_compiled(m: Option<GlobSet>, pats: Seq<String>, n: Seq<char>) requires compiled(m, pats), m is Some ensures any_glob(m->Some_0.g@, n) == lists_match(pats, n) {
    let g = m->Some_0.g@;
    if any_glob(g, n) { let i = choose|i: int| 0 <= i < g.len() && glob_match(#[trigger] g[i], n); assert(glob_match(pats[i]@, n)); }
    if lists_match(pats, n) { let i = choose|i: int| 0 <= i < pats.len() && glob_match((#[trigger] pats[i])@, n); assert(glob_match(g[i], n)); }
}
pub proof fn lemma_level(os: Seq<FindingLevelOverride>, f: PolicyFinding, s: SampleRef, k: int)
    requires 0 <= k <= os.len(), forall|j: int| 0 <= j < k ==> !override_hits(#[trigger] os[j], f, s)
    ensures new_level(os, f, s) == new_level(os.skip(k), f, s), k < os.len() && override_hits(os[k], f, s) ==> new_level(os, f, s) == os[k].level, k == os.len() ==> new_level(os, f, s) == f.level
    decreases k
{
    if k > 0 {
        assert forall|j: int| 0 <= j < k - 1 implies !override_hits(#[trigger] os.drop_first()[j], f, s) by { assert(os.drop_first()[j] == os[j + 1]); }
        lemma_level(os.drop_first(), f, s, k - 1);
        assert(!override_hits(os[0], f, s));
        assert(os.drop_first().skip(k - 1) == os.skip(k));
        if k < os.len() { assert(os.drop_first()[k - 1] == os[k]); }
    } else { assert(os.skip(0) == os); }
}

//@fn crates/weaver_live_check/src/finding_modifier.rs compile_globset
    ensures r is Ok ==> compiled(r->Ok_0, patterns@), r is Ok == (forall|i: int| 0 <= i < patterns@.len() ==> glob_valid((#[trigger] patterns@[i])@))
//@loop 0
    refs_of(__s0@, patterns@), builder.g@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] builder.g@[i] == patterns@[i]@, forall|i: int| 0 <= i < __i0 ==> glob_valid((#[trigger] patterns@[i])@),
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs scope_matches
    ensures r == ((signal_type is Some ==> finding.signal_type == Some(*signal_type->Some_0)) && (sample_names_matcher is Some ==> name_of(*sample) is Some && any_glob(sample_names_matcher->Some_0.g@, name_of(*sample)->Some_0)))
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs is_matched_by
    ensures r == (rule.ids is Some ==> lists_id(rule.ids->Some_0@, finding.id))
//@loop 0
    rule.ids is Some, refs_of(__s0@, rule.ids->Some_0@), !__a0, forall|j: int| 0 <= j < __i0 ==> rule.ids->Some_0@[j] != finding.id,
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs is_excluded_by
    requires c_filter(*compiled)
    ensures r == ((compiled.filter.exclude is Some && lists_id(compiled.filter.exclude->Some_0@, finding.id))
        || (compiled.filter.min_level is Some && finding.level.vkey() < compiled.filter.min_level->Some_0.vkey())
        || (compiled.filter.exclude_samples@.len() > 0 && name_of(*sample) is Some && lists_match(compiled.filter.exclude_samples@, name_of(*sample)->Some_0)))
//@loop 0
    compiled.filter.exclude is Some, refs_of(__s0@, compiled.filter.exclude->Some_0@), !__a0, forall|j: int| 0 <= j < __i0 ==> compiled.filter.exclude->Some_0@[j] != finding.id,
//@at start
    proof { if compiled.exclude_samples_matcher is Some && name_of(*sample) is Some { lemma_compiled(compiled.exclude_samples_matcher, compiled.filter.exclude_samples@, name_of(*sample)->Some_0); } }
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs FindingModifier::from_rules
    ensures r is Ok ==> (match r->Ok_0 { None => filters@.len() == 0 && level_overrides@.len() == 0, Some(m) => built(m, filters@, level_overrides@) })
//@loop 0
    refs_of(__s0@, filters@), from_filters(__a0@, filters@, __i0 as int), __z0 is None,
//@loop 1
    refs_of(__s1@, level_overrides@), from_overs(__a1@, level_overrides@, __i1 as int), __z1 is None,
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs FindingModifier::from_config
    ensures r is Ok ==> (match r->Ok_0 { None => config.finding_filters@.len() == 0 && config.finding_level_overrides@.len() == 0, Some(m) => built(m, config.finding_filters@, config.finding_level_overrides@) })
//@end
//@fn crates/weaver_live_check/src/finding_modifier.rs FindingModifier::apply
    requires wf(*self)
    ensures r == modified(os_of(*self), fs_of(*self), finding, *sample)
//@at start
    let ghost f0 = finding; let ghost lv = new_level(os_of(*self), finding, *sample);
    proof { lemma_level(os_of(*self), f0, *sample, 0); }
    proof { assert forall|m: Option<GlobSet>, p: Seq<String>, n: Seq<char>| #[trigger] compiled(m, p) && m is Some implies #[trigger] any_glob(m->Some_0.g@, n) == lists_match(p, n) by { lemma_compiled(m, p, n); } }
//@loop 0
    refs_of(__s0@, self.level_overrides@), finding == f0, (__i0 == __s0@.len() ==> f0.level == lv), forall|j: int| 0 <= j < __i0 ==> !override_hits(#[trigger] os_of(*self)[j], f0, *sample),
//@at loop0.start
    proof { assert(c_over(self.level_overrides@[__i0 - 1])); lemma_level(os_of(*self), f0, *sample, __i0 - 1); assert(os_of(*self)[__i0 - 1] == self.level_overrides@[__i0 - 1].rule); }
//@at loop0.end
    proof { if __i0 == __s0@.len() { lemma_level(os_of(*self), f0, *sample, __i0 as int); } }
//@loop 1
    refs_of(__s1@, self.filters@), finding == (PolicyFinding { level: lv, ..f0 }), forall|j: int| 0 <= j < __i1 ==> !filter_drops(#[trigger] fs_of(*self)[j], finding, *sample),
//@at loop1.start
    proof { assert(c_filter(self.filters@[__i1 - 1])); assert(fs_of(*self)[__i1 - 1] == self.filters@[__i1 - 1].filter); }
//@end
} // verus!
fn main() {}
