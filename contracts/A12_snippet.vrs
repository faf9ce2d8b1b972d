//@include prelude.vrs
verus! {
// ---- what an opening line asks for is what its snippet shows
//@opaque ForgeError Catalog ResolvedGroup OutputProcessor GroupRest
/// (fields not used here left out)
pub struct Group { pub id: String, pub rest: GroupRest }
pub struct Registry { pub groups: Vec<Group> }
pub struct ResolvedTelemetrySchema { pub registry: Registry, pub catalog: Catalog }
//@type crates/weaver_semconv_gen/src/v1.rs ResolvedSemconvRegistry
//@type crates/weaver_semconv_gen/src/v1.rs SnippetGenerator
//@type crates/weaver_semconv_gen/src/v1.rs SnippetType
//@type crates/weaver_semconv_gen/src/v1.rs MarkdownSnippetContext
/// the variants made here; the others are made elsewhere and only passed on
pub enum Error { GroupNotFound { id: String }, WeaverSnippetNotSupported, Forge(ForgeError) }
impl From<ForgeError> for Error { #[verifier::external_body] fn from(e: ForgeError) -> (r: Error) { unimplemented!() } }
pub uninterp spec fn resolved_with(g: Group, c: Catalog) -> Result<ResolvedGroup, ForgeError>;
impl ResolvedGroup { #[verifier::external_body] pub fn try_from_resolved(g: &Group, c: &Catalog) -> (r: Result<ResolvedGroup, ForgeError>) ensures r == resolved_with(*g, *c) { unimplemented!() } }
/// what the template of that name renders for the query's result on the context
pub uninterp spec fn rendered<T>(o: OutputProcessor, c: T, query: Seq<char>, template: Seq<char>) -> Result<String, ForgeError>;
impl OutputProcessor { #[verifier::external_body] pub fn generate_snippet<T>(&self, c: &T, query: &String, template: String) -> (r: Result<String, ForgeError>) ensures r == rendered(*self, *c, query@, template@) { unimplemented!() } }
//@type crates/weaver_semconv_gen/src/parser.rs MarkdownGenParameters
//@type crates/weaver_semconv_gen/src/parser.rs GenerateMarkdownArgs
/// every value given with tag=, in order
pub open spec fn tags_of(a: Seq<MarkdownGenParameters>) -> Seq<Seq<char>> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { match a.last() { MarkdownGenParameters::Tag(v) => tags_of(a.drop_last()).push(v@), _ => tags_of(a.drop_last()) } } }
pub open spec fn text_refs(s: Seq<&String>) -> Seq<Seq<char>> { s.map_values(|x: &String| x@) }
pub open spec fn text_list(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub proof fn lemma_push(s: Seq<&String>, x: &String) ensures #[trigger] text_refs(s.push(x)) == text_refs(s).push(x@) { assert(text_refs(s.push(x)) =~= text_refs(s).push(x@)); }
pub proof fn lemma_own(s: Seq<String>, x: String) ensures #[trigger] text_list(s.push(x)) == text_list(s).push(x@) { assert(text_list(s.push(x)) =~= text_list(s).push(x@)); }
pub open spec fn asks_table(a: Seq<MarkdownGenParameters>) -> bool { exists|i: int| 0 <= i < a.len() && a[i] is MetricTable }
//@fn crates/weaver_semconv_gen/src/parser.rs GenerateMarkdownArgs::is_metric_table ret=r
    ensures r == asks_table(self.args@)
//@loop 0
    !__a0, refs_of(__s0@, self.args@), forall|i: int| 0 <= i < __i0 ==> !(self.args@[i] is MetricTable),
//@at loop0.start
    proof { assert(__s0@[__i0 - 1] == self.args@[__i0 - 1]); }
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs GenerateMarkdownArgs::tag_filters ret=r
    ensures text_refs(r@) == tags_of(self.args@)
//@at loop0.before
    proof { assert(text_refs(__a0@) =~= Seq::empty()); }
//@loop 0
    refs_of(__s0@, self.args@), text_refs(__a0@) == tags_of(self.args@.take(__i0 as int)),
//@at loop0.start
    proof { assert(self.args@.take(__i0 as int).drop_last() =~= self.args@.take(__i0 - 1)); assert forall|s: Seq<&String>, x: &String| #[trigger] text_refs(s.push(x)) == text_refs(s).push(x@) by { lemma_push(s, x); } }
//@at loop0.after
    proof { assert(self.args@.take(self.args@.len() as int) =~= self.args@); }
//@end
/// the first group with the given id
pub open spec fn group_of(gs: Seq<Group>, id: Seq<char>) -> Option<Group> decreases gs.len() {
    if gs.len() == 0 { None } else if gs[0].id@ == id { Some(gs[0]) } else { group_of(gs.skip(1), id) } }
//@fn crates/weaver_semconv_gen/src/v1.rs ResolvedSemconvRegistry::catalog ret=r
    ensures *r == self.schema.catalog
//@end
//@fn crates/weaver_semconv_gen/src/v1.rs ResolvedSemconvRegistry::find_group ret=r
    ensures (match r { Some(g) => group_of(self.schema.registry.groups@, id@) == Some(*g), None => group_of(self.schema.registry.groups@, id@) is None })
//@at loop0.before
    proof { assert(self.schema.registry.groups@.skip(0) =~= self.schema.registry.groups@); }
//@loop 0
    __a0 is None, refs_of(__s0@, self.schema.registry.groups@), group_of(self.schema.registry.groups@, id@) == group_of(self.schema.registry.groups@.skip(__i0 as int), id@),
//@at loop0.start
    proof { assert(self.schema.registry.groups@.skip(__i0 - 1).skip(1) =~= self.schema.registry.groups@.skip(__i0 as int)); }
//@end
/// what a template gets for a snippet: the group asked for, resolved, the kind of table, all the tags, the base url
pub open spec fn asked(g: ResolvedSemconvRegistry, a: GenerateMarkdownArgs, url: Option<&String>, c: MarkdownSnippetContext) -> bool {
    &&& group_of(g.schema.registry.groups@, a.id@) is Some
    &&& resolved_with(group_of(g.schema.registry.groups@, a.id@)->Some_0, g.schema.catalog) == Ok::<ResolvedGroup, ForgeError>(c.group)
    &&& (c.snippet_type is MetricTable) == asks_table(a.args@)
    &&& text_list(c.tag_filter@) == tags_of(a.args@)
    &&& (match url { Some(u) => c.attribute_registry_base_url is Some && c.attribute_registry_base_url->Some_0@ == u@, None => c.attribute_registry_base_url is None })
}
//@fn crates/weaver_semconv_gen/src/v1.rs MarkdownSnippetGenerator for SnippetGenerator::generate_markdown_snippet ret=r
    ensures
        r is Ok ==> exists|c: MarkdownSnippetContext| asked(self.lookup, args, attribute_registry_base_url, c)
            && (#[trigger] rendered(self.output, c, "."@, "snippet.md.j2"@)) is Ok && r->Ok_0@ == rendered(self.output, c, "."@, "snippet.md.j2"@)->Ok_0@.push('\n'),
        group_of(self.lookup.schema.registry.groups@, args.id@) is None ==> r is Err,
//@loop 0
    text_refs(__s0@) == tags_of(args.args@), text_list(__a0@) == text_refs(__s0@).take(__i0 as int),
//@at loop0.before
    proof { assert(text_list(__a0@) =~= text_refs(__s0@).take(0)); }
//@at loop0.start
    proof { assert(text_refs(__s0@).take(__i0 as int) =~= text_refs(__s0@).take(__i0 - 1).push(__s0@[__i0 - 1]@)); assert forall|s: Seq<String>, x: String| #[trigger] text_list(s.push(x)) == text_list(s).push(x@) by { lemma_own(s, x); } }
//@at loop0.after
    proof { assert(text_refs(__s0@).take(__s0@.len() as int) =~= text_refs(__s0@)); }
//@at end
    assert(asked(self.lookup, args, attribute_registry_base_url, context));
//@end
} // verus!
fn main() {}
