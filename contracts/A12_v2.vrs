//@include prelude.vrs
verus! {
// ---- a weaver snippet shows what its query selects of the registry, rendered with the template it names
//@opaque ResolvedTelemetrySchema ForgeResolvedRegistry ForgeError OutputProcessor Error
impl From<ForgeError> for Error { #[verifier::external_body] fn from(e: ForgeError) -> (r: Error) { unimplemented!() } }
//@type crates/weaver_semconv_gen/src/parser.rs WeaverGenerateMarkdownArgs
/// what the template of that name renders for the query's result on the context
pub uninterp spec fn rendered<T>(o: OutputProcessor, c: T, query: Seq<char>, template: Seq<char>) -> Result<String, ForgeError>;
impl OutputProcessor { #[verifier::external_body] pub fn generate_snippet<T>(&self, c: &T, query: &String, template: String) -> (r: Result<String, ForgeError>) ensures r == rendered(*self, *c, query@, template@) { unimplemented!() } }
//@type crates/weaver_semconv_gen/src/v2.rs SnippetGenerator
/// the template the snippet names, or the usual one
pub open spec fn template_of(a: WeaverGenerateMarkdownArgs) -> Seq<char> { match a.template { Some(t) => t@, None => "snippet.md.j2"@ } }
//@fn crates/weaver_semconv_gen/src/v2.rs MarkdownSnippetGenerator for SnippetGenerator::generate_weaver_snippet ret=r
    ensures (match rendered(self.output, self.template_schema, args.query@, template_of(args)) { Ok(t) => r is Ok && r->Ok_0@ == t@.push('\n'), Err(_) => r is Err })
//@end
} // verus!
fn main() {}
