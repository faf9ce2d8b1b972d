//@include prelude.vrs
verus! {
// ---- text (std): what lines() yields, and what replace() returns, are functions of the text
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<String>;
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn unix_ends(s: Seq<char>) -> Seq<char> { replaced(s, "\r\n"@, "\n"@) }
pub struct Lines<'a> { pub l: Ghost<Seq<String>>, pub p: &'a String }
impl String {
    #[verifier::external_body] pub fn lines(&self) -> (r: Lines<'_>) ensures r.l@ == lines_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn replace(&self, a: &String, b: &String) -> (r: String) ensures r@ == replaced(self@, a@, b@) { unimplemented!() }
}
impl<'a> VInto for Lines<'a> { type It = &'a String; open spec fn vrel(self, s: Seq<&'a String>) -> bool { refs_of(s, self.l@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<&'a String>) { unimplemented!() } }
// ---- the line grammar (parser.rs, nom): which lines open or close a snippet, and what an opening line asks for
//@opaque GenerateMarkdownArgs WeaverGenerateMarkdownArgs IoErr
pub type IResult<I, O> = Result<(I, O), NomErr>;
//@opaque NomErr
pub enum ErrorKind { Not, IsNot }
#[verifier::external_body] pub fn nom_error(i: &String, k: ErrorKind) -> (r: NomErr) { unimplemented!() }
pub fn nom_failure(e: NomErr) -> (r: NomErr) { e }
pub open spec fn is_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
/// s without its leading spaces
pub open spec fn unspaced(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_space(s[0]) { unspaced(s.skip(1)) } else { s } }
/// the first place where t occurs in s, from k on
pub open spec fn first_at(s: Seq<char>, t: Seq<char>, k: int) -> Option<int> decreases s.len() + 1 - k {
    if k < 0 || k > s.len() { None } else if t.is_prefix_of(s.skip(k)) { Some(k) } else { first_at(s, t, k + 1) } }
pub proof fn lemma_first_at(s: Seq<char>, t: Seq<char>, k: int) ensures first_at(s, t, k) is Some ==> k <= first_at(s, t, k)->Some_0 <= s.len() && t.is_prefix_of(s.skip(first_at(s, t, k)->Some_0)) decreases s.len() + 1 - k {
    if 0 <= k <= s.len() && !t.is_prefix_of(s.skip(k)) { lemma_first_at(s, t, k + 1); } }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
impl String { #[verifier::external_body] pub fn trim(&self) -> (r: &String) ensures r@ == trimmed(self@) { unimplemented!() } }
// nom's combinators as used here
#[verifier::external_body] pub fn vcurried_tag<'a>(t: &String, i: &'a String) -> (r: IResult<&'a String, &'a String>)
    ensures r is Ok == t@.is_prefix_of(i@), r is Ok ==> r->Ok_0.0@ == i@.skip(t@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vcurried_take_until<'a>(t: &String, i: &'a String) -> (r: IResult<&'a String, &'a String>)
    ensures r is Ok == first_at(i@, t@, 0) is Some, r is Ok ==> r->Ok_0.1@ == i@.take(first_at(i@, t@, 0)->Some_0) && r->Ok_0.0@ == i@.skip(first_at(i@, t@, 0)->Some_0) { unimplemented!() }
#[verifier::external_body] pub fn multispace0<'a>(i: &'a String) -> (r: IResult<&'a String, &'a String>) ensures r is Ok, r->Ok_0.0@ == unspaced(i@) { unimplemented!() }
/// the text of the comment a line begins with, and what follows it
pub open spec fn comment(l: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if "<!--"@.is_prefix_of(l) { let m = l.skip("<!--"@.len() as int); match first_at(m, "-->"@, 0) { Some(k) => Some((m.take(k), m.skip(k).skip("-->"@.len() as int))), None => None } } else { None } }
/// the line is a comment that holds the given word alone, with nothing after it
pub open spec fn only_word(l: Seq<char>, w: Seq<char>) -> bool {
    match comment(l) { None => false, Some((c, rest)) => w.is_prefix_of(unspaced(c)) && unspaced(unspaced(c).skip(w.len() as int)).len() == 0 && trimmed(rest).len() == 0 } }
pub open spec fn closes_semconv(l: Seq<char>) -> bool { only_word(l, "endsemconv"@) }
pub open spec fn closes_weaver(l: Seq<char>) -> bool { only_word(l, "endweaver"@) }
//@const crates/weaver_semconv_gen/src/parser.rs SEMCONV_TRAILER
//@const crates/weaver_semconv_gen/src/parser.rs WEAVER_TRAILER
//@path nom::Err::Failure => nom_failure
//@path ParseError::from_error_kind => nom_error
//@fn crates/weaver_semconv_gen/src/parser.rs parse_html_comment ret=r
    ensures r is Ok == comment(input@) is Some, r is Ok ==> (r->Ok_0.1@, r->Ok_0.0@) == comment(input@)->Some_0
//@at start
    proof { assert forall|s: Seq<char>, t: Seq<char>| (#[trigger] first_at(s, t, 0)) is Some implies 0 <= first_at(s, t, 0)->Some_0 <= s.len() && t.is_prefix_of(s.skip(first_at(s, t, 0)->Some_0)) by { lemma_first_at(s, t, 0); } }
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs parse_semconv_trailer ret=r
    ensures (r is Ok && trimmed(r->Ok_0.0@).len() == 0) == closes_semconv(input@)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs parse_weaver_trailer ret=r
    ensures (r is Ok && trimmed(r->Ok_0.0@).len() == 0) == closes_weaver(input@)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs is_semconv_trailer ret=r
    ensures r == closes_semconv(line@)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs is_weaver_trailer ret=r
    ensures r == closes_weaver(line@)
//@end
/// what the text of a comment asks for (the directive grammar; with the text it does not use)
pub uninterp spec fn semconv_directive(c: Seq<char>) -> Option<(Seq<char>, GenerateMarkdownArgs)>;
pub uninterp spec fn weaver_directive(c: Seq<char>) -> Option<(Seq<char>, WeaverGenerateMarkdownArgs)>;
#[verifier::external_body] pub fn parse_semconv_snippet_directive<'a>(i: &'a String) -> (r: IResult<&'a String, GenerateMarkdownArgs>) ensures r is Ok == semconv_directive(i@) is Some, r is Ok ==> (r->Ok_0.0@, r->Ok_0.1) == semconv_directive(i@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn parse_weaver_snippet_args<'a>(i: &'a String) -> (r: IResult<&'a String, WeaverGenerateMarkdownArgs>) ensures r is Ok == weaver_directive(i@) is Some, r is Ok ==> (r->Ok_0.0@, r->Ok_0.1) == weaver_directive(i@)->Some_0 { unimplemented!() }
/// what an opening line parses to, with what follows on the line: the whole comment must be the directive
pub open spec fn semconv_raw(l: Seq<char>) -> Option<(Seq<char>, GenerateMarkdownArgs)> {
    match comment(l) { None => None, Some((c, rest)) => match semconv_directive(c) { Some((left, a)) => if left.len() == 0 { Some((rest, a)) } else { None }, None => None } } }
pub open spec fn weaver_raw(l: Seq<char>) -> Option<(Seq<char>, WeaverGenerateMarkdownArgs)> {
    match comment(l) { None => None, Some((c, rest)) => match weaver_directive(c) { Some((left, a)) => if left.len() == 0 { Some((rest, a)) } else { None }, None => None } } }
//@fn crates/weaver_semconv_gen/src/parser.rs parse_markdown_snippet_raw ret=r
    ensures r is Ok == semconv_raw(input@) is Some, r is Ok ==> (r->Ok_0.0@, r->Ok_0.1) == semconv_raw(input@)->Some_0
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs parse_weaver_snippet_raw ret=r
    ensures r is Ok == weaver_raw(input@) is Some, r is Ok ==> (r->Ok_0.0@, r->Ok_0.1) == weaver_raw(input@)->Some_0
//@end
/// what an opening line asks for
pub open spec fn semconv_args(l: Seq<char>) -> Option<GenerateMarkdownArgs> { match semconv_raw(l) { Some((rest, a)) => if trimmed(rest).len() == 0 { Some(a) } else { None }, None => None } }
pub open spec fn weaver_args(l: Seq<char>) -> Option<WeaverGenerateMarkdownArgs> { match weaver_raw(l) { Some((rest, a)) => if trimmed(rest).len() == 0 { Some(a) } else { None }, None => None } }
pub open spec fn opens_semconv(l: Seq<char>) -> bool { semconv_args(l) is Some }
pub open spec fn opens_weaver(l: Seq<char>) -> bool { weaver_args(l) is Some }
//@fn crates/weaver_semconv_gen/src/parser.rs is_markdown_snippet_directive ret=r
    ensures r == opens_semconv(line@)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs is_weaver_directive ret=r
    ensures r == opens_weaver(line@)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs parse_markdown_snippet_directive ret=r
    ensures r is Ok == opens_semconv(line@), r is Ok ==> semconv_args(line@) == Some(r->Ok_0)
//@end
//@fn crates/weaver_semconv_gen/src/parser.rs parse_weaver_snippet_directive ret=r
    ensures r is Ok == opens_weaver(line@), r is Ok ==> weaver_args(line@) == Some(r->Ok_0)
//@end
/// the variants made here; the others are made elsewhere and only passed on
pub enum Error { MarkdownIsNotEqual { original: String, updated: String }, InvalidSnippetHeader { header: String }, UnterminatedSnippet { header: String }, StdIoError(String), Other(u64) }
//@type crates/weaver_semconv_gen/src/lib.rs SnippetType
impl IoErr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
// ---- a generator: what it renders for an opening line is a function of the generator, the arguments and the base url
//@opaque Generator
pub uninterp spec fn semconv_text(g: Generator, a: GenerateMarkdownArgs, url: Option<&String>) -> Result<String, Error>;
pub uninterp spec fn weaver_text(g: Generator, a: WeaverGenerateMarkdownArgs) -> Result<String, Error>;
impl Generator {
    #[verifier::external_body] pub fn generate_markdown_snippet(&self, a: GenerateMarkdownArgs, url: Option<&String>) -> (r: Result<String, Error>) ensures r == semconv_text(*self, a, url) { unimplemented!() }
    #[verifier::external_body] pub fn generate_weaver_snippet(&self, a: WeaverGenerateMarkdownArgs) -> (r: Result<String, Error>) ensures r == weaver_text(*self, a) { unimplemented!() }
}
// ---- the disk: what a file holds before the update, what may be written to it, what was
pub uninterp spec fn disk(file: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn may_write(file: Seq<char>, t: Seq<char>) -> bool;
pub uninterp spec fn written(file: Seq<char>, t: Seq<char>) -> bool;
#[verifier::external_body] pub fn vread(file: &String) -> (r: Result<String, IoErr>) ensures r is Ok == disk(file@) is Some, r is Ok ==> disk(file@) == Some(r->Ok_0@) { unimplemented!() }
/// the only call that changes a file: it must be allowed, and is what makes `written` true
#[verifier::external_body] pub fn vwrite(file: &String, t: String) -> (r: Result<(), IoErr>) requires may_write(file@, t@) ensures r is Ok ==> written(file@, t@) { unimplemented!() }
// ---- what an updated document is
pub enum At { Outside, InSemconv, InWeaver }
/// the text an opening line is replaced with is known
pub open spec fn semconv_of(g: Generator, url: Option<&String>, l: Seq<char>) -> Option<Seq<char>> {
    match semconv_args(l) { Some(a) => match semconv_text(g, a, url) { Ok(t) => Some(t@), Err(_) => None }, None => None } }
pub open spec fn weaver_of(g: Generator, l: Seq<char>) -> Option<Seq<char>> {
    match weaver_args(l) { Some(a) => match weaver_text(g, a) { Ok(t) => Some(t@), Err(_) => None }, None => None } }
/// where the line after `l` is
pub open spec fn after(at: At, l: Seq<char>) -> At {
    match at {
        At::InSemconv => if closes_semconv(l) { At::Outside } else { at },
        At::InWeaver => if closes_weaver(l) { At::Outside } else { at },
        At::Outside => if opens_semconv(l) { At::InSemconv } else if opens_weaver(l) { At::InWeaver } else { at },
    } }
/// the line is kept: it is outside of every snippet, or closes one
pub open spec fn kept(at: At, l: Seq<char>) -> bool {
    match at { At::InSemconv => closes_semconv(l), At::InWeaver => closes_weaver(l), At::Outside => true } }
/// what is put after it: the rendered snippet, if it opens one (None: that fails)
pub open spec fn inserted(g: Generator, url: Option<&String>, at: At, l: Seq<char>) -> Option<Seq<char>> {
    if !(at is Outside) { Some(Seq::empty()) }
    else if opens_semconv(l) { semconv_of(g, url, l) }
    else if opens_weaver(l) { weaver_of(g, l) }
    else { Some(Seq::empty()) } }
pub open spec fn at_line(ls: Seq<String>, n: int) -> At decreases n {
    if n <= 0 { At::Outside } else { after(at_line(ls, n - 1), ls[n - 1]@) } }
/// the first `n` lines, updated: every line outside of snippets and every marker is kept, in order, and nothing else but rendered snippets is there
pub open spec fn updated(g: Generator, url: Option<&String>, ls: Seq<String>, n: int) -> Option<Seq<char>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else {
        match (updated(g, url, ls, n - 1), inserted(g, url, at_line(ls, n - 1), ls[n - 1]@)) {
            (Some(t), Some(x)) => Some(t + (if kept(at_line(ls, n - 1), ls[n - 1]@) { ls[n - 1]@.push('\n') } else { Seq::empty() }) + x),
            _ => None,
        } } }
/// once a snippet could not be rendered the document cannot be updated
pub proof fn lemma_fails(g: Generator, url: Option<&String>, ls: Seq<String>, i: int, n: int) requires 0 <= i <= n ensures updated(g, url, ls, i) is None ==> updated(g, url, ls, n) is None decreases n - i {
    if i < n { lemma_fails(g, url, ls, i, n - 1); } }
pub open spec fn is_at(c: Option<SnippetType>, a: At) -> bool {
    match c { None => a is Outside, Some(SnippetType::Semconv) => a is InSemconv, Some(SnippetType::Weaver) => a is InWeaver } }
/// the update of a document; None where a snippet cannot be rendered or is not closed
pub open spec fn doc(g: Generator, url: Option<&String>, text: Seq<char>) -> Option<Seq<char>> {
    if at_line(lines_of(text), lines_of(text).len() as int) is Outside { updated(g, url, lines_of(text), lines_of(text).len() as int) } else { None } }
//@path parser::is_semconv_trailer => is_semconv_trailer
//@path parser::is_weaver_trailer => is_weaver_trailer
//@path parser::is_markdown_snippet_directive => is_markdown_snippet_directive
//@path parser::is_weaver_directive => is_weaver_directive
//@path parser::parse_markdown_snippet_directive => parse_markdown_snippet_directive
//@path parser::parse_weaver_snippet_directive => parse_weaver_snippet_directive
//@path fs::read_to_string => vread
//@path fs::write => vwrite
impl Generator {
//@fn crates/weaver_semconv_gen/src/lib.rs trait MarkdownSnippetGenerator::update_markdown_contents ret=r
    ensures (match r { Ok(t) => doc(*self, attribute_registry_base_url, contents@) == Some(t@), Err(_) => doc(*self, attribute_registry_base_url, contents@) is None }),
//@loop 0
    refs_of(__s0@, lines_of(contents@)), is_at(snippet_context, at_line(lines_of(contents@), __i0 as int)),
    updated(*self, attribute_registry_base_url, lines_of(contents@), __i0 as int) == Some(result@),
//@at loop0.start
    proof { lemma_fails(*self, attribute_registry_base_url, lines_of(contents@), __i0 as int, __s0@.len() as int); }
//@end
//@fn crates/weaver_semconv_gen/src/lib.rs trait MarkdownSnippetGenerator::update_markdown ret=r
    requires forall|t: Seq<char>| #[trigger] may_write(file@, t) <==> (!dry_run && disk(file@) is Some && doc(*self, attribute_registry_base_url, unix_ends(disk(file@)->Some_0)) == Some(t))
    ensures
        dry_run ==> (r is Ok == (disk(file@) is Some && doc(*self, attribute_registry_base_url, unix_ends(disk(file@)->Some_0)) == Some(unix_ends(disk(file@)->Some_0)))),
        !dry_run && r is Ok ==> disk(file@) is Some && doc(*self, attribute_registry_base_url, unix_ends(disk(file@)->Some_0)) is Some
            && written(file@, doc(*self, attribute_registry_base_url, unix_ends(disk(file@)->Some_0))->Some_0),
//@end
}
} // verus!
fn main() {}
