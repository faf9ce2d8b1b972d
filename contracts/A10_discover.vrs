//@include prelude.vrs
verus! {
// ---- which .weaver.toml is used: the one in the nearest folder, starting from the current one and going up
pub struct Path { pub c: Ghost<Seq<Seq<char>>> }
pub type PathBuf = Path;
impl View for Path { type V = Seq<Seq<char>>; open spec fn view(&self) -> Seq<Seq<char>> { self.c@ } }
//@opaque WeaverConfig ConfigError
pub uninterp spec fn is_a_file(p: Seq<Seq<char>>) -> bool;
/// what a file loads as
pub uninterp spec fn loads(p: Seq<Seq<char>>) -> Result<WeaverConfig, ConfigError>;
impl Path {
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, n: &String) -> (r: PathBuf) ensures r@ == self@.push(n@) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == is_a_file(self@) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: bool) ensures r == (old(self)@.len() > 0), final(self)@ == (if r { old(self)@.drop_last() } else { old(self)@ }) { unimplemented!() }
}
pub open spec fn config_in(p: Seq<Seq<char>>) -> Seq<Seq<char>> { p.push(".weaver.toml"@) }
pub open spec fn nearest(p: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> decreases p.len() {
    if is_a_file(config_in(p)) { Some(config_in(p)) } else if p.len() == 0 { None } else { nearest(p.drop_last()) } }
//@const crates/weaver_config/src/lib.rs CONFIG_FILENAME
//@fn crates/weaver_config/src/lib.rs discover ret=r
    ensures (match r { Some(f) => nearest(start@) == Some(f@), None => nearest(start@) is None })
//@loop 0
    invariant nearest(current@) == nearest(start@)
    decreases current@.len()
//@end
#[verifier::external_body] pub fn load(p: &Path) -> (r: Result<WeaverConfig, ConfigError>) ensures r == loads(p@) { unimplemented!() }
//@fn crates/weaver_config/src/lib.rs discover_and_load ret=r
    ensures (match nearest(start@) {
        None => r == Ok::<Option<(PathBuf, WeaverConfig)>, ConfigError>(None),
        Some(f) => match loads(f) { Ok(c) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.0@ == f && r->Ok_0->Some_0.1 == c, Err(_) => r is Err } })
//@end
} // verus!
fn main() {}
