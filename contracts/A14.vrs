//@include prelude.vrs
verus! {
// ---- std::path (external): a path is the sequence of its components, as Path::components() yields them
pub struct OsStr { pub c: Ghost<Seq<char>> }
pub enum Component { Prefix(OsStr), RootDir, CurDir, ParentDir, Normal(OsStr) }
pub struct Path { pub c: Ghost<Seq<Component>> }
pub type PathBuf = Path;
pub struct Components { pub c: Ghost<Seq<Component>> }
pub uninterp spec fn os_text(c: Component) -> Seq<char>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn is_absolute(p: Seq<Component>) -> bool { p.len() > 0 && (p[0] is RootDir || p[0] is Prefix) }
/// what joining does: an absolute path replaces the base, anything else is appended
pub open spec fn joined(b: Seq<Component>, p: Seq<Component>) -> Seq<Component> { if is_absolute(p) { p } else { b + p } }
impl Path {
    #[verifier::external_body] pub fn components(&self) -> (r: Components) ensures r.c@ == self.c@, no_curdir(tail(r.c@)) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, p: Path) -> (r: Path) ensures r.c@ == joined(self.c@, p.c@) { unimplemented!() }
}
impl Components {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Component>) ensures (match r { Some(x) => old(self).c@.len() > 0 && x == old(self).c@[0] && final(self).c@ == old(self).c@.skip(1), None => old(self).c@.len() == 0 && final(self).c@ == old(self).c@ }) { unimplemented!() }
}
impl VInto for Components { type It = Component; open spec fn vrel(self, s: Seq<Component>) -> bool { s == self.c@ } #[verifier::external_body] fn vinto(self) -> (r: Vec<Component>) { unimplemented!() } }
impl VCollect<Component> for Path { open spec fn vempty(s: Self) -> bool { s.c@ == Seq::<Component>::empty() } open spec fn vadded(pre: Self, t: Component, post: Self) -> bool { (!(t is CurDir) ==> post.c@ == joined(pre.c@, seq![t])) }
    #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vpush(&mut self, t: Component) { unimplemented!() } }
impl Component { #[verifier::external_body] pub fn as_os_str(&self) -> (r: &OsStr) ensures r.c@ == os_text(*self) { unimplemented!() } }
impl String { #[verifier::external_body] pub fn trim(&self) -> (r: &String) ensures r@ == trimmed(self@) { unimplemented!() } }
impl PartialEqSpecImpl<String> for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { self.c@ == o@ } }
impl PartialEq<String> for OsStr { #[verifier::external_body] fn eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
// ---- file system, tar and zip (external): every call that writes takes the path it writes to and requires that it may be written
/// the paths the unpacker may write to: fixed by the precondition of the functions below to those inside the target directory
pub uninterp spec fn writable(p: Seq<Component>) -> bool;
/// the directories it may make: those it may write to, and the target's ancestors (which exist already)
pub uninterp spec fn makeable(p: Seq<Component>) -> bool;
pub open spec fn confined(target: Seq<Component>) -> bool {
    (forall|p: Seq<Component>| #[trigger] writable(p) <==> inside(target, p)) && (forall|p: Seq<Component>| #[trigger] makeable(p) <==> inside(target, p) || p.len() < target.len() && p == target.subrange(0, p.len() as int)) }
//@opaque IoErr GzDecoder
pub enum Error { InvalidRegistryArchive { archive: String, error: String } }
pub use Error::InvalidRegistryArchive;
impl IoErr { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
pub struct File {}
impl File { #[verifier::external_body] pub fn create(p: &Path) -> (r: Result<File, IoErr>) requires writable(p.c@) { unimplemented!() } }
#[verifier::external_body] pub fn create_dir_all(p: &Path) -> (r: Result<(), IoErr>) requires makeable(p.c@) { unimplemented!() }
impl GzDecoder { #[verifier::external_body] pub fn new(f: File) -> (r: GzDecoder) { unimplemented!() } }
pub struct Archive {}
pub struct TarEntry {}
pub struct Unpacked {}
impl Archive {
    #[verifier::external_body] pub fn new(f: GzDecoder) -> (r: Archive) { unimplemented!() }
    #[verifier::external_body] pub fn entries(&mut self) -> (r: Result<Vec<Result<TarEntry, IoErr>>, IoErr>) { unimplemented!() }
}
impl TarEntry {
    #[verifier::external_body] pub fn path(&self) -> (r: Result<Path, IoErr>) { unimplemented!() }
    #[verifier::external_body] pub fn unpack(&mut self, p: Path) -> (r: Result<Unpacked, IoErr>) requires writable(p.c@) { unimplemented!() }
}
pub struct ZipArchive {}
pub struct ZipFile {}
impl ZipArchive {
    #[verifier::external_body] pub fn new(f: File) -> (r: Result<ZipArchive, IoErr>) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn by_index(&mut self, i: usize) -> (r: Result<ZipFile, IoErr>) { unimplemented!() }
}
impl ZipFile {
    #[verifier::external_body] pub fn enclosed_name(&self) -> (r: Option<Path>) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body] pub fn copy(a: &mut ZipFile, b: &mut File) -> (r: Result<u64, IoErr>) { unimplemented!() }
impl Path { #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures (match r { Some(p) => self.c@.len() > 0 && p.c@ == self.c@.drop_last(), None => true }) { unimplemented!() } }
pub struct VirtualDirectory {}
/// trusted: reads the file system only (follows links of what was unpacked so far)
impl VirtualDirectory { #[verifier::external_body] pub fn check_parent_dirs(new_path: &Path, target_path: &Path, archive_filename: &String) -> (r: Result<(), Error>) { unimplemented!() } }
/// `.` appears only at the start of a path: components() drops it anywhere else
pub open spec fn no_curdir(p: Seq<Component>) -> bool { forall|i: int| 0 <= i < p.len() ==> !((#[trigger] p[i]) is CurDir) }

// ---- the property
pub open spec fn all_normal(p: Seq<Component>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) is Normal }
pub open spec fn filtered(sub: Option<&String>) -> bool { sub is Some && trimmed(sub->Some_0@).len() > 0 }
pub open spec fn tail(p: Seq<Component>) -> Seq<Component> { if p.len() == 0 { p } else { p.skip(1) } }
/// what is left of an entry's path below the archive's root folder and the requested sub-folder
pub open spec fn below(e: Seq<Component>, sub: Option<&String>) -> Seq<Component> { if filtered(sub) { tail(tail(e)) } else { tail(e) } }
pub open spec fn selected(e: Seq<Component>, sub: Option<&String>) -> bool { filtered(sub) && e.len() > 1 ==> os_text(e[1]) == sub->Some_0@ }
/// q is d or lies below it: d followed by plain names
pub open spec fn inside(d: Seq<Component>, q: Seq<Component>) -> bool { q.len() >= d.len() && q.subrange(0, d.len() as int) == d && all_normal(q.skip(d.len() as int)) }
/// the parent of a path inside the target may be made
pub proof fn lemma_parent(t: Seq<Component>) requires confined(t) ensures forall|q: Seq<Component>| #[trigger] inside(t, q) && q.len() > 0 ==> makeable(q.drop_last()) {
    assert forall|q: Seq<Component>| #[trigger] inside(t, q) && q.len() > 0 implies makeable(q.drop_last()) by {
        let d = q.drop_last(); let n = t.len() as int;
        if q.len() == n { assert(q =~= t); assert(d =~= t.subrange(0, d.len() as int)); }
        else { assert(d.subrange(0, n) =~= q.subrange(0, n)); assert(forall|i: int| 0 <= i < d.skip(n).len() ==> d.skip(n)[i] == q.skip(n)[i]); assert(inside(t, d)); }
    }
}
//@fn crates/weaver_common/src/vdir.rs VirtualDirectory::path_to_unpack
    ensures (match r {
        Some(q) => inside(target_path.c@, q.c@) && selected(entry_path.c@, sub_folder) && q.c@ == target_path.c@ + below(entry_path.c@, sub_folder),
        None => !selected(entry_path.c@, sub_folder) || !all_normal(below(entry_path.c@, sub_folder)) })
//@at start
    let ghost e = entry_path.c@;
//@loop 0
    __s0@ == below(e, sub_folder), no_curdir(__s0@), all_normal(__s0@.subrange(0, __i0 as int)) ==> __a0.c@ =~= __s0@.subrange(0, __i0 as int), !all_normal(__s0@.subrange(0, __i0 as int)) ==> !all_normal(__a0.c@),
//@at loop0.start
    let ghost a0 = __a0.c@;
//@at loop0.end
    proof {
        let k = __i0 - 1; let t = __s0@[k]; let p = __s0@.subrange(0, k); let q = __s0@.subrange(0, k + 1);
        assert(q == p.push(t)); assert(!(t is CurDir));
        assert(__a0.c@ == joined(a0, seq![t])); assert(a0 + seq![t] == a0.push(t));
        assert(q[k] == t); assert(forall|j: int| 0 <= j < k ==> q[j] == p[j]);
        if !all_normal(a0) { let j = choose|j: int| 0 <= j < a0.len() && !(#[trigger] a0[j] is Normal); assert(a0.push(t)[j] == a0[j]); }
        if !(t is Normal) { assert(a0.push(t)[a0.len() as int] == t); assert(seq![t][0] == t); }
    }
//@loop 1
    __s1@ == relative_path.c@, __a1, forall|j: int| 0 <= j < __i1 ==> (#[trigger] __s1@[j]) is Normal,
//@at loop0.after
    proof { assert(__s0@.subrange(0, __s0@.len() as int) == __s0@); }
//@at end
    proof { let b = below(e, sub_folder); let q = target_path.c@ + b; assert(relative_path.c@ == b); assert(q.subrange(0, target_path.c@.len() as int) =~= target_path.c@); assert(q.skip(target_path.c@.len() as int) =~= b); }
//@end
//@fn crates/weaver_common/src/vdir.rs VirtualDirectory::create_parent_dirs
    requires new_path.c@.len() > 0 ==> makeable(new_path.c@.drop_last())
//@end
//@fn crates/weaver_common/src/vdir.rs VirtualDirectory::unpack_tar_gz
    requires confined(target_path.c@)
//@at start
    proof { lemma_parent(target_path.c@); }
//@loop 0
    confined(target_path.c@),
//@end
//@fn crates/weaver_common/src/vdir.rs VirtualDirectory::unpack_zip
    requires confined(tmp_path.c@)
//@at start
    proof { lemma_parent(tmp_path.c@); }
//@loop 0
    confined(tmp_path.c@),
//@end
} // verus!
fn main() {}
