#![allow(unused, non_snake_case, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::rc::Rc;
use std::sync::Arc;
verus! {

// ------------------------------------------------------------------ model of std types
// Every `external_body` below is an assumed contract on a std operation.
pub struct String { pub c: Ghost<Seq<char>> }
impl View for String { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.c@ } }
pub open spec fn S(c: Seq<char>) -> String { String { c: Ghost(c) } }
pub proof fn lemma_S(a: String) ensures a == S(a@) { }
#[verifier::external_body] pub fn lit(s: &'static str) -> (r: &'static String) ensures r.c@ == s@, *r == S(s@) { unimplemented!() }
#[verifier::external_body] pub fn vstring_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vformat() -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vcat(a: &String, b: &String) -> (r: String) ensures r@ == a@ + b@, r == S(a@ + b@) { unimplemented!() }
#[verifier::external_body] pub fn vempty() -> (r: &'static String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vunreachable<T>() -> (r: T) requires false { unimplemented!() }
impl PartialEqSpecImpl for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for String { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a String> for String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a String) -> bool { *self == **o } }
impl<'a> PartialEq<&'a String> for String { #[verifier::external_body] fn eq(&self, o: &&'a String) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<String> for &'a String { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &String) -> bool { **self == *o } }
impl<'a> PartialEq<String> for &'a String { #[verifier::external_body] fn eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len()
{ if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] == b[0] { str_lt(a.drop_first(), b.drop_first()) } else { (a[0] as int) < (b[0] as int) } }
impl String {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vdisplay(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: String) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn veqs(&self, o: &String) -> (r: bool) ensures r == (*self == *o), r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    // `len` counts bytes; only `== 0` and prefix-monotonicity are assumed of it
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: VStrPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P: VStrPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_suffix_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix<P: VStrPat>(&self, p: P) -> (r: Option<&String>)
        ensures (match r { Some(x) => p.pat().is_prefix_of(self@) && *x == S(self@.skip(p.pat().len() as int)), None => !p.pat().is_prefix_of(self@) }) { unimplemented!() }
    #[verifier::external_body] pub fn strip_suffix<P: VStrPat>(&self, p: P) -> (r: Option<&String>)
        ensures (match r { Some(x) => p.pat().is_suffix_of(self@) && *x == S(self@.take(self@.len() - p.pat().len())), None => !p.pat().is_suffix_of(self@) }) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, o: &String) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, o: char) ensures final(self)@ == old(self)@.push(o) { unimplemented!() }
}
pub trait VStrPat: Sized { spec fn pat(self) -> Seq<char>; }
impl<'a> VStrPat for &'a String { open spec fn pat(self) -> Seq<char> { self@ } }
impl<'a> VStrPat for &'a &'a String { open spec fn pat(self) -> Seq<char> { self@ } }
impl VStrPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
pub uninterp spec fn blen(s: Seq<char>) -> nat;

pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

pub trait VDefault: Sized { spec fn vdef(s: Self) -> bool; fn vdefault() -> (r: Self) ensures Self::vdef(r); }
impl<T> VDefault for Vec<T> { open spec fn vdef(s: Self) -> bool { s@ == Seq::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for Option<T> { open spec fn vdef(s: Self) -> bool { s is None } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl VDefault for String { open spec fn vdef(s: Self) -> bool { s@ == Seq::<char>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl VDefault for bool { open spec fn vdef(s: Self) -> bool { !s } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl VDefault for usize { open spec fn vdef(s: Self) -> bool { s == 0 } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for BTreeSet<T> { open spec fn vdef(s: Self) -> bool { s.s@ == Set::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for HashSet<T> { open spec fn vdef(s: Self) -> bool { s.s@ == Set::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<K, V> VDefault for BTreeMap<K, V> { open spec fn vdef(s: Self) -> bool { s.m@ == Map::<K, V>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<K, V> VDefault for HashMap<K, V> { open spec fn vdef(s: Self) -> bool { s.m@ == Map::<K, V>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }

// ---- options
pub trait VUnwrap<T>: Sized { spec fn vuo(self) -> Option<T>; fn vunwrap(self) -> (r: T) requires self.vuo() is Some ensures self.vuo() == Some(r); }
impl<T> VUnwrap<T> for Option<T> { open spec fn vuo(self) -> Option<T> { self } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn vuo(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
pub trait VOpt<T>: Sized {
    spec fn vo(self) -> Option<T>;
    fn vunwrap_or_default(self) -> (r: T) where T: VDefault ensures (match self.vo() { Some(x) => r == x, None => T::vdef(r) });
}
impl<T> VOpt<T> for Option<T> { open spec fn vo(self) -> Option<T> { self }
    #[verifier::external_body] fn vunwrap_or_default(self) -> (r: T) where T: VDefault { unimplemented!() } }
pub trait VOptRef<'a, T>: Sized { spec fn vor(self) -> Option<&'a T>; fn vcloned(self) -> (r: Option<T>) ensures r == (match self.vor() { Some(x) => Some(*x), None => None }); }
impl<'a, T> VOptRef<'a, T> for Option<&'a T> { open spec fn vor(self) -> Option<&'a T> { self } #[verifier::external_body] fn vcloned(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VDrain<T> { spec fn vdr(&self) -> Seq<T>; fn vdrain(&mut self) -> (r: Vec<T>) ensures r@ == old(self).vdr(), final(self).vdr() == Seq::<T>::empty(); }
impl<T> VDrain<T> for Vec<T> { open spec fn vdr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vdrain(&mut self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VUnique<T>: Sized { spec fn vun(self) -> Seq<T>; fn vunique(self) -> (r: Self) ensures r.vun().no_duplicates(), r.vun().to_set() == self.vun().to_set(); }
impl<T> VUnique<T> for Vec<T> { open spec fn vun(self) -> Seq<T> { self@ } #[verifier::external_body] fn vunique(self) -> (r: Self) { unimplemented!() } }
pub trait VFlatten<T>: Sized { spec fn vfl(self) -> Option<T>; fn vflatten(self) -> (r: Option<T>) ensures r == self.vfl(); }
impl<T> VFlatten<T> for Option<Option<T>> { open spec fn vfl(self) -> Option<T> { match self { Some(x) => x, None => None } } #[verifier::external_body] fn vflatten(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VChain: Sized { spec fn vch(self, o: Self, r: Self) -> bool; fn chain(self, o: Self) -> (r: Self) ensures self.vch(o, r); }
impl<T> VChain for Vec<T> { open spec fn vch(self, o: Self, r: Self) -> bool { r@ == self@ + o@ } #[verifier::external_body] fn chain(self, o: Self) -> (r: Self) { unimplemented!() } }
pub fn vband(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vbor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub trait VRev: Sized { spec fn vrv(self, r: Self) -> bool; fn rev(self) -> (r: Self) ensures self.vrv(r); }
impl<T> VRev for Vec<T> { open spec fn vrv(self, r: Self) -> bool { r@ == self@.reverse() } #[verifier::external_body] fn rev(self) -> (r: Self) { unimplemented!() } }
pub trait VAsSlice: Sized { fn vas_slice<'a>(&'a self) -> (r: &'a Self) ensures *r == *self; }
impl<T> VAsSlice for Vec<T> { #[verifier::external_body] fn vas_slice<'a>(&'a self) -> (r: &'a Self) { unimplemented!() } }
pub trait VTarget: Sized { type Tgt; spec fn vt(&self) -> Self::Tgt; }
impl VTarget for String { type Tgt = String; open spec fn vt(&self) -> String { *self } }
impl<T> VTarget for Vec<T> { type Tgt = Vec<T>; open spec fn vt(&self) -> Vec<T> { *self } }
impl<T> VTarget for Rc<T> { type Tgt = T; open spec fn vt(&self) -> T { **self } }
impl<T> VTarget for Box<T> { type Tgt = T; open spec fn vt(&self) -> T { **self } }
pub trait VAsDeref { type Out; spec fn vad(&self) -> Option<Self::Out>; fn vas_deref(&self) -> (r: Option<&Self::Out>) ensures (match r { Some(x) => self.vad() == Some(*x), None => self.vad() is None }); }
impl<T: VTarget> VAsDeref for Option<T> { type Out = T::Tgt; open spec fn vad(&self) -> Option<T::Tgt> { match *self { Some(x) => Some(x.vt()), None => None } } #[verifier::external_body] fn vas_deref(&self) -> (r: Option<&T::Tgt>) { unimplemented!() } }

impl<T> VOptMut<T> for Option<T> { open spec fn vom(&self) -> Option<T> { *self } #[verifier::external_body] fn get_or_insert<'a>(&'a mut self, t: T) -> (r: &'a mut T) { unimplemented!() } }
pub trait VOptMut<T>: Sized { spec fn vom(&self) -> Option<T>; fn get_or_insert<'a>(&'a mut self, t: T) -> (r: &'a mut T)
    ensures *r == (match old(self).vom() { Some(x) => x, None => t }), final(self).vom() == Some(*final(r)); }
pub trait VBool: Sized { spec fn vb(self) -> bool; fn vthen_some<T>(self, t: T) -> (r: Option<T>) ensures r == (if self.vb() { Some(t) } else { None }); }
impl VBool for bool { open spec fn vb(self) -> bool { self } #[verifier::external_body] fn vthen_some<T>(self, t: T) -> (r: Option<T>) { unimplemented!() } }

// ---- sequences
pub open spec fn refs_of<'a, T>(s: Seq<&'a T>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == v[i] }
pub trait VInto: Sized { type It; spec fn vrel(self, s: Seq<Self::It>) -> bool; fn vinto(self) -> (r: Vec<Self::It>) ensures self.vrel(r@); }
impl<T> VInto for Vec<T> { type It = T; open spec fn vrel(self, s: Seq<T>) -> bool { s == self@ } #[verifier::external_body] fn vinto(self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VInto for Option<T> { type It = T; open spec fn vrel(self, s: Seq<T>) -> bool { s == (match self { Some(x) => seq![x], None => seq![] }) } #[verifier::external_body] fn vinto(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> VInto for &'a Vec<T> { type It = &'a T; open spec fn vrel(self, s: Seq<&'a T>) -> bool { refs_of(s, self@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T> VInto for &'a Option<T> { type It = &'a T; open spec fn vrel(self, s: Seq<&'a T>) -> bool { match *self { Some(x) => s.len() == 1 && *s[0] == x, None => s.len() == 0 } } #[verifier::external_body] fn vinto(self) -> (r: Vec<&'a T>) { unimplemented!() } }
// ordered and hashed collections: iteration is some enumeration without repetition
pub open spec fn enumerates<T>(s: Seq<T>, m: Set<T>) -> bool { s.no_duplicates() && s.to_set() == m }
pub open spec fn enumerates_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0)
    && (forall|k: K| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k) }
pub open spec fn enumerates_mapr<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> *s[i].0 != *s[j].0)
    && (forall|k: K| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k) }
pub open spec fn enumerates_r<'a, T>(s: Seq<&'a T>, m: Set<T>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains(*(#[trigger] s[i])))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> *s[i] != *s[j])
    && (forall|k: T| m.contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k) }
#[verifier::external_body] pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn vnth<T>(v: &Vec<T>, i: usize) -> (r: Option<T>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { unimplemented!() }
pub trait VCollect<T>: Sized {
    spec fn vempty(s: Self) -> bool;
    spec fn vadded(pre: Self, t: T, post: Self) -> bool;
    fn vnew() -> (r: Self) ensures Self::vempty(r);
    fn vpush(&mut self, t: T) ensures Self::vadded(*old(self), t, *final(self));
}
impl<T> VCollect<T> for Vec<T> { open spec fn vempty(s: Self) -> bool { s@ == Seq::<T>::empty() } open spec fn vadded(pre: Self, t: T, post: Self) -> bool { post@ == pre@.push(t) }
    #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vpush(&mut self, t: T) { unimplemented!() } }
// what may be asked for in a collection of T: a reference to a T, or (T a reference to a string) the string
pub trait VElem<T>: Sized { spec fn vel(self) -> T; }
impl<'a, T> VElem<T> for &'a T { open spec fn vel(self) -> T { *self } }
impl<'a> VElem<&'a String> for &'a String { open spec fn vel(self) -> &'a String { self } }
pub trait VContains<T> { spec fn vcs(&self) -> Set<T>; fn vcontains<Q: VElem<T>>(&self, t: Q) -> (r: bool) ensures r == self.vcs().contains(t.vel()); }
impl<T> VContains<T> for Vec<T> { open spec fn vcs(&self) -> Set<T> { self@.to_set() } #[verifier::external_body] fn vcontains<Q: VElem<T>>(&self, t: Q) -> (r: bool) { unimplemented!() } }

/// `.sort*()`: some permutation of the elements (the order is not claimed)
pub trait VSort<T> { spec fn vss(&self) -> Seq<T>; fn vsort(&mut self) ensures permuted(old(self).vss(), final(self).vss()); }
impl<T> VSort<T> for Vec<T> { open spec fn vss(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }

// ---- `.sort*()` with a claimed order: the comparator is checked against the claim on two arbitrary elements
/// the order of std's Ord, uninterpreted except on integers
pub trait VSle { spec fn vsle(&self, o: &Self) -> bool; }
impl VSle for u32 { open spec fn vsle(&self, o: &u32) -> bool { *self <= *o } }
impl VSle for usize { open spec fn vsle(&self, o: &usize) -> bool { *self <= *o } }
pub struct Reverse<T>(pub T);
impl<T: VSle> VSle for Reverse<T> { open spec fn vsle(&self, o: &Reverse<T>) -> bool { o.0.vsle(&self.0) } }
pub uninterp spec fn str_le(a: String, b: String) -> bool;
impl VSle for String { open spec fn vsle(&self, o: &String) -> bool { str_le(*self, *o) } }
pub broadcast axiom fn axiom_str_le(a: String, b: String, c: String) ensures #![trigger str_le(a, b), str_le(b, c)] str_le(a, a), str_le(a, b) || str_le(b, a), str_le(a, b) && str_le(b, a) ==> a == b, str_le(a, b) && str_le(b, c) ==> str_le(a, c);
pub trait VCmp: Sized { spec fn vcle(&self, o: &Self) -> bool; fn cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures (r != core::cmp::Ordering::Greater) == self.vcle(o); }
impl VCmp for String { open spec fn vcle(&self, o: &String) -> bool { str_le(*self, *o) } #[verifier::external_body] fn cmp(&self, o: &String) -> (r: core::cmp::Ordering) { unimplemented!() } }
pub open spec fn total_order<T>(le: spec_fn(T, T) -> bool) -> bool {
    (forall|a: T, b: T| #[trigger] le(a, b) || le(b, a)) && forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c) }
pub open spec fn sorted_by<T>(s: Seq<T>, le: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
/// post is pre in some order
pub open spec fn permuted<T>(pre: Seq<T>, post: Seq<T>) -> bool { post.len() == pre.len() && post.to_multiset() == pre.to_multiset() && (forall|t: T| #[trigger] post.contains(t) == pre.contains(t)) && (pre.no_duplicates() ==> post.no_duplicates()) }
pub trait VSortBy<T> { spec fn vsbs(&self) -> Seq<T>; fn vany<'a>(&'a self) -> (r: &'a T);
    fn vsort_by(&mut self, le: Ghost<spec_fn(T, T) -> bool>) requires total_order(le@) ensures permuted(old(self).vsbs(), final(self).vsbs()), sorted_by(final(self).vsbs(), le@); }
impl<T> VSortBy<T> for Vec<T> { open spec fn vsbs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vany<'a>(&'a self) -> (r: &'a T) { unimplemented!() } #[verifier::external_body] fn vsort_by(&mut self, le: Ghost<spec_fn(T, T) -> bool>) { unimplemented!() } }
/// `iter_mut()`: each element in turn, in place
pub trait VAtMut<T> { spec fn vams(&self) -> Seq<T>; fn vat_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut T) requires i < old(self).vams().len() ensures *r == old(self).vams()[i as int], final(self).vams() == old(self).vams().update(i as int, *final(r)); }
impl<T> VAtMut<T> for Vec<T> { open spec fn vams(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vat_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut T) { unimplemented!() } }

/// `.get_or_insert_with()`
pub trait VGetOrInsert<T> { spec fn vgois(&self) -> Option<T>; fn vget_or_insert<'a>(&'a mut self, d: T) -> (r: &'a mut T) ensures *r == (match old(self).vgois() { Some(x) => x, None => d }), final(self).vgois() == Some(*final(r)); }
impl<T> VGetOrInsert<T> for Option<T> { open spec fn vgois(&self) -> Option<T> { *self } #[verifier::external_body] fn vget_or_insert<'a>(&'a mut self, d: T) -> (r: &'a mut T) { unimplemented!() } }

/// `.dedup()`: of each run of equal elements, the first
pub open spec fn deduped<T>(s: Seq<T>) -> Seq<T> decreases s.len() { if s.len() <= 1 { s } else if s.last() == s[s.len() - 2] { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) } }
pub trait VDedup<T> { spec fn vds(&self) -> Seq<T>; fn vdedup(&mut self) ensures final(self).vds() == deduped(old(self).vds()); }
impl<T> VDedup<T> for Vec<T> { open spec fn vds(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vdedup(&mut self) { unimplemented!() } }

// ---- total orders given by an integer key (derived on field-less enums)
pub trait VOrd: Sized { spec fn vkey(self) -> int;
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) ensures r == (if o.vkey() >= self.vkey() { o } else { self }) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) ensures r == (if o.vkey() < self.vkey() { o } else { self }) { unimplemented!() }
    #[verifier::external_body] fn vlt(&self, o: &Self) -> (r: bool) ensures r == (self.vkey() < o.vkey()) { unimplemented!() }
    #[verifier::external_body] fn vle(&self, o: &Self) -> (r: bool) ensures r == (self.vkey() <= o.vkey()) { unimplemented!() }
    #[verifier::external_body] fn vgt(&self, o: &Self) -> (r: bool) ensures r == (self.vkey() > o.vkey()) { unimplemented!() }
    #[verifier::external_body] fn vge(&self, o: &Self) -> (r: bool) ensures r == (self.vkey() >= o.vkey()) { unimplemented!() }
}
impl VOrd for usize { open spec fn vkey(self) -> int { self as int } }
impl VOrd for u32 { open spec fn vkey(self) -> int { self as int } }
impl VOrd for u64 { open spec fn vkey(self) -> int { self as int } }

// ---- sets and maps
macro_rules! vset { ($N:ident) => { verus!{
pub struct $N<T> { pub s: Ghost<Set<T>> }
impl<T> View for $N<T> { type V = Set<T>; open spec fn view(&self) -> Set<T> { self.s@ } }
impl<T> $N<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.s@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self).s@ == old(self).s@.insert(t), r == !old(self).s@.contains(t) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, t: &T) -> (r: bool) ensures final(self).s@ == old(self).s@.remove(*t), r == old(self).s@.contains(*t) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.s@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.s@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).s@ == Set::<T>::empty() { unimplemented!() }
}
impl<T> VContains<T> for $N<T> { open spec fn vcs(&self) -> Set<T> { self.s@ } #[verifier::external_body] fn vcontains<Q: VElem<T>>(&self, t: Q) -> (r: bool) { unimplemented!() } }
impl<T> VInto for $N<T> { type It = T; open spec fn vrel(self, s: Seq<T>) -> bool { enumerates(s, self.s@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> VInto for &'a $N<T> { type It = &'a T; open spec fn vrel(self, s: Seq<&'a T>) -> bool { enumerates_r(s, self.s@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<T> VCollect<T> for $N<T> { open spec fn vempty(s: Self) -> bool { s.s@ == Set::<T>::empty() } open spec fn vadded(pre: Self, t: T, post: Self) -> bool { post.s@ == pre.s@.insert(t) }
    #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vpush(&mut self, t: T) { unimplemented!() } }
impl<T> PartialEqSpecImpl for $N<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T> PartialEq for $N<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
} } }
vset!(BTreeSet);
vset!(HashSet);
macro_rules! vmap { ($N:ident) => { verus!{
pub struct $N<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> View for $N<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { self.m@ } }
impl<K, V> $N<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.insert(k, v), r == (if old(self).m@.contains_key(k) { Some(old(self).m@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.remove(*k), r == (if old(self).m@.contains_key(*k) { Some(old(self).m@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>) ensures (match r { Some(x) => self.m@.contains_key(*k) && *x == self.m@[*k], None => !self.m@.contains_key(*k) }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.m@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.m@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures (match r { Some(x) => old(self).m@.contains_key(*k) && *x == old(self).m@[*k] && final(self).m@ == old(self).m@.insert(*k, *final(x)), None => !old(self).m@.contains_key(*k) && final(self).m@ == old(self).m@ }) { unimplemented!() }
    #[verifier::external_body] pub fn ventry_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self).m@.contains_key(k) { old(self).m@[k] } else { v }), final(self).m@ == old(self).m@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn ventry_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: VDefault
        ensures (if old(self).m@.contains_key(k) { *r == old(self).m@[k] } else { V::vdef(*r) }), final(self).m@ == old(self).m@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: Vec<V>) ensures exists|e: Seq<(K, V)>| #[trigger] enumerates_map(e, self.m@) && r@ == e.map_values(|p: (K, V)| p.1) { unimplemented!() }
    #[verifier::external_body] pub fn values<'a>(&'a self) -> (r: Vec<&'a V>) ensures exists|e: Seq<(&'a K, &'a V)>| #[trigger] enumerates_mapr(e, self.m@) && r@ == e.map_values(|p: (&'a K, &'a V)| p.1) { unimplemented!() }
    /// `values_mut()`: each entry in turn, in place
    #[verifier::external_body] pub fn vkeys_owned(&self) -> (r: Vec<K>) ensures enumerates(r@, self.m@.dom()) { unimplemented!() }
    #[verifier::external_body] pub fn vat_key_mut<'a>(&'a mut self, k: &K) -> (r: &'a mut V) requires old(self).m@.contains_key(*k) ensures *r == old(self).m@[*k], final(self).m@ == old(self).m@.insert(*k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn vindex<'a>(&'a self, k: &K) -> (r: &'a V) requires self.m@.contains_key(*k) ensures *r == self.m@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn keys<'a>(&'a self) -> (r: Vec<&'a K>) ensures enumerates_r(r@, self.m@.dom()) { unimplemented!() }
}
impl<K, V> VInto for $N<K, V> { type It = (K, V); open spec fn vrel(self, s: Seq<(K, V)>) -> bool { enumerates_map(s, self.m@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<(K, V)>) { unimplemented!() } }
impl<'a, K, V> VInto for &'a $N<K, V> { type It = (&'a K, &'a V); open spec fn vrel(self, s: Seq<(&'a K, &'a V)>) -> bool { enumerates_mapr(s, self.m@) } #[verifier::external_body] fn vinto(self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }
impl<K, V> VCollect<(K, V)> for $N<K, V> { open spec fn vempty(s: Self) -> bool { s.m@ == Map::<K, V>::empty() } open spec fn vadded(pre: Self, t: (K, V), post: Self) -> bool { post.m@ == pre.m@.insert(t.0, t.1) }
    #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vpush(&mut self, t: (K, V)) { unimplemented!() } }
impl<K, V> PartialEqSpecImpl for $N<K, V> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<K, V> PartialEq for $N<K, V> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
} } }
vmap!(BTreeMap);
vmap!(HashMap);

// `.iter()`: the references of a collection
pub trait VIter<'a> { type It; spec fn virel(&'a self, s: Seq<Self::It>) -> bool; fn viter(&'a self) -> (r: Vec<Self::It>) ensures self.virel(r@); }
impl<'a, T: 'a> VIter<'a> for Vec<T> { type It = &'a T; open spec fn virel(&'a self, s: Seq<&'a T>) -> bool { refs_of(s, self@) } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T: 'a> VIter<'a> for Option<T> { type It = &'a T; open spec fn virel(&'a self, s: Seq<&'a T>) -> bool { match *self { Some(x) => s.len() == 1 && *s[0] == x, None => s.len() == 0 } } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T: 'a> VIter<'a> for BTreeSet<T> { type It = &'a T; open spec fn virel(&'a self, s: Seq<&'a T>) -> bool { enumerates_r(s, self.s@) } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T: 'a> VIter<'a> for HashSet<T> { type It = &'a T; open spec fn virel(&'a self, s: Seq<&'a T>) -> bool { enumerates_r(s, self.s@) } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, K: 'a, V: 'a> VIter<'a> for BTreeMap<K, V> { type It = (&'a K, &'a V); open spec fn virel(&'a self, s: Seq<(&'a K, &'a V)>) -> bool { enumerates_mapr(s, self.m@) } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }
impl<'a, K: 'a, V: 'a> VIter<'a> for HashMap<K, V> { type It = (&'a K, &'a V); open spec fn virel(&'a self, s: Seq<(&'a K, &'a V)>) -> bool { enumerates_mapr(s, self.m@) } #[verifier::external_body] fn viter(&'a self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }
} // verus!
