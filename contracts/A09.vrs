//@include prelude.vrs
verus! {
// ---- library items (miette, serde_json): assumed
#[derive(Clone, Copy)] pub enum Severity { Advice, Warning, Error }
impl PartialEqSpecImpl for Severity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Severity { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
//@opaque LabeledSpan Value Code Labels Report SerErr RenderErr EffectiveDiagnosticConfig
pub struct MietteDiagnostic { pub message: String, pub code: Option<String>, pub severity: Option<Severity>, pub help: Option<String>, pub url: Option<String>, pub labels: Option<Vec<LabeledSpan>> }
pub trait Serialize { spec fn json(&self) -> Value; }
pub trait Error { spec fn text(&self) -> String; fn to_string(&self) -> (r: String) ensures r == self.text(); }
pub trait Diagnostic {
    spec fn sev(&self) -> Option<Severity>;
    fn severity(&self) -> (r: Option<Severity>) ensures r == self.sev();
    fn code(&self) -> (r: Option<Code>);
    fn help(&self) -> (r: Option<Code>);
    fn url(&self) -> (r: Option<Code>);
    fn labels(&self) -> (r: Option<Labels>);
}
impl Code { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
impl Labels { #[verifier::external_body] pub fn collect(self) -> (r: Vec<LabeledSpan>) { unimplemented!() } }
impl Report { #[verifier::external_body] pub fn new<M>(m: M) -> (r: Report) { unimplemented!() } }
#[verifier::external_body] pub fn to_value<M: Serialize>(m: &M) -> (r: Result<Value, SerErr>) ensures r is Ok, r->Ok_0 == m.json() { unimplemented!() }
pub trait WeaverError<T>: Serialize + Diagnostic + Send + Sync { spec fn compound_of(s: Seq<T>) -> T; fn compound(errors: Vec<T>) -> (r: T) ensures r == Self::compound_of(errors@); }
/// the process-wide switch that turns warnings into errors; constant during a run
pub uninterp spec fn future_mode() -> bool;
#[verifier::external_body] pub fn is_future_mode_enabled() -> (r: bool) ensures r == future_mode() { unimplemented!() }
#[verifier::external_body] pub fn log_error(s: String) { unimplemented!() }

//@type crates/weaver_common/src/result.rs WResult
//@type crates/weaver_common/src/diagnostic.rs MietteDiagnosticExt
//@type crates/weaver_common/src/diagnostic.rs DiagnosticMessage
//@type crates/weaver_common/src/diagnostic.rs DiagnosticMessages

// ---- the property: the errors of a result are a sequence, and every step accounts for each of them
pub open spec fn w_errs<T, E>(w: WResult<T, E>) -> Seq<E> { match w { WResult::Ok(_) => Seq::empty(), WResult::OkWithNFEs(_, v) => v@, WResult::FatalErr(_) => Seq::empty() } }
pub open spec fn w_val<T, E>(w: WResult<T, E>) -> Option<T> { match w { WResult::Ok(t) => Some(t), WResult::OkWithNFEs(t, _) => Some(t), WResult::FatalErr(_) => None } }
pub open spec fn w_fatal<T, E>(w: WResult<T, E>) -> Option<E> { match w { WResult::FatalErr(e) => Some(e), _ => None } }
/// m is the message of e
pub open spec fn msg_of<E: Diagnostic + Error + Serialize>(m: DiagnosticMessage, e: E) -> bool {
    m.error == e.json() && m.diagnostic.message == e.text() && m.diagnostic.severity == (if future_mode() { Some(Severity::Error) } else { e.sev() }) }
pub open spec fn msgs_of<E: Diagnostic + Error + Serialize>(m: Seq<DiagnosticMessage>, e: Seq<E>) -> bool { m.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> msg_of(#[trigger] m[i], e[i]) }
/// post is pre followed by the messages of e
pub open spec fn reported<E: Diagnostic + Error + Serialize>(pre: Seq<DiagnosticMessage>, post: Seq<DiagnosticMessage>, e: Seq<E>) -> bool {
    post.len() == pre.len() + e.len() && post.take(pre.len() as int) == pre && msgs_of(post.skip(pre.len() as int), e) }
pub open spec fn is_warning<E: Diagnostic>(e: E) -> bool { e.sev() == Some(Severity::Warning) }
/// the subsequence of the first n elements on which p is `want`
pub open spec fn sub<E>(s: Seq<E>, p: spec_fn(E) -> bool, n: int) -> Seq<E> decreases n { if n <= 0 { Seq::empty() } else if p(s[n - 1]) { sub(s, p, n - 1).push(s[n - 1]) } else { sub(s, p, n - 1) } }
pub open spec fn no_error(m: DiagnosticMessage) -> bool { m.diagnostic.severity == Some(Severity::Warning) || m.diagnostic.severity == Some(Severity::Advice) }

//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessage::new
//@keep collect
    ensures msg_of(r, error)
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessage::is_warning
    ensures r == (self.diagnostic.severity == Some(Severity::Warning))
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::new
    ensures r.0@ == diag_msgs@
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::empty
    ensures r.0@ == Seq::<DiagnosticMessage>::empty()
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::extend
    ensures final(self).0@ == old(self).0@ + diag_msgs.0@
//@loop 0
    self.0@ == old(self).0@ + __s0@.take(__i0 as int), __s0@ == diag_msgs.0@,
//@at loop0.end
    proof { assert(__s0@.take(__i0 as int) == __s0@.take(__i0 - 1).push(__s0@[__i0 - 1])); assert(self.0@ == old(self).0@ + __s0@.take(__i0 as int)); }
//@at loop0.after
    proof { assert(__s0@.take(__i0 as int) == __s0@); }
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::extend_from_vec
    ensures final(self).0@ == old(self).0@ + diag_msgs@
//@loop 0
    self.0@ == old(self).0@ + __s0@.take(__i0 as int), __s0@ == diag_msgs@,
//@at loop0.end
    proof { assert(__s0@.take(__i0 as int) == __s0@.take(__i0 - 1).push(__s0@[__i0 - 1])); assert(self.0@ == old(self).0@ + __s0@.take(__i0 as int)); }
//@at loop0.after
    proof { assert(__s0@.take(__i0 as int) == __s0@); }
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::len
    ensures r == self.0@.len()
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::is_empty
    ensures r == (self.0@.len() == 0)
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::into_inner
    ensures r@ == self.0@
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::from_errors
    ensures msgs_of(r.0@, errors@)
//@loop 0 acc=Vec<DiagnosticMessage>
    __s0@ == errors@, __a0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> msg_of(#[trigger] __a0@[j], errors@[j]),
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::from_error
    ensures r.0@.len() == 1, msg_of(r.0@[0], error)
//@end
//@fn crates/weaver_common/src/diagnostic.rs DiagnosticMessages::has_error
    ensures r == exists|i: int| 0 <= i < self.0@.len() && !no_error(#[trigger] self.0@[i])
//@loop 0
    refs_of(__s0@, self.0@), __a0 <= __i0, (__a0 == __i0) == (forall|j: int| 0 <= j < __i0 ==> no_error(#[trigger] self.0@[j])),
//@end

// ---- WResult
//@fn crates/weaver_common/src/result.rs WResult::capture_non_fatal_errors as=capture_messages
    ensures r is Ok == w_fatal(self) is None, r is Ok ==> w_val(self) == Some(r->Ok_0), r is Err ==> w_fatal(self) == Some(r->Err_0),
        final(diag_msgs).0@ == old(diag_msgs).0@ + w_errs(self)
//@end
//@fn crates/weaver_common/src/result.rs WResult::is_fatal
    ensures r == (w_fatal(*self) is Some)
//@end
//@fn crates/weaver_common/src/result.rs WResult::has_errors
    ensures r == (w_fatal(*self) is Some || w_errs(*self).len() > 0)
//@end
//@fn crates/weaver_common/src/result.rs WResult::num_errors
    ensures r == w_errs(*self).len() + (if w_fatal(*self) is Some { 1nat } else { 0nat })
//@end
//@fn crates/weaver_common/src/result.rs WResult::extend_non_fatal_errors
    ensures w_val(r) == w_val(self), w_fatal(r) == w_fatal(self), w_fatal(self) is None ==> w_errs(r) == w_errs(self) + non_fatal_errors@
//@loop 0
    __s0@ == non_fatal_errors@, items@ == w_errs(self) + non_fatal_errors@.take(__i0 as int),
//@at loop0.end
    proof { assert(__s0@.take(__i0 as int) == __s0@.take(__i0 - 1).push(__s0@[__i0 - 1])); assert(items@ == w_errs(self) + __s0@.take(__i0 as int)); }
//@at loop0.after
    proof { assert(__s0@.take(__i0 as int) == __s0@); }
//@end
//@fn crates/weaver_common/src/result.rs WResult::with_non_fatal_errors
    ensures w_val(r) == Some(result), w_errs(r) == non_fatal_errors@, w_fatal(r) is None
//@at start
    proof { assert(non_fatal_errors@.len() == 0 ==> non_fatal_errors@ == Seq::<E>::empty()); }
//@end
//@fn crates/weaver_common/src/result.rs WResult::capture_non_fatal_errors nth=1
    ensures r is Ok == w_fatal(self) is None, r is Ok ==> w_val(self) == Some(r->Ok_0), r is Err ==> w_fatal(self) == Some(r->Err_0),
        reported(old(diag_msgs).0@, final(diag_msgs).0@, w_errs(self))
//@loop 0 acc=Vec<DiagnosticMessage>
    __s0@ == w_errs(self), __a0@.len() == __i0, forall|j: int| 0 <= j < __i0 ==> msg_of(#[trigger] __a0@[j], __s0@[j]),
//@at loop0.after
    proof { let p = diag_msgs.0@ + __a0@; assert(p.take(diag_msgs.0@.len() as int) == diag_msgs.0@); assert(p.skip(diag_msgs.0@.len() as int) == __a0@); }
//@at start
    proof { assert(diag_msgs.0@.take(diag_msgs.0@.len() as int) == diag_msgs.0@); assert(diag_msgs.0@.skip(diag_msgs.0@.len() as int) == Seq::<DiagnosticMessage>::empty()); }
//@end
//@fn crates/weaver_common/src/result.rs WResult::capture_warnings
    ensures w_val(r) == w_val(self), w_fatal(r) == w_fatal(self),
        w_errs(r) == sub(w_errs(self), |e: E| !is_warning(e), w_errs(self).len() as int),
        reported(old(diag_msgs).0@, final(diag_msgs).0@, sub(w_errs(self), |e: E| is_warning(e), w_errs(self).len() as int))
//@loop 0
    __s0@ == w_errs(self), __a0@ == sub(w_errs(self), |e: E| is_warning(e), __i0 as int), __z0@ == sub(w_errs(self), |e: E| !is_warning(e), __i0 as int),
//@loop 1 acc=Vec<DiagnosticMessage>
    __s1@ == sub(w_errs(self), |e: E| is_warning(e), w_errs(self).len() as int), __a1@.len() == __i1, forall|j: int| 0 <= j < __i1 ==> msg_of(#[trigger] __a1@[j], __s1@[j]),
//@at loop1.after
    proof { let p = diag_msgs.0@ + __a1@; assert(p.take(diag_msgs.0@.len() as int) == diag_msgs.0@); assert(p.skip(diag_msgs.0@.len() as int) == __a1@);
        assert(errors@.len() == 0 ==> errors@ == Seq::<E>::empty()); }
//@at start
    proof { assert(diag_msgs.0@.take(diag_msgs.0@.len() as int) == diag_msgs.0@); assert(diag_msgs.0@.skip(diag_msgs.0@.len() as int) == Seq::<DiagnosticMessage>::empty()); }
//@end
//@fn crates/weaver_common/src/result.rs WResult::ignore
    requires forall|e: &E| call_requires(ignore, (e,)), forall|e: &E, a: bool, b: bool| call_ensures(ignore, (e,), a) && call_ensures(ignore, (e,), b) ==> a == b
    ensures w_val(r) == w_val(self), w_fatal(r) == w_fatal(self),
        w_errs(r) == sub(w_errs(self), |e: E| !call_ensures(ignore, (&e,), true), w_errs(self).len() as int)
//@loop 0 acc=Vec<E>
    __s0@ == w_errs(self), __a0@ == sub(w_errs(self), |e: E| !call_ensures(ignore, (&e,), true), __i0 as int),
//@at loop0.after
    proof { assert(__a0@.len() == 0 ==> __a0@ == Seq::<E>::empty()); }
//@end
//@fn crates/weaver_common/src/result.rs WResult::into_result_failing_non_fatal
    ensures (match self { WResult::FatalErr(e) => r == Err::<T, E>(e), _ => if w_errs(self).len() == 0 { r is Ok && Some(r->Ok_0) == w_val(self) } else {
        r is Err && r->Err_0 == (if w_errs(self).len() == 1 { w_errs(self)[0] } else { E::compound_of(w_errs(self)) }) } })
//@end
//@fn crates/weaver_common/src/result.rs WResult::into_result_with_non_fatal
    ensures (match self { WResult::FatalErr(e) => r == Err::<(T, Vec<E>), E>(e), _ => r is Ok && Some((r->Ok_0).0) == w_val(self) && (r->Ok_0).1@ == w_errs(self) })
//@end
//@fn crates/weaver_common/src/result.rs WResult::map
    requires w_val(self) is Some ==> call_requires(op, (w_val(self)->Some_0,))
    ensures w_fatal(r) == w_fatal(self), w_errs(r) == w_errs(self), w_val(r) is Some == w_val(self) is Some, w_val(self) is Some ==> call_ensures(op, (w_val(self)->Some_0,), w_val(r)->Some_0)
//@end
//@fn crates/weaver_common/src/error.rs handle_errors
    ensures (if errors@.len() == 0 { r is Ok } else { r is Err && r->Err_0 == (if errors@.len() == 1 { errors@[0] } else { T::compound_of(errors@) }) })
//@end

// ---- the exit code
//@type src/main.rs ExitDirectives
//@type src/main.rs CmdResult
#[verifier::external_body] pub fn print_diagnostics(c: &EffectiveDiagnosticConfig, m: &DiagnosticMessages) -> (r: Result<(), RenderErr>) { unimplemented!() }
//@fn src/main.rs process_diagnostics
    ensures (match cmd_result.command_result {
        Ok(d) => r.exit_code == d.exit_code,
        Err(m) => (exists|i: int| 0 <= i < m.0@.len() && !no_error(#[trigger] m.0@[i])) ==> r.exit_code == 1i32 })
//@end
} // verus!
fn main() {}
