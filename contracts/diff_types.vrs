// ---- the property: what a diff reports about one name
//@type crates/weaver_semconv/src/deprecated.rs Deprecated
//@type crates/weaver_version/src/schema_changes.rs SchemaItemChange
/// the note a deprecation carries; one inferred for a rename without a note is not claimed
pub open spec fn note_ok(d: Deprecated, n: String) -> bool { match d {
    Deprecated::Renamed { renamed_to, note } => note is Some ==> n == note->Some_0,
    Deprecated::Obsoleted { note } => n == note, Deprecated::Uncategorized { note } => n == note, Deprecated::Unspecified { note } => n == note } }
/// present in latest (l) with this deprecation, present in baseline (b) with that one: something is reported
pub open spec fn changed(l: Option<Option<Deprecated>>, b: Option<Option<Deprecated>>) -> bool { match (l, b) {
    (Some(_), None) => true, (None, Some(_)) => true, (Some(Some(d)), Some(e)) => e != Some(d), _ => false } }
/// and this is what
pub open spec fn reports(c: SchemaItemChange, n: String, l: Option<Option<Deprecated>>, b: Option<Option<Deprecated>>) -> bool { match (l, b) {
    (Some(_), None) => c == SchemaItemChange::Added { name: n },
    (None, Some(_)) => c == SchemaItemChange::Removed { name: n },
    (Some(Some(d)), Some(e)) => e != Some(d) && (match d {
        Deprecated::Renamed { renamed_to, note } => (match c { SchemaItemChange::Renamed { old_name, new_name, note } => old_name == n && new_name == renamed_to && note_ok(d, note), _ => false }),
        Deprecated::Obsoleted { note } => c == SchemaItemChange::Obsoleted { name: n, note },
        Deprecated::Uncategorized { note } => c == SchemaItemChange::Uncategorized { name: n, note },
        Deprecated::Unspecified { note } => c == SchemaItemChange::Uncategorized { name: n, note } }),
    _ => false } }
/// what a registry holds under a name: nothing, or an item and its deprecation
pub type Held = spec_fn(String) -> Option<Option<Deprecated>>;
/// post is pre followed by one change per name of ns
pub open spec fn lists(pre: Seq<SchemaItemChange>, post: Seq<SchemaItemChange>, ns: Seq<String>, l: Held, b: Held) -> bool {
    &&& post.len() == pre.len() + ns.len()
    &&& forall|i: int| 0 <= i < pre.len() ==> post[i] == #[trigger] pre[i]
    &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> ns[i] != ns[j]
    &&& forall|i: int| 0 <= i < ns.len() ==> changed(l(#[trigger] ns[i]), b(ns[i])) && reports(post[pre.len() + i], ns[i], l(ns[i]), b(ns[i]))
}
/// the changes appended are those of the names that changed, each name once
pub open spec fn exact_diff(pre: Seq<SchemaItemChange>, post: Seq<SchemaItemChange>, l: Held, b: Held) -> bool {
    exists|ns: Seq<String>| #[trigger] lists(pre, post, ns, l, b) && forall|n: String| changed(l(n), b(n)) ==> #[trigger] ns.contains(n) }
pub proof fn lemma_push(pre: Seq<SchemaItemChange>, mid: Seq<SchemaItemChange>, ns: Seq<String>, l: Held, b: Held, c: SchemaItemChange, n: String)
    requires lists(pre, mid, ns, l, b), !ns.contains(n), changed(l(n), b(n)), reports(c, n, l(n), b(n))
    ensures lists(pre, mid.push(c), ns.push(n), l, b)
{
    let post = mid.push(c); let ms = ns.push(n);
    assert forall|i: int| 0 <= i < ms.len() implies changed(l(#[trigger] ms[i]), b(ms[i])) && reports(post[pre.len() + i], ms[i], l(ms[i]), b(ms[i])) by { if i < ns.len() { assert(ms[i] == ns[i]); } }
}
//@fn crates/weaver_semconv/src/deprecated.rs Deprecated::note
    ensures note_ok(*self, r)
//@end
