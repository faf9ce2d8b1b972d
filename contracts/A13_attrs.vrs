//@include prelude.vrs
verus! {
//@include resolver.vrs
//@include resolve_ref.vrs
/// what `resolve` may answer for one attribute of a group
pub open spec fn ref_bound(pre: AttributeCatalog, post: AttributeCatalog, ds: Seq<ResolvedDependency>, c: int, a: AttributeSpec, group_excluded: bool, r: Result<Option<AttributeRef>, Error>) -> bool {
    let root = root_of(pre, ds, c, attr_key(a));
    match a {
        AttributeSpec::Ref { .. } => match r {
            Ok(Some(_)) => root is Some && may_see(root->0, group_excluded),
            Ok(None) => root is None && !lookup_fails(pre, ds, c, attr_key(a)) && post == pre,
            Err(e) => lookup_fails(pre, ds, c, attr_key(a)) || (root is Some && !may_see(root->0, group_excluded) && e is ExcludedFromDependencyResolution) },
        AttributeSpec::Id { id, annotations, .. } => match r {
            Ok(Some(_)) => !hidden(annotations) || group_excluded,
            Ok(None) => false,
            Err(e) => (hidden(annotations) && !group_excluded && e is ExcludedFromDependencyResolution) || pre.root_attributes.m@.contains_key(id) } } }
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::resolve
    ensures ref_bound(*old(self), *final(self), dependencies@, cache_lookup.cache_id(), *attr, group_excluded, r), grows(*old(self), *final(self)),
        final(self).root_attributes.m@.contains_key(attr_key(*attr)) || !(r matches Ok(Some(_)))
//@end
/// the catalog only grows: no definition and no resolved attribute is lost
pub open spec fn grows(a: AttributeCatalog, b: AttributeCatalog) -> bool {
    (forall|k: String| #[trigger] a.root_attributes.m@.contains_key(k) ==> b.root_attributes.m@.contains_key(k))
    && (forall|v: Attribute| #[trigger] a.attribute_refs.m@.contains_key(v) ==> b.attribute_refs.m@.contains_key(v) && b.attribute_refs.m@[v] == a.attribute_refs.m@[v]) }
pub open spec fn may_bind(pre: AttributeCatalog, post: AttributeCatalog, ds: Seq<ResolvedDependency>, c: int, a: AttributeSpec, shut: bool, r: AttributeRef) -> bool { ref_bound(pre, post, ds, c, a, shut, Ok(Some(r))) }
/// `r` is what the attribute `a` of a group was resolved to
pub open spec fn bound_to(from: AttributeCatalog, upto: AttributeCatalog, ds: Seq<ResolvedDependency>, c: int, a: AttributeSpec, shut: bool, r: AttributeRef) -> bool {
    exists|pre: AttributeCatalog, post: AttributeCatalog| #[trigger] may_bind(pre, post, ds, c, a, shut, r) && grows(from, pre) && grows(post, upto) }
pub struct Cx { pub from: AttributeCatalog, pub ds: Seq<ResolvedDependency>, pub c: int }
pub open spec fn placed(x: Cx, upto: AttributeCatalog, a: UnresolvedAttribute, shut: bool, still: Seq<UnresolvedAttribute>, refs: Seq<AttributeRef>) -> bool {
    still.contains(a) || exists|k: int| 0 <= k < refs.len() && #[trigger] bound_to(x.from, upto, x.ds, x.c, a.spec, shut, refs[k]) }
pub open spec fn all_placed(x: Cx, upto: AttributeCatalog, attrs: Seq<UnresolvedAttribute>, n: int, shut: bool, still: Seq<UnresolvedAttribute>, refs: Seq<AttributeRef>) -> bool {
    still.len() + refs.len() == n && (forall|j: int| 0 <= j < n ==> placed(x, upto, #[trigger] attrs[j], shut, still, refs)) }
/// apart from its attributes and their lineage, a group is as it was
pub open spec fn same_but_attrs(o: UnresolvedGroup, n: UnresolvedGroup) -> bool { n == (UnresolvedGroup { attributes: n.attributes, group: Group { attributes: n.group.attributes, lineage: n.group.lineage, ..o.group }, ..o }) }
pub open spec fn lineage_only(o: UnresolvedGroup, n: UnresolvedGroup) -> bool { n == (UnresolvedGroup { attributes: n.attributes, group: Group { lineage: n.group.lineage, ..o.group }, ..o }) }
/// every attribute of `o` is still waiting in `n` or has become one of its resolved attributes
pub open spec fn moved(x: Cx, upto: AttributeCatalog, o: UnresolvedGroup, n: UnresolvedGroup) -> bool {
    same_but_attrs(o, n) && n.attributes@.len() + n.group.attributes@.len() == o.attributes@.len() + o.group.attributes@.len()
    && o.group.attributes@.is_prefix_of(n.group.attributes@)
    && (forall|j: int| 0 <= j < o.attributes@.len() ==> placed(x, upto, #[trigger] o.attributes@[j], is_closed(o), n.attributes@, n.group.attributes@)) }
pub open spec fn all_moved(x: Cx, upto: AttributeCatalog, o: Seq<UnresolvedGroup>, n: Seq<UnresolvedGroup>) -> bool { o.len() == n.len() && forall|i: int| 0 <= i < o.len() ==> moved(x, upto, o[i], #[trigger] n[i]) }
pub open spec fn waiting(gs: Seq<UnresolvedGroup>) -> nat decreases gs.len() { if gs.len() == 0 { 0 } else { waiting(gs.drop_last()) + gs.last().attributes@.len() } }
pub proof fn lemma_grows_trans(a: AttributeCatalog, b: AttributeCatalog, c: AttributeCatalog) requires grows(a, b), grows(b, c) ensures grows(a, c) { }
pub proof fn lemma_placed(x: Cx, u: AttributeCatalog, u2: AttributeCatalog, a: UnresolvedAttribute, shut: bool, still: Seq<UnresolvedAttribute>, refs: Seq<AttributeRef>, still2: Seq<UnresolvedAttribute>, refs2: Seq<AttributeRef>)
    requires placed(x, u, a, shut, still, refs), grows(u, u2), still.contains(a) ==> placed(x, u2, a, shut, still2, refs2), refs.is_prefix_of(refs2)
    ensures placed(x, u2, a, shut, still2, refs2) {
    if !still.contains(a) {
        let k = choose|k: int| 0 <= k < refs.len() && #[trigger] bound_to(x.from, u, x.ds, x.c, a.spec, shut, refs[k]);
        let (pre, post) = choose|pre: AttributeCatalog, post: AttributeCatalog| #[trigger] may_bind(pre, post, x.ds, x.c, a.spec, shut, refs[k]) && grows(x.from, pre) && grows(post, u);
        lemma_grows_trans(post, u, u2);
        assert(refs2[k] == refs[k]); assert(may_bind(pre, post, x.ds, x.c, a.spec, shut, refs2[k])); assert(bound_to(x.from, u2, x.ds, x.c, a.spec, shut, refs2[k])); } }
pub proof fn lemma_moved_grows(x: Cx, u: AttributeCatalog, u2: AttributeCatalog, o: UnresolvedGroup, n: UnresolvedGroup) requires moved(x, u, o, n), grows(u, u2) ensures moved(x, u2, o, n) {
    assert forall|j: int| 0 <= j < o.attributes@.len() implies placed(x, u2, #[trigger] o.attributes@[j], is_closed(o), n.attributes@, n.group.attributes@) by { lemma_placed(x, u, u2, o.attributes@[j], is_closed(o), n.attributes@, n.group.attributes@, n.attributes@, n.group.attributes@); } }
pub proof fn lemma_all_placed(x: Cx, u: AttributeCatalog, u2: AttributeCatalog, attrs: Seq<UnresolvedAttribute>, n: int, shut: bool, still: Seq<UnresolvedAttribute>, refs: Seq<AttributeRef>, still2: Seq<UnresolvedAttribute>, refs2: Seq<AttributeRef>)
    requires all_placed(x, u, attrs, n, shut, still, refs), grows(u, u2), still.is_prefix_of(still2), refs.is_prefix_of(refs2), 0 <= n < attrs.len(), still2.len() + refs2.len() == n + 1,
        placed(x, u2, attrs[n], shut, still2, refs2)
    ensures all_placed(x, u2, attrs, n + 1, shut, still2, refs2) {
    assert forall|j: int| 0 <= j < n + 1 implies placed(x, u2, #[trigger] attrs[j], shut, still2, refs2) by { if j < n { let a = attrs[j]; if still.contains(a) { let k = choose|k: int| 0 <= k < still.len() && still[k] == a; assert(still2[k] == a); } lemma_placed(x, u, u2, a, shut, still, refs, still2, refs2); } } }
pub proof fn lemma_moved(x: Cx, u: AttributeCatalog, u2: AttributeCatalog, o: UnresolvedGroup, m: UnresolvedGroup, n: UnresolvedGroup, refs: Seq<AttributeRef>)
    requires moved(x, u, o, m), grows(u, u2), same_but_attrs(m, n), n.group.attributes@ == m.group.attributes@ + refs, all_placed(x, u2, m.attributes@, m.attributes@.len() as int, is_closed(m), n.attributes@, refs)
    ensures moved(x, u2, o, n) {
    assert forall|j: int| 0 <= j < o.attributes@.len() implies placed(x, u2, #[trigger] o.attributes@[j], is_closed(o), n.attributes@, n.group.attributes@) by {
        let a = o.attributes@[j];
        if m.attributes@.contains(a) { let k = choose|k: int| 0 <= k < m.attributes@.len() && m.attributes@[k] == a; assert(placed(x, u2, m.attributes@[k], is_closed(m), n.attributes@, refs));
            if !n.attributes@.contains(a) { let q = choose|q: int| 0 <= q < refs.len() && #[trigger] bound_to(x.from, u2, x.ds, x.c, a.spec, is_closed(m), refs[q]); assert(n.group.attributes@[m.group.attributes@.len() + q] == refs[q]); assert(bound_to(x.from, u2, x.ds, x.c, a.spec, is_closed(o), n.group.attributes@[m.group.attributes@.len() + q])); } }
        lemma_placed(x, u, u2, a, is_closed(o), m.attributes@, m.group.attributes@, n.attributes@, n.group.attributes@); } }
pub proof fn lemma_all_moved(x: Cx, u: AttributeCatalog, u2: AttributeCatalog, o: Seq<UnresolvedGroup>, c: Seq<UnresolvedGroup>, i: int, n: UnresolvedGroup)
    requires all_moved(x, u, o, c), grows(u, u2), 0 <= i < c.len(), moved(x, u2, o[i], n)
    ensures all_moved(x, u2, o, c.update(i, n)), waiting(c.update(i, n)) == waiting(c) - c[i].attributes@.len() + n.attributes@.len() {
    let c2 = c.update(i, n);
    assert forall|j: int| 0 <= j < o.len() implies moved(x, u2, o[j], #[trigger] c2[j]) by { if j != i { assert(moved(x, u, o[j], c[j])); lemma_moved_grows(x, u, u2, o[j], c[j]); } }
    lemma_waiting(c, i, n); }
pub proof fn lemma_waiting(c: Seq<UnresolvedGroup>, i: int, n: UnresolvedGroup) requires 0 <= i < c.len()
    ensures waiting(c.update(i, n)) == waiting(c) - c[i].attributes@.len() + n.attributes@.len(), waiting(c) >= c[i].attributes@.len() decreases c.len() {
    let c2 = c.update(i, n);
    if i == c.len() - 1 { assert(c2.drop_last() =~= c.drop_last()); } else { lemma_waiting(c.drop_last(), i, n); assert(c2.drop_last() =~= c.drop_last().update(i, n)); } }
pub open spec fn groups_only(a: UnresolvedRegistry, b: UnresolvedRegistry) -> bool { b == (UnresolvedRegistry { groups: b.groups, ..a }) }
pub open spec fn all_bound(gs: Seq<UnresolvedGroup>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] gs[i]).attributes@.len() == 0 }
//@fn crates/weaver_resolver/src/registry.rs resolve_attribute_references isolate
    requires waiting(old(ureg).groups@) <= i32::MAX
    ensures groups_only(*old(ureg), *final(ureg)),
        r is Ok ==> all_bound(final(ureg).groups@, final(ureg).groups@.len() as int) && all_moved(Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }, *final(attr_catalog), old(ureg).groups@, final(ureg).groups@)
//@at start
    let ghost x = Cx { from: *attr_catalog, ds: ureg.dependencies@, c: cache_lookup.cache_id() };
//@loop 0
    x == (Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }), groups_only(*old(ureg), *ureg), grows(x.from, *attr_catalog), all_moved(x, *attr_catalog, old(ureg).groups@, ureg.groups@), waiting(ureg.groups@) <= i32::MAX, __n0 == ureg.groups@.len(),
//@at loop0.start
    let ghost c0 = ureg.groups@; let ghost m = c0[__i0 as int]; let ghost u0 = *attr_catalog; let ghost mut still: Seq<UnresolvedAttribute> = Seq::empty(); let ghost mut refs: Seq<AttributeRef> = Seq::empty(); 
//@loop 1
    x == (Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }), ureg.dependencies@ == x.ds, group_excluded == is_closed(m), grows(x.from, u0), grows(u0, *attr_catalog),
    __s1@ == m.attributes@, lineage_only(m, *unresolved_group), all_placed(x, *attr_catalog, __s1@, __i1 as int, is_closed(m), still_unresolved@, resolved_attr@),
//@at loop1.start
    let ghost u1 = *attr_catalog; let ghost st1 = still_unresolved@; let ghost rf1 = resolved_attr@;
    proof { lemma_grows_trans(x.from, u0, u1); }
//@at loop1.end
    proof { let a = __s1@[__i1 - 1]; lemma_grows_trans(u0, u1, *attr_catalog);
        if still_unresolved@.len() == st1.len() { assert(may_bind(u1, *attr_catalog, x.ds, x.c, a.spec, is_closed(m), resolved_attr@.last())); assert(bound_to(x.from, *attr_catalog, x.ds, x.c, a.spec, is_closed(m), resolved_attr@[rf1.len() as int])); } else { assert(still_unresolved@[st1.len() as int] == a); }
        lemma_all_placed(x, u1, *attr_catalog, __s1@, __i1 - 1, is_closed(m), st1, rf1, still_unresolved@, resolved_attr@); }
//@loop 2
    same_but_attrs(m, *unresolved_group), unresolved_group.attributes@ == still, unresolved_group.group.attributes@ =~= m.group.attributes@ + __s2@.take(__i2 as int), __s2@ == refs,
//@at loop2.before
    proof { still = unresolved_group.attributes@; refs = __s2@; }
//@at loop2.end
    proof { assert(__s2@.take(__i2 as int).drop_last() =~= __s2@.take(__i2 - 1)); }
//@at loop2.after
    proof { assert(refs.take(refs.len() as int) =~= refs); }
//@at loop0.end
    proof { let k = __i0 - 1; let g = ureg.groups@[k]; assert(ureg.groups@ =~= c0.update(k, g)); assert(all_moved(x, u0, old(ureg).groups@, c0)); assert(moved(x, u0, old(ureg).groups@[k], c0[k]));
        lemma_moved(x, u0, *attr_catalog, old(ureg).groups@[k], m, g, refs); lemma_all_moved(x, u0, *attr_catalog, old(ureg).groups@, c0, k, g); lemma_grows_trans(x.from, u0, *attr_catalog);  }
//@loop 3
    invariant x == (Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }), groups_only(*old(ureg), *ureg), grows(x.from, *attr_catalog), all_moved(x, *attr_catalog, old(ureg).groups@, ureg.groups@), waiting(ureg.groups@) <= i32::MAX,
    ensures all_bound(ureg.groups@, ureg.groups@.len() as int),
    decreases waiting(ureg.groups@)
//@at loop3.start
    let ghost start = ureg.groups@;
//@loop 4
    x == (Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }), groups_only(*old(ureg), *ureg), grows(x.from, *attr_catalog), all_moved(x, *attr_catalog, old(ureg).groups@, ureg.groups@), waiting(ureg.groups@) <= i32::MAX, __n4 == ureg.groups@.len(), resolved_attr_count + waiting(ureg.groups@) == waiting(start), waiting(start) <= i32::MAX, resolved_attr_count >= 0,
    errors@.len() == 0 ==> all_bound(ureg.groups@, __i4 as int),
//@at loop4.start
    let ghost c0 = ureg.groups@; let ghost m = c0[__i4 as int]; let ghost u0 = *attr_catalog; let ghost mut still: Seq<UnresolvedAttribute> = Seq::empty(); let ghost mut refs: Seq<AttributeRef> = Seq::empty(); let ghost cnt0: int = resolved_attr_count as int; let ghost er0 = errors@.len();
    proof { lemma_waiting(c0, __i4 as int, m); }
//@loop 5
    x == (Cx { from: *old(attr_catalog), ds: old(ureg).dependencies@, c: cache_lookup.cache_id() }), ureg.dependencies@ == x.ds, group_excluded == is_closed(m), grows(x.from, u0), grows(u0, *attr_catalog),
    __s5@ == m.attributes@, lineage_only(m, *unresolved_group), all_placed(x, *attr_catalog, __s5@, __i5 as int, is_closed(m), still_unresolved@, resolved_attr@), resolved_attr_count == cnt0 + resolved_attr@.len(), cnt0 + m.attributes@.len() <= i32::MAX, cnt0 >= 0, errors@.len() >= er0, errors@.len() == er0 ==> still_unresolved@.len() == 0,
//@at loop5.start
    let ghost u1 = *attr_catalog; let ghost st1 = still_unresolved@; let ghost rf1 = resolved_attr@;
    proof { lemma_grows_trans(x.from, u0, u1); }
//@at loop5.end
    proof { let a = __s5@[__i5 - 1]; lemma_grows_trans(u0, u1, *attr_catalog);
        if still_unresolved@.len() == st1.len() { assert(may_bind(u1, *attr_catalog, x.ds, x.c, a.spec, is_closed(m), resolved_attr@.last())); assert(bound_to(x.from, *attr_catalog, x.ds, x.c, a.spec, is_closed(m), resolved_attr@[rf1.len() as int])); } else { assert(still_unresolved@[st1.len() as int] == a); }
        lemma_all_placed(x, u1, *attr_catalog, __s5@, __i5 - 1, is_closed(m), st1, rf1, still_unresolved@, resolved_attr@); }
//@loop 6
    same_but_attrs(m, *unresolved_group), unresolved_group.attributes@ == still, unresolved_group.group.attributes@ =~= m.group.attributes@ + __s6@.take(__i6 as int), __s6@ == refs,
//@at loop6.before
    proof { still = unresolved_group.attributes@; refs = __s6@; }
//@at loop6.end
    proof { assert(__s6@.take(__i6 as int).drop_last() =~= __s6@.take(__i6 - 1)); }
//@at loop6.after
    proof { assert(refs.take(refs.len() as int) =~= refs); }
//@at loop4.end
    proof { let k = __i4 - 1; let g = ureg.groups@[k]; assert(ureg.groups@ =~= c0.update(k, g)); assert(all_moved(x, u0, old(ureg).groups@, c0)); assert(moved(x, u0, old(ureg).groups@[k], c0[k]));
        lemma_moved(x, u0, *attr_catalog, old(ureg).groups@[k], m, g, refs); lemma_all_moved(x, u0, *attr_catalog, old(ureg).groups@, c0, k, g); lemma_grows_trans(x.from, u0, *attr_catalog);  }
//@end
fn main() {}
} // verus!
