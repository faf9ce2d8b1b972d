//@include prelude.vrs
verus! {
//@opaque AttributeType Examples RequirementLevel Stability AttributeRole YamlValue Provenance SchemaUrl Resource InstrumentationLibrary Versions SpanKindSpec InstrumentSpec AnyValueSpec EntityAssociation IncludeGroup EntityAssociationOrigins SignalRequirementLevel Tags Value SpanName Deprecated UnresolvedAttribute ImportsWithProvenance ResolvedDependency
//@type crates/weaver_semconv/src/group.rs GroupType
//@type crates/weaver_semconv/src/v2/attribute_group.rs AttributeGroupVisibilitySpec
//@type crates/weaver_resolved_schema/src/attribute.rs AttributeRef
//@type crates/weaver_resolved_schema/src/attribute.rs Attribute
//@type crates/weaver_resolved_schema/src/lineage.rs AttributeLineage
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
//@type crates/weaver_resolved_schema/src/registry.rs Group
//@type crates/weaver_resolved_schema/src/registry.rs Registry
//@type crates/weaver_resolved_schema/src/catalog.rs RootAttribute
//@type crates/weaver_resolved_schema/src/catalog.rs Catalog
//@type crates/weaver_resolver/src/attribute.rs AttributeSource
//@type crates/weaver_resolver/src/attribute.rs AttributeWithSource
//@type crates/weaver_resolver/src/attribute.rs AttributeCatalog
//@type crates/weaver_resolver/src/registry.rs UnresolvedGroup
//@type crates/weaver_resolver/src/registry.rs UnresolvedRegistry

// ---- the catalog: each attribute once, its references exactly 0..n
pub type Refs = Map<Attribute, AttributeRef>;
pub open spec fn cat_wf(m: Refs) -> bool {
    &&& forall|a: Attribute| #[trigger] m.contains_key(a) ==> m[a].0 < m.dom().len()
    &&& forall|a: Attribute, b: Attribute| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a] == m[b] ==> a == b }
/// no reference already handed out changes its meaning
pub open spec fn refs_kept(pre: Refs, post: Refs) -> bool { forall|a: Attribute| pre.contains_key(a) ==> #[trigger] post.contains_key(a) && post[a] == pre[a] }
/// s lists the attributes in the order of their references
pub open spec fn lists_catalog(m: Refs, s: Seq<Attribute>) -> bool { s.len() == m.dom().len() && forall|a: Attribute| #[trigger] m.contains_key(a) ==> s[m[a].0 as int] == a }
/// the order attributes have in a stabilized catalog (derived Ord, uninterpreted)
pub uninterp spec fn attr_le(a: Attribute, b: Attribute) -> bool;
pub broadcast axiom fn axiom_attr_le(a: Attribute, b: Attribute, c: Attribute) ensures #![trigger attr_le(a, b), attr_le(b, c)] attr_le(a, a), attr_le(a, b) || attr_le(b, a), attr_le(a, b) && attr_le(b, a) ==> a == b, attr_le(a, b) && attr_le(b, c) ==> attr_le(a, c);
impl VCmp for Attribute { open spec fn vcle(&self, o: &Attribute) -> bool { attr_le(*self, *o) } #[verifier::external_body] fn cmp(&self, o: &Attribute) -> (r: core::cmp::Ordering) { unimplemented!() } }
impl VSle for AttributeRef { open spec fn vsle(&self, o: &AttributeRef) -> bool { self.0 <= o.0 } }
pub open spec fn ref_le(p: AttributeRef, q: AttributeRef) -> bool { p.0 <= q.0 }
pub open spec fn pair_ref_le(p: (Attribute, AttributeRef), q: (Attribute, AttributeRef)) -> bool { p.1.0 <= q.1.0 }
pub open spec fn pairr_ref_le(p: (&Attribute, &AttributeRef), q: (&Attribute, &AttributeRef)) -> bool { p.1.0 <= q.1.0 }
pub open spec fn pair_attr_le(p: (Attribute, AttributeRef), q: (Attribute, AttributeRef)) -> bool { attr_le(p.0, q.0) }

/// n different numbers below n, in ascending order, are 0..n
pub proof fn lemma_dense(s: Seq<int>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len()
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == i
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] >= i by { lemma_above(s, i); }
    assert forall|i: int| 0 <= i < s.len() implies s[i] <= i by { lemma_below(s, i); }
}
proof fn lemma_above(s: Seq<int>, i: int) requires 0 <= i < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] ensures s[i] >= i decreases i { if i > 0 { lemma_above(s, i - 1); assert(s[i - 1] < s[i]); } }
proof fn lemma_below(s: Seq<int>, i: int) requires 0 <= i < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j], forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < s.len() ensures s[i] <= i decreases s.len() - i { if i < s.len() - 1 { lemma_below(s, i + 1); assert(s[i] < s[i + 1]); } }

/// an enumeration has as many elements as the map has keys
pub proof fn lemma_count<K, V>(e: Seq<(K, V)>, m: Map<K, V>) requires enumerates_map(e, m) ensures e.len() == m.dom().len(), e.no_duplicates()
{
    let ks = e.map_values(|p: (K, V)| p.0);
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies ks[i] != ks[j] by { assert(e[i].0 != e[j].0); }
    assert(ks.no_duplicates()); ks.unique_seq_to_set();
    assert forall|k: K| ks.to_set().contains(k) == m.dom().contains(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(ks[i] == k); }
        if ks.to_set().contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(m.contains_key(e[i].0)); } }
    assert(ks.to_set() =~= m.dom());
}
/// an enumeration of a well-formed catalog sorted by reference lists it
pub proof fn lemma_listed(m: Refs, e: Seq<(Attribute, AttributeRef)>, s: Seq<(Attribute, AttributeRef)>)
    requires cat_wf(m), enumerates_map(e, m), permuted(e, s), sorted_by(s, |l: (Attribute, AttributeRef), r: (Attribute, AttributeRef)| pair_ref_le(l, r))
    ensures s.len() == m.dom().len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.0 == i, forall|a: Attribute| #[trigger] m.contains_key(a) ==> s[m[a].0 as int].0 == a
{
    lemma_count(e, m);
    let ns = s.map_values(|p: (Attribute, AttributeRef)| p.1.0 as int);
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by { assert(s.contains(s[i])); assert(e.contains(s[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == s[i]; assert(m.contains_key(e[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies ns[i] < ns[j] by { assert(s[i] != s[j]); assert(pair_ref_le(s[i], s[j])); if ns[i] == ns[j] { assert(m[s[i].0] == m[s[j].0]); assert(s[i].0 == s[j].0); } }
    assert forall|i: int| 0 <= i < ns.len() implies 0 <= #[trigger] ns[i] < ns.len() by { assert(m.contains_key(s[i].0)); }
    lemma_dense(ns);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1.0 == i by { assert(ns[i] == i); }
    assert forall|a: Attribute| #[trigger] m.contains_key(a) implies s[m[a].0 as int].0 == a by {
        let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j].0 == a; assert(e.contains(e[j])); assert(s.contains(e[j]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == e[j]; assert(s[i].1.0 == i); }
}
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::attribute_ref
    requires cat_wf(old(self).attribute_refs.m@), old(self).attribute_refs.m@.dom().len() < u32::MAX
    ensures cat_wf(final(self).attribute_refs.m@), refs_kept(old(self).attribute_refs.m@, final(self).attribute_refs.m@), final(self).root_attributes == old(self).root_attributes,
        final(self).attribute_refs.m@ == (if old(self).attribute_refs.m@.contains_key(attr) { old(self).attribute_refs.m@ } else { old(self).attribute_refs.m@.insert(attr, r) }), final(self).attribute_refs.m@[attr] == r
//@at start
    assert(self.attribute_refs.m@.contains_key(attr) ==> self.attribute_refs.m@.insert(attr, self.attribute_refs.m@[attr]) =~= self.attribute_refs.m@);
//@end
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::drain_attributes
    requires cat_wf(self.attribute_refs.m@)
    ensures lists_catalog(self.attribute_refs.m@, r@)
//@at start
    let ghost mut e: Seq<(Attribute, AttributeRef)> = Seq::empty();
//@loop 0 acc=Vec<(Attribute,AttributeRef)>
    enumerates_map(__s0@, self.attribute_refs.m@), __a0@ =~= __s0@.take(__i0 as int),
//@sort 0 pair_ref_le
//@at loop0.after
    proof { e = __s0@; assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@loop 1 acc=Vec<Attribute>
    __s1@ == attributes@, __a1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> __a1@[i] == (#[trigger] __s1@[i]).0,
//@at loop1.after
    proof { lemma_listed(self.attribute_refs.m@, e, __s1@); }
//@end
pub open spec fn deref2<'a>(p: (&'a Attribute, &'a AttributeRef)) -> (Attribute, AttributeRef) { (*p.0, *p.1) }
pub open spec fn derefs<'a>(s: Seq<(&'a Attribute, &'a AttributeRef)>) -> Seq<(Attribute, AttributeRef)> { s.map_values(|p: (&'a Attribute, &'a AttributeRef)| (*p.0, *p.1)) }
proof fn lemma_listed_r<'a>(m: Refs, e: Seq<(&'a Attribute, &'a AttributeRef)>, s: Seq<(&'a Attribute, &'a AttributeRef)>)
    requires cat_wf(m), enumerates_mapr(e, m), permuted(e, s), sorted_by(s, |l: (&'a Attribute, &'a AttributeRef), r: (&'a Attribute, &'a AttributeRef)| pairr_ref_le(l, r))
    ensures s.len() == m.dom().len(), forall|a: Attribute| #[trigger] m.contains_key(a) ==> *s[m[a].0 as int].0 == a
{
    let (de, ds) = (derefs(e), derefs(s));
    assert forall|k: Attribute| m.contains_key(k) implies exists|i: int| 0 <= i < de.len() && #[trigger] de[i].0 == k by { let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k; assert(de[i].0 == k); }
    assert(enumerates_map(de, m)); lemma_count(de, m);
    assert forall|x: (Attribute, AttributeRef)| #[trigger] ds.contains(x) == de.contains(x) by {
        if ds.contains(x) { let i = choose|i: int| 0 <= i < ds.len() && ds[i] == x; assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == s[i]; assert(de[j] == x); }
        if de.contains(x) { let i = choose|i: int| 0 <= i < de.len() && de[i] == x; assert(e.contains(e[i])); assert(s.contains(e[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == e[i]; assert(ds[j] == x); } }
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by { if i < j { assert(*e[i].0 != *e[j].0); } else { assert(*e[j].0 != *e[i].0); } } }
    s.unique_seq_to_set();
    lemma_listed_any(m, de, ds, s);
}
/// as `lemma_listed`, from the elements alone
proof fn lemma_listed_any<'a>(m: Refs, e: Seq<(Attribute, AttributeRef)>, s: Seq<(Attribute, AttributeRef)>, sr: Seq<(&'a Attribute, &'a AttributeRef)>)
    requires cat_wf(m), enumerates_map(e, m), s.len() == e.len(), forall|x: (Attribute, AttributeRef)| #[trigger] s.contains(x) == e.contains(x), sr.no_duplicates(), s == derefs(sr),
        sorted_by(sr, |l: (&'a Attribute, &'a AttributeRef), r: (&'a Attribute, &'a AttributeRef)| pairr_ref_le(l, r))
    ensures s.len() == m.dom().len(), forall|a: Attribute| #[trigger] m.contains_key(a) ==> s[m[a].0 as int].0 == a
{
    lemma_count(e, m);
    let ns = s.map_values(|p: (Attribute, AttributeRef)| p.1.0 as int);
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by { assert(s.contains(s[i])); assert(e.contains(s[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == s[i]; assert(m.contains_key(e[j].0)); }
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies ns[i] < ns[j] by { assert(sr[i] != sr[j]); assert(s[i] == deref2(sr[i]) && s[j] == deref2(sr[j])); assert(pairr_ref_le(sr[i], sr[j])); if ns[i] == ns[j] { assert(m[s[i].0] == m[s[j].0]); assert(s[i].0 == s[j].0); } }
    assert forall|i: int| 0 <= i < ns.len() implies 0 <= #[trigger] ns[i] < ns.len() by { assert(m.contains_key(s[i].0)); }
    lemma_dense(ns);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1.0 == i by { assert(ns[i] == i); }
    assert forall|a: Attribute| #[trigger] m.contains_key(a) implies s[m[a].0 as int].0 == a by {
        let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j].0 == a; assert(e.contains(e[j])); assert(s.contains(e[j]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == e[j]; assert(s[i].1.0 == i); }
}
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::attribute_name_index
    requires cat_wf(self.attribute_refs.m@)
    ensures r@.len() == self.attribute_refs.m@.dom().len(), forall|a: Attribute| #[trigger] self.attribute_refs.m@.contains_key(a) ==> r@[self.attribute_refs.m@[a].0 as int] == a.name
//@at start
    let ghost mut e: Seq<(&Attribute, &AttributeRef)> = Seq::empty();
//@loop 0 acc=Vec<(&Attribute,&AttributeRef)>
    enumerates_mapr(__s0@, self.attribute_refs.m@), __a0@ =~= __s0@.take(__i0 as int),
//@at loop0.after
    proof { e = __s0@; assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@sort 0 pairr_ref_le
//@loop 1 acc=Vec<String>
    refs_of(__s1@, attributes@), __a1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> __a1@[i] == (#[trigger] __s1@[i]).0.name,
//@at loop1.after
    proof { lemma_listed_r(self.attribute_refs.m@, e, attributes@);
        assert forall|a: Attribute| #[trigger] self.attribute_refs.m@.contains_key(a) implies __a1@[self.attribute_refs.m@[a].0 as int] == a.name by { let k = self.attribute_refs.m@[a].0 as int; assert(*attributes@[k].0 == a); assert(*__s1@[k] == attributes@[k]); } }
//@end

// ---- dropping the unused attributes
/// the kept references are those asked for
pub open spec fn gc_keeps(pre: Refs, keep: Set<AttributeRef>, post: Refs) -> bool { forall|a: Attribute| #[trigger] post.contains_key(a) <==> pre.contains_key(a) && keep.contains(pre[a]) }
/// the map takes the old reference of a kept attribute to its new one
pub open spec fn gc_maps(pre: Refs, post: Refs, g: Map<AttributeRef, AttributeRef>) -> bool { forall|a: Attribute| #[trigger] post.contains_key(a) ==> g.contains_key(pre[a]) && g[pre[a]] == post[a] }
/// references are handed out in attribute order
pub open spec fn gc_ordered(post: Refs) -> bool { forall|a: Attribute, b: Attribute| #[trigger] post.contains_key(a) && #[trigger] post.contains_key(b) && post[a].0 <= post[b].0 ==> attr_le(a, b) }
pub open spec fn gc_numbers(o: Seq<(Attribute, AttributeRef)>, g: Map<AttributeRef, AttributeRef>) -> bool { forall|i: int| 0 <= i < o.len() ==> g.contains_key((#[trigger] o[i]).1) && g[o[i].1].0 == i }
pub open spec fn gc_remapped(mid: Refs, g: Map<AttributeRef, AttributeRef>, post: Refs) -> bool { &&& post.dom() =~= mid.dom() &&& forall|a: Attribute| #[trigger] mid.contains_key(a) ==> g.contains_key(mid[a]) && post[a] == g[mid[a]] }
proof fn lemma_gc(mid: Refs, e: Seq<(Attribute, AttributeRef)>, o: Seq<(Attribute, AttributeRef)>, g: Map<AttributeRef, AttributeRef>, post: Refs)
    requires enumerates_map(e, mid), permuted(e, o), sorted_by(o, |l: (Attribute, AttributeRef), r: (Attribute, AttributeRef)| pair_attr_le(l, r)), gc_numbers(o, g), gc_remapped(mid, g, post)
    ensures cat_wf(post), gc_ordered(post)
{
    lemma_count(e, mid);
    assert forall|a: Attribute| #[trigger] post.contains_key(a) implies post[a].0 < o.len() && o[post[a].0 as int].0 == a by {
        assert(mid.contains_key(a));
        let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j].0 == a; assert(e.contains(e[j])); assert(o.contains(e[j]));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == e[j]; assert(g[o[i].1].0 == i); }
    assert forall|a: Attribute, b: Attribute| #[trigger] post.contains_key(a) && #[trigger] post.contains_key(b) && post[a].0 <= post[b].0 implies attr_le(a, b) by { assert(pair_attr_le(o[post[a].0 as int], o[post[b].0 as int])); }
}
//@fn crates/weaver_resolver/src/attribute.rs AttributeCatalog::gc_unreferenced_attribute_refs_and_sort
    requires cat_wf(old(self).attribute_refs.m@), old(self).attribute_refs.m@.dom().len() < u32::MAX
    ensures cat_wf(final(self).attribute_refs.m@), final(self).root_attributes == old(self).root_attributes,
        gc_keeps(old(self).attribute_refs.m@, attr_refs.s@, final(self).attribute_refs.m@),
        gc_maps(old(self).attribute_refs.m@, final(self).attribute_refs.m@, r.m@),
        gc_ordered(final(self).attribute_refs.m@),
//@at start
    let ghost pre = self.attribute_refs.m@; let ghost mut mid = pre; let ghost mut e: Seq<(Attribute, AttributeRef)> = Seq::empty(); let ghost mut gm: Map<AttributeRef, AttributeRef> = Map::empty();
//@loop 0 acc=HashMap<Attribute,AttributeRef>
    enumerates_map(__s0@, pre), *self == *old(self), pre == self.attribute_refs.m@,
    forall|a: Attribute| #[trigger] __a0.m@.contains_key(a) ==> pre.contains_key(a) && attr_refs.s@.contains(pre[a]) && __a0.m@[a] == pre[a],
    forall|j: int| 0 <= j < __i0 && attr_refs.s@.contains(pre[(#[trigger] __s0@[j]).0]) ==> __a0.m@.contains_key(__s0@[j].0),
//@at loop0.after
    proof { mid = __a0.m@; assert(gc_keeps(pre, attr_refs.s@, mid)) by { assert forall|a: Attribute| pre.contains_key(a) && attr_refs.s@.contains(pre[a]) implies #[trigger] mid.contains_key(a) by { let j = choose|j: int| 0 <= j < __s0@.len() && #[trigger] __s0@[j].0 == a; assert(__a0.m@.contains_key(__s0@[j].0)); } }
        assert(mid.dom().subset_of(pre.dom())); vstd::set_lib::lemma_len_subset(mid.dom(), pre.dom()); }
//@loop 1 acc=Vec<(Attribute,AttributeRef)>
    self.attribute_refs.m@ == mid, enumerates_mapr(__s1@, mid), __a1@.len() == __i1, forall|i: int| 0 <= i < __i1 ==> __a1@[i] == deref2(#[trigger] __s1@[i]),
//@at loop1.after
    proof { e = __a1@; assert(enumerates_map(e, mid)) by { assert forall|k: Attribute| mid.contains_key(k) implies exists|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k by { let i = choose|i: int| 0 <= i < __s1@.len() && *(#[trigger] __s1@[i]).0 == k; assert(e[i].0 == k); } 
        assert forall|i: int| 0 <= i < e.len() implies mid.contains_key((#[trigger] e[i]).0) && mid[e[i].0] == e[i].1 by { assert(e[i] == deref2(__s1@[i])); }
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies e[i].0 != e[j].0 by { assert(e[i] == deref2(__s1@[i]) && e[j] == deref2(__s1@[j])); } } 
        lemma_count(e, mid); }
//@loop 2 acc=HashMap<AttributeRef,AttributeRef>
    refs_of(__s2@, ordered@), next_id == __i2, ordered@.len() < u32::MAX, self.attribute_refs.m@ == mid,
    forall|i: int, j: int| 0 <= i < j < ordered@.len() ==> ordered@[i].1 != ordered@[j].1,
    forall|i: int| 0 <= i < __i2 ==> __a2.m@.contains_key((#[trigger] ordered@[i]).1) && __a2.m@[ordered@[i].1].0 == i,
//@at loop2.after
    proof { assert(ordered@.len() == mid.dom().len()); gm = __a2.m@; 
        assert forall|a: Attribute| #[trigger] mid.contains_key(a) implies gm.contains_key(mid[a]) by { let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j].0 == a; assert(e.contains(e[j])); assert(ordered@.contains(e[j])); let i = choose|i: int| 0 <= i < ordered@.len() && ordered@[i] == e[j]; assert(gm.contains_key(ordered@[i].1)); } }
//@loop 3
    enumerates(__s3@, mid.dom()), self.attribute_refs.m@.dom() =~= mid.dom(), self.root_attributes == old(self).root_attributes, gm == gc_map.m@,
    forall|a: Attribute| #[trigger] mid.contains_key(a) ==> gm.contains_key(mid[a]),
    forall|j: int| 0 <= j < __i3 ==> self.attribute_refs.m@[#[trigger] __s3@[j]] == gm[mid[__s3@[j]]],
    forall|j: int| __i3 <= j < __s3@.len() ==> self.attribute_refs.m@[#[trigger] __s3@[j]] == mid[__s3@[j]],
//@at loop3.start
    proof { assert(__s3@.to_set().contains(__s3@[__i3 - 1])); }
//@at loop3.after
    proof { assert forall|a: Attribute| #[trigger] mid.contains_key(a) implies self.attribute_refs.m@[a] == gm[mid[a]] by { assert(__s3@.to_set().contains(a)); let j = choose|j: int| 0 <= j < __s3@.len() && __s3@[j] == a; assert(self.attribute_refs.m@[__s3@[j]] == gm[mid[__s3@[j]]]); }
        lemma_gc(mid, e, ordered@, gm, self.attribute_refs.m@); }
//@subst gc_map[attr_ref] => *gc_map.vindex(attr_ref)
//@sort 0 pair_attr_le
//@at sort0.before
    broadcast use axiom_attr_le;
//@at sort0.after
    proof { assert forall|i: int, j: int| 0 <= i < j < ordered@.len() implies ordered@[i].1 != ordered@[j].1 by { assert(ordered@[i] != ordered@[j]); assert(ordered@.contains(ordered@[i]) && ordered@.contains(ordered@[j])); assert(e.contains(ordered@[i]) && e.contains(ordered@[j])); } }
//@end

// ---- the groups follow the catalog
/// r0 in the old catalog and r1 in the new one are the same attribute
pub open spec fn moved_ref(pre: Refs, post: Refs, r0: AttributeRef, r1: AttributeRef) -> bool { exists|a: Attribute| #[trigger] post.contains_key(a) && pre.contains_key(a) && pre[a] == r0 && post[a] == r1 }
pub open spec fn ref_in(m: Refs, r: AttributeRef) -> bool { exists|a: Attribute| #[trigger] m.contains_key(a) && m[a] == r }
pub open spec fn refs_in(m: Refs, g: Group) -> bool { forall|i: int| 0 <= i < g.attributes@.len() ==> ref_in(m, #[trigger] g.attributes@[i]) }
pub open spec fn all_refs_in(m: Refs, gs: Seq<UnresolvedGroup>) -> bool { forall|i: int| 0 <= i < gs.len() ==> refs_in(m, #[trigger] gs[i].group) }
/// everything but the attribute references
pub open spec fn attrs_only(g: Group, h: Group) -> bool { h == (Group { attributes: h.attributes, ..g }) }
pub open spec fn moved_group(pre: Refs, post: Refs, g: Group, h: Group) -> bool { attrs_only(g, h) && h.attributes@.len() == g.attributes@.len() && forall|i: int| 0 <= i < g.attributes@.len() ==> moved_ref(pre, post, g.attributes@[i], #[trigger] h.attributes@[i]) }
pub open spec fn moved_groups(pre: Refs, post: Refs, gs: Seq<UnresolvedGroup>, hs: Seq<UnresolvedGroup>) -> bool { hs.len() == gs.len() && forall|i: int| 0 <= i < gs.len() ==> moved_group(pre, post, gs[i].group, (#[trigger] hs[i]).group) && hs[i].visibility == gs[i].visibility }
pub open spec fn ug_le(l: UnresolvedGroup, r: UnresolvedGroup) -> bool { str_le(l.group.id, r.group.id) }
pub open spec fn is_shown(g: UnresolvedGroup) -> bool { g.visibility != Some(AttributeGroupVisibilitySpec::Internal) }
pub open spec fn shown(s: Seq<UnresolvedGroup>) -> Seq<Group> decreases s.len() { if s.len() == 0 { Seq::empty() } else if is_shown(s.last()) { shown(s.drop_last()).push(s.last().group) } else { shown(s.drop_last()) } }
pub open spec fn reordered(g: Group, h: Group) -> bool { attrs_only(g, h) && permuted(g.attributes@, h.attributes@) && sorted_by(h.attributes@, |l: AttributeRef, r: AttributeRef| ref_le(l, r)) }
pub open spec fn all_reordered(gs: Seq<Group>, hs: Seq<Group>) -> bool { hs.len() == gs.len() && forall|i: int| 0 <= i < gs.len() ==> reordered(gs[i], #[trigger] hs[i]) }
pub open spec fn used(gs: Seq<UnresolvedGroup>, r: AttributeRef) -> bool { exists|i: int| 0 <= i < gs.len() && #[trigger] gs[i].group.attributes@.contains(r) }
pub open spec fn stabilized(pre: Refs, post: Refs, gs: Seq<UnresolvedGroup>, out: Seq<Group>) -> bool {
    exists|mid: Seq<UnresolvedGroup>, ord: Seq<UnresolvedGroup>| #[trigger] moved_groups(pre, post, gs, mid) && #[trigger] permuted(mid, ord) && sorted_by(ord, |l: UnresolvedGroup, r: UnresolvedGroup| ug_le(l, r)) && all_reordered(shown(ord), out) }
//@fn crates/weaver_resolver/src/registry.rs cleanup_and_stabilize_catalog_and_registry
    requires cat_wf(old(attr_catalog).attribute_refs.m@), old(attr_catalog).attribute_refs.m@.dom().len() < u32::MAX, all_refs_in(old(attr_catalog).attribute_refs.m@, ureg.groups@)
    ensures cat_wf(final(attr_catalog).attribute_refs.m@), gc_ordered(final(attr_catalog).attribute_refs.m@), final(attr_catalog).root_attributes == old(attr_catalog).root_attributes,
        forall|a: Attribute| #[trigger] final(attr_catalog).attribute_refs.m@.contains_key(a) <==> old(attr_catalog).attribute_refs.m@.contains_key(a) && used(ureg.groups@, old(attr_catalog).attribute_refs.m@[a]),
        stabilized(old(attr_catalog).attribute_refs.m@, final(attr_catalog).attribute_refs.m@, ureg.groups@, r.groups@),
        r == (Registry { groups: r.groups, ..ureg.registry }),
//@at start
    let ghost gs = ureg.groups@; let ghost pre = attr_catalog.attribute_refs.m@; let ghost rg = ureg.registry;
    let ghost mut mid: Seq<UnresolvedGroup> = Seq::empty(); let ghost mut ord: Seq<UnresolvedGroup> = Seq::empty();
//@loop 0 acc=HashSet<AttributeRef>
    refs_of(__s0@, ureg.groups@), 
    forall|r: AttributeRef| #[trigger] __a0.s@.contains(r) ==> used(gs, r),
    forall|i: int, r: AttributeRef| 0 <= i < __i0 && #[trigger] gs[i].group.attributes@.contains(r) ==> __a0.s@.contains(r),
//@loop 1
    refs_of(__s1@, __s0@[__i0 - 1].group.attributes@), 0 < __i0 <= gs.len(), *__s0@[__i0 - 1] == gs[__i0 - 1],
    forall|r: AttributeRef| #[trigger] __a0.s@.contains(r) ==> used(gs, r),
    forall|i: int, r: AttributeRef| 0 <= i < __i0 - 1 && #[trigger] gs[i].group.attributes@.contains(r) ==> __a0.s@.contains(r),
    forall|j: int| 0 <= j < __i1 ==> __a0.s@.contains(*#[trigger] __s1@[j]),
//@at loop1.end
    proof { assert(gs[__i0 - 1].group.attributes@.contains(*__s1@[__i1 - 1])); }
//@at loop1.after
    proof { assert forall|r: AttributeRef| #[trigger] gs[__i0 - 1].group.attributes@.contains(r) implies __a0.s@.contains(r) by { let j = choose|j: int| 0 <= j < __s1@.len() && #[trigger] gs[__i0 - 1].group.attributes@[j] == r; assert(__a0.s@.contains(*__s1@[j])); } }
//@loop 2
    __n2 == gs.len(), ureg.groups@.len() == gs.len(), ureg.registry == rg,
    forall|i: int| __i2 <= i < gs.len() ==> #[trigger] ureg.groups@[i] == gs[i],
    forall|i: int| 0 <= i < __i2 ==> moved_group(pre, attr_catalog.attribute_refs.m@, gs[i].group, (#[trigger] ureg.groups@[i]).group) && ureg.groups@[i].visibility == gs[i].visibility,
//@loop 3
    __n3 == gs[__i2 - 1].group.attributes@.len(), g.group.attributes@.len() == __n3, attrs_only(gs[__i2 - 1].group, g.group), g.visibility == gs[__i2 - 1].visibility, 0 < __i2 <= gs.len(),
    forall|i: int| __i3 <= i < __n3 ==> #[trigger] g.group.attributes@[i] == gs[__i2 - 1].group.attributes@[i],
    forall|i: int| 0 <= i < __i3 ==> moved_ref(pre, attr_catalog.attribute_refs.m@, gs[__i2 - 1].group.attributes@[i], #[trigger] g.group.attributes@[i]),
//@at loop3.start
    let ghost r0 = gs[__i2 - 1].group.attributes@[__i3 as int];
    proof { assert(refs_in(pre, gs[__i2 - 1].group)); assert(ref_in(pre, r0)); assert(gs[__i2 - 1].group.attributes@.contains(r0)); assert(attr_refs.s@.contains(r0));
        let a = choose|a: Attribute| #[trigger] pre.contains_key(a) && pre[a] == r0; assert(attr_catalog.attribute_refs.m@.contains_key(a)); assert(moved_ref(pre, attr_catalog.attribute_refs.m@, r0, mapping.m@[r0])); }
//@at loop2.after
    proof { mid = ureg.groups@; }
//@sort 0 ug_le
//@sort 1 ref_le
//@at sort0.before
    broadcast use axiom_str_le;
//@at sort0.after
    proof { ord = ureg.groups@; assert(permuted(mid, ord)); }
//@loop 4
    __s4@ == ord, ureg.registry == rg, all_reordered(shown(ord.take(__i4 as int)), __a4@),
//@at loop4.start
    proof { assert(ord.take(__i4 as int).drop_last() =~= ord.take(__i4 - 1)); assert(ord.take(__i4 as int).last() == ord[__i4 - 1]); }
//@at loop4.after
    proof { assert(ord.take(ord.len() as int) =~= ord); assert(moved_groups(pre, attr_catalog.attribute_refs.m@, gs, mid)); assert(permuted(mid, ord)); assert(sorted_by(ord, |l: UnresolvedGroup, r: UnresolvedGroup| ug_le(l, r))); assert(all_reordered(shown(ord), __a4@)); assert(stabilized(pre, attr_catalog.attribute_refs.m@, gs, __a4@)); }
//@end

// ---- the published catalog
pub open spec fn root_same(w: AttributeWithSource, x: RootAttribute) -> bool { x.attribute == w.attribute && x.is_definition == w.is_definition && (w.source is Local ==> x.source_group == w.source->group_id) }
/// the definitions other registries resolve against
pub open spec fn root_kept(pre: Map<String, AttributeWithSource>, post: Map<String, RootAttribute>) -> bool { &&& post.dom() =~= pre.dom() &&& forall|k: String| #[trigger] pre.contains_key(k) ==> root_same(pre[k], post[k]) }
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::new
    ensures r.attributes == attributes, r.root_attributes == root_attributes
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::attribute
    ensures match r { Some(x) => attribute_ref.0 < self.attributes@.len() && *x == self.attributes@[attribute_ref.0 as int], None => attribute_ref.0 >= self.attributes@.len() }
//@end
//@fn crates/weaver_resolved_schema/src/catalog.rs Catalog::root_attribute_definition
    ensures match r { Some(x) => self.root_attributes.m@.contains_key(*name) && *x.0 == self.root_attributes.m@[*name].attribute && self.root_attributes.m@[*name].is_definition, None => !(self.root_attributes.m@.contains_key(*name) && self.root_attributes.m@[*name].is_definition) }
//@end
//@fn crates/weaver_resolver/src/attribute.rs From<AttributeCatalog> for Catalog::from
    requires cat_wf(attr_catalog.attribute_refs.m@)
    ensures lists_catalog(attr_catalog.attribute_refs.m@, r.attributes@), root_kept(attr_catalog.root_attributes.m@, r.root_attributes.m@)
//@at start
    let ghost pre = attr_catalog.attribute_refs.m@; let ghost pra = attr_catalog.root_attributes.m@; let ghost mut e: Seq<(Attribute, AttributeRef)> = Seq::empty();
//@loop 0 acc=HashMap<String,RootAttribute>
    enumerates_map(__s0@, pra),
    forall|k: String| #[trigger] __a0.m@.contains_key(k) ==> pra.contains_key(k) && root_same(pra[k], __a0.m@[k]),
    forall|j: int| 0 <= j < __i0 ==> __a0.m@.contains_key((#[trigger] __s0@[j]).0),
//@at loop0.after
    proof { assert forall|k: String| pra.contains_key(k) implies #[trigger] __a0.m@.contains_key(k) by { let j = choose|j: int| 0 <= j < __s0@.len() && #[trigger] __s0@[j].0 == k; assert(__a0.m@.contains_key(__s0@[j].0)); } }
//@loop 1 acc=Vec<(Attribute,AttributeRef)>
    enumerates_map(__s1@, pre), __a1@ =~= __s1@.take(__i1 as int),
//@at loop1.after
    proof { e = __s1@; assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
//@sort 0 pair_ref_le
//@loop 2 acc=Vec<Attribute>
    __s2@ == attributes@, __a2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> __a2@[i] == (#[trigger] __s2@[i]).0,
//@at loop2.after
    proof { lemma_listed(pre, e, __s2@); }
//@end
} // verus!
fn main() {}
