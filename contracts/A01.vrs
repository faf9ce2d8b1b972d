//@include prelude.vrs
verus! {
//@opaque Examples RequirementLevel Stability Deprecated AttributeRole AttributeType YamlValue Provenance GroupType SchemaUrl
//@type crates/weaver_semconv/src/attribute.rs AttributeSpec
//@type crates/weaver_resolved_schema/src/lineage.rs AttributeLineage

//@include lineage.vrs
// ---- the resolution of one attribute
pub open spec fn sid(a: AttributeSpec) -> String { match a { AttributeSpec::Ref { ref_, .. } => ref_, AttributeSpec::Id { id, .. } => id } }
pub open spec fn is_name(x: String) -> bool { x == S("brief"@) || x == S("examples"@) || x == S("tag"@) || x == S("requirement_level"@) || x == S("sampling_relevant"@) || x == S("note"@) || x == S("stability"@) || x == S("deprecated"@) || x == S("prefix"@) || x == S("annotations"@) || x == S("role"@) }
/// does the attribute carry a value for the named field
pub open spec fn has_brief(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { brief, .. } => brief is Some, AttributeSpec::Id { .. } => a->Id_brief is Some } }
pub open spec fn has_examples(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { examples, .. } => examples is Some, AttributeSpec::Id { .. } => a->Id_examples is Some } }
pub open spec fn has_tag(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { tag, .. } => tag is Some, AttributeSpec::Id { .. } => a->Id_tag is Some } }
pub open spec fn has_requirement_level(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { requirement_level, .. } => requirement_level is Some, AttributeSpec::Id { .. } => true } }
pub open spec fn has_sampling_relevant(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { sampling_relevant, .. } => sampling_relevant is Some, AttributeSpec::Id { .. } => a->Id_sampling_relevant is Some } }
pub open spec fn has_note(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { note, .. } => note is Some, AttributeSpec::Id { .. } => true } }
pub open spec fn has_stability(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { stability, .. } => stability is Some, AttributeSpec::Id { .. } => a->Id_stability is Some } }
pub open spec fn has_deprecated(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { deprecated, .. } => deprecated is Some, AttributeSpec::Id { .. } => a->Id_deprecated is Some } }
pub open spec fn has_prefix(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { prefix, .. } => prefix, AttributeSpec::Id { .. } => false } }
pub open spec fn has_annotations(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { annotations, .. } => annotations is Some, AttributeSpec::Id { .. } => a->Id_annotations is Some } }
pub open spec fn has_role(a: AttributeSpec) -> bool { match a { AttributeSpec::Ref { role, .. } => role is Some, AttributeSpec::Id { .. } => a->Id_role is Some } }
pub open spec fn rec1(pre: AttributeLineage, post: AttributeLineage, f: Seq<char>, local: bool, parent: bool) -> bool {
    &&& post.locally_overridden_fields@.contains(S(f)) == (pre.locally_overridden_fields@.contains(S(f)) || local)
    &&& post.inherited_fields@.contains(S(f)) == (!local && (parent || pre.inherited_fields@.contains(S(f))))
}
pub open spec fn rec_frame(pre: AttributeLineage, post: AttributeLineage) -> bool {
    &&& post.source_group == pre.source_group
    &&& forall|x: String| !is_name(x) ==> #[trigger] post.locally_overridden_fields@.contains(x) == pre.locally_overridden_fields@.contains(x)
    &&& forall|x: String| !is_name(x) ==> #[trigger] post.inherited_fields@.contains(x) == pre.inherited_fields@.contains(x)
}
pub open spec fn recorded_all(pre: AttributeLineage, post: AttributeLineage, a: AttributeSpec, p: AttributeSpec) -> bool {
    &&& rec1(pre, post, "brief"@, has_brief(a), has_brief(p))
    &&& rec1(pre, post, "examples"@, has_examples(a), has_examples(p))
    &&& rec1(pre, post, "tag"@, has_tag(a), has_tag(p))
    &&& rec1(pre, post, "requirement_level"@, has_requirement_level(a), has_requirement_level(p))
    &&& rec1(pre, post, "sampling_relevant"@, has_sampling_relevant(a), has_sampling_relevant(p))
    &&& rec1(pre, post, "note"@, has_note(a), has_note(p))
    &&& rec1(pre, post, "stability"@, has_stability(a), has_stability(p))
    &&& rec1(pre, post, "deprecated"@, has_deprecated(a), has_deprecated(p))
    &&& rec1(pre, post, "prefix"@, p is Ref && has_prefix(a), has_prefix(p))
    &&& rec1(pre, post, "annotations"@, has_annotations(a), has_annotations(p))
    &&& rec1(pre, post, "role"@, has_role(a), has_role(p))
    &&& rec_frame(pre, post)
}
pub open spec fn resolved(a: AttributeSpec, p: AttributeSpec) -> AttributeSpec { match a {
    AttributeSpec::Id { .. } => a,
    AttributeSpec::Ref { ref_, brief, examples, tag, requirement_level, sampling_relevant, note, stability, deprecated, prefix, annotations, role } => match p {
        AttributeSpec::Ref { ref_: _, brief: pb, examples: pe, tag: pt, requirement_level: pr, sampling_relevant: ps, note: pn, stability: pst, deprecated: pd, prefix: pp, annotations: pa, role: pro } =>
            AttributeSpec::Ref { ref_: ref_, brief: pick(brief, pb), examples: pick(examples, pe), tag: pick(tag, pt), requirement_level: pick(requirement_level, pr), sampling_relevant: pick(sampling_relevant, ps),
                note: pick(note, pn), stability: pick(stability, pst), deprecated: pick(deprecated, pd), prefix: prefix || pp, annotations: pick(annotations, pa), role: pick(role, pro) },
        AttributeSpec::Id { id: _, type_: ty, brief: pb, examples: pe, tag: pt, requirement_level: pr, sampling_relevant: ps, note: pn, stability: pst, deprecated: pd, annotations: pa, role: pro } =>
            AttributeSpec::Id { id: ref_, type_: ty, brief: pick(brief, pb), examples: pick(examples, pe), tag: pick(tag, pt), requirement_level: pick1(requirement_level, pr), sampling_relevant: pick(sampling_relevant, ps),
                note: pick1(note, pn), stability: pick(stability, pst), deprecated: pick(deprecated, pd), annotations: pick(annotations, pa), role: pick(role, pro) },
    } } }
#[verifier::opaque] pub open spec fn fk(s: String) -> int { s.c@.len() * 1000 + s.c@[0] as int }
pub proof fn names_distinct() ensures
    fk(S("brief"@)) == 5098,
    fk(S("examples"@)) == 8101,
    fk(S("tag"@)) == 3116,
    fk(S("requirement_level"@)) == 17114,
    fk(S("sampling_relevant"@)) == 17115,
    fk(S("note"@)) == 4110,
    fk(S("stability"@)) == 9115,
    fk(S("deprecated"@)) == 10100,
    fk(S("prefix"@)) == 6112,
    fk(S("annotations"@)) == 11097,
    fk(S("role"@)) == 4114
{ reveal(fk);
  reveal_strlit("brief"); assert(S("brief"@).c@ == "brief"@);
  reveal_strlit("examples"); assert(S("examples"@).c@ == "examples"@);
  reveal_strlit("tag"); assert(S("tag"@).c@ == "tag"@);
  reveal_strlit("requirement_level"); assert(S("requirement_level"@).c@ == "requirement_level"@);
  reveal_strlit("sampling_relevant"); assert(S("sampling_relevant"@).c@ == "sampling_relevant"@);
  reveal_strlit("note"); assert(S("note"@).c@ == "note"@);
  reveal_strlit("stability"); assert(S("stability"@).c@ == "stability"@);
  reveal_strlit("deprecated"); assert(S("deprecated"@).c@ == "deprecated"@);
  reveal_strlit("prefix"); assert(S("prefix"@).c@ == "prefix"@);
  reveal_strlit("annotations"); assert(S("annotations"@).c@ == "annotations"@);
  reveal_strlit("role"); assert(S("role"@).c@ == "role"@);
}
//@fn crates/weaver_resolver/src/registry.rs resolve_inheritance_attr nolit
    ensures r == resolved(*attr, *parent_attr),
        attr is Ref ==> recorded_all(*old(lineage), *final(lineage), *attr, *parent_attr),
        attr is Id ==> *final(lineage) == *old(lineage)
//@at start
    proof { names_distinct(); }
//@end

pub open spec fn names_only(l: AttributeLineage) -> bool { (forall|x: String| #[trigger] l.inherited_fields@.contains(x) ==> is_name(x)) && (forall|x: String| #[trigger] l.locally_overridden_fields@.contains(x) ==> is_name(x)) }
/// field `f` is recorded as overridden, as inherited, or not at all
pub open spec fn rec_as(l: AttributeLineage, f: Seq<char>, over: bool, inh: bool) -> bool { l.locally_overridden_fields@.contains(S(f)) == over && l.inherited_fields@.contains(S(f)) == (!over && inh) }
/// every field the attribute has is recorded as inherited, nothing as overridden
pub open spec fn all_inherited(l: AttributeLineage, p: AttributeSpec) -> bool {
    &&& l.locally_overridden_fields@ == Set::<String>::empty() && names_only(l)
    &&& rec_as(l, "brief"@, false, has_brief(p)) && rec_as(l, "examples"@, false, has_examples(p)) && rec_as(l, "tag"@, false, has_tag(p)) && rec_as(l, "requirement_level"@, false, has_requirement_level(p))
    &&& rec_as(l, "sampling_relevant"@, false, has_sampling_relevant(p)) && rec_as(l, "note"@, false, has_note(p)) && rec_as(l, "stability"@, false, has_stability(p)) && rec_as(l, "deprecated"@, false, has_deprecated(p))
    &&& rec_as(l, "prefix"@, false, has_prefix(p)) && rec_as(l, "annotations"@, false, has_annotations(p)) && rec_as(l, "role"@, false, has_role(p)) }
/// exactly the fields that `a` writes are recorded as overridden, exactly the other ones of `p` as inherited
pub open spec fn overridden(l: AttributeLineage, a: AttributeSpec, p: AttributeSpec) -> bool {
    &&& names_only(l)
    &&& rec_as(l, "brief"@, has_brief(a), has_brief(p)) && rec_as(l, "examples"@, has_examples(a), has_examples(p)) && rec_as(l, "tag"@, has_tag(a), has_tag(p)) && rec_as(l, "requirement_level"@, has_requirement_level(a), has_requirement_level(p))
    &&& rec_as(l, "sampling_relevant"@, has_sampling_relevant(a), has_sampling_relevant(p)) && rec_as(l, "note"@, has_note(a), has_note(p)) && rec_as(l, "stability"@, has_stability(a), has_stability(p)) && rec_as(l, "deprecated"@, has_deprecated(a), has_deprecated(p))
    &&& rec_as(l, "prefix"@, p is Ref && has_prefix(a), has_prefix(p)) && rec_as(l, "annotations"@, has_annotations(a), has_annotations(p)) && rec_as(l, "role"@, has_role(a), has_role(p)) }
pub proof fn lemma_overridden(pre: AttributeLineage, post: AttributeLineage, a: AttributeSpec, p: AttributeSpec) requires all_inherited(pre, p), recorded_all(pre, post, a, p) ensures overridden(post, a, p) { names_distinct(); }
//@fn crates/weaver_resolved_schema/src/lineage.rs AttributeLineage::inherit_from nolit
    ensures r.source_group == *source_group, all_inherited(r, *attr_spec)
//@at start
    proof { names_distinct(); }
//@end

// ---- the attributes of a group: included and parent attributes first, own attributes last
//@type crates/weaver_resolved_schema/src/attribute.rs UnresolvedAttribute
//@type crates/weaver_resolved_schema/src/lineage.rs GroupLineage
pub type AMap = Map<String, (AttributeSpec, Option<SchemaUrl>)>;
pub open spec fn base_step(m: AMap, a: UnresolvedAttribute) -> AMap {
    let k = sid(a.spec);
    if m.contains_key(k) { m.insert(k, (resolved(a.spec, m[k].0), a.origin)) } else { m.insert(k, (a.spec, a.origin)) } }
pub open spec fn own_step(m: AMap, a: UnresolvedAttribute) -> AMap {
    let k = sid(a.spec);
    if a.spec is Ref && m.contains_key(k) { m.insert(k, (resolved(a.spec, m[k].0), m[k].1)) } else { m.insert(k, (a.spec, a.origin)) } }
pub open spec fn base_fold(m: AMap, s: Seq<UnresolvedAttribute>, n: int) -> AMap decreases n { if n <= 0 { m } else { base_step(base_fold(m, s, n - 1), s[n - 1]) } }
pub open spec fn own_fold(m: AMap, s: Seq<UnresolvedAttribute>, n: int) -> AMap decreases n { if n <= 0 { m } else { own_step(own_fold(m, s, n - 1), s[n - 1]) } }
pub open spec fn bases_fold<'a>(s: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, n: int) -> AMap decreases n { if n <= 0 { Map::empty() } else { base_fold(bases_fold(s, n - 1), s[n - 1].1@, s[n - 1].1@.len() as int) } }
pub open spec fn group_attrs<'a>(bases: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, own: Seq<UnresolvedAttribute>) -> AMap { own_fold(bases_fold(bases, bases.len() as int), own, own.len() as int) }
pub open spec fn agree(m: Map<String, AttrWithLineage>, a: AMap) -> bool { m.dom() =~= a.dom() && forall|k: String| #[trigger] m.contains_key(k) ==> m[k].spec == a[k].0 && m[k].origin == a[k].1 }
/// `r` lists the attributes of `a`, each once
pub open spec fn lists(r: Seq<UnresolvedAttribute>, a: AMap) -> bool { exists|e: Seq<(String, (AttributeSpec, Option<SchemaUrl>))>| #[trigger] enumerates_map(e, a) && r.len() == e.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (UnresolvedAttribute { spec: e[i].1.0, origin: e[i].1.1 }) }
pub open spec fn from_vals(v: Seq<AttrWithLineage>, a: AMap) -> bool { exists|e: Seq<(String, (AttributeSpec, Option<SchemaUrl>))>| #[trigger] enumerates_map(e, a) && v.len() == e.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).spec == e[i].1.0 && v[i].origin == e[i].1.1 }
pub open spec fn projected(v: Seq<AttrWithLineage>, r: Seq<UnresolvedAttribute>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r[i] == (UnresolvedAttribute { spec: v[i].spec, origin: v[i].origin }) }
pub proof fn vals_of(m: Map<String, AttrWithLineage>, a: AMap, v: Seq<AttrWithLineage>)
    requires agree(m, a), exists|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1)
    ensures from_vals(v, a)
{ let e = choose|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1);
  let f = Seq::new(e.len(), |i: int| (e[i].0, a[e[i].0]));
  assert(enumerates_map(f, a)) by { assert forall|k: String| a.contains_key(k) implies exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == k by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(f[i].0 == k); } }
}
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::add_attribute_lineage
    ensures final(self).attributes@ == old(self).attributes@.insert(attr_id, attribute_lineage)
//@end
//@fn crates/weaver_semconv/src/attribute.rs AttributeSpec::id
    ensures r == sid(*self)
//@end
pub open spec fn lineage_empty(l: AttributeLineage) -> bool { l.inherited_fields@ == Set::<String>::empty() && l.locally_overridden_fields@ == Set::<String>::empty() }
/// is there an attribute of this name among the first `n`
pub open spec fn named(s: Seq<UnresolvedAttribute>, n: int, k: String) -> bool decreases n { if n <= 0 { false } else { sid(s[n - 1].spec) == k || named(s, n - 1, k) } }
/// the last base that has the attribute
pub open spec fn last_base<'a>(s: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, n: int, k: String) -> String decreases n { if n <= 0 { S(Seq::empty()) } else if named(s[n - 1].1@, s[n - 1].1@.len() as int, k) { *s[n - 1].0 } else { last_base(s, n - 1, k) } }
pub open spec fn base_entry<'a>(e: AttrWithLineage, k: String, s: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, n: int, cur: int) -> bool {
    sid(e.spec) == k && all_inherited(e.lineage, e.spec) && e.lineage.source_group == (if cur > 0 && named(s[n].1@, cur, k) { *s[n].0 } else { last_base(s, n, k) }) }
pub open spec fn distinct_names(s: Seq<UnresolvedAttribute>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> sid((#[trigger] s[i]).spec) != sid((#[trigger] s[j]).spec) }
/// what the group's lineage says of attribute `k`, given what was inherited and the first `n` own attributes
pub open spec fn own_entry<'a>(l: AttributeLineage, k: String, b: AMap, bases: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, own: Seq<UnresolvedAttribute>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n && sid((#[trigger] own[j]).spec) == k ==> if own[j].spec is Ref && b.contains_key(k) { overridden(l, own[j].spec, b[k].0) && l.source_group == last_base(bases, bases.len() as int, k) } else { lineage_empty(l) }
    &&& !named(own, n, k) ==> b.contains_key(k) && all_inherited(l, b[k].0) && l.source_group == last_base(bases, bases.len() as int, k) }
pub proof fn lemma_named(s: Seq<UnresolvedAttribute>, n: int, k: String) requires 0 <= n <= s.len() ensures named(s, n, k) == (exists|j: int| 0 <= j < n && sid((#[trigger] s[j]).spec) == k) decreases n { if n > 0 { lemma_named(s, n - 1, k); if sid(s[n - 1].spec) == k { } } }
pub open spec fn keys_ok(v: Seq<AttrWithLineage>, m: Map<String, AttrWithLineage>) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> m.contains_key(sid((#[trigger] v[j]).spec)) && m[sid(v[j].spec)] == v[j]
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == m[k] }
pub proof fn lemma_keys(m: Map<String, AttrWithLineage>, v: Seq<AttrWithLineage>)
    requires forall|k: String| #[trigger] m.contains_key(k) ==> sid(m[k].spec) == k, exists|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1)
    ensures keys_ok(v, m)
{ let e = choose|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1);
  assert forall|j: int| 0 <= j < v.len() implies m.contains_key(sid((#[trigger] v[j]).spec)) && m[sid(v[j].spec)] == v[j] by { assert(m.contains_key(e[j].0) && m[e[j].0] == e[j].1); }
  assert forall|k: String| #[trigger] m.contains_key(k) implies exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == m[k] by { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == k; assert(v[j] == m[k]); } }
/// among the first `n` is an attribute of this name with something to record
pub open spec fn touched(v: Seq<AttrWithLineage>, n: int, k: String) -> bool decreases n { if n <= 0 { false } else { (sid(v[n - 1].spec) == k && !lineage_empty(v[n - 1].lineage)) || touched(v, n - 1, k) } }
pub proof fn lemma_touched(v: Seq<AttrWithLineage>, n: int, k: String) requires 0 <= n <= v.len() ensures touched(v, n, k) ==> exists|j: int| 0 <= j < n && sid((#[trigger] v[j]).spec) == k && !lineage_empty(v[j].lineage) decreases n { if n > 0 { lemma_touched(v, n - 1, k); } }
pub open spec fn same_at(a: Map<String, AttributeLineage>, b: Map<String, AttributeLineage>, k: String) -> bool { a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k]) }
pub open spec fn entered(pre: Map<String, AttributeLineage>, post: Map<String, AttributeLineage>, v: Seq<AttrWithLineage>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n && !lineage_empty((#[trigger] v[j]).lineage) ==> post.contains_key(sid(v[j].spec)) && post[sid(v[j].spec)] == v[j].lineage
    &&& forall|k: String| !#[trigger] touched(v, n, k) ==> same_at(pre, post, k) }
/// the group's lineage records, for each attribute, what came from its bases and what the group wrote itself
pub open spec fn lineage_told<'a>(pre: Map<String, AttributeLineage>, post: Map<String, AttributeLineage>, bases: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, own: Seq<UnresolvedAttribute>) -> bool {
    forall|k: String| #[trigger] group_attrs(bases, own).contains_key(k) ==> exists|l: AttributeLineage| #[trigger] own_entry(l, k, bases_fold(bases, bases.len() as int), bases, own, own.len() as int) && (if lineage_empty(l) { same_at(pre, post, k) } else { post.contains_key(k) && post[k] == l }) }
pub proof fn lemma_told<'a>(pre: Map<String, AttributeLineage>, post: Map<String, AttributeLineage>, v: Seq<AttrWithLineage>, m: Map<String, AttrWithLineage>, bases: Seq<(&'a String, &'a Vec<UnresolvedAttribute>)>, own: Seq<UnresolvedAttribute>)
    requires entered(pre, post, v, v.len() as int), keys_ok(v, m), agree(m, group_attrs(bases, own)), forall|k: String| #[trigger] m.contains_key(k) ==> own_entry(m[k].lineage, k, bases_fold(bases, bases.len() as int), bases, own, own.len() as int), forall|k: String| #[trigger] m.contains_key(k) ==> sid(m[k].spec) == k
    ensures lineage_told(pre, post, bases, own)
{ assert forall|k: String| #[trigger] group_attrs(bases, own).contains_key(k) implies exists|l: AttributeLineage| #[trigger] own_entry(l, k, bases_fold(bases, bases.len() as int), bases, own, own.len() as int) && (if lineage_empty(l) { same_at(pre, post, k) } else { post.contains_key(k) && post[k] == l }) by {
    assert(m.contains_key(k)); let l = m[k].lineage; let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j] == m[k];
    assert(own_entry(l, k, bases_fold(bases, bases.len() as int), bases, own, own.len() as int));
    lemma_touched(v, v.len() as int, k);
    if lineage_empty(l) { assert(!touched(v, v.len() as int, k)) by { if touched(v, v.len() as int, k) { let i = choose|i: int| 0 <= i < v.len() && sid((#[trigger] v[i]).spec) == k && !lineage_empty(v[i].lineage); assert(m[sid(v[i].spec)] == v[i]); } } } } }
//@fn crates/weaver_resolver/src/registry.rs resolve_inheritance_attrs_unified
    ensures lists(r@, group_attrs(include_groups@, attrs_group@)),
        group_lineage is Some && distinct_names(attrs_group@) ==> lineage_told(old(group_lineage->Some_0).attributes.m@, final(group_lineage->Some_0).attributes.m@, include_groups@, attrs_group@)
//@loop 0
    invariant __s0@ == include_groups@, agree(inherited_attrs@, bases_fold(include_groups@, __i0 as int)),
    forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) ==> base_entry(inherited_attrs.m@[k], k, include_groups@, __i0 as int, 0),
//@loop 1
    invariant __i0 >= 1, __s0@ == include_groups@, refs_of(__s1@, include_groups@[__i0 - 1].1@), agree(inherited_attrs@, base_fold(bases_fold(include_groups@, __i0 - 1), include_groups@[__i0 - 1].1@, __i1 as int)),
    forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) ==> base_entry(inherited_attrs.m@[k], k, include_groups@, __i0 - 1, __i1 as int),
//@at loop1.start
    let ghost m1 = inherited_attrs.m@;
//@at loop1.end
    proof { let q = include_groups@[__i0 - 1].1@; let c = q[__i1 - 1];
      assert forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) implies base_entry(inherited_attrs.m@[k], k, include_groups@, __i0 - 1, __i1 as int) by {
        assert(named(q, __i1 as int, k) == (sid(c.spec) == k || named(q, __i1 - 1, k)));
        if k != sid(c.spec) { assert(m1.contains_key(k) && m1[k] == inherited_attrs.m@[k]); } } }
//@at start
    let ghost mut ghost_m: Map<String, AttrWithLineage> = Map::empty();
//@at loop2.before
    let ghost bm = bases_fold(include_groups@, include_groups@.len() as int);
//@loop 2
    invariant refs_of(__s2@, attrs_group@), agree(inherited_attrs@, own_fold(bases_fold(include_groups@, include_groups@.len() as int), attrs_group@, __i2 as int)),
    forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) ==> sid(inherited_attrs.m@[k].spec) == k,
    forall|k: String| named(attrs_group@, __i2 as int, k) || bm.contains_key(k) ==> #[trigger] inherited_attrs.m@.contains_key(k),
    distinct_names(attrs_group@) ==> forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) ==> own_entry(inherited_attrs.m@[k].lineage, k, bm, include_groups@, attrs_group@, __i2 as int),
    forall|k: String| #[trigger] inherited_attrs.m@.contains_key(k) && !named(attrs_group@, __i2 as int, k) ==> bm.contains_key(k) && inherited_attrs.m@[k].spec == bm[k].0,
//@at loop2.start
    let ghost m2 = inherited_attrs.m@;
//@at loop2.end
    proof { let c = attrs_group@[__i2 - 1]; let m = inherited_attrs.m@; let n = __i2 as int;
      assert forall|k: String| named(attrs_group@, n, k) == (sid(c.spec) == k || #[trigger] named(attrs_group@, n - 1, k)) by {}
      assert forall|k: String| #[trigger] m.contains_key(k) && !named(attrs_group@, n, k) implies bm.contains_key(k) && m[k].spec == bm[k].0 by { assert(!named(attrs_group@, n - 1, k)); assert(m2.contains_key(k)); }
      if distinct_names(attrs_group@) { assert forall|k: String| #[trigger] m.contains_key(k) implies own_entry(m[k].lineage, k, bm, include_groups@, attrs_group@, n) by {
        lemma_named(attrs_group@, n - 1, k);
        assert(named(attrs_group@, n, k) == (sid(c.spec) == k || named(attrs_group@, n - 1, k)));
        if k != sid(c.spec) { assert(m2.contains_key(k) && m2[k] == m[k]); assert(own_entry(m2[k].lineage, k, bm, include_groups@, attrs_group@, n - 1)); }
        else { assert(!named(attrs_group@, n - 1, k));
          if c.spec is Ref && m2.contains_key(k) { assert(own_entry(m2[k].lineage, k, bm, include_groups@, attrs_group@, n - 1)); lemma_overridden(m2[k].lineage, m[k].lineage, c.spec, bm[k].0); assert(bm.contains_key(k)); }
          else { assert(lineage_empty(m[k].lineage)); assert(c.spec is Ref ==> !bm.contains_key(k)); } } } } }
//@at loop2.after
    proof { let a = group_attrs(include_groups@, attrs_group@); let m = inherited_attrs@;
      assert forall|v: Seq<AttrWithLineage>| (exists|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1)) implies #[trigger] from_vals(v, a) by { vals_of(m, a, v); }
      assert forall|v: Seq<AttrWithLineage>| (exists|e: Seq<(String, AttrWithLineage)>| #[trigger] enumerates_map(e, m) && v == e.map_values(|p: (String, AttrWithLineage)| p.1)) implies #[trigger] keys_ok(v, m) by { lemma_keys(m, v); } }
    proof { ghost_m = inherited_attrs.m@; }
//@at loop3.before
    let ghost pa = group_lineage.attributes.m@;
//@loop 3
    invariant projected(__s3@, __a3@, __i3 as int), from_vals(__s3@, group_attrs(include_groups@, attrs_group@)), keys_ok(__s3@, ghost_m), entered(pa, group_lineage.attributes.m@, __s3@, __i3 as int),
//@at loop3.start
    let ghost ga = group_lineage.attributes.m@;
//@at loop3.end
    proof { let n = __i3 as int; let x = __s3@[n - 1]; let gb = group_lineage.attributes.m@;
      assert forall|k: String| !#[trigger] touched(__s3@, n, k) implies same_at(pa, gb, k) by { assert(!touched(__s3@, n - 1, k)); assert(same_at(pa, ga, k)); } 
      assert forall|j: int| 0 <= j < n && !lineage_empty((#[trigger] __s3@[j]).lineage) implies gb.contains_key(sid(__s3@[j].spec)) && gb[sid(__s3@[j].spec)] == __s3@[j].lineage by { if j < n - 1 && sid(__s3@[j].spec) == sid(x.spec) { assert(__s3@[j] == x); } } }
//@at loop3.after
    proof { if distinct_names(attrs_group@) { lemma_told(pa, group_lineage.attributes.m@, __s3@, ghost_m, include_groups@, attrs_group@); } }
//@loop 4
    invariant projected(__s4@, __a4@, __i4 as int), from_vals(__s4@, group_attrs(include_groups@, attrs_group@))
//@end
} // verus!
fn main() {}
