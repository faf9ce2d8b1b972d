//@include prelude.vrs
verus! {
//@include resolver.vrs
/// a group of this registry that `g` may not build on
pub open spec fn barred(g: UnresolvedGroup, t: GroupSummary) -> bool { t.source is Local && hidden(t.annotations) && !is_closed(g) }
//@fn crates/weaver_resolver/src/registry.rs excluded_parent_error
    ensures r is Some == barred(*used_in, *target), r is Some ==> r->0 is ExcludedFromDependencyResolution
//@end

// ---- a group looked up by id
pub uninterp spec fn dep_group(d: ResolvedDependency, id: String) -> Option<GroupSummary>;
impl ResolvedDependency { #[verifier::external_body] pub fn lookup_group_summary(&self, id: &String) -> (r: Option<GroupSummary>) ensures r == dep_group(*self, *id) { unimplemented!() } }
pub open spec fn offers(d: ResolvedDependency, id: String) -> bool { dep_group(d, id) is Some && !hidden(dep_group(d, id)->0.annotations) }
pub open spec fn first_offer(ds: Seq<ResolvedDependency>, id: String, i: int) -> bool { 0 <= i < ds.len() && offers(ds[i], id) && forall|j: int| 0 <= j < i ==> !offers(#[trigger] ds[j], id) }
/// a group of this registry, else the first a dependency offers; an error when the dependencies hold it only hidden
pub open spec fn group_found(ds: Seq<ResolvedDependency>, local: Map<String, GroupSummary>, id: String, r: Result<Option<GroupSummary>, Error>) -> bool {
    if local.contains_key(id) { r == Ok::<_, Error>(Some(local[id])) }
    else { match r {
        Ok(Some(s)) => exists|i: int| #[trigger] first_offer(ds, id, i) && dep_group(ds[i], id) == Some(s),
        Ok(None) => forall|i: int| 0 <= i < ds.len() ==> dep_group(#[trigger] ds[i], id) is None,
        Err(e) => e is ExcludedFromDependencyResolution && (forall|i: int| 0 <= i < ds.len() ==> !offers(#[trigger] ds[i], id)) && exists|i: int| 0 <= i < ds.len() && dep_group(#[trigger] ds[i], id) is Some } } }
//@fn crates/weaver_resolver/src/registry.rs lookup_group_with_dependencies
    ensures group_found(dependencies@, local_index.m@, *id, r)
//@loop 0
    refs_of(__s0@, dependencies@), forall|j: int| 0 <= j < __i0 ==> !offers(#[trigger] dependencies@[j], *id),
    excluded_match is None ==> forall|j: int| 0 <= j < __i0 ==> dep_group(#[trigger] dependencies@[j], *id) is None,
    excluded_match is Some ==> exists|j: int| 0 <= j < __i0 && dep_group(#[trigger] dependencies@[j], *id) is Some,
//@at loop0.start
    proof { if offers(dependencies@[__i0 - 1], *id) { assert(first_offer(dependencies@, *id, __i0 - 1)); } }
//@end

//@fn crates/weaver_semconv/src/attribute.rs AttributeSpec::id
    ensures r == attr_key(*self)
//@end
pub open spec fn attr_key(a: AttributeSpec) -> String { match a { AttributeSpec::Ref { ref_, .. } => ref_, AttributeSpec::Id { id, .. } => id } }

// ---- the groups a group includes
/// every group `g` includes is resolved, and `g` may build on it
pub open spec fn includes_bound(g: UnresolvedGroup, idx: Map<String, GroupSummary>) -> bool { forall|i: int| 0 <= i < g.include_groups@.len() ==> include_bound(g, idx, #[trigger] g.include_groups@[i]) }
pub open spec fn include_bound(g: UnresolvedGroup, idx: Map<String, GroupSummary>, id: String) -> bool { idx.contains_key(id) && !barred(g, idx[id]) }
pub open spec fn included_as(g: UnresolvedGroup, idx: Map<String, GroupSummary>, inc: Seq<(String, &Vec<UnresolvedAttribute>)>) -> bool {
    inc.len() == g.include_groups@.len() && included_upto(g, idx, inc) }
pub open spec fn included_upto(g: UnresolvedGroup, idx: Map<String, GroupSummary>, inc: Seq<(String, &Vec<UnresolvedAttribute>)>) -> bool {
    forall|i: int| 0 <= i < inc.len() ==> (#[trigger] inc[i]).0 == g.include_groups@[i] && inc[i].1@ == idx[g.include_groups@[i]].attributes@ }
//@fn crates/weaver_resolver/src/registry.rs collect_included_group_attrs
    ensures r is Some ==> includes_bound(*group, group_index.m@) && included_as(*group, group_index.m@, r->0@) && final(errors)@ == old(errors)@,
        r is None ==> final(errors)@.len() > old(errors)@.len(),
        old(errors)@.is_prefix_of(final(errors)@),
//@loop 0
    refs_of(__s0@, group.include_groups@), old(errors)@.is_prefix_of(errors@), !all_resolved ==> errors@.len() > old(errors)@.len(),
    all_resolved ==> errors@ == old(errors)@ && included@.len() == __i0 && included_upto(*group, group_index.m@, included@) && forall|j: int| 0 <= j < __i0 ==> include_bound(*group, group_index.m@, #[trigger] group.include_groups@[j]),
//@loop 1
    old(errors)@.is_prefix_of(errors@), !all_resolved ==> errors@.len() > old(errors)@.len(), all_resolved ==> ar0 && errors@ == old(errors)@,
//@at loop1.before
    let ghost ar0 = all_resolved;
//@end

// ---- the group a refinement refines
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::extends
    ensures true
//@end
pub uninterp spec fn merged(base: Map<String, YamlValue>, over: Map<String, YamlValue>) -> Map<String, YamlValue>;
#[verifier::external_body] pub fn merge_annotations(base_map: BTreeMap<String, YamlValue>, override_map: &BTreeMap<String, YamlValue>) -> (r: BTreeMap<String, YamlValue>) ensures r.m@ == merged(base_map.m@, override_map.m@) { unimplemented!() }
pub open spec fn or_else<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
pub open spec fn text_or(a: String, b: String) -> String { if a@.len() > 0 { a } else { b } }
pub open spec fn notes(a: Option<BTreeMap<String, YamlValue>>) -> Map<String, YamlValue> { match a { Some(m) => m.m@, None => Map::empty() } }
/// what a refinement takes from the signal it refines
pub open spec fn refined(pre: UnresolvedGroup, p: GroupSummary, post: UnresolvedGroup) -> bool {
    let (a, b) = (pre.group, post.group);
    b.instrument == p.instrument && b.unit == p.unit && b.span_kind == p.span_kind && b.metric_name == p.metric_name && b.requirement_level == p.requirement_level
    && b.stability == or_else(a.stability, p.stability) && b.deprecated == or_else(a.deprecated, p.deprecated) && b.span_name == or_else(a.span_name, p.span_name)
    && b.brief@ == text_or(a.brief, p.brief)@ && b.note@ == text_or(a.note, p.note)@
    && notes(b.annotations) =~= (if a.annotations is Some { merged(notes(p.annotations), notes(a.annotations)) } else { notes(p.annotations) })
    && (b.annotations is Some ==> b.annotations->0.m@ != Map::<String, YamlValue>::empty())
    && b == (Group { lineage: b.lineage, extends: b.extends, instrument: b.instrument, unit: b.unit, span_kind: b.span_kind, metric_name: b.metric_name, requirement_level: b.requirement_level, stability: b.stability, deprecated: b.deprecated, span_name: b.span_name, brief: b.brief, note: b.note, annotations: b.annotations, ..a })
    && post == (UnresolvedGroup { group: b, attributes: post.attributes, include_groups: post.include_groups, ..pre }) }
/// nothing but what resolution fills in
pub open spec fn resolved_only(pre: UnresolvedGroup, post: UnresolvedGroup) -> bool {
    post == (UnresolvedGroup { group: Group { lineage: post.group.lineage, extends: post.group.extends, ..pre.group }, attributes: post.attributes, include_groups: post.include_groups, ..pre }) }
pub open spec fn not_yet(pre: UnresolvedGroup, post: UnresolvedGroup) -> bool { post.group.extends == pre.group.extends && post.attributes == pre.attributes && post.include_groups == pre.include_groups }
//@fn crates/weaver_resolver/src/registry.rs inherit_v2_refinement_fields
    ensures refined(*old(refinement), *parent, *final(refinement)), final(refinement).group.lineage == old(refinement).group.lineage, not_yet(*old(refinement), *final(refinement)), old(errors)@.is_prefix_of(final(errors)@),
        (final(errors)@.len() > old(errors)@.len()) == (old(refinement).group.type_ != parent.type_)
//@end
/// `s` is the group that `g` names as its parent, and `g` may build on it
pub open spec fn parent_of(ds: Seq<ResolvedDependency>, idx: Map<String, GroupSummary>, g: UnresolvedGroup, id: String, s: GroupSummary) -> bool { group_found(ds, idx, id, Ok(Some(s))) && !barred(g, s) }
//@fn crates/weaver_resolver/src/registry.rs resolve_refinement_parent
    ensures old(errors)@.is_prefix_of(final(errors)@), old(fatal_errors)@.is_prefix_of(final(fatal_errors)@), r is Ok,
        r matches Ok(None) ==> final(errors)@.len() > old(errors)@.len() && *final(group) == *old(group) && final(fatal_errors)@ == old(fatal_errors)@,
        r matches Ok(Some(attrs)) ==> final(errors)@ == old(errors)@ && not_yet(*old(group), *final(group)) && exists|s: GroupSummary| #[trigger] parent_of(dependencies@, group_index.m@, *old(group), *extends, s) && attrs@ == s.attributes@
            && (if old(group).is_v2 { refined(*old(group), s, *final(group)) && (final(fatal_errors)@.len() > old(fatal_errors)@.len()) == (old(group).group.type_ != s.type_) }
                else { resolved_only(*old(group), *final(group)) && final(fatal_errors)@ == old(fatal_errors)@ })
//@at end
    proof { assert(parent_of(dependencies@, group_index.m@, *old(group), *extends, parent)); }
//@end

// ---- every group of a registry
/// an attribute of a refined entity that changes what identifies the entity
pub open spec fn role_in(a: AttributeSpec) -> Option<AttributeRole> { match a { AttributeSpec::Ref { role, .. } => role, AttributeSpec::Id { role, .. } => role } }
pub open spec fn first_of(p: Seq<UnresolvedAttribute>, id: String) -> Option<UnresolvedAttribute> decreases p.len() {
    if p.len() == 0 { None } else { match first_of(p.drop_last(), id) { Some(x) => Some(x), None => if attr_key(p.last().spec) == id { Some(p.last()) } else { None } } } }
pub proof fn lemma_first_of(p: Seq<UnresolvedAttribute>, id: String, n: int) requires 0 <= n <= p.len() ensures first_of(p.take(n), id) is Some ==> first_of(p, id) == first_of(p.take(n), id) decreases p.len() {
    if n < p.len() { lemma_first_of(p.drop_last(), id, n); assert(p.drop_last().take(n) =~= p.take(n)); } else { assert(p.take(n) =~= p); } }
pub open spec fn identity_changed(a: UnresolvedAttribute, p: Seq<UnresolvedAttribute>) -> bool {
    a.spec is Ref && role_in(a.spec) is Some && (match first_of(p, attr_key(a.spec)) {
        None => role_in(a.spec)->0 == AttributeRole::Identifying,
        Some(b) => role_in(b.spec) is Some && role_in(b.spec) != role_in(a.spec) }) }
pub open spec fn identity_kept(g: UnresolvedGroup, p: Seq<UnresolvedAttribute>) -> bool { forall|i: int| 0 <= i < g.attributes@.len() ==> !identity_changed(#[trigger] g.attributes@[i], p) }
//@fn crates/weaver_resolver/src/registry.rs entity_identity_refinement_errors
    ensures (r@.len() == 0) == identity_kept(*group, parent_attrs@)
//@closure role_of -> Option<AttributeRole>
    ensures result == role_in(*spec)
//@loop 0
    refs_of(__s0@, group.attributes@), (__a0@.len() == 0) == (forall|i: int| 0 <= i < __i0 ==> !identity_changed(#[trigger] group.attributes@[i], parent_attrs@)),
//@loop 1
    refs_of(__s1@, parent_attrs@), __a1 is None, first_of(parent_attrs@.take(__i1 as int), *ref_) is None,
//@at loop1.start
    proof { assert(parent_attrs@.take(__i1 as int).drop_last() =~= parent_attrs@.take(__i1 - 1)); lemma_first_of(parent_attrs@, *ref_, __i1 as int); }
//@at loop1.after
    proof { assert(parent_attrs@.take(parent_attrs@.len() as int) =~= parent_attrs@); assert(__a1 is None ==> first_of(parent_attrs@, *ref_) is None); }
//@end
//@fn crates/weaver_resolver/src/dependency.rs GroupSummary::from_without_attributes
    ensures r.type_ == group.type_, r.annotations == group.annotations, r.source == source
//@end
pub open spec fn done(g: UnresolvedGroup) -> bool { g.group.extends is None && g.include_groups@.len() == 0 }
/// what the index says of a resolved group
pub open spec fn summarises(s: GroupSummary, g: UnresolvedGroup) -> bool { s.type_ == g.group.type_ && s.annotations == g.group.annotations && s.source is Local && s.attributes@ == g.attributes@ }
//@fn crates/weaver_resolver/src/registry.rs add_resolved_group_to_index
    requires *old(resolved_group_count) < usize::MAX
    ensures done(*final(unresolved_group)), resolved_only(*old(unresolved_group), *final(unresolved_group)), final(unresolved_group).attributes == old(unresolved_group).attributes, final(group_index).m@.contains_key(old(unresolved_group).group.id),
        summarises(final(group_index).m@[old(unresolved_group).group.id], *final(unresolved_group)),
        final(group_index).m@ =~= old(group_index).m@.insert(old(unresolved_group).group.id, final(group_index).m@[old(unresolved_group).group.id]),
        *final(resolved_group_count) == *old(resolved_group_count) + 1
//@end
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::includes_group
    ensures true
//@end
#[verifier::external_body] pub fn resolve_inheritance_attrs_unified(group_id: &String, attrs_group: &Vec<UnresolvedAttribute>, include_groups: Vec<(&String, &Vec<UnresolvedAttribute>)>, group_lineage: Option<&mut GroupLineage>) -> (r: Vec<UnresolvedAttribute>) { unimplemented!() }


/// the `k`-th group is resolved, has this id, and `g` may build on it
pub open spec fn target_at(c: Seq<UnresolvedGroup>, id: String, g: UnresolvedGroup, k: int) -> bool { 0 <= k < c.len() && done(c[k]) && c[k].group.id == id && !(hidden(c[k].group.annotations) && !is_closed(g)) }
pub open spec fn include_ok(c: Seq<UnresolvedGroup>, g: UnresolvedGroup, id: String) -> bool { exists|k: int| #[trigger] target_at(c, id, g, k) }
pub open spec fn summary_at(c: Seq<UnresolvedGroup>, id: String, s: GroupSummary, k: int) -> bool { 0 <= k < c.len() && done(c[k]) && c[k].group.id == id && summarises(s, c[k]) }
pub open spec fn seen_locally(c: Seq<UnresolvedGroup>, id: String, s: GroupSummary) -> bool { exists|k: int| #[trigger] summary_at(c, id, s, k) }
pub open spec fn seen_in_deps(ds: Seq<ResolvedDependency>, id: String, s: GroupSummary) -> bool { exists|i: int| #[trigger] first_offer(ds, id, i) && dep_group(ds[i], id) == Some(s) }
/// a refinement is of its parent's kind and leaves its identity alone
pub open spec fn refines_well(g: UnresolvedGroup, s: GroupSummary) -> bool { g.is_v2 ==> s.type_ == g.group.type_ && (g.group.type_ is Entity ==> identity_kept(g, s.attributes@)) }
/// `s` is what `o`, which became `n`, was built on
pub open spec fn built_on(c: Seq<UnresolvedGroup>, ds: Seq<ResolvedDependency>, o: UnresolvedGroup, n: UnresolvedGroup, s: GroupSummary, clean: bool) -> bool {
    (seen_locally(c, o.group.extends->0, s) || seen_in_deps(ds, o.group.extends->0, s)) && !barred(o, s) && (clean ==> refines_well(o, s)) && (if o.is_v2 { refined(o, s, n) } else { resolved_only(o, n) }) }
pub open spec fn bound(o: UnresolvedGroup, n: UnresolvedGroup, c: Seq<UnresolvedGroup>, ds: Seq<ResolvedDependency>, clean: bool) -> bool {
    (forall|j: int| 0 <= j < o.include_groups@.len() ==> include_ok(c, o, #[trigger] o.include_groups@[j]))
    && (if o.group.extends is Some { exists|s: GroupSummary| #[trigger] built_on(c, ds, o, n, s, clean) } else { resolved_only(o, n) }) }
pub open spec fn step(o: UnresolvedGroup, n: UnresolvedGroup, c: Seq<UnresolvedGroup>, ds: Seq<ResolvedDependency>, clean: bool) -> bool { n == o || (done(n) && bound(o, n, c, ds, clean)) }
pub open spec fn progress(o: Seq<UnresolvedGroup>, c: Seq<UnresolvedGroup>, ds: Seq<ResolvedDependency>, clean: bool) -> bool { o.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> step(o[i], #[trigger] c[i], c, ds, clean) }
pub open spec fn all_done(c: Seq<UnresolvedGroup>) -> bool { forall|i: int| 0 <= i < c.len() ==> done(#[trigger] c[i]) }
pub open spec fn index_of(idx: Map<String, GroupSummary>, c: Seq<UnresolvedGroup>) -> bool { forall|id: String| #[trigger] idx.contains_key(id) ==> seen_locally(c, id, idx[id]) }
pub open spec fn undone(c: Seq<UnresolvedGroup>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { undone(c.drop_last()) + (if done(c.last()) { 0nat } else { 1nat }) } }
pub proof fn lemma_undone(c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup)
    requires 0 <= i < c.len(), !done(c[i]), done(g)
    ensures undone(c.update(i, g)) + 1 == undone(c), undone(c) <= c.len()
    decreases c.len() {
    let u = c.update(i, g);
    lemma_undone_len(c.drop_last());
    if i == c.len() - 1 { assert(u.drop_last() =~= c.drop_last()); } else { assert(u.drop_last() =~= c.drop_last().update(i, g)); lemma_undone(c.drop_last(), i, g); } }
pub proof fn lemma_undone_pos(c: Seq<UnresolvedGroup>, i: int) requires 0 <= i < c.len(), !done(c[i]) ensures undone(c) > 0 decreases c.len() { if i < c.len() - 1 { lemma_undone_pos(c.drop_last(), i); } }
pub proof fn lemma_undone_len(c: Seq<UnresolvedGroup>) ensures undone(c) <= c.len() decreases c.len() { if c.len() > 0 { lemma_undone_len(c.drop_last()); } }
pub proof fn lemma_seen_kept(c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup, id: String, s: GroupSummary)
    requires 0 <= i < c.len(), !done(c[i]), seen_locally(c, id, s) ensures seen_locally(c.update(i, g), id, s) {
    let k = choose|k: int| summary_at(c, id, s, k); assert(summary_at(c.update(i, g), id, s, k)); }
pub proof fn lemma_include_kept(c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup, o: UnresolvedGroup, id: String)
    requires 0 <= i < c.len(), !done(c[i]), include_ok(c, o, id) ensures include_ok(c.update(i, g), o, id) {
    let k = choose|k: int| target_at(c, id, o, k); assert(target_at(c.update(i, g), id, o, k)); }
pub proof fn lemma_bound_kept(c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup, o: UnresolvedGroup, n: UnresolvedGroup, ds: Seq<ResolvedDependency>, clean: bool, clean2: bool)
    requires 0 <= i < c.len(), !done(c[i]), bound(o, n, c, ds, clean), clean2 ==> clean ensures bound(o, n, c.update(i, g), ds, clean2) {
    let c2 = c.update(i, g);
    assert forall|j: int| 0 <= j < o.include_groups@.len() implies include_ok(c2, o, #[trigger] o.include_groups@[j]) by { lemma_include_kept(c, i, g, o, o.include_groups@[j]); }
    if o.group.extends is Some { let s = choose|s: GroupSummary| built_on(c, ds, o, n, s, clean); if seen_locally(c, o.group.extends->0, s) { lemma_seen_kept(c, i, g, o.group.extends->0, s); } assert(built_on(c2, ds, o, n, s, clean2)); } }
pub proof fn lemma_step(o: Seq<UnresolvedGroup>, c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup, ds: Seq<ResolvedDependency>, clean: bool, clean2: bool)
    requires progress(o, c, ds, clean), 0 <= i < c.len(), c[i] == o[i], !done(c[i]), done(g), clean2 ==> clean, bound(o[i], g, c, ds, clean2)
    ensures progress(o, c.update(i, g), ds, clean2) {
    let c2 = c.update(i, g);
    assert forall|j: int| 0 <= j < c2.len() implies step(o[j], #[trigger] c2[j], c2, ds, clean2) by {
        if j == i { lemma_bound_kept(c, i, g, o[i], g, ds, clean2, clean2); } else { assert(step(o[j], c[j], c, ds, clean)); if c[j] != o[j] { lemma_bound_kept(c, i, g, o[j], c[j], ds, clean, clean2); } } } }
pub proof fn lemma_index(idx: Map<String, GroupSummary>, idx2: Map<String, GroupSummary>, c: Seq<UnresolvedGroup>, i: int, g: UnresolvedGroup)
    requires index_of(idx, c), 0 <= i < c.len(), !done(c[i]), done(g), idx2.contains_key(g.group.id), summarises(idx2[g.group.id], g), idx2 == idx.insert(g.group.id, idx2[g.group.id])
    ensures index_of(idx2, c.update(i, g)) {
    let c2 = c.update(i, g);
    assert forall|id: String| #[trigger] idx2.contains_key(id) implies seen_locally(c2, id, idx2[id]) by {
        if id == g.group.id { assert(summary_at(c2, id, idx2[id], i)); } else { lemma_seen_kept(c, i, g, id, idx[id]); } } }
/// what collecting the includes and looking up the parent established about group `o`
pub proof fn lemma_bound(o: UnresolvedGroup, n: UnresolvedGroup, c: Seq<UnresolvedGroup>, ds: Seq<ResolvedDependency>, idx: Map<String, GroupSummary>, clean: bool)
    requires index_of(idx, c), includes_bound(o, idx), if o.group.extends is Some { exists|s: GroupSummary| #[trigger] parent_of(ds, idx, o, o.group.extends->0, s) && (clean ==> refines_well(o, s)) && (if o.is_v2 { refined(o, s, n) } else { resolved_only(o, n) }) } else { resolved_only(o, n) }
    ensures bound(o, n, c, ds, clean) {
    assert forall|j: int| 0 <= j < o.include_groups@.len() implies include_ok(c, o, #[trigger] o.include_groups@[j]) by {
        let id = o.include_groups@[j]; assert(include_bound(o, idx, id)); assert(seen_locally(c, id, idx[id])); let k = choose|k: int| summary_at(c, id, idx[id], k); assert(target_at(c, id, o, k)); }
    if o.group.extends is Some {
        let id = o.group.extends->0;
        let s = choose|s: GroupSummary| #[trigger] parent_of(ds, idx, o, id, s) && (clean ==> refines_well(o, s)) && (if o.is_v2 { refined(o, s, n) } else { resolved_only(o, n) });
        if idx.contains_key(id) { assert(seen_locally(c, id, s)); } else { assert(seen_in_deps(ds, id, s)); }
        assert(built_on(c, ds, o, n, s, clean)); } }

pub open spec fn groups_only(a: UnresolvedRegistry, b: UnresolvedRegistry) -> bool { b == (UnresolvedRegistry { groups: b.groups, ..a }) }
//@fn crates/weaver_resolver/src/registry.rs resolve_extends_references isolate
    ensures groups_only(*old(ureg), *final(ureg)),
        r is Ok ==> progress(old(ureg).groups@, final(ureg).groups@, old(ureg).dependencies@, true) && all_done(final(ureg).groups@)
//@loop 0
    invariant groups_only(*old(ureg), *ureg), progress(old(ureg).groups@, ureg.groups@, old(ureg).dependencies@, fatal_errors@.len() == 0),
    ensures all_done(ureg.groups@),
    decreases undone(ureg.groups@)
//@loop 1
    refs_of(__s1@, ureg.groups@), index_of(group_index.m@, ureg.groups@),
//@at loop1.start
    let ghost idx1 = group_index.m@;
//@at loop1.end
    proof { let c = ureg.groups@; let k = __i1 - 1;
        assert forall|id: String| #[trigger] group_index.m@.contains_key(id) implies seen_locally(c, id, group_index.m@[id]) by {
            if idx1.contains_key(id) && idx1[id] == group_index.m@[id] { assert(seen_locally(c, id, idx1[id])); } else { assert(summary_at(c, id, group_index.m@[id], k)); } } }
//@at loop0.start
    let ghost start = ureg.groups@;
    proof { lemma_undone_len(start); }
//@loop 2
    groups_only(*old(ureg), *ureg), progress(old(ureg).groups@, ureg.groups@, old(ureg).dependencies@, fatal_errors@.len() == 0),
    __n2 == ureg.groups@.len(), index_of(group_index.m@, ureg.groups@), dependencies@ == old(ureg).dependencies@,
    errors@.len() == 0 ==> forall|j: int| 0 <= j < __i2 ==> done(#[trigger] ureg.groups@[j]),
    resolved_group_count + undone(ureg.groups@) == undone(start), undone(start) <= usize::MAX,
//@at loop2.start
    let ghost c0 = ureg.groups@; let ghost o = c0[__i2 as int]; let ghost clean0 = fatal_errors@.len() == 0; let ghost idx0 = group_index.m@;
    proof { assert(step(old(ureg).groups@[__i2 as int], c0[__i2 as int], c0, old(ureg).dependencies@, clean0)); assert(c0.update(__i2 as int, o) =~= c0); if !done(o) { lemma_undone_pos(c0, __i2 as int); } }
//@at loop3.before
    let ghost f3 = fatal_errors@.len();
//@loop 3
    fatal_errors@.len() == f3 + __i3,
//@at loop2.end
    proof { let k = __i2 - 1; let n = ureg.groups@[k]; let clean = fatal_errors@.len() == 0; let ds = old(ureg).dependencies@;
        assert(ureg.groups@ =~= c0.update(k, n));
        lemma_bound(o, n, c0, ds, idx0, clean);
        lemma_step(old(ureg).groups@, c0, k, n, ds, clean0, clean);
        lemma_index(idx0, group_index.m@, c0, k, n);
        lemma_undone(c0, k, n); }
//@end
fn main() {}
} // verus!
