//@include prelude.vrs
verus! {
//@include resolver.vrs
/// what a dependency answers for the entity name `name`
pub uninterp spec fn dep_entity(d: ResolvedDependency, name: String) -> Option<EntityLocation>;
impl ResolvedDependency { #[verifier::external_body] pub fn lookup_entity(&self, name: &String) -> (r: Option<EntityLocation>) ensures r == dep_entity(*self, *name) { unimplemented!() } }
impl PartialEqSpecImpl for SchemaUrl { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for SchemaUrl { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
/// dependency `d` offers the entity `name`, declared by `u`
pub open spec fn offers(d: ResolvedDependency, name: String, u: SchemaUrl) -> bool { dep_entity(d, name) is Some && !dep_entity(d, name)->0.excluded && dep_entity(d, name)->0.origin == u }
pub open spec fn offered(ds: Seq<ResolvedDependency>, name: String, u: SchemaUrl) -> bool { exists|i: int| 0 <= i < ds.len() && offers(#[trigger] ds[i], name, u) }
pub open spec fn kept_private(ds: Seq<ResolvedDependency>, name: String) -> bool { exists|i: int| 0 <= i < ds.len() && dep_entity(#[trigger] ds[i], name) is Some && dep_entity(ds[i], name)->0.excluded }
/// the one registry that declares the entity, if there is exactly one
pub open spec fn entity_answer(ds: Seq<ResolvedDependency>, name: String, r: EntityResolution) -> bool { match r {
    EntityResolution::Found(u) => offered(ds, name, u) && forall|w: SchemaUrl| offered(ds, name, w) ==> w == u,
    EntityResolution::Private => kept_private(ds, name) && forall|w: SchemaUrl| !offered(ds, name, w),
    EntityResolution::Unknown => !kept_private(ds, name) && forall|w: SchemaUrl| !offered(ds, name, w),
    EntityResolution::Ambiguous(us) => us@.no_duplicates() && us@.len() >= 2 && forall|w: SchemaUrl| offered(ds, name, w) == us@.contains(w) } }
pub open spec fn deps_origin(ds: Seq<ResolvedDependency>, i: int, name: String) -> SchemaUrl { dep_entity(ds[i], name)->0.origin }
pub proof fn lemma_offered_step(ds: Seq<ResolvedDependency>, i: int, name: String) requires 0 <= i < ds.len()
    ensures forall|w: SchemaUrl| #[trigger] offered(ds.take(i + 1), name, w) == (offered(ds.take(i), name, w) || offers(ds[i], name, w)),
        kept_private(ds.take(i + 1), name) == (kept_private(ds.take(i), name) || (dep_entity(ds[i], name) is Some && dep_entity(ds[i], name)->0.excluded)) {
    let a = ds.take(i); let b = ds.take(i + 1);
    assert forall|w: SchemaUrl| #[trigger] offered(b, name, w) == (offered(a, name, w) || offers(ds[i], name, w)) by {
        if offered(a, name, w) { let k = choose|k: int| 0 <= k < a.len() && offers(#[trigger] a[k], name, w); assert(b[k] == a[k]); }
        if offers(ds[i], name, w) { assert(offers(b[i], name, w)); }
        if offered(b, name, w) { let k = choose|k: int| 0 <= k < b.len() && offers(#[trigger] b[k], name, w); if k < i { assert(a[k] == b[k]); } } }
    if kept_private(a, name) { let k = choose|k: int| 0 <= k < a.len() && dep_entity(#[trigger] a[k], name) is Some && dep_entity(a[k], name)->0.excluded; assert(b[k] == a[k]); }
    if dep_entity(ds[i], name) is Some && dep_entity(ds[i], name)->0.excluded { assert(b[i] == ds[i]); }
    if kept_private(b, name) { let k = choose|k: int| 0 <= k < b.len() && dep_entity(#[trigger] b[k], name) is Some && dep_entity(b[k], name)->0.excluded; if k < i { assert(a[k] == b[k]); } } }
pub trait VSwapRemove<T> { spec fn vsr(&self) -> Seq<T>; fn swap_remove0(&mut self, i: usize) -> (r: T) requires i < old(self).vsr().len() ensures r == old(self).vsr()[i as int]; }
impl<T> VSwapRemove<T> for Vec<T> { open spec fn vsr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn swap_remove0(&mut self, i: usize) -> (r: T) { unimplemented!() } }
//@fn crates/weaver_resolver/src/dependency.rs resolve_entity
//@subst .swap_remove( => .swap_remove0(
    ensures entity_answer(deps@, *name, r)
//@loop 0
    refs_of(__s0@, deps@), origins@.no_duplicates(), forall|w: SchemaUrl| offered(deps@.take(__i0 as int), *name, w) == #[trigger] origins@.contains(w), private == kept_private(deps@.take(__i0 as int), *name),
//@at loop0.start
    let ghost o0 = origins@; let ghost p0 = private;
//@at loop0.end
    proof { lemma_offered_step(deps@, __i0 - 1, *name);
        assert forall|w: SchemaUrl| offered(deps@.take(__i0 as int), *name, w) == #[trigger] origins@.contains(w) by { if o0.contains(w) { let k = choose|k: int| 0 <= k < o0.len() && o0[k] == w; assert(origins@[k] == w); } if origins@.len() > o0.len() { assert(origins@[o0.len() as int] == deps_origin(deps@, __i0 - 1, *name)); assert(forall|q: int| 0 <= q < o0.len() ==> origins@[q] == o0[q]); } let _ = offered(deps@.take(__i0 - 1), *name, w) == o0.contains(w); } }
//@at loop0.after
    proof { assert(deps@.take(deps@.len() as int) =~= deps@); if origins@.len() == 0 { assert forall|w: SchemaUrl| !offered(deps@, *name, w) by { assert(!origins@.contains(w)); } } else { assert(origins@.contains(origins@[0])); if origins@.len() == 1 { assert forall|w: SchemaUrl| offered(deps@, *name, w) implies w == origins@[0] by { assert(origins@.contains(w)); } } } }
//@end
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@include v2_ids.vrs
pub open spec fn ns_id(g: Group) -> Option<String> { match v2_id(g) { Some(x) => Some(x.0), None => None } }
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures sid(r) == *self { unimplemented!() } }
pub uninterp spec fn names_of(a: EntityAssociation) -> Seq<String>;
impl EntityAssociation { #[verifier::external_body] pub fn referenced_entities<'a>(&'a self) -> (r: Vec<&'a String>) ensures refs_of(r@, names_of(*self)) { unimplemented!() } }
impl SchemaUrl { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
pub type Origins = Map<String, BTreeMap<String, SchemaUrl>>;
pub open spec fn noted(o: Origins, gid: String, name: String) -> bool { o.contains_key(gid) && o[gid].m@.contains_key(name) }
pub open spec fn at(o: Origins, gid: String, name: String) -> SchemaUrl { o[gid].m@[name] }
pub open spec fn named(g: UnresolvedGroup, name: String) -> bool { exists|k: int| 0 <= k < g.group.entity_associations@.len() && names_of(#[trigger] g.group.entity_associations@[k]).contains(name) }
/// `g` declares the entity `name` in this registry
pub open spec fn declares(g: UnresolvedGroup, name: String) -> bool { g.group.type_ is Entity && ns_id(g.group) == Some(name) }
pub open spec fn declared(gs: Seq<UnresolvedGroup>, name: String) -> bool { exists|j: int| 0 <= j < gs.len() && declares(#[trigger] gs[j], name) }
/// a local entity that `g` may name: public, or private as `g` is
pub open spec fn open_to(gs: Seq<UnresolvedGroup>, g: UnresolvedGroup, name: String) -> bool { exists|j: int| 0 <= j < gs.len() && declares(#[trigger] gs[j], name) && (!is_closed(gs[j]) || is_closed(g)) }
/// the name is settled: by the import, by this registry, or by the one dependency that declares it
pub open spec fn settled(gs: Seq<UnresolvedGroup>, old_o: Origins, o: Origins, g: UnresolvedGroup, name: String) -> bool {
    noted(old_o, g.group.id, name) || open_to(gs, g, name) || (!declared(gs, name) && noted(o, g.group.id, name)) }
pub open spec fn dep_answer(ds: Seq<ResolvedDependency>, name: String, u: SchemaUrl) -> bool { entity_answer(ds, name, EntityResolution::Found(u)) }
pub open spec fn origins_good(ds: Seq<ResolvedDependency>, old_o: Origins, o: Origins) -> bool { forall|gid: String, name: String| #[trigger] noted(o, gid, name) ==> !noted(old_o, gid, name) && dep_answer(ds, name, at(o, gid, name)) }
pub open spec fn all_settled(gs: Seq<UnresolvedGroup>, old_o: Origins, o: Origins, n: int) -> bool { forall|i: int, name: String| 0 <= i < n && #[trigger] named(gs[i], name) ==> settled(gs, old_o, o, gs[i], name) }
/// the origins after the lookup: those the imports brought, and the ones found now
pub open spec fn origins_after(ds: Seq<ResolvedDependency>, old_o: Origins, o: Origins) -> bool { forall|gid: String, name: String| #![trigger noted(o, gid, name)] #![trigger noted(old_o, gid, name)]
    (noted(old_o, gid, name) ==> noted(o, gid, name) && at(o, gid, name) == at(old_o, gid, name)) && (noted(o, gid, name) && !noted(old_o, gid, name) ==> dep_answer(ds, name, at(o, gid, name))) }
pub open spec fn local_of(m: Map<String, bool>, gs: Seq<UnresolvedGroup>, n: int) -> bool {
    (forall|name: String| #[trigger] m.contains_key(name) ==> local_at(gs, n, name, m[name])) && (forall|j: int, name: String| 0 <= j < n && #[trigger] declares(gs[j], name) ==> m.contains_key(name)) }
pub open spec fn local_at(gs: Seq<UnresolvedGroup>, n: int, name: String, b: bool) -> bool { exists|j: int| 0 <= j < n && j < gs.len() && declares(#[trigger] gs[j], name) && is_closed(gs[j]) == b }
pub open spec fn map_of(m: HashMap<String, bool>) -> Map<String, bool> { m.m@ }
pub open spec fn found_good(ds: Seq<ResolvedDependency>, f: Map<String, SchemaUrl>) -> bool { forall|n: String| #[trigger] f.contains_key(n) ==> dep_answer(ds, n, f[n]) }
pub open spec fn gathered(s: Seq<&String>, g: UnresolvedGroup, n: int) -> bool { forall|k: int, name: String| 0 <= k < n && #[trigger] names_of(g.group.entity_associations@[k]).contains(name) ==> s.contains(&name) }
pub open spec fn covers(s: Seq<&String>, g: UnresolvedGroup) -> bool { forall|name: String| #[trigger] named(g, name) ==> s.contains(&name) }
pub open spec fn first_settled(s: Seq<&String>, n: int, gs: Seq<UnresolvedGroup>, old_o: Origins, o: Origins, g: UnresolvedGroup) -> bool { forall|q: int| 0 <= q < n ==> settled(gs, old_o, o, g, *(#[trigger] s[q])) }
pub open spec fn adds(a: Origins, b: Origins) -> bool { forall|gid: String, name: String| #[trigger] noted(a, gid, name) ==> noted(b, gid, name) }
pub open spec fn merged(old_o: Origins, new_o: Origins, new: Seq<(String, BTreeMap<String, SchemaUrl>)>, n: int, o: Origins) -> bool { forall|gid: String, name: String| #![trigger noted(o, gid, name)] #![trigger noted(old_o, gid, name)] #![trigger in_new(new, n, gid, name)]
    noted(o, gid, name) == (noted(old_o, gid, name) || in_new(new, n, gid, name)) && (noted(o, gid, name) ==> at(o, gid, name) == (if noted(old_o, gid, name) { at(old_o, gid, name) } else { at(new_o, gid, name) })) }
pub open spec fn among(s: Seq<(String, SchemaUrl)>, n: int, name: String, u: SchemaUrl) -> bool { exists|q: int| 0 <= q < n && #[trigger] s[q] == (name, u) }
pub open spec fn pushed(b: Map<String, SchemaUrl>, s: Seq<(String, SchemaUrl)>, n: int, m: Map<String, SchemaUrl>) -> bool {
    (forall|name: String| #[trigger] b.contains_key(name) ==> m.contains_key(name))
    && (forall|name: String| #[trigger] m.contains_key(name) ==> among(s, n, name, m[name]) || (b.contains_key(name) && m[name] == b[name]))
    && (forall|q: int| 0 <= q < n ==> m.contains_key((#[trigger] s[q]).0) && m[s[q].0] == s[q].1) }
pub open spec fn in_new(new: Seq<(String, BTreeMap<String, SchemaUrl>)>, n: int, gid: String, name: String) -> bool { exists|k: int| 0 <= k < n && k < new.len() && (#[trigger] new[k]).0 == gid && new[k].1.m@.contains_key(name) }
pub open spec fn groups_kept(a: UnresolvedRegistry, b: UnresolvedRegistry) -> bool { b.groups == a.groups && b.dependencies == a.dependencies && b.imports == a.imports && b.registry == (Registry { entity_association_origins: b.registry.entity_association_origins, ..a.registry }) }
pub open spec fn base(o: Origins, gid: String) -> Map<String, SchemaUrl> { if o.contains_key(gid) { o[gid].m@ } else { Map::empty() } }
/// noting the answer for one name
pub proof fn lemma_note(ds: Seq<ResolvedDependency>, old_o: Origins, o: Origins, gid: String, name: String) requires origins_good(ds, old_o, o)
    ensures forall|f: BTreeMap<String, SchemaUrl>| #![trigger o.insert(gid, f)] !noted(old_o, gid, name) && f.m@ == base(o, gid).insert(name, f.m@[name]) && dep_answer(ds, name, f.m@[name]) ==> origins_good(ds, old_o, o.insert(gid, f)) && adds(o, o.insert(gid, f)) && noted(o.insert(gid, f), gid, name) {
    assert forall|f: BTreeMap<String, SchemaUrl>| #![trigger o.insert(gid, f)] !noted(old_o, gid, name) && f.m@ == base(o, gid).insert(name, f.m@[name]) && dep_answer(ds, name, f.m@[name]) implies origins_good(ds, old_o, o.insert(gid, f)) && adds(o, o.insert(gid, f)) && noted(o.insert(gid, f), gid, name) by {
        let o2 = o.insert(gid, f);
        assert forall|g: String, n: String| #[trigger] noted(o2, g, n) implies !noted(old_o, g, n) && dep_answer(ds, n, at(o2, g, n)) by { if g != gid { assert(noted(o, g, n)); } else if n != name { assert(noted(o, g, n)); } } } }
pub proof fn lemma_settled(gs: Seq<UnresolvedGroup>, old_o: Origins, o: Origins, o2: Origins, i: int) requires all_settled(gs, old_o, o, i), adds(o, o2) ensures all_settled(gs, old_o, o2, i) {
    assert forall|j: int, name: String| 0 <= j < i && #[trigger] named(gs[j], name) implies settled(gs, old_o, o2, gs[j], name) by { assert(settled(gs, old_o, o, gs[j], name)); } }
pub proof fn lemma_merged(ds: Seq<ResolvedDependency>, old_o: Origins, new_o: Origins, new: Seq<(String, BTreeMap<String, SchemaUrl>)>, k: int, c: Origins, o: Origins)
    requires 0 <= k < new.len(), enumerates_map(new, new_o), origins_good(ds, old_o, new_o), merged(old_o, new_o, new, k, c), o == c.insert(new[k].0, o[new[k].0]), exists|s: Seq<(String, SchemaUrl)>| #[trigger] enumerates_map(s, new[k].1.m@) && pushed(base(c, new[k].0), s, s.len() as int, o[new[k].0].m@)
    ensures merged(old_o, new_o, new, k + 1, o) {
    let id = new[k].0; let s = choose|s: Seq<(String, SchemaUrl)>| #[trigger] enumerates_map(s, new[k].1.m@) && pushed(base(c, id), s, s.len() as int, o[id].m@);
    assert forall|gid: String, name: String| #![trigger noted(o, gid, name)] #![trigger noted(old_o, gid, name)] #![trigger in_new(new, k + 1, gid, name)]
        noted(o, gid, name) == (noted(old_o, gid, name) || in_new(new, k + 1, gid, name)) && (noted(o, gid, name) ==> at(o, gid, name) == (if noted(old_o, gid, name) { at(old_o, gid, name) } else { at(new_o, gid, name) })) by {
        let _ = noted(c, gid, name);
        if in_new(new, k, gid, name) { let j = choose|j: int| 0 <= j < k && (#[trigger] new[j]).0 == gid && new[j].1.m@.contains_key(name); assert(in_new(new, k + 1, gid, name)); }
        if in_new(new, k + 1, gid, name) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] new[j]).0 == gid && new[j].1.m@.contains_key(name); assert(noted(new_o, gid, name)); if j < k { assert(in_new(new, k, gid, name)); } else { let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q].0 == name; assert(o[id].m@.contains_key(s[q].0)); } }
        if gid == id && noted(o, gid, name) {
            let m = o[id].m@;
            if among(s, s.len() as int, name, m[name]) { assert(new[k].1.m@.contains_key(name)); assert(in_new(new, k + 1, gid, name)); assert(noted(new_o, gid, name)); } else { assert(noted(c, gid, name)); }
        } } }
//@fn crates/weaver_resolver/src/registry.rs resolve_entity_associations isolate
    ensures final(ureg).groups == old(ureg).groups, final(ureg).dependencies == old(ureg).dependencies, final(ureg).imports == old(ureg).imports, final(ureg).registry == (Registry { entity_association_origins: final(ureg).registry.entity_association_origins, ..old(ureg).registry }),
        r is Ok ==> all_settled(old(ureg).groups@, old(ureg).registry.entity_association_origins.m@, final(ureg).registry.entity_association_origins.m@, old(ureg).groups@.len() as int),
        r is Ok ==> origins_after(old(ureg).dependencies@, old(ureg).registry.entity_association_origins.m@, final(ureg).registry.entity_association_origins.m@)
//@at start
    let ghost mut new_o: Origins = Map::empty(); let ghost gs = ureg.groups@; let ghost ds = ureg.dependencies@; let ghost old_o: Origins = ureg.registry.entity_association_origins.m@;
//@loop 0
    gs == old(ureg).groups@, ds == old(ureg).dependencies@, old_o == old(ureg).registry.entity_association_origins.m@, *ureg == *old(ureg), refs_of(__s0@, gs),
    except_break __a0, forall|j: int| 0 <= j < __i0 ==> (#[trigger] gs[j]).group.entity_associations@.len() == 0,
    ensures __a0 ==> forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).group.entity_associations@.len() == 0,
//@loop 1
    gs == old(ureg).groups@, ds == old(ureg).dependencies@, old_o == old(ureg).registry.entity_association_origins.m@, *ureg == *old(ureg), refs_of(__s1@, gs), local_of(map_of(__a1), gs, __i1 as int),
//@at loop1.start
    let ghost m0 = map_of(__a1);
//@at loop1.end
    proof { let n = __i1 - 1; assert forall|name: String| #[trigger] map_of(__a1).contains_key(name) implies local_at(gs, n + 1, name, map_of(__a1)[name]) by {
        if declares(gs[n], name) { assert(map_of(__a1)[name] == is_closed(gs[n])); } else { assert(m0.contains_key(name)); assert(local_at(gs, n, name, m0[name])); } } }
//@loop 2
    gs == old(ureg).groups@, ds == old(ureg).dependencies@, old_o == old(ureg).registry.entity_association_origins.m@, *ureg == *old(ureg), refs_of(__s2@, gs), local_of(map_of(local), gs, gs.len() as int), found_good(ds, found.m@), origins_good(ds, old_o, origins.m@), errors@.len() == 0 ==> all_settled(gs, old_o, origins.m@, __i2 as int),
//@at loop2.start
    let ghost o2: Origins = origins.m@; let ghost e2 = errors@.len(); let ghost k2 = __i2 - 1;
//@loop 4
    refs_of(__s4@, g.group.entity_associations@), gathered(__a4@, *g, __i4 as int),
//@at loop4.start
    let ghost a40 = __a4@;
//@loop 5
    refs_of(__s5@, names_of(*__x4)), forall|k: int| 0 <= k < a40.len() ==> __a4@[k] == a40[k], a40.len() <= __a4@.len(), forall|q: int| 0 <= q < __i5 ==> __a4@.contains(#[trigger] __s5@[q]),
//@at loop5.start
    let ghost a50 = __a4@;
//@at loop5.end
    proof { assert(__a4@[a50.len() as int] == __x5); assert forall|q: int| 0 <= q < __i5 implies __a4@.contains(#[trigger] __s5@[q]) by { if q < __i5 - 1 { let k = choose|k: int| 0 <= k < a50.len() && a50[k] == __s5@[q]; assert(__a4@[k] == __s5@[q]); } } }
//@at loop4.end
    proof { assert forall|k: int, name: String| 0 <= k < __i4 && #[trigger] names_of(g.group.entity_associations@[k]).contains(name) implies __a4@.contains(&name) by {
        if k < __i4 - 1 { assert(a40.contains(&name)); let q = choose|q: int| 0 <= q < a40.len() && a40[q] == name; assert(__a4@[q] == name); }
        else { let ns = names_of(g.group.entity_associations@[k]); let q = choose|q: int| 0 <= q < ns.len() && ns[q] == name; assert(__s5@[q] == name); } } }
//@at loop4.after
    let ghost all4 = __a4@;
    proof { assert(gathered(all4, *g, g.group.entity_associations@.len() as int)); assert(covers(all4, *g)); }
//@at loop3.before
    proof { assert forall|name: String| #[trigger] named(*g, name) implies __s3@.contains(&name) by { assert(__s3@.to_set().contains(&name)); } }
//@loop 3
    gs == old(ureg).groups@, ds == old(ureg).dependencies@, old_o == old(ureg).registry.entity_association_origins.m@, *ureg == *old(ureg), 0 <= k2 < gs.len(), *g == gs[k2], local_of(map_of(local), gs, gs.len() as int), found_good(ds, found.m@), origins_good(ds, old_o, origins.m@), covers(__s3@, *g), group_excluded == is_closed(*g),
    errors@.len() >= e2, adds(o2, origins.m@), errors@.len() == 0 ==> first_settled(__s3@, __i3 as int, gs, old_o, origins.m@, *g),
    (match imported { Some(m) => old_o.contains_key(g.group.id) && *m == old_o[g.group.id], None => !old_o.contains_key(g.group.id) }),
//@at loop3.start
    let ghost o3: Origins = origins.m@;
    proof { lemma_note(ds, old_o, o3, g.group.id, *__s3@[__i3 - 1]); }
//@at loop3.after
    proof { assert forall|name: String| #[trigger] named(*g, name) && errors@.len() == 0 implies settled(gs, old_o, origins.m@, *g, name) by { assert(__s3@.contains(&name)); let q = choose|q: int| 0 <= q < __s3@.len() && __s3@[q] == name; assert(settled(gs, old_o, origins.m@, *g, *__s3@[q])); }
        if errors@.len() == 0 { lemma_settled(gs, old_o, o2, origins.m@, k2); } }
//@at loop2.after
    proof { new_o = origins.m@; }
//@loop 7
    groups_kept(*old(ureg), *ureg), old_o == old(ureg).registry.entity_association_origins.m@, ds == old(ureg).dependencies@, origins_good(ds, old_o, new_o), enumerates_map(__s7@, new_o), merged(old_o, new_o, __s7@, __i7 as int, ureg.registry.entity_association_origins.m@),
//@at loop7.start
    let ghost c7: Origins = ureg.registry.entity_association_origins.m@; let ghost k7 = __i7 - 1;
//@at loop8.before
    let ghost b8 = __r8.m@;
//@loop 8
    enumerates_map(__s8@, __s7@[k7].1.m@), pushed(b8, __s8@, __i8 as int, __r8.m@),
//@at loop8.end
    proof { }
//@at loop7.end
    proof { lemma_merged(ds, old_o, new_o, __s7@, k7, c7, ureg.registry.entity_association_origins.m@); }
//@at loop7.after
    proof { let o: Origins = ureg.registry.entity_association_origins.m@;
        assert forall|gid: String, name: String| #[trigger] noted(new_o, gid, name) implies noted(o, gid, name) by { let k = choose|k: int| 0 <= k < __s7@.len() && (#[trigger] __s7@[k]).0 == gid; assert(in_new(__s7@, __s7@.len() as int, gid, name)); }
        assert(adds(new_o, o)); lemma_settled(gs, old_o, new_o, o, gs.len() as int);
        assert forall|gid: String, name: String| #[trigger] noted(o, gid, name) && !noted(old_o, gid, name) implies dep_answer(ds, name, at(o, gid, name)) by { let n = __s7@.len() as int; assert(in_new(__s7@, n, gid, name)); let k = choose|k: int| 0 <= k < n && (#[trigger] __s7@[k]).0 == gid && __s7@[k].1.m@.contains_key(name); assert(noted(new_o, gid, name)); }
        assert(origins_after(ds, old_o, o)); }
//@end
fn main() {}
} // verus!
