//@include prelude.vrs
verus! {
//@include resolver.vrs
//@type crates/weaver_semconv/src/v2/signal_id.rs SignalId
//@include v2_ids.vrs
impl SignalId { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures sid(r) == *self { unimplemented!() } }
//@fn crates/weaver_resolved_schema/src/lineage.rs GroupLineage::has_attribute
    ensures r == self.attributes.m@.contains_key(*attr_id)
//@end
//@fn crates/weaver_resolved_schema/src/registry.rs Group::is_v2_refinement
    ensures r == v2_refinement(*self)
//@end
pub open spec fn v2_refinement(g: Group) -> bool { g.is_v2 && g.lineage is Some && g.lineage->0.extends_group is Some }

// ------------------------------------------------------------------ one name, two groups
pub trait Hash {}
pub trait Eq {}
pub trait Display: Sized { spec fn vtext(self) -> String; fn to_string(&self) -> (r: String) ensures r == self.vtext(); }
pub open spec fn key_of<K, KF: Fn(&Group) -> Option<K>>(f: KF, g: Group) -> Option<K> { choose|k: Option<K>| f.ensures((&g,), k) }
pub open spec fn keyed<K, KF: Fn(&Group) -> Option<K>>(f: KF) -> bool { forall|g: &Group, k: Option<K>| #[trigger] f.ensures((g,), k) ==> k == key_of(f, *g) }
/// the provenances of the groups that carry `k`, one for each
pub open spec fn carriers<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>, k: K) -> Seq<Provenance> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { let r = carriers(f, gs.drop_last(), k); if key_of(f, gs.last()) == Some(k) && gs.last().lineage is Some { r.push(gs.last().lineage->0.provenance) } else { r } } }
pub open spec fn carried<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>, k: K) -> bool { exists|i: int| 0 <= i < gs.len() && key_of(f, #[trigger] gs[i]) == Some(k) }
pub open spec fn reports_dup<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(f: KF, ef: EF, gs: Seq<Group>, k: K, e: Error) -> bool {
    exists|v: Vec<Provenance>| #[trigger] ef.ensures((k.vtext(), v), e) && v@.no_duplicates() && v@.to_set() == carriers(f, gs, k).to_set() }
/// exactly one error for each key that two or more groups carry
pub open spec fn dups_reported<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(f: KF, ef: EF, gs: Seq<Group>, ks: Seq<K>, es: Seq<Error>) -> bool {
    &&& ks.no_duplicates() &&& ks.len() == es.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> reports_dup(f, ef, gs, #[trigger] ks[i], es[i])
    &&& forall|k: K| #[trigger] ks.contains(k) == (carriers(f, gs, k).len() > 1) }
pub open spec fn since(es: Seq<Error>, old_es: Seq<Error>) -> Seq<Error> { es.skip(old_es.len() as int) }
pub open spec fn extended(es: Seq<Error>, old_es: Seq<Error>) -> bool { es.len() >= old_es.len() && es.take(old_es.len() as int) == old_es }
pub proof fn lemma_carried<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>, k: K) ensures carriers(f, gs, k).len() > 0 ==> carried(f, gs, k) decreases gs.len() {
    if gs.len() > 0 { lemma_carried(f, gs.drop_last(), k);
        if carriers(f, gs.drop_last(), k).len() > 0 { let i = choose|i: int| 0 <= i < gs.drop_last().len() && key_of(f, #[trigger] gs.drop_last()[i]) == Some(k); assert(gs[i] == gs.drop_last()[i]); }
        if key_of(f, gs.last()) == Some(k) { assert(gs[gs.len() - 1] == gs.last()); } } }
/// what the index holds once `gs` has been read
pub open spec fn key_index<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>, m: Map<K, Vec<Provenance>>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) == carried(f, gs, k)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> m[k]@ == carriers(f, gs, k) }
pub proof fn lemma_index_step<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>, i: int, m0: Map<K, Vec<Provenance>>, m: Map<K, Vec<Provenance>>)
    requires 0 <= i < gs.len(), key_index(f, gs.take(i), m0),
        match key_of(f, gs[i]) { None => m == m0, Some(k) => m == m0.insert(k, m[k]) && m[k]@ == ({ let b = if m0.contains_key(k) { m0[k]@ } else { Seq::empty() }; if gs[i].lineage is Some { b.push(gs[i].lineage->0.provenance) } else { b } }) }
    ensures key_index(f, gs.take(i + 1), m) {
    let a = gs.take(i); let b = gs.take(i + 1); assert(b.drop_last() =~= a); assert(b.last() == gs[i]);
    assert forall|k: K| #[trigger] m.contains_key(k) == carried(f, b, k) by {
        if carried(f, a, k) { let j = choose|j: int| 0 <= j < a.len() && key_of(f, #[trigger] a[j]) == Some(k); assert(b[j] == a[j]); assert(m0.contains_key(k)); }
        if carried(f, b, k) { let j = choose|j: int| 0 <= j < b.len() && key_of(f, #[trigger] b[j]) == Some(k); if j < i { assert(a[j] == b[j]); assert(m0.contains_key(k)); } }
        if key_of(f, gs[i]) == Some(k) { assert(b[i] == gs[i]); }
        if m0.contains_key(k) { assert(carried(f, a, k)); } }
    assert forall|k: K| #[trigger] m.contains_key(k) implies m[k]@ == carriers(f, b, k) by { lemma_carried(f, a, k); if m0.contains_key(k) {} else { assert(!carried(f, a, k)); assert(carriers(f, a, k) =~= Seq::empty()); } } }
pub proof fn lemma_take_set<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i]), s.take(s.len() as int) == s {
    let a = s.take(i); let b = s.take(i + 1); assert(s.take(s.len() as int) =~= s);
    assert forall|t: T| #[trigger] b.to_set().contains(t) == a.to_set().insert(s[i]).contains(t) by {
        if a.contains(t) { let j = choose|j: int| 0 <= j < a.len() && a[j] == t; assert(b[j] == t); }
        if b.contains(t) { let j = choose|j: int| 0 <= j < b.len() && b[j] == t; if j < i { assert(a[j] == t); } }
        if t == s[i] { assert(b[i] == t); } }
    assert(b.to_set() =~= a.to_set().insert(s[i])); }
/// the three names that must be a group's own
pub enum Named { Id, Metric, Name }
pub open spec fn named(w: Named, g: Group) -> Option<String> { match w { Named::Id => Some(g.id), Named::Metric => if v2_refinement(g) { None } else { g.metric_name }, Named::Name => if v2_refinement(g) { None } else { g.name } } }
pub open spec fn holders(w: Named, gs: Seq<Group>, k: String) -> Seq<Provenance> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { let r = holders(w, gs.drop_last(), k); if named(w, gs.last()) == Some(k) && gs.last().lineage is Some { r.push(gs.last().lineage->0.provenance) } else { r } } }
pub open spec fn dup_error(w: Named, k: String, ps: Set<Provenance>, e: Error) -> bool { match (w, e) {
    (Named::Id, Error::DuplicateGroupId { group_id, provenances }) => group_id == k && provenances@.to_set() == ps,
    (Named::Metric, Error::DuplicateMetricName { metric_name, provenances }) => metric_name == k && provenances@.to_set() == ps,
    (Named::Name, Error::DuplicateGroupName { group_name, provenances }) => group_name == k && provenances@.to_set() == ps,
    _ => false } }
/// exactly one error for each name that two or more groups carry
pub open spec fn names_reported(w: Named, gs: Seq<Group>, ks: Seq<String>, es: Seq<Error>) -> bool {
    &&& ks.no_duplicates() &&& ks.len() == es.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> dup_error(w, #[trigger] ks[i], holders(w, gs, ks[i]).to_set(), es[i])
    &&& forall|k: String| #[trigger] ks.contains(k) == (holders(w, gs, k).len() > 1) }
pub open spec fn name_checked(w: Named, gs: Seq<Group>, es: Seq<Error>) -> bool { exists|ks: Seq<String>| #[trigger] names_reported(w, gs, ks, es) }
/// the key is the name `w` of the group, and the error says so
pub open spec fn key_text<K: Display>(k: Option<K>) -> Option<String> { match k { Some(x) => Some(x.vtext()), None => None } }
pub open spec fn fits<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(w: Named, f: KF, ef: EF) -> bool {
    &&& forall|a: K, b: K| #[trigger] a.vtext() == #[trigger] b.vtext() ==> a == b
    &&& forall|g: &Group, k: Option<K>| #[trigger] f.ensures((g,), k) ==> key_text(k) == named(w, *g)
    &&& forall|k: String, v: Vec<Provenance>, e: Error| #[trigger] ef.ensures((k, v), e) ==> dup_error(w, k, v@.to_set(), e) }
pub open spec fn asked<K, KF: Fn(&Group) -> Option<K>>(f: KF, gs: Seq<Group>) -> bool { forall|i: int| 0 <= i < gs.len() ==> f.ensures((&#[trigger] gs[i],), key_of(f, gs[i])) }
pub proof fn lemma_holders<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(w: Named, f: KF, ef: EF, gs: Seq<Group>, k: K) requires fits(w, f, ef), asked(f, gs) ensures holders(w, gs, k.vtext()) == carriers(f, gs, k) decreases gs.len() {
    if gs.len() > 0 { assert forall|i: int| 0 <= i < gs.drop_last().len() implies f.ensures((&#[trigger] gs.drop_last()[i],), key_of(f, gs.drop_last()[i])) by { assert(gs[i] == gs.drop_last()[i]); }
        lemma_holders(w, f, ef, gs.drop_last(), k); assert(f.ensures((&gs[gs.len() - 1],), key_of(f, gs.last()))); } }
pub proof fn lemma_held<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(w: Named, f: KF, ef: EF, gs: Seq<Group>, t: String) -> (k: K) requires fits(w, f, ef), asked(f, gs), holders(w, gs, t).len() > 0 ensures k.vtext() == t decreases gs.len() {
    assert forall|i: int| 0 <= i < gs.drop_last().len() implies f.ensures((&#[trigger] gs.drop_last()[i],), key_of(f, gs.drop_last()[i])) by { assert(gs[i] == gs.drop_last()[i]); }
    assert(f.ensures((&gs[gs.len() - 1],), key_of(f, gs.last())));
    if holders(w, gs.drop_last(), t).len() > 0 { lemma_held(w, f, ef, gs.drop_last(), t) } else { key_of(f, gs.last())->0 } }
pub proof fn lemma_named<K: Display, KF: Fn(&Group) -> Option<K>, EF: Fn(String, Vec<Provenance>) -> Error>(w: Named, f: KF, ef: EF, gs: Seq<Group>, ks: Seq<K>, es: Seq<Error>)
    requires dups_reported(f, ef, gs, ks, es), fits(w, f, ef), asked(f, gs) ensures name_checked(w, gs, es) {
    let ts = ks.map_values(|k: K| k.vtext());
    assert forall|i: int| 0 <= i < ts.len() implies dup_error(w, #[trigger] ts[i], holders(w, gs, ts[i]).to_set(), es[i]) by { lemma_holders(w, f, ef, gs, ks[i]); assert(reports_dup(f, ef, gs, ks[i], es[i])); }
    assert forall|t: String| #[trigger] ts.contains(t) == (holders(w, gs, t).len() > 1) by {
        if ts.contains(t) { let i = ts.index_of(t); lemma_holders(w, f, ef, gs, ks[i]); assert(ks.contains(ks[i])); }
        if holders(w, gs, t).len() > 1 { let k: K = lemma_held(w, f, ef, gs, t); lemma_holders(w, f, ef, gs, k); assert(ks.contains(k)); let i = ks.index_of(k); assert(ts[i] == t); } }
    assert forall|i: int, j: int| 0 <= i < j < ts.len() implies ts[i] != ts[j] by { assert(ks[i] != ks[j]); }
    assert(names_reported(w, gs, ts, es)); }
//@fn crates/weaver_resolver/src/registry.rs check_uniqueness
    requires keyed(key_fn), forall|g: &Group| #[trigger] key_fn.requires((g,)), forall|s: String, v: Vec<Provenance>| #[trigger] error_fn.requires((s, v))
    ensures extended(final(errors)@, old(errors)@), exists|ks: Seq<K>| #[trigger] dups_reported(key_fn, error_fn, registry.groups@, ks, since(final(errors)@, old(errors)@)),
        forall|w: Named| fits(w, key_fn, error_fn) ==> #[trigger] name_checked(w, registry.groups@, since(final(errors)@, old(errors)@))
//@at start
    let ghost gs = registry.groups@; let ghost e0 = errors@; let ghost mut ks = Seq::<K>::empty(); let ghost mut m = Map::<K, Vec<Provenance>>::empty();
//@loop 0
    refs_of(__s0@, gs), gs == registry.groups@, errors@ == e0, keyed(key_fn), forall|g: &Group| #[trigger] key_fn.requires((g,)), forall|s: String, v: Vec<Provenance>| #[trigger] error_fn.requires((s, v)),
    key_index(key_fn, gs.take(__i0 as int), keys.m@), asked(key_fn, gs.take(__i0 as int)),
//@at loop0.start
    let ghost k0 = keys.m@;
//@at loop0.end
    proof { lemma_index_step(key_fn, gs, __i0 - 1, k0, keys.m@);
        assert forall|i: int| 0 <= i < __i0 implies key_fn.ensures((&#[trigger] gs.take(__i0 as int)[i],), key_of(key_fn, gs.take(__i0 as int)[i])) by { if i < __i0 - 1 { assert(gs.take(__i0 - 1)[i] == gs[i]); } } }
//@at loop0.after
    proof { assert(gs.take(gs.len() as int) =~= gs); m = keys.m@; assert(e0.take(e0.len() as int) =~= e0); }
//@loop 1
    gs == registry.groups@, enumerates_map(__s1@, m), key_index(key_fn, gs, m), asked(key_fn, gs), forall|s: String, v: Vec<Provenance>| #[trigger] error_fn.requires((s, v)),
    extended(errors@, e0), ks.no_duplicates(), ks.len() == errors@.len() - e0.len(),
    forall|i: int| 0 <= i < ks.len() ==> reports_dup(key_fn, error_fn, gs, #[trigger] ks[i], errors@[e0.len() + i]),
    forall|k: K| #[trigger] ks.contains(k) == (exists|j: int| 0 <= j < __i1 && (#[trigger] __s1@[j]).0 == k && __s1@[j].1@.len() > 1),
//@at loop1.start
    let ghost es0 = errors@; let ghost ks0 = ks; let ghost pv = __s1@[__i1 - 1].1@;
//@loop 2
    errors@ == es0, __a2.s@ == __s2@.take(__i2 as int).to_set(), __s2@.to_set() == pv.to_set(),
//@at loop2.start
    let ghost a2 = __a2.s@;
//@at loop2.end
    proof { lemma_take_set(__s2@, __i2 - 1); }
//@loop 3
    __s3@ == pv, __a3@ == __s3@.take(__i3 as int),
//@at loop3.end
    proof { assert(__a3@ =~= __s3@.take(__i3 as int)); }
//@at loop3.after
    proof { assert(__s3@.take(__s3@.len() as int) =~= __s3@); }
//@at loop2.before
    proof { assert(__s2@.take(0).to_set() =~= Set::<Provenance>::empty()); }
//@at loop2.after
    proof { assert(__s2@.take(__s2@.len() as int) =~= __s2@); }
//@loop 4
    __a4@ == __s4@.take(__i4 as int), __s4@.no_duplicates(), __s4@.to_set() == pv.to_set(), errors@ == es0,
//@at loop4.end
    proof { assert(__a4@ =~= __s4@.take(__i4 as int)); }
//@at loop4.after
    proof { assert(__s4@.take(__s4@.len() as int) =~= __s4@); }
//@at loop1.end
    proof { let j = __i1 - 1; let k = __s1@[j].0;
        if pv.len() > 1 { ks = ks.push(k);
            assert(!ks0.contains(k)) by { if ks0.contains(k) { let q = choose|q: int| 0 <= q < __i1 - 1 && (#[trigger] __s1@[q]).0 == k && __s1@[q].1@.len() > 1; } }
            assert(errors@.len() == es0.len() + 1 && errors@.drop_last() =~= es0);
            assert(reports_dup(key_fn, error_fn, gs, k, errors@.last()));
            assert(errors@.take(e0.len() as int) =~= es0.take(e0.len() as int)); }
        assert forall|x: K| #[trigger] ks.contains(x) == (exists|q: int| 0 <= q < __i1 && (#[trigger] __s1@[q]).0 == x && __s1@[q].1@.len() > 1) by {
            if ks0.contains(x) { let w = ks0.index_of(x); assert(ks[w] == x); }
            if pv.len() > 1 && x == k { assert(ks[ks.len() - 1] == k); assert(__s1@[j].0 == k); }
            if ks.contains(x) && !(pv.len() > 1 && x == k) { let w = choose|w: int| 0 <= w < ks.len() && ks[w] == x; assert(ks0[w] == x); } } }
//@at loop1.after
    proof { assert forall|k: K| #[trigger] ks.contains(k) == (carriers(key_fn, gs, k).len() > 1) by { lemma_carried(key_fn, gs, k);
            if carriers(key_fn, gs, k).len() > 1 { assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < __s1@.len() && #[trigger] __s1@[j].0 == k; assert(__s1@[j].1@.len() > 1); } }
        assert(dups_reported(key_fn, error_fn, gs, ks, since(errors@, e0)));
        assert forall|w: Named| fits(w, key_fn, error_fn) implies #[trigger] name_checked(w, gs, since(errors@, e0)) by { lemma_named(w, key_fn, error_fn, gs, ks, since(errors@, e0)); } }
//@end

// ------------------------------------------------------------------ one attribute, two definitions
/// the groups that define the attribute, one entry for each definition
pub open spec fn defs_in(names: Seq<String>, g: Group, n: int, a: String) -> Seq<String> decreases n {
    if n <= 0 { Seq::empty() } else { let r = defs_in(names, g, n - 1, a); let x = names[g.attributes@[n - 1].0 as int]; if x == a && g.lineage is Some && !g.lineage->0.attributes.m@.contains_key(a) { r.push(g.id) } else { r } } }
pub open spec fn definers(names: Seq<String>, gs: Seq<Group>, a: String) -> Seq<String> decreases gs.len() {
    if gs.len() == 0 { Seq::empty() } else { let r = definers(names, gs.drop_last(), a); if gs.last().type_ == GroupType::AttributeGroup { r + defs_in(names, gs.last(), gs.last().attributes@.len() as int, a) } else { r } } }
pub open spec fn def_error(names: Seq<String>, gs: Seq<Group>, k: String, e: Error) -> bool { match e { Error::DuplicateAttributeId { attribute_id, group_ids } => attribute_id == k && group_ids@ == definers(names, gs, k), _ => false } }
/// exactly one error for each attribute that two or more groups define
pub open spec fn defs_reported(names: Seq<String>, gs: Seq<Group>, ks: Seq<String>, es: Seq<Error>) -> bool {
    &&& ks.no_duplicates() &&& ks.len() == es.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> def_error(names, gs, #[trigger] ks[i], es[i])
    &&& forall|k: String| #[trigger] ks.contains(k) == (definers(names, gs, k).len() > 1) }
/// what the index holds once `gs` has been read, and, of the last group, the first `n` attributes
pub open spec fn def_index(names: Seq<String>, gs: Seq<Group>, x: Seq<String>, m: Map<String, Vec<String>>) -> bool {
    &&& forall|a: String| #[trigger] m.contains_key(a) == (definers(names, gs, a).len() > 0)
    &&& forall|a: String| #[trigger] m.contains_key(a) ==> m[a]@ == definers(names, gs, a) }
pub open spec fn part_of(names: Seq<String>, gs: Seq<Group>, g: Group, n: int, a: String) -> Seq<String> { definers(names, gs, a) + defs_in(names, g, n, a) }
pub open spec fn part_index(names: Seq<String>, gs: Seq<Group>, g: Group, n: int, m: Map<String, Vec<String>>) -> bool {
    &&& forall|a: String| #[trigger] m.contains_key(a) == (part_of(names, gs, g, n, a).len() > 0)
    &&& forall|a: String| #[trigger] m.contains_key(a) ==> m[a]@ == part_of(names, gs, g, n, a) }
pub proof fn lemma_defs_none(names: Seq<String>, gs: Seq<Group>, i: int, m: Map<String, Vec<String>>) requires 0 <= i < gs.len(), def_index(names, gs.take(i), Seq::empty(), m)
    ensures part_index(names, gs.take(i), gs[i], 0, m) {
    assert forall|a: String| #[trigger] part_of(names, gs.take(i), gs[i], 0, a) == definers(names, gs.take(i), a) by { assert(part_of(names, gs.take(i), gs[i], 0, a) =~= definers(names, gs.take(i), a)); } }
pub proof fn lemma_defs_group(names: Seq<String>, gs: Seq<Group>, i: int, m: Map<String, Vec<String>>) requires 0 <= i < gs.len(),
        (if gs[i].type_ == GroupType::AttributeGroup { part_index(names, gs.take(i), gs[i], gs[i].attributes@.len() as int, m) } else { def_index(names, gs.take(i), Seq::empty(), m) })
    ensures def_index(names, gs.take(i + 1), Seq::empty(), m) {
    let b = gs.take(i + 1); assert(b.drop_last() =~= gs.take(i)); assert(b.last() == gs[i]); }
pub proof fn lemma_part_step(names: Seq<String>, gs: Seq<Group>, g: Group, n: int, m0: Map<String, Vec<String>>, m: Map<String, Vec<String>>)
    requires 0 <= n < g.attributes@.len(), part_index(names, gs, g, n, m0),
        ({ let a = names[g.attributes@[n].0 as int]; if g.lineage is Some && !g.lineage->0.attributes.m@.contains_key(a) { m == m0.insert(a, m[a]) && m[a]@ == (if m0.contains_key(a) { m0[a]@ } else { Seq::empty() }).push(g.id) } else { m == m0 } })
    ensures part_index(names, gs, g, n + 1, m) {
    let x = names[g.attributes@[n].0 as int];
    assert forall|a: String| #[trigger] part_of(names, gs, g, n + 1, a) == (if a == x && g.lineage is Some && !g.lineage->0.attributes.m@.contains_key(a) { part_of(names, gs, g, n, a).push(g.id) } else { part_of(names, gs, g, n, a) }) by {
        assert(part_of(names, gs, g, n + 1, a) =~= (if a == x && g.lineage is Some && !g.lineage->0.attributes.m@.contains_key(a) { part_of(names, gs, g, n, a).push(g.id) } else { part_of(names, gs, g, n, a) })); }
    if !m0.contains_key(x) { assert(part_of(names, gs, g, n, x) =~= Seq::empty()); } }
//@fn crates/weaver_resolver/src/registry.rs check_root_attribute_id_duplicates
    requires forall|i: int, j: int| 0 <= i < registry.groups@.len() && 0 <= j < registry.groups@[i].attributes@.len() ==> (#[trigger] registry.groups@[i].attributes@[j]).0 < attr_name_index@.len()
    ensures extended(final(errors)@, old(errors)@), exists|ks: Seq<String>| #[trigger] defs_reported(attr_name_index@, registry.groups@, ks, since(final(errors)@, old(errors)@))
//@at start
    let ghost gs = registry.groups@; let ghost names = attr_name_index@; let ghost e0 = errors@; let ghost mut ks = Seq::<String>::empty(); let ghost mut m = Map::<String, Vec<String>>::empty();
//@loop 0
    refs_of(__s0@, gs), gs == registry.groups@, names == attr_name_index@, errors@ == e0,
    forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gs[i].attributes@.len() ==> (#[trigger] gs[i].attributes@[j]).0 < names.len(),
    def_index(names, gs.take(__i0 as int), Seq::empty(), groups_by_root_attr_id.m@),
//@at loop0.start
    let ghost g = gs[__i0 - 1];
    proof { lemma_defs_none(names, gs, __i0 - 1, groups_by_root_attr_id.m@); }
//@loop 1
    refs_of(__s1@, g.attributes@), 0 < __i0 <= gs.len(), g == gs[__i0 - 1], *group == g, names == attr_name_index@, errors@ == e0, forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gs[i].attributes@.len() ==> (#[trigger] gs[i].attributes@[j]).0 < names.len(),
    part_index(names, gs.take(__i0 - 1), g, __i1 as int, groups_by_root_attr_id.m@),
//@at loop1.start
    let ghost k0 = groups_by_root_attr_id.m@;
//@at loop1.end
    proof { lemma_part_step(names, gs.take(__i0 - 1), g, __i1 - 1, k0, groups_by_root_attr_id.m@); }
//@at loop0.end
    proof { lemma_defs_group(names, gs, __i0 - 1, groups_by_root_attr_id.m@); }
//@at loop0.after
    proof { assert(gs.take(gs.len() as int) =~= gs); m = groups_by_root_attr_id.m@; assert(e0.take(e0.len() as int) =~= e0); }
//@loop 2
    enumerates_map(__s2@, m), def_index(names, gs, Seq::empty(), m), errors@ == e0, ks.no_duplicates(), ks.len() == __a2@.len(),
    forall|i: int| 0 <= i < ks.len() ==> def_error(names, gs, #[trigger] ks[i], __a2@[i]),
    forall|k: String| #[trigger] ks.contains(k) == (exists|j: int| 0 <= j < __i2 && (#[trigger] __s2@[j]).0 == k && __s2@[j].1@.len() > 1),
//@at loop2.start
    let ghost ks0 = ks;
//@at loop2.end
    proof { let j = __i2 - 1; let k = __s2@[j].0; let big = __s2@[j].1@.len() > 1;
        if big { ks = ks.push(k);
            assert(!ks0.contains(k)) by { if ks0.contains(k) { let q = choose|q: int| 0 <= q < __i2 - 1 && (#[trigger] __s2@[q]).0 == k && __s2@[q].1@.len() > 1; } } }
        assert forall|x: String| #[trigger] ks.contains(x) == (exists|q: int| 0 <= q < __i2 && (#[trigger] __s2@[q]).0 == x && __s2@[q].1@.len() > 1) by {
            if ks0.contains(x) { let w = ks0.index_of(x); assert(ks[w] == x); }
            if big && x == k { assert(ks[ks.len() - 1] == k); assert(__s2@[j].0 == k); }
            if ks.contains(x) && !(big && x == k) { let w = choose|w: int| 0 <= w < ks.len() && ks[w] == x; assert(ks0[w] == x); } } }
//@at loop2.after
    proof { assert forall|k: String| #[trigger] ks.contains(k) == (definers(names, gs, k).len() > 1) by {
            if definers(names, gs, k).len() > 1 { assert(m.contains_key(k)); let j = choose|j: int| 0 <= j < __s2@.len() && #[trigger] __s2@[j].0 == k; assert(__s2@[j].1@.len() > 1); } }
        assert(defs_reported(names, gs, ks, __a2@)); }
//@loop 3
    defs_reported(names, gs, ks, __s3@), extended(errors@, e0), since(errors@, e0) == __s3@.take(__i3 as int),
//@at loop3.before
    proof { assert(since(errors@, e0) =~= __s3@.take(0)); }
//@at loop3.start
    let ghost es0 = errors@;
//@at loop3.end
    proof { assert(since(errors@, e0) =~= __s3@.take(__i3 as int)); assert(errors@.take(e0.len() as int) =~= es0.take(e0.len() as int)); }
//@at loop3.after
    proof { assert(__s3@.take(__s3@.len() as int) =~= __s3@); }
//@end

// ------------------------------------------------------------------ one v2 id, two groups
pub open spec fn slot_of(g: Group) -> Option<(String, String)> { match v2_id(g) { Some(x) => Some((type_text(g.type_), x.0)), None => None } }
/// the groups that take the id in the namespace of their type
pub open spec fn takers(gs: Seq<Group>, k: (String, String)) -> Seq<Group> decreases gs.len() { if gs.len() == 0 { Seq::empty() } else { let r = takers(gs.drop_last(), k); if slot_of(gs.last()) == Some(k) { r.push(gs.last()) } else { r } } }
pub open spec fn ids_differ(ms: Seq<Group>) -> bool { exists|i: int, j: int| 0 <= i < ms.len() && 0 <= j < ms.len() && (#[trigger] ms[i]).id != (#[trigger] ms[j]).id }
pub open spec fn has_id(ms: Seq<Group>, n: String) -> bool { exists|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).id == n }
pub open spec fn has_prov(ms: Seq<Group>, p: Provenance) -> bool { exists|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).lineage is Some && ms[i].lineage->0.provenance == p }
pub open spec fn collision(ms: Seq<Group>, k: (String, String), e: Error) -> bool { match e {
    Error::CollidingV2SignalId { signal_id, group_ids, provenances } => signal_id == k.1 && group_ids@.no_duplicates() && provenances@.no_duplicates()
        && (forall|n: String| #[trigger] group_ids@.contains(n) == has_id(ms, n)) && (forall|p: Provenance| #[trigger] provenances@.contains(p) == has_prov(ms, p)),
    _ => false } }
/// exactly one error for each id that groups of different ids take
pub open spec fn collisions_reported(gs: Seq<Group>, ks: Seq<(String, String)>, es: Seq<Error>) -> bool {
    &&& ks.no_duplicates() &&& ks.len() == es.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> collision(takers(gs, ks[i]), #[trigger] ks[i], es[i])
    &&& forall|k: (String, String)| #[trigger] ks.contains(k) == ids_differ(takers(gs, k)) }
pub open spec fn slot_index(gs: Seq<Group>, m: Map<(String, String), Vec<&Group>>) -> bool {
    &&& forall|k: (String, String)| #[trigger] m.contains_key(k) == (takers(gs, k).len() > 0)
    &&& forall|k: (String, String)| #[trigger] m.contains_key(k) ==> refs_of(m[k]@, takers(gs, k)) }
pub proof fn lemma_slot_step(gs: Seq<Group>, i: int, m0: Map<(String, String), Vec<&Group>>, m: Map<(String, String), Vec<&Group>>)
    requires 0 <= i < gs.len(), slot_index(gs.take(i), m0),
        match slot_of(gs[i]) { None => m == m0, Some(k) => m == m0.insert(k, m[k]) && m[k]@ == (if m0.contains_key(k) { m0[k]@ } else { Seq::empty() }).push(m[k]@.last()) && *m[k]@.last() == gs[i] }
    ensures slot_index(gs.take(i + 1), m) {
    let a = gs.take(i); let b = gs.take(i + 1); assert(b.drop_last() =~= a); assert(b.last() == gs[i]);
    assert forall|k: (String, String)| #[trigger] m.contains_key(k) implies refs_of(m[k]@, takers(b, k)) by {
        if slot_of(gs[i]) == Some(k) { if m0.contains_key(k) { } else { assert(takers(a, k).len() == 0); } } else { assert(m0.contains_key(k)); } } }
/// two ids among the members: the list of distinct ids has two entries
pub proof fn lemma_two(ms: Seq<Group>, ids: Seq<String>) requires ids.no_duplicates(), forall|n: String| #[trigger] ids.contains(n) == has_id(ms, n) ensures (ids.len() >= 2) == ids_differ(ms) {
    if ids.len() >= 2 { assert(ids.contains(ids[0])); assert(ids.contains(ids[1])); let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).id == ids[0]; let j = choose|j: int| 0 <= j < ms.len() && (#[trigger] ms[j]).id == ids[1]; assert(ms[i].id != ms[j].id); }
    if ids_differ(ms) { let (i, j) = choose|i: int, j: int| 0 <= i < ms.len() && 0 <= j < ms.len() && (#[trigger] ms[i]).id != (#[trigger] ms[j]).id;
        assert(has_id(ms, ms[i].id)); assert(has_id(ms, ms[j].id)); assert(ids.contains(ms[i].id)); assert(ids.contains(ms[j].id)); let x = ids.index_of(ms[i].id); let y = ids.index_of(ms[j].id); assert(x != y); } }
pub open spec fn slot_seen(gs: Seq<Group>, s: Seq<((String, String), Vec<&Group>)>, n: int, k: (String, String)) -> bool { ids_differ(takers(gs, k)) && exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k }
pub proof fn lemma_slot_seen(gs: Seq<Group>, s: Seq<((String, String), Vec<&Group>)>, n: int) requires 0 <= n < s.len()
    ensures forall|k: (String, String)| #[trigger] slot_seen(gs, s, n + 1, k) == (slot_seen(gs, s, n, k) || (k == s[n].0 && ids_differ(takers(gs, k)))) {
    assert forall|k: (String, String)| #[trigger] slot_seen(gs, s, n + 1, k) == (slot_seen(gs, s, n, k) || (k == s[n].0 && ids_differ(takers(gs, k)))) by {
        if slot_seen(gs, s, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == k; assert(s[j].0 == k); } if k == s[n].0 { assert(s[n].0 == k); } } }
pub proof fn lemma_prov_step(ms: Seq<Group>, i: int) requires 0 <= i < ms.len()
    ensures forall|p: Provenance| #[trigger] has_prov(ms.take(i + 1), p) == (has_prov(ms.take(i), p) || (ms[i].lineage is Some && ms[i].lineage->0.provenance == p)) {
    let a = ms.take(i); let b = ms.take(i + 1);
    assert forall|p: Provenance| #[trigger] has_prov(b, p) == (has_prov(a, p) || (ms[i].lineage is Some && ms[i].lineage->0.provenance == p)) by {
        if has_prov(a, p) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).lineage is Some && a[j].lineage->0.provenance == p; assert(b[j] == a[j]); }
        if ms[i].lineage is Some && ms[i].lineage->0.provenance == p { assert(b[i] == ms[i]); }
        if has_prov(b, p) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).lineage is Some && b[j].lineage->0.provenance == p; if j < i { assert(a[j] == b[j]); } } } }
//@fn crates/weaver_resolver/src/registry.rs check_v2_signal_id_collisions
    ensures extended(final(errors)@, old(errors)@), exists|ks: Seq<(String, String)>| #[trigger] collisions_reported(registry.groups@, ks, since(final(errors)@, old(errors)@))
//@at start
    let ghost gs = registry.groups@; let ghost e0 = errors@; let ghost mut ks = Seq::<(String, String)>::empty(); let ghost mut m = Map::<(String, String), Vec<&Group>>::empty();
//@loop 0
    refs_of(__s0@, gs), gs == registry.groups@, errors@ == e0, slot_index(gs.take(__i0 as int), by_signal.m@),
//@at loop0.start
    let ghost k0 = by_signal.m@;
//@at loop0.end
    proof { lemma_slot_step(gs, __i0 - 1, k0, by_signal.m@); }
//@at loop0.after
    proof { assert(gs.take(gs.len() as int) =~= gs); m = by_signal.m@; assert(e0.take(e0.len() as int) =~= e0); }
//@loop 1
    enumerates_map(__s1@, m), slot_index(gs, m), extended(errors@, e0), ks.no_duplicates(), ks.len() == errors@.len() - e0.len(),
    forall|i: int| 0 <= i < ks.len() ==> collision(takers(gs, ks[i]), #[trigger] ks[i], errors@[e0.len() + i]),
    forall|k: (String, String)| #[trigger] ks.contains(k) == slot_seen(gs, __s1@, __i1 as int, k),
//@at loop1.start
    let ghost es0 = errors@; let ghost ks0 = ks; let ghost k = __s1@[__i1 - 1].0; let ghost ms = takers(gs, k); let ghost mut ids = Seq::<String>::empty();
    proof { assert(m.contains_key(k) && refs_of(m[k]@, ms)); }
//@loop 3
    refs_of(__s3@, groups@), refs_of(groups@, ms), __a3@.len() == __i3, forall|i: int| 0 <= i < __i3 ==> (#[trigger] __a3@[i]) == ms[i].id,
//@at loop3.after
    proof { ids = __a3@; assert forall|n: String| #[trigger] ids.to_set().contains(n) == has_id(ms, n) by { if ids.contains(n) { let i = ids.index_of(n); assert(ms[i].id == n); } if has_id(ms, n) { let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).id == n; assert(ids[i] == n); } } }
//@loop 2
    __a2@ == __s2@.take(__i2 as int), errors@ == es0,
//@at loop2.end
    proof { assert(__a2@ =~= __s2@.take(__i2 as int)); }
//@at loop2.after
    proof { assert(__s2@.take(__s2@.len() as int) =~= __s2@); assert forall|n: String| #[trigger] __a2@.contains(n) == has_id(ms, n) by { assert(__a2@.to_set().contains(n) == ids.to_set().contains(n)); }
        lemma_two(ms, __a2@); lemma_slot_seen(gs, __s1@, __i1 - 1); }
//@loop 5
    refs_of(__s5@, groups@), refs_of(groups@, ms), errors@ == es0, forall|p: Provenance| #[trigger] __a5@.contains(p) == has_prov(ms.take(__i5 as int), p),
//@at loop5.start
    let ghost a5 = __a5@;
//@at loop5.end
    proof { lemma_prov_step(ms, __i5 - 1);
        assert forall|p: Provenance| #[trigger] __a5@.contains(p) == has_prov(ms.take(__i5 as int), p) by { if a5.contains(p) { let i = a5.index_of(p); assert(__a5@[i] == p); } if __a5@.len() > a5.len() && __a5@.last() == p { assert(__a5@[a5.len() as int] == p); } if __a5@.contains(p) { let i = __a5@.index_of(p); if i < a5.len() { assert(a5[i] == p); } } } }
//@at loop5.after
    proof { assert(ms.take(ms.len() as int) =~= ms); }
//@loop 4
    __a4@ == __s4@.take(__i4 as int), errors@ == es0, __s4@.no_duplicates(), forall|p: Provenance| #[trigger] __s4@.to_set().contains(p) == has_prov(ms, p),
//@at loop4.end
    proof { assert(__a4@ =~= __s4@.take(__i4 as int)); }
//@at loop4.after
    proof { assert(__s4@.take(__s4@.len() as int) =~= __s4@); assert forall|p: Provenance| #[trigger] __a4@.contains(p) == has_prov(ms, p) by { assert(__s4@.to_set().contains(p) == has_prov(ms, p)); } }
//@at loop1.end
    proof { ks = ks.push(k);
        assert(!ks0.contains(k)) by { if ks0.contains(k) { assert(slot_seen(gs, __s1@, __i1 - 1, k)); let q = choose|q: int| 0 <= q < __i1 - 1 && (#[trigger] __s1@[q]).0 == k; } }
        assert(errors@.len() == es0.len() + 1 && errors@.drop_last() =~= es0); assert(collision(ms, k, errors@.last()));
        assert(errors@.take(e0.len() as int) =~= es0.take(e0.len() as int));
        assert forall|x: (String, String)| #[trigger] ks.contains(x) == slot_seen(gs, __s1@, __i1 as int, x) by {
            if ks0.contains(x) { let w = ks0.index_of(x); assert(ks[w] == x); } if x == k { assert(ks[ks.len() - 1] == k); } if ks.contains(x) && x != k { let w = ks.index_of(x); assert(ks0[w] == x); } } }
//@at loop1.after
    proof { assert forall|x: (String, String)| #[trigger] ks.contains(x) == ids_differ(takers(gs, x)) by { if ids_differ(takers(gs, x)) { assert(m.contains_key(x)); let j = choose|j: int| 0 <= j < __s1@.len() && #[trigger] __s1@[j].0 == x; assert(slot_seen(gs, __s1@, __i1 as int, x)); } }
        assert(collisions_reported(gs, ks, since(errors@, e0))); }
//@end

// ------------------------------------------------------------------ the pipeline runs every check
// the stages before the checks: their contracts are A01's, A02's and A13's; here only what the checks need
pub trait SchemaCacheLookup {}
//@path crate::SchemaCacheLookup => SchemaCacheLookup
pub use Error::{DuplicateGroupId, DuplicateGroupName, DuplicateMetricName};
pub enum WResult<T, E> { Ok(T), OkWithNFEs(T, Vec<E>), FatalErr(E) }
pub struct SemConvSpecV1 { pub s: Ghost<int> }
pub struct GroupSpec { pub s: Ghost<int> }
pub struct SemConvSpecV1WithProvenance { pub spec: SemConvSpecV1, pub provenance: Provenance }
pub struct GroupSpecWithProvenance { pub spec: GroupSpec, pub provenance: Provenance }
impl SemConvSpecWithProvenance { #[verifier::external_body] pub fn into_v1(self) -> (r: SemConvSpecV1WithProvenance) { unimplemented!() } }
impl SemConvSpecV1 { #[verifier::external_body] pub fn groups(&self) -> (r: &Vec<GroupSpec>) { unimplemented!() } }
impl Glob { #[verifier::external_body] pub fn new(s: &String) -> (r: Result<Glob, String>) { unimplemented!() } }
impl Provenance { #[verifier::external_body] pub fn new(u: SchemaUrl, p: &String) -> (r: Provenance) { unimplemented!() } }
impl RegistryRepo { #[verifier::external_body] pub fn schema_url(&self) -> (r: &SchemaUrl) { unimplemented!() } #[verifier::external_body] pub fn registry_path_repr(&self) -> (r: &String) { unimplemented!() } }
impl Registry { #[verifier::external_body] pub fn new(u: &String) -> (r: Registry) { unimplemented!() } }
#[verifier::external_body] pub fn group_from_spec(g: GroupSpecWithProvenance) -> (r: UnresolvedGroup) { unimplemented!() }
#[verifier::external_body] pub fn resolve_prefix_on_attributes(ureg: &mut UnresolvedRegistry) -> (r: Result<(), Error>) { unimplemented!() }
#[verifier::external_body] pub fn resolve_extends_references(ureg: &mut UnresolvedRegistry) -> (r: Result<(), Error>) { unimplemented!() }
#[verifier::external_body] pub fn resolve_attribute_references<C: SchemaCacheLookup>(ureg: &mut UnresolvedRegistry, c: &mut AttributeCatalog, l: &C) -> (r: Result<(), Error>) { unimplemented!() }
#[verifier::external_body] pub fn resolve_dependency_imports<C: SchemaCacheLookup>(ureg: &mut UnresolvedRegistry, c: &mut AttributeCatalog, l: &C, errors: &mut Vec<Error>) -> (r: Result<(), Error>) { unimplemented!() }
#[verifier::external_body] pub fn resolve_entity_associations(ureg: &mut UnresolvedRegistry) -> (r: Result<(), Error>) { unimplemented!() }
pub open spec fn refs_named(gs: Seq<Group>, names: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gs[i].attributes@.len() ==> (#[trigger] gs[i].attributes@[j]).0 < names.len() }
pub uninterp spec fn cat_names(c: AttributeCatalog) -> Seq<String>;
#[verifier::external_body] pub fn cleanup_and_stabilize_catalog_and_registry(c: &mut AttributeCatalog, ureg: UnresolvedRegistry) -> (r: Registry) ensures refs_named(r.groups@, cat_names(*final(c))) { unimplemented!() }
impl AttributeCatalog { #[verifier::external_body] pub fn attribute_name_index(&self) -> (r: Vec<String>) ensures r@ == cat_names(*self) { unimplemented!() } }
impl Display for String { open spec fn vtext(self) -> String { self } #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() } }
impl Hash for String {}
impl Eq for String {}
pub open spec fn attrs_checked(names: Seq<String>, gs: Seq<Group>, es: Seq<Error>) -> bool { exists|ks: Seq<String>| #[trigger] defs_reported(names, gs, ks, es) }
pub open spec fn v2_checked(gs: Seq<Group>, es: Seq<Error>) -> bool { exists|ks: Seq<(String, String)>| #[trigger] collisions_reported(gs, ks, es) }
/// the errors of a resolution: what came before, then what each check has to say
pub open spec fn all_checked(gs: Seq<Group>, names: Seq<String>, es: Seq<Error>, cut: Seq<int>) -> bool {
    &&& cut.len() == 6 &&& 0 <= cut[0] <= cut[1] <= cut[2] <= cut[3] <= cut[4] <= cut[5] == es.len()
    &&& name_checked(Named::Id, gs, es.subrange(cut[0], cut[1])) &&& name_checked(Named::Metric, gs, es.subrange(cut[1], cut[2])) &&& name_checked(Named::Name, gs, es.subrange(cut[2], cut[3]))
    &&& attrs_checked(names, gs, es.subrange(cut[3], cut[4])) &&& v2_checked(gs, es.subrange(cut[4], cut[5])) }
//@fn crates/weaver_resolver/src/registry.rs resolve_registry_with_dependencies
    ensures match r { WResult::FatalErr(_) => true, WResult::Ok(_) => false, WResult::OkWithNFEs(g, es) => exists|cut: Seq<int>| #[trigger] all_checked(g.groups@, cat_names(*final(attr_catalog)), es@, cut) }
//@closure check_uniqueness.0.2 -> Option<String>
    ensures result == named(Named::Id, *group)
//@closure check_uniqueness.0.3 -> Error
    ensures dup_error(Named::Id, group_id, provenances@.to_set(), result)
//@closure check_uniqueness.1.2 -> Option<String>
    ensures result == named(Named::Metric, *group)
//@closure check_uniqueness.1.3 -> Error
    ensures dup_error(Named::Metric, metric_name, provenances@.to_set(), result)
//@closure check_uniqueness.2.2 -> Option<String>
    ensures result == named(Named::Name, *group)
//@closure check_uniqueness.2.3 -> Error
    ensures dup_error(Named::Name, group_name, provenances@.to_set(), result)
//@at scope.attr_name_index.end
    proof { let es = errors@; let cut = seq![c0.len() as int, c1.len() as int, c2.len() as int, c3.len() as int, c4.len() as int, es.len() as int]; assert(v2_checked(result.groups@, since(es, c4)));
        assert(es.take(c4.len() as int) == c4); assert(c4.take(c3.len() as int) == c3); assert(c3.take(c2.len() as int) == c2); assert(c2.take(c1.len() as int) == c1);
        assert(es.subrange(cut[4], cut[5]) =~= since(es, c4)); assert(es.subrange(cut[3], cut[4]) =~= since(c4, c3)); assert(es.subrange(cut[2], cut[3]) =~= since(c3, c2)); assert(es.subrange(cut[1], cut[2]) =~= since(c2, c1)); assert(es.subrange(cut[0], cut[1]) =~= since(c1, c0));
        assert(all_checked(result.groups@, cat_names(*attr_catalog), es, cut)); let w = WResult::<Registry, Error>::OkWithNFEs(result, errors); assert(w->OkWithNFEs_0 == result && w->OkWithNFEs_1 == errors); }
//@at let.attr_name_index
    let ghost c0 = errors@;
//@at call.check_uniqueness.0
    let ghost c1 = errors@; proof { assert(name_checked(Named::Id, result.groups@, since(c1, c0))); }
//@at call.check_uniqueness.1
    let ghost c2 = errors@; proof { assert(name_checked(Named::Metric, result.groups@, since(c2, c1))); }
//@at call.check_uniqueness.2
    let ghost c3 = errors@; proof { assert(name_checked(Named::Name, result.groups@, since(c3, c2))); }
//@at call.check_root_attribute_id_duplicates.0
    let ghost c4 = errors@; proof { assert(attrs_checked(cat_names(*attr_catalog), result.groups@, since(c4, c3))); }
//@end
} // verus!
fn main() {}
