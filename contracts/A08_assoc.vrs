//@include prelude.vrs
verus! {
//@include live_model.vrs
//@include live_checker.vrs
//@path serde_json::json => json
pub enum Error { EntityNotFound { entity_type: String, registry: Option<String> } }
impl SchemaUrl { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
//@type crates/weaver_live_check/src/advice/type_advisor.rs EntityDef sub=Entity:V2Entity
//@type crates/weaver_live_check/src/advice/type_advisor.rs AssocNode
//@type crates/weaver_live_check/src/advice/type_advisor.rs EntityKey
//@type crates/weaver_live_check/src/advice/type_advisor.rs AssocEval
// ---- the attributes an entity wants of the resource
pub struct Want { pub key: String, pub ty: AttributeType, pub level: RequirementLevel }
pub open spec fn wants1(v: Seq<Attribute>) -> Seq<Want> { v.map_values(|a: Attribute| Want { key: a.name, ty: a.type_, level: a.requirement_level }) }
pub open spec fn wants2(v: Seq<EntityAttribute>) -> Seq<Want> { v.map_values(|a: EntityAttribute| Want { key: a.base.key, ty: a.base.type_, level: a.requirement_level }) }
pub enum EDef { V1(ResolvedGroup), V2(V2Entity) }
pub open spec fn edef(e: EntityDef) -> EDef { match e { EntityDef::V1(g) => EDef::V1(*g), EntityDef::V2(e) => EDef::V2(*e) } }
pub open spec fn ewants(e: EDef) -> Seq<Want> { match e { EDef::V1(g) => wants1(g.attributes@), EDef::V2(e) => wants2(e.identity@) + wants2(e.description@) } }
pub open spec fn etype(e: EDef) -> Seq<char> { match e { EDef::V1(g) => match g.name { Some(n) => n@, None => Seq::empty() }, EDef::V2(e) => e.type_.0@ } }
/// the attribute is on the resource: by its name or, where it is a template, by a name that begins with it
pub open spec fn on_resource(have: Seq<SampleAttribute>, k: String, template: bool) -> bool { exists|i: int| 0 <= i < have.len() && (if template { k@.is_prefix_of((#[trigger] have[i]).name@) } else { have[i].name == k }) }
pub open spec fn lacking(l: RequirementLevel) -> (FindingId, FindingLevel) { match l {
    RequirementLevel::Basic(BasicRequirementLevelSpec::Required) => (FindingId::EntityRequiredAttributeNotPresent, FindingLevel::Violation),
    RequirementLevel::Basic(BasicRequirementLevelSpec::Recommended) | RequirementLevel::Recommended { .. } => (FindingId::EntityRecommendedAttributeNotPresent, FindingLevel::Improvement),
    RequirementLevel::Basic(BasicRequirementLevelSpec::OptIn) | RequirementLevel::OptIn { .. } => (FindingId::EntityOptInAttributeNotPresent, FindingLevel::Information),
    RequirementLevel::ConditionallyRequired { .. } => (FindingId::EntityConditionallyRequiredAttributeNotPresent, FindingLevel::Information) } }
pub open spec fn lacks(want: Seq<Want>, ty: Seq<char>, have: Seq<SampleAttribute>, p: Sample, n: int) -> Seq<FView> decreases n {
    if n <= 0 { seq![] } else { let a = want[n - 1]; let r = lacks(want, ty, have, p, n - 1);
        if on_resource(have, a.key, a.ty is Template) { r } else { r.push(finding(lacking(a.level).0, lacking(a.level).1, ctx2("attribute_key"@, jstr(a.key@), "entity_type"@, jstr(ty)), p)) } } }
pub open spec fn entity_says(e: EDef, have: Seq<SampleAttribute>, p: Sample) -> Seq<FView> { lacks(ewants(e), etype(e), have, p, ewants(e).len() as int) }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs check_entity_resource_attributes
    ensures all_say(r@) =~= entity_says(edef(entity), resource_attributes@, *parent_signal)
//@at start
    let ghost whole = edef(entity);
//@loop 0 acc=HashSet<&String>
    forall|x: &String| __a0.s@.contains(x) <==> exists|i: int| 0 <= i < __i0 && (#[trigger] resource_attributes@[i]).name == *x,
//@at loop0.start
    proof { assert(__s0@[__i0 - 1].name == resource_attributes@[__i0 - 1].name); }
//@loop 1
    whole == EDef::V1(*group), entity_type@ =~= etype(whole), all_say(advice_list@) =~= lacks(ewants(whole), etype(whole), resource_attributes@, *parent_signal, __i1 as int),
//@loop 2
    !__a2, forall|j: int| 0 <= j < __i2 ==> !attr.name@.is_prefix_of((#[trigger] resource_attributes@[j]).name@),
//@at loop2.start
    proof { assert(__s2@[__i2 - 1].name == resource_attributes@[__i2 - 1].name); }
//@loop 3
    whole == EDef::V2(*entity), all_say(advice_list@) =~= lacks(ewants(whole), etype(whole), resource_attributes@, *parent_signal, __i3 as int),
//@loop 4
    !__a4, forall|j: int| 0 <= j < __i4 ==> !attr.base.key@.is_prefix_of((#[trigger] resource_attributes@[j]).name@),
//@at loop4.start
    proof { assert(__s4@[__i4 - 1].name == resource_attributes@[__i4 - 1].name); }
//@end
// ---- where an entity named by an association is defined
pub enum EKey { Name(String), Ref(EntityRef) }
pub open spec fn ekey(k: EntityKey) -> EKey { match k { EntityKey::Name(n) => EKey::Name(*n), EntityKey::Ref(r) => EKey::Ref(*r) } }
pub open spec fn ktype(k: EKey) -> String { match k { EKey::Name(n) => n, EKey::Ref(r) => r.type_.0 } }
pub open spec fn first_entity(s: Seq<V2Entity>, n: String) -> Option<V2Entity> decreases s.len() {
    if s.len() == 0 { None } else if s[0].type_.0 == n { Some(s[0]) } else { first_entity(s.skip(1), n) } }
pub open spec fn first_refinement(s: Seq<EntityRefinement>, n: String) -> Option<V2Entity> decreases s.len() {
    if s.len() == 0 { None } else if s[0].id.0 == n { Some(s[0].entity) } else { first_refinement(s.skip(1), n) } }
pub open spec fn first_registry(s: Seq<ForgeResolvedRegistry>, u: SchemaUrl) -> Option<ForgeResolvedRegistry> decreases s.len() {
    if s.len() == 0 { None } else if same_as(s[0].schema_url, u) { Some(s[0]) } else { first_registry(s.skip(1), u) } }
pub open spec fn same_as(a: SchemaUrl, b: SchemaUrl) -> bool { a == b }
// a SignalId stands for its text: `Deref` of SignalId is its field 0, written out by //@subst below
/// what a registry itself defines under a name: an entity, else a refinement of one
pub open spec fn defined_in(r: ForgeResolvedRegistry, n: String) -> Option<V2Entity> { match first_entity(r.registry.entities@, n) { Some(e) => Some(e), None => first_refinement(r.refinements.entities@, n) } }
/// a reference is read from the registry it names, and from no other
pub open spec fn referred(r: ForgeResolvedRegistry, e: EntityRef) -> Option<V2Entity> { match e.provenance.source {
    None => defined_in(r, e.type_.0), Some(u) => match first_registry(r.dependencies@, u) { Some(d) => defined_in(d, e.type_.0), None => None } } }
pub open spec fn vdef(v: VersionedEntity) -> EDef { match v { VersionedEntity::V1(g) => EDef::V1(*g), VersionedEntity::V2(e) => EDef::V2(*e) } }
pub open spec fn entity_at(c: LiveChecker, k: EKey) -> Option<EDef> { match k {
    EKey::Name(n) => if c.semconv_entities.m@.contains_key(n) { Some(vdef(c.semconv_entities.m@[n])) } else { None },
    EKey::Ref(e) => match *c.registry { VersionedRegistry::V2(r) => match referred(*r, e) { Some(x) => Some(EDef::V2(x)), None => None }, VersionedRegistry::V1(_) => None } } }
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::find_entity
    ensures (match r { Some(x) => self.semconv_entities.m@.contains_key(*entity_type) && self.semconv_entities.m@[*entity_type] == *x, None => !self.semconv_entities.m@.contains_key(*entity_type) })
//@end
//@fn crates/weaver_forge/src/v2/registry.rs ForgeResolvedRegistry::defined_entity
    ensures (match r { Some(x) => defined_in(*self, *name) == Some(*x), None => defined_in(*self, *name) is None })
//@subst Option<&Entity> => Option<&V2Entity>
//@subst &*entity.type_ => &entity.type_.0
//@subst &*refinement.id => &refinement.id.0
//@loop 0
    __a0 is None, first_entity(self.registry.entities@, *name) == first_entity(self.registry.entities@.skip(__i0 as int), *name),
//@at loop0.before
    proof { assert(self.registry.entities@.skip(0) =~= self.registry.entities@); }
//@at loop0.start
    proof { assert(self.registry.entities@.skip(__i0 - 1).skip(1) =~= self.registry.entities@.skip(__i0 as int)); assert(self.registry.entities@.skip(__i0 - 1)[0] == self.registry.entities@[__i0 - 1]); }
//@loop 1
    __a1 is None, first_refinement(self.refinements.entities@, *name) == first_refinement(self.refinements.entities@.skip(__i1 as int), *name),
//@at loop1.before
    proof { assert(self.refinements.entities@.skip(0) =~= self.refinements.entities@); }
//@at loop1.start
    proof { assert(self.refinements.entities@.skip(__i1 - 1).skip(1) =~= self.refinements.entities@.skip(__i1 as int)); assert(self.refinements.entities@.skip(__i1 - 1)[0] == self.refinements.entities@[__i1 - 1]); }
//@end
//@fn crates/weaver_forge/src/v2/registry.rs ForgeResolvedRegistry::lookup_entity
    ensures (match r { Ok(x) => referred(*self, *entity_ref) == Some(*x), Err(_) => referred(*self, *entity_ref) is None })
//@subst Result<&Entity, Error> => Result<&V2Entity, Error>
//@subst (&entity_ref.type_) => (&entity_ref.type_.0)
//@loop 0
    __a0 is None, entity_ref.provenance.source == Some(*url), first_registry(self.dependencies@, *url) == first_registry(self.dependencies@.skip(__i0 as int), *url),
//@at loop0.before
    proof { assert(self.dependencies@.skip(0) =~= self.dependencies@); }
//@at loop0.start
    proof { assert(self.dependencies@.skip(__i0 - 1).skip(1) =~= self.dependencies@.skip(__i0 as int)); assert(self.dependencies@.skip(__i0 - 1)[0] == self.dependencies@[__i0 - 1]); }
//@end
//@fn crates/weaver_live_check/src/live_checker.rs LiveChecker::lookup_entity
    ensures (match r { Some(x) => entity_at(*self, EKey::Ref(*entity_ref)) == Some(EDef::V2(*x)), None => entity_at(*self, EKey::Ref(*entity_ref)) is None })
//@subst self.registry.as_ref() => (&*self.registry)
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs From<&'aVersionedEntity> for EntityDef<'a>::from
    ensures edef(r) == vdef(*entity)
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs EntityKey::entity_type
    ensures *r == ktype(ekey(self))
//@subst &entity_ref.type_ => &entity_ref.type_.0
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs EntityKey::lookup
    ensures (match r { Some(x) => entity_at(*live_checker, ekey(self)) == Some(edef(x)), None => entity_at(*live_checker, ekey(self)) is None })
//@end
// ---- association expressions
//@source rev
pub enum Tree { Leaf(EKey), OneOf(Seq<Tree>), AllOf(Seq<Tree>) }
pub trait AssocExpr: Sized { spec fn tree(&self) -> Tree;
    fn node(&self) -> (r: AssocNode<'_, Self>) ensures (match r { AssocNode::Ref(k) => self.tree() == Tree::Leaf(ekey(k)),
        AssocNode::OneOf(c) => self.tree() is OneOf && self.tree()->OneOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> #[trigger] c@[i].tree() == self.tree()->OneOf_0[i],
        AssocNode::AllOf(c) => self.tree() is AllOf && self.tree()->AllOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> #[trigger] c@[i].tree() == self.tree()->AllOf_0[i] }); }
pub open spec fn tree1(a: EntityAssociation) -> Tree decreases a { match a { EntityAssociation::Ref(n) => Tree::Leaf(EKey::Name(n)),
    EntityAssociation::OneOf { one_of } => Tree::OneOf(Seq::new(one_of@.len(), |i: int| if 0 <= i < one_of@.len() { tree1(one_of@[i]) } else { arbitrary() })),
    EntityAssociation::AllOf { all_of } => Tree::AllOf(Seq::new(all_of@.len(), |i: int| if 0 <= i < all_of@.len() { tree1(all_of@[i]) } else { arbitrary() })) } }
pub open spec fn tree2(a: V2EntityAssociation) -> Tree decreases a { match a { V2EntityAssociation::Ref(n) => Tree::Leaf(EKey::Ref(n)),
    V2EntityAssociation::OneOf { one_of } => Tree::OneOf(Seq::new(one_of@.len(), |i: int| if 0 <= i < one_of@.len() { tree2(one_of@[i]) } else { arbitrary() })),
    V2EntityAssociation::AllOf { all_of } => Tree::AllOf(Seq::new(all_of@.len(), |i: int| if 0 <= i < all_of@.len() { tree2(all_of@[i]) } else { arbitrary() })) } }
impl AssocExpr for EntityAssociation { open spec fn tree(&self) -> Tree { tree1(*self) } fn node(&self) -> (r: AssocNode<'_, Self>) { EntityAssociation_node(self) } }
impl AssocExpr for V2EntityAssociation { open spec fn tree(&self) -> Tree { tree2(*self) } fn node(&self) -> (r: AssocNode<'_, Self>) { V2EntityAssociation_node(self) } }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs AssocExpr for EntityAssociation::node free as=EntityAssociation_node
    ensures (match r { AssocNode::Ref(k) => tree1(*self_) == Tree::Leaf(ekey(k)),
        AssocNode::OneOf(c) => tree1(*self_) is OneOf && tree1(*self_)->OneOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> tree1(#[trigger] c@[i]) == tree1(*self_)->OneOf_0[i],
        AssocNode::AllOf(c) => tree1(*self_) is AllOf && tree1(*self_)->AllOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> tree1(#[trigger] c@[i]) == tree1(*self_)->AllOf_0[i] })
//@subst AssocNode<'_, Self> => AssocNode<'_, EntityAssociation>
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs AssocExpr for V2EntityAssociation::node free as=V2EntityAssociation_node
    ensures (match r { AssocNode::Ref(k) => tree2(*self_) == Tree::Leaf(ekey(k)),
        AssocNode::OneOf(c) => tree2(*self_) is OneOf && tree2(*self_)->OneOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> tree2(#[trigger] c@[i]) == tree2(*self_)->OneOf_0[i],
        AssocNode::AllOf(c) => tree2(*self_) is AllOf && tree2(*self_)->AllOf_0.len() == c@.len() && forall|i: int| 0 <= i < c@.len() ==> tree2(#[trigger] c@[i]) == tree2(*self_)->AllOf_0[i] })
//@subst AssocNode<'_, Self> => AssocNode<'_, V2EntityAssociation>
//@end
pub open spec fn trees<A: AssocExpr>(s: Seq<A>) -> Seq<Tree> { s.map_values(|a: A| a.tree()) }
pub open spec fn rtrees<'a, A: AssocExpr>(s: Seq<&'a A>) -> Seq<Tree> { s.map_values(|a: &'a A| (*a).tree()) }
/// every entity named in an expression, in the order they appear
pub open spec fn leaves(t: Tree) -> Seq<String> decreases t, 0int { match t { Tree::Leaf(k) => seq![ktype(k)], Tree::OneOf(s) => leaves_upto(s, s.len() as int), Tree::AllOf(s) => leaves_upto(s, s.len() as int) } }
pub open spec fn leaves_upto(s: Seq<Tree>, n: int) -> Seq<String> decreases s, n { if n <= 0 || n > s.len() { seq![] } else { leaves_upto(s, n - 1) + leaves(s[n - 1]) } }
/// what a stack of expressions, the next on top, still has to name
pub open spec fn to_name(s: Seq<Tree>) -> Seq<String> decreases s.len() { if s.len() == 0 { seq![] } else { leaves(s.last()) + to_name(s.drop_last()) } }
pub open spec fn rstrs<'a>(s: Seq<&'a String>) -> Seq<String> { s.map_values(|x: &'a String| *x) }
pub open spec fn flip(s: Seq<Tree>) -> Seq<Tree> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn nodes(t: Tree) -> nat decreases t, 0int { match t { Tree::Leaf(k) => 1, Tree::OneOf(s) => 1 + nodes_upto(s, s.len() as int), Tree::AllOf(s) => 1 + nodes_upto(s, s.len() as int) } }
pub open spec fn nodes_upto(s: Seq<Tree>, n: int) -> nat decreases s, n { if n <= 0 || n > s.len() { 0 } else { nodes_upto(s, n - 1) + nodes(s[n - 1]) } }
pub open spec fn nodes_left(s: Seq<Tree>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { nodes(s.last()) + nodes_left(s.drop_last()) } }
pub proof fn lemma_flip(base: Seq<Tree>, c: Seq<Tree>, n: int)
    requires 0 <= n <= c.len(),
    ensures leaves_upto(c, n) + to_name(base + flip(c).take(c.len() - n)) =~= leaves_upto(c, c.len() as int) + to_name(base),
        nodes_upto(c, n) + nodes_left(base + flip(c).take(c.len() - n)) == nodes_upto(c, c.len() as int) + nodes_left(base),
    decreases c.len() - n
{
    if n == c.len() { assert(base + flip(c).take(0) =~= base); }
    else {
        lemma_flip(base, c, n + 1);
        let prev = base + flip(c).take(c.len() - n - 1);
        let now = base + flip(c).take(c.len() - n);
        assert(now =~= prev.push(c[n]));
        assert(now.drop_last() =~= prev);
    }
}
pub proof fn lemma_pushed(base: Seq<Tree>, c: Seq<Tree>)
    ensures to_name(base + flip(c)) =~= leaves_upto(c, c.len() as int) + to_name(base), nodes_left(base + flip(c)) == nodes_upto(c, c.len() as int) + nodes_left(base),
{ lemma_flip(base, c, 0); assert(flip(c).take(c.len() as int) =~= flip(c)); }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs referenced_entities
    ensures rstrs(r@) =~= leaves_upto(trees(associations@), associations@.len() as int)
//@loop 0
    rtrees(__a0@) =~= flip(trees(associations@)).take(__i0 as int),
//@at let.stack
    let ghost mut prev = rtrees(stack@); let ghost all = leaves_upto(trees(associations@), associations@.len() as int);
    proof { assert(flip(trees(associations@)).take(associations@.len() as int) =~= flip(trees(associations@))); assert(Seq::<Tree>::empty() + flip(trees(associations@)) =~= flip(trees(associations@)));
        lemma_pushed(Seq::empty(), trees(associations@)); }
//@loop 1
    invariant prev =~= rtrees(stack@), rstrs(names@) + to_name(rtrees(stack@)) =~= all, all == leaves_upto(trees(associations@), associations@.len() as int),
    decreases nodes_left(rtrees(stack@)),
//@at loop1.start
    let ghost said = rstrs(names@); let ghost base = rtrees(stack@);
    proof { assert(prev =~= base.push(node.tree())); assert(prev.drop_last() =~= base); assert(said + (leaves(node.tree()) + to_name(base)) =~= (said + leaves(node.tree())) + to_name(base)); }
//@at loop2.before
    let ghost kids = trees(children@); let ghost left = nodes_left(prev);
    proof { let t = node.tree(); assert(t is OneOf ==> t->OneOf_0 =~= kids); assert(t is AllOf ==> t->AllOf_0 =~= kids); lemma_pushed(base, kids); }
//@loop 2
    rtrees(stack@) =~= base + flip(kids).take(__i2 as int),
//@at loop2.start
    proof { assert(*__x2 == children@[children@.len() - __i2]); assert((*__x2).tree() == flip(kids)[__i2 - 1]); assert(flip(kids).take(__i2 as int) =~= flip(kids).take(__i2 - 1).push((*__x2).tree())); }
    let ghost before = stack@;
//@at loop2.end
    proof { assert(stack@ == before.push(__x2)); assert(rtrees(stack@) =~= rtrees(before).push((*__x2).tree())); }
//@at loop2.after
    proof { assert(flip(kids).take(kids.len() as int) =~= flip(kids)); }
//@at loop1.end
    proof { prev = rtrees(stack@); assert(node.tree() is Leaf ==> rstrs(names@) =~= said + leaves(node.tree())); }
//@end
// ---- what an expression says of a resource
pub struct Verdict { pub ok: bool, pub says: Seq<FView> }
pub open spec fn no_violation(s: Seq<FView>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).level is Violation) }
/// names, each once, in the order they first appear
pub open spec fn once(s: Seq<String>) -> Seq<String> decreases s.len() { if s.len() == 0 { s } else if s.drop_last().contains(s.last()) { once(s.drop_last()) } else { once(s.drop_last()).push(s.last()) } }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn not_satisfied(ts: Seq<Tree>, p: Sample) -> FView { finding(FindingId::EntityAssociationNotSatisfied, FindingLevel::Violation, ctx1("entity_type"@, jstrs(texts(once(leaves_upto(ts, ts.len() as int))))), p) }
/// an entity is satisfied when nothing it requires is lacking (an entity nobody defines asks nothing); all_of when every part is, and it says what each says;
/// one_of when some part is, and it says what those say, or else names the candidates
pub open spec fn verdict(t: Tree, c: LiveChecker, have: Seq<SampleAttribute>, p: Sample) -> Verdict decreases t, 0int { match t {
    Tree::Leaf(k) => match entity_at(c, k) { Some(e) => Verdict { ok: no_violation(entity_says(e, have, p)), says: entity_says(e, have, p) }, None => Verdict { ok: true, says: seq![] } },
    Tree::AllOf(s) => every(s, c, have, p, s.len() as int),
    Tree::OneOf(s) => { let v = some(s, c, have, p, s.len() as int); if v.ok { v } else { Verdict { ok: false, says: seq![not_satisfied(s, p)] } } } } }
pub open spec fn every(s: Seq<Tree>, c: LiveChecker, have: Seq<SampleAttribute>, p: Sample, n: int) -> Verdict decreases s, n {
    if n <= 0 || n > s.len() { Verdict { ok: true, says: seq![] } } else { let r = every(s, c, have, p, n - 1); let v = verdict(s[n - 1], c, have, p); Verdict { ok: r.ok && v.ok, says: r.says + v.says } } }
pub open spec fn some(s: Seq<Tree>, c: LiveChecker, have: Seq<SampleAttribute>, p: Sample, n: int) -> Verdict decreases s, n {
    if n <= 0 || n > s.len() { Verdict { ok: false, says: seq![] } } else { let r = some(s, c, have, p, n - 1); let v = verdict(s[n - 1], c, have, p); if v.ok { Verdict { ok: true, says: r.says + v.says } } else { r } } }
pub open spec fn eval_is(e: AssocEval, v: Verdict) -> bool { e.satisfied == v.ok && all_say(e.findings@) =~= v.says }
/// the list on a signal: nothing asks nothing, a single expression is itself, several are alternatives
pub open spec fn list_says(s: Seq<Tree>, c: LiveChecker, have: Seq<SampleAttribute>, p: Sample) -> Seq<FView> {
    if s.len() == 0 { seq![] } else if s.len() == 1 { verdict(s[0], c, have, p).says } else { verdict(Tree::OneOf(s), c, have, p).says } }
pub proof fn lemma_once(s: Seq<String>, n: int)
    requires 0 < n <= s.len(),
    ensures once(s.take(n)) == (if s.take(n - 1).contains(s[n - 1]) { once(s.take(n - 1)) } else { once(s.take(n - 1)).push(s[n - 1]) }),
{ assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(s.take(n).last() == s[n - 1]); }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs entity_association_not_satisfied
    ensures says(r) == not_satisfied(trees(children@), *parent_signal)
//@at loop0.before
    let ghost all = rstrs(__s0@);
//@loop 0
    all == rstrs(__s0@), all =~= leaves_upto(trees(children@), children@.len() as int), rstrs(__a0@) =~= once(all.take(__i0 as int)),
    forall|x: &String| seen.s@.contains(x) <==> all.take(__i0 as int).contains(*x),
//@at loop0.start
    let ghost had = seen.s@; let ghost out = __a0@;
    proof { lemma_once(all, __i0 as int); assert(all.take(__i0 as int) =~= all.take(__i0 - 1).push(*__x0)); assert(all[__i0 - 1] == *__x0);
        assert(forall|x: &String| all.take(__i0 as int).contains(*x) ==> all.take(__i0 - 1).contains(*x) || *x == *__x0);
        assert forall|x: &String| all.take(__i0 - 1).contains(*x) implies all.take(__i0 as int).contains(*x) by { let j = all.take(__i0 - 1).index_of(*x); assert(all.take(__i0 as int)[j] == *x); }
        assert(all.take(__i0 as int)[__i0 - 1] == *__x0); }
//@at loop0.end
    proof { assert(rstrs(out.push(__x0)) =~= rstrs(out).push(*__x0)); }
//@at loop0.after
    proof { assert(all.take(__i0 as int) =~= all); assert(strs_of(__a0@) =~= texts(once(all))); }
//@end
pub proof fn lemma_kids<A: AssocExpr>(t: Tree)
    ensures forall|c: Seq<A>| t is OneOf && t->OneOf_0.len() == c.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).tree() == t->OneOf_0[i]) ==> #[trigger] trees(c) == t->OneOf_0,
        forall|c: Seq<A>| t is AllOf && t->AllOf_0.len() == c.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).tree() == t->AllOf_0[i]) ==> #[trigger] trees(c) == t->AllOf_0,
{ assert forall|c: Seq<A>| t is OneOf && t->OneOf_0.len() == c.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).tree() == t->OneOf_0[i]) implies #[trigger] trees(c) == t->OneOf_0 by { assert(trees(c) =~= t->OneOf_0); }
  assert forall|c: Seq<A>| t is AllOf && t->AllOf_0.len() == c.len() && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).tree() == t->AllOf_0[i]) implies #[trigger] trees(c) == t->AllOf_0 by { assert(trees(c) =~= t->AllOf_0); } }
//@fn crates/weaver_live_check/src/advice/type_advisor.rs evaluate_association
    ensures eval_is(r, verdict(assoc.tree(), *live_checker, resource_attributes@, *parent_signal))
    decreases assoc.tree(), 1int
//@at start
    proof { let t = assoc.tree(); lemma_kids::<A>(t); assert(t is OneOf ==> decreases_to!(t => t->OneOf_0)); assert(t is AllOf ==> decreases_to!(t => t->AllOf_0)); }
//@loop 0
    !__a0, forall|j: int| 0 <= j < __i0 ==> !((#[trigger] all_say(findings@)[j]).level is Violation),
//@at loop0.start
    proof { assert(all_say(findings@)[__i0 - 1].level == findings@[__i0 - 1].level); }
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs evaluate_all_of
    ensures eval_is(r, every(trees(children@), *live_checker, resource_attributes@, *parent_signal, children@.len() as int))
    decreases trees(children@), 0int
//@at start
    let ghost ts = trees(children@);
//@loop 0
    ts == trees(children@), satisfied == every(ts, *live_checker, resource_attributes@, *parent_signal, __i0 as int).ok, all_say(findings@) =~= every(ts, *live_checker, resource_attributes@, *parent_signal, __i0 as int).says,
//@at loop0.start
    let ghost said = findings@;
    proof { assert(ts[__i0 - 1] == (*__x0).tree()); assert(decreases_to!(ts => ts[__i0 - 1])); }
//@loop 1
    findings@ =~= said + __s1@.take(__i1 as int),
//@at loop1.after
    proof { assert(__s1@.take(__i1 as int) =~= __s1@); assert(all_say(findings@) =~= all_say(said) + all_say(__s1@)); }
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs evaluate_one_of
    ensures eval_is(r, verdict(Tree::OneOf(trees(children@)), *live_checker, resource_attributes@, *parent_signal))
    decreases trees(children@), 0int
//@at start
    let ghost ts = trees(children@);
//@loop 0
    ts == trees(children@), any_satisfied == some(ts, *live_checker, resource_attributes@, *parent_signal, __i0 as int).ok, all_say(findings@) =~= some(ts, *live_checker, resource_attributes@, *parent_signal, __i0 as int).says,
//@at loop0.start
    let ghost said = findings@;
    proof { assert(ts[__i0 - 1] == (*__x0).tree()); assert(decreases_to!(ts => ts[__i0 - 1])); }
//@loop 1
    findings@ =~= said + __s1@.take(__i1 as int),
//@at loop1.after
    proof { assert(__s1@.take(__i1 as int) =~= __s1@); assert(all_say(findings@) =~= all_say(said) + all_say(__s1@)); }
//@end
//@fn crates/weaver_live_check/src/advice/type_advisor.rs check_entity_associations
    ensures all_say(r@) =~= list_says(trees(associations@), *live_checker, resource_attributes@, *parent_signal)
//@end
} // verus!
fn main() {}
