// the live checker and the registries it reads
//@opaque MetricRefinement SpanRefinement EventRefinement FindingModifier DynAdvisor PathText
//@type crates/weaver_forge/src/registry.rs ResolvedRegistry
//@type crates/weaver_forge/src/v2/entity.rs EntityRefinement sub=Entity:V2Entity
//@type crates/weaver_forge/src/v2/registry.rs Registry sub=Attribute:V2Attribute sub=Entity:V2Entity
//@type crates/weaver_forge/src/v2/registry.rs Refinements
//@type crates/weaver_forge/src/v2/registry.rs ForgeResolvedRegistry
//@type crates/weaver_live_check/src/lib.rs VersionedRegistry
pub trait Advisor { fn advise_(&self); }
//@type crates/weaver_live_check/src/live_checker.rs LiveChecker
