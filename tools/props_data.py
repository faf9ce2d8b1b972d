MANIFEST_EXTRA = {}

prop("A01", "Inherited attributes keep every property the local definition does not override",
     "When a group extends another group or references an attribute, each field of the resulting attribute is the locally written value if there is one and otherwise the value of the attribute it inherits from, through any chain of inheritance. The lineage recorded for the attribute lists exactly the fields that came from the parent as inherited and exactly the locally written ones as overridden, and no field is ever in both lists.",
     ["inputs"], "every pair of local and parent attribute definitions, every chain of extends and refs, every order in which fields are merged",
     "The resolver's tests compare a dozen fixture registries with stored output; the combinations of present and absent fields on both sides, over chains, are exponentially many and each merge is written field by field.",
     ["crates/weaver_resolved_schema/src/lineage.rs", "crates/weaver_resolver/src/registry.rs", "crates/weaver_resolver/src/attribute.rs"],
     [("AttributeLineage setters", "crates/weaver_resolved_schema/src/lineage.rs"), ("resolve_inheritance_attr", "crates/weaver_resolver/src/registry.rs"), ("AttributeCatalog::resolve", "crates/weaver_resolver/src/attribute.rs")],
     state=[("inherited_fields, locally_overridden_fields", "which fields came from where", "crates/weaver_resolved_schema/src/lineage.rs")],
     observe=["the resolved registry and its lineage"],
     note="Every setter of the lineage and the field-by-field merge are under contract; the composition over inheritance chains is a lemma over those contracts.")

prop("A04", "A reference to a dependency resolves to the newest compatible version or fails",
     "When the dependency graph of a registry holds several versions of one registry, one version is chosen for the whole graph: the newest by semantic-version order, pre-releases included, among versions that share a major; versions that differ in major fail the resolution. Loading meets no registry that the chosen version of its name cannot stand for; the chosen versions cover every registry of the graph and name nothing outside it. A reference to an attribute finds it if and only if some dependency offers it; among several offers the same rule decides (visible before excluded, definition before reference, newest source), and irreconcilable offers fail. The definition found, and every attribute and group imported, is the one the chosen version of its registry has; if that version no longer has the attribute, resolution fails instead of using an older one.",
     ["inputs", "histories"], "every dependency graph: any registries, versions, order of dependencies, re-exports and published registries",
     "Tests hold a handful of fixed diamonds; the order in which versions are met, transitive sources and pre-releases multiply beyond them.",
     ["crates/weaver_resolver/src/conflict_strategy.rs", "crates/weaver_resolver/src/loader.rs", "crates/weaver_resolver/src/lib.rs", "crates/weaver_resolver/src/attribute.rs", "crates/weaver_resolver/src/dependency.rs", "crates/weaver_resolver/src/imports.rs"],
     [("UseLatestMajorVersion::resolve_conflict", "crates/weaver_resolver/src/conflict_strategy.rs"), ("load_semconv_repository_recursive", "crates/weaver_resolver/src/loader.rs"), ("collect_chosen_versions, resolve_registry_internal", "crates/weaver_resolver/src/lib.rs"), ("lookup_attribute, upgrade_attribute_with_source", "crates/weaver_resolver/src/attribute.rs"), ("upgrade_imported_group", "crates/weaver_resolver/src/imports.rs")],
     observe=["weaver registry resolve on a registry with dependencies"],
     note="Version order (semver) and URL parsing are assumed contracts; loading of one registry's files is outside. A published dependency's imports (V2 import_groups) upgrade attributes by the same proved function; its group-level fields are not upgraded (TODO in the source).")

prop("A05", "The problems reported of a file are exactly the rules it breaks",
     "When a semantic-convention file is read, the problems reported of it are, with the right multiplicity, exactly what its groups break of the rules for groups: prefix, stability, required and forbidden fields by type, unstructured deprecations, attributes without brief, stability or fitting examples, attributes referred to twice, malformed entity associations, and event bodies (with the values in a map) without stability or fitting examples; each names the file, the group and the attribute or value. A file of the second format is refused exactly when an entity has no identity or an attribute both identifies and describes; otherwise exactly the signals without a requirement level are reported.",
     ["inputs"], "every file that can be read, in either format: any groups, attributes, types, examples, bodies of any depth, associations of any depth",
     "Tests validate a few dozen groups, each broken in one way; exactness is a claim about all combinations of rules, over lists and trees of any size.",
     ["crates/weaver_semconv/src/group.rs", "crates/weaver_semconv/src/attribute.rs", "crates/weaver_semconv/src/any_value.rs", "crates/weaver_semconv/src/semconv.rs", "crates/weaver_semconv/src/v2/mod.rs", "crates/weaver_semconv/src/lib.rs"],
     [("GroupSpec::validate and its helpers", "crates/weaver_semconv/src/group.rs"), ("Examples::validate, validate_any_value", "crates/weaver_semconv/src/attribute.rs"), ("SemConvSpecV1::validate, Versioned::validate", "crates/weaver_semconv/src/semconv.rs"), ("SemConvSpecV2::validate", "crates/weaver_semconv/src/v2/mod.rs")],
     observe=["the errors and warnings of weaver registry check, and of every command that reads a registry"],
     note="Every validation function is under contract. The wording of a report and its severity are not covered; the values inside an array of maps (map[]) are not looked into by the code and the property does not claim they are. Reading the YAML and the warning about an old file format are outside.")
prop("A06", "Finding overrides and filters do exactly what their rules say",
     "A finding of a live check keeps its level unless some level override in scope names it, in which case the first such override alone sets it; it is dropped exactly when some filter in scope excludes its id, its sample's name, or its (possibly overridden) level, and is otherwise reported unchanged. A rule is in scope when its signal type and its sample-name patterns, where given, both match the finding, and a sample without a name matches no pattern.",
     ["inputs", "configurations"], "every list of filters and overrides, every finding, every sample",
     "The tests try single rules and a few pairs; the order of rules, the interplay of overrides with minimum levels, and unnamed samples multiply beyond any table of cases.",
     ["crates/weaver_live_check/src/finding_modifier.rs", "crates/weaver_live_check/src/lib.rs", "crates/weaver_config/src/live_check.rs"],
     [("FindingModifier::from_rules / apply", "crates/weaver_live_check/src/finding_modifier.rs"), ("scope_matches, is_matched_by, is_excluded_by", "crates/weaver_live_check/src/finding_modifier.rs")],
     observe=["the findings stored on each checked sample"],
     note="All of finding_modifier.rs and SampleRef::sample_name are under contract; theorem_modifier states the rule. Glob matching itself (globset) is uninterpreted.", theorems=["theorem_modifier"])

prop("A07", "The live-check verdict and statistics account for every finding of every sample",
     "After any sequence of samples, each checked entity is counted exactly once under its kind, each stored finding exactly once under its level, kind and message, and each entity once under its highest finding level or as having none; names seen are counted either as registry items or as unknown, never both. A session fails its threshold exactly when some stored finding is at or above the threshold, and never when the threshold is disabled.",
     ["inputs", "histories"], "every sequence of samples of every type, every set of findings on each, every threshold",
     "The tests check totals after a handful of fixture inputs; the counters are updated from a dozen call sites and the verdict from a map of maxima, so only an invariant over all histories settles that nothing is lost or counted twice.",
     ["crates/weaver_live_check/src/stats.rs", "crates/weaver_live_check/src/lib.rs", "crates/weaver_live_check/src/sample_attribute.rs", "crates/weaver_live_check/src/sample_metric.rs", "crates/weaver_live_check/src/sample_span.rs", "crates/weaver_config/src/live_check.rs"],
     [("CumulativeStatistics", "crates/weaver_live_check/src/stats.rs"), ("LiveCheckResult::add_advice", "crates/weaver_live_check/src/lib.rs"), ("LiveCheckRunner::run_live_check", "crates/weaver_live_check/src/*.rs")],
     state=[("CumulativeStatistics counters", "what the session has seen", "crates/weaver_live_check/src/stats.rs")],
     observe=["statistics of the report", "exit code of the session"],
     note="The result and statistics operations are under contract with a representation invariant; theorem_verdict states the verdict. The dispatch over sample types (run_live_check, &mut iteration with a dyn advisor) is covered by the bounded search only.", theorems=["theorem_verdict"])

prop("A08", "Live check reports exactly how a sample departs from the model",
     "For each attribute, metric and event of a sample, live check finds the definition of that name in the registry, or for an attribute the template with the longest key its name begins with, and reports: that there is none; that the definition is deprecated or not stable; a value of another type; a string or integer that is no member of an enumeration; another instrument or unit; and, on each data point and event, each attribute the definition lists that is not present (a template attribute being present under any name that begins with its key), at the level its requirement calls for. An entity association is met by a resource that has all required attributes of the entity, all of an all_of or one of a one_of, nested in any way; what the resource lacks is reported accordingly. Nothing else is reported by these checks.",
     ["inputs"], "every registry of either format and every sample: names, values, types, points, resources and association trees",
     "The tests check a few dozen samples against small registries; whether a departure is reported depends on the combination of kind of sample, format of the registry, kind of data point, type, requirement level and shape of the association tree.",
     ["crates/weaver_live_check/src/live_checker.rs", "crates/weaver_live_check/src/advice/type_advisor.rs", "crates/weaver_live_check/src/advice/enum_advisor.rs", "crates/weaver_live_check/src/advice/deprecated_advisor.rs", "crates/weaver_live_check/src/advice/stability_advisor.rs", "crates/weaver_live_check/src/sample_attribute.rs", "crates/weaver_live_check/src/sample_metric.rs", "crates/weaver_live_check/src/sample_log.rs", "crates/weaver_forge/src/v2/registry.rs"],
     [("LiveChecker::new, find_*", "crates/weaver_live_check/src/live_checker.rs"), ("TypeAdvisor, check_attributes, check_entity_associations", "crates/weaver_live_check/src/advice/type_advisor.rs"), ("EnumAdvisor, DeprecatedAdvisor, StabilityAdvisor", "crates/weaver_live_check/src/advice/"), ("run_live_check", "crates/weaver_live_check/src/sample_*.rs")],
     observe=["findings in the live-check report"],
     note="The index of the registry, the four advisors and the evaluation of association trees (with termination) are under contract for both formats. Values are opaque JSON read through functions; emission of findings as OTLP logs is left out. Custom Rego advice is not covered. Message texts are not claimed.")

prop("A09", "No error is lost or downgraded on its way to the exit code",
     "Every error a processing step reports, fatal or not, reaches the diagnostics of the run exactly once and in order, unless a step explicitly ignores that kind of error; a result never turns from failed to successful by being passed on, mapped, combined or converted. The run fails exactly when at least one collected diagnostic is not merely a warning or advice, and under the future option every diagnostic counts as an error.",
     ["inputs", "histories"], "every sequence of results and errors of every severity, combined in every way the code combines them",
     "Tests exercise one error at a time through one combinator; the guarantee is about every composition of combinators over every number of errors.",
     ["crates/weaver_common/src/result.rs", "crates/weaver_common/src/diagnostic.rs", "crates/weaver_common/src/error.rs"],
     [("WResult combinators", "crates/weaver_common/src/result.rs"), ("DiagnosticMessages", "crates/weaver_common/src/diagnostic.rs"), ("handle_errors", "crates/weaver_common/src/error.rs")],
     observe=["exit code", "printed diagnostics"],
     note="Every WResult combinator, DiagnosticMessages operation and handle_errors is under contract, generic in the error type; a severity is read through miette's Diagnostic trait, whose implementations are assumed pure.")

prop("A13", "Every reference is bound to a definition it may see, or resolution fails",
     "When a registry resolves, every reference in it has been bound: each attribute listed by reference to an attribute defined in this registry, or else to the one its dependencies offer; each extended or refined group to a resolved group of that id in this registry, or else the first a dependency offers; each included group to a group of this registry; each entity association to a local entity, or else to the single registry among the dependencies that declares it. What is marked excluded is bound only within its own registry and only by what is itself excluded or internal. A refinement has the kind of the signal it refines, takes from it the fields it does not state, and leaves an entity's identity alone. In every other case - a missing, excluded, ambiguous or circular reference - resolution fails, and it always ends.",
     ["inputs", "configurations"], "every registry, every graph of extends, includes, refs and associations, in every order, with any dependencies",
     "The fixtures hold a few acyclic registries and one error each; resolution is a fixpoint over the whole registry, and what it does depends on the order of groups and on which reference is met first.",
     ["crates/weaver_resolver/src/registry.rs", "crates/weaver_resolver/src/attribute.rs", "crates/weaver_resolver/src/dependency.rs", "crates/weaver_resolver/src/dependency_resolution.rs"],
     [("resolve_extends_references, resolve_attribute_references, resolve_entity_associations", "crates/weaver_resolver/src/registry.rs"), ("AttributeCatalog::resolve", "crates/weaver_resolver/src/attribute.rs"), ("resolve_entity", "crates/weaver_resolver/src/dependency.rs"), ("is_group_excluded", "crates/weaver_resolver/src/dependency_resolution.rs")],
     state=[("UnresolvedGroup::attributes, extends, include_groups", "what is still to be bound", "crates/weaver_resolver/src/registry.rs")],
     observe=["weaver registry resolve: the resolved registry or the error"],
     note="The three fixpoints are proved to end and, when they succeed, to leave nothing unbound. Assumed: what a dependency answers to a lookup is a function of the dependency and the name; YAML annotations are read through serde_yaml. A group that is not yet resolved when its id is looked up may lose to a dependency's group of the same id.")

prop("A14", "Unpacking a registry archive writes only what was asked for, only in its folder",
     "When a registry is fetched from an archive, every file written lies inside the temporary directory made for it, whatever entry names, parent-directory components, absolute paths or symbolic links the archive holds. Exactly the entries of the requested sub-folder (all entries, if none is requested) are unpacked, each at its path below the archive's root folder and that sub-folder; an entry whose remaining path climbs upwards is not written.",
     ["inputs"], "every archive, every sequence of entry names and kinds, every sub-folder",
     "The tests unpack two well-formed archives; containment is a claim about hostile entry names and about every combination of root folder, sub-folder and entry.",
     ["crates/weaver_common/src/vdir.rs"],
     [("VirtualDirectory::path_to_unpack", "crates/weaver_common/src/vdir.rs"), ("unpack_tar_gz, unpack_zip, create_parent_dirs", "crates/weaver_common/src/vdir.rs")],
     observe=["files written by VirtualDirectory::try_new"],
     note="path_to_unpack, create_parent_dirs, unpack_tar_gz and unpack_zip are under contract: every write call has a precondition that its path is inside the target. Paths are sequences of components; following links (check_parent_dirs) is trusted and covered by the bounded search, which runs as an unprivileged user in a scratch directory.")

prop("A03", "A schema diff reports exactly what changed between two registries",
     "Comparing a registry with its baseline reports, for attributes and for each kind of signal, exactly one change for each name that is in only one of the two (added or removed) or whose deprecation is new or different in the later one (renamed to the stated name, obsoleted or uncategorized, with that deprecation's note), and nothing for any other name; two registries with the same names and deprecations have an empty diff. This holds for schemas of both formats; an attribute counts where it is defined, not where it is merely referred to.",
     ["inputs"], "every pair of resolved registries of either format",
     "The tests diff a few registries that differ in one item; completeness and exclusivity are claims about every combination of presence and deprecation state on both sides, for six kinds of item, in two implementations.",
     ["crates/weaver_resolved_schema/src/lib.rs", "crates/weaver_resolved_schema/src/v2/mod.rs", "crates/weaver_version/src/schema_changes.rs", "crates/weaver_version/src/v2/mod.rs", "crates/weaver_semconv/src/deprecated.rs"],
     [("ResolvedTelemetrySchema::diff, diff_attributes, diff_signals", "crates/weaver_resolved_schema/src/lib.rs"), ("diff_signals_by_hash, registry_diff", "crates/weaver_resolved_schema/src/v2/mod.rs"), ("SchemaChanges", "crates/weaver_version/src/schema_changes.rs")],
     observe=["weaver registry diff output", "ResolvedTelemetrySchema::diff"],
     note="Both diff implementations are under contract end to end, from the resolved schema to the change lists: the maps of names, the comparison loops and the dispatch over kinds. Where a registry holds two items of one kind with one name, the change describes one of them. Hash maps iterate in an unspecified order in the model, so nothing depends on order.")

prop("A02", "Attribute references stay valid and keep their meaning",
     "In a resolved registry every attribute reference of every group denotes an entry of the catalog, and that entry is the attribute the group had before unused attributes were dropped and the catalog renumbered; no two catalog entries are equal, every entry is used by some group, and entries are in ascending order. No group is lost, except those marked internal, and no other field of a group changes. When the registry is converted to the second format, an attribute's reference denotes a catalog entry with its key, type, examples, brief, note, stability, deprecation and annotations, and is found whenever such an entry exists.",
     ["inputs"], "every registry: any number of groups sharing, refining and dropping attributes in any pattern",
     "Tests resolve a few fixtures and compare the output; a renumbering that mixes up two references only shows for particular sharing patterns of attributes between groups.",
     ["crates/weaver_resolver/src/attribute.rs", "crates/weaver_resolver/src/registry.rs", "crates/weaver_resolved_schema/src/catalog.rs", "crates/weaver_resolved_schema/src/v2/catalog.rs"],
     [("AttributeCatalog::attribute_ref, gc_unreferenced_attribute_refs_and_sort, drain_attributes, attribute_name_index", "crates/weaver_resolver/src/attribute.rs"), ("cleanup_and_stabilize_catalog_and_registry", "crates/weaver_resolver/src/registry.rs"), ("Catalog", "crates/weaver_resolved_schema/src/catalog.rs"), ("Catalog::from_attributes, convert_ref", "crates/weaver_resolved_schema/src/v2/catalog.rs")],
     state=[("attribute_refs", "the bijection between attributes and references", "crates/weaver_resolver/src/attribute.rs")],
     observe=["the resolved registry and its catalog, in both formats"],
     note="The bijection between attributes and references is an invariant kept by every function that touches it; renumbering, remapping of groups and publication of the catalog are proved for all catalogs and groups. Derived Ord of Attribute is assumed to be a total order; the rest of the conversion to the second format is A15.")

prop("A15", "Converting a registry to the second format loses and invents nothing",
     "The conversion of a resolved registry to the second format yields, for each span, metric, event and entity group, exactly one refinement entry, in order and under the id of the shared naming rule, and a definition exactly when the group refines nothing; public attribute groups are kept and all others dropped. Each entry carries the group's attributes in order (an entity's split into identifying and other), each with its requirement level, the group's own fields unchanged, its associations in the same shape with each name bound to the entity it resolved to, and where it was declared; a refined entity has the type its base declares. The registry's attributes are exactly those some group lists without inheriting them. It fails only for an event without a name, a refinement without a base, or an association that nothing defines.",
     ["inputs"], "every resolved registry: any groups, lineages, catalog, dependencies, association expressions of any depth",
     "Tests convert a few small registries; dropped or confused items show only for particular combinations of refinements, shared names, dependencies and nested associations.",
     ["crates/weaver_resolved_schema/src/v2/mod.rs", "crates/weaver_resolved_schema/src/v2/catalog.rs", "crates/weaver_resolved_schema/src/catalog.rs", "crates/weaver_resolved_schema/src/lineage.rs", "crates/weaver_resolved_schema/src/registry.rs", "crates/weaver_resolved_schema/src/v2/entity.rs", "crates/weaver_semconv/src/v2/signal_id.rs", "crates/weaver_semconv/src/stability.rs"],
     [("convert_v1_to_v2", "crates/weaver_resolved_schema/src/v2/mod.rs"), ("EntityRefResolver::resolve, convert_entity_associations, convert_attribute_ref", "crates/weaver_resolved_schema/src/v2/mod.rs"), ("is_refinement_of, entity_type_of, v2_namespace_id", "crates/weaver_resolved_schema/src/v2/mod.rs")],
     observe=["weaver registry resolve --v2 output"],
     note="The whole of convert_v1_to_v2, its closures and everything it calls in this crate are under contract. Assumed: the input's references are valid (A02) and metrics have a name, instrument and unit (checked when a registry is read), and fewer than 2^32 attributes and dependencies.")

prop("A16", "Resolution reports every name that is not unique, once, and no other",
     "When a registry resolves, the problems reported contain exactly one for each group id, each metric name and each group name that two or more groups carry (refinements of the second format have no metric or group name of their own), one for each attribute that is defined, not referred to or inherited, two or more times in attribute groups, and one for each id of the second format's namespaces that is taken by groups of different ids; each names the key and the groups or files concerned. No other name is reported.",
     ["inputs"], "every resolved registry: any groups, in any files, of any type, with any names and attributes",
     "Tests resolve a few registries with one duplicate; exactly-once and completeness are claims about every distribution of names over groups, files, formats and refinements.",
     ["crates/weaver_resolver/src/registry.rs", "crates/weaver_resolved_schema/src/v2/mod.rs", "crates/weaver_resolved_schema/src/lineage.rs", "crates/weaver_resolved_schema/src/registry.rs"],
     [("check_uniqueness, check_root_attribute_id_duplicates, check_v2_signal_id_collisions", "crates/weaver_resolver/src/registry.rs"), ("resolve_registry_with_dependencies", "crates/weaver_resolver/src/registry.rs"), ("v2_namespace_id", "crates/weaver_resolved_schema/src/v2/mod.rs")],
     observe=["the non-fatal errors of resolution: weaver registry check"],
     note="All three checks, their key and error closures and the caller that runs them are under contract. Assumed: every group has a provenance (the registry loader gives it one), and the text of two group types differs when the types do.")
prop("A18", "A definition of the second format becomes one group that says the same",
     "When a file of the second format is turned into groups, every definition and refinement in it becomes exactly one group and there are no others, except one for the attributes the file defines: of the same type, with the id of its namespace, extending what it refines, and with the same brief, note, stability, deprecation, annotations, requirement level, instrument, unit, span kind, span name, entity associations and visibility; its attributes and included groups are those listed, in order, each saying what the reference said, with the role of the list it came from; the imports are those of the file.",
     ["inputs"], "every file of the second format: any definitions, refinements and attribute groups, with any fields",
     "Tests convert one definition of each kind; that no field of any kind is lost or swapped is a claim about every combination of fields.",
     ["crates/weaver_semconv/src/v2/mod.rs", "crates/weaver_semconv/src/v2/attribute.rs", "crates/weaver_semconv/src/v2/attribute_group.rs", "crates/weaver_semconv/src/v2/entity.rs", "crates/weaver_semconv/src/v2/event.rs", "crates/weaver_semconv/src/v2/metric.rs", "crates/weaver_semconv/src/v2/span.rs", "crates/weaver_semconv/src/v2/signal_id.rs", "crates/weaver_semconv/src/semconv.rs"],
     [("into_v1_specification", "crates/weaver_semconv/src/v2/mod.rs"), ("into_v1_group of each kind", "crates/weaver_semconv/src/v2/"), ("split_attributes_and_groups, into_v1_attribute", "crates/weaver_semconv/src/v2/attribute.rs"), ("Versioned::into_v1", "crates/weaver_semconv/src/semconv.rs")],
     observe=["weaver registry resolve of a file with file_format: definition/2"],
     note="All conversion functions are under contract, field by field. The display of a signal id as its text is assumed, and that the derived Default of a group is its fields' defaults.")

prop("A12", "Updating a document changes only what is between snippet markers",
     "When snippets in a markdown document are updated, every line outside of snippets and every line that opens or closes one is kept as it was, in order; what stands between an opening line and its closing line is replaced by the rendering of the group, tags and query that the opening line asks for; nothing else is added. A document in which a snippet cannot be rendered or is never closed is reported and its file left as it was. A dry run writes nothing, and succeeds exactly when the document is up to date.",
     ["inputs"], "every document: any lines, any markers in any order, closed or not, of either format; every rendering",
     "The tests update a few well-formed documents; that no text outside of snippets is ever lost is a claim about every arrangement of markers, including broken ones, in files people write by hand.",
     ["crates/weaver_semconv_gen/src/lib.rs", "crates/weaver_semconv_gen/src/parser.rs", "crates/weaver_semconv_gen/src/v1.rs", "crates/weaver_semconv_gen/src/v2.rs"],
     [("update_markdown, update_markdown_contents", "crates/weaver_semconv_gen/src/lib.rs"), ("is_*_directive, is_*_trailer, parse_*", "crates/weaver_semconv_gen/src/parser.rs"), ("SnippetGenerator::generate_markdown_snippet", "crates/weaver_semconv_gen/src/v1.rs"), ("SnippetGenerator::generate_weaver_snippet", "crates/weaver_semconv_gen/src/v2.rs")],
     observe=["the file after weaver registry update-markdown", "its exit status in a dry run"],
     note="The update of the text and of the file, the recognition of markers and comments, and both generators down to the template call are under contract; writing a file has a precondition that only a complete update may be written. Line ends become line feeds. Assumed: nom's combinators, the grammar inside an opening marker, that rendering a template is a function of its input; lookup of an id in the second format's registry.")
prop("A10", "A setting comes from the nearest layer that gives it, field by field",
     "Every setting a command runs with is the one its command line gives, else the one of the nearest project file (.weaver.toml in the working directory or its closest ancestor that has one, or the file named by --config; none with --no-config), else the built-in default; each setting on its own, so that a layer which gives one setting hides no other. A path or URL in a project file that is not one counts as not given. The configuration of a template directory layers the same way: a nearer file's settings replace those of the farther ones, one by one, params key by key, and then the project's acronyms replace those equal but for case and its text maps those of the same name. A named file that cannot be read is an error, not a default.",
     ["inputs"], "every combination of command-line flags, project file contents and locations, and template configuration files, each setting given or not given in each",
     "Tests set one field in one layer; that no field is lost, swapped with another, or shadowed by a default in any combination of layers is a claim about all of them.",
     ["crates/weaver_config/src/effective.rs", "crates/weaver_config/src/registry.rs", "crates/weaver_config/src/resolve.rs", "crates/weaver_config/src/overrides.rs", "crates/weaver_config/src/lib.rs", "crates/weaver_config/src/template.rs", "src/registry/mod.rs", "src/main.rs", "crates/weaver_forge/src/config.rs"],
     [("layer_config, Default and to_effective of each section, skip_all", "crates/weaver_config/src/effective.rs"), ("apply_to of RegistryArgs and PolicyArgs", "src/registry/mod.rs"), ("load_config", "src/main.rs"), ("discover, discover_and_load", "crates/weaver_config/src/lib.rs"), ("WeaverConfig::override_with, merge_acronyms, merge_text_maps, resolve_from", "crates/weaver_forge/src/config.rs")],
     observe=["which registry, policies and diagnostic format a weaver command uses", "the configuration templates are rendered with"],
     note="Every layering function is under contract, field by field. Assumed: the text of a path, URL, TOML or YAML file is parsed as it says, the derived defaults of the files' structures, and the per-command overrides a macro generates, which the search through the command line covers for stats and check.")
