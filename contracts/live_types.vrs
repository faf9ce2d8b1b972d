// sample types of live check, extracted; leaf types are opaque
//@opaque Value SpanKindSpec Status SampleInstrument DataPoints PrimitiveOrArrayTypeSpec SampleNumberDataPoint SampleHistogramDataPoint SampleExponentialHistogramDataPoint SampleExemplar
//@type crates/weaver_checker/src/finding.rs FindingLevel
//@type crates/weaver_checker/src/finding.rs PolicyFinding
//@type crates/weaver_live_check/src/lib.rs LiveCheckResult
//@type crates/weaver_live_check/src/sample_attribute.rs SampleAttribute
//@type crates/weaver_live_check/src/sample_resource.rs SampleResource
//@type crates/weaver_live_check/src/sample_instrumentation_scope.rs SampleInstrumentationScope
//@type crates/weaver_live_check/src/sample_span.rs SampleSpanEvent
//@type crates/weaver_live_check/src/sample_span.rs SampleSpanLink
//@type crates/weaver_live_check/src/sample_span.rs SampleSpan
//@type crates/weaver_live_check/src/sample_metric.rs SampleMetric
//@type crates/weaver_live_check/src/sample_log.rs SampleLog
//@type crates/weaver_live_check/src/sample_profile.rs SampleProfile
//@type crates/weaver_live_check/src/lib.rs SampleRef
