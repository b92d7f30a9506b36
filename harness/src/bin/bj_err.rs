use bjmon::props::*;
use bjmon::run::{main as go, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C05", rule: "a case is one failing text (document or schema that does not parse, schema that cannot be built, document that does not validate), usually in two layouts; every distinct text counts", quick: 20000, thorough: 2000000,
        need: &[("errors", 200000), ("rendered", 150000), ("layout-pairs", 50000), ("syntax", 50000), ("syntax-eof", 5000), ("lexical-errors", 10000), ("build-failures", 4000), ("validation-failures", 50000), ("marker-located", 30000), ("located:ArgumentDoesNotExistOnDirective", 500), ("located:ArgumentDoesNotExistOnField", 500), ("located:DirectiveDoesNotExist", 500), ("located:DirectiveInInvalidLocation", 500), ("located:DirectiveMissingRequiredArguments", 500), ("located:DirectivesNotUniquePerLocation", 500), ("located:FieldDoesNotExistOnType", 500), ("located:FieldMissingRequiredArguments", 500), ("located:FieldSelectionsDoNotMergeDifferingArguments", 500), ("located:FragmentDefinitionTargetTypeDoesNotExist", 500), ("located:FragmentDefinitionUnused", 500), ("located:FragmentSpreadCycle", 500), ("located:FragmentSpreadIsNotPossible", 500), ("located:FragmentSpreadTargetUndefined", 500), ("located:InlineFragmentSpreadIsNotPossible", 500), ("located:InvalidVariableUsage", 500), ("located:LeafFieldSelectionNotEmpty", 500), ("located:NoEnumMemberWithName", 500), ("located:NoImplicitConversion", 500), ("located:NoInputFieldWithName", 500), ("located:NonUniqueFragmentDefinitionNames", 500), ("located:NonUniqueOperationNames", 500), ("located:NullValueForRequiredType", 500), ("located:OperationTypeNotDefined", 500), ("located:SubscriptionRootNotSingleField", 500), ("located:VariableDefinitionTypeNotInput", 500), ("located:VariableDefinitionUnused", 500), ("located:VariableNotDefined", 500), ("located:CustomScalarInvalidValue", 50), ("located:FieldSelectionsDoNotMergeDifferingNames", 50), ("located:FieldSelectionsDoNotMergeIncompatibleTypes", 50), ("located:FragmentDefinitionTargetTypeNotComposite", 50), ("located:InlineFragmentTargetTypeDoesNotExist", 50), ("located:InlineFragmentTargetTypeNotComposite", 50), ("located:NoValueForRequiredFields", 50), ("located:NonLeafFieldSelectionEmpty", 50), ("located:NonUniqueArgumentNames", 50), ("located:NonUniqueFieldNames", 50), ("located:NonUniqueVariableDefinitionNames", 50), ("located:NotLoneAnonymousOperation", 50), ("located:OneOfInputNotSingleNonNullValue", 50)], case: errors::c05, probes: errors::c05_probes, assumptions: &["the secondary-only reports' header position (pinned to 1:1 by existing snapshots) is not judged, the excerpt lines are", "rendering is not judged in texts containing VT, FF, U+0085, U+2028 or U+2029 (known finding) nor at the end of a text that ends with a line break"] },
];
fn main() { go(PROPS) }
