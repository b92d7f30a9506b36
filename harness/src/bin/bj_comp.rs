use bjmon::props::*;
use bjmon::run::{main as go, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C19", rule: "a case is one ordered pair of schemas (a schema and itself reordered, a schema and an edited copy in both directions, two unrelated schemas); every distinct pair counts", quick: 4000, thorough: 300000,
        need: &[("changes", 200000), ("equal", 5000), ("different", 30000), ("change:DirectiveAdded", 100), ("change:DirectiveArgumentAdded", 100), ("change:DirectiveArgumentRemoved", 100), ("change:DirectiveArgumentValueChanged", 100), ("change:DirectiveDefinitionAdded", 100), ("change:DirectiveDefinitionArgumentAdded", 100), ("change:DirectiveDefinitionArgumentDefaultValueChanged", 100), ("change:DirectiveDefinitionArgumentDescriptionChanged", 100), ("change:DirectiveDefinitionArgumentRemoved", 100), ("change:DirectiveDefinitionArgumentTypeChanged", 100), ("change:DirectiveDefinitionDescriptionChanged", 100), ("change:DirectiveDefinitionLocationAdded", 100), ("change:DirectiveDefinitionLocationRemoved", 100), ("change:DirectiveDefinitionRemoved", 100), ("change:DirectiveRemoved", 100), ("change:EnumValueAdded", 100), ("change:EnumValueDescriptionChanged", 100), ("change:EnumValueRemoved", 100), ("change:FieldAdded", 100), ("change:FieldArgumentAdded", 100), ("change:FieldArgumentDefaultValueChanged", 100), ("change:FieldArgumentDescriptionChanged", 100), ("change:FieldArgumentRemoved", 100), ("change:FieldArgumentTypeChanged", 100), ("change:FieldDescriptionChanged", 100), ("change:FieldRemoved", 100), ("change:FieldTypeChanged", 100), ("change:InputFieldAdded", 100), ("change:InputFieldDefaultValueChanged", 100), ("change:InputFieldDescriptionChanged", 100), ("change:InputFieldRemoved", 100), ("change:InputFieldTypeChanged", 100), ("change:ObjectInterfaceAddition", 100), ("change:ObjectInterfaceRemoval", 100), ("change:TypeAdded", 100), ("change:TypeDescriptionChanged", 100), ("change:TypeKindChanged", 100), ("change:TypeRemoved", 100), ("change:UnionMemberAdded", 100), ("change:UnionMemberRemoved", 100)], case: comp::c19, probes: comp::c19_probes, assumptions: &["changed mutation and subscription roots, isRepeatable, interfaces of interfaces and the schema's description are known not to be reported and are not generated as differences of the main workload"] },
    Prop { id: "C20", rule: "a case is one pair of schemas related by edits, with documents valid on the old one; every distinct pair counts", quick: 5000, thorough: 500000,
        need: &[("documents", 40000), ("no-breaking-change", 8000), ("breaking", 1500), ("FieldTypeChanged:S", 1000), ("FieldTypeChanged:B", 200), ("FieldArgumentTypeChanged:S", 200), ("FieldArgumentTypeChanged:B", 100), ("FieldArgumentDefaultValueChanged:B", 50), ("InputFieldDefaultValueChanged:B", 15), ("InputFieldAdded:S", 1000), ("FieldArgumentAdded:S", 1000), ("DirectiveAdded:B", 50)], case: comp::c20, probes: comp::c20_probes, assumptions: &["a document that stops merging because a nullable output became non-null is a known finding and not judged"] },
];
fn main() { go(PROPS) }
