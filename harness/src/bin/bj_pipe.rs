use bjmon::props::*;
use bjmon::run::{main as go, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C04", rule: "a case is one text pushed through every parser and, where it parses, through every later stage, or one schema text or one document with a schema and variables; every distinct text counts", quick: 15000, thorough: 1500000,
        need: &[("analysed", 25000), ("broken-schemas", 1000), ("compared", 1000), ("deep", 1000), ("documents", 12000), ("errors", 1000000), ("growth-steps", 300), ("invalid-documents", 10000), ("valid-documents", 1000), ("parsed-executable", 5000), ("parsed-definition", 1500), ("parsed-value", 20000), ("refused-schemas", 4000), ("schemas", 3500), ("texts", 20000), ("views", 5000), ("wide", 60)], case: pipe::c04, probes: pipe::c04_probes, assumptions: &["bracket nesting up to 150 levels, with a 32 MB stack", "up to 3000 elements side by side"] },
];
fn main() { go(PROPS) }
