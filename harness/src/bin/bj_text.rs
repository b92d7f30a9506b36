use bjmon::props::*;
use bjmon::run::{main as go, no_probes, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "a case is one source text given to the parser; every distinct text counts (generated document in a random layout, or a token/character edit of it), judged against the reference grammar", quick: 40000, thorough: 3000000,
        need: &[("accepted", 100000), ("rejected", 100000)], case: parse::c01, probes: parse::c01_probes, assumptions: &["nesting at most 80", "October 2021 grammar; 32-bit integers; finite floats"] },
    Prop { id: "C02", rule: "a case is one schema source text; every distinct text counts (generated definitions in a random layout, or a token/character edit of them)", quick: 30000, thorough: 3000000,
        need: &[("accepted", 100000), ("rejected", 100000)], case: parse::c02, probes: no_probes, assumptions: &["no type extensions; bodies of types are mandatory"] },
    Prop { id: "C03", rule: "a case is one literal, decoded in an argument, alone and as a description; literals longer than two bytes count as non-trivial", quick: 300000, thorough: 30000000,
        need: &[("decoded", 20000), ("refused", 5000)], case: parse::c03, probes: no_probes, assumptions: &[] },
];
fn main() { go(PROPS) }
