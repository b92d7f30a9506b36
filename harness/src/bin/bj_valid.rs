use bjmon::props::*;
use bjmon::run::{main as go, no_probes, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C09", rule: "a case is one document judged against one schema; every distinct document counts (generated valid, or 1-3 semantic edits of a valid one), judged by the reference validator of section 5", quick: 15000, thorough: 400000,
        need: &[("valid", 5000), ("invalid", 5000)], case: valid::c09, probes: no_probes, assumptions: &["a null in a one-of position through a nullable variable is left open"] },
    Prop { id: "C10", rule: "a case is one document with colliding response names judged against the reference FieldsInSetCanMerge", quick: 11000, thorough: 300000,
        need: &[("valid", 2000), ("invalid", 2000)], case: valid::c10, probes: no_probes, assumptions: &["documents with fragment cycles are not judged for merging"] },
    Prop { id: "C11", rule: "a case is one document judged by the reference variable rules (per operation, through fragments)", quick: 11000, thorough: 300000,
        need: &[("valid", 2000), ("invalid", 2000)], case: valid::c11, probes: no_probes, assumptions: &[] },
    Prop { id: "C12", rule: "a case is one value coerced to one input type (API) or one document with edited literals, judged by the reference coercion", quick: 11000, thorough: 300000,
        need: &[("fits", 2000), ("refused", 2000)], case: valid::c12, probes: no_probes, assumptions: &["lists nested in lists take no single-item promotion (October 2021 table)"] },
];
fn main() { go(PROPS) }
