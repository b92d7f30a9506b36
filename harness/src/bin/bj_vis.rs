use bjmon::props::*;
use bjmon::run::{main as go, no_probes, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C21", rule: "a case is one schema, one set of hidden elements and one sequence of accesses to the view, or one document judged against the view; every distinct one counts", quick: 3000, thorough: 200000,
        need: &[("document:hidden", 3000), ("document:visible", 8000), ("hidden:A", 4000), ("hidden:D", 300), ("hidden:F", 5000), ("hidden:I", 400), ("hidden:M", 300), ("hidden:T", 3000), ("hidden:V", 1000), ("hides:few", 1500), ("hides:many", 1000), ("hides:nothing", 1500), ("implementors", 800), ("null-warden", 1000), ("print", 9000), ("query-root-hidden", 5), ("references-resolved", 1000000), ("unreachable-types", 9000),  ("access:0", 9000), ("access:11", 9000)], case: vis::c21, probes: vis::c21_probes, assumptions: &[] },
    Prop { id: "C22", rule: "a case is one schema, one set of hidden elements and one sequence of accesses to the view, or one document judged against the view; every distinct one counts", quick: 3000, thorough: 200000,
        need: &[("document:hidden", 3000), ("document:visible", 8000), ("hidden:A", 4000), ("hidden:D", 300), ("hidden:F", 5000), ("hidden:I", 400), ("hidden:M", 300), ("hidden:T", 3000), ("hidden:V", 1000), ("hides:few", 1500), ("hides:many", 1000), ("hides:nothing", 1500), ("implementors", 800), ("null-warden", 1000), ("print", 9000), ("query-root-hidden", 5), ("references-resolved", 1000000), ("unreachable-types", 9000), ("scalar", 20000), ("access:0", 9000), ("access:11", 9000)], case: vis::c22, probes: vis::c22_probes, assumptions: &[] },
    Prop { id: "C23", rule: "a case is one schema; every distinct text counts", quick: 40000, thorough: 2000000,
        need: &[("sound", 5000), ("broken", 5000), ("rule:value", 3000), ("rule:field", 3000), ("rule:cycle", 5000), ("cycle:several-references", 1000), ("view", 20000)], case: defs::c23, probes: no_probes, assumptions: &["up to 40 input objects"] },
];
fn main() { go(PROPS) }
