use bjmon::props::*;
use bjmon::run::{main as go, no_probes, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C13", rule: "a case is one operation with one JSON payload; every distinct pair whose operation has variables counts, judged by the reference JSON coercion", quick: 25000, thorough: 150000,
        need: &[("fits", 2000), ("missing", 500), ("invalid", 2000), ("unused", 500)], case: oper::c13, probes: oper::c13_probes, assumptions: &["whole-number floats for Int, and integers beyond 32 bits for ID, are left open in the random part"] },
    Prop { id: "C14", rule: "a case is one operation with one payload; non-trivial when its depth exceeds 1; compared with the reference expansion and with a rewritten document", quick: 12000, thorough: 200000,
        need: &[("exact", 3000), ("skipped-selections", 500), ("rewrite:fragment", 300)], case: oper::c14, probes: no_probes, assumptions: &["a selection whose skip/include condition has no value is left open"] },
    Prop { id: "C15", rule: "a case is one operation with one payload under one cost model; non-trivial when the cost exceeds 1; compared with the reference maximum over concrete types and with a rewritten document", quick: 4500, thorough: 200000,
        need: &[("first-and-last-differ", 800), ("exact", 3000), ("relay-above-20", 300), ("model:Relay", 2000)], case: oper::c15, probes: no_probes, assumptions: &["types excluded only by an outer condition may or may not count", "weights and multipliers are computed in f32 as documented"] },
    Prop { id: "C16", rule: "a case is one operation with one payload and one maximum; non-trivial when it passes lists, objects or variables", quick: 20000, thorough: 200000,
        need: &[("oversized", 1500), ("none", 1500)], case: oper::c16, probes: no_probes, assumptions: &["arguments of excluded selections and lists inside a reported list are left open"] },
    Prop { id: "C17", rule: "a case is one operation with one payload; non-trivial when a deprecated element occurs in it", quick: 20000, thorough: 200000,
        need: &[("deprecated", 2000), ("none", 300), ("use:Field", 500), ("use:Argument", 500), ("use:InputField", 200), ("use:EnumValue", 200)], case: oper::c17, probes: no_probes, assumptions: &["arguments of excluded selections and defaults overridden by the payload are left open"] },
    Prop { id: "C18", rule: "a case is one document, operation name and payload analysed alone, combined in four ways, repeated, with the other operations removed and on four threads; non-trivial when an operation is picked", quick: 3500, thorough: 30000,
        need: &[("resolved", 1500), ("unresolved", 1500), ("combined", 5000), ("thread-runs", 5000)], case: oper::c18, probes: no_probes, assumptions: &["lists of errors are compared as multisets"] },
    Prop { id: "C25", rule: "a case is one document whose recorded visitor calls are compared with the reference traversal; non-trivial above 3 calls", quick: 2000, thorough: 150000,
        need: &[("valid-document", 2000), ("edited-document", 2000), ("document-events", 100000), ("operation-events", 50000), ("excluded-fields", 200)], case: trav::c25, probes: no_probes, assumptions: &["calls of one kind are compared in order; between kinds, and for arguments, directives and inline fragments, only as multisets"] },
];
fn main() { go(PROPS) }
