use bjmon::props::*;
use bjmon::run::{main as go, no_probes, Prop};
static PROPS: &[Prop] = &[
    Prop { id: "C06", rule: "a case is one executable document (or one value) printed, parsed back and printed again; every distinct source text counts", quick: 120000, thorough: 20000000,
        need: &[("documents", 90000), ("values", 1000000), ("json-values", 100000), ("fragment-directives", 5000), ("variable-defaults", 5000)], case: print::c06, probes: no_probes, assumptions: &["nesting at most 80", "whether an operation was written in the shorthand form is not part of its meaning"] },
    Prop { id: "C07", rule: "a case is one buildable schema (random content, built-ins overridden, explicit and implicit roots) printed, built back and printed again; every distinct source text counts", quick: 50000, thorough: 6000000,
        need: &[("schemas", 30000), ("explicit", 10000), ("implicit", 10000)], case: print::c07, probes: no_probes, assumptions: &["the definitions of built-in directives that a schema redefines need not be printed"] },
    Prop { id: "C08", rule: "a case is one schema document (valid, or with one to three edits of its references and definitions) given to schema construction; every distinct source text counts", quick: 15000, thorough: 2000000,
        need: &[("built", 8000), ("rejected", 8000), ("references-resolved", 1000000), ("interfaces-with-implementors", 2000), ("rejected:unknown-type", 200), ("rejected:unknown-directive", 200), ("rejected:not-input", 50), ("rejected:not-output", 50), ("rejected:not-interface", 50), ("rejected:member-not-object", 50), ("rejected:duplicate-type", 200), ("rejected:duplicate-directive", 50), ("rejected:no-query", 50), ("rejected:duplicate-root", 20), ("rejected:unknown-root", 20), ("rejected:root-not-object", 50), ("rejected:several-schema-definitions", 20)], case: print::c08, probes: no_probes, assumptions: &["root operations on introspection types are not generated"] },
];
fn main() { go(PROPS) }
