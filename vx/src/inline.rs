use std::collections::BTreeSet;
pub fn inline_helpers(src: &str, _mp: &str, _known: &BTreeSet<String>, _fns: &BTreeSet<String>) -> (String, Vec<String>) {
    (src.to_string(), vec![])
}
