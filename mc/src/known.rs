//! The committed list of known findings (genuine defects that are recorded and
//! not repaired). A finding suppresses only its own wrong value.
use std::sync::OnceLock;

static LISTED: OnceLock<Vec<(String, bool)>> = OnceLock::new();

/// Lines "known: property=<id> <finding>: ...".
pub fn load(root: &str, prop: &str) {
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let mut w = r.split_whitespace();
        if let (Some(p), Some(id)) = (w.next(), w.next()) {
            v.push((id.trim_end_matches(':').to_string(), p == prop));
        }
    }
    let _ = LISTED.set(v);
}

/// Listed at all (the other properties' checks tolerate the wrong value).
pub fn listed(id: &str) -> bool {
    LISTED.get().map_or(false, |v| v.iter().any(|x| x.0 == id))
}

/// Listed for the property that is being checked, so to be reported by it.
pub fn ours(id: &str) -> bool {
    LISTED.get().map_or(false, |v| v.iter().any(|x| x.0 == id && x.1))
}
