//! Findings recorded in known_findings.txt: lines `KNOWN <property> <key>: <what fails>`.
pub fn lines(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", crate::report::root())).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={id} ")) {
            if let Some((k, w)) = r.split_once(" :: ") {
                v.push((k.trim().to_string(), w.trim().to_string()));
            }
        }
    }
    v
}
pub fn load(id: &str) -> Vec<String> {
    lines(id).into_iter().map(|(k, w)| format!("{k}: {w}")).collect()
}
