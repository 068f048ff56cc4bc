//! Runs one check, prints the verdict and writes the evidence file.
use crate::pool::{self, Cx};
use std::time::Instant;

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn root() -> String {
    std::env::var("AMC_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn run(id: &'static str, body: fn(&mut Cx), rule: &str, assumptions: &[&str], tier: &str, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = format!("{}/build/scratch/{}-{}", root(), id, std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    let known = crate::known::load(id);
    let r = pool::run(id, tier == "thorough", seed, only, &scratch, body);
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = t0.elapsed().as_secs_f64();
    if let Some(e) = &r.error {
        eprintln!("ERROR property={id}: {e}");
        return 3;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((idx, desc, msg)) = &r.violation {
        let dir = format!("{}/build/replay", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{tier}-{idx}.txt");
        let text = format!(
            "property: {id}\ntier: {tier}\ncase: {idx}\nreplay: bin/check {id} {tier} --only {idx}\n\n--- case\n{desc}\n\n--- finding\n{msg}\n"
        );
        let _ = std::fs::write(&path, &text);
        // plain text on the standard output, whatever the case is made of
        println!("{}", &text.chars().map(|c| if c.is_control() && c != '\n' && c != '\t' { '?' } else { c }).take(6000).collect::<String>());
        println!("VIOLATION property={id} replay={path}");
        code = 1;
        nviol = 1;
    }
    let get = |k: &str| r.counts.get(k).copied().unwrap_or(0);
    let mut cov = format!(
        "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"rule\": {}",
        r.states,
        get("transitions"),
        get("traces"),
        json(rule)
    );
    cov.push_str(&format!(", \"cases_in_the_bounded_space\": {}", r.total_cases));
    cov.push_str(&format!(", \"state_count_is_a_lower_bound\": {}", r.states_capped));
    for (k, v) in &r.counts {
        if !["transitions", "traces", "max_cases"].contains(&k.as_str()) {
            cov.push_str(&format!(", {}: {}", json(k), v));
        }
    }
    cov.push_str(&format!(", \"exhaustive\": {}", code == 0 && only.is_none() && get("cut_off") == 0));
    cov.push_str(&format!(", \"samples\": [{}]", r.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")));
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json(id),
        json(tier),
        seed,
        cov,
        assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        wall,
        nviol
    );
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        if let Err(e) = std::fs::write(format!("{}/evidence/{id}.json", root()), ev) {
            eprintln!("ERROR property={id}: cannot write the evidence: {e}");
            return 3;
        }
    }
    println!(
        "{id} {tier}: {} cases, {} states, {} transitions, {} executions of the code, {:.1} s{}",
        r.total_cases,
        r.states,
        get("transitions"),
        get("traces"),
        wall,
        if code == 0 { ": held" } else { "" }
    );
    code
}
