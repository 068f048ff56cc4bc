mod avro;
mod cli;
mod defs;
mod e2;
mod http;
mod http_checks;
mod http_more;
mod known;
mod lang;
mod lang_checks;
mod pool;
mod rt;
mod sut;
mod tls;
mod report;
mod rest;
mod runs;

use pool::Cx;

struct Check {
    id: &'static str,
    body: fn(&mut Cx),
    rule: &'static str,
    assumptions: &'static [&'static str],
}
fn checks() -> Vec<Check> {
    let mut v = Vec::new();
    let seq: &[&str] = &["the reference interpreter in mc/src/lang.rs states the intended behaviour", "texts longer than the bounds are covered only through the listed size families"];
    let mut add = |id, body, rule| v.push(Check { id, body, rule, assumptions: seq });
    add("C01", lang_checks::c01 as fn(&mut Cx), "every token sequence and character string up to the bound, every operator on every pair of boundary operands, every nesting family at every depth; the outcome must be a value or an error");
    add("C02", lang_checks::c02, "every sequence of up to four binary operators with decorated operands; value equal to the reference and to the fully parenthesised form");
    add("C03", lang_checks::c03, "every operator on every pair of boundary operands, small integers completely, shifts and powers of two; value equal to the reference, trichotomy");
    add("C04", lang_checks::c04, "every program of bounded size over effects, branches, short circuits and failures, from several states; output, result and bindings equal to the reference");
    add("C05", lang_checks::c05, "every text over the token characters up to the bound, every layout of every gap of a program set, every literal content; outcome equal to the reference and to the canonical layout");
    add("C06", lang_checks::c06, "every template over placeholder fragments with every argument count and kind; result and output bytes equal to the reference");
    add("C07", lang_checks::c07, "every small array and map under every index, and breadth-first search over aliasing histories; all bindings equal to the reference after every step");
    let net: &[&str] = &["the reference in mc/src/http.rs states the intended behaviour", "the socket calls of the process are answered by rt/amrt.c, which models stream sockets", "messages longer than the bounds are covered only through the listed size families"];
    let mut add = |id, body, rule| v.push(Check { id, body, rule, assumptions: net });
    add("C10", http_checks::c10 as fn(&mut Cx), "every template of up to k fragments under three environments, every history of calls, rebindings and redefinitions; every request on the wire equals the reference expansion");
    add("C11", http_checks::c11, "every combination of method, version, headers and body; every one and two cuts of the writes with and without interruption; sizes around the buffers; the bytes on the wire and the stored request equal the message");
    add("C12", http_checks::c12, "every URL over schemes, hosts, ports and target fragments; address of the connection, request target, recorded URL, TLS handshake for https");
    add("C13", http_checks::c13, "every list of fields over the alphabets, every character, files of boundary sizes, every cut of the writes; decoded fields equal the given ones");
    add("C14", http_checks::c14, "every response of the alphabet under every one and two cuts, every segmentation of short responses, sizes around the buffers, interruptions and pauses; response equals the reference");
    add("C15", http_checks::c15, "every single failure at every operation and byte of the exchange, every truncation, every short answer; error or response, one record, script goes on");
    add("C16", http_more::c16, "every JSON document of the alphabet up to depth and width bounds in four layouts, every short sequence of program fragments as a body; the decoded value equals the document, nothing is executed");
    add("C18", tls::c18, "every certificate, host name, version and date; every cut, pair of cuts, end, change, insertion and loss at every byte of the exchange; sizes around the record limits; every history of calls; no byte of the request outside an authenticated channel, request and response unchanged");
    add("C19", http_more::c19, "every assignment of durations to the five phases, every sequence of clock advances between readings, every setting back of the wall clock; exact parts, exact sum, no failure");
    add("C20", http_more::c20, "every comparison of the operand alphabet, every list of assertions up to the bound, on every response; operands, results, verdict and report equal the reference");
    add("C28", http_more::c28, "every text field at every boundary length, every count, number, duration and batch sequence of the alphabet; the file decodes by its own schema to exactly the calls");
    let runs: &[&str] = &[
        "the model in mc/src/runs.rs states the intended behaviour of a thread",
        "threads interleave at system calls, lock operations of the standard library and atomic accesses of the program; each of these steps is atomic",
        "schedules with more deviations than the bound, and more threads, are not covered",
        "the socket calls, clocks, files and signals of the process are answered by rt/amrt.c",
    ];
    let mut add = |id, body, rule| v.push(Check { id, body, rule, assumptions: runs });
    add("C21", runs::c21 as fn(&mut Cx), "every test body up to the bound under the undisturbed schedule; selected programs under every schedule up to the deviation bound; reports and records equal the calls of the model");
    add("C22", runs::c22, "every number and thread count up to the bound, every failing iteration; every schedule up to the deviation bound; the iterations of every thread equal its share");
    add("C23", runs::c23, "every length of an iteration against the duration, the timer and the signal at every decision point of every schedule up to the deviation bound; nothing starts after the stop, nothing done is lost");
    add("C24", runs::c24, "every test body up to the bound over assignments and uses of shared names; every schedule up to the deviation bound; every thread sees exactly its own assignments");
    add("C25", runs::c25, "every set of tests up to the bound over succeeding, failing and empty bodies, every failing top level; every schedule up to the deviation bound; requests, output and end equal the model");
    add("C26", runs::c26, "every sequence of durations up to the bound over two names; every schedule up to the deviation bound; the statistics equal those computed from the printed reports");
    add("C27", runs::c27, "every schedule and every short or interrupted write of standard output up to the deviation bound; every report and line in one piece");
    add("C29", runs::c29, "every schedule and every short or interrupted write of the record files up to the deviation bound; every prefix of every file decodes, finished iterations are in the file before the next begins");
    add("C17", cli::c17 as fn(&mut Cx), "every list of addresses up to the bound with every outcome and time of each attempt; every schedule up to the deviation bound of selected lists; success exactly when an address accepts, order, times, one request");
    let whole: &[&str] = &["the reference interpreter in mc/src/lang.rs states the intended results", "the system calls of the process are answered by rt/amrt.c", "longer histories, trees and arguments than the bounds are not covered"];
    let mut add = |id, body, rule| v.push(Check { id, body, rule, assumptions: whole });
    add("C08", cli::c08 as fn(&mut Cx), "every sequence of lines up to the bound, every ending, every one and two cuts of the input, every delivery up to the deviation bound; output equals that of the reference interpreter run line by line");
    add("C09", cli::c09, "every set of paths up to the bound in every listing order, every pair of file edges; output equals that of the reference interpreter on the files in path order");
    add("C30", cli::c30, "every text up to the bound over the alphabet, every boundary number with every unit, every pair of boundary numbers; usage error, or iterations and end at exactly the time meant");
    add("C31", rest::c31, "every sequence of tokens and of statements up to the bound, values of every kind, long programs, wrong command lines; output equals that of the reference interpreter, one value or error");
    add("C33", defs::c33, "every sequence of definitions and uses up to the bound in one text and over several, every name of a few characters as variable, request and test, many definitions; value, output, calls and variables equal to the reference, tests run as defined");
    let mut add = |id, body, rule| v.push(Check { id, body, rule, assumptions: runs });
    add("C32", rest::c32 as fn(&mut Cx), "every failure at every byte of the exchange in plain text and TLS, every list of addresses with every outcome and time, long runs, every schedule up to the deviation bound; every connection closed, losers unused and closed at once, no threads left");
    v
}

fn main() {
    rt::check_layout();
    std::env::set_var("SSL_CERT_FILE", format!("{}/certs/ca.pem", report::root()));
    std::env::remove_var("SSL_CERT_DIR");
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let only = opt("--only").and_then(|s| s.parse().ok());
    let Some(c) = checks().into_iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    std::process::exit(report::run(c.id, c.body, c.rule, c.assumptions, &tier, only));
}
