//! C18: TLS. The peer is a rustls server in the same process, driven by the socket layer of amrt.
use crate::http::{self, observe, Resp};
use crate::pool::Cx;
use crate::rt::*;
use crate::sut::{End, Session};
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::server::{ClientHello, ResolvesServerCert};
use rustls::sign::CertifiedKey;
use rustls::{ServerConfig, ServerConnection};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Close {
    Notify,  // close_notify, then the end of the stream
    Eof,     // the end of the stream only
    Reset,   // connection reset
}
/// What the server of one connection does.
#[derive(Clone)]
struct Plan {
    cfg: Option<Arc<ServerConfig>>, // None: speaks no TLS
    resp: Vec<u8>,
    records: Vec<usize>, // sizes of the writes of the response (the rest at once)
    close: Close,
    key_update: bool,
    seg: usize,                 // at most this many bytes at a time (0: any)
    limit: Option<usize>,       // the stream of the server ends here
    tamper: Option<(usize, u8)>, // this byte is changed
    insert: Option<(usize, Vec<u8>)>, // these bytes are inserted
    drop: Option<(usize, usize)>,
    tail: Vec<u8>,              // the request is complete when the plain text ends like this
}
struct Srv {
    conn: Option<ServerConnection>,
    q: Vec<u8>,
    net: Vec<u8>, // what the network delivered
    pos: usize,
    plain: Vec<u8>,
    raw: Vec<u8>,
    replied: bool,
    failed: bool,
    version: u16,
}
impl Srv {
    /// Whether the stream breaks off inside a record and no record before that was changed: nobody can tell
    /// this from a server that closes without a word. A record that is complete and was changed is an error.
    fn may_end_early(&self, p: &Plan) -> bool {
        let change = [p.tamper.map(|t| t.0), p.insert.as_ref().map(|t| t.0), p.drop.map(|t| t.0)].into_iter().flatten().next();
        let mut at = 0;
        while at + 5 <= self.net.len() {
            let n = 5 + u16::from_be_bytes([self.net[at + 3], self.net[at + 4]]) as usize;
            if at + n > self.net.len() {
                break;
            }
            at += n;
        }
        change.map_or(true, |c| c >= at)
    }
}
static mut PLANS: Vec<Plan> = Vec::new();
static mut SRVS: Vec<Srv> = Vec::new();
#[allow(static_mut_refs)]
fn plans() -> &'static mut Vec<Plan> {
    unsafe { &mut PLANS }
}
#[allow(static_mut_refs)]
fn srvs() -> &'static mut Vec<Srv> {
    unsafe { &mut SRVS }
}
extern "C" fn server(conn: i32, sent: *const u8, nsent: u32, out: *mut u8, cap: u32, eof: *mut i32) -> i32 {
    let sent: &[u8] = if nsent == 0 { &[] } else { unsafe { std::slice::from_raw_parts(sent, nsent as usize) } };
    let plan = &plans()[(conn as usize).min(plans().len() - 1)];
    let s = srvs();
    while s.len() <= conn as usize {
        let p = &plans()[s.len().min(plans().len() - 1)];
        s.push(Srv { conn: p.cfg.as_ref().map(|c| ServerConnection::new(c.clone()).unwrap()), q: vec![], net: vec![], pos: 0, plain: vec![], raw: vec![], replied: false, failed: false, version: 0 });
    }
    let s = &mut s[conn as usize];
    s.raw.extend_from_slice(sent);
    match &mut s.conn {
        None => {
            s.plain.extend_from_slice(sent);
            if !s.replied {
                s.replied = true;
                s.q.extend_from_slice(&plan.resp);
            }
        }
        Some(c) => {
            let mut rd = sent;
            while !rd.is_empty() && !s.failed {
                if c.read_tls(&mut rd).is_err() {
                    s.failed = true;
                    break;
                }
                match c.process_new_packets() {
                    Ok(st) => {
                        let mut b = vec![0; st.plaintext_bytes_to_read()];
                        if !b.is_empty() {
                            c.reader().read_exact(&mut b).unwrap();
                            s.plain.extend_from_slice(&b);
                        }
                    }
                    Err(_) => s.failed = true,
                }
            }
            if let Some(v) = c.protocol_version() {
                s.version = u16::from(v);
            }
            if !s.failed && !s.replied && s.plain.ends_with(&plan.tail) && !c.is_handshaking() && !s.plain.is_empty() {
                s.replied = true;
                let mut rest = &plan.resp[..];
                c.set_buffer_limit(None);
                for (i, n) in plan.records.iter().enumerate() {
                    let n = (*n).min(rest.len());
                    c.writer().write_all(&rest[..n]).unwrap();
                    rest = &rest[n..];
                    while c.wants_write() {
                        c.write_tls(&mut s.q).unwrap();
                    }
                    if plan.key_update && i == 0 {
                        let _ = c.refresh_traffic_keys();
                    }
                }
                c.writer().write_all(rest).unwrap();
                if plan.close == Close::Notify {
                    c.send_close_notify();
                }
            }
            while c.wants_write() {
                if c.write_tls(&mut s.q).is_err() {
                    break;
                }
            }
        }
    }
    let mut end = s.q.len();
    let cut = plan.limit.map_or(false, |l| end >= l);
    if let Some(l) = plan.limit {
        end = end.min(l);
    }
    let mut n = (end - s.pos).min(cap as usize);
    if plan.seg > 0 {
        n = n.min(plan.seg);
    }
    // the bytes a network in the middle delivers
    let mut part = s.q[s.pos..s.pos + n].to_vec();
    if let Some((p, x)) = plan.tamper {
        if p >= s.pos && p < s.pos + n {
            part[p - s.pos] ^= x;
        }
    }
    if let Some((p, b)) = &plan.insert {
        if *p >= s.pos && *p < s.pos + n {
            let at = *p - s.pos;
            part.splice(at..at, b.iter().copied());
        }
    }
    if let Some((p, k)) = plan.drop {
        let (a, b) = (p.max(s.pos), (p + k).min(s.pos + n));
        if a < b {
            part.drain(a - s.pos..b - s.pos);
        }
    }
    s.pos += n;
    s.net.extend_from_slice(&part);
    if part.is_empty() && plan.close == Close::Reset && !cut {
        unsafe { *eof = -libc::ECONNRESET };
    }
    unsafe { std::ptr::copy_nonoverlapping(part.as_ptr(), out, part.len()) };
    part.len() as i32
}

// ------------------------------------------------------------------------------ certificates
#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
fn pem(n: &str) -> CertificateDer<'static> {
    CertificateDer::from_pem_file(format!("{}/certs/{n}.pem", crate::report::root())).expect("certificate")
}
fn key(n: &str) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_file(format!("{}/certs/{n}.key", crate::report::root())).expect("key")
}
struct Id {
    label: &'static str,
    chain: Vec<&'static str>,
    key: &'static str,
    names: &'static [&'static str],
    ips: &'static [&'static str],
    from: i64, // seconds
    to: i64,
    trusted: bool, // issued by a trusted authority through valid issuers, for servers, and the server has the key
}
const Y2020: i64 = 1_577_836_800;
const Y2021: i64 = 1_609_459_200;
const Y2055: i64 = 2_682_374_400;
const Y2060: i64 = 2_840_140_800;
fn ids() -> Vec<Id> {
    let id = |label, chain: &[&'static str], key, names, ips, trusted| Id { label, chain: chain.to_vec(), key, names, ips, from: Y2020, to: Y2060, trusted };
    let t: &[&str] = &["tls.test"];
    let mut v = vec![
        id("good", &["good"], "good", t, &[], true),
        id("wild", &["wild"], "wild", &["*.tls.test"], &[], true),
        id("ip", &["ip"], "ip", &[], &["10.0.0.1"], true),
        id("wronghost", &["wronghost"], "wronghost", &["other.test"], &[], true),
        id("suffix", &["suffix"], "suffix", &["test", "a.tls.test", "tls.test.evil"], &[], true),
        id("nosan", &["nosan"], "nosan", &[], &[], true),
        id("untrusted", &["untrusted"], "untrusted", t, &[], false),
        id("untrusted with its root", &["untrusted", "ca2"], "untrusted", t, &[], false),
        id("self signed", &["self"], "self", t, &[], false),
        id("for clients", &["client"], "client", t, &[], false),
        id("leaf without issuer", &["leaf"], "leaf", t, &[], false),
        id("leaf with issuer", &["leaf", "inter"], "leaf", t, &[], true),
        id("leaf with issuer and root", &["leaf", "inter", "ca"], "leaf", t, &[], true),
        id("leaf with another issuer", &["leaf", "ca2"], "leaf", t, &[], false),
        id("issued by a server certificate", &["byleaf", "good"], "byleaf", t, &[], false),
        id("other key", &["good"], "wild", t, &[], false),
        id("other key, self signed", &["good"], "self", t, &[], false),
        id("trusted one after an untrusted one", &["untrusted", "good"], "untrusted", t, &[], false),
        id("untrusted one with the key of the trusted", &["self", "good"], "good", t, &[], false),
        id("trusted one before an unrelated one", &["good", "ca2"], "good", t, &[], true),
    ];
    v.push(Id { label: "expired", chain: vec!["expired"], key: "expired", names: &["tls.test"], ips: &[], from: Y2020, to: Y2021, trusted: true });
    v.push(Id { label: "not yet valid", chain: vec!["notyet"], key: "notyet", names: &["tls.test"], ips: &[], from: Y2055, to: Y2060, trusted: true });
    v
}
impl Id {
    fn config(&self, versions: &[&'static rustls::SupportedProtocolVersion], suite: Option<usize>) -> Option<Arc<ServerConfig>> {
        let mut p = rustls::crypto::ring::default_provider();
        if let Some(i) = suite {
            p.cipher_suites = vec![*p.cipher_suites.get(i)?];
        }
        let k = p.key_provider.load_private_key(key(self.key)).expect("private key");
        let ck = CertifiedKey::new(self.chain.iter().map(|c| pem(c)).collect(), k);
        let b = ServerConfig::builder_with_provider(Arc::new(p)).with_protocol_versions(versions).ok()?;
        Some(Arc::new(b.with_no_client_auth().with_cert_resolver(Arc::new(Fixed(Arc::new(ck))))))
    }
    fn accepts(&self, host: &str, t: i64) -> bool {
        let h = host.to_ascii_lowercase();
        let named = if h.chars().all(|c| c.is_ascii_digit() || c == '.') {
            self.ips.contains(&&h[..])
        } else {
            self.names.iter().any(|n| match n.strip_prefix("*.") {
                Some(d) => h.split_once('.').map_or(false, |(l, r)| !l.is_empty() && r == d),
                None => *n == h,
            })
        };
        named && self.trusted && self.from <= t && t <= self.to
    }
}
const V12: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS12];
const V13: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS13];
const BOTH: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS13, &rustls::version::TLS12];

// ------------------------------------------------------------------------------ one call
const NOW: i64 = 1_900_000_000;
const SECRET: &str = "c0nfidential";
struct Call<'a> {
    host: &'a str,
    msg: String,
    accept: Option<bool>, // None: an error or the exchange as it should be
    /// the response may end early (the stream was cut)
    cut: bool,
}
fn message(host: &str, body: &str) -> String {
    format!("POST https://{host}/{SECRET} HTTP/1.1\nHost: {host}\nAuthorization: {SECRET}\n\n{body}{SECRET}.")
}
fn plan(cfg: Option<Arc<ServerConfig>>) -> Plan {
    Plan { cfg, resp: http::OK.to_vec(), records: vec![], close: Close::Notify, key_update: false, seg: 0, limit: None, tamper: None, insert: None, drop: None, tail: format!("{SECRET}.").into_bytes() }
}
fn run(cx: &mut Cx, calls: &[Call], p: Vec<Plan>, at: i64) -> Result<(), String> {
    cx.shm.cfg.wall0 = at as u64 * 1_000_000_000;
    // another sequence of random numbers in every case: no identifier of an earlier session comes again
    cx.shm.cfg.seed = cx.case_hash;
    *plans() = p;
    srvs().clear();
    let mut s = Session::new();
    let mut text = String::new();
    for (i, c) in calls.iter().enumerate() {
        s.eval(&format!("request q{i}`{}`[]", c.msg));
        text.push_str(&format!("q{i}()\n"));
    }
    unsafe { am_set_server(Some(server)) };
    let o = observe(cx, &mut s, &format!("{text}17"));
    unsafe { am_set_server(None) };
    if o.end != End::Value("Integer(17)".into()) {
        return Err(format!("the script did not go on: {:?}", o.end));
    }
    let recs = o.recs()?;
    if recs.len() != calls.len() || o.conns.len() != calls.len() {
        return Err(format!("{} calls, {} records, {} connections", calls.len(), recs.len(), o.conns.len()));
    }
    for (i, c) in calls.iter().enumerate() {
        let at = if calls.len() > 1 { format!("call {} ({}): ", i + 1, c.host) } else { String::new() };
        judge(cx, c, &plans()[i.min(plans().len() - 1)], &recs[i], &o.sent[i], srvs().get(i)).map_err(|e| format!("{at}{e}"))?;
    }
    Ok(())
}
fn contains(h: &[u8], n: &str) -> bool {
    h.windows(n.len()).any(|w| w == n.as_bytes())
}
fn judge(cx: &mut Cx, c: &Call, p: &Plan, rec: &crate::avro::Rec, sent: &[u8], srv: Option<&Srv>) -> Result<(), String> {
    let m = http::message(&c.msg);
    if !m.url.https {
        http::check_wire(&m, sent, &|_| None)?;
        return Ok(());
    }
    let plain: &[u8] = srv.filter(|s| s.conn.is_some()).map_or(&[], |s| &s.plain);
    if contains(sent, SECRET) || contains(sent, "POST ") || contains(sent, "Authorization") {
        return Err(format!("the request is readable on the wire: {}", http::show(sent)));
    }
    if !sent.is_empty() && sent[0] != 22 {
        return Err(format!("the connection does not begin with a handshake: {}", http::show(sent)));
    }
    let got = http::of_rec(rec);
    if rec.error.is_empty() {
        if c.accept == Some(false) {
            return Err(format!("the exchange went on with a server that is not authenticated; the server read {}", http::show(plain)));
        }
        let srv = srv.ok_or("a response without a server")?;
        if srv.version != 0x0303 && srv.version != 0x0304 {
            return Err(format!("protocol version {:#x}", srv.version));
        }
        http::check_wire(&m, plain, &|_| None).map_err(|e| format!("inside the channel: {e}"))?;
        let want = http::response(&p.resp).unwrap_or_default();
        if !same(&got, &want) {
            let ok = c.cut && srv.may_end_early(p) && (0..p.resp.len()).any(|k| http::response(&p.resp[..k]).map_or(false, |w| same(&got, &w)));
            if !ok {
                return Err(format!("response {} {} {:?} body of {} bytes differs from the one sent ({} bytes of body)", got.version, got.status, got.headers, got.body.len(), want.body.len()));
            }
            cx.count("cut_short", 1);
        }
        cx.count("exchanges", 1);
        cx.state(format!("{:x} {} {:?} {}", srv.version, p.resp.len(), p.close, plain.len()).as_bytes());
    } else {
        if c.accept == Some(true) {
            return Err(format!("the call failed: {}", rec.error));
        }
        if !same(&got, &Resp::default()) {
            return Err(format!("the call failed ({}) with a response: {got:?}", rec.error));
        }
        if c.accept == Some(false) && !plain.is_empty() {
            return Err(format!("the server that is not authenticated read {}", http::show(plain)));
        }
        cx.count("refused", 1);
        cx.state(rec.error.as_bytes());
    }
    Ok(())
}
fn same(a: &Resp, b: &Resp) -> bool {
    a.version == b.version && a.status == b.status && a.reason == b.reason && a.headers == b.headers && a.body == b.body
}

pub fn c18(cx: &mut Cx) {
    let mut cache: HashMap<(usize, usize, usize), Option<Arc<ServerConfig>>> = HashMap::new();
    let ids = ids();
    let versions: [(&str, &[&'static rustls::SupportedProtocolVersion]); 3] = [("1.2", V12), ("1.3", V13), ("1.2 or 1.3", BOTH)];
    let mut config = |i: usize, v: usize, suite: Option<usize>| cache.entry((i, v, suite.map_or(0, |s| s + 1))).or_insert_with(|| {
        unsafe { am_reseed((i * 100 + v * 20 + suite.map_or(0, |s| s + 1)) as u64 + 7) };
        ids[i].config(versions[v].1, suite)
    }).clone();
    let good = 0;
    // who the server is: every certificate, host name, version and date
    let hosts = ["tls.test", "TLS.Test", "a.test", "x.tls.test", "a.tls.test", "b.a.tls.test", "other.test", "tls.test.evil", "test", "10.0.0.1", "10.0.0.2", "evil.example"];
    for (i, id) in ids.iter().enumerate() {
        for (v, (vn, _)) in versions.iter().enumerate() {
            for host in hosts {
                for at in [Y2020 - 86_400, Y2020 + 86_400, Y2021 - 86_400, Y2021 + 86_400, NOW, Y2055 - 86_400, Y2055 + 86_400, Y2060 + 86_400] {
                    for port in ["", ":8443"] {
                        if !port.is_empty() && at != NOW {
                            continue;
                        }
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let cfg = config(i, v, None);
                        let url = format!("{host}{port}");
                        cx.case(format!("certificate {}, TLS {vn}, host {url}, time {at}", id.label).as_bytes(), |cx| {
                            http::world(&mut cx.shm.cfg, b"");
                            let c = Call { host, msg: message(&url, ""), accept: Some(id.accepts(host, at)), cut: false };
                            run(cx, &[c], vec![plan(cfg)], at)
                        });
                    }
                }
            }
        }
    }
    // every kind of host, port, method and version with every certificate
    let mut names: Vec<String> = ["localhost", "LOCALHOST", "localhost.localdomain", "x.localhost", "ip6-localhost", "127.0.0.1", "127.0.1.1", "0.0.0.0", "192.168.0.1", "172.16.0.1", "10.1.1.1", "169.254.0.1", "8.8.8.8", "[::1]", "[fe80::1]", "[2001:db8::1]", "x.local", "x.internal", "x.lan", "x.example", "x.invalid", "x.onion", "dev.tls.test", "www.tls.test", "staging.tls.test", "xn--bcher-kva.example", "1.tls.test", "a_b.test", "tls-test", "tls.tes", "tls.tesx", "xtls.test", "t.ls.test", "TLS.TEST"].map(String::from).to_vec();
    for a in "ab1xz".chars() {
        names.push(a.to_string());
        for b in "b2-y".chars() {
            names.push(format!("{a}{b}"));
            names.push(format!("{a}{b}.{a}"));
        }
    }
    names.retain(|n| n.starts_with('[') || n.parse::<std::net::Ipv4Addr>().is_ok() || n.rsplit('.').next().map_or(false, |l| l.parse::<u32>().is_err()) && !n.ends_with('-') && !n.contains("-."));
    for n in [31usize, 63] {
        names.push(format!("{}.test", "n".repeat(n)));
        names.push(format!("{}.tls.test", "n".repeat(n)));
    }
    for (i, id) in ids.iter().enumerate() {
        for v in 0..2 {
            let mut reqs: Vec<(String, String, &str, &str)> = names.iter().map(|h| (h.clone(), String::new(), "POST", "HTTP/1.1")).collect();
            for port in [1, 22, 80, 443, 444, 1443, 3000, 4443, 5000, 8000, 8080, 8443, 8888, 9000, 9443, 10443, 44300, 44443, 65535] {
                reqs.push(("tls.test".into(), format!(":{port}"), "POST", "HTTP/1.1"));
            }
            for m in http::METHODS {
                for ver in http::VERSIONS {
                    reqs.push(("tls.test".into(), String::new(), m, ver));
                }
            }
            for (host, port, method, version) in reqs {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let cfg = config(i, v, None);
                cx.case(format!("certificate {}, TLS {}, {method} {host}{port} {version}", id.label, versions[v].0).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, b"");
                    let msg = message(&format!("{host}{port}"), "").replace("POST ", &format!("{method} ")).replace("HTTP/1.1", version);
                    let c = Call { host: &host, msg, accept: Some(id.accepts(&host, NOW)), cut: false };
                    run(cx, &[c], vec![plan(cfg)], NOW)
                });
            }
        }
    }
    // every cipher suite of the two versions
    for v in 0..2 {
        for suite in 0..16 {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let Some(cfg) = config(good, v, Some(suite)) else {
                cx.skip();
                continue;
            };
            let ecdsa = !format!("{:?}", cfg.crypto_provider().cipher_suites[0].suite()).contains("_RSA_");
            cx.case(format!("suite {suite}, TLS {}", versions[v].0).as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, b"");
                let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: Some(ecdsa), cut: false };
                run(cx, &[c], vec![plan(Some(cfg))], NOW)
            });
        }
    }
    // servers that do not speak TLS
    let junk: Vec<Vec<u8>> = vec![
        vec![],
        http::OK.to_vec(),
        b"\x15\x03\x03\x00\x02\x02\x28".to_vec(),
        b"\x15\x03\x03\x00\x02\x01\x00".to_vec(),
        b"\x16\x03\x03\x00\x04\x0e\x00\x00\x00".to_vec(),
        b"\x17\x03\x03\x00\x10HTTP/1.1 200 OK\n".to_vec(),
        vec![0; 600],
        vec![0x16; 600],
        b"\x16\x03\x01\x40\x00".iter().copied().chain((0..0x4000).map(|_| 0)).collect(),
    ];
    for j in &junk {
        for close in [Close::Eof, Close::Reset] {
            cx.case(format!("no TLS: {} {close:?}", http::show(j)).as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, b"");
                let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: Some(false), cut: false };
                run(cx, &[c], vec![Plan { resp: j.clone(), close, ..plan(None) }], NOW)
            });
        }
    }
    // sizes, record boundaries, the way the server closes
    let sizes = [0usize, 1, 100, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 16406, 32768, 40_000, 100_000];
    for v in 0..2 {
        for n in sizes {
            for m in [0usize, 1, 8192, 16384, 20_000, 70_000] {
                for close in [Close::Notify, Close::Eof] {
                    for (records, ku) in [(vec![], false), (vec![1, 1, 1], false), (vec![10, 16384], true), (vec![5, 6, 7], true), (vec![0, 40], false)] {
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let cfg = config(good, v, None);
                        let body = "0123456789abcdef".repeat(m / 16);
                        let text: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
                        cx.case(format!("TLS {}, request body {m}, response body {n}, records {records:?}, key update {ku}, {close:?}", versions[v].0).as_bytes(), |cx| {
                            http::world(&mut cx.shm.cfg, b"");
                            let c = Call { host: "tls.test", msg: message("tls.test", &body), accept: Some(true), cut: false };
                            let resp = format!("HTTP/1.1 200 OK\r\nA: b\r\n\r\n{text}").into_bytes();
                            run(cx, &[c], vec![Plan { resp, records: records.clone(), close, key_update: ku && v == 1, ..plan(cfg) }], NOW)
                        });
                    }
                }
            }
        }
    }
    // every delivery: one cut and pairs of cuts in both directions, small segments
    for v in 0..2 {
        let Some(cfg) = config(good, v, None) else { continue };
        let (down, up) = lengths(cx, &plan(Some(cfg.clone())));
        for seg in [1usize, 2, 3, 5, 7, 16, 100, 500] {
            cx.case(format!("TLS {}, segments of {seg}", versions[v].0).as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, b"");
                let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: Some(true), cut: false };
                run(cx, &[c], vec![Plan { seg, close: Close::Eof, ..plan(Some(cfg.clone())) }], NOW)
            });
        }
        for eintr in [0, 1] {
            let stride = if cx.thorough { if eintr == 0 { 1 } else { 5 } } else { 41 };
            for i in 0..down {
                for j in i..down {
                    if j != i && (j - i) % stride != 0 && j != i + 1 {
                        continue;
                    }
                    if j != i && !cx.thorough && i % 7 != 0 {
                        continue;
                    }
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    cx.case(format!("TLS {}, the answers are cut at {i} and {j}, interruptions {eintr}", versions[v].0).as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, b"");
                        let f = &mut cx.shm.cfg;
                        f.cut[0] = i as u32;
                        f.cut[1] = j as u32;
                        f.ncut = if i == j { 1 } else { 2 };
                        f.cut_eintr = eintr;
                        let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: Some(true), cut: false };
                        run(cx, &[c], vec![plan(Some(cfg.clone()))], NOW)
                    });
                }
            }
            for i in 0..if eintr == 0 { up } else { 0 } {
                for j in i..up {
                    if j != i && (j - i) % stride != 0 && j != i + 1 {
                        continue;
                    }
                    if j != i && !cx.thorough && i % 7 != 0 {
                        continue;
                    }
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    cx.case(format!("TLS {}, the questions are cut at {i} and {j}", versions[v].0).as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, b"");
                        let f = &mut cx.shm.cfg;
                        f.scut[0] = i as u32;
                        f.scut[1] = j as u32;
                        f.nscut = if i == j { 1 } else { 2 };
                        f.cut_eintr = eintr;
                        let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: Some(true), cut: false };
                        run(cx, &[c], vec![plan(Some(cfg.clone()))], NOW)
                    });
                }
            }
        }
        // a network in the middle: the stream ends at every byte, every byte is changed, bytes are added and lost
        let parts = Plan { records: vec![12, 6, 1], ..plan(Some(cfg.clone())) };
        let down = lengths(cx, &parts).0;
        for i in 0..down {
            for close in [Close::Eof, Close::Reset] {
                cx.case(format!("TLS {}, the stream ends at {i}, {close:?}", versions[v].0).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, b"");
                    let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: None, cut: true };
                    run(cx, &[c], vec![Plan { limit: Some(i), close, ..parts.clone() }], NOW)
                });
            }
            for x in if cx.thorough { vec![1u8, 2, 4, 8, 16, 32, 64, 128, 255] } else { vec![1, 0x80] } {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                cx.case(format!("TLS {}, byte {i} changed by {x:#x}", versions[v].0).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, b"");
                    let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: None, cut: true };
                    run(cx, &[c], vec![Plan { tamper: Some((i, x)), ..parts.clone() }], NOW)
                });
            }
            let extra: &[&[u8]] = &[b"\0", b"HTTP/1.1 200 OK\r\n\r\n", b"\x17\x03\x03\x00\x05hello", b"\x15\x03\x03\x00\x02\x01\x00", b"\x14\x03\x03\x00\x01\x01"];
            for (k, e) in extra.iter().enumerate() {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                cx.case(format!("TLS {}, insertion {k} at {i}", versions[v].0).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, b"");
                    let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: None, cut: true };
                    run(cx, &[c], vec![Plan { insert: Some((i, e.to_vec())), ..parts.clone() }], NOW)
                });
            }
            for k in [1usize, 5, 22] {
                cx.case(format!("TLS {}, {k} bytes lost at {i}", versions[v].0).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, b"");
                    let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: None, cut: true };
                    run(cx, &[c], vec![Plan { drop: Some((i, k)), ..parts.clone() }], NOW)
                });
            }
        }
    }
    // histories: what one call established is no authentication for the next
    let kinds: [(&str, usize); 5] = [("tls.test", 0), ("tls.test", 6), ("x.tls.test", 1), ("tls.test", 15), ("other.test", 0)];
    let n = kinds.len() * 2 + 1; // the last: a call in plain text
    for len in 2..=if cx.thorough { 4 } else { 3 } {
        crate::lang_checks::sequences(n, len, |q| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let mut calls = Vec::new();
            let mut ps = Vec::new();
            for k in q {
                if *k == n - 1 {
                    calls.push(Call { host: "plain", msg: "GET http://tls.test/".into(), accept: Some(true), cut: false });
                    ps.push(plan(None));
                } else {
                    let (host, id) = kinds[k / 2];
                    calls.push(Call { host, msg: message(host, ""), accept: Some(ids[id].accepts(host, NOW)), cut: false });
                    // one configuration for all connections: sessions of the server can be resumed
                    ps.push(plan(config(id, k % 2, None)));
                }
            }
            let d = calls.iter().zip(q).map(|(c, k)| format!("{} {k}", c.host)).collect::<Vec<_>>().join(", ");
            cx.case(format!("history {d}").as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, b"");
                run(cx, &calls, ps, NOW)
            });
        });
    }
}
/// Bytes the two sides send in an undisturbed exchange.
fn lengths(cx: &mut Cx, p: &Plan) -> (usize, usize) {
    cx.case_hash = 12345; // the same exchange in every worker
    http::world(&mut cx.shm.cfg, b"");
    let c = Call { host: "tls.test", msg: message("tls.test", ""), accept: None, cut: true };
    let _ = run(cx, &[c], vec![p.clone()], NOW);
    let s = &srvs()[0];
    (s.q.len() + 8, s.raw.len() + 8)
}

/// Exchanges over TLS for C32: good ones, refused ones, ends at every byte.
pub fn c32(cx: &mut Cx, tidy: &dyn Fn(&Trace) -> Result<(), String>) {
    let list = ids();
    let go = |cx: &mut Cx, d: String, cert: &str, host: &str, versions: &[&'static rustls::SupportedProtocolVersion], set: &dyn Fn(&mut Plan), n: usize| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let id = list.iter().find(|i| i.label == cert).expect("certificate");
        let cfg = id.config(versions, None);
        cx.case(d.as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, b"");
            cx.shm.cfg.wall0 = NOW as u64 * 1_000_000_000;
            cx.shm.cfg.seed = 12345;
            let mut pl = plan(cfg.clone());
            set(&mut pl);
            *plans() = vec![pl];
            srvs().clear();
            let mut s = Session::new();
            s.eval(&format!("request q`{}`[]", message(host, "")));
            unsafe { am_set_server(Some(server)) };
            let o = observe(cx, &mut s, &"q(); ".repeat(n));
            unsafe { am_set_server(None) };
            cx.count("connections", o.conns.len() as u64);
            cx.state(d.as_bytes());
            tidy(crate::sut::trace())
        });
    };
    for (vn, vs) in [("1.2", V12), ("1.3", V13)] {
        for close in [Close::Notify, Close::Eof, Close::Reset] {
            for n in [1usize, 2, 20] {
                for cert in ["good", "untrusted", "wronghost", "expired", "self signed"] {
                    go(cx, format!("TLS {vn}, {cert}, {close:?}, {n} calls"), cert, "tls.test", vs, &|p| p.close = close, n);
                }
            }
            for i in (0..2600usize).step_by(if cx.thorough { 1 } else { 13 }) {
                go(cx, format!("TLS {vn}, the stream ends at {i}, {close:?}"), "good", "tls.test", vs, &|p| {
                    p.close = close;
                    p.limit = Some(i);
                }, 2);
                go(cx, format!("TLS {vn}, byte {i} changed, {close:?}"), "good", "tls.test", vs, &|p| {
                    p.close = close;
                    p.tamper = Some((i, 0x41));
                }, 2);
            }
        }
    }
}
