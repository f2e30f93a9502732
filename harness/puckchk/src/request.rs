//! C01, C02, C03: requests.
use crate::gen::*;
use crate::io::*;
use kit::{ensure, ensure_eq, Bytes, Part, Prop, Seen, Src, Verdict};
use puck::body::Body;
use puck::request::{Method, RequestParseError};
use puck::Request;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;

fn method_name(m: &Method) -> String {
    match m {
        Method::Get => "GET".into(),
        Method::Post => "POST".into(),
        Method::Head => "HEAD".into(),
        Method::OtherMethod(s) => format!("other:{}", s),
    }
}
fn expected_method(m: &str) -> String {
    match m {
        "GET" | "POST" | "HEAD" => m.into(),
        _ => format!("other:{}", m),
    }
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    Origin,
    Absolute { scheme: String, host: String, port: Option<u16> },
    Connect,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub method: String,
    pub target: Target,
    pub path: String,
    pub query: Option<String>,
    pub host: String,
    pub port: Option<u16>,
    pub headers: Vec<Line>,
    pub minor: u8,
    pub declared: bool,
    pub body: Bytes,
    /// bytes on the stream after the body (only with a declared length)
    pub after: Bytes,
    /// bytes missing at the end of the body (only with a declared length)
    pub missing: usize,
    pub cuts: Vec<usize>,
    pub read_sizes: Vec<usize>,
}

pub fn host_port(h: &str, p: Option<u16>) -> String {
    match p {
        Some(p) => format!("{}:{}", h, p),
        None => h.to_string(),
    }
}

pub fn gen_req(s: &mut Src) -> Req {
    let (host, port) = gen_host(s);
    let target = match s.weighted(&[10, 2, 1]) {
        0 => Target::Origin,
        1 => {
            let (host, port) = gen_host(s);
            let scheme = s.pick(&["http", "https"]).to_string();
            let port = if scheme == "https" && port == Some(443) { Some(444) } else { port };
            Target::Absolute { scheme, host, port }
        }
        _ => Target::Connect,
    };
    let method = if let Target::Connect = target { "CONNECT".to_string() } else { gen_method(s) };
    let declared = s.chance(3, 4);
    let n = gen_size(s);
    let body = s.blob(n);
    let mut headers = gen_fillers(s, if declared { 18 } else { 19 });
    if s.chance(1, 5) && !headers.is_empty() {
        let (name, value) = *s.pick(&[("Connection", "close"), ("Connection", "keep-alive"), ("Connection", "Upgrade, HTTP2-Settings"), ("Upgrade", "h2c"), ("Upgrade", "websocket"), ("Content-Type", "text/html"), ("Content-Type", "application/x-www-form-urlencoded"), ("Content-Type", "multipart/form-data; boundary=a")]);
        let i = s.below(headers.len() as u64) as usize;
        headers[i] = Line { name: recase(s, name), value: value.into(), before: gen_ows(s), after: String::new() };
    }
    let hl = Line { name: recase(s, "Host"), value: host_port(&host, port), before: gen_ows(s), after: s.pick(&["", " "]).to_string() };
    let at = s.below(headers.len() as u64 + 1) as usize;
    headers.insert(at, hl);
    let mut after = vec![];
    let mut missing = 0;
    if declared {
        let zeros = *s.pick(&["", "", "0", "000"]);
        let cl = Line { name: recase(s, "Content-Length"), value: format!("{}{}", zeros, body.len()), before: gen_ows(s), after: String::new() };
        let at = s.below(headers.len() as u64 + 1) as usize;
        headers.insert(at, cl);
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                let n = s.range(1, 50);
                after = s.blob(n)
            }
            _ => missing = s.below(body.len() as u64 + 1) as usize,
        }
    }
    Req {
        method,
        target,
        path: gen_path(s),
        query: gen_query(s),
        host,
        port,
        headers,
        minor: s.below(2) as u8 ^ 1,
        declared,
        body: body.into(),
        after: after.into(),
        missing,
        cuts: gen_cuts(s),
        read_sizes: s.vec(1, 4, |s| *s.pick(&[1usize, 2, 7, 64, 1000, 4096, 100000])),
    }
}

impl Req {
    pub fn pq(&self) -> String {
        match &self.query {
            Some(q) => format!("{}?{}", self.path, q),
            None => self.path.clone(),
        }
    }
    pub fn head(&self) -> Vec<u8> {
        let t = match &self.target {
            Target::Origin => self.pq(),
            Target::Absolute { scheme, host, port } => format!("{}://{}{}", scheme, host_port(host, *port), self.pq()),
            Target::Connect => host_port(&self.host, Some(self.port.unwrap_or(443))),
        };
        let mut out = format!("{} {} HTTP/1.{}\r\n", self.method, t, self.minor).into_bytes();
        for h in &self.headers {
            h.wire(&mut out);
        }
        out.extend(b"\r\n");
        out
    }
    pub fn wire(&self) -> Vec<u8> {
        let mut out = self.head();
        out.extend(&self.body[..self.body.len() - self.missing]);
        out.extend(&self.after[..]);
        out
    }
}

/// Read a body with the given buffer sizes until it reports its end.
pub fn drain(b: &mut impl Read, sizes: &[usize], limit: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut space = vec![];
    let mut i = 0;
    loop {
        let n = sizes[i % sizes.len()].max(1);
        i += 1;
        if space.len() < n {
            space.resize(n, 0x5a);
        }
        let buf = &mut space[..n];
        let k = b.read(buf).map_err(|e| format!("reading the body failed: {}", e))?;
        ensure!(k <= n, "read returned {} for a buffer of {}", k, n);
        if k == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..k]);
        ensure!(out.len() <= limit, "the body yields more than {} bytes", limit);
    }
}

fn check_c01(c: &Req) -> Verdict {
    let wire = c.wire();
    let feed = Feed::new(&wire, &c.cuts, End::Eof);
    let mut r = match Request::parse(feed.clone()) {
        Ok(Some(r)) => r,
        Ok(None) => return Err("no request found".into()),
        Err(e) => return Err(format!("well-formed request rejected: {:?}", e)),
    };
    ensure_eq!(method_name(r.method()), expected_method(&c.method), "method");
    let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let want: BTreeMap<_, _> = c.headers.iter().map(|l| (l.name.clone(), l.value.clone())).collect();
    ensure_eq!(got, want, "headers");
    let u = r.url();
    let (scheme, host, port, path, query) = match &c.target {
        Target::Origin => ("http", &c.host, c.port, c.path.as_str(), c.query.as_deref()),
        Target::Absolute { scheme, host, port } => (scheme.as_str(), host, *port, c.path.as_str(), c.query.as_deref()),
        Target::Connect => ("http", &c.host, c.port, "/", None),
    };
    ensure_eq!(u.scheme(), scheme, "URL scheme");
    ensure_eq!(u.host_str(), Some(host.as_str()), "URL host");
    ensure_eq!(u.port(), port, "URL port");
    ensure_eq!(u.path(), path, "URL path");
    ensure_eq!(u.query(), query, "URL query");
    ensure!(u.username().is_empty() && u.password().is_none() && u.fragment().is_none(), "URL has extra parts: {}", u);
    let mut b = r.take_body();
    let got = drain(&mut b, &c.read_sizes, wire.len())?;
    let want = &c.body[..c.body.len() - c.missing];
    ensure!(got == want, "body: got {} bytes {}, expected {} bytes {}", got.len(), show(&got), want.len(), show(want));
    let head = c.head().len();
    Ok(Seen::new(c.headers.len() >= 2)
        .label(c.headers.len() == 20, "20 headers")
        .label(cuts_inside(&c.cuts, head), "head cut")
        .label(!c.body.is_empty(), "body")
        .label(c.body.len() > 8192, "big body")
        .label(!c.after.is_empty(), "bytes after the body")
        .label(c.missing > 0, "body cut short")
        .label(!c.declared, "no length")
        .label(c.query.is_some(), "query")
        .label(c.method == "HEAD", "HEAD")
        .label(matches!(c.target, Target::Absolute { .. }), "absolute target")
        .label(matches!(c.target, Target::Connect), "CONNECT"))
}

fn large_req(c: &Large) -> Req {
    let mut headers = vec![Large::line("Host", "h.test".into())];
    if c.declared {
        headers.push(Large::line("Content-Length", c.n.to_string()));
    }
    Req {
        method: "POST".into(),
        target: Target::Origin,
        path: "/upload".into(),
        query: None,
        host: "h.test".into(),
        port: None,
        headers,
        minor: 1,
        declared: c.declared,
        body: c.bytes(c.n).into(),
        after: c.after().into(),
        missing: 0,
        cuts: c.cuts(),
        read_sizes: vec![c.read],
    }
}

fn check_c01_large(c: &Large) -> Verdict {
    check_c01(&large_req(c)).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

fn long_req(c: &LongHead) -> Req {
    let mut headers = c.lines();
    headers.insert(c.salt as usize % (headers.len() + 1), Large::line("Host", "h.test".into()));
    if c.declared {
        headers.push(Large::line("Content-Length", c.body.to_string()));
    }
    Req {
        method: c.at(2).map_or("POST".into(), |m| m.to_ascii_uppercase()),
        target: Target::Origin,
        path: format!("/{}", c.at(0).unwrap_or_default()),
        query: c.at(1),
        host: "h.test".into(),
        port: None,
        headers,
        minor: 1,
        declared: c.declared,
        body: c.body(),
        after: Bytes::default(),
        missing: 0,
        cuts: c.cuts(),
        read_sizes: vec![4096],
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub bytes: Bytes,
    pub cuts: Vec<usize>,
    /// the stream fails (instead of ending) when its bytes are used up
    pub reset: bool,
}

pub const TOKENS: &[&[u8]] = &[
    b"\r\n", b"\r\n\r\n", b"\n", b"\r", b"\n\n", b" ", b":", b"\t", b"\0", b"\xff", b"\xc3\xa9", b"HTTP/1.1", b"HTTP/2.0", b"Host: other\r\n", b"host: other.test\r\n",
    b"HOST: x\r\n", b"Content-Length: 3\r\n", b"content-length: 5\r\n", b"CONTENT-LENGTH: 0\r\n", b"Content-Length: -1\r\n", b"Content-Length: 99999999999999999999\r\n", b"X: \xff\r\n", b"/", b"//", b"?", b"#", b"@", b"\\",
    b"http://", b"https://h/", b"CONNECT ", b"GET ", b"Transfer-Encoding: chunked\r\n", b"A: b\r\n C: d\r\n", b"%00", b"..", b"/../", b"*",
];

const HOSTS: &[&str] = &[
    "", "a", "a.b", "a:80", "a:81", "a:", "a:99999", "a:b", ":80", "a/b", "a/", "/", "//a", "a?b", "a#b", "a@b", "u:p@h", "a\\b", "\\a", "a b", "a\tb", "[::1]", "[::1", "[::1]:80", "::1", "1.2.3.4", "1.2.3", "256.1.1.1",
    "A.B", "EXAMPLE.com:8080", "a%20b", "a%2Fb", "é.com", "xn--a", "a,b", "a;b", "a.", ".", "..", "-", "_", "a|b", "a<b", "a^b", "%", "a%41", "a\u{a0}b", "a\u{3000}b", "x/../y", "a/b/../..", "?", "#", "@", "a:80/b", "a\u{ff0f}b",
];
const TARGETS: &[&str] = &[
    "/", "/a", "/a/b", "//", "//a", "//a/b", "/?", "/?q", "/a?b?c", "/#f", "/a#f?g", "/\\b", "/a/../b", "/..", "/./a", "/%2e%2e/a", "/%", "/a:80", "/@h", "*", "a", "?q", "#", "http://h", "http://h/", "http://h/a?b", "https://h:1/x", "http://",
    "http:///x", "http:/x", "HTTP://h/", "ftp://h/", "h:80", "a@b", "\\", "http://u:p@h/", "http://h:99999/", "http://[::1]/", "http://a b/", "/é", "/\u{7f}",
];

fn gen_raw(s: &mut Src) -> Raw {
    let bytes = match s.weighted(&[6, 6, 3, 1]) {
        0 => {
            let r = gen_req(s);
            let w = r.wire();
            mutate(s, w, TOKENS)
        }
        1 => {
            // repeated and unusual Host, Content-Length and targets
            let m = if s.chance(1, 5) { s.pick(&["CONNECT", "connect"]).to_string() } else { gen_method(s) };
            let t = if s.bool() { s.pick(TARGETS).to_string() } else { gen_path(s) };
            let mut out = format!("{} {} HTTP/1.1\r\n", m, t).into_bytes();
            let n = s.vec(0, 5, |s| {
                let name = match s.weighted(&[4, 3, 1]) {
                    0 => recase(s, "Host"),
                    1 => recase(s, "Content-Length"),
                    _ => recase(s, "X-Filler"),
                };
                let value = if name.eq_ignore_ascii_case("host") {
                    if s.bool() { s.pick(HOSTS).to_string() } else { let (h, p) = gen_host(s); host_port(&h, p) }
                } else {
                    s.pick(&["0", "3", "7", "20", "x", "", "-1", "007"]).to_string()
                };
                (name, value)
            });
            for (n, v) in &n {
                out.extend(format!("{}: {}\r\n", n, v).bytes());
            }
            if s.chance(1, 6) {
                // around the header limit
                let have = n.len();
                let want = *s.pick(&[19usize, 20, 21, 22, 40]);
                for i in have..want {
                    out.extend(format!("H{}: {}\r\n", i, i).bytes());
                }
            }
            if s.chance(1, 12) {
                out.extend(b"V: \xff\xfe\r\n");
            }
            out.extend(b"\r\n");
            let n = s.range(0, 30);
            out.extend(s.blob(n));
            out
        }
        2 => {
            let r = gen_req(s);
            let w = r.wire();
            let k = s.below(w.len() as u64 + 1) as usize;
            w[..k].to_vec()
        }
        _ => s.vec(0, 60, |s| s.byte()),
    };
    Raw { bytes: bytes.into(), cuts: gen_cuts(s), reset: s.chance(1, 6) }
}

#[derive(Debug, PartialEq, Clone)]
struct Outcome {
    kind: String,
    method: String,
    url: String,
    headers: BTreeMap<String, String>,
    body: Vec<u8>,
}

fn outcome(c: &Raw) -> Result<(Outcome, Option<Request>), String> {
    let feed = Feed::new(&c.bytes, &c.cuts, if c.reset { End::Reset } else { End::Eof });
    let mut o = Outcome { kind: String::new(), method: String::new(), url: String::new(), headers: BTreeMap::new(), body: vec![] };
    match lunatic::sim::quietly(|| Request::parse(feed.clone())) {
        Err(p) => Err(format!("parsing panics: {}", p)),
        Ok(Ok(None)) => {
            o.kind = "none".into();
            Ok((o, None))
        }
        Ok(Err(e)) => {
            o.kind = match e {
                RequestParseError::IoError(e) => format!("io {:?}", e.kind()),
                e => format!("error {:?}", e),
            };
            Ok((o, None))
        }
        Ok(Ok(Some(mut r))) => {
            o.kind = "some".into();
            o.method = method_name(r.method());
            o.url = r.url().to_string();
            o.headers = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let mut b = r.take_body();
            let mut got = vec![];
            let mut buf = [0u8; 512];
            loop {
                match lunatic::sim::quietly(|| b.read(&mut buf)) {
                    Err(p) => return Err(format!("reading the body panics: {}", p)),
                    Ok(Ok(0)) => break,
                    Ok(Ok(n)) => got.extend_from_slice(&buf[..n]),
                    Ok(Err(e)) => {
                        ensure!(c.reset && e.kind() == std::io::ErrorKind::ConnectionReset, "unexpected body error {}", e);
                        break;
                    }
                }
                ensure!(got.len() <= c.bytes.len(), "the body yields more than the stream has");
            }
            o.body = got;
            Ok((o, Some(r)))
        }
    }
}

fn check_c02(c: &Raw) -> Verdict {
    let (o, r) = outcome(c)?;
    for _ in 0..3 {
        let (o2, _) = outcome(c)?;
        ensure_eq!(o2, o, "parsing the same bytes again gives something else");
    }
    let end = find(&c.bytes, b"\r\n\r\n").map(|p| p + 4);
    let Some(end) = end else {
        // the head is not complete
        let blank = find(&c.bytes, b"\n\n").or(find(&c.bytes, b"\n\r\n")).is_some();
        if !blank {
            if c.reset {
                ensure!(o.kind == "io ConnectionReset", "the stream failed inside the head, but parsing says: {}", o.kind);
            } else {
                ensure!(o.kind == "none", "the stream ended before the end of the head, but parsing says: {}", o.kind);
            }
        }
        return Ok(Seen::new(!c.bytes.is_empty()).label(true, "head incomplete").label(blank, "bare line feeds").label(c.reset, "reset"));
    };
    let head = &c.bytes[..end];
    ensure!(o.kind != "none", "the head is complete, but parsing finds no request");
    ensure!(!o.kind.starts_with("io "), "the head is complete, but parsing reports {}", o.kind);
    let mut seen = Seen::new(true).label(o.kind == "some", "accepted");
    match read_head(head, true) {
        Reading::Invalid => {
            ensure!(o.kind.starts_with("error"), "malformed head accepted: {}", show(head));
            seen = seen.label(true, "certainly malformed");
        }
        Reading::Either => {
            seen = seen.label(true, "lenient");
        }
        Reading::Valid { first, headers } => {
            seen = seen.label(true, "valid head");
            if headers.len() > puck::request::MAX_HEADERS {
                ensure!(o.kind.starts_with("error"), "{} headers accepted", headers.len());
                return Ok(seen.label(true, "too many headers"));
            }
            if headers.iter().any(|(_, v)| std::str::from_utf8(v).is_err()) {
                ensure!(o.kind.starts_with("error"), "header value that is not UTF-8 accepted");
                return Ok(seen.label(true, "not UTF-8"));
            }
            let text = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
            let hosts: Vec<String> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("host")).map(|(_, v)| text(v)).collect();
            let Some(host) = hosts.last() else {
                ensure!(o.kind.starts_with("error"), "request without a Host accepted");
                return Ok(seen.label(true, "no Host"));
            };
            let (method, target) = (&first[0], &first[1]);
            let absolute = target.starts_with("http://") || target.starts_with("https://");
            let origin = target.starts_with('/');
            let connect = method.eq_ignore_ascii_case("connect");
            if !absolute && !origin && !connect && !target.to_ascii_lowercase().starts_with("http") {
                ensure!(o.kind.starts_with("error"), "target {:?} accepted", target);
                return Ok(seen.label(true, "bad target"));
            }
            let delimiters = host.is_empty() || host.contains(|c: char| "/?#@\\".contains(c) || c.is_ascii_whitespace());
            if !absolute && delimiters {
                ensure!(o.kind.starts_with("error"), "Host {:?} accepted; it makes the URL {}", host, o.url);
                return Ok(seen.label(true, "bad Host"));
            }
            let base = url::Url::parse(&format!("http://{}/", host));
            if !absolute && base.is_err() {
                ensure!(o.kind.starts_with("error"), "Host {:?} accepted; it makes the URL {}", host, o.url);
                return Ok(seen.label(true, "bad Host"));
            }
            let plain_target = target.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/?%[]".contains(&b));
            if let Some(r) = &r {
                let u = r.url();
                if absolute {
                    let want = url::Url::parse(target).map_err(|e| format!("absolute target {:?} accepted: {}", target, e))?;
                    ensure_eq!(u, &want, "URL");
                } else if origin || connect {
                    let base = base.unwrap();
                    ensure_eq!((u.scheme(), u.host_str(), u.port()), ("http", base.host_str(), base.port()), "URL origin");
                    ensure!(u.username().is_empty() && u.password().is_none(), "URL with credentials: {}", u);
                    if origin {
                        let t = url::Url::parse(&format!("http://x{}", target)).map_err(|e| e.to_string())?;
                        ensure_eq!((u.path(), u.query()), (t.path(), t.query()), "URL path and query");
                    }
                }
                let mut want = BTreeMap::new();
                for (n, v) in &headers {
                    want.insert(n.clone(), text(v));
                }
                ensure_eq!(o.headers, want, "headers");
                let lens: Vec<String> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-length")).map(|(_, v)| text(v)).collect();
                let rest = &c.bytes[end..];
                match lens.last() {
                    None => ensure!(o.body == rest, "body without a length: {}", show(&o.body)),
                    Some(l) if !l.is_empty() && l.len() < 18 && l.bytes().all(|b| b.is_ascii_digit()) => {
                        let n: usize = l.parse().unwrap();
                        ensure!(o.body == rest[..n.min(rest.len())], "the body of declared length {} is {}", n, show(&o.body));
                    }
                    _ => {}
                }
                seen = seen.label(hosts.len() > 1, "repeated Host").label(lens.len() > 1, "repeated length");
            } else if plain_target && !connect && (origin || (absolute && url::Url::parse(target).is_ok())) {
                return Err(format!("valid request rejected with {}: {}", o.kind, show(head)));
            }
        }
    }
    Ok(seen)
}

/// A long head, perhaps cut off or with a byte that does not belong.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongRaw {
    head: LongHead,
    /// per mille of the bytes that arrive
    arrive: Option<usize>,
    /// (per mille, byte)
    wrong: Option<(usize, u8)>,
    reset: bool,
}
fn gen_long_raw(s: &mut Src) -> LongRaw {
    let head = gen_long_head(s);
    let arrive = if s.chance(1, 4) { Some(s.range(0, 1000)) } else { None };
    let wrong = if s.chance(1, 4) { Some((s.range(0, 999), *s.pick(&[0u8, b'\n', b'\r', 0x7f, 0xff, b' ', b':', 0x1b]))) } else { None };
    LongRaw { head, arrive, wrong, reset: s.chance(1, 4) }
}
fn check_c02_long(c: &LongRaw) -> Verdict {
    let r = long_req(&c.head);
    let (mut w, head) = (r.wire(), r.head().len());
    if let Some((at, b)) = c.wrong {
        w[head * at / 1000] = b
    }
    if let Some(k) = c.arrive {
        w.truncate(w.len() * k / 1000)
    }
    check_c02(&Raw { bytes: w.into(), cuts: r.cuts, reset: c.reset })?;
    Ok(c.head.seen().label(c.arrive.is_some(), "cut off").label(c.wrong.is_some(), "a wrong byte"))
}

fn fixed_c02() -> Vec<Raw> {
    let mut v = vec![];
    for h in HOSTS {
        for t in ["/", "/p/q?r", "//x/y"] {
            v.push(Raw { bytes: format!("GET {} HTTP/1.1\r\nHost: {}\r\n\r\n", t, h).as_bytes().into(), cuts: vec![], reset: false });
        }
    }
    for t in TARGETS {
        for m in ["GET", "CONNECT", "OPTIONS"] {
            v.push(Raw { bytes: format!("{} {} HTTP/1.1\r\nHost: h.test\r\n\r\n", m, t).as_bytes().into(), cuts: vec![], reset: false });
        }
    }
    // every prefix of a small request, ended and failing
    let w = b"POST /a?b HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nxyzw";
    for k in 0..=w.len() {
        for reset in [false, true] {
            v.push(Raw { bytes: w[..k].into(), cuts: vec![], reset });
        }
    }
    for n in [19usize, 20, 21, 30] {
        let mut b = b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec();
        for i in 1..n {
            b.extend(format!("H{}: v\r\n", i).bytes());
        }
        b.extend(b"\r\n");
        v.push(Raw { bytes: b.into(), cuts: vec![], reset: false });
    }
    v
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriteCase {
    req: Req,
    fragment: bool,
    streamed: bool,
    limits: Vec<usize>,
    fail_after: Option<usize>,
    /// the failed stream accepts no bytes (`Ok(0)`) instead of reporting an error
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    fails_with_zero: bool,
}

fn gen_c03(s: &mut Src) -> WriteCase {
    let mut req = gen_req(s);
    req.target = Target::Origin;
    if req.method == "CONNECT" {
        req.method = "GET".into();
    }
    req.missing = 0;
    req.after = Bytes::default();
    let n = req.wire().len() as u64;
    WriteCase {
        req,
        fragment: s.chance(1, 8),
        streamed: s.bool(),
        limits: if s.bool() { vec![] } else { s.vec(1, 4, |s| s.range(1, 50)) },
        fail_after: if s.chance(1, 4) { Some(s.below(n) as usize) } else { None },
        fails_with_zero: s.chance(1, 3),
    }
}

pub fn method_of(m: &str) -> Method {
    match m {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "HEAD" => Method::Head,
        m => Method::OtherMethod(m.to_string()),
    }
}

fn check_c03(c: &WriteCase) -> Verdict {
    let q = &c.req;
    let url = format!("http://{}{}{}", host_port(&q.host, q.port), q.pq(), if c.fragment { "#frag" } else { "" });
    let build = || {
        let mut b = Request::build(&url).method(method_of(&q.method));
        for l in &q.headers {
            b = b.header(l.name.clone(), l.value.clone());
        }
        let body = if c.streamed {
            Body::from_reader(BufFeed::new(Feed::new(&q.body, &q.cuts, End::Eof)), if q.declared { Some(q.body.len()) } else { None })
        } else {
            match String::from_utf8(q.body.to_vec()) {
                Ok(t) => Body::from_string(t),
                Err(_) => Body::from_reader(std::io::Cursor::new(q.body.to_vec()), Some(q.body.len())),
            }
        };
        b.body(body).build()
    };
    let mut sink = Sink::new(&c.limits, None);
    build().write(&mut sink).map_err(|e| format!("writing failed: {}", e))?;
    let wire = sink.data;
    // an independent reading of the bytes
    let end = find(&wire, b"\r\n\r\n").ok_or("no end of the head was written")? + 4;
    match read_head(&wire[..end], true) {
        Reading::Valid { first, headers } => {
            ensure_eq!(first, [q.method.clone(), q.pq(), "HTTP/1.1".to_string()], "request line");
            let mut got: Vec<_> = headers;
            got.sort();
            let mut want: Vec<_> = q.headers.iter().map(|l| (l.name.clone(), l.value.clone().into_bytes())).collect();
            want.sort();
            ensure_eq!(got, want, "headers written");
        }
        o => return Err(format!("what was written is not a valid request ({:?}): {}", o, show(&wire))),
    }
    ensure!(wire[end..] == q.body[..], "body written: {}", show(&wire[end..]));
    // the library's own
    let mut r = match Request::parse(Feed::new(&wire, &q.cuts, End::Eof)) {
        Ok(Some(r)) => r,
        o => return Err(format!("the written request does not parse: {:?}", o)),
    };
    ensure!(*r.method() == method_of(&q.method), "method: got {:?}", r.method());
    ensure_eq!((r.url().host_str(), r.url().port(), r.url().path(), r.url().query()), (Some(q.host.as_str()), q.port, q.path.as_str(), q.query.as_deref()), "URL");
    let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let want: BTreeMap<_, _> = q.headers.iter().map(|l| (l.name.clone(), l.value.clone())).collect();
    ensure_eq!(got, want, "headers");
    let body = r.take_body().into_bytes().map_err(|e| e.to_string())?;
    ensure!(body == q.body[..], "body: {}", show(&body));
    if let Some(f) = c.fail_after {
        let f = f.min(wire.len() - 1);
        let mut sink = Sink::new(&c.limits, Some(f)).closing(c.fails_with_zero);
        let res = build().write(&mut sink);
        ensure!(res.is_err(), "the writer failed after {} of {} bytes, but writing reports success", f, wire.len());
        ensure_eq!(sink.data.len(), f, "bytes written before the failure");
    }
    Ok(Seen::new(q.headers.len() > 2 || !q.body.is_empty())
        .label(q.query.is_some(), "query")
        .label(q.method == "HEAD", "HEAD")
        .label(!c.limits.is_empty(), "partial writes")
        .label(c.fail_after.is_some(), "failing writer")
        .label(c.streamed, "streamed body"))
}

fn check_c03_large(c: &Large) -> Verdict {
    let mut req = large_req(c);
    req.after = Bytes::default();
    let w = WriteCase { streamed: !c.text, fragment: false, limits: c.cuts(), fail_after: if c.after > 0 { Some(c.n) } else { None }, fails_with_zero: c.salt % 2 == 0, req };
    check_c03(&w).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

fn check_c03_long(c: &LongHead) -> Verdict {
    let req = long_req(c);
    let w = WriteCase { streamed: c.salt % 2 == 0, fragment: false, limits: c.limits(), fail_after: if c.fails { Some(c.total() / 2) } else { None }, fails_with_zero: c.salt % 4 < 2, req };
    check_c03(&w).map(|_| c.seen())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            assumptions: &[
                "header names are distinct ignoring case, targets and hosts are in the form URL parsing leaves unchanged",
                "streams are in-memory readers delivering the generated pieces, then end of stream",
            ],
            parts: vec![
                Part::new("parse", "at least two headers", 80_000, 3_000_000, gen_req, Vec::new, check_c01),
                Part::new("large bodies", "always: 100 kB to 20 MB", 60, 1_000, gen_large, Vec::new, check_c01_large),
                Part::new("long heads", "1 kB or more in one part of the head", 300, 5_000, gen_long_head, Vec::new, |c| check_c01(&long_req(c)).map(|_| c.seen())),
            ],
        },
        Prop {
            id: "C02",
            assumptions: &["what is certainly (in)valid is decided by a strict reference reader; heads only a lenient parser would take may go either way", "heads terminated by bare line feeds may go either way"],
            parts: vec![
                Part::new("parse", "non-empty input; complete head or cut inside it", 120_000, 4_000_000, gen_raw, fixed_c02, check_c02),
                Part::new("long heads", "1 kB or more in one part of the head", 300, 5_000, gen_long_raw, Vec::new, check_c02_long),
            ],
        },
        Prop {
            id: "C03",
            assumptions: &["headers include the URL's Host and, when declared, the body's Content-Length; header names are distinct ignoring case"],
            parts: vec![
                Part::new("write", "more than two headers or a body", 60_000, 2_000_000, gen_c03, Vec::new, check_c03),
                Part::new("large bodies", "always: 100 kB to 20 MB", 60, 1_000, gen_large, Vec::new, check_c03_large),
                Part::new("long heads", "1 kB or more in one part of the head", 300, 5_000, gen_long_head, Vec::new, check_c03_long),
            ],
        },
    ]
}
