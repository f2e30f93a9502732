//! C04, C05, C06, C07: responses, bodies, builders.
use crate::gen::*;
use crate::io::*;
use crate::request::{drain, method_of, TOKENS};
use kit::{ensure, ensure_eq, Bytes, Part, Prop, Seen, Src, Verdict};
use puck::body::Body;
use puck::response::builder::ResponseBuilder;
use puck::response::encoder::Encoder;
use puck::response::ParseResponseError;
use puck::{Request, Response};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;

const REASON: &[char] = &['O', 'K', 'a', 'z', 'N', 'o', ' ', '\t', '-', '!', '\'', '0', '9', ':', '(', ')', '/', '.', '~', '"'];

fn gen_reason(s: &mut Src) -> String {
    match s.weighted(&[3, 3]) {
        0 => s.pick(&["OK", "Not Found", "not found", "", "No Content", "bad request", "Web Socket Protocol Handshake"]).to_string(),
        _ => s.string(0, 20, REASON).trim_matches(|c| c == ' ' || c == '\t').to_string(),
    }
}

fn gen_status(s: &mut Src) -> u16 {
    match s.weighted(&[3, 3]) {
        0 => *s.pick(&[200u16, 404, 400, 101, 204, 304, 500, 100, 999, 301]),
        _ => s.range(100, 999) as u16,
    }
}

/// How a body is made.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Make {
    /// `Body::from_string` (only when the bytes are text), else a reader of known length
    Text,
    Reader { declared: Option<usize> },
}

fn make_body(data: &[u8], m: &Make, cuts: &[usize], end: End) -> Body {
    match m {
        Make::Text => match String::from_utf8(data.to_vec()) {
            Ok(t) => {
                if t.len() % 2 == 0 {
                    Body::from_string(t)
                } else {
                    Body::from(t.as_str())
                }
            }
            Err(_) => Body::from_reader(std::io::Cursor::new(data.to_vec()), Some(data.len())),
        },
        Make::Reader { declared } => Body::from_reader(BufFeed::new(Feed::new(data, cuts, end)), *declared),
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resp {
    pub status: u16,
    pub reason: String,
    pub headers: Vec<Line>,
    pub data: Bytes,
    pub make: Make,
    pub cuts: Vec<usize>,
    pub source_reset: bool,
    pub limits: Vec<usize>,
    pub fail_after: Option<usize>,
    /// the failed stream accepts no bytes (`Ok(0)`) instead of reporting an error
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub fails_with_zero: bool,
    pub length_header: bool,
}

pub fn gen_resp(s: &mut Src) -> Resp {
    let n = gen_size(s);
    let data = s.blob(n);
    let make = match s.weighted(&[3, 3]) {
        0 => Make::Text,
        _ => Make::Reader {
            declared: match s.weighted(&[2, 3, 2, 1]) {
                0 => None,
                1 => Some(n),
                2 => Some(s.below(n as u64 + 1) as usize),
                _ => Some(n + s.range(1, 100)),
            },
        },
    };
    let length_header = s.chance(2, 3);
    let max = if s.chance(1, 10) { 40 } else { 19 };
    let mut headers = gen_fillers(s, max);
    if s.chance(1, 6) && !headers.is_empty() {
        // the same name in another case is another entry
        let mut l = headers[0].clone();
        l.name = l.name.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        if headers.iter().all(|o| o.name != l.name) {
            headers.push(l);
        }
    }
    // headers that mean something to clients are the application's to set, whatever the body
    for (name, values) in [
        ("Content-Type", &["text/html", "application/json;charset=utf-8", "text/plain"] as &[&str]),
        ("Connection", &["close", "keep-alive", "Upgrade"]),
        ("Set-Cookie", &["a=b; Path=/", "sid=; Max-Age=0"]),
        ("Server", &["puck", "x"]),
        ("Location", &["/a?b=c#d", "http://h/"]),
    ] {
        if s.chance(1, 8) {
            headers.retain(|l| !l.name.eq_ignore_ascii_case(name));
            headers.push(Line { name: name.into(), value: s.pick(values).to_string(), before: " ".into(), after: String::new() });
        }
    }
    Resp {
        status: gen_status(s),
        reason: gen_reason(s),
        headers,
        data: data.into(),
        make,
        cuts: gen_cuts(s),
        source_reset: s.chance(1, 10),
        limits: if s.bool() { vec![] } else { s.vec(1, 4, |s| s.range(1, 60)) },
        fail_after: if s.chance(1, 4) { Some(s.below(200 + n as u64) as usize) } else { None },
        fails_with_zero: s.chance(1, 3),
        length_header,
    }
}

impl Resp {
    /// The bytes of `data` that belong to the body.
    pub fn content(&self) -> &[u8] {
        match self.make {
            Make::Reader { declared: Some(d) } => &self.data[..d.min(self.data.len())],
            _ => &self.data,
        }
    }
    /// Reading the body to its end meets the source's failure.
    fn fails(&self) -> bool {
        self.source_reset
            && match self.make {
                Make::Text => false,
                Make::Reader { declared: None } => true,
                Make::Reader { declared: Some(d) } => d > self.data.len(),
            }
    }
    pub fn builder(&self, length: usize) -> ResponseBuilder {
        let mut b = Response::build().status(self.status, &self.reason);
        for l in &self.headers {
            b = b.header(&l.name, &l.value);
        }
        if self.length_header {
            b = b.header("Content-Length", length);
        }
        b
    }
    pub fn build(&self) -> Response {
        self.builder(self.content().len()).body(make_body(&self.data, &self.make, &self.cuts, if self.source_reset { End::Reset } else { End::Eof })).build()
    }
    pub fn want_headers(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<_> = self.headers.iter().map(|l| (l.name.clone(), l.value.clone().into_bytes())).collect();
        if self.length_header {
            v.push(("Content-Length".into(), self.content().len().to_string().into_bytes()));
        }
        v.sort();
        v
    }
}

/// Check the written bytes with the reference reader.
pub fn check_response_bytes(wire: &[u8], status: u16, reason: &str, headers: &[(String, Vec<u8>)], body: &[u8]) -> Result<(), String> {
    let end = find(wire, b"\r\n\r\n").ok_or_else(|| format!("no complete head was written: {}", show(wire)))? + 4;
    match read_head(&wire[..end], false) {
        Reading::Valid { first, headers: mut got } => {
            ensure_eq!(first, ["HTTP/1.1".to_string(), format!("{}", status), reason.to_string()], "status line");
            got.sort();
            ensure_eq!(got, headers, "headers written");
        }
        o => return Err(format!("not a valid response ({:?}): {}", o, show(&wire[..end]))),
    }
    ensure!(&wire[end..] == body, "body written: {} bytes {}, expected {} bytes {}", wire.len() - end, show(&wire[end..]), body.len(), show(body));
    Ok(())
}

/// Is `got` the beginning of a way to write this response?  Header order and blanks around values are free.
fn check_response_prefix(got: &[u8], c: &Resp) -> Result<(), String> {
    if let Some(e) = find(got, b"\r\n\r\n") {
        let e = e + 4;
        let n = (got.len() - e).min(c.content().len());
        return check_response_bytes(&[&got[..e], &c.content()[..n]].concat(), c.status, &c.reason, &c.want_headers(), &c.content()[..n])
            .and_then(|()| if got[e..] == c.content()[..n] { Ok(()) } else { Err(format!("body begun wrongly: {}", show(&got[e..]))) });
    }
    let squeeze = |b: &[u8]| b.iter().copied().filter(|b| *b != b' ' && *b != b'\t').collect::<Vec<u8>>();
    let mut want: Vec<Vec<u8>> = c.want_headers().iter().map(|(n, v)| squeeze(&[n.as_bytes(), b":", v, b"\r\n"].concat())).collect();
    for (i, l) in got.split_inclusive(|b| *b == b'\n').enumerate() {
        let l = squeeze(l);
        if i == 0 {
            ensure!(squeeze(format!("HTTP/1.1 {} {}\r\n", c.status, c.reason).as_bytes()).starts_with(&l), "status line begun wrongly: {}", show(&l));
        } else if l == b"\r" {
            ensure!(want.is_empty(), "the head ends early");
        } else {
            match want.iter().position(|w| w.starts_with(&l)) {
                Some(k) => {
                    want.remove(k);
                }
                None => return Err(format!("a header line that was not asked for: {}", show(&l))),
            }
        }
    }
    Ok(())
}

fn check_c04(c: &Resp) -> Verdict {
    let mut sink = Sink::new(&c.limits, None);
    let res = Encoder::new(c.build()).write_tcp_stream(&mut sink);
    if c.fails() {
        ensure!(res.is_err(), "the body's source failed, but writing reports success");
        return Ok(Seen::new(true).label(true, "failing source"));
    }
    res.map_err(|e| format!("writing failed: {}", e))?;
    let wire = sink.data;
    check_response_bytes(&wire, c.status, &c.reason, &c.want_headers(), c.content())?;
    let n = c.want_headers().len();
    if n <= 20 {
        let mut r = match Response::parse(Feed::new(&wire, &c.cuts, End::Eof)) {
            Ok(Some(r)) => r,
            o => return Err(format!("the written response does not parse: {:?}", o)),
        };
        ensure_eq!(*r.status(), c.status, "status read back");
        ensure_eq!(r.reason(), c.reason, "reason read back");
        let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
        let want: BTreeMap<_, _> = c.want_headers().into_iter().collect();
        ensure_eq!(got, want, "headers read back");
        let b = r.take_body().into_bytes().map_err(|e| e.to_string())?;
        ensure!(b == c.content(), "body read back: {}", show(&b));
    }
    if let Some(f) = c.fail_after {
        let f = f % wire.len();
        let mut sink = Sink::new(&c.limits, Some(f)).closing(c.fails_with_zero);
        let res = Encoder::new(c.build()).write_tcp_stream(&mut sink);
        ensure!(res.is_err(), "the stream failed after {} of {} bytes, but writing reports success", f, wire.len());
        check_response_prefix(&sink.data, c).map_err(|e| format!("written before the failure: {}", e))?;
    }
    // write_response writes the same
    let mut sink = Sink::new(&c.limits, None);
    puck::write_response(c.build(), &mut sink);
    check_response_bytes(&sink.data, c.status, &c.reason, &c.want_headers(), c.content()).map_err(|e| format!("write_response: {}", e))?;
    Ok(Seen::new(n >= 2 || !c.content().is_empty())
        .label(n > 20, "over 20 headers")
        .label(!c.limits.is_empty(), "partial writes")
        .label(c.fail_after.is_some(), "failing stream")
        .label(c.content().len() < c.data.len(), "limited by length")
        .label(c.content().len() > 8192, "big body")
        .label(matches!(c.make, Make::Reader { declared: None }), "unknown length"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BuiltIn {
    code: u16,
    limits: Vec<usize>,
}

fn check_c04_builtin(c: &BuiltIn) -> Verdict {
    let r = if c.code == 400 { puck::err_400() } else { puck::err_404() };
    let mut sink = Sink::new(&c.limits, None);
    puck::write_response(r, &mut sink);
    let wire = sink.data;
    let end = find(&wire, b"\r\n\r\n").ok_or("no head")? + 4;
    match read_head(&wire[..end], false) {
        Reading::Valid { first, headers } => {
            ensure_eq!(first[1], c.code.to_string(), "status of the built-in response");
            let ct: Vec<String> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-type")).map(|(_, v)| String::from_utf8_lossy(v).to_ascii_lowercase()).collect();
            ensure!(ct.len() == 1 && ct[0].replace([' ', '"'], "") == "text/html;charset=utf-8", "content type of the built-in response: {:?}", ct);
        }
        o => return Err(format!("built-in response is not valid: {:?}", o)),
    }
    let body = String::from_utf8(wire[end..].to_vec()).map_err(|e| e.to_string())?;
    ensure!(body.contains(&c.code.to_string()) && body.starts_with('<'), "body of the built-in response: {}", body);
    let r = Response::parse(Feed::new(&wire, &c.limits, End::Eof)).map_err(|e| format!("{:?}", e))?.ok_or("none")?;
    ensure_eq!(*r.status(), c.code, "status read back");
    Ok(Seen::new(true))
}

fn check_c04_large(c: &Large) -> Verdict {
    let r = Resp {
        status: 200,
        reason: "OK".into(),
        headers: vec![Large::line("Content-Type", "text/plain".into())],
        data: [c.bytes(c.n), c.after()].concat().into(),
        make: if c.text && c.after().is_empty() { Make::Text } else { Make::Reader { declared: if c.declared { Some(c.n) } else { None } } },
        cuts: c.cuts(),
        source_reset: false,
        limits: if c.salt % 4 == 0 { c.cuts() } else { vec![] },
        fail_after: if c.salt % 3 == 0 { Some(c.n) } else { None },
        fails_with_zero: c.salt % 2 == 0,
        length_header: c.declared,
    };
    check_c04(&r).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

fn check_c04_long(c: &LongHead) -> Verdict {
    let r = Resp {
        status: 200 + c.salt as u16,
        reason: c.at(0).unwrap_or("OK".into()),
        headers: c.lines(),
        data: c.body(),
        make: Make::Reader { declared: if c.declared { Some(c.body) } else { None } },
        cuts: c.cuts(),
        source_reset: false,
        limits: c.limits(),
        fail_after: if c.fails { Some(c.total() / 2) } else { None },
        fails_with_zero: c.salt % 2 == 0,
        length_header: c.declared,
    };
    check_c04(&r).map(|_| c.seen())
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireResp {
    pub status: u16,
    pub reason: String,
    pub minor: u8,
    pub headers: Vec<Line>,
    pub declared: bool,
    pub body: Bytes,
    pub after: Bytes,
    pub missing: usize,
    pub cuts: Vec<usize>,
    pub read_sizes: Vec<usize>,
}

fn gen_wire_resp(s: &mut Src) -> WireResp {
    let declared = s.chance(3, 4);
    let n = gen_size(s);
    let body = s.blob(n);
    let mut headers = gen_fillers(s, if declared { 18 } else { 19 });
    if s.chance(1, 2) {
        let l = Line { name: recase(s, "Content-Type"), value: s.pick(&["text/html", "5", "0", "application/json;charset=utf-8", "17"]).to_string(), before: gen_ows(s), after: String::new() };
        let at = s.below(headers.len() as u64 + 1) as usize;
        headers.insert(at, l);
    }
    let (mut after, mut missing) = (vec![], 0);
    if declared {
        let zeros = *s.pick(&["", "", "0", "000"]);
        let l = Line { name: recase(s, "Content-Length"), value: format!("{}{}", zeros, n), before: gen_ows(s), after: String::new() };
        let at = s.below(headers.len() as u64 + 1) as usize;
        headers.insert(at, l);
        match s.weighted(&[3, 3, 1]) {
            0 => {}
            1 => {
                let k = s.range(1, 50);
                after = s.blob(k)
            }
            _ => missing = s.below(n as u64 + 1) as usize,
        }
    }
    WireResp {
        status: gen_status(s),
        reason: gen_reason(s),
        minor: s.below(2) as u8 ^ 1,
        headers,
        declared,
        body: body.into(),
        after: after.into(),
        missing,
        cuts: gen_cuts(s),
        read_sizes: s.vec(1, 4, |s| *s.pick(&[1usize, 2, 7, 64, 1000, 4096, 100000])),
    }
}

impl WireResp {
    fn wire(&self) -> Vec<u8> {
        let mut out = format!("HTTP/1.{} {} {}\r\n", self.minor, self.status, self.reason).into_bytes();
        for h in &self.headers {
            h.wire(&mut out);
        }
        out.extend(b"\r\n");
        out.extend(&self.body[..self.body.len() - self.missing]);
        out.extend(&self.after[..]);
        out
    }
}

fn check_c05(c: &WireResp) -> Verdict {
    let wire = c.wire();
    let mut r = match Response::parse(Feed::new(&wire, &c.cuts, End::Eof)) {
        Ok(Some(r)) => r,
        Ok(None) => return Err("no response found".into()),
        Err(e) => return Err(format!("well-formed response rejected: {:?}", e)),
    };
    ensure_eq!(*r.status(), c.status, "status");
    ensure_eq!(r.reason(), c.reason, "reason");
    let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let want: BTreeMap<_, _> = c.headers.iter().map(|l| (l.name.clone(), l.value.clone())).collect();
    ensure_eq!(got, want, "headers");
    let mut b = r.take_body();
    let got = drain(&mut b, &c.read_sizes, wire.len())?;
    let want = &c.body[..c.body.len() - c.missing];
    ensure!(got == want, "body: got {} bytes {}, expected {} bytes {}", got.len(), show(&got), want.len(), show(want));
    Ok(Seen::new(c.headers.len() >= 2 || !c.body.is_empty())
        .label(c.headers.len() == 20, "20 headers")
        .label(!c.cuts.is_empty(), "cut")
        .label(!c.after.is_empty(), "bytes after the body")
        .label(!c.declared, "no length")
        .label(c.headers.iter().any(|l| l.name.eq_ignore_ascii_case("content-type")), "content type"))
}

fn check_c05_large(c: &Large) -> Verdict {
    let mut headers = vec![Large::line("Content-Type", "text/plain".into())];
    if c.declared {
        headers.push(Large::line("Content-Length", c.n.to_string()));
    }
    let r = WireResp { status: 200, reason: "OK".into(), minor: 1, headers, declared: c.declared, body: c.bytes(c.n).into(), after: c.after().into(), missing: 0, cuts: c.cuts(), read_sizes: vec![c.read] };
    check_c05(&r).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

fn check_c05_long(c: &LongHead) -> Verdict {
    let mut headers = c.lines();
    if c.declared {
        headers.push(Large::line("Content-Length", c.body.to_string()));
    }
    let r = WireResp { status: 200 + c.salt as u16, reason: c.at(0).unwrap_or("OK".into()), minor: 1, headers, declared: c.declared, body: c.body(), after: Bytes::default(), missing: 0, cuts: c.cuts(), read_sizes: vec![4096] };
    check_c05(&r)?;
    // and cut off inside the head
    if c.fails {
        let wire = r.wire();
        let n = wire.len() - c.body - 1 - c.total() / 3 % (wire.len() - c.body - 2);
        check_c05_raw(&RawResp { bytes: wire[..n].into(), cuts: c.cuts(), reset: c.salt % 2 == 0 })?;
    }
    Ok(c.seen())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawResp {
    bytes: Bytes,
    cuts: Vec<usize>,
    reset: bool,
}

fn gen_raw_resp(s: &mut Src) -> RawResp {
    let bytes = match s.weighted(&[6, 3, 3, 1]) {
        0 => {
            let w = gen_wire_resp(s).wire();
            let mut toks = TOKENS.to_vec();
            toks.extend_from_slice(&[b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1", b"200", b"Content-Type: 2\r\n", b"HTTP/1.1 2 x", b"99"]);
            mutate(s, w, &toks)
        }
        1 => {
            let first = s
                .pick(&[
                    "HTTP/1.1 200 OK", "HTTP/1.1 200", "HTTP/1.1 200 ", "HTTP/1.1 20 OK", "HTTP/1.1 2000 OK", "HTTP/1.1  200 OK", "HTTP/2.0 200 OK", "http/1.1 200 OK", "HTTP/1.1 abc OK", "HTTP/1.1", "", "200 OK", "HTTP/1.1 200OK",
                    "HTTP/1.0 404 Not Found", "HTTP/1.1 -20 OK", "HTTP/1.1 099 x",
                ])
                .to_string();
            let mut out = format!("{}\r\n", first).into_bytes();
            let n = if s.chance(1, 4) { *s.pick(&[19usize, 20, 21, 22, 40]) } else { s.range(0, 4) };
            for i in 0..n {
                match s.weighted(&[3, 2, 2, 1]) {
                    0 => out.extend(format!("H{}: {}\r\n", i, i).bytes()),
                    1 => {
                        let n = recase(s, "Content-Length");
                        out.extend(format!("{}: {}\r\n", n, s.pick(&["0", "3", "7", "20", "x", "", "-1", "007"])).bytes())
                    }
                    2 => {
                        let n = recase(s, "Content-Type");
                        out.extend(format!("{}: {}\r\n", n, s.pick(&["0", "3", "text/html", ""])).bytes())
                    }
                    _ => out.extend(s.pick(&[&b"V: \xff\xfe\r\n"[..], b"no colon\r\n", b": v\r\n", b"a b: c\r\n", b"A:\x00\r\n", b" folded\r\n", b"K: caf\xc3\xa9\r\n"]).to_vec()),
                }
            }
            out.extend(b"\r\n");
            let n = s.range(0, 30);
            out.extend(s.blob(n));
            out
        }
        2 => {
            let w = gen_wire_resp(s).wire();
            let k = s.below(w.len() as u64 + 1) as usize;
            w[..k].to_vec()
        }
        _ => s.vec(0, 60, |s| s.byte()),
    };
    RawResp { bytes: bytes.into(), cuts: gen_cuts(s), reset: s.chance(1, 6) }
}

fn check_c05_raw(c: &RawResp) -> Verdict {
    let feed = Feed::new(&c.bytes, &c.cuts, if c.reset { End::Reset } else { End::Eof });
    let mut r = None;
    let kind = match lunatic::sim::quietly(|| Response::parse(feed.clone())) {
        Err(p) => return Err(format!("parsing panics: {}", p)),
        Ok(Ok(None)) => "none".to_string(),
        Ok(Err(ParseResponseError::IoError(e))) => format!("io {:?}", e.kind()),
        Ok(Err(e)) => format!("error {:?}", e),
        Ok(Ok(Some(x))) => {
            r = Some(x);
            "some".into()
        }
    };
    let Some(end) = find(&c.bytes, b"\r\n\r\n").map(|p| p + 4) else {
        let blank = find(&c.bytes, b"\n\n").or(find(&c.bytes, b"\n\r\n")).is_some();
        if !blank {
            let want = if c.reset { "io ConnectionReset" } else { "none" };
            ensure_eq!(kind, want, "the stream ends inside the head; parsing says");
        }
        return Ok(Seen::new(!c.bytes.is_empty()).label(true, "head incomplete").label(c.reset, "reset"));
    };
    ensure!(kind != "none", "the head is complete, but parsing finds no response");
    ensure!(!kind.starts_with("io "), "the head is complete, but parsing reports {}", kind);
    let mut seen = Seen::new(true).label(kind == "some", "accepted");
    match read_head(&c.bytes[..end], false) {
        Reading::Invalid => {
            ensure!(kind.starts_with("error"), "malformed head accepted: {}", show(&c.bytes[..end]));
            seen = seen.label(true, "certainly malformed");
        }
        Reading::Either => seen = seen.label(true, "lenient"),
        Reading::Valid { first, headers } => {
            if headers.len() > 20 {
                ensure!(kind.starts_with("error"), "{} headers accepted", headers.len());
                return Ok(seen.label(true, "too many headers"));
            }
            if headers.iter().any(|(_, v)| std::str::from_utf8(v).is_err()) {
                ensure!(kind.starts_with("error"), "header value that is not UTF-8 accepted");
                return Ok(seen.label(true, "not UTF-8"));
            }
            let Some(mut r) = r else { return Err(format!("valid response rejected with {}: {}", kind, show(&c.bytes[..end]))) };
            ensure_eq!(r.status().to_string(), first[1], "status");
            ensure_eq!(r.reason(), first[2], "reason");
            let text = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
            let want: BTreeMap<_, _> = headers.iter().map(|(n, v)| (n.clone(), text(v))).collect();
            let got: BTreeMap<_, _> = r.headers().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ensure_eq!(got, want, "headers");
            let lens: Vec<String> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-length")).map(|(_, v)| text(v)).collect();
            let distinct_spellings: std::collections::BTreeSet<_> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-length")).map(|(n, _)| n.clone()).collect();
            let rest = &c.bytes[end..];
            let want = match lens.last() {
                None => rest,
                // repeated under several spellings: which one counts is not said
                Some(_) if distinct_spellings.len() > 1 => return Ok(seen),
                Some(l) if !l.is_empty() && l.len() < 18 && l.bytes().all(|b| b.is_ascii_digit()) => &rest[..l.parse::<usize>().unwrap().min(rest.len())],
                _ => return Ok(seen),
            };
            let mut b = r.take_body();
            let mut got = vec![];
            let res = b.read_to_end(&mut got);
            ensure!(got == want, "body: {}, expected {}", show(&got), show(want));
            let short = lens.last().map_or(true, |l| l.parse::<usize>().unwrap() > rest.len());
            ensure!(res.is_err() == (c.reset && short), "reading the body says {:?}, stream reset: {}", res, c.reset);
            seen = seen.label(true, "valid head");
        }
    }
    Ok(seen)
}

fn fixed_c05_raw() -> Vec<RawResp> {
    let mut v = vec![];
    let w = b"HTTP/1.1 404 Not Found\r\nContent-Type: 2\r\nContent-Length: 3\r\n\r\nxyzw";
    for k in 0..=w.len() {
        for reset in [false, true] {
            v.push(RawResp { bytes: w[..k].into(), cuts: vec![], reset });
        }
    }
    // every single-byte change
    for k in 0..w.len() - 4 {
        for b in [b' ', b'\r', b'\n', b':', 0, 0xff, b'0'] {
            let mut x = w.to_vec();
            x[k] = b;
            v.push(RawResp { bytes: x.into(), cuts: vec![], reset: false });
        }
    }
    v
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Finish {
    Bytes,
    Text,
    Reads,
    ToEnd,
    Exact(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BodyCase {
    data: Bytes,
    declared: Option<usize>,
    cuts: Vec<usize>,
    reset: bool,
    hiccups: Vec<usize>,
    /// these failures are interruptions: whoever reads to the end has to try again
    #[serde(default)]
    interrupt: bool,
    reads: Vec<usize>,
    finish: Finish,
}

fn gen_text(s: &mut Src, n: usize) -> Vec<u8> {
    let mut out = String::new();
    while out.len() < n {
        out.push(*s.pick(&['a', 'Z', '\n', '\0', 'é', '漢', '😀', '\u{feff}', '\u{10ffff}', '\r', ' ', 'e', '\u{301}', '\t']));
    }
    out.into_bytes()
}

fn gen_c06(s: &mut Src) -> BodyCase {
    let n = gen_size(s);
    let data = if s.chance(2, 3) { gen_text(s, n.min(3000)) } else { s.blob(n) };
    let n = data.len();
    let declared = match s.weighted(&[2, 2, 3, 2, 1]) {
        0 => None,
        1 => Some(n),
        2 => Some(s.below(n as u64 + 1) as usize),
        3 => Some(n + s.range(1, 50)),
        _ => Some(*s.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 40, u32::MAX as usize, 1 << 32])),
    };
    BodyCase {
        data: data.into(),
        declared,
        cuts: gen_cuts(s),
        reset: s.chance(1, 5),
        hiccups: if s.chance(1, 3) { s.vec(1, 4, |s| s.below(12) as usize) } else { vec![] },
        interrupt: s.bool(),
        reads: s.vec(0, 12, |s| *s.pick(&[0usize, 1, 2, 3, 5, 8, 16, 64, 100, 1000, 9000, 20000])),
        finish: match s.below(5) {
            0 => Finish::Bytes,
            1 => Finish::Text,
            2 => Finish::Reads,
            3 => Finish::ToEnd,
            _ => Finish::Exact(s.below(n as u64 + 10) as usize),
        },
    }
}

fn check_c06(c: &BodyCase) -> Verdict {
    let feed = Feed::new(&c.data, &c.cuts, if c.reset { End::Reset } else { End::Eof }).with_hiccups(&c.hiccups).interrupting(c.interrupt);
    let mut b = Body::from_reader(BufFeed::new(feed.clone()), c.declared);
    let limit = c.declared.unwrap_or(usize::MAX);
    let all = &c.data[..limit.min(c.data.len())];
    // the source's own end is met when fewer bytes exist than declared
    let meets_end = limit > c.data.len();
    let mut pos = 0;
    let mut errors = 0;
    let hit = |f: &Feed| c.hiccups.iter().collect::<std::collections::BTreeSet<_>>().into_iter().filter(|h| **h < f.0.borrow().reads).count();
    let mut step = |b: &mut Body, n: usize, pos: &mut usize| -> Result<Option<usize>, String> {
        let mut buf = vec![0x5a; n];
        let before = hit(&feed);
        let r = lunatic::sim::quietly(|| b.read(&mut buf)).map_err(|p| format!("reading panics: {}", p))?;
        match r {
            Ok(k) => {
                ensure!(k <= n, "read returned {} for a buffer of {}", k, n);
                ensure!(all.len() >= *pos + k, "the body yields bytes beyond its end: {} after {} of {}", k, *pos, all.len());
                ensure!(buf[..k] == all[*pos..*pos + k], "wrong bytes at {}: {}, expected {}", *pos, show(&buf[..k]), show(&all[*pos..*pos + k]));
                *pos += k;
                ensure!(k > 0 || n == 0 || *pos == all.len(), "the body ends after {} of {} bytes", *pos, all.len());
                ensure!(!(k == 0 && n > 0 && c.reset && meets_end), "the failure of the source is reported as the end of the body");
                ensure!(feed.consumed() <= limit, "{} bytes taken from the source, {} declared", feed.consumed(), limit);
                ensure!(feed.consumed() >= *pos, "{} bytes taken from the source but {} delivered", feed.consumed(), *pos);
                Ok(Some(k))
            }
            Err(e) => {
                errors += 1;
                let hiccup = hit(&feed) > before;
                ensure!(hiccup || (c.reset && meets_end && *pos == all.len()), "unexpected error {}", e);
                ensure!(feed.consumed() >= *pos, "{} bytes taken from the source but {} delivered (after an error)", feed.consumed(), *pos);
                Ok(None)
            }
        }
    };
    for n in &c.reads {
        step(&mut b, *n, &mut pos)?;
    }
    let started = pos;
    let rest = &all[pos..];
    let mut seen = Seen::new(!c.data.is_empty() && (started > 0 || !rest.is_empty())).label(started > 0 && !rest.is_empty(), "partly read before").label(c.declared.map_or(false, |d| d > 1 << 31), "huge length");
    // whether a read of the rest meets an error is only certain without pending hiccups
    let pending = !c.interrupt && c.hiccups.iter().any(|h| *h >= feed.0.borrow().reads);
    let started_reads = feed.0.borrow().reads;
    // an interruption is no failure
    let fired = |f: &Feed| if c.interrupt { 0 } else { hit(f) };
    let must_fail = c.reset && meets_end;
    match c.finish {
        Finish::Bytes | Finish::Text => {
            let text = matches!(c.finish, Finish::Text);
            let before = fired(&feed);
            let hits = hit(&feed);
            let r = lunatic::sim::quietly(|| if text { b.into_string().map(String::into_bytes) } else { b.into_bytes() }).map_err(|p| format!("conversion panics: {}", p))?;
            let bad_text = text && std::str::from_utf8(rest).is_err();
            match r {
                Ok(v) => {
                    ensure!(!must_fail, "the failure of the source was swallowed");
                    ensure!(fired(&feed) == before, "an error of the source was swallowed");
                    ensure!(!bad_text, "a string from bytes that are not UTF-8: {}", show(&v));
                    ensure!(v == rest, "conversion: got {} bytes {}, expected {} bytes {}", v.len(), show(&v), rest.len(), show(rest));
                }
                // whether a conversion tries again after an interruption is open
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => ensure!(c.interrupt && hit(&feed) > hits, "conversion failed: {}", e),
                Err(e) => ensure!(must_fail || bad_text || (pending && fired(&feed) > before), "conversion failed: {}", e),
            }
            ensure!(feed.consumed() <= limit, "{} bytes taken from the source, {} declared", feed.consumed(), limit);
            seen = seen.label(bad_text, "not UTF-8").label(text, "text");
        }
        Finish::Reads | Finish::ToEnd | Finish::Exact(_) => {
            if let Finish::ToEnd = c.finish {
                let mut got = vec![];
                let before = fired(&feed);
                let r = b.read_to_end(&mut got);
                ensure!(got.len() <= rest.len() && got == rest[..got.len()], "read_to_end: {}", show(&got));
                ensure!(r.is_ok() == (!must_fail && fired(&feed) == before), "read_to_end says {:?}", r);
                ensure!(r.is_err() || got == rest, "read_to_end got {} of {} bytes", got.len(), rest.len());
                pos += got.len();
            }
            if let Finish::Exact(n) = c.finish {
                let mut buf = vec![0; n];
                if !pending {
                    let r = b.read_exact(&mut buf);
                    ensure!(r.is_ok() == (n <= rest.len()), "read_exact of {} with {} left says {:?}", n, rest.len(), r);
                    if r.is_ok() {
                        ensure!(buf == rest[..n], "read_exact: {}", show(&buf));
                        pos += n
                    } else {
                        return Ok(seen.label(true, "read_exact past the end"));
                    }
                }
            }
            let mut guard = 0;
            while pos < all.len() {
                step(&mut b, 1 + guard % 50, &mut pos)?;
                guard += 1;
                ensure!(guard < 200_000, "no progress");
            }
            for n in [1usize, 100, 1] {
                let r = step(&mut b, n, &mut pos)?;
                ensure!(r.is_none() || r == Some(0), "bytes after the end");
            }
            if !meets_end {
                // nothing is asked of the source beyond the declared length
                ensure!(feed.consumed() == limit, "{} bytes taken from the source, {} declared", feed.consumed(), limit);
            }
        }
    }
    let again = c.interrupt && c.hiccups.iter().any(|h| *h >= started_reads && *h < feed.0.borrow().reads);
    Ok(seen.label(again, "interrupted reading to the end").label(errors > 0, "errors on the way").label(c.declared.is_none(), "no length").label(!meets_end && limit < c.data.len(), "limited"))
}

fn check_c06_large(c: &Large) -> Verdict {
    let n = c.n;
    let b = BodyCase {
        data: [c.bytes(n), c.after()].concat().into(),
        declared: if c.declared { Some(n) } else { None },
        cuts: c.cuts(),
        reset: false,
        hiccups: vec![],
        interrupt: false,
        reads: vec![c.read; c.salt as usize % 4],
        finish: match c.salt % 3 {
            0 => Finish::Bytes,
            1 => Finish::Text,
            _ => Finish::ToEnd,
        },
    };
    // the plain readings, and those of a body made of a string
    let t = c.bytes(n);
    if c.text {
        let s = String::from_utf8(t).expect("letters");
        let got = Body::from_string(s.clone()).into_bytes().map_err(|e| e.to_string())?;
        ensure!(got == s.as_bytes(), "a string of {} bytes: {} bytes came back", n, got.len());
        let got = Body::from_string(s.clone()).into_string().map_err(|e| e.to_string())?;
        ensure!(got == s, "a string of {} bytes: a string of {} bytes came back", n, got.len());
    }
    check_c06(&b).map(|_| Seen::new(true).label(n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BOp {
    Header(String, String),
    Headers(Vec<(String, String)>),
    Body(Bytes),
    Method(String),
    Status(u16, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    /// install a new body, keep the old one on the shelf
    Replace(Bytes),
    /// take the body, keep it on the shelf
    Take,
    /// read from a shelved body
    Read(usize, usize),
    /// put a shelved body back
    PutBack(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BuildCase {
    response: bool,
    url: String,
    ops: Vec<BOp>,
    rops: Vec<ROp>,
}

fn gen_url(s: &mut Src) -> String {
    match s.weighted(&[6, 2]) {
        0 => {
            let (h, p) = gen_host(s);
            let p = p.map(|p| format!(":{}", p)).unwrap_or_default();
            let q = gen_query(s).map(|q| format!("?{}", q)).unwrap_or_default();
            let path = gen_path(s);
            format!("{}://{}{}{}{}{}", s.pick(&["http", "https", "ws", "HTTP"]), h, p, path, q, s.pick(&["", "", "#f"]))
        }
        _ => s.pick(&["", "/", "a", "http://", "http://[", "http://h:99999/", "//h/", "http:", "mailto:a", "data:,x", "http://a b/", "file:///x", "http:/h", "http://h\\x", " http://h/ ", "http://%/"]).to_string(),
    }
}

fn gen_c07(s: &mut Src) -> BuildCase {
    // a Content-Type is set under its usual spelling only: what an entry in another case means is not said
    fn name(s: &mut Src) -> String {
        match s.weighted(&[3, 2, 2]) {
            0 => s.pick(&["A", "a", "B", "X-Y", "Host"]).to_string(),
            1 => "Content-Type".into(),
            _ => {
                let t = token(s, 1, 6);
                if t.eq_ignore_ascii_case("content-type") {
                    "C".into()
                } else {
                    t
                }
            }
        }
    }
    BuildCase {
        response: s.bool(),
        url: gen_url(s),
        ops: s.vec(0, 8, |s| match s.weighted(&[5, 2, 3, 4, 3]) {
            0 => BOp::Header(name(s), gen_value(s)),
            1 => BOp::Headers(s.vec(0, 5, |s| (name(s), gen_value(s)))),
            2 => {
                let n = s.range(0, 30);
                BOp::Body(s.blob(n).into())
            }
            3 => BOp::Method(gen_method(s)),
            _ => BOp::Status(gen_status(s), gen_reason(s)),
        }),
        rops: s.vec(0, 10, |s| match s.weighted(&[3, 3, 4, 3]) {
            0 => {
                let n = s.range(0, 30);
                ROp::Replace(s.blob(n).into())
            }
            1 => ROp::Take,
            2 => ROp::Read(s.below(4) as usize, s.range(0, 20)),
            _ => ROp::PutBack(s.below(4) as usize),
        }),
    }
}

fn body_of(b: &[u8]) -> Body {
    make_body(b, &if b.len() % 3 == 0 { Make::Reader { declared: Some(b.len()) } } else { Make::Text }, &[], End::Eof)
}

enum Msg {
    Req(Request),
    Res(Response),
}
impl Msg {
    fn headers(&self) -> BTreeMap<String, String> {
        match self {
            Msg::Req(r) => r.headers(),
            Msg::Res(r) => r.headers(),
        }
        .iter()
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
    }
    fn replace(&mut self, b: Body) -> Body {
        match self {
            Msg::Req(r) => r.replace_body(b),
            Msg::Res(r) => r.replace_body(b),
        }
    }
    fn take(&mut self) -> Body {
        match self {
            Msg::Req(r) => r.take_body(),
            Msg::Res(r) => r.take_body(),
        }
    }
}

fn check_c07(c: &BuildCase) -> Verdict {
    use puck::body::mime;
    for (m, want) in [(mime::HTML, "text/html;charset=utf-8"), (mime::PLAIN, "text/plain;charset=utf-8"), (mime::BYTE_STREAM, "application/octet-stream")] {
        ensure_eq!(m.to_string(), want, "a media type");
    }
    let mut headers: BTreeMap<String, String> = BTreeMap::new();
    let mut body: Vec<u8> = vec![];
    let mut method: Option<String> = None;
    let mut status = (200u16, String::new());
    for o in &c.ops {
        match o {
            BOp::Header(k, v) => {
                headers.insert(k.clone(), v.clone());
            }
            BOp::Headers(h) => headers.extend(h.iter().cloned()),
            BOp::Body(b) => body = b.to_vec(),
            BOp::Method(m) => method = Some(m.clone()),
            BOp::Status(n, r) => status = (*n, r.clone()),
        }
    }
    let url = url::Url::parse(&c.url);
    let mut m = if c.response {
        let mut b = Response::build();
        for o in &c.ops {
            b = match o {
                BOp::Header(k, v) => b.header(k, v),
                BOp::Headers(h) => b.headers(h.clone()),
                BOp::Body(x) => b.body(body_of(x)),
                BOp::Status(n, r) => b.status(*n, r),
                BOp::Method(_) => b,
            }
        }
        Msg::Res(b.build())
    } else {
        let b = lunatic::sim::quietly(|| Request::try_build(&c.url)).map_err(|p| format!("try_build panics: {}", p))?;
        let mut b = match (b, &url) {
            (Ok(b), Ok(_)) => b,
            (Err(_), Err(_)) => return Ok(Seen::new(true).label(true, "invalid URL")),
            (Ok(_), Err(e)) => return Err(format!("invalid URL {:?} accepted ({})", c.url, e)),
            (Err(e), Ok(_)) => return Err(format!("valid URL {:?} rejected ({})", c.url, e)),
        };
        for o in &c.ops {
            b = match o {
                BOp::Header(k, v) => b.header(k, v),
                BOp::Headers(h) => b.headers(h.clone()),
                BOp::Body(x) => b.body(body_of(x)),
                BOp::Method(n) => b.method(method_of(n)),
                BOp::Status(..) => b,
            }
        }
        match (b.try_build(), &method) {
            (Ok(r), Some(_)) => Msg::Req(r),
            (Err(_), None) => return Ok(Seen::new(true).label(true, "no method")),
            (Ok(_), None) => return Err("built without a method".into()),
            (Err(e), Some(_)) => return Err(format!("not built: {}", e)),
        }
    };
    fn parts(m: &Msg, c: &BuildCase, headers: &BTreeMap<String, String>, method: &Option<String>, status: &(u16, String)) -> Result<(), String> {
        ensure_eq!(m.headers(), *headers, "headers");
        match m {
            Msg::Req(r) => {
                ensure!(*r.method() == method_of(method.as_ref().unwrap()), "method {:?}", r.method());
                ensure_eq!(*r.url(), url::Url::parse(&c.url).unwrap(), "URL");
            }
            Msg::Res(r) => ensure_eq!((*r.status(), r.reason().to_string()), *status, "status"),
        }
        Ok(())
    }
    parts(&m, c, &headers, &method, &status)?;
    // bodies: what is inside, and those taken out, each with its unread bytes
    let mut inside = body;
    let mut shelf: Vec<(Body, Vec<u8>)> = vec![];
    for o in &c.rops {
        let changed = match o {
            ROp::Replace(b) => {
                let old = m.replace(body_of(b));
                shelf.push((old, std::mem::replace(&mut inside, b.to_vec())));
                true
            }
            ROp::Take => {
                let old = m.take();
                shelf.push((old, std::mem::take(&mut inside)));
                true
            }
            ROp::Read(i, n) => {
                if shelf.is_empty() {
                    continue;
                }
                let k = i % shelf.len();
                let (b, left) = &mut shelf[k];
                let mut buf = vec![0; *n];
                let k = b.read(&mut buf).map_err(|e| e.to_string())?;
                ensure!(k <= left.len() && buf[..k] == left[..k], "a body taken out yields {}, expected {}", show(&buf[..k]), show(left));
                ensure!(k > 0 || *n == 0 || left.is_empty(), "a body taken out ends early; left: {}", show(left));
                left.drain(..k);
                false
            }
            ROp::PutBack(i) => {
                if shelf.is_empty() {
                    continue;
                }
                let k = i % shelf.len();
                let (b, left) = shelf.remove(k);
                let old = m.replace(b);
                shelf.push((old, std::mem::replace(&mut inside, left)));
                true
            }
        };
        if changed {
            headers.insert("Content-Type".into(), "application/octet-stream".into());
        }
        parts(&m, c, &headers, &method, &status)?;
    }
    for (b, left) in shelf {
        let v = b.into_bytes().map_err(|e| e.to_string())?;
        ensure!(v == left, "a body taken out holds {}, expected {}", show(&v), show(&left));
    }
    let v = m.take().into_bytes().map_err(|e| e.to_string())?;
    ensure!(v == inside, "the message's body is {}, expected {}", show(&v), show(&inside));
    let v = m.take().into_bytes().map_err(|e| e.to_string())?;
    ensure!(v.is_empty(), "taking the body left {}", show(&v));
    Ok(Seen::new(c.ops.len() + c.rops.len() >= 2)
        .label(c.response, "response")
        .label(c.rops.iter().any(|o| matches!(o, ROp::PutBack(_))), "put back")
        .label(c.rops.len() > 2, "several replacements"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            assumptions: &["statuses 100..=999, reasons of visible ASCII, blanks inside only; header values without line ends (the library does not validate them)", "streams are in-memory writers accepting the generated sizes, failing for good after a generated position"],
            parts: vec![
                Part::new("write", "at least two headers or a body", 200_000, 3_000_000, gen_resp, Vec::new, check_c04),
                Part::new("large bodies", "always: 100 kB to 20 MB", 60, 1_000, gen_large, Vec::new, check_c04_large),
                Part::new("long heads", "1 kB or more in one part of the head", 300, 5_000, gen_long_head, Vec::new, check_c04_long),
                Part::new(
                    "built-in",
                    "always",
                    200,
                    5_000,
                    |s| BuiltIn { code: if s.bool() { 400 } else { 404 }, limits: gen_cuts(s) },
                    || vec![BuiltIn { code: 400, limits: vec![] }, BuiltIn { code: 404, limits: vec![] }],
                    check_c04_builtin,
                ),
            ],
        },
        Prop {
            id: "C05",
            assumptions: &["what is certainly (in)valid is decided by a strict reference reader; heads only a lenient parser would take may go either way", "Content-Length repeated under several spellings: not decided"],
            parts: vec![
                Part::new("parse", "at least two headers or a body", 200_000, 3_000_000, gen_wire_resp, Vec::new, check_c05),
                Part::new("large bodies", "always: 100 kB to 20 MB", 60, 1_000, gen_large, Vec::new, check_c05_large),
                Part::new("long heads", "1 kB or more in one part of the head", 300, 5_000, gen_long_head, Vec::new, check_c05_long),
                Part::new("any bytes", "non-empty input", 300_000, 5_000_000, gen_raw_resp, fixed_c05_raw, check_c05_raw),
            ],
        },
        Prop { id: "C06", assumptions: &["sources are in-memory buffered readers with generated piece sizes and errors"], parts: vec![
            Part::new("reads", "a body with bytes", 400_000, 8_000_000, gen_c06, Vec::new, check_c06),
            Part::new("large bodies", "always: 100 kB to 20 MB", 60, 1_000, gen_large, Vec::new, check_c06_large),
        ] },
        Prop {
            id: "C07",
            assumptions: &["Content-Type is set under that spelling only", "bodies made through the public constructors, all of which have the media type application/octet-stream"],
            parts: vec![Part::new("build and replace", "at least two operations", 300_000, 5_000_000, gen_c07, Vec::new, check_c07)],
        },
    ]
}
