//! Generators and reference parsing for HTTP messages.
use kit::{Bytes, Src};
use serde::{Deserialize, Serialize};

pub const TCHAR: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";

pub fn is_tchar(b: u8) -> bool {
    TCHAR.contains(&b)
}

pub fn token(s: &mut Src, min: usize, max: usize) -> String {
    s.vec(min, max, |s| TCHAR[s.below(TCHAR.len() as u64) as usize] as char).into_iter().collect()
}

/// Flip the case of letters according to choices.
pub fn recase(s: &mut Src, w: &str) -> String {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => w.to_string(),
        1 => w.to_ascii_lowercase(),
        2 => w.to_ascii_uppercase(),
        _ => w.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn gen_method(s: &mut Src) -> String {
    match s.weighted(&[5, 5, 3, 3, 2, 1]) {
        0 => "GET".into(),
        1 => "POST".into(),
        2 => "HEAD".into(),
        5 => s.pick(&["HEADER", "HEADS", "HEA", "GETS", "GE", "G", "POSTS", "POS", "PUTS", "GETPOST", "CONNECTED", "CONNEC"]).to_string(),
        3 => s.pick(&["PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "M-SEARCH"]).to_string(),
        _ => other_token(s),
    }
}

/// A method token that is not another spelling of a known one.
fn other_token(s: &mut Src) -> String {
    let t = token(s, 1, 12);
    match t.to_ascii_lowercase().as_str() {
        "get" | "post" | "head" | "connect" => format!("X{}", t),
        _ => t,
    }
}

const SEG: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'Q', 'Z', '0', '1', '7', '9', '-', '_', '~', ':', '@', '!', '$', '&', '(', ')', '*', '+', ',', ';', '=',
];
const QRY: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'Z', '0', '1', '9', '-', '_', '~', '.', ':', '@', '!', '$', '&', '(', ')', '*', '+', ',', ';', '=', '/', '?',
];
const PCT: &[&str] = &["%20", "%41", "%2F", "%3F", "%23", "%25", "%C3%A9", "%00", "%7f", "%5C"];

pub fn gen_seg(s: &mut Src) -> String {
    let mut out = String::new();
    for p in s.vec(0, 8, |s| if s.chance(1, 6) { s.pick(PCT).to_string() } else if s.chance(1, 12) { "a.b".to_string() } else { s.pick(SEG).to_string() }) {
        out += &p;
    }
    out
}

/// A path that URL parsing leaves as it is.
pub fn gen_path(s: &mut Src) -> String {
    let segs = s.vec(1, 6, gen_seg);
    format!("/{}", segs.join("/"))
}
pub fn gen_query(s: &mut Src) -> Option<String> {
    if !s.chance(1, 2) {
        return None;
    }
    let mut out = String::new();
    for p in s.vec(0, 12, |s| if s.chance(1, 8) { s.pick(PCT).to_string() } else { s.pick(QRY).to_string() }) {
        out += &p;
    }
    Some(out)
}
/// (host, port) that URL parsing leaves as they are.
pub fn gen_host(s: &mut Src) -> (String, Option<u16>) {
    let h = match s.weighted(&[6, 2, 1, 3]) {
        0 => s.pick(&["example.com", "localhost", "a", "www.example.org", "x-y.example"]).to_string(),
        1 => format!("{}.{}.{}.{}", s.range(1, 255), s.range(0, 255), s.range(0, 255), s.range(0, 255)),
        2 => s.pick(&["[::1]", "[2001:db8::1]"]).to_string(),
        _ => {
            let l = s.vec(1, 3, |s| s.vec(1, 6, |s| *s.pick(&['a', 'b', 'c', 'k', 'z', '0', '5'])).into_iter().collect::<String>());
            format!("{}.test", l.iter().map(|x| format!("h{}", x)).collect::<Vec<_>>().join("."))
        }
    };
    let p = if s.chance(1, 3) { Some(*s.pick(&[8080u16, 1, 65535, 443, 3000, 81])) } else { None };
    (h, p)
}

/// A header value without leading or trailing blanks.
pub fn gen_value(s: &mut Src) -> String {
    let v: String = s
        .vec(0, 20, |s| match s.weighted(&[10, 2, 1, 1]) {
            0 => (0x21 + s.below(0x7e - 0x21 + 1) as u8) as char,
            1 => ' ',
            2 => '\t',
            _ => *s.pick(&['é', 'ß', '漢', '😀', '\u{a0}', '\u{85}']),
        })
        .into_iter()
        .collect();
    v.trim_matches(|c| c == ' ' || c == '\t').to_string()
}
pub fn gen_ows(s: &mut Src) -> String {
    s.pick(&[" ", "", "  ", "\t", " \t "]).to_string()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub name: String,
    pub value: String,
    pub before: String,
    pub after: String,
}
impl Line {
    pub fn wire(&self, out: &mut Vec<u8>) {
        out.extend(format!("{}:{}{}{}\r\n", self.name, self.before, self.value, self.after).into_bytes());
    }
}

/// Header names with a meaning to the library or to HTTP framing; not used for filler headers.
fn reserved(n: &str) -> bool {
    matches!(n.to_ascii_lowercase().as_str(), "host" | "content-length" | "transfer-encoding" | "content-type" | "connection" | "upgrade" | "sec-websocket-key")
}

/// Headers that proxies, caches and other servers act on: to the library they are headers like any other.
const TELLING: &[(&str, &[&str])] = &[
    ("X-Forwarded-Host", &["other.test", "other.test:81"]),
    ("X-Forwarded-Proto", &["https", "http"]),
    ("X-Forwarded-For", &["10.0.0.1, 10.0.0.2"]),
    ("X-Forwarded-Port", &["444"]),
    ("X-Forwarded-Prefix", &["/pre"]),
    ("Forwarded", &["for=10.0.0.1;host=other.test;proto=https"]),
    ("X-HTTP-Method-Override", &["DELETE", "PUT", "GET"]),
    ("X-Original-URL", &["/other?x=y"]),
    ("X-Rewrite-URL", &["/other"]),
    ("Accept-Encoding", &["gzip, deflate", "identity;q=0", "*"]),
    ("Content-Encoding", &["gzip", "identity", "deflate", "br"]),
    ("Content-Language", &["de"]),
    ("Content-Location", &["/other"]),
    ("Content-Range", &["bytes 0-1/4"]),
    ("Content-MD5", &["Q2hlY2s="]),
    ("Content-Disposition", &["attachment; filename=\"a;b\""]),
    ("Expect", &["100-continue", "x"]),
    ("Range", &["bytes=0-1", "bytes=-1"]),
    ("TE", &["trailers", "chunked"]),
    ("Trailer", &["ETag"]),
    ("Keep-Alive", &["timeout=5, max=1", "max=0"]),
    ("Proxy-Connection", &["close", "keep-alive"]),
    ("Upgrade-Insecure-Requests", &["1"]),
    ("HTTP2-Settings", &["AAMAAABkAAQAAP__"]),
    ("Max-Forwards", &["0"]),
    ("Authorization", &["Basic YTpi", "Bearer x=="]),
    ("If-None-Match", &["*", "\"a,b\""]),
    ("If-Modified-Since", &["Sat, 29 Oct 1994 19:43:31 GMT"]),
    ("Origin", &["http://other.test", "null"]),
    ("Last-Modified", &["Sat, 29 Oct 1994 19:43:31 GMT"]),
    ("Cache-Control", &["no-store", "max-age=0, private"]),
    ("Pragma", &["no-cache"]),
    ("Vary", &["*"]),
    ("Allow", &["GET, HEAD"]),
    ("Retry-After", &["0"]),
    ("Link", &["</a>; rel=\"next\", </b>"]),
    ("Strict-Transport-Security", &["max-age=0"]),
    ("Status", &["500"]),
    ("Method", &["PUT"]),
    ("Length", &["1"]),
    ("Content", &["0"]),
    ("Encoding", &["chunked"]),
];

/// Up to `max` filler headers with distinct names (ignoring case).
pub fn gen_fillers(s: &mut Src, max: usize) -> Vec<Line> {
    let n = if s.chance(1, 5) { max } else { s.range(0, max.min(6)) };
    let mut out: Vec<Line> = vec![];
    for i in 0..n {
        let l = s.span(|s| {
            let kind = s.weighted(&[3, 3, 2]);
            if kind == 2 {
                let (name, values) = *s.pick(TELLING);
                let value = if s.chance(1, 5) { gen_value(s) } else { s.pick(values).to_string() };
                return Line { name: recase(s, name), value, before: gen_ows(s), after: s.pick(&["", " ", "\t"]).to_string() };
            }
            let name = match kind {
                0 => {
                    let n = s.pick(&["Accept", "User-Agent", "Cookie", "X-A", "Referer", "ETag", "Content-Types", "X-Host", "Content-Lengths", "Date"]).to_string();
                    recase(s, &n)
                }
                _ => token(s, 1, 14),
            };
            Line { name, value: gen_value(s), before: gen_ows(s), after: s.pick(&["", " ", "\t"]).to_string() }
        });
        let mut l = l;
        if reserved(&l.name) || out.iter().any(|o| o.name.eq_ignore_ascii_case(&l.name)) {
            l.name = format!("F{}-{}", i, out.len());
        }
        out.push(l);
    }
    out
}

/// Body sizes: mostly small, sometimes around buffer sizes.
pub fn gen_size(s: &mut Src) -> usize {
    match s.weighted(&[3, 8, 3, 2]) {
        0 => 0,
        1 => s.range(1, 40),
        2 => s.range(41, 600),
        _ => *s.pick(&[1023usize, 1024, 1025, 8191, 8192, 8193, 9990, 10000, 10001, 16384, 20001, 70000]),
    }
}

/// A body of up to some megabytes, described briefly.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    pub n: usize,
    /// letters only (else every byte value)
    pub text: bool,
    pub salt: u8,
    pub declared: bool,
    /// bytes on the stream behind a body of declared length
    pub after: usize,
    /// piece size of the stream (0: everything at once)
    pub cut: usize,
    pub read: usize,
}

pub fn gen_large(s: &mut Src) -> Large {
    let n = match s.weighted(&[3, 2]) {
        0 => *s.pick(&[1usize << 16, (1 << 16) + 1, 1 << 20, (1 << 20) + 1, 1 << 21, 5 << 20, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]),
        _ => s.range(100_000, 20_000_000),
    };
    Large {
        n,
        text: s.bool(),
        salt: s.byte(),
        declared: s.bool(),
        after: if s.bool() { 0 } else { s.range(1, 100_000) },
        cut: *s.pick(&[0usize, 1460, 4096, 8191, 65536, 1 << 20]),
        read: *s.pick(&[1000usize, 4096, 65536, 1 << 20, 1 << 25]),
    }
}

impl Large {
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let mut x = self.salt as u32 | 0x100;
        (0..n)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                let b = (x >> 24) as u8;
                if self.text {
                    b'a' + b % 26
                } else {
                    b
                }
            })
            .collect()
    }
    pub fn cuts(&self) -> Vec<usize> {
        if self.cut == 0 {
            vec![]
        } else {
            vec![self.cut]
        }
    }
    pub fn line(name: &str, value: String) -> Line {
        Line { name: name.into(), value, before: " ".into(), after: String::new() }
    }
    pub fn after(&self) -> Vec<u8> {
        if self.declared {
            vec![b'Z'; self.after]
        } else {
            vec![]
        }
    }
}

/// A message whose head is long (up to some megabytes), described briefly.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongHead {
    /// place in the head and length of what is there, see `word`
    pub longs: Vec<(u8, usize)>,
    /// other headers, of ordinary length
    pub others: usize,
    pub salt: u8,
    pub declared: bool,
    pub body: usize,
    pub cut: usize,
    pub limit: usize,
    pub fails: bool,
}
pub fn gen_long_head(s: &mut Src) -> LongHead {
    let longs = s.vec(1, 3, |s| {
        let n = match s.weighted(&[3, 2, 1]) {
            0 => {
                let k = s.range(8, 21);
                (1usize << k) + s.range(0, 2) - 1
            }
            1 => s.range(100, 70_000),
            _ => s.range(70_000, 2_000_000),
        };
        (s.below(8) as u8, n)
    });
    LongHead { longs, others: s.range(0, 15), salt: s.byte(), declared: s.bool(), body: s.range(0, 40), cut: *s.pick(&[0usize, 1460, 4096, 8191, 65536]), limit: *s.pick(&[0usize, 1000, 1460, 65536]), fails: s.chance(1, 3) }
}
impl LongHead {
    fn word(&self, n: usize) -> String {
        let l = Large { n, text: true, salt: self.salt, declared: false, after: 0, cut: 0, read: 0 };
        String::from_utf8(l.bytes(n)).unwrap()
    }
    /// Header lines: the last four places are a long value each, place 3 is a long name (of 60 000 at most).
    pub fn lines(&self) -> Vec<Line> {
        let mut v: Vec<Line> = (0..self.others).map(|i| Large::line(&format!("Other-{}", i), format!("value {}", i))).collect();
        for (i, &(place, n)) in self.longs.iter().enumerate() {
            let at = (self.salt as usize * 7 + i) % (v.len() + 1);
            match place {
                4..=7 => v.insert(at, Large::line(&format!("Long-{}", i), self.word(n))),
                3 => v.insert(at, Large::line(&format!("{}-{}", self.word(n.min(60_000)), i), "v".into())),
                _ => {}
            }
        }
        v
    }
    /// What is at place 0, 1 or 2 (path, query, method or reason).
    pub fn at(&self, place: u8) -> Option<String> {
        self.longs.iter().find(|l| l.0 == place).map(|l| self.word(l.1))
    }
    pub fn body(&self) -> Bytes {
        vec![b'B'; self.body].into()
    }
    pub fn cuts(&self) -> Vec<usize> {
        Some(self.cut).filter(|c| *c > 0).into_iter().collect()
    }
    pub fn limits(&self) -> Vec<usize> {
        Some(self.limit).filter(|c| *c > 0).into_iter().collect()
    }
    pub fn total(&self) -> usize {
        self.longs.iter().map(|l| l.1).sum()
    }
    pub fn seen(&self) -> kit::Seen {
        let n = self.total();
        kit::Seen::new(n >= 1000).label(n > 1 << 16, "over 64 KiB").label(n > 1 << 20, "over 1 MiB").label(self.cut > 0, "cut")
    }
}

/// A strict reading of an HTTP/1.x head.
#[derive(Debug, Clone, PartialEq)]
pub enum Reading {
    /// Strictly valid: first line split at its first two spaces, then header fields.
    Valid { first: [String; 3], headers: Vec<(String, Vec<u8>)> },
    /// Certainly not valid HTTP.
    Invalid,
    /// Tolerated or rejected depending on how lenient a parser is.
    Either,
}

/// Read a head that ends with its first CRLFCRLF.  `request`: request line, else status line.
pub fn read_head(head: &[u8], request: bool) -> Reading {
    let body = &head[..head.len() - 4];
    let mut lines: Vec<&[u8]> = vec![];
    let mut from = 0;
    let mut i = 0;
    while i < body.len() {
        match body[i] {
            b'\r' if body.get(i + 1) == Some(&b'\n') => {
                lines.push(&body[from..i]);
                i += 2;
                from = i;
            }
            b'\r' | b'\n' => return Reading::Either,
            _ => i += 1,
        }
    }
    lines.push(&body[from..]);
    if lines[0].is_empty() {
        return Reading::Either;
    }
    let l0 = lines[0];
    let mut either = false;
    let first;
    if request {
        let parts: Vec<&[u8]> = l0.split(|b| *b == b' ').collect();
        if parts.len() < 3 {
            return Reading::Invalid;
        }
        if parts.len() > 3 || parts.iter().any(|p| p.is_empty()) {
            return Reading::Either;
        }
        if !parts[0].iter().all(|b| is_tchar(*b)) {
            // letters outside the token set; some parsers are laxer about a few of them
            return if parts[0].iter().any(|b| *b < 0x21 || *b == 0x7f || b"\"(),/:;<=>?@[\\]{}".contains(b)) { Reading::Invalid } else { Reading::Either };
        }
        if parts[1].iter().any(|b| *b < 0x21 || *b == 0x7f) {
            return Reading::Invalid;
        }
        if parts[1].iter().any(|b| *b >= 0x80) {
            either = true;
        }
        if parts[2] != b"HTTP/1.1" && parts[2] != b"HTTP/1.0" {
            return Reading::Invalid;
        }
        first = [s(parts[0]), s(parts[1]), s(parts[2])];
    } else {
        // HTTP/1.x SP 3DIGIT SP reason
        if l0.len() < 12 || (&l0[..9] != b"HTTP/1.1 " && &l0[..9] != b"HTTP/1.0 ") {
            return if l0.starts_with(b"HTTP/1.1 ") || l0.starts_with(b"HTTP/1.0 ") || !l0.starts_with(b"HTTP/1.") { Reading::Invalid } else { Reading::Either };
        }
        if !l0[9..12].iter().all(|b| b.is_ascii_digit()) {
            return Reading::Invalid;
        }
        if l0.len() == 12 {
            return Reading::Either;
        }
        if l0[12] != b' ' {
            return Reading::Invalid;
        }
        if l0[13..].iter().any(|b| (*b < 0x20 && *b != b'\t') || *b == 0x7f) {
            return Reading::Invalid;
        }
        if l0[13..].iter().any(|b| *b >= 0x80) || l0[13..].first() == Some(&b' ') || l0[9] == b'0' {
            either = true;
        }
        first = [s(&l0[..8]), s(&l0[9..12]), s(&l0[13..])];
    }
    let mut headers = vec![];
    for l in &lines[1..] {
        if l.is_empty() {
            return Reading::Either;
        }
        if l[0] == b' ' || l[0] == b'\t' {
            return Reading::Either; // folding
        }
        let Some(c) = l.iter().position(|b| *b == b':') else { return Reading::Invalid };
        let (name, value) = (&l[..c], &l[c + 1..]);
        if name.is_empty() {
            return Reading::Invalid;
        }
        if !name.iter().all(|b| is_tchar(*b)) {
            if name.iter().any(|b| *b < 0x20 || *b == 0x7f) {
                return Reading::Invalid;
            }
            return Reading::Either;
        }
        if value.iter().any(|b| (*b < 0x20 && *b != b'\t') || *b == 0x7f) {
            return Reading::Invalid;
        }
        let a = value.iter().position(|b| *b != b' ' && *b != b'\t').unwrap_or(value.len());
        let z = value.iter().rposition(|b| *b != b' ' && *b != b'\t').map_or(a, |p| p + 1);
        headers.push((s(name), value[a..z].to_vec()));
    }
    if either {
        return Reading::Either;
    }
    Reading::Valid { first, headers }
}

fn s(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

/// Edit a byte string the way damaged or hostile peers do.
pub fn mutate(s: &mut Src, mut b: Vec<u8>, tokens: &[&[u8]]) -> Vec<u8> {
    for _ in 0..s.range(1, 4) {
        s.span(|s| {
            let n = b.len();
            match s.weighted(&[4, 4, 4, 2, 2, 3, 2]) {
                0 => {
                    if n > 0 {
                        let i = s.below(n as u64) as usize;
                        b[i] = s.byte();
                    }
                }
                1 => {
                    let i = s.below(n as u64 + 1) as usize;
                    let t: &[u8] = s.pick(tokens);
                    b.splice(i..i, t.iter().copied());
                }
                2 => {
                    if n > 0 {
                        let i = s.below(n as u64) as usize;
                        let j = (i + s.range(1, 8)).min(n);
                        b.drain(i..j);
                    }
                }
                3 => {
                    let k = s.below(n as u64 + 1) as usize;
                    b.truncate(k);
                }
                4 => {
                    if n > 0 {
                        let i = s.below(n as u64) as usize;
                        let j = (i + s.range(1, 60)).min(n);
                        let t = b[i..j].to_vec();
                        let k = s.below(n as u64 + 1) as usize;
                        b.splice(k..k, t);
                    }
                }
                5 => {
                    // repeat, drop or swap whole lines
                    let mut ls: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                    if !ls.is_empty() {
                        let i = s.below(ls.len() as u64) as usize;
                        match s.below(4) {
                            0 => {
                                let l = ls[i].clone();
                                ls.insert(i, l)
                            }
                            1 => {
                                ls.remove(i);
                            }
                            2 => {
                                let j = s.below(ls.len() as u64) as usize;
                                ls.swap(i, j)
                            }
                            _ => {
                                let mut l = ls[i].clone();
                                l.iter_mut().for_each(|c| if c.is_ascii_alphabetic() { *c ^= 0x20 });
                                ls.insert(i, l)
                            }
                        }
                    }
                    b = ls.concat();
                }
                _ => {
                    let i = s.below(n as u64 + 1) as usize;
                    let t = s.vec(1, 6, |s| s.byte());
                    b.splice(i..i, t);
                }
            }
        });
    }
    b
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

pub fn show(b: &[u8]) -> String {
    kit::clip(&format!("{:?}", Bytes(b.to_vec())))
}
