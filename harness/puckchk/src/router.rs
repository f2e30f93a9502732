//! C08, C09: URL matching and routing.
use crate::gen::*;
use crate::request::*;
use crate::response::check_response_bytes;
use crate::sched::*;
use kit::{ensure, ensure_eq, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{note, RunEnd, Sim};
use puck::core::router::match_url::{any_integer, anything, path, Match, Segment};
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, Response};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Seg {
    Static(String),
    Int,
    Any,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatchCase {
    segs: Vec<Seg>,
    url: String,
    /// another scheme, host, port, query and fragment for the same path
    other: (String, String, Option<u16>, Option<String>, Option<String>),
}

fn intern(s: &str) -> &'static str {
    thread_local! { static POOL: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()); }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        match p.get(s) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(s.to_string().into_boxed_str());
                p.insert(x);
                x
            }
        }
    })
}

const WORDS: &[&str] = &["", "a", "b", "home", "Home", "page", "a%20b", "%41", "A", ".", "..", "a.b", "1", "12", "007", "*", ":id", "é", "%C3%A9", "a b", "x/y", "~", "+", "-", "homes", "hom"];
const INTS: &[&str] = &[
    "0", "1", "12", "007", "-1", "-0", "+5", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9223372036854775808", "99999999999999999999999", "00000000000000000000001", "-", "+", "", "1a", "a1", "1.0", "1e3", "0x1",
    "--1", "+-1", "1_000", "%31", "1%20", "%201", "१", "1-", "twelve",
];

fn gen_c08(s: &mut Src) -> MatchCase {
    let most = if s.chance(1, 20) { 60 } else { 5 };
    gen_match(s, most, false)
}
fn gen_long_match(s: &mut Src) -> MatchCase {
    let most = *s.pick(&[20, 70, 150, 400, 1500]);
    // with so many segments a match is rare unless every part of the path is chosen to match
    let plain = s.chance(3, 4);
    gen_match(s, most, plain)
}
const PLAIN_WORDS: &[&str] = &["a", "b", "home", "Home", "a.b", "1", "*", "", "%41", "~"];
const PLAIN_INTS: &[&str] = &["0", "1", "007", "-1", "+5", "2147483647", "-2147483648", "00000000000000000000001"];
fn gen_match(s: &mut Src, most: usize, plain: bool) -> MatchCase {
    let segs: Vec<Seg> = s.vec(0, most, |s| match s.weighted(&[4, 3, 2]) {
        0 if plain => Seg::Static(s.pick(PLAIN_WORDS).to_string()),
        0 => Seg::Static(if s.chance(3, 4) { s.pick(WORDS).to_string() } else { gen_seg(s) }),
        1 => Seg::Int,
        _ => Seg::Any,
    });
    let mut parts: Vec<String> = segs
        .iter()
        .map(|g| match g {
            Seg::Static(w) => w.clone(),
            _ if plain => if s.bool() { s.pick(PLAIN_INTS) } else if *g == Seg::Int { "12" } else { s.pick(PLAIN_WORDS) }.to_string(),
            Seg::Int => s.pick(INTS).to_string(),
            Seg::Any => {
                if s.bool() {
                    s.pick(WORDS).to_string()
                } else {
                    gen_seg(s)
                }
            }
        })
        .collect();
    for _ in 0..s.weighted(&[5, 3, 1]) {
        let n = parts.len() as u64;
        match s.below(5) {
            0 => {
                let i = s.below(n + 1) as usize;
                parts.insert(i, s.pick(WORDS).to_string())
            }
            1 if n > 0 => {
                let i = s.below(n) as usize;
                parts.remove(i);
            }
            2 if n > 0 => {
                let i = s.below(n) as usize;
                parts[i] = s.pick(WORDS).to_string()
            }
            3 if n > 0 => {
                let i = s.below(n) as usize;
                parts[i] = s.pick(INTS).to_string()
            }
            _ if n > 0 => {
                let i = s.below(n) as usize;
                let w = parts[i].clone();
                parts[i] = recase(s, &w)
            }
            _ => {}
        }
    }
    let (h, p) = gen_host(s);
    let port = p.map(|p| format!(":{}", p)).unwrap_or_default();
    let q = gen_query(s).map(|q| format!("?{}", q)).unwrap_or_default();
    let frag = s.pick(&["", "", "#", "#/x/1", "#f"]).to_string();
    let url = match s.weighted(&[12, 1]) {
        0 => format!("{}://{}{}/{}{}{}", s.pick(&["http", "https", "ws", "foo", "ftp"]), h, port, parts.join("/"), q, frag),
        _ => s.pick(&["mailto:a@b", "data:a/b", "data:,x", "foo:/a/1", "foo://h", "foo://h?q", "http://h", "http://h?a/b", "http://h#a/b", "file:///a/b", "foo:a/1", "blob:http://h/a"]).to_string(),
    };
    let (h2, p2) = gen_host(s);
    MatchCase { segs, url, other: (s.pick(&["http", "https", "ws", "ftp"]).to_string(), h2, p2, gen_query(s), if s.bool() { Some("frag/1".into()) } else { None }) }
}

fn is_int32(t: &str) -> bool {
    let (neg, digits) = match t.as_bytes().first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    let d = digits.trim_start_matches('0');
    if d.len() > 10 {
        return false;
    }
    let v: u64 = if d.is_empty() { 0 } else { d.parse().unwrap() };
    v <= if neg { 1 << 31 } else { (1 << 31) - 1 }
}

fn expected_match(segs: &[Seg], u: &url::Url) -> bool {
    let p = u.path();
    if u.cannot_be_a_base() || !p.starts_with('/') {
        return false;
    }
    let parts: Vec<&str> = p[1..].split('/').collect();
    parts.len() == segs.len()
        && segs.iter().zip(parts).all(|(g, t)| match g {
            Seg::Static(w) => w == t,
            Seg::Int => is_int32(t),
            Seg::Any => true,
        })
}

fn check_c08(c: &MatchCase) -> Verdict {
    let Ok(u) = url::Url::parse(&c.url) else { return Ok(Seen::new(false).label(true, "not a URL")) };
    let mut m = Match::new();
    for g in &c.segs {
        m = m.at(match g {
            Seg::Static(w) => {
                if w.len() % 2 == 0 {
                    path(intern(w))
                } else {
                    Segment::Static(intern(w))
                }
            }
            Seg::Int => any_integer(),
            Seg::Any => anything(),
        });
    }
    let want = expected_match(&c.segs, &u);
    let got = lunatic::sim::quietly(|| m.does_match(&u)).map_err(|p| format!("matching panics: {}", p))?;
    ensure!(got == want, "the matcher says {} for {} ; expected {}", got, u, want);
    for _ in 0..2 {
        ensure!(m.does_match(&u) == want, "the matcher changes its answer for {}", u);
    }
    let mut relabelled = false;
    if u.path().starts_with('/') && ["http", "https", "ws", "ftp"].contains(&u.scheme()) {
        let (sch, h, p, q, f) = &c.other;
        let mut v = u.clone();
        let ok = v.set_scheme(sch).is_ok() && v.set_host(Some(h)).is_ok() && v.set_port(*p).is_ok();
        v.set_query(q.as_deref());
        v.set_fragment(f.as_deref());
        if ok && v.path() == u.path() {
            relabelled = true;
            ensure!(m.does_match(&v) == want, "the matcher says {} for {} but {} for {}", want, u, !want, v);
        }
    }
    Ok(Seen::new(!c.segs.is_empty())
        .label(want, "accepted")
        .label(!want && c.segs.len() == u.path().matches('/').count(), "rejected with as many segments")
        .label(c.segs.contains(&Seg::Int), "integer segment")
        .label(u.cannot_be_a_base(), "no path")
        .label(c.segs.is_empty(), "no segments")
        .label(c.segs.len() > 16, "over 16 segments")
        .label(c.segs.len() > 256, "over 256 segments")
        .label(want && c.segs.len() > 256, "accepted, over 256 segments")
        .label(relabelled, "other origin"))
}

fn fixed_c08() -> Vec<MatchCase> {
    let mut v = vec![];
    let other = ("https".to_string(), "h2".to_string(), None, Some("q".to_string()), None);
    for i in INTS {
        v.push(MatchCase { segs: vec![Seg::Int], url: format!("http://h/{}", i), other: other.clone() });
        v.push(MatchCase { segs: vec![Seg::Static("a".into()), Seg::Int], url: format!("http://h/a/{}", i), other: other.clone() });
    }
    for w in WORDS {
        for t in WORDS {
            v.push(MatchCase { segs: vec![Seg::Static(w.to_string())], url: format!("http://h/{}", t), other: other.clone() });
        }
    }
    v
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct State {
    pub name: String,
    pub numbers: Vec<u64>,
    pub nested: Option<Box<State>>,
}

pub fn gen_state(s: &mut Src) -> State {
    State {
        name: gen_value(s),
        numbers: s.vec(0, 4, |s| s.u64()),
        nested: if s.chance(1, 4) { Some(Box::new(State { name: gen_value(s), numbers: vec![], nested: None })) } else { None },
    }
}

/// What a handler saw, as it reports it in a note and in its response.
pub fn describe(route: &str, req: &mut Request, state: &State) -> String {
    let mut h: Vec<_> = req.headers().iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    h.sort();
    let m = format!("{:?}", req.method());
    let u = req.url().to_string();
    let body = req.take_body().into_bytes().map(|b| format!("{:?}", kit::Bytes(b))).unwrap_or_else(|e| format!("error {}", e.kind()));
    format!("{} | {} | {} | {} | {} | {}", route, m, u, h.join("\u{1}"), body, serde_json::to_string(state).unwrap())
}

pub fn header<'a>(req: &'a Request, name: &str) -> Option<&'a str> {
    req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
}

fn matcher<const I: usize>(req: &Request) -> bool {
    note(format!("m{}", I));
    let mask: u64 = header(req, "X-Mask").and_then(|v| v.parse().ok()).unwrap_or(0);
    mask >> I & 1 == 1
}
fn handler<const I: usize>(mut req: Request, stream: Stream, state: State) -> UsedStream {
    let d = describe(&format!("h{}", I), &mut req, &state);
    note(format!("!{}", d));
    stream.respond(Response::build().status(200, "OK").body(d).build()).unwrap_or_else(|_| UsedStream::empty())
}

type M = fn(&Request) -> bool;
type H = fn(Request, Stream, State) -> UsedStream;
const N: usize = 12;
const MATCHERS: [M; N] = [matcher::<0>, matcher::<1>, matcher::<2>, matcher::<3>, matcher::<4>, matcher::<5>, matcher::<6>, matcher::<7>, matcher::<8>, matcher::<9>, matcher::<10>, matcher::<11>];
const HANDLERS: [H; N] = [handler::<0>, handler::<1>, handler::<2>, handler::<3>, handler::<4>, handler::<5>, handler::<6>, handler::<7>, handler::<8>, handler::<9>, handler::<10>, handler::<11>];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RouteCase {
    /// serve_router, else Router::run
    core: bool,
    routes: Vec<(usize, usize)>,
    /// for each request on its own connection: which matchers accept
    requests: Vec<(u64, Req)>,
    state: State,
    sched: Sched,
}

fn gen_many_routes(s: &mut Src) -> RouteCase {
    let mut c = gen_c09(s);
    let (n, k) = (*s.pick(&[200, 400, 800, 1500, 3000, 6000]), s.below(N as u64) as usize);
    c.routes = (0..s.range(n / 2, n)).map(|i| (i * 7 % (N - 1), (i + k) % N)).collect();
    c.routes.push((N - 1, k));
    c.requests.truncate(2);
    // one is for the last route only
    let (mask, r) = &mut c.requests[0];
    *mask = 1 << (N - 1);
    r.headers.iter_mut().filter(|l| l.name == "X-Mask").for_each(|l| l.value = mask.to_string());
    c
}
fn gen_c09(s: &mut Src) -> RouteCase {
    let most = if s.chance(1, 5) { 40 } else { 10 };
    let mut routes = s.vec(0, most, |s| (s.below(N as u64) as usize, s.below(N as u64) as usize));
    if s.chance(1, 12) {
        // hundreds of routes; the matchers of the last one are found nowhere before
        let (n, k) = (s.range(40, 300), s.below(N as u64) as usize);
        routes = (0..n).map(|i| (i * 7 % (N - 1), (i + k) % N)).collect();
        routes.push((N - 1, s.below(N as u64) as usize));
    }
    let requests = s.vec(1, 4, |s| {
        let mask = match s.weighted(&[2, 4, 2, 1]) {
            0 => s.below(1 << N),
            // sparse: late matches
            1 => (0..2).map(|_| 1u64 << s.below(N as u64)).sum::<u64>() & ((1 << N) - 1),
            2 => match routes.last() {
                Some((m, _)) => 1 << m,
                None => 0,
            },
            _ => 0,
        };
        let mut r = gen_req(s);
        r.missing = 0;
        r.headers.truncate(19);
        r.headers.retain(|l| !l.name.eq_ignore_ascii_case("x-mask"));
        r.headers.push(Line { name: "X-Mask".into(), value: mask.to_string(), before: " ".into(), after: String::new() });
        // truncation may have removed what the request needs
        if !r.headers.iter().any(|l| l.name.eq_ignore_ascii_case("host")) {
            r.headers[0] = Line { name: "Host".into(), value: match r.port { Some(p) => format!("{}:{}", r.host, p), None => r.host.clone() }, before: " ".into(), after: String::new() };
        }
        if r.declared && !r.headers.iter().any(|l| l.name.eq_ignore_ascii_case("content-length")) {
            r.declared = false;
        }
        if !r.declared {
            r.headers.retain(|l| !l.name.eq_ignore_ascii_case("content-length"));
            r.after = kit::Bytes::default();
        }
        (mask, r)
    });
    RouteCase { core: s.bool(), routes, requests, state: gen_state(s), sched: gen_sched(s) }
}

/// What `describe` must say about a request.
pub fn expected_description(route: &str, r: &Req, state: &State) -> String {
    let mut h: Vec<_> = r.headers.iter().map(|l| format!("{}={}", l.name, l.value)).collect();
    h.sort();
    let hp = |h: &str, p: Option<u16>| match p {
        Some(p) => format!("{}:{}", h, p),
        None => h.to_string(),
    };
    let u = match &r.target {
        Target::Origin => format!("http://{}{}", hp(&r.host, r.port), r.pq()),
        Target::Absolute { scheme, host, port } => format!("{}://{}{}", scheme, hp(host, *port), r.pq()),
        Target::Connect => format!("http://{}/", hp(&r.host, r.port)),
    };
    let m = format!("{:?}", method_of(&r.method));
    format!("{} | {} | {} | {} | {:?} | {}", route, m, u, h.join("\u{1}"), r.body, serde_json::to_string(state).unwrap())
}

fn check_c09(c: &RouteCase) -> Verdict {
    let sim = Sim::new();
    let (core, routes, state) = (c.core, c.routes.clone(), c.state.clone());
    let root = sim.spawn_root(move || {
        let mut router = Router::<State>::new();
        for (m, h) in routes {
            router = router.route(Route::new(MATCHERS[m], HANDLERS[h]));
        }
        if core {
            Core::bind("127.0.0.1:0", state).expect("bind").serve_router(router)
        } else {
            router.run(lunatic::net::TcpListener::bind("127.0.0.1:0").expect("bind"), state)
        }
    });
    ensure!(sim.run(10_000, |_| 0) == RunEnd::Idle && sim.exit_of(root).is_none(), "the server does not start");
    let mut late = false;
    let mut none = false;
    for (i, (mask, r)) in c.requests.iter().enumerate() {
        let from = sim.notes().len();
        let conn = sim.connect(0);
        sim.read_limits(conn, r.cuts.clone());
        sim.push(conn, &r.wire());
        if !r.declared {
            sim.eof(conn)
        }
        let mut ch = Chooser::new(&c.sched);
        ensure!(sim.run(200_000, |n| ch.choose(n)) == RunEnd::Idle, "request {} keeps the server busy for ever", i);
        ensure!(sim.exit_of(root).is_none(), "the server ended");
        if let Some((_, p)) = sim.panics().first() {
            return Err(format!("request {}: panic: {}", i, p));
        }
        let notes = sim.notes()[from..].to_vec();
        let first = c.routes.iter().position(|(m, _)| mask >> m & 1 == 1);
        let ran: Vec<&String> = notes.iter().filter(|n| n.starts_with('!')).collect();
        let consulted: Vec<&String> = notes.iter().filter(|n| n.starts_with('m')).collect();
        let may: HashSet<String> = c.routes[..first.map_or(c.routes.len(), |f| f + 1)].iter().map(|(m, _)| format!("m{}", m)).collect();
        if let Some(x) = consulted.iter().find(|x| !may.contains(**x)) {
            return Err(format!("request {}: matcher {} was consulted although an earlier route accepts", i, x));
        }
        match first {
            None => {
                none = true;
                ensure!(ran.is_empty(), "request {}: no matcher accepts, but a handler ran: {:?}", i, ran);
            }
            Some(f) => {
                late |= f > 0;
                ensure!(ran.len() == 1, "request {}: {} handlers ran: {:?}", i, ran.len(), ran);
                let want = expected_description(&format!("h{}", c.routes[f].1), r, &c.state);
                ensure_eq!(ran[0][1..], want, format!("request {}: the handler that ran and what it was given", i));
                check_response_bytes(&sim.output(conn), 200, "OK", &[], want.as_bytes()).map_err(|e| format!("request {}: {}", i, e))?;
            }
        }
    }
    Ok(Seen::new(c.routes.len() >= 2).label(late, "not the first route").label(none, "no route").label(c.routes.len() > 40, "over 40 routes").label(c.core, "serve_router").label(c.requests.len() > 1, "several requests"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", assumptions: &["URL parsing (the url crate) is trusted; a decimal integer may have a sign and leading zeros"], parts: vec![
            Part::new("match", "at least one segment", 1_500_000, 60_000_000, gen_c08, fixed_c08, check_c08),
            Part::new("many segments", "at least one segment", 20_000, 200_000, gen_long_match, Vec::new, check_c08),
        ] },
        Prop {
            id: "C09",
            assumptions: &["the lunatic VM is replaced by a deterministic simulation of its host calls", "up to 6000 routes over 12 matchers and 12 handlers", "what the client receives when no route accepts is not decided"],
            parts: vec![
                Part::new("route", "at least two routes", 60_000, 2_000_000, gen_c09, Vec::new, check_c09),
                Part::new("many routes", "always: 100 to 6000 routes", 200, 4_000, gen_many_routes, Vec::new, check_c09),
            ],
        },
    ]
}
