//! C10, C11: the servers, with many clients, interleavings and faults.
use crate::gen::*;
use crate::request::*;
use crate::response::check_response_bytes;
use crate::router::{describe, expected_description, gen_state, header, State};
use crate::sched::*;
use kit::{ensure, Bytes, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{note, RunEnd, Sim};
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, Response};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::io::Read;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    ServeRouter,
    Run,
    ForEach,
}

/// What a client does.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    /// sends its whole request
    Good,
    /// as Good, but its body never comes to its end (so its handler waits for ever)
    StalledBody { sent: usize },
    /// a handler that panics before it responds
    HandlerPanics,
    /// bytes that are certainly no request
    Malformed { bytes: Bytes },
    /// the head ends (with the stream) after so many bytes
    Truncated { at: usize },
    /// the head stops coming after so many bytes, the connection stays
    Stalled { at: usize },
    /// the client resets the connection after so many bytes of its whole request
    Reset { at: usize },
    /// connects and sends nothing, leaving at once
    Leaves { reset: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Client {
    kind: Kind,
    req: Req,
    /// sizes of the pieces in which the client sends
    pieces: Vec<usize>,
    write_limits: Vec<usize>,
    /// accepts fail this often before this client connects
    failed_accepts: usize,
    /// the client half-closes after sending (Good)
    half_close: bool,
    /// when the client takes what is sent to it
    #[serde(default, skip_serializing_if = "Takes::now")]
    takes: Takes,
}

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
enum Takes {
    #[default]
    AtOnce,
    /// after it has sent everything
    Late,
    Never,
}
impl Takes {
    fn now(&self) -> bool {
        *self == Takes::AtOnce
    }
}
fn gen_takes(s: &mut Src) -> Takes {
    [Takes::AtOnce, Takes::Late, Takes::Never][s.weighted(&[16, 3, 1])]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ServerCase {
    mode: Mode,
    state: State,
    clients: Vec<Client>,
    sched: Sched,
}

fn gen_client(s: &mut Src, faulty: bool, i: usize) -> Client {
    let mut req = gen_req(s);
    req.missing = 0;
    if req.body.len() > 2000 {
        req.body = req.body[..37].into();
    }
    // leave room for the client's own header; the server reads neither more nor less for it
    req.headers.truncate(16);
    req.headers.retain(|l| !["x-client", "host", "content-length", "x-do"].contains(&l.name.to_ascii_lowercase().as_str()));
    let line = |n: String, v: String| Line { name: n, value: v, before: " ".into(), after: String::new() };
    let hp = match req.port {
        Some(p) => format!("{}:{}", req.host, p),
        None => req.host.clone(),
    };
    req.headers.insert(0, line("Host".into(), hp));
    req.headers.push(line("X-Client".into(), i.to_string()));
    if req.declared {
        req.headers.push(line(recase(s, "Content-Length"), req.body.len().to_string()));
    } else {
        req.after = Bytes::default();
    }
    let head = req.head().len();
    let kind = if !faulty {
        match s.weighted(&[6, 1]) {
            0 => Kind::Good,
            _ => Kind::StalledBody { sent: s.below(req.body.len() as u64 + 1) as usize },
        }
    } else {
        match s.weighted(&[2, 2, 3, 3, 2, 3, 1]) {
            0 => Kind::HandlerPanics,
            1 => Kind::StalledBody { sent: s.below(req.body.len() as u64 + 1) as usize },
            2 => Kind::Malformed { bytes: gen_malformed(s, &req).into() },
            3 => Kind::Truncated { at: s.below(head as u64) as usize },
            4 => Kind::Stalled { at: s.below(head as u64) as usize },
            5 => {
                let n = req.wire().len() as u64;
                Kind::Reset { at: s.below(n + 1) as usize }
            }
            _ => Kind::Leaves { reset: s.bool() },
        }
    };
    let mut kind = kind;
    if let Kind::StalledBody { .. } = kind {
        req.after = Bytes::default();
        if req.declared && req.body.is_empty() {
            kind = Kind::Good;
        }
    }
    if let (Kind::StalledBody { sent }, true) = (&kind, req.declared) {
        kind = Kind::StalledBody { sent: (*sent).min(req.body.len() - 1) };
    }
    if let Kind::HandlerPanics = kind {
        req.headers.push(line("X-Do".into(), "panic".into()));
    }
    Client {
        kind,
        req,
        pieces: if s.chance(1, 3) { vec![] } else { s.vec(1, 4, |s| s.range(1, 80)) },
        write_limits: if s.chance(2, 3) { vec![] } else { s.vec(1, 3, |s| s.range(1, 100)) },
        failed_accepts: if s.chance(1, 5) { s.range(1, 3) } else { 0 },
        half_close: s.chance(1, 3),
        takes: gen_takes(s),
    }
}

/// A complete head that no HTTP/1.x server may take for a request.
fn gen_malformed(s: &mut Src, r: &Req) -> Vec<u8> {
    let head = r.head();
    for _ in 0..8 {
        let mut b = match s.weighted(&[4, 2, 2, 2, 2]) {
            0 => mutate(s, head.clone(), TOKENS),
            1 => {
                let mut q = r.clone();
                q.headers.retain(|l| !l.name.eq_ignore_ascii_case("host"));
                q.head()
            }
            2 => {
                let mut q = r.clone();
                while q.headers.len() <= 20 {
                    let n = q.headers.len();
                    q.headers.push(Line { name: format!("Extra-{}", n), value: "x".into(), before: " ".into(), after: String::new() });
                }
                q.head()
            }
            3 => {
                let mut h = head[..head.len() - 2].to_vec();
                h.extend(b"X-Bad: \xff\xfe\r\n\r\n");
                h
            }
            _ => {
                let mut v = s.pick(&[&b"hello"[..], b"GET", b"GET /", b"GET / HTTP/3.7", b"GET  HTTP/1.1", b"\x16\x03\x01\x02", b"GET / HTTP/1.1\r\nnocolon", b"GET nopath HTTP/1.1\r\nHost: h", b"GET / HTTP/1.1\r\nHost: ", b"GET / HTTP/1.1\r\nHost: a/b", b"GET / HTTP/1.1\r\n: x"]).to_vec();
                v.extend(b"\r\n\r\n");
                v
            }
        };
        if let Some(p) = find(&b, b"\r\n\r\n") {
            let h = &b[..p + 4];
            let bad = match read_head(h, true) {
                Reading::Invalid => true,
                Reading::Either => false,
                Reading::Valid { first, headers } => {
                    let host = headers.iter().rfind(|(n, _)| n.eq_ignore_ascii_case("host")).map(|(_, v)| v.clone());
                    headers.len() > 20
                        || headers.iter().any(|(_, v)| std::str::from_utf8(v).is_err())
                        || host.is_none()
                        || (first[1].starts_with('/') && host.map_or(true, |h| h.is_empty() || h.contains(&b'/')))
                        || (!first[0].eq_ignore_ascii_case("connect") && !first[1].starts_with('/') && !first[1].contains(':'))
                }
            };
            if bad {
                let n = s.range(0, 20);
                b.extend(s.blob(n));
                return b;
            }
        }
    }
    b"no request\r\n\r\n".to_vec()
}

fn gen_server(s: &mut Src, faults: bool) -> ServerCase {
    let mode = *s.pick(&[Mode::ServeRouter, Mode::Run, Mode::ForEach]);
    let n = if s.chance(1, 8) { s.range(6, 16) } else { s.range(1, 5) };
    let clients = (0..n)
        .map(|i| {
            let f = faults && s.chance(1, 2);
            s.span(|s| gen_client(s, f, i))
        })
        .collect();
    ServerCase { mode, state: gen_state(s), clients, sched: gen_sched(s) }
}

fn run_handler(route: &str, mut req: Request, stream: Stream, state: State) -> UsedStream {
    let id = header(&req, "X-Client").unwrap_or("?").to_string();
    note(format!("start {}", id));
    if header(&req, "X-Do") == Some("panic") {
        panic!("handler panics as told");
    }
    let d = describe(route, &mut req, &state);
    note(format!("done {}", id));
    let status = 200 + (d.len() % 100) as u16;
    stream.respond(Response::build().status(status, "Served").header("X-Client", &id).header("Content-Length", d.len()).body(d).build()).unwrap_or_else(|_| UsedStream::empty())
}

fn is_post(r: &Request) -> bool {
    *r.method() == puck::request::Method::Post
}
fn any(_: &Request) -> bool {
    true
}
fn post_handler(req: Request, stream: Stream, state: State) -> UsedStream {
    run_handler("post", req, stream, state)
}
fn any_handler(req: Request, stream: Stream, state: State) -> UsedStream {
    run_handler("any", req, stream, state)
}

enum Act {
    FailAccept,
    Connect,
    Send(Vec<u8>),
    Eof,
    Reset,
    Take,
}

fn actions(c: &Client) -> VecDeque<Act> {
    let mut v = VecDeque::new();
    for _ in 0..c.failed_accepts {
        v.push_back(Act::FailAccept);
    }
    v.push_back(Act::Connect);
    let wire = c.req.wire();
    let head = c.req.head().len();
    let (bytes, end) = match &c.kind {
        Kind::Good | Kind::HandlerPanics => (wire, if !c.req.declared || c.half_close { Some(Act::Eof) } else { None }),
        Kind::StalledBody { sent } => (wire[..head + sent].to_vec(), None),
        Kind::Malformed { bytes } => (bytes.to_vec(), if c.half_close { Some(Act::Eof) } else { None }),
        Kind::Truncated { at } => (wire[..*at].to_vec(), Some(Act::Eof)),
        Kind::Stalled { at } => (wire[..*at].to_vec(), None),
        Kind::Reset { at } => (wire[..*at].to_vec(), Some(Act::Reset)),
        Kind::Leaves { reset } => (vec![], Some(if *reset { Act::Reset } else { Act::Eof })),
    };
    let mut at = 0;
    let mut k = 0;
    while at < bytes.len() {
        let n = if c.pieces.is_empty() { bytes.len() } else { c.pieces[k % c.pieces.len()].max(1) };
        // not too many pieces
        let n = n.max(bytes.len() / 40);
        let to = (at + n).min(bytes.len());
        v.push_back(Act::Send(bytes[at..to].to_vec()));
        at = to;
        k += 1;
    }
    if let Takes::Late = c.takes {
        v.push_back(Act::Take)
    }
    v.extend(end);
    v
}

fn check_server(c: &ServerCase) -> Verdict {
    let sim = Sim::new();
    let (mode, state) = (c.mode, c.state.clone());
    let root = sim.spawn_root(move || {
        let router = || Router::<State>::new().route(Route::new(is_post, post_handler)).route(Route::new(any, any_handler));
        match mode {
            Mode::ServeRouter => Core::bind("127.0.0.1:0", state).expect("bind").serve_router(router()),
            Mode::ForEach => Core::bind("127.0.0.1:0", state).expect("bind").for_each(any_handler),
            Mode::Run => router().run(lunatic::net::TcpListener::bind("127.0.0.1:0").expect("bind"), state),
        }
    });
    ensure!(sim.run(10_000, |_| 0) == RunEnd::Idle && sim.exit_of(root).is_none(), "the server does not start");
    let mut conns: HashMap<usize, usize> = HashMap::new();
    let queues = c.clients.iter().map(actions).collect();
    let end = drive(&sim, &c.sched, 3_000_000, queues, |sim, i, a| match a {
        Act::FailAccept => sim.fail_accept(0),
        Act::Connect => {
            let k = sim.connect(0);
            sim.read_limits(k, c.clients[i].req.cuts.clone());
            sim.write_limits(k, c.clients[i].write_limits.clone());
            sim.hold(k, c.clients[i].takes != Takes::AtOnce);
            conns.insert(i, k);
        }
        Act::Take => sim.hold(conns[&i], false),
        Act::Send(b) => sim.push(conns[&i], &b),
        Act::Eof => sim.eof(conns[&i]),
        Act::Reset => sim.reset(conns[&i]),
    });
    ensure!(end == RunEnd::Idle, "the server is busy for ever");
    ensure!(sim.exit_of(root).is_none() && sim.listener_live(0), "the server ended: {:?}", sim.exit_of(root));
    let notes = sim.notes();
    let mut counts: HashMap<&str, usize> = HashMap::new();
    notes.iter().for_each(|n| *counts.entry(n).or_default() += 1);
    let count = |w: &str, i: usize| counts.get(format!("{} {}", w, i).as_str()).copied().unwrap_or(0);
    let mut panics = sim.panics();
    let mut seen = Seen::new(c.clients.len() >= 2)
        .label(c.mode == Mode::ServeRouter, "serve_router")
        .label(c.mode == Mode::Run, "Router::run")
        .label(c.mode == Mode::ForEach, "for_each")
        .label(c.clients.len() > 5, "many clients")
        .label(c.clients.iter().any(|k| k.failed_accepts > 0), "failing accepts");
    for (i, k) in c.clients.iter().enumerate() {
        let conn = conns[&i];
        let out = sim.output(conn);
        let ran = count("start", i);
        let who = |m: String| format!("client {} ({}): {}", i, format!("{:?}", k.kind).split([' ', '{']).next().unwrap_or(""), m);
        let no_handler = || if ran == 0 { Ok(()) } else { Err(who(format!("a handler ran {} time(s)", ran))) };
        let full = || -> Result<(), String> {
            let route = if c.mode != Mode::ForEach && k.req.method == "POST" { "post" } else { "any" };
            let d = expected_description(route, &k.req, &c.state);
            let want = [("Content-Length".to_string(), d.len().to_string().into_bytes()), ("X-Client".to_string(), i.to_string().into_bytes())];
            check_response_bytes(&out, 200 + (d.len() % 100) as u16, "Served", &want, d.as_bytes()).map_err(&who)
        };
        if k.takes == Takes::Never && !matches!(k.kind, Kind::Reset { .. } | Kind::HandlerPanics | Kind::Leaves { reset: true }) {
            ensure!(out.is_empty(), "harness: a client that takes nothing has received something");
            let want = matches!(k.kind, Kind::Good | Kind::StalledBody { .. }) as usize;
            let read = matches!(k.kind, Kind::Good) as usize;
            ensure!(ran == want && count("done", i) == read, "{}", who(format!("takes nothing; its handler ran {} time(s), finished {}", ran, count("done", i))));
            seen = seen.label(true, "client takes nothing");
            continue;
        }
        seen = seen.label(k.takes == Takes::Late, "client takes its response late");
        match &k.kind {
            Kind::Good => {
                ensure!(ran == 1 && count("done", i) == 1, "{}", who(format!("its handler ran {} time(s), finished {}", ran, count("done", i))));
                full()?;
                ensure!(sim.server_closed(conn), "{}", who("the connection is not released after the response".into()));
            }
            Kind::StalledBody { .. } => {
                ensure!(ran == 1 && count("done", i) == 0, "{}", who(format!("its handler ran {} time(s), finished {}", ran, count("done", i))));
                ensure!(out.is_empty(), "{}", who(format!("received {}", show(&out))));
                ensure!(!sim.server_closed(conn), "{}", who("dropped while it is still sending".into()));
                seen = seen.label(true, "body stalled");
            }
            Kind::HandlerPanics => {
                ensure!(ran == 1, "{}", who(format!("its handler ran {} time(s)", ran)));
                ensure!(out.is_empty(), "{}", who(format!("received {}", show(&out))));
                let at = panics.iter().position(|(_, m)| m.starts_with("handler panics as told"));
                ensure!(at.is_some(), "{}", who("its panic vanished".into()));
                panics.remove(at.unwrap());
                seen = seen.label(true, "handler panics");
            }
            Kind::Malformed { .. } | Kind::Truncated { .. } | Kind::Leaves { reset: false } => {
                no_handler()?;
                check_400(&out).map_err(&who)?;
                ensure!(sim.server_closed(conn), "{}", who("the connection is not released after the 400".into()));
                seen = seen.label(matches!(k.kind, Kind::Malformed { .. }), "malformed").label(matches!(k.kind, Kind::Truncated { .. }), "truncated");
            }
            Kind::Stalled { .. } => {
                no_handler()?;
                ensure!(out.is_empty(), "{}", who(format!("received {}", show(&out))));
                seen = seen.label(true, "head stalled");
            }
            Kind::Reset { at } => {
                let head = k.req.head().len();
                if *at < head {
                    no_handler()?;
                    ensure!(out.is_empty() || check_400(&out).is_ok(), "{}", who(format!("received {}", show(&out))));
                } else {
                    ensure!(ran <= 1, "{}", who(format!("its handler ran {} times", ran)));
                }
                ensure!(sim.server_closed(conn), "{}", who("the connection is not released".into()));
                seen = seen.label(true, "reset").label(*at >= head, "reset after the head");
            }
            Kind::Leaves { reset: true } => {
                no_handler()?;
                ensure!(out.is_empty() || check_400(&out).is_ok(), "{}", who(format!("received {}", show(&out))));
            }
        }
    }
    let unknown = notes.iter().filter(|n| n.starts_with("start ")).count();
    let known: usize = (0..c.clients.len()).map(|i| count("start", i)).sum();
    ensure!(unknown == known, "a handler ran for a request nobody sent: {:?}", notes);
    if let Some((_, m)) = panics.first() {
        return Err(format!("a connection's process panics: {}", m));
    }
    Ok(seen)
}

/// Many small clients: the crowd is expanded to a case of clients.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    mode: Mode,
    clients: usize,
    /// accepts fail this often in a row before the last client connects, and before every tenth
    failed: (usize, usize),
    /// parts out of 16 of the clients that are faulty
    faulty: u64,
    /// parts out of 16 of the clients that never send their whole body
    stalled: u64,
    salt: u64,
    sched: Sched,
}

fn gen_crowd(s: &mut Src, faults: bool) -> Crowd {
    let clients = match s.weighted(&[3, 3, 1]) {
        0 => s.range(10, 80),
        1 => s.range(80, 400),
        _ => s.range(400, 1300),
    };
    Crowd {
        mode: *s.pick(&[Mode::ServeRouter, Mode::Run, Mode::ForEach]),
        clients,
        failed: (if s.bool() { s.range(0, 300) } else { 0 }, if s.chance(1, 4) { s.range(0, 12) } else { 0 }),
        faulty: if faults { *s.pick(&[1, 8, 15, 16]) } else { 0 },
        stalled: *s.pick(&[0, 0, 1, 8]),
        salt: s.below(1 << 20),
        sched: gen_sched(s),
    }
}

fn crowd(c: &Crowd) -> ServerCase {
    let mut rng = kit::Rng::new(c.salt);
    let clients = (0..c.clients)
        .map(|i| {
            let last = i + 1 == c.clients;
            let mut req = small_req(i);
            if i % 3 == 0 {
                req.method = "GET".into();
            }
            let head = req.head().len();
            let mut kind = Kind::Good;
            if !last && rng.below(16) < c.stalled {
                kind = Kind::StalledBody { sent: i % 3 };
            }
            if !last && rng.below(16) < c.faulty {
                kind = match rng.below(6) {
                    0 => Kind::HandlerPanics,
                    1 => Kind::Malformed { bytes: b"GET / HTTP/1.1\r\n\r\n"[..].into() },
                    2 => Kind::Truncated { at: rng.below(head as u64) as usize },
                    3 => Kind::Stalled { at: rng.below(head as u64) as usize },
                    4 => Kind::Reset { at: rng.below(head as u64) as usize },
                    _ => Kind::Leaves { reset: rng.below(2) == 0 },
                };
            }
            if let Kind::HandlerPanics = kind {
                req.headers.push(Line { name: "X-Do".into(), value: "panic".into(), before: " ".into(), after: String::new() });
            }
            let failed_accepts = if last { c.failed.0 } else if i % 10 == 9 { c.failed.1 } else { 0 };
            Client { kind, req, pieces: if rng.below(2) == 0 { vec![] } else { vec![50] }, write_limits: vec![], failed_accepts, half_close: rng.below(3) == 0, takes: if last { Takes::AtOnce } else { [Takes::Late, Takes::Never, Takes::AtOnce][rng.below(12).min(2) as usize] } }
        })
        .collect();
    ServerCase { mode: c.mode, state: State { name: "s".into(), numbers: vec![c.salt], nested: None }, clients, sched: c.sched.clone() }
}

fn check_crowd(c: &Crowd) -> Verdict {
    check_server(&crowd(c))?;
    Ok(Seen::new(true)
        .label(c.clients > 64, "more than 64 clients")
        .label(c.clients > 256, "more than 256 clients")
        .label(c.clients > 1000, "more than 1000 clients")
        .label(c.failed.0 > 16, "more than 16 accepts fail in a row")
        .label(c.stalled == 8, "every second client stalls"))
}

/// Exactly one 400 response and nothing else.
fn check_400(out: &[u8]) -> Result<(), String> {
    ensure!(!out.is_empty(), "received nothing instead of a 400");
    let end = find(out, b"\r\n\r\n").ok_or_else(|| format!("received {}", show(out)))? + 4;
    match read_head(&out[..end], false) {
        Reading::Valid { first, .. } if first[1] == "400" => {}
        _ => return Err(format!("received {} instead of a 400", show(out))),
    }
    ensure!(find(&out[end..], b"HTTP/1.").is_none(), "received more than a 400: {}", show(out));
    let mut want = vec![];
    puck::err_400().take_body().read_to_end(&mut want).map_err(|e| e.to_string())?;
    ensure!(out[end..] == want[..], "the body of the 400 is {}", show(&out[end..]));
    Ok(())
}

fn small_req(i: usize) -> Req {
    let line = |n: &str, val: &str| Line { name: n.into(), value: val.into(), before: " ".into(), after: String::new() };
    Req {
        method: "POST".into(),
        target: Target::Origin,
        path: "/p".into(),
        query: None,
        host: "h".into(),
        port: None,
        headers: vec![line("Host", "h"), line("X-Client", &i.to_string()), line("Content-Length", "3")],
        minor: 1,
        declared: true,
        body: b"xyz"[..].into(),
        after: Bytes::default(),
        missing: 0,
        cuts: vec![],
        read_sizes: vec![7],
    }
}

fn fixed_c11() -> Vec<ServerCase> {
    // every cut of a small request, ended, reset and stalled, next to a good client, in every server
    let mut v = vec![];
    let req = small_req;
    let good = |i| Client { kind: Kind::Good, req: req(i), pieces: vec![20], write_limits: vec![], failed_accepts: 0, half_close: false, takes: Takes::AtOnce };
    let n = req(0).wire().len();
    let head = req(0).head().len();
    for mode in [Mode::ServeRouter, Mode::Run, Mode::ForEach] {
        for at in 0..=n {
            let mut kinds = vec![Kind::Reset { at }];
            if at < head {
                kinds.push(Kind::Truncated { at });
                kinds.push(Kind::Stalled { at });
            } else if at < n {
                kinds.push(Kind::StalledBody { sent: at - head });
            }
            for kind in kinds {
                let bad = Client { kind, req: req(0), pieces: vec![], write_limits: vec![], failed_accepts: 0, half_close: false, takes: Takes::AtOnce };
                v.push(ServerCase { mode, state: State { name: "s".into(), numbers: vec![], nested: None }, clients: vec![bad, good(1)], sched: Sched { prefix: vec![], tail: at as u64, stay: 2 } });
            }
        }
        for m in [&b"\r\n\r\n"[..], b"x\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost:\r\n\r\n", b"GET / HTTP/9\r\nHost: h\r\n\r\n", b"GET / HTTP/1.1\r\nHost: h\r\nA: \xff\r\n\r\n"] {
            let bad = Client { kind: Kind::Malformed { bytes: m.into() }, req: req(0), pieces: vec![], write_limits: vec![], failed_accepts: 0, half_close: false, takes: Takes::AtOnce };
            v.push(ServerCase { mode, state: State { name: "s".into(), numbers: vec![], nested: None }, clients: vec![bad, good(1)], sched: Sched { prefix: vec![], tail: 5, stay: 2 } });
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &[
        "the lunatic VM is replaced by a deterministic simulation of its host calls; any other process may run between two host calls",
        "up to 16 clients, up to 1300 in the crowds; handlers read the whole body and respond once",
        "what a client that resets after its whole head receives is not decided",
    ];
    vec![
        Prop { id: "C10", assumptions: A, parts: vec![Part::new("clients", "at least two clients", 15_000, 500_000, |s| gen_server(s, false), Vec::new, check_server), Part::new("crowds", "always: 10 to 1300 clients", 500, 15_000, |s| gen_crowd(s, false), Vec::new, check_crowd)] },
        Prop { id: "C11", assumptions: A, parts: vec![Part::new("faults", "at least two clients", 15_000, 500_000, |s| gen_server(s, true), fixed_c11, check_server), Part::new("crowds", "always: 10 to 1300 clients", 500, 15_000, |s| gen_crowd(s, true), Vec::new, check_crowd)] },
    ]
}
