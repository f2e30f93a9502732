//! C12, W07: whole exchanges between clients and servers.
use crate::gen::*;
use crate::io::*;
use crate::request::*;
use crate::response::{check_response_bytes, gen_resp, Make, Resp};
use crate::router::header;
use crate::sched::*;
use crate::server::Mode;
use crate::ws::*;
use kit::{ensure, ensure_eq, Bytes, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{note, RunEnd, Sim};
use lunatic::{Mailbox, Process};
use puck::body::Body;
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::ws::message::Message;
use puck::ws::websocket::NextMessageError;
use puck::{Request, Response};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::Read;

fn any(_: &Request) -> bool {
    true
}

fn serve<S: Clone + Serialize + DeserializeOwned + 'static>(mode: Mode, state: S, f: fn(Request, Stream, S) -> UsedStream) {
    let router = || Router::<S>::new().route(Route::new(any, f));
    match mode {
        Mode::ServeRouter => Core::bind("127.0.0.1:0", state).expect("bind").serve_router(router()),
        Mode::ForEach => Core::bind("127.0.0.1:0", state).expect("bind").for_each(f),
        Mode::Run => router().run(lunatic::net::TcpListener::bind("127.0.0.1:0").expect("bind"), state),
    }
}

fn gen_mode(s: &mut Src) -> Mode {
    *s.pick(&[Mode::ServeRouter, Mode::Run, Mode::ForEach])
}

/// Cut bytes into not too many pieces.
fn cut(bytes: &[u8], pieces: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let (mut at, mut k) = (0, 0);
    while at < bytes.len() {
        let n = if pieces.is_empty() { bytes.len() } else { pieces[k % pieces.len()].max(1) };
        let to = (at + n.max(bytes.len() / 40)).min(bytes.len());
        v.push(bytes[at..to].to_vec());
        at = to;
        k += 1;
    }
    v
}

// ---------------------------------------------------------------- C12

/// What the handler does with the request's body before it responds.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    ReadAll,
    ReadSome(usize),
    Ignore,
    /// the body of the request becomes the body of the response
    Echo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    how: How,
    resp: Resp,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exchange {
    req: Req,
    /// the client's body is a stream, else text where it is text
    streamed: bool,
    plan: Plan,
    pieces: Vec<usize>,
    client_limits: Vec<usize>,
    server_limits: Vec<usize>,
    half_close: bool,
    /// the client takes nothing before it has sent everything
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    late: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExchangeCase {
    mode: Mode,
    exchanges: Vec<Exchange>,
    sched: Sched,
}

fn limits(s: &mut Src) -> Vec<usize> {
    if s.bool() {
        vec![]
    } else {
        s.vec(1, 4, |s| s.range(1, 80))
    }
}

fn gen_exchange(s: &mut Src, i: usize) -> Exchange {
    let mut req = gen_req(s);
    req.target = Target::Origin;
    if req.method == "CONNECT" {
        req.method = "GET".into();
    }
    req.missing = 0;
    req.after = Bytes::default();
    let host = host_port(&req.host, req.port);
    req.headers.retain(|l| !["x-client", "host", "content-length"].contains(&l.name.to_ascii_lowercase().as_str()));
    req.headers.truncate(17);
    req.headers.push(Large::line("Host", host));
    req.headers.push(Large::line("X-Client", i.to_string()));
    if req.declared {
        req.headers.push(Large::line("Content-Length", req.body.len().to_string()));
    }
    let mut resp = gen_resp(s);
    resp.source_reset = false;
    resp.fail_after = None;
    resp.headers.truncate(19);
    let n = req.body.len() as u64;
    let how = match s.weighted(&[3, 2, 2, 4]) {
        0 => How::ReadAll,
        1 => How::ReadSome(s.below(n + 1) as usize),
        2 => How::Ignore,
        _ => How::Echo,
    };
    let half_close = !req.declared || s.chance(1, 3);
    Exchange { req, streamed: s.bool(), plan: Plan { how, resp }, pieces: if s.chance(1, 3) { vec![] } else { s.vec(1, 4, |s| s.range(1, 300)) }, client_limits: limits(s), server_limits: limits(s), half_close, late: s.chance(1, 6) }
}

fn gen_c12(s: &mut Src) -> ExchangeCase {
    let n = if s.chance(1, 8) { s.range(5, 10) } else { s.range(1, 4) };
    ExchangeCase { mode: gen_mode(s), exchanges: (0..n).map(|i| s.span(|s| gen_exchange(s, i))).collect(), sched: gen_sched(s) }
}

fn head_text(method: &str, url: &str, mut headers: Vec<String>) -> String {
    headers.sort();
    format!("{} {} {}", method, url, headers.join("\u{1}"))
}

fn exchange_handler(mut req: Request, stream: Stream, plans: Vec<String>) -> UsedStream {
    let id: usize = header(&req, "X-Client").and_then(|v| v.parse().ok()).unwrap_or(usize::MAX);
    note(format!("{} head {}", id, head_text(&format!("{:?}", req.method()), req.url().as_str(), req.headers().iter().map(|(k, v)| format!("{}={}", k, v)).collect())));
    if id == usize::MAX || plans.is_empty() {
        return UsedStream::empty();
    }
    let plan = &plans[id % plans.len()];
    let plan: Plan = serde_json::from_str(plan).expect("a plan");
    let (body, length) = match plan.how {
        How::Echo => {
            let n = header(&req, "Content-Length").and_then(|v| v.parse().ok());
            (Some(req.take_body()), n.unwrap_or(0))
        }
        _ => (None, plan.resp.content().len()),
    };
    let mut got = vec![];
    let r = match plan.how {
        How::ReadAll => req.take_body().read_to_end(&mut got).map(|_| ()),
        How::ReadSome(n) => {
            got = vec![0; n];
            req.take_body().read_exact(&mut got)
        }
        _ => Ok(()),
    };
    note(format!("{} body {:?} {}", id, r.map_err(|e| e.kind()), if got.len() < 5000 { format!("{:?}", Bytes(got)) } else { format!("{} bytes, {}", got.len(), sum(&got)) }));
    let resp = match body {
        Some(b) => {
            let mut p = plan.resp.clone();
            // the length of a body that nobody declared is not known here
            p.length_header &= header(&req, "Content-Length").is_some();
            p.builder(length).body(b).build()
        }
        None => plan.resp.build(),
    };
    let ok = stream.respond(resp);
    note(format!("{} sent {}", id, ok.is_ok()));
    ok.unwrap_or_else(|_| UsedStream::empty())
}

fn sum(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

enum Act {
    Connect,
    Send(Vec<u8>),
    Eof,
    Reset,
    /// nothing before the handshake has been answered
    Answered,
    /// from now on the client takes nothing, or everything
    Hold(bool),
}

fn client_request(x: &Exchange) -> Request {
    let q = &x.req;
    let mut b = Request::build(format!("http://{}{}", host_port(&q.host, q.port), q.pq())).method(method_of(&q.method));
    for l in &q.headers {
        b = b.header(l.name.clone(), l.value.clone());
    }
    let text = if x.streamed { None } else { String::from_utf8(q.body.to_vec()).ok() };
    b.body(match text {
        Some(t) => Body::from_string(t),
        None => Body::from_reader(BufFeed::new(Feed::new(&q.body, &q.cuts, End::Eof)), if q.declared || !x.streamed { Some(q.body.len()) } else { None }),
    })
    .build()
}

fn check_c12(c: &ExchangeCase) -> Verdict {
    check_exchanges(c, c.exchanges.len())
}

/// The notes of each client, by the number they start with.
fn notes_by_client(notes: &[String]) -> HashMap<usize, Vec<&str>> {
    let mut m: HashMap<usize, Vec<&str>> = HashMap::new();
    for n in notes {
        if let Some((id, rest)) = n.split_once(' ') {
            m.entry(id.parse().unwrap_or(usize::MAX)).or_default().push(rest);
        }
    }
    m
}

/// The plans of the exchanges repeat after so many.
fn check_exchanges(c: &ExchangeCase, period: usize) -> Verdict {
    let sim = Sim::new();
    let mode = c.mode;
    let plans: Vec<String> = c.exchanges.iter().take(period).map(|x| serde_json::to_string(&x.plan).expect("JSON")).collect();
    let root = sim.spawn_root(move || serve(mode, plans, exchange_handler));
    ensure!(sim.run(10_000, |_| 0) == RunEnd::Idle && sim.exit_of(root).is_none(), "the server does not start");
    let mut queues = vec![];
    for (i, x) in c.exchanges.iter().enumerate() {
        let mut sink = Sink::new(&x.client_limits, None);
        client_request(x).write(&mut sink).map_err(|e| format!("client {}: writing its request failed: {}", i, e))?;
        let mut q: VecDeque<Act> = [Act::Connect].into();
        q.extend(cut(&sink.data, &x.pieces).into_iter().map(Act::Send));
        if x.late {
            q.insert(1, Act::Hold(true));
            q.push_back(Act::Hold(false));
        }
        if x.half_close {
            q.push_back(Act::Eof)
        }
        queues.push(q);
    }
    let mut conns: HashMap<usize, usize> = HashMap::new();
    let end = drive(&sim, &c.sched, 5_000_000, queues, |sim, i, a| match a {
        Act::Connect => {
            let k = sim.connect(0);
            sim.read_limits(k, c.exchanges[i].req.cuts.clone());
            sim.write_limits(k, c.exchanges[i].server_limits.clone());
            conns.insert(i, k);
        }
        Act::Send(b) => sim.push(conns[&i], &b),
        Act::Eof => sim.eof(conns[&i]),
        Act::Hold(h) => sim.hold(conns[&i], h),
        Act::Reset | Act::Answered => {}
    });
    ensure!(end == RunEnd::Idle, "the server is busy for ever");
    ensure!(sim.exit_of(root).is_none(), "the server ended");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("panic: {}", m));
    }
    let notes = sim.notes();
    ensure_eq!(notes.len(), 3 * c.exchanges.len(), "what the handlers noted");
    let mut by_client = notes_by_client(&notes);
    for (i, x) in c.exchanges.iter().enumerate() {
        let who = |m: String| format!("exchange {}: {}", i, m);
        let mine = by_client.remove(&i).unwrap_or_default();
        let q = &x.req;
        let url = format!("http://{}{}", host_port(&q.host, q.port), q.pq());
        let head = head_text(&format!("{:?}", method_of(&q.method)), &url, q.headers.iter().map(|l| format!("{}={}", l.name, l.value)).collect());
        let seen = match x.plan.how {
            How::ReadAll => &q.body[..],
            How::ReadSome(n) => &q.body[..n],
            _ => &[],
        };
        let body = if seen.len() < 5000 { format!("{:?}", Bytes(seen.to_vec())) } else { format!("{} bytes, {}", seen.len(), sum(seen)) };
        ensure_eq!(mine, vec![format!("head {}", head), format!("body Ok(()) {}", body), "sent true".to_string()], who("what its handler saw".into()));
        let wire = sim.output(conns[&i]);
        ensure!(sim.server_closed(conns[&i]), "{}", who("the connection is not released".into()));
        let r = &x.plan.resp;
        let echo = x.plan.how == How::Echo;
        let content = if echo { &q.body[..] } else { r.content() };
        let mut headers: Vec<(String, Vec<u8>)> = r.headers.iter().map(|l| (l.name.clone(), l.value.clone().into_bytes())).collect();
        if r.length_header && (!echo || q.declared) {
            headers.push(("Content-Length".into(), content.len().to_string().into_bytes()));
        }
        headers.sort();
        check_response_bytes(&wire, r.status, &r.reason, &headers, content).map_err(&who)?;
        let mut got = match Response::parse(Feed::new(&wire, &q.cuts, End::Eof)) {
            Ok(Some(r)) => r,
            o => return Err(who(format!("the client cannot parse the response: {:?}", o))),
        };
        ensure_eq!((*got.status(), got.reason().to_string()), (r.status, r.reason.clone()), who("status the client reads".into()));
        let h: BTreeMap<_, _> = got.headers().iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
        ensure_eq!(h, headers.into_iter().collect::<BTreeMap<_, _>>(), who("headers the client reads".into()));
        let b = got.take_body().into_bytes().map_err(|e| who(e.to_string()))?;
        ensure!(b == content, "{}", who(format!("the client reads the body {}, expected {}", show(&b), show(content))));
    }
    Ok(Seen::new(c.exchanges.len() >= 2 || !c.exchanges[0].req.body.is_empty())
        .label(c.mode == Mode::ServeRouter, "serve_router")
        .label(c.mode == Mode::Run, "Router::run")
        .label(c.mode == Mode::ForEach, "for_each")
        .label(c.exchanges.iter().any(|x| x.plan.how == How::Echo && !x.req.body.is_empty()), "echoed body")
        .label(c.exchanges.iter().any(|x| matches!(x.plan.how, How::ReadSome(n) if n < x.req.body.len())), "body partly read")
        .label(c.exchanges.iter().any(|x| x.late), "response taken late")
        .label(c.exchanges.iter().any(|x| !x.req.declared), "no length")
        .label(c.exchanges.iter().any(|x| x.req.body.len() > 10_000), "body larger than the read buffer")
        .label(c.exchanges.iter().any(|x| x.req.method == "HEAD"), "HEAD"))
}

fn check_c12_large(c: &Large) -> Verdict {
    let mode = match c.salt % 3 {
        0 => Mode::ServeRouter,
        1 => Mode::Run,
        _ => Mode::ForEach,
    };
    let exchange = |i: usize, body: Vec<u8>, how: How, data: Vec<u8>| {
        let mut headers = vec![Large::line("Host", "h.test".into()), Large::line("X-Client", i.to_string())];
        if c.declared {
            headers.push(Large::line("Content-Length", body.len().to_string()));
        }
        let n = data.len();
        Exchange {
            req: Req {
                method: "PUT".into(),
                target: Target::Origin,
                path: "/big".into(),
                query: None,
                host: "h.test".into(),
                port: None,
                headers,
                minor: 1,
                declared: c.declared,
                body: body.into(),
                after: Bytes::default(),
                missing: 0,
                cuts: c.cuts(),
                read_sizes: vec![c.read],
            },
            streamed: !c.text,
            plan: Plan {
                how,
                resp: Resp {
                    status: 200,
                    reason: "OK".into(),
                    headers: vec![Large::line("Content-Type", "text/plain".into())],
                    data: data.into(),
                    make: if c.text { Make::Text } else { Make::Reader { declared: Some(n) } },
                    cuts: c.cuts(),
                    source_reset: false,
                    limits: vec![],
                    fail_after: None,
                    fails_with_zero: false,
                    length_header: c.declared,
                },
            },
            pieces: vec![],
            client_limits: vec![],
            server_limits: c.cuts(),
            half_close: !c.declared,
            late: c.salt % 5 == 0,
        }
    };
    let big = c.bytes(c.n);
    let case = ExchangeCase {
        mode,
        exchanges: vec![
            exchange(0, big.clone(), How::Echo, vec![]),
            exchange(1, b"small".to_vec(), How::ReadAll, big[..c.n / 2].to_vec()),
            exchange(2, big, if c.after % 2 == 0 { How::ReadAll } else { How::Ignore }, b"ok".to_vec()),
        ],
        sched: Sched { prefix: vec![], tail: c.salt as u64, stay: c.salt % 8 },
    };
    check_c12(&case).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(c.declared, "declared length"))
}

/// Many small exchanges at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExchangeCrowd {
    mode: Mode,
    clients: usize,
    salt: u64,
    sched: Sched,
}

fn gen_count(s: &mut Src) -> usize {
    match s.weighted(&[3, 3, 1]) {
        0 => s.range(10, 80),
        1 => s.range(80, 400),
        _ => s.range(400, 1100),
    }
}

fn check_exchange_crowd(c: &ExchangeCrowd) -> Verdict {
    const PERIOD: usize = 5;
    let mut rng = kit::Rng::new(c.salt);
    let declared = rng.below(4) != 0;
    let plan = |k: usize| Plan {
        how: [How::ReadAll, How::Echo, How::Ignore, How::ReadSome(2), How::Echo][k].clone(),
        resp: Resp {
            status: 200 + k as u16,
            reason: "OK".into(),
            headers: vec![],
            data: vec![b'r'; k].into(),
            make: Make::Text,
            cuts: vec![],
            source_reset: false,
            limits: vec![],
            fail_after: None,
            fails_with_zero: false,
            length_header: true,
        },
    };
    let exchanges = (0..c.clients)
        .map(|i| {
            let body = format!("body of {}", i).into_bytes();
            let mut headers = vec![Large::line("Host", "h.test".into()), Large::line("X-Client", i.to_string())];
            if declared {
                headers.push(Large::line("Content-Length", body.len().to_string()));
            }
            Exchange {
                req: Req {
                    method: if i % 2 == 0 { "POST" } else { "GET" }.into(),
                    target: Target::Origin,
                    path: format!("/{}", i),
                    query: None,
                    host: "h.test".into(),
                    port: None,
                    headers,
                    minor: 1,
                    declared,
                    body: body.into(),
                    after: Bytes::default(),
                    missing: 0,
                    cuts: vec![],
                    read_sizes: vec![100],
                },
                streamed: rng.below(2) == 0,
                plan: plan(i % PERIOD),
                pieces: if rng.below(2) == 0 { vec![] } else { vec![50] },
                client_limits: vec![],
                server_limits: vec![],
                half_close: !declared || rng.below(2) == 0,
                late: rng.below(4) == 0,
            }
        })
        .collect();
    check_exchanges(&ExchangeCase { mode: c.mode, exchanges, sched: c.sched.clone() }, PERIOD)?;
    Ok(Seen::new(true).label(c.clients > 256, "more than 256 clients").label(c.clients > 1000, "more than 1000 clients"))
}

// ---------------------------------------------------------------- W07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ending {
    /// the session stays open
    Stay,
    /// the session stays open, but the client takes nothing of what it is sent
    Deaf,
    /// a close frame (or a message with one inside)
    Close(In),
    Eof,
    /// a message of which bytes at the end are missing, then the end of the stream
    Cut { payload: Bytes, missing: usize },
    Reset,
    Bad(Bad),
    /// a text at which the handler panics
    Panic,
    /// a text at which the handler closes the session
    Leave,
    /// the handshake lacks its key
    Refused,
    /// the connection is reset inside the handshake's head
    ResetInside { at: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WsClient {
    script: Vec<In>,
    ending: Ending,
    /// sent by another process of the session through a copy
    pushes: Vec<Bytes>,
    masks: Vec<[u8; 4]>,
    cuts: Vec<usize>,
    pieces: Vec<usize>,
    limits: Vec<usize>,
    /// after so many steps in the session the client takes nothing, for so many steps
    #[serde(default, skip_serializing_if = "Option::is_none")]
    hold: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessionsCase {
    mode: Mode,
    clients: Vec<WsClient>,
    sched: Sched,
}

fn gen_ws_client(s: &mut Src) -> WsClient {
    let script = s.vec(0, 6, |s| match s.weighted(&[6, 2, 1]) {
        0 => {
            let n = if s.chance(1, 12) { *s.pick(&[125usize, 126, 300, 65536]) } else { s.range(0, 30) };
            let text = s.bool();
            let payload: Bytes = if text { gen_text(s, n).into_bytes().into() } else { s.blob(n).into() };
            In::Data { text, payload, cuts: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.below(n as u64 + 1) as usize) } }
        }
        1 => In::Ping(small(s)),
        _ => In::Pong(small(s)),
    });
    let ending = match s.weighted(&[3, 4, 2, 2, 3, 3, 2, 2, 1, 1, 1]) {
        0 => Ending::Stay,
        1 => Ending::Close(gen_close(s)),
        2 => Ending::Eof,
        3 => Ending::Cut { payload: small(s), missing: s.range(1, 20) },
        4 => Ending::Reset,
        5 => Ending::Bad(gen_bad(s)),
        6 => Ending::Panic,
        7 => Ending::Leave,
        8 => Ending::Refused,
        10 => Ending::Deaf,
        _ => Ending::ResetInside { at: s.below(60) as usize },
    };
    let pushes: Vec<Bytes> = if s.bool() { vec![] } else { s.vec(1, 4, small) };
    // a frame reaches the stream in one write where several processes send
    let limits = if pushes.is_empty() { limits(s) } else { vec![] };
    WsClient {
        script,
        ending,
        pushes,
        masks: s.vec(1, 3, gen_mask),
        cuts: gen_cuts(s),
        pieces: if s.chance(1, 3) { vec![] } else { s.vec(1, 4, |s| s.range(1, 60)) },
        limits,
        hold: if s.chance(1, 5) { Some((s.range(0, 6), s.range(1, 10))) } else { None },
    }
}

fn gen_w07(s: &mut Src) -> SessionsCase {
    let n = if s.chance(1, 8) { s.range(5, 10) } else { s.range(1, 4) };
    SessionsCase { mode: gen_mode(s), clients: (0..n).map(|_| s.span(gen_ws_client)).collect(), sched: gen_sched(s) }
}

fn echo_of(id: usize, n: usize, text: bool, payload: &[u8]) -> (u8, Vec<u8>) {
    (2 - text as u8, [format!("echo {} {} ", id, n).as_bytes(), payload].concat())
}
fn push_of(id: usize, n: usize, payload: &[u8]) -> Vec<u8> {
    [format!("push {} {} ", id, n).as_bytes(), payload].concat()
}

fn session_handler(req: Request, stream: Stream, pushes: Vec<Vec<Bytes>>) -> UsedStream {
    let id: usize = header(&req, "X-Client").and_then(|v| v.parse().ok()).unwrap_or(usize::MAX);
    let mut ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(u) => {
            note(format!("{} refused", id));
            return u;
        }
    };
    note(format!("{} open", id));
    let mine = pushes.get(id).cloned().unwrap_or_default();
    if !mine.is_empty() {
        let _ = Process::spawn((ws.make_copy(), id, mine), |(ws, id, pushes), _: Mailbox<()>| {
            for (n, p) in pushes.iter().enumerate() {
                if ws.send(Message::Binary(push_of(id, n, p))).is_err() {
                    note(format!("{} push failed", id));
                    return;
                }
            }
        });
    }
    let mut n = 0;
    loop {
        let (text, payload) = match ws.next() {
            Some(Ok(Message::Text(t))) if t == "!panic" => panic!("handler panics as told"),
            Some(Ok(Message::Text(t))) if t == "!leave" => break,
            Some(Ok(Message::Text(t))) => (true, t.into_bytes()),
            Some(Ok(Message::Binary(b))) => (false, b),
            Some(Ok(Message::Ping(_) | Message::Pong(_))) => continue,
            Some(Err(NextMessageError::ConnectionClosed)) => break,
            Some(Err(NextMessageError::ClientError)) => {
                note(format!("{} client error", id));
                break;
            }
            None => {
                note(format!("{} none", id));
                break;
            }
        };
        let (_, echo) = echo_of(id, n, text, &payload);
        n += 1;
        let sent = ws.send(if text { Message::Text(String::from_utf8(echo).expect("text")) } else { Message::Binary(echo) });
        if sent.is_err() {
            note(format!("{} send failed", id));
            return UsedStream::empty();
        }
    }
    note(format!("{} end", id));
    ws.close().unwrap_or_else(|_| UsedStream::empty())
}

fn key_of(i: usize) -> String {
    base64(format!("the key of {:05}", i).as_bytes())
}

fn handshake(i: usize, key: bool) -> Vec<u8> {
    let k = if key { format!("Sec-WebSocket-Key: {}\r\n", key_of(i)) } else { String::new() };
    format!("GET /ws HTTP/1.1\r\nHost: h.test\r\nX-Client: {}\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n{}Sec-WebSocket-Version: 13\r\n\r\n", i, k).into_bytes()
}

fn ws_actions(i: usize, c: &WsClient) -> VecDeque<Act> {
    let mut q: VecDeque<Act> = [Act::Connect].into();
    let hello = handshake(i, !matches!(c.ending, Ending::Refused));
    if let Ending::ResetInside { at } = c.ending {
        q.extend(cut(&hello[..at], &c.pieces).into_iter().map(Act::Send));
        q.push_back(Act::Reset);
        return q;
    }
    q.extend(cut(&hello, &c.pieces).into_iter().map(Act::Send));
    if let Ending::Refused = c.ending {
        return q;
    }
    q.push_back(Act::Answered);
    let begin = q.len();
    let mut wire = vec![];
    let mut mask = masker(&c.masks);
    let mut put = |m: &In, wire: &mut Vec<u8>| m.frames(&mut mask).iter().for_each(|f| f.wire(wire));
    for m in &c.script {
        put(m, &mut wire)
    }
    let text = |t: &str| In::Data { text: true, payload: t.as_bytes().into(), cuts: vec![] };
    match &c.ending {
        Ending::Close(m) => put(m, &mut wire),
        Ending::Cut { payload, missing } => {
            let from = wire.len();
            put(&In::Data { text: false, payload: payload.clone(), cuts: vec![1] }, &mut wire);
            let n = wire.len() - (missing % (wire.len() - from)).max(1);
            wire.truncate(n);
        }
        Ending::Bad(b) => put(&In::Bad(b.clone()), &mut wire),
        Ending::Panic => put(&text("!panic"), &mut wire),
        Ending::Leave => put(&text("!leave"), &mut wire),
        _ => {}
    }
    q.extend(cut(&wire, &c.pieces).into_iter().map(Act::Send));
    match c.ending {
        Ending::Eof | Ending::Cut { .. } => q.push_back(Act::Eof),
        Ending::Reset => q.push_back(Act::Reset),
        Ending::Deaf => q.insert(begin, Act::Hold(true)),
        _ => {}
    }
    if let (Some((from, n)), false) = (c.hold, matches!(c.ending, Ending::Deaf)) {
        let from = begin + from % (q.len() - begin + 1);
        q.insert((from + n).min(q.len()), Act::Hold(false));
        q.insert(from, Act::Hold(true));
    }
    q
}

/// Everything that can be said about what one client received.
fn check_session(i: usize, c: &WsClient, out: &[u8], notes: &[&str], closed: bool) -> Result<(), String> {
    if let Ending::Refused = c.ending {
        ensure_eq!(notes, ["refused"], "the handshake");
        return one_400(out);
    }
    if let Ending::ResetInside { .. } = c.ending {
        ensure!(notes.is_empty(), "a handler ran: {:?}", notes);
        ensure!(closed, "the connection is not released");
        return if out.is_empty() { Ok(()) } else { one_400(out) };
    }
    ensure!(notes.first() == Some(&"open"), "the session was not opened: {:?}", notes);
    let end = find(out, b"\r\n\r\n").ok_or_else(|| format!("received {}", show(out)))? + 4;
    check_101(&out[..end], &base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key_of(i)).as_bytes())))?;
    if let Ending::Deaf = c.ending {
        // the other process may have sent before the client stopped to take
        let frames = read_server_frames(&out[end..])?;
        ensure!(frames.len() <= c.pushes.len() && frames.iter().zip(&c.pushes).enumerate().all(|(n, (f, p))| f.1 == push_of(i, n, p)), "received {}", kit::clip(&format!("{:?}", frames)));
        ensure_eq!(notes, ["open"], "what the session went through");
        ensure!(!closed, "the connection is dropped");
        return Ok(());
    }
    let reset = matches!(c.ending, Ending::Reset);
    let frames = read_server_frames(if reset { whole_frames(&out[end..]) } else { &out[end..] })?;
    let (pushed, rest): (Vec<_>, Vec<_>) = frames.into_iter().partition(|(_, p)| p.starts_with(b"push "));
    let want: Vec<Vec<u8>> = c.pushes.iter().enumerate().map(|(n, p)| push_of(i, n, p)).collect();
    ensure!(pushed.len() <= want.len() && pushed.iter().zip(&want).all(|((o, g), w)| *o == 2 && g == w), "the messages of the other process arrive as {}", kit::clip(&format!("{:?}", pushed)));
    ensure!(reset || pushed.len() == want.len(), "{} of {} messages of the other process arrive", pushed.len(), want.len());
    let mut expect = vec![];
    let mut n = 0;
    for m in &c.script {
        match m {
            In::Data { text, payload, .. } => {
                expect.push(echo_of(i, n, *text, payload));
                n += 1
            }
            In::Ping(p) => expect.push((10, p.to_vec())),
            _ => {}
        }
    }
    let closes = rest.iter().position(|(o, _)| *o == 8);
    let before = &rest[..closes.unwrap_or(rest.len())];
    if reset {
        ensure!(before.len() <= expect.len() && before == &expect[..before.len()], "received {}, expected a beginning of {}", kit::clip(&format!("{:?}", before)), kit::clip(&format!("{:?}", expect)));
    } else {
        ensure!(before == expect, "received {}, expected {}", kit::clip(&format!("{:?}", before)), kit::clip(&format!("{:?}", expect)));
    }
    ensure!(closes.map_or(true, |k| k + 1 == rest.len()), "received after the close frame: {}", kit::clip(&format!("{:?}", &rest[closes.unwrap()..])));
    let (how, close, stays) = match c.ending {
        Ending::Stay => (vec!["open"], false, true),
        Ending::Close(_) | Ending::Leave => (vec!["open", "end"], true, false),
        Ending::Eof | Ending::Cut { .. } | Ending::Bad(_) => (vec!["open", "client error", "end"], true, false),
        Ending::Panic => (vec!["open"], false, false),
        _ => (vec![], false, false),
    };
    if !reset {
        ensure_eq!(notes, how, "what the session went through");
        ensure!(closes.is_some() == close, "close frame received: {}", !close);
    }
    ensure!(closed == !stays, "the connection is {}", if closed { "dropped" } else { "not released" });
    Ok(())
}

fn check_w07(c: &SessionsCase) -> Verdict {
    let sim = Sim::new();
    let mode = c.mode;
    let pushes: Vec<Vec<Bytes>> = c.clients.iter().map(|k| k.pushes.clone()).collect();
    let root = sim.spawn_root(move || serve(mode, pushes, session_handler));
    ensure!(sim.run(10_000, |_| 0) == RunEnd::Idle && sim.exit_of(root).is_none(), "the server does not start");
    // a last client comes when all others have done what they do
    let last = WsClient {
        script: vec![In::Data { text: true, payload: b"late"[..].into(), cuts: vec![] }],
        ending: Ending::Close(In::Close(Bytes::default())),
        pushes: vec![],
        masks: vec![[1, 2, 3, 4]],
        cuts: vec![],
        pieces: vec![],
        limits: vec![],
        hold: None,
    };
    let conns: std::cell::RefCell<HashMap<usize, usize>> = Default::default();
    let run = |from: usize, clients: &[WsClient]| {
        let queues = clients.iter().enumerate().map(|(k, w)| ws_actions(from + k, w)).collect();
        let answered = |sim: &Sim, i: usize, a: &Act| !matches!(a, Act::Answered) || find(&sim.output(conns.borrow()[&(from + i)]), b"\r\n\r\n").is_some();
        drive_when(&sim, &c.sched, 5_000_000, queues, answered, |sim, i, a| match a {
            Act::Connect => {
                let k = sim.connect(0);
                sim.read_limits(k, clients[i].cuts.clone());
                sim.write_limits(k, clients[i].limits.clone());
                conns.borrow_mut().insert(from + i, k);
            }
            Act::Send(b) => sim.push(conns.borrow()[&(from + i)], &b),
            Act::Eof => sim.eof(conns.borrow()[&(from + i)]),
            Act::Reset => sim.reset(conns.borrow()[&(from + i)]),
            Act::Hold(h) => sim.hold(conns.borrow()[&(from + i)], h),
            Act::Answered => {}
        })
    };
    ensure!(run(0, &c.clients) == RunEnd::Idle, "the sessions are busy for ever");
    ensure!(run(c.clients.len(), std::slice::from_ref(&last)) == RunEnd::Idle, "the sessions are busy for ever");
    ensure!(sim.exit_of(root).is_none() && sim.listener_live(0), "the server ended");
    let told = c.clients.iter().filter(|k| matches!(k.ending, Ending::Panic)).count();
    let panics = sim.panics();
    if let Some((_, m)) = panics.iter().find(|(_, m)| !m.starts_with("handler panics as told")) {
        return Err(format!("a session's process panics: {}", m));
    }
    ensure_eq!(panics.len(), told, "handlers that panicked");
    let notes = sim.notes();
    let mut by_client = notes_by_client(&notes);
    for (i, k) in c.clients.iter().chain([&last]).enumerate() {
        let mine = by_client.remove(&i).unwrap_or_default();
        let conn = conns.borrow()[&i];
        check_session(i, k, &sim.output(conn), &mine, sim.server_closed(conn)).map_err(|m| {
            let kind = if i == c.clients.len() { "the late one".to_string() } else { format!("{:?}", k.ending).split([' ', '{', '(']).next().unwrap_or("").to_string() };
            format!("client {} ({}): {}", i, kind, m)
        })?;
    }
    let has = |f: fn(&Ending) -> bool| c.clients.iter().any(|k| f(&k.ending));
    Ok(Seen::new(c.clients.len() >= 2)
        .label(c.clients.iter().any(|k| !k.pushes.is_empty()), "two processes in a session")
        .label(has(|e| matches!(e, Ending::Close(_))), "closed")
        .label(has(|e| matches!(e, Ending::Bad(_))), "protocol violation")
        .label(has(|e| matches!(e, Ending::Eof | Ending::Cut { .. })), "ended")
        .label(has(|e| matches!(e, Ending::Reset)), "reset")
        .label(has(|e| matches!(e, Ending::Panic)), "handler panics")
        .label(has(|e| matches!(e, Ending::Leave)), "closed by the handler")
        .label(has(|e| matches!(e, Ending::Stay)), "stays open")
        .label(has(|e| matches!(e, Ending::Deaf)), "takes nothing")
        .label(c.clients.iter().any(|k| k.hold.is_some()), "takes nothing for a while")
        .label(has(|e| matches!(e, Ending::Refused | Ending::ResetInside { .. })), "no session"))
}

/// Many small sessions at the same time, or few long ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessionCrowd {
    mode: Mode,
    clients: usize,
    /// messages of each
    messages: usize,
    pushes: usize,
    salt: u64,
    sched: Sched,
}

fn gen_session_crowd(s: &mut Src) -> SessionCrowd {
    let long = s.chance(1, 3);
    SessionCrowd {
        mode: gen_mode(s),
        clients: if long { s.range(2, 4) } else { gen_count(s) },
        messages: if long { s.range(50, 1500) } else { s.range(0, 3) },
        pushes: if !long { s.range(0, 2) } else if s.bool() { s.range(0, 700) } else { 0 },
        salt: s.below(1 << 20),
        sched: gen_sched(s),
    }
}

fn check_session_crowd(c: &SessionCrowd) -> Verdict {
    let mut rng = kit::Rng::new(c.salt);
    let few = c.clients < 5;
    let clients = (0..c.clients)
        .map(|i| {
            let n = rng.below(c.messages as u64 + 1) as usize;
            let n = if few { c.messages.max(1) - n / 4 } else { n };
            let message = |k: usize, r: u64| match r {
                0 => In::Ping(format!("p{}", k).into_bytes().into()),
                1 => In::Pong(Bytes::default()),
                2 => In::Data { text: false, payload: vec![k as u8; k % 9].into(), cuts: vec![k % 3] },
                _ => In::Data { text: true, payload: format!("m{}", k).into_bytes().into(), cuts: vec![] },
            };
            // some clients send nothing but pings
            let only = if rng.below(5) == 0 { Some(0) } else { None };
            let script = (0..n).map(|k| message(k, only.unwrap_or_else(|| rng.below(6)))).collect();
            let ending = match rng.below(12) {
                0 => Ending::Stay,
                1 => Ending::Eof,
                2 => Ending::Reset,
                3 => Ending::Cut { payload: b"cut"[..].into(), missing: 1 + i % 7 },
                4 => Ending::Panic,
                5 => Ending::Leave,
                6 => Ending::Refused,
                7 => Ending::ResetInside { at: i % 60 },
                8 => Ending::Bad(Bad::Unmasked { op: 1, fin: true, payload: b"u"[..].into() }),
                _ => Ending::Close(In::Close(Bytes::default())),
            };
            let ending = if few && i == 0 { Ending::Close(In::Close(b"\x03\xe8"[..].into())) } else { ending };
            let pushes = (0..if rng.below(2) == 0 { c.pushes } else { 0 }).map(|k| format!("{}", k).into_bytes().into()).collect();
            WsClient { script, ending, pushes, masks: vec![[1, 2, 3, 4], [0, 255, 7, 9]], cuts: vec![], pieces: vec![], limits: vec![], hold: None }
        })
        .collect();
    check_w07(&SessionsCase { mode: c.mode, clients, sched: c.sched.clone() })?;
    Ok(Seen::new(true)
        .label(c.clients > 256, "more than 256 clients")
        .label(c.clients > 1000, "more than 1000 clients")
        .label(c.messages > 256, "more than 256 messages")
        .label(c.messages > 1000, "more than 1000 messages")
        .label(c.pushes > 256, "more than 256 messages of another process"))
}

/// Every ending next to a session that goes on, in every server; resets inside the handshake at every byte.
fn fixed_w07() -> Vec<SessionsCase> {
    let mut v = vec![];
    let text = |t: &str| In::Data { text: true, payload: t.as_bytes().into(), cuts: vec![] };
    let empty = Bytes::default;
    let client = |ending: Ending, pushes: Vec<Bytes>| WsClient { script: vec![text("a"), In::Ping(b"p"[..].into()), text("b")], ending, pushes, masks: vec![[9, 8, 7, 6]], cuts: vec![], pieces: vec![9], limits: vec![], hold: None };
    for mode in [Mode::ServeRouter, Mode::Run, Mode::ForEach] {
        let mut endings = vec![
            Ending::Stay,
            Ending::Close(In::Close(empty())),
            Ending::Close(In::Close(b"\x03\xe8bye"[..].into())),
            Ending::Close(In::CloseInside { text: true, parts: vec![b"x"[..].into()], close: empty() }),
            Ending::Eof,
            Ending::Reset,
            Ending::Panic,
            Ending::Leave,
            Ending::Refused,
            Ending::Bad(Bad::Continuation { fin: true, payload: b"c"[..].into() }),
            Ending::Bad(Bad::Nested { text: true, first: b"1"[..].into(), inner_text: true, inner_fin: true, inner: b"2"[..].into() }),
            Ending::Bad(Bad::Reserved { op: 3, fin: true, payload: empty() }),
            Ending::Bad(Bad::Rsv { rsv: 4, op: 1, two: false, second: false, payload: b"r"[..].into() }),
            Ending::Bad(Bad::Unmasked { op: 1, fin: true, payload: b"u"[..].into() }),
            Ending::Bad(Bad::NotUtf8 { payload: b"\xff"[..].into(), cuts: vec![] }),
        ];
        endings.extend((1..14).map(|missing| Ending::Cut { payload: b"cut"[..].into(), missing }));
        endings.extend((0..handshake(0, true).len()).step_by(5).map(|at| Ending::ResetInside { at }));
        for (k, e) in endings.into_iter().enumerate() {
            let p: Vec<Bytes> = if k % 2 == 0 { vec![] } else { vec![b"q"[..].into()] };
            v.push(SessionsCase { mode, clients: vec![client(e, p), client(Ending::Close(In::Close(empty())), vec![b"w"[..].into()])], sched: Sched { prefix: vec![], tail: 3 + k as u64, stay: 2 } });
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    const A: &str = "the lunatic VM is replaced by a deterministic simulation of its host calls; any other process may run between two host calls";
    vec![
        Prop {
            id: "C12",
            assumptions: &[A, "up to 10 clients, up to 1100 in the crowds; requests and responses have at most 20 headers with distinct names (ignoring case, for requests)"],
            parts: vec![
                Part::new("exchanges", "two clients, or a request with a body", 40_000, 1_000_000, gen_c12, Vec::new, check_c12),
                Part::new("large bodies", "always: 100 kB to 20 MB", 40, 600, gen_large, Vec::new, check_c12_large),
                Part::new("crowds", "always: 10 to 1100 clients", 150, 5_000, |s| ExchangeCrowd { mode: gen_mode(s), clients: gen_count(s), salt: s.below(1 << 20), sched: gen_sched(s) }, Vec::new, check_exchange_crowd),
            ],
        },
        Prop {
            id: "W07",
            assumptions: &[A, "up to 10 clients, up to 1100 in the crowds, which send nothing before their handshake is answered; what a client that resets receives is decided up to where it stops"],
            parts: vec![Part::new("sessions", "at least two clients", 60_000, 1_500_000, gen_w07, fixed_w07, check_w07), Part::new("crowds", "always: 10 to 1100 sessions, or sessions of 50 to 1500 messages", 250, 8_000, gen_session_crowd, Vec::new, check_session_crowd)],
        },
    ]
}
