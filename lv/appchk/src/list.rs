//! E01: the list application under concurrent clients.
use crate::answer;
use crate::sched::*;
use kit::{ensure, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{ConnId, RunEnd, Sim};
use serde::{Deserialize, Serialize};

#[allow(warnings)]
mod app {
    include!("/repo/examples/list/src/main.rs");
    pub fn start() {
        main()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Submit(String),
    /// a body that is no submission
    BadSubmit(kit::Bytes),
    Read(u32),
    /// a read the application cannot answer
    BadRead(String),
    Form,
    Other(String, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Client {
    ops: Vec<Op>,
    /// sizes of the pieces in which requests are sent
    pieces: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ListCase {
    clients: Vec<Client>,
    sched: Sched,
}

fn gen(s: &mut Src) -> ListCase {
    gen_clients(s, (1, 4), (1, 5))
}
/// Many clients, or many requests.
fn gen_crowd(s: &mut Src) -> ListCase {
    let (clients, ops) = *s.pick(&[((5, 20), (1, 5)), ((20, 100), (1, 2)), ((1, 2), (30, 150))]);
    gen_clients(s, clients, ops)
}
fn gen_clients(s: &mut Src, clients: (usize, usize), ops: (usize, usize)) -> ListCase {
    let mut k = 0;
    let mut clients: Vec<Client> = s.vec(clients.0, clients.1, |s| {
        let ops = s.vec(ops.0, ops.1, |s| match s.weighted(&[6, 1, 6, 1, 1, 1]) {
            0 => {
                k += 1;
                let t: String = s.vec(0, 6, |s| *s.pick(&['a', 'Z', '0', '+', '%', '=', '-', ' ', 'é', '漢', '😀', '\''])).into_iter().collect();
                Op::Submit(format!("{}#{}", t, k))
            }
            1 => Op::BadSubmit(s.pick(&[&b""[..], b"message", b"Message=x", b" message=x", b"msg=1&message=2", b"\xc3\xa9message=", b"{}"]).to_vec().into()),
            2 => Op::Read(if s.chance(7, 8) { s.below(3) as u32 } else { *s.pick(&[100, 65536, i32::MAX as u32]) }),
            3 => Op::BadRead(s.pick(&["", "x", "1.5", "2147483648", "1/2", "0x1", "%31"]).to_string()),
            4 => Op::Form,
            _ => {
                let p = s.pick(&["/", "/read", "/submit/", "/submit/x", "/Submit", "/list", "//submit", "/read//1"]).to_string();
                Op::Other(s.pick(&["GET", "POST"]).to_string(), p)
            }
        });
        Client { ops, pieces: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.range(1, 40)) } }
    });
    // no reading asks for fewer items than there can be (see the known finding)
    for op in clients.iter_mut().flat_map(|c| &mut c.ops) {
        if let Op::Read(n) = op {
            *n = n.saturating_add(k).min(i32::MAX as u32)
        }
    }
    ListCase { clients, sched: gen_sched(s) }
}
/// What the application is known to get wrong.
fn wrong() -> Vec<ListCase> {
    let one = |ops| ListCase { clients: vec![Client { ops, pieces: vec![] }], sched: Sched { prefix: vec![], tail: 0, stay: 0 } };
    vec![
        one(vec![Op::Submit("a".into()), Op::Submit("b".into()), Op::Read(1)]),
        one(vec![Op::BadRead("-1".into())]),
        one(vec![Op::BadSubmit(b"message=\xff".to_vec().into())]),
    ]
}

impl Op {
    fn wire(&self) -> Vec<u8> {
        let (method, path, body): (&str, String, Option<Vec<u8>>) = match self {
            Op::Submit(t) => ("POST", "/submit".into(), Some(format!("message={}", t).into_bytes())),
            Op::BadSubmit(b) => ("POST", "/submit".into(), Some(b.to_vec())),
            Op::Read(n) => ("GET", format!("/read/{}", n), None),
            Op::BadRead(n) => ("GET", format!("/read/{}", n), None),
            Op::Form => ("GET", "/submit".into(), None),
            Op::Other(m, p) => (m, p.clone(), None),
        };
        let mut w = format!("{} {} HTTP/1.1\r\nHost: localhost:8080\r\nContent-Length: {}\r\n\r\n", method, path, body.as_ref().map_or(0, |b| b.len())).into_bytes();
        w.extend(body.unwrap_or_default());
        w
    }
}

/// The texts of the paragraphs of a page.
fn paragraphs(html: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = html;
    while let Some(i) = rest.find("<p") {
        rest = &rest[i + 2..];
        if !rest.starts_with(['>', ' ']) {
            continue;
        }
        let Some(a) = rest.find('>') else { break };
        let Some(b) = rest.find("</p>") else { break };
        v.push(rest[a + 1..b.max(a + 1)].replace("&quot;", "\"").replace("&#39;", "'").replace("&lt;", "<").replace("&gt;", ">").replace("&nbsp;", "\u{a0}").replace("&amp;", "&"));
        rest = &rest[b..];
    }
    v
}

struct Done<'a> {
    op: &'a Op,
    from: u64,
    to: u64,
    items: Vec<String>,
}

fn read_items(body: &str) -> Vec<String> {
    paragraphs(body).into_iter().filter_map(|p| p.strip_prefix("Item: ").map(|s| s.to_string())).collect()
}

fn check(c: &ListCase) -> Verdict {
    let sim = Sim::new();
    sim.set_preempt(false);
    sim.spawn_root(app::start);
    ensure!(sim.run(100_000, |_| 0) == RunEnd::Idle, "the application is busy before any request");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("the application fails at its start: {}", m));
    }
    ensure!(sim.listeners() == 1 && sim.listener_live(0), "the application does not listen");
    sim.set_preempt(true);
    struct St<'a> {
        next: usize,
        /// the request under way: connection, bytes to be sent, and when it started
        now: Option<(ConnId, Vec<u8>, u64)>,
        k: usize,
        c: &'a Client,
    }
    let mut st: Vec<St> = c.clients.iter().map(|c| St { next: 0, now: None, k: 0, c }).collect();
    let mut done: Vec<Done> = vec![];
    let mut ch = Chooser::new(&c.sched);
    let mut now = 0u64;
    let mut overlap = false;
    let finish = |op: &Op, conn: ConnId| -> Result<Vec<String>, String> {
        let what = |m: String| format!("{:?}: {}", op, m);
        let a = answer(&sim.output(conn)).map_err(what)?;
        let body = String::from_utf8(a.body.clone()).map_err(|_| what("the page is not text".into()))?;
        ensure!(a.is("content-type", "text/html"), "{}", what(format!("status {}, headers {:?}", a.status, a.headers)));
        let ok = match op {
            Op::Submit(_) | Op::Read(_) | Op::Form => a.status == 200,
            Op::BadSubmit(_) => a.status == 400,
            Op::BadRead(_) => a.status == 400 || a.status == 404,
            Op::Other(..) => a.status == 404,
        };
        ensure!(ok, "{}", what(format!("is answered with {}", a.status)));
        if let Op::Form = op {
            ensure!(body.contains("<form") && body.contains("message"), "{}", what("no form".into()));
        }
        if let Op::Read(n) = op {
            let items = read_items(&body);
            ensure!(items.len() <= *n as usize, "{}", what(format!("shows {} items", items.len())));
            ensure!(paragraphs(&body).len() == items.len().max(1), "{}", what(format!("paragraphs {:?}", paragraphs(&body))));
            return Ok(items);
        }
        Ok(vec![])
    };
    loop {
        let run = sim.runnable();
        let mut ready = vec![];
        for i in 0..st.len() {
            let s = &mut st[i];
            if let Some((conn, rest, from)) = &s.now {
                if rest.is_empty() && sim.server_closed(*conn) {
                    let op = &s.c.ops[s.next];
                    done.push(Done { op, from: *from, to: now, items: finish(op, *conn)? });
                    s.now = None;
                    s.next += 1;
                } else if sim.server_closed(*conn) {
                    return Err(format!("{:?}: the connection is closed before the request is sent", s.c.ops[s.next]));
                }
            }
            match &s.now {
                Some((_, rest, _)) if !rest.is_empty() => ready.push(i),
                None if s.next < s.c.ops.len() => ready.push(i),
                _ => {}
            }
        }
        now += 1;
        ensure!(now < 400_000 + 10_000 * c.clients.iter().map(|c| c.ops.len() as u64).sum::<u64>(), "the application is busy for ever");
        // the clients may also keep everybody waiting until something times out
        let late = run.is_empty() && sim.timer_pending();
        if run.is_empty() && ready.is_empty() && !late {
            break;
        }
        let k = ch.choose(run.len() + ready.len() + late as usize);
        if k < run.len() {
            sim.step_pid(run[k]);
            continue;
        }
        if k == run.len() + ready.len() {
            sim.advance_clock();
            continue;
        }
        let busy = st.iter().filter(|s| s.now.is_some()).count();
        let s = &mut st[ready[k - run.len()]];
        if s.now.is_none() {
            overlap |= busy > 0;
            s.now = Some((sim.connect(0), s.c.ops[s.next].wire(), now));
        }
        let (conn, rest, _) = s.now.as_mut().unwrap();
        let n = if s.c.pieces.is_empty() { rest.len() } else { s.c.pieces[s.k % s.c.pieces.len()] };
        s.k += 1;
        let piece: Vec<u8> = rest.drain(..n.min(rest.len())).collect();
        sim.push(*conn, &piece);
    }
    for s in &st {
        ensure!(s.next == s.c.ops.len(), "{:?} is never answered", s.c.ops[s.next]);
    }
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("a process panics: {}", m));
    }
    // the list as it is now
    let last = sim.connect(0);
    let all = Op::Read(1_000_000);
    sim.push(last, &all.wire());
    ensure!(sim.run(100_000, |_| 0) == RunEnd::Idle, "the application is busy for ever");
    let list = finish(&all, last)?;
    let submits: Vec<(&String, u64, u64)> = done.iter().filter_map(|d| if let Op::Submit(t) = d.op { Some((t, d.from, d.to)) } else { None }).collect();
    let mut a: Vec<&String> = list.iter().collect();
    let mut b: Vec<&String> = submits.iter().map(|s| s.0).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "the list has the items {:?}, submitted were {:?}", a, b);
    let info: Vec<(u64, u64)> = list.iter().map(|t| submits.iter().find(|s| s.0 == t).map(|s| (s.1, s.2)).unwrap()).collect();
    for i in 0..info.len() {
        for j in i + 1..info.len() {
            ensure!(info[j].1 >= info[i].0, "{:?} was recorded after {:?}, which was submitted only when the former had been acknowledged", list[j], list[i]);
        }
    }
    // each reading is that of a moment between its request and its answer
    let mut reads: Vec<(&Done, usize)> = done.iter().filter_map(|d| if let Op::Read(n) = d.op { Some((d, *n as usize)) } else { None }).collect();
    reads.sort_by_key(|r| r.0.to);
    let mut moments: Vec<(u64, u64, usize)> = vec![];
    for (d, n) in &reads {
        let least = info.iter().rposition(|i| i.1 < d.from).map_or(0, |p| p + 1);
        let most = info.iter().position(|i| i.0 > d.to).unwrap_or(info.len());
        // after readings that had ended before
        let floor = moments.iter().filter(|m| m.1 < d.from).map(|m| m.2).max().unwrap_or(0);
        let k = (least.max(floor)..=most).find(|k| list[k.saturating_sub(*n)..*k] == d.items[..]);
        match k {
            Some(k) => moments.push((d.from, d.to, k)),
            None => return Err(format!("a reading of the last {} shows {:?}; the list grew to {:?}, and had between {} and {} items then", n, d.items, list, least.max(floor), most)),
        }
    }
    let some = reads.iter().any(|r| !r.0.items.is_empty());
    Ok(Seen::new(!submits.is_empty() && !reads.is_empty())
        .label(overlap, "requests overlap")
        .label(some, "items shown")
        .label(reads.iter().any(|r| r.1 == list.len()), "as many asked for as there are")
        .label(done.iter().any(|d| matches!(d.op, Op::BadSubmit(_) | Op::BadRead(_))), "bad requests"))
}

pub fn prop() -> Prop {
    Prop { id: "E01", assumptions: &["items of letters, digits, spaces and -+%='# (malvolio sanitises others)", "no reading asks for fewer items than there are, or for a negative number, and submissions are UTF-8 (see the known findings)"], parts: vec![Part::new("list", "something is submitted and something read", 40_000, 1_000_000, gen, Vec::new, check), Part::new("crowds", "something is submitted and something read", 200, 5_000, gen_crowd, Vec::new, |c| check(c).map(|s| s.label(c.clients.len() > 20, "over 20 clients").label(c.clients.iter().any(|c| c.ops.len() > 50), "over 50 requests in a row"))), Part::new("findings", "always", 0, 0, |_| wrong().remove(0), wrong, check)] }
}
