//! E02: the chat application, its users being browsers.
use crate::page::{no_error, Page};
use crate::sched::*;
use crate::{answer, wire};
use kit::{ensure, ensure_eq, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{ConnId, RunEnd, Sim};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[allow(warnings)]
mod app {
    include!("/repo/examples/chat/src/main.rs");
    pub fn start() {
        main()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Leave {
    Stay,
    Close,
    Eof,
    Reset,
    /// a frame no client may send
    Violation,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    /// fill in the text field that is shown
    Type(String),
    /// press the button that is shown
    Press,
    /// wait for everything to settle on the page
    Wait,
    /// a message of the browser that means nothing here
    Noise(u8),
    /// from now on the browser takes nothing from its connection
    Deaf,
    /// it takes everything again
    Take,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct User {
    /// look at / and /js first
    browse: bool,
    name: String,
    /// press the button twice
    eager: bool,
    /// go on only when the room is shown
    patient: bool,
    acts: Vec<Do>,
    leave: Leave,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChatCase {
    users: Vec<User>,
    cuts: Vec<usize>,
    sched: Sched,
}

fn gen_text(s: &mut Src) -> String {
    s.vec(0, 5, |s| *s.pick(&['a', 'B', '0', ' ', '+', '"', '<', '&', 'é', '漢', '😀', '\\'])).into_iter().collect()
}
fn gen(s: &mut Src) -> ChatCase {
    gen_room(s, (1, 4), (0, 5))
}
/// Many users, or many messages.
fn gen_crowd(s: &mut Src) -> ChatCase {
    let (users, acts) = *s.pick(&[((5, 12), (0, 5)), ((12, 40), (0, 3)), ((1, 2), (30, 100)), ((3, 6), (5, 20))]);
    gen_room(s, users, acts)
}
fn gen_room(s: &mut Src, users: (usize, usize), acts: (usize, usize)) -> ChatCase {
    let mut k = 0;
    let n = s.range(users.0, users.1);
    let range = acts;
    let mut users = vec![];
    for _ in 0..n {
        s.span(|s| {
            let mut acts = vec![];
            for _ in 0..s.range(range.0, range.1) {
                match s.weighted(&[8, 1, 2, 1, 2]) {
                    0 => {
                        k += 1;
                        acts.push(Do::Type(format!("{}#{}", gen_text(s), k)));
                        acts.push(Do::Press);
                    }
                    1 => {
                        k += 1;
                        acts.push(Do::Type(format!("{}#{}", gen_text(s), k)))
                    }
                    2 => acts.push(Do::Press),
                    3 => acts.push(Do::Noise(s.below(4) as u8)),
                    _ => acts.push(Do::Wait),
                }
            }
            if s.chance(1, 6) {
                let from = s.range(0, acts.len());
                acts.insert(from, Do::Deaf);
                let to = s.range(from + 1, acts.len());
                acts.insert(to, Do::Take);
            }
            let leave = match s.weighted(&[4, 2, 2, 1, 1]) {
                0 => Leave::Stay,
                1 => Leave::Close,
                2 => Leave::Eof,
                3 => Leave::Reset,
                _ => Leave::Violation,
            };
            users.push(User { browse: s.chance(1, 6), name: gen_text(s), eager: s.chance(1, 8), patient: s.chance(3, 4), acts, leave })
        })
    }
    ChatCase { users, cuts: if s.chance(1, 3) { s.vec(1, 4, |s| s.range(1, 30)) } else { vec![] }, sched: gen_sched(s) }
}

/// What a page shows.
#[derive(Clone, Debug, PartialEq)]
enum View {
    Empty,
    Form { name: String },
    Room { hello: String, draft: String, shown: Vec<(String, String)> },
}
struct Shot {
    view: View,
    field: usize,
    button: usize,
}
fn shot(dom: &Value) -> Result<Shot, String> {
    fn all<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
        out.push(v);
        for k in v["kids"].as_array().into_iter().flatten() {
            all(k, out)
        }
    }
    let mut els = vec![];
    for v in dom.as_array().into_iter().flatten() {
        all(v, &mut els)
    }
    if els.is_empty() {
        return Ok(Shot { view: View::Empty, field: 0, button: 0 });
    }
    let of = |ty: &str| -> Result<usize, String> {
        let v: Vec<usize> = (0..els.len()).filter(|i| els[*i]["name"] == "input" && els[*i]["attrs"]["type"] == ty).collect();
        ensure!(v.len() == 1, "{} inputs of type {} on the page {}", v.len(), ty, kit::clip(&dom.to_string()));
        Ok(v[0])
    };
    let (field, button) = (of("text")?, of("submit")?);
    let draft = els[field]["attrs"]["value"].as_str().unwrap_or_default().to_string();
    let text = |v: &Value| v["text"].as_str().unwrap_or_default().to_string();
    let ps: Vec<String> = els.iter().filter(|e| e["name"] == "p").map(|e| text(e)).collect();
    let hs: Vec<String> = els.iter().filter(|e| e["name"] == "h3").map(|e| text(e)).collect();
    let view = if ps.is_empty() && hs.is_empty() {
        View::Form { name: draft }
    } else {
        ensure!(ps.len() == hs.len() + 1, "{} headings and {} paragraphs on the page {}", hs.len(), ps.len(), kit::clip(&dom.to_string()));
        let mut ps = ps.into_iter();
        View::Room { hello: ps.next().unwrap(), draft, shown: hs.into_iter().zip(ps).collect() }
    };
    Ok(Shot { view, field, button })
}

/// One user at a browser.
struct Tab<'a> {
    u: &'a User,
    number: usize,
    page: Page,
    /// where the connection's messages start, and what has been read of them
    read: std::cell::RefCell<(Option<usize>, wire::Texts)>,
    stage: Stage,
    conn: ConnId,
    todo: Vec<Do>,
    delivered: usize,
    shot: Shot,
    /// times: first pressed the button of the form; first saw the room; left
    pressed: Option<u64>,
    joined: Option<u64>,
    left: Option<u64>,
    id: Option<u64>,
    typed_name: String,
    draft: String,
    /// messages sent from the room, and when
    said: Vec<(String, u64)>,
    /// when each of them was first seen on any page
    noise: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    Start,
    Index,
    Js,
    Shake,
    Open,
    Gone,
}
const KEY: &str = "GET /ws HTTP/1.1\r\nHost: localhost:8081\r\nUpgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
const ACCEPT: &str = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=";

fn get(path: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: localhost:8081\r\n\r\n", path).into_bytes()
}
fn head_end(b: &[u8]) -> Option<usize> {
    b.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4)
}

fn check(c: &ChatCase) -> Verdict {
    let sim = Sim::new();
    sim.set_preempt(false);
    sim.spawn_root(app::start);
    ensure!(sim.run(100_000, |_| 0) == RunEnd::Idle, "the application is busy before any request");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("the application fails at its start: {}", m));
    }
    ensure!(sim.listeners() == 1 && sim.listener_live(0), "the application does not listen");
    sim.set_preempt(true);
    // a visitor that speaks no WebSocket
    let plain = sim.connect(0);
    sim.push(plain, &get("/ws"));
    let mut tabs: Vec<Tab> = c
        .users
        .iter()
        .enumerate()
        .map(|(i, u)| {
            let mut todo = vec![Do::Type(u.name.clone()), Do::Press];
            if u.eager {
                todo.push(Do::Press)
            }
            if u.patient {
                todo.push(Do::Wait)
            }
            todo.extend(u.acts.iter().cloned());
            Tab { u, number: i, page: Page::nth(i, "/"), read: Default::default(), stage: Stage::Start, conn: plain, todo, delivered: 0, shot: Shot { view: View::Empty, field: 0, button: 0 }, pressed: None, joined: None, left: None, id: None, typed_name: String::new(), draft: String::new(), said: vec![], noise: 0 }
        })
        .collect();
    for t in &mut tabs {
        let r = t.page.run(vec![json!({"u": 1})])?;
        ensure!(r[0]["urls"] == json!(["ws://example.org:8080/ws"]), "the page at http://example.org:8080/ connects to {}", r[0]["urls"]);
    }
    // (owner, message) -> when it was first seen on a page other than the owner's, or on the owner's
    let mut first_seen: Vec<Vec<Option<u64>>> = vec![vec![]; tabs.len()];
    let mut ch = Chooser::new(&c.sched);
    let mut now = 0u64;
    let mut both_in_flight = false;
    loop {
        let run = sim.runnable();
        // what each user can do: 0 its next action, 1 take in a message
        let mut options: Vec<(usize, u8)> = vec![];
        for (i, t) in tabs.iter().enumerate() {
            match t.stage {
                Stage::Start => options.push((i, 0)),
                Stage::Index | Stage::Js if sim.server_closed(t.conn) => options.push((i, 0)),
                Stage::Shake if head_end(&sim.output(t.conn)).is_some() => options.push((i, 0)),
                Stage::Open => {
                    let waiting = t.texts(&sim)?.len() > t.delivered;
                    if waiting {
                        options.push((i, 1))
                    }
                    let ready = match t.todo.first() {
                        Some(Do::Wait) => run.is_empty() && !waiting,
                        Some(_) => t.shot.view != View::Empty,
                        None => t.u.leave != Leave::Stay,
                    };
                    if ready {
                        options.push((i, 0))
                    }
                }
                _ => {}
            }
        }
        now += 1;
        ensure!(now < 400_000 + 40_000 * c.users.len() as u64, "the application is busy for ever");
        // the users may also keep everybody waiting until something times out
        let late = run.is_empty() && sim.timer_pending();
        if run.is_empty() && options.is_empty() && !late {
            break;
        }
        let k = ch.choose(run.len() + options.len() + late as usize);
        if k < run.len() {
            sim.step_pid(run[k]);
            continue;
        }
        if k == run.len() + options.len() {
            sim.advance_clock();
            continue;
        }
        let (i, what) = options[k - run.len()];
        let t = &mut tabs[i];
        let who = |m: String| format!("user {}: {}", i, m);
        if what == 1 {
            let text = t.texts(&sim)?[t.delivered].clone();
            let r = t.page.run(vec![json!({"m": text, "d": 1})])?.remove(0);
            no_error(&r, || who(format!("message {} {}", t.delivered, kit::clip(&text))))?;
            ensure!(r["sent"] == json!([]), "{}", who(format!("the page sends {}", r["sent"])));
            t.delivered += 1;
            let before = std::mem::replace(&mut t.shot, shot(&r["dom"]).map_err(who)?);
            observe(&mut tabs, i, before, now, &mut first_seen)?;
            continue;
        }
        match t.stage {
            Stage::Start => {
                let (next, req) = if t.u.browse { (Stage::Index, get("/")) } else { (Stage::Shake, KEY.as_bytes().to_vec()) };
                t.conn = sim.connect(0);
                sim.read_limits(t.conn, c.cuts.clone());
                sim.push(t.conn, &req);
                t.stage = next;
            }
            Stage::Index => {
                let a = answer(&sim.output(t.conn)).map_err(who)?;
                ensure!(a.status == 200 && a.is("content-type", "text/html"), "{}", who(format!("/ is answered with {} {:?}", a.status, a.headers)));
                ensure!(String::from_utf8_lossy(&a.body).contains("./js"), "{}", who("the page does not load the script".into()));
                t.conn = sim.connect(0);
                sim.read_limits(t.conn, c.cuts.clone());
                sim.push(t.conn, &get("/js"));
                t.stage = Stage::Js;
            }
            Stage::Js => {
                let a = answer(&sim.output(t.conn)).map_err(who)?;
                ensure!(a.status == 200 && a.is("content-type", "javascript"), "{}", who(format!("/js is answered with {} {:?}", a.status, a.headers)));
                ensure!(a.body == crate::page::script_text().as_bytes(), "{}", who("/js is another script than puck_liveview's".into()));
                t.conn = sim.connect(0);
                sim.read_limits(t.conn, c.cuts.clone());
                sim.push(t.conn, KEY.as_bytes());
                t.stage = Stage::Shake;
            }
            Stage::Shake => {
                let out = sim.output(t.conn);
                let head = String::from_utf8_lossy(&out[..head_end(&out).unwrap()]).to_string();
                ensure!(head.starts_with("HTTP/1.1 101") && head.contains(ACCEPT), "{}", who(format!("the handshake is answered with {:?}", head)));
                t.stage = Stage::Open;
            }
            Stage::Open => {
                if t.todo.is_empty() {
                    match t.u.leave {
                        Leave::Close => sim.push(t.conn, &wire::frame(0x88, Some([1, 1, 2, 2]), b"\x03\xe8")),
                        Leave::Eof => sim.eof(t.conn),
                        Leave::Reset => sim.reset(t.conn),
                        _ => sim.push(t.conn, &wire::frame(0x81, None, b"{}")),
                    }
                    t.left = Some(now);
                    t.stage = Stage::Gone;
                    continue;
                }
                match t.todo.remove(0) {
                    Do::Wait => {}
                    Do::Deaf => sim.hold(t.conn, true),
                    Do::Take => sim.hold(t.conn, false),
                    Do::Noise(k) => {
                        let b = match k {
                            0 => wire::frame(0x89, Some([1, 2, 3, 4]), b"?"),
                            1 => wire::text("{\"listener\":\"nobody\"}"),
                            2 => wire::text("noise"),
                            _ => wire::frame(0x82, Some([1, 2, 3, 4]), b"{\"listener\":\"submit_message\"}"),
                        };
                        sim.push(t.conn, &b);
                        t.noise += 1;
                    }
                    // texts are different for different users
                    Do::Press if t.draft.is_empty() && matches!(t.shot.view, View::Room { .. }) => {}
                    d => {
                        let op = match &d {
                            Do::Type(v) => json!({"f": t.shot.field, "e": "input", "v": v}),
                            _ => json!({"f": t.shot.button, "e": "click"}),
                        };
                        let r = t.page.run(vec![op])?.remove(0);
                        no_error(&r, || who(format!("{:?}", d)))?;
                        let sent: Vec<String> = r["sent"].as_array().into_iter().flatten().map(|m| m.as_str().unwrap_or_default().to_string()).collect();
                        ensure!(sent.len() == 1, "{}", who(format!("{:?} on the page {:?} sends {:?}", d, t.shot.view, sent)));
                        sim.push(t.conn, &wire::text(&sent[0]));
                        let form = matches!(t.shot.view, View::Form { .. });
                        match d {
                            // what reaches the server after the button of the form finds the room
                            Do::Type(v) if form && t.pressed.is_none() => t.typed_name = v,
                            Do::Press if form => {
                                t.pressed.get_or_insert(now);
                            }
                            Do::Type(v) if !form => t.draft = v,
                            Do::Press => {
                                let m = t.draft.clone();
                                t.said.push((m, now));
                                first_seen[i].push(None);
                                both_in_flight |= tabs.iter().enumerate().any(|(j, o)| j != i && (0..o.said.len()).any(|m| first_seen[j][m].is_none()));
                            }
                            _ => {}
                        }
                    }
                }
            }
            Stage::Gone => {}
        }
    }
    let lossy = c.users.iter().any(|u| u.leave == Leave::Reset);
    if let Some((_, m)) = sim.panics().first() {
        ensure!(lossy, "a process panics: {}", m);
    }
    let a = answer(&sim.output(plain))?;
    ensure!(a.status == 400, "/ws without a handshake is answered with {}", a.status);
    for t in &tabs {
        let who = |m: &str| format!("user {}: {}", t.number, m);
        ensure!(matches!(t.stage, Stage::Open | Stage::Gone), "{}", who(&format!("is stuck at {:?}", t.stage)));
        ensure!(t.todo.is_empty(), "{}", who(&format!("waits for {:?} with {:?}", t.todo, t.shot.view)));
        if t.left.is_none() {
            let View::Room { draft, .. } = &t.shot.view else { return Err(who(&format!("is left with {:?}", t.shot.view))) };
            ensure!(*draft == t.draft, "{}", who(&format!("the text field has {:?}, typed was {:?}", draft, t.draft)));
        } else {
            ensure!(sim.server_closed(t.conn), "{}", who("left, but its connection is held"));
        }
    }
    // who shows what
    let mut views: Vec<Vec<(usize, usize)>> = vec![];
    let (mut shared, mut late) = (0, false);
    for o in &tabs {
        let mut seq = vec![];
        let shown = if let View::Room { shown, .. } = &o.shot.view { shown.clone() } else { vec![] };
        let mut owners = vec![];
        for (h, text) in &shown {
            match tabs.iter().position(|t| *h == heading(t) && t.said.iter().any(|s| s.0 == *text)) {
                Some(w) => owners.push(w),
                None => return Err(format!("user {} is shown {:?} under {:?}, which nobody said", o.number, text, h)),
            }
        }
        // those of a user are in the order in which they were said, and none is left out
        let mut next: Vec<usize> = vec![0; tabs.len()];
        for (w, t) in tabs.iter().enumerate() {
            let of: Vec<&String> = shown.iter().zip(&owners).filter(|x| *x.1 == w).map(|x| &x.0 .1).collect();
            let ends = o.left.is_none() && t.u.leave != Leave::Reset;
            let fits = |k: &usize| t.said[*k..*k + of.len()].iter().map(|s| &s.0).eq(of.iter().copied()) && (!ends || k + of.len() == t.said.len());
            let k = if of.len() > t.said.len() { None } else { (0..=t.said.len() - of.len()).find(fits) };
            let Some(k) = k.or((of.is_empty()).then_some(0)) else { return Err(format!("user {} is shown {:?} by user {}, who said {:?}; it joined at {:?} and left at {:?}", o.number, of, w, t.said, o.joined, o.left)) };
            next[w] = k;
        }
        for w in owners {
            seq.push((w, next[w]));
            next[w] += 1;
        }
        for (w, s) in tabs.iter().enumerate() {
            for (m, (text, at)) in s.said.iter().enumerate() {
                let has = seq.contains(&(w, m));
                let what = || format!("{:?} said by user {} at {}; user {} pressed the button at {:?}, joined at {:?}, left at {:?}", text, w, at, o.number, o.pressed, o.joined, o.left);
                // whoever repeats a text is not asked which of them is shown first
                let unique = s.said.iter().filter(|x| x.0 == *text).count() == 1;
                let here = o.joined.map_or(false, |j| j <= *at) && o.left.is_none();
                if here && (unique || o.left.is_none()) && (s.u.leave != Leave::Reset) {
                    ensure!(has, "not shown: {}", what());
                    shared += (w != o.number) as usize;
                }
                if w != o.number && has {
                    let before = o.pressed.is_none() || first_seen[w][m].map_or(false, |f| Some(f) < o.pressed);
                    ensure!(!before || !unique, "shown though it had been said before: {}", what());
                }
                late |= w != o.number && !has && o.left.is_none();
            }
        }
        views.push(seq);
    }
    for a in 0..tabs.len() {
        for b in a + 1..tabs.len() {
            let common = |x: &[(usize, usize)], y: &[(usize, usize)]| -> Vec<(usize, usize)> { x.iter().filter(|m| m.0 != a && m.0 != b && y.contains(m)).cloned().collect() };
            let repeated = |m: &(usize, usize)| tabs[m.0].said.iter().filter(|s| s.0 == tabs[m.0].said[m.1].0).count() > 1;
            let strip = |v: Vec<(usize, usize)>| -> Vec<(usize, usize)> { v.into_iter().filter(|m| !repeated(m)).collect() };
            ensure_eq!(strip(common(&views[a], &views[b])), strip(common(&views[b], &views[a])), format!("the order of messages shown to users {} and {}", a, b));
        }
    }
    // everybody leaves
    for t in &tabs {
        if t.left.is_none() {
            sim.eof(t.conn)
        }
    }
    ensure!(sim.run(100_000 + 10_000 * tabs.len() as u64, |_| 0) == RunEnd::Idle, "the application is busy after everybody left");
    ensure!(sim.queued() == 0, "{} messages lie in mailboxes after everybody left", sim.queued());
    for t in &tabs {
        ensure!(sim.server_closed(t.conn), "user {} left, but its connection is held", t.number);
    }
    if let Some((_, m)) = sim.panics().first() {
        ensure!(lossy, "a process panics: {}", m);
    }
    ensure!(sim.listener_live(0), "the application has stopped listening");
    let said: usize = tabs.iter().map(|t| t.said.len()).sum();
    Ok(Seen::new(said > 0 && tabs.len() > 1)
        .label(shared > 0, "shown to others")
        .label(late, "not shown to those who came later")
        .label(both_in_flight, "several messages at a time")
        .label(tabs.iter().any(|t| t.left.is_some() && !t.said.is_empty()), "someone speaks and leaves")
        .label(reused(&tabs), "an id is used again")
        .label(tabs.iter().any(|t| !t.u.patient), "acts on an old page")
        .label(tabs.iter().any(|t| t.u.eager), "button pressed twice")
        .label(c.users.iter().any(|u| u.acts.iter().any(|a| matches!(a, Do::Deaf))), "takes nothing for a while")
        .label(tabs.iter().any(|t| t.noise > 0), "noise"))
}
fn reused(tabs: &[Tab]) -> bool {
    tabs.iter().enumerate().any(|(i, a)| a.id.is_some() && tabs[..i].iter().any(|b| b.id == a.id))
}
fn hello(t: &Tab) -> Option<u64> {
    if let View::Room { hello, .. } = &t.shot.view {
        return hello.strip_prefix(&format!("Hello {} (user_id: ", t.typed_name)).and_then(|r| r.strip_suffix(")!")).and_then(|n| n.parse().ok());
    }
    None
}
fn heading(t: &Tab) -> String {
    format!("Message from {} (user id: {})", t.typed_name, t.id.unwrap_or(u64::MAX))
}
impl Tab<'_> {
    fn texts(&self, sim: &Sim) -> Result<std::rc::Rc<Vec<String>>, String> {
        let mut r = self.read.borrow_mut();
        if r.0.is_none() {
            r.0 = head_end(&sim.output(self.conn));
        }
        match r.0 {
            Some(from) => r.1.update(sim, self.conn, from),
            None => Ok(Default::default()),
        }
    }
}

/// A page has changed.
fn observe(tabs: &mut [Tab], i: usize, before: Shot, now: u64, first_seen: &mut [Vec<Option<u64>>]) -> Result<(), String> {
    let who = |m: String| format!("user {}: {}", i, m);
    let old = before.view;
    let view = tabs[i].shot.view.clone();
    match (&old, &view) {
        (_, View::Empty) => return Err(who("the page is empty".into())),
        (View::Empty, View::Form { name }) => ensure!(name.is_empty(), "{}", who(format!("is asked for its name with {:?}", name))),
        (View::Form { .. }, View::Form { .. }) => {}
        (View::Empty, View::Room { .. }) | (View::Room { .. }, View::Form { .. }) => return Err(who(format!("{:?} after {:?}", view, old))),
        (View::Form { .. }, View::Room { draft, shown, .. }) => {
            let t = &tabs[i];
            ensure!(t.pressed.is_some(), "{}", who("is in the room without having asked".into()));
            ensure!(draft.is_empty() && shown.is_empty(), "{}", who(format!("enters with {:?}", view)));
            let Some(id) = hello(t) else { return Err(who(format!("whose name is {:?} is greeted with {:?}", t.typed_name, view))) };
            for (j, o) in tabs.iter().enumerate() {
                ensure!(j == i || o.id != Some(id) || o.left.is_some(), "users {} and {} both have the id {}", i, j, id);
            }
            tabs[i].id = Some(id);
            tabs[i].joined = Some(now);
        }
        (View::Room { shown: a, .. }, View::Room { shown: b, .. }) => {
            ensure!(hello(&tabs[i]) == tabs[i].id, "{}", who(format!("is greeted with {:?}", view)));
            ensure!(b.starts_with(a) && b.len() <= a.len() + 1, "{}", who(format!("messages {:?} after {:?}", b, a)));
            for (h, text) in &b[a.len()..] {
                for (w, o) in tabs.iter().enumerate() {
                    if heading(o) == *h {
                        for (m, s) in o.said.iter().enumerate() {
                            if s.0 == *text {
                                first_seen[w][m].get_or_insert(now);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "E02", assumptions: &["the browser is node with lv/dom/dom.js; malvolio's revision is the stand-in lv/stubs/git/malvolio", "a reset may swallow what was sent before it"], parts: vec![Part::new("chat", "two users, one of whom says something", 6_000, 150_000, gen, Vec::new, check), Part::new("crowds", "two users, one of whom says something", 150, 4_000, gen_crowd, Vec::new, |c| check(c).map(|s| s.label(c.users.len() > 10, "over 10 users")))] }
}
