//! L02, L03, L05: live sessions.
use crate::page::*;
use crate::sched::*;
use crate::tree::*;
use crate::wire;
use kit::{ensure, ensure_eq, Part, Prop, Seen, Src, Verdict};
use lunatic::net::TcpStream;
use lunatic::sim::{note, take_stream, ConnId, Exit, RunEnd, Sim};
use lunatic::Process;
use puck::ws::websocket::WebSocket;
use puck_liveview::component::{manage, Component, Context};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::event::{ClickEvent, InputEvent, SubmitEvent};
use puck_liveview::dom::listener::Listener;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::Read;

const CLICK: u8 = 0;
const SUBMIT: u8 = 1;
const INPUT: u8 = 2;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Render {
    pub tree: T,
    /// the component's callbacks: name and kind
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub calls: BTreeMap<String, u8>,
}

/// What the component is started with, as text: the messages of the machine have a format of their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Start(String);

/// What the component does: it shows the renderings one after the other, one per update, starting again after the last.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    session: usize,
    renders: Vec<Render>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum In {
    /// by the callback of a listener of the rendering shown after `gen` updates
    Event { gen: usize, listener: String, kind: u8, value: Option<String> },
    Outside(usize),
    /// the component sends itself Outside(n)
    Echo(usize),
    Boom,
}

/// What a component leaves behind, as a note.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Trace {
    New,
    Update(In),
    Drop,
}
fn leave(session: usize, t: Trace) {
    note(serde_json::to_string(&(session, t)).unwrap())
}
fn all_traces(sim: &Sim, sessions: usize) -> Vec<Vec<Trace>> {
    let mut all = vec![vec![]; sessions];
    for (s, t) in sim.notes().iter().filter_map(|n| serde_json::from_str::<(usize, Trace)>(n).ok()) {
        all[s].push(t)
    }
    all
}
fn traces(sim: &Sim, session: usize) -> Vec<Trace> {
    sim.notes().iter().filter_map(|n| serde_json::from_str::<(usize, Trace)>(n).ok()).filter(|x| x.0 == session).map(|x| x.1).collect()
}

struct Comp {
    script: Script,
    updates: usize,
}
impl Component<Start, In> for Comp {
    fn new(start: Start, _: &Context<In>) -> Self {
        let mut de = serde_json::Deserializer::from_str(&start.0);
        de.disable_recursion_limit();
        let script: Script = Deserialize::deserialize(&mut de).expect("harness: script");
        leave(script.session, Trace::New);
        Comp { script, updates: 0 }
    }
    fn update(&mut self, input: In, context: &Context<In>) {
        leave(self.script.session, Trace::Update(input.clone()));
        self.updates += 1;
        match input {
            In::Echo(n) => context.process().send(In::Outside(n)),
            In::Boom => panic!("the component fails as told"),
            In::Event { listener, .. } if listener == "boom" => panic!("the component fails as told"),
            _ => {}
        }
    }
    fn render(&self) -> (Element, HashMap<String, Listener<In>>) {
        let r = &self.script.renders[self.updates % self.script.renders.len()];
        let gen = self.updates;
        let calls = r
            .calls
            .iter()
            .map(|(name, kind)| {
                let (n, k) = (name.clone(), *kind);
                // named, or made from a boxed function
                let named = (gen + name.len()) % 2 == 0;
                let l: Listener<In> = match k {
                    CLICK => {
                        let call: Box<dyn Fn(ClickEvent) -> In> = Box::new(move |_| In::Event { gen, listener: n.clone(), kind: k, value: None });
                        if named { Listener::Click { call } } else { call.into() }
                    }
                    SUBMIT => {
                        let call: Box<dyn Fn(SubmitEvent) -> In> = Box::new(move |_| In::Event { gen, listener: n.clone(), kind: k, value: None });
                        if named { Listener::Submit { call } } else { call.into() }
                    }
                    _ => {
                        let call: Box<dyn Fn(InputEvent) -> In> = Box::new(move |e| In::Event { gen, listener: n.clone(), kind: k, value: Some(e.value) });
                        if named { Listener::Input { call } } else { call.into() }
                    }
                };
                let event = ["click", "submit", "input"][k.min(2) as usize];
                assert!(l.js_event() == event, "a listener for {} says it is for {}", event, l.js_event());
                (name.clone(), l)
            })
            .collect();
        (r.tree.element(), calls)
    }
}
impl Drop for Comp {
    fn drop(&mut self) {
        leave(self.script.session, Trace::Drop)
    }
}

/// Sessions in one simulated machine, and a root process that passes on inputs from outside: a line
/// on the control connection is (session, input).
struct World {
    sim: Sim,
    conns: Vec<ConnId>,
    control: ConnId,
    read: std::cell::RefCell<BTreeMap<usize, wire::Texts>>,
}
fn start(scripts: Vec<Script>, before: impl FnOnce(&Sim, &[ConnId])) -> World {
    let sim = Sim::new();
    let conns: Vec<ConnId> = scripts.iter().map(|_| sim.socket()).collect();
    let control = sim.socket();
    before(&sim, &conns);
    let cs = conns.clone();
    sim.spawn_root(move || {
        let mut control: TcpStream = take_stream(control);
        let procs: Vec<Process<In>> = scripts.into_iter().zip(cs).map(|(s, c)| manage::<Comp, Start, In>(Start(serde_json::to_string(&s).unwrap()), WebSocket::new(take_stream(c)))).collect();
        let mut line = vec![];
        let mut b = [0u8; 512];
        loop {
            let n = control.read(&mut b).unwrap_or(0);
            if n == 0 {
                break;
            }
            for c in &b[..n] {
                if *c == b'\n' {
                    let (s, i): (usize, In) = serde_json::from_slice(&line).unwrap();
                    procs[s].send(i);
                    line.clear();
                } else {
                    line.push(*c)
                }
            }
        }
    });
    World { sim, conns, control, read: Default::default() }
}
impl World {
    fn outside(&self, session: usize, i: &In) {
        self.sim.push(self.control, format!("{}\n", serde_json::to_string(&(session, i)).unwrap()).as_bytes())
    }
    fn texts(&self, session: usize) -> Result<std::rc::Rc<Vec<String>>, String> {
        self.read.borrow_mut().entry(session).or_default().update(&self.sim, self.conns[session], 0)
    }
}

fn dom_is(r: &Value, want: &T, what: impl Fn() -> String) -> Result<(), String> {
    match r["dom"].as_array() {
        Some(d) if d.len() == 1 => match difference(&d[0], &page(want), &format!("/{}", want.name)) {
            None => Ok(()),
            Some(m) => Err(format!("{}: {}", what(), m)),
        },
        _ => Err(format!("{}: the body has {} children, expected 1", what(), r["dom"].as_array().map_or(0, |d| d.len()))),
    }
}

fn gen_renders(s: &mut Src, max: usize, calls: impl Fn(&mut Src, &T) -> BTreeMap<String, u8>) -> Vec<Render> {
    let (width, depth) = *s.pick(&[(2, 1), (3, 2), (2, 3), (4, 2), (1, 4)]);
    let mut first = gen_tree(s, width, depth);
    let mode = s.weighted(&[6, 1, 3, 3]);
    assign_ids(s, &mut first, mode);
    let n = s.range(2, max);
    let mut out = vec![Render { calls: calls(s, &first), tree: first }];
    for _ in 1..n {
        s.span(|s| {
            let last = out.last().unwrap().tree.clone();
            let mut next = if s.chance(1, 8) { gen_tree(s, width, depth) } else { gen_edit(s, &last) };
            assign_ids(s, &mut next, if mode == 1 { 0 } else { mode });
            out.push(Render { calls: calls(s, &next), tree: next });
        })
    }
    out
}

// ---------------------------------------------------------------- L02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PageCase {
    renders: Vec<Render>,
    updates: usize,
    /// look at the page after each update, not only at the end
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    settle: bool,
    sched: Sched,
}
fn gen_page(s: &mut Src) -> PageCase {
    let renders = gen_renders(s, 6, |_, _| BTreeMap::new());
    // sometimes the component starts again with its first rendering
    let updates = renders.len() - 1 + if s.chance(1, 4) { s.range(1, 2) } else { 0 };
    PageCase { renders, updates, settle: s.bool(), sched: gen_sched(s) }
}
fn check_page(c: &PageCase) -> Verdict {
    let w = start(vec![Script { session: 0, renders: c.renders.clone() }], |_, _| {});
    let mut ch = Chooser::new(&c.sched);
    let mut go = || -> Result<usize, String> {
        ensure!(w.sim.run(1_000_000, |n| ch.choose(n)) == RunEnd::Idle, "the session is busy for ever");
        if let Some((_, m)) = w.sim.panics().first() {
            return Err(format!("the session panics: {}", m));
        }
        Ok(w.texts(0)?.len())
    };
    // how many messages there are when the page has to show rendering i
    let mut upto: Vec<(usize, usize)> = vec![];
    if c.settle {
        upto.push((0, go()?));
    }
    for i in 0..c.updates {
        w.outside(0, &In::Outside(i));
        if c.settle {
            upto.push((i + 1, go()?));
        }
    }
    if !c.settle {
        let n = go()?;
        if n == c.updates + 1 {
            upto.extend((0..n).map(|i| (i, i + 1)));
        } else {
            upto.push((c.updates, n));
        }
    }
    let texts = w.texts(0)?;
    let ops = texts.iter().enumerate().map(|(i, t)| json!({"m": t, "d": 1, "u": (i == 0) as u8})).collect();
    let res = Page::open().run(ops)?;
    ensure!(upto[0].1 > 0, "the page gets no message");
    ensure!(res[0]["urls"] == json!(["ws://example.org:8080/app/page/ws"]), "the page at http://example.org:8080/app/page/ connects to {}", res[0]["urls"]);
    for (i, r) in res.iter().enumerate() {
        let what = || format!("after message {} {}", i, kit::clip(&texts[i]));
        no_error(r, what)?;
        ensure!(r["sent"].as_array().map_or(false, |s| s.is_empty()), "{}: the page sends {}", what(), r["sent"]);
    }
    for (i, n) in &upto {
        dom_is(&res[n - 1], &c.renders[i % c.renders.len()].tree, || format!("rendering {}, after message {} {}", i, n - 1, kit::clip(&texts[n - 1])))?;
    }
    let shown = |i: usize| &c.renders[i % c.renders.len()].tree;
    let changed = (0..c.updates).any(|i| shown(i) != shown(i + 1));
    let any = |f: &dyn Fn(&T) -> bool| c.renders.iter().any(|r| r.tree.all().into_iter().any(f));
    Ok(Seen::new(changed)
        .label(c.settle, "one update at a time")
        .label(any(&|t| t.attrs.values().any(|v| v.contains('+'))), "plus in an attribute")
        .label(any(&|t| t.text.is_some() && !t.children.is_empty()), "text and children")
        .label(texts.iter().any(|t| t.contains("\"setTagName\"")), "tag name changes")
        .label(texts.iter().any(|t| t.contains("\"setId\"")), "ids change")
        .label(texts.iter().any(|t| t.contains("\"removeText\"")), "text removed")
        .label(texts.iter().any(|t| t.contains("\"removeListeners\"")), "listeners removed")
        .label(texts.iter().any(|t| t.contains("\"removeAttr\"")), "attribute removed")
        .label(texts.iter().any(|t| t.contains("\"deleteEl\"")), "element deleted"))
}
fn el(id: usize, name: &str, text: Option<&str>, children: Vec<T>) -> T {
    T { id, name: name.into(), text: text.map(Into::into), children, ..T::default() }
}
fn fixed_page() -> Vec<PageCase> {
    let trees = vec![
        vec![el(0, "div", Some("a"), vec![el(1, "p", Some("b"), vec![])]), el(0, "div", Some("c"), vec![el(1, "p", Some("b"), vec![])]), el(0, "div", None, vec![el(1, "p", Some("b"), vec![])]), el(0, "p", None, vec![el(1, "p", Some("b"), vec![])])],
        vec![el(0, "div", None, vec![el(1, "p", None, vec![]), el(2, "b", None, vec![])]), el(0, "div", None, vec![el(1, "p", None, vec![el(2, "i", Some("x"), vec![])]), el(3, "b", None, vec![])])],
        vec![el(0, "div", None, vec![]), el(0, "div", Some(""), vec![]), el(0, "div", Some("<b>"), vec![])],
        // more than 9 elements, and one whose id is a prefix of another
        vec![el(0, "div", None, (1..15).map(|i| el(i, "p", Some("t"), vec![])).collect()), el(0, "div", None, (1..3).map(|i| el(i, "p", Some("t"), vec![])).collect())],
    ];
    let mut v: Vec<PageCase> = trees
        .into_iter()
        .map(|ts| PageCase { updates: ts.len() + 1, settle: false, renders: ts.into_iter().map(|tree| Render { tree, calls: BTreeMap::new() }).collect(), sched: Sched { prefix: vec![], tail: 0, stay: 0 } })
        .collect();
    for (k, val) in [("class", "a+b"), ("value", "+"), ("title", ""), ("data-x", "x+y+z"), ("style", "\"<&>\"")] {
        let plain = el(0, "div", None, vec![]);
        let mut with = plain.clone();
        with.attrs.insert(k.into(), val.into());
        let r = |t: &T| Render { tree: t.clone(), calls: BTreeMap::new() };
        v.push(PageCase { renders: vec![r(&plain), r(&with), r(&plain)], updates: 3, settle: true, sched: Sched { prefix: vec![], tail: 0, stay: 0 } });
    }
    v
}

/// Large trees, or many renderings of small ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigPage {
    big: Big,
    updates: usize,
    settle: bool,
    sched: Sched,
}
fn gen_big_page(s: &mut Src) -> BigPage {
    let mut big = gen_big(s, 1000, 150);
    let mut updates = big.edits + s.below(2) as usize;
    if s.chance(1, 4) {
        big.n = big.n.min(s.range(10, 30));
        big.edits = s.range(3, 40);
        updates = s.range(50, 400);
    }
    BigPage { big, updates, settle: s.chance(1, 3), sched: gen_sched(s) }
}
fn check_big_page(c: &BigPage) -> Verdict {
    let renders = c.big.trees().into_iter().map(|tree| Render { tree, calls: BTreeMap::new() }).collect();
    check_page(&PageCase { renders, updates: c.updates, settle: c.settle, sched: c.sched.clone() })?;
    Ok(label_big(&c.big).label(c.updates > 100, "more than 100 renderings"))
}

/// An attribute called id, which a page has only one of.
fn fixed_id_attr() -> Vec<PageCase> {
    let mut a = el(0, "div", None, vec![]);
    a.attrs.insert("id".into(), "main".into());
    let b = T { text: Some("x".into()), ..a.clone() };
    vec![PageCase { renders: vec![a, b].into_iter().map(|tree| Render { tree, calls: BTreeMap::new() }).collect(), updates: 1, settle: false, sched: Sched { prefix: vec![], tail: 0, stay: 0 } }]
}
fn check_id_attr(c: &PageCase) -> Verdict {
    let w = start(vec![Script { session: 0, renders: c.renders.clone() }], |_, _| {});
    for i in 0..c.updates {
        w.outside(0, &In::Outside(i));
    }
    ensure!(w.sim.run(1_000_000, |_| 0) == RunEnd::Idle, "the session is busy for ever");
    let texts = w.texts(0)?;
    let res = Page::open().run(texts.iter().map(|t| json!({"m": t, "d": 1})).collect())?;
    for (i, r) in res.iter().enumerate() {
        no_error(r, || format!("an attribute called id: message {}", i))?;
        let text = r["dom"][0]["text"].as_str().unwrap_or_default();
        ensure!(text == c.renders[i].tree.text.clone().unwrap_or_default(), "an attribute called id: after message {} the text is {:?}", i, text);
    }
    Ok(Seen::new(true))
}

/// The pages an application serves at /app/page/ and /app/page/js.
fn check_served(_: &u8) -> Verdict {
    let mut index = puck_liveview::init::index();
    let ct = |r: &puck::Response| r.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case("content-type")).map(|x| x.1.to_string());
    ensure!(*index.status() == 200 && ct(&index).map_or(false, |c| c.starts_with("text/html")), "the page is answered with {} {:?}", *index.status(), ct(&index));
    let html = index.take_body().into_string().map_err(|e| e.to_string())?;
    let src: Vec<&str> = html.split("<script").skip(1).filter_map(|s| s.split_once("src=")).map(|(_, s)| s.trim_start_matches(['"', '\'']).split(['"', '\'', '>', ' ']).next().unwrap_or("")).collect();
    ensure!(src.len() == 1 && ["./js", "js"].contains(&src[0]), "the page loads the scripts {:?}, expected ./js", src);
    let js = puck_liveview::init::js();
    ensure!(*js.status() == 200 && ct(&js).map_or(false, |c| c.contains("javascript")), "the script is answered with {} {:?}", *js.status(), ct(&js));
    let r = Page::open().run(vec![json!({"u": 1, "d": 1})])?;
    ensure!(r[0]["dom"] == json!([]) && r[0]["urls"].as_array().map(|u| u.len()) == Some(1), "the script alone makes {} and connects to {}", r[0]["dom"], r[0]["urls"]);
    Ok(Seen::new(true))
}

// ---------------------------------------------------------------- L03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// an event on some element; preferably one that listens to it
    Fire { pick: usize, event: u8, value: String, aim: bool },
    Raw(Raw),
    Outside,
    Echo,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw {
    Unknown(String),
    /// a known listener by its number among the callbacks, with or without a value
    Known(usize, Option<String>),
    Text(String),
    Binary(kit::Bytes),
    Ping,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct EventCase {
    renders: Vec<Render>,
    acts: Vec<Act>,
    /// wait until everything is done after each act
    settle: bool,
    sched: Sched,
}

fn gen_calls(s: &mut Src, t: &T) -> BTreeMap<String, u8> {
    let mut m = BTreeMap::new();
    for n in t.all() {
        for (l, e) in &n.listeners {
            // usually the callback fits the event; sometimes there is none, or one of another kind
            match s.weighted(&[8, 1, 1]) {
                0 => {
                    m.insert(l.clone(), EVENTS.iter().position(|x| x == e).map(|p| [CLICK, INPUT, SUBMIT][p]).unwrap());
                }
                1 => {}
                _ => {
                    m.insert(l.clone(), s.below(3) as u8);
                }
            }
        }
    }
    if s.chance(1, 3) {
        m.insert(gen_listener_name(s), s.below(3) as u8);
    }
    m
}

fn gen_events(s: &mut Src) -> EventCase {
    let settle = s.chance(3, 5);
    let mut renders = gen_renders(s, 5, |s, t| if settle { gen_calls(s, t) } else { BTreeMap::new() });
    if !settle {
        // the callbacks do not depend on the rendering, so that it does not matter when a message arrives
        let mut all = BTreeMap::new();
        for r in &renders {
            all.extend(gen_calls(s, &r.tree))
        }
        renders.iter_mut().for_each(|r| r.calls = all.clone());
    }
    let acts = s.vec(1, 8, |s| match s.weighted(&[8, 3, 2, 1]) {
        0 => Act::Fire { pick: s.below(40) as usize, event: s.weighted(&[4, 3, 2]) as u8, value: gen_value(s), aim: s.chance(4, 5) },
        1 => Act::Raw(match s.below(8) {
            0 => Raw::Unknown(s.pick(&["nobody", "", "L0", "l0 "]).to_string()),
            1 | 2 => Raw::Known(s.below(8) as usize, None),
            3 | 4 => Raw::Known(s.below(8) as usize, Some(gen_value(s))),
            5 => Raw::Text(s.pick(&["", "{", "null", "[]", "17", "\"l0\"", "{\"payload\":{\"value\":\"x\"}}", "{\"listener\":null}", "{\"listener\":7}", "{\"listener\":\"l0\",\"payload\":7}", "{\"listener\":\"l0\",\"payload\":{\"value\":7}}", "{\"listener\":\"l0\"", "{\"listener\":\"l0\",\"payload\":{}}", "l0"]).to_string()),
            6 => Raw::Binary(s.pick(&[&b"{\"listener\":\"l0\"}"[..], b"", b"\xff\xfe"]).to_vec().into()),
            _ => Raw::Ping,
        }),
        2 => Act::Outside,
        _ => Act::Echo,
    });
    EventCase { renders, acts, settle, sched: gen_sched(s) }
}

/// The elements of a tree with their ancestors, innermost first, in document order.
fn paths(t: &T) -> Vec<Vec<&T>> {
    fn go<'a>(t: &'a T, up: &[&'a T], out: &mut Vec<Vec<&'a T>>) {
        let mut p = vec![t];
        p.extend(up);
        out.push(p.clone());
        for c in &t.children {
            go(c, &p, out)
        }
    }
    let mut v = vec![];
    go(t, &[], &mut v);
    v
}
/// What `e.target.value` is: only inputs and selects have one that an event sets.
fn holds_value(t: &T) -> Option<bool> {
    match &t.name[..] {
        "input" | "select" => Some(true),
        "button" | "option" => None,
        _ => Some(false),
    }
}

struct Model<'a> {
    c: &'a EventCase,
    /// messages the server must act on, in order (settle: all, else from the page only)
    expected: Vec<In>,
    outside: Vec<In>,
    echoes: Vec<usize>,
    updates: usize,
    pings: usize,
    fired: usize,
    bubbled: bool,
    ignored: bool,
}
impl Model<'_> {
    fn calls(&self) -> &BTreeMap<String, u8> {
        &self.c.renders[self.updates % self.c.renders.len()].calls
    }
    /// The server receives a well-formed message.
    fn message(&mut self, listener: &str, value: Option<&str>) {
        let gen = self.updates;
        match self.calls().get(listener).copied() {
            Some(INPUT) => match value {
                Some(v) => self.update(In::Event { gen, listener: listener.into(), kind: INPUT, value: Some(v.into()) }),
                None => self.ignored = true,
            },
            Some(k) => self.update(In::Event { gen, listener: listener.into(), kind: k, value: None }),
            None => self.ignored = true,
        }
    }
    fn update(&mut self, i: In) {
        self.expected.push(i);
        self.updates += 1;
    }
}

fn check_events(c: &EventCase) -> Verdict {
    let w = start(vec![Script { session: 0, renders: c.renders.clone() }], |_, _| {});
    let conn = w.conns[0];
    let mut pg = Page::open();
    let mut m = Model { c, expected: vec![], outside: vec![], echoes: vec![], updates: 0, pings: 0, fired: 0, bubbled: false, ignored: false };
    let mut delivered = 0;
    let n = c.renders.len();
    // hand `k` waiting messages to the page
    let deliver = |delivered: &mut usize, all: bool, pg: &mut Page| -> Result<(), String> {
        let texts = w.texts(0)?;
        let to = if all { texts.len() } else { texts.len().min(*delivered + 1) };
        if to > *delivered {
            let ops = texts[*delivered..to].iter().map(|t| json!({ "m": t })).collect();
            for r in pg.run(ops)? {
                no_error(&r, || format!("executing message {} {}", *delivered, kit::clip(&texts[*delivered])))?;
                *delivered += 1;
            }
        }
        Ok(())
    };
    let act = |a: &Act, i: usize, delivered: usize, m: &mut Model, pg: &mut Page| -> Result<(), String> {
        match a {
            Act::Fire { pick, event, value, aim } => {
                if delivered == 0 {
                    return Ok(());
                }
                let shown = &c.renders[(delivered - 1) % n].tree;
                let ps = paths(shown);
                let ev = EVENTS[*event as usize];
                let usable = |p: &Vec<&T>| ev != "input" || holds_value(p[0]).is_some();
                let aimed: Vec<usize> = (0..ps.len()).filter(|i| usable(&ps[*i]) && ps[*i][0].listeners.iter().any(|l| l.1 == ev)).collect();
                let rest: Vec<usize> = (0..ps.len()).filter(|i| usable(&ps[*i])).collect();
                let from = if *aim && !aimed.is_empty() { aimed } else { rest };
                if from.is_empty() {
                    return Ok(());
                }
                let at = from[pick % from.len()];
                let target = ps[at][0];
                let mut op = json!({"f": at, "e": ev});
                let has = ev == "input" && holds_value(target) == Some(true);
                if has {
                    op["v"] = json!(value);
                }
                let r = pg.run(vec![op])?.remove(0);
                let what = || format!("act {}: {} on element {} ({}) of the page", i, ev, target.id, target.name);
                no_error(&r, what)?;
                let want: Vec<&str> = ps[at].iter().flat_map(|t| t.listeners.iter()).filter(|l| l.1 == ev).map(|l| &l.0[..]).collect();
                m.bubbled |= ps[at][1..].iter().any(|t| t.listeners.iter().any(|l| l.1 == ev));
                let sent = r["sent"].as_array().cloned().unwrap_or_default();
                ensure!(sent.len() == want.len(), "{} sends {} messages, expected {}: {}", what(), sent.len(), want.len(), kit::clip(&r["sent"].to_string()));
                for (s, l) in sent.iter().zip(&want) {
                    let msg = s.as_str().map(|s| s.to_string());
                    let js: Value = msg.as_ref().and_then(|m| serde_json::from_str(m).ok()).unwrap_or_default();
                    ensure!(js["listener"].as_str() == Some(*l), "{} sends {}, expected one for {:?}", what(), s, l);
                    let v = js["payload"]["value"].as_str();
                    if has {
                        ensure!(v == Some(&value[..]), "{} sends {} for the value {:?}", what(), s, value);
                    } else if ev == "input" {
                        ensure!(v.is_none(), "{} sends a value that is not there: {}", what(), s);
                    }
                    w.sim.push(conn, &wire::text(&msg.unwrap()));
                    m.fired += 1;
                    if ev == "input" && !has {
                        m.ignored = true; // the message has no value, so it is none of any kind
                    } else {
                        m.message(l, v);
                    }
                }
            }
            Act::Raw(r) => match r {
                Raw::Unknown(l) => {
                    w.sim.push(conn, &wire::text(&json!({ "listener": l }).to_string()));
                    m.message(l, None);
                }
                Raw::Known(k, v) => {
                    let names: Vec<String> = m.calls().keys().cloned().collect();
                    if !names.is_empty() {
                        let l = &names[k % names.len()];
                        let msg = match v {
                            Some(v) => json!({"listener": l, "payload": {"value": v}}),
                            None => json!({ "listener": l }),
                        };
                        w.sim.push(conn, &wire::text(&msg.to_string()));
                        m.message(l, v.as_deref());
                    }
                }
                Raw::Text(t) => {
                    w.sim.push(conn, &wire::text(t));
                    m.ignored = true;
                }
                Raw::Binary(b) => {
                    w.sim.push(conn, &wire::frame(0x82, Some([9, 8, 7, 6]), b));
                    m.ignored = true;
                }
                Raw::Ping => {
                    w.sim.push(conn, &wire::frame(0x89, Some([1, 2, 3, 4]), b"ping"));
                    m.pings += 1;
                }
            },
            Act::Outside => {
                w.outside(0, &In::Outside(i));
                m.outside.push(In::Outside(i));
                if c.settle {
                    m.update(In::Outside(i))
                }
            }
            Act::Echo => {
                w.outside(0, &In::Echo(i));
                m.outside.push(In::Echo(i));
                m.echoes.push(1000 + i);
                if c.settle {
                    m.update(In::Echo(i));
                    m.update(In::Outside(i));
                }
            }
        }
        Ok(())
    };
    let mut budget = 2_000_000u64;
    let mut ch = Chooser::new(&c.sched);
    if c.settle {
        ensure!(w.sim.run(budget, |n| ch.choose(n)) == RunEnd::Idle, "the session is busy for ever");
        deliver(&mut delivered, true, &mut pg)?;
        for (i, a) in c.acts.iter().enumerate() {
            act(a, i, delivered, &mut m, &mut pg)?;
            ensure!(w.sim.run(budget, |n| ch.choose(n)) == RunEnd::Idle, "act {}: the session is busy for ever", i);
            let texts = w.texts(0)?;
            ensure!(texts.len() == m.updates + 1, "act {} {:?}: {} messages to the page so far, expected {}", i, a, texts.len(), m.updates + 1);
            deliver(&mut delivered, true, &mut pg)?;
        }
    } else {
        // acts, deliveries to the page and processes in any order
        let mut acts: VecDeque<(usize, &Act)> = c.acts.iter().enumerate().collect();
        loop {
            let run = w.sim.runnable();
            let waiting = w.texts(0)?.len() > delivered;
            let mut options = run.len();
            let a_at = options;
            options += !acts.is_empty() as usize;
            let d_at = options;
            options += waiting as usize;
            // everybody may also wait until something times out
            let late = run.is_empty() && w.sim.timer_pending();
            options += late as usize;
            if options == 0 {
                break;
            }
            ensure!(budget > 0, "the session is busy for ever");
            budget -= 1;
            let k = ch.choose(options);
            if k < run.len() {
                w.sim.step_pid(run[k])
            } else if late && k == options - 1 {
                w.sim.advance_clock();
            } else if k == a_at && !acts.is_empty() {
                let (i, a) = acts.pop_front().unwrap();
                act(a, i, delivered, &mut m, &mut pg)?;
            } else {
                let _ = d_at;
                deliver(&mut delivered, false, &mut pg)?;
            }
        }
    }
    if let Some((_, p)) = w.sim.panics().first() {
        return Err(format!("the session panics: {}", p));
    }
    let updates: Vec<In> = traces(&w.sim, 0).into_iter().filter_map(|t| if let Trace::Update(i) = t { Some(i) } else { None }).collect();
    if c.settle {
        ensure_eq!(updates, m.expected, "updates of the component");
    } else {
        let events: Vec<In> = updates.iter().filter(|u| matches!(u, In::Event { .. })).cloned().collect();
        let strip = |v: &[In]| -> Vec<In> { v.iter().map(|e| if let In::Event { listener, kind, value, .. } = e { In::Event { gen: 0, listener: listener.clone(), kind: *kind, value: value.clone() } } else { e.clone() }).collect() };
        ensure_eq!(strip(&events), strip(&m.expected), "updates by the page's messages");
        for (i, u) in updates.iter().enumerate() {
            if let In::Event { gen, .. } = u {
                ensure!(*gen == i, "update {} is by a callback of the rendering after {} updates: {:?}", i, gen, u);
            }
        }
        // inputs from elsewhere: those sent by the root in its order, each echo once and after its cause
        let echoed: Vec<usize> = m.echoes.iter().map(|e| e - 1000).collect();
        let root: Vec<In> = updates.iter().filter(|u| matches!(u, In::Echo(_)) || matches!(u, In::Outside(k) if !echoed.contains(k))).cloned().collect();
        ensure_eq!(root, m.outside, "inputs from elsewhere");
        for e in echoed {
            let cause = updates.iter().position(|u| *u == In::Echo(e));
            let at: Vec<usize> = updates.iter().enumerate().filter(|(_, u)| **u == In::Outside(e)).map(|x| x.0).collect();
            ensure!(at.len() == 1 && Some(at[0]) > cause, "the input the component sends itself is applied {} times", at.len());
        }
    }
    let texts = w.texts(0)?;
    ensure!(texts.len() == updates.len() + 1, "{} messages to the page for {} updates", texts.len(), updates.len());
    ensure!(delivered == texts.len(), "harness: undelivered messages");
    let (frames, rest) = wire::parse(&w.sim.output(conn))?;
    ensure!(rest == w.sim.output_len(conn), "the server's bytes end inside a frame");
    ensure_eq!(frames.iter().filter(|f| f.0 == 10 && f.1 == b"ping").count(), m.pings, "pongs");
    ensure_eq!(frames.len(), texts.len() + m.pings, "messages of the server");
    let r = pg.run(vec![json!({"d": 1})])?.remove(0);
    dom_is(&r, &c.renders[updates.len() % n].tree, || "at the end".into())?;
    Ok(Seen::new(!updates.is_empty())
        .label(m.fired > 0, "events of the page")
        .label(m.fired > 1, "several events of the page")
        .label(m.bubbled, "listeners on an ancestor")
        .label(m.ignored, "messages without effect")
        .label(!m.outside.is_empty() && updates.len() > m.outside.len(), "events and inputs from elsewhere")
        .label(!c.settle, "pipelined"))
}

/// Large trees, long values, or long histories of events.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigEvents {
    big: Big,
    acts: usize,
    /// texts typed into inputs are up to this long
    long: usize,
    settle: bool,
    sched: Sched,
}
fn gen_big_events(s: &mut Src) -> BigEvents {
    let mut big = gen_big(s, 500, 100);
    if big.shape == Shape::Listeners {
        big.n = big.n.min(500)
    }
    let mut acts = s.range(1, 12);
    if s.chance(1, 3) {
        big.n = big.n.min(s.range(10, 60));
        acts = s.range(50, 400);
    }
    if big.shape == Shape::Long && s.bool() {
        big.shape = Shape::Mixed;
        big.n = big.n.min(400);
    }
    BigEvents { big, acts, long: if acts < 50 { s.range(10, 100_000) } else { 20 }, settle: s.bool(), sched: gen_sched(s) }
}
fn check_big_events(c: &BigEvents) -> Verdict {
    let mut rng = kit::Rng::new(c.big.salt + 1);
    let mut calls = BTreeMap::new();
    let mut trees = c.big.trees();
    for t in &mut trees {
        t.each(&mut |t| {
            if t.listeners.iter().any(|l| l.1 == "input") && t.children.is_empty() && rng.below(2) == 0 {
                t.name = "input".into();
                t.text = None;
            }
            for (n, e) in &t.listeners {
                calls.insert(n.clone(), EVENTS.iter().position(|x| x == e).map(|p| [CLICK, INPUT, SUBMIT][p]).unwrap());
            }
        })
    }
    let acts = (0..c.acts)
        .map(|i| match rng.below(10) {
            0 => Act::Outside,
            1 => Act::Echo,
            2 => Act::Raw(Raw::Known(rng.below(1000) as usize, Some("v".into()))),
            3 => Act::Raw(Raw::Ping),
            4 => Act::Raw(Raw::Text("junk".into())),
            _ => {
                let n = rng.below(c.long as u64 + 1) as usize;
                Act::Fire { pick: rng.below(1 << 20) as usize, event: rng.below(3) as u8, value: format!("{}{}", i, WILD.iter().cycle().skip(i).take(n).filter(|c| **c != '\n').collect::<String>()), aim: true }
            }
        })
        .collect();
    let renders = trees.into_iter().map(|tree| Render { tree, calls: calls.clone() }).collect();
    check_events(&EventCase { renders, acts, settle: c.settle, sched: c.sched.clone() })?;
    Ok(label_big(&c.big).label(c.acts > 100, "more than 100 events").label(c.long > 50_000, "values over 50 kB"))
}

// ---------------------------------------------------------------- L05

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Cl {
    /// known listener with a number as its value
    Event(usize),
    Ping,
    Junk,
    Outside(usize),
    Boom,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fin {
    Stay,
    Close,
    Eof,
    /// the stream ends after this many bytes of a frame
    EofInside(usize),
    Reset,
    Violation(u8),
    /// writing fails from now on, and the client is silent, then gone
    HalfDead,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessionCase {
    renders: Vec<Render>,
    acts: Vec<Cl>,
    fin: Fin,
    /// what the client goes on sending
    after: Vec<Cl>,
    /// put into one write with the end
    glued: bool,
    /// after so many steps the client takes nothing, for so many steps
    #[serde(default, skip_serializing_if = "Option::is_none")]
    hold: Option<(usize, usize)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LifeCase {
    sessions: Vec<SessionCase>,
    cuts: Vec<usize>,
    sched: Sched,
}
fn gen_life(s: &mut Src) -> LifeCase {
    gen_lives(s, (1, 3), 8)
}
/// Many sessions, or long ones.
fn gen_many_lives(s: &mut Src) -> LifeCase {
    let (sessions, acts) = *s.pick(&[((10, 40), 6), ((20, 150), 3), ((1, 2), 100), ((1, 2), 600), ((2, 4), 100)]);
    gen_lives(s, sessions, acts)
}
fn gen_lives(s: &mut Src, sessions: (usize, usize), most: usize) -> LifeCase {
    let mut k = 0;
    let sessions = s.vec(sessions.0, sessions.1, |s| {
        let mut renders = gen_renders(s, 3, |_, _| BTreeMap::new());
        for r in &mut renders {
            r.calls = [("go".to_string(), INPUT), ("boom".to_string(), CLICK)].into_iter().collect();
        }
        let mut cl = |s: &mut Src| {
            k += 1;
            match s.weighted(&[6, 2, 1, 3, 0]) {
                0 => Cl::Event(k),
                1 => Cl::Ping,
                2 => Cl::Junk,
                3 => Cl::Outside(k),
                _ => Cl::Boom,
            }
        };
        let mut acts = s.vec(if most > 50 { most / 2 } else { 0 }, most, &mut cl);
        let fin = match s.weighted(&[2, 3, 3, 2, 2, 4, 1]) {
            0 => Fin::Stay,
            1 => Fin::Close,
            2 => Fin::Eof,
            3 => Fin::EofInside(s.range(1, 12)),
            4 => Fin::Reset,
            5 => Fin::Violation(s.below(7) as u8),
            _ => Fin::HalfDead,
        };
        let after = if s.bool() { s.vec(0, 4, &mut cl) } else { vec![] };
        if s.chance(1, 10) {
            acts.push(Cl::Boom)
        }
        SessionCase { renders, acts, fin, after, glued: s.bool(), hold: if s.chance(1, 6) { Some((s.range(0, 6), s.range(1, 12))) } else { None } }
    });
    LifeCase { sessions, cuts: if s.bool() { vec![] } else { s.vec(1, 4, |s| s.range(1, 30)) }, sched: gen_sched(s) }
}
fn violation(k: u8) -> Vec<u8> {
    let m = Some([5, 6, 7, 8]);
    match k {
        0 => wire::frame(0x81, None, b"{\"listener\":\"go\"}"),
        1 => wire::frame(0x83, m, b"x"),
        2 => wire::frame(0xc1, m, b"x"),
        3 => wire::frame(0x80, m, b"x"),
        4 => wire::frame(0x81, m, b"\xff\xfe"),
        5 => {
            let mut v = wire::frame(0x01, m, b"{");
            v.extend(wire::frame(0x81, m, b"}"));
            v
        }
        _ => wire::frame(0x8b, m, b""),
    }
}
enum Step {
    Push(Vec<u8>),
    Outside(In),
    Eof,
    Reset,
    WriteFail,
    Hold(bool),
}
fn event(k: usize) -> Vec<u8> {
    wire::text(&json!({"listener": "go", "payload": {"value": k.to_string()}}).to_string())
}
fn steps(acts: &[Cl], out: &mut VecDeque<Step>) {
    for a in acts {
        out.push_back(match a {
            Cl::Event(k) => Step::Push(event(*k)),
            Cl::Ping => Step::Push(wire::frame(0x89, Some([1, 2, 3, 4]), b"!p")),
            Cl::Junk => Step::Push(wire::text("{\"listener\":\"nobody\"}")),
            Cl::Outside(k) => Step::Outside(In::Outside(*k)),
            Cl::Boom => Step::Push(wire::text("{\"listener\":\"boom\"}")),
        })
    }
}

fn check_life(c: &LifeCase) -> Verdict {
    let scripts = c.sessions.iter().enumerate().map(|(i, s)| Script { session: i, renders: s.renders.clone() }).collect();
    let w = start(scripts, |sim, conns| conns.iter().for_each(|x| sim.read_limits(*x, c.cuts.clone())));
    let mut queues: Vec<VecDeque<Step>> = vec![];
    for s in &c.sessions {
        let mut q = VecDeque::new();
        steps(&s.acts, &mut q);
        let end = match &s.fin {
            Fin::Close => wire::frame(0x88, Some([1, 1, 2, 2]), b"\x03\xe8"),
            Fin::Violation(k) => violation(*k),
            Fin::EofInside(n) => {
                let f = event(0);
                f[..(*n).min(f.len() - 1)].to_vec()
            }
            _ => vec![],
        };
        if !end.is_empty() {
            match q.back_mut() {
                Some(Step::Push(p)) if s.glued => p.extend(end),
                _ => q.push_back(Step::Push(end)),
            }
        }
        match s.fin {
            Fin::Eof | Fin::EofInside(_) => q.push_back(Step::Eof),
            Fin::Reset => q.push_back(Step::Reset),
            Fin::HalfDead => {
                q.push_back(Step::WriteFail);
                q.push_back(Step::Push(event(0)));
                q.push_back(Step::Eof);
            }
            Fin::Close | Fin::Violation(_) => steps(&s.after, &mut q),
            Fin::Stay => {}
        }
        if let Some((from, n)) = s.hold {
            let from = from % (q.len() + 1);
            q.insert((from + n).min(q.len()), Step::Hold(false));
            q.insert(from, Step::Hold(true));
        }
        queues.push(q);
    }
    let work: usize = c.sessions.iter().map(|s| 10 + s.acts.len()).sum();
    let end = drive(&w.sim, &c.sched, 400_000 + 10_000 * work as u64, queues, |sim, i, step| match step {
        Step::Push(b) => sim.push(w.conns[i], &b),
        Step::Outside(x) => w.outside(i, &x),
        Step::Eof => sim.eof(w.conns[i]),
        Step::Reset => sim.reset(w.conns[i]),
        Step::Hold(h) => sim.hold(w.conns[i], h),
        Step::WriteFail => sim.write_fail_after(w.conns[i], sim.output_len(w.conns[i])),
    });
    ensure!(end == RunEnd::Idle, "the sessions are busy for ever ({} messages queued, processes {:?})", w.sim.queued(), w.sim.states());
    ensure!(w.sim.queued() == 0, "{} messages lie in mailboxes", w.sim.queued());
    let mut seen = Seen::new(c.sessions.iter().any(|s| s.fin != Fin::Stay && !s.acts.is_empty()));
    let consumed: Vec<usize> = w.conns.iter().map(|x| w.sim.consumed(*x)).collect();
    let all = all_traces(&w.sim, c.sessions.len());
    for (i, s) in c.sessions.iter().enumerate() {
        let conn = w.conns[i];
        let who = |m: String| format!("session {} ({:?}): {}", i, s.fin, m);
        let tr = &all[i];
        ensure!(tr.first() == Some(&Trace::New) && tr.iter().filter(|t| **t == Trace::New).count() == 1, "{}", who(format!("starts with {:?}", tr.first())));
        let drops = tr.iter().filter(|t| **t == Trace::Drop).count();
        let updates: Vec<&In> = tr.iter().filter_map(|t| if let Trace::Update(u) = t { Some(u) } else { None }).collect();
        let boom = s.acts.contains(&Cl::Boom);
        let want_events: Vec<String> = s.acts.iter().filter_map(|a| if let Cl::Event(k) = a { Some(k.to_string()) } else { None }).collect();
        let events: Vec<String> = updates.iter().filter_map(|u| if let In::Event { value: Some(v), .. } = u { Some(v.clone()) } else { None }).collect();
        let (frames, rest) = wire::parse(&w.sim.output(conn)).map_err(&who)?;
        ensure!(w.sim.zero_reads(conn) <= 8, "{}", who(format!("reads the ended connection {} times", w.sim.zero_reads(conn))));
        if boom {
            seen = seen.label(true, "component fails");
        }
        let lossy = matches!(s.fin, Fin::Reset | Fin::HalfDead);
        let texts: Vec<String> = frames.iter().filter(|f| f.0 == 1).map(|f| String::from_utf8_lossy(&f.1).to_string()).collect();
        if !boom {
            if lossy {
                let mut want = want_events.clone();
                want.push("0".into());
                ensure!(want.starts_with(&events), "{}", who(format!("handles {:?}, expected the first of {:?}", events, want)));
            } else {
                ensure!(events == want_events, "{}", who(format!("handles the events {:?}, expected {:?}", events, want_events)));
                ensure!(rest == w.sim.output_len(conn), "{}", who("the server's bytes end inside a frame".into()));
                let pongs = frames.iter().filter(|f| f.0 == 10).count();
                ensure!(pongs == s.acts.iter().filter(|a| **a == Cl::Ping).count(), "{}", who(format!("{} pongs", pongs)));
                let closes = frames.iter().filter(|f| f.0 == 8).count();
                match s.fin {
                    Fin::Close => ensure!(closes == 1, "{}", who(format!("{} close frames", closes))),
                    Fin::Stay => ensure!(closes == 0, "{}", who("is closed".into())),
                    _ => {}
                }
            }
            // what comes from outside
            let sent: Vec<usize> = s.acts.iter().chain(if matches!(s.fin, Fin::Close | Fin::Violation(_)) { &s.after[..] } else { &[] }).filter_map(|a| if let Cl::Outside(k) = a { Some(*k) } else { None }).collect();
            let got: Vec<usize> = updates.iter().filter_map(|u| if let In::Outside(k) = u { Some(*k) } else { None }).collect();
            ensure!(sent.starts_with(&got), "{}", who(format!("inputs {:?} of {:?}", got, sent)));
            ensure!(updates.len() == events.len() + got.len(), "{}", who(format!("updates {:?}", updates)));
            for (k, u) in updates.iter().enumerate() {
                if let In::Event { gen, .. } = u {
                    ensure!(*gen == k, "{}", who(format!("update {} by a callback of the rendering after {} updates", k, gen)));
                }
            }
            if s.fin == Fin::Stay {
                ensure!(got == sent, "{}", who(format!("inputs {:?}, expected {:?}", got, sent)));
                ensure!(drops == 0 && !w.sim.server_closed(conn), "{}", who("ended".into()));
                ensure!(consumed[i] > 0 || s.acts.iter().all(|a| matches!(a, Cl::Outside(_))), "{}", who("does not read".into()));
            }
            if !lossy {
                let mut ops: Vec<Value> = texts.iter().map(|t| json!({ "m": t })).collect();
                ops.push(json!({"d": 1}));
                let rs = Page::open().run(ops)?;
                for r in &rs {
                    no_error(r, || who("the page".into()))?;
                }
                dom_is(rs.last().unwrap(), &s.renders[updates.len() % s.renders.len()].tree, || who("the page".into()))?;
            }
        }
        if s.fin != Fin::Stay {
            ensure!(drops == 1, "{}", who(format!("the component is dropped {} times", drops)));
            ensure!(w.sim.server_closed(conn), "{}", who(format!("a process still holds the connection: {:?}", w.sim.states())));
        }
        seen = seen
            .label(s.fin == Fin::Close, "close frame")
            .label(matches!(s.fin, Fin::Eof | Fin::EofInside(_)), "disconnect")
            .label(s.hold.is_some(), "takes nothing for a while")
            .label(s.fin == Fin::Reset, "reset")
            .label(matches!(s.fin, Fin::Violation(_)), "violation")
            .label(s.fin == Fin::Stay && c.sessions.len() > 1, "session that stays beside others");
    }
    for p in w.sim.panics() {
        // a client that is gone before the first rendering is sent may end the session in any way
        let told = p.1.contains("fails as told");
        ensure!(told || c.sessions.iter().any(|s| matches!(s.fin, Fin::Reset | Fin::HalfDead)), "a session panics: {}", p.1);
    }
    // whatever comes later changes nothing for the sessions that have ended, and is seen by the others
    let before: Vec<usize> = all.iter().map(|t| t.len()).collect();
    for (i, _) in c.sessions.iter().enumerate() {
        w.sim.push(w.conns[i], &event(9999));
        for _ in 0..5 {
            w.outside(i, &In::Outside(9999));
        }
    }
    ensure!(w.sim.run(100_000 + 10_000 * c.sessions.len() as u64, |_| 0) == RunEnd::Idle, "later messages keep the sessions busy for ever");
    ensure!(w.sim.queued() == 0, "{} later messages lie in mailboxes", w.sim.queued());
    let all = all_traces(&w.sim, c.sessions.len());
    for (i, s) in c.sessions.iter().enumerate() {
        let tr = &all[i];
        if s.fin != Fin::Stay {
            ensure!(tr.len() == before[i], "session {} ({:?}) handles messages after its end: {:?}", i, s.fin, &tr[before[i]..]);
            ensure!(w.sim.consumed(w.conns[i]) == consumed[i], "session {} ({:?}) reads after its end", i, s.fin);
        } else if !s.acts.contains(&Cl::Boom) {
            ensure!(tr.len() == before[i] + 6, "session {} handles {} of 6 later messages", i, tr.len() - before[i]);
        }
    }
    // only processes that wait for messages are left, apart from sessions that go on
    for (p, st) in w.sim.states() {
        ensure!(!matches!(w.sim.exit_of(p), Some(Exit::Normal)), "harness");
        ensure!(!st.starts_with("Sleep") && !st.starts_with("Ready"), "process {} is {}", p, st);
    }
    Ok(seen)
}

pub fn props() -> Vec<Prop> {
    const DOM: &str = "the page is the script served by puck_liveview::init::js, run by node on the DOM model lv/dom/dom.js";
    vec![
        Prop {
            id: "L02",
            assumptions: &[DOM, "trees without keys and with unique ids; attribute names are valid, lower case and not id (see the known finding)"],
            parts: vec![
                Part::new("page", "two neighbouring renderings differ", 16_000, 400_000, gen_page, fixed_page, check_page),
                Part::new("large", "always: 10 to 1000 elements, attributes or listeners, long texts, or up to 400 renderings", 400, 12_000, gen_big_page, Vec::new, check_big_page),
                Part::new("id attribute", "always", 0, 0, |_| fixed_id_attr().remove(0), fixed_id_attr, check_id_attr),
                Part::new("served", "always", 0, 0, |_| 0u8, || vec![0u8], check_served),
            ],
        },
        Prop {
            id: "L03",
            assumptions: &[DOM, "events bubble"],
            parts: vec![Part::new("events", "the component is updated", 12_000, 300_000, gen_events, Vec::new, check_events), Part::new("large", "always: up to 500 elements or listeners, up to 400 events, or values up to 100 kB", 400, 12_000, gen_big_events, Vec::new, check_big_events)],
        },
        Prop {
            id: "L05",
            assumptions: &[DOM, "a reset may swallow what was sent before it"],
            parts: vec![
                Part::new("life", "a session with activity ends", 25_000, 600_000, gen_life, Vec::new, check_life),
                Part::new("crowds", "a session with activity ends", 200, 5_000, gen_many_lives, Vec::new, |c| {
                    check_life(c).map(|s| s.label(c.sessions.len() > 30, "over 30 sessions").label(c.sessions.iter().any(|s| s.acts.len() > 200), "over 200 messages"))
                }),
            ],
        },
    ]
}
