//! L04: wrapped HTML nodes become elements.
use crate::tree::{gen_listener_name, gen_value, EVENTS, ODD_EVENTS};
use kit::{ensure, Part, Prop, Seen, Src, Verdict};
use malvolio::prelude::*;
use malvolio::tags::noscript::NoScript;
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::ListenerRef;
use puck_liveview::html::id::IdGen;
use puck_liveview::html::{IntoWrappedBodyNode, WrappedBodyNode};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const TAGS: [&str; 16] = ["div", "p", "form", "select", "h1", "h2", "h3", "h4", "h5", "h6", "label", "a", "input", "img", "br", "noscript"];
const PARENTS: [&str; 4] = ["div", "p", "form", "select"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct N {
    tag: String,
    text: String,
    attrs: BTreeMap<String, String>,
    listeners: Vec<(String, String)>,
    children: Vec<N>,
    /// children given one by one up to here, the rest together
    one_by_one: usize,
}
impl N {
    fn has_text(&self) -> bool {
        !["div", "form", "select", "input", "img", "br"].contains(&&self.tag[..])
    }
    fn parent(&self) -> bool {
        PARENTS.contains(&&self.tag[..])
    }
    fn wrap(&self) -> WrappedBodyNode {
        let t = self.text.clone();
        macro_rules! with {
            ($n:expr) => {{
                let mut n = $n;
                for (k, v) in &self.attrs {
                    n = n.raw_attribute(k.clone(), v.clone());
                }
                n.wrap()
            }};
        }
        let mut w = match &self.tag[..] {
            "div" => with!(Div::new()),
            "p" => with!(P::with_text(t)),
            "form" => with!(Form::new()),
            "select" => with!(Select::new()),
            "h1" => with!(H1::new(t)),
            "h2" => with!(H2::new(t)),
            "h3" => with!(H3::new(t)),
            "h4" => with!(H4::new(t)),
            "h5" => with!(H5::new(t)),
            "h6" => with!(H6::new(t)),
            "label" => with!(Label::new(t)),
            "a" => with!(A::with_text(t)),
            "input" => with!(Input::new()),
            "img" => with!(Img::new()),
            "br" => Br.wrap(),
            _ => NoScript::new(t).wrap(),
        };
        for (l, e) in &self.listeners {
            w = w.listener(ListenerRef::new(l, e));
        }
        let k = self.one_by_one.min(self.children.len());
        for c in &self.children[..k] {
            w = w.child(c.wrap());
        }
        w.children(self.children[k..].iter().map(N::wrap))
    }
    fn count(&self) -> usize {
        1 + if self.parent() { self.children.iter().map(N::count).sum() } else { 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// converted one after the other with one generator
    trees: Vec<N>,
}

fn gen_n(s: &mut Src, width: usize, depth: usize) -> N {
    s.span(|s| {
        let tag = if depth > 0 && s.bool() { s.pick(&PARENTS).to_string() } else { s.pick(&TAGS).to_string() };
        let bare = ["br", "noscript"].contains(&&tag[..]);
        let mut attrs = BTreeMap::new();
        let mut listeners = vec![];
        if !bare {
            if s.bool() {
                for _ in 0..s.range(1, 3) {
                    attrs.insert(s.pick(&["class", "id", "style", "type", "value", "href", "data-x", "name"]).to_string(), gen_value(s));
                }
            }
            if s.chance(2, 5) {
                let events = if s.chance(1, 4) { ODD_EVENTS } else { EVENTS };
                listeners = (0..s.range(1, 3)).map(|_| (gen_listener_name(s), s.pick(events).to_string())).collect();
            }
        }
        let void = ["br", "noscript", "img"].contains(&&tag[..]);
        let children = if depth > 0 && (PARENTS.contains(&&tag[..]) || void && s.chance(1, 6)) { s.vec(0, width, |s| gen_n(s, width, depth - 1)) } else { vec![] };
        let text = gen_value(s);
        N { tag, text, attrs, listeners, one_by_one: s.below(4) as usize, children }
    })
}
fn gen(s: &mut Src) -> Case {
    let (w, d) = *s.pick(&[(3, 1), (3, 2), (2, 4), (12, 1), (4, 3)]);
    Case { trees: s.vec(1, 3, |s| gen_n(s, w, d)) }
}
fn fixed() -> Vec<Case> {
    let n = |tag: &str, children: Vec<N>| N { tag: tag.into(), text: "t".into(), attrs: Default::default(), listeners: vec![], children, one_by_one: 1 };
    let all: Vec<N> = TAGS.iter().map(|t| n(t, vec![])).collect();
    let mut v: Vec<Case> = PARENTS.iter().map(|p| Case { trees: vec![n(p, all.clone()), n(p, vec![n(p, all.clone()), n("p", vec![])])] }).collect();
    let mut deep = n("p", vec![]);
    for _ in 0..40 {
        deep = n("div", vec![n("br", vec![]), deep, n("h1", vec![])]);
    }
    v.push(Case { trees: vec![deep] });
    // long lists
    for k in [300usize, 1100, 5000, 70_000] {
        v.push(Case { trees: vec![n("div", (0..k).map(|i| n(TAGS[i % TAGS.len()], if i % 50 < 4 && PARENTS.contains(&TAGS[i % TAGS.len()]) { vec![n("p", vec![])] } else { vec![] })).collect()), n("form", vec![n("br", vec![])])] });
    }
    v
}

fn same(e: &Element, n: &N, id: &mut usize, path: &str) -> Result<(), String> {
    let path = format!("{}/{}", path, n.tag);
    ensure!(e.id == *id, "{}: the id is {}, expected {}", path, e.id, id);
    *id += 1;
    ensure!(e.name == n.tag, "{}: the name is {:?}", path, e.name);
    let attrs: BTreeMap<String, String> = e.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    ensure!(attrs == n.attrs, "{}: the attributes are {:?}, expected {:?}", path, attrs, n.attrs);
    let listeners: Vec<(String, String)> = e.listeners.iter().map(|l| (l.listener_name().to_string(), l.js_event().to_string())).collect();
    ensure!(listeners == n.listeners, "{}: the listeners are {:?}, expected {:?}", path, listeners, n.listeners);
    let text = if n.has_text() { &n.text[..] } else { "" };
    ensure!(e.text.as_deref().unwrap_or_default() == text, "{}: the text is {:?}, expected {:?}", path, e.text, text);
    ensure!(e.key.is_none(), "{}: has the key {:?}", path, e.key);
    let children: &[N] = if n.parent() { &n.children } else { &[] };
    ensure!(e.children.len() == children.len(), "{}: {} children, expected {}", path, e.children.len(), children.len());
    for (i, (a, b)) in e.children.iter().zip(children).enumerate() {
        same(a, b, id, &format!("{}[{}]", path, i))?;
    }
    Ok(())
}
fn check(c: &Case) -> Verdict {
    let mut gen = IdGen::new();
    let mut id = 0;
    let mut all = vec![];
    for (i, t) in c.trees.iter().enumerate() {
        let e = t.wrap().into_element(&mut gen);
        same(&e, t, &mut id, &format!("tree {} ", i))?;
        all.push(e);
    }
    let mut gen = IdGen::new();
    for (i, t) in c.trees.iter().enumerate() {
        ensure!(t.wrap().into_element(&mut gen) == all[i], "tree {} converts to other elements the second time", i);
    }
    let n: usize = c.trees.iter().map(N::count).sum();
    let deep = c.trees.iter().any(|t| t.parent() && t.children.iter().any(|c| c.parent() && !c.children.is_empty()));
    Ok(Seen::new(n > 2).label(c.trees.len() > 1, "the generator goes on").label(deep, "three levels").label(n > 20, "more than 20 nodes"))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "L04",
        assumptions: &[
            "malvolio is not available offline: the nodes are those of the stand-in lv/stubs/git/malvolio, with the names and fields the crate uses",
            "children are given to div, p, form and select (and to br, img and noscript, which ignore them); listeners are not given to br and noscript",
        ],
        parts: vec![Part::new("convert", "more than two nodes", 600_000, 20_000_000, gen, fixed, check)],
    }]
}
