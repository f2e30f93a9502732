//! Element trees: data, generators, conversion.
use kit::{Rng, Seen, Src};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::ListenerRef;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Default)]
pub struct T {
    pub id: usize,
    pub name: String,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub attrs: BTreeMap<String, String>,
    /// name of the listener, event
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub listeners: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub children: Vec<T>,
}

impl T {
    pub fn element(&self) -> Element {
        Element {
            id: self.id,
            name: self.name.clone().into(),
            attributes: self.attrs.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
            listeners: self.listeners.iter().map(|(n, e)| ListenerRef::new(n, e)).collect(),
            children: self.children.iter().map(T::element).collect(),
            text: self.text.clone().map(Into::into),
            key: None,
        }
    }
    pub fn size(&self) -> usize {
        1 + self.children.iter().map(T::size).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a T>) {
        out.push(self);
        for c in &self.children {
            c.walk(out)
        }
    }
    pub fn all(&self) -> Vec<&T> {
        let mut v = vec![];
        self.walk(&mut v);
        v
    }
    pub fn each(&mut self, f: &mut impl FnMut(&mut T)) {
        f(self);
        for c in &mut self.children {
            c.each(f)
        }
    }
    /// The `n`th node in document order.
    pub fn nth(&mut self, n: usize) -> &mut T {
        fn go<'a>(t: &'a mut T, n: &mut usize) -> Option<&'a mut T> {
            if *n == 0 {
                return Some(t);
            }
            *n -= 1;
            for c in &mut t.children {
                if let Some(x) = go(c, n) {
                    return Some(x);
                }
            }
            None
        }
        let mut n = n;
        go(self, &mut n).expect("node")
    }
}

const NAMES: &[&str] = &["div", "p", "span", "h1", "h2", "ul", "li", "a", "button", "label", "form", "select", "option", "section", "input", "img", "br", "table", "tr", "td", "nav", "pre", "h3", "strong", "custom-el", "canvas", "hr"];
const KEYS: &[&str] = &[
    "class", "value", "title", "style", "type", "href", "data-x", "name", "placeholder", "alt", "src", "for", "lang", "role", "tabindex", "disabled", "checked", "width", "data-y", "aria-label", "data-x-y", "classes", "hidden", "selected", "readonly", "required", "multiple", "autofocus", "maxlength", "action", "method", "rel", "target",
    "contenteditable", "is", "key", "text", "children", "listener", "payload", "el", "ty", "onclick", "xmlns", "slot",
];
pub const WILD: &[char] = &['a', 'b', '1', ' ', '+', '+', '"', '\'', '<', '>', '&', ';', '=', '\\', '\n', 'é', '漢', '😀', '\u{2028}', '{', '}', ','];

pub fn gen_value(s: &mut Src) -> String {
    match s.weighted(&[4, 4, 1, 1, 1]) {
        0 => s.pick(&["x", "y", "on", "a b", ""]).to_string(),
        1 => s.string(0, 8, WILD),
        // values that differ only in case, blanks, or the way a letter is encoded
        3 => s.pick(&["X", "Y", "On", "ON", "A b", "a  b", " a b", "a b ", "x\n", "x\r\n", "\tx", "e\u{301}", "\u{e9}", "\u{212b}", "\u{c5}", "\u{fb01}", "fi", "\u{a0}", "\u{feff}x", "\u{200b}"]).to_string(),
        4 => {
            let n = if s.chance(1, 4) { s.range(100, 3000) } else { s.range(9, 80) };
            let unit = s.string(1, 5, WILD);
            unit.chars().cycle().take(n).collect()
        }
        _ => s.pick(&["a+b", "+", "++", "1+2+3", "+x", "x+", "<b>q</b>", "&amp;", "</div>", "\u{0}", "[]", "null", "undefined", "0", "true", "false", "NaN", "-1", "1e3", "javascript:void 0", "/a?b=c&d#e", "%41", "\\u0041", "${x}", "{{x}}", "<!--", "]]>", "\u{85}", "\u{2029}", "\u{fffd}", "\u{10ffff}"]).to_string(),
    }
}
pub fn gen_text(s: &mut Src) -> Option<String> {
    if s.chance(2, 5) {
        Some(gen_value(s))
    } else {
        None
    }
}
/// Names of listeners; `pool` of 0 stands for any name.
pub fn gen_listener_name(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&["l0", "l1", "l2", "l3"]).to_string(),
        1 => s.pick(&["a+b", "+", "click", "x+click", "é\"\\", "a b", "", "e\u{301}", "\u{e9}", "L0", "l0 ", " l0", "\u{feff}l0", "\u{212b}", "\0", "__proto__", "constructor"]).to_string(),
        _ => s.string(1, 6, WILD),
    }
}
pub const EVENTS: &[&str] = &["click", "input", "submit"];

pub fn gen_node(s: &mut Src) -> T {
    let name = s.pick(NAMES).to_string();
    let mut attrs = BTreeMap::new();
    if s.chance(2, 5) {
        let n = if s.chance(1, 20) { s.range(8, 30) } else { s.range(1, 3) };
        for _ in 0..n {
            attrs.insert(s.pick(KEYS).to_string(), gen_value(s));
        }
    }
    let listeners = if s.chance(1, 3) { (0..s.range(1, 2)).map(|_| (gen_listener_name(s), s.pick(EVENTS).to_string())).collect() } else { vec![] };
    T { id: 0, name, attrs, listeners, text: gen_text(s), children: vec![] }
}

pub fn gen_tree(s: &mut Src, max_children: usize, depth: usize) -> T {
    s.span(|s| {
        let mut t = gen_node(s);
        if depth > 0 && !["input", "img", "br"].contains(&&t.name[..]) {
            t.children = s.vec(0, max_children, |s| gen_tree(s, max_children, depth - 1));
            if s.chance(1, 60) {
                gen_many(s, &mut t)
            }
        }
        t
    })
}
/// Many children at once.
fn gen_many(s: &mut Src, t: &mut T) {
    let n = s.range(10, 70);
    let kind = gen_node(s);
    let same = s.bool();
    for i in 0..n {
        t.children.push(T { text: if same { kind.text.clone() } else { Some(i.to_string()) }, ..kind.clone() })
    }
}
/// Listeners for other events than those the components know.
pub fn odd_events(s: &mut Src, t: &mut T) {
    if s.chance(1, 4) {
        t.each(&mut |n| {
            for l in &mut n.listeners {
                if s.bool() {
                    l.1 = s.pick(ODD_EVENTS).to_string()
                }
            }
        })
    }
}
pub const ODD_EVENTS: &[&str] = &["Click", "CLICK", "keydown", "keyup", "DOMContentLoaded", "custom:Event", "change", "on", "", "é"];

/// A tree related to `t`: a few edits anywhere.
pub fn gen_edit(s: &mut Src, t: &T) -> T {
    let mut t = t.clone();
    let edits = s.weighted(&[1, 6, 4, 3, 2, 1]);
    for _ in 0..edits {
        s.span(|s| {
            let n = t.size();
            let at = s.below(n as u64) as usize;
            let fresh = gen_tree(s, 2, 1);
            let node = t.nth(at);
            match s.below(if n < 100 { 14 } else { 12 }) {
                12 => {
                    if s.chance(1, 4) {
                        gen_many(s, node)
                    }
                }
                13 => {
                    let k = s.range(0, node.children.len());
                    if s.bool() {
                        node.children.truncate(k)
                    } else {
                        node.children.drain(..k);
                    }
                }
                0 => node.name = fresh.name,
                1 => node.text = fresh.text,
                2 => node.attrs = fresh.attrs,
                3 => {
                    node.attrs.insert(s.pick(KEYS).to_string(), gen_value(s));
                }
                4 => {
                    if let Some(k) = node.attrs.keys().next().cloned() {
                        node.attrs.remove(&k);
                    }
                }
                5 => node.listeners = fresh.listeners,
                6 => {
                    let i = s.range(0, node.children.len());
                    node.children.insert(i, fresh);
                }
                7 => node.children.push(fresh),
                8 => {
                    if !node.children.is_empty() {
                        let i = s.below(node.children.len() as u64) as usize;
                        node.children.remove(i);
                    }
                }
                9 => node.children.clear(),
                10 => {
                    if node.children.len() > 1 {
                        let i = s.below(node.children.len() as u64 - 1) as usize;
                        node.children.swap(i, i + 1);
                    }
                }
                _ => {
                    // another node moves here, with all below it
                    let from = s.below(n as u64) as usize;
                    let sub = t.nth(from).clone();
                    if n + sub.size() < 60 {
                        t.nth(at).children.push(sub);
                    }
                }
            }
        })
    }
    t
}

/// 0: document order from 0; 1: document order from some number; 2: any distinct numbers from a small pool;
/// 3: kept where the node has one (`keep`), else unused ones.
pub fn assign_ids(s: &mut Src, t: &mut T, mode: usize) {
    match mode {
        0 | 1 => {
            let mut id = if mode == 0 { 0 } else { *s.pick(&[1usize, 2, 7, 1000, usize::MAX - 1_000_000]) };
            t.each(&mut |n| {
                n.id = id;
                id += 1
            })
        }
        2 => {
            let n = t.size();
            let mut pool: Vec<usize> = (0..n + 3).collect();
            for i in (1..pool.len()).rev() {
                let j = i - s.below(i as u64 + 1) as usize;
                pool.swap(i, j);
            }
            let mut i = 0;
            t.each(&mut |n| {
                n.id = pool[i];
                i += 1
            })
        }
        _ => {
            // the first node with an id keeps it
            let mut seen = std::collections::BTreeSet::new();
            let mut fresh = vec![];
            let mut i = 0;
            t.each(&mut |n| {
                if n.id == 0 || !seen.insert(n.id) {
                    fresh.push(i)
                }
                i += 1
            });
            let mut next = seen.iter().max().map_or(1, |m| m + 1);
            if s.bool() {
                // the smallest unused ones, as if ids of removed nodes were used again
                next = 1;
            }
            for k in fresh {
                while seen.contains(&next) {
                    next += 1
                }
                seen.insert(next);
                t.nth(k).id = next;
            }
        }
    }
}

/// A large tree and others made from it, by their measures.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big {
    pub shape: Shape,
    pub n: usize,
    /// renderings after the first
    pub edits: usize,
    /// of 100 elements, so many are changed each time
    pub share: u64,
    pub ids: usize,
    pub salt: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Wide,
    Deep,
    Attributes,
    Listeners,
    Long,
    Mixed,
}
pub fn gen_big(s: &mut Src, most: usize, depth: usize) -> Big {
    let shape = *s.pick(&[Shape::Wide, Shape::Deep, Shape::Attributes, Shape::Listeners, Shape::Long, Shape::Mixed]);
    let size = |s: &mut Src, most: usize| match s.weighted(&[2, 2, 1]) {
        0 => s.range(10, 100.min(most)),
        1 => s.range(100.min(most), 500.min(most)),
        _ => s.range(500.min(most), most),
    };
    let n = match shape {
        Shape::Deep => s.range(10, depth),
        Shape::Long => size(s, 200 * most),
        Shape::Attributes | Shape::Listeners => size(s, 2 * most),
        _ => size(s, most),
    };
    Big { shape, n, edits: s.range(1, 3), share: *s.pick(&[0, 1, 5, 30, 60]), ids: s.weighted(&[4, 0, 2, 4]), salt: s.below(1 << 30) }
}
impl Big {
    fn first(&self, r: &mut Rng, n: usize) -> T {
        let leaf = |r: &mut Rng| {
            let mut t = T { name: NAMES[r.below(10) as usize].into(), ..T::default() };
            if r.below(2) == 0 {
                t.text = Some(format!("text {}", r.below(1000)))
            }
            if r.below(4) == 0 {
                t.attrs.insert(KEYS[r.below(10) as usize].into(), format!("{}+", r.below(100)));
            }
            if r.below(4) == 0 {
                t.listeners.push((format!("l{}", r.below(8)), EVENTS[r.below(3) as usize].into()))
            }
            t
        };
        let mut root = T { name: "div".into(), ..T::default() };
        match self.shape {
            Shape::Wide => root.children = (0..n).map(|_| leaf(r)).collect(),
            Shape::Deep => {
                for _ in 0..n {
                    let mut t = leaf(r);
                    t.children.push(root);
                    if r.below(3) == 0 {
                        t.children.push(leaf(r))
                    }
                    root = t;
                }
            }
            Shape::Attributes => {
                root.children = vec![leaf(r), leaf(r)];
                root.children[0].attrs = (0..n).map(|i| (format!("data-a{}", i), format!("value {}", r.below(20)))).collect();
            }
            Shape::Listeners => {
                root.children = vec![leaf(r), leaf(r)];
                root.children[1].listeners = (0..n).map(|i| (format!("m{}", i), EVENTS[(r.below(5) / 2) as usize].into())).collect();
            }
            Shape::Long => {
                root.children = vec![leaf(r), leaf(r), leaf(r)];
                root.children[0].text = Some(long(r, n));
                root.children[1].attrs.insert("title".into(), long(r, n));
                root.children[2].listeners.push((long(r, n.min(5000)), "click".into()));
                root.children[2].attrs.insert(format!("data-{}", "k".repeat(n.min(300))), "v".into());
            }
            Shape::Mixed => {
                // parents[i] comes before i
                let parents: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { i - 1 - r.below((i as u64).min(12)) as usize }).collect();
                let mut nodes: Vec<T> = (0..n).map(|_| leaf(r)).collect();
                for i in (1..n).rev() {
                    let t = nodes.pop().unwrap();
                    nodes[parents[i]].children.insert(0, t);
                }
                root.children = nodes;
            }
        }
        root
    }
    pub fn trees(&self) -> Vec<T> {
        let mut r = Rng::new(self.salt);
        let mut t = self.first(&mut r, self.n);
        let mut out = vec![];
        for k in 0..=self.edits {
            if k > 0 {
                t = self.edit(&mut r, &t)
            }
            self.number(&mut r, &mut t);
            out.push(t.clone());
        }
        out
    }
    fn edit(&self, r: &mut Rng, t: &T) -> T {
        let mut t = t.clone();
        if r.below(6) == 0 {
            let n = 1 + r.below(self.n as u64) as usize;
            t = self.first(r, n);
        }
        let share = self.share;
        let grown = t.all().len() > 3 * self.n + 30;
        t.each(&mut |x| {
            if r.below(100) < share {
                match r.below(8) {
                    0 => x.text = None,
                    1 | 2 => x.text = Some(format!("new {}", r.below(1000))),
                    3 => x.name = NAMES[r.below(10) as usize].into(),
                    4 => x.listeners.clear(),
                    5 => {
                        let k = r.below(x.children.len() as u64 + 1) as usize;
                        x.children.truncate(k)
                    }
                    _ if grown => x.children.clear(),
                    6 => x.children.insert(0, T { name: "p".into(), ..T::default() }),
                    _ => x.children.push(T { name: "span".into(), text: Some("added".into()), ..T::default() }),
                }
            }
        });
        // and one that is certain
        let k = r.below(3);
        match self.shape {
            Shape::Attributes => {
                if let Some(x) = t.children.first_mut() {
                    let mut i = 0;
                    x.attrs.retain(|_, _| {
                        i += 1;
                        k > 0 || i % 3 == 0
                    });
                    x.attrs.values_mut().for_each(|v| {
                        if r.below(2) == 0 {
                            v.push('+')
                        }
                    });
                }
            }
            Shape::Listeners => {
                if let Some(x) = t.children.last_mut() {
                    x.listeners.reverse();
                    let n = x.listeners.len() * k as usize / 2;
                    x.listeners.truncate(n);
                    x.listeners.push(("extra".into(), "click".into()));
                }
            }
            Shape::Long => t.children.iter_mut().for_each(|x| {
                if let Some(s) = &mut x.text {
                    s.push('!')
                }
                if r.below(2) == 0 {
                    x.attrs.values_mut().for_each(|v| v.insert(0, 'x'))
                }
            }),
            Shape::Wide => {
                let n = t.children.len();
                match k {
                    0 => t.children.truncate(n / 2),
                    1 => t.children.rotate_left(n / 2),
                    _ => {
                        let c = t.children.clone();
                        t.children.extend(c)
                    }
                }
            }
            _ => {}
        }
        // another such element, made from nothing
        if r.below(2) == 0 {
            let n = if r.below(2) == 0 { self.n } else { 1 + r.below(self.n as u64) as usize };
            if matches!(self.shape, Shape::Attributes | Shape::Listeners | Shape::Long) {
                if t.children.len() < 12 {
                    t.children.extend(self.first(r, n).children)
                }
            } else if t.all().len() <= 2 * self.n + 30 {
                t.children.push(self.first(r, n))
            }
        }
        t
    }
    fn number(&self, r: &mut Rng, t: &mut T) {
        let n = t.size();
        match self.ids {
            0 => {
                let mut id = 0;
                t.each(&mut |x| {
                    x.id = id;
                    id += 1
                })
            }
            2 => {
                let mut pool: Vec<usize> = (0..n + 3).collect();
                for i in (1..pool.len()).rev() {
                    pool.swap(i, r.below(i as u64 + 1) as usize)
                }
                t.each(&mut |x| x.id = pool.pop().unwrap())
            }
            _ => {
                // kept where it is not used yet
                let mut seen = std::collections::BTreeSet::new();
                let mut next = 1_000_000 + (r.below(1000) * 100_000) as usize;
                t.each(&mut |x| {
                    while x.id == 0 || !seen.insert(x.id) {
                        next += 1;
                        x.id = next
                    }
                })
            }
        }
    }
}
pub fn label_big(b: &Big) -> Seen {
    Seen::new(true)
        .label(b.shape == Shape::Deep, "deep")
        .label(b.shape == Shape::Long, "long texts")
        .label(b.shape == Shape::Attributes, "many attributes")
        .label(b.shape == Shape::Listeners, "many listeners")
        .label(matches!(b.shape, Shape::Wide | Shape::Mixed), "many elements")
        .label(b.n > 256, "more than 256")
        .label(b.n > 1000, "more than 1000")
}
fn long(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| WILD[r.below(WILD.len() as u64) as usize]).collect()
}

/// What a page shows for the tree: see `dump` in dom.js.
pub fn page(t: &T) -> serde_json::Value {
    serde_json::json!({
        "name": t.name, "id": t.id.to_string(), "attrs": t.attrs, "text": t.text.clone().unwrap_or_default(), "late": false,
        "kids": t.children.iter().map(page).collect::<Vec<_>>(),
    })
}

/// Where two pages differ first.
pub fn difference(got: &serde_json::Value, want: &serde_json::Value, path: &str) -> Option<String> {
    if got == want {
        return None;
    }
    if let (Some(g), Some(w)) = (got.get("kids").and_then(|k| k.as_array()), want.get("kids").and_then(|k| k.as_array())) {
        for f in ["name", "id", "attrs", "text", "late"] {
            if got[f] != want[f] {
                return Some(format!("{}: {} is {}, expected {}", path, if f == "late" { "text after a child" } else { f }, got[f], want[f]));
            }
        }
        for (i, (a, b)) in g.iter().zip(w).enumerate() {
            if let Some(d) = difference(a, b, &format!("{}/{}[{}]", path, want["kids"][i]["name"].as_str().unwrap_or("?"), i)) {
                return Some(d);
            }
        }
        return Some(format!("{}: {} children, expected {}", path, g.len(), w.len()));
    }
    Some(format!("{}: {} instead of {}", path, got, want))
}
