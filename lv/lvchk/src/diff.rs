//! L01: differences of trees.
use crate::tree::*;
use kit::{ensure, Part, Prop, Seen, Src, Verdict};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DiffCase {
    /// each is the tree after the one before it
    trees: Vec<T>,
}

fn gen_diff(s: &mut Src) -> DiffCase {
    let (width, depth) = *s.pick(&[(2, 1), (3, 2), (2, 3), (4, 3), (1, 4)]);
    let mut first = gen_tree(s, width, depth);
    let mode = s.weighted(&[4, 1, 4, 4]);
    assign_ids(s, &mut first, mode);
    let mut trees = vec![first];
    let n = s.range(1, 3);
    for _ in 0..n {
        let last = trees.last().unwrap();
        let mut next = if s.chance(1, 6) { gen_tree(s, width, depth) } else { gen_edit(s, last) };
        assign_ids(s, &mut next, if mode == 1 { 0 } else { mode });
        trees.push(next);
    }
    for t in &mut trees {
        odd_events(s, t)
    }
    DiffCase { trees }
}

/// A tree to which the serialised changes are applied one by one. Unknown kinds of changes end the
/// examination (None), so that it judges only the form it knows.
fn examine(old: &T, ops: &[Value]) -> Result<Option<(T, usize)>, String> {
    let mut t = old.clone();
    let mut most = 0;
    fn find<'a>(t: &'a mut T, id: usize) -> Option<&'a mut T> {
        if t.id == id {
            return Some(t);
        }
        t.children.iter_mut().find_map(|c| find(c, id))
    }
    for (i, op) in ops.iter().enumerate() {
        let (Some(id), Some(ins)) = (op["id"].as_str().and_then(|s| s.parse::<usize>().ok()), op.get("instruction")) else { return Ok(None) };
        let (kind, arg) = match ins {
            Value::String(k) => (k.clone(), Value::Null),
            Value::Object(m) if m.len() == 1 => {
                let (k, v) = m.iter().next().unwrap();
                (k.clone(), v.clone())
            }
            _ => return Ok(None),
        };
        let st = |k: &str| arg[k].as_str().map(|s| s.to_string());
        let what = || format!("change {} ({}) ", i, kit::clip(&op.to_string()));
        if kind == "CreateTag" {
            let (Some(name), Some(p)) = (st("name"), st("parent_id").and_then(|p| p.parse::<usize>().ok())) else { return Ok(None) };
            ensure!(find(&mut t, id).is_none(), "{} creates an element with the id of another one", what());
            let parent = find(&mut t, p);
            ensure!(parent.is_some(), "{} creates an element below one that does not exist", what());
            parent.unwrap().children.push(T { id, name, ..T::default() });
        } else {
            ensure!(find(&mut t, id).is_some(), "{} addresses an element that does not exist", what());
            if kind == "SetId" {
                let Some(v) = st("value").and_then(|p| p.parse::<usize>().ok()) else { return Ok(None) };
                ensure!(v == id || find(&mut t, v).is_none(), "{} gives an element the id of another one", what());
                find(&mut t, id).unwrap().id = v;
            } else if kind == "DeleteEl" {
                ensure!(t.id != id, "{} deletes the root", what());
                fn del(t: &mut T, id: usize) {
                    t.children.retain(|c| c.id != id);
                    t.children.iter_mut().for_each(|c| del(c, id));
                }
                del(&mut t, id);
            } else {
                let el = find(&mut t, id).unwrap();
                match (&kind[..], st("key"), st("value"), st("name"), st("on")) {
                    ("SetAttribute", Some(k), Some(v), ..) => {
                        el.attrs.insert(k, v);
                    }
                    ("RemoveAttribute", Some(k), ..) => {
                        el.attrs.remove(&k);
                    }
                    ("SetText", _, Some(v), ..) => el.text = Some(v),
                    ("RemoveText", ..) => el.text = None,
                    ("SetTagName", _, _, Some(n), _) => el.name = n,
                    ("RemoveListeners", ..) => el.listeners.clear(),
                    ("AttachListener", _, _, Some(n), Some(o)) => el.listeners.push((n, o)),
                    _ => return Ok(None),
                }
            }
        }
        most += 1;
    }
    Ok(Some((t, most)))
}

fn check_diff(c: &DiffCase) -> Verdict {
    let mut seen = Seen::new(c.trees.windows(2).any(|w| w[0] != w[1]));
    let mut running = c.trees[0].element();
    for (i, w) in c.trees.windows(2).enumerate() {
        let (old, new) = (w[0].element(), w[1].element());
        let step = lunatic::sim::quietly(|| {
            let cs = old.diff(Some(&new));
            let js = serde_json::to_value(&cs).unwrap_or_default();
            let applied = lunatic::sim::quietly(|| {
                let mut e = running.clone();
                cs.apply(&mut e);
                e
            });
            (js, applied)
        });
        let (js, applied) = step.map_err(|p| format!("computing difference {} panics: {}", i, p))?;
        let ops = js["ops"].as_array().cloned();
        if let Some(ops) = &ops {
            let known = examine(&w[0], ops).map_err(|e| format!("difference {}: {}", i, e))?;
            if let Some((t, _)) = &known {
                ensure!(*t == w[1], "difference {}: the changes make {}, not {}", i, kit::clip(&format!("{:?}", t)), kit::clip(&format!("{:?}", w[1])));
            }
            if old == new {
                ensure!(ops.is_empty(), "equal trees differ by {} changes", ops.len());
            }
            seen = seen.label(known.is_some(), "every change examined").label(ops.len() > 30, "over 30 changes");
            let has = |k: &str| ops.iter().any(|o| o["instruction"].get(k).is_some() || o["instruction"] == *k);
            for k in ["SetId", "CreateTag", "DeleteEl", "SetTagName", "RemoveText", "RemoveListeners", "AttachListener", "RemoveAttribute"] {
                seen = seen.label(has(k), k);
            }
        }
        running = applied.map_err(|p| format!("applying difference {} panics: {}", i, p))?;
        ensure!(running == new, "difference {}: applying it gives {:?}, expected {:?}", i, running, new);
        // the same trees have the same difference as far as it can be seen
        ensure!(old == w[0].element() && new == w[1].element(), "computing the difference changes a tree");
    }
    Ok(seen)
}

fn fixed_big() -> Vec<Big> {
    (0..4).map(|salt| Big { shape: Shape::Attributes, n: 70_000, edits: 2, share: 5, ids: 0, salt }).collect()
}
fn check_big(c: &Big) -> Verdict {
    check_diff(&DiffCase { trees: c.trees() })?;
    Ok(label_big(c))
}

fn leaf(id: usize, name: &str, text: Option<&str>) -> T {
    T { id, name: name.into(), text: text.map(Into::into), ..T::default() }
}
fn fixed() -> Vec<DiffCase> {
    let node = |id, children| T { id, name: "div".into(), children, ..T::default() };
    let mut v = vec![];
    let pairs = vec![
        // an element inserted in the middle, ids in document order
        (node(0, vec![leaf(1, "p", None), leaf(2, "p", Some("z"))]), node(0, vec![node(1, vec![leaf(2, "b", Some("new"))]), leaf(3, "p", Some("z"))])),
        // ids exchanged, also between levels and with the root
        (node(0, vec![leaf(1, "p", Some("a")), leaf(2, "p", Some("b"))]), node(0, vec![leaf(2, "p", Some("b")), leaf(1, "p", Some("a"))])),
        (node(0, vec![node(1, vec![leaf(2, "p", None)])]), node(2, vec![node(0, vec![leaf(1, "p", Some("x"))])])),
        // the id of a deleted element is used again at once
        (node(0, vec![leaf(1, "p", None), leaf(5, "p", None)]), node(0, vec![node(1, vec![leaf(5, "i", None)])])),
        // name and id change together
        (node(0, vec![leaf(1, "p", Some("a"))]), node(0, vec![T { listeners: vec![("l".into(), "click".into())], ..leaf(7, "h1", Some("a")) }])),
        (leaf(3, "p", Some("")), leaf(3, "p", None)),
        (leaf(3, "p", None), leaf(3, "p", Some(""))),
        (node(0, vec![]), node(0, vec![])),
    ];
    for (a, b) in pairs {
        v.push(DiffCase { trees: vec![a.clone(), b.clone(), a.clone()] });
        v.push(DiffCase { trees: vec![a.clone(), a, b] });
    }
    // every pair of two small shapes with every assignment of ids
    let shapes: Vec<fn(&[usize]) -> T> = vec![
        |i| T { id: i[0], name: "div".into(), children: vec![leaf(i[1], "p", Some("1")), leaf(i[2], "p", Some("2"))], ..T::default() },
        |i| T { id: i[0], name: "div".into(), children: vec![T { children: vec![leaf(i[2], "p", Some("2"))], ..leaf(i[1], "div", None) }], ..T::default() },
        |i| T { id: i[0], name: "div".into(), children: vec![leaf(i[1], "p", Some("2"))], ..T::default() },
    ];
    let mut perms = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                if a != b && b != c && a != c {
                    perms.push([a, b, c])
                }
            }
        }
    }
    for x in &shapes {
        for y in &shapes {
            for p in &perms {
                for q in &perms {
                    v.push(DiffCase { trees: vec![x(p), y(q)] });
                }
            }
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "L01",
        assumptions: &["trees without keys and with unique ids", "the examination change by change relies on the public serialised form and is skipped for changes it does not know"],
        parts: vec![Part::new("diff", "two neighbouring trees differ", 150_000, 4_000_000, gen_diff, fixed, check_diff), Part::new("large", "always: 10 to 4000 elements, attributes or listeners, or long texts", 400, 15_000, |s| gen_big(s, 4000, 400), fixed_big, check_big)],
    }]
}
