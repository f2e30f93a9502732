//! The page: the shipped script on the small DOM of `lv/dom/dom.js`, in a node process per thread.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
    syntax: Option<String>,
}
impl Drop for Node {
    fn drop(&mut self) {
        self.to.take();
        let _ = self.child.wait();
    }
}
thread_local!(static NODE: RefCell<Option<Node>> = const { RefCell::new(None) });

fn give_up(m: impl std::fmt::Display) -> ! {
    eprintln!("ERROR: the page's process: {} (no verdict)", m);
    std::process::exit(2)
}
fn dom_js() -> String {
    std::env::var("LV_DOM").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../dom/dom.js").to_string())
}
impl Node {
    fn start() -> Node {
        let script = script_text();
        extern "C" {
            fn prctl(option: i32, signal: usize, ...) -> i32;
        }
        let mut command = Command::new("node");
        command.arg("--max-old-space-size=1024").arg(dom_js()).stdin(Stdio::piped()).stdout(Stdio::piped());
        // PR_SET_PDEATHSIG, SIGKILL: a page that never comes to rest does not outlive the check
        unsafe {
            command.pre_exec(|| {
                prctl(1, 9);
                Ok(())
            });
        }
        let mut child = command
            .spawn()
            .unwrap_or_else(|e| give_up(e));
        let to = child.stdin.take();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut n = Node { child, to, from, syntax: None };
        let r = n.ask(&json!({ "script": script }));
        n.syntax = r["syntax"].as_str().map(|s| s.to_string());
        n
    }
    fn ask(&mut self, q: &Value) -> Value {
        let to = self.to.as_mut().unwrap();
        if let Err(e) = to.write_all(format!("{}\n", q).as_bytes()).and_then(|_| to.flush()) {
            give_up(e)
        }
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => {}
            r => give_up(format!("no answer ({:?})", r)),
        }
        // a page may be deeper than serde_json's limit
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let v: Value = serde::Deserialize::deserialize(&mut de).unwrap_or_else(|e| give_up(e));
        if let Some(f) = v["fatal"].as_str() {
            give_up(f)
        }
        v
    }
}

/// The script as the application serves it.
pub fn script_text() -> String {
    let mut r = puck_liveview::init::js();
    let body = r.take_body();
    body.into_string().unwrap_or_else(|e| give_up(format!("the script is not text: {}", e)))
}

/// A page of its own; the next `Page::open` on this thread replaces it.
pub struct Page {
    fresh: bool,
    number: usize,
    path: &'static str,
}
impl Page {
    pub fn open() -> Page {
        Page::nth(0, "/app/page/")
    }
    /// One of several pages at the same time; it is to be used first before those with higher numbers.
    pub fn nth(number: usize, path: &'static str) -> Page {
        Page { fresh: true, number, path }
    }
    /// Run ops (see dom.js); Err if the script fails to load.
    pub fn run(&mut self, ops: Vec<Value>) -> Result<Vec<Value>, String> {
        NODE.with(|n| {
            let mut n = n.borrow_mut();
            let n = n.get_or_insert_with(Node::start);
            if let Some(s) = &n.syntax {
                return Err(format!("the script does not load: {}", s));
            }
            let r = n.ask(&json!({"new": self.fresh, "page": self.number, "path": self.path, "ops": ops}));
            self.fresh = false;
            if r["boot"].as_array().map_or(false, |b| !b.is_empty()) {
                return Err(format!("starting the script fails: {}", r["boot"]));
            }
            Ok(r["r"].as_array().cloned().unwrap_or_default())
        })
    }
}

/// The one op's result must be free of script errors.
pub fn no_error(r: &Value, what: impl Fn() -> String) -> Result<(), String> {
    match r["err"].as_array() {
        Some(e) if e.is_empty() => Ok(()),
        _ => Err(format!("{}: script error {}", what(), r["err"])),
    }
}
