//! Deterministic native simulation of the lunatic VM.
//!
//! Every lunatic process is a stackful coroutine on the current OS thread.  The host calls of
//! lunatic 0.9.1 are implemented against an in-memory [`World`] (sockets, listeners, mailboxes,
//! resources).  The harness decides, step by step, which runnable process continues: a schedule is
//! a list of choices, so a history is reproducible from the generated case alone.
//!
//! As on the VM: processes own their resources, a panic ends only the process it happens in (and
//! linked ones), what the process owned is released, and messages to dead processes are dropped.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::net::SocketAddr;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub type Pid = usize;
pub type ConnId = usize;

type Coro = Coroutine<(), (), ()>;
const STACK: usize = 1 << 20;

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Recv(Vec<i64>),
    RecvTimeout(Vec<i64>, u64),
    Read(ConnId),
    ReadTimeout(ConnId, u64),
    Write(ConnId),
    WriteTimeout(ConnId, u64),
    Accept(usize),
    Sleep(u64),
    Done,
}

enum Res {
    Conn(ConnId),
    Proc(Pid),
}

#[derive(Default)]
struct Msg {
    tag: i64,
    data: Vec<u8>,
    pos: usize,
    res: Vec<Option<Res>>,
    link_death: bool,
}

#[derive(Clone, Debug)]
pub enum Exit {
    Normal,
    Panic(String),
    Killed,
}

struct Proc {
    st: St,
    coro: Option<Coro>,
    yielder: *const Yielder<(), ()>,
    mailbox: VecDeque<Msg>,
    scratch: Option<Msg>,
    conns: HashMap<u64, ConnId>,
    procs: HashMap<u64, Pid>,
    listeners: HashMap<u64, usize>,
    dns: HashMap<u64, VecDeque<SocketAddr>>,
    next_res: u64,
    kill: bool,
    die_when_link_dies: bool,
    links: BTreeMap<Pid, i64>,
    parent: Option<Pid>,
    exit: Option<Exit>,
}

#[derive(Default)]
struct Conn {
    inbox: VecDeque<u8>,
    eof: bool,
    reset: bool,
    out: Vec<u8>,
    refs: usize,
    closed: bool,
    read_limits: Vec<usize>,
    read_i: usize,
    write_limits: Vec<usize>,
    held: bool,
    write_i: usize,
    write_fail_after: Option<usize>,
    consumed: usize,
    zero_reads: usize,
    accepted_by: Option<Pid>,
}

enum Backlog {
    Conn(ConnId),
    Fail,
}

struct Listener {
    addr: SocketAddr,
    refs: usize,
    backlog: VecDeque<Backlog>,
    accepted: usize,
}

#[derive(Default)]
pub struct World {
    procs: Vec<Proc>,
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    errors: Vec<Option<String>>,
    registry: HashMap<String, Pid>,
    clock: u64,
    /// advances of the clock since something came from outside or went there
    waits: u32,
    steps: u64,
    host_calls: u64,
    max_mailbox: usize,
    preempt: bool,
    killing: bool,
    last: Pid,
    next_port: u16,
    notes: Vec<String>,
}

struct Killed;

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static CUR: Cell<Option<Pid>> = const { Cell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<bool> = const { Cell::new(false) };
}

/// Install (once) a panic hook which is silent, and only remembers the message, on threads inside
/// [`quietly`] or inside a simulated process.
pub fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = payload_str(info.payload());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
            let quiet = QUIET.try_with(|q| q.get() > 0).unwrap_or(false)
                || CUR.try_with(|c| c.get().is_some()).unwrap_or(false);
            if !quiet {
                prev(info)
            }
        }));
    });
}

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `f`, turning a panic into `Err(message at location)`.
pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    install_panic_hook();
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

fn cur() -> Pid {
    CUR.with(|c| c.get()).expect("lunatic host call outside of a simulated process")
}

fn me<R>(f: impl FnOnce(&mut World, Pid) -> R) -> R {
    let pid = cur();
    w(|w| {
        w.host_calls += 1;
        f(w, pid)
    })
}

impl World {
    fn conn_ref(&mut self, c: ConnId) {
        self.conns[c].refs += 1;
    }
    fn conn_unref(&mut self, c: ConnId) {
        let conn = &mut self.conns[c];
        conn.refs -= 1;
        if conn.refs == 0 {
            conn.closed = true;
        }
    }
    fn drop_msg(&mut self, m: Msg) {
        for r in m.res.into_iter().flatten() {
            if let Res::Conn(c) = r {
                self.conn_unref(c)
            }
        }
    }
    fn add_error(&mut self, e: &str) -> u64 {
        self.errors.push(Some(e.to_string()));
        (self.errors.len() - 1) as u64
    }
    fn res_id(&mut self, p: Pid) -> u64 {
        let id = self.procs[p].next_res;
        self.procs[p].next_res += 1;
        id
    }
    fn add_conn_res(&mut self, p: Pid, c: ConnId) -> u64 {
        let id = self.res_id(p);
        self.procs[p].conns.insert(id, c);
        id
    }
    fn add_proc_res(&mut self, p: Pid, t: Pid) -> u64 {
        let id = self.res_id(p);
        self.procs[p].procs.insert(id, t);
        id
    }
    fn matching(&self, p: Pid, tags: &[i64]) -> Option<usize> {
        self.procs[p]
            .mailbox
            .iter()
            .position(|m| tags.is_empty() || tags.contains(&m.tag))
    }
    fn runnable(&self, p: Pid) -> bool {
        let pr = &self.procs[p];
        if pr.st == St::Done {
            return false;
        }
        if pr.kill {
            return true;
        }
        match &pr.st {
            St::Ready => true,
            St::Recv(t) => self.matching(p, t).is_some(),
            St::RecvTimeout(t, at) => self.matching(p, t).is_some() || self.clock >= *at,
            St::Read(c) => self.readable(*c),
            St::ReadTimeout(c, at) => self.readable(*c) || self.clock >= *at,
            St::Write(c) => self.writable(*c),
            St::WriteTimeout(c, at) => self.writable(*c) || self.clock >= *at,
            St::Accept(l) => !self.listeners[*l].backlog.is_empty(),
            St::Sleep(at) => self.clock >= *at,
            St::Done => false,
        }
    }
    fn readable(&self, c: ConnId) -> bool {
        let c = &self.conns[c];
        !c.inbox.is_empty() || c.eof || c.reset
    }
    fn writable(&self, c: ConnId) -> bool {
        let c = &self.conns[c];
        !c.held || c.reset
    }
    fn new_proc(&mut self, parent: Option<Pid>, coro: Coro) -> Pid {
        self.procs.push(Proc {
            st: St::Ready,
            coro: Some(coro),
            yielder: std::ptr::null(),
            mailbox: VecDeque::new(),
            scratch: None,
            conns: HashMap::new(),
            procs: HashMap::new(),
            listeners: HashMap::new(),
            dns: HashMap::new(),
            next_res: 1,
            kill: false,
            die_when_link_dies: true,
            links: BTreeMap::new(),
            parent,
            exit: None,
        });
        self.procs.len() - 1
    }
    fn finish(&mut self, p: Pid, exit: Exit) {
        let failed = !matches!(exit, Exit::Normal);
        self.procs[p].st = St::Done;
        self.procs[p].exit = Some(exit);
        let mut conns: Vec<(u64, ConnId)> = self.procs[p].conns.drain().collect();
        conns.sort_unstable();
        for (_, c) in conns {
            self.conn_unref(c)
        }
        let ls: Vec<usize> = self.procs[p].listeners.drain().map(|x| x.1).collect();
        for l in ls {
            self.listeners[l].refs -= 1;
        }
        let mail: Vec<Msg> = self.procs[p].mailbox.drain(..).collect();
        for m in mail {
            self.drop_msg(m)
        }
        if let Some(m) = self.procs[p].scratch.take() {
            self.drop_msg(m)
        }
        let links = std::mem::take(&mut self.procs[p].links);
        for (other, tag) in links {
            self.procs[other].links.remove(&p);
            if failed && self.procs[other].st != St::Done {
                if self.procs[other].die_when_link_dies {
                    self.procs[other].kill = true;
                } else {
                    self.procs[other].mailbox.push_back(Msg { tag, link_death: true, ..Msg::default() });
                }
            }
        }
    }
}

fn make_coro(f: Box<dyn FnOnce()>) -> Coro {
    let stack = STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(STACK).expect("coroutine stack"));
    Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        let pid = cur();
        w(|w| w.procs[pid].yielder = y);
        let killed_early = w(|w| w.procs[pid].kill || w.killing);
        let r = if killed_early {
            drop(f);
            Ok(Exit::Killed)
        } else {
            catch_unwind(AssertUnwindSafe(f)).map(|_| Exit::Normal)
        };
        let exit = match r {
            Ok(e) => e,
            Err(p) if p.is::<Killed>() => Exit::Killed,
            Err(_) => Exit::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
        };
        w(|w| w.finish(pid, exit));
    })
}

/// Suspend the current process with state `st` until it is scheduled again.
fn suspend(st: St) {
    if std::thread::panicking() {
        return;
    }
    let pid = cur();
    let y = w(|w| {
        w.procs[pid].st = st;
        w.procs[pid].yielder
    });
    // Safety: the yielder lives on this coroutine's stack for as long as the coroutine runs.
    unsafe { (*y).suspend(()) };
    let kill = w(|w| {
        w.procs[pid].st = St::Ready;
        w.procs[pid].kill || w.killing
    });
    if kill {
        resume_unwind(Box::new(Killed));
    }
}

/// A scheduling point: any other runnable process may go first.
fn preempt() {
    if w(|w| w.preempt) {
        suspend(St::Ready)
    }
}

pub(crate) fn host_spawn(link: i64, f: Box<dyn FnOnce()>) -> u64 {
    let pid = cur();
    let coro = make_coro(f);
    let id = w(|w| {
        let child = w.new_proc(Some(pid), coro);
        if link != 0 {
            w.procs[pid].links.insert(child, link);
            w.procs[child].links.insert(pid, link);
        }
        w.add_proc_res(pid, child)
    });
    preempt();
    id
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RunEnd {
    /// No process can continue without more input from outside.
    Idle,
    /// The step budget ran out while processes were still runnable.
    Budget,
}

/// So often the clock is advanced without anything coming from outside or going there in between.
const MAX_WAITS: u32 = 100;

/// Handle on the (thread local) simulated VM.  Only one may exist per thread.
pub struct Sim {
    _not_send: std::marker::PhantomData<*const ()>,
}

impl Default for Sim {
    fn default() -> Self {
        Self::new()
    }
}

impl Sim {
    pub fn new() -> Sim {
        install_panic_hook();
        assert!(!LIVE.with(|l| l.replace(true)), "one Sim per thread");
        w(|w| {
            *w = World::default();
            w.preempt = true;
            w.next_port = 20000;
        });
        Sim { _not_send: std::marker::PhantomData }
    }
    /// Whether every host call is a scheduling point (default) or only blocking ones are.
    pub fn set_preempt(&self, on: bool) {
        w(|w| w.preempt = on)
    }
    /// Start a process from an arbitrary closure.
    pub fn spawn_root(&self, f: impl FnOnce() + 'static) -> Pid {
        let coro = make_coro(Box::new(f));
        w(|w| w.new_proc(None, coro))
    }
    /// Create a connection nobody has accepted yet.
    fn new_conn(&self) -> ConnId {
        w(|w| {
            w.waits = 0;
            w.conns.push(Conn::default());
            w.conns.len() - 1
        })
    }
    /// Create a connection; the process that calls [`take_stream`] gets the server side of it.
    pub fn socket(&self) -> ConnId {
        self.new_conn()
    }
    /// Connect to the listener with this index; returns the client side.
    pub fn connect(&self, listener: usize) -> ConnId {
        let c = self.new_conn();
        w(|w| {
            w.conns[c].refs = 1;
            w.listeners[listener].backlog.push_back(Backlog::Conn(c));
        });
        c
    }
    /// Make the next `accept` on the listener (after those queued) fail.
    pub fn fail_accept(&self, listener: usize) {
        w(|w| w.listeners[listener].backlog.push_back(Backlog::Fail))
    }
    pub fn listeners(&self) -> usize {
        w(|w| w.listeners.len())
    }
    pub fn listener_live(&self, l: usize) -> bool {
        w(|w| w.listeners[l].refs > 0)
    }
    pub fn accepted(&self, l: usize) -> usize {
        w(|w| w.listeners[l].accepted)
    }
    pub fn push(&self, c: ConnId, data: &[u8]) {
        w(|w| {
            w.waits = 0;
            w.conns[c].inbox.extend(data)
        })
    }
    /// The client half-closes: reads return 0 once the inbox is drained.
    pub fn eof(&self, c: ConnId) {
        w(|w| {
            w.waits = 0;
            w.conns[c].eof = true
        })
    }
    /// The client resets: reads (once drained) and writes fail.
    pub fn reset(&self, c: ConnId) {
        w(|w| {
            w.waits = 0;
            w.conns[c].reset = true
        })
    }
    /// Each read returns at most the next limit (cyclic; empty = unlimited).
    pub fn read_limits(&self, c: ConnId, l: Vec<usize>) {
        w(|w| w.conns[c].read_limits = l)
    }
    pub fn write_limits(&self, c: ConnId, l: Vec<usize>) {
        w(|w| w.conns[c].write_limits = l)
    }
    /// While held, the client takes nothing: writes wait, until it is released or resets.
    pub fn hold(&self, c: ConnId, held: bool) {
        w(|w| {
            w.waits = 0;
            w.conns[c].held = held
        })
    }
    /// Writes fail once `n` bytes have been written.
    pub fn write_fail_after(&self, c: ConnId, n: usize) {
        w(|w| w.conns[c].write_fail_after = Some(n))
    }
    pub fn output(&self, c: ConnId) -> Vec<u8> {
        w(|w| w.conns[c].out.clone())
    }
    pub fn output_from(&self, c: ConnId, from: usize) -> Vec<u8> {
        w(|w| w.conns[c].out[from..].to_vec())
    }
    pub fn output_len(&self, c: ConnId) -> usize {
        w(|w| w.conns[c].out.len())
    }
    pub fn take_output(&self, c: ConnId) -> Vec<u8> {
        w(|w| std::mem::take(&mut w.conns[c].out))
    }
    /// Bytes of the client's data the server has read.
    pub fn consumed(&self, c: ConnId) -> usize {
        w(|w| w.conns[c].consumed)
    }
    pub fn zero_reads(&self, c: ConnId) -> usize {
        w(|w| w.conns[c].zero_reads)
    }
    /// The server dropped every handle of this connection.
    pub fn server_closed(&self, c: ConnId) -> bool {
        w(|w| w.conns[c].closed)
    }
    pub fn accepted_by(&self, c: ConnId) -> Option<Pid> {
        w(|w| w.conns[c].accepted_by)
    }
    pub fn exit_of(&self, p: Pid) -> Option<Exit> {
        w(|w| w.procs[p].exit.clone())
    }
    pub fn parent_of(&self, p: Pid) -> Option<Pid> {
        w(|w| w.procs[p].parent)
    }
    pub fn procs(&self) -> usize {
        w(|w| w.procs.len())
    }
    pub fn live_procs(&self) -> usize {
        w(|w| w.procs.iter().filter(|p| p.st != St::Done).count())
    }
    /// How many live processes hold a handle of this connection.
    pub fn panics(&self) -> Vec<(Pid, String)> {
        w(|w| {
            w.procs
                .iter()
                .enumerate()
                .filter_map(|(i, p)| match &p.exit {
                    Some(Exit::Panic(m)) => Some((i, m.clone())),
                    _ => None,
                })
                .collect()
        })
    }
    /// Messages lying in mailboxes of live processes.
    pub fn queued(&self) -> usize {
        w(|w| w.procs.iter().filter(|p| p.st != St::Done).map(|p| p.mailbox.len()).sum())
    }
    pub fn max_mailbox(&self) -> usize {
        w(|w| w.max_mailbox)
    }
    pub fn steps(&self) -> u64 {
        w(|w| w.steps)
    }
    pub fn host_calls(&self) -> u64 {
        w(|w| w.host_calls)
    }
    /// Descriptions of what the live processes wait for.
    pub fn states(&self) -> Vec<(Pid, String)> {
        w(|w| {
            w.procs
                .iter()
                .enumerate()
                .filter(|(_, p)| p.st != St::Done)
                .map(|(i, p)| (i, format!("{:?}", p.st)))
                .collect()
        })
    }
    /// Runnable processes; the one that ran last comes first.
    pub fn runnable(&self) -> Vec<Pid> {
        w(|w| {
            let mut v: Vec<Pid> = Vec::new();
            if w.last < w.procs.len() && w.runnable(w.last) {
                v.push(w.last)
            }
            for p in 0..w.procs.len() {
                if p != w.last && w.runnable(p) {
                    v.push(p)
                }
            }
            v
        })
    }
    /// Let `pid` run until its next scheduling point.
    pub fn step_pid(&self, pid: Pid) {
        let mut coro = w(|w| {
            w.last = pid;
            w.steps += 1;
            w.procs[pid].coro.take().expect("process is not running")
        });
        CUR.with(|c| c.set(Some(pid)));
        let r = coro.resume(());
        CUR.with(|c| c.set(None));
        match r {
            CoroutineResult::Yield(()) => w(|w| w.procs[pid].coro = Some(coro)),
            CoroutineResult::Return(()) => STACKS.with(|s| {
                let st = coro.into_stack();
                let mut s = s.borrow_mut();
                if s.len() < 64 {
                    s.push(st)
                }
            }),
        }
    }
    /// One scheduling step: `choice` selects among the runnable processes (modulo).
    pub fn step(&self, choice: usize) -> bool {
        let r = self.runnable();
        if r.is_empty() {
            return self.advance_clock();
        }
        self.step_pid(r[choice % r.len()]);
        true
    }
    /// Whether a process waits for a point in time that has not come. What only comes again and
    /// again (a process that looks for work every second) is nothing to wait for, in the long run.
    pub fn timer_pending(&self) -> bool {
        w(|w| w.waits < MAX_WAITS && w.procs.iter().any(|p| matches!(&p.st, St::Sleep(t) | St::RecvTimeout(_, t) | St::ReadTimeout(_, t) | St::WriteTimeout(_, t) if *t > w.clock)))
    }
    /// Time passes until the next of these points.
    pub fn advance_clock(&self) -> bool {
        w(|w| {
            if w.waits >= MAX_WAITS {
                return false;
            }
            let next = w
                .procs
                .iter()
                .filter_map(|p| match &p.st {
                    St::Sleep(t) | St::RecvTimeout(_, t) | St::ReadTimeout(_, t) | St::WriteTimeout(_, t) => Some(*t),
                    _ => None,
                })
                .min();
            match next {
                Some(t) if t > w.clock => {
                    w.clock = t;
                    w.waits += 1;
                    true
                }
                _ => false,
            }
        })
    }
    /// Run until nothing is runnable or `budget` steps were made.
    pub fn run(&self, budget: u64, mut choose: impl FnMut(usize) -> usize) -> RunEnd {
        let mut left = budget;
        loop {
            let r = self.runnable();
            if r.is_empty() {
                if self.advance_clock() {
                    continue;
                }
                return RunEnd::Idle;
            }
            if left == 0 {
                return RunEnd::Budget;
            }
            left -= 1;
            let k = if r.len() == 1 { 0 } else { choose(r.len()) % r.len() };
            self.step_pid(r[k]);
        }
    }
    /// Messages processes left with [`note`].
    pub fn notes(&self) -> Vec<String> {
        w(|w| w.notes.clone())
    }
}

impl Drop for Sim {
    fn drop(&mut self) {
        w(|w| w.killing = true);
        loop {
            let p = w(|w| w.procs.iter().position(|p| p.st != St::Done));
            match p {
                Some(p) => self.step_pid(p),
                None => break,
            }
        }
        LIVE.with(|l| l.set(false));
    }
}

/// Record something from inside a process, for the harness to look at afterwards.
pub fn note(s: impl Into<String>) {
    w(|w| w.notes.push(s.into()))
}

/// The pid of the calling process.
pub fn current() -> Pid {
    cur()
}

/// Is the calling code inside a simulated process?
pub fn inside() -> bool {
    CUR.with(|c| c.get().is_some())
}

/// The server side of a connection made with [`Sim::socket`], owned by the calling process.
pub fn take_stream(c: ConnId) -> crate::net::TcpStream {
    let id = me(|w, p| {
        w.conn_ref(c);
        w.add_conn_res(p, c)
    });
    crate::net::TcpStream::from(id)
}

fn timeout_at(w: &World, ms: u32) -> Option<u64> {
    if ms == 0 {
        None
    } else {
        Some(w.clock + ms as u64)
    }
}

const TIMEOUT: u32 = 9027;

pub(crate) mod host {
    #![allow(clippy::missing_safety_doc, clippy::too_many_arguments, unused_variables)]

    pub mod error {
        use super::super::*;
        pub unsafe fn string_size(id: u64) -> u32 {
            w(|w| w.errors[id as usize].as_ref().map_or(0, |s| s.len()) as u32)
        }
        pub unsafe fn to_string(id: u64, out: *mut u8) {
            let s = w(|w| w.errors[id as usize].clone().unwrap_or_default());
            std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
        }
        pub unsafe fn drop(id: u64) {
            w(|w| {
                if let Some(e) = w.errors.get_mut(id as usize) {
                    *e = None
                }
            })
        }
    }

    pub mod message {
        use super::super::*;
        pub unsafe fn create_data(tag: i64, _capacity: u64) {
            me(|w, p| {
                if let Some(m) = w.procs[p].scratch.take() {
                    w.drop_msg(m)
                }
                w.procs[p].scratch = Some(Msg { tag, ..Msg::default() });
            })
        }
        pub unsafe fn write_data(data: *const u8, len: usize) -> usize {
            let s = std::slice::from_raw_parts(data, len);
            me(|w, p| w.procs[p].scratch.as_mut().expect("no message").data.extend_from_slice(s));
            len
        }
        pub unsafe fn read_data(data: *mut u8, len: usize) -> usize {
            let out = std::slice::from_raw_parts_mut(data, len);
            me(|w, p| {
                let m = w.procs[p].scratch.as_mut().expect("no message");
                let n = len.min(m.data.len() - m.pos);
                out[..n].copy_from_slice(&m.data[m.pos..m.pos + n]);
                m.pos += n;
                n
            })
        }
        pub unsafe fn seek_data(position: u64) {
            me(|w, p| w.procs[p].scratch.as_mut().expect("no message").pos = position as usize)
        }
        pub unsafe fn get_tag() -> i64 {
            me(|w, p| w.procs[p].scratch.as_ref().expect("no message").tag)
        }
        pub unsafe fn data_size() -> u64 {
            me(|w, p| w.procs[p].scratch.as_ref().expect("no message").data.len() as u64)
        }
        pub unsafe fn push_process(id: u64) -> u64 {
            me(|w, p| {
                let t = w.procs[p].procs.remove(&id).expect("process resource");
                let m = w.procs[p].scratch.as_mut().expect("no message");
                m.res.push(Some(Res::Proc(t)));
                (m.res.len() - 1) as u64
            })
        }
        pub unsafe fn take_process(index: u64) -> u64 {
            me(|w, p| {
                let m = w.procs[p].scratch.as_mut().expect("no message");
                match m.res.get_mut(index as usize).and_then(|r| r.take()) {
                    Some(Res::Proc(t)) => w.add_proc_res(p, t),
                    _ => panic!("take_process: no such resource"),
                }
            })
        }
        pub unsafe fn push_tcp_stream(id: u64) -> u64 {
            me(|w, p| {
                let c = w.procs[p].conns.remove(&id).expect("tcp stream resource");
                let m = w.procs[p].scratch.as_mut().expect("no message");
                m.res.push(Some(Res::Conn(c)));
                (m.res.len() - 1) as u64
            })
        }
        pub unsafe fn take_tcp_stream(index: u64) -> u64 {
            me(|w, p| {
                let m = w.procs[p].scratch.as_mut().expect("no message");
                match m.res.get_mut(index as usize).and_then(|r| r.take()) {
                    Some(Res::Conn(c)) => w.add_conn_res(p, c),
                    _ => panic!("take_tcp_stream: no such resource"),
                }
            })
        }
        fn deliver(id: u64) {
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                let mut m = w.procs[p].scratch.take().expect("no message");
                m.pos = 0;
                if w.procs[t].st == St::Done || std::thread::panicking() {
                    w.drop_msg(m)
                } else {
                    w.procs[t].mailbox.push_back(m);
                    let n = w.procs[t].mailbox.len();
                    w.max_mailbox = w.max_mailbox.max(n);
                }
            })
        }
        pub unsafe fn send(id: u64) {
            deliver(id);
            preempt();
        }
        pub unsafe fn send_receive_skip_search(id: u64, timeout: u32) -> u32 {
            let tag = me(|w, p| w.procs[p].scratch.as_ref().expect("no message").tag);
            deliver(id);
            recv(vec![tag], timeout)
        }
        pub unsafe fn receive(tag: *const i64, len: usize, timeout: u32) -> u32 {
            let tags = if len == 0 { vec![] } else { std::slice::from_raw_parts(tag, len).to_vec() };
            recv(tags, timeout)
        }
        fn recv(tags: Vec<i64>, timeout: u32) -> u32 {
            if std::thread::panicking() {
                // a process that has ended runs no destructors in a wasm VM; here it does, and they
                // must come to their end without any effect
                me(|w, p| {
                    if let Some(old) = w.procs[p].scratch.replace(Msg { data: vec![0; 4096], ..Msg::default() }) {
                        w.drop_msg(old)
                    }
                });
                return 0;
            }
            let at = me(|w, _| timeout_at(w, timeout));
            match at {
                None => suspend(St::Recv(tags.clone())),
                Some(at) => suspend(St::RecvTimeout(tags.clone(), at)),
            }
            me(|w, p| match w.matching(p, &tags) {
                Some(i) => {
                    let m = w.procs[p].mailbox.remove(i).unwrap();
                    if let Some(old) = w.procs[p].scratch.take() {
                        w.drop_msg(old)
                    }
                    let kind = if m.link_death { 1 } else { 0 };
                    w.procs[p].scratch = Some(m);
                    kind
                }
                None => TIMEOUT,
            })
        }
    }

    pub mod networking {
        use super::super::*;
        use std::io::IoSlice;
        use std::net::{Ipv4Addr, Ipv6Addr, SocketAddrV4, SocketAddrV6};

        unsafe fn addr_of(ty: u32, addr: *const u8, port: u32, flow: u32, scope: u32) -> SocketAddr {
            if ty == 4 {
                let a = std::slice::from_raw_parts(addr, 4);
                SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(a[0], a[1], a[2], a[3]), port as u16))
            } else {
                let mut o = [0u8; 16];
                o.copy_from_slice(std::slice::from_raw_parts(addr, 16));
                SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(o), port as u16, flow, scope))
            }
        }
        pub unsafe fn resolve(name: *const u8, len: usize, _timeout: u32, id: *mut u64) -> u32 {
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(name, len)).into_owned();
            let s = s.replace("localhost", "127.0.0.1");
            me(|w, p| match s.parse::<SocketAddr>() {
                Ok(a) => {
                    let r = w.res_id(p);
                    w.procs[p].dns.insert(r, VecDeque::from(vec![a]));
                    *id = r;
                    0
                }
                Err(_) => {
                    *id = w.add_error("resolve failed");
                    1
                }
            })
        }
        pub unsafe fn drop_dns_iterator(id: u64) {
            if inside() {
                me(|w, p| {
                    w.procs[p].dns.remove(&id);
                })
            }
        }
        pub unsafe fn resolve_next(id: u64, ty: *mut u32, addr: *mut u8, port: *mut u16, flow: *mut u32, scope: *mut u32) -> u32 {
            me(|w, p| match w.procs[p].dns.get_mut(&id).and_then(|d| d.pop_front()) {
                Some(SocketAddr::V4(a)) => {
                    *ty = 4;
                    std::ptr::copy_nonoverlapping(a.ip().octets().as_ptr(), addr, 4);
                    *port = a.port();
                    0
                }
                Some(SocketAddr::V6(a)) => {
                    *ty = 6;
                    std::ptr::copy_nonoverlapping(a.ip().octets().as_ptr(), addr, 16);
                    *port = a.port();
                    *flow = a.flowinfo();
                    *scope = a.scope_id();
                    0
                }
                None => 1,
            })
        }
        pub unsafe fn tcp_bind(ty: u32, addr: *const u8, port: u32, flow: u32, scope: u32, id: *mut u64) -> u32 {
            let mut a = addr_of(ty, addr, port, flow, scope);
            me(|w, p| {
                if w.listeners.iter().any(|l| l.refs > 0 && l.addr == a) {
                    *id = w.add_error("address in use");
                    return 1;
                }
                if a.port() == 0 {
                    a.set_port(w.next_port);
                    w.next_port += 1;
                }
                w.listeners.push(Listener { addr: a, refs: 1, backlog: VecDeque::new(), accepted: 0 });
                let l = w.listeners.len() - 1;
                let r = w.res_id(p);
                w.procs[p].listeners.insert(r, l);
                *id = r;
                0
            })
        }
        pub unsafe fn drop_tcp_listener(id: u64) {
            me(|w, p| {
                if let Some(l) = w.procs[p].listeners.remove(&id) {
                    w.listeners[l].refs -= 1
                }
            })
        }
        pub unsafe fn tcp_local_addr(id: u64, out: *mut u64) -> u32 {
            me(|w, p| {
                let l = *w.procs[p].listeners.get(&id).expect("listener resource");
                let a = w.listeners[l].addr;
                let r = w.res_id(p);
                w.procs[p].dns.insert(r, VecDeque::from(vec![a]));
                *out = r;
                0
            })
        }
        pub unsafe fn tcp_accept(id: u64, out: *mut u64, peer: *mut u64) -> u32 {
            let l = me(|w, p| *w.procs[p].listeners.get(&id).expect("listener resource"));
            suspend(St::Accept(l));
            me(|w, p| match {
                w.waits = 0;
                w.listeners[l].backlog.pop_front()
            } {
                Some(Backlog::Conn(c)) => {
                    w.listeners[l].accepted += 1;
                    w.conns[c].accepted_by = Some(p);
                    *out = w.add_conn_res(p, c);
                    let r = w.res_id(p);
                    w.procs[p].dns.insert(r, VecDeque::from(vec![SocketAddr::from(([127, 0, 0, 1], 40000 + (c % 10000) as u16))]));
                    *peer = r;
                    0
                }
                _ => {
                    *out = w.add_error("accept failed");
                    1
                }
            })
        }
        pub unsafe fn tcp_connect(ty: u32, addr: *const u8, port: u32, flow: u32, scope: u32, _t: u32, id: *mut u64) -> u32 {
            me(|w, _| {
                *id = w.add_error("outgoing connections are not simulated");
                1
            })
        }
        pub unsafe fn drop_tcp_stream(id: u64) {
            me(|w, p| {
                if let Some(c) = w.procs[p].conns.remove(&id) {
                    w.conn_unref(c)
                }
            })
        }
        pub unsafe fn clone_tcp_stream(id: u64) -> u64 {
            me(|w, p| {
                let c = *w.procs[p].conns.get(&id).expect("tcp stream resource");
                w.conn_ref(c);
                w.add_conn_res(p, c)
            })
        }
        pub unsafe fn tcp_write_vectored(id: u64, bufs: *const u32, n: usize, timeout: u32, out: *mut u64) -> u32 {
            preempt();
            // on the native target an IoSlice is what the guest library passes here
            let bufs = std::slice::from_raw_parts(bufs as *const IoSlice<'_>, n);
            let panicking = std::thread::panicking();
            let c = me(|w, p| *w.procs[p].conns.get(&id).expect("tcp stream resource"));
            if !panicking && !w(|w| w.writable(c)) {
                match w(|w| timeout_at(w, timeout)) {
                    None => suspend(St::Write(c)),
                    Some(at) => suspend(St::WriteTimeout(c, at)),
                }
                if !w(|w| w.writable(c)) {
                    *out = w(|w| w.add_error("timed out"));
                    return 1;
                }
            }
            me(|w, p| {
                let conn = &mut w.conns[c];
                let mut room = usize::MAX;
                if let Some(f) = conn.write_fail_after {
                    room = f.saturating_sub(conn.out.len());
                }
                let total: usize = bufs.iter().map(|b| b.len()).sum();
                // a panic aborts a wasm process: nothing it still wants to write gets out
                if conn.reset || panicking || (room == 0 && total > 0) {
                    *out = w.add_error("broken pipe");
                    return 1;
                }
                if !conn.write_limits.is_empty() {
                    room = room.min(conn.write_limits[conn.write_i % conn.write_limits.len()].max(1));
                    conn.write_i += 1;
                }
                let mut done = 0;
                for b in bufs {
                    let k = b.len().min(room - done);
                    conn.out.extend_from_slice(&b[..k]);
                    done += k;
                    if done == room {
                        break;
                    }
                }
                w.waits = 0;
                *out = done as u64;
                0
            })
        }
        pub unsafe fn tcp_read(id: u64, buf: *mut u8, len: usize, timeout: u32, out: *mut u64) -> u32 {
            let c = me(|w, p| *w.procs[p].conns.get(&id).expect("tcp stream resource"));
            if len == 0 {
                *out = 0;
                return 0;
            }
            let at = w(|w| timeout_at(w, timeout));
            match at {
                None => suspend(St::Read(c)),
                Some(at) => suspend(St::ReadTimeout(c, at)),
            }
            let buf = std::slice::from_raw_parts_mut(buf, len);
            me(|w, p| {
                let conn = &mut w.conns[c];
                if conn.inbox.is_empty() {
                    if conn.eof && !conn.reset {
                        conn.zero_reads += 1;
                        *out = 0;
                        return 0;
                    }
                    let e = if conn.reset { "connection reset" } else { "timed out" };
                    *out = w.add_error(e);
                    return 1;
                }
                let mut n = len.min(conn.inbox.len());
                if !conn.read_limits.is_empty() {
                    n = n.min(conn.read_limits[conn.read_i % conn.read_limits.len()].max(1));
                    conn.read_i += 1;
                }
                for (i, b) in conn.inbox.drain(..n).enumerate() {
                    buf[i] = b
                }
                conn.consumed += n;
                if n > 0 {
                    w.waits = 0
                }
                *out = n as u64;
                0
            })
        }
        pub unsafe fn tcp_flush(id: u64, error: *mut u64) -> u32 {
            me(|w, p| {
                let c = *w.procs[p].conns.get(&id).expect("tcp stream resource");
                if w.conns[c].reset {
                    *error = w.add_error("broken pipe");
                    return 1;
                }
                0
            })
        }
    }

    pub mod process {
        use super::super::*;
        pub unsafe fn compile_module(data: *const u8, len: usize, id: *mut u64) -> i32 {
            -1
        }
        pub unsafe fn drop_module(id: u64) {}
        pub unsafe fn create_config() -> u64 {
            0
        }
        pub unsafe fn drop_config(id: u64) {}
        pub unsafe fn config_set_max_memory(id: u64, v: u64) {}
        pub unsafe fn config_get_max_memory(id: u64) -> u64 {
            u64::MAX
        }
        pub unsafe fn config_set_max_fuel(id: u64, v: u64) {}
        pub unsafe fn config_get_max_fuel(id: u64) -> u64 {
            0
        }
        pub unsafe fn config_can_compile_modules(id: u64) -> u32 {
            0
        }
        pub unsafe fn config_set_can_compile_modules(id: u64, can: u32) {}
        pub unsafe fn config_can_create_configs(id: u64) -> u32 {
            1
        }
        pub unsafe fn config_set_can_create_configs(id: u64, can: u32) {}
        pub unsafe fn config_can_spawn_processes(id: u64) -> u32 {
            1
        }
        pub unsafe fn config_set_can_spawn_processes(id: u64, can: u32) {}
        pub unsafe fn spawn(link: i64, config_id: i64, module_id: i64, function: *const u8, function_len: usize, params: *const u8, params_len: usize, id: *mut u64) -> u32 {
            *id = w(|w| w.add_error("spawning by name is not simulated"));
            1
        }
        pub unsafe fn drop_process(id: u64) {
            me(|w, p| {
                w.procs[p].procs.remove(&id);
            })
        }
        pub unsafe fn clone_process(id: u64) -> u64 {
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                w.add_proc_res(p, t)
            })
        }
        pub unsafe fn sleep_ms(ms: u64) {
            let at = w(|w| w.clock + ms);
            suspend(St::Sleep(at))
        }
        pub unsafe fn die_when_link_dies(trap: u32) {
            me(|w, p| w.procs[p].die_when_link_dies = trap != 0)
        }
        pub unsafe fn this() -> u64 {
            me(|w, p| w.add_proc_res(p, p))
        }
        pub unsafe fn id(id: u64, uuid: *mut [u8; 16]) {
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                *uuid = (t as u128 + 1).to_le_bytes();
            })
        }
        pub unsafe fn link(tag: i64, id: u64) {
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                w.procs[p].links.insert(t, tag);
                w.procs[t].links.insert(p, tag);
            })
        }
        pub unsafe fn unlink(id: u64) {
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                w.procs[p].links.remove(&t);
                w.procs[t].links.remove(&p);
            })
        }
    }

    pub mod registry {
        use super::super::*;
        unsafe fn s(name: *const u8, len: usize) -> String {
            String::from_utf8_lossy(std::slice::from_raw_parts(name, len)).into_owned()
        }
        pub unsafe fn put(name: *const u8, len: usize, id: u64) {
            let name = s(name, len);
            me(|w, p| {
                let t = *w.procs[p].procs.get(&id).expect("process resource");
                w.registry.insert(name, t);
            })
        }
        pub unsafe fn get(name: *const u8, len: usize, id: *mut u64) -> u32 {
            let name = s(name, len);
            me(|w, p| match w.registry.get(&name).copied() {
                Some(t) => {
                    *id = w.add_proc_res(p, t);
                    0
                }
                None => 1,
            })
        }
        pub unsafe fn remove(name: *const u8, len: usize) {
            let name = s(name, len);
            w(|w| w.registry.remove(&name));
        }
    }

    pub mod wasi {
        pub unsafe fn config_add_environment_variable(config_id: u64, key: *const u8, key_len: usize, value: *const u8, value_len: usize) {}
        pub unsafe fn config_add_command_line_argument(config_id: u64, key: *const u8, key_len: usize) {}
        pub unsafe fn config_preopen_dir(config_id: u64, key: *const u8, key_len: usize) {}
    }

    pub mod version {
        pub unsafe fn major() -> u32 {
            0
        }
        pub unsafe fn minor() -> u32 {
            9
        }
        pub unsafe fn patch() -> u32 {
            1
        }
    }
}

