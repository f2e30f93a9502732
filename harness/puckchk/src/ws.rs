//! W01..W06: WebSockets.
use crate::gen::*;
use crate::io::*;
use crate::sched::*;
use kit::{ensure, ensure_eq, Bytes, Part, Prop, Seen, Src, Verdict};
use lunatic::sim::{note, take_stream, RunEnd, Sim};
use lunatic::{Mailbox, Process};
use puck::core::{Core, Stream, UsedStream};
use puck::ws::frame::{Frame, OpCode, ParseFrameError};
use puck::ws::message::{DecodeMessageError, Message};
use puck::ws::websocket::{NextMessageError, WebSocket};
use puck::Request;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- frames on the wire

/// A client frame.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fr {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    /// masking key; none = unmasked
    pub mask: Option<[u8; 4]>,
    /// 0: shortest encoding of the length, 2: 16 bits, 8: 64 bits (where the length fits)
    pub enc: u8,
    pub payload: Bytes,
}

impl Fr {
    pub fn wire(&self, out: &mut Vec<u8>) {
        out.push((self.fin as u8) << 7 | (self.rsv & 7) << 4 | (self.op & 15));
        let n = self.payload.len();
        let m = if self.mask.is_some() { 0x80 } else { 0 };
        let enc = match self.enc {
            8 => 8,
            2 if n < 65536 => 2,
            _ if n < 126 => 0,
            _ if n < 65536 => 2,
            _ => 8,
        };
        match enc {
            0 => out.push(m | n as u8),
            2 => {
                out.push(m | 126);
                out.extend((n as u16).to_be_bytes())
            }
            _ => {
                out.push(m | 127);
                out.extend((n as u64).to_be_bytes())
            }
        }
        match self.mask {
            Some(k) => {
                out.extend(k);
                out.extend(self.payload.iter().enumerate().map(|(i, b)| b ^ k[i % 4]));
            }
            None => out.extend(&self.payload[..]),
        }
    }
}

pub fn gen_mask(s: &mut Src) -> [u8; 4] {
    match s.weighted(&[1, 1, 6]) {
        0 => [0; 4],
        1 => [0xff, 0, 0xff, 0],
        _ => [s.byte(), s.byte(), s.byte(), s.byte()],
    }
}
fn gen_enc(s: &mut Src) -> u8 {
    *s.pick(&[0, 0, 0, 2, 8])
}
fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[4, 10, 3, 3, 1]) {
        0 => 0,
        1 => s.range(1, 40),
        2 => *s.pick(&[124usize, 125, 126, 127, 128, 255, 256, 257]),
        3 => s.range(41, 2000),
        _ => *s.pick(&[8191usize, 8192, 8193, 65534, 65535, 65536, 65537, 70001, 131072, 200001]),
    }
}
pub fn gen_text(s: &mut Src, n: usize) -> String {
    const C: &[char] = &['a', 'b', 'Z', '0', ' ', '\n', '\0', 'é', 'ß', '漢', '€', '😀', '\u{10ffff}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{feff}', '\r', '\t', 'e', '\u{301}', '\u{a0}', '\u{85}', '\u{2028}', '\u{fffd}', '\u{200b}', '\u{7f}', '\u{1b}', '\u{d7ff}', '\u{e000}'];
    if n > 300 {
        let unit: String = (0..50).map(|_| *s.pick(C)).collect();
        let mut t = unit.repeat(n / unit.len() + 1);
        let mut k = n;
        while !t.is_char_boundary(k) {
            k -= 1
        }
        t.truncate(k);
        return t;
    }
    let mut t = String::new();
    while t.len() < n {
        let c = *s.pick(C);
        if t.len() + c.len_utf8() > n {
            t.push('x')
        } else {
            t.push(c)
        }
    }
    t
}

#[derive(Debug, PartialEq, Clone)]
enum RefFrame {
    Frame { fin: bool, rsv: u8, op: u8, masked: bool, payload: Vec<u8>, len: usize },
    /// ends inside a frame
    Cut,
    /// no bytes at all
    Empty,
}

/// Independent RFC 6455 frame reader.
fn ref_frame(b: &[u8]) -> RefFrame {
    if b.is_empty() {
        return RefFrame::Empty;
    }
    if b.len() < 2 {
        return RefFrame::Cut;
    }
    let mut at = 2;
    let n7 = (b[1] & 0x7f) as usize;
    let ext = match n7 {
        126 => 2,
        127 => 8,
        _ => 0,
    };
    if b.len() < at + ext {
        return RefFrame::Cut;
    }
    let mut n = if ext == 0 { n7 as u128 } else { 0 };
    for i in 0..ext {
        n = n << 8 | b[at + i] as u128;
    }
    at += ext;
    let masked = b[1] & 0x80 != 0;
    let mut key = [0u8; 4];
    if masked {
        if b.len() < at + 4 {
            return RefFrame::Cut;
        }
        key.copy_from_slice(&b[at..at + 4]);
        at += 4;
    }
    if ((b.len() - at) as u128) < n {
        return RefFrame::Cut;
    }
    let n = n as usize;
    let payload = b[at..at + n].iter().enumerate().map(|(i, x)| x ^ key[i % 4]).collect();
    RefFrame::Frame { fin: b[0] & 0x80 != 0, rsv: b[0] >> 4 & 7, op: b[0] & 15, masked, payload, len: at + n }
}

// ---------------------------------------------------------------- W02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FrameCase {
    frames: Vec<Fr>,
    cuts: Vec<usize>,
    /// junk after the last frame
    after: Bytes,
}

fn gen_w02(s: &mut Src) -> FrameCase {
    FrameCase {
        frames: s.vec(1, 6, |s| {
            let n = gen_len(s);
            Fr { fin: s.chance(2, 3), rsv: if s.chance(1, 5) { s.below(8) as u8 } else { 0 }, op: if s.chance(1, 2) { *s.pick(&[0u8, 1, 2, 8, 9, 10]) } else { s.below(16) as u8 }, mask: Some(gen_mask(s)), enc: gen_enc(s), payload: s.blob(n).into() }
        }),
        cuts: gen_cuts(s),
        after: if s.chance(1, 3) {
            // a header that claims much more than follows
            let mut b = vec![0x80 | *s.pick(&[0u8, 1, 2, 9]), 0x80 | 127];
            let small = s.below(30);
            b.extend(match s.below(4) {
                0 => (1u64 << 32) + small,
                1 => (1 << 16) + small,
                2 => (1 << *s.pick(&[17u64, 24, 31, 40, 48, 62])) + small,
                _ => (s.below(1 << 31) << 32) + small,
            }.max(1000).to_be_bytes());
            b.extend(gen_mask(s));
            let n = s.range(0, 40);
            b.extend(s.blob(n));
            b.into()
        } else {
            let n = if s.chance(1, 3) { s.range(1, 30) } else { 0 };
            s.blob(n).into()
        },
    }
}

/// One frame of megabytes, and one behind it.
fn check_w02_large(c: &Large) -> Verdict {
    let f = Fr { fin: c.text, rsv: 0, op: 1 + c.salt % 2, mask: Some([c.salt, 7, !c.salt, 0x99]), enc: 0, payload: c.bytes(c.n).into() };
    let g = Fr { fin: true, rsv: 0, op: 9, mask: Some([1, 2, 3, c.salt]), enc: 0, payload: b"next"[..].into() };
    check_w02(&FrameCase { frames: vec![f, g], cuts: c.cuts(), after: Bytes::default() }).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB"))
}
fn check_w03_large(c: &Large) -> Verdict {
    let b = c.bytes(c.n);
    let m = match c.salt % 4 {
        _ if c.text => Out::Text(String::from_utf8(b).expect("letters")),
        0 => Out::Ping(Some(b.into())),
        1 => Out::Pong(Some(b.into())),
        _ => Out::Binary(b.into()),
    };
    let limits = if c.cut == 0 { vec![] } else { vec![c.cut.max(65536)] };
    let fail_after = if c.salt % 5 == 0 { Some(c.n) } else { None };
    check_w03(&SendCase { messages: vec![(m, c.salt % 3), (Out::Text("next".into()), 0)], limits, fail_after }).map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB"))
}
fn fixed_w04_large() -> Vec<Large> {
    vec![Large { n: 1 << 18, text: true, salt: 4, declared: false, after: 0, cut: 65536, read: 1 << 25 }]
}
/// A message of megabytes in up to a hundred thousand fragments, and one behind it.
fn check_w04_large(c: &Large) -> Verdict {
    let parts = match c.read {
        0..=4095 => 0,
        4096..=65535 => 30,
        65536..=1_000_000 => 300,
        _ if c.salt % 4 == 0 => 100_000,
        _ => 9000,
    };
    let cuts = (0..parts).map(|i: usize| i.wrapping_mul(7919 * (1 + c.salt as usize)) + i).collect();
    let next = In::Data { text: true, payload: "next".into(), cuts: vec![2] };
    let script = vec![In::Data { text: c.text, payload: c.bytes(c.n).into(), cuts }, next];
    check_w04(&MessageCase { script, masks: vec![[c.salt, 1, 2, 3], [9, 8, 7, 6]], cuts: c.cuts(), missing: 0, reset: false })
        .map(|_| Seen::new(true).label(c.n > 1 << 20, "over 1 MiB").label(parts >= 300, "hundreds of fragments").label(parts > 65_536, "more than 65536 fragments"))
}

fn op_of(o: u8) -> OpCode {
    match o {
        0 => OpCode::Continue,
        1 => OpCode::Text,
        2 => OpCode::Binary,
        8 => OpCode::Terminate,
        9 => OpCode::Ping,
        10 => OpCode::Pong,
        _ => OpCode::Reserved,
    }
}

fn check_w02(c: &FrameCase) -> Verdict {
    let mut wire = vec![];
    let mut ends = vec![];
    for f in &c.frames {
        f.wire(&mut wire);
        ends.push(wire.len());
    }
    wire.extend(&c.after[..]);
    let feed = Feed::new(&wire, &c.cuts, End::Eof);
    for (i, f) in c.frames.iter().enumerate() {
        let got = lunatic::sim::quietly(|| Frame::parse(feed.clone())).map_err(|p| format!("frame {}: parsing panics: {}", i, p))?.map_err(|e| format!("frame {} rejected: {:?}", i, e))?;
        ensure_eq!(*got.fin(), f.fin, format!("final flag of frame {}", i));
        ensure_eq!(*got.op_code(), op_of(f.op), format!("opcode of frame {}", i));
        ensure!(got.decoded()[..] == f.payload[..], "payload of frame {}: {} bytes {}, expected {} bytes {}", i, got.decoded().len(), show(got.decoded()), f.payload.len(), show(&f.payload));
        ensure_eq!(feed.consumed(), ends[i], format!("bytes taken from the stream after frame {}", i));
        ensure!(got.take_decoded()[..] == f.payload[..], "take_decoded of frame {} differs", i);
    }
    let start = |i: usize| if i == 0 { 0 } else { ends[i - 1] };
    let claim = c.after.len() >= 14 && ref_frame(&c.after) == RefFrame::Cut;
    if claim {
        let got = lunatic::sim::quietly(|| Frame::parse(feed.clone())).map_err(|p| format!("parsing panics: {}", p))?;
        ensure!(got.is_err(), "a frame of which only a part came is decoded with {} bytes", got.map(|f| f.decoded().len()).unwrap_or(0));
    }
    Ok(Seen::new(c.frames.iter().any(|f| !f.payload.is_empty()))
        .label(c.frames.len() > 1, "pipelined")
        .label(claim, "an unfinished frame behind")
        .label(!c.cuts.is_empty() && c.cuts[0] == 1, "cut inside the header")
        .label(c.frames.iter().any(|f| f.payload.is_empty()), "empty payload")
        .label(c.frames.iter().any(|f| f.payload.len() > 65535), "64-bit length")
        .label(c.frames.iter().any(|f| f.payload.len() == 65535), "65535 bytes")
        .label(c.frames.iter().enumerate().any(|(i, f)| ends[i] - start(i) > f.payload.len() + 6 && f.payload.len() < 126), "longer length than needed"))
}

fn fixed_w02() -> Vec<FrameCase> {
    let mut v = vec![];
    for op in 0..16u8 {
        for fin in [true, false] {
            for (n, enc) in [(0usize, 0u8), (1, 0), (5, 2), (5, 8), (125, 0), (126, 0), (300, 8)] {
                let f = Fr { fin, rsv: 0, op, mask: Some([1, 2, 3, 4]), enc, payload: vec![0x41; n].into() };
                let g = Fr { fin: true, rsv: 0, op: 1, mask: Some([9, 8, 7, 6]), enc: 0, payload: b"next"[..].into() };
                v.push(FrameCase { frames: vec![f, g], cuts: vec![if n % 2 == 0 { 1 } else { 3 }], after: Bytes::default() });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- W03

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Text(String),
    Binary(Bytes),
    Ping(Option<Bytes>),
    Pong(Option<Bytes>),
}
impl Out {
    pub fn message(&self) -> Message {
        match self {
            Out::Text(t) => Message::Text(t.clone()),
            Out::Binary(b) => Message::Binary(b.to_vec()),
            Out::Ping(p) => Message::Ping(p.as_ref().map(|b| b.to_vec())),
            Out::Pong(p) => Message::Pong(p.as_ref().map(|b| b.to_vec())),
        }
    }
    pub fn op(&self) -> u8 {
        match self {
            Out::Text(_) => 1,
            Out::Binary(_) => 2,
            Out::Ping(_) => 9,
            Out::Pong(_) => 10,
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            Out::Text(t) => t.clone().into_bytes(),
            Out::Binary(b) => b.to_vec(),
            Out::Ping(p) | Out::Pong(p) => p.as_ref().map(|b| b.to_vec()).unwrap_or_default(),
        }
    }
}

pub fn gen_out(s: &mut Src, len: fn(&mut Src) -> usize) -> Out {
    let n = len(s);
    match s.weighted(&[4, 4, 2, 2]) {
        0 => Out::Text(gen_text(s, n)),
        1 => Out::Binary(s.blob(n).into()),
        2 => Out::Ping(if n == 0 && s.bool() { None } else { Some(s.blob(n).into()) }),
        _ => Out::Pong(if n == 0 && s.bool() { None } else { Some(s.blob(n).into()) }),
    }
}

/// The bytes without the beginning of a frame at their end.
pub fn whole_frames(b: &[u8]) -> &[u8] {
    let mut at = 0;
    while let RefFrame::Frame { len, .. } = ref_frame(&b[at..]) {
        at += len;
    }
    match ref_frame(&b[at..]) {
        RefFrame::Cut => &b[..at],
        _ => b,
    }
}

/// Read what the server wrote: final unmasked frames with the shortest length encoding.
pub fn read_server_frames(b: &[u8]) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let mut at = 0;
    let mut v = vec![];
    while at < b.len() {
        match ref_frame(&b[at..]) {
            RefFrame::Frame { fin, rsv, op, masked, payload, len } => {
                ensure!(fin, "frame {} is not final", v.len());
                ensure!(rsv == 0, "frame {} has reserved bits", v.len());
                ensure!(!masked, "frame {} is masked", v.len());
                ensure!([1, 2, 8, 9, 10].contains(&op), "frame {} has opcode {}", v.len(), op);
                let n = payload.len();
                let head = if n < 126 { 2 } else if n < 65536 { 4 } else { 10 };
                ensure!(len - n == head, "frame {} has a header of {} bytes for {} bytes of payload", v.len(), len - n, n);
                at += len;
                v.push((op, payload));
            }
            _ => return Err(format!("the bytes after frame {} are no frame: {}", v.len(), show(&b[at..]))),
        }
    }
    Ok(v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SendCase {
    /// message and the way it is sent: 0 send, 1 send of a copy, 2 send_to_stream
    messages: Vec<(Out, u8)>,
    limits: Vec<usize>,
    fail_after: Option<usize>,
}

fn gen_w03(s: &mut Src) -> SendCase {
    let messages = s.vec(1, 5, |s| (gen_out(s, gen_len), s.below(3) as u8));
    let total: usize = messages.iter().map(|(m, _)| m.payload().len() + 4).sum();
    SendCase {
        messages,
        limits: if s.bool() {
            vec![]
        } else if total > 5000 {
            s.vec(1, 3, |s| s.range(500, 30000))
        } else {
            s.vec(1, 4, |s| s.range(1, 50))
        },
        fail_after: if s.chance(1, 4) { Some(s.below(total as u64) as usize) } else { None },
    }
}

fn check_w03(c: &SendCase) -> Verdict {
    let sim = Sim::new();
    let conn = sim.socket();
    sim.write_limits(conn, c.limits.clone());
    if let Some(n) = c.fail_after {
        sim.write_fail_after(conn, n)
    }
    let msgs = c.messages.clone();
    let p = sim.spawn_root(move || {
        let stream = take_stream(conn);
        let ws = WebSocket::new(stream.clone());
        for (m, how) in msgs {
            let r = match how {
                0 => ws.send(m.message()),
                1 => ws.make_copy().send(m.message()),
                _ => WebSocket::send_to_stream(stream.clone(), m.message()),
            };
            note(if r.is_ok() { "ok" } else { "err" });
        }
    });
    ensure!(sim.run(1_000_000, |_| 0) == RunEnd::Idle, "sending does not end");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("sending panics: {}", m));
    }
    ensure!(sim.exit_of(p).is_some(), "sending waits for something");
    let notes = sim.notes();
    let out = sim.output(conn);
    if let Some(n) = c.fail_after {
        // messages that fit before the failure are whole and acknowledged, the next one is an error
        let mut at = 0;
        for (i, (m, _)) in c.messages.iter().enumerate() {
            let len = m.payload().len();
            let size = len + if len < 126 { 2 } else if len < 65536 { 4 } else { 10 };
            if at + size > n {
                ensure!(notes[i] == "err", "the stream failed inside message {}, but sending it reports success", i);
                break;
            }
            ensure!(notes[i] == "ok", "message {} was sent but is reported as failed", i);
            at += size;
        }
        ensure!(out.len() >= at, "{} bytes on the stream, but messages of {} bytes are reported as sent", out.len(), at);
        let got = read_server_frames(&out[..at])?;
        for (i, (op, p)) in got.iter().enumerate() {
            ensure!(*op == c.messages[i].0.op() && *p == c.messages[i].0.payload(), "message {} arrives as opcode {} with {}", i, op, show(p));
        }
        return Ok(Seen::new(true).label(true, "failing stream"));
    }
    ensure!(notes.iter().all(|n| n == "ok"), "sending reports an error on a working stream");
    let got = read_server_frames(&out)?;
    ensure_eq!(got.len(), c.messages.len(), "frames written");
    for (i, (op, p)) in got.iter().enumerate() {
        let m = &c.messages[i].0;
        ensure_eq!(*op, m.op(), format!("opcode of message {}", i));
        ensure!(*p == m.payload(), "payload of message {}: {} bytes {}, expected {} bytes {}", i, p.len(), show(p), m.payload().len(), show(&m.payload()));
    }
    let n = |f: fn(usize) -> bool| c.messages.iter().any(|(m, _)| f(m.payload().len()));
    Ok(Seen::new(n(|l| l > 0))
        .label(!c.limits.is_empty(), "partial writes")
        .label(n(|l| (124..=128).contains(&l)), "around 126")
        .label(n(|l| (65534..=65537).contains(&l)), "around 65536")
        .label(n(|l| l > 65537), "64-bit length"))
}

fn fixed_w03() -> Vec<SendCase> {
    let mut v = vec![];
    for n in [0usize, 1, 2, 124, 125, 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 100_000, 1 << 17] {
        for how in 0..3u8 {
            let b: Bytes = vec![0x5a; n].into();
            v.push(SendCase { messages: vec![(Out::Binary(b.clone()), how), (Out::Text("x".repeat(n)), how), (Out::Ping(Some(b.clone())), how), (Out::Pong(Some(b)), how), (Out::Ping(None), how)], limits: vec![], fail_after: None });
        }
    }
    v
}

// ---------------------------------------------------------------- W04: messages

/// What the client sends, as messages.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum In {
    /// a data message cut into fragments at these positions (modulo its length)
    Data { text: bool, payload: Bytes, cuts: Vec<usize> },
    Ping(Bytes),
    Pong(Bytes),
    Close(Bytes),
    /// a message that is never finished: a close frame comes instead of its last fragments
    CloseInside { text: bool, parts: Vec<Bytes>, close: Bytes },
    /// frames that break the protocol
    Bad(Bad),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// a continuation without a start
    Continuation { fin: bool, payload: Bytes },
    /// a new data frame inside a fragmented message
    Nested { text: bool, first: Bytes, inner_text: bool, inner_fin: bool, inner: Bytes },
    Reserved { op: u8, fin: bool, payload: Bytes },
    /// reserved bits on frame `at` of a message in two fragments (or one)
    Rsv { rsv: u8, op: u8, two: bool, second: bool, payload: Bytes },
    Unmasked { op: u8, fin: bool, payload: Bytes },
    NotUtf8 { payload: Bytes, cuts: Vec<usize> },
}

pub fn fragments(text: bool, payload: &[u8], cuts: &[usize], mask: &mut dyn FnMut() -> [u8; 4]) -> Vec<Fr> {
    let mut at: Vec<usize> = cuts.iter().map(|c| c % (payload.len() + 1)).collect();
    at.sort_unstable();
    at.push(payload.len());
    let mut v = vec![];
    let mut from = 0;
    for (i, to) in at.iter().enumerate() {
        v.push(Fr { fin: i + 1 == at.len(), rsv: 0, op: if i > 0 { 0 } else if text { 1 } else { 2 }, mask: Some(mask()), enc: 0, payload: payload[from..*to].into() });
        from = *to;
    }
    v
}

impl In {
    pub fn frames(&self, mask: &mut dyn FnMut() -> [u8; 4]) -> Vec<Fr> {
        let mut f = |fin: bool, rsv: u8, op: u8, p: &Bytes| Fr { fin, rsv, op, mask: Some(mask()), enc: 0, payload: p.clone() };
        match self {
            In::Ping(p) => vec![f(true, 0, 9, p)],
            In::Pong(p) => vec![f(true, 0, 10, p)],
            In::Close(p) => vec![f(true, 0, 8, p)],
            In::CloseInside { text, parts, close } => {
                let mut v: Vec<Fr> = parts.iter().enumerate().map(|(i, p)| f(false, 0, if i > 0 { 0 } else { 2 - *text as u8 }, p)).collect();
                v.push(f(true, 0, 8, close));
                v
            }
            In::Bad(b) => match b {
                Bad::Continuation { fin, payload } => {
                    let mut v = vec![f(*fin, 0, 0, payload)];
                    if !fin {
                        v.push(f(true, 0, 0, payload))
                    }
                    v
                }
                Bad::Nested { text, first, inner_text, inner_fin, inner } => vec![f(false, 0, 2 - *text as u8, first), f(*inner_fin, 0, 2 - *inner_text as u8, inner), f(true, 0, 0, inner)],
                Bad::Reserved { op, fin, payload } => {
                    let mut v = vec![f(*fin, 0, *op, payload)];
                    if !fin {
                        v.push(f(true, 0, 0, payload))
                    }
                    v
                }
                Bad::Rsv { rsv, op, two, second, payload } => {
                    if *two {
                        vec![f(false, if *second { 0 } else { *rsv }, 1 + op % 2, payload), f(true, if *second { *rsv } else { 0 }, 0, payload)]
                    } else {
                        vec![f(true, *rsv, *op, payload)]
                    }
                }
                Bad::Unmasked { op, fin, payload } => {
                    let mut x = f(*fin, 0, *op, payload);
                    x.mask = None;
                    vec![x]
                }
                Bad::NotUtf8 { payload, cuts } => fragments(true, payload, cuts, mask),
            },
            In::Data { text, payload, cuts } => fragments(*text, payload, cuts, mask),
        }
    }
}

pub fn gen_close(s: &mut Src) -> In {
    let close = small(s);
    if s.chance(1, 3) {
        In::CloseInside { text: s.bool(), parts: s.vec(1, 3, |s| gen_text(s, 3).into_bytes().into()), close }
    } else {
        In::Close(close)
    }
}

pub fn small(s: &mut Src) -> Bytes {
    let n = s.range(0, 12);
    s.blob(n).into()
}

fn gen_data(s: &mut Src) -> In {
    let n = gen_len(s);
    let text = s.bool();
    let payload: Bytes = if text { gen_text(s, n).into_bytes().into() } else { s.blob(n).into() };
    if s.chance(1, 40) {
        let k = s.range(20, 600);
        let step = s.range(0, 50);
        return In::Data { text, payload, cuts: (0..k).map(|i| i * step).collect() };
    }
    In::Data { text, payload, cuts: if s.chance(1, 3) { vec![] } else { s.vec(1, 6, |s| if n < 300 { s.below(n as u64 + 1) as usize } else { s.below(1 << 20) as usize }) } }
}

pub fn gen_bad(s: &mut Src) -> Bad {
    match s.below(6) {
        0 => Bad::Continuation { fin: s.bool(), payload: small(s) },
        1 => Bad::Nested { text: s.bool(), first: gen_text(s, 5).into_bytes().into(), inner_text: s.bool(), inner_fin: s.bool(), inner: gen_text(s, 4).into_bytes().into() },
        2 => Bad::Reserved { op: *s.pick(&[3u8, 4, 5, 6, 7, 11, 12, 13, 14, 15]), fin: s.chance(3, 4), payload: small(s) },
        3 => {
            let two = s.bool();
            Bad::Rsv { rsv: s.range(1, 7) as u8, op: *s.pick(&[1u8, 2, 8, 9, 10]), two, second: s.bool(), payload: gen_text(s, 4).into_bytes().into() }
        }
        4 => Bad::Unmasked { op: *s.pick(&[1u8, 2, 8, 9, 10]), fin: true, payload: gen_text(s, 3).into_bytes().into() },
        _ => {
            let mut p = gen_text(s, 6).into_bytes();
            let bad: &[u8] = s.pick(&[&b"\xff"[..], b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe6\xbc", b"\x80", b"\xf0\x9f\x98"]);
            let at = if s.chance(1, 3) {
                p.len()
            } else {
                let mut k = s.below(p.len() as u64 + 1) as usize;
                while k < p.len() && p[k] & 0xc0 == 0x80 {
                    k += 1
                }
                k
            };
            p.splice(at..at, bad.iter().copied());
            if std::str::from_utf8(&p).is_ok() {
                p.push(0xff)
            }
            let n = p.len() as u64;
            Bad::NotUtf8 { payload: p.into(), cuts: s.vec(0, 4, |s| s.below(n + 1) as usize) }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MessageCase {
    script: Vec<In>,
    masks: Vec<[u8; 4]>,
    cuts: Vec<usize>,
    /// bytes missing at the end of the stream
    missing: usize,
    reset: bool,
}

pub fn masker(masks: &[[u8; 4]]) -> impl FnMut() -> [u8; 4] + '_ {
    let mut i = 0;
    move || {
        i += 1;
        if masks.is_empty() {
            [0; 4]
        } else {
            masks[(i - 1) % masks.len()]
        }
    }
}

fn gen_w04(s: &mut Src) -> MessageCase {
    let mut script = s.vec(1, 6, |s| match s.weighted(&[8, 1, 1]) {
        0 => gen_data(s),
        1 => In::Ping(small(s)),
        _ => In::Pong(small(s)),
    });
    match s.weighted(&[4, 5, 1]) {
        0 => {}
        1 => {
            script.push(In::Bad(gen_bad(s)));
            if s.bool() {
                script.push(gen_data(s))
            }
        }
        _ => script.push(In::Close(small(s))),
    }
    MessageCase { script, masks: s.vec(1, 3, gen_mask), cuts: gen_cuts(s), missing: if s.chance(1, 4) { s.range(1, 30) } else { 0 }, reset: s.chance(1, 8) }
}

#[derive(Debug, PartialEq, Clone)]
enum Got {
    Text(Bytes),
    Binary(Bytes),
    Ping(Bytes),
    Pong(Bytes),
    Close,
    Violation,
}
fn got_of(r: Result<Message, DecodeMessageError>) -> Got {
    match r {
        Ok(Message::Text(t)) => Got::Text(t.into_bytes().into()),
        Ok(Message::Binary(b)) => Got::Binary(b.into()),
        Ok(Message::Ping(p)) => Got::Ping(p.unwrap_or_default().into()),
        Ok(Message::Pong(p)) => Got::Pong(p.unwrap_or_default().into()),
        Err(DecodeMessageError::ClientSentCloseFrame) => Got::Close,
        Err(DecodeMessageError::ClientProtocolViolationError) => Got::Violation,
    }
}

fn check_w04(c: &MessageCase) -> Verdict {
    let mut wire = vec![];
    // expected item, and where its last byte is
    let mut want: Vec<(Got, usize)> = vec![];
    let mut mask = masker(&c.masks);
    let mut fragmented = false;
    let mut split_char = false;
    for m in &c.script {
        let fs = m.frames(&mut mask);
        if let In::Data { text, .. } = m {
            fragmented |= fs.len() > 1;
            split_char |= *text && fs.iter().any(|f| std::str::from_utf8(&f.payload).is_err());
        }
        for f in &fs {
            f.wire(&mut wire);
        }
        let g = match m {
            In::Data { text: true, payload, .. } => Got::Text(payload.clone()),
            In::Data { text: false, payload, .. } => Got::Binary(payload.clone()),
            In::Ping(p) => Got::Ping(p.clone()),
            In::Pong(p) => Got::Pong(p.clone()),
            In::Close(_) | In::CloseInside { .. } => Got::Close,
            In::Bad(_) => Got::Violation,
        };
        want.push((g, wire.len()));
    }
    let cut = wire.len().saturating_sub(c.missing);
    let feed = Feed::new(&wire[..cut], &c.cuts, if c.reset { End::Reset } else { End::Eof });
    let next = || lunatic::sim::quietly(|| Message::next(feed.clone())).map(got_of).map_err(|p| format!("decoding panics: {}", p));
    let mut bad = false;
    for (i, (w, end)) in want.iter().enumerate() {
        let g = next()?;
        if *end > cut {
            // the stream ends inside this message
            ensure!(matches!(g, Got::Violation) || (*w == Got::Violation && g == Got::Close && false), "the stream ends inside message {}, but decoding yields {}", i, kit::clip(&format!("{:?}", g)));
            return Ok(Seen::new(true).label(true, "ends inside a message").label(c.reset, "reset"));
        }
        ensure!(g == *w, "message {}: got {}, expected {}", i, kit::clip(&format!("{:?}", g)), kit::clip(&format!("{:?}", w)));
        if *w == Got::Violation || *w == Got::Close {
            bad = *w == Got::Violation;
            break;
        }
    }
    if !bad && !want.iter().any(|(w, _)| *w == Got::Close) {
        let g = next()?;
        ensure!(g == Got::Violation, "after the last message decoding yields {:?}", g);
    }
    Ok(Seen::new(fragmented || bad)
        .label(fragmented, "fragmented")
        .label(split_char, "character split between fragments")
        .label(bad, "violation")
        .label(c.script.iter().any(|m| matches!(m, In::Bad(Bad::Rsv { .. }))), "reserved bits")
        .label(c.script.iter().any(|m| matches!(m, In::Bad(Bad::Nested { .. }))), "nested")
        .label(c.script.len() > 1, "several messages"))
}

/// RFC 6455 5.4: control frames may come between the fragments of a message.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct InterleavedCase {
    text: bool,
    first: Bytes,
    control: u8,
    control_payload: Bytes,
    rest: Bytes,
}

fn check_interleaved(c: &InterleavedCase) -> Verdict {
    let mut wire = vec![];
    for (fin, op, p) in [(false, 2 - c.text as u8, &c.first), (true, c.control, &c.control_payload), (true, 0, &c.rest)] {
        Fr { fin, rsv: 0, op, mask: Some([1, 2, 3, 4]), enc: 0, payload: p.clone() }.wire(&mut wire);
    }
    let sim = Sim::new();
    let conn = sim.socket();
    sim.push(conn, &wire);
    sim.eof(conn);
    sim.spawn_root(move || {
        let mut ws = WebSocket::new(take_stream(conn));
        for _ in 0..3 {
            match ws.next() {
                Some(Ok(Message::Text(t))) => note(format!("data {}", show(t.as_bytes()))),
                Some(Ok(Message::Binary(b))) => note(format!("data {}", show(&b))),
                Some(Ok(_)) => {}
                _ => break,
            }
        }
    });
    sim.run(100_000, |_| 0);
    let whole: Vec<u8> = c.first.iter().chain(c.rest.iter()).copied().collect();
    let want = vec![format!("data {}", show(&whole))];
    ensure_eq!(sim.notes(), want, "a message with a control frame between its fragments: delivered");
    Ok(Seen::new(true))
}

// ---------------------------------------------------------------- W05: sessions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WsOp {
    Next(usize),
    Send(usize, Out),
    Copy(usize),
    Close(usize),
    /// hand all sockets to another process and go on there
    Move,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessionCase {
    script: Vec<In>,
    masks: Vec<[u8; 4]>,
    ops: Vec<WsOp>,
    cuts: Vec<usize>,
    limits: Vec<usize>,
    sched: Sched,
    pieces: Vec<usize>,
    /// after so many pieces the client takes nothing, for so many pieces
    #[serde(default, skip_serializing_if = "Option::is_none")]
    hold: Option<(usize, usize)>,
}

fn gen_w05(s: &mut Src) -> SessionCase {
    fn short(s: &mut Src) -> usize {
        match s.weighted(&[2, 6, 1]) {
            0 => 0,
            1 => s.range(1, 30),
            _ => *s.pick(&[125usize, 126, 200, 65536]),
        }
    }
    let mut script = s.vec(0, 10, |s| match s.weighted(&[5, 5, 2]) {
        0 => {
            let n = short(s);
            let text = s.bool();
            let payload: Bytes = if text { gen_text(s, n).into_bytes().into() } else { s.blob(n).into() };
            In::Data { text, payload, cuts: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.below(n as u64 + 1) as usize) } }
        }
        1 => In::Ping(small(s)),
        _ => In::Pong(small(s)),
    });
    if s.chance(1, 2) {
        script.push(gen_close(s));
        // what comes after a close frame must not be read
        if s.bool() {
            script.push(In::Ping(small(s)))
        }
    }
    SessionCase {
        script,
        masks: s.vec(1, 3, gen_mask),
        ops: s.vec(1, 20, |s| match s.weighted(&[10, 5, 2, 2, 1]) {
            0 => WsOp::Next(s.below(4) as usize),
            1 => WsOp::Send(s.below(4) as usize, gen_out(s, short)),
            2 => WsOp::Copy(s.below(4) as usize),
            3 => WsOp::Close(s.below(4) as usize),
            _ => WsOp::Move,
        }),
        cuts: gen_cuts(s),
        limits: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.range(1, 60)) },
        sched: gen_sched(s),
        pieces: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.range(1, 60)) },
        hold: if s.chance(1, 5) { Some((s.range(0, 8), s.range(1, 12))) } else { None },
    }
}

fn say(r: Result<Message, NextMessageError>) -> String {
    match r {
        Ok(Message::Text(t)) => format!("text {}", show(t.as_bytes())),
        Ok(Message::Binary(b)) => format!("binary {}", show(&b)),
        Ok(Message::Ping(p)) => format!("ping {}", show(&p.unwrap_or_default())),
        Ok(Message::Pong(p)) => format!("pong {}", show(&p.unwrap_or_default())),
        Err(NextMessageError::ClientError) => "client error".into(),
        Err(NextMessageError::ConnectionClosed) => "closed".into(),
    }
}

fn exec(mut socks: Vec<WebSocket>, ops: Vec<WsOp>, from: usize) {
    for (i, op) in ops.iter().enumerate().skip(from) {
        if socks.is_empty() {
            return;
        }
        let n = socks.len();
        match op {
            WsOp::Next(k) => {
                let r = socks[k % n].next();
                match r {
                    Some(r) => note(format!("{} {}", i, say(r))),
                    None => note(format!("{} none", i)),
                }
            }
            WsOp::Send(k, m) => {
                let ok = socks[k % n].send(m.message()).is_ok();
                note(format!("{} send {}", i, ok))
            }
            WsOp::Copy(k) => {
                let c = socks[k % n].make_copy();
                socks.push(c)
            }
            WsOp::Close(k) => {
                let ok = socks.remove(k % n).close().is_ok();
                note(format!("{} close {}", i, ok))
            }
            WsOp::Move => {
                let _ = Process::spawn((socks, ops.clone(), i + 1), |(socks, ops, from), _: Mailbox<()>| exec(socks, ops, from));
                return;
            }
        }
    }
    // keep the connection for the harness to look at
    std::mem::forget(socks);
}

enum CAct {
    Push(Vec<u8>),
    Eof,
    Hold(bool),
}

fn check_w05(c: &SessionCase) -> Verdict {
    let mut wire = vec![];
    let mut mask = masker(&c.masks);
    let mut ends = vec![];
    for m in &c.script {
        for f in m.frames(&mut mask) {
            f.wire(&mut wire);
        }
        ends.push(wire.len());
    }
    // the model
    let mut open = vec![true];
    let mut at = 0;
    let mut notes: Vec<String> = vec![];
    let mut out: Vec<(u8, Vec<u8>)> = vec![];
    let mut read = 0;
    let mut close_replied = false;
    let mut ended = false;
    for (i, op) in c.ops.iter().enumerate() {
        if open.is_empty() {
            break;
        }
        let n = open.len();
        match op {
            WsOp::Next(k) => {
                if !open[k % n] {
                    notes.push(format!("{} closed", i));
                    continue;
                }
                if at == c.script.len() {
                    notes.push(format!("{} client error", i));
                    ended = true;
                    continue;
                }
                read = ends[at];
                notes.push(match &c.script[at] {
                    In::Data { text, payload, .. } => format!("{} {} {}", i, if *text { "text" } else { "binary" }, show(payload)),
                    In::Ping(p) => {
                        out.push((10, p.to_vec()));
                        format!("{} ping {}", i, show(p))
                    }
                    In::Pong(p) => format!("{} pong {}", i, show(p)),
                    In::Close(_) | In::CloseInside { .. } => {
                        out.push((8, vec![]));
                        open[k % n] = false;
                        close_replied = true;
                        format!("{} closed", i)
                    }
                    In::Bad(_) => unreachable!(),
                });
                at += 1;
            }
            WsOp::Send(_, m) => {
                out.push((m.op(), m.payload()));
                notes.push(format!("{} send true", i));
            }
            WsOp::Copy(k) => {
                let o = open[k % n];
                open.push(o)
            }
            WsOp::Close(k) => {
                if open.remove(k % n) {
                    out.push((8, vec![]));
                }
                notes.push(format!("{} close true", i));
            }
            WsOp::Move => {}
        }
    }
    // the real thing
    let sim = Sim::new();
    let conn = sim.socket();
    sim.read_limits(conn, c.cuts.clone());
    sim.write_limits(conn, c.limits.clone());
    let ops = c.ops.clone();
    sim.spawn_root(move || exec(vec![WebSocket::new(take_stream(conn))], ops, 0));
    let mut q = std::collections::VecDeque::new();
    let mut a = 0;
    let mut k = 0;
    while a < wire.len() {
        let n = if c.pieces.is_empty() { wire.len() } else { c.pieces[k % c.pieces.len()].max(1 + wire.len() / 60) };
        let b = (a + n).min(wire.len());
        q.push_back(CAct::Push(wire[a..b].to_vec()));
        a = b;
        k += 1;
    }
    q.push_back(CAct::Eof);
    if let Some((from, n)) = c.hold {
        let from = from % q.len();
        q.insert((from + n).min(q.len()), CAct::Hold(false));
        q.insert(from, CAct::Hold(true));
    }
    let end = drive(&sim, &c.sched, 2_000_000, vec![q], |sim, _, a| match a {
        CAct::Push(b) => sim.push(conn, &b),
        CAct::Eof => sim.eof(conn),
        CAct::Hold(h) => sim.hold(conn, h),
    });
    ensure!(end == RunEnd::Idle, "the session is busy for ever");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("the session panics: {}", m));
    }
    let got = sim.notes();
    for i in 0..got.len().max(notes.len()) {
        let (g, w) = (got.get(i), notes.get(i));
        ensure!(g == w, "operation results differ at {}: got {:?}, expected {:?}", i, g, w);
    }
    let written = read_server_frames(&sim.output(conn))?;
    let brief = |v: &[(u8, Vec<u8>)]| v.iter().map(|(o, p)| format!("{}:{}", o, p.len())).collect::<Vec<_>>().join(" ");
    ensure_eq!(brief(&written), brief(&out), "frames the client receives (opcode:length)");
    for (i, (g, w)) in written.iter().zip(&out).enumerate() {
        // the payload of a close frame is the server's choice
        ensure!(g.1 == w.1 || g.0 == 8, "frame {} has payload {}, expected {}", i, show(&g.1), show(&w.1));
    }
    if !ended {
        ensure_eq!(sim.consumed(conn), read, "bytes of the client the session has read");
    }
    Ok(Seen::new(notes.len() >= 2)
        .label(close_replied, "closed by the client")
        .label(c.script.iter().any(|m| matches!(m, In::CloseInside { .. })) && close_replied, "closed inside a message")
        .label(c.ops.iter().any(|o| matches!(o, WsOp::Close(_))), "closed by the server")
        .label(c.ops.iter().any(|o| matches!(o, WsOp::Copy(_))), "copies")
        .label(c.ops.iter().any(|o| matches!(o, WsOp::Move)), "moved to another process")
        .label(out.iter().any(|(o, _)| *o == 10), "pongs")
        .label(ended, "client ended"))
}

/// Two processes use one connection: one reads (and so answers pings), the other sends through a copy.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SharedCase {
    pings: Vec<Bytes>,
    sends: Vec<Out>,
    cuts: Vec<usize>,
    sched: Sched,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    hold: bool,
}

fn check_shared(c: &SharedCase) -> Verdict {
    let sim = Sim::new();
    let conn = sim.socket();
    sim.read_limits(conn, c.cuts.clone());
    let (n, sends) = (c.pings.len(), c.sends.clone());
    sim.spawn_root(move || {
        let mut ws = WebSocket::new(take_stream(conn));
        let copy = ws.make_copy();
        let _ = Process::spawn((copy, sends), |(ws, sends), _: Mailbox<()>| {
            for m in sends {
                if ws.send(m.message()).is_err() {
                    note("send failed")
                }
            }
        });
        for _ in 0..n {
            match ws.next() {
                Some(Ok(Message::Ping(_))) => {}
                r => note(format!("next yields {:?}", r)),
            }
        }
    });
    let mut wire = vec![];
    for p in &c.pings {
        Fr { fin: true, rsv: 0, op: 9, mask: Some([3, 1, 4, 1]), enc: 0, payload: p.clone() }.wire(&mut wire);
    }
    sim.push(conn, &wire);
    let mut q = std::collections::VecDeque::new();
    if c.hold {
        q.extend([CAct::Hold(true), CAct::Hold(false)])
    }
    let end = drive(&sim, &c.sched, 1_000_000, vec![q], |sim, _, a| match a {
        CAct::Hold(h) => sim.hold(conn, h),
        _ => {}
    });
    ensure!(end == RunEnd::Idle, "busy for ever");
    ensure!(sim.notes().is_empty() && sim.panics().is_empty(), "{:?} {:?}", sim.notes(), sim.panics());
    let got = read_server_frames(&sim.output(conn))?;
    // the two sequences, each in its order
    let pongs: Vec<&(u8, Vec<u8>)> = got.iter().filter(|(o, p)| *o == 10 && p.first() == Some(&b'!')).collect();
    let rest: Vec<&(u8, Vec<u8>)> = got.iter().filter(|(o, p)| !(*o == 10 && p.first() == Some(&b'!'))).collect();
    ensure!(pongs.iter().map(|x| &x.1[..]).eq(c.pings.iter().map(|p| &p[..])), "pongs: {}", kit::clip(&format!("{:?}", pongs)));
    ensure!(rest.iter().map(|x| (x.0, x.1.clone())).eq(c.sends.iter().map(|m| (m.op(), m.payload()))), "messages sent: {}", kit::clip(&format!("{:?}", rest)));
    let mixed = got.len() > 2 && got.windows(2).filter(|w| (w[0].0 == 10) != (w[1].0 == 10)).count() > 1;
    Ok(Seen::new(!c.pings.is_empty() && !c.sends.is_empty()).label(mixed, "interleaved"))
}

/// A long session, described briefly.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCase {
    received: usize,
    ops: usize,
    /// length of the longest payloads
    longest: usize,
    salt: u64,
    closed: bool,
    cuts: Vec<usize>,
    limit: usize,
    sched: Sched,
    hold: Option<(usize, usize)>,
    two: bool,
}
fn gen_long_session(s: &mut Src) -> LongCase {
    let longest = *s.pick(&[0usize, 10, 300, 300, 70_000, 1 << 20, 5 << 20, 17_000_000]);
    let most = match longest {
        0..=300 => *s.pick(&[50, 300, 1500]),
        70_000 => 100,
        _ => 8,
    };
    LongCase {
        received: s.range(1, most),
        ops: s.range(1, most * 2),
        longest,
        salt: s.below(1 << 30),
        closed: s.bool(),
        cuts: if longest > 300 { vec![*s.pick(&[1460usize, 4096, 65536])] } else { gen_cuts(s) },
        limit: if s.bool() { 0 } else { (longest / 100).max(s.range(1, 100)) },
        sched: gen_sched(s),
        hold: if s.chance(1, 4) { Some((s.range(0, 8), s.range(1, 12))) } else { None },
        two: s.chance(1, 4),
    }
}
fn check_long(c: &LongCase) -> Verdict {
    let mut r = kit::Rng::new(c.salt);
    let text = |r: &mut kit::Rng, first: &str| -> String {
        let n = match r.below(8) {
            0 => 0,
            1 => c.longest,
            2 => c.longest / 2,
            _ => r.below(c.longest as u64 + 1).min(20) as usize,
        };
        let unit = format!("{}é€", r.below(1_000_000));
        let mut t = String::from(first);
        while t.len() < n {
            t += &unit
        }
        t
    };
    let out = |r: &mut kit::Rng| {
        let t = text(r, "");
        match r.below(6) {
            0 | 1 => Out::Text(t),
            2 | 3 => Out::Binary(t.into_bytes().into()),
            4 => Out::Ping(Some(t.into_bytes().into())),
            _ => Out::Pong(Some(format!("own{}", t).into_bytes().into())),
        }
    };
    let ping = |r: &mut kit::Rng| -> Bytes { format!("!{}", r.below(1 << 40)).into_bytes().into() };
    let limits = if c.limit == 0 { vec![] } else { vec![c.limit] };
    if c.two {
        let pings = (0..c.received).map(|_| ping(&mut r)).collect();
        let sends = (0..c.ops).map(|_| out(&mut r)).collect();
        check_shared(&SharedCase { pings, sends, cuts: c.cuts.clone(), sched: c.sched.clone(), hold: c.hold.is_some() })?;
    } else {
        let mut script: Vec<In> = (0..c.received)
            .map(|_| match r.below(4) {
                0 => In::Ping(ping(&mut r)),
                1 => In::Pong(ping(&mut r)),
                _ => {
                    let t = text(&mut r, "");
                    let cuts = (0..r.below(5)).map(|_| r.below(t.len() as u64 + 1) as usize).collect();
                    In::Data { text: r.below(2) == 0, payload: t.into_bytes().into(), cuts }
                }
            })
            .collect();
        if c.closed {
            script.push(In::Close(Bytes::default()))
        }
        let ops = (0..c.ops)
            .map(|_| {
                let k = r.below(40) as usize;
                match r.below(200) {
                    0..=2 => WsOp::Copy(k),
                    3 => WsOp::Close(k + 1),
                    4 => WsOp::Move,
                    n if n < 130 => WsOp::Next(k),
                    _ => WsOp::Send(k, out(&mut r)),
                }
            })
            .collect();
        check_w05(&SessionCase { script, masks: vec![[1, 2, 3, 4], [0xff, 0, 9, 7]], ops, cuts: c.cuts.clone(), limits, sched: c.sched.clone(), pieces: if c.hold.is_some() { vec![1] } else { vec![] }, hold: c.hold })?;
    }
    Ok(Seen::new(c.received + c.ops >= 20 || c.longest > 60_000)
        .label(c.two, "two processes")
        .label(c.received > 500, "over 500 messages received")
        .label(c.ops > 500, "over 500 operations")
        .label(c.longest > 1 << 20, "over 1 MiB")
        .label(c.hold.is_some(), "a slow client"))
}

// ---------------------------------------------------------------- W06: hostile bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HostileCase {
    bytes: Bytes,
    cuts: Vec<usize>,
    end: u8, // 0 end of stream, 1 reset, 2 stalls (session part: the rest never comes)
    write_fail: Option<usize>,
}

fn gen_hostile(s: &mut Src) -> HostileCase {
    let bytes = match s.weighted(&[5, 4, 2, 2]) {
        0 => {
            let c = gen_w04(s);
            let mut wire = vec![];
            let mut mask = masker(&c.masks);
            for m in &c.script {
                for f in m.frames(&mut mask) {
                    f.wire(&mut wire)
                }
            }
            wire.truncate(4000);
            mutate(s, wire, &[b"\x00", b"\x80", b"\x81\x80", b"\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\x82\xfe\xff\xff", b"\x88\x80\x01\x02\x03\x04", b"\x89\x81\x01\x02\x03\x04\x05", b"\x7f", b"\xff", b"\x01\x80\x00\x00\x00\x00"])
        }
        1 => {
            // headers that claim more than comes
            let mut out = vec![];
            for _ in 0..s.range(0, 2) {
                Fr { fin: true, rsv: 0, op: *s.pick(&[1u8, 2, 9]), mask: Some(gen_mask(s)), enc: 0, payload: small(s) }.wire(&mut out);
            }
            if s.chance(1, 3) {
                Fr { fin: false, rsv: 0, op: *s.pick(&[1u8, 2]), mask: Some(gen_mask(s)), enc: 0, payload: small(s) }.wire(&mut out);
                out.push(if s.bool() { 0x80 } else { 0 });
            } else {
                out.push(*s.pick(&[0x81u8, 0x82, 0x01, 0x02, 0x89, 0x88, 0x8a, 0x80]));
            }
            let claim: u64 = match s.below(8) {
                0 => u64::MAX,
                1 => 1 << 63,
                2 => i64::MAX as u64,
                3 => 1 << 62,
                4 => 1 << 40,
                5 => (1 << 32) + s.below(5),
                6 => 200_000_000,
                _ => 65536 + s.below(100_000),
            };
            out.push(127 | 0x80);
            out.extend(claim.to_be_bytes());
            out.extend(gen_mask(s));
            let n = s.range(0, 60);
            out.extend(s.blob(n));
            let k = if s.chance(1, 4) { s.below(out.len() as u64 + 1) as usize } else { out.len() };
            out.truncate(k);
            out
        }
        2 => s.vec(0, 40, |s| s.byte()),
        _ => {
            let mut out = vec![];
            for _ in 0..s.range(1, 12) {
                Fr { fin: s.bool(), rsv: if s.chance(1, 8) { s.below(8) as u8 } else { 0 }, op: *s.pick(&[0u8, 0, 1, 2, 8, 9, 10, 3]), mask: if s.chance(1, 10) { None } else { Some(gen_mask(s)) }, enc: gen_enc(s), payload: small(s) }.wire(&mut out);
            }
            let k = if s.bool() { s.below(out.len() as u64 + 1) as usize } else { out.len() };
            out.truncate(k);
            out
        }
    };
    HostileCase { bytes: bytes.into(), cuts: gen_cuts(s), end: s.weighted(&[3, 2, 2]) as u8, write_fail: if s.chance(1, 4) { Some(s.below(20) as usize) } else { None } }
}

/// What must come of a byte stream, message by message.
#[derive(Debug, Clone, PartialEq)]
enum Exp {
    Is(Got),
    /// an error, of either kind
    Error,
    /// not decided from here on
    Open,
}

fn expected_messages(b: &[u8]) -> Vec<Exp> {
    let mut v = vec![];
    let mut at = 0;
    let mut partial: Option<(u8, Vec<u8>)> = None;
    loop {
        let RefFrame::Frame { fin, rsv, op, masked, payload, len } = ref_frame(&b[at..]) else {
            v.push(Exp::Error);
            return v;
        };
        at += len;
        if rsv != 0 || (!masked && !payload.is_empty()) || (3..=7).contains(&op) || op > 10 {
            v.push(Exp::Error);
            return v;
        }
        if !masked {
            // unmasked frames without payload: not decided
            v.push(Exp::Open);
            return v;
        }
        if op >= 8 {
            if op == 8 && fin {
                v.push(Exp::Is(Got::Close));
                return v;
            }
            // fragmented or oversized control frames, and those between fragments: not decided
            if !fin || payload.len() > 125 || partial.is_some() {
                v.push(Exp::Open);
                return v;
            }
            v.push(Exp::Is(if op == 9 { Got::Ping(payload.into()) } else { Got::Pong(payload.into()) }));
            continue;
        }
        match (&mut partial, op) {
            (None, 0) | (Some(_), 1 | 2) => {
                v.push(Exp::Error);
                return v;
            }
            (None, _) => partial = Some((op, payload)),
            (Some((_, p)), _) => p.extend(payload),
        }
        if fin {
            let (op, p) = partial.take().unwrap();
            if op == 1 && std::str::from_utf8(&p).is_err() {
                v.push(Exp::Is(Got::Violation));
                return v;
            }
            v.push(Exp::Is(if op == 1 { Got::Text(p.into()) } else { Got::Binary(p.into()) }));
        }
    }
}

fn check_hostile(c: &HostileCase) -> Verdict {
    let want = expected_messages(&c.bytes);
    let feed = Feed::new(&c.bytes, &c.cuts, if c.end == 1 { End::Reset } else { End::Eof });
    let allowed = 16 * c.bytes.len() + (256 << 10);
    let mut seen = Seen::new(!c.bytes.is_empty()).label(want.len() > 1, "messages before the fault").label(want.last() == Some(&Exp::Open), "undecided end");
    for (i, w) in want.iter().enumerate() {
        let (g, peak) = kit::alloc::measure(|| lunatic::sim::quietly(|| Message::next(feed.clone())));
        let g = g.map(got_of).map_err(|p| format!("decoding panics: {}", p))?;
        ensure!(peak <= allowed, "decoding {} bytes allocates {} bytes", c.bytes.len(), peak);
        match w {
            Exp::Is(w) => ensure!(g == *w, "message {}: got {}, expected {}", i, kit::clip(&format!("{:?}", g)), kit::clip(&format!("{:?}", w))),
            Exp::Error => ensure!(matches!(g, Got::Violation | Got::Close), "message {}: got {}, expected an error", i, kit::clip(&format!("{:?}", g))),
            Exp::Open => {}
        }
    }
    // going on after an error is allowed to yield anything, but not to panic, spin or exhaust memory
    for _ in 0..30 {
        let before = feed.consumed();
        let (g, peak) = kit::alloc::measure(|| lunatic::sim::quietly(|| Message::next(feed.clone())));
        let _ = g.map_err(|p| format!("decoding panics: {}", p))?;
        ensure!(peak <= allowed, "decoding {} bytes allocates {} bytes", c.bytes.len(), peak);
        if feed.consumed() == before && feed.left() == 0 {
            break;
        }
    }
    seen = seen.label(c.bytes.len() >= 10 && peak_claim(&c.bytes) > 1 << 20, "claims over a MiB");
    // single frames
    let feed = Feed::new(&c.bytes, &c.cuts, if c.end == 1 { End::Reset } else { End::Eof });
    let mut at = 0;
    for _ in 0..8 {
        let (g, peak) = kit::alloc::measure(|| lunatic::sim::quietly(|| Frame::parse(feed.clone())));
        let g: Result<Frame, ParseFrameError> = g.map_err(|p| format!("parsing a frame panics: {}", p))?;
        ensure!(peak <= allowed, "parsing {} bytes allocates {} bytes", c.bytes.len(), peak);
        match ref_frame(&c.bytes[at..]) {
            RefFrame::Frame { masked, payload, len, .. } if masked || payload.is_empty() => {
                let f = g.map_err(|e| format!("a whole frame is rejected: {:?}", e))?;
                ensure!(f.decoded()[..] == payload[..], "payload {}", show(f.decoded()));
                at += len;
            }
            RefFrame::Frame { .. } => {
                ensure!(g.is_err(), "unmasked payload accepted");
                break;
            }
            _ => {
                ensure!(g.is_err(), "a frame from a stream that ends inside it: {:?}", g);
                break;
            }
        }
    }
    Ok(seen)
}

fn peak_claim(b: &[u8]) -> u64 {
    let mut at = 0;
    loop {
        match ref_frame(&b[at..]) {
            RefFrame::Frame { len, .. } => at += len,
            _ => return if b.len() >= at + 10 && b[at + 1] & 0x7f == 127 { u64::from_be_bytes(b[at + 2..at + 10].try_into().unwrap()) } else { 0 },
        }
    }
}

fn check_hostile_session(c: &HostileCase) -> Verdict {
    let want = expected_messages(&c.bytes);
    let sim = Sim::new();
    let conn = sim.socket();
    sim.read_limits(conn, c.cuts.clone());
    if let Some(n) = c.write_fail {
        sim.write_fail_after(conn, n)
    }
    sim.push(conn, &c.bytes);
    match c.end {
        0 => sim.eof(conn),
        1 => sim.reset(conn),
        _ => {}
    }
    let p = sim.spawn_root(move || {
        let mut ws = WebSocket::new(take_stream(conn));
        for _ in 0..40 {
            match ws.next() {
                Some(Ok(Message::Text(t))) => note(format!("text {}", show(t.as_bytes()))),
                Some(Ok(Message::Binary(b))) => note(format!("binary {}", show(&b))),
                Some(Ok(_)) => {}
                Some(Err(e)) => {
                    note(format!("! {:?}", e));
                    break;
                }
                None => {
                    note("! none");
                    break;
                }
            }
        }
        let _ = ws.close();
    });
    ensure!(sim.run(300_000, |_| 0) == RunEnd::Idle, "the session spins");
    if let Some((_, m)) = sim.panics().first() {
        return Err(format!("the session panics: {}", m));
    }
    // data messages: a prefix of what was sent whole
    let data: Vec<String> = sim.notes().into_iter().filter(|n| !n.starts_with('!')).collect();
    let whole: Vec<String> = want
        .iter()
        .filter_map(|w| match w {
            Exp::Is(Got::Text(t)) => Some(format!("text {}", show(t))),
            Exp::Is(Got::Binary(b)) => Some(format!("binary {}", show(b))),
            _ => None,
        })
        .collect();
    if want.last() != Some(&Exp::Open) {
        ensure!(data.len() <= whole.len() && data[..] == whole[..data.len()], "messages delivered: {:?}, sent: {:?}", data, whole);
        // unless a reply could not be sent, all of them arrive
        let replies = want.iter().any(|w| matches!(w, Exp::Is(Got::Ping(_))));
        if !(replies && (c.write_fail.is_some() || c.end == 1)) {
            ensure!(data.len() == whole.len().min(40), "messages delivered: {:?}, sent: {:?}", data, whole);
        }
    }
    if c.end < 2 {
        ensure!(sim.exit_of(p).is_some(), "the session hangs on a stream that ended");
    }
    Ok(Seen::new(!c.bytes.is_empty()).label(c.end == 1, "reset").label(c.end == 2, "stalled").label(c.write_fail.is_some(), "writes fail"))
}

fn fixed_hostile() -> Vec<HostileCase> {
    let mut v = vec![];
    // every cut of a conversation
    let mut w = vec![];
    for f in [
        Fr { fin: true, rsv: 0, op: 9, mask: Some([1, 2, 3, 4]), enc: 0, payload: b"p"[..].into() },
        Fr { fin: false, rsv: 0, op: 1, mask: Some([5, 6, 7, 8]), enc: 0, payload: "né".as_bytes().into() },
        Fr { fin: false, rsv: 0, op: 0, mask: Some([5, 6, 7, 8]), enc: 0, payload: b""[..].into() },
        Fr { fin: true, rsv: 0, op: 0, mask: Some([9, 6, 7, 8]), enc: 2, payload: b"xt"[..].into() },
        Fr { fin: true, rsv: 0, op: 2, mask: Some([9, 9, 9, 9]), enc: 8, payload: b"bin"[..].into() },
        Fr { fin: true, rsv: 0, op: 8, mask: Some([1, 1, 1, 1]), enc: 0, payload: b"\x03\xe8"[..].into() },
    ] {
        f.wire(&mut w);
    }
    for k in 0..=w.len() {
        for end in 0..3 {
            for write_fail in [None, Some(0), Some(1), Some(4)] {
                v.push(HostileCase { bytes: w[..k].into(), cuts: vec![], end, write_fail });
            }
        }
    }
    // every pair of header bytes, then nothing / a little
    for a in 0..=255u8 {
        for b in [0u8, 1, 125, 126, 127, 128, 129, 253, 254, 255] {
            v.push(HostileCase { bytes: vec![a, b].into(), cuts: vec![], end: 0, write_fail: None });
            v.push(HostileCase { bytes: vec![a, b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5].into(), cuts: vec![1], end: 0, write_fail: None });
        }
    }
    v
}

// ---------------------------------------------------------------- W01: handshake

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Handshake {
    headers: Vec<Line>,
    upgrade: Option<(String, String)>,
    connection: Option<(String, String)>,
    key: Option<(String, String)>,
    order: u8,
    limits: Vec<usize>,
    cuts: Vec<usize>,
    hello: String,
}

fn gen_w01(s: &mut Src) -> Handshake {
    let upgrade = match s.weighted(&[8, 2, 1]) {
        0 => {
            let v = recase(s, "websocket");
            Some((recase(s, "Upgrade"), v))
        }
        1 => Some((recase(s, "Upgrade"), s.pick(&["h2c", "web socket", "websockets", "xwebsocket", "TLS/1.0", "", "web-socket", "ｗebsocket"]).to_string())),
        _ => None,
    };
    let connection = match s.weighted(&[8, 2, 1]) {
        0 => {
            let u = recase(s, "Upgrade");
            let v = match s.below(5) {
                0 => format!("keep-alive, {}", u),
                1 => format!("{}, keep-alive", u),
                2 => format!("{},TE", u),
                _ => u,
            };
            Some((recase(s, "Connection"), v))
        }
        1 => Some((recase(s, "Connection"), s.pick(&["close", "keep-alive", "", "up grade", "Upgrad", "pgrade"]).to_string())),
        _ => None,
    };
    let key = match s.weighted(&[7, 3, 2]) {
        0 => {
            let b: Vec<u8> = s.vec(16, 16, |s| s.byte());
            Some(base64(&b))
        }
        1 => Some(if s.chance(1, 3) {
            // keys of other lengths
            let n = if s.bool() { *s.pick(&[27usize, 28, 29, 55, 56, 63, 64, 65, 119, 120, 128, 300]) } else { s.range(1, 300) };
            s.string(n, n, &['A', 'b', '0', '+', '/', '=', 'z'])
        } else {
            let v = gen_value(s);
            if v.is_empty() {
                "k".into()
            } else {
                v
            }
        }),
        _ => None,
    }
    .map(|v| (recase(s, "Sec-WebSocket-Key"), v));
    let mut headers = gen_fillers(s, 12);
    headers.retain(|l| !l.name.to_ascii_lowercase().starts_with("sec-websocket") && !l.name.eq_ignore_ascii_case("origin"));
    if s.bool() {
        headers.push(Line { name: "Sec-WebSocket-Version".into(), value: "13".into(), before: " ".into(), after: String::new() });
    }
    if s.chance(1, 3) {
        headers.push(Line { name: "Origin".into(), value: "http://h.test".into(), before: " ".into(), after: String::new() });
    }
    for (name, values) in [("Sec-WebSocket-Protocol", &["chat", "chat, superchat"]), ("Sec-WebSocket-Extensions", &["permessage-deflate", "permessage-deflate; client_max_window_bits"])] {
        if s.chance(1, 6) {
            headers.push(Line { name: name.into(), value: s.pick(values).to_string(), before: " ".into(), after: String::new() });
        }
    }
    let n = s.range(0, 20);
    Handshake { headers, upgrade, connection, key, order: s.below(6) as u8, limits: if s.bool() { vec![] } else { s.vec(1, 3, |s| s.range(1, 60)) }, cuts: gen_cuts(s), hello: gen_text(s, n) }
}

fn gen_w01_long(s: &mut Src) -> Handshake {
    let mut c = gen_w01(s);
    let n = if s.bool() { (1usize << s.range(8, 18)) + s.range(0, 2) - 1 } else { s.range(300, 100_000) };
    let unit = s.string(50, 50, &['A', 'b', '0', '+', '/', '=', 'z']);
    let word = unit.repeat(n / 50 + 1)[..n].to_string();
    if s.chance(2, 3) {
        let name = recase(s, "Sec-WebSocket-Key");
        c.key = Some((name, word));
    } else {
        c.headers.truncate(14);
        c.headers.insert(0, Line { name: "X-Long".into(), value: word, before: " ".into(), after: String::new() });
    }
    c.cuts = vec![*s.pick(&[1000usize, 1460, 8192, 1 << 20])];
    c
}

pub fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for ch in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(ch[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => (b & c | !b & d, 0x5A827999u32),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => (b & c | b & d | c & d, 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            (e, d, c, b, a) = (d, c, b.rotate_left(30), a, t);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y)
        }
    }
    let mut out = [0; 20];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

fn ws_handler(req: Request, stream: Stream, _state: u8) -> UsedStream {
    match stream.upgrade(&req) {
        Ok(mut ws) => {
            note("upgraded");
            if let Some(Ok(Message::Text(t))) = ws.next() {
                note(format!("said {}", t));
                let _ = ws.send(Message::Text(format!("echo {}", t)));
            }
            ws.close().unwrap_or_else(|_| UsedStream::empty())
        }
        Err(u) => {
            note("refused");
            u
        }
    }
}

fn check_w01(c: &Handshake) -> Verdict {
    let mut lines: Vec<(String, String)> = c.headers.iter().map(|l| (l.name.clone(), l.value.clone())).collect();
    let mut special: Vec<(String, String)> = [&c.upgrade, &c.connection, &c.key].into_iter().flatten().cloned().collect();
    if !special.is_empty() {
        let k = c.order as usize % special.len();
        special.rotate_left(k);
    }
    lines.extend(special);
    lines.insert(c.order as usize % (lines.len() + 1), ("Host".into(), "h.test".into()));
    let wants_ws = c.upgrade.as_ref().map_or(false, |(_, v)| v.eq_ignore_ascii_case("websocket")) && c.connection.as_ref().map_or(false, |(_, v)| v.to_ascii_lowercase().split(',').any(|t| t.trim() == "upgrade"));
    let ok = wants_ws && c.key.is_some();
    let sim = Sim::new();
    let root = sim.spawn_root(|| Core::bind("127.0.0.1:0", 7u8).expect("bind").for_each(ws_handler));
    sim.run(10_000, |_| 0);
    let conn = sim.connect(0);
    sim.read_limits(conn, c.cuts.clone());
    sim.write_limits(conn, c.limits.clone());
    let mut wire = b"GET /chat HTTP/1.1\r\n".to_vec();
    for (n, v) in &lines {
        wire.extend(format!("{}: {}\r\n", n, v).bytes());
    }
    wire.extend(b"\r\n");
    sim.push(conn, &wire);
    ensure!(sim.run(200_000, |_| 0) == RunEnd::Idle, "busy for ever");
    ensure!(sim.panics().is_empty() && sim.exit_of(root).is_none(), "panics: {:?}", sim.panics());
    let out = sim.take_output(conn);
    if ok {
        ensure_eq!(sim.notes(), vec!["upgraded".to_string()], "the handshake");
        let key = &c.key.as_ref().unwrap().1;
        let accept = base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()));
        check_101(&out, &accept)?;
        // it is a WebSocket now
        let mut w = vec![];
        Fr { fin: true, rsv: 0, op: 1, mask: Some([7, 7, 1, 2]), enc: 0, payload: c.hello.as_bytes().into() }.wire(&mut w);
        sim.push(conn, &w);
        ensure!(sim.run(200_000, |_| 0) == RunEnd::Idle, "busy for ever");
        let got = read_server_frames(&sim.output(conn))?;
        ensure!(got.len() == 2 && got[0] == (1, format!("echo {}", c.hello).into_bytes()) && got[1].0 == 8, "after the handshake the client receives {}", kit::clip(&format!("{:?}", got)));
    } else {
        ensure_eq!(sim.notes(), vec!["refused".to_string()], "the handshake");
        one_400(&out)?;
    }
    // the two functions on their own agree
    let req = Request::parse(Feed::new(&wire, &c.cuts, End::Eof)).map_err(|e| format!("{:?}", e))?.ok_or("none")?;
    if puck::ws::should_upgrade(&req) != wants_ws && c.key.is_some() {
        return Err(format!("should_upgrade says {}", !wants_ws));
    }
    if wants_ws {
        let mut sink = Sink::new(&c.limits, None);
        ensure_eq!(puck::ws::perform_upgrade(&req, &mut sink), ok, "perform_upgrade");
        if ok {
            let key = &c.key.as_ref().unwrap().1;
            check_101(&sink.data, &base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes())))
        } else {
            one_400(&sink.data)
        }
        .map_err(|e| format!("perform_upgrade alone: {}", e))?;
    }
    Ok(Seen::new(c.upgrade.is_some() || c.connection.is_some())
        .label(ok, "accepted")
        .label(wants_ws && !ok, "no key")
        .label(!wants_ws && c.key.is_some(), "refused with a key")
        .label([&c.upgrade, &c.connection, &c.key].into_iter().flatten().any(|(n, _)| n.bytes().all(|b| !b.is_ascii_uppercase())), "lower-case names"))
}

pub fn one_400(out: &[u8]) -> Result<(), String> {
    let end = find(out, b"\r\n\r\n").ok_or_else(|| format!("received {}", show(out)))? + 4;
    match read_head(&out[..end], false) {
        Reading::Valid { first, .. } if first[1] == "400" => {}
        _ => return Err(format!("received {} instead of a 400", show(out))),
    }
    ensure!(find(&out[end..], b"HTTP/1.").is_none(), "received more than one response: {}", show(out));
    Ok(())
}

pub fn check_101(out: &[u8], accept: &str) -> Result<(), String> {
    let end = find(out, b"\r\n\r\n").ok_or_else(|| format!("received {}", show(out)))? + 4;
    let Reading::Valid { first, headers } = read_head(&out[..end], false) else { return Err(format!("received {}", show(out))) };
    ensure_eq!(first[1], "101", "status of the handshake");
    let get = |n: &str| -> Vec<String> { headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| String::from_utf8_lossy(v).to_string()).collect() };
    ensure_eq!(get("Sec-WebSocket-Accept"), vec![accept.to_string()], "Sec-WebSocket-Accept");
    let u = get("Upgrade");
    ensure!(u.len() == 1 && u[0].eq_ignore_ascii_case("websocket"), "Upgrade: {:?}", u);
    let k = get("Connection");
    ensure!(k.len() == 1 && k[0].to_ascii_lowercase().split(',').any(|t| t.trim() == "upgrade"), "Connection: {:?}", k);
    ensure!(out.len() == end, "bytes after the handshake: {}", show(&out[end..]));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const SIM: &str = "the lunatic VM is replaced by a deterministic simulation of its host calls";
    vec![
        Prop {
            id: "W01",
            assumptions: &[SIM, "lists in Upgrade, words that contain `upgrade` in Connection, repeated headers and empty keys: not decided", "SHA-1 and base64 are recomputed by the harness's own code"],
            parts: vec![
                Part::new("handshake", "an Upgrade or Connection header", 200_000, 5_000_000, gen_w01, Vec::new, check_w01),
                Part::new("long keys and headers", "an Upgrade or Connection header", 300, 6_000, gen_w01_long, Vec::new, check_w01),
            ],
        },
        Prop { id: "W02", assumptions: &["streams are in-memory readers delivering the generated pieces"], parts: vec![
            Part::new("frames", "a frame with payload", 150_000, 3_000_000, gen_w02, fixed_w02, check_w02),
            Part::new("large frames", "always: 64 kB to 20 MB", 40, 1_000, gen_large, Vec::new, check_w02_large),
        ] },
        Prop { id: "W03", assumptions: &[SIM, "what was written is read by an independent RFC 6455 decoder"], parts: vec![
            Part::new("send", "a message with payload", 150_000, 4_000_000, gen_w03, fixed_w03, check_w03),
            Part::new("large messages", "always: 64 kB to 20 MB", 40, 1_000, gen_large, Vec::new, check_w03_large),
        ] },
        Prop {
            id: "W04",
            assumptions: &["control frames between fragments are only run as the recorded known finding; fragmented and oversized control frames and unmasked frames without payload are not decided"],
            parts: vec![
                Part::new("messages", "a fragmented message or a violation", 120_000, 3_000_000, gen_w04, Vec::new, check_w04),
                Part::new("large messages", "always: 64 kB to 20 MB", 40, 1_000, gen_large, fixed_w04_large, check_w04_large),
                Part::new(
                    "interleaved control",
                    "always",
                    1,
                    1,
                    |_| interleaved_case(),
                    || vec![interleaved_case()],
                    check_interleaved,
                ),
            ],
        },
        Prop {
            id: "W05",
            assumptions: &[SIM, "up to 20 operations on up to that many copies; long sessions up to 3000 operations, payloads up to 17 MB"],
            parts: vec![
                Part::new("session", "at least two operations with a result", 60_000, 1_500_000, gen_w05, Vec::new, check_w05),
                Part::new(
                    "two processes",
                    "both processes write",
                    15_000,
                    300_000,
                    |s| SharedCase {
                        pings: s.vec(0, 5, |s| {
                            let n = s.range(0, 20);
                            let mut b = b"!".to_vec();
                            b.extend(s.blob(n));
                            b.into()
                        }),
                        sends: s.vec(0, 5, |s| match gen_out(s, |s| s.range(0, 40)) {
                            Out::Pong(_) => Out::Pong(Some(b"own"[..].into())),
                            o => o,
                        }),
                        cuts: gen_cuts(s),
                        sched: gen_sched(s),
                        hold: s.chance(1, 4),
                    },
                    Vec::new,
                    check_shared,
                ),
                Part::new("long sessions", "20 messages and operations or payloads over 60 kB", 150, 3_000, gen_long_session, Vec::new, check_long),
            ],
        },
        Prop {
            id: "W06",
            assumptions: &[SIM, "memory: at most 16 times the received bytes plus 256 KiB", "what is decoded after an error is not decided"],
            parts: vec![
                Part::new("decode", "non-empty input", 400_000, 10_000_000, gen_hostile, fixed_hostile, check_hostile),
                Part::new("session", "non-empty input", 150_000, 4_000_000, gen_hostile, fixed_hostile, check_hostile_session),
            ],
        },
    ]
}

fn interleaved_case() -> InterleavedCase {
    InterleavedCase { text: true, first: b"Hel"[..].into(), control: 9, control_payload: b"p"[..].into(), rest: b"lo"[..].into() }
}
