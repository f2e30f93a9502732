//! Streams with controlled segmentation and faults.
use kit::Src;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;

/// What happens when the data of a [`Feed`] is used up.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum End {
    Eof,
    Reset,
}

pub struct FeedState {
    pub data: Vec<u8>,
    pub pos: usize,
    pub cuts: Vec<usize>,
    pub next_cut: usize,
    pub end: End,
    pub zero: usize,
    pub reads: usize,
    /// transient errors: at this read call, fail once
    pub hiccups: Vec<usize>,
    /// the kind of those errors is `Interrupted` (else `TimedOut`)
    pub interrupt: bool,
    pub in_piece: usize,
}

/// A readable stream delivering `data` in pieces of the given sizes (cyclic; none = all at once).
/// Clones share the position, like clones of a socket.
#[derive(Clone)]
pub struct Feed(pub Rc<RefCell<FeedState>>);

/// Reading this often at the end of the stream means the caller will never stop.
const SPIN: usize = 10_000;

impl Feed {
    pub fn new(data: &[u8], cuts: &[usize], end: End) -> Feed {
        Feed(Rc::new(RefCell::new(FeedState { data: data.to_vec(), pos: 0, cuts: cuts.to_vec(), next_cut: 0, end, zero: 0, reads: 0, hiccups: vec![], interrupt: false, in_piece: 0 })))
    }
    pub fn with_hiccups(self, h: &[usize]) -> Feed {
        self.0.borrow_mut().hiccups = h.to_vec();
        self
    }
    pub fn interrupting(self, yes: bool) -> Feed {
        self.0.borrow_mut().interrupt = yes;
        self
    }
    pub fn consumed(&self) -> usize {
        self.0.borrow().pos
    }
    pub fn left(&self) -> usize {
        let s = self.0.borrow();
        s.data.len() - s.pos
    }
}

impl FeedState {
    /// How many bytes the next read may return.
    fn window(&mut self) -> usize {
        let left = self.data.len() - self.pos;
        if self.cuts.is_empty() {
            return left;
        }
        if self.in_piece == 0 {
            self.in_piece = self.cuts[self.next_cut % self.cuts.len()].max(1);
            self.next_cut += 1;
        }
        self.in_piece.min(left)
    }
    fn gate(&mut self) -> io::Result<()> {
        let n = self.reads;
        self.reads += 1;
        if self.hiccups.contains(&n) {
            return Err(io::Error::new(if self.interrupt { io::ErrorKind::Interrupted } else { io::ErrorKind::TimedOut }, "hiccup"));
        }
        if self.pos == self.data.len() {
            self.zero += 1;
            if self.zero > SPIN {
                panic!("reads the ended stream again and again without stopping");
            }
            if self.end == End::Reset {
                return Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"));
            }
        }
        Ok(())
    }
    fn advance(&mut self, n: usize) {
        self.pos += n;
        self.in_piece = self.in_piece.saturating_sub(n);
    }
}

impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.gate()?;
        let n = s.window().min(buf.len());
        let p = s.pos;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        s.advance(n);
        Ok(n)
    }
}

/// The same as a `BufRead` (for `Body::from_reader`): its buffer is one piece.
pub struct BufFeed {
    feed: Feed,
    buf: Vec<u8>,
}
impl BufFeed {
    pub fn new(feed: Feed) -> BufFeed {
        BufFeed { feed, buf: vec![] }
    }
}
impl Read for BufFeed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.feed.read(buf)
    }
}
impl BufRead for BufFeed {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let mut s = self.feed.0.borrow_mut();
        s.gate()?;
        let n = s.window();
        let p = s.pos;
        self.buf = s.data[p..p + n].to_vec();
        drop(s);
        Ok(&self.buf)
    }
    fn consume(&mut self, amt: usize) {
        self.feed.0.borrow_mut().advance(amt)
    }
}

/// A writer that takes at most the given sizes per call and fails for good after `fail_after` bytes.
pub struct Sink {
    pub data: Vec<u8>,
    pub limits: Vec<usize>,
    next: usize,
    pub fail_after: Option<usize>,
    pub failures: usize,
    /// fail by taking nothing, instead of with an error
    zero: bool,
}
impl Sink {
    pub fn new(limits: &[usize], fail_after: Option<usize>) -> Sink {
        Sink { data: vec![], limits: limits.to_vec(), next: 0, fail_after, failures: 0, zero: false }
    }
    pub fn closing(mut self, yes: bool) -> Sink {
        self.zero = yes;
        self
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if n == 0 {
            return Ok(0);
        }
        if let Some(f) = self.fail_after {
            if self.data.len() >= f {
                self.failures += 1;
                if self.failures > SPIN {
                    panic!("writes to the failed stream again and again without stopping");
                }
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "failed"));
            }
            n = n.min(f - self.data.len());
        }
        if !self.limits.is_empty() {
            n = n.min(self.limits[self.next % self.limits.len()].max(1));
            self.next += 1;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Piece sizes: none (everything at once), single bytes, small, mixed, or around interesting sizes.
pub fn gen_cuts(s: &mut Src) -> Vec<usize> {
    match s.weighted(&[3, 2, 4, 2, 1]) {
        0 => vec![],
        1 => vec![1],
        2 => s.vec(1, 6, |s| s.range(1, 9)),
        3 => s.vec(1, 6, |s| s.range(1, 200)),
        _ => s.vec(1, 3, |s| *s.pick(&[1, 2, 3, 4, 1000, 8191, 8192, 8193, 9999, 10000, 10001])),
    }
}

/// Does a cut fall strictly inside the first `n` bytes?
pub fn cuts_inside(cuts: &[usize], n: usize) -> bool {
    !cuts.is_empty() && cuts[0] < n
}
